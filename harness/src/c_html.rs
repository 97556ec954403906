//! C18: the HTML report, read back by an HTML tokenizer and compared with the report.
use crate::fw::*;
use crate::gen;
use logreduce_model::{Anomaly, AnomalyContext, Content, IndexName, IndexReport, LogReport, Report, Source};
use std::collections::HashMap;
use std::path::PathBuf;
use std::time::{Duration, UNIX_EPOCH};

// ---------------------------------------------------------------- html
#[derive(Debug)]
pub enum Node {
    Text(String),
    Elem(Elem),
}
#[derive(Debug, Default)]
pub struct Elem {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Node>,
}
impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    fn has_class(&self, c: &str) -> bool {
        self.attr("class").map(|v| v.split_whitespace().any(|x| x == c)).unwrap_or(false)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for c in &self.children {
            match c {
                Node::Text(t) => s.push_str(t),
                Node::Elem(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    fn elems<'a>(&'a self, out: &mut Vec<&'a Elem>) {
        for c in &self.children {
            if let Node::Elem(e) = c {
                out.push(e);
                e.elems(out);
            }
        }
    }
    pub fn all(&self) -> Vec<&Elem> {
        let mut v = Vec::new();
        self.elems(&mut v);
        v
    }
    pub fn with_class(&self, c: &str) -> Vec<&Elem> {
        self.all().into_iter().filter(|e| e.has_class(c)).collect()
    }
    pub fn tagged(&self, t: &str) -> Vec<&Elem> {
        self.all().into_iter().filter(|e| e.tag == t).collect()
    }
}

const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];

/// Named references a browser also decodes without a semicolon.
const LEGACY: &[(&str, &str)] = &[("amp", "&"), ("lt", "<"), ("gt", ">"), ("quot", "\""), ("AMP", "&"), ("LT", "<"), ("GT", ">"), ("QUOT", "\""), ("copy", "\u{a9}"), ("nbsp", "\u{a0}"), ("reg", "\u{ae}"), ("para", "\u{b6}"), ("sect", "\u{a7}"), ("not", "\u{ac}"), ("times", "\u{d7}")];
const NAMED: &[(&str, &str)] = &[("apos", "'"), ("lpar", "("), ("rpar", ")"), ("num", "#"), ("sol", "/"), ("equals", "="), ("grave", "`"), ("hellip", "\u{2026}"), ("NewLine", "\n"), ("Tab", "\t"), ("lsqb", "["), ("rsqb", "]")];

fn decode(s: &str, attr: bool) -> String {
    let mut out = String::new();
    let mut rest = s;
    'outer: while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let t = &rest[i + 1..];
        if let Some(n) = t.strip_prefix('#') {
            let (radix, digits) = match n.strip_prefix(['x', 'X']) {
                Some(h) => (16, h),
                None => (10, n),
            };
            let len = digits.chars().take_while(|c| c.is_digit(radix)).count();
            if len > 0 {
                let v = u32::from_str_radix(&digits[..len], radix).unwrap_or(0xfffd);
                out.push(if v == 0 { '\u{fffd}' } else { char::from_u32(v).unwrap_or('\u{fffd}') });
                rest = &digits[len..];
                rest = rest.strip_prefix(';').unwrap_or(rest);
                continue 'outer;
            }
        } else {
            for (n, v) in LEGACY.iter().chain(NAMED) {
                if let Some(r) = t.strip_prefix(n) {
                    if let Some(r) = r.strip_prefix(';') {
                        out.push_str(v);
                        rest = r;
                        continue 'outer;
                    }
                }
            }
            for (n, v) in LEGACY {
                if let Some(r) = t.strip_prefix(n) {
                    if attr && r.chars().next().map(|c| c == '=' || c.is_ascii_alphanumeric()).unwrap_or(false) {
                        continue;
                    }
                    out.push_str(v);
                    rest = r;
                    continue 'outer;
                }
            }
        }
        out.push('&');
        rest = t;
    }
    out.push_str(rest);
    out
}

/// The tree of a document; Err when it is not well nested.
pub fn parse(doc: &str) -> Result<Elem, String> {
    let mut stack: Vec<Elem> = vec![Elem::default()];
    let mut rest = doc;
    fn text(stack: &mut [Elem], t: String) {
        let top = stack.last_mut().unwrap();
        // The parser drops one line feed at the start of a pre element.
        let t = if top.tag == "pre" && top.children.is_empty() { t.strip_prefix('\n').map(|x| x.to_string()).unwrap_or(t) } else { t };
        if let Some(Node::Text(prev)) = top.children.last_mut() {
            prev.push_str(&t);
        } else {
            top.children.push(Node::Text(t));
        }
    }
    while !rest.is_empty() {
        let i = match rest.find('<') {
            None => {
                text(&mut stack, decode(rest, false));
                break;
            }
            Some(i) => i,
        };
        if i > 0 {
            text(&mut stack, decode(&rest[..i], false));
            rest = &rest[i..];
        }
        let b = rest.as_bytes();
        match b.get(1) {
            Some(b'!') | Some(b'?') => {
                // A doctype, a comment, or something browsers take for one.
                let end = if rest.starts_with("<!--") { rest[4..].find("-->").map(|e| e + 7) } else { rest.find('>').map(|e| e + 1) };
                if !rest.to_ascii_lowercase().starts_with("<!doctype") {
                    stack.last_mut().unwrap().children.push(Node::Elem(Elem { tag: "#comment".into(), ..Elem::default() }));
                }
                rest = end.map(|e| &rest[e..]).unwrap_or("");
            }
            Some(b'/') if b.get(2).map(|c| c.is_ascii_alphabetic()).unwrap_or(false) => {
                let end = rest.find('>').ok_or("unterminated end tag")?;
                let name = rest[2..end].split_whitespace().next().unwrap_or("").to_ascii_lowercase();
                let e = stack.pop().unwrap();
                if e.tag != name || stack.is_empty() {
                    return Err(format!("</{}> closes <{}>", name, e.tag));
                }
                stack.last_mut().unwrap().children.push(Node::Elem(e));
                rest = &rest[end + 1..];
            }
            Some(b'/') => {
                stack.last_mut().unwrap().children.push(Node::Elem(Elem { tag: "#comment".into(), ..Elem::default() }));
                rest = rest.find('>').map(|e| &rest[e + 1..]).unwrap_or("");
            }
            Some(c) if c.is_ascii_alphabetic() => {
                let mut e = Elem::default();
                let n = rest[1..].find(|c: char| c.is_ascii_whitespace() || c == '>' || c == '/').ok_or("unterminated tag")? + 1;
                e.tag = rest[1..n].to_ascii_lowercase();
                rest = &rest[n..];
                loop {
                    rest = rest.trim_start_matches(|c: char| c.is_ascii_whitespace() || c == '/');
                    if let Some(r) = rest.strip_prefix('>') {
                        rest = r;
                        break;
                    }
                    if rest.is_empty() {
                        return Err(format!("unterminated <{}>", e.tag));
                    }
                    let n = rest[1..].find(|c: char| c.is_ascii_whitespace() || "/>=".contains(c)).map(|n| n + 1).unwrap_or(rest.len());
                    let name = rest[..n].to_string();
                    rest = rest[n..].trim_start_matches(|c: char| c.is_ascii_whitespace());
                    let mut value = String::new();
                    if let Some(r) = rest.strip_prefix('=') {
                        rest = r.trim_start_matches(|c: char| c.is_ascii_whitespace());
                        let q = rest.chars().next().unwrap_or('>');
                        if q == '"' || q == '\'' {
                            let end = rest[1..].find(q).ok_or("unterminated attribute")?;
                            value = decode(&rest[1..1 + end], true);
                            rest = &rest[end + 2..];
                        } else {
                            let n = rest.find(|c: char| c.is_ascii_whitespace() || c == '>').unwrap_or(rest.len());
                            value = decode(&rest[..n], true);
                            rest = &rest[n..];
                        }
                    }
                    e.attrs.push((name, value));
                }
                let tag = e.tag.clone();
                if VOID.contains(&tag.as_str()) {
                    stack.last_mut().unwrap().children.push(Node::Elem(e));
                } else if ["script", "style", "title", "textarea"].contains(&tag.as_str()) {
                    let low = rest.to_ascii_lowercase();
                    let end = low.find(&format!("</{}", tag)).ok_or_else(|| format!("unterminated <{}>", tag))?;
                    let t = &rest[..end];
                    e.children.push(Node::Text(if tag == "title" || tag == "textarea" { decode(t, false) } else { t.to_string() }));
                    stack.last_mut().unwrap().children.push(Node::Elem(e));
                    let close = rest[end..].find('>').ok_or("unterminated end tag")?;
                    rest = &rest[end + close + 1..];
                } else {
                    stack.push(e);
                }
            }
            _ => {
                text(&mut stack, "<".to_string());
                rest = &rest[1..];
            }
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().tag));
    }
    Ok(stack.pop().unwrap())
}

fn skeleton(e: &Elem, depth: usize, out: &mut Vec<String>) {
    for c in &e.children {
        if let Node::Elem(x) = c {
            out.push(format!("{}{} {}", " ".repeat(depth), x.tag, x.attrs.iter().map(|a| a.0.as_str()).collect::<Vec<_>>().join(" ")));
            skeleton(x, depth + 1, out);
        }
    }
}

/// What the parser of a browser does to any text.
fn norm(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n").replace(['\0', '\u{fffd}'], "")
}

// ---------------------------------------------------------------- reports
const HOSTILE: &[&str] = &[
    "<script>alert(1)</script>", "</pre>", "<pre>", "</div>", "</td></tr></table>", "<!--", "-->", "&lt;", "&amp;", "&amp;lt;", "&copy", "&copy;", "&#60;", "&#x3c;", "&quot;", "\"", "'", "<", ">", "&", "</title>", "<title>", "]]>", "\t", "\r", "\" onmouseover=\"alert(1)", "' onload='x", "`", "=", "<b", "</", "<?php", "<![CDATA[",
    "été", "\u{202e}", "\u{2028}", "日本", "\u{1F600}", "\0", "{}", "{0}", "%s", "\\", "\\u003c", "<img src=x onerror=y>", "a < b && c > d", "<hr>", "</script>", "</style>", "<a href=\"", "#", "?x=1&y=2", "javascript:alert(1)", "| ", " | ", "12 | ",
];

fn hostile(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 5) {
        match r.below(5) {
            0 => s.push_str(&gen::word(r)),
            1 => s.push(' '),
            2 => s.push(char::from_u32(r.range(1, 0x2fff) as u32).filter(|c| *c != '\n').unwrap_or('x')),
            _ => s.push_str(*r.pick::<&str>(HOSTILE)),
        }
    }
    if r.chance(1, 40) {
        s.push_str(&"<".repeat(3000));
    }
    s
}

/// Strings of the report, hostile or innocuous.
struct Strings {
    tame: bool,
}
impl Strings {
    fn line(&self, r: &mut Rng) -> String {
        let s = hostile(r);
        if self.tame {
            "innocuous line".into()
        } else {
            s
        }
    }
    fn source(&self, r: &mut Rng) -> Source {
        let dir = hostile(r).replace(['/', '\0'], "-");
        let name = format!("{}.log", hostile(r).replace('\0', "-"));
        let remote = r.chance(1, 3);
        let rel = r.chance(1, 2);
        let (dir, name) = if self.tame { ("dir".to_string(), "file.log".to_string()) } else { (dir, name) };
        if remote {
            let base = format!("http://localhost:8080/{}/", "logs");
            let u = url::Url::parse(&base).unwrap().join(&format!("./{}?q={}", name.replace(['?', '#', '/', '\\'], "_"), dir)).unwrap_or_else(|_| url::Url::parse("http://localhost:8080/logs/x").unwrap());
            let n = if rel && u.as_str().starts_with(&base) { base.len() } else { 0 };
            Source::Remote(n, u)
        } else {
            let base = format!("/srv/{}/", dir);
            Source::Local(if rel { base.len() } else { 0 }, PathBuf::from(format!("{}{}", base, name)))
        }
    }
    fn content(&self, r: &mut Rng) -> Content {
        let s = self.source(r);
        let z = r.below(4);
        let (u, j) = (self.line(r), self.line(r));
        match z {
            0 => Content::Directory(s),
            1 => serde_json::from_value(serde_json::json!({"Zuul": {
                "api": "http://localhost/api/", "uuid": u, "job_name": j, "project": "p", "branch": "b", "result": "r", "pipeline": "c",
                "log_url": "http://localhost/logs/", "ref_url": "http://localhost/ref", "end_time": "2022-01-01T00:00:00Z", "change": 42}}))
            .unwrap_or(Content::File(s)),
            _ => Content::File(s),
        }
    }
    fn report(&self, r: &mut Rng) -> Report {
        let mut logs = Vec::new();
        let mut idx = HashMap::new();
        let mut total = 0;
        for k in 0..*r.pick(&[0, 1, 1, 2, 3, 6]) {
            let mut anomalies = Vec::new();
            let mut pos = 0;
            for _ in 0..*r.pick(&[1usize, 1, 2, 4, 12]) {
                let nb = r.below(4);
                let na = r.below(4);
                let squeezed = r.chance(1, 10);
                let before: Vec<String> = (0..nb).map(|_| self.line(r)).collect();
                // The parts of one physical line share its number.
                pos += if squeezed { 1 } else { nb + 1 + r.below(3) * r.below(4000) };
                let anomaly = Anomaly { distance: 0.3 + r.below(701) as f32 / 1000.0, pos, line: self.line(r) };
                if !squeezed {
                    pos += na;
                }
                let after: Vec<String> = (0..na).map(|_| self.line(r)).collect();
                anomalies.push(AnomalyContext { before, anomaly, after });
            }
            total += anomalies.len();
            let h = hostile(r);
            let name = if self.tame { IndexName(format!("n{}", k)) } else { IndexName(format!("n{}{}", k, h)) };
            let nsrc = *r.pick(&[0, 1, 3, 5]);
            let sources: Vec<Source> = (0..nsrc).map(|_| self.source(r)).collect();
            if r.chance(3, 4) {
                idx.insert(name.clone(), IndexReport { train_time: Duration::from_millis(3), sources });
            }
            logs.push(LogReport { test_time: Duration::from_millis(r.below(1000) as u64), line_count: 10000, byte_count: 100, anomalies, source: self.source(r), index_name: name });
        }
        Report {
            created_at: UNIX_EPOCH + Duration::from_secs(r.below(4_000_000_000) as u64),
            run_time: Duration::from_millis(r.below(1_000_000) as u64),
            target: self.content(r),
            baselines: (0..r.below(4)).map(|_| self.content(r)).collect(),
            log_reports: logs,
            index_reports: idx,
            index_errors: (0..r.below(3)).map(|_| vec![self.source(r)]).collect(),
            read_errors: (0..r.below(3)).map(|_| (self.source(r), self.line(r))).collect(),
            total_line_count: if r.chance(1, 10) { 0 } else { total * 7 + r.below(100000) },
            total_anomaly_count: total,
        }
    }
}

/// `shown` is `want`, possibly followed by the indentation of the closing tag.
fn same(shown: &str, want: &str) -> bool {
    let (s, w) = (norm(shown), norm(want));
    // Elements other than pre start with the line feed of the opening tag.
    s.starts_with(&w) && s[w.len()..].chars().all(|c| c == ' ' || c == '\n')
}
fn same_trim(shown: &str, want: &str) -> bool {
    norm(shown).trim() == norm(want).trim()
}

pub fn check_page(c: &mut Case, rep: &Report, page: &str) -> Result<Elem, Stop> {
    let doc = match parse(page) {
        Ok(d) => d,
        Err(e) => return viol("nesting", format!("the page is not well nested: {}", e)),
    };
    // The lines.
    let blocks = doc.with_class("loglines");
    ensure!(blocks.len() == rep.log_reports.len(), "blocks", "{} blocks of lines for {} sources", blocks.len(), rep.log_reports.len());
    for (b, l) in blocks.iter().zip(&rep.log_reports) {
        let pres = b.tagged("pre");
        let mut want: Vec<(Option<usize>, bool, &str)> = Vec::new();
        for a in &l.anomalies {
            let n = a.before.len();
            for (i, t) in a.before.iter().enumerate() {
                want.push(((a.anomaly.pos > n).then(|| a.anomaly.pos - n + i), false, t));
            }
            want.push((Some(a.anomaly.pos), true, &a.anomaly.line));
            for (i, t) in a.after.iter().enumerate() {
                want.push((Some(a.anomaly.pos + 1 + i), false, t));
            }
        }
        ensure!(pres.len() == want.len(), "line-count", "{} lines shown for {} lines of {:?}", pres.len(), want.len(), l.source);
        for (k, (p, (num, anomaly, line))) in pres.iter().zip(&want).enumerate() {
            let t = p.text();
            let (head, shown) = match t.split_once("| ") {
                Some(x) => x,
                None => return viol("line-format", format!("line {} is shown as {:?}", k, t)),
            };
            ensure!(same(shown, line), "line-text", "line {} of {:?} is shown as {:?} instead of {:?}", k, l.source, shown, line);
            ensure!(p.children.iter().all(|n| matches!(n, Node::Text(_))), "line-markup", "line {} contains elements: {:?}", k, p);
            let shown_num = head.split_whitespace().last().and_then(|x| x.parse::<usize>().ok());
            if let Some(n) = num {
                ensure!(shown_num == Some(*n), "line-number", "line {} ({}) has the number {:?} instead of {}", k, if *anomaly { "anomaly" } else { "context" }, shown_num, n);
            }
            c.obs(if *anomaly { "anomaly_lines" } else { "context_lines" }, 1);
        }
    }
    // The names and locations.
    let items: Vec<&Elem> = doc.with_class("list-group-item");
    ensure!(items.len() == rep.log_reports.len(), "items", "{} items for {} sources", items.len(), rep.log_reports.len());
    for (it, l) in items.iter().zip(&rep.log_reports) {
        let heads = it.with_class("list-group-item-heading");
        ensure!(heads.len() == 1 && same_trim(&heads[0].text(), l.source.get_relative()), "name", "the source {:?} is named {:?}", l.source, heads.iter().map(|h| h.text()).collect::<Vec<_>>());
        let hrefs: Vec<String> = it.tagged("a").iter().map(|a| norm(a.attr("href").unwrap_or(""))).collect();
        ensure!(hrefs.iter().any(|h| *h == norm(l.source.as_str())), "link", "no link to {:?} in {:?}", l.source.as_str(), hrefs);
        ensure!(it.tagged("a").iter().any(|a| same_trim(&a.text(), l.index_name.as_str())), "index-name", "the index {:?} is not named", l.index_name.as_str());
        ensure!(it.tagged("strong").iter().any(|s| s.text().trim() == l.anomalies.len().to_string()), "anomaly-count", "the count of {} anomalies is missing", l.anomalies.len());
        if let Some(ir) = rep.index_reports.get(&l.index_name) {
            for s in ir.sources.iter().take(3) {
                let n = it.tagged("a").iter().filter(|a| norm(a.attr("href").unwrap_or("")) == norm(s.as_str()) && same_trim(&a.text(), s.as_str())).count();
                ensure!(n >= 1, "baseline-link", "no link to the baseline {:?}", s.as_str());
                c.obs("baseline_links", 1);
            }
        }
        c.obs("sources", 1);
    }
    // The totals.
    let cells: Vec<String> = doc.tagged("td").iter().map(|t| t.text().trim().to_string()).collect();
    let value = |name: &str| cells.iter().position(|x| x == name).and_then(|i| cells.get(i + 1)).cloned();
    let result = value("Result").unwrap_or_default();
    ensure!(result.contains(&format!("(from {} to {})", rep.total_line_count, rep.total_anomaly_count)), "totals", "the totals {} and {} are shown as {:?}", rep.total_line_count, rep.total_anomaly_count, result);
    let target = rep.target.to_string();
    ensure!(value("Target").map(|v| same_trim(&v, &target)).unwrap_or(false), "target", "the target {:?} is shown as {:?}", target, value("Target"));
    let bl = rep.baselines.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
    ensure!(value("Baselines").map(|v| same_trim(&v, &bl)).unwrap_or(false), "baselines", "the baselines {:?} are shown as {:?}", bl, value("Baselines"));
    let titles = doc.tagged("title");
    ensure!(titles.len() == 1 && norm(&titles[0].text()).contains(norm(&target).trim()), "title", "the title of {:?} is {:?}", target, titles.iter().map(|t| t.text()).collect::<Vec<_>>());
    Ok(doc)
}

/// Some report.
pub fn any_report(r: &mut Rng) -> Report {
    Strings { tame: false }.report(r)
}

fn c18(c: &mut Case) -> V {
    let seed = c.rng.u64();
    let rep = Strings { tame: false }.report(&mut Rng::new(seed));
    let tame = Strings { tame: true }.report(&mut Rng::new(seed));
    c.distinct(format!("{:?}", rep.log_reports).as_bytes());
    c.note(format!("{:?}", rep));
    let page = match guard(|| logreduce_report::render(&rep)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return viol("render", format!("rendering fails: {}", e)),
        Err(p) => return viol("panic", p),
    };
    let doc = check_page(c, &rep, &page)?;
    let tame_page = match guard(|| logreduce_report::render(&tame)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return viol("render", format!("rendering fails: {}", e)),
        Err(p) => return viol("panic", p),
    };
    let tame_doc = check_page(c, &tame, &tame_page)?;
    let (mut a, mut b) = (Vec::new(), Vec::new());
    skeleton(&doc, 0, &mut a);
    skeleton(&tame_doc, 0, &mut b);
    if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
        return viol("markup", format!("the strings of the report change its markup at element {}: {:?} instead of {:?}", i, a.get(i), b.get(i)));
    }
    // The same report gives the same page.
    if c.rng.chance(1, 10) {
        let again = logreduce_report::render(&rep).unwrap_or_default();
        ensure!(again == page, "unstable", "rendering twice gives two pages");
    }
    c.obs("pages", 2);
    c.obs("elements", a.len() as u64);
    c.sample(|| format!("{} sources, {} elements, first line {:?}", rep.log_reports.len(), a.len(), rep.log_reports.first().map(|l| &l.anomalies[0].anomaly.line)));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C18",
        level: "exploration",
        rule: "a generated report with hostile lines, names and locations, rendered and read back by an HTML tokenizer, next to the same report with innocuous strings",
        quick: 48000,
        thorough: 720000,
        shards: 8,
        run: c18,
        need: &["anomaly_lines", "context_lines", "baseline_links", "sources", "pages"],
        env: no_env,
        assumptions: &["carriage returns and NUL characters are compared after the normalisation every HTML parser applies", "trailing white space of a line is not distinguished from the indentation of the closing tag"],
    }]
}
