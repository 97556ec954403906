//! C03, C04, C05: the tokenizer.
use crate::fw::*;
use crate::gen;
use logreduce_tokenizer::process;

const STACK: usize = 2 << 20;

const FRAGMENTS: &[&str] = &[
    "/", "-", "|", "(", "[", ")", "]", "@", "\\", "=", ":", " ", "  ", "\t", "'", "\"", "u'", "u\"", "error", "Fail", "abcde", "key", "id", "42", "1", "4.5", "tmp", "req-", "refs/", "http://x", "monday", "é", "日本語", "%", "<", ">", "{", "}", ",", "$", "*", "ff", "xyzzy", "longerword", "\\n", "\\r", ".",
    "_", "AAAA", "sha1:", "aaaa-bbbb-", "\u{a0}", "\u{3000}", "\u{2028}", "\u{200b}", "\u{1F600}", "e\u{301}", "\u{feff}", "\0", "\u{7f}", "==", "TASK", "0x", "::1", "fe80::", "[1", "\u{10FFFF}", "\r", "\u{85}", "ſ", "İ", "K",
];

fn unicode_line(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(4) {
        0 => {
            for _ in 0..r.range(0, 60) {
                s.push_str(*r.pick::<&str>(FRAGMENTS));
            }
        }
        1 => {
            for _ in 0..r.range(0, 200) {
                if let Some(c) = char::from_u32((r.u64() % 0x110000) as u32) {
                    s.push(c)
                }
                if r.chance(1, 8) {
                    s.push(' ')
                }
            }
        }
        2 => {
            let n = r.range(0, 400);
            for _ in 0..n {
                s.push((r.range(0, 127) as u8) as char)
            }
        }
        _ => {
            let (w, k) = (r.range(1, 9), r.range(0, 3));
            let t = gen::template(r, w, k);
            s = gen::instantiate(r, &t);
            for _ in 0..r.range(0, 3) {
                let mut at = r.below(s.len() + 1);
                while !s.is_char_boundary(at) {
                    at -= 1
                }
                s.insert_str(at, *r.pick::<&str>(FRAGMENTS));
            }
        }
    }
    s
}

/// Repetitions of short patterns, the shapes that make a recursive tokenizer recurse.
fn pathological(r: &mut Rng, len: usize) -> String {
    let mut pat = String::new();
    match r.below(3) {
        0 => pat.push_str(*r.pick::<&str>(&["|", "a|", "g:", "a.bc/", "é/", "g_:h=", "x.[1", "[1", "(", "((x", "x@", "é-", "ab.c|", "k=", "\\", "x\\", "a.b-c.d/", "%a", "\"", "u'", "://", "日|"])),
        1 => {
            for _ in 0..r.range(1, 3) {
                pat.push_str(*r.pick::<&str>(FRAGMENTS));
            }
        }
        _ => {
            pat = gen::chars(r, "ab.|/-:=([@\\é", 4);
        }
    }
    let mut s = String::from(*r.pick(&["x ", "", "longer words.", "k ("]));
    while s.len() + pat.len() <= len {
        s.push_str(&pat);
    }
    s
}

fn check_line(line: &str) -> Result<String, Stop> {
    let out = process(line);
    if out != process(line) {
        return viol("impure", format!("two calls differ on {:?}", line));
    }
    if out.trim() != out {
        return viol("untrimmed", format!("{:?} -> {:?}", line, out));
    }
    if out.len() > 16 * line.len() + 64 {
        return viol("size", format!("{} bytes of tokens for a line of {} bytes: {:?}", out.len(), line.len(), line.chars().take(200).collect::<String>()));
    }
    Ok(out)
}

/// A variation of a line, most of them of the same length.
fn relative(r: &mut Rng, s: &str, k: usize) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let words = ["failing", "working", "stopped", "running", "blocked", "allowed"];
    let w: Vec<char> = r.pick::<&str>(&words).chars().collect();
    match k % 4 {
        0 => v.extend(std::iter::once(' ').chain(w)),
        1 => {
            v.insert(0, ' ');
            for c in w.into_iter().rev() {
                v.insert(0, c);
            }
        }
        2 => {
            let at = r.below(v.len() + 1);
            let mid: Vec<char> = std::iter::once(' ').chain(w).chain(std::iter::once(' ')).collect();
            v.splice(at..at, mid);
        }
        _ => {
            // One letter.
            let at = r.below(v.len().max(1));
            if let Some(c) = v.get_mut(at) {
                *c = *r.pick(&['o', 'x', '7', ' ', '/']);
            }
        }
    }
    v.into_iter().collect::<String>().trim().to_string()
}

fn c03(c: &mut Case) -> V {
    let r = c.rng.clone();
    let thorough = c.thorough();
    let kind = c.idx % 8;
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || -> Result<(u64, u64, Vec<String>), Stop> {
            let mut r = r;
            let mut bytes = 0u64;
            let mut lines: Vec<(String, String)> = Vec::new();
            if kind == 0 {
                let len = match r.below(16) {
                    0 => 16384,
                    1 | 2 => 9000,
                    _ => r.range(1000, 6000),
                };
                let len = if thorough && r.chance(1, 40) { 40000 } else { len };
                let s = pathological(&mut r, len);
                bytes += s.len() as u64;
                let out = process(&s);
                if out.trim() != out || out.len() > 16 * s.len() + 64 {
                    return viol("size", format!("{} bytes of tokens for a pathological line of {} bytes starting with {:?}", out.len(), s.len(), s.chars().take(80).collect::<String>()));
                }
                return Ok((1, bytes, vec![s]));
            }
            if kind == 1 {
                // A long line of many ordinary words.
                let mut s = String::new();
                while s.len() < 65536 {
                    s.push_str(&unicode_line(&mut r));
                    s.push(' ');
                }
                bytes += s.len() as u64;
                let out = process(&s);
                if out.len() > 16 * s.len() + 64 {
                    return viol("size", format!("{} bytes of tokens for a line of {} bytes", out.len(), s.len()));
                }
                return Ok((1, bytes, vec![s]));
            }
            // Lines that have much in common: a long beginning, the length, the end.
            let family = if kind == 2 {
                let mut s = String::new();
                let n = *r.pick(&[20, 70, 140, 300, 600, 1200, 2500]);
                while s.len() < n {
                    s.push_str(&unicode_line(&mut r));
                    s.push_str(&gen::word(&mut r));
                    s.push(' ');
                }
                s.trim().to_string()
            } else {
                String::new()
            };
            for k in 0..40 {
                let s = if kind == 2 { relative(&mut r, &family, k) } else { unicode_line(&mut r) };
                bytes += s.len() as u64;
                let out = check_line(&s)?;
                // Surrounding white space.
                let ws = *r.pick(&[" ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000} ", "  \t "]);
                for v in [format!("{}{}", ws, s), format!("{}{}", s, ws), format!("{}{}{}", ws, s, ws)] {
                    let o = process(&v);
                    if o != out {
                        return viol("whitespace", format!("{:?} -> {:?} but {:?} -> {:?}", s, out, v, o));
                    }
                }
                lines.push((s, out));
            }
            // The same lines from other threads, in other orders.
            let hs: Vec<_> = (0..2)
                .map(|_| {
                    let mut ls = lines.clone();
                    r.shuffle(&mut ls);
                    std::thread::spawn(move || ls.into_iter().find(|(l, o)| process(l) != *o))
                })
                .collect();
            for h in hs {
                match h.join() {
                    Ok(None) => {}
                    Ok(Some((l, o))) => return viol("impure", format!("{:?} gave {:?} at first and something else in another thread", l, o)),
                    Err(_) => return viol("panic", "panic in a thread"),
                }
            }
            Ok((lines.len() as u64, bytes, lines.into_iter().map(|l| l.0).collect()))
        })
        .unwrap();
    match h.join() {
        Ok(Ok((n, bytes, lines))) => {
            c.obs("lines", n);
            c.obs("bytes", bytes);
            c.obs(if kind == 0 { "pathological_lines" } else if kind == 1 { "long_lines" } else if kind == 2 { "related_lines" } else { "unicode_lines" }, n);
            for l in &lines {
                if l.len() > 8 {
                    c.distinct(l.as_bytes());
                }
            }
            c.sample(|| format!("{:?}", lines.last().unwrap().chars().take(200).collect::<String>()));
            Ok(())
        }
        Ok(Err(e)) => Err(e),
        Err(_) => viol("panic", PANICS.lock().unwrap().iter().find(|p| !p.0).map(|p| p.1.clone()).unwrap_or("panic".into())),
    }
}

fn c04(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    for i in 0..40 {
        let n = if r.chance(1, 40) { r.range(60, 500) } else { r.range(1, 7) };
        let mut t: Vec<gen::Part> = (0..n).map(|_| gen::Part::Text(gen::word(&mut r))).collect();
        // Every kind in turn, sometimes several in one line.
        let kind = gen::KINDS[(c.idx as usize * 40 + i) % gen::KINDS.len()];
        let mut kinds = vec![kind];
        let s = gen::slot_of(&mut r, kind);
        let at = r.below(t.len() + 1);
        t.insert(at, s);
        while r.chance(1, 4) {
            let s = gen::slot(&mut r);
            if let gen::Part::Slot(k, ..) = &s {
                kinds.push(k)
            }
            let at = r.below(t.len() + 1);
            t.insert(at, s);
        }
        let a = gen::instantiate(&mut r, &t);
        let b = gen::instantiate(&mut r, &t);
        let (ta, tb) = (process(&a), process(&b));
        if ta != tb {
            return viol("volatile", format!("kinds {:?}: {:?} -> {:?} but {:?} -> {:?}", kinds, a, ta, b, tb));
        }
        ensure!(!ta.is_empty(), "empty", "{:?} has no tokens", a);
        if a != b {
            c.obs("pairs", 1);
            for k in kinds {
                c.obs(&format!("kind_{}", k), 1);
            }
            c.distinct(format!("{}|{}", a, b).as_bytes());
        }
        c.sample(|| format!("{:?} ~ {:?} -> {:?}", a, b, ta));
    }
    Ok(())
}

fn strip(token: &str) -> &str {
    let t = token.trim_end_matches("%EQ").trim_end_matches(|c| matches!(c, '/' | '-' | '|' | ':'));
    t
}

/// A line of ordinary words, some joined; returns the line and its words in order.
fn wording(r: &mut Rng) -> (String, Vec<String>) {
    let mut line: Vec<String> = Vec::new();
    let mut words = Vec::new();
    let n = if r.chance(1, 25) { r.range(60, 350) } else { r.range(2, 9) };
    while line.len() < n {
        let a = gen::wide_word(r);
        match r.below(12) {
            0 | 1 => {
                let b = gen::word(r);
                let j = *r.pick(&["/", "-", "|", "(", "[", "@"]);
                let text = match j {
                    "(" => format!("{}({})", a, b),
                    "[" => format!("{}[{}]", a, b),
                    _ => format!("{}{}{}", a, j, b),
                };
                if text.len() > 24 {
                    continue;
                }
                line.push(text);
                words.push(a);
                words.push(b);
            }
            2 => {
                let j = *r.pick(&["-", "|"]);
                let (b, d) = (gen::word(r), gen::wide_word(r));
                let text = format!("{}{}{}{}{}", a, j, b, j, d);
                if text.len() > 24 {
                    continue;
                }
                line.push(text);
                words.extend([a, b, d]);
            }
            3 | 4 => {
                let k = gen::key(r);
                let sep = *r.pick(&["=", ":"]);
                let text = match r.below(3) {
                    0 => format!("{}{}\"{}\"", k, sep, a),
                    1 => format!("{}{}'{}',", k, sep, a),
                    _ => format!("{}{}{}", k, sep, a),
                };
                if text.len() > 24 {
                    continue;
                }
                line.push(text);
                words.push(k);
                words.push(a);
            }
            5 => {
                line.push(format!("\"{}\"", a));
                words.push(a);
            }
            6 => {
                line.push(format!("({})", a));
                words.push(a);
            }
            7 => {
                line.push(format!("{}{}", a, *r.pick(&[",", ";", ":"])));
                words.push(a);
            }
            8 => {
                // Noise next to the words.
                let s = gen::slot_of(r, *r.clone().pick(&["number", "ipv4", "time", "uuid", "url"]));
                line.push(gen::instantiate(r, &[s]));
            }
            9 => {
                // A dotted or underscored name.
                let mut id = a.clone();
                for _ in 0..r.range(1, 2) {
                    id = format!("{}{}{}", id, r.pick(&[".", "_"]), gen::wide_word(r));
                }
                if id.len() > 31 || gen::COOKIES.iter().any(|p| id.starts_with(p)) {
                    continue;
                }
                line.push(id.clone());
                words.push(id);
            }
            10 => {
                // Joined to something that is no word.
                let b = *r.pick(&["no", "v1", "x12", "a123", "12", "b2345", "n00042"]);
                let j = *r.pick(&["/", "-", "|", "@"]);
                let text = if r.chance(1, 2) { format!("{}{}{}", a, j, b) } else { format!("{}{}{}", b, j, a) };
                if text.len() > 24 {
                    continue;
                }
                line.push(text);
                words.push(a);
            }
            _ => {
                line.push(a.clone());
                words.push(a);
            }
        }
    }
    let sep = *r.pick(&[" ", " ", "  ", "\t"]);
    (line.join(sep), words)
}

fn subsequence(words: &[String], tokens: &str) -> Result<(), String> {
    let toks: Vec<&str> = tokens.split(' ').map(strip).collect();
    let mut i = 0;
    for w in words {
        match toks[i..].iter().position(|t| t == w) {
            Some(p) => i += p + 1,
            None => return Err(w.clone()),
        }
    }
    Ok(())
}

fn weight(tokens: &str) -> usize {
    let mut v: Vec<&str> = tokens.split(' ').filter(|t| !t.is_empty()).collect();
    v.sort();
    v.dedup();
    v.len()
}

/// Lines that resemble the noise filters without being noise.
const NEAR_NOISE: &[&str] = &[
    "GET /index HTTP/1.1 answered slowly", "POST / HTTP/1.1 answered slowly", "Trying another mirror failed here", "trying other mirrors failed here", "ovs-vsctl add bridge failed here", "ovs-ofctl add flows failed here", "iptables rules list failed here", "mirror: unreachable today", "echo something strange",
    "+ echo something strange happened", "++ echo several words here", "chrony source ntp.example.edu lost", "memcached storing stopped here", "table |left| and right", "|short| row stays", "++ source ~/stackrc quickly", "starting ovs-ofctl dump later",
    "GET /HTTP/1.1 answered slowly", "* mirror list for base", "* base: mirror unreachable today", "^ caret starts this message", "s/old/new/ replacement happened",
    "iptables rejected -Limit reached here", "ebtables rules -Legacy loaded again", "ovs-ofctl bridge showing ports failed", "ovs-ofctl bridge dump-flowstats failed", "| network name and status here |", "left |seventeen letters| right", "compare a/5bf8>28 sending stopped", "note * mirrors: one two three",
    "said ++ echo something", "run iptables later", "eleven ^- sources remain", "compute>22 sending message", "stats/zuul>33 sending message", "hello>world again here", "^- srcs lost 2 sources", "^~ sources 2 lost here", "ovs-ofctl shows nothing strange", "iptables -List entries failed", "* two mirrors: base.example.org", "++ echoes something strange", "|this row is longer than seventeen letters|", "fetched GET /login HTTP/1.1 twice",
];

fn c05(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    for _ in 0..30 {
        let (line, words) = wording(&mut r);
        if words.len() < 2 || !line.contains([' ', '\t']) {
            continue;
        }
        let out = process(&line);
        if let Err(w) = subsequence(&words, &out) {
            return viol("word-lost", format!("{:?} -> {:?}: word {:?} is missing or out of order", line, out, w));
        }
        c.obs("lines", 1);
        c.obs("words_seen", words.len() as u64);
        c.distinct(line.as_bytes());

        // A line with another word in one place.
        let i = r.below(words.len());
        let mut other = gen::wide_word(&mut r);
        while other == words[i] || other.len() != words[i].len() && line.len() > 20 && r.chance(1, 2) || !gen::is_plain_key(&other) || other.len() > words[i].len() {
            other = gen::wide_word(&mut r);
            if r.chance(1, 50) {
                // same length, one letter changed
                let mut ch: Vec<char> = words[i].chars().collect();
                let k = r.below(ch.len());
                ch[k] = if ch[k] == 'o' { 'u' } else { 'o' };
                other = ch.into_iter().collect();
                break;
            }
        }
        if gen::is_plain_key(&other) && other != words[i] && line.matches(&words[i]).count() == 1 {
            let line2 = line.replacen(&words[i], &other, 1);
            let out2 = process(&line2);
            ensure!(out2 != out, "indistinct", "{:?} and {:?} get the same tokens {:?}", line, line2, out);
            c.obs("distinct_pairs", 1);
        }

        // Weight of an announcing word, by comparison with an ordinary one.
        let p = r.pick::<&str>(gen::PROBLEMS).to_string();
        let p = match r.below(4) {
            0 => p.to_uppercase(),
            1 => p[..1].to_uppercase() + &p[1..],
            2 => p.chars().map(|ch| if r.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }).collect(),
            _ => p,
        };
        let ordinary = loop {
            let w = gen::wide_word(&mut r);
            if !out.contains(&w) && gen::is_plain_key(&w) {
                break w;
            }
        };
        let dressed = |w: &str, style: usize| match style {
            0 => format!("\"{}\"", w),
            1 => format!("{}:", w),
            2 => format!("[{}]", w),
            3 => format!("{},", w),
            4 => format!("({})", w),
            _ => w.to_string(),
        };
        // The line may announce another problem already.
        let (line, out) = match r.below(4) {
            0 => {
                let q = *r.pick::<&str>(gen::PROBLEMS);
                if q.eq_ignore_ascii_case(&p) || words.iter().any(|w| w.eq_ignore_ascii_case(q)) {
                    (line, out)
                } else {
                    let l = if r.chance(1, 2) { format!("{} {}", q, line) } else { format!("{} {}", line, q) };
                    let o = process(&l);
                    c.obs("two_problems", 1);
                    (l, o)
                }
            }
            _ => (line, out),
        };
        let style = r.below(8);
        let front = r.chance(1, 2);
        let mk = |w: &str| if front { format!("{} {}", dressed(w, style), line) } else { format!("{} {}", line, dressed(w, style)) };
        let base = weight(&out);
        let (lp, lo) = (mk(&p), mk(&ordinary));
        let (tp, to) = (process(&lp), process(&lo));
        let (wp, wo) = (weight(&tp) as i64 - base as i64, weight(&to) as i64 - base as i64);
        let lowered: Vec<String> = words.iter().map(|w| w.to_lowercase()).collect();
        // A three letter word followed by ':' is a pair of key and empty value.
        if !lowered.contains(&p.to_lowercase()) && !(style == 1 && p.len() <= 3) {
            ensure!(wo == 1, "ordinary-weight", "{:?} adds {} tokens to {:?}: {:?}", ordinary, wo, out, to);
            ensure!(wp == 5, "problem-weight", "{:?} adds {} tokens instead of 5 to {:?}: {:?}", p, wp, out, tp);
            c.obs("problem_words", 1);
            c.obs(&format!("problem_{}", p.to_lowercase()), 1);
        }
        c.sample(|| format!("{:?} -> {:?}", lp, tp));
    }
    let l = NEAR_NOISE[c.idx as usize % NEAR_NOISE.len()];
    let pre = if r.chance(1, 2) { format!("{} ", gen::word(&mut r)) } else { String::new() };
    for line in [format!("{}{}", pre, l), format!("{} {}", l, gen::word(&mut r))] {
        let toks: Vec<String> = line.split_whitespace().filter(|w| gen::is_ordinary(w)).map(|w| w.to_string()).collect();
        let out = process(&line);
        if let Err(w) = subsequence(&toks, &out) {
            return viol("near-noise-dropped", format!("{:?} -> {:?}: word {:?} is missing", line, out, w));
        }
        c.obs("near_noise", 1);
    }
    Ok(())
}

/// Lines of every kind, for the archive of C23.
pub fn probes(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = NEAR_NOISE.iter().map(|s| s.to_string()).collect();
    for n in ["GET / HTTP/1.1 from proxy", "* base: mirror.example.org", "got error. Trying other mirror.", "ovs-ofctl -O OpenFlow dump-flows bridge", "ovs-ofctl br-int dump-ports", "ovs-ofctl br-int show", "iptables -t nat -L", "ebtables -t nat -L -n", "^- srcf-ntp.example.edu 2 9 377", "^* time.example.edu 2 9", "^+ time.example.edu 2 9", "e2b607f0bb>33 STORED", "s/5bf8>28 sending key", "++ echo word", "|        =+ooo=+.o|", "'|        =+ooo=+.o|',", "word", "", " "] {
        v.push(n.to_string());
    }
    for kind in gen::KINDS {
        for _ in 0..24 {
            let n = r.range(1, 3);
            let mut t: Vec<gen::Part> = (0..n).map(|_| gen::Part::Text(gen::word(r))).collect();
            let at = r.below(t.len() + 1);
            let s = gen::slot_of(r, kind);
            t.insert(at, s);
            v.push(gen::instantiate(r, &t));
        }
    }
    for _ in 0..250 {
        v.push(wording(r).0);
        v.push(unicode_line(r));
        let mut f = String::new();
        for _ in 0..r.range(2, 12) {
            f.push_str(r.pick::<&str>(FRAGMENTS));
        }
        v.push(f);
    }
    for p in gen::PROBLEMS {
        v.push(format!("{} {}", gen::word(r), p));
        v.push(format!("{}: {}", p.to_uppercase(), gen::word(r)));
        v.push(format!("{} result={}", gen::word(r), p));
        v.push(format!("{} {}s {}less", gen::word(r), p, p));
    }
    for d in ["sunday", "Monday", "TUESDAY", "wednesday", "thursday", "friday", "saturday", "january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"] {
        v.push(format!("{} {}", gen::word(r), d));
        v.push(format!("{} {}", d, gen::word(r)));
        v.push(format!("{} {}s", gen::word(r), d));
    }
    v
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C03",
            level: "exploration",
            rule: "a line that was tokenized in a 2 MiB stack and whose result was checked for purity, trimming and size",
            quick: 4000,
            thorough: 60000,
            shards: 8,
            run: c03,
            need: &["unicode_lines", "pathological_lines", "long_lines", "related_lines"],
            env: no_env,
            assumptions: &["lines of up to 64 KiB; adversarial separators up to 16 KiB (quick) because the tokenizer is quadratic in them"],
        },
        Spec {
            id: "C04",
            level: "exploration",
            rule: "two lines that differ only in volatile values and whose tokens were compared",
            quick: 40000,
            thorough: 600000,
            shards: 8,
            run: c04,
            need: &["pairs", "kind_number", "kind_uuid", "kind_url", "kind_odd", "kind_keyed-secret", "kind_dash-name", "kind_base64"],
            env: no_env,
            assumptions: &["replaced values have the same kind and stay on the same side of the documented length thresholds"],
        },
        Spec {
            id: "C05",
            level: "exploration",
            rule: "a line of ordinary words whose tokens were compared with the words it was built from",
            quick: 12000,
            thorough: 180000,
            shards: 8,
            run: c05,
            need: &["lines", "distinct_pairs", "problem_words", "near_noise"],
            env: no_env,
            assumptions: &[],
        },
    ]
}
