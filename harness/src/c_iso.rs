//! C28: analyses of one process do not influence each other.
use crate::c_detect::{self, dir_content, groups, is_json, rel, report, train_dirs, write_tree, Bits, Got, Tree};
use crate::fw::*;
use crate::gen;
use crate::httpd::{Fault, Req, Resp, Site};
use crate::scen::{self, Scen};
use logreduce_index as ix;
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::{hashing_index, ChunkIndex, Content, IndexName, Input, Model, OutputMode, Report, Source};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// What the jobs of a family have in common: vocabulary, lines, paths, and objects that a program may keep.
struct Family {
    seed: u64,
    scen: Scen,
    base: Vec<String>,
    groups: Vec<(String, String)>,
    baseline: Tree,
    /// The lines of all members have the same lengths.
    exact: bool,
    site: OnceLock<(Site, Tree)>,
    model: OnceLock<Result<Model, String>>,
    index: OnceLock<ChunkIndex>,
    mat: OnceLock<(Vec<ix::Features>, ix::FeaturesMatrix)>,
    crawler: Kept,
    moving: OnceLock<(Site, Arc<Mutex<Version>>)>,
    turn: Mutex<()>,
}

/// A crawler which the threads share when its type lets them, and otherwise one of the caller.
struct Kept(OnceLock<Box<httpdir::Crawler>>);

trait Unshared {
    const SHARED: bool = false;
}
impl<T> Unshared for Probe<T> {}
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: Send + Sync> Probe<T> {
    const SHARED: bool = true;
}

// Without Send and Sync, nothing is ever kept here.
unsafe impl Send for Kept {}
unsafe impl Sync for Kept {}

impl Kept {
    fn get(&self) -> &httpdir::Crawler {
        if Probe::<httpdir::Crawler>::SHARED {
            self.0.get_or_init(|| Box::new(httpdir::Crawler::new()))
        } else {
            Box::leak(Box::new(httpdir::Crawler::new()))
        }
    }
}

/// What a site has for the time being: files, a build, and other builds.
type Version = (Tree, String, String);

fn body(r: &mut Rng, p: &str, lines: &[String]) -> Vec<u8> {
    let b = if is_json(p) { scen::json_file(r, lines) } else { scen::file(r, lines) };
    if p.ends_with(".gz") {
        c_detect::gz(r, &b)
    } else {
        b
    }
}

/// Another line of the same length, different late in the line only; or another one altogether.
fn twin(r: &mut Rng, s: &Scen, l: &str, exact: bool) -> String {
    match if exact { r.range(3, 8) } else { r.below(10) } {
        0 => s.novel_line(r),
        1 => s.near_line(r),
        2 => s.odd_line(r),
        3 | 4 => {
            let mut v: Vec<char> = l.chars().collect();
            if v.len() > 2 {
                let at = v.len() - 1 - r.below(v.len().min(12));
                v[at] = *r.pick(&['o', 'x', '7', '/', '-', '=']);
            }
            v.into_iter().collect()
        }
        5 => {
            // The same words in another order.
            let mut w: Vec<&str> = l.split(' ').collect();
            r.shuffle(&mut w);
            w.join(" ")
        }
        6 if exact => l.chars().rev().collect(),
        6 => l.replacen(' ', &format!(" {} ", r.pick(&s.novel_words)), 1),
        _ => l.to_string(),
    }
}

impl Family {
    fn new(seed: u64) -> Family {
        let mut r = Rng::new(seed);
        let n = *r.pick(&[8usize, 20, 40]);
        let scen = Scen::new(&mut r, n);
        let mut base = scen.baseline(&mut r);
        let exact = r.chance(1, 3);
        let long: String = (0..40).map(|_| r.pick(&scen.known_words).clone()).collect::<Vec<_>>().join(" ");
        base.push(long);
        let k = r.range(1, 3);
        let mut groups = groups(&mut r, k);
        for g in groups.iter_mut() {
            if r.chance(1, 4) {
                g.1.push_str(".gz");
            }
        }
        let mut baseline = Tree::new();
        for (d, n) in &groups {
            let mut l = base.clone();
            r.shuffle(&mut l);
            let p = format!("{}/{}", d, n);
            let b = body(&mut r, &p, &l);
            baseline.insert(p, b);
        }
        Family { seed, scen, base, groups, baseline, exact, site: OnceLock::new(), model: OnceLock::new(), index: OnceLock::new(), mat: OnceLock::new(), crawler: Kept(OnceLock::new()), moving: OnceLock::new(), turn: Mutex::new(()) }
    }
    fn rng(&self, kind: &str, member: u64) -> Rng {
        Rng::new(hash64(format!("{}/{}/{}", self.seed, kind, member).as_bytes()))
    }
    fn lines(&self, r: &mut Rng) -> Vec<String> {
        let mut v: Vec<String> = self.base.iter().map(|l| twin(r, &self.scen, l, self.exact)).collect();
        if !self.exact && r.chance(1, 12) {
            // More than a chunk.
            let more = self.scen.wide(r, 600);
            v.extend(more);
        }
        v
    }
    /// The same paths for every member.
    fn tree(&self, r: &mut Rng, faults: bool) -> Tree {
        let mut t = Tree::new();
        for (d, n) in &self.groups {
            let p = format!("{}/{}", d, n);
            let l = self.lines(r);
            let mut b = body(r, &p, &l);
            if faults && r.chance(1, 4) {
                match r.below(3) {
                    0 => {
                        let at = r.below(b.len() + 1);
                        b.splice(at..at, *b"\n\xff\xfe\n");
                    }
                    1 if p.ends_with(".gz") => {
                        let n = b.len();
                        b.truncate(r.range(n / 2, n - 1));
                    }
                    _ => b.clear(),
                }
            }
            t.insert(p, b);
        }
        if r.chance(1, 3) {
            let l = self.lines(r);
            let b = body(r, "unknown/thing.txt", &l);
            t.insert("unknown/thing.txt".into(), b);
        }
        t
    }
    fn model(&self, dir: &Path) -> &Result<Model, String> {
        self.model.get_or_init(|| {
            let d = dir.join("family");
            write_tree(&d, &self.baseline);
            train_dirs(&[d])
        })
    }
    fn index(&self) -> &ChunkIndex {
        self.index.get_or_init(|| {
            let mut index = hashing_index::new();
            let mut t = ChunkTrainer::new(&mut index, false);
            let _ = t.add(std::io::Cursor::new(self.base.join("\n")));
            t.complete();
            index
        })
    }
}

fn key(rep: &Report, root: &Path, remote: bool) -> String {
    let mut v: Vec<String> = Vec::new();
    for l in &rep.log_reports {
        let a: Vec<Got> = l.anomalies.iter().map(Got::from).collect();
        v.push(format!("log {} {} {} {} {:#?}", rel(&l.source), l.index_name, l.line_count, l.byte_count, a));
    }
    for (k, i) in &rep.index_reports {
        v.push(format!("index {} {:?}", k, i.sources.iter().map(rel).collect::<Vec<_>>()));
    }
    for s in &rep.index_errors {
        v.push(format!("unknown {:?}", s.iter().map(rel).collect::<Vec<_>>()));
    }
    for (s, e) in &rep.read_errors {
        let e = if remote { String::new() } else { e.replace(root.to_str().unwrap(), "@") };
        v.push(format!("unread {} {}", rel(s), e));
    }
    v.sort();
    format!("{}\ntotals {} {}", v.join("\n"), rep.total_line_count, rep.total_anomaly_count)
}

/// A site made of a tree; some files break off.
fn site_of(t: &Tree, cut: BTreeMap<String, usize>, seed: u64) -> Site {
    let t = t.clone();
    Site::with_prefix_len(10, move |q: &Req| answer(&t, &cut, seed, q))
}

fn answer(t: &Tree, cut: &BTreeMap<String, usize>, seed: u64, q: &Req) -> Resp {
    let path = q.path.split('?').next().unwrap_or("").trim_start_matches('/').to_string();
    let mut r = Rng::new(seed ^ hash64(path.as_bytes()));
    let mut resp = match t.get(&path) {
        Some(b) => Resp { encoding: path.ends_with(".gz").then_some("gzip"), ctype: "text/plain", ..Resp::ok(b.clone()) },
        None if path.is_empty() || path.ends_with('/') => {
            let kids: BTreeSet<String> = t
                .keys()
                .filter_map(|f| f.strip_prefix(&path))
                .map(|rest| match rest.find('/') {
                    Some(i) => rest[..i + 1].to_string(),
                    None => rest.to_string(),
                })
                .collect();
            Resp::ok(kids.iter().map(|k| format!("<a href=\"{}\">{}</a>\n", k, k)).collect::<String>())
        }
        None => return Resp::status(404),
    };
    resp.chunked = r.chance(1, 3);
    resp.delay = Duration::from_micros(r.below(1500) as u64);
    if let Some(n) = cut.get(&path) {
        resp.fault = if *n == 0 { Fault::Refuse } else { Fault::Cut(n % resp.body.len().saturating_sub(9).max(1)) };
    }
    resp
}

fn a_build(r: &mut Rng, site: &str, job: &str, result: &str) -> serde_json::Value {
    json!({"uuid": gen::chars(r, gen::HEX, 32), "job_name": job, "result": result, "voting": true, "log_url": format!("{}/logs/{}/", site, gen::chars(r, "abc", 3)),
        "ref_url": "http://localhost/ref", "final": true, "project": "p", "branch": r.pick(&["main", "dev"]), "pipeline": r.pick(&["gate", "check"]), "duration": 42.0,
        "change": r.range(1, 4), "patchset": null, "ref": "refs/changes/1", "artifacts": [], "start_time": "2020-01-01T00:00:00", "end_time": format!("2020-02-{:02}T00:00:00", r.range(1, 28)), "event_id": "e"})
}

/// Without what differs between two servers.
fn anonymous(out: String, base: &str) -> String {
    let bare = base.trim_start_matches("http://");
    let (host, rest) = bare.split_once('/').unwrap();
    out.replace(base, "@").replace(bare, "@").replace(rest, "@").replace(&format!("Some({})", host.rsplit(':').next().unwrap()), "PORT")
}

/// A stream that fails after some bytes.
struct Failing(Bits, usize);
impl Read for Failing {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
        }
        let n = buf.len().min(self.1);
        let k = self.0.read(&mut buf[..n])?;
        self.1 -= k;
        Ok(k)
    }
}

const KINDS: &[&str] = &["tokens", "index", "kept-index", "report", "kept-model", "archive", "remote", "remote-file", "page", "builds", "reader", "crawl", "kept-site", "moving-site", "names", "zuul", "process"];

/// Run a job; what it says depends on the family, the kind and the member only.
fn job(f: &Family, kind: &str, member: u64, dir: &Path) -> String {
    let mut r = f.rng(kind, member);
    let r = &mut r;
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("job dir");
    match kind {
        "tokens" => {
            let mut l = f.lines(r);
            for w in f.base.last() {
                for _ in 0..4 {
                    l.push(format!("{} {}", w, r.pick(&f.scen.novel_words)));
                }
            }
            for _ in 0..20 {
                let p = [gen::slot(r), gen::Part::Text(r.pick(&f.scen.known_words).clone()), gen::slot(r)];
                l.push(gen::instantiate(r, &p));
            }
            l.iter().map(|l| format!("{:?} -> {:?}\n", l, logreduce_tokenizer::process(l))).collect()
        }
        "index" | "kept-index" => {
            let t: Vec<String> = f.lines(r).iter().map(|l| logreduce_tokenizer::process(l)).collect();
            let own: Vec<String> = f.lines(r).iter().map(|l| logreduce_tokenizer::process(l)).collect();
            let mk = |l: &[String]| (ix::index(&mut l.iter().cloned()), ix::index_mat(l));
            let (one, mat);
            let (list, m) = if kind == "index" {
                (one, mat) = mk(&own);
                (&one, &mat)
            } else {
                let k = f.mat.get_or_init(|| mk(&f.base.iter().map(|l| logreduce_tokenizer::process(l)).collect::<Vec<_>>()));
                (&k.0, &k.1)
            };
            let mut out = String::new();
            for l in &t {
                out.push_str(&format!("{} {:?}\n", l, ix::search(list, l)));
            }
            out.push_str(&format!("{:?}\n", ix::search_mat(m, &t)));
            out.push_str(&format!("{:?}\n", ix::search_mat_chunk(std::slice::from_ref(m), &t)));
            let bytes = ix::save_mat(m);
            out.push_str(&format!("{} {:x} {:?}\n", bytes.len(), hash64(&bytes), ix::search_mat(&ix::load_mat(&bytes), &t)));
            out
        }
        "report" | "archive" | "kept-model" => {
            let (b, t) = (dir.join("b"), dir.join("t"));
            let own;
            let mut known = None;
            let m = if kind == "kept-model" {
                if r.chance(1, 3) {
                    known = Some(f.baseline.clone());
                }
                match f.model(dir) {
                    Ok(m) => m,
                    Err(e) => return format!("no model: {}", e.replace(dir.to_str().unwrap(), "@")),
                }
            } else {
                let clean = r.chance(1, 3);
                let tree = f.tree(r, !clean);
                write_tree(&b, &tree);
                if clean {
                    // Nothing is found in the target.
                    known = Some(tree);
                }
                match train_dirs(&[b.clone()]) {
                    Ok(m) => {
                        own = m;
                        &own
                    }
                    Err(e) => return format!("no model: {}", e.replace(dir.to_str().unwrap(), "@")),
                }
            };
            let other = f.tree(r, true);
            write_tree(&t, &known.unwrap_or(other));
            let mut out = match report(m, dir_content(&t)) {
                Ok(rep) => key(&rep, dir, false),
                Err(e) => format!("no report: {}", e.replace(dir.to_str().unwrap(), "@")),
            };
            // One file of the target alone.
            if let Some((d, n)) = f.groups.first() {
                let c = Content::from_pathbuf(t.join(d).join(n));
                out.push_str(&match report(m, c) {
                    Ok(rep) => key(&rep, dir, false).replace(dir.to_str().unwrap().trim_start_matches('/'), "@"),
                    Err(e) => format!("no report: {}", e.replace(dir.to_str().unwrap(), "@")),
                });
            }
            if kind == "archive" {
                let p = dir.join("model.gz");
                m.save(&p).expect("save");
                let data = std::fs::read(&p).expect("model");
                match Model::load(&p).map_err(|e| format!("{:#}", e)).and_then(|m| report(&m, dir_content(&t))) {
                    Ok(rep) => {
                        out.push_str(&key(&rep, dir, false));
                        let q = dir.join("report.gz");
                        rep.save(&q).expect("save");
                        match Report::load(&q) {
                            Ok(rep) => out.push_str(&key(&rep, dir, false)),
                            Err(e) => out.push_str(&format!("report not loaded: {:#}", e)),
                        }
                    }
                    Err(e) => out.push_str(&format!("not loaded: {}", e)),
                }
                // Damaged in place.
                std::fs::write(&p, &data[..data.len() / 2]).expect("cut");
                out.push_str(&format!("cut: {:?}", Model::load(&p).map(|_| ()).map_err(|e| e.to_string())));
            }
            out
        }
        "remote" | "remote-file" => {
            let (bt, tt) = (f.tree(r, false), f.tree(r, false));
            let mut cut = BTreeMap::new();
            if r.chance(1, 3) {
                let k: Vec<&String> = tt.keys().collect();
                cut.insert(r.pick(&k).to_string(), r.below(3000));
            }
            let (bs, ts) = (site_of(&bt, BTreeMap::new(), r.u64()), site_of(&tt, cut.clone(), r.u64()));
            let at = |s: &Site, t: &Tree| if kind == "remote" { s.url("/") } else { s.url(&format!("/{}", t.keys().next().unwrap())) };
            let content = |u: String| Content::from_input(Input::Url(u)).map_err(|e| format!("{:#}", e));
            let m = match content(at(&bs, &bt)).and_then(|c| Model::train(OutputMode::Quiet, vec![c], hashing_index::new).map_err(|e| format!("{:#}", e))) {
                Ok(m) => m,
                Err(_) => return "no model".into(),
            };
            match content(at(&ts, &tt)).and_then(|c| report(&m, c)) {
                Ok(rep) if cut.is_empty() => key(&rep, dir, true).replace(&bs.url(""), "@b").replace(&ts.url(""), "@t"),
                // How much of a broken file is seen depends on the network.
                Ok(rep) => {
                    let mut v: Vec<String> = rep.log_reports.iter().filter(|l| !cut.contains_key(&rel(&l.source)) && kind == "remote").map(|l| format!("{} {:?}", rel(&l.source), l.anomalies.iter().map(Got::from).collect::<Vec<_>>())).collect();
                    v.sort();
                    format!("{}\n{}", v.join("\n"), rep.read_errors.len())
                }
                Err(_) => "no report".into(),
            }
        }
        "page" => {
            let rep = crate::c_html::any_report(r);
            match logreduce_report::render(&rep) {
                // The sources of an index are in no particular order only through the generator.
                Ok(p) => p,
                Err(e) => format!("{:#}", e),
            }
        }
        "builds" => {
            let mut v = Vec::new();
            for _ in 0..r.range(1, 6) {
                let mut b = crate::c_zuul::good_build(r).0;
                if r.chance(1, 3) {
                    crate::c_zuul::break_build(r, &mut b);
                }
                v.push(b);
            }
            let doc = json!(v).to_string();
            let n = if r.chance(1, 4) { r.below(doc.len()) } else { doc.len() };
            let mut out = format!("{:?}\n", zuul_build::decode_builds(&doc.as_bytes()[..n]).map_err(|e| e.to_string()));
            for b in &v {
                out.push_str(&format!("{:?}\n", zuul_build::decode_build(b.to_string().as_bytes()).map_err(|e| e.to_string())));
            }
            out
        }
        "reader" => {
            let json = r.chance(1, 3);
            let l = f.lines(r);
            let b = if json { scen::json_file(r, &l) } else { scen::file(r, &l) };
            let n = if r.chance(1, 3) { r.below(b.len() + 1) } else { usize::MAX };
            let rd = Failing(Bits::new(r, &b), n);
            let mut out = String::new();
            for x in logreduce_iterator::BytesLines::new(rd, json) {
                match x {
                    Ok((b, n)) => out.push_str(&format!("{} {:?}\n", n, b)),
                    Err(e) => {
                        out.push_str(&format!("error {}\n", e));
                        break;
                    }
                }
            }
            out
        }
        "process" => {
            let json = r.chance(1, 4);
            let l = f.lines(r);
            let b = if json { scen::json_file(r, &l) } else { scen::file(r, &l) };
            let n = if r.chance(1, 4) { r.below(b.len() + 1) } else { usize::MAX };
            let rd = Failing(Bits::new(r, &b), n);
            let mut skip = HashSet::new();
            let mut p = ChunkProcessor::new(rd, f.index(), json, &mut skip);
            let mut out = String::new();
            for a in p.by_ref() {
                match a {
                    Ok(a) => out.push_str(&format!("{:#?}\n", Got::from(&a))),
                    Err(e) => {
                        out.push_str(&format!("error {}\n", e));
                        break;
                    }
                }
            }
            format!("{}{} {}", out, p.line_count, p.byte_count)
        }
        "crawl" => {
            let mut t = Tree::new();
            for _ in 0..r.range(1, 12) {
                let d = *r.pick(&["", "aa/", "aa/bb/", "cc/", "cc/dd/ee/"]);
                t.insert(format!("{}f{}.log", d, r.below(40)), Vec::new());
            }
            let s = site_of(&t, BTreeMap::new(), r.u64());
            let url = url::Url::parse(&s.url("/")).unwrap();
            let base = s.url("");
            let say = |v: Vec<String>| -> String {
                let mut v: Vec<String> = v.into_iter().map(|u| u.replace(&base, "@")).collect();
                v.sort();
                v.join("\n")
            };
            let crawler = f.crawler.get();
            let a = match crawler.list(url.clone()) {
                Ok(v) => say(v.iter().map(|u| u.to_string()).collect()),
                Err(_) => "error".to_string(),
            };
            let b = say(httpdir::Crawler::new().walk(url).map(|u| u.map(|u| u.to_string()).unwrap_or("error".into())).collect());
            // A page which is not there.
            format!("{}\n-\n{}", a, b)
        }
        "kept-site" => {
            let (site, tree) = f.site.get_or_init(|| {
                let mut r = f.rng("site", 0);
                let t = f.tree(&mut r, false);
                (site_of(&t, BTreeMap::new(), r.u64()), t)
            });
            let base = site.url("");
            let content = |u: String| Content::from_input(Input::Url(u)).map_err(|e| format!("{:#}", e));
            let whole = site.url("/");
            let one = site.url(&format!("/{}", tree.keys().nth(member as usize % tree.len()).unwrap()));
            match (member + f.seed) % 6 {
                0 => {
                    let mut v: Vec<String> = httpdir::list(url::Url::parse(&whole).unwrap()).map(|v| v.iter().map(|u| u.to_string()).collect()).unwrap_or_default();
                    v.sort();
                    v.join("\n").replace(&base, "@")
                }
                1 => {
                    let mut v: Vec<String> = httpdir::Crawler::new().walk(url::Url::parse(&whole).unwrap()).map(|u| u.map(|u| u.to_string()).unwrap_or_default()).collect();
                    v.sort();
                    v.join("\n").replace(&base, "@")
                }
                2 => match f.model(dir).as_ref().map_err(|e| e.to_string()).and_then(|m| report(m, content(whole)?)) {
                    Ok(rep) => key(&rep, dir, true),
                    Err(e) => e.replace(&base, "@"),
                },
                3 => match f.model(dir).as_ref().map_err(|e| e.to_string()).and_then(|m| report(m, content(one)?)) {
                    Ok(rep) => key(&rep, dir, true).replace(&base, "@"),
                    Err(e) => e.replace(&base, "@"),
                },
                k => {
                    write_tree(&dir.join("t"), &f.tree(r, false));
                    let m = content(if k == 4 { whole } else { one }).and_then(|c| Model::train(OutputMode::Quiet, vec![c], hashing_index::new).map_err(|e| format!("{:#}", e)));
                    match m.and_then(|m| report(&m, dir_content(&dir.join("t")))) {
                        Ok(rep) => key(&rep, dir, true).replace(&base, "@"),
                        Err(e) => e.replace(&base, "@").replace(dir.to_str().unwrap(), "@"),
                    }
                }
            }
        }
        "moving-site" => {
            // The same locations have other contents for each member.
            let (site, now) = f.moving.get_or_init(|| {
                let now: Arc<Mutex<Version>> = Default::default();
                let v = now.clone();
                let seed = f.seed;
                let site = Site::with_prefix_len(10, move |q: &Req| {
                    let v = v.lock().unwrap().clone();
                    match q.path.split('?').next().unwrap_or("") {
                        p if p.ends_with("/builds") => Resp::ok(v.2),
                        p if p.contains("/build/") => Resp::ok(v.1),
                        p if p.contains("/logs/a") => Resp::status(404),
                        p if p.contains("/logs/") => Resp::ok("<html></html>"),
                        _ => answer(&v.0, &BTreeMap::new(), seed, q),
                    }
                });
                (site, now)
            });
            let mut fixed = f.rng("moving-site", u64::MAX);
            let base = site.url("");
            let mut t = f.tree(&mut fixed, false);
            let alone = t.keys().next().unwrap().clone();
            let l = f.lines(r);
            t.insert(alone.clone(), body(r, &alone, &l));
            for d in ["", "aa/", "aa/bb/"] {
                // As many names as ever, and as long.
                let mut n: Vec<usize> = (10..40).collect();
                r.shuffle(&mut n);
                for i in &n[..3] {
                    t.insert(format!("list/{}f{}.log", d, i), Vec::new());
                }
            }
            let me = a_build(r, &base, "job", "FAILURE");
            let others: Vec<_> = (0..fixed.range(0, 4)).map(|_| a_build(r, &base, "job", "SUCCESS")).collect();
            let model = f.model(dir).as_ref().map_err(|e| e.to_string());
            let _turn = f.turn.lock().unwrap_or_else(|e| e.into_inner());
            *now.lock().unwrap() = (t, me.to_string(), json!(others).to_string());
            let mut out = String::new();
            let list = url::Url::parse(&site.url("/list/")).unwrap();
            let crawler = f.crawler.get();
            let three = [crawler.list(list.clone()), httpdir::list(list.clone()), httpdir::Crawler::new().walk(list).collect()];
            for v in three {
                let mut v: Vec<String> = v.map(|v| v.iter().map(|u| u.to_string()).collect()).unwrap_or_else(|e| vec![e.to_string()]);
                v.sort();
                out.push_str(&format!("{:#?}\n", v));
            }
            if std::env::var("LOGREDUCE_CACHE").is_err() {
                // Contents which are cached are those of the first time.
                match Content::from_input(Input::Url(site.url("/z/t/tenant/build/0123456789abcdef0123456789abcdef"))) {
                    Ok(c) => out.push_str(&format!("{:?}\n{:?}\n", c, c.discover_baselines().map_err(|e| e.to_string()))),
                    Err(e) => out.push_str(&e.to_string()),
                }
                let c = Content::from_input(Input::Url(site.url(&format!("/{}", alone)))).map_err(|e| format!("{:#}", e));
                out.push_str(&match model.and_then(|m| report(m, c?)) {
                    Ok(rep) => key(&rep, dir, true),
                    Err(e) => e,
                });
            }
            anonymous(out, &base)
        }
        "names" => {
            let mut out = String::new();
            let mut dirs: Vec<String> = f.groups.iter().map(|g| g.0.clone()).collect();
            dirs.extend(["a1b2c3d/logs".into(), "k8s/pod-1/x".into(), String::new()]);
            for _ in 0..30 {
                let (d, n) = (r.pick(&dirs).clone(), r.pick(&f.groups).1.clone());
                let p = format!("{}/{}{}", d, n, r.pick(&["", ".1", "-20230102", ".gz", ".2.gz", ".txt", "_old"]));
                let src = Source::Local(0, PathBuf::from(&p));
                out.push_str(&format!("{} {} {} {}\n", p, IndexName::from_path(&p), IndexName::from_source(&src), src.is_json()));
            }
            write_tree(&dir.join("t"), &f.tree(r, false));
            if r.chance(1, 3) {
                std::fs::write(dir.join("t/creds.yaml"), "x").unwrap();
            }
            let mut v: Vec<String> = dir_content(&dir.join("t")).get_sources().map(|v| v.iter().map(rel).collect()).unwrap_or_else(|e| vec![e.to_string().replace(dir.to_str().unwrap(), "@")]);
            v.sort();
            let missing = Content::from_input(Input::from_string(dir.join("missing").to_str().unwrap().to_string())).map(|c| c.to_string()).map_err(|e| e.to_string());
            format!("{}{:?}\n{}", out, v, format!("{:?}", missing).replace(dir.to_str().unwrap(), "@"))
        }
        _ => {
            // A build page, and its baselines.
            let n = r.range(0, 4);
            let slot: Arc<Mutex<(String, String)>> = Arc::new(Mutex::new(Default::default()));
            let st = slot.clone();
            let site = Site::with_prefix_len(10, move |q: &Req| {
                let s = st.lock().unwrap();
                let path = q.path.split('?').next().unwrap_or("");
                match path {
                    p if p.ends_with("/builds") => Resp::ok(s.1.clone()),
                    p if p.contains("/build/") => Resp::ok(s.0.clone()),
                    p if p.contains("/logs/a") => Resp::status(404),
                    _ => Resp::ok("<html></html>"),
                }
            });
            let base = site.url("");
            let me = a_build(r, &base, "job", "FAILURE");
            let cands: Vec<_> = (0..n).map(|_| a_build(r, &base, "job", "SUCCESS")).collect();
            // The same page of the service for every member.
            let page = site.url("/z/t/tenant/build/0123456789abcdef0123456789abcdef");
            *slot.lock().unwrap() = (me.to_string(), if r.chance(1, 6) { "oops".into() } else { json!(cands).to_string() });
            let c = Content::from_input(Input::Url(page));
            let mut out = String::new();
            match c {
                Ok(c) => {
                    out.push_str(&format!("{:?}\n", c));
                    for _ in 0..2 {
                        out.push_str(&format!("{:?}\n", c.discover_baselines().map_err(|e| e.to_string())));
                    }
                }
                Err(e) => out.push_str(&e.to_string()),
            }
            anonymous(out, &base)
        }
    }
}

fn run_job(f: &Family, kind: &str, member: u64, dir: &Path) -> String {
    match guard(|| job(f, kind, member, dir)) {
        Ok(s) => s,
        Err(p) => format!("panic: {}", p),
    }
}

/// `vh iso-job FAMILY KIND MEMBER DIR OUT`: one job in its own process.
pub fn single(args: &[String]) {
    install_panic_hook();
    let f = Family::new(args[0].parse().unwrap());
    let out = run_job(&f, &args[1], args[2].parse().unwrap(), Path::new(&args[3]));
    std::fs::write(&args[4], out).unwrap();
}

/// The jobs of a case: few kinds, several members of each.
fn jobs(r: &mut Rng) -> Vec<(&'static str, u64)> {
    let mut kinds: Vec<&'static str> = KINDS.to_vec();
    r.shuffle(&mut kinds);
    kinds.truncate(r.range(2, 4));
    let mut v = Vec::new();
    for k in kinds {
        for m in 0..if k == "kept-site" { r.range(2, 6) } else { r.range(2, 3) } as u64 {
            v.push((k, m));
        }
    }
    v
}

fn differ(what: &str, k: (&str, u64), want: &str, got: &str) -> V {
    if let Some(p) = got.strip_prefix("panic: ") {
        return viol("panic", format!("{} (job {} {}): {}", what, k.0, k.1, p));
    }
    if want == got {
        return Ok(());
    }
    let (a, b): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
    viol("influenced", format!("{}: the job {} {} differs from the same job in a fresh process at line {}: {:?} instead of {:?}", what, k.0, k.1, i, b.get(i), a.get(i)))
}

// ---------------------------------------------------------------- data races
/// `vh iso-race SEED FAMILIES DIR`: jobs at the same time, for ThreadSanitizer to watch.
pub fn race(args: &[String]) {
    install_panic_hook();
    let mut r = Rng::new(args[0].parse().unwrap());
    let dir = Path::new(&args[2]);
    let mut done = 0u64;
    for _ in 0..args[1].parse().unwrap() {
        let f = Family::new(r.u64());
        let js = jobs(&mut r);
        let plans: Vec<Vec<usize>> = (0..4).map(|_| (0..3).map(|_| r.below(js.len())).collect()).collect();
        let barrier = Barrier::new(plans.len());
        std::thread::scope(|s| {
            for (t, plan) in plans.iter().enumerate() {
                let (f, js, barrier) = (&f, &js, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    for i in plan {
                        run_job(f, js[*i].0, js[*i].1, &dir.join(format!("t{}", t)));
                    }
                });
            }
        });
        done += plans.iter().map(|p| p.len() as u64).sum::<u64>();
    }
    std::fs::write(dir.join("done"), done.to_string()).unwrap();
}

/// `vh iso-racy DIR`: a race, to see that the sanitizer is there.
pub fn racy(args: &[String]) {
    struct Cell(std::cell::UnsafeCell<u64>);
    unsafe impl Sync for Cell {}
    static X: Cell = Cell(std::cell::UnsafeCell::new(0));
    let hs: Vec<_> = (0..4)
        .map(|_| {
            #[inline(never)]
            fn bump() {
                unsafe { X.0.get().write_volatile(X.0.get().read_volatile() + 1) }
            }
            std::thread::spawn(|| {
                for _ in 0..1000 {
                    bump()
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    std::fs::write(Path::new(&args[0]).join("done"), "1").unwrap();
}

/// The accesses of a report: for each one the first frame outside of the standard library.
fn accesses(report: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut inside = false;
    for l in report.lines() {
        let t = l.trim_start();
        let head = ["Write of", "Read of", "Previous write", "Previous read", "Atomic write", "Atomic read", "Previous atomic"].iter().any(|h| t.starts_with(h));
        if head {
            inside = true;
        } else if t.is_empty() {
            inside = false;
        } else if inside && t.starts_with('#') {
            let f = t.split_once(' ').map(|x| x.1).unwrap_or("");
            let name = f.trim_start_matches(['<', '&', '(', '[', '*']);
            let std = ["core::", "alloc::", "std::", "__", "hashbrown::", "mem", "malloc", "free", "calloc", "realloc"].iter().any(|p| name.starts_with(p)) && !f.contains("/repo/");
            if !std {
                out.push(f.to_string());
                inside = false;
            }
        }
    }
    out
}
fn in_repo(frame: &str) -> bool {
    let name = frame.trim_start_matches(['<', '&', '(', '[', '*']);
    frame.contains(" /repo/") || ["logreduce_", "httpdir::", "zuul_build::"].iter().any(|p| name.starts_with(p))
}

fn sanitized(c: &mut Case, exe: &str, args: &[String]) -> Result<Vec<String>, Stop> {
    let d = c.dir().join("san");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let mut p = Command::new(exe);
    p.args(args).arg(&d).current_dir(&d);
    p.env("TSAN_OPTIONS", format!("log_path={}/log halt_on_error=0 exitcode=0 report_thread_leaks=0 report_signal_unsafe=0 history_size=4", d.display()));
    p.env("HOME", &d).env("XDG_CACHE_HOME", d.join("cache"));
    p.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(d.join("err")).unwrap());
    let mut p = p.spawn().map_err(|e| Stop::Inconclusive(format!("{}: {}", exe, e)))?;
    let t = Instant::now();
    let st = loop {
        if let Some(st) = p.try_wait().unwrap() {
            break st;
        }
        if t.elapsed() > Duration::from_secs(240) {
            let _ = p.kill();
            let _ = p.wait();
            return inconclusive("the sanitized jobs take too long");
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let mut reports = Vec::new();
    for e in std::fs::read_dir(&d).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("log.") {
            let text = String::from_utf8_lossy(&std::fs::read(e.path()).unwrap()).into_owned();
            reports.extend(text.split("==================").filter(|t| t.contains("ThreadSanitizer")).map(|t| t.to_string()));
        }
    }
    match std::fs::read_to_string(d.join("done")).ok().and_then(|s| s.parse::<u64>().ok()) {
        Some(n) => c.obs("jobs_under_sanitizer", n),
        None => {
            let err = std::fs::read_to_string(d.join("err")).unwrap_or_default();
            return inconclusive(format!("the sanitized jobs end with {:?}: {} {}", st, err, reports.join("")));
        }
    }
    Ok(reports)
}

fn races(c: &mut Case, exe: &str) -> V {
    if c.idx % 200 < 8 {
        let seen = sanitized(c, exe, &["iso-racy".into()])?;
        if !seen.iter().any(|r| r.contains("data race") && accesses(r).iter().any(|f| f.contains("vh::c_iso"))) {
            return inconclusive(format!("the sanitizer does not see a race: {}", seen.join("").chars().take(1000).collect::<String>()));
        }
        c.obs("planted_races_seen", 1);
    }
    let seed = c.rng.u64();
    let n = if c.thorough() { 6 } else { 3 };
    for r in sanitized(c, exe, &["iso-race".into(), seed.to_string(), n.to_string()])? {
        let global = r.split_once("Location is global '").map(|x| in_repo(x.1)).unwrap_or(false);
        if global || accesses(&r).iter().any(|f| in_repo(f)) {
            return viol("data-race", r);
        }
        c.obs("reports_elsewhere", 1);
        c.note(r);
    }
    c.obs("race_runs", 1);
    Ok(())
}

fn c28(c: &mut Case) -> V {
    if c.idx % 48 < 8 {
        if let Ok(exe) = std::env::var("VERIF_VH_TSAN") {
            races(c, &exe)?;
        }
    }
    influences(c)
}

fn influences(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let seed = r.u64();
    let js = jobs(&mut r);
    let root = c.dir();
    c.note(format!("family {} jobs {:?}", seed, js));
    // Alone, in a fresh process each.
    let exe = std::env::current_exe().unwrap();
    let mut procs = Vec::new();
    for (i, (k, m)) in js.iter().enumerate() {
        let mut p = Command::new(&exe);
        p.arg("iso-job").args([seed.to_string(), k.to_string(), m.to_string()]);
        p.arg(root.join(format!("a{}", i))).arg(root.join(format!("out{}", i)));
        p.env("XDG_CACHE_HOME", root.join(format!("cache{}", i)));
        p.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        procs.push(p.spawn().expect("spawn"));
        c.obs("fresh_processes", 1);
    }
    let mut want = Vec::new();
    for (i, mut p) in procs.into_iter().enumerate() {
        let st = p.wait().expect("wait");
        match std::fs::read_to_string(root.join(format!("out{}", i))) {
            Ok(s) => want.push(s),
            Err(_) => return viol("alone", format!("the job {:?} alone ends with {:?}", js[i], st)),
        }
        if let Some(p) = want[i].strip_prefix("panic: ") {
            return viol("panic", format!("job {:?} alone: {}", js[i], p));
        }
        c.distinct(want[i].as_bytes());
    }
    let f = Family::new(seed);
    // One after the other, in this process and in one place.
    let mut order: Vec<usize> = (0..js.len()).chain(0..js.len()).collect();
    r.shuffle(&mut order);
    let w = root.join("w");
    for (n, i) in order.iter().enumerate() {
        let (k, m) = js[*i];
        let got = run_job(&f, k, m, &w);
        differ(&format!("after {:?}", order[..n].iter().map(|i| js[*i]).collect::<Vec<_>>()), js[*i], &want[*i], &got)?;
        c.obs(&format!("after_{}", k), 1);
        c.obs("jobs_in_sequence", 1);
    }
    // At the same time.
    let f = Family::new(seed);
    let n = r.range(2, 5);
    let barrier = Barrier::new(n);
    let plans: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let k = r.range(2, js.len() + 1);
            (0..k).map(|_| r.below(js.len())).collect()
        })
        .collect();
    c.note(format!("threads {:?}", plans));
    let begun = Instant::now();
    let results: Vec<Vec<(usize, String, u128, u128)>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (f, js, barrier) = (&f, &js, &barrier);
                let d = root.join(format!("t{}", t));
                s.spawn(move || {
                    barrier.wait();
                    plan.iter()
                        .map(|i| {
                            let a = begun.elapsed().as_micros();
                            let out = run_job(f, js[*i].0, js[*i].1, &d);
                            (*i, out, a, begun.elapsed().as_micros())
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut pairs = BTreeSet::new();
    for (t, rs) in results.iter().enumerate() {
        for (i, got, a, b) in rs {
            differ(&format!("beside {} other threads", n - 1), js[*i], &want[*i], got)?;
            c.obs("jobs_in_parallel", 1);
            for other in &results[t + 1..] {
                for (j, _, x, y) in other {
                    if a.max(x) < b.min(y) {
                        pairs.insert((js[*i].min(js[*j]), js[*i].max(js[*j])));
                    }
                }
            }
        }
    }
    c.obs("overlapping_pairs", pairs.len() as u64);
    for p in pairs {
        c.distinct(format!("{} {}", (p.0).0, (p.1).0).as_bytes());
    }
    c.sample(|| format!("jobs {:?}, threads {:?}", js, plans));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C28",
        level: "exploration",
        rule: "several jobs over the same paths and nearly the same lines, each run alone in a fresh process, then in random orders in one process and one place, then at the same time on several threads",
        quick: 400,
        thorough: 9600,
        shards: 8,
        run: c28,
        need: &["race_runs", "planted_races_seen", "fresh_processes", "jobs_in_sequence", "jobs_in_parallel", "overlapping_pairs", "after_tokens", "after_index", "after_kept-index", "after_report", "after_kept-model", "after_archive", "after_remote", "after_remote-file", "after_page", "after_builds", "after_reader", "after_crawl", "after_kept-site", "after_moving-site", "after_names", "after_zuul", "after_process"],
        env: |shard| if shard % 4 == 0 { vec![("LOGREDUCE_CACHE", "1".to_string())] } else { vec![] },
        assumptions: &["how much of a file that breaks off on the network is analysed is not compared"],
    }]
}
