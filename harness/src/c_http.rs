//! C17, C22: crawling and remote content.
use crate::c_detect::{self, by_path, dir_content, group_paths, groups, is_json, rel, same_verdicts, write_tree, Got, Tree};
use crate::fw::*;
use crate::gen;
use crate::httpd::{Fault, Req, Resp, Site};
use crate::scen::{self, Scen};
use logreduce_model::{hashing_index, Content, Input, Model, OutputMode, Report};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

// ---------------------------------------------------------------- sites
/// An entry of an index page: the link as written.
#[derive(Clone, Debug)]
enum Entry {
    File(String),
    Dir(String),
}

#[derive(Clone, Debug, Default)]
struct Tree17 {
    /// Directory path (ending in '/') -> entries.
    dirs: BTreeMap<String, Vec<Entry>>,
    /// Directories whose page fails.
    broken: BTreeMap<String, usize>,
}

fn name(r: &mut Rng, taken: &mut BTreeSet<String>) -> String {
    loop {
        let mut n = match r.below(10) {
            // As some servers write them.
            8 => format!("{} {}.log", gen::chars(r, gen::LOWER, 2), gen::chars(r, gen::ALNUM, 2)),
            9 => format!("{}{}", gen::chars(r, gen::LOWER, 2), r.pick(&["é.log", "日本.txt", "<x>", "{a}[b]", "=&$", "'q'", "..b", "-", ".log.2022-01-01T10-00-00", "\u{a0}z"])),
            7 => format!("{}.log?{}={}", gen::chars(r, gen::LOWER, 3), gen::chars(r, gen::LOWER, 3), r.below(10)),
            // Names that resemble the special ones.
            5 => r.pick(&["report-index.html", "xindex.html", "index.htm", "index.html.gz", "Index.html", "index.htmls", "etcd", "my-etc", "etc.log", "Etc", "etc-", "index", "html", "a.html", "index-html", "2-etc"]).to_string(),
            0 => format!("{}{}", gen::chars(r, gen::ALNUM, 1), gen::chars(r, gen::ALNUM, 1)),
            1 => format!("{}.{}.log", gen::chars(r, gen::LOWER, 3), r.below(100)),
            2 => format!("{}%20{}", gen::chars(r, gen::LOWER, 2), gen::chars(r, gen::ALNUM, 3)),
            3 => format!("{}~_-(+)@!,;'", gen::chars(r, gen::LOWER, 4)),
            4 => format!("{}{}", gen::chars(r, gen::ALNUM, 1), gen::chars(r, "abcxyz_-.0123", 9)),
            _ => gen::chars(r, gen::LOWER, 6),
        };
        if n == "etc" || n.ends_with('.') || n == "index.html" || n.starts_with("http") {
            n = "other".into();
        }
        // Links are told apart by their letters, so ignore case twins.
        if taken.insert(n.to_lowercase()) {
            return n;
        }
    }
}

fn site17(r: &mut Rng, shape: usize, pages: usize) -> Tree17 {
    let root = match r.below(8) {
        // Only the etc directories found on the way are skipped.
        0 => format!("/{}/etc/{}/", gen::chars(r, gen::LOWER, 2), gen::chars(r, gen::LOWER, 3)),
        1 => format!("/etc/{}/{}/", gen::chars(r, gen::LOWER, 2), gen::chars(r, gen::LOWER, 3)),
        2 => format!("/{}%20{}/x.y/", gen::chars(r, gen::LOWER, 2), gen::chars(r, gen::LOWER, 3)),
        _ => format!("/{}/", gen::chars(r, gen::LOWER, 3)),
    };
    let mut t = Tree17::default();
    t.dirs.insert(root.clone(), Vec::new());
    let mut all = vec![root.clone()];
    for k in 0..pages {
        let parent = match shape {
            0 => all[r.below(all.len())].clone(),
            1 => all[all.len() - 1].clone(),
            _ => root.clone(),
        };
        let mut taken: BTreeSet<String> = t.dirs[&parent].iter().map(|e| match e {
            Entry::File(n) | Entry::Dir(n) => n.to_lowercase(),
        }).collect();
        let n = if shape == 1 { format!("d{}", k % 10) } else { loop {
            let before = taken.clone();
            let n = name(r, &mut taken);
            let plain = n.replace(|c: char| "?<>{}[]' ".contains(c) || !c.is_ascii(), "-");
            if plain == n || !before.contains(&plain.to_lowercase()) {
                break plain;
            }
        } };
        t.dirs.get_mut(&parent).unwrap().push(Entry::Dir(n.clone()));
        let p = format!("{}{}/", parent, n);
        t.dirs.insert(p.clone(), Vec::new());
        all.push(p);
    }
    // Files.
    let dense = *r.pick(&[0usize, 1, 3, 6]);
    for d in &all {
        let mut taken: BTreeSet<String> = t.dirs[d].iter().map(|e| match e {
            Entry::File(n) | Entry::Dir(n) => n.to_lowercase(),
        }).collect();
        for _ in 0..r.range(0, dense) {
            let n = name(r, &mut taken);
            t.dirs.get_mut(d).unwrap().push(Entry::File(n));
        }
        r.shuffle(t.dirs.get_mut(d).unwrap());
    }
    t
}

/// An index page in the style of Apache or nginx, with the usual extra links.
fn page17(r: &mut Rng, prefix: &str, dir: &str, entries: &[Entry]) -> String {
    let abs = |p: &str| format!("/{}{}", prefix, p);
    let mut s = String::from("<html><head><title>Index</title></head><body>\n");
    let parent = match dir.trim_end_matches('/').rfind('/') {
        Some(i) => dir[..i + 1].to_string(),
        None => "/".to_string(),
    };
    if r.chance(1, 2) {
        s.push_str("<a href=\"?C=N;O=D\">Name</a> <a href=\"?C=M;O=A\">Last modified</a>\n");
    }
    match r.below(4) {
        0 => s.push_str("<a href=\"../\">../</a>\n"),
        1 => s.push_str(&format!("<td><a href=\"{}\">Parent Directory</a></td>\n", abs(&parent))),
        2 => s.push_str("<a href=\"..\">Parent</a>\n"),
        _ => {}
    }
    if r.chance(1, 4) {
        s.push_str(&format!("<a href=\"{}\">self</a>\n", abs(dir)));
    }
    if r.chance(1, 6) {
        s.push_str("<a href=\"./\">self</a> <a href=\"#top\">top</a> <a href=\"index.html\">here</a>\n");
    }
    if r.chance(1, 4) {
        s.push_str("<a href=\"/\">Home</a>\n");
    }
    if r.chance(1, 6) {
        s.push_str("<tr><td><a href=\"etc/\">etc/</a></td></tr>\n");
    }
    for e in entries {
        let row = match e {
            Entry::File(n) => match r.below(8) {
                0 => abs(&format!("{}{}", dir, n)),
                _ => n.clone(),
            },
            Entry::Dir(n) => match r.below(8) {
                0 => abs(&format!("{}{}/", dir, n)),
                1 => format!("{}/index.html", n),
                _ => format!("{}/", n),
            },
        };
        let sep = *r.pick(&["\n", " ", "</td></tr>\n", ""]);
        s.push_str(&format!("<a href=\"{}\">x</a>{}", row, sep));
    }
    s.push_str("</body></html>\n");
    s
}

fn files_of(t: &Tree17, below_broken: bool) -> Vec<String> {
    let mut v = Vec::new();
    for (d, es) in &t.dirs {
        if !below_broken && t.broken.keys().any(|b| d.starts_with(b.as_str())) {
            continue;
        }
        for e in es {
            if let Entry::File(n) = e {
                v.push(format!("{}{}", d, n));
            }
        }
    }
    v.sort();
    v
}

fn page_of(path: &str) -> String {
    match path.strip_suffix("/index.html") {
        Some(d) => format!("{}/", d),
        None => path.to_string(),
    }
}

fn c17(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let (shape, pages) = match c.idx % 40 {
        0 => (2, 1200),
        1 => (1, 120),
        2 => (0, 250),
        _ => (r.below(3), r.below(25)),
    };
    let mut t = site17(&mut r, shape, pages);
    let root = t.dirs.keys().min_by_key(|k| k.len()).unwrap().clone();
    if pages < 1000 && r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let k: Vec<String> = t.dirs.keys().cloned().collect();
            let b = k[r.below(k.len())].clone();
            if b != root || r.chance(1, 4) {
                t.broken.insert(b, r.below(3));
            }
        }
    }
    // A page below a broken page is never reached; forget it.
    let reach: Vec<String> = t.broken.keys().filter(|b| !t.broken.keys().any(|o| o != *b && b.starts_with(o.as_str()))).cloned().collect();
    t.broken.retain(|k, _| reach.contains(k));
    let seed = r.u64();
    let slow = *r.pick(&[0u64, 0, 1, 5, 20]);
    let slow = if pages > 60 { 0 } else { slow };
    let tt = Arc::new(t.clone());
    let prefix = Arc::new(Mutex::new(String::new()));
    let p2 = prefix.clone();
    let site = Site::new(move |q: &Req| {
        let mut r = Rng::new(seed ^ hash64(q.path.as_bytes()));
        let path = page_of(&q.path);
        let mut resp = match tt.dirs.get(&path) {
            None => return Resp::ok("<a href=\"trap/\">trap</a> <a href=\"trap.log\">trap</a>"),
            Some(es) => Resp::ok(page17(&mut r, &p2.lock().unwrap(), &path, es)),
        };
        resp.chunked = r.chance(1, 3);
        resp.close = r.chance(1, 6);
        if slow > 0 {
            // The delays differ between the crawls.
            resp.delay = Duration::from_micros((seed ^ hash64(q.path.as_bytes())) % (slow * 1000));
        }
        let n = resp.body.len();
        match tt.broken.get(&path) {
            Some(0) => resp.fault = Fault::Refuse,
            Some(1) => resp.fault = Fault::Cut(r.below(n)),
            Some(_) => resp.fault = Fault::CutChunked(r.below(n)),
            None => {}
        }
        resp
    });
    *prefix.lock().unwrap() = site.prefix.clone();
    let start = Url::parse(&site.url(&root)).unwrap();
    let want_all: Vec<String> = files_of(&t, true).iter().map(|p| Url::parse(&site.url(p)).unwrap().to_string()).collect::<BTreeSet<_>>().into_iter().collect();
    let want: Vec<String> = files_of(&t, false).iter().map(|p| Url::parse(&site.url(p)).unwrap().to_string()).collect::<BTreeSet<_>>().into_iter().collect();
    c.note(format!("start {} dirs {} files {} broken {:?} slow {}", start, t.dirs.len(), want_all.len(), t.broken, slow));
    c.distinct(format!("{:?}", t).as_bytes());

    for mode in ["list", "walk", "walk-late"] {
        site.clear();
        let (got, errors): (Vec<String>, Vec<String>) = match mode {
            "list" => match httpdir::list(start.clone()) {
                Ok(v) => (v.into_iter().map(|u| u.to_string()).collect(), vec![]),
                Err(e) => (vec![], vec![e.to_string()]),
            },
            _ => {
                // The consumer has a bounded stack, whatever the number of pages.
                let start = start.clone();
                let late = mode == "walk-late";
                let h = std::thread::Builder::new()
                    .stack_size(256 << 10)
                    .spawn(move || {
                        let mut ok = Vec::new();
                        let mut err = Vec::new();
                        let it = httpdir::Crawler::new().walk(start);
                        if late {
                            std::thread::sleep(Duration::from_millis(if pages > 1000 { 1500 } else { 30 }));
                        }
                        let mut it = it;
                        for u in it.by_ref() {
                            match u {
                                Ok(u) => ok.push(u.to_string()),
                                Err(e) => err.push(e.to_string()),
                            }
                        }
                        // The end is final.
                        let again = it.next().is_some();
                        (ok, err, again)
                    })
                    .unwrap();
                match h.join() {
                    Ok((ok, err, again)) => {
                        ensure!(!again, "after-end", "{}: the iterator goes on after its end", mode);
                        (ok, err)
                    }
                    Err(_) => return viol("panic", format!("{}: the consumer panicked", mode)),
                }
            }
        };
        let set: BTreeSet<String> = got.iter().cloned().collect();
        ensure!(set.len() == got.len(), "twice", "{}: {} of {} files are delivered twice", mode, got.len() - set.len(), got.len());
        if t.broken.is_empty() {
            ensure!(errors.is_empty(), "error", "{}: errors without a broken page: {:?}", mode, errors);
            let w: BTreeSet<String> = want_all.iter().cloned().collect();
            ensure!(set == w, "files", "{}: missing {:?}, extra {:?}", mode, w.difference(&set).take(5).collect::<Vec<_>>(), set.difference(&w).take(5).collect::<Vec<_>>());
            c.obs("complete_crawls", 1);
        } else if mode == "list" {
            ensure!(!errors.is_empty(), "hidden-error", "list: {} broken pages, and no error ({} files)", t.broken.len(), got.len());
            c.obs("failed_lists", 1);
        } else {
            ensure!(errors.len() >= t.broken.len(), "hidden-error", "{}: {} broken pages, {} errors", mode, t.broken.len(), errors.len());
            let w: BTreeSet<String> = want.iter().cloned().collect();
            ensure!(set == w, "files", "{} with broken pages {:?}: missing {:?}, extra {:?}", mode, t.broken, w.difference(&set).take(5).collect::<Vec<_>>(), set.difference(&w).take(5).collect::<Vec<_>>());
            c.obs("partial_crawls", 1);
        }
        // What was asked for: every reachable page once, and nothing else.
        let mut asked: BTreeMap<String, usize> = BTreeMap::new();
        for q in site.requests() {
            *asked.entry(page_of(&q.path)).or_insert(0) += 1;
        }
        for (p, n) in &asked {
            ensure!(t.dirs.contains_key(p), "stray", "{}: {} is fetched, which is no page of the site", mode, p);
            let refused = t.broken.get(p) == Some(&0);
            ensure!(*n == 1 || refused, "refetched", "{}: the page {} is fetched {} times", mode, p, n);
        }
        for d in t.dirs.keys() {
            let hidden = t.broken.keys().any(|b| b != d && d.starts_with(b.as_str()));
            ensure!(hidden || asked.contains_key(d), "unvisited", "{}: the page {} is not fetched", mode, d);
        }
        c.obs("pages_fetched", asked.len() as u64);
        c.obs("files_listed", got.len() as u64);
        c.obs("errors_seen", errors.len() as u64);
    }
    c.obs_max("pages", t.dirs.len() as u64);
    c.sample(|| format!("{} pages, {} files, broken {:?}", t.dirs.len(), want_all.len(), t.broken));
    Ok(())
}

// ---------------------------------------------------------------- C22
pub(crate) struct Served {
    /// Path ('/b/...' or '/t/...') -> content.
    pub(crate) files: BTreeMap<String, Vec<u8>>,
    pub(crate) faults: BTreeMap<String, Fault>,
    pub(crate) slow: u64,
    pub(crate) seed: u64,
    pub(crate) extra: BTreeMap<String, String>,
    /// Plain files that the server compresses on the fly.
    pub(crate) packed: BTreeSet<String>,
}

pub(crate) fn serve22(s: &Arc<Mutex<Served>>, prefix_len: usize) -> Site {
    let s = s.clone();
    Site::with_prefix_len(prefix_len, move |q: &Req| {
        let s = s.lock().unwrap();
        let path = q.path.split('?').next().unwrap_or("");
        let mut r = Rng::new(s.seed ^ hash64(q.path.as_bytes()));
        let mut resp = if let Some(e) = s.extra.get(path) {
            Resp::ok(e.as_bytes())
        } else if let Some(b) = s.files.get(path) {
            if path.ends_with(".gz") {
                // As log servers do.
                Resp { encoding: Some("gzip"), ..Resp::ok(b.clone()) }
            } else if s.packed.contains(path) {
                Resp { encoding: Some("gzip"), ..Resp::ok(c_detect::gz(&mut Rng::new(1), b)) }
            } else {
                Resp::ok(b.clone())
            }
        } else if path.ends_with('/') {
            let mut kids = BTreeSet::new();
            for f in s.files.keys() {
                if let Some(rest) = f.strip_prefix(path) {
                    match rest.find('/') {
                        Some(i) => kids.insert(rest[..i + 1].to_string()),
                        None => kids.insert(rest.to_string()),
                    };
                }
            }
            let mut body = String::from("<a href=\"?C=N\">Name</a> <a href=\"../\">up</a>\n");
            for k in kids {
                body.push_str(&format!("<td><a href=\"{}\">{}</a></td>\n", k, k));
            }
            Resp::ok(body)
        } else {
            return Resp::status(404);
        };
        resp.ctype = "text/plain";
        resp.chunked = r.chance(1, 3);
        resp.close = r.chance(1, 8);
        resp.delay = Duration::from_micros(r.below(s.slow as usize * 1000 + 1) as u64);
        if let Some(f) = s.faults.get(path) {
            // The end of a compressed body says that it is complete.
            let n = resp.body.len().saturating_sub(9).max(1);
            resp.fault = match f {
                Fault::Cut(k) if resp.encoding.is_some() => Fault::Cut(k % n),
                Fault::CutChunked(k) if resp.encoding.is_some() => Fault::CutChunked(k % n),
                f => f.clone(),
            };
        }
        resp
    })
}

/// What a report says about each source.
#[derive(Debug, PartialEq)]
pub(crate) struct Verdict {
    pub(crate) anomalies: BTreeMap<String, Vec<Got>>,
    pub(crate) counts: BTreeMap<String, (usize, usize, String)>,
    pub(crate) unread: Vec<String>,
    pub(crate) unmatched: Vec<String>,
    pub(crate) totals: (usize, usize),
    pub(crate) indexes: BTreeMap<String, Vec<String>>,
}
pub(crate) fn verdict(rep: &Report) -> Result<Verdict, Stop> {
    for x in rep.log_reports.iter().map(|l| &l.source).chain(rep.read_errors.iter().map(|x| &x.0)).chain(rep.index_errors.iter().flatten()).chain(rep.index_reports.values().flat_map(|i| &i.sources)) {
        if matches!(x, logreduce_model::Source::Remote(..)) && x.get_relative().starts_with('/') {
            return viol("relative", format!("{} is named {:?}, which does not follow its address", x, x.get_relative()));
        }
    }
    let mut unread: Vec<String> = rep.read_errors.iter().map(|x| rel(&x.0)).collect();
    unread.sort();
    let mut unmatched: Vec<String> = rep.index_errors.iter().flatten().map(rel).collect();
    unmatched.sort();
    Ok(Verdict {
        anomalies: by_path(rep)?,
        counts: rep.log_reports.iter().map(|l| (rel(&l.source), (l.line_count, l.byte_count, l.index_name.0.clone()))).collect(),
        unread,
        unmatched,
        totals: (rep.total_line_count, rep.total_anomaly_count),
        indexes: rep
            .index_reports
            .iter()
            .map(|(k, v)| {
                let mut s: Vec<String> = v.sources.iter().map(rel).collect();
                s.sort();
                (k.0.clone(), s)
            })
            .collect(),
    })
}

pub(crate) fn compare(what: &str, local: &Verdict, remote: &Verdict) -> V {
    // The duplicates of a group are reported in the file that comes first, and listings have their own order:
    // compare per source when each group has one file, else per group of sources.
    ensure!(local.unread == remote.unread, "unread", "{}: unreadable {:?} instead of {:?}", what, remote.unread, local.unread);
    ensure!(local.unmatched == remote.unmatched, "unmatched", "{}: without baseline {:?} instead of {:?}", what, remote.unmatched, local.unmatched);
    ensure!(local.indexes == remote.indexes, "indexes", "{}: indexes {:?} instead of {:?}", what, remote.indexes, local.indexes);
    ensure!(local.counts == remote.counts, "counts", "{}: line and byte counts {:?} instead of {:?}", what, remote.counts, local.counts);
    ensure!(local.totals == remote.totals, "totals", "{}: totals {:?} instead of {:?}", what, remote.totals, local.totals);
    for (p, a) in &local.anomalies {
        let b = remote.anomalies.get(p).cloned().unwrap_or_default();
        ensure!(same_verdicts(a, &b), "anomalies", "{}: {} has {} anomalies instead of {}: {:?} / {:?}", what, p, b.len(), a.len(), b.iter().find(|x| !a.contains(x)), a.iter().find(|x| !b.contains(x)));
    }
    Ok(())
}

pub(crate) fn tree22(r: &mut Rng, s: &Scen, gs: &[(String, String)], target: bool) -> Tree {
    let mut t = Tree::new();
    for (d, n) in gs {
        let k = if target { 1 } else { r.range(1, 3) };
        for p in group_paths(r, d, n, k) {
            let l = if target {
                let n = *r.pick(&[1usize, 10, 60, 600]);
                s.mixed(r, n)
            } else {
                s.baseline(r)
            };
            let b = if is_json(&p) { scen::json_file(r, &l) } else { scen::file(r, &l) };
            let p = p.replace("./", "");
            if r.chance(1, 4) {
                let z = c_detect::gz(r, &b);
                t.insert(p + ".gz", z);
            } else {
                t.insert(p, b);
            }
        }
    }
    t
}
pub(crate) fn url_content(u: &str) -> Result<Content, String> {
    Content::from_input(Input::Url(u.to_string())).map_err(|e| format!("{:#}", e))
}
pub(crate) fn train(cs: Vec<Content>) -> Result<Model, String> {
    Model::train(OutputMode::Quiet, cs, hashing_index::new).map_err(|e| format!("{:#}", e))
}

fn caching() -> bool {
    std::env::var("LOGREDUCE_CACHE").is_ok()
}

/// The files of the cache.
fn cache_files(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let q = e.path();
            if q.is_dir() {
                cache_files(&q, out);
            } else {
                out.push(q);
            }
        }
    }
}

/// Shorten the cached content of the target: each source is as before or unreadable.
fn damaged(c: &mut Case, r: &mut Rng, site: &Site, tu: &str, model: &Model, local: &Verdict, since: std::time::SystemTime) -> V {
    let dir = std::path::PathBuf::from(std::env::var("XDG_CACHE_HOME").expect("XDG_CACHE_HOME"));
    let mut all = Vec::new();
    cache_files(&dir, &mut all);
    let mut undo: Vec<(std::path::PathBuf, Vec<u8>)> = Vec::new();
    for p in all {
        // Those of this case.
        if std::fs::metadata(&p).and_then(|m| m.modified()).map(|t| t < since).unwrap_or(true) {
            continue;
        }
        let data = match std::fs::read(&p) {
            Ok(d) => d,
            Err(_) => continue,
        };
        // Content only, and most of the entries.
        if data.len() < 20 || data[..2] != [0x1f, 0x8b] || r.chance(1, 4) {
            continue;
        }
        // (within the checksum the content is complete)
        let cut = match r.below(3) {
            0 => r.below(data.len() - 9),
            1 => data.len() - 9,
            _ => data.len() - 9 - r.below(data.len().min(200) - 9),
        };
        std::fs::write(&p, &data[..cut]).unwrap();
        undo.push((p, data));
    }
    site.clear();
    let rep = url_content(tu).and_then(|t| c_detect::report(model, t));
    for (p, data) in &undo {
        std::fs::write(p, data).unwrap();
    }
    let v = match rep {
        Ok(x) => verdict(&x)?,
        Err(e) => return viol("damaged-stops", format!("cached content is damaged, and there is no report: {}", e)),
    };
    for u in &local.unread {
        ensure!(v.unread.contains(u), "damaged", "{} is readable all of a sudden", u);
    }
    for (p, n) in &local.counts {
        if v.unread.contains(p) {
            c.obs("damaged_unreadable", 1);
            continue;
        }
        ensure!(v.counts.get(p) == Some(n) && v.anomalies.get(p).map(|a| same_verdicts(&local.anomalies[p], a)).unwrap_or(false), "damaged", "the cached content of {} is damaged, and the report says {:?} instead of {:?} without listing it as unreadable", p, v.counts.get(p), n);
    }
    c.obs("damaged_runs", 1);
    c.obs("damaged_entries", undo.len() as u64);
    Ok(())
}

fn c22(c: &mut Case) -> V {
    let since = std::time::SystemTime::now() - Duration::from_millis(50);
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = *r.pick(&[5, 20, 60]);
    let s = Scen::new(&mut r, n);
    let ng = r.range(1, 4);
    let mut gs = groups(&mut r, ng + 1);
    if r.chance(1, 2) {
        // A file of the top directory.
        gs[0].0 = ".".into();
    }
    let base = tree22(&mut r, &s, &gs[..ng], false);
    let all = ng + r.below(2);
    let target = tree22(&mut r, &s, &gs[..all], true);
    let (bd, td) = (root.join("b"), root.join("t"));
    write_tree(&bd, &base);
    write_tree(&td, &target);
    let mut files = BTreeMap::new();
    for (p, b) in &base {
        files.insert(format!("/b/{}", p), b.clone());
    }
    for (p, b) in &target {
        files.insert(format!("/t/{}", p), b.clone());
    }
    let packed: BTreeSet<String> = files.keys().filter(|p| !p.ends_with(".gz") && r.chance(1, 6)).cloned().collect();
    c.obs("compressed_files", files.keys().filter(|p| p.ends_with(".gz")).count() as u64);
    c.obs("packed_answers", packed.len() as u64);
    let state = Arc::new(Mutex::new(Served { packed, files, faults: BTreeMap::new(), slow: *r.pick(&[0, 0, 3]), seed: r.u64(), extra: BTreeMap::new() }));
    let plen = *r.pick(&[0, 0, 10, 30, 80]);
    let site = serve22(&state, plen);
    let (bu, tu) = (site.url("/b/"), site.url("/t/"));
    c.note(format!("site {} base {:?} target {:?} cache {}", site.url("/"), base.keys().collect::<Vec<_>>(), target.keys().collect::<Vec<_>>(), caching()));
    c.distinct(format!("{:?}{:?}", base, target).as_bytes());

    let local_model = match c_detect::train_dirs(&[bd.clone()]) {
        Ok(m) => m,
        Err(e) => return viol("local", e),
    };
    let local = match c_detect::report(&local_model, dir_content(&td)) {
        Ok(r) => verdict(&r)?,
        Err(e) => return viol("local", e),
    };

    // The faults come first, so that they meet a cold cache.
    let faulty: Option<String> = if r.chance(1, 2) { Some(target.keys().nth(r.below(target.len())).unwrap().clone()).filter(|p| !local.unmatched.contains(p) && target[p].len() > 2) } else { None };
    let base_faulty: Option<String> = if r.chance(1, 4) { base.keys().nth(r.below(base.len())).cloned().filter(|p| base[p].len() > 2) } else { None };
    if let Some(p) = &base_faulty {
        let n = base[p].len();
        let f = match r.below(2) {
            0 => Fault::Cut(r.below(n)),
            _ => Fault::CutChunked(r.below(n + 1)),
        };
        state.lock().unwrap().faults.insert(format!("/b/{}", p), f);
        // Whatever it says, it does not crash, and nothing of it stays.
        let m = url_content(&bu).and_then(|b| train(vec![b]));
        c.obs("cut_baselines", 1);
        c.obs(if m.is_ok() { "cut_baseline_partial" } else { "cut_baseline_error" }, 1);
        state.lock().unwrap().faults.clear();
    }
    if let Some(p) = &faulty {
        let n = target[p].len();
        let f = match r.below(5) {
            0 => Fault::Refuse,
            1 | 2 => Fault::Cut(r.below(n)),
            _ => Fault::CutChunked(r.below(n + 1)),
        };
        state.lock().unwrap().faults.insert(format!("/t/{}", p), f);
        let rep = match url_content(&tu).and_then(|t| c_detect::report(&local_model, t)) {
            Ok(x) => x,
            Err(e) => return viol("cut-stops", format!("{} breaks off, and there is no report: {}", p, e)),
        };
        let v = verdict(&rep)?;
        let mut want = local.unread.clone();
        want.push(p.clone());
        want.sort();
        want.dedup();
        ensure!(v.unread == want, "cut-unseen", "the body of {} breaks off: unreadable are {:?} instead of {:?}", p, v.unread, want);
        for (q, a) in &local.anomalies {
            if q != p {
                let b = v.anomalies.get(q).cloned().unwrap_or_default();
                ensure!(same_verdicts(a, &b), "cut-others", "{} breaks off and changes the anomalies of {}", p, q);
            }
        }
        c.obs("cut_targets", 1);
        state.lock().unwrap().faults.clear();
    }

    // Everything remote; a second time from the cache if there is one.
    for round in 0..2 {
        site.clear();
        let what = ["first run", "second run"][round];
        let model = match url_content(&bu).and_then(|b| train(vec![b])) {
            Ok(m) => m,
            Err(e) => return viol("remote-train", format!("{}: {}", what, e)),
        };
        let rep = match url_content(&tu).and_then(|t| c_detect::report(&model, t)) {
            Ok(m) => m,
            Err(e) => return viol("remote-report", format!("{}: {}", what, e)),
        };
        compare(what, &local, &verdict(&rep)?)?;
        let content: Vec<Req> = site.requests().into_iter().filter(|q| !q.path.ends_with('/')).collect();
        if caching() && round == 1 {
            ensure!(content.is_empty(), "warm", "a warm cache needs {} more requests: {:?}", content.len(), content.first());
            c.obs("warm_runs", 1);
        } else if !caching() {
            for p in base.keys() {
                ensure!(content.iter().any(|q| q.path == format!("/b/{}", p)), "not-fetched", "{} is not fetched without a cache", p);
            }
            c.obs("uncached_runs", 1);
        } else {
            c.obs("cold_runs", 1);
        }
        c.obs("content_requests", content.len() as u64);
        c.obs("anomalies", rep.total_anomaly_count as u64);
    }
    // A damaged cache entry is noticed.
    if caching() && r.chance(1, 2) {
        damaged(c, &mut r, &site, &tu, &local_model, &local, since)?;
    }
    // Mixed: one side remote.
    match r.below(3) {
        0 => {
            let rep = match url_content(&tu).and_then(|t| c_detect::report(&local_model, t)) {
                Ok(m) => m,
                Err(e) => return viol("remote-report", e),
            };
            compare("local baseline, remote target", &local, &verdict(&rep)?)?;
        }
        1 => {
            let model = match url_content(&bu).and_then(|b| train(vec![b])) {
                Ok(m) => m,
                Err(e) => return viol("remote-train", e),
            };
            let rep = match c_detect::report(&model, dir_content(&td)) {
                Ok(m) => m,
                Err(e) => return viol("remote-report", e),
            };
            compare("remote baseline, local target", &local, &verdict(&rep)?)?;
        }
        _ => {
            // A single file.
            let bp = base.keys().next().unwrap().clone();
            let tp = target.keys().nth(r.below(target.len())).unwrap().clone();
            if is_json(bp.trim_end_matches(".gz")) == is_json(tp.trim_end_matches(".gz")) {
                let one = |content: Content, t: Content| -> Result<Verdict, Stop> {
                    let m = match train(vec![content]) {
                        Ok(m) => m,
                        Err(e) => return viol("single", e),
                    };
                    match c_detect::report(&m, t) {
                        Ok(x) => verdict(&x),
                        Err(e) => viol("single", e),
                    }
                };
                let file = |d: &std::path::Path, p: &str| Content::from_input(Input::Path(d.join(p).to_str().unwrap().into())).map_err(|e| format!("{:#}", e));
                let l = match (file(&bd, &bp), file(&td, &tp)) {
                    (Ok(b), Ok(t)) => one(b, t)?,
                    _ => return viol("single", "a local file is not a content"),
                };
                let plain = !is_json(bp.trim_end_matches(".gz")) && !bp.ends_with(".gz") && !tp.ends_with(".gz");
                let (qb, qt) = if plain && r.chance(1, 2) {
                    c.obs("single_with_query", 1);
                    (*r.pick(&["?a=b", "?x", "?f=/a.b"]), *r.pick(&["", "?c=d&e", "?x"]))
                } else {
                    ("", "")
                };
                let once = || -> Result<Verdict, Stop> {
                    match (url_content(&site.url(&format!("/b/{}{}", bp, qb))), url_content(&site.url(&format!("/t/{}{}", tp, qt)))) {
                        (Ok(b), Ok(t)) => one(b, t),
                        (Err(e), _) | (_, Err(e)) => viol("single", e),
                    }
                };
                let q = once()?;
                if caching() {
                    site.clear();
                    let again = once()?;
                    let n = site.requests().len();
                    ensure!(n == 0, "warm", "a warm cache needs {} more requests for the single file {}{}", n, tp, qt);
                    ensure!(again.totals == q.totals, "warm", "the second run on the single file {} has totals {:?} instead of {:?}", tp, again.totals, q.totals);
                }
                let (a, b): (Vec<Got>, Vec<Got>) = (l.anomalies.into_values().flatten().collect(), q.anomalies.into_values().flatten().collect());
                ensure!(same_verdicts(&a, &b) && l.totals == q.totals, "single", "the single file {} has {} anomalies remotely and {} locally, totals {:?} and {:?}", tp, b.len(), a.len(), q.totals, l.totals);
                c.obs("single_files", 1);
            }
        }
    }
    // Through the build pages of a Zuul service.
    if r.chance(1, 4) {
        let uid = |x: u64| format!("{:032x}", x);
        let build = |u: &str, result: &str, logs: &str, change: u64| {
            serde_json::json!({"uuid": u, "job_name": "job", "result": result, "voting": true, "log_url": logs, "final": true, "project": "p", "branch": "master", "pipeline": "gate",
                "duration": 42, "change": change, "ref_url": "http://localhost/1", "ref": "refs/1", "artifacts": [], "end_time": "2022-01-01T00:00:00", "start_time": "2022-01-01T00:00:00", "event_id": "e"})
        };
        {
            let mut st = state.lock().unwrap();
            st.extra.insert(format!("/zuul/api/tenant/t1/build/{}", uid(1)), build(&uid(1), "FAILURE", &tu, 1).to_string());
            st.extra.insert("/zuul/api/tenant/t1/builds".into(), serde_json::json!([build(&uid(2), "SUCCESS", &bu, 2)]).to_string());
        }
        let t = match url_content(&site.url(&format!("/zuul/t/t1/build/{}", uid(1)))) {
            Ok(t) => t,
            Err(e) => return viol("zuul", e),
        };
        let b = match t.discover_baselines() {
            Ok(b) => b,
            Err(e) => return viol("zuul", format!("{:#}", e)),
        };
        let rep = match train(b).and_then(|m| c_detect::report(&m, t)) {
            Ok(x) => x,
            Err(e) => return viol("zuul", e),
        };
        compare("zuul builds", &local, &verdict(&rep)?)?;
        c.obs("zuul_runs", 1);
    }
    c.sample(|| format!("{} baseline files, {} target files, cut {:?}, totals {:?}", base.len(), target.len(), faulty, local.totals));
    Ok(())
}

fn cache_env(shard: u32) -> Vec<(&'static str, String)> {
    if shard % 2 == 0 {
        vec![("LOGREDUCE_CACHE", "1".to_string())]
    } else {
        vec![]
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C17",
            level: "exploration",
            rule: "a generated site of index pages with extra links, delays and failing pages, crawled by list and by the iterator, compared with the site and the server's request log",
            quick: 400,
            thorough: 20000,
            shards: 8,
            run: c17,
            need: &["complete_crawls", "partial_crawls", "failed_lists", "pages_fetched", "files_listed"],
            env: no_env,
            assumptions: &["each page links an entry once", "an HTTP error status is not a fetch failure for the crawler", "names have at least two characters and start with a letter or digit"],
        },
        Spec {
            id: "C22",
            level: "fault_enumeration",
            rule: "a baseline and a target tree on disk and served by a mock server, with and without the content cache, with bodies that break off",
            quick: 1200,
            thorough: 18000,
            shards: 8,
            run: c22,
            need: &["uncached_runs", "cold_runs", "warm_runs", "cut_targets", "cut_baselines", "single_files", "zuul_runs", "anomalies", "compressed_files", "packed_answers", "damaged_runs", "damaged_unreadable", "single_with_query"],
            env: cache_env,
            assumptions: &["compressed files have one member and are served with Content-Encoding: gzip, as log servers do", "an HTTP error status is not a read failure"],
        },
    ]
}
