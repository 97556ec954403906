//! C29: the command line program on build pages and remote locations.
use crate::c_archive::report_key;
use crate::c_cli::{crashed, expected, judge_error, judge_live, judge_page, parse_line, run_cli, strs, Block, Shown, Tty, World};
use crate::c_detect::{self, dir_content, groups, is_json, write_tree, Tree};
use crate::c_http::{serve22, train, tree22, url_content, verdict, Served};
use crate::fw::*;
use crate::httpd::{dead_url, Fault, Req, Site};
use crate::scen::Scen;
use logreduce_model::{IndexName, Report};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

fn uid(x: u64) -> String {
    format!("{:032x}", x)
}

/// A build as the service describes it; the change 0 is none.
fn build(u: &str, project: &str, change: u64, logs: Option<&str>) -> serde_json::Value {
    serde_json::json!({"uuid": u, "job_name": "some-job", "result": "SUCCESS", "voting": true, "log_url": logs, "final": true, "project": project, "branch": "master", "pipeline": "gate",
        "duration": 42, "change": if change == 0 { None } else { Some(change) }, "ref_url": "http://localhost/1", "ref": "refs/1", "artifacts": [], "end_time": "2022-01-01T00:00:00", "start_time": "2022-01-01T00:00:00", "event_id": "e"})
}

fn plain(p: &str, data: &[u8]) -> bool {
    !p.ends_with(".gz")
        && !is_json(p)
        && match std::str::from_utf8(data) {
            // (a broken tail begins after a line feed)
            Ok(t) => t.strip_suffix('\n').unwrap_or(t).split('\n').all(|l| !l.is_empty() && l.len() <= 6000 && !l.contains("\\n")),
            Err(_) => false,
        }
}

struct Env {
    w: World,
    site: Site,
    state: Arc<Mutex<Served>>,
    base: Vec<Tree>,
    target: Tree,
    blocks: Vec<Block>,
    vars: Vec<(&'static str, String)>,
    cached: bool,
    tty: Tty,
    bu: Vec<String>,
    tu: String,
    /// files of the target that have a baseline
    matched: Vec<String>,
}

impl Env {
    fn run(&self, a: &[String]) -> Result<crate::c_cli::Ran, Stop> {
        run_cli(&self.w.root, a, self.tty, &self.vars)
    }
    fn content_requests(&self) -> Vec<Req> {
        self.site.requests().into_iter().filter(|q| (q.path.starts_with("/b") || q.path.starts_with("/t")) && q.method == "GET" && !q.path.ends_with('/')).collect()
    }
    /// The request log of a run; `warm`: it ran before with a cache.
    fn judge_requests(&self, c: &mut Case, warm: bool, with_base: bool, what: &str) -> V {
        let got: BTreeSet<String> = self.content_requests().into_iter().map(|q| q.path).collect();
        if self.cached && warm {
            // (a file that is not read to its end is not kept)
            let more: Vec<&String> = got.iter().filter(|p| !self.w.unreadable.contains(p.trim_start_matches("/t/"))).collect();
            ensure!(more.is_empty(), "warm", "{}: a warm cache needs {} more requests: {:?}", what, more.len(), more.first());
            c.obs("warm_runs", 1);
        } else if !self.cached {
            for p in &self.matched {
                ensure!(got.contains(&format!("/t/{}", p)), "not-fetched", "{}: {} of the target is not fetched", what, p);
            }
            for (k, b) in self.base.iter().enumerate() {
                for p in b.keys() {
                    let q = format!("/b{}/{}", k, p);
                    ensure!(got.contains(&q) == with_base, "base-fetched", "{}: {} is {}fetched", what, q, if with_base { "not " } else { "" });
                }
            }
            c.obs("uncached_runs", 1);
        } else {
            c.obs("cold_runs", 1);
        }
        c.obs("requests", self.site.requests().len() as u64);
        Ok(())
    }
}

fn with(opt: &str, p: &Path, mut v: Vec<String>) -> Vec<String> {
    v.insert(0, p.to_str().unwrap().to_string());
    v.insert(0, opt.to_string());
    v
}

/// The build page of the target and its neighbours; the first baseline is the one to take.
fn builds(c: &mut Case, r: &mut Rng, e: &Env) -> String {
    let target_uid = uid(r.u64() >> 1 | 1);
    let white = r.chance(1, 3);
    let (page, api) = if white { (format!("/zuul/build/{}", target_uid), "/zuul/api/".to_string()) } else { (format!("/zuul/t/t1/build/{}", target_uid), "/zuul/api/tenant/t1/".to_string()) };
    let s = &e.site;
    let mut list = vec![build(&uid(2), "some/project", 22, Some(&e.bu[0]))];
    let mut decoys = 0;
    // Builds that must not be taken: their logs are those of the target, so that nothing would be found.
    let mut add = |r: &mut Rng, b: serde_json::Value| {
        if r.chance(1, 2) {
            let at = r.below(list.len() + 1);
            list.insert(at, b);
            decoys += 1;
        }
    };
    add(r, build(&target_uid, "some/project", 33, Some(&e.tu)));
    add(r, build(&uid(3), "other/project", 34, Some(&e.tu)));
    add(r, build(&uid(4), "some/project", 7, Some(&e.tu)));
    add(r, build(&uid(5), "some/project", 0, Some(&e.tu)));
    add(r, build(&uid(6), "some/project", 35, None));
    let mut newer = |r: &mut Rng, n: u64, logs: String| {
        let mut b = build(&uid(n), "some/project", 36, Some(&logs));
        b["end_time"] = "2022-06-01T00:00:00".into();
        add(r, b);
    };
    // Better ones, but gone.
    newer(r, 8, dead_url("/logs/"));
    newer(r, 9, s.url("/gone"));
    let mut older = build(&uid(10), "some/project", 37, Some(&e.tu));
    older["end_time"] = "2020-06-01T00:00:00".into();
    add(r, older);
    let mut check = build(&uid(11), "some/project", 38, Some(&e.tu));
    check["pipeline"] = "check".into();
    add(r, check);
    c.obs("decoy_builds", decoys);
    let mut t = build(&target_uid, "some/project", 7, Some(&e.tu));
    t["result"] = "FAILURE".into();
    let mut st = e.state.lock().unwrap();
    st.extra.insert(format!("{}build/{}", api, target_uid), t.to_string());
    st.extra.insert(format!("{}builds", api), serde_json::Value::Array(list).to_string());
    c.obs(if white { "whitelabel" } else { "tenants" }, 1);
    s.url(&page)
}

fn c29(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = *r.pick(&[4, 12, 40]);
    let s = Scen::new(&mut r, n);
    let ng = r.range(1, 3);
    let mut gs = groups(&mut r, ng + 1);
    if r.chance(1, 2) {
        // A file of the top directory.
        gs[0].0 = ".".into();
    }
    let kind = r.below(10);
    let zuul = matches!(kind, 1..=4 | 9);
    let nb = if zuul { 1 } else { r.range(1, 2) };
    let mut e = Env {
        w: World { root: root.clone(), base: Vec::new(), target: root.join("target"), simple: BTreeMap::new(), unreadable: BTreeSet::new(), unmatched: BTreeSet::new(), too_long: false },
        site: Site::new(|_| crate::httpd::Resp::status(500)),
        state: Arc::new(Mutex::new(Served { packed: BTreeSet::new(), files: BTreeMap::new(), faults: BTreeMap::new(), slow: *r.pick(&[0, 0, 3]), seed: r.u64(), extra: BTreeMap::new() })),
        base: Vec::new(),
        target: Tree::new(),
        blocks: Vec::new(),
        vars: vec![("XDG_CACHE_HOME", root.join("xdg").to_str().unwrap().to_string())],
        cached: r.chance(1, 2),
        tty: *r.pick(&[Tty::Pipe, Tty::Pipe, Tty::Pipe, Tty::Pipe, Tty::Debug, Tty::Terminal]),
        bu: Vec::new(),
        tu: String::new(),
        matched: Vec::new(),
    };
    if e.cached {
        e.vars.push(("LOGREDUCE_CACHE", "1".to_string()));
    }
    let mut files = BTreeMap::new();
    for k in 0..nb {
        let t = tree22(&mut r, &s, &gs[..ng], false);
        let d = root.join(format!("base{}", k));
        write_tree(&d, &t);
        for (p, b) in &t {
            files.insert(format!("/b{}/{}", k, p), b.clone());
        }
        e.w.base.push(d);
        e.base.push(t);
    }
    let all = ng + r.below(2);
    e.target = tree22(&mut r, &s, &gs[..all], true);
    for (p, b) in e.target.iter_mut() {
        if !p.ends_with(".gz") && r.chance(1, 8) {
            b.extend_from_slice(b"\nbroken \xff\xfe bytes\n");
        }
    }
    write_tree(&e.w.target, &e.target);
    for (p, b) in &e.target {
        files.insert(format!("/t/{}", p), b.clone());
        e.w.simple.insert(p.clone(), plain(p, b));
    }
    {
        let packed = files.keys().filter(|p| !p.ends_with(".gz") && r.chance(1, 6)).cloned().collect();
        let mut st = e.state.lock().unwrap();
        st.packed = packed;
        st.files = files;
    }
    e.site = serve22(&e.state, *r.pick(&[0, 0, 30, 80]));
    e.bu = (0..nb).map(|k| e.site.url(&format!("/b{}/", k))).collect();
    e.tu = e.site.url("/t/");
    c.note(format!("kind {} site {} base {:?} target {:?} cache {} {:?}", kind, e.site.url("/"), e.base.iter().map(|b| b.keys().collect::<Vec<_>>()).collect::<Vec<_>>(), e.target.keys().collect::<Vec<_>>(), e.cached, e.tty));

    // What has to be shown, from the copies on disk.
    let model = match c_detect::train_dirs(&e.w.base) {
        Ok(m) => m,
        Err(x) => return viol("local", x),
    };
    let content = dir_content(&e.w.target);
    let local = match c_detect::report(&model, content.clone()) {
        Ok(x) => verdict(&x)?,
        Err(x) => return viol("local", x),
    };
    e.blocks = expected(&e.w, &model, &content)?;
    e.w.unreadable = local.unread.iter().cloned().collect();
    e.w.unmatched = local.unmatched.iter().cloned().collect();
    e.matched = e.target.keys().filter(|p| !e.w.unmatched.contains(*p)).cloned().collect();
    c.distinct(format!("{:?}", e.blocks.iter().map(|b| &b.lines).collect::<Vec<_>>()).as_bytes());
    let bs: Vec<String> = e.w.base.iter().map(|p| p.to_str().unwrap().to_string()).collect();
    let diff = |b: &[String], t: &str| {
        let mut v = vec!["diff".to_string()];
        v.extend(b.iter().cloned());
        v.push(t.to_string());
        v
    };

    match kind {
        0 => {
            // Each side here or there.
            let rb: Vec<String> = (0..nb).map(|k| if r.chance(1, 2) { e.bu[k].clone() } else { bs[k].clone() }).collect();
            let sides: Vec<(&str, Vec<String>)> = vec![
                ("diff of remote directories", diff(&e.bu, &e.tu)),
                ("diff of a remote target", diff(&bs, &e.tu)),
                ("diff of mixed baselines", diff(&rb, e.w.target.to_str().unwrap())),
            ];
            for (i, (what, a)) in sides.into_iter().enumerate() {
                e.site.clear();
                if i == 0 && r.chance(1, 2) {
                    // Several at the same time, which share the cache.
                    let n = r.range(2, 4);
                    let runs: Vec<_> = std::thread::scope(|t| {
                        let hs: Vec<_> = (0..n).map(|_| t.spawn(|| e.run(&a))).collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    });
                    for run in runs {
                        judge_live(c, &e.w, &run?, &e.blocks, e.tty, "several diffs of remote directories at the same time")?;
                        c.obs("simultaneous_runs", 1);
                    }
                } else {
                    let run = e.run(&a)?;
                    judge_live(c, &e.w, &run, &e.blocks, e.tty, what)?;
                }
                if i == 0 {
                    e.judge_requests(c, false, true, what)?;
                    e.site.clear();
                    let run = e.run(&a)?;
                    judge_live(c, &e.w, &run, &e.blocks, e.tty, "the same once more")?;
                    e.judge_requests(c, true, true, what)?;
                }
            }
            c.obs("remote_diffs", 1);
        }
        1 | 2 => {
            // The build page is enough.
            let page = builds(c, &mut r, &e);
            for round in 0..2 {
                e.site.clear();
                let run = e.run(&strs(&["url", &page]))?;
                judge_live(c, &e.w, &run, &e.blocks, e.tty, "url of a build page")?;
                e.judge_requests(c, round == 1, true, "url of a build page")?;
            }
            c.obs("build_pages", 1);
        }
        3 => {
            // The model of the first run serves the next.
            let page = builds(c, &mut r, &e);
            let m = root.join(*r.pick(&["zuul.bin", "zuul model", "m.html"]));
            let run = e.run(&with("--model", &m, strs(&["url", &page])))?;
            judge_live(c, &e.w, &run, &e.blocks, e.tty, "url of a build page storing the model")?;
            ensure!(m.is_file(), "model-missing", "the model file was not stored");
            let before = std::fs::read(&m).unwrap_or_default();
            // The baseline goes away.
            e.state.lock().unwrap().files.retain(|p, _| !p.starts_with("/b"));
            for (what, u) in [("url of a build page with the stored model", &page), ("url of its logs with the stored model", &e.tu)] {
                e.site.clear();
                let run = e.run(&with("--model", &m, strs(&["url", u])))?;
                judge_live(c, &e.w, &run, &e.blocks, e.tty, what)?;
                let q = e.site.requests();
                ensure!(!q.iter().any(|q| q.path.contains("/builds") || q.path.starts_with("/b")), "model-unused", "{}: {:?} is requested", what, q.iter().find(|q| q.path.contains("/builds") || q.path.starts_with("/b")));
                e.judge_requests(c, true, false, what)?;
            }
            ensure!(std::fs::read(&m).unwrap_or_default() == before, "model-changed", "the stored model was changed");
            // What is no model is refused and kept, although the page would tell where to find baselines.
            let bad = match r.below(4) {
                0 => before[..r.below(before.len().saturating_sub(16).max(1))].to_vec(),
                1 => b"no model\n".to_vec(),
                2 => Vec::new(),
                _ => {
                    let mut b = before.clone();
                    b[..8].fill(0xee);
                    b
                }
            };
            std::fs::write(&m, &bad).unwrap();
            e.state.lock().unwrap().files.extend(e.base.iter().enumerate().flat_map(|(k, b)| b.iter().map(move |(p, d)| (format!("/b{}/{}", k, p), d.clone()))));
            let run = e.run(&with("--model", &m, strs(&["url", &page])))?;
            judge_error(c, &run, "url of a build page with a file that is no model")?;
            ensure!(std::fs::read(&m).unwrap_or_default() == bad, "model-changed", "a file that is no model was overwritten");
            c.obs("bad_models", 1);
            c.obs("models_reused", 1);
        }
        4 => {
            // The page of a build, and the raw report.
            let page = builds(c, &mut r, &e);
            let lib = || -> Result<Report, Stop> {
                let t = match url_content(&page) {
                    Ok(t) => t,
                    Err(x) => return viol("zuul", x),
                };
                let b = match t.discover_baselines() {
                    Ok(b) => b,
                    Err(x) => return viol("zuul", format!("{:#}", x)),
                };
                let mut rep = match train(b).and_then(|m| c_detect::report(&m, t)) {
                    Ok(x) => x,
                    Err(x) => return viol("zuul", x),
                };
                for i in rep.index_reports.values_mut() {
                    // A page names the first few of them, in the order of the listing.
                    i.sources.sort_by(|x, y| x.as_str().cmp(y.as_str()));
                }
                Ok(rep)
            };
            let out = root.join(*r.pick(&["out.html", "report", "a b.htm"]));
            let kept = r.chance(1, 2).then(|| root.join("kept model"));
            for round in 0..2 {
                e.site.clear();
                if r.chance(1, 2) {
                    // It replaces what is there.
                    let old: String = "<p>an old page</p>\n".repeat(r.below(20000));
                    std::fs::write(&out, old).unwrap();
                } else {
                    let _ = std::fs::remove_file(&out);
                }
                let mut a = with("--report", &out, strs(&["url", &page]));
                if let Some(m) = &kept {
                    a = with("--model", m, a);
                }
                let run = e.run(&a)?;
                ensure!(!crashed(&run), "crash", "url --report crashes: {:?} {}", run.code, run.err);
                ensure!(run.code == Some(0), "exit", "url --report exits with {:?}: {}", run.code, run.err);
                e.judge_requests(c, round == 1, round == 0 || kept.is_none(), "url --report")?;
                let html = std::fs::read_to_string(&out).unwrap_or_default();
                let mut rep = lib()?;
                for i in rep.index_reports.values_mut() {
                    if i.sources.len() > 3 {
                        i.sources.clear();
                    }
                }
                judge_page(c, rep, &html, "url --report")?;
                if e.cached {
                    match Report::load(&out.with_extension("json")) {
                        Ok(mut l) => {
                            for i in l.index_reports.values_mut() {
                                i.sources.sort_by(|x, y| x.as_str().cmp(y.as_str()));
                            }
                            let (x, y) = (report_key(&l, false), report_key(&lib()?, false));
                            ensure!(x == y, "raw-report", "the raw report differs:\n{}\n{}", x, y);
                            c.obs("raw_reports", 1);
                        }
                        Err(x) => return viol("raw-report", format!("the raw report cannot be loaded: {:#}", x)),
                    }
                }
            }
        }
        5 | 6 => {
            // A model trained from locations.
            let m = root.join(*r.pick(&["trained", "trained.bin"]));
            let mut a = vec!["train".to_string()];
            a.extend(e.bu.iter().cloned());
            let run = e.run(&with("--model", &m, a))?;
            ensure!(!crashed(&run) && run.code == Some(0) && m.is_file(), "train", "train from remote directories fails: {:?} {}", run.code, run.err);
            for (what, v) in [("url of a directory with the trained model", strs(&["url", &e.tu])), ("the same once more", strs(&["url", &e.tu]))] {
                e.site.clear();
                let run = e.run(&with("--model", &m, v))?;
                judge_live(c, &e.w, &run, &e.blocks, e.tty, what)?;
                e.judge_requests(c, what == "the same once more", false, what)?;
            }
            let run = e.run(&with("--model", &m, strs(&["path", e.w.target.to_str().unwrap()])))?;
            judge_live(c, &e.w, &run, &e.blocks, e.tty, "path with the model of remote directories")?;
            // One file of it.
            let p = r.pick(&e.matched).clone();
            let names: BTreeSet<IndexName> = e.base.iter().flat_map(|b| b.keys().map(|p| IndexName::from_path(p))).collect();
            if names.len() == 1 && !e.w.unreadable.contains(&p) {
                // (there is one index only, the file has to go with it)
                let w = World { simple: BTreeMap::new(), unreadable: BTreeSet::new(), unmatched: BTreeSet::new(), base: Vec::new(), root: root.clone(), target: e.w.target.join(&p), too_long: false };
                let only: Vec<Block> = e.blocks.iter().filter(|b| b.path == p).map(|b| Block { path: b.path.clone(), lines: b.lines.clone() }).collect();
                let run = e.run(&with("--model", &m, strs(&["url", &format!("{}{}", e.tu, p)])))?;
                judge_live(c, &w, &run, &only, e.tty, "url of a file with the trained model")?;
                c.obs("single_files", 1);
            }
            // The groups of a remote directory.
            let run = run_cli(&root, &strs(&["debug-groups", &e.tu]), Tty::Pipe, &e.vars)?;
            let text = run.text();
            let heads: BTreeMap<usize, String> = e.target.keys().map(|p| IndexName::from_path(p)).filter_map(|i| text.find(&format!("{:?}:", i)).map(|at| (at, i.0))).collect();
            for p in e.target.keys() {
                let at = text.find(&format!("/t/{}\"", p));
                let name = at.and_then(|at| heads.range(..at).next_back()).map(|x| x.1.clone());
                ensure!(run.code == Some(0) && name.as_deref() == Some(IndexName::from_path(p).0.as_str()), "debug-groups", "{} is listed under {:?} in {:?}", p, name, text);
                c.obs("debug_grouped", 1);
            }
            c.obs("models_trained", 1);
        }
        7 | 8 => {
            // A body of the target breaks off.
            let p = r.pick(&e.matched).clone();
            let n = e.target[&p].len();
            let whole = r.chance(1, 2) || n <= 2;
            let f = match r.below(3) {
                0 => Fault::Refuse,
                1 => Fault::Cut(if whole { 0 } else { r.below(n) }),
                _ => Fault::CutChunked(if whole { 0 } else { r.below(n) }),
            };
            let whole = whole || matches!(f, Fault::Refuse);
            if n == 0 {
                return Ok(());
            }
            e.state.lock().unwrap().faults.insert(format!("/t/{}", p), f);
            let a = diff(&bs, &e.tu);
            let run = e.run(&a)?;
            let what = "a target that breaks off";
            let had = e.w.unreadable.insert(p.clone());
            ensure!(!crashed(&run) && run.code == Some(0), "cut-exit", "{}: exits with {:?}: {}", what, run.code, run.err);
            if whole {
                let b: Vec<Block> = e.blocks.iter().filter(|b| b.path != p).map(|b| Block { path: b.path.clone(), lines: b.lines.clone() }).collect();
                judge_live(c, &e.w, &run, &b, e.tty, what)?;
            } else {
                let text = run.text();
                let shown: Vec<Shown> = text.split('\n').filter_map(parse_line).collect();
                for b in e.blocks.iter().filter(|b| b.path != p && !b.lines.is_empty()) {
                    let there = shown.windows(b.lines.len()).any(|w| w.iter().zip(&b.lines).all(|(x, (n, a, t))| x.anomaly == *a && x.text == *t && n.map(|n| n == x.pos).unwrap_or(true)));
                    ensure!(there, "cut-others", "{} breaks off, and the lines of {} are not shown", p, b.path);
                }
                for q in &e.w.unreadable {
                    ensure!(text.split('\n').any(|l| parse_line(l).is_none() && l.contains("Could not read") && l.contains(q.as_str())), "unreadable-unnamed", "{}: {} is not named", what, q);
                }
                c.obs("cut_bodies", 1);
            }
            // Once it is whole again, everything is there.
            e.state.lock().unwrap().faults.clear();
            if !had {
                // (it was unreadable before)
            } else {
                e.w.unreadable.remove(&p);
            }
            let run = e.run(&a)?;
            judge_live(c, &e.w, &run, &e.blocks, e.tty, "a target that is whole again")?;
            c.obs("faults", 1);
        }
        _ => errors(c, &mut r, &e, &bs, diff)?,
    }
    c.sample(|| format!("kind {}: {} sources with anomalies, {} unmatched, {} unreadable, cache {}, {:?}", kind, e.blocks.iter().filter(|b| !b.lines.is_empty()).count(), e.w.unmatched.len(), e.w.unreadable.len(), e.cached, e.tty));
    Ok(())
}

fn errors(c: &mut Case, r: &mut Rng, e: &Env, bs: &[String], diff: impl Fn(&[String], &str) -> Vec<String>) -> V {
    if r.chance(1, 2) {
        // A build page that answers nonsense, and then is whole again.
        let page = builds(c, r, e);
        let id = page.rsplit('/').next().unwrap().to_string();
        let list = r.chance(1, 2);
        let (path, whole) = {
            let mut st = e.state.lock().unwrap();
            // The description of the build, or the list of the others.
            let (path, whole) = st.extra.iter().find(|(k, _)| k.ends_with(if list { "/builds" } else { &id })).map(|(k, v)| (k.clone(), v.clone())).unwrap();
            let bad = match r.below(4) {
                0 => whole[..r.below(whole.len())].to_string(),
                1 => "<html>oops</html>".to_string(),
                2 => String::new(),
                _ => "{\"uuid\": 7}".to_string(),
            };
            if r.chance(1, 4) {
                st.faults.insert(path.clone(), Fault::Refuse);
            } else {
                st.extra.insert(path.clone(), bad);
            }
            (path, whole)
        };
        judge_error(c, &e.run(&strs(&["url", &page]))?, "url of a build page that answers nonsense")?;
        {
            let mut st = e.state.lock().unwrap();
            st.faults.clear();
            st.extra.insert(path, whole);
        }
        let run = e.run(&strs(&["url", &page]))?;
        judge_live(c, &e.w, &run, &e.blocks, e.tty, "url of a build page that is whole again")?;
        c.obs("pages_recovered", 1);
        return Ok(());
    }
    let api = "/zuul/api/tenant/t1/";
    let page = |n: u64| e.site.url(&format!("/zuul/t/t1/build/{}", uid(n)));
    {
        let mut st = e.state.lock().unwrap();
        let good = |n: u64| {
            let mut b = build(&uid(n), "some/project", 7, Some(&e.tu));
            b["result"] = "FAILURE".into();
            b
        };
        let whole = good(100).to_string();
        let mut no_logs = good(103);
        no_logs["log_url"] = serde_json::Value::Null;
        let mut no_change = good(104);
        no_change["change"] = serde_json::Value::Null;
        let mut bad_url = good(105);
        bad_url["log_url"] = "not a url".into();
        for (n, doc) in [(101, String::new()), (102, whole[..r.below(whole.len())].to_string()), (103, no_logs.to_string()), (104, no_change.to_string()), (105, bad_url.to_string()), (106, "[]".into()), (107, "{}".into()), (108, "<html>oops</html>".into()), (109, good(109).to_string())] {
            st.extra.insert(format!("{}build/{}", api, uid(n)), doc);
        }
        let list = match r.below(6) {
            0 => "[]".to_string(),
            1 => "oops".to_string(),
            2 => serde_json::json!([build(&uid(109), "some/project", 33, Some(&e.bu[0]))]).to_string(),
            3 => serde_json::json!([build(&uid(2), "some/project", 33, None), build(&uid(3), "some/project", 0, Some(&e.bu[0]))]).to_string(),
            4 => serde_json::json!([build(&uid(2), "some/project", 33, Some(&dead_url("/logs/"))), build(&uid(3), "some/project", 34, Some(&e.site.url("/gone")))]).to_string(),
            _ => serde_json::json!([build(&uid(2), "some/project", 33, Some(&e.site.url("/empty/")))]).to_string(),
        };
        st.extra.insert(format!("{}builds", api), list);
        st.extra.insert("/empty/".into(), "<a href=\"../\">up</a>".into());
        st.faults.insert("/refused/".into(), Fault::Refuse);
        st.faults.insert("/refused/file.log".into(), Fault::Refuse);
        st.files.insert("/refused/file.log".into(), b"some line\n".to_vec());
        st.faults.insert(format!("{}build/{}", api, uid(110)), Fault::Refuse);
        st.extra.insert(format!("{}build/{}", api, uid(110)), whole);
    }
    let file = format!("{}{}", e.tu, e.target.keys().next().unwrap());
    let empty = e.site.url("/empty/");
    let refused = e.site.url("/refused/");
    let dead = dead_url("/logs/");
    let mut cases: Vec<(String, Vec<String>)> = (101..=110).map(|n| (format!("url of build {}", n), strs(&["url", &page(n)]))).collect();
    let mut add = |what: &str, a: Vec<String>| cases.push((what.to_string(), a));
    add("url of a build page of a dead service", strs(&["url", &dead_url(&format!("/zuul/build/{}", uid(1)))]));
    add("url of a directory without baselines", strs(&["url", &e.tu]));
    add("url of a file without baselines", strs(&["url", &file]));
    add("diff to an empty site", diff(bs, &empty));
    add("diff from an empty site", diff(&[empty.clone()], &e.tu));
    add("diff to a refused listing", diff(bs, &refused));
    add("diff from a refused listing", diff(&[refused.clone()], &e.tu));
    add("diff from a dead server", diff(&[dead.clone()], &e.tu));
    add("diff to a dead server", diff(bs, &dead));
    add("diff from a refused file", diff(&[format!("{}file.log", refused)], &e.tu));
    add("diff from a good and a dead place", diff(&[e.bu[0].clone(), dead.clone()], &e.tu));
    add("train from a dead server", strs(&["train", &dead]));
    add("train from an empty site", strs(&["train", &empty]));
    add("train from a good and a refused place", strs(&["train", &e.bu[0], &refused]));
    for (i, (what, mut a)) in cases.into_iter().enumerate() {
        if !r.chance(1, 2) {
            continue;
        }
        // Nothing is left behind.
        let mut made: Vec<PathBuf> = Vec::new();
        if a[0] == "train" || r.chance(1, 3) {
            let m = e.w.root.join(format!("m{}", i));
            // The model of good baselines is stored before the target is read.
            if !what.contains("diff to") {
                made.push(m.clone());
            }
            a = with("--model", &m, a);
        }
        if !what.contains("train") && r.chance(1, 3) {
            let p = e.w.root.join(format!("p{}.html", i));
            made.push(p.clone());
            a = with("--report", &p, a);
        }
        let run = e.run(&a)?;
        judge_error(c, &run, &what)?;
        for p in made {
            ensure!(!p.exists(), "left-behind", "{} fails and leaves {:?}", what, p.file_name().unwrap());
            c.obs("nothing_left", 1);
        }
        c.obs("remote_errors", 1);
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C29",
        level: "fault_enumeration",
        rule: "the command line program on build pages, remote directories and files of a mock service, with decoy builds, kept models, caches, bodies that break off and unusable answers; compared with the analysis of the same files on disk and with the request log",
        quick: 1000,
        thorough: 20000,
        shards: 8,
        run: c29,
        need: &["remote_diffs", "build_pages", "models_reused", "models_trained", "single_files", "debug_grouped", "pages", "raw_reports", "faults", "cut_bodies", "remote_errors", "nothing_left", "warm_runs", "cold_runs", "uncached_runs", "bad_models", "simultaneous_runs", "pages_recovered", "decoy_builds", "whitelabel", "tenants", "live_anomalies", "unmatched_named", "unreadable_named"],
        env: no_env,
        assumptions: &["an HTTP error status is not a read failure", "descriptions of builds and listings are kept with the content when caching is on"],
    }]
}
