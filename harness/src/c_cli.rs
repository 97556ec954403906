//! C19, C27: the command line program as a process.
use crate::c_archive::report_key;
use crate::c_detect::{dir_content, group_paths, groups, gz, rel, unopenable, write_tree, Got, Tree};
use crate::c_html;
use crate::fw::*;
use crate::scen::{self, Scen};
use logreduce_model::{hashing_index, Content, IndexName, Input, Model, OutputMode, Report};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub(crate) fn binary() -> PathBuf {
    verif_root().join("target/cli/debug/logreduce-cli")
}

#[derive(Debug)]
pub struct Ran {
    pub out: Vec<u8>,
    pub err: String,
    pub code: Option<i32>,
    pub signal: Option<i32>,
}
impl Ran {
    pub(crate) fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(crate) enum Tty {
    Pipe,
    Debug,
    Terminal,
}

fn openpty() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let (mut m, mut s) = (0, 0);
        let mut t: libc::termios = std::mem::zeroed();
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) != 0 {
            return None;
        }
        libc::tcgetattr(s, &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(s, libc::TCSANOW, &t);
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        Some((std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s)))
    }
}

pub(crate) fn run_cli(cwd: &Path, args: &[String], tty: Tty, env: &[(&str, String)]) -> Result<Ran, Stop> {
    let mut c = Command::new(binary());
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stderr(Stdio::piped());
    c.env("RUST_BACKTRACE", "0");
    if tty == Tty::Debug {
        c.env("LOGREDUCE_LOG", "debug");
    }
    for (k, v) in env {
        c.env(k, v);
    }
    let mut master = None;
    if tty == Tty::Terminal {
        match openpty() {
            Some((m, s)) => {
                master = Some(m);
                c.stdout(s);
            }
            None => return inconclusive("no pseudo terminal"),
        }
    } else {
        c.stdout(Stdio::piped());
    }
    let mut p = match c.spawn() {
        Ok(p) => p,
        Err(e) => return inconclusive(format!("cannot start {:?}: {}", binary(), e)),
    };
    drop(c); // closes our copy of the terminal
    let mut se = p.stderr.take().unwrap();
    let et = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        v
    });
    let mut so: Box<dyn Read + Send> = match master {
        Some(m) => Box::new(m),
        None => Box::new(p.stdout.take().unwrap()),
    };
    let ot = std::thread::spawn(move || {
        let mut v = Vec::new();
        let mut b = [0u8; 65536];
        // A terminal ends with an error.
        while let Ok(n) = so.read(&mut b) {
            if n == 0 {
                break;
            }
            v.extend_from_slice(&b[..n]);
        }
        v
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = p.kill();
            let _ = p.wait();
            return viol("hang", format!("{:?} does not end within 60 s", args));
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    Ok(Ran { out: ot.join().unwrap(), err: String::from_utf8_lossy(&et.join().unwrap()).into_owned(), code: st.code(), signal: st.signal() })
}

/// A line of the live output: number, is an anomaly, text.
#[derive(Clone, PartialEq, Debug)]
pub(crate) struct Shown {
    pub(crate) pos: usize,
    pub(crate) anomaly: bool,
    pub(crate) text: String,
}

pub(crate) fn parse_line(l: &str) -> Option<Shown> {
    let (head, text) = l.split_once(" | ")?;
    let (anomaly, num) = match head.strip_prefix("   ") {
        Some(n) => (false, n),
        None => {
            let (d, n) = head.split_once(' ')?;
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            (true, n)
        }
    };
    if num.is_empty() || !num.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some(Shown { pos: num.parse().ok()?, anomaly, text: text.to_string() })
}

pub(crate) fn crashed(r: &Ran) -> bool {
    r.signal.is_some() || r.code == Some(101) || r.err.contains("panicked at")
}

/// What the live output has to show of one source.
pub(crate) struct Block {
    pub(crate) path: String,
    /// number (None: not decided for this file), anomaly, text
    pub(crate) lines: Vec<(Option<usize>, bool, String)>,
}

/// The blocks may come in any order of the sources, each complete.
fn match_blocks(mut shown: &[Shown], blocks: &[Block]) -> Result<usize, String> {
    let mut left: Vec<&Block> = blocks.iter().filter(|b| !b.lines.is_empty()).collect();
    let fits = |s: &[Shown], b: &Block| -> Option<usize> {
        for (i, (n, a, t)) in b.lines.iter().enumerate() {
            match s.get(i) {
                Some(x) if x.anomaly == *a && x.text == *t && n.map(|n| n == x.pos).unwrap_or(true) => {}
                _ => return Some(i),
            }
        }
        None
    };
    // Identical beginnings are told apart by trying the longer blocks first.
    left.sort_by_key(|b| std::cmp::Reverse(b.lines.len()));
    while !left.is_empty() {
        match left.iter().position(|b| fits(shown, b).is_none()) {
            Some(i) => {
                let b = left.remove(i);
                shown = &shown[b.lines.len()..];
            }
            None => {
                let best = left.iter().max_by_key(|b| fits(shown, b)).unwrap();
                let k = fits(shown, best).unwrap_or(0);
                return Err(format!(
                    "the output does not go on with any of the {} remaining sources: shown {:?}, the closest source {} expects {:?} (line {} of its {})",
                    left.len(),
                    shown.get(k),
                    best.path,
                    best.lines.get(k),
                    k,
                    best.lines.len()
                ));
            }
        }
    }
    Ok(shown.len())
}

pub(crate) struct World {
    pub(crate) root: PathBuf,
    pub(crate) base: Vec<PathBuf>,
    pub(crate) target: PathBuf,
    /// relative path -> text with one piece per physical line (numbers can be checked)
    pub(crate) simple: BTreeMap<String, bool>,
    pub(crate) unreadable: BTreeSet<String>,
    pub(crate) unmatched: BTreeSet<String>,
    /// a file is there whose absolute path is too long to be opened
    pub(crate) too_long: bool,
}

pub(crate) fn simple(lines: &[String]) -> bool {
    lines.iter().all(|l| !l.is_empty() && !l.contains("\\n") && l.len() <= 6000 && !l.contains('\n'))
}

fn world(c: &mut Case, r: &mut Rng) -> World {
    let root = c.dir();
    let n = r.range(4, 25);
    let s = Scen::new(r, n);
    let single = r.chance(1, 4);
    let ng = if single { 1 } else { r.range(2, 4) };
    let gs: Vec<(String, String)> = groups(r, ng + 1);
    let nb = ng.min(gs.len());
    let mut w = World { root: root.clone(), base: Vec::new(), target: root.join("target"), simple: BTreeMap::new(), unreadable: BTreeSet::new(), unmatched: BTreeSet::new(), too_long: false };
    let one_file = r.chance(1, 4);
    let shared: Vec<String> = (0..3).map(|_| s.novel_line(r)).collect();
    let mut long = c.idx % 40 == 9;
    let mut target_lines = |r: &mut Rng, c: &mut Case| -> (Vec<String>, bool) {
        // One file of very many lines.
        let n = if std::mem::take(&mut long) {
            c.obs("long_files", 1);
            r.range(9990, 14000)
        } else {
            r.range(0, 40)
        };
        let many = n > 100;
        let clean = r.chance(2, 3);
        let mut v = Vec::new();
        for _ in 0..n {
            let x = if many && r.chance(99, 100) { 19 } else { r.below(20) };
            v.push(if x < 3 {
                s.novel_line(r)
            } else if x < 5 {
                r.pick(&shared).clone()
            } else if x < 6 && !clean {
                s.odd_line(r)
            } else {
                s.known_line(r)
            });
        }
        let ok = simple(&v);
        if ok {
            c.obs("simple_files", 1);
        }
        (v, ok)
    };
    if one_file {
        // One file against another.
        let b = root.join("base/some.log.0");
        let l = s.baseline(r);
        write_tree(&root, &Tree::from([("base/some.log.0".to_string(), scen::file(r, &l))]));
        w.base.push(b);
        let (l, ok) = target_lines(r, c);
        let name = "base/some.log".to_string();
        let mut data = scen::file(r, &l);
        if r.chance(1, 10) {
            data.extend_from_slice(b"\nbroken \xff\xfe bytes\n");
            w.unreadable.insert(name.clone());
        }
        write_tree(&root, &Tree::from([(name.clone(), data)]));
        w.target = root.join(&name);
        w.simple.insert(String::new(), ok);
        return w;
    }
    let nbase = r.range(1, 2);
    for k in 0..nbase {
        let d = root.join(format!("base{}", k));
        let mut t = Tree::new();
        for (dir, name) in gs.iter().take(nb) {
            let n = r.range(1, 2);
            for p in group_paths(r, dir, name, n) {
                let l = s.baseline(r);
                t.insert(p.clone(), if crate::c_detect::is_json(&p) { scen::json_file(r, &l) } else { scen::file(r, &l) });
            }
        }
        write_tree(&d, &t);
        w.base.push(d);
    }
    let mut t = Tree::new();
    for (g, (dir, name)) in gs.iter().enumerate() {
        let matched = g < nb || nb == 1;
        let n = r.range(1, 3);
        for p in group_paths(r, dir, name, n) {
            let (l, ok) = target_lines(r, c);
            let json = crate::c_detect::is_json(&p);
            let mut data = if json { scen::json_file(r, &l) } else { scen::file(r, &l) };
            if !matched {
                w.unmatched.insert(p.clone());
            } else if r.chance(1, 8) && !p.ends_with(".gz") {
                data.extend_from_slice(b"\nbroken \xff\xfe bytes\n");
                w.unreadable.insert(p.clone());
            } else if r.chance(1, 10) && !p.ends_with(".gz") {
                let z = gz(r, &data);
                let zp = format!("{}.gz", p);
                if r.chance(1, 2) {
                    let cut = z.len() - r.range(1, 8);
                    t.insert(zp.clone(), z[..cut].to_vec());
                    w.unreadable.insert(zp);
                } else {
                    w.simple.insert(zp.clone(), ok && !json);
                    t.insert(zp, z);
                }
                continue;
            }
            if p.ends_with(".gz") {
                data = gz(r, &data);
            }
            w.simple.insert(p.clone(), ok && !json);
            t.insert(p, data);
        }
    }
    write_tree(&w.target, &t);
    if r.chance(1, 12) {
        let (d, n) = gs[0].clone();
        let last = d.rsplit('/').next().unwrap().to_string();
        if let Some(p) = unopenable(&w.target, "long", &last, &n, b"something in here\n") {
            w.unreadable.insert(p);
            w.too_long = true;
            c.obs("unopenable", 1);
        }
    }
    w
}

pub(crate) fn expected(w: &World, m: &Model, content: &Content) -> Result<Vec<Block>, Stop> {
    let mut out = Vec::new();
    let sources = match content.get_sources() {
        Ok(s) => s,
        Err(e) => return inconclusive(format!("{:#}", e)),
    };
    let file = matches!(content, Content::File(_));
    for s in sources {
        let name = if file { String::new() } else { rel(&s) };
        let mut b = Block { path: name.clone(), lines: Vec::new() };
        let Some(index) = m.get_index(&IndexName::from_source(&s)) else {
            continue;
        };
        let mut skip = HashSet::new();
        let got: Vec<Got> = match index.get_processor(OutputMode::Quiet, &s, &mut skip) {
            Ok(p) => p.take_while(|a| a.is_ok()).filter_map(|a| a.ok()).map(|a| Got::from(&a)).collect(),
            Err(_) => Vec::new(),
        };
        let simple = w.simple.get(&name).copied().unwrap_or(false);
        for a in got {
            for (i, t) in a.before.iter().enumerate() {
                b.lines.push((simple.then(|| (a.pos + i).wrapping_sub(a.before.len())), false, t.clone()));
            }
            b.lines.push((Some(a.pos), true, a.line.clone()));
            for (i, t) in a.after.iter().enumerate() {
                b.lines.push((simple.then_some(a.pos + 1 + i), false, t.clone()));
            }
        }
        out.push(b);
    }
    Ok(out)
}

/// The numbers of the expectation against the file itself.
pub(crate) fn confirm_numbers(c: &mut Case, w: &World, blocks: &[Block]) -> V {
    for b in blocks {
        if !w.simple.get(&b.path).copied().unwrap_or(false) || b.path.ends_with(".gz") {
            continue;
        }
        let p = if b.path.is_empty() { w.target.clone() } else { w.target.join(&b.path) };
        let data = std::fs::read(&p).unwrap_or_default();
        let lines: Vec<&[u8]> = data.split(|x| *x == b'\n').collect();
        for (n, _, t) in &b.lines {
            if let Some(n) = n {
                ensure!(n.checked_sub(1).and_then(|i| lines.get(i)).map(|l| *l == t.as_bytes()).unwrap_or(false), "wrong-number", "line {} of {} is not {:?}", n, b.path, t);
                c.obs("numbers_confirmed", 1);
            }
        }
    }
    Ok(())
}

pub(crate) fn judge_live(c: &mut Case, w: &World, run: &Ran, blocks: &[Block], tty: Tty, what: &str) -> V {
    ensure!(!crashed(run), "crash", "{} crashes: code {:?} signal {:?}: {}", what, run.code, run.signal, run.err.chars().take(800).collect::<String>());
    ensure!(run.code == Some(0), "exit", "{} exits with {:?}: {}", what, run.code, run.err.chars().take(800).collect::<String>());
    let text = run.text();
    let shown: Vec<Shown> = text.split('\n').filter_map(parse_line).collect();
    match match_blocks(&shown, blocks) {
        Err(e) => return viol("output", format!("{}: {}", what, e)),
        Ok(0) => {}
        Ok(n) => return viol("output", format!("{}: {} more lines are shown, the first is {:?}", what, n, shown[shown.len() - n])),
    }
    c.obs("live_lines", shown.len() as u64);
    c.obs("live_anomalies", shown.iter().filter(|s| s.anomaly).count() as u64);
    let others: Vec<&str> = text.split('\n').filter(|l| parse_line(l).is_none()).collect();
    let named = |p: &str, word: &str| others.iter().filter(|l| l.contains(word) && l.contains(p)).count();
    for p in &w.unmatched {
        ensure!(named(p, "No baselines") >= 1, "unmatched-unnamed", "{}: {} has no baseline and is not named in {:?}", what, p, others);
        c.obs("unmatched_named", 1);
    }
    for p in &w.unreadable {
        let name = if w.target.is_file() { w.target.file_name().unwrap().to_str().unwrap() } else { p.as_str() };
        ensure!(named(name, "Could not read") >= 1, "unreadable-unnamed", "{}: {} is unreadable and is not named in {:?}", what, p, others.iter().map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>());
        c.obs("unreadable_named", 1);
    }
    if tty != Tty::Terminal {
        // No one else is named.
        for (word, n) in [("-> No baselines for", w.unmatched.len()), ("Could not read", w.unreadable.len())] {
            let k = others.iter().filter(|l| l.trim_start().starts_with(word) || l.starts_with(word)).count();
            ensure!(k == n, "named-sources", "{}: {} sources are named as {:?} instead of {}", what, k, word, n);
        }
    }
    c.obs(match tty { Tty::Pipe => "piped_runs", Tty::Debug => "debug_runs", Tty::Terminal => "terminal_runs" }, 1);
    Ok(())
}

pub(crate) fn judge_error(c: &mut Case, run: &Ran, what: &str) -> V {
    ensure!(!crashed(run), "crash", "{} crashes: code {:?} signal {:?}: {}", what, run.code, run.signal, run.err.chars().take(800).collect::<String>());
    ensure!(run.code != Some(0), "no-error", "{} exits with 0 (output {:?})", what, run.text().chars().take(400).collect::<String>());
    ensure!(!run.err.trim().is_empty(), "no-message", "{} fails without a message", what);
    c.obs("clean_errors", 1);
    Ok(())
}

pub(crate) fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// The page against the library's report, whatever the order of its sources.
pub(crate) fn judge_page(c: &mut Case, mut rep: Report, page: &str, what: &str) -> V {
    let doc = match c_html::parse(page) {
        Ok(d) => d,
        Err(e) => return viol("page", format!("{}: the page is not well nested: {}", what, e)),
    };
    let heads: Vec<String> = doc.with_class("list-group-item-heading").iter().map(|h| h.text().trim().to_string()).collect();
    let want: BTreeSet<String> = rep.log_reports.iter().map(|l| l.source.get_relative().trim().to_string()).collect();
    ensure!(heads.len() == rep.log_reports.len() && heads.iter().cloned().collect::<BTreeSet<_>>() == want, "page-sources", "{}: the page shows the sources {:?} instead of {:?}", what, heads, want);
    rep.log_reports.sort_by_key(|l| heads.iter().position(|h| h == l.source.get_relative().trim()));
    c_html::check_page(c, &rep, page)?;
    c.obs("pages", 1);
    Ok(())
}

fn c19(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let w = world(c, &mut r);
    let tdir = w.target.clone();
    let bs: Vec<String> = w.base.iter().map(|p| p.to_str().unwrap().to_string()).collect();
    let tgt = tdir.to_str().unwrap().to_string();
    let tty = *r.pick(&[Tty::Pipe, Tty::Pipe, Tty::Pipe, Tty::Pipe, Tty::Debug, Tty::Terminal]);
    let content = dir_content(&tdir);
    let model = match Model::train(OutputMode::Quiet, w.base.iter().map(|b| dir_content(b)).collect(), hashing_index::new) {
        Ok(m) => m,
        Err(e) => return viol("train", format!("training fails: {:#}", e)),
    };
    let blocks = expected(&w, &model, &content)?;
    confirm_numbers(c, &w, &blocks)?;
    c.distinct(format!("{:?}", blocks.iter().map(|b| &b.lines).collect::<Vec<_>>()).as_bytes());
    let diff = || {
        let mut v = vec!["diff".to_string()];
        v.extend(bs.iter().cloned());
        v.push(tgt.clone());
        v
    };
    let with = |opt: &str, p: &Path, mut v: Vec<String>| {
        v.insert(0, p.to_str().unwrap().to_string());
        v.insert(0, opt.to_string());
        v
    };
    let one_file = tdir.is_file();
    let cache = w.root.join("xdg");
    let env = vec![("XDG_CACHE_HOME", cache.to_str().unwrap().to_string())];
    match r.below(8) {
        0 | 1 => {
            let run = run_cli(&w.root, &diff(), tty, &env)?;
            judge_live(c, &w, &run, &blocks, tty, "diff")?;
            if one_file {
                // The rotated file is found.
                let run = run_cli(&w.root, &strs(&["path", &tgt]), tty, &env)?;
                judge_live(c, &w, &run, &blocks, tty, "path of a rotated file")?;
                c.obs("discovered", 1);
            }
        }
        2 => {
            // The model is stored by the first run and used by the next.
            let m = w.root.join(*r.pick(&["model.bin", "model", "a.model.gz", "my model", ".model"]));
            let run = run_cli(&w.root, &with("--model", &m, diff()), tty, &env)?;
            judge_live(c, &w, &run, &blocks, tty, "diff storing the model")?;
            ensure!(m.is_file(), "model-missing", "the model file was not stored");
            for k in 0..2 {
                let run = run_cli(&w.root, &with("--model", &m, strs(&["path", &tgt])), tty, &env)?;
                judge_live(c, &w, &run, &blocks, tty, "path with the stored model")?;
                let _ = k;
            }
            // Naming baselines too is an error, and the file stays.
            let before = std::fs::read(&m).unwrap_or_default();
            let run = run_cli(&w.root, &with("--model", &m, diff()), tty, &env)?;
            judge_error(c, &run, "diff with an existing model")?;
            ensure!(std::fs::read(&m).unwrap_or_default() == before, "model-changed", "the stored model was changed");
            // It is the model of these baselines.
            let loaded = match Model::load(&m) {
                Ok(l) => l,
                Err(e) => return viol("model-load", format!("the stored model cannot be loaded: {:#}", e)),
            };
            let b2 = expected(&w, &loaded, &content)?;
            for (x, y) in b2.iter().zip(&blocks) {
                ensure!(x.lines == y.lines, "model-differs", "the stored model gives other anomalies for {}", x.path);
            }
            c.obs("models_stored", 1);
        }
        3 => {
            let m = w.root.join(*r.pick(&["trained.bin", "trained", "train.html", "t r"]));
            let mut a = vec!["train".to_string()];
            a.extend(bs.iter().cloned());
            let run = run_cli(&w.root, &with("--model", &m, a.clone()), tty, &env)?;
            ensure!(run.code == Some(0) && m.is_file(), "train", "train fails: {:?} {}", run.code, run.err);
            let run = run_cli(&w.root, &with("--model", &m, strs(&["path", &tgt])), tty, &env)?;
            judge_live(c, &w, &run, &blocks, tty, "path with the trained model")?;
            let run = run_cli(&w.root, &a, tty, &env)?;
            judge_error(c, &run, "train without a model file")?;
            // Training again replaces the model by one that gives the same.
            let run = run_cli(&w.root, &with("--model", &m, a), tty, &env)?;
            ensure!(run.code == Some(0), "train", "train again fails: {:?} {}", run.code, run.err);
            let run = run_cli(&w.root, &with("--model", &m, strs(&["path", &tgt])), tty, &env)?;
            judge_live(c, &w, &run, &blocks, tty, "path with the model trained again")?;
            c.obs("models_trained", 1);
        }
        4 | 5 => {
            // The page.
            let p = w.root.join("out.html");
            let rep = match model.report(OutputMode::Quiet, content.clone()) {
                Ok(r) => r,
                Err(e) => return viol("report", format!("{:#}", e)),
            };
            let mut e = env.clone();
            let raw = r.chance(1, 3);
            if raw {
                e.push(("LOGREDUCE_CACHE", "1".to_string()));
            }
            let m = w.root.join(*r.pick(&["rep-model.bin", "rep-model"]));
            let via_model = r.chance(1, 3);
            let mut runs = vec![("diff --report", with("--report", &p, diff()))];
            if via_model {
                runs = vec![("diff --report --model", with("--model", &m, with("--report", &p, diff()))), ("path --report --model", with("--model", &m, with("--report", &p, strs(&["path", &tgt]))))];
            }
            for (what, a) in runs {
                let _ = std::fs::remove_file(&p);
                let run = run_cli(&w.root, &a, tty, &e)?;
                ensure!(!crashed(&run), "crash", "{} crashes: {:?} {}", what, run.code, run.err);
                ensure!(run.code == Some(0), "exit", "{} exits with {:?}: {}", what, run.code, run.err);
                let page = std::fs::read_to_string(&p).unwrap_or_default();
                let again = match model.report(OutputMode::Quiet, content.clone()) {
                    Ok(r) => r,
                    Err(e) => return viol("report", format!("{:#}", e)),
                };
                judge_page(c, again, &page, what)?;
                if raw {
                    match Report::load(&p.with_extension("json")) {
                        Ok(l) => {
                            let (x, y) = (report_key(&l, false), report_key(&rep, false));
                            ensure!(x == y, "raw-report", "{}: the raw report differs:\n{}\n{}", what, x, y);
                            c.obs("raw_reports", 1);
                        }
                        Err(e) => return viol("raw-report", format!("{}: the raw report cannot be loaded: {:#}", what, e)),
                    }
                }
            }
        }
        6 => {
            // Inputs that are not there or not usable.
            let nothing = w.root.join("nothing").to_str().unwrap().to_string();
            let empty = w.root.join("empty");
            std::fs::create_dir_all(&empty).unwrap();
            let empty_s = empty.to_str().unwrap().to_string();
            let garbage = w.root.join("garbage.bin");
            let junk: Vec<u8> = (0..r.range(0, 300)).map(|_| r.below(256) as u8).collect();
            std::fs::write(&garbage, junk).unwrap();
            let good = w.root.join("good.bin");
            if let Err(e) = model.save(&good) {
                return inconclusive(format!("{:#}", e));
            }
            let full = std::fs::read(&good).unwrap();
            let cut = w.root.join("cut.bin");
            // (without its last few bytes the model is still complete)
            std::fs::write(&cut, &full[..r.below(full.len() / 2)]).unwrap();
            let nodir = w.root.join("no/such/dir/out.html");
            let lone = w.root.join("lonely.log");
            std::fs::write(&lone, "a lonely line\n").unwrap();
            let lone_s = lone.to_str().unwrap().to_string();
            let mut with_nothing = diff();
            with_nothing[1] = nothing.clone();
            let mut with_empty = diff();
            with_empty[1] = empty_s.clone();
            let n = with_nothing.len();
            let mut to_nothing = diff();
            to_nothing[n - 1] = nothing.clone();
            let mut to_empty = diff();
            to_empty[n - 1] = empty_s.clone();
            let cases: Vec<(&str, Vec<String>)> = vec![
                ("diff from a missing baseline", with_nothing),
                ("diff from an empty baseline", with_empty),
                ("diff to a missing target", to_nothing.clone()),
                ("diff to an empty target", to_empty.clone()),
                ("report of a missing target", with("--report", &w.root.join("x.html"), to_nothing)),
                ("report of an empty target", with("--report", &w.root.join("x.html"), to_empty)),
                ("path of a missing file", strs(&["path", &nothing])),
                ("path without rotated file", strs(&["path", &lone_s])),
                ("path of a directory", strs(&["path", w.root.to_str().unwrap()])),
                ("a garbage model", with("--model", &garbage, strs(&["path", &tgt]))),
                ("a cut model", with("--model", &cut, strs(&["path", &tgt]))),
                ("a report that cannot be written", with("--report", &nodir, diff())),
                ("a model that cannot be written", with("--model", &nodir, diff())),
                ("train from a missing baseline", with("--model", &w.root.join("m2.bin"), strs(&["train", &nothing]))),
                ("train to a place that cannot be written", with("--model", &nodir, strs(&["train", &bs[0]]))),
                ("url without host", strs(&["url", "http://"])),
                ("url that is not one", strs(&["url", "not a url"])),
                ("url of a dead server", strs(&["url", &crate::httpd::dead_url("/t/tenant/build/0123456789abcdef0123456789abcdef")])),
                ("diff to a dead server", {
                    let mut v = diff();
                    v[n - 1] = crate::httpd::dead_url("/logs/");
                    v
                }),
                ("no command", vec![]),
                ("an unknown command", strs(&["frobnicate"])),
            ];
            for (what, a) in cases {
                if !r.chance(1, 2) {
                    continue;
                }
                let run = run_cli(&w.root, &a, tty, &env)?;
                judge_error(c, &run, what)?;
            }
            ensure!(!w.root.join("m2.bin").exists(), "model-of-nothing", "a model of nothing was stored");
        }
        // From here, that path is short enough.
        _ if w.too_long => {}
        _ => {
            // The sources can be given in any way that leads to them.
            let rt = tdir.strip_prefix(&w.root).unwrap().to_str().unwrap().to_string();
            let mut a = vec!["diff".to_string()];
            for b in &w.base {
                a.push(b.strip_prefix(&w.root).unwrap().to_str().unwrap().to_string());
            }
            a.push(if one_file || r.chance(1, 2) { rt } else { format!("{}/", rt) });
            let run = run_cli(&w.root, &a, tty, &env)?;
            judge_live(c, &w, &run, &blocks, tty, "diff with relative paths")?;
            c.obs("relative", 1);
        }
    }
    c.sample(|| format!("{} sources with anomalies, {} unmatched, {} unreadable, {:?}", blocks.iter().filter(|b| !b.lines.is_empty()).count(), w.unmatched.len(), w.unreadable.len(), tty));
    Ok(())
}

// ---------------------------------------------------------------- C27
struct Dataset {
    dir: PathBuf,
    ok: bool,
    why: String,
    count: usize,
}

fn yaml(s: &str) -> String {
    // A JSON string is a YAML string.
    serde_json::to_string(s).unwrap()
}

fn dataset(r: &mut Rng, dir: &Path) -> Dataset {
    std::fs::create_dir_all(dir).unwrap();
    let n = r.range(4, 25);
    let s = Scen::new(r, n);
    let base = s.baseline(r);
    let name = *r.pick(&["sample", "job-output.txt", "data"]);
    std::fs::write(dir.join(format!("{}.good", name)), scen::file(r, &base)).unwrap();
    // The novel lines are distinct.
    let mut taken = std::collections::HashMap::new();
    for w in s.known_words.iter().chain(&s.novel_words) {
        taken.insert(fxhash::hash32(w) as usize % 260000, w.clone());
    }
    let k = match r.below(40) {
        // More anomalies than small counters hold.
        0 => r.range(250, 600),
        1 | 2 | 3 => r.range(5, 30),
        _ => r.range(0, 4),
    };
    let novel: Vec<String> = (0..k).map(|_| scen::clean_words(r, 3, &mut taken).join(" ")).collect();
    let mut lines: Vec<String> = Vec::new();
    for x in &novel {
        for _ in 0..r.range(0, 6) {
            lines.push(s.known_line(r));
        }
        lines.push(x.clone());
        if r.chance(1, 4) {
            lines.push(x.clone());
        }
    }
    for _ in 0..r.range(0, 5) {
        lines.push(s.known_line(r));
    }
    let mut fail = scen::file(r, &lines);
    let mut exp: Vec<String> = novel
        .iter()
        .map(|x| match r.below(4) {
            // A part of the line, with white space around it.
            0 => x.split(' ').next().unwrap().to_string(),
            1 => format!("  {} ", x),
            _ => x.clone(),
        })
        .collect();
    let mut d = Dataset { dir: dir.to_path_buf(), ok: true, why: "as expected".into(), count: k };
    let mut inf = true;
    let mut drop_fail = false;
    match r.below(16) {
        // As many as that, but for a round number.
        9 if k > 256 => {
            exp.truncate(k - *r.pick(&[256, 250, 100, 1]));
            d.why = "many anomalies are not expected".into();
            d.ok = false;
        }
        // Almost the line.
        7 | 8 if !exp.is_empty() => {
            let i = r.below(exp.len());
            let x = novel[i].clone();
            let w: Vec<&str> = x.split(' ').collect();
            let (what, line) = match r.below(9) {
                6 => ("several lines", format!("{}\n{}", x, x)),
                7 => ("a second line", format!("{}\n{}", x, w[0])),
                8 => ("a first line", format!("{}\n{}", w[0], x)),
                0 => ("letter case", x.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()),
                1 => ("longer", format!("{} {}", x, w[0])),
                2 => ("longer in front", format!("{} {}", w[2], x)),
                3 => ("words in another order", format!("{} {} {}", w[1], w[0], w[2])),
                4 => ("a word is left out", format!("{} {}", w[0], w[2])),
                _ => ("other white space", w.join("  ")),
            };
            if x.contains(line.trim()) {
                d.why = "as expected".into();
            } else {
                exp[i] = line;
                d.why = format!("almost: {}", what);
                d.ok = false;
            }
        }
        0 if !exp.is_empty() => {
            exp.pop();
            d.why = "an anomaly is not expected".into();
            d.ok = false;
        }
        1 => {
            exp.push(scen::clean_words(r, 2, &mut taken).join(" "));
            d.why = "one more is expected".into();
            d.ok = false;
        }
        2 if exp.len() > 1 => {
            let n = exp.len();
            exp.swap(0, n - 1);
            d.why = "another order is expected".into();
            d.ok = false;
        }
        3 if !exp.is_empty() => {
            let i = r.below(exp.len());
            exp[i] = scen::clean_words(r, 2, &mut taken).join(" ");
            d.why = format!("another line is expected at {}", i);
            d.ok = false;
        }
        4 => {
            inf = false;
            d.why = "no description".into();
            d.ok = false;
        }
        5 => {
            drop_fail = true;
            d.why = "no .fail file".into();
            d.ok = false;
        }
        6 => {
            // The last line is always known or novel, the broken bytes follow.
            fail.extend_from_slice(b"\nbroken \xff\xfe bytes\n");
            d.why = "the .fail file is not readable".into();
            d.ok = false;
        }
        _ => {}
    }
    if !drop_fail {
        std::fs::write(dir.join(format!("{}.fail", name)), fail).unwrap();
    }
    if inf {
        let mut t = String::from("anomalies:");
        if exp.is_empty() {
            t.push_str(" []\n");
        } else {
            t.push('\n');
            for e in &exp {
                t.push_str(&format!("  - line: {}\n", yaml(e)));
            }
        }
        if r.chance(1, 15) {
            t = r.pick(&["anomalies: 42\n", "", "anomalies\n", "- line: x\n", "anomalies:\n  - text: x\n", "anomalies:\n  - line: [a, b]\n", "anomalies:\n  - x\n", "{", "lines: []\n", "anomalies: {line: x}\n"]).to_string();
            d.why = "a malformed description".into();
            d.ok = false;
        }
        std::fs::write(dir.join("inf.yaml"), t).unwrap();
    }
    // Files of other names.
    if r.chance(1, 3) {
        let everything = scen::file(r, &lines.iter().cloned().chain(base.iter().cloned()).collect::<Vec<_>>());
        for x in ["notes.good.txt", "xgood", "a.goods", "old.good~", "b.GOOD", "good", "x.good.fail.bak", "x.fail.txt", "xfail", "a.fails", "fail"] {
            if r.chance(1, 2) {
                std::fs::write(dir.join(x), &everything).unwrap();
            }
        }
    }
    d
}

fn c27(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = if r.chance(1, 12) { r.range(4, 12) } else { r.range(1, 3) };
    let ds: Vec<Dataset> = (0..n).map(|i| dataset(&mut r, &root.join(format!("d{}", i)))).collect();
    let ok = ds.iter().all(|d| d.ok);
    let why = ds.iter().map(|d| d.why.clone()).collect::<Vec<_>>();
    c.note(format!("{:?}", why));
    c.distinct(format!("{:?} {}", why, r.u64()).as_bytes());
    let mut a = vec!["test".to_string()];
    a.extend(ds.iter().map(|d| d.dir.to_str().unwrap().to_string()));
    let env = [("XDG_CACHE_HOME", root.join("xdg").to_str().unwrap().to_string())];
    let run = run_cli(&root, &a, Tty::Pipe, &env)?;
    ensure!(!crashed(&run), "crash", "test crashes on {:?}: {:?} {:?} {}", why, run.code, run.signal, run.err);
    if ok {
        ensure!(run.code == Some(0), "refused", "good datasets are refused: {:?} {}", run.code, run.err.chars().take(600).collect::<String>());
        c.obs("accepted", 1);
        c.obs("large_datasets", ds.iter().filter(|d| d.count > 100).count() as u64);
    } else {
        ensure!(run.code != Some(0), "accepted", "datasets {:?} are accepted", why);
        ensure!(!run.err.trim().is_empty(), "no-message", "test fails without a message");
        c.obs("refused", 1);
        for d in ds.iter().filter(|d| !d.ok) {
            c.obs(&format!("bad: {}", d.why.split(" at ").next().unwrap()), 1);
        }
    }
    // The debug commands agree with the library.
    let s = Scen::new(&mut r, 5);
    let line = s.novel_line(&mut r);
    let run = run_cli(&root, &["debug-tokenizer".to_string(), "--".to_string(), line.clone()], Tty::Pipe, &env)?;
    ensure!(run.code == Some(0) && run.text().trim_end() == logreduce_tokenizer::process(&line), "debug-tokenizer", "{:?} is shown as {:?}", line, run.text());
    let p = ds[0].dir.join("inf.yaml");
    let run = run_cli(&root, &["debug-indexname".to_string(), p.to_str().unwrap().to_string()], Tty::Pipe, &env)?;
    ensure!(run.code == Some(0) && run.text().trim_end() == IndexName::from_path(p.to_str().unwrap()).0, "debug-indexname", "{:?} is shown as {:?}", p, run.text());
    let f = root.join("lines.log");
    let lines: Vec<String> = (0..r.range(1, 20)).map(|_| s.known_line(&mut r)).collect();
    let data = scen::file(&mut r, &lines);
    std::fs::write(&f, &data).unwrap();
    let run = run_cli(&root, &["debug-iterator".to_string(), f.to_str().unwrap().to_string()], Tty::Pipe, &env)?;
    let want: Vec<String> = crate::refmodel::split(&data, false).into_iter().map(|(b, n)| format!("{} | {}", n, String::from_utf8_lossy(&b))).collect();
    let got: Vec<String> = run.text().lines().map(|l| l.to_string()).collect();
    ensure!(run.code == Some(0) && got == want, "debug-iterator", "the lines are shown as {:?} instead of {:?}", got, want);
    let mut t = Tree::new();
    for (d, n) in groups(&mut r, 3) {
        for p in group_paths(&mut r, &d, &n, 2) {
            t.insert(p, data.clone());
        }
    }
    let g = root.join("g");
    write_tree(&g, &t);
    let run = run_cli(&root, &["debug-groups".to_string(), g.to_str().unwrap().to_string()], Tty::Pipe, &env)?;
    let text = run.text();
    // Each group is named once, before its files.
    let heads: BTreeMap<usize, String> = t.keys().map(|p| IndexName::from_path(p)).filter_map(|i| text.find(&format!("{:?}:", i)).map(|at| (at, i.0))).collect();
    for p in t.keys() {
        let at = text.find(&format!("{:?}", g.join(p).to_str().unwrap())).or_else(|| text.find(p.as_str()));
        let name = at.and_then(|at| heads.range(..at).next_back()).map(|x| x.1.clone());
        ensure!(run.code == Some(0) && name.as_deref() == Some(IndexName::from_path(p).0.as_str()), "debug-groups", "{} is listed under {:?} in {:?}", p, name, text);
        c.obs("debug_grouped", 1);
    }
    let _ = Input::Path(String::new());
    c.obs("debug_commands", 4);
    c.sample(|| format!("{:?}", why));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C19",
            level: "exploration",
            rule: "generated baselines and target run through the command line program as a process, on a pipe, in debug mode and on a terminal",
            quick: 800,
            thorough: 20000,
            shards: 8,
            run: c19,
            need: &["live_anomalies", "numbers_confirmed", "unmatched_named", "unreadable_named", "models_stored", "models_trained", "pages", "clean_errors", "terminal_runs", "debug_runs", "discovered", "raw_reports", "long_files"],
            env: no_env,
            assumptions: &["the anomalies of a source are those of the library (decided by C07 to C10)"],
        },
        Spec {
            id: "C27",
            level: "exploration",
            rule: "datasets with known anomalies, some with a wrong or missing description, run through the test command, and the debug commands against the library",
            quick: 2500,
            thorough: 37500,
            shards: 8,
            run: c27,
            need: &["accepted", "refused", "debug_commands", "bad: almost: letter case", "bad: almost: longer", "bad: almost: a second line", "large_datasets", "bad: many anomalies are not expected"],
            env: no_env,
            assumptions: &[],
        },
    ]
}
