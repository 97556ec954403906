//! C13, C23: saved models and reports.
use crate::c_detect::{by_path, dir_content, group_paths, groups, is_json, rel, report, train_dirs, write_tree, Got, Tree};
use crate::fw::*;
use crate::scen::{self, Scen};
use logreduce_model::{Model, Report};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// Everything a report says, without run times, in a canonical order.
pub fn report_key(r: &Report, times: bool) -> String {
    let mut logs: Vec<String> = r
        .log_reports
        .iter()
        .map(|l| format!("{:?} {:?} {} {} {} {:?}", l.source, l.index_name, l.line_count, l.byte_count, if times { format!("{:?}", l.test_time) } else { String::new() }, l.anomalies))
        .collect();
    let mut idx: Vec<String> = r.index_reports.iter().map(|(k, v)| format!("{:?} {:?} {}", k, v.sources, if times { format!("{:?}", v.train_time) } else { String::new() })).collect();
    idx.sort();
    let mut ie: Vec<String> = r.index_errors.iter().map(|v| format!("{:?}", v)).collect();
    let mut re: Vec<String> = r.read_errors.iter().map(|v| format!("{:?}", v)).collect();
    if !times {
        logs.sort();
        ie.sort();
        re.sort();
    }
    format!(
        "{:#?}\n{:#?}\n{:#?}\n{:#?}\n{:?}\n{:?}\n{} {} {}",
        logs,
        idx,
        ie,
        re,
        r.target,
        r.baselines,
        r.total_line_count,
        r.total_anomaly_count,
        if times { format!("{:?} {:?}", r.created_at, r.run_time) } else { String::new() }
    )
}

/// Limit the size of the files this process can write.
pub struct FileLimit(libc::rlimit);
impl FileLimit {
    pub fn new(n: u64) -> FileLimit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_FSIZE, &new);
            FileLimit(old)
        }
    }
}
impl Drop for FileLimit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

fn tree(r: &mut Rng, s: &Scen, gs: &[(String, String)], target: bool) -> Tree {
    let mut t = Tree::new();
    for (d, n) in gs {
        let k = r.range(1, 2);
        for p in group_paths(r, d, n, k) {
            let l = if target {
                let n = r.range(1, 40);
                s.mixed(r, n)
            } else {
                s.baseline(r)
            };
            let b = if is_json(&p) { scen::json_file(r, &l) } else { scen::file(r, &l) };
            t.insert(p, b);
        }
    }
    t
}

struct Saved<'a> {
    what: &'static str,
    save: Box<dyn Fn(&Path) -> Result<(), String> + 'a>,
    /// Load and describe.
    load: Box<dyn Fn(&Path) -> Result<String, String> + 'a>,
    /// The description of the original.
    key: String,
}

fn c13(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = *r.pick(&[1, 4, 20, 20, 60, 700]);
    let s = Scen::new(&mut r, n);
    let ng = r.range(1, 3);
    let gs = groups(&mut r, ng + 1);
    let mut base = tree(&mut r, &s, &gs[..ng], false);
    if r.chance(1, 8) {
        // An index without a single line.
        let k = base.keys().next().unwrap().clone();
        base.insert(k, Vec::new());
    }
    let mut target = tree(&mut r, &s, &gs, true);
    if r.chance(1, 3) {
        let k = target.keys().next().unwrap().clone();
        target.get_mut(&k).unwrap().extend_from_slice(b"\nbroken \xff\n");
    }
    let (bd, td) = (root.join("b"), root.join("t"));
    write_tree(&bd, &base);
    write_tree(&td, &target);
    let model = match train_dirs(&[bd]) {
        Ok(m) => m,
        Err(e) => return viol("train", e),
    };
    let rep = match report(&model, dir_content(&td)) {
        Ok(m) => m,
        Err(e) => return viol("report", e),
    };
    let td2 = td.clone();
    let things = vec![
        Saved {
            what: "model",
            save: Box::new(|p| model.save(p).map_err(|e| format!("{:#}", e))),
            load: Box::new(move |p| {
                let m = Model::load(p).map_err(|e| format!("{:#}", e))?;
                let r = report(&m, dir_content(&td2)).map_err(|e| format!("report of the loaded model: {}", e))?;
                Ok(report_key(&r, false))
            }),
            key: report_key(&rep, false),
        },
        Saved {
            what: "report",
            save: Box::new(|p| rep.save(p).map_err(|e| format!("{:#}", e))),
            load: Box::new(|p| Report::load(p).map(|r| report_key(&r, true)).map_err(|e| format!("{:#}", e))),
            key: report_key(&rep, true),
        },
    ];
    for t in &things {
        let path = root.join(format!("{}.gz", t.what));
        if r.chance(1, 3) {
            // A longer file is there already.
            std::fs::write(&path, vec![b'x'; 300_000]).unwrap();
        }
        if let Err(e) = (t.save)(&path) {
            return viol("save", format!("saving the {}: {}", t.what, e));
        }
        match (t.load)(&path) {
            Ok(k) if k == t.key => c.obs(&format!("{}_reloaded", t.what), 1),
            Ok(k) => return viol("reload", format!("the {} changes when saved and loaded: {}", t.what, diff(&t.key, &k))),
            Err(e) => return viol("reload", format!("the saved {} cannot be loaded: {}", t.what, e)),
        }
        let full = std::fs::read(&path).unwrap();
        c.obs_max(&format!("{}_bytes", t.what), full.len() as u64);
        // Write failures: every place of the last bytes, and samples.
        let points = |r: &mut Rng, n: usize| -> Vec<usize> {
            let mut v: Vec<usize> = Vec::new();
            let dense = if r.chance(1, 10) { 4000 } else { 12 };
            v.extend(full.len().saturating_sub(dense)..full.len());
            v.extend(0..full.len().min(14));
            for _ in 0..n {
                v.push(r.below(full.len()));
            }
            v.sort();
            v.dedup();
            r.shuffle(&mut v);
            v.truncate(n.max(if dense > 100 { 400 } else { 0 }));
            v
        };
        let k = if c.thorough() { 60 } else { 16 };
        for n in points(&mut r, k) {
            let p2 = root.join("limited");
            let _ = std::fs::remove_file(&p2);
            let res = {
                let _l = FileLimit::new(n as u64);
                (t.save)(&p2)
            };
            let written = std::fs::metadata(&p2).map(|m| m.len()).unwrap_or(0);
            if res.is_ok() {
                // Another run may compress to fewer bytes; then nothing failed.
                match (t.load)(&p2) {
                    Ok(k) if k == t.key && written <= n as u64 && std::fs::read(&p2).map(|b| b == full).unwrap_or(false) => c.obs("write_limit_not_reached", 1),
                    _ => return viol("write-failure", format!("saving the {} succeeds though only {} of {} bytes could be written", t.what, written, full.len())),
                }
            } else {
                c.obs("write_failures", 1);
            }
        }
        // Crashes: the file ends anywhere.
        for n in points(&mut r, k) {
            let p2 = root.join("cut");
            std::fs::write(&p2, &full[..n]).unwrap();
            match guard(|| (t.load)(&p2)) {
                Err(p) => return viol("load-crash", format!("loading a {} cut to {} of {} bytes: {}", t.what, n, full.len(), p)),
                Ok(Err(_)) => c.obs("truncations_rejected", 1),
                Ok(Ok(k)) if k == t.key => c.obs("truncations_complete", 1),
                Ok(Ok(k)) => return viol("load-partial", format!("a {} cut to {} of {} bytes loads to other content: {}", t.what, n, full.len(), diff(&t.key, &k))),
            }
        }
    }
    // Other failures.
    let nowhere = root.join("missing-dir/x");
    ensure!(things[0].save.as_ref()(&nowhere).is_err() && things[1].save.as_ref()(&nowhere).is_err(), "save-nowhere", "saving in a missing directory succeeds");
    if Path::new("/dev/full").exists() {
        for t in &things {
            ensure!((t.save)(Path::new("/dev/full")).is_err(), "disk-full", "saving the {} on a full device succeeds", t.what);
            c.obs("device_full", 1);
        }
    }
    ensure!((things[0].load)(&nowhere).is_err() && (things[1].load)(&nowhere).is_err(), "load-nowhere", "loading a missing file succeeds");
    c.distinct(format!("{:?}{:?}", base, target).as_bytes());
    c.sample(|| format!("{} baselines, {} targets, {} anomalies", base.len(), target.len(), rep.total_anomaly_count));
    Ok(())
}
fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} became {:?}", x.chars().take(300).collect::<String>(), y.chars().take(300).collect::<String>());
        }
    }
    format!("{} became {} lines", a.lines().count(), b.lines().count())
}

// ---------------------------------------------------------------- C23
fn golden() -> PathBuf {
    verif_root().join("golden")
}
fn verdicts(m: &BTreeMap<String, Vec<Got>>) -> serde_json::Value {
    json!(m.iter().map(|(p, v)| (p.clone(), json!(v.iter().map(|g| json!([g.pos, g.distance as f64, g.line, g.before.len(), g.after.len()])).collect::<Vec<_>>()))).collect::<BTreeMap<_, _>>())
}

/// `vh golden`: write the archive (done once, the result is committed).
pub fn make_golden() {
    let g = golden();
    let _ = std::fs::remove_dir_all(&g);
    std::fs::create_dir_all(&g).unwrap();
    for (k, n) in [(0u64, 60usize), (1, 300), (2, 900)] {
        let mut r = Rng::new(4242 + k);
        let s = Scen::new(&mut r, n);
        let gs = vec![("logs".to_string(), "job.log".to_string()), ("compute".to_string(), "data.json".to_string()), ("zuul".to_string(), "console.txt".to_string())];
        let base = tree(&mut r, &s, &gs, false);
        let mut target = Tree::new();
        for (d, f) in &gs {
            let mut l: Vec<String> = Vec::new();
            for _ in 0..180 {
                let x = match r.below(10) {
                    0..=4 => s.near_line(&mut r),
                    5 => s.novel_line(&mut r),
                    6 => s.odd_line(&mut r),
                    _ => s.known_line(&mut r),
                };
                l.push(if x.len() > 1000 { x[..1000].to_string() } else { x });
            }
            let p = format!("{}/{}", d, f);
            let b = if is_json(&p) { scen::json_file(&mut r, &l) } else { scen::file(&mut r, &l) };
            target.insert(p, b);
        }
        let tmp = std::env::temp_dir().join(format!("vh.golden.{}", k));
        write_tree(&tmp, &base);
        write_tree(&g.join(format!("t{}", k)), &target);
        let m = train_dirs(&[tmp.clone()]).unwrap();
        m.save(&g.join(format!("model{}.bin", k))).unwrap();
        let rep = report(&m, dir_content(&g.join(format!("t{}", k)))).unwrap();
        let v = by_path(&rep).ok().unwrap();
        println!("model {}: {} anomalies", k, v.values().map(|x| x.len()).sum::<usize>());
        std::fs::write(g.join(format!("verdicts{}.json", k)), serde_json::to_string(&json!({"anomalies": verdicts(&v), "lines": rep.total_line_count})).unwrap() + "\n").unwrap();
        rep.save(&g.join(format!("report{}.bin", k))).unwrap();
        let _ = std::fs::remove_dir_all(&tmp);
    }
}

/// `vh golden-lines`: write the archive of lines, their tokens and their features (done once).
pub fn make_golden_lines() {
    let mut r = Rng::new(77);
    let mut lines: Vec<String> = crate::c_token::probes(&mut r);
    lines.retain(|l| l.len() < 600);
    lines.sort();
    lines.dedup();
    r.shuffle(&mut lines);
    let tokens: Vec<String> = lines.iter().map(|l| logreduce_tokenizer::process(l)).collect();
    let m = logreduce_index::index_mat(&tokens[..tokens.len() / 4]);
    let distances: Vec<f64> = logreduce_index::search_mat(&m, &tokens).into_iter().map(|d| d as f64).collect();
    let g = golden();
    std::fs::write(g.join("lines.bin"), logreduce_index::save_mat(&m)).unwrap();
    let rows: Vec<_> = (0..lines.len()).map(|i| json!([lines[i], tokens[i], (distances[i] * 1e5).round() / 1e5])).collect();
    std::fs::write(g.join("lines.json"), serde_json::to_string(&rows).unwrap().replace("],[", "],\n[") + "\n").unwrap();
    println!("{} lines", lines.len());
}

/// The archived lines still have their tokens and, as features, their distances to an archived matrix.
fn c23_lines(c: &mut Case) -> V {
    let g = golden();
    let rows: Vec<(String, String, f64)> = match std::fs::read_to_string(g.join("lines.json")).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(w) => w,
        None => return inconclusive("the golden lines are missing"),
    };
    let bytes = std::fs::read(g.join("lines.bin")).unwrap_or_default();
    let mut r = c.rng.clone();
    let mut order: Vec<usize> = (0..rows.len()).collect();
    r.shuffle(&mut order);
    for i in &order {
        let t = logreduce_tokenizer::process(&rows[*i].0);
        ensure!(t == rows[*i].1, "tokens", "{:?} has the tokens {:?} instead of the archived {:?}", rows[*i].0, t, rows[*i].1);
        c.obs("tokens_confirmed", 1);
    }
    let m = logreduce_index::load_mat(&bytes);
    let targets: Vec<String> = order.iter().map(|i| rows[*i].1.clone()).collect();
    let d = logreduce_index::search_mat(&m, &targets);
    ensure!(d.len() == targets.len(), "distances", "{} distances for {} lines", d.len(), targets.len());
    for (k, i) in order.iter().enumerate() {
        ensure!((d[k] as f64 - rows[*i].2).abs() < 1e-3, "features", "{:?} is at distance {} of the archived matrix instead of {}", targets[k], d[k], rows[*i].2);
        c.obs("features_confirmed", 1);
    }
    let chunks = logreduce_index::search_mat_chunk(&[m], &targets);
    for (k, i) in order.iter().enumerate() {
        ensure!((chunks[k] as f64 - rows[*i].2).abs() < 1e-3, "features", "{:?} is at distance {} of the archived matrix (chunks) instead of {}", targets[k], chunks[k], rows[*i].2);
    }
    c.distinct(&r.u64().to_le_bytes());
    Ok(())
}

fn c23(c: &mut Case) -> V {
    if c.idx % 10 == 9 {
        return c23_lines(c);
    }
    let k = c.idx % 3;
    let g = golden();
    let want: serde_json::Value = match std::fs::read_to_string(g.join(format!("verdicts{}.json", k))).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(w) => w,
        None => return inconclusive("the golden verdicts are missing"),
    };
    let m = match Model::load(&g.join(format!("model{}.bin", k))) {
        Ok(m) => m,
        Err(e) => return viol("load", format!("archived model {} cannot be loaded: {:#}", k, e)),
    };
    c.obs("models_loaded", 1);
    // The committed targets, or a part of their lines.
    let mut r = c.rng.clone();
    let root = c.dir();
    let td = g.join(format!("t{}", k));
    let whole = c.idx < 3;
    let rep = match report(&m, dir_content(&td)) {
        Ok(m) => m,
        Err(e) => return viol("report", e),
    };
    let got = by_path(&rep)?;
    if whole {
        ensure!(rep.total_line_count as u64 == want["lines"].as_u64().unwrap_or(0), "lines", "archive {}: {} lines instead of {}", k, rep.total_line_count, want["lines"]);
    }
    let wa = want["anomalies"].as_object().unwrap();
    ensure!(got.len() == wa.len(), "files", "archive {}: anomalies in {:?} instead of {:?}", k, got.keys().collect::<Vec<_>>(), wa.keys().collect::<Vec<_>>());
    for (p, list) in wa {
        let list = list.as_array().unwrap();
        let g = match got.get(p) {
            Some(g) => g,
            None => return viol("files", format!("archive {}: no anomalies in {}", k, p)),
        };
        for (i, w) in list.iter().enumerate() {
            let (pos, dist, line) = (w[0].as_u64().unwrap() as usize, w[1].as_f64().unwrap(), w[2].as_str().unwrap());
            match g.get(i) {
                Some(x) if x.pos == pos && x.line == line => {
                    ensure!((x.distance as f64 - dist).abs() < 1e-3, "distance", "archive {} {} line {}: distance {} instead of {}", k, p, pos, x.distance, dist);
                    c.obs("distances_confirmed", 1);
                }
                x => return viol("anomaly", format!("archive {} {}: expected line {} {:?} (distance {}), got {:?}", k, p, pos, line, dist, x.map(|x| (x.pos, x.distance, x.line.clone())))),
            }
        }
        ensure!(g.len() == list.len(), "anomaly", "archive {} {}: {} anomalies instead of {}; {:?}", k, p, g.len(), list.len(), g.last().map(|x| (x.pos, x.distance, x.line.clone())));
    }
    // The archived distances also hold for the anomalies taken one by one in another order, and
    // no other line of the corpus becomes one.
    if !whole {
        let mut t = Tree::new();
        for (p, list) in wa {
            if is_json(p) {
                continue;
            }
            let mut lines: Vec<(String, f64)> = list.as_array().unwrap().iter().map(|w| (w[2].as_str().unwrap().to_string(), w[1].as_f64().unwrap())).collect();
            r.shuffle(&mut lines);
            lines.truncate(r.range(1, 60));
            t.insert(p.clone(), lines.iter().map(|l| l.0.clone() + "\n").collect::<String>().into_bytes());
        }
        let d = root.join("t");
        write_tree(&d, &t);
        let rep = match report(&m, dir_content(&d)) {
            Ok(m) => m,
            Err(e) => return viol("report", e),
        };
        for lr in &rep.log_reports {
            let p = rel(&lr.source);
            for a in &lr.anomalies {
                let w = wa[&p].as_array().unwrap().iter().find(|w| w[2].as_str() == Some(a.anomaly.line.as_str()));
                match w {
                    Some(w) => ensure!((w[1].as_f64().unwrap() - a.anomaly.distance as f64).abs() < 1e-3, "distance", "archive {} {:?}: distance {} instead of {}", k, a.anomaly.line, a.anomaly.distance, w[1]),
                    None => return viol("anomaly", format!("archive {}: {:?} is not an archived anomaly", k, a.anomaly.line)),
                }
                c.obs("distances_confirmed", 1);
            }
            let n = t[&p].iter().filter(|b| **b == b'\n').count();
            ensure!(lr.anomalies.len() <= n && lr.anomalies.len() > 0, "anomaly", "archive {} {}: {} anomalies of {} lines", k, p, lr.anomalies.len(), n);
            c.distinct(&t[&p]);
        }
        ensure!(rep.log_reports.len() == t.len(), "anomaly", "archive {}: anomalies in {} of {} files", k, rep.log_reports.len(), t.len());
    } else {
        c.distinct(format!("archive {}", k).as_bytes());
    }
    // An archived report.
    match Report::load(&g.join(format!("report{}.bin", k))) {
        Ok(old) => {
            let v = by_path(&old)?;
            for (p, list) in wa {
                let n = v.get(p).map(|x| x.len()).unwrap_or(0);
                ensure!(n == list.as_array().unwrap().len(), "report", "archived report {}: {} has {} anomalies", k, p, n);
                ensure!(v[p].iter().zip(list.as_array().unwrap()).all(|(x, w)| x.line == w[2].as_str().unwrap() && x.pos as u64 == w[0].as_u64().unwrap()), "report", "archived report {}: {} differs", k, p);
            }
            c.obs("reports_loaded", 1);
        }
        Err(e) => return viol("load-report", format!("archived report {} cannot be loaded: {:#}", k, e)),
    }
    c.sample(|| format!("archive {}: {} anomalies", k, got.values().map(|x| x.len()).sum::<usize>()));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C13",
            level: "fault_enumeration",
            rule: "a model and a report saved, reloaded, saved under write limits and loaded after truncation",
            quick: 1000,
            thorough: 15000,
            shards: 8,
            run: c13,
            need: &["model_reloaded", "report_reloaded", "write_failures", "truncations_rejected"],
            env: no_env,
            assumptions: &["write failures are injected with RLIMIT_FSIZE and /dev/full", "the serialized bytes of one object are deterministic within a process"],
        },
        Spec {
            id: "C23",
            level: "exploration",
            rule: "an archived model applied to its archived corpus or to a shuffled part of it",
            quick: 60,
            thorough: 3000,
            shards: 6,
            run: c23,
            need: &["models_loaded", "distances_confirmed", "reports_loaded", "tokens_confirmed", "features_confirmed"],
            env: no_env,
            assumptions: &["the archives under /verif/golden were written by the pinned release with the fix commits"],
        },
    ]
}
