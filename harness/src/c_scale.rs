//! C30: what an analysis needs does not grow with the length of the logs.
use crate::alloc;
use crate::c_detect::{dir_content, report, train_dirs, write_tree, Tree};
use crate::c_http::{train, url_content};
use crate::fw::*;
use crate::httpd::{Resp, Site};
use crate::scen::{self, Scen};
use logreduce_model::{Content, Model, Report};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::PathBuf;

const KINDS: &[&str] = &["repeated", "volatile", "blank", "overlong", "escapes", "json", "single-words", "repeated-novel", "bomb"];
/// Long enough that every buffer is full.
const SHORT: usize = 20000;
const TIMES: usize = 8;

/// A log of about `n` lines, of which a few are distinct; the longer one begins like the shorter one.
fn log(mut r: Rng, s: &Scen, kind: &str, n: usize, novel: &[String]) -> Vec<u8> {
    let mut out = Vec::with_capacity(n * 80);
    let cycle: Vec<String> = (0..r.range(1, s.known.len() * 3)).map(|_| s.known_line(&mut r)).collect();
    let words: Vec<&String> = s.known_words.iter().take(30).collect();
    for (i, x) in novel.iter().enumerate() {
        out.extend_from_slice(cycle[i % cycle.len()].as_bytes());
        out.push(b'\n');
        out.extend_from_slice(x.as_bytes());
        out.push(b'\n');
    }
    if kind == "json" {
        let lines: Vec<String> = (0..n).map(|i| cycle[i % cycle.len()].clone()).collect();
        return scen::json_file(&mut r, &lines);
    }
    if kind == "bomb" {
        // What compresses to nothing: n blocks of 512 bytes.
        let block: Vec<u8> = match r.below(4) {
            0 => vec![0; 512],
            1 => vec![b'\n'; 512],
            2 => b" ".repeat(512),
            _ => b"\\n".repeat(256),
        };
        for x in &cycle {
            out.extend_from_slice(x.as_bytes());
            out.push(b'\n');
        }
        for _ in 0..n {
            out.extend_from_slice(&block);
        }
        out.push(b'\n');
        out.extend_from_slice(cycle[0].as_bytes());
        return out;
    }
    for i in 0..n {
        let known = &cycle[i % cycle.len()];
        match kind {
            "volatile" => out.extend_from_slice(s.known_line(&mut r).as_bytes()),
            "blank" if i % 3 > 0 => {
                for _ in 0..r.below(200) {
                    out.extend_from_slice(*r.pick(&[&b"\n"[..], b"\n", b"\n", b" \n", b"\\n", b"\r\n"]));
                }
            }
            "overlong" if i % 5000 == 100 => {
                // (as long as the other lines together)
                for _ in 0..5000 * 8 {
                    out.extend_from_slice(b"filling ");
                }
            }
            "escapes" => {
                out.extend_from_slice(known.as_bytes());
                out.extend_from_slice(b"\\n");
                continue;
            }
            "single-words" => out.extend_from_slice(words[i % words.len()].as_bytes()),
            "repeated-novel" if i % 50 == 1 && !novel.is_empty() => out.extend_from_slice(novel[i % novel.len()].as_bytes()),
            _ => out.extend_from_slice(known.as_bytes()),
        }
        out.push(b'\n');
    }
    out
}

fn packed(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

struct Used {
    train: usize,
    report: usize,
    model: usize,
    anomalies: usize,
    lines: usize,
}

fn measure(c: &mut Case, what: &str, learn: impl FnOnce() -> Result<Model, String>, content: impl FnOnce() -> Result<Content, String>, saved: PathBuf) -> Result<Used, Stop> {
    let fail = |e: String| viol("analysis", format!("{}: {}", what, e));
    let base = alloc::reset_peak();
    let model = match learn() {
        Ok(m) => m,
        Err(e) => return fail(e),
    };
    let train = alloc::peak().saturating_sub(base);
    if let Err(e) = model.save(&saved) {
        return fail(format!("{:#}", e));
    }
    let size = std::fs::metadata(&saved).map(|m| m.len() as usize).unwrap_or(0);
    let base = alloc::reset_peak();
    let rep: Report = match content().and_then(|t| report(&model, t)) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    let report = alloc::peak().saturating_sub(base);
    ensure!(rep.read_errors.is_empty(), "unreadable", "{}: unreadable {:?}", what, rep.read_errors.first());
    c.obs("lines_inspected", rep.total_line_count as u64);
    c.obs("analyses", 1);
    Ok(Used { train, report, model: size, anomalies: rep.total_anomaly_count, lines: rep.total_line_count })
}

fn c30(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = *r.pick(&[5, 40, 200, 1500]);
    let s = Scen::new(&mut r, n);
    let kind = KINDS[c.idx as usize % KINDS.len()];
    let bomb = kind == "bomb";
    let way = if bomb { *r.pick(&["gz", "remote"]) } else { *r.pick(&["plain", "plain", "gz"]) };
    let times = if bomb { 10 } else if c.thorough() && r.chance(1, 8) { 64 } else { TIMES };
    let novel: Vec<String> = (0..r.range(0, 30)).map(|_| s.novel_line(&mut r)).collect();
    let name = if kind == "json" { "data.json" } else { *r.pick(&["console.txt", "syslog"]) };
    let files = r.range(1, 2);
    let seeds: Vec<(u64, u64)> = (0..files)
        .map(|_| {
            let (a, b) = (r.u64(), r.u64());
            (a, if r.chance(1, 2) { a } else { b })
        })
        .collect();
    // Which side is long.
    let side = *r.pick(&["target", "both", "both", "baseline"]);
    c.note(format!("kind {} {} x{} {} {} templates, {} novel lines, {} files", kind, way, times, side, n, novel.len(), files));
    let mut used = Vec::new();
    for (k, t) in [1, times].into_iter().enumerate() {
        let long = |x: &str| SHORT / files * if side == x || side == "both" { t } else { 1 };
        let (mut base, mut target) = (Tree::new(), Tree::new());
        for (i, (a, b)) in seeds.iter().enumerate() {
            let p = format!("{}/{}", ["controller", "compute"][i], name);
            // The same lines on both sides, apart from the novel ones of the target.
            base.insert(p.clone(), log(Rng::new(*a), &s, kind, long("baseline"), &[]));
            target.insert(p, log(Rng::new(*b), &s, kind, long("target"), &novel));
        }
        c.obs("bytes_analysed", base.values().chain(target.values()).map(|b| b.len() as u64).sum());
        let pack = |t: &Tree| -> Tree { t.iter().map(|(p, b)| (format!("{}.gz", p), packed(b))).collect() };
        let saved = root.join(format!("model{}", k));
        let what = format!("{} {} x{}", kind, way, t);
        let u = if way == "remote" {
            let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            for (d, t) in [("b", &base), ("t", &target)] {
                for (p, b) in t {
                    files.insert(format!("/{}/{}", d, p), packed(b));
                }
            }
            drop((base, target));
            let site = Site::new(move |q| match files.get(&q.path) {
                // (the server keeps the compressed content, which is small)
                Some(b) => Resp { encoding: Some("gzip"), chunked: b.len() % 2 == 0, ..Resp::ok(b.clone()) },
                None if q.path.ends_with('/') => Resp::ok(files.keys().filter_map(|p| p.strip_prefix(&q.path)).map(|p| format!("<a href=\"{}\">x</a>\n", p)).collect::<String>()),
                None => Resp::status(404),
            });
            // The first request pays for what is kept by the process.
            let _ = url_content(&site.url("/b/")).and_then(|b| train(vec![b]));
            measure(c, &what, || url_content(&site.url("/b/")).and_then(|b| train(vec![b])), || url_content(&site.url("/t/")), saved)?
        } else {
            let (b, t) = (root.join(format!("base{}", k)), root.join(format!("target{}", k)));
            if way == "gz" {
                write_tree(&b, &pack(&base));
                write_tree(&t, &pack(&target));
            } else {
                write_tree(&b, &base);
                write_tree(&t, &target);
            }
            drop((base, target));
            if k == 0 {
                let _ = train_dirs(&[b.clone()]);
            }
            measure(c, &what, || train_dirs(&[b.clone()]), || Ok(dir_content(&t)), saved)?
        };
        used.push(u);
        for d in ["base", "target"] {
            let _ = std::fs::remove_dir_all(root.join(format!("{}{}", d, k)));
        }
    }
    let (a, b) = (&used[0], &used[1]);
    // How much a network connection delivers at once is its own affair: a bomb is larger than what that can make.
    let bound = |x: usize| x + x / 4 + if bomb { 48 << 20 } else { 3 << 20 };
    let times = format!("{} {} log, {} files", kind, way, files);
    ensure!(b.train <= bound(a.train), "training", "{}: training needs {} bytes, and {} for the longer log with the same lines", times, a.train, b.train);
    ensure!(b.report <= bound(a.report), "inspection", "{}: inspecting {} lines needs {} bytes, and {} for the {} lines of the longer log", times, a.lines, a.report, b.report, b.lines);
    ensure!(b.model <= a.model + a.model / 4 + 65536, "model-size", "{}: a model of {} bytes, and of {} for the longer log with the same lines", times, a.model, b.model);
    if kind == "repeated" || kind == "repeated-novel" {
        ensure!(b.anomalies <= a.anomalies, "anomalies", "{}: {} anomalies, and {} in the longer log with the same lines", times, a.anomalies, b.anomalies);
    }
    c.obs(&format!("kind_{}", kind), 1);
    c.obs(&format!("way_{}", way), 1);
    c.obs(&format!("long_{}", side), 1);
    c.obs_max("train_peak_bytes", b.train as u64);
    c.obs_max("report_peak_bytes", b.report as u64);
    c.obs_max("growth_percent_train", (b.train * 100 / a.train.max(1)) as u64);
    c.obs_max("growth_bytes_report", b.report.saturating_sub(a.report) as u64);
    c.obs_max("growth_bytes_train", b.train.saturating_sub(a.train) as u64);
    c.obs_max("model_bytes", b.model as u64);
    c.distinct(format!("{} {} {} {}", kind, way, side, c.idx).as_bytes());
    c.sample(|| format!("{} {} {}: {} and {} lines; training {} and {} bytes, inspection {} and {} bytes, model {} and {} bytes, {} anomalies", kind, way, side, a.lines, b.lines, a.train, b.train, a.report, b.report, a.model, b.model, b.anomalies));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C30",
        level: "exploration",
        rule: "a log and one that is many times as long but has the same distinct lines, analysed under the heap monitor",
        quick: 81,
        thorough: 2400,
        shards: 8,
        run: c30,
        need: &["analyses", "way_plain", "way_gz", "way_remote", "long_target", "long_both", "long_baseline", "kind_repeated", "kind_volatile", "kind_blank", "kind_overlong", "kind_escapes", "kind_json", "kind_single-words", "kind_repeated-novel", "kind_bomb"],
        env: no_env,
        assumptions: &["the bound of the longer log is that of the shorter one and a quarter, and 3 MiB (48 MiB for 100 MiB in a few kilobytes)"],
    }]
}
