//! C07-C10, C14, C26: detection over real training and inspection.
use crate::fw::*;
use crate::refmodel::{self, RefFile, RefIndex};
use crate::scen::{self, Scen};
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::{hashing_index, Content, Input, Model, OutputMode, Report};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- running the real code
#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    pub pos: usize,
    pub line: String,
    pub distance: f32,
    pub before: Vec<String>,
    pub after: Vec<String>,
}
impl Got {
    pub fn from(a: &logreduce_model::AnomalyContext) -> Got {
        Got { pos: a.anomaly.pos, line: a.anomaly.line.clone(), distance: a.anomaly.distance, before: a.before.clone(), after: a.after.clone() }
    }
}

/// A reader handing out small pieces.
pub struct Bits {
    data: Vec<u8>,
    pos: usize,
    max: usize,
    rng: Rng,
}
impl Bits {
    pub fn new(r: &mut Rng, data: &[u8]) -> Bits {
        let max = *r.pick(&[7, 100, 4096, 1 << 20, 1 << 20]);
        Bits { data: data.to_vec(), pos: 0, max, rng: Rng::new(r.u64()) }
    }
}
impl Read for Bits {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        if left == 0 {
            return Ok(0);
        }
        let n = self.rng.range(1, self.max).min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn train(r: &mut Rng, baselines: &[Vec<u8>], json: bool) -> Result<logreduce_model::ChunkIndex, Stop> {
    let mut index = hashing_index::new();
    {
        let mut t = ChunkTrainer::new(&mut index, json);
        for b in baselines {
            // A baseline with broken bytes is cut there.
            let _ = t.add(Bits::new(r, b));
        }
        t.complete();
    }
    Ok(index)
}

/// Anomalies, errors, line count, byte count.
pub struct Inspected {
    pub anomalies: Vec<Got>,
    pub errors: usize,
    pub lines: usize,
    pub bytes: usize,
}
pub fn inspect(r: &mut Rng, index: &logreduce_model::ChunkIndex, target: &[u8], json: bool, skip: &mut HashSet<String>) -> Inspected {
    let mut p = ChunkProcessor::new(Bits::new(r, target), index, json, skip);
    let mut out = Inspected { anomalies: Vec::new(), errors: 0, lines: 0, bytes: 0 };
    for a in p.by_ref() {
        match a {
            Ok(a) => out.anomalies.push(Got::from(&a)),
            Err(_) => {
                out.errors += 1;
                break;
            }
        }
    }
    out.lines = p.line_count;
    out.bytes = p.byte_count;
    out
}

// ---------------------------------------------------------------- trees
/// Relative path -> content.
pub type Tree = BTreeMap<String, Vec<u8>>;

pub fn write_tree(root: &Path, tree: &Tree) {
    std::fs::create_dir_all(root).expect("tree root");
    for (p, data) in tree {
        let f = root.join(p);
        std::fs::create_dir_all(f.parent().unwrap()).expect("tree dir");
        std::fs::write(&f, data).expect("tree file");
    }
}
pub fn dir_content(p: &Path) -> Content {
    Content::from_input(Input::Path(p.to_str().unwrap().to_string())).expect("content of a scratch directory")
}
pub fn train_dirs(dirs: &[PathBuf]) -> Result<Model, String> {
    Model::train(OutputMode::Quiet, dirs.iter().map(|d| dir_content(d)).collect(), hashing_index::new).map_err(|e| format!("{:#}", e))
}
pub fn report(m: &Model, c: Content) -> Result<Report, String> {
    m.report(OutputMode::Quiet, c).map_err(|e| format!("{:#}", e))
}
/// The path of a source below its directory.
pub fn rel(s: &logreduce_model::Source) -> String {
    s.get_relative().trim_start_matches('/').to_string()
}
/// Anomalies by relative path.
pub fn by_path(rep: &Report) -> Result<BTreeMap<String, Vec<Got>>, Stop> {
    let mut m = BTreeMap::new();
    for lr in &rep.log_reports {
        let k = rel(&lr.source);
        if m.insert(k.clone(), lr.anomalies.iter().map(Got::from).collect::<Vec<_>>()).is_some() {
            return viol("source-twice", format!("{} is listed twice in the report", k));
        }
    }
    Ok(m)
}

const NAMES: &[&str] = &["job.log", "console.txt", "syslog", "screen-nova.log", "data.json", "messages", "worker_out.log"];
const DIRS: &[&str] = &["controller", "compute", "logs", "zuul", "deep/er/one"];

/// The paths of one group: the same named directory and letters in the name.
pub fn group_paths(r: &mut Rng, dir: &str, name: &str, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![format!("{}/{}", dir, name)];
    while v.len() < n {
        let k = v.len();
        let p = match r.below(3) {
            0 => format!("{}/{}.{}", dir, name, k),
            1 => format!("{}-{}/{}", ["hosta", "hostb", "hostc"][k % 3], k, v[0]),
            _ => format!("{}/{}-2023{:02}{:02}", dir, name, k, r.range(10, 28)),
        };
        if !v.contains(&p) {
            v.push(p);
        }
    }
    v
}
/// Distinct groups (dir, name).
pub fn groups(r: &mut Rng, n: usize) -> Vec<(String, String)> {
    let mut all: Vec<(String, String)> = DIRS.iter().flat_map(|d| NAMES.iter().map(move |n| (d.to_string(), n.to_string()))).collect();
    r.shuffle(&mut all);
    all.truncate(n);
    all
}
pub fn is_json(path: &str) -> bool {
    path.ends_with(".json")
}

fn lines_of(r: &mut Rng, s: &Scen, big: bool) -> Vec<String> {
    let n = if big { r.range(200, 700) } else { r.range(1, 60) };
    s.mixed(r, n)
}
fn body(r: &mut Rng, path: &str, lines: &[String]) -> Vec<u8> {
    if is_json(path) {
        scen::json_file(r, lines)
    } else {
        scen::file(r, lines)
    }
}

// ---------------------------------------------------------------- C08 / C09 scenario
struct One {
    baselines: Vec<Vec<u8>>,
    targets: Vec<Vec<u8>>,
    json: bool,
    kind: &'static str,
}
fn one(r: &mut Rng) -> One {
    let k = r.below(100);
    let (kind, n) = match k {
        99 => ("many", 100),
        0..=49 => ("mixed", *r.pick(&[1, 3, 20, 80, 300])),
        50..=79 => ("boundary", r.range(560, 1300)),
        80..=87 => ("repetitive", 20),
        _ => ("multi", *r.pick(&[5, 30, 600])),
    };
    let s = Scen::new(r, n);
    let nb = r.range(1, 3);
    let json = !["boundary", "repetitive", "many"].contains(&kind) && r.chance(1, 6);
    let mk = |r: &mut Rng, l: &[String]| if json { scen::json_file(r, l) } else { scen::file(r, l) };
    let mut baselines = Vec::new();
    let mut all = s.baseline(r);
    let mut many = Vec::new();
    if kind == "many" {
        let (b, t) = s.many(r);
        all.extend(b);
        many = t;
    }
    if kind != "many" && r.chance(1, 25) {
        // No baseline at all, or an empty one.
        if r.chance(1, 2) {
            baselines.push(Vec::new());
        }
    } else {
        let per = (all.len() + nb - 1) / nb;
        for c in all.chunks(per) {
            baselines.push(mk(r, c));
        }
    }
    let nt = if kind == "multi" { r.range(2, 4) } else { 1 };
    let mut targets: Vec<Vec<u8>> = Vec::new();
    let mut prev: Vec<String> = Vec::new();
    for _ in 0..nt {
        let mut lines = match kind {
            "boundary" => {
                let c = if r.chance(1, 4) { 2 } else { 1 };
                s.boundary(r, c)
            }
            "repetitive" => s.repetitive(r),
            "many" => std::mem::take(&mut many),
            _ => {
                let big = r.chance(1, 6);
                lines_of(r, &s, big)
            }
        };
        // Lines another file of the group already had.
        for _ in 0..r.range(0, 3) {
            if !prev.is_empty() {
                let at = r.below(lines.len() + 1);
                lines.insert(at, r.pick(&prev).clone());
            }
        }
        if r.chance(1, 8) && !json {
            let at = if r.chance(1, 3) { lines.len() - 1 - r.below(3.min(lines.len())) } else { r.below(lines.len() + 1) };
            lines.insert(at, "2023-01-01 00:00:00 | TASK [log-classify : Generate model] ****".to_string());
        }
        prev = lines.clone();
        targets.push(mk(r, &lines));
    }
    One { baselines, targets, json, kind }
}

fn c08_direct(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let o = one(&mut r);
    let bf: Vec<RefFile> = o.baselines.iter().map(|b| refmodel::read_file(b, o.json, false)).collect();
    let tf: Vec<RefFile> = o.targets.iter().map(|t| refmodel::read_file(t, o.json, true)).collect();
    let btok = refmodel::all_tokens(&bf);
    if refmodel::collides(btok.iter().copied().chain(refmodel::all_tokens(&tf))) {
        c.obs("skipped_collision", 1);
        return Ok(());
    }
    let idx = RefIndex::new(btok.iter().copied());
    let mut skip = HashSet::new();
    let mut want = Vec::new();
    for f in &tf {
        match refmodel::inspect(&idx, &mut skip, f) {
            Some(a) => want.push(a),
            None => {
                c.obs("skipped_threshold", 1);
                return Ok(());
            }
        }
    }
    let index = train(&mut r, &o.baselines, o.json)?;
    let mut skip = HashSet::new();
    c.note(format!("kind {} json {} baselines {} targets {:?} lines", o.kind, o.json, btok.len(), tf.iter().map(|f| f.lines.len()).collect::<Vec<_>>()));
    for (i, t) in o.targets.iter().enumerate() {
        let got = inspect(&mut r, &index, t, o.json, &mut skip);
        judge_anomalies(c, &want[i], &got.anomalies, &tf[i])?;
        c.obs("lines_inspected", tf[i].lines.len() as u64);
        c.obs(&format!("targets_{}", o.kind), 1);
        if tf[i].line_count > tf[i].lines.len() {
            c.obs("markers", 1);
        }
        let uniq = tf[i].lines.iter().map(|l| &l.2).collect::<HashSet<_>>().len();
        c.obs("duplicates", (tf[i].lines.len() - uniq) as u64);
        if uniq > 512 {
            c.obs("chunk_crossings", (uniq / 512) as u64);
        }
        if !want[i].is_empty() && want[i].len() < tf[i].lines.len() {
            c.distinct(t);
        }
    }
    c.sample(|| format!("{}: {} baseline lines, target {:?}", o.kind, btok.len(), String::from_utf8_lossy(&o.targets[0]).chars().take(200).collect::<String>()));
    Ok(())
}

fn judge_anomalies(c: &mut Case, want: &[refmodel::RefAnomaly], got: &[Got], f: &RefFile) -> V {
    for (k, w) in want.iter().enumerate() {
        match got.get(k) {
            Some(g) => {
                if g.pos != w.pos || g.line != w.line {
                    return viol("anomaly", format!("anomaly {}: expected line {} {:?} (distance {:.3}, item {} of {}), got line {} {:?} (distance {:.3})", k, w.pos, w.line, w.distance, w.at, f.lines.len(), g.pos, g.line, g.distance));
                }
                ensure!((g.distance as f64 - w.distance).abs() < 2e-4, "distance", "line {} {:?}: distance {} instead of {}", g.pos, g.line, g.distance, w.distance);
            }
            None => return viol("missing", format!("the anomaly at line {} {:?} (distance {:.3}, item {} of {}) is not reported; {} of {} are", w.pos, w.line, w.distance, w.at, f.lines.len(), got.len(), want.len())),
        }
    }
    if got.len() > want.len() {
        let g = &got[want.len()];
        return viol("extra", format!("unexpected anomaly at line {} {:?} distance {:.3}", g.pos, g.line, g.distance));
    }
    c.obs("anomalies", want.len() as u64);
    Ok(())
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    go(&mut Vec::new(), n, &mut out);
    out
}

/// Anomalies through Model::train and Model::report over directories.
fn c08_model(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let ng = r.range(2, 3);
    let s = Scen::new(&mut r, 40);
    let gs = groups(&mut r, ng);
    let mut base = Tree::new();
    let mut target = Tree::new();
    // group -> (baseline paths, target paths)
    let mut plan: Vec<(Vec<String>, Vec<String>)> = Vec::new();
    // Novel lines that several groups have, each reports them.
    let shared: Vec<String> = (0..r.range(0, 4)).map(|_| s.novel_line(&mut r)).collect();
    let crowd = r.chance(1, 60);
    for (d, n) in &gs {
        if crowd {
            let (known, mut l) = s.many(&mut r);
            for x in &shared {
                let at = r.below(l.len() + 1);
                l.insert(at, x.clone());
            }
            let (bp, tp) = (group_paths(&mut r, d, n, 1), group_paths(&mut r, d, n, 1));
            base.insert(bp[0].clone(), body(&mut r, &bp[0], &known));
            target.insert(tp[0].clone(), body(&mut r, &tp[0], &l));
            plan.push((bp, tp));
            c.obs("crowded_groups", 1);
            continue;
        }
        // Each group knows its own part of the lines.
        let mut own = Scen { known_words: s.known_words.clone(), novel_words: s.novel_words.clone(), known: Vec::new() };
        for _ in 0..r.range(3, 30) {
            own.known.push(s.known_template(&mut r));
        }
        let nb = r.range(1, 3);
        let bp = group_paths(&mut r, d, n, nb);
        for p in &bp {
            let l = own.baseline(&mut r);
            base.insert(p.clone(), body(&mut r, p, &l));
        }
        let nt = r.range(1, 4);
        let tp = group_paths(&mut r, d, n, nt);
        let mut prev: Vec<String> = Vec::new();
        for p in &tp {
            let big = r.chance(1, 15);
            let mut l = lines_of(&mut r, &own, big);
            for _ in 0..r.range(0, 4) {
                if !prev.is_empty() {
                    let at = r.below(l.len() + 1);
                    l.insert(at, r.pick(&prev).clone());
                }
            }
            for x in &shared {
                if r.chance(1, 2) {
                    let at = r.below(l.len() + 1);
                    l.insert(at, x.clone());
                    c.obs("shared_novel_lines", 1);
                }
            }
            prev = l.clone();
            target.insert(p.clone(), body(&mut r, p, &l));
        }
        plan.push((bp, tp));
    }
    let (bd, td) = (root.join("base"), root.join("target"));
    write_tree(&bd, &base);
    write_tree(&td, &target);
    let reff = |t: &Tree, p: &str, tgt: bool| refmodel::read_file(&t[p], is_json(p), tgt);
    let model = match train_dirs(&[bd]) {
        Ok(m) => m,
        Err(e) => return viol("train", e),
    };
    let tc = dir_content(&td);
    let order: Vec<String> = match tc.get_sources() {
        Ok(s) => s.iter().map(rel).collect(),
        Err(e) => return viol("sources", format!("{:#}", e)),
    };
    let rep = match report(&model, tc) {
        Ok(m) => m,
        Err(e) => return viol("report", e),
    };
    let got = by_path(&rep)?;
    for (bp, tp) in &plan {
        let bf: Vec<RefFile> = bp.iter().map(|p| reff(&base, p, false)).collect();
        let btok = refmodel::all_tokens(&bf);
        let mut tp = tp.clone();
        tp.sort_by_key(|p| order.iter().position(|o| o == p).unwrap_or(usize::MAX));
        let tf: Vec<RefFile> = tp.iter().map(|p| reff(&target, p, true)).collect();
        if refmodel::collides(btok.iter().copied().chain(refmodel::all_tokens(&tf))) {
            c.obs("skipped_collision", 1);
            continue;
        }
        let idx = RefIndex::new(btok.iter().copied());
        // The files of a group may be visited in any order.
        let mut err: Option<Stop> = None;
        let mut ok = false;
        'perm: for perm in permutations(tp.len()) {
            let mut skip = HashSet::new();
            let mut cov = Cov::default();
            std::mem::swap(c.cov, &mut cov);
            let mut res = Ok(());
            for i in &perm {
                match refmodel::inspect(&idx, &mut skip, &tf[*i]) {
                    None => {
                        std::mem::swap(c.cov, &mut cov);
                        c.obs("skipped_threshold", 1);
                        ok = true;
                        break 'perm;
                    }
                    Some(want) => {
                        let g = got.get(&tp[*i]).map(|v| v.as_slice()).unwrap_or(&[]);
                        res = judge_anomalies(c, &want, g, &tf[*i]);
                        if let Err(Stop::Violation(v)) = &mut res {
                            v.msg = format!("{}: {}", tp[*i], v.msg);
                        }
                        if res.is_err() {
                            break;
                        }
                        c.obs("lines_inspected", tf[*i].lines.len() as u64);
                    }
                }
            }
            match res {
                Ok(()) => {
                    let seen = std::mem::take(&mut c.cov.counters);
                    std::mem::swap(c.cov, &mut cov);
                    for (k, n) in seen {
                        c.obs(&k, n);
                    }
                    ok = true;
                    break;
                }
                Err(e) => {
                    std::mem::swap(c.cov, &mut cov);
                    err.get_or_insert(e);
                }
            }
        }
        if !ok {
            return Err(err.unwrap());
        }
        c.obs("groups_reported", 1);
        c.distinct(format!("{:?}", tp.iter().map(|p| &target[p]).collect::<Vec<_>>()).as_bytes());
    }
    Ok(())
}

fn c08(c: &mut Case) -> V {
    if c.rng.clone().below(4) == 0 {
        c08_model(c)
    } else {
        c08_direct(c)
    }
}

/// Check the contexts of the anomalies of a file against its lines.
pub fn judge_contexts(c: &mut Case, f: &RefFile, got: &[Got]) -> V {
    let mut at: Vec<usize> = Vec::new();
    let mut from = 0;
    for g in got {
        match (from..f.lines.len()).find(|i| f.lines[*i].1 == g.pos && f.lines[*i].0 == g.line) {
            Some(i) => {
                at.push(i);
                from = i + 1;
            }
            None => {
                // Left to C08.
                c.obs("unlocated", 1);
                return Ok(());
            }
        }
    }
    let mut shown = 0;
    for (k, g) in got.iter().enumerate() {
        let i = at[k];
        let next = at.get(k + 1).copied().unwrap_or(f.lines.len());
        let b = shown.max(i.saturating_sub(3));
        let e = (i + 4).min(next);
        let text = |r: std::ops::Range<usize>| f.lines[r].iter().map(|l| l.0.as_str()).collect::<Vec<_>>();
        let (wb, wa) = (text(b..i), text(i + 1..e));
        ensure!(g.before == wb, "before", "anomaly {} at item {} of {} (line {}): before context {:?} instead of {:?}", k, i, f.lines.len(), g.pos, g.before, wb);
        ensure!(g.after == wa, "after", "anomaly {} at item {} of {} (line {}): after context {:?} instead of {:?}", k, i, f.lines.len(), g.pos, g.after, wa);
        c.obs("before_lines", wb.len() as u64);
        c.obs("after_lines", wa.len() as u64);
        if k > 0 && i - at[k - 1] <= 7 {
            c.obs("close_pairs", 1);
        }
        if wb.len() < 3 {
            c.obs("short_before", 1);
        }
        if e == f.lines.len() && wa.len() < 3 {
            c.obs("short_after_at_end", 1);
        }
        shown = e;
    }
    c.obs("anomalies", got.len() as u64);
    Ok(())
}

fn c09(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let o = one(&mut r);
    let index = train(&mut r, &o.baselines, o.json)?;
    let mut skip = HashSet::new();
    for t in &o.targets {
        let f = refmodel::read_file(t, o.json, true);
        c.note(format!("kind {} target of {} lines", o.kind, f.lines.len()));
        let got = inspect(&mut r, &index, t, o.json, &mut skip);
        judge_contexts(c, &f, &got.anomalies)?;
        let uniq = f.lines.iter().map(|l| &l.2).collect::<HashSet<_>>().len();
        if uniq > 512 {
            c.obs("chunk_crossings", (uniq / 512) as u64);
        }
        if f.lines.len() > 5120 {
            c.obs("buffer_flushes", 1);
        }
        if !got.anomalies.is_empty() {
            c.distinct(t);
        }
        c.sample(|| format!("{}: {} lines, {} anomalies, first {:?}", o.kind, f.lines.len(), got.anomalies.len(), got.anomalies.first()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = *r.pick(&[3, 10, 40, 40, 600, 1100]);
    let s = Scen::new(&mut r, n);
    let ng = r.range(1, 4);
    let mut base = Tree::new();
    // The templates of every group and the files it may use.
    let mut plan: Vec<(String, String, Vec<usize>)> = Vec::new();
    for (d, name) in groups(&mut r, ng) {
        let nb = r.range(1, 3);
        let mut tpl: Vec<usize> = (0..s.known.len()).filter(|_| ng == 1 || r.chance(1, 2)).collect();
        if tpl.is_empty() {
            tpl.push(0);
        }
        let mut paths = group_paths(&mut r, &d, &name, nb);
        if r.chance(1, 10) && !is_json(&paths[0]) {
            paths.push(format!("{}/{}.9", d, name));
        }
        r.shuffle(&mut tpl);
        let per = (tpl.len() + paths.len() - 1) / paths.len();
        for (k, p) in paths.iter().enumerate() {
            let own = tpl.chunks(per).nth(k).unwrap_or(&[]);
            let mut l: Vec<String> = own.iter().map(|i| s.known_at(&mut r, *i)).collect();
            for _ in 0..r.range(0, 6) {
                let at = r.below(l.len() + 1);
                let x = match r.below(3) {
                    0 => s.odd_line(&mut r),
                    1 => s.novel_line(&mut r),
                    _ => s.known_at(&mut r, *tpl.first().unwrap()),
                };
                l.insert(at, x);
            }
            let mut b = body(&mut r, p, &l);
            if r.chance(1, 30) {
                b.extend_from_slice(b"\n\xff\xfe broken \xff\nunread line here\n");
            }
            base.insert(p.clone(), b);
        }
        plan.push((d, name, tpl));
    }
    let bd = root.join("base");
    write_tree(&bd, &base);
    let model = match train_dirs(&[bd.clone()]) {
        Ok(m) => m,
        Err(e) => return viol("train", e),
    };
    let mut lines = 0u64;
    // 1. The same content.
    let rep = match report(&model, dir_content(&bd)) {
        Ok(m) => m,
        Err(e) => return viol("report", e),
    };
    none(c, &rep, "the same content")?;
    lines += rep.total_line_count as u64;
    c.obs("same_content", 1);
    // 2. Rearranged, repeated, with other volatile values; only for groups all of whose files are
    //    text and readable to the end.
    let mut target = Tree::new();
    let mut forms = 0;
    for (d, name, tpl) in &plan {
        if is_json(name) {
            continue;
        }
        let readable = base.iter().filter(|(p, _)| *p == &format!("{}/{}", d, name) || p.starts_with(&format!("{}/{}", d, name)) || p.contains(&format!("/{}/{}", d, name))).all(|(_, b)| std::str::from_utf8(b).is_ok());
        if !readable {
            continue;
        }
        let nt = r.range(1, 3);
        for p in group_paths(&mut r, d, name, nt) {
            let k = r.range(1, 2 * tpl.len() + 3);
            let mut l: Vec<String> = Vec::new();
            for _ in 0..k {
                let i = r.below(tpl.len());
                l.push(s.known_at(&mut r, tpl[i]));
            }
            for _ in 0..r.range(0, 5) {
                let i = r.below(l.len());
                let x = if r.chance(1, 4) { String::new() } else { l[r.below(l.len())].clone() };
                l.insert(i, x);
            }
            let b = scen::file(&mut r, &l);
            target.insert(p, b);
            forms += 1;
        }
    }
    if forms > 0 {
        let td = root.join("target");
        write_tree(&td, &target);
        let rep = match report(&model, dir_content(&td)) {
            Ok(m) => m,
            Err(e) => return viol("report", e),
        };
        none(c, &rep, "rearranged content with other volatile values")?;
        ensure!(rep.index_errors.is_empty(), "unmatched", "sources without baseline: {:?}", rep.index_errors);
        lines += rep.total_line_count as u64;
        c.obs("rearranged_content", 1);
    }
    c.obs("lines_inspected", lines);
    c.obs("files", (base.len() + target.len()) as u64);
    c.distinct(format!("{:?}", base).as_bytes());
    c.sample(|| format!("{} files, {} lines; {:?}", base.len(), lines, base.keys().collect::<Vec<_>>()));
    Ok(())
}
fn none(_c: &mut Case, rep: &Report, what: &str) -> V {
    for lr in &rep.log_reports {
        if let Some(a) = lr.anomalies.first() {
            return viol("known-reported", format!("{}: {} line {} is reported (distance {}): {:?}; tokens {:?}", what, rel(&lr.source), a.anomaly.pos, a.anomaly.distance, a.anomaly.line, logreduce_tokenizer::process(&a.anomaly.line)));
        }
    }
    ensure!(rep.total_anomaly_count == 0, "known-counted", "{}: {} anomalies counted", what, rep.total_anomaly_count);
    Ok(())
}

// ---------------------------------------------------------------- C10
pub fn gz(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let level = r.below(10) as u32;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// A file that readdir lists but that cannot be opened by its path, even by root.
pub fn unopenable(root: &Path, tag: &str, last_dir: &str, name: &str, data: &[u8]) -> Option<String> {
    use std::ffi::CString;
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::io::{FromRawFd, RawFd};
    let target = 4090usize;
    let mut relp = String::new();
    let mut dir: PathBuf = root.to_path_buf();
    let fill = |dir: &Path| -> usize { target.saturating_sub(dir.as_os_str().len() + last_dir.len() + 2) };
    let mut k = 0;
    while fill(&dir) > 3 {
        let n = fill(&dir).min(200);
        let n = if fill(&dir) > 200 && fill(&dir) < 204 { 100 } else { n };
        let comp = format!("{}{}", &format!("{}q", tag)[..(tag.len() + 1).min(n)], "q".repeat(n.saturating_sub(tag.len() + 1)));
        relp.push_str(&comp);
        relp.push('/');
        dir = dir.join(&comp);
        if std::fs::create_dir_all(&dir).is_err() {
            return None;
        }
        k += 1;
        if k > 60 {
            return None;
        }
    }
    dir = dir.join(last_dir);
    relp.push_str(last_dir);
    std::fs::create_dir_all(&dir).ok()?;
    if dir.as_os_str().len() + 1 + name.len() < 4097 {
        return None;
    }
    let cd = CString::new(dir.as_os_str().as_bytes()).ok()?;
    let cn = CString::new(name).ok()?;
    unsafe {
        let dfd: RawFd = libc::open(cd.as_ptr(), libc::O_DIRECTORY | libc::O_RDONLY | libc::O_CLOEXEC);
        if dfd < 0 {
            return None;
        }
        let fd = libc::openat(dfd, cn.as_ptr(), libc::O_CREAT | libc::O_WRONLY | libc::O_CLOEXEC, 0o644);
        libc::close(dfd);
        if fd < 0 {
            return None;
        }
        let mut f = std::fs::File::from_raw_fd(fd);
        f.write_all(data).ok()?;
    }
    if std::fs::File::open(dir.join(name)).is_ok() {
        return None;
    }
    Some(format!("{}/{}", relp, name))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Readable,
    Unreadable,
    Unmatched,
}

fn c10(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let s = Scen::new(&mut r, 30);
    let mut taken = HashMap::new();
    for w in s.known_words.iter().chain(&s.novel_words) {
        taken.insert(fxhash::hash32(w) as usize % 260000, w.clone());
    }
    let single = r.chance(1, 5);
    let nb = if single { 1 } else { r.range(2, 4) };
    let nu = r.range(0, 2);
    let mut gs: Vec<(String, String)> = groups(&mut r, nb + nu).into_iter().filter(|g| !is_json(&g.1)).collect();
    let crowd = !single && c.idx % 100 == 7;
    if crowd {
        // As many indexes as a large deployment has.
        let mut names: BTreeSet<logreduce_model::IndexName> = gs.iter().map(|(d, n)| logreduce_model::IndexName::from_path(&format!("{}/{}", d, n))).collect();
        for w in scen::clean_words(&mut r, 90, &mut taken) {
            let g = (format!("roles/{}", w), "console.log".to_string());
            if names.insert(logreduce_model::IndexName::from_path(&format!("{}/{}", g.0, g.1))) {
                gs.insert(0, g);
            }
        }
    }
    if gs.len() < nb.min(2) || (single && gs.is_empty()) {
        c.obs("skipped", 1);
        return Ok(());
    }
    let nb = if crowd { gs.len() - nu.min(gs.len() - 1) } else { nb.min(gs.len()) };
    let single = nb == 1;
    let mut base = Tree::new();
    let mut base_sources: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    for (g, (d, n)) in gs.iter().enumerate().take(nb) {
        let k = if crowd { 1 } else if r.chance(1, 10) { r.range(9, 24) } else { r.range(1, 3) };
        for p in group_paths(&mut r, d, n, k) {
            let l = s.baseline(&mut r);
            base.insert(p.clone(), scen::file(&mut r, &l));
            base_sources.entry(g).or_default().insert(p);
        }
    }
    let bd = root.join("base");
    write_tree(&bd, &base);
    // The target.
    let td = root.join("target");
    std::fs::create_dir_all(&td).unwrap();
    // path -> (group, fate, lines, bytes, has anomaly, prefix lines)
    struct F {
        group: usize,
        fate: Fate,
        data: Vec<u8>,
        anomalous: bool,
        /// a line of its own, which is one piece
        novel: Option<String>,
        why: &'static str,
    }
    let mut files: BTreeMap<String, F> = BTreeMap::new();
    // Novel lines that several files of a group share, at least one of them readable.
    let mut commons: Vec<String> = Vec::new();
    let mut tree = Tree::new();
    for (g, (d, n)) in gs.iter().enumerate() {
        let matched = g < nb || single;
        if r.chance(1, 6) && matched {
            continue;
        }
        let k = if crowd { 1 } else if r.chance(1, 12) { r.range(9, 24) } else { r.range(1, 5) };
        let common = scen::clean_words(&mut r, 3, &mut taken).join(" ");
        let mut common_expected = false;
        for p in group_paths(&mut r, d, n, k) {
            let k = r.range(0, 60);
            let mut l: Vec<String> = (0..k).map(|_| s.known_line(&mut r)).collect();
            for x in l.iter_mut() {
                if r.chance(1, 8) {
                    *x = format!("{}{}{}", r.pick(&["", "  ", "\t"]), x, r.pick(&[" ", "\t", "  ", "\r"]));
                }
            }
            if k > 0 && c.idx % 120 == 5 && files.len() < 2 {
                // More lines or bytes than fit in small counters.
                let n = *r.pick(&[3000, 9000, 70000]);
                while l.len() < n {
                    let x = l[r.below(k)].clone();
                    l.push(x);
                }
                c.obs("large_files", 1);
            }
            let anomalous = r.chance(2, 3);
            let mut novel = None;
            if anomalous {
                // A line no other file has.
                let w = scen::clean_words(&mut r, 3, &mut taken);
                let at = r.below(l.len() + 1);
                l.insert(at, w.join(" "));
                novel = Some(w.join(" "));
            }
            let has_common = r.chance(1, 2);
            if has_common {
                l.insert(0, common.clone());
            }
            let mut data = scen::file(&mut r, &l);
            let mut fate = if matched { Fate::Readable } else { Fate::Unmatched };
            let mut why = "plain";
            let mut path = p.clone();
            match r.below(8) {
                0 => {
                    why = "invalid-utf8";
                    let bad: &[u8] = r.pick::<&[u8]>(&[b"\nbad \xff\xfe bytes\n", b"\n\xc3(\n", b"\nx \xf0\x9f\x98", b"\n\xed\xa0\x80 surrogate\n"]);
                    data.extend_from_slice(bad);
                    if r.chance(1, 2) {
                        let l: Vec<String> = (0..r.range(1, 20)).map(|_| s.known_line(&mut r.clone())).collect();
                        data.extend_from_slice(b"\n");
                        data.extend_from_slice(&scen::file(&mut r, &l));
                    }
                    if matched {
                        fate = Fate::Unreadable;
                    }
                }
                1 => {
                    why = "cut-gzip";
                    path = format!("{}.gz", p);
                    if data.is_empty() {
                        data.extend_from_slice(b"some words here\n");
                    }
                    let z = gz(&mut r, &data);
                    let cut = if r.chance(1, 4) { r.below(12) } else { r.below(z.len()) };
                    tree.insert(path.clone(), z[..cut].to_vec());
                    if matched {
                        fate = Fate::Unreadable;
                    }
                }
                _ => {}
            }
            if why != "cut-gzip" {
                tree.insert(path.clone(), data.clone());
            }
            if has_common && fate == Fate::Readable {
                common_expected = true;
            }
            files.insert(path, F { group: g, fate, data, anomalous, novel, why });
        }
        if common_expected {
            commons.push(common);
        }
    }
    write_tree(&td, &tree);
    // Files that cannot be opened.
    if r.chance(1, 4) {
        for q in 0..r.range(1, 2) {
            let g = r.below(gs.len());
            let (d, n) = &gs[g];
            let last = d.rsplit('/').next().unwrap();
            let name = format!("{}.{}", n, "7".repeat(r.range(20, 100)));
            let data = s.novel_line(&mut r).into_bytes();
            if let Some(p) = unopenable(&td, ["q", "z", "zz"][q % 3], last, &name, &data) {
                let matched = g < nb || single;
                files.insert(p, F { group: g, fate: if matched { Fate::Unreadable } else { Fate::Unmatched }, data, anomalous: true, novel: None, why: "unopenable" });
            } else {
                c.obs("unopenable_failed", 1);
            }
        }
    }
    if files.is_empty() {
        c.obs("skipped", 1);
        return Ok(());
    }
    let model = match train_dirs(&[bd]) {
        Ok(m) => m,
        Err(e) => return viol("train", e),
    };
    let rep = match report(&model, dir_content(&td)) {
        Ok(m) => m,
        Err(e) => return viol("report", e),
    };
    for (p, f) in &files {
        c.note(format!("{:?} {} group {} anomalous {}", f.fate, f.why, f.group, f.anomalous).to_string() + " " + &p.chars().rev().take(80).collect::<Vec<_>>().into_iter().rev().collect::<String>());
    }
    // Unreadable sources.
    let mut read: BTreeMap<String, usize> = BTreeMap::new();
    for (src, _) in &rep.read_errors {
        *read.entry(rel(src)).or_insert(0) += 1;
    }
    let mut unmatched: BTreeMap<String, usize> = BTreeMap::new();
    for src in rep.index_errors.iter().flatten() {
        *unmatched.entry(rel(src)).or_insert(0) += 1;
    }
    let mut listed: BTreeMap<String, usize> = BTreeMap::new();
    for lr in &rep.log_reports {
        *listed.entry(rel(&lr.source)).or_insert(0) += 1;
    }
    let tail = |p: &str| p.chars().rev().take(120).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    for m in [&read, &unmatched, &listed] {
        for (p, n) in m {
            ensure!(files.contains_key(p), "unknown-source", "{} is not a source of the target", tail(p));
            ensure!(*n == 1, "twice", "{} is accounted for {} times in one list", tail(p), n);
        }
    }
    let (mut lo, mut hi) = (0usize, 0usize);
    for (p, f) in &files {
        let (e, u, l) = (read.contains_key(p), unmatched.contains_key(p), listed.contains_key(p));
        let rf = refmodel::read_file(&f.data, false, true);
        match f.fate {
            Fate::Readable => {
                ensure!(!e, "not-unreadable", "{} is readable but listed as unreadable: {:?}", tail(p), rep.read_errors.iter().find(|x| rel(&x.0) == *p));
                ensure!(!u, "not-unmatched", "{} has a baseline but is listed as unmatched", tail(p));
                if f.anomalous {
                    ensure!(l, "hidden", "{} has an anomaly but is not in the report", tail(p));
                }
                lo += rf.line_count;
                hi += rf.line_count;
            }
            Fate::Unreadable => {
                ensure!(e, "unreadable-not-listed", "{} ({}) cannot be read and is not listed", tail(p), f.why);
                ensure!(!u, "not-unmatched", "{} has a baseline but is listed as unmatched", tail(p));
                if let (Some(x), "invalid-utf8") = (&f.novel, f.why) {
                    // What was found before is not lost.
                    let n: usize = rep.log_reports.iter().filter(|l| rel(&l.source) == *p).map(|l| l.anomalies.iter().filter(|a| a.anomaly.line == *x).count()).sum();
                    ensure!(n == 1, "hidden-before", "the novel line {:?} before the bytes of {} that cannot be read is reported {} times", x, tail(p), n);
                    c.obs("novel_before_unreadable", 1);
                }
                if f.why != "unopenable" {
                    hi += rf.line_count + 1;
                }
            }
            Fate::Unmatched => {
                ensure!(u, "unmatched-not-listed", "{} has no baseline and is not listed", tail(p));
                ensure!(!e && !l, "unmatched-inspected", "{} has no baseline but is listed elsewhere", tail(p));
            }
        }
        c.obs(&format!("{}_{}", format!("{:?}", f.fate).to_lowercase(), f.why), 1);
    }
    ensure!((lo..=hi).contains(&rep.total_line_count), "total-lines", "total line count {} instead of {}..{}", rep.total_line_count, lo, hi);
    let sum: usize = rep.log_reports.iter().map(|l| l.anomalies.len()).sum();
    ensure!(rep.total_anomaly_count == sum, "total-anomalies", "total anomaly count {} but {} listed", rep.total_anomaly_count, sum);
    for lr in &rep.log_reports {
        let p = rel(&lr.source);
        let f = &files[&p];
        ensure!(!lr.anomalies.is_empty(), "empty-log-report", "{} listed without anomaly", tail(&p));
        if f.fate == Fate::Readable {
            let rf = refmodel::read_file(&f.data, false, true);
            ensure!(lr.line_count == rf.line_count, "lines", "{}: {} lines instead of {}", tail(&p), lr.line_count, rf.line_count);
            ensure!(lr.byte_count == rf.byte_count, "bytes", "{}: {} bytes instead of {}", tail(&p), lr.byte_count, rf.byte_count);
        }
        let g = if single { 0 } else { f.group };
        match rep.index_reports.get(&lr.index_name) {
            None => return viol("index-missing", format!("no index report for {:?} of {}", lr.index_name, tail(&p))),
            Some(ir) => {
                let have: Vec<String> = ir.sources.iter().map(rel).collect();
                let set: BTreeSet<String> = have.iter().cloned().collect();
                ensure!(set == base_sources[&g] && have.len() == set.len(), "index-sources", "{}: baselines {:?} instead of {:?}", tail(&p), have, base_sources[&g]);
            }
        }
        c.obs("log_reports", 1);
    }
    for l in &commons {
        let n: usize = rep.log_reports.iter().map(|x| x.anomalies.iter().filter(|a| a.anomaly.line == *l).count()).sum();
        ensure!(n >= 1, "hidden-common", "the novel line {:?} of several files, one of them readable, is not reported", l);
        c.obs("common_novel_lines", 1);
    }
    for name in rep.index_reports.keys() {
        ensure!(rep.log_reports.iter().any(|l| l.index_name == *name), "index-extra", "index report {:?} without anomalies", name);
    }
    if single {
        c.obs("single_index_models", 1);
    }
    c.obs("reports", 1);
    c.obs_max("indexes_with_anomalies", rep.index_reports.len() as u64);
    c.distinct(format!("{:?}", tree).as_bytes());
    c.sample(|| format!("{:?}", files.iter().map(|(p, f)| format!("{} {:?} {}", tail(p), f.fate, f.why)).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------- C14
fn key_report(rep: &Report) -> Result<BTreeMap<String, (Vec<Got>, usize, usize)>, Stop> {
    let mut m = BTreeMap::new();
    for lr in &rep.log_reports {
        let p = rel(&lr.source);
        let p = p.strip_suffix(".gz").unwrap_or(&p).to_string();
        m.insert(p, (lr.anomalies.iter().map(Got::from).collect(), lr.line_count, lr.byte_count));
    }
    Ok(m)
}
fn errors_of(rep: &Report) -> BTreeSet<String> {
    rep.read_errors.iter().map(|x| rel(&x.0)).collect()
}

fn gz_any(r: &mut Rng, data: &[u8]) -> (Vec<u8>, &'static str) {
    match r.below(4) {
        0 if data.len() > 1 => {
            // Several members, as appending to a compressed log gives.
            let mut out = Vec::new();
            let mut rest = data;
            for _ in 0..r.range(1, 3) {
                let n = r.below(rest.len() + 1);
                out.extend(gz(r, &rest[..n]));
                rest = &rest[n..];
            }
            out.extend(gz(r, rest));
            (out, "members")
        }
        1 => {
            let mut e = flate2::GzBuilder::new().filename("some.log").comment("a comment").extra(vec![1, 2, 3, 4]).mtime(r.u64() as u32).write(Vec::new(), flate2::Compression::fast());
            e.write_all(data).unwrap();
            (e.finish().unwrap(), "header_fields")
        }
        _ => (gz(r, data), "single"),
    }
}

fn c14(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let root = c.dir();
    let n = *r.pick(&[5, 20, 60, 600]);
    let s = Scen::new(&mut r, n);
    let ng = r.range(1, 3);
    let gs = groups(&mut r, ng);
    let (mut base, mut target) = (Tree::new(), Tree::new());
    for (d, n) in &gs {
        let k = r.range(1, 2);
        for p in group_paths(&mut r, d, n, k) {
            let mut l = s.baseline(&mut r);
            if l.len() > 100 && r.chance(1, 2) {
                l.truncate(100);
            }
            base.insert(p.clone(), body(&mut r, &p, &l));
        }
        let k = r.range(1, 2);
        for p in group_paths(&mut r, d, n, k) {
            let big = r.chance(1, 10);
            let l = lines_of(&mut r, &s, big);
            let l = if r.chance(1, 15) { Vec::new() } else { l };
            target.insert(p.clone(), body(&mut r, &p, &l));
        }
    }
    let mut zbase = Tree::new();
    let mut ztarget = Tree::new();
    let mut forms: BTreeSet<&str> = BTreeSet::new();
    // Within one group the visiting order matters for duplicates: compress whole groups alike.
    for (from, to) in [(&base, &mut zbase), (&target, &mut ztarget)] {
        for (p, d) in from {
            let (z, f) = gz_any(&mut r, d);
            forms.insert(f);
            c.obs(&format!("gzip_{}", f), 1);
            to.insert(format!("{}.gz", p), z);
        }
    }
    for (n, t) in [("base", &base), ("target", &target), ("zbase", &zbase), ("ztarget", &ztarget)] {
        write_tree(&root.join(n), t);
    }
    let train1 = |n: &str| train_dirs(&[root.join(n)]);
    let (m, zm) = match (train1("base"), train1("zbase")) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return viol("train", format!("{:?} {:?}", a.err(), b.err())),
    };
    let run = |m: &Model, n: &str| report(m, dir_content(&root.join(n)));
    let plain = match run(&m, "target") {
        Ok(x) => x,
        Err(e) => return viol("report", e),
    };
    let want = key_report(&plain)?;
    for (what, model, dir) in [("compressed target", &m, "ztarget"), ("compressed baselines", &zm, "target"), ("compressed baselines and target", &zm, "ztarget")] {
        let rep = match run(model, dir) {
            Ok(x) => x,
            Err(e) => return viol("report", format!("{}: {}", what, e)),
        };
        ensure!(rep.read_errors.len() == plain.read_errors.len(), "unreadable", "{}: unreadable {:?}", what, rep.read_errors.iter().take(2).collect::<Vec<_>>());
        let got = key_report(&rep)?;
        ensure!(rep.total_line_count == plain.total_line_count, "line-count", "{}: {} lines instead of {}", what, rep.total_line_count, plain.total_line_count);
        // The files of a group are visited in directory order, which may differ between the trees:
        // compare per file only when no group has several files.
        let multi = target.len() > gs.len();
        if multi {
            let all = |m: &BTreeMap<String, (Vec<Got>, usize, usize)>| {
                let mut v: Vec<String> = m.values().flat_map(|x| x.0.iter().map(|g| logreduce_tokenizer::process(&g.line))).collect();
                v.sort();
                v
            };
            let (a, b) = (all(&want), all(&got));
            ensure!(a == b, "anomalies", "{}: anomalies {:?} instead of {:?}", what, b.iter().take(5).collect::<Vec<_>>(), a.iter().take(5).collect::<Vec<_>>());
        } else {
            for (p, w) in &want {
                let g = match got.get(p) {
                    Some(g) => g,
                    None => return viol("anomalies", format!("{}: {} has {} anomalies in the plain file and none here", what, p, w.0.len())),
                };
                ensure!(g.1 == w.1 && g.2 == w.2, "counts", "{}: {} has {} lines {} bytes instead of {} lines {} bytes", what, p, g.1, g.2, w.1, w.2);
                ensure!(same_verdicts(&g.0, &w.0), "anomalies", "{}: {} differs: {:?} instead of {:?}", what, p, g.0.first(), w.0.first());
            }
            ensure!(got.len() == want.len(), "anomalies", "{}: files {:?} instead of {:?}", what, got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>());
        }
        c.obs("reports_compared", 1);
        c.obs("anomalies", got.values().map(|x| x.0.len() as u64).sum());
    }
    // Damage one compressed target at a time.
    let victim = r.pick(&ztarget.keys().cloned().collect::<Vec<_>>()).clone();
    let z = ztarget[&victim].clone();
    let single = {
        // Where the members start is not known here: damage only single member files.
        let (n, _) = gz_len(&z);
        n == z.len()
    };
    if single {
        let vic = root.join("damaged");
        let mut cuts: Vec<usize> = vec![0, 1, 2, 5, 9, 10, 11, z.len() - 1, z.len() - 4, z.len() - 7, z.len() - 8, z.len() - 9];
        for _ in 0..4 {
            cuts.push(r.below(z.len()));
        }
        cuts.retain(|n| *n < z.len());
        r.shuffle(&mut cuts);
        cuts.truncate(if c.thorough() { 12 } else { 4 });
        for n in cuts {
            let mut t = Tree::new();
            t.insert(victim.clone(), z[..n].to_vec());
            let _ = std::fs::remove_dir_all(&vic);
            write_tree(&vic, &t);
            let rep = match report(&m, dir_content(&vic)) {
                Ok(x) => x,
                Err(e) => return viol("report", e),
            };
            if m_matches(&rep) {
                ensure!(errors_of(&rep).contains(&victim), "truncated", "{} cut to {} of {} bytes is not reported as unreadable", victim, n, z.len());
                c.obs("truncations", 1);
                if n == 0 {
                    c.obs("truncations_empty", 1);
                }
            }
        }
        let mut one = Tree::new();
        one.insert(victim.clone(), z.clone());
        let _ = std::fs::remove_dir_all(&vic);
        write_tree(&vic, &one);
        let intact = match report(&m, dir_content(&vic)) {
            Ok(x) => (x.total_line_count, key_report(&x)?),
            Err(e) => return viol("report", e),
        };
        for _ in 0..if c.thorough() { 10 } else { 4 } {
            let mut d = z.clone();
            let at = match r.below(3) {
                0 => r.below(d.len().min(12)),
                1 => d.len() - 1 - r.below(8),
                _ => r.below(d.len()),
            };
            d[at] ^= 1 << r.below(8);
            let mut t = Tree::new();
            t.insert(victim.clone(), d);
            let _ = std::fs::remove_dir_all(&vic);
            write_tree(&vic, &t);
            let rep = match report(&m, dir_content(&vic)) {
                Ok(x) => x,
                Err(e) => return viol("report", e),
            };
            if !m_matches(&rep) {
                continue;
            }
            if errors_of(&rep).contains(&victim) {
                c.obs("corruptions_reported", 1);
            } else {
                let same = rep.total_line_count == intact.0 && {
                    let k = key_report(&rep)?;
                    k.len() == intact.1.len() && k.iter().zip(&intact.1).all(|(a, b)| a.0 == b.0 && same_verdicts(&a.1 .0, &b.1 .0))
                };
                ensure!(same, "corrupt", "{} with byte {} of {} damaged is analysed as something else without being reported", victim, at, z.len());
                c.obs("corruptions_harmless", 1);
            }
        }
    }
    c.distinct(format!("{:?}", ztarget).as_bytes());
    c.sample(|| format!("{:?} {:?}", ztarget.keys().collect::<Vec<_>>(), forms));
    Ok(())
}
fn m_matches(rep: &Report) -> bool {
    rep.index_errors.is_empty()
}
/// Length of the first gzip member.
fn gz_len(z: &[u8]) -> (usize, Vec<u8>) {
    let mut d = flate2::bufread::GzDecoder::new(z);
    let mut out = Vec::new();
    let _ = d.read_to_end(&mut out);
    (z.len() - d.into_inner().len(), out)
}
pub fn same_verdicts(a: &[Got], b: &[Got]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.pos == y.pos && x.line == y.line && x.before == y.before && x.after == y.after && (x.distance - y.distance).abs() < 1e-4)
}

// ---------------------------------------------------------------- C26
fn near(d: f32) -> bool {
    (d - 0.3).abs() < 1e-4
}
/// The verdicts of two baselines that should be equal, or `sub` <= `sup`.
fn compare(c: &mut Case, what: &str, a: &[Got], b: &[Got], equal: bool) -> V {
    // b: the reference; a: the rearranged (equal) or larger (not equal) baseline.
    if a.iter().chain(b).any(|g| near(g.distance)) {
        c.obs("skipped_threshold", 1);
        return Ok(());
    }
    if equal {
        ensure!(a.len() == b.len(), "count", "{}: {} anomalies instead of {}; {:?}", what, a.len(), b.len(), a.iter().find(|x| !b.iter().any(|y| y.pos == x.pos && y.line == x.line)).or_else(|| b.iter().find(|x| !a.iter().any(|y| y.pos == x.pos && y.line == x.line))));
        for (x, y) in a.iter().zip(b) {
            ensure!(x.pos == y.pos && x.line == y.line, "anomaly", "{}: {:?} instead of {:?}", what, x, y);
            ensure!((x.distance - y.distance).abs() < 1e-4, "distance", "{}: line {}: distance {} instead of {}", what, x.pos, x.distance, y.distance);
            ensure!(x.before == y.before && x.after == y.after, "context", "{}: line {}: other contexts", what, x.pos);
        }
        c.obs("equal_verdicts", a.len() as u64);
    } else {
        let m: HashMap<(usize, &str), f32> = b.iter().map(|g| ((g.pos, g.line.as_str()), g.distance)).collect();
        for x in a {
            match m.get(&(x.pos, x.line.as_str())) {
                None => return viol("grew", format!("{}: line {} {:?} is an anomaly (distance {}) only with the larger baseline", what, x.pos, x.line, x.distance)),
                Some(d) => ensure!(x.distance <= d + 1e-4, "grew-distance", "{}: line {}: distance {} with the larger baseline, {} without", what, x.pos, x.distance, d),
            }
        }
        c.obs("shrinking_verdicts", b.len() as u64);
        c.obs("verdicts_gone", (b.len() - a.len()) as u64);
    }
    Ok(())
}
fn arrange(r: &mut Rng, lines: &[String]) -> Vec<String> {
    let mut v = lines.to_vec();
    let more = if r.chance(1, 25) { r.range(9500, 16000) } else { *r.pick(&[0, 0, 2, lines.len() / 2, lines.len()]) };
    for _ in 0..more {
        v.push(r.pick(lines).clone());
    }
    match r.below(4) {
        0 => v.sort(),
        1 => v.reverse(),
        _ => r.shuffle(&mut v),
    }
    v
}
fn parts(r: &mut Rng, lines: &[String], n: usize) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![Vec::new(); n];
    let mode = r.below(2);
    for (i, l) in lines.iter().enumerate() {
        let k = if mode == 0 { r.below(n) } else { i * n / lines.len() };
        v[k].push(l.clone());
    }
    v
}

fn c26(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let n = *r.pick(&[2, 10, 60, 300, 511, 512, 513, 700, 1100, 1600]);
    let n = if r.chance(1, 60) { 2600 } else { n };
    let s = Scen::new(&mut r, n);
    let mut lines: Vec<String> = {
        let mut v = s.baseline(&mut r);
        v.retain(|l| !l.is_empty());
        v
    };
    if c.idx % 90 == 11 {
        // Very many distinct lines.
        let n = r.range(9000, 45000);
        lines.extend(s.wide(&mut r, n));
        r.shuffle(&mut lines);
        c.obs("wide_baselines", 1);
    }
    // A target that has novel, near and known lines.
    let mut t: Vec<String> = Vec::new();
    for _ in 0..r.range(20, 120) {
        let l = match r.below(4) {
            0 => s.novel_line(&mut r),
            1 | 2 => s.near_line(&mut r),
            _ => s.known_line(&mut r),
        };
        t.push(l);
    }
    let target = scen::file(&mut r, &t);
    let verdicts = |r: &mut Rng, files: &[Vec<u8>]| -> Result<Vec<Got>, Stop> {
        let idx = train(r, files, false)?;
        let mut skip = HashSet::new();
        Ok(inspect(r, &idx, &target, false, &mut skip).anomalies)
    };
    let f = |l: &[String]| {
        let mut s = l.join("\n");
        s.push('\n');
        s.into_bytes()
    };
    let reference = verdicts(&mut r, &[f(&lines)])?;
    let a = arrange(&mut r, &lines);
    if a.len() > 9000 {
        c.obs("long_baselines", 1);
    }
    let v = verdicts(&mut r, &[f(&a)])?;
    compare(c, "reordered and repeated baseline", &v, &reference, true)?;
    let k = r.range(2, 6);
    let mut split = parts(&mut r, &a, k);
    // One file is much longer than the others, and repeats its own lines.
    let long = r.chance(1, 12);
    if long {
        split = parts(&mut r, &lines, k);
        for _ in 0..r.range(1, k - 1) {
            let p = r.below(k);
            if let Some(l) = split[p].first().cloned() {
                let n = r.range(10001, 13000);
                split[p].extend(std::iter::repeat(l).take(n));
            }
        }
        c.obs("long_files", 1);
    }
    let split: Vec<Vec<u8>> = split.iter().map(|p| f(p)).collect();
    let v = verdicts(&mut r, &split)?;
    compare(c, "baseline distributed over files", &v, &reference, true)?;
    // Supersets.
    let mut more = lines.clone();
    for _ in 0..r.range(1, 700) {
        let l = match r.below(6) {
            0 => s.novel_line(&mut r),
            1 => s.near_line(&mut r),
            2 => r.pick(&t).clone(),
            _ => {
                let t = s.known_template(&mut r);
                crate::gen::instantiate(&mut r, &t)
            }
        };
        more.push(l);
    }
    let extra = arrange(&mut r, &more);
    let v = verdicts(&mut r, &[f(&extra)])?;
    compare(c, "more baseline lines", &v, &reference, false)?;
    let v = verdicts(&mut r, &[f(&lines), f(&more[lines.len()..].to_vec())])?;
    compare(c, "one more baseline file", &v, &reference, false)?;
    // A baseline with unreadable bytes at its end.
    let mut bad = f(&more[lines.len()..].to_vec());
    bad.extend_from_slice(b"\xff\xfe\xfd\n");
    let order = r.chance(1, 2);
    let fs = if order { [f(&lines), bad] } else { [bad, f(&lines)] };
    let v = verdicts(&mut r, &fs)?;
    compare(c, "one more baseline file with unreadable bytes at its end", &v, &reference, false)?;
    c.obs("broken_tails", 1);
    // Through directories.
    if long || r.chance(1, 3) {
        let root = c.dir();
        let mut td = Tree::new();
        td.insert("srv/app.log".into(), target.clone());
        write_tree(&root.join("t"), &td);
        let mut one = Tree::new();
        one.insert("srv/app.log".into(), f(&lines));
        let names = ["srv/app.log", "srv/app.log.1", "srv/app.log.2", "host1/srv/app.log", "srv/app.log-20230102", "host2/srv/app.log.3"];
        let mut many = Tree::new();
        for (i, p) in split.iter().enumerate() {
            many.insert(names[i].to_string(), p.clone());
        }
        let mut third = many.clone();
        let name = if split.len() < names.len() { names[split.len()] } else { "srv/app.log.77" };
        let mut bad = f(&more[lines.len()..].to_vec());
        if r.chance(1, 2) {
            bad.extend_from_slice(b"\xff\xfe\xfd\n");
        }
        third.insert(name.to_string(), bad);
        let mut reps = Vec::new();
        for (i, t) in [&one, &many, &third].iter().enumerate() {
            let d = root.join(format!("b{}", i));
            write_tree(&d, t);
            let m = match train_dirs(&[d]) {
                Ok(m) => m,
                Err(e) => return viol("train", e),
            };
            let rep = match report(&m, dir_content(&root.join("t"))) {
                Ok(x) => x,
                Err(e) => return viol("report", e),
            };
            reps.push(by_path(&rep)?.remove("srv/app.log").unwrap_or_default());
        }
        compare(c, "directory: one file or several", &reps[1], &reps[0], true)?;
        compare(c, "directory: one more file", &reps[2], &reps[0], false)?;
        compare(c, "directory and reader", &reps[0], &reference, true)?;
        // Several baseline directories.
        let mut d1 = Tree::new();
        let mut d2 = Tree::new();
        for (i, p) in split.iter().enumerate() {
            if i % 2 == 0 { &mut d1 } else { &mut d2 }.insert(names[i].to_string(), p.clone());
        }
        write_tree(&root.join("d1"), &d1);
        write_tree(&root.join("d2"), &d2);
        let mut dirs = vec![root.join("d1"), root.join("d2")];
        r.shuffle(&mut dirs);
        let m = match train_dirs(&dirs) {
            Ok(m) => m,
            Err(e) => return viol("train", e),
        };
        let rep = match report(&m, dir_content(&root.join("t"))) {
            Ok(x) => x,
            Err(e) => return viol("report", e),
        };
        let v = by_path(&rep)?.remove("srv/app.log").unwrap_or_default();
        compare(c, "two baseline directories", &v, &reference, true)?;
        // Many files, in a few directories.
        if r.chance(1, 6) {
            let k = r.range(20, 100);
            let mut ds: Vec<Tree> = (0..r.range(1, 3)).map(|_| Tree::new()).collect();
            for (i, p) in parts(&mut r, &lines, k).iter().enumerate() {
                let name = match i % 4 {
                    0 => format!("srv/app.log.{}", i),
                    1 => format!("host-{}/srv/app.log", i),
                    2 => format!("srv/app.log-202301{:02}.{}", i % 28 + 1, i),
                    _ => format!("n{}/x/srv/app.log.{}", i, i % 3),
                };
                let d = r.below(ds.len());
                ds[d].insert(name, f(p));
            }
            let dirs: Vec<_> = ds.iter().enumerate().map(|(i, t)| {
                let d = root.join(format!("m{}", i));
                write_tree(&d, t);
                d
            }).filter(|d| d.exists()).collect();
            let m = match train_dirs(&dirs) {
                Ok(m) => m,
                Err(e) => return viol("train", e),
            };
            let rep = match report(&m, dir_content(&root.join("t"))) {
                Ok(x) => x,
                Err(e) => return viol("report", e),
            };
            let v = by_path(&rep)?.remove("srv/app.log").unwrap_or_default();
            compare(c, "many baseline files", &v, &reference, true)?;
            c.obs("many_files", k as u64);
        }
        c.obs("directory_trainings", 4);
    }
    c.obs("baseline_lines", lines.len() as u64);
    c.obs("trainings", 6);
    if !reference.is_empty() {
        c.distinct(format!("{:?}{:?}", lines, t).as_bytes());
    }
    c.sample(|| format!("{} baseline lines, {} target lines, {} anomalies, {} with the larger baseline", lines.len(), t.len(), reference.len(), v.len()));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C07",
            level: "exploration",
            rule: "a set of log files on which a model was trained and which (or a rearrangement of which) was inspected",
            quick: 3600,
            thorough: 54000,
            shards: 8,
            run: c07,
            need: &["same_content", "rearranged_content", "lines_inspected"],
            env: no_env,
            assumptions: &["volatile values are the generated kinds of C04"],
        },
        Spec {
            id: "C08",
            level: "exploration",
            rule: "a target with some, but not only, anomalies, each compared with the reference detection (position, text, distance, order)",
            quick: 1500,
            thorough: 30000,
            shards: 8,
            run: c08,
            need: &["anomalies", "chunk_crossings", "duplicates", "markers", "targets_boundary", "targets_repetitive", "targets_multi", "targets_many", "groups_reported"],
            env: no_env,
            assumptions: &["tokens come from the tokenizer under test (judged by C03-C05)", "cases with feature collisions or a distance within 2e-4 of the threshold are skipped (counted)"],
        },
        Spec {
            id: "C09",
            level: "exploration",
            rule: "a target with anomalies whose contexts were compared with the lines of the file",
            quick: 1500,
            thorough: 30000,
            shards: 8,
            run: c09,
            need: &["before_lines", "after_lines", "close_pairs", "chunk_crossings", "buffer_flushes", "short_before", "short_after_at_end"],
            env: no_env,
            assumptions: &["anomalies are located by position and text (judged by C08)"],
        },
        Spec {
            id: "C10",
            level: "fault_enumeration",
            rule: "a target tree of readable, unreadable and unmatched files whose report was checked field by field",
            quick: 1200,
            thorough: 30000,
            shards: 8,
            run: c10,
            need: &["readable_plain", "unreadable_invalid-utf8", "unreadable_cut-gzip", "unreadable_unopenable", "unmatched_plain", "log_reports", "single_index_models", "novel_before_unreadable", "large_files"],
            env: no_env,
            assumptions: &["anomalies found before a compressed source breaks off may be listed too", "the lines read of an unreadable source may or may not be part of the total"],
        },
        Spec {
            id: "C14",
            level: "fault_enumeration",
            rule: "a tree and its compressed copy, reports compared in all combinations, then damaged",
            quick: 1600,
            thorough: 24000,
            shards: 8,
            run: c14,
            need: &["reports_compared", "anomalies", "gzip_members", "gzip_single", "gzip_header_fields", "truncations", "truncations_empty", "corruptions_reported"],
            env: no_env,
            assumptions: &["damage is applied to single member files"],
        },
        Spec {
            id: "C26",
            level: "exploration",
            rule: "a baseline and target with anomalies, verdicts compared over rearranged, distributed and enlarged baselines",
            quick: 360,
            thorough: 12000,
            shards: 8,
            run: c26,
            need: &["equal_verdicts", "shrinking_verdicts", "verdicts_gone", "broken_tails", "long_baselines", "long_files", "directory_trainings"],
            env: no_env,
            assumptions: &["comparisons with a distance within 1e-4 of the threshold are skipped (counted)"],
        },
    ]
}
