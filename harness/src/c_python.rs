//! C24: the Python module in a real interpreter, under AddressSanitizer.
use crate::fw::*;
use crate::gen;
use crate::scen::{self, Scen};
use logreduce_index::{index, index_mat, load_mat, save_mat, search, search_mat, Features, FeaturesMatrix, F};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

enum Model {
    List(Vec<Features>),
    Mat(FeaturesMatrix),
}

enum Want {
    Nothing,
    Text(String),
    Number(F),
    Numbers(Vec<F>),
    Bytes(Vec<u8>),
    Exception,
    /// An exception or this many distances.
    Anything(usize),
    Threads(Vec<Vec<F>>),
}

fn line(r: &mut Rng, s: &Scen) -> String {
    match r.below(8) {
        0 => s.novel_line(r),
        1 => s.odd_line(r),
        2 => String::new(),
        3 => {
            let n = r.range(0, 40);
            gen::chars(r, "aé漢 \t\n\0/-|=:\u{1F600}\"'\\x%", n)
        }
        _ => s.known_line(r),
    }
}

fn same(v: &Value, f: F) -> bool {
    // The module may be linked with another version of the matrix library, which rounds differently.
    v.as_f64().map(|x| (x - f as f64).abs() < 1e-5).unwrap_or(false)
}

fn matches(v: &Value, w: &Want) -> Result<(), String> {
    let exc = v.get("exc");
    if let (Some(e), false) = (exc, matches!(w, Want::Exception | Want::Anything(_))) {
        return Err(format!("raises {} {}", e, v.get("text").unwrap_or(&Value::Null)));
    }
    let ok = v.get("ok").unwrap_or(&Value::Null);
    let numbers = |v: &Value, w: &[F]| v.as_array().map(|a| a.len() == w.len() && a.iter().zip(w).all(|(x, y)| same(x, *y))).unwrap_or(false);
    let good = match w {
        Want::Nothing => ok.is_null(),
        Want::Text(t) => ok.as_str() == Some(t.as_str()),
        Want::Number(f) => same(ok, *f),
        Want::Numbers(f) => numbers(ok, f),
        Want::Bytes(b) => ok.as_array().map(|a| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.as_u64() == Some(*y as u64))).unwrap_or(false),
        Want::Exception => exc.is_some(),
        Want::Anything(n) => exc.is_some() || ok.as_array().map(|a| a.len() == *n).unwrap_or(false),
        Want::Threads(ts) => ok.as_array().map(|a| a.len() == ts.len() && a.iter().zip(ts).all(|(x, y)| x.as_array().map(|x| x.len() == 3 && x.iter().all(|x| if y.len() == 1 && !x.is_array() { same(x, y[0]) } else { numbers(x, y) })).unwrap_or(false))).unwrap_or(false),
    };
    if good {
        return Ok(());
    }
    Err(format!(
        "gives {} instead of {}",
        v.to_string().chars().take(300).collect::<String>(),
        match w {
            Want::Nothing => "nothing".into(),
            Want::Text(t) => format!("{:?}", t.chars().take(300).collect::<String>()),
            Want::Number(f) => format!("{}", f),
            Want::Numbers(f) => format!("{:?}", f),
            Want::Bytes(b) => format!("{} bytes", b.len()),
            Want::Exception => "an exception".into(),
            Want::Anything(n) => format!("an exception or {} numbers", n),
            Want::Threads(t) => format!("{:?} three times", t),
        }
    ))
}

const FOREIGN: &[&str] = &["datetime", "ucn", "socket", "unnamed", "empty-name", "near-name", "longer-name", "none", "int", "address", "str", "list", "bytes", "type"];

fn c24(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let n = r.range(2, 15);
    let s = Scen::new(&mut r, n);
    let mut models: BTreeMap<String, Model> = BTreeMap::new();
    let mut ops: Vec<Value> = Vec::new();
    let mut want: Vec<Want> = Vec::new();
    let lines = |r: &mut Rng, max: usize| -> Vec<String> { (0..r.range(0, max)).map(|_| line(r, &s)).collect() };
    // Many lines, and sometimes a line of many words.
    let wide = |r: &mut Rng, max: usize| -> Vec<String> {
        let n = r.range(max / 3, max);
        let long = r.below(n);
        (0..n).map(|i| if i == long { (0..r.range(300, 3000)).map(|k| format!("{}{}", crate::gen::word(r), k)).collect::<Vec<_>>().join(" ") } else { format!("{} w{}", line(r, &s), i) }).collect()
    };
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let n = r.range(20, 80);
    let mut serial = 0;
    let mut wide_gen = false;
    while ops.len() < n {
        let mut push = |o: Value, w: Want| {
            *counts.entry(format!("op_{}", o[0].as_str().unwrap())).or_insert(0) += 1;
            ops.push(o);
            want.push(w);
        };
        let mats: Vec<String> = models.iter().filter(|m| matches!(m.1, Model::Mat(_))).map(|m| m.0.clone()).collect();
        let lists: Vec<String> = models.iter().filter(|m| matches!(m.1, Model::List(_))).map(|m| m.0.clone()).collect();
        serial += 1;
        let name = if r.chance(1, 4) && !models.is_empty() { models.keys().nth(r.below(models.len())).unwrap().clone() } else { format!("m{}", serial) };
        match r.below(20) {
            0 | 1 => {
                let l = line(&mut r, &s);
                push(json!(["process", l]), Want::Text(logreduce_tokenizer::process(&l)));
            }
            2 => {
                let n = if c.idx % 24 == 3 && !wide_gen { r.range(65500, 140000) } else { *r.pick(&[0usize, 1, 2, 7, 100, 1025, 5000]) };
                push(json!(["generate", n]), Want::Text(logreduce_generate::gen_lines().take(n).collect::<Vec<_>>().join("\n")));
                if n > 65000 {
                    wide_gen = true;
                    *counts.entry("long_texts".into()).or_insert(0) += 1;
                }
            }
            3 | 4 => {
                let l = if r.chance(1, 60) { wide(&mut r, 7000) } else { lines(&mut r, 30) };
                push(json!(["index", name, l]), Want::Nothing);
                models.insert(name, Model::List(index(&mut l.into_iter())));
            }
            5 | 6 => {
                let l = if r.chance(1, 60) { wide(&mut r, 7000) } else { lines(&mut r, 30) };
                push(json!(["index_mat", name, l]), Want::Nothing);
                models.insert(name, Model::Mat(index_mat(&l)));
            }
            7 | 8 if !lists.is_empty() => {
                let m = r.pick(&lists).clone();
                let t = line(&mut r, &s);
                if let Model::List(x) = &models[&m] {
                    push(json!(["search", m, t]), Want::Number(search(x, &t)));
                }
            }
            9 | 10 if !mats.is_empty() => {
                let m = r.pick(&mats).clone();
                let t = if r.chance(1, 40) { wide(&mut r, 1300) } else { lines(&mut r, 12) };
                if let Model::Mat(x) = &models[&m] {
                    push(json!(["search_mat", m, t]), Want::Numbers(search_mat(x, &t)));
                }
            }
            11 if !mats.is_empty() => {
                let m = r.pick(&mats).clone();
                if let Model::Mat(x) = &models[&m] {
                    let b = save_mat(x);
                    push(json!(["save_mat", m]), Want::Bytes(b.clone()));
                    // The bytes of the library, and those of the module, loaded again.
                    let copy = if r.chance(1, 2) {
                        push(json!(["load_mat", name, b, r.chance(1, 2)]), Want::Nothing);
                        load_mat(&b)
                    } else {
                        push(json!(["resave", m, name]), Want::Nothing);
                        load_mat(&b)
                    };
                    let t = lines(&mut r, 12);
                    push(json!(["search_mat", name, t]), Want::Numbers(search_mat(x, &t)));
                    models.insert(name, Model::Mat(copy));
                }
            }
            12 if models.len() > 1 => {
                let m = models.keys().nth(r.below(models.len())).unwrap().clone();
                push(json!([*r.pick(&["drop", "drop", "drop-thread"]), m]), Want::Nothing);
                models.remove(&m);
            }
            // Models of the other kind.
            13 if !mats.is_empty() && !lists.is_empty() => {
                let m = r.pick(&mats).clone();
                let l = r.pick(&lists).clone();
                match r.below(3) {
                    0 => push(json!(["search", m, line(&mut r, &s)]), Want::Exception),
                    1 => push(json!(["search_mat", l, lines(&mut r, 5)]), Want::Exception),
                    _ => push(json!(["save_mat", l]), Want::Exception),
                }
                *counts.entry("wrong_kind".into()).or_insert(0) += 1;
            }
            14 | 15 => {
                let k = *r.pick(FOREIGN);
                let some = models.keys().next().cloned().unwrap_or_default();
                match r.below(3) {
                    0 => push(json!(["odd-model", "search", k, some, [line(&mut r, &s)]]), Want::Exception),
                    1 => push(json!(["odd-model", "search_mat", k, some, [lines(&mut r, 5)]]), Want::Exception),
                    _ => push(json!(["odd-model", "save_mat", k, some, []]), Want::Exception),
                }
                *counts.entry(format!("foreign_{}", k)).or_insert(0) += 1;
            }
            16 => {
                // Arguments that are no text, no list of texts, no size, no bytes.
                let (f, ks): (&str, &[&str]) = *r.pick(&[
                    ("process", &["none", "int", "bytes", "list", "surrogate"][..]),
                    ("index", &["none", "int", "ints", "nested", "surrogates"]),
                    ("index_mat", &["none", "int", "ints", "nested", "surrogates"]),
                    ("generate", &["none", "negative", "huge", "float", "str"]),
                    ("load_mat", &["none", "int", "big-int", "negative-int", "list", "nested"]),
                ]);
                push(json!(["odd-arg", f, r.pick(ks), ""]), Want::Exception);
                if let Some(m) = lists.first() {
                    push(json!(["odd-arg", "search", r.pick(&["none", "int", "bytes", "surrogate", "ints"]), m]), Want::Exception);
                }
                if let Some(m) = mats.first() {
                    push(json!(["odd-arg", "search_mat", r.pick(&["none", "int", "ints", "surrogates", "nested"]), m]), Want::Exception);
                }
            }
            17 => {
                let f = *r.pick(&["process", "generate", "index", "index_mat", "search", "search_mat", "save_mat", "load_mat"]);
                push(json!(["arity", f, r.pick(&[json!([]), json!([null, null, null])])]), Want::Exception);
            }
            18 => {
                // A saved model that was damaged.
                let base = match mats.first().map(|m| &models[m]) {
                    Some(Model::Mat(x)) => save_mat(x),
                    _ => save_mat(&index_mat(&lines(&mut r, 6))),
                };
                let mut b = base.clone();
                match r.below(5) {
                    0 => b.truncate(r.below(b.len())),
                    1 => {
                        for _ in 0..r.range(1, 4) {
                            let i = r.below(b.len());
                            b[i] ^= 1 << r.below(8);
                        }
                    }
                    2 => {
                        let i = r.below(b.len());
                        let e = (i + 8).min(b.len());
                        b[i..e].iter_mut().for_each(|x| *x = *[0xff, 0x7f, 0x80, 0].get(i % 4).unwrap());
                    }
                    3 => b = (0..r.range(0, 200)).map(|_| r.below(256) as u8).collect(),
                    _ => {
                        // One of the numbers.
                        let k = r.below(b.len() / 8);
                        let v = *r.pick(&[0u64, 1, 2, 3, 259999, 260000, 260001, u64::MAX, 1 << 40, 1 << 63, 1 << 20]);
                        b[k * 8..k * 8 + 8].copy_from_slice(&v.to_le_bytes());
                    }
                }
                let t = lines(&mut r, 6);
                push(json!(["damaged", b, t]), Want::Anything(t.len()));
            }
            19 if !models.is_empty() => {
                let mut jobs = Vec::new();
                let mut w = Vec::new();
                for _ in 0..r.range(1, 6) {
                    let m = models.keys().nth(r.below(models.len())).unwrap().clone();
                    match &models[&m] {
                        Model::List(x) => {
                            let t = line(&mut r, &s);
                            w.push(vec![search(x, &t)]);
                            jobs.push(json!(["search", m, t]));
                        }
                        Model::Mat(x) => {
                            let t = lines(&mut r, 8);
                            w.push(search_mat(x, &t));
                            jobs.push(json!(["search_mat", m, t]));
                        }
                    }
                }
                // Some of them are let go meanwhile.
                let gone: Vec<String> = models.keys().filter(|_| r.chance(1, 3)).cloned().collect();
                push(json!(["threads", "", gone, jobs]), Want::Threads(w));
                for g in gone {
                    models.remove(&g);
                }
            }
            _ => {}
        }
    }
    let dir = c.dir();
    let (fo, fr) = (dir.join("ops.json"), dir.join("results.json"));
    std::fs::write(&fo, serde_json::to_vec(&ops).unwrap()).unwrap();
    let root = verif_root();
    let rt = std::env::var("VERIF_ASAN_RT").unwrap_or_default();
    let log = dir.join("stderr");
    let mut p = match Command::new("python3")
        .arg("-B")
        .arg(root.join("pyharness/driver.py"))
        .arg(root.join("target/python/module"))
        .args([&fo, &fr])
        .env("LD_PRELOAD", &rt)
        .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=2048:quarantine_size_mb=32")
        .env("PYTHONMALLOC", "malloc")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&log).unwrap())
        .spawn()
    {
        Ok(p) => p,
        Err(e) => return inconclusive(format!("no python3: {}", e)),
    };
    let t = Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(120) {
            let _ = p.kill();
            let _ = p.wait();
            return viol("hang", "the interpreter does not end within 120 s".to_string());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let err = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
    let at: usize = std::fs::read_to_string(format!("{}.at", fr.display())).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    if let Some(i) = err.find("ERROR: AddressSanitizer") {
        return viol("memory", format!("after operation {} of {} ({}): {}", at, ops.len(), short(ops.get(at)), err[i..].chars().take(900).collect::<String>()));
    }
    if !st.success() {
        if err.contains("ModuleNotFoundError") || err.contains("cannot be preloaded") {
            return inconclusive(err.chars().take(500).collect::<String>());
        }
        return viol("died", format!("the interpreter dies ({:?}) after operation {} of {} ({}): {}", st, at, ops.len(), short(ops.get(at)), err.chars().take(500).collect::<String>()));
    }
    let got: Vec<Value> = match std::fs::read(&fr).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => return viol("died", format!("no results: {}", err.chars().take(500).collect::<String>())),
    };
    ensure!(got.len() == ops.len(), "died", "{} results of {} operations", got.len(), ops.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if let Err(e) = matches(g, w) {
            return viol("result", format!("operation {} {} {}", i, short(ops.get(i)), e));
        }
        match w {
            Want::Exception => c.obs("exceptions", 1),
            Want::Anything(_) if g.get("exc").is_some() => c.obs("damaged_refused", 1),
            Want::Anything(_) => c.obs("damaged_usable", 1),
            _ => c.obs("agreed", 1),
        }
    }
    for (k, v) in counts {
        c.obs(&k, v);
    }
    c.distinct(&serde_json::to_vec(&ops).unwrap());
    c.sample(|| format!("{} operations, {} models left", ops.len(), models.len()));
    let _ = scen::file;
    Ok(())
}

fn short(o: Option<&Value>) -> String {
    o.map(|v| v.to_string().chars().take(400).collect()).unwrap_or_default()
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C24",
        level: "exploration",
        rule: "sequences of calls in a Python interpreter with the module under AddressSanitizer, compared with the library",
        quick: 240,
        thorough: 12000,
        shards: 8,
        run: c24,
        need: &["agreed", "exceptions", "wrong_kind", "damaged_refused", "op_threads", "op_drop", "op_resave", "op_load_mat", "foreign_datetime", "foreign_unnamed", "long_texts"],
        env: no_env,
        assumptions: &["a panic of the library reaches Python as an exception (PanicException)"],
    }]
}
