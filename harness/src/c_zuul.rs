//! C20, C21: Zuul builds.
use crate::fw::*;
use crate::gen;
use crate::httpd::{dead_url, Fault, Req, Resp, Site};
use logreduce_model::{Content, Input};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// yyyy-mm-dd of a day since 1970.
fn civil(days: i64) -> String {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{:04}-{:02}-{:02}", y, m, d)
}
fn today() -> i64 {
    (std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() / 86400) as i64
}
fn uuid(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 1, 1]);
    if n == 0 {
        gen::chars(r, gen::ALNUM, 32)
    } else {
        gen::chars(r, gen::HEX, 32)
    }
}
fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => format!("{} & {}=+%20?#", gen::word(r), gen::word(r)),
        2 => format!("é\"\\\u{1F600}\n{}", gen::word(r)),
        3 => format!("{}/{}", gen::word(r), gen::word(r)),
        _ => gen::word(r),
    }
}

#[derive(Clone, Debug)]
struct B {
    uuid: String,
    job: String,
    result: String,
    project: String,
    branch: String,
    pipeline: String,
    voting: bool,
    age: i64,
    /// Days from the start to the end.
    ran: i64,
    change: Option<u64>,
    log_url: Option<String>,
    ref_url: Option<String>,
}
impl B {
    fn json(&self) -> Value {
        let day = civil(today() - self.age);
        json!({
            "uuid": self.uuid, "job_name": self.job, "result": self.result, "voting": self.voting, "log_url": self.log_url, "ref_url": self.ref_url, "final": true, "project": self.project,
            "branch": self.branch, "pipeline": self.pipeline, "duration": 42.0, "change": self.change, "patchset": null, "ref": "refs/changes/1", "artifacts": [],
            "start_time": format!("{}T10:00:00", civil(today() - self.age - self.ran)), "end_time": format!("{}T12:00:00", day), "event_id": "e"
        })
    }
    fn usable(&self) -> bool {
        self.change.is_some() && self.log_url.is_some() && self.ref_url.is_some()
    }
}

fn unquote(s: &str) -> String {
    let mut out = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < b.len() + 0 || i + 2 == b.len() - 0 => {
                match b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                    Some(v) => {
                        out.push(v);
                        i += 2;
                    }
                    None => out.push(b'%'),
                }
            }
            c => out.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn query(path: &str) -> BTreeMap<String, String> {
    let q = path.split_once('?').map(|x| x.1).unwrap_or("");
    q.split('&').filter_map(|kv| kv.split_once('=')).map(|(k, v)| (unquote(k), unquote(v))).collect()
}

/// A name that is not the given one, but may look like it.
fn other_name(r: &mut Rng, name: &str) -> String {
    let s = match r.below(9) {
        0 => format!("other/{}", name),
        1 => format!("{}-2", name),
        2 => format!("{}/x", name),
        3 => format!("x{}", name),
        4 if name.len() > 1 && name.is_char_boundary(1) => name[1..].to_string(),
        5 if name.to_uppercase() != name => name.to_uppercase(),
        6 => format!("other/{}", name.rsplit('/').next().unwrap_or("")),
        7 => String::new(),
        _ => "another/project".into(),
    };
    if s == name {
        format!("{}y", s)
    } else {
        s
    }
}

/// Days since the end of a build; below zero if the clock of the service is ahead.
fn age(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => r.range(60, 500) as i64,
        1 => r.range(300, 5000) as i64,
        2 => -(r.range(1, 400) as i64),
        3 => r.below(3) as i64,
        _ => r.range(1, 60) as i64,
    }
}

fn c20(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let caching = std::env::var("LOGREDUCE_CACHE").is_ok();
    let job = loop {
        let j = text(&mut r);
        if !j.is_empty() {
            break j;
        }
    };
    let site_slot: Arc<Mutex<(Vec<Value>, Option<usize>, Value)>> = Arc::new(Mutex::new((vec![], None, Value::Null)));
    let st = site_slot.clone();
    let site = Site::new(move |q: &Req| {
        let s = st.lock().unwrap();
        let path = q.path.split('?').next().unwrap_or("").to_string();
        if path.ends_with("/builds") {
            let qs = query(&q.path);
            let out: Vec<&Value> = s
                .0
                .iter()
                .filter(|b| qs.get("job_name").map(|j| b["job_name"].as_str() == Some(j)).unwrap_or(true))
                .filter(|b| qs.get("result").map(|j| b["result"].as_str() == Some(j)).unwrap_or(true))
                .take(qs.get("limit").and_then(|l| l.parse().ok()).unwrap_or(1000))
                .collect();
            let doc = json!(out).to_string();
            let n = doc.len();
            return match s.1 {
                None => Resp::ok(doc),
                Some(0) => Resp::ok("<html>Bad gateway</html>"),
                Some(1) => Resp::ok(&doc.as_bytes()[..n / 2]),
                Some(2) => Resp::ok("{\"error\": \"no\"}"),
                Some(3) => Resp { fault: Fault::Cut(n / 2), ..Resp::ok(doc) },
                Some(4) => Resp { fault: Fault::Refuse, ..Resp::ok(doc) },
                Some(5) => Resp::ok(""),
                _ => Resp::ok("null"),
            };
        }
        if path.contains("/build/") {
            return Resp::ok(s.2.to_string());
        }
        if path.starts_with("/logs/ok") {
            return Resp::ok("<html></html>");
        }
        if path.starts_with("/logs/404") {
            return Resp::status(404);
        }
        if path.starts_with("/logs/500") {
            return Resp::status(500);
        }
        Resp { fault: Fault::Refuse, ..Resp::ok("") }
    });
    let me = B {
        uuid: gen::chars(&mut r, gen::HEX, 32),
        job: job.clone(),
        result: "FAILURE".into(),
        project: text(&mut r) + "p",
        branch: "stable/x".into(),
        pipeline: "check".into(),
        voting: true,
        age: 1,
        ran: 0,
        change: Some(match r.below(8) {
            0 => 0,
            1 => 1 << 32,
            2 => u64::MAX - 2000,
            _ => r.range(1, 100000) as u64,
        }),
        log_url: Some(site.url("/logs/ok/me/")),
        ref_url: Some("http://localhost/ref".into()),
    };
    // Candidates around one vector of factors.
    let proto = B {
        project: if r.chance(1, 2) { me.project.clone() } else { other_name(&mut r, &me.project) },
        branch: if r.chance(1, 2) { me.branch.clone() } else { other_name(&mut r, &me.branch) },
        pipeline: r.pick(&["gate", "check", "periodic", "post"]).to_string(),
        voting: r.chance(1, 2),
        age: if r.chance(1, 4) { age(&mut r) } else { r.range(1, 40) as i64 },
        ran: *r.pick(&[0, 0, 0, 1, 30]),
        change: Some(if r.chance(1, 3) { me.change.unwrap() } else { me.change.unwrap() + 7 }),
        result: "SUCCESS".into(),
        ..me.clone()
    };
    // Many builds, the best of them anywhere, or out of reach.
    let many = c.idx % 50 == 7;
    let n = if many { *r.pick(&[30usize, 60, 130, 300, 480]) } else { *r.pick(&[0usize, 1, 2, 2, 3, 5, 9]) };
    // The same change at its best, another one at its worst.
    let resort = !many && r.chance(1, 20);
    let n = if resort { 2 } else { n };
    let mut bs: Vec<B> = Vec::new();
    let mut reach: Vec<bool> = Vec::new();
    let unreachable = *r.pick(&[0u64, 1, 3, 10]);
    let lost = if many && r.chance(1, 2) { r.range(1, n - 1) } else { 0 };
    if many {
        c.obs("long_lists", 1);
    }
    // The clock of the service may be ahead for every build, or all of them are old.
    let ahead = r.chance(1, 8);
    let old = !ahead && r.chance(1, 8);
    for k in 0..n {
        let mut b = proto.clone();
        b.uuid = gen::chars(&mut r, gen::HEX, 32);
        for _ in 0..r.range(0, 2) {
            match r.below(7) {
                6 => b.ran = *r.pick(&[0, 1, 3, 10, 100]),
                0 => b.project = if r.chance(1, 2) { me.project.clone() } else { other_name(&mut r, &me.project) },
                1 => b.branch = if b.branch == me.branch { other_name(&mut r, &me.branch) } else { me.branch.clone() },
                2 => b.pipeline = r.pick(&["gate", "check", "periodic-weekly", "tripleo-gate", "post"]).to_string(),
                3 => b.voting = !b.voting,
                4 => b.age = age(&mut r),
                _ => b.change = Some(if b.change == me.change { me.change.unwrap() + 1 + k as u64 } else { me.change.unwrap() }),
            }
        }
        if ahead {
            b.age = -(*r.pick(&[0i64, 1, 5, 20, 60, 200, 400]));
        }
        if old {
            b.age = r.range(250, 5000) as i64;
        }
        let mut ok = !r.chance(unreachable, 10);
        if many {
            // A clear order, known to the model below, the first ones are lost.
            b = B { project: me.project.clone(), branch: me.branch.clone(), pipeline: "gate".into(), voting: true, change: Some(me.change.unwrap() + 7), age: k as i64, uuid: b.uuid.clone(), ..b };
            ok = k >= lost && !r.chance(unreachable.min(3), 10);
        }
        if resort {
            let a = r.below(30) as i64;
            ok = true;
            b = if k == 0 {
                B { project: me.project.clone(), change: me.change, branch: me.branch.clone(), pipeline: "gate".into(), voting: true, age: a, ..b }
            } else {
                B { project: other_name(&mut r, &me.project), branch: other_name(&mut r, &me.branch), pipeline: "check".into(), voting: false, age: r.range(200, 300) as i64, ..b }
            };
            c.obs("last_resorts", 1);
        }
        b.log_url = Some(if ok {
            site.url(&format!("/logs/ok/{}/", k))
        } else {
            match r.below(4) {
                0 => site.url(&format!("/logs/404/{}/", k)),
                1 => site.url(&format!("/logs/500/{}/", k)),
                2 => site.url(&format!("/logs/refused/{}/", k)),
                _ => dead_url(&format!("/{}/", k)),
            }
        });
        match if many { r.below(400) } else if resort { 11 } else { r.below(12) } {
            0 => b.change = None,
            1 => b.log_url = None,
            2 => b.ref_url = None,
            3 => b.uuid = me.uuid.clone(),
            4 => b.job = format!("{}2", job),
            5 => b.result = r.pick(&["FAILURE", "POST_FAILURE", "TIMED_OUT", "success"]).to_string(),
            _ => {}
        }
        bs.push(b);
        reach.push(ok);
    }
    if many {
        let how = r.below(3);
        let mut o: Vec<usize> = (0..n).collect();
        match how {
            0 => {}
            1 => o.reverse(),
            _ => r.shuffle(&mut o),
        }
        bs = o.iter().map(|i| bs[*i].clone()).collect();
        reach = o.iter().map(|i| reach[*i]).collect();
    }
    let mut docs: Vec<Value> = bs.iter().map(|b| b.json()).collect();
    // Ill-formed entries in between.
    for _ in 0..r.below(3) {
        let mut v = proto.json();
        match r.below(4) {
            0 => {
                v.as_object_mut().unwrap().remove("uuid");
            }
            1 => v["end_time"] = Value::Null,
            2 => v["log_url"] = json!("not a url"),
            _ => v = json!({"job_name": job, "result": "SUCCESS"}),
        }
        let at = r.below(docs.len() + 1);
        docs.insert(at, v);
    }
    let fault = if r.chance(1, 6) { Some(r.below(7)) } else { None };
    *site_slot.lock().unwrap() = (docs, fault, me.json());
    c.note(format!("target {:?} candidates {:#?} reachable {:?} fault {:?}", me, bs, reach, fault));
    c.distinct(format!("{:?}{:?}{:?}", bs, reach, fault).as_bytes());

    let page = site.url(&format!("/z/t/tenant/build/{}", me.uuid));
    let target = match Content::from_input(Input::Url(page)) {
        Ok(t) => t,
        Err(e) => return viol("target", format!("{:#}", e)),
    };
    site.clear();
    let found = match guard(|| target.discover_baselines()) {
        Ok(f) => f,
        Err(p) => return viol("panic", p),
    };
    // What was asked for.
    let asked: Vec<Req> = site.requests().into_iter().filter(|q| q.path.contains("/builds")).collect();
    ensure!(!asked.is_empty(), "not-asked", "the service is not asked for builds");
    for q in &asked {
        let qs = query(&q.path);
        ensure!(q.path.starts_with("/z/api/tenant/tenant/builds?"), "api", "builds are asked at {}", q.path);
        ensure!(qs.get("job_name") == Some(&job), "job", "asked for the job {:?} instead of {:?}", qs.get("job_name"), job);
        ensure!(qs.get("result").map(|s| s.as_str()) == Some("SUCCESS"), "result", "asked for the result {:?}", qs.get("result"));
        c.obs("queries", 1);
    }
    let cand: Vec<usize> = (0..n).filter(|i| bs[*i].usable() && reach[*i] && bs[*i].uuid != me.uuid && bs[*i].job == job && bs[*i].result == "SUCCESS").collect();
    if fault.is_some() {
        ensure!(found.is_err(), "garbage", "an answer that is no list of builds gives baselines");
        c.obs("bad_answers", 1);
        return Ok(());
    }
    if cand.is_empty() {
        ensure!(found.is_err(), "empty", "no usable build, and yet a baseline: {:?}", found.map(|b| b.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
        c.obs("no_candidates", 1);
        return Ok(());
    }
    let found = match found {
        Ok(f) => f,
        Err(e) => return viol("not-found", format!("{} usable builds, and discovery fails: {:#}", cand.len(), e)),
    };
    ensure!(!found.is_empty(), "not-found", "{} usable builds, and discovery finds none", cand.len());
    ensure!(found.len() == 1, "many", "{} baselines", found.len());
    let b = match &found[0] {
        Content::Zuul(b) => b,
        x => return viol("kind", format!("the baseline is {}", x)),
    };
    let pick = match cand.iter().copied().find(|i| bs[*i].uuid == b.uuid) {
        Some(i) => i,
        None => return viol("unusable", format!("the baseline {} is not among the usable builds", b.uuid)),
    };
    let w = &bs[pick];
    ensure!(b.log_url.as_str() == w.log_url.as_deref().unwrap() && b.ref_url.as_str() == w.ref_url.as_deref().unwrap() && b.project == w.project && b.branch == w.branch && b.job_name == w.job && b.pipeline == w.pipeline && b.result == w.result && Some(b.change) == w.change, "fields", "the fields of the baseline {:?} are not those of {:?}", b, w);
    ensure!(found[0].to_string().ends_with(&format!("/z/api/tenant/tenant/build/{})", w.uuid)), "display", "{}", found[0]);
    // No other candidate beats it.
    let same = |b: &B| b.project == me.project && b.change == me.change;
    let vec = |b: &B| -> [i64; 6] {
        [
            !same(b) as i64,
            (b.project == me.project && !same(b)) as i64,
            (b.branch == me.branch) as i64,
            (b.pipeline.contains("gate") || b.pipeline.contains("periodic")) as i64,
            b.voting as i64,
            // (a build of tomorrow is one of today)
            -b.age.max(0),
        ]
    };
    let a = vec(w);
    for i in &cand {
        let o = vec(&bs[*i]);
        ensure!(!(a[0] == 0 && o[0] == 1 && a[5] - o[5] <= 300), "same-change", "the same change {:?} is preferred to {:?}", w, bs[*i]);
        let beats = (0..6).all(|k| o[k] >= a[k]) && (0..6).any(|k| o[k] > a[k]);
        ensure!(!beats, "beaten", "{:?} is picked although {:?} beats it in every respect", w, bs[*i]);
        c.obs("comparisons", 1);
    }
    if caching {
        site.clear();
        match target.discover_baselines() {
            Ok(f) => ensure!(f == found, "unstable", "discovering again from the cache gives another baseline"),
            Err(e) => return viol("unstable", format!("discovering again fails: {:#}", e)),
        }
        c.obs("cached_discoveries", 1);
    }
    c.obs("discoveries", 1);
    c.sample(|| format!("{} candidates, {} usable, picked {:?}", n, cand.len(), w));
    Ok(())
}

// ---------------------------------------------------------------- C21
const REQUIRED: &[&str] = &["uuid", "job_name", "result", "start_time", "end_time", "duration", "voting", "artifacts", "project", "branch", "pipeline", "ref", "event_id"];

fn timestamp(r: &mut Rng) -> String {
    let day = civil(r.below(40000) as i64);
    format!("{}T{:02}:{:02}:{:02}", day, r.below(24), r.below(60), r.below(60))
}
fn opt(r: &mut Rng, v: Value) -> Option<Value> {
    match r.below(4) {
        0 => Some(Value::Null),
        1 => None,
        _ => Some(v),
    }
}

/// A well-formed build and what it says (missing options as null, the duration as an integer).
pub fn good_build(r: &mut Rng) -> (Value, Value) {
    let dur: u64 = match r.below(5) {
        0 => 0,
        1 => r.below(100) as u64,
        2 => r.range(16_777_000, 16_778_000) as u64,
        3 => u32::MAX as u64 - r.below(300) as u64,
        _ => r.below(1 << 31) as u64,
    };
    let arts: Vec<Value> = (0..*r.pick(&[0, 0, 1, 3])).map(|i| json!({"name": text(r), "url": format!("http://localhost/{}/a.json", i)})).collect();
    let mut want = json!({
        "uuid": uuid(r), "job_name": text(r), "result": text(r), "start_time": timestamp(r), "end_time": timestamp(r), "duration": dur, "voting": r.chance(1, 2),
        "log_url": null, "ref_url": null, "artifacts": arts, "project": text(r), "branch": text(r), "pipeline": text(r), "change": null, "patchset": null, "ref": text(r), "event_id": text(r)
    });
    let mut doc = want.clone();
    if r.chance(1, 2) {
        doc["duration"] = json!(dur as f64);
    } else if r.chance(1, 3) {
        // Parts of a second, rounded in any way.
        doc["duration"] = json!(dur as f64 + *r.pick(&[0.25, 0.5, 0.75, 0.001]));
        want["fraction"] = json!(true);
    }
    let opts = [
        ("log_url", json!(format!("https://logs.example.com/{}/", r.below(1000)))),
        ("ref_url", json!(format!("https://review.example.com/{}?a=b&c=%20d#e", r.below(1000)))),
        ("change", json!(if r.chance(1, 5) { u64::MAX } else { r.below(1 << 40) as u64 })),
        ("patchset", json!(text(r))),
    ];
    for (k, v) in opts {
        match opt(r, v) {
            Some(v) => {
                want[k] = v.clone();
                doc[k] = v;
            }
            None => {
                doc.as_object_mut().unwrap().remove(k);
            }
        }
    }
    for _ in 0..r.below(3) {
        doc[&format!("extra_{}", r.below(10))] = json!({"deep": [1, {"x": text(r)}]});
    }
    if r.chance(1, 4) {
        for a in doc["artifacts"].as_array_mut().unwrap() {
            a["metadata"] = json!({"type": "zuul_manifest"});
        }
    }
    (doc, want)
}

pub fn break_build(r: &mut Rng, v: &mut Value) {
    match r.below(9) {
        0 | 1 | 2 => {
            let k = *r.pick::<&str>(REQUIRED);
            v.as_object_mut().unwrap().remove(k);
        }
        3 => {
            let k = *r.pick::<&str>(REQUIRED);
            v[k] = Value::Null;
        }
        4 => {
            let k = *r.pick(&["uuid", "job_name", "project", "ref", "event_id"]);
            v[k] = json!(42);
        }
        5 => {
            let bad = *r.pick(&["2021-13-40T00:00:00", "yesterday", "2021-10-13", "2021-10-13T12:57:20Z", "", "1634129840"]);
            let k = *r.pick(&["start_time", "end_time"]);
            v[k] = json!(bad);
        }
        6 => {
            let k = *r.pick(&["log_url", "ref_url"]);
            v[k] = r.pick(&[json!("no url"), json!(""), json!(3), json!(["http://x/"])]).clone();
        }
        7 => v["voting"] = json!("true"),
        _ => *v = r.pick(&[json!(null), json!([]), json!("x"), json!(1), json!({})]).clone(),
    }
}

struct Slow<'a>(&'a [u8], usize);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn check_build(b: &zuul_build::Build, want: &Value, what: &str) -> V {
    let s = |k: &str| want[k].as_str().unwrap_or("").to_string();
    let o = |k: &str| want[k].as_str().map(|x| x.to_string());
    ensure!(b.uuid == s("uuid") && b.job_name == s("job_name") && b.result == s("result") && b.project == s("project") && b.branch == s("branch") && b.pipeline == s("pipeline") && b.change_ref == s("ref") && b.event_id == s("event_id"), "text-field", "{}: {:?} instead of {}", what, b, want);
    ensure!(b.voting == want["voting"].as_bool().unwrap(), "voting", "{}: {:?} instead of {}", what, b, want);
    let more = if want["fraction"] == json!(true) { b.duration as u64 == want["duration"].as_u64().unwrap() + 1 } else { false };
    ensure!(b.duration as u64 == want["duration"].as_u64().unwrap() || more, "duration", "{}: the duration {} instead of {}", what, b.duration, want["duration"]);
    for (t, k) in [(b.start_time.to_rfc3339(), "start_time"), (b.end_time.to_rfc3339(), "end_time")] {
        ensure!(t.starts_with(&s(k)) && (t.ends_with("+00:00") || t.ends_with('Z')), "time", "{}: {} is {} instead of {}", what, k, t, s(k));
    }
    ensure!(b.change == want["change"].as_u64(), "change", "{}: {:?} instead of {}", what, b.change, want["change"]);
    ensure!(b.patchset == o("patchset"), "patchset", "{}: {:?} instead of {}", what, b.patchset, want["patchset"]);
    ensure!(b.log_url.as_ref().map(|u| u.to_string()) == o("log_url"), "log-url", "{}: {:?} instead of {}", what, b.log_url, want["log_url"]);
    ensure!(b.ref_url.as_ref().map(|u| u.to_string()) == o("ref_url"), "ref-url", "{}: {:?} instead of {}", what, b.ref_url, want["ref_url"]);
    let arts: Vec<(String, String)> = b.artifacts.iter().map(|a| (a.name.clone(), a.url.to_string())).collect();
    let wa: Vec<(String, String)> = want["artifacts"].as_array().unwrap().iter().map(|a| (a["name"].as_str().unwrap().into(), a["url"].as_str().unwrap().into())).collect();
    ensure!(arts == wa, "artifacts", "{}: {:?} instead of {:?}", what, arts, wa);
    Ok(())
}

fn decode_part(c: &mut Case, r: &mut Rng) -> V {
    let n = *r.pick(&[0usize, 1, 2, 5, 20]);
    let mut docs = Vec::new();
    let mut want = Vec::new();
    let bad = *r.pick(&[0u64, 2, 8]);
    for _ in 0..n {
        let (mut d, w) = good_build(r);
        if r.chance(bad, 10) {
            break_build(r, &mut d);
            c.obs("ill_formed", 1);
        } else {
            want.push(w);
            c.obs("well_formed", 1);
        }
        docs.push(d);
    }
    let doc = if r.chance(1, 2) { json!(docs).to_string() } else { serde_json::to_string_pretty(&docs).unwrap() };
    c.distinct(doc.as_bytes());
    let step = *r.pick(&[1usize, 100, 1 << 20]);
    let got = match guard(|| zuul_build::decode_builds(Slow(doc.as_bytes(), step))) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return viol("decode", format!("a list of {} builds is refused: {}", n, e)),
        Err(p) => return viol("panic", p),
    };
    ensure!(got.len() == want.len(), "count", "{} builds decoded instead of {} of {}: {:?}", got.len(), want.len(), n, got.iter().map(|b| &b.uuid).collect::<Vec<_>>());
    for (b, w) in got.iter().zip(&want) {
        check_build(b, w, "list")?;
        // Encode and decode again.
        let enc = match serde_json::to_string(b) {
            Ok(e) => e,
            Err(e) => return viol("encode", e.to_string()),
        };
        match zuul_build::decode_build(enc.as_bytes()) {
            Ok(x) => ensure!(x == *b, "round-trip", "{:?} encodes as {} and decodes as {:?}", b, enc, x),
            Err(e) => return viol("round-trip", format!("{} is not decoded: {}", enc, e)),
        }
        let v: Value = serde_json::from_str(&enc).unwrap();
        ensure!(v["uuid"] == w["uuid"] && v["end_time"] == w["end_time"] && v["duration"] == json!(b.duration) && v["ref"] == w["ref"], "encoding", "{} instead of {}", v, w);
        c.obs("round_trips", 1);
    }
    for (d, ok) in docs.iter().map(|d| (d, want.iter().any(|w| w["uuid"] == d["uuid"] && d["uuid"].is_string()))).take(3) {
        let one = match guard(|| zuul_build::decode_build(Slow(d.to_string().as_bytes(), step))) {
            Ok(x) => x,
            Err(p) => return viol("panic", p),
        };
        ensure!(one.is_ok() == ok, "single", "decoding one build: {} is {}", d, if ok { "refused" } else { "accepted" });
    }
    // Not a list, or not complete.
    let cut = r.below(doc.len().max(1));
    let bad: Vec<Vec<u8>> = vec![
        doc.as_bytes()[..cut].to_vec(),
        format!("{}x", doc).into_bytes(),
        b"{}".to_vec(),
        b"null".to_vec(),
        b"<html></html>".to_vec(),
        vec![0xff, 0xfe],
        "[".repeat(200).into_bytes(),
        vec![],
    ];
    let b = r.pick(&bad);
    match guard(|| zuul_build::decode_builds(Slow(b, step))) {
        Ok(Ok(x)) => return viol("accepted", format!("{:?} is accepted as {} builds", String::from_utf8_lossy(b).chars().take(200).collect::<String>(), x.len())),
        Ok(Err(_)) => c.obs("refused", 1),
        Err(p) => return viol("panic", p),
    }
    Ok(())
}

fn url_part(c: &mut Case, r: &mut Rng) -> V {
    let answer: Arc<Mutex<(Value, usize)>> = Arc::new(Mutex::new((Value::Null, 0)));
    let a2 = answer.clone();
    let site = Site::new(move |q: &Req| {
        let a = a2.lock().unwrap();
        if !q.path.contains("/api/") {
            return Resp::status(404);
        }
        let doc = a.0.to_string();
        let n = doc.len();
        match a.1 {
            0 => Resp::ok(doc),
            1 => Resp::ok("<html>"),
            2 => Resp::ok(&doc.as_bytes()[..n / 2]),
            3 => Resp { fault: Fault::Cut(n / 2), ..Resp::ok(doc) },
            4 => Resp { fault: Fault::Refuse, ..Resp::ok(doc) },
            5 => Resp::ok("[]"),
            _ => Resp::ok(""),
        }
    });
    let (mut doc, mut want) = good_build(r);
    let uid = uuid(r);
    doc["uuid"] = json!(uid);
    want["uuid"] = json!(uid);
    let complete = r.chance(3, 4);
    if complete {
        for (k, v) in [("log_url", json!("http://localhost/logs/")), ("ref_url", json!("http://localhost/ref")), ("change", json!(7))] {
            if doc.get(k).map(|x| x.is_null()).unwrap_or(true) {
                doc[k] = v.clone();
                want[k] = v;
            }
        }
    } else {
        let k = *r.pick(&["log_url", "ref_url", "change"]);
        doc.as_object_mut().unwrap().remove(k);
        want[k] = Value::Null;
    }
    let fault = if r.chance(1, 5) { r.range(1, 6) } else { 0 };
    let ill = r.chance(1, 10);
    if ill {
        break_build(r, &mut doc);
    }
    *answer.lock().unwrap() = (doc.clone(), fault);
    // The location.
    let front = *r.pick(&["", "/zuul", "/a/b", "/t/x", "/t", "/build/x", "/api", "/z/t"]);
    let tenant = r.pick(&["zuul", "t", "build", "my-tenant", "a%20b", "openstack.org", "api"]).to_string();
    let tail = *r.pick(&["", "", "", "?x=1", "#summary", "?next=/t/other/build/1", "#/build/x", "?a=/build/b"]);
    let multi = r.chance(1, 2);
    // .../t/X/build/UID is a multi-tenant page, whatever comes before.
    let white_clash = front.ends_with("/t/x") || front == "/z/t" || front == "/t";
    let (page, api) = if multi {
        (format!("{}/t/{}/build/{}{}", front, tenant, uid, tail), format!("{}/api/tenant/{}/", front, tenant))
    } else {
        let f = if white_clash { "/white" } else { front };
        (format!("{}/build/{}{}", f, uid, tail), format!("{}/api/", f))
    };
    c.note(format!("page {} api {} fault {} ill {} complete {} doc {}", page, api, fault, ill, complete, doc));
    c.distinct(format!("{}{}", page, doc).as_bytes());
    let got = match guard(|| Content::from_input(Input::Url(site.url(&page)))) {
        Ok(x) => x,
        Err(p) => return viol("panic", p),
    };
    let reqs = site.requests();
    for q in &reqs {
        ensure!(q.method == "GET" && q.path == format!("{}build/{}", api, uid), "api", "{} is asked at {} {} instead of {}build/{}", page, q.method, q.path, api, uid);
    }
    ensure!(!reqs.is_empty(), "not-asked", "{} is not resolved through the service", page);
    if fault == 0 && !ill && complete {
        let b = match got {
            Ok(Content::Zuul(b)) => b,
            Ok(x) => return viol("kind", format!("{} becomes {}", page, x)),
            Err(e) => return viol("refused", format!("{}: {:#}", page, e)),
        };
        let shown = Content::Zuul(b.clone()).to_string();
        ensure!(shown == format!("Zuul({}build/{})", site.url(&api), uid), "display", "{} is shown as {}", page, shown);
        ensure!(b.uuid == uid && b.job_name == want["job_name"] && b.project == want["project"] && b.branch == want["branch"] && b.result == want["result"] && b.pipeline == want["pipeline"] && b.log_url.as_str() == want["log_url"] && b.ref_url.as_str() == want["ref_url"] && json!(b.change) == want["change"], "fields", "{:?} instead of {}", b, want);
        c.obs("pages_resolved", 1);
    } else {
        ensure!(got.is_err(), "accepted", "a broken answer (fault {}, ill-formed {}, complete {}) is accepted: {}", fault, ill, complete, doc);
        c.obs("broken_answers", 1);
    }
    // Other locations are no builds.
    site.clear();
    let near = match r.below(9) {
        0 => format!("{}/builds/{}", front, uid),
        1 => format!("{}/t/{}/build/{}", front, tenant, &uid[1..]),
        2 => format!("{}/t/{}/build/{}0", front, tenant, uid),
        3 => format!("{}/t/{}/build/{}/", front, tenant, uid),
        4 => format!("{}/t/{}/build/{}-{}", front, tenant, &uid[..10], &uid[..21]),
        5 => format!("{}/build/{}/console", front, uid),
        6 => format!("{}/logs?x=/build/{}", front, uid),
        7 => format!("{}/buildset/{}", front, uid),
        _ => format!("{}/{}", front, uid),
    };
    let near = if near.starts_with("/build/x/") && near.len() == 9 + 32 { "/other/x".to_string() } else { near };
    match guard(|| Content::from_input(Input::Url(site.url(&near)))) {
        Ok(Ok(Content::Zuul(_))) => return viol("false-build", format!("{} is taken for a build", near)),
        Ok(Ok(Content::Directory(s))) => ensure!(near.ends_with('/') && s.as_str() == site.url(&near), "near-kind", "{} becomes the directory {:?}", near, s),
        Ok(Ok(Content::File(s))) => ensure!(!near.ends_with('/') && s.as_str() == site.url(&near), "near-kind", "{} becomes the file {:?}", near, s),
        Ok(Err(e)) => return viol("near-error", format!("{}: {:#}", near, e)),
        Err(p) => return viol("panic", p),
    }
    ensure!(site.requests().is_empty(), "near-asked", "{} leads to {:?}", near, site.requests());
    c.obs("other_locations", 1);
    c.sample(|| format!("{} -> {}build/{}", page, api, uid));
    Ok(())
}

fn c21(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    if c.idx % 3 == 0 {
        url_part(c, &mut r)
    } else {
        decode_part(c, &mut r)
    }
}

fn cache_env(shard: u32) -> Vec<(&'static str, String)> {
    if shard % 2 == 0 {
        vec![("LOGREDUCE_CACHE", "1".to_string())]
    } else {
        vec![]
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C20",
            level: "exploration",
            rule: "a target build and up to nine candidates that differ in few respects, some unusable or unreachable, served by a mock Zuul that honours the query",
            quick: 12000,
            thorough: 200000,
            shards: 8,
            run: c20,
            need: &["queries", "comparisons", "discoveries", "no_candidates", "bad_answers", "cached_discoveries", "long_lists", "last_resorts"],
            env: cache_env,
            assumptions: &["only dominance is judged: how much each respect counts is free, except that the same change is worse than any build up to 300 days older"],
        },
        Spec {
            id: "C21",
            level: "exploration",
            rule: "a list of well- and ill-formed builds decoded, encoded and decoded again; a build page resolved against a mock service with its request log",
            quick: 96000,
            thorough: 1440000,
            shards: 8,
            run: c21,
            need: &["well_formed", "ill_formed", "round_trips", "refused", "pages_resolved", "broken_answers", "other_locations"],
            env: cache_env,
            assumptions: &["durations are below 2^32 seconds and rounded to seconds in any way, times are whole seconds"],
        },
    ]
}
