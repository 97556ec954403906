//! C11, C12, C25: sources of a directory, index names, input strings.
use crate::fw::*;
use crate::gen;
use logreduce_model::{Content, IndexName, Input, Source};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- C11
const IGNORED: &[&str] = &[
    ".ico", ".png", ".clf", ".tar", ".tar.bzip2", ".subunit", ".sqlite", ".db", ".bin", ".pcap.log.txt", ".eot", ".otf", ".woff", ".woff2", ".ttf", ".yaml", ".ini", ".conf", "job-output.json", "log-classify.json", "zuul-manifest.json", ".html", "cacerts", "local/creds", "pacemaker/authkey",
    "mysql/tc.log.txt", "corosync/authkey", "object.builder", "account.builder", "container.builder",
];
fn ignored(rel: &str) -> bool {
    // The path is relative to a directory that is not itself ignored.
    let full = format!("/{}", rel);
    let base = full.strip_suffix(".gz").unwrap_or(&full);
    IGNORED.iter().any(|e| base.ends_with(e) || full.ends_with(e)) || full.contains("/etc/")
}

fn name(r: &mut Rng) -> String {
    let w = gen::word(r).to_lowercase();
    match r.below(22) {
        0 => format!("{}.log", w),
        1 => format!("{}.log.{}", w, r.below(100)),
        2 => format!("{}.txt.gz", w),
        3..=6 => {
            // An ignored name.
            let e = *r.pick(IGNORED);
            let e = e.rsplit('/').next().unwrap();
            let g = if r.chance(1, 3) { ".gz" } else { "" };
            if e.starts_with('.') {
                format!("{}{}{}", w, e, g)
            } else {
                format!("{}{}{}", if r.chance(1, 3) { w.as_str() } else { "" }, e, g)
            }
        }
        7..=9 => {
            // A near miss.
            let e = *r.pick(IGNORED);
            let e = e.rsplit('/').next().unwrap();
            match r.below(7) {
                5 if e.starts_with('.') => format!("{}{}", w, e.to_uppercase()),
                6 if e.starts_with('.') => format!("{}{}", w, &e[1..]),
                0 => format!("{}{}x", w, e),
                1 => format!("{}{}", w, e.replace('.', "_")),
                2 => format!("{}{}.xz", w, e),
                3 => format!("{}{}.gz.gz", w, e),
                _ => format!("{}.{}.log", w, e.trim_start_matches('.')),
            }
        }
        10 => "etc".to_string(),
        11 => ".hidden".to_string(),
        12 => format!(".{}", w),
        13 => format!("{} with space", w),
        14 => format!("{}é漢.log", w),
        15 => "creds".to_string(),
        16 => "authkey".to_string(),
        17 => "tc.log.txt".to_string(),
        18 => format!("{}\n{}", w, w),
        19 => format!("{}\"<&>'.log", w),
        20 => "job-output.txt".into(),
        _ => w,
    }
}
fn dirname(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "etc".into(),
        1 => "etcetera".into(),
        2 => "my-etc".into(),
        3 => "local".into(),
        4 => "pacemaker".into(),
        5 => "mysql".into(),
        6 => "corosync".into(),
        7 => format!("{}.conf", gen::word(r)),
        8 => format!("{}.html", gen::word(r)),
        9 => ".d".into(),
        _ => gen::word(r).to_lowercase(),
    }
}

/// (relative path, is regular)
fn fill(r: &mut Rng, root: &Path, rel: &str, depth: usize, out: &mut Vec<OsString>, obs: &mut BTreeMap<&'static str, u64>) {
    let n = if depth == 0 { r.range(1, 9) } else { r.range(0, 5) };
    for _ in 0..n {
        let d = root.join(rel);
        match r.below(12) {
            0..=2 if depth < 6 => {
                let sub = if rel.is_empty() { dirname(r) } else { format!("{}/{}", rel, dirname(r)) };
                if std::fs::create_dir(root.join(&sub)).is_ok() {
                    *obs.entry("directories").or_insert(0) += 1;
                    fill(r, root, &sub, depth + 1, out, obs);
                }
            }
            3 => {
                // Symbolic links: to a file, a directory, nowhere, a loop.
                let p = d.join(format!("{}-link", gen::word(r)));
                let t: PathBuf = match r.below(4) {
                    0 => root.to_path_buf(),
                    1 => PathBuf::from("nowhere"),
                    2 => PathBuf::from("."),
                    _ => out.first().map(|f| root.join(f)).unwrap_or_else(|| PathBuf::from("x")),
                };
                if std::os::unix::fs::symlink(t, p).is_ok() {
                    *obs.entry("symlinks").or_insert(0) += 1;
                }
            }
            4 => {
                let p = d.join(format!("{}.fifo", gen::word(r)));
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0 {
                    *obs.entry("fifos").or_insert(0) += 1;
                }
            }
            5 if r.chance(1, 2) => {
                // A name that is not UTF-8; none of the ignored suffixes.
                let mut b = gen::word(r).into_bytes();
                b.push(0xff);
                b.extend_from_slice(b".log");
                let n = OsString::from_vec(b);
                let p = Path::new(rel).join(&n);
                if !root.join(&p).exists() && !format!("/{}/", rel).contains("/etc/") && std::fs::write(root.join(&p), b"x y z\n").is_ok() {
                    out.push(p.into_os_string());
                    *obs.entry("non_utf8").or_insert(0) += 1;
                }
            }
            _ => {
                let n = name(r);
                let p = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
                if root.join(&p).symlink_metadata().is_ok() {
                    continue;
                }
                let data: &[u8] = if r.chance(1, 4) { b"" } else { b"hello log\n" };
                if std::fs::write(root.join(&p), data).is_ok() {
                    if ignored(&p) {
                        *obs.entry("ignored_files").or_insert(0) += 1;
                    } else {
                        *obs.entry("kept_files").or_insert(0) += 1;
                        out.push(p.into());
                    }
                }
            }
        }
    }
}
fn path_of(s: &Source) -> PathBuf {
    match s {
        Source::Local(_, p) => p.clone(),
        Source::Remote(_, u) => PathBuf::from(u.as_str()),
    }
}

fn c11(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let top = c.dir();
    let mut contents = Vec::new();
    let mut expect_all: Vec<PathBuf> = Vec::new();
    let mut any_empty = false;
    for b in 0..r.range(1, 3) {
        let root = top.join(format!("tree{}", b));
        std::fs::create_dir(&root).unwrap();
        let mut want = Vec::new();
        let mut obs = BTreeMap::new();
        fill(&mut r, &root, "", 0, &mut want, &mut obs);
        if r.chance(1, 12) {
            // A deep chain of directories, and a file in some of them.
            let mut rel = String::from("chain");
            for i in 0..r.range(8, 60) {
                rel = format!("{}/{}{}", rel, gen::short_key(&mut r, 6).to_lowercase(), i);
                std::fs::create_dir_all(root.join(&rel)).unwrap();
                if r.chance(1, 3) {
                    let p = format!("{}/deep.log", rel);
                    std::fs::write(root.join(&p), b"hello log\n").unwrap();
                    want.push(p.into());
                }
            }
            let p = format!("{}/deepest.log", rel);
            std::fs::write(root.join(&p), b"hello log\n").unwrap();
            want.push(p.into());
            *obs.entry("deep_chains").or_insert(0) += 1;
        }
        if r.chance(1, 400) {
            // Very many files in one directory.
            let n = r.range(1000, 2500);
            std::fs::create_dir(root.join("crowd")).unwrap();
            for i in 0..n {
                let p = format!("crowd/worker-{}.log", i);
                std::fs::write(root.join(&p), b"").unwrap();
                want.push(p.into());
            }
            *obs.entry("crowded_directories").or_insert(0) += 1;
        }
        for (k, v) in obs {
            c.obs(k, v);
        }
        let mut given = root.to_str().unwrap().to_string();
        let slashes = *r.pick(&["", "", "/", "//"]);
        given.push_str(slashes);
        let content = match Content::from_input(Input::from_string(given.clone())) {
            Ok(x) => x,
            Err(e) => return viol("content", format!("{}: {:#}", given, e)),
        };
        let got = content.get_sources();
        c.note(format!("{:?}: expected {:?}", given, want));
        if want.is_empty() {
            any_empty = true;
            if let Ok(v) = got {
                return viol("extra", format!("a directory without relevant files has sources {:?}", v));
            }
            c.obs("empty_directories", 1);
            continue;
        }
        let got = match got {
            Ok(g) => g,
            Err(e) => return viol("sources", format!("{:#}", e)),
        };
        let norm = |p: &Path| -> PathBuf { p.components().collect() };
        let mut g: Vec<PathBuf> = got.iter().map(|s| norm(&path_of(s))).collect();
        let mut w: Vec<PathBuf> = want.iter().map(|p| norm(&root.join(p))).collect();
        g.sort();
        w.sort();
        if g != w {
            let extra: Vec<_> = g.iter().filter(|p| !w.contains(p)).collect();
            let missing: Vec<_> = w.iter().filter(|p| !g.contains(p)).collect();
            return viol("sources", format!("extra {:?}, missing {:?}, {} sources instead of {}", extra, missing, g.len(), w.len()));
        }
        for s in &got {
            let p = path_of(s);
            if let Some(ps) = p.to_str() {
                let rel = norm(&p).strip_prefix(norm(&root)).unwrap().to_str().unwrap().to_string();
                ensure!(s.get_relative().trim_start_matches('/') == rel, "relative", "{:?} given as {:?}: relative path {:?} instead of {:?}", ps, given, s.get_relative(), rel);
                ensure!(s.get_relative().len() - rel.len() <= 1, "relative", "{:?} given as {:?}: relative path {:?}", ps, given, s.get_relative());
                let want_name = IndexName::from_path(&rel);
                ensure!(IndexName::from_source(s) == want_name, "index-name", "{:?} given as {:?}: index {:?} instead of {:?}", ps, given, IndexName::from_source(s), want_name);
            } else {
                let _ = s.get_relative();
                let _ = s.is_json();
                let _ = format!("{}", s);
            }
        }
        c.obs("sources", got.len() as u64);
        if !slashes.is_empty() {
            c.obs("trailing_slash", 1);
        }
        c.distinct(format!("{:?}", want).as_bytes());
        c.sample(|| format!("{:?}", want));
        let times = if r.chance(1, 8) { 2 } else { 1 };
        for _ in 0..times {
            expect_all.extend(w.clone());
            contents.push(content.clone());
        }
    }
    if any_empty {
        return Ok(());
    }
    let groups = match Content::group_sources(&contents) {
        Ok(g) => g,
        Err(e) => return viol("group", format!("{:#}", e)),
    };
    let mut all: Vec<PathBuf> = Vec::new();
    for (name, sources) in &groups {
        for s in sources {
            ensure!(IndexName::from_source(s) == *name, "group-name", "{:?} is in group {:?}", s, name);
            all.push(path_of(s).components().collect());
        }
    }
    all.sort();
    expect_all.sort();
    ensure!(all == expect_all, "group", "grouping {} sources gives {} entries", expect_all.len(), all.len());
    c.obs("groups", groups.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C12
fn letters(r: &mut Rng, n: usize) -> String {
    gen::chars(r, gen::LOWER, n)
}
/// A piece of a name that is not hex-only.
fn stem(r: &mut Rng) -> String {
    let n = r.range(2, 9);
    let mut s = letters(r, n);
    if r.chance(1, 3) {
        let m = r.range(1, 5);
        s = format!("{}{}{}", s, r.pick(&["-", "_", "."]), letters(r, m));
    }
    if r.chance(1, 4) {
        s = s[..1].to_uppercase() + &s[1..];
    }
    // A letter that is not a hexadecimal digit, and not one of the special prefixes (digits may be added).
    if ["pvc", "ks", "pod", "qemu"].iter().any(|p| s.to_lowercase().starts_with(p)) {
        s = format!("w{}", s);
    }
    format!("{}w", s)
}
/// Put digits in a name.
fn digits(r: &mut Rng, s: &str) -> String {
    let mut out = String::new();
    for ch in s.chars() {
        out.push(ch);
        if r.chance(1, 5) {
            let n = r.range(1, 3);
            out.push_str(&gen::chars(r, "0123456789", n));
        }
    }
    out
}
fn rotation(r: &mut Rng) -> String {
    let date = format!("20{:02}{:02}{:02}", r.below(100), r.range(1, 12), r.range(1, 28));
    let dash = format!("20{:02}-{:02}-{:02}", r.below(100), r.range(1, 12), r.range(1, 28));
    let base = match r.below(7) {
        0 => String::new(),
        1 => format!(".{}", r.below(100)),
        2 => format!("-{}", date),
        3 => format!(".{}", dash),
        4 => format!("-{}", dash),
        5 => format!(".{}-{:02}", date, r.below(24)),
        _ => format!("_{}", r.below(10)),
    };
    let gz = if r.chance(1, 3) { ".gz" } else { "" };
    format!("{}{}", base, gz)
}
fn above(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('/');
    }
    for _ in 0..r.range(0, 4) {
        s.push_str(&match r.below(6) {
            0 => "qemu".to_string(),
            1 => "pod".to_string(),
            2 => "a1b2c3d".to_string(),
            3 => r.below(1000).to_string(),
            4 => "k8s_zuul-1".to_string(),
            _ => stem(r),
        });
        s.push('/');
    }
    s
}
/// Seven hexadecimal characters.
fn commit(r: &mut Rng) -> String {
    gen::chars(r, gen::HEX, 7)
}
fn idx(p: &str) -> String {
    IndexName::from_path(p).as_str().to_string()
}
fn uuid(r: &mut Rng) -> String {
    format!("{}-{}-{}", gen::chars(r, gen::HEX, 8), gen::chars(r, gen::HEX, 4), gen::chars(r, gen::HEX, 12))
}

/// Two paths that differ in letters, though one could take them for ids.
fn near_special(r: &mut Rng) -> (String, String, &'static str) {
    let two = |r: &mut Rng, f: &mut dyn FnMut(&mut Rng) -> String| {
        let alpha = |s: &str| s.chars().filter(|c| c.is_ascii_alphabetic()).collect::<String>();
        loop {
            let (a, b) = (f(r), f(r));
            if alpha(&a) != alpha(&b) {
                return (a, b);
            }
        }
    };
    let w = stem(r);
    let word = |r: &mut Rng| {
        let n = r.range(3, 6);
        format!("{}w", letters(r, n))
    };
    match r.below(10) {
        // Letters like those of a compressed or numbered file, without the dot.
        8 => {
            let s = *r.pick(&["gz", "gzip", ".gzw", "-gz", "_gz", ".gz.log", ".gzz"]);
            (format!("{}/{}.log", w, w), format!("{}/{}.log{}", w, w, s), "name like a compressed one")
        }
        // Names like instance- in qemu.
        9 => {
            let (a, b) = *r.pick(&[("install.log", "instances.log"), ("instance.log", "instances.log"), ("inst-a.log", "instance-a.log"), ("instances-x.log", "instances-y.log"), ("my-instance-x.log", "my-instance-y.log"), ("Instance-x.log", "Instance-y.log"), ("instance_x.log", "instance_y.log")]);
            (format!("qemu/{}", a), format!("qemu/{}", b), "file like qemu/instance-")
        }
        // Hexadecimal, but not of the length of a commit.
        0 | 1 => {
            let n = loop {
                let n = r.range(3, 14);
                if n != 7 {
                    break n;
                }
            };
            let (a, b) = two(r, &mut |r| gen::chars(r, "abcdef0123456789", n));
            (format!("{}/{}/{}.log", w, a, w), format!("{}/{}/{}.log", w, b, w), "hexadecimal directory")
        }
        // Of that length, but not hexadecimal.
        2 => {
            let (a, b) = two(r, &mut |r| {
                let k = r.below(7);
                let mut v: Vec<char> = gen::chars(r, "abcdef0123456789", 7).chars().collect();
                v[k] = *r.pick(&['g', 'z', 'h', 'x', 'A', 'F']);
                v.into_iter().collect()
            });
            (format!("{}/{}/{}.log", w, a, w), format!("{}/{}/{}.log", w, b, w), "seven letter directory")
        }
        // A file named like a commit.
        3 => {
            let (a, b) = two(r, &mut |r| gen::chars(r, "abcdef0123456789", 7));
            (format!("{}/{}", w, a), format!("{}/{}", w, b), "file named like a commit")
        }
        4 => {
            let (a, b) = two(r, &mut |r| word(r));
            let d = *r.pick(&["pods", "tripod", "Pod", "pod-x", "podw"]);
            (format!("{}/{}-{}.log", d, w, a), format!("{}/{}-{}.log", d, w, b), "directory like pod")
        }
        5 => {
            let (a, b) = two(r, &mut |r| word(r));
            let d = *r.pick(&["qemuw", "xqemu", "qemu-kvm", "Qemu"]);
            (format!("{}/instance-{}.log", d, a), format!("{}/instance-{}.log", d, b), "directory like qemu")
        }
        6 => {
            let (a, b) = two(r, &mut |r| word(r));
            let p = *r.pick(&["k8s-", "k8s", "xk8s_", "K8s_", "k8s_"]);
            // (the service of k8s_SERVICE-ID)
            (format!("{}/{}{}.log", w, p, a), format!("{}/{}{}.log", w, p, b), "file like k8s_")
        }
        _ => {
            let (a, b) = two(r, &mut |r| word(r));
            let p = *r.pick(&["pvc", "pvcs-", "pvc_", "xpvc-", "PVC-"]);
            (format!("{}/{}{}.log", w, p, a), format!("{}/{}{}.log", w, p, b), "file like pvc-")
        }
    }
}

fn c12(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    for _ in 0..10 {
        let dir = if r.chance(1, 8) { String::new() } else { stem(&mut r) };
        let file = format!("{}{}", stem(&mut r), r.pick(&[".log", ".txt", "", ".log.txt", ".json"]));
        let build = |r: &mut Rng, dir: &str, file: &str| -> String {
            let up = if dir.is_empty() { String::new() } else { above(r) };
            let d = digits(r, dir);
            let h = if !dir.is_empty() && r.chance(1, 4) { format!("{}/", commit(r)) } else { String::new() };
            let d = if d.is_empty() { String::new() } else { format!("{}/", d) };
            format!("{}{}{}{}{}", up, d, h, digits(r, file), rotation(r))
        };
        let plain = if dir.is_empty() { file.clone() } else { format!("{}/{}", dir, file) };
        let want = idx(&plain);
        let mut seen = Vec::new();
        for _ in 0..6 {
            let p = build(&mut r, &dir, &file);
            ensure!(idx(&p) == want, "same", "{:?} is named {:?} but {:?} is named {:?}", plain, want, p, idx(&p));
            c.obs("same_pairs", 1);
            if p.contains(".gz") {
                c.obs("compressed", 1);
            }
            seen.push(p);
        }
        // Other letters.
        for _ in 0..4 {
            let change = |r: &mut Rng, s: &str| -> String {
                let mut v: Vec<char> = s.chars().collect();
                // The last letter marks the stem as ordinary; .gz is a suffix.
                let pos: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphabetic()).collect();
                match r.below(5) {
                    3 => v.extend(r.pick(&["d", "x", "z", "gz", "log", "old"]).chars()),
                    4 => v.extend(r.pick(&[".xz", ".bz2", ".zst", ".old", ".log", ".txt", ".bak", "-gz", ".d", "_x", ".zip", ".lgz", ".tgz"]).chars()),
                    0 if pos.len() > 1 => {
                        let i = *r.pick(&pos[..pos.len() - 1]);
                        let o = v[i];
                        v[i] = loop {
                            let x = gen::chars(r, gen::LOWER, 1).chars().next().unwrap();
                            if x != o.to_ascii_lowercase() {
                                break x;
                            }
                        };
                    }
                    1 => {
                        let i = *r.pick(&pos);
                        v.insert(i, 'k');
                    }
                    _ => {
                        let i = *r.pick(&pos);
                        v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
                    }
                }
                v.into_iter().collect()
            };
            let which = r.below(if dir.is_empty() { 1 } else { 3 });
            let (d2, f2) = match which {
                0 => (dir.clone(), change(&mut r, &file)),
                1 => (change(&mut r, &dir), file.clone()),
                _ => (change(&mut r, &dir), change(&mut r, &file)),
            };
            let alpha = |s: &str| s.chars().filter(|c| c.is_ascii_alphabetic()).collect::<String>();
            if alpha(&d2) == alpha(&dir) && alpha(&f2) == alpha(&file) || [&d2, &f2].iter().any(|s| ["pvc", "ks", "pod", "qemu"].iter().any(|p| s.starts_with(p))) {
                continue;
            }
            let q = build(&mut r, &d2, &f2);
            ensure!(idx(&q) != want, "different", "{:?} and {:?} are both named {:?}", seen[0], q, want);
            c.obs("different_pairs", 1);
        }
        // A named directory against none.
        if !dir.is_empty() {
            ensure!(idx(&file) != want, "different", "{:?} and {:?} are both named {:?}", plain, file, want);
        }
        c.distinct(plain.as_bytes());
        c.sample(|| format!("{:?} = {:?}", want, seen));
    }
    // Names that resemble the special ones are ordinary names.
    for _ in 0..4 {
        let (x, y, kind) = near_special(&mut r);
        let p = format!("{}{}", above(&mut r), x);
        let q = format!("{}{}", above(&mut r), y);
        ensure!(idx(&p) != idx(&q), "near-special", "{}: {:?} and {:?} are both named {:?}", kind, p, q, idx(&p));
        c.obs("near_special", 1);
    }
    // Special families.
    let a1 = above(&mut r);
    let a2 = above(&mut r);
    let svc = stem(&mut r).replace(|c: char| !c.is_ascii_alphabetic(), "");
    let other = loop {
        let s = stem(&mut r).replace(|c: char| !c.is_ascii_alphabetic(), "");
        if s != svc {
            break s;
        }
    };
    let (svc, other) = match r.below(4) {
        0 => (format!("{}.{}", svc, other), other),
        1 => (format!("{}_{}", svc, other), format!("{}_{}", other, svc)),
        2 => (format!("{}.{}", svc, other), svc),
        _ => (svc, other),
    };
    let dn = |r: &mut Rng| loop {
        let d = stem(r);
        if d != "pod" && d != "qemu" {
            return d;
        }
    };
    let (u1, u2) = (uuid(&mut r), uuid(&mut r));
    let fams: Vec<(&str, String, String, String)> = vec![
        ("k8s", format!("{}{}/k8s_{}-{}.log", a1, dn(&mut r), svc, u1), format!("{}{}/k8s_{}-{}.txt.gz", a2, dn(&mut r), svc, u2), format!("{}{}/k8s_{}-{}.log", a1, dn(&mut r), other, u1)),
        ("pod", format!("{}pod/{}-{}.log", a1, svc, u1), format!("{}pod/{}-{}.txt", a2, svc, u2), format!("{}pod/{}-{}.log", a1, other, u1)),
        ("pvc", format!("{}{}/pvc-{}.txt", a1, dn(&mut r), u1), format!("{}{}/pvc-{}.log.gz", a2, dn(&mut r), u2), format!("{}{}/{}-{}.txt", a1, dn(&mut r), other, u1)),
        ("qemu", format!("{}qemu/instance-{}.log", a1, gen::chars(&mut r, gen::HEX, 8)), format!("{}qemu/instance-{}.log.txt.gz", a2, gen::chars(&mut r, gen::HEX, 8)), format!("{}qemu/{}-{}.log", a1, other, gen::chars(&mut r, gen::HEX, 8))),
    ];
    for (f, x, y, z) in fams {
        ensure!(idx(&x) == idx(&y), "family", "{}: {:?} is named {:?} but {:?} is named {:?}", f, x, idx(&x), y, idx(&y));
        ensure!(idx(&x) != idx(&z), "family-different", "{}: {:?} and {:?} are both named {:?}", f, x, z, idx(&x));
        c.obs("families", 1);
    }
    // Any string has a name.
    let odd = {
        let n = r.range(0, 12);
        gen::chars(&mut r, "/.a1-_é漢 \n\\gz", n)
    };
    let _ = idx(&odd);
    c.obs("odd_paths", 1);
    Ok(())
}

// ---------------------------------------------------------------- C25
fn c25(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let top = c.dir();
    let cwd = top.join("cwd");
    std::fs::create_dir(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    let res = c25_in(c, &mut r, &cwd);
    let _ = std::env::set_current_dir("/");
    res
}
fn c25_in(c: &mut Case, r: &mut Rng, cwd: &Path) -> V {
    let base = match r.below(22) {
        16 => format!("{}{}", gen::word(r), r.pick(&[".gz", ".log.gz", ".txt.1.gz", ".tar", ".0", ".1", ".log.0", "."])),
        17 => {
            // Almost a location.
            let w = gen::word(r);
            r.pick(&["HTTP://h/x", "Https://h.example.com/w", "httP://h/x", "http:/h/x", "https:/x", "ftp://h/x", "file://h/x", " http://h/x", "http//h/x", "xhttp://h/x", "httpx://h/w", "http:\\\\h"]).replace('w', &w)
        }
        18 => format!("{}/{}", gen::word(r), gen::word(r)),
        19 => format!("{}/../{}.log", gen::word(r), gen::word(r)),
        20 => format!("./{}", gen::word(r)),
        14 => format!("https:{}", gen::word(r)),
        15 => r.pick(&["https:", "https:x.log", "http:y", "http:.log", "ftp:z", "HTTP:", "file:x"]).to_string(),
        0 => "httpd.log".to_string(),
        1 => "https".to_string(),
        2 => "http".to_string(),
        3 => "http:".to_string(),
        4 => format!("http{}", gen::word(r)),
        5 => "http-errors".into(),
        6 => "with space.log".into(),
        7 => format!("é{}", gen::word(r)),
        8 => "-dash".into(),
        9 => format!("{}?x=1#f", gen::word(r)),
        10 => "https.example.com".into(),
        11 => "file.0".into(),
        _ => format!("{}.log", gen::word(r)),
    };
    // 1. Local paths.
    let abs = r.chance(1, 2);
    let given = if abs { cwd.join(&base).to_str().unwrap().to_string() } else { base.clone() };
    let what = *r.pick(&["file", "dir", "missing", "link-file", "link-dir", "broken", "fifo", "empty-dir", "slash-file"]);
    let p = cwd.join(&base);
    if base.contains('/') {
        // The directories on the way.
        for (i, x) in base.char_indices() {
            if x == '/' && i > 0 {
                let _ = std::fs::create_dir(cwd.join(&base[..i]));
            }
        }
        c.obs("nested_names", 1);
    }
    match what {
        "file" | "slash-file" => std::fs::write(&p, b"line one\nline two\n").unwrap(),
        "dir" => {
            std::fs::create_dir(&p).unwrap();
            std::fs::write(p.join("a.log"), b"x\n").unwrap();
        }
        "empty-dir" => std::fs::create_dir(&p).unwrap(),
        "link-file" => {
            std::fs::write(cwd.join("real"), b"x\n").unwrap();
            std::os::unix::fs::symlink(cwd.join("real"), &p).unwrap();
        }
        "link-dir" => {
            std::fs::create_dir(cwd.join("reald")).unwrap();
            std::os::unix::fs::symlink(cwd.join("reald"), &p).unwrap();
        }
        "broken" => std::os::unix::fs::symlink(cwd.join("nothing"), &p).unwrap(),
        "fifo" => {
            let cs = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            unsafe { libc::mkfifo(cs.as_ptr(), 0o600) };
        }
        _ => {}
    }
    let given = if what == "slash-file" { format!("{}/", given) } else { given };
    c.note(format!("local {:?} {}", given, what));
    let got = guard(|| Content::from_input(Input::from_string(given.clone())));
    let got = match got {
        Ok(g) => g,
        Err(p) => return viol("crash", format!("{:?} ({}): {}", given, what, p)),
    };
    c.obs(&format!("local_{}", what), 1);
    let want = match what {
        "file" | "link-file" => Some(Content::File(Source::Local(0, PathBuf::from(&given)))),
        "dir" | "empty-dir" | "link-dir" => Some(Content::Directory(Source::Local(0, PathBuf::from(&given)))),
        _ => None,
    };
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(g == w, "local", "{:?} ({}) becomes {:?} instead of {:?}", given, what, g, w),
        (Ok(g), None) => return viol("local", format!("{:?} ({}) becomes {:?}", given, what, g)),
        (Err(e), Some(w)) => return viol("local", format!("{:?} ({}) is refused ({:#}), expected {:?}", given, what, e, w)),
        (Err(_), None) => c.obs("local_refused", 1),
    }
    // 2. Discovery.
    if let Ok(content) = &got {
        let zero = format!("{}.0", given);
        let have = r.below(3);
        if matches!(content, Content::File(_)) {
            match have {
                0 => std::fs::write(cwd.join(&zero), b"old\n").unwrap(),
                1 => {
                    // Other names.
                    for x in [format!("{}.1", given), given.trim_end_matches(".gz").to_string() + ".0", given.trim_end_matches(".gz").to_string() + ".0.gz", format!("{}.0.gz", given), format!("{}0", given), format!("{}.00", given), format!("{}-0", given)] {
                        if x != zero && r.chance(1, 2) && !cwd.join(&x).exists() {
                            std::fs::write(cwd.join(&x), b"old\n").unwrap();
                        }
                    }
                    c.obs("other_baselines", 1);
                }
                _ => {}
            }
        }
        let b = match guard(|| content.discover_baselines()) {
            Ok(b) => b,
            Err(p) => return viol("crash", format!("discovery for {:?}: {}", given, p)),
        };
        match (matches!(content, Content::File(_)) && have == 0, b) {
            (true, Ok(v)) => {
                ensure!(v == vec![Content::File(Source::Local(0, PathBuf::from(&zero)))], "discovery", "baselines of {:?}: {:?}", given, v);
                c.obs("discovered", 1);
            }
            (true, Err(e)) => return viol("discovery", format!("baselines of {:?}: {:#}", given, e)),
            (false, Ok(v)) => return viol("discovery", format!("baselines of {:?}: {:?} though there is none", given, v)),
            (false, Err(_)) => c.obs("nothing_discovered", 1),
        }
    }
    // 3. URLs.
    for _ in 0..6 {
        let n = r.range(0, 10);
        let junk = gen::chars(r, "ab/.:@[]%?# \\é0-_~", n);
        let u = match r.below(8) {
            0 => format!("http://{}", junk),
            1 => format!("https://{}", junk),
            2 => format!("http://example.com/{}", junk),
            3 => format!("https://logs.example.com/{}/{}/", gen::word(r), gen::word(r)),
            4 => format!("http://localhost:{}/{}/job-output.txt", r.below(70000), gen::word(r)),
            5 => format!("https://[::1]/{}", junk),
            6 => format!("http://user:pw@h/{}?q={}", gen::word(r), junk),
            _ => format!("http://{}", gen::word(r)),
        };
        if u.contains("build") {
            continue;
        }
        c.note(format!("url {:?}", u));
        let got = match guard(|| Content::from_input(Input::from_string(u.clone()))) {
            Ok(g) => g,
            Err(p) => return viol("crash", format!("{:?}: {}", u, p)),
        };
        match (url::Url::parse(&u), got) {
            (Err(_), Err(_)) => c.obs("bad_urls", 1),
            (Err(e), Ok(g)) => return viol("url", format!("{:?} is not a URL ({}) but becomes {:?}", u, e, g)),
            (Ok(url), Ok(g)) => {
                let dir = url.as_str().ends_with('/');
                let w = if dir { Content::Directory(Source::Remote(0, url)) } else { Content::File(Source::Remote(0, url)) };
                ensure!(g == w, "url", "{:?} becomes {:?} instead of {:?}", u, g, w);
                c.obs(if dir { "url_directories" } else { "url_files" }, 1);
                if !dir {
                    match guard(|| g.discover_baselines().is_err()) {
                        Ok(true) => {}
                        Ok(false) => return viol("url-discovery", format!("{:?} has baselines", u)),
                        Err(p) => return viol("crash", format!("discovery for {:?}: {}", u, p)),
                    }
                    let s = g.get_sources();
                    ensure!(s.as_ref().map(|v| v.len()).unwrap_or(0) <= 1, "url-sources", "{:?} has sources {:?}", u, s);
                }
            }
            (Ok(_), Err(e)) => return viol("url", format!("{:?} is refused: {:#}", u, e)),
        }
    }
    c.distinct(format!("{} {}", given, what).as_bytes());
    c.sample(|| format!("{:?} {}", given, what));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C11",
            level: "exploration",
            rule: "a directory tree with files, directories, links, pipes and odd names whose source list was compared with the walk the harness did while building it",
            quick: 24000,
            thorough: 360000,
            shards: 8,
            run: c11,
            need: &["sources", "ignored_files", "kept_files", "symlinks", "fifos", "non_utf8", "trailing_slash", "groups", "empty_directories", "deep_chains", "crowded_directories"],
            env: no_env,
            assumptions: &["the list of ignored names is the one documented in is_valid at the pinned commit"],
        },
        Spec {
            id: "C12",
            level: "exploration",
            rule: "a log path whose variations and look-alikes were named",
            quick: 180000,
            thorough: 2700000,
            shards: 8,
            run: c12,
            need: &["same_pairs", "different_pairs", "families", "compressed"],
            env: no_env,
            assumptions: &[],
        },
        Spec {
            id: "C25",
            level: "exploration",
            rule: "an input string together with the file system state it was resolved in",
            quick: 60000,
            thorough: 1350000,
            shards: 8,
            run: c25,
            need: &["local_file", "local_dir", "local_refused", "discovered", "nothing_discovered", "bad_urls", "url_directories", "url_files"],
            env: no_env,
            assumptions: &["whether a string is a URL at all is decided by the url crate"],
        },
    ]
}
