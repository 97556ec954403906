//! C15, C16: the content cache.
use crate::c_archive::FileLimit;
use crate::fw::*;
use crate::gen;
use logreduce_cache::Cache;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::Path;
use url::Url;

fn fresh(c: &mut Case) -> std::path::PathBuf {
    let d = c.dir();
    for s in ["xdg", "home", "cwd"] {
        let _ = std::fs::create_dir_all(d.join(s));
    }
    std::env::set_var("XDG_CACHE_HOME", d.join("xdg"));
    std::env::set_var("HOME", d.join("home"));
    d
}
fn files_below(p: &Path, out: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let q = e.path();
            if q.is_dir() {
                files_below(&q, out);
            } else {
                out.push(q.display().to_string());
            }
        }
    }
}

/// The remote end: short reads, an error at some byte, a count of what was handed out.
struct Remote {
    data: Vec<u8>,
    pos: usize,
    max: usize,
    fail_at: Option<usize>,
    /// After the error: 0 fails again, 1 looks like the end, 2 goes on.
    after: usize,
    kind: std::io::ErrorKind,
    rng: Rng,
}
impl Read for Remote {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                match self.after {
                    1 => {
                        self.data.truncate(f);
                        self.fail_at = None;
                    }
                    2 => self.fail_at = None,
                    _ => {}
                }
                return Err(std::io::Error::new(self.kind, "remote failure"));
            }
        }
        let mut n = self.rng.range(1, self.max).min(buf.len()).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn remote(r: &mut Rng, data: &[u8], fail_at: Option<usize>) -> Remote {
    let max = *r.pick(&[1, 10, 1000, 65536, 1 << 20]);
    let max = if data.len() > 20000 { max.max(1000) } else { max };
    use std::io::ErrorKind::*;
    let kind = *r.pick(&[ConnectionReset, ConnectionReset, TimedOut, UnexpectedEof, WouldBlock, ConnectionAborted, BrokenPipe, InvalidData, Other]);
    let after = r.below(3);
    Remote { data: data.to_vec(), pos: 0, max, fail_at, after, kind, rng: Rng::new(r.u64()) }
}

fn content(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 50, 500, 4000, 33000, 70000, 150000]);
    let n = if n > 2 { r.range(n / 2, n) } else { n };
    match r.below(3) {
        0 => (0..n).map(|_| r.u64() as u8).collect(),
        1 => {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                v.extend_from_slice(gen::word(r).as_bytes());
                v.push(if r.chance(1, 6) { b'\n' } else { b' ' });
            }
            v.truncate(n);
            v
        }
        _ => vec![b'a'; n],
    }
}

fn some_url(r: &mut Rng) -> Url {
    let w = gen::word(r);
    let s = match r.below(5) {
        0 => format!("http://localhost/{}/{}", w, r.below(100)),
        1 => format!("https://logs.example.com:8080/a/b/{}?x={}", w, r.below(10)),
        2 => format!("http://h/{}/", w),
        3 => format!("http://h/%2e%2e/{}/..;/../{}", w, "x".repeat(r.range(1, 3000))),
        _ => format!("http://{}.org/{}", w.to_lowercase(), r.u64()),
    };
    Url::parse(&s).unwrap_or_else(|_| Url::parse("http://fallback/x").unwrap())
}

/// Read all of a reader in pieces; the bytes and whether it ended well.
fn drain(r: &mut Rng, rd: &mut impl Read, limit: usize) -> (Vec<u8>, Option<String>, bool) {
    let mut out = Vec::new();
    let size = *r.pick(&[1usize, 7, 512, 8192, 100000]);
    let size = if limit > 20000 { size.max(512) } else { size };
    let mut buf = vec![0u8; size];
    loop {
        if out.len() >= limit {
            return (out, None, false);
        }
        if r.chance(1, 20) {
            // A read into nothing is not the end.
            match rd.read(&mut []) {
                Ok(0) => {}
                Err(e) => return (out, Some(e.to_string()), false),
                Ok(_) => return (out, Some("read of an empty buffer returned data".into()), false),
            }
        }
        let n = buf.len().min(limit - out.len());
        match rd.read(&mut buf[..n]) {
            Ok(0) => return (out, None, true),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return (out, Some(e.to_string()), false),
        }
    }
}

fn lookup(c: &mut Case, cache: &Cache, base: &Url, url: &Url, data: &[u8], what: &str) -> Result<bool, Stop> {
    match cache.remote_get(base, url) {
        None => {
            c.obs("misses", 1);
            Ok(false)
        }
        Some(Err(e)) => viol("broken-hit", format!("{}: the lookup fails instead of missing: {:#}", what, e)),
        Some(Ok(mut rd)) => {
            let mut got = Vec::new();
            match rd.read_to_end(&mut got) {
                Err(e) => return viol("broken-hit", format!("{}: a hit serves {} of {} bytes and then fails: {}", what, got.len(), data.len(), e)),
                Ok(_) => ensure!(got == data, "partial-hit", "{}: a hit serves {} bytes (equal prefix {}) instead of {}", what, got.len(), got.iter().zip(data).take_while(|(a, b)| a == b).count(), data.len()),
            }
            c.obs("hits", 1);
            Ok(true)
        }
    }
}

/// A process that reads on demand: each byte asks for a step, and is answered by what came of it.
struct Peer {
    pid: libc::pid_t,
    ask: std::fs::File,
    answer: std::fs::File,
}
impl Peer {
    fn new(r: &mut Rng, cache: &Cache, base: &Url, url: &Url, data: &[u8]) -> Peer {
        use std::io::Write;
        use std::os::fd::FromRawFd;
        let pipe = || {
            let mut p = [0; 2];
            assert_eq!(unsafe { libc::pipe(p.as_mut_ptr()) }, 0);
            unsafe { (std::fs::File::from_raw_fd(p[0]), std::fs::File::from_raw_fd(p[1])) }
        };
        let (mut ask_r, ask_w) = pipe();
        let (ans_r, mut ans_w) = pipe();
        let rem = remote(r, data, None);
        let step = r.range(data.len() / 20 + 1, data.len() / 3 + 2);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            drop(ask_w);
            drop(ans_r);
            let mut rd = cache.remote_add(base, url, rem).ok();
            let mut seen = 0;
            let mut cmd = [0u8; 1];
            while let Ok(1) = ask_r.read(&mut cmd) {
                let mut buf = vec![0u8; step];
                let a = match (cmd[0], &mut rd) {
                    (b'q', _) => {
                        rd = None;
                        b'q'
                    }
                    (_, None) => b'n',
                    (_, Some(rd)) => {
                        let mut k = 0;
                        loop {
                            match rd.read(&mut buf[k..]) {
                                Ok(0) if k < step => break if data.len() == seen + k { b'.' } else { b'?' },
                                Ok(n) => {
                                    if !data[seen + k..].starts_with(&buf[k..k + n]) {
                                        break b'?';
                                    }
                                    k += n;
                                    if k == step {
                                        seen += k;
                                        break b'+';
                                    }
                                }
                                Err(_) => break b'!',
                            }
                        }
                    }
                };
                if ans_w.write_all(&[a]).is_err() {
                    break;
                }
            }
            unsafe { libc::_exit(0) };
        }
        Peer { pid, ask: ask_w, answer: ans_r }
    }
    fn step(&mut self, cmd: u8) -> u8 {
        use std::io::Write;
        let mut b = [0u8; 1];
        if self.ask.write_all(&[cmd]).is_err() || !matches!(self.answer.read(&mut b), Ok(1)) {
            return b'x';
        }
        b[0]
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}

/// Whether one of them cached the content.
fn processes(c: &mut Case, r: &mut Rng, cache: &Cache, base: &Url, url: &Url, variants: &[Vec<u8>]) -> Result<bool, Stop> {
    let mut peers: Vec<Option<Peer>> = variants.iter().map(|d| Some(Peer::new(r, cache, base, url, d))).collect();
    // Some of them stop early: dropped, or killed.
    let quits: Vec<Option<u8>> = variants.iter().map(|_| if r.chance(1, 3) { Some(*r.pick(b"qk")) } else { None }).collect();
    let check = |c: &mut Case, done: &[usize], what: &str| -> Result<bool, Stop> {
        match cache.remote_get(base, url) {
            None => {
                ensure!(done.is_empty(), "lost", "{}: a process read all, and nothing is cached", what);
                Ok(false)
            }
            Some(Err(e)) => viol("broken-hit", format!("{}: the lookup fails instead of missing: {:#}", what, e)),
            Some(Ok(mut rd)) => {
                let mut got = Vec::new();
                if let Err(e) = rd.read_to_end(&mut got) {
                    return viol("broken-hit", format!("{}: a hit serves {} bytes and then fails: {}", what, got.len(), e));
                }
                ensure!(done.iter().any(|k| variants[*k] == got), "partial-hit", "{}: a hit serves {} bytes, which are none of the contents that were read to the end ({:?})", what, got.len(), done.iter().map(|k| variants[*k].len()).collect::<Vec<_>>());
                c.obs("process_hits", 1);
                Ok(true)
            }
        }
    };
    let mut done: Vec<usize> = Vec::new();
    let mut live: Vec<usize> = (0..peers.len()).collect();
    let mut order = Vec::new();
    while !live.is_empty() {
        let k = *r.pick(&live);
        order.push(k as u8);
        if r.chance(1, 6) {
            if let Some(q) = quits[k] {
                if q == b'q' {
                    peers[k].as_mut().unwrap().step(b'q');
                } else {
                    peers[k] = None;
                }
                live.retain(|x| *x != k);
                check(c, &done, "a process gave up")?;
                c.obs("process_quits", 1);
                continue;
            }
        }
        match peers[k].as_mut().unwrap().step(b'r') {
            b'+' => {}
            b'.' => {
                live.retain(|x| *x != k);
                done.push(k);
                check(c, &done, "a process is done")?;
            }
            a => return viol("process", format!("process {} of {}: the read ends with {:?}, others done: {:?}", k, peers.len(), a as char, done)),
        }
        if r.chance(1, 10) {
            check(c, &done, "processes under way")?;
        }
    }
    c.distinct(&order);
    c.obs("process_steps", order.len() as u64);
    check(c, &done, "all processes are done")
}

fn c15(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let _d = fresh(c);
    let cache = match Cache::new() {
        Ok(c) => c,
        Err(e) => return viol("cache", format!("{:#}", e)),
    };
    let base = some_url(&mut r);
    let url = some_url(&mut r);
    let data = content(&mut r);
    let rounds = r.range(0, 3);
    for _ in 0..rounds {
        let at = match r.below(4) {
            0 => 0,
            1 => data.len(),
            2 => data.len().saturating_sub(r.range(1, 9)),
            _ => r.below(data.len() + 1),
        };
        let kind = *r.pick(&["early-drop", "remote-error", "write-failure", "process-death", "concurrent", "processes", "forget"]);
        c.note(format!("{} at {} of {}", kind, at, data.len()));
        c.obs(&format!("fault_{}", kind), 1);
        let mut published = false;
        match kind {
            "early-drop" | "forget" => {
                let rem = remote(&mut r, &data, None);
                match cache.remote_add(&base, &url, rem) {
                    Err(e) => return viol("add", format!("caching fails: {:#}", e)),
                    Ok(mut rd) => {
                        let (got, err, _) = drain(&mut r, &mut rd, at);
                        ensure!(err.is_none() && got == data[..at], "pass-through", "{} bytes wanted: got {} ({:?})", at, got.len(), err);
                        if kind == "forget" {
                            std::mem::forget(rd);
                        }
                    }
                }
            }
            "remote-error" => {
                let rem = remote(&mut r, &data, Some(at));
                match cache.remote_add(&base, &url, rem) {
                    Err(e) => return viol("add", format!("caching fails: {:#}", e)),
                    Ok(mut rd) => {
                        let (got, err, end) = drain(&mut r, &mut rd, usize::MAX);
                        ensure!(got == data[..at], "pass-through", "failing remote: got {} bytes instead of {}", got.len(), at);
                        ensure!(err.is_some() && !end, "swallowed", "the failure of the remote after {} of {} bytes looks like its end", at, data.len());
                        if r.chance(1, 2) {
                            // The caller may try again.
                            let limit = *r.pick(&[10, usize::MAX]);
                            let _ = drain(&mut r, &mut rd, limit);
                        }
                    }
                }
            }
            "write-failure" => {
                let rem = remote(&mut r, &data, None);
                let lim = if r.chance(1, 2) { r.below(40) } else { r.below(data.len() + 50) };
                let _l = FileLimit::new(lim as u64);
                if let Ok(mut rd) = cache.remote_add(&base, &url, rem) {
                    let (got, err, end) = drain(&mut r, &mut rd, usize::MAX);
                    ensure!(data.starts_with(&got), "pass-through", "other bytes under a write failure");
                    if end {
                        ensure!(got == data, "pass-through", "end after {} of {} bytes under a write failure", got.len(), data.len());
                        published = true;
                    }
                    if err.is_some() && r.chance(1, 2) {
                        let (more, _, _) = drain(&mut r, &mut rd, usize::MAX);
                        c.obs("reads_after_write_failure", more.len().min(1) as u64);
                    }
                    c.obs(if err.is_some() { "write_failures_reported" } else { "write_limit_not_reached" }, 1);
                }
            }
            "process-death" => {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    let rem = remote(&mut r, &data, None);
                    if let Ok(mut rd) = cache.remote_add(&base, &url, rem) {
                        let mut buf = vec![0u8; 4096];
                        let mut n = 0;
                        while n < at {
                            let k = buf.len().min(at - n);
                            match rd.read(&mut buf[..k]) {
                                Ok(0) | Err(_) => break,
                                Ok(x) => n += x,
                            }
                        }
                    }
                    unsafe { libc::_exit(0) };
                }
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
            }
            "processes" => {
                // Readers of the same location in processes of their own.
                let r2 = &mut r;
                let variants: Vec<Vec<u8>> = (0..r2.range(2, 3)).map(|k| if k == 0 || r2.chance(1, 2) { data.clone() } else { content(r2) }).collect();
                published = processes(c, &mut r, &cache, &base, &url, &variants)?;
                if published {
                    if let Err(e) = cache.remote_drop(&base, &url) {
                        return viol("drop", format!("{:#}", e));
                    }
                }
            }
            _ => {
                // Two readers of the same location at the same time.
                let a = cache.remote_add(&base, &url, remote(&mut r, &data, None));
                let b = cache.remote_add(&base, &url, remote(&mut r, &data, None));
                let mut rds: Vec<_> = [a, b].into_iter().filter_map(|x| x.ok()).collect();
                ensure!(!rds.is_empty(), "add", "caching fails for both concurrent readers");
                let mut outs: Vec<Vec<u8>> = vec![Vec::new(); rds.len()];
                let mut live: Vec<usize> = (0..rds.len()).collect();
                while !live.is_empty() {
                    let k = *r.pick(&live);
                    let mut buf = vec![0u8; r.range(1, 5000)];
                    match rds[k].read(&mut buf) {
                        Ok(0) => {
                            live.retain(|x| *x != k);
                            // As soon as one is done, a lookup is complete or a miss.
                            lookup(c, &cache, &base, &url, &data, "one of two concurrent readers done")?;
                        }
                        Ok(n) => outs[k].extend_from_slice(&buf[..n]),
                        Err(e) => return viol("concurrent", format!("a concurrent reader fails: {}", e)),
                    }
                    if r.chance(1, 30) {
                        lookup(c, &cache, &base, &url, &data, "concurrent readers under way")?;
                    }
                }
                for o in &outs {
                    ensure!(*o == data, "pass-through", "a concurrent reader got {} of {} bytes", o.len(), data.len());
                }
                published = true;
            }
        }
        let hit = lookup(c, &cache, &base, &url, &data, &format!("after {} at {} of {} bytes", kind, at, data.len()))?;
        c.distinct(format!("{} {} {:?}", kind, at, &data).as_bytes());
        if kind == "concurrent" && published {
            ensure!(hit, "lost", "nothing is cached after two complete concurrent reads");
        }
        if hit {
            // Start over, as the application does to refresh.
            if let Err(e) = cache.remote_drop(&base, &url) {
                return viol("drop", format!("{:#}", e));
            }
            ensure!(cache.remote_get(&base, &url).is_none(), "drop", "a dropped entry is still there");
        }
    }
    // The location can be cached, and is then served completely.
    let rem = remote(&mut r, &data, None);
    match cache.remote_add(&base, &url, rem) {
        Err(e) => return viol("again", format!("after {} interruptions the location cannot be cached: {:#}", rounds, e)),
        Ok(mut rd) => {
            let (got, err, end) = drain(&mut r, &mut rd, usize::MAX);
            ensure!(err.is_none() && end && got == data, "pass-through", "{} of {} bytes, {:?}", got.len(), data.len(), err);
            if r.chance(1, 2) {
                let mut b = [0u8; 8];
                ensure!(matches!(rd.read(&mut b), Ok(0)), "after-end", "reading on after the end");
            }
        }
    }
    ensure!(lookup(c, &cache, &base, &url, &data, "after a complete read")?, "lost", "nothing is cached after a complete read of {} bytes", data.len());
    // Another process (a new cache object) sees it too.
    let other = Cache::new().unwrap();
    ensure!(lookup(c, &other, &base, &url, &data, "second cache object")?, "lost", "another cache object misses");
    c.obs("complete_reads", 1);
    c.obs_max("content_bytes", data.len() as u64);
    c.distinct(&data);
    c.sample(|| format!("{} after {} interruptions, {} bytes", url, rounds, data.len()));
    Ok(())
}

// ---------------------------------------------------------------- C16
fn url_family(r: &mut Rng) -> Vec<Url> {
    let w = gen::word(r).to_lowercase();
    let mut v: Vec<String> = vec![
        format!("http://h/{}", w),
        format!("http://h/{}/", w),
        format!("https://h/{}", w),
        format!("http://h:8080/{}", w),
        format!("http://h/{}?", w),
        format!("http://h/{}#", w),
        format!("http://h/{}?a", w),
        format!("http://h/{}?a=1&b=2", w),
        format!("http://h/{}?b=2&a=1", w),
        format!("http://h/{}%20", w),
        format!("http://h/{}%2F", w),
        format!("http://h/{}", w.to_uppercase()),
        format!("http://h/{}/../x", w),
        format!("http://h/..%2f..%2f{}", w),
        format!("http://h//{}", w),
        format!("http://h/{};{}", w, w),
        format!("http://user@h/{}", w),
        format!("http://h/{}", w.repeat(600)),
        format!("http://h/{}x", w.repeat(600)),
        format!("http://h/{}\u{e9}", w),
        format!("http://h/{}e", w),
        "http://h/".into(),
        "http://h/0".into(),
        "http://h/2".into(),
        "http://h/12".into(),
        "http://h/1/2".into(),
    ];
    r.shuffle(&mut v);
    let mut out: Vec<Url> = v.iter().map(|s| Url::parse(s).unwrap()).collect();
    out.dedup();
    let n = r.range(2, 8);
    out.truncate(n);
    let mut seen = BTreeSet::new();
    out.retain(|u| seen.insert(u.to_string()));
    out
}

fn c16(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let d = fresh(c);
    std::env::set_current_dir(d.join("cwd")).unwrap();
    let res = c16_in(c, &mut r, &d);
    let _ = std::env::set_current_dir("/");
    res
}
/// Very many locations, none taken for another.
fn crowd(c: &mut Case, r: &mut Rng) -> V {
    let cache = Cache::new().expect("cache");
    let base = some_url(r);
    let front = gen::word(r);
    let n = 60000u64;
    for i in 0..n {
        let u = Url::parse(&format!("http://h/{}/{}", front, i)).unwrap();
        let seen = cache.head(&base, &u);
        ensure!(seen.is_none(), "alias", "{} of {} locations are stored, and the next one, {}, has the answer {:?} already", i, n, u, seen);
        let v = i % 3 == 0;
        if let Err(e) = cache.head_set(&base, &u, v) {
            return viol("head", format!("{:#}", e));
        }
        if i % 16 == 0 {
            ensure!(cache.head(&base, &u) == Some(v), "head", "availability of {}", u);
        }
    }
    c.obs("crowd_locations", n);
    c.distinct(front.as_bytes());
    Ok(())
}

fn c16_in(c: &mut Case, r: &mut Rng, d: &Path) -> V {
    if c.idx % 600 == 7 {
        return crowd(c, r);
    }
    let urls = url_family(r);
    let mut cache = Cache::new().expect("cache");
    let mut content: BTreeMap<(usize, usize), Vec<u8>> = BTreeMap::new();
    let mut listing: BTreeMap<usize, Vec<Url>> = BTreeMap::new();
    let mut heads: BTreeMap<(usize, usize), bool> = BTreeMap::new();
    let steps = r.range(10, 60);
    let mut log: Vec<String> = Vec::new();
    for step in 0..steps {
        let (b, u) = (r.below(urls.len()), r.below(urls.len()));
        if r.chance(1, 15) {
            cache = Cache::new().expect("cache");
        }
        let op = r.below(10);
        log.push(format!("{} {} {}", op, b, u));
        match op {
            0 | 1 => {
                if !content.contains_key(&(b, u)) {
                    let n = r.below(60);
                    let data = format!("{} {} {} {}", step, b, u, "z".repeat(n)).into_bytes();
                    match cache.remote_add(&urls[b], &urls[u], std::io::Cursor::new(data.clone())) {
                        Err(e) => return viol("add", format!("content of {} on base {}: {:#}", urls[u], urls[b], e)),
                        Ok(mut rd) => {
                            let mut got = Vec::new();
                            if let Err(e) = rd.read_to_end(&mut got) {
                                return viol("add", format!("{}", e));
                            }
                            ensure!(got == data, "add", "reading while caching gives other bytes");
                        }
                    }
                    content.insert((b, u), data);
                    c.obs("content_adds", 1);
                }
            }
            2 | 3 => {
                if !listing.contains_key(&u) {
                    let n = if r.chance(1, 12) { r.range(1000, 6000) } else { *r.pick(&[0usize, 1, 3, 30, 300]) };
                    let l: Vec<Url> = (0..n).map(|i| if r.chance(1, 3) { r.pick(&urls).clone() } else { Url::parse(&format!("http://h/l/{}/{}?q={}", i, gen::word(r), r.below(9))).unwrap() }).collect();
                    if let Err(e) = cache.httpdir_add(&urls[u], &l) {
                        return viol("listing-add", format!("{:#}", e));
                    }
                    listing.insert(u, l);
                    c.obs("listing_adds", 1);
                }
            }
            4 | 5 => {
                if !heads.contains_key(&(b, u)) {
                    let v = r.chance(1, 2);
                    match cache.head_set(&urls[b], &urls[u], v) {
                        Ok(x) => ensure!(x == v, "head", "storing {} returns {}", v, x),
                        Err(e) => return viol("head", format!("{:#}", e)),
                    }
                    heads.insert((b, u), v);
                    c.obs("head_sets", 1);
                }
            }
            6 => {
                if let Err(e) = cache.remote_drop(&urls[b], &urls[u]) {
                    return viol("drop", format!("dropping {} content: {:#}", if content.contains_key(&(b, u)) { "a" } else { "a missing" }, e));
                }
                c.obs(if content.remove(&(b, u)).is_some() { "content_drops" } else { "missing_drops" }, 1);
            }
            7 => {
                if let Err(e) = cache.httpdir_drop(&urls[u]) {
                    return viol("drop", format!("dropping {} listing: {:#}", if listing.contains_key(&u) { "a" } else { "a missing" }, e));
                }
                c.obs(if listing.remove(&u).is_some() { "listing_drops" } else { "missing_drops" }, 1);
            }
            _ => {}
        }
        // Compare a few entries, and everything from time to time.
        let all = r.chance(1, 8) || step + 1 == steps;
        for bb in 0..urls.len() {
            for uu in 0..urls.len() {
                if !all && !((bb, uu) == (b, u) || r.chance(1, 20)) {
                    continue;
                }
                c.note_last(&log);
                let want = content.get(&(bb, uu));
                match (cache.remote_get(&urls[bb], &urls[uu]), want) {
                    (None, None) => {}
                    (Some(Ok(mut rd)), Some(w)) => {
                        let mut got = Vec::new();
                        let e = rd.read_to_end(&mut got);
                        ensure!(e.is_ok() && got == *w, "content", "content of {} on base {}: {:?} instead of {:?}", urls[uu], urls[bb], String::from_utf8_lossy(&got), String::from_utf8_lossy(w));
                    }
                    (Some(Err(e)), _) => return viol("content", format!("{:#}", e)),
                    (Some(Ok(_)), None) => return viol("alias", format!("content of {} on base {} appears though never added or dropped", urls[uu], urls[bb])),
                    (None, Some(_)) => return viol("lost", format!("content of {} on base {} is gone", urls[uu], urls[bb])),
                }
                let want = heads.get(&(bb, uu)).copied();
                let got = cache.head(&urls[bb], &urls[uu]);
                ensure!(got == want, "head", "availability of {} on base {}: {:?} instead of {:?}", urls[uu], urls[bb], got, want);
                c.obs("lookups", 2);
            }
            if all || bb == u {
                match (cache.httpdir_get(&urls[bb]), listing.get(&bb)) {
                    (None, None) => {}
                    (Some(Ok(l)), Some(w)) => ensure!(l == *w, "listing", "listing of {}: {} entries instead of {}", urls[bb], l.len(), w.len()),
                    (Some(Ok(_)), None) => return viol("alias", format!("a listing of {} appears", urls[bb])),
                    (Some(Err(e)), _) => return viol("listing", format!("{:#}", e)),
                    (None, Some(_)) => return viol("lost", format!("the listing of {} is gone", urls[bb])),
                }
                c.obs("lookups", 1);
            }
        }
    }
    // Where did it write?
    let mut f = Vec::new();
    files_below(d, &mut f);
    let inside = d.join("xdg/logreduce").display().to_string() + "/";
    for p in &f {
        ensure!(p.starts_with(&inside), "outside", "the cache wrote {:?}", p);
    }
    c.obs("cache_files_seen", f.len() as u64);
    c.distinct(format!("{:?}{:?}", urls, log).as_bytes());
    c.sample(|| format!("{} steps over {:?}", steps, urls.iter().map(|u| u.as_str().chars().take(60).collect::<String>()).collect::<Vec<_>>()));
    Ok(())
}
impl<'a> Case<'a> {
    fn note_last(&mut self, log: &[String]) {
        self.notes.clear();
        self.notes.push(format!("ops (kind base url): {}", log.join("; ")));
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C15",
            level: "fault_enumeration",
            rule: "a content and a sequence of interruptions of its caching (early end, remote error, write failure, process death, concurrency), each followed by lookups",
            quick: 16000,
            thorough: 240000,
            shards: 8,
            run: c15,
            need: &["hits", "misses", "fault_early-drop", "fault_remote-error", "fault_write-failure", "fault_process-death", "fault_concurrent", "fault_processes", "process_hits", "process_quits", "process_steps", "write_failures_reported", "complete_reads"],
            env: no_env,
            assumptions: &["process death is a forked process that exits without running destructors", "a concurrent second writer may be refused"],
        },
        Spec {
            id: "C16",
            level: "exploration",
            rule: "a history of add, drop and lookup operations over look-alike locations compared with a map",
            quick: 1800,
            thorough: 40000,
            shards: 8,
            run: c16,
            need: &["lookups", "content_adds", "content_drops", "listing_adds", "listing_drops", "head_sets", "missing_drops", "cache_files_seen", "crowd_locations"],
            env: no_env,
            assumptions: &["availability answers are stored only on a miss, as the application does"],
        },
    ]
}
