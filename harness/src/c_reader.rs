//! C01, C02: the line reader.
use crate::alloc;
use crate::fw::*;
use crate::refmodel;
use logreduce_iterator::BytesLines;
use std::io::Read;

/// A reader that hands out the data in prescribed pieces and fails at prescribed reads.
pub struct CutReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub cuts: Cuts,
    /// Read numbers (0-based) that fail.
    pub fail: Vec<(usize, std::io::ErrorKind)>,
    pub reads: usize,
    pub eof_reads: usize,
    pub failed: usize,
}
#[derive(Clone)]
pub enum Cuts {
    Whole,
    Fixed(usize),
    Random(Rng, usize),
    /// The absolute offsets at which a read ends.
    At(Vec<usize>),
}
impl CutReader {
    pub fn new(data: Vec<u8>, cuts: Cuts) -> CutReader {
        CutReader { data, pos: 0, cuts, fail: Vec::new(), reads: 0, eof_reads: 0, failed: 0 }
    }
}
impl Read for CutReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.reads;
        self.reads += 1;
        if let Some((_, kind)) = self.fail.iter().find(|f| f.0 == n) {
            self.failed += 1;
            return Err(std::io::Error::new(*kind, format!("injected {}", n)));
        }
        let left = self.data.len() - self.pos;
        let want = match &mut self.cuts {
            Cuts::Whole => left,
            Cuts::Fixed(n) => *n,
            Cuts::Random(r, n) => 1 + r.below(*n),
            Cuts::At(offsets) => offsets.iter().find(|o| **o > self.pos).map(|o| o - self.pos).unwrap_or(left),
        };
        let n = want.min(left).min(buf.len());
        if n == 0 {
            self.eof_reads += 1;
        }
        // Poison what is not data: a reader may use the buffer as it likes.
        for b in buf[n..].iter_mut().take(64) {
            *b = b'#';
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Text with the reader's special characters over-represented.
pub fn soup(r: &mut Rng, len: usize) -> Vec<u8> {
    let style = r.below(5);
    (0..len)
        .map(|_| match style {
            0 => *r.pick(b"a\\n\n"),
            1 => *r.pick(b"ab\\n\n\",[]{}"),
            2 => *r.pick(b"ab \\n\n\n\n\r\t\"x0"),
            3 => {
                if r.chance(1, 6) {
                    *r.pick(b"\n\\\",[]{}\0\r")
                } else {
                    r.u64() as u8
                }
            }
            _ => {
                if r.chance(1, 20) {
                    *r.pick(b"\n\\")
                } else {
                    *r.pick(b"abcdefn {}:,")
                }
            }
        })
        .collect()
}

/// A filler of exactly `n` bytes that contains no separator.
fn filler(r: &mut Rng, n: usize) -> Vec<u8> {
    let with_escapes = r.chance(1, 3);
    let mut v: Vec<u8> = Vec::with_capacity(n);
    while v.len() < n {
        if with_escapes && n - v.len() >= 2 && r.chance(1, 50) {
            v.push(b'\\');
            v.push(*r.pick(b"\\tx\"r"));
        } else {
            v.push(*r.pick(b"abcdefgnxyz0123456789 "));
        }
    }
    v
}

/// Pieces whose sizes are around the limits of the reader.
fn long_stream(r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.range(1, 7) {
        let n = match r.below(9) {
            0 => r.range(5990, 6010),
            1 => r.range(8180, 8200),
            2 => 6000,
            3 => r.range(6000 + 8180, 6000 + 8200),
            4 => r.range(16370, 16400),
            5 => r.range(1, 40),
            6 => r.range(8192 * 2 - 3, 8192 * 4 + 3),
            7 => r.range(1, 9000),
            _ => r.range(1, 200),
        };
        v.extend(filler(r, n));
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            match r.below(8) {
                0 | 1 => v.extend(b"\\n"),
                2 => v.extend(b","),
                3 => v.extend(b"\\\n"),
                4 => v.extend(b"\\\\n"),
                _ => v.extend(b"\n"),
            }
        }
    }
    if r.chance(1, 2) {
        v.extend(b"last");
    }
    v
}

fn cuts_for(r: &mut Rng, len: usize) -> Cuts {
    match r.below(8) {
        0 => Cuts::Whole,
        1 => Cuts::Fixed(1),
        2 => Cuts::Fixed(*r.pick(&[2, 3, 5, 7, 100, 4096, 8191, 8192])),
        3 => Cuts::Random(r.clone(), 8192),
        4 => Cuts::Random(r.clone(), 64),
        5 => {
            let mut at: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(len + 1)).collect();
            at.sort();
            Cuts::At(at)
        }
        6 => Cuts::At(vec![*r.pick(&[5999, 6000, 6001, 6002, 8191])]),
        _ => Cuts::Random(r.clone(), 6100),
    }
}

fn show(p: &(Vec<u8>, usize)) -> String {
    let s = p.0.escape_ascii().to_string();
    if s.len() > 120 {
        format!("({}...[{} bytes], line {})", &s[..100], p.0.len(), p.1)
    } else {
        format!("({}, line {})", s, p.1)
    }
}

fn compare(got: &[(Vec<u8>, usize)], want: &[(Vec<u8>, usize)]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) if g == w => {}
            (g, w) => {
                return Err(format!(
                    "piece {} of {}: got {} want {} (got {} pieces)",
                    i,
                    want.len(),
                    g.map(show).unwrap_or("nothing".into()),
                    w.map(show).unwrap_or("nothing".into()),
                    got.len()
                ))
            }
        }
    }
    Ok(())
}

fn check_stream(c: &mut Case, data: &[u8], json: bool, cuts: Cuts) -> V {
    let want = refmodel::split(data, json);
    let mut rd = CutReader::new(data.to_vec(), cuts);
    let mut got = Vec::new();
    {
        let mut it = BytesLines::new(&mut rd, json);
        // More items than bytes cannot be right: do not loop for ever.
        while got.len() <= data.len() + 10 {
            match it.next() {
                None => break,
                Some(Ok((b, n))) => got.push((b.to_vec(), n)),
                Some(Err(e)) => return viol("reader-error", format!("error {} on a reader that never fails", e)),
            }
        }
        for _ in 0..2 {
            if let Some(Ok((b, n))) = it.next() {
                return viol("reader-resumes", format!("a piece after the end: {}", show(&(b.to_vec(), n))));
            }
        }
    }
    let reads = rd.reads as u64;
    if let Err(e) = compare(&got, &want) {
        let txt = data.escape_ascii().to_string();
        c.note(format!("json={} data={}", json, &txt[..txt.len().min(3000)]));
        return viol("reader-pieces", e);
    }
    c.obs("pieces", got.len() as u64);
    c.obs("reads", reads);
    c.obs("bytes", data.len() as u64);
    c.obs_max("longest_stream_bytes", data.len() as u64);
    let dropped = data.split(|b| *b == b'\n').filter(|l| l.len() > 6000).count();
    c.obs("overlong_lines", dropped as u64);
    Ok(())
}

fn c01(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    if c.idx % 500 == 7 {
        // Many lines: the numbers go on past any small counter.
        let lines = r.range(65_536, 150_000);
        let mut d = Vec::with_capacity(lines * 5);
        for i in 0..lines {
            match r.below(200) {
                0 => {}
                1 => d.extend(b"sub\\nsub"),
                2 => d.extend(b"{a,b}"),
                3 if r.chance(1, 50) => {
                    let n = r.range(6001, 140_000);
                    d.extend(filler(&mut r, n));
                }
                _ => d.extend((i % 1000).to_string().bytes()),
            }
            d.push(b'\n');
        }
        let json = r.chance(1, 2);
        let cuts = Cuts::Random(r.clone(), *r.pick(&[8192, 5000, 100_000]));
        check_stream(c, &d, json, cuts)?;
        c.obs("streams_many_lines", 1);
        c.obs_max("most_lines", lines as u64);
        return Ok(());
    }
    match c.idx % 4 {
        // Short strings, every way to cut them in two, both modes.
        0 => {
            for _ in 0..6 {
                let n = r.range(0, 14);
                let d = soup(&mut r, n);
                for json in [false, true] {
                    for at in 0..=d.len() {
                        check_stream(c, &d, json, Cuts::At(vec![at]))?;
                    }
                    check_stream(c, &d, json, Cuts::Fixed(1))?;
                }
                c.obs("streams_all_cuts", 1);
                if d.len() > 3 {
                    c.distinct(&d);
                }
            }
        }
        1 => {
            for _ in 0..4 {
                let n = *r.pick(&[50, 200, 1000, 9000, 20000]);
                let n = r.range(0, n);
                let d = soup(&mut r, n);
                let json = r.chance(1, 2);
                let cuts = cuts_for(&mut r, d.len());
                check_stream(c, &d, json, cuts)?;
                c.distinct(&d);
            }
        }
        2 => {
            let d = long_stream(&mut r);
            let json = r.chance(1, 2);
            for _ in 0..3 {
                let cuts = cuts_for(&mut r, d.len());
                check_stream(c, &d, json, cuts)?;
            }
            c.obs("streams_long", 1);
            c.distinct(&d);
        }
        // A long piece followed by separators, cut around the separator.
        _ => {
            let n = *r.pick(&[5998, 5999, 6000, 6001, 6002, 8190, 8191, 8192, 8193, 14191, 14192, 14193, 16384, 24576]);
            let mut d = Vec::new();
            if r.chance(1, 2) {
                d.extend(b"first\n");
            }
            let long_start = d.len();
            d.extend(filler(&mut r, n));
            let sep_at = d.len();
            d.extend(*r.pick(&[&b"\\n"[..], b"\n", b"\\\n", b"\n\n", b"\\n\\n", b"\\\\n", b"\\\\\n", b",", b"\\n\n"]));
            let m = r.range(0, 30);
            d.extend(soup(&mut r, m));
            d.extend(b"\nnext\nthen\\nsub\nend");
            let json = r.chance(1, 3);
            for at in sep_at - 1..(sep_at + 4).min(d.len()) {
                check_stream(c, &d, json, Cuts::At(vec![at]))?;
                check_stream(c, &d, json, Cuts::At(vec![long_start + 6001, at]))?;
                check_stream(c, &d, json, Cuts::At(vec![long_start + 3000, long_start + 6000, at, at + 1, at + 2]))?;
            }
            c.obs("streams_boundary", 1);
            c.distinct(&d);
        }
    }
    c.sample(|| format!("{} streams so far in this shard", 1));
    Ok(())
}

// ---------------------------------------------------------------- C02

/// A reader that repeats a pattern up to a size, without holding it.
struct Repeat {
    pattern: &'static [u8],
    off: usize,
    left: usize,
    max_read: usize,
    reads: usize,
}
impl Read for Repeat {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        let n = buf.len().min(self.left).min(self.max_read);
        for b in &mut buf[..n] {
            *b = self.pattern[self.off];
            self.off = (self.off + 1) % self.pattern.len();
        }
        self.left -= n;
        Ok(n)
    }
}

const PATTERNS: &[(&[u8], bool)] = &[
    (b"\n", false),
    (b"\n", true),
    (b"\\n", false),
    (b"\\n\n", true),
    (b",", true),
    (b"[]{}", true),
    (b"x", false),
    (b"x", true),
    (b"\\x", false),
    (b"\"", true),
    (b"\\\\", false),
    (b"a\n", false),
    (b"\\n\\n\\n\n\n", false),
    (b",\n", true),
    (b"\0", false),
    (b"\\\n", false),
];

const HEAP_BOUND: usize = 512 * 1024;
const STACK: usize = 256 * 1024;

fn c02_bounds(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let i = (c.idx / 2) as usize;
    let (pattern, json) = PATTERNS[i % PATTERNS.len()];
    let big = if c.thorough() { 64 << 20 } else { 6 << 20 };
    let (size, max_read) = match (i / PATTERNS.len()) % 4 {
        0 => (big, 8192),
        1 => (1 << 20, 1),
        2 => (big, r.range(2, 9000)),
        _ => (r.range(1 << 20, 3 << 20), r.range(2, 100)),
    };
    c.note(format!("pattern={} json={} size={} max_read={}", pattern.escape_ascii(), json, size, max_read));
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut rd = Repeat { pattern, off: 0, left: size, max_read, reads: 0 };
        let base = alloc::reset_peak();
        let mut items = 0u64;
        let mut bytes = 0u64;
        let mut ended = false;
        {
            let mut it = BytesLines::new(&mut rd, json);
            while items <= size as u64 + 10 {
                match it.next() {
                    None => {
                        ended = true;
                        break;
                    }
                    Some(Ok((b, _))) => {
                        items += 1;
                        bytes += b.len() as u64;
                    }
                    Some(Err(_)) => {}
                }
            }
        }
        let peak = alloc::peak();
        (peak.saturating_sub(base), items, bytes, rd.reads, rd.left, ended)
    });
    let (peak, items, bytes, reads, left, ended) = match h.unwrap().join() {
        Ok(x) => x,
        Err(_) => return viol("panic", PANICS.lock().unwrap().last().map(|p| p.1.clone()).unwrap_or_default()),
    };
    ensure!(ended, "no-end", "the iteration over {} bytes never ends ({} items)", size, items);
    ensure!(left == 0, "early-end", "the iteration stopped {} bytes before the end of a {} byte stream", left, size);
    ensure!(peak <= HEAP_BOUND, "heap", "peak heap use {} bytes above the bound {} on a stream of {} bytes", peak, HEAP_BOUND, size);
    ensure!(bytes <= size as u64, "invented", "more bytes out than in");
    c.obs("bounded_streams", 1);
    c.obs("stream_bytes", size as u64);
    c.obs("reads", reads as u64);
    c.obs("items", items);
    c.obs_max("peak_heap_bytes", peak as u64);
    c.distinct(format!("{:?}{}{}{}", pattern, json, size, max_read).as_bytes());
    Ok(())
}

fn c02_errors(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    use std::io::ErrorKind::*;
    for _ in 0..6 {
        let d = match r.below(3) {
            0 => long_stream(&mut r),
            1 => {
                let n = r.range(0, 300);
                soup(&mut r, n)
            }
            _ => {
                let mut d = filler(&mut r, 30000);
                d.extend(b"\nafter\n");
                d.extend(soup(&mut r, 50));
                d
            }
        };
        let json = r.chance(1, 3);
        let cuts = match r.below(4) {
            0 => Cuts::Whole,
            1 => Cuts::Random(r.clone(), 200),
            2 => Cuts::Fixed(r.range(1, 50)),
            _ => cuts_for(&mut r, d.len()),
        };
        // Measure the number of successful reads, then place the errors.
        let mut dry = CutReader::new(d.clone(), cuts.clone());
        for _ in BytesLines::new(&mut dry, json) {}
        let n = dry.reads + 2;
        let mut fail: Vec<(usize, std::io::ErrorKind)> = Vec::new();
        for _ in 0..r.range(1, 5) {
            let at = r.below(n);
            let kind = *r.pick(&[TimedOut, Other, UnexpectedEof, ConnectionReset, ConnectionAborted, InvalidData, InvalidInput, BrokenPipe, WouldBlock, PermissionDenied, NotFound, WriteZero, OutOfMemory]);
            for k in 0..*r.pick(&[1, 1, 2]) {
                if !fail.iter().any(|f| f.0 == at + k) {
                    fail.push((at + k, kind));
                }
            }
        }
        let want = refmodel::split(&d, json);
        let mut rd = CutReader::new(d.clone(), cuts);
        rd.fail = fail.clone();
        let mut got = Vec::new();
        let mut errs = 0;
        {
            let mut it = BytesLines::new(&mut rd, json);
            for _ in 0..d.len() + 100 {
                match it.next() {
                    None => break,
                    Some(Ok((b, n))) => got.push((b.to_vec(), n)),
                    Some(Err(e)) => {
                        ensure!(e.to_string().contains("injected"), "foreign-error", "unexpected error {}", e);
                        errs += 1
                    }
                }
            }
        }
        c.note(format!("json={} fail={:?} size={}", json, fail, d.len()));
        ensure!(errs == rd.failed, "error-lost", "{} reads failed, the caller saw {} errors", rd.failed, errs);
        if let Err(e) = compare(&got, &want) {
            let txt = d.escape_ascii().to_string();
            c.note(txt[..txt.len().min(3000)].to_string());
            return viol("pieces-after-error", e);
        }
        c.obs("errors_injected", rd.failed as u64);
        c.obs("streams_with_errors", 1);
        c.obs("pieces", got.len() as u64);
        c.distinct(&d);
    }
    Ok(())
}

fn c02(c: &mut Case) -> V {
    if c.idx % 2 == 0 {
        c02_bounds(c)
    } else {
        c02_errors(c)
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            level: "exploration",
            rule: "a stream (bytes, read boundaries, JSON mode) whose complete item sequence was compared with the reference splitter",
            quick: 48000,
            thorough: 720000,
            shards: 8,
            run: c01,
            need: &["pieces", "overlong_lines", "streams_all_cuts", "streams_long", "streams_boundary"],
            env: no_env,
            assumptions: &["the underlying reader obeys the Read contract"],
        },
        Spec {
            id: "C02",
            level: "exploration",
            rule: "a generated stream read to its end under the heap and stack monitors, or with injected read errors",
            quick: 1280,
            thorough: 19200,
            shards: 8,
            run: c02,
            need: &["bounded_streams", "errors_injected", "streams_with_errors"],
            env: no_env,
            assumptions: &["the caller does not keep the pieces (each piece shares the reader's buffer)", "read errors of kind Interrupted are not injected"],
        },
    ]
}
