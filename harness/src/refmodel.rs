//! Reference models, written from the documented behaviour.

pub const MAX_LINE: usize = 6000;

/// The pieces of a log: (content, 1-based physical line).
pub fn split(data: &[u8], json: bool) -> Vec<(Vec<u8>, usize)> {
    let mut out = Vec::new();
    let mut line = 1;
    let mut start = 0;
    let mut i = 0;
    let mut in_string = false;
    // The piece start..end is complete.
    fn emit(out: &mut Vec<(Vec<u8>, usize)>, piece: &[u8], line: usize) {
        if !piece.is_empty() && piece.len() <= MAX_LINE {
            out.push((piece.to_vec(), line));
        }
    }
    while i < data.len() {
        match data[i] {
            b'\n' => {
                emit(&mut out, &data[start..i], line);
                line += 1;
                i += 1;
                start = i;
            }
            b'\\' => match data.get(i + 1) {
                Some(b'n') => {
                    emit(&mut out, &data[start..i], line);
                    i += 2;
                    start = i;
                }
                // The line feed itself is looked at in the next round.
                Some(b'\n') | None => i += 1,
                Some(_) => i += 2,
            },
            b'"' if json => {
                in_string = !in_string;
                i += 1;
            }
            b',' | b'[' | b']' | b'{' | b'}' if json && !in_string => {
                emit(&mut out, &data[start..i], line);
                i += 1;
                start = i;
            }
            _ => i += 1,
        }
    }
    emit(&mut out, &data[start..], line);
    out
}

// ---------------------------------------------------------------- distances
use std::collections::{BTreeSet, HashMap};

/// The set of space separated words of a line.
pub fn word_set(line: &str) -> BTreeSet<&str> {
    line.split(' ').collect()
}

/// True if two different words of the lines fall in the same feature (a "rare hash collision").
pub fn collides<'a>(lines: impl Iterator<Item = &'a str>) -> bool {
    let mut seen: HashMap<usize, &str> = HashMap::new();
    for l in lines {
        for w in l.split(' ') {
            let b = fxhash::hash32(w) as usize % 260000;
            match seen.insert(b, w) {
                Some(o) if o != w => return true,
                _ => {}
            }
        }
    }
    false
}

/// One minus the largest cosine similarity between word sets.
pub struct RefIndex<'a> {
    postings: HashMap<&'a str, Vec<u32>>,
    sizes: Vec<usize>,
}
impl<'a> RefIndex<'a> {
    pub fn new(lines: impl Iterator<Item = &'a str>) -> RefIndex<'a> {
        let mut postings: HashMap<&str, Vec<u32>> = HashMap::new();
        let mut sizes = Vec::new();
        for l in lines {
            let s = word_set(l);
            for w in &s {
                postings.entry(w).or_default().push(sizes.len() as u32);
            }
            sizes.push(s.len());
        }
        RefIndex { postings, sizes }
    }
    pub fn distance(&self, line: &str) -> f64 {
        let s = word_set(line);
        let mut common: HashMap<u32, usize> = HashMap::new();
        for w in &s {
            for p in self.postings.get(w).map(|v| v.as_slice()).unwrap_or(&[]) {
                *common.entry(*p).or_insert(0) += 1;
            }
        }
        let best = common
            .iter()
            .map(|(p, n)| *n as f64 / ((self.sizes[*p as usize] * s.len()) as f64).sqrt())
            .fold(0.0, f64::max);
        1.0 - best
    }
}

// ---------------------------------------------------------------- detection
use std::collections::HashSet;

pub const THRESHOLD: f64 = 0.3;

/// What inspecting a file should see.
#[derive(Clone, Debug)]
pub struct RefFile {
    /// text, line number, tokens
    pub lines: Vec<(String, usize, String)>,
    pub line_count: usize,
    pub byte_count: usize,
    /// The file has a line that is not UTF-8; what follows it is unknown.
    pub invalid: bool,
}

/// Read a file as a target (`target`: stop at the log-classify marker) or as a baseline.
pub fn read_file(data: &[u8], json: bool, target: bool) -> RefFile {
    let mut f = RefFile { lines: Vec::new(), line_count: 0, byte_count: 0, invalid: false };
    for (piece, nr) in split(data, json) {
        let text = match String::from_utf8(piece) {
            Ok(t) => t,
            Err(_) => {
                f.invalid = true;
                break;
            }
        };
        f.line_count += 1;
        f.byte_count += text.len();
        if target && text.contains("TASK [log-classify") {
            break;
        }
        let tokens = logreduce_tokenizer::process(&text);
        f.lines.push((text, nr, tokens));
    }
    f
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefAnomaly {
    pub pos: usize,
    pub line: String,
    pub distance: f64,
    pub before: Vec<String>,
    pub after: Vec<String>,
    /// Index of the line in the file.
    pub at: usize,
}

/// None: a distance is too close to the threshold to call.
pub fn inspect(index: &RefIndex, skip: &mut HashSet<String>, f: &RefFile) -> Option<Vec<RefAnomaly>> {
    let mut found: Vec<(usize, f64)> = Vec::new();
    for (i, (_, _, tokens)) in f.lines.iter().enumerate() {
        if skip.insert(tokens.clone()) {
            let d = index.distance(tokens);
            if (d - THRESHOLD).abs() < 2e-4 {
                return None;
            }
            if d > THRESHOLD {
                found.push((i, d));
            }
        }
    }
    let mut out = Vec::new();
    let mut shown = 0;
    for (k, (i, d)) in found.iter().enumerate() {
        let next = found.get(k + 1).map(|x| x.0).unwrap_or(f.lines.len());
        let b = shown.max(i.saturating_sub(3));
        let e = (i + 4).min(next);
        let text = |r: std::ops::Range<usize>| f.lines[r].iter().map(|l| l.0.clone()).collect::<Vec<_>>();
        out.push(RefAnomaly { pos: f.lines[*i].1, line: f.lines[*i].0.clone(), distance: *d, before: text(b..*i), after: text(i + 1..e), at: *i });
        shown = e;
    }
    Some(out)
}

/// All the tokens of some files.
pub fn all_tokens(files: &[RefFile]) -> Vec<&str> {
    files.iter().flat_map(|f| f.lines.iter().map(|l| l.2.as_str())).collect()
}
