//! Log files with known structure: baselines and targets.
use crate::fw::Rng;
use crate::gen::{self, Part};
use std::collections::HashMap;

/// Words without feature collisions.
pub fn clean_words(r: &mut Rng, n: usize, taken: &mut HashMap<usize, String>) -> Vec<String> {
    let mut out = Vec::new();
    while out.len() < n {
        let w = gen::word(r);
        let b = fxhash::hash32(&w) as usize % 260000;
        if taken.contains_key(&b) {
            continue;
        }
        taken.insert(b, w.clone());
        out.push(w);
    }
    out
}

pub struct Scen {
    pub known_words: Vec<String>,
    pub novel_words: Vec<String>,
    /// Templates of the lines of the baseline.
    pub known: Vec<Vec<Part>>,
}

impl Scen {
    pub fn new(r: &mut Rng, n: usize) -> Scen {
        let mut taken = HashMap::new();
        let nw = (n / 2).clamp(20, 160);
        let known_words = clean_words(r, nw, &mut taken);
        let novel_words = clean_words(r, 40, &mut taken);
        let mut s = Scen { known_words, novel_words, known: Vec::new() };
        for _ in 0..n {
            let t = s.known_template(r);
            s.known.push(t);
        }
        s
    }
    pub fn known_template(&self, r: &mut Rng) -> Vec<Part> {
        let k = r.range(2, 7);
        let mut t: Vec<Part> = (0..k).map(|_| Part::Text(r.pick(&self.known_words).clone())).collect();
        for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
            let at = r.below(t.len() + 1);
            t.insert(at, gen::slot(r));
        }
        t
    }
    /// A line of the baseline, with other volatile values.
    pub fn known_line(&self, r: &mut Rng) -> String {
        let i = r.below(self.known.len());
        self.known_at(r, i)
    }
    pub fn known_at(&self, r: &mut Rng, i: usize) -> String {
        gen::instantiate(r, &self.known[i % self.known.len()])
    }
    pub fn novel_line(&self, r: &mut Rng) -> String {
        let k = r.range(2, 7);
        let mut v: Vec<String> = (0..k).map(|_| r.pick(&self.novel_words).clone()).collect();
        if r.chance(1, 4) {
            v[0] = r.pick::<&str>(gen::PROBLEMS).to_string();
        }
        if r.chance(1, 4) {
            let s = gen::slot(r);
            v.push(gen::instantiate(r, &[s]));
        }
        v.join(" ")
    }
    /// A known line with some words replaced: any distance.
    pub fn near_line(&self, r: &mut Rng) -> String {
        let mut t = r.pick(&self.known).clone();
        for _ in 0..r.range(1, 2) {
            let i = r.below(t.len());
            t[i] = Part::Text(r.pick(&self.novel_words).clone());
        }
        gen::instantiate(r, &t)
    }
    pub fn odd_line(&self, r: &mut Rng) -> String {
        match r.below(12) {
            0 => String::new(),
            10 => format!("{}{}{}", r.pick(&["  ", "\t", "        ", ""]), self.known_line(r), r.pick(&[" ", "\t", "    ", " \t "])),
            11 => format!("{}{}{}", r.pick(&["  ", "\t", "        ", ""]), self.novel_line(r), r.pick(&[" ", "\t", "    ", " \t "])),
            // Text that is not ASCII.
            9 => format!("{} {} {}", r.pick(&["échec à l'étape", "日本語 の ログ", "naïve Größe", "\u{1F600}", "¡qué!", "\u{feff}start"]), self.known_line(r), r.pick(&["fin é", "終わり", ""])),
            // Mentions of the analysis task that are not its marker.
            8 => {
                let k = self.known_line(r);
                let m = *r.pick(&["running log-classify again", "task [log-classify : Generate model]", "TASK [log classify : Generate model]", "role log-classify was skipped", "TASK[log-classify : Generate model]", "TASK [logclassify : Generate model]", "PLAY [log-classify]", "TASK [upload-logs : log-classify]", "TASK  [log-classify]"]);
                if r.chance(1, 2) { format!("{} {}", m, k) } else { format!("{} {}", k, m) }
            }
            1 => "   ".to_string(),
            2 => format!("{}\\n{}", self.known_line(r), self.known_line(r)),
            3 => format!("{}\\n\\n{}\\n", self.novel_line(r), self.known_line(r)),
            4 => format!("{} \\", self.known_line(r)),
            5 => r.pick(&self.known_words).to_string(),
            6 => {
                let n = r.range(5995, 6010);
                let mut s = self.known_line(r);
                while s.len() < n {
                    s.push_str(" filling");
                }
                s.truncate(n);
                while !s.is_char_boundary(s.len()) {
                    s.pop();
                }
                s
            }
            _ => format!("{}\r", self.known_line(r)),
        }
    }

    /// Different lines that are easily taken for one another: the same words in another
    /// order or number, a long common beginning, another case.
    pub fn family(&self, r: &mut Rng, v: &mut Vec<String>) {
        let k = *r.pick(&[3, 6, 20, 80, 400]);
        let mut words: Vec<String> = (0..k).map(|_| r.pick(&self.novel_words).clone()).collect();
        words.truncate(5800 / 25);
        for _ in 0..r.range(2, 4) {
            let mut w = words.clone();
            match r.below(5) {
                0 => r.shuffle(&mut w),
                1 => {
                    let x = r.pick(&w).clone();
                    w.push(x);
                }
                2 => w.push(r.pick(&self.novel_words).clone()),
                3 => w.push(r.pick(&self.known_words).clone()),
                _ => w.reverse(),
            }
            v.push(w.join(" "));
            if r.chance(1, 3) {
                v.push(self.known_line(r));
            }
        }
    }

    /// Very many different lines, of which those before and after may be the same: (baseline, target).
    pub fn wide(&self, r: &mut Rng, n: usize) -> Vec<String> {
        (0..n).map(|_| (0..r.range(3, 7)).map(|_| r.pick(&self.known_words).clone()).collect::<Vec<_>>().join(" ")).collect()
    }

    pub fn many(&self, r: &mut Rng) -> (Vec<String>, Vec<String>) {
        let n = *r.pick(&[4300, 6000, 9000]);
        let known: Vec<String> = (0..n).map(|_| (0..r.range(3, 7)).map(|_| r.pick(&self.known_words).clone()).collect::<Vec<_>>().join(" ")).collect();
        let novel: Vec<String> = (0..r.range(2, 12)).map(|_| self.novel_line(r)).collect();
        let mut target = known.clone();
        r.shuffle(&mut target);
        for l in &novel {
            for _ in 0..r.range(2, 6) {
                let at = if r.chance(1, 3) { target.len() - r.below(200) } else { r.below(target.len() + 1) };
                target.insert(at, l.clone());
            }
        }
        (known, target)
    }

    /// A target mixing everything.
    pub fn mixed(&self, r: &mut Rng, n: usize) -> Vec<String> {
        let novelty = *r.pick(&[0, 1, 5, 20, 60]);
        let mut v: Vec<String> = Vec::new();
        while v.len() < n {
            let x = r.below(100);
            if x < novelty {
                let l = if r.chance(1, 2) { self.novel_line(r) } else { self.near_line(r) };
                v.push(l);
            } else if x < novelty + 4 && !v.is_empty() {
                // A run of repetitions.
                let l = r.pick(&v).clone();
                for _ in 0..r.range(1, 6) {
                    v.push(l.clone());
                }
            } else if x < novelty + 5 && novelty > 0 {
                self.family(r, &mut v);
            } else if x < novelty + 8 {
                v.push(self.odd_line(r));
            } else {
                v.push(self.known_line(r));
            }
        }
        v
    }

    /// A target whose interesting lines surround the boundaries of the 512 line search chunks.
    pub fn boundary(&self, r: &mut Rng, chunks: usize) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        // Unique known lines; duplicates do not count towards a chunk.
        let mut uniq = 0;
        let mut i = r.below(self.known.len());
        let lead = r.range(495, 511);
        while uniq < lead {
            v.push(self.known_at(r, i));
            i += 1;
            uniq += 1;
            if r.chance(1, 60) {
                let l = v[r.below(v.len())].clone();
                v.push(l);
            }
        }
        for c in 0..chunks {
            // The zone around the boundary: anomalies, duplicates, unique known lines.
            let dens = r.range(1, 6);
            let mut anomalies: Vec<String> = Vec::new();
            for _ in 0..r.range(8, 40) {
                let x = r.below(10);
                if x < dens {
                    let l = self.novel_line(r);
                    anomalies.push(l.clone());
                    v.push(l);
                } else if x < dens + 2 {
                    let l = if !anomalies.is_empty() && r.chance(1, 3) { r.pick(&anomalies).clone() } else { v[r.below(v.len())].clone() };
                    v.push(l);
                } else {
                    v.push(self.known_at(r, i));
                    i += 1;
                }
            }
            if c + 1 < chunks {
                for _ in 0..r.range(470, 500) {
                    v.push(self.known_at(r, i));
                    i += 1;
                }
            }
        }
        match r.below(4) {
            0 => {
                v.push(self.novel_line(r));
                for _ in 0..r.range(0, 5) {
                    let l = v[r.below(v.len())].clone();
                    v.push(l);
                }
            }
            1 => v.push(self.novel_line(r)),
            _ => {}
        }
        v
    }

    /// Mostly repetitions: the raw buffer is flushed at 5120 lines.
    pub fn repetitive(&self, r: &mut Rng) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        let pool: Vec<String> = (0..r.range(1, 4)).map(|_| self.known_line(r)).collect();
        for _ in 0..r.range(0, 5) {
            v.push(self.known_line(r));
        }
        let novel_near_start = r.chance(1, 2);
        for _ in 0..r.range(1, 2) {
            let n = r.range(5090, 5125);
            for k in 0..n {
                if (novel_near_start && k < 6 || k + 30 > n) && r.chance(1, 5) {
                    v.push(self.novel_line(r));
                } else {
                    v.push(r.pick(&pool).clone());
                }
            }
        }
        for _ in 0..r.range(0, 30) {
            let l = if r.chance(1, 4) { self.novel_line(r) } else { r.pick(&pool).clone() };
            v.push(l);
        }
        v
    }

    pub fn baseline(&self, r: &mut Rng) -> Vec<String> {
        let mut v: Vec<String> = (0..self.known.len()).map(|i| self.known_at(r, i)).collect();
        r.shuffle(&mut v);
        for _ in 0..r.range(0, 6) {
            let at = r.below(v.len() + 1);
            let l = self.odd_line(r);
            v.insert(at, l);
        }
        v
    }
}

/// Join lines to a file, with or without a final line feed.
pub fn file(r: &mut Rng, lines: &[String]) -> Vec<u8> {
    let mut s = lines.join("\n");
    if r.chance(2, 3) {
        s.push('\n');
    }
    s.into_bytes()
}

/// A JSON document made of the lines.
pub fn json_file(r: &mut Rng, lines: &[String]) -> Vec<u8> {
    let mut s = String::from("[");
    for (i, l) in lines.iter().enumerate() {
        let esc = l.replace('\\', "\\\\").replace('"', "\\\"");
        if i > 0 {
            s.push(',');
        }
        match r.below(4) {
            0 => s.push_str(&format!("{{\"message\": \"{}\", \"level\": {}}}", esc, r.below(9))),
            1 => s.push_str(&format!("\n  \"{}\"", esc)),
            2 => s.push_str(&format!("{{\n\"output\": \"{}\",\n\"lines\": [\"{}\"]}}", esc, esc)),
            _ => s.push_str(&format!("\"{}\"", esc)),
        }
    }
    s.push_str("]\n");
    s.into_bytes()
}
