//! C06: distances.
use crate::fw::*;
use crate::gen;
use crate::refmodel::{collides, RefIndex};
use logreduce_index as ix;

const EPS: f64 = 5e-5;

fn lines(r: &mut Rng, n: usize, vocab: &[String]) -> Vec<String> {
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            // Raw lines: any spacing, repeated words.
            0 => {
                let k = r.range(0, 12);
                let mut l = (0..k).map(|_| r.pick(vocab).clone()).collect::<Vec<_>>().join(" ");
                if r.chance(1, 6) {
                    l = l.replacen(' ', "  ", 1);
                }
                if r.chance(1, 10) {
                    l.push(' ');
                }
                l
            }
            // Many repetitions of few words.
            1 => {
                let a = r.pick(vocab).clone();
                let b = r.pick(vocab).clone();
                (0..r.range(1, 40)).map(|_| if r.chance(1, 2) { a.clone() } else { b.clone() }).collect::<Vec<_>>().join(" ")
            }
            // Long lines.
            2 => (0..r.range(1, 200)).map(|_| r.pick(vocab).clone()).collect::<Vec<_>>().join(" "),
            // Tokenized lines.
            _ => {
                let mut t: Vec<gen::Part> = (0..r.range(1, 8)).map(|_| gen::Part::Text(r.pick(vocab).clone())).collect();
                for _ in 0..r.range(0, 2) {
                    t.push(gen::slot(r));
                }
                let l = gen::instantiate(r, &t);
                logreduce_tokenizer::process(&l)
            }
        })
        .collect()
}

/// Words of which no two share a feature.
fn apart(r: &mut Rng, n: usize) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    let mut v = Vec::new();
    while v.len() < n {
        let w = format!("{}{}", gen::word(r), v.len());
        if seen.insert(fxhash::hash32(&w) as usize % 260000) {
            v.push(w);
        }
    }
    v
}

fn c06(c: &mut Case) -> V {
    let mut r = c.rng.clone();
    let big = c.idx % 20 == 0;
    // Few lines of very many different words.
    let wide = c.idx % 20 == 7;
    // More baselines than fit in small counters.
    let huge = c.idx % 100 == 11;
    // A chunk for every few baselines.
    let shreds = huge || c.idx % 4 == 2;
    let nv = if big { 300 } else { r.range(2, 60) };
    let mut vocab: Vec<String> = (0..nv).map(|_| gen::word(&mut r)).collect();
    if r.chance(1, 3) {
        vocab.push("%ID".into());
        vocab.push("日本語".into());
        vocab.push("\u{1F600}x".into());
    }
    let nb = if big { r.range(200, 900) } else { *r.pick(&[0, 1, 2, 5, 20, 40]) };
    let nt = if big { r.range(100, 600) } else { *r.pick(&[0, 1, 2, 7, 30]) };
    let (mut nb, mut nt) = (nb, nt);
    let wide_lines = |r: &mut Rng, n: usize, vocab: &[String]| -> Vec<String> {
        (0..n)
            .map(|_| {
                let k = *r.pick(&[1, 10, 100, 300, 700, 1300, 2600]);
                let mut idx: Vec<usize> = (0..vocab.len()).collect();
                r.shuffle(&mut idx);
                idx[..r.range(1, k)].iter().map(|i| vocab[*i].clone()).collect::<Vec<_>>().join(" ")
            })
            .collect()
    };
    let (baselines, mut targets) = if wide {
        vocab = apart(&mut r, 2600);
        nb = r.range(1, 6);
        nt = r.range(1, 6);
        c.obs("wide_sets", 1);
        (wide_lines(&mut r, nb, &vocab), wide_lines(&mut r, nt, &vocab))
    } else if huge {
        vocab = apart(&mut r, 300);
        nb = *r.pick(&[9000, 18000, 36000, 70000]);
        nt = r.range(1, 20);
        c.obs("huge_sets", 1);
        let few = |r: &mut Rng, n: usize, vocab: &[String]| -> Vec<String> {
            (0..n).map(|_| (0..r.range(3, 6)).map(|_| r.pick(vocab).clone()).collect::<Vec<_>>().join(" ")).collect()
        };
        let baselines = few(&mut r, nb, &vocab);
        let mut targets = few(&mut r, nt, &vocab);
        targets.extend(baselines[nb - 5..].iter().cloned());
        targets.extend((0..20).map(|_| r.pick(&baselines).clone()));
        (baselines, targets)
    } else {
        (lines(&mut r, nb, &vocab), lines(&mut r, nt, &vocab))
    };
    c.obs_max("most_words", baselines.iter().map(|l| l.split(' ').count()).max().unwrap_or(0) as u64);
    let eps = if wide { 3e-4 } else { EPS };
    for b in &baselines {
        if !huge && r.chance(1, 4) && targets.len() < 1000 {
            targets.push(b.clone());
        }
    }
    r.shuffle(&mut targets);
    if collides(baselines.iter().chain(targets.iter()).map(|s| s.as_str())) {
        c.obs("skipped_collisions", 1);
        return Ok(());
    }
    let reference = RefIndex::new(baselines.iter().map(|s| s.as_str()));
    let want: Vec<f64> = targets.iter().map(|t| reference.distance(t)).collect();
    let judge = |c: &mut Case, name: &str, got: &[f32]| -> V {
        ensure!(got.len() == targets.len(), "count", "{}: {} distances for {} targets", name, got.len(), targets.len());
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if !((*g as f64 - w).abs() <= eps) || *g > 1.0 {
                c.note(format!("baselines {:?}", baselines.iter().take(40).collect::<Vec<_>>()));
                return viol("distance", format!("{}: target {} {:?}: got {} want {} ({} baselines)", name, i, targets[i], g, w, baselines.len()));
            }
        }
        c.obs(&format!("distances_{}", name), got.len() as u64);
        Ok(())
    };
    // Single line search.
    let feats = ix::index(&mut baselines.clone().into_iter());
    let single: Vec<f32> = targets.iter().map(|t| ix::search(&feats, t)).collect();
    judge(c, "single", &single)?;
    // Matrix.
    let mat = ix::index_mat(&baselines);
    let m = ix::search_mat(&mat, &targets);
    judge(c, "mat", &m)?;
    // Saved and reloaded.
    let saved = ix::save_mat(&mat);
    let loaded = ix::load_mat(&saved);
    let m2 = ix::search_mat(&loaded, &targets);
    ensure!(m.iter().map(|f| f.to_bits()).eq(m2.iter().map(|f| f.to_bits())), "reload", "distances change after save and load");
    ensure!(ix::save_mat(&loaded) == saved, "reload-bytes", "saving again gives other bytes");
    c.obs("reloads", 1);
    // Chunks.
    for round in 0..2 {
        let mut bs = baselines.clone();
        if round == 1 {
            r.shuffle(&mut bs);
        }
        let mut mats = Vec::new();
        let mut rest = &bs[..];
        while !rest.is_empty() {
            let n = match (shreds, huge) {
                (true, true) => r.range(1, 600).min(rest.len()),
                (true, false) => r.range(1, 3).min(rest.len()),
                _ => r.range(1, rest.len()),
            };
            mats.push(ix::index_mat(&rest[..n]));
            rest = &rest[n..];
        }
        if r.chance(1, 5) {
            mats.push(ix::index_mat(&[]));
        }
        c.obs_max("most_chunks", mats.len() as u64);
        let d = ix::search_mat_chunk(&mats, &targets);
        judge(c, if round == 0 { "chunk" } else { "chunk_reordered" }, &d)?;
        let reord: Vec<f32> = {
            let f = ix::index(&mut bs.clone().into_iter());
            targets.iter().take(20).map(|t| ix::search(&f, t)).collect()
        };
        for (a, b) in reord.iter().zip(&single) {
            ensure!((a - b).abs() <= eps as f32, "reorder", "single search depends on the order of baselines");
        }
    }
    c.obs("baselines", baselines.len() as u64);
    c.obs("zero_distances", want.iter().filter(|d| **d < 1e-9).count() as u64);
    c.obs("one_distances", want.iter().filter(|d| **d == 1.0).count() as u64);
    if nb > 0 && !targets.is_empty() {
        c.distinct(format!("{:?}{:?}", baselines, targets).as_bytes());
    }
    c.sample(|| format!("{} baselines, {} targets, distances {:?}", baselines.len(), targets.len(), want.iter().take(6).collect::<Vec<_>>()));
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C06",
        level: "exploration",
        rule: "a set of baseline and target lines for which every implementation's distances were compared with the reference cosine",
        quick: 5000,
        thorough: 100000,
        shards: 8,
        run: c06,
        need: &["distances_single", "distances_mat", "distances_chunk", "distances_chunk_reordered", "reloads", "zero_distances", "one_distances", "wide_sets"],
        env: no_env,
        assumptions: &["line sets in which two different words share a feature are skipped (counted)", "tolerance 5e-5 (3e-4 for lines of up to 2600 different words)"],
    }]
}
