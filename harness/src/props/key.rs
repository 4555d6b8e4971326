//! K01-K04: key detection, its variants, clarity and key changes, notations.
use super::chroma::chroma_seq;
use crate::ensure;
use crate::mon::*;
use crate::rng::Rng;
use serde_json::json;
use std::collections::HashSet;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::detector::*;
use stratum_dsp::features::key::key_changes::*;
use stratum_dsp::features::key::key_clarity::*;
use stratum_dsp::features::key::templates::*;
use stratum_dsp::features::key::KeyDetectionResult;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "K01", quick: 720_000, thorough: 1_440_000,
            rule: "chroma sequences (random, tonal, modulating, one-hot, zero, mixed sign, all levels) x frame weights x both template sets; scores, ranking, key and confidence against a double-precision template match; rotation, scaling and zero-weight relations. Distinct: hash of the score table",
            assumptions: &["cases in which the best key of a mode is decided within rounding error are only checked for internal consistency"],
            min_nontrivial: 300, run: k01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "K02", quick: 270_000, thorough: 540_000,
            rule: "chroma sequences up to 420 frames x weights x heuristic settings x segment lengths, hops and thresholds x ensemble weights; each variant against a reference aggregation of base-detector results. Distinct: hash of the variant's score table",
            assumptions: &["mode decisions within rounding error of their margin are accepted either way"],
            min_nontrivial: 300, run: k02, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "K03", quick: 720_000, thorough: 1_440_000,
            rule: "score tables of all shapes; chroma sequences with modulations x rates x hops x segment durations and overlaps; clarity and key-change report against references. Distinct: hash of the segment keys or of the table",
            assumptions: &["segment lengths within rounding error of a whole number of frames are accepted either way"],
            min_nontrivial: 300, run: k03, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "K04", quick: 900_000, thorough: 5_000_000,
            rule: "all 24 keys (names, codes, round trip, wheel neighbours) and random strings near and far from valid codes, including all one- and two-byte prefixes and non-ASCII text. Distinct: hash of the string",
            assumptions: &[], min_nontrivial: 300, run: k04, serial: false, hang_is_violation: false,
        },
    ]
}

const KK: [[f64; 12]; 2] = [
    [6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88],
    [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17],
];
const TE: [[f64; 12]; 2] = [
    [5.0, 2.0, 3.5, 2.0, 4.5, 4.0, 2.0, 4.5, 2.0, 3.5, 1.5, 4.0],
    [5.0, 2.0, 3.5, 5.0, 2.0, 3.5, 2.0, 4.5, 3.5, 2.0, 4.0, 3.5],
];
fn tmpl(set: &[[f64; 12]; 2], key: usize) -> [f64; 12] {
    let b = &set[key / 12];
    let n = b.iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut o = [0.0; 12];
    for i in 0..12 {
        o[i] = b[(i + 12 - key % 12) % 12] / n;
    }
    o
}
pub fn idx(k: Key) -> usize {
    match k {
        Key::Major(i) => i as usize,
        Key::Minor(i) => 12 + i as usize,
    }
}
pub fn key_of(i: usize) -> Key {
    if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) }
}
fn valid(k: Key) -> bool {
    match k {
        Key::Major(i) | Key::Minor(i) => i < 12,
    }
}
/// 24 keys once, ranked, equal scores in key order (`ties`)
fn ranked(r: &KeyDetectionResult, ties: bool, d: &str) -> R {
    ensure!(r.all_scores.len() == 24, "{} keys ranked: {d}", r.all_scores.len());
    let s: HashSet<usize> = r.all_scores.iter().filter(|(k, _)| valid(*k)).map(|(k, _)| idx(*k)).collect();
    ensure!(s.len() == 24, "ranking does not hold the 24 keys once: {:?}: {d}", r.all_scores);
    for w in r.all_scores.windows(2) {
        ensure!(w[0].1 > w[1].1 || (w[0].1 == w[1].1 && (!ties || idx(w[0].0) < idx(w[1].0))), "{:?} ranked before {:?}: {d}", w[0], w[1]);
    }
    ensure!((0.0..=1.0).contains(&r.confidence), "confidence {}: {d}", r.confidence);
    ensure!(valid(r.key), "key {:?}: {d}", r.key);
    Ok(())
}
fn lead(best: f64, other: f64) -> f64 {
    if best > 0.0 { ((best - other) / best).clamp(0.0, 1.0) } else { 0.0 }
}
/// plain result: best key first, three best, relative lead
fn plain(r: &KeyDetectionResult, d: &str) -> R {
    ranked(r, true, d)?;
    ensure!(r.key == r.all_scores[0].0, "key {:?} is not the best-ranked {:?}: {d}", r.key, r.all_scores[0]);
    ensure!(r.top_keys[..] == r.all_scores[..3], "alternatives {:?} are not the three best {:?}: {d}", r.top_keys, &r.all_scores[..3]);
    let l = lead(r.all_scores[0].1 as f64, r.all_scores[1].1 as f64);
    ensure!((r.confidence as f64 - l).abs() < 1e-5, "confidence {}, lead {l}: {d}", r.confidence);
    Ok(())
}
fn table(r: &KeyDetectionResult) -> [f64; 24] {
    let mut t = [0.0; 24];
    for (k, s) in &r.all_scores {
        t[idx(*k)] = *s as f64;
    }
    t
}
fn same_res(a: &KeyDetectionResult, b: &KeyDetectionResult, what: &str, d: &str) -> R {
    ensure!(a.key == b.key && (a.confidence - b.confidence).abs() < 1e-6, "{what}: {:?} {} against {:?} {}: {d}", a.key, a.confidence, b.key, b.confidence);
    let (x, y) = (table(a), table(b));
    for i in 0..24 {
        ensure!(close(x[i], y[i], 1e-5, 1e-9), "{what}: score of {:?} {} against {}: {d}", key_of(i), x[i], y[i]);
    }
    Ok(())
}
fn pos5(t: usize) -> i64 {
    (t as i64 * 7).rem_euclid(12)
}

pub fn weights(r: &mut Rng, n: usize) -> Option<Vec<f32>> {
    match r.us(0, 4) {
        0 | 1 => None,
        2 => Some((0..n).map(|_| r.f() as f32).collect()),
        3 => Some((0..n).map(|_| if r.p(0.4) { *r.pick(&[0.0f32, -1.0, 0.0]) } else { r.lrange(0.01, 5.0) as f32 }).collect()),
        _ => Some(vec![*r.pick(&[1.0f32, 2.0, 0.0]); n]),
    }
}
/// tonal / hostile chroma
pub fn chroma_any(r: &mut Rng, max: usize) -> Vec<Vec<f32>> {
    let mut v = chroma_seq(r, max);
    let n = v.len();
    match r.us(0, 9) {
        9 => {
            // tonic and fifth with either third hardly there: both modes fit the same tonic
            let k = r.us(0, 11);
            let b: Vec<f32> = (0..12).map(|i| if i == 0 { 1.0 } else if i == 7 { 0.8 } else { *r.pick(&[0.0, 0.05, 0.1]) }).collect();
            v.iter_mut().for_each(|f| (0..12).for_each(|i| f[(i + k) % 12] = b[i]));
        }
        7 | 8 => {
            // only one mode matches at all, so the keys are certain; with modulations
            let set = if r.p(0.5) { &KK } else { &TE };
            let every = r.us(5, 1 + n.max(8) / 2);
            let minor = r.p(0.5);
            let noise = *r.pick(&[0.0, 0.01, 0.05]);
            let dot = |a: &[f64; 12], b: &[f64; 12]| (0..12).map(|i| a[i] * b[i]).sum::<f64>();
            let sum = |a: &[f64; 12]| a.iter().sum::<f64>();
            let mut k = r.us(0, 11) + 12 * minor as usize;
            let mut b = [0.0; 12];
            for (t, f) in v.iter_mut().enumerate() {
                if t == 0 || t % every == 0 {
                    if t > 0 {
                        k = r.us(0, 11) + 12 * (minor ^ r.p(0.2)) as usize;
                    }
                    let x = tmpl(set, k);
                    let hi = 1.0 / sum(&x);
                    let lo = (0..12).map(|j| tmpl(set, (j + 12 - 12 * (k / 12)) % 24)).map(|y| dot(&x, &y) / sum(&y)).fold(0.0, f64::max);
                    let c = lo + (hi - lo) * r.range(0.3, 0.95);
                    b = x.map(|y| y - c);
                }
                for i in 0..12 {
                    f[i] = (b[i] + noise * r.gauss() * 0.1) as f32;
                }
            }
        }
        0 => {
            // noisy template of one key, with modulations
            let set = if r.p(0.5) { &KK } else { &TE };
            let every = r.us(5, 200);
            let mut k = r.us(0, 23);
            let noise = r.range(0.0, 0.6);
            let centre = if r.p(0.3) { tmpl(set, 0).iter().sum::<f64>() / 12.0 } else { 0.0 };
            for (t, f) in v.iter_mut().enumerate() {
                if t > 0 && t % every == 0 {
                    k = r.us(0, 23);
                }
                let b = tmpl(set, k);
                for i in 0..12 {
                    f[i] = (b[i] - centre + noise * r.f() * 0.3) as f32;
                }
            }
        }
        1 => {
            let roots: Vec<usize> = (0..4).map(|_| r.us(0, 11)).collect();
            let third = if r.p(0.5) { 3 } else { 4 };
            for (t, f) in v.iter_mut().enumerate() {
                let b = roots[(t / 8) % 4];
                f.iter_mut().for_each(|x| *x = 0.0);
                for o in [0, third, 7] {
                    f[(b + o) % 12] = 0.577;
                }
            }
        }
        2 => v.iter_mut().flatten().for_each(|x| *x = *x * 2.0 - 0.7),
        3 => {
            let g = r.lrange(1e-13, 1e4) as f32;
            v.iter_mut().flatten().for_each(|x| *x *= g);
        }
        _ => {}
    }
    if r.p(0.05) && n > 0 {
        v.iter_mut().flatten().for_each(|x| *x = 0.0);
    }
    if r.p(0.05) {
        let g = r.lrange(1e-14, 1e-10) as f32;
        v.iter_mut().flatten().for_each(|x| *x *= g);
    }
    v
}

/// None: decided within rounding error. (scores after refinement, were they normalised)
fn base_ref(v: &[Vec<f32>], w: Option<&[f32]>, set: &[[f64; 12]; 2]) -> Option<([f64; 24], f64, bool)> {
    let mut s = [0.0f64; 24];
    let mut mag = 0.0f64;
    for k in 0..24 {
        let t = tmpl(set, k);
        for (f, wt) in v.iter().zip((0..v.len()).map(|i| w.map(|w| w[i] as f64).unwrap_or(1.0))) {
            if wt > 0.0 {
                s[k] += wt * (0..12).map(|i| f[i] as f64 * t[i]).sum::<f64>();
                if k == 0 {
                    mag += wt * f.iter().map(|x| (*x as f64).abs()).sum::<f64>();
                }
            }
        }
    }
    let e = mag * (2e-7 * (3.0 + (v.len() as f64).sqrt()) + if v.len() > 500 { 3e-8 * v.len() as f64 } else { 0.0 });
    let mx = |s: &[f64]| s.iter().fold(0.0f64, |a, x| a.max(*x));
    let (m0, m1) = (mx(&s[..12]), mx(&s[12..]));
    for m in [m0, m1] {
        if (m - 1e-9).abs() < 2.0 * e.max(1e-14) {
            return None;
        }
    }
    let norm = m0 > 1e-9 && m1 > 1e-9;
    let mut err = e;
    if norm {
        for k in 0..24 {
            s[k] /= if k < 12 { m0 } else { m1 };
        }
        // dividing by a small maximum magnifies the rest
        err = e / m0.min(m1) * (1.0 + s.iter().fold(1.0f64, |a, x| a.max(x.abs())));
    }
    let raw = s;
    for h in 0..2 {
        let sl = &raw[h * 12..h * 12 + 12];
        let top = (0..12).max_by(|a, b| sl[*a].total_cmp(&sl[*b])).unwrap();
        if sl[top] <= 1e-9 - 2.0 * err {
            continue;
        }
        if (sl[top] - 1e-9).abs() <= 2.0 * err || (0..12).any(|i| i != top && sl[top] - sl[i] <= 2.0 * err + 1e-7 * sl[top]) {
            return None;
        }
        for i in 0..12 {
            let q = (pos5(i) - pos5(top)).abs();
            let dist = q.min(12 - q);
            if dist <= 2 {
                s[h * 12 + i] += sl[top] * 0.2 * (1.0 - 0.5 * dist as f64);
            }
        }
    }
    Some((s, err + 1e-6 * mx(&s).max(1e-30), norm))
}
fn inval<T>(r: Result<T, AnalysisError>, what: &str) -> R {
    ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "{what} not rejected as invalid input");
    Ok(())
}
fn set_of(r: &mut Rng) -> (KeyTemplates, &'static [[f64; 12]; 2], &'static str) {
    if r.p(0.5) {
        (if r.p(0.5) { KeyTemplates::new() } else { KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler) }, &KK, "krumhansl")
    } else {
        (KeyTemplates::new_with_template_set(TemplateSet::Temperley), &TE, "temperley")
    }
}

fn k01(c: &mut Case) -> R {
    let v = chroma_any(&mut c.rng, if c.idx % 1000 == 7 { 20_000 } else { 120 });
    let w = weights(&mut c.rng, v.len());
    let (t, set, nm) = set_of(&mut c.rng);
    let d = format!("{} frames, weights {}, {nm}", v.len(), w.is_some());
    if c.idx < 8 || c.rng.p(0.01) {
        for k in 0..24u32 {
            let want = tmpl(set, k as usize);
            let got = if k < 12 { t.get_major_template(k) } else { t.get_minor_template(k - 12) };
            vec_close(&format!("template {k} ({nm})"), got, &want, 1e-5, 1e-6)?;
            vec_close(&format!("template {k} ({nm})"), t.get_template(k), &want, 1e-5, 1e-6)?;
        }
        inval(detect_key(&[], &t), "empty chroma")?;
        inval(detect_key_weighted(&[], &t, Some(&[])), "empty chroma")?;
        inval(detect_key(&[vec![0.1; 11]], &t), "11-element chroma")?;
        inval(detect_key(&[vec![0.1; 12], vec![0.1; 13]], &t), "13-element chroma")?;
        inval(detect_key_weighted(&[vec![0.1; 12]], &t, Some(&[1.0, 1.0])), "weights of another length")?;
        inval(detect_key_weighted(&[vec![0.1; 12], vec![0.1; 12]], &t, Some(&[1.0])), "weights of another length")?;
        c.ev("malformed", 1);
    }
    if v.is_empty() {
        inval(detect_key_weighted(&v, &t, w.as_deref()), "empty chroma")?;
        return Ok(());
    }
    let r = detect_key_weighted(&v, &t, w.as_deref()).map_err(|e| format!("{e}: {d}"))?;
    plain(&r, &d)?;
    if w.is_none() {
        let q = detect_key(&v, &t).map_err(|e| format!("{e}: {d}"))?;
        same_res(&r, &q, "unweighted call", &d)?;
    }
    c.ev("frames", v.len() as u64);
    let b = base_ref(&v, w.as_deref(), set);
    let Some((s, e, norm)) = b else {
        c.ev("ambiguous", 1);
        return Ok(());
    };
    let got = table(&r);
    for i in 0..24 {
        ensure!((got[i] - s[i]).abs() <= 4.0 * e, "score of {:?} is {}, expected {} (±{}): {d}", key_of(i), got[i], s[i], 4.0 * e);
    }
    let mx = s.iter().fold(f64::MIN, |a, x| a.max(*x));
    ensure!(s[idx(r.key)] >= mx - 4.0 * e, "key {:?} scores {}, best is {mx}: {d}", r.key, s[idx(r.key)]);
    c.ev(if norm { "normalised" } else { "unnormalised" }, 1);
    // rotation
    let n = c.rng.us(1, 11);
    let rv: Vec<Vec<f32>> = v.iter().map(|f| (0..12).map(|k| f[(k + 12 - n) % 12]).collect()).collect();
    let rr = detect_key_weighted(&rv, &t, w.as_deref()).map_err(|e| format!("{e}: {d}"))?;
    let rt = table(&rr);
    for i in 0..24 {
        let j = (i % 12 + n) % 12 + i / 12 * 12;
        ensure!((rt[j] - got[i]).abs() <= 8.0 * e, "rotating by {n}: score of {:?} is {}, expected {}: {d}", key_of(j), rt[j], got[i]);
    }
    if norm && mx > 0.0 {
        let k = idx(r.key);
        ensure!(idx(rr.key) == (k % 12 + n) % 12 + k / 12 * 12, "rotating by {n} moved the key from {:?} to {:?}: {d}", r.key, rr.key);
        // scaling
        let g = *c.rng.pick(&[2.0f32, 3.0, 64.0]);
        let sv: Vec<Vec<f32>> = v.iter().map(|f| f.iter().map(|x| x * g).collect()).collect();
        let sr = detect_key_weighted(&sv, &t, w.as_deref()).map_err(|e| format!("{e}: {d}"))?;
        ensure!(sr.key == r.key && (sr.confidence - r.confidence).abs() < 1e-4, "scaling chroma by {g}: {:?} {} became {:?} {}: {d}", r.key, r.confidence, sr.key, sr.confidence);
        let sw: Vec<f32> = w.clone().unwrap_or(vec![1.0; v.len()]).iter().map(|x| x * g).collect();
        let sr = detect_key_weighted(&v, &t, Some(&sw)).map_err(|e| format!("{e}: {d}"))?;
        ensure!(sr.key == r.key && (sr.confidence - r.confidence).abs() < 1e-4, "scaling weights by {g}: {:?} {} became {:?} {}: {d}", r.key, r.confidence, sr.key, sr.confidence);
        c.ev("scaled", 1);
    }
    // frames of zero weight do not matter
    if let Some(w) = &w {
        let mut v2 = v.clone();
        let mut changed = false;
        for (f, wt) in v2.iter_mut().zip(w) {
            if *wt <= 0.0 {
                f.iter_mut().for_each(|x| *x = c.rng.f() as f32 * 9.0);
                changed = true;
            }
        }
        if changed {
            let z = detect_key_weighted(&v2, &t, Some(w)).map_err(|e| format!("{e}: {d}"))?;
            same_res(&r, &z, "changing frames of zero weight", &d)?;
            c.ev("zero_weight", 1);
        }
    }
    c.seen_h(hash_f32(&r.all_scores.iter().map(|x| x.1).collect::<Vec<_>>()));
    c.sample(json!({"case": d, "key": format!("{:?}", r.key), "confidence": r.confidence, "top": format!("{:?}", r.top_keys)}));
    Ok(())
}

fn k02(c: &mut Case) -> R {
    let long = c.rng.p(0.5);
    let v = chroma_any(&mut c.rng, if c.idx % 300 == 7 { 6_000 } else if long { 420 } else { 60 });
    let w = weights(&mut c.rng, v.len());
    let (t, _, nm) = set_of(&mut c.rng);
    let n = v.len();
    let d = format!("{n} frames, weights {}, {nm}", w.is_some());
    if v.is_empty() {
        inval(detect_key_weighted_mode_heuristic(&v, &t, None, 0.1, 0.9, true, 0.1), "empty chroma")?;
        inval(detect_key_multi_scale(&v, &t, None, &[10], 5, 0.0, None, false, 0.1, 0.9, false, 0.1), "empty chroma")?;
        inval(detect_key_median(&v, &t, None, 10, 5, 1), "empty chroma")?;
        inval(detect_key_ensemble(&v, None, 0.5, 0.5), "empty chroma")?;
        return Ok(());
    }
    let base = detect_key_weighted(&v, &t, w.as_deref()).map_err(|e| format!("{e}: {d}"))?;
    // ---- mode heuristic
    let margin = if c.rng.p(0.1) { -0.2 } else { c.rng.range(0.0, 0.5) } as f32;
    let ratio = match c.rng.us(0, 7) { 0 => 0.0, 1 => 1.5, 6 | 7 => 1.0, 2 => -1.0, _ => c.rng.range(0.3, 1.0) } as f32;
    let bonus = c.rng.p(0.5);
    let bw = if c.rng.p(0.15) { *c.rng.pick(&[0.0f32, -0.3]) } else { c.rng.lrange(0.001, 0.8) as f32 };
    let dh = format!("margin {margin} ratio {ratio} bonus {bonus}/{bw}, {d}");
    let h = detect_key_weighted_mode_heuristic(&v, &t, w.as_deref(), margin, ratio, bonus, bw).map_err(|e| format!("{e}: {dh}"))?;
    check_heuristic(c, &v, w.as_deref(), &base, &h, margin as f64, ratio as f64, bonus, bw as f64, &dh)?;
    // ---- ensemble
    let (a, b) = if c.rng.p(0.1) { (0.0, 0.0) } else { (c.rng.f() as f32, c.rng.f() as f32) };
    let e = detect_key_ensemble(&v, w.as_deref(), a, b).map_err(|e| format!("{e}: {d}"))?;
    plain(&e, &format!("ensemble {a}/{b}, {d}"))?;
    let r1 = table(&detect_key_weighted(&v, &KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler), w.as_deref()).map_err(|e| e.to_string())?);
    let r2 = table(&detect_key_weighted(&v, &KeyTemplates::new_with_template_set(TemplateSet::Temperley), w.as_deref()).map_err(|e| e.to_string())?);
    let tot = a as f64 + b as f64;
    let (na, nb) = if tot > 1e-9 { (a as f64 / tot, b as f64 / tot) } else { (0.5, 0.5) };
    let et = table(&e);
    for i in 0..24 {
        ensure!(close(et[i], na * r1[i] + nb * r2[i], 1e-5, 1e-6 * (r1[i].abs() + r2[i].abs())), "ensemble {a}/{b}: {:?} scores {}, expected {}: {d}", key_of(i), et[i], na * r1[i] + nb * r2[i]);
    }
    c.ev("ensemble", 1);
    // ---- multi-scale
    let lens: Vec<usize> = (0..c.rng.us(1, 3)).map(|_| if c.rng.p(0.1) { 0 } else { c.rng.us(1, n + n / 4 + 2) }).collect();
    let hop = if c.rng.p(0.05) { 0 } else { c.rng.us(1 + n / 20, 1 + n / 2) };
    let minc = if c.rng.p(0.2) { 0.0 } else { c.rng.range(0.0, 0.9) } as f32;
    let sw: Option<Vec<f32>> = match c.rng.us(0, 2) { 0 => None, 1 => Some(vec![]), _ => Some((0..c.rng.us(1, 4)).map(|_| if c.rng.p(0.2) { 0.0 } else { c.rng.f() as f32 }).collect()) };
    let heur = c.rng.p(0.4);
    let dm = format!("scales {lens:?} hop {hop} clarity {minc} weights {sw:?} heuristic {heur}, {dh}");
    let one = |s: &[Vec<f32>], w: Option<&[f32]>| {
        if heur || bonus {
            detect_key_weighted_mode_heuristic(s, &t, w, margin, if heur { ratio } else { 0.0 }, bonus, bw)
        } else {
            detect_key_weighted(s, &t, w)
        }
    };
    if hop > 0 || n < 80 {
        let m = detect_key_multi_scale(&v, &t, w.as_deref(), &lens, hop, minc, sw.as_deref(), heur, margin, ratio, bonus, bw).map_err(|e| format!("{e}: {dm}"))?;
        let mut acc = [0.0f64; 24];
        let mut tw = 0.0f64;
        let mut used = 0;
        let mut mag = 0.0f64;
        for (i, &l) in lens.iter().enumerate() {
            if l == 0 || l > n {
                continue;
            }
            let k = sw.as_ref().and_then(|x| x.get(i).copied()).unwrap_or(1.0) as f64;
            if k <= 0.0 {
                continue;
            }
            let mut s = 0;
            while s + l <= n {
                let q = one(&v[s..s + l], w.as_ref().map(|w| &w[s..s + l])).map_err(|e| format!("{e}: {dm}"))?;
                let cl = compute_key_clarity(&q.all_scores);
                if cl >= minc {
                    used += 1;
                    tw += cl as f64 * k;
                    let x = table(&q);
                    for j in 0..24 {
                        acc[j] += x[j] * cl as f64 * k;
                        mag = mag.max(x[j].abs());
                    }
                }
                s += hop.max(1);
            }
        }
        if (tw - 1e-12).abs() < 1e-13 && tw > 0.0 {
            c.ev("ambiguous", 1);
        } else if used == 0 || tw <= 1e-12 {
            let q = one(&v, w.as_deref()).map_err(|e| format!("{e}: {dm}"))?;
            same_res(&m, &q, "multi-scale fallback", &dm)?;
            c.ev("multi_fallback", 1);
        } else {
            plain(&m, &dm)?;
            let x = table(&m);
            for j in 0..24 {
                ensure!((x[j] - acc[j] / tw).abs() <= 2e-5 * mag, "multi-scale score of {:?} is {}, expected {} from {used} segments: {dm}", key_of(j), x[j], acc[j] / tw);
            }
            c.ev("multi_scale", 1);
            c.ev("multi_segments", used);
        }
    }
    if c.rng.p(0.02) {
        inval(detect_key_multi_scale(&v, &t, None, &[], 5, 0.0, None, false, 0.1, 0.9, false, 0.1), "no scales")?;
    }
    // ---- segment majority
    let sl = c.rng.us(0, 250);
    let sh = c.rng.us(1, 150);
    let ms = c.rng.us(0, 6);
    let dq = format!("segments {sl} hop {sh} at least {ms}, {d}");
    let m = detect_key_median(&v, &t, w.as_deref(), sl, sh, ms).map_err(|e| format!("{e}: {dq}"))?;
    ranked(&m, false, &dq)?;
    let l = sl.min(n).max(120);
    let mut seg = vec![];
    let mut s = 0;
    while s + l <= n {
        seg.push(detect_key_weighted(&v[s..s + l], &t, w.as_ref().map(|w| &w[s..s + l])).map_err(|e| format!("{e}: {dq}"))?);
        s += sh;
    }
    if seg.len() < ms.max(1) {
        same_res(&m, &base, "segment-majority fallback", &dq)?;
        c.ev("median_fallback", 1);
    } else {
        let mut cnt: Vec<(Key, usize, f64)> = vec![];
        for q in &seg {
            match cnt.iter_mut().find(|x| x.0 == q.key) {
                Some(x) => { x.1 += 1; x.2 += q.confidence as f64 }
                None => cnt.push((q.key, 1, q.confidence as f64)),
            }
        }
        let mc = cnt.iter().map(|x| x.1).max().unwrap();
        let me = cnt.iter().find(|x| x.0 == m.key);
        ensure!(me.map(|x| x.1) == Some(mc), "majority key {:?} ({me:?}) is not a most frequent of {cnt:?}: {dq}", m.key);
        let bc = cnt.iter().filter(|x| x.1 == mc).map(|x| x.2).fold(0.0, f64::max);
        ensure!(me.unwrap().2 >= bc - 1e-5, "majority key {:?} is less certain than another as frequent one {cnt:?}: {dq}", m.key);
        if cnt.iter().filter(|x| x.1 == mc && x.2 == bc).count() > 1 {
            let first = cnt.iter().find(|x| x.1 == mc && x.2 == bc).unwrap().0;
            ensure!(m.key == first || bc > 0.0, "majority key {:?}, the first of equally frequent keys is {first:?}: {dq}", m.key);
        }
        let tw: f64 = seg.iter().map(|q| q.confidence as f64).sum();
        let x = table(&m);
        for j in 0..24 {
            let want = if tw > 0.0 { seg.iter().map(|q| table(q)[j] * q.confidence as f64).sum::<f64>() / tw } else { 0.0 };
            ensure!(close(x[j], want, 1e-4, 1e-6 * x.iter().fold(0.0f64, |a, b| a.max(b.abs()))), "majority score of {:?} is {}, expected {want}: {dq}", key_of(j), x[j]);
        }
        let me = x[idx(m.key)];
        let other = m.all_scores.iter().find(|q| q.0 != m.key).unwrap().1 as f64;
        ensure!((m.confidence as f64 - lead(me, other)).abs() < 1e-5, "majority confidence {}, expected {}: {dq}", m.confidence, lead(me, other));
        ensure!(m.top_keys[..] == m.all_scores[..3], "alternatives {:?}: {dq}", m.top_keys);
        c.ev("median", 1);
        c.ev("median_segments", seg.len() as u64);
    }
    c.seen_h(hash_f32(&h.all_scores.iter().map(|x| x.1).collect::<Vec<_>>()) ^ hash_f32(&e.all_scores.iter().map(|x| x.1).collect::<Vec<_>>()).rotate_left(3));
    c.sample(json!({"case": dm, "heuristic_key": format!("{:?}", h.key), "ensemble_key": format!("{:?}", e.key)}));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_heuristic(c: &mut Case, v: &[Vec<f32>], w: Option<&[f32]>, base: &KeyDetectionResult, h: &KeyDetectionResult, margin: f64, ratio: f64, bonus: bool, bw: f64, d: &str) -> R {
    let fr = ratio.clamp(0.0, 1.0);
    let flip = fr > 0.0;
    let mut avg = [0.0f64; 12];
    let mut mag = [0.0f64; 12];
    let mut ws = 0.0f64;
    for (i, f) in v.iter().enumerate() {
        let wt = w.map(|w| w[i] as f64).unwrap_or(1.0);
        if wt > 0.0 {
            for k in 0..12 {
                avg[k] += wt * f[k] as f64;
                mag[k] += wt * (f[k] as f64).abs();
            }
            ws += wt;
        }
    }
    if (!bonus && !flip) || ws <= 1e-9 {
        same_res(h, base, "inactive heuristic", d)?;
        ensure!(h.top_keys == base.top_keys, "inactive heuristic changed the alternatives: {d}");
        c.ev("heuristic_inactive", 1);
        return Ok(());
    }
    ranked(h, false, d)?;
    let absum: f64 = avg.iter().map(|x| x.abs()).sum();
    let sum: f64 = avg.iter().sum();
    // mixed-sign chroma: the normalisation is ill-conditioned
    if (sum - 1e-9).abs() < 1e-5 * absum + 1e-13 || sum.abs() < 1e-3 * absum {
        c.ev("heuristic_ill_conditioned", 1);
        return Ok(());
    }
    if sum > 1e-9 {
        avg.iter_mut().for_each(|x| *x /= sum);
    }
    let cond = if sum > 1e-9 { absum / sum } else { 1.0 };
    let am = avg.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    // rounding of long sums
    let n = v.len() as f64;
    let long = if n > 500.0 { 6e-8 * n * mag.iter().fold(0.0f64, |a, x| a.max(*x)) / if sum > 1e-9 { sum } else { 1.0 } * cond } else { 0.0 };
    let mut want = table(base);
    let mut tol = 1e-5 * want.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    if bonus && bw > 0.0 {
        for i in 0..12 {
            want[12 + i] += ws * bw * (avg[(i + 11) % 12] - avg[(i + 10) % 12]);
        }
        tol += 1e-5 * (4.0 + (v.len() as f64).sqrt()) * 0.1 * ws * bw * am * cond + ws * bw * long;
    }
    let got = table(h);
    for i in 0..24 {
        ensure!((got[i] - want[i]).abs() <= tol, "heuristic score of {:?} is {}, expected {} (±{tol}): {d}", key_of(i), got[i], want[i]);
    }
    let best = h.all_scores[0].0;
    let tonic = idx(best) % 12;
    let major = idx(best) < 12;
    let mg = margin.max(0.0);
    let (mut lo, mut hi) = (0.0f64, 0.0f64); // minor, major
    let mut amb = false;
    let tiny = 2e-5 * am * cond + long;
    for (a, b, k) in [(3, 4, 2.0), (8, 9, 1.0), (10, 11, 1.0)] {
        let (x, y) = (avg[(tonic + a) % 12], avg[(tonic + b) % 12]);
        if ((x - y * (1.0 + mg)).abs() < tiny && (x, y) != (0.0, 0.0)) || ((y - x * (1.0 + mg)).abs() < tiny && (x, y) != (0.0, 0.0)) {
            amb = true;
        }
        if x > y * (1.0 + mg) {
            lo += k * (x - y).abs();
        } else if y > x * (1.0 + mg) {
            hi += k * (x - y).abs();
        }
    }
    let tot = lo + hi;
    if tot > 0.0 && (tot - 1e-9).abs() < tiny {
        amb = true;
    }
    let gap = 1.0 + mg * 0.5;
    if tot > 1e-9 && ((lo - hi * gap).abs() < 4.0 * tiny || (hi - lo * gap).abs() < 4.0 * tiny) {
        amb = true;
    }
    let (pm, pj) = (tot > 1e-9 && lo > hi * gap, tot > 1e-9 && hi > lo * gap);
    let sb = got[idx(best)];
    let alt = if major { 12 + tonic } else { tonic };
    let mut expect = best;
    let fr32 = (ratio as f32).clamp(0.0, 1.0) as f64;
    if flip && ((major && pm) || (!major && pj)) && sb > 0.0 {
        if (got[alt] - sb * fr32).abs() < 1e-6 * sb.abs() && got[alt] != sb * fr32 {
            amb = true;
        }
        if got[alt] >= sb * fr32 {
            expect = key_of(alt);
        }
    }
    // whatever the mode, the tonic stays
    ensure!(idx(h.key) % 12 == tonic, "heuristic moved the tonic from {best:?} to {:?}: {d}", h.key);
    if h.key != best {
        ensure!(got[alt] >= sb * fr32 - 1e-5 * sb.abs(), "heuristic flipped to {:?} scoring {} against {sb}: {d}", h.key, got[alt]);
        c.ev("flipped", 1);
    }
    if amb {
        c.ev("heuristic_ambiguous", 1);
    } else {
        ensure!(h.key == expect, "heuristic key {:?}, expected {expect:?} (best {best:?}, minor weight {lo}, major weight {hi}): {d}", h.key);
    }
    let me = got[idx(h.key)];
    let other = (0..24).filter(|i| *i != idx(h.key)).map(|i| got[i]).fold(0.0, f64::max);
    ensure!((h.confidence as f64 - lead(me, other)).abs() < 1e-5, "heuristic confidence {}, expected {}: {d}", h.confidence, lead(me, other));
    let mut top = h.all_scores[..3].to_vec();
    if !top.iter().any(|x| x.0 == h.key) {
        top[2] = (h.key, me as f32);
        c.ev("alternative_replaced", 1);
    }
    ensure!(h.top_keys == top, "alternatives {:?}, expected {top:?}: {d}", h.top_keys);
    c.ev("heuristic", 1);
    Ok(())
}

fn k03(c: &mut Case) -> R {
    if c.rng.p(0.5) {
        // clarity
        let n = if c.rng.p(0.2) { c.rng.us(0, 4) } else { 24 };
        let mut s: Vec<f64> = match c.rng.us(0, 4) {
            0 => vec![c.rng.f(); n],
            1 => (0..n).map(|i| (i == 0) as u8 as f64).collect(),
            2 => (0..n).map(|_| c.rng.range(-1.0, 1.0)).collect(),
            3 => (0..n).map(|_| c.rng.us(0, 3) as f64).collect(),
            _ => (0..n).map(|_| c.rng.f()).collect(),
        };
        let g = if c.rng.p(0.3) { c.rng.lrange(1e-12, 1e6) } else { 1.0 };
        s.sort_by(|a, b| b.total_cmp(a));
        let t: Vec<(Key, f32)> = s.iter().enumerate().map(|(i, x)| (key_of(i), (x * g) as f32)).collect();
        let got = compute_key_clarity(&t);
        let v: Vec<f64> = t.iter().map(|x| x.1 as f64).collect();
        ensure!((0.0..=1.0).contains(&got), "clarity {got} of {v:?}");
        if n < 2 {
            ensure!(got == 0.0, "clarity {got} of {n} scores");
        } else {
            let mean = v.iter().sum::<f64>() / n as f64;
            let range = v[0] - v[n - 1];
            let mx = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
            if range == 0.0 || range < 0.9e-10 {
                ensure!(got == 0.0, "clarity {got} of equal scores {v:?}");
                c.ev("flat_tables", 1);
            } else if range > 1.1e-10 {
                let want = ((v[0] - mean) / range).clamp(0.0, 1.0);
                ensure!((got as f64 - want).abs() <= 1e-5 + 3e-6 * mx / range, "clarity {got}, expected {want} of {v:?}");
            }
            c.seen_h(hash_f32(&t.iter().map(|x| x.1).collect::<Vec<_>>()));
        }
        c.ev("tables", 1);
        return Ok(());
    }
    let v = chroma_any(&mut c.rng, if c.idx % 150 == 7 { 6_000 } else { 300 });
    let n = v.len();
    let sr = *c.rng.pick(&[44100u32, 48000, 22050, 8000]);
    let hop = *c.rng.pick(&[512usize, 1024, 441, 2048]);
    let (t, _, nm) = set_of(&mut c.rng);
    let fps = sr as f64 / hop as f64;
    let total = n as f64 / fps;
    let dur = if c.rng.p(0.1) { c.rng.range(0.0, 2.5 / fps) } else { c.rng.range(0.02, 1.1) * total.max(0.1) } as f32;
    let ov = match c.rng.us(0, 4) { 0 => 0.0, 1 => dur as f64 * c.rng.range(0.9, 1.5), _ => dur as f64 * c.rng.range(0.0, 0.9) } as f32;
    let d = format!("{n} frames, rate {sr} hop {hop}, segments {dur} overlap {ov}, {nm}");
    let (a, b) = (dur as f64 * fps, ov as f64 * fps);
    if [a, b].iter().any(|x| (x - x.round()).abs() < 1e-4 * (1.0 + x) && *x != 0.0) {
        c.ev("ambiguous", 1);
        return Ok(());
    }
    let (sf, of) = (a as usize, b as usize);
    let r = detect_key_changes(&v, sr, hop, &t, dur, ov);
    if n == 0 || sf == 0 || of >= sf || sf > n {
        inval(r, &format!("unusable segments ({d})"))?;
        c.ev("rejected", 1);
        return Ok(());
    }
    let r = r.map_err(|e| format!("{e}: {d}"))?;
    let hf = sf - of;
    let cnt = (n - sf) / hf + 1;
    ensure!(r.segment_keys.len() == cnt, "{} segments, expected {cnt}: {d}", r.segment_keys.len());
    let mut tally = [0usize; 24];
    let mut conf = [0.0f64; 24];
    let mut first = vec![];
    for (i, (ts, k, cf)) in r.segment_keys.iter().enumerate() {
        let q = detect_key(&v[i * hf..i * hf + sf], &t).map_err(|e| format!("{e}: {d}"))?;
        ensure!(q.key == *k && (q.confidence - cf).abs() < 1e-6, "segment {i}: {k:?} {cf}, the detector says {:?} {}: {d}", q.key, q.confidence);
        ensure!(close(*ts as f64, (i * hf) as f64 / fps, 1e-5, 1e-5), "segment {i} at {ts}, expected {}: {d}", (i * hf) as f64 / fps);
        tally[idx(*k)] += 1;
        conf[idx(*k)] += *cf as f64;
        if !first.contains(k) {
            first.push(*k);
        }
    }
    let mx = *tally.iter().max().unwrap();
    let want = first.iter().find(|k| tally[idx(**k)] == mx).unwrap();
    ensure!(r.primary_key == *want, "primary key {:?}, expected {want:?}: {d}", r.primary_key);
    ensure!((r.primary_confidence as f64 - conf[idx(*want)] / mx as f64).abs() < 1e-5, "primary confidence {}: {d}", r.primary_confidence);
    let mut k = 0;
    for i in 1..cnt {
        let (p, q) = (&r.segment_keys[i - 1], &r.segment_keys[i]);
        let cf = (p.2 as f64 + q.2 as f64) / 2.0;
        let hit = r.key_changes.get(k).map(|x| x.timestamp == q.0).unwrap_or(false);
        if (cf - 0.2).abs() > 1e-6 {
            ensure!(hit == (p.1 != q.1 && cf > 0.2), "change at {}: reported {hit}, keys {:?} -> {:?} with confidence {cf}: {d}", q.0, p.1, q.1);
        }
        if hit {
            let x = &r.key_changes[k];
            ensure!(x.from_key == p.1 && x.to_key == q.1 && (x.confidence as f64 - cf).abs() < 1e-5, "change {x:?}: {d}");
            k += 1;
            c.ev("changes", 1);
        } else if p.1 != q.1 {
            c.ev("uncertain_changes", 1);
        }
    }
    ensure!(k == r.key_changes.len(), "unexpected change {:?}: {d}", r.key_changes.get(k));
    c.ev("segments", cnt as u64);
    if cnt > 1 {
        c.seen_h(r.segment_keys.iter().fold(7u64, |a, x| crate::rng::mix(a ^ idx(x.1) as u64 ^ (x.0.to_bits() as u64) << 8)));
        c.sample(json!({"case": d, "segments": cnt, "changes": r.key_changes.len()}));
    }
    Ok(())
}

fn k04(c: &mut Case) -> R {
    const NAMES: [&str; 12] = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"];
    if c.idx < 24 {
        let k = key_of(c.idx);
        let i = c.idx % 12;
        ensure!(k.name() == if c.idx < 12 { NAMES[i].to_string() } else { format!("{}m", NAMES[i]) }, "name of {k:?} is {}", k.name());
        let code = k.numerical();
        ensure!(Key::from_numerical(&code) == Some(k), "{k:?} -> {code} -> {:?}", Key::from_numerical(&code));
        // C and Am are 1; each step up is a fifth
        let steps = ((if c.idx < 12 { i } else { (i + 3) % 12 }) * 7) % 12;
        let want = format!("{}{}", steps + 1, if c.idx < 12 { 'A' } else { 'B' });
        ensure!(code == want, "{k:?} has code {code}, expected {want}");
        for j in 0..24 {
            ensure!(j == c.idx || (key_of(j).name() != k.name() && key_of(j).numerical() != code), "{k:?} and {:?} share a notation", key_of(j));
        }
        c.ev("keys", 1);
        c.seen(&code);
        return Ok(());
    }
    if c.idx % 50 == 0 {
        let i = if c.rng.p(0.5) { c.rng.us(12, 60) as u32 } else { c.rng.u64() as u32 };
        let m = (i % 12) as usize;
        for (k, w) in [(Key::Major(i), key_of(m)), (Key::Minor(i), key_of(12 + m))] {
            ensure!(k.name() == w.name() && k.numerical() == w.numerical(), "{k:?} is called {} and {}, its pitch class {} and {}", k.name(), k.numerical(), w.name(), w.numerical());
        }
        c.ev("tonics_beyond_11", 1);
        c.seen(&format!("tonic {i}"));
        return Ok(());
    }
    let r = &mut c.rng;
    let s: String = match r.us(0, 6) {
        0 => format!("{}{}", r.us(0, 30), *r.pick(&["A", "B", "C", "a", "b", "", "AA", "é", "Ａ"])),
        1 => {
            let mut s = key_of(r.us(0, 23)).numerical();
            let k = r.us(0, s.len());
            s.insert(k, *r.pick(&[' ', '0', '1', '-', '+', 'A', 'B', 'é', '\u{1F3B5}', '.', '\n', '\u{0}']));
            s
        }
        2 => {
            let n = r.us(0, 4);
            (0..n).map(|_| char::from_u32(r.us(0, 0x2FFF) as u32).unwrap_or('x')).collect()
        }
        3 => {
            let n = r.us(0, 4);
            (0..n).map(|_| *r.pick(&['0', '1', '2', '3', '9', 'A', 'B', '+', '-', ' ', '\u{661}'])).collect()
        }
        4 => format!("{}{}", r.u64(), *r.pick(&["A", "B"])),
        5 => {
            let n = r.us(0, 300);
            (0..n).map(|_| *r.pick(&['1', 'A', 'é'])).collect()
        }
        _ => NAMES[r.us(0, 11)].to_string(),
    };
    let got = Key::from_numerical(&s);
    // a number from 1 to 12 followed by A or B
    let want = s.strip_suffix('A').map(|x| (x, 0)).or(s.strip_suffix('B').map(|x| (x, 12))).and_then(|(x, m)| {
        let x = x.strip_prefix('+').unwrap_or(x);
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let x = x.trim_start_matches('0');
        let n: usize = if x.len() > 2 || x.is_empty() { return None } else { x.parse().ok()? };
        if !(1..=12).contains(&n) {
            return None;
        }
        let major = ((n - 1) * 7) % 12;
        Some(key_of(if m == 0 { major } else { 12 + (major + 9) % 12 }))
    });
    ensure!(got == want, "{s:?} parsed as {got:?}, expected {want:?}");
    c.ev(if got.is_some() { "parsed" } else { "refused" }, 1);
    c.seen(&s);
    c.sample(json!({"text": s, "key": format!("{got:?}")}));
    Ok(())
}
