//! G01..G04: beat grid, lattice tracker, drift and metre, adaptive tracker.
use crate::ensure;
use crate::mon::*;
use serde_json::json;
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
use stratum_dsp::features::beat_tracking::tempo_variation::*;
use stratum_dsp::features::beat_tracking::time_signature::*;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "G01", quick: 300_000, thorough: 1_500_000,
            rule: "onset lists (steady, drifting, jittered, gappy, mid-track tempo changes, unsorted, duplicated, random, single) x tempo; every grid judged by order, anchoring, downbeat and stability monitors and against a composition of the tracked lattice, drift segments, adaptive refinement and metre. Distinct: hash of the grid",
            assumptions: &["decisions within single-precision error of their threshold may go either way"],
            min_nontrivial: 500, run: g01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "G02", quick: 900_000, thorough: 1_800_000,
            rule: "sorted onset lists x tempo; tracked beats against the lattice from the first onset. Distinct: hash of the beats",
            assumptions: &["lattice points within single-precision error of the keep distance may go either way"],
            min_nontrivial: 500, run: g02, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "G03", quick: 900_000, thorough: 1_800_000,
            rule: "beat lists (steady, accelerating, gappy, alternating, metrically patterned) through drift detection and metre detection against f64 references. Distinct: hash of segments and metre scores",
            assumptions: &["segments with a beat within rounding error of an edge, spreads within 1e-4 of the limit and metre scores within 1e-5 of each other may go either way"],
            min_nontrivial: 500, run: g03, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "G04", quick: 900_000, thorough: 1_800_000,
            rule: "sequences of 1..12 updates (onsets near, far from and unrelated to the tracked tempo; empty updates; starting tempi inside and outside 60..180) with the whole history monitored after every step. Distinct: hash of the history",
            assumptions: &["tempi whose fit is within 1e-5 of the best may be chosen instead"],
            min_nontrivial: 500, run: g04, serial: false, hang_is_violation: false,
        },
    ]
}

/// onset times in seconds and a tempo to track them with
fn onsets(c: &mut Case) -> (Vec<f32>, f32, String) {
    let r = &mut c.rng;
    let bpm = if r.p(0.85) { r.range(50.0, 200.0) } else if r.p(0.1) { 300.0 } else { r.range(2.0, 300.0) };
    let bpm = if r.p(0.3) { bpm.round().max(2.0) } else { bpm };
    let ib = 60.0 / bpm;
    // now and then a whole track or a long mix
    let long = c.idx % 2500 == 17;
    let dur = if long { r.range(200.0, 1500.0) } else { r.lrange(1.0, 90.0) };
    let kind = if long { r.us(0, 5) } else { r.us(0, 8) };
    let mut v: Vec<f64> = vec![];
    let start = if r.p(0.1) && !long { r.range(100.0, 3000.0) } else { r.range(0.0, 2.0) };
    let cap = if long { 5000 } else { 600 };
    match kind {
        0 | 1 => {
            let j = *r.pick(&[0.0, 0.003, 0.015, 0.04]);
            let drop = *r.pick(&[0.0, 0.0, 0.15, 0.5]);
            let mut t = 0.0;
            while t < dur && v.len() < cap {
                if !r.p(drop) {
                    v.push(start + t + j * r.gauss());
                }
                if kind == 1 && r.p(0.3) {
                    v.push(start + t + ib * *r.pick(&[0.5, 0.25, 0.333, 0.75]));
                }
                t += ib;
            }
        }
        2 => {
            // drift
            let d = r.range(-0.3, 0.3);
            let mut t = 0.0;
            while t < dur && v.len() < cap {
                v.push(start + t);
                t += ib * (1.0 + d * t / dur);
            }
        }
        3 => {
            // tempo change and rests
            let at = r.range(0.2, 0.8) * dur;
            let f = *r.pick(&[1.1, 0.9, 1.5, 2.0, 0.5, 1.03]);
            let mut t = 0.0;
            while t < dur && v.len() < cap {
                if !(t > at && t < at + 3.0 && r.p(0.5)) {
                    v.push(start + t);
                }
                t += if t < at { ib } else { ib * f };
            }
        }
        4 => {
            let n = if long { r.us(100, 3000) } else { r.us(1, 60) };
            for _ in 0..n {
                v.push(start + r.f() * dur);
            }
        }
        5 => {
            // alternating long and short, in units of the beat
            let mut t = 0.0;
            let pat: Vec<f64> = (0..r.us(1, 6)).map(|_| r.us(1, 4) as f64).collect();
            let mut k = 0;
            while t < dur && v.len() < cap {
                v.push(start + t);
                t += ib * pat[k % pat.len()];
                k += 1;
            }
        }
        6 => {
            // dense bursts
            let m = r.us(1, 8);
            for _ in 0..m {
                let t = start + r.f() * dur;
                for k in 0..r.us(1, 30) {
                    v.push(t + k as f64 * r.range(0.0, 0.1));
                }
            }
        }
        7 => {
            // whole-number grid
            let n = r.us(1, 80);
            let q = *r.pick(&[0.5, 0.25, 1.0, 2.0]);
            let s = start.floor();
            let mut t = 0.0;
            for _ in 0..n {
                v.push(s + t);
                t += q * r.us(1, 2) as f64;
            }
        }
        _ => {
            v.push(start);
            if r.p(0.5) {
                v.push(start + r.f());
            }
        }
    }
    if v.is_empty() {
        v.push(start);
    }
    let mut v: Vec<f32> = v.into_iter().map(|x| x as f32).collect();
    if r.p(0.1) && !v.is_empty() {
        let x = v[r.us(0, v.len() - 1)];
        v.push(x);
    }
    let d = format!("kind {kind} bpm {bpm:.3} dur {dur:.1} start {start:.2} n {}", v.len());
    (v, bpm as f32, d)
}
fn t_err(t: f64) -> f64 {
    2.4e-7 * t.abs() + 2e-6
}
const KEEP: f64 = 0.053_650_3; // distance at which exp(-d^2/(2*0.025^2)) = 0.1

fn g02(c: &mut Case) -> R {
    let (mut o, mut bpm, d) = onsets(c);
    o.sort_by(f32::total_cmp);
    if c.rng.p(0.02) {
        bpm = *c.rng.pick(&[0.0f32, -5.0, 300.5, 1e4]);
        let r = HmmBeatTracker::new(bpm, o, 44100).track_beats();
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "tempo {bpm} not rejected");
        let r = HmmBeatTracker::new(120.0, vec![], 44100).track_beats();
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "no onsets not rejected");
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let got = HmmBeatTracker::new(bpm, o.clone(), 44100).track_beats().map_err(|e| format!("{e}: {d}"))?;
    let ib = 60.0 / bpm as f64;
    let (s, e) = (o[0] as f64, *o.last().unwrap() as f64);
    let n = ((e - s) / ib).ceil() as usize + 1;
    let mut k = 0;
    for i in 0..=n {
        let t = s + i as f64 * ib;
        let j = o.partition_point(|x| (*x as f64) < t);
        let mut dist = f64::INFINITY;
        if j < o.len() {
            dist = dist.min((o[j] as f64 - t).abs());
        }
        if j > 0 {
            dist = dist.min((o[j - 1] as f64 - t).abs());
        }
        let er = t_err(t);
        let here = got.get(k).map(|b| (b.time_seconds as f64 - t).abs() <= er).unwrap_or(false);
        if here {
            let b = &got[k];
            ensure!(dist <= KEEP + er + 1e-6, "beat at {t} although the nearest onset is {dist} away: {d}");
            let em = (-dist * dist / (2.0 * 0.025 * 0.025)).exp();
            let al = if dist < 0.05 { 1.0 - dist / 0.05 } else { 0.0 };
            let w = (0.7 * em + 0.3 * al).min(1.0);
            ensure!(b.confidence >= 0.0 && b.confidence <= 1.0 && (b.confidence as f64 - w).abs() <= 25.0 * er + 1e-5, "beat at {t}: confidence {}, expected {w}: {d}", b.confidence);
            k += 1;
        } else {
            ensure!(dist >= KEEP - er - 1e-6 || i >= n, "lattice point {t} (onset {dist} away) has no beat: {d}");
        }
    }
    ensure!(k == got.len(), "beat at {:?} is not on the lattice from {s} in steps of {ib}: {d}", got.get(k).map(|b| b.time_seconds));
    c.ev("lattice_points", n as u64);
    c.ev("beats", got.len() as u64);
    if got.len() > 1 {
        c.seen_h(hash_f32(&got.iter().map(|b| b.time_seconds).collect::<Vec<_>>()));
        c.sample(json!({"case": d, "beats": got.len(), "points": n}));
    }
    Ok(())
}

fn spread(v: &[f64]) -> (f64, f64) {
    let m = v.iter().sum::<f64>() / v.len() as f64;
    let s = (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64).sqrt();
    (m, if m > 1e-10 { s / m } else { 0.0 })
}
fn gaps(b: &[f32]) -> Vec<f64> {
    b.windows(2).map(|w| (w[1] - w[0]) as f64).filter(|x| *x > 0.0).collect()
}

fn g01(c: &mut Case) -> R {
    let (mut o, bpm, d) = onsets(c);
    if c.rng.p(0.3) {
        c.rng.shuffle(&mut o);
    }
    let conf = c.rng.f() as f32;
    if c.rng.p(0.02) {
        let b = *c.rng.pick(&[0.0f32, -1.0, 301.0, f32::NAN, f32::INFINITY]);
        ensure!(matches!(generate_beat_grid(b, conf, &o, 44100), Err(AnalysisError::InvalidInput(_))), "tempo {b} not rejected");
        ensure!(matches!(generate_beat_grid(bpm, conf, &[], 44100), Err(AnalysisError::InvalidInput(_))), "no onsets not rejected");
        let i = c.rng.us(0, o.len() - 1);
        o[i] = *c.rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        ensure!(matches!(generate_beat_grid(bpm, conf, &o, 44100), Err(AnalysisError::InvalidInput(_))), "onset {} not rejected", o[i]);
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let (g, st) = generate_beat_grid(bpm, conf, &o, 44100).map_err(|e| format!("{e}: {d}"))?;
    let mut s = o.clone();
    s.sort_by(f32::total_cmp);
    let ib = 60.0 / bpm as f64;
    let b = &g.beats;
    ensure!(!b.is_empty() && b.iter().all(|x| x.is_finite()), "beats {b:?}: {d}");
    for w in b.windows(2) {
        ensure!(w[1] > w[0], "beats {} and {} out of order or repeated: {d}", w[0], w[1]);
        ensure!((w[1] - w[0]) as f64 > 0.05 - 1e-4, "beats {} and {} closer than 50 ms: {d}", w[0], w[1]);
    }
    let (lo, hi) = (s[0] as f64, *s.last().unwrap() as f64);
    ensure!(b[0] as f64 >= lo - t_err(lo) && *b.last().unwrap() as f64 <= hi + KEEP + t_err(hi), "beats span {}..{}, onsets {lo}..{hi}: {d}", b[0], b.last().unwrap());
    for &x in b {
        let j = s.partition_point(|y| *y < x);
        let mut dist = f64::INFINITY;
        for k in [j.wrapping_sub(1), j] {
            if let Some(y) = s.get(k) {
                dist = dist.min((*y as f64 - x as f64).abs());
            }
        }
        ensure!(dist <= KEEP + t_err(x as f64) + 1e-6, "beat {x} is {dist} s from the nearest onset: {d}");
    }
    ensure!(g.bars == g.downbeats, "bars differ from downbeats: {d}");
    ensure!(g.downbeats.first() == b.first(), "first beat {:?} is not a downbeat {:?}: {d}", b.first(), g.downbeats.first());
    // stability
    let iv = gaps(b);
    let want = if iv.is_empty() { 0.0 } else { 1.0 / (1.0 + spread(&iv).1) };
    ensure!(st >= 0.0 && st <= 1.0 && close(st as f64, want, 0.0, 1e-4 + 20.0 * t_err(hi)), "stability {st}, expected {want}: {d}");
    // downbeats: greedy bar walk in one of the metres
    let mut fits = false;
    let sig = detect_time_signature(b, bpm).map_err(|e| e.to_string())?.0;
    let nbar = sig.beats_per_bar() as f64;
    {
        let bar = nbar * ib;
        let er = 1e-4 + t_err(hi) * 4.0;
        let mut last = b[0] as f64;
        let mut k = 1;
        let mut ok = true;
        let mut amb = false;
        for &x in &b[1..] {
            let dd = (x as f64 - (last + bar)).abs();
            let is = g.downbeats.get(k) == Some(&x);
            if (dd - 0.1 * bar).abs() < er {
                amb = true;
            } else if is != (dd <= 0.1 * bar) {
                ok = false;
            }
            if is {
                k += 1;
                last = x as f64;
            }
        }
        fits |= (ok || amb) && k == g.downbeats.len();
    }
    ensure!(fits, "downbeats {:?} do not follow bars of {nbar} beats of {ib} s through {b:?}: {d}", g.downbeats);
    // composition of the stages
    let tr = HmmBeatTracker::new(bpm, s.clone(), 44100).track_beats().map_err(|e| e.to_string())?;
    let times: Vec<f32> = tr.iter().map(|x| x.time_seconds).collect();
    let seg = detect_tempo_variations(&times, bpm).map_err(|e| e.to_string())?;
    let mut exp = times.clone();
    let mut amb = false;
    if seg.iter().any(|x| x.is_variable) {
        let mut bt = BayesianBeatTracker::new(bpm, conf);
        let mut r: Vec<f32> = vec![];
        for x in &seg {
            if x.is_variable {
                let so: Vec<f32> = s.iter().copied().filter(|t| *t >= x.start_time && *t <= x.end_time).collect();
                if !so.is_empty() {
                    let (nb, _) = bt.update_with_onsets(&so, 44100).map_err(|e| e.to_string())?;
                    if let Ok(v) = HmmBeatTracker::new(nb, so, 44100).track_beats() {
                        r.extend(v.iter().map(|x| x.time_seconds));
                    }
                }
            } else {
                r.extend(times.iter().copied().filter(|t| *t >= x.start_time && *t <= x.end_time));
            }
        }
        if !r.is_empty() {
            r.sort_by(f32::total_cmp);
            let mut u: Vec<f32> = vec![];
            for x in r {
                if let Some(l) = u.last() {
                    if ((x - l) - 0.05).abs() < 1e-5 {
                        amb = true;
                    }
                    if x - l < 0.05 {
                        continue;
                    }
                }
                u.push(x);
            }
            exp = u;
            c.ev("refined_grids", 1);
        }
    }
    if !amb {
        ensure!(exp.len() == b.len(), "{} beats, expected {} ({} segments): {d}", b.len(), exp.len(), seg.len());
        for (x, y) in b.iter().zip(&exp) {
            ensure!((x - y).abs() as f64 <= t_err(hi), "beat {x}, expected {y}: {d}");
        }
    }
    c.ev("beats", b.len() as u64);
    c.ev("downbeats", g.downbeats.len() as u64);
    c.ev(&format!("metre_{nbar}"), 1);
    if b.len() > 2 {
        c.seen_h(hash_f32(b) ^ hash_f32(&g.downbeats));
        c.sample(json!({"case": d, "beats": b.len(), "downbeats": g.downbeats.len(), "stability": st}));
    }
    Ok(())
}

fn g03(c: &mut Case) -> R {
    // beat list
    let r = &mut c.rng;
    let long = c.idx % 1000 == 17;
    let n = if long { r.us(500, 4000) } else if r.p(0.1) { r.us(0, 9) } else { r.us(4, 160) };
    let bpm = r.range(40.0, 200.0);
    let ib = 60.0 / bpm;
    let kind = r.us(0, 5);
    let quant = r.p(0.3);
    let jit = *r.pick(&[0.0, 0.01, 0.05, 0.12, 0.2]);
    let acc = r.range(-0.01, 0.02);
    let pat: Vec<f64> = (0..*r.pick(&[3usize, 4, 6, 5])).map(|_| 1.0 + r.range(-0.3, 0.3)).collect();
    let mut t = if quant { r.us(0, 5) as f64 } else { r.range(0.0, 5.0) };
    let mut b: Vec<f32> = vec![];
    for i in 0..n {
        b.push(t as f32);
        let mut g = match kind {
            0 => ib,
            1 => ib * (1.0 + jit * r.gauss()).max(0.1),
            2 => ib * (1.0 + acc * i as f64).max(0.1),
            3 => ib * pat[i % pat.len()],
            4 => ib * if r.p(0.1) { r.us(2, 12) as f64 } else { 1.0 },
            _ => ib * pat[i % pat.len()] * (1.0 + 0.2 * jit * r.gauss()),
        };
        if quant {
            g = (g * 16.0).round().max(1.0) / 16.0;
        }
        if r.p(0.01) {
            g = 0.0;
        }
        t += g;
    }
    let nom = bpm as f32;
    let slack = if long { 1e-3 } else { 2e-4 };
    let d = format!("{n} beats kind {kind} bpm {bpm:.2} quant {quant}");
    if n >= 8 && c.rng.p(0.02) {
        ensure!(detect_tempo_variations(&b, *c.rng.pick(&[0.0f32, -3.0])).is_err(), "tempo 0 accepted");
        ensure!(detect_time_signature(&b, *c.rng.pick(&[0.0f32, -3.0])).is_err(), "tempo 0 accepted");
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let got = detect_tempo_variations(&b, nom).map_err(|e| format!("{e}: {d}"))?;
    ensure!(has_tempo_variation(&got) == got.iter().any(|s| s.is_variable), "variation flag does not match the segments: {d}");
    let single = |g: &[TempoSegment], cf: f32| -> R {
        ensure!(g.len() == 1 && g[0].bpm == nom && (g[0].confidence - cf).abs() < 1e-6 && !g[0].is_variable, "segments {g:?}, expected one nominal segment: {d}");
        ensure!(g[0].start_time == b.first().copied().unwrap_or(0.0) && g[0].end_time == b.last().copied().unwrap_or(0.0), "nominal segment {:?} does not span the beats: {d}", g[0]);
        Ok(())
    };
    let total = if n > 0 { (b[n - 1] - b[0]) as f64 } else { 0.0 };
    if n < 4 {
        single(&got, 0.5)?;
    } else if total < 2.0 - 1e-4 {
        single(&got, 0.8)?;
    } else if total > 2.0 + 1e-4 {
        let dur = (total / 4.0).clamp(4.0, 8.0);
        let last = b[n - 1] as f64;
        let exact = quant && (dur * 16.0).fract() == 0.0;
        let mut st = b[0] as f64;
        let mut k = 0;
        let mut n_seg = 0;
        let nominal = got.len() == 1 && got[0].bpm == nom && got[0].confidence == 0.8 && got[0].end_time == b[n - 1];
        while st < last - slack || (exact && st < last) {
            let en = (st + dur).min(last);
            let inside: Vec<f32> = b.iter().copied().filter(|x| *x as f64 >= st && *x as f64 <= en).collect();
            let edge = !exact && (((st + dur) - last).abs() < slack || b.iter().any(|x| ((*x as f64 - st).abs() < slack && st > b[0] as f64 + 1e-6) || ((*x as f64 - en).abs() < slack && en < last - 1e-6)));
            let here = !nominal && got.get(k).map(|s| (s.start_time as f64 - st).abs() < 5.0 * slack).unwrap_or(false);
            let iv = gaps(&inside);
            if here {
                let s = &got[k];
                k += 1;
                ensure!((s.end_time as f64 - en).abs() < 5.0 * slack, "segment {s:?} should end at {en}: {d}");
                ensure!((0.0..=1.0).contains(&s.confidence) && s.bpm.is_finite() && s.bpm > 0.0, "segment {s:?}: {d}");
                if !edge {
                    ensure!(inside.len() >= 3 && !iv.is_empty(), "segment {s:?} from {} beats: {d}", inside.len());
                    let (m, cv) = spread(&iv);
                    ensure!(close(s.bpm as f64, 60.0 / m, 1e-4, 0.0), "segment {s:?}: tempo should be {}: {d}", 60.0 / m);
                    ensure!(close(s.confidence as f64, (1.0 - (cv / 0.3).min(1.0)).max(0.0), 0.0, 1e-3), "segment {s:?}: spread {cv}: {d}");
                    ensure!(s.is_variable == (cv > 0.15) || (cv - 0.15).abs() < 1e-4, "segment {s:?}: spread {cv}: {d}");
                    c.ev(if s.is_variable { "variable" } else { "steady" }, 1);
                }
                n_seg += 1;
            } else {
                ensure!(edge || inside.len() < 3 || iv.is_empty(), "no segment at {st}..{en} with {} beats: {d} -> {got:?}", inside.len());
            }
            st += dur * 0.5;
        }
        if n_seg == 0 {
            single(&got, 0.8)?;
        } else {
            // a last window starting within rounding error of the last beat may or may not exist
            ensure!(k == got.len() || (k + 1 == got.len() && (got[k].start_time as f64 - last).abs() < 5.0 * slack), "unexpected segment {:?}: {d}", got.get(k));
        }
        c.ev("segments", n_seg);
    }
    // metre
    let (sig, cf) = detect_time_signature(&b, nom).map_err(|e| format!("{e}: {d}"))?;
    ensure!((0.0..=1.0).contains(&cf), "metre confidence {cf}: {d}");
    let iv = gaps(&b);
    if n < 8 || iv.is_empty() {
        ensure!(sig == TimeSignature::FourFour && cf == 0.5, "metre {sig:?} {cf} from {n} beats: {d}");
    } else {
        let (m, cv) = spread(&iv);
        let sc: Vec<f64> = [4usize, 3, 6]
            .iter()
            .map(|&l| {
                if iv.len() <= l {
                    return 0.0;
                }
                let k = iv.len() - l;
                let s = (0..k).map(|i| 1.0 / (1.0 + (iv[i] - iv[i + l]).abs() / m)).sum::<f64>() / k as f64;
                (0.7 * s + 0.3 / (1.0 + cv)).min(1.0)
            })
            .collect();
        let mx = sc.iter().fold(0.0f64, |a, &x| a.max(x));
        let idx = match sig { TimeSignature::FourFour => 0, TimeSignature::ThreeFour => 1, TimeSignature::SixEight => 2 };
        ensure!(sc[idx] >= mx - if long { 2e-4 } else { 2e-5 }, "metre {} scores {}, best is {mx} ({sc:?}): {d}", sig.name(), sc[idx]);
        ensure!(close(cf as f64, mx, 0.0, 1e-4), "metre confidence {cf}, expected {mx}: {d}");
        c.ev(&format!("metre_{}", sig.name()), 1);
    }
    let bp = sig.beats_per_bar();
    ensure!((sig.name(), bp) == ("4/4", 4) || (sig.name(), bp) == ("3/4", 3) || (sig.name(), bp) == ("6/8", 6), "metre {} has {bp} beats", sig.name());
    if n > 3 {
        c.seen_h(hash_f32(&got.iter().flat_map(|s| [s.start_time, s.bpm, s.confidence]).collect::<Vec<_>>()) ^ cf.to_bits() as u64);
        c.sample(json!({"case": d, "segments": got.len(), "metre": sig.name(), "confidence": cf}));
    }
    Ok(())
}

fn g04(c: &mut Case) -> R {
    let b0 = match c.rng.us(0, 5) {
        0 => c.rng.range(50.0, 70.0),
        1 => c.rng.range(170.0, 190.0),
        2 => c.rng.us(60, 180) as f64,
        3 => c.rng.range(1.0, 299.0),
        _ => c.rng.range(65.0, 175.0),
    } as f32;
    let c0 = c.rng.range(-0.5, 1.5) as f32;
    let mut t = BayesianBeatTracker::new(b0, c0);
    ensure!(t.get_bpm() == b0 && t.get_history() == [b0] && t.get_confidence() == c0.clamp(0.0, 1.0), "new tracker {t:?}");
    let steps = if c.idx % 200 == 9 { c.rng.us(13, 400) } else { c.rng.us(1, 12) };
    let mut hist = vec![b0];
    for k in 0..steps {
        let (bpm, cf, h) = (t.get_bpm(), t.get_confidence(), t.get_history().to_vec());
        if c.rng.p(0.1) {
            let r = t.update_with_onsets(&[], 44100);
            ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "empty update accepted");
            ensure!(t.get_bpm() == bpm && t.get_confidence() == cf && t.get_history() == &h[..], "rejected update changed the tracker");
            c.ev("rejected", 1);
            continue;
        }
        let n = if c.idx % 500 == 17 { c.rng.us(41, 600) } else { c.rng.us(1, 40) };
        let true_bpm = bpm as f64 + *c.rng.pick(&[0.0, 0.5, 1.0, -2.0, 3.0, 7.0, -6.0, 0.23]);
        let ib = 60.0 / true_bpm.max(1.0);
        let s = c.rng.range(0.0, 20.0);
        let jit = *c.rng.pick(&[0.0, 0.005, 0.03, 0.3]);
        let o: Vec<f32> = (0..n).map(|i| (s + i as f64 * ib + jit * c.rng.gauss()) as f32).collect();
        let ctx = format!("step {k}: at {bpm} with {n} onsets at {true_bpm} jitter {jit}");
        let got = t.update_with_onsets(&o, 44100);
        let (gb, gc) = got.map_err(|e| format!("{e}: {ctx}"))?;
        hist.push(gb);
        ensure!(gb == t.get_bpm() && gc == t.get_confidence(), "returned values differ from the state: {ctx}");
        ensure!(t.get_history() == &hist[..], "history {:?}, expected {hist:?}: {ctx}", t.get_history());
        ensure!((0.0..=1.0).contains(&gc), "confidence {gc}: {ctx}");
        // fit of every candidate tempo
        let lo = (bpm as f64 - 5.0).max(60.0);
        let hi = (bpm as f64 + 5.0).min(180.0);
        let mut fits: Vec<(f64, f64)> = vec![];
        let mut x = lo;
        let mut fuzzy = false;
        while x <= hi + 1e-4 {
            let p = 60.0 / x;
            let mut l = 0.0;
            for v in &o {
                let d0 = *v as f64 - o[0] as f64;
                let q = d0 / p;
                // halfway onsets: both sides are equally far
                if (q.abs().fract() - 0.5).abs() < 1e-4 {
                    fuzzy = true;
                }
                let dist = (d0 - q.round() * p).abs();
                l -= dist * dist / (2.0 * 0.05 * 0.05);
            }
            fits.push((x, (l / n as f64).exp()));
            x += 0.5;
        }
        let _ = fuzzy;
        if lo > hi + 1e-4 {
            ensure!(gb == bpm && gc == 0.0, "moved to {gb} ({gc}) although no tempo is in reach: {ctx}");
            c.ev("out_of_reach", 1);
            continue;
        }
        let mx = fits.iter().filter(|f| f.0 < hi - 2e-4 || (f.0 <= hi && (f.0 * 8.0).fract() == 0.0)).fold(0.0f64, |a, f| a.max(f.1));
        let tmax = (*o.last().unwrap() - o[0]).abs() as f64;
        let tol = (2e-3 + 3e-5 * tmax) * mx + 1e-30;
        if mx < 1e-30 {
            continue;
        }
        let me = fits.iter().find(|f| (f.0 - gb as f64).abs() < 1e-3);
        let me = me.ok_or(format!("moved to {gb}, not a half-BPM step within five BPM inside 60..180: {ctx}"))?;
        ensure!(me.1 >= mx - tol, "moved to {gb} (fit {}) although the best fit is {mx} ({fits:?}): {ctx}", me.1);
        if o.iter().all(|v| *v == o[0]) {
            ensure!((gb as f64 - lo).abs() < 1e-3, "moved to {gb}: all tempi fit equally, expected the lowest {lo}: {ctx}");
        }
        let ch = (gb - bpm).abs();
        let pen = |x: f32| if x < 1.0 { 1.0 } else if x < 3.0 { 0.8 } else { 0.5 };
        // whole and half tempi move by exact steps
        let slack = if (bpm * 2.0).fract() == 0.0 { 0.0 } else { 1e-4 };
        let ok = [ch - slack, ch, ch + slack].iter().any(|h| close(gc as f64, (me.1 * pen(*h)).min(1.0), 3e-3 + 3e-5 * tmax, 1e-6));
        ensure!(ok, "confidence {gc} for a move of {ch} with fit {}: {ctx}", me.1);
        c.ev("updates", 1);
        c.ev(if ch == 0.0 { "stayed" } else { "moved" }, 1);
    }
    if hist.len() > 1 {
        c.seen_h(hash_f32(&hist) ^ t.get_confidence().to_bits() as u64);
        c.sample(json!({"history": hist}));
    }
    Ok(())
}
