//! B01..B05: onset-based tempo, novelty curves, tempograms.
use crate::ensure;
use crate::gen;
use crate::mon::*;
use serde_json::json;
use stratum_dsp::features::period::comb_filter::*;
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::tempogram_autocorr::*;
use stratum_dsp::features::period::tempogram_fft::*;
use stratum_dsp::features::period::*;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "B01", quick: 30_000, thorough: 600_000,
            rule: "onset trains (periodic, jittered, gappy, polyrhythmic, random, unsorted, duplicated) x rate x hop x tempo range; proposals against a direct integer autocorrelation; plus random signals through the peak picker. Distinct: hash of the proposals",
            assumptions: &["lags whose tempo is within 1e-5 of the range ends, and prominences within 1e-3 of the 10 percent rule, may go either way"],
            min_nontrivial: 300, run: b01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "B02", quick: 6_000, thorough: 120_000,
            rule: "onset trains x rate x tempo range x resolution; every grid tempo scored by an interval-valued reference, coarse-to-fine search against its two passes. Distinct: hash of the proposals",
            assumptions: &["beats whose distance to the nearest onset is within single-precision error of the tolerance may count or not"],
            min_nontrivial: 300, run: b02, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "B03", quick: 600_000, thorough: 1_200_000,
            rule: "random proposal lists (agreeing, octave-related, out of range, boundary values) merged and compared with a reference merge; onset trains with and without guardrails through the complete onset-based estimator. Distinct: hash of the merged list",
            assumptions: &["cases in which a decision falls within 1e-4 of its threshold without being exactly on it are skipped"],
            min_nontrivial: 500, run: b03, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "B04", quick: 600_000, thorough: 1_200_000,
            rule: "random spectrograms through every novelty function and the combiner, compared with f64 reference curves; band-over-everything equality; malformed input. Distinct: hash of the curve",
            assumptions: &["curves whose maximum is below the single-precision noise of the features are only range-checked", "mel filter edges that round within 0.005 bin of a tie are skipped"],
            min_nontrivial: 500, run: b04, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "B05", quick: 40_000, thorough: 160_000,
            rule: "random novelty curves (periodic, noisy, flat, sparse; 1..3000 values) x rate x hop x range x resolution; both tempograms against direct f64 transforms. Distinct: hash of the tempogram",
            assumptions: &["lags within 1e-5 of an integer may truncate either way"],
            min_nontrivial: 300, run: b05, serial: false, hang_is_violation: false,
        },
    ]
}

pub fn trains(c: &mut Case, sr: u32, max_s: f64) -> Vec<usize> {
    // now and then the onsets of a whole track
    let long = max_s > 10.0 && c.idx % 300 == 7;
    let dur = if long { c.rng.range(100.0, 900.0) } else { c.rng.lrange(0.5, max_s) };
    let mut v = match c.rng.us(0, 7) {
        0 => {
            // exactly periodic in samples
            let per = c.rng.lrange(0.2, 2.0) * sr as f64;
            let per = (per as usize).max(1);
            let n = if long { c.rng.us(80, 2000) } else { c.rng.us(1, 80) };
            let off = c.rng.us(0, per);
            (0..n).map(|k| off + k * per).collect()
        }
        1 => {
            let n = if long { c.rng.us(60, 2000) } else { c.rng.us(0, 60) };
            (0..n).map(|_| (c.rng.f() * dur * sr as f64) as usize).collect()
        }
        2 => {
            let (mut a, bpm) = gen::onset_train(&mut c.rng, sr, dur);
            let r = *c.rng.pick(&[1.5, 2.0, 3.0, 4.0 / 3.0]);
            let ib = 60.0 / (bpm * r);
            let mut t = c.rng.range(0.0, 0.3);
            while t < dur {
                a.push((t * sr as f64) as usize);
                t += ib;
            }
            a.sort_unstable();
            a.dedup();
            a
        }
        _ => gen::onset_train(&mut c.rng, sr, dur).0,
    };
    if c.rng.p(0.1) {
        c.rng.shuffle(&mut v);
    }
    if c.rng.p(0.1) && !v.is_empty() {
        let x = v[c.rng.us(0, v.len() - 1)];
        v.push(x);
    }
    v.truncate(if long { 4000 } else { 400 });
    v
}
pub fn bpm_range(c: &mut Case) -> (f32, f32) {
    match c.rng.us(0, 4) {
        0 => (40.0, 240.0),
        1 => (60.0, 180.0),
        2 => {
            let a = c.rng.range(20.0, 150.0) as f32;
            (a, a + c.rng.range(1.0, 200.0) as f32)
        }
        3 => (c.rng.us(30, 90) as f32, c.rng.us(120, 300) as f32),
        _ => (c.rng.range(30.0, 90.0) as f32, c.rng.range(120.0, 300.0) as f32),
    }
}
fn bad_range(c: &mut Case) -> (f32, f32) {
    *c.rng.pick(&[(0.0f32, 180.0f32), (-10.0, 180.0), (180.0, 60.0), (100.0, 100.0), (60.0, 0.0), (60.0, -1.0)])
}
fn invalid<T: std::fmt::Debug>(r: Result<T, AnalysisError>, what: &str) -> R {
    ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "{what} not rejected as invalid: {:?}", r.map(|_| ()));
    Ok(())
}

fn b01(c: &mut Case) -> R {
    if c.idx % 6 == 0 {
        return b01_peaks(c);
    }
    let sr = *c.rng.pick(&[8000u32, 11025, 22050, 44100, 48000, 96000]);
    let hop = *c.rng.pick(&[64usize, 128, 256, 512, 512, 441, 1024, 1]);
    let hop = if hop == 1 && c.rng.p(0.9) { 512 } else { hop };
    let ons = trains(c, sr, if hop < 64 { 3.0 } else { 60.0 });
    let (lo, hi) = bpm_range(c);
    if c.rng.p(0.04) {
        let (a, b) = bad_range(c);
        invalid(estimate_bpm_from_autocorrelation(&[1000, 20000, 40000], sr, hop, a, b), "tempo range")?;
        invalid(estimate_bpm_from_autocorrelation(&[1000, 20000], 0, hop, lo, hi), "rate 0")?;
        invalid(estimate_bpm_from_autocorrelation(&[1000, 20000], sr, 0, lo, hi), "hop 0")?;
        invalid(estimate_bpm_from_autocorrelation(&[], sr, hop, lo, hi), "no onsets")?;
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let ctx = format!("{} onsets sr {sr} hop {hop} range {lo}..{hi}", ons.len());
    let r = estimate_bpm_from_autocorrelation(&ons, sr, hop, lo, hi);
    if ons.is_empty() {
        return invalid(r, "empty onset list");
    }
    if ons.len() < 2 {
        ensure!(r.map_err(|e| e.to_string())?.is_empty(), "proposals from one onset");
        return Ok(());
    }
    let n = ons.iter().max().unwrap() / hop + 1;
    if n < 2 {
        ensure!(r.is_err(), "one-frame signal accepted: {ctx}");
        return Ok(());
    }
    let got = r.map_err(|e| format!("{e}: {ctx}"))?;
    let mut fr: Vec<usize> = ons.iter().map(|o| o / hop).collect();
    fr.sort_unstable();
    fr.dedup();
    // integer autocorrelation
    let mut acf = vec![0u32; n];
    for i in 0..fr.len() {
        for j in i..fr.len() {
            acf[fr[j] - fr[i]] += 1;
        }
    }
    let a = 60.0 * sr as f64 / hop as f64;
    let (xl, xh) = (a / hi as f64, a / lo as f64);
    // whole numbers throughout: the ends of the lag range are exact
    let whole = |x: f64, b: f32| a.fract() == 0.0 && b.fract() == 0.0 && x.fract() == 0.0;
    let amb_lo = (xl - xl.round()).abs() < 1e-5 * xl && !whole(xl, hi);
    let amb_hi = (xh - xh.round()).abs() < 1e-5 * xh && !whole(xh, lo);
    if whole(xl, hi) || whole(xh, lo) {
        c.ev("range_end_exact", 1);
    }
    let lag_min = xl.ceil() as usize;
    let lag_max = xh.floor() as usize;
    for w in got.windows(2) {
        ensure!(w[0].confidence >= w[1].confidence, "proposals not ranked: {ctx}");
    }
    for g in &got {
        ensure!(g.bpm >= lo && g.bpm <= hi, "tempo {} outside the range: {ctx}", g.bpm);
        ensure!((0.0..=1.0).contains(&g.confidence), "confidence {}: {ctx}", g.confidence);
        let lag = a / g.bpm as f64;
        ensure!((lag - lag.round()).abs() < 1e-4 * lag.max(10.0), "tempo {} is not a whole lag ({lag}): {ctx}", g.bpm);
        let l = lag.round() as usize;
        ensure!(l >= 1 && l + 1 < n.max(l + 2) && l < n, "lag {l} beyond the signal ({n}): {ctx}");
        let nb = acf[l - 1].max(*acf.get(l + 1).unwrap_or(&0));
        ensure!(acf[l] > nb, "lag {l}: {} coincidences, neighbours up to {nb}: {ctx}", acf[l]);
        ensure!(close(g.confidence as f64, acf[l] as f64 / acf[0] as f64, 1e-4, 1e-4), "lag {l}: confidence {}, expected {}/{}: {ctx}", g.confidence, acf[l], acf[0]);
    }
    let mut lags: Vec<usize> = got.iter().map(|g| (a / g.bpm as f64).round() as usize).collect();
    lags.sort_unstable();
    for w in lags.windows(2) {
        ensure!(w[0] != w[1], "lag {} proposed twice: {ctx}", w[0]);
    }
    if amb_lo || amb_hi {
        c.ev("range_end_ambiguous", 1);
        return Ok(());
    }
    if lag_min >= lag_max || lag_max >= n {
        ensure!(got.is_empty(), "proposals although the range does not fit the signal: {ctx}");
        c.ev("range_does_not_fit", 1);
        return Ok(());
    }
    let mx = *acf[lag_min..=lag_max].iter().max().unwrap();
    let mut want = 0;
    for l in lag_min + 1..lag_max {
        let nb = acf[l - 1].max(acf[l + 1]);
        if acf[l] <= nb {
            continue;
        }
        let prom = (acf[l] - nb) as f64;
        if (prom - 0.1 * mx as f64).abs() < 1e-3 * mx as f64 {
            continue;
        }
        let has = lags.binary_search(&l).is_ok();
        if prom > 0.1 * mx as f64 {
            want += 1;
            ensure!(has, "recurring lag {l} ({} coincidences, neighbours {nb}, max {mx}) not proposed: {ctx}", acf[l]);
        } else {
            ensure!(!has, "lag {l} proposed although it hardly stands out ({} vs {nb}, max {mx}): {ctx}", acf[l]);
        }
    }
    for &l in &lags {
        ensure!(l > lag_min && l < lag_max, "lag {l} at the edge of the range {lag_min}..{lag_max}: {ctx}");
    }
    // whole-hop periodic trains propose their own tempo
    let d: Vec<usize> = fr.windows(2).map(|w| w[1] - w[0]).collect();
    if d.len() >= 2 && d.iter().all(|x| *x == d[0]) && d[0] > lag_min && d[0] < lag_max && d[0] > 1 {
        ensure!(lags.binary_search(&d[0]).is_ok(), "periodic train with a period of {} hops does not propose it: {ctx}", d[0]);
        c.ev("periodic_trains", 1);
    }
    c.ev("lags_judged", (lag_max - lag_min) as u64);
    c.ev("certain_proposals", want);
    if !got.is_empty() {
        c.seen(&format!("{lags:?}{n}"));
        c.sample(json!({"case": ctx, "proposals": got.len(), "best": got[0].bpm}));
    }
    Ok(())
}

fn b01_peaks(c: &mut Case) -> R {
    // now and then a long curve with few spikes
    let long = c.rng.p(0.01);
    let n = if long { c.rng.us(200, 80000) } else { c.rng.us(0, 80) };
    let q = c.rng.p(0.6);
    let neg = c.rng.p(0.2);
    let s: Vec<f32> = if long {
        let mut s = vec![0.0f32; n];
        for _ in 0..c.rng.us(2, 40) {
            let i = c.rng.us(0, n - 1);
            let k = c.rng.us(1, 3);
            for j in 0..k {
                let at = (i + j * c.rng.us(1, 400)).min(n - 1);
                s[at] = if q { c.rng.us(1, 5) as f32 } else { c.rng.range(0.5, 4.0) as f32 };
            }
        }
        s
    } else { (0..n).map(|_| { let x = if neg { c.rng.gauss() } else { c.rng.f() } * 4.0; (if q { x.round() } else { x }) as f32 }).collect() };
    let thr = *c.rng.pick(&[0.0f32, 0.1, 0.5, 0.9, 1.0, 2.0, -1.0]);
    let md = if long { c.rng.us(0, 500) } else { c.rng.us(0, 8) };
    let got = find_peaks(&s, thr, md);
    let mx = s.iter().fold(0.0f32, |a, &x| a.max(x));
    let ctx = format!("find_peaks n {n} thr {thr} dist {md} {:?}", &s[..n.min(80)]);
    if n < 3 || mx < 1e-10 {
        ensure!(got.is_empty(), "peaks in nothing: {ctx}");
        return Ok(());
    }
    let t = if thr > 0.0 && thr < 1.0 { mx * thr } else { thr };
    if s.iter().any(|x| *x != t && (x - t).abs() < 1e-5) {
        return Ok(());
    }
    let is_peak = |i: usize| (i == 0 || s[i] > s[i - 1]) && (i + 1 == n || s[i] > s[i + 1]) && s[i] >= t;
    for w in got.windows(2) {
        ensure!(w[0].1 >= w[1].1, "peaks not ranked: {ctx}");
    }
    for (k, g) in got.iter().enumerate() {
        ensure!(g.0 < n && s[g.0] == g.1 && is_peak(g.0), "{g:?} is not a peak: {ctx}");
        for h in &got[..k] {
            ensure!(g.0 != h.0 && (md == 0 || g.0.abs_diff(h.0) >= md), "peaks {g:?} {h:?} too close: {ctx}");
        }
    }
    for i in 0..n {
        if is_peak(i) && !got.iter().any(|g| g.0 == i) {
            ensure!(md > 0 && got.iter().any(|g| g.0.abs_diff(i) < md && g.1 >= s[i]), "peak at {i} missing: {ctx} -> {got:?}");
        }
    }
    c.ev("peak_lists", 1);
    c.seen(&format!("pk{got:?}"));
    Ok(())
}

/// score interval of one tempo: [lo, hi]
fn comb_score(ons: &[usize], sr: u32, bpm: f64, dbpm: f64) -> (f64, f64) {
    let per = 60.0 * sr as f64 / bpm;
    let tol = (0.1 * (120.0 / bpm)).clamp(0.05, 0.15) * per;
    let last = *ons.last().unwrap() as f64;
    let x = last / per;
    let rel = 4e-7 + dbpm / bpm;
    let n1 = (x * (1.0 - rel)).ceil() as usize + 1;
    let n2 = (x * (1.0 + rel)).ceil() as usize + 1;
    let (mut lo, mut hi) = (f64::INFINITY, 0.0f64);
    for n in [n1, n2] {
        let (mut a, mut b) = (0usize, 0usize);
        for k in 0..n {
            let e = k as f64 * per;
            let i = ons.partition_point(|&o| (o as f64) < e);
            let mut d = f64::INFINITY;
            if i < ons.len() {
                d = d.min(ons[i] as f64 - e);
            }
            if i > 0 {
                d = d.min(e - ons[i - 1] as f64);
            }
            let err = 1.0 + e * rel * 2.0 + tol * 1e-5;
            if d <= tol - err {
                a += 1;
            }
            if d <= tol + err {
                b += 1;
            }
        }
        lo = lo.min(a as f64 / n as f64);
        hi = hi.max(b as f64 / n as f64);
    }
    (lo, hi)
}

fn check_comb(got: &[BpmCandidate], ons: &[usize], sr: u32, lo: f32, hi: f32, res: f32, ctx: &str) -> Result<usize, String> {
    let mut s = ons.to_vec();
    s.sort_unstable();
    let nk = ((hi as f64 - lo as f64) / res as f64 + 1e-3).floor() as usize + 1;
    let drift = |k: usize| 2e-5 * (k as f64 + 1.0) * (hi as f64 / 100.0).max(1.0);
    // interval scores on the grid
    let mut by_k: Vec<Option<f32>> = vec![None; nk + 1];
    for w in got.windows(2) {
        ensure!(w[0].confidence >= w[1].confidence, "proposals not ranked: {ctx}");
    }
    let mut at = vec![0.0f64; nk + 1];
    for k in 0..=nk {
        at[k] = lo as f64 + k as f64 * res as f64;
    }
    for g in got {
        ensure!(g.bpm >= lo - 1e-3 && g.bpm <= hi + 1e-3, "tempo {} outside the range: {ctx}", g.bpm);
        ensure!(g.confidence >= 0.0 && g.confidence <= 1.0, "confidence {}: {ctx}", g.confidence);
        let k = ((g.bpm as f64 - lo as f64) / res as f64).round() as usize;
        ensure!(k <= nk && (g.bpm as f64 - at[k]).abs() <= drift(k), "tempo {} is not on the grid: {ctx}", g.bpm);
        ensure!(by_k[k].is_none(), "tempo {} reported twice: {ctx}", g.bpm);
        by_k[k] = Some(g.confidence);
        at[k] = g.bpm as f64;
    }
    let sc: Vec<(f64, f64)> = (0..nk).map(|k| comb_score(&s, sr, at[k], if by_k[k].is_some() { 1e-6 } else { drift(k) })).collect();
    let mlo = sc.iter().fold(0.0f64, |a, x| a.max(x.0));
    let mhi = sc.iter().fold(0.0f64, |a, x| a.max(x.1));
    if mhi == 0.0 {
        ensure!(got.is_empty(), "proposals although no beat is supported: {ctx}");
        return Ok(0);
    }
    if mlo == 0.0 {
        return Ok(0);
    }
    for k in 0..nk {
        let (a, b) = (sc[k].0 / mhi, (sc[k].1 / mlo).min(1.0));
        match by_k[k] {
            Some(v) => {
                let v = v as f64;
                ensure!(v >= a - 1e-5 && v <= b + 1e-5, "tempo {}: score {v}, expected {a}..{b}: {ctx}", at[k]);
                ensure!(v >= 0.1 - 1e-6, "tempo {} reported with score {v}: {ctx}", at[k]);
            }
            // the last grid point may or may not be inside the range
            None => ensure!(a <= 0.1 + 1e-5 || (k + 1 == nk && at[k] > hi as f64 - drift(k)), "tempo {} with score {a}..{b} missing: {ctx}", at[k]),
        }
    }
    Ok(nk)
}

fn b02(c: &mut Case) -> R {
    let sr = *c.rng.pick(&[8000u32, 22050, 44100, 48000]);
    let (lo, hi) = bpm_range(c);
    let res = *c.rng.pick(&[0.5f32, 1.0, 1.0, 2.0, 0.25, 3.7]);
    if c.rng.p(0.05) {
        let (a, b) = bad_range(c);
        let o = [1000usize, 20000, 40000];
        invalid(estimate_bpm_from_comb_filter(&o, sr, 512, a, b, 1.0), "tempo range")?;
        invalid(estimate_bpm_from_comb_filter(&o, 0, 512, lo, hi, 1.0), "rate 0")?;
        invalid(estimate_bpm_from_comb_filter(&o, sr, 512, lo, hi, *c.rng.pick(&[0.0f32, -1.0])), "resolution")?;
        invalid(estimate_bpm_from_comb_filter(&[], sr, 512, lo, hi, 1.0), "no onsets")?;
        invalid(coarse_to_fine_search(&o, sr, 512, a, b, 3.0), "tempo range")?;
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let ons = trains(c, sr, 40.0);
    if ons.is_empty() {
        return Ok(());
    }
    let ctx = format!("{} onsets sr {sr} range {lo}..{hi} step {res}", ons.len());
    let hop = *c.rng.pick(&[1usize, 256, 512]);
    let got = estimate_bpm_from_comb_filter(&ons, sr, hop, lo, hi, res).map_err(|e| format!("{e}: {ctx}"))?;
    if ons.len() < 2 {
        ensure!(got.is_empty(), "proposals from one onset");
        return Ok(());
    }
    let n = check_comb(&got, &ons, sr, lo, hi, res, &ctx)?;
    c.ev("tempi_scored", n as u64);
    c.ev("proposals", got.len() as u64);
    if c.rng.p(0.5) {
        let rr = *c.rng.pick(&[1.0f32, 2.0, 3.0, 5.0]);
        let f = coarse_to_fine_search(&ons, sr, hop, lo, hi, rr).map_err(|e| format!("{e}: {ctx}"))?;
        let coarse = estimate_bpm_from_comb_filter(&ons, sr, hop, lo, hi, 2.0).map_err(|e| e.to_string())?;
        if coarse.is_empty() {
            ensure!(f.is_empty(), "refined proposals without a coarse one");
        } else {
            let b = coarse[0].bpm;
            let (fl, fh) = ((b - rr).max(lo), (b + rr).min(hi));
            for g in &f {
                ensure!(g.bpm >= fl - 1e-3 && g.bpm <= fh + 1e-3, "refined tempo {} not within {rr} of the coarse winner {b} and the range: {ctx}", g.bpm);
            }
            if fl < fh {
                let n = check_comb(&f, &ons, sr, fl, fh, 0.5, &format!("refined around {b} +-{rr}: {ctx}"))?;
                c.ev("refined_scored", n as u64);
            }
        }
    }
    if !got.is_empty() {
        c.seen(&format!("{:?}", got.iter().map(|g| (g.bpm.to_bits(), g.confidence.to_bits())).collect::<Vec<_>>()));
        c.sample(json!({"case": ctx, "best": got[0].bpm, "proposals": got.len()}));
    }
    Ok(())
}

/// tracks whether a decision was too close to call
#[derive(Default)]
/// (too close to call, exact equality can be trusted)
pub struct Amb(pub bool, pub bool);
impl Amb {
    pub fn near(&mut self, a: f64, b: f64) {
        if !(a == b && self.1) && (a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs()) * 0.01) {
            self.0 = true;
        }
    }
    pub fn lt(&mut self, a: f64, b: f64) -> bool {
        self.near(a, b);
        a < b
    }
    pub fn le(&mut self, a: f64, b: f64) -> bool {
        self.near(a, b);
        a <= b
    }
    pub fn within(&mut self, x: f64, a: f64, b: f64) -> bool {
        self.le(a, x) & self.le(x, b)
    }
}

#[derive(Clone, Debug)]
struct Est {
    bpm: f64,
    conf: f64,
    n: u32,
}
fn ref_merge(ac: &[BpmCandidate], cb: &[BpmCandidate], cents: f32, am: &mut Amb) -> Vec<Est> {
    let tol = (cents as f64 / 1200.0).exp2() - 1.0;
    let mut a: Vec<(f64, f64)> = ac.iter().map(|x| (x.bpm as f64, x.confidence as f64)).collect();
    let b: Vec<(f64, f64)> = cb.iter().map(|x| (x.bpm as f64, x.confidence as f64)).collect();
    let top3: Vec<f64> = b.iter().take(3).map(|x| x.0).collect();
    for x in a.iter_mut() {
        for &t in &top3 {
            if am.lt((x.0 / t / 2.0 - 1.0).abs(), tol) {
                let ok = am.within(t, 60.0, 180.0) || am.lt(200.0, x.0) || am.lt(x.0, 30.0);
                if ok {
                    x.0 = t;
                    break;
                }
            }
        }
    }
    for x in a.iter_mut() {
        for &t in &top3 {
            if am.lt((t / x.0 / 2.0 - 1.0).abs(), tol) && am.within(t, 60.0, 180.0) {
                x.0 = t;
                break;
            }
        }
    }
    let dis = match (a.first(), b.first()) {
        (Some(x), Some(y)) => {
            let d = (x.0 - y.0).abs();
            am.lt(10.0, d) & am.lt(d, 50.0)
        }
        _ => false,
    };
    let mut al: Vec<(f64, f64)> = a.iter().take(10).cloned().collect();
    for x in &a {
        if am.within(x.0, 60.0, 180.0) {
            let mut dup = false;
            for y in &al {
                if am.lt((y.0 - x.0).abs(), 1.0) {
                    dup = true;
                    break;
                }
            }
            if !dup {
                al.push(*x);
            }
        }
    }
    let bl: Vec<(f64, f64)> = b.iter().take(10).cloned().collect();
    let mut g: Vec<(f64, f64, u32, f64)> = vec![];
    for x in al.iter().chain(&bl) {
        let mut hit = false;
        for y in g.iter_mut() {
            if am.le((x.0 - y.0).abs(), 2.0) {
                y.0 = (y.0 * y.2 as f64 + x.0) / (y.2 + 1) as f64;
                y.1 += x.1;
                y.2 += 1;
                y.3 = y.3.max(x.1);
                hit = true;
                break;
            }
        }
        if !hit {
            g.push((x.0, x.1, 1, x.1));
        }
    }
    let mut e: Vec<Est> = g
        .iter()
        .map(|y| {
            let mut conf = if y.2 >= 2 { ((y.1 / y.2 as f64 + y.3) / 2.0 * 1.2).min(1.0) } else { y.1.min(1.0) };
            if dis && y.2 == 1 {
                conf *= 0.7;
            }
            Est { bpm: y.0, conf, n: y.2 }
        })
        .collect();
    let harm = |x: f64, y: f64, am: &mut Amb| {
        let r = (x / y).max(y / x);
        am.lt((r - 2.0).abs(), 0.1) | am.lt((r - 1.5).abs(), 0.1)
    };
    for x in e.iter_mut() {
        let (mut ad, mut cd, mut ah, mut ch) = (false, false, false, false);
        for y in al.iter().take(5) {
            ad |= am.lt((y.0 - x.bpm).abs(), 2.5);
            ah |= harm(y.0, x.bpm, am);
        }
        for y in bl.iter().take(5) {
            cd |= am.lt((y.0 - x.bpm).abs(), 2.5);
            ch |= harm(y.0, x.bpm, am);
        }
        if ad && cd {
            x.conf *= 1.5;
        } else if (ad && ch) || (cd && ah) {
            x.conf *= 1.3;
        }
        if cd && am.within(x.bpm, 60.0, 180.0) {
            x.conf *= 1.4;
        }
    }
    let inr: Vec<bool> = e.iter().map(|x| am.within(x.bpm, 60.0, 180.0)).collect();
    if !inr.iter().take(5).any(|x| *x) {
        if let Some(i) = inr.iter().position(|x| *x) {
            e[i].conf *= 2.0;
        }
    }
    e
}
/// Some(true): a must come before b; Some(false): b before a; None: free
fn ranks_before(a: &Est, b: &Est) -> Option<bool> {
    let inr = |e: &Est| e.bpm >= 60.0 && e.bpm <= 180.0;
    let eff = |e: &Est| if inr(e) { e.conf } else { e.conf * 0.5 };
    let (x, y) = (eff(a), eff(b));
    if inr(a) != inr(b) {
        let d = (x - y).abs();
        if (d - 0.5).abs() < 1e-4 {
            return None;
        }
        if d < 0.5 {
            return Some(inr(a));
        }
        return Some(x > y);
    }
    if (x - y).abs() < 1e-5 {
        return None;
    }
    Some(x > y)
}

fn proposals(c: &mut Case, n: usize) -> Vec<BpmCandidate> {
    let q = c.rng.us(0, 2);
    let base = c.rng.range(35.0, 230.0);
    let mut v: Vec<BpmCandidate> = (0..n)
        .map(|_| {
            let b = match c.rng.us(0, 6) {
                0 => base,
                1 => base * 2.0,
                2 => base * 0.5,
                3 => base + c.rng.range(-4.0, 4.0),
                4 => *c.rng.pick(&[60.0, 180.0, 59.0, 181.0, 120.0, 30.0, 200.0, 240.0, 90.0]),
                _ => c.rng.range(25.0, 280.0),
            };
            let b = match q {
                0 => b.round(),
                1 => (b * 2.0).round() / 2.0,
                _ => b,
            };
            let cf = if c.rng.p(0.2) { *c.rng.pick(&[0.0, 0.5, 1.0, 0.25]) } else { c.rng.f() };
            BpmCandidate { bpm: b as f32, confidence: cf as f32 }
        })
        .collect();
    if c.rng.p(0.9) {
        v.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
    }
    v
}

fn b03(c: &mut Case) -> R {
    if c.idx % 20 == 0 {
        return b03_estimate(c);
    }
    let (na, nb) = (c.rng.lrange(1.0, 30.0) as usize - c.rng.us(0, 1), c.rng.lrange(1.0, 30.0) as usize - c.rng.us(0, 1));
    let a = proposals(c, na);
    let mut b = proposals(c, nb);
    if c.rng.p(0.5) && !a.is_empty() {
        for x in b.iter_mut() {
            if c.rng.p(0.4) {
                let y = a[c.rng.us(0, a.len() - 1)].bpm;
                let f: f32 = *c.rng.pick(&[1.0, 2.0, 0.5, 1.5, 1.0]);
                x.bpm = y * f + *c.rng.pick(&[0.0, 0.0, 1.0, 2.0, -2.0, 2.5, 0.3]);
                x.bpm = x.bpm.max(5.0);
            }
        }
    }
    let cents = *c.rng.pick(&[50.0f32, 50.0, 25.0, 100.0]);
    let ctx = format!("autocorr {:?} comb {:?} cents {cents}", a.iter().map(|x| (x.bpm, x.confidence)).collect::<Vec<_>>(), b.iter().map(|x| (x.bpm, x.confidence)).collect::<Vec<_>>());
    let got = merge_bpm_candidates(a.clone(), b.clone(), cents).map_err(|e| format!("{e}: {ctx}"))?;
    let mut am = Amb(false, a.iter().chain(&b).all(|x| (x.bpm * 4.0).fract() == 0.0));
    let want = ref_merge(&a, &b, cents, &mut am);
    if am.0 {
        c.ev("too_close_to_call", 1);
        return Ok(());
    }
    ensure!(got.len() == want.len(), "{} merged proposals, expected {}: {ctx}", got.len(), want.len());
    // match as sets
    let mut used = vec![false; want.len()];
    for g in &got {
        let m = (0..want.len()).find(|&i| {
            !used[i] && g.method_agreement == want[i].n && close(g.bpm as f64, want[i].bpm, 1e-5, 1e-4) && close(g.confidence as f64, want[i].conf, 1e-4, 1e-5)
        });
        match m {
            Some(i) => used[i] = true,
            None => return Err(format!("merged proposal {g:?} is not in the reference {want:?}: {ctx}")),
        }
    }
    let ge: Vec<Est> = got.iter().map(|g| Est { bpm: g.bpm as f64, conf: g.confidence as f64, n: g.method_agreement }).collect();
    for w in ge.windows(2) {
        ensure!(ranks_before(&w[0], &w[1]) != Some(false), "{:?} ranked before {:?}: {ctx}", w[0], w[1]);
    }
    // equal (range-adjusted) confidence: the proposal more detections support comes first
    for w in got.windows(2) {
        let inr = |e: &BpmEstimate| e.bpm >= 60.0 && e.bpm <= 180.0;
        if inr(&w[0]) == inr(&w[1]) && w[0].confidence == w[1].confidence {
            c.ev("equal_confidence_pairs", 1);
            ensure!(w[0].method_agreement >= w[1].method_agreement, "equally confident {:?} ranked before better supported {:?}: {ctx}", w[0], w[1]);
        }
    }
    c.ev("merged", got.len() as u64);
    c.ev("multi_supported", got.iter().filter(|g| g.method_agreement > 1).count() as u64);
    if got.len() > 1 {
        c.seen(&format!("{:?}", got.iter().map(|g| (g.bpm.to_bits(), g.confidence.to_bits())).collect::<Vec<_>>()));
        c.sample(json!({"autocorr": a.len(), "comb": b.len(), "merged": got.len()}));
    }
    Ok(())
}

fn b03_estimate(c: &mut Case) -> R {
    let sr = *c.rng.pick(&[22050u32, 44100, 48000]);
    let hop = *c.rng.pick(&[256usize, 512, 441]);
    let ons = trains(c, sr, 40.0);
    let (lo, hi) = bpm_range(c);
    let res = *c.rng.pick(&[1.0f32, 0.5, 2.0]);
    let guard = if c.rng.p(0.6) {
        let r = |c: &mut Case, a: f64, b: f64| c.rng.range(a, b) as f32;
        let mut g = LegacyBpmGuardrails {
            preferred_min: r(c, 60.0, 110.0), preferred_max: r(c, 100.0, 180.0),
            soft_min: r(c, 30.0, 75.0), soft_max: r(c, 150.0, 240.0),
            mul_preferred: r(c, 0.5, 1.5), mul_soft: r(c, 0.1, 1.0), mul_extreme: r(c, 0.0, 0.6),
        };
        if c.rng.p(0.1) {
            std::mem::swap(&mut g.preferred_min, &mut g.preferred_max);
        }
        if c.rng.p(0.1) {
            std::mem::swap(&mut g.soft_min, &mut g.soft_max);
        }
        if c.rng.p(0.5) {
            for x in [&mut g.preferred_min, &mut g.preferred_max, &mut g.soft_min, &mut g.soft_max] {
                *x = (*x / 5.0).round() * 5.0;
            }
        }
        if c.rng.p(0.1) {
            g.mul_soft = *c.rng.pick(&[f32::NAN, -1.0, f32::INFINITY]);
        }
        Some(g)
    } else {
        None
    };
    let ctx = format!("{} onsets sr {sr} hop {hop} range {lo}..{hi} step {res} guard {guard:?}", ons.len());
    let got = match guard {
        Some(g) => estimate_bpm_with_guardrails(&ons, sr, hop, lo, hi, res, g),
        None => estimate_bpm(&ons, sr, hop, lo, hi, res),
    };
    let ac = estimate_bpm_from_autocorrelation(&ons, sr, hop, lo, hi);
    let cb = estimate_bpm_from_comb_filter(&ons, sr, hop, lo, hi, res);
    let (ac, cb) = match (ac, cb) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            ensure!(got.is_err(), "estimate although a detector failed: {ctx}");
            return Ok(());
        }
    };
    let got = got.map_err(|e| format!("{e}: {ctx}"))?;
    let g = guard.map(|g| {
        let (a, b) = (g.preferred_min.min(g.preferred_max), g.preferred_min.max(g.preferred_max));
        let sane = |x: f32| if x.is_finite() { x.max(0.0) } else { 0.0 };
        (a, b, g.soft_min.min(g.soft_max).min(a), g.soft_min.max(g.soft_max).max(b), sane(g.mul_preferred), sane(g.mul_soft), sane(g.mul_extreme))
    });
    let (pa, pb) = g.map(|g| (g.0, g.1)).unwrap_or((60.0, 180.0));
    let pref = ac.iter().find(|x| x.bpm >= pa && x.bpm <= pb).map(|x| x.bpm);
    let mut m = merge_bpm_candidates(ac, cb, 50.0).map_err(|e| e.to_string())?;
    if let Some(g) = g {
        for e in m.iter_mut() {
            e.confidence *= if e.bpm >= g.0 && e.bpm <= g.1 { g.4 } else if e.bpm >= g.2 && e.bpm <= g.3 { g.5 } else { g.6 };
        }
        m.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
    }
    if m.is_empty() {
        ensure!(got.is_none(), "estimate without proposals: {ctx}");
        c.ev("no_estimate", 1);
        return Ok(());
    }
    let got = got.ok_or(format!("no estimate although there are {} proposals: {ctx}", m.len()))?;
    let pick = pref.and_then(|p| m.iter().position(|e| (e.bpm - p).abs() < 2.0)).unwrap_or(0);
    let w = &m[pick];
    // equally ranked alternatives are acceptable when no preferred tempo decides
    let ok = |w: &BpmEstimate| close(got.bpm as f64, w.bpm as f64, 1e-5, 1e-4) && close(got.confidence as f64, w.confidence.min(1.0) as f64, 1e-4, 1e-5) && got.method_agreement == w.method_agreement;
    let tie_ok = m.iter().any(|e| (e.confidence - w.confidence).abs() < 1e-6 && ok(e) && (pref.is_none() || (e.bpm - pref.unwrap()).abs() < 2.0));
    ensure!(ok(w) || tie_ok, "estimate {got:?}, expected {w:?} (preferred {pref:?}): {ctx}");
    c.ev("estimates", 1);
    c.ev(if guard.is_some() { "with_guardrails" } else { "plain" }, 1);
    if pref.is_some() {
        c.ev("preferred_autocorr", 1);
    }
    c.seen(&format!("est{}{}", got.bpm.to_bits(), got.confidence.to_bits()));
    Ok(())
}

// ------------------------------------------------------------------ novelty
/// compare a max-normalised curve; `raw` in f64, `err` absolute error of each raw value
fn curve(name: &str, got: &[f32], raw: &[f64], err: &[f64], ctx: &str) -> Result<bool, String> {
    ensure!(got.len() == raw.len(), "{name}: {} values, expected {}: {ctx}", got.len(), raw.len());
    for (i, g) in got.iter().enumerate() {
        ensure!(g.is_finite() && *g >= 0.0, "{name}[{i}] = {g}: {ctx}");
    }
    let mx = raw.iter().fold(0.0f64, |a, &x| a.max(x));
    let gm = got.iter().fold(0.0f32, |a, &x| a.max(x));
    let em = err.iter().fold(0.0f64, |a, &x| a.max(x));
    if mx > 1e-8 && em < 0.01 * mx {
        ensure!((gm - 1.0).abs() < 1e-5, "{name}: maximum {gm}: {ctx}");
        for i in 0..raw.len() {
            let w = raw[i] / mx;
            let t = 2.0 * (err[i] + em) / mx + 2e-5;
            ensure!((got[i] as f64 - w).abs() <= t, "{name}[{i}] = {}, expected {w} (+-{t}): {ctx}", got[i]);
        }
        return Ok(true);
    }
    if mx == 0.0 && em == 0.0 {
        ensure!(gm == 0.0, "{name}: maximum {gm} without any rise: {ctx}");
    }
    ensure!(gm <= 1.0 + 1e-5, "{name}: maximum {gm}: {ctx}");
    Ok(false)
}
fn rise(feat: &[f64], rel: f64) -> (Vec<f64>, Vec<f64>) {
    let r = (1..feat.len()).map(|i| (feat[i] - feat[i - 1]).max(0.0)).collect();
    let e = (1..feat.len()).map(|i| rel * feat[i].max(feat[i - 1])).collect();
    (r, e)
}
fn maxfilt(prev: &[f64], cur: &[f64], k: usize, s: usize, e: usize) -> f64 {
    let mut sum = 0.0;
    for b in s..e {
        let a = b.saturating_sub(k).max(s);
        let z = (b + k + 1).min(e);
        let m = prev[a..z].iter().fold(0.0f64, |x, &y| x.max(y));
        sum += (cur[b] - m).max(0.0).powi(2);
    }
    sum.sqrt()
}
fn ref_combined(s: &[f32], e: &[f32], h: &[f32], w: [f32; 3], lm: usize, sm: usize) -> (Vec<f64>, f64) {
    let n = s.len().min(e.len()).min(h.len());
    let w: Vec<f64> = w.iter().map(|x| x.max(0.0) as f64).collect();
    let ws = (w[0] + w[1] + w[2]).max(1e-10);
    let mut v: Vec<f64> = (0..n).map(|i| (s[i] as f64 * w[0] + e[i] as f64 * w[1] + h[i] as f64 * w[2]) / ws).collect();
    let mut amp = 1.0;
    let norm = |v: &mut Vec<f64>| {
        let m = v.iter().fold(0.0f64, |a, &x| a.max(x));
        if m > 1e-10 {
            v.iter_mut().for_each(|x| *x /= m);
        }
        m
    };
    amp *= norm(&mut v).min(1.0);
    if lm > 1 {
        let half = lm / 2;
        let o = v.clone();
        for i in 0..n {
            let a = i.saturating_sub(half);
            let b = (i + half + 1).min(n);
            let m = o[a..b].iter().sum::<f64>() / (b - a) as f64;
            v[i] = (o[i] - m).max(0.0);
        }
    }
    if sm > 1 && n >= 3 {
        let half = sm / 2;
        let o = v.clone();
        for i in 0..n {
            let a = i.saturating_sub(half);
            let b = (i + half + 1).min(n);
            v[i] = o[a..b].iter().sum::<f64>() / (b - a) as f64;
        }
    }
    amp *= norm(&mut v).min(1.0);
    (v, amp)
}

fn b04(c: &mut Case) -> R {
    if c.idx % 10 == 0 {
        return b04_invalid(c);
    }
    if c.idx % 10 == 1 {
        // combiner on arbitrary curves
        let n = if c.idx % 1000 == 11 { c.rng.us(1000, 30000) } else { c.rng.us(0, 120) };
        let mk = |c: &mut Case, n: usize| -> Vec<f32> { (0..n).map(|_| if c.rng.p(0.6) { 0.0 } else { c.rng.f() as f32 }).collect() };
        let (a, b) = (mk(c, n), mk(c, n));
        let nh = n + if c.rng.p(0.1) { 1 } else { 0 };
        let h = mk(c, nh);
        let mut w = [c.rng.f() as f32, c.rng.f() as f32, c.rng.f() as f32];
        if c.rng.p(0.2) {
            w[c.rng.us(0, 2)] = *c.rng.pick(&[0.0f32, -0.5]);
        }
        let (lm, sm) = (c.rng.us(0, 30), c.rng.us(0, 12));
        let ctx = format!("n {n} w {w:?} local {lm} smooth {sm}");
        let got = combined_novelty_with_params(&a, &b, &h, w[0], w[1], w[2], lm, sm);
        let (want, amp) = ref_combined(&a, &b, &h, w, lm, sm);
        if amp > 1e-4 || want.is_empty() {
            vec_close("combined", &got, &want, 0.0, 2e-6 / amp.max(1e-4) + 1e-6).map_err(|m| format!("{m}: {ctx}"))?;
            c.ev("combined_compared", 1);
        }
        let d = combined_novelty(&a, &b, &h);
        let (want, amp) = ref_combined(&a, &b, &h, [0.5, 0.3, 0.2], 16, 5);
        if amp > 1e-4 || want.is_empty() {
            vec_close("combined (default)", &d, &want, 0.0, 2e-6 / amp.max(1e-4) + 1e-6).map_err(|m| format!("{m}: {ctx}"))?;
        }
        c.seen_h(hash_f32(&got));
        return Ok(());
    }
    let big = c.rng.p(0.05);
    let sp = if c.idx % 1000 == 13 { gen::spectro_any(&mut c.rng, 6000, 100) } else if big { gen::spectro_any(&mut c.rng, 200, 1025) } else { gen::spectro_any(&mut c.rng, 80, 90) };
    let nf = sp.len();
    let nb = sp.first().map(|f| f.len()).unwrap_or(0);
    let sr = *c.rng.pick(&[8000u32, 22050, 44100, 48000, 96000]);
    let k = c.rng.us(0, 6);
    let ctx = format!("{nf} frames x {nb} bins k {k} sr {sr}");
    let m = |e: AnalysisError| format!("{e}: {ctx}");
    let sf = spectral_flux_novelty(&sp).map_err(m)?;
    let su = superflux_novelty(&sp, k).map_err(m)?;
    let en = energy_flux_novelty(&sp).map_err(m)?;
    let hf = hfc_novelty(&sp, sr).map_err(m)?;
    if nf < 2 {
        ensure!(sf.is_empty() && su.is_empty() && en.is_empty() && hf.is_empty(), "curve from {nf} frames");
        return Ok(());
    }
    let rel = 3e-6 + 6e-8 * nb as f64;
    // spectral flux
    let fl = super::onset::spectral_flux_ref(&sp);
    let mut n = 0;
    if !sp.iter().any(|f| { let m = f.iter().fold(0.0f32, |a, &x| a.max(x)); m > 0.0 && m < 1e-9 }) {
        n += curve("spectral flux", &sf, &fl.iter().map(|x| x.v).collect::<Vec<_>>(), &fl.iter().map(|x| x.err).collect::<Vec<_>>(), &ctx)? as u64;
    }
    let lg: Vec<Vec<f64>> = sp.iter().map(|f| f.iter().map(|&x| (1.0 + (x as f64).max(0.0)).ln()).collect()).collect();
    let lmax = lg.iter().flatten().fold(0.0f64, |a, &x| a.max(x));
    let kk = k.max(1);
    let serr = (2.5e-7 * (1.0 + lmax)) * (nb as f64).sqrt();
    let raw: Vec<f64> = (1..nf).map(|i| maxfilt(&lg[i - 1], &lg[i], kk, 0, nb)).collect();
    n += curve("max-filtered", &su, &raw, &raw.iter().map(|x| serr + x * rel).collect::<Vec<_>>(), &ctx)? as u64;
    let tiny = sp.iter().flatten().any(|&x| x > 0.0 && x < 1e-15);
    let e: Vec<f64> = sp.iter().map(|f| f.iter().map(|&x| (x as f64).powi(2)).sum()).collect();
    let hfc: Vec<f64> = sp.iter().map(|f| f.iter().enumerate().map(|(k, &x)| k as f64 * (x as f64).powi(2)).sum()).collect();
    if !tiny {
        let (r, er) = rise(&e, rel);
        n += curve("energy", &en, &r, &er, &ctx)? as u64;
        let (r, er) = rise(&hfc, rel);
        n += curve("high-frequency", &hf, &r, &er, &ctx)? as u64;
    }
    // bands
    let (s, t) = if c.rng.p(0.3) { (0, nb + c.rng.us(0, 2)) } else { (c.rng.us(0, nb), c.rng.us(0, nb + 2)) };
    let sb = superflux_novelty_band(&sp, k, s, t).map_err(m)?;
    let eb = energy_flux_novelty_band(&sp, s, t).map_err(m)?;
    let hb = hfc_novelty_band(&sp, s, t).map_err(m)?;
    let (cs, ct) = (s.min(nb), t.min(nb));
    if ct <= cs + 1 {
        ensure!(sb.is_empty() && eb.is_empty() && hb.is_empty(), "band {s}..{t} gives a curve: {ctx}");
    } else {
        let bctx = format!("band {s}..{t} {ctx}");
        let raw: Vec<f64> = (1..nf).map(|i| maxfilt(&lg[i - 1], &lg[i], kk, cs, ct)).collect();
        n += curve("max-filtered band", &sb, &raw, &raw.iter().map(|x| serr + x * rel).collect::<Vec<_>>(), &bctx)? as u64;
        if !tiny {
            let e: Vec<f64> = sp.iter().map(|f| f[cs..ct].iter().map(|&x| (x as f64).powi(2)).sum()).collect();
            let hfc: Vec<f64> = sp.iter().map(|f| f[cs..ct].iter().enumerate().map(|(k, &x)| (k + cs) as f64 * (x as f64).powi(2)).sum()).collect();
            let (r, er) = rise(&e, rel);
            n += curve("energy band", &eb, &r, &er, &bctx)? as u64;
            let (r, er) = rise(&hfc, rel);
            n += curve("high-frequency band", &hb, &r, &er, &bctx)? as u64;
        }
        if cs == 0 && ct == nb {
            for (a, b) in [(&sb, &su), (&eb, &en), (&hb, &hf)] {
                for (x, y) in a.iter().zip(b.iter()) {
                    ensure!((x - y).abs() < 1e-5, "whole-band curve differs from the full curve: {x} vs {y}: {ctx}");
                }
            }
            c.ev("whole_band", 1);
        }
    }
    // mel
    if nb >= 2 {
        let nm = c.rng.us(1, 50);
        let (f0, f1) = (c.rng.range(0.0, 300.0) as f32, if c.rng.p(0.1) { -1.0 } else { c.rng.range(500.0, 20000.0) as f32 });
        // bands narrower than a filter, empty or upside down
        let (f0, f1) = if c.rng.p(0.12) {
            let f = c.rng.range(0.0, 0.6 * sr as f64);
            (f as f32, (f + c.rng.range(-200.0, 400.0)) as f32)
        } else {
            (f0, f1)
        };
        let mk = c.rng.us(0, 3);
        let got = mel_superflux_novelty(&sp, sr, nm, f0, f1, mk).map_err(m)?;
        ensure!(got.len() == nf - 1, "mel: {} values from {nf} frames", got.len());
        if let Some(bank) = ref_mel(sr, nb, nm, f0, f1) {
            let mf: Vec<Vec<f64>> = lg.iter().map(|f| bank.iter().map(|w| w.iter().map(|(b, x)| f[*b] * x).sum()).collect()).collect();
            let l: usize = bank.iter().map(|w| w.len()).max().unwrap_or(0);
            let raw: Vec<f64> = (1..nf).map(|i| maxfilt(&mf[i - 1], &mf[i], mk.max(1), 0, mf[i].len())).collect();
            let er = 3e-7 * (1.0 + lmax) * (l as f64 + 1.0) * (bank.len() as f64).sqrt();
            if curve("mel", &got, &raw, &raw.iter().map(|x| er + x * 1e-5).collect::<Vec<_>>(), &format!("mels {nm} {f0}..{f1} k {mk} {ctx}"))? {
                n += 1;
                c.ev("mel_compared", 1);
            }
        }
    }
    c.ev("curves_compared", n);
    c.ev("frames", nf as u64);
    if n > 0 {
        c.seen_h(hash_f32(&su) ^ hash_f32(&en));
        c.sample(json!({"case": ctx, "curves": n}));
    }
    Ok(())
}

/// triangular mel filters as (bin, weight) lists; None when an edge is too close to a rounding tie
fn ref_mel(sr: u32, nb: usize, nm: usize, f0: f32, f1: f32) -> Option<Vec<Vec<(usize, f64)>>> {
    let nm = nm.max(4);
    let ny = sr as f64 / 2.0;
    let fmin = (f0 as f64).max(0.0).min(ny.max(1.0));
    let fmax = if f1.is_finite() && f1 > 0.0 { f1 as f64 } else { ny };
    let fmax = fmax.max(fmin + 1.0).min(ny);
    let fr = sr as f64 / ((nb - 1) * 2) as f64;
    let mel = |f: f64| 2595.0 * (1.0 + f / 700.0).log10();
    let (m0, m1) = (mel(fmin), mel(fmax));
    let mut pts = vec![];
    for i in 0..nm + 2 {
        let m = m0 + (m1 - m0) * i as f64 / (nm + 1) as f64;
        let x = 700.0 * (10f64.powf(m / 2595.0) - 1.0) / fr;
        if ((x - x.floor()) - 0.5).abs() < 0.005 {
            return None;
        }
        pts.push((x.round().max(0.0) as usize).min(nb - 1));
    }
    for i in 1..pts.len() {
        if pts[i] <= pts[i - 1] {
            pts[i] = (pts[i - 1] + 1).min(nb - 1);
        }
    }
    Some(
        (0..nm)
            .map(|m| {
                let (l, ce, r) = (pts[m], pts[m + 1], pts[m + 2]);
                let mut w = vec![];
                if l < ce && ce < r {
                    for b in l + 1..=ce {
                        w.push((b, (b - l) as f64 / (ce - l) as f64));
                    }
                    for b in ce..r {
                        w.push((b, (r - b) as f64 / (r - ce) as f64));
                    }
                }
                w
            })
            .collect(),
    )
}

fn b04_invalid(c: &mut Case) -> R {
    let mut sp = gen::spectro_any(&mut c.rng, 40, 40);
    if sp.len() < 2 {
        return Ok(());
    }
    let nb = sp[0].len();
    if c.rng.p(0.5) {
        let i = c.rng.us(1, sp.len() - 1);
        sp[i].resize(if c.rng.p(0.5) { nb + 1 } else { nb - 1 }, 0.0);
    } else {
        sp.iter_mut().for_each(|f| f.clear());
    }
    invalid(spectral_flux_novelty(&sp), "malformed spectrogram (spectral)")?;
    invalid(superflux_novelty(&sp, 2), "malformed spectrogram (max-filtered)")?;
    invalid(energy_flux_novelty(&sp), "malformed spectrogram (energy)")?;
    invalid(hfc_novelty(&sp, 44100), "malformed spectrogram (hfc)")?;
    invalid(superflux_novelty_band(&sp, 2, 0, nb), "malformed spectrogram (band)")?;
    invalid(energy_flux_novelty_band(&sp, 0, nb), "malformed spectrogram (band)")?;
    invalid(hfc_novelty_band(&sp, 0, nb), "malformed spectrogram (band)")?;
    invalid(mel_superflux_novelty(&sp, 44100, 20, 30.0, 8000.0, 1), "malformed spectrogram (mel)")?;
    let ok = vec![vec![0.5f32; 8], vec![1.0; 8], vec![0.0; 8]];
    invalid(mel_superflux_novelty(&ok, 0, 20, 30.0, 8000.0, 1), "rate 0 (mel)")?;
    c.ev("malformed_rejected", 1);
    Ok(())
}

// ------------------------------------------------------------------ tempograms
pub fn novelty_any(c: &mut Case, max: usize) -> Vec<f32> {
    let n = if c.rng.p(0.1) { c.rng.us(1, 8) } else { c.rng.lrange(8.0, max as f64) as usize };
    let per = c.rng.range(3.0, 90.0);
    let kind = c.rng.us(0, 5);
    let ph = c.rng.range(0.0, per);
    (0..n)
        .map(|i| {
            let x = match kind {
                0 => 0.5 + 0.5 * (2.0 * std::f64::consts::PI * i as f64 / per).sin(),
                1 => if ((i as f64 + ph) % per) < 1.0 { 1.0 } else { 0.0 },
                2 => c.rng.f(),
                3 => if c.rng.p(0.1) { c.rng.f() } else { 0.0 },
                4 => if ((i as f64 + ph) % per) < 2.0 { 0.9 } else { 0.1 * c.rng.f() },
                _ => 0.3,
            };
            x as f32
        })
        .collect()
}

fn b05(c: &mut Case) -> R {
    let sr = *c.rng.pick(&[8000u32, 22050, 44100, 48000, 96000]);
    let hop = *c.rng.pick(&[128u32, 256, 512, 1024, 441, 100]);
    let (mut lo, mut hi) = bpm_range(c);
    let res = *c.rng.pick(&[1.0f32, 0.5, 2.0, 0.25, 3.3]);
    if c.rng.p(0.04) {
        let (a, b) = *c.rng.pick(&[(0.0f32, 180.0f32), (-10.0, 180.0), (180.0, 60.0), (100.0, 100.0)]);
        let v = [0.0f32, 1.0, 0.0, 1.0];
        invalid(fft_tempogram(&v, sr, hop, a, b), "tempo range")?;
        invalid(autocorrelation_tempogram(&v, sr, hop, a, b, 1.0), "tempo range")?;
        invalid(fft_tempogram(&[], sr, hop, lo, hi), "empty curve")?;
        invalid(autocorrelation_tempogram(&[], sr, hop, lo, hi, 1.0), "empty curve")?;
        invalid(fft_tempogram(&v, 0, hop, lo, hi), "rate 0")?;
        invalid(autocorrelation_tempogram(&v, 0, hop, lo, hi, 1.0), "rate 0")?;
        invalid(fft_tempogram(&v, sr, 0, lo, hi), "hop 0")?;
        invalid(autocorrelation_tempogram(&v, sr, 0, lo, hi, 1.0), "hop 0")?;
        invalid(autocorrelation_tempogram(&v, sr, hop, lo, hi, 0.0), "resolution 0")?;
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let v = if c.idx % 200 == 7 { novelty_any(c, 60000) } else { novelty_any(c, 3000) };
    let n = v.len();
    let fr = sr as f64 / hop as f64;
    // tempi of single bins that every order of single-precision operations forms exactly
    let exact_bin = |b: f64, k: usize| (fr * 64.0).fract() == 0.0 && (fr * 60.0 * k as f64 * 64.0) < 16_777_216.0 && b as f32 as f64 == b;
    if c.rng.p(0.2) {
        let sz = n.next_power_of_two();
        let k0 = (lo as f64 / 60.0 / fr * sz as f64).ceil() as usize;
        let k1 = (hi as f64 / 60.0 / fr * sz as f64) as usize;
        let (b0, b1) = (k0 as f64 * fr / sz as f64 * 60.0, k1 as f64 * fr / sz as f64 * 60.0);
        if k1 > k0 && k0 > 0 && exact_bin(b0, k0) && exact_bin(b1, k1) {
            lo = b0 as f32;
            hi = b1 as f32;
            c.ev("range_on_bins", 1);
        }
    }
    let ctx = format!("n {n} sr {sr} hop {hop} range {lo}..{hi} step {res}");
    let f = fft_tempogram(&v, sr, hop, lo, hi).map_err(|e| format!("{e}: {ctx}"))?;
    let size = n.next_power_of_two();
    let mean = v.iter().map(|x| *x as f64).sum::<f64>() / n as f64;
    let pi2 = 2.0 * std::f64::consts::PI;
    let win: Vec<f64> = v.iter().enumerate().map(|(i, &x)| {
        let w = if n > 1 { 0.5 * (1.0 - (pi2 * i as f64 / (n - 1) as f64).cos()) } else { 1.0 };
        (x as f64 - mean) * w
    }).collect();
    let tot: f64 = win.iter().map(|x| x.abs()).sum::<f64>() + 1e-3 * v.iter().map(|x| x.abs() as f64).sum::<f64>();
    for w in f.windows(2) {
        ensure!(w[0].1 >= w[1].1, "spectral tempogram not ranked: {ctx}");
    }
    let mut bins: Vec<usize> = vec![];
    for (b, p) in &f {
        ensure!(*b >= lo && *b <= hi, "tempo {b} outside the range: {ctx}");
        let k = (*b as f64 / 60.0 / fr * size as f64).round() as usize;
        ensure!(close(*b as f64, k as f64 * fr / size as f64 * 60.0, 1e-5, 0.0), "tempo {b} is not a bin frequency: {ctx}");
        bins.push(k);
        if f.len() > 60 && !c.rng.p(60.0 / f.len() as f64) && bins.len() > 3 {
            continue;
        }
        let (mut re, mut im) = (0.0, 0.0);
        // leakage of a rounding error of the subtracted mean
        let (mut wre, mut wim) = (0.0, 0.0);
        for (i, x) in win.iter().enumerate() {
            let (sn, cs) = (pi2 * ((i * k) % size) as f64 / size as f64).sin_cos();
            re += x * cs;
            im -= x * sn;
            let w = if n > 1 { 0.5 * (1.0 - (pi2 * i as f64 / (n - 1) as f64).cos()) } else { 1.0 };
            wre += w * cs;
            wim -= w * sn;
        }
        let a = (re * re + im * im).sqrt();
        let e = 6e-6 * tot + 1e-9 + (wre * wre + wim * wim).sqrt() * mean.abs() * (n as f64 * 6e-8 + 1e-6);
        ensure!((*p as f64 - a * a).abs() <= 2.0 * a * e + e * e + 1e-5 * a * a, "tempo {b}: power {p}, expected {}: {ctx}", a * a);
        c.ev("bins_compared", 1);
    }
    bins.sort_unstable();
    for w in bins.windows(2) {
        ensure!(w[0] != w[1], "bin {} twice: {ctx}", w[0]);
    }
    for k in 0..=size / 2 {
        let b = k as f64 * fr / size as f64 * 60.0;
        if (b > lo as f64 * 1.00001 && b < hi as f64 * 0.99999) || (exact_bin(b, k) && (b == lo as f64 || b == hi as f64)) {
            ensure!(bins.binary_search(&k).is_ok(), "tempo {b} inside the range missing from the spectral tempogram: {ctx}");
        }
    }
    let a = autocorrelation_tempogram(&v, sr, hop, lo, hi, res).map_err(|e| format!("{e}: {ctx}"))?;
    for w in a.windows(2) {
        ensure!(w[0].1 >= w[1].1, "autocorrelation tempogram not ranked: {ctx}");
    }
    let nk = ((hi as f64 - lo as f64) / res as f64 + 1e-3).floor() as usize + 1;
    let mut seen = vec![false; nk + 1];
    for (b, s) in &a {
        ensure!(*b >= lo && *b <= hi, "tempo {b} outside the range: {ctx}");
        let k = ((*b as f64 - lo as f64) / res as f64).round() as usize;
        ensure!(k <= nk && (*b as f64 - lo as f64 - k as f64 * res as f64).abs() < 2e-5 * (k as f64 + 1.0) * (hi as f64 / 100.0).max(1.0), "tempo {b} is not on the grid: {ctx}");
        ensure!(!seen[k], "tempo {b} twice: {ctx}");
        seen[k] = true;
        let x = fr / (*b as f64 / 60.0);
        let mut ok = false;
        let mut exp = vec![];
        for l in [(x * (1.0 - 1e-5)) as usize, (x * (1.0 + 1e-5)) as usize] {
            let w = if l < n {
                (0..n - l).map(|i| v[i] as f64 * v[i + l] as f64).sum::<f64>() / (n - l) as f64
            } else {
                0.0
            };
            exp.push(w);
            ok |= close(*s as f64, w, 3e-6 + 6e-8 * n as f64, 1e-9);
        }
        ensure!(ok, "tempo {b}: strength {s}, expected {exp:?} at lag {x}: {ctx}");
        c.ev("lags_compared", 1);
    }
    for k in 0..nk {
        ensure!(seen[k] || (k + 1 == nk && lo as f64 + k as f64 * res as f64 > hi as f64 - 0.02), "grid tempo {} missing: {ctx}", lo as f64 + k as f64 * res as f64);
    }
    // winners
    for (list, best) in [(&f, find_best_bpm_fft(&f).map(|r| (r.bpm, r.confidence, r.power))), (&a, find_best_bpm_autocorr(&a).map(|r| (r.bpm, r.confidence, r.strength)))] {
        match best {
            None => ensure!(list.is_empty(), "no winner although the tempogram has entries: {ctx}"),
            Some((b, cf, p)) => {
                ensure!(!list.is_empty() && b == list[0].0 && p == list[0].1, "winner {b} is not the strongest entry: {ctx}");
                let w = if list.len() < 2 { 0.5 } else if list[0].1 > 1e-10 { ((list[0].1 - list[1].1).max(0.0) / list[0].1).clamp(0.0, 1.0) } else { 0.0 };
                ensure!(close(cf as f64, w as f64, 1e-4, 1e-5), "winner confidence {cf}, expected {w}: {ctx}");
            }
        }
    }
    if !f.is_empty() || !a.is_empty() {
        c.seen(&format!("{:?}", (f.first().map(|x| (x.0.to_bits(), x.1.to_bits())), a.first().map(|x| (x.0.to_bits(), x.1.to_bits())))));
        c.sample(json!({"case": ctx, "fft_bins": f.len(), "grid": a.len()}));
    }
    Ok(())
}
