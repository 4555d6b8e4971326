//! O01..O04: onset detectors, harmonic/percussive separation, voting.
use super::peaks::*;
use crate::ensure;
use crate::gen;
use crate::mon::*;
use crate::rng::mix;
use serde_json::json;
use stratum_dsp::features::onset::consensus::*;
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::*;
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::onset::threshold::*;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "O01", quick: 180_000, thorough: 1_500_000,
            rule: "random buffers (hits, blocks, tones, silence, constants) x frame x hop x threshold; positions against a reference detector, plus the same buffer scaled by powers of two and inverted. Distinct: hash of the non-empty onset list",
            assumptions: &["comparisons closer than the single-precision error of a frame RMS may go either way, unless the frames are bit-identical"],
            min_nontrivial: 500, run: o01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "O02", quick: 240_000, thorough: 800_000,
            rule: "random spectrograms (0..400 frames, 1..1025 bins; periodic hits, tones, quantised, repeated and silent frames, ragged shapes) x percentile x rate; flux and high-frequency onsets against a reference detector; thresholds against order statistics. Distinct: hash of the non-empty onset list",
            assumptions: &["comparisons closer than single-precision error may go either way, unless the frames are bit-identical"],
            min_nontrivial: 500, run: o02, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "O03", quick: 36_000, thorough: 72_000,
            rule: "random spectrograms x margin: shape, sign and cell-wise conservation, comparison with a reference separation in f64, behaviour on pure tones and hits, onsets of the percussive part. Distinct: hash of the harmonic part",
            assumptions: &["cells whose two medians both fall in [1e-11, 1e-9] at some iteration make the case conservation-only"],
            min_nontrivial: 200, run: o03, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "O04", quick: 300_000, thorough: 2_500_000,
            rule: "random detection lists (clustered around common events, unsorted, duplicated, empty, huge positions) x weights x tolerance x rate against a reference vote. Distinct: hash of the candidates",
            assumptions: &["the tolerance in samples is formed in single precision; gaps that straddle its rounding are skipped"],
            min_nontrivial: 1000, run: o04, serial: false, hang_is_violation: false,
        },
    ]
}

fn o01(c: &mut Case) -> R {
    let frame = match c.rng.us(0, 5) {
        0 => c.rng.us(0, 3),
        1 => c.rng.us(1, 60),
        2 => c.rng.us(60, 700),
        3 => 2048,
        _ => 1usize << c.rng.us(3, 10),
    };
    let hop = match c.rng.us(0, 5) {
        0 => c.rng.us(0, 4),
        1 => frame,
        2 => frame + c.rng.us(1, 9),
        _ => (frame / *c.rng.pick(&[2usize, 4, 3])).max(1),
    };
    let nf = if c.rng.p(0.03) { c.rng.lrange(120.0, 20_000.0).min(6e6 / (frame + 1) as f64) } else { c.rng.lrange(1.0, 120.0) } as usize;
    let n = match c.rng.us(0, 9) {
        0 => c.rng.us(0, frame + 2),
        _ => frame + nf * hop + c.rng.us(0, hop),
    };
    let stairs = frame > 0 && hop >= frame && frame <= 2048 && c.rng.p(0.5);
    let (s, desc) = if stairs {
        // one level per frame, in eighths: frame levels and rises are exact
        let mut lv = 0i64;
        let m = c.rng.us(1, 3) as i64;
        let mut s = vec![0.0f32; n];
        for b in s.chunks_mut(hop) {
            lv = match c.rng.us(0, 3) { 0 => 0, 1 => lv, _ => lv + c.rng.us(0, m as usize) as i64 };
            if lv > 16 {
                lv = 0;
            }
            b.iter_mut().enumerate().for_each(|(i, x)| *x = lv as f32 / 8.0 * if i % 3 == 0 { -1.0 } else { 1.0 });
        }
        (s, "stairs".to_string())
    } else if c.rng.p(0.4) {
        // hits of similar size on a grid, exact repetitions included
        let mut s = vec![0.0f32; n];
        let per = c.rng.us(1, 12) * hop.max(1) + if c.rng.p(0.3) { c.rng.us(0, hop) } else { 0 };
        let len = c.rng.us(1, frame.max(1) * 2);
        let mut at = c.rng.us(0, per);
        while at < n {
            let a = *c.rng.pick(&[0.25f32, 0.5, 0.5, 0.5, 1.0]);
            for i in 0..len {
                if at + i < n {
                    s[at + i] += if i % 2 == 0 { a } else { -a };
                }
            }
            at += per;
        }
        (s, "grid hits".to_string())
    } else {
        gen::buf(&mut c.rng, n)
    };
    let thr_db = match c.rng.us(0, 3) {
        0 => -20.0f32,
        1 => c.rng.range(-60.0, 0.0) as f32,
        2 => *c.rng.pick(&[0.0f32, -3.0, -6.0, -40.0, 3.0, -100.0]),
        _ => c.rng.range(-30.0, -10.0) as f32,
    };
    let ctx = format!("{desc} n {n} frame {frame} hop {hop} thr {thr_db}");
    let r = detect_energy_flux_onsets(&s, frame, hop, thr_db);
    if n == 0 {
        ensure!(r.map_err(|e| e.to_string())?.is_empty(), "onsets in empty audio");
        return Ok(());
    }
    if frame == 0 || hop == 0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "zero frame or hop accepted: {ctx}");
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let got = r.map_err(|e| format!("{e}: {ctx}"))?;
    let nf = if n < frame { 0 } else { (n - frame) / hop + 1 };
    let mut e = vec![];
    let mut h = vec![];
    for i in 0..nf {
        let seg = &s[i * hop..i * hop + frame];
        e.push((seg.iter().map(|&x| (x as f64).powi(2)).sum::<f64>() / frame as f64).sqrt());
        h.push(hash_f32(&seg.iter().map(|x| x.abs()).collect::<Vec<_>>()));
    }
    let rel = 3e-6 + 3e-8 * frame as f64;
    let mut fl = vec![];
    for i in 1..nf {
        let d = e[i] - e[i - 1];
        if stairs {
            let v = d.max(0.0);
            fl.push(Fl { v, err: 0.0, cls: if v == 0.0 { ZERO } else { mix(v.to_bits()) | 2 } });
            continue;
        }
        let err = rel * e[i].max(e[i - 1]);
        let same = h[i] == h[i - 1];
        let zero = same || d < -err;
        fl.push(Fl { v: if zero { 0.0 } else { d.max(0.0) }, err: if zero { 0.0 } else { err }, cls: if zero { ZERO } else { mix(h[i] ^ mix(h[i - 1])) | 2 } });
    }
    let mx = fl.iter().fold(0.0f64, |a, x| a.max(x.v));
    if mx > 0.0 && mx < 1e-9 {
        return Ok(()); // too close to the absolute floor
    }
    let certain_rise = fl.iter().any(|x| x.v > 2.0 * x.err && x.cls != ZERO);
    if nf >= 3 && !certain_rise && fl.iter().any(|x| x.cls != ZERO) {
        c.ev("only_rounding_noise", 1);
        return Ok(());
    }
    if nf < 3 || mx == 0.0 {
        ensure!(got.is_empty(), "onsets {got:?} with {nf} frames and no rise: {ctx}");
        c.ev("no_onset", 1);
        return Ok(());
    }
    let t = mx * 10f64.powf(thr_db as f64 / 20.0);
    let terr = t * 1e-6 + fl.iter().filter(|x| x.v + x.err >= mx).fold(0.0f64, |a, x| a.max(x.err)) * (t / mx);
    // at 0 dB and above the threshold is at least the largest rise, which does not exceed itself
    let thr = |x: &Fl| if x.cls == ZERO || thr_db >= 0.0 { Some(false) } else if (x.v - t).abs() <= x.err + terr { None } else { Some(x.v > t) };
    let want = rising_peaks(&fl, &thr);
    let (must, free) = check("energy onsets", &got, &want, &|i| if (i + 1) * hop < n { Some((i + 1) * hop) } else { None }).map_err(|m| format!("{m}: {ctx}"))?;
    // level and polarity
    let g = *c.rng.pick(&[0.25f32, 2.0, 8.0, -1.0, -4.0]);
    if mx > 1e-7 && s.iter().all(|x| *x == 0.0 || x.abs() > 1e-15) {
        let s2: Vec<f32> = s.iter().map(|x| x * g).collect();
        let got2 = detect_energy_flux_onsets(&s2, frame, hop, thr_db).map_err(|e| e.to_string())?;
        check("onsets of the scaled input", &got2, &want, &|i| if (i + 1) * hop < n { Some((i + 1) * hop) } else { None }).map_err(|m| format!("{m}: scaled by {g}: {ctx}"))?;
        ensure!(free > 0 || got2 == got, "onsets change when the input is scaled by {g}: {got:?} -> {got2:?}: {ctx}");
        c.ev("scaled_pairs", 1);
    }
    c.ev("certain_peaks", must);
    c.ev("free_decisions", free);
    c.ev("steps_judged", fl.len() as u64);
    if !got.is_empty() {
        c.seen(&format!("{got:?}"));
        c.sample(json!({"case": ctx, "onsets": got.len()}));
    }
    Ok(())
}

fn frame_hash(f: &[f32]) -> u64 {
    hash_f32(f)
}

/// quarter steps small enough that single precision computes energies without rounding
fn exact_spec(sp: &[Vec<f32>]) -> bool {
    sp.iter().flatten().all(|x| (x * 4.0).fract() == 0.0)
        && sp.iter().all(|f| f.iter().enumerate().map(|(k, x)| (k + 1) as f64 * (*x as f64).powi(2)).sum::<f64>() < 1e6)
}
fn flux_list(feat: &[f64], rel: f64, h: &[u64], exact: bool) -> Vec<Fl> {
    (1..feat.len())
        .map(|i| {
            let d = feat[i] - feat[i - 1];
            if exact {
                let v = d.max(0.0);
                return Fl { v, err: 0.0, cls: if v == 0.0 { ZERO } else { mix(v.to_bits()) | 2 } };
            }
            let err = rel * feat[i].abs().max(feat[i - 1].abs()) + 1e-30;
            let zero = h[i] == h[i - 1] || d < -err;
            Fl { v: if zero { 0.0 } else { d.max(0.0) }, err: if zero { 0.0 } else { err }, cls: if zero { ZERO } else { mix(h[i] ^ mix(h[i - 1])) | 2 } }
        })
        .collect()
}

pub fn spectral_flux_ref(sp: &[Vec<f32>]) -> Vec<Fl> {
    let norm: Vec<Vec<f64>> = sp
        .iter()
        .map(|f| {
            let m = f.iter().fold(0.0f64, |a, &x| a.max(x as f64));
            if m > 1e-10 { f.iter().map(|&x| x as f64 / m).collect() } else { vec![0.0; f.len()] }
        })
        .collect();
    let h: Vec<u64> = sp.iter().map(|f| frame_hash(f)).collect();
    // frames of quarter steps whose maximum is 0, 1, 2 or 4: normalising and squaring are exact
    let exact = sp.len() > 0 && sp[0].len() <= 64 && sp.iter().all(|f| [0.0, 1.0, 2.0, 4.0].contains(&f.iter().fold(0.0f32, |a, &x| a.max(x))) && f.iter().all(|x| *x >= 0.0 && (x * 4.0).fract() == 0.0));
    (1..sp.len())
        .map(|i| {
            if exact {
                let d: f64 = norm[i - 1].iter().zip(&norm[i]).map(|(a, b)| (b - a).max(0.0).powi(2)).sum();
                return Fl { v: d.sqrt(), err: 0.0, cls: if d == 0.0 { ZERO } else { mix(d.to_bits()) | 2 } };
            }
            let mut d = 0.0;
            let mut pos = 0usize;
            for (a, b) in norm[i - 1].iter().zip(&norm[i]) {
                let x = b - a;
                if x > 0.0 {
                    d += x * x;
                }
                if x > -2e-7 && (*a > 0.0 || *b > 0.0) {
                    pos += 1;
                }
            }
            let v = d.sqrt();
            let same = h[i] == h[i - 1] || pos == 0;
            // each normalised value is within 1.2e-7; L2 over the bins that can contribute
            let err = 2.5e-7 * (pos as f64).sqrt() + v * (2e-6 + 3e-8 * sp[i].len() as f64);
            Fl { v: if same { 0.0 } else { v }, err: if same { 0.0 } else { err }, cls: if same { ZERO } else { mix(h[i] ^ mix(h[i - 1])) | 2 } }
        })
        .collect()
}

fn pick_percentile(c: &mut Case) -> f32 {
    match c.rng.us(0, 4) {
        0 => 0.8,
        1 => *c.rng.pick(&[0.0f32, 1.0, 0.5, 0.9, 0.95, 0.25]),
        _ => c.rng.f() as f32,
    }
}

fn o02(c: &mut Case) -> R {
    match c.idx % 8 {
        0 => return o02_thresholds(c),
        1 => return o02_invalid(c),
        _ => {}
    }
    let big = c.rng.p(0.05);
    let steps = c.rng.p(0.2);
    let sp = if steps {
        // whole numbers: equal rises are exactly equal
        let (nf, nb, m) = (c.rng.us(3, 40), c.rng.us(1, 5), c.rng.us(1, 4));
        let norm = c.rng.p(0.5);
        (0..nf).map(|_| {
            let mut f: Vec<f32> = (0..nb).map(|_| c.rng.us(0, m) as f32).collect();
            if norm && c.rng.p(0.97) {
                let k = c.rng.us(0, nb - 1);
                f[k] = 4.0;
            }
            f
        }).collect()
    } else if big && c.rng.p(0.3) { gen::spectro_any(&mut c.rng, 9000, 30) } else if big { gen::spectro_any(&mut c.rng, 400, 1025) } else { gen::spectro_any(&mut c.rng, 120, 80) };
    let p = pick_percentile(c);
    let sr = *c.rng.pick(&[8000u32, 22050, 44100, 48000, 96000]);
    let ctx = format!("{} frames x {} bins percentile {p}", sp.len(), sp.first().map(|f| f.len()).unwrap_or(0));
    let a = detect_spectral_flux_onsets(&sp, p).map_err(|e| format!("flux: {e}: {ctx}"))?;
    let b = detect_hfc_onsets(&sp, sr, p).map_err(|e| format!("hfc: {e}: {ctx}"))?;
    if sp.len() < 3 {
        ensure!(a.is_empty() && b.is_empty(), "onsets in {} frames", sp.len());
        c.ev("too_short", 1);
        return Ok(());
    }
    // reference
    let fl = spectral_flux_ref(&sp);
    let small = sp.iter().any(|f| { let m = f.iter().fold(0.0f32, |a, &x| a.max(x)); m > 0.0 && m < 1e-9 });
    if !small {
        let want = rising_peaks(&fl, &percentile_above(&fl, p));
        let (m, f) = check("spectral flux", &a, &want, &|i| Some(i + 1)).map_err(|m| format!("{m}: {ctx}"))?;
        c.ev("flux_certain", m);
        c.ev("flux_free", f);
    }
    let feat: Vec<f64> = sp.iter().map(|f| f.iter().enumerate().map(|(k, &x)| k as f64 * (x as f64).powi(2)).sum()).collect();
    let h: Vec<u64> = sp.iter().map(|f| frame_hash(f)).collect();
    let tiny = sp.iter().flatten().any(|&x| x > 0.0 && x < 1e-15);
    if !tiny {
        let fl = flux_list(&feat, 3e-6 + 6e-8 * sp[0].len() as f64, &h, exact_spec(&sp));
        let want = rising_peaks(&fl, &percentile_above(&fl, p));
        let (m, f) = check("high-frequency content", &b, &want, &|i| Some(i + 1)).map_err(|m| format!("{m}: {ctx}"))?;
        c.ev("hfc_certain", m);
        c.ev("hfc_free", f);
    }
    c.ev("steps_judged", fl.len() as u64);
    if !a.is_empty() || !b.is_empty() {
        c.seen(&format!("{a:?}{b:?}"));
        c.sample(json!({"case": ctx, "flux_onsets": a.len(), "hfc_onsets": b.len()}));
    }
    Ok(())
}

fn o02_thresholds(c: &mut Case) -> R {
    let n = if c.rng.p(0.03) { 0 } else if c.rng.p(0.03) { c.rng.lrange(400.0, 30_000.0) as usize } else { c.rng.lrange(1.0, 400.0) as usize };
    let q = c.rng.p(0.4);
    let sc = c.rng.lrange(1e-3, 1e3);
    let v: Vec<f32> = (0..n).map(|_| { let x = c.rng.gauss() * sc; (if q { x.round() } else { x }) as f32 }).collect();
    let p = if c.rng.p(0.1) { *c.rng.pick(&[-0.1f32, 1.01, f32::NAN]) } else { pick_percentile(c) };
    let k = if c.rng.p(0.1) { -c.rng.f() as f32 - 0.001 } else { c.rng.range(0.0, 6.0) as f32 };
    let a = percentile_threshold(&v, p);
    let m = adaptive_threshold_median_mad(&v, k);
    if n == 0 || !(0.0..=1.0).contains(&p) {
        ensure!(matches!(a, Err(AnalysisError::InvalidInput(_))), "percentile {p} of {n} values accepted");
    } else {
        let a = a.map_err(|e| e.to_string())?;
        let mut s = v.clone();
        s.sort_by(|x, y| x.total_cmp(y));
        let x = n as f64 * p as f64;
        let ok = [x, x * (1.0 + 2e-7), x * (1.0 - 2e-7)].iter().any(|x| s[(*x as usize).min(n - 1)] == a);
        ensure!(ok, "percentile {p} of {n} values is {a}, expected rank {x}");
        c.ev("percentiles", 1);
        c.seen(&format!("p{}{}", n, (p * 50.0) as i32));
    }
    if n == 0 || k < 0.0 {
        ensure!(matches!(m, Err(AnalysisError::InvalidInput(_))), "median/MAD with k {k} of {n} values accepted");
    } else {
        let m = m.map_err(|e| e.to_string())? as f64;
        let med = |mut s: Vec<f64>| {
            s.sort_by(|x, y| x.total_cmp(y));
            if n % 2 == 1 { s[n / 2] } else { (s[n / 2] + s[n / 2 - 1]) / 2.0 }
        };
        let v: Vec<f64> = v.iter().map(|x| *x as f64).collect();
        let md = med(v.clone());
        let mad = med(v.iter().map(|x| (x - md).abs()).collect());
        let w = md + k as f64 * mad;
        ensure!(close(m, w, 1e-5, 1e-6 * sc), "median + {k} MAD of {n} values is {m}, expected {w}");
        c.ev("mads", 1);
    }
    Ok(())
}

fn o02_invalid(c: &mut Case) -> R {
    let mut sp = gen::spectro_any(&mut c.rng, 60, 40);
    let mut p = pick_percentile(c);
    let mut sr = 44100;
    let kind = c.rng.us(0, 4);
    if sp.is_empty() {
        return Ok(());
    }
    let nb = sp[0].len();
    match kind {
        0 => p = *c.rng.pick(&[-0.01f32, 1.0001, 2.0, -1.0, f32::NAN, f32::INFINITY]),
        1 => {
            if sp.len() < 2 { return Ok(()); }
            let i = c.rng.us(1, sp.len() - 1);
            let l = if c.rng.p(0.5) && nb > 1 { nb - 1 } else { nb + c.rng.us(1, 3) };
            sp[i].resize(l, 0.5);
        }
        2 => sp.iter_mut().for_each(|f| f.clear()),
        3 => sr = 0,
        _ => {
            if sp.len() < 2 { return Ok(()); }
            let l = sp.len() - 1;
            sp[l].resize(nb + 1, 0.0);
        }
    }
    let a = detect_spectral_flux_onsets(&sp, p);
    let b = detect_hfc_onsets(&sp, sr, p);
    if kind != 3 {
        ensure!(matches!(a, Err(AnalysisError::InvalidInput(_))), "flux detector accepted malformed input kind {kind}, percentile {p}: {a:?}");
    } else {
        ensure!(a.is_ok(), "flux detector failed: {a:?}");
    }
    ensure!(matches!(b, Err(AnalysisError::InvalidInput(_))), "high-frequency detector accepted malformed input kind {kind}: {b:?}");
    c.ev("malformed_rejected", 1);
    Ok(())
}

fn median(w: &mut Vec<f64>) -> f64 {
    w.sort_by(|a, b| a.total_cmp(b));
    let n = w.len();
    if n % 2 == 1 { w[n / 2] } else { (w[n / 2] + w[n / 2 - 1]) / 2.0 }
}

/// reference separation; None if a mask decision was ambiguous
fn ref_hpss(sp: &[Vec<f32>], margin: usize) -> Option<(Vec<Vec<f64>>, Vec<Vec<f64>>)> {
    let (nf, nb) = (sp.len(), sp[0].len());
    let o: Vec<Vec<f64>> = sp.iter().map(|f| f.iter().map(|&x| x as f64).collect()).collect();
    let (mut h, mut p) = (o.clone(), o.clone());
    for it in 0..10 {
        let mut hn = vec![vec![0.0; nb]; nf];
        let mut pn = hn.clone();
        for t in 0..nf {
            for b in 0..nb {
                let mut w: Vec<f64> = (t.saturating_sub(margin)..(t + margin + 1).min(nf)).map(|u| h[u][b]).collect();
                let mh = median(&mut w);
                let mut w: Vec<f64> = p[t][b.saturating_sub(margin)..(b + margin + 1).min(nb)].to_vec();
                let mp = median(&mut w);
                let tot = mh + mp;
                if tot > 1e-11 && tot < 1e-9 {
                    return None;
                }
                let (rh, rp) = if tot > 1e-10 { (mh / tot, mp / tot) } else { (0.5, 0.5) };
                hn[t][b] = o[t][b] * rh;
                pn[t][b] = o[t][b] * rp;
            }
        }
        let mut ch = 0.0f64;
        for t in 0..nf {
            for b in 0..nb {
                ch = ch.max((hn[t][b] - h[t][b]).abs()).max((pn[t][b] - p[t][b]).abs());
            }
        }
        h = hn;
        p = pn;
        if it > 0 && ch < 1e-6 {
            break;
        }
    }
    Some((h, p))
}

fn o03(c: &mut Case) -> R {
    match c.idx % 6 {
        0 => {
            // malformed
            let r = hpss_decompose(&[], 3);
            ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "empty spectrogram accepted");
            let mut sp = gen::spectro_any(&mut c.rng, 30, 30);
            if sp.len() >= 2 {
                let i = c.rng.us(1, sp.len() - 1);
                let l = sp[0].len() + 1;
                sp[i].resize(l, 0.1);
                let r = hpss_decompose(&sp, c.rng.us(0, 5));
                ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "ragged spectrogram accepted");
                c.ev("malformed_rejected", 1);
            }
            let r = detect_hpss_onsets(&[vec![1.0], vec![2.0], vec![0.0]], *c.rng.pick(&[-0.1f32, 1.1, f32::NAN]));
            ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "percentile outside [0, 1] accepted");
            return Ok(());
        }
        1 => {
            // tones and hits go to their part
            let (nf, nb) = (c.rng.us(24, 60), c.rng.us(24, 60));
            let margin = c.rng.us(2, 8);
            let tone = c.rng.us(0, nb - 1);
            let hit = c.rng.us(0, nf - 1);
            let a = c.rng.lrange(1e-3, 100.0) as f32;
            let mut sp = vec![vec![0.0f32; nb]; nf];
            for (t, f) in sp.iter_mut().enumerate() {
                for (b, x) in f.iter_mut().enumerate() {
                    if b == tone || t == hit {
                        *x = a;
                    }
                }
            }
            let (h, p) = hpss_decompose(&sp, margin).map_err(|e| e.to_string())?;
            let ht: f32 = (0..nf).filter(|t| *t != hit).map(|t| h[t][tone]).sum();
            let pt: f32 = (0..nf).filter(|t| *t != hit).map(|t| p[t][tone]).sum();
            ensure!(ht > 0.8 * (ht + pt), "steady tone: harmonic {ht} percussive {pt} (margin {margin}, {nf}x{nb})");
            let hh: f32 = (0..nb).filter(|b| *b != tone).map(|b| h[hit][b]).sum();
            let ph: f32 = (0..nb).filter(|b| *b != tone).map(|b| p[hit][b]).sum();
            ensure!(ph > 0.8 * (hh + ph), "broadband hit: harmonic {hh} percussive {ph} (margin {margin}, {nf}x{nb})");
            c.ev("tone_hit_cases", 1);
            c.seen(&format!("tonehit{nf}{nb}{margin}{tone}{hit}"));
            return Ok(());
        }
        _ => {}
    }
    let sp = match c.rng.us(0, 60) { 0 => gen::spectro_any(&mut c.rng, 700, 12), 1 => gen::spectro_any(&mut c.rng, 12, 700), _ => gen::spectro_any(&mut c.rng, 60, 50) };
    if sp.is_empty() {
        return Ok(());
    }
    let margin = if c.rng.p(0.1) { *c.rng.pick(&[0usize, 100]) } else { c.rng.us(1, 15) };
    let ctx = format!("{}x{} margin {margin}", sp.len(), sp[0].len());
    let (h, p) = hpss_decompose(&sp, margin).map_err(|e| format!("{e}: {ctx}"))?;
    ensure!(h.len() == sp.len() && p.len() == sp.len(), "frame count changed: {ctx}");
    let rf = ref_hpss(&sp, margin);
    let mx = sp.iter().flatten().fold(0.0f32, |a, &x| a.max(x)) as f64;
    for t in 0..sp.len() {
        ensure!(h[t].len() == sp[t].len() && p[t].len() == sp[t].len(), "bin count changed in frame {t}: {ctx}");
        for b in 0..sp[t].len() {
            let (x, a, d) = (sp[t][b] as f64, h[t][b] as f64, p[t][b] as f64);
            ensure!(a >= 0.0 && d >= 0.0, "negative component at {t},{b}: {a} {d}: {ctx}");
            ensure!((a + d - x).abs() <= 1e-6 * x + 1e-30, "cell {t},{b}: {a} + {d} != {x}: {ctx}");
            if let Some((rh, _)) = &rf {
                ensure!((a - rh[t][b]).abs() <= 2e-4 * x + 3e-6 + 1e-6 * mx.min(1.0), "cell {t},{b}: harmonic {a}, expected {} of {x}: {ctx}", rh[t][b]);
            }
        }
    }
    c.ev("cells", (sp.len() * sp[0].len()) as u64);
    c.ev(if rf.is_some() { "reference_compared" } else { "conservation_only" }, 1);
    // onsets of the percussive part, or of any other spectrogram
    let p = if c.rng.p(0.5) { p } else if c.rng.p(0.4) { sp.clone() } else {
        let (nf, nb, m) = (c.rng.us(3, 30), c.rng.us(1, 4), c.rng.us(1, 4));
        (0..nf).map(|_| (0..nb).map(|_| c.rng.us(0, m) as f32).collect()).collect()
    };
    let pct = pick_percentile(c);
    let got = detect_hpss_onsets(&p, pct).map_err(|e| format!("{e}: {ctx}"))?;
    if p.len() < 3 {
        ensure!(got.is_empty(), "onsets in {} frames", p.len());
        return Ok(());
    }
    let feat: Vec<f64> = p.iter().map(|f| f.iter().map(|&x| (x as f64).powi(2)).sum()).collect();
    let hs: Vec<u64> = p.iter().map(|f| frame_hash(f)).collect();
    if !p.iter().flatten().any(|&x| x > 0.0 && x < 1e-15) {
        let fl = flux_list(&feat, 3e-6 + 6e-8 * p[0].len() as f64, &hs, exact_spec(&p));
        let want = rising_peaks(&fl, &percentile_above(&fl, pct));
        let (m, f) = check("percussive onsets", &got, &want, &|i| Some(i + 1)).map_err(|m| format!("{m}: {ctx} percentile {pct}"))?;
        c.ev("onset_certain", m);
        c.ev("onset_free", f);
    }
    c.seen_h(hash_f32(&h.concat()));
    c.sample(json!({"case": ctx, "percentile": pct, "onsets": got.len()}));
    Ok(())
}

fn o04(c: &mut Case) -> R {
    let sr = if c.rng.p(0.02) { 0 } else { *c.rng.pick(&[1u32, 1000, 8000, 22050, 44100, 48000, 96000, 192000]) };
    let tol_ms: u32 = if c.rng.p(0.02) { 0 } else { *c.rng.pick(&[1u32, 5, 10, 20, 50, 100, 333, 2000]) };
    let mut w = [0.0f32; 4];
    let wk = c.rng.us(0, 5);
    for x in w.iter_mut() {
        *x = match wk {
            0 => 0.0,
            1 => 1.0,
            2 => c.rng.f() as f32,
            3 => *c.rng.pick(&[0.0f32, 0.25, 0.5, 1.0]),
            4 => c.rng.lrange(1e-3, 100.0) as f32,
            _ => *c.rng.pick(&[0.4f32, 0.3, 0.2, 0.1]),
        };
    }
    let bad_w = c.rng.p(0.04);
    if bad_w {
        let i = c.rng.us(0, 3);
        w[i] = *c.rng.pick(&[-0.1f32, -1e-6, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    }
    let tol = tol_ms as f64 / 1000.0 * sr as f64;
    // events with jittered detections around the tolerance
    let base = match c.rng.us(0, 12) {
        0 => (1usize << 31) - 40_000,
        1 => (1usize << 32) - 40_000,
        2 => 1usize << 40,
        _ => 0,
    };
    let mut lists: [Vec<usize>; 4] = Default::default();
    let ne = if c.rng.p(0.02) { c.rng.lrange(25.0, 3000.0) as usize } else { c.rng.us(0, 25) };
    let spread = (tol.max(2.0) * *c.rng.pick(&[1.0, 3.0, 8.0])) as usize + 1;
    let mut at = base + c.rng.us(0, spread);
    for _ in 0..ne {
        for l in lists.iter_mut() {
            if c.rng.p(0.6) {
                let d = match c.rng.us(0, 5) {
                    0 => 0.0,
                    1 => tol,
                    2 => tol + 1.0,
                    _ => c.rng.range(0.0, 1.3 * tol + 2.0),
                };
                l.push(at + d as usize);
                if c.rng.p(0.05) {
                    let x = *l.last().unwrap();
                    l.push(x);
                }
            }
        }
        at += c.rng.us(0, 2 * spread);
    }
    for l in lists.iter_mut() {
        if c.rng.p(0.3) {
            c.rng.shuffle(l);
        } else if c.rng.p(0.7) {
            l.sort_unstable();
        }
        if c.rng.p(0.1) {
            l.clear();
        }
    }
    let ctx = format!("lists {lists:?} weights {w:?} tol {tol_ms} ms sr {sr}");
    let got = vote_onsets(OnsetConsensus { energy_flux: lists[0].clone(), spectral_flux: lists[1].clone(), hfc: lists[2].clone(), hpss: lists[3].clone() }, w, tol_ms, sr);
    if sr == 0 || tol_ms == 0 || bad_w {
        ensure!(matches!(got, Err(AnalysisError::InvalidInput(_))), "invalid voting parameters accepted: {ctx}");
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let got = got.map_err(|e| format!("{e}: {ctx}"))?;
    let mut all: Vec<(usize, usize)> = vec![];
    for (m, l) in lists.iter().enumerate() {
        all.extend(l.iter().map(|&x| (x, m)));
    }
    all.sort_unstable();
    let (tlo, thi) = ((tol * (1.0 - 3e-7)).floor() as usize, (tol * (1.0 + 3e-7)).floor() as usize);
    let t32 = tol_ms as f32 / 1000.0 * sr as f32;
    let exact = (tol_ms as u64 * sr as u64) % 1000 == 0 && [t32, tol_ms as f32 * (sr as f32 / 1000.0), sr as f32 * 0.001 * tol_ms as f32, tol_ms as f32 * 0.001 * sr as f32].iter().all(|t| *t as f64 == tol.round());
    let (tlo, thi) = if exact { (t32 as usize, t32 as usize) } else { (tlo, thi) };
    for p in all.windows(2) {
        let g = p[1].0 - p[0].0;
        if g > tlo && g <= thi {
            c.ev("ambiguous_skipped", 1);
            return Ok(());
        }
    }
    let mut clusters: Vec<Vec<(usize, usize)>> = vec![];
    for o in &all {
        match clusters.last_mut() {
            Some(cl) if o.0 - cl.last().unwrap().0 <= thi => cl.push(*o),
            _ => clusters.push(vec![*o]),
        }
    }
    ensure!(got.len() == clusters.len(), "{} candidates for {} groups: {ctx}", got.len(), clusters.len());
    let tw: f64 = w.iter().map(|x| *x as f64).sum();
    // expected set, keyed by centre
    let mut want: Vec<(usize, u32, f64)> = clusters
        .iter()
        .map(|cl| {
            let cen = cl.iter().map(|o| o.0 as u128).sum::<u128>() / cl.len() as u128;
            let mut m = [false; 4];
            cl.iter().for_each(|o| m[o.1] = true);
            let cw: f64 = cl.iter().map(|o| w[o.1] as f64).sum();
            (cen as usize, m.iter().filter(|x| **x).count() as u32, if tw > 0.0 { (cw / tw).clamp(0.0, 1.0) } else { 0.0 })
        })
        .collect();
    for p in got.windows(2) {
        ensure!(p[0].confidence >= p[1].confidence, "not ranked by confidence: {} before {}: {ctx}", p[0].confidence, p[1].confidence);
    }
    let mut g: Vec<_> = got.iter().map(|o| (o.time_samples, o.voted_by, o.confidence, o.time_seconds)).collect();
    g.sort_by_key(|o| o.0);
    want.sort_by_key(|o| o.0);
    for (a, b) in g.iter().zip(&want) {
        ensure!(a.0.abs_diff(b.0) <= if base > 1 << 30 { 1 } else { 0 }, "group centre {}, expected {}: {ctx}", a.0, b.0);
        ensure!(a.1 == b.1, "group at {}: voted by {}, expected {}: {ctx}", a.0, a.1, b.1);
        ensure!(close(a.2 as f64, b.2, 1e-5, 1e-6), "group at {}: confidence {}, expected {}: {ctx}", a.0, a.2, b.2);
        ensure!(close(a.3 as f64, a.0 as f64 / sr as f64, 1e-6, 1e-9), "group at {}: time {} s at {sr} Hz", a.0, a.3);
    }
    c.ev("detections", all.len() as u64);
    c.ev("groups", clusters.len() as u64);
    c.ev("multi_detector_groups", want.iter().filter(|x| x.1 > 1).count() as u64);
    if clusters.len() > 1 {
        c.seen(&format!("{g:?}"));
        c.sample(json!({"detections": all.len(), "groups": clusters.len(), "tolerance_ms": tol_ms, "sr": sr}));
    }
    Ok(())
}
