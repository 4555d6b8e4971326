//! S01..S04: preprocessing and the short-time spectrum.
use crate::ensure;
use crate::gen;
use crate::mon::*;
use serde_json::json;
use stratum_dsp::features::chroma::extractor::compute_stft;
use stratum_dsp::preprocessing::channel_mixer::{stereo_to_mono, ChannelMixMode};
use stratum_dsp::preprocessing::normalization::*;
use stratum_dsp::preprocessing::silence::*;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "S01", quick: 30_000, thorough: 600_000,
            rule: "random buffers (noise, tones, level blocks, spikes, constants, silence; 1..60000 samples) x method x target x headroom x rate; each call of normalize() is watched and compared with an f64 meter. Distinct: signature of method, limiter branch, log-gain and length class",
            assumptions: &["level comparisons allow 0.02 dB of single-precision accumulation error", "loudness metering is exercised at sample rates of 8 kHz and above"],
            min_nontrivial: 200, run: s01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "S02", quick: 900_000, thorough: 1_800_000,
            rule: "random level-block buffers x threshold x minimum duration x frame size x rate; trimmed span and silence map compared with an independent frame gate. Distinct: signature of region pattern",
            assumptions: &["a frame whose RMS is within 0.1 percent of the threshold may be judged either way (such cases are skipped)"],
            min_nontrivial: 500, run: s02, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "S03", quick: 360_000, thorough: 1_500_000,
            rule: "random channel pairs (same, inverted, independent, unequal length, extreme values) x four modes, compared sample by sample. Distinct: hash of the mix",
            assumptions: &[], min_nontrivial: 500, run: s03, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "S04", quick: 18_000, thorough: 120_000,
            rule: "random buffers x frame (2..4096, powers of two and not) x hop; every frame count, and a sample of frames and bins against a direct f64 DFT. Distinct: frame/hop/length signature with non-zero content",
            assumptions: &["single-precision FFT error bounded by 2e-6 of the frame's total windowed magnitude plus rounding"],
            min_nontrivial: 200, run: s04, serial: false, hang_is_violation: false,
        },
    ]
}

fn db(x: f64) -> f64 {
    20.0 * x.log10()
}
pub fn ref_lufs(s: &[f32], sr: f64) -> (f64, bool) {
    // (loudness, ambiguous gate)
    let w0 = 2.0 * std::f64::consts::PI * 1681.9745 / sr;
    let (sn, cs) = w0.sin_cos();
    let alpha = sn / 2.0 * (1.0f64 / 0.707).sqrt();
    let a0 = 1.0 + alpha;
    let (b0, b1, b2) = ((1.0 + cs) / 2.0 / a0, -(1.0 + cs) / a0, (1.0 + cs) / 2.0 / a0);
    let (a1, a2) = (-2.0 * cs / a0, (1.0 - alpha) / a0);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
    let y: Vec<f64> = s
        .iter()
        .map(|&v| {
            let v = v as f64;
            let o = b0 * v + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2;
            x2 = x1;
            x1 = v;
            y2 = y1;
            y1 = o;
            o
        })
        .collect();
    let bs = (sr as f32 * 400.0 / 1000.0) as usize;
    let gate = 10f64.powf((-70.0 + 0.691) / 10.0);
    let peak = s.iter().fold(0.0f64, |a, &x| a.max((x as f64).abs()));
    let mut amb = false;
    let mut g = vec![];
    for b in y.chunks(bs) {
        let e = b.iter().map(|v| v * v).sum::<f64>() / b.len() as f64;
        // within 2 percent of the gate, or buried in the single-precision filter noise of a very loud signal
        if (e / gate - 1.0).abs() < 0.02 || (peak * 1e-4 > gate.sqrt() && e.sqrt() < peak * 1e-4) {
            amb = true;
        }
        if e > gate {
            g.push(e);
        }
    }
    if g.is_empty() {
        return (f64::NEG_INFINITY, amb);
    }
    (-0.691 + 10.0 * (g.iter().sum::<f64>() / g.len() as f64).log10(), amb)
}

fn s01(c: &mut Case) -> R {
    if c.idx == 0 {
        let q = NormalizationConfig::default();
        ensure!(q.target_loudness_lufs == -14.0 && q.max_headroom_db == 1.0 && matches!(q.method, NormalizationMethod::Peak), "default normalisation settings {q:?}");
    }
    let method = *c.rng.pick(&[NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness]);
    let sr = *c.rng.pick(&[8000.0f32, 11025.0, 16000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0]);
    let n = if c.rng.p(0.02) { 0 } else { (if c.rng.p(0.04) { c.rng.lrange(6e4, 3e6) } else { c.rng.lrange(1.0, 60000.0) }) as usize };
    let (mut s, desc) = gen::buf(&mut c.rng, n);
    if c.rng.p(0.1) && n > 0 {
        let g = c.rng.lrange(1e-12, 1e3) as f32;
        s.iter_mut().for_each(|x| *x *= g);
    }
    let target = if c.rng.p(0.5) { -14.0 } else { c.rng.range(-60.0, 6.0) as f32 };
    let head = if c.rng.p(0.4) { 1.0 } else { *c.rng.pick(&[0.0f32, 0.3, 3.0, 6.0, 12.0, -2.0]) };
    let ctx = format!("{method:?} target {target} headroom {head} sr {sr} {desc}");
    let orig = s.clone();
    let r = normalize(&mut s, NormalizationConfig { target_loudness_lufs: target, max_headroom_db: head, method }, sr);
    if n == 0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "empty input not rejected as invalid: {ctx}");
        c.ev("empty_rejected", 1);
        return Ok(());
    }
    let m = match r {
        Ok(m) => m,
        Err(e) => return Err(format!("normalize failed on ordinary audio: {e} [{ctx}]")),
    };
    ensure!(s.len() == n, "length changed");
    let peak = orig.iter().fold(0.0f64, |a, &x| a.max((x as f64).abs()));
    let rms = (orig.iter().map(|&x| (x as f64) * (x as f64)).sum::<f64>() / n as f64).sqrt();
    // single-precision squares underflow: such levels are outside what the meter can represent
    if peak < 1e-9 {
        if peak < 0.9e-10 {
            ensure!(s.iter().zip(&orig).all(|(a, b)| a.to_bits() == b.to_bits()), "silence was modified: {ctx}");
            ensure!(m.gain_db == 0.0, "gain {} reported for silence: {ctx}", m.gain_db);
            ensure!(m.peak_db == f32::NEG_INFINITY && m.rms_db == f32::NEG_INFINITY, "levels {} {} reported for silence: {ctx}", m.peak_db, m.rms_db);
            c.ev("silence", 1);
            c.seen(&format!("silence {method:?} {}", n.ilog2()));
        }
        return Ok(());
    }
    if rms < 1e-8 {
        return Ok(());
    }
    let head_lin = 10f64.powf(-(head as f64) / 20.0);
    let (gain, branch) = match method {
        NormalizationMethod::Peak => (head_lin.min(1.0) / peak, if head < 0.0 { "limited" } else { "target" }),
        NormalizationMethod::RMS => {
            let g = 10f64.powf((target as f64 + 3.0 - head as f64) / 20.0) / rms;
            if g * peak > 1.0 { (1.0 / peak, "limited") } else { (g, "target") }
        }
        NormalizationMethod::Loudness => {
            let (l, amb) = ref_lufs(&orig, sr as f64);
            if amb {
                return Ok(());
            }
            if l == f64::NEG_INFINITY {
                ensure!(m.measured_lufs.is_none(), "loudness {:?} reported although below the gate: {ctx}", m.measured_lufs);
                (head_lin.min(1.0) / peak, "fallback")
            } else {
                let ml = m.measured_lufs.ok_or(format!("no loudness reported, expected {l}: {ctx}"))?;
                ensure!(close(ml as f64, l, 0.0, 0.03), "loudness {ml}, expected {l}: {ctx}");
                let g = 10f64.powf((target as f64 - l) / 20.0);
                if g * peak > head_lin { (head_lin / peak, "limited") } else { (g, "target") }
            }
        }
    };
    if !matches!(method, NormalizationMethod::Loudness) {
        ensure!(m.measured_lufs.is_none(), "loudness reported by {method:?}");
    }
    ensure!(close(m.peak_db as f64, db(peak), 0.0, 0.005), "peak {} dB, expected {}: {ctx}", m.peak_db, db(peak));
    ensure!(close(m.rms_db as f64, db(rms), 0.0, 0.02), "rms {} dB, expected {}: {ctx}", m.rms_db, db(rms));
    ensure!(close(m.gain_db as f64, db(gain), 0.0, 0.03), "gain {} dB, expected {}: {ctx}", m.gain_db, db(gain));
    // one factor for all samples, and the reported one
    let imax = (0..n).max_by(|&a, &b| orig[a].abs().total_cmp(&orig[b].abs())).unwrap();
    let g = s[imax] as f64 / orig[imax] as f64;
    ensure!(close(g, gain, 0.004, 0.0), "applied gain {g}, expected {gain}: {ctx}");
    ensure!(close(db(g), m.gain_db as f64, 0.0, 0.002), "applied gain {} dB but reported {}: {ctx}", db(g), m.gain_db);
    for i in 0..n {
        let w = orig[i] as f64 * g;
        ensure!((s[i] as f64 - w).abs() <= 1e-6 * w.abs() + 1e-37, "sample {i}: {} -> {} but factor is {g}: {ctx}", orig[i], s[i]);
    }
    c.ev("samples_compared", n as u64);
    c.ev(&format!("{method:?}_{branch}"), 1);
    c.seen(&format!("{method:?}{branch}{}{}{}", (db(gain) / 3.0).round(), n.ilog2(), sr));
    c.sample(json!({"case": ctx, "gain_db": m.gain_db, "branch": branch}));
    Ok(())
}

fn s02(c: &mut Case) -> R {
    let sr = *c.rng.pick(&[1u32, 100, 8000, 22050, 44100, 48000]);
    let frame = match c.rng.us(0, 6) {
        0 => 0usize,
        1 => c.rng.us(1, 5),
        2 | 3 => c.rng.us(6, 300),
        4 => 2048,
        _ => 1usize << c.rng.us(1, 10),
    };
    let n = match c.rng.us(0, 9) {
        0 => c.rng.us(0, 3),
        1 => frame,
        2 => frame.saturating_sub(1),
        3 if c.rng.p(0.1) => c.rng.lrange(2.0, (frame.max(2) as f64) * 2500.0) as usize,
        _ => c.rng.lrange(2.0, (frame.max(2) as f64) * 40.0) as usize,
    };
    let thr = if c.rng.p(0.5) { -40.0f32 } else { c.rng.range(-80.0, 3.0) as f32 };
    let hop = (frame / 2).max(1);
    let min_ms: u32 = match c.rng.us(0, 3) {
        0 => 0,
        1 => 500,
        _ => ((c.rng.range(0.0, 12.0) * hop as f64) / sr as f64 * 1000.0) as u32,
    };
    let lin = 10f64.powf(thr as f64 / 20.0);
    // level blocks around the threshold, roughly frame sized
    let mut s = vec![0.0f32; n];
    if c.rng.p(0.85) {
        let mut at = 0;
        let scale = *c.rng.pick(&[0.3, 1.0, 4.0, 12.0]);
        while at < n {
            let l = (c.rng.range(0.2, 2.0) * frame.max(1) as f64 * scale) as usize + 1;
            let a = match c.rng.us(0, 3) {
                0 => 0.0,
                1 => lin * c.rng.range(0.1, 0.9),
                2 => lin * c.rng.range(1.1, 2.0),
                _ => lin * c.rng.range(2.0, 50.0),
            };
            let noise = c.rng.p(0.5);
            let end = (at + l).min(n);
            for (j, x) in s[at..end].iter_mut().enumerate() {
                *x = if noise { (a * 1.732 * c.rng.range(-1.0, 1.0)) as f32 } else if j % 2 == 0 { a as f32 } else { -a as f32 };
            }
            at = end;
        }
    } else {
        s = gen::buf(&mut c.rng, n).0;
    }
    let ctx = format!("n {n} frame {frame} sr {sr} thr {thr} min {min_ms} ms");
    if c.idx % 500 == 3 {
        // the documented defaults are the ones in force
        let sd = || SilenceDetector { threshold_db: -40.0, min_duration_ms: 500, frame_size: 2048 };
        let x: Vec<f32> = (0..sr as usize * 2).map(|i| (if i % (sr as usize) < sr as usize * 2 / 3 { 0.009 } else { 0.0111 }) * if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let key = |r: Result<(Vec<f32>, Vec<(usize, usize)>), AnalysisError>| format!("{:?}", r.map(|(t, m)| (t.len(), m)).map_err(|e| e.to_string()));
        let (a, b) = (key(detect_and_trim(&x, sr, SilenceDetector::default())), key(detect_and_trim(&x, sr, sd())));
        ensure!(a == b, "default silence settings give {a}, the documented ones (-40 dB, 500 ms, 2048) {b}");
        let q = SilenceDetector::default();
        ensure!(q.threshold_db == -40.0 && q.min_duration_ms == 500 && q.frame_size == 2048, "default silence settings {q:?}");
        c.ev("defaults", 1);
    }
    let bad_sr = c.rng.p(0.01);
    let sr_use = if bad_sr { 0 } else { sr };
    let r = detect_and_trim(&s, sr_use, SilenceDetector { threshold_db: thr, min_duration_ms: min_ms, frame_size: frame });
    if n == 0 {
        let (t, m) = r.map_err(|e| format!("empty input rejected: {e}"))?;
        ensure!(t.is_empty() && m.is_empty(), "empty input gave samples");
        return Ok(());
    }
    if frame == 0 || sr_use == 0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "invalid parameters not rejected: {ctx} sr {sr_use}");
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let (t, m) = r.map_err(|e| format!("{e}: {ctx}"))?;
    // reference gate
    let nf = if n >= frame { (n - frame) / hop + 1 } else { 1 };
    let mut quiet = Vec::with_capacity(nf);
    for i in 0..nf {
        let seg = &s[i * hop..(i * hop + frame).min(n)];
        let rms = (seg.iter().map(|&x| (x as f64).powi(2)).sum::<f64>() / seg.len() as f64).sqrt();
        if (rms / lin - 1.0).abs() < 1e-3 {
            c.ev("ambiguous_skipped", 1);
            return Ok(());
        }
        quiet.push(rms <= lin);
    }
    let min_frames = ((min_ms as f32 / 1000.0 * sr as f32) as usize).div_ceil(hop);
    let mut want: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < nf {
        if !quiet[i] {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < nf && quiet[j] {
            j += 1;
        }
        if i == 0 || j - i >= min_frames {
            want.push((i * hop, if j < nf { j * hop } else { n }));
        }
        i = j;
    }
    ensure!(m == want, "silence map {m:?}, expected {want:?}: {ctx}");
    for w in m.windows(2) {
        ensure!(w[0].1 <= w[1].0, "regions overlap {m:?}");
    }
    let ts = want.first().filter(|r| r.0 == 0).map(|r| r.1).unwrap_or(0);
    let te = want.last().filter(|r| r.1 == n).map(|r| r.0).unwrap_or(n);
    let (ts, te) = if ts >= te { (0, 0) } else { (ts, te) };
    ensure!(t.len() == te - ts, "trimmed length {}, expected {}: {ctx} map {m:?}", t.len(), te - ts);
    ensure!(t.iter().zip(&s[ts..te]).all(|(a, b)| a.to_bits() == b.to_bits()), "trimmed samples are not the span {ts}..{te}: {ctx}");
    c.ev("frames_judged", nf as u64);
    c.ev("regions", m.len() as u64);
    c.ev("samples_kept", t.len() as u64);
    if !m.is_empty() && m.len() < nf {
        c.seen(&format!("{:?}|{nf}|{hop}|{}", m.iter().map(|r| (r.0 / hop, r.1 / hop)).collect::<Vec<_>>(), min_frames));
        c.sample(json!({"case": ctx, "map": m, "kept": [ts, te]}));
    }
    Ok(())
}

fn s03(c: &mut Case) -> R {
    let n = if c.rng.p(0.05) { 0 } else if c.rng.p(0.03) { c.rng.lrange(4e3, 4e5) as usize } else { c.rng.lrange(1.0, 4000.0) as usize };
    let (mut l, _) = gen::buf(&mut c.rng, n);
    let (mut r, _) = gen::buf(&mut c.rng, n);
    match c.rng.us(0, 9) {
        0 => r = l.clone(),
        1 => r = l.iter().map(|x| -x).collect(),
        2 => {
            for x in l.iter_mut().chain(r.iter_mut()) {
                if c.rng.p(0.2) {
                    *x = *c.rng.pick(&[0.0, -0.0, 1.0, -1.0, 1e-40, -1e-40, 1e30, -1e30, 0.25, -0.25]);
                }
            }
        }
        3 => {
            let m = c.rng.us(0, n + 3);
            r.resize(m, 0.5);
        }
        4 => {
            for x in l.iter_mut() {
                *x = (*x * 8.0).round() / 8.0;
            }
            for x in r.iter_mut() {
                *x = (*x * 8.0).round() / 8.0;
            }
        }
        _ => {}
    }
    let mode = *c.rng.pick(&[ChannelMixMode::Mono, ChannelMixMode::MidSide, ChannelMixMode::Dominant, ChannelMixMode::Center]);
    let out = stereo_to_mono(&l, &r, mode);
    if l.len() != r.len() {
        ensure!(matches!(out, Err(AnalysisError::InvalidInput(_))), "channels of {} and {} samples accepted", l.len(), r.len());
        c.ev("length_mismatch_rejected", 1);
        return Ok(());
    }
    let out = out.map_err(|e| format!("{mode:?} n {n}: {e}"))?;
    ensure!(out.len() == l.len(), "{mode:?}: {} samples from {n}", out.len());
    for i in 0..n {
        let (a, b) = (l[i] as f64, r[i] as f64);
        let o = out[i] as f64;
        match mode {
            ChannelMixMode::Dominant => {
                // the left channel where both are equally loud
                ensure!(o == if b.abs() > a.abs() { b } else { a }, "dominant of {a} and {b} is {o} (sample {i})");
            }
            _ => {
                let w = (a + b) / 2.0;
                ensure!((o - w).abs() <= 1.2e-7 * (a.abs() + b.abs()) + 1e-44, "{mode:?} of {a} and {b} is {o} (sample {i} of {n})");
            }
        }
    }
    c.ev("samples_mixed", n as u64);
    c.ev(&format!("{mode:?}"), 1);
    if n > 0 {
        c.seen_h(hash_f32(&out));
        c.sample(json!({"mode": format!("{mode:?}"), "n": n}));
    }
    Ok(())
}

/// direct windowed DFT magnitude in f64, and the scale of single-precision error (window rounding included)
pub fn ref_bin(seg: &[f32], k: usize) -> (f64, f64) {
    let n = seg.len();
    let (mut re, mut im, mut tot) = (0.0, 0.0, 0.0);
    let w0 = 2.0 * std::f64::consts::PI / n as f64;
    for (i, &x) in seg.iter().enumerate() {
        let w = 0.5 * (1.0 - (2.0 * std::f64::consts::PI * i as f64 / (n - 1) as f64).cos());
        let v = w * x as f64;
        let ph = w0 * ((i * k) % n) as f64;
        re += v * ph.cos();
        im -= v * ph.sin();
        tot += v.abs() + 0.1 * x.abs() as f64;
    }
    ((re * re + im * im).sqrt(), tot)
}

fn s04(c: &mut Case) -> R {
    let frame = match c.rng.us(0, 7) {
        0 => c.rng.us(0, 3),
        1 => c.rng.us(2, 40),
        2 => *c.rng.pick(&[1000usize, 441, 882, 1200, 997, 1536, 2047]),
        3 => c.rng.us(40, 1500),
        _ => 1usize << c.rng.us(1, 12),
    };
    if frame == 1 {
        return Ok(());
    }
    let hop = match c.rng.us(0, 4) {
        0 => c.rng.us(0, 3),
        1 => frame,
        2 => frame + c.rng.us(1, 20),
        _ => (frame / *c.rng.pick(&[2usize, 4, 3, 8])).max(1),
    };
    let many = c.rng.p(0.04);
    let nf_want = if many { c.rng.lrange(12.0, 5000.0).min(3e7 / (frame + 1) as f64) as usize } else { c.rng.us(0, 12) };
    let n = match c.rng.us(0, 6) {
        0 => frame.saturating_sub(1),
        1 => frame,
        2 => c.rng.us(0, frame * 2),
        _ => frame + nf_want * hop + c.rng.us(0, hop),
    }
    .min(frame + if many { nf_want + 1 } else { 40 } * hop.max(1));
    let (s, desc) = gen::buf(&mut c.rng, n);
    let ctx = format!("frame {frame} hop {hop} {desc}");
    let r = compute_stft(&s, frame, hop);
    if frame == 0 || hop == 0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "zero frame/hop not rejected: {ctx}");
        c.ev("invalid_rejected", 1);
        return Ok(());
    }
    let sp = r.map_err(|e| format!("{e}: {ctx}"))?;
    let nf = if n < frame { 0 } else { (n - frame) / hop + 1 };
    ensure!(sp.len() == nf, "{} frames, expected {nf}: {ctx}", sp.len());
    for (t, f) in sp.iter().enumerate() {
        ensure!(f.len() == frame / 2 + 1, "{} bins in frame {t}: {ctx}", f.len());
    }
    if nf == 0 {
        c.ev("too_short_empty", 1);
        return Ok(());
    }
    // direct transform on sampled cells; first and last frame always
    let nb = frame / 2 + 1;
    let cells = (400_000 / frame).clamp(40, 3000).min(nf * nb);
    for j in 0..cells {
        let t = if j == 0 { 0 } else if j == 1 { nf - 1 } else { c.rng.us(0, nf - 1) };
        let k = match j % 5 {
            0 => *c.rng.pick(&[0usize, 1, nb - 1, nb.saturating_sub(2)]),
            1 => {
                // the strongest bin
                let f = &sp[t];
                (0..nb).max_by(|&a, &b| f[a].total_cmp(&f[b])).unwrap()
            }
            _ => c.rng.us(0, nb - 1),
        };
        let (w, tot) = ref_bin(&s[t * hop..t * hop + frame], k);
        let g = sp[t][k] as f64;
        ensure!((g - w).abs() <= 4e-6 * tot + 1e-17, "frame {t} bin {k}: {g}, expected {w} (total {tot}): {ctx}");
        c.ev("cells_compared", 1);
    }
    // Parseval on every frame: catches a wrong frame the sampling missed
    for t in 0..nf {
        let seg = &s[t * hop..t * hop + frame];
        let (mut e, mut ex) = (0.0, 0.0f64);
        for (i, &x) in seg.iter().enumerate() {
            let w = 0.5 * (1.0 - (2.0 * std::f64::consts::PI * i as f64 / (frame - 1) as f64).cos());
            e += (w * x as f64).powi(2);
            ex += (x as f64).powi(2);
        }
        let mut p = 0.0;
        for (k, &m) in sp[t].iter().enumerate() {
            let mul = if k == 0 || (frame % 2 == 0 && k == frame / 2) { 1.0 } else { 2.0 };
            p += mul * (m as f64).powi(2);
        }
        ensure!(close((p / frame as f64).sqrt(), e.sqrt(), 1e-3, 1e-6 * ex.sqrt() + 1e-17), "frame {t}: spectral energy {} vs {e}: {ctx}", p / frame as f64);
    }
    c.ev("frames_parseval", nf as u64);
    if s.iter().any(|x| *x != 0.0) {
        c.seen(&format!("{frame} {hop} {nf}"));
        c.sample(json!({"case": ctx, "frames": nf}));
    }
    Ok(())
}
