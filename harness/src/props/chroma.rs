//! C01-C05: chroma extraction, harmonic profiles, spectrogram conditioning, tuning, smoothing.
use crate::ensure;
use crate::gen;
use crate::mon::*;
use crate::rng::Rng;
use serde_json::json;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::*;
use stratum_dsp::features::chroma::smoothing::*;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01", quick: 90_000, thorough: 300_000,
            rule: "spectrograms (tones, noise, silence, tiny and huge levels) x rate x transform size x hard/soft mapping x width x tuning x beat lists, plus audio; every extraction route against a double-precision pitch-class mapping, and the routes against each other. Distinct: hash of the chroma vectors",
            assumptions: &["magnitudes in bins within 0.001 semitone of a rounding boundary or within rounding error of the band edge are set to zero before extraction"],
            min_nontrivial: 300, run: c01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "C02", quick: 450_000, thorough: 900_000,
            rule: "spectra x peak counts x harmonics x decay x compression x whitening x bass bands; harmonic profiles against a reference peak picker and harmonic sum, blend against the reference mix. Distinct: hash of the profiles",
            assumptions: &["frames whose peak selection is decided within rounding error (ties at the last kept peak, whitened near-ties) are only checked for range, norm and energy"],
            min_nontrivial: 300, run: c02, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "C03", quick: 45_000, thorough: 200_000,
            rule: "spectrograms x margins x powers x steps x bands; smoothing, both masks and the log-frequency resampling against reference computations, plus range, shape and rejection checks. Distinct: hash of the outputs",
            assumptions: &["magnitudes up to 1e5 and mask powers up to 6"],
            min_nontrivial: 300, run: c03, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "C04", quick: 450_000, thorough: 900_000,
            rule: "spectrograms with commonly detuned components, random spectra, silence; estimated tuning against a double-precision circular mean, against the synthetic detuning and under level changes. Distinct: hash of the estimate",
            assumptions: &["estimates within rounding error of the concentration threshold are only range-checked"],
            min_nontrivial: 300, run: c04, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "C05", quick: 60_000, thorough: 600_000,
            rule: "chroma sequences (random, repeated, zero, one-hot) x window sizes x powers; smoothing, sharpening and normalisation against reference statistics and under rotation. Distinct: hash of the smoothed sequence",
            assumptions: &[], min_nontrivial: 300, run: c05, serial: false, hang_is_violation: false,
        },
    ]
}

fn rate(r: &mut Rng) -> u32 {
    *r.pick(&[8000u32, 11025, 16000, 22050, 25600, 32000, 44100, 48000, 51200, 96000])
}
/// (spectrogram, rate, transform size): bins = size/2+1
pub fn spec_for(r: &mut Rng, max_frames: usize) -> (Vec<Vec<f32>>, u32, usize) {
    let sr = rate(r);
    let fft = match r.us(0, 5) {
        0 => r.us(2, 40),
        1 => r.us(40, 700),
        2 => 2048,
        _ => *r.pick(&[128usize, 256, 512, 1024, 480, 800]),
    };
    let frames = if r.p(0.1) { r.us(1, 3) } else { r.us(1, max_frames) };
    let bins = fft / 2 + 1;
    let mut v = gen::spectrogram(r, frames, bins);
    if r.p(0.3) {
        let q = *r.pick(&[1.0f32, 4.0, 8.0]);
        v.iter_mut().flatten().for_each(|x| *x = (*x * q).round() / q);
    }
    if r.p(0.2) {
        let g = r.lrange(1e-5, 1e5) as f32;
        v.iter_mut().flatten().for_each(|x| *x *= g);
    }
    if r.p(0.25) {
        for f in v.iter_mut() {
            match r.us(0, 4) {
                0 => f.iter_mut().for_each(|x| *x = 0.0),
                1 => {
                    let g = r.lrange(1e-22, 1e-12) as f32;
                    f.iter_mut().for_each(|x| *x *= g);
                }
                2 => {
                    // one bin only
                    let k = r.us(0, bins - 1);
                    f.iter_mut().for_each(|x| *x = 0.0);
                    f[k] = r.lrange(1e-3, 1e3) as f32;
                }
                _ => {}
            }
        }
    }
    (v, sr, fft)
}

/// many frames, few bins
pub fn spec_small(r: &mut Rng, max_frames: usize) -> (Vec<Vec<f32>>, u32, usize) {
    let (sr, fft) = (rate(r), *r.pick(&[64usize, 128, 256]));
    let n = r.us(max_frames / 4, max_frames);
    (gen::spectrogram(r, n, fft / 2 + 1), sr, fft)
}

pub fn semitone(f: f64) -> f64 {
    12.0 * (f / 440.0).log2() + 57.0
}
fn freq(bin: usize, sr: u32, fft: usize) -> f64 {
    bin as f64 * sr as f64 / fft as f64
}
/// is the comparison of the bin frequency with the edge decided by rounding?
fn edge_fuzzy(f: f64, edge: f64, sr: u32, fft: usize) -> bool {
    let exact = fft.is_power_of_two(); // then every way to compute bin frequencies gives the same
    (f - edge).abs() <= 1e-5 * edge && !(exact && f == edge)
}
/// zero the bins whose pitch class is decided by rounding
fn sanitise(v: &mut [Vec<f32>], sr: u32, fft: usize, tuning: f64, edges: &[f64]) {
    for f in v.iter_mut() {
        for (b, x) in f.iter_mut().enumerate() {
            let hz = freq(b, sr, fft);
            if hz <= 0.0 {
                continue;
            }
            let st = semitone(hz) - tuning;
            if ((st - st.floor()) - 0.5).abs() < 1e-3 || edges.iter().any(|e| edge_fuzzy(hz, *e, sr, fft)) {
                *x = 0.0;
            }
        }
    }
}

/// add one component to a pitch-class profile; `err` collects the sensitivity to pitch rounding
fn soft_add(pc: &mut [f64; 12], err: &mut [f64; 12], st: f64, contrib: f64, sigma: f64) {
    let p = st.rem_euclid(12.0);
    let prim = (p.round() as i64).rem_euclid(12);
    for o in -1..=1i64 {
        let t = (prim + o).rem_euclid(12);
        let d = (p - t as f64).abs();
        let d = d.min(12.0 - d);
        let w = |d: f64| (-d * d / (2.0 * sigma * sigma)).exp();
        pc[t as usize] += contrib * w(d);
        err[t as usize] += contrib * ((w((d - 3e-5).max(0.0)) - w(d + 3e-5)).abs());
    }
}
fn unit(pc: &[f64; 12]) -> (f64, [f64; 12]) {
    let n = pc.iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut o = *pc;
    if n > 1e-10 {
        o.iter_mut().for_each(|x| *x /= n);
    }
    (n, o)
}

fn chroma_ref(f: &[f32], sr: u32, fft: usize, soft: bool, sigma: f64, tuning: f64) -> ([f64; 12], [f64; 12]) {
    let mut pc = [0.0; 12];
    let mut err = [0.0; 12];
    let ny = sr as f64 / 2.0;
    for (b, &m) in f.iter().enumerate() {
        let hz = freq(b, sr, fft);
        if hz < 100.0 || hz > 5000.0f64.min(ny) || hz >= ny {
            continue;
        }
        let st = semitone(hz) - tuning;
        let m = (m.max(0.0) as f64).powf(0.6);
        if soft {
            soft_add(&mut pc, &mut err, st, m, sigma);
        } else {
            pc[(st.round() as i64).rem_euclid(12) as usize] += m;
        }
    }
    (pc, err)
}

/// compare one profile with its reference sums
fn cmp_pc(name: &str, got: &[f32], pc: &[f64; 12], err: &[f64; 12], d: &str) -> R {
    ensure!(got.len() == 12, "{name}: {} values: {d}", got.len());
    ensure!(got.iter().all(|x| x.is_finite() && *x >= 0.0), "{name}: {got:?} has a negative or non-finite value: {d}");
    let (n, want) = unit(pc);
    if n > 1.01e-10 {
        let gn = got.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
        ensure!((gn - 1.0).abs() < 1e-4, "{name}: length {gn}, expected unit length: {d}");
        let e = err.iter().sum::<f64>() / n;
        for k in 0..12 {
            ensure!((got[k] as f64 - want[k]).abs() <= 1e-4 + 2.0 * e, "{name}[{k}] = {}, expected {} ({got:?} vs {want:?}): {d}", got[k], want[k]);
        }
    } else if n < 0.99e-10 {
        ensure!(got.iter().all(|x| *x <= 1.1e-10), "{name}: {got:?} for an empty frame: {d}");
    }
    Ok(())
}
fn energy_ok(name: &str, got: f32, f: &[f32], d: &str) -> R {
    let e: f64 = f.iter().map(|x| (*x as f64).powi(2)).sum();
    ensure!(close(got as f64, e, 1e-4, 1e-37), "{name}: energy {got}, expected {e}: {d}");
    Ok(())
}
fn flat(v: &[Vec<f32>]) -> Vec<f32> {
    v.iter().flatten().copied().collect()
}
fn same(name: &str, a: &[Vec<f32>], b: &[Vec<f32>], tol: f32, d: &str) -> R {
    ensure!(a.len() == b.len(), "{name}: {} against {} frames: {d}", a.len(), b.len());
    for (t, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x.len() == y.len(), "{name}: frame {t} has {} against {} values: {d}", x.len(), y.len());
        for (k, (p, q)) in x.iter().zip(y).enumerate() {
            ensure!((p - q).abs() <= tol, "{name}: frame {t} class {k}: {p} against {q}: {d}");
        }
    }
    Ok(())
}
fn inval<T>(r: Result<T, AnalysisError>, what: &str) -> R {
    ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "{what} not rejected as invalid input");
    Ok(())
}

fn c01(c: &mut Case) -> R {
    let soft = c.rng.p(0.6);
    let sigma = if c.rng.p(0.4) { 0.5 } else { c.rng.range(0.05, 2.0) } as f32;
    if c.rng.p(0.15) {
        return c01_audio(c, soft, sigma);
    }
    let (mut v, sr, fft) = if c.idx % 1000 == 7 { spec_small(&mut c.rng, 3_000) } else { spec_for(&mut c.rng, 16) };
    let tuning = if c.rng.p(0.4) { 0.0 } else if c.rng.p(0.2) { c.rng.us(0, 24) as f64 - 12.0 } else { c.rng.range(-0.6, 0.6) } as f32;
    let d = format!("{} frames, rate {sr}, size {fft}, soft {soft} sigma {sigma} tuning {tuning}", v.len());
    // malformed input
    if c.rng.p(0.03) {
        let e: Vec<Vec<f32>> = vec![];
        let z = vec![vec![]; 2];
        ensure!(extract_chroma_from_spectrogram_with_options(&e, sr, fft, soft, sigma).map(|x| x.is_empty()).unwrap_or(false), "empty spectrogram: {d}");
        inval(extract_chroma_from_spectrogram_with_options(&z, sr, fft, soft, sigma), "frames without bins")?;
        inval(extract_chroma_from_spectrogram_with_options_and_energy_tuned(&z, sr, fft, soft, sigma, tuning), "frames without bins")?;
        let mut g = v.clone();
        g.push(vec![0.1; fft / 2 + 2]);
        inval(extract_chroma_from_spectrogram_with_options(&g, sr, fft, soft, sigma), "ragged spectrogram")?;
        inval(extract_chroma_from_spectrogram_with_options_and_energy(&g, sr, fft, soft, sigma), "ragged spectrogram")?;
        inval(extract_beat_synchronous_chroma(&v, sr, fft, 64, &[], soft, sigma, tuning), "missing beats")?;
        c.ev("malformed", 1);
        return Ok(());
    }
    let edges = [100.0, 5000.0, sr as f64 / 2.0];
    // plain routes: no tuning
    let mut v0 = v.clone();
    sanitise(&mut v0, sr, fft, 0.0, &edges);
    let a = extract_chroma_from_spectrogram_with_options(&v0, sr, fft, soft, sigma).map_err(|e| format!("{e}: {d}"))?;
    let (b, be) = extract_chroma_from_spectrogram_with_options_and_energy(&v0, sr, fft, soft, sigma).map_err(|e| format!("{e}: {d}"))?;
    let (z, ze) = extract_chroma_from_spectrogram_with_options_and_energy_tuned(&v0, sr, fft, soft, sigma, 0.0).map_err(|e| format!("{e}: {d}"))?;
    ensure!(a.len() == v.len() && be.len() == v.len() && ze.len() == v.len(), "one vector per frame: {d}");
    same("plain/energy route", &a, &b, 1e-6, &d)?;
    same("plain/tuned route at zero", &a, &z, 1e-6, &d)?;
    let mut live = 0;
    for (t, f) in v0.iter().enumerate() {
        let (pc, err) = chroma_ref(f, sr, fft, soft, sigma as f64, 0.0);
        cmp_pc(&format!("frame {t}"), &a[t], &pc, &err, &d)?;
        energy_ok("chroma route", be[t], f, &d)?;
        live += (unit(&pc).0 > 1e-10) as u64;
    }
    // scaling
    let big = v0.iter().flatten().fold(0.0f32, |m, x| m.max(*x));
    if c.rng.p(0.5) && big < 1e8 {
        let g = *c.rng.pick(&[2.0f32, 0.5, 1024.0, 3.0]);
        let w: Vec<Vec<f32>> = v0.iter().map(|f| f.iter().map(|x| x * g).collect()).collect();
        let s = extract_chroma_from_spectrogram_with_options(&w, sr, fft, soft, sigma).map_err(|e| format!("{e}: {d}"))?;
        for (t, (x, y)) in a.iter().zip(&s).enumerate() {
            let n: f32 = x.iter().map(|q| q * q).sum();
            if n > 0.9 && g > 1.0 {
                for k in 0..12 {
                    ensure!((x[k] - y[k]).abs() < 1e-4, "scaling by {g} changed frame {t} class {k} from {} to {}: {d}", x[k], y[k]);
                }
            }
        }
        c.ev("scaled", 1);
    }
    // tuned
    sanitise(&mut v, sr, fft, tuning as f64, &edges);
    let (u, ue) = extract_chroma_from_spectrogram_with_options_and_energy_tuned(&v, sr, fft, soft, sigma, tuning).map_err(|e| format!("{e}: {d}"))?;
    ensure!(u.len() == v.len() && ue.len() == v.len(), "one vector per frame: {d}");
    for (t, f) in v.iter().enumerate() {
        let (pc, err) = chroma_ref(f, sr, fft, soft, sigma as f64, tuning as f64);
        cmp_pc(&format!("tuned frame {t}"), &u[t], &pc, &err, &d)?;
        energy_ok("tuned route", ue[t], f, &d)?;
    }
    // beat-synchronous: hop and rate are free here as far as frame times go
    if c.rng.p(0.5) {
        // frame times that are exact in binary let beats fall exactly on frames
        let exact = c.rng.p(0.4);
        let hop = if exact { sr as usize >> sr.trailing_zeros().min(c.rng.us(0, 8) as u32) } else { *c.rng.pick(&[64usize, 128, 512, 441]) };
        let fd = hop as f64 / sr as f64;
        let total = v.len() as f64 * fd;
        let mut beats: Vec<f32> = vec![];
        let mut t = c.rng.range(-0.5, 0.3) * total;
        let step = c.rng.range(0.02, 0.6) * total;
        while t < total * 1.3 && beats.len() < 60 {
            if exact && c.rng.p(0.8) {
                let q = ((t / fd).round() * fd) as f32;
                if beats.last().is_none_or(|b| *b < q) {
                    beats.push(q);
                    c.ev("beats_on_frames", 1);
                }
                t += step * c.rng.range(0.3, 1.7);
                continue;
            }
            // stay off the frame grid (rounding) unless exactly zero
            let fr = (t / fd).fract().abs();
            if (t == 0.0 || (fr > 1e-3 && fr < 1.0 - 1e-3)) && beats.last().is_none_or(|b| *b < t as f32) {
                beats.push(t as f32);
            }
            t += step * c.rng.range(0.3, 1.7);
        }
        if c.rng.p(0.1) {
            beats.truncate(1);
        }
        if beats.is_empty() {
            beats.push(0.0);
        }
        let (bc, ben) = extract_beat_synchronous_chroma(&v, sr, fft, hop, &beats, soft, sigma, tuning).map_err(|e| format!("{e}: {d}"))?;
        ensure!(bc.len() == beats.len() - 1 && ben.len() == bc.len(), "{} vectors for {} beats: {d}", bc.len(), beats.len());
        for i in 0..bc.len() {
            let inside: Vec<usize> = (0..v.len()).filter(|k| { let ft = *k as f64 * fd; ft >= beats[i] as f64 && ft < beats[i + 1] as f64 }).collect();
            let mut m = [0.0f64; 12];
            let mut e = 0.0f64;
            for &k in &inside {
                for j in 0..12 {
                    m[j] += u[k][j] as f64 / inside.len() as f64;
                }
                e += v[k].iter().map(|x| (*x as f64).powi(2)).sum::<f64>();
            }
            let ctx = format!("beat {i} of {beats:?} hop {hop}, {d}");
            cmp_pc("beat chroma", &bc[i], &m, &[0.0; 12], &ctx)?;
            ensure!(close(ben[i] as f64, e, 1e-4, 1e-37), "beat energy {}, expected {e}: {ctx}", ben[i]);
            c.ev(if inside.is_empty() { "empty_beats" } else { "beats" }, 1);
        }
    }
    // log-frequency route
    if c.rng.p(0.4) {
        let off = c.rng.us(0, 60) as i32 - 20;
        let lc = extract_chroma_from_log_frequency_spectrogram(&v, off).map_err(|e| format!("{e}: {d}"))?;
        ensure!(lc.len() == v.len(), "log-frequency chroma has {} frames: {d}", lc.len());
        for (t, f) in v.iter().enumerate() {
            let mut pc = [0.0f64; 12];
            for (b, x) in f.iter().enumerate() {
                pc[(off as i64 + b as i64).rem_euclid(12) as usize] += x.max(0.0) as f64;
            }
            cmp_pc(&format!("log-frequency frame {t}"), &lc[t], &pc, &[0.0; 12], &d)?;
        }
        c.ev("log_frequency", 1);
    }
    c.ev("frames", v.len() as u64);
    c.ev(if soft { "soft" } else { "hard" }, 1);
    if live > 0 {
        c.seen_h(hash_f32(&flat(&u)));
        c.sample(json!({"case": d, "first": u[0]}));
    }
    Ok(())
}

fn c01_audio(c: &mut Case, soft: bool, sigma: f32) -> R {
    let sr = *c.rng.pick(&[16000u32, 22050, 44100, 48000]);
    let frame = *c.rng.pick(&[512usize, 1024, 2048, 1000, 4096]);
    let hop = *c.rng.pick(&[128usize, 256, 512, 700]);
    if c.rng.p(0.2) {
        inval(extract_chroma_with_options(&[], sr, frame, hop, soft, sigma), "empty audio")?;
        inval(extract_chroma(&[], sr, frame, hop), "empty audio")?;
        inval(extract_chroma_with_options(&[0.1; 9000], sr, 0, hop, soft, sigma), "zero frame size")?;
        inval(extract_chroma_with_options(&[0.1; 9000], sr, frame, 0, soft, sigma), "zero hop")?;
        inval(extract_chroma_with_options(&[0.1; 9000], 0, frame, hop, soft, sigma), "zero sample rate")?;
        c.ev("malformed", 1);
        return Ok(());
    }
    if c.rng.p(0.5) {
        // pure tone: strongest class is that of the tone
        let sr = *c.rng.pick(&[44100u32, 48000]);
        let m = c.rng.us(67, 105) as f64 + c.rng.range(-0.25, 0.25);
        let n = 8192 * 2;
        let mut s = vec![0.0f32; n];
        let g = c.rng.lrange(1e-3, 1.0);
        gen::add_tone(&mut s, sr, 0, n, gen::midi_hz(m), g, 1, 1.0);
        let v = extract_chroma_with_options(&s, sr, 8192, 2048, soft, sigma.clamp(0.2, 0.8)).map_err(|e| e.to_string())?;
        ensure!(v.len() == (n - 8192) / 2048 + 1, "{} frames from {n} samples", v.len());
        let want = (m.round() as i64).rem_euclid(12) as usize;
        for (t, f) in v.iter().enumerate() {
            let mx = (0..12).max_by(|a, b| f[*a].total_cmp(&f[*b])).unwrap();
            ensure!(mx == want, "tone at midi {m}: frame {t} peaks at class {mx}, expected {want}: {f:?} (soft {soft} sigma {sigma} rate {sr})");
        }
        c.ev("pure_tones", 1);
        c.seen_h(hash_f32(&flat(&v)));
        return Ok(());
    }
    let dur = c.rng.range(0.01, 0.4);
    let s = gen::audio(&mut c.rng, sr, dur);
    let d = format!("{} samples of {}, rate {sr}, frame {frame} hop {hop} soft {soft} sigma {sigma}", s.s.len(), s.desc);
    let a = extract_chroma_with_options(&s.s, sr, frame, hop, soft, sigma).map_err(|e| format!("{e}: {d}"))?;
    let n = if s.s.len() < frame { 0 } else { (s.s.len() - frame) / hop + 1 };
    ensure!(a.len() == n, "{} vectors, expected {n}: {d}", a.len());
    if n == 0 {
        c.ev("too_short", 1);
        return Ok(());
    }
    let sp = compute_stft(&s.s, frame, hop).map_err(|e| format!("{e}: {d}"))?;
    let b = extract_chroma_from_spectrogram_with_options(&sp, sr, frame, soft, sigma).map_err(|e| format!("{e}: {d}"))?;
    same("audio/spectrogram route", &a, &b, 1e-4, &d)?;
    let x = extract_chroma(&s.s, sr, frame, hop).map_err(|e| format!("{e}: {d}"))?;
    let y = extract_chroma_with_options(&s.s, sr, frame, hop, true, 0.5).map_err(|e| format!("{e}: {d}"))?;
    same("default options", &x, &y, 1e-6, &d)?;
    c.ev("audio_frames", n as u64);
    c.seen_h(hash_f32(&flat(&a)));
    Ok(())
}

struct Hp {
    sr: u32,
    fft: usize,
    sigma: f32,
    tuning: f32,
    peaks: usize,
    harm: usize,
    decay: f32,
    power: f32,
    whiten: bool,
    wbins: usize,
}
/// None: the selection of peaks is decided within rounding error
fn hpcp_ref(f: &[f32], h: &Hp, peaks: usize, fmin: f64, fmax: f64) -> Option<([f64; 12], [f64; 12], usize)> {
    let mut pc = [0.0; 12];
    let mut err = [0.0; 12];
    let fmin = fmin.max(20.0);
    let fmax = fmax.min(h.sr as f64 / 2.0);
    if fmax <= fmin {
        return Some((pc, err, 0));
    }
    let white = h.whiten && h.wbins >= 3;
    let total: f64 = f.iter().map(|x| x.max(0.0) as f64).sum();
    let n = f.len();
    let mut sc: Vec<(f64, f64)> = f.iter().map(|x| (*x as f64, 0.0)).collect();
    if white {
        let half = (h.wbins | 1) / 2;
        let exact = f.iter().all(|x| (x * 16.0).fract() == 0.0) && total < 1e5;
        for i in 0..n {
            let l = i.saturating_sub(half);
            let r = (i + half).min(n - 1);
            let m = f[l..=r].iter().map(|x| x.max(0.0) as f64).sum::<f64>() / (r + 1 - l) as f64;
            let de = (if exact { 2e-7 } else { 2e-7 + 6e-8 * (r + 1 - l) as f64 }) * m + 1e-14 * total;
            let x = f[i].max(0.0) as f64;
            let v = x / (m + 1e-12);
            let e = if x == 0.0 { 0.0 } else { v * (de / (m + 1e-12) + 4e-7) };
            if v - e > 20.0 {
                sc[i] = (20.0, 0.0);
            } else {
                sc[i] = (v.min(20.0), e);
            }
        }
    }
    let fuzzy = |a: (f64, f64), b: (f64, f64)| (a.1 > 0.0 || b.1 > 0.0) && (a.0 - b.0).abs() <= a.1 + b.1 + 1e-9;
    let mut pk: Vec<(usize, (f64, f64))> = vec![];
    for b in 1..n.saturating_sub(1) {
        let hz = freq(b, h.sr, h.fft);
        if edge_fuzzy(hz, fmin, h.sr, h.fft) || edge_fuzzy(hz, fmax, h.sr, h.fft) {
            return None;
        }
        if hz < fmin || hz > fmax {
            continue;
        }
        if fuzzy(sc[b], sc[b - 1]) || fuzzy(sc[b], sc[b + 1]) {
            return None;
        }
        if sc[b].0 > sc[b - 1].0 && sc[b].0 >= sc[b + 1].0 {
            pk.push((b, sc[b]));
        }
    }
    if pk.is_empty() {
        return Some((pc, err, 0));
    }
    let k = peaks.clamp(1, pk.len());
    pk.sort_by(|a, b| b.1 .0.total_cmp(&a.1 .0));
    if k < pk.len() && (pk[k - 1].1 .0 == pk[k].1 .0 || fuzzy(pk[k - 1].1, pk[k].1)) {
        return None;
    }
    // near ties may interleave with rounding, also across more than one place
    pk.truncate(k);
    let decay = (h.decay as f64).clamp(0.0, 1.0);
    let p = (h.power as f64).clamp(0.05, 1.0);
    let p = if h.power <= 0.05 { 0.05f32 as f64 } else { p };
    for (b, _) in pk {
        let f0 = freq(b, h.sr, h.fft);
        let w0 = (f[b].max(0.0) as f64).powf(p);
        for hh in 1..=h.harm.max(1) {
            let fh = f0 * hh as f64;
            if (fh - fmax).abs() < 1e-5 * fmax {
                return None;
            }
            if fh > fmax {
                break;
            }
            if fh < fmin {
                continue;
            }
            let st = semitone(fh) - h.tuning as f64;
            if ((st - st.floor()) - 0.5).abs() < 5e-5 {
                return None;
            }
            let hw = if hh == 1 { 1.0 } else { decay.powi(hh as i32 - 1) } / hh as f64;
            soft_add(&mut pc, &mut err, st, w0 * hw, h.sigma as f64);
        }
    }
    Some((pc, err, k))
}

fn c02(c: &mut Case) -> R {
    let (mut v, sr, fft) = if c.idx % 2000 == 7 { spec_small(&mut c.rng, 3_000) } else { spec_for(&mut c.rng, 8) };
    let r = &mut c.rng;
    if r.p(0.15) {
        // loud bass under quiet treble
        let (q, g) = (r.us(0, fft / 2), r.lrange(1e-6, 1.0) as f32);
        v.iter_mut().for_each(|f| f[q..].iter_mut().for_each(|x| *x *= g));
    }
    let h = Hp {
        sr,
        fft,
        sigma: if r.p(0.4) { 0.5 } else { r.range(0.05, 1.5) as f32 },
        tuning: if r.p(0.5) { 0.0 } else { r.range(-0.5, 0.5) as f32 },
        peaks: if r.p(0.1) { 0 } else { r.us(1, 60) },
        harm: r.us(0, 9),
        decay: if r.p(0.15) { *r.pick(&[0.0, 1.0, -0.5, 1.7]) } else { r.range(0.1, 1.0) as f32 },
        power: if r.p(0.15) { *r.pick(&[0.0, 1.0, 2.0]) } else { r.range(0.05, 1.0) as f32 },
        whiten: r.p(0.5),
        wbins: r.us(0, 61),
    };
    let (bmin, bmax) = (r.range(10.0, 200.0) as f32, if r.p(0.1) { r.range(5.0, 60.0) } else { r.range(100.0, 900.0) } as f32);
    let bw = if r.p(0.2) { *r.pick(&[0.0, 1.0, -0.3, 1.4]) } else { r.f() as f32 };
    let d = format!(
        "{} frames, rate {sr}, size {fft}, sigma {} tuning {} peaks {} harmonics {} decay {} power {} whitening {}/{} bass {bmin}..{bmax} weight {bw}",
        v.len(), h.sigma, h.tuning, h.peaks, h.harm, h.decay, h.power, h.whiten, h.wbins
    );
    let full = |v: &[Vec<f32>]| {
        extract_hpcp_from_spectrogram_with_options_and_energy_tuned(v, sr, fft, h.sigma, h.tuning, h.peaks, h.harm, h.decay, h.power, h.whiten, h.wbins)
    };
    let blend = |v: &[Vec<f32>]| {
        extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(
            v, sr, fft, h.sigma, h.tuning, h.peaks, h.harm, h.decay, h.power, h.whiten, h.wbins, bmin, bmax, bw,
        )
    };
    if c.rng.p(0.02) {
        ensure!(full(&[]).map(|x| x.0.is_empty() && x.1.is_empty()).unwrap_or(false), "empty spectrogram");
        ensure!(blend(&[]).map(|x| x.0.is_empty() && x.1.is_empty()).unwrap_or(false), "empty spectrogram");
        let z = vec![vec![]; 3];
        inval(full(&z), "frames without bins")?;
        inval(blend(&z), "frames without bins")?;
        let mut g = v.clone();
        g.push(vec![0.5; fft / 2 + 3]);
        inval(full(&g), "ragged spectrogram")?;
        inval(blend(&g), "ragged spectrogram")?;
        c.ev("malformed", 1);
        return Ok(());
    }
    let (a, ae) = full(&v).map_err(|e| format!("{e}: {d}"))?;
    let (b, be) = blend(&v).map_err(|e| format!("{e}: {d}"))?;
    ensure!(a.len() == v.len() && ae.len() == v.len() && b.len() == v.len() && be.len() == v.len(), "one profile per frame: {d}");
    let mut live = false;
    for (t, f) in v.iter().enumerate() {
        energy_ok("harmonic route", ae[t], f, &d)?;
        energy_ok("blend route", be[t], f, &d)?;
        for (nm, x) in [("profile", &a[t]), ("blend", &b[t])] {
            ensure!(x.len() == 12 && x.iter().all(|y| y.is_finite() && *y >= 0.0 && *y <= 1.0001), "{nm} {x:?} out of range: {d}");
            let n = x.iter().map(|y| (*y as f64).powi(2)).sum::<f64>().sqrt();
            ensure!((n - 1.0).abs() < 1e-4 || n < 1.1e-10, "{nm} of frame {t} has length {n}: {d}");
        }
        let rf = hpcp_ref(f, &h, h.peaks, 100.0, 5000.0);
        let Some((pc, err, k)) = rf else {
            c.ev("ambiguous_frames", 1);
            continue;
        };
        cmp_pc(&format!("frame {t}"), &a[t], &pc, &err, &d)?;
        c.ev("frames", 1);
        c.ev("peaks", k as u64);
        live |= k > 0;
        let Some((bp, berr, bk)) = hpcp_ref(f, &h, h.peaks.clamp(1, 12), bmin as f64, bmax as f64) else {
            c.ev("ambiguous_frames", 1);
            continue;
        };
        let w = (bw as f64).clamp(0.0, 1.0);
        let (n1, u1) = unit(&pc);
        let (n2, u2) = unit(&bp);
        if [n1, n2].iter().any(|n| *n > 0.0 && *n < 1.1e-10) {
            continue;
        }
        let mut m = [0.0; 12];
        let mut e = [0.0; 12];
        for i in 0..12 {
            m[i] = (1.0 - w) * u1[i] + w * u2[i];
            e[i] = (1.0 - w) * err[i] / n1.max(1e-10) + w * berr[i] / n2.max(1e-10);
        }
        cmp_pc(&format!("blend of frame {t}"), &b[t], &m, &e, &d)?;
        c.ev("bass_peaks", bk as u64);
    }
    if live {
        c.seen_h(hash_f32(&flat(&a)) ^ hash_f32(&flat(&b)).rotate_left(7));
        c.sample(json!({"case": d, "first": a[0]}));
    }
    Ok(())
}

fn c03(c: &mut Case) -> R {
    // now and then a whole track, loud at first and quiet later
    let long = c.idx % 400 == 7;
    let (mut v, sr, fft) = if long { spec_small(&mut c.rng, 6_000) } else { spec_for(&mut c.rng, 40) };
    v.iter_mut().flatten().for_each(|x| *x = x.min(1e5));
    if long || c.rng.p(0.1) {
        let (q, g) = (c.rng.us(0, v.len()), c.rng.lrange(1e-6, 1.0) as f32);
        v[q..].iter_mut().flatten().for_each(|x| *x *= g);
    }
    let n = v.len();
    let bins = fft / 2 + 1;
    let margin = if c.rng.p(0.1) { c.rng.us(0, 80) } else { c.rng.us(0, 12) };
    let power = if c.rng.p(0.2) { *c.rng.pick(&[0.0f32, 1.0, 2.0, -1.0]) } else { c.rng.range(0.5, 6.0) as f32 };
    let d = format!("{n} frames x {bins} bins, rate {sr}, margin {margin} power {power}");
    if c.rng.p(0.03) {
        let mut g = v.clone();
        g.push(vec![0.5; bins + 1]);
        inval(smooth_spectrogram_time(&g, margin.max(1)), "ragged spectrogram")?;
        inval(harmonic_spectrogram_time_mask(&g, margin, power), "ragged spectrogram")?;
        inval(harmonic_spectrogram_hpss_median_mask(&g, sr, fft, 100.0, 5000.0, 1, 2, 2, power), "ragged spectrogram")?;
        inval(convert_linear_to_log_frequency_spectrogram(&g, sr, fft, 100.0, 1000.0), "ragged spectrogram")?;
        let z = vec![vec![]; 2];
        inval(smooth_spectrogram_time(&z, margin.max(1)), "frames without bins")?;
        inval(harmonic_spectrogram_time_mask(&z, margin, power), "frames without bins")?;
        inval(harmonic_spectrogram_hpss_median_mask(&z, sr, fft, 100.0, 5000.0, 1, 2, 2, power), "frames without bins")?;
        for (r0, f0) in [(0, fft), (sr, 0)] {
            ensure!(harmonic_spectrogram_hpss_median_mask(&v, r0, f0, 100.0, 5000.0, 1, 2, 2, power).map(|o| o == v).unwrap_or(false), "no band to mask (rate {r0} size {f0}): must leave the spectrogram unchanged");
        }
        inval(convert_linear_to_log_frequency_spectrogram(&v, 0, fft, 100.0, 1000.0), "zero rate")?;
        inval(convert_linear_to_log_frequency_spectrogram(&v, sr, 0, 100.0, 1000.0), "zero transform size")?;
        inval(convert_linear_to_log_frequency_spectrogram(&v, sr, fft, 2000.0, 1000.0), "empty band")?;
        let e: Vec<Vec<f32>> = vec![];
        ensure!(smooth_spectrogram_time(&e, 3).map(|x| x.is_empty()).unwrap_or(false), "empty spectrogram");
        ensure!(harmonic_spectrogram_time_mask(&e, 3, 2.0).map(|x| x.is_empty()).unwrap_or(false), "empty spectrogram");
        ensure!(harmonic_spectrogram_hpss_median_mask(&e, sr, fft, 100.0, 5000.0, 1, 2, 2, power).map(|x| x.is_empty()).unwrap_or(false), "empty spectrogram");
        ensure!(convert_linear_to_log_frequency_spectrogram(&e, sr, fft, 100.0, 1000.0).map(|x| x.is_empty()).unwrap_or(false), "empty spectrogram");
        c.ev("malformed", 1);
        return Ok(());
    }
    let shape = |o: &[Vec<f32>], nm: &str| -> R {
        ensure!(o.len() == n && o.iter().all(|f| f.len() == bins), "{nm}: shape changed: {d}");
        ensure!(o.iter().flatten().all(|x| x.is_finite()), "{nm}: non-finite value: {d}");
        Ok(())
    };
    // moving average
    let sm = smooth_spectrogram_time(&v, margin).map_err(|e| format!("{e}: {d}"))?;
    shape(&sm, "smoothing")?;
    let mk = harmonic_spectrogram_time_mask(&v, margin, power).map_err(|e| format!("{e}: {d}"))?;
    shape(&mk, "time mask")?;
    let p = (power as f64).max(1.0);
    for b in 0..bins {
        let total: f64 = v.iter().map(|f| f[b] as f64).sum();

        for t in 0..n {
            let (s, e) = (t.saturating_sub(margin), (t + margin + 1).min(n));
            let h = v[s..e].iter().map(|f| f[b] as f64).sum::<f64>() / (e - s) as f64;
            // rounding of the frames averaged, not of what came before them
            let de = (1e-6 + 6e-8 * (e - s) as f64) * h + if margin == 0 { 0.0 } else { 1e-13 * total };
            ensure!((sm[t][b] as f64 - h).abs() <= de + 1e-37, "smoothed[{t}][{b}] = {}, mean of {} frames is {h}: {d}", sm[t][b], e - s);
            let x = v[t][b] as f64;
            let m = |h: f64| {
                let h = h.max(0.0);
                let r = (x - h).max(0.0);
                let (hp, rp) = (h.powf(p), r.powf(p));
                x * hp / (hp + rp + 1e-12)
            };
            let g = mk[t][b] as f64;
            ensure!(g >= 0.0 && g <= x * (1.0 + 1e-6), "time mask[{t}][{b}] = {g} for input {x}: {d}");
            let (lo, hi) = (m(h - de - 2e-7 * x), m(h + de + 2e-7 * x));
            // subnormal powers lose precision
            ensure!(g >= lo * (1.0 - 2e-4) - 1e-25 * x - 1e-37 && g <= hi * (1.0 + 2e-4) + 1e-25 * x + 1e-37, "time mask[{t}][{b}] = {g}, expected {} (within {lo}..{hi}) for input {x} mean {h}: {d}", m(h));
        }
    }
    c.ev("cells", (n * bins) as u64);
    // median mask
    let (fmin, fmax) = if c.rng.p(0.5) { (100.0f32, 5000.0f32) } else { (c.rng.range(0.0, 3000.0) as f32, c.rng.range(50.0, 20000.0) as f32) };
    let (step, tm, fm) = (c.rng.us(0, 6), c.rng.us(0, 8), c.rng.us(0, 10));
    let d2 = format!("band {fmin}..{fmax} step {step} margins {tm}/{fm}, {d}");
    let hp = harmonic_spectrogram_hpss_median_mask(&v, sr, fft, fmin, fmax, step, tm, fm, power).map_err(|e| format!("{e}: {d2}"))?;
    shape(&hp, "median mask")?;
    let lo = (fmin as f64).max(20.0);
    let hi = (fmax as f64).max(lo + 1.0).min(sr as f64 / 2.0);
    let res = sr as f64 / fft as f64;
    let (qs, qe) = (lo / res, hi / res);
    let exact = fft.is_power_of_two();
    let fuzzy = |q: f64| (q - q.round()).abs() < 1e-5 * (1.0 + q) && !(exact && q == q.round());
    for t in 0..n {
        for b in 0..bins {
            ensure!(hp[t][b] >= 0.0 && hp[t][b] <= v[t][b] * 1.000001, "median mask[{t}][{b}] = {} for input {}: {d2}", hp[t][b], v[t][b]);
        }
    }
    if !fuzzy(qs) && !fuzzy(qe) {
        let bs = (qs.floor() as usize).min(bins);
        let be = (qe.ceil() as usize).min(bins);
        if be <= bs {
            ensure!(hp == v, "empty band must leave the spectrogram unchanged: {d2}");
            c.ev("empty_band", 1);
        } else {
            let step = step.max(1);
            let ds: Vec<usize> = (0..n).step_by(step).collect();
            let med = |mut w: Vec<f32>| {
                w.sort_by(f32::total_cmp);
                w[w.len() / 2] as f64
            };
            for t in 0..n {
                for b in 0..bins {
                    if b < bs || b >= be {
                        ensure!(hp[t][b] == 0.0, "median mask[{t}][{b}] = {} outside the band: {d2}", hp[t][b]);
                    }
                }
            }
            for (k, &t0) in ds.iter().enumerate() {
                for b in bs..be {
                    let (s, e) = (k.saturating_sub(tm), (k + tm + 1).min(ds.len()));
                    let h = med(ds[s..e].iter().map(|t| v[*t][b]).collect());
                    let (s, e) = (b.saturating_sub(fm).max(bs), (b + fm + 1).min(be));
                    let q = med(v[t0][s..e].to_vec());
                    let (a, z) = (h.powf(p), q.powf(p));
                    let m = a / (a + z + 1e-12);
                    for t in t0..(t0 + step).min(n) {
                        let w = v[t][b] as f64 * m;
                        ensure!(close(hp[t][b] as f64, w, 2e-4, 1e-25 * v[t][b] as f64 + 1e-37), "median mask[{t}][{b}] = {}, expected {w} (input {} time median {h} frequency median {q}): {d2}", hp[t][b], v[t][b]);
                    }
                }
            }
            c.ev("median_cells", (n * (be - bs)) as u64);
        }
    }
    // qualitative: a steady tone survives, an isolated hit does not
    if c.rng.p(0.1) && bins > 40 {
        let n = 41;
        let bin = bins / 2;
        let mut w = vec![vec![0.0f32; bins]; n];
        w.iter_mut().for_each(|f| f[bin] = 3.0);
        w[20].iter_mut().for_each(|x| *x += 2.0);
        let nyq = sr as f32 / 2.0;
        let a = harmonic_spectrogram_time_mask(&w, 8, 2.0).map_err(|e| e.to_string())?;
        let b = harmonic_spectrogram_hpss_median_mask(&w, sr, fft, 20.0, nyq, 1, 5, 8, 2.0).map_err(|e| e.to_string())?;
        for (nm, o) in [("time", &a), ("median", &b)] {
            ensure!(o[3][bin] > 2.9, "{nm} mask lost a steady tone: {} of 3", o[3][bin]);
            ensure!(o[20][bin / 2] < 0.2, "{nm} mask kept an isolated hit: {} of 2", o[20][bin / 2]);
        }
        c.ev("tone_vs_hit", 1);
    }
    // log-frequency
    let (fmin, fmax) = if c.rng.p(0.4) { (100.0f32, 5000.0f32) } else { (c.rng.range(0.0, 1000.0) as f32, c.rng.range(30.0, 20000.0) as f32) };
    let ny = sr as f64 / 2.0;
    let lo = (fmin as f64).max(20.0);
    let hi = (fmax as f64).min(ny - 1.0);
    let lg = convert_linear_to_log_frequency_spectrogram(&v, sr, fft, fmin, fmax);
    let d3 = format!("log band {fmin}..{fmax}, {d}");
    if lo >= hi {
        ensure!(lg.is_err(), "band {lo}..{hi} accepted: {d3}");
        c.ev("log_rejected", 1);
    } else if semitone(lo).fract().abs().min(1.0 - semitone(lo).fract().abs()) > 1e-4 && semitone(hi).fract().abs().min(1.0 - semitone(hi).fract().abs()) > 1e-4 {
        let lg = lg.map_err(|e| format!("{e}: {d3}"))?;
        let (s0, s1) = (semitone(lo).floor() as i64, semitone(hi).ceil() as i64);
        let nb = (s1 - s0 + 1) as usize;
        ensure!(lg.len() == n && lg.iter().all(|f| f.len() == nb), "log-frequency shape {} x {:?}, expected {n} x {nb}: {d3}", lg.len(), lg.first().map(|f| f.len()));
        for (t, f) in v.iter().enumerate() {
            let mut w = vec![0.0f64; nb];
            let mut tot = 0.0;
            let mut fz = false;
            for (b, x) in f.iter().enumerate() {
                let hz = freq(b, sr, fft);
                if *x <= 0.0 {
                    continue;
                }
                fz |= edge_fuzzy(hz, lo, sr, fft) || edge_fuzzy(hz, hi, sr, fft);
                if hz < lo || hz >= hi || hz >= ny {
                    continue;
                }
                let q = (semitone(hz) - s0 as f64).max(0.0);
                let k = q.floor() as usize;
                let wh = q - k as f64;
                w[k.min(nb - 1)] += *x as f64 * (1.0 - wh);
                if k + 1 < nb {
                    w[k + 1] += *x as f64 * wh;
                }
                tot += *x as f64;
            }
            if fz {
                continue;
            }
            let got: f64 = lg[t].iter().map(|x| *x as f64).sum();
            ensure!(close(got, tot, 1e-4, 1e-37), "log-frequency frame {t} holds {got} of {tot}: {d3}");
            for k in 0..nb {
                ensure!(lg[t][k] >= 0.0 && (lg[t][k] as f64 - w[k]).abs() <= 1e-4 * tot + 1e-37, "log-frequency[{t}][{k}] = {}, expected {}: {d3}", lg[t][k], w[k]);
            }
            c.ev("log_frames", 1);
        }
    }
    if n > 1 && v.iter().flatten().any(|x| *x > 0.0) {
        c.seen_h(hash_f32(&flat(&mk)) ^ hash_f32(&flat(&hp)).rotate_left(5));
        c.sample(json!({"case": d2}));
    }
    Ok(())
}

fn c04(c: &mut Case) -> R {
    let detuned = c.rng.p(0.4);
    let (mut v, sr, fft) = if c.idx % 2000 == 7 { spec_small(&mut c.rng, 3_000) } else { spec_for(&mut c.rng, 12) };
    let mut truth = None;
    let (mut sr, mut fft) = (sr, fft);
    if detuned {
        // components at semitones + common offset, placed on the nearest bin
        sr = *c.rng.pick(&[22050u32, 44100, 48000]);
        fft = *c.rng.pick(&[16384usize, 32768]);
        let off = c.rng.range(-0.45, 0.45);
        let bins = fft / 2 + 1;
        let nf = c.rng.us(1, 3);
        v = vec![vec![0.0f32; bins]; nf];
        let mut err: f64 = 0.0;
        let nt = c.rng.us(1, 8);
        for f in v.iter_mut() {
            for _ in 0..nt {
                let m = c.rng.us(62, 95) as f64 + off;
                let hz = gen::midi_hz(m);
                let b = (hz * fft as f64 / sr as f64).round() as usize;
                let e = (semitone(freq(b, sr, fft)) - semitone(hz)).abs();
                err = err.max(e);
                f[b] = f[b].max(c.rng.range(0.6, 1.0) as f32);
            }
        }
        truth = Some((off, err));
    }
    let r = &mut c.rng;
    let (fmin, fmax) = match r.us(0, 2) {
        0 => (80.0f32, 2000.0f32),
        1 => (100.0, 5000.0),
        _ => (r.range(0.0, 500.0) as f32, r.range(10.0, 9000.0) as f32),
    };
    let step = if r.p(0.3) { r.us(0, 5) } else { 1 };
    let thr = if r.p(0.2) { *r.pick(&[0.0f32, 1.0, -1.0, 2.0]) } else { r.range(0.02, 0.95) as f32 };
    let d = format!("{} frames rate {sr} size {fft} band {fmin}..{fmax} step {step} threshold {thr} detuned {truth:?}", v.len());
    let f = |v: &[Vec<f32>]| estimate_tuning_offset_semitones_from_spectrogram(v, sr, fft, fmin, fmax, step, thr);
    if r.p(0.02) {
        ensure!(f(&[]).map(|x| x == 0.0).unwrap_or(false), "empty spectrogram: {d}");
        inval(f(&[vec![], vec![]]), "frames without bins")?;
        let mut g = v.clone();
        g.push(vec![0.5; fft / 2 + 4]);
        inval(f(&g), "ragged spectrogram")?;
        let z = vec![vec![0.0f32; fft / 2 + 1]; 3];
        ensure!(f(&z).map(|x| x == 0.0).unwrap_or(false), "silence has a tuning: {d}");
        c.ev("malformed", 1);
        return Ok(());
    }
    let got = f(&v).map_err(|e| format!("{e}: {d}"))?;
    ensure!(got.is_finite() && (-0.5..=0.5).contains(&got), "tuning {got}: {d}");
    let lo = (fmin as f64).max(20.0);
    let hi = (fmax as f64).max(lo + 1.0).min(sr as f64 / 2.0);
    let th = (thr as f64).clamp(0.0, 1.0);
    let (mut s, mut co, mut w, mut fz) = (0.0f64, 0.0f64, 0.0f64, false);
    for fr in v.iter().step_by(step.max(1)) {
        let inb = |b: usize| { let hz = freq(b, sr, fft); hz >= lo && hz <= hi };
        let pk = (0..fr.len()).filter(|b| inb(*b)).map(|b| fr[b] as f64).fold(0.0, f64::max);
        fz |= (0..fr.len()).any(|b| fr[b] > 0.0 && { let hz = freq(b, sr, fft); edge_fuzzy(hz, lo, sr, fft) || edge_fuzzy(hz, hi, sr, fft) });
        if (pk - 1e-12).abs() < 1e-16 {
            fz = true;
        }
        if pk <= 1e-12 {
            continue;
        }
        for b in 0..fr.len() {
            let m = fr[b] as f64;
            if !inb(b) || m <= 0.0 {
                continue;
            }
            if (m - pk * th).abs() <= 3e-7 * pk && !(th == 1.0 || th == 0.0) {
                fz = true;
            }
            if m < pk * th {
                continue;
            }
            let st = semitone(freq(b, sr, fft));
            let an = std::f64::consts::TAU * (st - st.round());
            let q = m.sqrt();
            s += q * an.sin();
            co += q * an.cos();
            w += q;
        }
    }
    let rr = if w > 0.0 { s.hypot(co) / w } else { 0.0 };
    if fz || (w - 1e-6).abs() < 1e-8 || (rr - 0.05).abs() < 1e-3 {
        c.ev("ambiguous", 1);
        return Ok(());
    }
    let want = if w <= 1e-6 || rr < 0.05 { 0.0 } else { s.atan2(co) / std::f64::consts::TAU };
    let dist = |a: f64, b: f64| { let x = (a - b).abs(); x.min(1.0 - x) };
    ensure!(dist(got as f64, want) < 1e-3, "tuning {got}, expected {want} (concentration {rr}): {d}");
    if want == 0.0 && (w <= 1e-6 || rr < 0.05) {
        ensure!(got == 0.0, "tuning {got} without structure: {d}");
        c.ev("no_structure", 1);
    }
    if let Some((off, err)) = truth {
        if w > 1e-6 {
            ensure!(dist(got as f64, off) <= err + 2e-3, "tuning {got} for components detuned by {off} (resolution {err}): {d}");
            c.ev("detuned", 1);
        }
    }
    // level
    let mx = v.iter().flatten().fold(0.0f32, |m, x| m.max(*x));
    if c.rng.p(0.3) && mx < 1e8 && w > 1e-2 {
        let g = *c.rng.pick(&[4.0f32, 16.0, 1024.0]);
        let u: Vec<Vec<f32>> = v.iter().map(|f| f.iter().map(|x| x * g).collect()).collect();
        let live = v.iter().all(|f| { let m = f.iter().fold(0.0f32, |m, x| m.max(*x)); m == 0.0 || m > 1e-8 });
        if live {
            let q = f(&u).map_err(|e| format!("{e}: {d}"))?;
            ensure!(dist(q as f64, got as f64) < 1e-3, "scaling by {g} moved the tuning from {got} to {q}: {d}");
            c.ev("scaled", 1);
        }
    }
    if w > 1e-6 {
        c.seen_h(got.to_bits() as u64 ^ (v.len() as u64) << 40);
        c.sample(json!({"case": d, "tuning": got}));
    }
    Ok(())
}

pub fn chroma_seq(r: &mut Rng, max: usize) -> Vec<Vec<f32>> {
    let n = if r.p(0.1) { r.us(0, 3) } else { r.us(1, max) };
    let kind = r.us(0, 5);
    let base: Vec<f32> = (0..12).map(|_| r.f() as f32).collect();
    let mut v: Vec<Vec<f32>> = (0..n)
        .map(|t| {
            let mut x: Vec<f32> = match kind {
                0 => (0..12).map(|_| r.f() as f32).collect(),
                1 => base.iter().map(|b| b + 0.2 * r.f() as f32).collect(),
                2 => { let k = r.us(0, 11); (0..12).map(|i| (i == k) as u8 as f32).collect() }
                3 => (0..12).map(|_| r.us(0, 3) as f32 / 4.0).collect(),
                4 => (0..12).map(|i| base[(i + t / 20) % 12]).collect(),
                _ => base.clone(),
            };
            if r.p(0.05) {
                x = vec![0.0; 12];
            }
            x
        })
        .collect();
    if r.p(0.6) {
        for f in v.iter_mut() {
            let n = f.iter().map(|x| x * x).sum::<f32>().sqrt();
            if n > 0.0 {
                f.iter_mut().for_each(|x| *x /= n);
            }
        }
    }
    v
}

fn c05(c: &mut Case) -> R {
    let long = c.idx % 600 == 7;
    let v = chroma_seq(&mut c.rng, if long { 5_000 } else { 60 });
    let n = v.len();
    let w = if long { c.rng.us(0, 300) } else if c.rng.p(0.1) { c.rng.us(0, 90) } else { c.rng.us(0, 12) };
    let d = format!("{n} frames window {w}");
    let m = smooth_chroma(&v, w);
    let a = smooth_chroma_average(&v, w);
    ensure!(m.len() == n && a.len() == n && m.iter().chain(&a).all(|f| f.len() == 12), "shape changed: {d}");
    for t in 0..n {
        for k in 0..12 {
            if w <= 1 {
                ensure!(m[t][k] == v[t][k] && a[t][k] == v[t][k], "window {w} changed frame {t}: {d}");
                continue;
            }
            let h = if w % 2 == 0 { (w + 1) / 2 } else { w / 2 };
            let (s, e) = (t.saturating_sub(h), (t + h + 1).min(n));
            let mut x: Vec<f32> = v[s..e].iter().map(|f| f[k]).collect();
            x.sort_by(f32::total_cmp);
            ensure!(m[t][k] == x[x.len() / 2], "median of frame {t} class {k}: {}, expected {}: {d}", m[t][k], x[x.len() / 2]);
            // window of w frames starting w/2 before the frame
            let s = t.saturating_sub(w / 2);
            let e = (t + w - w / 2).min(n);
            let q = v[s..e].iter().map(|f| f[k] as f64).sum::<f64>() / (e - s) as f64;
            ensure!(close(a[t][k] as f64, q, 1e-5, 1e-6), "mean of frame {t} class {k}: {}, expected {q}: {d}", a[t][k]);
        }
    }
    // rotation
    let rot = c.rng.us(1, 11);
    let rv: Vec<Vec<f32>> = v.iter().map(|f| (0..12).map(|k| f[(k + rot) % 12]).collect()).collect();
    let (rm, ra) = (smooth_chroma(&rv, w), smooth_chroma_average(&rv, w));
    for t in 0..n {
        for k in 0..12 {
            ensure!(rm[t][k] == m[t][(k + rot) % 12] && (ra[t][k] - a[t][(k + rot) % 12]).abs() < 1e-6, "rotating by {rot} changed frame {t}: {d}");
        }
    }
    // sharpening
    let p = match c.rng.us(0, 3) { 0 => 2.0, 1 => 1.0, 2 => c.rng.range(0.3, 1.0), _ => c.rng.range(1.0, 4.0) } as f32;
    for (t, f) in v.iter().enumerate().take(6) {
        let s = sharpen_chroma(f, p);
        let l = l2_normalize_chroma(f);
        for (nm, got, pw) in [("sharpened", &s, p as f64), ("normalised", &l, 1.0)] {
            ensure!(got.len() == 12 && got.iter().all(|x| x.is_finite() && *x >= 0.0), "{nm} {got:?}: power {p} {d}");
            let q: Vec<f64> = f.iter().map(|x| (*x as f64).powf(pw)).collect();
            let n2 = q.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n2 > 1.01e-10 {
                for k in 0..12 {
                    ensure!(close(got[k] as f64, q[k] / n2, 1e-4, 1e-6), "{nm} frame {t} class {k}: {}, expected {}: power {p} {d}", got[k], q[k] / n2);
                }
            } else if n2 < 0.99e-10 {
                ensure!(got.iter().all(|x| (*x as f64 - 12f64.sqrt().recip()).abs() < 1e-5), "{nm} {got:?} of an empty vector: {d}");
                c.ev("uniform", 1);
            }
            let gn = got.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
            ensure!((gn - 1.0).abs() < 1e-4, "{nm} vector has length {gn}: power {p} {d}");
            for i in 0..12 {
                for j in 0..12 {
                    ensure!(!(f[i] > f[j]) || got[i] >= got[j], "{nm} vector reorders classes {i} and {j}: power {p} {f:?} -> {got:?}");
                }
            }
        }
        let rs = sharpen_chroma(&rv[t], p);
        ensure!((0..12).all(|k| (rs[k] - s[(k + rot) % 12]).abs() < 1e-5), "sharpening does not commute with rotation: {f:?} power {p}");
        c.ev("sharpened", 1);
    }
    ensure!(sharpen_chroma(&[], p).is_empty() && l2_normalize_chroma(&[]).is_empty(), "empty vector");
    c.ev("frames", n as u64);
    if n > 2 && w > 1 {
        c.seen_h(hash_f32(&flat(&m)) ^ hash_f32(&flat(&a)).rotate_left(9));
        c.sample(json!({"case": d, "power": p}));
    }
    Ok(())
}
