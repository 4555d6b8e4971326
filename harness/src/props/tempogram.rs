//! B06, B07: spectral tempo estimate and multi-resolution fusion.
use super::tempo::bpm_range;
use crate::ensure;
use crate::gen;
use crate::mon::*;
use serde_json::json;
use stratum_dsp::features::chroma::extractor::compute_stft;
use stratum_dsp::features::period::multi_resolution::*;
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::tempogram_autocorr::*;
use stratum_dsp::features::period::tempogram_fft::*;
use stratum_dsp::features::period::BpmEstimate;
use stratum_dsp::AnalysisError;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "B06", quick: 12_000, thorough: 100_000,
            rule: "periodic, layered, noisy and degenerate spectrograms x rate x hop x tempo range x resolution x band/mel fusion settings; estimate and candidate list against a reference of candidate generation, scoring, folding and ranking built on the tempograms the code returns. Distinct: hash of the candidate list",
            assumptions: &["cases in which a decision falls within single-precision error of its threshold are only range-checked"],
            min_nontrivial: 300, run: b06, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "B07", quick: 2_400, thorough: 30_000,
            rule: "audio (pulses, drums, layers, drift, noise, chords) x fusion weights x thresholds x band settings; fused estimate against a reference fusion of the three per-resolution candidate lists; repeated calls compared bit for bit. Distinct: hash of the estimate",
            assumptions: &["cases in which a decision falls within single-precision error of its threshold are only range-checked"],
            min_nontrivial: 60, run: b07, serial: false, hang_is_violation: false,
        },
    ]
}

/// a decision within rounding error of its threshold
#[derive(Default)]
struct Near(bool);
impl Near {
    fn lt(&mut self, a: f64, b: f64) -> bool {
        if (a - b).abs() <= 2e-5 * (1.0 + 0.02 * a.abs().max(b.abs())) {
            self.0 = true;
        }
        a < b
    }
    /// comparison of tempi computed in single precision: equality is exact
    fn ltb(&mut self, a: f32, b: f32) -> bool {
        if a != b && (a - b).abs() < 1e-4 {
            self.0 = true;
        }
        a < b
    }
    fn leb(&mut self, a: f32, b: f32) -> bool {
        self.ltb(a, b) || a == b
    }
    fn nearest(&mut self, l: impl Iterator<Item = (f32, f32)>, bpm: f32, tol: f32) -> f64 {
        let mut bd = f32::INFINITY;
        let mut bv = 0.0f32;
        for (b, v) in l {
            let d = (b - bpm).abs();
            if self.leb(d, tol) {
                if bd.is_finite() && d != bd && (d - bd).abs() < 1e-4 && v != bv {
                    self.0 = true;
                }
                if d < bd {
                    bd = d;
                    bv = v;
                }
            }
        }
        bv as f64
    }
}

struct Var {
    full: bool,
    w: f64,
    fft: Vec<(f32, f32)>,
    ac: Vec<(f32, f32)>,
}
pub struct RefCand {
    bpm: f32,
    score: f64,
    fft: f64,
    ac: f64,
}
struct RefEst {
    cands: Vec<RefCand>,
    best: usize,
    conf: f64,
    agree: u32,
}

fn ref_estimate(sp: &[Vec<f32>], sr: u32, hop: u32, lo: f32, hi: f32, res: f32, cfg: Option<&TempogramBandFusionConfig>, nr: &mut Near) -> Result<RefEst, AnalysisError> {
    let nb = sp.first().map(|f| f.len()).unwrap_or(0);
    if nb == 0 {
        return Err(AnalysisError::InvalidInput("empty".into()));
    }
    let k = cfg.map(|c| c.superflux_max_filter_bins).unwrap_or(4);
    let mix = |a: &[f32], b: &[f32], c: &[f32]| match cfg {
        Some(g) => combined_novelty_with_params(a, b, c, g.novelty_w_spectral, g.novelty_w_energy, g.novelty_w_hfc, g.novelty_local_mean_window, g.novelty_smooth_window),
        None => combined_novelty(a, b, c),
    };
    let tg = |v: &[f32]| -> Result<(Vec<(f32, f32)>, Vec<(f32, f32)>), AnalysisError> { Ok((fft_tempogram(v, sr, hop, lo, hi)?, autocorrelation_tempogram(v, sr, hop, lo, hi, res)?)) };
    let full = mix(&superflux_novelty(sp, k)?, &energy_flux_novelty(sp)?, &hfc_novelty(sp, sr)?);
    if full.is_empty() {
        return Err(AnalysisError::ProcessingError("empty".into()));
    }
    let (f, a) = tg(&full)?;
    let prim: Vec<f32> = [find_best_bpm_fft(&f).map(|x| x.bpm), find_best_bpm_autocorr(&a).map(|x| x.bpm)].into_iter().flatten().collect();
    let mut vars = vec![Var { full: true, w: cfg.map(|c| c.w_full).unwrap_or(1.0) as f64, fft: f, ac: a }];
    if let Some(g) = cfg {
        if g.enabled {
            let fr = sr as f64 / (((nb - 1) * 2).max(2)) as f64;
            let mut bin = |hz: f32| {
                if hz <= 0.0 {
                    return 0usize;
                }
                let x = hz as f64 / fr;
                if (x.fract() - 0.5).abs() < 1e-4 {
                    nr.0 = true;
                }
                (x.round() as usize).min(nb - 1)
            };
            let b0 = 1usize.min(nb - 1);
            let bl = bin(g.low_max_hz).max(b0);
            let bm = bin(g.mid_max_hz).max(bl + 1);
            let bh = if g.high_max_hz > 0.0 { bin(g.high_max_hz).max(bm + 1).min(nb) } else { nb };
            for (s, e, w) in [(b0, bl, g.w_low), (bl, bm, g.w_mid), (bm, bh, g.w_high)] {
                if w > 0.0 && e > s + 1 {
                    let v = mix(&superflux_novelty_band(sp, k, s, e)?, &energy_flux_novelty_band(sp, s, e)?, &hfc_novelty_band(sp, s, e)?);
                    if !v.is_empty() {
                        let (f, a) = tg(&v)?;
                        vars.push(Var { full: false, w: w as f64, fft: f, ac: a });
                    }
                }
            }
        }
        if g.enable_mel {
            let v = mel_superflux_novelty(sp, sr, g.mel_n_mels, g.mel_fmin_hz, g.mel_fmax_hz, g.mel_max_filter_bins)?;
            if !v.is_empty() {
                let (f, a) = tg(&v)?;
                vars.push(Var { full: false, w: g.w_mel as f64, fft: f, ac: a });
            }
        }
    }
    if vars.iter().all(|v| v.fft.is_empty() && v.ac.is_empty()) {
        return Err(AnalysisError::ProcessingError("empty".into()));
    }
    // candidate tempi
    let mut c: Vec<f32> = vec![];
    let seeds = vars.iter().flat_map(|v| v.fft.iter().take(8).chain(v.ac.iter().take(8)).map(|x| x.0)).chain(prim.iter().copied().filter(|b| *b > 0.0));
    for b in seeds {
        for f in [1.0f32, 0.5, 2.0, 1.0 / 3.0, 3.0, 2.0 / 3.0, 1.5] {
            let x = b * f;
            if nr.leb(lo, x) & nr.leb(x, hi) {
                c.push(x);
            }
        }
    }
    c.sort_by(f32::total_cmp);
    let mut u: Vec<f32> = vec![];
    for x in c {
        match u.last() {
            Some(&l) if nr.ltb(x - l, 0.75) => {}
            _ => u.push(x),
        }
    }
    if u.is_empty() {
        return Err(AnalysisError::ProcessingError("none".into()));
    }
    // scores
    let seed_only = cfg.map(|g| g.seed_only).unwrap_or(true);
    let wsum = vars.iter().filter(|v| v.full || !seed_only).map(|v| v.w.max(0.0)).sum::<f64>().max(1e-6);
    let tol_ac = res.max(0.5);
    let norm = |nr: &mut Near, v: &Var, b: f32| {
        let mf = v.fft.first().map(|x| x.1 as f64).unwrap_or(1.0).max(1e-12);
        let ma = v.ac.first().map(|x| x.1 as f64).unwrap_or(1.0).max(1e-12);
        ((nr.nearest(v.fft.iter().copied(), b, 0.75) / mf).clamp(0.0, 1.0), (nr.nearest(v.ac.iter().copied(), b, tol_ac) / ma).clamp(0.0, 1.0))
    };
    let mut cands: Vec<RefCand> = vec![];
    for &b in &u {
        let (mut f, mut a) = (0.0, 0.0);
        for v in vars.iter().filter(|v| (v.full || !seed_only) && v.w > 0.0) {
            let (x, y) = norm(nr, v, b);
            f += v.w * x;
            a += v.w * y;
        }
        let (f, a) = ((f / wsum).clamp(0.0, 1.0), (a / wsum).clamp(0.0, 1.0));
        let mut s = 0.55 * a + 0.45 * f;
        if let Some(g) = cfg {
            if g.consensus_bonus > 0.0 && (g.enabled || g.enable_mel) {
                let th = g.support_threshold.clamp(0.0, 1.0) as f64;
                let mut n = 0;
                for v in vars.iter().filter(|v| !v.full) {
                    let (x, y) = norm(nr, v, b);
                    let m = x.max(y);
                    // zero support against a zero threshold is exact
                    if !(m == th && (m == 0.0 || m == 1.0)) {
                        nr.lt(m, th);
                    }
                    if m >= th {
                        n += 1;
                    }
                }
                if n >= 2 {
                    s *= 1.0 + g.consensus_bonus as f64 * (n - 1) as f64;
                }
            }
        }
        if b != 180.0 && b != 60.0 {
            nr.ltb(180.0, b);
            nr.ltb(b, 60.0);
        }
        if b > 180.0 {
            s *= 0.8;
        } else if b < 60.0 {
            s *= 0.9;
        }
        cands.push(RefCand { bpm: b, score: s, fft: f, ac: a });
    }
    cands.sort_by(|x, y| y.score.total_cmp(&x.score));
    if cands.len() > 1 && cands[0].score - cands[1].score <= 2e-5 {
        nr.0 = true;
    }
    let mut best = 0;
    if cands[0].bpm > 180.0 {
        let h = cands[0].bpm / 2.0;
        if h >= lo && h <= hi {
            let mut hit: Option<usize> = None;
            for i in 0..cands.len() {
                if nr.ltb((cands[i].bpm - h).abs(), 0.75) {
                    match hit {
                        None => hit = Some(i),
                        Some(j) => {
                            if cands[j].score - cands[i].score < 2e-5 {
                                nr.0 = true;
                            }
                        }
                    }
                }
            }
            if let Some(i) = hit {
                let ra = (cands[0].ac + 1e-6) / (cands[i].ac + 1e-6);
                let rf = (cands[0].fft + 1e-6) / (cands[i].fft + 1e-6);
                if (ra - 2.0).abs() < 1e-3 || (rf - 2.0).abs() < 1e-3 {
                    nr.0 = true;
                }
                if !(ra > 2.0 && rf > 2.0) {
                    best = i;
                }
            }
        }
    }
    let s = cands[best].score;
    let second = cands.get(1).map(|c| c.score).unwrap_or(0.0);
    let conf = if s > 1e-12 { ((s - second).max(0.0) / s).clamp(0.0, 1.0) } else { 0.0 };
    let agree = prim.iter().filter(|p| **p > 0.0 && nr.ltb((**p - cands[best].bpm).abs(), 2.0)).count() as u32;
    Ok(RefEst { cands, best, conf, agree })
}

pub fn band_cfg(c: &mut Case) -> TempogramBandFusionConfig {
    let r = &mut c.rng;
    TempogramBandFusionConfig {
        enabled: r.p(0.6),
        low_max_hz: r.range(50.0, 500.0) as f32,
        mid_max_hz: r.range(400.0, 4000.0) as f32,
        high_max_hz: if r.p(0.3) { 0.0 } else { r.range(3000.0, 20000.0) as f32 },
        w_full: if r.p(0.1) { 0.0 } else { r.range(0.0, 1.0) as f32 },
        w_low: if r.p(0.2) { 0.0 } else { r.f() as f32 },
        w_mid: if r.p(0.2) { 0.0 } else { r.f() as f32 },
        w_high: if r.p(0.2) { 0.0 } else { r.f() as f32 },
        seed_only: r.p(0.5),
        support_threshold: *r.pick(&[0.25f32, 0.1, 0.5, 0.7, 0.0, 0.33]),
        consensus_bonus: *r.pick(&[0.0f32, 0.08, 0.3, 1.0]),
        enable_mel: r.p(0.5),
        mel_n_mels: r.us(4, 60),
        mel_fmin_hz: r.range(0.0, 100.0) as f32,
        mel_fmax_hz: r.range(1000.0, 12000.0) as f32,
        mel_max_filter_bins: r.us(0, 4),
        w_mel: r.f() as f32,
        novelty_w_spectral: r.f() as f32,
        novelty_w_energy: r.f() as f32,
        novelty_w_hfc: r.f() as f32,
        novelty_local_mean_window: r.us(0, 30),
        novelty_smooth_window: r.us(0, 9),
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: 5,
        superflux_max_filter_bins: r.us(0, 8),
    }
}

fn rhythm_spec(c: &mut Case, fr: f64, at: Option<f64>) -> (Vec<Vec<f32>>, String) {
    if at.is_none() && c.rng.p(0.2) {
        return (gen::spectro_any(&mut c.rng, 400, 60), "any".into());
    }
    let long = c.idx % 400 == 7;
    let dur = if long { c.rng.range(60.0, 400.0) } else { c.rng.lrange(2.0, 25.0) };
    let nf = ((dur * fr) as usize).clamp(4, if long { 30_000 } else { 2500 });
    let nb = *c.rng.pick(&[17usize, 33, 65]);
    let nl = c.rng.us(1, 3);
    let base = at.unwrap_or(c.rng.range(45.0, 220.0));
    let layers: Vec<(f64, f64, f64, usize, usize)> = (0..nl)
        .map(|i| {
            let f = if i == 0 { 1.0 } else { *c.rng.pick(&[2.0, 0.5, 1.5, 3.0, 0.667, 1.333]) };
            let a = c.rng.us(0, nb / 2);
            (base * f, c.rng.range(0.0, 1.0), c.rng.range(0.3, 2.0), a, c.rng.us(a + 2, nb))
        })
        .collect();
    let floor = *c.rng.pick(&[0.0, 1e-3, 0.05, 0.3]);
    let mut v = vec![vec![0.0f32; nb]; nf];
    for (t, f) in v.iter_mut().enumerate() {
        for x in f.iter_mut() {
            *x = (floor * c.rng.f()) as f32;
        }
        for &(bpm, ph, amp, a, b) in &layers {
            let p = (t as f64 / fr * bpm / 60.0 + ph).fract() * 60.0 / bpm;
            let e = amp * (-p / 0.05).exp();
            for x in f[a..b.min(nb)].iter_mut() {
                *x += e as f32;
            }
        }
    }
    (v, format!("layers {:?}", layers.iter().map(|l| l.0).collect::<Vec<_>>()))
}

fn b06(c: &mut Case) -> R {
    let sr = *c.rng.pick(&[8000u32, 11025, 22050, 44100, 48000]);
    let hop = *c.rng.pick(&[128u32, 256, 512, 512, 1024]);
    let (lo, hi) = bpm_range(c);
    let res = *c.rng.pick(&[1.0f32, 1.0, 0.5, 2.0, 0.25]);
    // tempi whose half is exactly the lowest tempo asked for
    let fold = c.rng.p(0.08);
    let (lo, hi, res) = if fold { (c.rng.us(91, 110) as f32, c.rng.us(225, 300) as f32, *c.rng.pick(&[1.0f32, 0.5])) } else { (lo, hi, res) };
    let (sp, d) = rhythm_spec(c, sr as f64 / hop as f64, if fold { Some(2.0 * lo as f64) } else { None });
    let cfg = if c.rng.p(0.6) { Some(band_cfg(c)) } else { None };
    let top = if c.rng.p(0.2) { c.rng.us(0, 1) } else { c.rng.us(0, 60) };
    let ctx = format!("{d} {}x{} sr {sr} hop {hop} range {lo}..{hi} res {res} top {top} cfg {cfg:?}", sp.len(), sp.first().map(|f| f.len()).unwrap_or(0));
    let call = |n: usize| match &cfg {
        Some(g) => estimate_bpm_tempogram_with_candidates_band_fusion(&sp, sr, hop, lo, hi, res, n, g.clone()),
        None => estimate_bpm_tempogram_with_candidates(&sp, sr, hop, lo, hi, res, n),
    };
    let plain = match &cfg {
        Some(g) => estimate_bpm_tempogram_band_fusion(&sp, sr, hop, lo, hi, res, g.clone()),
        None => estimate_bpm_tempogram(&sp, sr, hop, lo, hi, res),
    };
    let got = call(usize::MAX);
    let mut nr = Near::default();
    let want = ref_estimate(&sp, sr, hop, lo, hi, res, cfg.as_ref(), &mut nr);
    let (est, cands) = match (got, want.as_ref()) {
        (Err(_), Err(_)) => {
            ensure!(plain.is_err(), "plain estimate although the candidate list fails: {ctx}");
            c.ev("rejected", 1);
            return Ok(());
        }
        (Ok(g), _) => g,
        (Err(e), Ok(_)) => return Err(format!("no estimate ({e}) although there are candidates: {ctx}")),
    };
    let plain = plain.map_err(|e| format!("plain estimate fails: {e}: {ctx}"))?;
    ensure!(plain.bpm.to_bits() == est.bpm.to_bits() && plain.confidence.to_bits() == est.confidence.to_bits() && plain.method_agreement == est.method_agreement,
        "plain estimate {plain:?} differs from the one with candidates {est:?}: {ctx}");
    // well-formedness holds whatever the reference says
    ensure!(est.bpm >= lo && est.bpm <= hi && (0.0..=1.0).contains(&est.confidence) && est.method_agreement <= 2, "estimate {est:?}: {ctx}");
    for w in cands.windows(2) {
        ensure!(w[0].score >= w[1].score, "candidates not ranked: {ctx}");
    }
    for x in &cands {
        ensure!(x.bpm >= lo && x.bpm <= hi && x.score >= 0.0 && (0.0..=1.0).contains(&x.fft_norm) && (0.0..=1.0).contains(&x.autocorr_norm), "candidate {x:?}: {ctx}");
        ensure!(x.selected == ((x.bpm - est.bpm).abs() < 0.75), "candidate {x:?} selection mark does not match {}: {ctx}", est.bpm);
    }
    ensure!(cands.iter().any(|x| x.bpm == est.bpm), "estimate {} is not a candidate: {ctx}", est.bpm);
    if est.bpm != cands[0].bpm && cands[0].score - cands.get(1).map(|x| x.score).unwrap_or(0.0) > 1e-4 {
        ensure!(cands[0].bpm > 180.0 && (cands[0].bpm / 2.0 - est.bpm).abs() < 0.75, "estimate {} although {} ranks first: {ctx}", est.bpm, cands[0].bpm);
        c.ev("folded", 1);
    }
    let (e2, c2) = call(top).map_err(|e| e.to_string())?;
    ensure!(e2.bpm == est.bpm && e2.confidence == est.confidence, "estimate depends on the list length: {ctx}");
    ensure!(c2.len() == top.min(cands.len()) && c2.iter().zip(&cands).all(|(a, b)| a.bpm == b.bpm && a.score == b.score && a.selected == b.selected), "truncated list is not a prefix: {ctx}");
    c.ev("estimates", 1);
    c.ev("candidates", cands.len() as u64);
    let want = match want {
        Ok(w) => w,
        Err(e) => {
            ensure!(nr.0, "estimate {est:?} although there is nothing to score ({e}): {ctx}");
            return Ok(());
        }
    };
    if nr.0 {
        c.ev("too_close_to_call", 1);
        return Ok(());
    }
    ensure!(cands.len() == want.cands.len(), "{} candidates, expected {}: {ctx}", cands.len(), want.cands.len());
    for w in &want.cands {
        let m = cands.iter().find(|x| (x.bpm - w.bpm).abs() < 1e-3);
        let m = m.ok_or(format!("candidate {} missing: {ctx}", w.bpm))?;
        ensure!(close(m.score as f64, w.score, 1e-5, 1e-5) && close(m.fft_norm as f64, w.fft, 1e-5, 1e-5) && close(m.autocorr_norm as f64, w.ac, 1e-5, 1e-5),
            "candidate {m:?}, expected score {} fft {} autocorr {}: {ctx}", w.score, w.fft, w.ac);
    }
    let b = &want.cands[want.best];
    ensure!((est.bpm - b.bpm).abs() < 1e-3, "estimate {}, expected {}: {ctx}", est.bpm, b.bpm);
    ensure!(close(est.confidence as f64, want.conf, 1e-3, 1e-4 + 1e-5 / b.score.max(1e-6)), "confidence {}, expected {}: {ctx}", est.confidence, want.conf);
    ensure!(est.method_agreement == want.agree, "agreement {}, expected {}: {ctx}", est.method_agreement, want.agree);
    c.ev("compared", 1);
    c.seen_h(hash_f32(&cands.iter().flat_map(|x| [x.bpm, x.score]).collect::<Vec<_>>()));
    c.sample(json!({"case": d, "bpm": est.bpm, "confidence": est.confidence, "candidates": cands.len()}));
    Ok(())
}

// ------------------------------------------------------------------ fusion
type Cands = Vec<TempogramCandidateDebug>;
fn sup(nr: &mut Near, l: &Cands, b: f32, tol: f32) -> f64 {
    nr.nearest(l.iter().map(|c| (c.bpm, c.score)), b, tol)
}

fn contrast(nr: &mut Near, v: &[f32], sr: u32, bpm: f32) -> f64 {
    if v.len() < 16 {
        return 0.0;
    }
    let x = 60.0 * sr as f64 / (bpm as f64 * 512.0);
    if (x.fract() - 0.5).abs() < 1e-4 || (x - 3.0).abs() < 1e-4 {
        nr.0 = true;
    }
    if x < 3.0 {
        return 0.0;
    }
    let p = x.round() as usize;
    if p > 512 {
        return 0.0;
    }
    let n = v.len();
    let peak = |i: usize| v[i.saturating_sub(2)..(i + 3).min(n)].iter().fold(0.0f32, |a, &x| a.max(x)) as f64;
    let mean = (v.iter().map(|x| *x as f64).sum::<f64>().max(1e-6) / n as f64).max(1e-6);
    let avg = |l: Vec<usize>| {
        let l: Vec<f64> = l.into_iter().filter(|i| *i < n).map(peak).collect();
        if l.is_empty() { 0.0 } else { l.iter().sum::<f64>() / l.len() as f64 }
    };
    let mut best = -1e9f64;
    for ph in 0..p {
        let at: Vec<usize> = (ph..n).step_by(p).collect();
        let h = if p >= 6 { avg(at.iter().map(|i| i + p / 2).collect()) } else { 0.0 };
        let t = if p >= 9 { avg(at.iter().flat_map(|i| [i + p / 3, i + p * 2 / 3]).collect()) } else { 0.0 };
        best = best.max(((avg(at) - 0.6 * h - 0.4 * t) / mean).clamp(-10.0, 10.0));
    }
    best
}

struct Fuse {
    tol: f32,
    lo: f32,
    hi: f32,
    w: [f64; 3], // 512, 256, 1024
    dt: f64,
    margin: f64,
    prior: bool,
}

fn ref_fuse(c256: &Cands, c512: &Cands, c1024: &Cands, f: &Fuse, nov: Option<&[f32]>, sr: u32, nr: &mut Near, log: &mut Vec<&'static str>) -> Option<(f32, f64, u32)> {
    let (w5, w2, w1) = (f.w[0], f.w[1], f.w[2]);
    let mut hyps: Vec<(f32, f64)> = vec![];
    for t in c512 {
        let b = t.bpm;
        let s = |nr: &mut Near, x: f32| (sup(nr, c512, x, f.tol), sup(nr, c256, x, f.tol), sup(nr, c1024, x, f.tol));
        let (a5, a2, a1) = s(nr, b);
        let (d5, d2, d1) = s(nr, b * 2.0);
        let (h5, h2, h1) = s(nr, b * 0.5);
        let ht = w5 * a5 + w2 * a2 + w1 * a1;
        let mut hd = w5 * (f.dt * a5 + (1.0 - f.dt) * d5) + w2 * d2 + w1 * d1;
        let mut hh = w5 * (f.dt * a5 + (1.0 - f.dt) * h5) + w2 * h2 + w1 * h1;
        if a1 > 0.0 || h1 > 0.0 {
            nr.lt(a1, h1 * 1.02);
        }
        if a1 > 0.0 || d1 > 0.0 {
            nr.lt(a1, d1 * 1.02);
        }
        if a1 > h1 * 1.02 {
            hh *= 0.9;
        }
        if a1 > d1 * 1.02 {
            hd *= 0.9;
        }
        let mut guard = |num: f64, den: f64| {
            let r = (num + 1e-6) / (den + 1e-6);
            if !(num == den) && ((r - 1.0).abs() < 1e-4 || (r - 1.1).abs() < 1e-4) {
                nr.0 = true;
            }
            (if r < 1.1 { 0.75 } else { 1.0 }) * (if r < 1.0 { 0.75 } else { 1.0 })
        };
        hd *= guard(d2, a2);
        hh *= guard(h1, a1);
        let mut l: Vec<(f32, f64)> = vec![(b, ht), (b * 2.0, hd), (b * 0.5, hh)];
        l.retain(|x| nr.leb(f.lo, x.0) & nr.leb(x.0, f.hi));
        for x in l.iter_mut() {
            for e in [60.0, 180.0, 210.0] {
                nr.ltb(x.0, e);
            }
            x.1 *= if x.0 > 210.0 { 0.8 } else if x.0 > 180.0 { 0.9 } else if x.0 < 60.0 { 0.92 } else { 1.0 };
        }
        l.sort_by(|x, y| y.1.total_cmp(&x.1));
        if l.is_empty() {
            continue;
        }
        let m = l[0].1 - l.get(1).map(|x| x.1).unwrap_or(0.0);
        if m < 2e-5 && l.len() > 1 && (l[0].1 != 0.0) {
            nr.0 = true;
        }
        let close_call = nr.lt(m, f.margin);
        let (mut cb, mut cs) = l[0];
        if (cb - b).abs() > 1e-3 && close_call {
            cb = b;
            cs = ht;
        }
        if close_call && f.prior {
            nr.ltb(cb, 70.0);
            nr.ltb(180.0, cb);
            if cb >= 70.0 && cb <= 180.0 && nr.lt(m, 0.05) {
                cs += 0.05;
            }
        }
        hyps.push((cb, cs));
    }
    if hyps.is_empty() {
        return None;
    }
    hyps.sort_by(|x, y| y.1.total_cmp(&x.1));
    let mut best = hyps[0];
    if hyps.iter().skip(1).any(|h| hyps[0].1 - h.1 < 2e-5 && (h.0 - best.0).abs() > 1e-4) {
        nr.0 = true;
    }
    let mut second = 0.0;
    for h in &hyps[1..] {
        if !nr.ltb((h.0 - best.0).abs(), 0.75) {
            second = h.1;
            break;
        }
    }
    let total = |nr: &mut Near, b: f32| {
        let s = [sup(nr, c256, b, f.tol), sup(nr, c512, b, f.tol), sup(nr, c1024, b, f.tol)];
        (s.iter().sum::<f64>(), s.iter().filter(|x| **x > 0.0).count() as u32)
    };
    if !nr.ltb(best.0, 170.0) {
        let h = best.0 * 0.5;
        if nr.leb(70.0, h) & nr.leb(h, 120.0) {
            let (sb, _) = total(nr, best.0);
            let (sh, ah) = total(nr, h);
            if ah >= 3 && sb > 0.0 {
                nr.lt(sh / sb, 0.45);
                if sh / sb >= 0.45 {
                    best = (h, sh);
                    log.push("fold_down");
                }
            }
        }
    }
    if nr.leb(best.0, 80.0) {
        let d = best.0 * 2.0;
        if nr.leb(70.0, d) & nr.leb(d, 180.0) {
            let (sb, _) = total(nr, best.0);
            let (sd, ad) = total(nr, d);
            if ad >= 2 && sb > 0.0 {
                nr.lt(sd / sb, 0.55);
                if sd / sb >= 0.55 {
                    best = (d, sd);
                    log.push("fold_up");
                }
            }
        }
    }
    if let Some(v) = nov.filter(|v| !v.is_empty()) {
        if nr.leb(70.0, best.0) & nr.leb(best.0, 180.0) {
            let mut fam: Vec<(f32, f64, f64)> = vec![];
            for k in [1.0f32, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75] {
                let b = best.0 * k;
                if !(nr.leb(f.lo, b) & nr.leb(b, f.hi) & nr.leb(70.0, b) & nr.leb(b, 180.0)) {
                    continue;
                }
                let (s, a) = total(nr, b);
                if a >= 2 && s > 0.0 {
                    let al = contrast(nr, v, sr, b);
                    fam.push((b, s, al));
                }
            }
            if fam.len() >= 2 {
                let bs = fam.iter().fold(0.0f64, |m, x| m.max(x.1)).max(1e-6);
                let alt = fam.iter().filter(|x| (x.0 - best.0).abs() > 0.75).fold(0.0f64, |m, x| m.max(x.1 / bs));
                nr.lt(alt, 0.45);
                if alt >= 0.45 {
                    let sc = |x: &(f32, f64, f64)| x.2 + 0.35 * (x.1 / bs).clamp(0.0, 1.0);
                    let mut ch = fam[0];
                    for x in &fam[1..] {
                        if nr.lt(sc(&ch), sc(x)) {
                            ch = *x;
                        }
                    }
                    if (ch.0 - best.0).abs() > 0.75 {
                        let cur = contrast(nr, v, sr, best.0);
                        nr.lt(ch.2, cur + 0.4);
                        if ch.2 >= cur + 0.4 {
                            best = (ch.0, ch.1);
                            log.push("family_switch");
                        }
                    }
                }
            }
        }
    }
    let conf = if best.1 > 1e-6 { ((best.1 - second).max(0.0) / best.1).clamp(0.0, 1.0) } else { 0.0 };
    Some((best.0, conf, total(nr, best.0).1))
}

fn b07(c: &mut Case) -> R {
    if c.idx % 5 == 4 {
        return b07_plain(c);
    }
    // mostly material whose tempo family is contested
    let contested = c.rng.p(0.75);
    let (sig, frame) = if contested {
        let mut acfg = stratum_dsp::AnalysisConfig::default();
        (super::whole::torn(&mut c.rng, &mut acfg), *c.rng.pick(&[256usize, 512, 512, 1024]))
    } else {
        let sr = *c.rng.pick(&[11025u32, 22050, 22050, 44100]);
        let dur = if c.idx % 400 == 3 { c.rng.range(60.0, 240.0) } else { c.rng.range(3.0, 16.0) };
        (gen::audio(&mut c.rng, sr, dur), *c.rng.pick(&[512usize, 1024, 2048, 2048]))
    };
    let sr = sig.sr;
    let (lo, hi) = if c.rng.p(0.5) { (40.0, 240.0) } else { bpm_range(c) };
    let res = *c.rng.pick(&[1.0f32, 0.5, 2.0, 3.0]);
    let top_k = *c.rng.pick(&[0usize, 1, 3, 8, 25, 25, 60]);
    let r = &mut c.rng;
    let (w5, w2, w1) = if r.p(0.4) { (0.45f32, 0.35f32, 0.2f32) } else { (r.f() as f32, r.f() as f32, r.f() as f32) };
    let sd = r.f() as f32;
    let dt = r.f() as f32;
    let mt = *r.pick(&[0.0f32, 0.02, 0.08, 0.2, 0.5]);
    let prior = r.p(0.5);
    let cfg = if c.rng.p(0.7) { Some(band_cfg(c)) } else { None };
    let ctx = format!("{} frame {frame} range {lo}..{hi} res {res} top {top_k} w {w5} {w2} {w1} dt {dt} margin {mt} prior {prior} cfg {cfg:?}", sig.desc);
    let run = |s: &[f32]| multi_resolution_tempogram_from_samples(s, sr, frame, lo, hi, res, top_k, w5, w2, w1, sd, dt, mt, prior, cfg.clone());
    let got = run(&sig.s);
    if sig.s.len() < frame {
        ensure!(matches!(got, Err(AnalysisError::InvalidInput(_))), "audio shorter than a frame not rejected: {ctx}");
        return Ok(());
    }
    let k = top_k.max(1);
    let aux = (k * 4).clamp(25, 200);
    let use_cfg = cfg.as_ref().filter(|g| g.enabled || g.enable_mel || g.consensus_bonus > 0.0);
    let mut lists: Vec<Result<(BpmEstimate, Cands), AnalysisError>> = vec![];
    let mut sp512 = vec![];
    for (h, n) in [(256u32, aux), (512, k), (1024, aux)] {
        let sp = compute_stft(&sig.s, frame, h as usize).map_err(|e| e.to_string())?;
        lists.push(match use_cfg {
            Some(g) => estimate_bpm_tempogram_with_candidates_band_fusion(&sp, sr, h, lo, hi, res, n, g.clone()),
            None => estimate_bpm_tempogram_with_candidates(&sp, sr, h, lo, hi, res, n),
        });
        if h == 512 {
            sp512 = sp;
        }
    }
    if lists.iter().any(|l| l.is_err()) {
        ensure!(got.is_err(), "estimate although one resolution fails: {ctx}");
        c.ev("rejected", 1);
        return Ok(());
    }
    let l: Vec<Cands> = lists.into_iter().map(|x| x.unwrap().1).collect();
    let tol = 2.0f32.max(res);
    let mut nr = Near::default();
    let mut log = vec![];
    let nov = cfg.as_ref().map(|g| {
        combined_novelty_with_params(
            &superflux_novelty(&sp512, g.superflux_max_filter_bins).unwrap_or_default(), &energy_flux_novelty(&sp512).unwrap_or_default(),
            &hfc_novelty(&sp512, sr).unwrap_or_default(), g.novelty_w_spectral, g.novelty_w_energy, g.novelty_w_hfc, g.novelty_local_mean_window, g.novelty_smooth_window)
    });
    let f = Fuse { tol, lo, hi, w: [w5 as f64, w2 as f64, w1 as f64], dt: dt as f64, margin: mt as f64, prior };
    let want = ref_fuse(&l[0], &l[1], &l[2], &f, nov.as_deref(), sr, &mut nr, &mut log);
    let (est, cands) = match (got, &want) {
        (Ok(g), _) => g,
        (Err(_), None) => return Ok(()),
        (Err(e), Some(_)) => {
            ensure!(nr.0, "no estimate: {e}: {ctx}");
            return Ok(());
        }
    };
    ensure!(est.bpm.is_finite() && est.bpm >= lo - tol && est.bpm <= hi + tol, "tempo {} outside the range: {ctx}", est.bpm);
    ensure!((0.0..=1.0).contains(&est.confidence) && est.method_agreement <= 3, "estimate {est:?}: {ctx}");
    let ratios = [1.0f32, 2.0, 0.5, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75, 4.0, 0.25, 3.0, 1.0 / 3.0, 8.0 / 3.0, 0.375];
    ensure!(l.iter().flatten().any(|x| ratios.iter().any(|r| (x.bpm * r - est.bpm).abs() <= tol + 1e-3)), "tempo {} is unrelated to every candidate: {ctx}", est.bpm);
    ensure!(cands.len() == l[1].len() && cands.iter().zip(&l[1]).all(|(a, b)| a.bpm == b.bpm && a.score == b.score), "candidate list is not the one of the base resolution: {ctx}");
    for x in &cands {
        ensure!(x.selected == ((x.bpm - est.bpm).abs() < 0.75), "candidate {x:?} selection mark does not match {}: {ctx}", est.bpm);
    }
    let (e2, _) = run(&sig.s).map_err(|e| format!("second call fails: {e}: {ctx}"))?;
    ensure!(e2.bpm.to_bits() == est.bpm.to_bits() && e2.confidence.to_bits() == est.confidence.to_bits(), "second call gives {e2:?} instead of {est:?}: {ctx}");
    c.ev("estimates", 1);
    if nr.0 {
        c.ev("too_close_to_call", 1);
        return Ok(());
    }
    let (b, cf, ag) = want.ok_or(format!("estimate {est:?} without any hypothesis: {ctx}"))?;
    ensure!((est.bpm - b).abs() < 1e-3, "tempo {}, expected {b} ({log:?}): {ctx}", est.bpm);
    ensure!(close(est.confidence as f64, cf, 1e-3, 1e-3), "confidence {}, expected {cf} ({log:?}): {ctx}", est.confidence);
    ensure!(est.method_agreement == ag, "agreement {}, expected {ag}: {ctx}", est.method_agreement);
    c.ev("compared", 1);
    for x in log {
        c.ev(x, 1);
    }
    c.seen(&format!("{}{}", est.bpm.to_bits(), est.confidence.to_bits()));
    c.sample(json!({"case": sig.desc, "bpm": est.bpm, "confidence": est.confidence, "agree": ag}));
    Ok(())
}

fn b07_plain(c: &mut Case) -> R {
    let sr = *c.rng.pick(&[11025u32, 22050, 44100]);
    let hop = *c.rng.pick(&[256u32, 512, 1024]);
    let (lo, hi) = bpm_range(c);
    let res = *c.rng.pick(&[1.0f32, 0.5, 2.0]);
    let (sp, d) = rhythm_spec(c, sr as f64 / hop as f64, None);
    let ctx = format!("plain {d} sr {sr} hop {hop} range {lo}..{hi} res {res}");
    let got = multi_resolution_analysis(&sp, sr, hop, lo, hi, res);
    let e: Vec<BpmEstimate> = [256u32, 512, 1024].iter().filter_map(|h| estimate_bpm_tempogram(&sp, sr, *h, lo, hi, res).ok()).collect();
    if e.is_empty() {
        ensure!(got.is_err(), "estimate although every resolution fails: {ctx}");
        return Ok(());
    }
    let g = got.map_err(|x| format!("{x}: {ctx}"))?;
    let mut nr = Near::default();
    let n = e.len() as f64;
    let (b, cf, ag) = if e.len() == 1 {
        (e[0].bpm as f64, e[0].confidence as f64, e[0].method_agreement)
    } else if e.iter().all(|x| nr.ltb((x.bpm - e[0].bpm).abs(), 2.0)) {
        (e.iter().map(|x| x.bpm as f64).sum::<f64>() / n, (e.iter().map(|x| x.confidence as f64).sum::<f64>() / n * 1.2).min(1.0), e.len() as u32)
    } else {
        let m = e.iter().fold(0.0f32, |a, x| a.max(x.confidence));
        let tied: Vec<&BpmEstimate> = e.iter().filter(|x| x.confidence >= m - 1e-6).collect();
        if tied.iter().any(|x| x.bpm != tied[0].bpm) {
            ensure!(tied.iter().any(|x| x.bpm == g.bpm), "{g:?} is not the most confident of {e:?}: {ctx}");
            return Ok(());
        }
        (tied[0].bpm as f64, m as f64 * 0.9, 1)
    };
    if nr.0 {
        return Ok(());
    }
    ensure!(close(g.bpm as f64, b, 1e-5, 1e-3) && close(g.confidence as f64, cf, 1e-4, 1e-5) && g.method_agreement == ag, "{g:?}, expected {b} {cf} {ag} from {e:?}: {ctx}");
    c.ev(if ag > 1 { "resolutions_agree" } else { "resolutions_disagree" }, 1);
    c.seen(&format!("pl{}{}", g.bpm.to_bits(), g.confidence.to_bits()));
    Ok(())
}
