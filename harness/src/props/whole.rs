//! A01..A10: the analysis as a whole.
use super::pipeline as pl;
use crate::gen;
use crate::mon::{close, guarded, Case, Spec, R};
use crate::rng::{hash_bytes, Rng};
use serde_json::json;
use std::sync::{Arc, Barrier};
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::{analyze_audio, AnalysisConfig, AnalysisError, AnalysisResult, Key};

type Out = Result<AnalysisResult, AnalysisError>;

/// every reported value except the processing time
pub fn digest(r: &Out) -> String {
    match r {
        Ok(r) => {
            let mut r = r.clone();
            r.metadata.processing_time_ms = 0.0;
            format!("{r:?}")
        }
        Err(e) => format!("{e:?}"),
    }
}
fn short(d: &str) -> String {
    d.chars().take(260).collect()
}
fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.get(i.saturating_sub(60)..(i + 60).min(s.len())).unwrap_or("").to_string();
    format!("...{}... against ...{}...", cut(a), cut(b))
}
fn kind(r: &Out) -> &'static str {
    match r {
        Ok(_) => "result",
        Err(AnalysisError::InvalidInput(_)) => "invalid_input",
        Err(AnalysisError::DecodingError(_)) => "decoding_error",
        Err(AnalysisError::ProcessingError(_)) => "processing_error",
        Err(AnalysisError::NotImplemented(_)) => "not_implemented",
        Err(AnalysisError::NumericalError(_)) => "numerical_error",
    }
}

/// ordinary audio: sample rate and length drawn together so one analysis stays cheap
pub fn track(r: &mut Rng, max_s: f64) -> gen::Sig {
    let sr = *r.pick(&[8000u32, 11025, 11025, 16000, 22050, 22050, 44100, 48000]);
    let cap = (max_s * 22050.0 / sr as f64).min(max_s * 1.6);
    let dur = if r.p(0.1) { r.lrange(0.02, 1.5) } else { r.range(1.5, cap.max(2.0)) };
    gen::audio(r, sr, dur)
}
/// configuration; most switches and numbers may vary. Key frames are kept affordable.
pub fn settings(r: &mut Rng) -> (AnalysisConfig, String) {
    if r.p(0.12) {
        return (AnalysisConfig::default(), "default settings".into());
    }
    let wild = r.p(0.5);
    let (mut c, mut d) = gen::config(r, wild);
    if r.p(0.35) {
        c.key_segment_len_frames = r.us(120, 200);
        c.key_segment_hop_frames = r.us(20, 150);
        d += ",short key segments";
    }
    (c, d)
}
/// settings under which the tempo escalations and fallbacks are in play
fn tempo_settings(r: &mut Rng) -> (AnalysisConfig, String) {
    let (mut c, d) = settings(r);
    if r.p(0.5) {
        c.enable_tempogram_multi_resolution = true;
        c.enable_tempogram_percussive_fallback = r.p(0.6);
    }
    // the key stage is not what is observed here
    c.enable_key_stft_override = false;
    c.enable_key_hpss_harmonic = false;
    let d = format!("{d},multi {} percussive {}", c.enable_tempogram_multi_resolution, c.enable_tempogram_percussive_fallback);
    (c, d)
}

// ---------------------------------------------------------------- A01
fn hostile(r: &mut Rng) -> (Vec<f32>, u32, String) {
    let sr = if r.p(0.45) {
        *r.pick(&[8000u32, 11025, 16000, 22050, 44100, 48000])
    } else {
        *r.pick(&[0u32, 1, 2, 3, 7, 16, 50, 100, 199, 200, 201, 500, 1000, 1999, 2000, 4000, 9999, 10000, 10001, 32000, 88200, 96000, 192000, 384000])
    };
    let mut d;
    let mut s;
    if r.p(0.5) && sr >= 1000 {
        let dur = r.lrange(0.01, 4.0).min(60000.0 / sr as f64);
        let g = gen::audio(r, sr, dur);
        s = g.s;
        d = g.desc;
    } else {
        let n = match r.us(0, 5) {
            0 => r.us(0, 4),
            1 => *r.pick(&[255usize, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2048, 2049, 2559, 2560, 2561, 4096, 8191, 8192, 8193, 8704]),
            2 => r.us(2, 3000),
            _ => r.lrange(10.0, 50000.0) as usize,
        };
        let b = gen::buf(r, n);
        s = b.0;
        d = b.1;
    }
    let n = s.len();
    if n > 0 && r.p(0.35) {
        let bad: Vec<f32> = match r.us(0, 6) {
            0 => vec![f32::NAN],
            1 => vec![f32::INFINITY, f32::NEG_INFINITY],
            2 => vec![f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX],
            3 => vec![f32::MAX, f32::MIN, 1e30, -1e20],
            4 => vec![f32::MIN_POSITIVE, 1e-45, -1e-40, 1e-38],
            5 => vec![1e18, -3e18, 1e19],
            _ => vec![1e10, -1e12, 5e15],
        };
        match r.us(0, 4) {
            0 => s.iter_mut().for_each(|x| *x = *r.pick(&bad)),
            1 => {
                let k = r.us(1, n.min(20));
                for _ in 0..k {
                    let i = r.us(0, n - 1);
                    s[i] = *r.pick(&bad);
                }
            }
            2 => {
                let a = r.us(0, n - 1);
                let b = r.us(a, n);
                s[a..b].iter_mut().for_each(|x| *x = *r.pick(&bad));
            }
            3 => {
                let g = *r.pick(&bad);
                s.iter_mut().for_each(|x| *x *= g);
            }
            _ => {
                let i = *r.pick(&[0, n - 1]);
                s[i] = *r.pick(&bad);
            }
        }
        d += &format!(" with {bad:?}");
    }
    (s, sr, format!("{d} sr {sr} n {n}"))
}
/// numeric settings beyond the published ones
fn odd_settings(r: &mut Rng, n: usize) -> (AnalysisConfig, String) {
    let wild = r.p(0.6);
    let (mut c, d) = gen::config(r, wild);
    let mut e: Vec<String> = vec![];
    macro_rules! set { ($f:ident, $p:expr, $v:expr) => { if r.p($p) { c.$f = $v; e.push(format!("{}={:?}", stringify!($f), c.$f)); } } }
    let q = if r.p(0.5) { 0.0 } else { 0.12 };
    set!(frame_size, q * 2.0, *r.pick(&[0usize, 1, 2, 3, 5, 16, 63, 64, 100, 255, 256, 2047, 8192, 16384]));
    let hops: &[usize] = if n < 4000 { &[0, 1, 2, 7, 64, 512, 5000] } else { &[0, 64, 100, 512, 3000, 100000] };
    set!(hop_size, q * 2.0, *r.pick(hops));
    set!(min_amplitude_db, q, *r.pick(&[-200.0f32, -120.0, 0.0, 20.0, 100.0]));
    set!(onset_threshold_percentile, q, *r.pick(&[-0.5f32, 0.0, 1.0, 1.5]));
    set!(onset_consensus_tolerance_ms, q, *r.pick(&[0u32, 1, 5000, u32::MAX]));
    set!(onset_consensus_weights, q, *r.pick(&[[0.0f32; 4], [-1.0, 0.5, 0.5, 0.5], [0.0, 0.0, 0.0, 1.0]]));
    set!(hpss_margin, q, *r.pick(&[0usize, 1, 40]));
    set!(min_bpm, q, *r.pick(&[0.0f32, -10.0, 1.0, 300.0, 5.0]));
    set!(max_bpm, q, *r.pick(&[0.0f32, -10.0, 1.0, 41.0, 600.0, 1000.0]));
    set!(bpm_resolution, q, *r.pick(&[0.0f32, -1.0, 0.05, 50.0, 500.0]));
    set!(tempogram_multi_res_top_k, q, *r.pick(&[0usize, 1, 1000]));
    set!(tempogram_candidates_top_n, q, *r.pick(&[0usize, 100000]));
    set!(tempogram_multi_res_w512, q, *r.pick(&[0.0f32, -1.0, 100.0]));
    set!(tempogram_multi_res_w256, q, *r.pick(&[0.0f32, -1.0, 100.0]));
    set!(tempogram_multi_res_w1024, q, *r.pick(&[0.0f32, -1.0, 100.0]));
    set!(tempogram_band_low_max_hz, q, *r.pick(&[0.0f32, -5.0, 50000.0]));
    set!(tempogram_band_mid_max_hz, q, *r.pick(&[0.0f32, -5.0, 50000.0]));
    set!(tempogram_band_high_max_hz, q, *r.pick(&[0.0f32, -5.0, 50000.0]));
    set!(tempogram_band_w_full, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_band_w_low, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_band_w_mid, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_band_w_high, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_novelty_local_mean_window, q, *r.pick(&[0usize, 1, 2, 10000]));
    set!(tempogram_novelty_smooth_window, q, *r.pick(&[0usize, 1, 2, 10000]));
    set!(tempogram_novelty_w_spectral, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_novelty_w_energy, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_novelty_w_hfc, q, *r.pick(&[0.0f32, -1.0]));
    set!(tempogram_mel_n_mels, q, *r.pick(&[0usize, 1, 2, 3, 500]));
    set!(tempogram_mel_fmin_hz, q, *r.pick(&[0.0f32, -10.0, 9000.0, 60000.0]));
    set!(tempogram_mel_fmax_hz, q, *r.pick(&[0.0f32, -10.0, 10.0, 60000.0]));
    set!(tempogram_mel_max_filter_bins, q, *r.pick(&[0usize, 600]));
    set!(tempogram_superflux_max_filter_bins, q, *r.pick(&[0usize, 2000]));
    set!(legacy_bpm_preferred_min, q, *r.pick(&[0.0f32, 400.0]));
    set!(legacy_bpm_conf_mul_preferred, q, *r.pick(&[0.0f32, -1.0, 50.0]));
    set!(soft_mapping_sigma, q, *r.pick(&[0.0f32, -1.0, 1e-6, 50.0]));
    set!(chroma_sharpening_power, q, *r.pick(&[-1.0f32, 0.0, 10.0, 60.0]));
    set!(key_spectrogram_smooth_margin, q, *r.pick(&[0usize, 5000]));
    set!(key_min_tonalness, q, *r.pick(&[-1.0f32, 1.0, 2.0]));
    set!(key_tonalness_power, q, *r.pick(&[-1.0f32, 0.0, 30.0]));
    set!(key_energy_power, q, *r.pick(&[-1.0f32, 0.0, 30.0]));
    set!(key_harmonic_mask_power, q, *r.pick(&[-1.0f32, 0.0, 30.0]));
    set!(key_hpss_mask_power, q, *r.pick(&[-1.0f32, 0.0, 30.0]));
    set!(key_hpss_frame_step, q, *r.pick(&[0usize, 1, 5000]));
    set!(key_hpss_time_margin, q, *r.pick(&[0usize, 50]));
    set!(key_hpss_freq_margin, q, *r.pick(&[0usize, 50]));
    set!(key_stft_frame_size, q, *r.pick(&[0usize, 1, 255, 300, 32768]));
    set!(key_stft_hop_size, q, if n < 3000 { 0 } else { 100_000 });
    set!(key_multi_scale_lengths, q, r.pick(&[vec![], vec![0usize], vec![1], vec![0, 5, 100000]]).clone());
    set!(key_multi_scale_hop, q, *r.pick(&[0usize, 1, 100000]));
    set!(key_multi_scale_min_clarity, q, *r.pick(&[-1.0f32, 2.0]));
    set!(key_multi_scale_weights, q, r.pick(&[vec![], vec![0.0f32], vec![-1.0, 1.0], vec![1.0; 9]]).clone());
    set!(key_ensemble_kk_weight, q, *r.pick(&[0.0f32, -1.0]));
    set!(key_ensemble_temperley_weight, q, *r.pick(&[0.0f32, -1.0]));
    set!(key_tuning_max_abs_semitones, q, *r.pick(&[0.0f32, -0.3, 5.0]));
    set!(key_tuning_frame_step, q, *r.pick(&[0usize, 1, 5000]));
    set!(key_tuning_peak_rel_threshold, q, *r.pick(&[-1.0f32, 0.0, 1.0, 2.0]));
    set!(key_edge_trim_fraction, q, *r.pick(&[-1.0f32, 0.0, 0.5, 3.0]));
    set!(key_segment_len_frames, q, *r.pick(&[0usize, 1, 119, 120]));
    set!(key_segment_hop_frames, q, *r.pick(&[0usize, 1, 5000]));
    set!(key_segment_min_clarity, q, *r.pick(&[-1.0f32, 1.0, 2.0]));
    set!(key_mode_third_ratio_margin, q, *r.pick(&[-1.0f32, 10.0]));
    set!(key_mode_flip_min_score_ratio, q, *r.pick(&[-1.0f32, 0.0, 10.0]));
    set!(key_hpcp_peaks_per_frame, q, *r.pick(&[0usize, 1, 5000]));
    set!(key_hpcp_num_harmonics, q, *r.pick(&[0usize, 1, 40]));
    set!(key_hpcp_harmonic_decay, q, *r.pick(&[0.0f32, -1.0, 3.0]));
    set!(key_hpcp_mag_power, q, *r.pick(&[0.0f32, -1.0, 8.0]));
    set!(key_hpcp_whitening_smooth_bins, q, *r.pick(&[0usize, 1, 2, 5000]));
    set!(key_hpcp_bass_fmin_hz, q, *r.pick(&[0.0f32, -10.0, 500.0]));
    set!(key_hpcp_bass_fmax_hz, q, *r.pick(&[0.0f32, -10.0, 90000.0]));
    set!(key_hpcp_bass_weight, q, *r.pick(&[-1.0f32, 2.0]));
    set!(key_minor_leading_tone_bonus_weight, q, *r.pick(&[-1.0f32, 100.0]));
    (c, format!("{d};{}", e.join(",")))
}
fn a01(c: &mut Case) -> R {
    let (s, sr, ds) = hostile(&mut c.rng);
    let (cfg, dc) = odd_settings(&mut c.rng, s.len());
    let d = format!("{ds} | {dc}");
    let r = match guarded(|| analyze_audio(&s, sr, cfg.clone())) {
        Ok(r) => r,
        Err(p) => return Err(format!("{p}: {d}")),
    };
    if s.is_empty() || sr == 0 {
        ensure!(kind(&r) == "invalid_input", "empty audio or zero rate gave {}: {d}", short(&digest(&r)));
    }
    // nothing above the threshold: silence, or audio far below it without normalisation
    let z = vec![0.0f32; c.rng.us(1, 30000)];
    if cfg.enable_silence_trimming && cfg.frame_size > 1 && cfg.hop_size > 0 && sr >= 100 && cfg.min_amplitude_db > -150.0 && c.idx % 4 == 0 {
        let q = match guarded(|| analyze_audio(&z, sr, cfg.clone())) {
            Ok(q) => q,
            Err(p) => return Err(format!("{p}: silence of {} samples at {sr} | {dc}", z.len())),
        };
        ensure!(matches!(q, Err(AnalysisError::ProcessingError(_))), "silence of {} samples at {sr} gave {}: {dc}", z.len(), short(&digest(&q)));
        c.ev("silence_rejected", 1);
        if s.len() >= cfg.frame_size && s.iter().all(|x| x.is_finite() && x.abs() <= 1e6) {
            let mut k = cfg.clone();
            k.enable_normalization = false;
            let lvl = 10f64.powf(cfg.min_amplitude_db as f64 / 20.0) * 0.5;
            let pk = s.iter().fold(0.0f32, |a, x| a.max(x.abs())) as f64;
            let q: Vec<f32> = s.iter().map(|x| if pk > 0.0 { (*x as f64 / pk * lvl) as f32 } else { 0.0 }).collect();
            let a = match guarded(|| analyze_audio(&q, sr, k)) {
                Ok(a) => a,
                Err(p) => return Err(format!("{p}: {ds} brought below the silence threshold | {dc}")),
            };
            ensure!(matches!(a, Err(AnalysisError::ProcessingError(_))), "audio below the silence threshold gave {}: {d}", short(&digest(&a)));
            c.ev("below_threshold_rejected", 1);
        }
    }
    c.ev(kind(&r), 1);
    if s.iter().any(|x| !x.is_finite()) {
        c.ev("non_finite_samples", 1);
    }
    c.seen_h(hash_bytes(d.as_bytes()));
    c.sample(json!({"input": ds, "settings": dc, "outcome": kind(&r)}));
    Ok(())
}

// ---------------------------------------------------------------- A02
fn wellformed(r: &AnalysisResult, cfg: &AnalysisConfig, d: &str) -> R {
    for (n, v) in [("tempo", r.bpm), ("tempo confidence", r.bpm_confidence), ("key confidence", r.key_confidence), ("key clarity", r.key_clarity), ("stability", r.grid_stability), ("duration", r.metadata.duration_seconds), ("onset consensus", r.metadata.onset_method_consensus), ("processing time", r.metadata.processing_time_ms)] {
        ensure!(v.is_finite(), "{n} is {v}: {d}");
    }
    for (n, v) in [("tempo confidence", r.bpm_confidence), ("key confidence", r.key_confidence), ("key clarity", r.key_clarity), ("stability", r.grid_stability), ("onset consensus", r.metadata.onset_method_consensus)] {
        ensure!((0.0..=1.0).contains(&v), "{n} is {v}: {d}");
    }
    let slack = cfg.bpm_resolution.max(2.0) + 1e-3;
    ensure!(r.bpm == 0.0 || (r.bpm >= cfg.min_bpm - slack && r.bpm <= cfg.max_bpm + slack), "tempo {} outside {}..{}: {d}", r.bpm, cfg.min_bpm, cfg.max_bpm);
    ensure!(match r.key { Key::Major(i) | Key::Minor(i) => i < 12 }, "key {:?}: {d}", r.key);
    let g = &r.beat_grid;
    let dur = r.metadata.duration_seconds;
    ensure!(dur > 0.0, "duration {dur}: {d}");
    for w in g.beats.windows(2) {
        ensure!(w[1] > w[0], "beats {} and {} not increasing: {d}", w[0], w[1]);
    }
    for b in &g.beats {
        ensure!(b.is_finite() && *b >= 0.0 && *b <= dur + 0.06, "beat at {b} s of {dur} s: {d}");
    }
    for (n, l) in [("downbeat", &g.downbeats), ("bar", &g.bars)] {
        for w in l.windows(2) {
            ensure!(w[1] > w[0], "{n}s {} and {} not increasing: {d}", w[0], w[1]);
        }
        for b in l {
            ensure!(g.beats.contains(b), "{n} at {b} is not a beat: {d}");
        }
    }
    ensure!(r.bpm > 0.0 || g.beats.is_empty(), "a grid without a tempo: {d}");
    if let Some(k) = &r.metadata.tempogram_candidates {
        for x in k {
            ensure!(x.bpm.is_finite() && x.score.is_finite() && (0.0..=1.0).contains(&x.fft_norm) && (0.0..=1.0).contains(&x.autocorr_norm), "candidate {x:?}: {d}");
            ensure!(x.bpm >= cfg.min_bpm - slack && x.bpm <= cfg.max_bpm + slack, "candidate {x:?} outside {}..{}: {d}", cfg.min_bpm, cfg.max_bpm);
        }
    }
    Ok(())
}
/// a track of some minutes, at a low rate so that it stays affordable
fn long_track(r: &mut Rng) -> gen::Sig {
    let dur = r.range(60.0, 240.0);
    gen::audio(r, 8000, dur)
}
fn a02(c: &mut Case) -> R {
    let t = if c.idx % 150 == 7 { c.ev("long_tracks", 1); long_track(&mut c.rng) } else { track(&mut c.rng, 12.0) };
    let (mut cfg, dc) = settings(&mut c.rng);
    if c.rng.p(0.25) {
        // narrow tempo ranges
        let b = c.rng.range(45.0, 200.0);
        cfg.min_bpm = b as f32;
        cfg.max_bpm = (b + c.rng.range(5.0, 60.0)) as f32;
    }
    let d = format!("{} | {dc} range {}..{}", t.desc, cfg.min_bpm, cfg.max_bpm);
    let r = analyze_audio(&t.s, t.sr, cfg.clone());
    c.ev(kind(&r), 1);
    if let Ok(r) = &r {
        wellformed(r, &cfg, &d)?;
        c.ev("beats", r.beat_grid.beats.len() as u64);
        c.ev(if r.bpm > 0.0 { "tempo" } else { "no_tempo" }, 1);
        c.ev("candidates", r.metadata.tempogram_candidates.as_ref().map_or(0, |k| k.len()) as u64);
        if r.bpm > 0.0 || r.key_clarity > 0.0 {
            c.seen_h(hash_bytes(format!("{:?}{:?}{}{}", r.bpm, r.key, r.key_clarity, r.beat_grid.beats.len()).as_bytes()));
        }
        c.sample(json!({"input": t.desc, "settings": dc, "bpm": r.bpm, "beats": r.beat_grid.beats.len(), "key": r.key.name(), "clarity": r.key_clarity}));
    } else if matches!(r, Err(AnalysisError::NumericalError(_)) | Err(AnalysisError::NotImplemented(_)) | Err(AnalysisError::DecodingError(_))) {
        return Err(format!("ordinary audio gave {}: {d}", digest(&r)));
    }
    Ok(())
}

// ---------------------------------------------------------------- A03
/// one small call of the repertoire; everything follows from the seed
fn call_of(seed: u64) -> (gen::Sig, AnalysisConfig) {
    let mut r = Rng::new(seed);
    let sr = *r.pick(&[8000u32, 11025]);
    // few distinct lengths, so that calls of the same shape but different content meet
    let n = *r.pick(&[16000usize, 32000, 40000]);
    let mut g = gen::audio(&mut r, sr, n as f64 / sr as f64);
    g.s.resize(n, 0.0);
    if r.p(0.3) {
        // exact symmetry: many keys tie
        let q = r.us(1, 4);
        let base = r.us(40, 60) as f64;
        let notes: Vec<f64> = (0..12 / q).map(|i| base + (i * q) as f64).collect();
        g.s = gen::chords(sr, n as f64 / sr as f64, &[notes], 100.0, 1, 1.0, 0.1);
        g.s.resize(n, 0.0);
    }
    let mut cfg = if r.p(0.3) { AnalysisConfig::default() } else { settings(&mut r).0 };
    if r.p(0.4) {
        cfg.enable_silence_trimming = false;
    }
    cfg.key_stft_frame_size = cfg.key_stft_frame_size.min(4096);
    if r.p(0.5) {
        cfg.key_segment_len_frames = 120;
        cfg.key_segment_hop_frames = 30;
        cfg.key_segment_min_clarity = 0.0;
    }
    cfg.emit_tempogram_candidates = true;
    (g, cfg)
}
fn call_digest(seed: u64) -> String {
    let (g, cfg) = call_of(seed);
    digest(&analyze_audio(&g.s, g.sr, cfg))
}
/// variant `v` of call `seed` (see calls.rs)
fn variant_of(seed: u64, v: u64) -> (gen::Sig, AnalysisConfig, String) {
    let (g, cfg) = call_of(seed);
    super::calls::variant(&g, &cfg, v)
}
/// `vmon digest CALL...`: digests of the given calls (SEED or SEED:VARIANT), made in this order by this process;
/// `vmon together CALL...`: each by a thread of its own, all released at once as the first thing the process does
pub fn digest_cmd(a: &[String], together: bool) -> i32 {
    let mut calls = vec![];
    for s in a {
        let (p, q) = s.split_once(':').unwrap_or((s, "0"));
        match (p.parse::<u64>(), q.parse::<u64>()) {
            (Ok(x), Ok(v)) => calls.push(variant_of(x, v)),
            _ => return 2,
        }
    }
    let out: Vec<String> = if together {
        let gate = Arc::new(Barrier::new(calls.len()));
        let hs: Vec<_> = calls
            .into_iter()
            .map(|(g, k, _)| {
                let gate = gate.clone();
                std::thread::spawn(move || {
                    gate.wait();
                    digest(&analyze_audio(&g.s, g.sr, k))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
    } else {
        calls.into_iter().map(|(g, k, _)| digest(&analyze_audio(&g.s, g.sr, k))).collect()
    };
    for (s, d) in a.iter().zip(out) {
        println!("{s} {d}");
    }
    0
}
fn child_calls(cmd: &str, calls: &[String]) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).arg(cmd).args(calls).output().map_err(|e| e.to_string())?;
    ensure_child(&o)?;
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.split_once(' ').map(|x| x.1.to_string()).unwrap_or_default()).collect();
    if v.len() != calls.len() {
        return Err(format!("child answered {} of {} calls", v.len(), calls.len()));
    }
    Ok(v)
}
fn child(seeds: &[u64]) -> Result<Vec<String>, String> {
    child_calls("digest", &seeds.iter().map(|s| s.to_string()).collect::<Vec<_>>())
}
/// a call and calls that differ from it in one respect: none of them may leak into another
fn a03_variants(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let k = c.rng.us(3, 7);
    let vs: Vec<u64> = std::iter::once(0).chain((0..k).map(|_| c.rng.u64() | 1)).collect();
    let calls: Vec<_> = vs.iter().map(|v| variant_of(seed, *v)).collect();
    let run = |i: usize| digest(&analyze_audio(&calls[i].0.s, calls[i].0.sr, calls[i].1.clone()));
    // in this process: the call, a variant, the call again, the next variant ...
    let mut here = vec![String::new(); vs.len()];
    here[0] = run(0);
    for i in 1..vs.len() {
        here[i] = run(i);
        let again = run(0);
        ensure!(again == here[0], "the call differs after its variant ({}) was analysed: {}: {}", calls[i].2, differ(&here[0], &again), calls[0].0.desc);
    }
    // each one alone in a process of its own
    for _ in 0..3 {
        let i = c.rng.us(0, vs.len() - 1);
        let a = child_calls("digest", &[format!("{seed}:{}", vs[i])])?;
        ensure!(a[0] == here[i], "{} alone in a new process differs from the same after the original call: {}: {}", calls[i].2, differ(&a[0], &here[i]), calls[0].0.desc);
    }
    // and in another order
    let mut order: Vec<usize> = (0..vs.len()).collect();
    c.rng.shuffle(&mut order);
    let v = child_calls("digest", &order.iter().map(|i| format!("{seed}:{}", vs[*i])).collect::<Vec<_>>())?;
    for (p, i) in order.iter().enumerate() {
        ensure!(v[p] == here[*i], "{} differs as call {p} of {order:?} in another process: {}: {}", calls[*i].2, differ(&here[*i], &v[p]), calls[0].0.desc);
    }
    c.ev("variant_calls", 3 * vs.len() as u64);
    c.ev("variants_that_change_the_result", here.iter().filter(|h| **h != here[0]).count() as u64);
    c.ev("processes", 4);
    for h in &here {
        c.seen(h);
    }
    c.sample(json!({"call": calls[0].0.desc, "variants": calls.iter().map(|x| x.2.clone()).collect::<Vec<_>>()}));
    Ok(())
}
fn ensure_child(o: &std::process::Output) -> R {
    ensure!(o.status.success(), "child process ended with {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>());
    Ok(())
}
fn a03(c: &mut Case) -> R {
    if c.idx % 10 == 9 {
        return a03_stages(c);
    }
    if c.idx % 3 == 1 {
        return a03_variants(c);
    }
    if c.idx == 3 {
        // a long history of one cheap call
        let s = c.rng.u64();
        let (g, mut cfg) = call_of(s);
        cfg.enable_key_stft_override = false;
        let s: Vec<f32> = g.s[..6000].to_vec();
        let d0 = digest(&analyze_audio(&s, g.sr, cfg.clone()));
        for i in 1..if c.tier_thorough { 5000 } else { 600 } {
            let d = digest(&analyze_audio(&s, g.sr, cfg.clone()));
            ensure!(d == d0, "repetition {i} of the same call differs: {}: {}", differ(&d0, &d), g.desc);
            c.ev("repetitions", 1);
        }
        return Ok(());
    }
    let k = c.rng.us(3, 6);
    let mut seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    // same audio shape under another configuration, and a repeated call
    let rep = *c.rng.pick(&seeds);
    seeds.push(rep);
    let here: Vec<String> = seeds.iter().map(|s| call_digest(*s)).collect();
    // alone in a process of its own
    let alone = c.rng.us(0, k);
    let d = |s: u64| call_of(s).0.desc;
    let a = child(&[seeds[alone]])?;
    ensure!(a[0] == here[alone], "call alone in a new process differs from call {alone} of {k}: {}: {}", differ(&a[0], &here[alone]), d(seeds[alone]));
    // another order in another process
    let mut order: Vec<usize> = (0..seeds.len()).collect();
    c.rng.shuffle(&mut order);
    let v = child(&order.iter().map(|i| seeds[*i]).collect::<Vec<_>>())?;
    for (p, i) in order.iter().enumerate() {
        ensure!(v[p] == here[*i], "call {i} differs when made as call {p} of {order:?} in another process: {}: {}", differ(&here[*i], &v[p]), d(seeds[*i]));
    }
    // again, here, in reverse order
    for i in (0..seeds.len()).rev() {
        let q = call_digest(seeds[i]);
        ensure!(q == here[i], "call {i} differs when repeated after others: {}: {}", differ(&here[i], &q), d(seeds[i]));
    }
    // the audio of one call under the settings of another, in between
    let (g0, c0) = call_of(seeds[0]);
    let (_, c1) = call_of(seeds[1]);
    let x = digest(&analyze_audio(&g0.s, g0.sr, c1.clone()));
    let y = digest(&analyze_audio(&g0.s, g0.sr, c0));
    ensure!(y == here[0], "call 0 differs after the same audio was analysed with other settings: {}: {}", differ(&here[0], &y), g0.desc);
    ensure!(x == digest(&analyze_audio(&g0.s, g0.sr, c1)), "same audio, other settings: differs when repeated: {}", g0.desc);
    c.ev("calls", 3 * seeds.len() as u64 + 4);
    c.ev("processes", 2);
    c.ev("results", here.iter().filter(|h| h.starts_with("AnalysisResult")).count() as u64);
    for h in &here {
        c.seen(h);
    }
    c.sample(json!({"calls": seeds.iter().map(|s| d(*s)).collect::<Vec<_>>(), "order_in_child": order}));
    Ok(())
}
/// stage functions on inputs full of ties: every repetition gives the same bits
fn a03_stages(c: &mut Case) -> R {
    use stratum_dsp::features::key::detector::detect_key_median;
    use stratum_dsp::features::key::{detect_key, detect_key_changes, detect_key_ensemble, KeyTemplates};
    let t = KeyTemplates::new();
    let reps = 12;
    for _ in 0..40 {
        // frames that vote for a few keys equally often
        let m = c.rng.us(2, 5);
        let protos: Vec<Vec<f32>> = (0..m).map(|_| {
            let k = c.rng.us(0, 11);
            (0..12).map(|i| if [0, 4, 7].contains(&((i + 12 - k) % 12)) { 1.0 } else { 0.0 }).collect()
        }).collect();
        let run = c.rng.us(1, 12);
        let v: Vec<Vec<f32>> = (0..m * c.rng.us(1, 4)).flat_map(|i| std::iter::repeat_n(protos[i % m].clone(), run)).collect();
        let once = || -> String {
            let a = detect_key(&v, &t).map(|r| format!("{:?} {} {:?}", r.key, r.confidence, r.all_scores)).unwrap_or_default();
            let b = detect_key_median(&v, &t, None, run, run, 1).map(|r| format!("{:?} {} {:?}", r.key, r.confidence, r.top_keys)).unwrap_or_default();
            let e = detect_key_ensemble(&v, None, 0.5, 0.5).map(|r| format!("{:?} {} {:?}", r.key, r.confidence, r.all_scores)).unwrap_or_default();
            let k = detect_key_changes(&v, 11025, 512, &t, run as f32 * 512.0 / 11025.0, 0.0).map(|r| format!("{:?} {:?}", r.primary_key, r.key_changes)).unwrap_or_default();
            format!("{a}|{b}|{e}|{k}")
        };
        let x = once();
        for _ in 0..reps {
            let y = once();
            ensure!(x == y, "key stages differ when repeated: {} (frames voting for {m} keys in turns of {run})", differ(&x, &y));
        }
        c.ev("stage_repetitions", reps as u64);
        c.seen(&x);
    }
    // onset-based tempo, voting, grid
    for _ in 0..10 {
        let sr = 22050;
        let (on, _) = gen::onset_train(&mut c.rng, sr, 12.0);
        let jit: Vec<usize> = on.iter().map(|p| p + 200).collect();
        let once = || -> String {
            use stratum_dsp::features::onset::consensus::{vote_onsets, OnsetConsensus};
            let v = vote_onsets(OnsetConsensus { energy_flux: on.clone(), spectral_flux: jit.clone(), hfc: on.clone(), hpss: vec![] }, [0.25; 4], 50, sr).map(|v| format!("{v:?}")).unwrap_or_default();
            let b = stratum_dsp::features::period::estimate_bpm(&on, sr, 512, 40.0, 240.0, 1.0).map(|b| format!("{b:?}")).unwrap_or_default();
            let s: Vec<f32> = on.iter().map(|p| *p as f32 / sr as f32).collect();
            let g = stratum_dsp::features::beat_tracking::generate_beat_grid(120.0, 0.5, &s, sr).map(|g| format!("{g:?}")).unwrap_or_default();
            format!("{v}|{b}|{g}")
        };
        let x = once();
        for _ in 0..4 {
            let y = once();
            ensure!(x == y, "onset stages differ when repeated: {} ({} onsets)", differ(&x, &y), on.len());
        }
        c.ev("stage_repetitions", 4);
        c.seen(&x);
    }
    Ok(())
}

// ---------------------------------------------------------------- A04
/// the first calls a process makes, all at once
fn a04_cold(c: &mut Case) -> R {
    let m = c.rng.us(1, 4);
    let base = c.rng.u64();
    let picks: Vec<(u64, u64)> = (0..m).map(|i| if c.idx % 2 == 0 { (base, if i == 0 { 0 } else { c.rng.u64() | 1 }) } else { (c.rng.u64(), 0) }).collect();
    let threads = c.rng.us(4, 12);
    let plan: Vec<usize> = (0..threads).map(|_| c.rng.us(0, m - 1)).collect();
    let got = child_calls("together", &plan.iter().map(|i| format!("{}:{}", picks[*i].0, picks[*i].1)).collect::<Vec<_>>())?;
    let want: Vec<String> = picks.iter().map(|(s, v)| { let (g, k, _) = variant_of(*s, *v); digest(&analyze_audio(&g.s, g.sr, k)) }).collect();
    for (t, i) in plan.iter().enumerate() {
        ensure!(got[t] == want[*i], "thread {t} of {threads}, as the first call of a process, differs from the call made alone: {}", differ(&want[*i], &got[t]));
    }
    c.ev("cold_processes", 1);
    c.ev("cold_concurrent_calls", threads as u64);
    want.iter().for_each(|w| c.seen(w));
    Ok(())
}
/// stage functions called in tight loops by many threads
fn a04_stages(c: &mut Case) -> R {
    let jobs = Arc::new(super::calls::stage_jobs(&mut c.rng));
    let n = jobs.len();
    let before = c.rng.p(0.5);
    let h = |i: usize| hash_bytes(jobs[i].1().as_bytes());
    let alone: Vec<u64> = if before { (0..n).map(h).collect() } else { vec![] };
    let threads = c.rng.us(4, 16);
    let rounds = if c.tier_thorough { 60 } else { 24 };
    // all kinds mixed, or one kind on every thread
    let kinds = n / 3;
    let one = if c.rng.p(0.6) { Some(c.rng.us(0, kinds - 1)) } else { None };
    let gate = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (jobs, gate) = (jobs.clone(), gate.clone());
            let plan: Vec<usize> = (0..rounds).map(|_| match one { Some(k) => k + kinds * c.rng.us(0, 2), None => c.rng.us(0, n - 1) }).collect();
            std::thread::spawn(move || {
                gate.wait();
                plan.into_iter().map(|i| (i, guarded(|| hash_bytes(jobs[i].1().as_bytes())))).collect::<Vec<_>>()
            })
        })
        .collect();
    let got: Vec<_> = hs.into_iter().map(|h| h.join().map_err(|_| "a thread of the check itself failed".to_string())).collect::<Result<Vec<_>, _>>()?;
    let alone: Vec<u64> = if before { alone } else { (0..n).map(h).collect() };
    for (t, v) in got.iter().enumerate() {
        for (i, r) in v {
            match r {
                Ok(x) => ensure!(*x == alone[*i], "stage '{}' called by thread {t} of {threads} differs from the same call made alone", jobs[*i].0),
                Err(p) => return Err(format!("stage '{}' called by thread {t} of {threads}: {p}", jobs[*i].0)),
            }
        }
    }
    c.ev("concurrent_stage_calls", (threads * rounds) as u64);
    alone.iter().for_each(|x| c.seen_h(*x));
    Ok(())
}
fn a04(c: &mut Case) -> R {
    match c.idx % 4 {
        1 => return a04_cold(c),
        2 => return a04_stages(c),
        _ => {}
    }
    let threads = c.rng.us(4, 16);
    let per = if c.tier_thorough { 6 } else { 4 };
    let m = c.rng.us(2, 6);
    let seeds: Vec<u64> = (0..m).map(|_| c.rng.u64()).collect();
    // unrelated calls, or one call and variants of it
    let vary = c.rng.p(0.4);
    let calls: Arc<Vec<(gen::Sig, AnalysisConfig)>> = Arc::new(seeds.iter().enumerate().map(|(i, s)| if vary { let v = variant_of(seeds[0], if i == 0 { 0 } else { *s | 1 }); (v.0, v.1) } else { call_of(*s) }).collect());
    if vary {
        c.ev("variant_groups", 1);
    }
    let want: Arc<Vec<String>> = Arc::new(calls.iter().map(|(g, k)| digest(&analyze_audio(&g.s, g.sr, k.clone()))).collect());
    let gate = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (calls, want, gate) = (calls.clone(), want.clone(), gate.clone());
            // all on one call, or each on its own
            let plan: Vec<usize> = (0..per).map(|_| c.rng.us(0, m - 1)).collect();
            let plan = if c.idx % 12 == 0 { vec![0; per] } else { plan };
            let nap = if c.rng.p(0.5) { c.rng.us(0, 800) } else { 0 };
            std::thread::spawn(move || -> Result<u64, String> {
                gate.wait();
                std::thread::sleep(std::time::Duration::from_micros(nap as u64));
                for i in plan {
                    let (g, k) = &calls[i];
                    let d = match guarded(|| digest(&analyze_audio(&g.s, g.sr, k.clone()))) {
                        Ok(d) => d,
                        Err(p) => return Err(format!("thread {t}: {p}: {}", g.desc)),
                    };
                    if d != want[i] {
                        return Err(format!("thread {t} of {threads}: call {i} differs from the call made alone: {}: {}", differ(&want[i], &d), g.desc));
                    }
                }
                Ok(per as u64)
            })
        })
        .collect();
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => c.ev("concurrent_calls", n),
            Ok(Err(m)) => err = Some(m),
            Err(_) => err = Some("a thread of the check itself failed".into()),
        }
    }
    if let Some(m) = err {
        return Err(m);
    }
    c.ev("threads", threads as u64);
    for w in want.iter() {
        c.seen(w);
    }
    c.sample(json!({"threads": threads, "calls_per_thread": per, "distinct_calls": m}));
    Ok(())
}

// ---------------------------------------------------------------- A05
fn a05(c: &mut Case) -> R {
    let t = track(&mut c.rng, 8.0);
    let (mut cfg, dc) = settings(&mut c.rng);
    cfg.enable_key_hpss_harmonic &= c.rng.p(0.3);
    cfg.emit_tempogram_candidates = true;
    // level and polarity
    cfg.enable_normalization = true;
    cfg.normalization = NormalizationMethod::Peak;
    let a = digest(&analyze_audio(&t.s, t.sr, cfg.clone()));
    let pk = t.s.iter().fold(0.0f32, |a, x| a.max(x.abs()));
    let low = t.s.iter().filter(|x| **x != 0.0).fold(f32::MAX, |a, x| a.min(x.abs()));
    let sg = if c.rng.p(0.5) { -1.0f32 } else { 1.0 };
    let e = c.rng.int(-12, 12) as i32;
    let g = 2f32.powi(e) * sg;
    // normalisation leaves a nearly silent buffer alone
    if pk * g.abs() > 1e-5 && pk > 1e-5 && low * g.abs() > 1e-30 && low > 1e-30 {
        let s: Vec<f32> = t.s.iter().map(|x| x * g).collect();
        let b = digest(&analyze_audio(&s, t.sr, cfg.clone()));
        ensure!(a == b, "scaling by {g} changes the analysis: {}: {} | {dc}", differ(&a, &b), t.desc);
        c.ev("scaled", 1);
        if sg < 0.0 {
            c.ev("inverted", 1);
        }
    }
    // preprocessing done beforehand
    cfg.normalization = *c.rng.pick(&[NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness]);
    cfg.enable_silence_trimming = true;
    let full = digest(&analyze_audio(&t.s, t.sr, cfg.clone()));
    match pl::preprocess(&t.s, t.sr, &cfg) {
        Ok(x) => {
            let mut off = cfg.clone();
            off.enable_normalization = false;
            off.enable_silence_trimming = false;
            let b = digest(&analyze_audio(&x, t.sr, off.clone()));
            ensure!(full == b, "analysis of the preprocessed signal differs: {}: {} | {dc}", differ(&full, &b), t.desc);
            // one step at a time
            off.enable_silence_trimming = true;
            let mut half = cfg.clone();
            half.enable_silence_trimming = false;
            let y = pl::preprocess(&t.s, t.sr, &half).map_err(|e| e.to_string())?;
            let b = digest(&analyze_audio(&y, t.sr, off));
            ensure!(full == b, "analysis of the normalised signal differs: {}: {} | {dc}", differ(&full, &b), t.desc);
            c.ev("preprocessed", 1);
            if x.len() != t.s.len() {
                c.ev("trimmed", 1);
            }
        }
        Err(e) => {
            ensure!(!full.starts_with("AnalysisResult"), "preprocessing fails with {e} but the analysis answers: {} | {dc}", t.desc);
            c.ev("rejected", 1);
        }
    }
    c.seen(&full);
    c.sample(json!({"input": t.desc, "settings": dc, "gain": g, "outcome": short(&full)}));
    Ok(())
}

// ---------------------------------------------------------------- A06
fn near(a: f32, b: f32) -> bool {
    close(a as f64, b as f64, 1e-4, 2e-5)
}
fn same_list(n: &str, a: &[f32], b: &[f32], d: &str) -> R {
    ensure!(a.len() == b.len(), "{} {n}, expected {}: {d}", a.len(), b.len());
    for (x, y) in a.iter().zip(b) {
        ensure!(near(*x, *y), "{n}: {x}, expected {y}: {d}");
    }
    Ok(())
}
fn same_tempo(r: &AnalysisResult, m: &pl::Model, d: &str) -> R {
    ensure!(near(r.bpm, m.bpm) && near(r.bpm_confidence, m.conf), "tempo {} ({}), expected {} ({}): {d}", r.bpm, r.bpm_confidence, m.bpm, m.conf);
    for (n, a, b) in [
        ("several resolutions considered", r.metadata.tempogram_multi_res_triggered, m.tempo.mr_trig),
        ("several resolutions used", r.metadata.tempogram_multi_res_used, m.tempo.mr_used),
        ("percussive considered", r.metadata.tempogram_percussive_triggered, m.tempo.p_trig),
        ("percussive used", r.metadata.tempogram_percussive_used, m.tempo.p_used),
    ] {
        ensure!(a == b, "{n}: {a:?}, expected {b:?}: {d}");
    }
    match (&r.metadata.tempogram_candidates, &m.tempo.cands) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "{} candidates, expected {}: {d}", a.len(), b.len());
            for (x, y) in a.iter().zip(b) {
                ensure!(near(x.bpm, y.bpm) && near(x.score, y.score) && near(x.fft_norm, y.fft_norm) && near(x.autocorr_norm, y.autocorr_norm) && x.selected == y.selected, "candidate {x:?}, expected {y:?}: {d}");
            }
        }
        (a, b) => return Err(format!("candidates listed: {}, expected {}: {d}", a.is_some(), b.is_some())),
    }
    Ok(())
}
fn same_key(r: &AnalysisResult, m: &pl::Model, d: &str) -> R {
    let k = &m.key;
    ensure!(near(r.key_confidence, k.confidence) && near(r.key_clarity, k.clarity), "key confidence {} clarity {}, expected {} and {} (route {}): {d}", r.key_confidence, r.key_clarity, k.confidence, k.clarity, k.route);
    let want = k.key.unwrap_or(Key::Major(0));
    let tie = k.scores.len() > 1 && k.scores[0].1 != k.scores[1].1 && near(k.scores[0].1, k.scores[1].1);
    ensure!(r.key == want || tie, "key {:?}, expected {want:?} (route {}): {d}", r.key, k.route);
    Ok(())
}
/// bring lengths and settings to where one frame more or less changes the route
fn on_the_edge(r: &mut Rng, t: &mut gen::Sig, c: &mut AnalysisConfig) -> String {
    c.enable_silence_trimming = false;
    c.enable_key_ensemble = false;
    c.enable_key_multi_scale = false;
    c.enable_key_edge_trim = false;
    c.enable_key_beat_synchronous = false;
    c.enable_key_stft_override = false;
    c.enable_key_hpss_harmonic = false;
    let (fs, hop) = (c.frame_size, c.hop_size);
    let frames = |n: usize| if n < fs { 0 } else { (n - fs) / hop + 1 };
    let set_frames = |t: &mut gen::Sig, k: usize, extra: usize| {
        let n = fs + (k - 1) * hop + extra;
        let m = t.s.len().max(1);
        let v: Vec<f32> = (0..n).map(|i| t.s[i % m]).collect();
        t.s = v;
    };
    let extra = *r.pick(&[0, 1, hop - 1, hop / 2]);
    match r.us(0, 5) {
        0 | 1 => {
            // the last segment ends exactly at the end, or misses it by one frame
            let k = r.us(130, 330);
            set_frames(t, k, extra);
            let len = r.us(120, k.min(200));
            let rest = k - len;
            let parts = r.us(1, 3);
            c.enable_key_segment_voting = true;
            c.key_segment_len_frames = len;
            c.key_segment_hop_frames = ((rest / parts).max(1) + r.us(0, 1)).max(1);
            c.key_segment_min_clarity = *r.pick(&[0.0, 0.0, 0.3]);
            format!("{k} frames, segments {len} every {}", c.key_segment_hop_frames)
        }
        2 => {
            let k = r.us(198, 202);
            set_frames(t, k, extra);
            c.enable_key_edge_trim = true;
            c.key_edge_trim_fraction = r.range(0.05, 0.4) as f32;
            format!("{k} frames, edge trim {}", c.key_edge_trim_fraction)
        }
        3 => {
            let k = r.us(200, 260);
            set_frames(t, k, extra);
            c.enable_key_edge_trim = true;
            let keep = r.us(47, 55) as f64;
            c.key_edge_trim_fraction = ((1.0 - keep / k as f64) / 2.0) as f32;
            format!("{k} frames, {keep} kept by the edge trim")
        }
        4 => {
            let k = r.us(60, 260);
            set_frames(t, k, extra);
            c.enable_key_multi_scale = true;
            let a = (k + 1).saturating_sub(r.us(0, 2));
            c.key_multi_scale_lengths = if r.p(0.5) { vec![a] } else { vec![a, r.us(20, 300)] };
            c.key_multi_scale_weights = vec![];
            c.key_multi_scale_hop = r.us(1, 60);
            c.key_multi_scale_min_clarity = 0.0;
            format!("{k} frames, scales {:?}", c.key_multi_scale_lengths)
        }
        _ => {
            let k = r.us(1, 8);
            set_frames(t, k, extra);
            if r.p(0.2) {
                t.s.truncate(fs - r.us(0, 1));
            }
            format!("{} samples, {} frames", t.s.len(), frames(t.s.len()))
        }
    }
}
/// The default configuration is the documented one (fields whose documentation and code agree).
fn documented_defaults() -> R {
    let d = AnalysisConfig::default();
    let is = |n: &str, ok: bool| if ok { Ok(()) } else { Err(format!("default of {n} is not the documented one")) };
    is("min_amplitude_db", d.min_amplitude_db == -40.0)?;
    is("normalization", matches!(d.normalization, NormalizationMethod::Peak))?;
    is("enable_normalization", d.enable_normalization)?;
    is("enable_silence_trimming", d.enable_silence_trimming)?;
    is("enable_onset_consensus", d.enable_onset_consensus)?;
    is("onset_threshold_percentile", d.onset_threshold_percentile == 0.80)?;
    is("onset_consensus_tolerance_ms", d.onset_consensus_tolerance_ms == 50)?;
    is("onset_consensus_weights", d.onset_consensus_weights == [0.25; 4])?;
    is("hpss onsets", !d.enable_hpss_onsets && d.hpss_margin == 10)?;
    is("tempo switches", !d.force_legacy_bpm && !d.enable_bpm_fusion && d.enable_legacy_bpm_guardrails)?;
    is("tempogram switches", d.enable_tempogram_multi_resolution && d.enable_tempogram_band_fusion && !d.emit_tempogram_candidates)?;
    is("bpm_resolution", d.bpm_resolution == 1.0)?;
    is("frame and hop", d.frame_size == 2048 && d.hop_size == 512)?;
    is("center_frequency", d.center_frequency == 440.0)?;
    is("chroma mapping", d.soft_chroma_mapping && d.soft_mapping_sigma == 0.5 && d.chroma_sharpening_power == 1.0)?;
    is("key smoothing", d.enable_key_spectrogram_time_smoothing && d.key_spectrogram_smooth_margin == 12)?;
    is("key frame weighting", d.enable_key_frame_weighting && d.key_tonalness_power == 2.0 && d.key_energy_power == 0.5)?;
    is("key harmonic mask", d.enable_key_harmonic_mask && d.key_harmonic_mask_power == 2.0)?;
    is("key hpss", !d.enable_key_hpss_harmonic && d.key_hpss_frame_step == 4 && d.key_hpss_time_margin == 8 && d.key_hpss_freq_margin == 8 && d.key_hpss_mask_power == 2.0)?;
    is("key stft", d.key_stft_frame_size == 8192 && d.key_stft_hop_size == 512)?;
    is("key variants", !(d.enable_key_log_frequency || d.enable_key_beat_synchronous || d.enable_key_multi_scale || d.enable_key_ensemble || d.enable_key_median))?;
    is("key segment voting", d.enable_key_segment_voting && d.key_segment_len_frames == 1024 && d.key_segment_hop_frames == 512 && d.key_segment_min_clarity == 0.20)?;
    is("hpcp", d.key_hpcp_peaks_per_frame == 24 && d.key_hpcp_num_harmonics == 4 && d.key_hpcp_harmonic_decay == 0.60 && d.key_hpcp_mag_power == 0.50)?;
    is("hpcp whitening", !d.enable_key_hpcp_whitening && d.key_hpcp_whitening_smooth_bins == 31)
}

fn a06(c: &mut Case) -> R {
    if c.idx == 0 {
        documented_defaults()?;
        c.ev("defaults", 1);
    }
    let mut t = if c.idx % 100 == 7 { c.ev("long_tracks", 1); long_track(&mut c.rng) } else { track(&mut c.rng, 10.0) };
    let (mut cfg, mut dc) = if c.rng.p(0.3) { tempo_settings(&mut c.rng) } else { settings(&mut c.rng) };
    cfg.enable_key_hpss_harmonic &= c.rng.p(0.5);
    if c.rng.p(0.3) {
        dc = format!("{dc} at the edge: {}", on_the_edge(&mut c.rng, &mut t, &mut cfg));
        c.ev("edge_cases", 1);
    }
    let d = format!("{} | {dc}", t.desc);
    let r = analyze_audio(&t.s, t.sr, cfg.clone());
    let none = stratum_dsp::BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] };
    let m = pl::run(&t.s, t.sr, &cfg, r.as_ref().map(|r| &r.beat_grid).unwrap_or(&none));
    let (r, m) = match (&r, &m) {
        (Ok(r), Ok(m)) => (r, m),
        (Err(a), Err(b)) => {
            ensure!(std::mem::discriminant(a) == std::mem::discriminant(b), "{a:?}, expected an error like {b:?}: {d}");
            c.ev("rejected", 1);
            return Ok(());
        }
        _ => return Err(format!("{}, the documented stages {}: {d}", short(&digest(&r)), if m.is_ok() { "answer" } else { "reject" })),
    };
    same_tempo(r, m, &d)?;
    same_list("beats", &r.beat_grid.beats, &m.grid.beats, &d)?;
    same_list("downbeats", &r.beat_grid.downbeats, &m.grid.downbeats, &d)?;
    same_list("bars", &r.beat_grid.bars, &m.grid.bars, &d)?;
    ensure!(near(r.grid_stability, m.stability), "stability {}, expected {}: {d}", r.grid_stability, m.stability);
    same_key(r, m, &d)?;
    ensure!(near(r.metadata.duration_seconds, m.n as f32 / t.sr as f32), "duration {}, expected {}: {d}", r.metadata.duration_seconds, m.n as f32 / t.sr as f32);
    let oc = if m.energy.is_empty() { 0.0 } else { 1.0 };
    ensure!(r.metadata.onset_method_consensus == oc, "onset consensus {}, expected {oc}: {d}", r.metadata.onset_method_consensus);
    let (w, f) = pl::warnings(r.bpm, r.grid_stability, r.key_confidence, r.key_clarity);
    ensure!(r.metadata.confidence_warnings.len() == w.len() && r.metadata.flags.len() == f.len(), "warnings {:?} flags {:?}, expected {w:?} {f:?}: {d}", r.metadata.confidence_warnings, r.metadata.flags);
    c.ev(&format!("key{}", m.key.route.rsplit('/').next().map(|x| format!("_{x}")).unwrap_or_default()), 1);
    if m.onsets != m.energy {
        c.ev("consensus_onsets", 1);
    }
    if m.tempo.est.is_none() && m.legacy.is_some() {
        c.ev("onset_based_tempo", 1);
    }
    for (n, v) in [("multi_res_considered", m.tempo.mr_trig), ("multi_res_used", m.tempo.mr_used), ("percussive_considered", m.tempo.p_trig), ("percussive_used", m.tempo.p_used)] {
        if v == Some(true) {
            c.ev(n, 1);
        }
    }
    if !m.grid.beats.is_empty() {
        c.ev("grids", 1);
    }
    c.seen_h(hash_bytes(format!("{}{:?}{}", m.key.route, m.tempo.mr_used, d).as_bytes()));
    c.sample(json!({"input": t.desc, "settings": dc, "key_route": m.key.route, "bpm": r.bpm, "key": r.key.name()}));
    Ok(())
}

// ---------------------------------------------------------------- A07
/// audio whose tempo sits where the escalation and validation rules change their mind
pub fn torn(r: &mut Rng, cfg: &mut AnalysisConfig) -> gen::Sig {
    let sr = *r.pick(&[8000u32, 8000, 11025, 11025, 16000, 22050]);
    let sure = r.p(0.25);
    let dur = if sure { r.lrange(0.06, 3.0) } else { r.range(3.0, 11.0) };
    let n = (dur * sr as f64) as usize;
    let mut s = vec![0.0f32; n];
    let bpm = match r.us(0, 5) {
        _ if dur < 0.5 => r.range(200.0, 900.0),
        0 => r.range(54.0, 81.0),
        1 => r.range(84.0, 101.0),
        2 => r.range(168.0, 202.0),
        3 => r.range(110.0, 165.0),
        _ => r.range(45.0, 220.0),
    };
    // a pulse with weaker pulses at related tempi, some of them with other sounds
    let ib = 60.0 / bpm * sr as f64;
    let off = r.range(0.0, ib);
    let layers = r.us(1, 3);
    for l in 0..layers {
        let f = if l == 0 { 1.0 } else { *r.pick(&[2.0, 0.5, 1.5, 3.0, 4.0 / 3.0, 2.0 / 3.0, 1.0]) };
        let (k, a) = (r.us(0, 5), if l == 0 { 0.8 } else { r.range(0.1, 0.8) });
        let mut at = off;
        while (at as usize) < n {
            gen::add_hit(&mut s, at as usize, sr, k, a * r.range(0.7, 1.0), r);
            at += ib / f;
        }
    }
    let mut desc = format!("torn {bpm:.1} bpm {layers} layers");
    if r.p(0.35) {
        // held chords change at a slow tempo, quiet hits run at a related one
        s.iter_mut().for_each(|x| *x *= 0.25);
        let slow = r.range(54.0, 81.0);
        let f = *r.pick(&[2.0, 2.0, 1.5, 4.0 / 3.0]);
        let len = (sr as f64 * 60.0 / slow) as usize;
        let mut at = 0;
        while at < n {
            let e = (at + len).min(n);
            for _ in 0..3 {
                gen::add_tone(&mut s, sr, at, e, gen::midi_hz(r.us(45, 75) as f64), 0.3, 5, 0.7);
            }
            at = e;
        }
        let (k, a, mut x) = (r.us(0, 5), r.range(0.05, 0.5), 0.0);
        while (x as usize) < n {
            gen::add_hit(&mut s, x as usize, sr, k, a, r);
            x += len as f64 / f;
        }
        if r.p(0.7) {
            cfg.enable_tempogram_multi_resolution = true;
            cfg.enable_tempogram_percussive_fallback = true;
            if r.p(0.6) {
                cfg.tempogram_multi_res_w1024 = 1.0;
                cfg.tempogram_multi_res_w256 = 0.0;
                cfg.tempogram_multi_res_structural_discount = 1.0;
            }
        }
        desc += &format!(" chords at {slow:.1} hits x{f:.2}");
    } else if r.p(0.35) {
        let notes = r.us(1, 3);
        let len = (sr as f64 * 60.0 / bpm * *r.pick(&[0.5, 1.0, 2.0])) as usize;
        for _ in 0..notes {
            let mut at = 0;
            while at < n {
                let e = (at + len.max(1)).min(n);
                gen::add_tone(&mut s, sr, at, e, gen::midi_hz(r.us(40, 72) as f64), 0.2, 4, 0.6);
                at = e;
            }
        }
        desc += " sustained";
    }
    if r.p(0.4) {
        let a = r.lrange(1e-3, 0.1);
        s.iter_mut().for_each(|x| *x += (a * r.gauss()) as f32);
        desc += " noisy";
    }
    if sure {
        // hardly any spectral tempo fits the range
        let b = r.range(45.0, 200.0);
        cfg.min_bpm = b as f32;
        cfg.max_bpm = (b + r.lrange(1.0, 60.0)) as f32;
        desc += &format!(" range {}..{}", cfg.min_bpm, cfg.max_bpm);
    }
    // separation into parts is the costly stage: small windows
    cfg.hpss_margin = r.us(1, 4);
    cfg.enable_hpss_onsets &= r.p(0.3);
    cfg.frame_size = *r.pick(&[256usize, 256, 512, 512, 1024]);
    cfg.hop_size = *r.pick(&[128usize, 200, 256, 256]);
    if sure {
        cfg.frame_size = *r.pick(&[64usize, 128, 256]);
        cfg.hop_size = cfg.frame_size / 2;
    }
    desc += &format!(" frame {} hop {} sr={sr} n={n}", cfg.frame_size, cfg.hop_size);
    gen::Sig { s, sr, desc }
}
fn a07(c: &mut Case) -> R {
    let (mut cfg, dc) = tempo_settings(&mut c.rng);
    let t = if c.rng.p(0.88) {
        torn(&mut c.rng, &mut cfg)
    } else {
        cfg.hpss_margin = cfg.hpss_margin.min(3);
        cfg.frame_size = cfg.frame_size.min(1024);
        cfg.hop_size = cfg.hop_size.clamp(256, cfg.frame_size);
        track(&mut c.rng, 7.0)
    };
    cfg.enable_key_hpcp = false;
    // as little key analysis as possible
    cfg.enable_key_harmonic_mask = false;
    cfg.enable_key_spectrogram_time_smoothing = false;
    cfg.enable_key_segment_voting = false;
    cfg.enable_key_multi_scale = false;
    cfg.enable_key_ensemble = false;
    cfg.enable_key_tuning_compensation = false;
    cfg.soft_chroma_mapping = false;
    cfg.force_legacy_bpm = false;
    cfg.enable_bpm_fusion = false;
    cfg.emit_tempogram_candidates = true;
    let d = format!("{} | {dc}", t.desc);
    let run = |f: &dyn Fn(&mut AnalysisConfig)| {
        let mut k = cfg.clone();
        f(&mut k);
        analyze_audio(&t.s, t.sr, k)
    };
    let Ok(m) = pl::run_tempo(&t.s, t.sr, &cfg) else {
        c.ev("rejected", 1);
        return Ok(());
    };
    for (n, v) in [("multi_res_considered", m.tempo.mr_trig), ("multi_res_used", m.tempo.mr_used), ("percussive_considered", m.tempo.p_trig), ("percussive_used", m.tempo.p_used)] {
        if v == Some(true) {
            c.ev(n, 1);
        }
    }
    let plain = run(&|_| {}).map_err(|e| format!("{e}: {d}"))?;
    let fused = run(&|k| k.enable_bpm_fusion = true).map_err(|e| format!("{e}: {d}"))?;
    let forced = run(&|k| k.force_legacy_bpm = true).map_err(|e| format!("{e}: {d}"))?;
    let both = run(&|k| {
        k.force_legacy_bpm = true;
        k.enable_bpm_fusion = true
    })
    .map_err(|e| format!("{e}: {d}"))?;
    same_tempo(&plain, &m, &d)?;
    // forced: the onset-based estimate, nothing else
    let l = m.legacy.as_ref().map(|e| (e.bpm, e.confidence)).unwrap_or((0.0, 0.0));
    for (n, r) in [("forced", &forced), ("forced and fused", &both)] {
        ensure!(near(r.bpm, l.0) && near(r.bpm_confidence, l.1), "{n}: tempo {} ({}), the onset-based estimate is {} ({}): {d}", r.bpm, r.bpm_confidence, l.0, l.1);
        ensure!(r.metadata.tempogram_candidates.is_none() && r.metadata.tempogram_multi_res_used.is_none(), "{n}: spectral diagnostics present: {d}");
    }
    match &m.tempo.est {
        Some(e) => {
            ensure!(near(plain.bpm, e.bpm) && near(plain.bpm_confidence, e.confidence), "tempo {} ({}), the spectral estimate is {} ({}): {d}", plain.bpm, plain.bpm_confidence, e.bpm, e.confidence);
            ensure!(near(fused.bpm, e.bpm) || e.bpm <= 0.0, "cross-validation reports {} for the spectral {}: {d}", fused.bpm, e.bpm);
            c.ev("spectral", 1);
        }
        None => {
            ensure!(near(plain.bpm, l.0) && near(plain.bpm_confidence, l.1), "without a spectral estimate: tempo {} ({}), the onset-based one is {} ({}): {d}", plain.bpm, plain.bpm_confidence, l.0, l.1);
            ensure!(near(fused.bpm, l.0) && near(fused.bpm_confidence, l.1), "without a spectral estimate, cross-validated: tempo {} ({}), the onset-based one is {} ({}): {d}", fused.bpm, fused.bpm_confidence, l.0, l.1);
            c.ev(if l.0 > 0.0 { "fallback" } else { "neither" }, 1);
        }
    }
    let mut fc = cfg.clone();
    fc.enable_bpm_fusion = true;
    let (fb, fk) = pl::select(&m.tempo.est, &m.legacy, &fc);
    ensure!(near(fused.bpm, fb) && near(fused.bpm_confidence, fk), "cross-validated tempo {} ({}), expected {fb} ({fk}), spectral {:?}, onset-based {:?}: {d}", fused.bpm, fused.bpm_confidence, m.tempo.est, m.legacy);
    for r in [&plain, &fused, &forced, &both] {
        ensure!(r.bpm > 0.0 || (r.bpm == 0.0 && r.bpm_confidence == 0.0), "tempo {} with confidence {}: {d}", r.bpm, r.bpm_confidence);
    }
    // escalation
    let single = run(&|k| k.enable_tempogram_multi_resolution = false).map_err(|e| format!("{e}: {d}"))?;
    if let Some(b) = &m.tempo.base {
        ensure!(near(single.bpm, b.bpm), "single-resolution tempo {}, expected {}: {d}", single.bpm, b.bpm);
        if cfg.enable_tempogram_multi_resolution {
            ensure!(single.bpm > 180.0 || plain.bpm <= 180.0, "escalation moved {} to {}: {d}", single.bpm, plain.bpm);
            if plain.bpm != single.bpm {
                c.ev("escalated", 1);
            }
            let (tr, us) = (plain.metadata.tempogram_multi_res_triggered, plain.metadata.tempogram_multi_res_used);
            ensure!(us != Some(true) || tr == Some(true), "several resolutions used but not considered: {d}");
            ensure!(us == Some(true) || plain.metadata.tempogram_percussive_used == Some(true) || plain.bpm == single.bpm, "tempo moved from {} to {} without escalation: {d}", single.bpm, plain.bpm);
        }
    }
    if fused.bpm_confidence > plain.bpm_confidence {
        c.ev("validated", 1);
    } else if fused.bpm_confidence < plain.bpm_confidence {
        c.ev("contradicted", 1);
    }
    c.seen(&d);
    c.sample(json!({"input": t.desc, "plain": plain.bpm, "fused_confidence": fused.bpm_confidence, "confidence": plain.bpm_confidence, "forced": forced.bpm, "single": single.bpm}));
    Ok(())
}

// ---------------------------------------------------------------- A08
fn a08(c: &mut Case) -> R {
    let mut t = track(&mut c.rng, 7.0);
    let (mut cfg, dc) = settings(&mut c.rng);
    cfg.enable_key_hpss_harmonic &= c.rng.p(0.2);
    if c.rng.p(0.4) {
        // settings under which key confidence spreads out
        cfg.enable_key_mode_heuristic = true;
        cfg.enable_key_minor_harmonic_bonus = c.rng.p(0.7);
        cfg.key_minor_leading_tone_bonus_weight = c.rng.lrange(0.01, 2.0) as f32;
        cfg.enable_key_segment_voting = c.rng.p(0.5);
        if c.rng.p(0.7) {
            // one or two notes and a strong leading-tone weight: confidence takes every value
            let n = (t.sr as f64 * c.rng.range(0.5, 3.0)) as usize;
            t.s = vec![0.0; n];
            for _ in 0..c.rng.us(1, 2) {
                let (m, a) = (c.rng.us(55, 90) as f64, c.rng.range(0.1, 0.5));
                gen::add_tone(&mut t.s, t.sr, 0, n, gen::midi_hz(m), a, c.rng.us(1, 2), 1.0);
            }
            t.desc = format!("held notes sr={} n={n}", t.sr);
            if c.rng.p(0.6) {
                cfg.key_minor_leading_tone_bonus_weight = c.rng.lrange(0.05, 20.0) as f32;
                cfg.enable_key_minor_harmonic_bonus = true;
            }
            cfg.enable_key_ensemble = false;
            cfg.enable_key_multi_scale = false;
        }
    }
    let d = format!("{} | {dc}", t.desc);
    let Ok(r) = analyze_audio(&t.s, t.sr, cfg.clone()) else {
        c.ev("rejected", 1);
        return Ok(());
    };
    let m = &r.metadata;
    let n = pl::preprocess(&t.s, t.sr, &cfg).map_err(|e| format!("{e}: {d}"))?.len();
    ensure!(close(m.duration_seconds as f64, n as f64 / t.sr as f64, 1e-6, 1e-9), "duration {}, {} samples at {} analysed: {d}", m.duration_seconds, n, t.sr);
    ensure!(m.sample_rate == t.sr, "sample rate {}, given {}: {d}", m.sample_rate, t.sr);
    ensure!(m.processing_time_ms.is_finite() && m.processing_time_ms >= 0.0, "processing time {}: {d}", m.processing_time_ms);
    ensure!(!m.algorithm_version.is_empty(), "no version: {d}");
    let (w, f) = pl::warnings(r.bpm, r.grid_stability, r.key_confidence, r.key_clarity);
    let class = |s: &str| {
        let s = s.to_lowercase();
        if s.contains("bpm") { 0 } else if s.contains("stability") { 1 } else if s.contains("clarity") { 3 } else if s.contains("key") && s.contains("confidence") { 2 } else { 9 }
    };
    let mut got: Vec<usize> = m.confidence_warnings.iter().map(|s| class(s)).collect();
    let mut want: Vec<usize> = w.iter().map(|s| class(s)).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "warnings {:?} for tempo {} stability {} key confidence {} clarity {}: {d}", m.confidence_warnings, r.bpm, r.grid_stability, r.key_confidence, r.key_clarity);
    for x in &m.confidence_warnings {
        let v = match class(x) { 1 => r.grid_stability, 2 => r.key_confidence, 3 => r.key_clarity, _ => continue };
        ensure!(x.contains(&format!("{v:.2}")), "warning {x:?} for the value {v}: {d}");
    }
    ensure!(format!("{:?}", m.flags) == format!("{f:?}"), "flags {:?}, expected {f:?}: {d}", m.flags);
    ensure!(m.tempogram_multi_res_used != Some(true) || m.tempogram_multi_res_triggered == Some(true), "several resolutions used but not triggered: {d}");
    ensure!(m.tempogram_percussive_used != Some(true) || m.tempogram_percussive_triggered == Some(true), "percussive part used but not triggered: {d}");
    ensure!(m.tempogram_percussive_triggered != Some(true) || m.tempogram_multi_res_triggered == Some(true), "percussive part triggered without ambiguity: {d}");
    if !cfg.enable_tempogram_multi_resolution || cfg.force_legacy_bpm {
        ensure!(m.tempogram_multi_res_triggered.is_none() && m.tempogram_percussive_triggered.is_none(), "escalation diagnostics although it is off: {d}");
    }
    ensure!(cfg.enable_tempogram_percussive_fallback || m.tempogram_percussive_used.is_none(), "percussive fallback marked although it is off: {d}");
    ensure!(cfg.emit_tempogram_candidates || m.tempogram_candidates.is_none(), "candidates listed although not asked for: {d}");
    if let Some(k) = &m.tempogram_candidates {
        if !cfg.enable_tempogram_multi_resolution {
            ensure!(k.len() <= cfg.tempogram_candidates_top_n, "{} candidates, {} asked for: {d}", k.len(), cfg.tempogram_candidates_top_n);
        }
    }
    for (i, on) in [r.bpm == 0.0, r.grid_stability < 0.5, r.key_confidence < 0.3, r.key_clarity < 0.2].into_iter().enumerate() {
        c.ev(&format!("{}{}", ["tempo", "stability", "key_confidence", "clarity"][i], if on { "_low" } else { "_fine" }), 1);
    }
    c.ev(&format!("clarity_{:.1}", (r.key_clarity * 10.0).floor() / 10.0), 1);
    c.ev(&format!("key_confidence_{:.1}", (r.key_confidence * 10.0).floor() / 10.0), 1);
    c.seen(&format!("{}{}{}{}", r.bpm, r.grid_stability, r.key_confidence, r.key_clarity));
    c.sample(json!({"input": t.desc, "warnings": m.confidence_warnings, "clarity": r.key_clarity, "key_confidence": r.key_confidence, "stability": r.grid_stability}));
    Ok(())
}

// ---------------------------------------------------------------- A09
fn a09(c: &mut Case) -> R {
    let r = &mut c.rng;
    let sr = *r.pick(&[44100u32, 48000]);
    let bpm = r.range(70.0, 160.0);
    let kind = r.us(0, 4);
    let dur = r.range(16.0, 20.0);
    let off = r.range(0.0, 1.0);
    let amp = r.lrange(0.05, 0.9);
    let (s, times) = gen::pulse(r, sr, dur, bpm, off, kind, amp);
    let d = format!("pulse {bpm:.3} bpm hit {kind} dur {dur:.1} offset {off:.3} level {amp:.3} sr {sr}");
    let whole = r.p(0.5);
    let x = analyze_audio(&s, sr, AnalysisConfig { enable_silence_trimming: !whole, ..AnalysisConfig::default() }).map_err(|e| format!("{e}: {d}"))?;
    let err = (x.bpm as f64 - bpm).abs();
    let mut worst = 0.0f64;
    let mut wi = 0.0f64;
    let g = &x.beat_grid.beats;
    if whole {
        for b in g {
            let near = times.iter().map(|t| (t - *b as f64).abs()).fold(f64::INFINITY, f64::min);
            worst = worst.max(near);
        }
    }
    let iv = 60.0 / x.bpm as f64;
    for w in g.windows(2) {
        let k = (w[1] - w[0]) as f64 / iv;
        wi = wi.max((k - k.round()).abs());
    }
    c.ev(&format!("hit_{}", ["click", "kick", "snare", "hat", "blip"][kind]), 1);
    c.ev(if err < 1.0 { "within_1_bpm" } else if err < 2.0 { "within_2_bpm" } else { "within_3_bpm" }, 1);
    c.ev("beats_checked", g.len() as u64);
    ensure!(err <= 3.0, "reported {} BPM for a steady pulse at {bpm:.3}: {d}", x.bpm);
    ensure!(!g.is_empty(), "no beats for a steady pulse: {d}");
    ensure!(worst <= 0.12, "a beat lies {worst:.3} s from the nearest pulse (tempo {}): {d}", x.bpm);
    ensure!(wi <= 0.27, "beats {wi:.2} of a beat off the reported tempo {}: {d}", x.bpm);
    c.sample(json!({"input": d, "bpm": x.bpm, "beats": g.len(), "worst_beat_distance_s": worst}));
    c.seen(&d);
    Ok(())
}

// ---------------------------------------------------------------- A10
/// (semitones moved, mode kept) between two keys
fn tonic(k: Key) -> (u32, bool) {
    match k {
        Key::Major(t) => (t, true),
        Key::Minor(t) => (t, false),
    }
}
fn a10(c: &mut Case) -> R {
    let r = &mut c.rng;
    let sr = *r.pick(&[44100u32, 48000]);
    let tri = |deg: usize, r: &mut Rng| -> Vec<f64> {
        let scale = [0.0, 2.0, 4.0, 5.0, 7.0, 9.0, 11.0, 12.0, 14.0, 16.0, 17.0, 19.0, 21.0];
        let mut v = vec![scale[deg], scale[deg + 2], scale[deg + 4]];
        v.push(0.0);
        if r.p(0.5) {
            v.push(-12.0);
        }
        v
    };
    let prog = r.us(0, 1);
    let degs: &[usize] = [&[0usize, 3, 4, 0][..], &[0, 5, 3, 4]][prog];
    let chords: Vec<Vec<f64>> = degs.iter().map(|d| tri(*d, r)).collect();
    let root = r.int(48, 72) as f64;
    let partials = r.us(1, 4);
    let rolloff = r.range(1.0, 2.5);
    let len = r.range(0.8, 1.6);
    let cents = r.range(-10.0, 10.0);
    let amp = r.lrange(0.02, 0.15);
    let cycles = 2.0;
    let mk = |shift: f64| -> Vec<f32> {
        let pr: Vec<Vec<f64>> = chords.iter().map(|ch| ch.iter().map(|n| n + root + shift + cents / 100.0).collect()).collect();
        gen::chords(sr, len * degs.len() as f64 * cycles, &pr, len, partials, rolloff, amp)
    };
    let d = format!("progression {prog} root {root} partials {partials} rolloff {rolloff:.2} chord {len:.2} s cents {cents:.1} level {amp:.3} sr {sr}");
    let x = analyze_audio(&mk(0.0), sr, AnalysisConfig::default()).map_err(|e| format!("{e}: {d}"))?;
    let n = r.int(1, 11) as f64 * if root > 60.0 { -1.0 } else { 1.0 };
    let y = analyze_audio(&mk(n), sr, AnalysisConfig::default()).map_err(|e| format!("{e}: {d}"))?;
    let (tx, mx) = tonic(x.key);
    let (ty, my) = tonic(y.key);
    let want = (root as u32) % 12;
    let rel = (tx + 12 - want) % 12;
    let rel2 = (ty as i64 - want as i64 - n as i64).rem_euclid(12);
    c.ev(&format!("tonic_{}", want), 1);
    c.ev(&format!("moved_by_{}", n), 1);
    ensure!(mx && rel == 0, "reported {} for a progression in {}: {d}", x.key.name(), Key::Major(want).name());
    ensure!(my && rel2 == 0, "reported {} for the same progression moved by {n} semitones from {}: {d}", y.key.name(), Key::Major(want).name());
    c.sample(json!({"input": d, "key": x.key.name(), "moved_by": n, "key_then": y.key.name(), "clarity": x.key_clarity}));
    c.seen(&d);
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "A01", quick: 10000, thorough: 60000, rule: "hostile buffers (lengths around the frame sizes, non-finite, huge and denormal samples, odd sample rates) with settings varied over switches and extreme numbers; distinct: each input/settings description", assumptions: &["settings are finite numbers and buffers fit in memory; tempo resolutions of at least 0.05 or not positive", "a call that takes more than 200 s counts as not answering (calls take milliseconds)"], min_nontrivial: 500, run: a01, serial: false, hang_is_violation: true },
        Spec { id: "A02", quick: 1500, thorough: 30000, rule: "synthetic music, noise, tones, hits and drift at six sample rates, all switches and numeric settings varied, some with narrow tempo ranges; non-trivial: a tempo or a tonal result; distinct by reported values", assumptions: &["finite audio at 8 to 48 kHz; settings inside their documented ranges"], min_nontrivial: 100, run: a02, serial: false, hang_is_violation: false },
        Spec { id: "A03", quick: 160, thorough: 1500, rule: "sequences of calls (few lengths, varied content and settings, exact ties) and of one call with variants that differ in a single setting or aspect of the audio, repeated in-process in other orders, in fresh processes alone and shuffled; stage functions on tie-rich inputs repeated; distinct by result", assumptions: &["same machine and binary"], min_nontrivial: 40, run: a03, serial: false, hang_is_violation: false },
        Spec { id: "A04", quick: 80, thorough: 400, rule: "4 to 16 threads released together, each making several calls (the same one, mixed, or variants differing in one setting), with random start delays; the first calls of fresh processes made all at once; stage functions in tight loops on all threads; each compared with the same call made alone; distinct by result", assumptions: &["interleavings are those the scheduler produced"], min_nontrivial: 20, run: a04, serial: true, hang_is_violation: false },
        Spec { id: "A05", quick: 200, thorough: 5000, rule: "audio and settings as for A02; the same audio scaled by a signed power of two, and the preprocessed signal with preprocessing off; distinct by result", assumptions: &["gains keep samples normal numbers and the peak above the level normalisation treats as silence"], min_nontrivial: 80, run: a05, serial: false, hang_is_violation: false },
        Spec { id: "A06", quick: 800, thorough: 16000, rule: "audio and settings as for A02, compared value by value with the public stages composed as documented; distinct by key route, escalation and input", assumptions: &["the stage functions themselves are judged by their own properties", "values compared to 1e-4; a key is not compared when the two best scores differ by less than rounding"], min_nontrivial: 200, run: a06, serial: false, hang_is_violation: false },
        Spec { id: "A07", quick: 1500, thorough: 30000, rule: "the same audio under the plain, cross-validated, forced and single-resolution tempo policies, against the stand-alone estimators; distinct by input and settings", assumptions: &["the stand-alone estimators are judged by B03, B06, B07"], min_nontrivial: 80, run: a07, serial: false, hang_is_violation: false },
        Spec { id: "A08", quick: 1500, thorough: 25000, rule: "audio and settings as for A02, half of them with settings that spread out the key confidence; distinct by the four values warnings depend on", assumptions: &["warnings are recognised by the quantity they name"], min_nontrivial: 100, run: a08, serial: false, hang_is_violation: false },
        Spec { id: "A09", quick: 500, thorough: 8000, rule: "steady pulses with five kinds of hit, tempo, offset, length, level and rate drawn at random, default settings, half without trimming so that beat times can be compared with the pulse; distinct by input", assumptions: &["identical hits, default settings; tempo may be off by the search tolerance of the default tempo grid (3 BPM)"], min_nontrivial: 80, run: a09, serial: false, hang_is_violation: false },
        Spec { id: "A10", quick: 300, thorough: 8000, rule: "I-IV-V-I and I-vi-IV-V triads over a held tonic, one to four partials, 25 roots, level, rate, chord length and tuning within 10 cents drawn at random, each analysed as is and transposed; distinct by input", assumptions: &["default settings; plain triads without sevenths or percussion over a held tonic (without it the analysis may name the dominant or the mediant)"], min_nontrivial: 80, run: a10, serial: false, hang_is_violation: false },
    ]
}
