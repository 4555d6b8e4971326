//! Executable model of the documented pipeline: the public stage functions, composed as
//! documented. The stages themselves are judged by their own properties.
use stratum_dsp::analysis::result::{AnalysisFlag, BeatGrid};
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::chroma::extractor as ex;
use stratum_dsp::features::chroma::normalization::sharpen_chroma;
use stratum_dsp::features::chroma::smoothing::smooth_chroma;
use stratum_dsp::features::key::{compute_key_clarity, detect_key_ensemble, detect_key_multi_scale, detect_key_weighted, detect_key_weighted_mode_heuristic, KeyTemplates};
use stratum_dsp::features::onset::consensus::{vote_onsets, OnsetConsensus};
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::{detect_hpss_onsets, hpss_decompose};
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::period::multi_resolution::multi_resolution_tempogram_from_samples;
use stratum_dsp::features::period::tempogram::{estimate_bpm_tempogram_with_candidates, estimate_bpm_tempogram_with_candidates_band_fusion, TempogramBandFusionConfig, TempogramCandidateDebug};
use stratum_dsp::features::period::{estimate_bpm, estimate_bpm_with_guardrails, BpmEstimate, LegacyBpmGuardrails};
use stratum_dsp::preprocessing::normalization::{normalize, NormalizationConfig};
use stratum_dsp::preprocessing::silence::{detect_and_trim, SilenceDetector};
use stratum_dsp::{AnalysisConfig, AnalysisError, Key};

pub type Spec2 = Vec<Vec<f32>>;
type E<T> = Result<T, AnalysisError>;

/// samples after level normalisation and trimming
pub fn preprocess(s: &[f32], sr: u32, c: &AnalysisConfig) -> E<Vec<f32>> {
    if s.is_empty() || sr == 0 {
        return Err(AnalysisError::InvalidInput(String::new()));
    }
    let mut x = s.to_vec();
    if c.enable_normalization {
        normalize(&mut x, NormalizationConfig { method: c.normalization, target_loudness_lufs: -14.0, max_headroom_db: 1.0 }, sr as f32)?;
    }
    if c.enable_silence_trimming {
        x = detect_and_trim(&x, sr, SilenceDetector { threshold_db: c.min_amplitude_db, min_duration_ms: 500, frame_size: c.frame_size })?.0;
    }
    if x.is_empty() {
        return Err(AnalysisError::ProcessingError(String::new()));
    }
    Ok(x)
}

/// (energy onsets, onsets used for the grid and the onset-based tempo)
pub fn onsets(x: &[f32], spec: &Spec2, sr: u32, c: &AnalysisConfig) -> E<(Vec<usize>, Vec<usize>)> {
    let energy = detect_energy_flux_onsets(x, c.frame_size, c.hop_size, -20.0)?;
    if !c.enable_onset_consensus || spec.is_empty() {
        return Ok((energy.clone(), energy));
    }
    let pos = |r: E<Vec<usize>>| -> Vec<usize> {
        let mut v: Vec<usize> = r.unwrap_or_default().into_iter().map(|f| f * c.hop_size).filter(|p| *p < x.len()).collect();
        v.sort();
        v.dedup();
        v
    };
    let p = c.onset_threshold_percentile;
    let cons = OnsetConsensus {
        energy_flux: energy.clone(),
        spectral_flux: pos(detect_spectral_flux_onsets(spec, p)),
        hfc: pos(detect_hfc_onsets(spec, sr, p)),
        hpss: if c.enable_hpss_onsets { pos(hpss_decompose(spec, c.hpss_margin).and_then(|(_, q)| detect_hpss_onsets(&q, p))) } else { vec![] },
    };
    let Ok(votes) = vote_onsets(cons, c.onset_consensus_weights, c.onset_consensus_tolerance_ms, sr) else {
        return Ok((energy.clone(), energy));
    };
    let pick = |min: u32| {
        let mut v: Vec<usize> = votes.iter().filter(|o| o.voted_by as u32 >= min).map(|o| o.time_samples).collect();
        v.sort();
        v.dedup();
        v
    };
    for m in [2, 0] {
        let v = pick(m);
        if !v.is_empty() {
            return Ok((energy, v));
        }
    }
    Ok((energy.clone(), energy))
}

pub fn legacy(on: &[usize], sr: u32, c: &AnalysisConfig) -> E<Option<BpmEstimate>> {
    if on.len() < 2 {
        return Ok(None);
    }
    if c.enable_legacy_bpm_guardrails {
        let g = LegacyBpmGuardrails {
            preferred_min: c.legacy_bpm_preferred_min,
            preferred_max: c.legacy_bpm_preferred_max,
            soft_min: c.legacy_bpm_soft_min,
            soft_max: c.legacy_bpm_soft_max,
            mul_preferred: c.legacy_bpm_conf_mul_preferred,
            mul_soft: c.legacy_bpm_conf_mul_soft,
            mul_extreme: c.legacy_bpm_conf_mul_extreme,
        };
        estimate_bpm_with_guardrails(on, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution, g)
    } else {
        estimate_bpm(on, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution)
    }
}

pub fn bands(c: &AnalysisConfig) -> TempogramBandFusionConfig {
    TempogramBandFusionConfig {
        enabled: c.enable_tempogram_band_fusion,
        low_max_hz: c.tempogram_band_low_max_hz,
        mid_max_hz: c.tempogram_band_mid_max_hz,
        high_max_hz: c.tempogram_band_high_max_hz,
        w_full: c.tempogram_band_w_full,
        w_low: c.tempogram_band_w_low,
        w_mid: c.tempogram_band_w_mid,
        w_high: c.tempogram_band_w_high,
        seed_only: c.tempogram_band_seed_only,
        support_threshold: c.tempogram_band_support_threshold,
        consensus_bonus: c.tempogram_band_consensus_bonus,
        enable_mel: c.enable_tempogram_mel_novelty,
        mel_n_mels: c.tempogram_mel_n_mels,
        mel_fmin_hz: c.tempogram_mel_fmin_hz,
        mel_fmax_hz: c.tempogram_mel_fmax_hz,
        mel_max_filter_bins: c.tempogram_mel_max_filter_bins,
        w_mel: c.tempogram_mel_weight,
        novelty_w_spectral: c.tempogram_novelty_w_spectral,
        novelty_w_energy: c.tempogram_novelty_w_energy,
        novelty_w_hfc: c.tempogram_novelty_w_hfc,
        novelty_local_mean_window: c.tempogram_novelty_local_mean_window,
        novelty_smooth_window: c.tempogram_novelty_smooth_window,
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: c.debug_top_n,
        superflux_max_filter_bins: c.tempogram_superflux_max_filter_bins,
    }
}
fn spectral_one(spec: &Spec2, sr: u32, c: &AnalysisConfig, n: usize) -> E<(BpmEstimate, Vec<TempogramCandidateDebug>)> {
    let aux = c.enable_tempogram_band_fusion || c.enable_tempogram_mel_novelty || c.tempogram_band_consensus_bonus > 0.0;
    let h = c.hop_size as u32;
    if aux {
        estimate_bpm_tempogram_with_candidates_band_fusion(spec, sr, h, c.min_bpm, c.max_bpm, c.bpm_resolution, n, bands(c))
    } else {
        estimate_bpm_tempogram_with_candidates(spec, sr, h, c.min_bpm, c.max_bpm, c.bpm_resolution, n)
    }
}
fn related(a: f32, b: f32) -> bool {
    let r = if a > 1e-6 { (b / a).max(a / b) } else { 1.0 };
    [2.0f32, 1.5, 4.0 / 3.0].iter().any(|x| (r - x).abs() < 0.05)
}

#[derive(Default, Clone)]
pub struct Tempo {
    pub est: Option<BpmEstimate>,
    pub base: Option<BpmEstimate>,
    pub cands: Option<Vec<TempogramCandidateDebug>>,
    pub mr_trig: Option<bool>,
    pub mr_used: Option<bool>,
    pub p_trig: Option<bool>,
    pub p_used: Option<bool>,
}
pub fn spectral(x: &[f32], spec: &Spec2, sr: u32, c: &AnalysisConfig) -> Tempo {
    let mut t = Tempo::default();
    if c.force_legacy_bpm || spec.is_empty() {
        return t;
    }
    if !c.enable_tempogram_multi_resolution {
        // the candidate list never changes the estimate
        if let Ok((e, k)) = spectral_one(spec, sr, c, if c.emit_tempogram_candidates { c.tempogram_candidates_top_n } else { 1 }) {
            t.base = Some(e.clone());
            t.est = Some(e);
            if c.emit_tempogram_candidates {
                t.cands = Some(k);
            }
        }
        return t;
    }
    let n = c.tempogram_candidates_top_n.max(c.tempogram_multi_res_top_k).max(10);
    let Ok((base, bc)) = spectral_one(spec, sr, c, n) else {
        return t;
    };
    let tol = c.bpm_resolution.max(2.0);
    let sup = |b: f32| bc.iter().filter(|k| (k.bpm - b).abs() <= tol).fold(0.0f32, |a, k| a.max(k.score));
    let low = (55.0..=80.0).contains(&base.bpm);
    let high = (170.0..=200.0).contains(&base.bpm);
    let s0 = sup(base.bpm);
    let rival = [2.0f32, 0.5].iter().any(|m| {
        let s = sup(base.bpm * m);
        s > 0.0 && s >= s0 * 0.9
    });
    let weak = base.method_agreement == 0 || base.confidence < 0.06;
    let ambiguous = low || high || rival || (weak && (170.0..=200.0).contains(&(base.bpm * 2.0)));
    let mut est = base.clone();
    let mut cands = bc;
    let mut used = false;
    if ambiguous {
        if let Ok((m, mc)) = multi_resolution_tempogram_from_samples(
            x, sr, c.frame_size, c.min_bpm, c.max_bpm, c.bpm_resolution, c.tempogram_multi_res_top_k,
            c.tempogram_multi_res_w512, c.tempogram_multi_res_w256, c.tempogram_multi_res_w1024,
            c.tempogram_multi_res_structural_discount, c.tempogram_multi_res_double_time_512_factor,
            c.tempogram_multi_res_margin_threshold, c.tempogram_multi_res_use_human_prior, Some(bands(c)),
        ) {
            let promote = base.bpm <= 180.0 && m.bpm > 180.0;
            let ok = m.confidence >= base.confidence + 0.05
                || (m.method_agreement > base.method_agreement && m.confidence >= base.confidence * 0.9)
                || ((low || high) && related(base.bpm, m.bpm) && m.confidence >= base.confidence * 0.88 && ((70.0..=180.0).contains(&m.bpm) || base.bpm > 180.0));
            if !promote && ok {
                est = m;
                cands = mc;
                used = true;
            }
        }
    }
    t.mr_trig = Some(ambiguous);
    t.mr_used = Some(used);
    t.p_trig = Some(ambiguous && low);
    if c.enable_tempogram_percussive_fallback {
        let mut p_used = false;
        if ambiguous && low {
            if let Ok((p, pc)) = hpss_decompose(spec, c.hpss_margin).and_then(|(_, p)| spectral_one(&p, sr, c, n)) {
                let promote = est.bpm <= 180.0 && p.bpm > 180.0;
                let ok = p.confidence >= est.confidence + 0.04 || p.confidence >= est.confidence * 0.85 || (p.method_agreement > est.method_agreement && p.confidence >= est.confidence * 0.92);
                if !promote && related(est.bpm, p.bpm) && (70.0..=180.0).contains(&p.bpm) && ok {
                    est = p;
                    cands = pc;
                    p_used = true;
                }
            }
        }
        t.p_used = Some(p_used);
    }
    t.base = Some(base);
    t.est = Some(est);
    if c.emit_tempogram_candidates {
        t.cands = Some(cands);
    }
    t
}
/// reported tempo and confidence
pub fn select(t: &Option<BpmEstimate>, l: &Option<BpmEstimate>, c: &AnalysisConfig) -> (f32, f32) {
    let of = |e: &Option<BpmEstimate>| e.as_ref().map(|e| (e.bpm, e.confidence));
    if c.force_legacy_bpm {
        return of(l).unwrap_or((0.0, 0.0));
    }
    if !c.enable_bpm_fusion {
        return of(t).or(of(l)).unwrap_or((0.0, 0.0));
    }
    match of(t) {
        Some((b, k)) if b > 0.0 => {
            let k = k.clamp(0.0, 1.0);
            let (lb, lk) = of(l).unwrap_or((0.0, 0.0));
            if lb <= 0.0 {
                return (b, k);
            }
            let agree = [b, b * 0.5, b * 2.0, b * (2.0 / 3.0), b * (3.0 / 2.0)].iter().any(|x| (lb - x).abs() <= 2.0);
            (b, if agree { (k + 0.12 * lk.clamp(0.0, 1.0)).clamp(0.0, 1.0) } else { (k * 0.9).clamp(0.0, 1.0) })
        }
        _ => of(l).unwrap_or((0.0, 0.0)),
    }
}
/// `way`: how the onset times in seconds are rounded (the grid can turn on their last bit)
pub fn grid(on: &[usize], bpm: f32, conf: f32, sr: u32, way: u32) -> (BeatGrid, f32) {
    let empty = || (BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] }, 0.0);
    if !(bpm > 0.0) || on.len() < 2 {
        return empty();
    }
    let t: Vec<f32> = on
        .iter()
        .map(|p| match way {
            0 => *p as f32 / sr as f32,
            1 => *p as f32 * (1.0 / sr as f32),
            _ => (*p as f64 / sr as f64) as f32,
        })
        .collect();
    generate_beat_grid(bpm, conf, &t, sr).unwrap_or_else(|_| empty())
}

#[derive(Default, Clone)]
pub struct KeyOut {
    pub key: Option<Key>,
    pub confidence: f32,
    pub clarity: f32,
    pub scores: Vec<(Key, f32)>,
    pub route: String,
}
fn tonal(v: &[f32]) -> f32 {
    let s: f32 = v.iter().sum();
    if s <= 1e-12 {
        return 0.0;
    }
    let h: f32 = v.iter().map(|x| x / s).filter(|p| *p > 1e-12).fold(0.0, |a, p| a - p * p.ln());
    (1.0 - h / 12f32.ln()).clamp(0.0, 1.0)
}
pub fn key(x: &[f32], spec: &Spec2, beats: &[f32], sr: u32, c: &AnalysisConfig) -> E<KeyOut> {
    let mut o = KeyOut { route: "none".into(), ..Default::default() };
    if x.len() < c.frame_size {
        return Ok(o);
    }
    let (fs, hop) = if c.enable_key_stft_override { (c.key_stft_frame_size.max(256), c.key_stft_hop_size.max(1)) } else { (c.frame_size, c.hop_size) };
    let raw: Spec2 = if c.enable_key_stft_override { ex::compute_stft(x, fs, hop).unwrap_or_else(|_| spec.clone()) } else { spec.clone() };
    let s = if raw.is_empty() {
        raw.clone()
    } else if c.enable_key_hpss_harmonic {
        o.route = "hpss".into();
        ex::harmonic_spectrogram_hpss_median_mask(&raw, sr, fs, 100.0, 5000.0, c.key_hpss_frame_step, c.key_hpss_time_margin, c.key_hpss_freq_margin, c.key_hpss_mask_power).unwrap_or(raw)
    } else if c.enable_key_harmonic_mask {
        o.route = "mask".into();
        ex::harmonic_spectrogram_time_mask(&raw, c.key_spectrogram_smooth_margin, c.key_harmonic_mask_power).unwrap_or(raw)
    } else if c.enable_key_spectrogram_time_smoothing {
        o.route = "smooth".into();
        ex::smooth_spectrogram_time(&raw, c.key_spectrogram_smooth_margin).unwrap_or(raw)
    } else {
        o.route = "raw".into();
        raw
    };
    let log = if c.enable_key_log_frequency && !s.is_empty() { ex::convert_linear_to_log_frequency_spectrogram(&s, sr, fs, 100.0, 5000.0).ok() } else { None };
    let tune = if c.enable_key_tuning_compensation && !s.is_empty() && log.is_none() {
        let m = c.key_tuning_max_abs_semitones.abs();
        ex::estimate_tuning_offset_semitones_from_spectrogram(&s, sr, fs, 80.0, 2000.0, c.key_tuning_frame_step, c.key_tuning_peak_rel_threshold).map(|d| d.clamp(-m, m)).unwrap_or(0.0)
    } else {
        0.0
    };
    let call = if let Some(l) = &log {
        o.route += "/log";
        let off = (12.0 * (100.0f32 / 440.0).log2() + 57.0).floor() as i32;
        ex::extract_chroma_from_log_frequency_spectrogram(l, off).map(|v| (v, l.iter().map(|f| f.iter().map(|x| x * x).sum()).collect()))
    } else if c.enable_key_beat_synchronous && !beats.is_empty() {
        o.route += "/beat";
        ex::extract_beat_synchronous_chroma(&s, sr, fs, hop, beats, c.soft_chroma_mapping, c.soft_mapping_sigma, tune)
    } else if c.enable_key_hpcp && c.enable_key_hpcp_bass_blend {
        o.route += "/bass";
        ex::extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(
            &s, sr, fs, c.soft_mapping_sigma, tune, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
            c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins, c.key_hpcp_bass_fmin_hz, c.key_hpcp_bass_fmax_hz, c.key_hpcp_bass_weight,
        )
    } else if c.enable_key_hpcp {
        o.route += "/hpcp";
        ex::extract_hpcp_from_spectrogram_with_options_and_energy_tuned(
            &s, sr, fs, c.soft_mapping_sigma, tune, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
            c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins,
        )
    } else if tune.abs() > 1e-6 {
        o.route += "/tuned";
        ex::extract_chroma_from_spectrogram_with_options_and_energy_tuned(&s, sr, fs, c.soft_chroma_mapping, c.soft_mapping_sigma, tune)
    } else {
        o.route += "/chroma";
        ex::extract_chroma_from_spectrogram_with_options_and_energy(&s, sr, fs, c.soft_chroma_mapping, c.soft_mapping_sigma)
    };
    let Ok((mut ch, en)) = call else {
        o.route += "/failed";
        return Ok(o);
    };
    if c.chroma_sharpening_power > 1.0 {
        ch = ch.iter().map(|v| sharpen_chroma(v, c.chroma_sharpening_power)).collect();
    }
    if ch.len() > 5 {
        ch = smooth_chroma(&ch, 5);
    }
    let (mut a, mut b) = (0, ch.len());
    let n = ch.len();
    if c.enable_key_edge_trim && n == en.len() && n >= 200 {
        let f = c.key_edge_trim_fraction.clamp(0.0, 0.49);
        let (p, q) = ((n as f32 * f).round() as usize, (n as f32 * (1.0 - f)).round() as usize);
        if q > p + 50 && q <= n {
            (a, b) = (p, q);
            o.route += "/trim";
        }
    }
    let eb = if (a, b) == (0, n) { en.len() } else { b };
    let (ch, en) = (&ch[a..b], &en[a..eb]);
    let mut w: Option<Vec<f32>> = None;
    if c.enable_key_frame_weighting && !en.is_empty() && en.len() == ch.len() {
        let mut srt = en.to_vec();
        srt.sort_by(f32::total_cmp);
        let med = srt[srt.len() / 2].max(1e-12);
        let v: Vec<f32> = ch
            .iter()
            .zip(en)
            .map(|(f, e)| {
                let t = tonal(f);
                let t = if t < c.key_min_tonalness { 0.0 } else { t };
                (t.powf(c.key_tonalness_power.max(0.0)) * (e / med).max(0.0).powf(c.key_energy_power.max(0.0))).max(0.0)
            })
            .collect();
        if v.iter().sum::<f32>() > 1e-12 && v.iter().filter(|x| **x > 0.0).count() >= 10 {
            w = Some(v);
            o.route += "/weighted";
        }
    }
    let w = w.as_deref();
    let t = KeyTemplates::new_with_template_set(c.key_template_set);
    let ratio = if c.enable_key_mode_heuristic { c.key_mode_flip_min_score_ratio } else { 0.0 };
    let one = |f: &[Vec<f32>], w: Option<&[f32]>| {
        if c.enable_key_mode_heuristic || c.enable_key_minor_harmonic_bonus {
            detect_key_weighted_mode_heuristic(f, &t, w, c.key_mode_third_ratio_margin, ratio, c.enable_key_minor_harmonic_bonus, c.key_minor_leading_tone_bonus_weight)
        } else {
            detect_key_weighted(f, &t, w)
        }
    };
    let seg_len = c.key_segment_len_frames;
    let (key, conf, scores) = if c.enable_key_ensemble {
        o.route += "/ensemble";
        match detect_key_ensemble(ch, w, c.key_ensemble_kk_weight, c.key_ensemble_temperley_weight) {
            Ok(r) => (r.key, r.confidence, r.all_scores),
            Err(_) => return Ok(o),
        }
    } else if c.enable_key_multi_scale && !c.key_multi_scale_lengths.is_empty() && ch.len() >= *c.key_multi_scale_lengths.iter().min().unwrap() {
        o.route += "/multi";
        let sw = if c.key_multi_scale_weights.is_empty() { None } else { Some(&c.key_multi_scale_weights[..]) };
        match detect_key_multi_scale(
            ch, &t, w, &c.key_multi_scale_lengths, c.key_multi_scale_hop.max(1), c.key_multi_scale_min_clarity.clamp(0.0, 1.0), sw,
            c.enable_key_mode_heuristic, c.key_mode_third_ratio_margin, ratio, c.enable_key_minor_harmonic_bonus, c.key_minor_leading_tone_bonus_weight,
        ) {
            Ok(r) => (r.key, r.confidence, r.all_scores),
            Err(_) => return Ok(o),
        }
    } else if c.enable_key_segment_voting && seg_len >= 120 && c.key_segment_hop_frames >= 1 && ch.len() >= seg_len {
        o.route += "/segments";
        let hop = c.key_segment_hop_frames.min(seg_len).max(1);
        let mut acc: Vec<(Key, f32)> = (0..12).map(Key::Major).chain((0..12).map(Key::Minor)).map(|k| (k, 0.0)).collect();
        let mut used = 0;
        for st in (0..=ch.len() - seg_len).step_by(hop) {
            let r = one(&ch[st..st + seg_len], w.map(|w| &w[st..st + seg_len]))?;
            let cl = compute_key_clarity(&r.all_scores);
            if cl >= c.key_segment_min_clarity.clamp(0.0, 1.0) {
                used += 1;
                for (k, v) in &r.all_scores {
                    acc.iter_mut().find(|x| x.0 == *k).unwrap().1 += v * cl;
                }
            }
        }
        if used == 0 {
            o.route += "/whole";
            match one(ch, w) {
                Ok(r) => (r.key, r.confidence, r.all_scores),
                Err(_) => return Ok(o),
            }
        } else {
            acc.sort_by(|a, b| b.1.total_cmp(&a.1));
            let k = if acc[0].1 > 0.0 { ((acc[0].1 - acc[1].1) / acc[0].1).clamp(0.0, 1.0) } else { 0.0 };
            (acc[0].0, k, acc)
        }
    } else {
        o.route += if c.enable_key_mode_heuristic || c.enable_key_minor_harmonic_bonus { "/heuristic" } else { "/plain" };
        match one(ch, w) {
            Ok(r) => (r.key, r.confidence, r.all_scores),
            Err(_) => return Ok(o),
        }
    };
    o.key = Some(key);
    o.confidence = conf;
    o.clarity = compute_key_clarity(&scores);
    o.scores = scores;
    Ok(o)
}

pub struct Model {
    pub n: usize,
    pub energy: Vec<usize>,
    pub onsets: Vec<usize>,
    pub legacy: Option<BpmEstimate>,
    pub tempo: Tempo,
    pub bpm: f32,
    pub conf: f32,
    pub grid: BeatGrid,
    pub stability: f32,
    pub key: KeyOut,
}
pub fn run_tempo(s: &[f32], sr: u32, c: &AnalysisConfig) -> E<Model> {
    run_parts(s, sr, c, false, &BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] })
}
/// `reported`: the grid of the analysis; where it agrees with the beats found here up to rounding its beats are used for
/// the beat-synchronous key, because a beat on a frame start is decided by the last bit
pub fn run(s: &[f32], sr: u32, c: &AnalysisConfig, reported: &BeatGrid) -> E<Model> {
    run_parts(s, sr, c, true, reported)
}
fn run_parts(s: &[f32], sr: u32, c: &AnalysisConfig, with_key: bool, reported: &BeatGrid) -> E<Model> {
    let x = preprocess(s, sr, c)?;
    // errors surface in the documented order: onsets before the spectrum
    detect_energy_flux_onsets(&x, c.frame_size, c.hop_size, -20.0)?;
    let spec = ex::compute_stft(&x, c.frame_size, c.hop_size)?;
    let (energy, on) = onsets(&x, &spec, sr, c)?;
    let leg = legacy(&on, sr, c)?;
    let tempo = spectral(&x, &spec, sr, c);
    let (bpm, conf) = select(&tempo.est, &leg, c);
    let same = |g: &BeatGrid| {
        let eq = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-6 * (1.0 + b.abs()));
        eq(&reported.beats, &g.beats) && eq(&reported.downbeats, &g.downbeats)
    };
    let (mut g, mut stability) = grid(&on, bpm, conf, sr, 0);
    if with_key && !same(&g) {
        for way in 1..3 {
            let o = grid(&on, bpm, conf, sr, way);
            if same(&o.0) {
                (g, stability) = o;
                break;
            }
        }
    }
    let beats = if same(&g) { &reported.beats[..] } else { &g.beats[..] };
    let k = if with_key { key(&x, &spec, beats, sr, c)? } else { KeyOut { key: None, confidence: 0.0, clarity: 0.0, scores: vec![], route: String::new() } };
    Ok(Model { n: x.len(), energy, onsets: on, legacy: leg, tempo, bpm, conf, grid: g, stability, key: k })
}
/// warnings and flags that follow from the reported values
pub fn warnings(bpm: f32, stability: f32, key_conf: f32, clarity: f32) -> (Vec<String>, Vec<AnalysisFlag>) {
    let mut w = vec![];
    let mut f = vec![];
    if bpm == 0.0 {
        w.push("BPM detection failed: insufficient onsets or estimation error".to_string());
    }
    if stability < 0.5 {
        w.push(format!("Low beat grid stability: {stability:.2} (may indicate tempo variation)"));
    }
    if key_conf < 0.3 {
        w.push(format!("Low key detection confidence: {key_conf:.2} (may indicate ambiguous or atonal music)"));
    }
    if clarity < 0.2 {
        w.push(format!("Low key clarity: {clarity:.2} (track may be atonal or have weak tonality)"));
        f.push(AnalysisFlag::WeakTonality);
    }
    (w, f)
}
