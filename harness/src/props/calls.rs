//! Calls that differ from another call in one respect only, and stage functions hammered together:
//! workloads for the history (A03) and concurrency (A04) monitors.
use super::pipeline as pl;
use crate::gen;
use crate::rng::Rng;
use stratum_dsp::AnalysisConfig;

macro_rules! fields {
    ($($f:ident),* $(,)?) => {
        pub const FIELDS: &[&str] = &[$(stringify!($f)),*];
        /// give `a` the value `b` has for field number `i`
        pub fn copy_field(a: &mut AnalysisConfig, b: &AnalysisConfig, i: usize) {
            let mut k = 0;
            $( if k == i { a.$f = b.$f.clone(); } k += 1; )*
            let _ = k;
        }
    };
}
fields!(
    min_amplitude_db, normalization, enable_normalization, enable_silence_trimming, enable_onset_consensus, onset_threshold_percentile,
    onset_consensus_tolerance_ms, onset_consensus_weights, enable_hpss_onsets, hpss_margin, force_legacy_bpm, enable_bpm_fusion,
    enable_legacy_bpm_guardrails, enable_tempogram_multi_resolution, tempogram_multi_res_top_k, tempogram_multi_res_w512, tempogram_multi_res_w256,
    tempogram_multi_res_w1024, tempogram_multi_res_structural_discount, tempogram_multi_res_double_time_512_factor,
    tempogram_multi_res_margin_threshold, tempogram_multi_res_use_human_prior, enable_tempogram_percussive_fallback, enable_tempogram_band_fusion,
    tempogram_band_low_max_hz, tempogram_band_mid_max_hz, tempogram_band_high_max_hz, tempogram_band_w_full, tempogram_band_w_low,
    tempogram_band_w_mid, tempogram_band_w_high, tempogram_band_seed_only, tempogram_band_support_threshold, tempogram_band_consensus_bonus,
    tempogram_novelty_w_spectral, tempogram_novelty_w_energy, tempogram_novelty_w_hfc, tempogram_novelty_local_mean_window,
    tempogram_novelty_smooth_window, enable_tempogram_mel_novelty, tempogram_mel_n_mels, tempogram_mel_fmin_hz, tempogram_mel_fmax_hz,
    tempogram_mel_max_filter_bins, tempogram_mel_weight, tempogram_superflux_max_filter_bins, emit_tempogram_candidates, tempogram_candidates_top_n,
    legacy_bpm_preferred_min, legacy_bpm_preferred_max, legacy_bpm_soft_min, legacy_bpm_soft_max, legacy_bpm_conf_mul_preferred,
    legacy_bpm_conf_mul_soft, legacy_bpm_conf_mul_extreme, min_bpm, max_bpm, bpm_resolution, hop_size, center_frequency, soft_chroma_mapping,
    soft_mapping_sigma, chroma_sharpening_power, enable_key_spectrogram_time_smoothing, key_spectrogram_smooth_margin, enable_key_frame_weighting,
    key_min_tonalness, key_tonalness_power, key_energy_power, enable_key_harmonic_mask, key_harmonic_mask_power, enable_key_hpss_harmonic,
    key_hpss_frame_step, key_hpss_time_margin, key_hpss_freq_margin, key_hpss_mask_power, enable_key_stft_override, key_stft_frame_size,
    key_stft_hop_size, enable_key_log_frequency, enable_key_beat_synchronous, enable_key_multi_scale, key_template_set, enable_key_ensemble,
    key_ensemble_kk_weight, key_ensemble_temperley_weight, enable_key_median, key_median_segment_length_frames, key_median_segment_hop_frames,
    key_median_min_segments, key_multi_scale_lengths, key_multi_scale_hop, key_multi_scale_min_clarity, key_multi_scale_weights,
    enable_key_tuning_compensation, key_tuning_max_abs_semitones, key_tuning_frame_step, key_tuning_peak_rel_threshold, enable_key_edge_trim,
    key_edge_trim_fraction, enable_key_segment_voting, key_segment_len_frames, key_segment_hop_frames, key_segment_min_clarity,
    enable_key_mode_heuristic, key_mode_third_ratio_margin, key_mode_flip_min_score_ratio, enable_key_hpcp, key_hpcp_peaks_per_frame,
    key_hpcp_num_harmonics, key_hpcp_harmonic_decay, key_hpcp_mag_power, enable_key_hpcp_whitening, key_hpcp_whitening_smooth_bins,
    enable_key_hpcp_bass_blend, key_hpcp_bass_fmin_hz, key_hpcp_bass_fmax_hz, key_hpcp_bass_weight, enable_key_minor_harmonic_bonus,
    key_minor_leading_tone_bonus_weight,
);

/// variant `v` of a call: one setting or one aspect of the audio changed. Variant 0 is the call itself.
pub fn variant(g: &gen::Sig, cfg: &AnalysisConfig, v: u64) -> (gen::Sig, AnalysisConfig, String) {
    let (mut h, mut k) = (g.clone(), cfg.clone());
    if v == 0 {
        return (h, k, "the call itself".into());
    }
    let mut r = Rng::new(v);
    let d;
    let n = h.s.len();
    match r.us(0, 9) {
        0 => {
            h.s.reverse();
            d = "reversed".to_string();
        }
        1 => {
            h.sr = if h.sr == 8000 { 11025 } else { 8000 };
            d = "other sample rate".to_string();
        }
        2 => {
            let a = r.us(0, n - 1);
            let b = (a + r.us(1, 4000)).min(n);
            let q = r.range(-1.0, 1.0) as f32;
            h.s[a..b].iter_mut().for_each(|x| *x *= q);
            d = format!("samples {a}..{b} scaled");
        }
        3 => {
            let m = n - r.us(1, n / 2);
            h.s.truncate(m);
            d = format!("first {m} samples");
        }
        _ => {
            let other = gen::config(&mut r, true).0;
            let i = r.us(0, FIELDS.len() - 1);
            copy_field(&mut k, &other, i);
            k.key_stft_frame_size = k.key_stft_frame_size.min(4096);
            d = format!("other {}", FIELDS[i]);
        }
    }
    (h, k, d)
}

type Job = Box<dyn Fn() -> String + Send + Sync>;
/// stage calls of similar shape and different content, each returning everything it computed
pub fn stage_jobs(r: &mut Rng) -> Vec<(&'static str, Job)> {
    use stratum_dsp::features::beat_tracking::generate_beat_grid;
    use stratum_dsp::features::chroma::extractor as ex;
    use stratum_dsp::features::chroma::smoothing::smooth_chroma;
    use stratum_dsp::features::key::{detect_key, KeyTemplates};
    use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
    use stratum_dsp::features::onset::hpss::hpss_decompose;
    use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
    let mut v: Vec<(&'static str, Job)> = vec![];
    let sr = 8000u32;
    for _ in 0..3 {
        let mut cfg = gen::config(r, true).0;
        cfg.frame_size = *r.pick(&[256usize, 512]);
        cfg.hop_size = 128;
        cfg.key_stft_frame_size = 512;
        cfg.key_stft_hop_size = 128;
        cfg.enable_key_hpss_harmonic = false;
        let g = gen::audio(r, sr, 1.5);
        let s = std::sync::Arc::new(g.s);
        let spec = std::sync::Arc::new(ex::compute_stft(&s, cfg.frame_size, cfg.hop_size).unwrap_or_default());
        let fs = cfg.frame_size;
        let chroma = std::sync::Arc::new(
            (0..40).map(|_| (0..12).map(|_| r.range(0.0, 1.0) as f32).collect::<Vec<f32>>()).collect::<Vec<_>>(),
        );
        let on: Vec<usize> = gen::onset_train(r, sr, 6.0).0;
        let margin = r.us(1, 6);
        let (s1, c1) = (s.clone(), cfg.clone());
        v.push(("preprocess", Box::new(move || format!("{:?}", pl::preprocess(&s1, sr, &c1)))));
        let (s1, c1) = (s.clone(), cfg.clone());
        v.push(("stft", Box::new(move || format!("{:?}", ex::compute_stft(&s1[..s1.len().min(4000)], fs, c1.hop_size)))));
        let (p1, c1, s1) = (spec.clone(), cfg.clone(), s.clone());
        v.push(("onsets", Box::new(move || format!("{:?}", pl::onsets(&s1, &p1, sr, &c1)))));
        let (p1, c1) = (spec.clone(), cfg.clone());
        v.push(("flux", Box::new(move || format!("{:?} {:?}", detect_spectral_flux_onsets(&p1, c1.onset_threshold_percentile), detect_hfc_onsets(&p1, sr, c1.onset_threshold_percentile)))));
        let p1 = spec.clone();
        v.push(("hpss", Box::new(move || format!("{:?}", hpss_decompose(&p1[..p1.len().min(16)], margin)))));
        let (o1, c1) = (on.clone(), cfg.clone());
        v.push(("onset tempo", Box::new(move || format!("{:?}", pl::legacy(&o1, sr, &c1)))));
        let (p1, c1, s1) = (spec.clone(), cfg.clone(), s.clone());
        v.push(("spectral tempo", Box::new(move || {
            let t = pl::spectral(&s1, &p1, sr, &c1);
            format!("{:?} {:?} {:?}", t.est, t.mr_used, t.cands.map(|k| k.len()))
        })));
        let bpm = r.range(60.0, 180.0) as f32;
        let ts: Vec<f32> = on.iter().map(|p| *p as f32 / sr as f32).collect();
        v.push(("beat grid", Box::new(move || format!("{:?}", generate_beat_grid(bpm, 0.7, &ts, sr)))));
        let (p1, c1) = (spec.clone(), cfg.clone());
        v.push(("chroma", Box::new(move || format!("{:?}", ex::extract_chroma_from_spectrogram_with_options_and_energy(&p1, sr, fs, c1.soft_chroma_mapping, c1.soft_mapping_sigma)))));
        let (p1, c1) = (spec.clone(), cfg.clone());
        v.push(("hpcp", Box::new(move || {
            format!("{:?}", ex::extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&p1, sr, fs, c1.soft_mapping_sigma, 0.0, c1.key_hpcp_peaks_per_frame, c1.key_hpcp_num_harmonics, c1.key_hpcp_harmonic_decay, c1.key_hpcp_mag_power, c1.enable_key_hpcp_whitening, c1.key_hpcp_whitening_smooth_bins))
        })));
        let p1 = spec.clone();
        v.push(("mask", Box::new(move || format!("{:?} {:?}", ex::harmonic_spectrogram_time_mask(&p1, margin, 2.0), ex::smooth_spectrogram_time(&p1, margin)))));
        let k1 = chroma.clone();
        v.push(("key", Box::new(move || {
            let t = KeyTemplates::new();
            format!("{:?}", detect_key(&smooth_chroma(&k1, 5), &t).map(|r| (r.key, r.confidence, r.all_scores)))
        })));
        let (p1, c1, s1) = (spec.clone(), cfg.clone(), s.clone());
        v.push(("key stage", Box::new(move || format!("{:?}", pl::key(&s1, &p1, &[], sr, &c1).map(|o| (o.key, o.confidence, o.clarity, o.scores))))));
    }
    v
}
