//! Workload generators: audio, configurations, spectrograms, onset lists.
use crate::rng::Rng;
use stratum_dsp::features::key::templates::TemplateSet;
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::AnalysisConfig;

#[derive(Clone)]
pub struct Sig {
    pub s: Vec<f32>,
    pub sr: u32,
    pub desc: String,
}
const TAU: f64 = 2.0 * std::f64::consts::PI;

pub fn add_hit(out: &mut [f32], at: usize, sr: u32, kind: usize, amp: f64, rng: &mut Rng) {
    // kind: 0 click, 1 kick, 2 noise burst (snare), 3 short noise (hat), 4 pitched blip, 5 single sample
    let sr = sr as f64;
    let (len, f0): (f64, f64) = match kind {
        0 => (0.01, 1000.0),
        1 => (0.12, 60.0),
        2 => (0.09, 0.0),
        3 => (0.03, 0.0),
        4 => (0.06, 660.0),
        _ => (0.0, 0.0),
    };
    let n = ((len * sr) as usize).max(1);
    let mut hp = 0.0;
    for i in 0..n {
        if at + i >= out.len() {
            break;
        }
        let t = i as f64 / sr;
        let env = (-t / (len / 5.0).max(1e-6)).exp();
        let v = match kind {
            0 | 4 => env * (TAU * f0 * t).sin(),
            1 => env * (TAU * (f0 * t + 4.0 * (1.0 - (-t * 60.0).exp()))).sin(),
            2 => env * (0.8 * rng.gauss() * 0.4 + 0.4 * (TAU * 190.0 * t).sin()),
            3 => {
                let w = rng.gauss() * 0.4;
                let v = w - hp;
                hp = w;
                env * v
            }
            _ => 1.0,
        };
        out[at + i] += (amp * v) as f32;
    }
}

/// Steady pulse with identical accents; returns the pulse times in seconds.
pub fn pulse(rng: &mut Rng, sr: u32, dur: f64, bpm: f64, offset: f64, kind: usize, amp: f64) -> (Vec<f32>, Vec<f64>) {
    let n = (dur * sr as f64) as usize;
    let mut out = vec![0.0f32; n];
    let mut times = vec![];
    let mut proto = vec![0.0f32; (0.15 * sr as f64) as usize];
    add_hit(&mut proto, 0, sr, kind, amp, rng);
    let mut k = 0;
    loop {
        let t = offset + k as f64 * 60.0 / bpm;
        let at = (t * sr as f64).round() as usize;
        if at >= n {
            break;
        }
        for (i, v) in proto.iter().enumerate() {
            if at + i < n {
                out[at + i] += v;
            }
        }
        times.push(t);
        k += 1;
    }
    (out, times)
}

pub fn add_tone(out: &mut [f32], sr: u32, from: usize, to: usize, f0: f64, amp: f64, partials: usize, rolloff: f64) {
    let ny = sr as f64 / 2.0;
    let to = to.min(out.len());
    for h in 1..=partials {
        let f = f0 * h as f64;
        if f >= ny * 0.95 {
            break;
        }
        let a = amp / (h as f64).powf(rolloff);
        // rotating phasor
        let w = TAU * f / sr as f64;
        let (s1, c1) = w.sin_cos();
        let (mut s, mut c) = (0.0f64, 1.0f64);
        for i in from..to {
            let fade = ((i - from) as f64 / 400.0).min((to - i) as f64 / 400.0).min(1.0);
            out[i] += (a * s * fade) as f32;
            let ns = s * c1 + c * s1;
            c = c * c1 - s * s1;
            s = ns;
        }
    }
}
pub fn midi_hz(m: f64) -> f64 {
    440.0 * 2f64.powf((m - 69.0) / 12.0)
}
/// chord progression (list of chords as midi notes), each chord `len` seconds
pub fn chords(sr: u32, dur: f64, prog: &[Vec<f64>], len: f64, partials: usize, rolloff: f64, amp: f64) -> Vec<f32> {
    let n = (dur * sr as f64) as usize;
    let mut out = vec![0.0f32; n];
    let step = (len * sr as f64) as usize;
    let mut k = 0;
    let mut at = 0;
    while at < n {
        for &m in &prog[k % prog.len()] {
            add_tone(&mut out, sr, at, (at + step).min(n), midi_hz(m), amp, partials, rolloff);
        }
        at += step;
        k += 1;
    }
    out
}

/// A mixed bag of realistic and hostile audio. `dur` in seconds.
pub fn audio(rng: &mut Rng, sr: u32, dur: f64) -> Sig {
    let n = ((dur * sr as f64) as usize).max(1);
    let kind = rng.us(0, 13);
    let mut desc;
    let mut s = vec![0.0f32; n];
    match kind {
        0 => {
            let bpm = rng.range(45.0, 220.0);
            let k = rng.us(0, 5);
            let off = rng.range(0.0, 1.0);
            s = pulse(rng, sr, dur, bpm, off, k, 0.8).0;
            desc = format!("pulse {bpm:.1} bpm hit {k}");
        }
        1 | 2 | 3 => {
            // drum pattern + bass/chords
            let bpm = rng.range(60.0, 190.0);
            let b = 60.0 / bpm;
            let off = rng.range(0.0, 0.7);
            let swing = if rng.p(0.3) { rng.range(0.0, 0.12) } else { 0.0 };
            let mut k = 0usize;
            loop {
                let t = off + k as f64 * b / 2.0 + if k % 2 == 1 { swing * b } else { 0.0 };
                let at = (t * sr as f64) as usize;
                if at >= n {
                    break;
                }
                if k % 4 == 0 {
                    add_hit(&mut s, at, sr, 1, 0.9, rng);
                }
                if k % 4 == 2 {
                    add_hit(&mut s, at, sr, 2, 0.7, rng);
                }
                let a = rng.range(0.15, 0.4);
                add_hit(&mut s, at, sr, 3, a, rng);
                k += 1;
            }
            desc = format!("drums {bpm:.1} bpm swing {swing:.2}");
            if kind == 2 {
                let root = rng.us(36, 60) as f64;
                let minor = rng.p(0.5);
                let third = if minor { 3.0 } else { 4.0 };
                let c = chords(
                    sr, dur,
                    &[vec![root, root + third, root + 7.0], vec![root + 5.0, root + 5.0 + third, root + 12.0]],
                    2.0 * b, 5, 1.0, 0.15,
                );
                for (a, b) in s.iter_mut().zip(c) {
                    *a += b;
                }
                desc += &format!(" + chords root {root} minor {minor}");
            }
        }
        4 => {
            // tempo drift
            let (b0, b1) = (rng.range(70.0, 160.0), rng.range(70.0, 160.0));
            let mut t = rng.range(0.0, 0.5);
            while t < dur {
                let at = (t * sr as f64) as usize;
                let hk = *rng.pick(&[0usize, 1, 2]);
                add_hit(&mut s, at, sr, hk, 0.8, rng);
                let frac = t / dur;
                let jit = rng.range(-0.03, 0.03);
                t += (60.0 / (b0 + (b1 - b0) * frac)) * (1.0 + jit);
            }
            desc = format!("drift {b0:.0}->{b1:.0}");
        }
        5 => {
            let root = rng.us(40, 64) as f64;
            let iv: Vec<f64> = if rng.p(0.5) { vec![0., 4., 7.] } else { vec![0., 3., 7.] };
            let prog: Vec<Vec<f64>> = [0.0, 5.0, 7.0, 0.0].iter().map(|r| iv.iter().map(|i| root + r + i).collect()).collect();
            let l = rng.range(0.5, 2.0);
            let np = rng.us(1, 8);
            s = chords(sr, dur, &prog, l, np, 1.0, 0.2);
            desc = format!("chords root {root}");
        }
        6 => {
            for x in s.iter_mut() {
                *x = (rng.gauss() * 0.2) as f32;
            }
            desc = "white noise".into();
        }
        7 => {
            // random hits
            let m = rng.us(1, (dur * 4.0) as usize + 2);
            for _ in 0..m {
                let at = rng.us(0, n - 1);
                let k = rng.us(0, 5);
                let a = rng.range(0.05, 1.0);
                add_hit(&mut s, at, sr, k, a, rng);
            }
            desc = format!("{m} random hits");
        }
        8 => {
            let f = rng.lrange(30.0, (sr as f64 * 0.45).max(31.0));
            add_tone(&mut s, sr, 0, n, f, 0.5, 1, 1.0);
            desc = format!("sine {f:.1}");
        }
        9 => {
            // sound surrounded by silence, and silent gap
            let a = rng.us(0, n / 2);
            let b = rng.us(a, n);
            for x in s[a..b].iter_mut() {
                *x = (rng.gauss() * 0.3) as f32;
            }
            desc = format!("noise island {a}..{b}");
        }
        10 => {
            // amplitude-modulated noise
            let f = rng.range(0.5, 4.0);
            for (i, x) in s.iter_mut().enumerate() {
                let t = i as f64 / sr as f64;
                let e = (0.5 + 0.5 * (TAU * f * t).sin()).powi(4);
                *x = (rng.gauss() * 0.3 * e) as f32;
            }
            desc = format!("AM noise {f:.2} Hz");
        }
        11 => {
            // square / DC / clipped
            let f = rng.lrange(1.0, 400.0);
            for (i, x) in s.iter_mut().enumerate() {
                let t = i as f64 / sr as f64;
                *x = if (t * f).fract() < 0.5 { 0.9 } else { -0.9 };
            }
            desc = format!("square {f:.1}");
        }
        12 => {
            // sweep
            let (f0, f1) = (rng.range(50.0, 500.0), rng.range(500.0, 8000.0));
            let mut ph = 0.0;
            for (i, x) in s.iter_mut().enumerate() {
                let u = i as f64 / n as f64;
                ph += TAU * (f0 + (f1 - f0) * u) / sr as f64;
                *x = (0.4 * ph.sin()) as f32;
            }
            desc = "sweep".into();
        }
        _ => {
            // two-tempo layers
            let b = rng.range(60.0, 110.0);
            let r = *rng.pick(&[2.0, 1.5, 3.0, 4.0 / 3.0]);
            let a = pulse(rng, sr, dur, b, 0.1, 1, 0.8).0;
            let c = pulse(rng, sr, dur, b * r, 0.1, 3, 0.5).0;
            for i in 0..n.min(a.len()).min(c.len()) {
                s[i] = a[i] + c[i];
            }
            desc = format!("layers {b:.1} x{r:.2}");
        }
    }
    s.truncate(n);
    let g = if rng.p(0.3) { rng.lrange(0.02, 3.0) as f32 } else { 1.0 };
    if g != 1.0 {
        for x in s.iter_mut() {
            *x *= g;
        }
    }
    if rng.p(0.25) {
        // leading / trailing silence
        let a = (rng.range(0.0, 1.2) * sr as f64) as usize;
        let b = (rng.range(0.0, 1.2) * sr as f64) as usize;
        let mut v = vec![0.0f32; a];
        v.extend_from_slice(&s);
        v.extend(std::iter::repeat_n(0.0f32, b));
        s = v;
        desc += &format!(" padded {a}/{b}");
    }
    if rng.p(0.2) {
        let a = rng.lrange(1e-5, 1e-2);
        for x in s.iter_mut() {
            *x += (rng.gauss() * a) as f32;
        }
        desc += " +noise floor";
    }
    desc += &format!(" g={g:.3} sr={sr} n={}", s.len());
    Sig { s, sr, desc }
}

/// Random configuration over the published settings; `wild` adds unusual numeric values.
pub fn config(rng: &mut Rng, wild: bool) -> (AnalysisConfig, String) {
    let mut c = AnalysisConfig::default();
    let mut d: Vec<String> = vec![];
    macro_rules! flip { ($f:ident, $p:expr) => { if rng.p($p) { c.$f = !c.$f; d.push(format!("{}={}", stringify!($f), c.$f)); } } }
    macro_rules! set { ($f:ident, $p:expr, $v:expr) => { if rng.p($p) { c.$f = $v; d.push(format!("{}={:?}", stringify!($f), c.$f)); } } }
    let q = if wild { 0.3 } else { 0.15 };
    if rng.p(q) {
        c.normalization = *rng.pick(&[NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness]);
        d.push(format!("norm={:?}", c.normalization));
    }
    set!(min_amplitude_db, q, if rng.p(0.5) { *rng.pick(&[-60.0, -50.0, -30.0, -20.0]) } else { rng.range(-70.0, -15.0) as f32 });
    flip!(enable_normalization, q / 2.0);
    flip!(enable_silence_trimming, q);
    flip!(enable_onset_consensus, q);
    set!(onset_threshold_percentile, q, if rng.p(0.5) { *rng.pick(&[0.5, 0.7, 0.9, 0.95]) } else { rng.range(0.0, 1.0) as f32 });
    set!(onset_consensus_tolerance_ms, q, rng.lrange(1.0, 300.0) as u32);
    set!(onset_consensus_weights, q, *rng.pick(&[[0.4, 0.3, 0.2, 0.1], [1.0, 1.0, 1.0, 1.0], [0.1, 0.2, 0.3, 0.4], [0.5, 0.0, 0.5, 0.0]]));
    flip!(enable_hpss_onsets, q * 0.5);
    set!(hpss_margin, q, rng.us(1, 15));
    flip!(force_legacy_bpm, q);
    flip!(enable_bpm_fusion, q * 1.5);
    flip!(enable_legacy_bpm_guardrails, q);
    flip!(enable_tempogram_multi_resolution, q);
    set!(tempogram_multi_res_top_k, q, rng.us(1, 40));
    set!(tempogram_multi_res_w512, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_multi_res_w256, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_multi_res_w1024, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_multi_res_structural_discount, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_multi_res_double_time_512_factor, q, rng.range(0.5, 1.0) as f32);
    set!(tempogram_multi_res_margin_threshold, q, rng.range(0.0, 0.5) as f32);
    flip!(tempogram_multi_res_use_human_prior, q);
    flip!(enable_tempogram_percussive_fallback, q);
    flip!(enable_tempogram_band_fusion, q);
    set!(tempogram_band_low_max_hz, q, rng.range(50.0, 400.0) as f32);
    set!(tempogram_band_mid_max_hz, q, rng.range(500.0, 4000.0) as f32);
    set!(tempogram_band_high_max_hz, q, rng.range(4000.0, 20000.0) as f32);
    set!(tempogram_band_w_full, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_band_w_low, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_band_w_mid, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_band_w_high, q, rng.range(0.0, 1.0) as f32);
    flip!(tempogram_band_seed_only, q);
    set!(tempogram_band_support_threshold, q, rng.range(0.0, 0.9) as f32);
    set!(tempogram_band_consensus_bonus, q, if rng.p(0.2) { 0.0 } else { rng.lrange(0.005, 0.5) as f32 });
    set!(tempogram_novelty_w_spectral, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_novelty_w_energy, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_novelty_w_hfc, q, rng.range(0.0, 1.0) as f32);
    set!(tempogram_novelty_local_mean_window, q, rng.us(0, 40));
    set!(tempogram_novelty_smooth_window, q, rng.us(0, 12));
    flip!(enable_tempogram_mel_novelty, q);
    set!(tempogram_mel_n_mels, q, rng.us(8, 64));
    set!(tempogram_mel_fmin_hz, q, rng.range(0.0, 200.0) as f32);
    set!(tempogram_mel_fmax_hz, q, rng.range(2000.0, 16000.0) as f32);
    set!(tempogram_mel_max_filter_bins, q, rng.us(0, 4));
    set!(tempogram_mel_weight, q, rng.range(0.0, 0.5) as f32);
    set!(tempogram_superflux_max_filter_bins, q, rng.us(0, 8));
    flip!(emit_tempogram_candidates, 0.4);
    set!(tempogram_candidates_top_n, q, if rng.p(0.15) { rng.us(0, 1) } else { rng.us(1, 40) });
    if rng.p(q) {
        c.legacy_bpm_preferred_min = rng.range(60.0, 100.0) as f32;
        c.legacy_bpm_preferred_max = rng.range(110.0, 180.0) as f32;
        c.legacy_bpm_soft_min = rng.range(40.0, 60.0) as f32;
        c.legacy_bpm_soft_max = rng.range(180.0, 240.0) as f32;
        c.legacy_bpm_conf_mul_preferred = rng.range(0.5, 1.5) as f32;
        c.legacy_bpm_conf_mul_soft = rng.range(0.2, 1.0) as f32;
        c.legacy_bpm_conf_mul_extreme = rng.range(0.0, 0.5) as f32;
        d.push("legacy guardrails varied".into());
    }
    if rng.p(q) {
        c.min_bpm = rng.range(30.0, 90.0) as f32;
        c.max_bpm = rng.range(120.0, 290.0) as f32;
        d.push(format!("bpm range {}..{}", c.min_bpm, c.max_bpm));
    }
    set!(bpm_resolution, q, if rng.p(0.5) { *rng.pick(&[0.5, 0.25, 2.0]) } else { rng.lrange(0.2, 4.0) as f32 });
    if rng.p(q) {
        c.frame_size = *rng.pick(&[512usize, 1024, 4096, 1000, 2048]);
        c.hop_size = *rng.pick(&[128usize, 256, 512, 1024, 441]);
        if c.hop_size > c.frame_size { c.hop_size = c.frame_size / 2; }
        d.push(format!("frame {} hop {}", c.frame_size, c.hop_size));
    }
    flip!(soft_chroma_mapping, q);
    set!(soft_mapping_sigma, q, rng.range(0.1, 1.5) as f32);
    set!(chroma_sharpening_power, q, if rng.p(0.2) { *rng.pick(&[1.0, 0.5]) } else { rng.range(1.0, 2.5) as f32 });
    flip!(enable_key_spectrogram_time_smoothing, q);
    set!(key_spectrogram_smooth_margin, q, rng.us(0, 30));
    flip!(enable_key_frame_weighting, q);
    set!(key_min_tonalness, q, rng.range(0.0, 0.5) as f32);
    set!(key_tonalness_power, q, rng.range(0.0, 3.0) as f32);
    set!(key_energy_power, q, rng.range(0.0, 1.5) as f32);
    flip!(enable_key_harmonic_mask, q);
    set!(key_harmonic_mask_power, q, rng.range(0.5, 4.0) as f32);
    flip!(enable_key_hpss_harmonic, q * 0.5);
    set!(key_hpss_frame_step, q, if rng.p(0.15) { rng.us(0, 1) } else { rng.us(1, 8) });
    set!(key_hpss_time_margin, q, if rng.p(0.15) { rng.us(0, 0) } else { rng.us(1, 10) });
    set!(key_hpss_freq_margin, q, if rng.p(0.15) { rng.us(0, 0) } else { rng.us(1, 10) });
    set!(key_hpss_mask_power, q, rng.range(0.5, 4.0) as f32);
    flip!(enable_key_stft_override, 0.4);
    if rng.p(q) {
        c.key_stft_frame_size = *rng.pick(&[2048usize, 4096, 8192]);
        c.key_stft_hop_size = *rng.pick(&[512usize, 1024, 2048]);
        d.push(format!("key stft {}/{}", c.key_stft_frame_size, c.key_stft_hop_size));
    }
    flip!(enable_key_log_frequency, q);
    flip!(enable_key_beat_synchronous, q);
    flip!(enable_key_multi_scale, q);
    set!(key_multi_scale_lengths, q, match rng.us(0, 7) {
        0 => vec![],
        1 => vec![rng.us(0, 3), rng.us(100, 300)],
        2 => vec![rng.us(100, 400)],
        _ => vec![rng.us(20, 200), rng.us(100, 500)],
    });
    set!(key_multi_scale_hop, q, if rng.p(0.2) { rng.us(0, 3) } else { rng.us(20, 200) });
    set!(key_multi_scale_min_clarity, q, rng.range(0.0, 0.6) as f32);
    set!(key_multi_scale_weights, q, if rng.p(0.5) { vec![] } else { vec![0.3, 0.7, 0.5] });
    if rng.p(q) {
        c.key_template_set = TemplateSet::Temperley;
        d.push("temperley".into());
    }
    flip!(enable_key_ensemble, q);
    set!(key_ensemble_kk_weight, q, rng.range(0.0, 1.0) as f32);
    set!(key_ensemble_temperley_weight, q, rng.range(0.0, 1.0) as f32);
    flip!(enable_key_tuning_compensation, q);
    set!(key_tuning_max_abs_semitones, q, rng.range(0.0, 0.5) as f32);
    set!(key_tuning_frame_step, q, if rng.p(0.15) { rng.us(0, 1) } else { rng.us(1, 30) });
    set!(key_tuning_peak_rel_threshold, q, rng.range(0.05, 0.9) as f32);
    flip!(enable_key_edge_trim, q);
    set!(key_edge_trim_fraction, q, rng.range(0.0, 0.45) as f32);
    flip!(enable_key_segment_voting, q);
    set!(key_segment_len_frames, 0.4, if rng.p(0.15) { rng.us(117, 123) } else { rng.us(120, 500) });
    set!(key_segment_hop_frames, 0.3, if rng.p(0.15) { rng.us(0, 2) } else { rng.us(30, 400) });
    set!(key_segment_min_clarity, q, rng.range(0.0, 0.7) as f32);
    flip!(enable_key_mode_heuristic, q);
    set!(key_mode_third_ratio_margin, q, rng.range(0.0, 0.3) as f32);
    set!(key_mode_flip_min_score_ratio, q, rng.range(0.3, 1.0) as f32);
    flip!(enable_key_hpcp, q);
    set!(key_hpcp_peaks_per_frame, q, if rng.p(0.15) { rng.us(0, 1) } else { rng.us(1, 40) });
    set!(key_hpcp_num_harmonics, q, if rng.p(0.15) { rng.us(0, 1) } else { rng.us(1, 8) });
    set!(key_hpcp_harmonic_decay, q, rng.range(0.2, 1.0) as f32);
    set!(key_hpcp_mag_power, q, rng.range(0.1, 1.0) as f32);
    flip!(enable_key_hpcp_whitening, q);
    set!(key_hpcp_whitening_smooth_bins, q, if rng.p(0.15) { rng.us(0, 2) } else { rng.us(3, 61) });
    flip!(enable_key_hpcp_bass_blend, q);
    set!(key_hpcp_bass_fmin_hz, q, rng.range(30.0, 80.0) as f32);
    set!(key_hpcp_bass_fmax_hz, q, rng.range(150.0, 500.0) as f32);
    set!(key_hpcp_bass_weight, q, rng.range(0.0, 1.0) as f32);
    flip!(enable_key_minor_harmonic_bonus, q);
    set!(key_minor_leading_tone_bonus_weight, q, rng.range(0.0, 0.5) as f32);
    // settings no stage reads
    flip!(enable_key_median, q * 0.5);
    set!(center_frequency, q * 0.3, rng.range(415.0, 466.0) as f32);
    set!(debug_top_n, q * 0.3, rng.us(0, 20));
    set!(debug_gt_bpm, q * 0.3, Some(rng.range(60.0, 180.0) as f32));
    (c, d.join(","))
}

/// Random magnitude spectrogram with a mixture of structure.
pub fn spectrogram(rng: &mut Rng, frames: usize, bins: usize) -> Vec<Vec<f32>> {
    let mode = rng.us(0, 5);
    let mut v = vec![vec![0.0f32; bins]; frames];
    let period = rng.us(3, 40);
    let tones: Vec<(usize, f64)> = (0..rng.us(1, 6)).map(|_| (rng.us(0, bins - 1), rng.range(0.2, 3.0))).collect();
    let floor = *rng.pick(&[0.0, 1e-4, 0.02, 0.2]);
    for t in 0..frames {
        let hit = match mode {
            0 => false,
            1 | 2 => t % period == 0,
            _ => rng.p(0.08),
        };
        let hit_amp = rng.range(0.5, 4.0);
        let mute = mode == 5 && rng.p(0.2);
        for b in 0..bins {
            let mut x = floor * rng.f();
            if hit && !mute {
                x += hit_amp * rng.range(0.5, 1.0) * (-(b as f64) / (bins as f64 * 0.7)).exp();
            }
            if mode == 4 {
                x += rng.f() * 0.5;
            }
            v[t][b] = if mute { 0.0 } else { x as f32 };
        }
        if mode != 1 && !mute {
            for &(b, a) in &tones {
                v[t][b] += a as f32;
                if b + 1 < bins {
                    v[t][b + 1] += (a * 0.4) as f32;
                }
            }
        }
    }
    v
}

/// Onset positions in samples (sorted) of a (possibly jittered, gappy) pulse train.
pub fn onset_train(rng: &mut Rng, sr: u32, dur: f64) -> (Vec<usize>, f64) {
    let bpm = rng.range(45.0, 230.0);
    let jit = *rng.pick(&[0.0, 0.0, 0.002, 0.01, 0.03]);
    let drop = *rng.pick(&[0.0, 0.0, 0.1, 0.3]);
    let extra = *rng.pick(&[0.0, 0.0, 0.2, 0.5]);
    let mut v: Vec<usize> = vec![];
    let mut t = rng.range(0.0, 1.0);
    let ib = 60.0 / bpm;
    while t < dur {
        if !rng.p(drop) {
            let x = t + jit * rng.gauss();
            if x >= 0.0 {
                v.push((x * sr as f64) as usize);
            }
        }
        if rng.p(extra) {
            v.push(((t + rng.range(0.0, ib)) * sr as f64) as usize);
        }
        t += ib;
    }
    v.sort_unstable();
    v.dedup();
    (v, bpm)
}

/// A plain sample buffer of `n` samples: noise, tones, level blocks, spikes, constants.
pub fn buf(rng: &mut Rng, n: usize) -> (Vec<f32>, String) {
    let mut s = vec![0.0f32; n];
    let k = rng.us(0, 8);
    let lvl = *rng.pick(&[1.0, 0.5, 0.1, 0.01, 1e-3, 3.0, 1e-4, 20.0]);
    match k {
        0 => s.iter_mut().for_each(|x| *x = (rng.gauss() * 0.3 * lvl) as f32),
        1 => {
            let w = rng.range(0.001, 3.0);
            let p = rng.range(0.0, 6.0);
            for (i, x) in s.iter_mut().enumerate() {
                *x = (lvl * (w * i as f64 + p).sin()) as f32;
            }
        }
        2 | 3 => {
            // blocks of different level
            let mut at = 0;
            while at < n {
                let l = (rng.lrange(1.0, (n as f64).max(2.0)) as usize).max(1);
                let a = if rng.p(0.4) { 0.0 } else { rng.lrange(1e-4, 1.5) };
                for x in s[at..(at + l).min(n)].iter_mut() {
                    *x = (a * rng.range(-1.0, 1.0)) as f32;
                }
                at += l;
            }
        }
        4 => {
            let m = rng.us(1, 6);
            for _ in 0..m {
                if n > 0 {
                    let i = if rng.p(0.3) { *rng.pick(&[0, n - 1]) } else { rng.us(0, n - 1) };
                    s[i] = (lvl * rng.range(-1.0, 1.0)) as f32;
                }
            }
        }
        5 => {
            let c = (lvl * rng.range(-1.0, 1.0)) as f32;
            s.iter_mut().for_each(|x| *x = c);
        }
        6 => {
            // dc + noise, one sided
            let sg = if rng.p(0.5) { 1.0 } else { -1.0 };
            s.iter_mut().for_each(|x| *x = (sg * lvl * rng.f()) as f32);
        }
        7 => {
            // decaying hits
            let per = rng.us(5, (n / 2).max(6));
            let dec = rng.range(1.0, per as f64);
            for (i, x) in s.iter_mut().enumerate() {
                let t = (i % per) as f64;
                *x = (lvl * (-t / dec).exp() * rng.range(-1.0, 1.0)) as f32;
            }
        }
        _ => {} // silence
    }
    (s, format!("buf kind {k} level {lvl} n {n}"))
}

/// Spectrogram with extra structure for the detectors: quantised values, repeated frames,
/// silent frames, level steps, extreme scales.
pub fn spectro_any(rng: &mut Rng, max_frames: usize, max_bins: usize) -> Vec<Vec<f32>> {
    let frames = if rng.p(0.15) { rng.us(0, 4) } else { rng.lrange(2.0, max_frames as f64) as usize };
    let bins = if rng.p(0.15) { rng.us(1, 3) } else { rng.lrange(2.0, max_bins as f64) as usize };
    let mut v = spectrogram(rng, frames, bins);
    if rng.p(0.25) {
        let q = *rng.pick(&[1.0f32, 4.0, 8.0]);
        v.iter_mut().flatten().for_each(|x| *x = (*x * q).round() / q);
    }
    if rng.p(0.3) && frames > 2 {
        for t in 1..frames {
            if rng.p(0.3) {
                let c = v[t - 1].clone();
                v[t] = c;
            }
        }
    }
    if rng.p(0.2) {
        for t in 0..frames {
            if rng.p(0.2) {
                v[t].iter_mut().for_each(|x| *x = 0.0);
            }
        }
    }
    if rng.p(0.2) {
        // cyclic repetition: exact ties between distant frames
        let p = rng.us(1, 6).min(frames.max(1));
        for t in p..frames {
            let c = v[t - p].clone();
            v[t] = c;
        }
    }
    if rng.p(0.25) {
        let g = rng.lrange(1e-5, 1e5) as f32;
        v.iter_mut().flatten().for_each(|x| *x *= g);
    }
    if rng.p(0.2) {
        // per-frame level changes
        for f in v.iter_mut() {
            let g = rng.lrange(0.05, 5.0) as f32;
            f.iter_mut().for_each(|x| *x *= g);
        }
    }
    v
}
