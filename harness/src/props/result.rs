//! R01, R02: confidence report and serialisation.
use super::key::key_of;
use crate::ensure;
use crate::mon::*;
use crate::rng::Rng;
use serde_json::json;
use stratum_dsp::analysis::confidence::*;
use stratum_dsp::analysis::result::*;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "R01", quick: 600_000, thorough: 3_000_000,
            rule: "results with all combinations of zero, threshold, in-range and out-of-range fields, warnings and flags; report against a reference scorer, plus monotonicity and independence relations. Distinct: hash of the input fields",
            assumptions: &["fields are numbers (no NaN)", "reports within rounding error of a threshold accept both sides"],
            min_nontrivial: 300, run: r01, serial: false, hang_is_violation: false,
        },
        Spec {
            id: "R02", quick: 180_000, thorough: 600_000,
            rule: "results and confidence reports with all keys, flags, texts and optional diagnostics; JSON round trip compared field by field and bit by bit. Distinct: hash of the JSON text",
            assumptions: &["finite numbers"],
            min_nontrivial: 300, run: r02, serial: false, hang_is_violation: false,
        },
    ]
}
fn flag(r: &mut Rng) -> AnalysisFlag {
    match r.us(0, 3) {
        0 => AnalysisFlag::MultimodalBpm,
        1 => AnalysisFlag::WeakTonality,
        2 => AnalysisFlag::TempoVariation,
        _ => AnalysisFlag::OnsetDetectionAmbiguous,
    }
}
fn unit(r: &mut Rng) -> f32 {
    match r.us(0, 9) {
        0 => 0.0,
        1 => 1.0,
        2 => *r.pick(&[-0.5f32, 1.5, -1e-9, 1e9, 1.0000001]),
        3 => *r.pick(&[0.2f32, 0.3, 0.5, 0.7]),
        4 => r.lrange(1e-9, 1e-2) as f32,
        _ => r.f() as f32,
    }
}
fn f_any(r: &mut Rng) -> f32 {
    loop {
        let x = match r.us(0, 4) {
            0 => f32::from_bits(r.u64() as u32),
            1 => r.us(0, 1000) as f32,
            2 => r.lrange(1e-30, 1e30) as f32,
            _ => r.range(-5.0, 300.0) as f32,
        };
        if x.is_finite() {
            return x;
        }
    }
}
const TEXTS: [&str; 14] = [
    "BPM detection failed", "Low key confidence: may be ambiguous or atonal", "Key clarity is low", "weak tonality", "low bpm", "KEY", "Tonality",
    "Low grid stability", "", "monkey", "BPMs", "quote \" back \\ slash \n \u{0}\u{1F3B5}", "tempo uncertain", "atonality",
];
fn result(r: &mut Rng) -> AnalysisResult {
    let times = |r: &mut Rng| -> Vec<f32> { let n = r.us(0, 6); (0..n).map(|_| f_any(r)).collect() };
    let ob = |r: &mut Rng| match r.us(0, 2) { 0 => None, 1 => Some(true), _ => Some(false) };
    AnalysisResult {
        bpm: match r.us(0, 4) { 0 => 0.0, 1 => -3.0, 2 => r.lrange(1e-6, 1e-2) as f32, _ => r.range(40.0, 240.0) as f32 },
        bpm_confidence: unit(r),
        key: key_of(r.us(0, 23)),
        key_confidence: unit(r),
        key_clarity: unit(r),
        beat_grid: BeatGrid { downbeats: times(r), beats: times(r), bars: times(r) },
        grid_stability: unit(r),
        metadata: AnalysisMetadata {
            duration_seconds: f_any(r),
            sample_rate: *r.pick(&[44100u32, 48000, 0, u32::MAX, 1]),
            processing_time_ms: f_any(r),
            algorithm_version: TEXTS[r.us(0, 13)].to_string(),
            onset_method_consensus: unit(r),
            methods_used: (0..r.us(0, 3)).map(|_| TEXTS[r.us(0, 13)].to_string()).collect(),
            flags: (0..r.us(0, 4)).map(|_| flag(r)).collect(),
            confidence_warnings: if r.p(0.4) { vec![] } else { (0..r.us(1, 3)).map(|_| TEXTS[r.us(0, 13)].to_string()).collect() },
            tempogram_candidates: if r.p(0.5) {
                None
            } else {
                Some((0..r.us(0, 4)).map(|_| TempoCandidateDebug { bpm: f_any(r), score: f_any(r), fft_norm: unit(r), autocorr_norm: unit(r), selected: r.p(0.3) }).collect())
            },
            tempogram_multi_res_triggered: ob(r),
            tempogram_multi_res_used: ob(r),
            tempogram_percussive_triggered: ob(r),
            tempogram_percussive_used: ob(r),
        },
    }
}
fn nm(f: &AnalysisFlag) -> String {
    format!("{f:?}")
}

struct Rep {
    b: f64,
    k: f64,
    g: f64,
    o: f64,
}
fn scorer(x: &AnalysisResult) -> Rep {
    let warn = |p: &[&str]| x.metadata.confidence_warnings.iter().any(|w| p.iter().any(|q| w.contains(q)));
    let cl = |v: f32| (v as f64).clamp(0.0, 1.0);
    let b = if x.bpm <= 0.0 { 0.0 } else { cl(x.bpm_confidence) * if warn(&["BPM"]) { 0.7 } else { 1.0 } };
    let k = if x.key_confidence <= 0.0 {
        0.0
    } else {
        cl(x.key_confidence)
            * if x.key_clarity < 0.2 { 0.6 } else if x.key_clarity < 0.5 { 0.85 } else { 1.0 }
            * if warn(&["key", "Key", "tonality"]) { 0.7 } else { 1.0 }
    };
    let g = cl(x.grid_stability);
    let o = if b > 0.0 && k > 0.0 { (0.4 * b + 0.3 * k + 0.3 * g).clamp(0.0, 1.0) } else if b > 0.0 { 0.6 * b } else { 0.6 * k };
    Rep { b, k, g, o }
}

fn r01(c: &mut Case) -> R {
    let x = result(&mut c.rng);
    let d = format!("bpm {} ({}) key {} clarity {} grid {} warnings {:?}", x.bpm, x.bpm_confidence, x.key_confidence, x.key_clarity, x.grid_stability, x.metadata.confidence_warnings);
    let got = compute_confidence(&x);
    let w = scorer(&x);
    for (n, a, b) in [("tempo", got.bpm_confidence, w.b), ("key", got.key_confidence, w.k), ("grid", got.grid_stability, w.g), ("overall", got.overall_confidence, w.o)] {
        ensure!((0.0..=1.0).contains(&a), "{n} confidence {a} out of range: {d}");
        ensure!((a as f64 - b).abs() < 1e-6, "{n} confidence {a}, expected {b}: {d}");
    }
    // flags: those of the result, then the derived ones in order
    let mut want: Vec<String> = x.metadata.flags.iter().map(nm).collect();
    if got.bpm_confidence < 0.3 {
        want.push("MultimodalBpm".into());
    }
    if got.key_confidence < 0.2 {
        want.push("WeakTonality".into());
    }
    if got.grid_stability < 0.3 {
        want.push("TempoVariation".into());
    }
    let gf: Vec<String> = got.flags.iter().map(nm).collect();
    ensure!(gf == want, "flags {gf:?}, expected {want:?}: {d}");
    let o = got.overall_confidence;
    let (h, l, m) = (got.is_high_confidence(), got.is_low_confidence(), got.is_medium_confidence());
    ensure!(h == (o >= 0.7) && l == (o < 0.5) && m == (!h && !l), "levels high {h} medium {m} low {l} at {o}");
    let lv = got.confidence_level();
    ensure!(lv == if o >= 0.7 { "High" } else if o < 0.5 { "Low" } else { "Medium" }, "level {lv} at {o}");
    // hand-made reports at the thresholds
    let q = *c.rng.pick(&[0.0f32, 0.49999997, 0.5, 0.50000006, 0.6999999, 0.7, 0.70000005, 1.0, 0.6]);
    let mut hand = got.clone();
    hand.overall_confidence = q;
    ensure!(hand.is_high_confidence() == (q >= 0.7) && hand.is_low_confidence() == (q < 0.5) && hand.is_medium_confidence() == (0.5..0.7).contains(&q), "levels at {q}");
    // determined by the named fields alone
    let mut y = x.clone();
    y.beat_grid = BeatGrid { downbeats: vec![1.0], beats: vec![], bars: vec![2.0] };
    y.key = key_of(c.rng.us(0, 23));
    y.metadata.duration_seconds = f_any(&mut c.rng);
    y.metadata.onset_method_consensus = c.rng.f() as f32;
    y.metadata.tempogram_candidates = None;
    y.metadata.tempogram_multi_res_used = Some(c.rng.p(0.5));
    let z = compute_confidence(&y);
    ensure!(z.overall_confidence == o && z.bpm_confidence == got.bpm_confidence && z.key_confidence == got.key_confidence, "unrelated fields changed the report: {d}");
    // monotone while both measurements are present
    if w.b > 0.0 && w.k > 0.0 {
        let up = c.rng.f() as f32;
        for k in 0..4 {
            let mut y = x.clone();
            match k {
                0 => y.bpm_confidence = y.bpm_confidence.max(up),
                1 => y.key_confidence = y.key_confidence.max(up),
                2 => y.key_clarity = y.key_clarity.max(up),
                _ => y.grid_stability = y.grid_stability.max(up),
            }
            let z = compute_confidence(&y);
            ensure!(z.overall_confidence >= o - 1e-6, "raising component {k} to at least {up} lowered the overall score from {o} to {}: {d}", z.overall_confidence);
        }
        c.ev("monotone", 1);
    }
    c.ev(lv, 1);
    c.seen_h(hash_f32(&[x.bpm, x.bpm_confidence, x.key_confidence, x.key_clarity, x.grid_stability]));
    c.sample(json!({"case": d, "overall": o}));
    Ok(())
}

fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn r02(c: &mut Case) -> R {
    let x = result(&mut c.rng);
    let text = serde_json::to_string(&x).map_err(|e| format!("serialising: {e}"))?;
    let y: AnalysisResult = serde_json::from_str(&text).map_err(|e| format!("reading {text}: {e}"))?;
    macro_rules! same { ($($f:ident).+) => { ensure!(x.$($f).+.to_bits() == y.$($f).+.to_bits(), "{} {} became {}", stringify!($($f).+), x.$($f).+, y.$($f).+); } }
    same!(bpm);
    same!(bpm_confidence);
    same!(key_confidence);
    same!(key_clarity);
    same!(grid_stability);
    same!(metadata.duration_seconds);
    same!(metadata.processing_time_ms);
    same!(metadata.onset_method_consensus);
    ensure!(x.key == y.key, "key {:?} became {:?}", x.key, y.key);
    for (n, a, b) in [("downbeats", &x.beat_grid.downbeats, &y.beat_grid.downbeats), ("beats", &x.beat_grid.beats, &y.beat_grid.beats), ("bars", &x.beat_grid.bars, &y.beat_grid.bars)] {
        ensure!(bits(a) == bits(b), "{n} {a:?} became {b:?}");
    }
    let (m, n) = (&x.metadata, &y.metadata);
    ensure!(m.sample_rate == n.sample_rate && m.algorithm_version == n.algorithm_version && m.methods_used == n.methods_used && m.confidence_warnings == n.confidence_warnings, "metadata {m:?} became {n:?}");
    ensure!(m.flags.iter().map(nm).eq(n.flags.iter().map(nm)), "flags {:?} became {:?}", m.flags, n.flags);
    ensure!(
        (m.tempogram_multi_res_triggered, m.tempogram_multi_res_used, m.tempogram_percussive_triggered, m.tempogram_percussive_used)
            == (n.tempogram_multi_res_triggered, n.tempogram_multi_res_used, n.tempogram_percussive_triggered, n.tempogram_percussive_used),
        "diagnostics {m:?} became {n:?}"
    );
    match (&m.tempogram_candidates, &n.tempogram_candidates) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "{} candidates became {}", a.len(), b.len());
            for (p, q) in a.iter().zip(b) {
                ensure!(bits(&[p.bpm, p.score, p.fft_norm, p.autocorr_norm]) == bits(&[q.bpm, q.score, q.fft_norm, q.autocorr_norm]) && p.selected == q.selected, "candidate {p:?} became {q:?}");
            }
        }
        (a, b) => return Err(format!("candidates {a:?} became {b:?}")),
    }
    // the JSON carries the values under their documented names
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    for f in ["bpm", "bpm_confidence", "key", "key_confidence", "key_clarity", "beat_grid", "grid_stability", "metadata"] {
        ensure!(!v[f].is_null(), "field {f} missing in {text}");
    }
    ensure!(v["metadata"].get("tempogram_candidates").is_some() == m.tempogram_candidates.is_some(), "optional field written although absent (or missing): {text}");
    ensure!((v["bpm"].as_f64().unwrap_or(f64::NAN) as f32) == x.bpm, "bpm in {text}");
    // and once more
    ensure!(serde_json::to_string(&y).ok().as_deref() == Some(&text[..]), "second serialisation differs: {text}");
    // confidence report
    let r = compute_confidence(&x);
    let t = serde_json::to_string(&r).map_err(|e| e.to_string())?;
    let q: AnalysisConfidence = serde_json::from_str(&t).map_err(|e| format!("reading {t}: {e}"))?;
    ensure!(
        bits(&[r.bpm_confidence, r.key_confidence, r.grid_stability, r.overall_confidence]) == bits(&[q.bpm_confidence, q.key_confidence, q.grid_stability, q.overall_confidence])
            && r.flags.iter().map(nm).eq(q.flags.iter().map(nm)),
        "report {r:?} became {q:?}"
    );
    c.ev("round_trips", 1);
    c.ev("optional_present", m.tempogram_candidates.is_some() as u64);
    c.seen(&text);
    c.sample(json!({"json": text.chars().take(300).collect::<String>()}));
    Ok(())
}
