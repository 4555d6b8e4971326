From e0df8d9acd3e1b5a8dd5e4cf2ef33e96e26dec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 01/26] fix: Key::from_numerical must not panic on non-ASCII
 text

---
 src/analysis/result.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..9a68370 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -115,7 +115,8 @@ impl Key {
             return None;
         }
 
-        let (num_str, suffix) = notation.split_at(notation.len() - 1);
+        // Not a valid notation if the last byte is not a whole character
+        let (num_str, suffix) = notation.split_at_checked(notation.len() - 1)?;
         let num: u32 = num_str.parse().ok()?;
 
         if !(1..=12).contains(&num) {
-- 
2.43.0


From 95049bdef8ab2ca364689f01cd98339fd57e9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 02/26] fix: silence detection must not divide by zero for
 one-sample frames

---
 src/preprocessing/silence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From 5190d7261864720d94b1e856672f7aae6e2810a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 03/26] fix: break key voting ties deterministically

---
 src/features/key/detector.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..d7f6bd3 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -258,16 +258,20 @@ pub fn detect_key_weighted(
 
     let final_key = if use_weighted_voting {
         // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        let mut key_votes: Vec<(Key, f32)> = Vec::with_capacity(3);
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
-            *key_votes.entry(*key).or_insert(0.0) += vote_weight;
+            match key_votes.iter_mut().find(|(k, _)| k == key) {
+                Some((_, votes)) => *votes += vote_weight,
+                None => key_votes.push((*key, vote_weight)),
+            }
         }
 
-        // Select key with highest vote count
+        // Select key with highest vote count; ties go to the better-ranked key
         key_votes
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+            .rev()
+            .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
             .map(|(k, _)| *k)
             .unwrap_or(best_key)
     } else {
-- 
2.43.0


From 132dd14c75efc5a91c8081f654159c6a264349fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 04/26] fix: break segment-majority key ties deterministically

---
 src/features/key/detector.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index d7f6bd3..732bcca 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -774,17 +774,21 @@ pub fn detect_key_median(
     }
 
     // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += result.confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += result.confidence;
+            }
+            None => key_counts.push((*key, (1, result.confidence))),
+        }
     }
 
-    // Select median key (most common, with confidence as tiebreaker)
+    // Select median key (most common, with confidence as tiebreaker, then the earliest key)
     let (median_key, (count, _total_conf)) = key_counts
         .iter()
+        .rev()
         .max_by(|a, b| {
             // First by count, then by total confidence
             match a.1 .0.cmp(&b.1 .0) {
-- 
2.43.0


From 13c38b75baff00f7f9948f8cb6ca79ac947a1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 05/26] fix: break primary-key ties in key-change detection
 deterministically

---
 src/features/key/key_changes.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..8f60971 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -132,16 +132,21 @@ pub fn detect_key_changes(
     }
 
     // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (_, key, confidence) in &segment_keys {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += confidence;
+            }
+            None => key_counts.push((*key, (1, *confidence))),
+        }
     }
 
+    // Ties go to the key that appears first
     let (primary_key, (count, total_confidence)) = key_counts
         .iter()
+        .rev()
         .max_by_key(|(_, (count, _))| *count)
         .unwrap();
 
-- 
2.43.0


From bfda3b72501039e29557fd82c988f88fe5029d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 06/26] fix: reject an overlap longer than the segment in
 key-change detection

---
 src/features/key/key_changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index 8f60971..5a3cafc 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -92,7 +92,7 @@ pub fn detect_key_changes(
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From 58b7441270776acd6d4774deca80ddf2091e44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 07/26] fix: reject non-finite onset times and tempo in beat
 tracking

---
 src/features/beat_tracking/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..60f9db4 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -111,7 +111,7 @@ pub fn generate_beat_grid(
     onsets: &[f32],
     sample_rate: u32,
 ) -> Result<(BeatGrid, f32), AnalysisError> {
-    if bpm_estimate <= 0.0 || bpm_estimate > 300.0 {
+    if bpm_estimate.is_nan() || bpm_estimate <= 0.0 || bpm_estimate > 300.0 {
         return Err(AnalysisError::InvalidInput(format!(
             "Invalid BPM estimate: {:.2}",
             bpm_estimate
@@ -124,6 +124,12 @@ pub fn generate_beat_grid(
         ));
     }
 
+    if onsets.iter().any(|onset| !onset.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Cannot generate beat grid: non-finite onset time".to_string(),
+        ));
+    }
+
     log::debug!(
         "Generating beat grid: BPM={:.2}, confidence={:.3}, {} onsets",
         bpm_estimate,
-- 
2.43.0


From ee8e53b5a08cfccd303c4d21d11e27894db2133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 08/26] fix: do not report the same beat twice when tempo
 segments overlap

---
 src/features/beat_tracking/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 60f9db4..b60dff0 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -50,6 +50,9 @@ use crate::error::AnalysisError;
 use tempo_variation::{detect_tempo_variations, has_tempo_variation};
 use time_signature::{detect_time_signature, TimeSignature};
 
+/// Beats from overlapping tempo segments closer than this (seconds) are the same beat
+const MIN_BEAT_SPACING_S: f32 = 0.05;
+
 /// Beat position in a bar
 #[derive(Debug, Clone)]
 pub struct BeatPosition {
@@ -216,6 +219,8 @@ pub fn generate_beat_grid(
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
             refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+            // Segments overlap, so the same beat can be found twice: keep one of each
+            refined_beats.dedup_by(|b, a| b.time_seconds - a.time_seconds < MIN_BEAT_SPACING_S);
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
-- 
2.43.0


From 865340325b6b003221907b353e825c7a6afb7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 09/26] fix: mel filterbank must not panic at very low sample
 rates

---
 src/features/period/novelty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..c17d2fa 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.max(fmin + 1.0).min(nyquist); // Not clamp: nyquist may be below fmin + 1
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
-- 
2.43.0


From 6fa50b40e7971c34c95c9742605dddb449d8d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 10/26] fix: tuning estimation and harmonic mask must not panic
 at very low sample rates

---
 src/features/chroma/extractor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..3f2bf7f 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -98,7 +98,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0); // Not clamp: Nyquist may be below fmin + 1
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -1403,7 +1403,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0); // Not clamp: Nyquist may be below fmin + 1
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
-- 
2.43.0


From a9c8225d544c0e38df65be747f66276b08e03b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 11/26] fix: STFT must reject a zero frame or hop size instead
 of panicking

---
 src/features/chroma/extractor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 3f2bf7f..4c8ef6c 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -303,6 +303,12 @@ pub fn compute_stft(
     frame_size: usize,
     hop_size: usize,
 ) -> Result<Vec<Vec<f32>>, AnalysisError> {
+    if frame_size == 0 || hop_size == 0 {
+        return Err(AnalysisError::InvalidInput(
+            "Frame size and hop size must be > 0".to_string(),
+        ));
+    }
+
     let n_samples = samples.len();
 
     if n_samples < frame_size {
-- 
2.43.0


From 40b55ac7d62249472c7c6054ec36c67818677089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 12/26] fix: log-frequency conversion must reject an empty band
 instead of panicking

---
 src/features/chroma/extractor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 4c8ef6c..183ceb5 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -749,14 +749,15 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     // Round to nearest semitone and create bin range
     let semitone_bin_min = semitone_min.floor() as i32;
     let semitone_bin_max = semitone_max.ceil() as i32;
-    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
 
-    if n_semitone_bins == 0 {
+    if fmin >= fmax || semitone_bin_max < semitone_bin_min {
         return Err(AnalysisError::InvalidInput(
             "Invalid semitone range: fmin >= fmax".to_string(),
         ));
     }
 
+    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
+
     // Precompute semitone bin frequency bounds (for reference, not used in conversion)
     // Note: We use direct interpolation in the conversion loop below, so this is just for documentation
     let _semitone_freqs: Vec<(f32, f32)> = (0..n_semitone_bins)
-- 
2.43.0


From d2a0c3438af515e1dfb6c17c24051c10df6eaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 13/26] fix: report the RMS before normalization and the gain
 actually applied

---
 src/preprocessing/normalization.rs | 38 ++++++++++++------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 5aca65f..20f7bef 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -289,17 +289,12 @@ fn normalize_peak(
     // max_headroom_db is the headroom below 0 dB, so target is 0 dB - headroom
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     let gain_linear = target_peak_linear / peak;
-    let gain_db = 20.0 * gain_linear.log10();
 
     // Ensure we don't exceed 1.0
     let gain_linear = gain_linear.min(1.0 / peak);
+    let gain_db = 20.0 * gain_linear.log10();
 
-    // Apply gain
-    for sample in samples.iter_mut() {
-        *sample *= gain_linear;
-    }
-
-    // Calculate RMS for metadata
+    // Calculate RMS for metadata (before normalization)
     let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
@@ -307,6 +302,11 @@ fn normalize_peak(
         f32::NEG_INFINITY
     };
 
+    // Apply gain
+    for sample in samples.iter_mut() {
+        *sample *= gain_linear;
+    }
+
     log::debug!(
         "Peak normalization: peak={:.2} dB, gain={:.2} dB",
         peak_db,
@@ -427,6 +427,14 @@ fn normalize_lufs(
     let peak = samples.iter().map(|&x| x.abs()).fold(0.0f32, f32::max);
     let peak_db = 20.0 * peak.log10();
 
+    // Calculate RMS for metadata (before normalization)
+    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms_db = if rms > EPSILON {
+        20.0 * rms.log10()
+    } else {
+        f32::NEG_INFINITY
+    };
+
     let new_peak = peak * gain_linear;
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     if new_peak > target_peak_linear {
@@ -439,14 +447,6 @@ fn normalize_lufs(
             *sample *= max_gain_linear;
         }
 
-        // Calculate RMS for metadata
-        let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-        let rms_db = if rms > EPSILON {
-            20.0 * rms.log10()
-        } else {
-            f32::NEG_INFINITY
-        };
-
         return Ok(LoudnessMetadata {
             measured_lufs: Some(measured_lufs),
             peak_db,
@@ -460,14 +460,6 @@ fn normalize_lufs(
         *sample *= gain_linear;
     }
 
-    // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-    let rms_db = if rms > EPSILON {
-        20.0 * rms.log10()
-    } else {
-        f32::NEG_INFINITY
-    };
-
     log::debug!(
         "LUFS normalization: measured={:.2} LUFS, target={:.2} LUFS, gain={:.2} dB",
         measured_lufs,
-- 
2.43.0


From 8137127e9e082eafd67efdc7fcfaa30200530675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:51 +0000
Subject: [PATCH 14/26] fix: onset-based tempo confidence must stay within [0,
 1]

---
 src/features/period/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index ed193f4..618706d 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -338,7 +338,11 @@ fn estimate_bpm_internal(
         }
     }
 
-    let best = merged_vec.first().cloned();
+    // Consensus boosts rank candidates and may exceed 1.0; the reported confidence may not.
+    let best = merged_vec.first().cloned().map(|mut est| {
+        est.confidence = est.confidence.min(1.0);
+        est
+    });
     if let Some(ref est) = best {
         log::debug!("=== FINAL BPM SELECTION ===");
         log::debug!(
-- 
2.43.0


From 54cef1f711ce59aefbf625fbb39b60a2c497a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:56 +0000
Subject: [PATCH 15/26] fix: onset voting must not wrap sample positions beyond
 31 bits

---
 src/features/onset/consensus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..59b3bd1 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -213,9 +213,7 @@ pub fn vote_onsets(
         for cluster in &mut clusters {
             // Check if this onset is within tolerance of any onset in the cluster
             for existing_onset in cluster.iter() {
-                if (onset.sample as i32 - existing_onset.sample as i32).unsigned_abs() as usize
-                    <= tolerance_samples
-                {
+                if onset.sample.abs_diff(existing_onset.sample) <= tolerance_samples {
                     cluster.push(onset);
                     added = true;
                     break;
-- 
2.43.0


From bcc045431d4cecfdd8eb976cc6ec77763ccae861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:56 +0000
Subject: [PATCH 16/26] fix: onset voting must reject non-finite weights

---
 src/features/onset/consensus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 59b3bd1..c560d34 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -129,9 +129,9 @@ pub fn vote_onsets(
 
     // Validate weights (should be non-negative, but don't require sum=1.0 for flexibility)
     for &w in &weights {
-        if w < 0.0 {
+        if !w.is_finite() || w < 0.0 {
             return Err(AnalysisError::InvalidInput(
-                "Weights must be non-negative".to_string(),
+                "Weights must be finite and non-negative".to_string(),
             ));
         }
     }
-- 
2.43.0


From 932bc2733cb8c7d41432feb6afbf5281a631f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:09 +0000
Subject: [PATCH 17/26] fix: FFT rounding noise must not be proposed as a
 recurring onset lag

---
 src/features/period/autocorrelation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..e85a84c 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -181,6 +181,13 @@ pub fn estimate_bpm_from_autocorrelation(
         return Ok(vec![]);
     }
 
+    // The ACF of a binary signal counts coinciding onsets, so values below one half are
+    // rounding noise of the FFT: no onsets recur at any lag in the range
+    if acf[lag_min..=lag_max].iter().all(|&v| v < 0.5) {
+        log::debug!("No recurring onsets in lag range [{}, {}]", lag_min, lag_max);
+        return Ok(vec![]);
+    }
+
     // Step 4: Find peaks in ACF within lag range
     let peaks = find_peaks_in_acf(&acf[lag_min..=lag_max], lag_min)?;
 
-- 
2.43.0


From 7a832184796ce866afdc1be7d842dbe1c5821336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 18/26] fix: sorting values that may be NaN must not panic

Sorting with partial_cmp().unwrap() panics on NaN, and with
unwrap_or(Equal) the standard sort may panic because the order is not
total. Both are reachable from analyze_audio with non-finite or very large
samples, and with ordinary audio when a mask power overflows. total_cmp
orders every float.
---
 src/features/chroma/extractor.rs          |  8 ++------
 src/features/chroma/smoothing.rs          |  2 +-
 src/features/key/detector.rs              | 10 +++++-----
 src/features/key/key_clarity.rs           | 10 ++--------
 src/features/onset/consensus.rs           |  6 +-----
 src/features/onset/hfc.rs                 |  2 +-
 src/features/onset/hpss.rs                |  6 +++---
 src/features/onset/spectral_flux.rs       |  2 +-
 src/features/onset/threshold.rs           |  6 +++---
 src/features/period/autocorrelation.rs    | 14 +++++++-------
 src/features/period/candidate_filter.rs   |  4 +---
 src/features/period/comb_filter.rs        | 12 ++----------
 src/features/period/mod.rs                |  6 +-----
 src/features/period/multi_resolution.rs   | 10 +++-------
 src/features/period/peak_picking.rs       |  4 ++--
 src/features/period/tempogram.rs          |  8 ++------
 src/features/period/tempogram_autocorr.rs |  2 +-
 src/features/period/tempogram_fft.rs      |  2 +-
 src/lib.rs                                |  8 +++-----
 19 files changed, 42 insertions(+), 80 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 183ceb5..05fd647 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -28,7 +28,6 @@
 use crate::error::AnalysisError;
 use rustfft::num_complex::Complex;
 use rustfft::FftPlanner;
-use std::cmp::Ordering;
 
 /// Numerical stability epsilon
 const EPSILON: f32 = 1e-10;
@@ -622,9 +621,7 @@ fn frame_to_hpcp_tuned_band(
 
     // Keep top-K peaks by magnitude.
     let k = peaks_per_frame.clamp(1, peaks.len());
-    peaks.select_nth_unstable_by(k - 1, |a, b| {
-        b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
-    });
+    peaks.select_nth_unstable_by(k - 1, |a, b| b.1.total_cmp(&a.1));
     peaks.truncate(k);
 
     let sigma = soft_mapping_sigma.max(1e-6);
@@ -1439,8 +1436,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
             return 0.0;
         }
         let mid = v.len() / 2;
-        let (_, m, _) =
-            v.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+        let (_, m, _) = v.select_nth_unstable_by(mid, |a, b| a.total_cmp(b));
         *m
     }
 
diff --git a/src/features/chroma/smoothing.rs b/src/features/chroma/smoothing.rs
index 2b082a0..4086083 100644
--- a/src/features/chroma/smoothing.rs
+++ b/src/features/chroma/smoothing.rs
@@ -79,7 +79,7 @@ pub fn smooth_chroma(chroma_vectors: &[Vec<f32>], window_size: usize) -> Vec<Vec
 
             // Compute median
             if !window_values.is_empty() {
-                window_values.sort_by(|a, b| a.partial_cmp(b).unwrap());
+                window_values.sort_by(|a, b| a.total_cmp(b));
                 let median_idx = window_values.len() / 2;
                 smoothed_frame[semitone_idx] = window_values[median_idx];
             } else {
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 732bcca..7f87bca 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -243,7 +243,7 @@ pub fn detect_key_weighted(
     scores = refined_scores;
 
     // Step 2: Sort by score (highest first)
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Step 3: Select best key using weighted top-N voting (if top keys are close)
     // This helps when the best key is only slightly better than alternatives
@@ -398,7 +398,7 @@ pub fn detect_key_weighted_mode_heuristic(
     }
 
     // Re-sort with the bonus applied and compute the new best key.
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
     let (best_key, _best_score) = scores[0];
 
     // Build quick score lookup tables for parallel/tonic mode flipping (post-bonus).
@@ -678,7 +678,7 @@ pub fn detect_key_multi_scale(
         }
 
         // Sort and build result
-        acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+        acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
         let (best_key, best_score) = acc_scores[0];
         let second_score = if acc_scores.len() > 1 {
             acc_scores[1].1
@@ -831,7 +831,7 @@ pub fn detect_key_median(
     }
 
     // Sort by aggregate score
-    aggregate_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    aggregate_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Use median key, but compute confidence from aggregate scores
     let median_score = aggregate_scores
@@ -945,7 +945,7 @@ pub fn detect_key_ensemble(
     }
 
     // Sort by combined score (highest first)
-    combined_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    combined_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Select best key and compute confidence
     let (best_key, best_score) = combined_scores[0];
diff --git a/src/features/key/key_clarity.rs b/src/features/key/key_clarity.rs
index 51f7efb..2ffe4d6 100644
--- a/src/features/key/key_clarity.rs
+++ b/src/features/key/key_clarity.rs
@@ -71,14 +71,8 @@ pub fn compute_key_clarity(scores: &[(crate::analysis::result::Key, f32)]) -> f3
     let average_score = sum / score_values.len() as f32;
 
     // Find range (max - min)
-    let min_score = *score_values
-        .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
-    let max_score = *score_values
-        .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+    let min_score = *score_values.iter().min_by(|a, b| a.total_cmp(b)).unwrap();
+    let max_score = *score_values.iter().max_by(|a, b| a.total_cmp(b)).unwrap();
     let range = max_score - min_score;
 
     // Compute clarity: (best - average) / range
diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index c560d34..179b991 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -270,11 +270,7 @@ pub fn vote_onsets(
     }
 
     // Step 5: Sort by confidence (highest first)
-    candidates.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    candidates.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     log::debug!(
         "Consensus voting produced {} onset candidates",
diff --git a/src/features/onset/hfc.rs b/src/features/onset/hfc.rs
index b759b1f..d34ee99 100644
--- a/src/features/onset/hfc.rs
+++ b/src/features/onset/hfc.rs
@@ -160,7 +160,7 @@ pub fn detect_hfc_onsets(
     // Step 3: Apply percentile-based threshold
     // Sort flux values to find percentile
     let mut sorted_flux = hfc_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/hpss.rs b/src/features/onset/hpss.rs
index e90c795..3b2a1d0 100644
--- a/src/features/onset/hpss.rs
+++ b/src/features/onset/hpss.rs
@@ -192,7 +192,7 @@ fn apply_horizontal_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Ve
             let mut window: Vec<f32> = (start..end).map(|f| spectrogram[f][bin_idx]).collect();
 
             // Compute median
-            window.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            window.sort_by(|a, b| a.total_cmp(b));
             let median = if window.is_empty() {
                 0.0
             } else if window.len().is_multiple_of(2) {
@@ -226,7 +226,7 @@ fn apply_vertical_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Vec<
             let mut window: Vec<f32> = (start..end).map(|b| spectrogram[frame_idx][b]).collect();
 
             // Compute median
-            window.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            window.sort_by(|a, b| a.total_cmp(b));
             let median = if window.is_empty() {
                 0.0
             } else if window.len().is_multiple_of(2) {
@@ -322,7 +322,7 @@ pub fn detect_hpss_onsets(
 
     // Apply percentile-based threshold
     let mut sorted_flux = energy_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/spectral_flux.rs b/src/features/onset/spectral_flux.rs
index be84ad4..7999f45 100644
--- a/src/features/onset/spectral_flux.rs
+++ b/src/features/onset/spectral_flux.rs
@@ -163,7 +163,7 @@ pub fn detect_spectral_flux_onsets(
     // Step 3: Apply percentile-based threshold
     // Sort flux values to find percentile
     let mut sorted_flux = spectral_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/threshold.rs b/src/features/onset/threshold.rs
index 55de9c7..2f75cda 100644
--- a/src/features/onset/threshold.rs
+++ b/src/features/onset/threshold.rs
@@ -46,7 +46,7 @@ pub fn adaptive_threshold_median_mad(values: &[f32], k: f32) -> Result<f32, Anal
 
     // Step 1: Compute median
     let mut sorted = values.to_vec();
-    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted.sort_by(|a, b| a.total_cmp(b));
 
     let median = if sorted.len().is_multiple_of(2) {
         (sorted[sorted.len() / 2 - 1] + sorted[sorted.len() / 2]) * 0.5
@@ -57,7 +57,7 @@ pub fn adaptive_threshold_median_mad(values: &[f32], k: f32) -> Result<f32, Anal
     // Step 2: Compute MAD (Median Absolute Deviation)
     // MAD = median(|values - median(values)|)
     let mut deviations: Vec<f32> = values.iter().map(|&v| (v - median).abs()).collect();
-    deviations.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    deviations.sort_by(|a, b| a.total_cmp(b));
 
     let mad = if deviations.len().is_multiple_of(2) {
         (deviations[deviations.len() / 2 - 1] + deviations[deviations.len() / 2]) * 0.5
@@ -100,7 +100,7 @@ pub fn percentile_threshold(values: &[f32], percentile: f32) -> Result<f32, Anal
     }
 
     let mut sorted = values.to_vec();
-    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted.len() as f32) * percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted.len() - 1);
diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index e85a84c..0916c47 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -184,7 +184,11 @@ pub fn estimate_bpm_from_autocorrelation(
     // The ACF of a binary signal counts coinciding onsets, so values below one half are
     // rounding noise of the FFT: no onsets recur at any lag in the range
     if acf[lag_min..=lag_max].iter().all(|&v| v < 0.5) {
-        log::debug!("No recurring onsets in lag range [{}, {}]", lag_min, lag_max);
+        log::debug!(
+            "No recurring onsets in lag range [{}, {}]",
+            lag_min,
+            lag_max
+        );
         return Ok(vec![]);
     }
 
@@ -211,11 +215,7 @@ pub fn estimate_bpm_from_autocorrelation(
     }
 
     // Sort by confidence (highest first)
-    candidates.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    candidates.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     log::debug!("Autocorrelation found {} BPM candidates", candidates.len());
 
@@ -339,7 +339,7 @@ fn find_peaks_in_acf(
     }
 
     // Sort by value (highest first)
-    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     Ok(peaks)
 }
diff --git a/src/features/period/candidate_filter.rs b/src/features/period/candidate_filter.rs
index 65b0cd7..11954c4 100644
--- a/src/features/period/candidate_filter.rs
+++ b/src/features/period/candidate_filter.rs
@@ -402,9 +402,7 @@ pub fn merge_bpm_candidates(
             b.confidence
         };
 
-        let effective_conf_cmp = b_effective_conf
-            .partial_cmp(&a_effective_conf)
-            .unwrap_or(std::cmp::Ordering::Equal);
+        let effective_conf_cmp = b_effective_conf.total_cmp(&a_effective_conf);
 
         // If effective confidence is close (within 50%), strongly prefer in-range
         // This ensures reasonable candidates win when available, even if slightly lower confidence
diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..856a508 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -196,11 +196,7 @@ pub fn estimate_bpm_from_comb_filter(
 
     // Sort by confidence (highest first)
     let mut result = normalized_candidates;
-    result.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    result.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     // Filter out very low confidence candidates (< 0.1)
     result.retain(|c| c.confidence >= 0.1);
@@ -310,11 +306,7 @@ pub fn coarse_to_fine_search(
     };
 
     // Sort by confidence (highest first)
-    result.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    result.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     log::debug!(
         "Coarse-to-fine search found {} BPM candidates (best: {:.2} BPM, confidence: {:.3})",
diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index 618706d..d9e17cf 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -314,11 +314,7 @@ fn estimate_bpm_internal(
             );
         }
         // Re-sort after capping to maintain descending-confidence order.
-        merged_vec.sort_by(|a, b| {
-            b.confidence
-                .partial_cmp(&a.confidence)
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        merged_vec.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
     }
 
     // Special case: If autocorrelation's top preferred result exists, prefer it
diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f3740b7..313dd08 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -385,7 +385,7 @@ pub fn multi_resolution_tempogram_from_samples(
                     *s *= 0.92;
                 }
             }
-            local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+            local.sort_by(|a, b| b.1.total_cmp(&a.1));
             eprintln!("Fusion scores (T anchored at GT, after guardrails+prior):");
             for (b, s, tag) in &local {
                 eprintln!("  {:>3} bpm={:7.2} score={:.4}", tag, *b, *s);
@@ -489,7 +489,7 @@ pub fn multi_resolution_tempogram_from_samples(
             }
         }
 
-        local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+        local.sort_by(|a, b| b.1.total_cmp(&a.1));
         if local.is_empty() {
             continue;
         }
@@ -529,11 +529,7 @@ pub fn multi_resolution_tempogram_from_samples(
     }
 
     // Deduplicate hypotheses by BPM proximity; keep highest score per cluster.
-    hyps.sort_by(|a, b| {
-        b.score
-            .partial_cmp(&a.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    hyps.sort_by(|a, b| b.score.total_cmp(&a.score));
     let mut unique: Vec<Hyp> = Vec::new();
     for h in hyps {
         if unique.iter().any(|u| (u.bpm - h.bpm).abs() < 0.75) {
diff --git a/src/features/period/peak_picking.rs b/src/features/period/peak_picking.rs
index fbca90b..8bc492a 100644
--- a/src/features/period/peak_picking.rs
+++ b/src/features/period/peak_picking.rs
@@ -101,7 +101,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
     // Enforce minimum distance
     if min_distance > 0 && peaks.len() > 1 {
         // Sort by value (highest first) to keep best peaks
-        peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+        peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
         let mut filtered_peaks = Vec::new();
         for (idx, value) in peaks {
@@ -119,7 +119,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
     }
 
     // Final sort by value (highest first)
-    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!("Found {} peaks", peaks.len());
 
diff --git a/src/features/period/tempogram.rs b/src/features/period/tempogram.rs
index 933d730..24d1f43 100644
--- a/src/features/period/tempogram.rs
+++ b/src/features/period/tempogram.rs
@@ -558,7 +558,7 @@ fn estimate_bpm_tempogram_impl(
     }
 
     // Deduplicate by clustering within ~0.75 BPM
-    candidates.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    candidates.sort_by(|a, b| a.total_cmp(b));
     let mut uniq: Vec<f32> = Vec::new();
     for bpm in candidates {
         if let Some(last) = uniq.last().copied() {
@@ -652,11 +652,7 @@ fn estimate_bpm_tempogram_impl(
         });
     }
 
-    scored.sort_by(|a, b| {
-        b.score
-            .partial_cmp(&a.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    scored.sort_by(|a, b| b.score.total_cmp(&a.score));
     let mut best = scored.first().cloned().ok_or_else(|| {
         AnalysisError::ProcessingError("No BPM candidates could be scored".to_string())
     })?;
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..412f5d7 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -162,7 +162,7 @@ pub fn autocorrelation_tempogram(
     }
 
     // Sort by strength (highest first)
-    tempogram.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    tempogram.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!(
         "Autocorrelation tempogram: {} BPM candidates, top BPM={:.1} (strength={:.6})",
diff --git a/src/features/period/tempogram_fft.rs b/src/features/period/tempogram_fft.rs
index c12fa76..d72fe8e 100644
--- a/src/features/period/tempogram_fft.rs
+++ b/src/features/period/tempogram_fft.rs
@@ -179,7 +179,7 @@ pub fn fft_tempogram(
     }
 
     // Sort by power (highest first)
-    tempogram.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    tempogram.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!(
         "FFT tempogram: {} BPM candidates, top BPM={:.1} (power={:.6})",
diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..b3b1a07 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1256,7 +1256,7 @@ pub fn analyze_audio(
                 {
                     // Median energy for scale normalization.
                     let mut sorted = energy_slice.to_vec();
-                    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                    sorted.sort_by(|a, b| a.total_cmp(b));
                     let median = sorted[sorted.len() / 2].max(1e-12);
 
                     let mut weights = Vec::with_capacity(chroma_slice.len());
@@ -1412,7 +1412,7 @@ pub fn analyze_audio(
                             }
                         } else {
                             // Sort accumulated scores and build a KeyDetectionResult.
-                            acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+                            acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
                             let (best_key, best_score) = acc_scores[0];
                             let second_score = if acc_scores.len() > 1 {
                                 acc_scores[1].1
@@ -1493,9 +1493,7 @@ pub fn analyze_audio(
                             }
                             let mut pcs: Vec<(usize, f32)> =
                                 agg.iter().cloned().enumerate().collect();
-                            pcs.sort_by(|a, b| {
-                                b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
-                            });
+                            pcs.sort_by(|a, b| b.1.total_cmp(&a.1));
 
                             eprintln!("\n=== DEBUG key (track_id={}) ===", track_id);
                             eprintln!(
-- 
2.43.0


From 0f52b8a832994e1fcaf59b747dc78f140f6ec85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:49 +0000
Subject: [PATCH 19/26] fix: key names must start with a note letter, and odd
 digits must not crash

normalize_key raised ValueError for text such as a superscript two followed
by A, and read a lone flat sign as the note B.
---
 validation/_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validation/_keys.py b/validation/_keys.py
index efda7a5..7b3da1b 100644
--- a/validation/_keys.py
+++ b/validation/_keys.py
@@ -57,7 +57,7 @@ def normalize_key(key_str: str) -> str:
     if (
         len(s_upper) in (2, 3)
         and s_upper[-1] in ("A", "B")
-        and s_upper[:-1].isdigit()
+        and s_upper[:-1].isdecimal()
         and 1 <= int(s_upper[:-1]) <= 12
     ):
         mapped = _numerical_to_key(s_upper)
@@ -65,7 +65,7 @@ def normalize_key(key_str: str) -> str:
             return mapped
 
     # Normalize unicode accidentals and whitespace
-    s = s_raw.replace("♭", "b").replace("♯", "#").strip()
+    s = s_raw[0] + s_raw[1:].replace("♭", "b").replace("♯", "#")
     lower = s.lower()
 
     # Identify minor/major descriptors
-- 
2.43.0


From 371a86340afddd7ac74e1f4e52b2216303affb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:49 +0000
Subject: [PATCH 20/26] fix: Cb, Fb, E# and B# are enharmonic spellings of
 natural notes

normalize_key left them as they were, so 'Cb' never matched 'B' and had no
numeric key.
---
 validation/_keys.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/validation/_keys.py b/validation/_keys.py
index 7b3da1b..3c1a8d7 100644
--- a/validation/_keys.py
+++ b/validation/_keys.py
@@ -100,8 +100,11 @@ def normalize_key(key_str: str) -> str:
             accidental = "b"
 
     base = note + accidental
-    # Convert flats to sharps
-    flat_map = {"Db": "C#", "Eb": "D#", "Gb": "F#", "Ab": "G#", "Bb": "A#"}
+    # Convert flats (and the enharmonic spellings of natural notes) to canonical names
+    flat_map = {
+        "Db": "C#", "Eb": "D#", "Gb": "F#", "Ab": "G#", "Bb": "A#",
+        "Cb": "B", "Fb": "E", "E#": "F", "B#": "C",
+    }
     base = flat_map.get(base, base)
 
     return base + ("m" if is_minor else "")
-- 
2.43.0


From 4c99abdded9802da3780cbc1e624634dde059334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 21/26] fix: split UTF-16 TXXX tag frames at an aligned
 terminator

A UTF-16LE description such as "initialkey" ends in a zero byte, so the first
pair of zero bytes straddled its last character: the description lost it and
the value was decoded out of phase, and the tag's key or BPM was missed.
---
 validation/_id3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/validation/_id3.py b/validation/_id3.py
index 8231d42..b3646b6 100644
--- a/validation/_id3.py
+++ b/validation/_id3.py
@@ -145,7 +145,10 @@ def read_id3_text_fields(mp3_path: Path) -> dict:
             if enc in (0, 3):  # single-byte encodings
                 parts = rest.split(b"\x00", 1)
             else:  # UTF-16 variants
-                parts = rest.split(b"\x00\x00", 1)
+                # The terminator is one zero code unit: look for it on 2-byte boundaries only
+                # ("y\0" + "\0\0" also contains a pair of zero bytes at an odd offset).
+                end = next((i for i in range(0, len(rest) - 1, 2) if rest[i:i + 2] == b"\x00\x00"), None)
+                parts = [rest] if end is None else [rest[:end], rest[end + 2:]]
             if len(parts) != 2:
                 continue
             desc = _decode_text_frame(bytes([enc]) + parts[0]).strip()
-- 
2.43.0


From c34d87c7f6e323a453bab09d22463f1c726b4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 22/26] fix: forward the --key-median options of run_validation
 to the analyser

They were accepted and then dropped, so a run with --key-median measured the
default configuration.
---
 validation/tools/run_validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/validation/tools/run_validation.py b/validation/tools/run_validation.py
index 601f585..f5259fd 100644
--- a/validation/tools/run_validation.py
+++ b/validation/tools/run_validation.py
@@ -567,6 +567,18 @@ def main():
     if args.key_ensemble_temperley_weight is not None:
         extra_args += ["--key-ensemble-temperley-weight", str(float(args.key_ensemble_temperley_weight))]
 
+    # Pass-through key median flags (if provided)
+    if args.key_median:
+        extra_args.append("--key-median")
+    if args.no_key_median:
+        extra_args.append("--no-key-median")
+    if args.key_median_segment_length_frames is not None:
+        extra_args += ["--key-median-segment-length-frames", str(int(args.key_median_segment_length_frames))]
+    if args.key_median_segment_hop_frames is not None:
+        extra_args += ["--key-median-segment-hop-frames", str(int(args.key_median_segment_hop_frames))]
+    if args.key_median_min_segments is not None:
+        extra_args += ["--key-median-min-segments", str(int(args.key_median_min_segments))]
+
     # Pass-through multi-resolution tuning flags (if provided)
     if args.multi_res_top_k is not None:
         extra_args += ["--multi-res-top-k", str(args.multi_res_top_k)]
-- 
2.43.0


From 0fd284f79c2b93a07eec00be4ed3413b2e2a48b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:28 +0000
Subject: [PATCH 23/26] fix: measure the RMS level of long audio in double
 precision

---
 src/preprocessing/normalization.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 20f7bef..86dfa32 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -258,6 +258,15 @@ fn calculate_lufs(samples: &[f32], sample_rate: f32) -> Result<f32, AnalysisErro
     Ok(lufs)
 }
 
+/// Mean square of the samples
+///
+/// Accumulated in double precision: a single-precision running sum stops growing
+/// after a few minutes of audio.
+fn mean_square(samples: &[f32]) -> f32 {
+    let sum_sq: f64 = samples.iter().map(|&x| x as f64 * x as f64).sum();
+    (sum_sq / samples.len() as f64) as f32
+}
+
 /// Normalize audio samples using peak normalization
 fn normalize_peak(
     samples: &mut [f32],
@@ -295,7 +304,7 @@ fn normalize_peak(
     let gain_db = 20.0 * gain_linear.log10();
 
     // Calculate RMS for metadata (before normalization)
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms = mean_square(samples).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
     } else {
@@ -334,7 +343,7 @@ fn normalize_rms(
     }
 
     // Calculate current RMS
-    let rms_sq = samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32;
+    let rms_sq = mean_square(samples);
     let rms = rms_sq.sqrt();
 
     if rms <= EPSILON {
@@ -428,7 +437,7 @@ fn normalize_lufs(
     let peak_db = 20.0 * peak.log10();
 
     // Calculate RMS for metadata (before normalization)
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms = mean_square(samples).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
     } else {
-- 
2.43.0


From 0f5848af16a8f6bbc294585cd5f700ba6477d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:30 +0000
Subject: [PATCH 24/26] fix: keep quiet bins that follow loud ones in HPCP
 whitening

The whitening mean was a difference of single-precision running sums, which
loses bins much quieter than the ones before them, so the wrong peaks were
kept. Accumulate in double precision.
---
 src/features/chroma/extractor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 05fd647..deb7610 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -568,9 +568,11 @@ fn frame_to_hpcp_tuned_band(
     if use_whitening {
         let win = whitening_smooth_bins.max(3) | 1; // force odd window
         let half = win / 2;
-        let mut prefix = vec![0.0f32; magnitude_frame.len() + 1];
+        // Double precision: differences of single-precision running sums lose the quiet
+        // bins that follow loud ones.
+        let mut prefix = vec![0.0f64; magnitude_frame.len() + 1];
         for (i, &x) in magnitude_frame.iter().enumerate() {
-            prefix[i + 1] = prefix[i] + x.max(0.0);
+            prefix[i + 1] = prefix[i] + f64::from(x.max(0.0));
         }
         whitened.resize(magnitude_frame.len(), 0.0);
         let eps = 1e-12f32;
@@ -578,7 +580,7 @@ fn frame_to_hpcp_tuned_band(
             let l = i.saturating_sub(half);
             let r = (i + half).min(magnitude_frame.len().saturating_sub(1));
             let denom = (r + 1 - l) as f32;
-            let mean = (prefix[r + 1] - prefix[l]) / denom.max(1.0);
+            let mean = (prefix[r + 1] - prefix[l]) as f32 / denom.max(1.0);
             let v = magnitude_frame[i].max(0.0) / (mean + eps);
             whitened[i] = v.min(20.0);
         }
-- 
2.43.0


From a001fd3fb54700b59c5198c9e68903613026eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:30 +0000
Subject: [PATCH 25/26] fix: keep quiet passages that follow loud ones in
 spectrogram smoothing

The moving average was a difference of single-precision running sums, which
loses frames much quieter than earlier ones. Accumulate in double precision.
---
 src/features/chroma/extractor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index deb7610..1dbfc69 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -1278,15 +1278,16 @@ pub fn smooth_spectrogram_time(
 
     // For each bin, do a sliding window average over time.
     for bin in 0..n_bins {
-        // Prefix sums for O(1) range sum queries.
-        let mut prefix = vec![0.0f32; n_frames + 1];
+        // Prefix sums for O(1) range sum queries. Double precision: differences of
+        // single-precision running sums lose a quiet passage that follows a loud one.
+        let mut prefix = vec![0.0f64; n_frames + 1];
         for t in 0..n_frames {
-            prefix[t + 1] = prefix[t] + magnitude_spec_frames[t][bin];
+            prefix[t + 1] = prefix[t] + f64::from(magnitude_spec_frames[t][bin]);
         }
         for (t, out_frame) in out.iter_mut().enumerate().take(n_frames) {
             let start = t.saturating_sub(margin);
             let end = (t + margin + 1).min(n_frames);
-            let sum = prefix[end] - prefix[start];
+            let sum = (prefix[end] - prefix[start]) as f32;
             let denom = (end - start).max(1) as f32;
             out_frame[bin] = sum / denom;
         }
-- 
2.43.0


From 553970d4e1c40171dd1d577414667c3870658e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:25 +0000
Subject: [PATCH 26/26] fix: count tracks with no BPM error in the candidate
 diagnosis breakdown

---
 validation/analysis/analyze_candidate_diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validation/analysis/analyze_candidate_diagnosis.py b/validation/analysis/analyze_candidate_diagnosis.py
index 529a193..dfc42e4 100644
--- a/validation/analysis/analyze_candidate_diagnosis.py
+++ b/validation/analysis/analyze_candidate_diagnosis.py
@@ -28,7 +28,7 @@ def main() -> int:
     print()
 
     bins = [
-        ("<=5", 0.0, 5.0),
+        ("<=5", -1.0, 5.0),  # errors are >= 0; an exact hit belongs to this bin
         ("5-20", 5.0, 20.0),
         ("20-50", 20.0, 50.0),
         ("50-100", 50.0, 100.0),
-- 
2.43.0

