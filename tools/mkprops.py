#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
L="src/lib.rs"
# ---------------------------------------------------------------- whole analysis
p("A01","Analysis always answers: a result or a structured error, never a crash",
 "For every sample buffer (non-finite samples included), sample rate and finite, sensible configuration, analysing audio returns either a result or one of the documented errors; it never panics, aborts, overflows or loops forever. Empty audio and a zero sample rate are rejected as invalid input, and, with trimming on, audio with nothing above the silence threshold is rejected as a processing error at every ordinary sample rate.",
 ["inputs","configurations"],"all sample values (including NaN, infinities, denormals), all lengths, all sample rates, all switch settings and all finite, sensible numeric settings of the configuration",
 "tests call the entry point on five clean fixtures with the default configuration; they never reach odd rates, tiny frames, non-finite samples or the 2^k switch combinations",
 [L,"src/preprocessing/silence.rs","src/features/period/novelty.rs","src/features/chroma/extractor.rs","src/features/beat_tracking/mod.rs","src/error.rs"],
 [("input validation and error propagation","src/lib.rs analyze_audio"),("per-stage argument checks","src/preprocessing, src/features")],
 ["return value / unwinding of the public entry point, per-call wall clock"])
p("A02","Every reported result is well-formed and inside its documented range",
 "In every result all numbers are finite; tempo is either zero or inside the configured tempo range (widened by at most the search tolerance of two BPM or one search step); all confidences, the key clarity and the grid stability lie in [0, 1]; the key is one of the 24 keys. Beat times are strictly increasing, lie inside the analysed audio to within the beat timing tolerance, and downbeats and bars are beats.",
 ["inputs","configurations"],"all finite audio inputs at ordinary sample rates and all valid configurations",
 "tests look at a handful of fields on a handful of clips; range violations appear only on particular material (legacy fallback, variable tempo, ambiguous octave)",
 [L,"src/analysis/result.rs","src/features/period/mod.rs","src/features/period/multi_resolution.rs","src/features/beat_tracking/mod.rs"],
 [("confidence clamping and range filtering","src/lib.rs, src/features/period/*"),("sorted, de-duplicated grid","src/features/beat_tracking/mod.rs")],
 ["AnalysisResult returned by the entry point"])
p("A03","Analysis is deterministic and independent of what was analysed before",
 "Analysing the same samples with the same settings always gives the same result (processing time aside), within a process, across processes, and whatever was analysed in between. Nothing carries over from one call to the next.",
 ["inputs","histories"],"all inputs, all interleavings of earlier calls in the process, all process instances",
 "a unit test runs each input once in one process, so order-dependent hashing, cached state and leaked scratch buffers are invisible to it",
 [L,"src/features/key/detector.rs","src/features/key/key_changes.rs"],
 [("pure functions without global state; order-independent tie breaking","src/features/key/detector.rs"),("fresh planners and buffers per call","src/features/chroma/extractor.rs")],
 ["digest of the full result of repeated calls; digests printed by separate processes"])
p("A04","Concurrent analyses do not interfere with each other",
 "Running any number of analyses at the same time on different threads gives each caller exactly the result the same call gives when run alone. No call blocks, corrupts or reorders another's result.",
 ["schedules","inputs"],"all thread interleavings, thread counts and mixes of inputs and configurations",
 "the test suite is run with one thread; batch parallelism is only exercised by an example program that compares nothing",
 [L,"src/features/key/detector.rs","src/features/chroma/extractor.rs","examples/analyze_batch.rs"],
 [("no shared mutable state","whole crate")],
 ["per-thread result digests against the sequential digest"])
p("A05","Input level and polarity do not change the analysis",
 "With peak normalisation on, scaling the input by a power of two or inverting its polarity leaves every reported value unchanged. Analysing a recording with normalisation and silence trimming on equals analysing, with both off, the signal those two steps produce.",
 ["inputs","configurations"],"all audio inputs, all power-of-two gains that neither clip nor underflow, both polarities, all configurations",
 "tests never compare two runs of the analysis with related inputs",
 [L,"src/preprocessing/normalization.rs","src/preprocessing/silence.rs"],
 [("single gain applied to every sample","src/preprocessing/normalization.rs"),("later stages see only the preprocessed buffer","src/lib.rs")],
 ["pairs of results of related inputs"])
p("A06","Reported values are those of the documented pipeline, run stage by stage",
 "For every input and configuration, the tempo, confidences, beat grid, key, clarity, warnings and diagnostics reported are the ones obtained by running the documented stages one after another with the documented parameters, selection rules and fallbacks. Each configuration switch affects only the stage it names.",
 ["inputs","configurations"],"all audio inputs and all configurations of the published settings",
 "tests check single stages and default settings; the wiring between stages (which onsets, which spectrogram, which hop, which fallback) is only visible when a second execution of the documented composition is compared",
 [L,"src/config.rs","PIPELINE.md"],
 [("stage orchestration","src/lib.rs analyze_audio")],
 ["AnalysisResult against an executable model of the documented pipeline"])
p("A07","Tempo source selection and validation follow the documented policy",
 "The spectral tempo estimate is reported whenever it exists, the onset-based estimate only when the spectral one is unavailable or the caller forces it, and zero with zero confidence only when neither exists. Cross-validation mode never changes the reported tempo, only its confidence, and escalation to several time resolutions never moves a tempo of at most 180 BPM above 180.",
 ["inputs","configurations"],"all audio inputs, under all combinations of the tempo switches",
 "no test runs the same audio under two tempo policies and compares",
 [L,"src/features/period/multi_resolution.rs"],
 [("tempo selection and escalation gating","src/lib.rs")],
 ["results of the same audio under different tempo switches, and the stand-alone estimators"])
p("A08","Warnings, flags and metadata agree with the reported values",
 "A failed tempo, a grid stability below one half, a key confidence below 0.3 and a key clarity below 0.2 each produce their warning, and nothing else does; the weak-tonality flag appears exactly with low clarity. Duration is the analysed (trimmed) length over the sample rate, the sample rate is the caller's, and diagnostics marked used are also marked triggered.",
 ["inputs","configurations"],"all inputs and configurations",
 "tests check one warning on one clip",
 [L,"src/analysis/metadata.rs","src/analysis/result.rs"],
 [("result assembly","src/lib.rs")],["AnalysisResult metadata"])
p("A09","Steady pulses are reported at their true tempo",
 "For a steady, evenly accented percussive pulse lasting at least sixteen seconds at a tempo from 70 to 160 BPM, the tempo reported with default settings is within three BPM of the true one, whatever the sound of the hits, the start offset, the level and the sample rate of 44.1 or 48 kHz. The beat grid then follows the pulse: there are beats, each close to a pulse (about a tenth of a second), spaced by whole multiples of the beat interval.",
 ["inputs"],"all tempi in the range, hit timbres, start offsets, levels and the two sample rates",
 "the suite has two fixture tempi (120 and 128) and accepts wide errors",
 ["src/features/period/tempogram.rs","src/features/period/tempogram_fft.rs","src/features/period/tempogram_autocorr.rs","src/features/period/novelty.rs","src/features/period/multi_resolution.rs",L],
 [("spectral novelty periodicity analysis","src/features/period")],["reported tempo against the synthesised ground truth"])
p("A10","Clear tonal material is reported in its key, and transposition moves the key",
 "For sustained chord progressions over a held tonic that spell out a major key, the key reported with default settings is the progression's key, in all twelve keys, over several timbres and octaves. Transposing the audio by n semitones moves the reported key by n semitones.",
 ["inputs"],"all twelve transpositions, timbres, registers and small detunings within the analysis band",
 "one C-major fixture, on which the test only checks that some key is returned",
 ["src/features/chroma/extractor.rs","src/features/key/detector.rs","src/features/key/templates.rs",L],
 [("pitch-class mapping and template matching","src/features/chroma, src/features/key")],["reported key against the synthesised ground truth"])
# ---------------------------------------------------------------- preprocessing
p("S01","Normalisation applies one gain that reaches its target without clipping",
 "Normalising multiplies every sample by one positive factor: peak mode brings the peak to the headroom level, RMS mode brings the RMS to its target and loudness mode brings the loudness to its target, except that the result is never pushed over full scale (peak, RMS) or the headroom ceiling (loudness). Silence is left untouched, and the reported peak, RMS and loudness describe the signal before normalisation and the reported gain is the one applied.",
 ["inputs","configurations"],"all sample buffers, target loudness, headroom and sample rates",
 "tests use a few constant or sine buffers and do not compare reported levels with an independent meter",
 ["src/preprocessing/normalization.rs"],[("gain computation and limiting","src/preprocessing/normalization.rs normalize")],["samples before/after and returned loudness metadata"])
p("S02","Silence trimming keeps exactly the span between the outer silences",
 "Trimming returns one contiguous, unmodified stretch of the input that contains the start of every full frame louder than the threshold: the leading silent stretch is always dropped, a trailing one only when it lasts at least the minimum duration (or the whole file is silent). The reported silent regions are in order, do not overlap, lie inside the input, and are exactly the stretches of quiet frames that are leading or last at least the minimum duration.",
 ["inputs","configurations"],"all sample buffers, thresholds, minimum durations, frame sizes and sample rates",
 "tests use blocks of constant level aligned to frames",
 ["src/preprocessing/silence.rs"],[("frame RMS gate and region merging","src/preprocessing/silence.rs detect_and_trim")],["returned samples and silence map"])
p("S03","Channel mixing is sample-accurate and length-preserving",
 "Mixing two channels gives one sample per input pair: the average for the mono, mid and centre modes, and the louder of the two for the dominant mode. Channels of different length are rejected, and empty channels give an empty mix.",
 ["inputs"],"all channel contents, lengths and modes",
 "tests mix a few three-sample vectors",
 ["src/preprocessing/channel_mixer.rs"],[("per-sample mixing","src/preprocessing/channel_mixer.rs")],["mixed samples"])
p("S04","The short-time spectrum is the windowed Fourier magnitude of each frame",
 "The spectrogram has one frame per full hop and half-plus-one bins per frame, and every value is the magnitude of the discrete Fourier transform of the Hann-windowed samples of that frame. It depends on no other samples and is empty when the audio is shorter than one frame.",
 ["inputs","configurations"],"all sample buffers, frame sizes (powers of two or not) and hops",
 "tests check only frame counts and non-negativity",
 ["src/features/chroma/extractor.rs"],[("framing, windowing, transform","src/features/chroma/extractor.rs compute_stft")],["spectrogram against a direct transform"])
# ---------------------------------------------------------------- onsets
p("O01","Energy onsets are the rising energy peaks above the threshold",
 "Energy onset detection reports, in increasing order and without duplicates, exactly the frame positions where the frame energy rises to a local maximum of increase that exceeds the relative threshold. Positions are multiples of the hop inside the audio and do not depend on the level or polarity of the input.",
 ["inputs","configurations"],"all sample buffers, frame and hop sizes and thresholds",
 "tests count onsets on two synthetic clips with wide tolerances",
 ["src/features/onset/energy_flux.rs"],[("frame energy differencing and peak picking","src/features/onset/energy_flux.rs")],["returned onset positions against a reference detector"])
p("O02","Spectral onset detectors report exactly the flux peaks above the percentile",
 "The spectral-flux and high-frequency detectors report, in increasing order and without duplicates, exactly the frames where the rise of their detection function peaks above the requested percentile of all rises. The percentile and median-deviation thresholds are the documented order statistics, and malformed spectrograms and percentiles outside [0, 1] are rejected.",
 ["inputs","configurations"],"all magnitude spectrograms, percentiles and sample rates",
 "tests use hand-made spectrograms with one obvious jump",
 ["src/features/onset/spectral_flux.rs","src/features/onset/hfc.rs","src/features/onset/threshold.rs"],[("detection function, percentile threshold, peak picking","src/features/onset")],["returned onset frames against a reference detector"])
p("O03","Harmonic/percussive separation splits the spectrum without loss",
 "Separating a spectrogram gives two spectrograms of the same shape with no negative value whose sum is the original in every cell, with sustained tones going mostly to the harmonic part and short broadband hits to the percussive part. The onsets found on the percussive part are exactly its energy rises above the requested percentile.",
 ["inputs","configurations"],"all non-negative spectrograms, margins and percentiles",
 "tests separate tiny constant spectrograms",
 ["src/features/onset/hpss.rs"],[("median filtering and soft masking","src/features/onset/hpss.rs")],["the two component spectrograms and the onset frames"])
p("O04","Onset voting clusters, weights and ranks detections faithfully",
 "Voting groups detections whose neighbours are within the tolerance, reports for every group its mean position, exactly the detectors that contributed, and a confidence equal to the summed weight of all detections in the group over the total weight, capped at one, ranked by confidence. No detection is lost or counted in two groups, and invalid tolerances, rates or weights are rejected.",
 ["inputs","configurations"],"all four detection lists (in any order, with duplicates), weights, tolerances and sample rates",
 "tests vote on lists of two or three onsets",
 ["src/features/onset/consensus.rs"],[("clustering and weighting","src/features/onset/consensus.rs vote_onsets")],["returned candidates against a reference vote"])
# ---------------------------------------------------------------- tempo
p("B01","Onset autocorrelation proposes exactly the lags where onsets recur",
 "Every tempo proposed from onset autocorrelation corresponds to a lag at which the onset train coincides with itself more than at neighbouring lags, lies in the requested range, and is ranked by a confidence in [0, 1]. An onset train whose period is a whole number of hops well inside the range always yields its own tempo among the proposals. Peak picking returns exactly the local maxima above the threshold, keeping the stronger of any two closer than the minimum distance.",
 ["inputs","configurations"],"all onset lists, sample rates, hops and tempo ranges",
 "tests use perfectly periodic trains at two tempi",
 ["src/features/period/autocorrelation.rs","src/features/period/peak_picking.rs"],[("FFT autocorrelation and peak picking","src/features/period/autocorrelation.rs")],["returned candidates against a direct autocorrelation"])
p("B02","Comb-filter tempo scores equal the share of beats supported by onsets",
 "For every tempo on the requested grid the comb filter scores how many predicted beats have an onset within the tolerance, and reports the grid tempi ranked by that score normalised to [0, 1]. The coarse-to-fine search only refines around the coarse winners and stays inside the requested range.",
 ["inputs","configurations"],"all onset lists, tempo ranges and resolutions",
 "tests use periodic trains and only check the winner",
 ["src/features/period/comb_filter.rs"],[("hypothesis scoring","src/features/period/comb_filter.rs")],["returned candidates against a reference scorer"])
p("B03","The onset-based tempo estimate merges both detectors consistently",
 "Merging groups proposals of the two onset detectors that agree within two BPM (after resolving half and double tempo), counts how many proposals support each group, and ranks groups by confidence. The final estimate is the top-ranked merged proposal, and range guardrails only rescale confidences by the configured factors.",
 ["inputs","configurations"],"all proposal lists, onset lists, tempo ranges and guardrail settings",
 "tests merge lists of one or two proposals",
 ["src/features/period/candidate_filter.rs","src/features/period/mod.rs"],[("octave resolution, grouping, boosting","src/features/period/candidate_filter.rs")],["merged proposals and final estimate against a reference merge"])
p("B04","Novelty curves measure normalised spectral rise, one value per frame step",
 "Each novelty curve has one value per pair of consecutive frames, is non-negative with maximum one (or all zero), and is proportional to the documented rise of its feature: spectral, energy, high-frequency, max-filtered and mel-band. A band-limited curve over the whole spectrum equals the full curve, and the combined curve is the weighted, locally mean-subtracted, smoothed mix.",
 ["inputs","configurations"],"all magnitude spectrograms, band limits, weights and window lengths",
 "tests check lengths and ranges on constant or single-jump spectrograms",
 ["src/features/period/novelty.rs"],[("rectified differencing, normalisation and conditioning","src/features/period/novelty.rs")],["novelty curves against reference curves"])
p("B05","Both tempograms score each tempo by the periodicity of the novelty curve",
 "The spectral tempogram reports, for the frequencies inside the tempo range, the power of the windowed zero-mean novelty curve, and the autocorrelation tempogram reports, for every tempo on the requested grid, the mean product of the novelty curve with itself at that tempo's lag. Both are ranked by strength and stay inside the requested range.",
 ["inputs","configurations"],"all novelty curves, sample rates, hops, tempo ranges and resolutions",
 "tests use one sinusoidal novelty curve",
 ["src/features/period/tempogram_fft.rs","src/features/period/tempogram_autocorr.rs"],[("FFT and lag-product tempograms","src/features/period")],["returned tempo/strength lists against direct computation"])
p("B06","The spectral tempo estimate is the best-supported candidate",
 "Every reported tempo candidate lies in the requested range with support values in [0, 1] and candidates are ranked by score; the estimate is the top candidate except that a tempo above 180 is halved unless clearly stronger on both measures. The candidate list and the plain estimate agree on tempo and confidence, and confidence and method agreement are within their documented range.",
 ["inputs","configurations"],"all spectrograms, tempo ranges, resolutions and fusion settings",
 "tests check two periodic spectrograms for approximate tempo",
 ["src/features/period/tempogram.rs"],[("candidate folding, scoring and octave gate","src/features/period/tempogram.rs")],["estimate and candidate list"])
p("B07","Multi-resolution tempo fusion chooses within the base estimate's tempo family",
 "The multi-resolution estimate is always finite, inside the requested tempo range (within the search tolerance), and stands in a simple metrical ratio to a candidate found at one of the resolutions; its confidence is in [0, 1]. The estimate is the one given by the documented fusion of the three per-resolution candidate lists, and with the same input it never depends on how often or in which order estimates are made.",
 ["inputs","configurations"],"all audio, tempo ranges and fusion weights",
 "no test runs the multi-resolution estimator on more than one periodic clip",
 ["src/features/period/multi_resolution.rs"],[("cross-resolution scoring","src/features/period/multi_resolution.rs")],["multi-resolution estimate and the per-resolution candidate lists"])
# ---------------------------------------------------------------- beats
p("G01","A beat grid is an ordered lattice anchored on the onsets",
 "Beats are finite, increasing by at least 50 ms, and span no more than the onsets plus one beat; each beat lies within the timing tolerance (about 54 ms) of an onset; the first beat is a downbeat, consecutive downbeats are one bar apart within ten percent for a 3-, 4- or 6-beat bar, and bars equal downbeats. Stability is one over one plus the relative spread of beat intervals, and invalid tempo or missing onsets are rejected.",
 ["inputs","configurations"],"all onset lists (any order, duplicates, gaps, tempo drift), tempi and confidences",
 "tests use perfectly regular onsets at two tempi",
 ["src/features/beat_tracking/mod.rs","src/features/beat_tracking/hmm.rs","src/features/beat_tracking/time_signature.rs"],[("beat tracking, refinement, downbeat selection","src/features/beat_tracking")],["returned grid and stability"])
p("G02","Tracked beats are the tempo lattice points supported by onsets",
 "For a given tempo the tracker places beats on the lattice that starts at the first onset with the beat interval as spacing, keeps exactly the lattice points close enough to an onset, and gives each a confidence in [0, 1] that falls with its distance from the nearest onset.",
 ["inputs","configurations"],"all sorted onset lists and valid tempi",
 "tests use on-grid onsets",
 ["src/features/beat_tracking/hmm.rs"],[("emission scoring and backtracking","src/features/beat_tracking/hmm.rs")],["returned beat positions against a reference lattice"])
p("G03","Tempo drift and metre analysis describe the beat intervals they were given",
 "Tempo segments cover the beats in overlapping windows, each with the tempo of its mean beat interval, and are marked variable exactly when the relative spread of their intervals exceeds 15 percent. The detected metre is the one of 4/4, 3/4 and 6/8 whose bar length best repeats the interval pattern, with confidence in [0, 1], and defaults to 4/4 when there are fewer than eight beats.",
 ["inputs"],"all beat lists and nominal tempi",
 "tests use constant intervals",
 ["src/features/beat_tracking/tempo_variation.rs","src/features/beat_tracking/time_signature.rs"],[("windowed interval statistics","src/features/beat_tracking")],["returned segments and metre against a reference"])
p("G04","The adaptive tempo tracker moves to the best-fitting nearby tempo",
 "Each update moves the tracked tempo to the best-fitting half-BPM step within five BPM of the previous one and between 60 and 180 BPM, the lowest of equally good ones, or leaves it unchanged with zero confidence when none is in reach; confidence stays in [0, 1] and is reduced for larger moves. The history records the initial tempo and then every updated tempo in order, and a rejected update changes nothing.",
 ["histories","inputs"],"all sequences of updates with arbitrary onset lists, from all initial tempi",
 "tests apply one or two updates",
 ["src/features/beat_tracking/bayesian.rs"],[("likelihood search and state update","src/features/beat_tracking/bayesian.rs")],["tracker state after every update against a reference model"])
# ---------------------------------------------------------------- chroma/key
p("C01","Chroma vectors fold spectral energy onto the right pitch classes",
 "Every frame yields twelve non-negative values of unit length (or all zero for an empty frame), in which energy between 100 Hz and 5 kHz is folded onto the pitch class of its frequency relative to A at 440 Hz, shifted by the tuning offset. All extraction routes (from audio, from a spectrogram, with energies, beat-synchronous) give the same vectors for the same frames, and scaling the spectrum does not change them.",
 ["inputs","configurations"],"all magnitude spectra, sample rates, frame sizes, mapping widths and tuning offsets",
 "tests check the peak bin of one sine",
 ["src/features/chroma/extractor.rs"],[("frequency to pitch-class mapping and normalisation","src/features/chroma/extractor.rs")],["chroma vectors against a reference mapping"])
p("C02","Harmonic pitch-class profiles come from the strongest spectral peaks",
 "The harmonic pitch-class profile of a frame is a non-negative vector of unit length (or zero) built only from the strongest local maxima of the spectrum inside the band and their harmonics, weighted by the documented decay and magnitude compression. The bass-blended profile is the normalised weighted mix of the full-band and bass-band profiles, and the reported frame energy is the sum of squared magnitudes.",
 ["inputs","configurations"],"all magnitude spectra, peak counts, harmonic settings, whitening widths and blend weights",
 "tests check one synthetic peak",
 ["src/features/chroma/extractor.rs"],[("peak picking, harmonic summation","src/features/chroma/extractor.rs")],["profiles against a reference"])
p("C03","Spectrogram conditioning for key analysis never adds energy",
 "The time-smoothed spectrogram is the moving average over time; both harmonic masks are the documented soft masks (against the time average, and between the time and frequency medians), return, cell by cell, a value between zero and the input, keep steady tones and attenuate isolated transients; shape is preserved and ragged input is rejected. The log-frequency spectrogram conserves the in-band magnitude of each frame and places it on the semitones around each frequency.",
 ["inputs","configurations"],"all magnitude spectrograms, margins, mask powers, frame steps and bands",
 "tests check shapes and constant spectrograms",
 ["src/features/chroma/extractor.rs"],[("moving average, soft masks, resampling","src/features/chroma/extractor.rs")],["conditioned spectrograms against a reference"])
p("C04","Tuning estimation measures the detuning of the spectral peaks",
 "The estimated tuning lies between minus and plus half a semitone, and for spectra whose strong components are detuned by a common amount it equals that amount within the frequency resolution; it is zero for empty or structureless input. It does not depend on the level of the spectrum.",
 ["inputs","configurations"],"all spectrograms, bands, frame steps and thresholds",
 "no test uses a detuned spectrum",
 ["src/features/chroma/extractor.rs"],[("weighted circular mean of residuals","src/features/chroma/extractor.rs")],["returned offset against a reference and against synthetic detuning"])
p("C05","Chroma smoothing and sharpening preserve shape and normalisation",
 "Median and average smoothing return one vector per frame in which each value is the median or mean of that pitch class over the window around the frame; sharpening raises values to the given power and renormalises to unit length, preserving the order of pitch classes. Smoothing or sharpening commutes with rotating the pitch classes.",
 ["inputs","configurations"],"all chroma sequences, window sizes and powers",
 "tests use constant sequences and one window size",
 ["src/features/chroma/smoothing.rs","src/features/chroma/normalization.rs"],[("windowed statistics","src/features/chroma")],["smoothed and sharpened vectors against a reference"])
p("K01","Key detection ranks all 24 keys by template match and is transposition-exact",
 "Key detection returns all 24 keys exactly once, ranked by score, the best-ranked as the key, the three best as the leading candidates, equal scores ordered major before minor and then by pitch class, and a confidence in [0, 1] equal to its relative lead. Rotating the chroma by n semitones rotates every score and the detected key by n; scaling the chroma or the frame weights changes neither key nor confidence; frames of zero weight are ignored.",
 ["inputs","configurations"],"all chroma sequences, frame weights and both template sets",
 "tests detect one or two hand-made keys",
 ["src/features/key/detector.rs","src/features/key/templates.rs"],[("weighted template scoring, normalisation and ranking","src/features/key/detector.rs")],["scores, ranking, key and confidence against a reference"])
p("K02","Key detection variants aggregate their parts as documented",
 "The mode heuristic changes only the mode of the best-ranked tonic (after the optional leading-tone bonus) and only within its score margin; the multi-scale variant is the clarity-weighted mean of its segment scores; the ensemble variant is the weighted mean of both template sets; the segment-majority variant returns a most frequent segment key. Each returns all 24 keys once, ranked, with confidence in [0, 1], and falls back to whole-track detection when no segment qualifies.",
 ["inputs","configurations"],"all chroma sequences, weights, segment lengths, hops and thresholds",
 "tests check that some key is returned",
 ["src/features/key/detector.rs"],[("segment aggregation","src/features/key/detector.rs")],["variant results against reference aggregation of the base detector"])
p("K03","Key clarity and key changes summarise the segment keys",
 "Clarity is the lead of the best score over the mean score relative to the score range, in [0, 1] and zero for equal scores. Key-change analysis reports one key per segment at the segment's start time, a change exactly where consecutive segment keys differ with enough confidence, in time order, and a most frequent segment key as primary key; unusable segment lengths are rejected.",
 ["inputs","configurations"],"all score tables, chroma sequences, segment durations and overlaps",
 "tests use constant chroma",
 ["src/features/key/key_clarity.rs","src/features/key/key_changes.rs"],[("segment loop and counting","src/features/key/key_changes.rs")],["clarity and change list against a reference"])
p("K04","Key notations are a bijection over the 24 keys and parsing is total",
 "Every key has a distinct name and a distinct numerical code, converting a key to its numerical code and back gives the same key, and neighbours on the numerical wheel are a fifth apart; a tonic number of twelve or more stands for its pitch class. Parsing any text that is not a number from 1 to 12 followed by A or B gives no key, and parsing never fails.",
 ["inputs"],"all 24 keys and all strings",
 "tests parse a few codes and a few ASCII misspellings",
 ["src/analysis/result.rs"],[("name, numerical code and parser","src/analysis/result.rs")],["codes, names and parse results"])
p("R01","The confidence report is the documented function of the result",
 "The confidence report is determined by the result alone: each component is in [0, 1], zero when its measurement is absent, reduced by the documented factors for warnings and low clarity, and the overall score is the documented weighted mean. High and low confidence, the confidence level and the appended flags follow from the documented thresholds, and, while tempo and key measurements are both present, raising a component's input never lowers the overall score.",
 ["inputs"],"all analysis results, including out-of-range and zero fields and any warnings and flags",
 "tests score about ten hand-made results",
 ["src/analysis/confidence.rs"],[("component and overall scoring","src/analysis/confidence.rs compute_confidence")],["report against a reference scorer"])
p("R02","Results survive serialisation unchanged",
 "Serialising any result or confidence report to JSON and reading it back gives the same values in every field, for every key, flag and combination of optional diagnostics.",
 ["inputs"],"all analysis results",
 "no test serialises a result",
 ["src/analysis/result.rs","src/analysis/metadata.rs","src/analysis/confidence.rs"],[("derived serialisation","src/analysis/result.rs")],["JSON round trip"])
p("V01","Validation key names are canonicalised consistently",
 "The validation tools map every common spelling of a key (sharps, flats, Unicode accidentals, minor and major suffixes, wheel codes, any case and spacing) to one canonical name, equal for enharmonic spellings and different for different keys. Canonicalising twice changes nothing, text that starts with neither a note letter nor a wheel code maps to nothing, and the numeric key and mode derived from a name match it.",
 ["inputs"],"all spellings of the 24 keys and arbitrary strings",
 "the Python tools have no tests",
 ["validation/_keys.py"],[("key normalisation","validation/_keys.py")],["return values of the helper functions"])
p("V02","Tags are read back as written and bad tags are harmless",
 "Reading the tag of an audio file gives exactly the title, artist, album, genre, tempo and key that an ID3v2.3 or 2.4 tag holds, without surrounding blanks, in any of its text encodings and frame orders and past frames of any size; dedicated tempo and key frames win over user-defined ones. A tag cut off anywhere gives the fields of its complete frames, and damaged, foreign or missing files give empty fields, never a failure. A tempo is a positive number or absent.",
 ["inputs"],"all tags with the supported frames, cut or damaged anywhere, and arbitrary file contents",
 "the Python tools have no tests",
 ["validation/_id3.py"],[("frame walk, text decoding and user-defined frames","validation/_id3.py")],["fields returned by read_id3_text_fields and parse_bpm"])
p("V03","A validation run records every answered track exactly once with its true errors",
 "A validation run analyses every track of the newest test batch (or its first --max-tracks) exactly once, with exactly the analysis options given on the command line, and writes one row for each track the analyser answered and none for the others, whatever the number of parallel jobs and whichever tracks fail. Each row holds the ground truth, the prediction, the tag, the absolute tempo errors and the key verdict against the ground truth or, without one, the tag; the printed summary is that of the rows.",
 ["inputs","schedules","fault_sequences","configurations"],"all batches, analyser outcomes (answer, failure, unreadable output, delay), job counts and option sets",
 "the Python tools have no tests; the order of parallel completions varies from run to run",
 ["validation/tools/run_validation.py","validation/_id3.py","validation/_keys.py"],[("worker pool, row construction and option forwarding","validation/tools/run_validation.py main")],["result file, printed summary and the calls the analyser received"])
p("V04","Ground truth reaches the test batch unchanged and complete",
 "A prepared test batch holds, each once, exactly the tracks that have a positive tempo in the metadata and an existing audio file (or the requested number of them), each with the metadata's tempo, key name, genre and file. Metadata scraped from tags gives every file its own track id, the one in its name when that is free, and carries its tempo and key through to the batch. The same seed selects the same tracks.",
 ["inputs","configurations"],"all metadata tables in the documented layout, tag collections, file name collisions and selection sizes",
 "the Python tools have no tests",
 ["validation/tools/prepare_test_batch.py","validation/tools/build_hllmr_metadata.py"],[("metadata readers, id derivation and selection","validation/tools")],["written test batch against the generated metadata"])
p("V05","Validation reports state the statistics of their rows",
 "The tempo error, accuracy, error distribution, ratio bucket, fallback, tempo band and key confusion figures printed by the report scripts are those of the rows of the result file, every row is counted once, and the worst-error lists hold the worst rows in order.",
 ["inputs"],"all result files a validation run can write",
 "the Python tools have no tests",
 ["validation/analysis/analyze_results.py","validation/analysis/analyze_ratio_buckets.py","validation/analysis/analyze_fallback_flags.py","validation/analysis/analyze_key_errors.py","validation/analysis/analyze_exemplars.py","validation/analysis/diagnose_candidates.py","validation/tools/sweep_tempogram_tuning.py"],[("row statistics","validation/analysis")],["printed figures against recomputation"])
p("V06","Candidate diagnosis and tuning sweeps report what their runs answered",
 "A candidate diagnosis analyses each selected track of the result file (all, or with --only-misses those off by more than the tolerance) exactly once, asking for the requested number of candidates, and records once for each the rank at which its ground-truth tempo first occurs among the answered candidates, or that it does not, or that the analyser failed; the printed hit rate and the breakdown by error size count every diagnosed track once. A tuning sweep runs every point of the parameter grid once with that point's settings, ranks the runs by accuracy and then by mean error, labels each with its own settings and figures, and repeats exactly the best ones on the full batch.",
 ["inputs","fault_sequences","configurations"],"all batches, result files, candidate lists, analyser failures, tolerances, parameter grids and run outcomes",
 "the Python tools have no tests",
 ["validation/analysis/diagnose_candidates.py","validation/analysis/analyze_candidate_diagnosis.py","validation/tools/sweep_tempogram_tuning.py"],[("target selection, ranking and accounting","validation/analysis/diagnose_candidates.py main"),("grid, leaderboard and reruns","validation/tools/sweep_tempogram_tuning.py main")],["diagnosis file, printed figures and the calls the stand-ins received"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),"properties")
