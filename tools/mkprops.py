import json
L="visqol-rs/src/"
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs,state=[],hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
     anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
       mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p("C01","Every comparison ends in a complete result or an error, never a crash",
 "For every pair of 16-bit PCM WAV files with the same sample rate (8-48 kHz), of any length, content (silence included) and channel count, and for every search radius, a comparison ends with either a complete result or an error value; it never panics, overflows or hangs. A result is complete when it has at least one patch, every number in it is finite, and every per-band vector has one entry per frequency band.",
 ["inputs","configurations"],"All reference/degraded lengths and contents, both variants, every search radius.",
 "The tests run a handful of full-length recordings of similar duration; the partial operations (unsigned subtractions, slices, empty maxima) fail only for short, silent, missing or very unequal signals.",
 [L+"visqol_manager.rs",L+"visqol.rs",L+"comparison_patches_selector.rs",L+"vad_patch_creator.rs",L+"image_patch_creator.rs",L+"audio_utils.rs",L+"xcorr.rs",L+"envelope.rs"],
 [("error values of every stage",L+"visqol_error.rs"),("dropping of unmatched trailing patches",L+"comparison_patches_selector.rs calc_max_num_patches"),("minimum spectrogram length",L+"image_patch_creator.rs / vad_patch_creator.rs")],
 ["VisqolManager::run","VisqolManager::compute_results"])
p("C02","Unusable inputs are rejected with the matching error; usable ones are accepted",
 "Files that cannot be compared - different sample rates, not 16-bit, missing, malformed or truncated, shorter than one analysis window, or a reference with fewer frames than the variant's segmentation needs (30 audio, 44 speech) - yield an error that names the cause and the offending values (an entirely empty signal may be reported as impossible to align), and never a score. Every pair that has none of these faults and whose degraded signal still reaches the first reference patch yields a score.",
 ["inputs","configurations"],"All files, in particular every length around the documented limits and every kind of damaged header or data.",
 "Two tests assert that 8- and 32-bit files fail; no test looks at which error is returned or at any limit.",
 [L+"wav_reader.rs",L+"visqol_manager.rs",L+"gammatone_spectrogram_builder.rs",L+"image_patch_creator.rs",L+"vad_patch_creator.rs",L+"visqol_error.rs"],
 [("validate_input_audio",L+"visqol_manager.rs"),("bit depth check",L+"wav_reader.rs WavFile::open"),("TooFewSamples",L+"gammatone_spectrogram_builder.rs build"),("ReferenceSpectrogramTooSmall",L+"image_patch_creator.rs, vad_patch_creator.rs")],
 ["VisqolManager::run error value"])
p("C03","A comparison depends only on its inputs and configuration, never on history",
 "The result (or error) of a comparison is a function of the two signals and the manager's configuration alone: it is the same on a fresh manager, after any sequence of other comparisons on the same manager (including failed ones and ones at other sample rates or lengths), when repeated, and when other managers run concurrently. Comparing never changes the caller's signals.",
 ["histories","schedules","inputs"],"All sequences of comparisons over one or several managers, in one or several threads.",
 "Each test creates a fresh manager and makes one comparison; the mutable filterbank, coefficients and mapper state kept in the manager are never exercised across calls.",
 [L+"visqol_manager.rs",L+"gammatone_filterbank.rs",L+"gammatone_spectrogram_builder.rs",L+"rms_vad.rs",L+"fft_manager.rs"],
 [("filter state reset per frame and per signal",L+"gammatone_spectrogram_builder.rs build"),("coefficients recomputed per signal",L+"gammatone_spectrogram_builder.rs build")],
 ["VisqolManager::run","VisqolManager::compute_results"],
 [("filter conditions and coefficients","mutable state carried by the manager between frames, signals and comparisons",L+"gammatone_filterbank.rs GammatoneFilterbank")])
p("C04","WAV loading yields the per-frame mean over channels, exactly scaled",
 "Loading a 16-bit WAV file yields one mono signal with the file's sample rate and one sample per frame, equal to the mean over that frame's channels of the integer sample divided by 32767, for every channel count and every sample value. Exchanging channels does not change the loaded signal.",
 ["inputs"],"All channel counts, lengths and sample values, plain and extensible headers, extra chunks.",
 "Tests load one mono and one stereo file and compare two samples with a tolerance larger than the samples themselves.",
 [L+"audio_utils.rs",L+"wav_reader.rs",L+"math_utils.rs"],
 [("de-interleaving and summing",L+"audio_utils.rs extract_multichannel, to_mono_matrix"),("integer scaling",L+"math_utils.rs normalize_int16_to_double")],
 ["audio_utils::load_as_mono"])
p("C05","A signal compared with itself scores the maximum",
 "Comparing any usable signal with an identical copy gives similarity 1 in every patch and band, zero similarity deviation, every patch matched to its own position (unless the signal repeats itself exactly), and the top quality score of the variant (5.0 scaled wideband, about 4.16 unscaled wideband, about 4.73 fullband with the default model). No comparison of any two signals reports a patch or band similarity above 1.",
 ["inputs","configurations"],"All signals, lengths, sample rates, radii and variants.",
 "The tests contain no self-comparison except one recording and check only its overall score.",
 [L+"neurogram_similiarity_index_measure.rs",L+"comparison_patches_selector.rs",L+"visqol.rs",L+"alignment.rs"],
 [("NSIM normalisation",L+"neurogram_similiarity_index_measure.rs measure_patch_similarity")],
 ["SimilarityResult"])
p("C06","The quality score is the documented function of band similarity, within [1, 5]",
 "The reported score always lies in [1, 5] and equals the variant's mapping of the reported per-band similarities: for wideband the exponential fit 1.1559455 + exp(4.6851153 (s - 0.7655232)) of their mean s, multiplied by 1.2031409 unless unscaled mapping is chosen, and for fullband the loaded support-vector model's prediction for the band vector, both clamped to [1, 5]. If the mean similarity is below 0.15 the score is exactly 1; the wideband score never decreases when similarity increases.",
 ["inputs","configurations"],"All similarity vectors, both wideband scalings, any model.",
 "One test evaluates one model prediction and one the unscaled exponential at two points; clamping, scaling choice and the cut-off are not settled.",
 [L+"speech_similarity_to_quality_mapper.rs",L+"svr_similarity_to_quality_mapper.rs",L+"support_vector_regression_model.rs",L+"math_utils.rs",L+"visqol.rs"],
 [("exponential fit, scale, clamp",L+"speech_similarity_to_quality_mapper.rs"),("model prediction, clamp",L+"svr_similarity_to_quality_mapper.rs"),("cut-off",L+"visqol.rs alter_for_similarity_extremes")],
 ["SimilarityResult.moslqo"])
p("C07","Overall figures are the exact aggregates of the reported patches",
 "In every result the per-band similarity and degraded-energy vectors are the arithmetic means over the reported patches, the overall similarity is the mean of the per-band similarities, the per-band deviation is the frame-weighted pooled standard deviation of the patches, each patch similarity is the mean of its band means (zero for a lost patch), and band centre frequencies are listed in ascending order, one per band.",
 ["inputs"],"All results, including ones with lost, realigned and differently long patches.",
 "Tests assert only the final score; any internal inconsistency between the reported vectors passes.",
 [L+"visqol.rs",L+"similarity_result.rs",L+"gammatone_spectrogram_builder.rs"],
 [("calc_per_patch_mean_*",L+"visqol.rs")],["SimilarityResult"])
p("C08","A global delay of up to half the reference is found and removed exactly",
 "The delay removed always maximises the absolute cross-correlation of the two amplitude envelopes, so a pure delay d of steady, DC-free, non-repeating material is found exactly. If |d| is at most half the reference length it is removed exactly: a delayed signal loses its first d samples, an advanced one gets d zeros prepended, and matching content is then compared sample for sample. A larger or zero best delay leaves the degraded signal untouched.",
 ["inputs"],"All signals and delays of both signs, equal and unequal lengths.",
 "Tests use single delays on fixed signals and never a delay near the limit, an even/odd length mix or the resulting samples.",
 [L+"alignment.rs",L+"xcorr.rs",L+"envelope.rs",L+"fft_manager.rs",L+"fast_fourier_transform.rs"],
 [("globally_align",L+"alignment.rs"),("calculate_best_lag",L+"xcorr.rs"),("calculate_upper_env",L+"envelope.rs")],
 ["SimilarityResult of delayed signals","aligned samples"],hook="aligned signal after global alignment")
p("C09","The playback level of the degraded signal does not affect the result",
 "Before comparison the degraded signal is scaled to the reference's sound pressure level (equal root-mean-square), so multiplying the degraded signal by any positive gain (that keeps it above the 16-bit quantisation step) leaves every reported figure unchanged. A silent degraded signal is compared as silence.",
 ["inputs"],"All signal pairs and gains (without clipping).",
 "No test compares two levels of the same signal.",
 [L+"audio_utils.rs",L+"visqol.rs"],[("scale_to_match_sound_pressure_level",L+"audio_utils.rs")],
 ["SimilarityResult"],hook="scaled degraded signal")
p("C10","Spectrogram frames are local, evenly spaced and ordered by frequency",
 "A signal of n samples at rate r yields 1 + floor((n - w) / h) frames, w = round(0.08 r), h = floor(w / 4); frame k depends only on samples [k h, k h + w) and not on other frames, is zero for silence, and scales linearly with the signal. Row b responds to the band with the b-th lowest centre frequency, from 50 Hz up to 8 kHz (speech) or half the sample rate (audio) at most.",
 ["inputs"],"All signals, lengths and sample rates.",
 "One test checks the frame count of one file and one value with a tolerance of the value's own order.",
 [L+"gammatone_spectrogram_builder.rs",L+"gammatone_filterbank.rs",L+"equivalent_rectangular_bandwidth.rs",L+"signal_filter.rs",L+"analysis_window.rs"],
 [("framing loop, per-frame filter reset",L+"gammatone_spectrogram_builder.rs build"),("band order",L+"gammatone_spectrogram_builder.rs invert_axis / sort")],
 ["SimilarityResult.center_freq_bands","spectrogram"],hook="spectrogram builder")
p("C11","Both spectrograms share one noise floor, 45 dB below each frame's joint peak",
 "Before matching, every spectrogram value is converted to dB, raised to at least -45 dB and, in frames both signals have, to at least 45 dB below the louder of the two signals' peaks in that frame; then the smallest value of both spectrograms is subtracted from both. Hence all values are non-negative with common minimum 0, values above their floor keep their difference, and the operation treats the two signals symmetrically.",
 ["inputs"],"All pairs of spectrograms, of equal and unequal length, silent frames included.",
 "Tests check dB conversion and subtraction alone; the joint floor, its pairing of frames and the order of steps are unchecked.",
 [L+"audio_utils.rs",L+"spectrogram.rs"],[("prepare_spectrograms_for_comparison",L+"audio_utils.rs"),("raise_floor_per_frame",L+"spectrogram.rs")],
 ["spectrograms after preparation"],hook="prepare_spectrograms_for_comparison")
p("C12","Speech mode compares exactly the patches with voice activity",
 "In speech mode the reference is cut into consecutive 30-frame patches from frame 14 on, as many as fit, and a patch is compared if and only if it contains voice activity. A hop-long chunk of the peak-normalised reference counts as active unless it and both chunks before it have an RMS below 5000/32768 of full scale (the first two chunks always count as active).",
 ["inputs"],"All activity patterns of the reference and all lengths.",
 "Tests cover one recording in which every patch is active and a few hand-written chunk sequences.",
 [L+"vad_patch_creator.rs",L+"rms_vad.rs",L+"math_utils.rs"],[("create_ref_patch_indices",L+"vad_patch_creator.rs"),("get_vad_results",L+"rms_vad.rs")],
 ["SimilarityResult.patch_sims[].ref_patch_start_time","patch indices"],hook="patch indices after segmentation")
p("C13","Audio mode covers the reference with a regular grid of patches",
 "In audio mode the compared patches are 20 frames long and start at frames 9, 29, 49, ..., every 20 frames, for as long as at least two further frames of the reference follow the patch (the first patch is always compared once the reference has 30 frames), whatever the content. Each patch holds exactly the reference's frames from its start on, and reported times are start frame times frame duration.",
 ["inputs"],"All reference lengths and contents.",
 "One test checks one spectrogram length.",
 [L+"image_patch_creator.rs"],[("create_ref_patch_indices_from_spectrogram",L+"image_patch_creator.rs")],
 ["SimilarityResult.patch_sims[].ref_patch_start_time","patch indices"],hook="patch indices after segmentation")
p("C14","Patch matching is ordered, stays in its window and is optimal",
 "Every reference patch is matched to an offset of the degraded spectrogram at most radius times patch length away from its own position and inside the signal, or to nothing; matched offsets are strictly increasing in patch order, the first patch is always matched, and a patch is matched to nothing only where the preceding matched offset lies inside its own window. Among all such assignments the chosen one has the largest total similarity.",
 ["inputs","configurations"],"All similarity landscapes, patch layouts, degraded lengths and radii.",
 "Tests use two small hand-made examples with unambiguous matches; optimality over all assignments is not expressible there.",
 [L+"comparison_patches_selector.rs"],[("dynamic programme and backtrace",L+"comparison_patches_selector.rs find_most_optimal_deg_patches / find_most_optimal_deg_patch")],
 ["patch_sims before realignment"],
 [("cumulative_similarity_dp, backtrace","best total and predecessor per patch and offset",L+"comparison_patches_selector.rs")],hook="matched patches; selector")
p("C15","Lost patches count as zero and only unreachable trailing patches are dropped",
 "A reference patch with no counterpart in order is reported with zero similarity, zero band means and degraded time 0-0, and still counts in all averages. Trailing patches that begin more than half a patch after the end of the degraded signal, or whose search window begins after it, are left out, all other patches are reported, in order, each with its own reference time.",
 ["inputs","configurations"],"All degraded lengths relative to the reference and all loss positions.",
 "One test covers one count of dropped patches; lost patches are never produced.",
 [L+"comparison_patches_selector.rs",L+"visqol.rs"],[("calc_max_num_patches",L+"comparison_patches_selector.rs"),("null patch branch",L+"comparison_patches_selector.rs find_most_optimal_deg_patches")],
 ["SimilarityResult.patch_sims"],hook="matched patches")
p("C16","Fine realignment never lowers a patch's similarity; its times stay consistent",
 "Realigning a matched patch never lowers its reported similarity; the realigned values replace the old ones exactly when they are at least as similar. A reported pair always covers equal durations in both signals; at most one of the two start times moves, forward by at most half the patch, and both spans shrink by just that amount; lost patches stay untouched.",
 ["inputs"],"All matched patch pairs and local delays of both signs.",
 "One test realigns one patch pair and compares one similarity.",
 [L+"comparison_patches_selector.rs",L+"alignment.rs"],[("finely_align_and_recreate_patches",L+"comparison_patches_selector.rs"),("align_and_truncate",L+"alignment.rs")],
 ["SimilarityResult.patch_sims"],hook="per-patch realignment")
p("C17","Patch similarity is the NSIM measure",
 "The similarity of two patches is the mean over their cells of intensity times structure computed from 3x3 weighted local means, variances and covariance with replicated borders and constants for an intensity range of 1; band means, sample standard deviations and degraded energy are the row statistics of that map. It is 1 for identical patches, symmetric in its arguments, at most 1, and a cell's value depends only on its 3x3 neighbourhood.",
 ["inputs"],"All patch pairs of any shape.",
 "One test checks three cells of a one-column patch; another a single file.",
 [L+"neurogram_similiarity_index_measure.rs",L+"convolution_2d.rs"],[("measure_patch_similarity",L+"neurogram_similiarity_index_measure.rs"),("perform_valid_2d_conv_with_boundary",L+"convolution_2d.rs")],
 ["patch_sims[].similarity, freq_band_means, freq_band_stddevs, freq_band_deg_energy"],hook="measure_patch_similarity")
C="visqol/src/"
p("C18","Batch mode scores every row, once, in order, as if run alone",
 "With a batch CSV the command line tool compares every data row's pair exactly once and reports the scores in row order; each score equals the one the same pair gets when it is compared alone with the same options. If any pair cannot be compared the tool exits with a non-zero status, names the cause and reports no scores.",
 ["histories","inputs"],"All batches: any number, order and repetition of pairs, any position of a failing pair.",
 "The CLI's only test parses a two-line CSV; no test runs the tool.",
 [C+"main.rs",C+"command_line_utils.rs",C+"output_utils.rs",C+"path_pair.rs"],[("run",C+"main.rs"),("read_files_to_compare",C+"command_line_utils.rs"),("write_results",C+"output_utils.rs")],
 ["stdout","exit status","results CSV"])
p("C19","Output files hold every comparison in the documented form",
 "The results CSV consists of the header reference,degraded,moslqo and one row per compared pair in order, with the paths as given and the printed score, replacing earlier contents. The debug file gets the complete JSON details of every comparison appended, in order, keeping everything from earlier runs; a run that rejects its options or cannot compare one of its pairs touches no output file.",
 ["histories","inputs"],"All sequences of runs over the same output files, all batch sizes and option combinations.",
 "No test runs the tool or reads an output file.",
 [C+"output_utils.rs",C+"main.rs"],[("write_debug_json",C+"output_utils.rs"),("write_results_to_csv",C+"output_utils.rs")],
 ["files written by --results_csv and --output_debug"],
 [("debug file","append-only log of comparisons",C+"output_utils.rs"),("results csv","scores of the last run",C+"output_utils.rs")])
p("C20","Command line options are validated and honoured",
 "The tool accepts exactly one way of naming its inputs: both a reference and a degraded file, or a batch file; half a pair, a batch file together with a file option, an unknown option or a missing subcommand is rejected with a usage error before anything is compared or written, and without any input nothing is compared. Subcommand, unscaled mapping, model file and search radius (default 60) take effect on every comparison of the run exactly as the corresponding library configuration does.",
 ["inputs","configurations"],"All combinations and orders of options.",
 "No test parses a command line or runs the tool.",
 [C+"command_line_utils.rs",C+"main.rs"],[("clap requires/conflicts_with",C+"command_line_utils.rs CommandLineArgs"),("variant construction",C+"main.rs main")],
 ["exit status","stderr","stdout"])
p("C21","Verbose output describes every comparison in full",
 "With the verbose option the tool prints, for every compared pair in order, the paths as given, then the same score as without the option, then one line per frequency band with its similarity and centre frequency and one line per patch with its index, similarity and the time spans of both signals. Without the option nothing but the scores is reported, and no other output depends on it.",
 ["inputs","configurations"],"All pairs, batches and option combinations.",
 "No test runs the tool.",
 [C+"output_utils.rs",C+"main.rs"],[("write_to_console, write_fvnsim_table, write_patch_similarity",C+"output_utils.rs")],
 ["stdout"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); print(x['id'],len(x['title']),n)
