From 14bf224ad953def43f47536034f0963940849525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 01/16] fix: dropping reference patches no longer underflows at
 the first patch

---
 visqol-rs/src/comparison_patches_selector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..8c4b0ab 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -247,12 +247,11 @@ impl ComparisonPatchesSelector {
     ) -> usize {
         let mut num_patches = ref_patch_indices.len();
 
-        if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
+        while num_patches != 0
+            && ref_patch_indices[num_patches - 1].saturating_sub(num_frames_per_patch / 2)
                 > num_frames_in_deg_spectro
-            {
-                num_patches -= 1;
-            }
+        {
+            num_patches -= 1;
         }
         num_patches
     }
-- 
2.43.0


From 6fb1775a64eddfeda0ff5de4ef73bf807425a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 02/16] fix: patches beyond a short degraded signal are dropped
 instead of indexing past its end

---
 visqol-rs/src/comparison_patches_selector.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 8c4b0ab..2e559cc 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -32,11 +32,19 @@ impl ComparisonPatchesSelector {
         let num_frames_in_deg_spectro = spectrogram_data.ncols();
         let patch_duration = frame_duration * num_frames_per_patch as f64;
         let search_window = search_window_radius * num_frames_per_patch as i32;
-        let num_patches = Self::calc_max_num_patches(
+        let mut num_patches = Self::calc_max_num_patches(
             ref_patch_indices,
             num_frames_in_deg_spectro,
             num_frames_per_patch,
         );
+        // A patch cannot be matched if its search window starts past the end of the
+        // degraded spectrogram.
+        while num_patches != 0
+            && ref_patch_indices[num_patches - 1] as i32 - search_window
+                >= num_frames_in_deg_spectro as i32
+        {
+            num_patches -= 1;
+        }
 
         if num_patches == 0 {
             return Err(VisqolError::SignalsTooDifferent);
@@ -69,7 +77,7 @@ impl ComparisonPatchesSelector {
         }
 
         // Attempt to get a good alignment with backtracking.
-        for (index, ref_patch) in ref_patches.iter_mut().enumerate() {
+        for (index, ref_patch) in ref_patches.iter_mut().take(num_patches).enumerate() {
             self.find_most_optimal_deg_patch(
                 spectrogram_data,
                 ref_patch,
-- 
2.43.0


From 01cb671b505b90428e557ed324c6bb91ddf4a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 03/16] fix: offsets outside a patch's search window can no
 longer win the match

---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 2e559cc..e42f312 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -63,7 +63,7 @@ impl ComparisonPatchesSelector {
         best_deg_patches.resize(num_patches, PatchSimilarityResult::default());
 
         let mut cumulative_similarity_dp =
-            vec![vec![0.0f64; spectrogram_data.ncols()]; ref_patch_indices.len()];
+            vec![vec![f64::MIN; spectrogram_data.ncols()]; ref_patch_indices.len()];
         let mut backtrace = vec![vec![0usize; spectrogram_data.ncols()]; ref_patch_indices.len()];
 
         let mut deg_patches = Vec::<Array2<f64>>::with_capacity(spectrogram_data.ncols());
-- 
2.43.0


From 958c352037af24a590050df8909d818c00bcab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 04/16] fix: short speech references report
 ReferenceSpectrogramTooSmall instead of panicking

---
 visqol-rs/src/vad_patch_creator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..ef3e246 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,14 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
+
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From 9adee2f0c9798bb97e8e758c13b4b773fc0f5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 05/16] fix: ReferenceSpectrogramTooSmall reports the minimum
 that is actually required

---
 visqol-rs/src/image_patch_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/image_patch_creator.rs b/visqol-rs/src/image_patch_creator.rs
index f08906f..175197f 100644
--- a/visqol-rs/src/image_patch_creator.rs
+++ b/visqol-rs/src/image_patch_creator.rs
@@ -54,7 +54,7 @@ impl ImagePatchCreator {
         if spectrum_length < self.patch_size + init_patch_index {
             return Err(VisqolError::ReferenceSpectrogramTooSmall {
                 spectrogram_length: spectrum_length,
-                minimum_required: self.patch_size - init_patch_index,
+                minimum_required: self.patch_size + init_patch_index,
             });
         }
 
-- 
2.43.0


From 8e02a744e41e612615cec1c8168a4a7c1e588ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 06/16] fix: a silent degraded signal is not scaled to NaN

---
 visqol-rs/src/audio_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..d30805c 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -21,7 +21,12 @@ pub fn scale_to_match_sound_pressure_level(
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-    let scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    // A silent degraded signal has no level which could be matched.
+    let scale_factor = if deg_spl == f64::NEG_INFINITY {
+        1.0
+    } else {
+        10.0f64.powf((ref_spl - deg_spl) / 20.0)
+    };
     let scaled_mat = degraded.data_matrix.clone() * scale_factor;
     AudioSignal::new(
         scaled_mat
-- 
2.43.0


From d1d1c0ba640f0f8e00c041a00534418f3c25a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 07/16] fix: a truncated wav file is reported as an error
 instead of panicking

---
 visqol-rs/src/wav_reader.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..5938557 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -25,10 +25,7 @@ impl WavFile {
             }));
         }
 
-        let samples: Vec<i32> = reader
-            .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+        let samples = reader.samples::<i32>().collect::<Result<Vec<i32>, _>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 86c982d45679c09ba2949d4d531a3b2d5b01fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 08/16] fix: reference_file and degraded_file require each
 other by their actual ids

---
 visqol/src/command_line_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index bafa25c..e892166 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -57,7 +57,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the reference audio.
     #[clap(
         long = "reference_file",
-        requires = "degraded-file",
+        requires = "degraded_file",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
@@ -65,7 +65,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the degraded audio.
     #[clap(
         long = "degraded_file",
-        requires = "reference-file",
+        requires = "reference_file",
         conflicts_with = "batch_input_csv"
     )]
     pub degraded_file: Option<String>,
-- 
2.43.0


From d23ed582a849c37deb22fe0d9ef7669dbe878e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:13 +0000
Subject: [PATCH 09/16] fix: output_debug appends the details of every
 comparison

---
 visqol/src/output_utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index bc13095..6f769f3 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -7,6 +7,7 @@ use prettytable::{
     Cell, Row, Table,
 };
 use serde_json;
+use std::{fs::OpenOptions, io::Write};
 
 /// Writes debug info to either console or to file.
 pub fn write_results(
@@ -44,13 +45,18 @@ fn write_to_console(args: &CommandLineArgs, result: &SimilarityResult, file_pair
         write_patch_similarity(result);
     }
 }
-/// Writes json formatted debug information.
+/// Appends json formatted debug information of every result.
 fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>) {
     let mut json_output = String::new();
     for result in results {
-        json_output = serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output.push('\n');
     }
-    std::fs::write(json_output_path, json_output)
+    OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(json_output_path)
+        .and_then(|mut file| file.write_all(json_output.as_bytes()))
         .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
 }
 
-- 
2.43.0


From 99c6f2352e5f36ab473b875317e2a6143886e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:13 +0000
Subject: [PATCH 10/16] fix: results_csv contains the documented reference,
 degraded and moslqo columns

---
 visqol/src/output_utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 6f769f3..7ce9193 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -23,7 +23,7 @@ pub fn write_results(
     }
 
     if let Some(csv_output_path) = &args.results_csv {
-        write_results_to_csv(csv_output_path, results);
+        write_results_to_csv(csv_output_path, results, file_pairs);
     }
 
     for (sim_result, file_pair) in results.iter().zip(file_pairs) {
@@ -61,15 +61,22 @@ fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>)
 }
 
 /// Writes computes MOS values to csv file.
-fn write_results_to_csv(csv_output_path: &String, results: &Vec<SimilarityResult>) {
+fn write_results_to_csv(
+    csv_output_path: &String,
+    results: &Vec<SimilarityResult>,
+    file_pairs: &Vec<PathPair>,
+) {
     let mut writer = WriterBuilder::new()
         .has_headers(false)
         .delimiter(b',')
         .from_path(csv_output_path)
         .expect("Failed to instantiate CSV writer!");
-    for result in results {
+    writer
+        .write_record(["reference", "degraded", "moslqo"])
+        .expect("Failed to write CSV header!");
+    for (result, file_pair) in results.iter().zip(file_pairs) {
         writer
-            .serialize(result)
+            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
             .expect("Failed to serialize SimilarityResult!");
     }
     writer.flush().expect("Failed to flush csv file!")
-- 
2.43.0


From 406a839679de7c1eecb5a30c640ac4a97d955740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 11/16] hooks: observation points behind --cfg visqol_verif

---
 visqol-rs/src/comparison_patches_selector.rs | 10 +++
 visqol-rs/src/lib.rs                         |  5 ++
 visqol-rs/src/verif_hooks.rs                 | 83 ++++++++++++++++++++
 visqol-rs/src/visqol.rs                      | 30 +++++++
 visqol-rs/src/visqol_manager.rs              |  2 +
 5 files changed, 130 insertions(+)
 create mode 100644 visqol-rs/src/verif_hooks.rs

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index e42f312..b3ffe11 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -378,6 +378,16 @@ impl ComparisonPatchesSelector {
             let mut new_sim_result = self
                 .sim_comparator
                 .measure_patch_similarity(&mut ref_spectrogram.data, &mut deg_spectrogram.data);
+            #[cfg(all(visqol_verif, visqol_verif_probe))]
+            crate::verif_hooks::probe(crate::verif_hooks::Probe::Realigned {
+                patch: i,
+                ref_audio: &ref_patch_audio,
+                deg_audio: &deg_patch_audio,
+                ref_aligned: &ref_audio_aligned,
+                deg_aligned: &deg_audio_aligned,
+                lag_seconds: lag,
+                similarity: new_sim_result.similarity,
+            });
             // Compare to the old result and take the max.
             if new_sim_result.similarity < result.similarity {
                 realigned_results[i] = result.clone();
diff --git a/visqol-rs/src/lib.rs b/visqol-rs/src/lib.rs
index 5e9a8ab..48b9ca0 100644
--- a/visqol-rs/src/lib.rs
+++ b/visqol-rs/src/lib.rs
@@ -26,6 +26,8 @@
 //! );
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 mod alignment;
 mod analysis_window;
 mod audio_signal;
@@ -61,5 +63,8 @@ pub mod visqol_manager;
 mod wav_reader;
 mod xcorr;
 
+#[cfg(visqol_verif)]
+pub mod verif_hooks;
+
 #[cfg(test)]
 mod test_utility;
diff --git a/visqol-rs/src/verif_hooks.rs b/visqol-rs/src/verif_hooks.rs
new file mode 100644
index 0000000..d483a02
--- /dev/null
+++ b/visqol-rs/src/verif_hooks.rs
@@ -0,0 +1,83 @@
+//! Verification hooks. Compiled only with `--cfg visqol_verif`; the probe statements inside the
+//! algorithm additionally need `--cfg visqol_verif_probe`. Nothing here exists in a normal build.
+
+pub use crate::alignment::{align_and_truncate, globally_align};
+pub use crate::analysis_window::AnalysisWindow;
+pub use crate::audio_signal::AudioSignal;
+pub use crate::audio_utils::{
+    prepare_spectrograms_for_comparison, scale_to_match_sound_pressure_level,
+};
+pub use crate::comparison_patches_selector::ComparisonPatchesSelector;
+pub use crate::envelope::calculate_upper_env;
+pub use crate::gammatone_filterbank::GammatoneFilterbank;
+pub use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
+pub use crate::image_patch_creator::ImagePatchCreator;
+pub use crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
+pub use crate::patch_creator::PatchCreator;
+pub use crate::patch_similarity_comparator::{PatchSimilarityComparator, PatchSimilarityResult};
+pub use crate::rms_vad::RmsVad;
+pub use crate::similarity_to_quality_mapper::SimilarityToQualityMapper;
+pub use crate::spectrogram::Spectrogram;
+pub use crate::spectrogram_builder::SpectrogramBuilder;
+pub use crate::speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper;
+pub use crate::svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper;
+pub use crate::vad_patch_creator::VadPatchCreator;
+pub use crate::visqol_error::VisqolError;
+pub use crate::xcorr::calculate_best_lag;
+
+use ndarray::Array2;
+use std::cell::RefCell;
+
+/// One observation of the running comparison, made right after the step it names.
+pub enum Probe<'a> {
+    /// The degraded signal after global alignment.
+    Aligned { deg: &'a AudioSignal },
+    /// The degraded signal after its level was matched to the reference.
+    Scaled { deg: &'a AudioSignal },
+    /// The spectrograms before the noise floor is applied.
+    Built {
+        reference: &'a Spectrogram,
+        degraded: &'a Spectrogram,
+    },
+    /// The spectrograms after the noise floor was applied.
+    Prepared {
+        reference: &'a Spectrogram,
+        degraded: &'a Spectrogram,
+    },
+    /// The first frame of every reference patch.
+    Segmented { indices: &'a [usize] },
+    /// The reference patches.
+    Cut { patches: &'a [Array2<f64>] },
+    /// The matched patches before the fine realignment.
+    Matched { patches: &'a [PatchSimilarityResult] },
+    /// The fine realignment of one patch pair.
+    Realigned {
+        patch: usize,
+        ref_audio: &'a AudioSignal,
+        deg_audio: &'a AudioSignal,
+        ref_aligned: &'a AudioSignal,
+        deg_aligned: &'a AudioSignal,
+        lag_seconds: f64,
+        similarity: f64,
+    },
+    /// The patches after the fine realignment.
+    Refined { patches: &'a [PatchSimilarityResult] },
+}
+
+type Sink = Box<dyn FnMut(&Probe<'_>)>;
+
+thread_local! {
+    static SINK: RefCell<Option<Sink>> = const { RefCell::new(None) };
+}
+
+/// Installs the receiver of this thread's probes, or removes it.
+pub fn set_sink(sink: Option<Sink>) { SINK.with(|s| *s.borrow_mut() = sink) }
+
+/// Reports an observation to the sink of this thread, if there is one.
+pub fn probe(probe: Probe<'_>) {
+    SINK.with(|s| {
+        if let Some(sink) = s.borrow_mut().as_mut() {
+            sink(&probe)
+        }
+    })
+}
diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index a6181ce..5ca6a21 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -25,14 +25,32 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
     /////////////////// Stage 1: Preprocessing ///////////////////
     let deg_signal_scaled =
         audio_utils::scale_to_match_sound_pressure_level(ref_signal, deg_signal);
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Scaled {
+        deg: &deg_signal_scaled,
+    });
     let mut ref_spectrogram = spect_builder.build(ref_signal, window)?;
     let mut deg_spectrogram = spect_builder.build(&deg_signal_scaled, window)?;
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Built {
+        reference: &ref_spectrogram,
+        degraded: &deg_spectrogram,
+    });
 
     audio_utils::prepare_spectrograms_for_comparison(&mut ref_spectrogram, &mut deg_spectrogram);
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Prepared {
+        reference: &ref_spectrogram,
+        degraded: &deg_spectrogram,
+    });
 
     /////////////// Stage 2: Feature selection and similarity measure ////////////
     let mut ref_patch_indices =
         patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?;
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Segmented {
+        indices: &ref_patch_indices,
+    });
 
     let frame_duration = calculate_frame_duration(
         window.size as f64 * window.overlap,
@@ -41,6 +59,10 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
 
     let mut ref_patches =
         patch_creator.create_patches_from_indices(&ref_spectrogram.data, &ref_patch_indices);
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Cut {
+        patches: &ref_patches,
+    });
 
     let mut sim_match_info = selector.find_most_optimal_deg_patches(
         &mut ref_patches,
@@ -49,6 +71,10 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         frame_duration,
         search_window as i32,
     )?;
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Matched {
+        patches: &sim_match_info,
+    });
     // Realign the patches in time domain subsignals that start at the coarse
     // patch times.
 
@@ -60,6 +86,10 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         window,
     )?;
     sim_match_info = realign_result;
+    #[cfg(all(visqol_verif, visqol_verif_probe))]
+    crate::verif_hooks::probe(crate::verif_hooks::Probe::Refined {
+        patches: &sim_match_info,
+    });
 
     let fvnsim = calc_per_patch_mean_freq_band_means(&sim_match_info);
     let fstdnsim = calc_per_patch_mean_freq_band_std_devs(&sim_match_info, frame_duration);
diff --git a/visqol-rs/src/visqol_manager.rs b/visqol-rs/src/visqol_manager.rs
index 0beb2fb..21ac4e7 100644
--- a/visqol-rs/src/visqol_manager.rs
+++ b/visqol-rs/src/visqol_manager.rs
@@ -88,6 +88,8 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
     ) -> Result<SimilarityResult, Box<dyn Error>> {
         let (mut deg_signal, _) = alignment::globally_align(ref_signal, deg_signal)
             .ok_or(VisqolError::FailedToAlignSignals)?;
+        #[cfg(all(visqol_verif, visqol_verif_probe))]
+        crate::verif_hooks::probe(crate::verif_hooks::Probe::Aligned { deg: &deg_signal });
 
         let window = AnalysisWindow::new(
             ref_signal.sample_rate,
-- 
2.43.0


From 7876970f43040ebf1d9c2d6dc8c038abbe764b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 12/16] fix: realignment truncates exactly the zero padding of
 a positive lag

---
 visqol-rs/src/alignment.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/alignment.rs b/visqol-rs/src/alignment.rs
index 2150d35..999da77 100644
--- a/visqol-rs/src/alignment.rs
+++ b/visqol-rs/src/alignment.rs
@@ -21,12 +21,12 @@ pub fn align_and_truncate(
             // that amount should be truncated.
             new_ref_matrix = new_ref_matrix
                 .slice(s![
-                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * ref_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
             new_deg_matrix = new_deg_matrix
                 .slice(s![
-                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * deg_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
         }
-- 
2.43.0


From 5d86dd4cbed84a4c9fb3b3413584836d2a66cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 13/16] fix: a large search window radius no longer overflows

---
 visqol-rs/src/comparison_patches_selector.rs | 9 ++++++++-
 visqol-rs/src/visqol.rs                      | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index b3ffe11..291f2d2 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -31,7 +31,14 @@ impl ComparisonPatchesSelector {
         let num_frames_per_patch = ref_patches[0].ncols();
         let num_frames_in_deg_spectro = spectrogram_data.ncols();
         let patch_duration = frame_duration * num_frames_per_patch as f64;
-        let search_window = search_window_radius * num_frames_per_patch as i32;
+        // No offset is further away from a patch than the end of either spectrogram, so
+        // larger windows are equivalent to this one.
+        let last_frame = ref_patch_indices
+            .iter()
+            .fold(num_frames_in_deg_spectro, |last, idx| last.max(*idx));
+        let search_window = search_window_radius
+            .saturating_mul(num_frames_per_patch as i32)
+            .min(last_frame as i32);
         let mut num_patches = Self::calc_max_num_patches(
             ref_patch_indices,
             num_frames_in_deg_spectro,
diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index 5ca6a21..2fe4597 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -69,7 +69,7 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         &mut ref_patch_indices,
         &deg_spectrogram.data,
         frame_duration,
-        search_window as i32,
+        search_window.min(i32::MAX as usize) as i32,
     )?;
     #[cfg(all(visqol_verif, visqol_verif_probe))]
     crate::verif_hooks::probe(crate::verif_hooks::Probe::Matched {
-- 
2.43.0


From 260c80d6af5d8089daffc6a4a216c025d1294995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 14/16] fix: frame times count whole-sample hops, so patches
 stay inside the signal at every sample rate

---
 visqol-rs/src/visqol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index 2fe4597..596f68d 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -52,8 +52,9 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         indices: &ref_patch_indices,
     });
 
+    // Frames are a whole number of samples apart
     let frame_duration = calculate_frame_duration(
-        window.size as f64 * window.overlap,
+        (window.size as f64 * window.overlap).floor(),
         ref_signal.sample_rate as usize,
     );
 
-- 
2.43.0


From 4cceeff20dd9cba4541a6399e20a259f506adfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 15/16] fix: an empty multichannel wav file loads as an empty
 signal instead of panicking

---
 visqol-rs/src/audio_utils.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index d30805c..46b77ae 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -4,7 +4,7 @@ use crate::audio_signal::AudioSignal;
 use crate::math_utils;
 use crate::spectrogram::Spectrogram;
 use crate::wav_reader::WavFile;
-use ndarray::{Array1, Array2, Axis, ShapeBuilder};
+use ndarray::{Array1, Array2, Axis};
 use num::complex::Complex64;
 use num_traits::Zero;
 
@@ -69,11 +69,8 @@ pub fn load_as_mono(file_path: &str) -> Result<AudioSignal, Box<dyn Error>> {
 fn extract_multichannel(num_channels: usize, interleaved_vector: &[f64]) -> Array2<f64> {
     assert!(interleaved_vector.len().is_multiple_of(num_channels));
     let sub_vector_size = interleaved_vector.len() / num_channels;
-    Array2::from_shape_vec(
-        (sub_vector_size, num_channels).strides((num_channels, 1)),
-        interleaved_vector.to_vec(),
-    )
-    .expect("Failed to sum multichannel signal to mono signal!")
+    Array2::from_shape_vec((sub_vector_size, num_channels), interleaved_vector.to_vec())
+        .expect("Failed to sum multichannel signal to mono signal!")
 }
 
 /// Scales 2 spectrograms to match their sound pressure levels.
-- 
2.43.0


From 8f49038ec92a590b4ff907acb27d95443aae9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:08 +0000
Subject: [PATCH 16/16] hooks: the realignment probe shows the whole realigned
 patch

---
 visqol-rs/src/comparison_patches_selector.rs | 1 +
 visqol-rs/src/verif_hooks.rs                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 291f2d2..3420498 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -388,6 +388,7 @@ impl ComparisonPatchesSelector {
             #[cfg(all(visqol_verif, visqol_verif_probe))]
             crate::verif_hooks::probe(crate::verif_hooks::Probe::Realigned {
                 patch: i,
+                result: &new_sim_result,
                 ref_audio: &ref_patch_audio,
                 deg_audio: &deg_patch_audio,
                 ref_aligned: &ref_audio_aligned,
diff --git a/visqol-rs/src/verif_hooks.rs b/visqol-rs/src/verif_hooks.rs
index d483a02..7714d41 100644
--- a/visqol-rs/src/verif_hooks.rs
+++ b/visqol-rs/src/verif_hooks.rs
@@ -53,6 +53,7 @@ pub enum Probe<'a> {
     /// The fine realignment of one patch pair.
     Realigned {
         patch: usize,
+        result: &'a PatchSimilarityResult,
         ref_audio: &'a AudioSignal,
         deg_audio: &'a AudioSignal,
         ref_aligned: &'a AudioSignal,
-- 
2.43.0

