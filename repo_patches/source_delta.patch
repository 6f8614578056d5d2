From 141a3ac8734e1d0c7ab2a7eeffbb172023334414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 01/15] fix: reset the stages behind the chroma filter

ChromaFilter::reset did not pass the reset on, so the fingerprint and the
rolling image of an earlier stream survived Fingerprinter::start.
---
 chromaprint/src/chroma_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
-- 
2.43.0


From 5820d1b856f77df35495d06ed2b909caa37599c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 02/15] fix: drop samples left in the FFT ring buffer on reset

Samples of an earlier stream that did not fill a frame were prepended to the
next stream.
---
 chromaprint/src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From a8607d9d2d993dfb15c6c11eca60b2c8611de520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 03/15] fix: do not keep the resampler of an earlier stream

Starting at the target sample rate after a stream with another rate kept the
old resampler, so the new stream was resampled although it must not be.
---
 chromaprint/src/audio_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..0905df2 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -131,6 +131,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
         self.channels = channels;
         self.buffer_offset = 0;
+        self.input.clear();
+        self.resampler = None;
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
-- 
2.43.0


From 229f4feda2386597fd744abb93b708373860c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 04/15] fix: keep the resampler history when flushing the last
 samples

Shrinking the chunk size for the last, partial chunk made the resampler use
wrong history samples, so the last items of a resampled stream were wrong.
Fill the chunk up with silence instead and drop the output depending on it.
---
 chromaprint/src/audio_processor.rs | 46 ++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 0905df2..5fedeb7 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -6,6 +6,7 @@ use crate::stages::{AudioConsumer, Stage};
 
 const MIN_SAMPLE_RATE: u32 = 1000;
 const MAX_BUFFER_SIZE: usize = 1024 * 32;
+const SINC_LEN: usize = 16;
 
 pub struct AudioProcessor<C: AudioConsumer<f64>> {
     buffer: Box<[i16]>,
@@ -15,7 +16,10 @@ pub struct AudioProcessor<C: AudioConsumer<f64>> {
     channels: u32,
     consumer: C,
     target_sample_rate: u32,
+    source_sample_rate: u32,
     resampler: Option<rubato::SincFixedIn<f64>>,
+    resampled_input: u64,
+    resampled_output: u64,
 }
 
 impl<C: AudioConsumer<f64>> AudioProcessor<C> {
@@ -28,7 +32,10 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             channels: 0,
             consumer,
             target_sample_rate,
+            source_sample_rate: 0,
             resampler: None,
+            resampled_input: 0,
+            resampled_output: 0,
         }
     }
 
@@ -71,20 +78,19 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         self.buffer_offset = 0;
 
         if let Some(resampler) = self.resampler.as_mut() {
-            let default_input_frames = resampler.input_frames_next();
             while !self.input.is_empty() {
-                if self.input.len() < resampler.input_frames_next() {
+                let required_input = resampler.input_frames_next();
+                let available_input = self.input.len().min(required_input);
+                if available_input < required_input {
                     if is_end {
-                        // Update chunk size to accept the remaining samples
-                        resampler
-                            .set_chunk_size(self.input.len())
-                            .expect("cannot update chunk size for the resampler");
+                        // Fill up the last chunk with silence. The chunk size must not change
+                        // because the resampler would lose its history.
+                        self.input.resize(required_input, 0.0);
                     } else {
                         break;
                     }
                 }
 
-                let required_input = resampler.input_frames_next();
                 self.output_buffer
                     .resize(resampler.output_frames_next(), 0.0);
                 let (read_samples, written_samples) = resampler
@@ -95,14 +101,21 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
                     )
                     .expect("invalid parameters for resampler");
                 self.input.drain(..read_samples);
-                self.consumer
-                    .consume(&self.output_buffer[..written_samples]);
-
-                if is_end {
-                    resampler
-                        .set_chunk_size(default_input_frames)
-                        .expect("cannot restore chunk size for the resampler");
+                self.resampled_input += available_input as u64;
+
+                let mut usable_samples = written_samples;
+                if available_input < required_input {
+                    // Leave out everything that depends on the added silence.
+                    let usable_input = self.resampled_input.saturating_sub(SINC_LEN as u64 / 2);
+                    let ratio =
+                        f64::from(self.target_sample_rate) / f64::from(self.source_sample_rate);
+                    let total_output = (usable_input as f64 * ratio) as u64;
+                    let remaining_output = total_output.saturating_sub(self.resampled_output);
+                    usable_samples = usable_samples.min(remaining_output as usize);
                 }
+                self.resampled_output += usable_samples as u64;
+                self.consumer
+                    .consume(&self.output_buffer[..usable_samples]);
             }
         } else {
             self.consumer.consume(&self.input);
@@ -130,6 +143,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         }
 
         self.channels = channels;
+        self.source_sample_rate = sample_rate;
+        self.resampled_input = 0;
+        self.resampled_output = 0;
         self.buffer_offset = 0;
         self.input.clear();
         self.resampler = None;
@@ -140,7 +156,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
                 self.target_sample_rate as f64 / sample_rate as f64,
                 1.0,
                 rubato::SincInterpolationParameters {
-                    sinc_len: 16,
+                    sinc_len: SINC_LEN,
                     f_cutoff: 0.8,
                     oversampling_factor: 128,
                     interpolation: rubato::SincInterpolationType::Nearest,
-- 
2.43.0


From 23f8b7d2422860f4d42035c240955dcd02150eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 05/15] fix: honour the interpolation setting of the
 configuration

Configuration::with_interpolation, used by preset_test3, had no effect.
---
 chromaprint/src/chroma.rs        | 6 ++++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..857331b 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,12 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    /// Enables or disables splitting of energy between neighboring notes.
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From 6f0f33a9f0d9d058675fa45464786e4199dc65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 06/15] fix: split packets over all the chunks they belong to

After the end of a chunk the rest of the packet was taken from a slice with a
wrong end, which dropped samples or panicked, and a packet holding the ends of
more than one chunk underflowed the chunk size.
---
 fpcalc/src/main.rs | 87 +++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..3d662d2 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -310,60 +310,59 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+            let mut frame_data = &buf.samples()[..frame_size * reader.channel_count];
+
+            // A single packet may contain the ends of many chunks.
+            while frame_size > 0 {
+                let first_part_size = frame_size;
+                let (chunk_done, first_part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (first_part_size > remaining, first_part_size.min(remaining))
+                } else {
+                    (false, first_part_size)
+                };
 
-            chunk_size += first_part_size;
+                let (first_part, rest) =
+                    frame_data.split_at(first_part_size * reader.channel_count);
+                printer.consume(first_part);
 
-            if chunk_done {
-                printer.finish();
+                chunk_size += first_part_size;
 
-                let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
-                    / f64::from(reader.sample_rate)
-                    + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                if chunk_done {
+                    printer.finish();
 
-                if args.ts {
-                    ts = get_current_timestamp();
-                } else {
-                    ts += chunk_duration;
-                }
+                    let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
+                        / f64::from(reader.sample_rate)
+                        + overlap;
+                    result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
 
-                if args.overlap {
-                    printer = Fingerprinter::new(config);
-                    ts -= overlap;
-                } else {
-                    printer
-                        .start(reader.sample_rate, channel_count)
-                        .context("initializing fingerprinter")?;
-                }
+                    if args.ts {
+                        ts = get_current_timestamp();
+                    } else {
+                        ts += chunk_duration;
+                    }
 
-                if first_chunk {
-                    extra_chunk_limit = 0;
-                    first_chunk = false;
-                }
+                    if args.overlap {
+                        printer = Fingerprinter::new(config);
+                        ts -= overlap;
+                    } else {
+                        printer
+                            .start(reader.sample_rate, channel_count)
+                            .context("initializing fingerprinter")?;
+                    }
 
-                chunk_size = 0;
-            }
+                    if first_chunk {
+                        extra_chunk_limit = 0;
+                        first_chunk = false;
+                    }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
-            }
+                    chunk_size = 0;
+                }
 
-            chunk_size += frame_size;
+                frame_data = rest;
+                frame_size -= first_part_size;
+            }
 
             if stream_done {
                 break;
-- 
2.43.0


From 82882dc0b0984c958473a10fd8ed4aebc6fb2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 07/15] fix: report failed reads instead of fingerprinting the
 part that was read

Every I/O error while reading packets was taken for the end of the stream, so
fpcalc printed the fingerprint of a part of the file and exited with success.
---
 fpcalc/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 3d662d2..d5acb28 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -2,6 +2,7 @@ use base64::prelude::{Engine, BASE64_URL_SAFE_NO_PAD};
 use chrono::Local;
 use clap::Parser;
 use std::fmt;
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 
 use anyhow::Context;
@@ -283,6 +284,10 @@ pub fn main() -> anyhow::Result<()> {
         let audio_buf = match reader.next_buffer() {
             Ok(buffer) => buffer,
             Err(Error::DecodeError(err)) => Err(Error::DecodeError(err))?,
+            // Symphonia reports the end of the stream as an unexpected EOF.
+            Err(Error::IoError(err)) if err.kind() != ErrorKind::UnexpectedEof => {
+                Err(err).context("reading audio")?
+            }
             Err(_) => break,
         };
 
-- 
2.43.0


From deb96fe9d7e9c82b2689306ee4cbc44e5728f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 08/15] fix: report failed reads instead of comparing the part
 that was read

---
 compare/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index f479851..ce58dd4 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -1,5 +1,6 @@
 mod utils;
 
+use std::io::ErrorKind;
 use std::path::Path;
 
 use anyhow::Context;
@@ -69,6 +70,10 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
     loop {
         let packet = match format.next_packet() {
             Ok(packet) => packet,
+            // Symphonia reports the end of the stream as an unexpected EOF.
+            Err(Error::IoError(err)) if err.kind() != ErrorKind::UnexpectedEof => {
+                return Err(err).context("reading audio")
+            }
             Err(_) => break,
         };
 
-- 
2.43.0


From a3c0d1f7bed236aa07bb7e86d1ebfdf630dc6f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 09/15] fix: do not skip audio when a read fails only once

The FLAC demuxer drops the current block when reading it fails and carries on
with the next one, so a transient error left a gap in the fingerprinted audio.
---
 compare/src/main.rs | 55 ++++++++++++++++++++++++++++++++++++++++++---
 fpcalc/src/main.rs  | 55 ++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 104 insertions(+), 6 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index ce58dd4..4ebdf17 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -1,6 +1,7 @@
 mod utils;
 
-use std::io::ErrorKind;
+use std::fs::File;
+use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
 use std::path::Path;
 
 use anyhow::Context;
@@ -8,16 +9,64 @@ use symphonia::core::audio::SampleBuffer;
 use symphonia::core::codecs::{DecoderOptions, CODEC_TYPE_NULL};
 use symphonia::core::errors::Error;
 use symphonia::core::formats::FormatOptions;
-use symphonia::core::io::MediaSourceStream;
+use symphonia::core::io::{MediaSource, MediaSourceStream};
 use symphonia::core::meta::MetadataOptions;
 use symphonia::core::probe::Hint;
 
 use crate::utils::DurationExt;
 use rusty_chromaprint::{match_fingerprints, Configuration, Fingerprinter};
 
+/// An audio file that keeps failing once reading from it has failed.
+///
+/// Some demuxers carry on after a failed read, which would leave a gap in the audio.
+struct AudioFile {
+    file: File,
+    failed: bool,
+}
+
+impl Read for AudioFile {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if self.failed {
+            return Err(io::Error::new(
+                ErrorKind::Other,
+                "an earlier read has failed",
+            ));
+        }
+
+        loop {
+            match self.file.read(buf) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+                result => {
+                    self.failed = result.is_err();
+                    break result;
+                }
+            }
+        }
+    }
+}
+
+impl Seek for AudioFile {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.file.seek(pos)
+    }
+}
+
+impl MediaSource for AudioFile {
+    fn is_seekable(&self) -> bool {
+        self.file.is_seekable()
+    }
+
+    fn byte_len(&self) -> Option<u64> {
+        self.file.byte_len()
+    }
+}
+
 fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::Result<Vec<u32>> {
     let path = path.as_ref();
-    let src = std::fs::File::open(path).context("failed to open file")?;
+    let src = AudioFile {
+        file: File::open(path).context("failed to open file")?,
+        failed: false,
+    };
     let mss = MediaSourceStream::new(Box::new(src), Default::default());
 
     let mut hint = Hint::new();
diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index d5acb28..a54fb7e 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -2,7 +2,8 @@ use base64::prelude::{Engine, BASE64_URL_SAFE_NO_PAD};
 use chrono::Local;
 use clap::Parser;
 use std::fmt;
-use std::io::ErrorKind;
+use std::fs::File;
+use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
 use std::path::{Path, PathBuf};
 
 use anyhow::Context;
@@ -11,7 +12,7 @@ use symphonia::core::audio::{AudioBufferRef, SampleBuffer};
 use symphonia::core::codecs::{Decoder, DecoderOptions, CODEC_TYPE_NULL};
 use symphonia::core::errors::Error;
 use symphonia::core::formats::{FormatOptions, FormatReader};
-use symphonia::core::io::MediaSourceStream;
+use symphonia::core::io::{MediaSource, MediaSourceStream};
 use symphonia::core::meta::MetadataOptions;
 use symphonia::core::probe::Hint;
 
@@ -152,6 +153,51 @@ impl fmt::Display for OutputFormat {
     }
 }
 
+/// An audio file that keeps failing once reading from it has failed.
+///
+/// Some demuxers carry on after a failed read, which would leave a gap in the audio.
+struct AudioFile {
+    file: File,
+    failed: bool,
+}
+
+impl Read for AudioFile {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if self.failed {
+            return Err(io::Error::new(
+                ErrorKind::Other,
+                "an earlier read has failed",
+            ));
+        }
+
+        loop {
+            match self.file.read(buf) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+                result => {
+                    self.failed = result.is_err();
+                    break result;
+                }
+            }
+        }
+    }
+}
+
+impl Seek for AudioFile {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.file.seek(pos)
+    }
+}
+
+impl MediaSource for AudioFile {
+    fn is_seekable(&self) -> bool {
+        self.file.is_seekable()
+    }
+
+    fn byte_len(&self) -> Option<u64> {
+        self.file.byte_len()
+    }
+}
+
 struct AudioReader {
     format: Box<dyn FormatReader>,
     decoder: Box<dyn Decoder>,
@@ -163,7 +209,10 @@ struct AudioReader {
 impl AudioReader {
     fn new(path: &impl AsRef<Path>) -> anyhow::Result<Self> {
         let path = path.as_ref();
-        let src = std::fs::File::open(path).context("failed to open file")?;
+        let src = AudioFile {
+            file: File::open(path).context("failed to open file")?,
+            failed: false,
+        };
         let mss = MediaSourceStream::new(Box::new(src), Default::default());
 
         let mut hint = Hint::new();
-- 
2.43.0


From 20a7643b355a8328b8af2ff5aca90f8f38d3c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 10/15] fix: make --overlap work

The fingerprinter created for the second chunk was never started, so the
first overlapping chunk was followed by a panic. The overlap was also
calculated as if the delay were given in milliseconds, and nothing of the
previous chunk was given to the next one.
---
 fpcalc/src/main.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index a54fb7e..cfcac86 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -323,10 +323,15 @@ pub fn main() -> anyhow::Result<()> {
     let mut overlap: f64 = 0.0;
 
     if chunk_limit > 0 && args.overlap {
-        extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        // The delay is given in samples at the internal sample rate.
+        let internal_rate = usize::try_from(config.sample_rate()).context("invalid sample rate")?;
+        extra_chunk_limit = (config.delay() * sample_rate).div_ceil(internal_rate);
+        overlap = (extra_chunk_limit as f64) / (sample_rate as f64);
     }
 
+    // The samples at the end of the current chunk that also belong to the next one.
+    let mut overlap_samples: Vec<i16> = Vec::new();
+
     let mut first_chunk = true;
 
     loop {
@@ -383,12 +388,16 @@ pub fn main() -> anyhow::Result<()> {
 
                 chunk_size += first_part_size;
 
+                if extra_chunk_limit > 0 {
+                    let overlap_size = chunk_size.saturating_sub(chunk_limit).min(first_part_size);
+                    let overlap_start = (first_part_size - overlap_size) * reader.channel_count;
+                    overlap_samples.extend_from_slice(&first_part[overlap_start..]);
+                }
+
                 if chunk_done {
                     printer.finish();
 
-                    let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
-                        / f64::from(reader.sample_rate)
-                        + overlap;
+                    let chunk_duration = chunk_size as f64 * 1.0 / f64::from(reader.sample_rate);
                     result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
 
                     if args.ts {
@@ -397,21 +406,20 @@ pub fn main() -> anyhow::Result<()> {
                         ts += chunk_duration;
                     }
 
+                    printer
+                        .start(reader.sample_rate, channel_count)
+                        .context("initializing fingerprinter")?;
+
+                    first_chunk = false;
+                    chunk_size = 0;
+
                     if args.overlap {
-                        printer = Fingerprinter::new(config);
+                        printer.consume(&overlap_samples);
+                        overlap_samples
+                            .drain(..chunk_limit.min(extra_chunk_limit) * reader.channel_count);
+                        chunk_size = extra_chunk_limit;
                         ts -= overlap;
-                    } else {
-                        printer
-                            .start(reader.sample_rate, channel_count)
-                            .context("initializing fingerprinter")?;
-                    }
-
-                    if first_chunk {
-                        extra_chunk_limit = 0;
-                        first_chunk = false;
                     }
-
-                    chunk_size = 0;
                 }
 
                 frame_data = rest;
@@ -427,8 +435,7 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
+        let chunk_duration = chunk_size as f64 * 1.0 / f64::from(reader.sample_rate);
         result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
     }
 
-- 
2.43.0


From 33c4e32882b9b9202481f378f0617cb39228f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 11/15] fix: keep huge --length and --chunk values from
 overflowing

---
 fpcalc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index cfcac86..d16d120 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -314,10 +314,10 @@ pub fn main() -> anyhow::Result<()> {
     let sample_rate = usize::try_from(reader.sample_rate).context("invalid sample rate")?;
 
     let mut stream_size = 0;
-    let stream_limit = args.length * sample_rate;
+    let stream_limit = args.length.saturating_mul(sample_rate);
 
     let mut chunk_size = 0;
-    let chunk_limit = args.max_chunk_duration() * sample_rate;
+    let chunk_limit = args.max_chunk_duration().saturating_mul(sample_rate);
 
     let mut extra_chunk_limit = 0;
     let mut overlap: f64 = 0.0;
@@ -376,7 +376,7 @@ pub fn main() -> anyhow::Result<()> {
             while frame_size > 0 {
                 let first_part_size = frame_size;
                 let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    let remaining = chunk_limit.saturating_add(extra_chunk_limit) - chunk_size;
                     (first_part_size > remaining, first_part_size.min(remaining))
                 } else {
                     (false, first_part_size)
-- 
2.43.0


From 83e737094faf1fdbf8e83b391aa336e2d11b992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 12/15] fix: do not overflow when averaging many channels

---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 5fedeb7..bba1629 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -60,9 +60,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0


From b777bbdbb0e5c02bd0560ce5df00de02565730dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 13/15] fix: do not take a truncated packet for the end of the
 stream in fpcalc

---
 fpcalc/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index d16d120..b0b1231 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -277,7 +277,12 @@ impl AudioReader {
 
             break Ok(packet);
         };
-        packet.and_then(|pkt| self.decoder.decode(&pkt))
+        let packet = packet?;
+        self.decoder.decode(&packet).map_err(|err| match err {
+            // The packet is damaged, it is not the stream that has ended.
+            Error::IoError(_) => Error::DecodeError("unexpected end of packet"),
+            err => err,
+        })
     }
 }
 
-- 
2.43.0


From 4ee85cd959ff4e800b73107b13f991e766a68bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 14/15] fix: do not take a truncated packet for the end of the
 stream in compare

---
 compare/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index 4ebdf17..4fe21d3 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -144,6 +144,8 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
                 }
             }
             Err(Error::DecodeError(_)) => (),
+            // The packet is damaged as well, it is not the stream that has ended.
+            Err(Error::IoError(_)) => (),
             Err(_) => break,
         }
     }
-- 
2.43.0


From 8ee189a2b5282cc02172833f58509484fe8ed476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 15/15] fix: report damage to the container in compare

---
 compare/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index 4fe21d3..67d9eea 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -123,6 +123,8 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
             Err(Error::IoError(err)) if err.kind() != ErrorKind::UnexpectedEof => {
                 return Err(err).context("reading audio")
             }
+            // The rest of the stream cannot be read.
+            Err(err @ Error::DecodeError(_)) => return Err(err).context("reading audio"),
             Err(_) => break,
         };
 
-- 
2.43.0

