From 54f10feef4a3e5969665be1124e264438b2b5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 01/11] fix: StringRef::to_string dropped text after a leading
 string reference

The fast path for strings that consist of a single reference compared the
terminator's position relative to the string with an absolute position. A
string that starts with a reference, and whose terminator lies as far behind
its start as the table's start plus the size of a reference, was reduced to
the referenced string.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From fe652004d57afd437f34c7d4437cc022f6ce5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 02/11] fix: accept the vertical tab in event ids

The event_id grammar allows [[:space:]], which includes the vertical tab,
but u8::is_ascii_whitespace does not. Such event ids were reported as parse
errors.
---
 decodeme/src/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/event.rs b/decodeme/src/event.rs
index 6c254ad..b15c947 100644
--- a/decodeme/src/event.rs
+++ b/decodeme/src/event.rs
@@ -95,7 +95,9 @@ impl<'a> Parser<'a> {
 
         if self.full_text[start..end]
             .iter()
-            .filter(|x| !x.is_ascii_whitespace())
+            // `is_ascii_whitespace` does not include the vertical tab but the
+            // `[[:space:]]` class of the `event_id` grammar does.
+            .filter(|x| !x.is_ascii_whitespace() && **x != b'\x0B')
             .any(u8::is_ascii_control)
         {
             return self.err("Found ASCII control character in <text>");
-- 
2.43.0


From fd6fd9d200c9e055ce7e1e508fe4e112ffe9c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 03/11] fix: report missing streams of version 8 files as
 errors

---
 analyzeme/src/file_formats/v8.rs | 27 +++++++++++++++++++++++++++
 analyzeme/src/profiling_data.rs  |  7 +++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/analyzeme/src/file_formats/v8.rs b/analyzeme/src/file_formats/v8.rs
index 0955e4d..7211657 100644
--- a/analyzeme/src/file_formats/v8.rs
+++ b/analyzeme/src/file_formats/v8.rs
@@ -16,9 +16,36 @@ use decodeme_10::event_payload::Timestamp as OldTimestamp;
 use decodeme_10::lightweight_event::LightweightEvent as OldLightweightEvent;
 pub use decodeme_10::EventDecoder;
 use decodeme_10::Metadata as OldMetadata;
+use measureme_10::file_header::FILE_HEADER_SIZE;
+use measureme_10::PageTag;
+use std::error::Error;
+use std::path::Path;
 
 pub const FILE_FORMAT: u32 = measureme_10::file_header::CURRENT_FILE_FORMAT_VERSION;
 
+/// Loads a file whose top-level header has already been verified.
+///
+/// Unlike `decodeme_10::EventDecoder::new` this reports missing streams as
+/// errors instead of panicking.
+pub fn event_decoder_from_file(
+    entire_file_data: Vec<u8>,
+    diagnostic_file_path: Option<&Path>,
+) -> Result<EventDecoder, Box<dyn Error + Send + Sync>> {
+    let mut split_data = measureme_10::split_streams(&entire_file_data[FILE_HEADER_SIZE..]);
+
+    let string_data = split_data
+        .remove(&PageTag::StringData)
+        .ok_or("Invalid file: No string data found")?;
+    let index_data = split_data
+        .remove(&PageTag::StringIndex)
+        .ok_or("Invalid file: No string index data found")?;
+    let event_data = split_data
+        .remove(&PageTag::Events)
+        .ok_or("Invalid file: No event data found")?;
+
+    EventDecoder::from_separate_buffers(string_data, index_data, event_data, diagnostic_file_path)
+}
+
 // NOTE: These are functionally a hand-rolled "impl From<Old> -> New", but
 // given orphan rules, it seems undesirable to spread version-specific
 // converters around the codebase.
diff --git a/analyzeme/src/profiling_data.rs b/analyzeme/src/profiling_data.rs
index 08d1a89..d75c2a9 100644
--- a/analyzeme/src/profiling_data.rs
+++ b/analyzeme/src/profiling_data.rs
@@ -60,10 +60,9 @@ impl ProfilingData {
         )?;
 
         let event_decoder: Box<dyn file_formats::EventDecoder> = match file_format_version {
-            file_formats::v8::FILE_FORMAT => Box::new(file_formats::v8::EventDecoder::new(
-                data,
-                diagnostic_file_path,
-            )?),
+            file_formats::v8::FILE_FORMAT => Box::new(
+                file_formats::v8::event_decoder_from_file(data, diagnostic_file_path)?,
+            ),
             file_formats::v9::FILE_FORMAT => Box::new(file_formats::v9::EventDecoder::new(
                 data,
                 diagnostic_file_path,
-- 
2.43.0


From 132818ae593ff121e7a607e62b00c880b9c66da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 04/11] fix: do not wrap around when addressing an event past
 the end

---
 decodeme/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/lib.rs b/decodeme/src/lib.rs
index 908b840..4f0522d 100644
--- a/decodeme/src/lib.rs
+++ b/decodeme/src/lib.rs
@@ -206,5 +206,8 @@ impl EventDecoder {
 }
 
 fn event_index_to_addr(event_index: usize) -> usize {
-    FILE_HEADER_SIZE + event_index * mem::size_of::<RawEvent>()
+    event_index
+        .checked_mul(mem::size_of::<RawEvent>())
+        .and_then(|offset| offset.checked_add(FILE_HEADER_SIZE))
+        .unwrap()
 }
-- 
2.43.0


From 673f40a117d00254845dadc9b29600e8792c95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 05/11] fix: write the command line as valid JSON

---
 measureme/src/profiler.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..a083183 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -53,8 +53,8 @@ impl Profiler {
         };
 
         let mut args = String::new();
-        for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+        for arg in std::env::args_os() {
+            push_json_escaped(&mut args, &arg.to_string_lossy());
             args.push(' ');
         }
 
@@ -179,6 +179,20 @@ impl Profiler {
     }
 }
 
+/// Appends `text` to `json` such that it can be used within a JSON string.
+fn push_json_escaped(json: &mut String, text: &str) {
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                json.push('\\');
+                json.push(c);
+            }
+            '\0'..='\x1f' => json.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => json.push(c),
+        }
+    }
+}
+
 /// Created by `Profiler::start_recording_interval_event_detached`.
 /// Must be passed to `finish_recording_interval_event` to record an
 /// "end" event.
-- 
2.43.0


From e43de9d2b1e4399719cdf3078bde567c18d09dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 06/11] fix: mmedit truncates profiles of the current format
 version

---
 mmedit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index 5cdb784..3bb0ef6 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -19,7 +19,7 @@ enum Opt {
 fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync>> {
     let file_version = read_file_header(&file_contents, FILE_MAGIC_TOP_LEVEL, None, "top-level")?;
 
-    if file_version < 7 || file_version > 8 {
+    if file_version < 7 || file_version > 9 {
         return Err(format!("File version {} is not support", file_version).into());
     }
 
-- 
2.43.0


From e9e712e80a981732cf13792980b0ff6c31f9c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 07/11] fix: a removed label's zero times are no negative zeros

---
 summarize/src/diff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/summarize/src/diff.rs b/summarize/src/diff.rs
index d044b89..d7add88 100644
--- a/summarize/src/diff.rs
+++ b/summarize/src/diff.rs
@@ -147,9 +147,10 @@ impl QueryDataDiff {
 
     pub fn invert_query_data(data: &QueryData) -> QueryDataDiff {
         fn invert(d: Duration) -> SignedDuration {
+            // A zero duration stays positive
             SignedDuration {
                 duration: d,
-                is_positive: false,
+                is_positive: d == Duration::from_nanos(0),
             }
         }
 
-- 
2.43.0


From fbe30c7d6d4a037440bb098c10d8dcf9d32eac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 08/11] fix: look for hashing times in all labels before hiding
 their column

---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..e97273d 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From a00d273f25c4bc9e095730ce9c684e25a6c1104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 09/11] fix: read the inputs of a diff that are JSON files as
 JSON

---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index e97273d..09a5955 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |e| e == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From e156f39a08ebafc14868e1a6e2d61e59ee9113de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 10/11] fix: show the events of a profile with only integer
 events

---
 mmview/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..07de696 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,7 +18,14 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
+    if data.num_events() > 0 {
+        // Integer events have no time
+        let global_start_time = data
+            .iter()
+            .filter_map(|e| e.start())
+            .min()
+            .unwrap_or(data.metadata().start_time);
+
         for event in data.iter() {
             if let Some(thread_id) = opt.thread_id {
                 if event.thread_id != thread_id {
-- 
2.43.0


From ec049e6b957a87ab14102a1e85955b1ffd851e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:23 +0000
Subject: [PATCH 11/11] fix: report why perf_event_open failed

The libc wrapper returns -1 and leaves the error in errno, so negating its
result made every failure look like EPERM.
---
 measureme/src/counters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 18d5e63..2470a2c 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -373,7 +373,7 @@ mod hw {
                 let fd =
                     perf_event_open(&mut attrs, pid, cpu, group_fd, PERF_FLAG_FD_CLOEXEC.into());
                 if fd < 0 {
-                    Err(std::io::Error::from_raw_os_error(-fd))
+                    Err(std::io::Error::last_os_error())
                 } else {
                     Ok(fs::File::from_raw_fd(fd))
                 }
-- 
2.43.0

