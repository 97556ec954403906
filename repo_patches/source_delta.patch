From 991e80e748dcce368158c9a70b6e04f33e2e2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 01/24] fix: iterator: a backslash at the end of a line does
 not glue it to the next one

The scanner treated the line feed as the escaped character, so that the two
lines were returned as one and every later line number was off.
---
 iterator/src/iterator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..5ae8467 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -230,10 +230,11 @@ impl<R: Read> BytesLines<R> {
             let c = *c as char;
             let sep = if self.escaped {
                 self.escaped = false;
-                if c == 'n' {
-                    Some(Sep::SubLine)
-                } else {
-                    None
+                match c {
+                    'n' => Some(Sep::SubLine),
+                    // A backslash at the end of a line does not escape the line return.
+                    '\n' => Some(Sep::NewLine),
+                    _ => None,
                 }
             } else if c == '\\' {
                 self.escaped = true;
-- 
2.43.0


From b0260f919dca0f2ffcc7394de83f757eadc051a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 02/24] fix: iterator: discard long lines without losing or
 inventing data

Draining a line over the limit kept the NUL padding of a short read, threw
away the rest of a full chunk together with the lines in it (and their count),
and panicked when a literal '\n' was split over two reads.  A read error left
the padding in the buffer, so that the next call returned made-up bytes.
Finally every blank line and every read of a long line recursed, which
overflowed the stack; the reader is now a loop and remembers that it is
discarding a line.
---
 iterator/src/iterator.rs | 169 +++++++++++++++------------------------
 1 file changed, 64 insertions(+), 105 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 5ae8467..0699742 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -40,17 +40,6 @@ enum Sep {
     Json,
 }
 
-impl Sep {
-    // The size of the separator
-    fn len(&self) -> usize {
-        match self {
-            Sep::NewLine => 1,
-            Sep::SubLine => 2,
-            Sep::Json => 1,
-        }
-    }
-}
-
 #[derive(Clone, Copy, Debug, PartialEq)]
 enum State {
     // We reached the end of the file.
@@ -105,6 +94,8 @@ pub struct BytesLines<R: Read> {
     split_json: Option<JsonState>,
     prev_pos: usize,
     escaped: bool,
+    // The current line is over the limit, it is being discarded.
+    dropping: bool,
 }
 
 struct JsonState {
@@ -120,7 +111,6 @@ impl<R: Read> Iterator for BytesLines<R> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.state {
             State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
             State::Scanning(_) => self.get_slice(),
         }
     }
@@ -150,81 +140,82 @@ impl<R: Read> BytesLines<R> {
             line_count: 0,
             prev_pos: 0,
             escaped: false,
+            dropping: false,
             split_json,
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    // Read a new chunk, returns false when we reached the end of the reader.
+    fn read_slice(&mut self) -> Result<bool> {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
         self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
-            }
-
-            // Step H: We reached the end of the reader, but we have left-overs.
-            Ok(_) if pos > 0 => {
-                self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
-            }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
+        let res = self.reader.read(&mut self.buf[pos..]);
+        // Only keep what was read
+        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));
+        res.map(|n| n > 0)
     }
 
-    // Find the next line in the buffer
+    // Find the next line in the buffer, or in the next chunks
     fn get_slice(&mut self) -> Option<Result<LogLine>> {
-        match self.find_next_line() {
-            // Step J: The current line is over the limit, and we don't know where it ends.
-            None if self.buf.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                self.buf.clear();
-                self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
-            }
-
-            // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
-                self.prev_pos = 0;
-                // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
-                self.get_slice()
-            }
+        loop {
+            match self.find_next_line() {
+                // Step I: The current line is over the limit, we need to discard it.
+                Some((pos, next_pos)) if self.dropping || pos > self.max_line_length => {
+                    self.prev_pos = 0;
+                    self.dropping = false;
+                    // The next line is already in the buffer, so we can just advance.
+                    self.buf.advance(next_pos);
+                }
 
-            // Step E: We haven't found the end of the line, we need more data.
-            None => {
-                // Step F: reserve() will attempt to reclaim space in the buffer.
-                self.prev_pos = self.buf.len();
-                self.buf.reserve(self.chunk_size);
-                self.read_slice()
-            }
+                // Step B: We found the end of the line, we can return it now.
+                Some((pos, next_pos)) => {
+                    self.prev_pos = 0;
+                    // Step C: split_to() creates a new zero copy reference to the buffer.
+                    let res = self.buf.split_to(pos).freeze();
+                    // Step D: advance the starting position
+                    self.buf.advance(next_pos - pos);
+                    if !res.is_empty() {
+                        return Some(Ok((res, self.line_count)));
+                    }
+                }
 
-            // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
-                self.prev_pos = 0;
-                // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(pos).freeze();
-                // Step D: advance the starting position
-                self.buf.advance(sep.len());
-                if res.is_empty() {
-                    self.get_slice()
-                } else {
-                    Some(Ok((res, self.line_count)))
+                // Step E: We haven't found the end of the line, we need more data.
+                None => {
+                    // A trailing '\\' may be the start of the separator.
+                    let line_length = self.buf.len().saturating_sub(usize::from(self.escaped));
+                    if self.dropping || line_length > self.max_line_length {
+                        // Step J: The current line is over the limit, and we don't know where it ends.
+                        self.dropping = true;
+                        self.buf.clear();
+                    }
+                    self.prev_pos = self.buf.len();
+                    // Step F: reserve() will attempt to reclaim space in the buffer.
+                    self.buf.reserve(self.chunk_size);
+                    match self.read_slice() {
+                        Ok(true) => {}
+                        Ok(false) => return self.last_slice(),
+                        // There was a reading error, we return it.
+                        Err(e) => return Some(Err(e)),
+                    }
                 }
             }
         }
     }
 
-    // Find the next line position and update the line count
-    fn find_next_line(&mut self) -> Option<(usize, Sep)> {
+    // Step H: We reached the end of the reader, but we may have left-overs.
+    fn last_slice(&mut self) -> Option<Result<LogLine>> {
+        self.update_line_counter(State::EoF);
+        let pos = self.buf.len();
+        if pos > 0 && pos <= self.max_line_length {
+            Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
+        } else {
+            None
+        }
+    }
+
+    // Find the position of the end of the line and of the next line, and update the line count
+    fn find_next_line(&mut self) -> Option<(usize, usize)> {
         let slice = self.buf.as_ref();
         for (pos, c) in slice[self.prev_pos..].iter().enumerate() {
             let c = *c as char;
@@ -251,10 +242,11 @@ impl<R: Read> BytesLines<R> {
                 // We found a separator.
                 self.update_line_counter(State::Scanning(sep));
                 let line_separator_pos = match sep {
-                    Sep::SubLine => self.prev_pos + pos - 1,
+                    // The '\\' may be gone already when the line is being discarded.
+                    Sep::SubLine => (self.prev_pos + pos).saturating_sub(1),
                     _ => self.prev_pos + pos,
                 };
-                return Some((line_separator_pos, sep));
+                return Some((line_separator_pos, self.prev_pos + pos + 1));
             }
         }
         None
@@ -267,39 +259,6 @@ impl<R: Read> BytesLines<R> {
         }
         self.state = state;
     }
-
-    // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
-            // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
-                }
-            },
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
-    }
 }
 
 // Check if the given char is a json k/v separator.
-- 
2.43.0


From 600531d5e9a4ee97611be3802166d774e943f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:38 +0000
Subject: [PATCH 03/24] fix: tokenizer: the stack usage no longer grows with
 the word size

A word made of many separators (e.g. 6000 pipes, or a long a|b|c table row)
recursed once per separator and overflowed the stack.  The end of a word is
now processed in a loop.
---
 tokenizer/src/tokenizer.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/tokenizer/src/tokenizer.rs b/tokenizer/src/tokenizer.rs
index ad1995f..4cece0d 100644
--- a/tokenizer/src/tokenizer.rs
+++ b/tokenizer/src/tokenizer.rs
@@ -429,7 +429,28 @@ fn test_push_error() {
 }
 
 /// The tokenizer main (recursive) function
-fn do_process(mut word: &str, result: &mut String) -> bool {
+fn do_process(word: &str, result: &mut String) -> bool {
+    // The end of the word is processed in a loop, so that the stack usage doesn't depend on the word size.
+    let mut rest = Some(word);
+    let mut pids = 0;
+    let mut added = false;
+    while let Some(word) = rest.take() {
+        added = do_process_head(word, result, &mut rest, &mut pids);
+    }
+    for _ in 0..pids {
+        result.push_str("%PID");
+        added = true;
+    }
+    added
+}
+
+/// Process a word, or its first part. In that case the part that remains to be processed is stored in `rest`.
+fn do_process_head<'a>(
+    mut word: &'a str,
+    result: &mut String,
+    rest: &mut Option<&'a str>,
+    pids: &mut usize,
+) -> bool {
     word = trim_quote_and_punctuation(word);
     let mut added = true;
     // We try to process from the most specifics to the most general case
@@ -446,8 +467,8 @@ fn do_process(mut word: &str, result: &mut String) -> bool {
         added = false;
     } else if let Some(strip) = trim_pid(word) {
         // e.g. `"systemd[42]"`
-        do_process(strip, result);
-        result.push_str("%PID");
+        *rest = Some(strip);
+        *pids += 1;
     } else if contains_odd_char(word) {
         result.push_str("%ODD")
     } else if let Some((key, value)) = is_key_value(word) {
@@ -457,13 +478,13 @@ fn do_process(mut word: &str, result: &mut String) -> bool {
             result.push_str("%EQ %VALUE_ID")
         } else {
             result.push_str("%EQ ");
-            added = do_process(value, result)
+            *rest = Some(value)
         }
     } else if let Some((w1, w2)) = word.split_once('/') {
         if do_process(w1, result) {
             result.push_str("/ ");
         }
-        added = do_process(w2, result);
+        *rest = Some(w2);
     } else if let Some((w1, w2)) = word.split_once('-') {
         if has_many_dash(w2) {
             // when word contains more than 4 dash, then consider it noise.
@@ -473,20 +494,20 @@ fn do_process(mut word: &str, result: &mut String) -> bool {
             if do_process(w1, result) {
                 result.push_str("- ");
             }
-            added = do_process(w2, result)
+            *rest = Some(w2)
         }
     } else if let Some((w1, w2)) = word.split_once('|') {
         if do_process(w1, result) {
             result.push_str("| ");
         }
-        added = do_process(w2, result)
+        *rest = Some(w2)
     } else if word.len() >= 32 {
         result.push_str("%BIG")
     } else if let Some((w1, w2)) = is_two_words(word) {
         if do_process(w1, result) {
             result.push(' ');
         }
-        added = do_process(w2, result);
+        *rest = Some(w2);
     } else {
         // here finally the word is added
         let x = remove_numbers(word);
-- 
2.43.0


From f91755295fe905a159420eb113e951f6ed296f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:10 +0000
Subject: [PATCH 04/24] fix: process: the contexts don't overlap and are
 complete at the end of a chunk

The lines added to the after context at the end of a chunk were shown again in
the before context of the next anomaly, and the after context was lost when the
file ended with lines that were already seen.
---
 model/src/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..af698e0 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -182,7 +182,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         }
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        // or the last anomaly still needs the remaining lines for its after context
+        if !self.targets.is_empty() || self.current_anomaly.is_some() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
@@ -273,6 +274,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
+                    // This line can't be in the before context of the next anomaly.
+                    last_context_pos += 1;
                     if anomaly.after.len() >= CTX_DISTANCE {
                         // The current anomaly is completed. TODO: try using std::mem::replace
                         self.anomalies.push_back(anomaly.clone());
-- 
2.43.0


From 3d80372e114e3d9d2bb510ab2940e5979ce61712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:10 +0000
Subject: [PATCH 05/24] fix: process: lines after the log-classify marker are
 not inspected

The reader went on after the marker when an anomaly was found before it.
---
 model/src/process.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index af698e0..a76123b 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// The reader reached our own task marker.
+    completed: bool,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,14 +137,18 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            completed: false,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
-        while let Some(line) = self.reader.next() {
-            let line = line?;
+        while !self.completed {
+            let line = match self.reader.next() {
+                Some(line) => line?,
+                None => break,
+            };
             let raw_str = std::str::from_utf8(&line.0[..])
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             self.line_count += 1;
@@ -151,6 +157,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
 
             // Special check to break when we are processing ourself
             if raw_str.contains("TASK [log-classify") {
+                self.completed = true;
                 break;
             }
 
-- 
2.43.0


From ff95f55542699704d94128d3394747509d50771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 06/24] fix: process: a read error doesn't hide the anomalies
 before it

The lines of the current chunk were dropped when the reader failed, though they
were already marked as seen. The same lines in the other files of the group were
then skipped too.
---
 model/src/process.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a76123b..a5a9b79 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -97,6 +97,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     coord: usize,
     /// The reader reached our own task marker.
     completed: bool,
+    /// The read error to return once the lines before it are processed.
+    read_error: Option<anyhow::Error>,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -138,19 +140,32 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             skip_lines,
             coord: 0,
             completed: false,
+            read_error: None,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
+        if let Some(e) = self.read_error.take() {
+            return Err(e);
+        }
         while !self.completed {
             let line = match self.reader.next() {
-                Some(line) => line?,
+                Some(Ok(line)) => line,
+                Some(Err(e)) => {
+                    self.read_error = Some(e.into());
+                    break;
+                }
                 None => break,
             };
-            let raw_str = std::str::from_utf8(&line.0[..])
-                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
+            let raw_str = match std::str::from_utf8(&line.0[..]) {
+                Ok(raw_str) => raw_str,
+                Err(e) => {
+                    self.read_error = Some(e.into());
+                    break;
+                }
+            };
             self.line_count += 1;
             self.byte_count += line.0.len();
             self.coord += 1;
@@ -188,7 +203,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             }
         }
 
-        // We reached the end of the file and the last chunk is not completed
+        // We reached the end of the file, or a read error, and the last chunk is not completed
         // or the last anomaly still needs the remaining lines for its after context
         if !self.targets.is_empty() || self.current_anomaly.is_some() {
             self.do_search_anomalies();
@@ -198,6 +213,12 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             self.anomalies.push_back(anomaly.clone());
             self.current_anomaly = None;
         }
+        // The anomalies found before the error are returned first.
+        if self.anomalies.is_empty() {
+            if let Some(e) = self.read_error.take() {
+                return Err(e);
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From b8fd42afa058464c3423754866f3db70a4c88ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:39 +0000
Subject: [PATCH 07/24] fix: model, cli: a source that can't be opened doesn't
 stop the analysis of the others

---
 cli/src/main.rs    | 1 -
 model/src/model.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..eeb6eb4 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -340,7 +340,6 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                     }
                     Err(err) => {
                         println!("Could not read {}: {}", &source, err);
-                        break;
                     }
                 }
             }
diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..7629281 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -507,7 +507,6 @@ impl Model {
                             }
                             Err(err) => {
                                 read_errors.push((source.clone(), format!("{}", err)));
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 3d0b640c2ed15aabe8348d2916968db9912508b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:39 +0000
Subject: [PATCH 08/24] fix: cli: the context lines are shown with their own
 line number

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index eeb6eb4..1dcde73 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From ce8a8ec395ead06d19e28d35c5282a3e283197cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:54 +0000
Subject: [PATCH 09/24] fix: reader: the local .gz files are decompressed

The extension of a path doesn't contain the dot. Compressed logs may have
multiple members, and compressed json are json too.
---
 model/src/model.rs  | 3 ++-
 model/src/reader.rs | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7629281..9e67bfb 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -93,7 +93,8 @@ impl Source {
         Source::Local(0, p)
     }
     pub fn is_json(&'_ self) -> bool {
-        self.get_relative().ends_with(".json")
+        let name = self.get_relative();
+        name.strip_suffix(".gz").unwrap_or(name).ends_with(".json")
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..db5f4dd 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -43,6 +43,7 @@ mod remote {
 pub enum DecompressReader {
     Flat(File),
     Gz(GzDecoder<File>),
+    MultiGz(MultiGzDecoder<File>),
     // TODO: support BZIP2 compression
     Remote(Response),
     Cached(logreduce_cache::CacheReader<Response>),
@@ -52,8 +53,9 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
-        Gz(GzDecoder::new(fp))
+    Ok(if extension == "gz" {
+        // A log file may be made of multiple gzip members.
+        MultiGz(MultiGzDecoder::new(fp))
     } else {
         Flat(fp)
     })
@@ -109,6 +111,7 @@ impl Read for DecompressReader {
         match self {
             Flat(r) => r.read(buf),
             Gz(r) => r.read(buf),
+            MultiGz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
         }
-- 
2.43.0


From be8a79b2b9548e4553e8e67c00f88a395e703f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:54 +0000
Subject: [PATCH 10/24] fix: model: each baseline of an index is split
 according to its own name

The format of the first source was used for all, e.g. data.json.1 was split like
data.json in the baseline, but not when it is inspected.
---
 model/src/model.rs   | 8 ++------
 model/src/process.rs | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 9e67bfb..3964f58 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -261,13 +261,9 @@ impl Index {
     pub fn train(sources: &[Source], mut index: ChunkIndex) -> Result<Index> {
         let created_at = SystemTime::now();
         let start_time = Instant::now();
-        let is_json = if let Some(source) = sources.first() {
-            source.is_json()
-        } else {
-            false
-        };
-        let mut trainer = process::ChunkTrainer::new(&mut index, is_json);
+        let mut trainer = process::ChunkTrainer::new(&mut index, false);
         for source in sources {
+            trainer.is_json = source.is_json();
             let reader = match source {
                 Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,
                 Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,
diff --git a/model/src/process.rs b/model/src/process.rs
index a5a9b79..ea4d645 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -17,7 +17,7 @@ const CHUNK_SIZE: usize = 512;
 /// Helper struct to manage indexing multiples readers.
 pub struct ChunkTrainer<'a> {
     index: &'a mut ChunkIndex,
-    is_json: bool,
+    pub is_json: bool,
     skip_lines: HashSet<String>,
     baselines: Vec<String>,
     pub line_count: usize,
-- 
2.43.0


From fc9c1a2a8fd77e84b0f55642fa5a5ad0e95275ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:34 +0000
Subject: [PATCH 11/24] fix: files: a compressed rotated log has the name of
 its log

e.g. audit.log.1.gz was named 'audit.log.' instead of 'audit.log'.
---
 model/src/files.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..5b18706 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -165,6 +165,8 @@ impl IndexName {
                 )
                 .trim_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .trim_end_matches(".gz")
+                // The rotation symbol before the .gz
+                .trim_end_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .to_string()
         };
         IndexName(model_name)
-- 
2.43.0


From 394e27917e4ed6ec8a3ff810af4691cfac7be64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 12/24] fix: model: a file name that is not valid utf-8 is not
 a crash

---
 model/src/model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 3964f58..3f73c6a 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -98,7 +98,10 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
+            Source::Local(base_len, path) => path
+                .to_str()
+                .and_then(|path| path.get(*base_len..))
+                .unwrap_or(""),
             Source::Remote(base_len, url) => &url.as_str()[*base_len..],
         }
     }
-- 
2.43.0


From ea1371c0c19ae300b327ab620e548935d4c49c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 13/24] fix: model: an invalid url is an error and a path can
 start with http

---
 model/src/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 3f73c6a..bbdf7e6 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -44,7 +44,7 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
@@ -328,7 +328,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From 0f515d339c6de84da4a29ead78f0904c00aca079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 14/24] fix: model: a model or report that can't be completely
 written is an error

The last compressed block was written when the encoder was dropped, where
the write errors are ignored.
---
 model/src/model.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index bbdf7e6..c2278d0 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -241,14 +241,13 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        encoder.finish().context("Can't save report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -442,14 +441,13 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        encoder.finish().context("Can't save model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From fd6b6fad90dd8b810a7a9cf6d8732bc168f4f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 15/24] fix: cache: only the complete remote contents are
 served

The content is written next to its cache entry, and moved there once the
remote end is reached.
---
 cache/src/cache.rs | 78 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 13 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..39b677e 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -8,6 +8,8 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use std::fs::File;
 use std::io::{Read, Write};
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use url::Url;
 
 // Low level functions to create unique file names
@@ -35,7 +37,14 @@ mod filename {
         format!("{}/{}", new('1', base), new('4', url))
     }
 
-    pub fn drop(path: Option<std::path::PathBuf>) -> Result<()> {
+    // A unique name for a content that is not yet complete.
+    pub fn partial(path: &Path) -> PathBuf {
+        static COUNT: AtomicUsize = AtomicUsize::new(0);
+        let count = COUNT.fetch_add(1, Ordering::Relaxed);
+        path.with_extension(format!("{}-{}.part", std::process::id(), count))
+    }
+
+    pub fn drop(path: Option<PathBuf>) -> Result<()> {
         path.map_or_else(
             || Ok(()),
             |buf| std::fs::remove_file(buf).context("Failed to delete cache"),
@@ -82,10 +91,15 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let path = self.prepare(&filename::http(base, path))?;
+        // The content is published once it is complete.
+        let partial = filename::partial(&path);
+        let fp = File::create(&partial).context("Failed to create local cache file")?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some(GzEncoder::new(fp, flate2::Compression::fast())),
+            partial,
+            path,
         })
     }
 
@@ -114,7 +128,7 @@ impl Cache {
     }
 
     // check if a path exists.
-    fn get(&self, path: &str) -> Option<std::path::PathBuf> {
+    fn get(&self, path: &str) -> Option<PathBuf> {
         let buf = self.xdg.get_cache_file(path);
         if buf.as_path().exists() {
             Some(buf)
@@ -125,6 +139,11 @@ impl Cache {
 
     // creates a new cache entry.
     fn create(&self, path: &str) -> Result<File> {
+        File::create(self.prepare(path)?).context("Failed to create local cache file")
+    }
+
+    // prepares the location of a new cache entry.
+    fn prepare(&self, path: &str) -> Result<PathBuf> {
         let buf = self.xdg.get_cache_file(path);
         let path = buf.as_path();
         if path.exists() {
@@ -132,7 +151,7 @@ impl Cache {
         } else {
             let parent = path.parent().context("Failed to get cache parent")?;
             std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            File::create(buf).context("Failed to create local cache file")
+            Ok(buf)
         }
     }
 }
@@ -140,21 +159,54 @@ impl Cache {
 /// A Reader object that saves remote data to a local compressed file.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    // The partial content, until it is complete or given up.
+    local: Option<GzEncoder<File>>,
+    partial: PathBuf,
+    path: PathBuf,
+}
+
+impl<R: Read> CacheReader<R> {
+    // Make the complete content available.
+    fn publish(&mut self) -> std::io::Result<()> {
+        match self.local.take() {
+            Some(local) => local
+                .finish()
+                .and_then(|_| std::fs::rename(&self.partial, &self.path))
+                .map_err(|e| {
+                    let _ = std::fs::remove_file(&self.partial);
+                    e
+                }),
+            None => Ok(()),
+        }
+    }
+
+    // Remove the partial content.
+    fn give_up(&mut self) {
+        if self.local.take().is_some() {
+            let _ = std::fs::remove_file(&self.partial);
+        }
+    }
 }
 
 impl<R: Read> Read for CacheReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // Read remote data.
-        let remote_read = self.remote.read(buf);
-        match remote_read {
+        let result = match (self.remote.read(buf), &mut self.local) {
+            (Ok(0), _) if !buf.is_empty() => self.publish().map(|()| 0),
             // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
-            Err(e) => Err(e),
+            (Ok(size), Some(local)) => local.write_all(&buf[..size]).map(|()| size),
+            (result, _) => result,
+        };
+        if result.is_err() {
+            self.give_up();
         }
+        result
+    }
+}
+
+impl<R: Read> Drop for CacheReader<R> {
+    fn drop(&mut self) {
+        self.give_up();
     }
 }
 
-- 
2.43.0


From ca85db0a6d46b7d1560b49ea533168cdd4ab9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:42 +0000
Subject: [PATCH 16/24] fix: report: the log lines, names and locations are
 escaped

---
 report/src/report.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..b787390 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -34,6 +34,22 @@ impl Html {
     }
 }
 
+/// Escape a text for an element or a quoted attribute.
+fn escape(text: &str) -> String {
+    let mut res = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => res.push_str("&amp;"),
+            '<' => res.push_str("&lt;"),
+            '>' => res.push_str("&gt;"),
+            '"' => res.push_str("&quot;"),
+            '\'' => res.push_str("&#39;"),
+            c => res.push(c),
+        }
+    }
+    res
+}
+
 fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Result<()> {
     let mut div = parent
         .div()
@@ -47,14 +63,14 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
         let mut thead = table.thead();
         let mut tr = thead.tr();
         for column in columns {
-            tr.th().write_str(column)?;
+            tr.th().write_str(&escape(column))?;
         }
     }
     let mut tbody = table.tbody();
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +85,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +274,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +289,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(&format!("{}", log_report.index_name)))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +302,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +335,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +354,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +379,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From dafd26ec88d354fea5683dfe70a69afd830dea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:42 +0000
Subject: [PATCH 17/24] fix: report: multi-part lines at the start of a file
 don't underflow their position

---
 report/src/report.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index b787390..ad14c78 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -363,7 +363,8 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        // The lines of a context may share the position of the anomaly.
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From d43babc6b8ff876c5ec14d0f895c5875b94ce255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:17 +0000
Subject: [PATCH 18/24] fix: httpdir: the iterator delivers every url and
 doesn't recurse

The workers could complete between the look at the channel and the look at
the pool, and a stack frame was used for each page.
---
 httpdir/src/httpdir.rs | 81 ++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 51 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..c97b68b 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -72,9 +71,6 @@ pub struct Crawler {
     client: Client,
     // A worker pool.
     workers: ThreadPool,
-    // The mpsc channel.
-    rx: Receiver<Message>,
-    tx: Sender<Message>,
 }
 
 // Helper function to create an io Error
@@ -86,48 +82,46 @@ impl Crawler {
     /// Initialize the Crawler state.
     pub fn new() -> Crawler {
         let workers = ThreadPool::new(4);
-        let (tx, rx) = channel();
         let client = Client::builder()
             .danger_accept_invalid_certs(std::env::var("LOGREDUCE_SSL_NO_VERIFY").is_ok())
             .build()
             .expect("Client");
-        Crawler {
-            workers,
-            client,
-            tx,
-            rx,
-        }
+        Crawler { workers, client }
     }
 
     /// A simple implementation to list all the available files.
     pub fn list(&self, url: Url) -> Result<Vec<Url>> {
         // Submit the initial task.
-        self.start(url);
-        // Wait for all the workers to complete.
+        let rx = self.start(url);
+        // Wait for all the tasks to complete.
+        let messages: Vec<Message> = rx.iter().collect();
         self.workers.join();
         // Collect the results.
         if self.workers.panic_count() > 0 {
             Err(mk_error("Crawler panicked!"))
         } else {
-            self.rx.try_iter().flatten().collect()
+            messages.into_iter().flatten().collect()
         }
     }
 
     /// An iterator based implementation which works a bit differently to poll the results.
     pub fn walk(self, url: Url) -> impl Iterator<Item = Result<Url>> {
         // Submit the initial task.
-        self.start(url);
+        let rx = self.start(url);
         // Create the iterator state.
         CrawlerIter {
             workers: self.workers,
             abort: false,
-            rx: self.rx,
+            rx,
         }
     }
 
-    fn start(&self, url: Url) {
+    // The returned channel is disconnected when all the tasks are completed.
+    fn start(&self, url: Url) -> Receiver<Message> {
+        let (tx, rx) = channel();
         // Here we pass all the requirements by reference to avoid lifetime issues.
-        Crawler::process(&Visitor::new(), &self.client, &self.workers, &self.tx, url);
+        Crawler::process(&Visitor::new(), &self.client, &self.workers, &tx, url);
+        rx
     }
 
     // Helper function to handle a single url.
@@ -184,44 +178,29 @@ struct CrawlerIter {
     rx: Receiver<Message>,
 }
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
-    }
-}
-
 impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
+        loop {
+            match self.rx.recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => {}
+
+                // All the tasks are completed, we stop the iterator.
+                Err(_) if self.abort => return None,
+                Err(_) => {
+                    self.abort = true;
+                    self.workers.join();
+                    // ensure that when there is a panic, we propagate the error.
+                    if self.workers.panic_count() > 0 {
+                        return Some(Err(mk_error("Crawler panicked!")));
+                    }
+                }
             }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
-
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
         }
     }
 }
-- 
2.43.0


From 4009cca87c1f130ec949577e040b47f974965dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 19/24] fix: model: the base of a remote source is its own
 prefix

Opening a listed file crashed when its location has less than 42 characters,
and so did naming a file linked above the listed directory.
---
 model/src/model.rs | 5 ++++-
 model/src/urls.rs  | 7 +++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index c2278d0..3e8c4f2 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -102,7 +102,10 @@ impl Source {
                 .to_str()
                 .and_then(|path| path.get(*base_len..))
                 .unwrap_or(""),
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Remote(base_len, url) => {
+                // A link may lead above the base.
+                url.as_str().get(*base_len..).unwrap_or_else(|| url.path())
+            }
         }
     }
 
diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..250ace8 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -29,10 +29,9 @@ impl Source {
     #[tracing::instrument(level = "debug")]
     pub fn url_open(prefix: usize, url: &Url) -> Result<crate::reader::DecompressReader> {
         tracing::debug!(url = url.as_str(), "Fetching url");
-        if prefix == 0 {
-            crate::reader::from_url(url, url)
-        } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+        match url.as_str().get(..prefix) {
+            Some(base) if prefix > 0 => crate::reader::from_url(&Url::parse(base)?, url),
+            _ => crate::reader::from_url(url, url),
         }
     }
 
-- 
2.43.0


From 5098d780c6f18bb9b6f32b99b5396f59bb65c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:23 +0000
Subject: [PATCH 20/24] fix: zuul: a build without log url, ref url or change
 is not a crash

---
 model/src/zuul.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..34be703 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -59,9 +59,10 @@ impl Build {
 
     fn baseline_score(&self, target: &zuul_build::Build, now: &NaiveDate) -> Option<i32> {
         let mut score = 0;
+        let change = target.change?;
         // Rules
         if self.project == target.project {
-            if self.change == target.change? {
+            if self.change == change {
                 // We don't want to compare with the same change
                 score -= 500;
             } else {
@@ -107,7 +108,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +123,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect::<Result<Vec<_>>>()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +131,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +140,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("The build has no log url")?,
+        ref_url: build.ref_url.context("The build has no ref url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("The build has no change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +217,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From 40bcf2157315570d9d3603235f17df472e727ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:42 +0000
Subject: [PATCH 21/24] fix: zuul: the api location depends only on the end of
 the build path

A query, a fragment or a /t/ in the front of the path led to another location.
---
 model/src/zuul.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 34be703..0545673 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -171,23 +171,29 @@ fn is_uid(s: &str) -> bool {
         })
 }
 
-fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
-    url.as_str()
-        .split_once("/t/")
-        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
-                .context("Can't recreate zuul api url")
-        })
+// Replace the end of the location path by the api path.
+fn api_from_suffix(url: &Url, suffix: &str, api: &str) -> Result<Url> {
+    let base = url
+        .path()
+        .strip_suffix(suffix)
+        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))?;
+    let mut api_url = url.clone();
+    api_url.set_path(&format!("{}{}", base, api));
+    api_url.set_query(None);
+    api_url.set_fragment(None);
+    Ok(api_url)
 }
 
-fn api_from_whitelabel_webui(url: &Url) -> Result<Url> {
-    url.as_str()
-        .rsplit_once("/build/")
-        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
-        })
+fn api_from_webui(url: &Url, tenant: &str, uid: &str) -> Result<Url> {
+    api_from_suffix(
+        url,
+        &format!("/t/{}/build/{}", tenant, uid),
+        &format!("/api/tenant/{}/", tenant),
+    )
+}
+
+fn api_from_whitelabel_webui(url: &Url, uid: &str) -> Result<Url> {
+    api_from_suffix(url, &format!("/build/{}", uid), "/api/")
 }
 
 fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
@@ -202,12 +208,12 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
                     .next_back()
                     .and_then(|tenant| match iter.next_back() {
                         // This is a multi tenant url
-                        Some("t") => Some(api_from_webui(url, tenant).map(|api| (api, uid))),
+                        Some("t") => Some(api_from_webui(url, tenant, uid).map(|api| (api, uid))),
                         _ => None,
                     })
                     .or_else(|| {
                         // Otherwise assume this is a whitelabel url
-                        Some(api_from_whitelabel_webui(url).map(|api| (api, uid)))
+                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                     }),
             }),
         })
-- 
2.43.0


From e2d267f5f726142705544aec0935e7ea273eef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:42 +0000
Subject: [PATCH 22/24] fix: zuul: the build durations are decoded without loss

---
 zuul/src/zuul-build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zuul/src/zuul-build.rs b/zuul/src/zuul-build.rs
index 8b86a2e..43d14f8 100644
--- a/zuul/src/zuul-build.rs
+++ b/zuul/src/zuul-build.rs
@@ -119,7 +119,7 @@ mod rounded_float {
     where
         D: Deserializer<'de>,
     {
-        let v = f32::deserialize(deserializer)?;
+        let v = f64::deserialize(deserializer)?;
         Ok(v as u32)
     }
 }
-- 
2.43.0


From 4db1b6a3b052794982c57b92d03d81c9cb1ef0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:53 +0000
Subject: [PATCH 23/24] fix: python: a capsule of another kind is a TypeError

The content of any capsule was taken for a model of the expected type.
---
 python/src/bindings.rs | 72 ++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/python/src/bindings.rs b/python/src/bindings.rs
index 554fa8a..0a88979 100644
--- a/python/src/bindings.rs
+++ b/python/src/bindings.rs
@@ -6,9 +6,36 @@
 //! This library provides python bindings for the [logreduce](https://github.com/logreduce/logreduce) project.
 
 use logreduce_index::F;
+use pyo3::exceptions::PyTypeError;
 use pyo3::prelude::*;
 use pyo3::types::PyCapsule;
-use std::ffi::CString;
+use std::ffi::{CStr, CString};
+
+// The names tell the content of a capsule.
+const FEATURES: &str = "logreduce_rust.features";
+const MATRIX: &str = "logreduce_rust.matrix";
+
+fn capsule_name(name: &str) -> CString {
+    CString::new(name).unwrap()
+}
+
+fn check_capsule(capsule: &PyCapsule, name: &str) -> PyResult<()> {
+    let capsule_name: &CStr = capsule.name();
+    match capsule_name.to_bytes() == name.as_bytes() && capsule.is_valid() {
+        true => Ok(()),
+        false => Err(PyTypeError::new_err(format!("Not a {} capsule", name))),
+    }
+}
+
+fn features(capsule: &PyCapsule) -> PyResult<&Vec<logreduce_index::Features>> {
+    check_capsule(capsule, FEATURES)?;
+    Ok(unsafe { capsule.reference() })
+}
+
+fn matrix(capsule: &PyCapsule) -> PyResult<&logreduce_index::FeaturesMatrix> {
+    check_capsule(capsule, MATRIX)?;
+    Ok(unsafe { capsule.reference() })
+}
 
 /// Tokenize a line
 #[pyfunction]
@@ -34,54 +61,43 @@ fn logreduce_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
         let model = logreduce_index::index(&mut baselines.into_iter());
-        PyCapsule::new(py, model, &name)
+        PyCapsule::new(py, model, &capsule_name(FEATURES))
     }
 
     #[pyfn(m)]
-    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> F {
-        let model = unsafe {
-            pymodel
-                .as_ref(py)
-                .reference::<Vec<logreduce_index::Features>>()
-        };
-        logreduce_index::search(model, &target)
+    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> PyResult<F> {
+        let model = features(pymodel.as_ref(py))?;
+        Ok(logreduce_index::search(model, &target))
     }
 
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index_mat(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
         let model = logreduce_index::index_mat(&baselines);
-        PyCapsule::new(py, model, &name)
+        PyCapsule::new(py, model, &capsule_name(MATRIX))
     }
 
     #[pyfn(m)]
-    fn search_mat(py: Python<'_>, pymodel: Py<PyCapsule>, targets: Vec<String>) -> Vec<F> {
-        let model = unsafe {
-            pymodel
-                .as_ref(py)
-                .reference::<logreduce_index::FeaturesMatrix>()
-        };
-        logreduce_index::search_mat(model, &targets)
+    fn search_mat(
+        py: Python<'_>,
+        pymodel: Py<PyCapsule>,
+        targets: Vec<String>,
+    ) -> PyResult<Vec<F>> {
+        let model = matrix(pymodel.as_ref(py))?;
+        Ok(logreduce_index::search_mat(model, &targets))
     }
 
     #[pyfn(m)]
-    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> Vec<u8> {
-        let model = unsafe {
-            pymodel
-                .as_ref(py)
-                .reference::<logreduce_index::FeaturesMatrix>()
-        };
-        logreduce_index::save_mat(model)
+    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> PyResult<Vec<u8>> {
+        let model = matrix(pymodel.as_ref(py))?;
+        Ok(logreduce_index::save_mat(model))
     }
 
     #[pyfn(m)]
     fn load_mat(py: Python<'_>, buf: Vec<u8>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
         let model = logreduce_index::load_mat(&buf);
-        PyCapsule::new(py, model, &name)
+        PyCapsule::new(py, model, &capsule_name(MATRIX))
     }
 
     Ok(())
-- 
2.43.0


From 0dc0d245492fae171f462fef209349c31f83d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 24/24] fix: cache: analyses running at the same time can save
 the same content

---
 cache/src/cache.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 39b677e..24d3c79 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -113,8 +113,17 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let path = self.prepare(&filename::httpdir(url))?;
+        // The listing is published once it is complete.
+        let partial = filename::partial(&path);
+        let fp = File::create(&partial).context("Failed to create local cache file")?;
+        bincode::serialize_into(fp, paths)
+            .context("Failed to serialize httpdir save")
+            .and_then(|()| std::fs::rename(&partial, &path).context("Failed to save httpdir"))
+            .map_err(|e| {
+                let _ = std::fs::remove_file(&partial);
+                e
+            })
     }
 
     /// Remove a remote file from the cache.
@@ -142,17 +151,12 @@ impl Cache {
         File::create(self.prepare(path)?).context("Failed to create local cache file")
     }
 
-    // prepares the location of a new cache entry.
+    // prepares the location of a new cache entry, which another analysis may be adding too.
     fn prepare(&self, path: &str) -> Result<PathBuf> {
         let buf = self.xdg.get_cache_file(path);
-        let path = buf.as_path();
-        if path.exists() {
-            Err(anyhow::anyhow!("Cache file already exist: {:?}", buf))
-        } else {
-            let parent = path.parent().context("Failed to get cache parent")?;
-            std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            Ok(buf)
-        }
+        let parent = buf.parent().context("Failed to get cache parent")?;
+        std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
+        Ok(buf)
     }
 }
 
-- 
2.43.0

