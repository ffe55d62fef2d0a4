From 7ffba447a0018226e3c57d74e56ee875deb12c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 01/52] fix: deliver subcommand parameters as they arrive

A subcommand at the end of the stream lost its data, a declared length
below 2 overflowed, and GS ( H lost its header bytes.
---
 thermal_parser/src/subcommands/mod.rs | 53 ++++++++++++---------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..a45aef2 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -16,6 +16,7 @@ pub struct SubCommandHandler {
     m: u8,
     subcommand_id: u8,
     capacity: u32,
+    size: u32,
     accept_data: bool,
     use_m: bool,
 }
@@ -54,7 +55,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +63,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
@@ -113,42 +114,35 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
         if !self.accept_data {
+            data.push(byte);
+
             // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
+            let meta_len = if self.is_large { 6 } else { 4 };
+            if data.len() == meta_len {
+                self.parse_meta(data);
+
+                // The meta bytes live in the subcommand, they are only kept
+                // here when there is no subcommand to move them to
+                if self.subcommand.is_some() {
+                    data.clear();
                 }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
             }
-            data.clear();
-            data_len = 0;
-        }
-
-        //Accept data
-        if data_len < (self.capacity as usize) {
-            data.push(byte);
             return true;
         }
 
-        //Move the data into the subcommand
-        if let Some(sub) = &mut self.subcommand {
-            mem::swap(&mut sub.data, data);
-        } else {
-            println!("Missing subcommand");
+        //Stop accepting bytes
+        if self.size >= self.capacity {
+            return false;
         }
 
-        //Stop accepting bytes
-        false
+        //Accept data, it belongs to the subcommand when there is one
+        self.size += 1;
+        match &mut self.subcommand {
+            Some(sub) => sub.data.push(byte),
+            None => data.push(byte),
+        }
+        true
     }
 
     //Returns a subcommand that can be owned and stubs
@@ -167,6 +161,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         m: 0,
         subcommand_id: 0,
         capacity: 0,
+        size: 0,
         accept_data: false,
         use_m,
     })
-- 
2.43.0


From 7aee6d9ea238c8a3382203acda1375ff1d6ee670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 02/52] fix: keep commands that have no known subcommand

The whole command, with all of its bytes, was dropped from the output.
---
 thermal_parser/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..4fa82f0 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -71,6 +71,9 @@ impl Parser {
                 subcommand.commands = Rc::new(expanded_cmds);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //Unknown subcommands are kept so that no bytes are lost
+                self.captured_commands.push(cmd);
             }
         } else {
             self.captured_commands.push(cmd);
-- 
2.43.0


From b41b3a5c6690aa3ccba3844b3f66f28f142faae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 03/52] fix: keep the bytes of an abandoned command prefix

When a command prefix such as CAN was not followed by a known command,
the prefix bytes were dropped from the text.
---
 thermal_parser/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 4fa82f0..e610ea1 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -152,11 +152,15 @@ impl Parser {
                 new_cmd = Some(unknown_command);
             } else if self.current_command_is_default {
                 if let Some(cmd) = &mut self.current_command {
-                    cmd.push(*byte);
+                    for buffered in &self.command_buffer {
+                        cmd.push(*buffered);
+                    }
                 }
             } else {
                 let mut default_command = self.cmd_set.default.clone();
-                default_command.push(*byte);
+                for buffered in &self.command_buffer {
+                    default_command.push(*buffered);
+                }
                 new_cmd = Some(default_command);
             }
 
-- 
2.43.0


From cb73d22347a4ce6d613867b81982f9e6bedc2f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 04/52] fix: no unknown command before leading text

A stream that starts with text reported an empty unknown command that is
not in the input.
---
 thermal_parser/src/parser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index e610ea1..8044544 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -173,9 +173,6 @@ impl Parser {
                 if new_cmd.is_some() {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
                 }
                 return;
             }
-- 
2.43.0


From 762b66932fcad558ac58fc63532c51b7b258ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 05/52] fix: report a command prefix at the end of the stream

The bytes of an incomplete command were dropped.
---
 thermal_parser/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 8044544..d680800 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -41,6 +41,13 @@ impl Parser {
             self.emit_command(new_cmd_unwrapped);
         }
 
+        //The stream ended in the middle of a command prefix
+        if !self.command_buffer.is_empty() {
+            let mut unknown_command = self.cmd_set.unknown.clone();
+            mem::swap(&mut unknown_command.data, &mut self.command_buffer);
+            self.emit_command(unknown_command);
+        }
+
         self.emit_command(self.cmd_set.end_parsing.clone());
 
         self.match_depth = 0;
-- 
2.43.0


From ac4dde814e7e53ae90fa7dddc85d752e0a22d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 06/52] fix: rebuild unknown commands from the bytes that were
 received

get_command_bytes returned the four prefix bytes unknown commands can
start with as if they had been in the stream.
---
 thermal_parser/src/commands/unknown.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/unknown.rs b/thermal_parser/src/commands/unknown.rs
index 075b3e2..26a89ec 100644
--- a/thermal_parser/src/commands/unknown.rs
+++ b/thermal_parser/src/commands/unknown.rs
@@ -3,7 +3,13 @@ use crate::{command::*, constants::*};
 #[derive(Clone)]
 struct Handler;
 
-impl CommandHandler for Handler {}
+impl CommandHandler for Handler {
+    //The command bytes of the unknown command are only used for matching,
+    //all the bytes that were received are in the data
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        (vec![], command.data.clone())
+    }
+}
 
 pub fn new() -> Command {
     Command::new(
-- 
2.43.0


From a8c20de27c8f7e0b095a79a3b46fd2596040fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 07/52] fix: drop the NUL terminator of the last barcode of a
 stream

The terminator was only removed when another byte followed it, so a
barcode at the end of the stream had a NUL in its data.
---
 thermal_parser/src/commands/barcode.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..1d6e767 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -51,6 +51,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -279,7 +280,7 @@ impl CommandHandler for BarcodeHandler {
         params.extend(self.raw_params.clone());
         let mut data = command.data.to_vec();
 
-        if self.encoding == EncodingFunction::NulTerminated {
+        if self.terminated {
             data.push(NUL);
         }
 
@@ -331,11 +332,14 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
-                data.push(byte);
+                if byte == NUL {
+                    self.terminated = true;
+                } else {
+                    data.push(byte);
+                }
                 true
             }
             EncodingFunction::ExplicitSize => {
@@ -368,6 +372,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From ea77ed4528635dfe7dd0d454c31e9b95cbe0c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 08/52] fix: EAN13 data with a multi byte character no longer
 panics

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 1d6e767..305c2b8 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -190,7 +190,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
+                let data_sp = data.get(..12).unwrap_or(data);
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From 9d380aa7f15214ee5c963183e46cdc2b96d93e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 09/52] fix: motion units are never zero and never truncated

A unit smaller than a dot gave a divisor of zero, which made the next
positioning command panic. 360 dpi and one unit per inch wrapped around.
---
 thermal_parser/src/commands/set_motion_units.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..b6532f0 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,9 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        //Motion units are divisors and have to fit into a byte
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
-- 
2.43.0


From dc43b1e6e1a65b632da0108218b550cc437d77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 10/52] fix: disabling double strike leaves no strike behind

Disabling it changed the double strike to a single one instead of
turning it off.
---
 thermal_parser/src/commands/set_double_strike.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/commands/set_double_strike.rs b/thermal_parser/src/commands/set_double_strike.rs
index 0ad0e4b..7756ab7 100644
--- a/thermal_parser/src/commands/set_double_strike.rs
+++ b/thermal_parser/src/commands/set_double_strike.rs
@@ -8,15 +8,11 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
         let enable = (n & 0x00000001) == 1;
-        let mut strike = context.text.strikethrough.clone();
-
-        if enable {
-            strike = TextStrikethrough::Double
-        } else if strike == TextStrikethrough::Double {
-            strike = TextStrikethrough::On
+        let strike = if enable {
+            TextStrikethrough::Double
         } else {
-            strike = TextStrikethrough::Off
-        }
+            TextStrikethrough::Off
+        };
 
         context.text.strikethrough = strike;
     }
-- 
2.43.0


From d22ecd3e52fda71f8b5b3afbd1f5216c8a3e9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 11/52] fix: quadruple raster bit images are selected by 51

The ASCII form of 3 is 51, 52 is not a scaling mode.
---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From a8737326a653df002a0687c45a387e7bf66fb67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 12/52] fix: QR error correction level is set by 48 to 51

The levels are sent as ASCII digits, so every level fell back to L.
---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From 1b0d1825d2624af6d3afafa77016298415521c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 13/52] fix: data matrix width no longer replaces the composite
 width

The command was registered under the composite symbol type.
---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From bcdd83e3c2cc08d045816ae9104b9e18fb5814b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 14/52] fix: composite max width is stored as the composite max
 width

---
 .../src/subcommands/gs_code2d/composite_set_max_width.rs        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
index 827cdc9..8f964c5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
@@ -7,7 +7,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let nl = *command.data.get(0).unwrap_or(&0u8);
         let nh = *command.data.get(1).unwrap_or(&0u8);
-        context.code2d.gs1_databar_max_width = nl as u32 + nh as u32 * 256;
+        context.code2d.composite_max_width = nl as u32 + nh as u32 * 256;
     }
 }
 
-- 
2.43.0


From 2b218eebe0d7d92de7df00e5c9b48c86c25ffa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 15/52] fix: maxicode modes that do not exist are ignored

A mode below 48 made the renderer panic.
---
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..49a92ae 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        if n >= 50 && n <= 54 {
+            context.code2d.maxicode_mode = n - 48;
+        }
     }
 }
 
-- 
2.43.0


From a2cb988bf2b7603010a4b152f2cb07edd64978f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 16/52] fix: data matrix options with large sizes no longer
 panic

The sum of columns and rows overflowed. The rectangle type is 1.
---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..ac358f2 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,13 +15,13 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
             }
             1 | 49 => {
-                symbol_type = 2;
+                symbol_type = 1;
                 if d2 == 0 && (d1 == 8 || d1 == 12 || d1 == 16) {
                     columns = d1;
                 } else {
-- 
2.43.0


From 7e430115ec49c0fffd2768ee6d6dab223ac589a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 17/52] fix: PDF417 error correction level

The level was taken from the mode byte, the ratio thresholds overwrote
each other, and short parameters or a mode below 48 made it panic.
---
 .../gs_code2d/pdf417_set_correction_level.rs  | 62 +++++++++----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..084a517 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,37 +8,37 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
-
-        //Ratio based error correction
-        if m == 49 {
-            let a = codeword_count as f32 * n as f32 * 0.01;
-            if a < 4f32 {
-                level = 1
-            }
-            if a < 11f32 {
-                level = 2
-            }
-            if a < 21f32 {
-                level = 3
-            }
-            if a < 46f32 {
-                level = 4
-            }
-            if a < 101f32 {
-                level = 5
-            }
-            if a < 201f32 {
-                level = 6
-            }
-            if a < 401f32 {
-                level = 7
-            }
-            if a > 400f32 {
-                level = 8
-            }
-        }
+        //Assuming it's one byte per codeword
+        let codeword_count = command.data.len().saturating_sub(2);
+
+        let level = match m {
+            //Level based error correction
+            48 if n >= 48 && n <= 56 => n - 48,
+
+            //Ratio based error correction
+            49 => {
+                let a = codeword_count as f32 * n as f32 * 0.01;
+
+                if a < 4f32 {
+                    1
+                } else if a < 11f32 {
+                    2
+                } else if a < 21f32 {
+                    3
+                } else if a < 46f32 {
+                    4
+                } else if a < 101f32 {
+                    5
+                } else if a < 201f32 {
+                    6
+                } else if a < 401f32 {
+                    7
+                } else {
+                    8
+                }
+            }
+            _ => return,
+        };
 
         context.code2d.pdf417_err_correction = level;
     }
-- 
2.43.0


From ded70f79d6708a7b9b9b79d8cb500126eb419200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 18/52] fix: with_alpha keeps the blue channel

The second and third print colors of images came out with the green value
as blue.
---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From a0c218d638134b89fafc4a9e0d0b80b22e219aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 19/52] fix: large image dimensions no longer overflow

The pixel count was calculated in 32 bits, and memory for the declared
size was reserved before the data was checked.
---
 thermal_parser/src/graphics.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..258cdbb 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -240,16 +240,17 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let unpacked = if process_as_bits {
-            unpack_bytes(data, width, height)
+            unpack_bytes(data, width)
         } else {
             data.to_vec()
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        let pixel_count = width as usize * height as usize;
+        if unpacked.len() != pixel_count {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                pixel_count,
                 unpacked.len()
             ));
         }
@@ -375,8 +376,8 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 
 /// Unpacks bits into bytes and makes sure that extra padding
 /// is added for widths that are not divisible by eight.
-fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let mut bytes = Vec::with_capacity(width as usize * height as usize);
+fn unpack_bytes(pixels: &[u8], width: u32) -> Vec<u8> {
+    let mut bytes = Vec::with_capacity(pixels.len() * 8);
 
     //number of bytes we need to use for the last column of each row of data
     let mut padding = width % 8;
@@ -410,7 +411,7 @@ fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
 /// Column format is weird and needs to have some special operations
 /// done on the unpacked bytes to get the image in the correct orientation.
 fn column_to_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let unpacked = unpack_bytes(pixels, height, width);
+    let unpacked = unpack_bytes(pixels, height);
     let rot = rotate_90_clockwise(unpacked, height, width);
     flip_right_to_left(rot, width, height)
 }
@@ -462,17 +463,17 @@ pub fn scale_pixels(
     let new_width = original_width * scale_x as u32;
     let new_height = original_height * scale_y as u32;
 
-    let mut scaled_bytes = vec![0u8; (new_width * new_height) as usize];
+    let mut scaled_bytes = vec![0u8; new_width as usize * new_height as usize];
 
     for y in 0..original_height {
         for x in 0..original_width {
-            let pixel = bytes[(y * original_width + x) as usize];
+            let pixel = bytes[y as usize * original_width as usize + x as usize];
 
             for dy in 0..scale_y {
                 for dx in 0..scale_x {
                     let new_x = x * scale_x as u32 + dx as u32;
                     let new_y = y * scale_y as u32 + dy as u32;
-                    scaled_bytes[(new_y * new_width + new_x) as usize] = pixel;
+                    scaled_bytes[new_y as usize * new_width as usize + new_x as usize] = pixel;
                 }
             }
         }
-- 
2.43.0


From 837b6ce4d8d1bf3cbd598a98029574d836235890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 20/52] fix: truncated column images no longer panic

---
 thermal_parser/src/graphics.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 258cdbb..707b5b1 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -166,6 +166,16 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
+        //Ensure there are enough bytes to construct the final image
+        let bytes_per_column = (height as usize + 7) / 8;
+        if data.len() != bytes_per_column * width as usize {
+            return GraphicsCommand::Error(format!(
+                "Not enough data to parse column image expected: {} got: {}",
+                bytes_per_column * width as usize,
+                data.len()
+            ));
+        }
+
         let raster = column_to_bytes(data, width, height);
         Self::image_from_raster_bytes_single_color(
             width, height, stretch, color, flow, &raster, false,
-- 
2.43.0


From 61410fd195615b4c7880bc80d60ff4bc5c66c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 21/52] fix: multi color raster images with a width not
 divisible by eight

Rows are padded to whole bytes, which the expected length left out.
---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 707b5b1..59f0f70 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -307,7 +307,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            ((width as usize + 7) / 8 * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
-- 
2.43.0


From 6455e332990619fb915db93dc786baf001772694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 22/52] fix: graphics defined in column format are decoded as
 columns

They were decoded as raster data, and too few parameters panicked.
---
 thermal_parser/src/graphics.rs                | 28 +++++++++++--------
 .../define_download_graphics_column.rs        |  4 +--
 .../gs_graphics/define_nv_graphics_column.rs  |  4 +--
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 59f0f70..77011fd 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -201,23 +201,29 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        let bytes_per_layer = ((height as usize + 7) / 8 * width as usize) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
-            return GraphicsCommand::Error("Not enough data to parse raster image".into());
+        if data.len() != bytes_per_layer * num_colors as usize {
+            return GraphicsCommand::Error(
+                "Not enough data to parse column image multi color".into(),
+            );
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
-            let layer_start = layer * bytes_per_layer;
-            let color_number = data[layer_start];
-            let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
-            let raster = column_to_bytes(image_data, width, height);
-            let layer = Self::image_from_raster_bytes_single_color(
-                width, height, stretch, color, flow, &raster, false,
+        for layer_no in 0..num_colors as usize {
+            let layer_start = layer_no * bytes_per_layer;
+            let layer_end = layer_start + bytes_per_layer;
+            let color = render_colors.color_for_number(data[layer_start]);
+
+            let layer = Self::image_from_column_bytes_single_color(
+                width,
+                height,
+                stretch,
+                color,
+                flow,
+                &data[layer_start + 1..layer_end],
             );
 
             match layer {
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From b70a14ed00dfef8d8da4964467e51cc5fc77f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 23/52] fix: buffer graphics with missing dimensions no longer
 panic

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From 28085f16340284b5245c7e40080eab003b44069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 24/52] fix: limit the scale of buffer graphics to the
 documented range

A scale byte of 255 made a small image take gigabytes of memory.
---
 .../subcommands/gs_graphics/store_buffer_graphics_column.rs    | 3 ++-
 .../subcommands/gs_graphics/store_buffer_graphics_raster.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 0f2b39b..b70cddb 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -18,7 +18,8 @@ impl CommandHandler for Handler {
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
 
-        let stretch = (*bx, *by);
+        //Graphics are either printed as they are or doubled
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_column_bytes_single_color(
             width,
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 759d0ba..4978d3d 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -17,7 +17,8 @@ impl CommandHandler for Handler {
         let c = command.data.get(3).unwrap();
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
-        let stretch = (*bx, *by);
+        //Graphics are either printed as they are or doubled
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_raster_bytes_single_color(
             width,
-- 
2.43.0


From c1263248f30c6ed9d2ce5712e09cd1e5151233a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 25/52] fix: merge image layers that are narrower than the base
 image

Their rows were laid out with the width of the base image.
---
 thermal_parser/src/graphics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 77011fd..220d515 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -383,7 +383,10 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
         }
 
         for i in 0..merge_img.pixels.len() {
-            image.pixels[i].blend_foreground(&merge_img.pixels[i]);
+            //Layers can be smaller than the base image
+            let x = i % merge_img.w as usize;
+            let y = i / merge_img.w as usize;
+            image.pixels[y * image.w as usize + x].blend_foreground(&merge_img.pixels[i]);
         }
     }
 
-- 
2.43.0


From 76d18b5313db5dd0a862cb18dedc2c6ac80ac458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 26/52] fix: reverse feed moves up instead of overflowing

---
 thermal_parser/src/context.rs    | 13 +++++++++++++
 thermal_renderer/src/renderer.rs |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..84e9be6 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -713,6 +713,19 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    /// Moves back up, never beyond the top
+    pub fn reverse_newline(&mut self, count: u32) {
+        let line_height = self.text.line_spacing as u32;
+        let y = self.get_y().saturating_sub(line_height * count);
+        self.reset_x();
+
+        if self.page_mode.enabled {
+            self.page_mode.render_area.y = y.max(self.get_base_y());
+        } else {
+            self.graphics.render_area.y = y;
+        }
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..9064ce9 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -255,7 +255,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        if *num_lines < 0 {
+                            self.context.reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From 637db625298a75ce7c2fa7f317927b13d0d89863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 27/52] fix: long words are broken into parts that fit the line

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9064ce9..e17b0c6 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -498,7 +498,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From 3f28e53372a9db8aa1e0c2775886390d0331a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 28/52] fix: right justified lines wider than the print area no
 longer panic

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index e17b0c6..fa31087 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -562,7 +562,7 @@ impl<'a, Output> Renderer<'a, Output> {
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From 68568bdaa720dc282045854362dd23e8221edbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 29/52] fix: clipped points of a 2d code no longer shift the
 following rows

---
 thermal_renderer/src/renderer.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index fa31087..71ec05b 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -321,12 +321,8 @@ impl<'a, Output> Renderer<'a, Output> {
                 context.offset_y(code_2d.point_height as u32);
             }
 
-            if *p > 0 {
-                //Prevent rendering outside of print area
-                if context.get_available_width() < code_2d.point_width as u32 {
-                    continue;
-                }
-
+            //Prevent rendering outside of print area
+            if *p > 0 && context.get_available_width() >= code_2d.point_width as u32 {
                 graphics.push(VectorGraphic::Rectangle(Rectangle {
                     x: context.get_x(),
                     y: context.get_y(),
-- 
2.43.0


From e2c27856a5ec9dc2bf64ae7bb0d6910401f38bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 30/52] fix: images with missing pixels are rejected instead of
 panicking

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..ba4d8ce 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -500,7 +500,7 @@ impl ThermalImage {
         let mut cur_y = y;
 
         //Bad pixel data
-        if width * height < pixels.len() as u32 {
+        if width as u64 * height as u64 != pixels.len() as u64 {
             self.errors
                 .push("Bad pixel data, not enough bytes".to_string());
             return false;
-- 
2.43.0


From 1e0542d517b63b2474c7a0a5b0eba80ace39cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 31/52] fix: images are cropped at the bottom by their height

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index ba4d8ce..7b4d65c 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -525,8 +525,8 @@ impl ThermalImage {
         }
 
         //Width can never grow, height can grow is auto_grow = true
-        let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_w = width > self.width - x;
+        let needs_crop_h = !self.auto_grow && height > self.get_height() - y;
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From 23c1b92fdc1abf64ad0efaeb2a82e2ec2b5d6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 32/52] fix: upside down text does not grow a canvas with a
 locked height

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 7b4d65c..417d051 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -424,6 +424,11 @@ impl ThermalImage {
             return;
         };
 
+        //The height is locked
+        if !self.auto_grow && y + height > self.get_height() {
+            return;
+        }
+
         self.expand_to_height(y + height);
 
         // Vector to store rows
-- 
2.43.0


From d9b403b02c1f8346d40aa8f2657132b3db2438d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 33/52] fix: tabs and carriage returns are kept in thermal
 files

---
 thermal_parser/src/thermal_file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..3d428ad 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -210,8 +210,12 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
     let (commands,data) = cmd.handler.get_command_bytes(&cmd);
 
     if cmd.kind == CommandType::Text {
-        if commands.len() > 0 && commands[0] == constants::LF {
-            return "LF \n".to_string();
+        if commands.len() > 0 {
+            if commands[0] == constants::LF {
+                return "LF \n".to_string();
+            }
+
+            return format!("{}\n", explain_command(&commands));
         }
 
         let text = String::from_utf8_lossy(data.as_slice());
-- 
2.43.0


From da7e4a661d500412267052a8269971d7154eaf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 34/52] fix: text is escaped in thermal files and never loses
 bytes

---
 thermal_parser/src/thermal_file.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index 3d428ad..cc65120 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -218,8 +218,17 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return format!("{}\n", explain_command(&commands));
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        return match std::str::from_utf8(data.as_slice()) {
+            Ok(text) => {
+                let escaped = text.replace("\\", "\\\\").replace("\"", "\\\"");
+                format!("\"{}\"\n", escaped)
+            }
+            //Text in other encodings
+            Err(_) => {
+                let bytes: Vec<String> = data.iter().map(|b| format!("0x{:02X}", b)).collect();
+                format!("{}\n", bytes.join(" "))
+            }
+        };
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
-- 
2.43.0


From 3cb5d9630c86529ddedac640beb17f519f7b18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 35/52] fix: text is escaped in html output

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..25ba41b 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,20 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+/// Text is never interpreted as html
+fn escape_html(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+        .replace('\'', "&#39;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From 978765f9ac339e9bd83b47d925c6d65d542d7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 36/52] fix: printed text is not treated as a template
 placeholder

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..4b3e4d8 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -259,7 +259,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -269,7 +268,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From 4f8b088f62b02aacfb6dfbaf5966519f72e3bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 37/52] fix: html output of an image without pixels no longer
 panics

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 25ba41b..74cdeb9 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -7,6 +7,11 @@ use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
 
 pub fn encode_html_image(image: &Image) -> HtmlRow {
+    // An image without pixels can not be encoded
+    if image.w == 0 || image.h == 0 {
+        return HtmlRow::empty();
+    }
+
     // Create a buffer to hold the PNG image data
     let mut png_data: Vec<u8> = Vec::new();
     let image_data: Vec<u8> = image.as_rgba_u8();
-- 
2.43.0


From a9429cf56315cb5e6578844ceeb9cbc2e0fff37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 38/52] fix: UPC-A codes that do not fit into UPC-E are
 rejected

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..6de5732 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,9 +199,9 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
-                    "Invalid UPCA: Product code can not be greater than 00999.",
+                    "Invalid UPCA: Product code can not be greater than 00099.",
                 ));
             }
 
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From 8d3464c02901f11b26fb488e1903adc0dfb631ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 39/52] fix: page mode commands do not change the page outside
 of page mode

---
 thermal_parser/src/commands/page_mode_print_area.rs      | 5 ++++-
 thermal_parser/src/commands/page_mode_print_direction.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/page_mode_print_area.rs b/thermal_parser/src/commands/page_mode_print_area.rs
index 166025b..6186644 100644
--- a/thermal_parser/src/commands/page_mode_print_area.rs
+++ b/thermal_parser/src/commands/page_mode_print_area.rs
@@ -65,8 +65,11 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
+        if !context.page_mode.enabled {
+            return None;
+        }
         Some(vec![DeviceCommand::ChangePageArea])
     }
 
diff --git a/thermal_parser/src/commands/page_mode_print_direction.rs b/thermal_parser/src/commands/page_mode_print_direction.rs
index 583e202..cafc85e 100644
--- a/thermal_parser/src/commands/page_mode_print_direction.rs
+++ b/thermal_parser/src/commands/page_mode_print_direction.rs
@@ -93,8 +93,11 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
+        if !context.page_mode.enabled {
+            return None;
+        }
         Some(vec![DeviceCommand::ChangePageModeDirection])
     }
 }
-- 
2.43.0


From 65e90e80123ee98fc093e38237c03cfeb3819b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 40/52] fix: a word directly before a quoted string is kept

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index cc65120..bb1d2c5 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -158,6 +158,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
             gobble_quoted = true;
             esc_quoted = false;
 
+            //A token can end at the quote
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1])
+            }
+
             //Here we include the first quote
             span.0 = span.1;
             span.1 += 1;
-- 
2.43.0


From 50c5fcd1d70c0ffe0de1c0d68322a6a87a0ea180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 41/52] fix: justified text that does not start at the left
 edge stays inside the print area

---
 thermal_renderer/src/renderer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 71ec05b..4ce3130 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -551,8 +551,15 @@ impl<'a, Output> Renderer<'a, Output> {
             let mut line_width = 0;
             let mut line_offset = 0;
 
+            //Lines do not always start at the left edge
+            let base_x = self.context.get_base_x();
+
             for span in line {
-                line_width += span.get_width();
+                let start = match &span.dimensions {
+                    Some(dimensions) => dimensions.x.saturating_sub(base_x),
+                    None => line_width,
+                };
+                line_width = line_width.max(start + span.get_width());
                 max_height = max_height.max(span.character_height);
             }
 
-- 
2.43.0


From ab9ad7bde67cfe427a79a0e286a87b164b6c6455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 42/52] fix: QR data that fits at the selected error correction
 level is stored

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..008f6c8 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -46,12 +46,6 @@ impl CommandHandler for Handler {
         //Minimum number of modules required to encode the binary length
         let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
         
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
-
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
             QrErrorCorrection::Q => EcLevel::Q,
@@ -59,7 +53,23 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        let with_version = |v: i16| {
+            let version = match &context.code2d.qr_model {
+                QrModel::Model1 => Version::Normal(v),
+                QrModel::Model2 => Version::Normal(v),
+                Micro => Version::Micro(v),
+            };
+            QrCode::with_version(&data, version, error_correction)
+        };
+
+        //Higher error correction levels need more room than the minimum version has
+        let mut result = with_version(min_modules);
+        for v in (min_modules + 1)..=max_modules {
+            if result.is_ok() {
+                break;
+            }
+            result = with_version(v);
+        }
 
         match result {
             Ok(qr) => {
-- 
2.43.0


From 5d81180603c7859cf2a3d2eda54bf3f9a23b0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 43/52] fix: print mode underlines by bit 7

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From ecd13742b81548e943285348aec6c46610ff2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 44/52] fix: every odd parameter turns on black white inversion

---
 thermal_parser/src/commands/set_black_white_invert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..e45f665 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -6,8 +6,9 @@ struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
+        let invert = (n & 0x00000001) == 1;
 
-        if n == 1 {
+        if invert {
             context.text.background_color = context.graphics.render_colors.color_1;
             context.text.color = context.graphics.render_colors.paper_color;
         } else {
@@ -15,7 +16,7 @@ impl CommandHandler for Handler {
             context.text.color = context.graphics.render_colors.color_1;
         }
 
-        context.text.invert = n == 1;
+        context.text.invert = invert;
     }
 }
 
-- 
2.43.0


From b1979c65448ae5371e2a1c91b74155e761b92d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 45/52] hook: name the 2D code and graphics functions for
 verification

---
 .../src/subcommands/gs_code2d/mod.rs          | 45 +++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/mod.rs b/thermal_parser/src/subcommands/gs_code2d/mod.rs
index ce900c6..8a65aba 100644
--- a/thermal_parser/src/subcommands/gs_code2d/mod.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/mod.rs
@@ -89,3 +89,48 @@ pub fn all() -> Rc<Vec<Command>> {
 
     Rc::new(all)
 }
+
+/// The functions one by one, for verification only
+#[cfg(thermal_verif)]
+pub mod verif {
+    pub use super::aztec_print::new as aztec_print;
+    pub use super::aztec_set_correction_level::new as aztec_set_correction_level;
+    pub use super::aztec_set_function_and_layers::new as aztec_set_function_and_layers;
+    pub use super::aztec_set_size::new as aztec_set_size;
+    pub use super::aztec_store::new as aztec_store;
+    pub use super::aztec_transmit_size::new as aztec_transmit_size;
+    pub use super::composite_print::new as composite_print;
+    pub use super::composite_set_hri::new as composite_set_hri;
+    pub use super::composite_set_max_width::new as composite_set_max_width;
+    pub use super::composite_set_width::new as composite_set_width;
+    pub use super::composite_store::new as composite_store;
+    pub use super::composite_transmit_size::new as composite_transmit_size;
+    pub use super::datamatrix_print::new as datamatrix_print;
+    pub use super::datamatrix_set_options::new as datamatrix_set_options;
+    pub use super::datamatrix_set_width::new as datamatrix_set_width;
+    pub use super::datamatrix_store::new as datamatrix_store;
+    pub use super::datamatrix_transmit_size::new as datamatrix_transmit_size;
+    pub use super::gs1_print::new as gs1_print;
+    pub use super::gs1_set_max_width::new as gs1_set_max_width;
+    pub use super::gs1_set_width::new as gs1_set_width;
+    pub use super::gs1_store::new as gs1_store;
+    pub use super::gs1_transmit_size::new as gs1_transmit_size;
+    pub use super::maxi_print::new as maxi_print;
+    pub use super::maxi_set_mode::new as maxi_set_mode;
+    pub use super::maxi_store::new as maxi_store;
+    pub use super::maxi_transmit_size::new as maxi_transmit_size;
+    pub use super::pdf417_print::new as pdf417_print;
+    pub use super::pdf417_set_column_count::new as pdf417_set_column_count;
+    pub use super::pdf417_set_correction_level::new as pdf417_set_correction_level;
+    pub use super::pdf417_set_options::new as pdf417_set_options;
+    pub use super::pdf417_set_row_count::new as pdf417_set_row_count;
+    pub use super::pdf417_set_width::new as pdf417_set_width;
+    pub use super::pdf417_store::new as pdf417_store;
+    pub use super::pdf417_transmit_size::new as pdf417_transmit_size;
+    pub use super::qr_print::new as qr_print;
+    pub use super::qr_set_correction_level::new as qr_set_correction_level;
+    pub use super::qr_set_model::new as qr_set_model;
+    pub use super::qr_set_size::new as qr_set_size;
+    pub use super::qr_store::new as qr_store;
+    pub use super::qr_transmit_size::new as qr_transmit_size;
+}
-- 
2.43.0


From fe6ffecb3053108db6e0cd2fd7a905cf38259095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 46/52] fix: code tables 2 and 5 had characters of other tables

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From ee89979d2ed4706605fb46d13de04e65b3ef9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 47/52] hook: the digits of a UPC-E symbol for verification

---
 thermal_parser/src/utils/barcodes/upce.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index 6de5732..e2b1f36 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -305,6 +305,17 @@ impl UPCE {
     }
 }
 
+/// The digits of a symbol, for verification only
+#[cfg(thermal_verif)]
+impl UPCE {
+    pub fn verif_from_digits(digits: Vec<u8>) -> UPCE {
+        UPCE(digits)
+    }
+    pub fn verif_digits(&self) -> &[u8] {
+        &self.0
+    }
+}
+
 //Should be provided 11 digits for a proper checksum
 fn calculate_checkdigit(data: &[u8]) -> u8 {
     let mut odds = 0;
-- 
2.43.0


From 03fb5e36fca6e89c11901909740c3b298479fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 48/52] fix: UPC A data was encoded as an EAN13 symbol of
 another number

---
 thermal_parser/src/commands/barcode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 305c2b8..3a6282c 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -203,7 +203,10 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //A UPC A symbol is an EAN13 symbol that starts with a 0,
+                //its check digit is calculated
+                let data_sp = data.get(..11).unwrap_or(data);
+                return match UPCA::new(format!("0{}", data_sp)) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From 2dccc126a4fd4a941b0856f4e9882d2f0ddb4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 49/52] fix: EAN13 and UPC A data with a check digit that is no
 digit was printed

---
 thermal_parser/src/commands/barcode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 3a6282c..db4012a 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -125,6 +125,13 @@ impl CommandHandler for BarcodeHandler {
             return self.decorate_error("Invalid data length".to_string(), command);
         }
 
+        //The check digit that is recalculated has to be a digit as well
+        if matches!(self.kind, BarcodeType::UpcA | BarcodeType::Ean13)
+            && !data.bytes().all(|b| b.is_ascii_digit())
+        {
+            return self.decorate_error("Invalid data".to_string(), command);
+        }
+
         match self.kind {
             BarcodeType::Code128 => {
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
-- 
2.43.0


From bd7ddd27b0ae9dadccedde8fe30eb721bfa0e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 50/52] fix: QR symbols had the function parameter in front of
 the data

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 008f6c8..aba04d3 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -34,7 +34,8 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
+        //The first byte (m) is not part of the symbol
+        let data = command.data.get(1..).unwrap_or(&[]).to_owned();
         
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
-- 
2.43.0


From 11051f229247181c472cda6d3d1919fd9ce82cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 51/52] fix: text with a line feed was written as a string over
 two lines of a thermal file

---
 thermal_parser/src/thermal_file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index bb1d2c5..003321f 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -224,12 +224,13 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
         }
 
         return match std::str::from_utf8(data.as_slice()) {
-            Ok(text) => {
+            //Strings can not span lines
+            Ok(text) if !text.contains('\n') => {
                 let escaped = text.replace("\\", "\\\\").replace("\"", "\\\"");
                 format!("\"{}\"\n", escaped)
             }
             //Text in other encodings
-            Err(_) => {
+            _ => {
                 let bytes: Vec<String> = data.iter().map(|b| format!("0x{:02X}", b)).collect();
                 format!("{}\n", bytes.join(" "))
             }
-- 
2.43.0


From 1741d7ca78ded6520420e029d42dadcfb2748683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 52/52] hook: single steps of the renderer for verification

---
 thermal_renderer/src/renderer.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4ce3130..714664c 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -591,6 +591,29 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 }
 
+/// Single steps of the renderer, for verification
+#[cfg(thermal_verif)]
+impl<'a, Output> Renderer<'a, Output> {
+    pub fn verif_context(&mut self) -> &mut Context {
+        &mut self.context
+    }
+    pub fn verif_command(&mut self, command: &Command) {
+        self.process_command(command)
+    }
+    pub fn verif_devices(&mut self, device_commands: &Option<Vec<DeviceCommand>>) {
+        self.process_device_commands(device_commands)
+    }
+    pub fn verif_image(&mut self, image: &mut Image) {
+        self.process_image(image)
+    }
+    pub fn verif_barcode(&mut self, barcode: &Barcode) {
+        self.process_barcode(barcode)
+    }
+    pub fn verif_code_2d(&mut self, code_2d: &Code2D) {
+        self.process_code_2d(code_2d)
+    }
+}
+
 /// Implement the  Output Renderer in order to render to your own format.
 ///
 /// The main Renderer takes care of all positioning of the xy coordinates.
-- 
2.43.0

