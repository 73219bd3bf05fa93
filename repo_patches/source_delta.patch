From 0868f34c100bab6d39decc93a7e169879253e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 01/18] fix: report truncated input when a length overflows the
 stream offset

---
 src/serialization/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..9a7548e 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,7 +85,7 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
@@ -98,7 +98,7 @@ impl<'a> ByteStream<'a> {
         let length = self.size_t()? as usize;
         let start = self.offset;
 
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
-- 
2.43.0


From 486109766b1e3af599f4c1ac44c9ca22ee2449bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 02/18] fix: write strings byte by byte instead of re-encoding
 them as UTF-8

---
 src/serialization/writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..0831f26 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -41,8 +41,12 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        // `ByteStream::string` maps every byte to a single `char`, so we need to do the
+        // reverse here.
+        let bytes: Vec<u8> = value.chars().map(|character| character as u8).collect();
+
+        self.size_t(bytes.len() as i64);
+        self.slice(&bytes);
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From fd90443b61d84d88c9e9227ad5ed0fbddffc8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 03/18] fix: return an error instead of truncating integers and
 instructions to 32 bits

---
 src/error.rs                |  3 ++-
 src/function/mod.rs         | 32 +++++++++++++++---------------
 src/serialization/macros.rs |  6 +++---
 src/serialization/writer.rs | 39 +++++++++++++++++++++++++++----------
 4 files changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..126eff7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -40,7 +40,8 @@ pub enum LunifyError {
     /// represented when `is_number_integral` is set to true.
     FloatPrecisionLoss,
     /// The byte code contains an integral value that is too big to be
-    /// represented when `is_number_integral` is set to false.
+    /// represented when `is_number_integral` is set to false, or that does not
+    /// fit into the width specified by the output format.
     IntegerOverflow,
     /// The byte code is truncated.
     InputTooShort,
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..3fbc196 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -284,22 +284,22 @@ impl Function {
 
     pub(crate) fn write(self, byte_writer: &mut ByteWriter) -> Result<(), LunifyError> {
         // function
-        byte_writer.string(&self.source_file);
-        byte_writer.integer(self.line_defined);
-        byte_writer.integer(self.last_line_defined);
+        byte_writer.string(&self.source_file)?;
+        byte_writer.integer(self.line_defined)?;
+        byte_writer.integer(self.last_line_defined)?;
         byte_writer.byte(self.upvalues.len() as u8);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
 
         // instructions
-        byte_writer.integer(self.instructions.len() as i64);
+        byte_writer.integer(self.instructions.len() as i64)?;
         for instruction in self.instructions {
-            byte_writer.instruction(instruction);
+            byte_writer.instruction(instruction)?;
         }
 
         // constants
-        byte_writer.integer(self.constants.len() as i64);
+        byte_writer.integer(self.constants.len() as i64)?;
         for constant in self.constants {
             match constant {
                 Constant::Nil => {
@@ -318,35 +318,35 @@ impl Function {
 
                 Constant::String(string) => {
                     byte_writer.byte(4);
-                    byte_writer.string(&string);
+                    byte_writer.string(&string)?;
                 }
             }
         }
 
         // functions
-        byte_writer.integer(self.functions.len() as i64);
+        byte_writer.integer(self.functions.len() as i64)?;
         for function in self.functions {
             function.write(byte_writer)?;
         }
 
         // line info
-        byte_writer.integer(self.line_info.len() as i64);
+        byte_writer.integer(self.line_info.len() as i64)?;
         for line_info in self.line_info {
-            byte_writer.integer(line_info);
+            byte_writer.integer(line_info)?;
         }
 
         // local variables
-        byte_writer.integer(self.local_variables.len() as i64);
+        byte_writer.integer(self.local_variables.len() as i64)?;
         for local_variable in self.local_variables {
-            byte_writer.string(&local_variable.name);
-            byte_writer.integer(local_variable.start_program_counter);
-            byte_writer.integer(local_variable.end_program_counter);
+            byte_writer.string(&local_variable.name)?;
+            byte_writer.integer(local_variable.start_program_counter)?;
+            byte_writer.integer(local_variable.end_program_counter)?;
         }
 
         // upvalues
-        byte_writer.integer(self.upvalues.len() as i64);
+        byte_writer.integer(self.upvalues.len() as i64)?;
         for upvalue in self.upvalues {
-            byte_writer.string(&upvalue);
+            byte_writer.string(&upvalue)?;
         }
 
         Ok(())
diff --git a/src/serialization/macros.rs b/src/serialization/macros.rs
index 8198d7e..9de9926 100644
--- a/src/serialization/macros.rs
+++ b/src/serialization/macros.rs
@@ -1,9 +1,9 @@
 /// Workaround until `*_le_bytes` and `*_be_bytes` are part of a trait.
 macro_rules! to_slice {
-    ($writer:expr, $value:expr, $width:ident, $type32:ty) => {
+    ($writer:expr, $value:expr, $width:ident, $value32:expr) => {
         match ($writer.format.$width, $writer.format.endianness) {
-            (BitWidth::Bit32, Endianness::Little) => $writer.slice(&($value as $type32).to_le_bytes()),
-            (BitWidth::Bit32, Endianness::Big) => $writer.slice(&($value as $type32).to_be_bytes()),
+            (BitWidth::Bit32, Endianness::Little) => $writer.slice(&$value32.to_le_bytes()),
+            (BitWidth::Bit32, Endianness::Big) => $writer.slice(&$value32.to_be_bytes()),
             (BitWidth::Bit64, Endianness::Little) => $writer.slice(&$value.to_le_bytes()),
             (BitWidth::Bit64, Endianness::Big) => $writer.slice(&$value.to_be_bytes()),
         }
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 0831f26..d56e415 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -20,33 +20,52 @@ impl<'a> ByteWriter<'a> {
         self.data.extend_from_slice(slice);
     }
 
-    pub fn integer(&mut self, value: i64) {
-        to_slice!(self, value, integer_width, i32)
+    pub fn integer(&mut self, value: i64) -> Result<(), LunifyError> {
+        to_slice!(self, value, integer_width, Self::narrow_integer(value)?);
+        Ok(())
     }
 
-    pub fn size_t(&mut self, value: i64) {
-        to_slice!(self, value, size_t_width, i32)
+    pub fn size_t(&mut self, value: i64) -> Result<(), LunifyError> {
+        to_slice!(self, value, size_t_width, Self::narrow_integer(value)?);
+        Ok(())
     }
 
-    pub fn instruction(&mut self, instruction: u64) {
-        to_slice!(self, instruction, instruction_width, u32)
+    pub fn instruction(&mut self, instruction: u64) -> Result<(), LunifyError> {
+        to_slice!(self, instruction, instruction_width, Self::narrow_instruction(instruction)?);
+        Ok(())
     }
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
-            false => to_slice!(self, value.as_float()?, number_width, f32),
+            true => {
+                let value = value.as_integer()?;
+                to_slice!(self, value, number_width, Self::narrow_integer(value)?)
+            }
+            false => {
+                let value = value.as_float()?;
+                to_slice!(self, value, number_width, (value as f32))
+            }
         }
         Ok(())
     }
 
-    pub fn string(&mut self, value: &str) {
+    fn narrow_integer(value: i64) -> Result<i32, LunifyError> {
+        i32::try_from(value).map_err(|_| LunifyError::IntegerOverflow)
+    }
+
+    fn narrow_instruction(instruction: u64) -> Result<u32, LunifyError> {
+        u32::try_from(instruction).map_err(|_| LunifyError::ValueTooBigForOperand)
+    }
+
+    pub fn string(&mut self, value: &str) -> Result<(), LunifyError> {
         // `ByteStream::string` maps every byte to a single `char`, so we need to do the
         // reverse here.
         let bytes: Vec<u8> = value.chars().map(|character| character as u8).collect();
 
-        self.size_t(bytes.len() as i64);
+        self.size_t(bytes.len() as i64)?;
         self.slice(&bytes);
+
+        Ok(())
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From a77cd914a50941b4cd08927c936824216929d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 04/18] fix: reject numbers that can not be represented exactly
 as integer or float

---
 src/number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..489f86b 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -13,6 +13,7 @@ impl Number {
         match self {
             Number::Integer(value) => Ok(value),
             Number::Float(value) => match value == value.round() {
+                true if value < i64::MIN as f64 || value >= i64::MAX as f64 => Err(LunifyError::IntegerOverflow),
                 true => Ok(value as i64),
                 false => Err(LunifyError::FloatPrecisionLoss),
             },
@@ -22,7 +23,7 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            Number::Integer(value) => match value < f64::MAX as i64 && value as f64 as i64 == value {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
-- 
2.43.0


From aebf0f19958b8369354a0aab07d7fdf545e3a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 05/18] fix: reject integers that can not be represented
 exactly as 32 bit float

---
 src/serialization/writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index d56e415..a6a01e3 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -42,7 +42,13 @@ impl<'a> ByteWriter<'a> {
                 to_slice!(self, value, number_width, Self::narrow_integer(value)?)
             }
             false => {
+                let is_integer = matches!(value, Number::Integer(..));
                 let value = value.as_float()?;
+
+                if is_integer && self.format.number_width == BitWidth::Bit32 && value as f32 as f64 != value {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
                 to_slice!(self, value, number_width, (value as f32))
             }
         }
-- 
2.43.0


From 5a88dbd07339aa70fc92b42324c13ebee1004549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 06/18] fix: detect the Lua 5.0 test number for 32 bit floats

---
 src/format/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..9de2c44 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,11 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                let expected = match number_width {
+                    BitWidth::Bit32 => 31415926.535897933f32 as f64,
+                    BitWidth::Bit64 => 31415926.535897933,
+                };
+                value != expected
             }
         };
 
-- 
2.43.0


From 3592d8d29da286497c56fe31800c29d1896649f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 07/18] fix: only return the input as is if it doesn't require
 any conversion

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..030852f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,12 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
     // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    let is_unchanged = version == LuaVersion::Lua51
+        && input_format == *output_format
+        && settings.lua51 == settings.output
+        && input_bytes.starts_with(settings.output.binary_signature.as_bytes());
+
+    if is_unchanged && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
-- 
2.43.0


From 11b364367d7334aba0e0e170ae5871b3b4e33ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 08/18] fix: preserve the upvalue count of functions without
 debug information

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 3fbc196..759a02c 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file)?;
         byte_writer.integer(self.line_defined)?;
         byte_writer.integer(self.last_line_defined)?;
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From afff156174feab310855b94901ff88ef9542fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 09/18] fix: keep the instructions of functions without line
 information

---
 src/function/builder.rs |  2 +-
 src/function/convert.rs | 15 +++++++++++++--
 src/function/upcast.rs  | 15 +++++++++++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..0625940 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,7 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..77949a6 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -4,7 +4,7 @@ use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
     instructions: Vec<lua51::Instruction>,
-    line_info: Vec<i64>,
+    mut line_info: Vec<i64>,
     maximum_stack_size: &mut u8,
     settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
@@ -14,6 +14,11 @@ pub(crate) fn convert(
         return Ok((instructions, line_info));
     }
 
+    // Stripped byte code doesn't have any line information, but we still need to
+    // keep all of the instructions.
+    let is_stripped = line_info.is_empty();
+    line_info.resize(instructions.len(), 0);
+
     let mut builder = FunctionBuilder::default();
 
     for (instruction, line_number) in instructions.into_iter().zip(line_info) {
@@ -104,7 +109,13 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    if is_stripped {
+        line_info.clear();
+    }
+
+    Ok((instructions, line_info))
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..fc667d0 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -5,13 +5,18 @@ use crate::LunifyError;
 
 pub(crate) fn upcast(
     instructions: Vec<lua50::Instruction>,
-    line_info: Vec<i64>,
+    mut line_info: Vec<i64>,
     constants: &mut Vec<Constant>,
     maximum_stack_size: &mut u8,
     parameter_count: u8,
     is_variadic: bool,
     settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+    // Stripped byte code doesn't have any line information, but we still need to
+    // keep all of the instructions.
+    let is_stripped = line_info.is_empty();
+    line_info.resize(instructions.len(), 0);
+
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
@@ -354,7 +359,13 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    if is_stripped {
+        line_info.clear();
+    }
+
+    Ok((instructions, line_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 990a98986f10ccac3f4c81267a9f1fd98c5275b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 10/18] fix: follow jumps that leave the function or cross
 changed instructions

---
 src/function/builder.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 0625940..6f73297 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -80,25 +80,34 @@ impl FunctionBuilder {
         self.contexts.len()
     }
 
-    fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
-        let (mut steps, mut offset) = match destination.is_positive() {
-            true => (destination + 1, 1),
-            false => (destination.abs(), 0),
+    fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
+        let is_forward = destination >= 0;
+        let mut steps = match is_forward {
+            true => destination + 1,
+            false => -destination,
         };
+        let mut offset = 0;
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+        while steps > 0 {
+            let index = match is_forward {
+                true => context_index as i64 + 1 + offset,
+                false => context_index as i64 - offset,
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
-            steps += context.line_weight - 1;
+            // There are no instructions to account for outside of the function.
+            if index < 0 || index >= self.contexts.len() as i64 {
+                offset += steps;
+                break;
+            }
+
+            steps += self.contexts[index as usize].line_weight - 1;
             offset += 1;
         }
 
-        destination + final_offset
+        match is_forward {
+            true => offset - 1 + final_offset,
+            false => final_offset - offset,
+        }
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-- 
2.43.0


From 9b32273e554bd255a83c5ca1e9d8e59e73843f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 11/18] fix: return an error for FORLOOP instructions with an
 invalid destination

---
 src/error.rs            | 3 +++
 src/function/builder.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 126eff7..489aa1f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -56,4 +56,7 @@ pub enum LunifyError {
     /// The Lua 5.0 `FORLOOP` instruction specified a positive jump, even though
     /// we expect it to always be negative.
     UnexpectedForwardJump,
+    /// The Lua 5.0 `FORLOOP` instruction specified a jump to before the
+    /// beginning of the function.
+    InvalidJumpDestination,
 }
diff --git a/src/function/builder.rs b/src/function/builder.rs
index 6f73297..e3ee85e 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -111,14 +111,14 @@ impl FunctionBuilder {
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-        if bx.is_positive() {
+        if bx >= 0 {
             return Err(LunifyError::UnexpectedForwardJump);
         }
 
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        usize::try_from((program_counter as i64) + new_bx).map_err(|_| LunifyError::InvalidJumpDestination)
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From d11a4583dbe3795c7af85e8114bf409e3a52c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 12/18] fix: determine the stack destination of calls with
 multiple results

---
 src/function/instruction/lua51.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..58a03a5 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,7 +131,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.max((a + c.0).saturating_sub(1))),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
-- 
2.43.0


From 875df9df945ecd234485d5534e8485d4d8cb52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 13/18] fix: never truncate the maximum stack size to 8 bits

---
 src/function/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index e3ee85e..299e424 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -139,7 +139,7 @@ impl FunctionBuilder {
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
                 let new_stack_size = destination.end + 1;
-                match new_stack_size <= settings.output.stack_limit {
+                match new_stack_size <= settings.output.stack_limit.min(u8::MAX as u64) {
                     true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
                     false => return Err(LunifyError::StackTooLarge(new_stack_size)),
                 }
-- 
2.43.0


From fcedf626928fe94e2430f379267eff6307e256d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 14/18] fix: reject instruction layouts that are bigger than 64
 bits

---
 src/function/instruction/operand/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..f9efde5 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -125,6 +125,11 @@ impl InstructionLayout {
             }
         }
 
+        // An instruction can not be bigger than 64 bits.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
-- 
2.43.0


From 342f8a64387e19d4001178eb89fabcea9dd671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 15/18] fix: limit the depth of nested functions

---
 src/error.rs        |  2 ++
 src/function/mod.rs | 24 +++++++++++++++++++-----
 src/lib.rs          |  2 +-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 489aa1f..be1923f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,6 +47,8 @@ pub enum LunifyError {
     InputTooShort,
     /// The byte code has access padding.
     InputTooLong,
+    /// The byte code contains functions that are nested too deep.
+    NestingTooDeep,
     /// The byte code generated by converting is using stack values that are
     /// bigger than Lua 5.1 `MAXSTACK`.
     StackTooLarge(u64),
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 759a02c..b81272b 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,11 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum depth of nested functions. The Lua compiler doesn't emit more than
+/// 200 levels (`LUAI_MAXCCALLS`), so going beyond that means that the byte code
+/// is malformed.
+const MAXIMUM_DEPTH: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -114,7 +119,7 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings, depth: usize) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -122,7 +127,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as usize {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::from_byte_stream(byte_stream, version, settings, depth + 1)?;
             functions.push(function);
         }
 
@@ -197,7 +202,16 @@ impl Function {
         instructions.into_iter().map(|instruction| instruction.to_u64(settings)).collect()
     }
 
-    pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+    pub(crate) fn from_byte_stream(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        depth: usize,
+    ) -> Result<Self, LunifyError> {
+        if depth > MAXIMUM_DEPTH {
+            return Err(LunifyError::NestingTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -226,7 +240,7 @@ impl Function {
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -242,7 +256,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
 
             if is_variadic != 0 {
diff --git a/src/lib.rs b/src/lib.rs
index 030852f..d755762 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -51,7 +51,7 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
 
     byte_stream.set_format(input_format);
 
-    let root_function = Function::from_byte_stream(&mut byte_stream, version, settings)?;
+    let root_function = Function::from_byte_stream(&mut byte_stream, version, settings, 0)?;
 
     if !byte_stream.is_empty() {
         return Err(LunifyError::InputTooLong);
-- 
2.43.0


From 28a2a69d432c66529e77674fc3df6490828b229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 16/18] fix: convert SETLIST instructions that don't line up
 with the output pages

---
 src/function/builder.rs | 148 +++++++++++++++++++++++++++++++++++++++-
 src/function/convert.rs |  89 +++++-------------------
 src/function/upcast.rs  |  78 ++-------------------
 3 files changed, 168 insertions(+), 147 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 299e424..2fc076e 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,4 @@
+use super::instruction::{Generic, LuaInstruction, BC};
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -72,7 +73,7 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
+    fn get_instruction(&mut self, index: usize) -> &mut Instruction {
         &mut self.contexts[index].instruction
     }
 
@@ -110,6 +111,151 @@ impl FunctionBuilder {
         }
     }
 
+    /// The first stack position that the last instruction writes to.
+    pub(super) fn last_stack_destination(&self) -> u64 {
+        let destination = self.contexts.last().and_then(|context| context.instruction.stack_destination());
+
+        destination.map(|destination| destination.start).unwrap_or(0)
+    }
+
+    /// Get the index of the last instruction that either created the table in
+    /// A, or moved some of its elements from the stack to the table.
+    fn table_setup(&self, a: u64) -> Option<usize> {
+        let mut index = self.contexts.len().saturating_sub(1);
+
+        while index > 0 {
+            index -= 1;
+
+            match self.contexts[index].instruction {
+                Instruction::NewTable { a: table, .. } | Instruction::SetList { a: table, .. } if table == a => return Some(index),
+                _ => {}
+            }
+        }
+
+        None
+    }
+
+    /// Get the index of the instruction following the last instruction that
+    /// writes to the specified stack positions. Returns [`None`] if there is no
+    /// such instruction or if it also writes to stack positions above.
+    fn elements_end(&self, start: usize, first_position: u64, last_position: u64) -> Option<usize> {
+        let mut index = self.contexts.len();
+
+        while index > start {
+            index -= 1;
+
+            let destination = match self.contexts[index].instruction.stack_destination() {
+                Some(destination) if destination.start >= first_position && destination.start <= last_position => destination,
+                _ => continue,
+            };
+
+            if destination.end > last_position {
+                return None;
+            }
+
+            let is_closure = matches!(self.contexts[index].instruction, Instruction::Closure { .. });
+            index += 1;
+
+            // A `CLOSURE` instruction is followed by pseudo instructions for every upvalue,
+            // which always specify 0 as A.
+            while is_closure && index < self.contexts.len() {
+                match self.contexts[index].instruction {
+                    Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. } => index += 1,
+                    _ => break,
+                }
+            }
+
+            return Some(index);
+        }
+
+        None
+    }
+
+    /// Move `pending` elements from the stack to the table in A, which already
+    /// contains `stored` elements.
+    ///
+    /// `SETLIST` can only address elements in steps of `fields_per_flush`, so
+    /// if the number of elements that are already stored is not a multiple of
+    /// that we remove the previous `SETLIST` and store its elements together
+    /// with the new ones.
+    pub(super) fn set_list(&mut self, a: u64, stored: u64, pending: u64, is_open: bool, fields_per_flush: u64) {
+        let mut page = (stored / fields_per_flush) + 1;
+        let mut offset = (stored % fields_per_flush) as i64;
+
+        // Go back to where the setup of the elements starts. It might technically be
+        // possible that there is no such instruction, because the table and the
+        // elements are parameters to a function call. In that case we don't need to
+        // move anything.
+        if let Some(setup_index) = self.table_setup(a) {
+            let mut start = setup_index + 1;
+
+            if let Instruction::SetList { mode: BC(b, c), .. } = self.contexts[setup_index].instruction {
+                page = c.0 + (b.0 / fields_per_flush);
+                offset = (b.0 % fields_per_flush) as i64;
+
+                if offset != 0 {
+                    // Remove the `SETLIST` instruction.
+                    self.remove_instruction(setup_index);
+
+                    page = c.0;
+                    offset = b.0 as i64;
+                    start = setup_index;
+                }
+            }
+
+            // Store as many full pages as possible.
+            while pending as i64 + offset > fields_per_flush as i64 {
+                let last_position = (a + fields_per_flush) as i64 - offset;
+
+                let Some(end) = self.elements_end(start, a + 1, last_position.max(0) as u64) else {
+                    break;
+                };
+
+                self.move_stack_accesses(start, end, a + 1, offset);
+                self.insert_set_list(end, a, fields_per_flush, page);
+
+                start = end + 1;
+                offset -= fields_per_flush as i64;
+                page += 1;
+            }
+
+            let end = self.contexts.len();
+            self.move_stack_accesses(start, end, a + 1, offset);
+        }
+
+        let b = match is_open {
+            true => 0,
+            false => (pending as i64 + offset) as u64,
+        };
+
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(Generic(b), Generic(page)),
+        });
+    }
+
+    /// Go over all instructions from `start` to `end` and update the stack
+    /// positions.
+    fn move_stack_accesses(&mut self, start: usize, end: usize, stack_start: u64, offset: i64) {
+        for index in start..end {
+            self.get_instruction(index).move_stack_accesses(stack_start, offset);
+        }
+    }
+
+    /// Insert a new `SETLIST` instruction. Any jump to the instruction at the
+    /// index will jump to the `SETLIST` instead.
+    fn insert_set_list(&mut self, index: usize, a: u64, b: u64, c: u64) {
+        self.insert_extra_instruction(index, Instruction::SetList {
+            a,
+            mode: BC(Generic(b), Generic(c)),
+        });
+
+        if index + 1 < self.contexts.len() {
+            self.contexts[index].line_weight = self.contexts[index + 1].line_weight;
+            self.contexts[index + 1].line_weight = 1;
+        }
+    }
+
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
         if bx >= 0 {
             return Err(LunifyError::UnexpectedForwardJump);
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 77949a6..7dabb4b 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,5 +1,5 @@
 use super::builder::FunctionBuilder;
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -29,81 +29,24 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
+                // If C is 0 the page is stored in place of the next instruction, which we don't
+                // support.
+                let page = c.0.checked_sub(1).ok_or(LunifyError::ValueTooBigForOperand)?;
+
+                // If B is 0 the number of elements is determined by the preceding instruction.
+                let is_open = b.0 == 0;
+                let pending = match is_open {
+                    true => builder.last_stack_destination().saturating_sub(a),
+                    false => b.0,
                 };
 
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
+                builder.set_list(
                     a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                    settings.lua51.fields_per_flush * page,
+                    pending,
+                    is_open,
+                    settings.output.fields_per_flush,
+                );
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index fc667d0..cf8cf4f 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,6 +1,6 @@
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -240,82 +240,14 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
+                let fields_per_flush = settings.lua50.fields_per_flush;
+                let pending = (bx % fields_per_flush) + 1;
 
                 // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
                 // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
+                let is_open = matches!(instruction, lua50::Instruction::SetListO { .. });
 
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, bx + 1 - pending, pending, is_open, settings.output.fields_per_flush);
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From f4da7bf40b3914c8b821aea2a7cae4e8402dde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 17/18] fix: never move stack accesses below the beginning of
 the stack

---
 src/function/instruction/macros.rs       | 2 +-
 src/function/instruction/operand/mode.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/function/instruction/macros.rs b/src/function/instruction/macros.rs
index 63fb759..0e5c135 100644
--- a/src/function/instruction/macros.rs
+++ b/src/function/instruction/macros.rs
@@ -35,7 +35,7 @@ macro_rules! lua_instructions {
                         if $move_a {
                             let value = *a;
                             if value >= stack_start {
-                                *a = (value as i64 + offset) as u64;
+                                *a = value.saturating_add_signed(offset);
                             }
                         }
                         mode.offset(stack_start, offset);
diff --git a/src/function/instruction/operand/mode.rs b/src/function/instruction/operand/mode.rs
index 86989bd..5f91151 100644
--- a/src/function/instruction/operand/mode.rs
+++ b/src/function/instruction/operand/mode.rs
@@ -65,7 +65,7 @@ impl ModePut for Register {
 impl ModeOffset for Register {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = self.0.saturating_add_signed(offset);
         }
     }
 }
@@ -118,7 +118,7 @@ impl ModePut for ConstantRegister {
 impl ModeOffset for ConstantRegister {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start && !self.1 {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = self.0.saturating_add_signed(offset);
         }
     }
 }
-- 
2.43.0


From 33c0e60504a5e65d2f16a627ad69b70b67f97cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 18/18] fix: check the stack size of TFORLOOP before emitting
 its instructions

---
 src/function/upcast.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index cf8cf4f..55827ec 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -112,6 +112,14 @@ pub(crate) fn upcast(
 
                     let variable_count = c.0 + 1;
                     let call_base = a + variable_count + 2;
+                    let stack_size = call_base + variable_count + 1;
+
+                    // There is an instruction for every variable, so make sure that all of them fit
+                    // on the stack first.
+                    if stack_size > settings.output.stack_limit.min(u8::MAX as u64) {
+                        return Err(LunifyError::StackTooLarge(stack_size));
+                    }
+
                     let constant_nil = constant_manager.constant_nil();
 
                     // Move the iterator function, the table and the index to our call base.
-- 
2.43.0

