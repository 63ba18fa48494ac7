From f9ad06310015209dbb191d5ddb29440f19e59cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 01/10] fix: accept branches that target the function body
 label

In WebAssembly the body of a function is itself a label, so `br 0` at the
top level of a function is valid and behaves like `return`. Validation
rejected every branch to that outermost label.
---
 whasm/src/validation/idx.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/whasm/src/validation/idx.rs b/whasm/src/validation/idx.rs
index 562bb2b..5887f8c 100644
--- a/whasm/src/validation/idx.rs
+++ b/whasm/src/validation/idx.rs
@@ -71,10 +71,9 @@ impl<'a> Validate<'a> for idx::Label {
     type ValidationResult = Frame<'a>;
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let idx = self.0 as usize;
-        // the stack must have at least idx+1 elements
-        // since the base frame can not be indexed with
-        // a label.
-        if !( idx + 1 < ctx.stacks.frames.len() ) {
+        // the stack must have at least idx+1 elements,
+        // the outermost label is the function body itself.
+        if !( idx < ctx.stacks.frames.len() ) {
             return Err(Error::UnexpectedEndOfFile);
         }
         let idx = ctx.stacks.frames.len() - idx - 1;
-- 
2.43.0


From b4759cbfd658c615d1ddffe82dcbaf4cd3ae73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 02/10] fix: validate the alignment of memory accesses

A load or store may not declare an alignment larger than its access width.
The check was disabled because the two immediates were read in the wrong
order: the alignment comes first in the binary format, then the offset.
---
 whasm/src/validation/instr.rs | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index f750d85..e94607a 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -160,74 +160,74 @@ impl<'a> Validate<'a> for instr::Instr {
             }
             // ... reserved ...
             // Memory load
-            /* 0x28 */ Instr::I32Load(_offset, align) => {
+            /* 0x28 */ Instr::I32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x29 */ Instr::I64Load(_offset, align) => {
+            /* 0x29 */ Instr::I64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x2A */ Instr::F32Load(_offset, align) => {
+            /* 0x2A */ Instr::F32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x2B */ Instr::F64Load(_offset, align) => {
+            /* 0x2B */ Instr::F64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x2C */ Instr::I32Load8S(_offset, align) => {
+            /* 0x2C */ Instr::I32Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2D */ Instr::I32Load8U(_offset, align) => {
+            /* 0x2D */ Instr::I32Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2E */ Instr::I32Load16S(_offset, align) => {
+            /* 0x2E */ Instr::I32Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x2F */ Instr::I32Load16U(_offset, align) => {
+            /* 0x2F */ Instr::I32Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x30 */ Instr::I64Load8S(_offset, align) => {
+            /* 0x30 */ Instr::I64Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x31 */ Instr::I64Load8U(_offset, align) => {
+            /* 0x31 */ Instr::I64Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x32 */ Instr::I64Load16S(_offset, align) => {
+            /* 0x32 */ Instr::I64Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x33 */ Instr::I64Load16U(_offset, align) => {
+            /* 0x33 */ Instr::I64Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x34 */ Instr::I64Load32S(_offset, align) => {
+            /* 0x34 */ Instr::I64Load32S(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
-            /* 0x35 */ Instr::I64Load32U(_offset, align) => {
+            /* 0x35 */ Instr::I64Load32U(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory store
-            /* 0x36 */ Instr::I32Store(_offset, align) => {
+            /* 0x36 */ Instr::I32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x37 */ Instr::I64Store(_offset, align) => {
+            /* 0x37 */ Instr::I64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x38 */ Instr::F32Store(_offset, align) => {
+            /* 0x38 */ Instr::F32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x39 */ Instr::F64Store(_offset, align) => {
+            /* 0x39 */ Instr::F64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x3A */ Instr::I32Store8(_offset, align) => {
+            /* 0x3A */ Instr::I32Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x3B */ Instr::I32Store16(_offset, align) => {
+            /* 0x3B */ Instr::I32Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x3C */ Instr::I64Store8(_offset, align) => {
+            /* 0x3C */ Instr::I64Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x3D */ Instr::I64Store16(_offset, align) => {
+            /* 0x3D */ Instr::I64Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x3E */ Instr::I64Store32(_offset, align) => {
+            /* 0x3E */ Instr::I64Store32(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory management
@@ -760,25 +760,21 @@ impl<'a> Validate<'a> for instr::Instr {
     }
 }
 
-fn validate_load<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_load<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32])?;
     ctx.stacks.push_operands(&[val]);
     Ok(())
 }
 
-fn validate_store<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_store<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32, val])?;
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From e979f53b4e207e66965d8773336990ba9475afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 03/10] fix: count imported tables and memories in the
 one-per-module limits

Only the tables and memories defined by the module were counted, so a module
importing several of them, or importing one and defining another, was
accepted.
---
 whasm/src/validation/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f4d45f8..f834fe9 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -68,10 +68,10 @@ impl<'a> Validate<'a> for module::Module {
             exports.push(ty);
         }
 
-        if !(self.tables.len() <= 1) {
+        if !(ctx.tables.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
-        if !(self.mems.len() <= 1) {
+        if !(ctx.mems.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
 
-- 
2.43.0


From ea5647610bbbbad78cab153175eb5cee5abefbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 04/10] fix: allow memories of exactly 65536 pages

Memory limits range up to and including 2^16 pages.
---
 whasm/src/validation/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 9ddcaa9..d50613d 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -38,7 +38,7 @@ impl<'a> Validate<'a> for ty::Mem {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let range = self.lim.validate(ctx)?;
-        if !(range <= (std::u16::MAX as u32)) {
+        if !(range <= 1 << 16) {
             return Err(Error::UnexpectedEndOfFile);
         }
         Ok(())
-- 
2.43.0


From 08ee8026248034196278472f5f0bd5325da8fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 05/10] fix: initialise globals from imported globals only

The initialiser of a global may read imported globals and nothing else.
Validation used the globals defined by the module instead: it accepted
initialisers reading themselves or later globals, and rejected the ones
reading imports.
---
 whasm/src/validation/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f834fe9..846bdca 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -31,7 +31,7 @@ impl<'a> Validate<'a> for module::Module {
     fn validate(&'a self, _ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let mut ctx = Context::from(&self)?;
         let mut ctx_globals = Context::default();
-        ctx_globals.use_globals(&self.globals);
+        ctx_globals.use_imported_globals(&self.imports);
 
         for ty in self.types.iter() {
             ty.validate(&mut ctx)?;
-- 
2.43.0


From 4c0cca3e0f9371b106acaa0cf44b0d46267fb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 06/10] fix: reject function declarations without a code
 section

A module declaring functions but carrying no code section was parsed
successfully, silently dropping the functions.
---
 whasm/src/binary/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whasm/src/binary/module.rs b/whasm/src/binary/module.rs
index f109086..e17de81 100644
--- a/whasm/src/binary/module.rs
+++ b/whasm/src/binary/module.rs
@@ -67,6 +67,10 @@ impl WasmBinaryParse for module::Module {
             }
         }
 
+        if result.funcs.len() != func_types.len() {
+            return Err(Error::UnexpectedEndOfFile);
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From a5e8cb4e67a2d5502a56c8693162b1d1b15e36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 07/10] fix: do not preallocate vectors from an unverified
 length

The declared length of a vector comes straight from the input. Reserving
space for it let an input of a few bytes request hundreds of gigabytes and
abort the process.
---
 whasm/src/binary/core/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index c1f359a..b729fcb 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -55,7 +55,7 @@ use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = Vec::new();
         for _ in 0..n {
             result.push(bin.parse()?);
         }
@@ -87,7 +87,7 @@ pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = Vec::new();
         for _ in 0..n {
             result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());
         }
-- 
2.43.0


From 714007d32bb6646ca9051be33fb29ac62b128190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 08/10] fix: reject compact vectors longer than a vector can be

A function may have at most 2^32 - 1 locals. The total over all the groups of
a compact vector was not checked, and is now computed before the vector is
expanded.
---
 whasm/src/binary/core/vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index b729fcb..b988d91 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -50,7 +50,7 @@
 //! assert_eq!(result, vec![0x2A, 0x8A, 0x42]);
 //! ```
 
-use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
+use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result, Error};
 
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
@@ -67,10 +67,16 @@ pub struct CompactVec<T> ( Vec<T> );
 impl<T: WasmBinaryParse + Copy> WasmBinaryParse for CompactVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let mut result = vec![];
+        let mut tuples = vec![];
+        let mut total: u32 = 0;
         let k: u32 = bin.parse()?;
         for _ in 0..k {
             let n: u32 = bin.parse()?;
             let val = bin.parse()?;
+            total = total.checked_add(n).ok_or(Error::OutOfRangeUnsignedInteger)?;
+            tuples.push((n, val));
+        }
+        for (n, val) in tuples {
             for _ in 0..n {
                 result.push(val);
             }
-- 
2.43.0


From 21b1270afd8e932f8ff8c258d0b35aea375680df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:17 +0000
Subject: [PATCH 09/10] fix: report out of range unsigned integers as unsigned

---
 whasm/src/binary/core/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/error.rs b/whasm/src/binary/core/error.rs
index fd03eaa..dc7817c 100644
--- a/whasm/src/binary/core/error.rs
+++ b/whasm/src/binary/core/error.rs
@@ -15,7 +15,7 @@ pub enum Error {
     #[error(display = "Reading out of range signed integer.")]
     OutOfRangeSignedInteger,
 
-    #[error(display = "Reading out of range signed integer.")]
+    #[error(display = "Reading out of range unsigned integer.")]
     OutOfRangeUnsignedInteger,
 
     #[error(display = "Byte sequence is not a valid utf-8 encoding.")]
-- 
2.43.0


From ad5aa26aeb5640774ff9fbf9d333c9575a2bb21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:17 +0000
Subject: [PATCH 10/10] fix: accept file names that are not UTF-8 on the
 command line

---
 parser/src/main.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/parser/src/main.rs b/parser/src/main.rs
index 992e85e..963c0eb 100644
--- a/parser/src/main.rs
+++ b/parser/src/main.rs
@@ -1,20 +1,21 @@
+use std::ffi::OsString;
 use std::io::Read;
 use whasm::structure::{module::Module};
 use whasm::binary::{WasmBinary};
 use whasm::validation::{ValidationEntry};
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<OsString> = std::env::args_os().collect();
     let config = Config::new(&args)
         .unwrap_or_else(|err| {
             println!("Problem pargin input arguments: {}", err);
-            println!("Usage: {} [-p|--print] file.wasm", args[0]);
+            println!("Usage: {} [-p|--print] file.wasm", args[0].to_string_lossy());
             std::process::exit(1);
         });
 
     let mut file = std::fs::File::open(&config.filename)
         .unwrap_or_else(|err| {
-            println!("Could not open file \"{}\"", config.filename);
+            println!("Could not open file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -22,7 +23,7 @@ fn main() {
     let mut buffer = Vec::new();
     file.read_to_end(&mut buffer)
         .unwrap_or_else(|err| {
-            println!("Could not read file \"{}\"", config.filename);
+            println!("Could not read file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -31,14 +32,14 @@ fn main() {
 
     let module: Module = iter.parse()
         .unwrap_or_else(|err| {
-            println!("Error parsing file \"{}\".", config.filename);
+            println!("Error parsing file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
 
     module.validate()
         .unwrap_or_else(|err| {
-            println!("Error validating file \"{}\".", config.filename);
+            println!("Error validating file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -49,24 +50,24 @@ fn main() {
 }
 
 struct Config {
-    filename: String,
+    filename: OsString,
     print: bool,
 }
 
 impl Config {
-    fn new(args: &[String]) -> Result<Config, Box<dyn std::error::Error>> {
+    fn new(args: &[OsString]) -> Result<Config, Box<dyn std::error::Error>> {
         let mut print = false;
-        let mut filename = "".into();
+        let mut filename = OsString::new();
 
         let mut args = args.iter();
         let _binname = args.next().ok_or("Not enough arguments.")?;
         for arg in args {
-            match &arg[..] {
-                "-p" | "--print" => {
+            match arg.to_str() {
+                Some("-p") | Some("--print") => {
                     print = true;
                 },
-                other => {
-                    filename = other.into();
+                _ => {
+                    filename = arg.clone();
                 },
             }
         }
-- 
2.43.0

