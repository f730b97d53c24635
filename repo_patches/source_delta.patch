From 387297a85e82c4ac0f0cb1f2108bafb87593ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 01/13] fix: cvttsd2siq converts to a 64-bit integer (REX.W was
 missing)

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..61159e4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From 99282b8a6ac40680319713eea8a94487fbfa89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 02/13] fix: roundpd with a [rip + label] operand accounts for
 the trailing immediate

---
 monoasm/src/jit_memory.rs | 5 +++++
 monoasm_macro/src/asm.rs  | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..d02c0d8 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -629,6 +629,11 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// Op ModRM ib
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: u8) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::B(imm as i8));
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 61159e4..c96c73c 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, #op3);
             }
         }
 
-- 
2.43.0


From f66eb737223c8c79c1e45c63286233283cf17bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 03/13] fix: refuse rsp as an index register instead of
 dropping it

---
 monoasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..51fbff3 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -226,6 +226,9 @@ impl Rm {
     }
 
     pub fn ind(base: Reg, disp: Disp, scale: Scale) -> Self {
+        if let Scale::S1(_, index) = scale {
+            assert!(index != Reg(4), "rsp can not be used as an index register.");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0


From b5686fe9f02fb4f76be5feff797ce541aab9b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 04/13] fix: refuse register numbers outside the register file

---
 monoasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index 51fbff3..6928cf6 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,7 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        assert!(num <= 16, "Illegal register number.");
         Reg(num as u8)
     }
 
-- 
2.43.0


From add21e7c8cb68cc689c04298f70121921f8ebe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 05/13] fix: include() tests both code pages whichever page is
 selected

---
 monoasm/src/jit_memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index d02c0d8..20f424e 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,8 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        let top = self.pages[0].contents();
+        top <= ptr && ptr < unsafe { top.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From a5ddb19fcc2fc5d12a62ff17d026f6b6376e2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 06/13] fix: refuse a negated label in a memory operand instead
 of ignoring the sign

---
 monoasm_macro/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 073c872..6615e6f 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -445,7 +445,7 @@ impl Disp {
         match self {
             Disp::Imm(disp) => Disp::Imm(-disp),
             Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),
-            disp => disp,
+            Disp::Label(label) => panic!("label '{}' can not be negated.", label),
         }
     }
 }
-- 
2.43.0


From 21925fdf05825d446b7830ed34d6ca9bf0a026f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 07/13] fix: evaluate embedded expressions exactly once

---
 monoasm_macro/src/asm.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index c96c73c..99f6f8f 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -33,16 +33,17 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Xchg(size, op1, op2) => match size {
             OperandSize::QWORD => match (&op1, &op2) {
                 (RmOperand::Reg(r1), RmOperand::Reg(r2)) => quote! {
-                    if #r1 == Reg::from(0) {
-                        if #r2 == Reg::from(0) {
+                    let (r1, r2) = (#r1, #r2);
+                    if r1 == Reg::from(0) {
+                        if r2 == Reg::from(0) {
                             jit.emitb(0x90);
                         } else {
-                            jit.enc_rexw_o(0x90, #r2);
+                            jit.enc_rexw_o(0x90, r2);
                         }
-                    } else if #r2 == Reg::from(0) {
-                        jit.enc_rexw_o(0x90, #r1);
+                    } else if r2 == Reg::from(0) {
+                        jit.enc_rexw_o(0x90, r1);
                     } else {
-                        jit.enc_rexw_mr(&[0x87], #r2, #op1);
+                        jit.enc_rexw_mr(&[0x87], r2, Rm::reg(r1));
                     }
                 },
                 (op1, RmOperand::Reg(op2)) => quote! {
@@ -66,11 +67,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let imm = (#i) as i64;
                             if let Ok(imm) = i32::try_from(imm)  {
-                                if #reg.is_rax() {
+                                let reg = #reg;
+                                if reg.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
                                     jit.emitl(imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, Rm::reg(reg), Imm::L(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -99,11 +101,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let imm = (#i) as i64;
                             if let Ok(imm) = i8::try_from(imm)  {
-                                if #reg.is_rax() {
+                                let reg = #reg;
+                                if reg.is_rax() {
                                     jit.emit(&[0xa8]);
                                     jit.emitb(imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, Rm::reg(reg), Imm::B(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -285,11 +288,12 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from(#imm as i64) {
+                    let imm = #imm as i64;
+                    if let Ok(imm) = i32::try_from(imm) {
                         jit.emitb(0xe8);
                         jit.emitl(imm as u32);
                     } else {
-                        panic!("'CALL ({})' out of range.", #imm);
+                        panic!("'CALL ({})' out of range.", imm);
                     }
                 }
             }
@@ -371,7 +375,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
                     jit.emitq(imm as u64);
@@ -379,7 +382,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             } else {
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
@@ -791,7 +793,7 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
                 if let Ok(imm) = i8::try_from(imm) {
                     jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(imm));
                 } else {
-                    panic!("{} is out of 8bit.", #i);
+                    panic!("{} is out of 8bit.", imm);
                 }
             }
         }
-- 
2.43.0


From 82003d17e546d3133c8be29796b2fea9943dfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 08/13] fix: names introduced by the macro expansion are
 hygienic

---
 monoasm_macro/src/asm.rs | 6 +++++-
 monoasm_macro/src/lib.rs | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 99f6f8f..f194a20 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -1,6 +1,10 @@
 use super::inst::*;
 use proc_macro2::TokenStream;
-use quote::quote;
+
+/// `quote!` whose local variables can neither capture nor shadow the names used in the operands.
+macro_rules! quote {
+    ($($tt:tt)*) => (quote::quote_spanned!(proc_macro2::Span::mixed_site()=> $($tt)*))
+}
 
 pub fn compile(inst: Inst) -> TokenStream {
     match inst {
diff --git a/monoasm_macro/src/lib.rs b/monoasm_macro/src/lib.rs
index 6f4b08d..fbb4863 100644
--- a/monoasm_macro/src/lib.rs
+++ b/monoasm_macro/src/lib.rs
@@ -6,7 +6,7 @@ extern crate proc_macro;
 extern crate quote;
 extern crate syn;
 use proc_macro::TokenStream;
-use quote::quote;
+use quote::{quote, quote_spanned};
 use syn::parse_macro_input;
 mod asm;
 mod inst;
@@ -23,7 +23,7 @@ use asm::*;
 pub fn monoasm(tokens: TokenStream) -> TokenStream {
     let stmts = parse_macro_input!(tokens as inst::Stmts);
     let base = stmts.base;
-    let mut ts = quote!(let mut jit = #base;);
+    let mut ts = quote_spanned!(proc_macro2::Span::mixed_site()=> let mut jit = #base;);
     ts.extend(stmts.contents.into_iter().map(compile));
     quote!({ #ts }).into()
 }
-- 
2.43.0


From ccfd8512206b6501291f7052b5b2c001076b1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:31 +0000
Subject: [PATCH 09/13] fix: assemble the documented xchgl, xchgw and xchgb

---
 monoasm_macro/src/asm.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index f194a20..2fbe076 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -60,7 +60,20 @@ pub fn compile(inst: Inst) -> TokenStream {
                     panic!("'Xchg {op1}, {op2}' does not exists.")
                 }
             },
-            _ => panic!("'Xchg {:?} {op1}, {op2}' does not exists.", size),
+            size => {
+                let (reg, rm) = match (&op1, &op2) {
+                    (rm, RmOperand::Reg(reg)) | (RmOperand::Reg(reg), rm) => (reg, rm),
+                    (op1, op2) => panic!("'Xchg {op1}, {op2}' does not exists."),
+                };
+                match size {
+                    OperandSize::DWORD => quote!( jit.enc_mr(&[0x87], #reg, #rm); ),
+                    OperandSize::WORD => quote!(
+                        jit.emitb(0x66);
+                        jit.enc_mr(&[0x87], #reg, #rm);
+                    ),
+                    _ => quote!( jit.enc_mr_byte(&[0x86], #reg, #rm); ),
+                }
+            }
         },
 
         Inst::Testq(op1, op2) => match op2 {
-- 
2.43.0


From 714e780985ed49f507c1a3e0b91901b23321afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:24 +0000
Subject: [PATCH 10/13] fix: cast an embedded displacement expression as a
 whole

---
 monoasm_macro/src/asm.rs   | 2 +-
 monoasm_macro/src/parse.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 2fbe076..e6627e3 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -305,7 +305,7 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    let imm = #imm as i64;
+                    let imm = (#imm) as i64;
                     if let Ok(imm) = i32::try_from(imm) {
                         jit.emitb(0xe8);
                         jit.emitl(imm as u32);
diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 6615e6f..e49f870 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -484,7 +484,7 @@ impl Parse for Disp {
             let content;
             syn::parenthesized!(content in input);
             let expr = content.parse::<Expr>()?;
-            let expr = quote!(#expr as i32);
+            let expr = quote!((#expr) as i32);
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-- 
2.43.0


From 632721c4abf00c41ff2a3dffe5fdeae1adae4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:58 +0000
Subject: [PATCH 11/13] fix: accept negative floating-point literals in dq

The sign binds looser than the method call, so 'dq -1.5;' did not compile although 'dq -1;' does.
---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index e6627e3..e574489 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -10,7 +10,7 @@ pub fn compile(inst: Inst) -> TokenStream {
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
-            quote!( jit.emit(&#f.to_ne_bytes()); )
+            quote!( jit.emit(&(#f).to_ne_bytes()); )
         }
         Inst::I64(i) => {
             quote!( jit.emitq(#i as u64); )
-- 
2.43.0


From 1fa5bf482a176634eddb0a042df5b48454c0a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:22 +0000
Subject: [PATCH 12/13] fix: dq with an f64-suffixed literal without a point
 emits the float

'dq 3f64;' emitted the integer 3 instead of the bits of 3.0.
---
 monoasm_macro/src/inst.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/inst.rs b/monoasm_macro/src/inst.rs
index c25690e..76e5ca4 100644
--- a/monoasm_macro/src/inst.rs
+++ b/monoasm_macro/src/inst.rs
@@ -457,9 +457,14 @@ impl Parse for Inst {
                         input.parse::<Token![;]>()?;
                         Ok(Inst::F64(f))
                     } else if input.peek(LitInt) {
-                        let i = input.parse::<LitInt>()?.base10_parse()?;
+                        let lit = input.parse::<LitInt>()?;
                         input.parse::<Token![;]>()?;
-                        Ok(Inst::I64(i))
+                        if lit.suffix() == "f64" {
+                            // e.g. "3f64"
+                            Ok(Inst::F64(lit.base10_parse()?))
+                        } else {
+                            Ok(Inst::I64(lit.base10_parse()?))
+                        }
                     } else {
                         Err(input.error("unimplemented literal."))
                     }
-- 
2.43.0


From eb5b277289a3ec306216b5f1b446a49b07d830d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:03 +0000
Subject: [PATCH 13/13] fix: refuse a label in a memory operand whose base is
 not rip

---
 monoasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index 6928cf6..f19d871 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -230,6 +230,9 @@ impl Rm {
         if let Scale::S1(_, index) = scale {
             assert!(index != Reg(4), "rsp can not be used as an index register.");
         }
+        if let Disp::Label(_) = disp {
+            assert!(base.is_rip(), "a label can be used only with rip as base.");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0

