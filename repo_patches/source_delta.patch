From 91add9e251e95096bc164b0088667312c14fe418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:25 +0000
Subject: [PATCH 01/14] fix: reject instructions with a word count of zero

---
 src/spv/raw/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..a7442f1 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,10 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        // The word count includes the head word so can never be zero
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From c541d037da50a3586bd6bc89b15dbbe75e36d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 02/14] fix: check all bits of the version word

---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index a7442f1..f7f3f08 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From ca6d373c0cd9abe3b796fbf6d18fc970d7433920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:29 +0000
Subject: [PATCH 03/14] fix: reject every undefined bit in bit mask operands

---
 src/spv/raw/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..e877c03 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -289,6 +289,7 @@ pub enum ReadError {
     UnknownSignedness(u32),
     UnknownStorageClass(u32),
     UnknownFunctionParameterAttribute(u32),
+    UnknownFunctionControl(u32),
     UnknownMemoryAccess(u32),
     UnknownDim(u32),
     UnknownDepthStatus(u32),
@@ -340,6 +341,7 @@ impl Error for ReadError {
             UnknownSignedness(_) => "unknown signedness",
             UnknownStorageClass(_) => "unknown storage class",
             UnknownFunctionParameterAttribute(_) => "unknown function parameter attribute",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownMemoryAccess(_) => "unknown memory access",
             UnknownDim(_) => "unknown image dimension",
             UnknownDepthStatus(_) => "unknown image depth hint",
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
@@ -841,7 +846,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +944,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1084,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1107,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From 6c622636c52090115ac0760bff147777ef5e202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:58 +0000
Subject: [PATCH 04/14] fix: read the alignment literal of aligned memory
 accesses

---
 src/spv/raw/mod.rs |  8 +++++++-
 src/spv/types.rs   | 11 ++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index e877c03..fedb64a 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -849,9 +849,15 @@ impl MemoryBlockRead for MemoryAccess {
         if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
+        let (block, aligned) = if (memory_access_word & 0x2) != 0 {
+            let (block, alignment) = try!(block.read_word());
+            (block, Some(alignment))
+        } else {
+            (block, None)
+        };
         let memory_access = MemoryAccess {
             volatile: (memory_access_word & 0x1) != 0,
-            aligned: (memory_access_word & 0x2) != 0,
+            aligned: aligned,
             non_temporal: (memory_access_word & 0x4) != 0,
         };
         Ok((block, memory_access))
diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..ad0c6be 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -1106,7 +1106,8 @@ pub struct ImageOperands {
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct MemoryAccess {
     pub volatile: bool,
-    pub aligned: bool,
+    /// The alignment literal that follows the mask when the access is aligned
+    pub aligned: Option<u32>,
     pub non_temporal: bool,
 }
 
@@ -1114,13 +1115,13 @@ impl Display for MemoryAccess {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut parts = Vec::new();
         if self.volatile {
-            parts.push("Volatile");
+            parts.push("Volatile".to_string());
         }
-        if self.aligned {
-            parts.push("Aligned");
+        if let Some(alignment) = self.aligned {
+            parts.push(format!("Aligned({})", alignment));
         }
         if self.non_temporal {
-            parts.push("Nontemporal");
+            parts.push("Nontemporal".to_string());
         }
         if parts.len() == 0 {
             write!(f, "None")
-- 
2.43.0


From ec207683672a04b644fe11acfcd5fdfb4d143010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:00 +0000
Subject: [PATCH 05/14] fix: quote and escape string literals in disassembly

---
 src/spv/dis.rs   | 19 ++++++++++++++++++-
 src/spv/types.rs |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/spv/dis.rs b/src/spv/dis.rs
index 2fe0335..ff22427 100644
--- a/src/spv/dis.rs
+++ b/src/spv/dis.rs
@@ -71,7 +71,24 @@ pub trait DisplayArg {
 
 impl DisplayArg for String {
     fn display_arg(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "\"{}\"", self)
+        write!(f, "{}", Quoted(self))
+    }
+}
+
+/// Helper for printing a string literal as a quoted string that can be read
+/// back unambiguously
+pub struct Quoted<'a>(pub &'a str);
+
+impl<'a> Display for Quoted<'a> {
+    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        try!(f.write_str("\""));
+        for c in self.0.chars() {
+            if c == '"' || c == '\\' {
+                try!(f.write_str("\\"));
+            }
+            try!(write!(f, "{}", c));
+        }
+        f.write_str("\"")
     }
 }
 
diff --git a/src/spv/types.rs b/src/spv/types.rs
index ad0c6be..328526d 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,7 @@ impl Display for Decoration {
                 return write!(f, "FpFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                return write!(f, "LinkageAttributes {} {}", Quoted(name), lt)
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0


From 4bd0003c0797548c771d5e79e51a7045e54e6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:02 +0000
Subject: [PATCH 06/14] fix: disassemble enumerants with their names from the
 specification

---
 src/spv/types.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 328526d..8f6a42d 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -236,10 +236,10 @@ impl Display for Decoration {
             Decoration::XfbStride(ref n) => return write!(f, "XfbStride {}", n),
             Decoration::FuncParamAttr(ref foa) => return write!(f, "FuncParamAttr {}", foa),
             Decoration::FpRoundingMode(ref rounding_mode) => {
-                return write!(f, "FpRoundingMode {}", rounding_mode)
+                return write!(f, "FPRoundingMode {}", rounding_mode)
             }
             Decoration::FpFastMathMode(ref fast_math_mode) => {
-                return write!(f, "FpFastMathMode {}", fast_math_mode)
+                return write!(f, "FPFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
                 return write!(f, "LinkageAttributes {} {}", Quoted(name), lt)
@@ -318,7 +318,7 @@ impl Display for BuiltIn {
             BuiltIn::TessLevelOuter => "TessLevelOuter",
             BuiltIn::TessLevelInner => "TessLevelInner",
             BuiltIn::TessCoord => "TessCoord",
-            BuiltIn::PatchVerticies => "PatchVerticies",
+            BuiltIn::PatchVerticies => "PatchVertices",
             BuiltIn::FragCoord => "FragCoord",
             BuiltIn::PointCoord => "PointCoord",
             BuiltIn::FrontFacing => "FrontFacing",
@@ -423,8 +423,8 @@ impl Display for ExecutionModel {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let name = match *self {
             ExecutionModel::Vertex => "Vertex",
-            ExecutionModel::TesselationControl => "TesselationControl",
-            ExecutionModel::TesselationEvaluation => "TesselationEvaluation",
+            ExecutionModel::TesselationControl => "TessellationControl",
+            ExecutionModel::TesselationEvaluation => "TessellationEvaluation",
             ExecutionModel::Geometry => "Geometry",
             ExecutionModel::Fragment => "Fragment",
             ExecutionModel::GlCompute => "GLCompute",
@@ -503,7 +503,7 @@ impl Display for ExecutionMode {
             ExecutionMode::InputTrianglesAdjacency => "InputTrianglesAdjacency",
             ExecutionMode::Quads => "Quads",
             ExecutionMode::Isolines => "Isolines",
-            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVerticies {}", n),
+            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVertices {}", n),
             ExecutionMode::OutputPoints => "OutputPoints",
             ExecutionMode::OutputLineStrip => "OutputLineStrip",
             ExecutionMode::OutputTriangleStrip => "OutputTriangleStrip",
-- 
2.43.0


From 0dd7be45562b7512ead78f7d6e3839ac0c19510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:03 +0000
Subject: [PATCH 07/14] fix: do not overflow the stack when validating large
 modules

---
 src/spv/logical/parser/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..1615471 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -96,20 +96,18 @@ enum PhaseResult<'a, T> {
 fn read_many<T>(insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut output = Vec::new();
+    let mut insts = insts;
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From db39dd1336dc3b5e3944f08dd1df29ae58cc7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:05 +0000
Subject: [PATCH 08/14] fix: reject function declarations placed after function
 definitions

---
 src/spv/logical/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 1615471..1874767 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -276,6 +276,11 @@ fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {
                     Err(err) => return PhaseResult::Err(err),
                 };
                 if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
+                    if blocks.is_empty() {
+                        // Declarations must come before all definitions
+                        return PhaseResult::Err(
+                            ValidationError::UnexpectedInstruction(insts.get_slot()));
+                    }
                     let insts = insts.advance();
                     let def = FunctionDefinition {
                         function: op.clone(),
-- 
2.43.0


From eed546b79d66ead21722736b84b9092e9812aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:07 +0000
Subject: [PATCH 09/14] fix: report unsupported merge and branch combinations
 as errors

---
 src/spv/logical/control_flow.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..4527e68 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,8 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                // Merging a selection that does not select anything
+                _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -367,8 +368,10 @@ fn search_block(id: BlockId,
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))
                     }
                 }
-                // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                // Loop construct with the condition in the header is not supported
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From 6e9a092d772f4085e6289b12c1e5d6ad29465241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:58 +0000
Subject: [PATCH 10/14] fix: report control flow cycles that are not loop
 constructs as errors

---
 src/spv/logical/control_flow.rs | 41 +++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index 4527e68..9554991 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -1,5 +1,5 @@
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::rc::Rc;
 
@@ -176,7 +176,10 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let (chain, next) = {
+        let mut active = HashSet::new();
+        try!(search_block(start, &FlowList::new(), &mut active, &block_map))
+    };
 
     match next {
         Continue::Return => Ok(chain),
@@ -269,8 +272,14 @@ impl FlowList {
     }
 }
 
+/// Parse the control flow from a block onwards
+///
+/// Active is the set of blocks currently being parsed. Getting back to one of
+/// these other than by merging means we've found a cycle that is not a loop
+/// construct.
 fn search_block(id: BlockId,
                 flow_list: &FlowList,
+                active: &mut HashSet<BlockId>,
                 block_map: &BlockMap)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
@@ -278,6 +287,20 @@ fn search_block(id: BlockId,
         return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));
     }
 
+    if !active.insert(id) {
+        return Err(ControlFlowError::CouldNotPredictConverge(id));
+    }
+    let result = search_new_block(id, flow_list, active, block_map);
+    active.remove(&id);
+    result
+}
+
+fn search_new_block(id: BlockId,
+                    flow_list: &FlowList,
+                    active: &mut HashSet<BlockId>,
+                    block_map: &BlockMap)
+                    -> ControlFlowResult<(ControlFlowChain, Continue)> {
+
     let block = match block_map.get(&id) {
         Some(block) => block,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
@@ -302,7 +325,7 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                        try!(search_block(next_id, &inner_fl, active, block_map));
 
                     if inner_next == Continue::Next(head) {
                         let inner_box = Box::new(inner_chain);
@@ -310,7 +333,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
                         let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
+                            try!(search_block(after, flow_list, active, block_map));
 
                         let chain = ControlFlowChain::block(vec![ctc, after_chain]);
 
@@ -320,7 +343,7 @@ fn search_block(id: BlockId,
                     }
                 }
                 None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
+                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, active, block_map));
 
                     let chain = ControlFlowChain::block(vec![current, next_chain]);
 
@@ -347,9 +370,9 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
+                        try!(search_block(true_block, &inner_fl, active, block_map));
                     let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
+                        try!(search_block(false_block, &inner_fl, active, block_map));
 
                     if true_next == false_next && true_next == Continue::Next(merge) {
 
@@ -359,7 +382,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
                         let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
+                            try!(search_block(merge, flow_list, active, block_map));
 
                         let chain = ControlFlowChain::block(vec![ctc, next_chain]);
 
@@ -382,7 +405,7 @@ fn search_block(id: BlockId,
                     if is_break || is_continue {
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
+                        let inner = try!(search_block(true_block, &flow_list, active, block_map));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
-- 
2.43.0


From 9607f7acdbcee1860ed9c8e9b60f47b1af580d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:13 +0000
Subject: [PATCH 11/14] fix: do not overflow the stack on functions with many
 sequential blocks

---
 src/spv/logical/control_flow.rs | 79 ++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index 9554991..b9c73b0 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -283,23 +283,56 @@ fn search_block(id: BlockId,
                 block_map: &BlockMap)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
-    if flow_list.merges(&id) {
-        return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));
-    }
+    // Constructs that follow each other are parsed in a loop instead of with
+    // recursion so the stack usage only depends on how deep they are nested
+    let mut chains = vec![];
+    let mut entered = vec![];
+    let mut id = id;
+
+    let next = loop {
+        if flow_list.merges(&id) {
+            chains.push(ControlFlowChain::block(vec![]));
+            break Continue::Next(id);
+        }
+
+        if !active.insert(id) {
+            return Err(ControlFlowError::CouldNotPredictConverge(id));
+        }
+        entered.push(id);
+
+        match try!(search_construct(id, flow_list, active, block_map)) {
+            Step::Follow(chain, follow_id) => {
+                chains.push(chain);
+                id = follow_id;
+            }
+            Step::End(chain, next) => {
+                chains.push(chain);
+                break next;
+            }
+        }
+    };
 
-    if !active.insert(id) {
-        return Err(ControlFlowError::CouldNotPredictConverge(id));
+    for id in &entered {
+        active.remove(id);
     }
-    let result = search_new_block(id, flow_list, active, block_map);
-    active.remove(&id);
-    result
+
+    Ok((ControlFlowChain::block(chains), next))
 }
 
-fn search_new_block(id: BlockId,
+/// Result of parsing a single construct
+enum Step {
+    /// The construct is followed by the construct starting with the given block
+    Follow(ControlFlowChain, BlockId),
+    /// The construct is the last in the sequence
+    End(ControlFlowChain, Continue),
+}
+
+/// Parse the control flow of the construct starting with a block
+fn search_construct(id: BlockId,
                     flow_list: &FlowList,
                     active: &mut HashSet<BlockId>,
                     block_map: &BlockMap)
-                    -> ControlFlowResult<(ControlFlowChain, Continue)> {
+                    -> ControlFlowResult<Step> {
 
     let block = match block_map.get(&id) {
         Some(block) => block,
@@ -332,23 +365,12 @@ fn search_new_block(id: BlockId,
 
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
-                        let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, active, block_map));
-
-                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);
-
-                        Ok((chain, after_next))
+                        Ok(Step::Follow(ctc, after))
                     } else {
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                     }
                 }
-                None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, active, block_map));
-
-                    let chain = ControlFlowChain::block(vec![current, next_chain]);
-
-                    Ok((chain, next_next))
-                }
+                None => Ok(Step::Follow(current, next_id)),
                 // Merging a selection that does not select anything
                 _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
@@ -381,12 +403,7 @@ fn search_new_block(id: BlockId,
                         let weights = op.weights.clone();
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
-                        let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, active, block_map));
-
-                        let chain = ControlFlowChain::block(vec![ctc, next_chain]);
-
-                        Ok((chain, next_next))
+                        Ok(Step::Follow(ctc, merge))
                     } else {
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))
                     }
@@ -422,7 +439,7 @@ fn search_new_block(id: BlockId,
                                                                   SelectionControl::default(),
                                                                   weights);
 
-                            Ok((ctc, inner_next))
+                            Ok(Step::End(ctc, inner_next))
                         } else {
                             Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                         }
@@ -434,7 +451,7 @@ fn search_new_block(id: BlockId,
         }
         GroupBranch::OpReturn(_) => {
             // Return block
-            Ok((ControlFlowChain::Atom(id), Continue::Return))
+            Ok(Step::End(ControlFlowChain::Atom(id), Continue::Return))
         }
     }
 }
-- 
2.43.0


From 6f13e379fb5c8594cd997bffc5e2548b5ebfdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:00 +0000
Subject: [PATCH 12/14] fix: constituents of OpCompositeConstruct are ids, not
 member indices

---
 src/spv/op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/op.rs b/src/spv/op.rs
index d7ca114..8b341cc 100644
--- a/src/spv/op.rs
+++ b/src/spv/op.rs
@@ -1011,7 +1011,7 @@ def_op_display!(OpVectorShuffle; result_id = result_type | operand1 | operand2 |
 pub struct OpCompositeConstruct {
     pub result_type: OpId,
     pub result_id: ResultId,
-    pub constituents: Vec<MemberIndex>,
+    pub constituents: Vec<OpId>,
 }
 
 def_op_display!(OpCompositeConstruct; result_id = result_type | constituents);
-- 
2.43.0


From a5375a9b59eeffb76dc3589b7a2d1c0db90aa1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:16 +0000
Subject: [PATCH 13/14] fix: report all instructions of the specification as
 unimplemented instead of unknown

---
 src/spv/raw/reader.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index f7f3f08..ff03e50 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -171,6 +171,12 @@ fn read_instruction(stream: &mut Stream,
         31 => OpTypeOpaque::read_core,
         32 => OpTypePointer::read_core,
         33 => OpTypeFunction::read_core,
+        34 => return Err(ReadError::UnimplementedOp("OpTypeEvent")),
+        35 => return Err(ReadError::UnimplementedOp("OpTypeDeviceEvent")),
+        36 => return Err(ReadError::UnimplementedOp("OpTypeReserveId")),
+        37 => return Err(ReadError::UnimplementedOp("OpTypeQueue")),
+        38 => return Err(ReadError::UnimplementedOp("OpTypePipe")),
+        39 => return Err(ReadError::UnimplementedOp("OpTypeForwardPointer")),
         41 => return Err(ReadError::UnimplementedOp("OpConstantTrue")),
         42 => return Err(ReadError::UnimplementedOp("OpConstantFalse")),
         43 => OpConstant::read_core,
@@ -200,6 +206,9 @@ fn read_instruction(stream: &mut Stream,
         70 => return Err(ReadError::UnimplementedOp("OpInBoundsPtrAccessChain")),
         71 => OpDecorate::read_core,
         72 => OpMemberDecorate::read_core,
+        73 => return Err(ReadError::UnimplementedOp("OpDecorationGroup")),
+        74 => return Err(ReadError::UnimplementedOp("OpGroupDecorate")),
+        75 => return Err(ReadError::UnimplementedOp("OpGroupMemberDecorate")),
         77 => return Err(ReadError::UnimplementedOp("OpVectorExtractDynamic")),
         78 => return Err(ReadError::UnimplementedOp("OpVectorInsertDynamic")),
         79 => return Err(ReadError::UnimplementedOp("OpVectorShuffle")),
-- 
2.43.0


From 20eae9941a2e55bc6a3a02b70ec1452ced3ebeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:43 +0000
Subject: [PATCH 14/14] fix: do not divide by zero when reading lists of small
 operand types

---
 src/spv/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index fedb64a..1a460b7 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -411,7 +411,7 @@ impl MemoryBlockRead for ResultId {
 
 impl<T: MemoryBlockRead> MemoryBlockRead for Vec<T> {
     fn read(mut block: MemoryBlock) -> MemoryBlockResult<Vec<T>> {
-        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
+        let item_word_size = std::cmp::max(1, std::mem::size_of::<T>() / 4);
         let assumed_size = block.remaining() / item_word_size;
         let mut items = Vec::with_capacity(assumed_size);
         while block.remaining() > 0 {
-- 
2.43.0

