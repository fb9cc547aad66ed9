From f4b327dbad7fd2c5579cb5e1df726fb722f2b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 1/5] fix: expose wrapped errors as the source of the errors
 that wrap them

Many error variants carried the underlying error without marking it as
their source, so Error::source() ended early and the cause was missing
from the "Caused by" listing of the CLI.
---
 src/decode/instructions.rs     | 54 +++++++++++++++++-----------------
 src/decode/module.rs           |  2 +-
 src/decode/sections/code.rs    |  4 +--
 src/decode/sections/data.rs    |  4 +--
 src/decode/sections/element.rs |  8 ++---
 src/decode/sections/export.rs  |  2 +-
 src/decode/sections/import.rs  |  4 +--
 src/decode/types/comptype.rs   |  4 +--
 src/decode/types/globaltype.rs |  2 +-
 src/decode/types/limits.rs     |  6 ++--
 10 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index 646a327..a82d3c1 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -67,28 +67,28 @@ pub enum ControlError {
     DecodeLabelIdxVector(#[from] DecodeListError<DecodeLabelIdxError>),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding tag index")]
-    TagIdx(DecodeTagIdxError),
+    TagIdx(#[source] DecodeTagIdxError),
 
     #[error("failed decoding Catch list")]
     DecodeCatchListError(#[from] DecodeListError<CatchError>),
 
     #[error("failed decoding block type")]
-    BlockType(BlockTypeError),
+    BlockType(#[source] BlockTypeError),
 
     #[error("unexpected `Else` token")]
     UnexpectedElse,
 
     #[error("failed decoding nullability for cast operation")]
-    ReadCastNullabilityMarker(io::Error),
+    ReadCastNullabilityMarker(#[source] io::Error),
 
     #[error("invalid cast operation marker byte: expected 0x00, 0x01, 0x02 or 0x03; got {0:#04X}")]
     InvalidCastNullabilityMarker(u8),
@@ -100,31 +100,31 @@ pub enum ControlError {
 #[derive(Debug, Error)]
 pub enum ReferenceError {
     #[error("failed decoding heap type")]
-    HeapType(DecodeHeapTypeError),
+    HeapType(#[source] DecodeHeapTypeError),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed reading sub-opcode")]
-    ReadSubOpcode(DecodeU32Error),
+    ReadSubOpcode(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
 pub enum AggregateError {
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding field index")]
-    FieldIndex(DecodeU32Error),
+    FieldIndex(#[source] DecodeU32Error),
 
     #[error("failed decoding data index")]
-    DataIdx(DecodeDataIdxError),
+    DataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 
     #[error("failed decoding array fixed length")]
-    ArrayFixedLength(DecodeU32Error),
+    ArrayFixedLength(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
@@ -136,37 +136,37 @@ pub enum ParametricError {
 #[derive(Debug, Error)]
 pub enum VariableError {
     #[error("failed decoding Local index")]
-    LocalIdx(DecodeLocalIdxError),
+    LocalIdx(#[source] DecodeLocalIdxError),
 
     #[error("failed decoding Global index")]
-    GlobalIdx(DecodeGlobalIdxError),
+    GlobalIdx(#[source] DecodeGlobalIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum TableError {
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum MemoryError {
     #[error("failed decoding Memarg")]
-    DecodeMemarg(MemargError),
+    DecodeMemarg(#[source] MemargError),
 
     #[error("failed decoding data index")]
-    DecodeDataIdx(DecodeDataIdxError),
+    DecodeDataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding memory index")]
-    DecodeMemIdx(DecodeMemIdxError),
+    DecodeMemIdx(#[source] DecodeMemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum NumericError {
     #[error("failed reading 0xFC-prefixed numeric opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     DecodeI32(DecodeI32Error),
@@ -184,7 +184,7 @@ pub enum NumericError {
 #[derive(Debug, Error)]
 pub enum VectorError {
     #[error("failed reading Vector opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     Memarg(MemargError),
@@ -193,7 +193,7 @@ pub enum VectorError {
     LaneIdx(LaneIdxError),
 
     #[error("failed reading immediate bytes")]
-    ReadImmediateBytes(io::Error),
+    ReadImmediateBytes(#[source] io::Error),
 
     #[error("unexpected Vector opcode: {0:#04X}")]
     InvalidOpcode(u32),
@@ -1024,10 +1024,10 @@ pub enum MemargError {
     InvalidFlagsBit(u32),
 
     #[error("failed decoding alignment")]
-    Align(DecodeU32Error),
+    Align(#[source] DecodeU32Error),
 
     #[error("failed decoding offset")]
-    Offset(DecodeU64Error),
+    Offset(#[source] DecodeU64Error),
 
     #[error("failed decoding memory index")]
     MemIdx(#[from] DecodeMemIdxError),
@@ -1072,7 +1072,7 @@ impl LaneIdx {
 #[derive(Debug, Error)]
 pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
-    ReadMarkerByte(io::Error),
+    ReadMarkerByte(#[source] io::Error),
 
     #[error("failed decoding block type index")]
     DecodeIndex(#[from] DecodeS33Error),
diff --git a/src/decode/module.rs b/src/decode/module.rs
index cb48137..b4063ea 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -151,7 +151,7 @@ pub enum DecodeModuleError {
     DataCountDatasLenMismatch { datas_len: usize, data_count: u32 },
 
     #[error("failed decoding Data Count section")]
-    DecodeDataCount(std::num::TryFromIntError),
+    DecodeDataCount(#[source] std::num::TryFromIntError),
 
     #[error("Data index was present in Code section, but Data Count section is missing")]
     DataIndexWithoutDataCount,
diff --git a/src/decode/sections/code.rs b/src/decode/sections/code.rs
index 75e08a4..bfc8587 100644
--- a/src/decode/sections/code.rs
+++ b/src/decode/sections/code.rs
@@ -29,7 +29,7 @@ pub(crate) struct Code {
 #[derive(Debug, Error)]
 pub enum DecodeCodeError {
     #[error("failed decoding size of function code")]
-    DecodeFunctionSize(DecodeU32Error),
+    DecodeFunctionSize(#[source] DecodeU32Error),
 
     #[error("failed decoding locals vector")]
     DecodeLocalsVector(#[from] DecodeListError<DecodeCodeLocalsError>),
@@ -85,7 +85,7 @@ pub(crate) struct Local {
 #[derive(Debug, Error)]
 pub enum DecodeCodeLocalsError {
     #[error("failed decoding count of function locals")]
-    DecodeLocalsCount(DecodeU32Error),
+    DecodeLocalsCount(#[source] DecodeU32Error),
 
     #[error("too many locals: expected at most {max_locals}; got {actual_locals}")]
     LocalsCountOutOfBound { max_locals: u64, actual_locals: u64 },
diff --git a/src/decode/sections/data.rs b/src/decode/sections/data.rs
index 2e95f75..01a968f 100644
--- a/src/decode/sections/data.rs
+++ b/src/decode/sections/data.rs
@@ -24,13 +24,13 @@ pub(crate) fn decode_data_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeDataSegmentError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected 0 (passive), 1 or 2 (active); got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpr(ParseExpressionError),
+    DecodeOffsetExpr(#[source] ParseExpressionError),
 
     #[error("failed decoding init byte vector")]
     DecodeInitVector(#[from] DecodeByteVectorError),
diff --git a/src/decode/sections/element.rs b/src/decode/sections/element.rs
index d5cc28e..7860461 100644
--- a/src/decode/sections/element.rs
+++ b/src/decode/sections/element.rs
@@ -31,19 +31,19 @@ pub(crate) fn decode_element_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeElementError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected value in range [0,7]; got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpression(ParseExpressionError),
+    DecodeOffsetExpression(#[source] ParseExpressionError),
 
     #[error("failed decoding Element kind")]
     DecodeElementKind(#[from] DecodeElementKindError),
 
     #[error("failed decoding Element expression")]
-    DecodeElementExpression(ParseExpressionError),
+    DecodeElementExpression(#[source] ParseExpressionError),
 
     #[error(transparent)]
     DecodeTableIdx(#[from] DecodeTableIdxError),
@@ -52,7 +52,7 @@ pub enum DecodeElementError {
     DecodeReferenceType(#[from] DecodeRefTypeError),
 
     #[error("failed decoding table.init expressions")]
-    DecodeInit(DecodeListError<ParseExpressionError>),
+    DecodeInit(#[source] DecodeListError<ParseExpressionError>),
 
     #[error(transparent)]
     DecodeFuncIdxVector(#[from] DecodeListError<DecodeFuncIdxError>),
diff --git a/src/decode/sections/export.rs b/src/decode/sections/export.rs
index 9178122..701f0c6 100644
--- a/src/decode/sections/export.rs
+++ b/src/decode/sections/export.rs
@@ -25,7 +25,7 @@ pub enum DecodeExportError {
     DecodeName(#[from] DecodeNameError),
 
     #[error("failed reading Export descriptor marker byte")]
-    ReadDescriptorMarkerByte(io::Error),
+    ReadDescriptorMarkerByte(#[source] io::Error),
 
     #[error("failed reading ExportDesc index")]
     DecodeIndex(#[from] DecodeU32Error),
diff --git a/src/decode/sections/import.rs b/src/decode/sections/import.rs
index cf300ae..5b74f88 100644
--- a/src/decode/sections/import.rs
+++ b/src/decode/sections/import.rs
@@ -24,10 +24,10 @@ pub(crate) fn decode_import_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeImportError {
     #[error("failed decoding module name")]
-    DecodeModuleName(DecodeNameError),
+    DecodeModuleName(#[source] DecodeNameError),
 
     #[error("failed decoding item name")]
-    DecodeItemName(DecodeNameError),
+    DecodeItemName(#[source] DecodeNameError),
 
     #[error(transparent)]
     DecodeExternType(#[from] DecodeExternTypeError),
diff --git a/src/decode/types/comptype.rs b/src/decode/types/comptype.rs
index 77577cd..3951d14 100644
--- a/src/decode/types/comptype.rs
+++ b/src/decode/types/comptype.rs
@@ -23,10 +23,10 @@ pub enum DecodeCompTypeError {
     DecodeStruct(#[from] DecodeListError<DecodeFieldTypeError>),
 
     #[error("failed decoding Function type parameters")]
-    DecodeFuncParameters(DecodeResultTypeError),
+    DecodeFuncParameters(#[source] DecodeResultTypeError),
 
     #[error("failed decoding Function type results")]
-    DecodeFuncResults(DecodeResultTypeError),
+    DecodeFuncResults(#[source] DecodeResultTypeError),
 
     #[error(transparent)]
     DecodeFieldType(#[from] DecodeFieldTypeError),
diff --git a/src/decode/types/globaltype.rs b/src/decode/types/globaltype.rs
index 86989f2..db7127e 100644
--- a/src/decode/types/globaltype.rs
+++ b/src/decode/types/globaltype.rs
@@ -13,7 +13,7 @@ pub enum DecodeGlobalTypeError {
     DecodeValueType(#[from] DecodeValTypeError),
 
     #[error("failed decoding Mutability")]
-    DecodeMutability(std::io::Error),
+    DecodeMutability(#[source] std::io::Error),
 
     #[error(transparent)]
     InvalidMutability(#[from] InvalidMutabilityByteError),
diff --git a/src/decode/types/limits.rs b/src/decode/types/limits.rs
index df1b54b..e3e8921 100644
--- a/src/decode/types/limits.rs
+++ b/src/decode/types/limits.rs
@@ -8,16 +8,16 @@ use thiserror::Error;
 #[derive(Debug, Error)]
 pub enum ParseLimitsError {
     #[error("failed reading flag byte")]
-    ReadFlagByte(io::Error),
+    ReadFlagByte(#[source] io::Error),
 
     #[error("unexpected Limits flag byte: expected 0x00, 0x01, 0x04 or 0x05; got {0:#04X}")]
     UnexpectedFlagByte(u8),
 
     #[error("failed reading minimum limit")]
-    ReadMinLimit(DecodeU64Error),
+    ReadMinLimit(#[source] DecodeU64Error),
 
     #[error("failed reading maximum limit")]
-    ReadMaxLimit(DecodeU64Error),
+    ReadMaxLimit(#[source] DecodeU64Error),
 }
 
 pub(super) fn parse_limits<R: Read + ?Sized>(reader: &mut R) -> Result<Limits, ParseLimitsError> {
-- 
2.43.0


From b2f00b768797b277c6f6b441520fb3d997f4a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 2/5] fix: do not reserve memory for a declared length before
 reading the elements

A few bytes declaring a vector of 2^32-1 elements made the decoder reserve
up to hundreds of gigabytes up front, which aborts the process.
---
 src/decode/helpers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decode/helpers.rs b/src/decode/helpers.rs
index 059ced2..661ce81 100644
--- a/src/decode/helpers.rs
+++ b/src/decode/helpers.rs
@@ -108,7 +108,8 @@ where
 {
     let len = decode_u32(reader)?;
 
-    let mut items = Vec::with_capacity(len.try_into().unwrap());
+    // `len` is not trusted: memory is only reserved as elements are actually decoded
+    let mut items = Vec::new();
     for i in 0..len {
         let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
             position: i,
@@ -157,8 +158,15 @@ pub(crate) fn decode_byte_vector<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Vec<u8>, DecodeByteVectorError> {
     let len = decode_u32(reader)?;
-    let mut b = vec![0u8; len.try_into().unwrap()];
-    reader.read_exact(&mut b)?;
+
+    // `len` is not trusted: memory is only reserved as bytes are actually read
+    let mut b = Vec::new();
+    let mut reader = reader.take(len.into());
+    reader.read_to_end(&mut b)?;
+    if reader.limit() != 0 {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+
     Ok(b)
 }
 
-- 
2.43.0


From 2f025bf32d296c69fdfabced2c9362f72e390e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 3/5] fix: correct which data segment bitfields are active in
 the error message

---
 src/decode/sections/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode/sections/data.rs b/src/decode/sections/data.rs
index 01a968f..71ae3f7 100644
--- a/src/decode/sections/data.rs
+++ b/src/decode/sections/data.rs
@@ -26,7 +26,7 @@ pub enum DecodeDataSegmentError {
     #[error("failed decoding bitfield")]
     DecodeBitfield(#[source] DecodeU32Error),
 
-    #[error("invalid bitfield: expected 0 (passive), 1 or 2 (active); got {0}")]
+    #[error("invalid bitfield: expected 0 or 2 (active), or 1 (passive); got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-- 
2.43.0


From aed7d7670d3b8aee31880e4ed784e692fae47091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 4/5] fix: report why a reference block type could not be
 decoded

A failure (including an I/O error) past the 0x63/0x64 marker of a block
type was discarded and reported as a negative type index.
---
 src/decode/instructions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index a82d3c1..eaee541 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -1077,6 +1077,9 @@ pub enum BlockTypeError {
     #[error("failed decoding block type index")]
     DecodeIndex(#[from] DecodeS33Error),
 
+    #[error("failed decoding block value type")]
+    DecodeValType(#[from] DecodeValTypeError),
+
     #[error("blocktype Type index negative: {0}")]
     NegativeTypeIndex(i64),
 }
@@ -1089,8 +1092,12 @@ impl BlockType {
         }
 
         let mut reader = Cursor::new([b]).chain(reader);
-        if let Ok(t) = ValType::decode(&mut reader) {
-            return Ok(Self::T(t));
+        match ValType::decode(&mut reader) {
+            Ok(t) => return Ok(Self::T(t)),
+            // 0x63 and 0x64 only ever introduce a reference type; if the rest of it cannot be
+            // decoded there's nothing else to try
+            Err(e) if b == 0x63 || b == 0x64 => return Err(e.into()),
+            Err(_) => {}
         }
 
         // Unlike any other occurrence, the type index in a block type is encoded as a positive
-- 
2.43.0


From 30a93f9b676e0bd021012b64d4276db9f02901b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 5/5] fix: report a failure to write the verbose output instead
 of panicking

---
 wadec-cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wadec-cli/src/main.rs b/wadec-cli/src/main.rs
index 1b7733c..8c08110 100644
--- a/wadec-cli/src/main.rs
+++ b/wadec-cli/src/main.rs
@@ -1,6 +1,7 @@
 use clap::Parser;
 use patharg::InputArg;
 use std::error::Error;
+use std::io::{self, Write};
 use std::process::exit;
 
 #[derive(Parser)]
@@ -23,7 +24,7 @@ fn main() {
     let module = wadec::decode_module(input).unwrap_or_else(|e| abort(&cli, e));
 
     if cli.verbose {
-        println!("{module:#?}");
+        writeln!(io::stdout(), "{module:#?}").unwrap_or_else(|e| abort(&cli, e));
     }
 }
 
-- 
2.43.0

