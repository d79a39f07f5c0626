From 72a7c3b08ac48a669fbb94919f6cc73291186b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 01/23] fix: reject JMP words with bit 11 set when decoding

SimInstr::decode checked only bits 9-10 of the must-be-zero field of JMP,
so xC800-xC9C0 decoded to an instruction that encodes to a different word.
---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From 5903b0078aab29f1a6a003e190abee27dfac6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 02/23] fix: don't panic on a backslash before a line end or a
 non-ASCII character

lex_str_literal assumed every backslash is followed by an ASCII character on
the same line: it hit unreachable!() when the line ended there, and sliced
into the middle of a multi-byte character otherwise.
---
 src/parse/lex.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..354425a 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -263,23 +263,23 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         match mid {
             "\\" => {
                 // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
+                // (if there isn't one, the line ended before the literal was closed)
+                let mut chars = right.chars();
+                let Some(esc) = chars.next() else { break };
                 match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                    'n'  => buf.push('\n'),
+                    'r'  => buf.push('\r'),
+                    't'  => buf.push('\t'),
+                    '\\' => buf.push('\\'),
+                    '0'  => buf.push('\0'),
+                    '"'  => buf.push('\"'),
+                    c => {
                         buf.push('\\');
-                        buf.push(char::from(c));
+                        buf.push(c);
                     }
                 }
                 
-                remaining = &right[1..];
+                remaining = chars.as_str();
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From a1d98b46148038da1ee3b6c918503f5e028f7021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 03/23] fix: don't overflow when computing the prefetch PC of
 the instruction at xFFFF

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..e8cd776 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1037,7 +1037,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From f973c0ad67222d143d1aff918acacd9faf6bbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 04/23] fix: don't access memory when strict mode checks a jump
 target

The strict-mode check of the word at the new PC went through read_mem, so it
triggered I/O effects (e.g., consumed a keyboard byte), was recorded by the
access observer, and raised access violations at the jump instead of at the
fetch, none of which happen without strict mode.
---
 src/sim.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index e8cd776..d083d6f 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1018,8 +1018,9 @@ impl Simulator {
     fn set_pc(&mut self, addr_word: Word, st_check_mem: bool) -> Result<(), SimErr> {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
-            // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // Check next memory value is initialized.
+            // This only peeks at memory: the program does not access this address until the next fetch.
+            if !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From 144dadde89a1e9885525a81c4be6530cc2e90248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 05/23] fix: enter the handler of device interrupts with
 vectors x00-x02

With virtual traps, a device interrupt whose vector is x00, x01 or x02 shares
its table entry (x100-x102) with an exception and was reported as that
exception's error instead of being handled.
---
 src/sim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index d083d6f..e2bdf8b 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1121,7 +1121,10 @@ impl Simulator {
         // Virtual traps.
         // See the flag for documentation.
         // Virtual HALT
-        if !self.flags.use_real_traps {
+        //
+        // This does not apply to device interrupts (which have a priority),
+        // even if they use the same vector as an exception.
+        if !self.flags.use_real_traps && priority.is_none() {
             if let Ok(intv) = RealIntVect::try_from(vect) {
                 if !self.prefetch {
                     // decrement PC so that if play is pressed again, it goes back here
-- 
2.43.0


From eeff4f98e29af0d39f707d3879273daf8393444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 06/23] fix: write relocation addresses of binary object files
 in little endian

They were written in big endian but read in little endian, so a relocation
entry came back at a different address.
---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From 4a471355ee2dcb369bbbd2bd89e976bdefa27089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 07/23] fix: don't map .external lines to an address

An .external directive inside of a block occupies no memory, but its line was
mapped to the address of the next statement. Two lines then mapped to one
address, and the binary form of the object file could not be read back.
---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..7efeca7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -677,7 +677,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From e41862b3bca90edfbf1d82547182464b43d63fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 08/23] fix: put positions past the end of the source on its
 last line

SourceInfo::get_pos_pair returned the line after the last line, with the
column counted from the start of the source.
---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 7efeca7..117f944 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -414,7 +414,7 @@ impl SourceInfo {
     /// the line number is given as the last line and the character number
     /// is given as the number of characters after the start of the line.
     pub fn get_pos_pair(&self, index: usize) -> (usize, usize) {
-        let lno = self.get_line(index);
+        let lno = self.get_line(index).min(self.count_lines() - 1);
 
         let Range { start: lstart, .. } = self.raw_line_span(lno)
             .or_else(|| self.raw_line_span(self.nl_indices.len()))
-- 
2.43.0


From d859db57fb1073fe20fbc16f9406a233d5016a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 09/23] fix: ignore case in SymbolTable::get_label_source

Labels are stored in uppercase, so the lookup only succeeded for a query in
uppercase, unlike SymbolTable::lookup_label.
---
 src/asm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 117f944..69cb3df 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -794,8 +794,8 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
-            .map(|data| data.span(label))
+        self.label_map.get_key_value(&label.to_uppercase())
+            .map(|(key, data)| data.span(key))
     }
 
     /// Gets the address of a given source line.
-- 
2.43.0


From e0b4e57fd54772af7567a0b612e62bff734415be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 10/23] fix: give linker errors without source locations a span

OverlappingBlocks errors from linking were created with an empty span list,
on which ErrSpan::first panics.
---
 src/err.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/err.rs b/src/err.rs
index fce4a4e..130b3ad 100644
--- a/src/err.rs
+++ b/src/err.rs
@@ -106,6 +106,7 @@ impl From<Span> for ErrSpan {
 impl From<&[Span]> for ErrSpan {
     fn from(value: &[Span]) -> Self {
         match value {
+            [] => ErrSpan::One(0..0), // an error always has at least one span
             [r0] => ErrSpan::One(r0.clone()),
             [r0, r1] => ErrSpan::Two([r0.clone(), r1.clone()]),
             rr => ErrSpan::Many(rr.to_vec())
@@ -120,6 +121,7 @@ impl<const N: usize> From<[Span; N]> for ErrSpan {
 impl From<Vec<Span>> for ErrSpan {
     fn from(value: Vec<Span>) -> Self {
         match <[_; 1]>::try_from(value) {
+            Err(value) if value.is_empty() => ErrSpan::One(0..0), // an error always has at least one span
             Ok([r]) => ErrSpan::One(r),
             Err(value) => match <[_; 2]>::try_from(value) {
                 Ok(r2) => ErrSpan::Two(r2),
-- 
2.43.0


From 3f3a5d7de7d219b8dbb765ec384885394d759a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 11/23] fix: keep track of external labels declared after use
 or without debug symbols

---
 src/asm.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 69cb3df..b23ee3b 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -506,7 +506,7 @@ impl DebugSymbols {
 /// Without debug symbols, the symbol table only consists of mappings from labels to spans (and vice-versa).
 /// These are used to translate labels in source code to addresses during the assembly process.
 /// After the completion of this assembly process, the [`SymbolTable`] is dropped and is not part of the resultant
-/// [`ObjectFile`].
+/// [`ObjectFile`] (unless there are external labels, which still have to be linked).
 /// 
 /// However, with debug symbols, this information persists in the resultant [`ObjectFile`], allowing
 /// the label mappings to be accessed during simulation time. Additionally, more information from the source
@@ -619,7 +619,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
-        let mut rel_map = HashMap::new();
+        let mut label_fills = vec![];
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
             (vec![None; src_info.count_lines()], src_info)
@@ -659,13 +659,10 @@ impl SymbolTable {
                     add_label(&mut label_map, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
-                    let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
-                            return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
-
-                        rel_map.insert(cur.lc, label_text);
+                    // The label's .external declaration may still come after this.
+                    // (If this is outside of an .orig block, pass 2 raises the error.)
+                    if let Some(cur) = cursor.as_ref() {
+                        label_fills.push((cur.lc, label.name.to_uppercase()));
                     }
                 },
                 _ => {}
@@ -695,6 +692,11 @@ impl SymbolTable {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
         
+        // All labels are known now, so the uses of external labels can be picked out.
+        let rel_map = label_fills.into_iter()
+            .filter(|(_, label)| label_map.get(label).is_some_and(|sym_data| sym_data.external))
+            .collect();
+
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
             .unwrap_or_else(|| {
@@ -1180,9 +1182,11 @@ impl ObjectFile {
         let block_map = block_map.into_iter()
             .map(|(start, ObjBlock { words, .. })| (start, words))
             .collect();
+        // External labels still have to be linked, so they have to be kept without debug symbols too.
+        let keep_sym = debug || sym.label_map.values().any(|sym_data| sym_data.external);
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            sym: keep_sym.then_some(sym),
         })
     }
 
-- 
2.43.0


From 5f1de286b7e2fea4f1ddda756dbdb8a5b65c8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 12/23] fix: read text object files with labels but no debug
 symbols

---
 src/asm/encoding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..399b9d2 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -506,7 +506,12 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, line_src) = rest.split_at(split_pos);
+                    // If there are no debug symbols, the label table's divider is the only divider.
+                    let line_src = match line_src {
+                        [_, line_src @ .., _] => line_src,
+                        _ => &[],
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From 94ec605e94afddcab4ed00749521a69cd5578729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 13/23] fix: don't panic when writing very long labels in text
 object files

---
 src/asm/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 399b9d2..99e515e 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -365,6 +365,8 @@ impl ObjFileFormat for TextFormat {
                             (LABEL.len(), INDEX.len()), 
                             |(lc, ic), (lx, ix)| (lc.max(lx), ic.max(ix))
                         );
+                    // Format widths over u16::MAX panic
+                    let label_col = label_col.min(usize::from(u16::MAX));
 
                     // Display!
                     writeln!(buf, "{LABEL:1$}{0}{INDEX:2$}", TABLE_DIV, label_col, index_col)?;
-- 
2.43.0


From 5ea615724a60ad62a45ea1546a6fc8314c3a2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 14/23] fix: don't panic on invalid contents of object files
 read from disk

---
 src/asm.rs          | 27 ++++++++++++++++++---------
 src/asm/encoding.rs | 20 ++++++++++----------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b23ee3b..d2d1e56 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -251,7 +251,7 @@ impl LineSymbolMap {
         // Check not overlapping:
         let not_overlapping = bl.windows(2).all(|win| {
             let [(ls, lb), (rs, _)] = win else { unreachable!() };
-            ls + lb.len() <= *rs
+            ls.checked_add(lb.len()).is_some_and(|le| le <= *rs)
         });
 
         match not_overlapping {
@@ -443,7 +443,7 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
@@ -457,6 +457,15 @@ struct DebugSymbols {
     src_info: SourceInfo
 }
 impl DebugSymbols {
+    /// Creates new debug symbols, if all of the mapped lines are lines of the source.
+    fn new(line_map: LineSymbolMap, src_info: SourceInfo) -> Option<Self> {
+        let in_source = line_map.block_iter().all(|(start, block)| {
+            start.checked_add(block.len()).is_some_and(|end| end <= src_info.count_lines())
+        });
+
+        in_source.then_some(Self { line_map, src_info })
+    }
+
     pub fn lookup_line(&self, line: usize) -> Option<u16> {
         self.line_map.get(line)
     }
@@ -1220,8 +1229,8 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            let ar = usize::from(a_st) .. (usize::from(a_st) + a_bl.len());
+            let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
@@ -1293,11 +1302,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // The address should only be missing from the block map
+            // if the object file was read from an invalid file.
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 99e515e..9d6b32d 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -205,11 +205,11 @@ impl ObjFileFormat for BinaryFormat {
         }
 
         let debug_symbols = match debug_sym {
-            Some((line_map, src)) => Some(DebugSymbols {
-                // Error should propagate to deser
-                line_map: super::LineSymbolMap::from_blocks(line_map)?,
-                src_info: super::SourceInfo::from_string(src),
-            }),
+            // Errors should propagate to deser
+            Some((line_map, src)) => Some(DebugSymbols::new(
+                super::LineSymbolMap::from_blocks(line_map)?,
+                super::SourceInfo::from_string(src),
+            )?),
             None => None,
         };
         let sym = (!label_map.is_empty() || debug_symbols.is_some())
@@ -546,11 +546,11 @@ impl ObjFileFormat for TextFormat {
         }
 
         let debug_symbols = match debug_sym {
-            Some((line_map, src)) => Some(DebugSymbols {
-                // propagate error to deser
-                line_map: super::LineSymbolMap::new(line_map)?,
-                src_info: super::SourceInfo::from_string(src),
-            }),
+            // propagate errors to deser
+            Some((line_map, src)) => Some(DebugSymbols::new(
+                super::LineSymbolMap::new(line_map)?,
+                super::SourceInfo::from_string(src),
+            )?),
             None => None,
         };
         let sym = (!label_map.is_empty() || debug_symbols.is_some())
-- 
2.43.0


From d45c673b004f347f47a53e8224bfceb1147b7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 15/23] fix: shift label spans of the second object file when
 linking sources

---
 src/asm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index d2d1e56..00452c4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1242,6 +1242,11 @@ impl ObjectFile {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
                 let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+                // Where B's source starts in the combined source.
+                let b_src_start = match (&a_sym.debug_symbols, &b_debug_symbols) {
+                    (Some(ads), Some(_)) => ads.src_info.src.len() + 1,
+                    _ => 0
+                };
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
                     (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
                     (m_ads, b_ads) => m_ads.or(b_ads)
@@ -1251,7 +1256,9 @@ impl ObjectFile {
                 a_sym.rel_map.extend(rel_map);
 
                 // For every label in symbol table B:
-                for (label, b_sym_data) in label_map {
+                for (label, mut b_sym_data) in label_map {
+                    b_sym_data.src_start = b_sym_data.src_start.saturating_add(b_src_start);
+
                     match a_sym.label_map.entry(label) {
                         Entry::Occupied(mut e) => {
                             let &a_sym_data = e.get();
-- 
2.43.0


From 7dd7616dfc20645d9009dc278d37169424a51bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 16/23] fix: trigger timer interrupts when the sampled time is
 zero

---
 src/sim/device/timer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..0e8e897 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,11 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                // If there are no polls to wait for, this has to trigger now
+                match self.time {
+                    0 => Some(super::Interrupt::vectored(self.vect, self.priority)),
+                    _ => None
+                }
             },
             1 => {
                 self.time = 0;
-- 
2.43.0


From 03f6d8b0211cefc5c153d0dcab6dcb1f436e4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 17/23] fix: don't record writes rejected by strict mode in the
 access observer

---
 src/sim.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index e2bdf8b..5ed8798 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -876,16 +876,18 @@ impl Simulator {
 
         // Duplicate write in mem array:
         if success {
+            let modified = self.mem[addr] != data;
+
+            self.mem[addr]
+                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
+
             if ctx.track_access {
                 // Update memory observer:
                 self.observer.update_mem_accesses(addr, AccessSet::WRITTEN);
-                if self.mem[addr] != data {
+                if modified {
                     self.observer.update_mem_accesses(addr, AccessSet::MODIFIED);
                 }
             }
-
-            self.mem[addr]
-                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
         }
 
         Ok(())
-- 
2.43.0


From 6d8546c1810738adc1f0c1b675910f4df25c30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 18/23] fix: turn on the MCR while executing a single step

---
 src/sim.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 5ed8798..8232700 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1451,8 +1451,16 @@ impl Simulator {
     }
     /// Simulate one step, executing one instruction.
     pub fn step_in(&mut self) -> Result<(), SimErr> {
+        use std::sync::atomic::Ordering;
+
         self.observer.clear();
-        match self.step() {
+
+        // As in `run_while`, the machine is on while it executes the step.
+        self.mcr.store(true, Ordering::Relaxed);
+        let result = self.step();
+        self.mcr.store(false, Ordering::Relaxed);
+
+        match result {
             Ok(()) => Ok(()),
             Err(StepBreak::Halt) => Ok(()),
             Err(StepBreak::Err(e)) => Err(e)
-- 
2.43.0


From b2b96a360710d25865f1d2cfd7e6ea0b1fc9fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 19/23] hooks: access to private state for proof harnesses
 (cfg(kani))

---
 src/asm.rs                         |  4 ++
 src/asm/kani_hooks.rs              | 40 ++++++++++++++++++
 src/lib.rs                         |  1 +
 src/sim.rs                         |  4 ++
 src/sim/device.rs                  |  6 +++
 src/sim/device/kani_hooks.rs       | 27 +++++++++++++
 src/sim/device/timer.rs            |  5 +++
 src/sim/device/timer/kani_hooks.rs | 16 ++++++++
 src/sim/frame.rs                   |  5 +++
 src/sim/frame/kani_hooks.rs        | 21 ++++++++++
 src/sim/kani_hooks.rs              | 65 ++++++++++++++++++++++++++++++
 src/sim/mem.rs                     |  5 +++
 src/sim/mem/kani_hooks.rs          | 20 +++++++++
 13 files changed, 219 insertions(+)
 create mode 100644 src/asm/kani_hooks.rs
 create mode 100644 src/sim/device/kani_hooks.rs
 create mode 100644 src/sim/device/timer/kani_hooks.rs
 create mode 100644 src/sim/frame/kani_hooks.rs
 create mode 100644 src/sim/kani_hooks.rs
 create mode 100644 src/sim/mem/kani_hooks.rs

diff --git a/src/asm.rs b/src/asm.rs
index 00452c4..fc9f4dd 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -11,6 +11,10 @@
 //! [`Stmt`]: crate::ast::asm::Stmt
 
 pub mod encoding;
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
 
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
diff --git a/src/asm/kani_hooks.rs b/src/asm/kani_hooks.rs
new file mode 100644
index 0000000..a44fdb7
--- /dev/null
+++ b/src/asm/kani_hooks.rs
@@ -0,0 +1,40 @@
+//! Access to private assembler items for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+use crate::sim::kani_hooks::fixed_state;
+
+/// Creates an empty symbol table.
+pub fn empty_symbol_table() -> SymbolTable {
+    SymbolTable {
+        label_map: HashMap::with_hasher(fixed_state()),
+        rel_map: HashMap::with_hasher(fixed_state()),
+        debug_symbols: None
+    }
+}
+/// The value stored in the label map of a symbol table.
+#[derive(Clone, Copy)]
+#[repr(transparent)]
+pub struct LabelData(SymbolData);
+/// Creates data for a label.
+pub const fn label_data(addr: u16, src_start: usize, external: bool) -> LabelData {
+    LabelData(SymbolData { addr, src_start, external })
+}
+/// Calls `replace_pc_offset`.
+pub fn resolve_offset<const N: u32>(off: PCOffset<i16, N>, pc: u16, sym: &SymbolTable) -> Result<IOffset<N>, AsmErr> {
+    replace_pc_offset(off, pc, sym)
+}
+/// Calls `ranges_overlap`.
+pub fn overlap(a: Range<u16>, b: Range<u16>) -> bool {
+    ranges_overlap(a, b)
+}
+/// Calls `Directive::word_len`.
+pub fn word_len(d: &Directive) -> u16 {
+    d.word_len()
+}
+/// Creates source info from its parts.
+pub fn source_info(src: String, nl_indices: Vec<usize>) -> SourceInfo {
+    SourceInfo { src, nl_indices }
+}
+/// Calls `SourceInfo::get_line`.
+pub fn get_line(s: &SourceInfo, index: usize) -> usize {
+    s.get_line(index)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7926c0f..0d56fe9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,7 @@
 //! If more granularity is needed for simulation, there are also step-in and step-out functions. 
 //! See the [`sim`] module for more details.
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)] // cfg(kani), for proof harnesses
 
 pub mod parse;
 pub mod ast;
diff --git a/src/sim.rs b/src/sim.rs
index 8232700..2383daf 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -281,6 +281,10 @@ pub mod debug;
 pub mod frame;
 pub mod device;
 pub mod observer;
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
 
 use std::collections::{HashMap, HashSet};
 use std::sync::atomic::AtomicBool;
diff --git a/src/sim/device.rs b/src/sim/device.rs
index a638b28..1d3756b 100644
--- a/src/sim/device.rs
+++ b/src/sim/device.rs
@@ -16,7 +16,13 @@
 mod keyboard;
 mod display;
 mod timer;
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
 
+#[cfg(kani)]
+pub use timer::kani_hooks as timer_kani_hooks;
 use super::IO_START;
 pub use keyboard::BufferedKeyboard;
 pub use display::BufferedDisplay;
diff --git a/src/sim/device/kani_hooks.rs b/src/sim/device/kani_hooks.rs
new file mode 100644
index 0000000..cd8e233
--- /dev/null
+++ b/src/sim/device/kani_hooks.rs
@@ -0,0 +1,27 @@
+//! Access to private device state for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+
+/// Creates a device handler with no devices,
+/// for proofs where device accesses are replaced by their contract.
+pub fn no_devices() -> DeviceHandler {
+    DeviceHandler {
+        devices: Vec::new(),
+        // SAFETY: never accessed and never dropped
+        io_ports: unsafe { Box::from_raw(std::ptr::NonNull::dangling().as_ptr()) }
+    }
+}
+/// The vector and priority of a vectored interrupt.
+pub fn interrupt_parts(i: &Interrupt) -> Option<(u8, u8)> {
+    match i.kind {
+        InterruptKind::Vectored { vect, priority } => Some((vect, priority)),
+        InterruptKind::External(_) => None,
+    }
+}
+/// Owner of each port.
+pub fn port_owner(d: &DeviceHandler, port: u16) -> Option<u16> {
+    d.get_dev_id(port)
+}
+/// Number of device slots.
+pub fn device_count(d: &DeviceHandler) -> usize {
+    d.devices.len()
+}
diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index 0e8e897..2be8629 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -1,3 +1,8 @@
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
+
 use std::ops::{Bound, RangeBounds};
 
 use rand::Rng;
diff --git a/src/sim/device/timer/kani_hooks.rs b/src/sim/device/timer/kani_hooks.rs
new file mode 100644
index 0000000..a282df0
--- /dev/null
+++ b/src/sim/device/timer/kani_hooks.rs
@@ -0,0 +1,16 @@
+//! Access to private timer state for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+
+/// Creates a timer whose generator must not be used
+/// (for proofs where time generation is replaced by its contract).
+pub fn make(range: impl RangeBounds<u32>, time: u32, vect: u8, priority: u8, enabled: bool) -> TimerDevice {
+    TimerDevice {
+        // SAFETY: never accessed and never dropped
+        generator: unsafe { Box::from_raw(std::ptr::NonNull::dangling().as_ptr()) },
+        range: SampleRange::new(range),
+        time,
+        vect,
+        priority,
+        enabled
+    }
+}
diff --git a/src/sim/frame.rs b/src/sim/frame.rs
index d3dfcfa..08390d7 100644
--- a/src/sim/frame.rs
+++ b/src/sim/frame.rs
@@ -112,6 +112,11 @@
 //! 
 //! [`Simulator`]: super::Simulator
 
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
+
 use std::collections::HashMap;
 
 use crate::ast::Reg::{R0, R6};
diff --git a/src/sim/frame/kani_hooks.rs b/src/sim/frame/kani_hooks.rs
new file mode 100644
index 0000000..b38f521
--- /dev/null
+++ b/src/sim/frame/kani_hooks.rs
@@ -0,0 +1,21 @@
+//! Access to private frame stack state for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+use crate::sim::kani_hooks::fixed_state;
+
+/// Creates a frame stack without definitions.
+pub fn make(frame_no: u64, frames: Option<Vec<Frame>>) -> FrameStack {
+    FrameStack {
+        frame_no,
+        trap_defns: HashMap::with_hasher(fixed_state()),
+        sr_defns: HashMap::with_hasher(fixed_state()),
+        frames
+    }
+}
+/// Calls `FrameStack::push_frame`.
+pub fn push_frame(s: &mut FrameStack, caller: u16, callee: u16, ft: FrameType, regs: &RegFile, mem: &MemArray) {
+    s.push_frame(caller, callee, ft, regs, mem)
+}
+/// Calls `FrameStack::pop_frame`.
+pub fn pop_frame(s: &mut FrameStack) {
+    s.pop_frame()
+}
diff --git a/src/sim/kani_hooks.rs b/src/sim/kani_hooks.rs
new file mode 100644
index 0000000..b403d5b
--- /dev/null
+++ b/src/sim/kani_hooks.rs
@@ -0,0 +1,65 @@
+//! Access to private simulator state for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+use std::hash::RandomState;
+
+/// A fixed hasher state (the verifier cannot call the OS for random keys).
+pub fn fixed_state() -> RandomState {
+    // SAFETY: RandomState is a pair of u64 keys
+    unsafe { std::mem::transmute::<[u64; 2], RandomState>([0; 2]) }
+}
+
+/// Parts of the simulator which are not public fields.
+pub struct Parts {
+    /// PSR bits
+    pub psr: u16,
+    /// Saved stack pointer
+    pub saved_sp: Word,
+    /// Allocated blocks
+    pub alloca: Box<[(u16, u16)]>,
+    /// Whether in prefetch
+    pub prefetch: bool,
+    /// Number of instructions run
+    pub instructions_run: u64,
+    /// MCR state
+    pub mcr: bool,
+    /// Frame stack
+    pub frame_stack: FrameStack,
+    /// Device handler
+    pub device_handler: DeviceHandler
+}
+
+/// Creates a simulator from its parts.
+pub fn make(mem: MemArray, reg_file: RegFile, pc: u16, p: Parts, flags: SimFlags) -> Simulator {
+    Simulator {
+        mem,
+        reg_file,
+        pc,
+        psr: PSR(p.psr),
+        saved_sp: p.saved_sp,
+        frame_stack: p.frame_stack,
+        alloca: p.alloca,
+        instructions_run: p.instructions_run,
+        prefetch: p.prefetch,
+        pause_condition: PauseCondition::Unsuccessful,
+        observer: observer::AccessObserver::new(),
+        os_loaded: true,
+        mcr: Arc::new(AtomicBool::new(p.mcr)),
+        flags,
+        breakpoints: HashSet::with_hasher(fixed_state()),
+        ireg_mmap: HashMap::with_hasher(fixed_state()),
+        device_handler: p.device_handler
+    }
+}
+
+/// Gets the saved stack pointer.
+pub fn saved_sp(s: &Simulator) -> Word {
+    s.saved_sp
+}
+/// Creates a PSR.
+pub fn psr(bits: u16) -> PSR {
+    PSR(bits)
+}
+/// Calls `Simulator::in_alloca`.
+pub fn in_alloca(s: &Simulator, addr: u16) -> bool {
+    s.in_alloca(addr)
+}
diff --git a/src/sim/mem.rs b/src/sim/mem.rs
index 0374fa2..8b8a132 100644
--- a/src/sim/mem.rs
+++ b/src/sim/mem.rs
@@ -5,6 +5,11 @@
 //! - [`MemArray`]: The memory array.
 //! - [`RegFile`]: The register file.
 
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
+
 use rand::rngs::StdRng;
 use rand::Rng;
 
diff --git a/src/sim/mem/kani_hooks.rs b/src/sim/mem/kani_hooks.rs
new file mode 100644
index 0000000..f9af72c
--- /dev/null
+++ b/src/sim/mem/kani_hooks.rs
@@ -0,0 +1,20 @@
+//! Access to private memory state for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+
+/// Creates a word.
+pub const fn word(data: u16, init: u16) -> Word {
+    Word { data, init }
+}
+/// Gets the initialization bits of a word.
+pub fn init(w: Word) -> u16 {
+    w.init
+}
+/// Creates a memory array with no backing, for proofs where memory accesses are replaced by their contract.
+pub fn mem_unbacked() -> MemArray {
+    // SAFETY: never accessed and never dropped
+    MemArray(unsafe { Box::from_raw(std::ptr::NonNull::dangling().as_ptr()) })
+}
+/// Creates a register file.
+pub fn regs(b: [Word; Reg::REG_SIZE]) -> RegFile {
+    RegFile(b)
+}
-- 
2.43.0


From bd967b91a253464281983e9cb1c45296635b97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 20/23] hooks: proof access to handler entry (cfg(kani))

---
 src/sim/kani_hooks.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/sim/kani_hooks.rs b/src/sim/kani_hooks.rs
index b403d5b..40a74da 100644
--- a/src/sim/kani_hooks.rs
+++ b/src/sim/kani_hooks.rs
@@ -63,3 +63,41 @@ pub fn psr(bits: u16) -> PSR {
 pub fn in_alloca(s: &Simulator, addr: u16) -> bool {
     s.in_alloca(addr)
 }
+
+/// Result of interrupt handling.
+pub enum Break {
+    /// A virtual HALT.
+    Halt,
+    /// An error.
+    Err(SimErr)
+}
+/// Calls `Simulator::handle_interrupt`.
+pub fn handle_interrupt(s: &mut Simulator, vect: u16, priority: Option<u8>) -> Result<(), Break> {
+    match s.handle_interrupt(vect, priority) {
+        Ok(()) => Ok(()),
+        Err(StepBreak::Halt) => Err(Break::Halt),
+        Err(StepBreak::Err(e)) => Err(Break::Err(e)),
+    }
+}
+/// What `entry_stub` does.
+pub static mut ENTRY: fn(&mut Simulator, u16, Option<u8>) -> Result<(), Break> = |_, _, _| Ok(());
+/// Replaces `Simulator::handle_interrupt` by its contract (given in `ENTRY`).
+#[allow(dead_code)]
+fn entry_stub(s: &mut Simulator, vect: u16, priority: Option<u8>) -> Result<(), StepBreak> {
+    // SAFETY: there is only one thread
+    match unsafe { ENTRY }(s, vect, priority) {
+        Ok(()) => Ok(()),
+        Err(Break::Halt) => Err(StepBreak::Halt),
+        Err(Break::Err(e)) => Err(StepBreak::Err(e)),
+    }
+}
+/// Whether the PC still points to the current instruction.
+pub fn prefetch(s: &Simulator) -> bool {
+    s.prefetch
+}
+/// Sets the private processor state.
+pub fn set_state(s: &mut Simulator, psr: u16, saved_sp: Word, prefetch: bool) {
+    s.psr = PSR(psr);
+    s.saved_sp = saved_sp;
+    s.prefetch = prefetch;
+}
-- 
2.43.0


From 4474f32fdaee5db575c7be94b648a137c8682ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 21/23] hooks: proof access to device handler and slots
 (cfg(kani))

---
 src/sim/device/kani_hooks.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sim/device/kani_hooks.rs b/src/sim/device/kani_hooks.rs
index cd8e233..2264cbc 100644
--- a/src/sim/device/kani_hooks.rs
+++ b/src/sim/device/kani_hooks.rs
@@ -25,3 +25,18 @@ pub fn port_owner(d: &DeviceHandler, port: u16) -> Option<u16> {
 pub fn device_count(d: &DeviceHandler) -> usize {
     d.devices.len()
 }
+/// Creates a device handler with `n` empty device slots and the given port owners.
+pub fn handler(n: usize, owners: Box<[u16; 512]>) -> DeviceHandler {
+    let mut devices = Vec::with_capacity(n + 1);
+    for _ in 0..n { devices.push(internals::SimDevice::Null); }
+    DeviceHandler { devices, io_ports: owners }
+}
+/// Puts a device into a slot.
+pub fn put(d: &mut DeviceHandler, slot: usize, dev: impl ExternalDevice) {
+    let old = std::mem::replace(&mut d.devices[slot], dev._to_sim_device(internals::ToSimDeviceToken(())));
+    std::mem::forget(old);
+}
+/// Whether a slot is empty.
+pub fn is_null(d: &DeviceHandler, slot: usize) -> bool {
+    matches!(d.devices[slot], internals::SimDevice::Null)
+}
-- 
2.43.0


From eca3554bea977557fdc4c1546dab42eeaee92bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 22/23] hooks: proof access to the step and the frame count
 (cfg(kani))

---
 src/sim/frame/kani_hooks.rs |  4 ++++
 src/sim/kani_hooks.rs       | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sim/frame/kani_hooks.rs b/src/sim/frame/kani_hooks.rs
index b38f521..7b2039e 100644
--- a/src/sim/frame/kani_hooks.rs
+++ b/src/sim/frame/kani_hooks.rs
@@ -19,3 +19,7 @@ pub fn push_frame(s: &mut FrameStack, caller: u16, callee: u16, ft: FrameType, r
 pub fn pop_frame(s: &mut FrameStack) {
     s.pop_frame()
 }
+/// Sets the number of frames.
+pub fn set_len(s: &mut FrameStack, frame_no: u64) {
+    s.frame_no = frame_no;
+}
diff --git a/src/sim/kani_hooks.rs b/src/sim/kani_hooks.rs
index 40a74da..5f3b4de 100644
--- a/src/sim/kani_hooks.rs
+++ b/src/sim/kani_hooks.rs
@@ -101,3 +101,15 @@ pub fn set_state(s: &mut Simulator, psr: u16, saved_sp: Word, prefetch: bool) {
     s.saved_sp = saved_sp;
     s.prefetch = prefetch;
 }
+/// What `step_stub` does.
+pub static mut STEP: fn(&mut Simulator) -> Result<(), Break> = |_| Ok(());
+/// Replaces `Simulator::step` by its contract (given in `STEP`).
+#[allow(dead_code)]
+fn step_stub(s: &mut Simulator) -> Result<(), StepBreak> {
+    // SAFETY: there is only one thread
+    match unsafe { STEP }(s) {
+        Ok(()) => Ok(()),
+        Err(Break::Halt) => Err(StepBreak::Halt),
+        Err(Break::Err(e)) => Err(StepBreak::Err(e)),
+    }
+}
-- 
2.43.0


From 107fe4ab7a615a14bcd62fdc0bad7dc85f00873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 23/23] hooks: proof access to token values, format helpers and
 machine contents (cfg(kani))

---
 src/asm/encoding.rs            |  5 +++++
 src/asm/encoding/kani_hooks.rs | 15 +++++++++++++++
 src/parse/lex.rs               |  5 +++++
 src/parse/lex/kani_hooks.rs    | 18 ++++++++++++++++++
 src/sim/kani_hooks.rs          | 25 +++++++++++++++++++++++++
 src/sim/mem/kani_hooks.rs      |  5 +++++
 6 files changed, 73 insertions(+)
 create mode 100644 src/asm/encoding/kani_hooks.rs
 create mode 100644 src/parse/lex/kani_hooks.rs

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 9d6b32d..41cefbc 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -5,6 +5,11 @@
 //! - [`BinaryFormat`]: A binary representation of object file data
 //! - [`TextFormat`]: A text representation of object file data
 
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
+
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Write;
 
diff --git a/src/asm/encoding/kani_hooks.rs b/src/asm/encoding/kani_hooks.rs
new file mode 100644
index 0000000..3ce0056
--- /dev/null
+++ b/src/asm/encoding/kani_hooks.rs
@@ -0,0 +1,15 @@
+//! Access to private format helpers for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+
+/// Calls `take`.
+pub fn take_n<const N: usize>(data: &mut &[u8]) -> Option<[u8; N]> { take::<N>(data) }
+/// Calls `take_slice`.
+pub fn slice<'a>(data: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { take_slice(data, n) }
+/// Calls `map_chunks`.
+pub fn chunks<const N: usize>(data: &[u8]) -> Vec<[u8; N]> { map_chunks(data, |c| c) }
+/// Calls `assert_sorted_no_dup`.
+pub fn sorted_no_dup(data: &[u16]) -> Option<()> { assert_sorted_no_dup(data) }
+/// Calls `maybe_hex2u16`.
+pub fn maybe_hex(s: &str) -> Option<Option<u16>> { maybe_hex2u16(s) }
+/// Calls `count_digits`.
+pub fn digits(n: usize) -> usize { count_digits(n) }
diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 354425a..5a8a358 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -9,6 +9,11 @@
 
 use std::num::IntErrorKind;
 
+#[cfg(kani)]
+#[allow(missing_docs)]
+#[doc(hidden)]
+pub mod kani_hooks;
+
 use logos::{Lexer, Logos};
 
 /// A unit of information in LC3 source code.
diff --git a/src/parse/lex/kani_hooks.rs b/src/parse/lex/kani_hooks.rs
new file mode 100644
index 0000000..939301b
--- /dev/null
+++ b/src/parse/lex/kani_hooks.rs
@@ -0,0 +1,18 @@
+//! Access to private lexer items for proof harnesses (only compiled under `cfg(kani)`).
+use super::*;
+
+fn lexed<T>(s: &str, f: impl FnOnce(&Lexer<'_, Token>) -> T) -> T {
+    let mut lx = Token::lexer(s);
+    lx.bump(s.len());
+    f(&lx)
+}
+/// Calls `lex_unsigned_dec` on a token.
+pub fn unsigned_dec(s: &str) -> Result<u16, LexErr> { lexed(s, lex_unsigned_dec) }
+/// Calls `lex_signed_dec` on a token.
+pub fn signed_dec(s: &str) -> Result<i16, LexErr> { lexed(s, lex_signed_dec) }
+/// Calls `lex_unsigned_hex` on a token.
+pub fn unsigned_hex(s: &str) -> Result<u16, LexErr> { lexed(s, lex_unsigned_hex) }
+/// Calls `lex_signed_hex` on a token.
+pub fn signed_hex(s: &str) -> Result<i16, LexErr> { lexed(s, lex_signed_hex) }
+/// Calls `lex_reg` on a token.
+pub fn reg(s: &str) -> Result<u8, LexErr> { lexed(s, lex_reg) }
diff --git a/src/sim/kani_hooks.rs b/src/sim/kani_hooks.rs
index 5f3b4de..32e3034 100644
--- a/src/sim/kani_hooks.rs
+++ b/src/sim/kani_hooks.rs
@@ -113,3 +113,28 @@ fn step_stub(s: &mut Simulator) -> Result<(), StepBreak> {
         Err(Break::Err(e)) => Err(StepBreak::Err(e)),
     }
 }
+/// What `new_stub` does.
+pub static mut NEW: fn(SimFlags, MCR) -> Option<Simulator> = |_, _| None;
+/// Replaces `Simulator::new_with_mcr` by its contract (given in `NEW`).
+#[allow(dead_code)]
+fn new_stub(flags: SimFlags, mcr: MCR) -> Simulator {
+    // SAFETY: there is only one thread
+    let new = unsafe { NEW };
+    new(flags, mcr).unwrap()
+}
+/// Replaces the MCR.
+pub fn set_mcr(s: &mut Simulator, mcr: MCR) {
+    s.mcr = mcr;
+}
+/// The number of mapped internal registers and one of them.
+pub fn mapped(s: &Simulator) -> (usize, Option<(u16, InternalRegister)>) {
+    (s.ireg_mmap.len(), s.ireg_mmap.iter().next().map(|(a, r)| (*a, *r)))
+}
+/// The allocated blocks.
+pub fn alloca(s: &Simulator) -> &[(u16, u16)] {
+    &s.alloca
+}
+/// Ends an execution.
+pub fn set_paused(s: &mut Simulator, halt: bool) {
+    s.pause_condition = if halt { PauseCondition::Halt } else { PauseCondition::Breakpoint };
+}
diff --git a/src/sim/mem/kani_hooks.rs b/src/sim/mem/kani_hooks.rs
index f9af72c..3164aae 100644
--- a/src/sim/mem/kani_hooks.rs
+++ b/src/sim/mem/kani_hooks.rs
@@ -18,3 +18,8 @@ pub fn mem_unbacked() -> MemArray {
 pub fn regs(b: [Word; Reg::REG_SIZE]) -> RegFile {
     RegFile(b)
 }
+/// Creates a memory array with any contents (those of an allocation, which the verifier leaves open).
+pub fn mem_any() -> MemArray {
+    // SAFETY: any bits are words
+    MemArray(unsafe { Box::new_uninit().assume_init() })
+}
-- 
2.43.0

