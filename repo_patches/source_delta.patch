From 667f4236e1db75c4b5d071ff1020259ecf3ebd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 01/24] fix: reject JMP encodings whose bit 11 is set

The must-be-zero field of JMP is bits 9..12, but decode only checked 9..11,
so xC800-xCFC0 decoded as JMP and re-encoded to a different word.
---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From 28f089ff9d66925e2ca1b25984f478b6d6139e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 02/24] fix: lexing a string literal must not panic on a
 trailing backslash or a non-ASCII escape

A backslash as the last character of a line hit an unreachable!(), and a
non-ASCII character after a backslash was sliced in the middle.
---
 src/parse/lex.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..d88719d 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -263,23 +263,25 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         match mid {
             "\\" => {
                 // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
+                let mut right_chars = right.chars();
+                let Some(esc) = right_chars.next() else {
+                    // There is no character left on this line to escape (so the literal isn't closed).
+                    break;
+                };
                 match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                    'n'  => buf.push('\n'),
+                    'r'  => buf.push('\r'),
+                    't'  => buf.push('\t'),
+                    '\\' => buf.push('\\'),
+                    '0'  => buf.push('\0'),
+                    '"'  => buf.push('\"'),
+                    c => {
                         buf.push('\\');
-                        buf.push(char::from(c));
+                        buf.push(c);
                     }
                 }
                 
-                remaining = &right[1..];
+                remaining = right_chars.as_str();
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From c5738bdb51b4e1035f24ad595453578963c7fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 03/24] fix: look up label sources ignoring case, like label
 addresses

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..232f2f7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -794,7 +794,7 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
+        self.label_map.get(&label.to_uppercase())
             .map(|data| data.span(label))
     }
 
-- 
2.43.0


From 214b01933d1a48ea489e3a8d2bf7fa91b68acc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/24] fix: do not map the line of a .external inside a block
 to an address

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 232f2f7..9c41a58 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -677,7 +677,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From 38f840a58a87cc693b0da089dab0ce0e04efd94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 05/24] fix: span of the first label in a duplicate label error
 is the label's as written

---
 src/asm.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9c41a58..ff3e501 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -596,6 +596,7 @@ impl SymbolTable {
 
         fn add_label(
             labels: &mut HashMap<String, SymbolData>, 
+            spans: &mut HashMap<String, Span>,
             label: &crate::ast::Label, 
             addr: u16,
             external: bool
@@ -603,7 +604,7 @@ impl SymbolTable {
             match labels.entry(label.name.to_uppercase()) {
                 // Two labels with different addresses. Conflict.
                 Entry::Occupied(e) if e.get().addr != addr => {
-                    let span1 = e.get().span(e.key());
+                    let span1 = spans[e.key()].clone();
                     let span2 = label.span();
                     Err(AsmErr::new(AsmErrKind::OverlappingLabels, [span1, span2]))
                 },
@@ -611,6 +612,7 @@ impl SymbolTable {
                 Entry::Occupied(_) => Ok(()),
                 // New label.
                 Entry::Vacant(e) => {
+                    spans.insert(e.key().clone(), label.span());
                     e.insert(SymbolData { addr, src_start: label.span().start, external });
                     Ok(())
                 }
@@ -619,6 +621,9 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
+        // The spans of the labels as they were written (for diagnostics).
+        // Uppercasing can change the length of a label, so its key does not give its span.
+        let mut label_spans: HashMap<String, Span> = HashMap::new();
         let mut rel_map = HashMap::new();
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
@@ -640,7 +645,7 @@ impl SymbolTable {
 
                 // Add labels
                 for label in &stmt.labels {
-                    add_label(&mut label_map, label, cur.lc, false)?;
+                    add_label(&mut label_map, &mut label_spans, label, cur.lc, false)?;
                 }
             }
 
@@ -656,7 +661,7 @@ impl SymbolTable {
                 },
                 StmtKind::Directive(Directive::External(label)) => {
                     // Arbitrarily chose 0 as a placeholder for externals
-                    add_label(&mut label_map, label, 0, true)?;
+                    add_label(&mut label_map, &mut label_spans, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
                     let label_text = label.name.to_uppercase();
-- 
2.43.0


From 94154e58f987cb4e511ccd5849b8d65dbaf49426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 06/24] fix: overlap errors from linking carry a span, so that
 it can be queried

---
 src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index ff3e501..dbeeaca 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1211,9 +1211,10 @@ impl ObjectFile {
     pub fn link(mut a_obj: Self, b_obj: Self) -> Result<Self, AsmErr> {
         let Self { block_map: b_block_map, sym: b_sym } = b_obj;
 
+        // TODO: object files do not hold the spans of their blocks, so overlap errors point to an empty span.
         for (addr, block) in b_block_map {
             if a_obj.block_map.insert(addr, block).is_some() {
-                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0));
             }
         }
 
@@ -1225,7 +1226,7 @@ impl ObjectFile {
             let br = b_st .. (b_st + b_bl.len() as u16);
             ranges_overlap(ar, br)
         }) {
-            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0));
         }
 
         // Merge symbol tables:
-- 
2.43.0


From 8d04e442f58326248dac54456b093c5adb1d3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 07/24] fix: position of an index past the end of the source is
 on the last line

---
 src/asm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index dbeeaca..8636c40 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -404,8 +404,11 @@ impl SourceInfo {
     }
 
     /// Gets the line number of the current position.
+    /// 
+    /// If the index exceeds the length of the string, this is the last line.
     fn get_line(&self, index: usize) -> usize {
         self.nl_indices.partition_point(|&start| start < index)
+            .min(self.count_lines() - 1)
     }
 
     /// Calculates the line and character number for a given character index.
-- 
2.43.0


From 2b297c0d59656437f99856bb7e97b5f5bc34f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 08/24] fix: linking shifts the label positions of the second
 file with its source

---
 src/asm.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 8636c40..9d655d9 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1238,6 +1238,12 @@ impl ObjectFile {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
                 let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+
+                // B's source is placed after A's source and a new line.
+                let b_src_offset = match (&a_sym.debug_symbols, &b_debug_symbols) {
+                    (Some(ads), Some(_)) => ads.src_info.source().len() + 1,
+                    _ => 0
+                };
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
                     (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
                     (m_ads, b_ads) => m_ads.or(b_ads)
@@ -1247,7 +1253,9 @@ impl ObjectFile {
                 a_sym.rel_map.extend(rel_map);
 
                 // For every label in symbol table B:
-                for (label, b_sym_data) in label_map {
+                for (label, mut b_sym_data) in label_map {
+                    b_sym_data.src_start = b_sym_data.src_start.saturating_add(b_src_offset);
+
                     match a_sym.label_map.entry(label) {
                         Entry::Occupied(mut e) => {
                             let &a_sym_data = e.get();
-- 
2.43.0


From 1a2e0366d8de96192c3be9274939458de8018853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 09/24] fix: record relocations of external labels declared
 after their use

---
 src/asm.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9d655d9..a9fc8e2 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -667,14 +667,11 @@ impl SymbolTable {
                     add_label(&mut label_map, &mut label_spans, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
-                    let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
-                            return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
+                    let Some(cur) = cursor.as_ref() else {
+                        return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
+                    };
 
-                        rel_map.insert(cur.lc, label_text);
-                    }
+                    rel_map.insert(cur.lc, label.name.to_uppercase());
                 },
                 _ => {}
             };
@@ -702,6 +699,10 @@ impl SymbolTable {
         if let Some(cur) = cursor {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
+
+        // Only references to external labels need relocating.
+        // This can only be determined now, because labels can be declared external after they are used.
+        rel_map.retain(|_, label| label_map.get(label).is_some_and(|data| data.external));
         
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
-- 
2.43.0


From 5ed3dc4ed7c6d5fcfafd382eab0a89422ecd7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 10/24] fix: files with external references keep their symbol
 table without debug symbols

---
 src/asm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index a9fc8e2..0a2a83e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -509,7 +509,7 @@ impl DebugSymbols {
 /// Without debug symbols, the symbol table only consists of mappings from labels to spans (and vice-versa).
 /// These are used to translate labels in source code to addresses during the assembly process.
 /// After the completion of this assembly process, the [`SymbolTable`] is dropped and is not part of the resultant
-/// [`ObjectFile`].
+/// [`ObjectFile`] (unless the object file refers to external labels, in which case it's required to link the file).
 /// 
 /// However, with debug symbols, this information persists in the resultant [`ObjectFile`], allowing
 /// the label mappings to be accessed during simulation time. Additionally, more information from the source
@@ -1189,9 +1189,13 @@ impl ObjectFile {
         let block_map = block_map.into_iter()
             .map(|(start, ObjBlock { words, .. })| (start, words))
             .collect();
+        
+        // Without the symbol table, references to external labels could never be resolved 
+        // (or even be recognized as unresolved).
+        let keep_sym = debug || !sym.rel_map.is_empty();
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            sym: keep_sym.then_some(sym),
         })
     }
 
-- 
2.43.0


From 9f3ece5af9107530ec2a2f9d3f40d4a971613ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 11/24] fix: binary format writes relocation addresses in the
 byte order they are read

---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From a0799d54ac46e23211d8d15852c5c1d4d6f1a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 12/24] fix: text format reads a .DEBUG section without a line
 table, as it is written

---
 src/asm/encoding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..553d1b2 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -506,7 +506,12 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, line_src) = rest.split_at(split_pos);
+                    // If there is only one divider, there is no line table (because there are no debug symbols).
+                    let line_src = match line_src {
+                        [_, line_src @ .., _] => line_src,
+                        _ => &[],
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From 69c3914a703d5a320ecaeef9946b9f137b4818c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 13/24] fix: text format can write labels longer than 65535
 bytes

---
 src/asm/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 553d1b2..66f5145 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -365,6 +365,8 @@ impl ObjFileFormat for TextFormat {
                             (LABEL.len(), INDEX.len()), 
                             |(lc, ic), (lx, ix)| (lc.max(lx), ic.max(ix))
                         );
+                    // Formatting does not support widths above u16::MAX
+                    let label_col = label_col.min(usize::from(u16::MAX));
 
                     // Display!
                     writeln!(buf, "{LABEL:1$}{0}{INDEX:2$}", TABLE_DIV, label_col, index_col)?;
-- 
2.43.0


From c2392f1a978c3f351e3fe01f0438eb7e896080b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 14/24] fix: linking does not overflow on blocks reaching the
 end of memory

---
 src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 0a2a83e..c7581c4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1230,8 +1230,9 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            // In usize, as blocks may end at (or, in malformed files, go past) xFFFF.
+            let ar = usize::from(a_st) .. (usize::from(a_st) + a_bl.len());
+            let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0));
-- 
2.43.0


From 39eb7f576175d859edf0e2dbba16a40cf2c3a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 15/24] fix: linking does not panic on relocations outside of
 the file's blocks

---
 src/asm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index c7581c4..1431faa 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1312,11 +1312,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // The address is not in the block map only if the object file read was malformed.
+            // In this case, there is no word to relocate.
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
-- 
2.43.0


From 83e9e26a56b537b3b71c954b651c1702531ccdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 16/24] fix: reading and linking line tables does not overflow
 on huge line numbers

---
 src/asm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 1431faa..b7b8d56 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -251,10 +251,12 @@ impl LineSymbolMap {
         // Check not overlapping:
         let not_overlapping = bl.windows(2).all(|win| {
             let [(ls, lb), (rs, _)] = win else { unreachable!() };
-            ls + lb.len() <= *rs
+            ls.checked_add(lb.len()).is_some_and(|le| le <= *rs)
         });
+        // Check that line numbers fit (blocks before the last are covered by the previous check):
+        let in_range = bl.last().is_none_or(|(l, b)| l.checked_add(b.len()).is_some());
 
-        match not_overlapping {
+        match not_overlapping && in_range {
             true => {
                 // Check every individual block is sorted:
                 let sorted = bl.iter().all(|(_, lb)| {
@@ -476,8 +478,10 @@ impl DebugSymbols {
         let lines = a.src_info.count_lines();
 
         // B doesn't overlap with A because ObjectFile check
+        // Line numbers which do not fit once shifted aren't in B's source, so they're dropped.
         a.line_map.0.extend({
             b.line_map.0.into_iter()
+                .filter(|(k, v)| lines.checked_add(*k).and_then(|k| k.checked_add(v.len())).is_some())
                 .map(|(k, v)| (k + lines, v))
         });
 
-- 
2.43.0


From 7dea81f18a3fb393e12baac1fa2f960bd230638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 17/24] fix: span of a label at a huge source index does not
 overflow

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index b7b8d56..5c4d88b 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -448,7 +448,7 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
-- 
2.43.0


From 7bed12bca89c4eb3817a1740194ea7d524478908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 18/24] fix: prefetch_pc wraps when the PC has wrapped to x0000

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..e8cd776 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1037,7 +1037,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From 36f07a8a7ae3a7439e836152ec1c1d6f7925e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 19/24] fix: device interrupts at vectors x00-x02 are not
 virtual exceptions

---
 src/sim.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index e8cd776..1adcbd6 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1120,7 +1120,9 @@ impl Simulator {
         // Virtual traps.
         // See the flag for documentation.
         // Virtual HALT
-        if !self.flags.use_real_traps {
+        //
+        // (A device interrupt, which has a priority, is never one of these.)
+        if !self.flags.use_real_traps && priority.is_none() {
             if let Ok(intv) = RealIntVect::try_from(vect) {
                 if !self.prefetch {
                     // decrement PC so that if play is pressed again, it goes back here
-- 
2.43.0


From eec63e6691f311a66633c8a7072badf73dd697d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 20/24] fix: strict mode's check of a jump target does not
 access it

---
 src/sim.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 1adcbd6..4307955 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1018,8 +1018,12 @@ impl Simulator {
     fn set_pc(&mut self, addr_word: Word, st_check_mem: bool) -> Result<(), SimErr> {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
-            // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // Check next memory value is initialized.
+            //
+            // This only looks at memory: it must not access IO, be recorded by the observer,
+            // or raise access violations, since the address is not being read (yet).
+            // IO is left to the next fetch, as IO values are not known until they are read.
+            if addr < IO_START && !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From f9f843984bde8dae5731ffbfe08c8657e7595776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 21/24] fix: a write rejected by strict mode is not recorded as
 an access

---
 src/sim.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 4307955..aeeecd4 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -876,16 +876,18 @@ impl Simulator {
 
         // Duplicate write in mem array:
         if success {
+            let modified = self.mem[addr] != data;
+
+            self.mem[addr]
+                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
+
             if ctx.track_access {
-                // Update memory observer:
+                // Update memory observer (only once the write has occurred):
                 self.observer.update_mem_accesses(addr, AccessSet::WRITTEN);
-                if self.mem[addr] != data {
+                if modified {
                     self.observer.update_mem_accesses(addr, AccessSet::MODIFIED);
                 }
             }
-
-            self.mem[addr]
-                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
         }
 
         Ok(())
-- 
2.43.0


From 1d97b9b9ea89c528ccede72cf0e0c98b2204dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 22/24] fix: deliver keyboard and display bytes once when their
 buffer is in use

---
 src/sim.rs                 |  7 +++++
 src/sim/device.rs          |  7 +++++
 src/sim/device/display.rs  | 47 +++++++++++++++++++++++----------
 src/sim/device/keyboard.rs | 53 ++++++++++++++++++++++++++++++--------
 4 files changed, 90 insertions(+), 24 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index aeeecd4..c3be740 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1251,6 +1251,13 @@ impl Simulator {
     fn _step_inner(&mut self) -> Result<(), StepBreak> {
         self.prefetch = true;
 
+        // The display's buffer is in use, so the last byte of output cannot be put in it yet:
+        // wait for it (as if by an instruction that does nothing).
+        if self.device_handler.output_pending() {
+            self.instructions_run = self.instructions_run.wrapping_add(1);
+            return Ok(());
+        }
+
         if let Some(int) = self.device_handler.poll_interrupt() {
             match int.kind {
                 // If priority passes, handle interrupt then skip FETCH:
diff --git a/src/sim/device.rs b/src/sim/device.rs
index a638b28..c5503d2 100644
--- a/src/sim/device.rs
+++ b/src/sim/device.rs
@@ -126,6 +126,13 @@ impl DeviceHandler {
     pub fn set_keyboard(&mut self, kb: impl ExternalDevice) {
         self.devices[Self::KB_DEV as usize] = kb._to_sim_device(internals::ToSimDeviceToken(()));
     }
+    /// Whether the display accepted output which cannot be delivered yet.
+    pub(super) fn output_pending(&mut self) -> bool {
+        match &mut self.devices[Self::DS_DEV as usize] {
+            internals::SimDevice::Display(ds) => !ds.flush(),
+            _ => false
+        }
+    }
     /// Set the display device.
     pub fn set_display(&mut self, ds: impl ExternalDevice) {
         self.devices[Self::DS_DEV as usize] = ds._to_sim_device(internals::ToSimDeviceToken(()));
diff --git a/src/sim/device/display.rs b/src/sim/device/display.rs
index 3723615..a753122 100644
--- a/src/sim/device/display.rs
+++ b/src/sim/device/display.rs
@@ -5,7 +5,7 @@ use super::{DevWrapper, ExternalDevice, Interrupt, DDR, DSR};
 /// Scaffolding required to implement [`ExternalDevice`] for display devices.
 trait DisplayDevice: Send + Sync + 'static {
     /// Whether the display is ready to take output.
-    fn ready(&self) -> bool;
+    fn ready(&mut self) -> bool;
     /// Sends output, returns whether the output was successfully accepted.
     fn send_output(&mut self, byte: u8) -> bool;
 
@@ -37,14 +37,16 @@ impl<D: DisplayDevice> ExternalDevice for DevWrapper<D, dyn DisplayDevice> {
 }
 
 /// A display that delegates its output to a buffer.
-#[derive(Default, Clone)]
+#[derive(Default)]
 pub struct BufferedDisplay {
-    buffer: Arc<RwLock<Vec<u8>>>
+    buffer: Arc<RwLock<Vec<u8>>>,
+    /// A byte that was accepted while the buffer was in use, and which has yet to be put in it.
+    pending: Option<u8>
 }
 impl BufferedDisplay {
     /// Creates a new display, wrapping it around a given buffer.
     pub fn new(buffer: Arc<RwLock<Vec<u8>>>) -> Self {
-        Self { buffer }
+        Self { buffer, pending: None }
     }
 
     /// Gets a reference to the internal buffer of this display.
@@ -59,23 +61,42 @@ impl BufferedDisplay {
             Err(TryLockError::WouldBlock) => None,
         }
     }
+
+    /// Puts any pending byte in the buffer.
+    /// 
+    /// Returns whether the buffer is up to date, which it is not if it is in use and a byte is pending.
+    pub(super) fn flush(&mut self) -> bool {
+        self.pending.is_none() || self.ready()
+    }
+}
+impl Clone for BufferedDisplay {
+    fn clone(&self) -> Self {
+        // A pending byte is only delivered once.
+        Self::new(Arc::clone(&self.buffer))
+    }
 }
 impl DisplayDevice for BufferedDisplay {
-    fn ready(&self) -> bool {
-        self.try_output().is_some()
+    fn ready(&mut self) -> bool {
+        let pending = self.pending.take();
+        let Some(mut d) = self.try_output() else {
+            self.pending = pending;
+            return false;
+        };
+        d.extend(pending);
+        true
     }
 
     fn send_output(&mut self, byte: u8) -> bool {
-        match self.try_output() {
-            Some(mut d) => {
-                d.push(byte);
-                true
-            },
-            None => false,
-        }
+        if !self.flush() { return false };
+
+        self.pending.replace(byte);
+        // If the buffer came to be in use since the display was ready, the byte stays pending.
+        self.flush();
+        true
     }
     
     fn clear_output(&mut self) {
+        self.pending = None;
         if let Some(mut out) = self.try_output() {
             out.clear();
         }
diff --git a/src/sim/device/keyboard.rs b/src/sim/device/keyboard.rs
index 7a5a491..b24bfc3 100644
--- a/src/sim/device/keyboard.rs
+++ b/src/sim/device/keyboard.rs
@@ -11,9 +11,9 @@ trait KeyboardDevice: Send + Sync + 'static {
     fn set_interrupts_enabled(&mut self, value: bool);
 
     /// Whether the keyboard has input to take.
-    fn ready(&self) -> bool;
+    fn ready(&mut self) -> bool;
     /// Reads a character from the input (but does not take it).
-    fn get_input(&self) -> Option<u8>;
+    fn get_input(&mut self) -> Option<u8>;
     /// Reads and removes a character from the input.
     fn pop_input(&mut self) -> Option<u8>;
     /// Clears the input completely.
@@ -57,15 +57,21 @@ impl<K: KeyboardDevice> ExternalDevice for DevWrapper<K, dyn KeyboardDevice> {
 }
 
 /// Keyboard that accesses input from a memory buffer.
-#[derive(Default, Clone)]
+#[derive(Default)]
 pub struct BufferedKeyboard {
     buffer: Arc<RwLock<VecDeque<u8>>>,
-    interrupts_enabled: bool
+    interrupts_enabled: bool,
+    /// The character at the front of the buffer as of the last access.
+    /// 
+    /// This is what is read if the buffer comes to be in use after the keyboard was found to be ready.
+    front: Option<u8>,
+    /// Whether `front` was taken while the buffer was in use, so that it has yet to be removed from it.
+    taken: bool
 }
 impl BufferedKeyboard {
     /// Creates a new keyboard, wrapping it around a given buffer.
     pub fn new(buffer: Arc<RwLock<VecDeque<u8>>>) -> Self {
-        Self { buffer, interrupts_enabled: false }
+        Self { buffer, interrupts_enabled: false, front: None, taken: false }
     }
 
     /// Gets a reference to the internal buffer of this keyboard.
@@ -80,6 +86,26 @@ impl BufferedKeyboard {
             Err(TryLockError::WouldBlock) => None,
         }
     }
+
+    /// Updates `front` (and the buffer, if `front` was taken).
+    /// 
+    /// Returns whether this was possible, which it is not if the buffer is in use.
+    fn sync(&mut self) -> bool {
+        let Some(mut buf) = self.try_input() else { return false };
+        if self.taken { buf.pop_front(); }
+        let front = buf.front().copied();
+        drop(buf);
+
+        self.taken = false;
+        self.front = front;
+        true
+    }
+}
+impl Clone for BufferedKeyboard {
+    fn clone(&self) -> Self {
+        // A taken character is only removed once.
+        Self { interrupts_enabled: self.interrupts_enabled, ..Self::new(Arc::clone(&self.buffer)) }
+    }
 }
 impl KeyboardDevice for BufferedKeyboard {
     fn interrupts_enabled(&self) -> bool {
@@ -90,22 +116,27 @@ impl KeyboardDevice for BufferedKeyboard {
         self.interrupts_enabled = value;
     }
 
-    fn ready(&self) -> bool {
-        self.try_input().is_some_and(|buf| !buf.is_empty())
+    fn ready(&mut self) -> bool {
+        self.sync() && self.front.is_some()
     }
 
-    fn get_input(&self) -> Option<u8> {
-        self.try_input()?.front().copied()
+    fn get_input(&mut self) -> Option<u8> {
+        self.sync();
+        self.front.filter(|_| !self.taken)
     }
 
     fn pop_input(&mut self) -> Option<u8> {
-        self.try_input()?.pop_front()
+        let input = self.get_input()?;
+        self.taken = true;
+        self.sync();
+        Some(input)
     }
     
     fn clear_input(&mut self) {
         if let Some(mut inp) = self.try_input() {
             inp.clear();
-        }
+        };
+        self.sync();
     }
 }
 impl ExternalDevice for BufferedKeyboard {
-- 
2.43.0


From 70f87d823bd73ec11437cf7e41e9a169fddf920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 23/24] fix: a timer interval of 0 triggers the interrupt at
 once

---
 src/sim/device/timer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..7452680 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,8 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                // An interval of 0: the interrupt is triggered by this poll.
+                (self.time == 0).then(|| super::Interrupt::vectored(self.vect, self.priority))
             },
             1 => {
                 self.time = 0;
-- 
2.43.0


From 39644464be18c9b68ae16e592d643f816b07e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 24/24] fix: give label sources the length of the label as
 written

---
 src/asm.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 5c4d88b..3460a6d 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -807,8 +807,20 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(&label.to_uppercase())
-            .map(|data| data.span(label))
+        let key = label.to_uppercase();
+        let data = self.label_map.get(&key)?;
+
+        // Two spellings of a label can differ in length (e.g., Ⱥ and ⱥ),
+        // so if the source is known, use the spelling that is written there.
+        let written = self.source_info()
+            .and_then(|info| info.source().get(data.src_start..))
+            .and_then(|src| {
+                src.char_indices()
+                    .take(key.chars().count())
+                    .map(|(i, c)| &src[..i + c.len_utf8()])
+                    .find(|text| text.to_uppercase() == key)
+            });
+        Some(data.span(written.unwrap_or(label)))
     }
 
     /// Gets the address of a given source line.
-- 
2.43.0

