From c1efba9b2d702e102c90c5e7a73e7d52dd172f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 1/8] fix: text_size_utf16 returns None for positions that are
 not in the text

A column past the end of its line, inside a surrogate pair or past the end of
the text was answered with an offset of another place, an offset past the end,
or an overflow. apply-changes then panicked or edited the wrong place.
---
 crates/text-pos/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..6b16be3 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -66,8 +66,10 @@ impl PositionDb {
   }
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
-    let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    let start = self.inner.offset(line_index::LineCol { line: pos.line, col: 0 })?;
+    let ret = start.checked_add(TextSize::from(pos.col))?;
+    // the column might be past the end of the line (or the text), or inside a character.
+    (self.position_utf8(ret)? == pos).then_some(ret)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
-- 
2.43.0


From 0fa1525a7085d857f4ada970942fb7057ffd9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 2/8] fix: Exited::is_empty says whether the node contains
 tokens

It compared token cursors, which lookahead moves over trivia, so a node without
tokens could claim to have some; and a node made by precede did not count the
tokens of the node it precedes. Count consumed tokens instead.
---
 crates/event-parse/src/lib.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..58394e2 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,15 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// the number of tokens consumed. unlike `tok_idx`, looking ahead never changes it.
+  consumed: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, consumed: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -62,7 +64,11 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered {
+      bomb: DropBomb::new("Entered markers must be exited"),
+      ev_idx,
+      consumed: self.consumed,
+    }
   }
 
   /// Abandons parsing a syntax construct.
@@ -89,7 +95,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited { ev_idx: en.ev_idx, consumed: en.consumed, is_empty: self.consumed == en.consumed }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -104,7 +110,9 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    // the new node starts where the preceded one does.
+    ret.consumed = ex.consumed;
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -142,7 +150,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, consumed: self.consumed, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -153,6 +161,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.consumed = save.consumed;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -210,6 +219,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.consumed += 1;
     ret
   }
 
@@ -336,7 +346,7 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  consumed: usize,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
@@ -358,6 +368,7 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  consumed: usize,
   is_empty: bool,
 }
 
@@ -374,6 +385,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  consumed: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From 52137e6d22b12e727c4ff6bbbb2ccc9f0b1378c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 3/8] fix: keep the trivia at the end of the input

Trailing trivia was only delivered when the last thing in the root was a node
or when nothing was left to skip: a root ending in a token, or an input of only
trivia, lost it.
---
 crates/event-parse/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 58394e2..3c1771a 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -286,6 +286,10 @@ where
           }
         }
         Event::Exit => {
+          // the trivia that is left belongs to the root.
+          if levels == 1 {
+            self.eat_trivia(&mut to_enter, sink);
+          }
           if to_enter.pop().is_none() {
             sink.exit();
           }
-- 
2.43.0


From 0797ca590dcba18f6a46d2305284222983b8e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 4/8] fix: the empty parse gets the outermost node

If the first node was preceded by another, the empty parse was given the inner
node's kind.
---
 crates/event-parse/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 3c1771a..b85d143 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -261,9 +261,6 @@ where
       match ev {
         Event::Enter(kind, mut parent) => {
           assert!(kinds.is_empty());
-          if fst.is_none() {
-            fst = Some(kind);
-          }
           kinds.push(kind);
           while let Some(p) = parent {
             match self.events[p].take() {
@@ -276,6 +273,10 @@ where
               ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
             }
           }
+          // the empty parse gets the outermost node.
+          if fst.is_none() {
+            fst = kinds.last().copied();
+          }
           for kind in kinds.drain(..).rev() {
             // keep as much trivia as possible outside of what we're entering.
             if levels != 0 {
-- 
2.43.0


From dd789a4d20e622003fdf2c2bcf69b0f6fe29b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 5/8] fix: allow preceding a node again after abandoning the
 first attempt

The loop in the documentation of Exited returns such a node to its caller, and
preceding it there panicked.
---
 crates/event-parse/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index b85d143..f875398 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -81,7 +81,9 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// On internal error.
   pub fn abandon(&mut self, mut en: Entered) {
     en.bomb.defuse();
-    assert!(self.events[en.ev_idx].is_none());
+    let ev = &mut self.events[en.ev_idx];
+    assert!(ev.is_none());
+    *ev = Some(Event::Abandoned);
   }
 
   /// Finishes parsing a syntax construct.
@@ -114,13 +116,12 @@ impl<'a, K, E> Parser<'a, K, E> {
     // the new node starts where the preceded one does.
     ret.consumed = ex.consumed;
     #[allow(clippy::match_on_vec_items)]
-    match self.events[ex.ev_idx] {
-      Some(Event::Enter(_, ref mut parent)) => {
-        assert!(parent.is_none());
-        *parent = Some(ret.ev_idx);
-      }
+    let old_parent = match self.events[ex.ev_idx] {
+      Some(Event::Enter(_, ref mut parent)) => parent.replace(ret.ev_idx),
       ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
-    }
+    };
+    // an abandoned attempt to precede this does not count.
+    assert!(old_parent.is_none_or(|p| matches!(self.events[p], Some(Event::Abandoned))));
     ret
   }
 
@@ -269,7 +270,7 @@ where
                 parent = new_parent;
               }
               // abandoned precede
-              None => break,
+              None | Some(Event::Abandoned) => break,
               ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
             }
           }
@@ -305,6 +306,7 @@ where
           self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);
         }
         Event::Error(expected) => sink.error(expected),
+        Event::Abandoned => {}
       }
     }
     assert_eq!(levels, 0);
@@ -417,6 +419,7 @@ enum Event<K, E> {
   Token,
   Exit,
   Error(E),
+  Abandoned,
 }
 
 impl<K, E> fmt::Debug for Event<K, E> {
@@ -426,6 +429,7 @@ impl<K, E> fmt::Debug for Event<K, E> {
       Event::Token => f.debug_tuple("Token").finish(),
       Event::Exit => f.debug_tuple("Exit").finish(),
       Event::Error(_) => f.debug_tuple("Error").finish(),
+      Event::Abandoned => f.debug_tuple("Abandoned").finish(),
     }
   }
 }
-- 
2.43.0


From 3b45f14a638918d5cb850dbf1f9037a1a8e0a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 6/8] fix: don't poll a finished iterator again in sep_seq

An iterator which is not fused may yield more after its first None. With
an empty one of these, the first thing written was a separator.
---
 crates/fmt-util/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/fmt-util/src/lib.rs b/crates/fmt-util/src/lib.rs
index 2e0935c..fb2afd3 100644
--- a/crates/fmt-util/src/lib.rs
+++ b/crates/fmt-util/src/lib.rs
@@ -12,9 +12,9 @@ where
   I: Iterator<Item = T>,
   T: fmt::Display,
 {
-  if let Some(x) = iter.next() {
-    x.fmt(f)?;
-  }
+  // don't ask a finished iterator for more: it may not be fused
+  let Some(x) = iter.next() else { return Ok(()) };
+  x.fmt(f)?;
   for x in iter {
     f.write_str(sep)?;
     x.fmt(f)?;
-- 
2.43.0


From 3fd33f46741958dc69d0bb4306e9485b2407280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 7/8] fix: display positions in the last line or column

Adding one to a line or column of u32::MAX overflowed.
---
 crates/text-pos/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index 6b16be3..d2ac1e8 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -163,10 +163,15 @@ pub struct PositionUtf16 {
 
 impl fmt::Display for PositionUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    write!(f, "{}:{}", self.line + 1, self.col + 1)
+    write!(f, "{}:{}", one_based(self.line), one_based(self.col))
   }
 }
 
+/// Converts a zero-based number to a one-based number for display, which may not fit in a `u32`.
+fn one_based(n: u32) -> u64 {
+  u64::from(n) + 1
+}
+
 /// A pair of start and end positions for UTF-16.
 ///
 /// `start` comes before `end`.
@@ -189,7 +194,7 @@ impl RangeUtf16 {
 impl fmt::Display for RangeUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     if self.start.line == self.end.line {
-      write!(f, "{}-{}", self.start, self.end.col + 1)
+      write!(f, "{}-{}", self.start, one_based(self.end.col))
     } else {
       write!(f, "{}-{}", self.start, self.end)
     }
-- 
2.43.0


From a47b1d34589e700efaf7daa20b4e19434c676cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:16 +0000
Subject: [PATCH 8/8] fix: generate compilable code when a language has no
 trivia

---
 crates/syntax-gen/src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax-gen/src/kind.rs b/crates/syntax-gen/src/kind.rs
index 7fe94c6..504f1d7 100644
--- a/crates/syntax-gen/src/kind.rs
+++ b/crates/syntax-gen/src/kind.rs
@@ -119,7 +119,7 @@ pub(crate) fn get(
 
     impl token::Triviable for SyntaxKind {
       fn is_trivia(&self) -> bool {
-        matches!(*self, #(#self_trivia)|*)
+        [#(#self_trivia),*].contains(self)
       }
     }
 
-- 
2.43.0

