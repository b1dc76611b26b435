From b518775ea789b150a89e1fc19b5a5c953e59c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:39 +0000
Subject: [PATCH 01/99] fix: line-start search stops at the right line when it
 starts on a newline or at end of data

find_start() returned the position after the newline it was called on, so a
binary search that narrowed down to a single empty line never made progress,
and indexed out of bounds when called with start == data.len().
---
 src/binsearch.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..ab21dc8 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -88,12 +88,9 @@ pub const fn find_end(data: &[u8], mut start: usize) -> usize {
 /// that is, starting in the middle of a line, find the start of it
 #[must_use]
 pub const fn find_start(data: &[u8], mut start: usize) -> usize {
-    while (start > 0) && (data[start] != b'\n') {
+    while (start > 0) && (data[start - 1] != b'\n') {
         start -= 1;
     }
-    if data[start] == b'\n' {
-        start += 1;
-    }
     start
 }
 
@@ -107,7 +104,7 @@ pub const fn find_prev(data: &[u8], start: usize) -> usize {
     if data[start - 1] != b'\n' {
         return find_start(data, start);
     }
-    find_start(data, start - 2)
+    find_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
-- 
2.43.0


From 3b8734bed1383c1e0e4ef273906f46ad9e393645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:40 +0000
Subject: [PATCH 02/99] fix: binsearch accepts its documented --sub-delim
 option instead of panicking

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..d006e4f 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From e318eabdaaaca24bcb65f11862d6c7e43975beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 03/99] fix: binsearch searches only the data lines, not the
 CDX header

The header line was treated as part of the sorted data, so lines that sort
before it (negative numbers, reversed keys) were not found.
---
 src/bin/cdx/binsearch_main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index d006e4f..385dabd 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -156,26 +156,32 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
-        let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
+        // the header line is not part of the sorted data
+        let data = if m.has_header() {
+            &m.get()[m.header().len()..]
+        } else {
+            m.get()
+        };
+        let (mut start, mut stop) = equal_range_n(data, &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
             if start == 0 {
                 break;
             }
-            start = find_prev(m.get(), start);
+            start = find_prev(data, start);
         }
         for _x in 0..after {
-            stop = find_end(m.get(), stop);
+            stop = find_end(data, stop);
         }
         if filename.is_none() {
-            write_all_nl(&mut w.0, &m.get()[start..stop])?;
+            write_all_nl(&mut w.0, &data[start..stop])?;
         } else {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
-                let end = find_end(m.get(), start);
+                let end = find_end(data, start);
                 w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 w.write_all(&[b'\t'])?;
-                write_all_nl(&mut w.0, &m.get()[start..end])?;
+                write_all_nl(&mut w.0, &data[start..end])?;
                 start = end;
             }
         }
-- 
2.43.0


From 66421431acc4a8a3b4d451278a3293861e6a621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:48 +0000
Subject: [PATCH 04/99] fix: reversed sort keys are reversed once, also when
 the cached prefixes tie

LineComp::comp_items reversed the result of comp_lines, which is already
reversed, so lines whose keys share the cached prefix sorted forwards.
---
 src/comp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..8c65158 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            self.comp
+                .comp_lines(left.get(base), right.get(base), self.delim, 0, 0)
         };
         self.reverse(x)
     }
-- 
2.43.0


From 4f715b4a31e0db3a4aeb3c607cab667bec86cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:51 +0000
Subject: [PATCH 05/99] fix: whole-line sort keys are cached from the line, not
 from the whole buffer

With a whole-line key the cache of every line was computed from the start of
the sort buffer, so e.g. a whole-line sort by length or float saw all lines
as equal.
---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8c65158..8935486 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -445,7 +445,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From 552179890dd6a3afdffb49c0d6c75b4d7e892e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:53 +0000
Subject: [PATCH 06/99] fix: numeric sort keys order by num_cmp_signed alone

The cached f64 disagrees with num_cmp_signed (thousands separators, leading
blanks, suffixes, more than 15 digits), so lines were sorted out of order.
---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8935486..cc83540 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1656,8 +1656,10 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        // an f64 does not order exactly as num_cmp_signed does
+        item.cache = 0;
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From afdf597b8740dad52ba552298e1cc732aa720e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:56 +0000
Subject: [PATCH 07/99] fix: keys that differ only in trailing NUL bytes are
 not equal

The eight byte sort cache is padded with NUL, so 'a' and 'a<NUL>' had the same
complete cache and sort -u dropped one of them.
---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index cc83540..ddc7e51 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1588,7 +1588,8 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        // the cache is padded with NUL, so it does not hold a trailing NUL
+        item.assign_complete(value.len() <= 8 && value.last() != Some(&0));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1614,7 +1615,8 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        // the cache is padded with NUL, so it does not hold a trailing NUL
+        item.assign_complete(value.len() <= 8 && value.last() != Some(&0));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From 2ddc3262650394eb586c975b2285a4bd3dd23e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 08/99] fix: -0 and 0 get the same sort cache, as they compare
 equal

---
 src/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..f59e1ef 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -116,6 +116,9 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    if d == 0.0 {
+        return 0x8000_0000_0000_0000_u64; // -0.0 and 0.0 are equal
+    }
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From cd4039385ee317ad5c290c74a0de40f246b2115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 09/99] fix: numeric comparison orders by value (5 < 5.1, 5.10
 = 5.1, -0 = 0)

---
 src/comp.rs | 62 +++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index ddc7e51..ed92eab 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -648,36 +648,35 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
+/// skip a decimal point; anything else means there is no fraction
+fn skip_point(a: &[u8]) -> &[u8] {
+    if !a.is_empty() && a[0] == b'.' {
+        &a[1..]
+    } else {
+        &a[..0]
+    }
+}
+
+/// does `a` start with digits that are not all zero
+fn has_nonzero(mut a: &[u8]) -> bool {
+    while !a.is_empty() && a[0] == b'0' {
+        a = &a[1..];
+    }
+    !a.is_empty() && a[0].is_ascii_digit()
+}
+
 fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
+    a = skip_point(a);
+    b = skip_point(b);
     while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
         a = &a[1..];
         b = &b[1..];
     }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
-        } else {
-            Ordering::Less
-        }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
-        } else {
-            Ordering::Equal
-        }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
-        }
-    } else if b[0].is_ascii_digit() {
+    if !a.is_empty() && !b.is_empty() && a[0].is_ascii_digit() && b[0].is_ascii_digit() {
+        a[0].cmp(&b[0])
+    } else if has_nonzero(a) {
+        Ordering::Greater
+    } else if has_nonzero(b) {
         Ordering::Less
     } else {
         Ordering::Equal
@@ -700,15 +699,12 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         if b[0].is_ascii_digit() {
             return Ordering::Less;
         }
-        return Ordering::Equal;
+        return frac_cmp(a, b);
     }
     if b.is_empty() {
         if a[0].is_ascii_digit() {
             return Ordering::Greater;
         }
-        return Ordering::Equal;
-    }
-    if a[0] == b'.' && b[0] == b'.' {
         return frac_cmp(a, b);
     }
     let tmp = a[0].cmp(&b[0]);
@@ -731,7 +727,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         return log_a.cmp(&log_b);
     }
     if log_a == 0 {
-        return Ordering::Equal;
+        return frac_cmp(a, b);
     }
     tmp
 }
@@ -754,6 +750,12 @@ fn num_cmp_signed(mut a: &[u8], mut b: &[u8]) -> Ordering {
         false
     };
 
+    if left_minus != right_minus
+        && num_cmp_unsigned(a, b"0") == Ordering::Equal
+        && num_cmp_unsigned(b, b"0") == Ordering::Equal
+    {
+        return Ordering::Equal; // -0 is 0
+    }
     if left_minus {
         if right_minus {
             return num_cmp_unsigned(b, a);
-- 
2.43.0


From baa8ec60ae45fb97962edfee4368c6d182a90a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:15 +0000
Subject: [PATCH 10/99] fix: numeric comparison counts digits in usize

---
 src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index ed92eab..300d8e1 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -709,14 +709,14 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
     }
     let tmp = a[0].cmp(&b[0]);
 
-    let mut log_a = 0;
+    let mut log_a = 0_usize;
     while !a.is_empty() && a[0].is_ascii_digit() {
         log_a += 1;
         a = &a[1..];
         a = skip_comma(a);
     }
 
-    let mut log_b = 0;
+    let mut log_b = 0_usize;
     while !b.is_empty() && b[0].is_ascii_digit() {
         log_b += 1;
         b = &b[1..];
-- 
2.43.0


From 3652ece15daa1f7ff0906a241e8d827f52ece77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 11/99] fix: the rev modifier also reverses value comparisons

---
 src/comp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 300d8e1..686558a 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -153,14 +153,22 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            reverse: false, // the LineComp does the reversing
             comp: Box::new(ComparePlain::new()),
         }
     }
+    /// reverse the ordering if self.reverse is set
+    const fn reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
+    }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        self.reverse(self.comp.comp(left, right))
     }
     /// Compare two slices for equality
     #[must_use]
@@ -178,7 +186,7 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        self.reverse(self.comp.comp_self(right))
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From 4b0e2e3bdf64800e1df8e5075d0329b04caff0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 12/99] fix: floating point text is read as the nearest double,
 without overflow panic or NaN

---
 src/text.rs | 60 ++++++++---------------------------------------------
 1 file changed, 9 insertions(+), 51 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..ae5ed6a 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -673,83 +673,41 @@ impl Text for [u8] {
         (ret, curr)
     }
     fn to_f64(&self) -> (f64, &Self) {
-        let mut neg: f64 = 1.0;
         let mut curr = self;
         if curr.is_empty() {
             return (0.0, self);
         }
-        if curr[0] == b'+' {
+        if curr[0] == b'+' || curr[0] == b'-' {
             curr = &curr[1..];
-        } else if curr[0] == b'-' {
-            curr = &curr[1..];
-            neg = -1.0;
         }
-        let mut ret: f64 = 0.0;
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10.0;
-            ret += f64::from(curr[0] - b'0');
             curr = &curr[1..];
         }
         if !curr.is_empty() && (curr[0] == b'.') {
             curr = &curr[1..];
-            let mut place = 0.1;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                ret += place * f64::from(curr[0] - b'0');
-                place *= 0.1;
                 curr = &curr[1..];
             }
         }
-
         if is_exp(curr) {
-            curr = &curr[1..];
-            let mut neg_exp: i32 = 1;
-            if !curr.is_empty() {
-                if curr[0] == b'+' {
-                    curr = &curr[1..];
-                } else if curr[0] == b'-' {
-                    neg_exp = -1;
-                    curr = &curr[1..];
-                }
-            }
-            let mut exponent: i32 = 0;
+            curr = &curr[2..];
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
                 curr = &curr[1..];
             }
-            exponent *= neg_exp;
-            match exponent {
-                -2 => {
-                    ret *= 0.01;
-                }
-                -1 => {
-                    ret *= 0.1;
-                }
-                0 => {}
-                1 => {
-                    ret *= 10.0;
-                }
-                2 => {
-                    ret *= 100.0;
-                }
-                3 => {
-                    ret *= 1000.0;
-                }
-                //  	    These two lose accuracy
-                //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LOG2_10).exp2();},
-                //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LN_10).exp();},
-                _ => {
-                    ret *= libm::exp10(f64::from(exponent));
-                }
-            }
         }
+        // the nearest f64 to the decimal value, or zero if there are no digits
+        let number = &self[..self.len() - curr.len()];
+        let mut ret: f64 = std::str::from_utf8(number)
+            .ok()
+            .and_then(|x| x.parse().ok())
+            .unwrap_or(0.0);
         if !curr.is_empty() {
             if let Some(mul) = suffix_valf(curr[0]) {
                 curr = &curr[1..];
                 ret *= mul;
             }
         }
-        (neg * ret, curr)
+        (ret, curr)
     }
 }
 
-- 
2.43.0


From a63d4f43720795532170e41caf21a5f4a887f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:29 +0000
Subject: [PATCH 13/99] fix: NaN has a place in the float ordering

---
 src/comp.rs | 8 ++++----
 src/num.rs  | 9 ++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 686558a..89d7c9d 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1884,7 +1884,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1908,7 +1908,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
@@ -1935,7 +1935,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
         let value = self.exprs[0].eval(right);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
     fn comp_self_line(&mut self, right: &[u8], delim: u8) -> Ordering {
         let value = self.exprs[0].eval_line(right, delim);
@@ -1943,7 +1943,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_line(&mut self, right: &[u8], delim: u8) -> bool {
         let value = self.exprs[0].eval_line(right, delim);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
 }
 
diff --git a/src/num.rs b/src/num.rs
index f59e1ef..c597372 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,11 +104,11 @@ impl Junk {
 /// ordering for f64
 #[must_use]
 pub fn fcmp(x: f64, y: f64) -> Ordering {
-    if x == y {
+    if x == y || (x.is_nan() && y.is_nan()) {
         return Ordering::Equal;
     }
-    if x > y {
-        return Ordering::Greater;
+    if x > y || y.is_nan() {
+        return Ordering::Greater; // NaN is less than any number
     }
     Ordering::Less
 }
@@ -119,6 +119,9 @@ pub fn ulp_to_ulong(d: f64) -> u64 {
     if d == 0.0 {
         return 0x8000_0000_0000_0000_u64; // -0.0 and 0.0 are equal
     }
+    if d.is_nan() {
+        return 0; // NaN is less than any number
+    }
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From f47cd9f12b5a196066f215be5a173ecfd90ff0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 14/99] fix: leading zeros do not change the order of IP
 addresses

---
 src/comp.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/comp.rs b/src/comp.rs
index 89d7c9d..7eaadd0 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -777,11 +777,20 @@ fn num_cmp_signed(mut a: &[u8], mut b: &[u8]) -> Ordering {
     num_cmp_unsigned(a, b)
 }
 
+fn skip_zero(mut a: &[u8]) -> &[u8] {
+    while !a.is_empty() && a[0] == b'0' {
+        a = &a[1..];
+    }
+    a
+}
+
 fn ip_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
     a = a.trimw_start();
     b = b.trimw_start();
 
     loop {
+        a = skip_zero(a);
+        b = skip_zero(b);
         let mut a2: usize = 0;
         while a.len() > a2 && a[a2].is_ascii_digit() {
             a2 += 1;
-- 
2.43.0


From b3c28920522428a94c660f3a58f698c8bed47486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:07 +0000
Subject: [PATCH 15/99] fix: wildcard matching tries every position after a
 star, and does not run off the end

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index ae5ed6a..7900053 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From a5517242ca6081c870b6ce331aa8724bbb90b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 16/99] fix: a negated matcher is negated wherever it is used,
 not only as a line matcher

---
 src/matcher.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..368411e 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1030,13 +1030,12 @@ impl WholeMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for WholeMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.line_nl()))
-            } else {
-                self.matcher.umatch(line.line_nl())
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.line_nl()))
+        } else {
+            self.matcher.umatch(line.line_nl())
+        }
     }
 
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
@@ -1118,9 +1117,9 @@ impl LineMatch for ColSetMatcher {
         for x in self.col.get_cols() {
             let did_match = if self.matcher.string {
                 self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(x.num)))
+                    .smatch_plain(&String::from_utf8_lossy(line.get(x.num)))
             } else {
-                self.matcher.umatch(line.get(x.num))
+                self.matcher.umatch_plain(line.get(x.num))
             };
             if did_match {
                 yes += 1;
@@ -1166,13 +1165,12 @@ impl ColMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for ColMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
-            } else {
-                self.matcher.umatch(line.get(self.col.num))
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
+        } else {
+            self.matcher.umatch(line.get(self.col.num))
+        }
     }
 
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -1546,7 +1544,11 @@ impl Clone for Matcher {
 impl Matcher {
     /// Are these characters ok?
     #[must_use]
-    pub fn smatch(&self, mut buff: &str) -> bool {
+    pub fn smatch(&self, buff: &str) -> bool {
+        self.negate ^ self.smatch_plain(buff)
+    }
+    /// smatch, before any negation
+    fn smatch_plain(&self, mut buff: &str) -> bool {
         if self.trim {
             buff = buff.trimw();
         }
@@ -1558,7 +1560,11 @@ impl Matcher {
     }
     /// Are these bytes ok?
     #[must_use]
-    pub fn umatch(&self, mut buff: &[u8]) -> bool {
+    pub fn umatch(&self, buff: &[u8]) -> bool {
+        self.negate ^ self.umatch_plain(buff)
+    }
+    /// umatch, before any negation
+    fn umatch_plain(&self, mut buff: &[u8]) -> bool {
         if self.trim {
             buff = buff.trimw();
         }
@@ -1585,7 +1591,7 @@ impl Matcher {
             if let Ok(x) = std::str::from_utf8(buff) {
                 self.smatch(x)
             } else {
-                false
+                self.negate
             }
         } else {
             self.umatch(buff)
@@ -1881,6 +1887,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // the combination is negated, not its parts
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From f3ac9773fa1e8455458f0571f4018b788697ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 17/99] fix: the null modifier accepts the empty string,
 instead of negating

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 368411e..16ce608 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1866,7 +1866,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From 6a4c13b2b2c729c0279bdac369c000ad12f59c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 18/99] fix: case insensitive suffix match of an empty pattern
 does not underflow

---
 src/matcher.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 16ce608..39454b9 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -406,14 +406,7 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    bcase_prefix(&haystack[haystack.len() - needle.len()..], needle)
 }
 
 // needle is already lowercase
-- 
2.43.0


From b0ee93f94973e9225cf7a4a6ec6c0dac6f18203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 19/99] fix: case insensitive exact match lowers the target,
 not the pattern

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 39454b9..3e8f114 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -748,7 +748,7 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         buff.equal_insens_quick(&self.u_data)
-- 
2.43.0


From 500defba763362ee4ddddc9e7452c76edd2697fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 20/99] fix: at most and at least a fraction are not
 interchanged

---
 src/matcher.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 3e8f114..777d7a5 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => tot == 0 || num::f64_greater(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,8 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) if tot == 0 => *f <= 0.0,
+            Self::Frac(f) => num::f64_less(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -202,6 +203,7 @@ impl Thresh {
     pub fn exactly(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n == *c,
+            Self::Frac(f) if tot == 0 => *f <= 0.0,
             Self::Frac(f) => num::f64_equal(*f, n, tot),
         }
     }
-- 
2.43.0


From bc9cef93c8277e88ed756aa4765e1d9d455ce327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 21/99] fix: column group matchers [Determiner,ColumnSet] can
 be written as line matchers

---
 src/matcher.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 777d7a5..042a096 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -274,6 +274,15 @@ impl Determiner {
             return err!("Unknown Determiner {spec}");
         })
     }
+    /// split "Determiner,ColumnSet", where the Determiner might be "atleast,42"
+    fn split(spec: &str) -> Result<(Self, &str)> {
+        for (pos, _) in spec.match_indices(',').take(2) {
+            if let Ok(x) = Self::new(&spec[..pos]) {
+                return Ok((x, &spec[pos + 1..]));
+            }
+        }
+        err!("ColumnGroup format is Determiner,ColumnSet")
+    }
     /// we've seen this many yes's and this many no's, with more to come. Are we done yet?
     #[must_use]
     pub const fn match_mid(&self, yes: usize, no: usize) -> Tri {
@@ -900,15 +909,19 @@ impl ColGroup {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[1..len - 1];
+            let rest = &spec[len..];
+            let (det, cols) = match Determiner::split(cols) {
+                Ok((det, cols)) => (det, cols),
+                Err(_) => (Determiner::default(), cols),
+            };
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
-                    det: Determiner::default(),
+                    det,
                     has_col: true,
                 },
-                rest,
+                rest.strip_prefix(',').unwrap_or(rest),
             ))
         } else if let Some((a, b)) = spec.split_once(',') {
             Ok((
@@ -1093,15 +1106,12 @@ struct ColSetMatcher {
 impl ColSetMatcher {
     /// new from parts
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        if let Some((a, b)) = cols.split_once(',') {
-            Ok(Self {
-                matcher: MatchMaker::make2(method, pattern)?,
-                col: ColumnSet::from_spec(b)?,
-                det: Determiner::new(a)?,
-            })
-        } else {
-            err!("ColumnGroup format is Determiner,ColumnSet")
-        }
+        let (det, cols) = Determiner::split(cols)?;
+        Ok(Self {
+            matcher: MatchMaker::make2(method, pattern)?,
+            col: ColumnSet::from_spec(cols)?,
+            det,
+        })
     }
 }
 
@@ -1932,8 +1942,9 @@ impl MatchMaker {
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[..len];
+            let rest = &spec[len..];
+            let rest = rest.strip_prefix(',').unwrap_or(rest);
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From 3cd9086ebf33141be2df3330c3a113b92b7e7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:01 +0000
Subject: [PATCH 22/99] fix: an empty multi-pattern is an error, not a panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 042a096..3fbe1aa 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1887,6 +1887,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("A multi-pattern must begin with its delimiter");
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From 13d1e840cbb02041c00737128a56ac7ff795f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 23/99] fix: a named operator may be followed by a dot in a
 comp matcher, as documented

---
 src/matcher.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 3fbe1aa..914c40f 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -966,7 +966,12 @@ impl CompMatcher {
         let op1 = pattern[0..2].parse::<CompareOp>();
         let op;
         if let Ok(o) = op1 {
+            // named operators are followed by a dot, e.g. LT.author
+            let named = pattern.as_bytes()[0].is_ascii_alphabetic();
             pattern = &pattern[2..];
+            if named {
+                pattern = pattern.strip_prefix('.').unwrap_or(pattern);
+            }
             op = o;
         } else {
             let op1 = pattern[0..1].parse::<CompareOp>();
-- 
2.43.0


From e4033cd724e7c0b162a9d7e77ed66c4eb7a85733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 24/99] fix: a whole-line key is the line without its newline

---
 src/comp.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 7eaadd0..0fc97bc 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -396,6 +396,15 @@ impl LineCompWhole {
     }
 }
 
+/// the text of a line, without its newline
+fn no_newline(line: &[u8]) -> &[u8] {
+    if !line.is_empty() && line[line.len() - 1] == b'\n' {
+        &line[..line.len() - 1]
+    } else {
+        line
+    }
+}
+
 impl LineCompare for LineCompWhole {
     fn used_cols(&self, _v: &mut Vec<usize>, _file_num: usize) {}
     /// compare lines
@@ -406,7 +415,8 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> Ordering {
-        self.comp.comp(left.line(), right.line())
+        self.comp
+            .comp(no_newline(left.line()), no_newline(right.line()))
     }
     /// compare lines
     fn equal_cols(
@@ -416,7 +426,8 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> bool {
-        self.comp.equal(left.line(), right.line())
+        self.comp
+            .equal(no_newline(left.line()), no_newline(right.line()))
     }
     /// compare lines
     fn comp_lines(
@@ -427,7 +438,7 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> Ordering {
-        self.comp.comp(left, right)
+        self.comp.comp(no_newline(left), no_newline(right))
     }
     /// compare lines
     fn equal_lines(
@@ -438,7 +449,7 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> bool {
-        self.comp.equal(left, right)
+        self.comp.equal(no_newline(left), no_newline(right))
     }
     /// resolve named columns; illegal to call any of the others with a file that has not been looked up
     fn lookup(&mut self, _fieldnames: &[&str], _file_num: usize) -> Result<()> {
@@ -449,11 +460,11 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_cols(&mut self, item: &mut Item, value: &TextLine) {
-        self.comp.fill_cache(item, value.line());
+        self.comp.fill_cache(item, no_newline(value.line()));
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, item.get(value));
+        self.comp.fill_cache(item, no_newline(item.get(value)));
     }
 
     fn set(&mut self, value: &[u8]) {
@@ -461,19 +472,19 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        self.comp.comp_self(no_newline(right.line()))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        self.comp.equal_self(no_newline(right.line()))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(no_newline(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp.equal_self(no_newline(right))
     }
 }
 
-- 
2.43.0


From dc729eee08c3916b28a2a66a29095f5b3011c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 25/99] fix: the second value of a range check is its value,
 not its operator

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..72c6855 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2279,7 +2279,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
-- 
2.43.0


From ad6732f2cbf38b4f41f4ef47adb8a9b74bd8cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 26/99] fix: CompareOp::line_ok is (line OP value), as
 line_ok_verbose is

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 72c6855..5e495db 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2115,7 +2115,7 @@ impl CompareOp {
         comp: &mut LineCompList,
         line_num: usize,
     ) -> bool {
-        if !self.invert().line_ok(line, comp) {
+        if !self.line_ok(line, comp) {
             eprint!("Line {line_num} : ");
             prerr_n(&[&line.line]);
             eprint!("should have been {self:?} ");
@@ -2128,8 +2128,8 @@ impl CompareOp {
     }
     /// return (line OP value)
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> bool {
-        let o = comp.comp_self_cols(line);
-        self.ord_ok(o)
+        let o = comp.comp_self_cols(line); // value against line
+        self.invert().ord_ok(o)
     }
     /// does Ordering satisfy `CompareOp`
     #[must_use]
-- 
2.43.0


From 52c304299d1a37fa491ca17005f695275fffa321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 27/99] fix: CheckLine::line_ok_verbose checks both ends of a
 range

---
 src/util.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 5e495db..24e69d4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2295,7 +2295,16 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
-- 
2.43.0


From 2a9d81bdd903c7b0158e488d3537e4306b01e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 28/99] fix: <= and >= in a range check are not read as < and >

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 24e69d4..13abf0e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2158,8 +2158,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)([^=].*)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)([^=].*)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From f35d02e871fb1237bf07679ef7f44cd9d967df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:55 +0000
Subject: [PATCH 29/99] fix: a range matcher honours the rev modifier of its
 comparator

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 13abf0e..9c569c5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,7 +1,7 @@
 //! Misc utility stuff
 //#![allow(dead_code)]
 use crate::column::ColumnHeader;
-use crate::comp::{CompMaker, Compare};
+use crate::comp::{Comp, CompMaker};
 use crate::prelude::*;
 use anyhow;
 use flate2::read::MultiGzDecoder;
@@ -2328,9 +2328,9 @@ impl CheckLine {
 /// A compare op with some text to compare against
 pub struct CheckBuff {
     op: CompareOp,
-    val: Box<dyn Compare>,
+    val: Comp,
     op2: Option<CompareOp>,
-    val2: Option<Box<dyn Compare>>,
+    val2: Option<Comp>,
 }
 impl fmt::Debug for CheckBuff {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -2349,7 +2349,7 @@ impl CheckBuff {
         Ok(Self {
             op: r.op1.parse::<CompareOp>()?,
             val: {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val1.as_bytes());
                 c
             },
@@ -2361,7 +2361,7 @@ impl CheckBuff {
             val2: if r.val2.is_none() {
                 None
             } else {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val2.unwrap().as_bytes());
                 Some(c)
             },
-- 
2.43.0


From 62cd13580c008b4ae672b1b2e2b5d52664a11e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:56 +0000
Subject: [PATCH 30/99] fix: verify --report and --show-matchers are not
 unreachable

---
 src/bin/cdx/verify_main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..68e808a 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::comp::comp_check;
 use cdx::expr;
-use cdx::matcher::Combiner;
+use cdx::matcher::{Combiner, MatchMaker};
 use cdx::prelude::*;
 use cdx::util::CheckLine;
 
@@ -46,9 +46,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             list.push(&x.value)?;
         } else if x.name == "key" {
             comp.add(&x.value)?;
-        } else if x.name == "or" {
-            list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +57,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From f219fb1c760919d3316ea32f7c4d4b71c926c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:58 +0000
Subject: [PATCH 31/99] fix: verify counts a failure of the last line

---
 src/bin/cdx/verify_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 68e808a..bc1bdf9 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -120,6 +120,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 {
                     fails += 1;
                 }
+                if did_fail {
+                    fails += 1;
+                }
                 break;
             }
             if do_sort {
-- 
2.43.0


From 21517237804bfcb0da5f1215080eebf0d7e6824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 32/99] fix: two character operators in expressions consume
 both characters

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..8c8975a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 7d4f7579d8451406c9dc62eacd8006db010f8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 33/99] fix: minus is binary after a factorial, and unary at
 the start of an argument list

---
 src/tok2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 8c8975a..dc99a01 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,13 +63,14 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
+        Unary(UnaryOp::Fact) => true,
         Unary(_) => false,
         LParen => false,
         RParen => true,
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false, // includes the opening parenthesis
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From f99c7cc785d1fc26cbb508650cb633c835818005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 34/99] fix: named constants with underscores can be used in
 expressions

---
 src/tok2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index dc99a01..d305170 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -153,7 +153,9 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty()
+                        && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From 0ae7255cdf79c8129dd17ad00f3e00c126a33b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 35/99] fix: a malformed expression is an error

---
 src/shunting_yard.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..145baa8 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -46,8 +46,19 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     let mut output = Vec::with_capacity(input.len());
     let mut stack = Vec::with_capacity(input.len());
 
+    let mut have_operand = false; // have we just finished an operand?
     for (index, token) in input.iter().enumerate() {
         let token = token.clone();
+        let (begins, ends) = match token {
+            Number(_) | Var(_) => (true, true),
+            LParen | Func(..) | Unary(UnaryOp::Plus | UnaryOp::Minus) => (true, false),
+            RParen | Unary(UnaryOp::Fact) => (false, true),
+            Binary(_) | Comma => (false, false),
+        };
+        if begins == have_operand {
+            return err!("Misplaced token");
+        }
+        have_operand = ends;
         match token {
             Number(_) | Var(_) => output.push(token),
             Unary(_) => stack.push((index, token)),
@@ -141,6 +152,9 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     if n_operands > 1 {
         return err!("Too Many Operands");
     }
+    if n_operands < 1 {
+        return err!("Empty Expression");
+    }
 
     output.shrink_to_fit();
     Ok(output)
-- 
2.43.0


From ffe038af1a6a198b6569405e91a25477fc7e6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 36/99] fix: acos is not abs

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..60123b8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From 51098c7ea27352d0ff12c61030a78bb6607830d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 37/99] fix: 0! is 1

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 60123b8..20b66f2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -649,7 +649,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From 15461d4662deb9992e5c7426438bb14c23efa754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 38/99] fix: an undefined variable in a constant expression is
 an error

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20b66f2..f022456 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -15,7 +15,11 @@ use std::fmt::Write;
 /// evaluate a constant arithmetic expression
 pub fn calc(expr: &str) -> Result<f64> {
     let mut c = Expr::new(expr)?;
-    c.eval_plain()
+    let val = c.eval_plain()?;
+    if let Some(v) = c.vars.first() {
+        return err!("Undefined variable {}", v.name);
+    }
+    Ok(val)
 }
 
 /// If input is 'Format,Expression' return that format and expression
-- 
2.43.0


From 14215cb1006c80f7ba368ea5c3be4b117ce866f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 39/99] fix: expression columns are looked up again for every
 file

---
 src/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index f022456..5407ea8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -485,7 +485,10 @@ impl Expr {
         }
         let start_vars = self.vars.len();
         self.parse(&n)?;
-        'outer: for y in self.vars.iter_mut().skip(start_vars) {
+        'outer: for (which, y) in self.vars.iter_mut().enumerate() {
+            if which < start_vars && y.col.is_none() {
+                continue; // declared by the caller, not a column
+            }
             for (i, x) in fieldnames.iter().enumerate() {
                 if *x == y.name {
                     y.col = Some(i);
-- 
2.43.0


From 6211547ecbbf14dfe86b673969663e75bd00da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 40/99] fix: column c0 in an expression is an error, not a
 panic

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 5407ea8..c0692de 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -499,7 +499,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
+                let num = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
+                if num == 0 {
+                    return err!("Column numbers start at one : {}", y.name);
+                }
+                y.col = Some(num - 1);
                 continue;
             }
             // FIXME - some way to declare other variables
-- 
2.43.0


From fdfb66e77c214da6f32986600d98dad23b009ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 41/99] fix: a delimiter at the end of a line without newline
 is followed by an empty column

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9c569c5..30846d2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -574,9 +574,9 @@ pub fn split_plain(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8) {
         }
         end += 1;
     }
-    if begin != end {
+    if end != 0 {
         let mut f = FakeSlice { begin, end };
-        if line[(end - 1) as usize] == b'\n' {
+        if begin != end && line[(end - 1) as usize] == b'\n' {
             f.end -= 1;
         }
         parts.push(f);
-- 
2.43.0


From b1c9e9f68feba8567e99d9eac37f9fc7ce246032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:56 +0000
Subject: [PATCH 42/99] fix: backslash mode keeps an empty last column and the
 newline of the decoded line

---
 src/util.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 30846d2..4ed3e81 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -609,8 +609,12 @@ pub const fn enslash(ch: u8) -> u8 {
 pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
+    if line.is_empty() {
+        return;
+    }
     let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
+    let has_nl = line[line.len() - 1] == b'\n';
+    if has_nl {
         line = &line[..line.len() - 1];
     }
     let mut begin: u32 = 0;
@@ -636,8 +640,9 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
+    parts.push(FakeSlice { begin, end });
+    if has_nl {
+        tmp.push(b'\n');
     }
 }
 
-- 
2.43.0


From ffc0efd4c5433a93954809e8d317cc40e488d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 43/99] fix: quoted columns are written with both quotes, and
 delimiters between quotes do not split

---
 src/util.rs | 56 +++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ed3e81..15bd9ac 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,17 +546,24 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    let mut need_quote = false;
+    for ch in buf {
+        if *ch == tab || *ch == eol {
+            need_quote = true;
+        }
+    }
+    if need_quote {
+        w.write_all(&[b'"'])?;
+    }
     for ch in buf {
         if *ch == b'"' {
             w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+        } else {
+            w.write_all(&[*ch])?;
         }
-        w.write_all(&[*ch])?;
+    }
+    if need_quote {
+        w.write_all(&[b'"'])?;
     }
     Ok(())
 }
@@ -650,44 +657,43 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
 pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
+    if line.is_empty() {
+        return;
+    }
     let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
+    let has_nl = line[line.len() - 1] == b'\n';
+    if has_nl {
         line = &line[..line.len() - 1];
     }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
-    let mut last_was_quote = false;
+    let mut last_was_quote = false; // a quote on its own, or the first of a pair?
     let mut in_quote = false;
     for ch in line {
-        if in_quote {
-            if last_was_quote {
-                if *ch == b'"' {
-                    tmp.push(*ch);
-                    end += 1;
-                    continue;
-                } else {
-                    in_quote = false;
-                    // not continue
-                }
-            } else if *ch == b'"' {
-                last_was_quote = true;
+        if last_was_quote {
+            last_was_quote = false;
+            if *ch == b'"' {
+                tmp.push(*ch);
+                end += 1;
                 continue;
             }
+            in_quote = !in_quote;
+            // not continue
         } else if *ch == b'"' {
-            in_quote = true;
             last_was_quote = true;
             continue;
         }
 
         tmp.push(*ch);
-        if *ch == delim {
+        if *ch == delim && !in_quote {
             parts.push(FakeSlice { begin, end });
             begin = end + 1;
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
+    parts.push(FakeSlice { begin, end });
+    if has_nl {
+        tmp.push(b'\n');
     }
 }
 
-- 
2.43.0


From 7e4b02521682e1aaf772bf401d2e4e05a98a6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 44/99] fix: TextLine::assign and clear include the original
 text of a decoded line

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 15bd9ac..547c961 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -808,6 +808,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -830,6 +832,7 @@ impl TextLine {
     pub fn clear(&mut self) {
         self.parts.clear();
         self.line.clear();
+        self.orig.clear();
     }
     /// How many column in the line
     #[must_use]
-- 
2.43.0


From 9a6c3953709d4684de267558b6fdd7eefea1b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:58 +0000
Subject: [PATCH 45/99] fix: made up column names are separated by the file's
 own delimiter

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 547c961..471ebee 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1337,7 +1337,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(self.text.delim as char);
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From d635c03528b7cd68b03817629892303ac3f390c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:05 +0000
Subject: [PATCH 46/99] fix: a column matcher in parentheses may be negated,
 named, or followed by other columns

---
 src/column.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..8637118 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -799,24 +799,34 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
-                let pos = find_close(spc)?;
-                self.add_one(&spc[..pos], negate, trans);
-                spc = &spc[pos..];
-                if spc.is_empty() {
-                    break;
-                }
-            } else if let Some((a, b)) = spc.split_once(',') {
-                self.add_one(a, negate, trans);
-                spc = b;
-            } else {
-                self.add_one(spc, negate, trans);
+            let (part, rest) = spc.split_at(Self::part_len(spc)?);
+            self.add_one(part, negate, trans);
+            if rest.is_empty() {
                 break;
             }
+            match rest.strip_prefix(',') {
+                Some(x) => spc = x,
+                None => return err!("Malformed column spec {}", spec),
+            }
         }
         Ok(())
     }
 
+    /// length of the first part of a comma delimited list, where a `(matcher)` may contain commas
+    fn part_len(spec: &str) -> Result<usize> {
+        match spec.find(['(', ',']) {
+            Some(pos) if spec[pos..].starts_with('(') => {
+                if pos == 0 || spec[..pos].ends_with(['~', ':']) {
+                    Ok(pos + find_close(&spec[pos..])?)
+                } else {
+                    Ok(spec.find(',').unwrap_or(spec.len()))
+                }
+            }
+            Some(pos) => Ok(pos),
+            None => Ok(spec.len()),
+        }
+    }
+
     /// Turn column name into column number
     /// To also handle numbers and ranges, use `lookup1`
     /// # Examples
-- 
2.43.0


From b94ce40db3c74e4a670439d9da0b339887f6380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:05 +0000
Subject: [PATCH 47/99] fix: column +0 is out of bounds

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 8637118..90f4c8a 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -866,7 +866,7 @@ impl ColumnSet {
         if let Some(stripped) = colname.strip_prefix('+') {
             let n = stripped.to_usize_whole(colname.as_bytes(), "column")?;
             let len = fieldnames.len();
-            if n > len {
+            if n < 1 || n > len {
                 err!("Column {} out of bounds", colname)
             } else {
                 Ok(len - n)
-- 
2.43.0


From 9c8dd120b302f18cd4ed3795cae1739092f0df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:05 +0000
Subject: [PATCH 48/99] fix: a name with no columns, or a matcher with no
 closing parenthesis, is an error

---
 src/column.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index 90f4c8a..98c5cd9 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -923,8 +923,14 @@ impl ColumnSet {
             Some(x) => x,
         };
 
+        if range.is_empty() {
+            return err!("Empty Range {}", rng);
+        }
         let ch = range.first();
         if ch == '(' {
+            if !range.ends_with(')') {
+                return err!("Malformed Range {}", rng);
+            }
             return Ok(Self::to_outcols(
                 &Self::match_range(fieldnames, &range[1..range.len() - 1])?,
                 name,
-- 
2.43.0


From c648e0c5ecf0270cde71926d99be0c9fad756e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:05 +0000
Subject: [PATCH 49/99] fix: ColumnSet::write reports a missing first column
 like any other

---
 src/column.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index 98c5cd9..239c5cb 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1051,6 +1051,13 @@ impl ColumnSet {
         match iter.next() {
             None => {}
             Some(first) => {
+                if first.num >= cols.len() {
+                    return err!(
+                        "Line has only {} columns, but column {} was requested.",
+                        cols.len(),
+                        first.num + 1
+                    );
+                }
                 w.write_all(cols[first.num].as_bytes())?;
 
                 for x in iter {
-- 
2.43.0


From e47bcd1570fed0e440981b20a3b2405c2510a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:06 +0000
Subject: [PATCH 50/99] fix: a failed transform of a column is an error, not a
 panic

---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 239c5cb..d09553f 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1098,12 +1098,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1120,10 +1120,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From cc60c16c50d7ee1692ad6c64b55ea2e27f938755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:06 +0000
Subject: [PATCH 51/99] fix: a column counted from the right can be used
 wherever a single column is expected

---
 src/column.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index d09553f..2364981 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1508,6 +1508,7 @@ impl NamedCol {
     pub fn parse<'a>(&mut self, orig_spec: &'a str) -> Result<&'a str> {
         let mut spec = orig_spec;
         self.num = 0;
+        self.from_end = 0;
         self.name.clear();
         if spec.is_empty() {
             return err!("Empty string found where column name expected");
@@ -1515,7 +1516,8 @@ impl NamedCol {
         let mut ch = spec.first();
         let was_plus = ch == '+';
         if was_plus {
-            ch = spec.take_first();
+            spec = spec.skip_first();
+            ch = spec.first();
         }
         if ch.is_ascii_digit() && ch != '0' {
             let (a, b) = spec.to_usize();
-- 
2.43.0


From 2bb392175d8f04baf746fe84085d8ab720a0d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:15 +0000
Subject: [PATCH 52/99] fix: a column set that matches no columns adds neither
 names nor delimiters

---
 src/column.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 2364981..f0b99ef 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -544,6 +544,10 @@ pub trait ColumnFun {
     fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()>;
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()>;
+    /// true if, after lookup, there are no columns to write
+    fn is_empty(&self) -> bool {
+        false
+    }
 }
 
 /// write a single column
@@ -1384,6 +1388,9 @@ impl ColumnFun for ReaderColumns {
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.columns.lookup(fieldnames)
     }
+    fn is_empty(&self) -> bool {
+        self.columns.get_cols().is_empty()
+    }
 }
 
 /// A collection of `ColumnFun` writers
@@ -1432,17 +1439,17 @@ impl Writer {
     }
     /// Write the column values
     pub fn write(&mut self, w: &mut dyn Write, line: &TextLine) -> Result<()> {
-        let mut iter = self.v.iter_mut();
-        match iter.next() {
-            None => {}
-            Some(first) => {
-                first.write(w, line, &self.text)?;
-                for x in iter {
-                    w.write_all(&[self.text.delim])?;
-                    x.write(w, line, &self.text)?;
-                }
+        let mut need_delim = false;
+        for x in &mut self.v {
+            if x.is_empty() {
+                continue;
             }
-        };
+            if need_delim {
+                w.write_all(&[self.text.delim])?;
+            }
+            x.write(w, line, &self.text)?;
+            need_delim = true;
+        }
         w.write_all(&[b'\n'])?;
         Ok(())
     }
-- 
2.43.0


From f459e61d1b35fa4164b5c70823c5910c88d1daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:50 +0000
Subject: [PATCH 53/99] fix: a lone plus sign is not a column

---
 src/column.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index f0b99ef..e3604f8 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1524,6 +1524,9 @@ impl NamedCol {
         let was_plus = ch == '+';
         if was_plus {
             spec = spec.skip_first();
+            if spec.is_empty() {
+                return err!("'+' must be follwed by a number : {}", orig_spec);
+            }
             ch = spec.first();
         }
         if ch.is_ascii_digit() && ch != '0' {
-- 
2.43.0


From 9c69d6df0a7479d1f273bcc5414a438499cc3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 54/99] fix: number suffixes M and up stand for powers, not for
 exclusive or

---
 src/num.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index c597372..170e44b 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -269,11 +269,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1024 * 1024,
+    1024 * 1024 * 1024,
+    1024 * 1024 * 1024 * 1024,
+    1024 * 1024 * 1024 * 1024 * 1024,
+    1024 * 1024 * 1024 * 1024 * 1024 * 1024,
     usize::MAX,
     usize::MAX,
 ];
@@ -291,11 +291,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1000 * 1000,
+    1000 * 1000 * 1000,
+    1000 * 1000 * 1000 * 1000,
+    1000 * 1000 * 1000 * 1000 * 1000,
+    1000 * 1000 * 1000 * 1000 * 1000 * 1000,
     usize::MAX,
     usize::MAX,
 ];
-- 
2.43.0


From 6a014e7b8c3fb0f328d7464116869edb64baa954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 55/99] fix: an integer that does not fit is not a number,
 instead of a panic or a wrong value

---
 src/text.rs | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 7900053..8152c19 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -474,6 +474,27 @@ impl Text for str {
     }
 }
 
+/// append one decimal digit, None if the result does not fit
+fn add_digit(val: Option<usize>, digit: u8) -> Option<usize> {
+    val?.checked_mul(10)?.checked_add((digit - b'0') as usize)
+}
+/// multiply by the value of a suffix, None if the result does not fit
+fn scale(val: Option<usize>, mul: usize) -> Option<usize> {
+    let val = val?;
+    if mul == usize::MAX && val != 0 {
+        return None; // the value of the suffix alone does not fit
+    }
+    val.checked_mul(mul)
+}
+/// make it signed, None if the result does not fit
+fn apply_sign(val: Option<usize>, neg: bool) -> Option<isize> {
+    if neg {
+        0_isize.checked_sub_unsigned(val?)
+    } else {
+        0_isize.checked_add_unsigned(val?)
+    }
+}
+
 const fn is_exp(buf: &[u8]) -> bool {
     if buf.len() < 2 {
         return false;
@@ -628,51 +649,55 @@ impl Text for [u8] {
         if !curr.is_empty() && curr[0] == b'+' {
             curr = &curr[1..];
         }
-        let mut ret: usize = 0;
+        let mut ret: Option<usize> = Some(0);
         if curr.is_empty() || !curr[0].is_ascii_digit() {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = add_digit(ret, curr[0]);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = scale(ret, mul);
             }
         }
-        (ret, curr)
+        match ret {
+            Some(val) => (val, curr),
+            None => (usize::MAX, self), // does not fit, so there is no number here
+        }
     }
     fn to_isize(&self) -> (isize, &Self) {
-        let mut neg: isize = 1;
+        let mut neg = false;
         let mut curr = self;
         if !curr.is_empty() {
             if curr[0] == b'+' {
                 curr = &curr[1..];
             } else if curr[0] == b'-' {
                 curr = &curr[1..];
-                neg = -1;
+                neg = true;
             }
         }
-        let mut ret: isize = 0;
+        let mut ret: Option<usize> = Some(0);
         if curr.is_empty() || !curr[0].is_ascii_digit() {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = add_digit(ret, curr[0]);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = scale(ret, mul);
             }
         }
-        ret *= neg;
-        (ret, curr)
+        match apply_sign(ret, neg) {
+            Some(val) => (val, curr),
+            None if neg => (isize::MIN, self), // does not fit, so there is no number here
+            None => (isize::MAX, self),
+        }
     }
     fn to_f64(&self) -> (f64, &Self) {
         let mut curr = self;
-- 
2.43.0


From 9ac3488027d958ca9051792b452923c3e78c256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 56/99] fix: a byte position that does not fit in 32 bits is an
 error, not another position

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 471ebee..edb3a09 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -476,8 +476,8 @@ impl FakeSlice {
     /// new from text, like '7' or '3-6'
     pub fn new(spec: &str) -> Result<Self> {
         if let Some((a, b)) = spec.split_once('-') {
-            let begin = a.to_usize_whole(spec.as_bytes(), "range")? as u32;
-            let end = b.to_usize_whole(spec.as_bytes(), "range")? as u32;
+            let begin = u32::try_from(a.to_usize_whole(spec.as_bytes(), "range")?)?;
+            let end = u32::try_from(b.to_usize_whole(spec.as_bytes(), "range")?)?;
             if begin == 0 || end == 0 {
                 err!("Invalid range, both number must be greater than zero")
             } else if begin > end {
@@ -489,7 +489,7 @@ impl FakeSlice {
                 })
             }
         } else {
-            let num = spec.to_usize_whole(spec.as_bytes(), "position")? as u32;
+            let num = u32::try_from(spec.to_usize_whole(spec.as_bytes(), "position")?)?;
             if num == 0 {
                 err!("Invalid offset, must be greater than zero")
             } else {
-- 
2.43.0


From 96f95ab12d9279a50d3c202c8c882ea04b933b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:53 +0000
Subject: [PATCH 57/99] fix: Reader::open starts at line one of the new file,
 like new_open, with no trace of the previous one

---
 src/bin/cdx/verify_main.rs |  2 +-
 src/util.rs                | 37 ++++++++++++++++++-------------------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index bc1bdf9..77b6a73 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -101,7 +101,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
diff --git a/src/util.rs b/src/util.rs
index edb3a09..6ec44cd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1318,6 +1318,9 @@ impl InfileContext {
         }
     }
     fn read_header(&mut self, file: &mut impl BufRead, line: &mut TextLine) -> Result<()> {
+        self.is_done = true;
+        self.has_header = false;
+        self.header.clear();
         self.is_empty = self.text.read_header(file, &mut self.header.line)?;
         if self.is_empty {
             return Ok(());
@@ -1552,24 +1555,8 @@ impl Reader {
     }
     /// make a new Reader
     pub fn new_open_with(name: &str, lookback: usize, text_in: &TextFileMode) -> Result<Self> {
-        let mut lines: Vec<TextLine> = Vec::new();
-        lines.resize(lookback + 1, TextLine::new());
-        let mut tmp = Self {
-            file: get_reader(name)?,
-            lines,
-            cont: InfileContext::new(text_in),
-            do_split: true,
-            curr: 0,
-            loc: FileLocData::default(),
-        };
-        tmp.cont.read_header(&mut *tmp.file, &mut tmp.lines[0])?;
-        tmp.loc.name = name.to_string();
-        tmp.loc.line = 1;
-        tmp.loc.bytes = if tmp.has_header() {
-            tmp.header().line.len()
-        } else {
-            0
-        };
+        let mut tmp = Self::new_with(lookback, text_in);
+        tmp.open(name)?;
         Ok(tmp)
     }
     /// get current line contents, without the trailing newline
@@ -1602,7 +1589,19 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        for x in &mut self.lines {
+            x.clear();
+        }
+        self.curr = 0;
+        self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
+        } else {
+            0
+        };
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From 5256b4855721feed419a51700ffc12af042b1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:53 +0000
Subject: [PATCH 58/99] fix: a header is recognized even if its first bytes
 arrive in several pieces

---
 src/util.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 6ec44cd..7df497c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1266,14 +1266,35 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
-    let mut outer = io::BufReader::new(inner);
+    let mut outer = with_start(inner)?;
     let start = outer.fill_buf()?;
-    if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+    if start.starts_with(&GZ_MAGIC) {
+        outer = with_start(Box::new(MultiGzDecoder::new(outer)))?;
     }
     Ok(Infile::new(outer, name))
 }
 
+const GZ_MAGIC: [u8; 3] = [0x1fu8, 0x8bu8, 0x08u8];
+
+/// make a buffered reader, where the bytes that identify the kind of file are available all at once,
+/// no matter in which pieces they arrive
+fn with_start(mut inner: Box<dyn Read>) -> Result<io::BufReader<Box<dyn Read>>> {
+    let mut buf = [0u8; 4];
+    let mut len = 0;
+    while len < buf.len()
+        && (b" CDX".starts_with(&buf[..len]) || GZ_MAGIC.starts_with(&buf[..len]))
+    {
+        match inner.read(&mut buf[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e.into()),
+        }
+    }
+    let start = io::Cursor::new(buf[..len].to_vec());
+    Ok(io::BufReader::new(Box::new(start.chain(inner))))
+}
+
 #[derive(Debug, Default)]
 /// shared context for any input file type
 pub struct InfileContext {
-- 
2.43.0


From 16e3d350e0e8a87b66e5a21d5b999a4a98ebb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:54 +0000
Subject: [PATCH 59/99] fix: a line that is not split never shows the text of
 an earlier line, and byte offsets count the bytes of the file

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 7df497c..15ac361 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1653,8 +1653,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].clear();
         if self
             .cont
             .text
-- 
2.43.0


From 776f9f49749e36570229c4b0bf8f1755965460a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:54 +0000
Subject: [PATCH 60/99] fix: whole lines of an escaped file are written as they
 were read, not half decoded

---
 src/util.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 15ac361..7012653 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1583,14 +1583,14 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        let line = self.curr_line().line();
+        &line[0..line.len() - 1]
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        let line = self.prev_line(n).line();
+        &line[0..line.len() - 1]
     }
     /// get delimiter
     #[must_use]
@@ -1604,7 +1604,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1693,12 +1693,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
-- 
2.43.0


From 7c3516e9d4ced47802634e9f1570f1416367ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:54 +0000
Subject: [PATCH 61/99] fix: looking back from the start of the file shows
 empty lines instead of a panic

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7012653..ef916f2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -796,7 +796,7 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        &self.line[..self.line.len().saturating_sub(1)]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -1584,13 +1584,13 @@ impl Reader {
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
         let line = self.curr_line().line();
-        &line[0..line.len() - 1]
+        &line[0..line.len().saturating_sub(1)]
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
         let line = self.prev_line(n).line();
-        &line[0..line.len() - 1]
+        &line[0..line.len().saturating_sub(1)]
     }
     /// get delimiter
     #[must_use]
-- 
2.43.0


From ecf35f92715516f4792f848d1fc66285ce96f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:42 +0000
Subject: [PATCH 62/99] fix: byte offsets count a skipped header

---
 src/util.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index ef916f2..9af4b21 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1306,6 +1306,8 @@ pub struct InfileContext {
     is_empty: bool,
     // was there a CDX header?
     has_header: bool,
+    // number of bytes before the first line of data
+    head_bytes: usize,
     text: TextFileMode,
 }
 
@@ -1335,6 +1337,7 @@ impl InfileContext {
             is_done: true,
             is_empty: true,
             has_header: false,
+            head_bytes: 0,
             text: *text_in,
         }
     }
@@ -1342,7 +1345,17 @@ impl InfileContext {
         self.is_done = true;
         self.has_header = false;
         self.header.clear();
-        self.is_empty = self.text.read_header(file, &mut self.header.line)?;
+        if self.text.head_mode == HeadMode::Skip {
+            let mut text = self.text;
+            text.head_mode = HeadMode::Maybe;
+            text.read_header(file, &mut self.header.line)?;
+            self.head_bytes = self.header.line.len();
+            self.header.clear();
+            self.is_empty = file.fill_buf()?.is_empty();
+        } else {
+            self.is_empty = self.text.read_header(file, &mut self.header.line)?;
+            self.head_bytes = self.header.line.len();
+        }
         if self.is_empty {
             return Ok(());
         }
@@ -1617,11 +1630,7 @@ impl Reader {
         self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
         self.loc.name = name.to_string();
         self.loc.line = 1;
-        self.loc.bytes = if self.has_header() {
-            self.header().line.len()
-        } else {
-            0
-        };
+        self.loc.bytes = self.cont.head_bytes;
         Ok(())
     }
     /// The full text of the header, without the trailing newline
-- 
2.43.0


From 777d483c00a1aebfa6cc043bf3066c5d9bd5820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:55 +0000
Subject: [PATCH 63/99] fix: sampling returns exactly the number of lines asked
 for, also for 0, 1, 2 and very many

---
 src/sampler.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..ea76ff5 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -9,9 +9,10 @@ use crate::prelude::*;
 /// Sample N evenly distributed items from an input stream
 #[derive(Debug)]
 pub struct Smooth {
-    small: usize,       // goal size
+    goal: usize,        // number of lines wanted
+    small: usize,       // goal size, but always room for first and last
     large: usize,       // maximum size
-    data: Vec<Vec<u8>>, // always length large
+    data: Vec<Vec<u8>>, // never longer than large
     jump: usize,        // number of lines between entries
     pos: usize,         // number of lines between last and penultimate entries in data
     size: usize,        // current number of 'live' elements in data
@@ -22,24 +23,21 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
-        let mut data = Vec::with_capacity(large);
-        for _ in 0..large {
-            data.push(Vec::new());
-        }
+        let large = small.saturating_mul(2).saturating_sub(2);
+        let large = large.max(small.saturating_add(1));
         Self {
+            goal: sz,
             small,
             large,
-            data,
+            data: Vec::new(),
             jump: 1,
             pos: 0,
             size: 0,
         }
     }
     fn verify(&self) -> bool {
-        debug_assert!(self.data.len() == self.large);
-        debug_assert!(self.size <= self.large);
-        debug_assert!(self.size <= self.large);
+        debug_assert!(self.data.len() <= self.large);
+        debug_assert!(self.size <= self.data.len());
         //	debug_assert!(self.pos <= self.jump);
         true
     }
@@ -51,6 +49,9 @@ impl Smooth {
                 self.jump *= 2;
                 self.collapse();
             }
+            if self.size == self.data.len() {
+                self.data.push(Vec::new());
+            }
             self.data[self.size].clear();
             self.data[self.size].extend(x);
             self.size += 1;
@@ -103,6 +104,7 @@ impl Smooth {
     /// finish and write
     pub fn finalize(&mut self, w: &mut impl Write) -> Result<()> {
         self.collapse();
+        self.size = self.size.min(self.goal);
         self.write(w)
     }
 
-- 
2.43.0


From 38e9a754f54b9b9797e64e361a145e3979a6f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:55 +0000
Subject: [PATCH 64/99] fix: sample goes on after a file without data, and
 --for does not overflow

---
 src/bin/cdx/sample_main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..8fced74 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
@@ -158,7 +158,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             while f.line_number() <= floop.to {
                 if f.line_number() == next {
                     w.write_all(f.curr_line().line())?;
-                    next += floop.by;
+                    next = next.saturating_add(floop.by);
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 62b54da230b68ee0f090c0a720fa8c17b9be1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:39 +0000
Subject: [PATCH 65/99] fix: header policy Strip strips, None forbids and
 Require compares with the first header

---
 src/util.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9af4b21..5a23f50 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2038,6 +2038,14 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!(
+                            "Header Mismatch. First was {}, File {} has {}",
+                            String::from_utf8_lossy(&self.head),
+                            fname,
+                            String::from_utf8_lossy(first_line)
+                        );
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
@@ -2052,7 +2060,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From db703071b0da0e72f956b8898d960d63b10a7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:18 +0000
Subject: [PATCH 66/99] fix: the header policy also counts files without a
 header

---
 src/bin/cdx/binsearch_main.rs |  5 ++++-
 src/bin/cdx/cat_main.rs       |  2 +-
 src/bin/cdx/cgrep_main.rs     |  2 +-
 src/bin/cdx/cut_main.rs       |  2 +-
 src/util.rs                   | 23 ++++++++++++++++++-----
 5 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 385dabd..b605d90 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -142,6 +142,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
 
     for f in &files {
         let m = MemMap::new(f)?;
+        if m.get().is_empty() {
+            continue;
+        }
         not_header.clear();
         if m.has_header() {
             if let Some(f) = &filename {
@@ -152,7 +155,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 not_header.extend(m.header());
             }
         }
-        if settings.checker.check(&not_header, f)? {
+        if settings.checker.check_header(&not_header, f)? {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..af6cea2 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -156,7 +156,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.has_header() {
                 not_header = header.get_head(&settings.text_out());
             }
-            if settings.checker.check(not_header.as_bytes(), x)? {
+            if settings.checker.check_header(not_header.as_bytes(), x)? {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..23b3aa7 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -52,7 +52,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_header(not_header.as_bytes(), x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..b271d52 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_header(not_header.as_bytes(), x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/util.rs b/src/util.rs
index 5a23f50..52093e4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1990,13 +1990,19 @@ impl HeaderChecker {
     /// call for the first line of every input file
     /// return true if the header should be written
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
-        let first = !self.saw_one;
         if file.has_header() {
-            self.check(file.header().line.as_bytes(), fname)?;
+            self.check_header(file.header().line.as_bytes(), fname)
         } else {
-            self.check(b"fake", fname)?;
+            self.check_header(b"", fname)
         }
-        Ok(file.has_header() && first)
+    }
+
+    /// call with the header of every non-empty input file, or with nothing if it has none
+    /// return true if the header should be written
+    pub fn check_header(&mut self, header: &[u8], fname: &str) -> Result<bool> {
+        is_valid_cdx(header, self.mode, fname)?;
+        let cdx = !header.is_empty() && self.mode != HeaderMode::Ignore;
+        Ok(self.check_first(header, cdx, fname)? && !header.is_empty())
     }
 
     /// call for the first line of every input file
@@ -2008,7 +2014,14 @@ impl HeaderChecker {
             Ok(false)
         } else if first_line.last().unwrap() != &b'\n' && cdx {
             err!("Malformed Header line in file {}", &fname)
-        } else if self.saw_one {
+        } else {
+            self.check_first(first_line, cdx, fname)
+        }
+    }
+
+    /// decide on the first line of a file, where cdx tells if it is a header
+    fn check_first(&mut self, first_line: &[u8], cdx: bool, fname: &str) -> Result<bool> {
+        if self.saw_one {
             match self.mode {
                 HeaderMode::Match => {
                     if cdx {
-- 
2.43.0


From dc75ad91fb4b1982a988a7e6b2cfd4cb6b8b202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:06 +0000
Subject: [PATCH 67/99] fix: cat does not repeat headers of files whose headers
 are not CDX headers

---
 src/bin/cdx/cat_main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index af6cea2..313c291 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::column::{ColumnCount, ColumnLiteral, ColumnWhole};
 use cdx::prelude::*;
-use cdx::util::get_reader;
+use cdx::util::{get_reader, HeadMode};
 
 #[derive(Debug, Copy, Clone, PartialEq)]
 enum PadMode {
@@ -122,7 +122,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
 
     let mut header = ColumnHeader::new();
     let mut w = get_writer("-")?;
-    let slow = num.do_it || !skips.is_empty() || !removes.is_empty();
+    // the fast path only knows CDX headers
+    let slow = num.do_it
+        || !skips.is_empty()
+        || !removes.is_empty()
+        || settings.text_in.head_mode != HeadMode::Maybe;
 
     if slow {
         let mut v = Writer::new(settings.text_out());
-- 
2.43.0


From d3e2ab02d96425b37b2cc42ee375bae16e1394b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 68/99] fix: the text of a header with no columns does not
 underflow

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index e3604f8..920634b 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len()
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From 0144a8f929dab7f3edc7cff38ab366dba70d7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:53 +0000
Subject: [PATCH 69/99] fix: merging takes equal lines in the order of the
 files

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..47c66d2 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -24,6 +24,7 @@ impl MergeContext<'_> {
     fn compare(&mut self, a: usize, b: usize) -> Ordering {
         self.cmp
             .comp_cols(self.open[a].curr_line(), self.open[b].curr_line())
+            .then(a.cmp(&b))
             .reverse()
     }
     fn equal(&mut self, a: &TextLine, b: usize) -> bool {
-- 
2.43.0


From 632cdfe8e8d3b0f9ea65bdc71e049b06a94b67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:53 +0000
Subject: [PATCH 70/99] fix: sorting survives lines longer than the buffer and
 first lines that do not fit

---
 src/sort.rs | 57 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 47c66d2..778ef41 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -394,38 +394,67 @@ impl Sorter {
     /// add some more data to be sorted.
     /// must be integer number of lines.
     pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
-        let sz = self.prepare(in_data.len());
-        if sz != in_data.len() {
-            eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
-            return err!("Badness");
+        // room for the data, and for a newline if it has none
+        let n = in_data.len() + 1;
+        if self.prepare(n) < n {
+            self.flush()?;
+            self.grow(n)?;
+            self.prepare(n);
         }
         self.data[self.data_used..self.data_used + in_data.len()].copy_from_slice(in_data);
         self.data_used += in_data.len();
-        // FIXME - add newline
+        self.end_line();
         Ok(())
     }
+    // write all complete lines to a temporary file
+    fn flush(&mut self) -> Result<()> {
+        self.calc();
+        if !self.ptrs.is_empty() {
+            self.do_sort();
+            self.write_tmp()?;
+        }
+        Ok(())
+    }
+    // make sure that N bytes can be made available
+    fn grow(&mut self, n: usize) -> Result<()> {
+        let nsize = self.data_used + n;
+        if nsize > MAX_DATA {
+            return err!("Lines longer than {} bytes can not be sorted", MAX_DATA);
+        }
+        if nsize > self.data.capacity() {
+            self.data.reserve(nsize - self.data.len());
+        }
+        Ok(())
+    }
+    // add a newline if the last line has none. There must be room for it.
+    fn end_line(&mut self) {
+        if self.data_used > 0 && self.data[self.data_used - 1] != b'\n' {
+            self.data[self.data_used] = b'\n';
+            self.data_used += 1;
+        }
+    }
     /// Add another file's worth of data to the stream
     /// possibly writing temporary files
     pub fn add(&mut self, mut r: impl Read) -> Result<()> {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
-            let sz = self.prepare(SIZE);
+            let mut sz = self.prepare(SIZE);
+            if sz == 0 {
+                // buffer is full, with less than a line of data
+                self.grow(SIZE)?;
+                sz = self.prepare(SIZE);
+            }
             debug_assert!(sz > 0);
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
             if nbytes == 0 {
-                if self.data_used > 0 && self.data[self.data_used - 1] != b'\n' {
-                    self.data[self.data_used] = b'\n';
-                    self.data_used += 1;
-                }
+                self.end_line();
                 return Ok(());
             }
             self.data_used += nbytes;
             // calc new stuff
             if self.data_used >= self.data.capacity() {
-                self.calc();
-                self.do_sort();
-                self.write_tmp()?;
+                self.flush()?;
             }
         }
     }
@@ -457,7 +486,7 @@ impl Sorter {
         }
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
-- 
2.43.0


From 85e552b0b32a58a5601efa3bf6cb52d0b27a05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 71/99] fix: merging looks up its keys, checks headers, and
 takes no line of a temporary file for a header

---
 src/sort.rs | 111 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 76 insertions(+), 35 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 778ef41..85f5f0d 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -9,13 +9,39 @@ fancier sort
 
 use crate::comp::Item;
 use crate::prelude::*;
-use crate::util::{copy, get_reader, is_cdx, make_header, HeaderChecker};
+use crate::util::{copy, get_reader, is_cdx, make_header, HeadMode, HeaderChecker};
 use binary_heap_plus::BinaryHeap;
 use std::cell::RefCell;
 //use std::mem;
 use std::rc::Rc;
 use tempfile::TempDir;
 
+// open files to be merged, and write the header
+fn open_merge(
+    in_files: &[String],
+    cmp: &mut LineCompList,
+    mut w: impl Write,
+) -> Result<Vec<Reader>> {
+    let mut checker = HeaderChecker::new();
+    let mut first = true;
+    let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
+    for x in in_files {
+        let mut f = Reader::new_open2(x)?;
+        if !f.is_empty() {
+            if checker.check_file(&f, x)? {
+                w.write_all(f.header().line.as_bytes())?;
+            }
+            if first {
+                first = false;
+                cmp.lookup(&f.names())?;
+            }
+        }
+        f.do_split(cmp.need_split());
+        open_files.push(f);
+    }
+    Ok(open_files)
+}
+
 struct MergeContext<'a> {
     open: Vec<Reader>,
     cmp: &'a mut LineCompList,
@@ -75,27 +101,21 @@ impl SortConfig {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mc = Rc::new(RefCell::new(MergeContext {
-            open: Vec::with_capacity(in_files.len()),
-            cmp,
-        }));
+        let open = open_merge(in_files, cmp, &mut w)?;
+        self.merge_open2(open, cmp, w, unique)
+    }
+
+    fn merge_open2(
+        &self,
+        open: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        let num_files = open.len();
+        let mc = Rc::new(RefCell::new(MergeContext { open, cmp }));
         let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
-        {
-            let mut mcm = mc.borrow_mut();
-            for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
-            }
-            if !mcm.cmp.need_split() {
-                for x in &mut mcm.open {
-                    x.do_split(false);
-                }
-            }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
-            }
-        }
-        for i in 0..in_files.len() {
+        for i in 0..num_files {
             if !mc.borrow().open[i].is_done() {
                 heap.push(i);
             }
@@ -153,20 +173,17 @@ impl SortConfig {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
-        for x in in_files {
-            open_files.push(Reader::new_open2(x)?);
-        }
-        if !cmp.need_split() {
-            for x in &mut open_files {
-                x.do_split(false);
-            }
-        }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
+        let open_files = open_merge(in_files, cmp, &mut w)?;
+        self.merge_open1(open_files, cmp, w, unique)
+    }
 
+    fn merge_open1(
+        &self,
+        mut open_files: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
         if unique {
@@ -201,6 +218,30 @@ impl SortConfig {
         Ok(())
     }
 
+    /// merge files of sorted lines, none of which is a header, after `cmp.lookup`
+    fn merge_sorted(
+        &self,
+        in_files: &[String],
+        cmp: &mut LineCompList,
+        w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        eprintln!("Merging");
+        let mut text = TextFileMode::default();
+        text.head_mode = HeadMode::No;
+        let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
+        for x in in_files {
+            let mut f = Reader::new_open(x, &text)?;
+            f.do_split(cmp.need_split());
+            open_files.push(f);
+        }
+        if self.alt_merge {
+            self.merge_open1(open_files, cmp, w, unique)
+        } else {
+            self.merge_open2(open_files, cmp, w, unique)
+        }
+    }
+
     /// merge all the files into w
     pub fn merge(
         &self,
@@ -519,7 +560,7 @@ impl Sorter {
         } else {
             self.write_tmp()?;
             self.config
-                .merge_t(&self.tmp_files, &mut self.cmp, w, self.unique, &self.tmp)?;
+                .merge_sorted(&self.tmp_files, &mut self.cmp, w, self.unique)?;
         }
         Ok(())
     }
-- 
2.43.0


From 91a8add26f9fc39107ed55541d28c8ec73bbcfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 72/99] fix: sort --check looks up its keys in every file and
 stops after the number of reports asked for

---
 src/bin/cdx/sort_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..0c9a5c5 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -53,11 +53,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if check {
         let mut reported = 0;
-        for x in &files {
+        'files: for x in &files {
             let mut f = Reader::new_open(x, &settings.text_in)?;
             if f.is_done() {
                 continue;
             }
+            comp.lookup(&f.names())?;
             loop {
                 if f.getline()? {
                     break;
@@ -65,7 +66,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 if comp_check(&f, &mut comp, unique) {
                     reported += 1;
                     if reported >= num_checks {
-                        break;
+                        break 'files;
                     }
                 }
             }
-- 
2.43.0


From cd674a55b883db2cc2d01dc162df923b86390aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:34 +0000
Subject: [PATCH 73/99] fix: sort reports that a temporary file could not be
 written

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 85f5f0d..2216154 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -525,6 +525,7 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
         let nsize = self.data_used - self.data_calc;
-- 
2.43.0


From c862d0499563ad5f6d25f74597d07e838e249fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:34 +0000
Subject: [PATCH 74/99] fix: writing over a longer file leaves none of its old
 contents

---
 src/util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 52093e4..b652a01 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1221,7 +1221,13 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(
+                fs::OpenOptions::new()
+                    .write(true)
+                    .create(true)
+                    .truncate(true)
+                    .open(name)?,
+            )
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From 3bb081a238e7a99a6af0805b644a2ef1303fb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:32 +0000
Subject: [PATCH 75/99] fix: cat adds a missing final newline, and goes on
 after a file with only a header

---
 src/bin/cdx/cat_main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 313c291..2db7ff8 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -164,7 +164,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
@@ -202,7 +202,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From d6e1d5efd7ad158cb381949949f6d92b956148f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:04 +0000
Subject: [PATCH 76/99] fix: the sort buffer does not outgrow its 32 bit
 offsets and 31 bit sizes

---
 src/sort.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 2216154..3cb4556 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -377,7 +377,8 @@ pub struct Sorter {
     data_nonl: usize,
 }
 
-const MAX_DATA: usize = 0x0000_ffff_ff00;
+// offsets have 32 bits, sizes of lines 31
+const MAX_DATA: usize = 0x7fff_ff00;
 
 impl Sorter {
     /// new Sorter
@@ -421,6 +422,9 @@ impl Sorter {
         if nsize > self.data.capacity() {
             nsize = self.data.capacity();
         }
+        if nsize > MAX_DATA {
+            nsize = MAX_DATA;
+        }
         if self.data.len() < nsize {
             self.data.resize(nsize, 0);
         }
@@ -481,9 +485,13 @@ impl Sorter {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
             let mut sz = self.prepare(SIZE);
+            if sz == 0 {
+                self.flush()?;
+                sz = self.prepare(SIZE);
+            }
             if sz == 0 {
                 // buffer is full, with less than a line of data
-                self.grow(SIZE)?;
+                self.grow(1)?;
                 sz = self.prepare(SIZE);
             }
             debug_assert!(sz > 0);
-- 
2.43.0


From a8bcc8c633cf32e41f439a0f1f6b3aeb4d6ea140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:23 +0000
Subject: [PATCH 77/99] fix: uniq without a key compares whole lines, as sort
 does, instead of taking all lines as equal

---
 src/bin/cdx/uniq_main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..a3d42b2 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -187,6 +187,10 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
 
+    if comp.is_empty() {
+        comp.add("")?;
+    }
+
     assert_eq!(files.len(), 1);
 
     let mut f = Reader::new(&settings.text_in);
-- 
2.43.0


From 54f5080f10a067ad0201a9d52d31dadbe71fe4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:23 +0000
Subject: [PATCH 78/99] fix: uniq splits lines when only --which or an
 aggregator needs their columns

---
 src/bin/cdx/uniq_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index a3d42b2..ccd7450 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -233,7 +233,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || count.comp.need_split() || !agg.is_empty());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From 7537c9facf94557072e362f921983e9b25fd737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:46 +0000
Subject: [PATCH 79/99] fix: a merge specification may end with its delimiters

---
 src/agg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..8b7263b 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -750,6 +750,7 @@ impl Merge {
                     }
                     sp = &sp[1..];
                 }
+                continue;
             }
             if let Some((a, b)) = sp.split_once('.') {
                 m.add_one(a)?;
-- 
2.43.0


From 79359b9e579bf144ec824f01908d7911ce185559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:46 +0000
Subject: [PATCH 80/99] fix: the max aggregator starts with its first value,
 not with an empty one

---
 src/agg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/agg.rs b/src/agg.rs
index 8b7263b..d81141e 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1073,6 +1073,7 @@ impl Agg for AMean {
 struct Max {
     comp: Comp,
     val: Vec<u8>,
+    empty: bool,
 }
 
 impl Max {
@@ -1080,12 +1081,18 @@ impl Max {
         Ok(Self {
             comp: CompMaker::make_comp(spec)?,
             val: Vec::new(),
+            empty: true,
         })
     }
 }
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
+        if self.empty {
+            self.empty = false;
+            self.val.extend_from_slice(data);
+            return;
+        }
         if self.comp.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
@@ -1097,6 +1104,7 @@ impl Agg for Max {
     }
     fn reset(&mut self) {
         self.val.clear();
+        self.empty = true;
     }
     fn value(&self) -> f64 {
         self.val.to_f64_lossy()
-- 
2.43.0


From b3092ef87f2f82ba4e9f66b348821f7208aa3165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:46 +0000
Subject: [PATCH 81/99] fix: the amean aggregator writes the mean, not the sum

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index d81141e..583ec16 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1062,7 +1062,7 @@ impl Agg for AMean {
         self.num += 1;
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
-        fmt.print(self.val as f64, w)
+        fmt.print(self.value(), w)
     }
     fn reset(&mut self) {
         self.val = 0;
-- 
2.43.0


From 8926c1cb433cec3ba0a20325699308cc8f0e65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:46 +0000
Subject: [PATCH 82/99] fix: LineAgger::new reads the column name after the
 placement

---
 src/agg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 583ec16..022c153 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -123,9 +123,9 @@ impl LineAgger {
             if a.eq_ignore_ascii_case("replace") {
                 Self::new_replace2(b, spec)
             } else if a.eq_ignore_ascii_case("prefix") || a.eq_ignore_ascii_case("prepend") {
-                Self::new_prefix2(spec, spec)
+                Self::new_prefix2(b, spec)
             } else if a.eq_ignore_ascii_case("suffix") || a.eq_ignore_ascii_case("append") {
-                Self::new_append2(spec, spec)
+                Self::new_append2(b, spec)
             } else {
                 err!("Unknown placement type '{}' in LineAgg spec '{}'", a, spec)
             }
-- 
2.43.0


From 3313b3055e37ff1001e5c90e6e2f5c53c81e2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:36 +0000
Subject: [PATCH 83/99] fix: join of more than two files is an error, the
 others were never matched

---
 src/join.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/join.rs b/src/join.rs
index c7f9a94..72e2150 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -171,6 +171,12 @@ impl Joiner {
                 config.infiles.len()
             );
         }
+        if config.infiles.len() > 2 {
+            return err!(
+                "Join supports only two input files, {} found",
+                config.infiles.len()
+            );
+        }
 
         for x in &config.infiles {
             self.r.push(Reader::new_open2(x)?);
-- 
2.43.0


From 5328e9d51235812276aa5bf1aa0ea173563976e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:36 +0000
Subject: [PATCH 84/99] fix: join applies its duplicate column handling to the
 header it writes

---
 src/join.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index 72e2150..c044c78 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -122,9 +122,8 @@ impl OneOutCol {
         w.write_all(f[self.file].curr().get(self.col.num))?;
         Ok(())
     }
-    fn write_head(&self, mut w: impl Write, f: &[Reader]) -> Result<()> {
-        w.write_all(f[self.file].header().get(self.col.num).as_bytes())?;
-        Ok(())
+    fn name<'a>(&self, f: &'a [Reader]) -> &'a str {
+        f[self.file].header().get(self.col.num)
     }
 }
 
@@ -244,10 +243,15 @@ impl Joiner {
         }
 
         if self.r[0].has_header() {
-            self.yes_match.write_all(b" CDX")?;
+            let mut head = ColumnHeader::new();
+            head.set_handling(config.dups);
             for x in &self.out_cols {
+                head.push(x.name(&self.r))?;
+            }
+            self.yes_match.write_all(b" CDX")?;
+            for x in head.fieldnames() {
                 self.yes_match.write_all(&[config.out_delim])?;
-                x.write_head(&mut *self.yes_match, &self.r)?;
+                self.yes_match.write_all(x.as_bytes())?;
             }
             self.yes_match.0.write_all(&[b'\n'])?;
         }
-- 
2.43.0


From a1d4bc5ffaf518866e4ea766bbbd0e04e0c40ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:36 +0000
Subject: [PATCH 85/99] fix: a column is not renamed to an invalid name

---
 src/column.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/column.rs b/src/column.rs
index 920634b..4303a6d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -47,6 +47,7 @@ struct NameMap {
 impl NameMap {
     fn new(spec: &str) -> Result<Self> {
         if let Some((a, b)) = spec.split_once('.') {
+            validate_column_name(b)?;
             Ok(Self {
                 from: a.to_string(),
                 to: b.to_string(),
-- 
2.43.0


From bbbf6153dcf0a22d94fc95b4825af6f769691d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:36 +0000
Subject: [PATCH 86/99] fix: numeric renaming does not drop a column after 9999
 others of its name

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 4303a6d..8247f21 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -211,7 +211,7 @@ impl ColumnHeader {
                     eprintln!("Warning : creating duplicate column name {name}");
                 }
                 DupColHandling::Numeric => {
-                    for x in 1..10000 {
+                    for x in 1.. {
                         let new_name = format!("{name}{x}");
                         if !self.contains(&new_name) {
                             self.cols.push(new_name);
-- 
2.43.0


From 58a4d014ddb14fdcce8c9cc990c80f0d8a564fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:00 +0000
Subject: [PATCH 87/99] fix: join does not write a made-up header before the
 unmatched lines of a file without one

---
 src/join.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/join.rs b/src/join.rs
index c044c78..f4b6858 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -195,7 +195,9 @@ impl Joiner {
             let num = x.file_num - 1;
             if self.no_match[num].is_none() {
                 let mut w = get_writer(&x.file_name)?;
-                self.r[num].write_header(&mut *w)?;
+                if self.r[num].has_header() {
+                    self.r[num].write_header(&mut *w)?;
+                }
                 self.no_match[num] = Some(w);
             } else {
                 return err!("Multiple uses of --also for file {}", x.file_num);
-- 
2.43.0


From e6506999ed16b6e22da0b8e0249e3ea6725a1dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:17 +0000
Subject: [PATCH 88/99] fix: a repeated empty column name is not numbered into
 an invalid name

---
 src/column.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/column.rs b/src/column.rs
index 8247f21..a1ab0e5 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -213,6 +213,7 @@ impl ColumnHeader {
                 DupColHandling::Numeric => {
                     for x in 1.. {
                         let new_name = format!("{name}{x}");
+                        validate_column_name(&new_name)?;
                         if !self.contains(&new_name) {
                             self.cols.push(new_name);
                             break;
-- 
2.43.0


From 57611c51171c27389a0df230f87815408d8d663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:00 +0000
Subject: [PATCH 89/99] fix: transpose adds an empty value to every line for a
 file with a header and no data

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..f1ef405 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From b3c9413dbc28f9307bfcbb67fbe6d75aee1c442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:00 +0000
Subject: [PATCH 90/99] fix: paste --last writes a single empty field for a
 file with no data lines

---
 src/bin/cdx/paste_main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..485cbad 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -64,6 +64,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut num_dead = 0;
     let mut do_header = true;
     let mut rngs: Vec<std::ops::Range<usize>> = Vec::new();
+    let mut had_data: Vec<bool> = Vec::with_capacity(files.len());
     let mut curr_cols = 0;
     for x in &files {
         let mut f = Reader::new(&settings.text_in);
@@ -76,6 +77,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             header.push_all_unchecked(f.header());
         }
+        had_data.push(!f.is_done());
         if f.is_done() {
             num_dead += 1;
         } else {
@@ -130,7 +132,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && had_data[i] {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From 2cfdc9f48834ecc062a808af475aebddcf7f592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 91/99] fix: a fill value for a column past the last column
 panics

---
 src/column.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index a1ab0e5..18e9345 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -460,6 +460,13 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
+                if j >= fieldnames.len() {
+                    return err!(
+                        "Column {} is past the last of {} columns",
+                        j + 1,
+                        fieldnames.len()
+                    );
+                }
                 self.strings[j].clone_from(&x.value);
                 self.has_value[j] = true;
             }
-- 
2.43.0


From 7f80aa553523bddcbfd66bb469edbec3ede77ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 92/99] fix: merge with max_parts:0 writes one part

---
 src/agg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 022c153..2dc5274 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -820,15 +820,15 @@ impl Agg for Merge {
         } else {
             let mut num_written = 0;
             for x in &self.data.parts {
+                if num_written >= self.max_parts {
+                    break;
+                }
                 if x.len() >= self.min_len && x.len() <= self.max_len {
                     if num_written > 0 {
                         w.write_all(&[self.out_delim])?;
                     }
                     w.write_all(x.get(self.data.line()))?;
                     num_written += 1;
-                    if num_written >= self.max_parts {
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From d4837776581689a52147a2b0f7c9305c80f5de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 93/99] fix: wc --columns ignores the files after one with no
 data lines

---
 src/bin/cdx/wc_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From f1581505a51adb85ec1b0da60c28e149ec84cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 94/99] fix: wc --columns panics on a line with more columns
 than the header

---
 src/bin/cdx/wc_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..d1f233c 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -110,6 +110,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 continue;
             }
             loop {
+                if f.curr_line().len() > colmap.len() {
+                    return err!("File {} has a line with too many columns", x);
+                }
                 for (i, x) in f.curr_line().iter().enumerate() {
                     aggs[colmap[i]].agg.add(x);
                 }
-- 
2.43.0


From 9b79911cd2b18995cfafe87940a142c715d87010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 95/99] fix: wc --format does not apply to the default
 aggregator

---
 src/bin/cdx/wc_main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index d1f233c..3fc147a 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -83,11 +83,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut totals = Vec::new();
     let do_totals;
     let show_file;
-    agg.fmt(fmt);
     if do_columns {
         if agg.is_empty() {
             agg.push("bytes,asum,chars")?;
         }
+        agg.fmt(fmt);
         totals.resize(agg.len(), 0.0);
         let mut aggs: Vec<NamedAgg> = Vec::new();
         let mut colmap: Vec<usize> = Vec::new();
@@ -173,6 +173,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if agg.is_empty() {
             agg.push("lines,count")?;
         }
+        agg.fmt(fmt);
         totals.resize(agg.len(), 0.0);
         show_file = match show_file_name {
             Tri::Yes => true,
-- 
2.43.0


From a36e00261ba9c055dde29ef9ad353b27907570ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 96/99] fix: min and max aggregators ignore a reversed
 comparator

---
 src/agg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 2dc5274..60b3ed9 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -865,7 +865,7 @@ impl Agg for Min {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Greater {
+        if self.comp.comp(&self.val, data) == Ordering::Greater {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1093,7 +1093,7 @@ impl Agg for Max {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
-- 
2.43.0


From b73e1c1a5f1248f17af333b607de5c8263e3de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:17 +0000
Subject: [PATCH 97/99] fix: case insensitive exact match of text compares all
 of both texts, not their lengths in bytes

---
 src/text.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 8152c19..f42311e 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -382,25 +382,13 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars().eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-- 
2.43.0


From 4bfd515a273e3a14c9705d52b0116bde03f20774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:40 +0000
Subject: [PATCH 98/99] fix: a case insensitive pattern and the text it is
 matched with are lowered in the same way

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 914c40f..c4093e7 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -377,7 +377,7 @@ struct PrefixMatchC {
 impl PrefixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -487,7 +487,7 @@ struct SuffixMatchC {
 impl SuffixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -513,14 +513,14 @@ struct InfixMatchC {
 impl InfixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
 }
 impl Match for InfixMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.to_lowercase().contains(&self.s_data) // PERF allocation
+        buff.new_lower().contains(&self.s_data) // PERF allocation
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         find(&buff.to_ascii_lowercase(), &self.u_data).is_some() // PERF allocation
-- 
2.43.0


From 9f1b2a885eaff8e8769bf6d716f2f584415302e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:34 +0000
Subject: [PATCH 99/99] fix: comp matchers no longer panic when a non-ASCII
 column name follows the operator

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index c4093e7..a43a786 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -963,7 +963,7 @@ impl CompMatcher {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-        let op1 = pattern[0..2].parse::<CompareOp>();
+        let op1 = pattern.get(0..2).unwrap_or("").parse::<CompareOp>();
         let op;
         if let Ok(o) = op1 {
             // named operators are followed by a dot, e.g. LT.author
@@ -974,7 +974,7 @@ impl CompMatcher {
             }
             op = o;
         } else {
-            let op1 = pattern[0..1].parse::<CompareOp>();
+            let op1 = pattern.get(0..1).unwrap_or("").parse::<CompareOp>();
             if let Ok(o) = op1 {
                 pattern = &pattern[1..];
                 op = o;
-- 
2.43.0

