From f36ed363a58fcfd0fd587c7c2c6ff0b08f164c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 01/34] fix: print S-expressions with nested syntax sugar so
 that they read back

Suffix syntax sugar was applied to operands which are themselves displayed
with syntax sugar, e.g. (try? (try? (a))) was displayed as (a)??.
---
 llrl0/src/sexp.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/sexp.rs b/llrl0/src/sexp.rs
index c6bb394..88c8cec 100644
--- a/llrl0/src/sexp.rs
+++ b/llrl0/src/sexp.rs
@@ -280,6 +280,25 @@ impl SexpRep {
         ls.append(&mut ss);
         Self::List(ls)
     }
+
+    /// Whether this is displayed by using syntax sugar, which cannot be an operand of suffixes.
+    fn is_sugared(&self) -> bool {
+        if_chain! {
+            if let Self::List(ls) = self;
+            if let [callee, args @ ..] = ls.as_slice();
+            if let Self::Symbol(ref sym) = callee.rep;
+            then {
+                match sym.as_ref() {
+                    QUOTE | QUASIQUOTE | UNQUOTE | UNQUOTE_SPLICING | LOAD | CAPTURE
+                    | TRY_QUESTION | TRY_EXCLAMATION => args.len() == 1,
+                    ANNOTATE => !args.is_empty(),
+                    _ => false,
+                }
+            } else {
+                false
+            }
+        }
+    }
 }
 
 impl Default for SexpRep {
@@ -302,9 +321,9 @@ impl fmt::Display for SexpRep {
                     (UNQUOTE_SPLICING, [s]) => return write!(f, ",@{}", s),
                     (LOAD, [s]) => return write!(f, "~{}", s),
                     (CAPTURE, [s]) => return write!(f, "\\{}", s),
-                    (TRY_QUESTION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}?", s),
-                    (TRY_EXCLAMATION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}!", s),
-                    (ANNOTATE, [s, ss @ ..]) => {
+                    (TRY_QUESTION, [s @ Sexp { rep: Self::List(_), .. }]) if !s.rep.is_sugared() => return write!(f, "{}?", s),
+                    (TRY_EXCLAMATION, [s @ Sexp { rep: Self::List(_), .. }]) if !s.rep.is_sugared() => return write!(f, "{}!", s),
+                    (ANNOTATE, [s, ss @ ..]) if !s.rep.is_sugared() => {
                         write!(f, "{} {{", s)?;
                         for (i, s) in ss.iter().enumerate() {
                             if i == 0 {
-- 
2.43.0


From aa415ff20ee5f423642a2c186df63c20e204e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 02/34] fix: decode and encode UTF-8 for Unicode scalar values
 up to U+10FFFF in std

---
 std/internal/utf-8.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0


From 488763b02d4efddc13e1e28838984ee477f06241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 03/34] fix: read positive signed integers as integers in llrl1

+5 was read as a floating-point number; the bootstrap compiler reads it as 5.
---
 llrl1/sexp/lexer.llrl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llrl1/sexp/lexer.llrl b/llrl1/sexp/lexer.llrl
index 2cbae66..a784073 100644
--- a/llrl1/sexp/lexer.llrl
+++ b/llrl1/sexp/lexer.llrl
@@ -20,7 +20,7 @@
     [when (eat-id! eat)
       (produce!*
         (lambda (s) (cond
-          [when-match1 (some (let num)) (integer/from-string? 10 s)
+          [when-match1 (some (let num)) (integer/from-string? 10 (skip-positive-sign s))
             (:unsigned num)]
           [when-match1 (some (let num)) (integer/from-string? 10 s)
             (:signed num)]
@@ -92,6 +92,9 @@
     [when (eat-if! [^1 #t] eat)
       (produce! :unknown-character eat)]))
 
+(function (skip-positive-sign s) {(-> String String)}
+  (if (string/starts-with? "+" s) (string/skip 1 s) s))
+
 (value-data Eat
   (eat: (Ref String) (Ref Location) (Ref String) (Ref U64))) ; input location current consumed-len
 
-- 
2.43.0


From 985c197f7c495026fc2feb475cc33e2de2b9bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 04/34] fix: print S-expressions with nested syntax sugar so
 that they read back in llrl1 and std

---
 llrl1/sexp/data.llrl | 18 ++++++++++++++++--
 std/s-display.llrl   | 12 +++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/llrl1/sexp/data.llrl b/llrl1/sexp/data.llrl
index 70e0384..4502aad 100644
--- a/llrl1/sexp/data.llrl
+++ b/llrl1/sexp/data.llrl
@@ -51,7 +51,7 @@
 
 (instance Display.SRep (forall A) (Display (SRep A)) (where (Display A))
   (function (display! w a)
-    (if-match1 (some (let syntax-sugar)) (s-rep/syntax-sugar? a)
+    (if-match1 (some (let syntax-sugar)) (displayable-syntax-sugar? a)
       (display! w syntax-sugar)
       (match a
         [(s-rep:integer #t (let v))
@@ -137,6 +137,21 @@
     [_
       none]))
 
+; Suffixes can be displayed only if their operands are neither symbols nor displayed by using syntax sugar.
+(function (displayable-syntax-sugar? rep) {(forall A) (-> (SRep A) (Option (SyntaxSugar A)))}
+  (let1 syntax-sugar (s-rep/syntax-sugar? rep)?
+    (match syntax-sugar
+      [(syntax-sugar:try? (let s)) (when? (suffix-list-operand? s) syntax-sugar)]
+      [(syntax-sugar:try! (let s)) (when? (suffix-list-operand? s) syntax-sugar)]
+      [(syntax-sugar:annotate (let s) _) (when? (suffix-operand? s) syntax-sugar)]
+      [_ (some syntax-sugar)])))
+
+(function (suffix-operand? s) {(forall A) (-> (S A) Bool)}
+  (is? none (displayable-syntax-sugar? (s/rep s))))
+
+(function (suffix-list-operand? s) {(forall A) (-> (S A) Bool)}
+  (and (is? (s: _ (s-rep:cons _ _)) s) (suffix-operand? s)))
+
 (derive (DebugDisplay) value-data (SyntaxSugar A)
   (syntax-sugar:quote (S A))
   (syntax-sugar:quasiquote (S A))
@@ -149,7 +164,6 @@
   (syntax-sugar:annotate (S A) (S A)))
 
 (instance Display.SyntaxSugar (forall A) (Display (SyntaxSugar A)) (where (Display A))
-  ; FIXME: This process does not correctly display S-expressions like (try! (unquote ...)) or like (try! symbol)
   (function (display! w a)
     (match a
       [(syntax-sugar:quote (let s))
diff --git a/std/s-display.llrl b/std/s-display.llrl
index 9fb475c..34e55a9 100644
--- a/std/s-display.llrl
+++ b/std/s-display.llrl
@@ -80,14 +80,20 @@
     [(s:list (s:symbol "capture") (let s))
       (some (ss:capture s))]
     [(s:list (s:symbol "try?") (let s (s:cons _ _)))
-      (some (ss:try? s))]
+      (if (sugared? s) none (some (ss:try? s)))]
     [(s:list (s:symbol "try!") (let s (s:cons _ _)))
-      (some (ss:try! s))]
+      (if (sugared? s) none (some (ss:try! s)))]
     [(s:cons (s:symbol "annotate") (s:cons (let s) (let ss)))
-      (some (ss:annotate s ss))]
+      (if (sugared? s) none (some (ss:annotate s ss)))]
     [_
       none]))
 
+; Suffixes cannot be applied to S-expressions displayed by using syntax sugar.
+(function (sugared? s) {(-> (Syntax Sexp) Bool)}
+  (match (syntax-sugar/from-s s)
+    [(some _) #t]
+    [none #f]))
+
 (instance Display.SyntaxSugar (Display SyntaxSugar)
   (function (display! w a)
     (match a
-- 
2.43.0


From f3900335e10287a5b3d78bd98cd2af1b365a6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 05/34] fix: buffer overrun on converting the minimum I64 to a
 binary string

---
 rt/rt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..6543149 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -316,22 +316,22 @@ static char digit_to_char(uint8_t digit) {
 
 rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   if (value == 0) return zero_string;
-  char buf[64];
+  char buf[65]; // 64 digits and '-'
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
   while (value != 0) {
-    buf[63 - len] = digit_to_char((uint8_t)((value % radix) * sign));
+    buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
   }
   if (sign < 0) {
-    buf[63 - len] = '-';
+    buf[64 - len] = '-';
     len++;
   }
   rt_string ret;
   ret.len = len;
   ret.ptr = GC_malloc(ret.len);
-  memcpy(ret.ptr, &buf[64 - len], ret.len);
+  memcpy(ret.ptr, &buf[65 - len], ret.len);
   return ret;
 }
 
-- 
2.43.0


From 2848e4a48abb3bb5760ab1df08bbb500aeae6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 06/34] fix: floating-point numbers round-trip through strings

Print as many digits as needed to identify the number, and read every decimal
form whatever its magnitude and length (and nothing else strtod accepts).
---
 rt/rt.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 6543149..6102d0b 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -291,6 +291,7 @@ rt_string llrt_string_concat(rt_string a, rt_string b) {
 rt_string llrt_f32_to_string(float a) {
   char buf[64];
   sprintf(buf, "%.8g", a);
+  if (strtof(buf, NULL) != a) sprintf(buf, "%.9g", a); // 9 digits identify any float
   rt_string ret;
   ret.len = strlen(buf);
   ret.ptr = GC_malloc(ret.len);
@@ -301,6 +302,7 @@ rt_string llrt_f32_to_string(float a) {
 rt_string llrt_f64_to_string(double a) {
   char buf[64];
   sprintf(buf, "%.16g", a);
+  if (strtod(buf, NULL) != a) sprintf(buf, "%.17g", a); // 17 digits identify any double
   rt_string ret;
   ret.len = strlen(buf);
   ret.ptr = GC_malloc(ret.len);
@@ -403,32 +405,36 @@ to_u64 llrt_string_to_u64(uint8_t radix, rt_string s) {
   return (to_u64){.success = 1, .value = value};
 }
 
+// Copies a string which possibly represents a decimal floating-point number as a NULL-terminated
+// string, by excluding the other forms strtod accepts (leading spaces, hexadecimals and nan(...)).
+static char *llrt_decimal_c_str(rt_string s) {
+  if (s.len == 0) return NULL;
+  for (size_t index = 0; index < s.len; index++) {
+    char c = s.ptr[index];
+    if (c == ' ' || ('\t' <= c && c <= '\r')) return NULL;
+    if (c == 'x' || c == 'X' || c == '(') return NULL;
+  }
+  char *ret = GC_malloc_atomic(s.len + 1);
+  memcpy(ret, s.ptr, s.len);
+  ret[s.len] = 0; // NULL-terminated
+  return ret;
+}
+
 to_f32 llrt_string_to_f32(rt_string s) {
-  if (s.len == 0 || 64 <= s.len) return (to_f32){.success = 0};
-  char buf[64];
-  memcpy(buf, s.ptr, s.len);
-  buf[s.len] = 0; // NULL-terminated
-  errno = 0;
+  char *buf = llrt_decimal_c_str(s);
+  if (buf == NULL) return (to_f32){.success = 0};
   char *end = NULL;
   float value = strtof(buf, &end);
-  if (errno != 0 || end != buf + s.len) return (to_f32){.success = 0};
+  if (end != buf + s.len) return (to_f32){.success = 0};
   return (to_f32){.success = 1, .value = value};
 }
 
 to_f64 llrt_string_to_f64(rt_string s) {
-  if (s.len == 0 || 64 <= s.len) return (to_f64){.success = 0};
-  if (s.len >= 2 &&
-      s.ptr[0] == '0' &&
-      (('0' <= s.ptr[1] && s.ptr[1] <= '9') || s.ptr[1] == 'x' || s.ptr[1] == 'X')) {
-    return (to_f64){.success = 0};
-  }
-  char buf[64];
-  memcpy(buf, s.ptr, s.len);
-  buf[s.len] = 0; // NULL-terminated
-  errno = 0;
+  char *buf = llrt_decimal_c_str(s);
+  if (buf == NULL) return (to_f64){.success = 0};
   char *end = NULL;
   double value = strtod(buf, &end);
-  if (errno != 0 || end != buf + s.len) return (to_f64){.success = 0};
+  if (end != buf + s.len) return (to_f64){.success = 0};
   return (to_f64){.success = 1, .value = value};
 }
 
-- 
2.43.0


From 45a93d1cda7a0e18c5595b056dede0f580d0829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 07/34] fix: end every binding of a preprocessor directive that
 binds a name twice

---
 llrl0/src/preprocess.rs | 2 +-
 llrl1/preprocess.llrl   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/preprocess.rs b/llrl0/src/preprocess.rs
index 0a1b202..39d7215 100644
--- a/llrl0/src/preprocess.rs
+++ b/llrl0/src/preprocess.rs
@@ -331,7 +331,7 @@ impl<'a> State<'a> {
 
         let result = f(self);
 
-        for (name, prev_expr) in prev_binds {
+        for (name, prev_expr) in prev_binds.into_iter().rev() {
             if let Some(prev_expr) = prev_expr {
                 self.vars.insert(name, prev_expr);
             } else {
diff --git a/llrl1/preprocess.llrl b/llrl1/preprocess.llrl
index 457e32f..c8fc202 100644
--- a/llrl1/preprocess.llrl
+++ b/llrl1/preprocess.llrl
@@ -204,7 +204,7 @@
         (it/map @case1 (: (let name) (let expr)) (: name (hash-map/insert! name expr vars)))
         collect)
   @let1 result (f)
-  (for (: (let name) (let prev-expr)) prev-binds
+  (for (: (let name) (let prev-expr)) (rev-iterate prev-binds)
     (if-match1 (some (let prev-expr)) prev-expr
       (hash-map/insert! name prev-expr vars)
       (hash-map/remove! name vars)))
-- 
2.43.0


From 53c0bdfea6e768b0d787c98b514ce37fab3d896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 08/34] fix: match an instance without assigning the variables
 of the constraint

match_to_right assigned the variables of the right-hand side as well, so
searching the instances of a constraint whose types are not known yet could
unify two of its variables and reject a well typed program.
---
 .../module/sema/type_inference/unification.rs |  3 ++-
 llrl0/src/unification/types.rs                | 22 ++++++++++++++++---
 .../sema/type-inference/unification.llrl      |  7 +++---
 llrl1/unification/type.llrl                   | 12 +++++++---
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference/unification.rs b/llrl0/src/module/sema/type_inference/unification.rs
index a20cfee..f81c80e 100644
--- a/llrl0/src/module/sema/type_inference/unification.rs
+++ b/llrl0/src/module/sema/type_inference/unification.rs
@@ -118,8 +118,9 @@ impl Constraint {
             (&self.rep, &other.rep),
             (ConstraintRep::Class(a, _), ConstraintRep::Class(b, _)) if a == b
         ));
+        let vars = self.get_vars(Level::top(), ctx);
         for (a, b) in self.types().zip(other.types()) {
-            ctx.match_to_right(a, b)?;
+            ctx.match_to_right_on(&vars, a, b)?;
         }
         Ok(())
     }
diff --git a/llrl0/src/unification/types.rs b/llrl0/src/unification/types.rs
index 39f612f..b1ac653 100644
--- a/llrl0/src/unification/types.rs
+++ b/llrl0/src/unification/types.rs
@@ -169,7 +169,23 @@ impl<E: KindEnvironment> Context<E> {
         }
     }
 
+    /// Unify `a` with `b` by assigning only the variables of `a`.
     pub fn match_to_right<A, B>(&mut self, a: A, b: B) -> Result<(), Error>
+    where
+        Self: Resolve<A> + Resolve<B>,
+    {
+        let a = self.resolve(a);
+        let vars = self.get_vars::<Type>(a, Level::top());
+        self.match_to_right_on(&vars, a, b)
+    }
+
+    /// Unify `a` with `b` by assigning only the variables in `vars`.
+    pub fn match_to_right_on<A, B>(
+        &mut self,
+        vars: &BTreeSet<Var>,
+        a: A,
+        b: B,
+    ) -> Result<(), Error>
     where
         Self: Resolve<A> + Resolve<B>,
     {
@@ -177,7 +193,7 @@ impl<E: KindEnvironment> Context<E> {
         let b = self.resolve(b);
         match (a, b) {
             (a, b) if a == b => Ok(()),
-            (Type::Var(var, k, lv), t) => {
+            (Type::Var(var, k, lv), t) if vars.contains(&var) => {
                 // In fact, occurs check is not required for all use cases of `match_to_right`.
                 // Add an option to skip occurs check for optimization?
                 if self.occurs_check(t, var).is_err() {
@@ -194,9 +210,9 @@ impl<E: KindEnvironment> Context<E> {
                 if a_args.len() != b_args.len() {
                     return Err(Error::Mismatch);
                 }
-                self.match_to_right(a_callee, b_callee)?;
+                self.match_to_right_on(vars, a_callee, b_callee)?;
                 for (a, b) in a_args.iter().zip(b_args.iter()) {
-                    self.match_to_right(a, b)?;
+                    self.match_to_right_on(vars, a, b)?;
                 }
                 Ok(())
             }
diff --git a/llrl1/module/sema/type-inference/unification.llrl b/llrl1/module/sema/type-inference/unification.llrl
index b16af61..b517b94 100644
--- a/llrl1/module/sema/type-inference/unification.llrl
+++ b/llrl1/module/sema/type-inference/unification.llrl
@@ -157,9 +157,10 @@
   (match (: (constraint/rep c1) (constraint/rep c2))
     [(: (constraint-rep:class (let id1) (let args1)) (constraint-rep:class (let id2) (let args2)))
       (assert-eq? id1 id2)
-      (for (: (let a) (let b)) (it/zip args1 args2)
-        (context/match-to-right! a b ctx)!)
-      (ok unit)]))
+      (let1 vars (types-vars c1 level/top ctx)
+        (for (: (let a) (let b)) (it/zip args1 args2)
+          (context/match-to-right-on! vars a b ctx)!)
+        (ok unit))]))
 
 (function (constraint/equal? c1 c2 ctx) {(forall E) (-> Constraint Constraint (Context E) Bool) (where (KindEnvironment E))}
   (match (: (constraint/rep c1) (constraint/rep c2))
diff --git a/llrl1/unification/type.llrl b/llrl1/unification/type.llrl
index dfda3e8..2777a72 100644
--- a/llrl1/unification/type.llrl
+++ b/llrl1/unification/type.llrl
@@ -108,13 +108,19 @@
       [else
         (err error:mismatch)])))
 
+; Unify `a` with `b` by assigning only the variables of `a`.
 (function (context/match-to-right! a b ctx) {(forall A B E) (-> A B (Context E) (Result unit Error)) (where (Resolve A) (Resolve B) (KindEnvironment E))}
+  (context/match-to-right-on! (context/get-vars a level/top ctx) a b ctx))
+
+; Unify `a` with `b` by assigning only the variables in `vars`.
+(function (context/match-to-right-on! vars a b ctx) {(forall A B E) (-> (OrdSet (Var Type)) A B (Context E) (Result unit Error)) (where (Resolve A) (Resolve B) (KindEnvironment E))}
   (let ([a (context/resolve! a ctx)]
         [b (context/resolve! b ctx)])
     (cond
       [when (eq? a b)
         (ok unit)]
-      [when-match1 (type:var (let var) (let k) (let lv)) a
+      [when-match ([(type:var (let var) (let k) (let lv)) a]
+                   [#t (ord-set/has? var vars)])
         ; In fact, occurs check is not required for all use cases of `match_to_right`.
         ; Should we add an option to skip occurs check for optimization?
         (when (occurs-check? b var ctx) (err error:occurs-check-failed)!)
@@ -125,9 +131,9 @@
                    [(type:app (let b-callee) (let b-args)) b])
 
         (when (ne? (vars/length a-args) (vars/length b-args)) (err error:mismatch)!)
-        (context/match-to-right! a-callee b-callee ctx)!
+        (context/match-to-right-on! vars a-callee b-callee ctx)!
         (for (: (let a) (let b)) (it/zip (vars/vars a-args) (vars/vars b-args))
-          (context/match-to-right! a b ctx)!)
+          (context/match-to-right-on! vars a b ctx)!)
         (ok unit)]
       [else
         (err error:mismatch)])))
-- 
2.43.0


From ec6d1877eaf957e52bf8fc91520cd35cc7977bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 09/34] fix: refuse the index one past the end in array/ref and
 vector/ref

---
 std/internal/array-vector.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 1fa90b0..369f135 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -66,7 +66,7 @@
   (= (array/length t) 0))
 
 (function (array/ref index t) {(forall A) (-> U64 (Array A) (Ref A))}
-  (assert (<= index (array/length t)) "array/ref: out of range")
+  (assert (< index (array/length t)) "array/ref: out of range")
   (ref/unsafe-from-ptr (ptr/add index (array/ptr t))))
 
 (function (array/subarray start end t) {(forall A) (-> U64 U64 (Array A) (Array A))}
-- 
2.43.0


From 66c7d53c8669a7b0c4e11451eebfc61f4877bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 10/34] fix: give a hash map of capacity 0 a bucket to probe

---
 std/hash-map.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/hash-map.llrl b/std/hash-map.llrl
index 2ea41f3..f605aee 100644
--- a/std/hash-map.llrl
+++ b/std/hash-map.llrl
@@ -228,7 +228,7 @@
 (function (next-power-of-two n) {(-> U64 U64)}
   (assert (<= n 0x4000000000000000))
   @let* (
-    [n (- n 1)]
+    [n (if (eq? n 0) 0 (- n 1))]
     [n (bw| n (bw>> n 1))]
     [n (bw| n (bw>> n 2))]
     [n (bw| n (bw>> n 4))]
-- 
2.43.0


From 2660cea0e37ac5191cbb98aa448e850afd861f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 11/34] fix: end string/remove-start and string/remove-end of
 an empty text

---
 std/internal/string-text.llrl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 0065018..7b9dc91 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -181,6 +181,7 @@
       s]))
 
 (function (string/remove-start prefix s) {(-> String String String)}
+  (when (string/empty? prefix) (return s))
   @let (
     [s (ref s)]
     [l (string/length prefix)])
@@ -188,6 +189,7 @@
   ~s)
 
 (function (string/remove-end suffix s) {(-> String String String)}
+  (when (string/empty? suffix) (return s))
   @let (
     [s (ref s)]
     [l (string/length suffix)])
-- 
2.43.0


From 99b2ac9448544f2d6a4cb6dd090a0364a23c5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 12/34] fix: reverse strings by character, not by byte

---
 std/internal/string-text.llrl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 7b9dc91..01d0884 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -234,9 +234,9 @@
 
 (function (string/reverse s) {(-> String String)}
   (when (<= (string/length s) 1) (return s))
-  @let1 buf (shallow-copy (string/unsafe-array s))
-  (array/reverse! buf)
-  (string/unsafe-from-array buf))
+  @let1 chars (collect (string/chars s))
+  (array/reverse! chars)
+  (string/from-chars chars))
 
 (function (string/join sep it) {(forall T) (-> String (T String) String) (where (Iterate T))}
   @let1 buf text/empty
-- 
2.43.0


From 5d0bf7a7f21bc059d85d472227a3def081e62d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 13/34] fix: the chibi backend reads a part classified
 differently from its whole out of the right register

---
 llrl0/src/backend/chibi/codegen.rs | 5 ++++-
 llrl1/backend/chibi/codegen.llrl   | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..48cac25 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -640,7 +640,10 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                // A part may be classified differently from the whole, in which case they are placed
+                // in different registers even if they are at the same position.
+                let classes = |l: &Layout| l.eightbytes().map(|e| e.class).collect::<Vec<_>>();
+                if offset != 0 || classes(&a_layout) != classes(&layout) {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 9efab8d..38c6893 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -525,6 +525,9 @@
       @let1 align (|> cg context (context/layout ty) layout/align)
       (some (cg-eval-const! cg (ir/const:integer (ir/ct:u 64) #f align))!)]))
 
+(function (eightbyte-classes l) {(-> Layout (Array Class))}
+  (|> (layout/eightbytes l) (it/map eightbyte/class) collect))
+
 (function (cg-eval-unary! cg op a) {(-> FunctionCodegen ir/Unary ir/Rt (Result (Option Layout) Never))}
   @let1 a-layout (continues (cg-eval! cg a)!)
 
@@ -550,7 +553,9 @@
       (some elem-layout)]
     [(ir/unary:struct-elem _ (let i))
       @with1 (: (let offset) (let layout)) (get (|> a-layout layout/composite option/force composite-layout/elems)[i])
-      (when (or (ne? offset 0) (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)))
+      ; A part may be classified differently from the whole, in which case they are placed
+      ; in different registers even if they are at the same position.
+      (when (or (ne? offset 0) (ne? (eightbyte-classes a-layout) (eightbyte-classes layout)))
         @let1 diff (* (- (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)) 8)
         (..push! cg a-layout)!
         (..slide-in-stack! cg offset diff layout)!
-- 
2.43.0


From dbc9bd4a33201102b324d26d930d8435d24d6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 14/34] fix: xxHash takes the 4 bytes of its tail as unsigned

---
 std/xxhash.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/xxhash.llrl b/std/xxhash.llrl
index a3994fb..a005860 100644
--- a/std/xxhash.llrl
+++ b/std/xxhash.llrl
@@ -142,7 +142,7 @@
       (set! d (array/skip 8 ~d))
       (set! input (+ (* (rotl ~input 27) prime-1) prime-4)))
     (when (<= 4 (array/length ~d))
-      (set! input (bw^ ~input (* (|> ~d array/ptr ptr/cast ptr/load (conv-from I32)) prime-1)))
+      (set! input (bw^ ~input (* (|> ~d array/ptr ptr/cast ptr/load (conv-from U32)) prime-1)))
       (set! d (array/skip 4 ~d))
       (set! input (+ (* (rotl ~input 23) prime-2) prime-3)))
     (for (let byte) ~d
-- 
2.43.0


From f19404cfab8accb96c8099362a0f7f0bb13cb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 15/34] fix: zeros of both signs have the same hash

---
 std/hash.llrl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/std/hash.llrl b/std/hash.llrl
index 347f109..997b63f 100644
--- a/std/hash.llrl
+++ b/std/hash.llrl
@@ -5,6 +5,7 @@
 (import "std/derive" derive/_)
 (import "std/access" unsafe-get)
 (import "std/integer" _.U64)
+(import "std/float" Eq.F32 Eq.F64)
 (import "std/memory" Ptr ptr/_ _.Ptr)
 (import "std/box" Box _.Box)
 (import "std/ref" Ref ref _.Ref)
@@ -60,11 +61,17 @@
   (function (hash-array! s a)
     (hasher/write! a s)))
 
-($for1 $ty (U16 U32 U64 I8 I16 I32 I64 F32 F64)
+($for1 $ty (U16 U32 U64 I8 I16 I32 I64)
   (instance ($symbol Hash. $ty) (Hash $ty)
     (function (hash! s a)
       (hasher/write! (array/unsafe-temporary-bytearray a) s))))
 
+; The zeros of both signs are equal, so that they must have the same hash.
+($for1 $ty (F32 F64)
+  (instance ($symbol Hash. $ty) (Hash $ty)
+    (function (hash! s a)
+      (hasher/write! (array/unsafe-temporary-bytearray (if (eq? a 0) 0 a)) s))))
+
 (instance Hash.Ptr (forall A) (Hash (Ptr A))
   (function (hash! s a)
     (hash! s (ptr/address a))))
-- 
2.43.0


From 4560e65be4b4a96828a36e3d7bd0a9cbbc312274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 16/34] fix: remove-all! does not follow symbolic links

---
 std/io.llrl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/io.llrl b/std/io.llrl
index 2d13321..5be5805 100644
--- a/std/io.llrl
+++ b/std/io.llrl
@@ -71,8 +71,10 @@
     [0 (ok unit)]
     [_ (err (io-error/from-current-errno))]))
 
-; Remove the all files and directories recursively.
+; Remove the all files and directories recursively. Symbolic links are removed but not followed.
 (function (remove-all! pathname) {(-> String (Result unit IoError))}
+  (when-match1 (ok _) (remove! pathname)
+    (return (ok unit)))
   (when-match1 (ok (let handle)) (directory/open! pathname)
     @let1 result (remove-directory-contents! pathname handle)
     (ignore (directory/close! handle))
-- 
2.43.0


From 0c6e296ff5179335b204bae67333fc7db52cda44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 17/34] fix: with-file! reports a failure to write at closing

---
 std/io/file.llrl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/std/io/file.llrl b/std/io/file.llrl
index caf9ab9..93e58f2 100644
--- a/std/io/file.llrl
+++ b/std/io/file.llrl
@@ -80,9 +80,13 @@
 
 (function (with-file! pathname mode f) {(forall A) (-> String String (-> File (Result A IoError)) (Result A IoError))}
   @let1 handle (file/open! pathname mode)!
-  @let1 ret (f handle)
-  (ignore (file/close! handle))
-  ret)
+  (match (f handle)
+    [(ok (let ret))
+      (file/close! handle)! ; the data may not be written until here
+      (ok ret)]
+    [(err (let e))
+      (ignore (file/close! handle))
+      (err e)]))
 
 (data <File>)
 (c-function <fopen> {(-> (Ptr U8) (Ptr U8) (Ptr <File>))} "fopen")
-- 
2.43.0


From c70cb327cf4a68ffcc802be1567c01080f1f3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 18/34] fix: the name of the parent directory has no extension

---
 std/io/path.llrl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 204eaf2..5f93030 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -170,4 +170,5 @@
   @let1 e (ref r)
   (while (and (< l ~e) (ne? (string/byte-at (- ~e 1) p) (conv (char/unicode-scalar #\.))))
     (set! e (- ~e 1)))
-  (: l ~e r))
+  ; The dots of the parent directory do not make an extension.
+  (: l (if (= (string/substring l r p) "..") l ~e) r))
-- 
2.43.0


From e444b8811472dbeceec47dd25cf881b4451082ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 19/34] fix: the canonical path of the root is not empty

---
 std/io/path.llrl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 5f93030..1e9173f 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -133,7 +133,9 @@
     buf)
 
 (function (canonicalize/complete buf) {(-> (Vector String) String)}
-  (string/join "/" (it/chain (iterator/only "") buf)))
+  (if (eq? (vector/length buf) 0)
+    "/"
+    (string/join "/" (it/chain (iterator/only "") buf))))
 
 (function (path/join p q) {(-> String String String)}
   (cond
-- 
2.43.0


From 4513deefc7531b6efc82655bd6139f675e202d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 20/34] fix: joining a path to the empty path gives that path

---
 std/io/path.llrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 1e9173f..e4545bd 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -140,6 +140,7 @@
 (function (path/join p q) {(-> String String String)}
   (cond
     [(path/absolute? q) q]
+    [(string/empty? p) q]
     [(= p "/") (string p q)]
     [else (string (string/take (last-component-end p) p) #\/ q)]))
 
-- 
2.43.0


From 60c774ae7d503c4eca3000106e1c4de864402d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 21/34] fix: comparisons of NaN are false in the chibi backends

---
 llrl0/src/backend/chibi/codegen.rs | 23 ++++++++++++++---------
 llrl1/backend/chibi/codegen.llrl   | 22 +++++++++++++++-------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 48cac25..7f0a774 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -975,17 +975,22 @@ impl<'a> FunctionCodegen<'a> {
             }
             FEq | FLt | FLe | FGt | FGe => {
                 self.pop_eightbyte(Xmm1)?; // left operand
-                match b_layout.size {
-                    4 => self.w.comiss(Xmm1, Xmm0)?,
-                    8 => self.w.comisd(Xmm1, Xmm0)?,
-                    s => unsupported_op!(op, size: s),
+                // An unordered result sets CF, PF and ZF, so less-than is tested with swapped operands.
+                match (op, b_layout.size) {
+                    (FLt | FLe, 4) => self.w.comiss(Xmm0, Xmm1)?,
+                    (FLt | FLe, 8) => self.w.comisd(Xmm0, Xmm1)?,
+                    (_, 4) => self.w.comiss(Xmm1, Xmm0)?,
+                    (_, 8) => self.w.comisd(Xmm1, Xmm0)?,
+                    (_, s) => unsupported_op!(op, size: s),
                 }
                 match op {
-                    FEq => self.w.sete(Al)?,
-                    FLt => self.w.setb(Al)?,
-                    FLe => self.w.setbe(Al)?,
-                    FGt => self.w.seta(Al)?,
-                    FGe => self.w.setae(Al)?,
+                    FEq => {
+                        self.w.sete(Al)?;
+                        self.w.setnp(Cl)?;
+                        self.w.andb(Al, Cl)?;
+                    }
+                    FLt | FGt => self.w.seta(Al)?,
+                    FLe | FGe => self.w.setae(Al)?,
                     _ => panic!(),
                 }
                 Some(Layout::integer(1))
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 38c6893..6358e68 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -854,14 +854,22 @@
       (some b-layout)]
     [ir/binary:f-eq
       (..pop-eightbyte! cg xmm1)! ; left operand
-      (match (layout/size b-layout)
-        [4 (comiss! cg xmm1 xmm0)!]
-        [8 (comisd! cg xmm1 xmm0)!]
-        [(let s) (unsupported-op op size: s)])
+      ; An unordered result sets CF, PF and ZF, so less-than is tested with swapped operands.
+      (match (: op (layout/size b-layout))
+        [(: ir/binary:f-lt 4) (comiss! cg xmm0 xmm1)!]
+        [(: ir/binary:f-lt 8) (comisd! cg xmm0 xmm1)!]
+        [(: ir/binary:f-le 4) (comiss! cg xmm0 xmm1)!]
+        [(: ir/binary:f-le 8) (comisd! cg xmm0 xmm1)!]
+        [(: _ 4) (comiss! cg xmm1 xmm0)!]
+        [(: _ 8) (comisd! cg xmm1 xmm0)!]
+        [(: _ (let s)) (unsupported-op op size: s)])
       (match op
-        [ir/binary:f-eq (sete! cg al)!]
-        [ir/binary:f-lt (setb! cg al)!]
-        [ir/binary:f-le (setbe! cg al)!]
+        [ir/binary:f-eq
+          (sete! cg al)!
+          (setnp! cg cl)!
+          (andb! cg al cl)!]
+        [ir/binary:f-lt (seta! cg al)!]
+        [ir/binary:f-le (setae! cg al)!]
         [ir/binary:f-gt (seta! cg al)!]
         [ir/binary:f-ge (setae! cg al)!]
         [_ (unsupported-op op)])
-- 
2.43.0


From 371245affcd31fea3bde66b3cd71ec12ee1c1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 22/34] fix: conversion of floats of at least 2^63 to U64 in
 the chibi backends

---
 llrl0/src/backend/chibi/codegen.rs | 44 ++++++++++++++++++++++++++++--
 llrl1/backend/chibi/codegen.llrl   | 34 +++++++++++++++++++++--
 2 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 7f0a774..fa73c71 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -798,13 +798,51 @@ impl<'a> FunctionCodegen<'a> {
                     (FToS(_) | FToU(_), 8, 1 | 2) | (FToS(_), 8, 4) => {
                         self.w.cvttsd2si(Eax, Xmm0)?;
                     }
-                    (FToU(_), 4, 4) | (FToS(_) | FToU(_), 4, 8) => {
+                    (FToU(_), 4, 4) | (FToS(_), 4, 8) => {
                         self.w.cvttss2si(Rax, Xmm0)?;
                     }
-                    (FToU(_), 8, 4) | (FToS(_) | FToU(_), 8, 8) => {
-                        // FIXME: More precise convertion for (FToS(_) | FToU(_), 8, 8)
+                    (FToU(_), 8, 4) | (FToS(_), 8, 8) => {
                         self.w.cvttsd2si(Rax, Xmm0)?;
                     }
+                    (FToU(_), s @ (4 | 8), 8) => {
+                        let large_label = self.w.issue_label();
+                        let cont_label = self.w.issue_label();
+                        // xmm1 <- 2^63
+                        match s {
+                            4 => {
+                                self.w.movl(Eax, 2f32.powi(63).to_bits() as i32)?;
+                                self.w.movq(Xmm1, Rax)?;
+                                self.w.comiss(Xmm0, Xmm1)?;
+                            }
+                            8 => {
+                                self.w.movq(Rax, 2f64.powi(63).to_bits() as i64)?;
+                                self.w.movq(Xmm1, Rax)?;
+                                self.w.comisd(Xmm0, Xmm1)?;
+                            }
+                            _ => panic!(),
+                        }
+                        self.w.jae(Short(large_label))?;
+                        match s {
+                            4 => self.w.cvttss2si(Rax, Xmm0)?,
+                            8 => self.w.cvttsd2si(Rax, Xmm0)?,
+                            _ => panic!(),
+                        }
+                        self.w.jmpq(Short(cont_label))?;
+                        self.w.define(large_label, false);
+                        match s {
+                            4 => {
+                                self.w.subss(Xmm0, Xmm1)?;
+                                self.w.cvttss2si(Rax, Xmm0)?;
+                            }
+                            8 => {
+                                self.w.subsd(Xmm0, Xmm1)?;
+                                self.w.cvttsd2si(Rax, Xmm0)?;
+                            }
+                            _ => panic!(),
+                        }
+                        self.w.btcq(Rax, 63i8)?;
+                        self.w.define(cont_label, false);
+                    }
                     (FTrunc(_), 8, 4) => self.w.cvtsd2ss(Xmm0, Xmm0)?,
                     (FExt(_), 4, 8) => self.w.cvtss2sd(Xmm0, Xmm0)?,
                     (_, from, to) => unsupported_op!(op, from: from, to: to),
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 6358e68..d588988 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -679,15 +679,43 @@
         [(: (ir/unary:f-to-s _) 8 1) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-s _) 8 2) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-s _) 8 4) (cvttsd2si! cg eax xmm0)!]
-        [(: (ir/unary:f-to-s _) 8 8) (cvttsd2si! cg rax xmm0)!] ; FIXME: more precise convertion
+        [(: (ir/unary:f-to-s _) 8 8) (cvttsd2si! cg rax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 1) (cvttss2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 2) (cvttss2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 4) (cvttss2si! cg rax xmm0)!]
-        [(: (ir/unary:f-to-u _) 4 8) (cvttss2si! cg rax xmm0)!]
+        [(: (ir/unary:f-to-u _) 4 8)
+          @let1 large-label (writer/issue-label! (writer cg))
+          @let1 cont-label (writer/issue-label! (writer cg))
+          (movl! cg eax 1593835520 {I32})! ; 2^63
+          (movq! cg xmm1 rax)!
+          (comiss! cg xmm0 xmm1)!
+          (jae! cg (short: large-label))!
+          (cvttss2si! cg rax xmm0)!
+          (jmpq! cg (short: cont-label))!
+          (.define! cg large-label #f)
+          (subss! cg xmm0 xmm1)!
+          (cvttss2si! cg rax xmm0)!
+          (btcq! cg rax 63 {I8})!
+          (.define! cg cont-label #f)
+          unit]
         [(: (ir/unary:f-to-u _) 8 1) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 2) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 4) (cvttsd2si! cg rax xmm0)!]
-        [(: (ir/unary:f-to-u _) 8 8) (cvttsd2si! cg rax xmm0)!] ; FIXME: more precise convertion
+        [(: (ir/unary:f-to-u _) 8 8)
+          @let1 large-label (writer/issue-label! (writer cg))
+          @let1 cont-label (writer/issue-label! (writer cg))
+          (movq! cg rax 4890909195324358656 {I64})! ; 2^63
+          (movq! cg xmm1 rax)!
+          (comisd! cg xmm0 xmm1)!
+          (jae! cg (short: large-label))!
+          (cvttsd2si! cg rax xmm0)!
+          (jmpq! cg (short: cont-label))!
+          (.define! cg large-label #f)
+          (subsd! cg xmm0 xmm1)!
+          (cvttsd2si! cg rax xmm0)!
+          (btcq! cg rax 63 {I8})!
+          (.define! cg cont-label #f)
+          unit]
         [(: (ir/unary:f-trunc _) 8 4) (cvtsd2ss! cg xmm0 xmm0)!]
         [(: (ir/unary:f-ext _) 4 8) (cvtss2sd! cg xmm0 xmm0)!]
         [(: _ (let a) (let b)) (unsupported-op op from: a to: b)])
-- 
2.43.0


From 7567713fff36cef3276cc085e8dd9446440cef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 23/34] fix: opcodes in which a byte occurs twice (pminsb)

---
 xten0/src/asm/inst.rs            | 6 ++++--
 xten1/asm/inst.llrl              | 6 ++++--
 xtencg/src/instr/encoding.rs     | 6 +-----
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 9c994c7..32e8b52 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -14831,12 +14831,13 @@ pub struct Pminsb<Op0, Op1>(pub Op0, pub Op1);
 /// pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
@@ -14847,12 +14848,13 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
 /// pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 567046d..b993329 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -11814,13 +11814,14 @@
 ; pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Xmm (forall W Error) (WriteInst W Error (Pminsb Xmm Xmm)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
@@ -11829,13 +11830,14 @@
 ; pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Memory (forall W Error) (WriteInst W Error (Pminsb Xmm Memory)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 0b297a0..36916cf 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -155,11 +155,7 @@ impl Encoding {
     }
 
     pub fn put_opcode_part(&mut self, byte: u8) -> Result<(), &'static str> {
-        if self.opcode().any(|b| b == byte) {
-            Ok(())
-        } else {
-            self.opcode.push(byte).map_err(|_| "Too much opcode")
-        }
+        self.opcode.push(byte).map_err(|_| "Too much opcode")
     }
 
     pub fn reg_in_opcode(&self) -> Option<Size> {
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index cdcdd9d..2ccd8e8 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -1673,7 +1673,7 @@
 # pminsb
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| pminsb xmm xmm/m128 | `66 0F 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
+| pminsb xmm xmm/m128 | `66 0F 38 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
 
 # pminsd
 | Instruction | Encoding | Description |
-- 
2.43.0


From 4ee9169c33ac7fec78e7eba4bfdcbacf14dad5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 24/34] fix: jecxz is a jump on ecx, not on rcx

---
 xten0/src/asm/inst.rs            | 3 ++-
 xten1/asm/inst.llrl              | 3 ++-
 xtencg/src/x86.csv               | 2 +-
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 32e8b52..257c5c5 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -9527,7 +9527,8 @@ pub struct Jecxz<Op0>(pub Op0);
 /// jecxz rel8: Jump short if ECX register is 0.
 impl<W: io::Write + ?Sized> WriteInst<W> for Jecxz<i8> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // E3 cb
+        // 67 E3 cb
+        put(w, 0x67)?;
         put(w, 0xE3)?;
         puts(w, self.0.to_le_bytes())?;
         Ok(())
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index b993329..32a8273 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -6783,9 +6783,10 @@
 ; jecxz rel8: Jump short if ECX register is 0.
 (instance WriteInst.Jecxz.I8 (forall W Error) (WriteInst W Error (Jecxz I8)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; E3 cb
+    ; 67 E3 cb
     (with1 (jecxz: (let op0)) inst
       (let ()
+        (write-u8! 103 w)!
         (write-u8! 227 w)!
         (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
         (ok unit)))))
diff --git a/xtencg/src/x86.csv b/xtencg/src/x86.csv
index c3cf568..d71e754 100644
--- a/xtencg/src/x86.csv
+++ b/xtencg/src/x86.csv
@@ -839,7 +839,7 @@ REX.W+ CF 	IRETQ 	NP		???	???	???			V	NE		iretq		Interrupt return (64-bit operan
 76 cb 	JBE rel8 	D	R	E.CF E.ZF					V	V		jbe		Jump short if below or equal (CF=1 or ZF=1).
 72 cb 	JC rel8 	D	R	E.CF					V	V		jc		Jump short if carry (CF=1).
 E3 cb 	JCXZ rel8 								NE	V				Jump short if CX register is 0.
-E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
+67 E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
 E3 cb 	JRCXZ rel8 	D	R	RCX					V	NE		jrcxz		Jump short if RCX register is 0.
 74 cb 	JE rel8 	D	R	E.ZF					V	V		je		Jump short if equal (ZF=1).
 7F cb 	JG rel8 	D	R	E.ZF E.SF E.OF					V	V		jg		Jump short if greater (ZF=0 and SF=OF).
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index 2ccd8e8..c555448 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -813,7 +813,7 @@
 # jecxz
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| jecxz rel8 | `E3 cb [c=0]` | Jump short if ECX register is 0. |
+| jecxz rel8 | `67 E3 cb [c=0]` | Jump short if ECX register is 0. |
 
 # jg
 | Instruction | Encoding | Description |
-- 
2.43.0


From b8213f1554b0278a69c99b22436eb05d1e49ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 25/34] fix: movq of an immediate to a label refers to the
 label

---
 xten0/src/asm/writer.rs | 11 ++++++-----
 xten1/asm/writer.llrl   |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..d0cf60f 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -426,7 +426,8 @@ impl_conditional_jmp!(Js::js);
 impl_conditional_jmp!(Jz::jz);
 
 macro_rules! impl_movq_label_o {
-    ($o:tt) => {
+    // $disp: position of the displacement relative to the end of the instruction
+    ($o:tt, $disp:literal) => {
         /// movq Label O
         impl<W> WriteInst<W> for super::inst::Movq<Label, $o>
         where
@@ -434,16 +435,16 @@ macro_rules! impl_movq_label_o {
         {
             fn write_inst(&self, w: &mut W) -> io::Result<()> {
                 w.movq(memory(Rip + 0i32), self.1)?;
-                w.use_relative(-4, self.0, -4, RelocType::PcRel32);
+                w.use_relative($disp, self.0, $disp, RelocType::PcRel32);
                 Ok(())
             }
         }
     };
 }
 
-impl_movq_label_o!(Gpr64);
-impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+impl_movq_label_o!(Gpr64, -4);
+impl_movq_label_o!(Xmm, -4);
+impl_movq_label_o!(i32, -8); // an immediate follows the displacement
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
diff --git a/xten1/asm/writer.llrl b/xten1/asm/writer.llrl
index fd33fe5..dbc55c1 100644
--- a/xten1/asm/writer.llrl
+++ b/xten1/asm/writer.llrl
@@ -305,14 +305,15 @@
         (.use-relative! w -1 label -1 reloc-type:pc-rel8)
         (ok unit)))))
 
-($for1 $O (Gpr64 Xmm I32)
+; $disp: position of the displacement relative to the end of the instruction
+($for [$O $disp] ([Gpr64 -4] [Xmm -4] [I32 -8])
   ; movq Label $O
   (instance ($symbol WriteInst.Section.Movq.Label. $O)
     (forall W Error) (WriteInst W Error (Movq Label $O)) (where (Write W Error) (Section W))
     (function (write-inst! w inst)
       (with1 (movq: (let label) (let o)) inst
         (write-inst! w (movq: (memory (+. rip 0 {I32})) o))!
-        (.use-relative! w -4 label -4 reloc-type:pc-rel32)
+        (.use-relative! w $disp label $disp reloc-type:pc-rel32)
         (ok unit)))))
 
 ($for1 $O (Gpr64 Xmm)
-- 
2.43.0


From c6c49ca62bdfa1c325a81e8dc76f344ba9e44ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 26/34] fix: the in-process linker reports offsets that are out
 of range

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From 11117b0d484e99ca8211b4ebbcc9328edfce9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 27/34] fix: address table entries of local symbols in the
 in-process linker

---
 xten0/src/jit.rs               |  3 +++
 xten0/src/jit/address_table.rs |  5 +++++
 xten1/jit.llrl                 | 12 ++++++++----
 xten1/jit/address-table.llrl   |  5 +++++
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..e5aea68 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,6 +237,9 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
+            RelocTarget::Symbol(ref symbol) if self.local_symbols.contains_key(symbol.as_str()) => {
+                Ok(self.address_table.put(self.local_symbols[symbol.as_str()])?)
+            }
             RelocTarget::Symbol(ref symbol) => self
                 .address_table
                 .prepare(symbol, || self.symbol_table.resolve(symbol))?
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..e96ba67 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -16,6 +16,11 @@ impl AddressTable {
         }
     }
 
+    /// Add an entry that is not shared by name.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     pub fn prepare(
         &mut self,
         symbol: &str,
diff --git a/xten1/jit.llrl b/xten1/jit.llrl
index 2f64fe4..84cd16b 100644
--- a/xten1/jit.llrl
+++ b/xten1/jit.llrl
@@ -179,13 +179,17 @@
         (ok (locate (location: section 0) locator))])))
 
 (function (linker/reloc-target-address-table-entry! reloc linker) {(-> Reloc Linker (Result (Ptr (Ptr U8)) Error))}
-  (with1 (linker: (let st) (let at) _ _) linker
+  (with1 (linker: (let st) (let at) _ (let local-symbols)) linker
     (match (reloc/target reloc)
       [(reloc-target:symbol (let symbol))
         (if-match1
           (some (let ptr))
-          (result/map-err conv (address-table/prepare! symbol [^0 (symbol-table/resolve? symbol st)] at))!
-          (ok ptr)
-          (err (error:undefined-symbol symbol)))]
+          (hash-map/get? symbol local-symbols)
+          (result/map-err conv (address-table/put! ptr at))
+          (if-match1
+            (some (let ptr))
+            (result/map-err conv (address-table/prepare! symbol [^0 (symbol-table/resolve? symbol st)] at))!
+            (ok ptr)
+            (err (error:undefined-symbol symbol))))]
       [(reloc-target:section (let section))
         (err (error:unsupported-section-relocation (reloc/ty reloc)))])))
diff --git a/xten1/jit/address-table.llrl b/xten1/jit/address-table.llrl
index 6082ce2..9758741 100644
--- a/xten1/jit/address-table.llrl
+++ b/xten1/jit/address-table.llrl
@@ -14,6 +14,11 @@
   (with1 (address-table: _ (let payload)) at
     (result/map-err conv (table/dispose! payload))))
 
+; Add an entry that is not shared by name.
+(function (address-table/put! ptr at) {(-> (Ptr U8) AddressTable (Result (Ptr (Ptr U8)) Error))}
+  (with1 (address-table: _ (let payload)) at
+    (result/map-err conv (table/put! ptr payload))))
+
 (function (address-table/prepare! symbol resolve-symbol? at)
   {(-> String (-> (Option (Ptr U8))) AddressTable (Result (Option (Ptr (Ptr U8))) Error))}
   (with1 (address-table: (let entries) (let payload)) at
-- 
2.43.0


From 570d475c7d282fea9d867a98796d21e95d5f7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 28/34] fix: the section headers of an object with a .bss
 section (xten1)

---
 xten1/elf/format.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xten1/elf/format.llrl b/xten1/elf/format.llrl
index ea42bc2..538b933 100644
--- a/xten1/elf/format.llrl
+++ b/xten1/elf/format.llrl
@@ -381,7 +381,7 @@
     (let* ([sections (vector/consume-all! sections)]
            ; Section headers are placed after ELF header + Program header (0) + Sections, with alignment
            [shoff (+ elf/header-size
-                     (|> sections (it/map [^1 (section-body/size #f (section/body %1))]) it/sum))]
+                     (|> sections (it/map [^1 (section-body/size #t (section/body %1))]) it/sum))]
            [shalign (% (- 8 (% shoff 8)) 8)]
            [shoff (+ shoff shalign)]
            [shnum (|> sections array/length (conv-to U16))]
-- 
2.43.0


From 7c6f6629b3e0d9fa41e707cdd6f5951ef1e85036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 29/34] fix: module names with dots loaded the file of another
 name

---
 llrl0/src/source/loader.rs | 11 +++++------
 llrl1/source/loader.llrl   |  9 +++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/llrl0/src/source/loader.rs b/llrl0/src/source/loader.rs
index fc8920c..4c0afb8 100644
--- a/llrl0/src/source/loader.rs
+++ b/llrl0/src/source/loader.rs
@@ -79,14 +79,13 @@ impl LoadablePackage {
                 let fs_path = {
                     let mut fs_path = fs_path.clone();
                     match path.module.raw_parts().as_slice() {
-                        [] => fs_path.push("prelude"),
-                        parts => {
-                            for part in parts {
-                                fs_path.push(part);
-                            }
+                        [] => fs_path.push(format!("prelude.{}", SOURCE_CODE_EXTENSION)),
+                        [dirs @ .., file] => {
+                            fs_path.extend(dirs);
+                            // `set_extension` would replace a part of a name that contains dots.
+                            fs_path.push(format!("{}.{}", file, SOURCE_CODE_EXTENSION));
                         }
                     }
-                    fs_path.set_extension(SOURCE_CODE_EXTENSION);
                     fs_path
                 };
 
diff --git a/llrl1/source/loader.llrl b/llrl1/source/loader.llrl
index 9b35e79..9af333d 100644
--- a/llrl1/source/loader.llrl
+++ b/llrl1/source/loader.llrl
@@ -95,10 +95,11 @@
     [(loadable-package:file-system (let fs-path))
       (let* ([module-name (path/module path)]
              [fs-path
-               (io/path/with-extension (some source/source-file-extension)
-                 (if (path/module-name/prelude? module-name)
-                   (io/path/join fs-path "prelude")
-                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name))))])
+               (if (path/module-name/prelude? module-name)
+                 (io/path/join fs-path "prelude")
+                 (it/fold io/path/join fs-path (path/module-name/raw-parts module-name)))]
+             ; io/path/with-extension would replace a part of a name that contains dots.
+             [fs-path (string fs-path "." source/source-file-extension)])
         (match (io/with-file! fs-path "r" read-string-to-end!)
           [(ok (let text))
             (ok (source/from-code-text path locator text))]
-- 
2.43.0


From 14efff75e6a1f2b17ab5fb2f856fa0a4fb4265d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 30/34] fix: exit with failure when the program run is
 terminated by a signal

---
 llrl0/src/main.rs | 5 +++--
 llrl1/main.llrl   | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/main.rs b/llrl0/src/main.rs
index a7107a6..3e8cd83 100644
--- a/llrl0/src/main.rs
+++ b/llrl0/src/main.rs
@@ -7,8 +7,9 @@ use std::process::{exit, ExitStatus};
 fn main() {
     match run_pipeline() {
         Ok(status) => {
-            if let Some(code) = status.and_then(|s| s.code()) {
-                exit(code);
+            if let Some(status) = status {
+                // A program terminated by a signal has no exit code, but did not succeed.
+                exit(status.code().unwrap_or(1));
             }
         }
         Err(e) => {
diff --git a/llrl1/main.llrl b/llrl1/main.llrl
index d1162e7..0340101 100644
--- a/llrl1/main.llrl
+++ b/llrl1/main.llrl
@@ -154,7 +154,9 @@
           ["default" (run! (phantom DefaultBackend))]
           [(let backend) (error! (string "Unsupported backend: " backend))])
         [(ok (some (let status))) (exit! status)]
-        [(ok none)]
+        [(ok none)
+          ; A program terminated by a signal has no exit status, but did not succeed.
+          (when (is? (some _) ~run-args) (exit! 1))]
         [(err (let e)) (error! (string e))]))))
 
 (function (show-usage!)
-- 
2.43.0


From cbc52ff9ba54f746482ed340939bb3c31267b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 31/34] fix: arguments after -- belong to the program in
 llrl1's driver too

---
 llrl1/main.llrl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/llrl1/main.llrl b/llrl1/main.llrl
index 0340101..0571bd5 100644
--- a/llrl1/main.llrl
+++ b/llrl1/main.llrl
@@ -22,11 +22,15 @@
   arg:double-slash)
 
 (function (parse-args! it) {(-> (Iterator String) (Iterator Arg))}
-  (if-match1 (some (let arg)) (iterator/next! it)
-    (let ([arg (parse-arg! arg it)]
-          [args (parse-args! it)])
-      (it/chain (iterator/only arg) args))
-    iterator/empty))
+  (match (iterator/next! it)
+    [(some "--") ; everything that follows is an argument to run
+      (it/chain (iterator/only arg:double-slash) (it/map arg: it))]
+    [(some (let arg))
+      (let ([arg (parse-arg! arg it)]
+            [args (parse-args! it)])
+        (it/chain (iterator/only arg) args))]
+    [none
+      iterator/empty]))
 
 (function (parse-arg! arg it) {(-> String (Iterator String) Arg)}
   (cond
@@ -53,8 +57,6 @@
       [(string/starts-with? $short arg)
         ($id (string/skip 2 arg))])
 
-    [(eq? "--" arg)
-      arg:double-slash]
     [(string/starts-with? "-" arg)
       (error! (string "Unknown option " arg))]
     [else
@@ -133,9 +135,7 @@
             (when (not (pipeline/register-package! name path pipeline))
               (error! (string "Failed to register package: " name))))]
         [arg:double-slash
-          (if-match1 (some (let run-args)) ~run-args
-            (vector/push! "--" run-args)
-            (set! run-args (some vector/empty)))]))
+          (set! run-args (some vector/empty))]))
 
     (when (and (is? none ~run-args) (or ~run? (is? none ~output)))
       (set! run-args (some vector/empty)))
-- 
2.43.0


From 8b91547fd927fca784721a108732d8f0415bd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 32/34] fix: a class that is its own superclass overflowed the
 stack

---
 llrl0/src/module/sema/type_inference.rs | 6 ++++--
 llrl1/module/sema/type-inference.llrl   | 8 +++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c003087..5b5a240 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -2,7 +2,7 @@ use super::{
     AvailableInstances, Error, External, InferredKinds, Module, ModuleId, Result, SymbolMap,
 };
 use crate::ast::{self, Dfs as _};
-use crate::topological_sort;
+use crate::topological_sort::{self, DependencyList};
 use derive_new::new;
 use either::*;
 use if_chain::if_chain;
@@ -495,7 +495,9 @@ impl<'a, E: External> Context<'a, E> {
         classes: &HashMap<ast::NodeId<ast::ClassCon>, ast::ClassCon>,
     ) -> Result<()> {
         for group in topological_sort::run(classes.values().map(|con| (con.id, con))) {
-            if group.len() >= 2 {
+            let mut cyclic = group.len() >= 2;
+            group[0].traverse_dependencies(&mut |id| cyclic |= *id == group[0].id);
+            if cyclic {
                 let ids = group.iter().map(|cls| cls.id).collect();
                 Err(Error::CyclicClasses(ids))?
             }
diff --git a/llrl1/module/sema/type-inference.llrl b/llrl1/module/sema/type-inference.llrl
index acc5a59..e4a9641 100644
--- a/llrl1/module/sema/type-inference.llrl
+++ b/llrl1/module/sema/type-inference.llrl
@@ -345,10 +345,16 @@
         (for (constraint: _ (let rep)) (class-con/superclasses class)
           (when-match1 (constraint-rep:class (let id) _) rep (f id))))
       (ord-map/elems classes))
-    (when (<= 2 (vector/length group))
+    (when (or (<= 2 (vector/length group)) (it/any? own-superclass? group))
       (err (error:cyclic-classes (collect (it/map class-con/id group))))!))
   (ok unit))
 
+(function (own-superclass? class) {(-> ClassCon Bool)}
+  (it/any?
+    (case1 (constraint: _ (let rep))
+      (if-match1 (constraint-rep:class (let id) _) rep (eq? id (class-con/id class)) #f))
+    (class-con/superclasses class)))
+
 (function (infer-instance-satisfaction! inst ctx)
   {(forall E) (-> InstanceCon (Context E) (Result unit Error)) (where (External E))}
   (let* ([inst-id (instance-con/id inst)]
-- 
2.43.0


From ea35d624b76f67c63a1e233c61fd872dc035224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 33/34] fix: output not yet written appeared twice when a
 program could not be started

---
 rt/rt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 6102d0b..6b52f4c 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -141,7 +141,7 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // leaves the buffers of the streams to the parent
   }
 
   // fork parent
@@ -205,7 +205,7 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // leaves the buffers of the streams to the parent
   }
 
   // fork parent
-- 
2.43.0


From bd8f555a142ab0c0f4ba242a8ea943358e91eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 34/34] fix: LLVM backends misread booleans in values with
 several layouts under -O

---
 llrl0/src/backend/llvm/codegen.rs | 70 +++++++++++++++++++++++++-
 llrl1/backend/llvm/codegen.llrl   | 84 ++++++++++++++++++++++++++-----
 2 files changed, 139 insertions(+), 15 deletions(-)

diff --git a/llrl0/src/backend/llvm/codegen.rs b/llrl0/src/backend/llvm/codegen.rs
index 68aafe9..77585cb 100644
--- a/llrl0/src/backend/llvm/codegen.rs
+++ b/llrl0/src/backend/llvm/codegen.rs
@@ -665,12 +665,16 @@ impl<'a, 'ctx: 'm, 'm> Codegen<'a, 'ctx, 'm> {
         to: impl LLVMAnyType<'ctx>,
         x: impl LLVMAnyValue<'ctx, 'm>,
     ) -> LLVMValue<'ctx, 'm> {
+        // The unused bits of integers such as i1 are unspecified in memory unless they are loaded
+        // as the type they were stored as, so values are reinterpreted in whole bytes.
+        let x = self.build_whole_bytes(x.as_value());
+        let to = to.as_type();
         let a = x.get_type();
-        let b = to.as_type();
+        let b = self.whole_bytes_type(to);
         let a_size = self.ctx.data_layout().type_alloc_size(a);
         let b_size = self.ctx.data_layout().type_alloc_size(b);
 
-        if a_size < b_size {
+        let y = if a_size < b_size {
             let ptr = self.builder.build_entry_alloca("reinterpret", b);
             let a_ptr = self.builder.build_bit_cast(ptr, LLVMPointerType::get(a, 0));
             self.builder.build_store(x, a_ptr);
@@ -680,6 +684,68 @@ impl<'a, 'ctx: 'm, 'm> Codegen<'a, 'ctx, 'm> {
             self.builder.build_store(x, ptr);
             let b_ptr = self.builder.build_bit_cast(ptr, LLVMPointerType::get(b, 0));
             self.builder.build_load(b_ptr)
+        };
+        self.build_from_whole_bytes(y, to)
+    }
+
+    /// The type of the same memory layout whose integers occupy all bits of their bytes.
+    fn whole_bytes_type(&self, ty: LLVMType<'ctx>) -> LLVMType<'ctx> {
+        if ty.is_type_of::<llvm::IntegerType>() {
+            let size = self.ctx.data_layout().type_alloc_size(ty);
+            return LLVMIntegerType::get(size as u32 * 8, ty.context()).as_type();
+        }
+        if let Some(struct_ty) = ty.as_type_of::<llvm::StructType>() {
+            let elems = struct_ty.elements().unwrap_or_default();
+            let whole_elems = elems
+                .iter()
+                .map(|ty| self.whole_bytes_type(*ty))
+                .collect::<Vec<_>>();
+            if whole_elems != elems {
+                return LLVMStructType::get(&whole_elems, struct_ty.is_packed(), ty.context())
+                    .as_type();
+            }
+        }
+        ty
+    }
+
+    fn build_whole_bytes(&self, x: LLVMValue<'ctx, 'm>) -> LLVMValue<'ctx, 'm> {
+        let ty = self.whole_bytes_type(x.get_type());
+        if ty == x.get_type() {
+            return x;
+        }
+        match ty.as_type_of::<llvm::StructType>() {
+            Some(struct_ty) => {
+                let mut value = LLVMConstant::undef(ty).as_value();
+                for i in 0..struct_ty.elements_len().unwrap() as u32 {
+                    let elem = self.builder.build_extract_value(x, i);
+                    let elem = self.build_whole_bytes(elem);
+                    value = self.builder.build_insert_value(value, elem, i);
+                }
+                value
+            }
+            None => self.builder.build_zext(x, ty),
+        }
+    }
+
+    fn build_from_whole_bytes(
+        &self,
+        x: LLVMValue<'ctx, 'm>,
+        to: LLVMType<'ctx>,
+    ) -> LLVMValue<'ctx, 'm> {
+        if to == x.get_type() {
+            return x;
+        }
+        match to.as_type_of::<llvm::StructType>() {
+            Some(struct_ty) => {
+                let mut value = LLVMConstant::undef(to).as_value();
+                for (i, ty) in struct_ty.elements().unwrap().into_iter().enumerate() {
+                    let elem = self.builder.build_extract_value(x, i as u32);
+                    let elem = self.build_from_whole_bytes(elem, ty);
+                    value = self.builder.build_insert_value(value, elem, i as u32);
+                }
+                value
+            }
+            None => self.builder.build_trunc(x, to),
         }
     }
 
diff --git a/llrl1/backend/llvm/codegen.llrl b/llrl1/backend/llvm/codegen.llrl
index 6ff255b..deb96bf 100644
--- a/llrl1/backend/llvm/codegen.llrl
+++ b/llrl1/backend/llvm/codegen.llrl
@@ -281,19 +281,7 @@
           [(ir/unary:struct-elem _ (let i))
             (llvm/build! (conv ctx) (extract-value ,x ,(conv i)))]
           [(ir/unary:reinterpret (let to))
-            (let* ([a (llvm/value/type x)]
-                   [b (codegen/type ctx to)]
-                   [as (llvm/data-layout/type-alloc-size (conv ctx) a)]
-                   [bs (llvm/data-layout/type-alloc-size (conv ctx) b)])
-              (if (< as bs)
-                (let* ([ptr (llvm/build! (conv ctx) (entry-alloca "reinterpret" ,b))]
-                       [a-ptr (llvm/build! (conv ctx) (bit-cast ,ptr (pointer ,a)))]
-                       [_ (llvm/build! (conv ctx) (store ,x ,a-ptr))])
-                  (llvm/build! (conv ctx) (load ,ptr)))
-                (let* ([ptr (llvm/build! (conv ctx) (entry-alloca "reinterpret" ,a))]
-                       [_ (llvm/build! (conv ctx) (store ,x ,ptr))]
-                       [b-ptr (llvm/build! (conv ctx) (bit-cast ,ptr (pointer ,b)))])
-                  (llvm/build! (conv ctx) (load ,b-ptr)))))]
+            (codegen/reinterpret! ctx (codegen/type ctx to) x)]
           [ir/unary:syntax-body
             (let1 body-ty (codegen/type ctx (option/force (ir/rt/ty rt)))
               (runtime/syntax/build-syntax-body! (conv ctx) x body-ty))]
@@ -563,6 +551,76 @@
 
         (cont/continue! ctx merge-cont))]))
 
+;; The unused bits of integers such as i1 are unspecified in memory unless they are loaded
+;; as the type they were stored as, so values are reinterpreted in whole bytes.
+(function (codegen/reinterpret! ctx to x)
+  {(forall E) (-> (BuildContext E) llvm/Type llvm/Value llvm/Value) (where (BuildEnv E))}
+  (let* ([x (codegen/whole-bytes! ctx x)]
+         [a (llvm/value/type x)]
+         [b (codegen/whole-bytes-type ctx to)]
+         [as (llvm/data-layout/type-alloc-size (conv ctx) a)]
+         [bs (llvm/data-layout/type-alloc-size (conv ctx) b)]
+         [y (if (< as bs)
+              (let* ([ptr (llvm/build! (conv ctx) (entry-alloca "reinterpret" ,b))]
+                     [a-ptr (llvm/build! (conv ctx) (bit-cast ,ptr (pointer ,a)))]
+                     [_ (llvm/build! (conv ctx) (store ,x ,a-ptr))])
+                (llvm/build! (conv ctx) (load ,ptr)))
+              (let* ([ptr (llvm/build! (conv ctx) (entry-alloca "reinterpret" ,a))]
+                     [_ (llvm/build! (conv ctx) (store ,x ,ptr))]
+                     [b-ptr (llvm/build! (conv ctx) (bit-cast ,ptr (pointer ,b)))])
+                (llvm/build! (conv ctx) (load ,b-ptr))))])
+    (codegen/from-whole-bytes! ctx to y)))
+
+;; The type of the same memory layout whose integers occupy all bits of their bytes.
+(function (codegen/whole-bytes-type ctx ty)
+  {(forall E) (-> (BuildContext E) llvm/Type llvm/Type) (where (BuildEnv E))}
+  (cond
+    [(llvm/type/integer? ty)
+      (llvm/type (conv ctx) (integer ,(conv (* 8 (llvm/data-layout/type-alloc-size (conv ctx) ty)))))]
+    [(and (llvm/type/struct? ty) (not (llvm/type/opaque-struct? ty)))
+      (let* ([elems (option/force (llvm/type/struct-element-types ty))]
+             [whole-elems {(Array llvm/Type)} (|> elems (it/map [^1 (codegen/whole-bytes-type ctx %1)]) collect)])
+        (if (it/all? [^1 (with1 (: (let a) (let b)) %1 (eq? a b))] (it/zip elems whole-elems))
+          ty
+          (llvm/type/struct (llvm/type/context ty) whole-elems (llvm/type/packed-struct? ty))))]
+    [else
+      ty]))
+
+(function (codegen/whole-bytes! ctx x)
+  {(forall E) (-> (BuildContext E) llvm/Value llvm/Value) (where (BuildEnv E))}
+  (let1 ty (codegen/whole-bytes-type ctx (llvm/value/type x))
+    (cond
+      [(eq? ty (llvm/value/type x))
+        x]
+      [(llvm/type/struct? ty)
+        (it/fold
+          [^2
+            (with1 (: (let i) _) %2
+              (let* ([elem (llvm/build! (conv ctx) (extract-value ,x ,(conv i)))]
+                     [elem (codegen/whole-bytes! ctx elem)])
+                (llvm/build! (conv ctx) (insert-value ,%1 ,(conv i) ,elem))))]
+          (llvm/build! (conv ctx) (undef ,ty))
+          (it/with-index (option/force (llvm/type/struct-element-types ty))))]
+      [else
+        (llvm/build! (conv ctx) (zext ,x ,ty))])))
+
+(function (codegen/from-whole-bytes! ctx to x)
+  {(forall E) (-> (BuildContext E) llvm/Type llvm/Value llvm/Value) (where (BuildEnv E))}
+  (cond
+    [(eq? to (llvm/value/type x))
+      x]
+    [(llvm/type/struct? to)
+      (it/fold
+        [^2
+          (with1 (: (let i) (let ty)) %2
+            (let* ([elem (llvm/build! (conv ctx) (extract-value ,x ,(conv i)))]
+                   [elem (codegen/from-whole-bytes! ctx ty elem)])
+              (llvm/build! (conv ctx) (insert-value ,%1 ,(conv i) ,elem))))]
+        (llvm/build! (conv ctx) (undef ,to))
+        (it/with-index (option/force (llvm/type/struct-element-types to))))]
+    [else
+      (llvm/build! (conv ctx) (trunc ,x ,to))]))
+
 (function (codegen/call! ctx clos args)
   {(forall E) (-> (BuildContext E) llvm/Value (Array llvm/Value) llvm/Value) (where (BuildEnv E))}
   (let* ([fp (llvm/build! (conv ctx) (extract-value ,clos 0))]
-- 
2.43.0

