From 92d726fbf1d0c1b591f475917ec5d35a235989ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:31 +0000
Subject: [PATCH 01/36] fix: Rbset.mapMono must test the images in increasing
 order

The images were accumulated by foldl, hence in decreasing order, so strictly
increasing functions raised NonMonotonic and decreasing ones were accepted.
---
 src/mosmllib/Rbset.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Rbset.sml b/src/mosmllib/Rbset.sml
index 4954dc5..775113a 100644
--- a/src/mosmllib/Rbset.sml
+++ b/src/mosmllib/Rbset.sml
@@ -348,7 +348,7 @@ struct
   exception NonMonotonic
 
   fun mapMono (f, compare) s =
-      let val fxs = foldl (fn (x, res) => f x :: res) [] s
+      let val fxs = foldr (fn (x, res) => f x :: res) [] s
 	  fun sorted []         = true
 	    | sorted (y1 :: yr) = 
 	      let fun h x0 []       = true
-- 
2.43.0


From 16186fcc06ac9016a5f29ec455b3683c6586de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 02/36] fix: Dynarray.subArray must include the upper index

As documented, the values in the range [0,n-m] of subArray(a,m,n) equal those of a
in [m,n]; element n-m had the default value.
---
 src/mosmllib/Dynarray.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Dynarray.sml b/src/mosmllib/Dynarray.sml
index 3b0bd6f..f49648c 100644
--- a/src/mosmllib/Dynarray.sml
+++ b/src/mosmllib/Dynarray.sml
@@ -15,7 +15,8 @@ fun subArray (BLOCK(arr,dflt),lo,hi) = let
       val arrval = !arr
       fun copy i = (Array.sub(arrval,i+lo)) handle _ => dflt
       in
-        BLOCK(ref(Array.tabulate(hi-lo,copy)),dflt)
+        if hi < lo then raise Size
+        else BLOCK(ref(Array.tabulate(hi-lo+1,copy)),dflt)
       end
 
 fun fromList (initlist, dflt) = BLOCK(ref (Array.fromList initlist),dflt)
-- 
2.43.0


From 7fb75019da33f9843e76d2e8e103f3ed0d6904f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:48 +0000
Subject: [PATCH 03/36] fix: sml_uname must not store young strings into a
 block that may have been promoted

---
 src/runtime/unix.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/runtime/unix.c b/src/runtime/unix.c
index 81fae08..42eb57b 100644
--- a/src/runtime/unix.c
+++ b/src/runtime/unix.c
@@ -42,16 +42,17 @@ value sml_uname(value v)          /* ML */
 #else
   struct utsname buf;
   value res;
-  Push_roots(r, 1);
+  Push_roots(r, 3);
 
   if (uname(&buf) == -1) 
       failwith("uname");  
+  r[0] = copy_string (buf.machine);
+  r[1] = copy_string (buf.sysname);
+  r[2] = copy_string (buf.release);
   res = alloc (3, 0);
-  r[0] = res;
-  Field (r[0], 0) = copy_string (buf.machine);
-  Field (r[0], 1) = copy_string (buf.sysname);
-  Field (r[0], 2) = copy_string (buf.release);
-  res = r[0];
+  Field (res, 0) = r[0];
+  Field (res, 1) = r[1];
+  Field (res, 2) = r[2];
   Pop_roots();
   return res;
 #endif
-- 
2.43.0


From 4f1fe43a613e2e2e48bd12e887858f01783f1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:41 +0000
Subject: [PATCH 04/36] fix: string_mlval/mlval_string must keep the whole
 block size on 64-bit machines

---
 src/runtime/mosml.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a84c682..82264cb 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1359,15 +1359,15 @@ value string_mlval(value val)	/* ML */
      not used from now on. */
   if (extern_pos == 0)
     {
-      s = alloc_string(8);
+      s = alloc_string(2 * sizeof(asize_t));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
       ((asize_t *)s)[1] = (asize_t)res;    
     }
   else
     {
-      s = alloc_string(4 + extern_pos * sizeof(unsigned long));
+      s = alloc_string(sizeof(asize_t) + extern_pos * sizeof(unsigned long));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
-      bcopy((char *) extern_block, &Byte(s, 4), 
+      bcopy((char *) extern_block, &Byte(s, sizeof(asize_t)), 
 	    extern_pos * sizeof(unsigned long));
     }
   stat_free((char *) extern_block);
@@ -1402,11 +1402,11 @@ value mlval_string(value s)	/* ML */
   hd = Hd_val (res);
   color = Color_hd (hd);
   Assert (color == White || color == Black);
-  if (bhsize + 4 > string_length(s)) {
+  if (bhsize + sizeof(mlsize_t) > string_length(s)) {
     Hd_val (res) = hd;                      /* Avoid confusing the GC. */
     failwith ("mlval_string: truncated object");
   }
-  bcopy(&Byte(s, 4), Hp_val(res), bhsize);
+  bcopy(&Byte(s, sizeof(mlsize_t)), Hp_val(res), bhsize);
   adjust_pointers((value*)(Hp_val (res)), whsize, color);
 
   return res;
-- 
2.43.0


From 9bd4918a755decf2ef9bd70876f1341edd760969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:30 +0000
Subject: [PATCH 05/36] fix: output_value/input_value must preserve unboxed
 integers on 64-bit machines

---
 src/runtime/extern.c | 15 +++++++++++++++
 src/runtime/intern.c |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 4970291..f3d5aab 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -141,6 +141,21 @@ value extern_val(chan, v)       /* ML */
   extern_table_used = 0;
   res = emit_all(v);
   stat_free((char *) extern_table);
+#ifdef SIXTYFOUR
+  if (extern_pos == 0 && (value) (int32) res != (value) res) {
+    /* An integer that does not fit in a word of the file: use the
+       compact format, with no objects. */
+    int i;
+    putword(chan, Compact_magic_number);
+    putword(chan, 0);
+    putword(chan, 0);
+    putword(chan, 0);
+    putch(chan, CODE_INT64);
+    for (i = 64 - 8; i >= 0; i -= 8) putch(chan, Long_val(res) >> i);
+    stat_free((char *) extern_block);
+    return Val_unit;
+  }
+#endif
   putword(chan, Extern_magic_number);
   putword(chan, extern_pos);
   if (extern_pos == 0)
diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index af7f408..ecae68a 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -444,7 +444,7 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
 
   whsize = getword(chan);
   if (whsize == 0) {
-    res = (value) getword(chan);
+    res = (value) (int32) getword(chan); /* with sign extension */
     if (Is_long(res))
       return res;
     else
-- 
2.43.0


From d7712dbccceea8133de69d04e4235fa141e29e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:32 +0000
Subject: [PATCH 06/36] fix: output_value must reject weak arrays, which
 input_value cannot restore

---
 src/runtime/extern.c   | 1 +
 src/runtime/externcp.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index f3d5aab..c927b80 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -106,6 +106,7 @@ byteoffset_t emit_all(value root)
     case Double_tag:
       read_pos += sz;
       break;
+    case Weak_tag:
     case Abstract_tag:
     case Final_tag:
       invalid_argument("output_value: abstract value");
diff --git a/src/runtime/externcp.c b/src/runtime/externcp.c
index 7514d38..39e864c 100644
--- a/src/runtime/externcp.c
+++ b/src/runtime/externcp.c
@@ -103,6 +103,7 @@ static void emit_compact(struct channel * chan, value v)
         size_64 += 1 + sizeof(double) / 8;
         break;
       }
+      case Weak_tag:
       case Abstract_tag:
       case Final_tag:
         invalid_argument("output_compact_value: abstract value");
-- 
2.43.0


From 564353595aab5f43ab112a1d27255c022cc5505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:15 +0000
Subject: [PATCH 07/36] fix: a direct write in putblock must discard the
 overwritten buffer contents

---
 src/runtime/io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index f14e531..5a7700e 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -144,6 +144,9 @@ void putblock(struct channel * channel, char * p, unsigned n)
   if (channel->curr == channel->buff && n >= m) {
     really_write(channel->fd, p, n);
     channel->offset += n;
+    /* After a seek_out back to the start of the buffer, the buffered
+       bytes have just been overwritten */
+    channel->max = channel->buff;
   } else if (n <= m) {
     bcopy(p, channel->curr, n);
     channel->curr += n;
-- 
2.43.0


From 844f6d2249660afbd915a73cb16ed1983b47f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:15 +0000
Subject: [PATCH 08/36] fix: flush must keep the position of an output channel
 after seek_out into its buffer

---
 src/runtime/io.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 5a7700e..ceb4f23 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -103,9 +103,14 @@ value flush(struct channel * channel)            /* ML */
   n = channel->max - channel->buff;
   if (n > 0) {
     really_write(channel->fd, channel->buff, n);
-    channel->offset += n;
+    /* After a seek_out back into the buffer, the position is n bytes
+       before the end of what has been written */
+    n = channel->max - channel->curr;
+    channel->offset += channel->curr - channel->buff;
     channel->curr = channel->buff;
     channel->max  = channel->buff;
+    if (n > 0 && lseek(channel->fd, channel->offset, 0) != channel->offset)
+      sys_error(NULL);
   }
   return Atom(0);
 }
-- 
2.43.0


From ddd4db29fd5d9fd70e806ce421747a59806f2187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:00 +0000
Subject: [PATCH 09/36] fix: mosmllex must call the action of an entry point
 whose rules match only the empty string

---
 src/lex/Output.sml | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/Output.sml b/src/lex/Output.sml
index 13d485b..2cacfe1 100644
--- a/src/lex/Output.sml
+++ b/src/lex/Output.sml
@@ -194,8 +194,9 @@ fun output_entries [] =
          "  (setLexLastAction lexbuf (magic dummyAction);\n");
        output(!os,
          "   setLexStartPos lexbuf (getLexCurrPos lexbuf);\n");
-       output(!os,
-         "   state_" ^ makestring state_num ^ " lexbuf)\n");
+       output(!os, "   ");
+       output_move (Goto state_num);
+       output(!os, ")\n");
        case rest of
          [] => output(!os, "\n")
        | _  => (output(!os, "\nand "); output_entries rest))
-- 
2.43.0


From 8888c0a63d12ab435bab84a79d4c7125c39a28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 10/36] fix: seek_in and seek_out must reject position -1

---
 src/runtime/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index ceb4f23..75d1ef0 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -192,7 +192,7 @@ value seek_out(struct channel * channel, value pos)    /* ML */
     channel->curr = channel->buff + dest - channel->offset;
   } else {
     flush(channel);
-    if (lseek(channel->fd, dest, 0) != dest) sys_error(NULL);
+    if (lseek(channel->fd, dest, 0) != dest || dest < 0) sys_error(NULL);
     channel->offset = dest;
   }
   return Atom(0);
@@ -451,7 +451,7 @@ value seek_in(struct channel * channel, value pos)     /* ML */
       dest <= channel->offset) {
     channel->curr = channel->max - (channel->offset - dest);
   } else {
-    if (lseek(channel->fd, dest, 0) != dest) sys_error(NULL);
+    if (lseek(channel->fd, dest, 0) != dest || dest < 0) sys_error(NULL);
     channel->offset = dest;
     channel->curr = channel->max = channel->buff;
   }
-- 
2.43.0


From f7737a5fc9bce5c64e8f91f81a320138490da3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 11/36] fix: array and slice range checks must not overflow

---
 src/mosmllib/Array.mlp           | 4 ++--
 src/mosmllib/ArraySlice.sml      | 4 ++--
 src/mosmllib/Weak.mlp            | 2 +-
 src/mosmllib/Word8Array.mlp      | 4 ++--
 src/mosmllib/Word8ArraySlice.sml | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mosmllib/Array.mlp b/src/mosmllib/Array.mlp
index 50d7678..5a5d213 100644
--- a/src/mosmllib/Array.mlp
+++ b/src/mosmllib/Array.mlp
@@ -95,7 +95,7 @@ fun copy {src=a1: 'a array, dst=a2: 'a array, di=i2} =
 	and a2 = from_array a2
 	val n = length_ a1
     in
-	if i2<0 orelse i2+n > length_ a2 then 
+	if i2<0 orelse i2 > length_ a2 - n then 
 	    raise Subscript
 	else		(* copy from high to low *)
 	    let fun hi2lo j = 
@@ -109,7 +109,7 @@ fun copyVec {src=a1: 'a vector, dst=a2: 'a array, di=i2} =
     let val a2 = from_array a2
 	val n = lengthv_ a1
     in
-	if i2<0 orelse i2+n > length_ a2 then 
+	if i2<0 orelse i2 > length_ a2 - n then 
 	    raise Subscript
 	else 
 	    let fun lo2hi j = 
diff --git a/src/mosmllib/ArraySlice.sml b/src/mosmllib/ArraySlice.sml
index 71b4782..e4c0fa2 100644
--- a/src/mosmllib/ArraySlice.sml
+++ b/src/mosmllib/ArraySlice.sml
@@ -72,7 +72,7 @@ fun copy {src=(a1,i1,n) : 'a slice, dst=a2: 'a array, di=i2} =
     let val a1 = from_array a1
 	and a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else if i1 < i2 then		(* copy from high to low *)
 	         let fun hi2lo j = 
 		     if j >= 0 then
@@ -91,7 +91,7 @@ fun copyVec {src : 'a VectorSlice.slice, dst=a2: 'a array, di=i2} =
     let val (a1, i1, n) = VectorSlice.base src
 	val a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else 
 	    let fun lo2hi j = if j < n then
 		(update_ a2 (i2+j) (subv_ a1 (i1+j)); lo2hi (j+1))
diff --git a/src/mosmllib/Weak.mlp b/src/mosmllib/Weak.mlp
index c450c4d..1f01229 100644
--- a/src/mosmllib/Weak.mlp
+++ b/src/mosmllib/Weak.mlp
@@ -116,7 +116,7 @@ fun sliceend (a, i, NONE) =
         if i<0 orelse i>length a then raise Subscript
 	else length a
   | sliceend (a, i, SOME n) = 
-	if i<0 orelse n<0 orelse i+n>length a then raise Subscript
+	if i<0 orelse n<0 orelse i>length a-n then raise Subscript
 	else i+n;
 
 fun foldli f e (slice as (a, i, _)) = 
diff --git a/src/mosmllib/Word8Array.mlp b/src/mosmllib/Word8Array.mlp
index f77a0a2..4b68cd7 100644
--- a/src/mosmllib/Word8Array.mlp
+++ b/src/mosmllib/Word8Array.mlp
@@ -74,14 +74,14 @@ fun vector (ref a) =
 fun copy {src = ref a1: array, dst = ref a2: array, di=i2} =
     let val n = length_ a1
     in
-	if i2 < 0 orelse i2+n > length_ a2 then raise Subscript
+	if i2 < 0 orelse i2 > length_ a2 - n then raise Subscript
 	else blitaa_ a1 0 a2 i2 n
     end
 
 fun copyVec {src = a1: vector, dst = ref a2: array, di=i2} =
     let val n = lengthv_ a1
     in
-	if i2 < 0 orelse i2+n > length_ a2 then raise Subscript
+	if i2 < 0 orelse i2 > length_ a2 - n then raise Subscript
 	else blitva_ a1 0 a2 i2 n
     end
 
diff --git a/src/mosmllib/Word8ArraySlice.sml b/src/mosmllib/Word8ArraySlice.sml
index bc7deb9..9bc0b5d 100644
--- a/src/mosmllib/Word8ArraySlice.sml
+++ b/src/mosmllib/Word8ArraySlice.sml
@@ -73,7 +73,7 @@ fun copy {src=(a1,i1,n) : slice, dst=a2: array, di=i2} =
     let val a1 = from_array a1
 	and a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else if i1 < i2 then		(* copy from high to low *)
 	         let fun hi2lo j = 
 		     if j >= 0 then
@@ -92,7 +92,7 @@ fun copyVec {src : vector_slice, dst=a2: array, di=i2} =
     let val (a1, i1, n) = Word8VectorSlice.base src
 	val a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else 
 	    let fun lo2hi j = if j < n then
 		(update_ a2 (i2+j) (subv_ a1 (i1+j)); lo2hi (j+1))
-- 
2.43.0


From 11dc21b1ee4b53a2d5926490a0a208c0bc073a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 12/36] fix: Array2 must validate dimensions and regions before
 acting

---
 src/mosmllib/Array2.sml | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mosmllib/Array2.sml b/src/mosmllib/Array2.sml
index 7a087d2..bbd3fe0 100644
--- a/src/mosmllib/Array2.sml
+++ b/src/mosmllib/Array2.sml
@@ -28,10 +28,12 @@ fun fromList [] = ref (Vector.fromList [], 0, 0)
     end
 
 fun array (m, n, x) = 
-    ref (Vector.tabulate(m, fn _ => Array.array(n, x)), m, n);
+    if m < 0 orelse n < 0 then raise Size 
+    else ref (Vector.tabulate(m, fn _ => Array.array(n, x)), m, n);
 
 fun tabulate RowMajor (m, n, f) = 
-    ref (Vector.tabulate(m, fn i => Array.tabulate(n, fn j => f(i,j))), m, n)
+    if m < 0 orelse n < 0 then raise Size 
+    else ref (Vector.tabulate(m, fn i => Array.tabulate(n, fn j => f(i,j))), m, n)
   | tabulate ColMajor (m, n, f) = 
     if m > 0 andalso n > 0 then 
 	let val f00 = f(0, 0)
@@ -82,15 +84,16 @@ fun stop len i NONE =
     if i<0 orelse i>len then raise Subscript
     else len
   | stop len i (SOME n) = 
-    if i<0 orelse n<0 orelse i+n>len then raise Subscript
+    if i<0 orelse n<0 orelse i>len-n then raise Subscript
     else i+n;
 
 fun foldi RowMajor f b { base = ref (a, m, n), row, col, nrows, ncols } = 
-    VectorSlice.foldli 
+    (stop n col ncols;		(* also when the region has no rows *)
+     VectorSlice.foldli 
            (fn (i, xs, res) => 
 	       ArraySlice.foldli 
 	       (fn (j,x,res) => f(i,j,x,res)) res (ArraySlice.slice(xs,col,ncols)))
-	   b (VectorSlice.slice(a, row, nrows))
+	   b (VectorSlice.slice(a, row, nrows)))
   | foldi ColMajor f b { base = ref (a, m, n), row, col, nrows, ncols } = 
     let val stoprow = stop m row nrows
 	val stopcol = stop n col ncols
@@ -107,11 +110,12 @@ fun app RowMajor f (ref (a, _, _)) =
   | app ColMajor f arr  =
     fold ColMajor (fn (a, _) => f a) () arr
 
-fun appi RowMajor f { base = ref (a, _, _), row, col, nrows, ncols } =
-    VectorSlice.appi 
+fun appi RowMajor f { base = ref (a, _, n), row, col, nrows, ncols } =
+    (stop n col ncols;
+     VectorSlice.appi 
           (fn (i, xs) => ArraySlice.appi 
 	   (fn (j, x) => f(i, j, x)) (ArraySlice.slice(xs, col, ncols)))
-	  (VectorSlice.slice(a, row, nrows))
+	  (VectorSlice.slice(a, row, nrows)))
   | appi ColMajor f reg =
     foldi ColMajor (fn (i, j, a, _) => f (i, j, a)) () reg
 
@@ -121,11 +125,12 @@ fun modify RowMajor f (ref (a, _, _)) =
     foldi ColMajor (fn (i, j, a, _) => update(arr, i, j, f a)) ()
           {base=arr, row=0, col=0, nrows=NONE, ncols=NONE}
 
-fun modifyi RowMajor f { base = ref (a, _, _), row, col, nrows, ncols } =
-    VectorSlice.appi 
+fun modifyi RowMajor f { base = ref (a, _, n), row, col, nrows, ncols } =
+    (stop n col ncols;
+     VectorSlice.appi 
           (fn (i, xs) => ArraySlice.modifyi (fn (j, x) => f(i, j, x)) 
 	                               (ArraySlice.slice(xs, col, ncols)))
-	  (VectorSlice.slice(a, row, nrows))
+	  (VectorSlice.slice(a, row, nrows)))
   | modifyi ColMajor f (reg as {base, ...}) =
     foldi ColMajor (fn (i, j, a, _) => update(base, i, j, f (i, j, a))) () reg
 
@@ -133,6 +138,10 @@ fun copy { src = { base = ref (sa, sm, sn), row = src_row, col = src_col,
 		   nrows, ncols }, 
 	   dst = ref (da, dm, dn), dst_row, dst_col } =
     let val stoprow = stop sm src_row nrows
+	val stopcol = stop sn src_col ncols
+	(* Check the destination region before copying anything: *)
+	val _ = stop dm dst_row (SOME (stoprow - src_row))
+	val _ = stop dn dst_col (SOME (stopcol - src_col))
 	fun bottomUp from_row to_row = 
 	    if from_row < src_row then ()
 	    else
-- 
2.43.0


From 399507fda56b55e3d41f1c1c24dd87ded8d94693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 13/36] fix: Substring.slice and String.extract raise
 Subscript, not Overflow

---
 src/mosmllib/String.sml    | 4 +++-
 src/mosmllib/Substring.sml | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/String.sml b/src/mosmllib/String.sml
index 590a6c6..d8c6005 100644
--- a/src/mosmllib/String.sml
+++ b/src/mosmllib/String.sml
@@ -67,7 +67,9 @@ fun implode cs =
   in (init cs 0; newstr) end;
 
 fun extract (s, i, slicelen) =
-    let val n = case slicelen of NONE => size s - i | SOME n => n
+    let val n = case slicelen of
+		    NONE   => if i<0 then raise Subscript else size s - i
+		  | SOME n => n
 	val newstr = if i<0 orelse n<0 orelse n>size s-i then raise Subscript
 		     else mkstring_ n
     in blit_ s i newstr 0 n; newstr end;
diff --git a/src/mosmllib/Substring.sml b/src/mosmllib/Substring.sml
index bf50639..b72f572 100644
--- a/src/mosmllib/Substring.sml
+++ b/src/mosmllib/Substring.sml
@@ -62,7 +62,7 @@ fun slice ((s', i', n'), i, NONE) =
      *  0 <= i' <= i'+i <= i'+i + (n'-i) = i'+n' <= size s' *)
     else raise Subscript
   | slice ((s', i', n'), i, SOME n) =    
-    if 0 <= i andalso 0 <= n andalso i+n <= n' then (s', i'+i, n)
+    if 0 <= i andalso 0 <= n andalso n <= n'-i then (s', i'+i, n)
     (* If the argument is valid, then so is the result:
      *  0 <= i' <= i'+i <= i'+i + n <= i'+n' <= size s' *)
     else raise Subscript
-- 
2.43.0


From 50ecba7862d305213a659b68c0e7a851849fe0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 14/36] fix: integer multiplication raised Overflow for a
 product equal to Int.minInt with factors of magnitude 2^31

---
 src/runtime/interp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 5c61ffb..7151b44 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1449,8 +1449,12 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if( y < 0 ) { y = -y; isNegative = !isNegative; }
         if( y > x ) { tmp = y; y = x; x = tmp; }
         if( y > MaxChunk ) 
-	  goto raise_overflow;
-        if( x <= MaxChunk )
+          { /* The only such product that fits is the smallest integer: */
+            if( !isNegative || x > MaxChunk + 1 ) 
+	      goto raise_overflow;
+            accu = Val_long(-(x * y));
+          }
+        else if( x <= MaxChunk )
           { accu = Val_long(isNegative?(-(x * y)):(x * y)); }
         else /* x > MaxChunk */
           { tmp = (x >> ChunkLen) * y;
-- 
2.43.0


From 9332ee723479aadcba103262ab9998d8ac168b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 15/36] fix: ceil, trunc and round at the ends of the integer
 range on 64-bit machines

Min_long-1 and Max_long are not representable as doubles there, so the
range checks rejected Int.minInt and let 2^62 wrap around.
---
 src/runtime/mosml.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 82264cb..42fab07 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -163,12 +163,12 @@ value sml_ceil(value f)              /* ML */
   value v;
   r = Double_val(f);
   if( r >= 0.0 )
-    { if( r > ((double) (Max_long)) ) goto raise_ceil;
+    { if( r >= ((double) Max_long + 1) ) goto raise_ceil;
       i = (long) r;
       if( r > ((double) i) ) i += 1;
     }
   else
-    { if( r <= ((double) (Min_long-1)) ) goto raise_ceil;
+    { if( r <= 2.0 * ((double) Min_long) ) goto raise_ceil;
       i = (long) r;
     }
   v = Val_long(i);
@@ -207,7 +207,7 @@ value sml_round(value f)              /* ML */
   if( Long_val(v) != i )  goto raise_round; 
 #else
   r = rint(Double_val(f));
-  if ((r > (double) (Max_long)) || (r < (double)(Min_long))) goto raise_round;
+  if ((r >= (double) Max_long + 1) || (r < (double)(Min_long))) goto raise_round;
   i = (long) r;
   v = Val_long(i);
 #endif
@@ -224,10 +224,11 @@ value sml_trunc(value f)              /* ML */
   long i;
   value v;
   r = Double_val(f);
-  if ((r >= (double) (Max_long+1)) || (r <= (double)(Min_long-1))) 
+  if ((r >= (double) Max_long + 1) || (r <= 2.0 * (double) Min_long)) 
     goto raise_trunc;
   i = (long) r;
   v = Val_long(i);
+  if( Long_val(v) != i ) goto raise_trunc;
   return v;
 
 raise_trunc:
-- 
2.43.0


From 48dc2c866d0e0ad66057f0bce38bc00ee8a13eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 16/36] fix: Word.~ raised Overflow for the word with only the
 top bit set

---
 src/mosmllib/Word.mlp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 04959af..ef6dba7 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -54,7 +54,7 @@ in
     fun xorb (x, y) = xorb_ x y;
     fun notb x      = xorb_ x (fromInt ~1); 
 
-    val ~ = fn w => fromInt(~(toInt w)) 
+    val ~ = fn w => fromInt 0 - w 
 
     fun << (w, k) = 
 	if toInt k >= WORDSIZE orelse toInt k < 0 then fromInt 0
-- 
2.43.0


From 5b10b5120222eaf3d3918bc2ab143be42f6f019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 17/36] fix: Word.toLargeInt returned a negative integer
 instead of raising Overflow

---
 src/mosmllib/Word.mlp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index ef6dba7..5124f4f 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -36,7 +36,7 @@ in
     prim_val toIntX  : word -> int = 1 "identity";
     prim_val fromInt : int -> word = 1 "identity";
 
-    prim_val toLargeInt   : word -> int = 1 "identity";
+    prim_val toLargeInt   : word -> int = 1 "identity"; (* NOT the SML BL fun *)
     prim_val toLargeIntX  : word -> int = 1 "identity";
     prim_val fromLargeInt : int -> word = 1 "identity";
 
@@ -171,4 +171,6 @@ in
 	if w > MAXPOS then raise Overflow
 	else toIntX w
 
+    val toLargeInt = toInt
+
 end
-- 
2.43.0


From 53fcb1ad26b8b44f7ba045733a0bdd937a7c3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 18/36] fix: IntInf.log2 was one too large, and its Domain was
 not the predefined exception

---
 src/dynlibs/intinf/IntInf.sml | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynlibs/intinf/IntInf.sml b/src/dynlibs/intinf/IntInf.sml
index d81bfd4..a6b7b07 100644
--- a/src/dynlibs/intinf/IntInf.sml
+++ b/src/dynlibs/intinf/IntInf.sml
@@ -1,7 +1,5 @@
 (* LargeInt -- interface to the GNU Multiple-Precision Library GMP *)
 
-exception Domain
-
 prim_type int;
 type largeint = int;
 
@@ -160,7 +158,7 @@ fun quotRem(li1, li2) =
 
 fun log2 li = 
     if Int.<=(sign li, 0) then raise Domain
-    else largeint_sizeinbase li 2;
+    else Int.-(largeint_sizeinbase li 2, 1);
 
 fun pow(li, exp) = 
     if Int.<(exp, 0) then 
-- 
2.43.0


From e4eb97e009fe1c4b7c12ee3cca358a13926f40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 19/36] fix: IntInf.pow(~1, e) for even negative e

---
 src/dynlibs/intinf/IntInf.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynlibs/intinf/IntInf.sml b/src/dynlibs/intinf/IntInf.sml
index a6b7b07..3b2b50e 100644
--- a/src/dynlibs/intinf/IntInf.sml
+++ b/src/dynlibs/intinf/IntInf.sml
@@ -164,7 +164,8 @@ fun pow(li, exp) =
     if Int.<(exp, 0) then 
 	if sign li = 0 then raise Div 
 	else if largeint_cmp li onepos = 0 then onepos
-        else if largeint_cmp li oneneg = 0 then oneneg
+        else if largeint_cmp li oneneg = 0 then 
+	    if Int.mod(exp, 2) = 0 then onepos else oneneg
 	else zero
     else if exp = 0 then onepos
     else
-- 
2.43.0


From ff5e20061e1ce9d3ec8ba85cd4dee92455646752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 20/36] fix: matches on integer constants more than maxInt
 apart made the compiler raise Overflow

---
 src/compiler/Back.sml | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/Back.sml b/src/compiler/Back.sml
index e5d86df..14cc282 100644
--- a/src/compiler/Back.sml
+++ b/src/compiler/Back.sml
@@ -199,8 +199,9 @@ fun compileNBranch int_of_key clauses =
       fun partition start =
         if start >= n then [] else
         let val stop = ref (n-1) in
-          while (keyv sub !stop) - (keyv sub start) >= 255 orelse
-                (keyv sub !stop) - (keyv sub start) > 4 * (!stop - start)
+          while ((keyv sub !stop) - (keyv sub start) >= 255 orelse
+                 (keyv sub !stop) - (keyv sub start) > 4 * (!stop - start))
+                handle Overflow => true	(* the keys are very far apart *)
           do decr stop;
           (* We've found a segment that is dense enough.
              In the worst case, !stop = start and the segment is
-- 
2.43.0


From 486d9192de33db117f8039c749d6519974fdd43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 21/36] fix: exception patterns with arguments of different
 types made the match compiler fail

After a partial match of A 0, the description of the exception's argument was
used for the argument of C (x, y): 'Internal error: Match.succeed'.
---
 src/compiler/Match.sml | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Match.sml b/src/compiler/Match.sml
index 3be4933..71f5ca2 100644
--- a/src/compiler/Match.sml
+++ b/src/compiler/Match.sml
@@ -249,7 +249,10 @@ and match pat obj dsc ctx work rhs rules =
 	    let val arity = List.length pats
 		val sargs = case dsc of 
 		                  Neg _         => bots arity
-				| Pos(_, sargs) => sargs
+				| Pos(con, sargs) => 
+				  (* Arguments of distinct excons may have 
+				     distinct types, so con may be anything *)
+				  if con = Tup arity then sargs else bots arity
 	    in 
 		succeed ((Tup arity, []) :: ctx)
 		        ((pats, splitPath arity obj, sargs) :: work) 
-- 
2.43.0


From 661f4e3b77cb4737e1af03179ef877e7be66af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:49 +0000
Subject: [PATCH 22/36] fix: Socket.select returned sockets from rds in wrs and
 exs

---
 src/dynlibs/msocket/msocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index b515aa0..bd03e1d 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -723,8 +723,8 @@ EXTERNML value msocket_select(value rsocks, value wsocks, value esocks,
   {
     Push_roots(ls, 6);
     ls[3] = rsocks;
-    ls[4] = rsocks;
-    ls[5] = rsocks;
+    ls[4] = wsocks;
+    ls[5] = esocks;
     ls[0] = fdset_to_list(ls[3], &rfd);
     ls[1] = fdset_to_list(ls[4], &wfd);
     ls[2] = fdset_to_list(ls[5], &efd);
-- 
2.43.0


From 036057be062b6d5f75ee4a2e4b65b870191ea803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:49 +0000
Subject: [PATCH 23/36] fix: a long file name in a socket address overran the C
 address buffer

---
 src/dynlibs/msocket/msocket.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index bd03e1d..f260004 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -126,13 +126,12 @@ static value newinaddr(s_addr_t sa) {
 
 /* Maps a : addr to s : union saddr */
 static void make_saddr(union saddr *s, value a) {
-  int size = Int_val(Size_addrval(a));
-
   switch(Int_val(Nspace_addrval(a))) {
   case AF_UNIX:
 #ifndef WIN32
     s->sockaddr_unix.sun_family = AF_UNIX;
-    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, size + 1);
+    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path,
+	  string_length(Data_addrval(a)) + 1);
 #else
     failwith("AF_UNIX not implemented");
 #endif
-- 
2.43.0


From 3d985146f721b1526c60b210dc450b45099a9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:49 +0000
Subject: [PATCH 24/36] fix: Socket.accept and recv*From read an address that
 the system had not set

---
 src/dynlibs/msocket/msocket.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index f260004..feeb9f7 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -21,6 +21,7 @@
 #include <arpa/inet.h>
 #endif
 #include <signal.h>
+#include <stddef.h>
 #include <string.h>
 
 /* Moscow ML includes */
@@ -182,6 +183,13 @@ value newsinaddrport(s_addr_t sa, value port) {
 /* Warning: allocates in the heap, may cause a GC */
 /* ML result type: addr */
 static value from_saddr(union saddr *s, int len) {
+#ifndef WIN32
+  /* The address of an unnamed AF_UNIX socket has no path, and perhaps
+     not even a family: */
+  if (len <= (int)offsetof(struct sockaddr_un, sun_path))
+    return newaddr(offsetof(struct sockaddr_un, sun_path), AF_UNIX, 
+		   copy_string(""));
+#endif
   switch(s->sockaddr_gen.sa_family) {
   case AF_UNIX: { 
 #ifndef WIN32
-- 
2.43.0


From 9a98fcb7640eaf6d6885ab7bc0f8135c940f96b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 25/36] fix: Regex match vectors lost groups that began before
 an earlier group

Of the groups reported by regexec, only those were returned up to the first
one that begins before its predecessor, as group 3 of ((a)|(b))* does on ba.
The number of groups is known from the compiled pattern.
---
 src/dynlibs/mregex/mregex.c | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index d5484cb..bd004eb 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -136,33 +136,19 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
 		   int eflags, value susval) {
   char* str = susaddr_susval(susval);
   int len = len_susval(susval);
-  int matcherror = mosml_regexec(preg, str, len, nmatch, pmatch, eflags);
+  int matcherror;
+  /* Find actual number of named substrings; pmatch may have excess room */
+  if (nmatch > preg->re_nsub + 1)
+    nmatch = preg->re_nsub + 1;
+  matcherror = mosml_regexec(preg, str, len, nmatch, pmatch, eflags);
   if (matcherror == 0) {
-    /* Find actual number of named substrings */
     value res;
-    int strlen = len_susval(susval);
-    int last = 0;
     int i = 0;
-    // printf("pmatch[%d].rm_so = %d\n", i, pmatch[i].rm_so);
     /* In a pattern such as "(ab)|(cb)", at most one of the
        subexpressions takes part in each match.  In these cases, the
        value -1 will be stored in rm_so and rm_eo of the unused
-       substrings.  In other cases (e.g. when pmatch has room for
-       excess substrings, various kinds of garbage is stored instead.
-       Hence we need to explicitly check for wellformedness of
        substrings.  
     */
-    while (i < nmatch 
-	   && (pmatch[i].rm_so == -1 ||
-	       (last <= pmatch[i].rm_so
-		&& pmatch[i].rm_so <= pmatch[i].rm_eo
-		&& pmatch[i].rm_eo <= strlen))) {
-      if (pmatch[i].rm_so != -1) 
-	last = pmatch[i].rm_so;
-      i++;
-      // printf("pmatch[%d].rm_so = %d\n", i, pmatch[i].rm_so);
-    }
-    nmatch = i;
     /* Create the ML return value: SOME(vector of nmatch substrings) */
     {
       Push_roots(r, 2);
-- 
2.43.0


From 2ed76b0ce1bed30f2e390a4d5b249fd3251d9bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 26/36] fix: regexec read the target substring after a garbage
 collection had moved it

---
 src/dynlibs/mregex/mregex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index bd004eb..cc92efa 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -135,6 +135,7 @@ EXTERNML value mregex_regcomp(value patval, value cflagsval) {
 value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[], 
 		   int eflags, value susval) {
   char* str = susaddr_susval(susval);
+  int start = start_susval(susval); /* susval is stale after an allocation */
   int len = len_susval(susval);
   int matcherror;
   /* Find actual number of named substrings; pmatch may have excess room */
@@ -166,7 +167,7 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
 	if (pmatch[i].rm_so != -1) { /* Substring took part in the match */
 	  /* Component 1: the substring start byte offset  */
 	  modify(&Field(substr, 1), 
-		 Val_long(start_susval(susval) + pmatch[i].rm_so));
+		 Val_long(start + pmatch[i].rm_so));
 	  /* Component 2: the substring length in bytes    */
 	  modify(&Field(substr, 2), 
 		 Val_long(pmatch[i].rm_eo - pmatch[i].rm_so));
-- 
2.43.0


From 8640b59b1d0a4cf49544a513bff163119c0752d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:03 +0000
Subject: [PATCH 27/36] fix: Path.fromUnixPath and Path.toUnixPath refused
 every valid path

---
 src/mosmllib/Path.mlp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Path.mlp b/src/mosmllib/Path.mlp
index 09c1032..08ec74c 100644
--- a/src/mosmllib/Path.mlp
+++ b/src/mosmllib/Path.mlp
@@ -430,7 +430,7 @@ fun toUnixString (path as {isAbs, vol, arcs}) =
 val isInvalidArc = CharVector.exists isslash
 val isInvalidUnixArc = CharVector.exists isunixslash
 fun invalidArc isInvalid arc = 
-    if isInvalid arc then () 
+    if not (isInvalid arc) then () 
     else raise InvalidArc 
 
 fun fromUnixPath s = 
-- 
2.43.0


From 31f07f17e003c489a6d3504b2f0ceaf1ceae9d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 28/36] fix: Date.date did not reduce time zone offsets of a
 day or more, and took 12 hours as west

---
 src/mosmllib/Date.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Date.sml b/src/mosmllib/Date.sml
index dd807a7..9fd40d6 100644
--- a/src/mosmllib/Date.sml
+++ b/src/mosmllib/Date.sml
@@ -300,8 +300,9 @@ in
 		    NONE      => (0, NONE)
 		  | SOME time => 
 			let val secs      = Time.toSeconds time
+			    val rest      = Int.rem(secs, 86400)
 			    val secoffset = 
-				if secs <= 43200 then ~secs else 86400 - secs
+				if rest < 43200 then ~rest else 86400 - rest
 			in (Int.quot(secs, 86400), SOME secoffset) end
 		val day' = day + dayoffset
 	    in
-- 
2.43.0


From 787ba1c6aaa87df48befa5cf1f721caecacc57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:56 +0000
Subject: [PATCH 29/36] fix: Date.scan did not skip initial whitespace

---
 src/mosmllib/Date.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Date.sml b/src/mosmllib/Date.sml
index 9fd40d6..6913f50 100644
--- a/src/mosmllib/Date.sml
+++ b/src/mosmllib/Date.sml
@@ -255,7 +255,7 @@ in
 		     | "Sat" => Sat 
 		     | _ => raise BadFormat
 
-	val (wday, src1)  = getstring src
+	val (wday, src1)  = getstring (drop Char.isSpace src)
 	val (month, src2) = getstring (drop Char.isSpace src1)
 	val (day, src3)   = getint src2
 	val (hour, src4)  = getint src3
-- 
2.43.0


From 3b490e38c16a64a422c0e8b86478d54e7e51c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:29 +0000
Subject: [PATCH 30/36] fix: Word.scan wrapped around instead of raising
 Overflow on numbers that do not fit

---
 src/mosmllib/Word.mlp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 5124f4f..d240019 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -119,8 +119,12 @@ in
 			      NONE           => SOME (res, src)
 			    | SOME (c, rest) => 
 				  if isDigit c then 
-				      digr (fromInt factor * res + hexval c) 
-				      rest
+				      let val hv = hexval c
+				      in
+					  if res > (fromInt ~1 - hv) div fromInt factor 
+					  then raise Overflow
+					  else digr (fromInt factor * res + hv) rest
+				      end
 				  else SOME (res, src)
 		  in 
 		      if isDigit c1 then digr (hexval c1) src1 
-- 
2.43.0


From f1c3ce4467c6b98b16c397edaace329694ae65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 31/36] fix: Real.fmt overflowed a buffer when asked for many
 decimals of a large number

---
 src/runtime/mosml.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 42fab07..702f560 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1166,18 +1166,16 @@ value sml_strftime (value fmt, value v) /* ML */
 
 value sml_general_string_of_float(value fmt, value arg)    /* ML */
 {
-#define BUFSIZE 512
+#define BUFSIZE 1024
   char format_buffer[BUFSIZE];
 
-  /* Unfortunately there seems to be no way to ensure that this does not
-   * crash by overflowing the format_buffer (e.g. when specifying a huge 
-   * number of decimal digits in the fixed-point format).  Well, we might
-   * use snprintf if universally supported?
+  /* The format asks for at most 400 digits (see Real.fmt), so there may be
+   * a sign, 309 digits, a decimal point, and 400 decimals.
    */
 
   double x = Double_val(arg);
   if (x == -0.0) x = 0.0;
-  sprintf(format_buffer, String_val(fmt), x);
+  snprintf(format_buffer, BUFSIZE, String_val(fmt), x);
 
   mkSMLMinus(format_buffer);
   return copy_string(format_buffer);
-- 
2.43.0


From a8b4741909fd60abe62ffcd9bb6ce0e3fe29c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:50 +0000
Subject: [PATCH 32/36] fix: Real.scan refused a number followed by a sign and
 a digit

---
 src/mosmllib/Real.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Real.sml b/src/mosmllib/Real.sml
index 8662be3..02941af 100644
--- a/src/mosmllib/Real.sml
+++ b/src/mosmllib/Real.sml
@@ -132,7 +132,7 @@ fun scan getc source =
 		  | (true,  SOME exp) => 
 			if exppos then mkres (manval * pow10 exp) rest
 			else mkres (manval / pow10 exp) rest
-		  | _                 => NONE
+		  | _                 => mkres manval src
 	    end
     in 
 	case (intg,     decpt, frac) of
-- 
2.43.0


From 1ff45dc5d925fc405519c672b6b31ccc303f011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 33/36] fix: an exit action that called Process.exit was
 executed again, without end

---
 src/mosmllib/Process.mlp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Process.mlp b/src/mosmllib/Process.mlp
index 466a780..6349d90 100644
--- a/src/mosmllib/Process.mlp
+++ b/src/mosmllib/Process.mlp
@@ -28,9 +28,12 @@ local
 in 
     fun atExit newtask =
 	exittasks := newtask :: !exittasks;
+    (* A task is removed before it is executed, so it is executed at most
+       once, also if it calls exit itself or raises an exception *)
     fun exit status =
-	(List.app (fn f => f ()) (!exittasks);
-	terminate status);
+	case !exittasks of
+	    []         => terminate status
+	  | f :: tasks => (exittasks := tasks; f (); exit status);
 end
 
 
-- 
2.43.0


From 679ab1cf6241c7789199234012146e9a3e5d9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 34/36] fix: Process.exit(Process.system cmd) reported success
 when cmd failed

---
 src/runtime/mosml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 702f560..64a1d4d 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -19,6 +19,7 @@
 #include <sys/time.h>
 #include <sys/times.h>
 #include <sys/resource.h>
+#include <sys/wait.h>
 #include <dirent.h>
 #include <sys/param.h> 
 #include <unistd.h>
@@ -119,6 +120,11 @@ value sml_system(value cmd)        /* ML */
   res = system(String_val(cmd));
   if (errno == ENOENT)
     return -1;
+#ifndef WIN32
+  /* Not the wait status: exit(256 * n) would report success */
+  else if (res != -1)
+    return Val_int(WIFEXITED(res) ? WEXITSTATUS(res) : -1);
+#endif
   else
     return Val_int(res);
 }
-- 
2.43.0


From d67c18900925920b51a032ee009e4adbf42ff937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 35/36] fix: Unix.reap waited for the process before closing
 its streams, and so forever

---
 src/mosmllib/Unix.sml | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mosmllib/Unix.sml b/src/mosmllib/Unix.sml
index 144b317..8a10993 100644
--- a/src/mosmllib/Unix.sml
+++ b/src/mosmllib/Unix.sml
@@ -102,12 +102,9 @@ fun binOutstreamOf ({syspid, ins, outs} : ('a, BinIO.outstream) proc)
 val waitpid_ : int -> int = app1 "waitpid"
 
 fun reap ({syspid, ins, outs} : ('a,'b) proc) : OS.Process.status = 
-    let val status_ = waitpid_ syspid : int
-    in 
-	TextIO.closeIn (Obj.magic ins); 
-	TextIO.closeOut (Obj.magic outs); 
-	Obj.magic status_ 
-    end
+    (TextIO.closeIn (Obj.magic ins); 
+     TextIO.closeOut (Obj.magic outs); 
+     Obj.magic (waitpid_ syspid : int))
     handle Fail s => raise Fail ("Unix.reap: " ^ s)
 end
 end
-- 
2.43.0


From f99ceb2330901e8bde061dea46e34629bcf92f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 36/36] fix: Unix.execute let later processes inherit the
 pipes, so earlier ones never saw the end of their input

---
 src/dynlibs/munix/munix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynlibs/munix/munix.c b/src/dynlibs/munix/munix.c
index 28fcf32..791d8b3 100644
--- a/src/dynlibs/munix/munix.c
+++ b/src/dynlibs/munix/munix.c
@@ -5,6 +5,7 @@
 /* General includes */
 
 #include <errno.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <signal.h>
 #include <sys/types.h>
@@ -109,6 +110,9 @@ EXTERNML value unix_execute(value cmd, value args, value envopt) {
     free(argv);
     close(c2p[1]);		      /* Close child's ends of pipes    */
     close(p2c[0]);
+    /* Other children must not keep the parent's ends open */
+    fcntl(c2p[0], F_SETFD, FD_CLOEXEC);
+    fcntl(p2c[1], F_SETFD, FD_CLOEXEC);
     Field(res, 0) = Val_long(pid); 
     Field(res, 1) = Val_long(c2p[0]); /* Parent reads from the c2p pipe */
     Field(res, 2) = Val_long(p2c[1]); /* Parent writes to the p2c pipe  */
@@ -119,6 +123,8 @@ EXTERNML value unix_execute(value cmd, value args, value envopt) {
     close(c2p[0]);
     dup2(p2c[0], 0 /* STD_IN  */);    /* Child stdin from the p2c pipe  */
     dup2(c2p[1], 1 /* STD_OUT */);    /* Child stdout to the c2p pipe   */
+    if (p2c[0] > 2) close(p2c[0]);
+    if (c2p[1] > 2) close(c2p[1]);
     if (envopt == NONE) 
       execv(String_val(cmd), argv);
     else {
-- 
2.43.0

