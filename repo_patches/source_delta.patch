From 98464575064f8e64b5dc71f6be04ee4b3d3154fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 01/54] fix: printing an integer whose top word is the most
 negative word no longer loops forever

---
 src/bin/fl/arb_prec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 4149779..cd2b314 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -944,7 +944,7 @@ arbi__ToString(arbi_T x, int base)
     for(lgb4 = 4; b4 >> (lgb4+1); lgb4++);
     w = x[lx-1];
     if(w < 0) { w = -w; }
-    for(m = 0; w >> m; m++);
+    for(m = 0; (m < WordSize) && ((unsigned s_Word) w >> m); m++);
     m = (4*(m + WordSize*(lx-1)) + lgb4 - 1)/lgb4 + 1;
     if(x[lx-1] < 0) m++;
     buf = (char *)arbi_alloc((unsigned int) m);
-- 
2.43.0


From c1bf47623891fb8627f507be47debcd7b793d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 02/54] fix: random2 of more than 61 bits returned negative
 numbers

---
 src/bin/fl/int_ops.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/int_ops.c b/src/bin/fl/int_ops.c
index 20328d7..713169c 100644
--- a/src/bin/fl/int_ops.c
+++ b/src/bin/fl/int_ops.c
@@ -56,15 +56,15 @@ do_random2(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     int bits = GET_INT(r);
     arbi_T res = Arbi_FromInt(0);
-    int chunk = 1 << NBR_BITS_PER_CHUNK;
+    long int chunk = ((long int) 1) << NBR_BITS_PER_CHUNK;
     arbi_T ws = Arbi_FromInt(chunk);
     while( bits > NBR_BITS_PER_CHUNK ) {
 	res = Arbi_mlt(res, ws);
 	res = Arbi_add(res, Arbi_FromInt(random() & (chunk-1)));
 	bits -= NBR_BITS_PER_CHUNK;
     }
-    res = Arbi_mlt(res, Arbi_FromInt(1 << bits));
-    res = Arbi_add(res, Arbi_FromInt(random() & ((1 << bits)-1)));
+    res = Arbi_mlt(res, Arbi_FromInt(((long int) 1) << bits));
+    res = Arbi_add(res, Arbi_FromInt(random() & ((((long int) 1) << bits)-1)));
     MAKE_REDEX_AINT(redex, res);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
-- 
2.43.0


From c40e4d70ccab0b2531b5b824f504ff4916002ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 03/54] fix: int2str overran a 1024 byte buffer for integers of
 more than 1023 digits

---
 src/bin/fl/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b6d5810..7ab21d5 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4028,10 +4028,10 @@ traverse_left(g_ptr oroot)
 			    }
 			    break;
 			case P_INT2STR:
-			    Sprintf(buf, "%s",Arbi_ToString(GET_AINT(arg1),10));
+			    s = Arbi_ToString(GET_AINT(arg1),10);
 			    SET_TYPE(redex, LEAF);
 			    SET_LEAF_TYPE(redex, STRING);
-			    SET_STRING(redex, wastrsave(stringsp, buf));
+			    SET_STRING(redex, wastrsave(stringsp, s));
 			    break;
 			case P_IS_CONS:
 			    if( !IS_CONS(arg1) || GET_CONS_HD(arg1) == NULL ) {
-- 
2.43.0


From 1a79e7bf542afe57f5b95b91e1d08d1e24db5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 04/54] fix: multiplying -1 with the most negative word crashed
 with SIGFPE

---
 src/bin/fl/arb_prec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index cd2b314..e9b3b9e 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -516,8 +516,7 @@ arbi__mlt(arbi_T x, arbi_T y)
 	wx = x[0]; wy = y[0];
         if(!wx) return(arbi__FromInt(0));
         if(!wy) return(arbi__FromInt(0));
-	wp = wx*wy;
-	if(wy == wp/wx && wx == wp/wy ) /* no overflow? */
+	if( !__builtin_mul_overflow(wx, wy, &wp) ) /* no overflow? */
 	    return(arbi__FromInt(wp));
     }
 
-- 
2.43.0


From 5441356726525cafb15c80893cb62131781cf7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 05/54] fix: relational product quantified its base cases with
 the wrong operator and polluted the AND cache

---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..15b5ba0 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential ? EXISTENTIAL : UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential ? EXISTENTIAL : UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From 568c9e2c83b3a34d0713c10fd5773eea5a4def09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:22 +0000
Subject: [PATCH 06/54] fix: bool2str ignored its product limit in SOP format
 and truncated its result at 1000 bytes

---
 src/bin/fl/graph.c   |  7 +++++--
 src/bin/fl/new_bdd.c | 13 +++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 7ab21d5..51fde89 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3967,14 +3967,17 @@ traverse_left(g_ptr oroot)
 		    arg2 = force(GET_APPLY_RIGHT(*(sp+1)), FALSE);
 		    if( is_fail(arg2) ) goto arg2_fail2;
 		    res = GET_BOOL(arg2);
-		    odests_fp = fmemopen(buf, 1000, "w");
+		    string bool_str;
+		    size_t bool_str_len;
+		    odests_fp = open_memstream(&bool_str, &bool_str_len);
 		    if( odests_fp == NULL ) { DIE("Should never happen"); }
 		    B_Print(FILE_fp, res, GET_INT(arg1));
 		    fclose(odests_fp);
 		    odests_fp = NULL;
 		    SET_TYPE(redex, LEAF);
 		    SET_LEAF_TYPE(redex, STRING);
-		    SET_STRING(redex, wastrsave(stringsp,buf));
+		    SET_STRING(redex, wastrsave(stringsp,bool_str));
+		    free(bool_str);
 		    goto finish2;
 
 		case P_EMPTY:
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 15b5ba0..33ce202 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -666,16 +666,12 @@ B_thereis(formula var, formula f)
 void
 B_Print(odests fp, formula f, int max_size)
 {
+    int old_size = RCmax_prods_to_print;
+    if( max_size != -1 )
+	RCmax_prods_to_print = max_size;
     switch(print_format) {
 	case infix_format:
-	    {
-		int old_size = RCmax_prods_to_print;
-		if( max_size != -1 )
-		    RCmax_prods_to_print = max_size;
-		bdd_infix_print(fp, f);
-		RCmax_prods_to_print = old_size;
-		break;
-	    }
+	    bdd_infix_print(fp, f); break;
 	case sop_format:
 	    sop_print(fp, f); break;
 	case tree_format:
@@ -683,6 +679,7 @@ B_Print(odests fp, formula f, int max_size)
 	default:
 	    Eprintf("Unknown print format");
     }
+    RCmax_prods_to_print = old_size;
 }
 
 /* HL_Print -- Print ternary function given in dual-rail encoding */
-- 
2.43.0


From f8459469e28324837933fc8cbc71b02b6e742856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:02 +0000
Subject: [PATCH 07/54] fix: SOP printing exceeded the maximum number of
 products

---
 src/bin/fl/new_bdd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 33ce202..0cb59b6 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -2963,6 +2963,8 @@ sop_pr_rec(odests fp, formula node, bool look_for_zero, formula f)
 
     if( node == ONE ) {
 	if( !look_for_zero ) {
+	    if( prods_printed >= RCmax_prods_to_print )
+		return( FALSE );
 	    fn_printed = B_Or(fn_printed, print_prod(fp, f));
 	    prods_printed++;
 	}
@@ -2970,6 +2972,8 @@ sop_pr_rec(odests fp, formula node, bool look_for_zero, formula f)
     }
     if( node == ZERO ) {
 	if( look_for_zero ) {
+	    if( prods_printed >= RCmax_prods_to_print )
+		return( FALSE );
 	    fn_printed = B_Or(fn_printed, print_prod(fp, f));
 	    prods_printed++;
 	}
-- 
2.43.0


From eb81fb7c41123fa0212093032ee023bfd6414f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:53 +0000
Subject: [PATCH 08/54] fix: bdd_size and profile counted the nodes of a
 function and of its complement twice

---
 src/bin/fl/new_bdd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 0cb59b6..7486c7a 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -799,6 +799,7 @@ B_Size(formula f)
 
     if( f == ZERO || f == ONE)
         return;
+    f = POS(f);
     if( find_hash(&bdd_size_tbl, FORMULA2PTR(f)) != NULL )
 	return;
     bp = GET_BDDP(f);
-- 
2.43.0


From 32da0887709233c585030688a98104267cd234f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:55 +0000
Subject: [PATCH 09/54] fix: bITE used the condition of a nested bITE evaluated
 while forcing its branches

---
 src/bin/fl/bexpr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..b6d4e70 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1053,17 +1053,19 @@ bITE(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr ll = GET_APPLY_LEFT(l);
     g_ptr arg1 = GET_APPLY_RIGHT(ll);
-    current_bexpr_cond = GET_BEXPR(arg1);
-    if( BE_IS_TRUE(current_bexpr_cond) ) {
+    bexpr cond = GET_BEXPR(arg1);
+    if( BE_IS_TRUE(cond) ) {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(l), FALSE);
 	OVERWRITE(redex, arg2);
     } else 
-    if( BE_IS_FALSE(current_bexpr_cond) ) {
+    if( BE_IS_FALSE(cond) ) {
 	g_ptr arg3 = reduce(GET_APPLY_RIGHT(redex), FALSE);
 	OVERWRITE(redex, arg3);
     } else {
 	g_ptr arg2 = force(GET_APPLY_RIGHT(l), FALSE);
 	g_ptr arg3 = force(GET_APPLY_RIGHT(redex), FALSE);
+	// Set only now, since forcing the arguments can evaluate other bITEs
+	current_bexpr_cond = cond;
 	g_ptr res = Gen_map2(s_bITE, g_be_ite, arg2, arg3, FALSE);
 	OVERWRITE(redex, res);
     }
-- 
2.43.0


From c7f07096463aafbd68252fa408db36b0547ff836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 10/54] fix: bexpr to BDD conversion reused results computed
 under another substitution

---
 src/bin/fl/bexpr.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index b6d4e70..993b795 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -61,6 +61,7 @@ static bool	    be_eq(pointer p1, pointer p2);
 static unsigned int be_sig_hash(pointer p, unsigned int n);
 static bool	    be_sig_eq(pointer p1, pointer p2);
 static void	    mark(bexpr be);
+static void	    clear_bdds(bexpr be);
 static void	    unmark(bexpr be);
 static formula	    be2bdd(bexpr be);
 static bexpr	    get_be_node();
@@ -560,7 +561,13 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
-    MAKE_REDEX_BOOL(redex, be2bdd(GET_BEXPR(bf)));
+    bexpr be = GET_BEXPR(bf);
+    // A cached BDD is only valid for the identity substitution
+    bool has_sub = (hash_size(&bexpr2bdd_sub_tbl) > 0);
+    if( has_sub ) { clear_bdds(be); unmark(be); }
+    formula res = be2bdd(be);
+    if( has_sub ) { clear_bdds(be); unmark(be); }
+    MAKE_REDEX_BOOL(redex, res);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
@@ -1389,6 +1396,18 @@ mark(bexpr be)
     mark( BE_GET_RIGHT(be) );
 }
 
+static void
+clear_bdds(bexpr be)
+{
+    be = BE_POS(be);
+    if( BE_GET_MARK(be) == 1 ) return;
+    BE_SET_MARK(be, 1);
+    be->has_bdd = 0;
+    if( BE_GET_TYPE(be) != BE_AND ) return;
+    clear_bdds( BE_GET_LEFT(be) );
+    clear_bdds( BE_GET_RIGHT(be) );
+}
+
 static void
 unmark(bexpr be)
 {
-- 
2.43.0


From 7a121df6dbfff438530dc7af192ea05a66c8b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 11/54] fix: bv_min/bv_max failed on bitvectors of either sign,
 bev_pow never ended, bv2str overflowed above 31 bits

---
 src/bin/fl/bv.c        | 17 +++++++----------
 src/bin/fl/preamble.fl | 21 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/bin/fl/bv.c b/src/bin/fl/bv.c
index 758d3b8..23f8d6d 100644
--- a/src/bin/fl/bv.c
+++ b/src/bin/fl/bv.c
@@ -179,8 +179,8 @@ bv_list2str(g_ptr l, int depth)
 	DIE("Should never happen");
     }
     bool scalar = TRUE;
-    bool negative = FALSE;
-    int value = 0;
+    arbi_T value = Arbi_FromInt(0);
+    arbi_T two = Arbi_FromInt(2);
     int sz = 0;
     char sep = '<';
     for(g_ptr np = l; !IS_NIL(np); np = GET_CONS_TL(np)) {
@@ -188,13 +188,14 @@ bv_list2str(g_ptr l, int depth)
 	FP(FILE_fp,"%c", sep);
 	sep = ',';
 	if( scalar && (f == ONE) ) {
-	    if( sz == 0 ) { negative = TRUE; }
+	    // The most significant bit has negative weight
+	    arbi_T bit = Arbi_FromInt((sz == 0)? -1 : 1);
 	    sz++;
-	    value = 2*value + 1;
+	    value = Arbi_add(Arbi_mlt(value, two), bit);
 	    FP(FILE_fp, "T");
 	} else if( scalar && (f == ZERO) ) {
 	    sz++;
-	    value = 2*value;
+	    value = Arbi_mlt(value, two);
 	    FP(FILE_fp, "F");
 	} else {
 	    scalar = FALSE;
@@ -207,11 +208,7 @@ bv_list2str(g_ptr l, int depth)
     }
     FP(FILE_fp, ">");
     if( scalar ) {
-	if( negative ) {
-	    FP(FILE_fp, " (%d)", value - (1 << sz));
-	} else {
-	    FP(FILE_fp, " (%d)", value);
-	}
+	FP(FILE_fp, " (%s)", Arbi_ToString(value, 10));
     }
     fclose(odests_fp);
     odests_fp = NULL;
diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index c27a432..a8aa14f 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -755,9 +755,14 @@ overload bv_ashr bv_ashr bv_ashr_bvbv;
 let bv_neg bv = bv_add (bv_NOT bv) (int2bv 1);
 
 // Compute base to the power of n.
-letrec bev_pow {base::bev} {n::bev} =
-    IF (bev_geq n (int2bev 0)) THEN (int2bev 1) ELSE
-    (bev_mul base (bev_pow base (bev_sub n (int2bev 1))))
+let bev_pow {base::bev} {n::bev} =
+    letrec pow {steps::int} n =
+	let done = bev_leq n (int2bev 0) in
+	(steps = 0) OR (done == bT) => (int2bev 1) |
+	IF done THEN (int2bev 1) ELSE
+	(bev_mul base (pow (steps-1) (bev_sub n (int2bev 1))))
+    in
+    pow (2**((bev_size n)-1)-1) n
 ;
 
 // Compute n shifted left by amount.
@@ -785,7 +790,10 @@ forward_declare {bv_min :: bv -> int};
 
 // Compute the maximum value bv can represent
 let bv_max bv =
-    bv < (int2bv 0) => -1*(bv_min (bv_neg bv)) |
+    let neg = bv < (int2bv 0) in
+    neg == T => -1*(bv_min (bv_neg bv)) |
+    // Only the non-negative values matter
+    let bv = substitute (param (NOT neg)) bv in
     letrec try (b:bs) =
         b == F => "0":(try bs) |
         let sub = param b in
@@ -797,7 +805,10 @@ let bv_max bv =
 
 // Compute the minimum value bv can represent
 let bv_min bv =
-    bv < (int2bv 0) => -1*(bv_max (bv_neg bv)) |
+    let neg = bv < (int2bv 0) in
+    NOT (neg == F) =>
+	// Only the negative values matter
+	-1*(bv_max (bv_neg (substitute (param neg) bv))) |
     letrec try (b:bs) =
         b == T => "1":(try bs) |
         let sub = param (NOT b) in
-- 
2.43.0


From 6e9a7d772ff5a966d34e50e8e3e2bf8d5b1a6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 12/54] fix: the texts of bitvectors, bexprs and %B arguments
 were cut at fixed buffer sizes

---
 src/bin/fl/bev.c   |  9 ++++++---
 src/bin/fl/bexpr.c |  7 +++++--
 src/bin/fl/bv.c    |  9 ++++++---
 src/bin/fl/io.c    | 11 ++++++++---
 src/bin/fl/ubv.c   |  9 ++++++---
 5 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/bin/fl/bev.c b/src/bin/fl/bev.c
index 8322e59..bf8e4e2 100644
--- a/src/bin/fl/bev.c
+++ b/src/bin/fl/bev.c
@@ -24,7 +24,6 @@ static int	    bev_oidx;
 static typeExp_ptr  bev_handle_tp;
 static rec_mgr	    bev_rec_mgr;
 static bev_ptr	    bev_free_list;
-static char	    bev_str_buf[4096];
 static g_ptr	    Zero;
 static g_ptr	    One;
 
@@ -143,7 +142,9 @@ is_symbolic(bexpr f)
 static string
 bev_list2str(g_ptr l, int depth)
 {
-    if((odests_fp = fmemopen(bev_str_buf, 4096, "w")) == NULL ) {
+    char *str_buf;
+    size_t str_len;
+    if((odests_fp = open_memstream(&str_buf, &str_len)) == NULL ) {
 	DIE("Should never happen");
     }
     char sep = '<';
@@ -160,7 +161,9 @@ bev_list2str(g_ptr l, int depth)
     FP(FILE_fp, ">");
     fclose(odests_fp);
     odests_fp = NULL;
-    return( wastrsave(stringsp, bev_str_buf) );
+    string res = wastrsave(stringsp, str_buf);
+    free(str_buf);
+    return( res );
 }
 
 static string
diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 993b795..e418a35 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -664,7 +664,9 @@ bexpr2str(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr arg1 = GET_APPLY_RIGHT(l);
     g_ptr arg2 = GET_APPLY_RIGHT(redex);
-    if( (odests_fp = fmemopen(buf, 1024, "w")) == NULL ) {
+    char *str_buf;
+    size_t str_len;
+    if( (odests_fp = open_memstream(&str_buf, &str_len)) == NULL ) {
         DIE("Should never happen");
     }
     bexpr f = GET_BEXPR(arg2);
@@ -676,7 +678,8 @@ bexpr2str(g_ptr redex)
 	be_print(FILE_fp, f, GET_INT(arg1));
     fclose(odests_fp);
     odests_fp = NULL;
-    MAKE_REDEX_STRING(redex, wastrsave(stringsp, buf));
+    MAKE_REDEX_STRING(redex, wastrsave(stringsp, str_buf));
+    free(str_buf);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
diff --git a/src/bin/fl/bv.c b/src/bin/fl/bv.c
index 23f8d6d..12c574f 100644
--- a/src/bin/fl/bv.c
+++ b/src/bin/fl/bv.c
@@ -25,7 +25,6 @@ static int	    bv_oidx;
 static typeExp_ptr  bv_handle_tp;
 static rec_mgr	    bv_rec_mgr;
 static bv_ptr	    bv_free_list;
-static char	    bv_str_buf[4096];
 static g_ptr	    Zero;
 static g_ptr	    One;
 static hash_record  gen_mc_cache_tbl;
@@ -175,7 +174,9 @@ is_symbolic(formula f)
 static string
 bv_list2str(g_ptr l, int depth)
 {
-    if((odests_fp = fmemopen(bv_str_buf, 4096, "w")) == NULL ) {
+    char *str_buf;
+    size_t str_len;
+    if((odests_fp = open_memstream(&str_buf, &str_len)) == NULL ) {
 	DIE("Should never happen");
     }
     bool scalar = TRUE;
@@ -212,7 +213,9 @@ bv_list2str(g_ptr l, int depth)
     }
     fclose(odests_fp);
     odests_fp = NULL;
-    return( wastrsave(stringsp, bv_str_buf) );
+    string res = wastrsave(stringsp, str_buf);
+    free(str_buf);
+    return( res );
 }
 
 static string
diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 56dd5da..cc84252 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -48,7 +48,6 @@ extern FILE     *odests_fp;
 /**** PRIVATE VARIABLES ****/
 static rec_mgr		io_rec_mgr;
 static io_ptr		open_ios;
-static char		bdd_pbuf[4096];
 static char		buf[4096];
 static uniq_buffer	bexpr_buf;
 static uniq_buffer	bool_buf;
@@ -832,13 +831,19 @@ Printf(g_ptr *rootp, g_ptr **spp, int *depthp)
                     },
 		    {
                         /* pat_B */
-			if((odests_fp = fmemopen(bdd_pbuf,4096,"w")) == NULL ) {
+			char *str_buf;
+			size_t str_len;
+			if((odests_fp = open_memstream(&str_buf,
+						       &str_len)) == NULL ) {
 			    DIE("Should never happen");
 			}
 			B_Print(FILE_fp, GET_BOOL(GET_APPLY_RIGHT(*(sp+i))),-1);
 			fclose(odests_fp);
 			odests_fp = NULL;
-                        if( !prs(pfn, i, redex, bdd_pbuf, ljust, zfill, size) )
+			bool ok = prs(pfn, i, redex, str_buf, ljust,
+				      zfill, size);
+			free(str_buf);
+			if( !ok )
                             goto end_pfn;
                         i++;
                     },
diff --git a/src/bin/fl/ubv.c b/src/bin/fl/ubv.c
index de011d1..03b940c 100644
--- a/src/bin/fl/ubv.c
+++ b/src/bin/fl/ubv.c
@@ -24,7 +24,6 @@ static int	    ubv_oidx;
 static typeExp_ptr  ubv_handle_tp;
 static rec_mgr	    ubv_rec_mgr;
 static ubv_ptr	    ubv_free_list;
-static char	    ubv_str_buf[4096];
 static g_ptr	    Zero;
 static g_ptr	    One;
 
@@ -143,7 +142,9 @@ is_symbolic(ubv f)
 static string
 ubv_list2str(g_ptr l, int depth)
 {
-    if((odests_fp = fmemopen(ubv_str_buf, 4096, "w")) == NULL ) {
+    char *str_buf;
+    size_t str_len;
+    if((odests_fp = open_memstream(&str_buf, &str_len)) == NULL ) {
 	DIE("Should never happen");
     }
     char sep = '<';
@@ -160,7 +161,9 @@ ubv_list2str(g_ptr l, int depth)
     FP(FILE_fp, ">");
     fclose(odests_fp);
     odests_fp = NULL;
-    return( wastrsave(stringsp, ubv_str_buf) );
+    string res = wastrsave(stringsp, str_buf);
+    free(str_buf);
+    return( res );
 }
 
 static string
-- 
2.43.0


From 3acd86af29259d639ff546927c141f9fdd1c79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 13/54] fix: bv_reduce failed on constants and could divide by
 a non-divisor

---
 src/bin/fl/preamble.fl | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index a8aa14f..51b243e 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -831,15 +831,12 @@ letrec bv_gcd a b =
 let bv_reduce bv =
     NOT ((bv = int2bv 0) == F) =>
 	error "bv_reduce cannot be applied to bv that might represent 0" |
-    let vs = depends bv in
-    let cond0 = sitlist (\v.\r. NOT (variable v) AND r) vs T in
-    let sub0 = param cond0 in
-    let subrem  = param (NOT cond0) in
-    let bv0 = substitute sub0 bv in
-    let bvrem = substitute subrem bv in
-    let cd = bv_gcd bv0 bvrem in
-    let my_gcd = bv_min cd in
-    bv_div bv (int2bv my_gcd)
+    let abs_bv = bv_abs bv in
+    letrec common_divisor g =
+	let m = bv_min (bv_gcd (int2bv g) abs_bv) in
+	m = g => g | common_divisor m
+    in
+    bv_div bv (int2bv (common_divisor (bv_min abs_bv)))
 ;
 
 // Compute a substitution for all variables that must take on
-- 
2.43.0


From d10e5bd70139742602ba9df4cbed149b6c2dc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 14/54] fix: bev_ashr by at least the width made an empty
 vector

---
 src/bin/fl/bev.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bev.c b/src/bin/fl/bev.c
index bf8e4e2..36b6ab7 100644
--- a/src/bin/fl/bev.c
+++ b/src/bin/fl/bev.c
@@ -880,9 +880,13 @@ bev_ashr(g_ptr redex)
     g_ptr tail = res;
     g_ptr al = a->u.l;
     int len = get_bev_length(al);
-    for(int i = 0; i < len-cnt; i++) {
+    if( cnt >= len ) {
 	APPEND1(tail, GET_CONS_HD(al));
-	al = GET_CONS_TL(al);
+    } else {
+	for(int i = 0; i < len-cnt; i++) {
+	    APPEND1(tail, GET_CONS_HD(al));
+	    al = GET_CONS_TL(al);
+	}
     }
     MAKE_REDEX_EXT_OBJ(redex, bev_oidx, get_bev_rec(res));
 }
-- 
2.43.0


From 3a1fc3580262066ee519c228b565edd556c5289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 15/54] fix: forcing a data structure that contains a failing
 element no longer destroys or marks it

---
 src/bin/fl/graph.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 51fde89..6f94a02 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -5064,6 +5064,27 @@ Is_equal(g_ptr l1, g_ptr l2, bool identical)
     DIE("Should never occur!"); return B_Zero(); // Dummy
 }
 
+// Clear the forcing marks in a data structure whose forcing failed
+static void
+unforce(g_ptr node)
+{
+    buffer todo_buf;
+    new_buf(&todo_buf, 100, sizeof(g_ptr));
+    push_buf(&todo_buf, &node);
+    while( COUNT_BUF(&todo_buf) != 0 ) {
+	g_ptr cur;
+	pop_buf(&todo_buf, &cur);
+	if( GET_TYPE(cur) == CONS_ND && !IS_NIL(cur) && IS_FORCED(cur) ) {
+	    MAKE_UNFORCED(cur);
+	    g_ptr t = GET_CONS_TL(cur);
+	    push_buf(&todo_buf, &t);
+	    g_ptr h = GET_CONS_HD(cur);
+	    push_buf(&todo_buf, &h);
+	}
+    }
+    free_buf(&todo_buf);
+}
+
 #if 1
 g_ptr
 force(g_ptr node, bool first)
@@ -5082,9 +5103,11 @@ force(g_ptr node, bool first)
 	if( !IS_FORCED(cur) ) {
 	    cur = reduce(cur, first);
 	    if( is_fail(cur) ) {
-		OVERWRITE(node, cur);
+		// Keep the data intact (it might be shared and only some parts
+		// of it fail), but it is no longer known to be forced.
 		free_buf(&todo_buf);
-		return node;
+		unforce(node);
+		return cur;
 	    }
 	    MAKE_FORCED(cur);
 	    if( GET_TYPE(cur) == CONS_ND ) {
@@ -5352,7 +5375,10 @@ Eval(g_ptr redex)
     root_node = redex;
     if( setjmp(*start_envp) == 0 ) {
         /* All ok */
-        force(redex, FALSE);
+        g_ptr res = force(redex, FALSE);
+	if( res != redex && is_fail(res) ) {
+	    OVERWRITE(redex, res);
+	}
     } else {
         /* Return from a failure */
 	MAKE_REDEX_FAILURE(redex, FailBuf);
-- 
2.43.0


From 90b0b4ceca03b2aac2be95189ee9763d3f141f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 16/54] fix: a list whose spine fails while being forced is no
 longer overwritten by the failure

---
 src/bin/fl/graph.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 6f94a02..91d7802 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -5176,8 +5176,7 @@ reduce_list(g_ptr redex, int levels)
 	if( levels > 1 ) {
 	    g_ptr hd = reduce_list(GET_CONS_HD(cur), levels-1);
 	    if( is_fail(hd) ) {
-		OVERWRITE(redex, hd);
-		return( redex );
+		return( hd );
 	    }
 	}
 	if( depth >= (unint) RCcall_limit ) {
@@ -5189,8 +5188,8 @@ reduce_list(g_ptr redex, int levels)
 	cur = traverse_left(GET_CONS_TL(cur));
 	depth++;
 	if( is_fail(cur) ) {
-	    OVERWRITE(redex, cur);
-	    return( redex );
+	    // Keep the list itself intact, since it might be shared
+	    return( cur );
 	}
     }
     return redex;
-- 
2.43.0


From 288122f4de5ee23cf9d10e7abae144b8276a67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:22 +0000
Subject: [PATCH 17/54] hook: VOSS_TEST_GC adds test_gc_interval, which
 requests a garbage collection every n allocated nodes

---
 src/bin/fl/graph.c  | 20 ++++++++++++++++++++
 src/bin/fl/system.c | 21 +++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 91d7802..6f9a772 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -92,6 +92,10 @@ static g_ptr		stack[STACK_SIZE];
 static int		allocated = 0;
 static int		last_allocated = 0;
 static int		gc_threshold = 250000;
+#ifdef VOSS_TEST_GC
+static int		test_gc_interval = 0;
+static int		test_gc_cnt = 0;
+#endif
 static int		find_new_var_cnt = 1;
 static int		uniq_quant_cnt = 1;
 static buffer		fn_trace_buf;
@@ -2352,10 +2356,26 @@ Get_pfn_name(g_ptr np, bool verbose_debug)
     return pfn2str_buf;
 }
 
+#ifdef VOSS_TEST_GC
+// Request a garbage collection every n allocated nodes (0 means never)
+void
+Test_set_gc_interval(int n)
+{
+    test_gc_interval = n;
+    test_gc_cnt = 0;
+}
+#endif
+
 g_ptr
 Get_node()
 {
     g_ptr ret;
+#ifdef VOSS_TEST_GC
+    if( test_gc_interval > 0 && ++test_gc_cnt >= test_gc_interval ) {
+	test_gc_cnt = 0;
+	do_gc_asap = 1;
+    }
+#endif
     if( free_list != NULL ) {
 	ret = free_list;
 	free_list = (g_ptr) GET_RIGHT(ret);
diff --git a/src/bin/fl/system.c b/src/bin/fl/system.c
index 706f3ae..2cbbba2 100644
--- a/src/bin/fl/system.c
+++ b/src/bin/fl/system.c
@@ -172,6 +172,21 @@ ARGS(g_ptr redex)
     return;
 }
 
+#ifdef VOSS_TEST_GC
+extern void Test_set_gc_interval(int n);
+
+static void
+test_gc_interval(g_ptr redex)
+{
+    g_ptr l = GET_APPLY_LEFT(redex);
+    g_ptr r = GET_APPLY_RIGHT(redex);
+    Test_set_gc_interval(GET_INT(r));
+    MAKE_REDEX_VOID(redex);
+    DEC_REF_CNT(l);
+    DEC_REF_CNT(r);
+}
+#endif
+
 static void
 etime(g_ptr redex)
 {
@@ -380,6 +395,12 @@ System_Install_Functions()
 {
     // Add builtin functions
 
+#ifdef VOSS_TEST_GC
+    Add_ExtAPI_Function("test_gc_interval", "1", FALSE,
+			GLmake_arrow(GLmake_int(), GLmake_void()),
+			test_gc_interval);
+#endif
+
     Add_ExtAPI_Function("kill", "11", TRUE, 
 			GLmake_arrow(GLmake_int(),
 				     GLmake_arrow(GLmake_int(),
-- 
2.43.0


From 2b71d9df333a64159279a3f2bec15efbc73bc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 18/54] fix: STE ignores empty time intervals instead of
 aborting fl

---
 src/bin/fl/fsm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..e1a1dd9 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3424,6 +3424,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	string node;
 	int from, to;
 	extract_four_tuple(t, &when, &node, &from, &to);
+	if( from >= to ) { continue; }
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
 	    Fail_pr("Cannot find node %s in weakening list\n", node);
@@ -3453,6 +3454,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	string node;
 	int from, to;
 	extract_five_tuple(t, &when, &node, &val, &from, &to);
+	if( from >= to ) { continue; }
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
 	    Fail_pr("Cannot find node %s in antecedent\n", node);
@@ -3498,6 +3500,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	string node;
 	int from, to;
 	extract_five_tuple(t, &when, &node, &val, &from, &to);
+	if( from >= to ) { continue; }
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
 	    Fail_pr("Cannot find node %s in consequent\n", node);
@@ -3542,6 +3545,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	string node;
 	int from, to;
 	extract_tripple(t, &node, &from, &to);
+	if( from >= to ) { continue; }
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
 	    Fail_pr("Cannot find node %s in trace list\n", node);
-- 
2.43.0


From 8a6c76249560932836740580c72f0c17c01abc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 19/54] fix: STE events that overlap or meet on a node no
 longer cancel each other

---
 src/bin/fl/fsm.c | 27 ++++++++++++++++-----------
 src/bin/fl/fsm.h |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index e1a1dd9..391df70 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3590,15 +3590,16 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
-		np->has_trace = TRUE;
+		np->has_trace++;
 		gbv H = *(cur_buf + 2*idx);
 		gbv L = *(cur_buf + 2*idx + 1);
 		record_trace(idx, time, H, L);
 	    } else if( ep->type == end_trace ) {
-		np->has_trace = FALSE;
-		record_trace(idx, time, c_ONE, c_ONE);
+		np->has_trace--;
+		if( np->has_trace == 0 ) {
+		    record_trace(idx, time, c_ONE, c_ONE);
+		}
 	    } else {
 		gbv *buf;
 		event_list_ptr	cur_active = NULL;
@@ -3618,7 +3619,6 @@ process_event(buffer *event_bufp, int time)
 			buf = weak_buf;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3629,6 +3629,7 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
 			break;
 		    case start_ant:
@@ -3638,9 +3639,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3649,19 +3650,23 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		// Constraints are combined by AND, weakening conditions by OR
+		bool is_weak = (buf == weak_buf);
+		gbv H = is_weak? c_ZERO : c_ONE;
+		gbv L = is_weak? c_ZERO : c_ONE;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    gbv aH = cur_active->ep->H;
+		    gbv aL = cur_active->ep->L;
+		    H = is_weak? c_OR(H, aH) : c_AND(H, aH);
+		    L = is_weak? c_OR(L, aL) : c_AND(L, aL);
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
diff --git a/src/bin/fl/fsm.h b/src/bin/fl/fsm.h
index e780347..dbbb1d9 100644
--- a/src/bin/fl/fsm.h
+++ b/src/bin/fl/fsm.h
@@ -193,10 +193,10 @@ typedef struct nnode_rec {
     unint	    has_weak:1;
     unint	    has_ant:1;
     unint	    has_cons:1;
-    unint	    has_trace:1;
     int		    composite:30;
     unint	    is_top_input:1;
     unint	    is_top_output:1;
+    int		    has_trace;	// Number of active trace intervals
     idx_list_ptr    fanouts;
     vis_list_ptr    draw_info;
 } nnode_rec;
-- 
2.43.0


From 160d917e8398375949805112b9f78f633ea05de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 20/54] fix: a W_PRED on the right-hand side of a phase delay
 is delayed

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 391df70..2b665e4 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4740,7 +4740,7 @@ compile_expr(hash_record *vtblp, string hier, ilist_ptr outs, g_ptr we,
 	return( TRUE );
     }
     if( is_W_PRED(we, &name, &l) ) {
-	if( !compile_expr(vtblp, hier, outs, l, FALSE) ) {
+	if( !compile_expr(vtblp, hier, outs, l, pdel) ) {
 	    return FALSE;
 	}
 	return TRUE;
-- 
2.43.0


From d10307d395809f1b0bb5b1fbe850b6ce76927461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 21/54] fix: STE shifts of vectors wider than 32 bits by huge
 amounts

---
 src/bin/fl/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 2b665e4..969ed5c 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -6311,7 +6311,7 @@ op_SHL(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshl_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6336,7 +6336,7 @@ op_SHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6363,7 +6363,7 @@ op_ASHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sashr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
-- 
2.43.0


From 7d431edab11f5811068679e8a4d0fdf7c3cafbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 22/54] fix: STE constrains phase-delay nodes by the antecedent
 of the current time

---
 src/bin/fl/fsm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 969ed5c..fd94111 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5782,7 +5782,6 @@ do_phase(ste_ptr ste)
 {
     nnode_ptr np;
     int idx = 0;
-    (ste->cur_time)++;
     FOR_BUF(nodesp, nnode_rec, np) {
 	gbv newH, newL;
 	if( idx >3 && np->composite == -1 ) {
@@ -5797,7 +5796,6 @@ do_phase(ste_ptr ste)
 	}
 	idx++;
     }
-    (ste->cur_time)--;
 }
 
 static int
@@ -8764,6 +8762,7 @@ gSTE(g_ptr redex, value_type type)
 	}
 
 	process_event(event_bufp, t);
+	if( t > min_time ) do_phase(ste);
 	nnode_ptr np;
 	// Put nodes whose weak/ant changed on evaluation list.
 	int idx = 0;
@@ -8772,7 +8771,14 @@ gSTE(g_ptr redex, value_type type)
 		if( np->composite >= 0 ) {
 		    ncomp_ptr c;
 		    c = (ncomp_ptr) M_LOCATE_BUF(compositesp,np->composite);
-		    add_op_todo(c);
+		    if( c->phase_delay ) {
+			// The current value was computed in an earlier phase
+			gbv H = *(next_buf+2*idx);
+			gbv L = *(next_buf+2*idx+1);
+			update_node(ste, idx, H, L);
+		    } else {
+			add_op_todo(c);
+		    }
 		} else if( np->composite == -1 ) {
 		    // Input node
 		    update_node(ste, idx, c_ONE, c_ONE);
@@ -8850,7 +8856,6 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
-	do_phase(ste);
 	if( Do_gc_asap )
 	    Garbage_collect();
     }
-- 
2.43.0


From 9eabc8b848c95a25d58468f8a6540305b36aa049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 23/54] fix: the size of a memory read is the data size, not
 the address size

---
 src/bin/fl/fsm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index fd94111..fd54950 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4544,8 +4544,8 @@ get_wexpr_size(g_ptr we)
 	return sz;
     }
     int d_sz, a_sz, lines;
-    if( is_W_MEM_READ(we, &d_sz, &lines, &a_sz, &l, &r) ) { return d_sz; }
-    if( is_W_MEM_WRITE(we, &d_sz, &lines, &a_sz, &l, &r, &c) ) {
+    if( is_W_MEM_READ(we, &a_sz, &lines, &d_sz, &l, &r) ) { return d_sz; }
+    if( is_W_MEM_WRITE(we, &a_sz, &lines, &d_sz, &l, &r, &c) ) {
 	we = l;
 	goto size_start;
     }
-- 
2.43.0


From 28516ab39a95a25ae242c73e700fa2443b7ecd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:44 +0000
Subject: [PATCH 24/54] fix: constant propagation in word expressions computes
 on the unsigned value of the given width

---
 IDVII/src/fl/design/simplify.fl | 46 +++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/IDVII/src/fl/design/simplify.fl b/IDVII/src/fl/design/simplify.fl
index e1f9302..d5a8c49 100644
--- a/IDVII/src/fl/design/simplify.fl
+++ b/IDVII/src/fl/design/simplify.fl
@@ -381,27 +381,39 @@ let split_complex p =
 ;
 
 
-let do_shr sz v1 v2 = sscanf "%b" (string_butlastn (sprintf "%*b" sz v1) v2);
-let do_ashr v1 v2 = v1 >= 0 => v1 / (2**v2) | -1*((-1*v1)/(2**v2));
+let do_shl sz v1 v2 = v2 >= sz => 0 | (v1 * (2**v2)) intAND (2**sz-1);
+let do_shr sz v1 v2 = v2 >= sz => 0 | v1 / (2**v2);
+let do_ashr sz v1 v2 =
+    v1 < 2**(sz-1) => do_shr sz v1 v2 |
+    // Negative number, so shift in ones
+    v2 >= sz => 2**sz-1 |
+    (v1 / (2**v2)) + 2**sz - 2**(sz-v2)
+;
+
+// Size and value (as an unsigned number) of a constant
+let get_const (W_CONST sz v) = sz, (v intAND (2**sz-1))
+ /\ get_const (W_NAMED_CONST name sz v) = sz, (v intAND (2**sz-1))
+ /\ get_const other = error "Should not happen!"
+;
 
 
 let perform_binary constr e1 e2 =
-    val (W_CONST sz1 v1) = e1 in
-    val (W_CONST sz2 v2) = e2 in
+    val (sz1,v1) = get_const e1 in
+    val (sz2,v2) = get_const e2 in
     sz1 != sz2 => eprintf "Size mismatch in perform_binary (%d!=%d)" sz1 sz2 |
     let sz = sz1 in
     let  do (W_EQ  e1 e2)  = W_CONST 1 ((v1 = v2) => 1 | 0)
       /\ do (W_GR  e1 e2)  = W_CONST 1 (v1 > v2 => 1 | 0)
       /\ do (W_AND  e1 e2) = W_CONST sz (v1 intAND v2)
       /\ do (W_OR  e1 e2)  = W_CONST sz (v1 intOR v2)
-      /\ do (W_ADD e1 e2)  = W_CONST sz (v1 + v2)
-      /\ do (W_SUB e1 e2)  = W_CONST sz (v1 - v2)
-      /\ do (W_MUL e1 e2)  = W_CONST sz (v1 * v2)
-      /\ do (W_DIV e1 e2)  = W_CONST sz (v1 / v2)
-      /\ do (W_MOD e1 e2)  = W_CONST sz (v1 % v2)
-      /\ do (W_SHL e1 e2)  = W_CONST sz ((v1 * (2**v2)) intAND (2 ** sz-1))
+      /\ do (W_ADD e1 e2)  = W_CONST sz ((v1 + v2) intAND (2**sz-1))
+      /\ do (W_SUB e1 e2)  = W_CONST sz ((v1 + 2**sz - v2) intAND (2**sz-1))
+      /\ do (W_MUL e1 e2)  = W_CONST sz ((v1 * v2) intAND (2**sz-1))
+      /\ do (W_DIV e1 e2)  = (v2 = 0 => constr e1 e2 | W_CONST sz (v1 / v2))
+      /\ do (W_MOD e1 e2)  = (v2 = 0 => constr e1 e2 | W_CONST sz (v1 % v2))
+      /\ do (W_SHL e1 e2)  = W_CONST sz (do_shl sz v1 v2)
       /\ do (W_SHR e1 e2)  = W_CONST sz (do_shr sz v1 v2)
-      /\ do (W_ASHR e1 e2) = W_CONST sz (do_ashr v1 v2)
+      /\ do (W_ASHR e1 e2) = W_CONST sz (do_ashr sz v1 v2)
       /\ do (W_LAT_LEQ e1 e2) = W_CONST 1 (v1 = v2 => 1 | 0)
     in
     do (constr e1 e2)
@@ -412,11 +424,6 @@ let is_CONST (W_CONST sz v) = T
  /\ is_CONST ohter = F
 ;
 
-let get_const (W_CONST sz v) = sz,v
- /\ get_const (W_NAMED_CONST name sz v) = sz,v
- /\ get_const other = error "Should not happen!"
-;
-
 let const_eq a b =
     is_CONST a AND is_CONST b =>
 	val (asz,av) = get_const a in
@@ -445,7 +452,8 @@ letrec const_prop e assuming (is_binary e) =
 	let c = const_prop e then
 	is_CONST c =>
 	    val (osz,v) = get_const c then
-	    (W_CONST sz v)
+	    sz < osz => W_CONST sz (v intAND (2**sz-1)) |
+	    v < 2**(osz-1) => W_CONST sz v | W_CONST sz (v+2**sz-2**osz)
 	|
 	W_SX sz c
  /\    const_prop (W_ZX sz e) =
@@ -453,7 +461,7 @@ letrec const_prop e assuming (is_binary e) =
 	is_CONST c =>
 	    val (osz,v) = get_const c then
 	    sz < osz => eprintf "ZX requires truncation! (%d>%d)" osz sz |
-	    v >= 0 => W_CONST sz v | W_CONST sz (2**osz+v)
+	    W_CONST sz v
 	|
 	W_ZX sz c
  /\    const_prop (W_ITE c t e) =
@@ -517,7 +525,7 @@ letrec const_prop e assuming (is_binary e) =
  /\    const_prop (W_CAT parts) =
 	let cparts = map const_prop parts then
 	letrec merge ((W_CONST sz1 v1):(W_CONST sz2 v2):rem) =
-	    let r = W_CONST (sz1+sz2) (v1*(2**sz2)+v2) then
+	    let r = W_CONST (sz1+sz2) (v1*(2**sz2)+(v2 intAND (2**sz2-1))) then
 	    merge (r:rem)
 	 /\    merge (r:rem) = r:(merge rem)
 	 /\    merge [] = []
-- 
2.43.0


From 7e1ac6487df98bda15e65527b4ae0686bdd41b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:44 +0000
Subject: [PATCH 25/54] fix: drawing a negative constant of an HFL expression
 no longer fails

---
 IDVII/src/fl/design/util.fl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IDVII/src/fl/design/util.fl b/IDVII/src/fl/design/util.fl
index f129a05..f46eebc 100644
--- a/IDVII/src/fl/design/util.fl
+++ b/IDVII/src/fl/design/util.fl
@@ -1032,6 +1032,7 @@ let base_compact_wprint inps rhs =
     let i_map = zip inps (1 upto (length inps)) in
     letrec P pri (W_X sz) = sprintf "X[%d:0]" (sz-1)
      /\    P pri (W_CONST sz v) =
+	    let v = v < 0 => 2**sz+v | v in
 	    (sz % 4) == 0 => sprintf "0x%0*x" (sz/4) v |
 	    (sz % 3) == 0 => sprintf "0o%0*o" (sz/3) v |
 			     sprintf "0b%0*b" sz v
-- 
2.43.0


From 6ba1d846288ef9a216adf4225743a7c609a2ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:44 +0000
Subject: [PATCH 26/54] fix: a CASE inside the condition of another CASE no
 longer drives its own input

---
 IDVII/src/fl/design/hfl.fl | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/IDVII/src/fl/design/hfl.fl b/IDVII/src/fl/design/hfl.fl
index c999518..70a34b7 100644
--- a/IDVII/src/fl/design/hfl.fl
+++ b/IDVII/src/fl/design/hfl.fl
@@ -708,8 +708,15 @@ let w_CASE w_out cond_res_list w_default_value =
 //	let base = base_assignment T w_out (W_ITE c t e) in
 //	resize_pexlif sz base
 //    |
-    let n_out = hd (w_depends w_out) then
+    wexpr_size w_out != sz =>
+	eprintf "Size mismatch in CASE (%d != %d)" (wexpr_size w_out) sz
+    |
+    // The output may be a temporary of an enclosing CASE, and thus have the
+    // same name as one of the temporaries below.
+    let l_out = W_VAR sz (sprintf "%so" BASE_TMP) then
+    let n_out = mk_name sz (sprintf "%so" BASE_TMP) then
     let fa_outs = [(n_out,[n_out])] then
+    let fa_wrap_outs = [(n_out, base_get_lhs_vars w_out)] then
     let var2name (W_VAR s b) = [mk_name s b]
      /\ var2name (W_EXPLICIT_VAR s b) = [b]
      /\ var2name other = []
@@ -759,14 +766,14 @@ let w_CASE w_out cond_res_list w_default_value =
 	(fas, ld, d_ints, d_extra)
     in
     val (fas, rhs, ints, extras) = select 1 cond_res_list then
-    let body = base_assignment F w_out rhs then
+    let body = base_assignment F l_out rhs then
     let pfn = sprintf "draw_CASE %d" n then
     let mux = PINST pfn [] T fas fa_outs [] (P_HIER [body]) then
     let children = mux:extras then
     let get_acts (PINST _ _ _ ifa _ _ _) = flatmap snd ifa then
     let inps = (setify (flatmap get_acts children)) subtract ints then
     let fa_inps = map (\v.v,[v]) inps then
-    PINST "_WrApPeR_" [] F fa_inps fa_outs ints (P_HIER children)
+    PINST "_WrApPeR_" [] F fa_inps fa_wrap_outs ints (P_HIER children)
 ;
 
 
-- 
2.43.0


From ed99f71b1ee45d04f5445fc148a3f7bc21532964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:00 +0000
Subject: [PATCH 27/54] fix: bit 0 of a one-bit signal as a cell argument
 denotes the signal itself

---
 IDVII/src/fl/design/util.fl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IDVII/src/fl/design/util.fl b/IDVII/src/fl/design/util.fl
index f46eebc..dc0c213 100644
--- a/IDVII/src/fl/design/util.fl
+++ b/IDVII/src/fl/design/util.fl
@@ -241,9 +241,9 @@ let limited_Emit_ASCII_pexlif file pexlif max_depth =
 let base_get_lhs_vars we =
     letrec gen_get_names (W_VAR sz b) = sz = 1 => [b] | [(mk_name sz b)]
      /\    gen_get_names (W_EXPLICIT_VAR sz b) = [b]
-     /\	   gen_get_names (W_SLICE indices (W_VAR sz b)) =
+     /\	   gen_get_names (W_SLICE indices (W_VAR sz b)) assuming (sz != 1) =
 	    merge_vectors [list2str T (b^"[") "," "]" int2str indices]
-     /\	   gen_get_names (W_NAMED_SLICE name indices (W_VAR sz b)) =
+     /\	   gen_get_names (W_NAMED_SLICE name indices (W_VAR sz b)) assuming (sz != 1) =
 	    merge_vectors [list2str T (b^"[") "," "]" int2str indices]
      /\	   gen_get_names (W_SLICE indices w) =
 	let l = md_expand_vectors (gen_get_names w) then
-- 
2.43.0


From 57880e19e99ff01ce38ad84754f923eab3ec99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 28/54] fix: constant propagation leaves an instance without
 outputs alone

---
 IDVII/src/fl/design/pexlif.fl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IDVII/src/fl/design/pexlif.fl b/IDVII/src/fl/design/pexlif.fl
index 38625be..f1b0232 100644
--- a/IDVII/src/fl/design/pexlif.fl
+++ b/IDVII/src/fl/design/pexlif.fl
@@ -689,6 +689,7 @@ let constant_propagation p =
     let transf lp =
 	val (PINST lname lattrs llf lfa_inps lfa_outs lints lbody) = lp in
 	let acts = md_expand_vectors (flatmap snd lfa_outs) then
+	acts = [] => lp |
 	let outvs = map get_v acts then
 	(find_first0 (\v. v = "X") outvs) != 0 => lp |
 	let sz = length outvs then
-- 
2.43.0


From 01f7926de62b5da17c849f65f3f6add9ed4bced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:24 +0000
Subject: [PATCH 29/54] fix: the cache of compiled regular expressions indexed
 itself at -1

---
 src/bin/fl/voss_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 3e9782a..0d99b85 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -2353,7 +2353,7 @@ compile_regexp(string pattern, int flags)
     }
     // No cached version available.
     int new_idx = -1;
-    if( hole == -1 ) {
+    if( hole != -1 ) {
 	new_idx = hole;
     } else {
 	regfree(&(reg_cache_cexpr[oldest_idx]));
-- 
2.43.0


From b9cda4ce42506309de1771130832a41426493092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:24 +0000
Subject: [PATCH 30/54] fix: a refused insertion of several keys leaves the
 table unchanged

---
 src/bin/fl/table.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/fl/table.c b/src/bin/fl/table.c
index 5b003a5..dbeb8b5 100644
--- a/src/bin/fl/table.c
+++ b/src/bin/fl/table.c
@@ -107,11 +107,16 @@ table_insertn(g_ptr redex)
     g_ptr   g_tbl, kd_list;
     EXTRACT_2_ARGS(redex, g_tbl, kd_list);
     table_ptr tp = (table_ptr) GET_EXT_OBJ(g_tbl);
+    g_ptr first = kd_list;
     while( !IS_NIL(kd_list) ) {
 	g_ptr gp = GET_CONS_HD(kd_list);
 	g_ptr g_key = GET_FST(gp);
 	g_ptr g_data = GET_SND(gp);
 	if( find_hash(&(tp->tbl), g_key) != NULL ) {
+	    // Leave the table as it was
+	    for(; first != kd_list; first = GET_CONS_TL(first)) {
+		delete_hash(&(tp->tbl), (pointer) GET_FST(GET_CONS_HD(first)));
+	    }
 	    MAKE_REDEX_FAILURE(redex,Fail_pr("tbl_insertn with duplicate key"));
 	    return;
 	} else {
@@ -131,9 +136,14 @@ set_table_insertn(g_ptr redex)
     g_ptr   g_tbl, k_list;
     EXTRACT_2_ARGS(redex, g_tbl, k_list);
     table_ptr tp = (table_ptr) GET_EXT_OBJ(g_tbl);
+    g_ptr first = k_list;
     while( !IS_NIL(k_list) ) {
 	g_ptr g_key = GET_CONS_HD(k_list);
 	if( find_hash(&(tp->tbl), g_key) != NULL ) {
+	    // Leave the table as it was
+	    for(; first != k_list; first = GET_CONS_TL(first)) {
+		delete_hash(&(tp->tbl), (pointer) GET_CONS_HD(first));
+	    }
 	    MAKE_REDEX_FAILURE(redex,
 			       Fail_pr("set_tbl_insertn with duplicate key"));
 	    return;
-- 
2.43.0


From e28993c6cf89290ae432a23c663acadb29d7232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:17 +0000
Subject: [PATCH 31/54] fix: extracting vectors invented or repeated indices of
 unsorted or overlapping ranges

---
 src/bin/fl/voss_strings.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 0d99b85..219cd06 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -1653,20 +1653,16 @@ make_range_canonical(range_ptr rp)
         rp->next = rem;
         return rp;
     }
-    // Overlap
-    if( rp->upper <= rem->upper ) {
-        if( rp->lower >= rem->lower ) {
-            return rem;
-        }
-        rem->lower = rp->lower;
-        return( make_range_canonical(rem) );
-    }
-    rem->upper = rp->upper;
-    if( rem->lower > rp->lower ) {
-        rem->lower = rp->lower;
-        return( make_range_canonical(rem) );
+    if( rp->upper < rem->lower ) {
+        // Disjoint, but out of order
+        rp->next = rem->next;
+        rem->next = make_range_canonical(rp);
+        return rem;
     }
-    return rem;
+    // Overlap
+    if( rem->upper < rp->upper ) { rem->upper = rp->upper; }
+    if( rem->lower > rp->lower ) { rem->lower = rp->lower; }
+    return( make_range_canonical(rem) );
 }
 
 static vec_ptr
@@ -1702,11 +1698,9 @@ compress_ranges(range_ptr r1, range_ptr r2)
     }
     r1->lower = r2->lower;
     // Can we merge newly formed range with next range?
-    if( r1->next != NULL ) {
-        if( r1->lower == (r1->next->upper+1) ) {
-            r1->lower = r1->next->lower;
-            r1->next = r1->next->next;
-        }
+    while( r1->next != NULL && r1->lower <= (r1->next->upper+1) ) {
+        if( r1->next->lower < r1->lower ) { r1->lower = r1->next->lower; }
+        r1->next = r1->next->next;
     }
     return( compress_ranges(r1, r2->next) );
 }
-- 
2.43.0


From 671991d41c4ef6cbf7b24759bdfb8e7d299cd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:54 +0000
Subject: [PATCH 32/54] fix: merging vectors of several dimensions kept the
 bits but not their order

---
 src/bin/fl/voss_strings.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 219cd06..579416c 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -1968,11 +1968,18 @@ gen_merge_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 		// Potentially can be merged
 		vec_ptr v1 = mp->vec;
 		vec_ptr v2 = mp->next->vec;
+		bool multi = FALSE;
 		while( v1 &&
 		       (v1->type == TXT ||
 			//range_equ(v1->u.ranges, v2->u.ranges)) )
 			same_range(v1->u.ranges,v2->u.ranges)) )
 		{
+		    if( v1->type == INDEX &&
+			(v1->u.ranges == NULL || v1->u.ranges->next != NULL ||
+			 v1->u.ranges->upper != v1->u.ranges->lower) )
+		    {
+			multi = TRUE;
+		    }
 		    v1 = v1->next;
 		    v2 = v2->next;
 		}
@@ -1980,6 +1987,10 @@ gen_merge_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 		    // Two identical vectors; don't remove duplicates
 		    not_changed++;
 		    mp = mp->next;
+		} else if( multi ) {
+		    // Merging here would change the order of the bits
+		    not_changed++;
+		    mp = mp->next;
 		} else {
 		    // Make sure the rest matches
 		    range_ptr r1 = v1->u.ranges;
-- 
2.43.0


From efeca7f8a5270bf17b51bba79fa51be452075c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:38 +0000
Subject: [PATCH 33/54] fix: compiled circuits read an uninitialised flag of
 their constant and input nodes

---
 src/bin/fl/fsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index fd54950..7b85280 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5113,6 +5113,7 @@ declare_vector(hash_record *vtblp, string hier, string name,
 	    nr.vec = ip;
 	    nr.idx = vector_cnt;
 	    nr.has_phase_event = FALSE;
+	    nr.has_ant_or_weak_change = FALSE;
 	    nr.has_weak = FALSE;
 	    nr.has_ant = FALSE;
 	    nr.has_cons = FALSE;
-- 
2.43.0


From 1694749d38728aa720c23f5c5a5909e0aa336456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:38 +0000
Subject: [PATCH 34/54] fix: Verilog import lost signs, sizes of logical
 operands and sizes of shift amounts

---
 IDVII/src/fl/design/yosys_lib.fl              | 127 +++++++++++++-----
 .../yosys/write_pexlif/write_pexlif.cc        | 127 +++++++++++-------
 2 files changed, 174 insertions(+), 80 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index a4cba71..3a9a876 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -121,16 +121,6 @@ let mk_rtl op name attrs sz out inp1 inp2 =
     PINST name attrs T fa_inps fa_outs ints leaf
 ;
 
-let _sshl sz src =
-    let attrs = mk_attr src __FILE__ __LINE__ then
-    mk_rtl W_SHL "draw_rtl {<<}" attrs sz
-;
-
-let _shl sz src =
-    let attrs = mk_attr src __FILE__ __LINE__ then
-    mk_rtl W_SHL "draw_rtl {<<}" attrs sz
-;
-
 let _sub sz src =
     let attrs = mk_attr src __FILE__ __LINE__ then
     mk_rtl W_SUB "draw_rtl {-}" attrs sz
@@ -191,8 +181,8 @@ let _neg sz src out inp =
     PINST "draw_unary_arithm {-}" attrs T fa_inps fa_outs ints leaf
 ;
 
-let _shr  o_sz a_sz b_sz src out inp1 inp2 =
-    let attrs = mk_attr src __FILE__ __LINE__ then
+// Shift A by B (of any size). All vectors are brought to the same size first.
+let mk_shift ext ext_amount op name attrs o_sz a_sz b_sz out inp1 inp2 =
     let f_out = mk_name o_sz "Y" in
     let Y = W_VAR o_sz "Y" in
     let f_inp1 = mk_name a_sz "A" in
@@ -202,14 +192,47 @@ let _shr  o_sz a_sz b_sz src out inp1 inp2 =
     let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
     let fa_outs = [(f_out, out)] in
     let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_SHR A B)] in
-    PINST "draw_rtl {>>}" attrs T fa_inps fa_outs ints leaf
+    let sz = max a_sz b_sz in
+    let A' = a_sz < sz => ext sz A | A in
+    let B' = b_sz < sz => ext_amount sz B | B in
+    let res = op A' B' in
+    let res' =
+	o_sz < sz => W_SLICE ((o_sz-1)--0) res |
+	o_sz > sz => ext o_sz res |
+	res
+    in
+    let leaf = P_LEAF [W_UPDATE_FN Y res'] in
+    PINST name attrs T fa_inps fa_outs ints leaf
+;
+
+let _shl  o_sz a_sz b_sz src out inp1 inp2 =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_shift W_ZX W_ZX W_SHL "draw_rtl {<<}" attrs o_sz a_sz b_sz out inp1 inp2
+;
+
+let _shr  o_sz a_sz b_sz src out inp1 inp2 =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_shift W_ZX W_ZX W_SHR "draw_rtl {>>}" attrs o_sz a_sz b_sz out inp1 inp2
 ;
 
 let _ashr  o_sz a_sz b_sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let f_out = mk_name o_sz "Y" in
-    let Y = W_VAR o_sz "Y" in
+    mk_shift W_SX W_ZX W_ASHR "draw_rtl {|>>}" attrs o_sz a_sz b_sz out inp1 inp2
+;
+
+// A negative amount shifts A to the left
+let _shiftx  o_sz a_sz b_sz src out inp1 inp2 =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let sz = max a_sz b_sz in
+    let op A B =
+	W_ITE (W_SLICE [sz-1] B) (W_SHL A (W_SUB (W_CONST sz 0) B)) (W_SHR A B)
+    in
+    mk_shift W_ZX W_SX op "draw_rtl {>>}" attrs o_sz a_sz b_sz out inp1 inp2
+;
+
+let mk_logic op name attrs a_sz b_sz out inp1 inp2 =
+    let f_out = mk_name 1 "Y" in
+    let Y = W_VAR 1 "Y" in
     let f_inp1 = mk_name a_sz "A" in
     let A = W_VAR a_sz "A" in
     let f_inp2 = mk_name b_sz "B" in
@@ -217,28 +240,20 @@ let _ashr  o_sz a_sz b_sz src out inp1 inp2 =
     let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
     let fa_outs = [(f_out, out)] in
     let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_ASHR A B)] in
-    PINST "draw_rtl {|>>}" attrs T fa_inps fa_outs ints leaf
+    let A_T = W_NOT (W_EQ A (W_CONST a_sz 0)) in
+    let B_T = W_NOT (W_EQ B (W_CONST b_sz 0)) in
+    let leaf = P_LEAF [W_UPDATE_FN Y (op A_T B_T)] in
+    PINST name attrs T fa_inps fa_outs ints leaf
 ;
 
-let _land sz src out inp1 inp2 =
+let _land a_sz b_sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let op A B = 
-	let A_T = W_NOT (W_EQ A (W_CONST sz 0)) in
-	let B_T = W_NOT (W_EQ B (W_CONST sz 0)) in
-	W_AND A_T B_T
-    in
-    mk_rtl op "draw_and2" attrs sz out inp1 inp2
+    mk_logic W_AND "draw_and2" attrs a_sz b_sz out inp1 inp2
 ;
 
-let _lor sz src out inp1 inp2 =
+let _lor a_sz b_sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let op A B = 
-	let A_T = W_NOT (W_EQ A (W_CONST sz 0)) in
-	let B_T = W_NOT (W_EQ B (W_CONST sz 0)) in
-	W_OR A_T B_T
-    in
-    mk_rtl op "draw_or2" attrs sz out inp1 inp2
+    mk_logic W_OR "draw_or2" attrs a_sz b_sz out inp1 inp2
 ;
 
 let mk_cmp op name attrs sz out inp1 inp2 =
@@ -311,6 +326,54 @@ let _le sz src =
     mk_cmp (\w1.\w2. W_OR (W_GR w2 w1) (W_EQ w1 w2)) "draw_rtl {<=}" attrs sz
 ;
 
+// Signed comparisons: invert the sign bits and compare unsigned
+let flip_sign sz w =
+    let msb = W_NOT (W_SLICE [sz-1] w) in
+    sz = 1 => msb | W_CAT [msb, W_SLICE ((sz-2)--0) w]
+;
+
+let signed_op sz op w1 w2 = op (flip_sign sz w1) (flip_sign sz w2);
+
+let _sgt sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (signed_op sz W_GR) "draw_rtl {>}" attrs sz
+;
+
+let _sge sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. W_NOT (signed_op sz W_GR w2 w1)) "draw_rtl {>=}" attrs sz
+;
+
+let _slt sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. signed_op sz W_GR w2 w1)  "draw_rtl {<}" attrs sz
+;
+
+let _sle sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. W_NOT (signed_op sz W_GR w1 w2)) "draw_rtl {<=}" attrs sz
+;
+
+// Signed division truncates towards zero; the remainder has the sign of A
+let neg_if c sz w = W_ITE c (W_SUB (W_CONST sz 0) w) w;
+
+let _sdiv sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let sign w = W_SLICE [sz-1] w in
+    let abs w = neg_if (sign w) sz w in
+    let fn A B =
+	neg_if (W_NOT (W_EQ (sign A) (sign B))) sz (W_DIV (abs A) (abs B))
+    in
+    mk_rtl fn "draw_rtl {/}" attrs sz
+;
+
+let _smod sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let sign w = W_SLICE [sz-1] w in
+    let abs w = neg_if (sign w) sz w in
+    let fn A B = neg_if (sign A) sz (W_MOD (abs A) (abs B)) in
+    mk_rtl fn "draw_rtl {%}" attrs sz
+;
 
 let _mux sz src out inp1 inp2 s =
     let attrs = mk_attr src __FILE__ __LINE__ then
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index ced023d..b20a2af 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -511,6 +511,31 @@ struct PexlifDumper
 		    }
 		    if( !start ) f << stringf(",\n        ");
 		    start = false;
+		    // Cells computing one bit zero extend it to the size of Y
+		    if ( cell->type == "$lt" ||
+			 cell->type == "$gt" ||
+			 cell->type == "$ge" ||
+			 cell->type == "$le" ||
+			 cell->type == "$eq" ||
+			 cell->type == "$eqx" ||
+			 cell->type == "$ne" ||
+			 cell->type == "$logic_not" ||
+			 cell->type == "$logic_and" ||
+			 cell->type == "$logic_or" ||
+			 cell->type == "$reduce_bool" ||
+			 cell->type == "$reduce_or" ||
+			 cell->type == "$reduce_and"
+		       )
+		    {
+			int upper = GetSize(cell->getPort(ID::Y)) - 1;
+			if( upper > 0 ) {
+			    f << stringf("_buf %d \"%s\" ", upper, src.c_str());
+			    dump_sigspec(f, cell->getPort(ID::Y).extract(1, upper));
+			    f << " ";
+			    dump_sigspec(f, RTLIL::SigSpec(RTLIL::State::S0, upper));
+			    f << ",\n        ";
+			}
+		    }
 		    if ( cell->type == "$or" ||
 			 cell->type == "$xor" ||
 			 cell->type == "$xnor" ||
@@ -519,9 +544,7 @@ struct PexlifDumper
 			 cell->type == "$add" ||
 			 cell->type == "$mul" ||
 			 cell->type == "$div" ||
-			 cell->type == "$mod" ||
-			 cell->type == "$shl" ||
-			 cell->type == "$sshl"
+			 cell->type == "$mod"
 		       )
 		    {
 			RTLIL::SigSpec y = cell->getPort("\\Y");
@@ -531,10 +554,13 @@ struct PexlifDumper
 			int a_sz = a.size();
 			int b_sz = b.size();
 			bool a_signed =
-			    cell->parameters.count("\\A_SIGNED") > 0;
+			    cell->getParam(ID::A_SIGNED).as_bool();
 			bool b_signed =
-			    cell->parameters.count("\\B_SIGNED") > 0;
-			f << "_" << cell->type.substr(1);
+			    cell->getParam(ID::B_SIGNED).as_bool();
+			bool is_signed = a_signed && b_signed &&
+					    (cell->type == "$div" ||
+					     cell->type == "$mod");
+			f << (is_signed? "_s" : "_") << cell->type.substr(1);
 			f << stringf(" %d \"%s\" ", y_sz, src.c_str());
 			dump_sigspec(f, y);
 			f << " ";
@@ -580,16 +606,21 @@ struct PexlifDumper
 			 cell->type == "$eqx" ||
 			 cell->type == "$ne" )
 		    {
-			RTLIL::SigSpec y = cell->getPort("\\Y");
+			RTLIL::SigSpec y = cell->getPort("\\Y").extract(0,1);
 			RTLIL::SigSpec a = cell->getPort("\\A");
 			RTLIL::SigSpec b = cell->getPort("\\B");
 			int a_sz = a.size();
 			int b_sz = b.size();
 			bool a_signed =
-			    cell->parameters.count("\\A_SIGNED") > 0;
+			    cell->getParam(ID::A_SIGNED).as_bool();
 			bool b_signed =
-			    cell->parameters.count("\\B_SIGNED") > 0;
-			f << "_" << cell->type.substr(1);
+			    cell->getParam(ID::B_SIGNED).as_bool();
+			// Ordering of signed values
+			bool is_signed = a_signed && b_signed &&
+					    cell->type != "$eq" &&
+					    cell->type != "$eqx" &&
+					    cell->type != "$ne";
+			f << (is_signed? "_s" : "_") << cell->type.substr(1);
 			int sz = max(a_sz,b_sz);
 			f << stringf(" %d \"%s\" ", sz, src.c_str());
 			dump_sigspec(f, y);
@@ -643,7 +674,7 @@ struct PexlifDumper
 			int y_sz = y.size();
 			int a_sz = a.size();
 			bool a_signed =
-			    cell->parameters.count("\\A_SIGNED") > 0;
+			    cell->getParam(ID::A_SIGNED).as_bool();
 			f << "_" << cell->type.substr(1);
 			f << stringf(" %d \"%s\" ", y_sz, src.c_str());
 			dump_sigspec(f, y);
@@ -885,7 +916,8 @@ struct PexlifDumper
 			RTLIL::SigSpec out = cell->getPort("\\Y");
 			RTLIL::SigSpec a = cell->getPort("\\A");
 			RTLIL::SigSpec b = cell->getPort("\\B");
-			f << "_shr ";
+			bool b_signed = cell->getParam(ID::B_SIGNED).as_bool();
+			f << (b_signed? "_shiftx " : "_shr ");
 			f << stringf("%d %d %d \"%s\" ", out.size(), a.size(), b.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
@@ -894,39 +926,36 @@ struct PexlifDumper
 			dump_sigspec(f, b);
 			continue;
 		    }
-		    if (cell->type == "$shr") {
+		    if (cell->type == "$shr" || cell->type == "$sshr" ||
+			cell->type == "$shl" || cell->type == "$sshl") {
 			RTLIL::SigSpec out = cell->getPort("\\Y");
 			RTLIL::SigSpec a = cell->getPort("\\A");
 			RTLIL::SigSpec b = cell->getPort("\\B");
-			f << "_shr ";
-			f << stringf("%d %d %d \"%s\" ", out.size(), a.size(), b.size(), src.c_str());
-			dump_sigspec(f, out);
-			f << " ";
-			dump_sigspec(f, a);
-			f << " ";
-			dump_sigspec(f, b);
-			continue;
-		    }
-		    if (cell->type == "$sshr") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
-			RTLIL::SigSpec a = cell->getPort("\\A");
-			RTLIL::SigSpec b = cell->getPort("\\B");
-			bool a_signed = cell->parameters.count("\\A_SIGNED")>0;
-			if( a_signed ) {
+			bool a_signed = cell->getParam(ID::A_SIGNED).as_bool();
+			int a_sz = max(a.size(), out.size());
+			if( cell->type == "$shl" || cell->type == "$sshl" ) {
+			    f << "_shl ";
+			} else if( cell->type == "$sshr" && a_signed ) {
 			    f << "_ashr ";
 			} else {
 			    f << "_shr ";
 			}
-			f << stringf("%d %d %d \"%s\" ", out.size(), a.size(), b.size(), src.c_str());
+			f << stringf("%d %d %d \"%s\" ", out.size(), a_sz, b.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
-			dump_sigspec(f, a);
-			f << " ";
+			if( a.size() < a_sz ) {
+			    f << stringf("(%s %d ", a_signed? "_SignExt" : "_ZeroExt", a_sz);
+			    dump_sigspec(f, a);
+			    f << ") ";
+			} else {
+			    dump_sigspec(f, a);
+			    f << " ";
+			}
 			dump_sigspec(f, b);
 			continue;
 		    }
 		    if (cell->type == "$logic_not") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
+			RTLIL::SigSpec out = cell->getPort("\\Y").extract(0,1);
 			RTLIL::SigSpec inp = cell->getPort("\\A");
 			f << "_logic_not ";
 			f << stringf("%d \"%s\" ", inp.size(), src.c_str());
@@ -936,28 +965,30 @@ struct PexlifDumper
 			continue;
 		    }
 		    if (cell->type == "$logic_and") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
-			RTLIL::SigSpec inp = cell->getPort("\\A");
+			RTLIL::SigSpec out = cell->getPort("\\Y").extract(0,1);
+			RTLIL::SigSpec a = cell->getPort("\\A");
+			RTLIL::SigSpec b = cell->getPort("\\B");
 			f << "_land ";
-			f << stringf("%d \"%s\" ", inp.size(), src.c_str());
+			f << stringf("%d %d \"%s\" ", a.size(), b.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
-			dump_sigspec(f, cell->getPort("\\A"));
+			dump_sigspec(f, a);
 			f << " ";
-			dump_sigspec(f, cell->getPort("\\B"));
+			dump_sigspec(f, b);
 			continue;
 		    }
 
 		    if (cell->type == "$logic_or") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
-			RTLIL::SigSpec inp = cell->getPort("\\A");
+			RTLIL::SigSpec out = cell->getPort("\\Y").extract(0,1);
+			RTLIL::SigSpec a = cell->getPort("\\A");
+			RTLIL::SigSpec b = cell->getPort("\\B");
 			f << "_lor ";
-			f << stringf("%d \"%s\" ", inp.size(), src.c_str());
+			f << stringf("%d %d \"%s\" ", a.size(), b.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
-			dump_sigspec(f, cell->getPort("\\A"));
+			dump_sigspec(f, a);
 			f << " ";
-			dump_sigspec(f, cell->getPort("\\B"));
+			dump_sigspec(f, b);
 			continue;
 		    }
 
@@ -1031,31 +1062,31 @@ struct PexlifDumper
 			continue;
 		    }
 		    if (cell->type == "$reduce_bool") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
+			RTLIL::SigSpec out = cell->getPort("\\Y").extract(0,1);
 			RTLIL::SigSpec inp = cell->getPort("\\A");
 			f << "_logic_reduce_bool ";
 			f << stringf("%d \"%s\" ", inp.size(), src.c_str());
-			dump_sigspec(f, cell->getPort("\\Y"));
+			dump_sigspec(f, cell->getPort("\\Y").extract(0,1));
 			f << " ";
 			dump_sigspec(f, inp);
 			continue;
 		    }
 		    if (cell->type == "$reduce_or") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
+			RTLIL::SigSpec out = cell->getPort("\\Y").extract(0,1);
 			RTLIL::SigSpec inp = cell->getPort("\\A");
 			f << "_logic_reduce_or ";
 			f << stringf("%d \"%s\" ", inp.size(), src.c_str());
-			dump_sigspec(f, cell->getPort("\\Y"));
+			dump_sigspec(f, cell->getPort("\\Y").extract(0,1));
 			f << " ";
 			dump_sigspec(f, inp);
 			continue;
 		    }
 		    if (cell->type == "$reduce_and") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
+			RTLIL::SigSpec out = cell->getPort("\\Y").extract(0,1);
 			RTLIL::SigSpec inp = cell->getPort("\\A");
 			f << "_logic_reduce_and ";
 			f << stringf("%d \"%s\" ", inp.size(), src.c_str());
-			dump_sigspec(f, cell->getPort("\\Y"));
+			dump_sigspec(f, cell->getPort("\\Y").extract(0,1));
 			f << " ";
 			dump_sigspec(f, inp);
 			continue;
-- 
2.43.0


From d8cd369141f17491bb93bef51d6ad5b13ac57b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:44 +0000
Subject: [PATCH 35/54] fix: Verilog import ignored clock and load polarities
 and the level of asynchronous controls

---
 IDVII/src/fl/design/yosys_lib.fl              | 109 ++++++++++++------
 .../yosys/write_pexlif/write_pexlif.cc        |  26 ++++-
 2 files changed, 96 insertions(+), 39 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index 3a9a876..e305b43 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -755,6 +755,26 @@ let _dff sz src out clk d =
 ;
 
 
+let _dffn sz src out clk d =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let fa_inps_r = ref [] then
+    let fa_outs_r = ref [] then
+    let ints_r    = ref [] then
+    let Q	  = mk_ifc_signal fa_outs_r sz "Q" out then
+    let CLK	  = mk_ifc_signal fa_inps_r 1 "CLK" clk then
+    let D	  = mk_ifc_signal fa_inps_r sz "D" d then
+    let dQ	  = mk_int_signal ints_r sz "Q_##_" then
+    let dCLK	  = mk_int_signal ints_r 1 "CLK_##_" then
+    let dD	  = mk_int_signal ints_r sz "D_##_" then
+    let clk_del	  = W_PHASE_DELAY dCLK CLK then
+    let d_del	  = W_PHASE_DELAY dD D then
+    let q_del	  = W_PHASE_DELAY dQ Q then
+    let mux	  = W_UPDATE_FN Q (W_ITE (W_AND dCLK (W_NOT CLK)) dD dQ) then
+    PINST "draw_ff_fe" attrs T
+	    (deref fa_inps_r) (deref fa_outs_r) (deref ints_r)
+	    (P_LEAF [clk_del, d_del, q_del, mux])
+;
+
 let _dlatch polarity sz src out clk d =
     let attrs = mk_attr src __FILE__ __LINE__ then
     let generic = polarity => get_generic "ah_latch" | get_generic "al_latch" in
@@ -778,19 +798,28 @@ let mk_constant sz pin_name value =
 
 let _adlatch p_en p_arst rst_value sz src out clk arst d =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let generic = get_generic (assoc (p_en,p_arst) [ ((F,F), "adlatch_0_0"),
-						     ((F,T), "adlatch_0_1"),
-						     ((T,F), "adlatch_1_0"),
-						     ((T,T), "adlatch_1_1")])
+    let fa_inps_r = ref [] then
+    let fa_outs_r = ref [] then
+    let ints_r    = ref [] then
+    let Q	  = mk_ifc_signal fa_outs_r sz "q" out then
+    let EN	  = mk_ifc_signal fa_inps_r 1 "clk" clk then
+    let ARST	  = mk_ifc_signal fa_inps_r 1 "arst" arst then
+    let D	  = mk_ifc_signal fa_inps_r sz "d" d then
+    let dQ	  = mk_int_signal ints_r sz "Q_##_" then
+    let q_del	  = W_PHASE_DELAY dQ Q then
+    let RST_VALUE =
+	rst_value = "" => W_CONST sz 0 | W_CONST sz (sscanf "%b" rst_value)
     then
-    val (PINST nm attrs lf fa_inps fa_outs ints (P_HIER (c:cs))) = generic then
-    let c' = mk_constant sz "reset_value" rst_value then
-    let p0 = PINST nm attrs lf fa_inps fa_outs ints (P_HIER (c' :cs)) then 
-    let p = resize_pexlif sz p0 in
-    let attrs = mk_attr src __FILE__ __LINE__ then
-    let fa_inps = [("clk", clk), ("arst", arst), ((mk_name sz "d"), d)] then 
-    let fa_outs = [((mk_name sz "q"), out)] then 
-    update_attrs_and_ios attrs fa_inps fa_outs p
+    let en_cond	  = p_en => EN | W_NOT EN then
+    let rst_cond  = p_arst => ARST | W_NOT ARST then
+    let mux	  = W_UPDATE_FN Q
+		    (W_ITE rst_cond RST_VALUE (W_ITE en_cond D dQ)) then
+    let pfn = sprintf "draw_adlatch %s %s"
+		      (p_en => "1" | "0") (p_arst => "1" | "0")
+    then
+    PINST pfn attrs T
+	    (deref fa_inps_r) (deref fa_outs_r) (deref ints_r)
+	    (P_LEAF [q_del, mux])
 ;
 
 //_adlatch T T "010" 3 "ds.we:12" ["Out[2:0]"] ["CLK"] ["ARST"] ["D[2:0]"];
@@ -798,18 +827,32 @@ let _adlatch p_en p_arst rst_value sz src out clk arst d =
 
 let _aldff p_clk p_aload sz src q aload ad clk d =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let generic = get_generic (assoc (p_clk,p_aload) [ ((F,F), "aldff_0_0"),
-						       ((F,T), "aldff_0_1"),
-						       ((T,F), "aldff_1_0"),
-						       ((T,T), "aldff_1_1")])
+    let fa_inps_r = ref [] then
+    let fa_outs_r = ref [] then
+    let ints_r    = ref [] then
+    let Q	  = mk_ifc_signal fa_outs_r sz "q" q then
+    let AD	  = mk_ifc_signal fa_inps_r sz "ad" ad then
+    let ALOAD	  = mk_ifc_signal fa_inps_r 1 "aload" aload then
+    let D	  = mk_ifc_signal fa_inps_r sz "d" d then
+    let CLK	  = mk_ifc_signal fa_inps_r 1 "clk" clk then
+    let dQ	  = mk_int_signal ints_r sz "Q_##_" then
+    let dCLK	  = mk_int_signal ints_r 1 "CLK_##_" then
+    let dD	  = mk_int_signal ints_r sz "D_##_" then
+    let clk_del	  = W_PHASE_DELAY dCLK CLK then
+    let d_del	  = W_PHASE_DELAY dD D then
+    let q_del	  = W_PHASE_DELAY dQ Q then
+    let clk_cond  = p_clk => W_AND (W_NOT dCLK) CLK
+			   | W_AND dCLK (W_NOT CLK)
     then
-    let p = resize_pexlif sz generic then
-    let attrs = mk_attr src __FILE__ __LINE__ then
-    let fa_inps = [((mk_name sz "ad"), ad), ("aload", aload),
-		   ((mk_name sz "d"), d), ("clk", clk)]
-    in
-    let fa_outs = [((mk_name sz "q"), q)] then 
-    update_attrs_and_ios attrs fa_inps fa_outs p
+    let load_cond = p_aload => ALOAD | W_NOT ALOAD then
+    let mux	  = W_UPDATE_FN Q
+		    (W_ITE load_cond AD (W_ITE clk_cond dD dQ)) then
+    let pfn = sprintf "draw_aldff %s %s"
+		      (p_clk => "1" | "0") (p_aload => "1" | "0")
+    then
+    PINST pfn attrs T
+	    (deref fa_inps_r) (deref fa_outs_r) (deref ints_r)
+	    (P_LEAF [clk_del, d_del, q_del, mux])
 ;
 
 // _aldff T F 3 "ds.we:12" ["Out[2:0]"]  ["LD"] ["iv[2:0]"] ["CLK"] ["D[2:0]"];
@@ -1561,26 +1604,22 @@ let _dffsre p_clk p_set p_clr p_en sz src q clr set en clk d =
     let dEN	  = mk_int_signal ints_r 1 "EN_##_" then
     let dCLK	  = mk_int_signal ints_r 1 "CLK_##_" then
     let dD	  = mk_int_signal ints_r sz "D_##_" then
-    let dCLR	  = mk_int_signal ints_r sz "CLR_##_" then
-    let dSET	  = mk_int_signal ints_r sz "SET_##_" then
     let clk_del	  = W_PHASE_DELAY dCLK CLK then
     let en_del	  = W_PHASE_DELAY dEN EN then
     let d_del	  = W_PHASE_DELAY dD D then
     let q_del	  = W_PHASE_DELAY dQ Q then
-    let clr_del   = W_PHASE_DELAY dCLR CLR then
-    let set_del   = W_PHASE_DELAY dSET SET then
     let ZERO	  = W_CONST sz 0 then
     let ONE	  = W_CONST sz (2**sz-1) then
     let clk_cond  = p_clk=> W_AND (W_NOT dCLK) CLK | W_AND dCLK (W_NOT CLK) then
     let en_cond   = p_en => dEN | W_NOT dEN then
-    let clr_cond  = p_clr=> W_AND (W_NOT dCLR) CLR | W_AND dCLR (W_NOT CLR) then
-    let set_cond  = p_set=> W_AND (W_NOT dSET) SET | W_AND dSET (W_NOT SET) then
+    let clr_cond  = p_clr => CLR | W_NOT CLR then
+    let set_cond  = p_set => SET | W_NOT SET then
     let mux	  = W_UPDATE_FN Q
 			(W_AND (W_NOT clr_cond)
 			       (W_OR set_cond 
 				    (W_ITE (W_AND en_cond clk_cond) dD dQ)))
     then 
-    let subs	  = P_LEAF [clk_del,d_del,en_del,q_del,clr_del,set_del,mux] then
+    let subs	  = P_LEAF [clk_del,d_del,en_del,q_del,mux] then
     let pfn = sprintf "draw_dffsre %s %s %s %s"
 		      (p_clk  => "1" | "0")
 		      (p_clr => "1" | "0")
@@ -1604,24 +1643,20 @@ let _dffsr p_clk p_set p_clr sz src q clr set clk d =
     let dQ	  = mk_int_signal ints_r sz "Q_##_" then
     let dCLK	  = mk_int_signal ints_r 1 "CLK_##_" then
     let dD	  = mk_int_signal ints_r sz "D_##_" then
-    let dCLR	  = mk_int_signal ints_r sz "CLR_##_" then
-    let dSET	  = mk_int_signal ints_r sz "SET_##_" then
     let clk_del	  = W_PHASE_DELAY dCLK CLK then
     let d_del	  = W_PHASE_DELAY dD D then
     let q_del	  = W_PHASE_DELAY dQ Q then
-    let clr_del   = W_PHASE_DELAY dCLR CLR then
-    let set_del   = W_PHASE_DELAY dSET SET then
     let ZERO	  = W_CONST sz 0 then
     let ONE	  = W_CONST sz (2**sz-1) then
     let clk_cond  = p_clk=> W_AND (W_NOT dCLK) CLK | W_AND dCLK (W_NOT CLK) then
-    let clr_cond  = p_clr=> W_AND (W_NOT dCLR) CLR | W_AND dCLR (W_NOT CLR) then
-    let set_cond  = p_set=> W_AND (W_NOT dSET) SET | W_AND dSET (W_NOT SET) then
+    let clr_cond  = p_clr => CLR | W_NOT CLR then
+    let set_cond  = p_set => SET | W_NOT SET then
     let mux	  = W_UPDATE_FN Q
 			(W_AND (W_NOT clr_cond)
 			       (W_OR set_cond 
 				    (W_ITE clk_cond dD dQ)))
     then 
-    let subs	  = P_LEAF [clk_del,d_del,q_del,clr_del,set_del,mux] then
+    let subs	  = P_LEAF [clk_del,d_del,q_del,mux] then
     let pfn = sprintf "draw_dffsr %s %s %s"
 		      (p_clk  => "1" | "0")
 		      (p_clr => "1" | "0")
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index b20a2af..c8f6e0e 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -701,7 +701,8 @@ struct PexlifDumper
 		    if (cell->type == "$dlatch")
 		    {
 			RTLIL::SigSpec out = cell->getPort("\\Q");
-			f << "_dlatch T ";
+			f << "_dlatch ";
+			if( cell->hasParam(ID::EN_POLARITY) && !cell->getParam(ID::EN_POLARITY).as_bool() )   { f << "F "; } else { f << "T "; }
 			f << stringf("%d \"%s\" ", out.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
@@ -755,7 +756,9 @@ struct PexlifDumper
 
 		    if (cell->type == "$dff") {
 			RTLIL::SigSpec out = cell->getPort("\\Q");
-			f << "_dff ";
+			bool rising = !cell->hasParam(ID::CLK_POLARITY) ||
+				      cell->getParam(ID::CLK_POLARITY).as_bool();
+			f << (rising ? "_dff " : "_dffn ");
 			f << stringf("%d \"%s\" ", out.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
@@ -896,6 +899,25 @@ struct PexlifDumper
 			continue;
 		    }
 
+		    if( cell->type == "$dffsr") {
+			RTLIL::SigSpec out = cell->getPort("\\Q");
+			f << "_dffsr ";
+			if( cell->hasParam(ID::CLK_POLARITY) && !cell->getParam(ID::CLK_POLARITY).as_bool() )   { f << "F "; } else { f << "T "; }
+			if( cell->hasParam(ID::SET_POLARITY) && !cell->getParam(ID::SET_POLARITY).as_bool() ) { f << "F "; } else { f << "T "; }
+			if( cell->hasParam(ID::CLR_POLARITY) && !cell->getParam(ID::CLR_POLARITY).as_bool() ) { f << "F "; } else { f << "T "; }
+			f << stringf("%d \"%s\" ", out.size(), src.c_str());
+			dump_sigspec(f, out);
+			f << " ";
+			dump_sigspec(f, cell->getPort("\\CLR"));
+			f << " ";
+			dump_sigspec(f, cell->getPort("\\SET"));
+			f << " ";
+			dump_sigspec(f, cell->getPort("\\CLK"));
+			f << " ";
+			dump_sigspec(f, cell->getPort("\\D"));
+			continue;
+		    }
+
 		    if (cell->type == "$adff") {
 			f << "_adff ";
 			if( cell->hasParam(ID::CLK_POLARITY) && !cell->getParam(ID::CLK_POLARITY).as_bool() )   { f << "F "; } else { f << "T "; }
-- 
2.43.0


From 6954a2d0a7ded72ad324c4f47c871ec10d1dc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:44 +0000
Subject: [PATCH 36/54] fix: imported Verilog memories forgot their contents,
 ignored write enables and read late

---
 IDVII/src/fl/design/yosys_lib.fl | 79 ++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index e305b43..5632594 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -953,6 +953,9 @@ let prim_mem_write mem_info clk_enable clk_polarity
     val (f_MASKED_WDATA, MASKED_WDATA) = mk_vec width "MASKED_WDATA" in
     // Internal
     val (f_ACTIVE, ACTIVE) = mk_vec 1 "ACTIVE" in
+    val (f_O_ADDR, O_ADDR) = mk_vec abits "O_ADDR" in
+    val (f_O_DATA, O_DATA) = mk_vec width "O_DATA" in
+    val (f_O_EN, O_EN) = mk_vec width "O_EN" in
     val (f_OLD, OLD) = mk_vec width "OLD" in
     val (f_INV_EN, INV_EN) = mk_vec width "INV_EN" in
     val (f_A1, A1) = mk_vec width "A1" in
@@ -963,20 +966,27 @@ let prim_mem_write mem_info clk_enable clk_polarity
 	ACTIVE  <- (clk_enable = "0" => W_CONST 1 1 |
 		    clk_polarity = "1" => '~' OCLK '&' CLK |
 					 OCLK '&' '~' CLK),
-        OLD     <- (W_MEM_READ mem_info M ADDR),
-        INV_EN  <- '~' EN,
+	// A clocked port stores what it had before the edge
+	(clk_enable = "0" => (O_ADDR <- ADDR) | (O_ADDR <: ADDR)),
+	(clk_enable = "0" => (O_DATA <- DATA) | (O_DATA <: DATA)),
+	(clk_enable = "0" => (O_EN <- EN) | (O_EN <: EN)),
+        OLD     <- (W_MEM_READ mem_info M O_ADDR),
+        INV_EN  <- '~' O_EN,
         A1      <- INV_EN '&' OLD,
-        A2      <-  EN '&' DATA,
+        A2      <-  O_EN '&' O_DATA,
         MASKED_WDATA <-  A1 '|' A2,
-        TMP     <-  (W_MEM_WRITE mem_info M ADDR DATA),
-        M_OUT <- (W_ITE ACTIVE TMP M)
+        TMP     <-  (W_MEM_WRITE mem_info M O_ADDR MASKED_WDATA),
+	// The address may be undefined when nothing is enabled
+        M_OUT <- (W_ITE (ACTIVE '&' (W_NOT (O_EN '=' W_CONST width 0)))
+			TMP M)
     ] in
     // Toplevel interfaces
     let fa_inps = [(f_M, old_mem), (f_ADDR, w_addr), (f_DATA, w_din), 
 		   (f_EN, w_en), (f_CLK, w_clk)]
     in
     let fa_outs = [(f_M_OUT, new_mem), (f_MASKED_WDATA, masked_wdata)] in
-    let ints    = [f_OLD,f_INV_EN,f_A1,f_A2,f_TMP,f_ACTIVE,f_OCLK] in
+    let ints    = [f_OLD,f_INV_EN,f_A1,f_A2,f_TMP,f_ACTIVE,f_OCLK,
+		   f_O_ADDR,f_O_DATA,f_O_EN] in
     let pfn     = "draw_hier prim_mem_write" in
     PINST pfn attrs F fa_inps fa_outs ints (P_HIER leaves)
 ;
@@ -985,7 +995,7 @@ let prim_rw_bypass // Parameters
 		   mem_info wr_clk_enable wr_clk_polarity
 		   rd_transparency_mask rd_collision_x_mask
 		   // Signals
-		   inp r_addr wr_clk w_addr w_din out
+		   inp r_addr wr_clk w_en w_addr w_din out
     =
     val (MEM abits lines width) = mem_info in
     let attrs = mk_attr "" __FILE__ __LINE__ then
@@ -994,6 +1004,7 @@ let prim_rw_bypass // Parameters
     val (f_CLK, CLK) = mk_vec 1 "CLK" in
     val (f_RD_ADDR, RD_ADDR) = mk_vec abits "RD_ADDR" in
     val (f_WR_ADDR, WR_ADDR) = mk_vec abits "WR_ADDR" in
+    val (f_WR_EN, WR_EN) = mk_vec width "WR_EN" in
     val (f_WR_DIN, WR_DIN) = mk_vec width "WR_DIN" in
     // Output
     val (f_OUT, OUT) = mk_vec width "OUT" in
@@ -1003,6 +1014,9 @@ let prim_rw_bypass // Parameters
     val (f_ACTIVE,ACTIVE) = mk_vec 1 "ACTIVE" in
     val (f_CTRL, CTRL) = mk_vec 1 "CTRL" in
     val (f_OCLK, OCLK) = mk_vec 1 "OCLK" in
+    val (f_O_RD_ADDR, O_RD_ADDR) = mk_vec abits "O_RD_ADDR" in
+    val (f_O_WR_ADDR, O_WR_ADDR) = mk_vec abits "O_WR_ADDR" in
+    val (f_O_WR_EN, O_WR_EN) = mk_vec width "O_WR_EN" in
     //
     let not_trans = rd_transparency_mask = "0" in
     let not_coll  = rd_collision_x_mask = "0" in
@@ -1014,15 +1028,20 @@ let prim_rw_bypass // Parameters
 		ACTIVE <- (wr_clk_enable = "0"   => W_CONST 1 1 |
 			   wr_clk_polarity = "1" => '~' OCLK '&' CLK |
 						    OCLK '&' '~' CLK),
-		CTRL   <- ACTIVE '&' (RD_ADDR '=' WR_ADDR)
+		O_RD_ADDR <: RD_ADDR,
+		O_WR_ADDR <: WR_ADDR,
+		O_WR_EN   <: WR_EN,
+		CTRL   <- ACTIVE '&' (W_NOT (O_WR_EN '=' W_CONST width 0))
+				 '&' (O_RD_ADDR '=' O_WR_ADDR)
 	    ]
     in
     // Toplevel interfaces
     let fa_inps = [(f_INP,[inp]), (f_RD_ADDR, [r_addr]), (f_CLK, [wr_clk]),
-		   (f_WR_ADDR, [w_addr]), (f_WR_DIN, [w_din])]
+		   (f_WR_EN, [w_en]), (f_WR_ADDR, [w_addr]), (f_WR_DIN, [w_din])]
     in
     let fa_outs = [(f_OUT, [out])] in
-    let ints    = [f_M1, f_M2, f_CTRL, f_OCLK, f_ACTIVE] in
+    let ints    = [f_M1, f_M2, f_CTRL, f_OCLK, f_ACTIVE,
+		   f_O_RD_ADDR, f_O_WR_ADDR, f_O_WR_EN] in
     let pfn     = "draw_hier prim_rw_bypass" in
     PINST pfn attrs F fa_inps fa_outs ints (P_HIER leaves)
 ;
@@ -1089,6 +1108,9 @@ let prim_mem_rd_port
     val (f_M4, M4) = mk_vec width "M4" in
     val (f_M5, M5) = mk_vec width "M5" in
     val (f_OTMP, OTMP)       = mk_vec width "OTMP" in
+    val (f_O_SRST, O_SRST)   = mk_vec 1 "O_SRST" in
+    val (f_O_RD_EN, O_RD_EN) = mk_vec 1 "O_RD_EN" in
+    val (f_O_RD_ADDR, O_RD_ADDR) = mk_vec abits "O_RD_ADDR" in
     val (f_NRES, NRES) = mk_vec width "NRES" in
     val (f_ORES, ORES) = mk_vec width "ORES" in
     //
@@ -1100,17 +1122,20 @@ let prim_mem_rd_port
 		   rd_clk_polarity = "1" => '~' O_RD_CLK '&' RD_CLK |
 					    O_RD_CLK '&' '~' RD_CLK),
 	C1   <- ARST,
-	C2   <- SRST '&' ACTIVE '&' (RD_EN '|' NOT_CE_OVER_SRST),
+	O_SRST     <: SRST,
+	O_RD_EN    <: RD_EN,
+	O_RD_ADDR  <: RD_ADDR,
+	C2   <- O_SRST '&' ACTIVE '&' (O_RD_EN '|' NOT_CE_OVER_SRST),
 	C3   <- CLK_ENABLE,
-	C4   <- CLK_ENABLE '&' RD_EN '&' ACTIVE,
-	OTMP <: M1,
-	DOUT <- OTMP,
+	C4   <- CLK_ENABLE '&' O_RD_EN '&' ACTIVE,
+	OTMP <: DOUT,
+	DOUT <- M1,
         M1   <- (W_ITE C1 (sval2wexpr rd_arst_value) M2),
         M2   <- (W_ITE C2 (sval2wexpr rd_srst_value) M3),
         M3   <- (W_ITE C3 M4 NRES),
-        M4   <- (W_ITE C4 M5 ORES),
+        M4   <- (W_ITE C4 M5 OTMP),
         NRES <- (W_MEM_READ mem_info NEW_M RD_ADDR),
-        ORES <- (W_MEM_READ mem_info OLD_M RD_ADDR)
+        ORES <- (W_MEM_READ mem_info OLD_M O_RD_ADDR)
     ] in
     let wr_clk_enable_l        = explode wr_clk_enables in
     let wr_clk_polarity_l      = explode wr_clk_polarities in
@@ -1123,14 +1148,14 @@ let prim_mem_rd_port
 		       rd_collision_x_mask_l
     in
     letrec mk_bypass (wsig:wsigs) (wparam:wparams) (out,OUT) =
-	val (wclk,waddr,wdin) = wsig in
+	val (wclk,wen,waddr,wdin) = wsig in
 	val (clk_enable, clk_polarity, trans_mask, coll_x_mask) = wparam in
         val (cur,CUR) = mk_vec width (sprintf "bp_%d" (length wsigs)) in
 	val (ps, ints) = mk_bypass wsigs wparams (cur,CUR) in
 	let p = prim_rw_bypass mem_info
 			       clk_enable clk_polarity
 			       trans_mask coll_x_mask
-			       cur f_RD_ADDR wclk waddr wdin out
+			       cur f_RD_ADDR wclk wen waddr wdin out
 	in
 	let ps' = p:ps in
 	let ints' = cur:ints in
@@ -1141,8 +1166,8 @@ let prim_mem_rd_port
     let leaves = common_leaves @ bypass_leaves in
     //
     let wr_inps_fa =
-	let get_ports (wclk,waddr,wdin) = 
-	    [(wclk,[wclk]), (waddr,[waddr]), (wdin,[wdin])]
+	let get_ports (wclk,wen,waddr,wdin) =
+	    [(wclk,[wclk]), (wen,[wen]), (waddr,[waddr]), (wdin,[wdin])]
 	in
 	flatmap get_ports wr_ports
     in
@@ -1153,7 +1178,8 @@ let prim_mem_rd_port
     in
     let fa_outs = [(f_DOUT, [dout])] in
     let ints    = [f_O_RD_CLK, f_ACTIVE, f_C1, f_C2, f_C3, f_C4, f_OTMP,
-		   f_M1, f_M2, f_M3, f_M4, f_M5, f_NRES, f_ORES]@bypass_ints
+		   f_M1, f_M2, f_M3, f_M4, f_M5, f_NRES, f_ORES,
+		   f_O_SRST, f_O_RD_EN, f_O_RD_ADDR]@bypass_ints
     in
     let pfn     = "draw_hier prim_mem_rd_port" in
     PINST pfn attrs F fa_inps fa_outs ints (P_HIER leaves)
@@ -1164,7 +1190,7 @@ let mk_mem_name mem_info base =
     sprintf "%s[%d:0][%d:0]" base (lines-1) (width-1)
 ;
 
-let mk_write_ports mem_info wsigs wparams out =
+let mk_write_ports mem_info wsigs wparams old out =
     val (MEM abits lines width) = mem_info in
     letrec mk_wport (wsig:wsigs) (wparam:wparams) out =
 	val (w_clk,w_en,w_addr,w_din) = wsig in
@@ -1180,7 +1206,9 @@ let mk_write_ports mem_info wsigs wparams out =
 	let ints' = cur:ints in
 	let mwds' = m_wdata:mwds in
 	(ps',ints', mwds')
-     /\   mk_wport [] [] out = [], [], []
+     /\   mk_wport [] [] out =
+	// The last port in the chain updates the stored values
+	[(W_EXPLICIT_VAR (lines*width) (hd out)) <- old], [], []
     in
     mk_wport wsigs wparams [out]
 ;
@@ -1284,7 +1312,7 @@ let _mem_v2 src mem wr_ports rd_ports lines width abits params
 		let clk_polarities = splitn 1 WR_CLK_POLARITY then
 		zip clk_enables clk_polarities
 	    then
-	    mk_write_ports mem_info wports wparams f_NEW_MEM
+	    mk_write_ports mem_info wports wparams OLD_MEM f_NEW_MEM
     then
     // Memory storage part
     let mem_pexlifs = [OLD_MEM <: NEW_MEM] then
@@ -1293,9 +1321,10 @@ let _mem_v2 src mem wr_ports rd_ports lines width abits params
 	let wrports =
 	    wr_ports = 0 => [] |
 	    let w_clks = splitv 1 f_WR_CLK then
+	    let w_ens = splitv width f_WR_EN then
 	    let w_addrs = splitv abits f_WR_ADDR then
 	    let w_dins = masked_wdatas then
-	    zip3 w_clks w_addrs w_dins
+	    zip4 w_clks w_ens w_addrs w_dins
 	then
 	// Parameters
 	let rd_clk_enable_l        = splitn 1 RD_CLK_ENABLE then
-- 
2.43.0


From d8bb1659d53dcee2ceca42eb62932eec82c2d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 37/54] fix: vec_subtract kept bits when a vector was listed
 twice or overlapped another

---
 src/vosslib/vector_names.fl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vosslib/vector_names.fl b/src/vosslib/vector_names.fl
index fe35434..d1da45f 100644
--- a/src/vosslib/vector_names.fl
+++ b/src/vosslib/vector_names.fl
@@ -67,7 +67,7 @@ infix 7 vec_overlap;
 let vec_subtract vl1 vl2 =
     let mk l =
         let b = fst (hd l) then
-        let v = md_extract_vectors (map snd l) then
+        let v = md_extract_vectors (setify (md_expand_vectors (map snd l))) then
         (b,v)
     in
     let bl1 = map (\v. get_vector_signature v, v) vl1 then
-- 
2.43.0


From 0c043828b9da8a10dd46c7f67947494cae65da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:06 +0000
Subject: [PATCH 38/54] fix: vec_zip lost bits of multi-dimensional vectors

---
 src/vosslib/vector_names.fl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vosslib/vector_names.fl b/src/vosslib/vector_names.fl
index d1da45f..09a3608 100644
--- a/src/vosslib/vector_names.fl
+++ b/src/vosslib/vector_names.fl
@@ -98,11 +98,14 @@ let vec_zip as bs =
         let use = min psz gsz in
         let ps = md_expand_vector pv in
         let gs = md_expand_vector gv in
-        let p1 = hd (md_merge_vectors (firstn use ps)) in
-        let g1 = hd (md_merge_vectors (firstn use gs)) in
+        let p1s = md_merge_vectors (firstn use ps) in
+        let g1s = md_merge_vectors (firstn use gs) in
         let prem = md_merge_vectors (butfirstn use ps) in
         let grem = md_merge_vectors (butfirstn use gs) in
-        (p1,g1):(do_zip (prem@pvs) (grem@gvs))
+        // The first use bits may not form one vector
+        ((length p1s > 1) OR (length g1s > 1)) =>
+            do_zip (p1s@prem@pvs) (g1s@grem@gvs) |
+        (hd p1s,hd g1s):(do_zip (prem@pvs) (grem@gvs))
      /\   do_zip [] [] = []
      /\   do_zip pvs gvs =
             eprintf "length mismatch in vec_zip |%S| != |%S|" as bs
-- 
2.43.0


From 83cb2bf160523d35efece3022eeab655cacfbabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:24 +0000
Subject: [PATCH 39/54] fix: printed types missed parentheses, so a printed
 type could denote another type

---
 src/bin/fl/typecheck.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index 73d7d18..2496a80 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -2709,7 +2709,7 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 	case ref_tp:
 	    if( prec > 1 )
 		FP(fp, "(");
-	    print_type_rec(type->typelist->type, fp, 1);
+	    print_type_rec(type->typelist->type, fp, 3);
 	    FP(fp, " ref");
 	    if( prec > 1 )
 		FP(fp, ")");
@@ -2726,12 +2726,13 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 		FP(fp, ")");
 	    break;
 	case tuple_tp:
-	    if( prec > 2 )
+	    // Note that -> binds tighter than #
+	    if( prec > 1 )
 		FP(fp, "(");
 	    print_type_rec(type->typelist->type, fp, 2);
 	    FP(fp, "#");
-	    print_type_rec(type->typelist->next->type, fp, 2);
-	    if( prec > 2 )
+	    print_type_rec(type->typelist->next->type, fp, 1);
+	    if( prec > 1 )
 		FP(fp, ")");
 	    break;
 	case list_tp:
-- 
2.43.0


From ef8220c2ae98bd795de42feb5af5602f1100c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:24 +0000
Subject: [PATCH 40/54] fix: a second type annotation on the same expression
 replaced the first

---
 src/bin/fl/typecheck.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index 2496a80..baf0fe8 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -313,19 +313,31 @@ Reset_TypeChecker()
 void
 TypeHint(g_ptr node, typeExp_ptr type)
 {
-    insert_hash(&HintTbl, (pointer) node, (pointer) type);
+    // An expression can have several hints, all of which must hold
+    typeList_ptr old = (typeList_ptr) find_hash(&HintTbl, (pointer) node);
+    if( old != NULL ) {
+	delete_hash(&HintTbl, (pointer) node);
+	delete_hash(&HintTblLine, (pointer) node);
+    }
+    insert_hash(&HintTbl, (pointer) node,
+			  (pointer) Append_Type_List(old, type));
     insert_hash(&HintTblLine, (pointer) node, INT2PTR(line_nbr));
 }
 
 void
 MoveTypeHint(g_ptr from, g_ptr to, bool function)
 {
-    typeExp_ptr res;
+    typeList_ptr res, cur;
     int		line;
 
-    if( (res = (typeExp_ptr) find_hash(&HintTbl, (pointer) from)) != NULL ) {
+    if( (res = (typeList_ptr) find_hash(&HintTbl, (pointer) from)) != NULL ) {
 	if( function ) {
-	    res = make_arrow(res, new_tVar());
+	    cur = res;
+	    res = NULL;
+	    while( cur != NULL ) {
+		res = Append_Type_List(res, make_arrow(cur->type, new_tVar()));
+		cur = cur->next;
+	    }
 	}
 	insert_hash(&HintTbl, (pointer) to, (pointer) res);
 	line = PTR2INT(find_hash(&HintTblLine, (pointer) from));
@@ -336,7 +348,8 @@ MoveTypeHint(g_ptr from, g_ptr to, bool function)
 typeExp_ptr
 GetTypeHint(g_ptr nd)
 {
-    return( (typeExp_ptr) find_hash(&HintTbl, (pointer) nd) );
+    typeList_ptr res = (typeList_ptr) find_hash(&HintTbl, (pointer) nd);
+    return( (res == NULL)? NULL : res->type );
 }
 
 void
@@ -1984,12 +1997,13 @@ get_prim_fun_type(g_ptr node)
 static void
 check_hint(g_ptr node, typeExp_ptr type)
 {
-    typeExp_ptr res;
+    typeList_ptr res;
     int		pos;
 
-    if( (res = (typeExp_ptr) find_hash(&HintTbl, (pointer) node)) == NULL )
-	return;
-    if( !unify(FALSE, type, res) ) {
+    res = (typeList_ptr) find_hash(&HintTbl, (pointer) node);
+    for( ; res != NULL; res = res->next ) {
+	if( unify(FALSE, type, res->type) )
+	    continue;
 	pos = PTR2INT(find_hash(&HintTblLine, (pointer) node));
 	if( file_load )
 	    FP(err_fp,
-- 
2.43.0


From f2b70384b2b6faaa1199e2a78c3c5179cf87caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:24 +0000
Subject: [PATCH 41/54] fix: type errors in top-level applications like [] []
 crashed

---
 src/bin/fl/typecheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index baf0fe8..0677046 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -1558,10 +1558,10 @@ report_failure(node_type_ptr cur, typeExp_ptr type, typeExp_ptr expected_type)
 
     // Try to find a leaf node to get a line number
     g_ptr nnode = find_near_leaf(node);
-    if( nnode == NULL ) {
+    if( nnode == NULL && cur->parent != NULL ) {
 	nnode = find_near_leaf(cur->parent->node);
     }
-    if( IS_LEAF(nnode) ) {
+    if( nnode != NULL && IS_LEAF(nnode) ) {
 	if( file_load )
 	    FP(err_fp, "===Type error around line %d in file %s\n",
 		       GET_LINE_NBR(nnode), cur_file_name);
-- 
2.43.0


From f7ee7df54553e072926d0792436d3ace0f68e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:24 +0000
Subject: [PATCH 42/54] fix: an illegal lambda pattern crashed

---
 src/bin/fl/graph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 6f9a772..9477d04 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1715,6 +1715,7 @@ Print_leaf(g_ptr node, odests fp)
 static bool
 is_P_PCATCH(g_ptr node)
 {
+    if( node == NULL ) return( FALSE );
     if( GET_TYPE(node) != APPLY_ND ) return( FALSE );
     node = GET_APPLY_LEFT(node);
     if( GET_TYPE(node) != LEAF ) return( FALSE );
-- 
2.43.0


From 5249919f74d8c61fb19548bb670339d0cebc4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 43/54] fix: arguments too large for an int crashed or were
 truncated to another value

---
 src/bin/fl/graph.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 9477d04..4ebf6d0 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -8,6 +8,7 @@
 #include "typecheck.h"
 #include "symbol.h"
 #include "plugin_loader.h"
+#include <limits.h>
 #include <unistd.h>
 #include <time.h>
 
@@ -1758,10 +1759,14 @@ int
 GET_INT(g_ptr node)
 {
     arbi_T ai;
-    int    ret;
+    long   *ip;
     ai = GET_AINT(node);
-    ret = (int) (*Arbi_ToInt(ai));
-    return ret;
+    ip = Arbi_ToInt(ai);
+    // Integers outside the range of int saturate
+    if( ip == NULL ) { return( Arbi_IsNegative(ai)? INT_MIN : INT_MAX ); }
+    if( *ip > INT_MAX ) { return INT_MAX; }
+    if( *ip < INT_MIN ) { return INT_MIN; }
+    return( (int) *ip );
 }
 
 void
-- 
2.43.0


From 29ca2c2b2f1c752518c9302de02571a1bea8b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 44/54] fix: long names overflowed fixed-size buffers

---
 src/bin/fl/graph.c    | 16 +++++++++++-----
 src/bin/fl/language.y | 10 +++++++---
 src/bin/fl/lexer      | 10 ++--------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 4ebf6d0..ad0daa1 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -752,8 +752,10 @@ Make_Debug_Primitive(string name, string file, int line)
     SET_LEAF_TYPE(fn_node, PRIM_FN);
     SET_PRIM_FN(fn_node, P_DEBUG);
     SET_LINE_NBR(fn_node,line_nbr);
-    sprintf(buf, "%s at line %d in file %s", name, line, file);
-    string res = wastrsave(stringsp, buf);
+    strtemp(name);
+    Sprintf(buf, " at line %d in file ", line);
+    strappend(buf);
+    string res = wastrsave(stringsp, strappend(file));
     SET_DEBUG_STRING(fn_node, res);
     return( fn_node );
 }
@@ -4130,8 +4132,11 @@ traverse_left(g_ptr oroot)
 		    arg2  = traverse_left(GET_APPLY_RIGHT(redex));
                     if( is_fail(arg2) )
                         goto arg2_fail2;
-		    Sprintf(buf, "%%%s%d", GET_STRING(arg2), uniq_quant_cnt++);
-		    arg3 = Make_BOOL_leaf(B_Var(wastrsave(stringsp, buf)));
+		    Sprintf(buf, "%d", uniq_quant_cnt++);
+		    strtemp("%");
+		    strappend(GET_STRING(arg2));
+		    arg3 = Make_BOOL_leaf(B_Var(wastrsave(stringsp,
+							  strappend(buf))));
 		    SET_APPLY_LEFT(redex, Make_1inp_Primitive(
 						(pfn == P_FORALL)?
 							P_QUANT_FORALL:
@@ -4417,7 +4422,8 @@ traverse_left(g_ptr oroot)
 			ASSERT( IS_CONS(arg3) );
 			res = GET_CONS_HD(arg3);
 			if( is_fail(res) ) {
-			    strcpy(FailBuf, GET_FAIL_STRING(res));
+			    snprintf(FailBuf, sizeof(FailBuf), "%s",
+				     GET_FAIL_STRING(res));
 			    goto fail2;
 			}
 			arg3 = GET_CONS_TL(arg3);
diff --git a/src/bin/fl/language.y b/src/bin/fl/language.y
index 54342c2..6118939 100644
--- a/src/bin/fl/language.y
+++ b/src/bin/fl/language.y
@@ -870,12 +870,14 @@ fn_defs		: fn_def CONJ fn_defs
 		{
 		    if( $1.ok ) {
 			$$.var  = $1.var;
-			Sprintf(buf, "No pattern matched for %s\n", $1.var);
+			strtemp("No pattern matched for ");
+			strappend($1.var);
+			string msg = wastrsave(stringsp, strappend("\n"));
 			if( Can_Fail_Pat_Match($1.expr) ) {
 			    $$.expr = Make_2inp_Primitive(P_PCATCH, $1.expr,
 					  Make_1inp_Primitive(P_ERROR, 
 						Make_STRING_leaf(
-						     wastrsave(stringsp,buf))));
+						     msg)));
 			} else {
 			    $$.expr = $1.expr;
 			}
@@ -1827,7 +1829,9 @@ yyerror(const char *msg)
     FP(err_fp, "#### Syntax error in file %s, close to line %d: %s\n",
 	    cur_file_name, line_nbr, msg);
     FP(err_fp, "%s\n", prev_line);
-    for(i = 0; i < strlen(prev_line)-last_inp; i++) {
+    unint len = strlen(prev_line);
+    unint indent = (len > (unint) last_inp)? len - last_inp : 0;
+    for(i = 0; i < indent; i++) {
 	if( prev_line[i] == '\t' )
 	    FP(err_fp, "\t");
 	else
diff --git a/src/bin/fl/lexer b/src/bin/fl/lexer
index dc8e420..59f82f4 100644
--- a/src/bin/fl/lexer
+++ b/src/bin/fl/lexer
@@ -63,7 +63,6 @@ static bool		reading_external_parse_inps = FALSE;
 static int		pre_ext_parse_line_nbr;
 static rec_mgr		yyin_rec_mgr;
 static int 		print_prompt = 1;
-static char		pbuf[64];
 static char		lbuf[64];
 static bool		cur_quote;
 static FILE		*ext_parse_fp;
@@ -378,14 +377,9 @@ set_file_name\ \"[^"]+\"	    {
 				    while( *p != '"' )
 					p++;
 				    p++;
-				    q = pbuf;
-				    while( *p != '"' ) {
-					*q = *p;
-					p++;
-					q++;
-				    }
+				    q = index(p, '"');
 				    *q = '\0';
-				    prompt = wastrsave(stringsp, pbuf);
+				    prompt = wastrsave(stringsp, p);
 				    if( file_load ) {
 					line_nbr++; 
 				    } else {
-- 
2.43.0


From 3e348d61a4c302badc19ec4b2359e7d971eddbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 45/54] fix: USER crashed when the environment variable is not
 set

---
 src/bin/fl/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/system.c b/src/bin/fl/system.c
index 2cbbba2..e6d0325 100644
--- a/src/bin/fl/system.c
+++ b/src/bin/fl/system.c
@@ -258,7 +258,8 @@ get_cur_eval_cond(g_ptr redex)
 static void
 get_USER(g_ptr redex)
 {
-    MAKE_REDEX_STRING(redex, wastrsave(stringsp, getenv("USER")));
+    string user = getenv("USER");
+    MAKE_REDEX_STRING(redex, wastrsave(stringsp, (user == NULL)? "" : user));
 }
 
 static void
-- 
2.43.0


From cfcdb14741b07bb60249d76d5c4c3d5932e62af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 46/54] fix: sscanf %x accepted ":", "g" and "G" as digits and
 crashed

---
 src/bin/fl/io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index cc84252..53c4e68 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -326,9 +326,9 @@ in_range(char c, int max)
 	int ci = c - '0';
 	int ca = c - 'a';
 	int cA = c - 'A';
-	if( 0 <= ci && ci <= 10 ) return TRUE;
-	if( 0 <= ca && ca <= 6 ) return TRUE;
-	if( 0 <= cA && cA <= 6 ) return TRUE;
+	if( 0 <= ci && ci <= 9 ) return TRUE;
+	if( 0 <= ca && ca <= 5 ) return TRUE;
+	if( 0 <= cA && cA <= 5 ) return TRUE;
 	return FALSE;
     }
 }
-- 
2.43.0


From c9e9f8eff212b218a4aa41649ff639e0985fd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 47/54] fix: long prefixes overflowed the buffers for temporary
 file names

---
 src/bin/fl/fl.c | 4 ++--
 src/bin/fl/io.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fl.c b/src/bin/fl/fl.c
index 93bf9b4..4c1d1a7 100644
--- a/src/bin/fl/fl.c
+++ b/src/bin/fl/fl.c
@@ -163,9 +163,9 @@ Mk_output_file_in_tmp_dir(string prefix, FILE **fpp, string *filename)
 {
     FILE *fp;
     if( *prefix == '/' ) {
-	Sprintf(buf, "%s_XXXXXX", prefix);
+	snprintf(buf, sizeof(buf), "%s_XXXXXX", prefix);
     } else {
-	Sprintf(buf, "%s/%s_XXXXXX", Voss_tmp_dir, prefix);
+	snprintf(buf, sizeof(buf), "%s/%s_XXXXXX", Voss_tmp_dir, prefix);
     }
     int fd = mkstemp(buf);
     fp = fdopen(fd, "w+");
diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 53c4e68..fa157ea 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -1231,9 +1231,9 @@ c_mktempd(g_ptr redex)
     string base = GET_STRING(r);
     char buf[1024];
     if( *base == '/' ) {
-	Sprintf(buf, "%s_XXXXXX", base);
+	snprintf(buf, sizeof(buf), "%s_XXXXXX", base);
     } else {
-	Sprintf(buf, "%s/%s_XXXXXX", Voss_tmp_dir, base);
+	snprintf(buf, sizeof(buf), "%s/%s_XXXXXX", Voss_tmp_dir, base);
     }
     string res = mkdtemp(buf);
     if( res == NULL ) {
-- 
2.43.0


From 8e20203fb2bc950306804f1d34a5c4d1c463e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 48/54] fix: loading a directory ended the session

---
 src/bin/fl/fl.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fl.c b/src/bin/fl/fl.c
index 4c1d1a7..e770631 100644
--- a/src/bin/fl/fl.c
+++ b/src/bin/fl/fl.c
@@ -10,6 +10,7 @@
 #include "prefs_ext.h"
 #include <fcntl.h>
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <sys/time.h>
 #include <sys/resource.h>
@@ -123,13 +124,22 @@ Get_DIR(string file_fullname)
     return( wastrsave(stringsp, tmp) );
 }
 
+// Like fopen, but a directory cannot be opened
+static FILE *
+open_file(string name, string mode)
+{
+    struct stat sbuf;
+    if( stat(name, &sbuf) == 0 && S_ISDIR(sbuf.st_mode) ) { return NULL; }
+    return( fopen(name, mode) );
+}
+
 FILE *
 Tryopen(string name, string mode, string *fullnamep)
 {
     FILE *ret;
     string new_name;
 
-    if( (ret = fopen(name, mode)) != NULL ) {
+    if( (ret = open_file(name, mode)) != NULL ) {
         if( fullnamep != NULL) {
 	    char *tmp = realpath(name, path_buf);
             *fullnamep = wastrsave(stringsp, tmp);
@@ -139,7 +149,7 @@ Tryopen(string name, string mode, string *fullnamep)
     new_name = strtemp(RCDefault_dir);
     new_name = strappend("/");
     new_name = strappend(name);
-    if( (ret = fopen(new_name, mode)) != NULL ) {
+    if( (ret = open_file(new_name, mode)) != NULL ) {
         if( fullnamep != NULL) {
 	    char *tmp = realpath(new_name, path_buf);
             *fullnamep = wastrsave(stringsp, tmp);
-- 
2.43.0


From a75b631822e6166cc82230e296b023aa68fa91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 49/54] fix: importing an empty or unreadable image crashed

---
 src/bin/fl/image.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/image.c b/src/bin/fl/image.c
index 91fbfbd..3a5df21 100644
--- a/src/bin/fl/image.c
+++ b/src/bin/fl/image.c
@@ -170,7 +170,7 @@ import_xpm_image(g_ptr redex)
 	return;
     }
     string line = fgets(im_read_buf, READ_BUF_SIZE, fp);
-    if( strcmp(line, "/* XPM */\n") != 0 ) {
+    if( line == NULL || strcmp(line, "/* XPM */\n") != 0 ) {
 	MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Incorrect format\nGot %s\nExpected: %s\n",
 				   line, "/* XPM */\n"));
@@ -283,10 +283,13 @@ import_ppm_image(g_ptr redex)
     string line = fgets(im_read_buf, READ_BUF_SIZE, fp);
 
     int cols, rows, color_sz;
-    if( sscanf(line, "P6 %d %d %d", &cols, &rows, &color_sz) != 3 ) {
+    if( line == NULL ||
+	sscanf(line, "P6 %d %d %d", &cols, &rows, &color_sz) != 3 )
+    {
 	MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Incorrect format\nGot %s\nExpected: %s\n",
-				   line, "P6 <cols> <rows> 256\n"));
+				   (line == NULL)? "" : line,
+				   "P6 <cols> <rows> 256\n"));
 	fclose(fp);
 	return;
     }
@@ -1165,7 +1168,12 @@ get_non_comment_line(FILE *fp)
     string line;
     do {
 	line = fgets(im_read_buf, READ_BUF_SIZE, fp);
-    } while ( strncmp(line, "/*", 2) == 0 );
+    } while ( line != NULL && strncmp(line, "/*", 2) == 0 );
+    if( line == NULL ) {
+	// End of file: an empty line
+	im_read_buf[0] = im_read_buf[1] = '\0';
+	line = im_read_buf;
+    }
     return line;
 }
 
-- 
2.43.0


From d8572fd5a946ab3f2b0e6e14c45d96f9f309d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 50/54] fix: a negative time limit for a SAT call ended the
 session

---
 src/bin/fl/minisat_ifc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/minisat_ifc.cc b/src/bin/fl/minisat_ifc.cc
index b7c7643..744b62e 100644
--- a/src/bin/fl/minisat_ifc.cc
+++ b/src/bin/fl/minisat_ifc.cc
@@ -219,7 +219,7 @@ set_SAT_time_limit(int seconds)
     /* make sure handler is installed   */
     signal (SIGVTALRM, signal_interrupt);
 
-    it.it_value.tv_sec     = seconds;
+    it.it_value.tv_sec     = (seconds < 0)? 0 : seconds;
     it.it_value.tv_usec    = 0;
     it.it_interval.tv_sec  = 0;
     it.it_interval.tv_usec = 0;
-- 
2.43.0


From ebcb8026ad62ba08fa08d8f777ab14a6a0a0a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 51/54] fix: negative or huge counts in string and list
 operations crashed

---
 src/bin/fl/list_ops.c     |  4 ++--
 src/bin/fl/voss_strings.c | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/bin/fl/list_ops.c b/src/bin/fl/list_ops.c
index 3d3f7ce..69609e6 100644
--- a/src/bin/fl/list_ops.c
+++ b/src/bin/fl/list_ops.c
@@ -678,7 +678,7 @@ lastn(g_ptr redex)
     for(g_ptr cur = list; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	len++;
     }
-    if( cnt > len ) {
+    if( cnt < 0 || cnt > len ) {
 	string msg = Fail_pr("lastn %d on list with only %d elements",
 			     cnt, len);
 	MAKE_REDEX_FAILURE(redex, msg);
@@ -715,7 +715,7 @@ butlastn(g_ptr redex)
     for(g_ptr cur = list; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	len++;
     }
-    if( cnt > len ) {
+    if( cnt < 0 || cnt > len ) {
 	string msg = Fail_pr("butlastn %d on list with only %d elements",
 			     cnt, len);
 	MAKE_REDEX_FAILURE(redex, msg);
diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 579416c..bfedf51 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -1082,6 +1082,12 @@ string_lastn(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
+    if( cnt < 0 ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("string_lastn: negative count (%d)", cnt));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
+    }
     string tmp = strtemp(s);
     int len = strlen(s);
     if( len <= cnt ) {
@@ -1101,6 +1107,12 @@ string_butlastn(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
+    if( cnt < 0 ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("string_butlastn: negative count (%d)", cnt));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
+    }
     string tmp = strtemp(s);
     int len = strlen(s);
     if( len <= cnt ) {
@@ -1121,9 +1133,9 @@ string_butfirstn(g_ptr redex)
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
     int len = strlen(s);
-    if( len < cnt ) {
+    if( cnt < 0 || len < cnt ) {
 	string msg =
-	    Fail_pr("string_butfirstn %d greater than string length %d (%s)",
+	    Fail_pr("string_butfirstn %d outside string length %d (%s)",
 		    cnt, len, s);
 	MAKE_REDEX_FAILURE(redex, msg);
 	return;
@@ -1202,7 +1214,7 @@ string_substr(g_ptr redex)
 	DEC_REF_CNT(r);
 	return;
     }
-    if( (loc + cnt - 1) > len ) {
+    if( cnt > (len - loc + 1) ) {
 	string msg = Fail_pr(
       "loc (%d) plus cnt (%d) greater than length of string (%d) in str_substr", 
 			loc, cnt, len);
@@ -1298,7 +1310,7 @@ string_str_cluster(g_ptr redex)
     string s = GET_STRING(arg1);
     int  sz  = GET_INT(arg2);
     int len  = strlen(s);
-    if( (len % sz) != 0 ) {
+    if( sz <= 0 || (len % sz) != 0 ) {
 	MAKE_REDEX_FAILURE(redex,
 		Fail_pr("str_cluster: string length not a multiple of %d", sz));
 	DEC_REF_CNT(l);
-- 
2.43.0


From 730b35e11c2bc02cafa9cd4fd613019f99f7280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 52/54] fix: sha256_signature of a bexpr used a format without
 its argument

---
 src/bin/fl/bexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index e418a35..e64579f 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -448,7 +448,7 @@ SHA256_bexpr(int *g_cntp, hash_record *g_tblp, SHA256_ptr sha, bexpr f)
     }
     int lres = SHA256_bexpr(g_cntp, g_tblp, sha, BE_GET_LEFT(bp));
     int rres = SHA256_bexpr(g_cntp, g_tblp, sha, BE_GET_RIGHT(bp));
-    SHA256_printf(sha, "%d=& %s %d %d\n", res, lres, rres);
+    SHA256_printf(sha, "%d=& %d %d\n", res, lres, rres);
     return res;
 }
 
-- 
2.43.0


From adcd8b25d6482cdb7cd93cc981980b74307f7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:25 +0000
Subject: [PATCH 53/54] fix: operations on empty bit vectors crashed; refuse to
 make them

---
 src/bin/fl/bev.c | 6 ++++++
 src/bin/fl/bv.c  | 6 ++++++
 src/bin/fl/ubv.c | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/bin/fl/bev.c b/src/bin/fl/bev.c
index 36b6ab7..64eb694 100644
--- a/src/bin/fl/bev.c
+++ b/src/bin/fl/bev.c
@@ -620,6 +620,12 @@ bev_construct(g_ptr redex)
     g_ptr l = GET_APPLY_LEFT(redex);
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr list = GET_APPLY_RIGHT(redex);
+    if( IS_NIL(list) ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("list2bev of an empty list"));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
+    }
     INC_REFCNT(list);
     MAKE_REDEX_EXT_OBJ(redex, bev_oidx, get_bev_rec(list));
     DEC_REF_CNT(l);
diff --git a/src/bin/fl/bv.c b/src/bin/fl/bv.c
index 12c574f..32d74eb 100644
--- a/src/bin/fl/bv.c
+++ b/src/bin/fl/bv.c
@@ -727,6 +727,12 @@ list2bv(g_ptr redex)
     g_ptr l = GET_APPLY_LEFT(redex);
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr list = GET_APPLY_RIGHT(redex);
+    if( IS_NIL(list) ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("list2bv of an empty list"));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
+    }
     INC_REFCNT(list);
     MAKE_REDEX_EXT_OBJ(redex, bv_oidx, get_bv_rec(list));
     DEC_REF_CNT(l);
diff --git a/src/bin/fl/ubv.c b/src/bin/fl/ubv.c
index 03b940c..c1053f5 100644
--- a/src/bin/fl/ubv.c
+++ b/src/bin/fl/ubv.c
@@ -620,6 +620,12 @@ ubv_construct(g_ptr redex)
     g_ptr l = GET_APPLY_LEFT(redex);
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr list = GET_APPLY_RIGHT(redex);
+    if( IS_NIL(list) ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("list2ubv of an empty list"));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
+    }
     INC_REFCNT(list);
     MAKE_REDEX_EXT_OBJ(redex, ubv_oidx, get_ubv_rec(list));
     DEC_REF_CNT(l);
-- 
2.43.0


From bd4a1ad66005dc197216d0e5e1607471552e8d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:16 +0000
Subject: [PATCH 54/54] fix: printed types changed the type signatures of saved
 files

---
 src/bin/fl/symbol.c    | 15 ++++++++++++++-
 src/bin/fl/typecheck.c | 18 ++++++++++++++----
 src/bin/fl/typecheck.h |  1 +
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/bin/fl/symbol.c b/src/bin/fl/symbol.c
index 7264cd0..5df9edd 100644
--- a/src/bin/fl/symbol.c
+++ b/src/bin/fl/symbol.c
@@ -430,6 +430,7 @@ static bool		is_P_NAMED_ARG(g_ptr node, g_ptr *E, g_ptr *varp,
 				       g_ptr *def_val);
 static bool		get_HFL_arg_name(g_ptr node, name_expr_rec *nepp,
 					 g_ptr *next_nodep);
+static string		get_type_signature_string(typeExp_ptr type);
 static fn_ptr		get_fn_rec();
 
 /************************************************************************/
@@ -692,7 +693,7 @@ Add_Destructors(string name, typeExp_ptr new_type,
         gen_strappend(tmp_strings, " ");
         gen_strappend(tmp_strings, fnp->name);
         gen_strappend(tmp_strings, "::");
-        gen_strappend(tmp_strings, Get_tmp_type_string(fnp->type));
+        gen_strappend(tmp_strings, get_type_signature_string(fnp->type));
         gen_strappend(tmp_strings, " ");
         // Create destructor function
         dest_name          = strtemp("__DeStRuCtOr");
@@ -1557,6 +1558,18 @@ Check_No_Undefined_Types(symbol_tbl_ptr clist)
     return TRUE;
 }
 
+static string
+get_type_signature_string(typeExp_ptr type)
+{
+    if( (odests_fp = fmemopen(type_buf, 4096, "w")) == NULL ) {
+        DIE("Should never happen");
+    }
+    Print_Type_Signature(type, FILE_fp);
+    fclose(odests_fp);
+    odests_fp = NULL;
+    return( type_buf );
+}
+
 string
 Get_tmp_type_string(typeExp_ptr type)
 {
diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index 0677046..0a2348f 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -71,6 +71,7 @@ static string		s_fp;
 static string		s_ref;
 static string		s_tbl;
 static char		type_buf[1024];
+static int		tuple_prec = 1;
 static tc_context_ptr	current_tc_context;
 
 /************************************************************************/
@@ -588,6 +589,15 @@ Print_Type(typeExp_ptr type, odests fp, bool newline, bool reset)
 	FP(fp, "\n");
 }
 
+// The form stored in saved files. Must stay as it is: it is compared as text.
+void
+Print_Type_Signature(typeExp_ptr type, odests fp)
+{
+    tuple_prec = 2;
+    Print_Type(type, fp, FALSE, TRUE);
+    tuple_prec = 1;
+}
+
 string
 Type2String(typeExp_ptr type, bool reset)
 {
@@ -2723,7 +2733,7 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 	case ref_tp:
 	    if( prec > 1 )
 		FP(fp, "(");
-	    print_type_rec(type->typelist->type, fp, 3);
+	    print_type_rec(type->typelist->type, fp, (tuple_prec == 2)? 1 : 3);
 	    FP(fp, " ref");
 	    if( prec > 1 )
 		FP(fp, ")");
@@ -2741,12 +2751,12 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 	    break;
 	case tuple_tp:
 	    // Note that -> binds tighter than #
-	    if( prec > 1 )
+	    if( prec > tuple_prec )
 		FP(fp, "(");
 	    print_type_rec(type->typelist->type, fp, 2);
 	    FP(fp, "#");
-	    print_type_rec(type->typelist->next->type, fp, 1);
-	    if( prec > 1 )
+	    print_type_rec(type->typelist->next->type, fp, tuple_prec);
+	    if( prec > tuple_prec )
 		FP(fp, ")");
 	    break;
 	case list_tp:
diff --git a/src/bin/fl/typecheck.h b/src/bin/fl/typecheck.h
index 8f841d6..fde837e 100644
--- a/src/bin/fl/typecheck.h
+++ b/src/bin/fl/typecheck.h
@@ -26,6 +26,7 @@ void		TypeHint(g_ptr node, typeExp_ptr type);
 typeExp_ptr	GetTypeHint(g_ptr nd);
 int		Printf_arity(ui pfn, string pat);
 void		Print_Full_Type(fn_ptr fn, odests fp, bool newline, bool reset);
+void		Print_Type_Signature(typeExp_ptr type, odests fp);
 void		Print_Type(typeExp_ptr type, odests fp, bool newline,
 			   bool reset);
 string		Type2String(typeExp_ptr type, bool reset);
-- 
2.43.0

