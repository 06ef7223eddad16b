From 23710dae02f7b6376bff8152ea14b692f7140ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 01/38] fix: renf_elem_fmpq_div computed b*c instead of b/c

---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 19741c892e1e518441dec7ad18086d9a6d2e39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 02/38] fix: renf_elem_gen returned the reciprocal of the
 generator of a linear field

---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From a0e50a8ea2439a877f56656ecf8aa18704198c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 03/38] fix: fmpz_poly_set_str_pretty kept stale coefficients
 of the target polynomial

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..c7cce9b 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,6 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
+    fmpz_poly_zero(p);
     for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
     {
         fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-- 
2.43.0


From 96a375665cf98eab04ab3a59d053cb37eb3ffba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 04/38] fix: floor and ceil of zero read stale coefficients in
 fields of degree at least three

---
 libeantic/src/renf_elem/rounding_template.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..507e119 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -46,6 +46,13 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
     slong size, cond = WORD_MIN, prec;
     fmpz_t zsize;
 
+    if (nf_elem_is_zero(b->elem, nf->nf))
+    {
+        /* coefficients of a zero element might not be initialized */
+        fmpz_zero(a);
+        return;
+    }
+
     if (nf_elem_is_rational(b->elem, nf->nf))
     {
         if (nf->nf->flag & NF_LINEAR)
-- 
2.43.0


From 62355f9401d8f79b61827747a647a173d618f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 05/38] fix: reject zero denominators when parsing polynomials
 instead of crashing

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..9469a02 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -55,7 +55,11 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         tmp = *y;
         *y = '\0';
-        ans = fmpq_set_str(coeff, x, 10);
+        /* fmpq_set_str() divides by zero if the denominator is zero */
+        if (strchr(x, '/') != NULL && strpbrk(strchr(x, '/'), "123456789") == NULL)
+            ans = -1;
+        else
+            ans = fmpq_set_str(coeff, x, 10);
         *y = tmp;
 
         if (ans)
-- 
2.43.0


From 307048f0f91be89150ec0d50f459d1dfab55db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:43 +0000
Subject: [PATCH 06/38] fix: renf_elem_get_d rounded rationals in the subnormal
 range twice

---
 libeantic/src/renf_elem/get_d.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..38ec73e 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -59,7 +59,25 @@ double renf_elem_get_d(renf_elem_t a, renf_t nf, arf_rnd_t rnd)
         arf_init(c);
 
         nf_elem_get_coeff_fmpq(b, a->elem, 0, nf->nf);
-        arf_set_fmpq(c, b, DBL_MANT_DIG, rnd);
+
+        /* Round towards zero and then append a sticky bit so that the only
+         * rounding that counts is the one to a (possibly subnormal) double. */
+        if (arf_set_fmpq(c, b, DBL_MANT_DIG + 2, ARF_RND_DOWN))
+        {
+            arf_t sticky;
+            fmpz_t exp;
+
+            arf_init(sticky);
+            fmpz_init(exp);
+
+            fmpz_sub_ui(exp, ARF_EXPREF(c), DBL_MANT_DIG + 3);
+            arf_set_si(sticky, arf_sgn(c));
+            arf_mul_2exp_fmpz(sticky, sticky, exp);
+            arf_add(c, c, sticky, ARF_PREC_EXACT, ARF_RND_DOWN);
+
+            fmpz_clear(exp);
+            arf_clear(sticky);
+        }
 
         double d = arf_get_d(c, rnd);
 
-- 
2.43.0


From 1c87b3a22514e6e4e31dce62137963e0637130e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:19 +0000
Subject: [PATCH 07/38] fix: renf_refine_embedding used an overflowing or
 non-positive working precision, e.g., for balls centered at zero

---
 libeantic/src/renf/refine_embedding.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..73878a3 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -17,6 +17,15 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/renf.h"
 
+/* The precision to use for the next refinement step. */
+static slong working_precision(const arb_t emb, slong cond)
+{
+    /* the relative accuracy is not meaningful (and not even bounded) for a
+     * ball that is centered at zero */
+    slong acc = arf_is_zero(arb_midref(emb)) ? 0 : FLINT_ABS(arb_rel_accuracy_bits(emb));
+    return FLINT_MAX(2 * acc + cond, 2);
+}
+
 void renf_refine_embedding(renf_t nf, slong prec)
 {
     arb_t tmp;
@@ -31,7 +40,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
     cond *= nf->nf->pol->length;
     arb_init(tmp);
 
-    comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond;
+    comp_prec = working_precision(nf->emb, cond);
     while (arb_rel_accuracy_bits(nf->emb) < prec)
     {
         if(!_fmpz_poly_newton_step_arb(tmp,
@@ -56,7 +65,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond * nf->nf->pol->length;
+        comp_prec = working_precision(nf->emb, cond * nf->nf->pol->length);
     }
     arb_clear(tmp);
 
-- 
2.43.0


From 0410d8fad2dd2adf91a49df89811d1f46d40acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:54 +0000
Subject: [PATCH 08/38] fix: renf_equal identified distinct roots that have
 overlapping enclosures

---
 libeantic/src/renf/equal.c | 43 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..bcb5471 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -21,5 +21,46 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
 
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    arf_t l, r, t, u;
+    fmpq_t ql, qr;
+    fmpz_poly_t pol;
+    int ans;
+
+    if (!nf_equal(nf1->nf, nf2->nf) || !arb_overlaps(nf1->emb, nf2->emb))
+        return 0;
+
+    if (nf1->nf->flag & NF_LINEAR)
+        return 1;
+
+    /* Each of the balls encloses exactly one root. So they enclose the same */
+    /* root iff the polynomial changes sign on the intersection.             */
+    arf_init(l);
+    arf_init(r);
+    arf_init(t);
+    arf_init(u);
+    fmpq_init(ql);
+    fmpq_init(qr);
+
+    arb_get_interval_arf(l, r, nf1->emb, ARF_PREC_EXACT);
+    arb_get_interval_arf(t, u, nf2->emb, ARF_PREC_EXACT);
+    arf_max(l, l, t);
+    arf_min(r, r, u);
+    arf_get_fmpq(ql, l);
+    arf_get_fmpq(qr, r);
+
+    fmpz_poly_init(pol);
+    fmpq_poly_get_numerator(pol, nf1->nf->pol);
+    fmpz_poly_evaluate_fmpq(ql, pol, ql);
+    fmpz_poly_evaluate_fmpq(qr, pol, qr);
+    ans = fmpq_sgn(ql) * fmpq_sgn(qr) < 0;
+
+    fmpz_poly_clear(pol);
+    fmpq_clear(ql);
+    fmpq_clear(qr);
+    arf_clear(l);
+    arf_clear(r);
+    arf_clear(t);
+    arf_clear(u);
+
+    return ans;
 }
-- 
2.43.0


From 78f6bca72d261b06e9e60df7f446e0ed86491478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:54 +0000
Subject: [PATCH 09/38] fix: fmpq_poly_check_unique_real_root accepted balls
 without a root, rejected isolating balls, and leaked memory

---
 .../fmpq_poly_extra/check_unique_real_root.c  | 55 +++++++++++++------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..3e9deb5 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -18,12 +18,32 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/fmpq_poly_extra.h"
 
-static __inline__ int
-arb_sgn2(arb_t a)
+/* sign of pol at the point x */
+static int
+sgn_at(const fmpq_poly_t pol, const arf_t x, slong prec)
 {
-    if (arb_is_positive(a)) return 1;
-    else if (arb_is_negative(a)) return -1;
-    return 0;
+    arb_t b, c;
+    int s;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, prec);
+    if (!arb_contains_zero(c))
+        s = arf_sgn(arb_midref(c));
+    else
+    {
+        /* the precision is not sufficient, evaluate exactly */
+        fmpq_t q;
+        fmpq_init(q);
+        arf_get_fmpq(q, x);
+        fmpq_poly_evaluate_fmpq(q, pol, q);
+        s = fmpq_sgn(q);
+        fmpq_clear(q);
+    }
+    arb_clear(b);
+    arb_clear(c);
+    return s;
 }
 
 int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong prec)
@@ -45,7 +65,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
     }
     else
     {
-        arb_t b, c;
+        arb_t b;
         arf_t l, r;
 
         fmpz * der;
@@ -56,20 +76,16 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         /* 1 - cheap test:                    */
         /*   - sign(left) * sign(right) = -1  */
         /*   - no zero of the derivative      */
+        if (!arb_is_finite(a))
+            return 0;
+
         arb_init(b);
-        arb_init(c);
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
-        arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        lsign = arb_sgn2(c);
-
-        arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        rsign = arb_sgn2(c);
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+        lsign = sgn_at(pol, l, 2*prec);
+        rsign = sgn_at(pol, r, 2*prec);
 
-        arb_clear(c);
         if (lsign * rsign == -1)
         {
             der = _fmpz_vec_init(pol->length - 1);
@@ -86,7 +102,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
             }
         }
         else
+        {
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
             return 0;
+        }
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -96,6 +117,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpq_init(qr);
         arf_get_fmpq(ql, l);
         arf_get_fmpq(qr, r);
+        arf_clear(l);
+        arf_clear(r);
 
         fmpz_poly_init(pol2);
         fmpz_poly_fit_length(pol2, pol->length);
-- 
2.43.0


From 2c51fad4b6b9dc7fc7e443b11a3883c4d8be21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:54 +0000
Subject: [PATCH 10/38] fix: bisection step reported success without progress
 and could return a ball that encloses another root

---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 41 ++++++++++++++-----
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..e2a4344 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -54,19 +54,18 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
 
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
-    arb_t b, c, rres;
-    arf_t l, r;
+    int sl, sr, progress;
+    arb_t b, c;
+    arf_t l, r, l0, r0;
 
     arf_init(l);
     arf_init(r);
     arb_init(b);
     arb_init(c);
-    arb_init(rres);
 
     /* set l, r as the left and right endpoint of the ball */
     /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
 
     arb_set_arf(b, l);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
@@ -76,7 +75,6 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
         arf_clear(r);
         arb_clear(b);
         arb_clear(c);
-        arb_clear(rres);
         return 0;
     }
     sl = arf_sgn(arb_midref(c));
@@ -89,22 +87,43 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
         arf_clear(r);
         arb_clear(b);
         arb_clear(c);
-        arb_clear(rres);
         return 0;
     }
     sr = arf_sgn(arb_midref(c));
 
+    arf_init(l0);
+    arf_init(r0);
+    arf_set(l0, l);
+    arf_set(r0, r);
+
     _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(res, rres, a, prec);
+
+    progress = !arf_equal(l, l0) || !arf_equal(r, r0);
+    if (progress)
+    {
+        /* The radius of a ball is rounded up. To make sure that the new ball */
+        /* is contained in the original one (so that it cannot enclose any    */
+        /* other root) we keep the endpoint that has not been changed.        */
+        int keep_left = arf_equal(l, l0);
+
+        arf_sub(l0, r, l, ARF_PREC_EXACT, ARF_RND_UP);
+        arf_mul_2exp_si(l0, l0, -1);
+        arf_get_mag(arb_radref(res), l0);
+        arf_set_mag(l0, arb_radref(res));
+        if (keep_left)
+            arf_add(arb_midref(res), l, l0, ARF_PREC_EXACT, ARF_RND_DOWN);
+        else
+            arf_sub(arb_midref(res), r, l0, ARF_PREC_EXACT, ARF_RND_DOWN);
+    }
 
     arb_clear(b);
     arb_clear(c);
-    arb_clear(rres);
     arf_clear(l);
     arf_clear(r);
+    arf_clear(l0);
+    arf_clear(r0);
 
-    return 1;
+    return progress;
 }
 
 int fmpz_poly_bisection_step_arb(arb_t res, const fmpz_poly_t pol, arb_t a, slong prec)
-- 
2.43.0


From f8a69015b49aba4511845f011793c047618305c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 11/38] fix: condition number of an element could be negative
 so that comparisons, rounding, ... aborted for small elements

---
 .../src/renf_elem/relative_condition_number_2exp.c     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/relative_condition_number_2exp.c b/libeantic/src/renf_elem/relative_condition_number_2exp.c
index d24d020..6f89a1b 100644
--- a/libeantic/src/renf_elem/relative_condition_number_2exp.c
+++ b/libeantic/src/renf_elem/relative_condition_number_2exp.c
@@ -19,6 +19,7 @@ int renf_elem_relative_condition_number_2exp(slong * cond, renf_elem_t a, renf_t
 {
     fmpz * p;
     slong len;
+    int ret;
 
     if (nf_elem_is_rational(a->elem, nf->nf))
     {
@@ -37,7 +38,14 @@ int renf_elem_relative_condition_number_2exp(slong * cond, renf_elem_t a, renf_t
         len = NF_ELEM(a->elem)->length;
     }
 
-    return _fmpz_poly_relative_condition_number_2exp(cond, p,
+    ret = _fmpz_poly_relative_condition_number_2exp(cond, p,
                 len, nf->emb, FLINT_MAX(nf->prec, 16));
+
+    /* A negative number of lost bits makes no sense and callers would end up */
+    /* evaluating with a non-positive precision.                              */
+    if (!ret && *cond < 0)
+        *cond = 0;
+
+    return ret;
 }
 
-- 
2.43.0


From a164e9bc431dc047c9f1575f88597342519f51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:28 +0000
Subject: [PATCH 12/38] fix: floordiv of irrational elements of different
 fields returned garbage instead of throwing

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..abe0ad2 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -948,6 +948,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floor division of elements from different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From ffa597e91b3f85e20a0aabfe89e21c47772c4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:28 +0000
Subject: [PATCH 13/38] fix: constructing an element from a malformed string
 leaked memory

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index abe0ad2..a7858f8 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
-- 
2.43.0


From 90960b03695b713a483aa113a3d3d625c5db4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:28 +0000
Subject: [PATCH 14/38] fix: pow negated the most negative exponent, a signed
 integer overflow

---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index a7858f8..9fe7d8b 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -972,7 +972,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), -static_cast<ulong>(exp), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From b55d9fe32853db21e40cb108f085e7aa19d5744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:28 +0000
Subject: [PATCH 15/38] fix: reading an element preceded by whitespace from a
 stream produced zero

---
 libeantic/srcxx/renf_class.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..9988fc6 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -249,7 +249,9 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
 
     if (is.eof()) throw std::invalid_argument("empty stream");
 
-    bool paren = is.peek() == std::char_traits<char>::to_int_type('(');
+    is >> std::ws;
+
+    bool paren = !is.eof() && is.peek() == std::char_traits<char>::to_int_type('(');
     if (paren)
     {
         // read until ")"
-- 
2.43.0


From 32cab495e9b9b819be91aa0715e003b41f90817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:32 +0000
Subject: [PATCH 16/38] fix: releasing the last reference to a field raced with
 renf_class::make

---
 libeantic/srcxx/renf_class.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 9988fc6..e5fbd66 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -288,7 +288,18 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // When this is not the last reference to the field, just drop it.
+    auto count = nf->refcount.load(std::memory_order_relaxed);
+    while (count != 4)
+        if (nf->refcount.compare_exchange_weak(count, count - 1, std::memory_order_release, std::memory_order_relaxed))
+            return;
+
+    // Otherwise, we must not let go of the reference without holding the lock
+    // since somebody could be asking the registry for this field while we are
+    // about to destroy it.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
@@ -296,8 +307,6 @@ void intrusive_ptr_release(const renf_class* nf) {
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
 
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From c0acfcd109be6cd3ce162b84ff99d9a1ed9b5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 17/38] fix: renf_elem_fmpq_sub left stale coefficients in its
 result in quadratic fields

---
 libeantic/src/renf_elem/fmpq_sub.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_sub.c b/libeantic/src/renf_elem/fmpq_sub.c
index 6e5a164..0a40ec7 100644
--- a/libeantic/src/renf_elem/fmpq_sub.c
+++ b/libeantic/src/renf_elem/fmpq_sub.c
@@ -24,6 +24,8 @@ static void arb_fmpq_sub(arb_t a, const fmpq_t c, const arb_t b, slong prec)
 
 void renf_elem_fmpq_sub(renf_elem_t a, const fmpq_t c, const renf_elem_t b, const renf_t nf)
 {
-    nf_elem_fmpq_sub(a->elem, c, b->elem, nf->nf);
+    /* nf_elem_fmpq_sub() does not overwrite all the coefficients of a */
+    nf_elem_sub_fmpq(a->elem, b->elem, c, nf->nf);
+    nf_elem_neg(a->elem, a->elem, nf->nf);
     arb_fmpq_sub(a->emb, c, b->emb, nf->prec);
 }
-- 
2.43.0


From dcb7e8d608552fb055f31b3b8b8a1a78cd364a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 18/38] fix: renf_elem_get_arb overflowed or did not terminate
 in linear fields

---
 libeantic/src/renf_elem/get_arb.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..2a4af63 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -31,7 +31,11 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
     }
 
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
-    slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+
+    /* In linear fields, elements do not depend on the embedding (whose */
+    /* accuracy can be infinite or, for zero, never improve.)           */
+    const int linear = nf->nf->flag & NF_LINEAR;
+    slong pprec = linear ? nf->prec : FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
     do
     {
         renf_elem_set_evaluation(a, nf, pprec + cond);
@@ -41,6 +45,7 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
             return;
         }
         pprec *= 2;
-        renf_refine_embedding(nf, pprec);
+        if (!linear)
+            renf_refine_embedding(nf, pprec);
     } while(1);
 }
-- 
2.43.0


From 150b87a1374f169915116d32195f8b7fc25ff979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 19/38] fix: renf_set_embeddings_fmpz_poly rounded the centers
 of isolating intervals

---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From b3ccd68835da7460f1cfdfe133b07adffb0b5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 20/38] fix: root bound used coefficients that do not dominate
 so that real roots were missed

---
 libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..4c0e5ae 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,9 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only coefficients of the opposite sign can dominate p_i */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From 11f63d50bdbd9132b1aa1643783b7e325fb061de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 21/38] fix: fmpz_poly_num_real_roots_0_1_sturm counted zeros
 in the Sturm sequence as sign changes

---
 .../fmpz_poly_extra/num_real_roots_0_1_sturm.c  | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..20b3161 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -45,25 +45,20 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
     {
         /* sign change at 0 */
         s = fmpz_sgn(p1->coeffs);
-        if (s0a == 0)
+        if (s != 0)
         {
-            t++;
-            s0a = s;
-        }
-        else if (s != s0a)
-        {
-            t++;
+            if (s != s0a)
+                t++;
             s0a = s;
         }
 
         /* sign change at 1 */
         fmpz_poly_evaluate_at_one(c, p1->coeffs, p1->length);
         s = fmpz_sgn(c);
-        if (s0b == 0)
-            s0b = s;
-        else if (s != s0b)
+        if (s != 0)
         {
-            t--;
+            if (s0b != 0 && s != s0b)
+                t--;
             s0b = s;
         }
 
-- 
2.43.0


From dfaae4471f585996bda11f023c69801416f6205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 22/38] fix: renf_class::make leaked memory when the embedding
 function throws

---
 libeantic/srcxx/renf_class.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index e5fbd66..21f42b4 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -134,8 +134,19 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read polynomial from string");
         }
 
+        std::string enclosure;
+        try
+        {
+            enclosure = emb(prec);
+        }
+        catch (...)
+        {
+            fmpq_poly_clear(p);
+            throw;
+        }
+
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, enclosure.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From 39d2b7cde342eef4030822b7377557ddeeb60e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:44 +0000
Subject: [PATCH 23/38] fix: fractions that are not in lowest terms were read
 as unreduced coefficients

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 9469a02..477a29c 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -64,6 +64,8 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From 75f9d2e80e9463bbcf9477582f6ec0179965b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:44 +0000
Subject: [PATCH 24/38] fix: operator>> dropped the spaces inside of
 parentheses

---
 libeantic/srcxx/renf_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 21f42b4..b29ed7e 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -269,7 +269,7 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
         is.get();
         while (!is.eof() && is.peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
             char c;
-            is >> c;
+            is.get(c);
             s += c;
         }
         if (is.eof()) throw std::invalid_argument("invalid stream");
-- 
2.43.0


From d202fcbc69b0f94fd6ef79559f0e8e690bf939c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:44 +0000
Subject: [PATCH 25/38] fix: operator>> reported a failure after reading the
 last element of a stream and read nothing as zero

---
 libeantic/srcxx/renf_class.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index b29ed7e..693dc0d 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -279,10 +279,13 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
     {
         if (paren) is.get();
         // read until space or EOF
-        while (!is.eof() && !isspace(is.peek()) && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
+        for (auto c = is.peek(); c != EOF && !isspace(c); c = is.peek())
+            s += std::char_traits<char>::to_char_type(is.get());
+
+        if (s.empty())
+        {
+            is.setstate(std::ios_base::failbit);
+            return is;
         }
     }
 
-- 
2.43.0


From 163480a854a33ce13cf0f93bcf2b8b9ffe5a150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:44 +0000
Subject: [PATCH 26/38] fix: fields must be kept alive while an archive refers
 to them by their address

---
 libeantic/e-antic/cereal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cereal.hpp b/libeantic/e-antic/cereal.hpp
index 4fb9e75..bad4f59 100644
--- a/libeantic/e-antic/cereal.hpp
+++ b/libeantic/e-antic/cereal.hpp
@@ -30,7 +30,7 @@ template <class Archive>
 void save(Archive & archive, const boost::intrusive_ptr<const renf_class> & self)
 {
 #if CEREAL_VERSION >= 10301
-    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [](auto) {}));
+    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [self](auto) {}));
 #else
     uint32_t id = archive.registerSharedPointer(self.get());
 #endif
-- 
2.43.0


From 90e566ef74422186aad7af65facad4288e2c84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:40 +0000
Subject: [PATCH 27/38] fix: renf_class::make rounded the given enclosure so
 that it could not describe roots that are close to each other

---
 libeantic/srcxx/renf_class.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 693dc0d..da750f7 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -10,6 +10,7 @@
     (at your option) any later version.  See <http://www.gnu.org/licenses/>.
 */
 
+#include <algorithm>
 #include <iostream>
 #include <atomic>
 #include <mutex>
@@ -146,7 +147,9 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
         }
 
         arb_init(e);
-        if (arb_set_str(e, enclosure.c_str(), prec))
+        // The digits of the enclosure must not be rounded to the (possibly much
+        // lower) default precision for arithmetic.
+        if (arb_set_str(e, enclosure.c_str(), std::max(prec, 4 * static_cast<slong>(enclosure.size()))))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From 08422065b4e6778e1290ee15a92d509edd24f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:40 +0000
Subject: [PATCH 28/38] fix: a refused conversion between fields leaked the new
 element

---
 libeantic/srcxx/renf_elem_class.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 9fe7d8b..c043cff 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -439,14 +439,15 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
 
 renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & value)
     : nf(&k) {
+    if (value.parent() != parent() && !value.is_rational())
+        throw std::logic_error("not implemented: coercion between these number fields");
+
     renf_elem_init(a, nf->renf_t());
 
     if (value.parent() == parent())
         renf_elem_set(a, value.renf_elem_t(), nf->renf_t());
-    else if (value.is_rational())
-        renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
-        throw std::logic_error("not implemented: coercion between these number fields");
+        renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From 05be9c104576e4ffad3ccfd21b922b5682d42052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:53 +0000
Subject: [PATCH 29/38] fix: renf_class::construction printed an enclosure that
 could contain further roots of the polynomial

---
 libeantic/srcxx/renf_class.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index da750f7..0053b71 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -11,6 +11,7 @@
 */
 
 #include <algorithm>
+#include <cstring>
 #include <iostream>
 #include <atomic>
 #include <mutex>
@@ -203,7 +204,32 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
-  char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+  // The decimal ball that we print is slightly larger than the embedding. So
+  // we refine (a copy of) the embedding until that ball isolates the root.
+  ::renf_t nf;
+  renf_init_set(nf, renf_t());
+
+  char * emb;
+
+  for (slong prec = nf->prec; ; prec *= 2)
+  {
+    emb = arb_get_str(nf->emb, arf_bits(arb_midref(nf->emb)) + prec, ARB_STR_MORE);
+
+    arb_t ball;
+    arb_init(ball);
+    arb_set_str(ball, emb, 4 * static_cast<slong>(std::strlen(emb)));
+    const bool isolates = fmpq_poly_check_unique_real_root(nf->nf->pol, ball, nf->prec);
+    arb_clear(ball);
+
+    if (isolates)
+      break;
+
+    flint_free(emb);
+    renf_refine_embedding(nf, 2 * prec);
+  }
+
+  renf_clear(nf);
+
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
   const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
-- 
2.43.0


From 3ca0c8d81b8fb319b444c664d022fe03bc59dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:39 +0000
Subject: [PATCH 30/38] fix: renf_class::make must accept digits without a
 radius at the given precision

---
 libeantic/srcxx/renf_class.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0053b71..404d9cd 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -148,16 +148,23 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
         }
 
         arb_init(e);
-        // The digits of the enclosure must not be rounded to the (possibly much
-        // lower) default precision for arithmetic.
-        if (arb_set_str(e, enclosure.c_str(), std::max(prec, 4 * static_cast<slong>(enclosure.size()))))
+        if (arb_set_str(e, enclosure.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
             throw std::invalid_argument("renf_class: can not read ball from string");
         }
 
-        if (!fmpq_poly_check_unique_real_root(p, e, prec))
+        bool isolates = fmpq_poly_check_unique_real_root(p, e, prec);
+        if (!isolates)
+        {
+            // Rounding to the (possibly very low) precision might have made the
+            // ball too big, so use all the digits that were given.
+            arb_set_str(e, enclosure.c_str(), std::max(prec, 4 * static_cast<slong>(enclosure.size())));
+            isolates = fmpq_poly_check_unique_real_root(p, e, prec);
+        }
+
+        if (!isolates)
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From b140f7ae4b7246734dd8c9bb702b277bdb89ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 31/38] fix: Python integers of more than 32 bits were
 truncated or refused

renf_elem(K, 2**40) was zero since cppyy selects the constructor from an
unsigned int and drops the upper bits. Also, elements could not be added to,
multiplied with, ... such integers.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c60459d..86d8802 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -165,6 +165,10 @@ def for_eantic(x):
 
     If no such conversion exists, leave the argument unchanged.
     """
+    if isinstance(x, int) and not -2**31 <= x < 2**31:
+        # cppyy truncates such an integer when it selects an overload for
+        # unsigned int, and it does not accept integers of more than 64 bits.
+        return cppyy.gbl.mpz_class(cppyy.gbl.std.string(str(x)))
     if isinstance(x, (int, eantic.renf_elem_class, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)):
         return x
     if isinstance(x, (tuple, list)):
-- 
2.43.0


From e4faa81cbbe2ed73d16a8f429538030800f97693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 32/38] fix: Python compared the addresses of elements of
 different fields

When the comparison of such elements threw, cppyy went on to compare pointers.
Also, elements could not be compared to integers of more than 64 bits.
---
 libeantic/e-antic/cppyy.hpp           | 12 ++++++++++++
 pyeantic/src/pyeantic/cppyy_eantic.py | 18 +++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 5b747bb..6808e73 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -34,6 +34,18 @@ template <typename S, typename T>
 auto mul(const S& lhs, const T& rhs) { return lhs * rhs; }
 template <typename S, typename T>
 auto truediv(const S& lhs, const T& rhs) { return lhs / rhs; }
+template <typename S, typename T>
+bool lt(const S& lhs, const T& rhs) { return lhs < rhs; }
+template <typename S, typename T>
+bool gt(const S& lhs, const T& rhs) { return lhs > rhs; }
+template <typename S, typename T>
+bool le(const S& lhs, const T& rhs) { return lhs <= rhs; }
+template <typename S, typename T>
+bool ge(const S& lhs, const T& rhs) { return lhs >= rhs; }
+template <typename S, typename T>
+bool eq(const S& lhs, const T& rhs) { return lhs == rhs; }
+template <typename S, typename T>
+bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
 template <typename T>
 auto neg(const T& value) { return -value; }
 
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 86d8802..6606ff3 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -61,13 +61,25 @@ with warnings.catch_warnings():
 
 from cppyythonizations.printing import enable_pretty_printing
 from cppyythonizations.pickling.cereal import enable_cereal
-from cppyythonizations.operators.order import enable_total_order
 from cppyythonizations.util import filtered
 
 cppyy.py.add_pythonization(enable_pretty_printing, "eantic")
 
-# Make sure that the operators <, >, <=, >=, ==, != are available.
-cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_total_order), "eantic")
+def enable_comparison(proxy, name):
+    r"""
+    Make sure that the operators <, >, <=, >=, ==, != are available.
+    """
+    for op in ['lt', 'gt', 'le', 'ge', 'eq', 'ne']:
+        implementation = getattr(cppyy.gbl.eantic.cppyy, op)
+        def compare(lhs, rhs, implementation=implementation):
+            rhs = for_eantic(rhs)
+            # We name the types explicitly. Otherwise, cppyy compares the
+            # addresses of lhs and rhs when their comparison throws.
+            return implementation[type(lhs), type(rhs)](lhs, rhs)
+
+        setattr(proxy, "__%s__" % (op,), compare)
+
+cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_comparison), "eantic")
 
 def enable_arithmetic(proxy, name):
     r"""
-- 
2.43.0


From 6ef95103ec14694d074a038c4ccaa7bf1fbb1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 33/38] fix: renf_elem converted arguments that it can not
 convert to something else

renf_elem(K, "(") was the element 40, the code of that character, and
renf_elem(K, 1.5) was 1.
---
 libeantic/e-antic/cppyy.hpp           | 5 +++++
 pyeantic/src/pyeantic/cppyy_eantic.py | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 6808e73..5dfff55 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -49,6 +49,11 @@ bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
 template <typename T>
 auto neg(const T& value) { return -value; }
 
+template <typename T>
+renf_elem_class element(const T& value) { return renf_elem_class(value); }
+template <typename T>
+renf_elem_class element(const renf_class& k, const T& value) { return renf_elem_class(k, value); }
+
 inline mpq_class rational(const renf_elem_class& x) {
     return static_cast<mpq_class>(x);
 }
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 6606ff3..d775b54 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -232,10 +232,14 @@ def make_renf_elem_class(*args):
     else:
         v = args[1]
 
+    v = for_eantic(v)
+
+    # We name the type explicitly. Otherwise, cppyy tries to convert to one of
+    # the other types that an element can be constructed from when this throws.
     if K is None:
-        return eantic.renf_elem_class(for_eantic(v))
+        return eantic.cppyy.element[type(v)](v)
     else:
-        return eantic.renf_elem_class(K, for_eantic(v))
+        return eantic.cppyy.element[type(v)](K, v)
 
 
 eantic.renf_elem = make_renf_elem_class
-- 
2.43.0


From 47c8c2c67228d75088dabd01944d9209d6f210fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 34/38] fix: realalg fields could not be converted when roots
 are large or close to each other

The root was described by a float with a fixed radius so that roots beyond 100
or so were not in the enclosure, and 15 digits cannot tell small roots apart.
---
 pyeantic/src/pyeantic/realalg_conversion.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyeantic/src/pyeantic/realalg_conversion.py b/pyeantic/src/pyeantic/realalg_conversion.py
index 4cc3125..d9776db 100644
--- a/pyeantic/src/pyeantic/realalg_conversion.py
+++ b/pyeantic/src/pyeantic/realalg_conversion.py
@@ -49,9 +49,20 @@ def realalg_interval_to_arb(i):
     from realalg.interval import Interval
     if not isinstance(i, Interval):
         raise ValueError
-    center = float(i.lower + i.upper) / 2.0 / 10.0 ** (i.precision)
-    rad = float(i.upper - i.lower) / 10.0 ** (i.precision - 1)
-    return '[' + str(center) + ' +/- ' + str(rad) + ']'
+    # We must not round here so we write everything as an integer times a power of ten.
+    center = "%de%d" % (5 * (i.lower + i.upper), -(i.precision + 1))
+    rad = "%de%d" % (i.upper - i.lower, -(i.precision - 1))
+    return '[' + center + ' +/- ' + rad + ']'
+
+def accuracy(coeffs):
+    r"""
+    Return how many decimal digits after the decimal point are needed to tell
+    apart the roots of the polynomial with integer coefficients ``coeffs``.
+    """
+    # By Mahler, the roots are at least d^-(d+2)/2 * |f|_2^-(d-1) apart.
+    d = len(coeffs) - 1
+    bound = d**(d + 2) * sum(c**2 for c in coeffs)**(d - 1)
+    return max(15, len(str(bound)) // 2 + 5)
 
 def realalg_nf_to_eantic(K, name='a'):
     r"""
@@ -70,7 +81,7 @@ def realalg_nf_to_eantic(K, name='a'):
         raise ValueError
 
     p = poly_string(K.coefficients, name)
-    emb = realalg_interval_to_arb(K.intervals(15)[1])
+    emb = realalg_interval_to_arb(K.intervals(accuracy(K.coefficients))[1])
     return eantic.renf(p, name, emb)
 
 def realalg_nf_elem_to_eantic(K, elem):
-- 
2.43.0


From f06102a5a7bc9d88bff776884797ced5801faddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:52 +0000
Subject: [PATCH 35/38] fix: Python released a field that is still in use after
 calling parent()

K = renf(...); K.gen().parent(); K

read from a field that has been freed since cppyy replaced the attribute that
keeps the field alive.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index d775b54..87a8c4d 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -143,7 +143,10 @@ def unwrap_intrusive_ptr(K):
         raise TypeError("argument must be an intrusive_ptr to a renf_class")
 
     wrapped = K.get()
-    wrapped.__lifeline = K
+    # Note that we must not call this attribute __lifeline. That is the name
+    # that cppyy uses for the same purpose so it gets overwritten, e.g., by
+    # calling K.gen().parent().
+    wrapped.__intrusive_ptr = K
 
     return wrapped
 
-- 
2.43.0


From 3de7ea87fed2773e99551a1e7610d2c28278b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:24 +0000
Subject: [PATCH 36/38] fix: random irreducible polynomials were sometimes
 constant

---
 libeantic/src/fmpz_poly_extra/randtest_irreducible.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/randtest_irreducible.c b/libeantic/src/fmpz_poly_extra/randtest_irreducible.c
index 14474ad..67fce32 100644
--- a/libeantic/src/fmpz_poly_extra/randtest_irreducible.c
+++ b/libeantic/src/fmpz_poly_extra/randtest_irreducible.c
@@ -31,12 +31,17 @@ void fmpz_poly_randtest_irreducible(fmpz_poly_t p, flint_rand_t state, slong len
 #if __FLINT_RELEASE >= 20700
     fmpz_mod_ctx_init(ctx, c);
     fmpz_mod_poly_init(q, ctx);
-    fmpz_mod_poly_randtest_irreducible(q, state, len, ctx);
+    /* FLINT considers non-zero constants to be irreducible */
+    do {
+        fmpz_mod_poly_randtest_irreducible(q, state, len, ctx);
+    } while (len > 1 && q->length < 2);
 
     fmpz_mod_poly_get_fmpz_poly(p, q, ctx);
 #else
     fmpz_mod_poly_init(q, c);
-    fmpz_mod_poly_randtest_irreducible(q, state, len);
+    do {
+        fmpz_mod_poly_randtest_irreducible(q, state, len);
+    } while (len > 1 && q->length < 2);
 
     fmpz_mod_poly_get_fmpz_poly(p, q);
 #endif
-- 
2.43.0


From a13fadbb1f2afb520e5be42fe21416ff16341a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:24 +0000
Subject: [PATCH 37/38] fix: renf_randtest aborted for linear polynomials with
 a dyadic root

---
 libeantic/src/renf/randtest.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libeantic/src/renf/randtest.c b/libeantic/src/renf/randtest.c
index 12e1aa4..eb84bef 100644
--- a/libeantic/src/renf/randtest.c
+++ b/libeantic/src/renf/randtest.c
@@ -12,6 +12,7 @@
 #include <assert.h>
 #include <stdlib.h>
 
+#include <flint/fmpq_vec.h>
 #include <flint/fmpz_vec.h>
 
 #include "../../e-antic/config.h"
@@ -41,10 +42,11 @@ void renf_randtest(renf_t nf, flint_rand_t state, slong len, slong prec, mp_bitc
 {
     fmpz_poly_t p;
     fmpq_poly_t p2;
+    fmpq * exact_roots;
     fmpz * c_array;
     slong * k_array;
     slong n_interval, n_exact;
-    ulong i;
+    slong i;
     arb_t emb;
 
     /* compute a random irreducible polynomial */
@@ -60,25 +62,31 @@ void renf_randtest(renf_t nf, flint_rand_t state, slong len, slong prec, mp_bitc
     }while(!fmpz_poly_has_real_root(p));
 
     /* pick a random real root */
+    exact_roots = _fmpq_vec_init(p->length);
     c_array = _fmpz_vec_init(p->length);
     k_array = flint_malloc((ulong)p->length * sizeof(slong));
+    n_exact = 0;
     n_interval = 0;
 
-    fmpz_poly_isolate_real_roots(NULL, &n_exact,
+    fmpz_poly_isolate_real_roots(exact_roots, &n_exact,
             c_array, k_array, &n_interval, p);
 
-    if (n_interval == 0)
+    if (n_exact + n_interval == 0)
     {
         fprintf(stderr, "Runtime error\n");
         abort();
     }
 
-    assert(n_interval >= 0);
-    i = n_randint(state, (ulong)n_interval);
+    assert(n_exact >= 0 && n_interval >= 0);
+    i = (slong)n_randint(state, (ulong)(n_exact + n_interval));
 
     /* construct the associated number field */
     arb_init(emb);
-    arb_from_interval(emb, c_array + i, k_array[i], (slong)(fmpz_bits(c_array + i) + (ulong)FLINT_MAX(k_array[i], 0) + 2));
+    if (i < n_interval)
+        arb_from_interval(emb, c_array + i, k_array[i], (slong)(fmpz_bits(c_array + i) + (ulong)FLINT_MAX(k_array[i], 0) + 2));
+    else
+        /* a linear polynomial with a dyadic root */
+        arb_set_fmpq(emb, exact_roots + (i - n_interval), prec);
 
     fmpq_poly_init(p2);
     fmpq_poly_set_fmpz_poly(p2, p);
@@ -86,6 +94,7 @@ void renf_randtest(renf_t nf, flint_rand_t state, slong len, slong prec, mp_bitc
     /* NOTE: renf init might not be happy with the ball emb */
     renf_init(nf, p2, emb, prec);
 
+    _fmpq_vec_clear(exact_roots, p->length);
     _fmpz_vec_clear(c_array, p->length);
     flint_free(k_array);
     fmpz_poly_clear(p);
-- 
2.43.0


From 900a944b6b1316f8c6f734c6aebd9abe2ff631fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:34 +0000
Subject: [PATCH 38/38] fix: nth roots at low precision could abort for want of
 a positive enclosure

---
 libeantic/src/renf/init_nth_root.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/init_nth_root.c b/libeantic/src/renf/init_nth_root.c
index e6f5c57..145011c 100644
--- a/libeantic/src/renf/init_nth_root.c
+++ b/libeantic/src/renf/init_nth_root.c
@@ -21,6 +21,7 @@ void renf_init_nth_root_fmpq(renf_t nf, fmpq_t d, ulong n, slong prec)
     fmpq_t p0;
     fmpq_poly_t pol;
     arb_t emb;
+    slong wp = prec;
 
     if (fmpz_cmp_si(fmpq_numref(d), 0) < 0)
         abort();
@@ -33,8 +34,12 @@ void renf_init_nth_root_fmpq(renf_t nf, fmpq_t d, ulong n, slong prec)
     fmpq_poly_set_coeff_ui(pol, (slong)n, 1);
 
     arb_init(emb);
-    arb_set_fmpq(emb, d, prec);
-    arb_root_ui(emb, emb, n, prec);
+    do
+    {
+        arb_set_fmpq(emb, d, wp);
+        arb_root_ui(emb, emb, n, wp);
+        wp *= 2;
+    } while (!arb_is_positive(emb) && !fmpq_is_zero(d));
 
     renf_init(nf, pol, emb, prec);
 
-- 
2.43.0

