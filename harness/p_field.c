/* P01 field arithmetic, P02 GF(2)[x] arithmetic, P03 polynomial table */
#include "vt.h"

void p01(u64 idx) {
  /* sweep every irreducible polynomial of degree 2..10, then random degrees 2..16 */
  int e = 0; u32 mp = 0;
  u64 k = idx;
  for (int d = 2; d <= 10 && !mp; d++) { u64 n = poly_count(d); if (k < n) { e = d; mp = poly_nth(d, (int)k); } else k -= n; }
  if (!mp) { e = chance(70) ? rng_range(11, 16) : rng_range(2, 10); mp = poly_pick(e); }
  desc("field degree %d polynomial 0x%x", e, mp);
  sig(mp); nontrivial();
  rf_t f; op("gf2e_init(0x%x)", mp);
  const gf2e *ff = ff_make(&f, e, mp);
  REQ(ff->degree == e && ff->minpoly == mp, "field header: degree %d polynomial %llx", ff->degree, (unsigned long long)ff->minpoly);
  REQ((int)gf2e_degree_to_w(ff) == f.w, "element width %d, expected %d", (int)gf2e_degree_to_w(ff), f.w);
  u32 q = 1u << e;
  /* powers of x and reductors */
  el pw = 1;
  for (int i = 0; i < 2 * e - 1; i++) { REQ(ff->pow_gen[i] == pw, "pow_gen[%d] = %llx, x^%d reduces to %x", i, (unsigned long long)ff->pow_gen[i], i, pw); pw = rf_mul(&f, pw, 2); }
  for (u32 h = 0; h < q; h++) {
    u64 r = ff->red[h];
    /* adding red[h] clears the high part h and stays congruent */
    REQ(r >> e == h, "reductor %x has high part %llx", h, (unsigned long long)(r >> e));
    u64 t = r; for (int b = 2 * e; b >= e; b--) if (t >> b & 1) t ^= (u64)mp << (b - e);
    REQ(t == 0, "reductor %x = %llx is not a multiple of the polynomial", h, (unsigned long long)r);
  }
  ev("reductors checked", q);
  int inplace_table = ff->_mul != NULL;
#define CK(a, b) do { el w_ = rf_mul(&f, a, b); word g1 = gf2e_mul(ff, a, b), g2 = ff->mul(ff, a, b), g3 = _gf2e_mul_arith(ff, a, b); \
    if (g1 != w_ || g2 != w_ || g3 != w_ || (inplace_table && _gf2e_mul_table(ff, a, b) != w_)) \
      viol("product %x*%x mod 0x%x: reference %x, gf2e_mul %llx, method %llx, arithmetic path %llx", (u32)(a), (u32)(b), mp, w_, (unsigned long long)g1, (unsigned long long)g2, (unsigned long long)g3); nprod++; } while (0)
  u64 nprod = 0;
  if (e <= 8 || (vt_thorough && e <= 10)) { for (u32 a = 0; a < q; a++) for (u32 b = 0; b < q; b++) CK(a, b); }
  else {
    int n = vt_asan ? 20000 : 120000; if (vt_valgrind) n = 2000;
    for (int i = 0; i < n; i++) { u32 a = rf_rand(&f), b = rf_rand(&f); CK(a, b); }
    for (int i = 0; i < e; i++) for (int j = 0; j < e; j++) { CK(1u << i, 1u << j); CK((q - 1) >> i, (q - 1) >> j); CK(1u << i, (q - 1) >> j); CK((2u << i) - 1, 1u << j); }
    for (int i = 0; i < 64; i++) { u32 a = rf_rand(&f); CK(a, 0); CK(0, a); CK(a, 1); CK(1, a); CK(a, q - 1); CK(q - 1, a); CK(a, a); }
  }
  ev("products checked", nprod);
  u64 ninv = 0;
  u32 step = (e <= 12 || vt_thorough) ? 1 : 1 + rnd(7);
  if (vt_valgrind) step = 1 + q / 500;
  for (u32 a = 1; a < q; a += step) {
    word i1 = gf2e_inv(ff, a), i2 = ff->inv(ff, a);
    REQ(i1 < q && i1 == i2 && rf_mul(&f, a, (u32)i1) == 1, "inverse of %x mod 0x%x: got %llx / %llx", a, mp, (unsigned long long)i1, (unsigned long long)i2);
    ninv++;
  }
  ev("inverses checked", ninv);
  /* 16-bit multiples table */
  for (int rep = 0; rep < 3; rep++) {
    el a = rep == 0 ? 1 : rf_rand(&f); if (rep == 2 && chance(30)) a = 0;
    op("gf2e_t16_init(0x%x)", a);
    word *t = gf2e_t16_init(ff, a);
    u32 cols = 16 / f.w, em = q - 1;
    u32 st = vt_valgrind ? 37 : 1;
    for (u32 v = 0; v < 65536; v += st) {
      u32 want = 0, ok = 1;
      for (u32 c = 0; c < cols; c++) { u32 x = v >> (c * f.w) & ((1u << f.w) - 1); if (x > em) { ok = 0; break; } want |= (u32)rf_mul(&f, a, x) << (c * f.w); }
      if (ok) { REQ(t[v] == want, "16-bit multiples table of %x: entry %x is %llx, expected %x", a, v, (unsigned long long)t[v], want); ev("multiples-table entries checked", 1); }
      else v |= 0; /* entries for words that no matrix can hold are not specified */
    }
    gf2e_t16_free(t);
  }
  ff_done(ff);
}

static u64 rmod64(u64 a, u64 b, u64 *quo) {
  int db = 63 - __builtin_clzll(b); u64 q = 0;
  while (a && 63 - __builtin_clzll(a) >= db) { int k = 63 - __builtin_clzll(a) - db; a ^= b << k; q |= 1ull << k; }
  *quo = q; return a;
}
static u64 rgcd(u64 a, u64 b) { u64 q; while (b) { u64 t = rmod64(a, b, &q); a = b; b = t; } return a; }
static u64 rndpoly(int maxdeg) { int d = rnd(maxdeg + 2); if (!d) return 0; u64 x = rng() >> (64 - d); if (chance(20)) x &= rng(); return x | (chance(70) ? 1ull << (d - 1) : 0); }

void p02(u64 idx) {
  int n = vt_valgrind ? 200 : 4000;
  desc("random polynomials, batch of %d", n);
  sig(vt_s[0]); nontrivial();
  for (int it = 0; it < n; it++) {
    /* product */
    int d = 1 + rnd(32);
    u64 a = rng() >> (64 - d), b = rng() >> (64 - d); if (chance(10)) a = (1ull << d) - 1; if (chance(10)) b = (1ull << d) - 1; if (chance(5)) a = 0; if (chance(5)) b = 1ull << (d - 1);
    u64 w = 0; for (int i = 0; i < d; i++) if (a >> i & 1) w ^= b << i;
    u64 g = gf2x_mul(a, b, d);
    REQ(g == w, "product of %llx and %llx (bound %d): %llx, expected %llx", (unsigned long long)a, (unsigned long long)b, d, (unsigned long long)g, (unsigned long long)w);
    /* degree */
    u64 x = rndpoly(63); deg_t dg = gf2x_deg(x), wd = x ? 63 - __builtin_clzll(x) : 0;
    REQ(dg == wd, "degree of %llx: %d, expected %d", (unsigned long long)x, dg, wd);
    x = 1ull << rnd(64); REQ(gf2x_deg(x) == __builtin_ctzll(x), "degree of %llx: %d", (unsigned long long)x, gf2x_deg(x));
    /* quotient and remainder */
    u64 u = rndpoly(63), v = rndpoly(chance(50) ? 63 : 17); if (!v) v = 1 + rnd(1000);
    u64 q, r = rmod64(u, v, &q), rem = ~0ull;
    REQ(gf2x_div(u, v) == q, "quotient %llx / %llx: %llx, expected %llx", (unsigned long long)u, (unsigned long long)v, (unsigned long long)gf2x_div(u, v), (unsigned long long)q);
    REQ(gf2x_mod(u, v) == r, "remainder %llx mod %llx: %llx, expected %llx", (unsigned long long)u, (unsigned long long)v, (unsigned long long)gf2x_mod(u, v), (unsigned long long)r);
    u64 q2 = gf2x_divmod(u, v, (word *)&rem);
    REQ(q2 == q && rem == r, "divmod %llx, %llx: (%llx,%llx), expected (%llx,%llx)", (unsigned long long)u, (unsigned long long)v, (unsigned long long)q2, (unsigned long long)rem, (unsigned long long)q, (unsigned long long)r);
    /* inverse modulo a coprime polynomial (reducible moduli included) */
    int md = 1 + rnd(16); u64 m = (1ull << md) | (rng() >> (64 - md)); u64 z = rng() >> (64 - md); if (!z) z = 1;
    if (rgcd(z, m) == 1) {
      u64 i = gf2x_invmod(z, m, md), p = 0, t; for (int k = 0; k < 32; k++) if (i >> k & 1) p ^= z << k;
      REQ(i < (1ull << md) && rmod64(p, m, &t) == (md ? 1 : 0), "inverse of %llx modulo %llx: got %llx", (unsigned long long)z, (unsigned long long)m, (unsigned long long)i);
      ev("modular inverses checked", 1);
    }
    ev("polynomial identities checked", 6);
  }
}

void p03(u64 idx) {
  int d = 1 + (int)(idx % 16);
  desc("degree %d", d); sig(d); nontrivial();
  const word *t = irreducible_polynomials[d];
  u32 want = 0;
  /* number of entries first, then each position: ascending and complete */
  for (u32 p = 1u << d; p < 2u << d; p++) {
    if (!poly_irreducible(p)) continue;
    want++;
    REQ(want <= t[0], "degree %d: table announces %llu polynomials, 0x%x is number %u", d, (unsigned long long)t[0], p, want);
  }
  REQ(t[0] == want, "degree %d: table announces %llu polynomials, there are %u", d, (unsigned long long)t[0], want);
  unsigned char *seen = arena(2u << d);
  for (u32 i = 1; i <= want; i++) {
    REQ(t[i] >> d == 1 && poly_irreducible((u32)t[i]), "degree %d entry %u: 0x%llx is not an irreducible polynomial of that degree", d, i, (unsigned long long)t[i]);
    REQ(!seen[t[i]], "degree %d entry %u: 0x%llx is listed twice", d, i, (unsigned long long)t[i]);
    seen[t[i]] = 1;
  }
  REQ(irreducible_polynomials[0] == NULL, "degree 0 has an entry");
  ev("table entries checked", want);
}
