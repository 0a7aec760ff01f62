/* Monitor runtime shared by all checks: RNG, reference model, guarded operands,
 * event counters, violation reporting. See DESIGN.md. */
#ifndef VT_H
#define VT_H
#define _GNU_SOURCE
#include <m4rie/m4rie.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t el;

/* ---- rng ---- */
extern u64 vt_s[4];
static inline u64 rotl64(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static inline u64 rng(void) {
  u64 r = rotl64(vt_s[1] * 5, 7) * 9, t = vt_s[1] << 17;
  vt_s[2] ^= vt_s[0]; vt_s[3] ^= vt_s[1]; vt_s[1] ^= vt_s[2]; vt_s[0] ^= vt_s[3];
  vt_s[2] ^= t; vt_s[3] = rotl64(vt_s[3], 45);
  return r;
}
void rng_seed(u64 seed);
static inline u32 rnd(u32 n) { return n ? (u32)(((rng() >> 32) * (u64)n) >> 32) : 0; }
static inline int rng_range(int a, int b) { return a + (int)rnd((u32)(b - a + 1)); }
static inline int chance(int pct) { return (int)rnd(100) < pct; }

/* ---- run context ---- */
extern u64 vt_idx;            /* current case */
extern u64 vt_seed;
extern int vt_thorough;       /* tier */
extern int vt_asan;           /* built with ASan/UBSan */
extern int vt_valgrind;
extern int vt_big;            /* large-size strata */
enum { ONLY_FRAME = 1, ONLY_MEM, ONLY_LEAK };
extern int vt_only, vt_died;
void *arena(size_t n);        /* per-case zeroed memory; not counted by allocation monitors */
void ev(const char *name, u64 n);        /* monitor event counter */
void sig(u64 x);                         /* extend the case signature */
void nontrivial(void);                   /* mark the case as non-trivial */
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* what is executing now */
void desc(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* description of the case */
void viol(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define REQ(c, ...) do { if (!(c)) viol(__VA_ARGS__); } while (0)

extern sigjmp_buf vt_jb;
extern volatile int vt_armed;
/* 1 if the statement ended in the library's fatal-error exit (abort) */
#define DIES(stmt) ({ int died_ = 0; fflush(stderr); \
  if (!sigsetjmp(vt_jb, 1)) { vt_armed = 1; stmt; vt_armed = 0; } else { died_ = 1; vt_armed = 0; } died_; })

/* allocation monitor (ASan build: every malloc/free of the process; else only matrix data) */
long live_blocks(void);
long live_bytes(void);
u64 total_allocs(void);

extern int vt_recycle;        /* recycling allocator on/off (only has an effect in the fast build) */
void vt_recycle_off(void);

/* ---- reference field ---- */
int poly_irreducible(u32 p);                 /* independent test */
u32 poly_pick(int e);                        /* random irreducible of degree e */
u32 poly_nth(int e, int n);                  /* n-th irreducible (ascending), 0 if none */
int poly_count(int e);
typedef struct { int e, w; u32 mp; } rf_t;   /* reference field */
el rf_mul(const rf_t *f, u32 a, u32 b);
el rf_pow(const rf_t *f, u32 a, u64 n);
el rf_inv(const rf_t *f, u32 a);
static inline el rf_rand(const rf_t *f) { return (el)(rng() >> 40) & (el)((1u << f->e) - 1); }
el rf_rand_nz(const rf_t *f);

/* ---- reference matrices ---- */
typedef struct { int r, c; el *d; } RM;
static inline el *rm_at(const RM *m, int i, int j) { return m->d + (size_t)i * m->c + j; }
#define AT(m, i, j) ((m)->d[(size_t)(i) * (m)->c + (j)])
RM *rm_new(int r, int c);
RM *rm_dup(const RM *a);
enum { G_UNIFORM, G_SPARSE, G_LOWRANK, G_ZERO, G_BITS, G_STAIR, G_DUP, G_ONESCALAR, G_BLOCK, G_NKINDS };
RM *rm_gen(const rf_t *f, int r, int c, int kind);   /* kind <0: random kind */
RM *rm_rand(const rf_t *f, int r, int c);
RM *rm_mul(const rf_t *f, const RM *a, const RM *b);
void rm_axpy(const rf_t *f, el *dst, const el *src, int n, el a);  /* dst += a*src */
void rm_scal(const rf_t *f, el *dst, const el *src, int n, el a);  /* dst = a*src */
RM *rm_add(const RM *a, const RM *b);
int rm_eq(const RM *a, const RM *b, int *pi, int *pj);
int rm_rref(const rf_t *f, RM *a, int full);  /* in place reference elimination, returns rank */
RM *rm_identity(int n);
RM *rm_sub(const RM *a, int r0, int c0, int r1, int c1);
RM *rm_rank_exact(const rf_t *f, int r, int c, int rank); /* random matrix of exactly this rank */
RM *rm_invertible(const rf_t *f, int n);

/* ---- guarded operands ---- */
enum { PACKED, SLICED };
enum { OWNED, WINDOW };
typedef struct {
  int kind, mode, r, c, lr, lc;
  const gf2e *ff; rf_t f;
  mzed_t *M, *Mp;             /* matrix, parent (== M if owned) */
  mzd_slice_t *S, *Sp;
  int depth;
  u64 *snap;                   /* raw contents at last gm_snap */
  const char *name;
} GM;
GM *gm_new(const char *name, const gf2e *ff, const rf_t *f, int kind, int mode, const RM *v);
GM *gm_wrap_m(const char *name, const gf2e *ff, const rf_t *f, mzed_t *M);
GM *gm_wrap_s(const char *name, const gf2e *ff, const rf_t *f, mzd_slice_t *S);
void gm_snap(GM *g);
RM *gm_read(const GM *g);
void gm_set(GM *g, const RM *v);    /* raw overwrite + resnap */
void gm_check_const(const GM *g);   /* nothing changed at all */
void gm_check_frame(const GM *g);   /* only the view's element bits may have changed */
void gm_check_val(const GM *g, const RM *want); /* view holds exactly want */
void gm_free(GM *g);
#define gm_out(g, want) do { gm_check_frame(g); gm_check_val(g, want); } while (0)
int gm_mode_mask(void); /* helper: random OWNED/WINDOW */

extern int vt_edge_aligned;  /* force windows whose right edge is word aligned or at the parent edge */

el mz_get(const mzed_t *A, int i, int j);            /* raw independent access */
void mz_put(mzed_t *A, int i, int j, el v);
el sl_get(const mzd_slice_t *A, int depth, int i, int j);
void sl_put(mzd_slice_t *A, int depth, int i, int j, el v);

/* field for a case */
const gf2e *ff_make(rf_t *f, int e, u32 poly);
void ff_done(const gf2e *ff);
int pick_e(int lo, int hi);
int pick_dim(const rf_t *f, int max);
int f_w(int e);
int extreme(int *a, int *b);  /* rarely: one dimension very large, the other tiny */

typedef void (*case_fn)(u64 idx);
typedef struct { const char *id; case_fn fn; } prop_t;
extern const prop_t PROPS[];

#define KN(k) ((k) == PACKED ? "packed" : "sliced")
#define MN(m) ((m) == OWNED ? "owned" : "window")
#endif
