#ifndef P_ELIM_H
#define P_ELIM_H
extern const char *ECH[6], *TRSM[4], *PLEN[6];
RM *profile_matrix(const rf_t *f, int r, int c);
RM *elim_matrix(const rf_t *f, int r, int c);
void elim_dims(const rf_t *f, int *r, int *c);
rci_t run_echelon(int alg, GM *A, int full);
void run_trsm(int kind, int lower, int alg, GM *T, GM *B, int cutoff);
RM *rm_trsm(const rf_t *f, const RM *t, const RM *b, int lower);
rci_t run_ple(int alg, GM *A, mzp_t *P, mzp_t *Q, int cutoff);
#endif
