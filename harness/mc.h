/* Bounded exhaustive explorer: every harness enumerates its cases deterministically; the cases are
 * split over worker processes, a crash or hang in one case is a violation of that case and the
 * worker carries on with the next one. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* a harness built in both flavors explores memory-sensitive families under AddressSanitizer and the
 * large families in the fast build */
#ifdef __SANITIZE_ADDRESS__
#define MC_ASAN 1
#else
#define MC_ASAN 0
#endif
/* Set by the command line */
extern int mc_thorough;          /* 0 quick, 1 thorough */
extern const char* mc_tmp;       /* private scratch directory of this worker */

/* Starts the next case; returns non-zero if this worker must execute it.
 * fmt describes the case completely enough to understand it in a report. Evaluated lazily through
 * mc_desc() when the text is costly. */
int mc_next(void);
void mc_desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CASE(...) (mc_next() ? (mc_desc(__VA_ARGS__), 1) : 0)
/* Per-case time limit in seconds (default 20) */
void mc_timeout(int sec);

/* Records a violation of the current case. key: stable class of the violation */
void mc_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
/* Number of violations recorded by this worker in the current case */
int mc_case_failed(void);

void mc_states(uint64_t n);
void mc_trans(uint64_t n);
void mc_traces(uint64_t n);     /* model traces replayed against the implementation */
void mc_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  /* example of a covered case */
void mc_incomplete(const char* why);   /* exploration cut short: the run is not exhaustive */
void mc_note(const char* name, uint64_t add); /* named coverage counter */

/* Provided by the harness */
extern const char* mc_name;
void mc_run(void);

/* growing string */
typedef struct { char* s; size_t n, cap; } mcs_t;
void mcs_clear(mcs_t* m);
void mcs_add(mcs_t* m, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void mcs_free(mcs_t* m);
uint64_t mc_hash(const void* d, size_t n);

/* ---------- exhaustive choices ---------- */
#define MC_MAXC 256
typedef struct { int c[MC_MAXC], n[MC_MAXC], pos, len; } chooser_t;
static inline int choose(chooser_t* k, int n) {
   if(k->pos == k->len) { if(k->len == MC_MAXC) { fprintf(stderr, "choice overflow\n"); exit(9); } k->c[k->len] = 0; k->n[k->len] = n; k->len++; }
   return k->c[k->pos++];
}
static inline int advance(chooser_t* k) {   /* next leaf of the choice tree */
   k->len = k->pos;
   while(k->len > 0 && k->c[k->len - 1] + 1 >= k->n[k->len - 1]) k->len--;
   if(k->len == 0) return 0;
   k->c[k->len - 1]++; k->pos = 0; return 1;
}

/* set of 64-bit hashes (visited states) */
typedef struct { uint64_t* t; size_t cap, n; } mcset_t;
int mcset_add(mcset_t* s, uint64_t h);  /* 1 if new */
void mcset_free(mcset_t* s);
#endif
