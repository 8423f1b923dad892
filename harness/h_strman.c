/* P22: string manager against the abstract bijection string<->identifier. */
#include "mc.h"
#include <buzz/buzzstrman.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);
const char* mc_name = "strman";
#define NS 6
static const char* S[NS] = { "a", "", "abc", "b", "ab", "ba" };
typedef struct { int id[NS]; int prot[NS]; } mod_t;
static int check(buzzstrman_t sm, mod_t* m, int n) {
   for(int i = 0; i < n; ++i) if(m->id[i] >= 0) {
      const char* g = buzzstrman_get(sm, m->id[i]);
      if(!g) { mc_fail("strman-lost", "'%s' (id %d) not found", S[i], m->id[i]); return 0; }
      if(strcmp(g, S[i])) { mc_fail("strman-content", "id %d is '%s', expected '%s'", m->id[i], g, S[i]); return 0; }
      for(int j = 0; j < i; ++j) if(m->id[j] == m->id[i]) { mc_fail("strman-id-shared", "'%s' and '%s' share id %d", S[i], S[j], m->id[i]); return 0; }
   }
   return 1;
}
static int reg(buzzstrman_t sm, mod_t* m, int i, int p) {
   char b[16]; strcpy(b, S[i]);
   int id = buzzstrman_register(sm, b, p); memset(b, 'z', sizeof b - 1);
   if(m->id[i] >= 0) { if(m->id[i] != id) { mc_fail("strman-id-unstable", "'%s' had id %d, registered again as %d", S[i], m->id[i], id); return 0; } }
   m->id[i] = id; if(p) m->prot[i] = 1;
   return 1;
}
/* collection that marks the strings order[0..k-1] */
static int gc(buzzstrman_t sm, mod_t* m, int n, const int* order, int k) {
   int keep[NS] = {0};
   buzzstrman_gc_clear(sm);
   for(int j = 0; j < k; ++j) if(m->id[order[j]] >= 0) { buzzstrman_gc_mark(sm, m->id[order[j]]); keep[order[j]] = 1; }
   buzzstrman_gc_prune(sm);
   for(int i = 0; i < n; ++i) if(m->id[i] >= 0 && !keep[i] && !m->prot[i]) {
      const char* g = buzzstrman_get(sm, m->id[i]);
      if(g) { mc_fail("strman-not-reclaimed", "unmarked unprotected '%s' still there as '%s'", S[i], g); return 0; }
      m->id[i] = -1;
   }
   return 1;
}
static int seq[16]; static mcs_t ds;
static void run_seq(int n, int d) {
   mcs_clear(&ds); mcs_add(&ds, "strman:");
   for(int i = 0; i < d; ++i) { if(seq[i] < 2 * n) mcs_add(&ds, " reg%s('%s')", seq[i] & 1 ? "P" : "", S[seq[i] >> 1]); else mcs_add(&ds, " gc(mark %x)", seq[i] - 2 * n); }
   mc_desc("%s", ds.s); mc_sample("%s", ds.s);
   size_t mem0 = __sanitizer_get_current_allocated_bytes();
   buzzstrman_t sm = buzzstrman_new(); mod_t m; for(int i = 0; i < NS; ++i) m.id[i] = -1, m.prot[i] = 0;
   int ok = 1;
   for(int i = 0; i < d && ok; ++i) {
      if(seq[i] < 2 * n) ok = reg(sm, &m, seq[i] >> 1, seq[i] & 1);
      else { int o[NS], k = 0; for(int j = 0; j < n; ++j) if((seq[i] - 2 * n) >> j & 1) o[k++] = j; ok = gc(sm, &m, n, o, k); }
      if(ok) ok = check(sm, &m, n);
      mc_trans(1);
   }
   buzzstrman_destroy(&sm);
   if(ok && __sanitizer_get_current_allocated_bytes() != mem0) mc_fail("strman-leak", "%ld bytes", (long)(__sanitizer_get_current_allocated_bytes() - mem0));
   mc_states(1); mc_traces(1);
}
static void rec(int n, int d, int maxd) {
   if(d == maxd) { if(mc_next()) run_seq(n, d); return; }
   for(int op = 0; op < 2 * n + (1 << n); ++op) { seq[d] = op; rec(n, d + 1, maxd); }
}
/* every registration order x every mark order of n strings */
static int ro[NS], mo[NS], rk, mk;
static void marks(int n, int used, int dup) {
   if(mc_next()) {
      mcs_clear(&ds); mcs_add(&ds, "strman register"); for(int i = 0; i < rk; ++i) mcs_add(&ds, " %d", ro[i]); mcs_add(&ds, "; mark"); for(int i = 0; i < mk; ++i) mcs_add(&ds, " %d", mo[i]);
      mc_desc("%s%s", ds.s, dup ? " (each twice)" : "");
      buzzstrman_t sm = buzzstrman_new(); mod_t m; for(int i = 0; i < NS; ++i) m.id[i] = -1, m.prot[i] = 0;
      int ok = 1; for(int i = 0; i < rk && ok; ++i) ok = reg(sm, &m, ro[i], 0);
      int o2[2 * NS], k = 0; for(int i = 0; i < mk; ++i) { o2[k++] = mo[i]; if(dup) o2[k++] = mo[i]; }
      if(ok) ok = gc(sm, &m, NS, o2, k) && check(sm, &m, NS);
      for(int i = 0; i < NS && ok; ++i) { ok = reg(sm, &m, i, i & 1) && check(sm, &m, NS); }
      if(ok) gc(sm, &m, NS, NULL, 0) && check(sm, &m, NS);
      buzzstrman_destroy(&sm); mc_states(1); mc_trans(rk + mk + 8); mc_traces(1);
   }
   for(int i = 0; i < n; ++i) if(!(used >> i & 1)) { mo[mk++] = i; marks(n, used | 1 << i, dup); --mk; }
}
static void perms(int n, int used) {
   if(rk == n) { mk = 0; marks(n, 0, 0); return; }
   for(int i = 0; i < n; ++i) if(!(used >> i & 1)) { ro[rk++] = i; perms(n, used | 1 << i); --rk; }
}
void mc_run(void) {
   rec(2, 0, mc_thorough ? 7 : 6); rec(3, 0, mc_thorough ? 6 : 5);
   rec(4, 0, mc_thorough ? 5 : 4);
   for(int n = 1; n <= (mc_thorough ? 6 : 5); ++n) { rk = 0; perms(n, 0); }
   rk = 0; for(int i = 0; i < 5; ++i) ro[rk++] = i; mk = 0; marks(5, 0, 1);
   /* bulk: identifiers wrap around 16 bits while old strings stay alive */
   for(int keep = 1; keep <= 1000; keep = keep * 10) for(int batch = 7; batch <= 7777; batch *= 11) {
      if(keep > batch * 20) continue;
      if(!MC_CASE("strman bulk keep=%d batch=%d: 150000 temporaries", keep, batch)) continue;
      mc_timeout(300);
      buzzstrman_t sm = buzzstrman_new(); char b[32]; int ids[1000]; int ok = 1;
      for(int i = 0; i < keep; ++i) { sprintf(b, "keep%d", i); ids[i] = buzzstrman_register(sm, b, i & 1); }
      for(int x = 0, c = 0; x < 150000 && ok; ++x) {
         sprintf(b, "tmp%d", x); int id = buzzstrman_register(sm, b, 0);
         const char* g = buzzstrman_get(sm, id); if(!g || strcmp(g, b)) { mc_fail("strman-content", "%s has id %d -> %s", b, id, g ? g : "NULL"); ok = 0; }
         if(++c == batch) { c = 0; buzzstrman_gc_clear(sm); for(int i = 0; i < keep; ++i) buzzstrman_gc_mark(sm, ids[i]); buzzstrman_gc_prune(sm);
            for(int i = 0; i < keep && ok; ++i) { sprintf(b, "keep%d", i); const char* g = buzzstrman_get(sm, ids[i]); if(!g || strcmp(g, b) || buzzstrman_register(sm, b, i & 1) != ids[i]) { mc_fail("strman-id-overwritten", "%s lost its id %d after %d temporaries", b, ids[i], x); ok = 0; } } }
         mc_trans(1);
      }
      buzzstrman_destroy(&sm); mc_states(1); mc_traces(1);
   }
}
