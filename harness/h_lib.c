/* P30: the script libraries (tables, vectors, arrows, message collection) against references. */
#include "bz.h"
#include <buzz/buzzmsg.h>
#include <buzz/buzzneighbors.h>
#include <math.h>
const char* mc_name = "lib";
static bz_prog_t P; static buzzvm_t VM; static mcs_t got;
static void fresh(void) {
   if(!P.code) {
      const char* r = getenv("BUZZ_REPO"); if(!r) r = "/repo"; mcs_t src = {0};
      static const char* LIB[] = { "table", "vec2", "arrows", "neighbors" };
      for(int i = 0; i < 4; ++i) mcs_add(&src, "include \"%s/src/include/%s.bzz\"\n", r, LIB[i]);
      mcs_add(&src, "C = {}\nC[0] = table.cmp_number\nC[1] = function(a, b) { return a >= b }\nC[2] = function(a, b) { return a %% 2 <= b %% 2 }\nC[3] = function(a, b) { if(a <= b) return 1 else return 0 }\nC[4] = function(a, b) { return a.k <= b.k }\nC[5] = function(a, b) { if(a.k >= b.k) return 1\n return nil }\n"
         "function srt(t, c) { keep = t\n table.sort(t, C[c])\n return (keep == t) }\nfunction box(t) { foreach(t, function(k, v) { t[k] = {.k = v} })\n return t }\nfunction unbox(t) { foreach(t, function(k, v) { t[k] = v.k })\n return t }\n"
         "function srtbox(t, c) { box(t)\n table.sort(t, C[c])\n return unbox(t) }\nfunction srtin(t, c) { table.sort(t, C[c])\n return t }\n"
         "function mx(t) { return table.max(t) }\nfunction mn(t) { return table.min(t) }\nfunction mxk(t) { return table.maxkey(t) }\nfunction mnk(t) { return table.minkey(t) }\nfunction swp(t, a, b) { table.swap(t, a, b)\n return t }\nfunction shf(t, s) { math.rng.setseed(s)\n table.shuffle(t)\n return t }\n"
         "function vnew(x, y) { return math.vec2.new(x, y) }\nfunction vnewp(x, y) { return math.vec2.newp(x, y) }\nfunction v1(f, x, y) { u = {.x = x, .y = y}\n var r = math.vec2[f](u)\n return {.r = r, .x = u.x, .y = u.y} }\nfunction vs(f, x, y, s) { u = {.x = x, .y = y}\n var r = math.vec2[f](u, s)\n return {.r = r, .x = u.x, .y = u.y} }\n"
         "function v2(f, x, y, z, w) { u = {.x = x, .y = y}\n v = {.x = z, .y = w}\n var r = math.vec2[f](u, v)\n return {.r = r, .x = u.x, .y = u.y, .z = v.x, .w = v.y} }\n"
         "function fa() { t('a') }\nfunction fb() { t('b') }\nfunction fc() { t('c')\n return 0 }\nF = {.0 = fa, .1 = fb, .2 = fc}\n"
         "function abegin(i) { seq = arrows.begin(F[i])\n return seq }\nfunction anext(i) { seq = seq.next(F[i])\n return seq }\nfunction astmt(i) { seq.next(F[i]) }\nfunction arun() { arrows.run(seq) }\nfunction abegin2(i) { oth = arrows.wrap(F[i]) }\nfunction aswap() { var k = seq\n seq = oth\n oth = k }\n"
         "function chain1(a) { arrows.run(arrows.begin(F[a])) }\nfunction chain2(a, b) { arrows.run(arrows.begin(F[a]).next(F[b])) }\nfunction chain3(a, b, c) { arrows.run(arrows.begin(F[a]).next(F[b]).next(F[c])) }\nfunction chain4(a, b, c, d) { q = arrows.wrap(F[a]).next(F[b]).next(F[c]).next(F[d])\n arrows.run(q)\n arrows.run(q) }\n"
         "function coll(t) { neighbors.collect(t) }\nfunction rst(t) { neighbors.reset(t) }\nfunction msgs() { return neighbors.msgs }\n");
      if(bz_compile(src.s, &P)) { mc_fail("compile", "the libraries are rejected"); exit(9); }
      mcs_free(&src);
   }
   if(VM) buzzvm_destroy(&VM);
   VM = bz_vm(5, &P); bz_exec(VM, 1000000); if(VM->state != BUZZVM_STATE_DONE) { mc_fail("script", "%s", VM->errormsg); exit(9); } VM->state = BUZZVM_STATE_READY; mcs_clear(&bz_trace);
}
static void pi(int i) { buzzvm_pushi(VM, i); }
static void pf(float f) { buzzvm_pushf(VM, f); }
static void ps(const char* s) { buzzvm_pushs(VM, buzzvm_string_register(VM, s, 0)); }
static const char* call(const char* f, int n) {
   mcs_clear(&got); int dep = bz_depth(VM) - n; mc_trans(1); mc_traces(1);
   if(buzzvm_function_call(VM, f, n) != BUZZVM_STATE_READY) { mcs_add(&got, "error %d %s", VM->error, VM->errormsg ? VM->errormsg : ""); fresh(); return got.s; }
   bz_repr(&got, buzzvm_stack_at(VM, 1), 4); buzzvm_pop(VM);
   if(bz_depth(VM) != dep) { mc_fail("stack", "%s leaves %d values", f, bz_depth(VM) - dep); fresh(); }
   return got.s;
}
typedef struct { int isf; float v; } num_t;
static void pn(num_t n) { if(n.isf) pf(n.v); else pi((int)n.v); }
static void pt(const num_t* k, const num_t* v, int n) { buzzvm_pusht(VM); for(int i = 0; i < n; ++i) { buzzvm_dup(VM); pn(k[i]); pn(v[i]); buzzvm_tput(VM); } }
static void pa(const int* a, int n) { buzzvm_pusht(VM); for(int i = 0; i < n; ++i) { buzzvm_dup(VM); pi(i); pi(a[i]); buzzvm_tput(VM); } }
static char ex[4096];
static int cmps(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static void exarr(const int* a, int n) {   /* representation of an array (entries sorted as text) */
   char* e[400]; for(int i = 0; i < n; ++i) asprintf(&e[i], "%d=%d", i, a[i]); qsort(e, n, sizeof(char*), cmps);
   int k = sprintf(ex, "{"); for(int i = 0; i < n; ++i) { k += sprintf(ex + k, "%s%s", i ? "," : "", e[i]); free(e[i]); } sprintf(ex + k, "}");
}
static int cmpi(const void* a, const void* b) { return *(int*)a - *(int*)b; }
static int cmpd(const void* a, const void* b) { return *(int*)b - *(int*)a; }
static char shown[2000];
static const char* show(const int* a, int n) { int k = 0; shown[0] = 0; for(int i = 0; i < n && k < 1900; ++i) k += sprintf(shown + k, " %d", a[i]); return shown; }
static void sort1(const int* a, int n) {
   int s[400], d[400]; memcpy(s, a, n * sizeof(int)); qsort(s, n, sizeof(int), cmpi); memcpy(d, a, n * sizeof(int)); qsort(d, n, sizeof(int), cmpd);
   static const int ASC[] = { 0, 3 };
   for(int i = 0; i < 2; ++i) { pa(a, n); pi(ASC[i]); call("srtin", 2); exarr(s, n); if(strcmp(got.s, ex)) mc_fail("sort", "sorting%s gives %s, expected %s", show(a, n), got.s, ex); }
   pa(a, n); pi(1); call("srtin", 2); exarr(d, n); if(strcmp(got.s, ex)) mc_fail("sort", "sorting%s downwards gives %s, expected %s", show(a, n), got.s, ex);
   pa(a, n); pi(4); call("srtbox", 2); exarr(s, n); if(strcmp(got.s, ex)) mc_fail("sort", "sorting records%s gives %s, expected %s", show(a, n), got.s, ex);
   pa(a, n); pi(5); call("srtbox", 2); exarr(d, n); if(strcmp(got.s, ex)) mc_fail("sort", "sorting records%s downwards gives %s, expected %s", show(a, n), got.s, ex);
   pa(a, n); pi(0); call("srt", 2); if(strcmp(got.s, "1")) mc_fail("sort in place", "sorting%s replaces the table", show(a, n));
   /* by parity: a permutation, evens first */
   pa(a, n); pi(2); if(buzzvm_function_call(VM, "srtin", 2) != BUZZVM_STATE_READY) { mc_fail("sort", "sorting%s by parity fails: %s", show(a, n), VM->errormsg); fresh(); return; }
   buzzobj_t t = buzzvm_stack_at(VM, 1); int o[400], ok = t->o.type == BUZZTYPE_TABLE && (int)buzzdict_size(t->t.value) == n;
   for(int i = 0; ok && i < n; ++i) { buzzobj_t k = buzzheap_newobj(VM, BUZZTYPE_INT); k->i.value = i; const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t); if(!v || (*v)->o.type != BUZZTYPE_INT) ok = 0; else { o[i] = (*v)->i.value; if(i && ((o[i-1] % 2 + 2) % 2) > ((o[i] % 2 + 2) % 2)) ok = 0; } }
   if(ok) { qsort(o, n, sizeof(int), cmpi); ok = !memcmp(o, s, n * sizeof(int)); }
   if(!ok) { mcs_clear(&got); bz_repr(&got, t, 3); mc_fail("sort", "sorting%s by parity gives %s", show(a, n), got.s); }
   buzzvm_pop(VM); mc_traces(1);
}
static void sorts(int n, int base) {
   long tot = 1; for(int i = 0; i < n; ++i) tot *= base;
   for(long v = 0; v < tot; v += 32) if(MC_CASE("sorting all sequences of %d of %d values from number %ld", n, base, v)) { fresh(); for(long w = v; w < v + 32 && w < tot; ++w) { int a[16]; long x = w; for(int i = 0; i < n; ++i) { a[i] = (int)(x % base) - 1; x /= base; } sort1(a, n); } }
}
static void sortbig(void) { for(int n = 0; n <= 120; n = n < 16 ? n + 1 : n * 2) for(int k = 0; k < 5; ++k) if(MC_CASE("sorting %d elements, pattern %d", n, k)) { fresh(); int a[400]; for(int i = 0; i < n; ++i) a[i] = k == 0 ? i : k == 1 ? n - i : k == 2 ? 7 : k == 3 ? (i * 37) % (n | 1) : (i & 1 ? -i : i) * 100000; sort1(a, n); } }
static void exnum(num_t n) { if(n.isf) sprintf(ex, "f%.9g", n.v); else sprintf(ex, "%d", (int)n.v); }
static void extremes(int n) {
   static const num_t V[] = { {0,-7}, {0,0}, {0,3}, {1,2.5}, {1,-1.25}, {0,100} }; static const num_t K[] = { {0,0}, {0,5}, {0,-4}, {1,0.5}, {0,77}, {1,-9.5} };
   long tot = 1; for(int i = 0; i < n; ++i) tot *= 6;
   for(long v = 0; v < tot; v += 64) if(MC_CASE("extremes of tables of %d entries from number %ld", n, v)) { fresh(); for(long w = v; w < v + 64 && w < tot; ++w) {
      num_t k[8], x[8]; long q = w; for(int i = 0; i < n; ++i) { x[i] = V[q % 6]; k[i] = K[(i * 5 + w) % 6]; q /= 6; }
      for(int f = 0; f < 4; ++f) {
         static const char* F[] = { "mx", "mn", "mxk", "mnk" }; num_t b = {0,0}; for(int i = 0; i < n; ++i) { num_t c = f < 2 ? x[i] : k[i]; if(!i || (f & 1 ? c.v < b.v : c.v > b.v)) b = c; }
         pt(k, x, n); call(F[f], 1); if(!n) strcpy(ex, "nil"); else exnum(b); if(strcmp(got.s, ex)) mc_fail("extreme", "%s gives %s, expected %s", F[f], got.s, ex);
      } } }
}
static void swaps(void) {
   for(int n = 0; n <= 4; ++n) for(int i = -1; i <= 5; ++i) for(int j = -1; j <= 5; ++j) if(MC_CASE("swapping %d and %d of %d", i, j, n)) {
      fresh(); int a[4] = { 10, 20, 30, 40 }; pa(a, n); pi(i); pi(j); call("swp", 3);
      int has[16] = {0}, val[16]; for(int k = 0; k < n; ++k) { has[k + 1] = 1; val[k + 1] = a[k]; } int h = has[i+1], x = val[i+1]; has[i+1] = has[j+1]; val[i+1] = val[j+1]; has[j+1] = h; val[j+1] = x;
      char* e[16]; int m = 0; for(int k = 0; k < 8; ++k) if(has[k]) asprintf(&e[m++], "%d=%d", k - 1, val[k]); qsort(e, m, sizeof(char*), cmps); int p = sprintf(ex, "{"); for(int k = 0; k < m; ++k) { p += sprintf(ex + p, "%s%s", k ? "," : "", e[k]); free(e[k]); } sprintf(ex + p, "}");
      if(strcmp(got.s, ex)) mc_fail("swap", "gives %s, expected %s", got.s, ex); }
}
static void shuffles(int seeds) {
   for(int n = 0; n <= 9; ++n) for(int s0 = 0; s0 < seeds; s0 += 50) if(MC_CASE("shuffling %d elements with seeds from %d", n, s0)) { fresh(); for(int s = s0; s < s0 + 50; ++s) {
      int a[16]; for(int i = 0; i < n; ++i) a[i] = 100 + i * 7; pa(a, n); pi(s);
      if(buzzvm_function_call(VM, "shf", 2) != BUZZVM_STATE_READY) { mc_fail("shuffle", "fails: %s", VM->errormsg); fresh(); continue; }
      buzzobj_t t = buzzvm_stack_at(VM, 1); int o[16], ok = (int)buzzdict_size(t->t.value) == n; for(int i = 0; ok && i < n; ++i) { buzzobj_t k = buzzheap_newobj(VM, BUZZTYPE_INT); k->i.value = i; const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t); if(!v) ok = 0; else o[i] = (*v)->i.value; }
      if(ok) { qsort(o, n, sizeof(int), cmpi); ok = !memcmp(o, a, n * sizeof(int)); } mcs_clear(&got); bz_repr(&got, t, 2);
      if(!ok) mc_fail("shuffle", "seed %d gives %s", s, got.s); buzzvm_pop(VM); mc_traces(1); } }
}
static void shufflecover(void) {   /* every order of up to 4 elements comes up */
   for(int n = 2; n <= 4; ++n) if(MC_CASE("orders of %d shuffled elements over 1000 seeds", n)) {
      fresh(); int seen[256] = {0}, cnt = 0, want = n == 2 ? 2 : n == 3 ? 6 : 24;
      for(int s = 0; s < 1000; ++s) {
         int a[4] = { 0, 1, 2, 3 }; pa(a, n); pi(s * 7919 + 1); if(buzzvm_function_call(VM, "shf", 2) != BUZZVM_STATE_READY) { mc_fail("shuffle", "fails: %s", VM->errormsg); fresh(); continue; }
         buzzobj_t t = buzzvm_stack_at(VM, 1); int code = 0; for(int i = 0; i < n; ++i) { buzzobj_t k = buzzheap_newobj(VM, BUZZTYPE_INT); k->i.value = i; const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t); code = code * 4 + (v && (*v)->o.type == BUZZTYPE_INT ? (*v)->i.value & 3 : 0); }
         if(!seen[code]++) ++cnt; buzzvm_pop(VM); mc_traces(1);
      }
      if(cnt != want) mc_fail("shuffle", "only %d of %d orders come up", cnt, want); }
}
/* vectors */
static const num_t W[] = { {0,0}, {0,1}, {0,-3}, {1,0.5}, {1,-2.25}, {1,1000.125}, {0,7}, {1,1e-3} };
#define NWV 8
static int field(buzzobj_t t, const char* f, double* o) { buzzobj_t k = buzzheap_newobj(VM, BUZZTYPE_STRING); k->s.value.sid = buzzvm_string_register(VM, f, 0); k->s.value.str = buzzvm_string_get(VM, k->s.value.sid); if(t->o.type != BUZZTYPE_TABLE) return 0; const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t); if(!v) return 0; if((*v)->o.type == BUZZTYPE_INT) *o = (*v)->i.value; else if((*v)->o.type == BUZZTYPE_FLOAT) *o = (*v)->f.value; else return 0; return 1; }
static buzzobj_t sub(buzzobj_t t, const char* f) { buzzobj_t k = buzzheap_newobj(VM, BUZZTYPE_STRING); k->s.value.sid = buzzvm_string_register(VM, f, 0); k->s.value.str = buzzvm_string_get(VM, k->s.value.sid); const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t); return v ? *v : NULL; }
static int near(double a, double b, double scale) { return fabs(a - b) <= 2e-5 * (scale > 1 ? scale : 1); }
static void vec(const char* what, const char* fn, int n, int isvec, double x, double y, double scale, int argc, const num_t* A) {
   if(buzzvm_function_call(VM, fn, n) != BUZZVM_STATE_READY) { mc_fail(what, "fails: %s", VM->errormsg); fresh(); return; }
   buzzobj_t t = buzzvm_stack_at(VM, 1); double gx = NAN, gy = 0; int ok; mc_traces(1); mc_trans(1);
   if(argc < 0) ok = field(t, "x", &gx) && field(t, "y", &gy) && buzzdict_size(t->t.value) == 2;
   else {
      buzzobj_t r = sub(t, "r"); ok = r != NULL;
      if(ok && isvec) ok = field(r, "x", &gx) && field(r, "y", &gy) && buzzdict_size(r->t.value) == 2;
      else if(ok) ok = field(t, "r", &gx);
      static const char* N[] = { "x", "y", "z", "w" }; for(int i = 0; i < argc; ++i) { double q; if(!field(t, N[i], &q) || q != (double)A[i].v) mc_fail("argument changed", "%s changes its argument", what); }
   }
   if(!ok || !near(gx, x, scale) || (isvec && !near(gy, y, scale))) mc_fail(what, "gives (%g, %g), expected (%g, %g)", gx, gy, x, y);
   buzzvm_pop(VM);
}
static void vectors(void) {
   for(int i = 0; i < NWV; ++i) for(int j = 0; j < NWV; ++j) if(MC_CASE("vector operations on (%g, %g)", W[i].v, W[j].v)) {
      fresh(); num_t A[4] = { W[i], W[j] }; double x = W[i].v, y = W[j].v, l = sqrt(x * x + y * y);
      pn(A[0]); pn(A[1]); vec("new", "vnew", 2, 1, x, y, 0, -1, A);
      pn(A[0]); pn(A[1]); vec("newp", "vnewp", 2, 1, x * cos(y), x * sin(y), fabs(x) * (1 + fabs(y) / 100), -1, A);
      ps("length"); pn(A[0]); pn(A[1]); vec("length", "v1", 3, 0, l, 0, l, 2, A);
      ps("angle"); pn(A[0]); pn(A[1]); vec("angle", "v1", 3, 0, atan2(y, x), 0, 1, 2, A);
      if(l > 0) { ps("norm"); pn(A[0]); pn(A[1]); vec("norm", "v1", 3, 1, x / l, y / l, 1, 2, A); }
      for(int k = 0; k < NWV; ++k) {
         double s = W[k].v; ps("scale"); pn(A[0]); pn(A[1]); pn(W[k]); vec("scale", "vs", 4, 1, x * s, y * s, l * fabs(s), 2, A);
         ps("rotate"); pn(A[0]); pn(A[1]); pn(W[k]); vec("rotate", "vs", 4, 1, x * cos(s) - y * sin(s), x * sin(s) + y * cos(s), l * (1 + fabs(s) / 100), 2, A);
         for(int m = 0; m < NWV; ++m) {
            A[2] = W[k]; A[3] = W[m]; double z = W[k].v, w = W[m].v, sc = l + fabs(z) + fabs(w);
            ps("add"); for(int q = 0; q < 4; ++q) pn(A[q]); vec("add", "v2", 5, 1, x + z, y + w, sc, 4, A);
            ps("sub"); for(int q = 0; q < 4; ++q) pn(A[q]); vec("sub", "v2", 5, 1, x - z, y - w, sc, 4, A);
            ps("dot"); for(int q = 0; q < 4; ++q) pn(A[q]); vec("dot", "v2", 5, 0, x * z + y * w, 0, sc * sc, 4, A);
         }
      } }
}
/* arrows: every history of building and running two sequences */
static void arrow(int depth) {
   chooser_t K = {0};
   do {
      int go = mc_next(); char s[2][64] = { "", "" }; char want[600] = "", h[600] = ""; int hk = 0, cur = 0, first = 1;
      if(go) { fresh(); pi(0); call("abegin2", 1); strcpy(s[1], "a"); }
      for(int d = 0; d < depth; ++d) {
         int op = first ? choose(&K, 3) : choose(&K, 11); if(!go) { first = 0; continue; }
         if(first || op < 3) { pi(op); call("abegin", 1); sprintf(s[cur], "%c", 'a' + op); hk += sprintf(h + hk, " begin(%c)", 'a' + op); }
         else if(op < 6) { pi(op - 3); call("anext", 1); int n = strlen(s[cur]); s[cur][n] = 'a' + op - 3; s[cur][n+1] = 0; hk += sprintf(h + hk, " next(%c)", 'a' + op - 3); }
         else if(op < 9) { pi(op - 6); call("astmt", 1); int n = strlen(s[cur]); s[cur][n] = 'a' + op - 6; s[cur][n+1] = 0; hk += sprintf(h + hk, " append(%c)", 'a' + op - 6); }
         else if(op == 9) { call("arun", 0); for(char* c = s[cur]; *c; ++c) sprintf(want + strlen(want), "'%c';", *c); hk += sprintf(h + hk, " run"); }
         else { call("aswap", 0); cur = !cur; hk += sprintf(h + hk, " other"); }
         first = 0;
      }
      if(!go) continue;
      mc_desc("arrows:%s", h);
      call("arun", 0); for(char* c = s[cur]; *c; ++c) sprintf(want + strlen(want), "'%c';", *c);
      if(strcmp(bz_trace.s ? bz_trace.s : "", want)) mc_fail("arrows", "the sequences run %s, expected %s", bz_trace.s ? bz_trace.s : "", want);
   } while(advance(&K));
   for(int n = 1; n <= 4; ++n) { int tot = 1; for(int i = 0; i < n; ++i) tot *= 3; for(int v = 0; v < tot; ++v) if(MC_CASE("chain of %d arrows, number %d", n, v)) {
      fresh(); char f[16], want[200] = ""; sprintf(f, "chain%d", n); int x = v, a[4]; for(int i = 0; i < n; ++i) { a[i] = x % 3; x /= 3; pi(a[i]); } call(f, n);
      for(int r = 0; r < (n == 4 ? 2 : 1); ++r) for(int i = 0; i < n; ++i) sprintf(want + strlen(want), "'%c';", 'a' + a[i]);
      if(strcmp(bz_trace.s ? bz_trace.s : "", want)) mc_fail("arrows", "the chain runs %s, expected %s", bz_trace.s ? bz_trace.s : "", want); } }
}
/* message collection: every history over two topics and two senders */
static void collection(int depth) {
   chooser_t K = {0};
   do {
      int go = mc_next(); int lis[2] = {0}, has[2] = {0}, set[2][2] = {{0}}, val[2][2]; char h[600] = ""; int hk = 0;
      if(go) fresh();
      for(int d = 0; d < depth; ++d) {
         int op = choose(&K, 9); if(!go) continue;
         int tp = op & 1; const char* T = tp ? "q" : "p";
         if(op < 2) { ps(T); call("coll", 1); lis[tp] = 1; hk += sprintf(h + hk, " collect(%s)", T); }
         else if(op < 4) { ps(T); call("rst", 1); has[tp] = 0; set[tp][0] = set[tp][1] = 0; hk += sprintf(h + hk, " reset(%s)", T); }
         else if(op < 8) {
            int rb = op >= 6, v = 10 * d + rb + 1; hk += sprintf(h + hk, " receive(%s, %d, from %d)", T, v, rb + 1);
            buzzmsg_payload_t m = buzzmsg_payload_new(32); buzzmsg_serialize_u8(m, BUZZMSG_BROADCAST); buzzobj_t ts = buzzheap_newobj(VM, BUZZTYPE_STRING); ts->s.value.sid = buzzvm_string_register(VM, T, 0); ts->s.value.str = buzzvm_string_get(VM, ts->s.value.sid); buzzobj_serialize(m, ts); buzzobj_t o = buzzheap_newobj(VM, BUZZTYPE_INT); o->i.value = v; buzzobj_serialize(m, o);
            buzzinmsg_queue_append(VM, rb + 1, m); buzzvm_process_inmsgs(VM);
            if(lis[tp]) { has[tp] = 1; set[tp][rb] = 1; val[tp][rb] = v; }
         }
         else { buzzvm_process_inmsgs(VM); hk += sprintf(h + hk, " step"); }
         mc_trans(1);
      }
      if(!go) continue;
      mc_desc("message collection:%s", h);
      call("msgs", 0); int k = sprintf(ex, "{"); for(int t = 0; t < 2; ++t) if(has[t]) { k += sprintf(ex + k, "%s'%s'={", k > 1 ? "," : "", t ? "q" : "p"); int c = 0; for(int r = 0; r < 2; ++r) if(set[t][r]) k += sprintf(ex + k, "%s%d=%d", c++ ? "," : "", r + 1, val[t][r]); k += sprintf(ex + k, "}"); } sprintf(ex + k, "}");
      if(strcmp(got.s, ex)) mc_fail("collection", "collected %s, expected %s", got.s, ex);
   } while(advance(&K));
}
void mc_run(void) {
   int t = mc_thorough;
   for(int n = 0; n <= (MC_ASAN ? 4 : t ? 7 : 6); ++n) sorts(n, n < 5 ? 4 : 3); if(!MC_ASAN) sorts(5, 5); sortbig();
   for(int n = 0; n <= (MC_ASAN ? 3 : t ? 6 : 5); ++n) extremes(n);
   swaps(); shufflecover(); shuffles(MC_ASAN ? 50 : t ? 20000 : 1000); vectors(); arrow(MC_ASAN ? 3 : t ? 5 : 4); collection(MC_ASAN ? 3 : t ? 6 : 5);
}
