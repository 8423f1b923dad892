/* P18: what scripts see of the neighborhood reported by the host: every neighborhood of a small universe over two steps,
 * every membership, every chain of derivations, every swarm context, against a reference map. */
#include "bz.h"
const char* mc_name = "neighbors";
#define NU 4
static const int U[NU] = { 0, 3, 260, 65535 };
static const char* SRC =
   "function val(x) { if(istable(x)) return x.distance\n return x }\n"
   "function show(n, id) { var x = n.get(id)\n if(x == nil) t(\"g\", id, nil)\n else if(istable(x)) t(\"g\", id, size(x), x.distance, x.azimuth, x.elevation)\n else t(\"g\", id, x) }\n"
   "function each(k, v) { if(istable(v)) t(\"f\", k, v.distance, v.azimuth, v.elevation)\n else t(\"f\", k, v) }\n"
   "function obs(n) { t(\"c\", n.count())\n show(n, 0)\n show(n, 3)\n show(n, 260)\n show(n, 65535)\n show(n, 7)\n n.foreach(each)\n t(\"r\", n.reduce(function(k, v, a) { return a + val(v) + k }, 0.5)) }\n"
   "function churn() { var i = 0\n while(i < 60) { var z = { .a = i }\n i = i + 1 } }\n"
   "function op(n, o) {\n"
   " if(o == 1) return n.filter(function(k, v) { return val(v) > 1.5 })\n"
   " if(o == 2) return n.filter(function(k, v) { if(k == 0) return nil\n if(k == 3) return 0\n churn()\n if(k == 260) return 0.0\n return \"\" })\n"
   " if(o == 3) return n.map(function(k, v) { return val(v) * 2 })\n"
   " if(o == 4) return n.map(function(k, v) { if(k == 260) return nil\n churn()\n return { .distance = val(v) + 1, .azimuth = k, .elevation = 0.25 } })\n"
   " if(o == 5) return n.kin()\n"
   " if(o == 6) return n.nonkin()\n"
   " if(o == 7) return n.map(function(k, v) { if(k == 3) return 0\n if(k == 260) return 0.0\n return val(v) })\n"
   " return n }\n"
   "function chain(a, b, c) { D = op(op(op(neighbors, a), b), c) }\n"
   "A = swarm.create(11)\nA.join()\nB = swarm.create(520)\nB.join()\n"
   "function derive(x, a, b, c) {\n"
   " if(x == 0) chain(a, b, c)\n"
   " if(x == 1) A.exec(function() { chain(a, b, c) })\n"
   " if(x == 2) B.exec(function() { chain(a, b, c) })\n"
   " if(x == 3) B.exec(function() { A.exec(function() { chain(a, b, c) }) })\n"
   " if(x == 4) A.exec(function() { B.exec(function() { var q = 0 })\n chain(a, b, c) }) }\n"
   "function obsn() { obs(neighbors) }\nfunction obsd() { obs(D) }\n"
   "function inall() { neighbors.foreach(function(i, v) { t(\"i\", i)\n neighbors.foreach(function(j, w) { t(\"j\", i, j, neighbors.count(), neighbors.get(j).distance) }) }) }\n"
   "function inner(n) { H = {}\n foreach(n, function(k, v) { if(istable(v)) H = v })\n return H }\n"
   "function edit(o, n, what) { SEEN = 0\n D = neighbors\n if(what < 5) D = neighbors.filter(function(k, v) { return 1 })\n var I = inner(D)\n var J = inner(neighbors)\n"
   " var f = function(k, v) { SEEN = SEEN + 1\n t(\"s\", k, val(v))\n if(SEEN == n) { if(what == 0) I[k] = nil\n if(what == 1) { I[0] = nil\n I[3] = nil\n I[260] = nil\n I[65535] = nil }\n"
   "  if(what == 2) { var i = 0\n while(i < 40) { I[70 + i] = 1\n i = i + 1 } }\n if(what == 3) J[k] = nil\n if(what == 4) I[k] = 9\n if(what > 4) hostedit(what) }\n churn()\n return 1 }\n"
   " if(o == 0) D.foreach(function(k, v) { f(k, v) })\n if(o == 1) { var x = D.map(f)\n t(\"n\", x.count()) }\n if(o == 2) { var x = D.filter(f)\n t(\"n\", x.count()) }\n"
   " if(o == 3) t(\"n\", D.reduce(function(k, v, a) { return a + f(k, v) }, 0)) }\n"
   "function failat(o, n) { SEEN = 0\n var f = function(k, v, a) { SEEN = SEEN + 1\n t(\"s\")\n if(SEEN == n) { var z = nil + 1 }\n return 1 }\n"
   " if(o == 0) neighbors.foreach(function(k, v) { f(k, v, 0) })\n if(o == 1) { var x = neighbors.map(function(k, v) { return f(k, v, 0) }) }\n"
   " if(o == 2) { var x = neighbors.filter(function(k, v) { return f(k, v, 0) }) }\n if(o == 3) { var x = neighbors.reduce(f, 0) } }\n";
typedef struct { uint8_t in, tab, id; float d, a, e; } ent_t;   /* id: d is an integer; tab: a table of three fields, else the number d */
typedef struct { ent_t e[NU]; } nb_t;
static bz_prog_t P; static buzzvm_t VM; static mcs_t ex; static chooser_t K;
static int mem[NU];   /* bit 0: in swarm 11, bit 1: in 520 */
/* the host reports while a script visits the neighbors */
static int hostedit(buzzvm_t vm) {
   buzzvm_lload(vm, 1); int w = buzzvm_stack_at(vm, 1)->i.value; if(w >= 6) buzzneighbors_reset(vm);
   if(w != 6) for(int i = 0; i < 40; ++i) buzzneighbors_add(vm, 70 + i, i, i, i);
   return buzzvm_ret0(vm);
}
static void vmnew(void) { if(!P.code && bz_compile(SRC, &P)) { fprintf(stderr, "script\n"); exit(9); } VM = bz_vm(5, &P); buzzvm_pushs(VM, buzzvm_string_register(VM, "hostedit", 1)); buzzvm_pushcc(VM, buzzvm_function_register(VM, hostedit)); buzzvm_gstore(VM); bz_exec(VM, 100000); if(VM->state != BUZZVM_STATE_DONE) { fprintf(stderr, "script: %s\n", VM->errormsg); exit(9); } VM->state = BUZZVM_STATE_READY; bz_msgs_t q = {0}; bz_drain(VM, &q); bz_msgs_free(&q); }
static void vmdrop(void) { if(VM) buzzvm_destroy(&VM); VM = NULL; }
static int call(const char* f, int n, int a, int b, int c, int d) {
   int v[4] = { a, b, c, d }, dep = bz_depth(VM); for(int i = 0; i < n; ++i) buzzvm_pushi(VM, v[i]);
   mc_trans(1);
   if(buzzvm_function_call(VM, f, n) != BUZZVM_STATE_READY) { mc_fail("script", "%s: %s", f, VM->errormsg); return 0; }
   buzzvm_pop(VM); if(bz_depth(VM) != dep) { mc_fail("stack", "%s leaves %d values", f, bz_depth(VM) - dep); return 0; } return 1;
}
static void members(void) { for(int i = 0; i < NU; ++i) { uint8_t b[8] = { 1, 0, 0 }; int n = 3; if(mem[i] & 1) { b[n++] = 0; b[n++] = 11; b[2]++; } if(mem[i] & 2) { b[n++] = 2; b[n++] = 8; b[2]++; } bz_msg_t m = { b, n }; bz_deliver(VM, U[i], &m); } buzzvm_process_inmsgs(VM); }
static void report(nb_t* n, int set, int step, int rev, int dup) {
   int dep = bz_depth(VM); memset(n, 0, sizeof *n); buzzneighbors_reset(VM);
   for(int q = 0; q < NU; ++q) { int i = rev ? NU - 1 - q : q; if(!(set >> i & 1)) continue; ent_t e = { 1, 1, 0, (i + 1) * 0.5f + step, step * 10 - i * 0.125f, i - 2.0f * step };
      if(dup) buzzneighbors_add(VM, U[i], 99, 98, 97);
      buzzneighbors_add(VM, U[i], e.d, e.a, e.e); n->e[i] = e; }
   if(bz_depth(VM) != dep) { mc_fail("stack", "reporting neighbors leaves %d values", bz_depth(VM) - dep); while(bz_depth(VM) > dep) buzzvm_pop(VM); }
}
static void m_op(nb_t* n, int o, int ctx) {
   for(int i = 0; i < NU; ++i) { ent_t* e = &n->e[i]; if(!e->in) continue; int k = 0;
      switch(o) {
         case 1: k = !(e->d > 1.5f); break;
         case 2: k = i <= 1; break;
         case 3: e->d *= 2; e->tab = 0; break;
         case 7: e->tab = 0; if(i == 1) { e->d = 0; e->id = 1; } if(i == 2) { e->d = 0; e->id = 0; } break;
         case 4: if(i == 2) k = 1; else { e->tab = 1; e->d += 1; e->a = -1; e->e = 0.25f; } break;
         case 5: case 6: { int sw = ctx == 2 ? 2 : 1, is = ctx ? mem[i] & sw : 1; k = o == 5 ? !is : is; break; }
      }
      if(k) memset(e, 0, sizeof *e); else if(o == 4) e->tab = 2; }
}
static void fl(mcs_t* o, double v) { mcs_add(o, "f%.9g", v); }
static void body(mcs_t* o, const ent_t* e, int i) { if(e->id) mcs_add(o, "%d", (int)e->d); else fl(o, e->d); if(!e->tab) return; mcs_add(o, " "); if(e->tab == 2) mcs_add(o, "%d", U[i]); else fl(o, e->a); mcs_add(o, " "); fl(o, e->e); }
static void m_obs(const nb_t* n, mcs_t* o) {
   int c = 0; double r = 0.5; mcs_clear(o); for(int i = 0; i < NU; ++i) if(n->e[i].in) { ++c; r += n->e[i].d + U[i]; }
   mcs_add(o, "'c' %d;", c); for(int i = 0; i < NU; ++i) { const ent_t* e = &n->e[i]; if(!e->in) mcs_add(o, "'g' %d nil;", U[i]); else { mcs_add(o, "'g' %d ", U[i]); if(e->tab) mcs_add(o, "3 "); body(o, e, i); mcs_add(o, ";"); } }
   mcs_add(o, "'g' 7 nil;"); for(int i = 0; i < NU; ++i) if(n->e[i].in) { mcs_add(o, "'f' %d ", U[i]); body(o, &n->e[i], i); mcs_add(o, ";"); }
   mcs_add(o, "'r' "); fl(o, r); mcs_add(o, ";");
}
/* sorts the runs of 'f' records by robot, since the order of visits is unspecified */
static int fcmp(const void* a, const void* b) { return atoi(*(char**)a + 4) - atoi(*(char**)b + 4); }
static void canon(mcs_t* o) {
   char* p[64]; int n = 0; mcs_clear(o); for(char* q = strtok(bz_trace.n ? bz_trace.s : (char[]){0}, ";"); q && n < 64; q = strtok(NULL, ";")) p[n++] = q;
   int i = 0; while(i < n) { int j = i; while(j < n && !strncmp(p[j], "'f'", 3)) ++j; if(j > i) qsort(p + i, j - i, sizeof *p, fcmp); if(j == i) ++j; for(; i < j; ++i) mcs_add(o, "%s;", p[i]); }
}
static int obs(const char* f, const nb_t* n, const char* when) {
   static mcs_t got; mcs_clear(&bz_trace); if(!call(f, 0, 0, 0, 0, 0)) return 0; canon(&got); m_obs(n, &ex);
   if(strcmp(got.n ? got.s : "", ex.s)) { mc_fail(f, "%s: saw %s expected %s", when, got.n ? got.s : "", ex.s); return 0; } return 1;
}
static void one(int s1, int s2, int a, int b, int c, int ctx, int rev, int dup) {
   if(!VM) vmnew(); members(); nb_t n1, n2, d; report(&n1, s1, 1, rev, dup); d = n1;
   int ok = call("derive", 4, ctx, a, b, c); m_op(&d, a, ctx); m_op(&d, b, ctx); m_op(&d, c, ctx);
   ok = ok && obs("obsd", &d, "derived") && obs("obsn", &n1, "neighbors after deriving");
   int snap = a || b || c;
   report(&n2, s2, 2, !rev, 0);
   ok = ok && obs("obsn", &n2, "neighbors in the next step") && (!snap || obs("obsd", &d, "derived structure in the next step"));
   if(!ok || VM->state != BUZZVM_STATE_READY) vmdrop(); mc_states(2); mc_traces(1);
}
static void pairs(int depth) {
   for(int s1 = 0; s1 < 16; ++s1) for(int s2 = 0; s2 < 16; ++s2) for(int pat = 0; pat < 2; ++pat) for(int a = 0; a < 8; ++a) for(int b = 0; b < (a && depth > 1 ? 8 : 1); ++b) for(int ctx = 0; ctx < 5; ++ctx) {
      if(ctx && a % 7 < 5 && b % 7 < 5) continue; if(!mc_next()) continue;
      for(int i = 0; i < NU; ++i) mem[i] = pat ? i : 3 - i;
      mc_desc("robots %x then %x, operations %d %d, context %d, memberships %d%d%d%d", s1, s2, a, b, ctx, mem[0], mem[1], mem[2], mem[3]); one(s1, s2, a, b, 0, ctx, s2 & 1, pat);
   }
}
static void memberships(int depth) {
   for(int m = 0; m < 256; ++m) for(int s = 0; s < 16; ++s) for(int ctx = 0; ctx < 5; ++ctx) for(int a = 1; a < 8; ++a) for(int b = 0; b < 8; ++b) for(int c = 0; c < (b && depth > 2 ? 8 : 1); ++c) {
      if(a % 7 < 5 && b % 7 < 5 && c % 7 < 5) continue; int skip = 0; for(int i = 0; i < NU; ++i) if(!(s >> i & 1) && (m >> 2 * i & 3) != (i & 3)) skip = 1; if(skip || !mc_next()) continue;
      for(int i = 0; i < NU; ++i) mem[i] = m >> 2 * i & 3;
      mc_desc("robots %x, operations %d %d %d, context %d, memberships %d%d%d%d", s, a, b, c, ctx, mem[0], mem[1], mem[2], mem[3]); one(s, 15 - s, a, b, c, ctx, 0, 0);
   }
}
static void chains3(void) { for(int a = 1; a < 8; ++a) for(int b = 1; b < 8; ++b) for(int c = 1; c < 8; ++c) for(int s = 0; s < 16; ++s) for(int ctx = 0; ctx < 3; ++ctx) { if(!MC_CASE("robots %x, operations %d %d %d, context %d", s, a, b, c, ctx)) continue; for(int i = 0; i < NU; ++i) mem[i] = i; one(s, s ^ 6, a, b, c, ctx, 1, 0); } }
/* nothing reported yet */
static void unreported(void) {
   for(int a = 0; a < 8; ++a) for(int b = 0; b < 8; ++b) for(int ctx = 0; ctx < 5; ++ctx) { if(!MC_CASE("no neighbor ever reported, operations %d %d, context %d", a, b, ctx)) continue;
      vmdrop(); vmnew(); nb_t n; memset(&n, 0, sizeof n); int ok = call("derive", 4, ctx, a, b, 0) && obs("obsd", &n, "derived") && obs("obsn", &n, "neighbors");
      /* a neighbor added without reset */
      nb_t m = n; buzzneighbors_add(VM, 3, 1, 2, 3); m.e[1] = (ent_t){ 1, 1, 0, 1, 2, 3 }; if(ok) obs("obsn", &m, "one neighbor added"); if(ok && (a || b)) obs("obsd", &n, "derived before"); vmdrop(); mc_traces(1); }
}
/* callbacks that use the neighborhood, and callbacks that fail */
static void callbacks(void) {
   for(int s = 0; s < 16; ++s) { if(!MC_CASE("nested foreach over robots %x", s)) continue; if(!VM) vmnew(); nb_t n; report(&n, s, 1, 0, 0); mcs_clear(&bz_trace); if(!call("inall", 0, 0, 0, 0, 0)) { vmdrop(); continue; }
      int c = __builtin_popcount(s), ni = 0, nj = 0; char seen[NU][NU] = {{0}}; int cur = -1;
      for(char* q = strtok(bz_trace.n ? bz_trace.s : (char[]){0}, ";"); q; q = strtok(NULL, ";")) { int i, j, k; float d; if(sscanf(q, "'i' %d", &i) == 1) { cur = i; ++ni; } else if(sscanf(q, "'j' %d %d %d f%f", &i, &j, &k, &d) == 4) { int x = -1, y = -1; for(int z = 0; z < NU; ++z) { if(U[z] == i) x = z; if(U[z] == j) y = z; } if(i != cur || x < 0 || y < 0 || seen[x][y] || k != c || d != n.e[y].d || !n.e[x].in) mc_fail("nested", "%s", q); else seen[x][y] = 1; ++nj; } else mc_fail("nested", "%s", q); }
      if(ni != c || nj != c * c) mc_fail("nested", "%d outer and %d inner visits of %d robots", ni, nj, c); mc_traces(1); }
   for(int s = 1; s < 16; ++s) for(int o = 0; o < 4; ++o) for(int k = 1; k <= 5; ++k) { if(!MC_CASE("callback of operation %d fails at visit %d of robots %x", o, k, s)) continue; vmdrop(); vmnew(); nb_t n; report(&n, s, 1, 0, 0); mcs_clear(&bz_trace);
      int c = __builtin_popcount(s); buzzvm_pushi(VM, o); buzzvm_pushi(VM, k); buzzvm_function_call(VM, "failat", 2); int seen = 0; for(size_t i = 0; i + 3 <= bz_trace.n; ++i) seen += !strncmp(bz_trace.s + i, "'s'", 3);
      int fail = k <= c; if(fail ? VM->state != BUZZVM_STATE_ERROR || VM->error != BUZZVM_ERROR_TYPE : VM->state != BUZZVM_STATE_READY) mc_fail("callback-error", "VM is %s", bz_statename(VM)); if(seen != (fail ? k : c)) mc_fail("callback-error", "%d visits, expected %d", seen, fail ? k : c); vmdrop(); mc_traces(1); }
}
/* callbacks that change the structure being visited: the visit is of what it held at the start */
static void edits(void) {
   for(int s = 1; s < 16; ++s) for(int o = 0; o < 4; ++o) for(int k = 1; k <= 4; ++k) for(int w = 0; w < 8; ++w) {
      if(!MC_CASE("operation %d over robots %x, edit %d at visit %d", o, s, w, k)) continue; if(!VM) vmnew(); nb_t n; report(&n, s, 1, 0, 0); mcs_clear(&bz_trace); if(!call("edit", 3, o, k, w, 0)) { vmdrop(); continue; }
      int c = __builtin_popcount(s), v = 0, seen = 0, cnt = -1; for(char* q = strtok(bz_trace.n ? bz_trace.s : (char[]){0}, ";"); q; q = strtok(NULL, ";")) { int id, y = -1; float d; if(sscanf(q, "'n' %d", &id) == 1) { cnt = id; continue; } if(sscanf(q, "'s' %d f%f", &id, &d) == 2) for(int z = 0; z < NU; ++z) if(U[z] == id) y = z; if(y < 0 || seen >> y & 1 || !n.e[y].in || (d != n.e[y].d && w != 4)) mc_fail("edited", "%s", q); else seen |= 1 << y; ++v; }
      if(v != c || (o && cnt != c)) mc_fail("edited", "%d visits of %d robots, result %d", v, c, cnt); if(VM->state != BUZZVM_STATE_READY) vmdrop(); mc_traces(1); mc_states(1); }
}
/* many neighbors */
static void crowd(int n) {
   if(!MC_CASE("%d neighbors", n)) return; vmdrop(); vmnew();
   for(int step = 0; step < 3; ++step) {
      buzzneighbors_reset(VM); int m = step == 1 ? n / 2 : n; for(int i = 0; i < m; ++i) buzzneighbors_add(VM, i * 13 + step, i, step, -i);
      mcs_clear(&bz_trace); if(!call("obsn", 0, 0, 0, 0, 0)) break; int c = -1, f = 0; double want = 0.5, r = 0; float sum = 0.5f; (void)sum; for(int i = 0; i < m; ++i) want += i + i * 13 + step; char* seen = calloc(1, n * 13 + 50);
      for(char* q = strtok(bz_trace.s, ";"); q; q = strtok(NULL, ";")) { int id; float d, a, e; if(sscanf(q, "'c' %d", &id) == 1) c = id; else if(sscanf(q, "'r' f%lf", &r) == 1) ; else if(sscanf(q, "'f' %d f%f f%f f%f", &id, &d, &a, &e) == 4) { int i = (id - step) / 13; if(id < 0 || id > n * 13 + 40 || seen[id] || i * 13 + step != id || i >= m || d != i || a != step || e != -i) mc_fail("crowd", "%s", q); else seen[id] = 1; ++f; } }
      free(seen); if(c != m || f != m || (m < 200 && r != want)) mc_fail("crowd", "step %d: count %d, %d visits, sum %g; expected %d and %g", step, c, f, r, m, want);
      if(!call("derive", 4, 0, 3, 1, 0)) break; mc_states(m);
   }
   vmdrop(); mc_traces(1);
}
void mc_run(void) {
   int t = mc_thorough; unreported(); callbacks(); edits();
   if(MC_ASAN) { chains3(); if(t) pairs(1); for(int n = 0; n <= 30; n += 6) crowd(n); }
   else { pairs(2); memberships(t ? 3 : 2); chains3(); for(int n = 0; n <= 1500; n += n < 200 ? 20 : 260) crowd(n); }
   vmdrop();
}
