/* P26: several VMs (and compilations) in one process. Every interleaving of their execution slices, including creation and
 * destruction, and every two-preemption schedule at instruction granularity; each must behave as when alone. */
#include "bz.h"
#include <unistd.h>
const char* mc_name = "isolation";
static const char* SRC[] = {
   /* 0: strings, tables, garbage */
   "T = {}\ni = 0\nwhile(i < 40) { T[string.concat(\"k\", string.tostring(i))] = { .v = i, .w = string.tostring(i * 1.5) }\n i = i + 1 }\nt(size(T), T.k7.v, T.k39.w)\nn = 0\nfunction step() { n = n + 1\n T[string.concat(\"s\", string.tostring(n))] = n\n var j = 0\n while(j < 150) { var g = { .a = j, .b = string.concat(\"g\", string.tostring(j)) }\n j = j + 1 }\n t(n, size(T), reduce(T, function(k, v, a) { return a + 1 }, 0), T.s1)\n return n }\n",
   /* 1: swarms, neighbors, broadcast, stigmergy */
   "S = swarm.create(2)\nS.join()\nV = stigmergy.create(3)\nV.put(\"x\", id)\nV.onconflict(function(k, l, r) { t(\"conflict\", k, l.robot, r.robot)\n if(l.robot > r.robot) return l\n return r })\nneighbors.listen(\"a\", function(tp, v, r) { t(\"heard\", tp, v, r) })\nn = 0\nfunction step() { n = n + 1\n t(V.get(\"x\"), V.get(\"y\"), V.size(), S.in(), neighbors.count())\n S.exec(function() { t(\"in\", swarm.id(), neighbors.kin().count(), neighbors.nonkin().count()) })\n V.put(\"n\", n)\n neighbors.broadcast(\"a\", n * 10)\n return n }\n",
   /* 2: random numbers and math */
   "math.rng.setseed(id)\nt(math.rng.uniform(1000), math.rng.gaussian() < 100)\nn = 0\nfunction step() { n = n + 1\n var j = 0\n var s = 0\n while(j < 30) { s = s + math.rng.uniform(0, 50)\n j = j + 1 }\n t(n, s, math.rng.uniform(), math.floor(math.rng.exponential(10.0)))\n return s }\n",
   /* 3: fails in its second step */
   "n = 0\nfunction step() { n = n + 1\n t(n)\n if(n == 2) { var z = nil + n }\n return n }\n",
   /* 4: closures, host functions, recursion */
   "function mk(a) { return function(b) { a = a + b\n return a } }\nf = mk(id)\nfunction fib(x) { if(x < 2) return x\n return fib(x - 1) + fib(x - 2) }\nt(f(1), fib(8))\nO = { .c = 0, .inc = function() { self.c = self.c + 1\n return self.c } }\nfunction step() { t(O.inc(), fib(6), host(3), f(10))\n neighbors.listen(\"a\", function(tp, v, r) { t(\"h\", v, O.c) })\n return O.c }\n",
   /* 5: second program with the same names as 1 */
   "V = stigmergy.create(3)\nS = swarm.create(2)\nn = 100\nneighbors.listen(\"a\", function(tp, v, r) { t(\"other\", v, r)\n V.put(\"y\", v) })\nfunction step() { n = n - 1\n V.put(\"y\", n)\n V.put(n, \"s\")\n S.select(n % 2)\n t(V.get(\"y\"), V.get(99), S.in())\n neighbors.broadcast(\"b\", { .n = n })\n return n }\n",
};
#define NSRC 6
#define NACT 7      /* 6: a compilation */
static bz_prog_t PR[NSRC];
typedef struct { int kind, robot, pc; buzzvm_t vm; mcs_t tr; buzzparser_t par; char in[300], out[300]; } act_t;
static int host(buzzvm_t vm) { buzzvm_lload(vm, 1); buzzvm_pushi(vm, buzzvm_stack_at(vm, 1)->i.value * vm->robot); return buzzvm_ret1(vm); }
static void msgs(act_t* a) {   /* messages every actor receives */
   static const uint8_t m0[] = { 0, 3, 0, 1, 'a', 1, 0, 0, 0, 7 }, m1[] = { 2, 0, 3, 3, 0, 1, 'x', 1, 0, 0, 0, 55, 0, 1, 0, 200 }, m2[] = { 1, 0, 1, 0, 2 }, m3[] = { 3, 0, 3, 3, 0, 1, 'y', 0, 0, 0, 0, 9 };
   bz_msg_t m[] = { { (uint8_t*)m0, sizeof m0 }, { (uint8_t*)m1, sizeof m1 }, { (uint8_t*)m2, sizeof m2 }, { (uint8_t*)m3, sizeof m3 } };
   for(int i = 0; i < 4; ++i) bz_deliver(a->vm, 200 + a->kind, &m[i]);
   buzzvm_process_inmsgs(a->vm);
}
static void state(act_t* a) { mcs_add(&a->tr, "[%s%s%s]", bz_statename(a->vm), a->vm->errormsg ? " " : "", a->vm->errormsg ? a->vm->errormsg : ""); }
static void drain(act_t* a) { bz_msgs_t q = {0}; bz_collect(a->vm, &q); for(int i = 0; i < q.n; ++i) { mcs_add(&a->tr, "<"); for(uint32_t k = 0; k < q.m[i].n; ++k) mcs_add(&a->tr, "%02x", q.m[i].d[k]); mcs_add(&a->tr, ">"); } bz_msgs_free(&q); }
static void create(act_t* a) {
   a->vm = buzzvm_new(a->robot); buzzvm_set_bcode(a->vm, PR[a->kind].code, PR[a->kind].size); bz_reg(a->vm, "t", bz_tracef); bz_reg(a->vm, "host", host);
   buzzvm_pushs(a->vm, buzzvm_string_register(a->vm, "id", 1)); buzzvm_pushi(a->vm, a->robot); buzzvm_gstore(a->vm);
}
static void mainrun(act_t* a) { bz_exec(a->vm, 1000000); if(a->vm->state == BUZZVM_STATE_DONE) a->vm->state = BUZZVM_STATE_READY; state(a); }
static void step(act_t* a) { buzzneighbors_reset(a->vm); buzzneighbors_add(a->vm, 200 + a->kind, a->robot, 1, 2); buzzneighbors_add(a->vm, 9, 1, 2, 3); if(buzzvm_function_call(a->vm, "step", 0) == BUZZVM_STATE_READY) { bz_repr(&a->tr, buzzvm_stack_at(a->vm, 1), 3); buzzvm_pop(a->vm); } state(a); mcs_add(&a->tr, "d%d", bz_depth(a->vm)); }
static const char* KSRC = "# a compilation\nfunction f(a, b) {\n  var x = a + 'q\\n'\n  while(x < b) { x = x + 1.5 }\n  return { .k = x, .l = function(z) { return z } }\n}\ng = f(1, \"two\")\nif(g) { g.k = nil } else { h = 'three' }\n";
static void kslice(act_t* a, int n) {
   static int ser; if(n == 0) { ++ser; snprintf(a->in, 300, "%s/k%d.bzz", mc_tmp, a->robot); snprintf(a->out, 300, "%s/k%d.basm", mc_tmp, a->robot); FILE* f = fopen(a->in, "w"); fputs(KSRC, f); for(int i = 0; i < a->robot % 5; ++i) fprintf(f, "v%d = %d\n", i, i); fclose(f); char* av[] = { "b", a->in, a->out, NULL }; a->par = buzzparser_new(3, av); mcs_add(&a->tr, "%d", a->par != NULL); }
   else if(n == 1) { if(a->par) { mcs_add(&a->tr, "parse %d", buzzparser_parse(a->par)); buzzparser_destroy(&a->par); } }
   else if(n == 2) { bz_prog_t p; memset(&p, 0, sizeof p); int r = buzz_asm(a->out, &p.code, &p.size, &p.dbg); mcs_add(&a->tr, "asm %d %u:", r, p.size); if(!r) { for(uint32_t i = 0; i < p.size; ++i) mcs_add(&a->tr, "%02x", p.code[i]); buzzdebug_destroy(&p.dbg); } free(p.code); }
   else { unlink(a->in); unlink(a->out); }
}
/* slice n of actor a; grain 0: 7 slices, grain 1: 4 slices */
static const int NS[2] = { 7, 4 };
static int nslices(int kind, int grain) { return kind == 6 ? 4 : NS[grain]; }
static void slice(act_t* a, int grain) {
   int n = a->pc++; mcs_clear(&bz_trace); mcs_add(&a->tr, "|"); mc_trans(1);
   if(a->kind == 6) kslice(a, n);
   else if(grain == 0) switch(n) { case 0: create(a); break; case 1: mainrun(a); break; case 2: step(a); break; case 3: msgs(a); state(a); break; case 4: step(a); drain(a); break; case 5: step(a); msgs(a); drain(a); break; case 6: buzzvm_destroy(&a->vm); }
   else switch(n) { case 0: create(a); mainrun(a); break; case 1: step(a); msgs(a); drain(a); break; case 2: step(a); drain(a); break; case 3: buzzvm_destroy(&a->vm); }
   if(bz_trace.n) mcs_add(&a->tr, "%s", bz_trace.s);
}
static void init(act_t* a, int kind, int robot) { mcs_clear(&a->tr); a->kind = kind; a->robot = robot; a->pc = 0; a->vm = NULL; a->par = NULL; }
static char* solo_(int kind, int robot, int grain) { static struct { int k, r, g; char* s; } c[400]; static int n; for(int i = 0; i < n; ++i) if(c[i].k == kind && c[i].r == robot && c[i].g == grain) return c[i].s; static act_t a; init(&a, kind, robot); for(int i = 0; i < nslices(kind, grain); ++i) slice(&a, grain); c[n].k = kind; c[n].r = robot; c[n].g = grain; return c[n++].s = strdup(a.tr.s); }
static int verify(act_t* a, int grain) { char* s = solo_(a->kind, a->robot, grain); if(strcmp(s, a->tr.s)) { size_t p = 0; while(s[p] && s[p] == a->tr.s[p]) ++p; size_t b = p > 30 ? p - 30 : 0; mc_fail("interference", "program %d of robot %d: ...%.120s, alone ...%.120s", a->kind, a->robot, a->tr.s + b, s + b); return 0; } return 1; }
static act_t A[3];
static void pairs(int sameid) {
   for(int x = 0; x < NACT; ++x) for(int y = x; y < NACT; ++y) { int nx = nslices(x, 0), ny = nslices(y, 0);
      for(int m = 0; m < 1 << (nx + ny); ++m) { if(__builtin_popcount(m) != nx || !mc_next()) continue; mc_desc("programs %d and %d, schedule %x%s", x, y, m, sameid ? ", same robot id" : "");
         int rx = 11, ry = sameid && x != 6 ? 11 : 300; solo_(x, rx, 0); solo_(y, ry, 0); init(&A[0], x, rx); init(&A[1], y, ry); for(int i = 0; i < nx + ny; ++i) slice(&A[m >> i & 1 ? 0 : 1], 0); if(verify(&A[0], 0)) verify(&A[1], 0); mc_states(nx + ny); mc_traces(1); } }
}
static void triples(int max) {
   static const int TR[][3] = { { 0, 1, 5 }, { 1, 2, 3 }, { 4, 6, 2 }, { 1, 1, 1 }, { 0, 0, 3 }, { 5, 1, 4 } };
   for(int q = 0; q < max; ++q) { chooser_t K; memset(&K, 0, sizeof K); do { int left[3] = { 4, 4, 4 }, s[12]; for(int i = 0; i < 12; ++i) { int c = 0, opt[3]; for(int k = 0; k < 3; ++k) if(left[k]) opt[c++] = k; s[i] = opt[choose(&K, c)]; --left[s[i]]; }
      if(!mc_next()) continue; static mcs_t d; mcs_clear(&d); for(int i = 0; i < 12; ++i) mcs_add(&d, "%d", s[i]); mc_desc("programs %d %d %d, schedule %s", TR[q][0], TR[q][1], TR[q][2], d.s);
      for(int k = 0; k < 3; ++k) { solo_(TR[q][k], 20 + k, 1); init(&A[k], TR[q][k], 20 + k); } for(int i = 0; i < 12; ++i) slice(&A[s[i]], 1); for(int k = 0; k < 3; ++k) if(!verify(&A[k], 1)) break; mc_states(12); mc_traces(1); } while(advance(&K)); }
}
/* instruction granularity: each VM's main program, every schedule A^i B^j A* B* */
static int steps(act_t* a, int n) { int k = 0; mcs_clear(&bz_trace); while(n-- != 0 && a->vm->state == BUZZVM_STATE_READY) { buzzvm_step(a->vm); ++k; } if(bz_trace.n) mcs_add(&a->tr, "%s", bz_trace.s); return k; }
static void instr(int maxi) {
   static const int PX[] = { 1, 4, 2, 5, 3 };
   for(int x = 0; x < 5; ++x) for(int y = 0; y < 5; ++y) { char* ref[2] = { 0 }; int len[2];
      for(int i = 0; i < maxi; ++i) for(int j = 0; j < maxi; j += 3) { if(!mc_next()) continue; mc_desc("programs %d and %d, preempted after %d and %d instructions", PX[x], PX[y], i, j);
         if(!ref[0]) for(int k = 0; k < 2; ++k) { init(&A[k], PX[k ? y : x], 30 + k); create(&A[k]); len[k] = steps(&A[k], -1); state(&A[k]); ref[k] = strdup(A[k].tr.n ? A[k].tr.s : ""); buzzvm_destroy(&A[k].vm); }
         if(i >= len[0] || j >= len[1]) continue;
         for(int k = 0; k < 2; ++k) { init(&A[k], PX[k ? y : x], 30 + k); create(&A[k]); }
         steps(&A[0], i); steps(&A[1], j); steps(&A[0], -1); steps(&A[1], -1);
         for(int k = 0; k < 2; ++k) { state(&A[k]); if(strcmp(A[k].tr.s, ref[k])) { mc_fail("interference", "program %d: %.150s, alone %.150s", A[k].kind, A[k].tr.s, ref[k]); break; } }
         buzzvm_destroy(&A[i & 1].vm); buzzvm_destroy(&A[!(i & 1)].vm); mc_states(4); mc_traces(1); mc_trans(len[0] + len[1]); }
      free(ref[0]); free(ref[1]); }
}
/* many VMs at once, destroyed in several orders */
static void many(int n, int order) {
   if(!MC_CASE("%d VMs, destruction order %d", n, order)) return; act_t* v = calloc(n, sizeof *v);
   for(int i = 0; i < n; ++i) solo_(i % 6, 500 + i % 13, 0);
   for(int i = 0; i < n; ++i) init(&v[i], i % 6, 500 + i % 13); for(int s = 0; s < 6; ++s) for(int i = 0; i < n; ++i) slice(&v[s & 1 ? n - 1 - (i + s) % n : (i + s) % n], 0);
   for(int i = 0; i < n; ++i) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2 < n ? i * 2 : (i - (n + 1) / 2) * 2 + 1); slice(&v[k], 0); }
   for(int i = 0; i < n; ++i) if(v[i].pc != 7) mc_fail("harness", "slices"); else if(!verify(&v[i], 0)) break; for(int i = 0; i < n; ++i) mcs_free(&v[i].tr); free(v); mc_traces(1); mc_states(n);
}
void mc_run(void) {
   int t = mc_thorough; for(int i = 0; i < NSRC; ++i) if(bz_compile(SRC[i], &PR[i])) { mc_fail("compile", "program %d", i); exit(9); }
   if(MC_ASAN) { many(13, 0); many(19, 2); if(t) triples(1); return; }
   pairs(0); if(t) pairs(1); triples(t ? 6 : 1); instr(t ? 260 : 70); for(int o = 0; o < 3; ++o) for(int n = 2; n <= 41; n += 13) many(n, o);
}
