/* LDFLAGS: -Wl,--wrap=buzzheap_gc */
/* P05: garbage collection is invisible and reclaims garbage.
 * The program offers operations that touch every kind of root; every sequence of operations up to a
 * depth is run with no collection at all, with a collection at every instruction, and with a single
 * collection at each instruction in turn; what the script reports, the messages it sends and the
 * final state must be the same, and no freed object may be touched (AddressSanitizer). The fast
 * build repeats every operation and pair of operations many times and requires the heap, the string
 * table and the process memory to stop growing. */
#include "bz.h"
#include <malloc.h>
#include <unistd.h>
const char* mc_name = "gc";
extern void __real_buzzheap_gc(buzzvm_t vm);
static int mode;            /* 0 never, 1 every instruction, 2 only at point k, 3 natural, 4: at k and k+d */
static uint64_t point, at, at2, ngc;
void __wrap_buzzheap_gc(buzzvm_t vm) {
   uint64_t p = point++;
   if(mode == 0) return;
   if(mode == 3) { __real_buzzheap_gc(vm); return; }
   if(mode == 1 || p == at || (mode == 4 && p == at2)) { ++ngc; vm->heap->max_objs = 0; __real_buzzheap_gc(vm); }
}
#define NL "\n"
static const char* SRC =
"n = 0" NL
"G = {}" NL
"vs = stigmergy.create(1)" NL
"vc = stigmergy.create(2)" NL
"sw = swarm.create(1)" NL
"function dyn(p) { n = n + 1; return string.concat(p, string.tostring(n)) }" NL
"function mk(s) { var loc = {.s = s, .d = dyn(\"cap\")}; return function(x) { return {.x = x, .l = loc, .self = 1} } }" NL
/* strings kept in globals, tables and as keys */
"function op0() { G.s = dyn(\"s\"); var u = dyn(\"loc\"); t(G.s, u, string.concat(u, G.s)) }" NL
/* nested tables */
"function op1() { var x = {.a = {.b = {.c = dyn(\"c\")}}}; G.x = x; x.a.b.e = {.1 = 1, .2 = 2}; x[dyn(\"key\")] = dyn(\"val\"); t(x); t(G.x.a) }" NL
/* garbage cycles and a kept cycle */
"function op2() { var a = {}; var b = {.a = a, .s = dyn(\"cy\")}; a.b = b; if(n % 2 == 0) { G.cy = a }; if(G.cy != nil) { t(G.cy.b.a.b.s, size(G.cy)) } }" NL
/* closures with captured values, stored as method and global */
"function op3() { G.f = mk(dyn(\"arg\")); h = mk({.in = dyn(\"in\")}); t(h(1)) }" NL
"function op4() { if(G.f != nil) { t(G.f(dyn(\"p\"))) }; if(h != nil) { t(h({.q = dyn(\"q\")})) } }" NL
/* iteration functions with callbacks that allocate and drop their parameters */
"function op5() { var x = {.k1 = dyn(\"v\"), .k2 = {.z = dyn(\"w\")}, .k3 = 3};" NL
"  foreach(x, function(k, v) { G[k] = v; k = nil; v = nil; var j = {.j = dyn(\"j\")}; j = nil });" NL
"  t(map(x, function(k, v) { var r = {.r = v, .k = dyn(\"m\")}; v = nil; k = nil; return r }));" NL
"  t(reduce(x, function(k, v, a) { return {.p = a, .n = dyn(\"red\")} }, {}));" NL
"  t(filter(x, function(k, v) { var d = dyn(\"fl\"); return d != k })) }" NL
/* stigmergy entries, keys and values of all kinds */
"function op6() { vs.put(dyn(\"vk\"), {.v = dyn(\"vv\"), .t = {.u = n}}); vs.put(\"fix\", dyn(\"fv\")); vs.put({.a = n}, 1.5); vs.put(\"tmp\", {.a = dyn(\"tt\")}); vs.put(\"tmp\", nil) }" NL
"function op7() { t(vs.get(\"fix\"), vs.size()); vs.foreach(function(k, v, r) { k = nil; var s = dyn(\"fe\"); if(G.acc == nil) { G.acc = {} }; G.acc[s] = 1; t2(v); }); t(vs.get(string.concat(\"vk\", \"2\"))) }" NL
/* listeners on dynamic topics */
"function op8() { var c = dyn(\"cl\"); neighbors.listen(\"topic\", function(tp, v, r) { G.got = {.v = v, .c = c, .tp = tp}; tp = nil; v = nil; var j = {.j = dyn(\"lj\")}; j = nil; t(G.got, r) }); neighbors.listen(string.concat(\"to\", \"p2\"), mk2) }" NL
"function mk2(tp, v, r) { tp = string.concat(tp, dyn(\"x\")); G.got2 = v; t(tp, v, r) }" NL
"function op9() { neighbors.broadcast(string.concat(\"to\", string.tostring(n)), {.d = dyn(\"b\"), .t = {.1 = 1, .2 = 2.5}}); neighbors.broadcast(\"x\", dyn(\"bv\")) }" NL
/* swarms */
"function op10() { sw.join(); sw.exec(function() { var s = {.s = dyn(\"sw\")}; G.sw = s; var s2 = swarm.create(7); s2.join(); s2.exec(function() { t(swarm.id(), G.sw, dyn(\"in\")) }); t(swarm.id(), s) }); var u = swarm.union(9, sw, swarm.create(3)); t(u.in()) }" NL
/* neighbors */
"function op11() { var c = 0; neighbors.foreach(function(r, d) { r = nil; var j = dyn(\"nf\"); G.nd = d; d = nil; j = nil }); t(G.nd);" NL
"  var m = neighbors.map(function(r, d) { return {.d = d.distance, .s = dyn(\"nm\")} }); t(m.count(), m.get(3)); var q = m.filter(function(r, d) { var j = {.j = dyn(\"nq\")}; return r != 2 });" NL
"  t(q.count(), q.get(3)); t(neighbors.reduce(function(r, d, a) { return {.a = a, .r = r} }, {}));" NL
"  G.kin = neighbors.kin(); t(G.kin.count()); G.q = q }" NL
"function op12() { if(G.q != nil) { t(G.q.get(3), G.kin.get(1)) } }" NL
/* copies */
"function op13() { var x = {.a = {.b = dyn(\"o\")}}; G.c = clone(x); x.a.b = nil; x = nil; t(G.c) }" NL
/* temporaries on the stack while calls allocate */
"function three(a, b, c) { var d = dyn(\"th\"); return {.a = a, .b = b, .c = c, .d = d} }" NL
"function op14() { t({.k = dyn(\"e1\"), .m = three(dyn(\"a1\"), {.z = dyn(\"z1\")}, three(1, dyn(\"b1\"), 2))}, dyn(\"e2\"), string.concat(dyn(\"c1\"), string.concat(dyn(\"c2\"), dyn(\"c3\")))) }" NL
/* conflict managers that drop their parameters */
"function op15() { vc.put(dyn2(), {.mine = dyn(\"my\")}); var e = dyn(\"cc\");" NL
"  vc.onconflict(function(k, l, r) { var w = {.robot = l.robot, .data = {.o = l.data, .n = dyn(\"cf\"), .e = e}, .timestamp = l.timestamp}; if(r.robot > 7) { w.robot = r.robot }; t(k, l, r); k = nil; l = nil; r = nil; var j = {.j = dyn(\"cj\")}; j = nil; return w });" NL
"  vc.onconflictlost(function(k, l) { t(k, l); k = nil; l = nil; var j = {.j = dyn(\"lj\")}; j = nil; G.lost = dyn(\"lost\") }) }" NL
"function dyn2() { return string.concat(\"ck\", string.tostring(3)) }" NL
"function op16() { t(vc.get(\"ck3\"), G.lost) }" NL
/* called by the host with arguments */
"function op17(a, b) { var s = dyn(\"h\"); G.a = a; a = nil; var r = {.b = b, .s = s}; b = nil; var j = {.j = dyn(\"hj\")}; j = nil; return r }" NL
/* everything live is dropped */
"function op18() { G = {}; h = nil; neighbors.ignore(\"topic\"); neighbors.ignore(string.concat(\"to\", \"p2\")); vs = stigmergy.create(1) }" NL
/* table of functions calling each other through self */
"function op19() { var o = {.v = dyn(\"ov\")}; o.get = function() { var j = {.j = dyn(\"oj\")}; j = nil; return self }; o.set = function(x) { self.v = x; return self.get() }; G.o = o; t(o.set(dyn(\"nv\")).v); o = nil; t(G.o.get().v) }" NL
/* lines of a file */
"function op20() { var f = io.fopen(FNAME, \"r\"); io.fforeach(f, function(l) { var k = string.concat(l, dyn(\"ln\")); G.l = k; l = nil; var j = {.j = k}; j = nil }); io.fclose(f); t(G.l); t(string.tofloat(\"1.5\"), string.sub(G.l, 0, 2)) }" NL
"function final() { t(G); t(vs.size()); vs.foreach(function(k, v, r) { t2(k, v, r) }); t(n) }" NL
;
/* host operations: 21 deliver broadcast, 22 deliver stigmergy put with new key, 23 conflicting put (loses / wins), 24 drain messages, 25 query */
#define NOPS 26
static bz_prog_t prog; static int compiled;
static bz_msg_t m_topic, m_put, m_conf[2], m_query, m_top2;
static int t2cnt; static uint64_t t2sum;
static int t2f(buzzvm_t vm) {   /* order independent record */
   mcs_t o = {0};
   for(int i = 1; i < buzzdarray_size(vm->lsyms->syms); ++i) { bz_repr(&o, buzzdarray_get(vm->lsyms->syms, i, buzzobj_t), 6); mcs_add(&o, " "); }
   t2sum += mc_hash(o.s, o.n); t2cnt++;
   mcs_free(&o);
   return buzzvm_ret0(vm);
}
static void setup_msgs(void) {
   /* messages made by a real robot */
   static const char* S =
   "neighbors.broadcast(\"topic\", {.a = \"remote\", .b = {.1 = 1, .2 = 2}})" NL;
   bz_prog_t p; buzzvm_t vm; bz_msgs_t o = {0};
   mode = 0;
   const char* srcs[] = { S, "x = stigmergy.create(1)\nx.put(\"rk\", {.r = \"rv\"})\n", "x = stigmergy.create(2)\nx.put(\"ck3\", {.their = \"tv\"})\n",
                          "x = stigmergy.create(1)\nx.get(\"rk\")\n", "neighbors.broadcast(\"top2\", {.a = \"r2\"})\n" };
   int robots[] = { 3, 3, 3, 3, 3 };
   for(int i = 0; i < 5; ++i) for(int j = 0; j < (i == 2 ? 2 : 1); ++j) {
      vm = bz_script(srcs[i], &p, i == 2 ? (j ? 9 : 3) : robots[i]);
      o.n = 0; bz_drain(vm, &o);
      bz_msg_t m = o.m[0];
      if(i == 0) m_topic = m; else if(i == 1) m_put = m; else if(i == 2) m_conf[j] = m; else if(i == 3) m_query = m; else m_top2 = m;
      buzzvm_destroy(&vm); bz_prog_free(&p);
   }
   free(o.m);
}
static void prepare(void) {
   if(compiled) return;
   compiled = 1;
   mode = 0;
   setup_msgs();
   if(bz_compile(SRC, &prog) != 0) { fprintf(stderr, "program does not compile\n"); exit(9); }
   char f[300]; snprintf(f, sizeof f, "%s/lines", mc_tmp);
   FILE* x = fopen(f, "w"); fputs("one\ntwo\nthree", x); fclose(x);
}
static buzzvm_t start(void) {
   mcs_clear(&bz_trace); point = 0; t2sum = 0; t2cnt = 0;
   buzzvm_t vm = bz_vm(5, &prog);
   bz_reg(vm, "t2", t2f);
   char f[300]; snprintf(f, sizeof f, "%s/lines", mc_tmp);
   buzzvm_pushs(vm, buzzvm_string_register(vm, "FNAME", 1)); buzzvm_pushs(vm, buzzvm_string_register(vm, f, 0)); buzzvm_gstore(vm);
   bz_exec(vm, 100000);
   if(vm->state == BUZZVM_STATE_DONE) vm->state = BUZZVM_STATE_READY;
   buzzneighbors_reset(vm);
   buzzneighbors_add(vm, 1, 10.f, 0.5f, 0.f); buzzneighbors_add(vm, 2, 20.f, 0.25f, 1.f); buzzneighbors_add(vm, 3, 30.f, 0.f, 0.f);
   return vm;
}
static void drain(buzzvm_t vm) {
   bz_msgs_t o = {0}; bz_collect(vm, &o);
   mcs_add(&bz_trace, "M%d:", o.n);
   for(int i = 0; i < o.n; ++i) mcs_add(&bz_trace, "%llx,", (unsigned long long)mc_hash(o.m[i].d, o.m[i].n));
   bz_msgs_free(&o);
}
static void doop(buzzvm_t vm, int op) {
   mcs_add(&bz_trace, "\n%d:", op);
   if(vm->state != BUZZVM_STATE_READY) return;
   if(op == 17) {
      char b[40]; static int c; snprintf(b, sizeof b, "host%d", op);
      buzzvm_pushs(vm, buzzvm_string_register(vm, b, 0)); 
      buzzobj_t tb = buzzheap_newobj(vm, BUZZTYPE_TABLE); buzzvm_push(vm, tb);
      buzzvm_push(vm, tb); buzzvm_pushs(vm, buzzvm_string_register(vm, "hk", 0)); buzzvm_pushf(vm, 2.5f); buzzvm_tput(vm);
      if(buzzvm_function_call(vm, "op17", 2) == BUZZVM_STATE_READY) { bz_repr(&bz_trace, buzzvm_stack_at(vm, 1), 5); buzzvm_pop(vm); }
      (void)c;
   }
   else if(op < 21) { char f[16]; snprintf(f, sizeof f, "op%d", op); if(buzzvm_function_call(vm, f, 0) == BUZZVM_STATE_READY) buzzvm_pop(vm); }
   else if(op == 21) { bz_deliver(vm, 3, &m_topic); bz_deliver(vm, 2, &m_top2); buzzvm_process_inmsgs(vm); }
   else if(op == 22) { bz_deliver(vm, 3, &m_put); buzzvm_process_inmsgs(vm); }
   else if(op == 23) { bz_deliver(vm, 3, &m_conf[0]); bz_deliver(vm, 9, &m_conf[1]); buzzvm_process_inmsgs(vm); }
   else if(op == 24) drain(vm);
   else if(op == 25) { bz_deliver(vm, 3, &m_query); buzzvm_process_inmsgs(vm); }
   if(vm->state != BUZZVM_STATE_READY) mcs_add(&bz_trace, "[%s]", buzzvm_strerror(vm));
   mcs_add(&bz_trace, "<%d>", bz_depth(vm));
}
static void run(const int* seq, int n, mcs_t* out) {
   buzzvm_t vm = start();
   for(int i = 0; i < n; ++i) doop(vm, seq[i]);
   drain(vm);
   if(vm->state == BUZZVM_STATE_READY && buzzvm_function_call(vm, "final", 0) == BUZZVM_STATE_READY) buzzvm_pop(vm);
   if(vm->state != BUZZVM_STATE_READY) mcs_add(&bz_trace, "[%s]", buzzvm_strerror(vm));
   drain(vm);
   mcs_add(&bz_trace, "|%d %llx", t2cnt, (unsigned long long)t2sum);
   buzzvm_destroy(&vm);
   mcs_clear(out); mcs_add(out, "%s", bz_trace.s);
   mc_trans(point);
}
static char* seqs(const int* s, int n) { static char b[128]; b[0] = 0; for(int i = 0; i < n; ++i) sprintf(b + strlen(b), "%d ", s[i]); return b; }
static int first_diff(const char* a, const char* b) { int i = 0; while(a[i] && a[i] == b[i]) ++i; return i; }
static mcs_t base, other;
static void compare(const char* what, const int* s, int n) {
   run(s, n, &other); mc_states(1); mc_traces(1);
   if(strcmp(base.s, other.s)) { int d = first_diff(base.s, other.s); d = d > 60 ? d - 60 : 0;
      mc_fail("gc-changes-result", "collection %s at %llu,%llu: without <<%.300s>> with <<%.300s>>", what, (unsigned long long)at, (unsigned long long)at2, base.s + d, other.s + d); }
}
static uint64_t placed;
static void explore(const int* s, int n, int single) {
   prepare();
   mode = 0; run(s, n, &base);
   if(strstr(base.s, "[type") || strstr(base.s, "[stack")) { mc_fail("op-error", "operation fails without collection: %.600s", base.s); return; }
   uint64_t N = point;
   mode = 1; compare("everywhere", s, n); placed += N;
   mode = 3; compare("natural", s, n);
   if(single) {
      mode = 2;
      for(at = 0; at < N && !mc_case_failed(); ++at) { at2 = 0; compare("once", s, n); ++placed; }
   }
   if(single > 1) {
      mode = 4;
      for(at = 0; at < N && !mc_case_failed(); ++at) for(at2 = at + 1; at2 <= at + single && at2 < N; ++at2) { compare("twice", s, n); placed += 2; }
   }
   mc_sample("operations %s: %llu instructions, traces equal for every placement; trace %.700s", seqs(s, n), (unsigned long long)N, base.s);
   mc_note("collections placed", placed); placed = 0;
}
/* ---------- bounded memory (fast build) ---------- */
static void boundedness(const int* s, int n) {
   prepare(); mode = 3;
   size_t before = 0;
   for(int rep = 0; rep < 2; ++rep) {
      if(rep == 1) before = mallinfo2().uordblks;
      buzzvm_t vm = start();
      int64_t objs[3], fl[3]; size_t mem[3]; uint32_t strs[3]; int64_t peak[3] = {0};
      for(int w = 0; w < 3; ++w) {
         for(int r = 0; r < 60; ++r) {
            for(int i = 0; i < n; ++i) { doop(vm, s[i]); int64_t k = buzzdarray_size(vm->heap->objs); if(k > peak[w]) peak[w] = k; }
            doop(vm, 18); doop(vm, 24);
            /* counters and versions wrap around so that the live data is bounded */
            buzzvm_pushs(vm, buzzvm_string_register(vm, "n", 1)); buzzvm_pushi(vm, 0); buzzvm_gstore(vm);
            if(vm->state != BUZZVM_STATE_READY) { mc_fail("op-error", "%s", buzzvm_strerror(vm)); buzzvm_destroy(&vm); return; }
         }
         /* a collection now */
         mode = 1; doop(vm, 18); mode = 3;
         objs[w] = buzzdarray_size(vm->heap->objs); strs[w] = buzzdict_size(vm->strings->str2id); fl[w] = buzzdarray_size(vm->flist);
         mcs_free(&bz_trace); mem[w] = mallinfo2().uordblks;
      }
      mc_trans(point);
      if(objs[2] > objs[1] || peak[2] > 2 * peak[1] + 64) mc_fail("heap-grows", "live objects after 60/120/180 rounds: %lld %lld %lld, peaks %lld %lld %lld", (long long)objs[0], (long long)objs[1], (long long)objs[2], (long long)peak[0], (long long)peak[1], (long long)peak[2]);
      if(strs[2] > strs[1]) mc_fail("strings-grow", "strings after 60/120/180 rounds: %u %u %u", strs[0], strs[1], strs[2]);
      if(fl[2] > fl[1]) mc_fail("functions-grow", "registered functions: %lld %lld %lld", (long long)fl[0], (long long)fl[1], (long long)fl[2]);
      /* the heap array keeps its capacity: allow its slack, growth by leaks would be larger */
      if(mem[2] > mem[1] + 512) mc_fail("memory-grows", "bytes in use: %zu %zu %zu", mem[0], mem[1], mem[2]);
      buzzvm_destroy(&vm);
      mcs_free(&bz_trace); mcs_free(&base); mcs_free(&other);
      mc_states(1); mc_traces(1);
   }
   size_t after = mallinfo2().uordblks;
   if(after > before + 64) mc_fail("memory-leak", "destroying the VM leaves %zu bytes allocated", after - before);
}
/* garbage of every shape made in a loop by a script without host help */
static void loops(void) {
   static const char* G[] = {
      "x = {.a = {.b = i}}", "x = {}\nx.self = x", "a = {}\nb = {.a = a}\na.b = b", "x = string.concat(\"s\", string.tostring(i))",
      "x = function() { return i }", "f = mkf(i)\nf()", "x = {.1 = 1, .2 = 2, .3 = 3}\nforeach(x, function(k, v) { y = {.k = k, .v = v} })", "x = map({.1 = 1, .2 = 2}, function(k, v) { return {.v = v} })",
      "x = clone({.a = {.b = {.c = i}}})", "vs.put(\"k\", {.i = i})", "vs.put(string.concat(\"k\", string.tostring(i % 5)), string.tostring(i))", "x = vs.get(\"k\")", "neighbors.listen(\"a\", function(t, v, r) { return i })",
      "x = swarm.create(1)\nx.join()", "sw.exec(function() { x = {.i = i} })", "x = neighbors.map(function(r, d) { return {.d = d} })", "x = neighbors.kin()", "x = i * 2.5 + 1",
      "vs.onconflict(function(k, l, r) { return l })", "x = stigmergy.create(3)\nx.put(\"a\", i)", "x = reduce({.1 = 1, .2 = 2}, function(k, v, a) { return {.a = v} }, 0)", "x = filter({.1 = 1, .2 = 2}, function(k, v) { return v > 1 })",
      "x = string.sub(string.concat(\"abcdef\", string.tostring(i)), 1, 4)", "x = math.sqrt(i) + math.abs(i)", "o = {}\no.f = function() { return self }\nx = o.f()", "x = math.rng.uniform(10)",
   };
   for(int i = 0; i < (int)(sizeof G / sizeof *G); ++i) for(int infun = 0; infun < 2; ++infun) {
      if(!mc_next()) continue;
      mcs_t s = {0};
      mcs_add(&s, "vs = stigmergy.create(1)\nsw = swarm.create(2)\nsw.join()\nfunction mkf(q) { var z = {.q = q}; return function() { return z } }\nfunction round(i) { %s\n}\ni = 0\n", infun ? "var x = nil" : "");
      mcs_t s2 = {0}; mcs_add(&s2, "%.*s", (int)(strstr(s.s, "function round") - s.s), s.s);
      mcs_add(&s2, "function round(i) { %s\n%s\n}\ni = 0\nwhile(i < 3000) { round(i)\n if(i == 1000) { m() }\n if(i == 2000) { m() }\n i = i + 1 }\nm()\n", infun ? "var x = nil" : "", G[i]);
      mcs_free(&s);
      mc_desc("garbage loop: %s", G[i]);
      mode = 3; bz_prog_t p;
      if(bz_compile(s2.s, &p) != 0) { mc_fail("compile", "does not compile: %s", s2.s); mcs_free(&s2); continue; }
      extern int mfun(buzzvm_t);
      buzzvm_t vm = bz_vm(1, &p);
      extern int64_t m_objs[8], m_mem[8], m_strs[8]; extern int m_n; m_n = 0;
      bz_reg(vm, "m", mfun);
      bz_exec(vm, 2000000);
      if(vm->state != BUZZVM_STATE_DONE || m_n != 3) mc_fail("op-error", "%s %s", bz_statename(vm), buzzvm_strerror(vm));
      else {
         /* between collections garbage up to the live size accumulates: compare after a collection */
         if(m_objs[2] > m_objs[1] + 2) mc_fail("heap-grows", "objects alive after 1000/2000/3000 rounds: %lld %lld %lld", (long long)m_objs[0], (long long)m_objs[1], (long long)m_objs[2]);
         if(m_strs[2] > m_strs[1] + 2) mc_fail("strings-grow", "strings: %lld %lld %lld", (long long)m_strs[0], (long long)m_strs[1], (long long)m_strs[2]);
         if(m_mem[2] > m_mem[1] + 4096) mc_fail("memory-grows", "bytes: %lld %lld %lld", (long long)m_mem[0], (long long)m_mem[1], (long long)m_mem[2]);
      }
      buzzvm_destroy(&vm); bz_prog_free(&p); mcs_free(&s2);
      mc_states(1); mc_traces(1);
   }
}
int64_t m_objs[8], m_mem[8], m_strs[8]; int m_n;
int mfun(buzzvm_t vm) {
   bz_msgs_t o = {0}; bz_drain(vm, &o); bz_msgs_free(&o);
   vm->heap->max_objs = 0; __real_buzzheap_gc(vm);
   if(m_n < 8) { m_objs[m_n] = buzzdarray_size(vm->heap->objs); m_strs[m_n] = buzzdict_size(vm->strings->str2id); m_mem[m_n] = mallinfo2().uordblks; ++m_n; }
   return buzzvm_ret0(vm);
}
void mc_run(void) {
   int s[5];
   mc_timeout(300);
   if(!MC_ASAN) {
      mode = 3; loops();
      for(s[0] = 0; s[0] < NOPS; ++s[0]) { if(s[0] == 18) continue; if(MC_CASE("bounded memory, repeating operations %s", seqs(s, 1))) boundedness(s, 1); }
      for(s[0] = 0; s[0] < NOPS; ++s[0]) for(s[1] = 0; s[1] < NOPS; ++s[1]) { if(s[0] == 18 || s[1] == 18) continue; if(MC_CASE("bounded memory, repeating operations %s", seqs(s, 2))) boundedness(s, 2); }
      /* all triples, collections everywhere and natural */
      for(s[0] = 0; s[0] < NOPS; ++s[0]) for(s[1] = 0; s[1] < NOPS; ++s[1]) for(s[2] = 0; s[2] < NOPS; ++s[2])
         if(MC_CASE("operations %s", seqs(s, 3))) explore(s, 3, mc_thorough);
      return;
   }
   for(s[0] = 0; s[0] < NOPS; ++s[0]) if(MC_CASE("operations %s", seqs(s, 1))) explore(s, 1, mc_thorough ? 64 : 2);
   for(s[0] = 0; s[0] < NOPS; ++s[0]) for(s[1] = 0; s[1] < NOPS; ++s[1]) if(MC_CASE("operations %s", seqs(s, 2))) explore(s, 2, mc_thorough);
   /* operations that matter only after others: setter, collector-visible action, observer */
   static const int mid[] = { 0, 5, 11, 18, 21, 22, 23, 24 };
   for(s[0] = 0; s[0] < NOPS; ++s[0]) for(int j = 0; j < 8; ++j) for(s[2] = 0; s[2] < NOPS; ++s[2]) { s[1] = mid[j]; if(MC_CASE("operations %s", seqs(s, 3))) explore(s, 3, mc_thorough); }
}
