/* P13: a stigmergy on one robot. (a) every history of create/put/nil put/get/foreach over two stigmergies, in lockstep with the
 * reference store; (b) every history of puts and removals over keys of all types and values of all types. */
#include "rmodel.h"
const char* mc_name = "vstig";
static chooser_t K; static mcs_t ds;
enum { V_P00, V_P01, V_P02, V_P03, V_N00, V_N01, V_P10, V_P11, V_N10, V_G00, V_G01, V_G10, V_C0, V_C1, V_E0, V_X, V_R, NV };
static const char* VN[] = { "put(A,1)", "put(A,'k')", "put(A,'1')", "put(A,2.5)", "put(A,1,nil)", "put(A,'k',nil)", "put(B,1)", "put(B,'k')", "put(B,1,nil)", "get(A,1)", "get(A,'k')", "get(B,1)", "create A", "create B", "foreach(A) writing", "extract", "receive newer put(A,1) of robot 9" };
/* sorts the parts of a trace, because the order of visits is not specified */
static int scmp(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static void sorted(mcs_t* s) {
   if(!s->n) return; char* c = strdup(s->s); char* pt[64]; int n = 0;
   for(char* q = strtok(c, ";"); q && n < 64; q = strtok(NULL, ";")) pt[n++] = q;
   qsort(pt, n, sizeof *pt, scmp); mcs_clear(s); for(int i = 0; i < n; ++i) mcs_add(s, "%s;", pt[i]); free(c);
}
static void m_each(const rob_t* r, int v, int mut, rob_t* w) {
   rob_t snap = *r;
   for(int k = 0; k < NKEY; ++k) if(snap.e[v][k].known && snap.e[v][k].val) {
      mcs_add(&rtr, "'E' %s ", RKEY[k]); rval(&rtr, snap.e[v][k].val); mcs_add(&rtr, " %d;", snap.e[v][k].rob);
      if(mut) { r_put(w, v, 3, 90); r_put(w, v, 0, 0); }
   }
}
static int observe(pair_t* p, const char* what) {
   for(int v = 0; v < NVS; ++v) {
      int n = 0; for(int k = 0; k < NKEY; ++k) if(p->m.e[v][k].known && p->m.e[v][k].val) ++n;
      if(!p_call(p, "vsize", 1, v, 0, 0)) return 0;
      mcs_clear(&lk_a); mcs_add(&lk_a, "%d", n); if(strcmp(rres.s, lk_a.s)) { mc_fail("size", "after %s: size of %d is %s, expected %d", what, RVS[v], rres.s, n); return 0; }
      mcs_clear(&bz_trace); mcs_clear(&rtr); m_each(&p->m, v, 0, NULL);
      if(!p_call(p, "veach", 1, v, 0, 0)) return 0;
      sorted(&bz_trace); sorted(&rtr); if(!p_same(p, what)) return 0;
      mcs_clear(&bz_trace); mcs_clear(&rtr);
   }
   return p_same(p, what) && p_store(p, what);
}
static int vapply(pair_t* p, int op, int i) {
   switch(op) {
      case V_P00: case V_P01: case V_P02: case V_P03: return p_put(p, 0, op - V_P00, 30 + i);
      case V_N00: case V_N01: return p_put(p, 0, op - V_N00, 0);
      case V_P10: case V_P11: return p_put(p, 1, op - V_P10, 50 + i); case V_N10: return p_put(p, 1, 0, 0);
      case V_G00: case V_G01: return p_get(p, 0, op - V_G00); case V_G10: return p_get(p, 1, 0);
      case V_C0: case V_C1: return p_create(p, op - V_C0);
      case V_R: { rmsg_t m = { .t = T_PUT, .ts = p->m.e[0][0].ts + 1, .val = 70 + i, .rob = 9 }; p_recv(p, &m, 8); return 1; }
      case V_X: return p_extract(p, NULL, NULL) >= 0;
      case V_E0: { mcs_clear(&bz_trace); mcs_clear(&rtr); m_each(&p->m, 0, 1, &p->m); int r = p_call(p, "veachmut", 1, 0, 0, 0); sorted(&bz_trace); sorted(&rtr); return r; }
   }
   return 0;
}
static void histories(int depth) {
   memset(&K, 0, sizeof K);
   do {
      int seq[12]; for(int i = 0; i < depth; ++i) seq[i] = choose(&K, NV);
      if(mc_next()) {
         mcs_clear(&ds); for(int i = 0; i < depth; ++i) mcs_add(&ds, "%s; ", VN[seq[i]]); mc_desc("%s", ds.s);
         pair_t p; p_new(&p, rid_of(seq, depth)); p_create(&p, 0); p_create(&p, 1); int ok = 1;
         for(int i = 0; i < depth && ok; ++i) { ok = vapply(&p, seq[i], i) && p_same(&p, VN[seq[i]]); if(ok) { mcs_clear(&bz_trace); mcs_clear(&rtr); if(i >= depth - 2) ok = observe(&p, VN[seq[i]]); } mc_trans(1); }
         for(int v = 0; v < 2 && ok; ++v) for(int k = 0; k < NKEY && ok; ++k) ok = p_get(&p, v, k);
         if(ok) ok = p_drain(&p);
         mc_states(depth + 1); mc_traces(1); if(ok) mc_sample("%s", ds.s); p_free(&p);
      }
   } while(advance(&K));
}
/* ---- (b) key and value types ---- */
typedef struct { int t; double n; const char* s; const char* lit; } vk_t;   /* t: 0 number, 1 string */
static const vk_t KEYS[] = { { 0, 1, 0, "1" }, { 0, 11, 0, "11" }, { 0, 21, 0, "21" }, { 0, 1, 0, "1.0" }, { 0, 1.5, 0, "1.5" }, { 0, -1, 0, "-1" }, { 0, 0, 0, "0" }, { 1, 0, "1", "\"1\"" }, { 1, 0, "", "\"\"" }, { 1, 0, "a", "\"a\"" }, { 1, 0, "b", "string.concat(\"\", \"b\")" }, { 0, 65537, 0, "65537" }, { 0, -1.5, 0, "-1.5" }, { 0, -10, 0, "-10" }, { 0, -10, 0, "-10.0" } };
#define NKEYS 15
static const char* VALS[] = { "7", "-3", "2.5", "\"s\"", "\"\"", "{ .k = 1 }", "{ .k = { .j = \"x\" } }", "0", "0.0", "f" };
static const char* VREP[] = { "7", "-3", "f2.5", "'s'", "''", "{'k'=1}", "{'k'={'j'='x'}}", "0", "f0", "fn" };
#define NVALS 10
static void krep(mcs_t* o, const vk_t* k) { if(k->t) mcs_add(o, "'%s'", k->s); else mcs_add(o, "%g", k->n); }
static mcs_t ets; static int nets;
static int host_e(buzzvm_t vm) {
   buzzobj_t k = buzzdarray_get(vm->lsyms->syms, 1, buzzobj_t); mcs_t s = {0};
   if(k->o.type == BUZZTYPE_STRING) mcs_add(&s, "'%s'", k->s.value.str); else if(k->o.type == BUZZTYPE_INT) mcs_add(&s, "%d", k->i.value); else if(k->o.type == BUZZTYPE_FLOAT) mcs_add(&s, "%g", k->f.value); else mcs_add(&s, "?");
   mcs_add(&s, "="); bz_repr(&s, buzzdarray_get(vm->lsyms->syms, 2, buzzobj_t), 4); mcs_add(&s, "@"); bz_repr(&s, buzzdarray_get(vm->lsyms->syms, 3, buzzobj_t), 1);
   mcs_add(&ets, "%s;", s.s); mcs_free(&s); ++nets; return buzzvm_ret0(vm);
}
static int same(const vk_t* a, const vk_t* b) { return a->t == b->t && (a->t ? !strcmp(a->s, b->s) : a->n == b->n); }
static void types(int depth, int nk, int nv) {
   memset(&K, 0, sizeof K); static mcs_t s, ex, e2;
   do {
      int k[8], v[8]; for(int i = 0; i < depth; ++i) { k[i] = choose(&K, nk); v[i] = choose(&K, nv + 1); }
      if(!mc_next()) continue;
      mcs_clear(&s); mcs_add(&s, "function f(x) { return x }\nV = stigmergy.create(9)\n");
      const vk_t* mk[8]; int mv[8], ver[8], n = 0, msgs = 0;
      for(int i = 0; i < depth; ++i) {
         mcs_add(&s, "V.put(%s, %s)\n", KEYS[k[i]].lit, v[i] == nv ? "nil" : VALS[v[i]]);
         int j = 0; while(j < n && !same(mk[j], &KEYS[k[i]])) ++j;
         if(j == n) { if(v[i] != nv) { mk[n] = &KEYS[k[i]]; mv[n] = v[i]; ver[n++] = 1; } } else if(v[i] != nv || mv[j] != nv) { mv[j] = v[i]; ver[j]++; }
      }
      mcs_clear(&ex); mcs_clear(&e2); int live = 0; msgs = n;
      for(int j = 0; j < n; ++j) if(mv[j] != nv) { ++live; krep(&e2, mk[j]); mcs_add(&e2, "=%s@%d;", VREP[mv[j]], rid_of(k, depth)); }
      mcs_add(&ex, "%d;", live); mcs_add(&s, "t(V.size())\nV.foreach(function(k, x, r) { e(k, x, r) })\n");
      for(int q = 0; q < nk; ++q) { int j = 0; while(j < n && !same(mk[j], &KEYS[q])) ++j; mcs_add(&s, "t(V.get(%s))\n", KEYS[q].lit); mcs_add(&ex, "%s;", j < n && mv[j] != nv ? VREP[mv[j]] : "nil"); if(j == n) { int z = 0; while(z < q && !same(&KEYS[z], &KEYS[q])) ++z; if(z == q) ++msgs; } }
      mc_desc("%s", s.s); mcs_clear(&ets); mcs_clear(&bz_trace); nets = 0;
      bz_prog_t P; if(bz_compile(s.s, &P)) { mc_fail("compile", "rejected"); continue; }
      buzzvm_t vm = bz_vm(rid_of(k, depth), &P); bz_reg(vm, "e", host_e);
      if(bz_exec(vm, 100000) != BUZZVM_STATE_DONE) mc_fail("script", "%s", vm->errormsg);
      else {
         if(strcmp(bz_trace.s, ex.s)) mc_fail("get", "size and gets [%s], expected [%s]", bz_trace.s, ex.s);
         sorted(&ets); sorted(&e2); if(nets != live || (live && strcmp(ets.s, e2.s))) mc_fail("foreach", "visits [%s], expected [%s]", nets ? ets.s : "", live ? e2.s : "");
         if(buzzoutmsg_queue_size(vm) != msgs) mc_fail("messages", "%u pending, expected %d", buzzoutmsg_queue_size(vm), msgs);
      }
      buzzvm_destroy(&vm); bz_prog_free(&P); mc_states(depth + 1); mc_trans(depth + nk); mc_traces(1);
   } while(advance(&K));
}
/* ---- many entries ---- */
static void many(int n, int step) {
   if(!MC_CASE("%d entries, every %d-th removed, then overwritten", n, step)) return;
   static mcs_t s; mcs_clear(&s);
   mcs_add(&s, "V = stigmergy.create(1)\nW = stigmergy.create(257)\ni = 0\nwhile(i < %d) { V.put(i, i + 1)\n V.put(string.tostring(i), i + 1000)\n W.put(i, -i)\n i = i + 1 }\n"
      "t(V.size(), W.size())\ni = 0\nwhile(i < %d) { V.put(i, nil)\n i = i + %d }\nt(V.size(), W.size())\ni = 0\nbad = 0\nwhile(i < %d) { if((i %% %d) == 0) { if(V.get(i) != nil) bad = bad + 1 } else { if(V.get(i) != i + 1) bad = bad + 1 }\n if(V.get(string.tostring(i)) != i + 1000) bad = bad + 1\n if(W.get(i) != -i) bad = bad + 1\n i = i + 1 }\n"
      "n = 0\nsum = 0\nV.foreach(function(k, v, r) { n = n + 1\n sum = sum + v })\nt(bad, n, sum)\n", n, n, step, n, step);
   int rem = n ? (n + step - 1) / step : 0; long sum = 0; for(int i = 0; i < n; ++i) { sum += i + 1000; if(i % step) sum += i + 1; }
   mcs_clear(&ds); mcs_add(&ds, "%d %d;%d %d;0 %d %ld;", 2 * n, n, 2 * n - rem, n, 2 * n - rem, sum);
   bz_prog_t P; buzzvm_t vm = bz_script(s.s, &P, 3);
   if(!vm || vm->state != BUZZVM_STATE_DONE) mc_fail("script", "%s", vm ? vm->errormsg : "compile"); else if(strcmp(bz_trace.s, ds.s)) mc_fail("many", "got %s expected %s", bz_trace.s, ds.s);
   if(vm) { buzzvm_destroy(&vm); bz_prog_free(&P); } mc_traces(1);
}
void mc_run(void) {
   int t = mc_thorough;
   if(MC_ASAN) { for(int d = 0; d <= 3; ++d) histories(d); types(2, NKEYS, NVALS); }
   else { histories(t ? 5 : 4); types(3, NKEYS, 1); types(t ? 3 : 2, NKEYS, NVALS); if(t) types(4, 9, 1); }
   for(int n = 0; n < 60; n += 7) for(int s = 1; s < 4; ++s) many(n, s);
}
