/* P16: swarm membership. (a) every history of create/join/leave/select/set operations in lockstep with reference sets and the
 * reference queue; (b) every set operation on every triple of swarms from every membership; (c) every nesting of swarm.exec with
 * membership changes inside. */
#define REXTRA \
   "function oth(i, k) { SW[k] = SW[i].others(k + 1) }\n" \
   "function sop(o, k, ij) { var i = ij / 4\n var j = ij % 4\n if(o == 0) SW[k] = swarm.union(k + 1, SW[i], SW[j])\n if(o == 1) SW[k] = swarm.intersection(k + 1, SW[i], SW[j])\n if(o == 2) SW[k] = swarm.difference(k + 1, SW[i], SW[j]) }\n" \
   "function exe(s) { var x = SW[s].exec(function() { t(\"X\", s, swarm.id())\n return s + 100 })\n t(\"R\", x, swarm.id()) }\n"
#include "rmodel.h"
const char* mc_name = "swarm";
static chooser_t K; static mcs_t ds;
static int isin(const rob_t* r, int s) { return r->swin >> s & 1; }
static void m_setm(rob_t* r, int k, int v) { int was = isin(r, k); r->swknown |= 1 << k; if(v) r->swin |= 1 << k; else r->swin &= ~(1 << k); if(v || was) r_swmsg(r, v, k); }
static int m_sop(const rob_t* r, int o, int i, int j) { int a = isin(r, i), b = isin(r, j); return o == 0 ? a || b : o == 1 ? a && b : a && !b; }
static int observe(pair_t* p, int ns, const char* what) {
   for(int s = 0; s < ns; ++s) if(p->m.swknown >> s & 1) {
      if(!p_call(p, "swin", 1, s, 0, 0)) return 0;
      if(strcmp(rres.s, isin(&p->m, s) ? "1" : "0")) { mc_fail("in", "after %s: in(%d) is %s", what, s + 1, rres.s); return 0; }
      mcs_clear(&bz_trace); mcs_clear(&rtr); int d = bz_depth(p->vm); if(isin(&p->m, s)) mcs_add(&rtr, "'X' %d %d;'R' %d nil;", s, s + 1, s + 100); else mcs_add(&rtr, "'R' nil nil;");
      if(!p_call(p, "exe", 1, s, 0, 0) || !p_same(p, what)) return 0;
      if(bz_depth(p->vm) != d) { mc_fail("stack", "exec leaves %d values", bz_depth(p->vm) - d); return 0; }
      mcs_clear(&bz_trace); mcs_clear(&rtr);
   }
   return 1;
}
/* op codes: 0-2 create, 3-5 join, 6-8 leave, 9-11 select(1), 12-14 select(0), 15.. others and set operations, last: host step, extract */
typedef struct { int o, k, i, j; } sop_t;
static const sop_t SO[] = { { 3, 2, 0, 0 }, { 3, 0, 0, 0 }, { 3, 0, 2, 0 }, { 0, 2, 0, 1 }, { 1, 2, 0, 1 }, { 2, 2, 0, 1 }, { 2, 2, 1, 0 }, { 0, 0, 0, 1 }, { 1, 0, 1, 2 }, { 2, 1, 1, 2 }, { 2, 0, 0, 0 } };
#define NSO 11
static void opname(int op, mcs_t* o) {
   static const char* b[] = { "create", "join", "leave", "select(1)", "select(0)" }; static const char* q[] = { "union", "intersection", "difference", "others" };
   if(op < 15) mcs_add(o, "%s %d; ", b[op / 3], op % 3 + 1); else if(op < 15 + NSO) { const sop_t* s = &SO[op - 15]; if(s->o == 3) mcs_add(o, "%d.others(%d); ", s->i + 1, s->k + 1); else mcs_add(o, "%d = %s(%d,%d); ", s->k + 1, q[s->o], s->i + 1, s->j + 1); } else mcs_add(o, op == 15 + NSO ? "process_outmsgs; " : "extract; ");
}
static int apply(pair_t* p, int op) {
   rob_t* r = &p->m; int s = op % 3;
   if(op < 3) return p_swcreate(p, s);
   if(op < 15) { if(!(r->swknown >> s & 1)) return 1; int in = op / 3 == 1 || op / 3 == 3; if(op < 9) return p_swjl(p, s, in); if(in) r->swin |= 1 << s; else r->swin &= ~(1 << s); r_swmsg(r, in, s); static const int32_t TRUE_[] = { 3, -1, 256, 65536 }; return p_call(p, "swsel", 2, s, in ? TRUE_[(s + r->swin) & 3] : 0, 0); }
   if(op < 15 + NSO) {
      const sop_t* q = &SO[op - 15]; if(!(r->swknown >> q->i & 1) || (q->o < 3 && !(r->swknown >> q->j & 1))) return 1;
      if(q->o == 3) { m_setm(r, q->k, !isin(r, q->i)); return p_call(p, "oth", 2, q->i, q->k, 0); }
      m_setm(r, q->k, m_sop(r, q->o, q->i, q->j)); return p_call(p, "sop", 3, q->o, q->k, q->i * 4 + q->j);
   }
   if(op == 15 + NSO) { p_out(p); return 1; }
   return p_extract(p, NULL, NULL) >= 0;
}
static void histories(int depth, int init, int pre) {
   memset(&K, 0, sizeof K);
   do {
      int seq[8]; for(int i = 0; i < depth; ++i) seq[i] = choose(&K, 17 + NSO);
      if(!mc_next()) continue;
      mcs_clear(&ds); mcs_add(&ds, "%s: ", init ? "swarms 1-3 exist" : "no swarm"); for(int i = 0; i < depth; ++i) opname(seq[i], &ds); mc_desc("%s", ds.s);
      pair_t p; p_new(&p, rid_of(seq, depth)); int ok = 1; if(init) for(int s = 0; s < 3; ++s) ok = ok && p_swcreate(&p, s);
      for(int i = 0; i < pre; ++i) p_out(&p);
      for(int i = 0; i < depth && ok; ++i) { ok = apply(&p, seq[i]) && p_same(&p, "operation"); mc_trans(1); }
      ok = ok && observe(&p, 3, "the last operation") && p_drain(&p);
      if(ok) mc_sample("%s", ds.s); p_free(&p); mc_states(depth + 1); mc_traces(1);
   } while(advance(&K));
}
static const int ID[] = { 1, 300, 65535, 7 };
/* (b): four swarms, every membership, every pair of consecutive set operations */
static void setops(void) {
   static mcs_t s, ex; static const char* N[] = { "union", "intersection", "difference" };
   for(int mem = 0; mem < 8; ++mem) for(int o1 = 0; o1 < 4; ++o1) for(int x = 0; x < 36; ++x) for(int o2 = -1; o2 < 4; ++o2) for(int y = 0; y < (o2 < 0 ? 1 : 64); ++y) {
      if(!mc_next()) continue;
      int in[4] = { mem & 1, mem >> 1 & 1, mem >> 2, 0 }, known4 = 0; mcs_clear(&s); mcs_clear(&ex);
      for(int i = 0; i < 3; ++i) mcs_add(&s, "S%d = swarm.create(%d)\nS%d.select(%d)\n", i, ID[i], i, in[i]);
      int bad = 0;
      for(int z = 0; z < 2; ++z) {
         int o = z ? o2 : o1, v = z ? y : x; if(o < 0) break;
         int k = z ? v % 4 : 3 - v / 9 % 4, i = z ? v / 4 % 4 : v % 3, j = z ? v / 16 : v / 3 % 3;
         if(((i == 3) || (o < 3 && j == 3)) && !known4) { bad = 1; break; }
         if(o == 3 && z && v / 16) { bad = 1; break; }
         int r = o == 0 ? in[i] || in[j] : o == 1 ? in[i] && in[j] : o == 2 ? in[i] && !in[j] : !in[i];
         if(o == 3) mcs_add(&s, "S%d = S%d.others(%d)\n", k, i, ID[k]); else mcs_add(&s, "S%d = swarm.%s(%d, S%d, S%d)\n", k, N[o], ID[k], i, j);
         in[k] = r; if(k == 3) known4 = 1;
      }
      if(bad) continue;
      for(int i = 0; i < 3 + known4; ++i) { mcs_add(&s, "t(S%d.in(), S%d.id)\nS%d.exec(function() { t(\"x\", swarm.id()) })\n", i, i, i); mcs_add(&ex, "%d %d;", in[i], ID[i]); if(in[i]) mcs_add(&ex, "'x' %d;", ID[i]); }
      mcs_add(&s, "t(swarm.id())\n"); mcs_add(&ex, "nil;");
      mc_desc("%s", s.s); bz_prog_t P; buzzvm_t vm = bz_script(s.s, &P, 5);
      if(!vm) { mc_fail("compile", "rejected"); continue; }
      if(vm->state != BUZZVM_STATE_DONE) mc_fail("script", "%s", vm->errormsg); else if(strcmp(bz_trace.s, ex.s)) mc_fail("setop", "saw %s expected %s", bz_trace.s, ex.s); else if(bz_depth(vm)) mc_fail("stack", "%d values left", bz_depth(vm));
      buzzvm_destroy(&vm); bz_prog_free(&P); mc_states(3); mc_trans(2); mc_traces(1);
   }
}
/* (c): nested exec; at each level an action before the nested call and the way the body ends */
static mcs_t src, ex; static int in_[3], stk[8], nstk, lev_s[4], lev_a[4], lev_r[4], nlev;
static void ids(mcs_t* o) { for(int q = 0; q <= 6; ++q) { int pos = q && q < 5 ? q : 1; if(!nstk) { mcs_add(o, " nil"); continue; } if(pos > nstk) pos = nstk; mcs_add(o, " %d", stk[nstk - pos]); } }
static void gen(int l, int viafn) {
   if(l == nlev) return;
   mcs_add(&src, "x%d = S%d.exec(function() {\n t(%d, swarm.id(), swarm.id(1), swarm.id(2), swarm.id(3), swarm.id(4), swarm.id(0), swarm.id(-7))\n", l, lev_s[l], l);
   int nx = l + 1 < nlev ? lev_s[l + 1] : 0;
   switch(lev_a[l]) { case 1: mcs_add(&src, " S%d.leave()\n", lev_s[l]); break; case 2: mcs_add(&src, " S%d.leave()\n", nx); break; case 3: mcs_add(&src, " S%d.join()\n", nx); break; }
   if(viafn && l + 1 < nlev) mcs_add(&src, " f%d()\n", l + 1); else gen(l + 1, viafn);
   mcs_add(&src, " t(\"after\", %d, swarm.id(), swarm.id(1), swarm.id(2), swarm.id(3), swarm.id(4), swarm.id(0), swarm.id(-7))\n", l);
   if(lev_r[l]) mcs_add(&src, " return %d\n", l + 10);
   mcs_add(&src, " })\n t(\"end\", %d, x%d, swarm.id(), swarm.id(1), swarm.id(2), swarm.id(3), swarm.id(4), swarm.id(0), swarm.id(-7))\n", l, l);
}
static void nests(int maxl) {
   for(nlev = 1; nlev <= maxl; ++nlev) for(int via = 0; via < 2; ++via) for(int mem = 0; mem < 8; ++mem) {
      memset(&K, 0, sizeof K);
      do {
         for(int l = 0; l < nlev; ++l) { lev_s[l] = choose(&K, 3); lev_a[l] = choose(&K, 4); lev_r[l] = choose(&K, 2); }
         if(!mc_next()) continue;
         mcs_clear(&src); for(int i = 0; i < 3; ++i) mcs_add(&src, "S%d = swarm.create(%d)\nS%d.select(%d)\n", i, ID[i], i, mem >> i & 1);
         if(via) for(int l = nlev - 1; l > 0; --l) { mcs_add(&src, "function f%d() {\n", l); int sv = nlev; gen(l, 1); nlev = sv; mcs_add(&src, "}\n"); }
         gen(0, via); mcs_add(&src, "t(swarm.id(), S0.in(), S1.in(), S2.in())\n");
         for(int i = 0; i < 3; ++i) in_[i] = mem >> i & 1; nstk = 0; mcs_clear(&ex);
         /* recursive reference */
         void m(int l) {
            if(l == nlev) return; int s = lev_s[l], member = in_[s];
            if(member) {
               stk[nstk++] = ID[s]; mcs_add(&ex, "%d", l); ids(&ex); mcs_add(&ex, ";");
               int nx = l + 1 < nlev ? lev_s[l + 1] : 0; if(lev_a[l] == 1) in_[s] = 0; if(lev_a[l] == 2) in_[nx] = 0; if(lev_a[l] == 3) in_[nx] = 1;
               m(l + 1); mcs_add(&ex, "'after' %d", l); ids(&ex); mcs_add(&ex, ";"); --nstk;
            }
            mcs_add(&ex, "'end' %d ", l); if(member && lev_r[l]) mcs_add(&ex, "%d", l + 10); else mcs_add(&ex, "nil"); ids(&ex); mcs_add(&ex, ";");
         }
         m(0); mcs_add(&ex, "nil %d %d %d;", in_[0], in_[1], in_[2]);
         mc_desc("%s", src.s); bz_prog_t P; buzzvm_t vm = bz_script(src.s, &P, 5);
         if(!vm) { mc_fail("compile", "rejected"); continue; }
         if(vm->state != BUZZVM_STATE_DONE) mc_fail("script", "%s", vm->errormsg); else if(strcmp(bz_trace.s, ex.s)) mc_fail("nesting", "saw %s expected %s", bz_trace.s, ex.s); else if(bz_depth(vm)) mc_fail("stack", "%d values left", bz_depth(vm));
         buzzvm_destroy(&vm); bz_prog_free(&P); mc_states(nlev + 1); mc_trans(nlev); mc_traces(1);
      } while(advance(&K));
   }
}
/* many swarms */
static void many(int n) {
   if(!MC_CASE("%d swarms, every third left again", n)) return;
   mcs_clear(&src); mcs_clear(&ex);
   mcs_add(&src, "S = {}\ni = 0\nwhile(i < %d) { S[i] = swarm.create(i * 7)\n S[i].join()\n i = i + 1 }\ni = 0\nwhile(i < %d) { S[i].leave()\n i = i + 3 }\ni = 0\nbad = 0\nwhile(i < %d) { if(S[i].in() != ((i %% 3) != 0)) bad = bad + 1\n i = i + 1 }\nt(bad)\n", n, n, n);
   bz_prog_t P; buzzvm_t vm = bz_script(src.s, &P, 5);
   if(!vm || vm->state != BUZZVM_STATE_DONE || strcmp(bz_trace.s, "0;")) mc_fail("many", "%s %s", vm ? bz_statename(vm) : "", bz_trace.n ? bz_trace.s : "");
   if(vm) { /* the periodic list names exactly the joined ones */
      for(int i = 0; i < 10; ++i) buzzvm_process_outmsgs(vm); bz_msgs_t m = {0}; bz_drain(vm, &m); int want = 0; for(int i = 0; i < n; ++i) want += i % 3 != 0;
      if(n && (m.n != 1 || m.m[0].d[0] != T_LIST || (m.m[0].d[1] << 8 | m.m[0].d[2]) != want || m.m[0].n != 3 + 2 * want)) mc_fail("list", "%d messages, expected one list of %d", m.n, want);
      else if(n) { char* seen = calloc(1, 65536); for(int i = 0; i < want; ++i) { int id = m.m[0].d[3 + 2 * i] << 8 | m.m[0].d[4 + 2 * i]; if(seen[id] || id % 7 || id / 7 >= n || id / 7 % 3 == 0) { mc_fail("list", "names swarm %d", id); break; } seen[id] = 1; } free(seen); }
      bz_msgs_free(&m); buzzvm_destroy(&vm); bz_prog_free(&P); }
   mc_traces(1);
}
void mc_run(void) {
   int t = mc_thorough;
   if(MC_ASAN) { for(int d = 0; d <= 2; ++d) { histories(d, 0, 9); histories(d, 1, 9); } nests(2); }
   else { histories(3, 0, 9); histories(t ? 4 : 3, 1, 9); if(t) histories(4, 0, 0); setops(); nests(t ? 4 : 3); }
   for(int n = 0; n <= (MC_ASAN ? 40 : 500); n += n < 40 ? 1 : 92) many(n);
}
