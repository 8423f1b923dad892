/* P19: broadcasts and listeners. Every history of listen/ignore/broadcast and of message arrivals (one or several per step), with
 * listeners that broadcast, ignore, listen and write, on a real VM against a reference. */
#define REXTRA \
   "function lk(tp, k, n) { neighbors.listen(TOP[tp], function(a, b, c) { t(n, a, b, c)\n" \
   " if(k == 2) neighbors.broadcast(\"c\", b)\n if(k == 3) neighbors.ignore(a)\n if(k == 4) lk(1 - tp, 1, n + 50)\n if(k == 5) put(0, 0, 7)\n if(k == 6) lk(tp, 1, n + 50)\n" \
   " if(k == 7) { neighbors.broadcast(a, 4)\n neighbors.ignore(a)\n neighbors.ignore(TOP[1 - tp])\n neighbors.broadcast(\"b\", nil) } }) }\n"
#include "rmodel.h"
const char* mc_name = "listen";
static chooser_t K; static mcs_t ds;
static int lk[NTOP], ln[NTOP];          /* current listener of each topic: kind and number */
typedef struct { int tp, val, from; } arr_t;
static arr_t pend[8]; static int npend;
static void m_arrive(pair_t* p, const arr_t* a) {
   int k = lk[a->tp], n = ln[a->tp]; if(!k) return; rob_t* r = &p->m;
   mcs_add(&rtr, "%d '%s' ", n, RTOP[a->tp]); rval(&rtr, a->val); mcs_add(&rtr, " %d;", a->from);
   rmsg_t m; memset(&m, 0, sizeof m); m.t = T_BC;
   switch(k) {
      case 2: m.vs = 2; m.val = a->val; rq_add(&r->bc, m); break;
      case 3: lk[a->tp] = 0; break;
      case 4: lk[1 - a->tp] = 1; ln[1 - a->tp] = n + 50; break;
      case 5: r_put(r, 0, 0, 7); break;
      case 6: lk[a->tp] = 1; ln[a->tp] = n + 50; break;
      case 7: m.vs = a->tp; m.val = 4; rq_add(&r->bc, m); lk[0] = lk[1] = 0; m.vs = 1; m.val = 0; rq_add(&r->bc, m); break;
   }
}
static int process(pair_t* p, const char* what) {
   mcs_clear(&bz_trace); mcs_clear(&rtr); int d = bz_depth(p->vm);
   buzzvm_process_inmsgs(p->vm); for(int i = 0; i < npend; ++i) m_arrive(p, &pend[i]); npend = 0;
   if(bz_depth(p->vm) != d) { mc_fail("stack", "%d values left after %s", bz_depth(p->vm) - d, what); return 0; }
   return p_same(p, what) && p_store(p, what);
}
static void arrive(pair_t* p, int tp, int val, int from) {
   uint8_t b[64]; rmsg_t m; memset(&m, 0, sizeof m); m.t = T_BC; m.vs = tp; m.val = val; bz_msg_t x = { b, (uint32_t)w_enc(b, &m) }; bz_deliver(p->vm, from, &x);
   pend[npend].tp = tp; pend[npend].val = val; pend[npend++].from = from;
}
static void explore(int depth, int kinds) {
   memset(&K, 0, sizeof K); static const int FR[] = { 7, 65535 };
   do {
      int nops = 2 * kinds + 2 + 4 + 2 + 1, seq[8]; for(int i = 0; i < depth; ++i) seq[i] = choose(&K, nops);
      if(!mc_next()) continue;
      mcs_clear(&ds); npend = 0; memset(lk, 0, sizeof lk);
      for(int i = 0; i < depth; ++i) { int o = seq[i]; if(o < 2 * kinds) mcs_add(&ds, "listen %s kind %d; ", RTOP[o & 1], o / 2 + 1); else if((o -= 2 * kinds) < 2) mcs_add(&ds, "ignore %s; ", RTOP[o]); else if((o -= 2) < 4) mcs_add(&ds, "receive %s from %d; ", RTOP[o & 1], FR[o / 2]); else if((o -= 4) < 2) mcs_add(&ds, "queue %s; ", RTOP[o]); else mcs_add(&ds, "broadcast a; "); }
      mc_desc("%s", ds.s);
      pair_t p; p_new(&p, rid_of(seq, depth)); p_create(&p, 0); int ok = 1;
      for(int i = 0; i < depth && ok; ++i) {
         int o = seq[i]; mcs_clear(&bz_trace); mcs_clear(&rtr); mc_trans(1);
         if(o < 2 * kinds) { lk[o & 1] = o / 2 + 1; ln[o & 1] = 10 + i; ok = p_call(&p, "lk", 3, o & 1, o / 2 + 1, 10 + i); }
         else if((o -= 2 * kinds) < 2) { lk[o] = 0; ok = p_call(&p, "ign", 1, o, 0, 0); }
         else if((o -= 2) < 4) { if(npend && pend[0].from != FR[o / 2]) ok = process(&p, "earlier messages"); if(ok) { arrive(&p, o & 1, (i * 2 + 1) % 6, FR[o / 2]); ok = process(&p, "reception"); } }
         else if((o -= 4) < 2) { if(npend && pend[0].from != 7) ok = process(&p, "earlier messages"); if(ok) arrive(&p, o, i + 1, 7); }
         else ok = p_bc(&p, 0, 20 + i);
         ok = ok && p_same(&p, "operation");
      }
      if(ok) ok = process(&p, "final step") && process(&p, "idle step") && p_drain(&p);
      if(ok) { arrive(&p, 0, 5, 3); arrive(&p, 1, 4, 3); arrive(&p, 2, 3, 3); ok = process(&p, "probe") && p_drain(&p); }
      if(ok) mc_sample("%s", ds.s);
      p_free(&p); mc_states(depth + 1); mc_traces(1);
   } while(advance(&K));
}
/* two robots: what one broadcasts is what the other's listener gets, for many topics and values */
static void pairwise(int n, int rev) {
   if(!MC_CASE("%d topics, %s", n, rev ? "ignored in reverse" : "kept")) return;
   static mcs_t s, ex; mcs_clear(&s); mcs_clear(&ex);
   mcs_add(&s, "function send(n) { var i = 0\n while(i < n) { neighbors.broadcast(string.concat(\"t\", string.tostring(i)), { .v = i, .s = string.tostring(i) })\n i = i + 1 } }\n"
      "function lst(n) { var i = 0\n while(i < n) { var j = i\n neighbors.listen(string.concat(\"t\", string.tostring(i)), function(tp, v, r) { t(j, tp, v.v, v.s, r) })\n i = i + 1 } }\n"
      "function ign(n) { var i = n - 1\n while(i >= 0) { neighbors.ignore(string.concat(\"t\", string.tostring(i)))\n i = i - 2 } }\n");
   bz_prog_t P; if(bz_compile(s.s, &P)) { mc_fail("compile", "script"); return; }
   buzzvm_t a = bz_vm(1, &P), b = bz_vm(2, &P); buzzvm_t v[2] = { a, b };
   for(int i = 0; i < 2; ++i) { bz_exec(v[i], 10000); v[i]->state = BUZZVM_STATE_READY; }
   for(int i = 0; i < 3; ++i) { buzzvm_pushi(b, 0); buzzvm_pop(b); }
   buzzvm_pushi(a, n); buzzvm_function_call(a, "send", 1); buzzvm_pop(a);
   buzzvm_pushi(b, n); buzzvm_function_call(b, "lst", 1); buzzvm_pop(b);
   if(rev) { buzzvm_pushi(b, n); buzzvm_function_call(b, "ign", 1); buzzvm_pop(b); }
   mcs_clear(&bz_trace); bz_msgs_t m = {0}; bz_drain(a, &m); for(int i = 0; i < m.n; ++i) bz_deliver(b, 1, &m.m[i]);
   buzzvm_process_inmsgs(b); if(m.n != n) mc_fail("messages", "%d broadcasts, expected %d", m.n, n);
   for(int i = 0; i < n; ++i) if(!rev || (n - 1 - i) % 2) mcs_add(&ex, "%d 't%d' %d '%d' 1;", i, i, i, i);
   if(a->state != BUZZVM_STATE_READY || b->state != BUZZVM_STATE_READY) mc_fail("state", "%s %s", bz_statename(a), bz_statename(b));
   if(strcmp(bz_trace.n ? bz_trace.s : "", ex.n ? ex.s : "")) mc_fail("pairwise", "listeners saw [%s] expected [%s]", bz_trace.n ? bz_trace.s : "", ex.n ? ex.s : "");
   bz_msgs_free(&m); buzzvm_destroy(&a); buzzvm_destroy(&b); bz_prog_free(&P); mc_traces(1); mc_trans(n);
}
/* every kind of value on every kind of topic: the listener gets the value as it was when broadcast, whatever the sender does to it before the message leaves */
static void kinds(void) {
   static const char* V[] = { "nil", "0", "-1", "2147483647", "-70000", "0.5", "-2.25", "0.0", "\"\"", "\"s\"", "\"two words, 'quoted'\"", "{}", "{ .k = 1 }", "{ .k = { .k = { .k = \"deep\" } }, .f = 1.5 }", "{ .0 = 1, .1 = \"x\" }", "{ .k = nil, .z = {} }", "fg", "{ .k = fg }" };
   static const char* T[] = { "a", "", "a topic", "0", "LONG" };
   static const char* M[] = { "", "x.k = 99\n", "x.k = nil\nx.w = 5\n", "if(x.k != nil) { x.k.k = 98 }\n", "x = 4\n", "neighbors.broadcast(\"other\", x)\n" };
   static mcs_t s; char lt[300]; memset(lt, 'l', 280); lt[280] = 0;
   for(int v = 0; v < (int)(sizeof V / sizeof *V); ++v) for(int tp = 0; tp < 5; ++tp) for(int m = 0; m < 6; ++m) for(int g = 0; g < 2; ++g) {
      if((m == 1 || m == 2) && !(v >= 11 && v <= 15) && v != 17) continue;
      if(m == 3 && v != 13) continue;
      if(!MC_CASE("value %s, topic %d, then [%s]%s", V[v], tp, M[m], g ? ", collections" : "")) continue;
      const char* top = tp == 4 ? lt : T[tp];
      mcs_clear(&s); mcs_add(&s, "function fg(a) { return a }\nfunction show() { t(%s) }\nfunction go() { var x = %s\nneighbors.broadcast(\"%s\", x)\n%s }\nfunction lst() { neighbors.listen(\"%s\", function(tp, v, r) { t(v)\nt(tp, r) })\nneighbors.listen(\"x%s\", function(tp, v, r) { t(\"wrong\") }) }\n", V[v], V[v], top, M[m], top, top);
      bz_prog_t P; if(bz_compile(s.s, &P)) { mc_fail("compile", "script"); continue; }
      buzzvm_t w[3]; for(int i = 0; i < 3; ++i) { w[i] = bz_vm(300 * i + 7, &P); bz_exec(w[i], 10000); w[i]->state = BUZZVM_STATE_READY; }
      mcs_t want = {0}; mcs_clear(&bz_trace); buzzvm_function_call(w[0], "show", 0); buzzvm_pop(w[0]); mcs_add(&want, "%s'%s' 307;", bz_trace.s, top);
      for(int i = 0; i < 3; ++i) { buzzvm_function_call(w[i], "lst", 0); buzzvm_pop(w[i]); }
      buzzvm_function_call(w[1], "go", 0); buzzvm_pop(w[1]);
      if(g) for(int i = 0; i < 3; ++i) { w[i]->heap->max_objs = 0; buzzheap_gc(w[i]); }
      bz_msgs_t q = {0}; bz_drain(w[1], &q);
      if(q.n != 1 + (m == 5)) mc_fail("messages", "%d messages", q.n);
      for(int i = 0; i < 3; ++i) {
         mcs_clear(&bz_trace); if(i != 1) for(int j = 0; j < q.n; ++j) bz_deliver(w[i], 307, &q.m[j]);
         if(g) { w[i]->heap->max_objs = 0; buzzheap_gc(w[i]); }
         buzzvm_process_inmsgs(w[i]);
         const char* e = i == 1 ? "" : want.s; if(w[i]->state != BUZZVM_STATE_READY) mc_fail("state", "robot %d: %s", i, w[i]->errormsg ? w[i]->errormsg : "");
         else if(strcmp(bz_trace.n ? bz_trace.s : "", e)) mc_fail("value", "robot %d: listener saw [%s], expected [%s]", i, bz_trace.n ? bz_trace.s : "", e);
      }
      for(int i = 0; i < 3; ++i) buzzvm_destroy(&w[i]);
      bz_msgs_free(&q); bz_prog_free(&P); mcs_free(&want); mc_traces(1); mc_trans(3); mc_states(3);
   }
}
void mc_run(void) {
   int t = mc_thorough;
   kinds();
   if(MC_ASAN) { for(int d = 0; d <= 2; ++d) explore(d, 7); explore(3, 7); }
   else { explore(4, 7); if(t) explore(5, 7); else explore(5, 1); }
   for(int n = 0; n <= (MC_ASAN ? 40 : 320); n += n < 40 ? 1 : 40) for(int r = 0; r < 2; ++r) pairwise(n, r);
}
