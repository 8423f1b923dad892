/* P11: the outgoing queue. Every sequence of message-producing operations, host steps, receptions and extractions is applied to
 * a real VM and to the reference queue; sizes agree after every operation and so does every extracted message. */
#include "rmodel.h"
const char* mc_name = "queue";
static chooser_t K; static mcs_t ds;
enum { O_B0, O_B1, O_P00, O_P01, O_P10, O_N00, O_G00, O_G01, O_G10, O_J0, O_L0, O_J1, O_L1, O_J2, O_L2, O_STEP, O_X, O_RP, O_RPT, O_RQU, O_RQN, O_CR, O_RB1, O_RB2, O_RB3, NOPS };
static const char* ON[] = { "broadcast a", "broadcast b", "put(A,1)", "put(A,k)", "put(B,1)", "put(A,1,nil)", "get(A,1)", "get(A,k)", "get(B,1)", "join 1", "leave 1", "join 2", "leave 2", "join 3", "leave 3", "process_outmsgs", "extract", "receive newer put(A,1)", "receive equal put(A,1)", "receive query of unknown (A,'1')", "receive old query (A,1)", "create A again", "relay query (B,1) v1", "relay query (B,1) v2", "relay query (B,1) v3" };
static int apply(pair_t* p, int op, int i) {
   rmsg_t m; memset(&m, 0, sizeof m); rent_t* e = &p->m.e[0][0];
   switch(op) {
      case O_B0: return p_bc(p, 0, 10 + i); case O_B1: return p_bc(p, 1, 20 + i);
      case O_P00: return p_put(p, 0, 0, 30 + i); case O_P01: return p_put(p, 0, 1, 40 + i); case O_P10: return p_put(p, 1, 0, 50 + i); case O_N00: return p_put(p, 0, 0, 0);
      case O_G00: return p_get(p, 0, 0); case O_G01: return p_get(p, 0, 1); case O_G10: return p_get(p, 1, 0);
      case O_J0: case O_L0: return p_swjl(p, 0, op == O_J0); case O_J1: case O_L1: return p_swjl(p, 1, op == O_J1); case O_J2: case O_L2: return p_swjl(p, 2, op == O_J2);
      case O_STEP: p_out(p); return 1;
      case O_X: return p_extract(p, NULL, NULL) >= 0;
      case O_RP: m.t = T_PUT; m.ts = e->ts + 2; m.val = 60 + i; m.rob = 9; p_recv(p, &m, 9); return 1;
      case O_RPT: m.t = T_PUT; m.ts = e->ts ? e->ts : 1; m.val = 70 + i; m.rob = i & 1 ? 9 : 2; p_recv(p, &m, 9); return 1;
      case O_RQU: m.t = T_QUERY; m.key = 2; m.rob = 9; p_recv(p, &m, 9); return 1;
      case O_RQN: m.t = T_QUERY; m.rob = 9; p_recv(p, &m, 9); return 1;
      case O_CR: return p_create(p, 0);
      case O_RB1: case O_RB2: case O_RB3: m.t = T_QUERY; m.vs = 1; m.ts = op - O_RB1 + 1; m.val = 80 + i; m.rob = 7 + (i & 1); p_recv(p, &m, 9); return 1;
   }
   return 0;
}
static void explore(const int* ops, int nops, int depth, int pre) {
   memset(&K, 0, sizeof K);
   do {
      int seq[12], n = 0; for(; n < depth; ++n) seq[n] = ops[choose(&K, nops)];
      if(mc_next()) {
         mcs_clear(&ds); mcs_add(&ds, "pre=%d", pre); for(int i = 0; i < n; ++i) mcs_add(&ds, "; %s", ON[seq[i]]); mc_desc("%s", ds.s);
         pair_t p; p_new(&p, rid_of(seq, n)); p_create(&p, 0); if(pre >= 0) p_create(&p, 1); for(int s = 0; s < 3; ++s) p_swcreate(&p, s);
         for(int i = 0; i < pre; ++i) p_out(&p);
         int ok = 1; for(int i = 0; i < n && ok; ++i) { ok = apply(&p, seq[i], i) && p_same(&p, ON[seq[i]]); mc_trans(1); }
         if(ok) ok = p_drain(&p);
         mc_states(n + 1); mc_traces(1); if(ok) mc_sample("%s", ds.s);
         p_free(&p);
      }
   } while(advance(&K));
}
/* ---- order and content in bulk, snapshots of mutable values ---- */
static void bulk(int kind, int n) {
   if(!MC_CASE("bulk kind %d of %d", kind, n)) return;
   static const char* src =
      "v = stigmergy.create(7)\n"
      "function b(n) { var i = 0\n while(i < n) { neighbors.broadcast(\"a\", i)\n i = i + 1 } }\n"
      "function p(n) { var i = 0\n while(i < n) { v.put(i, i * 2)\n i = i + 1 } }\n"
      "function g(n) { var i = 0\n while(i < n) { v.get(i)\n i = i + 1 } }\n"
      "function j(n) { var i = 0\n while(i < n) { swarm.create(i).join()\n i = i + 1 } }\n"
      "function m(n) { var x = { .k = 1, .u = { .w = 1 } }\n var i = 0\n while(i < n) { x.k = i\n x.u.w = i\n neighbors.broadcast(\"a\", x)\n x.u.w = 99 \n i = i + 1 }\n x.k = 99 }\n"
      "function q(n) { var x = { .k = 1, .u = { .w = 1 } }\n var i = 0\n while(i < n) { x.k = i\n x.u.w = i\n v.put(i, x)\n x.u.w = 99 \n i = i + 1 }\n x.k = 99 }\n";
   bz_prog_t P; if(bz_compile(src, &P)) { mc_fail("compile", "bulk"); return; }
   buzzvm_t vm = bz_vm(4, &P); bz_exec(vm, 10000); vm->state = BUZZVM_STATE_READY;
   static const char* F[] = { "b", "p", "g", "j", "m", "q" }; static const int T[] = { T_BC, T_PUT, T_QUERY, T_JOIN, T_BC, T_PUT };
   buzzvm_pushi(vm, n); if(buzzvm_function_call(vm, F[kind], 1) != BUZZVM_STATE_READY) { mc_fail("script", "%s", vm->errormsg); return; }
   buzzvm_pop(vm);
   if(buzzoutmsg_queue_size(vm) != n) mc_fail("queue-size", "%u messages pending, expected %d", buzzoutmsg_queue_size(vm), n);
   for(int i = 0; i < n; ++i) {
      buzzmsg_payload_t m = buzzoutmsg_queue_first(vm); if(!m) { mc_fail("lost-message", "message %d", i); break; }
      uint8_t e[64]; int l = 0;
#define B8(x) e[l++] = (x)
#define BI(x) B8(1), B8(0), B8(0), B8((x) >> 8), B8((x) & 255)
      B8(T[kind]);
      switch(T[kind]) {
         case T_BC: B8(3); B8(0); B8(1); B8('a'); if(kind == 0) BI(i); break;
         case T_PUT: case T_QUERY: B8(0); B8(7); BI(i); if(kind == 1) { BI(i * 2); B8(0); B8(1); B8(0); B8(4); } if(kind == 2) { B8(0); B8(0); B8(0); B8(0); B8(4); } break;
         case T_JOIN: B8(i >> 8); B8(i & 255); break;
      }
      if(kind < 4) { if(buzzmsg_payload_size(m) != l || memcmp(m->data, e, l)) mc_fail("message", "message %d differs", i); }
      else {   /* table value: decode with a second VM and look at the fields */
         if(buzzmsg_payload_size(m) < l || memcmp(m->data, e, l)) mc_fail("message", "message %d starts differently", i);
         buzzvm_t o = buzzvm_new(1); buzzobj_t v; int64_t pos = buzzobj_deserialize(&v, m, l, o); mcs_t a = {0}, b = {0};
         if(pos < 0) mc_fail("message", "message %d cannot be decoded", i); else { bz_repr(&a, v, 4); mcs_add(&b, "{'k'=%d,'u'={'w'=%d}}", i, i); if(strcmp(a.s, b.s)) mc_fail("snapshot", "message %d carries %s, expected %s", i, a.s, b.s); }
         buzzvm_destroy(&o); mcs_free(&a); mcs_free(&b);
      }
      buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(vm); mc_trans(1);
      if(mc_case_failed()) break;
   }
   if(!mc_case_failed() && !buzzoutmsg_queue_isempty(vm)) mc_fail("extra-message", "queue not empty");
   if(buzzoutmsg_queue_isempty(vm) && buzzoutmsg_queue_first(vm)) mc_fail("empty", "first of an empty queue");
   buzzvm_destroy(&vm); bz_prog_free(&P); mc_traces(1);
}
void mc_run(void) {
   static const int all[] = { O_B0, O_B1, O_P00, O_P01, O_P10, O_N00, O_G00, O_G01, O_J0, O_L0, O_J1, O_L1, O_STEP, O_X, O_RP, O_RPT, O_RQU, O_RQN };
   static const int vs[] = { O_P00, O_P01, O_N00, O_G00, O_G01, O_G10, O_X, O_RP, O_RPT, O_RQU, O_RQN };
   static const int sw[] = { O_J0, O_L0, O_J1, O_L1, O_J2, O_L2, O_STEP, O_X };
   static const int rl[] = { O_P00, O_G00, O_CR, O_X, O_RP, O_RB1, O_RB2, O_RB3 };
   int t = mc_thorough;
   if(MC_ASAN) { for(int d = 0; d <= (t ? 4 : 3); ++d) explore(all, 18, d, 9); explore(sw, 8, t ? 5 : 4, 9); explore(vs, 11, t ? 5 : 4, 0); explore(rl, 8, t ? 5 : 4, -1); }
   else { explore(all, 18, t ? 5 : 4, 9); explore(all, 18, 4, 0); explore(vs, 11, t ? 6 : 5, 0); explore(sw, 8, t ? 7 : 6, 9); explore(sw, 8, t ? 6 : 5, 0); explore(sw, 8, t ? 6 : 5, 8); explore(rl, 8, t ? 6 : 5, -1); }
   for(int k = 0; k < 6; ++k) for(int n = 0; n <= (MC_ASAN ? 40 : 300); n += n < 24 ? 1 : 23) bulk(k, n);
}
