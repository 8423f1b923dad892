/* P17: what a robot knows about its neighbors' swarms.
 * (a) every sequence of membership messages and idle periods around the expiry boundary, against a reference table
 * (b) two real robots: every short history of the sender's swarm operations, every loss pattern, every phase of the periodic
 *     announcement; after one period of normal delivery the receiver knows the membership exactly */
#define REXTRA \
   "R = {}\nfunction kin(s, r) { if(size(R) == 0) { var i = 0\n while(i < 3) { R[i] = swarm.create(i + 1)\n R[i].join()\n i = i + 1 } }\n" \
   " R[s].exec(function() { var a = neighbors.kin().get(r)\n var b = neighbors.nonkin().get(r)\n kk = (a != nil)\n nn = (b != nil) })\n return kk + 10 * nn }\n"
#include "rmodel.h"
const char* mc_name = "members";
#define NR 2
static const uint16_t RID[NR] = { 7, 300 };
typedef struct { int known, set, age; } mem_t;
static chooser_t K;
/* operations: message kinds for robot 0, a few for robot 1, idle periods */
enum { O_L0, O_L1, O_L12, O_L2, O_J1, O_J2, O_V1, O_V2, O_BAD, O_Y1, O_YV1, O_YL, O_T1, O_T48, O_T49, O_T50, O_T51, O_N };
static const char* ON[O_N] = { "X:list{}", "X:list{1}", "X:list{1,2}", "X:list{2}", "X:join1", "X:join2", "X:leave1", "X:leave2", "X:short", "Y:join1", "Y:leave1", "Y:list{1}", "step", "48 steps", "49 steps", "50 steps", "51 steps" };
static int compare(buzzvm_t vm, const mem_t* m, const char* w) {
   for(int r = 0; r < NR; ++r) for(int s = 1; s <= 3; ++s) {
      int a = buzzswarm_members_isrobotin(vm->swarmmembers, RID[r], s), b = m[r].known && (m[r].set >> s & 1);
      if(!a != !b) { mc_fail("membership", "after %s: robot %d %s regarded as member of swarm %d, expected %s (age %d)", w, RID[r], a ? "is" : "is not", s, b ? "member" : "no member", m[r].age); return 0; }
   }
   return 1;
}
static void tick(buzzvm_t vm, mem_t* m) { buzzvm_process_inmsgs(vm); for(int r = 0; r < NR; ++r) if(m[r].known && ++m[r].age > 50) memset(&m[r], 0, sizeof m[r]); mc_trans(1); }
static void recv1(buzzvm_t vm, mem_t* m, int op) {
   int r = op >= O_Y1 && op <= O_YL; rmsg_t x = { 0 }; uint8_t b[16]; bz_msg_t w = { b, 0 };
   switch(op) {
      case O_L0: case O_L1: case O_L12: case O_L2: case O_YL: { static const int st[] = { 0, 1, 3, 2 }; x.t = T_LIST; x.set = op == O_YL ? 1 : st[op]; m[r].known = 1; m[r].set = x.set << 1; m[r].age = 0; break; }
      case O_J1: case O_J2: case O_Y1: { x.t = T_JOIN; x.vs = op == O_J2; m[r].set = m[r].known ? m[r].set : 0; m[r].known = 1; m[r].set |= 2 << x.vs; m[r].age = 0; break; }
      case O_V1: case O_V2: case O_YV1: { x.t = T_LEAVE; x.vs = op == O_V2; if(m[r].known) { m[r].set &= ~(2 << x.vs); m[r].age = 0; if(!m[r].set) memset(&m[r], 0, sizeof m[r]); } break; }
   }
   if(op == O_BAD) { memcpy(b, "\x01\x00\x02\x00\x03\x00", 6); w.n = 6; } else w.n = w_enc(b, &x);
   bz_deliver(vm, RID[r], &w);
}
/* nd operations; batch: consecutive messages are processed in one step */
static void sequences(int nd, int batch, int small) {
   static const int SM[] = { O_L0, O_L1, O_L12, O_L2, O_J1, O_J2, O_V1, O_V2, O_Y1, O_T49, O_T50 };
   memset(&K, 0, sizeof K);
   do {
      int op[8]; for(int i = 0; i < nd; ++i) op[i] = small ? SM[choose(&K, 11)] : choose(&K, O_N);
      if(batch) { int any = 0; for(int i = 1; i < nd; ++i) any |= op[i] <= O_YL && op[i - 1] <= O_YL; if(!any) continue; }
      if(!mc_next()) continue;
      mcs_clear(&lk_b); for(int i = 0; i < nd; ++i) mcs_add(&lk_b, "%s; ", ON[op[i]]); mc_desc("%s%s", batch ? "batched: " : "", lk_b.s);
      static buzzvm_t vm; if(!vm) vm = real_new(5);
      /* the VM is reused: its knowledge starts empty in each case because the previous case let it expire */
      mem_t m[NR] = {{0}}; int ok = 1;
      for(int i = 0; ok && i < nd; ++i) {
         if(op[i] >= O_T1) { int n = op[i] == O_T1 ? 1 : 48 + op[i] - O_T48; for(int k = 0; ok && k < n; ++k) { tick(vm, m); if(k + 4 >= n) ok = compare(vm, m, ON[op[i]]); } continue; }
         recv1(vm, m, op[i]);
         if(batch && i + 1 < nd && op[i + 1] <= O_YL) continue;
         tick(vm, m); ok = compare(vm, m, ON[op[i]]); mc_states(1);
      }
      /* the script's view agrees */
      if(ok && (K.c[0] + (nd > 1 ? K.c[1] : 0)) % 4 == 0) {
         buzzneighbors_reset(vm); buzzneighbors_add(vm, RID[0], 1, 2, 3); buzzneighbors_add(vm, RID[1], 1, 2, 3);
         for(int r = 0; ok && r < NR; ++r) for(int s = 0; ok && s < 2; ++s) {
            if(!real_call(vm, "kin", 2, s, RID[r], 0)) { mc_fail("script", "%s", rres.s); ok = 0; break; }
            int want = m[r].known && (m[r].set >> (s + 1) & 1) ? 1 : 10; if(atoi(rres.s) != want) { mc_fail("kin", "robot %d swarm %d: kin/nonkin = %s, expected %d", RID[r], s + 1, rres.s, want); ok = 0; }
         }
         bz_msgs_t q = {0}; bz_drain(vm, &q); bz_msgs_free(&q);
      }
      mc_traces(1);
      /* forget everything, under observation */
      for(int k = 0; k < 52; ++k) tick(vm, m);
      if(ok) compare(vm, m, "52 idle steps");
      if(!ok || vm->state != BUZZVM_STATE_READY) { if(ok) mc_fail("state", "%s", vm->errormsg); buzzvm_destroy(&vm); vm = NULL; }
   } while(advance(&K));
}
/* refreshing forever keeps; not refreshing loses */
static void refreshed(void) {
   for(int kind = 0; kind < 3; ++kind) for(int gap = 1; gap <= 54; ++gap) for(int two = 0; two < 2; ++two) {
      if(!MC_CASE("refresh by %s every %d steps, three times%s", kind == 0 ? "list" : kind == 1 ? "join" : "leave of another swarm", gap, two ? ", another robot never refreshed" : "")) continue;
      buzzvm_t vm = real_new(5); mem_t m[NR] = {{0}}; recv1(vm, m, O_L1); if(two) recv1(vm, m, O_YL); int ok = 1;
      for(int k = 0; ok && k < 3 * gap; ++k) { if(k && k % gap == 0) recv1(vm, m, kind == 0 ? O_L1 : kind == 1 ? O_J1 : O_V2); tick(vm, m); ok = compare(vm, m, "step"); mc_states(1); }
      buzzvm_destroy(&vm); mc_traces(1);
   }
}
/* many robots in many swarms */
static void crowd(int n) {
   if(!MC_CASE("%d neighbors", n)) return;
   buzzvm_t vm = real_new(5);
   for(int round = 0; round < 3; ++round) {
      for(int i = 0; i < n; ++i) { uint8_t b[64]; int c = (i + round) % 5, p = 0; b[p++] = T_LIST; b[p++] = 0; b[p++] = c; for(int k = 0; k < c; ++k) { b[p++] = k; b[p++] = i & 255; } bz_msg_t w = { b, p }; if((i + round) % 7) bz_deliver(vm, i * 11, &w); }
      for(int k = 0; k < 17; ++k) buzzvm_process_inmsgs(vm);
      for(int i = 0; i < n; ++i) { int last = -1; for(int q = 0; q <= round; ++q) if((i + q) % 7) last = (i + q) % 5; for(int k = 0; k < 5; ++k) { int want = k < last; if(!buzzswarm_members_isrobotin(vm->swarmmembers, i * 11, k << 8 | (i & 255)) != !want) { mc_fail("crowd", "robot %d swarm %d round %d", i * 11, k << 8 | (i & 255), round); goto out; } } }
      mc_states(n);
   }
   for(int k = 0; k < 51; ++k) buzzvm_process_inmsgs(vm);
   for(int i = 0; i < n; ++i) for(int k = 0; k < 5; ++k) if(buzzswarm_members_isrobotin(vm->swarmmembers, i * 11, k << 8 | (i & 255))) { mc_fail("crowd", "robot %d not forgotten", i * 11); goto out; }
out: buzzvm_destroy(&vm); mc_traces(1);
}
/* one robot in many swarms: a list of n identifiers, then one joined and one left */
static void longlist(int n) {
   if(!MC_CASE("a list of %d swarms", n)) return;
   buzzvm_t vm = real_new(5); uint8_t* b = malloc(3 + 2 * n + 2); b[0] = T_LIST; b[1] = n >> 8; b[2] = n; for(int i = 0; i < n; ++i) { int id = (i * 258 + 5) & 0xffff; b[3 + 2 * i] = id >> 8; b[4 + 2 * i] = id; }
   for(int round = 0; round < 3; ++round) {
      bz_msg_t w = { b, 3 + 2 * n }; uint8_t j[3] = { round == 1 ? T_JOIN : T_LEAVE, 1, 1 }; int id = round == 1 ? 4 : (5 + (n ? (n - 1) * 258 : 0)) & 0xffff; j[1] = id >> 8; j[2] = id; bz_msg_t v = { j, 3 };
      bz_deliver(vm, 300, &w); if(round) bz_deliver(vm, 300, &v); buzzvm_process_inmsgs(vm); mc_trans(1); mc_states(1);
      for(int i = 0; i <= n + 1; ++i) { int q = (i * 258 + 5) & 0xffff; int want = i < n && !(round == 2 && i == n - 1); if(!buzzswarm_members_isrobotin(vm->swarmmembers, 300, q) != !want) { mc_fail("list", "round %d: robot %s member of swarm %d (number %d)", round, want ? "is no" : "is", q, i); goto out; } }
      if(!buzzswarm_members_isrobotin(vm->swarmmembers, 300, 4) != (round != 1)) { mc_fail("list", "round %d: swarm 4", round); goto out; }
   }
out: free(b); buzzvm_destroy(&vm); mc_traces(1);
}
/* two robots; nothing of the sender's is trusted but its script-visible membership */
static void deliver_all(buzzvm_t a, buzzvm_t b, uint16_t from, int drop) {
   bz_msgs_t q = {0}; bz_collect(a, &q); if(!drop) for(int i = 0; i < q.n; ++i) bz_deliver(b, from, &q.m[i]);
   mc_trans(q.n); bz_msgs_free(&q); buzzvm_process_inmsgs(b);
}
static void pairrun(int steps) {
   for(int phase = 0; phase < 10; ++phase) for(int late = 0; late < 2; ++late) {
      memset(&K, 0, sizeof K);
      do {
         int op[6], loss; for(int i = 0; i < steps; ++i) op[i] = choose(&K, 6); loss = choose(&K, 1 << steps); int miss = choose(&K, 2);
         if(!mc_next()) continue;
         mc_desc("phase %d%s ops %d%d%d%d lost %x", phase, late ? " late" : "", op[0], op[1], steps > 2 ? op[2] : 0, steps > 3 ? op[3] : 0, loss);
         buzzvm_t a = real_new(9), b = real_new(5); int ok = 1;
         for(int i = 0; i < phase; ++i) { buzzvm_process_outmsgs(a); }
         int in = 0; real_call(a, "swcreate", 1, 0, 0, 0); real_call(a, "swcreate", 1, 1, 0, 0);
         if(late) { real_call(a, "swjoin", 1, 0, 0, 0); in |= 1; }
         for(int i = 0; i < steps; ++i) {
            if(op[i]) { static const char* F[] = { "", "swjoin", "swleave", "swjoin", "swleave", "swsel" }; int s = op[i] == 3 || op[i] == 4; ok &= real_call(a, F[op[i]], op[i] == 5 ? 2 : 1, s, 1, 0); if(op[i] == 2 || op[i] == 4) in &= ~(1 << s); else in |= 1 << s; }
            deliver_all(a, b, 9, loss >> i & 1); mc_states(1);
         }
         /* miss: even the whole period but its list may be lost, one message per step gets through only if it is a list */
         if(miss) {
            int got = 0;
            for(int i = 0; i < 10; ++i) { bz_msgs_t q = {0}; bz_collect(a, &q); for(int k = 0; k < q.n; ++k) if(q.m[k].n && q.m[k].d[0] == T_LIST) { bz_deliver(b, 9, &q.m[k]); ++got; } bz_msgs_free(&q); buzzvm_process_inmsgs(b); }
            if(!got) mc_fail("period", "no list announced in one period of ten steps");
         } else for(int i = 0; i < 10; ++i) deliver_all(a, b, 9, 0);
         for(int s = 0; s < 3; ++s) { int w = in >> s & 1, g = !!buzzswarm_members_isrobotin(b->swarmmembers, 9, s + 1); if(w != g) { mc_fail("learned", "swarm %d: sender %s, neighbor believes it %s", s + 1, w ? "in" : "out", g ? "in" : "out"); break; } if(s < 2) { real_call(a, "swin", 1, s, 0, 0); if(atoi(rres.s) != w) mc_fail("in", "in() = %s, expected %d", rres.s, w); } }
         if(!ok) mc_fail("script", "%s", rres.s);
         buzzvm_destroy(&a); buzzvm_destroy(&b); mc_traces(1);
      } while(advance(&K));
   }
}
void mc_run(void) {
   int t = mc_thorough;
   if(MC_ASAN) { for(int d = 1; d <= 2; ++d) sequences(d, 0, 0); sequences(2, 1, 0); sequences(3, 1, 1); crowd(40); longlist(255); longlist(256); longlist(257); if(!t) return; refreshed(); return; }
   sequences(3, 0, 0); sequences(3, 1, 0); sequences(t ? 5 : 4, 0, 1); sequences(t ? 5 : 4, 1, 1); refreshed();
   for(int n = 0; n <= 400; n += n < 30 ? 3 : 70) crowd(n);
   for(int n = 0; n <= 254; n += n < 40 ? 1 : 35) longlist(n); for(int n = 254; n < 259; ++n) longlist(n); for(int n = 511; n < 514; ++n) longlist(n);
   pairrun(2); pairrun(t ? 4 : 3);
}
