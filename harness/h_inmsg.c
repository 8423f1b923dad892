/* P12: every assignment of messages of several kinds to senders, every enqueue order and every placement of processing steps.
 * The host's single buffer is overwritten right after each message is queued. */
#include "bz.h"
const char* mc_name = "inmsg";
static const uint16_t SND[] = { 1, 11, 65535, 2, 0, 256 };
static const char* SRC =
   "V = stigmergy.create(3)\n"
   "neighbors.listen(\"a\", function(tp, v, r) { t(tp, v.n, v.i, r, V.get(r * 100 + v.n), V.get(r * 100 + v.n + 1)) })\n"
   "neighbors.listen(\"c\", function(tp, v, r) { t(tp, v, r) })\n";
static bz_prog_t P; static int ok0;
typedef struct { int kind, snd, idx, put; } ev_t;   /* kind -1: process */
static uint8_t B[128]; static int L;
static void u8(int x) { B[L++] = x; } static void u16(int x) { u8(x >> 8 & 255); u8(x & 255); }
static void in(int x) { u8(1); u16((uint32_t)x >> 16); u16(x & 65535); } static void st(const char* s) { u8(3); u16((int)strlen(s)); while(*s) u8(*s++); }
static void enc(const ev_t* e) {
   L = 0; int id = SND[e->snd];
   switch(e->kind) {
      case 0: u8(0); st("a"); u8(4); u8(2); st("n"); in(e->put); st("i"); in(e->idx); break;
      case 1: u8(2); u16(3); in(id * 100 + e->put); in(e->idx + 500); u16(1); u16(id); break;
      case 2: u8(0); st("b"); in(e->idx); break;
      case 3: break;
      case 4: u8(0); st("c"); in(e->idx); break;
      case 5: u8(4); u16(e->idx); break;    /* JOIN */
   }
}
static const char* KN[] = { "broadcast", "put", "unheard broadcast", "empty", "broadcast2", "join" };
static mcs_t ds, want, got;
static void run(ev_t* ev, int n) {
   if(!ok0) { if(bz_compile(SRC, &P)) { mc_fail("compile", "script"); return; } ok0 = 1; }
   buzzvm_t vm = bz_vm(7, &P); bz_exec(vm, 10000); vm->state = BUZZVM_STATE_READY; int base = bz_depth(vm);
   int pend0 = 0, puts[6] = {0}, totput = 0; mcs_clear(&bz_trace);
   for(int i = 0; i <= n; ++i) {
      if(i < n && ev[i].kind >= 0) {
         ev[i].idx = i; if(ev[i].kind == 1) { ev[i].put = ++puts[ev[i].snd]; ++totput; } else ev[i].put = puts[ev[i].snd];
         enc(&ev[i]); uint8_t* hb = malloc(L ? L : 1); memcpy(hb, B, L); buzzmsg_payload_t p = buzzmsg_payload_frombuffer(hb, L); buzzinmsg_queue_append(vm, SND[ev[i].snd], p); memset(hb, 0xFF, L); free(hb);
         if(bz_trace.n) { mc_fail("early", "handled before the processing step: %s", bz_trace.s); break; }
         continue;
      }
      buzzvm_process_inmsgs(vm); mc_trans(1);
      if(vm->state != BUZZVM_STATE_READY) { mc_fail("state", "%s %s", bz_statename(vm), vm->errormsg); break; }
      if(bz_depth(vm) != base) { mc_fail("stack", "%d values left", bz_depth(vm) - base); break; }
      if(!buzzinmsg_queue_isempty(vm->inmsgs)) { mc_fail("pending", "messages left after the step"); break; }
      /* split the trace by sender */
      int total = 0, expect = 0;
      for(const char* q = bz_trace.n ? bz_trace.s : ""; *q; ++q) total += *q == ';';
      for(int s = 0; s < 6; ++s) {
         mcs_clear(&want); mcs_clear(&got); mcs_add(&want, "."); mcs_add(&got, ".");
         for(int j = pend0; j < i; ++j) if(ev[j].kind >= 0 && ev[j].snd == s) {
            if(ev[j].kind == 0) { mcs_add(&want, "'a' %d %d %d ", ev[j].put, j, SND[s]); int pi = 0, c = 0; for(int z = 0; z < j; ++z) if(ev[z].kind == 1 && ev[z].snd == s && ++c == ev[j].put) pi = z; if(ev[j].put) mcs_add(&want, "%d", pi + 500); else mcs_add(&want, "nil"); mcs_add(&want, " nil;"); ++expect; }
            if(ev[j].kind == 4) { mcs_add(&want, "'c' %d %d;", j, SND[s]); ++expect; }
         }
         char* c = strdup(bz_trace.n ? bz_trace.s : ""); for(char* q = strtok(c, ";"); q; q = strtok(NULL, ";")) { int a, b, r; if((sscanf(q, "'a' %d %d %d", &a, &b, &r) == 3 && r == SND[s]) || (sscanf(q, "'c' %d %d", &a, &r) == 2 && r == SND[s])) mcs_add(&got, "%s;", q); } free(c);
         if(strcmp(want.s, got.s)) { mc_fail("handling", "step at %d, messages of %d: handled %s expected %s", i, SND[s], got.s, want.s); break; }
      }
      if(mc_case_failed()) break;
      if(total != expect) { mc_fail("handling", "%d callbacks, expected %d: %s", total, expect, bz_trace.s); break; }
      mcs_clear(&bz_trace); buzzvm_process_inmsgs(vm);
      if(bz_trace.n) { mc_fail("again", "handled again: %s", bz_trace.s); break; }
      pend0 = i + 1;
   }
   if(!mc_case_failed()) {
      bz_msgs_t m = {0}; bz_drain(vm, &m); int c = 0; for(int i = 0; i < m.n; ++i) c += m.m[i].d[0] == 2; bz_msgs_free(&m);
      if(c != totput) mc_fail("puts", "%d puts taken over, expected %d", c, totput);
   }
   buzzvm_destroy(&vm); mc_traces(1); mc_states(n + 1);
}
static chooser_t K;
static void explore(int depth, int ns, const int* kinds, int nk) {
   memset(&K, 0, sizeof K);
   do {
      ev_t ev[16]; int ops = ns * nk + 1;
      for(int i = 0; i < depth; ++i) { int c = choose(&K, ops); memset(&ev[i], 0, sizeof ev[i]); if(c == ops - 1) ev[i].kind = -1; else { ev[i].kind = kinds[c % nk]; ev[i].snd = c / nk; } }
      if(!mc_next()) continue;
      mcs_clear(&ds); for(int i = 0; i < depth; ++i) if(ev[i].kind < 0) mcs_add(&ds, "process; "); else mcs_add(&ds, "%s from %d; ", KN[ev[i].kind], SND[ev[i].snd]); mc_desc("%s", ds.s);
      run(ev, depth); if(!mc_case_failed()) mc_sample("%s", ds.s);
   } while(advance(&K));
}
/* many senders and messages; arrival order blockwise or round robin */
static int mtot; static uint16_t mlast[4096]; static int mbad;
static int host_m(buzzvm_t vm) { int v = buzzdarray_get(vm->lsyms->syms, 1, buzzobj_t)->i.value, r = buzzdarray_get(vm->lsyms->syms, 2, buzzobj_t)->i.value; if(r % 7 || r / 7 >= 4096 || mlast[r / 7] != v) ++mbad; else mlast[r / 7]++; ++mtot; return buzzvm_ret0(vm); }
static void many(int ns, int nm, int rr) {
   if(!MC_CASE("%d senders, %d messages each, %s", ns, nm, rr ? "round robin" : "in blocks")) return;
   mc_timeout(120);
   bz_prog_t Q; if(bz_compile("neighbors.listen(\"a\", function(tp, v, r) { m(v, r) })\n", &Q)) { mc_fail("compile", "script"); return; }
   buzzvm_t vm = bz_vm(7, &Q); bz_reg(vm, "m", host_m); bz_exec(vm, 1000); vm->state = BUZZVM_STATE_READY;
   memset(mlast, 0, sizeof mlast); mtot = mbad = 0;
   for(int x = 0; x < ns * nm; ++x) { int s = rr ? x % ns : x / nm, m = rr ? x / ns : x % nm; L = 0; u8(0); st("a"); in(m); buzzinmsg_queue_append(vm, s * 7, buzzmsg_payload_frombuffer(B, L)); memset(B, 0xEE, L); }
   buzzvm_process_inmsgs(vm);
   if(mtot != ns * nm || mbad || vm->state != BUZZVM_STATE_READY) mc_fail("many", "%d handled (%d expected), %d out of order, %s", mtot, ns * nm, mbad, bz_statename(vm));
   for(int s = 0; s < ns && !mc_case_failed(); ++s) if(mlast[s] != nm) mc_fail("many", "sender %d: %d of %d", s * 7, mlast[s], nm);
   buzzvm_process_inmsgs(vm); if(mtot != ns * nm) mc_fail("again", "%d handled", mtot);
   buzzvm_destroy(&vm); bz_prog_free(&Q); mc_traces(1); mc_trans(ns * nm);
}
void mc_run(void) {
   int t = mc_thorough; static const int k1[] = { 0, 1 }, k2[] = { 0, 1, 2, 3, 4, 5 }, k3[] = { 4 };
   if(MC_ASAN) { for(int d = 0; d <= 4; ++d) explore(d, 2, k1, 2); explore(3, 3, k2, 6); }
   else { explore(t ? 7 : 6, 2, k1, 2); explore(t ? 6 : 5, 4, k1, 2); explore(t ? 5 : 4, 3, k2, 6); explore(t ? 7 : 6, 5, k3, 1); explore(4, 6, k1, 2); }
   for(int ns = 1; ns <= (MC_ASAN ? 30 : 400); ns = ns < 12 ? ns + 1 : ns * 2) for(int nm = 1; nm <= (MC_ASAN ? 30 : 200); nm = nm < 5 ? nm + 1 : nm * 2) for(int rr = 0; rr < 2; ++rr) many(ns, nm, rr);
}
