/* P10: arbitrary bytes as received messages. A reference grammar decides which messages are well formed; every other one
 * must be dropped without any observable effect, and the rest of the queue must still be handled. */
#include "bz.h"
const char* mc_name = "malformed";
static const char* PROG =
   "v = stigmergy.create(3)\nw = stigmergy.create(515)\n"
   "v.put(1, 10)\nv.put(\"a\", \"x\")\nv.put(2.5, { .q = 1 })\nw.put(0, 0)\n"
   "s = swarm.create(1)\ns.join()\n"
   "neighbors.listen(\"a\", function(tp, x, r) { t(tp, x, r) })\n"
   "neighbors.listen(\"\", function(tp, x, r) { t(tp, x, r) })\n"
   "neighbors.listen(\"zz\", function(tp, x, r) { t(\"sentinel\", x, r) })\n";
static bz_prog_t P; static buzzvm_t vm; static mcs_t st0, st1;
/* ---- reference grammar ---- */
static int V(const uint8_t* b, int p, int n, int* type) {   /* end of the value at p, or -1 */
   if(p >= n) return -1; int t = b[p++]; if(type) *type = t;
   switch(t) { case 0: return p; case 1: return p + 4 <= n ? p + 4 : -1; case 2: return p + 8 <= n ? p + 8 : -1;
      case 3: { if(p + 2 > n) return -1; int l = b[p] << 8 | b[p + 1]; p += 2; return p + l <= n ? p + l : -1; }
      case 4: { if(p >= n) return -1; int c = b[p++]; for(int i = 0; i < c; ++i) { int kt; p = V(b, p, n, &kt); if(p < 0) return -1; if(kt < 1 || kt > 3) return -1; p = V(b, p, n, NULL); if(p < 0) return -1; } return p; }
      case 5: return p + 5 <= n ? p + 5 : -1;
      default: return -1; }
}
static int wellformed(const uint8_t* b, int n) {
   if(n == 0) return 0; int t, p;
   switch(b[0]) {
      case 0: p = V(b, 1, n, &t); if(p < 0 || t != 3) return 0; return V(b, p, n, NULL) >= 0;
      case 1: if(n < 3) return 0; return n >= 3 + 2 * (b[1] << 8 | b[2]);
      case 2: case 3: if(n < 3) return 0; p = V(b, 3, n, &t); if(p < 0 || t == 5) return 0; p = V(b, p, n, NULL); return p >= 0 && p + 4 <= n;
      case 4: case 5: return n >= 3;
      default: return 0; }
}
/* ---- observable state ---- */
typedef struct { mcs_t* o; } dp_t;
static void delem(const void* k, void* d, void* p) { mcs_t* o = p; buzzvstig_elem_t e = *(buzzvstig_elem_t*)d; mcs_add(o, "["); bz_repr(o, *(buzzobj_t*)k, 3); mcs_add(o, " "); bz_repr(o, e->data, 3); mcs_add(o, " %u %u]", e->timestamp, e->robot); }
static void dvs(const void* k, void* d, void* p) { mcs_t* o = p; mcs_add(o, "vs%u", *(uint16_t*)k); buzzdict_foreach((*(buzzvstig_t*)d)->data, delem, o); }
static void snap(mcs_t* o) {
   mcs_clear(o); buzzdict_foreach(vm->vstigs, dvs, o);
   for(int r = 30; r <= 33; ++r) for(int s = 0; s < 4; ++s) mcs_add(o, "%d", buzzswarm_members_isrobotin(vm->swarmmembers, r, s));
   mcs_add(o, " L%u S%u q%u d%d", (unsigned)buzzdict_size(vm->listeners), (unsigned)buzzdict_size(vm->swarms), (unsigned)buzzoutmsg_queue_size(vm), bz_depth(vm));
}
static void del(const uint8_t* b, int n, int from) { bz_msg_t m = { (uint8_t*)b, n }; bz_deliver(vm, from, &m); }
static int dirty = 1, uses;
static void fresh(void) {
   if(vm && !dirty && uses < 45) { ++uses; return; }
   if(vm) buzzvm_destroy(&vm);
   if(!P.code && bz_compile(PROG, &P)) { mc_fail("compile", "x"); exit(9); }
   vm = bz_vm(7, &P); mcs_clear(&bz_trace); if(bz_exec(vm, 10000) != BUZZVM_STATE_DONE) mc_fail("setup", "%s", vm->errormsg); vm->state = BUZZVM_STATE_READY;
   bz_msgs_t ms = {0}; bz_drain(vm, &ms); bz_msgs_free(&ms);
   static const uint8_t L[] = { 1, 0, 2, 0, 1, 0, 2 }, J[] = { 4, 0, 3 };
   del(L, sizeof L, 30); del(J, sizeof J, 31); buzzvm_process_inmsgs(vm); if(vm->state != BUZZVM_STATE_READY) mc_fail("setup", "messages");
   snap(&st0); dirty = 0; uses = 0;
}
static const uint8_t SENT[] = { 0, 3, 0, 2, 'z', 'z', 1, 0, 0, 0, 9 };
#define NS (MC_ASAN ? 1 : 3)
static char hexb[4096];
static const char* hex(const uint8_t* b, int n) { int k = 0; for(int i = 0; i < n && k < 4000; ++i) k += sprintf(hexb + k, "%02x", b[i]); hexb[k] = 0; return hexb; }
/* sends message(s), each between sentinels */
static void feed(const uint8_t* b, int n, const uint8_t* b2, int n2) {
   fresh(); mcs_clear(&bz_trace);
   if(!MC_ASAN) del(SENT, sizeof SENT, 40); del(b, n, 30); if(b2) del(b2, n2, 30); del(SENT, sizeof SENT, 30); if(!MC_ASAN) del(SENT, sizeof SENT, 21);
   buzzvm_process_inmsgs(vm); mc_trans(1); mc_traces(1);
   int wf = wellformed(b, n) || (b2 && wellformed(b2, n2));
   if(vm->state != BUZZVM_STATE_READY) { mc_fail("error-state", "message %s: VM in %s (%s)", hex(b, n), bz_statename(vm), vm->errormsg); dirty = 1; return; }
   if(!buzzinmsg_queue_isempty(vm->inmsgs)) { mc_fail("unprocessed", "message %s: messages left", hex(b, n)); dirty = 1; return; }
   int c = 0; if(bz_trace.s) for(const char* q = bz_trace.s; (q = strstr(q, "'sentinel' 9 ")); ++q) ++c;
   if(c < NS) { mc_fail("rest-dropped", "message %s: only %d of %d good messages handled", hex(b, n), c, NS); dirty = 1; return; }
   if(bz_depth(vm)) { mc_fail("stack", "message %s: %d values left on the stack", hex(b, n), bz_depth(vm)); dirty = 1; return; }
   if(wf) { mc_note("well-formed", 1); bz_msgs_t ms = {0}; bz_drain(vm, &ms); bz_msgs_free(&ms); snap(&st1); dirty = strcmp(st0.s, st1.s) != 0; return; }
   snap(&st1);
   if(strcmp(st0.s, st1.s)) { mc_fail("effect", "malformed message %s changed the robot: %s -> %s", hex(b, n), st0.s, st1.s); dirty = 1; return; }
   if(c != NS || strlen(bz_trace.s) != NS * strlen("'sentinel' 9 40;")) { mc_fail("delivered", "malformed message %s reached a listener: %s", hex(b, n), bz_trace.s); dirty = 1; }
   mc_note("malformed", 1);
}
/* ---- families ---- */
static uint8_t M[70000];
static void allbytes(void) {   /* all messages up to 2 bytes; all 3-byte ones in thorough */
   for(int a = -1; a < 256; ++a) { if(!MC_CASE("all messages of up to %d bytes starting with %d", mc_thorough ? 3 : 2, a)) continue;
      if(a < 0) { feed(M, 0, NULL, 0); mc_states(1); continue; }
      M[0] = a; feed(M, 1, NULL, 0); mc_states(1);
      for(int x = 0; x < 256; ++x) { M[1] = x; feed(M, 2, NULL, 0); mc_states(1);
         if(mc_thorough && a < 8) for(int y = 0; y < 256; ++y) { M[2] = y; feed(M, 3, NULL, 0); mc_states(1); } } }
}
static const uint8_t AL[] = { 0, 1, 2, 3, 4, 5, 6, 255, 97 };
static void alpha(int len, int na, const uint8_t* pre, int npre) {
   long tot = 1; for(int i = 0; i < len; ++i) tot *= na;
   for(long blk = 0; blk < tot; blk += 512) {
      if(!mc_next()) continue; mc_desc("messages of %d bytes over %d byte values after prefix %s, from %ld", len + npre, na, hex(pre, npre), blk); mc_timeout(60);
      for(long x = blk; x < blk + 512 && x < tot; ++x) { memcpy(M, pre, npre); long y = x; for(int i = 0; i < len; ++i) { M[npre + i] = AL[y % na]; y /= na; } feed(M, len + npre, NULL, 0); mc_states(1); } }
}
/* valid messages */
static struct { uint8_t b[96]; int n; } C[96]; static int nc;
static uint8_t* cur; static int cn;
static void u8(int x) { cur[cn++] = x; } static void u16(int x) { u8(x >> 8); u8(x & 255); } static void u32(uint32_t x) { u16(x >> 16); u16(x & 65535); }
static void sv(const char* s) { u8(3); u16(strlen(s)); while(*s) u8(*s++); }
static void val(int k) { switch(k) { case 0: u8(0); break; case 1: u8(1); u32(258); break; case 2: u8(2); u32(1073741824); u32(1); break; case 3: sv("a"); break; case 4: u8(4); u8(0); break;
   case 5: u8(4); u8(2); u8(1); u32(1); sv("x"); sv("k"); u8(4); u8(1); sv("y"); u8(0); break; case 6: u8(5); u8(1); u32(2); break; case 7: sv(""); break; } }
static void corpus(void) {
   for(int t = 0; t < 2; ++t) for(int k = 0; k < 8; ++k) { cur = C[nc].b; cn = 0; u8(0); sv(t ? "" : "a"); val(k); C[nc++].n = cn; }
   for(int n = 0; n < 4; ++n) { cur = C[nc].b; cn = 0; u8(1); u16(n); for(int i = 0; i < n; ++i) u16(i + 1); C[nc++].n = cn; }
   for(int ty = 2; ty < 4; ++ty) for(int id = 3; id <= 515; id += 512) for(int key = 0; key < 6; ++key) for(int ts = 0; ts < 2; ++ts) { cur = C[nc].b; cn = 0; u8(ty); u16(id); val(key); val((key + ty + ts) % 7); u16(ts * 5); u16(30); C[nc++].n = cn; }
   for(int ty = 4; ty < 6; ++ty) for(int s = 1; s < 4; ++s) { cur = C[nc].b; cn = 0; u8(ty); u16(s); C[nc++].n = cn; }
}
static void mutations(void) {
   for(int c = 0; c < nc; ++c) {
      if(MC_CASE("truncations of valid message %d", c)) for(int n = 0; n <= C[c].n; ++n) { feed(C[c].b, n, NULL, 0); mc_states(1); }
      for(int p = 0; p < C[c].n; ++p) {
         if(!mc_next()) continue; mc_desc("every value of byte %d of message %s, whole and truncated", p, hex(C[c].b, C[c].n)); mc_timeout(60);
         memcpy(M, C[c].b, C[c].n);
         for(int x = 0; x < 256; ++x) { M[p] = x; feed(M, C[c].n, NULL, 0); mc_states(1); }
         for(unsigned x = 0; x < sizeof AL; ++x) { M[p] = AL[x]; for(int n = p + 1; n < C[c].n; ++n) { feed(M, n, NULL, 0); mc_states(1); } }
      }
      for(int p = 0; p < C[c].n; ++p) for(int q = 0; q < p; ++q) {
         if(!mc_thorough && c % (MC_ASAN ? 8 : 2)) continue;
         if(!mc_next()) continue; mc_desc("bytes %d and %d of message %s over %d values", q, p, hex(C[c].b, C[c].n), (int)sizeof AL); mc_timeout(60);
         memcpy(M, C[c].b, C[c].n);
         for(unsigned x = 0; x < sizeof AL; ++x) for(unsigned y = 0; y < sizeof AL; ++y) { M[p] = AL[x]; M[q] = AL[y]; feed(M, C[c].n, NULL, 0); mc_states(1); }
      }
      /* a byte dropped or inserted */
      if(MC_CASE("every byte of valid message %d dropped, doubled", c)) for(int p = 0; p < C[c].n; ++p) { memcpy(M, C[c].b, C[c].n); memmove(M + p, M + p + 1, C[c].n - p - 1); feed(M, C[c].n - 1, NULL, 0); memcpy(M, C[c].b, C[c].n); memmove(M + p + 1, M + p, C[c].n - p); feed(M, C[c].n + 1, NULL, 0); mc_states(2); }
   }
   /* two messages of one sender, both cut */
   for(int c = 0; c < nc; ++c) for(int d = 0; d < nc; d += MC_ASAN ? 12 : 3) { if(!MC_CASE("truncations of valid message %d followed by those of %d", c, d)) continue; mc_timeout(60);
      for(int n = 0; n < C[c].n; ++n) for(int m = 0; m < C[d].n; m += mc_thorough ? 1 : 4) { feed(C[c].b, n, C[d].b, m); mc_states(1); } }
}
static void big(void) {
   /* nesting and counts that promise more than there is */
   static const int SZ[] = { 10, 100, 1000, 10000, 65535 };
   for(int s = 0; s < (MC_ASAN ? 3 : 5); ++s) for(int kind = 0; kind < 5; ++kind) for(int ty = 0; ty < 4; ++ty) {
      if(!MC_CASE("message of %d bytes of kind %d in message type %d", SZ[s], kind, ty)) continue; mc_timeout(100);
      int n = 0; M[n++] = ty; if(ty == 0) { M[n++] = 3; M[n++] = 0; M[n++] = 1; M[n++] = 'a'; } else if(ty > 1) { M[n++] = 0; M[n++] = 3; }
      int start = n; for(; n < SZ[s]; ++n) { int k = n - start; M[n] = kind == 0 ? (k & 1 ? 1 : 4) : kind == 1 ? (k % 3 == 0 ? 4 : k % 3 == 1 ? 1 : 0) : kind == 2 ? 255 : kind == 3 ? (k % 7 == 0 ? 4 : k % 7 == 1 ? 1 : k % 7 == 2 ? 1 : 0) : (k & 1 ? 255 : 4); }
      feed(M, n, NULL, 0); mc_states(1);
   }
   /* topics that are not strings but look like a string identifier */
   for(int k = 0; k < 512; k += 8) { if(!MC_CASE("broadcasts on non-string topics %d to %d", k, k + 7)) continue; for(int x = k; x < k + 8; ++x) { uint8_t b[16] = { 0, 1, 0, 0, x >> 8, x & 255, 0 }, c[16] = { 0, 1, x >> 8, x & 255, x >> 8, x & 255, 0 }, d[24] = { 0, 5, 1, 0, 0, x >> 8, x & 255, 0 }; feed(b, 7, NULL, 0); feed(c, 7, NULL, 0); feed(d, 8, NULL, 0); mc_states(3); } }
   for(int k = 0; k < 65536; k += mc_thorough ? 1 : 251) { if(!MC_CASE("lists and strings announcing %d elements", k)) continue; uint8_t b[64] = { 1, k >> 8, k & 255, 0, 1, 0, 2 }; feed(b, 7, NULL, 0); uint8_t c[64] = { 0, 3, k >> 8, k & 255, 'a' }; feed(c, 5, NULL, 0); uint8_t d[64] = { 2, 0, 3, 3, k >> 8, k & 255, 'a' }; feed(d, 7, NULL, 0); mc_states(3); }
}
void mc_run(void) {
   freopen("/dev/null", "w", stderr);
   corpus(); allbytes(); big(); mutations();
   alpha(mc_thorough ? 6 : MC_ASAN ? 4 : 5, 8, NULL, 0);
   static const uint8_t p0[] = { 0, 3, 0, 1, 'a' }, p2[] = { 2, 0, 3 }, p3[] = { 3, 0, 3 }, p4[] = { 2, 0, 3, 1, 0, 0, 0, 1 }, p5[] = { 0, 3, 0, 1, 'a', 4, 2 }, p6[] = { 3, 2, 3 };
   int L = mc_thorough ? 6 : MC_ASAN ? 4 : 5;
   alpha(L, 9, p0, sizeof p0); alpha(L, 9, p2, sizeof p2); alpha(L, 9, p3, sizeof p3); alpha(L, 9, p4, sizeof p4); alpha(L, 9, p5, sizeof p5); alpha(L - 1, 9, p6, sizeof p6);
}
