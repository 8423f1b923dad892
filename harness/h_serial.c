/* P09: serialization. Values are built on one VM, encoded by the real code, decoded by a reference decoder and by the real
 * code on another VM (with different string identifiers), and compared with the abstract value; truncations must be refused. */
#include "bz.h"
#include <math.h>
#include <limits.h>
const char* mc_name = "serial";
/* ---- reference decoder: canonical text of the encoded value, -1 if malformed ---- */
static uint32_t be(const uint8_t* b, int n) { uint32_t x = 0; while(n--) x = x << 8 | *b++; return x; }
static void frepr(mcs_t* o, float f) { if(f != f) mcs_add(o, "fnan"); else mcs_add(o, "f%.9g", f == 0 ? 0.0 : f); }
static int cmps(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static long rdec(mcs_t* o, const uint8_t* b, long p, long n) {
   if(p + 1 > n) return -1;
   switch(b[p++]) {
      case 0: mcs_add(o, "nil"); return p;
      case 1: if(p + 4 > n) return -1; mcs_add(o, "%d", (int32_t)be(b + p, 4)); return p + 4;
      case 2: { if(p + 8 > n) return -1; int32_t m = be(b + p, 4), e = be(b + p + 4, 4); double x = 0;
         if(m) x = ldexp((fabs((double)m) - 1) / 4294967296.0 + 0.5, e); if(m < 0) x = -x; frepr(o, (float)x); return p + 8; }
      case 3: { if(p + 2 > n) return -1; int l = be(b + p, 2); p += 2; if(p + l > n) return -1; mcs_add(o, "'%.*s'", l, b + p); return p + l; }
      case 4: { if(p + 1 > n) return -1; int c = b[p++]; char** e = calloc(c + 1, sizeof(char*)); int ok = 1, k = 0;
         for(; k < c && ok; ++k) { mcs_t s = {0}; p = rdec(&s, b, p, n); if(p >= 0) { mcs_add(&s, "="); p = rdec(&s, b, p, n); } e[k] = s.s; if(p < 0) { ok = 0; ++k; break; } }
         if(ok) { qsort(e, c, sizeof(char*), cmps); mcs_add(o, "{"); for(int i = 0; i < c; ++i) mcs_add(o, "%s%s", i ? "," : "", e[i]); mcs_add(o, "}"); }
         for(int i = 0; i < k; ++i) free(e[i]); free(e); return ok ? p : -1; }
      default: return -1; }
}
/* ---- abstract values ---- */
typedef struct val_s { int t, i; float f; const char* s; int n; struct val_s *k[8], *v[8]; } val_t;
static val_t pool[64]; static int np;
static val_t* nv(int t) { val_t* x = &pool[np++]; memset(x, 0, sizeof *x); x->t = t; return x; }
static void vrepr(mcs_t* o, val_t* v) {
   switch(v->t) { case 0: mcs_add(o, "nil"); break; case 1: mcs_add(o, "%d", v->i); break; case 2: frepr(o, v->f); break; case 3: mcs_add(o, "'%s'", v->s); break;
      case 4: { char* e[8]; for(int i = 0; i < v->n; ++i) { mcs_t s = {0}; vrepr(&s, v->k[i]); mcs_add(&s, "="); vrepr(&s, v->v[i]); e[i] = s.s; }
         qsort(e, v->n, sizeof(char*), cmps); mcs_add(o, "{"); for(int i = 0; i < v->n; ++i) { mcs_add(o, "%s%s", i ? "," : "", e[i]); free(e[i]); } mcs_add(o, "}"); } }
}
static void vpush(buzzvm_t vm, val_t* v) {
   switch(v->t) { case 0: buzzvm_pushnil(vm); break; case 1: buzzvm_pushi(vm, v->i); break; case 2: buzzvm_pushf(vm, v->f); break;
      case 3: buzzvm_pushs(vm, buzzvm_string_register(vm, v->s, 0)); break;
      case 4: buzzvm_pusht(vm); for(int i = 0; i < v->n; ++i) { buzzvm_dup(vm); vpush(vm, v->k[i]); vpush(vm, v->v[i]); buzzvm_tput(vm); } break; }
}
static void orepr(mcs_t* o, buzzobj_t x) { if(x->o.type == BUZZTYPE_FLOAT) frepr(o, x->f.value); else bz_repr(o, x, 99); }
/* ---- VMs ---- */
static bz_prog_t PA, PB; static buzzvm_t A, B; static int have;
static void vms(void) {
   if(!have) { have = 1;
      if(bz_compile("function send(x) { neighbors.broadcast(\"topic\", x) }\nv = stigmergy.create(3)\nfunction vput(x) { v.put(1, x) }\nzk = \"k\"\nze=\"\"\n", &PA)) mc_fail("compile", "a");
      if(bz_compile("zzz = \"zz\"\nza = \"a\"\nzq = \"q\"\nv = stigmergy.create(3)\nneighbors.listen(\"topic\", function(tp, x, r) { t(tp, x, r) })\nfunction vget() { t(v.get(1)) }\n", &PB)) mc_fail("compile", "b"); }
   A = bz_vm(11, &PA); bz_exec(A, 10000); B = bz_vm(22, &PB); bz_exec(B, 10000); A->state = B->state = BUZZVM_STATE_READY; mcs_clear(&bz_trace);
}
static void vmsfree(void) { buzzvm_destroy(&A); buzzvm_destroy(&B); }
static void callv(buzzvm_t vm, const char* f, val_t* v) { if(v) vpush(vm, v); if(buzzvm_function_call(vm, f, v ? 1 : 0) != BUZZVM_STATE_READY) mc_fail("call", "%s: %s", f, vm->errormsg); else buzzvm_pop(vm); }
static void check_val(val_t* v, int e2e) {
   mcs_t want = {0}, got = {0}; vrepr(&want, v);
   vms();
   vpush(A, v); buzzobj_t o = buzzvm_stack_at(A, 1);
   for(int off = 0; off < 2; ++off) {
      buzzmsg_payload_t m = buzzmsg_payload_new(1);
      if(off) { buzzmsg_serialize_u16(m, 0xABCD); buzzmsg_serialize_u8(m, 4); }
      uint32_t st = buzzmsg_payload_size(m);
      buzzobj_serialize(m, o);
      uint32_t en = buzzmsg_payload_size(m);
      mcs_clear(&got); long p = rdec(&got, m->data, st, en);
      if(p != (long)en || strcmp(got.s, want.s)) mc_fail("encoding", "encoded as %s (%ld of %u bytes), value %s", got.s, p, en, want.s);
      mcs_clear(&got); orepr(&got, o); if(v->t != 2 && v->t != 4 && strcmp(got.s, want.s)) mc_fail("modified", "value became %s", got.s);
      buzzobj_serialize(m, o);   /* a second value behind it */
      buzzobj_t d; int64_t q = buzzobj_deserialize(&d, m, st, B);
      mcs_clear(&got); if(q >= 0) orepr(&got, d); else mcs_add(&got, "refused");
      if(q != en || strcmp(got.s, want.s)) { mcs_t g2 = {0}; mc_fail("roundtrip", "got %s (%ld of %u bytes), sent %s", got.s, (long)q, en, want.s); mcs_free(&g2); }
      else { q = buzzobj_deserialize(&d, m, q, B); mcs_clear(&got); if(q >= 0) orepr(&got, d); if(q != 2 * (int64_t)en - st || strcmp(got.s, want.s)) mc_fail("roundtrip-second", "got %s", got.s ? got.s : "refused"); }
      /* every truncation is refused */
      if(!off) for(uint32_t n = 0; n < en && n < 400; ++n) { buzzmsg_payload_t x = buzzmsg_payload_frombuffer(m->data, n); if(buzzobj_deserialize(&d, x, 0, B) >= 0) mc_fail("truncated-accepted", "%u of %u bytes of %s accepted", n, en, want.s); buzzmsg_payload_destroy(&x); mc_trans(1); }
      buzzmsg_payload_destroy(&m); mc_trans(4);
   }
   buzzvm_pop(A);
   if(e2e) {
      bz_msgs_t ms = {0}; callv(A, "send", v); callv(A, "vput", v); bz_collect(A, &ms);
      for(int i = 0; i < ms.n; ++i) bz_deliver(B, 11, &ms.m[i]);
      buzzvm_process_inmsgs(B); if(B->state == BUZZVM_STATE_READY) callv(B, "vget", NULL);
      mcs_clear(&got); mcs_add(&got, "'topic' %s 11;%s;", want.s, want.s);
      if(strcmp(got.s, bz_trace.s ? bz_trace.s : "")) mc_fail("end-to-end", "receiver observed %s expected %s", bz_trace.s ? bz_trace.s : "", got.s);
      bz_msgs_free(&ms); mc_trans(3);
   }
   vmsfree(); mcs_free(&want); mcs_free(&got); mc_states(1); mc_traces(1);
}
/* ---- all tables with at most left entries in total ---- */
static val_t* leaf(int c) { val_t* x; switch(c) { case 0: x = nv(1); x->i = 258; return x; case 1: x = nv(1); x->i = -2; return x; case 2: x = nv(2); x->f = -1.5f; return x; case 3: x = nv(3); x->s = "a"; return x; default: x = nv(3); x->s = ""; return x; } }
static val_t* keyv(int c) { val_t* x; switch(c) { case 0: x = nv(1); x->i = 1; return x; case 1: x = nv(3); x->s = "a"; return x; case 2: x = nv(2); x->f = 2.5f; return x; case 3: x = nv(1); x->i = -1; return x; case 4: x = nv(3); x->s = ""; return x; default: x = nv(3); x->s = "k"; return x; } }
static val_t* gtab(chooser_t* k, int* left, int depth) {
   val_t* t = nv(4); int from = 0;
   while(*left > 0 && from < 6) {
      int c = choose(k, 7 - from); if(c == 6 - from) break;
      --*left; val_t* key = keyv(from + c); from += c + 1;
      int w = choose(k, depth > 0 ? 6 : 5);
      t->k[t->n] = key; t->v[t->n] = w == 5 ? gtab(k, left, depth - 1) : leaf(w); t->n++;
   }
   return t;
}
static void trees(int max, int e2e) {
   chooser_t k = {0};
   do { k.pos = 0; np = 0; int left = max; val_t* t = gtab(&k, &left, 4);
      if(left) continue;   /* smaller ones are covered with a smaller max */
      if(!mc_next()) continue;
      mcs_t d = {0}; vrepr(&d, t); mc_desc("table %s", d.s); mc_sample("table %s", d.s); mcs_free(&d);
      check_val(t, e2e);
   } while(advance(&k));
}
/* ---- numbers on the wire ---- */
static int one_u32(buzzmsg_payload_t m, uint32_t x) {
   buzzdarray_clear(m, 16); buzzmsg_serialize_u32(m, x); uint32_t y = ~x;
   if(buzzmsg_payload_size(m) != 4 || be(m->data, 4) != x) { mc_fail("u32", "%08x encoded as %02x%02x%02x%02x", x, ((uint8_t*)m->data)[0], ((uint8_t*)m->data)[1], ((uint8_t*)m->data)[2], ((uint8_t*)m->data)[3]); return 0; }
   if(buzzmsg_deserialize_u32(&y, m, 0) != 4 || y != x) { mc_fail("u32", "%08x read back as %08x", x, y); return 0; }
   return 1;
}
static int one_f(buzzmsg_payload_t m, uint32_t bits) {
   float x, y = 12345; memcpy(&x, &bits, 4); if(x != x) return 1;
   buzzdarray_clear(m, 16); buzzmsg_serialize_float(m, x);
   if(buzzmsg_payload_size(m) != 8 || buzzmsg_deserialize_float(&y, m, 0) != 8 || y != x) { mc_fail("float", "%.9g (%08x) read back as %.9g", x, bits, y); return 0; }
   return 1;
}
static uint32_t pat(int i) {   /* patterns with at most 2 bits set or 2 bits cleared */
   if(i == 0) return 0; --i; if(i < 32) return 1u << i; i -= 32; for(int a = 0; a < 32; ++a) for(int b = 0; b < a; ++b) if(i-- == 0) return 1u << a | 1u << b; return 0; }
#define NPAT (1 + 32 + 496)
static void numbers(void) {
   if(MC_CASE("all 8 and 16 bit integers on the wire")) {
      buzzmsg_payload_t m = buzzmsg_payload_new(16);
      for(int x = 0; x < 65536; ++x) { buzzdarray_clear(m, 16); buzzmsg_serialize_u16(m, x); uint16_t y = 0; if(buzzmsg_payload_size(m) != 2 || be(m->data, 2) != x || buzzmsg_deserialize_u16(&y, m, 0) != 2 || y != x) { mc_fail("u16", "%d", x); break; }
         if(x < 256) { buzzdarray_clear(m, 16); buzzmsg_serialize_u8(m, x); uint8_t z = 0; if(buzzmsg_payload_size(m) != 1 || buzzmsg_deserialize_u8(&z, m, 0) != 1 || z != x) { mc_fail("u8", "%d", x); break; } }
      }
      for(uint32_t pos = 0; pos < 12; ++pos) for(uint32_t n = 0; n < 12; ++n) { buzzdarray_clear(m, 16); for(uint32_t i = 0; i < n; ++i) buzzmsg_serialize_u8(m, i + 1);
         uint8_t a; uint16_t b; uint32_t c; float f; 
         if((buzzmsg_deserialize_u8(&a, m, pos) == (int64_t)pos + 1) != (pos + 1 <= n)) mc_fail("bounds", "u8 at %u of %u", pos, n);
         if((buzzmsg_deserialize_u16(&b, m, pos) == (int64_t)pos + 2) != (pos + 2 <= n)) mc_fail("bounds", "u16 at %u of %u", pos, n);
         if((buzzmsg_deserialize_u32(&c, m, pos) == (int64_t)pos + 4) != (pos + 4 <= n)) mc_fail("bounds", "u32 at %u of %u", pos, n);
         if((buzzmsg_deserialize_float(&f, m, pos) == (int64_t)pos + 8) != (pos + 8 <= n)) mc_fail("bounds", "float at %u of %u", pos, n); }
      buzzmsg_payload_destroy(&m); mc_states(65536 + 144); mc_trans(65536 * 2);
   }
   /* every 32-bit integer pattern of <= 2 set or cleared bits, and all exponents x all such mantissas */
   for(int e = 0; e < 256; ++e) {
      if(!MC_CASE("floats with exponent bits %d, integers with high byte %d", e, e)) continue;
      buzzmsg_payload_t m = buzzmsg_payload_new(16); int ok = 1;
      for(int i = 0; i < NPAT && ok; ++i) for(int inv = 0; inv < 2 && ok; ++inv) for(int s = 0; s < 2 && ok; ++s) { uint32_t x = inv ? ~pat(i) : pat(i); ok = one_f(m, (uint32_t)s << 31 | (uint32_t)e << 23 | (x & 0x7fffff)) && one_u32(m, (uint32_t)e << 24 | (x & 0xffffff)); mc_states(2); mc_trans(4); }
      buzzmsg_payload_destroy(&m);
   }
   if(mc_thorough && !MC_ASAN) for(int h = 0; h < 4096; ++h) {
      if(!MC_CASE("all floats and integers with top bits %03x", h)) continue; mc_timeout(300);
      buzzmsg_payload_t m = buzzmsg_payload_new(16); int ok = 1;
      for(uint32_t x = 0; x < 1u << 20 && ok; ++x) ok = one_f(m, (uint32_t)h << 20 | x) && one_u32(m, (uint32_t)h << 20 | x);
      buzzmsg_payload_destroy(&m); mc_states(2u << 20); mc_trans(4u << 20);
   }
}
static void scalars(int e2e) {
   static const int I[] = { 0, 1, -1, 127, 128, 255, 256, -256, 32767, 32768, 65535, 65536, -65536, INT_MAX, INT_MIN, 0x01020304, -0x01020304 };
   static const float F[] = { 0, -0.0f, 1, -1, 0.1f, -0.1f, 3.14159274f, 1e-45f, 1.17549435e-38f, 3.40282347e38f, -3.40282347e38f, INFINITY, -INFINITY, 16777217.f, 0.99999994f, 1.00000012f, 2147483648.f, -2147483648.f };
   for(unsigned i = 0; i < sizeof I / sizeof *I; ++i) if(MC_CASE("integer %d", I[i])) { np = 0; val_t* v = nv(1); v->i = I[i]; check_val(v, 1); }
   for(unsigned i = 0; i < sizeof F / sizeof *F; ++i) if(MC_CASE("float %.9g", F[i])) { np = 0; val_t* v = nv(2); v->f = F[i]; check_val(v, 0); }
   if(MC_CASE("nil")) { np = 0; check_val(nv(0), 0); }
   static const unsigned char AL[] = { 1, 'a', '\'', '\n', 127, 128, 255 };
   for(int l = 0; l <= (MC_ASAN ? 2 : 4); ++l) { int tot = 1; for(int i = 0; i < l; ++i) tot *= 7; for(int x = 0; x < tot; ++x) { if(!mc_next()) continue; char s[8]; int y = x; for(int i = 0; i < l; ++i) { s[i] = AL[y % 7]; y /= 7; } s[l] = 0; mc_desc("string of length %d, code %d", l, x); np = 0; val_t* v = nv(3); v->s = s; check_val(v, 1); } }
   static const int L[] = { 5, 19, 20, 21, 40, 100, 127, 128, 254, 255, 256, 257, 300, 1000, 32767, 32768, 65534, 65535 };
   for(unsigned i = 0; i < sizeof L / sizeof *L; ++i) if(MC_CASE("string of length %d", L[i])) { char* s = malloc(L[i] + 1); for(int j = 0; j < L[i]; ++j) s[j] = 'a' + j % 26; s[L[i]] = 0; np = 0; val_t* v = nv(3); v->s = s; check_val(v, 1); free(s); }
}
/* wide and deep tables, shared and cyclic ones, from scripts */
static void shapes(void) {
   for(int n = 0; n <= 255; ++n) for(int kind = 0; kind < 3; ++kind) {
      if(!MC_CASE("table of %d entries with key kind %d", n, kind)) continue;
      vms(); char b[16];
      buzzvm_pusht(A); for(int i = 0; i < n; ++i) { buzzvm_dup(A); if(kind == 0) buzzvm_pushi(A, i - 50); else if(kind == 1) buzzvm_pushf(A, i * 0.25f); else { sprintf(b, "k%d", i); buzzvm_pushs(A, buzzvm_string_register(A, b, 0)); } buzzvm_pushi(A, i * 1000); buzzvm_tput(A); }
      mcs_t w = {0}, g = {0}; buzzobj_t o = buzzvm_stack_at(A, 1), d; bz_repr(&w, o, 9);
      buzzmsg_payload_t m = buzzmsg_payload_new(1); buzzobj_serialize(m, o); int64_t p = buzzobj_deserialize(&d, m, 0, B);
      if(p != buzzmsg_payload_size(m)) mc_fail("wide", "consumed %ld of %u", (long)p, (unsigned)buzzmsg_payload_size(m)); else { bz_repr(&g, d, 9); if(strcmp(g.s, w.s)) mc_fail("wide", "got %s", g.s); }
      buzzmsg_payload_destroy(&m); mcs_free(&w); mcs_free(&g); vmsfree(); mc_states(1); mc_trans(2);
   }
   for(int n = 1; n <= 64; ++n) for(int share = 0; share < 2; ++share) {
      if(share && n > 10) continue;
      if(!MC_CASE("tables nested %d deep%s", n, share ? ", each shared twice" : "")) continue;
      vms(); buzzvm_pushi(A, 77);
      for(int i = 0; i < n; ++i) { buzzobj_t x = buzzvm_stack_at(A, 1); buzzvm_pop(A); buzzvm_pusht(A); for(int s = 0; s <= share; ++s) { buzzvm_dup(A); buzzvm_pushi(A, s); buzzvm_push(A, x); buzzvm_tput(A); } }
      mcs_t w = {0}, g = {0}; buzzobj_t o = buzzvm_stack_at(A, 1), d; bz_repr(&w, o, 99);
      buzzmsg_payload_t m = buzzmsg_payload_new(1); buzzobj_serialize(m, o); int64_t p = buzzobj_deserialize(&d, m, 0, B);
      if(p != buzzmsg_payload_size(m)) mc_fail("deep", "consumed %ld of %u", (long)p, (unsigned)buzzmsg_payload_size(m)); else { bz_repr(&g, d, 99); if(strcmp(g.s, w.s)) mc_fail("deep", "got %s", g.s); }
      buzzmsg_payload_destroy(&m); mcs_free(&w); mcs_free(&g); vmsfree(); mc_states(1); mc_trans(2);
   }
}
void mc_run(void) {
   numbers(); scalars(1); shapes();
   for(int n = 0; n <= (MC_ASAN ? 2 : mc_thorough ? 5 : 4); ++n) trees(n, n <= 3);
}
