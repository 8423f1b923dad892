/* P25: math functions against an extended-precision reference over boundary arguments of every type; random draws: bounds,
 * determinism per seed, restart on re-seeding at every position, independence of the draws of other VMs. */
#include "bz.h"
#include <math.h>
#include <limits.h>
const char* mc_name = "math";
static bz_prog_t P; static mcs_t got;
static const char* SRC =
   "function a0(f) { return f() }\nfunction a1(f, x) { return f(x) }\nfunction a2(f, x, y) { return f(x, y) }\nfunction a3(f, x, y, z) { return f(x, y, z) }\n"
   "F = {}\nF[0] = math.abs\nF[1] = math.floor\nF[2] = math.ceil\nF[3] = math.round\nF[4] = math.log\nF[5] = math.log2\nF[6] = math.log10\nF[7] = math.exp\nF[8] = math.sqrt\nF[9] = math.sin\nF[10] = math.cos\nF[11] = math.tan\nF[12] = math.asin\nF[13] = math.acos\nF[14] = math.atan\nF[15] = math.min\nF[16] = math.max\nF[17] = math.rng.uniform\nF[18] = math.rng.gaussian\nF[19] = math.rng.exponential\nF[20] = math.rng.setseed\n"
   "function fn(i) { return F[i] }\nfunction seed(s) { math.rng.setseed(s) }\nfunction u0() { return math.rng.uniform() }\nfunction u1(a) { return math.rng.uniform(a) }\nfunction u2(a, b) { return math.rng.uniform(a, b) }\n"
   "function g0() { return math.rng.gaussian() }\nfunction g1(a) { return math.rng.gaussian(a) }\nfunction g2(a, b) { return math.rng.gaussian(a, b) }\nfunction e1(a) { return math.rng.exponential(a) }\nfunction pi() { return math.pi }\n";
static const char* FN[] = { "abs", "floor", "ceil", "round", "log", "log2", "log10", "exp", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "min", "max", "uniform", "gaussian", "exponential", "setseed" };
static buzzvm_t mk(int id) { if(!P.code && bz_compile(SRC, &P)) { mc_fail("compile", "rejected"); exit(9); } buzzvm_t v = bz_vm(id, &P); bz_exec(v, 100000); if(v->state != BUZZVM_STATE_DONE) { mc_fail("script", "%s", v->errormsg); exit(9); } v->state = BUZZVM_STATE_READY; return v; }
static buzzvm_t VM;
static void vmnew(void) { VM = mk(5); }
/* a number (or other value) */
typedef struct { int t; int32_t i; float f; } num_t;    /* t: 0 nil, 1 int, 2 float, 3 string, 4 table, 5 closure, 9 error (i = code) */
static void push(buzzvm_t vm, num_t x) { switch(x.t) { case 0: buzzvm_pushnil(vm); break; case 1: buzzvm_pushi(vm, x.i); break; case 2: buzzvm_pushf(vm, x.f); break; case 3: buzzvm_pushs(vm, buzzvm_string_register(vm, "12", 0)); break; case 4: buzzvm_pusht(vm); break; default: buzzvm_pushs(vm, buzzvm_string_register(vm, "a0", 1)); buzzvm_gload(vm); } }
static num_t take(buzzvm_t vm) { num_t r = {0}; buzzobj_t o = buzzvm_stack_at(vm, 1); switch(o->o.type) { case BUZZTYPE_NIL: r.t = 0; break; case BUZZTYPE_INT: r.t = 1; r.i = o->i.value; break; case BUZZTYPE_FLOAT: r.t = 2; r.f = o->f.value; break; case BUZZTYPE_STRING: r.t = 3; break; case BUZZTYPE_TABLE: r.t = 4; break; default: r.t = 5; } buzzvm_pop(vm); return r; }
static num_t callv(buzzvm_t* vm, const char* f, int n, num_t a, num_t b) {
   int dep = bz_depth(*vm); num_t v[2] = { a, b }; for(int i = 0; i < n; ++i) push(*vm, v[i]); mc_trans(1);
   if(buzzvm_function_call(*vm, f, n) != BUZZVM_STATE_READY) { num_t r = { 9, (*vm)->error }; buzzvm_destroy(vm); *vm = mk(5); return r; }
   num_t r = take(*vm); if(bz_depth(*vm) != dep) mc_fail("stack", "%s leaves %d values", f, bz_depth(*vm) - dep); return r;
}
static num_t call(int f, int n, const num_t* a) {
   if(!VM) vmnew(); buzzvm_pushi(VM, f); buzzvm_function_call(VM, "fn", 1); for(int i = 0; i < n; ++i) push(VM, a[i]); char nm[3] = { 'a', (char)('0' + n), 0 }; mc_trans(1); mc_traces(1);
   if(buzzvm_function_call(VM, nm, n + 1) != BUZZVM_STATE_READY) { num_t r = { 9, VM->error }; buzzvm_destroy(&VM); return r; }
   num_t r = take(VM); if(bz_depth(VM)) { mc_fail("stack", "%s leaves %d values", FN[f], bz_depth(VM)); buzzvm_destroy(&VM); } return r;
}
static const char* show(num_t x) { static char b[4][40]; static int k; char* o = b[k = (k + 1) & 3]; switch(x.t) { case 1: sprintf(o, "%d", x.i); break; case 2: sprintf(o, "f%.9g", x.f); break; case 9: sprintf(o, "error %d", x.i); break; default: sprintf(o, "type %d", x.t); } return o; }
static int32_t IV[400]; static int nI; static float FV[4000]; static int nF;
static void vals(int dense) {
   static const int32_t b[] = { 0, 1, 2, 3, 5, 7, 10, 100, 255, 256, 1000, 65535, 65536, 16777215, 16777216, 16777217, 2147483646, INT_MAX };
   for(int i = 0; i < (int)(sizeof b / sizeof *b); ++i) { IV[nI++] = b[i]; if(b[i]) IV[nI++] = -b[i]; } IV[nI++] = INT_MIN;
   static const float f[] = { 0.0f, 0.5f, 1.5f, 2.5f, 0.25f, 0.75f, 0.49999997f, 0.99999994f, 1.0f, 1.0000001f, 2, 3, 10, 100, 1000, 1e-10f, 1e10f, 1e38f, 3.4028235e38f, 1.1754944e-38f, 1e-45f, 8388607.5f, 8388608, 16777216, 2147483520.0f, 3.1415927f, 1.5707964f, 0.7853982f, 6.2831855f, 88.7f, 88.8f, 104.0f, 123456.79f };
   for(int i = 0; i < (int)(sizeof f / sizeof *f); ++i) { FV[nF++] = f[i]; FV[nF++] = -f[i]; } FV[nF++] = INFINITY; FV[nF++] = -INFINITY; FV[nF++] = NAN;
   for(int k = -dense; k <= dense; ++k) FV[nF++] = k / 16.0f;
}
static int ulp_ok(float g, long double w) {
   if(isnan(w)) return isnan(g); float fw = (float)w; if(isinf(fw)) return isinf(g) ? signbit(g) == signbit(fw) : fabsf(g) > 3.4e38f && signbit(g) == signbit(fw);
   if(isinf(g)) return fabsl(w) > 3.4028e38L; if(isnan(g)) return 0; long double d = fabsl((long double)g - w), u = fabsf(fw) > 0 ? nextafterf(fabsf(fw), INFINITY) - fabsf(fw) : 1e-45L; return d <= 4 * u + 2e-45L;
}
static void unary(int f, num_t a) {
   if(!mc_next()) return; mc_desc("math.%s(%s)", FN[f], show(a)); long double x = a.t == 1 ? (f < 4 ? (long double)a.i : (long double)(float)a.i) : (long double)a.f, w = 0;
   if(f == 0 && a.t == 1 && a.i == INT_MIN) return; if(f >= 1 && f <= 3 && a.t == 2 && !(fabsf(a.f) < 2147483500.0f)) return;
   num_t r = call(f, 1, &a); mc_states(1);
   if(f == 0) { if(a.t == 1 ? r.t != 1 || r.i != abs(a.i) : r.t != 2 || !(isnan(a.f) ? isnan(r.f) : r.f == fabsf(a.f) && !signbit(r.f))) mc_fail("abs", "returned %s", show(r)); return; }
   if(f <= 3) { w = f == 1 ? floorl(x) : f == 2 ? ceill(x) : roundl(x); if(r.t != 1 || r.i != (int32_t)w) mc_fail(FN[f], "returned %s, expected %d", show(r), (int32_t)w); return; }
   switch(f) { case 4: w = logl(x); break; case 5: w = log2l(x); break; case 6: w = log10l(x); break; case 7: w = expl(x); break; case 8: w = sqrtl(x); break; case 9: w = sinl(x); break; case 10: w = cosl(x); break; case 11: w = tanl(x); break; case 12: w = asinl(x); break; case 13: w = acosl(x); break; }
   if(r.t != 2 || !ulp_ok(r.f, w)) mc_fail(FN[f], "returned %s, expected f%.9Lg", show(r), w);
}
static void binary(num_t a, num_t b) {
   if(!mc_next()) return; mc_desc("math.atan, min, max(%s, %s)", show(a), show(b)); num_t v[2] = { a, b };
   float y = a.t == 1 ? (float)a.i : a.f, x = b.t == 1 ? (float)b.i : b.f; num_t r = call(14, 2, v); if(r.t != 2 || !ulp_ok(r.f, atan2l(y, x))) mc_fail("atan", "returned %s, expected f%.9Lg", show(r), atan2l(y, x));
   for(int k = 0; k < 2; ++k) { r = call(15 + k, 2, v); int isa = r.t == a.t && (a.t == 1 ? r.i == a.i : r.f == a.f || (isnan(r.f) && isnan(a.f))), isb = r.t == b.t && (b.t == 1 ? r.i == b.i : r.f == b.f || (isnan(r.f) && isnan(b.f)));
      if(!isa && !isb) { mc_fail(k ? "max" : "min", "returned %s, neither of the arguments", show(r)); continue; }
      if((a.t == 2 && isnan(a.f)) || (b.t == 2 && isnan(b.f))) continue;
      /* integers and floats compare as the language does: mixed comparison in single precision */
      int lt = a.t == 1 && b.t == 1 ? a.i < b.i : y < x, gt = a.t == 1 && b.t == 1 ? a.i > b.i : y > x;
      if((k ? gt : lt) && !isa) mc_fail(k ? "max" : "min", "returned %s", show(r)); if((k ? lt : gt) && !isb) mc_fail(k ? "max" : "min", "returned %s", show(r)); }
   mc_states(3);
}
static void arguments(void) {
   for(int f = 0; f <= 20; ++f) for(int n = 0; n <= 3; ++n) for(int c = 0; c < (n == 0 ? 1 : n == 1 ? 6 : n == 2 ? 36 : 216); ++c) {
      int a[3] = { c % 6, c / 6 % 6, c / 36 }; if(!MC_CASE("math function %s with %d arguments of types %d %d %d", FN[f], n, a[0], a[1], a[2])) continue;
      num_t v[3]; for(int i = 0; i < 3; ++i) { v[i].t = a[i]; v[i].i = 1; v[i].f = 0.5f; }
      int want = f < 14 || f == 19 || f == 20 ? 1 : f < 17 ? 2 : -1, e = -1; num_t r = call(f, n, v);
      if(want >= 0 ? n != want : n > 2) e = BUZZVM_ERROR_LNUM; else if(f == 20) { if(a[0] != 1) e = BUZZVM_ERROR_TYPE; } else if(f != 15 && f != 16) { for(int i = 0; i < n; ++i) if(a[i] != 1 && a[i] != 2) e = BUZZVM_ERROR_TYPE; }
      if(e == BUZZVM_ERROR_LNUM && f == 18 && (a[0] != 1 && a[0] != 2)) { if(r.t != 9) mc_fail("arguments", "accepted"); continue; }
      if(e >= 0 ? r.t != 9 || r.i != e : r.t == 9) mc_fail("arguments", "%s, expected %s %d", show(r), e >= 0 ? "error" : "success", e); mc_states(1); }
}
/* ---------- random numbers ---------- */
static const num_t Z;
static num_t I_(int i) { num_t r = { 1, i, 0 }; return r; } static num_t F_(float f) { num_t r = { 2, 0, f }; return r; }
static num_t draw(buzzvm_t* v, int k) { switch(k) { case 0: return callv(v, "u0", 0, Z, Z); case 1: return callv(v, "u2", 2, I_(-3), I_(9)); case 2: return callv(v, "u2", 2, F_(-1.5f), F_(2)); case 3: return callv(v, "g2", 2, F_(2), F_(1)); case 4: return callv(v, "e1", 1, F_(3), Z); default: return callv(v, "u1", 1, I_(100), Z); } }
static int same(num_t a, num_t b) { return a.t == b.t && (a.t == 1 ? a.i == b.i : a.t == 2 ? a.f == b.f : 1); }
static void ranges(int draws) {
   static const int32_t L[] = { INT_MIN, INT_MIN + 1, -1000000, -7, -3, -2, -1, 0, 1, 2, 3, 7, 1000000, INT_MAX - 1, INT_MAX };
   static const float G[] = { -3.4e38f, -1e10f, -1, -0.5f, 0, 0.25f, 1, 3.3f, 16777217, 1e10f, 3.4e38f };
   for(int s = 0; s < 2; ++s) for(int a = 0; a < 15; ++a) for(int b = -1; b < 15; ++b) { if(!MC_CASE("%d integer draws %s%d, %d, seed %d", draws, b < 0 ? "from 0 to " : "", L[a], b < 0 ? 0 : L[b], s)) continue; if(!VM) vmnew(); callv(&VM, "seed", 1, I_(s ? -77 : 12345), Z);
      int64_t lo = b < 0 ? 0 : L[a], hi = b < 0 ? L[a] : L[b], x; int rev = lo > hi; if(rev) { x = lo; lo = hi; hi = x; } char seen[32] = {0};
      for(int i = 0; i < draws; ++i) { num_t r = b < 0 ? callv(&VM, "u1", 1, I_(L[a]), Z) : callv(&VM, "u2", 2, I_(L[a]), I_(L[b])); if(r.t != 1 || r.i < lo || r.i > hi) { mc_fail("bounds", "draw %d returned %s", i, show(r)); break; } if(hi - lo < 32) seen[r.i - lo] = 1; }
      if(draws > 1000 && hi - lo <= 20 && !mc_case_failed()) for(int64_t k = lo + (rev ? 1 : 0); k <= hi - (rev ? 0 : 1); ++k) if(!seen[k - lo]) { mc_fail("uniform", "%d never drawn in %d draws", (int)k, draws); break; }
      mc_states(draws); mc_traces(1); }
   for(int a = 0; a < 11; ++a) for(int b = -1; b < 11; ++b) for(int m = 0; m < 3; ++m) { if((m == 1 && fabsf(G[a]) > 2e9) || (m == 2 && (b < 0 || fabsf(G[b]) > 2e9))) continue; if(!MC_CASE("float draws %g to %g, kind %d", b < 0 ? 0 : G[a], b < 0 ? G[a] : G[b], m)) continue; if(!VM) vmnew(); callv(&VM, "seed", 1, I_(99), Z);
      num_t A = m == 1 ? I_((int)G[a]) : F_(G[a]), B = b < 0 ? Z : m == 2 ? I_((int)G[b]) : F_(G[b]); if(b < 0 && m) continue; double lo = b < 0 ? 0 : A.t == 1 ? A.i : A.f, hi = b < 0 ? A.f : B.t == 1 ? B.i : B.f, x; if(lo > hi) { x = lo; lo = hi; hi = x; } float first = 0; int varied = 0;
      for(int i = 0; i < draws; ++i) { num_t r = b < 0 ? callv(&VM, "u1", 1, A, Z) : callv(&VM, "u2", 2, A, B); if(r.t != 2 || !(r.f >= (float)lo && r.f <= (float)hi)) { mc_fail("bounds", "draw %d returned %s", i, show(r)); break; } if(i == 0) first = r.f; else if(r.f != first) varied = 1; }
      if(hi > lo && !varied && !mc_case_failed()) mc_fail("uniform", "every draw returned f%g", first); mc_states(draws); mc_traces(1); }
   for(int k = 0; k < 5; ++k) { static const float S[] = { 0.5f, 1, 2, 10, 1000 }; if(!MC_CASE("gaussian and exponential draws with parameter %g", S[k])) continue; if(!VM) vmnew(); buzzvm_t b = mk(6);
      callv(&VM, "seed", 1, I_(5), Z); callv(&b, "seed", 1, I_(5), Z); double sum = 0, sq = 0, es = 0; int n = 3000;
      for(int i = 0; i < n; ++i) { num_t p = callv(&VM, "g0", 0, Z, Z), q = i & 1 ? callv(&b, "g2", 2, F_(S[k]), F_(S[k] * 4)) : callv(&b, "g1", 1, F_(S[k]), Z); float w = p.f * S[k] + (i & 1 ? S[k] * 4 : 0); if(p.t != 2 || q.t != 2 || !isfinite(p.f) || fabsf(q.f - w) > 1e-4f * (fabsf(w) + S[k])) { mc_fail("gaussian", "draw %d: %s and %s", i, show(p), show(q)); break; } sum += p.f; sq += p.f * p.f; }
      if(!mc_case_failed() && (fabs(sum / n) > 0.15 || fabs(sq / n - 1) > 0.2)) mc_fail("gaussian", "mean %g variance %g of %d draws", sum / n, sq / n, n);
      for(int i = 0; i < n; ++i) { num_t p = callv(&VM, "e1", 1, F_(S[k]), Z); if(p.t != 2 || !(p.f >= 0)) { mc_fail("exponential", "draw %d: %s", i, show(p)); break; } es += p.f / S[k]; }
      if(!mc_case_failed() && fabs(es / n - 1) > 0.15) mc_fail("exponential", "mean %g times the requested one", es / n);
      buzzvm_destroy(&b); mc_traces(1); mc_states(n); }
}
/* the generator is documented as the Mersenne Twister: reference MT19937 */
static void mt_check(uint32_t seed, const num_t* ref, int len) {
   uint32_t m[624]; int p = 624; m[0] = seed; for(int i = 1; i < 624; ++i) m[i] = 1812433253u * (m[i - 1] ^ m[i - 1] >> 30) + i;
   for(int n = 0; n < len; ++n) {
      if(p == 624) { for(int i = 0; i < 624; ++i) { uint32_t y = (m[i] & 0x80000000u) | (m[(i + 1) % 624] & 0x7fffffffu); m[i] = m[(i + 397) % 624] ^ y >> 1 ^ (y & 1 ? 0x9908b0dfu : 0); } p = 0; }
      uint32_t y = m[p++]; y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; y ^= y >> 18;
      if(ref[n].t != 1 || ref[n].i != (int32_t)y) { mc_fail("twister", "draw %d with seed %d is %s, expected %d", n, (int)seed, show(ref[n]), (int32_t)y); return; }
   }
}
static const int32_t SD[] = { 0, 1, -1, 12345, INT_MIN, INT_MAX, 65536, -77 };
static void seeds(int len) {
   for(int s = 0; s < 8; ++s) for(int kind = 0; kind < 6; ++kind) { if(!MC_CASE("seed %d, draws of kind %d", SD[s], kind)) continue; buzzvm_t a = mk(1), b = mk(40000); num_t* ref = calloc(len, sizeof *ref); int ok = 1;
      callv(&a, "seed", 1, I_(SD[s]), Z); for(int i = 0; i < len; ++i) ref[i] = draw(&a, kind);
      /* the same seed on a VM with another history gives the same sequence, from any number of draws */
      for(int pre = 0; ok && pre < 1300; pre += pre < 3 ? 1 : 103) { for(int i = 0; i < pre; ++i) draw(&b, (i + kind) % 6); callv(&b, "seed", 1, I_(SD[s]), Z); for(int i = 0; ok && i < len; ++i) { num_t r = draw(&b, kind); if(!same(r, ref[i])) { mc_fail("determinism", "draw %d is %s after %d earlier draws, %s otherwise", i, show(r), pre, show(ref[i])); ok = 0; } } mc_states(1); }
      if(ok && kind == 0) mt_check(SD[s], ref, len);
      if(ok && kind == 0 && len >= 20) { int rep = 0; for(int i = 1; i < len; ++i) rep += same(ref[i], ref[i - 1]); if(rep > 2) mc_fail("sequence", "%d of %d consecutive draws are equal", rep, len); for(int s2 = 0; s2 < s; ++s2) { callv(&b, "seed", 1, I_(SD[s2]), Z); int eq = 0; for(int i = 0; i < 20; ++i) eq += same(draw(&b, 0), ref[i]); if(eq > 10) mc_fail("sequence", "seeds %d and %d give the same sequence", SD[s], SD[s2]); } }
      free(ref); buzzvm_destroy(&a); buzzvm_destroy(&b); mc_traces(1); }
}
/* every interleaving of the draws, re-seedings and destruction of other VMs */
static void interleave(int n) {
   for(int pos = 0; pos < 3; ++pos) for(int m = 0; m < 1 << (2 * n); ++m) { int c0 = 0, c1 = 0, c2 = 0; (void)c2; if(!mc_next()) continue; int start = pos == 0 ? 0 : pos == 1 ? 621 : 1245; mc_desc("interleaving %x of two VMs, starting at draw %d", m, start);
      static num_t refa[3][32], refb[3][32]; static int have[3]; if(!have[pos]) { buzzvm_t a = mk(1); callv(&a, "seed", 1, I_(7), Z); for(int i = 0; i < start; ++i) draw(&a, 0); for(int i = 0; i < 2 * n; ++i) refa[pos][i] = draw(&a, i % 6); buzzvm_destroy(&a); a = mk(1); callv(&a, "seed", 1, I_(8), Z); for(int i = 0; i < start; ++i) draw(&a, 0); for(int i = 0; i < 2 * n; ++i) refb[pos][i] = draw(&a, (i + 1) % 6); buzzvm_destroy(&a); have[pos] = 1; }
      buzzvm_t a = mk(1); callv(&a, "seed", 1, I_(7), Z); buzzvm_t b = mk(2); callv(&b, "seed", 1, I_(8), Z); for(int i = 0; i < start; ++i) { draw(&a, 0); draw(&b, 0); }
      for(int i = 0; i < 2 * n; ++i) { if(m >> i & 1) { num_t r = draw(&a, c0 % 6); if(!same(r, refa[pos][c0])) { mc_fail("isolation", "draw %d of the first VM is %s, alone %s", c0, show(r), show(refa[pos][c0])); break; } ++c0; } else { num_t r = draw(&b, (c1 + 1) % 6); if(!same(r, refb[pos][c1])) { mc_fail("isolation", "draw %d of the second VM is %s, alone %s", c1, show(r), show(refb[pos][c1])); break; } ++c1; if(c1 == n) { buzzvm_t c = mk(3); draw(&c, 0); buzzvm_destroy(&c); } } }
      buzzvm_destroy(&a); buzzvm_destroy(&b); mc_states(2 * n); mc_traces(1); }
}
void mc_run(void) {
   int t = mc_thorough; vals(MC_ASAN ? 40 : t ? 1500 : 400); arguments();
   for(int f = 0; f < 14; ++f) { for(int i = 0; i < nI; ++i) unary(f, I_(IV[i])); for(int i = 0; i < nF; ++i) unary(f, F_(FV[i])); }
   if(MC_ASAN) { ranges(20); seeds(8); return; }
   int nb = t ? 300 : 110; for(int i = 0; i < nI + nb; ++i) for(int j = 0; j < nI + nb; ++j) binary(i < nI ? I_(IV[i]) : F_(FV[i - nI]), j < nI ? I_(IV[j]) : F_(FV[j - nI]));
   ranges(t ? 20000 : 1500); seeds(1300); interleave(t ? 5 : 4);
   if(MC_CASE("math.pi")) { if(!VM) vmnew(); num_t r = callv(&VM, "pi", 0, Z, Z); if(r.t != 2 || r.f != 3.14159274f) mc_fail("pi", "%s", show(r)); }
}
