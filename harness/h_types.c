/* P32: type queries and conversions on every kind of value; functions as data between robots that run the same program. */
#include "bz.h"
#include <math.h>
#include <limits.h>
const char* mc_name = "types";
/* ---------- (a) type queries ---------- */
static const char* SRC =
   "function f0() { return 1 }\nfunction ty(x) { return type(x) }\n"
   "Q = {}\nQ[0] = isnil\nQ[1] = isint\nQ[2] = isfloat\nQ[3] = isstring\nQ[4] = istable\nQ[5] = isclosure\nQ[6] = isuserdata\nQ[7] = type\nQ[8] = int\nQ[9] = float\nQ[10] = clone\nQ[11] = size\n"
   "function q0(i) { var g = Q[i]\n return g() }\nfunction q1(i, x) { var g = Q[i]\n return g(x) }\nfunction q2(i, x, y) { var g = Q[i]\n return g(x, y) }\nfunction q3(i, x, y, z) { var g = Q[i]\n return g(x, y, z) }\n"
   "function toi(x) { return int(x) }\nfunction tof(x) { return float(x) }\nfunction rt(x) { return int(float(x)) }\nL = function(x) { return x }\nT = { .m = function() { return self } }\n"
   "function lam(k) { return function() { return k } }\nK = lam(3)\nfunction get(i) { if(i == 0) return f0\n if(i == 1) return L\n if(i == 2) return T.m\n if(i == 3) return K\n if(i == 4) return math.abs\n return type }\n";
static bz_prog_t P; static buzzvm_t VM; static mcs_t out;
static void vmnew(void) { if(!P.code && bz_compile(SRC, &P)) { fprintf(stderr, "script\n"); exit(9); } VM = bz_vm(5, &P); bz_exec(VM, 100000); if(VM->state != BUZZVM_STATE_DONE) { fprintf(stderr, "script: %s\n", VM->errormsg); exit(9); } VM->state = BUZZVM_STATE_READY; }
#define NVAL 30
static const char* TN[] = { "nil", "integer", "float", "string", "table", "closure", "userdata" };
/* pushes value i; returns its type */
static int pushv(int i) {
   static const int32_t I[] = { 0, 1, -1, INT_MAX, INT_MIN, 16777217 }; static const float F[] = { 0.0f, -0.0f, 1.0f, -2.75f, 3e38f, 1e-45f };
   if(i == 0) { buzzvm_pushnil(VM); return 0; } --i;
   if(i < 6) { buzzvm_pushi(VM, I[i]); return 1; } i -= 6;
   if(i < 6) { buzzvm_pushf(VM, F[i]); return 2; } i -= 6;
   if(i == 0) { buzzvm_pushf(VM, INFINITY); return 2; } if(i == 1) { buzzvm_pushf(VM, NAN); return 2; } i -= 2;
   static const char* S[] = { "", "0", "nil", "integer", "a longer string, 1.5" };
   if(i < 5) { buzzvm_pushs(VM, buzzvm_string_register(VM, S[i], 0)); return 3; } i -= 5;
   if(i < 3) { buzzvm_pusht(VM); for(int k = 0; k < (i == 2 ? 12 : i); ++k) { buzzvm_dup(VM); buzzvm_pushi(VM, k); buzzvm_pushf(VM, k); buzzvm_tput(VM); } return 4; } i -= 3;
   if(i < 6) { buzzvm_pushi(VM, i); buzzvm_function_call(VM, "get", 1); return 5; }
   buzzvm_pushu(VM, (void*)(uintptr_t)0x1234); return 6;
}
static const int VSIZE[NVAL] = { [20] = 0, [21] = 1, [22] = 12 };
static void queries(void) {
   for(int v = 0; v < NVAL; ++v) for(int q = 0; q <= 11; ++q) for(int n = 0; n <= 3; ++n) {
      if(!MC_CASE("query %d with %d arguments, the first being value %d", q, n, v)) continue;
      if(!VM) vmnew(); int dep = bz_depth(VM), t = -1; char nm[3] = { 'q', (char)('0' + n), 0 }; mcs_clear(&out); buzzobj_t arg = NULL;
      buzzvm_pushi(VM, q); for(int i = 0; i < n; ++i) { int x = pushv(i ? 0 : v); if(!i) { t = x; arg = buzzvm_stack_at(VM, 1); bz_repr(&out, arg, 4); } }
      mc_trans(1); mc_traces(1); mc_states(1);
      int want = n != 1 ? BUZZVM_ERROR_LNUM : (q == 8 && t != 2) || (q == 9 && t != 1) || (q == 11 && t != 4) ? BUZZVM_ERROR_TYPE : -1;
      if(q == 8 && t == 2 && n == 1 && !(fabsf(arg->f.value) < 2147483648.0f)) { buzzvm_destroy(&VM); continue; }
      buzzvm_state s = buzzvm_function_call(VM, nm, n + 1);
      if(want >= 0) { if(s != BUZZVM_STATE_ERROR || VM->error != want || !VM->errormsg || !*VM->errormsg) mc_fail("arguments", "state %s error %d, expected error %d", bz_statename(VM), VM->error, want); buzzvm_destroy(&VM); continue; }
      if(s != BUZZVM_STATE_READY) { mc_fail("error", "%s", VM->errormsg); buzzvm_destroy(&VM); continue; }
      buzzobj_t r = buzzvm_stack_at(VM, 1); mcs_t g = {0}; bz_repr(&g, r, 4); mcs_t e = {0};
      if(q < 7) mcs_add(&e, "%d", q == t); else if(q == 7) mcs_add(&e, "'%s'", TN[t]); else if(q == 8) mcs_add(&e, "%d", (int32_t)arg->f.value); else if(q == 9) mcs_add(&e, "f%.9g", (float)arg->i.value); else if(q == 11) mcs_add(&e, "%d", VSIZE[v]); else mcs_add(&e, "%s", out.s);
      if(strcmp(g.s, e.s)) mc_fail(q < 8 ? "type" : q < 10 ? "conversion" : "value", "gave %s, expected %s", g.s, e.s);
      if(q == 10 && t == 4 && (r == arg || r->t.value == arg->t.value)) mc_fail("clone", "the clone is the table itself");
      if(q == 10 && t == 6 && r->u.value != arg->u.value) mc_fail("clone", "another user pointer");
      mcs_clear(&g); bz_repr(&g, arg, 4); if(strcmp(g.s, out.s)) mc_fail("argument", "the argument became %s, was %s", g.s, out.s);
      buzzvm_pop(VM); if(bz_depth(VM) != dep) { mc_fail("stack", "%d values left", bz_depth(VM) - dep); buzzvm_destroy(&VM); }
      mcs_free(&g); mcs_free(&e); mc_sample("query %d of value %d (%s)", q, v, TN[t]);
   }
}
/* ---------- (b) conversions ---------- */
static int conv(const char* f, int isf, int32_t i, float x, int32_t* ri, float* rf) {
   if(!VM) vmnew(); if(isf) buzzvm_pushf(VM, x); else buzzvm_pushi(VM, i); mc_trans(1);
   if(buzzvm_function_call(VM, f, 1) != BUZZVM_STATE_READY) { mc_fail("error", "%s: %s", f, VM->errormsg); buzzvm_destroy(&VM); return -1; }
   buzzobj_t o = buzzvm_stack_at(VM, 1); int t = o->o.type; if(t == BUZZTYPE_INT) *ri = o->i.value; if(t == BUZZTYPE_FLOAT) *rf = o->f.value; buzzvm_pop(VM); return t;
}
static void one_f(uint32_t bits) {
   float x; memcpy(&x, &bits, 4); if(!(x > -2147483649.0 && x < 2147483648.0)) return; int32_t i = 0, w; float f = 0;
   /* truncation from the representation itself */
   int e = (int)(bits >> 23 & 255) - 127; uint32_t m = (bits & 0x7fffff) | 0x800000; uint64_t z = e < 0 ? 0 : e <= 23 ? m >> (23 - e) : (uint64_t)m << (e - 23); if(!(bits >> 23 & 255)) z = 0; w = bits >> 31 ? (int32_t)-(int64_t)z : (int32_t)z;
   if(conv("toi", 1, 0, x, &i, &f) != BUZZTYPE_INT || i != w) mc_fail("int", "int(%.9g) is %d, expected %d", x, i, w);
}
static void one_i(int32_t v) {
   int32_t i = 0; float f = 0; int t = conv("tof", 0, v, 0, &i, &f);
   /* nearest float: no float is closer */
   double d = fabs((double)f - v), u = fabs((double)nextafterf(f, INFINITY) - v), l = fabs((double)nextafterf(f, -INFINITY) - v);
   if(t != BUZZTYPE_FLOAT || d > u || d > l) mc_fail("float", "float(%d) is %.9g", v, f);
   if(v > -16777217 && v < 16777217) { if(conv("rt", 0, v, 0, &i, &f) != BUZZTYPE_INT || i != v) mc_fail("roundtrip", "int(float(%d)) is %d", v, i); }
}
static void conversions(void) {
   for(int s = 0; s < 2; ++s) for(int e = 0; e < 159; ++e) {
      if(!MC_CASE("int() of floats with sign %d and exponent %d", s, e - 127)) continue; uint32_t b = (uint32_t)s << 31 | (uint32_t)e << 23, n = 0;
      for(int i = 0; i < 24; ++i) for(int j = 0; j <= i; ++j) { uint32_t m = (i < 23 ? 1u << i : 0) | (j < 23 ? 1u << j : 0); one_f(b | m); one_f(b | (~m & 0x7fffff)); n += 2; }
      if(mc_thorough) for(uint32_t m = 0; m < 0x800000; m += 257) { one_f(b | m); ++n; }
      mc_states(n); mc_traces(n);
   }
   int R = mc_thorough ? 200000 : 4000;
   for(int c = -8; c < 8; ++c) { if(!MC_CASE("float() of integers, part %d", c)) continue; for(int i = c * R / 8; i < (c + 1) * R / 8; ++i) { one_i(i); mc_states(1); mc_traces(1); } }
   for(int k = 10; k < 32; ++k) { if(!MC_CASE("float() around 2^%d", k)) continue; for(int d = -200; d <= 200; ++d) for(int s = -1; s <= 1; s += 2) { int64_t v = s * ((int64_t)1 << k) + d; if(v < INT_MIN || v > INT_MAX) continue; one_i((int32_t)v); mc_states(1); mc_traces(1); } }
}
/* ---------- (c) functions as data ---------- */
#define NFUN 12
static const char* MSRC =
   "G = 0\nfunction fa() { t(\"fa\")\n }\nfunction fb(x) { t(\"fb\", x, G)\n G = G + 1\n return x }\nfunction fc(x, y) { var z = { .a = x }\n t(\"fc\", x, y)\n z.b = y\n return z }\n"
   "fd = function(x) { if(x == nil) return 0\n return fb(x) }\nM = { .k = 5, .me = function(x) { if(self == nil) return \"none\"\n return self.k } }\n"
   "function fe(x) { return function(y) { return x } }\nfunction fr(n) { if(n == 0) return 1\n return n * fr(n - 1) }\nfunction fs() { return \"text\" }\n"
   "function fl(x) { var i = 0\n while(i < 3) { i = i + 1\n t(i) }\n return i }\nfunction fg() { G = { .v = \"w\" }\n return G.v }\n"
   "function pick(i) { if(i == 0) return fa\n if(i == 1) return fb\n if(i == 2) return fc\n if(i == 3) return fd\n if(i == 4) return M.me\n if(i == 5) return fe\n if(i == 6) return fr\n if(i == 7) return fs\n if(i == 8) return fl\n if(i == 9) return fg\n if(i == 10) return math.abs\n return string.length }\n"
   "V = stigmergy.create(4)\nR = nil\n"
   "function send(i, how) { var f = pick(i)\n if(how == 0) neighbors.broadcast(\"c\", f)\n if(how == 1) neighbors.broadcast(\"c\", { .f = f, .n = 1 })\n if(how == 2) V.put(\"k\", f)\n if(how == 3) V.put(\"k\", { .a = { .f = f } }) }\n"
   "neighbors.listen(\"c\", function(a, v, r) { R = v })\n"
   "function arg(i, n) { if(i == 11) return \"abcd\"\n if(i == 10) return -4\n if(i == 6) return 3\n return n }\n"
   "function apply(f, i) { var r\n if(i == 0) r = f()\n if(i == 2) r = f(1, \"two\")\n if(i == 7) r = f()\n if(i == 9) r = f()\n if((i != 0) and (i != 2) and (i != 7) and (i != 9)) r = f(arg(i, 9))\n if(i == 5) t(r(1))\n if(i != 5) t(r)\n t(G) }\n"
   "function got(how) { var x = R\n if(how >= 2) x = V.get(\"k\")\n if(how == 1) x = x.f\n if(how == 3) x = x.a.f\n return x }\n"
   "function uselocal(i) { apply(pick(i), i) }\nfunction use(i, how) { apply(got(how), i) }\n"
   "function usevar(i, how) { H = got(how)\n apply(H, i) }\n"
   "function meth(how) { var o = { .k = 77 }\n o.m = got(how)\n t(o.m(1)) }\nfunction relay(how) { neighbors.broadcast(\"c\", got(how)) }\nfunction kind(how) { t(type(got(how)), isclosure(got(how))) }\n"
   "function churn() { var i = 0\n while(i < 400) { X = { .a = string.concat(\"q\", string.tostring(i)) }\n i = i + 1 } }\n";
static bz_prog_t MP;
static int call(buzzvm_t v, const char* f, int n, int a, int b) { if(n > 0) buzzvm_pushi(v, a); if(n > 1) buzzvm_pushi(v, b); mc_trans(1); if(buzzvm_function_call(v, f, n) != BUZZVM_STATE_READY) { mc_fail("error", "%s(%d, %d): %s", f, a, b, v->errormsg); return 0; } buzzvm_pop(v); return 1; }
static buzzvm_t mk(int id) { if(!MP.code && bz_compile(MSRC, &MP)) { fprintf(stderr, "mobile script\n"); exit(9); } buzzvm_t v = bz_vm(id, &MP); bz_exec(v, 10000); if(v->state != BUZZVM_STATE_DONE) { fprintf(stderr, "mobile: %s\n", v->errormsg); exit(9); } v->state = BUZZVM_STATE_READY; return v; }
static void ship(buzzvm_t a, int from, buzzvm_t b) { bz_msgs_t q = {0}; bz_drain(a, &q); for(int i = 0; i < q.n; ++i) bz_deliver(b, from, &q.m[i]); bz_msgs_free(&q); buzzvm_process_inmsgs(b); }
static void mobile(void) {
   /* way of sending, way of use (direct, stored in a global, as a method, after a relay by a third robot), with or without collections in between, how often used */
   for(int i = 0; i < NFUN; ++i) for(int how = 0; how < 4; ++how) for(int use = 0; use < 4; ++use) for(int gc = 0; gc < 2; ++gc) for(int rep = 1; rep <= 2; ++rep) {
      if(use == 2 && i != 4) continue; if(use == 3 && how == 3 && 0) continue;
      if(!MC_CASE("function %d sent by way %d, used by way %d %d times%s", i, how, use, rep, gc ? ", with collections in between" : "")) continue;
      buzzvm_t a = mk(1), b = mk(2), c = mk(40000), r = mk(use == 3 ? 40000 : 2); mcs_t want = {0}; mcs_clear(&bz_trace); int ok = 1;
      /* the sending robot's own state must not matter */
      ok = ok && call(a, "churn", 0, 0, 0); mcs_clear(&bz_trace);
      if(use != 2 && i != 4) for(int k = 0; k < rep && ok; ++k) ok = call(r, "uselocal", 1, i, 0);
      else for(int k = 0; k < rep; ++k) { if(use == 2) mcs_add(&bz_trace, "77;"); else mcs_add(&bz_trace, "'none';0;"); }
      mcs_add(&want, "'closure' 1;%s", bz_trace.s ? bz_trace.s : ""); mcs_clear(&bz_trace);
      ok = ok && call(a, "send", 2, i, how); if(ok) ship(a, 1, b); buzzvm_t d = b; int h = how;
      if(gc && ok) ok = call(b, "churn", 0, 0, 0);
      if(use == 3 && ok) { ok = call(b, "relay", 1, how, 0); if(ok) { bz_msgs_t q = {0}; bz_drain(b, &q); for(int k = 0; k < q.n; ++k) if(q.m[k].d[0] == BUZZMSG_BROADCAST) bz_deliver(c, 2, &q.m[k]); bz_msgs_free(&q); buzzvm_process_inmsgs(c); d = c; h = 0; if(gc) ok = call(c, "churn", 0, 0, 0); } }
      if(ok) ok = call(d, "kind", 1, h, 0);
      for(int k = 0; k < rep && ok; ++k) { ok = use == 2 ? call(d, "meth", 1, h, 0) : call(d, use == 1 ? "usevar" : "use", 2, i, h); if(gc && ok) ok = call(d, "churn", 0, 0, 0); }
      if(ok && strcmp(bz_trace.s, want.s)) mc_fail("mobile", "the received function gave [%s], the local one [%s]", bz_trace.s, want.s);
      if(ok && (bz_depth(d) || d->state != BUZZVM_STATE_READY)) mc_fail("stack", "%d values left, VM %s", bz_depth(d), bz_statename(d));
      if(ok) mc_sample("function %d, way %d, use %d: %s", i, how, use, want.s);
      mcs_free(&want); buzzvm_destroy(&a); buzzvm_destroy(&b); buzzvm_destroy(&c); buzzvm_destroy(&r); mc_states(4); mc_traces(1);
   }
}
void mc_run(void) { queries(); mobile(); if(!MC_ASAN) conversions(); }
