/* P24: the native string functions and the string library against references, for every string over a small alphabet and
 * every position around its ends. */
#include "bz.h"
#include <errno.h>
#include <limits.h>
const char* mc_name = "strings";
static bz_prog_t P; static buzzvm_t VM; static mcs_t src, got, ex;
static void vmnew(void) {
   if(!P.code) { const char* r = getenv("BUZZ_REPO"); mcs_add(&src, "include \"%s/src/include/string.bzz\"\n"
      "function len(s) { return string.length(s) }\nfunction sub2(s, n) { return string.sub(s, n) }\nfunction sub3(s, n, m) { return string.sub(s, n, m) }\n"
      "function charat(s, n) { return string.charat(s, n) }\nfunction first(s, m) { return string.indexoffirst(s, m) }\nfunction last(s, m) { return string.indexoflast(s, m) }\n"
      "function split(s, d) { return string.split(s, d) }\nfunction cat2(a, b) { return string.concat(a, b) }\nfunction cat3(a, b, c) { return string.concat(a, b, c) }\nfunction cat4(a, b, c, d) { return string.concat(a, b, c, d) }\n"
      "function toint(s) { return string.toint(s) }\nfunction tofloat(s) { return string.tofloat(s) }\nfunction tostring(s) { return string.tostring(s) }\nfunction rt(x) { return string.toint(string.tostring(x)) }\n"
      "function same(a, b) { var t = {}\n t[a] = 1\n return (a == b) + 2 * (t[b] == 1) }\n"
      "function app(n) { var s = \"\"\n var i = 0\n while(i < n) { s = string.concat(s, \"x\", string.tostring(i %% 10))\n i = i + 1 }\n return s }\n"
      "function a0(f) { return f() }\nfunction a1(f, x) { return f(x) }\nfunction a2(f, x, y) { return f(x, y) }\nfunction a3(f, x, y, z) { return f(x, y, z) }\n"
      "F = { .0 = string.length, .1 = string.sub, .2 = string.concat, .3 = string.tostring, .4 = string.toint, .5 = string.tofloat }\n"
      "function fn(i) { return F[i] }\n", r ? r : "/repo");
      if(bz_compile(src.s, &P)) { mc_fail("compile", "the string library is rejected"); exit(9); } }
   VM = bz_vm(5, &P); bz_exec(VM, 1000000); if(VM->state != BUZZVM_STATE_DONE) { mc_fail("script", "%s", VM->errormsg); exit(9); } VM->state = BUZZVM_STATE_READY;
}
static void ps(const char* s) { buzzvm_pushs(VM, buzzvm_string_register(VM, s, 0)); }
static int call(const char* f, int n) {
   mcs_clear(&got); int dep = bz_depth(VM) - n; mc_trans(1);
   if(buzzvm_function_call(VM, f, n) != BUZZVM_STATE_READY) { mcs_add(&got, "error %d", VM->error); buzzvm_destroy(&VM); vmnew(); return 0; }
   bz_repr(&got, buzzvm_stack_at(VM, 1), 4); buzzvm_pop(VM);
   if(bz_depth(VM) != dep) { mc_fail("stack", "%s leaves %d values", f, bz_depth(VM) - dep); buzzvm_destroy(&VM); vmnew(); }
   mc_traces(1); return 1;
}
static void expect(const char* f) { if(strcmp(got.n ? got.s : "", ex.n ? ex.s : "")) mc_fail(f, "returned %s, expected %s", got.n ? got.s : "", ex.n ? ex.s : ""); }
static void xs(const char* s, int a, int b) { mcs_clear(&ex); if(a < 0) mcs_add(&ex, "nil"); else mcs_add(&ex, "'%.*s'", b - a, s + a); }
/* all strings of length <= n over alphabet al: index -> string */
static long count(int na, int n) { long c = 0, p = 1; for(int i = 0; i <= n; ++i) { c += p; p *= na; } return c; }
static void nth(long i, const char* al, int n, char* o) { int na = strlen(al), l = 0; long p = 1; while(i >= p) { i -= p; p *= na; ++l; } for(int k = 0; k < l; ++k) { o[k] = al[i % na]; i /= na; } o[l] = 0; (void)n; }
static const int IX[] = { INT_MIN, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 255, 65536, INT_MAX };
#define NIX ((int)(sizeof IX / sizeof *IX))
static void subs(const char* al, int n) {
   for(long i = 0; i < count(strlen(al), n); ++i) { char s[16]; nth(i, al, n, s); int l = strlen(s); if(!MC_CASE("length, substrings and characters of \"%s\"", s)) continue; if(!VM) vmnew();
      ps(s); call("len", 1); mcs_clear(&ex); mcs_add(&ex, "%d", l); expect("length");
      for(int a = 0; a < NIX; ++a) {
         int ia = IX[a]; ps(s); buzzvm_pushi(VM, ia); call("sub2", 2); xs(s, ia < 0 || ia >= l ? -1 : ia, l); expect("sub");
         if(ia != INT_MAX) { ps(s); buzzvm_pushi(VM, ia); call("charat", 2); xs(s, ia < 0 || ia >= l ? -1 : ia, ia + 1); expect("charat"); }
         for(int b = 0; b < NIX; ++b) { int ib = IX[b]; ps(s); buzzvm_pushi(VM, ia); buzzvm_pushi(VM, ib); call("sub3", 3); xs(s, ia < 0 || ia >= l || ib < ia ? -1 : ia, ib > l ? l : ib); expect("sub"); }
      }
      mc_states(1); }
}
static void searches(const char* al, int n, int m) {
   for(long i = 0; i < count(strlen(al), n); ++i) { char s[16]; nth(i, al, n, s); if(!MC_CASE("occurrences within \"%s\"", s)) continue; if(!VM) vmnew();
      for(long j = 1; j < count(strlen(al), m); ++j) { char p[16]; nth(j, al, m, p); int f = -1, la = -1, ls = strlen(s), lp = strlen(p);
         for(int k = 0; k + lp <= ls; ++k) if(!memcmp(s + k, p, lp)) { if(f < 0) f = k; la = k; }
         ps(s); ps(p); call("first", 2); mcs_clear(&ex); if(f < 0) mcs_add(&ex, "nil"); else mcs_add(&ex, "%d", f); expect("indexoffirst");
         ps(s); ps(p); call("last", 2); mcs_clear(&ex); if(la < 0) mcs_add(&ex, "nil"); else mcs_add(&ex, "%d", la); expect("indexoflast"); }
      mc_states(1); }
}
static void splits(const char* al, int n, int m) {
   for(long i = 0; i < count(strlen(al), n); ++i) { char s[16]; nth(i, al, n, s); if(!MC_CASE("splitting \"%s\"", s)) continue; if(!VM) vmnew();
      for(long j = 0; j < count(strlen(al), m); ++j) { char d[16]; nth(j, al, m, d); ps(s); ps(d); call("split", 2);
         int c = 0; mcs_clear(&ex); mcs_add(&ex, "{"); for(char* q = s; *q; ) { int l = strcspn(q, d); if(l) { mcs_add(&ex, "%s%d='%.*s'", c ? "," : "", c, l, q); ++c; } q += l; if(*q) ++q; } mcs_add(&ex, "}"); expect("split"); }
      mc_states(1); }
}
static void concats(void) {
   static const char* S[] = { "", "a", "b", "ab", "ba", "\xff", "long string that exceeds any small inline buffer the implementation could be using for its results", "%s%d" };
   for(int a = 0; a < 8; ++a) for(int b = 0; b < 8; ++b) { if(!MC_CASE("concatenations starting with \"%s\" \"%s\"", S[a], S[b])) continue; if(!VM) vmnew();
      ps(S[a]); ps(S[b]); call("cat2", 2); mcs_clear(&ex); mcs_add(&ex, "'%s%s'", S[a], S[b]); expect("concat");
      for(int c = 0; c < 8; ++c) { ps(S[a]); ps(S[b]); ps(S[c]); call("cat3", 3); mcs_clear(&ex); mcs_add(&ex, "'%s%s%s'", S[a], S[b], S[c]); expect("concat");
         for(int d = 0; d < 8; ++d) { ps(S[a]); ps(S[b]); ps(S[c]); ps(S[d]); call("cat4", 4); mcs_clear(&ex); mcs_add(&ex, "'%s%s%s%s'", S[a], S[b], S[c], S[d]); expect("concat"); } }
      ps(S[a]); ps(S[b]); call("same", 2); mcs_clear(&ex); mcs_add(&ex, "%d", strcmp(S[a], S[b]) ? 0 : 3); expect("equality"); mc_states(1); }
   for(int n = 0; n <= (mc_thorough ? 3000 : 700); n += n < 40 ? 1 : 60) { if(!MC_CASE("a string grown by %d concatenations", n)) continue; if(!VM) vmnew(); buzzvm_pushi(VM, n); call("app", 1); mcs_clear(&ex); mcs_add(&ex, "'"); for(int i = 0; i < n; ++i) mcs_add(&ex, "x%d", i % 10); mcs_add(&ex, "'"); expect("concat"); }
   for(int l = 0; l <= 70000; l = l < 300 ? l + 17 : l * 3) { if(!MC_CASE("string of %d characters", l)) continue; if(!VM) vmnew(); char* z = malloc(l + 1); memset(z, 'q', l); z[l] = 0; if(l) z[l - 1] = 'r'; ps(z); call("len", 1); mcs_clear(&ex); mcs_add(&ex, "%d", l); expect("length");
      ps(z); buzzvm_pushi(VM, l - 1); call("sub2", 2); mcs_clear(&ex); mcs_add(&ex, l ? "'r'" : "nil"); expect("sub"); ps(z); ps(z); call("cat2", 2); mcs_clear(&ex); mcs_add(&ex, "'%s%s'", z, z); expect("concat"); free(z); }
   /* every byte value */
   for(int c = 1; c < 256; ++c) { if(!MC_CASE("character %d", c)) continue; if(!VM) vmnew(); char z[4] = { 'a', (char)c, 'z', 0 }; ps(z); call("len", 1); mcs_clear(&ex); mcs_add(&ex, "3"); expect("length"); ps(z); buzzvm_pushi(VM, 1); call("charat", 2); xs(z, 1, 2); expect("charat"); char y[2] = { (char)c, 0 }; ps(z); ps(y); call("first", 2); mcs_clear(&ex); mcs_add(&ex, "%d", c == 'a' ? 0 : 1); expect("indexoffirst"); ps(z); ps(y); call("split", 2); mcs_clear(&ex); mcs_add(&ex, c == 'a' ? "{0='z'}" : c == 'z' ? "{0='a'}" : "{0='a',1='z'}"); expect("split"); }
}
/* decimal integer prefix after optional white space and sign */
static int r_int(const char* s, long long* v) { while(*s == ' ' || *s == '\t') ++s; int neg = 0; if(*s == '-' || *s == '+') neg = *s++ == '-'; if(*s < '0' || *s > '9') return 0; __int128 x = 0; while(*s >= '0' && *s <= '9') { x = x * 10 + (*s++ - '0'); if(x > (__int128)1 << 80) x = (__int128)1 << 80; } if(neg) x = -x; if(x < INT_MIN || x > INT_MAX) return 0; *v = (long long)x; return 1; }
static void checkint(const char* s) { long long v; ps(s); call("toint", 1); mcs_clear(&ex); if(r_int(s, &v)) mcs_add(&ex, "%lld", v); else mcs_add(&ex, "nil"); expect("toint"); }
static void checkfloat(const char* s) {
   const char* q = s; while(*q == ' ') ++q; const char* b = q; if(*q == '-' || *q == '+') ++q; int d = 0; while(*q >= '0' && *q <= '9') ++q, ++d; if(*q == '.') { ++q; while(*q >= '0' && *q <= '9') ++q, ++d; }
   if(d && *q == 'e') { const char* z = q + 1; if(*z == '-' || *z == '+') ++z; if(*z >= '0' && *z <= '9') { while(*z >= '0' && *z <= '9') ++z; q = z; } }
   ps(s); call("tofloat", 1); mcs_clear(&ex); if(!d) mcs_add(&ex, "nil"); else { char t[64]; snprintf(t, sizeof t, "%.*s", (int)(q - b), b); double x = strtod(t, NULL); float f = strtof(t, NULL); errno = 0; strtof(t, NULL); if(errno && f == 0) mcs_add(&ex, "nil"); else mcs_add(&ex, "f%.9g", f); (void)x; }
   expect("tofloat");
}
static void conversions(int n) {
   for(long i = 0; i < count(8, n); i += 64) { if(!MC_CASE("integer conversion of strings %ld to %ld over 019-+ a.", i, i + 63)) continue; if(!VM) vmnew(); for(long j = i; j < i + 64 && j < count(8, n); ++j) { char s[16]; nth(j, "019-+ a.", n, s); checkint(s); } mc_states(64); }
   for(long i = 0; i < count(7, n); i += 64) { if(!MC_CASE("float conversion of strings %ld to %ld over 05.-e a", i, i + 63)) continue; if(!VM) vmnew(); for(long j = i; j < i + 64 && j < count(7, n); ++j) { char s[16]; nth(j, "05.-e a", n, s); checkfloat(s); } mc_states(64); }
   static const char* B[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967295", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "0000000000000002147483647", "-00000", "6442450944", "12345678901", "\t7", "0x10", "1e3", "2147483647abc", "1 2" };
   for(int i = 0; i < (int)(sizeof B / sizeof *B); ++i) { if(!MC_CASE("integer conversion of \"%s\"", B[i])) continue; if(!VM) vmnew(); checkint(B[i]); }
   static const char* Fl[] = { "3.25", "-0.5", "1e10", "1e-10", "123456789", "0.1", "3.4e38", "1e39", "-1e39", "1e-46", "16777217", ".5", "5.", "-.25e2", "00012.500" };
   for(int i = 0; i < (int)(sizeof Fl / sizeof *Fl); ++i) { if(!MC_CASE("float conversion of \"%s\"", Fl[i])) continue; if(!VM) vmnew(); checkfloat(Fl[i]); }
}
static void roundtrip(int32_t v) { buzzvm_pushi(VM, v); call("tostring", 1); mcs_clear(&ex); mcs_add(&ex, "'%d'", v); expect("tostring"); buzzvm_pushi(VM, v); call("rt", 1); mcs_clear(&ex); mcs_add(&ex, "%d", v); expect("roundtrip"); }
static void numbers(int range) {
   for(int i = -range; i < range; i += 100) { if(!MC_CASE("integers %d to %d to string and back", i, i + 99)) continue; if(!VM) vmnew(); for(int k = i; k < i + 100; ++k) roundtrip(k); mc_states(100); }
   for(int b = 0; b < 32; ++b) { if(!MC_CASE("integers around bit %d to string and back", b)) continue; if(!VM) vmnew(); for(int k = -20; k <= 20; ++k) { roundtrip((int32_t)((1u << b) + k)); roundtrip((int32_t)(-(1u << b) + k)); } mc_states(82); }
   for(int64_t p = 10; p <= 1000000000; p *= 10) { if(!MC_CASE("integers around %ld to string and back", (long)p)) continue; if(!VM) vmnew(); for(int m = 1; m <= 9; ++m) for(int k = -2; k <= 2; ++k) if(p * m + k <= INT_MAX) { roundtrip(p * m + k); roundtrip(-p * m + k); } }
   for(int i = -400; i <= 400; i += 16) { if(!MC_CASE("floats from %g to string and back", i / 16.0)) continue; if(!VM) vmnew(); for(int k = i; k < i + 16; ++k) { float f = k / 16.0f; char z[32]; snprintf(z, sizeof z, "%.6f", f); buzzvm_pushf(VM, f); call("tostring", 1); mcs_clear(&ex); mcs_add(&ex, "'%s'", z); expect("tostring"); ps(z); call("tofloat", 1); mcs_clear(&ex); mcs_add(&ex, "f%.9g", f); expect("tofloat"); } mc_states(16); }
}
/* arguments of every type */
static void pusharg(int k) { switch(k) { case 0: buzzvm_pushnil(VM); break; case 1: buzzvm_pushi(VM, 1); break; case 2: buzzvm_pushf(VM, 1); break; case 3: ps("ab1"); break; case 4: buzzvm_pusht(VM); break; default: buzzvm_pushs(VM, buzzvm_string_register(VM, "len", 1)); buzzvm_gload(VM); } }
static void types(void) {
   for(int f = 0; f < 6; ++f) for(int n = 0; n <= 3; ++n) for(int c = 0; c < (n == 0 ? 1 : n == 1 ? 6 : n == 2 ? 36 : 216); ++c) {
      if(!MC_CASE("function %d with %d arguments of types %d %d %d", f, n, c % 6, c / 6 % 6, c / 36)) continue; if(!VM) vmnew();
      int a[3] = { c % 6, c / 6 % 6, c / 36 }; buzzvm_pushi(VM, f); buzzvm_function_call(VM, "fn", 1); for(int i = 0; i < n; ++i) pusharg(a[i]);
      char nm[3] = { 'a', (char)('0' + n), 0 }; call(nm, n + 1);
      int e = -1; /* expected error */
      switch(f) {
         case 0: case 4: case 5: e = n != 1 ? BUZZVM_ERROR_LNUM : a[0] != 3 ? BUZZVM_ERROR_TYPE : -1; break;
         case 1: e = n != 2 && n != 3 ? BUZZVM_ERROR_LNUM : a[0] != 3 || a[1] != 1 || (n == 3 && a[2] != 1) ? BUZZVM_ERROR_TYPE : -1; break;
         case 2: e = n < 2 ? BUZZVM_ERROR_LNUM : -1; for(int i = 0; n >= 2 && i < n; ++i) if(a[i] != 3) e = BUZZVM_ERROR_TYPE; break;
         case 3: e = n != 1 ? BUZZVM_ERROR_LNUM : -1; break; }
      mcs_clear(&ex); mcs_add(&ex, "error %d", e); int iserr = !strncmp(got.s, "error", 5);
      if(e >= 0) expect("arguments"); else if(iserr) mc_fail("arguments", "%s", got.s);
      mc_states(1); }
}
void mc_run(void) {
   int t = mc_thorough; types();
   if(MC_ASAN) { subs("ab ", 3); searches("ab", 4, 3); splits("a, ", 4, 2); concats(); conversions(3); numbers(500); }
   else { subs("ab ", t ? 6 : 4); searches("ab", t ? 9 : 7, 4); searches("abc", t ? 6 : 5, 3); splits("a, ", t ? 8 : 6, 2); splits("ab,", t ? 6 : 5, 3); conversions(t ? 6 : 5); numbers(t ? 200000 : 20000); }
   if(VM) buzzvm_destroy(&VM);
}
