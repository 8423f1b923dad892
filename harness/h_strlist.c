/* P22: a string list given to the compiler fixes the identifiers of its strings, whatever the script, and
 * changes nothing else. Every list up to a length over an alphabet, with every script of a set, is
 * compiled, loaded and run on the real tools. */
#include "bz.h"
#include <unistd.h>
const char* mc_name = "strlist";
static const char* A[] = { "x", "", "t", "a b", "'q\"", "f", "7", "poses", "id" };
#define NA 9
static const char* SC[] = { "", "t(1)\n", "x = \"a b\"\nt(x, size(x))\n", "function f(a) { return a + 1 }\nx = { .x = 1, .id = f }\nt(x.id(x.x), x[\"x\"], \"\", '7', id)\nt(reduce(x, function(k, v, a) { return a + string.length(k) }, 0))\n", "var id = 3\nt(id, string.concat(\"a\", \" b\"), \"poses\")\nf = \"f\"\nt(f, math.abs(-7))\n" };
#define NSC 5
static char bzz[512], basm_[512], bst[512];
static int comp(const char* src, const char* list, int n, bz_prog_t* p) {
   memset(p, 0, sizeof *p);
   FILE* f = fopen(bzz, "w"); fputs(src, f); fclose(f);
   if(list) { f = fopen(bst, "w"); fwrite(list, 1, n, f); fclose(f); } else unlink(bst);
   char* argv[] = { (char*)"bzzparse", bzz, basm_, bst, NULL };
   buzzparser_t par = buzzparser_new(4, argv); if(!par) return 1;
   int ok = buzzparser_parse(par); buzzparser_destroy(&par);
   if(!ok) return 2;
   return buzz_asm(basm_, &p->code, &p->size, &p->dbg) ? 3 : 0;
}
static void one(const int* l, int d, int nl, int sc) {
   static mcs_t s, want; mcs_clear(&s); mcs_clear(&want); mcs_add(&s, "%s", "");
   for(int i = 0; i < d; ++i) mcs_add(&s, "%s%s", A[l[i]], i < d - 1 || nl ? "\n" : "");
   mc_desc("string list [%s] with script %d", s.s, sc);
   bz_prog_t q; buzzvm_t vm = bz_script(SC[sc], &q, 3);
   if(!vm) { mc_fail("compile", "script refused"); return; }
   mcs_add(&want, "%s %s", bz_statename(vm), bz_trace.n ? bz_trace.s : ""); buzzvm_destroy(&vm); bz_prog_free(&q);
   bz_prog_t p; int r = comp(SC[sc], s.s, s.n, &p);
   if(r) { mc_fail("compile", "refused with the list (status %d)", r); return; }
   mcs_clear(&bz_trace); vm = bz_vm(3, &p);
   if(!vm) mc_fail("load", "image refused");
   else {
      int k = 0, ok = 1;
      for(int i = 0; i < d && ok; ++i) {
         int j = 0; while(j < i && strcmp(A[l[j]], A[l[i]])) ++j;
         if(j < i || (i == d - 1 && !nl && !A[l[i]][0])) continue;   /* repeated, or no line at all */
         const char* g = buzzvm_string_get(vm, k);
         if(!g || strcmp(g, A[l[i]])) { mc_fail("identifier", "string %d of the list is '%s', identifier %d names '%s'", k, A[l[i]], k, g ? g : "(none)"); ok = 0; }
         else if(buzzvm_string_register(vm, A[l[i]], 0) != k) { mc_fail("identifier", "'%s' has another identifier than %d", A[l[i]], k); ok = 0; }
         ++k;
      }
      if(ok) {
         bz_exec(vm, 100000);
         static mcs_t got; mcs_clear(&got); mcs_add(&got, "%s %s", bz_statename(vm), bz_trace.n ? bz_trace.s : "");
         if(strcmp(got.s, want.s)) mc_fail("behaviour", "with the list: %s, without: %s", got.s, want.s);
      }
      buzzvm_destroy(&vm);
   }
   bz_prog_free(&p); mc_states(1); mc_traces(1); mc_trans(d + 1);
}
static void lists(int d, int na) {
   int l[8]; long n = 1; for(int i = 0; i < d; ++i) n *= na;
   for(long x = 0; x < n; ++x) { long y = x; for(int i = 0; i < d; ++i) { l[i] = y % na; y /= na; }
      for(int nl = 0; nl < 2; ++nl) for(int sc = 0; sc < NSC; ++sc) if(mc_next()) one(l, d, nl, sc); }
}
static void many(int n, int sc) {   /* long lists: identifiers beyond one byte, and long lines */
   if(!MC_CASE("a list of %d strings with script %d", n, sc)) return;
   mcs_t s = {0}; char b[1100]; mcs_add(&s, "%s", "");
   for(int i = 0; i < n; ++i) { sprintf(b, "s%d", i); if(i % 50 == 7) { int k = strlen(b); memset(b + k, 'y', 1000 - k); b[1000] = 0; } mcs_add(&s, "%s\n", b); }
   bz_prog_t p; int r = comp(SC[sc], s.s, s.n, &p);
   if(r) { mc_fail("compile", "refused (status %d)", r); mcs_free(&s); return; }
   buzzvm_t vm = bz_vm(3, &p);
   if(!vm) mc_fail("load", "image refused");
   else {
      char* q = s.s; for(int i = 0; i < n; ++i) { char* e = strchr(q, '\n'); *e = 0; const char* g = buzzvm_string_get(vm, i); if(!g || strcmp(g, q)) { mc_fail("identifier", "identifier %d names '%.20s', expected '%.20s'", i, g ? g : "(none)", q); break; } q = e + 1; }
      buzzvm_destroy(&vm);
   }
   bz_prog_free(&p); mcs_free(&s); mc_states(n); mc_traces(1); mc_trans(n);
}
void mc_run(void) {
   snprintf(bzz, sizeof bzz, "%s/l.bzz", mc_tmp); snprintf(basm_, sizeof basm_, "%s/l.basm", mc_tmp); snprintf(bst, sizeof bst, "%s/l.bst", mc_tmp);
   for(int d = 0; d <= 2; ++d) lists(d, NA);
   lists(3, mc_thorough ? NA : 5); if(mc_thorough) lists(4, 5);
   for(int sc = 0; sc < NSC; ++sc) { many(10, sc); many(255, sc); many(256, sc); many(257, sc); many(1000, sc); }
   if(MC_CASE("a list that cannot be read")) {
      bz_prog_t p; FILE* old = stderr; stderr = fopen("/dev/null", "w"); int r = comp("t(1)\n", NULL, 0, &p); fclose(stderr); stderr = old;
      if(!r) { mc_fail("missing", "a missing string list is not reported"); bz_prog_free(&p); }
   }
}
