/* P06: errors are contained and located. Every operator, table access, call and library function is
 * applied to every combination of value kinds (and of argument counts) in every kind of context; the
 * expected outcome comes from a table of signatures. On a failure the VM must be in error with the
 * matching code, a message, the line of the failing statement, and must do nothing more. */
#include "bz.h"
#include <unistd.h>
const char* mc_name = "errors";
enum { KN, KI, KF, KS, KT, KC, KU, KH, NK };
static const char* KEXP[] = { "UNDEF", "3", "1.5", "\"abc\"", "TB", "fn", "UD", "FH" };
#define M(k) (1 << (k))
#define ANY (M(KN)|M(KI)|M(KF)|M(KS)|M(KT)|M(KC)|M(KU))
#define NUM (M(KI)|M(KF))
#define KEY (M(KI)|M(KF)|M(KS))
typedef struct { const char* f; int min, max; int m[5]; } sig_t;
static const sig_t SIG[] = {
   { "type", 1, 1, { ANY } }, { "clone", 1, 1, { ANY } }, { "isnil", 1, 1, { ANY } }, { "isint", 1, 1, { ANY } }, { "isfloat", 1, 1, { ANY } },
   { "isstring", 1, 1, { ANY } }, { "istable", 1, 1, { ANY } }, { "isclosure", 1, 1, { ANY } }, { "isuserdata", 1, 1, { ANY } },
   { "int", 1, 1, { M(KF) } }, { "float", 1, 1, { M(KI) } },
   { "size", 1, 1, { M(KT) } }, { "foreach", 2, 2, { M(KT), M(KC) } }, { "map", 2, 2, { M(KT), M(KC) } }, { "filter", 2, 2, { M(KT), M(KC) } },
   { "reduce", 3, 3, { M(KT), M(KC), ANY } },
   { "string.length", 1, 1, { M(KS) } }, { "string.sub", 2, 3, { M(KS), M(KI), M(KI) } }, { "string.concat", 2, 9, { M(KS), M(KS), M(KS), M(KS), M(KS) } },
   { "string.tostring", 1, 1, { ANY } }, { "string.toint", 1, 1, { M(KS) } }, { "string.tofloat", 1, 1, { M(KS) } },
   { "math.abs", 1, 1, { NUM } }, { "math.floor", 1, 1, { NUM } }, { "math.ceil", 1, 1, { NUM } }, { "math.round", 1, 1, { NUM } }, { "math.log", 1, 1, { NUM } }, { "math.log2", 1, 1, { NUM } },
   { "math.log10", 1, 1, { NUM } }, { "math.exp", 1, 1, { NUM } }, { "math.sqrt", 1, 1, { NUM } }, { "math.sin", 1, 1, { NUM } }, { "math.cos", 1, 1, { NUM } }, { "math.tan", 1, 1, { NUM } },
   { "math.asin", 1, 1, { NUM } }, { "math.acos", 1, 1, { NUM } }, { "math.atan", 2, 2, { NUM, NUM } }, { "math.min", 2, 2, { ANY, ANY } }, { "math.max", 2, 2, { ANY, ANY } },
   { "math.rng.setseed", 1, 1, { M(KI) } }, { "math.rng.uniform", 0, 2, { NUM, NUM } }, { "math.rng.gaussian", 0, 2, { NUM, NUM } }, { "math.rng.exponential", 1, 1, { NUM } },
   { "io.fopen", 2, 2, { M(KS), M(KS) } }, { "io.fsize", 1, 1, { M(KH) } }, { "io.fforeach", 2, 2, { M(KH), M(KC) } },
   { "io.fwrite", 2, 9, { M(KH), ANY | M(KH), ANY | M(KH), ANY | M(KH), ANY | M(KH) } },
   { "stigmergy.create", 1, 1, { M(KI) } }, { "VS.put", 2, 2, { ANY & ~M(KC), ANY } }, { "VS.get", 1, 1, { ANY & ~M(KC) } }, { "VS.size", 0, 0, { 0 } }, { "VS.foreach", 1, 1, { M(KC) } },
   { "VS.onconflict", 1, 1, { M(KC) } }, { "VS.onconflictlost", 1, 1, { M(KC) } },
   { "swarm.create", 1, 1, { M(KI) } }, { "SW.others", 1, 1, { M(KI) } }, { "SW.join", 0, 0, { 0 } }, { "SW.leave", 0, 0, { 0 } }, { "SW.in", 0, 0, { 0 } },
   { "SW.select", 1, 1, { M(KI) } }, { "SW.exec", 1, 1, { M(KC) } }, { "swarm.id", 0, 1, { M(KI) } },
   { "neighbors.get", 1, 1, { KEY } }, { "neighbors.foreach", 1, 1, { M(KC) } }, { "neighbors.map", 1, 1, { M(KC) } }, { "neighbors.filter", 1, 1, { M(KC) } },
   { "neighbors.reduce", 2, 2, { M(KC), ANY } }, { "neighbors.count", 0, 0, { 0 } }, { "neighbors.kin", 0, 0, { 0 } }, { "neighbors.nonkin", 0, 0, { 0 } },
   { "neighbors.broadcast", 2, 2, { M(KS), ANY } }, { "neighbors.listen", 2, 2, { M(KS), M(KC) } }, { "neighbors.ignore", 1, 1, { M(KS) } },
};
#define NSIG (int)(sizeof SIG / sizeof *SIG)
/* swarm.union etc. take swarm tables */
/* contexts */
static const char* PRE =
   "TB = {.k = 1, .j = 2}\n"
   "function fn() { return 1 }\n"
   "VS = stigmergy.create(1)\nVS.put(\"e\", 1)\nVS.put(\"g\", 2)\n"
   "SW = swarm.create(1)\nSW.join()\n"
   "NSW = swarm.create(2)\n";
#define NCTX 20
static const char* CTXN[] = { "top level", "function", "if block", "while body", "for body", "foreach callback", "method", "swarm.exec", "reduce callback", "neighbors.foreach", "stigmergy foreach", "else branch", "lambda in lambda", "host call", "map callback", "filter callback", "neighbors.map", "neighbors.filter", "neighbors.reduce", "io.fforeach" };
static void context(mcs_t* o, int c, const char* stmt) {
   switch(c) {
      case 0: mcs_add(o, "t(\"b\")\n%s\nt(\"a\")\n", stmt); break;
      case 1: case 13: mcs_add(o, "function g(p1) {\nvar l1 = 4\nt(\"b\")\n%s\nt(\"a\")\n}\n%st(\"c\")\n", stmt, c == 1 ? "g(1)\n" : ""); break;
      case 2: mcs_add(o, "if(1) {\nt(\"b\")\n%s\nt(\"a\")\n}\n", stmt); break;
      case 3: mcs_add(o, "w = 2\nwhile(w > 0) {\nt(\"b\")\n%s\nt(\"a\")\nw = w - 1\n}\n", stmt); break;
      case 4: mcs_add(o, "for(w = 0, w < 2, w = w + 1) {\nt(\"b\")\n%s\nt(\"a\")\n}\n", stmt); break;
      case 5: mcs_add(o, "foreach(TB, function(k, v) {\nt(\"b\")\n%s\nt(\"a\")\n})\nt(\"c\")\n", stmt); break;
      case 6: mcs_add(o, "O = {}\nO.m = function(q) {\nt(\"b\")\n%s\nt(\"a\")\nreturn 2\n}\nx = 1 + O.m(3)\nt(\"c\")\n", stmt); break;
      case 7: mcs_add(o, "SW.exec(function() {\nt(\"b\")\n%s\nt(\"a\")\n})\nt(\"c\")\n", stmt); break;
      case 8: mcs_add(o, "x = reduce(TB, function(k, v, a) {\nt(\"b\")\n%s\nt(\"a\")\nreturn 1\n}, 0)\nt(\"c\")\n", stmt); break;
      case 9: mcs_add(o, "neighbors.foreach(function(r, d) {\nt(\"b\")\n%s\nt(\"a\")\n})\nt(\"c\")\n", stmt); break;
      case 10: mcs_add(o, "VS.foreach(function(k, v, r) {\nt(\"b\")\n%s\nt(\"a\")\n})\nt(\"c\")\n", stmt); break;
      case 14: mcs_add(o, "x = map(TB, function(k, v) {\nt(\"b\")\n%s\nt(\"a\")\nreturn v\n})\nt(\"c\")\n", stmt); break;
      case 15: mcs_add(o, "x = filter(TB, function(k, v) {\nt(\"b\")\n%s\nt(\"a\")\nreturn 1\n})\nt(\"c\")\n", stmt); break;
      case 16: mcs_add(o, "x = neighbors.map(function(r, d) {\nt(\"b\")\n%s\nt(\"a\")\nreturn d\n})\nt(\"c\")\n", stmt); break;
      case 17: mcs_add(o, "x = neighbors.filter(function(r, d) {\nt(\"b\")\n%s\nt(\"a\")\nreturn 1\n})\nt(\"c\")\n", stmt); break;
      case 18: mcs_add(o, "x = neighbors.reduce(function(r, d, a) {\nt(\"b\")\n%s\nt(\"a\")\nreturn 1\n}, 0)\nt(\"c\")\n", stmt); break;
      case 19: mcs_add(o, "io.fforeach(FH, function(l) {\nt(\"b\")\n%s\nt(\"a\")\n})\nt(\"c\")\n", stmt); break;
      case 11: mcs_add(o, "if(0) {\nt(\"z\")\n} else {\nt(\"b\")\n%s\nt(\"a\")\n}\n", stmt); break;
      case 12: mcs_add(o, "L = function() { return function() {\nt(\"b\")\n%s\nt(\"a\")\nreturn 1\n} }\nL2 = L()\nx = L2() + 1\nt(\"c\")\n", stmt); break;
   }
}
static const char* CTXOK[] = { "b a", "b a c", "b a", "b a b a", "b a b a", "b a b a c", "b a c", "b a c", "b a b a c", "b a b a c", "b a b a c", "b a", "b a c", "c b a", "b a b a c", "b a b a c", "b a b a c", "b a b a c", "b a b a c", "b a b a c" };
static int addud(buzzvm_t vm) { return 0; }
static FILE* fhf;
static void seth(buzzvm_t vm) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, "UD", 1)); buzzvm_pushu(vm, &addud); buzzvm_gstore(vm);
   rewind(fhf); if(ftruncate(fileno(fhf), 0)) {} fputs("l1\nl2\n", fhf); fflush(fhf); rewind(fhf);
   buzzvm_pushs(vm, buzzvm_string_register(vm, "FH", 1));
   buzzobj_t t = buzzheap_newobj(vm, BUZZTYPE_TABLE);
   buzzvm_push(vm, t); buzzvm_gstore(vm);
   buzzvm_push(vm, t); buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); buzzvm_pushu(vm, fhf); buzzvm_tput(vm);
   buzzneighbors_add(vm, 7, 1.f, 2.f, 3.f); buzzneighbors_add(vm, 9, 1.f, 2.f, 3.f);
}
static void prep(void) {
   if(fhf) return;
   char p[300]; snprintf(p, sizeof p, "%s/fh", mc_tmp);
   fhf = fopen(p, "w+"); fputs("l1\nl2\n", fhf); fflush(fhf);
   if(chdir(mc_tmp)) {}    /* the scratch directory: io.fopen is called with a relative name */
}
/* runs stmt in context c; expect: error code or 0 for success */
static void run(const char* stmt, int c, int expect, int alt) {
   prep();
   mcs_t src = {0}; mcs_add(&src, "%s", PRE); context(&src, c, stmt);
   mc_desc("%s: %s", CTXN[c], stmt);
   /* the line of the statement */
   int line = 1; { const char* q = strstr(src.s, "t(\"b\")\n") + 7; for(const char* p = src.s; p < q; ++p) line += *p == '\n'; }
   int nl = 0; for(const char* p = stmt; *p; ++p) nl += *p == '\n';
   bz_prog_t p; 
   if(bz_compile(src.s, &p) != 0) { mc_fail("compile", "does not compile:\n%s", src.s); goto out; }
   mcs_clear(&bz_trace);
   buzzvm_t vm = bz_vm(5, &p);
   if(!vm) { mc_fail("load", "not loaded"); goto out2; }
   seth(vm);
   bz_exec(vm, 20000);
   if(c == 13 && vm->state == BUZZVM_STATE_DONE) { buzzvm_pushi(vm, 1); if(buzzvm_function_call(vm, "g", 1) == BUZZVM_STATE_READY) { buzzvm_pop(vm); vm->state = BUZZVM_STATE_DONE; } }
   mc_states(1); mc_trans(1);
   /* trace as "b a c" */
   char tr[64]; int n = 0; for(char* q = bz_trace.s ? bz_trace.s : ""; *q && n < 60; ++q) if(*q == 'a' || *q == 'b' || *q == 'c' || *q == 'z') { if(n) tr[n++] = ' '; tr[n++] = *q; } tr[n] = 0;
   if(vm->state == BUZZVM_STATE_DONE) {
      if(expect) mc_fail("accepted", "succeeded, expected error %d (%s)", expect, buzzvm_error_desc[expect]);
      else if(strcmp(tr, CTXOK[c])) mc_fail("effects", "trace '%s', expected '%s'", tr, CTXOK[c]);
      if(bz_depth(vm) != 0) mc_fail("stack", "stack depth %d at the end", bz_depth(vm));
   }
   else if(vm->state == BUZZVM_STATE_ERROR) {
      mc_note("errors", 1);
      if(!expect) mc_fail("rejected", "unexpected error: %s", vm->errormsg ? vm->errormsg : "(no message)");
      else if((int)vm->error != expect && (int)vm->error != alt) mc_fail("code", "error %d (%s), expected %d", vm->error, vm->errormsg ? vm->errormsg : "", expect);
      if(!vm->errormsg || strlen(vm->errormsg) < 4) mc_fail("message", "no error message");
      else if(!strstr(vm->errormsg, buzzvm_error_desc[vm->error])) mc_fail("message", "message '%s' does not say '%s'", vm->errormsg, buzzvm_error_desc[vm->error]);
      if(strcmp(tr, c == 13 ? "c b" : "b")) mc_fail("effects", "trace '%s' of a failing statement", tr);
      int32_t off = vm->oldpc;
      if(!buzzdebug_info_exists_offset(p.dbg, &off)) mc_fail("location", "no source position for the failing instruction at %d", off);
      else {
         const buzzdebug_entry_t e = *buzzdebug_info_get_fromoffset(p.dbg, &off);
         if((int)e->line < line || (int)e->line > line + nl) mc_fail("location", "error located at line %d, the statement is at line %d\n%s", (int)e->line, line, src.s);
         if(!e->fname || !strstr(e->fname, "/s.bzz")) mc_fail("location", "error located in file %s", e->fname ? e->fname : "(null)");
      }
      /* nothing further */
      char before[64]; strcpy(before, tr); size_t tl = bz_trace.n; int32_t pc = vm->pc; int err = vm->error;
      for(int i = 0; i < 3; ++i) if(buzzvm_step(vm) != BUZZVM_STATE_ERROR) mc_fail("resumed", "buzzvm_step left the error state");
      if(buzzvm_function_call(vm, "fn", 0) != BUZZVM_STATE_ERROR) mc_fail("resumed", "buzzvm_function_call accepted in the error state");
      if(buzzvm_execute_script(vm) != BUZZVM_STATE_ERROR) mc_fail("resumed", "buzzvm_execute_script left the error state");
      buzzvm_process_inmsgs(vm); buzzvm_process_outmsgs(vm);
      if(vm->state != BUZZVM_STATE_ERROR || (int)vm->error != err) mc_fail("resumed", "error lost");
      if(bz_trace.n != tl || vm->pc != pc) mc_fail("resumed", "something was executed after the error");
   }
   else mc_fail("state", "final state %s", bz_statename(vm));
   if(!mc_case_failed()) mc_sample("%s in %s => %s", stmt, CTXN[c], vm->state == BUZZVM_STATE_ERROR ? vm->errormsg : "ok");
   buzzvm_destroy(&vm);
out2:
   bz_prog_free(&p);
out:
   mcs_free(&src);
}
/* all contexts in the fast build and two in the ASAN build, all if full */
static int ealt;   /* other acceptable error code */
static void each(const char* stmt, int expect, int full) {
   for(int c = 0; c < NCTX; ++c) {
      if(!full && !(c == 0 || c == 5)) continue;
      if(MC_ASAN && !full && c != 0) continue;
      if(c == 19 && strstr(stmt, "FH")) continue;
      if(mc_next()) run(stmt, c, expect, ealt);
   }
}
static void lib(void) {
   for(int s = 0; s < NSIG; ++s) {
      const sig_t* g = &SIG[s];
      int nk = strncmp(g->f, "io.", 3) == 0 ? NK : NK - 1;
      int maxn = mc_thorough ? 4 : 3; 
      for(int n = 0; n <= 5; ++n) {
         int combos = 1; for(int i = 0; i < n; ++i) combos *= n <= maxn ? nk : 2;
         for(int x = 0; x < combos; ++x) {
            char st[400]; int a[5], bad = 0, y = x; ealt = 0;
            snprintf(st, sizeof st, "%s%s(", x % 2 ? "r = " : "", g->f);
            for(int i = 0; i < n; ++i) {
               if(n <= maxn) { a[i] = y % nk; y /= nk; } else { a[i] = y % 2 ? KS : KN; y /= 2; }
               sprintf(st + strlen(st), "%s%s", i ? ", " : "", KEXP[a[i]]);
               if(i < g->max && (i < 5 && !(g->m[i] & (M(a[i]) | (a[i] == KH && (g->m[i] & M(KT)) ? M(KH) : 0))))) bad = 1;
            }
            strcat(st, ")");
            if(bad) ealt = BUZZVM_ERROR_TYPE;
            int exp = (n < g->min || n > g->max) ? BUZZVM_ERROR_LNUM : bad ? BUZZVM_ERROR_TYPE : 0;
            each(st, exp, n <= 1 || (exp != 0 && x == 0));
         }
      }
   }
}
static const char* BOP[] = { "+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "and", "or" };
static void ops(void) {
   for(int o = 0; o < 18; ++o) for(int a = 0; a < NK - 1; ++a) for(int b = 0; b < NK - 1; ++b) {
      int exp = 0;
      if(o < 6) exp = !(NUM & M(a)) || !(NUM & M(b)); else if(o < 10) exp = a != KI || b != KI;
      char st[100];
      snprintf(st, sizeof st, "r = (%s %s %s)", KEXP[a], BOP[o], KEXP[b]); each(st, exp ? BUZZVM_ERROR_TYPE : 0, 1);
      snprintf(st, sizeof st, "if(%s %s\n%s) { }", KEXP[a], BOP[o], KEXP[b]); each(st, exp ? BUZZVM_ERROR_TYPE : 0, 0);
      snprintf(st, sizeof st, "fn(1, %s %s %s)", KEXP[a], BOP[o], KEXP[b]); each(st, exp ? BUZZVM_ERROR_TYPE : 0, 0);
   }
   const char* Z[] = { "3 / 0", "3 % 0", "(0-2147483647-1) / (0-1)", "(0-2147483647-1) % (0-1)", "0 / 0", "TB.k / (TB.k - 1)" };
   for(int i = 0; i < 6; ++i) { char st[100]; snprintf(st, sizeof st, "r = %s", Z[i]); each(st, BUZZVM_ERROR_TYPE, 1); snprintf(st, sizeof st, "return %s", Z[i]); if(mc_next()) run(st, 1, BUZZVM_ERROR_TYPE, 0); }
   const char* ZOK[] = { "3.0 / 0", "3 / 0.0", "3.0 % 0", "2 ^ 1000", "0 ^ 0", "1 << 40", "1 >> (0-1)", "2147483647 + 1", "(0-2147483647) - 5", "65536 * 65536" };
   for(int i = 0; i < 10; ++i) { char st[100]; snprintf(st, sizeof st, "r = %s", ZOK[i]); each(st, 0, 1); }
   for(int a = 0; a < NK - 1; ++a) {
      char st[100];
      snprintf(st, sizeof st, "r = -%s", KEXP[a]); each(st, (NUM & M(a)) ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "r = !%s", KEXP[a]); each(st, a == KI ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "r = (not %s)", KEXP[a]); each(st, 0, 1);
      snprintf(st, sizeof st, "if(%s) { }", KEXP[a]); each(st, 0, 1);
      snprintf(st, sizeof st, "while((not %s) and 0) { }", KEXP[a]); each(st, 0, 1);
   }
}
static void accesses(void) {
   for(int a = 0; a < NK - 1; ++a) {
      char st[200]; int e = a == KT ? 0 : BUZZVM_ERROR_TYPE;
      const char* base = a == KI ? "I3" : a == KF ? "F15" : a == KS ? "STR" : KEXP[a];
      const char* def = a == KI ? "I3 = 3 " : a == KF ? "F15 = 1.5 " : a == KS ? "STR = \"abc\" " : "";
      snprintf(st, sizeof st, "%sr = %s.fld", def, base); each(st, e, 1);
      snprintf(st, sizeof st, "%s%s.fld = 1", def, base); each(st, e, 1);
      snprintf(st, sizeof st, "%sr = %s[1]", def, base); each(st, e, 1);
      snprintf(st, sizeof st, "%s%s[1] = 2", def, base); each(st, e, 1);
      snprintf(st, sizeof st, "%sr = %s.fld.sub", def, base); each(st, BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%s%s.meth()", def, base); each(st, BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%sr = %s.meth(1, 2)", def, base); each(st, BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%s%s()", def, base); each(st, a == KC ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%sr = %s(1, 2) ", def, base); each(st, a == KC ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%sTB.fv = %s r = TB.fv(1)", def, base); each(st, a == KC ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%sTB.fv = %s r = TB[\"fv\"](1)", def, base); each(st, a == KC ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "r = {.a = %s}", KEXP[a]); each(st, 0, 1);
      snprintf(st, sizeof st, "%sfoo = function() { return %s } r = foo()()", def, KEXP[a]); each(st, a == KC ? 0 : BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "%sfoo = function() { return %s } r = foo().x", def, KEXP[a]); each(st, e, 1);
      /* keys */
      int ke = (KEY & M(a)) ? 0 : BUZZVM_ERROR_TYPE;
      snprintf(st, sizeof st, "r = TB[%s]", KEXP[a]); each(st, ke, 1);
      snprintf(st, sizeof st, "TB[%s] = 1 TB[%s] = nil", KEXP[a], KEXP[a]); each(st, ke, 1);
      /* an error inside an expression with pending operands */
      snprintf(st, sizeof st, "r = 1 + fn() * %s.q + 2", base); { char s2[260]; snprintf(s2, sizeof s2, "%s%s", def, st); each(s2, BUZZVM_ERROR_TYPE, 1); }
      snprintf(st, sizeof st, "%sfn(1, %s.q.r, 3)", def, base); each(st, BUZZVM_ERROR_TYPE, 1);
   }
   /* parameters that were not passed */
   each("g3 = function(a, b) { return b } r = g3(1)", BUZZVM_ERROR_LNUM, 1);
   each("g3 = function(a) { a = 1 } g3()", 0, 0);
   each("g3 = function(a, b) { return a } r = g3(1)", 0, 1);
   each("g3 = function(a, b) { return a } r = g3(1, 2, 3)", 0, 1);
   each("undefinedfun()", BUZZVM_ERROR_TYPE, 1);
   each("TB.undefinedfun()", BUZZVM_ERROR_TYPE, 1);
   each("r = undefinedvar", 0, 1);
   each("r = undefinedvar + 1", BUZZVM_ERROR_TYPE, 1);
}
/* set operations over swarms, unknown swarms */
static void swarms(void) {
   const char* OPN[] = { "union", "intersection", "difference" };
   for(int o = 0; o < 3; ++o) {
      for(int n = 0; n <= 4; ++n) {
         int tot = 1; for(int i = 0; i < n; ++i) tot *= 8;
         if(n == 4) tot = 1;
         for(int x = 0; x < tot; ++x) {
            char st[300]; int y = x, bad = 0; ealt = 0; snprintf(st, sizeof st, "r = swarm.%s(", OPN[o]);
            for(int i = 0; i < n; ++i) {
               int k = y % 8; y /= 8; if(k == KT && i > 0) ealt = BUZZVM_ERROR_SWARM;
               sprintf(st + strlen(st), "%s%s", i ? ", " : "", k == 7 ? "SW" : KEXP[k]);
               if(i == 0) { if(k != KI) bad = 1; } else if(k != 7) bad = 1;
            }
            strcat(st, ")");
            each(st, n != 3 ? BUZZVM_ERROR_LNUM : bad ? BUZZVM_ERROR_TYPE : 0, n == 3 && !bad);
         }
      }
   }
   ealt = 0;
   const char* ok[] = { "r = swarm.union(5, SW, NSW)", "r = swarm.difference(5, SW, SW)", "SW.exec(function() { r = swarm.id() })", "NSW.exec(function() { UNDEF() })", "swarm.id()" };
   for(int i = 0; i < 5; ++i) each(ok[i], 0, 1);
   /* methods called without their swarm */
   const char* m[] = { "join", "leave", "in", "exec", "select", "others" };
   for(int i = 0; i < 6; ++i) {
      char st[200];
      snprintf(st, sizeof st, "f2 = SW.%s r = f2(%s)", m[i], i < 3 ? "" : i == 3 ? "fn" : "3");
      each(st, 0, 0);
      snprintf(st, sizeof st, "X = {} X.%s = SW.%s r = X.%s(%s)", m[i], m[i], m[i], i < 3 ? "" : i == 3 ? "fn" : "3");
      each(st, BUZZVM_ERROR_TYPE, 1);
      snprintf(st, sizeof st, "X = {.id = 77} X.%s = SW.%s r = X.%s(%s)", m[i], m[i], m[i], i < 3 ? "" : i == 3 ? "fn" : "3");
      each(st, BUZZVM_ERROR_SWARM, 1);
   }
}
void mc_run(void) { ops(); accesses(); swarms(); lib(); }
