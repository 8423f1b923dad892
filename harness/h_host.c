/* P08: host <-> script calls. Every tree of nested calls (script functions, host functions, methods, called by name, from
 * the stack, through a variable or a table) is compiled and run on the real VM and compared with a recursive model. */
#include "bz.h"
const char* mc_name = "host";
#define MAXN 5
/* spec: 0 script fn by name, 1 script fn through closure/variable, 2 host fn by name, 3 host fn through closure/variable, 4 script method, 5 host method */
typedef struct { int spec, argc, ret, fail, parent, kids[MAXN], nk; } node_t;
static node_t N[MAXN]; static int NN, basek, extra;
static int isC(int i) { return N[i].spec == 2 || N[i].spec == 3 || N[i].spec == 5; }
static int isM(int i) { return N[i].spec >= 4; }
static int failed; static mcs_t ex, ds, src;
/* ---- values ---- */
static int vtype(int i, int j) { return (i + j) % 6; }
static void vrepr(mcs_t* o, int i, int j) {
   switch(vtype(i, j)) {
      case 0: mcs_add(o, "%d", 100 * i + j); break; case 1: mcs_add(o, "f%d.5", 10 * i + j); break;
      case 2: mcs_add(o, "'s%d_%d'", i, j); break; case 3: mcs_add(o, "{'k'=%d}", 10 * i + j); break;
      case 4: mcs_add(o, "nil"); break; case 5: mcs_add(o, "fn"); break; }
}
static void vsrc(mcs_t* o, int i, int j) {
   switch(vtype(i, j)) {
      case 0: mcs_add(o, "%d", 100 * i + j); break; case 1: mcs_add(o, "%d.5", 10 * i + j); break;
      case 2: mcs_add(o, "\"s%d_%d\"", i, j); break; case 3: mcs_add(o, "{ .k = %d }", 10 * i + j); break;
      case 4: mcs_add(o, "nil"); break; case 5: mcs_add(o, "idf"); break; }
}
static void pushg(buzzvm_t vm, const char* n) { buzzvm_pushs(vm, buzzvm_string_register(vm, n, 1)); buzzvm_gload(vm); }
static void vpush(buzzvm_t vm, int i, int j) {
   char b[32];
   switch(vtype(i, j)) {
      case 0: buzzvm_pushi(vm, 100 * i + j); break; case 1: buzzvm_pushf(vm, 10 * i + j + 0.5f); break;
      case 2: sprintf(b, "s%d_%d", i, j); buzzvm_pushs(vm, buzzvm_string_register(vm, b, 0)); break;
      case 3: buzzvm_pusht(vm); buzzvm_dup(vm); buzzvm_pushs(vm, buzzvm_string_register(vm, "k", 0)); buzzvm_pushi(vm, 10 * i + j); buzzvm_tput(vm); break;
      case 4: buzzvm_pushnil(vm); break; case 5: pushg(vm, "idf"); break; }
}
/* ---- model ---- */
static void rrepr(mcs_t* o, int i) { if(N[i].ret == 0) mcs_add(o, "nil"); else if(N[i].ret == 1) vrepr(o, i, 7); else if(N[i].argc) vrepr(o, i, N[i].argc - 1); else mcs_add(o, "nil"); }
static int model(int i) {
   if(isM(i)) mcs_add(&ex, "%d {'m'=%s,'z'=%d}", i, isC(i) ? "cfn" : "fn", i); else mcs_add(&ex, "%d nil", i);
   for(int j = 0; j < N[i].argc; ++j) { mcs_add(&ex, " "); vrepr(&ex, i, j); }
   mcs_add(&ex, ";");
   if(N[i].fail == 1) return 0;
   for(int k = 0; k < N[i].nk; ++k) { if(!model(N[i].kids[k])) return 0; mcs_add(&ex, "'r' "); rrepr(&ex, N[i].kids[k]); mcs_add(&ex, ";"); }
   return N[i].fail != 2;
}
/* ---- script ---- */
static void callsrc(int c) {
   char nm[24]; sprintf(nm, isM(c) ? "T%d.m" : isC(c) ? "h%d" : "f%d", c);
   if(N[c].spec & 1 && !isM(c)) { mcs_add(&src, "  var v%d = %s\n", c, nm); sprintf(nm, "v%d", c); }
   mcs_add(&src, "  var r%d = %s(", c, nm); for(int j = 0; j < N[c].argc; ++j) { if(j) mcs_add(&src, ", "); vsrc(&src, c, j); } mcs_add(&src, ")\n  t(\"r\", r%d)\n", c);
}
static void gensrc(void) {
   mcs_clear(&src); mcs_add(&src, "function idf(x) { return x }\n");
   for(int i = 0; i < NN; ++i) if(!isC(i)) {
      if(isM(i)) mcs_add(&src, "T%d = { .z = %d }\nT%d.m = function(", i, i, i); else mcs_add(&src, "function f%d(", i);
      int np = N[i].argc - (extra && N[i].argc > 0 && N[i].ret != 2 ? 1 : 0);
      for(int j = 0; j < np; ++j) mcs_add(&src, "%sp%d", j ? ", " : "", j);
      mcs_add(&src, ") {\n");
      if(np == N[i].argc) { mcs_add(&src, "  t(%d, self", i); for(int j = 0; j < np; ++j) mcs_add(&src, ", p%d", j); mcs_add(&src, ")\n"); }
      else { mcs_add(&src, "  var loc = %d\n  t(loc, self", i); for(int j = 0; j < np; ++j) mcs_add(&src, ", p%d", j); mcs_add(&src, ", "); vsrc(&src, i, np); mcs_add(&src, ")\n"); }
      if(N[i].fail == 1) mcs_add(&src, "  var bad = nil + 1\n");
      for(int k = 0; k < N[i].nk; ++k) callsrc(N[i].kids[k]);
      if(N[i].fail == 2) mcs_add(&src, "  var bad = nil + 1\n");
      if(N[i].ret == 1) { mcs_add(&src, "  return "); vsrc(&src, i, 7); mcs_add(&src, "\n"); }
      else if(N[i].ret == 2 && N[i].argc) mcs_add(&src, "  return p%d\n", N[i].argc - 1);
      mcs_add(&src, "}\n");
   } else if(isM(i)) mcs_add(&src, "T%d = { .z = %d }\nT%d.m = h%d\n", i, i, i, i);
}
/* ---- host side ---- */
static buzzvm_state hostcall(buzzvm_t vm, int c) {
   int d0 = bz_depth(vm), st0 = buzzdarray_size(vm->stacks), ls0 = buzzdarray_size(vm->lsymts); buzzdarray_t sk = vm->stack; void* lsy = vm->lsyms; int32_t pc0 = vm->pc;
   buzzobj_t below[8]; int nb = d0 < 8 ? d0 : 8; for(int k = 0; k < nb; ++k) below[k] = buzzvm_stack_at(vm, k + 1);
   char b[16]; int byname = !isM(c) && !(N[c].spec & 1);
   if(!byname) {
      if(isM(c)) { sprintf(b, "T%d", c); pushg(vm, b); buzzvm_pushs(vm, buzzvm_string_register(vm, "m", 1)); buzzvm_tget(vm); }
      else { sprintf(b, isC(c) ? "h%d" : "f%d", c); pushg(vm, b); }
   }
   for(int j = 0; j < N[c].argc; ++j) vpush(vm, c, j);
   buzzvm_state s;
   if(byname) { sprintf(b, isC(c) ? "h%d" : "f%d", c); s = buzzvm_function_call(vm, b, N[c].argc); } else s = buzzvm_closure_call(vm, N[c].argc);
   mc_trans(1);
   if(s != vm->state) { mc_fail("status", "call %d returned state %d, VM is in %d", c, s, vm->state); failed = 1; }
   if(s != BUZZVM_STATE_READY) return s;
   if(bz_depth(vm) != d0 + 1) { mc_fail("stack", "call %d: stack depth %d -> %d, expected %d", c, d0, bz_depth(vm), d0 + 1); failed = 1; return BUZZVM_STATE_ERROR; }
   for(int k = 0; k < nb; ++k) if(buzzvm_stack_at(vm, k + 2) != below[k]) { mc_fail("stack", "call %d changed the stack below", c); failed = 1; }
   if(vm->stack != sk || (void*)vm->lsyms != lsy || (int)buzzdarray_size(vm->stacks) != st0 || (int)buzzdarray_size(vm->lsymts) != ls0) { mc_fail("frames", "call %d: frames not restored", c); failed = 1; }
   if(vm->pc != pc0) { mc_fail("pc", "call %d: execution position not restored (%d, was %d)", c, vm->pc, pc0); failed = 1; }
   return s;
}
static int hfun(buzzvm_t vm, int i) {
   bz_tracef;
   int n = buzzvm_lnum(vm);
   mcs_add(&bz_trace, "%d ", i); buzzvm_lload(vm, 0); bz_repr(&bz_trace, buzzvm_stack_at(vm, 1), 3); buzzvm_pop(vm);
   for(int j = 1; j <= n; ++j) { mcs_add(&bz_trace, " "); buzzvm_lload(vm, j); bz_repr(&bz_trace, buzzvm_stack_at(vm, 1), 3); buzzvm_pop(vm); }
   mcs_add(&bz_trace, ";");
   if(N[i].fail == 1) { buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "host %d", i); return vm->state; }
   for(int k = 0; k < N[i].nk; ++k) {
      int c = N[i].kids[k];
      if(hostcall(vm, c) != BUZZVM_STATE_READY) return vm->state;
      mcs_add(&bz_trace, "'r' "); bz_repr(&bz_trace, buzzvm_stack_at(vm, 1), 3); mcs_add(&bz_trace, ";"); buzzvm_pop(vm);
   }
   if(N[i].fail == 2) { buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "host %d", i); return vm->state; }
   if(N[i].ret == 0) return buzzvm_ret0(vm);
   if(N[i].ret == 1) vpush(vm, i, 7); else if(N[i].argc) buzzvm_lload(vm, N[i].argc); else return buzzvm_ret0(vm);
   return buzzvm_ret1(vm);
}
#define H(n) static int h##n(buzzvm_t vm) { return hfun(vm, n); }
H(0) H(1) H(2) H(3) H(4)
static buzzvm_funp HF[MAXN] = { h0, h1, h2, h3, h4 };
static void descr(void) {
   static const char* SN[] = { "script by name", "script closure", "host by name", "host closure", "script method", "host method" };
   mcs_clear(&ds); mcs_add(&ds, "call tree (base %d%s):", basek, extra ? ", surplus arguments" : "");
   for(int i = 0; i < NN; ++i) mcs_add(&ds, " [%d under %d: %s, %d args, ret %d%s]", i, N[i].parent, SN[N[i].spec], N[i].argc, N[i].ret, N[i].fail == 1 ? ", fails on entry" : N[i].fail == 2 ? ", fails after its calls" : "");
}
static uint64_t count;
static void runtree(void) {
   if(!mc_next()) return;
   for(int i = 0; i < NN; ++i) N[i].nk = 0;
   for(int i = 1; i < NN; ++i) { node_t* p = &N[N[i].parent]; p->kids[p->nk++] = i; }
   descr(); mc_desc("%s", ds.s); mc_sample("%s", ds.s);
   gensrc();
   bz_prog_t p; int rc = bz_compile(src.s, &p); if(rc) { mc_fail("compile", "rc %d: %s", rc, src.s); return; }
   mcs_clear(&bz_trace); buzzvm_t vm = bz_vm(7, &p); if(!vm) { mc_fail("load", "%s", src.s); bz_prog_free(&p); return; }
   for(int i = 0; i < NN; ++i) { char b[8]; sprintf(b, "h%d", i); bz_reg(vm, b, HF[i]); }
   if(bz_exec(vm, 100000) != BUZZVM_STATE_DONE) mc_fail("script", "state %s: %s", bz_statename(vm), vm->errormsg);
   else {
      for(int k = 0; k < basek; ++k) buzzvm_pushi(vm, 7000 + k);
      failed = 0;
      if(N[0].spec & 1 || isM(0)) vm->state = BUZZVM_STATE_READY;
      for(int r = 0; r < 2 && !failed; ++r) {
         mcs_clear(&ex); mcs_clear(&bz_trace); int ok = model(0);
         buzzvm_state s = hostcall(vm, 0);
         if(failed) break;
         if(strcmp(ex.s ? ex.s : "", bz_trace.s ? bz_trace.s : "")) { mc_fail("trace", "observed %s expected %s in %s", bz_trace.s, ex.s, src.s); break; }
         if(ok != (s == BUZZVM_STATE_READY)) { mc_fail("state", "call ended in %s (%s)", bz_statename(vm), vm->errormsg ? vm->errormsg : ""); break; }
         if(!ok) { if(vm->error != BUZZVM_ERROR_TYPE) mc_fail("error", "error %d instead of the one raised", vm->error);
            mcs_clear(&bz_trace); if(buzzvm_function_call(vm, "idf", 0) != BUZZVM_STATE_ERROR || buzzvm_step(vm) != BUZZVM_STATE_ERROR || bz_trace.n) mc_fail("error-continues", "VM in error went on"); break; }
         mcs_clear(&ex); rrepr(&ex, 0); mcs_t g = {0}; bz_repr(&g, buzzvm_stack_at(vm, 1), 3);
         if(strcmp(g.s, ex.s)) mc_fail("result", "result %s expected %s", g.s, ex.s);
         mcs_free(&g); buzzvm_pop(vm);
      }
      if(vm->state == BUZZVM_STATE_READY && bz_depth(vm) != basek) mc_fail("stack", "final depth %d, expected %d", bz_depth(vm), basek);
      if(vm->state == BUZZVM_STATE_READY) for(int k = 0; k < basek; ++k) if(buzzvm_stack_at(vm, basek - k)->i.value != 7000 + k) mc_fail("stack", "host values below the call changed");
   }
   buzzvm_destroy(&vm); bz_prog_free(&p);
   mc_states(NN); mc_traces(1); ++count;
}
static const int ARGC[] = { 0, 1, 3, 2, 6 };
static void fill(int i, int na, int nr) {
   if(i == NN) { runtree(); return; }
   for(int s = 0; s < 6; ++s) for(int a = 0; a < na; ++a) for(int r = 0; r < nr; ++r) { N[i].spec = s; N[i].argc = ARGC[a]; N[i].ret = r; N[i].fail = 0; fill(i + 1, na, nr); }
}
/* one attribute tied over the whole tree */
static void filltied(int i, int a) {
   if(i == NN) { runtree(); return; }
   for(int s = 0; s < 6; ++s) { N[i].spec = s; N[i].argc = ARGC[(i + a) % 4]; N[i].ret = (i + a) % 3; filltied(i + 1, a); }
}
static void shapes(int i, void (*f)(int, int), int x) { if(i == NN) { f(0, x); return; } for(int p = 0; p < i; ++p) { N[i].parent = p; shapes(i + 1, f, x); } }
static void fill3(int i, int na) { fill(i, na, 3); }
static void failfill(int i, int which) {
   if(i == NN) { runtree(); return; }
   for(int s = 0; s < 6; ++s) { N[i].spec = s; N[i].argc = (i + 1) % 3; N[i].ret = 1; N[i].fail = (which >> 1) == i ? 1 + (which & 1) : 0; failfill(i + 1, which); }
}
/* calls that cannot be made */
static int nocall(buzzvm_t vm) { mcs_add(&bz_trace, "called;"); return buzzvm_ret0(vm); }
static void badcalls(void) {
   static const char* G[] = { "missing", "anint", "afloat", "astring", "atable", "f2", "hc" };
   for(int g = 0; g < 7; ++g) for(int onst = 0; onst <= 4; ++onst) for(int argc = 0; argc <= 4; ++argc) for(int how = 0; how < 2; ++how) for(int done = 0; done < 2; ++done) {
      int callable = g >= 5, need = argc + how;
      if(how && g == 0) continue;
      if(!MC_CASE("bad call of %s %s with %d arguments, %d on the stack, script %s", G[g], how ? "from the stack" : "by name", argc, onst, done ? "done" : "not yet run")) continue;
      bz_prog_t p; bz_compile("function f2() { t(1) }\nanint = 3\nafloat = 2.5\nastring = \"x\"\natable = {}\nhc = nocall\n", &p);
      mcs_clear(&bz_trace); buzzvm_t vm = bz_vm(1, &p); bz_reg(vm, "nocall", nocall);
      if(done) { bz_exec(vm, 10000); } else { bz_exec(vm, 30); vm->state = BUZZVM_STATE_READY; }
      /* not done: the globals may not be there yet, run the rest */
      if(!done) { while(vm->state == BUZZVM_STATE_READY) buzzvm_step(vm); vm->state = BUZZVM_STATE_READY; }
      else if(how) vm->state = BUZZVM_STATE_READY;
      int gs = buzzdict_size(vm->gsyms);
      for(int k = 0; k < onst; ++k) { if(how && k == onst - argc - 1) pushg(vm, G[g]); else buzzvm_pushi(vm, 50 + k); }
      buzzvm_state s = how ? buzzvm_closure_call(vm, argc) : buzzvm_function_call(vm, G[g], argc);
      int enough = onst >= need;
      if(enough && callable) { if(s != BUZZVM_STATE_READY || bz_depth(vm) != onst - need + 1) mc_fail("goodcall", "state %s depth %d", bz_statename(vm), bz_depth(vm)); }
      else {
         if(s != BUZZVM_STATE_ERROR || vm->state != BUZZVM_STATE_ERROR) mc_fail("badcall-accepted", "state %s", bz_statename(vm));
         else if(!vm->errormsg || !vm->errormsg[0]) mc_fail("badcall-message", "no message");
         else if(enough && vm->error != BUZZVM_ERROR_TYPE) mc_fail("badcall-code", "error %d", vm->error);
         else if(!enough && vm->error != BUZZVM_ERROR_STACK && vm->error != BUZZVM_ERROR_TYPE) mc_fail("badcall-code", "error %d", vm->error);
         if(enough && !how && !strstr(vm->errormsg, G[g])) mc_fail("badcall-message", "message does not name the function: %s", vm->errormsg);
         if(bz_trace.n) mc_fail("badcall-effect", "effects %s", bz_trace.s);
      }
      if((int)buzzdict_size(vm->gsyms) != gs) mc_fail("badcall-effect", "globals changed");
      buzzvm_destroy(&vm); bz_prog_free(&p); mc_states(1); mc_trans(1);
   }
}
/* host functions registered many times, called with every argument count */
static int cntargs(buzzvm_t vm) { buzzvm_pushi(vm, buzzvm_lnum(vm)); return buzzvm_ret1(vm); }
static void manyargs(void) {
   for(int n = 0; n <= 40; ++n) for(int how = 0; how < 3; ++how) {
      if(!MC_CASE("host function with %d arguments, mode %d", n, how)) continue;
      mcs_clear(&src); mcs_add(&src, "function sf() { return cnt("); for(int j = 0; j < n; ++j) mcs_add(&src, "%s%d", j ? "," : "", j); mcs_add(&src, ") }\nt(1)\n");
      bz_prog_t p; bz_compile(src.s, &p); mcs_clear(&bz_trace); buzzvm_t vm = bz_vm(1, &p); 
      for(int r = 0; r < 3; ++r) bz_reg(vm, "cnt", cntargs);
      bz_exec(vm, 10000); vm->state = BUZZVM_STATE_READY; buzzvm_state s;
      if(how == 0) s = buzzvm_function_call(vm, "sf", 0);
      else { if(how == 2) pushg(vm, "cnt"); for(int j = 0; j < n; ++j) buzzvm_pushi(vm, j); s = how == 1 ? buzzvm_function_call(vm, "cnt", n) : buzzvm_closure_call(vm, n); }
      if(s != BUZZVM_STATE_READY || bz_depth(vm) != 1 || buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT || buzzvm_stack_at(vm, 1)->i.value != n) mc_fail("argcount", "state %s depth %d", bz_statename(vm), bz_depth(vm));
      buzzvm_destroy(&vm); bz_prog_free(&p); mc_states(1); mc_trans(1);
   }
}
/* deep mutual recursion host <-> script */
static int down(buzzvm_t vm) {
   buzzvm_lload(vm, 1); int n = buzzvm_stack_at(vm, 1)->i.value; buzzvm_pop(vm);
   if(n > 0) { buzzvm_pushi(vm, n - 1); if(buzzvm_function_call(vm, "sdown", 1) != BUZZVM_STATE_READY) return vm->state; buzzvm_pushi(vm, 1); buzzvm_add(vm); } else buzzvm_pushi(vm, 0);
   return buzzvm_ret1(vm);
}
static void deep(void) {
   for(int n = 0; n <= 200; n += n < 20 ? 1 : 45) {
      if(!MC_CASE("host/script recursion of depth %d", n)) continue;
      bz_prog_t p; bz_compile("function sdown(n) { var before = n\n var r = down(n)\n t(before - n)\n return r + 1 }\n", &p); mcs_clear(&bz_trace); buzzvm_t vm = bz_vm(1, &p); bz_reg(vm, "down", down); bz_exec(vm, 1000);
      buzzvm_pushi(vm, n);
      if(buzzvm_function_call(vm, "sdown", 1) != BUZZVM_STATE_READY || bz_depth(vm) != 1 || buzzvm_stack_at(vm, 1)->i.value != 2 * n + 1) mc_fail("deep", "state %s", bz_statename(vm));
      mcs_clear(&ex); for(int i = 0; i <= n; ++i) mcs_add(&ex, "0;"); if(strcmp(ex.s, bz_trace.s)) mc_fail("deep", "trace %s", bz_trace.s);
      buzzvm_destroy(&vm); bz_prog_free(&p); mc_states(1); mc_trans(2 * n);
   }
}
void mc_run(void) {
   N[0].parent = -1;
   badcalls(); manyargs(); deep();
   for(extra = 0; extra < 2; ++extra) for(basek = 0; basek < 3; ++basek) { NN = 1; fill(0, 5, 3); }
   extra = 0; basek = 1;
   if(MC_ASAN) {
      NN = 2; N[1].parent = 0; fill(0, 3, 3);
      for(NN = 1; NN <= 3; ++NN) for(int w = 0; w < 2 * NN; ++w) shapes(1, failfill, w);
      NN = 3; for(int a = 0; a < 4; ++a) shapes(1, filltied, a);
   } else {
      for(extra = 0; extra < 2; ++extra) { NN = 2; N[1].parent = 0; fill(0, 5, 3); }
      extra = 0; NN = 3; shapes(1, fill3, mc_thorough ? 4 : 2);
      for(NN = 4; NN <= (mc_thorough ? 5 : 4); ++NN) for(int a = 0; a < (NN == 5 ? 1 : 4); ++a) shapes(1, filltied, a);
      if(mc_thorough) for(NN = 4; NN <= 4; ++NN) for(int w = 0; w < 2 * NN; ++w) shapes(1, failfill, w);
   }
}
