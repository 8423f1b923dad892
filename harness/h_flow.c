/* P02 / P03: every program within the bound is compiled by the real compiler and run on the real
 * VM for every sequence of branch decisions; the trace of effects must equal that of a reference
 * interpreter working on the syntax tree. FLOW selects control flow, SCOPE variables and functions. */
#include "bz.h"
#ifndef MODE_SCOPE
#define MODE_SCOPE 0
#endif
const char* mc_name = MODE_SCOPE ? "scope" : "flow";

/* ---------- programs ---------- */
enum { S_T, S_IF, S_IFE, S_WHILE, S_FOR, S_RET, S_RETV, S_PRINT, S_VAR, S_ASG, S_LOOP2, S_LAM, S_CALL, S_RETX, S_INC, S_BREAKOUT };
typedef struct stmt_s { int kind, k, name, style, style2, param; struct list_s *a, *b; } stmt_t;
typedef struct list_s { stmt_t s[8]; int n; } list_t;
static list_t lists[64]; static int nlists, nextk;
static chooser_t pc, dc;
static int budget, infun;
static list_t* newlist(void) { list_t* l = &lists[nlists++]; l->n = 0; return l; }
enum { N_A, N_B, N_H, N_C, NNAMES }; static const char* NM[] = { "a", "b", "h", "c" };
static int lamdepth, blkdepth, hdefined;
static list_t* gen(int minlen, int depth);
/* scope bookkeeping while generating: declared locals (duplicates are rejected by the compiler) */
static int decl[NNAMES][64], ndecl_stack[64];
static int local_now[NNAMES];
static void gen_stmt(list_t* l, int depth) {
   stmt_t* s = &l->s[l->n++]; memset(s, 0, sizeof *s); s->k = ++nextk; --budget;
#if !MODE_SCOPE
   /* available kinds */
   int kinds[12], n = 0;
   kinds[n++] = S_T;
   if(infun) { kinds[n++] = S_RET; kinds[n++] = S_RETV; }
   if(depth < 3) { kinds[n++] = S_IF; kinds[n++] = S_IFE; kinds[n++] = S_WHILE; kinds[n++] = S_FOR; }
   s->kind = kinds[choose(&pc, n)];
   if(s->kind >= S_IF && s->kind <= S_FOR) {
      s->style = choose(&pc, 2);     /* braces, single statement */
      if(s->style == 1 && budget == 0) s->style = 0;
      s->a = newlist(); list_t* a = s->a;
      if(s->style == 1) gen_stmt(a, depth + 1);
      else { while(budget > 0 && a->n < 3 && choose(&pc, 2)) gen_stmt(a, depth + 1); }
      if(s->kind == S_IFE) {
         s->style2 = choose(&pc, 2);
         if(s->style2 == 1 && budget == 0) s->style2 = 0;
         s->b = newlist();
         if(s->style2 == 1) gen_stmt(s->b, depth + 1);
         else { while(budget > 0 && s->b->n < 3 && choose(&pc, 2)) gen_stmt(s->b, depth + 1); }
      }
   }
#else
   int kinds[16], n = 0;
   kinds[n++] = S_PRINT;
   if(!local_now[N_A]) kinds[n++] = 100 + N_A;    /* var a = k */
   if(!local_now[N_B]) kinds[n++] = 100 + N_B;
   kinds[n++] = 200 + N_A; kinds[n++] = 200 + N_B;  /* assignment */
   if(infun) kinds[n++] = S_RETX;
   if(depth < 3 && budget > 0) { kinds[n++] = S_IF; kinds[n++] = S_LOOP2; }
   if(lamdepth < 2) { kinds[n++] = 300; if(!local_now[N_H]) kinds[n++] = 301; }  /* h = lambda, var h = lambda */
   kinds[n++] = S_CALL;
   if(mc_thorough && (infun || blkdepth)) kinds[n++] = 250;   /* a = a + 1 */
   int c = kinds[choose(&pc, n)];
   if(c == 250) { s->kind = S_INC; s->name = N_A; }
   else if(c >= 300) {
      s->kind = S_LAM; s->name = N_H; s->style = c - 300; s->param = choose(&pc, 2) ? N_C : N_A;
      int save[NNAMES]; int tl = (infun == 0 && blkdepth == 0);
      if(c == 301 && !tl) local_now[N_H] = 1;
      memcpy(save, local_now, sizeof save);
      if(infun == 0 && blkdepth == 0) memset(local_now, 0, sizeof local_now);
      local_now[s->param] = 1;
      int in = infun, bd = blkdepth; infun = 1; ++lamdepth;
      s->a = newlist(); while(budget > 0 && s->a->n < 3 && choose(&pc, 2)) gen_stmt(s->a, depth + 1);
      infun = in; blkdepth = bd; --lamdepth; memcpy(local_now, save, sizeof save);
   }
   else if(c >= 200) { s->kind = S_ASG; s->name = c - 200; }
   else if(c >= 100) { s->kind = S_VAR; s->name = c - 100; if(infun || blkdepth) local_now[s->name] = 1; s->style = choose(&pc, 2); }
   else {
      s->kind = c;
      if(c == S_IF || c == S_LOOP2) {
         int save[NNAMES]; memcpy(save, local_now, sizeof save); ++blkdepth;
         s->a = newlist(); do gen_stmt(s->a, depth + 1); while(budget > 0 && s->a->n < 3 && choose(&pc, 2));
         --blkdepth; memcpy(local_now, save, sizeof save);
      }
   }
#endif
}
static list_t* gen(int minlen, int depth) {
   list_t* l = newlist();
   while(budget > 0 && l->n < 6 && (l->n < minlen || choose(&pc, 2))) gen_stmt(l, depth);
   return l;
}
/* an if without else at the right end would capture a following else */
static int open_if(stmt_t* s) {
   if(s->kind == S_IF) return s->style == 0 ? 1 : 1;
   if(s->kind == S_IFE) return s->style2 == 1 && open_if(&s->b->s[0]);
   if(s->kind == S_WHILE || s->kind == S_FOR) return s->style == 1 && open_if(&s->a->s[0]);
   return 0;
}
static int bad, fmt;   /* fmt: 0 newline separated, 1 one line with semicolons, 2 comments after statements */
static void print_list(mcs_t* o, list_t* l);
static void print_body(mcs_t* o, list_t* l, int style) {
   if(style == 1) { mcs_add(o, " "); list_t one = *l; print_list(o, &one); }
   else if(l->n == 0) mcs_add(o, " {}\n");
   else { mcs_add(o, " {\n"); print_list(o, l); mcs_add(o, "}\n"); }
}
static void print_stmt(mcs_t* o, stmt_t* s) {
   switch(s->kind) {
      case S_T: mcs_add(o, "t(%d)\n", s->k); break;
      case S_IF: mcs_add(o, MODE_SCOPE ? "if(1)" : "if(d(%d))", s->k); print_body(o, s->a, s->style); break;
      case S_IFE:
         if(s->style == 1 && open_if(&s->a->s[0])) bad = 1;
         mcs_add(o, "if(d(%d))", s->k); print_body(o, s->a, s->style); mcs_add(o, "else"); print_body(o, s->b, s->style2); break;
      case S_WHILE: mcs_add(o, "while(d(%d))", s->k); print_body(o, s->a, s->style); break;
      case S_FOR: mcs_add(o, "for(t(%d), d(%d), t(%d))", 100 + s->k, s->k, 200 + s->k); print_body(o, s->a, s->style); break;
      case S_RET: mcs_add(o, s->k % 3 == 0 ? "return\n" : s->k % 3 == 1 ? "return;\n" : "return # nothing\n"); break;
      case S_RETV: mcs_add(o, "return %d\n", s->k); break;
      case S_PRINT: mcs_add(o, "t(a, b, c)\n"); break;
      case S_VAR: if(s->style) mcs_add(o, "var %s\n", NM[s->name]); else mcs_add(o, "var %s = %d\n", NM[s->name], s->k); break;
      case S_ASG: mcs_add(o, "%s = %d\n", NM[s->name], s->k); break;
      case S_INC: mcs_add(o, "t(%s)\n", NM[s->name]); break;
      case S_LOOP2: mcs_add(o, "for(n%d = 0, n%d < 2, n%d = n%d + 1)", s->k, s->k, s->k, s->k); print_body(o, s->a, 0); break;
      case S_LAM: mcs_add(o, "%sh = function(%s) {\n", s->style ? "var " : "", NM[s->param]); print_list(o, s->a); mcs_add(o, "}\n"); break;
      case S_CALL: mcs_add(o, "t(h(%d))\n", s->k); break;
      case S_RETX: mcs_add(o, "return a\n"); break;
   }
}
static void print_list(mcs_t* o, list_t* l) { for(int i = 0; i < l->n; ++i) print_stmt(o, &l->s[i]); }

/* ---------- decisions (conditions) ---------- */
static int maxdec, ndec;
static mcs_t rtrace;
static int decide(chooser_t* k) { return ndec++ < maxdec ? choose(k, 2) : 0; }
static int hostd(buzzvm_t vm) {
   int k = buzzdarray_get(vm->lsyms->syms, 1, buzzobj_t)->i.value;
   int d = decide(&dc);
   mcs_add(&bz_trace, "?%d=%d;", k, d);
   /* every kind of true and false value */
   int v = (k + ndec) % 4;
   if(d) switch(v) { case 0: buzzvm_pushi(vm, 1); break; case 1: buzzvm_pushf(vm, 0.0f); break; case 2: buzzvm_pushs(vm, buzzvm_string_register(vm, "", 0)); break; default: buzzvm_pusht(vm); }
   else switch(v) { case 0: case 2: buzzvm_pushi(vm, 0); break; default: buzzvm_pushnil(vm); }
   return buzzvm_ret1(vm);
}
/* ---------- reference interpreter ---------- */
typedef struct { int t; int i; int clo; } rv_t;   /* t: 0 nil, 1 int, 2 closure */
typedef struct { int name; rv_t v; } slot_t;
typedef struct { slot_t s[24]; int n; } act_t;
static struct { stmt_t* lam; act_t cap; } clos[256]; static int nclos;
static rv_t gl[NNAMES]; static int fuel, rerr;
static rv_t retval; static const rv_t RNIL = { 0, 0, 0 };
static rv_t RI(int i) { rv_t v = { 1, i, 0 }; return v; }
static void rp(rv_t v) { if(v.t == 0) mcs_add(&rtrace, "nil"); else if(v.t == 1) mcs_add(&rtrace, "%d", v.i); else mcs_add(&rtrace, "fn"); }
static rv_t* var(act_t* a, int name) {
   for(int i = a ? a->n - 1 : -1; i >= 0; --i) if(a->s[i].name == name) return &a->s[i].v;
   return &gl[name];
}
/* act: locals of the running function; NULL at the top level outside blocks. returns 1 on return */
static int run(list_t* l, act_t* a, int top);
static int run1(stmt_t* s, act_t* a, int top) {
   if(--fuel < 0) { rerr = 1; return 1; }
   mc_trans(1);
   switch(s->kind) {
      case S_T: mcs_add(&rtrace, "%d;", s->k); return 0;
      case S_IF: {
         int d = 1; if(!MODE_SCOPE) { d = decide(&dc); mcs_add(&rtrace, "?%d=%d;", s->k, d); }
         if(!d) return 0;
         int n = a->n, r = run(s->a, a, 0); if(!r) a->n = n; return r;
      }
      case S_IFE: { int d = decide(&dc); mcs_add(&rtrace, "?%d=%d;", s->k, d); return run(d ? s->a : s->b, a, 0); }
      case S_WHILE: for(;;) { if(--fuel < 0) { rerr = 1; return 1; } int d = decide(&dc); mcs_add(&rtrace, "?%d=%d;", s->k, d); if(!d) return 0; if(run(s->a, a, 0)) return 1; }
      case S_FOR: mcs_add(&rtrace, "%d;", 100 + s->k);
         for(;;) { if(--fuel < 0) { rerr = 1; return 1; } int d = decide(&dc); mcs_add(&rtrace, "?%d=%d;", s->k, d); if(!d) return 0; if(run(s->a, a, 0)) return 1; mcs_add(&rtrace, "%d;", 200 + s->k); }
      case S_LOOP2: for(int i = 0; i < 2; ++i) { int n = a->n; if(run(s->a, a, 0)) return 1; a->n = n; } return 0;
      case S_RET: retval = RNIL; return 1;
      case S_RETV: retval = RI(s->k); return 1;
      case S_RETX: retval = *var(a, N_A); return 1;
      case S_PRINT: rp(*var(a, N_A)); mcs_add(&rtrace, " "); rp(*var(a, N_B)); mcs_add(&rtrace, " "); rp(*var(a, N_C)); mcs_add(&rtrace, ";"); return 0;
      case S_INC: rp(*var(a, s->name)); mcs_add(&rtrace, ";"); return 0;
      case S_VAR: { rv_t v = s->style ? RNIL : RI(s->k); if(top) gl[s->name] = v; else { a->s[a->n].name = s->name; a->s[a->n++].v = v; } return 0; }
      case S_ASG: *var(a, s->name) = RI(s->k); return 0;
      case S_LAM: {
         if(s->style && !top) { a->s[a->n].name = N_H; a->s[a->n++].v = RNIL; }
         if(nclos == 256) { rerr = 1; return 1; }
         clos[nclos].lam = s; clos[nclos].cap = *a;
         rv_t v = { 2, 0, nclos++ };
         if(s->style && top) gl[N_H] = v; else *var(a, N_H) = v;
         return 0;
      }
      case S_CALL: {
         rv_t h = *var(a, N_H);
         if(h.t != 2) { rerr = 1; return 1; }
         act_t na = clos[h.clo].cap;
         na.s[na.n].name = clos[h.clo].lam->param; na.s[na.n++].v = RI(s->k);
         retval = RNIL;
         if(!run(clos[h.clo].lam->a, &na, 0)) retval = RNIL;
         if(rerr) return 1;
         rp(retval); mcs_add(&rtrace, ";");
         return 0;
      }
   }
   return 0;
}
static int run(list_t* l, act_t* a, int top) { for(int i = 0; i < l->n; ++i) if(run1(&l->s[i], a, top)) return 1; return 0; }

static void one(const char* src, list_t* body, int place, bz_prog_t* p) {
   memset(&dc, 0, sizeof dc);
   do {
      /* reference run draws the decisions, the real run replays them */
      mcs_clear(&rtrace); ndec = 0; fuel = 400; rerr = 0; nclos = 0; retval = RNIL;
      for(int i = 0; i < NNAMES; ++i) gl[i] = RNIL;
      gl[N_A] = RI(-1); gl[N_B] = RI(-2);
      act_t a; a.n = 0;
      if(place == 1) { a.s[0].name = N_A; a.s[0].v = RI(77); a.n = MODE_SCOPE ? 1 : 0; }
      int r = run(body, &a, place == 0);
      if(!r || place == 0) retval = RNIL;
      if(rerr) { mc_note("runs without a defined result (skipped)", 1); dc.pos = dc.pos; continue; }
      if(place == 1) { rp(retval); mcs_add(&rtrace, ";"); }
      rp(gl[N_A]); mcs_add(&rtrace, " "); rp(gl[N_B]); mcs_add(&rtrace, " "); rp(gl[N_C]); mcs_add(&rtrace, ";");
      int used = dc.pos; dc.pos = 0; ndec = 0;
      mcs_clear(&bz_trace);
      buzzvm_t vm = bz_vm(1, p);
      if(!vm) { mc_fail("load", "compiled code refused"); return; }
      bz_reg(vm, "d", hostd);
      bz_exec(vm, 100000);
      if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "ended in state %s (%s), trace %s, expected %s", bz_statename(vm), vm->errormsg ? vm->errormsg : "", bz_trace.s ? bz_trace.s : "", rtrace.s);
      else if(strcmp(bz_trace.s ? bz_trace.s : "", rtrace.s)) mc_fail("trace", "trace    %s\nexpected %s", bz_trace.s ? bz_trace.s : "", rtrace.s);
      else if(bz_depth(vm) || buzzdarray_size(vm->stacks) != 1) mc_fail("stack", "%d values left on the stack", bz_depth(vm));
      else mc_sample("%s => %s", src, rtrace.s);
      mc_traces(1); mc_states(1);
      buzzvm_destroy(&vm);
      dc.pos = used;
   } while(!mc_case_failed() && advance(&dc));
}
static void explore(int size, int place, int dec) {
   memset(&pc, 0, sizeof pc);
   maxdec = dec;
   static mcs_t src = {0};
   do {
      budget = size; nlists = 0; nextk = 0; infun = place == 1; lamdepth = 0; blkdepth = place == 2; bad = 0; memset(local_now, 0, sizeof local_now);
      if(place == 1 && MODE_SCOPE) local_now[N_A] = 1;
      list_t* l = gen(1, 0);
      if(budget > 0) continue;      /* exactly this size: smaller ones come in their own round */
      if(!mc_next()) continue;
      mcs_clear(&src);
      mcs_add(&src, "a = -1\nb = -2\n");
      if(place == 1) mcs_add(&src, "function f(%s) {\n", MODE_SCOPE ? "a" : "");
      if(place == 2) mcs_add(&src, "if(1) {\n");
      print_list(&src, l);
      if(place == 1) mcs_add(&src, "}\nt(f(%s))\n", MODE_SCOPE ? "77" : "");
      if(place == 2) mcs_add(&src, "}\n");
      mcs_add(&src, "t(a, b, c)\n");
      if(bad) continue;
      if(fmt == 1) { if(strchr(src.s, '#')) continue; for(char* c = src.s; *c; ++c) if(*c == '\n') *c = ';'; }
      if(fmt == 2) { mcs_t q = {0}; for(char* c = src.s; *c; ++c) if(*c == '\n') mcs_add(&q, c[-1] == '{' ? "\n\n" : " # x {\n \t"); else mcs_add(&q, "%c", *c); mcs_free(&src); src = q; }
      mc_desc("%s", src.s);
      bz_prog_t p; int rc = bz_compile(src.s, &p);
      if(rc) mc_fail("compile", "valid program rejected (%d)", rc);
      else one(src.s, l, place, &p);
      bz_prog_free(&p);
   } while(advance(&pc));
}
#if !MODE_SCOPE
/* else-if chains, nested loops and long bodies: all outcomes */
static void chains(void) {
   for(int n = 1; n <= 8; ++n) for(int form = 0; form < 4; ++form) for(int hit = 0; hit <= n; ++hit) for(int els = 0; els < 2; ++els) if(mc_next()) {
      mcs_t s = {0}, e = {0};
      for(int i = 0; i < n; ++i) {
         const char* nl = form & 1 ? "\n" : " ";
         if(i) mcs_add(&s, form & 1 ? "else " : "%selse%s", nl, nl);
         mcs_add(&s, form & 2 ? "if(x(%d) == 1) { t(%d) }%s" : "if(x(%d) == 1) t(%d)%s", i, 100 + i, nl);
      }
      if(els) mcs_add(&s, form & 2 ? "else { t(999) }\n" : "else t(999)\n");
      mcs_add(&s, "t(5)\n");
      for(int i = 0; i <= hit && i < n; ++i) mcs_add(&e, "%d;", i);
      if(hit < n) mcs_add(&e, "%d;", 100 + hit); else if(els) mcs_add(&e, "999;");
      mcs_add(&e, "5;");
      mcs_t src = {0}; mcs_add(&src, "function x(i) { t(i)\n if(i == %d) return 1\n return 0 }\n%s", hit, s.s);
      mc_desc("%s", src.s);
      bz_prog_t p; buzzvm_t vm = bz_script(src.s, &p, 1);
      if(!vm) mc_fail("compile", "valid program rejected");
      else if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "ended in %s: %s", bz_statename(vm), vm->errormsg);
      else if(strcmp(bz_trace.s, e.s)) mc_fail("chain", "trace %s\nexpected %s", bz_trace.s, e.s);
      mc_states(1); mc_traces(1); mc_trans(n);
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mcs_free(&s); mcs_free(&e); mcs_free(&src);
   }
   /* loops nested to depth n with bounds b, with an early return at one (iteration, level) or none */
   for(int n = 1; n <= 4; ++n) for(int b = 0; b <= 3; ++b) for(int kind = 0; kind < 2; ++kind) for(int pad = 0; pad < 3; ++pad) for(int stop = -1; stop < 5; ++stop) if(mc_next()) {
      mcs_t s = {0}, e = {0};
      mcs_add(&s, "function f() {\nvar c = 0\n");
      for(int i = 0; i < n; ++i) { if(kind) mcs_add(&s, "var i%d = 0\nwhile(i%d < %d) {\n", i, i, b); else mcs_add(&s, "for(i%d = 0, i%d < %d, i%d = i%d + 1) {\n", i, i, b, i, i); }
      for(int i = 0; i < pad * 200; ++i) mcs_add(&s, "z = %d\n", i);
      mcs_add(&s, "if(c == %d) return c\nc = c + 1\n", stop);
      for(int i = n - 1; i >= 0; --i) { if(kind) mcs_add(&s, "i%d = i%d + 1\n", i, i); mcs_add(&s, "}\nt(%d)\n", i); }
      mcs_add(&s, "return 0 - c\n}\nt(f())\n");
      int c = 0, ret = 0, ix[4] = {0}, lev = 0;
      /* odometer */
      for(;;) {
         if(lev == n) { if(c == stop) { ret = 1; break; } ++c; lev = n - 1; ++ix[lev]; continue; }
         if(ix[lev] < b) { ++lev; if(lev < n) ix[lev] = 0; continue; }
         mcs_add(&e, "%d;", lev); if(lev == 0) break; --lev; ++ix[lev];
      }
      mcs_add(&e, "%d;", ret ? c : -c);
      mc_desc("%s", s.s);
      bz_prog_t p; buzzvm_t vm = bz_script(s.s, &p, 1);
      if(!vm) mc_fail("compile", "valid program rejected");
      else if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "ended in %s: %s", bz_statename(vm), vm->errormsg);
      else if(strcmp(bz_trace.s, e.s)) mc_fail("loops", "trace %s\nexpected %s", bz_trace.s, e.s);
      mc_states(1); mc_traces(1); mc_trans(c);
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mcs_free(&s); mcs_free(&e);
   }
}
#endif
#if MODE_SCOPE
/* ---------- self: functions stored in and called through tables ---------- */
static void selfs(void) {
   /* objects T,U (tables with id), variables f; ops rebind methods */
   enum { O_FT, O_FU, O_TM_F, O_UM_TM, O_TM_UM, O_F_TM, O_CALLF, O_CALLT, O_CALLTI, O_CALLU, O_NEST, O_LAMIN, O_CALLARG, NO };
   static const char* OT[] = {
      "T = { .id = 10 + %d, .m = function(x) { t(%d, x, idof(self)) } }\n", "U = { .id = 20, .m = function(x) { t(%d, x, idof(self)) } }\n",
      "T.m = f\n", "U.m = T.m\n", "T.m = U.m\n", "f = T.m\n", "f(%d)\n", "T.m(%d)\n", "T[\"m\"](%d)\n", "U.m(%d)\n", "T.s = { .id = 30 }\nT.s.m = U.m\nT.s.m(%d)\n",
      "T.q = function(x) { var l = function(y) { t(%d, x, y, idof(self)) }\n l(5) }\nT.q(%d)\n", "callit(T.m, %d)\n" };
   int depth = mc_thorough ? 5 : 4;
   int seq[8];
   uint64_t total = 1; for(int i = 0; i < depth; ++i) total *= NO;
   for(uint64_t c = 0; c < total; ++c) {
      if(!mc_next()) continue;
      uint64_t x = c; for(int i = 0; i < depth; ++i) { seq[i] = x % NO; x /= NO; }
      mcs_t s = {0}, e = {0};
      mcs_add(&s, "function idof(s) { if(s == nil) return 0\n return s.id }\nfunction callit(m, x) { m(x) }\n"
                  "T = { .id = 1 }\nU = { .id = 2 }\nf = function(x) { t(0, x, idof(self)) }\nT.m = f\nU.m = f\n");
      /* reference: closure = (tag, self object id); T's identity changes when it is rebuilt */
      int T = 1, U = 2, ftag = 0, fself = 0, ttag = 0, tself = 1, utag = 0, uself = 2;
      for(int i = 0; i < depth; ++i) {
         int k = 50 + i;
         switch(seq[i]) {
            case O_FT: mcs_add(&s, OT[seq[i]], i, k); T = 10 + i; ttag = k; tself = T; break;
            case O_FU: mcs_add(&s, OT[seq[i]], k); U = 20; utag = k; uself = U; break;
            case O_TM_F: mcs_add(&s, "%s", OT[seq[i]]); ttag = ftag; tself = T; break;
            case O_UM_TM: mcs_add(&s, "%s", OT[seq[i]]); utag = ttag; uself = U; break;
            case O_TM_UM: mcs_add(&s, "%s", OT[seq[i]]); ttag = utag; tself = T; break;
            case O_F_TM: mcs_add(&s, "%s", OT[seq[i]]); ftag = ttag; fself = tself; break;
            case O_CALLF: mcs_add(&s, OT[seq[i]], k); mcs_add(&e, "%d %d %d;", ftag, k, fself); break;
            case O_CALLT: case O_CALLTI: case O_CALLARG: mcs_add(&s, OT[seq[i]], k); mcs_add(&e, "%d %d %d;", ttag, k, tself); break;
            case O_CALLU: mcs_add(&s, OT[seq[i]], k); mcs_add(&e, "%d %d %d;", utag, k, uself); break;
            case O_NEST: mcs_add(&s, OT[seq[i]], k); mcs_add(&e, "%d %d 30;", utag, k); break;
            case O_LAMIN: mcs_add(&s, OT[seq[i]], k, k + 100); mcs_add(&e, "%d %d 5 %d;", k, k + 100, T); break;
         }
      }
      mc_desc("%s", s.s);
      bz_prog_t p; buzzvm_t vm = bz_script(s.s, &p, 1);
      if(!vm) mc_fail("compile", "valid program rejected");
      else if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "ended in %s: %s", bz_statename(vm), vm->errormsg);
      else if(strcmp(bz_trace.s ? bz_trace.s : "", e.s ? e.s : "")) mc_fail("self", "trace %s expected %s", bz_trace.s, e.s ? e.s : "");
      mc_states(1); mc_traces(1); mc_trans(depth);
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mcs_free(&s); mcs_free(&e);
   }
}
/* ---------- calls: arguments, recursion, activations ---------- */
static void calls(void) {
   for(int np = 0; np <= 6; ++np) for(int nl = 0; nl <= 3; ++nl) for(int dep = 0; dep <= 4; ++dep) for(int form = 0; form < 4; ++form) if(mc_next()) {
      /* function with np parameters and nl locals calls itself dep levels deep and checks that its own
       * parameters and locals are unchanged afterwards */
      mcs_t s = {0}, e = {0};
      const char* head[] = { "function f(", "f = function(", "T = {}\nT.f = function(", "if(1) {\nf = function(" };
      const char* call[] = { "f(", "f(", "T.f(", "f(" };
      mcs_add(&s, "%sn", head[form]); for(int i = 0; i < np; ++i) mcs_add(&s, ", p%d", i); mcs_add(&s, ") {\n");
      for(int i = 0; i < nl; ++i) mcs_add(&s, "var l%d = n * 100 + %d\n", i, i);
      mcs_add(&s, "var r = 0\nif(n > 0) {\nvar inner = n + 1000\nr = %sn - 1", call[form]); for(int i = 0; i < np; ++i) mcs_add(&s, ", p%d + 1", i); mcs_add(&s, ")\nt(inner)\n}\nt(n");
      for(int i = 0; i < np; ++i) mcs_add(&s, ", p%d", i); for(int i = 0; i < nl; ++i) mcs_add(&s, ", l%d", i); mcs_add(&s, ", r)\nreturn n + r\n}\n");
      mcs_add(&s, "t(%s%d", call[form], dep); for(int i = 0; i < np; ++i) mcs_add(&s, ", %d", 10 * (i + 1)); mcs_add(&s, "))\n");
      if(form == 3) mcs_add(&s, "}\n");
      int r = 0;
      for(int n = 0; n <= dep; ++n) {
         int lev = dep - n;
         if(n > 0) mcs_add(&e, "%d;", n + 1000);
         mcs_add(&e, "%d", n); for(int i = 0; i < np; ++i) mcs_add(&e, " %d", 10 * (i + 1) + lev); for(int i = 0; i < nl; ++i) mcs_add(&e, " %d", n * 100 + i); mcs_add(&e, " %d;", r);
         r = n + r;
      }
      mcs_add(&e, "%d;", r);
      mc_desc("%s", s.s);
      bz_prog_t p; buzzvm_t vm = bz_script(s.s, &p, 1);
      if(!vm) mc_fail("compile", "valid program rejected");
      else if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "ended in %s: %s", bz_statename(vm), vm->errormsg);
      else if(strcmp(bz_trace.s, e.s)) mc_fail("calls", "trace %s\nexpected %s", bz_trace.s, e.s);
      mc_states(1); mc_traces(1); mc_trans(dep + 1);
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mcs_free(&s); mcs_free(&e);
   }
}
#endif
void mc_run(void) {
#if MODE_SCOPE
   int n = mc_thorough ? 6 : 5;
   calls();
   selfs();
   for(int s = 1; s <= n; ++s) { explore(s, 1, 0); if(s < 5 || mc_thorough) { explore(s, 2, 0); explore(s, 0, 0); } }
#else
   int n = mc_thorough ? 5 : 4;
   for(fmt = 2; fmt >= 0; --fmt) for(int s = 1; s <= (fmt ? (mc_thorough ? 4 : 3) : n); ++s) { explore(s, 1, s <= 3 ? 6 : s == 4 ? 5 : 4); if(s < 5) explore(s, 0, s <= 3 ? 6 : 5); }
   chains();
#endif
}
