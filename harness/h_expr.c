/* P01: every expression tree within the bound is printed (with the fewest parentheses the grammar
 * needs, and again fully parenthesised), compiled by the real compiler, run on the real VM, and its
 * value compared with a reference evaluator. */
#include "bz.h"
#include <math.h>
const char* mc_name = "expr";

/* ---------- reference values ---------- */
enum { VNIL, VINT, VFLT, VSTR, VTAB, VFUN };
typedef struct { int t; int32_t i; float f; const char* s; } val_t;
static val_t I(int32_t i) { val_t v = { VINT, i, 0, 0 }; return v; }
static val_t F(float f) { val_t v = { VFLT, 0, f, 0 }; return v; }
static int truth(val_t v) { return !(v.t == VNIL || (v.t == VINT && v.i == 0)); }
static void vtext(val_t v, char* o) { if(v.t == VINT) sprintf(o, "%d", v.i); else sprintf(o, "%f", v.f); }
/* ordering of two values: -1,0,1, or 2 when they are only different */
static int order(val_t a, val_t b) {
   if(a.t == VNIL || b.t == VNIL) return a.t == b.t ? 0 : 2;
   if(a.t <= VFLT && b.t <= VFLT) {
      if(a.t == VINT && b.t == VINT) return a.i < b.i ? -1 : a.i > b.i;
      float x = a.t == VINT ? (float)a.i : a.f, y = b.t == VINT ? (float)b.i : b.f;
      return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
   }
   if(a.t <= VSTR && b.t <= VSTR) {
      char x[64], y[64]; const char *p = a.s, *q = b.s;
      if(a.t != VSTR) { vtext(a, x); p = x; }
      if(b.t != VSTR) { vtext(b, y); q = y; }
      int c = strcmp(p, q); return c < 0 ? -1 : c > 0;
   }
   return (a.t == b.t && a.i == b.i) ? 0 : 2;   /* tables, functions: identity */
}
enum { ADD, SUB, MUL, DIV, MOD, POW, BAND, BOR, SHL, SHR, EQ, NE, LT, LE, GT, GE, AND, OR, NOPS };
static const char* OPS[] = { "+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "and", "or" };
/* binding level of each operator, tighter is higher */
static const int LEV[] = { 3, 3, 4, 4, 5, 6, 8, 8, 7, 7, 2, 2, 2, 2, 2, 2, 1, 1 };
enum { NONE, NEG, BNOT, NOT, PLUS, NUN };
enum { OK, TYPERR, ZERO, UNDEF };
static int binop(int op, val_t a, val_t b, val_t* r) {
   int num = a.t >= VINT && a.t <= VFLT && b.t >= VINT && b.t <= VFLT;
   int ints = a.t == VINT && b.t == VINT;
   float x = a.t == VINT ? (float)a.i : a.f, y = b.t == VINT ? (float)b.i : b.f;
   if(op >= EQ && op <= GE) {
      int c = order(a, b);
      if((a.t >= VTAB || b.t >= VTAB) && op > NE) return UNDEF;
      if(a.t == VFUN && b.t == VFUN && a.i == b.i) return UNDEF;  /* storing a function in a table may copy it */
      *r = I(c == 2 ? op == NE : op == EQ ? c == 0 : op == NE ? c != 0 : op == LT ? c < 0 : op == LE ? c <= 0 : op == GT ? c > 0 : c >= 0);
      return OK;
   }
   if(op == AND) { *r = I(truth(a) && truth(b)); return OK; }
   if(op == OR) { *r = I(truth(a) || truth(b)); return OK; }
   if(op >= BAND && op <= SHR) {
      if(!ints) return TYPERR;
      if(op == BAND) *r = I(a.i & b.i);
      else if(op == BOR) *r = I(a.i | b.i);
      else {
         if(b.i < 0 || b.i > 30 || a.i < 0) return UNDEF;
         if(op == SHR) *r = I(a.i >> b.i);
         else { int64_t z = (int64_t)a.i << b.i; if(z > INT32_MAX) return UNDEF; *r = I((int32_t)z); }
      }
      return OK;
   }
   if(!num) return TYPERR;
   if(op == POW) { *r = F(powf(x, y)); return OK; }
   if(op == MOD) {
      if(ints) { if(b.i == 0) return ZERO; if(b.i < 0) return UNDEF; int m = a.i % b.i; *r = I(m < 0 ? m + b.i : m); }
      else { if(!(y > 0)) return UNDEF; float m = fmodf(x, y); if(m < 0) m += y; *r = F(m); }
      return OK;
   }
   if(ints) {
      int64_t z;
      if(op == DIV) { if(b.i == 0) return ZERO; z = (int64_t)a.i / b.i; }
      else z = op == ADD ? (int64_t)a.i + b.i : op == SUB ? (int64_t)a.i - b.i : (int64_t)a.i * b.i;
      if(z > INT32_MAX || z < INT32_MIN) return UNDEF;
      *r = I((int32_t)z);
   }
   else { float z = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x / y; *r = F(z); }
   return OK;
}
static int unop(int u, val_t a, val_t* r) {
   if(u == NONE || u == PLUS) { *r = a; return OK; }
   if(u == NOT) { *r = I(!truth(a)); return OK; }
   if(u == BNOT) { if(a.t != VINT) return TYPERR; *r = I(~a.i); return OK; }
   if(a.t == VINT) { if(a.i == INT32_MIN) return UNDEF; *r = I(-a.i); return OK; }
   if(a.t == VFLT) { *r = F(-a.f); return OK; }
   return TYPERR;
}
/* ---------- leaves ---------- */
typedef struct { val_t v; const char* lit; } lv_t;
static const lv_t LV[] = {
   { { VINT, 7, 0, 0 }, "7" }, { { VINT, 3, 0, 0 }, "3" }, { { VINT, 2, 0, 0 }, "2" }, { { VINT, 0, 0, 0 }, "0" }, { { VINT, 1, 0, 0 }, "1" }, { { VINT, -5, 0, 0 }, "-5" },
   { { VFLT, 0, 0.5f, 0 }, "0.5" }, { { VFLT, 0, 3.0f, 0 }, "3.0" }, { { VFLT, 0, -1.5f, 0 }, "-1.5" }, { { VNIL, 0, 0, 0 }, "nil" },
   { { VSTR, 0, 0, "ab" }, "\"ab\"" }, { { VSTR, 0, 0, "b" }, "'b'" }, { { VSTR, 0, 0, "3" }, "'3'" }, { { VINT, 2147483647, 0, 0 }, "2147483647" },
   { { VFLT, 0, 1e10f, 0 }, "10000000000.0" }, { { VTAB, 1, 0, 0 }, "TT" }, { { VFUN, 2, 0, 0 }, "FF" }, { { VTAB, 3, 0, 0 }, "TU" }, { { VFUN, 4, 0, 0 }, "FG" },
   { { VSTR, 0, 0, "c" }, "'c'" }, { { VSTR, 0, 0, "" }, "''" }, { { VFLT, 0, 3e38f, 0 }, "300000000000000000000000000000000000000.0" },
   { { VFLT, 0, INFINITY, 0 }, "(300000000000000000000000000000000000000.0 * 10.0)" }, { { VINT, -2147483647, 0, 0 }, "-2147483647" },
   { { VSTR, 0, 0, "a long string with many characters in it 1" }, "\"a long string with many characters in it 1\"" }, { { VSTR, 0, 0, "a long string with many characters in it 0" }, "\"a long string with many characters in it 0\"" },
};
#define NLV ((int)(sizeof LV / sizeof LV[0]))
enum { KLIT, KGLOB, KLOC, KFIELD, KIDX, KCALL, KMETH, KPAR, KNEST, KSELF, NK };
/* ---------- trees ---------- */
typedef struct node_s { int op; int un; int lv, kind; struct node_s *a, *b; } node_t;   /* op <0: leaf */
static int ev(node_t* n, val_t* r) {
   val_t x, y; int e;
   if(n->op < 0) x = LV[n->lv].v;
   else {
      if((e = ev(n->a, &x))) return e;
      if((e = ev(n->b, &y))) return e;
      if((e = binop(n->op, x, y, &x))) return e;
   }
   return unop(n->un, x, r);
}
static void leaf(mcs_t* o, node_t* n) {
   switch(n->kind) {
      case KLIT: mcs_add(o, "%s", LV[n->lv].lit); break;
      case KGLOB: mcs_add(o, "g%d", n->lv); break;
      case KLOC: mcs_add(o, "l%d", n->lv); break;
      case KFIELD: mcs_add(o, "T.x%d", n->lv); break;
      case KIDX: mcs_add(o, "T[\"x%d\"]", n->lv); break;
      case KCALL: mcs_add(o, "f%d()", n->lv); break;
      case KMETH: mcs_add(o, "T.m%d()", n->lv); break;
      case KPAR: mcs_add(o, "p%d", n->lv); break;
      case KNEST: mcs_add(o, "idf(N[1].sub[idx(1) + 1].fn(%d, 5))", n->lv); break;
      case KSELF: mcs_add(o, "ev(%d)", n->lv); break;
   }
}
/* minimal: print n where a phrase of level lev is expected; full: always parenthesise */
static void pr(mcs_t* o, node_t* n, int lev, int full) {
   if(n->un != NONE) {
      node_t m = *n; m.un = NONE;
      int l = n->un == NOT ? 0 : n->un == BNOT ? 9 : 10;
      int par = l < lev || full;
      if(par) mcs_add(o, "(");
      mcs_add(o, "%s", n->un == NOT ? "not " : n->un == BNOT ? "!" : n->un == NEG ? "-" : "+");
      /* a sign in front of a literal is part of the literal only for positive numbers */
      int inner = n->un == NOT ? 0 : 9;
      if(m.op < 0 && m.kind == KLIT && (n->un == NEG || n->un == PLUS) && (LV[m.lv].v.t != VINT && LV[m.lv].v.t != VFLT)) mcs_add(o, "("), pr(o, &m, 0, full), mcs_add(o, ")");
      else pr(o, &m, inner, full);
      if(par) mcs_add(o, ")");
      return;
   }
   if(n->op < 0) { leaf(o, n); return; }
   int l = LEV[n->op], par = l < lev || full;
   if(par) mcs_add(o, "(");
   int la = l, lb = l + 1;
   if(n->op == POW) { la = 7; lb = 6; }
   if(l == 2) { la = 3; lb = 3; }
   if(l == 1) { la = 1; lb = 2; }
   pr(o, n->a, la, full); mcs_add(o, " %s ", OPS[n->op]); pr(o, n->b, lb, full);
   if(par) mcs_add(o, ")");
}
/* ---------- batches ---------- */
typedef struct { char* src; char* exp; } item_t;
static item_t* items; static int nitems, capitems;
static void vrepr(mcs_t* o, val_t v) {
   if(v.t == VNIL) mcs_add(o, "nil"); else if(v.t == VINT) mcs_add(o, "%d", v.i);
   else if(v.t == VFLT) { if(v.f != v.f) mcs_add(o, "fnan"); else mcs_add(o, "f%.9g", v.f); }
   else if(v.t == VSTR) mcs_add(o, "'%s'", v.s); else if(v.t == VTAB) mcs_add(o, "{}"); else mcs_add(o, "fn");
}
static void order_trace(mcs_t* o, node_t* n) {
   if(n->op < 0) { if(n->kind == KSELF) mcs_add(o, "%d;", n->lv); return; }
   order_trace(o, n->a); order_trace(o, n->b);
}
static uint64_t skipped;
static const char* ctx_fmt = "t(%s)\n"; static int ctx_lev = 0;
static void emit(node_t* n, int full) {
   val_t v; if(ev(n, &v)) { ++skipped; return; }
   mcs_t s = {0}, e = {0}, x = {0};
   pr(&x, n, ctx_lev, full);
   mcs_add(&s, ctx_fmt, x.s, x.s, x.s);
   order_trace(&e, n);
   if(strstr(ctx_fmt, "COND")) mcs_add(&e, "%d", truth(v)); else vrepr(&e, v);
   mcs_add(&e, ";");
   mcs_free(&x);
   if(nitems == capitems) { capitems = capitems ? capitems * 2 : 256; items = realloc(items, capitems * sizeof *items); }
   items[nitems].src = s.s; items[nitems].exp = e.s; ++nitems;
}
static void prologue(mcs_t* s) {
   mcs_add(s, "TT = {}\nTU = {}\nFF = function() { return 1 }\nFG = function() { return 2 }\nT = {}\nCOND = 0\n");
   for(int i = 0; i < NLV; ++i) {
      mcs_add(s, "g%d = %s\nT.x%d = %s\nfunction f%d() { return %s }\nT.m%d = function() { return self.x%d }\n", i, LV[i].lit, i, LV[i].lit, i, LV[i].lit, i, i);
   }
   mcs_add(s, "V = {}\n"); for(int i = 0; i < NLV; ++i) mcs_add(s, "V[%d] = g%d\n", i, i);
   mcs_add(s, "N = {}\nN[1] = {}\nN[1].sub = {}\nN[1].sub[2] = { .k = 10, .fn = function(a, b) { return V[a + b - self.k + 5] } }\n"
              "function idf(x) { return x }\nfunction idx(x) { return x * 1 }\nfunction ev(i) { t(i)\n return V[i] }\n");
   mcs_add(s, "function run(");
   for(int i = 0; i < NLV; ++i) mcs_add(s, "%sp%d", i ? "," : "", i);
   mcs_add(s, ") {\n");
   for(int i = 0; i < NLV; ++i) mcs_add(s, "var l%d = %s\n", i, LV[i].lit);
   mcs_add(s, "var y\nvar TL = {}\n");
}
#define BATCH 250
static void flush_items(void) {
   static mcs_t s = {0}; 
   for(int b = 0; b < nitems; b += BATCH) {
      int m = nitems - b < BATCH ? nitems - b : BATCH;
      mcs_clear(&s); prologue(&s);
      for(int i = 0; i < m; ++i) mcs_add(&s, "%s", items[b + i].src);
      mcs_add(&s, "}\nrun(");
      for(int i = 0; i < NLV; ++i) mcs_add(&s, "%sg%d", i ? "," : "", i);
      mcs_add(&s, ")\n");
      bz_prog_t p; int rc = bz_compile(s.s, &p);
      if(rc) {
         /* find the statement */
         for(int i = 0; i < m; ++i) {
            mcs_clear(&s); prologue(&s); mcs_add(&s, "%s}\n", items[b + i].src);
            bz_prog_t q; int r2 = bz_compile(s.s, &q); bz_prog_free(&q);
            if(r2) { mc_fail("compile", "does not compile (%d): %s", r2, items[b + i].src); break; }
         }
         bz_prog_free(&p); continue;
      }
      mcs_clear(&bz_trace);
      buzzvm_t vm = bz_vm(1, &p);
      if(!vm) { mc_fail("load", "compiled code refused"); bz_prog_free(&p); continue; }
      bz_exec(vm, 10000000);
      const char* q = bz_trace.s ? bz_trace.s : "";
      int i; for(i = 0; i < m; ++i) {
         size_t l = strlen(items[b + i].exp);
         if(strncmp(q, items[b + i].exp, l)) {
            char got[100]; snprintf(got, sizeof got, "%.80s", q);
            mc_fail("value", "%s gave %s (state %s), expected %s", items[b + i].src, *got ? got : "(nothing)", bz_statename(vm), items[b + i].exp); break;
         }
         q += l; mc_trans(1);
      }
      if(i == m && (*q || vm->state != BUZZVM_STATE_DONE)) mc_fail("end", "script ended in state %s with %s", bz_statename(vm), q);
      if(i == m && vm->state == BUZZVM_STATE_DONE && bz_depth(vm) != 0) mc_fail("stack", "%d values left on the stack", bz_depth(vm));
      mc_sample("%s => %s", items[b].src, items[b].exp);
      mc_states(m); mc_traces(m);
      buzzvm_destroy(&vm); bz_prog_free(&p);
   }
   for(int i = 0; i < nitems; ++i) { free(items[i].src); free(items[i].exp); }
   nitems = 0;
}
/* ---------- enumeration ---------- */
static node_t pool[16];
static node_t* mk(int i, int op, node_t* a, node_t* b) { pool[i].op = op; pool[i].un = NONE; pool[i].a = a; pool[i].b = b; return &pool[i]; }
static node_t* lf(int i, int lv, int kind) { pool[i].op = -1; pool[i].un = NONE; pool[i].lv = lv; pool[i].kind = kind; return &pool[i]; }
/* shapes of binary trees over k+1 leaves: built recursively; leaves are pool[8..], inner pool[0..k-1] */
static int sh_ops[8]; static int sh_lv[8], sh_kind[8];
static void shapes(int lo, int hi, int* used, void (*k)(node_t*, void*), void* arg);
struct cont { int lo, hi, root; void (*k)(node_t*, void*); void* arg; };
/* enumerate all trees over leaves lo..hi (operator i sits between leaf i and i+1) */
struct rc { int root, hi; node_t* l; void (*k)(node_t*, void*); void* arg; };
static void rec(int lo, int hi, void (*k)(node_t*, void*), void* arg);
static void rr(node_t* r, void* v) { struct rc* c = v; node_t* n = mk(c->root, sh_ops[c->root], c->l, r); c->k(n, c->arg); }
static void rl(node_t* l, void* v) { struct rc* c = v; struct rc d = *c; d.l = l; rec(c->root + 1, c->hi, rr, &d); }
static void rec(int lo, int hi, void (*k)(node_t*, void*), void* arg) {
   if(lo == hi) { k(lf(8 + lo, sh_lv[lo], sh_kind[lo]), arg); return; }
   for(int root = lo; root < hi; ++root) { struct rc c = { root, hi, 0, k, arg }; rec(lo, root, rl, &c); }
}
static void both(node_t* n, void* a) { emit(n, 0); emit(n, 1); }
static void minimal(node_t* n, void* a) { emit(n, 0); }
static int nunodes; static node_t* unodes[16];
static void collect(node_t* n) { unodes[nunodes++] = n; if(n->op >= 0) { collect(n->a); collect(n->b); } }
static void unary_rec(node_t* n, int i) {
   if(i == nunodes) { emit(n, 0); return; }
   for(int u = 0; u < NUN; ++u) { if(u == PLUS && unodes[i]->op >= 0 && !mc_thorough) continue; unodes[i]->un = u; unary_rec(n, i + 1); }
   unodes[i]->un = NONE;
}
static void unaries(node_t* n, void* a) { nunodes = 0; collect(n); unary_rec(n, 0); }
static void kinds(int* k, int kk) { for(int i = 0; i < 8; ++i) { sh_kind[i] = k ? k[i] : kk; } }

void mc_run(void) {
   static const struct { const char* fmt; int lev; } CTX[] = {
      { "t(%s)\n", 0 }, { "y = %s\nt(y)\n", 3 }, { "G = %s\nt(G)\n", 3 }, { "TL.k = %s\nt(TL.k)\n", 3 }, { "TL[5] = %s\nt(TL[5])\n", 3 },
      { "y = { .a = %s, .b = 1 }\nt(y.a)\n", 3 }, { "COND = 0\nif(%s) { COND = 1 }\nt(COND)\n", 0 }, { "COND = 0\nif(%s) COND = 1 else COND = 0\nt(COND)\n", 0 },
      { "COND = 0\nwhile((COND == 0) and (%s)) COND = 1\nt(COND)\n", 0 }, { "y = function() { return %s }\nt(y())\n", 0 }, { "t(idf(%s))\n", 0 }, { "y = (%s)\nt(y)\n", 0 },
      { "TL[1] = %s\nt(T.x2 * 0 == 0 and 1 == 1, TL[1])\n", 99 },
      { "COND = 0\nfor(y = 0, (y < 1) and (%s), y = y + 1) COND = 1\nt(COND)\n", 0 },
   };
   int nctx = 14;
   /* one operator, all value pairs, all leaf kinds; unary operators on single leaves */
   for(int k0 = 0; k0 < NK; ++k0) for(int u = 0; u < NUN; ++u) if(mc_next()) {
      mc_desc("unary %d over every value, leaf kind %d", u, k0);
      for(int v = 0; v < NLV; ++v) { node_t* n = lf(8, v, k0); n->un = u; emit(n, 0); emit(n, 1); }
      flush_items();
   }
   for(int op = 0; op < NOPS; ++op) for(int k0 = 0; k0 < NK; ++k0) for(int k1 = 0; k1 < NK; ++k1) if(mc_next()) {
      mc_desc("operator %s, all value pairs, leaf kinds %d %d", OPS[op], k0, k1);
      sh_ops[0] = op; sh_kind[0] = k0; sh_kind[1] = k1;
      for(int a = 0; a < NLV; ++a) for(int b = 0; b < NLV; ++b) { sh_lv[0] = a; sh_lv[1] = b; rec(0, 1, minimal, 0); }
      flush_items();
   }
   /* two operators, all value triples */
   int nv = mc_thorough ? NLV : 13;
   for(int o0 = 0; o0 < NOPS; ++o0) for(int o1 = 0; o1 < NOPS; ++o1) if(mc_next()) {
      mc_desc("operators %s %s, all value triples", OPS[o0], OPS[o1]);
      sh_ops[0] = o0; sh_ops[1] = o1; kinds(0, KLIT);
      for(int a = 0; a < nv; ++a) for(int b = 0; b < nv; ++b) for(int c = 0; c < nv; ++c) {
         if(!mc_thorough && (a + b + c) % 2) continue;
         sh_lv[0] = a; sh_lv[1] = b; sh_lv[2] = c; rec(0, 2, minimal, 0); }
      flush_items();
   }
   /* two operators with unary operators on every node */
   static const int A2[][4] = { { 0, 1, 2, 4 }, { 5, 2, 4, 1 }, { 2, 6, 1, 7 }, { 1, 3, 0, 2 } };
   for(int as = 0; as < (mc_thorough ? 4 : 2); ++as)
   for(int o0 = 0; o0 < NOPS; ++o0) for(int o1 = 0; o1 < NOPS; ++o1) if(mc_next()) {
      mc_desc("operators %s %s, unary operators on every node", OPS[o0], OPS[o1]);
      sh_ops[0] = o0; sh_ops[1] = o1; kinds(0, as & 1 ? KGLOB : KLIT);
      for(int i = 0; i < 4; ++i) sh_lv[i] = A2[as][i];
      rec(0, 2, unaries, 0);
      flush_items();
   }
   /* two operators, leaf kinds */
   for(int o0 = 0; o0 < NOPS; ++o0) for(int o1 = 0; o1 < NOPS; ++o1) if(mc_next()) {
      mc_desc("operators %s %s, all leaf kinds", OPS[o0], OPS[o1]);
      sh_ops[0] = o0; sh_ops[1] = o1;
      for(int as = 0; as < (mc_thorough ? 3 : 1); ++as) for(int k0 = 0; k0 < NK; ++k0) for(int k1 = 0; k1 < NK; ++k1) for(int k2 = 0; k2 < NK; ++k2) {
         for(int i = 0; i < 3; ++i) sh_lv[i] = A2[as][i];
         sh_kind[0] = k0; sh_kind[1] = k1; sh_kind[2] = k2; rec(0, 2, minimal, 0);
      }
      flush_items();
   }
   /* contexts */
   for(int c = 0; c < nctx; ++c) for(int o0 = 0; o0 < NOPS; ++o0) for(int as = 0; as < 4; ++as) {
      if(CTX[c].lev == 99) continue;
      if(mc_next()) {
         mc_desc("context %s, operator %s", CTX[c].fmt, OPS[o0]);
         ctx_fmt = CTX[c].fmt; ctx_lev = CTX[c].lev; sh_ops[0] = o0;
         for(int kk = 0; kk < 4; ++kk) for(int o1 = 0; o1 < NOPS; ++o1) {
            kinds(0, kk == 0 ? KLIT : kk == 1 ? KSELF : kk == 2 ? KLOC : KNEST); if(kk == 1 && strstr(ctx_fmt, "while")) continue;
            if(kk == 1 && strstr(ctx_fmt, "for(")) continue;
            sh_ops[1] = o1;
            for(int i = 0; i < 4; ++i) sh_lv[i] = A2[as][i];
            rec(0, 2, minimal, 0);
         }
         flush_items(); ctx_fmt = "t(%s)\n"; ctx_lev = 0;
      }
   }
   /* three operators: every shape, every operator triple, minimal and full parentheses, evaluation order */
   for(int o0 = 0; o0 < NOPS; ++o0) for(int o1 = 0; o1 < NOPS; ++o1) if(mc_next()) {
      mc_desc("operators %s %s *, every tree shape", OPS[o0], OPS[o1]);
      for(int o2 = 0; o2 < NOPS; ++o2) for(int as = 0; as < (mc_thorough ? 4 : 2); ++as) {
         sh_ops[0] = o0; sh_ops[1] = o1; sh_ops[2] = o2;
         for(int i = 0; i < 4; ++i) { sh_lv[i] = A2[as][i]; sh_kind[i] = as == 1 ? KSELF : KLIT; }
         rec(0, 3, both, 0);
      }
      flush_items();
   }
   if(mc_thorough) {
      static const int A5[][5] = { { 0, 1, 2, 4, 2 }, { 2, 1, 6, 1, 0 } };
      for(int o0 = 0; o0 < NOPS; ++o0) for(int o1 = 0; o1 < NOPS; ++o1) for(int o2 = 0; o2 < NOPS; ++o2) if(mc_next()) {
         mc_desc("operators %s %s %s *, every tree shape", OPS[o0], OPS[o1], OPS[o2]);
         for(int o3 = 0; o3 < NOPS; ++o3) for(int as = 0; as < 2; ++as) {
            sh_ops[0] = o0; sh_ops[1] = o1; sh_ops[2] = o2; sh_ops[3] = o3;
            for(int i = 0; i < 5; ++i) { sh_lv[i] = A5[as][i]; sh_kind[i] = as == 1 ? KSELF : KLIT; }
            rec(0, 4, minimal, 0);
         }
         flush_items();
      }
      /* three operators, unary on every node */
      for(int o0 = 0; o0 < NOPS; ++o0) for(int o1 = 0; o1 < NOPS; ++o1) for(int o2 = 0; o2 < NOPS; ++o2) {
         if(!(LEV[o0] != LEV[o1] || LEV[o1] != LEV[o2])) continue;
         if(mc_next()) {
            mc_desc("operators %s %s %s, unary operators", OPS[o0], OPS[o1], OPS[o2]);
            sh_ops[0] = o0; sh_ops[1] = o1; sh_ops[2] = o2; kinds(0, KLIT);
            for(int i = 0; i < 4; ++i) sh_lv[i] = A2[0][i];
            /* one or two unary operators at any two nodes */
            for(int shp = 0; shp < 1; ++shp) { void one(node_t* n, void* a) { nunodes = 0; collect(n);
               for(int i = 0; i < nunodes; ++i) for(int j = i; j < nunodes; ++j) for(int u = 1; u < 4; ++u) for(int w = (i == j ? u : 1); w < (i == j ? u + 1 : 4); ++w) {
                  unodes[i]->un = u; unodes[j]->un = w; emit(n, 0); unodes[i]->un = unodes[j]->un = NONE; } }
               rec(0, 3, one, 0); }
            flush_items();
         }
      }
   }
   mc_note("expressions whose value is undefined or an error (not run here)", skipped);
}
