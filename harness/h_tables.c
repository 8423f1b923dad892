/* P04: every history of stores and removals over colliding, negative, float and string keys, every
 * graph of shared tables, and every modification made while iterating, on the real VM, compared with
 * reference maps. */
#include "bz.h"
const char* mc_name = "tables";
typedef struct { int isstr; double n; const char* s; const char* lit; const char* dot; } key_t_;
static const key_t_ K[] = {
   { 0, 1, 0, "1", 0 }, { 0, 11, 0, "11", 0 }, { 0, 21, 0, "21", 0 }, { 0, 1, 0, "1.0", 0 }, { 1, 0, "a", "\"a\"", "a" },
   { 0, 0, 0, "0", 0 }, { 0, -1, 0, "-1", 0 }, { 0, -10, 0, "-10", 0 }, { 0, 1.5, 0, "1.5", 0 }, { 0, -1.5, 0, "-1.5", 0 },
   { 1, 0, "1", "\"1\"", 0 }, { 1, 0, "", "\"\"", 0 }, { 0, 100000, 0, "100000", 0 }, { 1, 0, "1.5", "'1.5'", 0 }, { 1, 0, "-1", "'-1'", 0 },
   { 0, -10, 0, "-10.0", 0 }, { 0, 0, 0, "-0.0", 0 } };
#define NK 17
static int same(const key_t_* a, const key_t_* b) { return a->isstr == b->isstr && (a->isstr ? !strcmp(a->s, b->s) : a->n == b->n); }
static void keyrepr(mcs_t* o, int isstr, double n, const char* s) { if(n == 0) n = 0; if(isstr) mcs_add(o, "'%s'", s); else mcs_add(o, "%g", n); }
/* entries reported by the script, sorted when the group ends */
static char* ent[256]; static int nent;
static int cmps(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static void addent(mcs_t s) { if(nent < 256) ent[nent++] = s.s; }
static void flush(mcs_t* o) { qsort(ent, nent, sizeof *ent, cmps); mcs_add(o, "["); for(int i = 0; i < nent; ++i) { mcs_add(o, "%s ", ent[i]); free(ent[i]); } mcs_add(o, "]"); nent = 0; }
static buzzobj_t arg(buzzvm_t vm, int i) { return buzzdarray_get(vm->lsyms->syms, i, buzzobj_t); }
static int host_e(buzzvm_t vm) {
   buzzobj_t k = arg(vm, 1); mcs_t s = {0};
   keyrepr(&s, k->o.type == BUZZTYPE_STRING, k->o.type == BUZZTYPE_INT ? k->i.value : k->o.type == BUZZTYPE_FLOAT ? k->f.value : 0, k->o.type == BUZZTYPE_STRING ? k->s.value.str : "");
   mcs_add(&s, "="); bz_repr(&s, arg(vm, 2), 3); addent(s);
   return buzzvm_ret0(vm);
}
static int host_f(buzzvm_t vm) { flush(&bz_trace); return buzzvm_ret0(vm); }
static const char* CHK =
   "function dump(x) { t(size(x))\nforeach(x, function(k,v) { e(k,v) })\nf() }\n"
   "function chk(x) {\ndump(x)\n"
   "dump(map(x, function(k,v) { if(v % 2 == 0) return v + 1000\n return nil }))\n"
   "dump(filter(x, function(k,v) { if(v % 3 == 0) return 1\n if(v % 3 == 1) return nil\n return 0 }))\n"
   "dump(filter(x, function(k,v) { return v + 0.5 }))\n"
   "t(size(map(x, function(k,v) { return k })), size(filter(x, function(k,v) { return k == nil })))\n"
   "t(reduce(x, function(k,v,a) { return v + a }, 7))\n"
   "t(reduce(x, function(k,v,a) { return nil }, 7))\n"
   "var c = clone(x)\nc[\"new\"] = 1\nc[1] = nil\nc[\"a\"] = 5\ndump(x)\nt(c == x, c.new, c[1], c.a)\n}\n";
typedef struct { const key_t_* k; int v; } me_t;
static void mdump(mcs_t* o, me_t* m, int n, int add, int filt) {
   int c = 0; mcs_t x = {0};
   for(int i = 0; i < n; ++i) {
      int keep = filt == 0 || (filt == 1 && m[i].v % 2 == 0) || (filt == 2 && m[i].v % 3 == 0);
      if(!keep) continue;
      ++c; mcs_t s = {0}; keyrepr(&s, m[i].k->isstr, m[i].k->n, m[i].k->s); mcs_add(&s, "=%d", m[i].v + add); addent(s);
   }
   mcs_add(o, "%d;", c); flush(o);
   (void)x;
}
static void history(const int* ops, int d, int nk, int style, int vbase) {
   static mcs_t s = {0}, e = {0}; mcs_clear(&s); mcs_clear(&e);
   me_t m[32]; int n = 0;
   mcs_add(&s, "%sx = {", CHK);
   int first = 0;
   if(style == 2) {   /* leading stores in the table literal */
      while(first < d && ops[first] % 2 == 0) { const key_t_* k = &K[ops[first] / 2 % nk]; if(k->dot) mcs_add(&s, "%s.%s = %d", first ? ", " : " ", k->dot, vbase + first); else break; ++first; }
   }
   mcs_add(&s, " }\n");
   for(int i = 0; i < d; ++i) {
      const key_t_* k = &K[ops[i] / 2 % nk]; int del = ops[i] % 2, v = vbase + i;
      char rhs[16]; if(del) strcpy(rhs, "nil"); else sprintf(rhs, "%d", v);
      if(i >= first) {
         if(style == 1) mcs_add(&s, "kk = %s\nx[kk] = %s\n", k->lit, rhs);
         else if(k->dot && i % 2) mcs_add(&s, "x.%s = %s\n", k->dot, rhs);
         else mcs_add(&s, "x[%s] = %s\n", k->lit, rhs);
      }
      int j = 0; while(j < n && !same(m[j].k, k)) ++j;
      if(del) { if(j < n) m[j] = m[--n]; } else { m[j].k = k; m[j].v = v; if(j == n) ++n; }
   }
   for(int i = 0; i < nk; ++i) {
      mcs_add(&s, "t(x[%s])\n", K[i].lit);
      int j = 0; while(j < n && !same(m[j].k, &K[i])) ++j;
      if(j < n) mcs_add(&e, "%d;", m[j].v); else mcs_add(&e, "nil;");
   }
   mcs_add(&s, "chk(x)\n");
   mdump(&e, m, n, 0, 0); mdump(&e, m, n, 1000, 1); mdump(&e, m, n, 0, 2); mdump(&e, m, n, 0, 0);
   mcs_add(&e, "%d 0;", n);
   int sum = 7; for(int i = 0; i < n; ++i) sum += m[i].v;
   mcs_add(&e, "%d;", sum); mcs_add(&e, n ? "nil;" : "7;");
   mdump(&e, m, n, 0, 0); mcs_add(&e, "0 1 nil 5;");
   mc_desc("%s", s.s + strlen(CHK));
   bz_prog_t p; memset(&p, 0, sizeof p);
   if(bz_compile(s.s, &p)) mc_fail("compile", "rejected");
   else {
      mcs_clear(&bz_trace); buzzvm_t vm = bz_vm(1, &p); bz_reg(vm, "e", host_e); bz_reg(vm, "f", host_f);
      bz_exec(vm, 100000);
      if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "%s: %s", bz_statename(vm), vm->errormsg ? vm->errormsg : "");
      else if(strcmp(bz_trace.s, e.s)) mc_fail("history", "observed %s\nexpected %s", bz_trace.s, e.s);
      else mc_sample("%s => %s", s.s + strlen(CHK), e.s);
      buzzvm_destroy(&vm);
   }
   bz_prog_free(&p); mc_states(1); mc_traces(1); mc_trans(d);
}
static void histories(int d, int nk, int style, int vbase) {
   int ops[8]; uint64_t tot = 1; for(int i = 0; i < d; ++i) tot *= 2 * nk;
   for(uint64_t c = 0; c < tot; ++c) { if(!mc_next()) continue; uint64_t x = c; for(int i = 0; i < d; ++i) { ops[i] = x % (2 * nk); x /= 2 * nk; } history(ops, d, nk, style, vbase); }
}
/* ---------- sharing: graphs of tables ---------- */
#define MAXN 64
typedef struct { int kind, v; } gv_t;   /* 0 nil, 1 int, 2 table v */
static gv_t node[MAXN][2]; static int nn; static int var[3];
static int clonepath[MAXN], cloneto[MAXN], npath;
static int mclone(int x) {
   for(int i = 0; i < npath; ++i) if(clonepath[i] == x) return cloneto[i];
   if(nn >= MAXN) return -1;
   int y = nn++; node[y][0].kind = node[y][1].kind = 0;
   clonepath[npath] = x; cloneto[npath++] = y;
   for(int f = 0; f < 2; ++f) { node[y][f] = node[x][f]; if(node[x][f].kind == 2) { int z = mclone(node[x][f].v); if(z < 0) return -1; node[y][f].v = z; } }
   --npath; return y;
}
static void mgraph(mcs_t* o, int x, int* seen, int* ns) {
   for(int i = 0; i < *ns; ++i) if(seen[i] == x) { mcs_add(o, "#%d", i); return; }
   seen[(*ns)++] = x; mcs_add(o, "{");
   for(int f = 0; f < 2; ++f) { gv_t v = node[x][f]; if(!v.kind) mcs_add(o, "nil"); else if(v.kind == 1) mcs_add(o, "%d", v.v); else mgraph(o, v.v, seen, ns); mcs_add(o, ","); }
   mcs_add(o, "}");
}
static buzzobj_t field(buzzvm_t vm, buzzobj_t t, const char* n) {
   buzzvm_push(vm, t); buzzvm_pushs(vm, buzzvm_string_register(vm, n, 1)); buzzvm_tget(vm);
   buzzobj_t o = buzzvm_stack_at(vm, 1); buzzvm_pop(vm); return o;
}
static void rgraph(mcs_t* o, buzzvm_t vm, buzzobj_t x, void** seen, int* ns) {
   for(int i = 0; i < *ns; ++i) if(seen[i] == x->t.value) { mcs_add(o, "#%d", i); return; }
   if(*ns >= MAXN * 2) return;
   seen[(*ns)++] = x->t.value; mcs_add(o, "{");
   for(int f = 0; f < 2; ++f) { buzzobj_t v = field(vm, x, f ? "y" : "x"); if(v->o.type == BUZZTYPE_TABLE) rgraph(o, vm, v, seen, ns); else bz_repr(o, v, 1); mcs_add(o, ","); }
   mcs_add(o, "}");
}
static void sharing(int nv, int d) {
   static const char* V[] = { "A", "B", "C" }; static const char* F[] = { "x", "y" };
   struct op { int k, a, f, b; } ops[128]; int no = 0;
   for(int a = 0; a < nv; ++a) {
      for(int f = 0; f < 2; ++f) {
         ops[no++] = (struct op){ 0, a, f, 0 }; ops[no++] = (struct op){ 4, a, f, 0 }; ops[no++] = (struct op){ 5, a, f, 1 - f };
         for(int b = 0; b < nv; ++b) ops[no++] = (struct op){ 1, a, f, b };
      }
      for(int b = 0; b < nv; ++b) { if(b != a) ops[no++] = (struct op){ 2, a, 0, b }; ops[no++] = (struct op){ 3, a, 0, b }; }
      ops[no++] = (struct op){ 6, a, 0, 0 };
   }
   uint64_t tot = 1; for(int i = 0; i < d; ++i) tot *= no;
   for(uint64_t c = 0; c < tot; ++c) {
      if(!mc_next()) continue;
      static mcs_t s = {0}, e = {0}; mcs_clear(&s); mcs_clear(&e);
      mcs_add(&s, "A = {}\nB = {}\nC = {}\n");
      nn = 0; for(int i = 0; i < 3; ++i) { var[i] = nn; node[nn][0].kind = node[nn][1].kind = 0; ++nn; }
      int ok = 1; uint64_t x = c;
      for(int i = 0; i < d && ok; ++i) {
         struct op* o = &ops[x % no]; x /= no; int k = i + 1;
         switch(o->k) {
            case 0: mcs_add(&s, "%s.%s = %d\n", V[o->a], F[o->f], k); node[var[o->a]][o->f] = (gv_t){ 1, k }; break;
            case 1: mcs_add(&s, "%s.%s = %s\n", V[o->a], F[o->f], V[o->b]); node[var[o->a]][o->f] = (gv_t){ 2, var[o->b] }; break;
            case 2: mcs_add(&s, "%s = %s\n", V[o->a], V[o->b]); var[o->a] = var[o->b]; break;
            case 3: mcs_add(&s, "%s = clone(%s)\n", V[o->a], V[o->b]); npath = 0; var[o->a] = mclone(var[o->b]); if(var[o->a] < 0) ok = 0; break;
            case 4: mcs_add(&s, "%s.%s = nil\n", V[o->a], F[o->f]); node[var[o->a]][o->f].kind = 0; break;
            case 5: { gv_t g = node[var[o->a]][o->f]; if(g.kind != 2) { ok = 0; break; } mcs_add(&s, "%s.%s.%s = %d\n", V[o->a], F[o->f], F[o->b], k); node[g.v][o->b] = (gv_t){ 1, k }; break; }
            case 6: mcs_add(&s, "%s = {}\n", V[o->a]); var[o->a] = nn; node[nn][0].kind = node[nn][1].kind = 0; ++nn; break;
         }
      }
      if(!ok) continue;
      int seen[MAXN * 2], ns = 0; for(int i = 0; i < nv; ++i) { mgraph(&e, var[i], seen, &ns); mcs_add(&e, " "); }
      mc_desc("%s", s.s);
      bz_prog_t p; buzzvm_t vm = bz_script(s.s, &p, 1);
      if(!vm) mc_fail("compile", "rejected");
      else if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "%s: %s", bz_statename(vm), vm->errormsg ? vm->errormsg : "");
      else {
         static mcs_t r = {0}; mcs_clear(&r); void* rs[MAXN * 2]; int rn = 0;
         vm->state = BUZZVM_STATE_READY;
         for(int i = 0; i < nv; ++i) { rgraph(&r, vm, bz_global(vm, V[i]), rs, &rn); mcs_add(&r, " "); }
         if(strcmp(r.s, e.s)) mc_fail("sharing", "observed %s expected %s", r.s, e.s);
         else mc_sample("%s => %s", s.s, e.s);
      }
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mc_states(1); mc_traces(1); mc_trans(d);
   }
}
/* ---------- modification during iteration ---------- */
static void mutation(void) {
   /* table contents: every subset of colliding and other keys; the callback acts when it sees one key */
   static const char* KK[] = { "1", "11", "21", "2", "\"a\"" }; static const char* KR[] = { "1", "11", "21", "2", "'a'" };
   static const char* FORM[] = { "foreach(x, function(k,v) { ACT e(k,v) })", "r = map(x, function(k,v) { ACT e(k,v)\n return v + 1 })", "r = filter(x, function(k,v) { ACT e(k,v)\n return 1 })", "t(reduce(x, function(k,v,a) { ACT e(k,v)\n return a + v }, 0))" };
   for(int set = 1; set < 32; ++set) for(int form = 0; form < 4; ++form) for(int trig = 0; trig < 6; ++trig) for(int act = 0; act < 12; ++act) {
      if(trig < 5 && !(set >> trig & 1)) continue;
      if(!mc_next()) continue;
      static mcs_t s = {0}, e = {0}; mcs_clear(&s); mcs_clear(&e);
      int val[5], has[5], val2[5], has2[5]; for(int i = 0; i < 5; ++i) { has[i] = has2[i] = set >> i & 1; val[i] = val2[i] = 10 * (i + 1); }
      mcs_add(&s, "x = {}\n"); for(int i = 0; i < 5; ++i) if(has[i]) mcs_add(&s, "x[%s] = %d\n", KK[i], val[i]);
      char a[256];
      const char* tr = trig < 5 ? KK[trig] : "k";   /* trig 5: on every entry */
      int has99 = 0;
      if(act == 10) snprintf(a, sizeof a, "x[k] = nil\n");
      else if(act == 11) snprintf(a, sizeof a, "x[k] = v + 500\n");
      else if(act < 5) snprintf(a, sizeof a, "if(k == %s) x[%s] = nil\n", tr, KK[act]);
      else snprintf(a, sizeof a, "if(k == %s) x[%s] = 900\n", tr, KK[act - 5]);
      for(int i = 0; i < 5; ++i) {
         if(act == 10) has2[i] = 0;
         else if(act == 11) val2[i] += 500;
         else if(act < 5) { if(i == act) has2[i] = 0; }
         else if(i == act - 5) { has2[i] = 1; val2[i] = 900; }
      }
      (void)has99;
      const char* f = FORM[form]; const char* q = strstr(f, "ACT");
      mcs_add(&s, "%.*s%s%s\nf()\nt(size(x))\nforeach(x, function(k,v) { e(k,v) })\nf()\n", (int)(q - f), f, a, q + 3);
      int sum = 0, cnt = 0;
      for(int i = 0; i < 5; ++i) if(has[i]) { mcs_t z = {0}; mcs_add(&z, "%s=%d", KR[i], val[i]); addent(z); sum += val[i]; }
      if(form == 3) { mcs_t vis = {0}; flush(&vis); mcs_add(&e, "%d;%s", sum, vis.s); mcs_free(&vis); } else flush(&e);
      for(int i = 0; i < 5; ++i) if(has2[i]) { mcs_t z = {0}; mcs_add(&z, "%s=%d", KR[i], val2[i]); addent(z); ++cnt; }
      mcs_add(&e, "%d;", cnt); flush(&e);
      if(form == 1 || form == 2) {
         mcs_add(&s, "foreach(r, function(k,v) { e(k,v) })\nf()\n");
         for(int i = 0; i < 5; ++i) if(has[i]) { mcs_t z = {0}; mcs_add(&z, "%s=%d", KR[i], val[i] + (form == 1)); addent(z); }
         flush(&e);
      }
      mc_desc("%s", s.s);
      bz_prog_t p; memset(&p, 0, sizeof p);
      if(bz_compile(s.s, &p)) mc_fail("compile", "rejected");
      else {
         mcs_clear(&bz_trace); buzzvm_t vm = bz_vm(1, &p); bz_reg(vm, "e", host_e); bz_reg(vm, "f", host_f);
         bz_exec(vm, 100000);
         if(vm->state != BUZZVM_STATE_DONE) mc_fail("state", "%s: %s", bz_statename(vm), vm->errormsg ? vm->errormsg : "");
         else if(strcmp(bz_trace.s, e.s)) mc_fail("mutation", "observed %s\nexpected %s", bz_trace.s, e.s);
         buzzvm_destroy(&vm);
      }
      bz_prog_free(&p); mc_states(1); mc_traces(1); mc_trans(3);
   }
}
/* values of every type are stored and read back unchanged; large tables */
static void values(void) {
   static const char* V[] = { "nil", "0", "-5", "1.5", "-0.25", "\"s\"", "\"\"", "{}", "{ .q = 1 }", "function(a) { return a }", "2147483647" };
   static const char* R[] = { "nil", "0", "-5", "f1.5", "f-0.25", "'s'", "''", "{}", "{'q'=1}", "fn", "2147483647" };
   for(int k = 0; k < NK; ++k) for(int i = 0; i < 11; ++i) for(int j = 0; j < 11; ++j) if(mc_next()) {
      mcs_t s = {0}, e = {0};
      mcs_add(&s, "x = {}\nx[%s] = %s\nt(x[%s], size(x))\nx[%s] = %s\nt(x[%s], size(x))\n", K[k].lit, V[i], K[k].lit, K[k].lit, V[j], K[k].lit);
      mcs_add(&e, "%s %d;%s %d;", R[i], i != 0, R[j], j != 0);
      mc_desc("%s", s.s);
      bz_prog_t p; buzzvm_t vm = bz_script(s.s, &p, 1);
      if(!vm || vm->state != BUZZVM_STATE_DONE) mc_fail("state", "%s", vm && vm->errormsg ? vm->errormsg : "?");
      else if(strcmp(bz_trace.s, e.s)) mc_fail("values", "observed %s expected %s", bz_trace.s, e.s);
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mc_states(1); mc_traces(1); mc_trans(2); mcs_free(&s); mcs_free(&e);
   }
   for(int n = 0; n <= 300; n += 10) for(int st = 1; st <= 11; st += 5) for(int del = 0; del < 3; ++del) if(mc_next()) {
      mcs_t s = {0}, e = {0};
      mcs_add(&s, "x = {}\nfor(i = 0, i < %d, i = i + 1) { x[i * %d - 50] = i }\n", n, st);
      if(del) mcs_add(&s, "for(i = 0, i < %d, i = i + %d) { x[i * %d - 50] = nil }\n", n, del, st);
      int cnt = 0; long sum = 0; for(int i = 0; i < n; ++i) if(!del || i % del) { ++cnt; sum += i; }
      mcs_add(&s, "t(size(x), reduce(x, function(k,v,a) { if(k != v * %d - 50) return -1000000\n return a + v }, 0))\n", st);
      mcs_add(&e, "%d %ld;", cnt, sum);
      mc_desc("%s", s.s);
      bz_prog_t p; buzzvm_t vm = bz_script(s.s, &p, 1);
      if(!vm || vm->state != BUZZVM_STATE_DONE) mc_fail("state", "%s", vm && vm->errormsg ? vm->errormsg : "?");
      else if(strcmp(bz_trace.s, e.s)) mc_fail("large", "observed %s expected %s", bz_trace.s, e.s);
      if(vm) buzzvm_destroy(&vm);
      bz_prog_free(&p); mc_states(1); mc_traces(1); mc_trans(n); mcs_free(&s); mcs_free(&e);
   }
}
void mc_run(void) {
   if(MC_ASAN) {
      values(); mutation();
      for(int st = 0; st < 3; ++st) { histories(1, NK, st, 3); histories(2, NK, st, 2); }
      histories(mc_thorough ? 5 : 3, 5, 0, 4); sharing(2, mc_thorough ? 4 : 3);
      return;
   }
   histories(3, NK, 0, 1);
   histories(mc_thorough ? 6 : 4, 5, 0, 4);
   if(mc_thorough) { histories(4, NK, 1, 5); histories(5, 5, 2, 3); }
   sharing(3, mc_thorough ? 4 : 3); sharing(2, mc_thorough ? 5 : 4);
}
