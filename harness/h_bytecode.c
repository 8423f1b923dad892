/* LDFLAGS: -Wl,--wrap=buzzheap_gc */
/* P07: every instruction sequence up to a bound, in several contexts, against a reference interpreter of the image's bytes;
 * every short image, every truncation and every single-byte change of compiled programs under a memory checker. */
#include "bz.h"
#include <math.h>
#include <setjmp.h>
#include <unistd.h>
#include <limits.h>
const char* mc_name = "bytecode";
/* steps are counted to leave endless programs */
static jmp_buf out; static long budget; void __real_buzzheap_gc(buzzvm_t vm); void __wrap_buzzheap_gc(buzzvm_t vm) { if(budget > 0 && --budget == 0) longjmp(out, 1); __real_buzzheap_gc(vm); }
/* ---------- reference interpreter ---------- */
enum { VNIL, VINT, VFLT, VSTR, VTAB, VFUN };
typedef struct tab_s tab_t; typedef struct fun_s fun_t;
typedef struct { int t; int32_t i; float f; const char* s; tab_t* tb; fun_t* fn; } val_t;
struct tab_s { int n; val_t k[16], v[16]; }; struct fun_s { int nat; int32_t ref; int n; val_t a[24]; };
static tab_t TB[64]; static int nTB; static fun_t FU[128]; static int nFU;
typedef struct { val_t s[160]; int n; } stk_t; typedef struct { val_t l[160]; int n; } loc_t;
static struct { stk_t st[24]; int ns; loc_t lo[24]; int32_t pc; int state, err; val_t g[2]; int undef; } M;
static const char* SN[2] = { "x", "y" };
static val_t I(int32_t i) { val_t v = { VINT, i }; return v; } static val_t F(float f) { val_t v = { VFLT, 0, f }; return v; } static val_t N(void) { val_t v = { VNIL }; return v; }
static int truth(val_t v) { return !(v.t == VNIL || (v.t == VINT && v.i == 0)); }
static int order(val_t a, val_t b) {
   if(a.t == VNIL || b.t == VNIL) return a.t == b.t ? 0 : 2;
   if(a.t <= VFLT && b.t <= VFLT) { if(a.t == VINT && b.t == VINT) return a.i < b.i ? -1 : a.i > b.i; float x = a.t == VINT ? (float)a.i : a.f, y = b.t == VINT ? (float)b.i : b.f; return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2; }
   if(a.t <= VSTR && b.t <= VSTR) { char x[64], y[64]; const char *p = a.s, *q = b.s; if(a.t == VINT) { sprintf(x, "%d", a.i); p = x; } else if(a.t == VFLT) { sprintf(x, "%f", a.f); p = x; } if(b.t == VINT) { sprintf(y, "%d", b.i); q = y; } else if(b.t == VFLT) { sprintf(y, "%f", b.f); q = y; } int c = strcmp(p, q); return c < 0 ? -1 : c > 0; }
   return a.t == VTAB && b.t == VTAB && a.tb == b.tb ? 0 : 2;
}
static void merr(int e) { M.state = BUZZVM_STATE_ERROR; M.err = e; }
#define S (M.st[M.ns - 1])
#define LO (M.lo[M.ns - 1])
static void push(val_t v) { if(S.n >= 150) { M.undef = 1; return; } S.s[S.n++] = v; }
static void binop(int op, val_t b, val_t a) {
   int num = (a.t == VINT || a.t == VFLT) && (b.t == VINT || b.t == VFLT), ints = a.t == VINT && b.t == VINT; float x = a.t == VINT ? (float)a.i : a.f, y = b.t == VINT ? (float)b.i : b.f;
   if(op >= BUZZVM_INSTR_EQ && op <= BUZZVM_INSTR_LTE) { int c = order(a, b); if((a.t >= VTAB || b.t >= VTAB) && op > BUZZVM_INSTR_NEQ) { M.undef = 1; return; } if(a.t == VFUN && b.t == VFUN) { M.undef = 1; return; }
      int r; switch(op) { case BUZZVM_INSTR_EQ: r = c == 0; break; case BUZZVM_INSTR_NEQ: r = c != 0; break; case BUZZVM_INSTR_GT: r = c == 1; break; case BUZZVM_INSTR_GTE: r = c == 0 || c == 1; break; case BUZZVM_INSTR_LT: r = c == -1; break; default: r = c == 0 || c == -1; } push(I(r)); return; }
   switch(op) {
      case BUZZVM_INSTR_LAND: push(I(truth(a) && truth(b))); return; case BUZZVM_INSTR_LOR: push(I(truth(a) || truth(b))); return;
      case BUZZVM_INSTR_BAND: case BUZZVM_INSTR_BOR: case BUZZVM_INSTR_LSHIFT: case BUZZVM_INSTR_RSHIFT: if(!ints) { merr(BUZZVM_ERROR_TYPE); return; }
         if(op == BUZZVM_INSTR_BAND) push(I(a.i & b.i)); else if(op == BUZZVM_INSTR_BOR) push(I(a.i | b.i)); else { if(b.i < 0 || b.i > 30 || a.i < 0) { M.undef = 1; return; } int64_t z = op == BUZZVM_INSTR_LSHIFT ? (int64_t)a.i << b.i : a.i >> b.i; if(z > INT32_MAX) { M.undef = 1; return; } push(I(z)); } return; }
   if(!num) { merr(BUZZVM_ERROR_TYPE); return; }
   if(op == BUZZVM_INSTR_POW) { push(F(powf(x, y))); return; }
   if(op == BUZZVM_INSTR_MOD) { if(ints) { if(b.i == 0) { merr(BUZZVM_ERROR_TYPE); return; } if(b.i < 0) { M.undef = 1; return; } int m = a.i % b.i; push(I(m < 0 ? m + b.i : m)); } else { if(!(y > 0)) { M.undef = 1; return; } float m = fmodf(x, y); if(m < 0) m += y; push(F(m)); } return; }
   if(ints) { int64_t z; if(op == BUZZVM_INSTR_DIV) { if(b.i == 0) { merr(BUZZVM_ERROR_TYPE); return; } z = (int64_t)a.i / b.i; } else z = op == BUZZVM_INSTR_ADD ? (int64_t)a.i + b.i : op == BUZZVM_INSTR_SUB ? (int64_t)a.i - b.i : (int64_t)a.i * b.i; if(z > INT32_MAX || z < INT32_MIN) { M.undef = 1; return; } push(I(z)); }
   else push(F(op == BUZZVM_INSTR_ADD ? x + y : op == BUZZVM_INSTR_SUB ? x - y : op == BUZZVM_INSTR_MUL ? x * y : x / y));
}
static int keyeq(val_t a, val_t b) { if(a.t == VSTR || b.t == VSTR) return a.t == b.t && !strcmp(a.s, b.s); return order(a, b) == 0; }
static int tabkey(val_t k) { return k.t == VINT || k.t == VFLT || k.t == VSTR; }
static fun_t* newfun(void) { if(nFU == 128) { M.undef = 1; return &FU[0]; } memset(&FU[nFU], 0, sizeof(fun_t)); return &FU[nFU++]; }
#define NEED(k) if(S.n < (k)) { merr(BUZZVM_ERROR_STACK); return; }
static void mstep(const uint8_t* b, int size) {
   if(M.pc < 0 || M.pc >= size) { merr(BUZZVM_ERROR_PC); return; }
   int op = b[M.pc]; int32_t next = M.pc + 1, arg = 0;
   if(op >= BUZZVM_INSTR_COUNT) { merr(BUZZVM_ERROR_INSTR); return; }
   if(op == BUZZVM_INSTR_DONE) { M.state = BUZZVM_STATE_DONE; return; }
   if(op >= BUZZVM_INSTR_PUSHF) { if(M.pc + 5 >= size) { merr(BUZZVM_ERROR_PC); return; } memcpy(&arg, b + M.pc + 1, 4); next = M.pc + 5; }
   if(op != BUZZVM_INSTR_RET0 && op != BUZZVM_INSTR_RET1 && next >= size) { M.undef = 1; return; }
   switch(op) {
      case BUZZVM_INSTR_NOP: break;
      case BUZZVM_INSTR_PUSHNIL: push(N()); break;
      case BUZZVM_INSTR_DUP: NEED(1) push(S.s[S.n - 1]); break;
      case BUZZVM_INSTR_POP: NEED(1) S.n--; break;
      case BUZZVM_INSTR_RET0: case BUZZVM_INSTR_RET1: { if(M.ns < 2) { merr(BUZZVM_ERROR_STACK); return; } val_t r = N(); if(op == BUZZVM_INSTR_RET1) { NEED(1) r = S.s[S.n - 1]; } M.ns--;
         /* the return address is on top of the caller's stack */ M.pc = S.s[--S.n].i; push(r); if(M.pc < 0 || M.pc >= size) merr(BUZZVM_ERROR_PC); return; }
      case BUZZVM_INSTR_UNM: { NEED(1) val_t a = S.s[--S.n]; if(a.t == VINT) { if(a.i == INT32_MIN) { M.undef = 1; return; } push(I(-a.i)); } else if(a.t == VFLT) push(F(-a.f)); else { merr(BUZZVM_ERROR_TYPE); return; } break; }
      case BUZZVM_INSTR_LNOT: { NEED(1) val_t a = S.s[--S.n]; push(I(!truth(a))); break; }
      case BUZZVM_INSTR_BNOT: { NEED(1) val_t a = S.s[--S.n]; if(a.t != VINT) { merr(BUZZVM_ERROR_TYPE); return; } push(I(~a.i)); break; }
      case BUZZVM_INSTR_GLOAD: { NEED(1) val_t a = S.s[S.n - 1]; if(a.t != VSTR) { merr(BUZZVM_ERROR_TYPE); return; } S.n--; push(M.g[a.s == SN[1]]); break; }
      case BUZZVM_INSTR_GSTORE: { NEED(2) val_t v = S.s[S.n - 1], a = S.s[S.n - 2]; if(a.t != VSTR) { merr(BUZZVM_ERROR_TYPE); return; } S.n -= 2; M.g[a.s == SN[1]] = v; break; }
      case BUZZVM_INSTR_PUSHT: { if(nTB == 64) { M.undef = 1; return; } val_t v = { VTAB }; v.tb = &TB[nTB++]; v.tb->n = 0; push(v); break; }
      case BUZZVM_INSTR_TPUT: { NEED(3) val_t v = S.s[S.n - 1], k = S.s[S.n - 2], t = S.s[S.n - 3]; if(t.t != VTAB || !tabkey(k)) { merr(BUZZVM_ERROR_TYPE); return; } S.n -= 3; int i = 0; while(i < t.tb->n && !keyeq(t.tb->k[i], k)) ++i;
         if(v.t == VNIL) { if(i < t.tb->n) { t.tb->n--; t.tb->k[i] = t.tb->k[t.tb->n]; t.tb->v[i] = t.tb->v[t.tb->n]; } break; }
         if(v.t == VFUN) { fun_t* f = newfun(); *f = *v.fn; if(f->n) f->a[0] = t; v.fn = f; } if(i == 16) { M.undef = 1; return; } if(i == t.tb->n) { t.tb->n++; t.tb->k[i] = k; } t.tb->v[i] = v; break; }
      case BUZZVM_INSTR_TGET: { NEED(2) val_t k = S.s[S.n - 1], t = S.s[S.n - 2]; if(t.t != VTAB || !tabkey(k)) { merr(BUZZVM_ERROR_TYPE); return; } S.n -= 2; int i = 0; while(i < t.tb->n && !keyeq(t.tb->k[i], k)) ++i; push(i < t.tb->n ? t.tb->v[i] : N()); break; }
      case BUZZVM_INSTR_CALLC: case BUZZVM_INSTR_CALLS: { NEED(1) val_t a = S.s[S.n - 1]; if(a.t != VINT) { merr(BUZZVM_ERROR_TYPE); return; } if(a.i < 0 || a.i > S.n - 3) { merr(BUZZVM_ERROR_STACK); return; } val_t c = S.s[S.n - 2 - a.i]; if(c.t != VFUN) { merr(BUZZVM_ERROR_TYPE); return; }
         if(!c.fn->nat) { if(c.fn->ref > 5000 || c.fn->ref < 0) { merr(BUZZVM_ERROR_FLIST); return; } M.undef = 1; return; } if(op == BUZZVM_INSTR_CALLS) M.undef |= 2;
         if(M.ns == 24) { M.undef = 1; return; } loc_t* l = &M.lo[M.ns]; l->n = 0; for(int i = 0; i < c.fn->n; ++i) l->l[l->n++] = c.fn->a[i]; for(int i = a.i; i > 0; --i) { if(l->n >= 150) { M.undef = 1; return; } l->l[l->n++] = S.s[S.n - 1 - i]; }
         S.n -= a.i + 3; push(I(next)); M.ns++; S.n = 0; M.pc = c.fn->ref; if(M.pc < 0 || M.pc >= size) merr(BUZZVM_ERROR_PC); return; }
      case BUZZVM_INSTR_PUSHF: { float f; memcpy(&f, &arg, 4); push(F(f)); break; }
      case BUZZVM_INSTR_PUSHI: push(I(arg)); break;
      case BUZZVM_INSTR_PUSHS: if((uint16_t)arg >= 2) { if((uint16_t)arg < 50000) { M.undef = 1; return; } merr(BUZZVM_ERROR_STRING); return; } else { val_t v = { VSTR }; v.s = SN[(uint16_t)arg]; push(v); } break;
      case BUZZVM_INSTR_PUSHCN: case BUZZVM_INSTR_PUSHCC: { fun_t* f = newfun(); f->nat = op == BUZZVM_INSTR_PUSHCN; f->ref = arg; f->n = 1; f->a[0] = N(); val_t v = { VFUN }; v.fn = f; push(v); break; }
      case BUZZVM_INSTR_PUSHL: { fun_t* f = newfun(); f->nat = 1; f->ref = arg; if(LO.n > 24) { M.undef = 1; return; } f->n = LO.n; memcpy(f->a, LO.l, LO.n * sizeof(val_t)); val_t v = { VFUN }; v.fn = f; push(v); break; }
      case BUZZVM_INSTR_LLOAD: if((uint32_t)arg >= (uint32_t)LO.n) { merr(BUZZVM_ERROR_LNUM); return; } push(LO.l[arg]); break;
      case BUZZVM_INSTR_LSTORE: { NEED(1) if((uint32_t)arg > UINT16_MAX) { merr(BUZZVM_ERROR_LNUM); return; } val_t v = S.s[--S.n]; if(arg >= 150) { M.undef = 1; return; } while(LO.n < arg) LO.l[LO.n++] = N(); if(arg == LO.n) LO.n++; LO.l[arg] = v; break; }
      case BUZZVM_INSTR_LREMOVE: if((uint32_t)arg > (uint32_t)(LO.n - 1)) { merr(BUZZVM_ERROR_LNUM); return; } LO.n -= arg; break;
      case BUZZVM_INSTR_JUMP: M.pc = arg; if(M.pc < 0 || M.pc >= size) merr(BUZZVM_ERROR_PC); return;
      case BUZZVM_INSTR_JUMPZ: case BUZZVM_INSTR_JUMPNZ: { NEED(1) int z = !truth(S.s[S.n - 1]); if(z == (op == BUZZVM_INSTR_JUMPZ)) { if(arg < 0 || arg >= size) { merr(BUZZVM_ERROR_PC); return; } M.pc = arg; } else M.pc = next; S.n--; return; }
      default: { NEED(2) val_t y = S.s[S.n - 1], x = S.s[S.n - 2]; S.n -= 2; binop(op, y, x); if(M.state != BUZZVM_STATE_READY || M.undef) return; }
   }
   M.pc = next;
}
static void rp(mcs_t* o, val_t v, int depth);
static int cmps(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static void rp(mcs_t* o, val_t v, int depth) {
   switch(v.t) { case VNIL: mcs_add(o, "nil"); break; case VINT: mcs_add(o, "%d", v.i); break; case VFLT: if(v.f != v.f) mcs_add(o, "fnan"); else mcs_add(o, "f%.9g", v.f); break; case VSTR: mcs_add(o, "'%s'", v.s); break; case VFUN: mcs_add(o, v.fn->nat ? "fn" : "cfn"); break;
      case VTAB: if(depth <= 0) { mcs_add(o, "{..}"); break; } { char* e[16]; int n = v.tb->n; for(int i = 0; i < n; ++i) { mcs_t s = {0}; rp(&s, v.tb->k[i], depth - 1); mcs_add(&s, "="); rp(&s, v.tb->v[i], depth - 1); e[i] = s.s; } qsort(e, n, sizeof *e, cmps); mcs_add(o, "{"); for(int i = 0; i < n; ++i) { mcs_add(o, "%s%s", i ? "," : "", e[i]); free(e[i]); } mcs_add(o, "}"); } }
}
/* ---------- comparison ---------- */
#define MAXSTEP 60
static mcs_t ga, ea;
static void compare(const uint8_t* img, uint32_t size, int strict) {
   uint8_t* x = malloc(size); memcpy(x, img, size); buzzvm_t vm = buzzvm_new(1); int st = buzzvm_set_bcode(vm, x, size); uint32_t start = 2 + 4 + 1;
   memset(&M, 0, sizeof M); nTB = nFU = 0; M.ns = 1; M.state = BUZZVM_STATE_READY; M.pc = start; LO.n = 1; LO.l[0] = N();
   if(st != BUZZVM_STATE_READY) { mc_fail("load", "refused with error %d %s", vm->error, vm->errormsg ? vm->errormsg : ""); buzzvm_destroy(&vm); free(x); return; }
   int k = 0; for(; k < MAXSTEP && vm->state == BUZZVM_STATE_READY; ++k) { mstep(img, size); if(M.undef & 1) break; buzzvm_step(vm); mc_trans(1);
      if((int)vm->state != M.state || (M.state == BUZZVM_STATE_ERROR && (int)vm->error != M.err)) { mc_fail("state", "after %d steps: state %s error %d (%s), expected %s error %d", k + 1, buzzvm_state_desc[vm->state], vm->error, vm->state == BUZZVM_STATE_ERROR ? vm->errormsg : "", buzzvm_state_desc[M.state], M.err); goto end; }
      if(M.state != BUZZVM_STATE_READY) break; if(vm->pc != M.pc) { mc_fail("pc", "after %d steps: at %d, expected %d", k + 1, vm->pc, M.pc); goto end; }
      if((int)buzzdarray_size(vm->stacks) != M.ns || (int)buzzdarray_size(vm->stack) != S.n || (int)buzzdarray_size(vm->lsyms->syms) != LO.n) { mc_fail("depth", "after %d steps: %d activations, %d values, %d locals, expected %d, %d, %d", k + 1, (int)buzzdarray_size(vm->stacks), (int)buzzdarray_size(vm->stack), (int)buzzdarray_size(vm->lsyms->syms), M.ns, S.n, LO.n); goto end; } }
   mc_states(k);
   if(M.undef & 1) { for(int j = 0; j < 40 && vm->state == BUZZVM_STATE_READY; ++j) buzzvm_step(vm); goto end; }
   if(M.state == BUZZVM_STATE_ERROR) { if(!vm->errormsg || !*vm->errormsg) mc_fail("message", "an error without message"); buzzvm_step(vm); if(vm->state != BUZZVM_STATE_ERROR) mc_fail("state", "the machine runs after an error"); goto end; }
   mcs_clear(&ga); mcs_clear(&ea);
   for(int a = 0; a < M.ns; ++a) { buzzdarray_t s = buzzdarray_get(vm->stacks, a, buzzdarray_t); int n = buzzdarray_size(s); mcs_add(&ga, "["); mcs_add(&ea, "["); for(int i = 0; i < n; ++i) { bz_repr(&ga, buzzdarray_get(s, i, buzzobj_t), 3); mcs_add(&ga, " "); } for(int i = 0; i < M.st[a].n; ++i) { rp(&ea, M.st[a].s[i], 3); mcs_add(&ea, " "); } mcs_add(&ga, "]"); mcs_add(&ea, "]"); }
   mcs_add(&ga, "("); mcs_add(&ea, "("); for(int i = 0; i < (int)buzzdarray_size(vm->lsyms->syms); ++i) { bz_repr(&ga, buzzdarray_get(vm->lsyms->syms, i, buzzobj_t), 3); mcs_add(&ga, " "); } for(int i = 0; i < LO.n; ++i) { rp(&ea, LO.l[i], 3); mcs_add(&ea, " "); } mcs_add(&ga, ")"); mcs_add(&ea, ")");
   for(int i = 0; i < 2; ++i) { buzzobj_t o = bz_global(vm, SN[i]); if(o) bz_repr(&ga, o, 3); else mcs_add(&ga, "nil"); rp(&ea, M.g[i], 3); mcs_add(&ga, ";"); mcs_add(&ea, ";"); }
   if(strcmp(ga.s, ea.s)) mc_fail("values", "%s, expected %s", ga.s, ea.s);
end: mc_traces(1); buzzvm_destroy(&vm); free(x); (void)strict;
}
/* ---------- programs ---------- */
typedef struct { uint8_t op; int32_t a; const char* n; } sym_t;
enum { A_F = 1000001, A_G, A_S, A_END, A_NEXT, A_SELF };
static uint8_t B[512]; static int nB;
static void e1(int op) { B[nB++] = op; } static void e5(int op, int32_t a) { B[nB++] = op; memcpy(B + nB, &a, 4); nB += 4; }
#define OP(x) BUZZVM_INSTR_##x
static const sym_t Y[] = { { OP(NOP), 0, "nop" }, { OP(DONE), 0, "done" }, { OP(PUSHNIL), 0, "pushnil" }, { OP(DUP), 0, "dup" }, { OP(POP), 0, "pop" }, { OP(RET0), 0, "ret0" }, { OP(RET1), 0, "ret1" }, { OP(ADD), 0, "add" }, { OP(SUB), 0, "sub" }, { OP(MUL), 0, "mul" }, { OP(DIV), 0, "div" }, { OP(MOD), 0, "mod" }, { OP(POW), 0, "pow" }, { OP(UNM), 0, "unm" },
   { OP(LAND), 0, "land" }, { OP(LOR), 0, "lor" }, { OP(LNOT), 0, "lnot" }, { OP(BAND), 0, "band" }, { OP(BOR), 0, "bor" }, { OP(BNOT), 0, "bnot" }, { OP(LSHIFT), 0, "lshift" }, { OP(RSHIFT), 0, "rshift" }, { OP(EQ), 0, "eq" }, { OP(NEQ), 0, "neq" }, { OP(GT), 0, "gt" }, { OP(GTE), 0, "gte" }, { OP(LT), 0, "lt" }, { OP(LTE), 0, "lte" },
   { OP(GLOAD), 0, "gload" }, { OP(GSTORE), 0, "gstore" }, { OP(PUSHT), 0, "pusht" }, { OP(TPUT), 0, "tput" }, { OP(TGET), 0, "tget" }, { OP(CALLC), 0, "callc" }, { OP(CALLS), 0, "calls" }, { OP(PUSHF), 0x3f000000, "pushf 0.5" }, { OP(PUSHI), 0, "pushi 0" }, { OP(PUSHI), 1, "pushi 1" }, { OP(PUSHI), 2, "pushi 2" }, { OP(PUSHI), -1, "pushi -1" }, { OP(PUSHI), INT_MAX, "pushi max" },
   { OP(PUSHS), 0, "pushs 0" }, { OP(PUSHS), 1, "pushs 1" }, { OP(PUSHS), 60000, "pushs 60000" }, { OP(PUSHCN), A_F, "pushcn F" }, { OP(PUSHCN), A_S, "pushcn start" }, { OP(PUSHCN), A_END, "pushcn end" }, { OP(PUSHCN), -1, "pushcn -1" }, { OP(PUSHCC), 0, "pushcc 0" }, { OP(PUSHCC), 9999, "pushcc 9999" }, { OP(PUSHCC), -1, "pushcc -1" }, { OP(PUSHL), A_F, "pushl F" }, { OP(PUSHL), A_G, "pushl G" },
   { OP(LLOAD), 0, "lload 0" }, { OP(LLOAD), 1, "lload 1" }, { OP(LLOAD), 3, "lload 3" }, { OP(LLOAD), -1, "lload -1" }, { OP(LSTORE), 0, "lstore 0" }, { OP(LSTORE), 1, "lstore 1" }, { OP(LSTORE), 4, "lstore 4" }, { OP(LSTORE), -1, "lstore -1" }, { OP(LSTORE), 70000, "lstore 70000" }, { OP(LREMOVE), 0, "lremove 0" }, { OP(LREMOVE), 1, "lremove 1" }, { OP(LREMOVE), 2, "lremove 2" }, { OP(LREMOVE), -1, "lremove -1" },
   { OP(JUMP), A_NEXT, "jump next" }, { OP(JUMP), A_SELF, "jump self" }, { OP(JUMP), A_S, "jump start" }, { OP(JUMP), A_END, "jump end" }, { OP(JUMP), -1, "jump -1" }, { OP(JUMP), A_G, "jump G" }, { OP(JUMPZ), A_NEXT, "jumpz next" }, { OP(JUMPZ), A_G, "jumpz G" }, { OP(JUMPZ), A_END, "jumpz end" }, { OP(JUMPNZ), A_NEXT, "jumpnz next" }, { OP(JUMPNZ), A_G, "jumpnz G" }, { OP(JUMPNZ), -1, "jumpnz -1" } };
#define NY ((int)(sizeof Y / sizeof *Y))
static const char* RED[] = { "dup", "pop", "ret1", "add", "eq", "gload", "gstore", "pusht", "tput", "tget", "callc", "pushi 0", "pushi 1", "pushs 0", "pushl F", "lload 1", "lstore 1", "jumpz next", "pushnil", "pushcn F" };
static int symn(const char* n) { for(int i = 0; i < NY; ++i) if(!strcmp(Y[i].n, n)) return i; abort(); }
static int ylen(const sym_t* y) { return y->op >= OP(PUSHF) ? 5 : 1; }
/* context 0: empty stack; 1: loaded stack; 2: inside a function with two arguments; 3: inside a function called by a function */
static void build(int ctx, const int* q, int n) {
   nB = 0; B[nB++] = 2; B[nB++] = 0; memcpy(B + nB, "x\0y", 4); nB += 4; e1(OP(NOP)); int body = 0; for(int i = 0; i < n; ++i) body += ylen(&Y[q[i]]);
   int pre = ctx == 0 ? 0 : ctx == 1 ? 1 + 5 + 5 + 1 + 5 + 5 : ctx == 2 ? 1 + 5 + 1 + 5 + 5 + 1 + 1 : 1 + 5 + 5 + 1 + 1 + 1 + 5 + 5 + 5 + 5 + 1 + 1; int s = nB + pre, fin = s + body, f = fin + 1, g = f + 1 + 5 + 1, endp = g + 1 + 1;
   if(ctx == 1) { e1(OP(PUSHNIL)); e5(OP(PUSHCN), f); e5(OP(PUSHS), 1); e1(OP(PUSHT)); e5(OP(PUSHI), 2); e5(OP(PUSHI), 1); }
   if(ctx == 2) { e1(OP(PUSHNIL)); e5(OP(PUSHCN), s); e1(OP(PUSHT)); e5(OP(PUSHI), 5); e5(OP(PUSHI), 2); e1(OP(CALLC)); e1(OP(DONE)); }
   if(ctx == 3) { int h = nB + 13; e1(OP(PUSHNIL)); e5(OP(PUSHCN), h); e5(OP(PUSHI), 0); e1(OP(CALLC)); e1(OP(DONE)); /* h: */ e1(OP(PUSHNIL)); e5(OP(PUSHL), s); e5(OP(PUSHF), 0x40200000); e5(OP(PUSHS), 0); e5(OP(PUSHI), 2); e1(OP(CALLC)); e1(OP(RET1)); }
   for(int i = 0; i < n; ++i) { const sym_t* y = &Y[q[i]]; int32_t a = y->a, len = ylen(y); a = a == A_F ? f : a == A_G ? g : a == A_S ? s : a == A_END ? endp : a == A_NEXT ? nB + len : a == A_SELF ? nB : a; if(len == 1) e1(y->op); else e5(y->op, a); }
   e1(ctx < 2 ? OP(DONE) : OP(RET0)); /* F: */ e1(OP(NOP)); e5(OP(LLOAD), 1); e1(OP(RET1)); /* G: */ e1(OP(RET0)); e1(OP(DONE));
   if(nB != endp) { fprintf(stderr, "layout %d %d\n", nB, endp); exit(9); }
}
static void seqs(int ctx, int n, const int* al, int na) {
   long tot = 1; for(int i = 0; i < n; ++i) tot *= na;
   for(long c = 0; c < tot; ++c) { if(!mc_next()) continue; int q[8]; long v = c; char d[256] = ""; for(int i = 0; i < n; ++i, v /= na) { q[i] = al[v % na]; strcat(d, Y[q[i]].n); strcat(d, "; "); } mc_desc("context %d: %s", ctx, d); build(ctx, q, n); compare(B, nB, 1); }
}
static void typed(void) {   /* every instruction on every three typed values */
   static const char* V[] = { "pushnil", "pushi 0", "pushi 2", "pushf 0.5", "pushs 0", "pusht", "pushcn F", "pushcc 9999", "pushl G" };
   for(int y = 0; y < NY; ++y) for(int c = 0; c < 9 * 9 * 9; ++c) { if(!mc_next()) continue; int q[5] = { symn(V[c % 9]), symn(V[c / 9 % 9]), symn(V[c / 81]), y }; mc_desc("%s; %s; %s; %s", Y[q[0]].n, Y[q[1]].n, Y[q[2]].n, Y[y].n); build(c & 1 ? 2 : 0, q, 4); compare(B, nB, 1); }
}
/* ---------- arbitrary images: memory safety ---------- */
static void safe(const uint8_t* img, uint32_t n, int steps) {
   uint8_t* x = malloc(n ? n : 1); memcpy(x, img, n); if(!n) { free(x); x = malloc(1); }
   volatile buzzvm_t vm = buzzvm_new(3); budget = steps; mc_traces(1); mc_trans(1);
   if(setjmp(out) == 0) { buzzvm_set_bcode(vm, x, n); if(vm->state == BUZZVM_STATE_READY) { bz_reg(vm, "t", bz_tracef); while(buzzvm_step(vm) == BUZZVM_STATE_READY); } budget = 0; if(vm->state == BUZZVM_STATE_ERROR && (!vm->errormsg || !*vm->errormsg || vm->error == BUZZVM_ERROR_NONE)) mc_fail("message", "an error without code or message"); }
   else { /* an endless program: left where it is */ if(vm->state != BUZZVM_STATE_READY) mc_fail("state", "stepping goes on in state %s", buzzvm_state_desc[vm->state]); }
   mcs_clear(&bz_trace); buzzvm_t v2 = vm; buzzvm_destroy(&v2); free(x);
}
static void bytes(int t) {
   for(int h = 0; h < 5; ++h) for(int a = -1; a < 256; ++a) { if(!MC_CASE("images of string count %d, first byte %d", h, a)) continue; static const uint16_t H[] = { 0, 1, 2, 256, 65535 };
      uint8_t b[8]; memcpy(b, &H[h], 2); if(a < 0) { for(int n = 0; n <= 2; ++n) safe(b, n, 500); continue; } b[2] = a; safe(b, 3, 500);
      for(int c = 0; c < 256; ++c) { if(!t && h && !(c < 3 || c > 250 || c == OP(PUSHS) || c == OP(RET0))) continue; b[3] = c; safe(b, 4, 500); }
      /* with the nop first, so that the program proper runs */ b[2] = OP(NOP); b[3] = a; safe(b, 4, 500); if(h == 0 && (a < BUZZVM_INSTR_COUNT || t)) for(int c = 0; c < 256; ++c) { if(!t && c >= BUZZVM_INSTR_COUNT && c < 254) continue; b[4] = c; safe(b, 5, 500); } }
}
static const char* SRC[] = {
   "x = 1\nfunction f(a, b) { return a + b }\nt(f(x, 2), \"str\", 1.5)\nwhile(x < 4) { x = x + 1 if(x == 3) t(x) else t(0) }\n",
   "T = {}\nT.a = function(y) { return function(z) { return y * z } }\nt(T.a(3)(4))\nforeach(T, function(k, v) { t(k) })\ns = swarm.create(1)\ns.join()\ns.exec(function() { t(\"in\") })\n",
   "v = stigmergy.create(2)\nv.put(\"k\", 5)\nt(v.get(\"k\"), v.size())\nneighbors.listen(\"a\", function(i, j, k) { t(i) })\nneighbors.broadcast(\"a\", { .b = 2 })\nt(neighbors.count(), math.sqrt(4.0), string.sub(\"hello\", 1, 3))\n",
   "function r(n) { if(n <= 0) { return 0 } return n + r(n - 1) }\nt(r(5))\nfor(i = 0, i < 3, i = i + 1) { var y = i t(y) }\nt(map({ .1 = 2 }, function(k, v) { return v + 1 }))\n" };
static void compiled(int t) {
   for(int p = 0; p < 4; ++p) { bz_prog_t P; if(bz_compile(SRC[p], &P)) { mc_fail("compile", "program %d", p); return; }
      for(uint32_t c = 0; c <= P.size; ++c) { if(!MC_CASE("the first %u bytes of program %d", c, p)) continue; safe(P.code, c, 20000); }
      for(uint32_t c = 0; c < P.size; ++c) { if(!MC_CASE("program %d with byte %u changed", p, c)) continue; uint8_t* x = malloc(P.size); memcpy(x, P.code, P.size);
         for(int b = 0; b < 256; ++b) { if(!t && !(b < BUZZVM_INSTR_COUNT || b > 252 || (b & (b - 1)) == 0 || b == P.code[c] + 1 || b == P.code[c] - 1)) continue; if(b == P.code[c]) continue; x[c] = b; safe(x, P.size, 3000); } free(x); }
      if(t) for(uint32_t c = 0; c + 1 < P.size; ++c) { if(!MC_CASE("program %d with bytes %u and the next changed", p, c)) continue; uint8_t* x = malloc(P.size); memcpy(x, P.code, P.size); for(int b = 0; b < BUZZVM_INSTR_COUNT; b += 3) for(int d = 0; d < BUZZVM_INSTR_COUNT; d += 3) { x[c] = b; x[c + 1] = d; safe(x, P.size, 3000); } free(x); }
      bz_prog_free(&P); }
}
void mc_run(void) {
   int t = mc_thorough; static int all[NY], red[20]; for(int i = 0; i < NY; ++i) all[i] = i; for(int i = 0; i < 20; ++i) red[i] = symn(RED[i]);
   if(MC_ASAN) { for(int c = 0; c < 4; ++c) { seqs(c, 1, all, NY); seqs(c, 2, all, NY); } bytes(t); compiled(t); if(t) { seqs(0, 3, all, NY); seqs(2, 4, red, 20); } return; }
   for(int c = 0; c < 4; ++c) { seqs(c, 1, all, NY); seqs(c, 2, all, NY); seqs(c, 3, red, 20); } typed(); seqs(2, 3, all, NY); seqs(1, 4, red, 20); seqs(2, 4, red, t ? 20 : 17); if(t) { seqs(0, 3, all, NY); seqs(1, 3, all, NY); seqs(3, 3, all, NY); seqs(3, 4, red, 20); seqs(2, 5, red, 20); }
}
