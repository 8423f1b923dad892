/* P29: a program run under the debugger stops exactly at its breakpoints and otherwise behaves as it
 * does without one. Every set of breakpoints and every bounded history of debugger commands is run on
 * the real debugger and compared with the sequence of instructions of an undisturbed run. */
#include "bz.h"
const char* mc_name = "debug";
#define MAXI 4000
static const char* PROG[] = {
   "t(1)\nt(2)\n",
   "x = 0\nwhile(x < 2) { x = x + 1\n t(x) }\n",
   "function f(a) { t(a)\n return a + 1 }\nx = f(f(1))\nt(x)\n",
   "function g(n) { if(n == 0) return 0\n t(n)\n return 1 + g(n - 1) }\nt(g(2))\n",
   "x = {.a = 1}\nif(x.a) t('y') else t('n')\nx.m = function(k) { return self.a + k }\nt(x.m(4))\n",
   "t(1)\nx = nil + 1\nt(2)\n",
   "function h() { t('in')\n return nil * 2 }\nx = 1\n h()\nt(3)\n" };
#define NPROG ((int)(sizeof PROG / sizeof *PROG))
static const char* PROGX = "function f(a, b) { t(a, b)\n if(a == 1) return b\n return f(a - 1, b + 1) }\nfunction bad(a) { t(a)\n return a + nil }\nm = {.z = 5}\nm.f = function(k) { t(k)\n return self.z + k }\nc = m.f\nt('init')\n";
typedef struct { int pc[MAXI]; int tl[MAXI]; int n; char trace[4096]; char end[2048]; } run_t;
static run_t R;
/* what can be seen of the VM once the run is over */
static void final(buzzvm_t vm, char* o, int max) {
   mcs_t s = {0}; mcs_add(&s, "state=%d error=%d stacks=%d msg=%s stack=", vm->state, vm->error, (int)buzzdarray_size(vm->stacks), vm->state == BUZZVM_STATE_ERROR && vm->errormsg ? vm->errormsg : "");
   for(int i = 1; i <= bz_depth(vm); ++i) { bz_repr(&s, buzzvm_stack_at(vm, i), 3); mcs_add(&s, ","); }
   snprintf(o, max, "%s", s.s); mcs_free(&s);
}
static int tlen(void) { return bz_trace.s ? (int)strlen(bz_trace.s) : 0; }
static const char* tr(void) { return bz_trace.s ? bz_trace.s : ""; }
/* undisturbed run from the present state until the VM is not ready (or, nst >= 0, until the call is over) */
static void record(buzzvm_t vm, int nst) {
   R.n = 0;
   while(vm->state == BUZZVM_STATE_READY && (nst < 0 || (int)buzzdarray_size(vm->stacks) > nst)) {
      if(R.n == MAXI) { fprintf(stderr, "run too long\n"); exit(9); }
      R.pc[R.n] = vm->pc; R.tl[R.n] = tlen(); ++R.n; buzzvm_step(vm);
   }
   snprintf(R.trace, sizeof R.trace, "%s", tr()); final(vm, R.end, sizeof R.end);
}
static int has(const int* B, int n, int pc) { for(int i = 0; i < n; ++i) if(B[i] == pc) return 1; return 0; }
static const char* bps(const int* B, int n) { static char s[600]; int k = 0; s[0] = 0; for(int i = 0; i < n && k < 550; ++i) k += sprintf(s + k, " %d", B[i]); return s; }
/* the VM must be stopped before instruction number i of the reference run, or at its end */
static int stopped_at(buzzvm_t vm, int i, const char* what) {
   if(i < R.n) {
      if(vm->state != BUZZVM_STATE_STOPPED) { mc_fail("does not stop", "%s: state %d at pc %d, expected a stop before offset %d", what, vm->state, vm->pc, R.pc[i]); return 0; }
      if(vm->pc != R.pc[i]) { mc_fail("stops elsewhere", "%s: stopped at offset %d, expected %d", what, vm->pc, R.pc[i]); return 0; }
      if(tlen() != R.tl[i] || strncmp(tr(), R.trace, R.tl[i])) { mc_fail("effects at stop", "%s: effects so far '%s', expected the first %d characters of '%s'", what, tr(), R.tl[i], R.trace); return 0; }
      return 1;
   }
   char e[2048]; final(vm, e, sizeof e);
   if(strcmp(e, R.end)) { mc_fail("end", "%s: ends as %s, expected %s", what, e, R.end); return 0; }
   if(strcmp(tr(), R.trace)) { mc_fail("effects", "%s: effects '%s', expected '%s'", what, tr(), R.trace); return 0; }
   return 1;
}
static void run_set(bz_prog_t* P, const int* B, int n) {
   char what[800]; snprintf(what, sizeof what, "breakpoints%s", bps(B, n));
   buzzvm_t vm = bz_vm(1, P); mcs_clear(&bz_trace); if(bz_trace.s) bz_trace.s[0] = 0;
   buzzdebug_breakpoint_clear(P->dbg);
   for(int i = 0; i < n; ++i) buzzdebug_breakpoint_set_offset(P->dbg, B[i]);
   int at = -1;
   for(;;) {
      int nx = at + 1; while(nx < R.n && !has(B, n, R.pc[nx])) ++nx;
      buzzvm_state s = buzzdebug_continue(vm, P->dbg); mc_trans(1);
      if(s != vm->state) { mc_fail("returned state", "%s: continue returns %d, state is %d", what, s, vm->state); break; }
      if(!stopped_at(vm, nx, what) || nx >= R.n) break;
      at = nx;
   }
   if(vm->state == BUZZVM_STATE_DONE || vm->state == BUZZVM_STATE_ERROR) { char e[2048]; buzzdebug_continue(vm, P->dbg); final(vm, e, sizeof e); if(strcmp(e, R.end)) mc_fail("after the end", "%s: continue after the end gives %s, expected %s", what, e, R.end); }
   buzzvm_destroy(&vm); mc_traces(1);
}
static int OFF[MAXI], NOFF;
static void offsets(bz_prog_t* P) { NOFF = 0; for(int o = 0; o < (int)P->size; ++o) if(has(R.pc, R.n, o)) OFF[NOFF++] = o; }
static void load(const char* src, bz_prog_t* P) {
   if(bz_compile(src, P)) { mc_fail("compile", "cannot compile %s", src); exit(9); }
   buzzvm_t vm = bz_vm(1, P); mcs_clear(&bz_trace); if(bz_trace.s) bz_trace.s[0] = 0; record(vm, -1); buzzvm_destroy(&vm); offsets(P);
}
/* every set of up to k breakpoints among the executed instructions */
static void sets(int p, int k) {
   bz_prog_t P; int first = 1, a = 0;
   for(a = -1; a < 400; ++a) {
      if(!mc_next()) continue;
      if(first) { load(PROG[p], &P); first = 0; }
      mc_desc("program %d, every set of %d breakpoints starting with instruction %d of %d: %s", p, k, a, NOFF, PROG[p]);
      if(a >= NOFF) continue;
      if(a < 0) { run_set(&P, NULL, 0); int all[MAXI]; for(int i = 0; i < NOFF; ++i) all[i] = OFF[i]; run_set(&P, all, NOFF); int none[4] = { -1, -5, (int)P.size, (int)P.size + 7 }; run_set(&P, none, 4); continue; }
      int B[8] = { OFF[a] }; run_set(&P, B, 1);
      for(int b = a + 1; b < NOFF && k > 1; ++b) { B[1] = OFF[b]; run_set(&P, B, 2); B[1] = OFF[a]; B[0] = OFF[b]; run_set(&P, B, 2); B[0] = OFF[a]; B[1] = OFF[b];
         for(int c = b + 1; c < NOFF && k > 2; ++c) { B[2] = OFF[c]; run_set(&P, B, 3); } }
   }
   if(!first) bz_prog_free(&P);
}
/* every history of debugger commands: set, remove, clear, continue, single steps */
static void histories(int p, int depth) {
   bz_prog_t P; load(PROG[p], &P);
   int pick[6], np = 0; for(int i = 0; i < 6 && i < NOFF; ++i) pick[np++] = OFF[(long)i * (NOFF - 1) / 5];
   chooser_t K = {0};
   do {
      if(!mc_next()) { for(int d = 0; d < depth; ++d) choose(&K, np + 5); continue; }
      buzzvm_t vm = bz_vm(1, &P); mcs_clear(&bz_trace); if(bz_trace.s) bz_trace.s[0] = 0; buzzdebug_breakpoint_clear(P.dbg);
      int B[64], n = 0, at = 0, fresh = 1; char h[1200]; int hk = 0; h[0] = 0; int ok = 1;
      for(int d = 0; d < depth; ++d) {
         int op = choose(&K, np + 5); if(!ok) continue;
         if(op < np) { hk += sprintf(h + hk, " set %d", pick[op]); buzzdebug_breakpoint_set_offset(P.dbg, pick[op]); if(!has(B, n, pick[op])) B[n++] = pick[op]; }
         else if(op == np) { hk += sprintf(h + hk, " remove first"); if(n) { buzzdebug_breakpoint_remove(P.dbg, 0); memmove(B, B + 1, --n * sizeof(int)); } }
         else if(op == np + 1) { hk += sprintf(h + hk, " remove last"); if(n) { buzzdebug_breakpoint_remove(P.dbg, n - 1); --n; } }
         else if(op == np + 2) { hk += sprintf(h + hk, " clear"); buzzdebug_breakpoint_clear(P.dbg); n = 0; }
         else if(op == np + 3) {   /* continue */
            hk += sprintf(h + hk, " continue");
            if(at < R.n) { int nx = at + (fresh ? 0 : 1); while(nx < R.n && !has(B, n, R.pc[nx])) ++nx; buzzdebug_continue(vm, P.dbg); ok = stopped_at(vm, nx, h); at = nx; fresh = 0; }
            else { buzzdebug_continue(vm, P.dbg); ok = stopped_at(vm, R.n, h); }
         }
         else {   /* the host executes two instructions itself */
            hk += sprintf(h + hk, " step");
            for(int q = 0; q < 2 && at < R.n && (vm->state == BUZZVM_STATE_STOPPED || vm->state == BUZZVM_STATE_READY); ++q) { vm->state = BUZZVM_STATE_READY; buzzvm_step(vm); ++at; fresh = 1; }
         }
         mc_trans(1);
         if((int)buzzdebug_breakpoint_count(P.dbg) != n) { mc_fail("count", "%s: %d breakpoints, expected %d", h, (int)buzzdebug_breakpoint_count(P.dbg), n); ok = 0; }
         for(int i = 0; ok && i < n; ++i) if(buzzdebug_breakpoint_get_offset(P.dbg, i) != B[i]) { mc_fail("list", "%s: breakpoint %d is at %d, expected %d", h, i, buzzdebug_breakpoint_get_offset(P.dbg, i), B[i]); ok = 0; }
         for(int i = 0; ok && i < np; ++i) if(!!buzzdebug_breakpoint_exists(P.dbg, pick[i]) != has(B, n, pick[i])) { mc_fail("exists", "%s: exists(%d) is wrong", h, pick[i]); ok = 0; }
      }
      mc_desc("program %d, history%s", p, h);
      buzzvm_destroy(&vm); mc_traces(1);
   } while(advance(&K));
   bz_prog_free(&P);
}
/* functions called through the debugger */
static int prepare(buzzvm_t vm, int k) {   /* pushes function and arguments; argument count; -1: by name */
   static const char* NAME[] = { "f", "f", "bad", "f", "c" };
   if(k == 3 || k == 4) { buzzvm_pushs(vm, buzzvm_string_register(vm, NAME[k], 1)); buzzvm_gload(vm); }
   buzzvm_pushi(vm, k == 1 ? 3 : 2); if(k == 0 || k == 1 || k == 3) { buzzvm_pushi(vm, 40); return 2; }
   return 1;
}
static void call(buzzvm_t vm, int k, int argc, buzzdebug_t dbg) {
   if(k == 3 || k == 4) { if(dbg) buzzdebug_closure_call(vm, argc, dbg); else buzzvm_closure_call(vm, argc); }
   else { const char* n = k == 2 ? "bad" : "f"; if(dbg) buzzdebug_function_call(vm, n, argc, dbg); else buzzvm_function_call(vm, n, argc); }
}
static buzzvm_t ready(bz_prog_t* P, int base, int k) {
   buzzvm_t vm = bz_vm(1, P); while(vm->state == BUZZVM_STATE_READY) buzzvm_step(vm);
   mcs_clear(&bz_trace); if(bz_trace.s) bz_trace.s[0] = 0;
   for(int i = 0; i < base; ++i) buzzvm_pushi(vm, 90 + i);
   if(k >= 3) vm->state = BUZZVM_STATE_READY;
   return vm;
}
static void calls(int k, int nb) {
   bz_prog_t P; if(bz_compile(PROGX, &P)) { fprintf(stderr, "cannot compile\n"); exit(9); }
   for(int base = 0; base < 3; ++base) {
      /* the undisturbed call: result, and the instructions it executes */
      buzzvm_t vm = ready(&P, base, k); int argc = prepare(vm, k); call(vm, k, argc, NULL);
      char wend[2048]; final(vm, wend, sizeof wend); char wtr[1024]; snprintf(wtr, sizeof wtr, "%s", tr()); buzzvm_destroy(&vm);
      vm = ready(&P, base, k); argc = prepare(vm, k); vm->state = BUZZVM_STATE_READY;
      if(k < 3) { buzzvm_pushs(vm, buzzvm_string_register(vm, k == 2 ? "bad" : "f", 1)); buzzvm_gload(vm); buzzobj_t c = buzzvm_stack_at(vm, 1); buzzvm_pop(vm); buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc, &c); }
      buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL); buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &nil); buzzvm_pushi(vm, argc); int st = buzzdarray_size(vm->stacks); buzzvm_callc(vm);
      record(vm, st); buzzvm_destroy(&vm); offsets(&P);
      /* afterwards the VM goes on where it was: at the end of the script */
      for(int a = -1; a < NOFF; ++a) for(int b = a; b < NOFF; ++b) {
         if(nb < 2 && b != a) continue;
         if(!MC_CASE("call kind %d over %d values, breakpoints %d and %d of %d instructions", k, base, a, b, NOFF)) continue;
         int B[2], n = 0; if(a >= 0) B[n++] = OFF[a]; if(b != a) B[n++] = OFF[b];
         char what[200]; snprintf(what, sizeof what, "call kind %d, breakpoints%s", k, bps(B, n));
         buzzdebug_breakpoint_clear(P.dbg); for(int i = 0; i < n; ++i) buzzdebug_breakpoint_set_offset(P.dbg, B[i]);
         vm = ready(&P, base, k); argc = prepare(vm, k); call(vm, k, argc, P.dbg); mc_trans(1);
         int at = 0; while(at < R.n && !has(B, n, R.pc[at])) ++at;
         if(at == R.n) { char e[2048]; final(vm, e, sizeof e); if(strcmp(e, wend)) mc_fail("call", "%s: ends as %s, expected %s", what, e, wend); else if(strcmp(tr(), wtr)) mc_fail("call effects", "%s: effects %s, expected %s", what, tr(), wtr); }
         else {
            int ok = 1;
            while(at < R.n && (ok = stopped_at(vm, at, what))) { int nx = at + 1; while(nx < R.n && !has(B, n, R.pc[nx])) ++nx; at = nx; if(at < R.n) { buzzdebug_continue(vm, P.dbg); mc_trans(1); } }
            if(ok) {   /* the call runs to its end and the script to its own */
               buzzdebug_continue(vm, P.dbg);
               if(vm->state != (k == 2 ? BUZZVM_STATE_ERROR : BUZZVM_STATE_DONE)) mc_fail("after the call", "%s: state %d", what, vm->state);
               else if(strcmp(tr(), wtr)) mc_fail("call effects", "%s: effects %s, expected %s", what, tr(), wtr);
               else if(k != 2) { mcs_t s = {0}; bz_repr(&s, buzzvm_stack_at(vm, 1), 3); char* w = strstr(wend, "stack=") + 6; if(bz_depth(vm) != base + 1 || strncmp(s.s, w, strlen(s.s))) mc_fail("call result", "%s: result %s with %d values, expected %s with %d", what, s.s, bz_depth(vm), w, base + 1); mcs_free(&s); }
            }
         }
         buzzvm_destroy(&vm); mc_traces(1);
      }
   }
   bz_prog_free(&P);
}
void mc_run(void) {
   int t = mc_thorough;
   for(int p = 0; p < NPROG; ++p) sets(p, MC_ASAN && !t ? 2 : 3);
   for(int p = 0; p < NPROG; ++p) histories(p, MC_ASAN ? 3 : t ? 5 : 4);
   for(int k = 0; k < 5; ++k) calls(k, 2);
}
