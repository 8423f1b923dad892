/* P28: every history of opening, writing, measuring, iterating and closing files, in every mode and from every kind of initial
 * content, against a model of the file and of the position in it. All files live in the worker's scratch directory. */
#include "bz.h"
#include <unistd.h>
#include <sys/stat.h>
const char* mc_name = "io";
static const char* SRC =
   "H = {}\nfunction opn(h, name, mode) { H[h] = io.fopen(name, mode)\n if(H[h] == nil) { if(io.errno == 0) return \"no error number\"\n if(string.length(io.error_message) == 0) return \"no message\"\n return 0 }\n if(H[h].name != name) return \"wrong name\"\n return 1 }\n"
   "function wr(h, k) { if(k == 0) io.fwrite(H[h], \"x\")\n if(k == 1) io.fwrite(H[h], \"ab\", \"c\\nd%s\", -7, 2.5, nil, { .a = 1, .b = 2 })\n if(k == 2) io.fwrite(H[h], \"\") }\n"
   "function sz(h) { return io.fsize(H[h]) }\nfunction each(h) { io.fforeach(H[h], function(l) { t(l) }) }\n"
   "function eachclose(h) { io.fforeach(H[h], function(l) { t(l)\n io.fclose(H[h]) }) }\n"
   "function nested(h) { io.fforeach(H[h], function(l) { t(\"o\", l)\n io.fforeach(H[h], function(m) { t(\"i\", m) }) }) }\n"
   "function cl(h) { io.fclose(H[h]) }\nfunction copy(a, b) { io.fforeach(H[a], function(l) { io.fwrite(H[b], l) }) }\n"
   "function failing(h, n) { N = 0\n io.fforeach(H[h], function(l) { t(l)\n N = N + 1\n if(N == n) { var z = nil + 1 } }) }\n";
static const char* MODE[] = { "r", "w", "a", "r+", "w+", "a+" };
static char BIG[5100];
static const char* INIT[] = { NULL, "", "a", "a\n", "a\nbb", "\n\n", "l1\nl2\n\nl4\n", BIG, "x\r\ny" };
#define NINIT 9
typedef struct { int ex; char* d; int n; } mf_t;
typedef struct { int open, mode, pos, last; int f; } mh_t;   /* last: 1 wrote, 2 read */
static bz_prog_t P; static buzzvm_t VM; static mcs_t ex, dsc; static char path[2][400]; static mf_t MF[2]; static mh_t MH[2]; static unsigned serial; static chooser_t K;
static void vmnew(void) { if(!P.code) { memset(BIG, 'q', 5000); strcpy(BIG + 5000, "\nz"); if(bz_compile(SRC, &P)) { mc_fail("compile", "rejected"); exit(9); } } VM = bz_vm(5, &P); bz_exec(VM, 100000); VM->state = BUZZVM_STATE_READY; }
static void m_set(mf_t* f, const char* d, int n) { free(f->d); f->d = malloc(n + 1); memcpy(f->d, d, n); f->n = n; f->ex = 1; }
static void begin(int i0, int i1) {
   if(!VM) vmnew(); ++serial; int in[2] = { i0, i1 };
   for(int k = 0; k < 2; ++k) { snprintf(path[k], sizeof path[k], "%s/f%u_%d", mc_tmp, serial, k); free(MF[k].d); memset(&MF[k], 0, sizeof MF[k]); memset(&MH[k], 0, sizeof MH[k]); MH[k].f = k; unlink(path[k]); if(in[k] >= 0 && INIT[in[k]]) { FILE* f = fopen(path[k], "wb"); fwrite(INIT[in[k]], 1, strlen(INIT[in[k]]), f); fclose(f); m_set(&MF[k], INIT[in[k]], strlen(INIT[in[k]])); } }
   mcs_clear(&bz_trace); mcs_clear(&ex);
}
static FILE* handle(int h) { FILE* f = NULL; buzzobj_t t = bz_global(VM, "H"); if(t->o.type != BUZZTYPE_TABLE) return NULL; buzzvm_push(VM, t); buzzvm_pushi(VM, h); buzzvm_tget(VM); buzzobj_t e = buzzvm_stack_at(VM, 1); if(e->o.type == BUZZTYPE_TABLE) { buzzvm_pushs(VM, buzzvm_string_register(VM, "handle", 1)); buzzvm_tget(VM); e = buzzvm_stack_at(VM, 1); if(e->o.type == BUZZTYPE_USERDATA) f = e->u.value; } buzzvm_pop(VM); return f; }
static int content(int k, const char* when) {
   struct stat st; int has = !stat(path[k], &st); if(has != MF[k].ex) { mc_fail("existence", "%s: the file %s", when, has ? "exists" : "does not exist"); return 0; } if(!has) return 1;
   FILE* f = fopen(path[k], "rb"); char* b = malloc(st.st_size + 1); int n = fread(b, 1, st.st_size, f); fclose(f); int ok = n == MF[k].n && !memcmp(b, MF[k].d, n);
   if(!ok) mc_fail("content", "%s: file holds %d bytes [%.*s], expected %d [%.*s]", when, n, n > 60 ? 60 : n, b, MF[k].n, MF[k].n > 60 ? 60 : MF[k].n, MF[k].d); free(b); return ok;
}
static void end(int ok) {
   if(VM && VM->state != BUZZVM_STATE_READY) VM->state = BUZZVM_STATE_READY;   /* only to reach the handles */
   for(int h = 0; h < 2; ++h) { FILE* f = handle(h); if(f) { fclose(f); if(ok && !MH[h].open) mc_fail("handle", "still open"); } else if(ok && MH[h].open) mc_fail("handle", "handle lost"); }
   if(ok) for(int k = 0; k < 2; ++k) content(k, "at the end");
   for(int k = 0; k < 2; ++k) unlink(path[k]);
   if(VM) buzzvm_destroy(&VM); VM = NULL; mc_traces(1);
}
static int call(const char* f, int n, int a, int b) { mc_trans(1); buzzvm_pushi(VM, a); if(n > 1) buzzvm_pushi(VM, b); if(buzzvm_function_call(VM, f, n) != BUZZVM_STATE_READY) return 0; return 1; }
static int pop_int(const char* what, int want) { buzzobj_t o = buzzvm_stack_at(VM, 1); int ok = o->o.type == BUZZTYPE_INT && o->i.value == want; if(!ok) { mcs_t s = {0}; bz_repr(&s, o, 2); mc_fail(what, "returned %s, expected %d", s.s, want); mcs_free(&s); } buzzvm_pop(VM); return ok; }
static int traces(const char* what) { int ok = !strcmp(bz_trace.n ? bz_trace.s : "", ex.n ? ex.s : ""); if(!ok) mc_fail(what, "lines [%.200s], expected [%.200s]", bz_trace.n ? bz_trace.s : "", ex.n ? ex.s : ""); return ok; }
static int op_open(int h, int k, int mode) {
   mh_t* m = &MH[h]; mf_t* f = &MF[k]; int can = mode == 0 || mode == 3 ? f->ex : 1;
   buzzvm_pushi(VM, h); buzzvm_pushs(VM, buzzvm_string_register(VM, path[k], 0)); buzzvm_pushs(VM, buzzvm_string_register(VM, MODE[mode], 0)); mc_trans(1);
   if(buzzvm_function_call(VM, "opn", 3) != BUZZVM_STATE_READY) { mc_fail("open", "%s", VM->errormsg); return 0; }
   if(!pop_int("open", can)) return 0; if(!can) { m->open = 0; return 1; }
   if(mode == 1 || mode == 4 || !f->ex) m_set(f, "", 0); m->open = 1; m->mode = mode; m->pos = 0; m->last = 0; m->f = k; return 1;
}
static void m_write(mh_t* m, const char* s) { mf_t* f = &MF[m->f]; if(m->mode == 0) { m->last = 3; return; } int l = strlen(s), at = m->mode == 2 || m->mode == 5 ? f->n : m->pos, n = at + l > f->n ? at + l : f->n; f->d = realloc(f->d, n + 1); memcpy(f->d + at, s, l); f->n = n; m->pos = at + l; m->last = 1; }
static int m_line(mh_t* m, char* o) { mf_t* f = &MF[m->f]; if(m->mode == 1 || m->mode == 2 || m->pos >= f->n) return 0; int n = 0; while(m->pos < f->n && f->d[m->pos] != '\n') o[n++] = f->d[m->pos++]; if(m->pos < f->n) ++m->pos; o[n] = 0; m->last = 2; return 1; }
enum { W0, W1, W2, SZ, EA, EC, NE, CL, OPS };
static const char* ON[] = { "write x", "write values", "write empty", "size", "foreach", "foreach closing", "nested foreach", "close" };
static const char* WT[] = { "x\n", "abc\nd%s-72.500000[nil][table with 2 elems]\n", "\n" };
/* 1 ok, 0 stop (failure), -1 history outside the C library's contract, 2 expected error: stop */
static int apply(int h, int op) {
   mh_t* m = &MH[h]; static char ln[6000];
   if(!m->open) { static const char* F[] = { "wr", "wr", "wr", "sz", "each", "eachclose", "nested", "cl" }; if(call(F[op], op <= W2 ? 2 : 1, h, 0)) { mc_fail("closed", "%s on a closed file succeeds", ON[op]); return 0; } if(VM->error != BUZZVM_ERROR_TYPE) { mc_fail("closed", "error %d", VM->error); return 0; } return 2; }
   if(m->last == 3 && op != CL) return -1;   /* the stream remembers the refused write */
   if(m->last == 1 && (op == EA || op == EC || op == NE) && m->mode >= 3) return -1;
   if(m->last == 2 && op <= W2 && m->mode >= 3 && m->pos < MF[m->f].n) return -1;
   switch(op) {
      case W0: case W1: case W2: if(!call("wr", 2, h, op)) { mc_fail("write", "%s", VM->errormsg); return 0; } buzzvm_pop(VM); m_write(m, WT[op]); break;
      case SZ: if(!call("sz", 1, h, 0)) { mc_fail("size", "%s", VM->errormsg); return 0; } m->last = 0; return pop_int("size", MF[m->f].n) && content(m->f, "after measuring");
      case EA: if(!call("each", 1, h, 0)) { mc_fail("foreach", "%s", VM->errormsg); return 0; } buzzvm_pop(VM); while(m_line(m, ln)) mcs_add(&ex, "'%s';", ln); return traces("foreach");
      case EC: { if(!call("eachclose", 1, h, 0)) { mc_fail("foreach", "%s", VM->errormsg); return 0; } buzzvm_pop(VM); if(m_line(m, ln)) { mcs_add(&ex, "'%s';", ln); m->open = 0; } return traces("foreach"); }
      case NE: if(!call("nested", 1, h, 0)) { mc_fail("foreach", "%s", VM->errormsg); return 0; } buzzvm_pop(VM); if(m_line(m, ln)) { mcs_add(&ex, "'o' '%s';", ln); while(m_line(m, ln)) mcs_add(&ex, "'i' '%s';", ln); } return traces("foreach");
      case CL: if(!call("cl", 1, h, 0)) { mc_fail("close", "%s", VM->errormsg); return 0; } buzzvm_pop(VM); m->open = 0; return content(m->f, "after closing");
   }
   if(bz_depth(VM)) { mc_fail("stack", "%d values left", bz_depth(VM)); return 0; }
   return 1;
}
static void single(int depth) {
   for(int i = 0; i < NINIT; ++i) for(int m = 0; m < 6; ++m) {
      memset(&K, 0, sizeof K);
      do { int op[8], cut = 0; for(int d = 0; d < depth; ++d) op[d] = choose(&K, OPS + 2);   /* OPS, OPS+1: reopen in mode r / a+ */
         if(!mc_next()) continue; mcs_clear(&dsc); 
         mcs_add(&dsc, "content %d, mode %s:", i, MODE[m]); for(int d = 0; d < depth; ++d) mcs_add(&dsc, " %s;", op[d] < OPS ? ON[op[d]] : op[d] == OPS ? "reopen r" : "reopen a+"); mc_desc("%s", dsc.s);
         begin(i, -1); int ok = op_open(0, 0, m);
         for(int d = 0; ok > 0 && d < depth; ++d) { if(op[d] >= OPS) { if(MH[0].open) { ok = apply(0, CL); if(ok <= 0) break; } ok = op_open(0, 0, op[d] == OPS ? 0 : 5); } else ok = apply(0, op[d]); mc_states(1); if(ok == 2) break; }
         (void)cut; end(ok > 0);
      } while(advance(&K)); }
}
/* two handles, on two files or on the same one (one writer at a time) */
static void twofiles(int depth) {
   for(int i = 0; i < 6; ++i) for(int m0 = 0; m0 < 6; ++m0) for(int m1 = 0; m1 < 6; ++m1) { memset(&K, 0, sizeof K);
      do { int op[8], hh[8]; for(int d = 0; d < depth; ++d) { hh[d] = choose(&K, 2); op[d] = choose(&K, OPS); if(op[d] == NE || op[d] == W2) hh[d] = 9; } int bad = 0; for(int d = 0; d < depth; ++d) bad |= hh[d] == 9; if(bad) continue;
         if(!mc_next()) continue; mcs_clear(&dsc); mcs_add(&dsc, "contents %d and %d, modes %s and %s:", i, 5 - i, MODE[m0], MODE[m1]); for(int d = 0; d < depth; ++d) mcs_add(&dsc, " %d %s;", hh[d], ON[op[d]]); mc_desc("%s", dsc.s);
         begin(i, 5 - i); int ok = op_open(0, 0, m0) && op_open(1, 1, m1); for(int d = 0; ok > 0 && d < depth; ++d) { ok = apply(hh[d], op[d]); mc_states(1); if(ok == 2) break; } end(ok > 0);
      } while(advance(&K)); }
}
static void others(void) {
   /* opening what cannot be opened */
   static const char* BAD[] = { "/nonexistent-dir-for-buzz/x", "", "." }; for(int p = 0; p < 3; ++p) for(int m = 0; m < 7; ++m) { if(p == 2 && m == 0) continue; if(!MC_CASE("opening \"%s\" in mode %s", BAD[p], m < 6 ? MODE[m] : "q")) continue; begin(-1, -1); buzzvm_pushi(VM, 0); buzzvm_pushs(VM, buzzvm_string_register(VM, BAD[p], 0)); buzzvm_pushs(VM, buzzvm_string_register(VM, m < 6 ? MODE[m] : "q", 0)); if(buzzvm_function_call(VM, "opn", 3) != BUZZVM_STATE_READY) mc_fail("open", "%s", VM->errormsg); else pop_int("open", 0); end(!mc_case_failed()); }
   /* copying a file line by line through two handles */
   for(int i = 1; i < NINIT; ++i) { if(!MC_CASE("copying content %d line by line", i)) continue; begin(i, -1); int ok = op_open(0, 0, 0) && op_open(1, 1, 1); if(ok && !call("copy", 2, 0, 1)) { mc_fail("copy", "%s", VM->errormsg); ok = 0; } if(ok) { buzzvm_pop(VM); static char ln[6000]; while(m_line(&MH[0], ln)) { m_write(&MH[1], ln); m_write(&MH[1], "\n"); } ok = apply(1, CL) > 0 && apply(0, CL) > 0; } end(ok); }
   /* a callback failing at every line */
   for(int i = 1; i < NINIT; ++i) for(int n = 1; n <= 5; ++n) { if(!MC_CASE("callback failing at line %d of content %d", n, i)) continue; begin(i, -1); op_open(0, 0, 0); int lines = 0; static char ln[6000]; for(int k = 0; k < n && m_line(&MH[0], ln); ++k) { mcs_add(&ex, "'%s';", ln); ++lines; } int fail = lines == n, r = call("failing", 2, 0, n); if(r == fail) mc_fail("callback", "the failure is %s", r ? "lost" : "invented"); traces("foreach"); end(0); }
   /* many lines and long lines */
   for(int n = 0; n <= 300; n += 37) for(int l = 0; l <= 300; l += 60) { if(!MC_CASE("%d lines of %d characters", n, l)) continue; begin(-1, -1); FILE* f = fopen(path[0], "w"); mcs_t c = {0}; for(int i = 0; i < n; ++i) { for(int k = 0; k < l + i % 3; ++k) mcs_add(&c, "%c", 'a' + (i + k) % 26); mcs_add(&c, "\n"); } fwrite(c.n ? c.s : "", 1, c.n, f); fclose(f); m_set(&MF[0], c.n ? c.s : "", c.n); int ok = op_open(0, 0, 0) && apply(0, SZ) > 0 && apply(0, EA) > 0 && apply(0, SZ) > 0 && apply(0, CL) > 0; mcs_free(&c); end(ok); }
   /* wrong arguments */
   static const char* WA[] = { "io.fopen(1, 2)", "io.fopen(\"x\")", "io.fopen(\"x\", 1)", "io.fclose()", "io.fclose(3)", "io.fclose({})", "io.fsize(\"f\")", "io.fforeach({}, 1)", "io.fwrite({})", "io.fwrite(nil, \"a\")", "io.fwrite({ .handle = 3 }, \"a\")", "io.fforeach({ .handle = nil }, function(x) { })" };
   for(int i = 0; i < 12; ++i) { if(!MC_CASE("%s", WA[i])) continue; char s[200]; snprintf(s, sizeof s, "x = %s\n", WA[i]); bz_prog_t p; buzzvm_t v = bz_script(s, &p, 5); if(!v) mc_fail("compile", "rejected"); else { if(v->state != BUZZVM_STATE_ERROR) mc_fail("arguments", "VM is %s", bz_statename(v)); buzzvm_destroy(&v); bz_prog_free(&p); } }
}
void mc_run(void) {
   int t = mc_thorough; if(!P.code) { vmnew(); buzzvm_destroy(&VM); }
   others(); if(MC_ASAN) { single(2); return; } single(t ? 5 : 4); twofiles(t ? 3 : 2);
}
