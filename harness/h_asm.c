/* P20: assembler, disassembler and debug information against a reference encoder: every layout of labels, references,
 * instructions and source positions up to a bound, every instruction with boundary operands, every size around the
 * buffer's growth, every short string; every truncation of images and debug files. */
#include "bz.h"
#include <limits.h>
#include <unistd.h>
const char* mc_name = "asm";
typedef struct { const char* n; int op; char k; } ins_t;   /* k: 0 none, i integer, f float, l label */
#define I(n, o, k) { n, BUZZVM_INSTR_##o, k }
static const ins_t IN[] = { I("nop", NOP, 0), I("done", DONE, 0), I("pushnil", PUSHNIL, 0), I("dup", DUP, 0), I("pop", POP, 0), I("ret0", RET0, 0), I("ret1", RET1, 0),
   I("add", ADD, 0), I("sub", SUB, 0), I("mul", MUL, 0), I("div", DIV, 0), I("mod", MOD, 0), I("pow", POW, 0), I("unm", UNM, 0), I("land", LAND, 0), I("lor", LOR, 0), I("lnot", LNOT, 0),
   I("band", BAND, 0), I("bor", BOR, 0), I("bnot", BNOT, 0), I("lshift", LSHIFT, 0), I("rshift", RSHIFT, 0), I("eq", EQ, 0), I("neq", NEQ, 0), I("gt", GT, 0), I("gte", GTE, 0), I("lt", LT, 0), I("lte", LTE, 0),
   I("gload", GLOAD, 0), I("gstore", GSTORE, 0), I("pusht", PUSHT, 0), I("tput", TPUT, 0), I("tget", TGET, 0), I("callc", CALLC, 0), I("calls", CALLS, 0),
   I("pushf", PUSHF, 'f'), I("pushi", PUSHI, 'i'), I("pushs", PUSHS, 'i'), I("pushcn", PUSHCN, 'l'), I("pushcc", PUSHCC, 'i'), I("pushl", PUSHL, 'l'), I("lload", LLOAD, 'i'), I("lstore", LSTORE, 'i'),
   I("lremove", LREMOVE, 'i'), I("jump", JUMP, 'l'), I("jumpz", JUMPZ, 'l'), I("jumpnz", JUMPNZ, 'l') };
#define NIN ((int)(sizeof IN / sizeof *IN))
typedef struct { uint64_t l, c; const char* f; } pos_t;
/* a line: label definition (k='@'), string (k='s'), instruction */
typedef struct { char k; int in; int32_t i; float fl; const char* txt; const pos_t* d; } line_t;
static line_t* L; static int nL, cL; static mcs_t text; static uint8_t* ref; static uint32_t nref; static int bad;
typedef struct { int32_t off; const pos_t* d; int lab; } pm_t; static pm_t* pm; static int npm; static int* at; static int nat; /* instruction offsets -> line */
static char FN[512], DN[512], LN[512];
static line_t* ln(void) { if(nL == cL) { cL = cL * 2 + 64; L = realloc(L, cL * sizeof *L); } line_t* x = &L[nL++]; memset(x, 0, sizeof *x); return x; }
static void lab(const char* n, const pos_t* d) { line_t* x = ln(); x->k = '@'; x->txt = n; x->d = d; }
static void str(const char* s) { line_t* x = ln(); x->k = 's'; x->txt = s; }
static void op(int in, int32_t v, float f, const char* l, const pos_t* d) { line_t* x = ln(); x->k = 'o'; x->in = in; x->i = v; x->fl = f; x->txt = l; x->d = d; }
static int opn(const char* n) { for(int i = 0; i < NIN; ++i) if(!strcmp(IN[i].n, n)) return i; abort(); }
/* writes the text and the reference image */
static void emit(int style) {
   static uint32_t cap; if(!*FN) { snprintf(FN, sizeof FN, "%s/a.basm", mc_tmp); snprintf(DN, sizeof DN, "%s/a.bdb", mc_tmp); snprintf(LN, sizeof LN, "%s/a.lst", mc_tmp); }
   uint32_t need = 16; for(int i = 0; i < nL; ++i) need += L[i].k == 's' ? strlen(L[i].txt) + 1 : 5; if(need > cap) { cap = need * 2; ref = realloc(ref, cap); }
   pm = realloc(pm, (nL + 1) * sizeof *pm); at = realloc(at, (nL + 1) * sizeof *at); npm = nat = 0; bad = 0; mcs_clear(&text);
   int ns = 0; for(int i = 0; i < nL; ++i) ns += L[i].k == 's'; mcs_add(&text, "!%d\n", ns); uint16_t n16 = ns; memcpy(ref, &n16, 2); nref = 2;
   for(int i = 0; i < nL; ++i) if(L[i].k == 's') { mcs_add(&text, "'"); for(const char* c = L[i].txt; *c; ++c) if(*c == '\n') mcs_add(&text, "\\n"); else if(*c == '\\') mcs_add(&text, "\\\\"); else mcs_add(&text, "%c", *c); mcs_add(&text, "\n");
         strcpy((char*)ref + nref, L[i].txt); nref += strlen(L[i].txt) + 1; }
   uint32_t* lo = malloc((nL + 1) * sizeof *lo); uint32_t o = nref; for(int i = 0; i < nL; ++i) { lo[i] = o; if(L[i].k == 'o') o += IN[L[i].in].k ? 5 : 1; }
   for(int i = 0; i < nL && nL < 64; ++i) for(int j = 0; j < i; ++j) if(L[i].k == '@' && L[j].k == '@' && !strcmp(L[i].txt, L[j].txt)) bad = 1;   /* defined twice */
   for(int i = 0; i < nL; ++i) { if(L[i].k == 's') continue; const pos_t* d = L[i].d;
      if(L[i].k == '@') mcs_add(&text, "\n%s", L[i].txt);
      else { const ins_t* x = &IN[L[i].in]; at[nat++] = i; mcs_add(&text, "%s%s", style == 1 ? "" : style == 2 ? "  " : "\t", x->n); ref[nref++] = x->op; int32_t a = L[i].i;
         if(L[i].txt && x->k) { mcs_add(&text, " %s", L[i].txt); int f = 0; for(int j = 0; j < nL; ++j) if(L[j].k == '@' && !strcmp(L[j].txt, L[i].txt)) { a = lo[j]; f = 1; break; } if(!f) bad = 1; memcpy(ref + nref, &a, 4); nref += 4; }
         else if(x->k == 'f') { mcs_add(&text, " %.9g", L[i].fl); memcpy(ref + nref, &L[i].fl, 4); nref += 4; }
         else if(x->k) { mcs_add(&text, " %d", a); memcpy(ref + nref, &a, 4); nref += 4; } }
      if(d) { mcs_add(&text, style == 1 ? "|%llu,%llu,%s" : "\t|%llu,%llu,%s", (unsigned long long)d->l, (unsigned long long)d->c, d->f); pm[npm].off = lo[i]; pm[npm].d = d; pm[npm].lab = L[i].k == '@'; npm++; }
      mcs_add(&text, style == 1 ? "\n" : style == 2 ? "  \n# comment\n\n" : "\n"); }
   free(lo); FILE* f = fopen(FN, "w"); fwrite(text.s, 1, text.n, f); fclose(f);
}
static int samepos(const pos_t* a, const pos_t* b) { return a->l == b->l && a->c == b->c && !strcmp(a->f, b->f); }
/* the debug maps agree with the listed positions */
static void checkdbg(buzzdebug_t g, const char* what) {
   for(int i = 0; i < nat; ++i) { int o = -1; (void)o; }
   uint32_t off = 0; int distinct = 0;
   for(int i = 0; i < npm; ++i) { off = pm[i].off; int last = i; for(int j = i + 1; j < npm; ++j) if(pm[j].off == (int32_t)off) last = j; if(last == i) distinct++; if(last != i) continue;
      const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(g, &off);
      if(!e) { mc_fail("position", "%s: no position for offset %u, expected %llu:%llu %s", what, off, (unsigned long long)pm[i].d->l, (unsigned long long)pm[i].d->c, pm[i].d->f); return; }
      if((*e)->line != pm[i].d->l || (*e)->col != pm[i].d->c || strcmp((*e)->fname, pm[i].d->f)) { mc_fail("position", "%s: offset %u is %llu:%llu %.40s, expected %llu:%llu %.40s", what, off, (unsigned long long)(*e)->line, (unsigned long long)(*e)->col, (*e)->fname, (unsigned long long)pm[i].d->l, (unsigned long long)pm[i].d->c, pm[i].d->f); return; } }
   if((int)buzzdebug_info_count(g) != distinct) mc_fail("position", "%s: %d entries, expected %d", what, (int)buzzdebug_info_count(g), distinct);
   for(int i = 0; i < npm; ++i) { int32_t m = pm[i].off; int amb = 0; for(int j = 0; j < npm; ++j) if(samepos(pm[j].d, pm[i].d) && pm[j].off < m) m = pm[j].off;
      /* a position that another one overwrote at the same offset is not a position of an instruction */
      for(int j = 0; j < npm; ++j) if(pm[j].lab) for(int k = 0; k < npm; ++k) if(k != j && pm[k].off == pm[j].off && !samepos(pm[k].d, pm[j].d) && (samepos(pm[j].d, pm[i].d))) amb = 1; if(amb) continue;
      const int32_t* r = buzzdebug_info_get_fromscript(g, pm[i].d->l, pm[i].d->c, pm[i].d->f);
      if(!r || *r != m) { mc_fail("source-to-code", "%s: %llu:%llu %.40s maps to %d, expected %d", what, (unsigned long long)pm[i].d->l, (unsigned long long)pm[i].d->c, pm[i].d->f, r ? *r : -1, m); return; } }
   if(buzzdebug_info_get_fromscript(g, 77777, 3, "no such file")) mc_fail("source-to-code", "an unknown position is found");
}
static void listing(void) {
   FILE* f = fopen(LN, "r"); char* b = NULL; size_t cap = 0; ssize_t n; int st = 0, oi = 0, ns = 0; uint32_t off = 0; static mcs_t e; for(int i = 0; i < nL; ++i) ns += L[i].k == 's';
   if(!f) { mc_fail("listing", "not written"); return; } uint32_t base = 2; for(int i = 0; i < nL; ++i) if(L[i].k == 's') base += strlen(L[i].txt) + 1; off = base; int si = 0;
   while((n = getline(&b, &cap, f)) > 0) { if(b[n - 1] == '\n') b[--n] = 0;
      if(st == 0) { if(b[0] != '!' || atoi(b + 1) != ns) { mc_fail("listing", "string count: %s", b); break; } st = 1; continue; }
      if(st == 1 && ns > 0) { while(L[si].k != 's') ++si; mcs_clear(&e); mcs_add(&e, "'"); for(const char* c = L[si].txt; *c; ++c) if(*c == '\n') mcs_add(&e, "\\n"); else if(*c == '\\') mcs_add(&e, "\\\\"); else mcs_add(&e, "%c", *c);
         if(strcmp(b, e.s)) { mc_fail("listing", "string: %s, expected %s", b, e.s); break; } ++si; --ns; continue; }
      if(oi >= nat) { mc_fail("listing", "extra line %s", b); break; }
      line_t* x = &L[at[oi++]]; const ins_t* t = &IN[x->in]; char* p; uint32_t go = strtoul(b, &p, 10); if(*p != ':' || go != off) { mc_fail("listing", "offset: %s, expected %u", b, off); break; } ++p; while(*p == '\t' || *p == ' ') ++p;
      char* dbg = strchr(p, '|'); if(dbg) *dbg++ = 0; char* sp = p; while(*sp && *sp != ' ' && *sp != '\t') ++sp; char c = *sp; *sp = 0; if(strcmp(p, t->n)) { mc_fail("listing", "instruction at %u: %s, expected %s", off, p, t->n); break; }
      char* end = sp; if(c) { ++sp; while(*sp == ' ' || *sp == '\t') ++sp; end = sp; }
      if(t->k == 'f') { float g = strtof(sp, &end), w; memcpy(&w, ref + off + 1, 4); if(end == sp || (memcmp(&g, &w, 4) && !(g != g && w != w))) { mc_fail("listing", "operand at %u: %s, expected %.9g", off, sp, w); break; } }
      else if(t->k) { long g = strtol(sp, &end, 10); int32_t w; memcpy(&w, ref + off + 1, 4); if(end == sp || g != w) { mc_fail("listing", "operand at %u: %s, expected %d", off, sp, w); break; } }
      while(*end == ' ' || *end == '\t') ++end; if(*end) { mc_fail("listing", "extra operand at %u: %s", off, end); break; }
      const pos_t* w = NULL; for(int i = 0; i < npm; ++i) if(pm[i].off == (int32_t)off) w = pm[i].d;
      mcs_clear(&e); if(w) mcs_add(&e, "%llu,%llu,%s", (unsigned long long)w->l, (unsigned long long)w->c, w->f); else mcs_add(&e, "%s", "");
      if((dbg != NULL) != (w != NULL) || (dbg && strcmp(dbg, e.s))) { mc_fail("listing", "position at %u: %s, expected %s", off, dbg ? dbg : "none", w ? e.s : "none"); break; }
      char* one = NULL; int r = buzz_instruction_deasm(ref, off, &one); if(!r || !one || strncmp(one, t->n, strlen(t->n))) mc_fail("listing", "single instruction at %u: %s", off, one ? one : "none");
      else { const char* q = one + strlen(t->n); int32_t v; memcpy(&v, ref + off + 1, 4); float fv; memcpy(&fv, ref + off + 1, 4); if(t->k == 'f' ? (strtof(q, NULL) != fv && fv == fv) : t->k ? strtol(q, NULL, 10) != v : *q != 0) mc_fail("listing", "single instruction at %u: %s", off, one); } free(one);
      off += t->k ? 5 : 1; }
   if(!mc_case_failed() && (oi != nat || ns)) mc_fail("listing", "%d instructions missing", nat - oi);
   free(b); fclose(f);
}
static void run(int style, int full) {
   emit(style); uint8_t* buf = NULL; uint32_t size = 0; buzzdebug_t g = NULL; int r = buzz_asm(FN, &buf, &size, &g); mc_trans(nL); mc_states(1);
   if(bad) { if(!r) mc_fail("label", "accepted with an undefined or doubly defined label"); free(buf); if(g) buzzdebug_destroy(&g); return; }
   if(r) { mc_fail("refused", "status %d", r); free(buf); if(g) buzzdebug_destroy(&g); return; }
   if(size != nref || memcmp(buf, ref, nref)) { uint32_t k = 0; while(k < size && k < nref && buf[k] == ref[k]) ++k; mc_fail("image", "%u bytes, expected %u, differing at %u (%d, expected %d)", size, nref, k, k < size ? buf[k] : -1, k < nref ? ref[k] : -1); }
   else { checkdbg(g, "assembled"); uint8_t* ex = malloc(size); memcpy(ex, buf, size);
      if(full && !mc_case_failed()) { int d = buzz_deasm(ex, size, g, LN); if(d) mc_fail("disassembler", "status %d", d); else listing();
         buzzdebug_t h = buzzdebug_new(); if(!buzzdebug_tofile(DN, g) || !buzzdebug_fromfile(h, DN)) mc_fail("debug-file", "cannot be written and read"); else checkdbg(h, "read back"); buzzdebug_destroy(&h); }
      free(ex); }
   mc_traces(1); free(buf); buzzdebug_destroy(&g);
}
static const pos_t D1 = { 3, 7, "dir/f.bzz" }, D2 = { 3, 8, "dir/f.bzz" }, D3 = { 12345678901ull, 0, "dir/g, h.bzz" };
static void layouts(int n) {
   static const char* LB[] = { "@a", "@ab", "@__exitpoint" }; int total = 1; for(int i = 0; i < n; ++i) total *= 9;
   for(int c = 0; c < total; ++c) { int v = c, defs[3] = { 0 }, ok = 1; nL = 0;
      for(int i = 0; i < n; ++i, v /= 9) { int k = v % 9; if(k < 3 && defs[k]++ > 1) { ok = 0; break; }
         if(k < 3) lab(LB[k], i & 1 ? &D1 : NULL); else if(k == 3) op(opn("nop"), 0, 0, 0, NULL); else if(k == 4) op(opn("pushi"), 7, 0, 0, &D1); else if(k == 5) op(opn("jump"), 0, 0, LB[0], &D2); else if(k == 6) op(opn("jumpz"), 0, 0, LB[1], NULL); else if(k == 7) op(opn("pushcn"), 0, 0, LB[0], &D3); else op(opn("pushl"), 0, 0, LB[2], &D1); }
      if(!ok || !mc_next()) continue; op(opn("done"), 0, 0, 0, NULL); emit(0); mc_desc("program %.300s", text.s); run(0, n < 5 || c % 3 == 0); }
}
static void positions(int n) {
   static const pos_t* D[] = { NULL, &D1, &D2, &D3 }; int total = 1; for(int i = 0; i < n; ++i) total *= 12;
   for(int c = 0; c < total; ++c) { int v = c, defs = 0, ok = 1; nL = 0; for(int i = 0; i < n; ++i, v /= 12) { int k = v % 12; const pos_t* d = D[k / 3]; if(k % 3 == 0) { if(defs++) { ok = 0; break; } lab("@x", d); } else if(k % 3 == 1) op(opn("add"), 0, 0, 0, d); else op(opn("pushs"), i, 0, 0, d); }
      if(!ok || !mc_next()) continue; op(opn("done"), 0, 0, 0, &D2); emit(0); mc_desc("program %.300s", text.s); run(c % 2, 1); }
}
static const int32_t IV[] = { 0, 1, -1, 2, 9, 10, 99, 100, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 16777215, 16777216, 1000000000, INT_MAX - 1, INT_MAX, INT_MIN, INT_MIN + 1 };
static void operands(void) {
   for(int i = 0; i < NIN; ++i) for(int st = 0; st < 3; ++st) for(int k = 0; k < (IN[i].k == 'i' ? 25 : 1); ++k) { if(!MC_CASE("instruction %s with operand %d in style %d", IN[i].n, IV[k], st)) continue;
      nL = 0; str("x"); lab("@s", NULL); op(i, IV[k], 1.5f, IN[i].k == 'l' ? "@e" : NULL, &D1); op(i, IV[k], -0.25f, IN[i].k == 'l' ? "@s" : NULL, NULL); lab("@e", NULL); op(opn("done"), 0, 0, 0, NULL); run(st, 1); }
   for(int e = 0; e < 256; ++e) { if(!MC_CASE("floats of exponent %d", e)) continue; static const uint32_t M[] = { 0, 1, 2, 0x400000, 0x7fffff, 0x7ffffe, 0x2aaaaa, 0x555555, 0x123456 };
      nL = 0; for(int s = 0; s < 2; ++s) for(int k = 0; k < 9; ++k) { uint32_t u = ((uint32_t)s << 31) | ((uint32_t)e << 23) | M[k]; float f; memcpy(&f, &u, 4); if(f != f) continue; op(opn("pushf"), 0, f, NULL, k & 1 ? &D1 : NULL); } op(opn("done"), 0, 0, 0, NULL); run(0, 1); }
}
static void sizes(int hi) {   /* every kind of item at every distance from the growth sizes */
   for(int pad = 0; pad <= hi; ++pad) for(int k = 0; k < 5; ++k) { if(!(hi > 1000 ? pad % 97 == 0 || pad > hi - 20 : 1) || !MC_CASE("%d bytes before item %d", pad, k)) continue; nL = 0; char* s = NULL;
      if(k == 4) { s = malloc(pad + 1); memset(s, 'q', pad); s[pad] = 0; str(s); str("t"); } else for(int i = 0; i < pad; ++i) op(opn("nop"), 0, 0, 0, i % 50 == 49 ? &D1 : NULL);
      lab("@k", NULL); if(k == 0) op(opn("pushf"), 0, 2.5f, 0, 0); else if(k == 1) op(opn("pushi"), 0x01020304, 0, 0, 0); else if(k == 2) op(opn("jump"), 0, 0, "@k", 0); else op(opn("dup"), 0, 0, 0, 0);
      op(opn("done"), 0, 0, 0, &D2); run(0, 1); free(s); }
}
static void strings(int n) {
   static const char AL[] = "a'\\n\n |!@#\t\""; int na = strlen(AL); long total = 0, p = 1; for(int i = 0; i <= n; ++i) { total += p; p *= na; }
   for(long c = 0; c < total; ++c) { if(!mc_next()) continue; char s[8]; long i = c, q = 1; int l = 0; while(i >= q) { i -= q; q *= na; ++l; } for(int k = 0; k < l; ++k) { s[k] = AL[i % na]; i /= na; } s[l] = 0;
      nL = 0; str("first"); str(s); str("last"); op(opn("pushs"), 1, 0, 0, &D1); op(opn("done"), 0, 0, 0, 0); emit(0); mc_desc("string constant of program %s", text.s); run(0, 1); }
   for(int m = 0; m <= 700; m += m < 20 ? 1 : 171) { if(!MC_CASE("%d strings", m)) continue; char (*b)[12] = calloc(m + 1, 12); nL = 0; for(int i = 0; i < m; ++i) { sprintf(b[i], "s%d", i * 7); str(b[i]); } op(opn("done"), 0, 0, 0, 0); run(0, 1); free(b); }
}
static void labels(int m) {   /* many labels, forward and backward references */
   for(int n = 1; n <= m; n = n < 12 ? n + 1 : n * 2) for(int dir = 0; dir < 3; ++dir) { if(!MC_CASE("%d labels referenced %s", n, dir == 0 ? "forward" : dir == 1 ? "backward" : "both ways")) continue;
      char (*b)[16] = calloc(n, 16); for(int i = 0; i < n; ++i) sprintf(b[i], "@__l%d", i); nL = 0;
      if(dir != 1) for(int i = 0; i < n; ++i) op(opn("jumpz"), 0, 0, b[n - 1 - i], i & 1 ? &D1 : 0); for(int i = 0; i < n; ++i) { lab(b[i], 0); for(int j = 0; j <= i % 3; ++j) op(opn(j ? "pushi" : "nop"), i, 0, 0, 0); }
      if(dir) for(int i = 0; i < n; ++i) op(opn("jumpnz"), 0, 0, b[(i * 7) % n], 0); op(opn("done"), 0, 0, 0, 0); run(0, 1); free(b); }
}
static void refused(void) {
   static const char* T[] = { "!0\n\tfoo\n\tdone\n", "!0\n\tadd1\n\tdone\n", "!0\n\tpush\n", "!0\n\tpushi\n", "!0\n\tpushi |1,2,f\n", "!0\n\tpushf\n", "!0\n\tjump\n", "!0\n\tjump \t|1,1,f\n", "!0\n\tpushcn @x\n\tdone\n", "!0\n@x\n\tjump @xx\n\tdone\n", "!0\n@xx\n\tjump @x\n\tdone\n", "!0\n\tjumpz @X\n@x\n\tdone\n", "!0\n\tADD\n", "!0\n\tpushl\n" };
   for(int i = 0; i < (int)(sizeof T / sizeof *T); ++i) { if(!MC_CASE("program %s", T[i])) continue; nL = 0; emit(0); FILE* f = fopen(FN, "w"); fputs(T[i], f); fclose(f); uint8_t* b = NULL; uint32_t n; buzzdebug_t g = NULL; if(buzz_asm(FN, &b, &n, &g) == 0) mc_fail("accepted", "an invalid program is assembled"); mc_traces(1); }
   if(MC_CASE("a program that does not exist")) { uint8_t* b; uint32_t n; buzzdebug_t g; if(buzz_asm("/nonexistent/x.basm", &b, &n, &g) == 0) mc_fail("accepted", "a missing file is assembled"); }
}
/* every truncation and single-byte change of an image */
static void images(int t) {
   for(int v = 0; v < 4; ++v) { nL = 0; if(v & 1) { str("ab"); str(""); str("c\\d"); } lab("@a", 0); op(opn("pushf"), 0, 1.25f, 0, &D1); op(opn("add"), 0, 0, 0, 0); op(opn("pushi"), -5, 0, 0, &D2); if(v & 2) { op(opn("jump"), 0, 0, "@a", &D3); op(opn("lremove"), 2, 0, 0, 0); } op(opn("done"), 0, 0, 0, 0); emit(0);
      uint32_t n = nref; uint8_t* img = malloc(n); memcpy(img, ref, n); uint8_t* okb = calloc(n + 1, 1); int ns = v & 1 ? 3 : 0; uint32_t o = 2; for(int i = 0; i < ns; ++i) o += strlen((char*)img + o) + 1; if(o <= n) okb[o] = 1; for(uint32_t i = o; i < n;) { i += img[i] >= BUZZVM_INSTR_PUSHF ? 5 : 1; okb[i] = 1; }
      buzzdebug_t g = buzzdebug_new();
      for(uint32_t c = 0; c <= n; ++c) { if(!MC_CASE("the first %u bytes of image %d", c, v)) continue; uint8_t* x = malloc(c ? c : 1); memcpy(x, img, c); if(c == 0) { free(x); x = malloc(1); }
         int r = buzz_deasm(x, c, g, LN); if((r == 0) != okb[c]) mc_fail("truncated", "status %d, expected %s", r, okb[c] ? "success" : "failure"); free(x); mc_traces(1); }
      if(MC_ASAN || t) for(uint32_t c = 0; c < n; ++c) { if(!MC_CASE("image %d with byte %u changed", v, c)) continue; for(int b = 0; b < 256; ++b) { uint8_t* x = malloc(n); memcpy(x, img, n); x[c] = b; buzz_deasm(x, n, g, LN); free(x); mc_traces(1); } }
      buzzdebug_destroy(&g); free(img); free(okb); }
}
/* the debug file: every map over small universes, every truncation */
static void dbgfiles(int n) {
   static char* big[4]; static pos_t P[10]; if(!big[0]) { static const int S[] = { 511, 512, 513, 65535 }; for(int i = 0; i < 4; ++i) { big[i] = malloc(S[i] + 1); memset(big[i], 'a' + i, S[i]); big[i][S[i]] = 0; } }
   const pos_t Q[10] = { { 0, 0, "" }, { 1, 0, "a" }, { 0, 1, "a" }, { 1, 1, "b" }, { 1, 11, "a:1" }, { 11, 1, "a" }, { UINT64_MAX, UINT64_MAX - 1, "a" }, { 1ull << 32, 5, "x y|z,w" }, { 5, 5, big[1] }, { 5, 5, big[3] } }; memcpy(P, Q, sizeof P);
   for(int len = 500; len < 530; ++len) { if(!MC_CASE("a source file name of %d characters", len)) continue; char* b = malloc(len + 1); memset(b, 'n', len); b[len] = 0; pos_t q = { 4, 5, b }; free(pm); pm = malloc(2 * sizeof *pm); npm = 1; pm[0].off = 3; pm[0].d = &q; pm[0].lab = 0;
      buzzdebug_t g = buzzdebug_new(), h = buzzdebug_new(); buzzdebug_info_set(g, 3, 4, 5, b); if(!buzzdebug_tofile(DN, g) || !buzzdebug_fromfile(h, DN)) mc_fail("debug-file", "cannot be written and read"); else checkdbg(h, "read back"); buzzdebug_destroy(&g); buzzdebug_destroy(&h); free(b); mc_traces(1); }
   static const int32_t O[] = { 0, 1, 100, 101, 200, INT_MAX }; int total = 1; for(int i = 0; i < n; ++i) total *= 60;
   for(int c = 0; c < total; ++c) { if(!mc_next()) continue; static pm_t pp[8]; int v = c; free(pm); pm = malloc(9 * sizeof *pm); npm = n; for(int i = 0; i < n; ++i, v /= 60) { pm[i].off = O[v % 6]; pm[i].d = &P[(v / 6) % 10]; pm[i].lab = 1; } (void)pp;
      mc_desc("debug entries %d:%.8s %d:%.8s %d:%.8s", pm[0].off, pm[0].d->f, n > 1 ? pm[1].off : -1, n > 1 ? pm[1].d->f : "", n > 2 ? pm[2].off : -1, n > 2 ? pm[2].d->f : "");
      if(!*FN) { int s = npm; emit(0); free(pm); mc_fail("harness", "%d", s); return; }
      buzzdebug_t g = buzzdebug_new(), h = buzzdebug_new(); for(int i = 0; i < n; ++i) buzzdebug_info_set(g, pm[i].off, pm[i].d->l, pm[i].d->c, pm[i].d->f); checkdbg(g, "set"); mc_trans(n);
      if(!buzzdebug_tofile(DN, g) || !buzzdebug_fromfile(h, DN)) mc_fail("debug-file", "cannot be written and read"); else checkdbg(h, "read back"); buzzdebug_destroy(&g); buzzdebug_destroy(&h); mc_traces(1); }
}
static void dbgtrunc(void) {
   nL = 0; emit(0); static const pos_t Q[3] = { { 1, 2, "file" }, { 3, 4, "a much longer name of a file" }, { 5, 6, "" } }; buzzdebug_t g = buzzdebug_new(); for(int i = 0; i < 3; ++i) buzzdebug_info_set(g, i * 10, Q[i].l, Q[i].c, Q[i].f);
   buzzdebug_tofile(DN, g); FILE* f = fopen(DN, "rb"); static uint8_t b[4096]; int n = fread(b, 1, sizeof b, f); fclose(f); buzzdebug_destroy(&g);
   for(int c = 0; c <= n; ++c) for(int k = 0; k < 2; ++k) { if(!MC_CASE("the first %d bytes of a debug file%s", c, k ? " followed by others" : "")) continue; f = fopen(DN, "wb"); fwrite(b, 1, c, f); if(k) { char ff[40]; memset(ff, 0xff, 40); fwrite(ff, 1, 40, f); } fclose(f);
      g = buzzdebug_new(); buzzdebug_fromfile(g, DN); int cnt = 0; for(int32_t o = 0; o <= 20; o += 10) { const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(g, &o); if(e) { cnt++; const pos_t* q = &Q[o / 10]; if(!k && ((*e)->line != q->l || (*e)->col != q->c || strcmp((*e)->fname, q->f))) mc_fail("debug-file", "entry at %d is %llu:%llu %s", o, (unsigned long long)(*e)->line, (unsigned long long)(*e)->col, (*e)->fname); } }
      if(!k && cnt != (int)buzzdebug_info_count(g)) mc_fail("debug-file", "%d unknown entries", (int)buzzdebug_info_count(g) - cnt); if(!k && c == n && cnt != 3) mc_fail("debug-file", "%d entries of 3", cnt); buzzdebug_destroy(&g); mc_traces(1); }
   if(MC_CASE("a debug file that does not exist")) { g = buzzdebug_new(); if(buzzdebug_fromfile(g, "/nonexistent/x.bdb")) mc_fail("debug-file", "a missing file is read"); if(!buzzdebug_info_isempty(g)) mc_fail("debug-file", "entries from a missing file"); if(buzzdebug_tofile("/nonexistent/x.bdb", g)) mc_fail("debug-file", "written to a missing directory"); buzzdebug_destroy(&g); }
   for(int m = 50; m <= 3000; m *= 3) for(int w = 4; w <= 5000; w *= 10) { if(!MC_CASE("%d debug entries, %d to a line", m, w)) continue; pos_t* Z = calloc(m, sizeof *Z); free(pm); pm = malloc((m + 1) * sizeof *pm); npm = 0; g = buzzdebug_new(); buzzdebug_t h = buzzdebug_new(); static const char* fn[] = { "a", "b", "c" };
      for(int i = 0; i < m; ++i) { Z[i].l = i / w; Z[i].c = i % w; Z[i].f = fn[(i / 7) % 3]; pm[npm].off = i * 5; pm[npm].d = &Z[i]; pm[npm++].lab = 0; buzzdebug_info_set(g, i * 5, Z[i].l, Z[i].c, Z[i].f); }
      checkdbg(g, "set"); buzzdebug_tofile(DN, g); buzzdebug_fromfile(h, DN); checkdbg(h, "read back"); buzzdebug_destroy(&g); buzzdebug_destroy(&h); free(Z); mc_traces(1); }
}
void mc_run(void) {
   int t = mc_thorough; nL = 0; emit(0); for(int n = 1; n <= (MC_ASAN ? t ? 4 : 3 : t ? 6 : 5); ++n) layouts(n); for(int n = 1; n <= (MC_ASAN ? 3 : t ? 5 : 4); ++n) positions(n);
   operands(); sizes(MC_ASAN ? 600 : 300); if(t && !MC_ASAN) sizes(20000); strings(MC_ASAN && !t ? 2 : t ? 4 : 3); labels(t ? 4096 : 512); refused(); images(t); dbgfiles(1); dbgfiles(2); if(!MC_ASAN || t) dbgfiles(3); dbgtrunc();
}
