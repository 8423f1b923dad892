/* P27: token stream of the real lexer against a reference lexer: types, values, positions, files;
 * values of literals through the whole compiler; inclusion and file lookup. */
#include "bz.h"
#include "rlex.h"
#include <unistd.h>
#include <limits.h>
#include <math.h>
#include <sys/stat.h>
const char* mc_name = "lex";
static char DIR[PATH_MAX];
static rlex_t L;
static char* diag; static size_t ndiag; static FILE* olderr; static FILE* memerr;
static void hush(void) { free(diag); diag = NULL; olderr = stderr; memerr = open_memstream(&diag, &ndiag); stderr = memerr; }
static void unhush(void) { stderr = olderr; fclose(memerr); }
static int hasval(int t) { return t == BUZZTOK_ID || t == BUZZTOK_CONST || t == BUZZTOK_STRING || t == BUZZTOK_LANDOR || t == BUZZTOK_ADDSUB || t == BUZZTOK_MULDIV || t == BUZZTOK_LRSHIFT || t == BUZZTOK_BANDOR || t == BUZZTOK_CMP; }
/* reads the file with the real lexer and compares with L; name: path given to the lexer */
static void compare(const char* name, const char* shown) {
   hush();
   buzzlex_t lex = buzzlex_new(name);
   if(!lex) { unhush(); mc_fail("cannot open", "the lexer cannot open %s: %s", name, diag); return; }
   int i = 0; char msg[600] = ""; const char* key = NULL;
   for(;; ++i) {
      buzztok_t k = buzzlex_nexttok(lex);
      if(k->type == BUZZTOK_EOF) {
         int done = buzzlex_done(lex);
         if(i < L.n) { key = "tokens missing"; snprintf(msg, sizeof msg, "the stream ends after %d tokens, expected %d", i, L.n); }
         else if(done == L.err) { key = "end of text"; snprintf(msg, sizeof msg, "the text is taken as %s", done ? "complete although it has a lexical error" : "erroneous although it is correct"); }
         buzzlex_destroytok(&k); break;
      }
      if(i >= L.n) { key = "extra token"; snprintf(msg, sizeof msg, "token %d of type %s (%s) at %d:%d is not in the text", i, buzztok_desc[k->type], k->value ? k->value : "", (int)k->line, (int)k->col); buzzlex_destroytok(&k); break; }
      rtok_t* r = &L.t[i];
      if((int)k->type != r->type || (hasval(r->type) && (!k->value || strcmp(k->value, r->val)))) { key = "token"; snprintf(msg, sizeof msg, "token %d is %s (%s), expected %s (%s)", i, buzztok_desc[k->type], k->value ? k->value : "", buzztok_desc[r->type], r->val); }
      else if((int)k->line != r->line || (int)k->col != r->col) { key = "position"; snprintf(msg, sizeof msg, "token %d (%s) is at %d:%d, expected %d:%d", i, buzztok_desc[k->type], (int)k->line, (int)k->col, r->line, r->col); }
      else if(!k->fname || strcmp(k->fname, rl_files[r->file].path)) { key = "file"; snprintf(msg, sizeof msg, "token %d (%s) is said to be in %s, expected %s", i, buzztok_desc[k->type], k->fname ? k->fname : "-", rl_files[r->file].path); }
      buzzlex_destroytok(&k);
      if(key) break;
   }
   if(lex) buzzlex_destroy(&lex);
   unhush();
   if(!key && L.err) {
      char w[PATH_MAX + 64]; int n = snprintf(w, sizeof w, "%s:%d:", rl_files[L.efile].path, L.eline); if(L.ecol >= 0) snprintf(w + n, sizeof w - n, "%d:", L.ecol);
      if(!strstr(diag ? diag : "", w)) { key = "diagnostic"; snprintf(msg, sizeof msg, "the lexical error is not reported at %s: %.200s", w, diag); }
   }
   if(key) mc_fail(key, "%s | in: %s", msg, shown);
   mc_traces(1);
}
static char SRC[PATH_MAX];
static void put(const char* path, const char* s, int n) { FILE* f = fopen(path, "w"); if(!f) { perror(path); exit(9); } fwrite(s, 1, n, f); fclose(f); }
static void check(const char* s, int n) {
   put(SRC, s, n);
   static char rp[PATH_MAX]; if(!rp[0] && !realpath(SRC, rp)) exit(9);
   rfile_t F = { rp, s, n }; rl_files = &F; rl_resolve = NULL;
   rlex(&L, 0); compare(SRC, s); rl_free(&L);
}
static char buf[65536];
static void chars(const char* al, int na, int n) {
   int pre = n > 2 ? n - 2 : 0; int c[16] = {0};
   for(;;) {
      if(mc_next()) {
         char d[16]; for(int i = 0; i < pre; ++i) d[i] = al[c[i]]; d[pre] = 0;
         mc_desc("all texts of %d characters (of %d) starting with: %s", n, na, d);
         int m = n - pre; long tot = 1; for(int i = 0; i < m; ++i) tot *= na;
         for(long v = 0; v < tot; ++v) { long q = v; for(int i = 0; i < pre; ++i) buf[i] = al[c[i]]; for(int i = 0; i < m; ++i) { buf[pre + i] = al[q % na]; q /= na; } buf[n] = 0; check(buf, n); }
      }
      int i = pre - 1; while(i >= 0 && ++c[i] == na) c[i--] = 0;
      if(i < 0) break;
   }
}
/* every pair and triple of tokens with every separator */
static const char* W[] = { "x", "_", "A9_z", "1", "10.25", "3.", ".5", "0", "'s'", "\"q\"", "\"it's\"", "'\\''", "\"\\\\\"", "'a\nb'", "var", "nil", "if", "else", "function", "return", "for", "while", "and", "or", "not",
   "vars", "ifx", "nilx", "andy", "include1", "includes", "xinclude", "i", "+", "-", "*", "/", "%", "^", "<<", ">>", "&", "|", "!", "{", "}", "(", ")", "[", "]", ";", ",", "=", ".", "==", "!=", "<", ">", "<=", ">=", "#", "\n", "@", "~", "$", ":", "?", "`", "\\" };
#define NW ((int)(sizeof W / sizeof *W))
static const char* SEP[] = { "", " ", "\t", "\r", "#c\n", "  # x = 'y' \n\t", "\n", "\r\n", " ; " };
static void adjacent(int three) {
   for(int a = 0; a < NW; ++a) for(int s = 0; s < 9; ++s) if(MC_CASE("token %s, separator %d, every other token%s", W[a], s, three ? " and a third" : ""))
      for(int b = 0; b < NW; ++b) {
         if(!three) { check(buf, sprintf(buf, "%s%s%s", W[a], SEP[s], W[b])); check(buf, sprintf(buf, "%s%s%s%s", SEP[s], W[a], W[b], SEP[s])); continue; }
         for(int c = 0; c < NW; ++c) { check(buf, sprintf(buf, "%s%s%s%s", W[a], SEP[s], W[b], W[c])); if(s) check(buf, sprintf(buf, "%s%s%s%s%s", W[a], W[b], SEP[s], W[c], SEP[(s * 5 + 1) % 9])); }
      }
}
/* value of a literal through compiler and VM */
static void literal(const char* lit, const char* want) {
   bz_prog_t P; char src[70000]; snprintf(src, sizeof src, "t(%s)\n", lit);
   hush(); int r = bz_compile(src, &P); unhush();
   if(r) { mc_fail("literal refused", "literal %s is refused: %s", lit, diag); return; }
   buzzvm_t vm = bz_vm(1, &P); mcs_clear(&bz_trace); bz_exec(vm, 1000);
   if(!bz_trace.s || strcmp(bz_trace.s, want)) mc_fail("literal value", "literal %s denotes %s, expected %s", lit, bz_trace.s ? bz_trace.s : "nothing", want);
   buzzvm_destroy(&vm); bz_prog_free(&P); mc_traces(1);
}
static void strings(int n) {
   static const char AL[] = "a\\nt\"'#\n |"; int na = sizeof AL - 1; long tot = 1; for(int i = 0; i < n; ++i) tot *= na;
   for(long v = 0; v < tot; v += 64) if(MC_CASE("string literals of %d characters from number %ld", n, v)) for(long w = v; w < v + 64 && w < tot; ++w) for(int q = 0; q < 2; ++q) {
      char body[16], lit[24], val[24], want[32]; long x = w; for(int i = 0; i < n; ++i) { body[i] = AL[x % na]; x /= na; } body[n] = 0;
      char Q = q ? '\'' : '"'; int k = 0, ok = 1;
      for(int i = 0; i < n && ok; ++i) {
         if(body[i] == Q) ok = 0;
         else if(body[i] == '\\') { if(++i >= n) ok = 0; else val[k++] = body[i] == 'n' ? '\n' : body[i] == 't' ? '\t' : body[i]; }
         else val[k++] = body[i];
      }
      if(!ok) continue;
      val[k] = 0; snprintf(lit, sizeof lit, "%c%s%c", Q, body, Q); snprintf(want, sizeof want, "'%s';", val); literal(lit, want);
   }
}
static void numbers(int n) {
   static const char AL[] = "0129."; long tot = 1; for(int i = 0; i < n; ++i) tot *= 5;
   for(long v = 0; v < tot; v += 64) if(MC_CASE("number literals of %d characters from number %ld", n, v)) for(long w = v; w < v + 64 && w < tot; ++w) {
      char lit[40]; long x = w; int dots = 0; for(int i = 0; i < n; ++i) { lit[i] = AL[x % 5]; x /= 5; dots += lit[i] == '.'; } lit[n] = 0;
      if(dots > 1 || lit[0] == '.') continue;
      for(int sg = 0; sg < 3; ++sg) {
         char l[48], want[64]; snprintf(l, sizeof l, "%s%s", sg == 0 ? "" : sg == 1 ? "-" : "+", lit);
         if(dots) { long double f = strtold(lit, NULL); if(sg == 1) f = -f; snprintf(want, sizeof want, "f%.9g;", (double)(float)f); }
         else { long long i = strtoll(lit, NULL, 10); if(sg == 1) i = -i; snprintf(want, sizeof want, "%lld;", i); }
         literal(l, want);
      }
   }
}
static void numlist(void) {
   for(int p = 0; p < 31; ++p) for(int d = -1; d <= 1; ++d) if(MC_CASE("literals around 2^%d%+d", p, d)) {
      char l[64], w[64]; long long v = (1LL << p) + d; if(v < 0) continue; snprintf(l, sizeof l, "%lld", v); snprintf(w, sizeof w, "%lld;", v); literal(l, w);
      snprintf(l, sizeof l, "-%lld", v); snprintf(w, sizeof w, "%lld;", -v); literal(l, w); }
   if(MC_CASE("largest and smallest integer literals")) { literal("2147483647", "2147483647;"); literal("-2147483648", "-2147483648;"); literal("0000000017", "17;"); }
   for(int e = -45; e <= 38; ++e) if(MC_CASE("float literals near 10^%d", e)) for(int m = 1; m < 10; ++m) {
      char l[160], w[64]; long double f = m * powl(10, e); snprintf(l, sizeof l, "%.60Lf", f); float g = strtof(l, NULL); if(isinf(g)) continue;
      snprintf(w, sizeof w, "f%.9g;", (double)g); literal(l, w); }
   for(int n = 1; n < 4000; n = n < 80 ? n + 1 : n * 2) if(MC_CASE("string literal of %d characters", n)) {
      char* l = malloc(n + 3); char* w = malloc(n + 4); memset(l, 'z', n + 3); l[0] = l[n+1] = '"'; l[n+2] = 0; memset(w, 'z', n + 4); w[0] = w[n+1] = '\''; w[n+2] = ';'; w[n+3] = 0; literal(l, w); free(l); free(w); }
   for(int n = 1; n < 4000; n = n < 80 ? n + 1 : n * 2) if(MC_CASE("identifier, comment and blanks of %d characters", n)) {
      int k = 0; for(int i = 0; i < n; ++i) buf[k++] = 'k'; buf[k++] = ' '; buf[k++] = '#'; for(int i = 0; i < n; ++i) buf[k++] = '"'; buf[k++] = '\n'; for(int i = 0; i < n; ++i) buf[k++] = i & 1 ? '\t' : ' '; buf[k++] = 'x'; for(int i = 0; i < n; ++i) buf[k++] = '\n'; buf[k++] = '1'; buf[k] = 0; check(buf, k); }
}
/* ---------- inclusion ---------- */
static rfile_t FS[16]; static char FP[16][PATH_MAX]; static char FD[16][4096]; static int NF;
static int by_name(const char* n) {   /* files a b c of the working directory, in any spelling */
   for(int i = 0; i < NF; ++i) { char b[64]; const char* base = strrchr(FP[i], '/') + 1;
      if(!strcmp(n, base)) return i;
      snprintf(b, sizeof b, "./%s", base); if(!strcmp(n, b)) return i;
      if(!strcmp(n, FP[i])) return i;
      snprintf(b, sizeof b, "l_%s", base); if(!strcmp(n, b)) return i; }   /* symbolic link */
   return -1;
}
static void graph(void) {
   for(int i = 0; i < NF; ++i) { put(FP[i], FD[i], strlen(FD[i])); FS[i].path = FP[i]; FS[i].data = FD[i]; FS[i].len = strlen(FD[i]); }
   rl_files = FS; rl_resolve = by_name; rlex(&L, 0);
   char sh[600]; snprintf(sh, sizeof sh, "a: %.150s / b: %.150s / c: %.150s", FD[0], NF > 1 ? FD[1] : "", NF > 2 ? FD[2] : ""); compare("a.bzz", sh); rl_free(&L);
}
static char CWD[PATH_MAX];
static void enter(void) { if(!getcwd(CWD, sizeof CWD) || chdir(DIR)) exit(9); unsetenv("BUZZ_INCLUDE_PATH"); }
static void leave(void) { unsetenv("BUZZ_INCLUDE_PATH"); if(chdir(CWD)) exit(9); }
static void setfiles(int n) { NF = n; for(int i = 0; i < 26; ++i) { char l[PATH_MAX]; snprintf(l, sizeof l, "%s/%c.bzz", DIR, (char)(97 + i)); unlink(l); } for(int i = 0; i < n; ++i) { char l[PATH_MAX], t[64]; snprintf(FP[i], PATH_MAX, "%s/%c.bzz", DIR, 'a' + i); put(FP[i], "", 0); snprintf(t, sizeof t, "%c.bzz", 'a' + i); snprintf(l, sizeof l, "%s/l_%s", DIR, t); unlink(l); if(symlink(t, l)) exit(9); } }
static const char* ITEM[] = { "x", "include 'a.bzz'", "include \"b.bzz\"", "include 'c.bzz'", "include './a.bzz'", "include 'l_b.bzz'", "# include 'c.bzz'" };
/* every inclusion graph: each of nf files has up to ni items out of no */
static void graphs(int nf, int ni, int no, const char* sep, int tail) {
   long per = 1, pw = 1; for(int i = 0; i < ni; ++i) { pw *= no; per += pw; }
   long tot = 1; for(int i = 0; i < nf; ++i) tot *= per;
   for(long v = 0; v < tot; v += 128) if(MC_CASE("inclusion graphs of %d files with up to %d of %d items from number %ld, separator %d", nf, ni, no, v, sep[0])) {
      enter(); setfiles(nf);
      for(long w = v; w < v + 128 && w < tot; ++w) {
         long x = w;
         for(int f = 0; f < nf; ++f) {
            long y = x % per; x /= per; int n = 0; long p = 1; while(y >= p) { y -= p; p *= no; ++n; }
            int k = 0; FD[f][0] = 0; for(int i = 0; i < n; ++i) { const char* it = ITEM[y % no]; char own[16]; if(it[0] == 'x') { snprintf(own, sizeof own, "%c%d", 'p' + f, i); it = own; } k += sprintf(FD[f] + k, "%s%s", i ? sep : "", it); y /= no; }
            if(tail) sprintf(FD[f] + k, "%sz", sep);
         }
         graph();
      }
      leave();
   }
}
/* files of one name in different directories */
static int by_dir(const char* n) { return !strcmp(n, "a.bzz") ? 0 : !strcmp(n, "s1/a.bzz") ? 1 : !strcmp(n, "s2/a.bzz") ? 2 : !strcmp(n, "s1/../s2/a.bzz") ? 2 : -1; }
static void samename(int ni) {
   static const char* I[] = { "x", "include 'a.bzz'", "include 's1/a.bzz'", "include 's2/a.bzz'", "include 's1/../s2/a.bzz'" };
   long per = 1, pw = 1; for(int i = 0; i < ni; ++i) { pw *= 5; per += pw; }
   for(long v = 0; v < per * per * per; v += 128) if(MC_CASE("inclusion graphs of 3 files of one name in 3 directories, up to %d items, from number %ld", ni, v)) {
      enter(); setfiles(0); mkdir("s1", 0755); mkdir("s2", 0755); snprintf(FP[0], PATH_MAX, "%s/a.bzz", DIR); snprintf(FP[1], PATH_MAX, "%s/s1/a.bzz", DIR); snprintf(FP[2], PATH_MAX, "%s/s2/a.bzz", DIR);
      for(long w = v; w < v + 128 && w < per * per * per; ++w) {
         long x = w;
         for(int f = 0; f < 3; ++f) { long y = x % per; x /= per; int n = 0, k = 0; long p = 1; while(y >= p) { y -= p; p *= 5; ++n; } FD[f][0] = 0; for(int i = 0; i < n; ++i) { k += sprintf(FD[f] + k, "%s\n", I[y % 5]); y /= 5; } }
         for(int i = 0; i < 3; ++i) { put(FP[i], FD[i], strlen(FD[i])); FS[i].path = FP[i]; FS[i].data = FD[i]; FS[i].len = strlen(FD[i]); }
         rl_files = FS; rl_resolve = by_dir; rlex(&L, 0); char sh[600]; snprintf(sh, sizeof sh, "a: %.150s / s1/a: %.150s / s2/a: %.150s", FD[0], FD[1], FD[2]); compare("a.bzz", sh); rl_free(&L);
      }
      leave();
   }
}
/* include directives well and badly formed */
static void directives(int n) {
   static const char* I[] = { "include", "'b.bzz'", "\"b.bzz\"", "'b.bzz\"", "b.bzz", "'none.bzz'", "''", "#", "\n", ";", "x", "includes", "xinclude", "includeb", "include'b.bzz'", "'" }; int ni = 16;
   long tot = 1; for(int i = 0; i < n; ++i) tot *= ni;
   for(int s = 0; s < 2; ++s) for(long v = 0; v < tot; v += 256) if(MC_CASE("%d parts of include directives from number %ld, separator %d", n, v, s)) {
      enter(); setfiles(2); strcpy(FD[1], "inb 'b'\nq");
      for(long w = v; w < v + 256 && w < tot; ++w) { long x = w; int k = 0; FD[0][0] = 0; for(int i = 0; i < n; ++i) { k += sprintf(FD[0] + k, "%s%s", i && !s ? " " : "", I[x % ni]); x /= ni; } graph(); }
      leave();
   }
}
/* deep chains, many inclusions, sizes */
static void chains(void) {
   for(int n = 1; n <= 26; ++n) for(int back = 0; back < 2; ++back) if(MC_CASE("chain of %d files%s", n > 15 ? 15 : n, back ? " closing a cycle" : "")) {
      int m = n > 15 ? 15 : n; enter(); setfiles(m); for(int i = 0; i < m; ++i) sprintf(FD[i], "b%d\n%s%c.bzz%s\ne%d", i, i + 1 < m || back ? "include '" : "# '", i + 1 < m ? 'a' + i + 1 : 'a' + n % m, "'", i); graph(); leave(); }
   for(int n = 0; n <= 300; n = n < 20 ? n + 1 : n * 2) if(MC_CASE("%d inclusions of one file", n)) {
      enter(); setfiles(2); int k = 0; FD[0][0] = 0; for(int i = 0; i < n && k < 4000; ++i) k += sprintf(FD[0] + k, "include 'b.bzz'%s", i & 1 ? "\n" : " "); strcpy(FD[1], "in b"); graph();
      memset(FD[1], '\n', n); FD[1][n] = 'w'; FD[1][n+1] = 0; strcpy(FD[0], "x include 'b.bzz' y\nz"); graph(); leave(); }
}
/* lookup: the file exists in any subset of 4 places, the include path is any sequence of up to 3 of 6 fields */
static void lookup(void) {
   static const char* FIELD[] = { "d1", "d2/", "", "nodir", "%s/d3", "." };
   static const char* NAME[] = { "f.bzz", "./f.bzz", "sub/f.bzz" };
   static const char* PLACE[] = { "", "d1/", "d2/", "d3/" };
   for(int inc = 0; inc < 2; ++inc) for(int nm = 0; nm < 3; ++nm) for(int sub = 0; sub < 16; ++sub) for(int len = -1; len <= 3; ++len) if(MC_CASE("lookup of %s%s, present in %d, include paths of %d fields", NAME[nm], inc ? " by include" : "", sub, len)) {
      enter(); mkdir("sub", 0755); mkdir("d1", 0755); mkdir("d2", 0755); mkdir("d3", 0755); mkdir("d1/sub", 0755); mkdir("d2/sub", 0755); mkdir("d3/sub", 0755);
      for(int p = 0; p < 4; ++p) { char path[PATH_MAX]; snprintf(path, sizeof path, "%s/%s%s", DIR, PLACE[p], NAME[nm] + (nm == 1 ? 2 : 0)); strcpy(FP[p + 1], path); sprintf(FD[p + 1], "here%d", p); unlink(path); if(sub >> p & 1) put(path, FD[p + 1], strlen(FD[p + 1]));
         FS[p + 1].path = FP[p + 1]; FS[p + 1].data = FD[p + 1]; FS[p + 1].len = strlen(FD[p + 1]); }
      snprintf(FP[0], PATH_MAX, "%s/main.bzz", DIR); sprintf(FD[0], "b include '%s' e", NAME[nm]); put(FP[0], FD[0], strlen(FD[0])); FS[0].path = FP[0]; FS[0].data = FD[0]; FS[0].len = strlen(FD[0]);
      int tot = 1; for(int i = 0; i < len; ++i) tot *= 6;
      for(int v = 0; v < tot; ++v) {
         char ip[PATH_MAX] = ""; int x = v, k = 0, found = sub & 1 ? 0 : -1;
         for(int i = 0; i < len; ++i) {
            int f = x % 6; x /= 6; if(i) ip[k++] = ':'; k += sprintf(ip + k, FIELD[f], DIR);
            int place = f == 0 ? 1 : f == 1 ? 2 : f == 4 ? 3 : f == 5 ? 0 : -1;
            if(found < 0 && place >= 0 && (sub >> place & 1)) found = place;
         }
         if(len < 0) unsetenv("BUZZ_INCLUDE_PATH"); else setenv("BUZZ_INCLUDE_PATH", ip, 1);
         rl_files = FS; char sh[PATH_MAX]; snprintf(sh, sizeof sh, "%s with path %s", NAME[nm], ip);
         if(!inc) {
            if(found >= 0) { rl_resolve = NULL; rlex(&L, found + 1); compare(NAME[nm], sh); rl_free(&L); }
            else { hush(); buzzlex_t l = buzzlex_new(NAME[nm]); unhush(); mc_traces(1); if(l) { mc_fail("found", "a file that is not there is read: %s", sh); buzzlex_destroy(&l); } else if(!ndiag) mc_fail("no diagnostic", "no diagnostic for a missing file: %s", sh); }
         }
         else {
            /* the reference resolver answers with the place found */
            L.n = 0; L.err = 0; rl_add(&L, BUZZTOK_ID, "b", 1, 1, 0, 0);
            if(found >= 0) { int st[8] = { 0, found + 1 }; rl_scan(&L, found + 1, st, 2); int col = strlen(FD[0]) - 1; rl_add(&L, BUZZTOK_ID, "e", 1, 1, col, 0); rl_add(&L, BUZZTOK_STATEND, "\n", 1, 1, col + 1, 0); }
            else rl_error(&L, 1, -1, 0);
            compare("main.bzz", sh); rl_free(&L);
         }
      }
      leave();
   }
}
void mc_run(void) {
   int t = mc_thorough;
   if(!realpath(mc_tmp, DIR)) exit(9);
   snprintf(SRC, sizeof SRC, "%s/text.bzz", mc_tmp);
   static const char A[] = "aZ_19.\"'\\n#=!<>-&{ \n\t\r;@\xe9"; static char all[255]; for(int i = 0; i < 255; ++i) all[i] = i + 1;
   for(int n = 0; n <= (MC_ASAN ? 3 : t ? 5 : 4); ++n) chars(A, sizeof A - 1, n);
   static const char B[] = "a\"'\\n\n#"; for(int n = 5; n <= (MC_ASAN ? 4 : t ? 8 : 7); ++n) chars(B, sizeof B - 1, n);
   chars(all, 255, 1); chars(all, 255, 2);
   adjacent(0); if(!MC_ASAN || t) adjacent(1);
   for(int n = 0; n <= (MC_ASAN ? 2 : t ? 5 : 4); ++n) strings(n);
   for(int n = 1; n <= (MC_ASAN ? 3 : t ? 7 : 5); ++n) numbers(n);
   numlist();
   graphs(2, 3, 3, "\n", 0); graphs(2, 2, 7, " ", 1); graphs(3, 2, MC_ASAN ? 3 : 4, "\n", 1); if(!MC_ASAN) graphs(3, 2, 4, " ; ", 0); if(t) { graphs(3, 2, 7, "\n", 1); graphs(3, 3, 4, " ", 0); }
   for(int n = 1; n <= (MC_ASAN ? 3 : t ? 5 : 4); ++n) directives(n);
   chains(); lookup(); samename(MC_ASAN && !t ? 1 : 2);
}
