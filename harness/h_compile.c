/* P21: the compiler accepts exactly the programs of the language and rejects every other text with a
 * diagnostic naming the file and the position of the first token that cannot continue a program. */
#include "bz.h"
#include "rlex.h"
#include <unistd.h>
#include <limits.h>
const char* mc_name = "compile";
static char SRC[PATH_MAX], RSRC[PATH_MAX];
static rlex_t L; static rpar_t RP;
static char* diag; static size_t ndiag;
/* compiles the text with the real compiler; diagnostics in diag */
static int compile(const char* s, int n, bz_prog_t* P) {
   FILE* f = fopen(SRC, "w"); fwrite(s, 1, n, f); fclose(f);
   if(!RSRC[0] && !realpath(SRC, RSRC)) exit(9);
   free(diag); diag = NULL;
   FILE* old = stderr; FILE* m = open_memstream(&diag, &ndiag);
   stderr = m; int r = bz_compile_file(SRC, P); stderr = old;
   fclose(m); return r;
}
static int names(const char* where) {
   char a[PATH_MAX + 64], b[PATH_MAX + 64]; snprintf(a, sizeof a, "%s:%s", SRC, where); snprintf(b, sizeof b, "%s:%s", RSRC, where);
   return strstr(diag, a) || strstr(diag, b);
}
static void check(const char* s, int n) {
   rfile_t F = { "main", s, n }; rl_files = &F;
   rlex(&L, 0);
   int ok = rparse(&RP, &L), bad = ok ? L.n : RP.bad; if(L.err) ok = 0;
   bz_prog_t P; int r = compile(s, n, &P);
   mc_traces(1);
   if(ok && r) mc_fail("rejected", "a valid program is refused (status %d): %s | %.300s", r, s, diag);
   else if(ok) {
      buzzvm_t vm = buzzvm_new(1);
      if(buzzvm_set_bcode(vm, P.code, P.size) != BUZZVM_STATE_READY) mc_fail("does not load", "the image of an accepted program is refused: %s", s);
      buzzvm_destroy(&vm); mc_note("accepted", 1);
   }
   else {
      mc_note("rejected", 1);
      if(r == 0) mc_fail("accepted", "a text that is not a program is accepted: %s", s);
      else {
         char w[64] = "";
         if(bad < L.n) snprintf(w, sizeof w, "%d:%d:", L.t[bad].line, L.t[bad].col);
         else if(L.err && L.ecol >= 0) snprintf(w, sizeof w, "%d:%d:", L.eline, L.ecol);
         else if(L.err) snprintf(w, sizeof w, "%d:", L.eline);
         if(!ndiag) mc_fail("no diagnostic", "rejected without a diagnostic: %s", s);
         else if(!names(w)) mc_fail("wrong position", "the diagnostic does not name the offending position (expected %s): %s | %.300s", w[0] ? w : "the file", s, diag);
      }
   }
   if(r == 0) bz_prog_free(&P);
   rl_free(&L);
}
static const char* TOK[] = { "x", "y", "1", "'s'", "var", "nil", "if", "else", "function", "return", "for", "while", "and", "not", "+", "*", "%", "^", "<<", "&", "!",
                             "{", "}", "(", ")", "[", "]", ";", ",", "=", ".", "==", "\n", "2.5", "self", "|", "or", "-", "/", ">>", "<", "!=", ">=" };
#define NTOK 32   /* first ones: one of each kind */
#define NALL ((int)(sizeof TOK / sizeof *TOK))
#define MAXS 256
static int S[MAXS];
static char buf[8192];
static int text(int n, const char* sep) { int k = 0; buf[0] = 0; for(int i = 0; i < n; ++i) k += sprintf(buf + k, "%s%s", i ? sep : "", TOK[S[i]]); return k; }
/* every sequence of n tokens: one case per prefix of n-2 */
static void sequences(int n) {
   int pre = n > 2 ? n - 2 : 0; for(int i = 0; i < pre; ++i) S[i] = 0;
   for(;;) {
      if(mc_next()) {
         text(pre, " "); mc_desc("all sequences of %d tokens starting with: %s", n, buf);
         int m = n - pre; long tot = 1; for(int i = 0; i < m; ++i) tot *= NTOK;
         for(long v = 0; v < tot; ++v) { long q = v; for(int i = 0; i < m; ++i) { S[pre + i] = q % NTOK; q /= NTOK; } check(buf, text(n, " ")); }
      }
      int i = pre - 1; while(i >= 0 && ++S[i] == NTOK) S[i--] = 0;
      if(i < 0) break;
   }
}
/* can the sequence be continued to a program? (it fails, if at all, only at its end) */
static int viable(int n) {
   int k = text(n, " "); rfile_t F = { "main", buf, k }; rl_files = &F; rlex(&L, 0);
   int r = rparse(&RP, &L) || RP.bad >= L.n - 1;     /* the last token is the newline at the end of the file */
   /* a bare return reads the end of line as the end of the statement: judged by its continuation */
   rl_free(&L); return r;
}
static const int* AL; static int NAL;
/* every viable prefix up to n tokens over the alphabet AL, each continued by every token of the language */
static void tree(int d, int n) {
   if(mc_next()) {
      text(d, " "); mc_desc("every continuation by a token of: %s", buf);
      for(int i = 0; i < NALL; ++i) { S[d] = i; check(buf, text(d + 1, " ")); }
   }
   if(d == n) return;
   for(int i = 0; i < NAL; ++i) { S[d] = AL[i]; if(viable(d + 1)) tree(d + 1, n); }
}
static int tokidx(const char* w) { for(int i = 0; i < NALL; ++i) if(!strcmp(TOK[i], w)) return i; fprintf(stderr, "no token %s\n", w); exit(9); }
static const char* PROG[] = {
   "var x = 1 ; var y", "function x ( ) { }", "function x ( y ) 's' { return y }", "function x ( y , self ) { return ; x = y }",
   "if ( x ) y ( )", "if ( x == 1 ) { y = 2.5 } else { y ( x ) }", "if ( x ) x = 1 else if ( y ) y = 1 else { }", "if ( not x and y or 1 ) { var x = 1 ; x ( ) }",
   "while ( x < 1 ) x = x + 1", "while ( 1 ) { x ( ) ; return }", "for ( x = 1 , x < 1 , x = x + 1 ) { y ( x ) }", "for ( x ( ) , x ( ) , x ( ) ) while ( x ) y ( )",
   "x = { . x = 1 , . y = 's' , . 1 = { } }", "x . y = 1", "x [ 1 ] = y [ 's' ] . x ( 1 ) [ 2.5 ]", "x . y ( 1 , 's' , nil )", "x ( ) ( ) . y ( )", "x [ y ( ) ] . x ( )",
   "x = function ( ) { }", "x = function ( y ) { return y }", "x ( function ( x , y ) { return function ( ) { var y2 } } )", "x = ( function ( ) { x ( ) } )",
   "x = - 1 + ( x * y ) / 1 % - x ^ ! y << 1 & x", "x = ( not ( x == y ) and 1 != nil or ! ! x )", "x = + y - - 1", "x = ! - ! x", "return", "return x == 1", "return not x ; y ( )",
   "{ }", "if ( x ) { { } }", "if ( x ) { function y ( ) { } }", "if ( x ) function y ( ) { }", "while ( x ) { var y ; var y }", "var x ; var x", "if ( x ) { var y } ; if ( x ) { var y }", "function x ( y ) { var y }",
   "function x ( ) { if ( x ) { var y ; if ( y ) { var y } } }", "x = function ( y ) { x = function ( ) { var y } }", "function x ( x , x ) { x ( x ) }", "if ( x ) { var self }", "var self ; self = 1",
   "if ( x ) { while ( y ) }", "x ( 1 ) = 2.5", "x = y = 1", "x = x == y", "x ( x = 1 )", "x ( { . x = 1 } , { } )", "x = { } + 1", "x [ { } ] = 1", "x [ x == 1 ] = 1", "x = ( 1 ) ( )", "'s' ( )", "else x ( )",
   "for ( var x = 1 , x , x ( ) ) y ( )", "for ( return , x , x ( ) ) y ( )", "for ( x = 1 , x , return y ) y ( )", "for ( x = 1 ; x ; x = 1 ) { }", "while ( x ) function y ( ) { }", "if ( return ) y ( )" };
static int T[MAXS], nT;
static void load(const char* p) {
   nT = 0; char* s = strdup(p); char* sv = NULL;
   for(char* w = strtok_r(s, " ", &sv); w; w = strtok_r(NULL, " ", &sv)) T[nT++] = strcmp(w, "y2") ? tokidx(w) : 1;
   free(s);
}
static void one(int* A, int n, const char* sep) { memcpy(S, A, n * sizeof(int)); check(buf, text(n, sep)); }
/* applies edit e (of nedits(n)) to A: deletion, replacement or insertion of one token, or exchange of two neighbors */
static int nedits(int n) { return n + n * NALL + (n + 1) * NALL + (n - 1); }
static int edit(const int* A, int n, int e, int* B) {
   if(e < n) { memcpy(B, A, e * sizeof(int)); memcpy(B + e, A + e + 1, (n - e - 1) * sizeof(int)); return n - 1; }
   e -= n; memcpy(B, A, n * sizeof(int));
   if(e < n * NALL) { B[e / NALL] = e % NALL; return n; }
   e -= n * NALL;
   if(e < (n + 1) * NALL) { int p = e / NALL; memcpy(B + p + 1, A + p, (n - p) * sizeof(int)); B[p] = e % NALL; return n + 1; }
   e -= (n + 1) * NALL; B[e] = A[e + 1]; B[e + 1] = A[e]; return n;
}
static void programs(int pairs) {
   static const char* SEP[] = { " ", "\n", " # c ) } \n", "\t;\r\n", "  " };
   for(unsigned p = 0; p < sizeof PROG / sizeof *PROG; ++p) {
      load(PROG[p]);
      for(int s = 0; s < 5; ++s) if(MC_CASE("layout %d of every truncation of: %s", s, PROG[p]))
         for(int a = 0; a <= nT; ++a) for(int b = a; b <= nT; ++b) one(T + a, b - a, SEP[s]);
      int ne = nedits(nT), B[MAXS], C[MAXS];
      for(int e = 0; e < ne; e += 64) if(MC_CASE("edits %d.. of: %s", e, PROG[p])) for(int i = e; i < e + 64 && i < ne; ++i) { int n = edit(T, nT, i, B); one(B, n, " "); one(B, n, "\n"); }
      if(pairs && nT <= pairs) for(int e = 0; e < ne; ++e) if(MC_CASE("edit %d and every other of: %s", e, PROG[p])) {
         int n = edit(T, nT, e, B); int nf = nedits(n); for(int i = 0; i < nf; ++i) one(C, edit(B, n, i, C), " "); }
   }
   /* every ordered pair of programs, on one line and on two */
   for(unsigned p = 0; p < sizeof PROG / sizeof *PROG; ++p) if(MC_CASE("every program after: %s", PROG[p])) for(unsigned q = 0; q < sizeof PROG / sizeof *PROG; ++q) {
      int B[MAXS], n; load(PROG[p]); n = nT; memcpy(B, T, n * sizeof(int)); load(PROG[q]); memcpy(B + n, T, nT * sizeof(int)); one(B, n + nT, " ");
      B[n] = tokidx(";"); memcpy(B + n + 1, T, nT * sizeof(int)); one(B, n + 1 + nT, " "); }
}
/* every string over a set of characters */
static void chars(const char* al, int na, int n) {
   int pre = n > 2 ? n - 2 : 0; int c[16] = {0};
   for(;;) {
      if(mc_next()) {
         char d[16]; for(int i = 0; i < pre; ++i) d[i] = al[c[i]]; d[pre] = 0;
         mc_desc("all texts of %d characters (of %d) starting with: %s", n, na, d);
         int m = n - pre; long tot = 1; for(int i = 0; i < m; ++i) tot *= na;
         for(long v = 0; v < tot; ++v) { long q = v; for(int i = 0; i < pre; ++i) buf[i] = al[c[i]]; for(int i = 0; i < m; ++i) { buf[pre + i] = al[q % na]; q /= na; } buf[n] = 0; check(buf, n); }
      }
      int i = pre - 1; while(i >= 0 && ++c[i] == na) c[i--] = 0;
      if(i < 0) break;
   }
}
/* one character changed, inserted or removed anywhere in a program text */
static void spoiled(void) {
   static const char* TXT[] = { "# c\nvar x = {.a = 'q\\'', .2 = \"z\"}\nfunction f(a, b) { 'doc'; if(a >= 1.5) { return a.b[1](2) } else return -b }\n", "x = f(1,2)\nwhile(x != nil and not (x << 2)) { x = x.y ; g(x, function(z) { return z }) }" };
   for(int p = 0; p < 2; ++p) { int n = strlen(TXT[p]); for(int i = 0; i <= n; ++i) if(MC_CASE("text %d spoiled at character %d", p, i)) for(int k = 0; k < 3; ++k) for(int c = 1; c < 256; ++c) {
      int m = i; memcpy(buf, TXT[p], i);
      if(k < 2) buf[m++] = c;
      int from = i + (k != 1); if(from > n) from = n;
      memcpy(buf + m, TXT[p] + from, n - from); m += n - from; buf[m] = 0; check(buf, m); if(k == 2) break; } }
}
/* large and deeply nested programs */
static void big(void) {
   static const int N[] = { 1, 2, 9, 10, 11, 63, 64, 65, 100, 255, 256, 257, 500 };
   char* s = malloc(400000);
   for(unsigned i = 0; i < sizeof N / sizeof *N; ++i) for(int k = 0; k < 12; ++k) for(int cut = 0; cut < 3; ++cut) if(MC_CASE("nesting kind %d, %d deep, variant %d", k, N[i], cut)) {
      static const char* O[] = { "(", "x(", "x[", "x = {.y=", "{.y=", "if(x){", "while(x){", "if(x)", "for(x=1,x,x=1){", "function(){x=", "!", "-" };
      static const char* M[] = { "1", "1", "1", "1", "1", "", "", "y()", "", "1", "1", "x" };
      static const char* E[] = { ")", ")", "]", "}", "}", "}", "}", "", "}", "}", "", "" };
      int n = N[i], m = 0; int limit = k == 9 && n > 60 ? 60 : n; n = limit; if(n > 60 && (k == 5 || k == 6 || k == 8)) n = 60;
      if(k == 0 || k == 1 || k == 2 || k == 4 || k == 9 || k == 10 || k == 11) m += sprintf(s + m, "x = ");
      if(k == 3) { m += sprintf(s + m, "x = {.y="); n = 1; }
      else for(int j = 0; j < n; ++j) m += sprintf(s + m, "%s", O[k]);
      m += sprintf(s + m, "%s", M[k]); for(int j = 0; j < n; ++j) m += sprintf(s + m, "%s", E[k]);
      if(cut == 1 && m) s[--m] = 0;
      if(cut == 2) m += sprintf(s + m, "%s", E[k][0] ? E[k] : ")");
      check(s, m); }
   for(int n = 0; n <= 2000; n = n < 40 ? n + 1 : n * 2) for(int k = 0; k < 5; ++k) if(MC_CASE("%d items of kind %d", n, k)) {
      static const char* I[] = { "x%d = %d\n", "function f%d(a) { return a }\n", "t('s%d')\n", "if(x%d) { var a = 1 }\n", "var x%d; # %d\n" }; int m = 0; s[0] = 0;
      for(int j = 0; j < n; ++j) m += sprintf(s + m, I[k], j, j);
      check(s, m); s[m++] = '}'; s[m] = 0; check(s, m); }
   free(s);
}
void mc_run(void) {
   snprintf(SRC, sizeof SRC, "%s/c.bzz", mc_tmp);
   int t = mc_thorough;
   for(int n = 0; n <= (MC_ASAN ? t ? 4 : 3 : t ? 5 : 4); ++n) sequences(n);
   static int al[MAXS]; NAL = 0;
   static const char* W[] = { "x", "1", "var", "if", "else", "function", "return", "(", ")", "{", "}", "=", ",", ".", ";" };
   for(unsigned i = 0; i < sizeof W / sizeof *W; ++i) al[NAL++] = tokidx(W[i]);
   AL = al; tree(0, MC_ASAN ? t ? 6 : 5 : t ? 8 : 7);
   static const char* W2[] = { "x", "'s'", "for", "while", "(", ")", "{", "}", "=", ",", ".", "[", "]", "-", "not", "==" }; NAL = 0;
   for(unsigned i = 0; i < sizeof W2 / sizeof *W2; ++i) al[NAL++] = tokidx(W2[i]);
   tree(0, MC_ASAN ? t ? 6 : 5 : t ? 8 : 7);
   programs(t ? MC_ASAN ? 8 : 24 : MC_ASAN ? 0 : 8);
   static const char A[] = "x1.\"'\\#=!<(){};, \n\r@_"; static char all[255]; for(int i = 0; i < 255; ++i) all[i] = i + 1;
   for(int n = 1; n <= (MC_ASAN ? 3 : t ? 5 : 4); ++n) chars(A, sizeof A - 1, n);
   chars(all, 255, 1); chars(all, 255, 2);
   spoiled(); big();
}
