/* Reference lexer and recogniser of the Buzz language, written from its description:
 * tokens by longest match, blanks and comments between them, newline and ';' end statements,
 * include replaces itself by the tokens of the named file unless that file is already being read. */
#ifndef RLEX_H
#define RLEX_H
#include "mc.h"
#include <buzz/buzzlex.h>
#define RL_MAXTOK 65536
typedef struct { int type; char* val; int line, col, file; } rtok_t;
typedef struct {
   rtok_t t[RL_MAXTOK]; int n;
   int err, eline, ecol, efile;       /* the text ends with a lexical error at that position */
} rlex_t;
typedef struct { const char* path; const char* data; int len; } rfile_t;   /* path: identity of the file */
/* file named so in an include, or -1 */
typedef int (*rresolve_t)(const char* name);
static rfile_t* rl_files; static rresolve_t rl_resolve;
static void rl_free(rlex_t* L) { for(int i = 0; i < L->n; ++i) free(L->t[i].val); L->n = 0; L->err = 0; }
static int rl_add(rlex_t* L, int type, const char* v, int n, int line, int col, int file) {
   if(L->n == RL_MAXTOK) { fprintf(stderr, "reference lexer overflow\n"); exit(9); }
   rtok_t* k = &L->t[L->n++];
   k->type = type; k->val = v ? strndup(v, n) : NULL; k->line = line; k->col = col; k->file = file;
   return 1;
}
static int rl_error(rlex_t* L, int line, int col, int file) { L->err = 1; L->eline = line; L->ecol = col; L->efile = file; return 0; }
static int rl_alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int rl_digit(unsigned char c) { return c >= '0' && c <= '9'; }
static int rl_idc(unsigned char c) { return rl_alpha(c) || rl_digit(c) || c == '_'; }
static int rl_scan(rlex_t* L, int file, int* stack, int depth) {
   static const struct { const char* w; int t; } KW[] = {
      { "var", BUZZTOK_VAR }, { "if", BUZZTOK_IF }, { "else", BUZZTOK_ELSE }, { "function", BUZZTOK_FUN }, { "return", BUZZTOK_RETURN },
      { "for", BUZZTOK_FOR }, { "while", BUZZTOK_WHILE }, { "and", BUZZTOK_LANDOR }, { "or", BUZZTOK_LANDOR }, { "not", BUZZTOK_LNOT }, { "nil", BUZZTOK_NIL } };
   static const struct { const char* w; int t; } OP[] = {   /* longest first */
      { "==", BUZZTOK_CMP }, { "!=", BUZZTOK_CMP }, { "<=", BUZZTOK_CMP }, { ">=", BUZZTOK_CMP }, { "<<", BUZZTOK_LRSHIFT }, { ">>", BUZZTOK_LRSHIFT },
      { "<", BUZZTOK_CMP }, { ">", BUZZTOK_CMP }, { "=", BUZZTOK_ASSIGN }, { "!", BUZZTOK_BNOT }, { "+", BUZZTOK_ADDSUB }, { "-", BUZZTOK_ADDSUB },
      { "*", BUZZTOK_MULDIV }, { "/", BUZZTOK_MULDIV }, { "%", BUZZTOK_MOD }, { "^", BUZZTOK_POW }, { "&", BUZZTOK_BANDOR }, { "|", BUZZTOK_BANDOR },
      { ";", BUZZTOK_STATEND }, { "\n", BUZZTOK_STATEND }, { "{", BUZZTOK_BLOCKOPEN }, { "}", BUZZTOK_BLOCKCLOSE }, { "(", BUZZTOK_PAROPEN }, { ")", BUZZTOK_PARCLOSE },
      { "[", BUZZTOK_IDXOPEN }, { "]", BUZZTOK_IDXCLOSE }, { ",", BUZZTOK_LISTSEP }, { ".", BUZZTOK_DOT } };
   /* every file ends with a newline */
   int n = rl_files[file].len + 1; char* b = malloc(n + 1); memcpy(b, rl_files[file].data, n - 1); b[n-1] = '\n'; b[n] = 0;
   int p = 0, line = 1, bol = 0, ok = 1;
   while(p < n && ok) {
      unsigned char c = b[p]; int col = p - bol, s = p;
      if(c == ' ' || c == '\t' || c == '\r') { ++p; continue; }
      if(c == '#') { while(b[p] != '\n') ++p; continue; }
      if(rl_digit(c)) {
         int dots = 0; while(rl_digit(b[p]) || b[p] == '.') dots += b[p++] == '.';
         ok = dots > 1 ? rl_error(L, line, col, file) : rl_add(L, BUZZTOK_CONST, b + s, p - s, line, col, file);
         continue;
      }
      if(rl_alpha(c)) {
         while(rl_idc(b[p])) ++p;
         if(p - s == 7 && !memcmp(b + s, "include", 7)) {
            while(b[p] == ' ' || b[p] == '\t' || b[p] == '\r') ++p;
            char q = b[p];
            if(q != '"' && q != '\'') { ok = rl_error(L, line, -1, file); continue; }
            int fs = ++p; while(b[p] != q && b[p] != '\n') ++p;
            if(b[p] == '\n') { ok = rl_error(L, line, -1, file); continue; }
            char* name = strndup(b + fs, p - fs); ++p;
            int f = rl_resolve ? rl_resolve(name) : -1; free(name);
            if(f < 0) { ok = rl_error(L, line, -1, file); continue; }
            int busy = 0; for(int i = 0; i < depth; ++i) busy |= !strcmp(rl_files[stack[i]].path, rl_files[f].path);
            if(!busy) { stack[depth] = f; ok = rl_scan(L, f, stack, depth + 1); }
            continue;
         }
         int t = BUZZTOK_ID;
         for(unsigned i = 0; i < sizeof KW / sizeof *KW; ++i) if((int)strlen(KW[i].w) == p - s && !memcmp(KW[i].w, b + s, p - s)) t = KW[i].t;
         ok = rl_add(L, t, b + s, p - s, line, col, file); continue;
      }
      if(c == '"' || c == '\'') {
         char* v = malloc(n); int vn = 0, l0 = line; ++p;
         while(p < n && b[p] != (char)c) {
            char ch = b[p];
            if(ch == '\\' && p + 1 < n) { ch = b[++p]; if(ch == '\n') { ++line; bol = p + 1; } ++p; v[vn++] = ch == 'n' ? '\n' : ch == 't' ? '\t' : ch; continue; }
            if(ch == '\n') { ++line; bol = p + 1; }
            v[vn++] = ch; ++p;
         }
         if(p >= n) ok = rl_error(L, l0, col, file); else { ++p; rl_add(L, BUZZTOK_STRING, v, vn, l0, col, file); }
         free(v); continue;
      }
      unsigned i; for(i = 0; i < sizeof OP / sizeof *OP; ++i) if(!strncmp(b + p, OP[i].w, strlen(OP[i].w))) break;
      if(i == sizeof OP / sizeof *OP || !c) { ok = rl_error(L, line, col, file); continue; }
      p += strlen(OP[i].w); rl_add(L, OP[i].t, OP[i].w, strlen(OP[i].w), line, col, file);
      if(c == '\n') { ++line; bol = p; }
   }
   free(b); return ok;
}
static void rlex(rlex_t* L, int file) { int st[64] = { file }; L->n = 0; L->err = 0; rl_scan(L, file, st, 1); }

/* ---------- recogniser ---------- */
typedef struct {
   rlex_t* L; int p;
   int bad;                            /* index of the offending token; L->n: end of the text */
   char loc[64][64][8]; int nloc[64], depth;    /* local names of each enclosing scope */
} rpar_t;
static int rp_t(rpar_t* P) { return P->p < P->L->n ? P->L->t[P->p].type : BUZZTOK_EOF; }
static int rp_no(rpar_t* P) { P->bad = P->p; return 0; }
static void rp_skip(rpar_t* P) { while(rp_t(P) == BUZZTOK_STATEND) ++P->p; }
static void rp_adv(rpar_t* P) { ++P->p; rp_skip(P); }
static int rp_want(rpar_t* P, int t) { if(rp_t(P) != t) return rp_no(P); rp_adv(P); return 1; }
static int rp_cond(rpar_t* P); static int rp_expr(rpar_t* P); static int rp_stat(rpar_t* P); static int rp_statlist(rpar_t* P); static int rp_operand(rpar_t* P);
static int rp_islocal(rpar_t* P, const char* n) { for(int d = 1; d <= P->depth; ++d) for(int i = 0; i < P->nloc[d]; ++i) if(!strcmp(P->loc[d][i], n)) return 1; return 0; }
static void rp_declare(rpar_t* P, const char* n) { if(P->depth) snprintf(P->loc[P->depth][P->nloc[P->depth]++], 8, "%s", n); }
static void rp_open(rpar_t* P) { P->nloc[++P->depth] = 0; rp_declare(P, "self"); }
static int rp_block(rpar_t* P, int scope) {
   if(!rp_want(P, BUZZTOK_BLOCKOPEN)) return 0;
   if(rp_t(P) == BUZZTOK_BLOCKCLOSE) { rp_adv(P); return 1; }
   if(scope) rp_open(P);
   if(!rp_statlist(P) || !rp_want(P, BUZZTOK_BLOCKCLOSE)) return 0;
   if(scope) --P->depth;
   return 1;
}
static int rp_body(rpar_t* P) { return rp_t(P) == BUZZTOK_BLOCKOPEN ? rp_block(P, 1) : rp_stat(P); }
static int rp_params(rpar_t* P) {
   if(!rp_want(P, BUZZTOK_PAROPEN)) return 0;
   rp_open(P);
   if(rp_t(P) != BUZZTOK_PARCLOSE) for(;;) {
      if(rp_t(P) != BUZZTOK_ID) return rp_no(P);
      rp_declare(P, P->L->t[P->p].val); rp_adv(P);
      if(rp_t(P) != BUZZTOK_LISTSEP) break;
      rp_adv(P);
   }
   return rp_want(P, BUZZTOK_PARCLOSE);
}
/* kind of the reference: 0 variable, 1 table element, 2 call */
static int rp_ref(rpar_t* P, int* kind) {
   if(!rp_want(P, BUZZTOK_ID)) return 0;
   *kind = 0;
   for(;;) switch(rp_t(P)) {
      case BUZZTOK_DOT: rp_adv(P); if(!rp_want(P, BUZZTOK_ID)) return 0; *kind = 1; break;
      case BUZZTOK_IDXOPEN: rp_adv(P); if(!rp_expr(P) || !rp_want(P, BUZZTOK_IDXCLOSE)) return 0; *kind = 1; break;
      case BUZZTOK_PAROPEN:
         rp_adv(P);
         if(rp_t(P) != BUZZTOK_PARCLOSE) for(;;) { if(!rp_cond(P)) return 0; if(rp_t(P) != BUZZTOK_LISTSEP) break; rp_adv(P); }
         if(!rp_want(P, BUZZTOK_PARCLOSE)) return 0;
         *kind = 2; break;
      default: return 1;
   }
}
static int rp_unary(rpar_t* P) { while(rp_t(P) == BUZZTOK_BNOT) rp_adv(P); return rp_operand(P); }
static int rp_operand(rpar_t* P) {
   int k;
   switch(rp_t(P)) {
      case BUZZTOK_FUN: rp_adv(P); if(!rp_params(P) || !rp_block(P, 0)) return 0; --P->depth; return 1;
      case BUZZTOK_NIL: case BUZZTOK_CONST: case BUZZTOK_STRING: rp_adv(P); return 1;
      case BUZZTOK_PAROPEN: rp_adv(P); return rp_cond(P) && rp_want(P, BUZZTOK_PARCLOSE);
      case BUZZTOK_ADDSUB: rp_adv(P); return rp_unary(P);
      default: return rp_ref(P, &k);
   }
}
static int rp_expr(rpar_t* P) {
   if(rp_t(P) == BUZZTOK_BLOCKOPEN) {
      rp_adv(P);
      if(rp_t(P) == BUZZTOK_BLOCKCLOSE) { rp_adv(P); return 1; }
      for(;;) {
         if(!rp_want(P, BUZZTOK_DOT)) return 0;
         if(rp_t(P) != BUZZTOK_ID && rp_t(P) != BUZZTOK_CONST) return rp_no(P);
         rp_adv(P);
         if(!rp_want(P, BUZZTOK_ASSIGN) || !rp_expr(P)) return 0;
         if(rp_t(P) != BUZZTOK_LISTSEP) break;
         rp_adv(P);
      }
      return rp_want(P, BUZZTOK_BLOCKCLOSE);
   }
   /* whatever their precedence, binary operators alternate with operands */
   for(;;) {
      if(!rp_unary(P)) return 0;
      int t = rp_t(P);
      if(t != BUZZTOK_ADDSUB && t != BUZZTOK_MULDIV && t != BUZZTOK_MOD && t != BUZZTOK_POW && t != BUZZTOK_LRSHIFT && t != BUZZTOK_BANDOR) return 1;
      rp_adv(P);
   }
}
static int rp_cond(rpar_t* P) {
   while(rp_t(P) == BUZZTOK_LNOT) rp_adv(P);
   for(;;) {
      if(!rp_expr(P)) return 0;
      if(rp_t(P) == BUZZTOK_CMP) { rp_adv(P); if(!rp_expr(P)) return 0; }
      if(rp_t(P) != BUZZTOK_LANDOR) return 1;
      rp_adv(P);
   }
}
static int rp_command(rpar_t* P) {
   if(rp_t(P) == BUZZTOK_RETURN) {
      ++P->p;
      if(rp_t(P) == BUZZTOK_STATEND) { rp_skip(P); return 1; }
      if(rp_t(P) == BUZZTOK_BLOCKCLOSE) return 1;
      return rp_cond(P);
   }
   int k; if(!rp_ref(P, &k)) return 0;
   if(rp_t(P) == BUZZTOK_ASSIGN) { if(k == 2) return rp_no(P); rp_adv(P); return rp_expr(P); }
   return k == 2 ? 1 : rp_no(P);
}
static int rp_stat(rpar_t* P) {
   switch(rp_t(P)) {
      case BUZZTOK_BLOCKCLOSE: return 1;
      case BUZZTOK_VAR:
         rp_adv(P);
         if(rp_t(P) != BUZZTOK_ID || rp_islocal(P, P->L->t[P->p].val)) return rp_no(P);
         rp_declare(P, P->L->t[P->p].val); rp_adv(P);
         if(rp_t(P) == BUZZTOK_ASSIGN) { rp_adv(P); return rp_expr(P); }
         return 1;
      case BUZZTOK_FUN:
         rp_adv(P); if(rp_t(P) != BUZZTOK_ID || P->depth) return rp_no(P);
         rp_adv(P); if(!rp_params(P)) return 0;
         if(rp_t(P) == BUZZTOK_STRING) rp_adv(P);
         if(!rp_block(P, 0)) return 0;
         --P->depth; return 1;
      case BUZZTOK_IF:
         rp_adv(P); if(!rp_want(P, BUZZTOK_PAROPEN) || !rp_cond(P) || !rp_want(P, BUZZTOK_PARCLOSE) || !rp_body(P)) return 0;
         if(rp_t(P) == BUZZTOK_ELSE) { rp_adv(P); return rp_body(P); }
         return 1;
      case BUZZTOK_FOR:
         rp_adv(P);
         return rp_want(P, BUZZTOK_PAROPEN) && rp_command(P) && rp_want(P, BUZZTOK_LISTSEP) && rp_cond(P) && rp_want(P, BUZZTOK_LISTSEP) && rp_command(P) && rp_want(P, BUZZTOK_PARCLOSE) && rp_body(P);
      case BUZZTOK_WHILE:
         rp_adv(P);
         return rp_want(P, BUZZTOK_PAROPEN) && rp_cond(P) && rp_want(P, BUZZTOK_PARCLOSE) && rp_body(P);
      default: return rp_command(P);
   }
}
static int rp_statlist(rpar_t* P) {
   do if(!rp_stat(P)) return 0; while(rp_t(P) != BUZZTOK_EOF && rp_t(P) != BUZZTOK_BLOCKCLOSE);
   return 1;
}
/* 1: the tokens form a program (disregarding L->err) */
static int rparse(rpar_t* P, rlex_t* L) {
   P->L = L; P->p = 0; P->bad = 0; P->depth = 0;
   rp_skip(P);
   if(rp_t(P) == BUZZTOK_EOF) return 1;
   if(!rp_statlist(P)) return 0;
   return rp_t(P) == BUZZTOK_EOF ? 1 : rp_no(P);
}
#endif
