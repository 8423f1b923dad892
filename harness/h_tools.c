/* P31: the command-line tools succeed exactly when they did their work: every combination of readable
 * and unreadable inputs and writable and unwritable outputs, and a failing write at every byte of every
 * output file (file-size limit), is run on the real programs. */
#include "bz.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
const char* mc_name = "tools";
#define main bzzparse_main
#include <buzz/buzzparse.c>
#undef main
#define main bzzasm_main
#include <buzz/buzzasm_main.c>
#undef main
#define main bzzdeasm_main
#include <buzz/buzzdeasm_main.c>
#undef main
#define main bzzrun_main
#define usage bzzrun_usage
#define print bzzrun_print
#include <buzz/buzzrun.c>
#undef main
#undef usage
#undef print
/* the harness started under the name of a tool is that tool */
__attribute__((constructor)) static void dispatch(int argc, char** argv) {
   const char* b = argc > 0 ? strrchr(argv[0], '/') : NULL; b = b ? b + 1 : argc > 0 ? argv[0] : "";
   if(!strcmp(b, "bzzparse")) exit(bzzparse_main(argc, argv));
   if(!strcmp(b, "bzzasm")) exit(bzzasm_main(argc, argv));
   if(!strcmp(b, "bzzdeasm")) exit(bzzdeasm_main(argc, argv));
   if(!strcmp(b, "bzzrun")) exit(bzzrun_main(argc, argv));
}
static char exe[512], dir[512], bin[600]; static const char* repo;
static char out[1 << 21], err[20000];
static const char* incpath;   /* BUZZ_INCLUDE_PATH of the tools */
/* runs argv in dir with files limited to lim bytes (-1: unlimited); exit code, or 1000 + signal */
static int run(char** argv, long lim) {
   int po[2], pe[2]; pipe(po); pipe(pe); mc_trans(1);
   fflush(NULL); pid_t p = fork();
   if(!p) {
      if(chdir(dir)) _exit(99);
      dup2(po[1], 1); dup2(pe[1], 2); for(int i = 3; i < 64; ++i) close(i); int n = open("/dev/null", O_RDONLY); dup2(n, 0); close(n);
      struct rlimit c = { 0, 0 }; setrlimit(RLIMIT_CORE, &c);
      if(lim >= 0) { struct rlimit r = { lim, lim }; setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN); }
      if(incpath) setenv("BUZZ_INCLUDE_PATH", incpath, 1); else unsetenv("BUZZ_INCLUDE_PATH");
      alarm(10);
      if(!strcmp(argv[0], "bzzc")) { char path[1200]; snprintf(path, sizeof path, "%s:/usr/local/bin:/usr/bin:/bin", bin); setenv("PATH", path, 1); char* a[24] = { "bash", NULL }; char s[700]; snprintf(s, sizeof s, "%s/bzzc", bin); a[1] = s; int i = 1; for(; argv[i]; ++i) a[i + 1] = argv[i]; a[i + 1] = NULL; execvp("bash", a); _exit(98); }
      execv(exe, argv); _exit(98);
   }
   close(po[1]); close(pe[1]); int no = 0, ne = 0, k;
   struct pollfd f[2] = { { po[0], POLLIN }, { pe[0], POLLIN } }; static char rest[4096];
   while(f[0].fd >= 0 || f[1].fd >= 0) {
      if(poll(f, 2, -1) < 0) { if(errno == EINTR) continue; break; }
      if(f[0].revents) { k = no < (int)sizeof out - 1 ? read(po[0], out + no, sizeof out - 1 - no) : read(po[0], rest, sizeof rest); if(k <= 0) f[0].fd = -1; else if(no < (int)sizeof out - 1) no += k; }
      if(f[1].revents) { k = ne < (int)sizeof err - 1 ? read(pe[0], err + ne, sizeof err - 1 - ne) : read(pe[0], rest, sizeof rest); if(k <= 0) f[1].fd = -1; else if(ne < (int)sizeof err - 1) ne += k; }
   }
   out[no] = err[ne] = 0; int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR);
   close(po[0]); close(pe[0]); mc_traces(1);
   return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
#define RUN(lim, ...) run((char*[]){ __VA_ARGS__, NULL }, lim)
static void pathof(char* o, const char* f) { if(f[0] == '/') strcpy(o, f); else sprintf(o, "%s/%s", dir, f); }
typedef struct { char* d; long n; } blob_t;
static blob_t slurp(const char* f) { blob_t b = { NULL, -1 }; char p[1200]; pathof(p, f); struct stat s; if(stat(p, &s) || !S_ISREG(s.st_mode)) return b; FILE* fd = fopen(p, "rb"); if(!fd) return b; b.d = calloc(1, s.st_size + 1); b.n = fread(b.d, 1, s.st_size, fd); fclose(fd); return b; }
static void spit(const char* f, const void* d, long n) { char p[1200]; pathof(p, f); FILE* fd = fopen(p, "wb"); if(!fd || (long)fwrite(d, 1, n, fd) != n) { fprintf(stderr, "cannot write %s\n", p); exit(9); } fclose(fd); }
static void rmrf(const char* d) { DIR* D = opendir(d); if(D) { struct dirent* e; while((e = readdir(D))) { if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[1200]; snprintf(p, sizeof p, "%s/%s", d, e->d_name); struct stat s; if(!lstat(p, &s) && S_ISDIR(s.st_mode)) rmrf(p); else unlink(p); } closedir(D); } rmdir(d); }
static int same(blob_t a, blob_t b) { return a.n == b.n && (a.n <= 0 || !memcmp(a.d, b.d, a.n)); }
/* programs with what they print and how they end */
typedef struct { const char* name; char* src; int kind; const char* log; const char* where; } prog_t;   /* kind 0: runs, 1: fails at run time, 2: does not compile */
#define NP 6
static prog_t G[NP]; static blob_t ASM[NP], BO[NP], BDB[NP];
static void mkprogs(void) {
   static int done = 0; if(done) return; done = 1;
   ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[l] = 0; repo = getenv("BUZZ_REPO"); if(!repo) repo = "/repo";
   snprintf(dir, sizeof dir, "%s/w", mc_tmp); snprintf(bin, sizeof bin, "%s/bin", mc_tmp); mkdir(bin, 0755);
   char p[1200]; snprintf(p, sizeof p, "%s/bzzparse", bin); symlink(exe, p); snprintf(p, sizeof p, "%s/bzzasm", bin); symlink(exe, p);
   /* the compiler driver, configured as cmake does */
   snprintf(p, sizeof p, "%s/src/utility/bzzc.in", repo); blob_t t = slurp(p); if(t.n < 0) { fprintf(stderr, "no %s\n", p); exit(9); }
   snprintf(p, sizeof p, "%s/bzzc", bin); FILE* f = fopen(p, "w"); for(char* c = t.d; *c; ++c) { if(*c == '@') { char* e = strchr(c + 1, '@'), *q = c + 1; while(e && q < e && (*q == '_' || (*q >= 'A' && *q <= 'Z'))) ++q; if(e && q == e && e > c + 1) { fputs("1", f); c = e; continue; } } fputc(*c, f); } fclose(f); chmod(p, 0755); free(t.d);
   mcs_t big = {0}, bl = {0}; for(int i = 0; i < 12; ++i) { mcs_add(&big, "function f%d(a, b) { var s%d = a + %d\n log('text %d ', s%d, b)\n return s%d }\nf%d(%d, 'x')\n", i, i, i, i, i, i, i, i * 3); mcs_add(&bl, "text %d %dx\n", i, i * 4); }
   prog_t q[NP] = {
      { "good", "log('hello ', 1, ' ', 2.5)\nx = nil\nlog(x, {}, \"it's\")\n", 0, "hello 1 2.500000\n[nil][table with 0 elems]it's\n", "" },
      { "big", big.s, 0, bl.s, "" },
      { "empty", "", 0, "", "" },
      { "fails", "log('a')\nx = 1\n  y = nil + x\nlog('b')\n", 1, "a\n", "fails.bzz:3:" },
      { "failsin", "function f(a) {\n  return -a\n}\nlog('k')\nf('s')\n", 1, "k\n", "failsin.bzz:2:" },
      { "bad", "x = = 1\n", 2, "", "bad.bzz" } };
   memcpy(G, q, sizeof G);
}
static void setup(void) {
   mkprogs(); rmrf(dir); mkdir(dir, 0755); char p[1200]; snprintf(p, sizeof p, "%s/isdir", dir); mkdir(p, 0755); snprintf(p, sizeof p, "%s/isdir/keep", dir); FILE* f = fopen(p, "w"); fclose(f);
   for(int i = 0; i < NP; ++i) { sprintf(p, "%s.bzz", G[i].name); spit(p, G[i].src, strlen(G[i].src)); }
   for(int i = 0; i < 5; ++i) {
      char a[40], b[40], c[40]; sprintf(p, "%s.bzz", G[i].name); sprintf(a, "%s.basm", G[i].name); sprintf(b, "%s.bo", G[i].name); sprintf(c, "%s.bdb", G[i].name);
      if(!ASM[i].d) {
         if(RUN(-1, "bzzparse", p, a)) mc_fail("parse", "bzzparse fails on %s: %s", p, err);
         if(RUN(-1, "bzzasm", a, b, c)) mc_fail("asm", "bzzasm fails on %s: %s", a, err);
         ASM[i] = slurp(a); BO[i] = slurp(b); BDB[i] = slurp(c); if(ASM[i].n <= 0 || BO[i].n <= 0 || BDB[i].n < 0) { mc_fail("output", "the tools leave no output for %s", p); _exit(7); }
      } else { spit(a, ASM[i].d, ASM[i].n); spit(b, BO[i].d, BO[i].n); spit(c, BDB[i].d, BDB[i].n); }
   }
   mcs_t junk = {0}; for(int i = 0; i < 3000; ++i) mcs_add(&junk, "old "); spit("old", junk.s, junk.n); mcs_free(&junk);
   spit("list", "zeta\nomega\nx\n", 13); spit("bad.basm", "!1\n'a\n\tfrobnicate 3\n", 21); spit("nolabel.basm", "!0\n\tjump @nowhere\n\tdone\n", 24);
   spit("zero.bo", "", 0);
}
/* inputs and outputs */
static char OUT[][16] = { "new", "old", "no/such", "isdir", "/dev/full" };
#define NOUT 5
static const char* IN[] = { "good", "big", "empty", "fails", "failsin", "bad", "missing" };
static void verdict(const char* what, int rc, int ok) {
   if(rc >= 1000) mc_fail("crash", "%s is killed by signal %d%s; stderr: %.200s", what, rc - 1000, rc - 1000 == SIGALRM ? " (does not end)" : "", err);
   else if(ok && rc) mc_fail("fails", "%s exits with %d: %.300s", what, rc, err);
   else if(!ok && !rc) mc_fail("claims success", "%s exits with 0 although it could not do its work; stderr: %.200s", what, err);
   else if(!ok && !err[0] && !out[0]) mc_fail("silent", "%s exits with %d and says nothing", what, rc);
}
static void must_be(const char* what, const char* f, blob_t want) { blob_t g = slurp(f); if(!same(g, want)) mc_fail("output", "%s: %s holds %ld bytes that are not the expected %ld", what, f, g.n, want.n); free(g.d); }
static void parse(void) {
   for(int i = 0; i < 7; ++i) for(int o = 0; o < NOUT; ++o) for(int l = 0; l < 3; ++l) if(MC_CASE("bzzparse %s to %s with %s string list", IN[i], OUT[o], l == 0 ? "no" : l == 1 ? "a" : "a missing")) {
      setup(); char in[40]; sprintf(in, "%s.bzz", IN[i]); int ok = i < 5 && o < 2 && l < 2, rc;
      if(l) rc = RUN(-1, "bzzparse", in, OUT[o], l == 1 ? "list" : "nolist"); else rc = RUN(-1, "bzzparse", in, OUT[o]);
      verdict("bzzparse", rc, ok);
      if(ok && !rc && !l) must_be("bzzparse", OUT[o], ASM[i]);
      if(ok && !rc && l) {   /* the listed strings come first, and the program does the same */
         blob_t b = slurp(OUT[o]); char* p = strchr(b.d, '\n'); if(!p || strncmp(p + 1, "'zeta\n'omega\n'x\n", 16)) mc_fail("string list", "the listed strings are not first: %.60s", b.d); free(b.d);
         if(RUN(-1, "bzzasm", OUT[o], "l.bo", "l.bdb")) mc_fail("string list", "bzzasm: %s", err);
         rc = RUN(-1, "bzzrun", "l.bo", "l.bdb"); if(rc != (G[i].kind == 1) || strncmp(out, G[i].log, strlen(G[i].log))) mc_fail("string list", "running gives %d and %s", rc, out);
      } }
   for(int i = 0; i < 5; ++i) { mkprogs(); for(long lim = 0; lim <= 12000; ++lim) {
      if(!mc_next()) continue; if(!ASM[i].d) { mc_desc("setting up"); setup(); } if(lim > ASM[i].n + 2) continue;
      mc_desc("bzzparse %s, at most %ld bytes can be written", IN[i], lim); setup(); char in[40]; sprintf(in, "%s.bzz", IN[i]);
      int rc = RUN(lim, "bzzparse", in, "new"); verdict("bzzparse", rc, lim >= ASM[i].n); if(!rc) must_be("bzzparse", "new", ASM[i]); } }
}
static void assemble(void) {
   static const char* A[] = { "good", "big", "empty", "fails", "failsin", "bad", "nolabel", "missing" };
   for(int i = 0; i < 8; ++i) for(int o = 0; o < NOUT; ++o) for(int d = 0; d < NOUT; ++d) if(MC_CASE("bzzasm %s to %s and %s", A[i], OUT[o], OUT[d])) {
      setup(); char in[40], of[40], df[40]; sprintf(in, "%s.basm", A[i]); strcpy(of, OUT[o]); strcpy(df, OUT[d]); if(o == d && o < 2) { strcpy(df, "new2"); }
      int ok = i < 5 && o < 2 && (d < 2 || (d == 4 && BDB[i].n == 0)), rc = RUN(-1, "bzzasm", in, of, df); verdict("bzzasm", rc, ok);
      if(!rc && ok) { must_be("bzzasm", of, BO[i]); if(d < 2) must_be("bzzasm", df, BDB[i]); } }
   for(int i = 0; i < 5; ++i) { mkprogs(); for(long lim = 0; lim <= 24000; ++lim) {
      if(!mc_next()) continue; if(!ASM[i].d) { mc_desc("setting up"); setup(); } long m = BO[i].n > BDB[i].n ? BO[i].n : BDB[i].n; if(lim > m + 2) continue;
      mc_desc("bzzasm %s, at most %ld bytes can be written to a file", A[i], lim); setup(); char in[40]; sprintf(in, "%s.basm", A[i]);
      int rc = RUN(lim, "bzzasm", in, "new", "new2"); verdict("bzzasm", rc, lim >= m); if(!rc) { must_be("bzzasm", "new", BO[i]); must_be("bzzasm", "new2", BDB[i]); } } }
}
static blob_t DE[5];
static void dedone(int i) { if(!DE[i].d) { char in[40], db[40]; sprintf(in, "%s.bo", G[i].name); sprintf(db, "%s.bdb", G[i].name); RUN(-1, "bzzdeasm", in, db, "de"); DE[i] = slurp("de"); if(DE[i].n <= 0) { mc_fail("output", "bzzdeasm leaves no output: %s", err); _exit(7); } char p[700]; sprintf(p, "%s/de", dir); unlink(p); } }
static void deassemble(void) {
   static const char* B[] = { "good", "big", "empty", "fails", "failsin", "zero", "missing", "isdir" };
   for(int i = 0; i < (MC_ASAN ? 7 : 8); ++i) for(int d = 0; d < 2; ++d) for(int o = 0; o < NOUT; ++o) if(MC_CASE("bzzdeasm %s with %s debug information to %s", B[i], d ? "missing" : "its", OUT[o])) {
      setup(); char in[40], db[40]; sprintf(in, i == 7 ? "%s" : "%s.bo", B[i]); sprintf(db, d || i > 4 ? "none.bdb" : "%s.bdb", B[i]);
      if(i < 5) dedone(i); int ok = i < 5 && o < 2, rc = RUN(-1, "bzzdeasm", in, db, OUT[o]);
      if(ok && d && rc && rc < 1000) continue;   /* without debug information it may refuse */
      verdict("bzzdeasm", rc, ok); if(ok && !rc && !d) must_be("bzzdeasm", OUT[o], DE[i]); }
   for(int i = 0; i < 5; ++i) { mkprogs(); for(long lim = 0; lim <= 24000; ++lim) {
      if(!mc_next()) continue; if(!DE[i].d) { mc_desc("setting up"); setup(); dedone(i); } if(lim > DE[i].n + 2) continue;
      mc_desc("bzzdeasm %s, at most %ld bytes can be written", B[i], lim); setup(); char in[40], db[40]; sprintf(in, "%s.bo", B[i]); sprintf(db, "%s.bdb", B[i]);
      int rc = RUN(lim, "bzzdeasm", in, db, "new"); verdict("bzzdeasm", rc, lim >= DE[i].n); if(!rc) must_be("bzzdeasm", "new", DE[i]); } }
}
static void running(void) {
   for(int i = 0; i < 5; ++i) for(int d = 0; d < 3; ++d) for(int t = 0; t < 2; ++t) if(MC_CASE("bzzrun %s%s with %s", t ? "--trace " : "", G[i].name ? G[i].name : IN[i], d == 0 ? "its debug information" : d == 1 ? "no debug file" : "empty debug information")) {
      setup(); char b[40], db[40]; sprintf(b, "%s.bo", G[i].name); sprintf(db, d == 0 ? "%s.bdb" : d == 1 ? "none.bdb" : "zero.bo", G[i].name);
      int rc = t ? RUN(-1, "bzzrun", "--trace", b, db) : RUN(-1, "bzzrun", b, db);
      if(rc != (G[i].kind == 1)) { mc_fail("status", "bzzrun exits with %d: %s", rc, err); continue; }
      char want[6000]; sprintf(want, "%s", G[i].log); if(!G[i].kind) sprintf(want + strlen(want), "%s: execution terminated correctly\n\n", b);
      if(!t && strcmp(out, want)) mc_fail("stdout", "bzzrun prints %s, expected %s", out, want);
      if(t) { char l[6000]; strcpy(l, G[i].log); char* at = out; for(char* w = strtok(l, "\n"); w; w = strtok(NULL, "\n")) { char* q = strstr(at, w); if(!q) { mc_fail("stdout", "the traced run does not print %s", w); break; } at = q; } if(!G[i].kind && !strstr(out, "execution terminated correctly")) mc_fail("stdout", "the traced run does not say that it ended"); }
      if(G[i].kind == 1) { if(!strstr(err, "terminated abnormally")) mc_fail("stderr", "bzzrun says %s", err); else if(d == 0 && !strstr(err, G[i].where)) mc_fail("stderr", "bzzrun does not say where: %s", err); else if(d && !strstr(err, "offset")) mc_fail("stderr", "bzzrun gives no offset: %s", err); } }
   static const char* B[] = { "missing.bo", "zero.bo", "isdir" };
   for(int i = 0; i < (MC_ASAN ? 2 : 3); ++i) for(int d = 0; d < 2; ++d) if(MC_CASE("bzzrun %s", B[i])) { setup(); int rc = RUN(-1, "bzzrun", (char*)B[i], d ? "none.bdb" : "good.bdb"); verdict("bzzrun", rc, 0); if(strstr(out, "correctly")) mc_fail("claims success", "bzzrun says %s", out); }
   for(int i = 0; i < 5; ++i) { mkprogs(); for(long n = 0; n <= 3000; ++n) {   /* every truncation: as the VM decides */
      if(!mc_next()) continue; if(!BO[i].d) { mc_desc("setting up"); setup(); } if(n >= BO[i].n || (i == 1 && n % (MC_ASAN ? 40 : 8))) continue; mc_desc("bzzrun on the first %ld bytes of %s", n, G[i].name); setup(); spit("cut.bo", BO[i].d, n);
      uint8_t* c = malloc(n + 1); memcpy(c, BO[i].d, n); buzzvm_t vm = buzzvm_new(1); buzzvm_set_bcode(vm, c, n);
      if(vm->state == BUZZVM_STATE_READY) { bz_reg(vm, "log", bz_tracef); mcs_clear(&bz_trace); bz_exec(vm, 100000); }
      int ok = vm->state == BUZZVM_STATE_DONE; buzzvm_destroy(&vm); free(c);
      verdict("bzzrun", RUN(-1, "bzzrun", "cut.bo", "good.bdb"), ok); } }
   for(int n = 0; n < 6; ++n) for(int t = 0; t < 4; ++t) if(MC_CASE("tool %d with %d arguments", t, n)) { setup(); static char* T[] = { "bzzparse", "bzzasm", "bzzdeasm", "bzzrun" }; static char* NM[] = { "n1", "n2", "n3", "n4", "n5", "n6" }; char* a[10] = { T[t] }; for(int i = 0; i < n; ++i) a[i + 1] = NM[i]; a[n + 1] = NULL; int rc = run(a, -1); if(rc >= 1000) mc_fail("crash", "killed by signal %d", rc - 1000); else if(!err[0]) mc_fail("silent", "says nothing"); }
   if(MC_CASE("bzzrun --wrong")) { setup(); verdict("bzzrun", RUN(-1, "bzzrun", "--wrong", "good.bo", "good.bdb"), 0); }
}
/* the compiler driver */
static int listing(mcs_t* o, const char* d, const char* pre) {
   struct dirent** e; int n = scandir(d, &e, NULL, alphasort); for(int i = 0; i < n; ++i) { if(e[i]->d_name[0] == '.') continue; char p[1200]; snprintf(p, sizeof p, "%s/%s", d, e[i]->d_name); struct stat s; lstat(p, &s); char q[600]; snprintf(q, sizeof q, "%s%s", pre, e[i]->d_name); if(S_ISDIR(s.st_mode)) { strcat(q, "/"); listing(o, p, q); } else mcs_add(o, "%s\n", q); } return n;
}
static int listed(const char* l, const char* f) { char k[600]; snprintf(k, sizeof k, "%s\n", f); const char* p = strstr(l, k); while(p && p != l && p[-1] != '\n') p = strstr(p + 1, k); return p != NULL; }
static void compiler(void) {
   static const char* N[] = { "s", "a b", "d.x/s", "s.v2", "sub/s", "two  spaces", "$HOME", "*" };
   static const char* SRC[] = { "log('hello ', 1)\nx = 2\n", "include 'inc.bzz'\nlog(k)\n", "x = = 2\n" };
   for(int n = 0; n < 8; ++n) for(int s = 0; s < 3; ++s) for(int o = 0; o < 16; ++o) for(int lo = 0; lo < 2; ++lo) for(int lim = -1; lim <= 1; ++lim) {
      if((lim >= 0 && (s || lo)) || (lo && !o) || (MC_ASAN && n > 1)) continue;
      if(!MC_CASE("bzzc %s.bzz, program %d, options%s%s%s%s%s%s", N[n], s, o & 1 ? " -b" : "", o & 2 ? " -d" : "", o & 4 ? " -a" : "", o & 8 ? " -I" : "", lo ? " in long form" : "", lim < 0 ? "" : lim ? ", writes fail after 60 bytes" : ", writes fail")) continue;
      mkprogs(); rmrf(dir); mkdir(dir, 0755); char p[1200]; static const char* SD[] = { "sub", "d.x", "lib", "out dir" }; for(int i = 0; i < 4; ++i) { sprintf(p, "%s/%s", dir, SD[i]); mkdir(p, 0755); }
      char bz[100], bo[100], bdb[100], as[100] = "the list.basm"; sprintf(bz, "%s.bzz", N[n]); spit(bz, SRC[s], strlen(SRC[s])); spit("lib/inc.bzz", "k = 'inc'\n", 10);
      sprintf(bo, o & 1 ? "out dir/my code" : "%s.bo", N[n]); sprintf(bdb, o & 2 ? "out dir/dbg.x" : "%s.bdb", N[n]);
      char* a[16] = { "bzzc" }; int k = 1; if(o & 1) { a[k++] = lo ? "--bytecode" : "-b"; a[k++] = bo; } if(o & 8) { a[k++] = lo ? "--include" : "-I"; a[k++] = "nowhere:lib"; } if(n & 1) a[k++] = bz; if(o & 2) { a[k++] = lo ? "--debug" : "-d"; a[k++] = bdb; } if(o & 4) { a[k++] = lo ? "--asm" : "-a"; a[k++] = as; } if(!(n & 1)) a[k++] = bz; a[k] = NULL;
      int rc = run(a, lim < 0 ? -1 : lim ? 60 : 0), ok = lim < 0 && (s == 0 || (s == 1 && (o & 8)));
      verdict("bzzc", rc, ok);
      mcs_t l = {0}; mcs_add(&l, "%s", ""); listing(&l, dir, ""); int want = 2 + (ok ? 2 : 0) + (o & 4 ? ok : 0), have = 0; for(char* c = l.s; *c; ++c) have += *c == '\n';
      if(ok && !rc) {
         if(!listed(l.s, bo) || !listed(l.s, bdb) || (o & 4 && !listed(l.s, as)) || have != want) mc_fail("files", "bzzc leaves the files\n%s", l.s);
         incpath = "lib"; int r = RUN(-1, "bzzparse", bz, "ref.basm"); incpath = NULL; if(r || RUN(-1, "bzzasm", "ref.basm", "ref.bo", "ref.bdb")) mc_fail("reference", "%s", err);
         blob_t b = slurp("ref.bo"), d = slurp("ref.bdb"), q = slurp("ref.basm"); must_be("bzzc", bo, b); if(!(o & 8)) { must_be("bzzc", bdb, d); if(o & 4) must_be("bzzc", as, q); } free(b.d); free(d.d); free(q.d);
         rc = RUN(-1, "bzzrun", bo, bdb); if(rc || strncmp(out, s ? "inc\n" : "hello 1\n", s ? 4 : 8)) mc_fail("bytecode", "running gives %d and %s", rc, out);
      }
      if(!ok) for(char* c = strtok(l.s, "\n"); c; c = strtok(NULL, "\n")) if(strcmp(c, bz) && strcmp(c, "lib/inc.bzz") && strcmp(c, bo) && strcmp(c, bdb) && !(o & 4 && !strcmp(c, as))) mc_fail("files", "a failed bzzc leaves the file %s", c);
      mcs_free(&l);
   }
   if(!MC_ASAN) {
      static const char* O[] = { "-b", "-d", "-a", "-I", "--bytecode", "--debug", "--asm", "--include" };
      for(int i = 0; i < 8; ++i) if(MC_CASE("bzzc s.bzz %s", O[i])) { setup(); verdict("bzzc", RUN(-1, "bzzc", "good.bzz", (char*)O[i]), 0); }
      if(MC_CASE("bzzc without script")) { setup(); verdict("bzzc", RUN(-1, "bzzc"), 0); }
      if(MC_CASE("bzzc with two scripts")) { setup(); verdict("bzzc", RUN(-1, "bzzc", "good.bzz", "big.bzz"), 0); }
      if(MC_CASE("bzzc with a missing script")) { setup(); verdict("bzzc", RUN(-1, "bzzc", "missing.bzz"), 0); }
      for(int i = 0; i < 4; ++i) if(MC_CASE("bzzc help and version %d", i)) { setup(); static const char* H[] = { "-h", "--help", "-v", "--version" }; int rc = RUN(-1, "bzzc", (char*)H[i]); verdict("bzzc", rc, 1); if(!out[0]) mc_fail("silent", "bzzc %s says nothing", H[i]); }
      /* include path: the environment's directories come before those of -I */
      for(int i = 0; i < 8; ++i) if(MC_CASE("bzzc include paths %d", i)) {
         setup(); char p[1200]; for(int d = 0; d < 3; ++d) { sprintf(p, "%s/p%d", dir, d); mkdir(p, 0755); if(i >> d & 1) { char f[60], t[60]; sprintf(f, "p%d/inc.bzz", d); sprintf(t, "k = 'p%d'\n", d); spit(f, t, strlen(t)); } }
         spit("s.bzz", SRC[1], strlen(SRC[1])); incpath = "p0"; int rc = RUN(-1, "bzzc", "-I", "p1", "-I", "p2", "s.bzz"); incpath = NULL; verdict("bzzc", rc, i != 0);
         if(!rc) { RUN(-1, "bzzrun", "s.bo", "s.bdb"); char w[16]; sprintf(w, "p%d\n", i & 1 ? 0 : i & 2 ? 1 : 2); if(strncmp(out, w, 3)) mc_fail("include path", "the included file is %.3s, expected %s", out, w); } }
   }
}
void mc_run(void) {
   mc_timeout(60);
   if(!MC_ASAN || mc_thorough) { parse(); assemble(); deassemble(); running(); compiler(); return; }
   running();
}
