#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

#define MAXW 64
#define DESC 16384
#define NNOTE 64
typedef struct {
   uint64_t cur;        /* case being executed +1; 0: none */
   uint64_t ran, states, trans, traces, crashes;
   int incomplete;
   char why[128];
   struct { char name[40]; uint64_t n; } note[NNOTE];
   char desc[DESC];
} shw_t;
static shw_t* sh;          /* [MAXW] */
static shw_t* me;
static uint64_t idx, resume_at, only = UINT64_MAX;
static int failfast, nw = 8, myw, tmo = 20, casefail, totfail;
static uint64_t maxcase = 0;
static FILE* vout;
static double budget = 0; static struct timespec t0;
int mc_thorough = 0;
const char* mc_tmp;
static char tmpbase[256], tmpdir[300];

static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
   return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9; }

static void arm(int s) {
   struct itimerval it = { {0,0}, {s,0} };
   setitimer(ITIMER_REAL, &it, NULL);
}
int mc_next(void) {
   uint64_t i = idx++;
   if(only != UINT64_MAX) { if(i != only) return 0; }
   else if((int)(i % nw) != myw || i < resume_at) return 0;
   if(totfail > 400 || sh[MAXW].cur) { mc_incomplete("stopped after violations"); me->cur = 0; exit(0); }
   if(budget > 0 && (i & 15) == (uint64_t)(myw & 15) && now_s() > budget) { mc_incomplete("time budget"); me->cur = 0; exit(0); }
   me->cur = i + 1; me->ran++; casefail = 0;
   arm(tmo);
   return 1;
}
void mc_timeout(int s) { tmo = s; arm(s); }
void mc_desc(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(me->desc, DESC, fmt, a); va_end(a); }
static void put_esc(FILE* f, const char* s) {
   for(; *s; ++s) {
      unsigned char c = *s;
      if(c == '\n') fputs("\\n", f); else if(c == '\t') fputs("\\t", f); else if(c == '\\') fputs("\\\\", f);
      else if(c < 32 || c > 126) fprintf(f, "\\x%02x", c); else fputc(c, f);
   }
}
void mc_fail(const char* key, const char* fmt, ...) {
   ++casefail; if(failfast) sh[MAXW].cur = 1;
   if(++totfail > 400) { return; }
   char buf[8192]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
   fprintf(vout, "V\t%s\t%llu\t", key, (unsigned long long)(me->cur - 1)); put_esc(vout, me->desc); fputc('\t', vout); put_esc(vout, buf); fputc('\n', vout);
   fflush(vout);
}
int mc_case_failed(void) { return casefail; }
void mc_states(uint64_t n) { me->states += n; }
void mc_trans(uint64_t n) { me->trans += n; }
void mc_traces(uint64_t n) { me->traces += n; }
static int nsample;
void mc_sample(const char* fmt, ...) {
   if(nsample >= 6) return;
   ++nsample;
   char buf[1500]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
   fprintf(vout, "S\t"); put_esc(vout, buf); fputc('\n', vout); fflush(vout);
}
void mc_incomplete(const char* why) { me->incomplete = 1; snprintf(me->why, sizeof me->why, "%s", why); }
void mc_note(const char* name, uint64_t n) {
   for(int i = 0; i < NNOTE; ++i) {
      if(!me->note[i].name[0]) snprintf(me->note[i].name, sizeof me->note[i].name, "%s", name);
      if(!strcmp(me->note[i].name, name)) { me->note[i].n += n; return; }
   }
}
void mcs_clear(mcs_t* m) { m->n = 0; if(m->s) m->s[0] = 0; }
void mcs_add(mcs_t* m, const char* fmt, ...) {
   va_list a; va_start(a, fmt); va_list b; va_copy(b, a);
   int k = vsnprintf(NULL, 0, fmt, a); va_end(a);
   if(m->n + k + 1 > m->cap) { m->cap = (m->n + k + 1) * 2; m->s = realloc(m->s, m->cap); }
   vsnprintf(m->s + m->n, k + 1, fmt, b); va_end(b);
   m->n += k;
}
void mcs_free(mcs_t* m) { free(m->s); m->s = NULL; m->n = m->cap = 0; }
uint64_t mc_hash(const void* d, size_t n) {
   const uint8_t* p = d; uint64_t h = 1469598103934665603ULL;
   for(size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ULL; }
   h ^= h >> 32; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
   return h ? h : 1;
}
int mcset_add(mcset_t* s, uint64_t h) {
   if(s->n * 2 >= s->cap) {
      size_t oc = s->cap; uint64_t* ot = s->t;
      s->cap = oc ? oc * 2 : 1024; s->t = calloc(s->cap, 8);
      for(size_t i = 0; i < oc; ++i) if(ot[i]) { size_t j = ot[i] & (s->cap - 1); while(s->t[j]) j = (j + 1) & (s->cap - 1); s->t[j] = ot[i]; }
      free(ot);
   }
   size_t j = h & (s->cap - 1);
   while(s->t[j]) { if(s->t[j] == h) return 0; j = (j + 1) & (s->cap - 1); }
   s->t[j] = h; s->n++; return 1;
}
void mcset_free(mcset_t* s) { free(s->t); s->t = NULL; s->cap = s->n = 0; }

static void rmtree(const char* d) {
   /* only ever called on directories this program made with mkdtemp */
   if(strncmp(d, tmpbase, strlen(tmpbase)) != 0 || !strstr(d, "/mc.")) return;
   char cmd[400]; snprintf(cmd, sizeof cmd, "rm -rf -- '%s'", d); if(system(cmd)) {}
}

static void worker(int w, uint64_t from) {
   myw = w; me = &sh[w]; resume_at = from; idx = 0;
   struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
   snprintf(tmpdir, sizeof tmpdir, "%s/w%d", tmpbase, w);
   mkdir(tmpdir, 0700); mc_tmp = tmpdir;
   char p[400];
   snprintf(p, sizeof p, "%s/err.%d", tmpbase, w);
   int fd = open(p, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
   dup2(fd, 2); close(fd);
   fd = open("/dev/null", O_RDWR); dup2(fd, 1); close(fd);
   nsample = from ? 6 : (w == 0 ? 0 : 5);
   mc_run();
   me->cur = 0;
   fflush(NULL);
   _exit(0);
}
static pid_t spawn(int w, uint64_t from) {
   fflush(NULL);
   pid_t p = fork();
   if(p == 0) worker(w, from);
   return p;
}
const char* __asan_default_options(void) {
   return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=0:print_summary=1:symbolize=1:quarantine_size_mb=16:malloc_context_size=6:fast_unwind_on_malloc=1:detect_odr_violation=0";
}
int main(int argc, char** argv) {
   const char* out = NULL;
   clock_gettime(CLOCK_MONOTONIC, &t0);
   for(int i = 1; i < argc; ++i) {
      if(!strcmp(argv[i], "--tier")) mc_thorough = !strcmp(argv[++i], "thorough");
      else if(!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
      else if(!strcmp(argv[i], "--out")) out = argv[++i];
      else if(!strcmp(argv[i], "--only")) only = strtoull(argv[++i], NULL, 10);
      else if(!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
   }
   if(only != UINT64_MAX) nw = 1;
   vout = out ? fopen(out, "w") : stdout;
   if(!vout) { perror(out); return 3; }
   setvbuf(vout, NULL, _IOFBF, 1 << 16);
   if(!out) { int d = dup(1); vout = fdopen(d, "w"); }
   else { fclose(vout); int d = open(out, O_WRONLY | O_APPEND | O_CREAT, 0600); vout = fdopen(d, "w"); }
   failfast = getenv("MC_FAILFAST") != NULL;   /* mutation runs: one violation is enough */
   sh = mmap(NULL, sizeof(shw_t) * (MAXW + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   strcpy(tmpbase, access("/dev/shm", W_OK) == 0 ? "/dev/shm/mc.XXXXXX" : "/tmp/mc.XXXXXX");
   if(!mkdtemp(tmpbase)) { perror("mkdtemp"); return 3; }
   pid_t pid[MAXW]; int live = 0;
   for(int w = 0; w < nw; ++w) { pid[w] = spawn(w, 0); ++live; }
   while(live > 0) {
      int st; pid_t p = wait(&st);
      if(p < 0) { if(errno == EINTR) continue; break; }
      int w; for(w = 0; w < nw; ++w) if(pid[w] == p) break;
      if(w == nw) continue;
      if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].cur == 0) { --live; continue; }
      /* crash, hang or premature exit inside case cur-1 */
      char pe[400]; snprintf(pe, sizeof pe, "%s/err.%d", tmpbase, w);
      char tail[6000] = ""; 
      FILE* f = fopen(pe, "r");
      if(f) { fseek(f, 0, SEEK_END); long n = ftell(f); 
         /* the sanitizer report starts with ==pid==ERROR: keep what follows it */
         long off = n > 200000 ? n - 200000 : 0; fseek(f, off, SEEK_SET);
         char* b = malloc(n - off + 1); size_t r = fread(b, 1, n - off, f); b[r] = 0; fclose(f);
         char* q = NULL; char* s = b; while((s = strstr(s, "ERROR: AddressSanitizer")) != NULL) { q = s; s += 5; }
         if(!q) { q = r > 600 ? b + r - 600 : b; }
         snprintf(tail, sizeof tail > 1500 ? 1500 : sizeof tail, "%s", q); free(b); }
      char how[64];
      if(WIFSIGNALED(st)) snprintf(how, sizeof how, WTERMSIG(st) == SIGALRM ? "hang" : "signal-%d", WTERMSIG(st));
      else if(WEXITSTATUS(st) == 77) snprintf(how, sizeof how, "memory-error");
      else snprintf(how, sizeof how, "exit-%d", WEXITSTATUS(st));
      fprintf(vout, "V\tcrash-%s\t%lld\t", how, (long long)sh[w].cur - 1); put_esc(vout, sh[w].desc); fputc('\t', vout); put_esc(vout, tail); fputc('\n', vout);
      fflush(vout);
      sh[w].crashes++; if(failfast) sh[MAXW].cur = 1;
      if(sh[w].cur == 0 || sh[w].crashes > 12 || (sh[w].crashes > 3 && now_s() > 150) || only != UINT64_MAX) { sh[w].incomplete = 1; strcpy(sh[w].why, "too many crashes"); --live; continue; }
      { FILE* t = fopen(pe, "w"); if(t) fclose(t); }
      pid[w] = spawn(w, sh[w].cur);
   }
   uint64_t ran = 0, st = 0, tr = 0, tc = 0; int inc = 0; const char* why = "";
   for(int w = 0; w < nw; ++w) { ran += sh[w].ran; st += sh[w].states; tr += sh[w].trans; tc += sh[w].traces; if(sh[w].incomplete) { inc = 1; why = sh[w].why; } }
   fprintf(vout, "T\tcases=%llu\tstates=%llu\ttransitions=%llu\ttraces=%llu\texhaustive=%d\twhy=%s\n", (unsigned long long)ran, (unsigned long long)st,
           (unsigned long long)tr, (unsigned long long)tc, !inc, why);
   for(int w = 0; w < nw; ++w) for(int i = 0; i < NNOTE && sh[w].note[i].name[0]; ++i)
      fprintf(vout, "N\t%s\t%llu\n", sh[w].note[i].name, (unsigned long long)sh[w].note[i].n);
   fprintf(vout, "E\n");
   fclose(vout);
   rmtree(tmpbase);
   return 0;
}
