/* P23: dynamic array, dictionary and set against mathematical sequence, map and set. */
#include "mc.h"
#include <buzz/buzzdarray.h>
#include <buzz/buzzdict.h>
#include <buzz/buzzset.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);
const char* mc_name = "containers";

/* ---------------------------------------------------------------- dynamic array */
#define MAXE 64
static int esz; static int nodstry;
static void mkel(uint8_t* e, int uid) { for(int i = 0; i < esz; ++i) e[i] = (uint8_t)(uid + i * 37); }
static int el_uid(const uint8_t* e) { for(int i = 1; i < esz; ++i) if(e[i] != (uint8_t)(e[0] + i * 37)) return -1; return e[0]; }
static int destroyed[256];
static void da_dstry(uint32_t pos, void* data, void* params) { int u = el_uid(data); if(u < 0) mc_fail("darray-destroy-garbage", "destroy callback on a value that was never stored"); else destroyed[u]++; }
static int da_cmp(const void* a, const void* b) { int x = *(uint8_t*)a, y = *(uint8_t*)b; return x < y ? -1 : x > y; }
static int seen_n; static uint8_t seen[4096]; static uint32_t seenpos[4096];
static void da_see(uint32_t pos, void* data, void* p) { if(seen_n < 4096) { seen[seen_n] = el_uid(data); seenpos[seen_n] = pos; } ++seen_n; if(p != (void*)seen) mc_fail("darray-foreach-params", "foreach lost its parameter"); }
static const uint8_t* da_raw(buzzdarray_t da, int i) { return (const uint8_t*)da->data + (size_t)i * esz; }

static int da_check(buzzdarray_t da, const uint8_t* m, int n, const char* when) {
   if(buzzdarray_size(da) != n) { mc_fail("darray-size", "%s: size %ld, expected %d", when, (long)buzzdarray_size(da), n); return 0; }
   if(buzzdarray_isempty(da) != (n == 0)) { mc_fail("darray-isempty", "%s", when); return 0; }
   if((int64_t)buzzdarray_capacity(da) < n) { mc_fail("darray-capacity", "%s: capacity %u < size %d", when, buzzdarray_capacity(da), n); return 0; }
   for(int i = 0; i < n; ++i) if(el_uid(da_raw(da, i)) != m[i]) { mc_fail("darray-content", "%s: element %d is %d, expected %d", when, i, el_uid(da_raw(da, i)), m[i]); return 0; }
   seen_n = 0; buzzdarray_foreach(da, da_see, seen);
   if(seen_n != n) { mc_fail("darray-foreach", "%s: visited %d of %d", when, seen_n, n); return 0; }
   for(int i = 0; i < n; ++i) if(seen[i] != m[i] || seenpos[i] != (uint32_t)i) { mc_fail("darray-foreach", "%s: visit %d wrong", when, i); return 0; }
   return 1;
}
/* operation codes: 0 push, 1 pop, 2 clear(1), 3 clear(5), 4 clone (continue on the clone), 5 sort, then
 * insert(0..n), remove(0..n) [n: past the end, no effect], set(0..n-1) */
static int da_nops(int n) { return 6 + (n + 1) + (n + 1) + n; }
static const char* da_opname(int op, int n, char* b) {
   if(op == 0) return "push"; if(op == 1) return "pop"; if(op == 2) return "clear1"; if(op == 3) return "clear5"; if(op == 4) return "clone"; if(op == 5) return "sort";
   op -= 6; if(op <= n) { sprintf(b, "ins%d", op); return b; } op -= n + 1; if(op <= n) { sprintf(b, "rem%d", op); return b; } op -= n + 1; sprintf(b, "set%d", op); return b;
}
typedef struct { buzzdarray_t da; uint8_t m[MAXE]; int n; int uid; int want[256]; } das_t;
static int da_apply(das_t* s, int op) {
   uint8_t e[64]; int n = s->n;
   if(op == 0) { mkel(e, s->uid); buzzdarray_push(s->da, e); s->m[s->n++] = s->uid++; }
   else if(op == 1) { if(n > 0) { s->want[s->m[n - 1]]++; --s->n; } buzzdarray_pop(s->da); }
   else if(op == 2 || op == 3) { for(int i = 0; i < n; ++i) s->want[s->m[i]]++; s->n = 0; buzzdarray_clear(s->da, op == 2 ? 1 : 5); }
   else if(op == 4) {
      buzzdarray_t c = buzzdarray_clone(s->da);
      if(!da_check(s->da, s->m, s->n, "original after clone")) return 0;
      /* mutating the clone does not touch the original */
      mkel(e, 250); if(n > 0) { buzzdarray_set(c, 0, e); if(!da_check(s->da, s->m, s->n, "original after writing the clone")) return 0; mkel(e, s->m[0]); buzzdarray_set(c, 0, e); }
      for(int i = 0; i < n; ++i) s->want[s->m[i]]++;
      buzzdarray_destroy(&s->da); if(s->da) mc_fail("darray-destroy-null", "handle not reset");
      s->da = c;
   }
   else if(op == 5) { buzzdarray_sort(s->da, da_cmp); for(int i = 1; i < n; ++i) for(int j = i; j > 0 && s->m[j - 1] > s->m[j]; --j) { uint8_t t = s->m[j]; s->m[j] = s->m[j - 1]; s->m[j - 1] = t; } }
   else if((op -= 6) <= n) { mkel(e, s->uid); buzzdarray_insert(s->da, op, e); memmove(s->m + op + 1, s->m + op, n - op); s->m[op] = s->uid++; s->n++; }
   else if((op -= n + 1) <= n) { buzzdarray_remove(s->da, op); if(op < n) { s->want[s->m[op]]++; memmove(s->m + op, s->m + op + 1, n - op - 1); s->n--; } }
   else { op -= n + 1; mkel(e, s->uid); buzzdarray_set(s->da, op, e); s->m[op] = s->uid++; }
   return 1;
}
static void da_case(int cap, const int* seq, int d, const char* how) {
   size_t mem0 = __sanitizer_get_current_allocated_bytes();
   das_t s; memset(&s, 0, sizeof s); memset(destroyed, 0, sizeof destroyed);
   s.da = buzzdarray_new(cap, esz, nodstry ? NULL : da_dstry);
   int ok = 1;
   for(int i = 0; ok && i < d; ++i) {
      ok = da_apply(&s, seq[i]) && da_check(s.da, s.m, s.n, how);
      mc_trans(1);
   }
   if(ok) {
      uint8_t e[64];
      for(int i = 0; i < s.n; ++i) { mkel(e, s.m[i]); uint32_t f = buzzdarray_find(s.da, da_cmp, e); if((int)f != i) { mc_fail("darray-find", "find of element %d gave %u", i, f); ok = 0; } }
      mkel(e, 251); if(buzzdarray_find(s.da, da_cmp, e) != s.n) { mc_fail("darray-find", "find of an absent element is not the size"); ok = 0; }
      if(s.n > 0) { const uint8_t* l = da_raw(s.da, s.n - 1); if(el_uid(l) != s.m[s.n - 1]) mc_fail("darray-last", "last"); }
   }
   for(int i = 0; i < s.n; ++i) s.want[s.m[i]]++;
   buzzdarray_destroy(&s.da);
   if(ok && !nodstry) for(int i = 0; i < 256; ++i) if(destroyed[i] != s.want[i]) { mc_fail("darray-destroy-count", "value %d destroyed %d times, left the array %d times", i, destroyed[i], s.want[i]); ok = 0; break; }
   if(ok && __sanitizer_get_current_allocated_bytes() != mem0) mc_fail("darray-leak", "memory not released after destroy: %ld bytes", (long)(__sanitizer_get_current_allocated_bytes() - mem0));
   mc_states(1); mc_traces(1);
}
static int seq[64]; static mcs_t ds;
static void da_rec(int cap, int d, int maxd, int n) {
   if(d > 0 && mc_next()) {
      mcs_clear(&ds); mcs_add(&ds, "darray elem=%d cap=%d%s:", esz, cap, nodstry ? " nodestroy" : ""); int k = 0; char b[16];
      for(int i = 0; i < d; ++i) { int op = seq[i]; mcs_add(&ds, " %s", da_opname(op, k, b));
         if(op == 0 || (op >= 6 && op - 6 <= k)) ++k; else if(op == 1) { if(k) --k; } else if(op == 2 || op == 3) k = 0; else if(op >= 6 && op - 6 - (k + 1) < k && op - 6 - (k + 1) >= 0) --k; }
      mc_desc("%s", ds.s);
      da_case(cap, seq, d, "after last op");
      if(d == maxd) mc_sample("%s", ds.s);
   }
   if(d == maxd) return;
   for(int op = 0; op < da_nops(n); ++op) {
      seq[d] = op; int k = n;
      if(op == 0) ++k; else if(op == 1) { if(k) --k; } else if(op == 2 || op == 3) k = 0; else if(op >= 6) { int o = op - 6; if(o <= n) ++k; else if((o -= n + 1) < n) --k; }
      da_rec(cap, d + 1, maxd, k);
   }
}
static void run_darray(void) {
   static const int caps[] = { 1, 2, 3, 10 }; static const int szs[] = { 4, 8, 1, 24 };
   for(int ci = 0; ci < 4; ++ci) for(int zi = 0; zi < 4; ++zi) {
      esz = szs[zi]; nodstry = 0;
      int depth = (zi == 0 ? 5 : 4) + (mc_thorough ? 1 : 0);
      da_rec(caps[ci], 0, depth, 0);
   }
   esz = 8; nodstry = 1; da_rec(2, 0, 4, 0); nodstry = 0;
   /* long histories: grow to N by pushing at front/back/middle, then shrink from front/back/middle, 1..250 */
   for(int cap = 1; cap <= 5; cap += 2) for(int g = 0; g < 3; ++g) for(int r = 0; r < 3; ++r) for(int n = 1; n <= 120; n += (n < 40 ? 1 : 7)) {
      if(!MC_CASE("darray long cap=%d grow=%d shrink=%d n=%d", cap, g, r, n)) continue;
      size_t mem0 = __sanitizer_get_current_allocated_bytes();
      static uint8_t m[256]; int k = 0; uint8_t e[64]; esz = 4;
      memset(destroyed, 0, sizeof destroyed);
      buzzdarray_t da = buzzdarray_new(cap, esz, da_dstry); int ok = 1;
      for(int i = 0; i < n && ok; ++i) { int p = g == 0 ? k : g == 1 ? 0 : k / 2; mkel(e, i); buzzdarray_insert(da, p, e); memmove(m + p + 1, m + p, k - p); m[p] = i; ++k; ok = da_check(da, m, k, "growing"); mc_trans(1); }
      for(int i = 0; i < n && ok; ++i) { int p = r == 0 ? k - 1 : r == 1 ? 0 : k / 2; buzzdarray_remove(da, p); memmove(m + p, m + p + 1, k - p - 1); --k; ok = da_check(da, m, k, "shrinking"); mc_trans(1); }
      /* reusable after being emptied */
      for(int i = 0; i < 3 && ok; ++i) { mkel(e, 200 + i); buzzdarray_push(da, e); m[k++] = 200 + i; ok = da_check(da, m, k, "refilled"); }
      buzzdarray_destroy(&da);
      for(int i = 0; i < n && ok; ++i) if(destroyed[i] != 1) { mc_fail("darray-destroy-count", "element %d destroyed %d times", i, destroyed[i]); ok = 0; }
      if(ok && __sanitizer_get_current_allocated_bytes() != mem0) mc_fail("darray-leak", "leak");
      mc_states(1); mc_traces(1);
   }
   /* sort: every array of length <= L over a small alphabet, and every permutation of P */
   esz = 4; int L = mc_thorough ? 8 : 7;
   for(int n = 0; n <= L; ++n) {
      int tot = 1; for(int i = 0; i < n; ++i) tot *= 4;
      for(int c = 0; c < tot; ++c) {
         if(!mc_next()) continue;
         uint8_t a[16]; int x = c; int cnt[4] = {0};
         for(int i = 0; i < n; ++i) { a[i] = x % 4; cnt[a[i]]++; x /= 4; }
         mc_desc("darray sort n=%d code=%d", n, c);
         uint8_t buf[16 * 4]; for(int i = 0; i < n; ++i) mkel(buf + i * 4, a[i]);
         buzzdarray_t da = buzzdarray_new(1, 4, NULL);
         for(int i = 0; i < n; ++i) buzzdarray_push(da, buf + i * 4);
         buzzdarray_sort(da, da_cmp);
         uint8_t m[16]; int k = 0; for(int v = 0; v < 4; ++v) for(int i = 0; i < cnt[v]; ++i) m[k++] = v;
         da_check(da, m, n, "sorted"); buzzdarray_destroy(&da);
         mc_states(1); mc_trans(1);
         /* frombuffer */
         { da = buzzdarray_frombuffer(buf, n * 4, 4, NULL); da_check(da, a, n, "frombuffer"); mkel(buf, 99); da_check(da, a, n, "frombuffer copies"); 
            uint8_t e[4]; mkel(e, 7); buzzdarray_push(da, e); a[n] = 7; da_check(da, a, n + 1, "frombuffer then push"); buzzdarray_destroy(&da); }
      }
   }
}

/* ---------------------------------------------------------------- dictionary */
static int dd_log[512]; static int dd_bad; static int dd_kind; static int dd_live_key[512];
static int64_t KV(int kind, int k) { static const int64_t v[] = { 0, 1, 2, -1, 7, 10, 11, 2147483647LL, -2147483647LL - 1 }; return v[k]; }
static char* SV[] = { "", "a", "b", "ab", "ba", "key", "A", "aa", "bb" };
static const void* mkkey(int kind, int k, void* buf) {
   switch(kind) {
      case 0: *(int32_t*)buf = KV(0, k); break;
      case 1: *(uint16_t*)buf = (uint16_t)(KV(0, k) & 0xffff); if(k == 7) *(uint16_t*)buf = 65534; if(k == 8) *(uint16_t*)buf = 32768; break;
      case 2: *(char**)buf = SV[k]; break;
      case 3: *(int16_t*)buf = (int16_t)KV(0, k); if(k == 7) *(int16_t*)buf = 32767; if(k == 8) *(int16_t*)buf = -32768; break;
      case 4: *(uint32_t*)buf = (uint32_t)KV(0, k); break;
   }
   return buf;
}
static int keysz(int kind) { static const int s[] = { 4, 2, 8, 2, 4 }; return s[kind]; }
static buzzdict_hashfunp hf[] = { buzzdict_int32keyhash, buzzdict_uint16keyhash, buzzdict_strkeyhash, buzzdict_int16keyhash, buzzdict_uint32keyhash };
static buzzdict_key_cmpp cf[] = { buzzdict_int32keycmp, buzzdict_uint16keycmp, buzzdict_strkeycmp, buzzdict_int16keycmp, buzzdict_uint32keycmp };
static int keyid(const void* key) { char b[8]; for(int k = 0; k < 9; ++k) { mkkey(dd_kind, k, b); if(dd_kind == 2 ? !strcmp(*(char**)key, *(char**)b) : !memcmp(key, b, keysz(dd_kind))) return k; } return -1; }
static void dd_dstry(const void* key, void* data, void* p) {
   int u = *(int*)data; if(u < 0 || u >= 512) { dd_bad = 1; } else { dd_log[u]++; if(keyid(key) != dd_live_key[u]) dd_bad = 1; }
   free((void*)key); free(data);
}
static int dvis[16], dvis_bad; static const int* dmodel;
static void dd_see(const void* key, void* data, void* p) { int k = keyid(key); if(k < 0 || p != (void*)dvis) { dvis_bad = 1; return; } dvis[k]++; if(dmodel[k] != *(int*)data) dvis_bad = 1; }
static int dd_check(buzzdict_t d, const int* m, int nk, const char* when) {
   int n = 0; char b[8];
   for(int k = 0; k < nk; ++k) {
      const int* g = buzzdict_get(d, mkkey(dd_kind, k, b), int);
      if(m[k] < 0) { if(g || buzzdict_exists(d, b)) { mc_fail("dict-ghost", "%s: key #%d absent in the model, found value %d", when, k, g ? *g : -1); return 0; } }
      else { ++n; if(!g || !buzzdict_exists(d, b)) { mc_fail("dict-lost", "%s: key #%d lost", when, k); return 0; } if(*g != m[k]) { mc_fail("dict-value", "%s: key #%d has %d expected %d", when, k, *g, m[k]); return 0; } }
   }
   if(buzzdict_size(d) != n || buzzdict_isempty(d) != (n == 0)) { mc_fail("dict-size", "%s: size %u expected %d", when, (unsigned)buzzdict_size(d), n); return 0; }
   memset(dvis, 0, sizeof dvis); dvis_bad = 0; dmodel = m; buzzdict_foreach(d, dd_see, dvis);
   for(int k = 0; k < nk; ++k) if(dvis[k] != (m[k] >= 0)) dvis_bad = 1;
   if(dvis_bad) { mc_fail("dict-foreach", "%s: iteration does not match", when); return 0; }
   return 1;
}
static void dd_case(int nb, int nk, const int* seq, int d, int custom) {
   size_t mem0 = __sanitizer_get_current_allocated_bytes();
   memset(dd_log, 0, sizeof dd_log); dd_bad = 0; int want[512] = {0};
   buzzdict_t dt = buzzdict_new(nb, keysz(dd_kind), sizeof(int), hf[dd_kind], cf[dd_kind], custom ? dd_dstry : NULL);
   int m[16]; for(int k = 0; k < 16; ++k) m[k] = -1; int uid = 1; char b[8]; int ok = 1;
   for(int i = 0; i < d && ok; ++i) {
      int k = seq[i] >> 1;
      if(seq[i] & 1) { int r = buzzdict_remove(dt, mkkey(dd_kind, k, b)); if(r != (m[k] >= 0)) { mc_fail("dict-remove-result", "returned %d", r); ok = 0; } if(m[k] >= 0) want[m[k]]++; m[k] = -1; }
      else { if(m[k] >= 0) want[m[k]]++; dd_live_key[uid] = k; buzzdict_set(dt, mkkey(dd_kind, k, b), &uid); m[k] = uid++; }
      if(ok) ok = dd_check(dt, m, nk, "after op");
      mc_trans(1);
   }
   for(int k = 0; k < nk; ++k) if(m[k] >= 0) want[m[k]]++;
   buzzdict_destroy(&dt); if(dt) mc_fail("dict-destroy-null", "handle not reset");
   if(ok && custom) { if(dd_bad) mc_fail("dict-destroy-args", "destroy callback got a wrong key or value"); for(int i = 0; i < 512; ++i) if(dd_log[i] != want[i]) { mc_fail("dict-destroy-count", "entry %d destroyed %d times instead of %d", i, dd_log[i], want[i]); break; } }
   if(ok && __sanitizer_get_current_allocated_bytes() != mem0) mc_fail("dict-leak", "%ld bytes not released", (long)(__sanitizer_get_current_allocated_bytes() - mem0));
   mc_states(1); mc_traces(1);
}
static void dd_rec(int nb, int nk, int d, int maxd, int custom) {
   if(d == maxd) {
      if(!mc_next()) return;
      mcs_clear(&ds); mcs_add(&ds, "dict kind=%d buckets=%d custom=%d:", dd_kind, nb, custom); for(int i = 0; i < d; ++i) mcs_add(&ds, " %s%d", seq[i] & 1 ? "rm" : "set", seq[i] >> 1);
      mc_desc("%s", ds.s); dd_case(nb, nk, seq, d, custom); mc_sample("%s", ds.s); return;
   }
   for(int op = 0; op < nk * 2; ++op) { seq[d] = op; dd_rec(nb, nk, d + 1, maxd, custom); }
}
static void run_dict(void) {
   static const int nbs[] = { 1, 2, 3, 10 };
   for(dd_kind = 0; dd_kind < 5; ++dd_kind) for(int bi = 0; bi < 4; ++bi) {
      int dep = (dd_kind == 0 && bi < 2) ? (mc_thorough ? 7 : 6) : (mc_thorough ? 6 : 5);
      dd_rec(nbs[bi], 4, 0, dep, 1);
   }
   for(dd_kind = 0; dd_kind < 5; ++dd_kind) { dd_rec(2, 9, 0, mc_thorough ? 4 : 3, 1); dd_rec(2, 3, 0, 5, 0); }
   /* big maps: n entries in b buckets, all removal strides, content checked throughout */
   dd_kind = 0;
   for(int nb = 1; nb <= 10; nb += 3) for(int n = 1; n <= 200; n += (n < 20 ? 1 : 30)) for(int stride = 1; stride <= 7; stride += 2) {
      if(!MC_CASE("dict big buckets=%d n=%d stride=%d", nb, n, stride)) continue;
      size_t mem0 = __sanitizer_get_current_allocated_bytes();
      buzzdict_t d = buzzdict_new(nb, 4, 4, hf[0], cf[0], NULL); static char in[256]; memset(in, 0, sizeof in); int cnt = 0, ok = 1;
      for(int i = 0; i < n; ++i) { int32_t k = i * 3 - 40, v = i; buzzdict_set(d, &k, &v); in[i] = 1; ++cnt; }
      for(int s = 0; s < n && ok; ++s) {
         int i = (s * stride) % n; int32_t k = i * 3 - 40;
         int r = buzzdict_remove(d, &k); if(r != in[i]) { mc_fail("dict-remove-result", "remove %d returned %d", i, r); ok = 0; } if(in[i]) { in[i] = 0; --cnt; }
         if(buzzdict_size(d) != cnt) { mc_fail("dict-size", "big"); ok = 0; }
         if(s % 9 == 0 || n < 20) for(int j = 0; j < n && ok; ++j) { int32_t kj = j * 3 - 40; const int32_t* g = buzzdict_get(d, &kj, int32_t); if((g != NULL) != in[j] || (g && *g != j)) { mc_fail("dict-value", "big: key %d", kj); ok = 0; } }
         mc_trans(1);
      }
      buzzdict_destroy(&d); if(ok && __sanitizer_get_current_allocated_bytes() != mem0) mc_fail("dict-leak", "big");
      mc_states(1);
   }
}

/* ---------------------------------------------------------------- set */
typedef struct { int key; int uid; char* str; } sel_t;
static int s_log[512], s_bad;
static int s_cmp(const void* a, const void* b) { const sel_t* x = a; const sel_t* y = b; if(!x->str || !y->str) { s_bad = 1; } else { s_bad |= (x->str[0] != 'a' + x->key) | (y->str[0] != 'a' + y->key); } return x->key < y->key ? -1 : x->key > y->key; }
static void s_dstry(void* data, void* p) { sel_t* e = data; if(e->uid < 0 || e->uid >= 512) s_bad = 1; else s_log[e->uid]++; free(e->str); }
static int svis[16], svis_bad; static const int* smodel; static char sorder[64]; static int son;
static void s_see(void* data, void* p) { sel_t* e = data; if(e->key < 0 || e->key > 15 || p != (void*)svis) { svis_bad = 1; return; } svis[e->key]++; if(smodel[e->key] != e->uid || e->str[0] != 'a' + e->key) svis_bad = 1; if(son < 60) sorder[son++] = 'a' + e->key; }
/* returns 0 on failure; sorder: iteration order, used to tell internal shapes apart */
static int s_case(int nk, const int* seq, int d, int dst, char* order) {
   size_t mem0 = __sanitizer_get_current_allocated_bytes();
   memset(s_log, 0, sizeof s_log); s_bad = 0; int want[512] = {0}; int m[16]; for(int i = 0; i < 16; ++i) m[i] = -1;
   buzzset_t s = buzzset_new(sizeof(sel_t), s_cmp, dst ? s_dstry : NULL); int uid = 1, ok = 1;
   static char* pool[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k" };
   for(int i = 0; i < d && ok; ++i) {
      int k = seq[i] >> 1; sel_t e = { k, 0, pool[k] };
      if(seq[i] & 1) { buzzset_remove(s, &e); if(m[k] >= 0) want[m[k]]++; m[k] = -1; }
      else {
         e.uid = uid; char* own = dst ? strdup(pool[k]) : pool[k]; e.str = own;
         buzzset_insert(s, &e);
         if(m[k] < 0) m[k] = uid; else if(dst) free(own); /* already present: the set keeps the old one */
         ++uid;
      }
      int n = 0;
      for(int j = 0; j < nk && ok; ++j) {
         sel_t q = { j, 0, pool[j] }; const sel_t* f = buzzset_fetch(s, &q, sel_t);
         if(m[j] < 0) { if(f) { mc_fail("set-ghost", "element %d found after removal", j); ok = 0; } }
         else { ++n; if(!f) { mc_fail("set-lost", "element %d lost", j); ok = 0; } else if(f->uid != m[j] || f->key != j || !f->str || f->str[0] != 'a' + j) { mc_fail("set-value", "element %d is not the stored one", j); ok = 0; } }
      }
      if(ok && (buzzset_size(s) != n || buzzset_isempty(s) != (n == 0))) { mc_fail("set-size", "size %u expected %d", (unsigned)buzzset_size(s), n); ok = 0; }
      memset(svis, 0, sizeof svis); svis_bad = 0; son = 0; smodel = m;
      if(ok) buzzset_foreach(s, s_see, svis);
      for(int j = 0; j < nk && ok; ++j) if(svis[j] != (m[j] >= 0) || svis_bad) { mc_fail("set-foreach", "iteration does not match"); ok = 0; }
      mc_trans(1);
   }
   sorder[son] = 0; if(order) strcpy(order, sorder);
   for(int k = 0; k < nk; ++k) if(m[k] >= 0) want[m[k]]++;
   buzzset_destroy(&s);
   if(ok && dst) for(int i = 0; i < 512; ++i) if(s_log[i] != want[i]) { mc_fail("set-destroy-count", "element %d destroyed %d times instead of %d", i, s_log[i], want[i]); ok = 0; break; }
   if(ok && s_bad) { mc_fail("set-dead-element", "a destroyed element was compared or visited"); ok = 0; }
   if(ok && __sanitizer_get_current_allocated_bytes() != mem0) { mc_fail("set-leak", "%ld bytes not released", (long)(__sanitizer_get_current_allocated_bytes() - mem0)); ok = 0; }
   mc_traces(1);
   return ok;
}
static void s_rec(int nk, int d, int maxd, int dst) {
   if(d == maxd) {
      if(!mc_next()) return;
      mcs_clear(&ds); mcs_add(&ds, "set destroyf=%d:", dst); for(int i = 0; i < d; ++i) mcs_add(&ds, " %s%d", seq[i] & 1 ? "rm" : "ins", seq[i] >> 1);
      mc_desc("%s", ds.s); s_case(nk, seq, d, dst, NULL); mc_states(1); mc_sample("%s", ds.s); return;
   }
   for(int op = 0; op < nk * 2; ++op) { seq[d] = op; s_rec(nk, d + 1, maxd, dst); }
}
/* all permutations of n inserted, then every single removal pair */
static void s_perm(int n, int* p, int k, int dst) {
   if(k == n) {
      for(int r1 = 0; r1 < n; ++r1) for(int r2 = 0; r2 < n; ++r2) {
         if(!mc_next()) continue;
         int d = 0; for(int i = 0; i < n; ++i) seq[d++] = p[i] * 2; seq[d++] = r1 * 2 + 1; seq[d++] = r2 * 2 + 1; seq[d++] = r1 * 2; 
         mcs_clear(&ds); mcs_add(&ds, "set destroyf=%d:", dst); for(int i = 0; i < d; ++i) mcs_add(&ds, " %s%d", seq[i] & 1 ? "rm" : "ins", seq[i] >> 1);
         mc_desc("%s", ds.s); s_case(n, seq, d, dst, NULL); mc_states(1);
      }
      return;
   }
   for(int i = k; i < n; ++i) { int t = p[k]; p[k] = p[i]; p[i] = t; s_perm(n, p, k + 1, dst); t = p[k]; p[k] = p[i]; p[i] = t; }
}
static void run_set(void) {
   s_rec(4, 0, mc_thorough ? 7 : 6, 1); s_rec(3, 0, 5, 0);
   int p[10]; for(int i = 0; i < 10; ++i) p[i] = i;
   s_perm(6, p, 0, 1); if(mc_thorough) s_perm(7, p, 0, 1);
}
void mc_run(void) { run_darray(); run_dict(); run_set(); }
