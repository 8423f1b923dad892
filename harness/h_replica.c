/* P14 (and P15 with CONFLICT): groups of robots exchanging stigmergy messages. The reference model of the group is explored
 * breadth first over every interleaving of writes, deletions, reads, host flushes and deliveries in any order, with bounded loss
 * and duplication; every transition is replayed on real VMs in lockstep (results, callbacks, every message, every entry), and
 * from every state normal delivery is run on the real VMs until they must have converged. */
#define QMAX 4
#include "rmodel.h"
#ifdef CONFLICT
const char* mc_name = "conflict";
#else
const char* mc_name = "replica";
#endif
#define MAXR 3
#define MAXL 6
#define CH 6
#define MAXW 6
typedef struct { uint8_t key, val, rob, ts; } wr_t;
typedef struct { uint8_t n; rmsg_t m[CH]; } chan_t;
typedef struct { rob_t r[MAXR]; chan_t c[MAXL]; uint8_t nw, nn, ng, nl, nd; wr_t log[MAXW]; } st_t;
typedef struct { const char* name; int R, ids[MAXR], nlink, from[MAXL], to[MAXL]; } topo_t;
static const topo_t TOPO[] = {
   { "pair", 2, { 1, 2 }, 2, { 0, 1 }, { 1, 0 } },
   { "line 1-2-3", 3, { 1, 2, 3 }, 4, { 0, 1, 1, 2 }, { 1, 0, 2, 1 } },
   { "line 2-1-3", 3, { 2, 1, 3 }, 4, { 0, 1, 1, 2 }, { 1, 0, 2, 1 } },
   { "line 1-3-2", 3, { 1, 3, 2 }, 4, { 0, 1, 1, 2 }, { 1, 0, 2, 1 } },
   { "triangle", 3, { 1, 2, 3 }, 6, { 0, 1, 1, 2, 0, 2 }, { 1, 0, 2, 1, 2, 0 } } };
typedef struct { int topo, W, N, G, L, D, keys, depth, confl, lost; } cfg_t;
static cfg_t C; static const topo_t* T;
enum { A_PUT, A_NIL, A_GET, A_FLUSH, A_DEL, A_LOSE, A_DUP };
typedef struct { uint8_t a, x, y; } act_t;
/* the real side of the current replay (vm NULL: model only) */
static buzzvm_t vms[MAXR]; static int vmage; static bz_msg_t raw[MAXL][CH]; static int live;
static void ch_add(st_t* s, int l, const rmsg_t* m, const bz_msg_t* b) {
   chan_t* c = &s->c[l]; int i = c->n++;
   while(i > 0 && memcmp(&c->m[i - 1], m, sizeof *m) > 0) { c->m[i] = c->m[i - 1]; if(live) raw[l][i] = raw[l][i - 1]; --i; }
   c->m[i] = *m; if(live) { raw[l][i].n = b->n; raw[l][i].d = malloc(b->n + 1); memcpy(raw[l][i].d, b->d, b->n); }
}
static void ch_del(st_t* s, int l, int i) { chan_t* c = &s->c[l]; if(live) free(raw[l][i].d); for(--c->n; i < c->n; ++i) { c->m[i] = c->m[i + 1]; if(live) raw[l][i] = raw[l][i + 1]; } memset(&c->m[c->n], 0, sizeof(rmsg_t)); }
static pair_t PR;   /* the pair currently operated on */
#define WITH(i) PR.m = s->r[i]; PR.vm = vms[i]
#define BACK(i) s->r[i] = PR.m
static void logw(st_t* s, int i, int key) { const rent_t* e = &s->r[i].e[0][key]; if(s->nw + s->nn <= MAXW) { wr_t* w = &s->log[s->nw + s->nn - 1]; w->key = key; w->val = e->val; w->rob = s->r[i].id; w->ts = e->ts; } }
/* applies an action; 0: not possible within the channel bound; -1: real side disagreed */
static int step(st_t* s, act_t a) {
   char what[64];
   mcs_clear(&rtr); if(live) mcs_clear(&bz_trace);
   switch(a.a) {
      case A_PUT: case A_NIL: {
         int v = a.a == A_NIL ? 0 : s->nw + 1; if(a.a == A_NIL) s->nn++; else s->nw++;
         uint16_t t0 = s->r[a.x].e[0][a.y].ts;
         if(live) { WITH(a.x); int ok = p_put(&PR, 0, a.y, v); snprintf(what, 64, "robot %d put(%s,%d)", PR.m.id, RKEY[a.y], v); ok = ok && p_same(&PR, what); BACK(a.x); if(!ok) return -1; } else r_put(&s->r[a.x], 0, a.y, v);
         if(s->r[a.x].e[0][a.y].ts != t0) logw(s, a.x, a.y);
         break; }
      case A_GET: s->ng++; if(live) { WITH(a.x); int ok = p_get(&PR, 0, a.y); snprintf(what, 64, "robot %d get(%s)", PR.m.id, RKEY[a.y]); ok = ok && p_same(&PR, what); BACK(a.x); if(!ok) return -1; } else r_get(&s->r[a.x], 0, a.y); break;
      case A_FLUSH: {
         int q = r_qsize(&s->r[a.x]); for(int l = 0; l < T->nlink; ++l) if(T->from[l] == a.x && s->c[l].n + q > CH) return 0;
         WITH(a.x); if(live) buzzvm_process_outmsgs(PR.vm);
         for(;;) { rmsg_t m; memset(&m, 0, sizeof m); bz_msg_t b = {0}; int r = live ? p_extract(&PR, &m, &b) : r_pop(&PR.m, &m); if(r < 0) { BACK(a.x); return -1; } if(!r) break; for(int l = 0; l < T->nlink; ++l) if(T->from[l] == a.x) ch_add(s, l, &m, &b); free(b.d); }
         BACK(a.x); break; }
      case A_DEL: case A_DUP: {
         int to = T->to[a.x], fr = T->from[a.x]; rmsg_t m = s->c[a.x].m[a.y];
         if(live) { bz_deliver(vms[to], T->ids[fr], &raw[a.x][a.y]); buzzvm_process_inmsgs(vms[to]); }
         r_recv(&s->r[to], &m, T->ids[fr]);
         if(live) { mcs_clear(&lk_b); m_text(&lk_b, &m); WITH(to); snprintf(what, 64, "robot %d receives %s", T->ids[to], lk_b.s); if(!p_same(&PR, what)) return -1; }
         if(a.a == A_DUP) s->nd++; else ch_del(s, a.x, a.y);
         break; }
      case A_LOSE: s->nl++; ch_del(s, a.x, a.y); break;
   }
   return 1;
}
static int enumerate(const st_t* s, act_t* o) {
   int n = 0;
#define ADD(A, X, Y) do { o[n].a = A; o[n].x = X; o[n].y = Y; ++n; } while(0)
   for(int i = 0; i < T->R; ++i) {
      if(s->r[i].err) continue;
      for(int k = 0; k < C.keys; ++k) { if(s->nw < C.W) ADD(A_PUT, i, k); if(s->nn < C.N && s->r[i].e[0][k].known && s->r[i].e[0][k].val) ADD(A_NIL, i, k); if(s->ng < C.G) ADD(A_GET, i, k); }
      if(r_qsize(&s->r[i])) ADD(A_FLUSH, i, 0);
   }
   for(int l = 0; l < T->nlink; ++l) for(int j = 0; j < s->c[l].n; ++j) {
      if(j && !memcmp(&s->c[l].m[j], &s->c[l].m[j - 1], sizeof(rmsg_t))) continue;
      if(!s->r[T->to[l]].err) { ADD(A_DEL, l, j); if(s->nd < C.D) ADD(A_DUP, l, j); }
      if(s->nl < C.L) ADD(A_LOSE, l, j);
   }
   return n;
}
/* ---- oracles independent of the reception rules of the model ---- */
static long rank(int val, int ts, int rob) { switch(C.confl) { case 1: return ts * 100000L + (1000 - rob); case 2: return ts * 100000L + (val % 64) * 100; default: return ts * 100000L + (val ? 1000 : 0) + rob; } }
static int symmetric(void) { return C.confl <= 2 && C.lost <= 1; }
static void invariants(const st_t* a, const st_t* b, act_t x) {
   if(!symmetric()) return;
   for(int i = 0; i < T->R; ++i) for(int k = 0; k < C.keys; ++k) {
      const rent_t *p = &a->r[i].e[0][k], *q = &b->r[i].e[0][k];
      if(p->known && !q->known) mc_fail("model", "entry forgotten");
      if(p->known && rank(q->val, q->ts, q->rob) < rank(p->val, p->ts, p->rob)) mc_fail("model", "robot %d went from v%d r%d to v%d r%d", b->r[i].id, p->ts, p->rob, q->ts, q->rob);
      if(q->known) { int f = 0; for(int w = 0; w < b->nw + b->nn && w < MAXW; ++w) if(b->log[w].key == k && b->log[w].val == q->val && b->log[w].rob == q->rob && b->log[w].ts == q->ts) f = 1; if(!f) mc_fail("model", "robot %d holds a version nobody wrote", b->r[i].id); }
      if(C.lost == 1 && (x.a == A_DEL || x.a == A_DUP)) {
         int lost = p->known && p->rob == a->r[i].id && q->ts == p->ts && q->rob != a->r[i].id;
         if(T->to[x.x] == i && C.keys == 1) { int tr = rtr.n && strstr(rtr.s, "'L'") != NULL; if(tr != lost) mc_fail("model", "robot %d %s its write but %s told", a->r[i].id, lost ? "lost" : "kept", tr ? "was" : "was not"); }
      }
   }
}
static int converge(st_t* s, int* okconv) {
   /* normal delivery: everybody reads once (only after losses), then messages travel in order */
   int R = T->R; *okconv = 1;
   if(s->nl) for(int i = 0; i < R; ++i) for(int k = 0; k < C.keys; ++k) { act_t g = { A_GET, i, k }; int r = step(s, g); if(r < 0) return -1; }
   for(int round = 0; round < 10; ++round) {
      for(int l = 0; l < T->nlink; ++l) while(s->c[l].n) { act_t d = { A_DEL, l, 0 }; if(step(s, d) < 0) return -1; mc_trans(1); }
      for(int i = 0; i < R; ++i) { act_t f = { A_FLUSH, i, 0 }; int r = step(s, f); if(r < 0) return -1; if(r == 0) { mc_fail("model", "channel overflow"); return -1; } }
   }
   for(int k = 0; k < C.keys; ++k) {
      const rent_t* w = NULL; long best = -1; wr_t* bw = NULL;
      for(int i = 0; i < R; ++i) { const rent_t* e = &s->r[i].e[0][k]; if(!e->known) continue; if(!w) w = e; else if(w->val != e->val || w->ts != e->ts || w->rob != e->rob) { *okconv = 0; return 0; } }
      for(int x = 0; x < s->nw + s->nn && x < MAXW; ++x) if(s->log[x].key == k && s->log[x].ts && rank(s->log[x].val, s->log[x].ts, s->log[x].rob) > best) { best = rank(s->log[x].val, s->log[x].ts, s->log[x].rob); bw = &s->log[x]; }
      if(symmetric() && bw && (!w || w->val != bw->val || w->ts != bw->ts || w->rob != bw->rob)) { *okconv = 0; return 0; }
      if(symmetric() && bw && bw->val) for(int i = 0; i < R; ++i) if(!s->r[i].e[0][k].known) { *okconv = 0; return 0; }
   }
   return 1;
}
/* ---- replay ---- */
static void initst(st_t* s) { memset(s, 0, sizeof *s); for(int i = 0; i < T->R; ++i) { rob_t* r = &s->r[i]; r->id = T->ids[i]; r->countdown = 10; r->exists[0] = 1; r->confl[0] = C.confl; r->lost[0] = C.lost; } }
static void dropvms(void) { for(int i = 0; i < MAXR; ++i) if(vms[i]) buzzvm_destroy(&vms[i]); vmage = 0; }
static int real_reset(void) {
   static const topo_t* last; if(last != T || ++vmage > 300) { dropvms(); last = T; }
   for(int i = 0; i < T->R; ++i) {
      if(!vms[i]) vms[i] = real_new(T->ids[i]);
      if(vms[i]->state != BUZZVM_STATE_READY) { buzzvm_destroy(&vms[i]); vms[i] = real_new(T->ids[i]); }
      bz_msgs_t d = {0}; bz_drain(vms[i], &d); bz_msgs_free(&d);
      if(!real_call(vms[i], "create", 1, 0, 0, 0)) { mc_fail("script", "create: %s", rres.s); return 0; }
      if(C.confl && !real_call(vms[i], "confl", 2, 0, C.confl, 0)) { mc_fail("script", "onconflict: %s", rres.s); return 0; }
      if(C.lost && !real_call(vms[i], "lost", 2, 0, C.lost, 0)) { mc_fail("script", "onconflictlost: %s", rres.s); return 0; }
   }
   return 1;
}
static const char* AN[] = { "put", "put nil", "get", "flush", "deliver", "lose", "deliver a copy" };
static void replay(const act_t* path, int n, int isnew) {
   st_t s_, *s = &s_; initst(s); live = 1; static mcs_t d; mcs_clear(&d);
   mcs_add(&d, "%s, conflict manager %d, lost callback %d:", T->name, C.confl, C.lost);
   if(!real_reset()) { live = 0; dropvms(); return; }
   /* describe first, so that a crash is attributed */
   { st_t q; live = 0; initst(&q); for(int i = 0; i < n; ++i) { act_t a = path[i]; if(a.a >= A_DEL) { mcs_clear(&lk_b); m_text(&lk_b, &q.c[a.x].m[a.y]); mcs_add(&d, " %s %s from %d to %d;", AN[a.a], lk_b.s, T->ids[T->from[a.x]], T->ids[T->to[a.x]]); } else mcs_add(&d, " %s %s at %d;", AN[a.a], a.a == A_FLUSH ? "" : RKEY[a.y], T->ids[a.x]); step(&q, a); } live = 1; }
   mc_desc("%s", d.s);
   int ok = 1; for(int i = 0; i < n && ok; ++i) { ok = step(s, path[i]) > 0; mc_trans(1); }
   if(ok) for(int i = 0; i < T->R && ok; ++i) { WITH(i); ok = p_store(&PR, "the last event"); }
   if(ok && isnew && (symmetric() || C.confl == 3 && C.lost <= 1)) {
      int cv = 1, r = converge(s, &cv); mc_note("states checked for convergence", 1);
      if(r >= 0) for(int i = 0; i < T->R; ++i) { WITH(i); if(!p_store(&PR, "normal delivery")) cv = 1; }
      if(r >= 0 && !cv) { mcs_t o = {0}; for(int i = 0; i < T->R; ++i) { const rent_t* e = &s->r[i].e[0][0]; mcs_add(&o, " robot %d: %s%d v%d r%d;", T->ids[i], e->known ? "" : "unknown ", e->val, e->ts, e->rob); } mc_fail("divergence", "after normal delivery%s", o.s); mcs_free(&o); }
   }
   if(!mc_case_failed()) mc_sample("%s", d.s); else dropvms();
   for(int l = 0; l < T->nlink; ++l) for(int j = 0; j < s->c[l].n; ++j) free(raw[l][j].d);
   live = 0; mc_traces(1);
}
/* ---- breadth first exploration of the model ---- */
typedef struct { int32_t parent; act_t a; } node_t;
static node_t* nodes; static int nnodes, capnodes;
static void explore(cfg_t c) {
   C = c; T = &TOPO[c.topo]; if(!C.depth) C.depth = 100;
   static mcset_t seen; mcset_free(&seen); memset(&seen, 0, sizeof seen);
   st_t *cur = malloc(sizeof(st_t)), *nxt = NULL; int* ci = malloc(sizeof(int)), *ni = NULL; int nc = 1, nn = 0, capn = 0; uint64_t states = 1, pruned = 0;
   initst(&cur[0]); nnodes = 0; if(!capnodes) { capnodes = 1024; nodes = malloc(capnodes * sizeof *nodes); } nodes[0].parent = -1; nnodes = 1; ci[0] = 0;
   mcset_add(&seen, mc_hash(&cur[0], sizeof(st_t)));
   for(int depth = 0; nc && depth < C.depth; ++depth) {
      nn = 0;
      for(int i = 0; i < nc; ++i) {
         act_t as[160]; int na = enumerate(&cur[i], as);
         for(int j = 0; j < na; ++j) {
            st_t s = cur[i]; if(step(&s, as[j]) <= 0) { ++pruned; continue; }
            int nw = mcset_add(&seen, mc_hash(&s, sizeof s));
            if(mc_next()) {
               invariants(&cur[i], &s, as[j]);
               act_t path[128]; int n = 0; for(int x = ci[i]; x > 0; x = nodes[x].parent) path[n++] = nodes[x].a;
               for(int x = 0; x < n / 2; ++x) { act_t z = path[x]; path[x] = path[n - 1 - x]; path[n - 1 - x] = z; }
               path[n++] = as[j]; replay(path, n, nw); if(nw) mc_states(1);
            }
            if(nw) {
               if(nnodes == capnodes) { capnodes *= 2; nodes = realloc(nodes, capnodes * sizeof *nodes); }
               nodes[nnodes].parent = ci[i]; nodes[nnodes].a = as[j];
               if(nn == capn) { capn = capn ? capn * 2 : 256; nxt = realloc(nxt, capn * sizeof *nxt); ni = realloc(ni, capn * sizeof *ni); }
               nxt[nn] = s; ni[nn++] = nnodes++; ++states;
            }
         }
      }
      cur = realloc(cur, (nn ? nn : 1) * sizeof *cur); memcpy(cur, nxt, nn * sizeof *cur); ci = realloc(ci, (nn ? nn : 1) * sizeof *ci); memcpy(ci, ni, nn * sizeof *ci); nc = nn;
   }
   free(cur); free(nxt); free(ci); free(ni);
   if(MC_CASE("%s W%d N%d G%d L%d D%d keys %d depth %d policy %d/%d: %llu states", T->name, C.W, C.N, C.G, C.L, C.D, C.keys, C.depth, C.confl, C.lost, (unsigned long long)states)) { char nm[96]; snprintf(nm, 96, "%s w%dn%dg%dl%dd%dk%d c%d/%d", T->name, C.W, C.N, C.G, C.L, C.D, C.keys, C.confl, C.lost); mc_note(nm, states); mc_note("flushes beyond the channel bound", pruned); }
}

/* ---- every pair of versions at the limits of the version and identifier ranges, on one receiver ---- */
static void limits(int pol, int lost) {
   static const uint16_t TS[] = { 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535 }, RI[] = { 1, 2, 127, 255, 256, 300, 32768, 65535 }, ME[] = { 2, 300, 65535 };
   for(int me = 0; me < 3; ++me) for(int t1 = 0; t1 < 11; ++t1) for(int r1 = 0; r1 < 8; ++r1) for(int n1 = 0; n1 < 2; ++n1) {
      if(!MC_CASE("robot %d holds %s v%d of robot %d, then receives every other version", ME[me], n1 ? "nil" : "a value", TS[t1], RI[r1])) continue;
      pair_t p; p_new(&p, ME[me]); int cnt = 0;
      for(int t2 = 0; t2 < 11; ++t2) for(int r2 = 0; r2 < 8; ++r2) for(int n2 = 0; n2 < 2; ++n2) for(int ty = 0; ty < 2; ++ty) {
         int key = cnt % NKEY; ++cnt;
         p_create(&p, 0); if(pol) { p_call(&p, "confl", 2, 0, pol, 0); p.m.confl[0] = pol; } if(lost) { p_call(&p, "lost", 2, 0, lost, 0); p.m.lost[0] = lost; }
         rmsg_t m; memset(&m, 0, sizeof m); mcs_clear(&bz_trace); mcs_clear(&rtr);
         m.t = T_PUT; m.key = key; m.val = n1 ? 0 : 1 + cnt % 5; m.ts = TS[t1]; m.rob = RI[r1]; p_recv(&p, &m, 9); int ok = p_same(&p, "the first message");
         m.t = ty ? T_QUERY : T_PUT; m.val = n2 ? 0 : 7 + cnt % 5; m.ts = TS[t2]; m.rob = RI[r2]; p_recv(&p, &m, 9); mcs_clear(&lk_b); m_text(&lk_b, &m); char w[80]; snprintf(w, 80, "%s", lk_b.s);
         ok = ok && p_same(&p, w) && p_store(&p, w) && p_get(&p, 0, key) && p_drain(&p); mc_trans(1);
         const rent_t* e = &p.m.e[0][key];   /* oracle: the greater version, then the tie rule */
         int better = TS[t2] > TS[t1], tie = TS[t2] == TS[t1] && RI[r1] != RI[r2];
         if(ok && !better && !tie && (e->ts != TS[t1] || e->rob != RI[r1])) mc_fail("model", "older version taken");
         if(ok && better && (e->ts != TS[t2] || e->rob != RI[r2])) mc_fail("model", "newer version refused");
         if(ok && tie && pol == 0 && e->rob != ((n1 == n2) ? (RI[r1] > RI[r2] ? RI[r1] : RI[r2]) : n1 ? RI[r2] : RI[r1])) mc_fail("model", "tie");
         if(!ok || mc_case_failed()) goto out;
      }
   out:
      p_free(&p); mc_traces(1); mc_states(cnt);
   }
}
void mc_run(void) {
   int t = mc_thorough;
#ifndef CONFLICT
   limits(0, 0);
   /*                topo W  N  G  L  D  keys */
   explore((cfg_t){ 0, 2, 1, 1, 1, t || !MC_ASAN, 1 });
   explore((cfg_t){ 0, 3, 1, 0, 1, 0, 1 });
   explore((cfg_t){ 0, 3, 0, 0, 1, 1, 1 });
   explore((cfg_t){ 0, 4, 0, 0, 0, 0, 1 });
   explore((cfg_t){ 0, 2, 2, 0, 1, 1, 1 });
   explore((cfg_t){ 0, 2, 0, 1, 0, 0, 2 });
   explore((cfg_t){ 0, 2, 1, 0, 0, 0, 2 });
   explore((cfg_t){ 0, 2, 0, 0, 1, 1, 2 });
   for(int tp = 1; tp <= 3; ++tp) {
      explore((cfg_t){ tp, 2, 0, 0, 1, 0, 1 });
      explore((cfg_t){ tp, 1, 1, 0, 1, 0, 1 });
      if(t || tp == 2) explore((cfg_t){ tp, 2, 1, 0, 0, 0, 1 });
      explore((cfg_t){ tp, 2, 0, 1, 0, 0, 1, t ? 13 : 10 });
      explore((cfg_t){ tp, 1, 1, 1, 1, 0, 1, t ? 13 : 9 });
      if(t) explore((cfg_t){ tp, 3, 0, 0, 0, 0, 1 });
      if(t) explore((cfg_t){ tp, 1, 1, 0, 1, 1, 1 });
   }
   explore((cfg_t){ 4, 1, 1, 0, t, 0, 1 });
   explore((cfg_t){ 4, 2, 0, 0, 0, 0, 1 });
   if(t) { explore((cfg_t){ 4, 2, 0, 0, 1, 0, 1, 14 }); explore((cfg_t){ 0, 3, 1, 1, 1, 0, 1 }); }
#else
   limits(0, 1); limits(1, 1);
   for(int c = 0; c <= 8; ++c) for(int l = 0; l <= 3; ++l) {
      int sym = (c <= 3) && l <= 1;
      if(MC_ASAN) { explore((cfg_t){ 0, 2, 1, 1, 0, 1, 1, t ? 9 : 7, c, l }); continue; }
      explore((cfg_t){ 0, 2, 1, 0, 1, 1, 1, sym ? 100 : t ? 11 : 9, c, l });
      explore((cfg_t){ 0, 2, 0, 1, 0, 0, 1, sym ? 100 : t ? 11 : 9, c, l });
      if(t) explore((cfg_t){ 0, 3, 1, 0, 1, 0, 1, sym ? 100 : 11, c, l });
      if(c <= 4 && l <= 2) for(int tp = 1; tp <= (t ? 4 : 3); ++tp) explore((cfg_t){ tp, 2, 0, 0, 0, 0, 1, sym && tp < 4 ? 100 : t ? 12 : 10, c, l });
   }
#endif
}
