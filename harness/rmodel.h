/* Reference model of one robot's stigmergies, swarm membership, broadcasts and outgoing queue, and the lockstep driver that
 * binds it to a real VM: every event is applied to both, and results, emitted messages and stored state must agree. */
#ifndef RMODEL_H
#define RMODEL_H
#include "bz.h"
#define NVS 2
#define NKEY 4
#define NSW 4
#define NTOP 3
#ifndef QMAX
#define QMAX 24
#endif
enum { T_BC = 0, T_LIST, T_PUT, T_QUERY, T_JOIN, T_LEAVE };
/* vs: index of the stigmergy / topic of a broadcast / swarm; val 0 is nil */
typedef struct { uint8_t t, vs, key, val, set, pad; uint16_t rob, ts; } rmsg_t;
typedef struct { uint8_t known, val; uint16_t rob, ts; } rent_t;
typedef struct { uint8_t n; rmsg_t m[QMAX]; } rq_t;
typedef struct {
   uint16_t id; uint8_t exists[NVS], confl[NVS], lost[NVS];
   rent_t e[NVS][NKEY];
   rq_t bc, put, query, join, leave; uint8_t list, listset;
   uint8_t swknown, swin;      /* bit sets */
   uint8_t countdown;          /* calls of process_outmsgs until the next list */
   uint8_t lis[NTOP];
   uint8_t err;
} rob_t;
static const uint16_t RVS[NVS] = { 3, 515 };
static const char* RKEY[NKEY] = { "1", "'k'", "'1'", "f2.5" };
static const char* RKEYS[NKEY] = { "1", "\"k\"", "\"1\"", "2.5" };
static const char* RTOP[NTOP] = { "a", "b", "c" };
/* value n (1..) on the script side */
static void rval(mcs_t* o, int v) { if(v == 0) mcs_add(o, "nil"); else if(v % 3 == 2) mcs_add(o, "'v%d'", v); else mcs_add(o, "%d", v); }
static mcs_t rtr;              /* expected trace */
/* ---------- outgoing queue ---------- */
static void rq_del(rq_t* q, int i) { for(--q->n; i < q->n; ++i) q->m[i] = q->m[i + 1]; memset(&q->m[q->n], 0, sizeof(rmsg_t)); }
static void rq_add(rq_t* q, rmsg_t m) { if(q->n == QMAX) { fprintf(stderr, "queue overflow\n"); exit(9); } q->m[q->n++] = m; }
static void r_vmsg(rob_t* r, int type, int vs, int key, rent_t e) {
   rmsg_t m = { .t = type, .vs = vs, .key = key, .val = e.val, .ts = e.ts, .rob = e.rob };
   rq_t* qs[2] = { &r->put, &r->query };
   for(int w = 0; w < 2; ++w) for(int i = 0; i < qs[w]->n; ++i) if(qs[w]->m[i].vs == vs && qs[w]->m[i].key == key) {
      if(qs[w]->m[i].ts > e.ts || (qs[w]->m[i].ts == e.ts && type == T_QUERY)) return;
      rq_del(qs[w], i); w = 2; break;
   }
   rq_add(type == T_PUT ? &r->put : &r->query, m);
}
static void r_swmsg(rob_t* r, int join, int s) {
   if(r->list) { if(join) r->listset |= 1 << s; else r->listset &= ~(1 << s); return; }
   rq_t *a = join ? &r->join : &r->leave, *b = join ? &r->leave : &r->join; int f = 0;
   for(int i = 0; i < b->n; ++i) if(b->m[i].vs == s) { rq_del(b, i); break; }
   for(int i = 0; i < a->n; ++i) if(a->m[i].vs == s) f = 1;
   if(!f) { rmsg_t m = { .t = join ? T_JOIN : T_LEAVE, .vs = s }; rq_add(a, m); }
}
static int r_qsize(const rob_t* r) { return r->bc.n + r->list + r->put.n + r->query.n + r->join.n + r->leave.n; }
static int r_pop(rob_t* r, rmsg_t* m) {
   rq_t* qs[] = { &r->bc, NULL, &r->put, &r->query, &r->join, &r->leave };
   for(int i = 0; i < 6; ++i) {
      if(i == 1) { if(r->list) { memset(m, 0, sizeof *m); m->t = T_LIST; m->set = r->listset; r->list = 0; r->listset = 0; return 1; } continue; }
      if(qs[i]->n) { *m = qs[i]->m[0]; rq_del(qs[i], 0); return 1; }
   }
   return 0;
}
static void r_outstep(rob_t* r) {
   if(r->countdown > 0) --r->countdown;
   if(r->countdown == 0 && r->swknown) { r->countdown = 10; r->list = 1; r->listset = r->swin; r->join.n = r->leave.n = 0; memset(r->join.m, 0, sizeof r->join.m); memset(r->leave.m, 0, sizeof r->leave.m); }
}
/* ---------- script operations ---------- */
static void r_put(rob_t* r, int vs, int key, int val) {
   if(!r->exists[vs]) return; rent_t* e = &r->e[vs][key];
   if(e->known) { if(val || e->val) { e->val = val; e->ts++; e->rob = r->id; r_vmsg(r, T_PUT, vs, key, *e); } }
   else if(val) { e->known = 1; e->val = val; e->ts = 1; e->rob = r->id; r_vmsg(r, T_PUT, vs, key, *e); }
}
static int r_get(rob_t* r, int vs, int key) {
   if(!r->exists[vs]) return 0; rent_t* e = &r->e[vs][key];
   rent_t q = *e; if(!e->known) { memset(&q, 0, sizeof q); q.rob = r->id; }
   r_vmsg(r, T_QUERY, vs, key, q); return e->known ? e->val : 0;
}
/* ---------- reception ---------- */
/* conflict managers: 0 none, 1 lower robot wins, 2 higher value wins (ties: local), 3 merged (robot 99, sum), 4 keep local,
 * 5 returns a number (no resolution), 6 fails, 7 writes the entry again then returns remote, 8 returns a table without robot */
static void r_conflict(rob_t* r, int vs, int key, const rmsg_t* m) {
   rent_t* l = &r->e[vs][key]; rent_t c = { .known = 1, .ts = l->ts }; int p = r->confl[vs];
   int lv = l->val, rv = m->val, lr = l->rob, rr = m->rob;
   if(p == 0) { int keepl = (!lv == !rv) ? lr > rr : lv != 0; c.val = keepl ? lv : rv; c.rob = keepl ? lr : rr; }
   else {
      mcs_add(&rtr, "'C' %s %d ", RKEY[key], lr); rval(&rtr, lv); mcs_add(&rtr, " %d %d ", l->ts, rr); rval(&rtr, rv); mcs_add(&rtr, " %d;", m->ts);
      switch(p) {
         case 1: c.val = lr < rr ? lv : rv; c.rob = lr < rr ? lr : rr; break;
         case 2: { int k = lv % 64 >= rv % 64; c.val = k ? lv : rv; c.rob = k ? lr : rr; break; }
         case 3: c.val = 99; c.rob = 99; break;
         case 4: c.val = lv; c.rob = lr; break;
         case 5: case 8: return;
         case 6: r->err = 1; return;
         case 7: r_put(r, vs, key, 60); return;
      }
   }
   rent_t ol = *l; int lostp = c.rob != r->id && l->rob == r->id;
   *l = c; r_vmsg(r, T_PUT, vs, key, c);
   if(lostp && r->lost[vs]) {
      mcs_add(&rtr, "'L' %s %d ", RKEY[key], ol.rob); rval(&rtr, ol.val); mcs_add(&rtr, " %d;", ol.ts);
      if(r->lost[vs] == 2) r_put(r, vs, key, 63);
      if(r->lost[vs] == 3) r->err = 1;
   }
}
static void r_recv(rob_t* r, const rmsg_t* m, int from) {
   switch(m->t) {
      case T_BC: if(r->lis[m->vs]) { mcs_add(&rtr, "'B%d' '%s' ", r->lis[m->vs], RTOP[m->vs]); rval(&rtr, m->val); mcs_add(&rtr, " %d;", from); } break;
      case T_PUT: case T_QUERY: {
         rent_t v = { .known = 1, .val = m->val, .rob = m->rob, .ts = m->ts };
         if(!r->exists[m->vs]) { if(m->t == T_QUERY) r_vmsg(r, T_QUERY, m->vs, m->key, v); break; }
         rent_t* l = &r->e[m->vs][m->key];
         if(!l->known && m->t == T_QUERY && !m->val) { r_vmsg(r, T_QUERY, m->vs, m->key, v); break; }
         if(!l->known || l->ts < m->ts) { *l = v; r_vmsg(r, T_PUT, m->vs, m->key, v); }
         else if(l->ts == m->ts) { if(l->rob != m->rob) r_conflict(r, m->vs, m->key, m); }
         else if(m->t == T_QUERY) r_vmsg(r, T_PUT, m->vs, m->key, *l);
         break; }
      default: break; }
}
/* ---------- the real robot ---------- */
typedef struct { buzzvm_t vm; } real_t;
static bz_prog_t RP; static int rp_ok;
static const char* RSRC =
   "VS = {}\nSW = {}\nKEY = { .0 = 1, .1 = \"k\", .2 = \"1\", .3 = 2.5 }\nVID = { .0 = 3, .1 = 515 }\nTOP = { .0 = \"a\", .1 = \"b\", .2 = \"c\" }\n"
   "function val(x) { if(x == 0) return nil\n if(x % 3 == 2) return string.concat(\"v\", string.tostring(x))\n return x }\n"
   "function num(x) { if(x == nil) return 0\n if(isstring(x)) return string.toint(string.sub(x, 1)) \n return x }\n"
   "function create(v) { VS[v] = stigmergy.create(VID[v]) }\n"
   "function put(v, k, x) { VS[v].put(KEY[k], val(x)) }\n"
   "function get(v, k) { return VS[v].get(KEY[k]) }\n"
   "function vsize(v) { return VS[v].size() }\n"
   "function veach(v) { VS[v].foreach(function(k, x, r) { t(\"E\", k, x, r) }) }\n"
   "function veachmut(v) { VS[v].foreach(function(k, x, r) { t(\"E\", k, x, r)\n put(v, 3, 90)\n put(v, 0, 0) }) }\n"
   "function bc(tp, x) { neighbors.broadcast(TOP[tp], val(x)) }\n"
   "function lis(tp, n) { var nm = string.concat(\"B\", string.tostring(n))\n neighbors.listen(TOP[tp], function(a, b, c) { t(nm, a, b, c) }) }\n"
   "function ign(tp) { neighbors.ignore(TOP[tp]) }\n"
   "function swcreate(s) { SW[s] = swarm.create(s + 1) }\n"
   "function swjoin(s) { SW[s].join() }\nfunction swleave(s) { SW[s].leave() }\nfunction swsel(s, c) { SW[s].select(c) }\nfunction swin(s) { return SW[s].in() }\n"
   "function confl(v, p) { VS[v].onconflict(function(k, l, r) {\n"
   "  t(\"C\", k, l.robot, l.data, l.timestamp, r.robot, r.data, r.timestamp)\n"
   "  if(p == 1) { if(l.robot < r.robot) return l\n return r }\n"
   "  if(p == 2) { if((num(l.data) % 64) >= (num(r.data) % 64)) return l\n return r }\n"
   "  if(p == 3) return { .robot = 99, .data = 99, .timestamp = l.timestamp }\n"
   "  if(p == 4) return l\n  if(p == 5) return 5\n  if(p == 6) { var z = nil + 1 }\n"
   "  if(p == 7) { put(v, KI[k], 60)\n return r }\n  if(p == 8) return { .data = 1 }\n } ) }\n"
   "function lost(v, p) { VS[v].onconflictlost(function(k, l) {\n"
   "  t(\"L\", k, l.robot, l.data, l.timestamp)\n  if(p == 2) put(v, KI[k], 63)\n  if(p == 3) { var z = nil + 1 } } ) }\n"
#ifdef REXTRA
   REXTRA
#endif
   "KI = {}\nKI[1] = 0\nKI[\"k\"] = 1\nKI[\"1\"] = 2\nKI[2.5] = 3\n";
static buzzvm_t real_new(int id) {
   if(!rp_ok) { if(bz_compile(RSRC, &RP)) { mc_fail("compile", "robot script"); exit(9); } rp_ok = 1; }
   buzzvm_t vm = bz_vm(id, &RP); if(!vm) { mc_fail("load", "robot script"); exit(9); }
   if(bz_exec(vm, 100000) != BUZZVM_STATE_DONE) { mc_fail("script", "robot script: %s", vm->errormsg); }
   vm->state = BUZZVM_STATE_READY; return vm;
}
/* calls a script function with integer arguments; leaves its result repr in res; 0 if it failed */
static mcs_t rres;
static int real_call(buzzvm_t vm, const char* f, int n, int a, int b, int c) {
   int v[3] = { a, b, c }, d = bz_depth(vm); for(int i = 0; i < n; ++i) buzzvm_pushi(vm, v[i]);
   mcs_clear(&rres);
   if(buzzvm_function_call(vm, f, n) != BUZZVM_STATE_READY) { mcs_add(&rres, "error %s", vm->errormsg); return 0; }
   bz_repr(&rres, buzzvm_stack_at(vm, 1), 4); buzzvm_pop(vm);
   if(bz_depth(vm) != d) mc_fail("stack", "%s left %d values", f, bz_depth(vm) - d);
   return 1;
}
/* ---------- wire format ---------- */
static int w_val(const uint8_t* b, int n, int p, mcs_t* o) {
   if(p >= n) return -1;
   switch(b[p++]) { case 0: mcs_add(o, "nil"); return p;
      case 1: if(p + 4 > n) return -1; mcs_add(o, "%d", (int)((uint32_t)b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3])); return p + 4;
      case 2: if(p + 8 > n) return -1; if(!memcmp(b + p, "\x20\x00\x00\x01\x00\x00\x00\x02", 8)) mcs_add(o, "f2.5"); else mcs_add(o, "f?"); return p + 8;
      case 3: { if(p + 2 > n) return -1; int l = b[p] << 8 | b[p + 1]; p += 2; if(p + l > n) return -1; mcs_add(o, "'%.*s'", l, b + p); return p + l; }
      default: return -1; }
}
static int w_u16(const uint8_t* b, int n, int p) { return p + 2 <= n ? b[p] << 8 | b[p + 1] : -1; }
/* canonical text of an encoded message */
static void w_text(mcs_t* o, const uint8_t* b, int n) {
   int p = 1; if(n == 0) { mcs_add(o, "empty"); return; }
   switch(b[0]) {
      case T_BC: mcs_add(o, "BC "); p = w_val(b, n, 1, o); mcs_add(o, " "); if(p >= 0) p = w_val(b, n, p, o); break;
      case T_LIST: { int c = w_u16(b, n, 1); unsigned set = 0; p = 3; for(int i = 0; i < c; ++i) { int s = w_u16(b, n, p); p += 2; if(s < 1 || s > 8 || set >> s & 1) { mcs_add(o, "LIST?"); return; } set |= 1u << s; } mcs_add(o, "LIST %x", set >> 1); break; }
      case T_PUT: case T_QUERY: mcs_add(o, "%s %d ", b[0] == T_PUT ? "PUT" : "QUERY", w_u16(b, n, 1)); p = w_val(b, n, 3, o); mcs_add(o, "="); if(p >= 0) p = w_val(b, n, p, o); if(p >= 0) { mcs_add(o, " v%d r%d", w_u16(b, n, p), w_u16(b, n, p + 2)); p += 4; } break;
      case T_JOIN: case T_LEAVE: mcs_add(o, "%s %d", b[0] == T_JOIN ? "JOIN" : "LEAVE", w_u16(b, n, 1)); p = 3; break;
      default: mcs_add(o, "type%d", b[0]); p = n; }
   if(p != n) mcs_add(o, " [%d of %d bytes]", p, n);
}
static void m_text(mcs_t* o, const rmsg_t* m) {
   switch(m->t) {
      case T_BC: mcs_add(o, "BC '%s' ", RTOP[m->vs]); rval(o, m->val); break;
      case T_LIST: mcs_add(o, "LIST %x", m->set); break;
      case T_PUT: case T_QUERY: mcs_add(o, "%s %d %s=", m->t == T_PUT ? "PUT" : "QUERY", RVS[m->vs], RKEY[m->key]); rval(o, m->val); mcs_add(o, " v%d r%d", m->ts, m->rob); break;
      default: mcs_add(o, "%s %d", m->t == T_JOIN ? "JOIN" : "LEAVE", m->vs + 1); }
}
/* encodes a model message (independently of the code under test) */
static int w_enc(uint8_t* b, const rmsg_t* m) {
   int n = 0; mcs_t s = {0};
#define U8(x) b[n++] = (x)
#define U16(x) U8((x) >> 8), U8((x) & 255)
#define STR(x) do { const char* q = (x); U8(3); U16((int)strlen(q)); while(*q) U8(*q++); } while(0)
#define VAL(v) do { if((v) == 0) U8(0); else if((v) % 3 == 2) { char z[8]; sprintf(z, "v%d", v); STR(z); } else { U8(1); U16(0); U16(v); } } while(0)
   U8(m->t);
   switch(m->t) {
      case T_BC: STR(RTOP[m->vs]); VAL(m->val); break;
      case T_LIST: { int c = __builtin_popcount(m->set); U16(c); for(int i = 0; i < 8; ++i) if(m->set >> i & 1) U16(i + 1); break; }
      case T_PUT: case T_QUERY: U16(RVS[m->vs]); switch(m->key) { case 0: U8(1); U16(0); U16(1); break; case 1: STR("k"); break; case 2: STR("1"); break; case 3: U8(2); memcpy(b + n, "\x20\x00\x00\x01\x00\x00\x00\x02", 8); n += 8; break; } VAL(m->val); U16(m->ts); U16(m->rob); break;
      default: U16(m->vs + 1); }
   mcs_free(&s); return n;
}
/* ---------- comparison ---------- */
struct rdump { mcs_t* e[16]; int n; };
typedef struct { char s[40][80]; int n; } dump_t;
static void d_ent(const void* k, void* d, void* p) { dump_t* o = p; buzzvstig_elem_t e = *(buzzvstig_elem_t*)d; mcs_t s = {0}; bz_repr(&s, *(buzzobj_t*)k, 2); mcs_add(&s, "="); bz_repr(&s, e->data, 2); mcs_add(&s, " v%u r%u", e->timestamp, e->robot); if(o->n < 40) snprintf(o->s[o->n++], 80, "%s", s.s); mcs_free(&s); }
static int d_cmp(const void* a, const void* b) { return strcmp(a, b); }
static int cmp_store(buzzvm_t vm, const rob_t* r, mcs_t* why) {
   for(int v = 0; v < NVS; ++v) {
      const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &RVS[v], buzzvstig_t);
      if(!vs != !r->exists[v]) { mcs_add(why, "stigmergy %d %s", RVS[v], vs ? "exists" : "missing"); return 0; }
      if(!vs) continue;
      dump_t a = {0}, b = {0}; buzzdict_foreach((*vs)->data, d_ent, &a);
      for(int k = 0; k < NKEY; ++k) if(r->e[v][k].known) { mcs_t s = {0}; mcs_add(&s, "%s=", RKEY[k]); rval(&s, r->e[v][k].val); mcs_add(&s, " v%u r%u", r->e[v][k].ts, r->e[v][k].rob); snprintf(b.s[b.n++], 80, "%s", s.s); mcs_free(&s); }
      qsort(a.s, a.n, 80, d_cmp); qsort(b.s, b.n, 80, d_cmp);
      int same = a.n == b.n; for(int i = 0; same && i < a.n; ++i) same = !strcmp(a.s[i], b.s[i]);
      if(!same) { mcs_add(why, "stigmergy %d of robot %d holds", RVS[v], r->id); for(int i = 0; i < a.n; ++i) mcs_add(why, " [%s]", a.s[i]); mcs_add(why, " expected"); for(int i = 0; i < b.n; ++i) mcs_add(why, " [%s]", b.s[i]); return 0; }
   }
   return 1;
}
/* ---------- lockstep: one robot, model and implementation ---------- */
typedef struct { rob_t m; buzzvm_t vm; } pair_t;
static mcs_t lk_a, lk_b;
/* robot identifiers of every magnitude, spread over the histories */
static inline int rid_of(const int* seq, int n) { static const int R[] = { 5, 65535, 300, 32769 }; int x = 0; for(int i = 0; i < n; ++i) x += seq[i]; return R[x & 3]; }
static void p_new(pair_t* p, int id) { memset(&p->m, 0, sizeof p->m); p->m.id = id; p->m.countdown = 10; p->vm = real_new(id); mcs_clear(&bz_trace); mcs_clear(&rtr); }
static void p_free(pair_t* p) { buzzvm_destroy(&p->vm); }
static int p_same(pair_t* p, const char* what) {
   if(buzzoutmsg_queue_size(p->vm) != r_qsize(&p->m)) { mc_fail("queue-size", "after %s: %u messages pending, expected %d", what, buzzoutmsg_queue_size(p->vm), r_qsize(&p->m)); return 0; }
   if(buzzoutmsg_queue_isempty(p->vm) != (r_qsize(&p->m) == 0)) { mc_fail("queue-empty", "after %s", what); return 0; }
   if(strcmp(bz_trace.n ? bz_trace.s : "", rtr.n ? rtr.s : "")) { mc_fail("callbacks", "after %s: saw [%s], expected [%s]", what, bz_trace.n ? bz_trace.s : "", rtr.n ? rtr.s : ""); return 0; }
   if(p->m.err ? p->vm->state != BUZZVM_STATE_ERROR : p->vm->state != BUZZVM_STATE_READY) { mc_fail("state", "after %s: VM is %s: %s", what, bz_statename(p->vm), p->vm->errormsg ? p->vm->errormsg : ""); return 0; }
   return 1;
}
static int p_store(pair_t* p, const char* what) { mcs_clear(&lk_a); if(!cmp_store(p->vm, &p->m, &lk_a)) { mc_fail("store", "after %s: %s", what, lk_a.s); return 0; } return 1; }
static int p_call(pair_t* p, const char* f, int n, int a, int b, int c) { if(!real_call(p->vm, f, n, a, b, c)) { mc_fail("script", "%s(%d,%d,%d): %s", f, a, b, c, rres.s); return 0; } return 1; }
static int p_extract(pair_t* p, rmsg_t* mm, bz_msg_t* raw) {  /* -1 failure, 0 empty, 1 extracted */
   rmsg_t e; memset(&e, 0, sizeof e); int has = r_pop(&p->m, &e);
   buzzmsg_payload_t m = has ? buzzoutmsg_queue_first(p->vm) : NULL;
   if(!has) { if(!buzzoutmsg_queue_isempty(p->vm)) { mc_fail("extra-message", "queue not empty"); return -1; } return 0; }
   if(!m) { mc_fail("lost-message", "nothing to extract"); return -1; }
   mcs_clear(&lk_a); mcs_clear(&lk_b); w_text(&lk_a, m->data, buzzmsg_payload_size(m)); m_text(&lk_b, &e);
   int ok = !strcmp(lk_a.s, lk_b.s); if(!ok) mc_fail("message", "extracted [%s], expected [%s]", lk_a.s, lk_b.s);
   /* looking again without removing must show the same message */
   if(ok) { buzzmsg_payload_t m2 = buzzoutmsg_queue_first(p->vm); if(!m2 || buzzmsg_payload_size(m2) != buzzmsg_payload_size(m) || memcmp(m->data, m2->data, buzzmsg_payload_size(m))) { mc_fail("message", "a second look differs"); ok = 0; } if(m2) buzzmsg_payload_destroy(&m2); }
   if(raw) { raw->n = buzzmsg_payload_size(m); raw->d = malloc(raw->n + 1); memcpy(raw->d, m->data, raw->n); }
   buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(p->vm);
   if(mm) *mm = e; return ok ? 1 : -1;
}
static int p_drain(pair_t* p) { for(;;) { int r = p_extract(p, NULL, NULL); if(r < 0) return 0; if(r == 0) break; mc_trans(1); } return p_same(p, "draining the queue"); }
static void p_recv(pair_t* p, const rmsg_t* m, int from) { uint8_t b[64]; bz_msg_t x = { b, (uint32_t)w_enc(b, m) }; bz_deliver(p->vm, from, &x); buzzvm_process_inmsgs(p->vm); r_recv(&p->m, m, from); }
static int p_put(pair_t* p, int v, int k, int x) { r_put(&p->m, v, k, x); return p_call(p, "put", 3, v, k, x); }
static int p_get(pair_t* p, int v, int k) { int x = r_get(&p->m, v, k); if(!p_call(p, "get", 2, v, k, 0)) return 0; mcs_clear(&lk_a); rval(&lk_a, x); if(strcmp(lk_a.s, rres.s)) { mc_fail("get", "get(%d,%s) = %s, expected %s", RVS[v], RKEY[k], rres.s, lk_a.s); return 0; } return 1; }
static int p_create(pair_t* p, int v) { p->m.exists[v] = 1; memset(p->m.e[v], 0, sizeof p->m.e[v]); p->m.confl[v] = p->m.lost[v] = 0; return p_call(p, "create", 1, v, 0, 0); }
static int p_bc(pair_t* p, int tp, int x) { rmsg_t m = { .t = T_BC, .vs = tp, .val = x }; rq_add(&p->m.bc, m); return p_call(p, "bc", 2, tp, x, 0); }
static int p_swcreate(pair_t* p, int s) { p->m.swknown |= 1 << s; return p_call(p, "swcreate", 1, s, 0, 0); }
static int p_swjl(pair_t* p, int s, int join) { if(join) p->m.swin |= 1 << s; else p->m.swin &= ~(1 << s); r_swmsg(&p->m, join, s); return p_call(p, join ? "swjoin" : "swleave", 1, s, 0, 0); }
static void p_out(pair_t* p) { r_outstep(&p->m); buzzvm_process_outmsgs(p->vm); }
#endif
