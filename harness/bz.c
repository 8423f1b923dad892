#include "bz.h"
#include <unistd.h>
mcs_t bz_trace;

int bz_compile_file(const char* fname, bz_prog_t* p) {
   char out[512]; memset(p, 0, sizeof *p);
   snprintf(out, sizeof out, "%s/s.basm", mc_tmp);
   char* argv[] = { (char*)"bzzparse", (char*)fname, out, NULL };
   buzzparser_t par = buzzparser_new(3, argv);
   if(!par) return 1;
   int ok = buzzparser_parse(par);
   buzzparser_destroy(&par);
   if(!ok) return 2;
   if(buzz_asm(out, &p->code, &p->size, &p->dbg) != 0) return 3;
   return 0;
}
int bz_compile(const char* src, bz_prog_t* p) {
   char in[512]; snprintf(in, sizeof in, "%s/s.bzz", mc_tmp);
   FILE* f = fopen(in, "w"); if(!f) { perror(in); exit(9); }
   fputs(src, f); fclose(f);
   return bz_compile_file(in, p);
}
void bz_prog_free(bz_prog_t* p) {
   free(p->code); if(p->dbg) buzzdebug_destroy(&p->dbg); memset(p, 0, sizeof *p);
}
struct tab_s { char** e; int n, cap; int depth; };
static void tab_item(const void* key, void* data, void* params) {
   struct tab_s* t = params;
   mcs_t s = {0};
   bz_repr(&s, *(buzzobj_t*)key, t->depth); mcs_add(&s, "=");
   bz_repr(&s, *(buzzobj_t*)data, t->depth);
   if(t->n == t->cap) { t->cap = t->cap ? t->cap * 2 : 8; t->e = realloc(t->e, t->cap * sizeof(char*)); }
   t->e[t->n++] = s.s;
}
static int cmpstr(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
void bz_repr(mcs_t* o, buzzobj_t v, int depth) {
   if(!v) { mcs_add(o, "NULL"); return; }
   switch(v->o.type) {
      case BUZZTYPE_NIL: mcs_add(o, "nil"); break;
      case BUZZTYPE_INT: mcs_add(o, "%d", v->i.value); break;
      case BUZZTYPE_FLOAT: if(v->f.value != v->f.value) mcs_add(o, "fnan"); else mcs_add(o, "f%.9g", v->f.value); break;
      case BUZZTYPE_STRING: mcs_add(o, "'%s'", v->s.value.str); break;
      case BUZZTYPE_TABLE: {
         if(depth <= 0) { mcs_add(o, "{..}"); break; }
         struct tab_s t = {0}; t.depth = depth - 1;
         buzzdict_foreach(v->t.value, tab_item, &t);
         qsort(t.e, t.n, sizeof(char*), cmpstr);
         mcs_add(o, "{");
         for(int i = 0; i < t.n; ++i) { mcs_add(o, "%s%s", i ? "," : "", t.e[i]); free(t.e[i]); }
         free(t.e);
         mcs_add(o, "}");
         break;
      }
      case BUZZTYPE_CLOSURE: mcs_add(o, v->c.value.isnative ? "fn" : "cfn"); break;
      case BUZZTYPE_USERDATA: mcs_add(o, "ud"); break;
      default: mcs_add(o, "?%d", v->o.type);
   }
}
int bz_tracef(buzzvm_t vm) {
   int n = buzzdarray_size(vm->lsyms->syms);
   for(int i = 1; i < n; ++i) {
      if(i > 1) mcs_add(&bz_trace, " ");
      bz_repr(&bz_trace, buzzdarray_get(vm->lsyms->syms, i, buzzobj_t), 6);
   }
   mcs_add(&bz_trace, ";");
   return buzzvm_ret0(vm);
}
void bz_reg(buzzvm_t vm, const char* name, buzzvm_funp f) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, name, 1));
   buzzvm_pushcc(vm, buzzvm_function_register(vm, f));
   buzzvm_gstore(vm);
}
buzzvm_t bz_vm(uint16_t robot, const bz_prog_t* p) {
   buzzvm_t vm = buzzvm_new(robot);
   if(p && buzzvm_set_bcode(vm, p->code, p->size) != BUZZVM_STATE_READY) { buzzvm_destroy(&vm); return NULL; }
   bz_reg(vm, "t", bz_tracef);
   return vm;
}
buzzvm_state bz_exec(buzzvm_t vm, uint64_t max) {
   for(uint64_t i = 0; i < max; ++i) if(buzzvm_step(vm) != BUZZVM_STATE_READY) break;
   return vm->state;
}
buzzvm_t bz_script(const char* src, bz_prog_t* p, uint16_t robot) {
   if(bz_compile(src, p) != 0) return NULL;
   mcs_clear(&bz_trace);
   buzzvm_t vm = bz_vm(robot, p);
   if(vm) bz_exec(vm, 1000000);
   return vm;
}
const char* bz_statename(buzzvm_t vm) {
   switch(vm->state) {
      case BUZZVM_STATE_NOCODE: return "NOCODE"; case BUZZVM_STATE_READY: return "READY";
      case BUZZVM_STATE_DONE: return "DONE"; case BUZZVM_STATE_ERROR: return "ERROR";
      case BUZZVM_STATE_STOPPED: return "STOPPED"; default: return "?";
   }
}
buzzobj_t bz_global(buzzvm_t vm, const char* name) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, name, 1));
   buzzvm_gload(vm);
   buzzobj_t o = buzzvm_stack_at(vm, 1);
   buzzvm_pop(vm);
   return o;
}
void bz_drain(buzzvm_t vm, bz_msgs_t* o) {
   while(!buzzoutmsg_queue_isempty(vm)) {
      buzzmsg_payload_t m = buzzoutmsg_queue_first(vm);
      if(!m) break;
      if(o->n == o->cap) { o->cap = o->cap ? o->cap * 2 : 8; o->m = realloc(o->m, o->cap * sizeof(bz_msg_t)); }
      uint32_t n = buzzmsg_payload_size(m);
      o->m[o->n].n = n; o->m[o->n].d = malloc(n + 1);
      if(n) memcpy(o->m[o->n].d, m->data, n);
      o->n++;
      buzzoutmsg_queue_next(vm);
      buzzmsg_payload_destroy(&m);
   }
}
void bz_collect(buzzvm_t vm, bz_msgs_t* o) { buzzvm_process_outmsgs(vm); bz_drain(vm, o); }
void bz_msgs_free(bz_msgs_t* m) { for(int i = 0; i < m->n; ++i) free(m->m[i].d); free(m->m); memset(m, 0, sizeof *m); }
void bz_deliver(buzzvm_t vm, uint16_t from, const bz_msg_t* m) {
   buzzmsg_payload_t p = buzzmsg_payload_frombuffer(m->d, m->n);
   buzzinmsg_queue_append(vm, from, p);
}
