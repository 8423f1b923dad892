/* Helpers that drive the real Buzz code: compile a script in-process with the real lexer, parser
 * and assembler, run it on the real VM, and record what it tells the host. */
#ifndef BZ_H
#define BZ_H
#define _GNU_SOURCE
#include "mc.h"
#include <buzz/buzzvm.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzparser.h>

typedef struct {
   uint8_t* code; uint32_t size; buzzdebug_t dbg;
} bz_prog_t;

/* 0: ok; 1: lexer/parser could not start; 2: parse error; 3: assembler error */
int bz_compile_file(const char* fname, bz_prog_t* p);
int bz_compile(const char* src, bz_prog_t* p);
void bz_prog_free(bz_prog_t* p);

/* canonical text of a value */
void bz_repr(mcs_t* o, buzzobj_t v, int depth);

extern mcs_t bz_trace;                 /* written by t(...) */
int bz_tracef(buzzvm_t vm);            /* the host function registered as "t" */
/* new VM loaded with program p, t() registered; NULL if the image is refused */
buzzvm_t bz_vm(uint16_t robot, const bz_prog_t* p);
void bz_reg(buzzvm_t vm, const char* name, buzzvm_funp f);
/* steps until not READY, at most maxsteps; returns final state (READY if the limit was hit) */
buzzvm_state bz_exec(buzzvm_t vm, uint64_t maxsteps);
/* compiles and runs src to completion; leaves trace in bz_trace; returns NULL vm on compile error */
buzzvm_t bz_script(const char* src, bz_prog_t* p, uint16_t robot);
const char* bz_statename(buzzvm_t vm);
/* value of a global */
buzzobj_t bz_global(buzzvm_t vm, const char* name);
/* host side stack depth of the current stack */
#define bz_depth(vm) ((int)buzzvm_stack_top(vm))
/* messages: moves all outgoing messages of vm into an array of payload copies */
typedef struct { uint8_t* d; uint32_t n; } bz_msg_t;
typedef struct { bz_msg_t* m; int n, cap; } bz_msgs_t;
void bz_collect(buzzvm_t vm, bz_msgs_t* out);    /* process_outmsgs + extract all (appended) */
void bz_drain(buzzvm_t vm, bz_msgs_t* out);      /* extract all without process_outmsgs */
void bz_msgs_free(bz_msgs_t* m);
void bz_deliver(buzzvm_t vm, uint16_t from, const bz_msg_t* m);  /* enqueue a copy */
#endif
