From 29f5f2d23490e5394f818bdab12619f10cf8f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:32 +0000
Subject: [PATCH 01/95] fix: buzzset_remove() destroyed the element it kept and
 leaked the removed one

When the removed node has two children, the data of the in-order successor was
shared between two nodes and then passed to the destroy function although it
stays in the set; the memory of the removed element was never freed.
---
 src/buzz/buzzset.c | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..81004dd 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -112,34 +112,27 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
    else {
       /* We found the node to remove */
       *removed = 1;
-      /* Get rid of the data */
-      if(s->dstryf) s->dstryf(n->data, NULL);
-      /* If the node has no children, simply remove it */
-      if(!n->left && !n->right) {
-         free(n);
-         n = NULL;
-      }
-      /* If the element has one child, put the child in place of this
-       * tree, and remove the tree */
-      else if(!n->right) {
-         buzzset_tree_t x = n;
-         n = n->left;
-         free(x);
-      }
-      else if(!n->left) {
-         buzzset_tree_t x = n;
-         n = n->right;
-         free(x);
-      }
       /* Both children exist for this node */
-      else {
+      if(n->left && n->right) {
          /* Look for the minimum id on the right of the node to eliminate */
          buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
+         /* Swap its value with the one of the current root */
+         void* tmp = n->data;
          n->data = m->data;
-         /* Delete the minimum node */
+         m->data = tmp;
+         /* Delete the minimum node, which now stores the data to remove */
          n->right = buzzset_tree_remove(s, n->right, m->data, removed);
       }
+      /* If the element has at most one child, put the child (if any)
+       * in place of this tree, and remove the tree */
+      else {
+         buzzset_tree_t x = n;
+         n = n->left ? n->left : n->right;
+         /* Get rid of the data */
+         if(s->dstryf) s->dstryf(x->data, NULL);
+         free(x->data);
+         free(x);
+      }
    }
    return n;
 }
-- 
2.43.0


From b1ae6e785c917628efd918c4d1d1c2e40c0fa710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 02/95] fix: nil compared equal to (and ordered with) every
 value

---
 src/buzz/buzztype.c | 3 ++-
 src/buzz/buzzvm.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..6f61426 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -165,7 +165,8 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      int cmp = strcmp(a->s.value.str, b->s.value.str);
+      return (cmp > 0) - (cmp < 0);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..142db39 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -133,7 +133,8 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   /* 2 means the operands can't be ordered: they are just different */ \
+   res->i.value = (cmp == 2) ? ((1 oper 0) && (-1 oper 0)) : (cmp oper 0); \
    return buzzvm_push(vm, res);
 
 /****************************************/
-- 
2.43.0


From 505c0eef978cd322d14cf7dda53be8aec437f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:00 +0000
Subject: [PATCH 03/95] fix: comparing a string with a large float overflowed
 the conversion buffer

---
 src/buzz/buzztype.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 6f61426..68bcbc1 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -170,25 +170,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
-      char str[30];
-      sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      char str[64];
+      snprintf(str, sizeof(str), "%d", b->i.value);
+      int cmp = strcmp(a->s.value.str, str);
+      return (cmp > 0) - (cmp < 0);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
-      sprintf(str, "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      char str[64];
+      snprintf(str, sizeof(str), "%f", b->f.value);
+      int cmp = strcmp(a->s.value.str, str);
+      return (cmp > 0) - (cmp < 0);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
-      sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      char str[64];
+      snprintf(str, sizeof(str), "%d", a->i.value);
+      int cmp = strcmp(str, b->s.value.str);
+      return (cmp > 0) - (cmp < 0);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
-      sprintf(str, "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      char str[64];
+      snprintf(str, sizeof(str), "%f", a->f.value);
+      int cmp = strcmp(str, b->s.value.str);
+      return (cmp > 0) - (cmp < 0);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
-- 
2.43.0


From 407d1ef361bbbfd6f1b2d60febff384f2c1f97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 04/95] fix: comparing a closure with another closure or value
 aborted the process

---
 src/buzz/buzztype.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 68bcbc1..22169e1 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -216,9 +216,8 @@ int buzzobj_cmp(const buzzobj_t a,
       if((uintptr_t)(a->u.value) > (uintptr_t)(b->u.value)) return 1;
       return 0;
    }
-   // TODO better error management
-   fprintf(stderr, "[TODO] %s:%d: Error for comparison between Buzz objects of types %d and %d\n", __FILE__, __LINE__, a->o.type, b->o.type);
-   abort();
+   /* Anything else can't be ordered, only told apart */
+   return buzzobj_eq(a, b) ? 0 : 2;
 }
 
 /****************************************/
-- 
2.43.0


From 5c900666a674c3099a08f2d1980bd7ecaef1e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 05/95] fix: a NaN compared equal to every number

---
 src/buzz/buzztype.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 22169e1..f259f0c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -151,17 +151,17 @@ int buzzobj_cmp(const buzzobj_t a,
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->i.value < b->f.value) return -1;
       if(a->i.value > b->f.value) return 1;
-      return 0;
+      return (a->i.value == b->f.value) ? 0 : 2;
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_INT) {
       if(a->f.value < b->i.value) return -1;
       if(a->f.value > b->i.value) return 1;
-      return 0;
+      return (a->f.value == b->i.value) ? 0 : 2;
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->f.value < b->f.value) return -1;
       if(a->f.value > b->f.value) return 1;
-      return 0;
+      return (a->f.value == b->f.value) ? 0 : 2;
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-- 
2.43.0


From 7547210886f8ff2e5d2d604c71971673efe38bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 06/95] fix: unary minus bound looser than power, against the
 documentation and unlike constants

---
 src/buzz/buzzparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..99e9f61 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1080,7 +1080,7 @@ int parse_operand(buzzparser_t par) {
          return PARSE_OK;
       }
       else {
-         if(!parse_power(par)) return PARSE_ERROR;
+         if(!parse_bitwisenot(par)) return PARSE_ERROR;
          if(op == '-') chunk_append("\tunm");
          return PARSE_OK;
       }
-- 
2.43.0


From 79d998b559fe05fb1ccef6fcd082fcaee3dda1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:36 +0000
Subject: [PATCH 07/95] fix: modulo of mixed int and float operands corrected
 negative results with the wrong field

---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 142db39..cebbe93 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1479,14 +1479,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From ebdedba35cec0417251ef5f7d7ea8a5f5a862a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:40 +0000
Subject: [PATCH 08/95] fix: arithmetic on non-numbers failed without an error
 message

---
 src/buzz/buzzvm.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index cebbe93..f441fc5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -40,8 +40,11 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
        op1->o.type != BUZZTYPE_FLOAT) ||                                \
       (op2->o.type != BUZZTYPE_INT &&                                   \
        op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
+      buzzvm_seterror((vm),                                             \
+                      BUZZVM_ERROR_TYPE,                                \
+                      "expected int or float operands, got %s and %s",  \
+                      buzztype_desc[op2->o.type],                       \
+                      buzztype_desc[op1->o.type]);                      \
       return (vm)->state;                                               \
    }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
@@ -1490,8 +1493,11 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected int or float operands, got %s and %s",
+                      buzztype_desc[op2->o.type],
+                      buzztype_desc[op1->o.type]);
       return (vm)->state;
    }
 }
@@ -1530,8 +1536,11 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected int or float operands, got %s and %s",
+                      buzztype_desc[op2->o.type],
+                      buzztype_desc[op1->o.type]);
       return (vm)->state;
    }
 }
@@ -1554,8 +1563,10 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected int or float, got %s",
+                      buzztype_desc[op->o.type]);
       return (vm)->state;
    }
 }
-- 
2.43.0


From 1d8642f5dda9bba6e16a7dbc324ab8b06036c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 09/95] fix: integer division and modulo by zero killed the
 host process

---
 src/buzz/buzzvm.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f441fc5..aa391d6 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -74,6 +74,28 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    }                                                                    \
    return (vm)->state;
 
+/*
+ * Makes sure an integer division or modulo can be performed without trapping.
+ * The divisor is at stack(#1), the dividend at stack(#2).
+ * This function is designed to be used within int-returning functions such as
+ * BuzzVM hook functions or buzzvm_step().
+ * @param vm The VM data.
+ */
+#define buzzvm_int_division_assert(vm)                                  \
+   buzzvm_stack_assert((vm), 2);                                        \
+   if(buzzvm_stack_at((vm), 1)->o.type == BUZZTYPE_INT &&               \
+      buzzvm_stack_at((vm), 2)->o.type == BUZZTYPE_INT &&               \
+      (buzzvm_stack_at((vm), 1)->i.value == 0 ||                        \
+       (buzzvm_stack_at((vm), 1)->i.value == -1 &&                      \
+        buzzvm_stack_at((vm), 2)->i.value == INT32_MIN))) {             \
+      buzzvm_seterror((vm),                                             \
+                      BUZZVM_ERROR_TYPE,                                \
+                      buzzvm_stack_at((vm), 1)->i.value == 0 ?          \
+                      "integer division by zero" :                      \
+                      "integer division overflow");                     \
+      return (vm)->state;                                               \
+   }
+
 /*
  * Pops two operands from the stack and pushes the result of a binary logic operation on them.
  * The order of the operation is stack(#2) oper stack(#1).
@@ -1452,6 +1474,7 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   buzzvm_int_division_assert(vm);
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1459,6 +1482,7 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
+   buzzvm_int_division_assert(vm);
    buzzvm_stack_assert((vm), 2);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
-- 
2.43.0


From 1e8b9c1abcc1f6660d7d0a1f6e7297bd03a60343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:18 +0000
Subject: [PATCH 10/95] fix: a return without value returned the next
 statement's value instead

---
 src/buzz/buzzparser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 99e9f61..7a42103 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1095,10 +1095,13 @@ int parse_operand(buzzparser_t par) {
 int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
-      fetchtok();
+      /* A statement end right after it must not be skipped: it means no return value */
+      buzzlex_destroytok(&par->tok);
+      par->tok = buzzlex_nexttok(par->lex);
       if(par->tok->type == BUZZTOK_STATEND ||
          par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
+         if(par->tok->type == BUZZTOK_STATEND) fetchtok();
       }
       else {
          if(!parse_condition(par)) return PARSE_ERROR;
-- 
2.43.0


From f3d0a7eb201056713b585fc87a5b4b1ace218dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 11/95] fix: local variables and lambdas in top-level blocks
 crashed or read the wrong slot

---
 src/buzz/buzzparser.c | 2 ++
 src/buzz/buzzvm.c     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 7a42103..e7cac58 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -510,6 +510,8 @@ int parse_block(buzzparser_t par, int pushsymt) {
          if(buzzdarray_size(par->symstack) == 1) {
             /* Add new symtable */
             symt_push();
+            /* Add "self" symbol */
+            sym_add(par, "self", SCOPE_LOCAL);
          }
          else {
             symt_clone();
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index aa391d6..0816627 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -563,6 +563,12 @@ buzzvm_t buzzvm_new(uint16_t robot) {
    vm->strings = buzzstrman_new();
    /* Create heap */
    vm->heap = buzzheap_new();
+   /* Create the local variables of the global scope (just self, which is nil) */
+   buzzdarray_t syms = buzzdarray_new(1, sizeof(buzzobj_t), NULL);
+   buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_push(syms, &nil);
+   vm->lsyms = buzzvm_lsyms_new(0, syms);
+   buzzdarray_push(vm->lsymts, &(vm->lsyms));
    /* Create function list */
    vm->flist = buzzdarray_new(20, sizeof(buzzvm_funp), NULL);
    /* Create swarm list */
-- 
2.43.0


From f2421ad67deded9f71db58a89f0cf4daa1772cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 12/95] fix: storing a local variable past missing parameters
 left uninitialized slots

---
 src/buzz/buzzvm.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0816627..7dd8a8d 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1734,8 +1734,20 @@ buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
 
 buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
+   if(idx > UINT16_MAX) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "local symbol index %u out of range",
+                      idx);
+      return vm->state;
+   }
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   /* Symbols that were never set (e.g., missing parameters) are nil */
+   while(buzzdarray_size((vm)->lsyms->syms) < idx) {
+      buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+      buzzdarray_push((vm)->lsyms->syms, &nil);
+   }
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
    return vm->state;
 }
-- 
2.43.0


From 7931451c5613909fd30d75723b0e7e8b2b01c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:55 +0000
Subject: [PATCH 13/95] fix: a lambda parameter named like a variable of the
 parent ignored its argument

---
 src/buzz/buzzparser.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index e7cac58..4f63c6b 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -137,6 +137,24 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
    else       buzzdict_set(par->syms, &key, &symdata);
 }
 
+/*
+ * Adds a parameter of the function being parsed.
+ * The arguments of a call are placed after the symbols inherited from the parent
+ * function. If the parameter has the name of one of those symbols, that symbol gets
+ * out of sight but keeps its position.
+ */
+void sym_addparam(buzzparser_t par, const char* sym) {
+   const struct sym_s* s = buzzdict_get(par->syms, &sym, struct sym_s);
+   if(s) {
+      struct sym_s hidden = *s;
+      char* key;
+      asprintf(&key, "%s (slot %" PRId64 ")", sym, hidden.pos);
+      buzzdict_remove(par->syms, &sym);
+      buzzdict_set(par->syms, &key, &hidden);
+   }
+   sym_add(par, sym, SCOPE_LOCAL);
+}
+
 void sym_clone(const void* key, void* data, void* params) {
    struct sym_s* toclone = (struct sym_s*)data;
    /* Copy key */
@@ -1172,26 +1190,13 @@ int parse_idlist(buzzparser_t par) {
       return PARSE_OK;
    /* Match an id for the first argument */
    tokmatch(BUZZTOK_ID);
-   /* Look for the argument symbol in the context
-    * If a symbol is found and is not global,
-    * do not add a new symbol; otherwise do
-    * This allows lambdas and nested functions to
-    * reuse the parameters and local variables of
-    * the parent
-    */
-   const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-   if(!sym || sym->global) {
-      sym_add(par, par->tok->value, SCOPE_LOCAL);
-   }
+   sym_addparam(par, par->tok->value);
    fetchtok();
    /* Match rest of the argument list */
    while(par->tok->type == BUZZTOK_LISTSEP) {
       fetchtok();
       tokmatch(BUZZTOK_ID);
-      const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-      if(!sym || sym->global) {
-         sym_add(par, par->tok->value, SCOPE_LOCAL);
-      }
+      sym_addparam(par, par->tok->value);
       fetchtok();
    }
    return PARSE_OK;
-- 
2.43.0


From 194a9314406a2a5981a75044dccf90eed1e719ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:15 +0000
Subject: [PATCH 14/95] fix: calling a C closure from the host executed a stray
 instruction of the script

---
 src/buzz/buzzvm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 7dd8a8d..e4e0052 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1048,9 +1048,10 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   /* A C closure is already over at this point */
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From 8fdf71ecf09db31e2589d3eef6fc175b2183b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 15/95] fix: calling a function by name with arguments put
 garbage in place of the function

---
 src/buzz/buzzvm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e4e0052..386686c 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1090,10 +1090,11 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzvm_closure_call(vm, argc);
-- 
2.43.0


From 96c834044bf1d0aa045c2b51eaf57e0d8f2c1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 16/95] fix: reading a table with a key of a wrong type crashed
 formatting the message

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 386686c..cfb51d4 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1356,7 +1356,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From 1ed205d4e2a2f86d52750eb92fd8651e5968686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:35 +0000
Subject: [PATCH 17/95] fix: return outside of a function and removing missing
 local symbols crashed

---
 src/buzz/buzzvm.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index cfb51d4..807b76a 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1397,6 +1397,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* Make sure there is a function to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1427,6 +1432,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* Make sure there is a function to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1760,8 +1770,9 @@ buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
-  for( uint32_t i =0 ; i < num ; i++ )
-    buzzdarray_pop((vm)->lsyms->syms);
+   else
+      for(uint32_t i = 0; i < num; ++i)
+         buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
 }
 
-- 
2.43.0


From 5288ce5d2b7713b2fa0dd02c431dc8a8f000ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:49 +0000
Subject: [PATCH 18/95] fix: a comment swallowed the newline ending a return
 without value

---
 src/buzz/buzzlex.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..cd94510 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -300,12 +300,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                return eoftok;
             lexf = buzzlex_getfile(lex);
          }
-         else {
-            /* New line and carry on */
-            ++lexf->cur_line;
-            lexf->cur_col = 0;
-            ++lexf->cur_c;
-         }
+         /* The newline is not part of the comment, it still ends the statement */
       }
       else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
          /* Manage file inclusion */
-- 
2.43.0


From 056efddef0d12b0f40940f7332144e96939e1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:56 +0000
Subject: [PATCH 19/95] fix: a table key spelling a number could replace the
 numeric key

---
 src/buzz/buzzoutmsg.c |  2 +-
 src/buzz/buzztype.c   | 14 +++++++++++++-
 src/buzz/buzztype.h   | 10 ++++++++++
 src/buzz/buzzvstig.c  |  2 +-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..dbcb2a8 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -57,7 +57,7 @@ uint32_t buzzoutmsg_obj_hash(const void* key) {
 }
 
 int buzzoutmsg_obj_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
+   return buzzobj_keycmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
 }
 
 void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index f259f0c..f7ed8ef 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -32,7 +32,7 @@ uint32_t buzzobj_table_hash(const void* key) {
 }
 
 int buzzobj_table_keycmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_keycmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
 buzzobj_t buzzobj_new(uint16_t type) {
@@ -223,6 +223,18 @@ int buzzobj_cmp(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+int buzzobj_keycmp(const buzzobj_t a,
+                   const buzzobj_t b) {
+   /* A string is never the same key as a number, even if it spells it */
+   if((a->o.type == BUZZTYPE_STRING) != (b->o.type == BUZZTYPE_STRING)) {
+      return (a->o.type == BUZZTYPE_STRING) ? 1 : -1;
+   }
+   return buzzobj_cmp(a, b);
+}
+
+/****************************************/
+/****************************************/
+
 int buzzobj_type(buzzvm_t vm) {
    /* Get parameter */
    buzzvm_lnum_assert(vm, 1);
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 92fe8c4..5fb3294 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -164,6 +164,16 @@ extern "C" {
    extern int buzzobj_cmp(const buzzobj_t a,
                           const buzzobj_t b);
 
+   /*
+    * Compares two Buzz objects used as keys.
+    * Like buzzobj_cmp(), but a string never equals a number.
+    * @param a The first object.
+    * @param b The second object.
+    * @return 0 if a and b are the same key; non-zero otherwise
+    */
+   extern int buzzobj_keycmp(const buzzobj_t a,
+                             const buzzobj_t b);
+
    /*
     * C-closure to return the type of an object.
     * @param vm The VM data.
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..b8aa18b 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -50,7 +50,7 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_keycmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
 /****************************************/
-- 
2.43.0


From 68000d5f03be6d8548f8c55865b5f82f2838b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:34 +0000
Subject: [PATCH 20/95] fix: modifying a table while iterating on it crashed or
 skipped and repeated entries

---
 src/buzz/buzztype.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index f7ed8ef..ea583d8 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -305,6 +305,21 @@ int buzzobj_size(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+static void buzzobj_snapshot_entry(const void* key, void* data, void* params) {
+   buzzdict_set((buzzdict_t)params, key, data);
+}
+
+/*
+ * Pushes a copy of the table, for the functions that call closures on the
+ * entries of a table: those closures might modify the table.
+ */
+static buzzdict_t buzzobj_snapshot(buzzvm_t vm, buzzobj_t t) {
+   buzzobj_t s = buzzheap_newobj(vm, BUZZTYPE_TABLE);
+   buzzvm_push(vm, s);
+   buzzdict_foreach(t->t.value, buzzobj_snapshot_entry, s->t.value);
+   return s->t.value;
+}
+
 struct buzzobj_foreach_params {
    buzzvm_t vm;
    buzzobj_t fun;
@@ -338,7 +353,7 @@ int buzzobj_foreach(buzzvm_t vm) {
    buzzobj_t c = buzzvm_stack_at(vm, 1);
    /* Go through the table element and apply the closure */
    struct buzzobj_foreach_params p = { .vm = vm, .fun = c };
-   buzzdict_foreach(t->t.value, buzzobj_foreach_entry, &p);
+   buzzdict_foreach(buzzobj_snapshot(vm, t), buzzobj_foreach_entry, &p);
    return buzzvm_ret0(vm);
 }
 
@@ -395,6 +410,8 @@ int buzzobj_map(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, 1);
+   /* The closure might modify the table */
+   buzzdict_t s = buzzobj_snapshot(vm, t);
    /* Create a table as the return value */
    buzzobj_t r = buzzheap_newobj(vm, BUZZTYPE_TABLE);
    buzzvm_push(vm, r);
@@ -404,7 +421,7 @@ int buzzobj_map(buzzvm_t vm) {
       .fun = c,
       .result = r->t.value
    };
-   buzzdict_foreach(t->t.value, buzzobj_map_entry, &p);
+   buzzdict_foreach(s, buzzobj_map_entry, &p);
    /* Return the table */
    return buzzvm_ret1(vm);
 }
@@ -453,11 +470,13 @@ int buzzobj_reduce(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, 1);
+   /* The closure might modify the table */
+   buzzdict_t s = buzzobj_snapshot(vm, t);
    /* Put initial accumulator value on the stack */
    buzzvm_lload(vm, 3);
    /* Go through the table element and apply the closure */
    struct buzzobj_reduce_params p = { .vm = vm, .fun = c };
-   buzzdict_foreach(t->t.value, buzzobj_reduce_entry, &p);
+   buzzdict_foreach(s, buzzobj_reduce_entry, &p);
    /* The final value of the accumulator is on the stack */
    return buzzvm_ret1(vm);
 }
@@ -514,6 +533,8 @@ int buzzobj_filter(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, 1);
+   /* The closure might modify the table */
+   buzzdict_t s = buzzobj_snapshot(vm, t);
    /* Create a table as the return value */
    buzzobj_t r = buzzheap_newobj(vm, BUZZTYPE_TABLE);
    buzzvm_push(vm, r);
@@ -523,7 +544,7 @@ int buzzobj_filter(buzzvm_t vm) {
       .fun = c,
       .result = r->t.value
    };
-   buzzdict_foreach(t->t.value, buzzobj_filter_entry, &p);
+   buzzdict_foreach(s, buzzobj_filter_entry, &p);
    /* Return the table */
    return buzzvm_ret1(vm);
 }
-- 
2.43.0


From 9f495a93fa27154ddeb599dfa62fe6230bc8493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:36 +0000
Subject: [PATCH 21/95] fix: cloning a table that contains itself overflowed
 the stack

---
 src/buzz/buzzheap.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index f8b65f0..487fac2 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -58,19 +58,39 @@ buzzobj_t buzzheap_newobj(buzzvm_t vm,
 /****************************************/
 /****************************************/
 
+/* A table being cloned, its clone, and the table that contains it */
 struct buzzheap_clone_tableelem_s {
    buzzvm_t vm;
    buzzdict_t t;
+   buzzobj_t orig;
+   buzzobj_t copy;
+   struct buzzheap_clone_tableelem_s* parent;
 };
 
+static buzzobj_t buzzheap_clone_in(buzzvm_t vm,
+                                   const buzzobj_t o,
+                                   struct buzzheap_clone_tableelem_s* parent);
+
 void buzzheap_clone_tableelem(const void* key, void* data, void* params) {
    struct buzzheap_clone_tableelem_s* p = (struct buzzheap_clone_tableelem_s*)params;
-   buzzobj_t k = buzzheap_clone(p->vm, *(buzzobj_t*)key);
-   buzzobj_t d = buzzheap_clone(p->vm, *(buzzobj_t*)data);
+   buzzobj_t k = buzzheap_clone_in(p->vm, *(buzzobj_t*)key, p);
+   buzzobj_t d = buzzheap_clone_in(p->vm, *(buzzobj_t*)data, p);
    buzzdict_set(p->t, &k, &d);
 }
 
 buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
+   return buzzheap_clone_in(vm, o, NULL);
+}
+
+static buzzobj_t buzzheap_clone_in(buzzvm_t vm,
+                                   const buzzobj_t o,
+                                   struct buzzheap_clone_tableelem_s* parent) {
+   /* A table that contains itself maps to the clone under construction */
+   if(o->o.type == BUZZTYPE_TABLE) {
+      struct buzzheap_clone_tableelem_s* a;
+      for(a = parent; a; a = a->parent)
+         if(a->orig->t.value == o->t.value) return a->copy;
+   }
    buzzobj_t x = (buzzobj_t)malloc(sizeof(union buzzobj_u));
    x->o.type = o->o.type;
    x->o.marker = o->o.marker;
@@ -112,7 +132,10 @@ buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
                                    orig->dstryf);
          struct buzzheap_clone_tableelem_s p = {
             .vm = vm,
-            .t = x->t.value
+            .t = x->t.value,
+            .orig = o,
+            .copy = x,
+            .parent = parent
          };
          buzzdict_foreach(orig, buzzheap_clone_tableelem, &p);
          return x;
-- 
2.43.0


From 45448c1300d726e49190c6c457f64837e2f27c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 22/95] fix: deleting a virtual stigmergy entry restarted its
 version, losing later writes

---
 src/buzz/buzzvstig.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index b8aa18b..574a853 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -205,26 +205,18 @@ int buzzvstig_put(buzzvm_t vm) {
       const buzzvstig_elem_t* x = buzzvstig_fetch(*vs, &k);
       if(x) {
          /* Element found */
-         if(v->o.type != BUZZTYPE_NIL) {
-            /* New value is not nil, update the existing element */
+         /* A nil value deletes the element. The element stays as a marker of
+          * the deletion, so that its version keeps increasing and older
+          * values coming from the neighbors do not bring it back. */
+         if(v->o.type != BUZZTYPE_NIL ||
+            (*x)->data->o.type != BUZZTYPE_NIL) {
+            /* Update the existing element */
             (*x)->data = v;
             ++((*x)->timestamp);
             (*x)->robot = vm->robot;
             /* Append a PUT message to the out message queue */
             buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, *x);
          }
-         else {
-            /* New value is nil, must delete the existing element */
-            /* Make a new element with nil as value to update neighbors */
-            buzzvstig_elem_t y = buzzvstig_elem_new(
-               buzzobj_new(BUZZTYPE_NIL), // nil value
-               (*x)->timestamp + 1,       // new timestamp
-               vm->robot);                // robot id
-            /* Append a PUT message to the out message queue with nil in it */
-            buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, y);
-            /* Delete the existing element */
-            buzzvstig_remove(*vs, &k);
-         }
       }
       else if(v->o.type != BUZZTYPE_NIL) {
          /* Element not found and new value is not nil, store it */
@@ -250,6 +242,8 @@ void buzzvstig_foreach_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzvstig_foreach_params* p = (struct buzzvstig_foreach_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Skip deleted elements */
+   if((*(buzzvstig_elem_t*)data)->data->o.type == BUZZTYPE_NIL) return;
    /* Push closure and params (key, value, robot) */
    buzzvm_push(p->vm, p->fun);
    buzzvm_push(p->vm, *(buzzobj_t*)key);
@@ -283,6 +277,12 @@ int buzzvstig_foreach(struct buzzvm_s* vm) {
 /****************************************/
 /****************************************/
 
+void buzzvstig_size_entry(const void* key, void* data, void* params) {
+   /* Deleted elements don't count */
+   if((*(buzzvstig_elem_t*)data)->data->o.type != BUZZTYPE_NIL)
+      ++(*(int32_t*)params);
+}
+
 int buzzvstig_size(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 0);
    /* Get vstig id */
@@ -291,7 +291,9 @@ int buzzvstig_size(buzzvm_t vm) {
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
       /* Virtual stigmergy found, return its size */
-      buzzvm_pushi(vm, buzzdict_size((*vs)->data));
+      int32_t size = 0;
+      buzzdict_foreach((*vs)->data, buzzvstig_size_entry, &size);
+      buzzvm_pushi(vm, size);
    }
    else {
       /* Virtual stigmergy not found, return 0 */
-- 
2.43.0


From 4199958bb8621bbc281294a97a743b4c4b3cb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:37 +0000
Subject: [PATCH 23/95] fix: replacing a conflict function of a virtual
 stigmergy freed it twice

---
 src/buzz/buzzvstig.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 574a853..355fc64 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -360,8 +360,7 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       /* Get closure */
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-      /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
+      /* Clone the closure; the garbage collector takes care of the previous one */
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -388,8 +387,7 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       /* Get closure */
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-      /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
+      /* Clone the closure; the garbage collector takes care of the previous one */
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From add45e772b057532fb9018dc2afce8573c5a8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 24/95] fix: conflict functions of a virtual stigmergy left
 values on the stack

---
 src/buzz/buzzvm.c    |  3 +++
 src/buzz/buzzvstig.c | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 807b76a..5034b62 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -338,6 +338,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_onconflict_call(vm, *vs, k, *l, v);
                if(!c) {
                   fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
+                  free(v);
                   break;
                }
                /* Get rid of useless vstig element */
@@ -352,6 +353,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_store(*vs, &k, &c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
@@ -441,6 +443,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_store(*vs, &k, &c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 355fc64..78edc8d 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -425,19 +425,22 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY) return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -489,7 +492,9 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) != BUZZVM_STATE_READY) return;
+      /* Get rid of the return value */
+      buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From 8ba6da935eaca03d40e2da90a94bb6a7f5122212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:02 +0000
Subject: [PATCH 25/95] fix: the winner of a conflict was not announced while
 the loser was queued

---
 src/buzz/buzzoutmsg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index dbcb2a8..7e3f301 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -338,8 +338,11 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
       /* Yes; if the duplicate is newer than the passed message, nothing to do */
-      if((*e)->data->timestamp >= data->timestamp) return;
-      /* The duplicate is older, store data to remove it later */
+      if((*e)->data->timestamp > data->timestamp) return;
+      /* With the same timestamp, a query adds nothing to the duplicate, while
+       * a put might carry the winner of a conflict */
+      if((*e)->data->timestamp == data->timestamp && type == BUZZMSG_VSTIG_QUERY) return;
+      /* The duplicate is superseded, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
    }
-- 
2.43.0


From 36ccc03aa65b35d18e9ca316b8468407d12c462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:05 +0000
Subject: [PATCH 26/95] fix: messages still queued when a virtual machine is
 destroyed leaked

---
 src/buzz/buzzinmsg.c  | 5 +++++
 src/buzz/buzzoutmsg.c | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..1f20de3 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -10,6 +10,11 @@
 
 void buzzvm_inmsg_queue_destroy_entry(const void* key, void* data, void* param) {
    free((void*)key);
+   /* Get rid of the messages not extracted yet */
+   buzzdarray_t q = *(buzzdarray_t*)data;
+   uint32_t i;
+   for(i = 0; i < buzzdarray_size(q); ++i)
+      buzzmsg_payload_destroy(&buzzdarray_get(q, i, buzzmsg_payload_t));
    buzzdarray_destroy((buzzdarray_t*)data);
    free(data);
 }
diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index 7e3f301..e1bdf56 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -68,7 +68,7 @@ void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
       case BUZZMSG_SWARM_JOIN:
       case BUZZMSG_SWARM_LEAVE:
       case BUZZMSG_SWARM_LIST:
-         if(m->sw.size > 0) free(m->sw.ids);
+         free(m->sw.ids);
          break;
       case BUZZMSG_VSTIG_PUT:
       case BUZZMSG_VSTIG_QUERY:
-- 
2.43.0


From 1e850672ef5c2907ac2009821f844704e79c83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:07 +0000
Subject: [PATCH 27/95] fix: messages of a robot were processed in reverse
 order

---
 src/buzz/buzzinmsg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1f20de3..e52ba17 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -64,9 +64,9 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
          break;
       }
    }
-   /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   /* Extract the oldest payload from array */
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From 1afe526eb2db424a1edd00a2efdfb9d403f7e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:44 +0000
Subject: [PATCH 28/95] fix: malformed broadcast and stigmergy messages crashed
 the robot

---
 src/buzz/buzztype.c  |  5 +++++
 src/buzz/buzzvm.c    | 13 +++++++++++++
 src/buzz/buzzvstig.c |  2 ++
 3 files changed, 20 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ea583d8..1bac06c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -616,6 +616,7 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   if(type > BUZZTYPE_CLOSURE) return -1; /* Not a type that can be sent */
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
@@ -648,6 +649,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             if(p < 0) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
+            /* Make sure the key is valid */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             buzzdict_set((*data)->t.value, &k, &v);
          }
          return p;
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 5034b62..452d445 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -272,12 +272,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Ignore empty messages */
+      if(buzzmsg_payload_size(msg) == 0) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -287,6 +296,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 78edc8d..1f3a1b8 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -137,6 +137,8 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   /* Closures can't be keys */
+   if((*key)->o.type == BUZZTYPE_CLOSURE) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
-- 
2.43.0


From b4bd676ec687ef2ae77fee12d1c98a894f74eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 29/95] fix: an empty swarm list was ignored and a truncated
 one applied with garbage

---
 src/buzz/buzzvm.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 452d445..13b7301 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -480,16 +480,18 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
             /* Deserialize swarm ids */
-            buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
+            buzzdarray_t sids = buzzdarray_new(nsids > 0 ? nsids : 1, sizeof(uint16_t), NULL);
             uint16_t i;
-            for(i = 0; i < nsids; ++i) {
-               pos = buzzmsg_deserialize_u16(buzzdarray_makeslot(sids, i), msg, pos);
-               if(pos < 0) {
-                  fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
-                  break;
-               }
+            for(i = 0; i < nsids && pos >= 0; ++i) {
+               uint16_t sid;
+               pos = buzzmsg_deserialize_u16(&sid, msg, pos);
+               buzzdarray_push(sids, &sid);
+            }
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
+               buzzdarray_destroy(&sids);
+               break;
             }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
-- 
2.43.0


From bc642fa2e4ceacf4a6cf39499b0644d69a78e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:58 +0000
Subject: [PATCH 30/95] fix: infinite floats were received as arbitrary finite
 numbers

---
 src/buzz/buzzmsg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 640c9aa..3e7a17a 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -96,6 +96,11 @@ void buzzmsg_serialize_float(buzzdarray_t buf,
     * otherwise data = nf * 2^exp and nf is in +-[0.5,1)
     */
    float nf = frexpf(data, &exp);
+   /* An infinity has no finite fraction: send a power of 2 out of range */
+   if(isinf(data)) {
+      nf = 0.5f;
+      exp = 1024;
+   }
    /* Take the magnitude of nf and translate it by -0.5 */
    nf = fabsf(nf) - 0.5f;
    /* Now we can safely test for zero */
-- 
2.43.0


From d2eaa1342313ba62684536bf42ff2ef8a5a501a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:42 +0000
Subject: [PATCH 31/95] fix: values that can't be sent produced malformed
 messages or overflowed the stack

---
 src/buzz/buzzmsg.c  | 12 ++++-----
 src/buzz/buzztype.c | 65 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 3e7a17a..e730c7b 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -172,15 +172,15 @@ int64_t buzzmsg_deserialize_float(float* data,
 
 void buzzmsg_serialize_string(buzzdarray_t buf,
                               const char* data) {
-   /* Get the length of the string */
-   uint16_t len = strlen(data);
+   /* Get the length of the string, as much as fits in 16 bits */
+   size_t slen = strlen(data);
+   uint16_t len = slen > UINT16_MAX ? UINT16_MAX : slen;
    /* Push that into the buffer */
    buzzmsg_serialize_u16(buf, len);
    /* Go through the characters and push them into the buffer */
-   const char* c = data;
-   while(*c) {
-      buzzdarray_push(buf, (uint8_t*)(c));
-      ++c;
+   uint16_t i;
+   for(i = 0; i < len; ++i) {
+      buzzdarray_push(buf, (uint8_t*)(data + i));
    }
 }
 
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 1bac06c..b46e1a4 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -552,13 +552,50 @@ int buzzobj_filter(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/* A table being serialized, and the one that contains it */
+struct buzzobj_serialize_params {
+   buzzdarray_t buf;
+   buzzobj_t table;
+   uint8_t left; /* Entries left to send */
+   struct buzzobj_serialize_params* parent;
+};
+
+static void buzzobj_serialize_in(buzzdarray_t buf,
+                                 const buzzobj_t data,
+                                 struct buzzobj_serialize_params* parent);
+
 void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
-   buzzobj_serialize((buzzdarray_t)params, *(buzzobj_t*)key);
-   buzzobj_serialize((buzzdarray_t)params, *(buzzobj_t*)data);
+   struct buzzobj_serialize_params* p = (struct buzzobj_serialize_params*)params;
+   if(p->left == 0) return;
+   --p->left;
+   buzzobj_serialize_in(p->buf, *(buzzobj_t*)key, p);
+   buzzobj_serialize_in(p->buf, *(buzzobj_t*)data, p);
 }
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   buzzobj_serialize_in(buf, data, NULL);
+}
+
+static void buzzobj_serialize_in(buzzdarray_t buf,
+                                 const buzzobj_t data,
+                                 struct buzzobj_serialize_params* parent) {
+   /* A table inside itself can't be sent, nil goes in its place */
+   struct buzzobj_serialize_params* a;
+   for(a = parent; a; a = a->parent) {
+      if(a->table == data) {
+         buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+         return;
+      }
+   }
+   /* Neither can nested closures and user data */
+   if((data->o.type == BUZZTYPE_CLOSURE &&
+       buzzdarray_size(data->c.value.actrec) != 1) ||
+      data->o.type == BUZZTYPE_USERDATA) {
+      fprintf(stderr, "[TODO] %s:%d: can't serialize a %s, sending nil\n", __FILE__, __LINE__, data->o.type == BUZZTYPE_CLOSURE ? "nested closure" : "userdata");
+      buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+      return;
+   }
    buzzmsg_serialize_u8(buf, data->o.type);
    switch(data->o.type) {
       case BUZZTYPE_NIL: {
@@ -577,8 +614,15 @@ void buzzobj_serialize(buzzdarray_t buf,
          break;
       }
       case BUZZTYPE_TABLE: {
-         buzzmsg_serialize_u8(buf, buzzdict_size(data->t.value));
-         buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, buf);
+         /* The entry count is one byte, excess entries are not sent */
+         struct buzzobj_serialize_params p = {
+            .buf = buf,
+            .table = data,
+            .left = buzzdict_size(data->t.value) > UINT8_MAX ? UINT8_MAX : buzzdict_size(data->t.value),
+            .parent = parent
+         };
+         buzzmsg_serialize_u8(buf, p.left);
+         buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, &p);
          break;
       }
       case BUZZTYPE_CLOSURE: {
@@ -591,13 +635,8 @@ void buzzobj_serialize(buzzdarray_t buf,
          // closures completely. The only supported cases are
          // serializing a function and the test case in
          // testmobilecode.bzz, which involves a table.
-         if(buzzdarray_size(data->c.value.actrec) == 1) {
-            buzzmsg_serialize_u8(buf, data->c.value.isnative);
-            buzzmsg_serialize_u32(buf, data->c.value.ref);
-         }
-         else {
-            fprintf(stderr, "[TODO] %s:%d: can't serialize a nested closure\n", __FILE__, __LINE__);
-         }
+         buzzmsg_serialize_u8(buf, data->c.value.isnative);
+         buzzmsg_serialize_u32(buf, data->c.value.ref);
          break;
       }
       default:
@@ -653,7 +692,9 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             if(k->o.type != BUZZTYPE_INT &&
                k->o.type != BUZZTYPE_FLOAT &&
                k->o.type != BUZZTYPE_STRING) return -1;
-            buzzdict_set((*data)->t.value, &k, &v);
+            /* Tables don't hold nil values */
+            if(v->o.type != BUZZTYPE_NIL)
+               buzzdict_set((*data)->t.value, &k, &v);
          }
          return p;
       }
-- 
2.43.0


From ac360687cf445349042b30eb9d6d7df72806b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:56 +0000
Subject: [PATCH 32/95] fix: a function used as virtual stigmergy key aborted
 the process

---
 src/buzz/buzzvstig.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 1f3a1b8..abf6321 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -25,6 +25,14 @@
    buzzvm_ ## METHOD(vm, VAL->FIELD);                       \
    buzzvm_tput(vm);
 
+#define key_assert(KEY)                                             \
+   if((KEY)->o.type == BUZZTYPE_CLOSURE) {                           \
+      buzzvm_seterror(vm,                                            \
+                      BUZZVM_ERROR_TYPE,                             \
+                      "a closure can't be a virtual stigmergy key"); \
+      return vm->state;                                              \
+   }
+
 /****************************************/
 /****************************************/
 
@@ -197,6 +205,7 @@ int buzzvstig_put(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Get value */
    buzzvm_lload(vm, 2);
    buzzobj_t v = buzzvm_stack_at(vm, 1);
@@ -315,6 +324,7 @@ int buzzvstig_get(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-- 
2.43.0


From f4c01c84e8258b037947850432acb01c888f27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:41 +0000
Subject: [PATCH 33/95] fix: garbage collection overflowed the C stack on long
 chains of objects

---
 src/buzz/buzzheap.c | 29 ++++++++++++++++++++---------
 src/buzz/buzzheap.h |  2 ++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index 487fac2..8682e26 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -24,6 +24,8 @@ buzzheap_t buzzheap_new() {
    h->max_objs = BUZZHEAP_GC_INIT_MAXOBJS;
    /* Initialize the marker */
    h->marker = 0;
+   /* Create list of objects to go through when marking */
+   h->tomark = buzzdarray_new(10, sizeof(buzzobj_t), NULL);
    /* All done */
    return h;
 }
@@ -34,6 +36,7 @@ buzzheap_t buzzheap_new() {
 void buzzheap_destroy(buzzheap_t* h) {
    /* Get rid of object list */
    buzzdarray_destroy(&((*h)->objs));
+   buzzdarray_destroy(&((*h)->tomark));
    /* Get rid of heap state */
    free(*h);
    /* Set heap to NULL */
@@ -158,15 +161,10 @@ void buzzheap_obj_mark(buzzobj_t o,
    if(o->o.marker == vm->heap->marker) return;
    /* Update marker */
    o->o.marker = vm->heap->marker;
-   /* Take care of composite types */
-   if(o->o.type == BUZZTYPE_TABLE)
-      buzzdict_foreach(o->t.value,
-                       buzzheap_dictobj_mark,
-                       vm);
-   else if(o->o.type == BUZZTYPE_CLOSURE)
-      buzzdarray_foreach(o->c.value.actrec,
-                         buzzheap_darrayobj_mark,
-                         vm);
+   /* Composite types are gone through later, recursion would overflow
+    * the C stack with long chains of objects */
+   if(o->o.type == BUZZTYPE_TABLE || o->o.type == BUZZTYPE_CLOSURE)
+      buzzdarray_push(vm->heap->tomark, &o);
    else if(o->o.type == BUZZTYPE_STRING)
       buzzstrman_gc_mark(vm->strings,
                          o->s.value.sid);
@@ -238,6 +236,19 @@ void buzzheap_gc(struct buzzvm_s* vm) {
    buzzdict_foreach(vm->listeners, buzzheap_listener_mark, vm);
    /* Go through all the objects in the out message queue and mark them */
    buzzoutmsg_gc(vm);
+   /* Go through the content of the marked objects and mark it */
+   while(!buzzdarray_isempty(h->tomark)) {
+      buzzobj_t o = buzzdarray_last(h->tomark, buzzobj_t);
+      buzzdarray_pop(h->tomark);
+      if(o->o.type == BUZZTYPE_TABLE)
+         buzzdict_foreach(o->t.value,
+                          buzzheap_dictobj_mark,
+                          vm);
+      else
+         buzzdarray_foreach(o->c.value.actrec,
+                            buzzheap_darrayobj_mark,
+                            vm);
+   }
    /* Go through all the objects in the object list and delete the unmarked ones */
    int64_t i = buzzdarray_size(h->objs) - 1;
    while(i >= 0) {
diff --git a/src/buzz/buzzheap.h b/src/buzz/buzzheap.h
index 7bbf95f..bc7c7c1 100644
--- a/src/buzz/buzzheap.h
+++ b/src/buzz/buzzheap.h
@@ -23,6 +23,8 @@ extern "C" {
       uint32_t max_objs;
       /* Current marker for garbage collection */
       uint16_t marker;
+      /* Marked objects whose content is still to be marked */
+      buzzdarray_t tomark;
    };
    typedef struct buzzheap_s* buzzheap_t;
 
-- 
2.43.0


From 36f25a5bf2843a1804928643613a7d2abb76d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 34/95] fix: registering a C function again added it again,
 growing memory at every swarm or neighbor table

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 13b7301..58b93ac 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1130,7 +1130,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From 3dfd0ea0c4c896a19c604c127bf08acdd9b4de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:06 +0000
Subject: [PATCH 35/95] fix: swarm.id(0) read past the end of the swarm stack

---
 src/buzz/buzzswarm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..fb2432d 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -323,6 +323,8 @@ int buzzswarm_id(struct buzzvm_s* vm) {
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
+      if(stackpos < 1)
+         stackpos = 1;
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
-- 
2.43.0


From 86253a180d540f82737475d5c5e005831b2cef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:10 +0000
Subject: [PATCH 36/95] fix: executing a C closure in a swarm executed a stray
 instruction of the script

---
 src/buzz/buzzswarm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index fb2432d..e8887e1 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -508,9 +508,10 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      /* A C closure is already over at this point */
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
-- 
2.43.0


From 6f0884dd74921ac2c627f1d8db0e8eee3e7b4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:13 +0000
Subject: [PATCH 37/95] fix: selecting a swarm with a multiple of 256
 unselected it

---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index e8887e1..93c73ba 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -456,7 +456,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From 84aad608b750db6b1e194667476dec91956fc6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 38/95] fix: leaving a swarm redefined by a set operation was
 not announced

---
 src/buzz/buzzswarm.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 93c73ba..d968ab1 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -341,6 +341,19 @@ int buzzswarm_id(struct buzzvm_s* vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Sets the membership to a swarm resulting from a set operation.
+ * The neighbors must know if the robot is in the swarm, or isn't anymore.
+ */
+static void buzzswarm_set_membership(buzzvm_t vm, uint16_t id, uint8_t v) {
+   const uint8_t* x = buzzdict_get(vm->swarms, &id, uint8_t);
+   uint8_t wasin = (x && *x);
+   buzzdict_set(vm->swarms, &id, &v);
+   if(v || wasin)
+      buzzoutmsg_queue_append_swarm_joinleave(
+         vm, v ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE, id);
+}
+
 int buzzswarm_others(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get the id of the current swarm */
@@ -360,13 +373,8 @@ int buzzswarm_others(buzzvm_t vm) {
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    uint16_t id2 = buzzvm_stack_at(vm, 1)->i.value;
-   /* Add a new entry for the swarm */
-   uint8_t v = *x ? 0 : 1;
-   buzzdict_set(vm->swarms, &id2, &v);
-   /* Send update, if necessary */
-   if(v)
-      buzzoutmsg_queue_append_swarm_joinleave(
-         vm, BUZZMSG_SWARM_JOIN, id2);
+   /* Add a new entry for the swarm and send update, if necessary */
+   buzzswarm_set_membership(vm, id2, *x ? 0 : 1);
    /* Create a table to return */
    make_table(vm, id2);
    /* Return */
@@ -572,14 +580,10 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    if(s2 < 0) return vm->state;                                   \
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
-   /* Add a new entry to the swarm list */                        \
-   buzzdict_set(vm->swarms, &id, &v);                             \
+   /* Add a new entry to the swarm list, send update if needed */ \
+   buzzswarm_set_membership(vm, id, v);                           \
    /* Create a table */                                           \
    make_table(vm, id);                                            \
-   /* Send update, if necessary */                                \
-   if(v)                                                          \
-      buzzoutmsg_queue_append_swarm_joinleave(                    \
-         vm, BUZZMSG_SWARM_JOIN, id);                             \
    /* Return swarm */                                             \
    return buzzvm_ret1(vm);
 
-- 
2.43.0


From 9fcf4c6bbe8dd578478956570bfacdf24ceb96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:54 +0000
Subject: [PATCH 39/95] fix: a swarm set operation failing on a wrong argument
 still changed the membership

---
 src/buzz/buzzswarm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index d968ab1..1cd9d06 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -573,11 +573,11 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    /* Swarm 1: must be a table with id = existing swarm */        \
    buzzvm_lload(vm, 2);                                           \
    int s1 = buzzswarm_check(vm);                                  \
-   if(s1 < 0) return vm->state;                                   \
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;          \
    /* Swarm 2: must be a table with id = existing swarm */        \
    buzzvm_lload(vm, 3);                                           \
    int s2 = buzzswarm_check(vm);                                  \
-   if(s2 < 0) return vm->state;                                   \
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;          \
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
    /* Add a new entry to the swarm list, send update if needed */ \
-- 
2.43.0


From 6d5b13ce20e28e5001ddd7a3c2bfd5c1b1d693f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:57 +0000
Subject: [PATCH 40/95] fix: a swarm or stigmergy method in another table acted
 on an arbitrary identifier

---
 src/buzz/buzzswarm.c | 4 ++++
 src/buzz/buzzvstig.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 1cd9d06..4f2ea2c 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -14,8 +14,10 @@
 
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);             \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
    buzzvm_tget(vm);                                       \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 /****************************************/
@@ -358,8 +360,10 @@ int buzzswarm_others(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get the id of the current swarm */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
    buzzvm_tget(vm);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    uint16_t id1 = buzzvm_stack_at(vm, 1)->i.value;
    /* Get the swarm entry */
    const uint8_t* x = buzzdict_get(vm->swarms, &id1, uint8_t);
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index abf6321..77df223 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -15,8 +15,10 @@
 
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);             \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
    buzzvm_tget(vm);                                       \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 #define add_field(FIELD, VAL, METHOD)                       \
-- 
2.43.0


From 3e5c5ad3636d34f9a261bc781fb82299012c7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 41/95] fix: writing in a virtual stigmergy while iterating on
 it crashed or skipped entries

---
 src/buzz/buzzvstig.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 77df223..6bfea17 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -246,24 +246,14 @@ int buzzvstig_put(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
-struct buzzvstig_foreach_params {
-   buzzvm_t vm;
-   buzzobj_t fun;
-};
-
 void buzzvstig_foreach_entry(const void* key, void* data, void* params) {
-   /* Cast params */
-   struct buzzvstig_foreach_params* p = (struct buzzvstig_foreach_params*)params;
-   if(p->vm->state != BUZZVM_STATE_READY) return;
+   buzzvm_t vm = (buzzvm_t)params;
    /* Skip deleted elements */
    if((*(buzzvstig_elem_t*)data)->data->o.type == BUZZTYPE_NIL) return;
-   /* Push closure and params (key, value, robot) */
-   buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, (*(buzzvstig_elem_t*)data)->data);
-   buzzvm_pushi(p->vm, (*(buzzvstig_elem_t*)data)->robot);
-   /* Call closure */
-   p->vm->state = buzzvm_closure_call(p->vm, 3);
+   /* Push key, value, robot */
+   buzzvm_push(vm, *(buzzobj_t*)key);
+   buzzvm_push(vm, (*(buzzvstig_elem_t*)data)->data);
+   buzzvm_pushi(vm, (*(buzzvstig_elem_t*)data)->robot);
 }
 
 int buzzvstig_foreach(struct buzzvm_s* vm) {
@@ -279,9 +269,23 @@ int buzzvstig_foreach(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       buzzobj_t c = buzzvm_stack_at(vm, 1);
+      /* Collect the elements on the stack, because the closure could change
+       * the virtual stigmergy */
+      int64_t i = buzzvm_stack_top(vm);
+      buzzdict_foreach((*vs)->data, buzzvstig_foreach_entry, vm);
       /* Go through the elements and apply the closure */
-      struct buzzvstig_foreach_params p = { .vm = vm, .fun = c };
-      buzzdict_foreach((*vs)->data, buzzvstig_foreach_entry, &p);
+      int64_t end = buzzvm_stack_top(vm);
+      for(; i < end; i += 3) {
+         /* Push closure and params (key, value, robot) */
+         buzzvm_push(vm, c);
+         buzzvm_push(vm, buzzdarray_get(vm->stack, i,   buzzobj_t));
+         buzzvm_push(vm, buzzdarray_get(vm->stack, i+1, buzzobj_t));
+         buzzvm_push(vm, buzzdarray_get(vm->stack, i+2, buzzobj_t));
+         /* Call closure */
+         if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY) return vm->state;
+         /* Get rid of the return value */
+         buzzvm_pop(vm);
+      }
    }
    /* Return */
    return buzzvm_ret0(vm);
-- 
2.43.0


From 16bd82058a393f5c44d7d5fe0b2fabe7f2180ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:31 +0000
Subject: [PATCH 42/95] fix: conflict functions that write in the stigmergy or
 drop the key corrupted memory

---
 src/buzz/buzzvm.c    | 105 ++++++++++++++++++++++---------------------
 src/buzz/buzzvstig.c |  10 ++++-
 2 files changed, 62 insertions(+), 53 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 58b93ac..8216ddc 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -263,6 +263,57 @@ void buzzvm_outmsg_destroy(uint32_t pos, void* data, void* param) {
    fprintf(stderr, "[TODO] %s:%d\n", __FILE__, __LINE__);
 }
 
+/*
+ * Solves a conflict on an element of a virtual stigmergy.
+ * @param vm The VM data.
+ * @param id The id of the virtual stigmergy.
+ * @param vs The virtual stigmergy.
+ * @param k The key.
+ * @param l The local element.
+ * @param v The remote element. It is deallocated by this function.
+ */
+static void buzzvm_vstig_conflict(buzzvm_t vm,
+                                  uint16_t id,
+                                  buzzvstig_t vs,
+                                  buzzobj_t k,
+                                  buzzvstig_elem_t l,
+                                  buzzvstig_elem_t v) {
+   /* Call conflict manager */
+   buzzvstig_elem_t c = buzzvstig_onconflict_call(vm, vs, k, l, v);
+   /* Get rid of useless vstig element */
+   uint16_t timestamp = v->timestamp;
+   free(v);
+   /* Make sure conflict manager returned with an element to process */
+   if(!c) {
+      fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving virtual stigmergy conflict\n", vm->robot);
+      return;
+   }
+   /* The conflict manager could have written or re-created the virtual
+    * stigmergy: in that case, the conflict is over */
+   const buzzvstig_t* nvs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+   const buzzvstig_elem_t* nl = nvs ? buzzvstig_fetch(*nvs, &k) : NULL;
+   if(!nl || (*nl)->timestamp != timestamp) {
+      free(c);
+      return;
+   }
+   /* Did this robot lose the conflict? */
+   buzzvstig_elem_t ol = NULL;
+   if((c->robot != vm->robot) &&
+      ((*nl)->robot == vm->robot)) {
+      /* Yes, save current local entry */
+      ol = buzzvstig_elem_clone(vm, *nl);
+   }
+   /* Store winning value */
+   buzzvstig_store(*nvs, &k, &c);
+   /* Propagate the PUT message */
+   buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+   /* Call conflict lost manager */
+   if(ol) {
+      buzzvstig_onconflictlost_call(vm, *nvs, k, ol);
+      free(ol);
+   }
+}
+
 void buzzvm_process_inmsgs(buzzvm_t vm) {
    /* Go through the messages */
    while(!buzzinmsg_queue_isempty(vm->inmsgs)) {
@@ -346,34 +397,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               if(!c) {
-                  fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
-                  free(v);
-                  break;
-               }
-               /* Get rid of useless vstig element */
-               free(v);
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-                  free(ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               buzzvm_vstig_conflict(vm, id, *vs, k, *l, v);
             }
             else {
                /* Remote element is older, ignore it */
@@ -440,30 +464,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               free(v);
-               /* Make sure conflict manager returned with an element to process */
-               if(!c) break;
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-                  free(ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               buzzvm_vstig_conflict(vm, id, *vs, k, *l, v);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 6bfea17..c0c4d77 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -428,6 +428,10 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
                                            buzzvstig_elem_t rv) {
    /* Was a conflict manager defined? */
    if(vs->onconflict) {
+      /* The closure could re-create the virtual stigmergy */
+      uint16_t timestamp = lv->timestamp;
+      /* Keep the key on the stack, the caller needs it afterwards */
+      buzzvm_push(vm, k);
       /* Push closure */
       buzzvm_push(vm, vs->onconflict);
       /* Push key */
@@ -449,6 +453,7 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
          buzzvm_pop(vm);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
@@ -456,6 +461,7 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          buzzvm_pop(vm);
          return NULL;
       }
@@ -467,8 +473,10 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       buzzvm_tget(vm);
       buzzobj_t data = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      /* Get rid of the key */
+      buzzvm_pop(vm);
       /* Make new entry */
-      return buzzvstig_elem_new(data, lv->timestamp, robot);
+      return buzzvstig_elem_new(data, timestamp, robot);
    }
    else {
       /* No conflict manager, use default behavior */
-- 
2.43.0


From d3fcd486c8d4bbd4feb5ad6d51fd29a3584b5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:03 +0000
Subject: [PATCH 43/95] fix: iterating on the lines of a file with more than
 one line killed the process

---
 src/buzz/buzzio.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..4617c7d 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -158,12 +158,10 @@ int buzzio_fforeach(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Go through the file lines */
-   int vmstate = vm->state;
-   size_t cap; /* line buffer capacity */
+   size_t cap = 0; /* line buffer capacity */
    char* line = NULL;
    ssize_t len = getline(&line, &cap, f);
-   while(len >= 0 &&
-         vmstate == BUZZVM_STATE_READY) {
+   while(len >= 0) {
       /* Remove newline if present */
       if(line[len-1] == '\n') line[len-1] = '\0';
       /* Put closure on the stack (will be wiped by buzzvm_closure_call) */
@@ -171,12 +169,14 @@ int buzzio_fforeach(buzzvm_t vm) {
       /* Push string argument */
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
-      vmstate = buzzvm_closure_call(vm, 1);
+      if(buzzvm_closure_call(vm, 1) != BUZZVM_STATE_READY) {
+         free(line);
+         return vm->state;
+      }
+      /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
       len = getline(&line, &cap, f);
-      /* Remove the nil (return value) left by closure_call */
-      buzzvm_pop(vm);
    }
    /* Register error information */
    buzzio_update_error(vm);
-- 
2.43.0


From 3fe3e7ba9d4cb72fead2aeb4cafb31fd64dc8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:04 +0000
Subject: [PATCH 44/95] fix: using a closed file or a table that is not a file
 killed the process

---
 src/buzz/buzzio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 4617c7d..ddd9939 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -17,6 +17,7 @@
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
    buzzvm_pop(vm);
 
@@ -117,6 +118,11 @@ int buzzio_fclose(buzzvm_t vm) {
    filehandle_get(f);
    /* Close the file */
    fclose(f);
+   /* The file handle is not valid anymore */
+   buzzvm_lload(vm, 1);
+   buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+   buzzvm_pushnil(vm);
+   buzzvm_tput(vm);
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
-- 
2.43.0


From e51289e7f77486cc2b57f9f92560b1d812672db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:16 +0000
Subject: [PATCH 45/95] fix: closing a file while iterating on its lines
 crashed

---
 src/buzz/buzzio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index ddd9939..3100db0 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -181,6 +181,13 @@ int buzzio_fforeach(buzzvm_t vm) {
       }
       /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
+      /* Stop if the closure closed the file */
+      buzzvm_lload(vm, 1);
+      buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+      buzzvm_tget(vm);
+      int closed = buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_USERDATA;
+      buzzvm_pop(vm);
+      if(closed) break;
       /* Next line */
       len = getline(&line, &cap, f);
    }
-- 
2.43.0


From f00d61cfea6f5797128e360d7645aa3ae15a7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:35 +0000
Subject: [PATCH 46/95] fix: an error in a function called by an iteration or a
 message was reported elsewhere

---
 src/buzz/buzzneighbors.c | 4 ++++
 src/buzz/buzztype.c      | 4 ++++
 src/buzz/buzzvm.c        | 4 ++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..b75708f 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -378,6 +378,7 @@ int buzzneighbors_foreach(struct buzzvm_s* vm) {
       buzzdict_foreach(data->t.value,
                        neighbor_for_each,
                        &edata);
+      if(vm->state != BUZZVM_STATE_READY) return vm->state;
    }
    return buzzvm_ret0(vm);
 }
@@ -453,6 +454,7 @@ int buzzneighbors_map(buzzvm_t vm) {
          .result = mapdata->t.value
       };
       buzzdict_foreach(data->t.value, neighbor_map_each, &fdata);
+      if(vm->state != BUZZVM_STATE_READY) return vm->state;
    }
    /* Return the table */
    buzzvm_push(vm, t);
@@ -520,6 +522,7 @@ int buzzneighbors_reduce(struct buzzvm_s* vm) {
       buzzdict_foreach(data->t.value,
                        neighbor_reduce,
                        &edata);
+      if(vm->state != BUZZVM_STATE_READY) return vm->state;
       /* The final value of the accumulator is on the stack */
    }
    /* Return value */
@@ -601,6 +604,7 @@ int buzzneighbors_filter(struct buzzvm_s* vm) {
          .result = mapdata->t.value
       };
       buzzdict_foreach(data->t.value, neighbor_filter_each, &fdata);
+      if(vm->state != BUZZVM_STATE_READY) return vm->state;
    }
    /* Return the table */
    buzzvm_push(vm, t);
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index b46e1a4..ea68b29 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -354,6 +354,7 @@ int buzzobj_foreach(buzzvm_t vm) {
    /* Go through the table element and apply the closure */
    struct buzzobj_foreach_params p = { .vm = vm, .fun = c };
    buzzdict_foreach(buzzobj_snapshot(vm, t), buzzobj_foreach_entry, &p);
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;
    return buzzvm_ret0(vm);
 }
 
@@ -422,6 +423,7 @@ int buzzobj_map(buzzvm_t vm) {
       .result = r->t.value
    };
    buzzdict_foreach(s, buzzobj_map_entry, &p);
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;
    /* Return the table */
    return buzzvm_ret1(vm);
 }
@@ -477,6 +479,7 @@ int buzzobj_reduce(buzzvm_t vm) {
    /* Go through the table element and apply the closure */
    struct buzzobj_reduce_params p = { .vm = vm, .fun = c };
    buzzdict_foreach(s, buzzobj_reduce_entry, &p);
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;
    /* The final value of the accumulator is on the stack */
    return buzzvm_ret1(vm);
 }
@@ -545,6 +548,7 @@ int buzzobj_filter(buzzvm_t vm) {
       .result = r->t.value
    };
    buzzdict_foreach(s, buzzobj_filter_entry, &p);
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;
    /* Return the table */
    return buzzvm_ret1(vm);
 }
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 8216ddc..a0e2d09 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -359,8 +359,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             buzzvm_push(vm, topic);
             buzzvm_push(vm, value);
             buzzvm_push(vm, rido);
-            buzzvm_closure_call(vm, 3);
-            buzzvm_pop(vm);
+            if(buzzvm_closure_call(vm, 3) == BUZZVM_STATE_READY)
+               buzzvm_pop(vm);
             break;
          }
          case BUZZMSG_VSTIG_PUT: {
-- 
2.43.0


From 54ebed506b3909b7515b6dd0c8f0cc5c474347d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:37 +0000
Subject: [PATCH 47/95] fix: the error message of a virtual machine was never
 freed

---
 src/buzz/buzzvm.c |  2 ++
 src/buzz/buzzvm.h | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a0e2d09..ca6c29f 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -659,6 +659,8 @@ void buzzvm_destroy(buzzvm_t* vm) {
    buzzdict_destroy(&(*vm)->vstigs);
    /* Get rid of neighbor value listeners */
    buzzdict_destroy(&(*vm)->listeners);
+   /* Get rid of the error message */
+   free((*vm)->errormsg);
    free(*vm);
    *vm = 0;
 }
diff --git a/src/buzz/buzzvm.h b/src/buzz/buzzvm.h
index 4f0aa09..6e3768a 100644
--- a/src/buzz/buzzvm.h
+++ b/src/buzz/buzzvm.h
@@ -865,7 +865,15 @@ extern "C" {
  * @param vm The VM data.
  * @param num The number of expected local variables.
  */
-#define buzzvm_lnum_assert(vm, num) if(buzzvm_lnum(vm) != num) { (vm)->state = BUZZVM_STATE_ERROR; (vm)->error = BUZZVM_ERROR_LNUM; asprintf(&(vm)->errormsg, "%s: expected %d parameters, got %" PRId64, buzzvm_error_desc[(vm)->error], num, buzzvm_lnum(vm)); return (vm)->state; }
+#define buzzvm_lnum_assert(vm, num)                                     \
+   if(buzzvm_lnum(vm) != num) {                                         \
+      buzzvm_seterror((vm),                                             \
+                      BUZZVM_ERROR_LNUM,                                \
+                      "expected %d parameters, got %" PRId64,           \
+                      num,                                              \
+                      buzzvm_lnum(vm));                                 \
+      return (vm)->state;                                               \
+   }
 
 /**
  * Calls a normal closure.
-- 
2.43.0


From 819ee1da6f790020778024ff12416d92962a6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 48/95] fix: string.sub with a negative start reads outside the
 string

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..1a25d74 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From 649b05e2ff18c4c9d3dd877275cb2d9260668efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:17 +0000
Subject: [PATCH 49/95] fix: string.tostring of a value that is not a number
 returns garbage

---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 1a25d74..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From a461fa2b7ac5eda427de62e01bf7a369747e6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 50/95] fix: string.toint wraps numbers that do not fit an
 integer

---
 src/buzz/buzzstring.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 6a9bddb..e69bc0a 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -179,10 +179,11 @@ int buzzstring_toint(buzzvm_t vm) {
    /* Convert the string to int */
    char* endptr;
    errno = 0;
-   int32_t i = strtol(s, &endptr, 10);
+   long int i = strtol(s, &endptr, 10);
    /* Was the conversion successful? */
-   if((errno != 0 && i == 0) || /* An error occurred */
-      (endptr == s)) {          /* No digit found */
+   if((errno != 0) ||                  /* An error occurred */
+      (i < INT32_MIN || i > INT32_MAX) || /* Not representable */
+      (endptr == s)) {                 /* No digit found */
       /* Yes, an error occurred */
       buzzvm_pushnil(vm);
    }
-- 
2.43.0


From 072ccf01f0c3e6e85d7968ac1d6462f4ccb66a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:59 +0000
Subject: [PATCH 51/95] fix: math.rng.exponential reads its argument from an
 empty stack

---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..17a9287 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -639,6 +639,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From f3323ab8d8bbc566fde7981f26ec21371d044887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:00 +0000
Subject: [PATCH 52/95] fix: math.rng.gaussian refused one argument and used
 the first of two twice

---
 src/buzz/buzzmath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 17a9287..7045812 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -594,7 +594,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -608,7 +608,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
-- 
2.43.0


From d617f471e1d4af5d3e1eaecb1c5aa1c14fc1f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:01 +0000
Subject: [PATCH 53/95] fix: math.rng.gaussian returns NaN when both uniform
 draws are zero

---
 src/buzz/buzzmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 7045812..0e196b3 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -627,7 +627,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       n2 = (float)mt_uniform32(vm) * 2.0f / INT_MAX - 1.0;
       sq = n1 * n1 + n2 * n2;
    }
-   while(sq >= 1.0f);
+   while(sq >= 1.0f || sq == 0.0f);
    buzzvm_pushf(vm,
                 mean + stddev * n1 * sqrt(-2.0f * logf(sq) / sq));
    return buzzvm_ret1(vm);
-- 
2.43.0


From 7b77278b8bc930c4db4a9a8113a23801c2c02f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:03 +0000
Subject: [PATCH 54/95] fix: math.rng.uniform with negative or wide integer
 bounds leaves the bounds

---
 src/buzz/buzzmath.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 0e196b3..4540536 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -56,6 +56,14 @@ uint32_t mt_uniform32(buzzvm_t vm) {
    return y;
 }
 
+/* Draws an integer between min and max */
+static int32_t mt_uniform_int(buzzvm_t vm, int64_t min, int64_t max) {
+   uint64_t u = mt_uniform32(vm);
+   return max >= min ?
+      min + (int64_t)(u * (uint64_t)(max - min) / INT_MAX) :
+      min - (int64_t)(u * (uint64_t)(min - max) / INT_MAX);
+}
+
 /****************************************/
 /****************************************/
 
@@ -502,7 +510,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      mt_uniform_int(vm, 0, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
@@ -521,7 +529,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_int(vm, min->i.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
-- 
2.43.0


From 83b7eea483b94b816134b14ff66ea48fb3e20eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:04 +0000
Subject: [PATCH 55/95] fix: math.rng.uniform with float bounds can leave the
 bounds

---
 src/buzz/buzzmath.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 4540536..e55d812 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -64,6 +64,14 @@ static int32_t mt_uniform_int(buzzvm_t vm, int64_t min, int64_t max) {
       min - (int64_t)(u * (uint64_t)(min - max) / INT_MAX);
 }
 
+/* Draws a float between min and max */
+static float mt_uniform_float(buzzvm_t vm, double min, double max) {
+   double x = min + (double)mt_uniform32(vm) / INT_MAX * (max - min);
+   /* Rounding might push the result past max */
+   if(max >= min ? x > max : x < max) x = max;
+   return x;
+}
+
 /****************************************/
 /****************************************/
 
@@ -515,7 +523,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
          buzzvm_pushf(vm,
-                      mt_uniform32(vm) * max->f.value / INT_MAX);
+                      mt_uniform_float(vm, 0.0, max->f.value));
       }
       else buzzmath_error(max);
    }
@@ -535,19 +543,19 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
               max->o.type == BUZZTYPE_INT) {
          /* Min is float, max is integer */
          buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->f.value) / INT_MAX + min->f.value);
+                      mt_uniform_float(vm, min->f.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_INT &&
               max->o.type == BUZZTYPE_FLOAT) {
          /* Min is integer, max is integer float */
          buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->f.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_float(vm, min->i.value, max->f.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_FLOAT) {
          /* Both float */
          buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->f.value - min->f.value) / INT_MAX + min->f.value);
+                      mt_uniform_float(vm, min->f.value, max->f.value));
       }
       else {
          /* Error */
-- 
2.43.0


From b5e1c230a272425be6167f39a40c7f7fab793f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 56/95] fix: neighbors.count crashes when poses is not a table

---
 src/buzz/buzzneighbors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b75708f..efb097a 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -622,8 +622,8 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
    int32_t count = 0;
-   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_NIL) {
-      count = buzzdarray_size(buzzvm_stack_at(vm, 1)->t.value);
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_TABLE) {
+      count = buzzdict_size(buzzvm_stack_at(vm, 1)->t.value);
    }
    buzzvm_pushi(vm, count);
    return buzzvm_ret1(vm);
-- 
2.43.0


From 1524130288bbe4df22850edff408e6214644e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:52 +0000
Subject: [PATCH 57/95] fix: neighbor iteration breaks when its callback
 changes the neighbor data

---
 src/buzz/buzzneighbors.c | 10 ++++++----
 src/buzz/buzztype.c      |  2 +-
 src/buzz/buzztype.h      |  9 +++++++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index efb097a..6b249a4 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -375,7 +375,7 @@ int buzzneighbors_foreach(struct buzzvm_s* vm) {
          .vm = vm,
          .closure = closure
       };
-      buzzdict_foreach(data->t.value,
+      buzzdict_foreach(buzzobj_snapshot(vm, data),
                        neighbor_for_each,
                        &edata);
       if(vm->state != BUZZVM_STATE_READY) return vm->state;
@@ -453,7 +453,7 @@ int buzzneighbors_map(buzzvm_t vm) {
          .closure = closure,
          .result = mapdata->t.value
       };
-      buzzdict_foreach(data->t.value, neighbor_map_each, &fdata);
+      buzzdict_foreach(buzzobj_snapshot(vm, data), neighbor_map_each, &fdata);
       if(vm->state != BUZZVM_STATE_READY) return vm->state;
    }
    /* Return the table */
@@ -512,6 +512,8 @@ int buzzneighbors_reduce(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       buzzobj_t closure = buzzvm_stack_at(vm, 1);
+      /* The closure might modify the data */
+      buzzdict_t s = buzzobj_snapshot(vm, data);
       /* Put accumulator on the stack */
       buzzvm_push(vm, accum);
       /* Go through elements */
@@ -519,7 +521,7 @@ int buzzneighbors_reduce(struct buzzvm_s* vm) {
          .vm = vm,
          .closure = closure
       };
-      buzzdict_foreach(data->t.value,
+      buzzdict_foreach(s,
                        neighbor_reduce,
                        &edata);
       if(vm->state != BUZZVM_STATE_READY) return vm->state;
@@ -603,7 +605,7 @@ int buzzneighbors_filter(struct buzzvm_s* vm) {
          .closure = closure,
          .result = mapdata->t.value
       };
-      buzzdict_foreach(data->t.value, neighbor_filter_each, &fdata);
+      buzzdict_foreach(buzzobj_snapshot(vm, data), neighbor_filter_each, &fdata);
       if(vm->state != BUZZVM_STATE_READY) return vm->state;
    }
    /* Return the table */
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ea68b29..a71abf7 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -313,7 +313,7 @@ static void buzzobj_snapshot_entry(const void* key, void* data, void* params) {
  * Pushes a copy of the table, for the functions that call closures on the
  * entries of a table: those closures might modify the table.
  */
-static buzzdict_t buzzobj_snapshot(buzzvm_t vm, buzzobj_t t) {
+buzzdict_t buzzobj_snapshot(buzzvm_t vm, buzzobj_t t) {
    buzzobj_t s = buzzheap_newobj(vm, BUZZTYPE_TABLE);
    buzzvm_push(vm, s);
    buzzdict_foreach(t->t.value, buzzobj_snapshot_entry, s->t.value);
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 5fb3294..0c614c1 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -202,6 +202,15 @@ extern "C" {
     */
    extern int buzzobj_size(struct buzzvm_s* vm);
 
+   /*
+    * Pushes a copy of a table on the stack.
+    * Used to go through a table while calling closures that might modify it.
+    * @param vm The VM data.
+    * @param t The table.
+    * @return The elements of the copy.
+    */
+   extern buzzdict_t buzzobj_snapshot(struct buzzvm_s* vm, buzzobj_t t);
+
    /*
     * C-closure to loop through the elements of a table.
     * @param vm The VM data.
-- 
2.43.0


From 6b3f17606d198d7a2c8965cf52c5d334d3af40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:53 +0000
Subject: [PATCH 58/95] fix: neighbors.map keeps entries for which the function
 returned nil

---
 src/buzz/buzzneighbors.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index 6b249a4..97e091b 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -415,7 +415,8 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    }
    /* Add entry to the return table */
    buzzobj_t retval = buzzvm_stack_at(d->vm, 1);
-   buzzdict_set(d->result, &rid, &retval);
+   if(retval->o.type != BUZZTYPE_NIL)
+      buzzdict_set(d->result, &rid, &retval);
    /* Get rid of return value */
    buzzvm_pop(d->vm);
 }
-- 
2.43.0


From 845eb7034a1804d868b4bd3e0d0072bcff957b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 59/95] fix: truncated bytecode and wild jumps read outside the
 bytecode

---
 src/buzz/buzzvm.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ca6c29f..836cf64 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -706,6 +706,11 @@ void buzzvm_seterror(buzzvm_t vm,
 int buzzvm_set_bcode(buzzvm_t vm,
                      const uint8_t* bcode,
                      uint32_t bcode_size) {
+   /* Make sure the bytecode contains at least the string count */
+   if(bcode_size < sizeof(uint16_t)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, "truncated bytecode");
+      return vm->state;
+   }
    /* Fetch the string count */
    uint16_t count;
    memcpy(&count, bcode, sizeof(uint16_t));
@@ -713,6 +718,11 @@ int buzzvm_set_bcode(buzzvm_t vm,
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
+      /* Make sure the string is terminated */
+      if(!memchr(bcode + i, 0, bcode_size - i)) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_STRING, "truncated bytecode");
+         return vm->state;
+      }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
@@ -732,9 +742,9 @@ int buzzvm_set_bcode(buzzvm_t vm,
     * Register function definitions
     * Stop when you find a 'nop'
     */
-   while(vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
+   while(vm->pc >= vm->bcode_size || vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
       if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   buzzvm_step(vm);
+   if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    /* Initialize empty neighbors */
    buzzneighbors_new(vm);
    /* Register robot id */
@@ -772,6 +782,8 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    if(vm->state != BUZZVM_STATE_READY) return vm->state;
    /* Execute GC */
    buzzheap_gc(vm);
+   /* Make sure there is an instruction to execute */
+   assert_pc(vm->pc);
    /* Fetch instruction and (potential) argument */
    uint8_t instr = vm->bcode[vm->pc];
    /* Execute instruction */
-- 
2.43.0


From 960d159d27b78bd3c978cbe98ce600786af5097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:53 +0000
Subject: [PATCH 60/95] fix: runtime errors are reported at the statement after
 the one that failed

---
 src/buzz/buzzparser.c | 23 +++++++++++++++++------
 src/buzz/buzzparser.h |  2 ++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 4f63c6b..a98ed39 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -291,7 +291,7 @@ void chunk_finalize(chunk_t c) {
 #define chunk_append(...) {                         \
       char* str;                                    \
       asprintf(&str, ##__VA_ARGS__);                \
-      chunk_addcode(par->chunk, str, par->tok);     \
+      chunk_addcode(par->chunk, str, par->lasttok); \
       free(str);                                    \
    }
 
@@ -349,7 +349,7 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       char* str;                                                                     \
       struct chunk_s tmpchunk = {.code = tmpcode, .csize = tmpsize, .ccap = tmpcap}; \
       asprintf(&str, ##__VA_ARGS__);                                                 \
-      chunk_addcode(&tmpchunk, str, par->tok);                                       \
+      chunk_addcode(&tmpchunk, str, par->lasttok);                                   \
       free(str);                                                                     \
       tmpcode = tmpchunk.code;                                                       \
       tmpsize = tmpchunk.csize;                                                      \
@@ -359,12 +359,20 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 /****************************************/
 /****************************************/
 
+#define nexttok()                                                       \
+   {                                                                    \
+      if(par->lasttok) buzzlex_destroytok(&par->lasttok);               \
+      par->lasttok = par->tok;                                          \
+      par->tok = buzzlex_nexttok(par->lex);                             \
+   }
+
 #define fetchtok()                                                      \
    {                                                                    \
-      do {                                                              \
+      nexttok();                                                        \
+      while(par->tok->type == BUZZTOK_STATEND) {                        \
          buzzlex_destroytok(&par->tok);                                 \
          par->tok = buzzlex_nexttok(par->lex);                          \
-      } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
+      }                                                                 \
    }
 
 int match(buzzparser_t par,
@@ -1116,8 +1124,7 @@ int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
       /* A statement end right after it must not be skipped: it means no return value */
-      buzzlex_destroytok(&par->tok);
-      par->tok = buzzlex_nexttok(par->lex);
+      nexttok();
       if(par->tok->type == BUZZTOK_STATEND ||
          par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
@@ -1389,6 +1396,9 @@ buzzparser_t buzzparser_new(int argc,
       free(par);
       return NULL;
    }
+   /* No token fetched yet */
+   par->tok = NULL;
+   par->lasttok = NULL;
    /* Initialize label counter */
    par->labels = 0;
    /* Initialize chunk list */
@@ -1444,6 +1454,7 @@ void buzzparser_destroy(buzzparser_t* par) {
    free((*par)->scriptfn);
    buzzlex_destroy(&((*par)->lex));
    if((*par)->tok) buzzlex_destroytok(&((*par)->tok));
+   if((*par)->lasttok) buzzlex_destroytok(&((*par)->lasttok));
    free(*par);
    *par = NULL;
 }
diff --git a/src/buzz/buzzparser.h b/src/buzz/buzzparser.h
index b546293..33cce5d 100644
--- a/src/buzz/buzzparser.h
+++ b/src/buzz/buzzparser.h
@@ -29,6 +29,8 @@ extern "C" {
       buzzlex_t lex;
       /* The last fetched token */
       buzztok_t tok;
+      /* The last consumed token, the one the code being written comes from */
+      buzztok_t lasttok;
       /* The list of chunks */
       buzzdarray_t chunks;
       /* The current chunk being written */
-- 
2.43.0


From 2e2bae80eb53f4b6b3f813e0753a1f9ccd977cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:12 +0000
Subject: [PATCH 61/95] fix: errors in table accesses are reported at the
 previous instruction

---
 src/buzz/buzzvm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 836cf64..08cde72 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -784,6 +784,8 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    buzzheap_gc(vm);
    /* Make sure there is an instruction to execute */
    assert_pc(vm->pc);
+   /* Remember which instruction is being executed, errors are reported there */
+   vm->oldpc = vm->pc;
    /* Fetch instruction and (potential) argument */
    uint8_t instr = vm->bcode[vm->pc];
    /* Execute instruction */
-- 
2.43.0


From 9b18124425a0984c18d102e3ea4fa9e42cd0982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 62/95] fix: syntax errors at the end of the file crash the
 compiler

---
 src/buzz/buzzparser.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index a98ed39..26ac595 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -375,6 +375,14 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       }                                                                 \
    }
 
+/*
+ * Returns the name of the file the current token comes from
+ * (the end of file token does not belong to any file)
+ */
+static const char* tokfname(buzzparser_t par) {
+   return par->tok->fname ? par->tok->fname : par->scriptfn;
+}
+
 int match(buzzparser_t par,
           buzztok_type_e type) {
    if(par->tok->type == BUZZTOK_EOF) {
@@ -387,7 +395,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -598,7 +606,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -650,7 +658,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -886,7 +894,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 tokfname(par),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -913,7 +921,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfname(par),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -949,7 +957,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       tokfname(par),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1145,7 +1153,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfname(par),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1181,7 +1189,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1226,7 +1234,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           tokfname(par),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 1eb319651f7cd4673e4ea25436275f970414f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:39 +0000
Subject: [PATCH 63/95] fix: the rest of a script is silently dropped after a
 stray } or a lexical error

---
 src/buzz/buzzparser.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 26ac595..0436201 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -459,6 +459,8 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
+   if(par->tok->type == BUZZTOK_EOF && !buzzlex_done(par->lex))
+      return PARSE_ERROR;
    if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
    /* Add a symbol table */
    symt_push();
@@ -466,6 +468,17 @@ int parse_script(buzzparser_t par) {
    chunk_push(0);
    /* Parse the statements */
    if(!parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure the entire script was parsed */
+   if(par->tok->type != BUZZTOK_EOF) {
+      fprintf(stderr,
+              "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unexpected %s\n",
+              tokfname(par),
+              par->tok->line,
+              par->tok->col,
+              buzztok_desc[par->tok->type]);
+      return PARSE_ERROR;
+   }
+   if(!buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
-- 
2.43.0


From ed10161ee2b20d20a5b521390c81b5e089d84c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:41 +0000
Subject: [PATCH 64/95] fix: an empty script compiles to a program that fails

---
 src/buzz/buzzparser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0436201..d2af61e 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -461,13 +461,12 @@ int parse_script(buzzparser_t par) {
    }
    if(par->tok->type == BUZZTOK_EOF && !buzzlex_done(par->lex))
       return PARSE_ERROR;
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
-   /* Parse the statements */
-   if(!parse_statlist(par)) return PARSE_ERROR;
+   /* Parse the statements, if any */
+   if(par->tok->type != BUZZTOK_EOF && !parse_statlist(par)) return PARSE_ERROR;
    /* Make sure the entire script was parsed */
    if(par->tok->type != BUZZTOK_EOF) {
       fprintf(stderr,
-- 
2.43.0


From 01d8623a7e75f190eda7d8bc58bfa34627923295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 65/95] fix: string literals with escape sequences include what
 follows the closing quote

---
 src/buzz/buzzlex.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index cd94510..d1f1d66 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -144,7 +144,8 @@ static char* buzzlex_newstring(const char* s,
    /* Pointer for current current */
    char* pns = ns;
    /* Go through original string */
-   for(size_t i = 0; i < len; ++i) {
+   const char* end = s + len;
+   while(s < end) {
       /* Escape sequence? */
       if(*s != '\\') {
          /* No, normal character - just copy it */
@@ -554,14 +555,13 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      char last1 = 0, last2 = 0;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            ((lexf->buf[lexf->cur_c] != c) ||  /* Matching quote not found */
-             (lexf->buf[lexf->cur_c] == c &&   /* Matching quote found, but preceded by \ and not \\ */
-              last1 == '\\' && last2 != '\\'))) {
-         /* Remember the last two characters read */
-         last2 = last1;
-         last1 = lexf->buf[lexf->cur_c];
+            lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
+         /* The character after a \ is part of the escape sequence */
+         if(lexf->buf[lexf->cur_c] == '\\' &&
+            lexf->cur_c + 1 < lexf->buf_size) {
+            nextchar();
+         }
          /* Keep parsing the string */
          nextchar();
       }
-- 
2.43.0


From f820a767f6e5822c9021e1bf6f2488443c6add69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 66/95] fix: positions are wrong after a string spanning lines
 and in lexical errors

---
 src/buzz/buzzlex.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index d1f1d66..3e08806 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -555,6 +555,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
+      uint64_t tokline = lexf->cur_line;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
             lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
          /* The character after a \ is part of the escape sequence */
@@ -562,6 +563,11 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             lexf->cur_c + 1 < lexf->buf_size) {
             nextchar();
          }
+         /* Strings can span multiple lines */
+         if(lexf->buf[lexf->cur_c] == '\n') {
+            ++lexf->cur_line;
+            lexf->cur_col = -1;
+         }
          /* Keep parsing the string */
          nextchar();
       }
@@ -570,8 +576,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: string closing quote not found\n",
                  lexf->fname,
-                 lexf->cur_line,
-                 tokstart);
+                 tokline,
+                 tokstart + 1);
          return eoftok;
       }
       /* We have a valid string */
@@ -580,7 +586,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
       nextchar();
       return buzzlex_newtok(BUZZTOK_STRING,
                             val,
-                            lexf->cur_line,
+                            tokline,
                             tokstart,
                             lexf->fname);
    }
@@ -590,7 +596,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unknown character '%c' (octal: %o; hex: %x)\n",
               lexf->fname,
               lexf->cur_line,
-              tokstart,
+              tokstart + 1,
               c, c, c);
       return eoftok;
    }
-- 
2.43.0


From 92e34aff646c61ed9e85d9cd0716d3a9d7a15337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:44 +0000
Subject: [PATCH 67/95] fix: strings that contain a newline break the assembly
 file

---
 src/buzz/buzzasm.c    | 32 ++++++++++++++++++++++++++------
 src/buzz/buzzparser.c | 10 +++++++++-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..278329a 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -190,10 +190,18 @@ int buzz_asm(const char* fname,
       if(*trimline == '\'') {
          ++trimline;
          trimline[strlen(trimline)-1] = 0;
-         size_t l = strlen(trimline) + 1;
-         bcode_resize(l);
-         strcpy((char*)(*buf + *size), trimline);
-         *size += l;
+         bcode_resize(strlen(trimline) + 1);
+         /* Copy the string, decoding \n and \\ */
+         for(; *trimline; ++trimline) {
+            if(trimline[0] == '\\' && trimline[1] != 0) {
+               ++trimline;
+               (*buf)[(*size)++] = (*trimline == 'n') ? '\n' : *trimline;
+            }
+            else {
+               (*buf)[(*size)++] = *trimline;
+            }
+         }
+         (*buf)[(*size)++] = 0;
          continue;
       }
       /* Trim trailing space */
@@ -361,6 +369,11 @@ int buzz_deasm(const uint8_t* buf,
     * Phase 1: fetch the strings
     */
    /* Fetch and print the string count */
+   if(size < sizeof(uint16_t)) {
+      fprintf(stderr, "ERROR: %s: not enough bytes in bytecode for the string count\n", fname);
+      fclose(fd);
+      return 2;
+   }
    uint16_t count;
    memcpy(&count, buf, sizeof(uint16_t));
    fprintf(fd, "!%u\n", count);
@@ -369,9 +382,16 @@ int buzz_deasm(const uint8_t* buf,
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
       /* Print string */
-      fprintf(fd, "'%s\n", ((char*)buf + i));
+      fputc('\'', fd);
+      for(; i < size && buf[i] != 0; ++i) {
+         if(buf[i] == '\n')      fputs("\\n", fd);
+         else if(buf[i] == '\\') fputs("\\\\", fd);
+         else                    fputc(buf[i], fd);
+      }
+      fputc('\n', fd);
+      /* Stop if the string is not terminated */
+      if(i >= size) break;
       /* Advance to first character of next string */
-      while(*(buf + i) != 0) ++i;
       ++i;
    }
    if(c < count) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index d2af61e..cd48395 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -73,7 +73,15 @@ uint32_t string_add(buzzdict_t strings, const char* str) {
 }
 
 void string_print(uint32_t pos, void* data, void* params) {
-   fprintf((FILE*)params, "'%s\n", (*(struct strarray_data_s**)data)->str);
+   FILE* f = (FILE*)params;
+   /* A string takes exactly one line: newlines (and thus backslashes) are escaped */
+   fputc('\'', f);
+   for(const char* c = (*(struct strarray_data_s**)data)->str; *c; ++c) {
+      if(*c == '\n')      fputs("\\n", f);
+      else if(*c == '\\') fputs("\\\\", f);
+      else                fputc(*c, f);
+   }
+   fputc('\n', f);
 }
 
 /****************************************/
-- 
2.43.0


From 7159db744bef9e7173692dca7c62c34bd3b5e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 68/95] fix: identifiers starting with 'include' are taken for
 an inclusion

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 3e08806..c9a4d83 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -303,7 +303,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          }
          /* The newline is not part of the comment, it still ends the statement */
       }
-      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
+      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
+              !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
          /* Manage file inclusion */
          lexf->cur_c += 7;
          lexf->cur_col += 7;
-- 
2.43.0


From fe1dbe83a7fefe27192b124c731300fbafc042e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 69/95] fix: malformed numbers such as 1.2.3 are accepted

---
 src/buzz/buzzlex.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index c9a4d83..84f26b7 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -408,6 +408,17 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    if(isdigit(c)) {
       /* It's a constant */
       readval(buzzlex_isnumber);
+      /* At most one decimal point is allowed */
+      if(strchr(val, '.') != strrchr(val, '.')) {
+         fprintf(stderr,
+                 "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: malformed number '%s'\n",
+                 lexf->fname,
+                 lexf->cur_line,
+                 tokstart + 1,
+                 val);
+         free(val);
+         return eoftok;
+      }
       return buzzlex_newtok(BUZZTOK_CONST,
                             val,
                             lexf->cur_line,
-- 
2.43.0


From 23833709c4fb96cbd75d77c91f2a103e9cc4083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 70/95] fix: long include paths overflow a buffer in the
 compiler

---
 src/buzz/buzzlex.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 84f26b7..dab6924 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -39,19 +39,13 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
       while(dir && !fd) {
          /* Make sure it's not an empty field */
          if(dir[0] != '\0') {
-            /* fpath = dir */
-            strncpy(fpath, dir, PATH_MAX-1);
-            fpath[PATH_MAX-1] = '\0';
-            /* Add / at the end if missing */
-            if(fpath[strlen(fpath)-1] != '/') {
-               strncat(fpath, "/", PATH_MAX-1);
-               fpath[PATH_MAX-1] = '\0';
-            }
-            /* fpath += fname */
-            strncat(fpath, fname, PATH_MAX-1);
-            fpath[PATH_MAX-1] = '\0';
-            /* Try to open the file */
-            fd = fopen(fpath, "rb");
+            /* fpath = dir + fname, adding / in between if missing */
+            int l = snprintf(fpath, PATH_MAX, "%s%s%s",
+                             dir,
+                             dir[strlen(dir)-1] != '/' ? "/" : "",
+                             fname);
+            /* Try to open the file, unless the path is too long to be valid */
+            if(l < PATH_MAX) fd = fopen(fpath, "rb");
          }
          /* Get next dir */
          dir = strsep(&curpath, ":");
-- 
2.43.0


From da6272af55548b2b86f525cfbcaa5d341c085a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 71/95] fix: the compiler fails silently when the script does
 not exist

---
 src/buzz/buzzlex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index dab6924..69d11dc 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -29,6 +29,7 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
    if(!fd) {
       /* Get the include path from the environment, if present */
       if(!getenv("BUZZ_INCLUDE_PATH")) {
+         fprintf(stderr, "Can't find file '%s'\n", fname);
          return NULL;
       }
       /* Fetch the directories in the include path */
@@ -210,7 +211,10 @@ buzzlex_t buzzlex_new(const char* fname) {
                                 buzzlex_file_destroy);
    /* Read file */
    buzzlex_file_t f = buzzlex_file_new(fname);
-   if(!f) return NULL;
+   if(!f) {
+      buzzlex_destroy(&x);
+      return NULL;
+   }
    buzzdarray_push(x, &f);
    /* Return the lexer state */
    return x;
-- 
2.43.0


From 8612fe50714f0370b61740113b4e0f77e1746a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 72/95] fix: malformed calls read outside the stack and the
 function list

---
 src/buzz/buzzvm.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 08cde72..a84e7b5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1164,14 +1164,21 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
-   /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   /* Make sure the stack has enough elements (arguments, closure, and self table) */
+   if(argn < 0 || argn > buzzvm_stack_top(vm) - 2) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_STACK,
+                      "not enough elements for a call with %" PRId32 " arguments",
+                      argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      ((c->c.value.ref) < 0 ||
+       (c->c.value.ref) >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
-- 
2.43.0


From 311fec9ab97b3b8f6676d58cfa594fd4c5d86606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:39 +0000
Subject: [PATCH 73/95] fix: host calls with missing arguments corrupt the
 stack

---
 src/buzz/buzzvm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a84e7b5..4874b78 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1072,6 +1072,8 @@ buzzvm_state buzzvm_execute_script(buzzvm_t vm) {
 
 buzzvm_state buzzvm_closure_call(buzzvm_t vm,
                                  uint32_t argc) {
+   /* Make sure the stack has enough elements */
+   buzzvm_stack_assert(vm, argc + 1);
    /* Insert the self table right before the closure */
    buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
    buzzdarray_insert(vm->stack,
@@ -1102,6 +1104,8 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    /* Don't continue if the VM has an error */
    if(vm->state != BUZZVM_STATE_READY)
       return vm->state;
+   /* Make sure the arguments are on the stack */
+   buzzvm_stack_assert(vm, argc);
    /* Push the function name (return with error if not found) */
    buzzvm_pushs(vm, buzzvm_string_register(vm, fname, 0));
    /* Get associated symbol */
-- 
2.43.0


From b69c5437f71cd826b007011ed1c8e6e5d66d79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 74/95] fix: the disassembler alters float constants

---
 src/buzz/buzzasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 278329a..90b7327 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -419,7 +419,7 @@ int buzz_deasm(const uint8_t* buf,
       /* Does the opcode have an argument? */
       if(op == BUZZVM_INSTR_PUSHF) {
          /* Float argument */
-         write_arg(float, "%f");
+         write_arg(float, "%.9g");
       }
       else if(op > BUZZVM_INSTR_PUSHF) {
          /* Integer argument */
@@ -454,7 +454,7 @@ int buzz_instruction_deasm(const uint8_t* bcode,
    /* Does the opcode have an argument? */
    if(op == BUZZVM_INSTR_PUSHF) {
       /* Float argument */
-      asprintf(buf, "%s %f",
+      asprintf(buf, "%s %.9g",
                buzzvm_instr_desc[op],
                *(float*)(bcode+off+1));
    }
-- 
2.43.0


From 50790c489e84aac7b9d3c1b97f46563ea5cded99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 75/95] fix: reading debug information with a 512-character
 file name overflows a buffer

---
 src/buzz/buzzdebug.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..23ca1a3 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -121,7 +121,7 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    uint32_t offset;
    uint64_t line, col;
    uint16_t srcfnlen, srcfnlenmax = 512;
-   char* srcfname = (char*)malloc(srcfnlenmax);
+   char* srcfname = (char*)malloc((size_t)srcfnlenmax + 1);
    /* char fepmark; */
    while(!feof(fd) && !ferror(fd)) {
       /* Read fields */
@@ -130,9 +130,9 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
-            srcfnlenmax = srcfnlen + 1;
-            srcfname = realloc(srcfname, srcfnlenmax);
+         if(srcfnlen >= srcfnlenmax) {
+            srcfnlenmax = srcfnlen;
+            srcfname = realloc(srcfname, (size_t)srcfnlenmax + 1);
          }
          if(fread(srcfname, 1, srcfnlen, fd) == srcfnlen) {
             srcfname[srcfnlen] = 0;
-- 
2.43.0


From 9f2bb04896dd531b62a9ad87cb7eb71773312f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:08 +0000
Subject: [PATCH 76/95] fix: buzzdebug_tofile() reports the opposite of its
 outcome

---
 src/buzz/buzzdebug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 23ca1a3..62fc869 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -188,7 +188,7 @@ int buzzdebug_tofile(const char* fname,
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
    fclose(fd);
-   return i.ok ? 0 : 1;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From 3d39b2488a0727850c0c02c55a2811be4483bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 77/95] fix: calls through the debugger push garbage on the
 stack

---
 src/buzz/buzzdebug.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 62fc869..e5b0326 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -307,22 +307,25 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
          vm->state = BUZZVM_STATE_READY;
       else return vm->state;
    }
+   /* Make sure the stack has enough elements */
+   buzzvm_stack_assert(vm, argc + 1);
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &o);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   /* A C closure is already over at this point */
+   while(stacks < buzzdarray_size(vm->stacks)) {
       if(buzzdebug_breakpoint_exists(dbg, vm->pc))
          vm->state = BUZZVM_STATE_STOPPED;
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
@@ -340,6 +343,8 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
          vm->state = BUZZVM_STATE_READY;
       else return vm->state;
    }
+   /* Make sure the arguments are on the stack */
+   buzzvm_stack_assert(vm, argc);
    /* Push the function name (return with error if not found) */
    buzzvm_pushs(vm, buzzvm_string_register(vm, fname, 0));
    /* Get associated symbol */
@@ -348,10 +353,11 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzdebug_closure_call(vm, argc, dbg);
-- 
2.43.0


From bf68cbb78170c3cdcd9612c942b01404015224bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 78/95] fix: buzzobj_getuserdata() refers to a field that does
 not exist

---
 src/buzz/buzztype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 0c614c1..b55b031 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -282,6 +282,6 @@ extern "C" {
 #define buzzobj_getint(OBJ) ((OBJ)->i.value)
 #define buzzobj_getfloat(OBJ) ((OBJ)->f.value)
 #define buzzobj_getstring(OBJ) ((OBJ)->s.value.str)
-#define buzzobj_getuserdata(OBJ) ((OBJ)->y.value)
+#define buzzobj_getuserdata(OBJ) ((OBJ)->u.value)
 
 #endif
-- 
2.43.0


From c3970f10f3fad3c5dffeba5f84c16d3951ad8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 79/95] fix: io.errno reports errors of earlier operations

---
 src/buzz/buzzio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 3100db0..a018cc8 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -81,6 +81,7 @@ int buzzio_fopen(buzzvm_t vm) {
    const char* fmode = buzzvm_stack_at(vm, 1)->s.value.str;
    buzzvm_pop(vm);
    /* Try to open the file */
+   errno = 0;
    FILE* f = fopen(fname, fmode);
    /* Register error information */
    buzzio_update_error(vm);
@@ -117,6 +118,7 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Close the file */
+   errno = 0;
    fclose(f);
    /* The file handle is not valid anymore */
    buzzvm_lload(vm, 1);
@@ -138,6 +140,7 @@ int buzzio_fsize(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Remember the current position */
+   errno = 0;
    long int cur = ftell(f);
    /* Get the file size */
    fseek(f, 0, SEEK_END);
@@ -164,6 +167,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Go through the file lines */
+   errno = 0;
    size_t cap = 0; /* line buffer capacity */
    char* line = NULL;
    ssize_t len = getline(&line, &cap, f);
@@ -211,6 +215,7 @@ int buzzio_fwrite(buzzvm_t vm) {
       return vm->state;
    }
    /* Used to store the return value of fprintf */
+   errno = 0;
    int err = 0;
    /* Get file handle */
    filehandle_get(f);
-- 
2.43.0


From 97ee72e6c43ac178c6e75dfe655d97b1f25728e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 80/95] fix: source file names with a comma are truncated in
 the debug information

---
 src/buzz/buzzasm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 90b7327..87e2e5a 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -221,13 +221,13 @@ int buzz_asm(const char* fname,
       if(*trimline == '@') {
          /* Parse label and debug info */
          char* labelinfo = strsep(&trimline, "|\n");
-         char* debuginfo = strsep(&trimline, "|\n");
+         char* debuginfo = trimline;
          /* Add debug information, if any */
          if(debuginfo && *debuginfo) {
             /* Parse line and column data */
             char* line = strsep(&debuginfo, ",\n");
             char* col = strsep(&debuginfo, ",\n");
-            char* srcfname = strsep(&debuginfo, ",\n");
+            char* srcfname = debuginfo;
             if(srcfname) {
                uint64_t l = 0;
                uint64_t c = 0;
@@ -247,7 +247,7 @@ int buzz_asm(const char* fname,
       }
       /* Fetch the instruction */
       char* instrinfo = strsep(&trimline, "|\n");
-      char* debuginfo = strsep(&trimline, "|\n");
+      char* debuginfo = trimline;
       char* instr = strsep(&instrinfo, " \n\t");
       char* argstr = strsep(&instrinfo, " \n\t");
       /* Add debug information, if any */
@@ -255,7 +255,7 @@ int buzz_asm(const char* fname,
          /* Parse line and column data */
          char* line = strsep(&debuginfo, ",\n");
          char* col = strsep(&debuginfo, ",\n");
-         char* srcfname = strsep(&debuginfo, ",\n");
+         char* srcfname = debuginfo;
          if(srcfname) {
             uint64_t l = 0;
             uint64_t c = 0;
-- 
2.43.0


From 2b639f0717b2c8545d6e6be3cc1f0cd6fc5c963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:52 +0000
Subject: [PATCH 81/95] fix: swarm.id() ignores its argument

---
 src/buzz/buzzswarm.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 4f2ea2c..6aa69b5 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -310,20 +310,28 @@ int buzzswarm_create(buzzvm_t vm) {
 /****************************************/
 
 int buzzswarm_id(struct buzzvm_s* vm) {
+   /* Make sure at most one parameter has been passed */
+   if(buzzvm_lnum(vm) > 1) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "expected 0 or 1 parameters, got %" PRId64,
+                      buzzvm_lnum(vm));
+      return vm->state;
+   }
+   /* Take the stack top by default */
+   int32_t stackpos = 1;
+   /* Do we have an argument? */
+   if(buzzvm_lnum(vm) > 0) {
+      buzzvm_lload(vm, 1);
+      buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
+      stackpos = buzzvm_stack_at(vm, 1)->i.value;
+   }
    /* Is the swarm stack empty? */
    if(buzzdarray_isempty(vm->swarmstack)) {
       /* Yes, no swarm to push, push nil instead */
       buzzvm_pushnil(vm);
    }
    else {
-      /* Take the stack top by default */
-      uint16_t stackpos = 1;
-      /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
-         buzzvm_lload(vm, 1);
-         buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-         stackpos = buzzvm_stack_at(vm, 1)->i.value;
-      }
       /* Limit stackpos value to avoid out-of-bounds operations */
       if(stackpos < 1)
          stackpos = 1;
-- 
2.43.0


From e983d3d057c41807138a1c70dcf9d3d5ddc291ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:53 +0000
Subject: [PATCH 82/95] fix: string.sub() accepts any ending index when the
 starting one is out of range

---
 src/buzz/buzzstring.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index e69bc0a..0744e23 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,26 +71,21 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n < 0 || n >= ls) {
-      /* Out of bounds */
-      buzzvm_pushnil(vm);
-      return buzzvm_ret1(vm);
-   }
    /* Get the ending index */
    int32_t m = ls;
    if(buzzvm_lnum(vm) == 3) {
       buzzvm_lload(vm, 3);
       buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
       m = buzzvm_stack_at(vm, 1)->i.value;
-      if(m < n) {
-         /* Out of bounds */
-         buzzvm_pushnil(vm);
-         return buzzvm_ret1(vm);
-      }
-      else if(m >= ls)
-         /* Readjust m, because it goes beyond the string limits */
-         m = ls;
    }
+   if(n < 0 || n >= ls || m < n) {
+      /* Out of bounds */
+      buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
+   }
+   if(m >= ls)
+      /* Readjust m, because it goes beyond the string limits */
+      m = ls;
    /* Make new string for the substring */
    char* s2 = (char*)malloc(m - n + 1);
    strncpy(s2, s + n, m - n);
-- 
2.43.0


From 87d299cb3ef0782f4e0c334dd24d5d209c332c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:49 +0000
Subject: [PATCH 83/95] fix: neighbors.get() reports a stack error when passed
 a value that can't be a key

---
 src/buzz/buzzneighbors.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index 97e091b..9a7a2c5 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -331,7 +331,7 @@ int buzzneighbors_get(struct buzzvm_s* vm) {
       /* Get robot id */
       buzzvm_lload(vm, 1);
       /* Get data to return */
-      buzzvm_tget(vm);
+      if(buzzvm_tget(vm) != BUZZVM_STATE_READY) return vm->state;
    }
    /* Return value */
    return buzzvm_ret1(vm);
-- 
2.43.0


From 602fa8f6915ab3b96d7ea02042faa3374378ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:43 +0000
Subject: [PATCH 84/95] fix: appending to an array made from an empty buffer
 aborts

---
 src/buzz/buzzdarray.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index 65bc57d..02309b5 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -60,13 +60,13 @@ buzzdarray_t buzzdarray_frombuffer(const void* buf,
    /* Create the dynamic array. calloc() zeroes everything. */
    buzzdarray_t da = (buzzdarray_t)calloc(1, sizeof(struct buzzdarray_s));
    /* Set info */
-   da->capacity = buf_size / elem_size;
+   da->size = buf_size / elem_size;
+   da->capacity = da->size > 0 ? da->size : 1;
    da->elem_size = elem_size;
    da->elem_destroy = elem_destroy ? elem_destroy : buzzdarray_elem_destroy;
-   da->size = da->capacity;
    /* Create initial data */
-   da->data = malloc(buf_size);
-   memcpy(da->data, buf, buf_size);
+   da->data = malloc(da->capacity * elem_size);
+   memcpy(da->data, buf, da->size * elem_size);
    /* Done */
    return da;
 }
-- 
2.43.0


From df2ff11c3a58bbfee62ee302907f53b6c7c05711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:42 +0000
Subject: [PATCH 85/95] fix: seeding the random generator extends the sign of
 its state

---
 src/buzz/buzzmath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index e55d812..d544251 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -23,8 +23,10 @@ void mt_setseed(buzzvm_t vm,
                 uint32_t seed) {
    vm->rngstate[0] = seed & 0xffffffffUL;
    for(vm->rngidx = 1; vm->rngidx < N; ++vm->rngidx) {
+      /* The state is stored as signed integers, but the shift must not extend the sign */
+      uint32_t prev = vm->rngstate[vm->rngidx-1];
       vm->rngstate[vm->rngidx] =
-         (1812433253UL * (vm->rngstate[vm->rngidx-1] ^ (vm->rngstate[vm->rngidx-1] >> 30)) + vm->rngidx);
+         (1812433253UL * (prev ^ (prev >> 30)) + vm->rngidx);
       vm->rngstate[vm->rngidx] &= 0xffffffffUL;
    }
 }
-- 
2.43.0


From 2d5e3d5ecd864e4f11f40a6917ba15ae1df5e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:41 +0000
Subject: [PATCH 86/95] fix: the parser reads a function's symbol after a var
 of the same name freed it

---
 src/buzz/buzzparser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index cd48395..19420d8 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -239,7 +239,8 @@ struct chunk_s {
    /* The code for this chunk */
    char* code;
    /* not-NULL if a symbol must be registered (function), NULL if not (lambda) */
-   const struct sym_s* sym;
+   /* This is a copy: a later declaration can replace the symbol in the symbol table */
+   struct sym_s* sym;
    /* The code size */
    size_t csize;
    /* The buffer capacity */
@@ -253,13 +254,18 @@ chunk_t chunk_new(uint32_t label, const struct sym_s* sym) {
    c->csize = 0;
    c->ccap = 10;
    c->code = (char*)malloc(c->ccap);
-   c->sym = sym;
+   c->sym = NULL;
+   if(sym) {
+      c->sym = (struct sym_s*)malloc(sizeof(struct sym_s));
+      *c->sym = *sym;
+   }
    return c;
 }
 
 void chunk_destroy(uint32_t pos, void* data, void* params) {
    chunk_t* c = (chunk_t*)data;
    free((*c)->code);
+   free((*c)->sym);
    free(*c);
    *c = NULL;
 }
-- 
2.43.0


From 5ec09d20942faac25dd7c0b2505e64c10ba1c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:46 +0000
Subject: [PATCH 87/95] fix: buzzdebug_continue never leaves the breakpoint it
 is stopped at

---
 src/buzz/buzzdebug.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index e5b0326..4934734 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -283,15 +283,20 @@ buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
-      if(vm->state == BUZZVM_STATE_STOPPED)
+      if(vm->state == BUZZVM_STATE_STOPPED) {
+         /* Execute the instruction at the breakpoint the VM is stopped at */
          vm->state = BUZZVM_STATE_READY;
+         buzzvm_step(vm);
+      }
       else return vm->state;
    }
    /* Go on until the end, an error, or a breakpoint */
-   while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
-         buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
-      vm->state = BUZZVM_STATE_STOPPED;
+   while(vm->state == BUZZVM_STATE_READY) {
+      if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+         vm->state = BUZZVM_STATE_STOPPED;
+      else
+         buzzvm_step(vm);
+   }
    return vm->state;
 }
 
-- 
2.43.0


From 999fe9895b176ffd6caeb658fa36add2e0352aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:46 +0000
Subject: [PATCH 88/95] fix: an arrow sequence built as documented runs only
 its last function

---
 src/include/arrows.bzz | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/arrows.bzz b/src/include/arrows.bzz
index d779f4f..cc17a52 100644
--- a/src/include/arrows.bzz
+++ b/src/include/arrows.bzz
@@ -26,8 +26,12 @@ arrows.wrap = function(f) {
   return {
     .f = f,
     .next = function(f) {
-      self.n = arrows.wrap(f)
-      return self.n
+      # Append the new arrow at the end of the sequence, and return the
+      # entire sequence
+      var last = self
+      while(last.n) last = last.n
+      last.n = arrows.wrap(f)
+      return self
     }
   }
 }
-- 
2.43.0


From a2ebe1ba85b0d374d07d7addf10c45356b5c956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:47 +0000
Subject: [PATCH 89/95] fix: bzzasm claims success or loops forever when its
 output cannot be written

---
 src/buzz/buzzasm_main.c | 20 ++++++++++++++++----
 src/buzz/buzzdebug.c    |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzasm_main.c b/src/buzz/buzzasm_main.c
index 80332bc..21a54de 100644
--- a/src/buzz/buzzasm_main.c
+++ b/src/buzz/buzzasm_main.c
@@ -16,7 +16,10 @@ int main(int argc, char** argv) {
    int of = open(argv[2],
                  O_WRONLY | O_CREAT | O_TRUNC,
                  S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-   if(of < 0) perror(argv[2]);
+   if(of < 0) {
+      perror(argv[2]);
+      return 1;
+   }
    /* Parse script */
    uint8_t* bcode_buf;
    uint32_t bcode_size;
@@ -29,13 +32,22 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       written = write(of, bcode_buf + tot, bcode_size - tot);
-      if(written < 0) perror(argv[2]);
+      if(written < 0) {
+         perror(argv[2]);
+         return 1;
+      }
       tot += written;
    }
-   buzzdebug_tofile(argv[3], dbg);
+   if(!buzzdebug_tofile(argv[3], dbg)) {
+      perror(argv[3]);
+      return 1;
+   }
    /* Cleanup */
    free(bcode_buf);
    buzzdebug_destroy(&dbg);
-   close(of);
+   if(close(of) < 0) {
+      perror(argv[2]);
+      return 1;
+   }
    return 0;
 }
diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 4934734..bf6b14d 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -187,7 +187,7 @@ int buzzdebug_tofile(const char* fname,
    };
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
-   fclose(fd);
+   if(fclose(fd) != 0) i.ok = 0;
    return i.ok;
 }
 
-- 
2.43.0


From 9044a403dacea001bfdd4e6fa4e41d00eb064dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:49 +0000
Subject: [PATCH 90/95] fix: bzzdeasm crashes on a missing input and ignores
 write errors

---
 src/buzz/buzzasm.c        |  8 ++++++--
 src/buzz/buzzdeasm_main.c | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 87e2e5a..0383533 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -436,8 +436,12 @@ int buzz_deasm(const uint8_t* buf,
       /* Newline */
       fprintf(fd, "\n");
    }
-   /* Close file */
-   fclose(fd);
+   /* Close file, making sure that everything was written */
+   int err = ferror(fd);
+   if(fclose(fd) != 0 || err) {
+      perror(fname);
+      return 1;
+   }
    return 0;
 }
 
diff --git a/src/buzz/buzzdeasm_main.c b/src/buzz/buzzdeasm_main.c
index 10416fc..0958fc4 100644
--- a/src/buzz/buzzdeasm_main.c
+++ b/src/buzz/buzzdeasm_main.c
@@ -16,16 +16,27 @@ int main(int argc, char** argv) {
    }
    /* Open bytecode file */
    int ifd = open(argv[1], O_RDONLY);
-   if(ifd < 0) perror(argv[1]);
+   if(ifd < 0) {
+      perror(argv[1]);
+      return 1;
+   }
    /* Read data */
-   size_t bcode_size = lseek(ifd, 0, SEEK_END);
+   off_t end = lseek(ifd, 0, SEEK_END);
+   if(end < 0) {
+      perror(argv[1]);
+      return 1;
+   }
+   size_t bcode_size = end;
    lseek(ifd, 0, SEEK_SET);
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
    ssize_t rd;
    size_t tot = 0;
    while(tot < bcode_size) {
       rd = read(ifd, bcode_buf + tot, bcode_size - tot);
-      if(rd < 0) perror(argv[1]);
+      if(rd <= 0) {
+         perror(argv[1]);
+         return 1;
+      }
       tot += rd;
    }
    close(ifd);
-- 
2.43.0


From a5ca156f55f63812e24d4ad6a1a0460927c588c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:50 +0000
Subject: [PATCH 91/95] fix: bzzrun crashes when the bytecode file cannot be
 read

---
 src/buzz/buzzrun.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzrun.c b/src/buzz/buzzrun.c
index 2455043..c531c5a 100644
--- a/src/buzz/buzzrun.c
+++ b/src/buzz/buzzrun.c
@@ -70,13 +70,17 @@ int main(int argc, char** argv) {
    }
    /* Read bytecode and fill in data structure */
    FILE* fd = fopen(bcfname, "rb");
-   if(!fd) perror(bcfname);
+   if(!fd) {
+      perror(bcfname);
+      return 1;
+   }
    fseek(fd, 0, SEEK_END);
    size_t bcode_size = ftell(fd);
    rewind(fd);
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
    if(fread(bcode_buf, 1, bcode_size, fd) < bcode_size) {
       perror(bcfname);
+      return 1;
    }
    fclose(fd);
    /* Read debug information */
-- 
2.43.0


From 2e589b278d6a3d1e73cffb7b0da3ad96be124f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:51 +0000
Subject: [PATCH 92/95] fix: bzzparse ignores errors while writing the assembly
 file

---
 src/buzz/buzzparser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 19420d8..b33337c 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1517,6 +1517,11 @@ int buzzparser_parse(buzzparser_t par) {
    fprintf(par->asmstream, "\tnop\n");
    /* Write actual chunks */
    buzzdarray_foreach(par->chunks, chunk_print, par->asmstream);
+   /* Make sure that everything was written */
+   if(fflush(par->asmstream) != 0 || ferror(par->asmstream)) {
+      perror(par->asmfn);
+      return PARSE_ERROR;
+   }
    return PARSE_OK;
 }
 
-- 
2.43.0


From c7a24a659bedc8bb4f91783a7d80e9e9243790cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:52 +0000
Subject: [PATCH 93/95] fix: bzzc mangles script names with spaces and leaves
 its temporary file behind

---
 src/utility/bzzc.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/bzzc.in b/src/utility/bzzc.in
index f06af7c..bbb5f7e 100755
--- a/src/utility/bzzc.in
+++ b/src/utility/bzzc.in
@@ -120,17 +120,17 @@ if [[ -z $BASM ]]; then
     BASM=$(mktemp bzz.XXXXXX)
 fi
 if [[ -z $BO ]]; then
-    BO="$(echo $BZZ | rev | cut -d. -f 2- | rev).bo"
+    BO="$(echo "$BZZ" | rev | cut -d. -f 2- | rev).bo"
 fi
 if [[ -z $BDB ]]; then
-    BDB="$(echo $BZZ | rev | cut -d. -f 2- | rev).bdb"
+    BDB="$(echo "$BZZ" | rev | cut -d. -f 2- | rev).bdb"
 fi
 
 #
 # Compilation
 #
-$BZZPARSE "$BZZ" "$BASM" && $BZZASM "$BASM" "$BO" "$BDB"
-RETVAL=$?
+RETVAL=0
+{ $BZZPARSE "$BZZ" "$BASM" && $BZZASM "$BASM" "$BO" "$BDB"; } || RETVAL=$?
 if [[ "${KEEPBASM}" = "n" ]]; then
     rm -f "$BASM"
 fi
-- 
2.43.0


From 32c16c13ceb74877950d53b01b20a0a3f8f98d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:14 +0000
Subject: [PATCH 94/95] fix: the assembler accepts a label defined twice

---
 src/buzz/buzzasm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 0383533..9501fca 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -242,6 +242,12 @@ int buzz_asm(const char* fname,
          *(endc + 1) = 0;
          /* Copy label information for storage */
          char* label = strdup(labelinfo);
+         /* A label marks exactly one position */
+         if(buzzdict_exists(labpos, &label)) {
+            fprintf(stderr, "ERROR: %s:%zu label \"%s\" defined twice\n", fname, lineno, label);
+            free(label);
+            return 2;
+         }
          buzzdict_set(labpos, &label, size);
          continue;
       }
-- 
2.43.0


From 3bd6a27ce7738852bc71cbf38d1062dacf6cfce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 95/95] fix: a negative multiple of ten as integer and as float
 is two table keys

---
 src/buzz/buzztype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index a71abf7..6664a01 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -20,7 +20,7 @@ uint32_t buzzobj_table_hash(const void* key) {
          return (k->i.value % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_FLOAT: {
-         return ((uint32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
+         return ((int64_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_STRING: {
          return ((uint32_t)(k->s.value.sid) % BUZZTYPE_TABLE_BUCKETS);
-- 
2.43.0

