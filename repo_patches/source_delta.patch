From f3c01809830e64920cfec125fdf3b216684e3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:51 +0000
Subject: [PATCH 01/67] fix: buzzset_remove() leaked the removed element and
 destroyed the element that replaced it

---
 src/buzz/buzzset.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..ffcd967 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -26,15 +26,21 @@ static buzzset_tree_t buzzset_tree_new(buzzset_t s,
    return x;
 }
 
+/* Destroys a node, leaving its children untouched */
+static void buzzset_tree_destroy_node(buzzset_t s,
+                                      buzzset_tree_t n) {
+   if(s->dstryf) s->dstryf(n->data, NULL);
+   free(n->data);
+   free(n);
+}
+
 /* Destroys a node and its children */
 static void buzzset_tree_destroy(buzzset_t s,
                                  buzzset_tree_t n) {
    if(!n) return;
    if(n->left) buzzset_tree_destroy(s, n->left);
    if(n->right) buzzset_tree_destroy(s, n->right);
-   if(s->dstryf) s->dstryf(n->data, NULL);
-   free(n->data);
-   free(n);
+   buzzset_tree_destroy_node(s, n);
 }
 
 /* Inserts a new node in the tree */
@@ -91,6 +97,21 @@ static buzzset_tree_t buzzset_tree_find_min(buzzset_tree_t n) {
 /****************************************/
 /****************************************/
 
+/* Removes the smallest node in a tree */
+static buzzset_tree_t buzzset_tree_remove_min(buzzset_t s,
+                                              buzzset_tree_t n) {
+   if(n->left) {
+      n->left = buzzset_tree_remove_min(s, n->left);
+      return n;
+   }
+   buzzset_tree_t r = n->right;
+   buzzset_tree_destroy_node(s, n);
+   return r;
+}
+
+/****************************************/
+/****************************************/
+
 /* Removes a node with the given data from the tree */
 static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
                                           buzzset_tree_t n,
@@ -112,11 +133,9 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
    else {
       /* We found the node to remove */
       *removed = 1;
-      /* Get rid of the data */
-      if(s->dstryf) s->dstryf(n->data, NULL);
       /* If the node has no children, simply remove it */
       if(!n->left && !n->right) {
-         free(n);
+         buzzset_tree_destroy_node(s, n);
          n = NULL;
       }
       /* If the element has one child, put the child in place of this
@@ -124,21 +143,24 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
       else if(!n->right) {
          buzzset_tree_t x = n;
          n = n->left;
-         free(x);
+         buzzset_tree_destroy_node(s, x);
       }
       else if(!n->left) {
          buzzset_tree_t x = n;
          n = n->right;
-         free(x);
+         buzzset_tree_destroy_node(s, x);
       }
       /* Both children exist for this node */
       else {
          /* Look for the minimum id on the right of the node to eliminate */
          buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
+         /* Swap its value with that of the current root: the data to
+          * remove is now the smallest on the right */
+         void* x = n->data;
          n->data = m->data;
+         m->data = x;
          /* Delete the minimum node */
-         n->right = buzzset_tree_remove(s, n->right, m->data, removed);
+         n->right = buzzset_tree_remove_min(s, n->right);
       }
    }
    return n;
-- 
2.43.0


From d4731779d8591c2db424678dc6d62fce703ef293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:55 +0000
Subject: [PATCH 02/67] fix: buzzvm_function_register() compared code bytes
 instead of function pointers

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..15494e5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1078,7 +1078,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From 8e31a9c683b1a271eff391e1bb077ccff6a49d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:29 +0000
Subject: [PATCH 03/67] fix: buzzobj_deserialize() read past the type
 description table for unknown types

---
 src/buzz/buzztype.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..9990f57 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -579,6 +579,11 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   /* Make sure the type is known */
+   if(type > BUZZTYPE_USERDATA) {
+      fprintf(stderr, "[WARNING] %s:%d Can't deserialize an object of unknown type %u\n", __FILE__, __LINE__, type);
+      return -1;
+   }
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
-- 
2.43.0


From cc682784b9216a8ad0db9ee29add5d038e7b0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:29 +0000
Subject: [PATCH 04/67] fix: a received table with an invalid key aborted the
 process

---
 src/buzz/buzztype.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 9990f57..ace7834 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -614,6 +614,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             buzzobj_t v;
             p = buzzobj_deserialize(&k, buf, p, vm);
             if(p < 0) return -1;
+            /* Make sure the key can be used as such */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
             buzzdict_set((*data)->t.value, &k, &v);
-- 
2.43.0


From 95b8a528ad032202e917744770eab41ef701655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:30 +0000
Subject: [PATCH 05/67] fix: a received virtual stigmergy entry with a closure
 as key aborted the process

---
 src/buzz/buzzvstig.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..2b0d55c 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -137,6 +137,8 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   /* Closures can't be used as keys */
+   if((*key)->o.type == BUZZTYPE_CLOSURE) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
-- 
2.43.0


From c6463c3774ec28fba13ca60d4d45e8bc4a4f31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:30 +0000
Subject: [PATCH 06/67] fix: comparing a large float with a string overflowed a
 stack buffer

---
 src/buzz/buzztype.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ace7834..863a071 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -169,24 +169,24 @@ int buzzobj_cmp(const buzzobj_t a,
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
-      char str[30];
-      sprintf(str, "%d", b->i.value);
+      char str[64];
+      snprintf(str, sizeof(str), "%d", b->i.value);
       return strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
-      sprintf(str, "%f", b->f.value);
+      char str[64];
+      snprintf(str, sizeof(str), "%f", b->f.value);
       return strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
-      sprintf(str, "%d", a->i.value);
+      char str[64];
+      snprintf(str, sizeof(str), "%d", a->i.value);
       return strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
-      sprintf(str, "%f", a->f.value);
+      char str[64];
+      snprintf(str, sizeof(str), "%f", a->f.value);
       return strcmp(str, b->s.value.str);
    }
    /* Tables */
-- 
2.43.0


From dff3bf22a158f21197fdc846e4db8d3a2b19a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 07/67] fix: malformed inbound messages were dispatched

An empty payload was read past its end; a truncated or ill-typed broadcast
used an uninitialized topic or value; a truncated swarm list replaced the
sender's membership with partly uninitialized ids.
---
 src/buzz/buzzvm.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 15494e5..64e1930 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -246,12 +246,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Ignore empty messages */
+      if(buzzmsg_payload_size(msg) == 0) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -261,6 +270,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
@@ -449,6 +462,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   break;
                }
             }
+            /* Discard the information in a malformed message */
+            if(pos < 0) {
+               buzzdarray_destroy(&sids);
+               break;
+            }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From 87e738b0a707169cc3a6ff96795b11d0ac8ed8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 08/67] fix: virtual stigmergy conflict handling left values on
 the stack and used freed objects

When a conflict manager returned something unusable, failed, or modified the
stigmergy, the remote entry was leaked, stack values were left behind, and
the key or local entry could be used after being freed; the result of
onconflictlost stayed on the stack.
---
 src/buzz/buzzvm.c    | 96 +++++++++++++++++++++++---------------------
 src/buzz/buzzvstig.c | 13 ++++--
 2 files changed, 61 insertions(+), 48 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 64e1930..4cb3fdf 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -237,6 +237,54 @@ void buzzvm_outmsg_destroy(uint32_t pos, void* data, void* param) {
    fprintf(stderr, "[TODO] %s:%d\n", __FILE__, __LINE__);
 }
 
+/*
+ * Resolves a conflict between a local and a remote virtual stigmergy entry.
+ * The conflict managers execute script code: that code can trigger the
+ * garbage collector and modify the virtual stigmergy, so the objects in use
+ * are kept on the stack, and the local entry is not used past that point.
+ * @return 1 if the conflict was resolved, 0 otherwise.
+ */
+static int buzzvm_vstig_conflict(buzzvm_t vm,
+                                 uint16_t id,
+                                 buzzobj_t k,
+                                 buzzvstig_elem_t l,
+                                 buzzvstig_elem_t v) {
+   const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+   /* Save current local entry */
+   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, l);
+   buzzvm_push(vm, k);
+   buzzvm_push(vm, ol->data);
+   /* Call conflict manager */
+   buzzvstig_elem_t c = buzzvstig_onconflict_call(vm, *vs, k, ol, v);
+   if(vm->state != BUZZVM_STATE_READY) {
+      free(ol);
+      free(c);
+      return 0;
+   }
+   /* Make sure conflict manager returned with an element to process */
+   int resolved = (c != NULL);
+   if(resolved) {
+      /* Store winning value */
+      vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+      buzzvstig_store(*vs, &k, &c);
+      /* Propagate the PUT message */
+      buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+      /* Did this robot lose the conflict? */
+      if((c->robot != vm->robot) &&
+         (ol->robot == vm->robot)) {
+         /* Yes, call conflict lost manager */
+         buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+      }
+   }
+   free(ol);
+   /* Get rid of the saved objects */
+   if(vm->state == BUZZVM_STATE_READY) {
+      buzzvm_pop(vm);
+      buzzvm_pop(vm);
+   }
+   return resolved;
+}
+
 void buzzvm_process_inmsgs(buzzvm_t vm) {
    /* Go through the messages */
    while(!buzzinmsg_queue_isempty(vm->inmsgs)) {
@@ -320,32 +368,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               if(!c) {
+               if(!buzzvm_vstig_conflict(vm, id, k, *l, v))
                   fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
-                  break;
-               }
                /* Get rid of useless vstig element */
                free(v);
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
             }
             else {
                /* Remote element is older, ignore it */
@@ -412,29 +438,9 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
+               buzzvm_vstig_conflict(vm, id, k, *l, v);
+               /* Get rid of useless vstig element */
                free(v);
-               /* Make sure conflict manager returned with an element to process */
-               if(!c) break;
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 2b0d55c..a99133e 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -427,19 +427,23 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY)
+         return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -491,7 +495,10 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) != BUZZVM_STATE_READY)
+         return;
+      /* Get rid of the return value */
+      buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From c8974683ab6d4bd95f2b6c2f3969041eb2280782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:38 +0000
Subject: [PATCH 09/67] fix: the outcome of a virtual stigmergy conflict was
 not announced while the losing entry was queued

---
 src/buzz/buzzoutmsg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..a6eaf1f 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -338,7 +338,11 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
       /* Yes; if the duplicate is newer than the passed message, nothing to do */
-      if((*e)->data->timestamp >= data->timestamp) return;
+      if((*e)->data->timestamp > data->timestamp) return;
+      /* Same if it is about the same entry; an entry with the same timestamp
+       * by another robot is the outcome of a conflict, and must be sent */
+      if((*e)->data->timestamp == data->timestamp &&
+         (*e)->data->robot == data->robot) return;
       /* The duplicate is older, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
-- 
2.43.0


From 946c7cf4fe5659dff943d2a4d5adb566b76002e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 10/67] fix: replacing a virtual stigmergy conflict manager
 freed an object owned by the heap

---
 src/buzz/buzzvstig.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index a99133e..c1489e0 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -361,7 +361,6 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -389,7 +388,6 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From 00edb207278927e1e925a8d336800a4ee9f59515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:54 +0000
Subject: [PATCH 11/67] fix: selecting with a multiple of 256 made the robot
 leave the swarm

The condition was truncated to 8 bits before being tested.
---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..9371d27 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -454,7 +454,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From f7999a183b3282bbfe56118f190bbda879f2ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:54 +0000
Subject: [PATCH 12/67] fix: a swarm set operation on something that is not a
 swarm still changed membership

buzzvm_type_assert() returned the (positive) error state from buzzswarm_check(),
which the callers take for 'the robot is a member'.
---
 src/buzz/buzzswarm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 9371d27..672127b 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -525,7 +525,15 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
     * Assert that the top of the stack element is a valid swarm
     */
    /* Mke sure it's a table */
-   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
+   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected %s, got %s",
+                      buzztype_desc[BUZZTYPE_TABLE],
+                      buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+      /* Return error */
+      return -1;
+   }
    /* Get the 'id' element */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
    buzzvm_tget(vm);
-- 
2.43.0


From 0001bcab6958cbbc3ccec9605855e30371de0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:54 +0000
Subject: [PATCH 13/67] fix: swarm.id() ignored its argument

The number of parameters was compared with 1 instead of 0. With the argument
in use, a stack position of 0 must not read past the end of the stack.
---
 src/buzz/buzzswarm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 672127b..2f9f40b 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -317,7 +317,7 @@ int buzzswarm_id(struct buzzvm_s* vm) {
       /* Take the stack top by default */
       uint16_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
@@ -325,6 +325,8 @@ int buzzswarm_id(struct buzzvm_s* vm) {
       /* Limit stackpos value to avoid out-of-bounds operations */
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
+      if(stackpos < 1)
+         stackpos = 1;
       /* Push the swarm id located at stackpos */
       buzzvm_pushi(vm,
                    buzzdarray_get(
-- 
2.43.0


From b68cbe969fe785702ee80072a7668a7cd14852bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:23 +0000
Subject: [PATCH 14/67] fix: calling a C closure executed one instruction too
 many

buzzvm_closure_call() and swarm exec() always performed a step after the call.
A C closure has already returned at that point, so the step ran the caller's
next instruction on the wrong stack (or terminated the script, so that later
messages of the round were not processed).
---
 src/buzz/buzzswarm.c | 6 +++---
 src/buzz/buzzvm.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 2f9f40b..6efb903 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -508,9 +508,9 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 4cb3fdf..957fdbf 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1040,9 +1040,9 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From 929111cb7fb375cd01290d57c57aeb87c307aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:26 +0000
Subject: [PATCH 15/67] fix: calling a function with arguments from C put
 garbage on the stack

buzzdarray_insert() takes the address of the element, but the object itself
was passed in buzzvm_function_call() and in the debugger's call functions.
---
 src/buzz/buzzdebug.c | 8 ++++++--
 src/buzz/buzzvm.c    | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..33fbdbb 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -308,7 +308,10 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
       else return vm->state;
    }
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack,
+                     buzzdarray_size(vm->stack) - argc - 1,
+                     &o);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
@@ -348,9 +351,10 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 957fdbf..17120a1 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1081,9 +1081,10 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
-- 
2.43.0


From f7c35eb463db4da1c5e07255ec509c9cfbd7d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:31 +0000
Subject: [PATCH 16/67] fix: a robot that left every swarm was still considered
 a member

The periodic list supersedes the pending leave messages; when it is empty, the
receivers ignored it and kept the outdated information.
---
 src/buzz/buzzvm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 17120a1..e43666b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -457,9 +457,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
-            /* Deserialize swarm ids */
-            buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
+            /* Deserialize swarm ids - the list is empty when the robot left every swarm */
+            buzzdarray_t sids = buzzdarray_new(nsids > 0 ? nsids : 1, sizeof(uint16_t), NULL);
             uint16_t i;
             for(i = 0; i < nsids; ++i) {
                pos = buzzmsg_deserialize_u16(buzzdarray_makeslot(sids, i), msg, pos);
-- 
2.43.0


From be0f80ac212caed76f6192d4bd441c7de9177582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:13 +0000
Subject: [PATCH 17/67] fix: messages received from a robot were processed
 last-in first-out

The queue is documented as a FIFO; a join followed by a leave was acted upon
in reverse.
---
 src/buzz/buzzinmsg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..b1dd2e7 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -59,9 +59,9 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
          break;
       }
    }
-   /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   /* Extract oldest payload from array */
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From 97ef3b76b7719f98a2e79badbc05892aff9d3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:30 +0000
Subject: [PATCH 18/67] fix: modulo of a negative number between an integer and
 a float read the wrong operand field

---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e43666b..0ac4316 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1502,14 +1502,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From 69e8fe5c0f6bb9461f96f967d028046efe60d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:29 +0000
Subject: [PATCH 19/67] fix: integer division or modulo by zero killed the
 process

The smallest integer divided by -1 did too.
---
 src/buzz/buzzvm.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0ac4316..98075fb 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1472,6 +1472,20 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   buzzvm_stack_assert((vm), 2);
+   /* Integer divisions the CPU can't perform */
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT &&
+      buzzvm_stack_at(vm, 2)->o.type == BUZZTYPE_INT) {
+      if(buzzvm_stack_at(vm, 1)->i.value == 0) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "integer division by zero");
+         return vm->state;
+      }
+      if(buzzvm_stack_at(vm, 1)->i.value == -1) {
+         /* Overflows for the smallest integer, use negation instead */
+         buzzvm_pop(vm);
+         return buzzvm_unm(vm);
+      }
+   }
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1486,8 +1500,13 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
    buzzdarray_pop(vm->stack);
    if(op1->o.type == BUZZTYPE_INT &&
       op2->o.type == BUZZTYPE_INT) {
+      if(op1->i.value == 0) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "integer modulo by zero");
+         return vm->state;
+      }
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
-      res->i.value = op2->i.value % op1->i.value;
+      /* Modulo -1 overflows for the smallest integer, and the result is always 0 */
+      res->i.value = (op1->i.value == -1) ? 0 : op2->i.value % op1->i.value;
       if(res->i.value < 0) res->i.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
-- 
2.43.0


From b8767d0f41641971aa723f91f01c88adea00995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:32 +0000
Subject: [PATCH 20/67] fix: arithmetic on non-numeric operands left the error
 without a message

buzzvm_strerror() returned NULL, or the message of a previous error.
---
 src/buzz/buzzvm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 98075fb..b854fbb 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -40,8 +40,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
        op1->o.type != BUZZTYPE_FLOAT) ||                                \
       (op2->o.type != BUZZTYPE_INT &&                                   \
        op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, NULL);                   \
       return (vm)->state;                                               \
    }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
@@ -1532,8 +1531,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1572,8 +1570,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1596,8 +1593,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
-- 
2.43.0


From b1efa86a59e3382eb9a103326b61142a5990bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:08 +0000
Subject: [PATCH 21/67] fix: two different strings compared equal when strcmp()
 returned 2

For instance, "c" == "a" was true: 2 is the code for incomparable objects.
---
 src/buzz/buzztype.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 863a071..1364e22 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,13 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+/* strcmp() can return any number, including the code for incomparable objects */
+static int buzzobj_strcmp(const char* a,
+                          const char* b) {
+   int cmp = strcmp(a, b);
+   return (cmp > 0) - (cmp < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +172,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return buzzobj_strcmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[64];
       snprintf(str, sizeof(str), "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[64];
       snprintf(str, sizeof(str), "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[64];
       snprintf(str, sizeof(str), "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[64];
       snprintf(str, sizeof(str), "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
-- 
2.43.0


From 92149042e1cdcac759fabdd921e13be80ead3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:30 +0000
Subject: [PATCH 22/67] fix: comparing nil with anything else was always true

In particular, x == nil held for every x. Now nil is only equal to nil, and
different from anything else.
---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index b854fbb..a22de56 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -132,7 +132,8 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   /* Incomparable operands are only different from each other */        \
+   res->i.value = (cmp == 2) ? ((2 oper 0) && (0 oper 2)) : (cmp oper 0); \
    return buzzvm_push(vm, res);
 
 /****************************************/
-- 
2.43.0


From a2ac7c99fd9cd7a1ff43c86c5f29f9c57874535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 23/67] fix: comparing closures aborted the process, and NaN
 compared equal to everything

---
 src/buzz/buzztype.c | 19 +++++++++++++------
 src/buzz/buzztype.h |  6 +++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 1364e22..7be03d8 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -158,17 +158,20 @@ int buzzobj_cmp(const buzzobj_t a,
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->i.value < b->f.value) return -1;
       if(a->i.value > b->f.value) return 1;
-      return 0;
+      if(a->i.value == b->f.value) return 0;
+      return 2; /* NaN */
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_INT) {
       if(a->f.value < b->i.value) return -1;
       if(a->f.value > b->i.value) return 1;
-      return 0;
+      if(a->f.value == b->i.value) return 0;
+      return 2; /* NaN */
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->f.value < b->f.value) return -1;
       if(a->f.value > b->f.value) return 1;
-      return 0;
+      if(a->f.value == b->f.value) return 0;
+      return 2; /* NaN */
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
@@ -218,9 +221,13 @@ int buzzobj_cmp(const buzzobj_t a,
       if((uintptr_t)(a->u.value) > (uintptr_t)(b->u.value)) return 1;
       return 0;
    }
-   // TODO better error management
-   fprintf(stderr, "[TODO] %s:%d: Error for comparison between Buzz objects of types %d and %d\n", __FILE__, __LINE__, a->o.type, b->o.type);
-   abort();
+   /* Closures */
+   if(a->o.type == BUZZTYPE_CLOSURE && b->o.type == BUZZTYPE_CLOSURE &&
+      buzzobj_eq(a, b)) {
+      return 0;
+   }
+   /* Any other combination is not comparable */
+   return 2;
 }
 
 /****************************************/
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 92fe8c4..2bfeaff 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -153,10 +153,10 @@ extern "C" {
     * -1 if a  < b
     *  1 if a  > b
     *  0 if a == b
-    *  2 if a == nil or b == nil but not both
+    *  2 if a and b are not comparable, e.g., a == nil or b == nil but not both
     * To be comparable, two objects must have the same type and equal value.
-    * For numeric types, value comparison is as expected; for closures and
-    * tables, equality is undefined and an error is issued.
+    * For numeric types, value comparison is as expected, and NaN is not
+    * comparable; a closure is only equal to itself.
     * @param a The first object.
     * @param b The second object.
     * @return -1,0,1,2 depending on types and values
-- 
2.43.0


From a2bd164c8e0297af7a2c2aee2464373248cb3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:11 +0000
Subject: [PATCH 24/67] fix: loading or running truncated bytecode read past
 its end

---
 src/buzz/buzzvm.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a22de56..925dc1c 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -676,13 +676,24 @@ void buzzvm_seterror(buzzvm_t vm,
 int buzzvm_set_bcode(buzzvm_t vm,
                      const uint8_t* bcode,
                      uint32_t bcode_size) {
+   /* Make sure the string count is there */
+   if(bcode_size < sizeof(uint16_t)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, "bytecode too short");
+      return vm->state;
+   }
    /* Fetch the string count */
    uint16_t count;
    memcpy(&count, bcode, sizeof(uint16_t));
    /* Go through the strings and store them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
-   for(; (c < count) && (i < bcode_size); ++c) {
+   for(; c < count; ++c) {
+      /* Make sure the string ends within the bytecode */
+      if(i >= bcode_size ||
+         !memchr(bcode + i, 0, bcode_size - i)) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_STRING, "bytecode string table truncated");
+         return vm->state;
+      }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
@@ -702,7 +713,8 @@ int buzzvm_set_bcode(buzzvm_t vm,
     * Register function definitions
     * Stop when you find a 'nop'
     */
-   while(vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
+   while((uint32_t)(vm->pc) >= vm->bcode_size ||
+         vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
       if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    buzzvm_step(vm);
    /* Initialize empty neighbors */
@@ -740,6 +752,8 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* buzzvm_dump(vm); */
    /* Can't execute if not ready */
    if(vm->state != BUZZVM_STATE_READY) return vm->state;
+   /* Make sure the program counter is valid */
+   assert_pc(vm->pc);
    /* Execute GC */
    buzzheap_gc(vm);
    /* Fetch instruction and (potential) argument */
-- 
2.43.0


From b5db76a5cabef2fed0f3c8f03a57df35389cb978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:15 +0000
Subject: [PATCH 25/67] fix: local variables of a function called with too few
 arguments were left uninitialised

---
 src/buzz/buzzvm.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 925dc1c..6c09ac6 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1729,7 +1729,7 @@ buzzvm_state buzzvm_lte(buzzvm_t vm) {
 
 buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
    /* Make sure there are sufficient local symbols in the stack */
-   if(buzzvm_lnum(vm) < idx) {
+   if(!vm->lsyms || buzzvm_lnum(vm) < idx) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack (maybe you called a function with an insufficient number of parameters?)"
@@ -1746,18 +1746,33 @@ buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
 
 buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
+   /* Make sure we are in a function, and the position is sensible */
+   if(!vm->lsyms || idx > UINT16_MAX) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "can't store local symbol %u",
+                      idx);
+      return vm->state;
+   }
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   /* Symbols that were never assigned, such as missing parameters, are nil */
+   while(buzzdarray_size(vm->lsyms->syms) < idx) {
+      buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+      buzzdarray_push(vm->lsyms->syms, &nil);
+   }
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
    return vm->state;
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num)
+   if(!vm->lsyms || buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From 2851a4a529a624dc86b197a432ce05b43b61619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:18 +0000
Subject: [PATCH 26/67] fix: returning outside of a function crashed the
 virtual machine

---
 src/buzz/buzzvm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 6c09ac6..23a9dd6 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1401,6 +1401,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* Make sure there is a function to return from */
+   if(!vm->lsyms) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1431,6 +1436,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* Make sure there is a function to return from */
+   if(!vm->lsyms) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
-- 
2.43.0


From 6b9770252ac806f60fb754dc7e62aec9366aeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:22 +0000
Subject: [PATCH 27/67] fix: a call with a negative or huge argument count read
 outside of the stack

---
 src/buzz/buzzvm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 23a9dd6..467d81b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1133,8 +1133,11 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
-   /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   /* Make sure the argument number makes sense */
+   if(argn < 0 || argn >= buzzvm_stack_top(vm)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "wrong argument number %d", argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
-- 
2.43.0


From 630d4c2368738a46964880283d1010ee458cf237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:25 +0000
Subject: [PATCH 28/67] fix: reading a table with an invalid key crashed while
 composing the error message

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 467d81b..265f40a 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1363,7 +1363,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From 04d9806169429276e88085323de2aab9d63faa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:08 +0000
Subject: [PATCH 29/67] fix: calling a C closure with a negative function id
 jumped to an arbitrary address

---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 265f40a..04e5041 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1143,7 +1143,8 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      ((c->c.value.ref) < 0 ||
+       (c->c.value.ref) >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
-- 
2.43.0


From 33563c840bbb0b09613131830d5313a52537c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:05 +0000
Subject: [PATCH 30/67] fix: neighbors.count() took the size of a dictionary
 with the macro for arrays

---
 src/buzz/buzzneighbors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..a30a1ab 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -618,8 +618,8 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
    int32_t count = 0;
-   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_NIL) {
-      count = buzzdarray_size(buzzvm_stack_at(vm, 1)->t.value);
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_TABLE) {
+      count = buzzdict_size(buzzvm_stack_at(vm, 1)->t.value);
    }
    buzzvm_pushi(vm, count);
    return buzzvm_ret1(vm);
-- 
2.43.0


From 63d62cb1148ea4ceb73d7d4d94f49f3e6e060473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:08 +0000
Subject: [PATCH 31/67] fix: neighbors methods crashed when called on something
 that is not a table

---
 src/buzz/buzzneighbors.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index a30a1ab..5f01d73 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -290,6 +290,7 @@ int buzzneighbors_nonkin(buzzvm_t vm) {
    if(swarmid >= 0) {
       /* Get the self table */
       buzzvm_lload(vm, 0);
+      buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
       /* Get the data table */
       buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
       buzzvm_tget(vm);
@@ -320,10 +321,11 @@ int buzzneighbors_get(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
-   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_NIL) {
+   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
       /* No data */
       buzzvm_pushnil(vm);
    }
@@ -361,6 +363,7 @@ int buzzneighbors_foreach(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
@@ -498,6 +501,7 @@ int buzzneighbors_reduce(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 2);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
@@ -614,6 +618,7 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 0);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
-- 
2.43.0


From 3d27c6d1ec3eaae32b3514f8ec2e7004895f2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:11 +0000
Subject: [PATCH 32/67] fix: math.rng.exponential() read its argument outside
 of the stack

---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..17a9287 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -639,6 +639,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From ad7e539138ce4b75883ca678753a92faa90d9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:14 +0000
Subject: [PATCH 33/67] fix: math.rng.gaussian() rejected a single argument and
 took the first argument as the mean

---
 src/buzz/buzzmath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 17a9287..7045812 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -594,7 +594,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -608,7 +608,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
-- 
2.43.0


From 0776de95dcb0dfd110cd915ed6d4786fb48e8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:17 +0000
Subject: [PATCH 34/67] fix: math.rng.uniform() left the range when it was
 negative or wider than INT32_MAX

---
 src/buzz/buzzmath.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 7045812..e6dfe98 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -56,6 +56,15 @@ uint32_t mt_uniform32(buzzvm_t vm) {
    return y;
 }
 
+/* Returns an integer between a and b, included */
+static int32_t mt_uniform_range(buzzvm_t vm,
+                                int32_t a,
+                                int32_t b) {
+   int64_t min = (a < b) ? a : b;
+   int64_t max = (a < b) ? b : a;
+   return min + (int64_t)((uint64_t)mt_uniform32(vm) * (uint64_t)(max - min) / INT_MAX);
+}
+
 /****************************************/
 /****************************************/
 
@@ -502,7 +511,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      mt_uniform_range(vm, 0, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
@@ -521,7 +530,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_range(vm, min->i.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
-- 
2.43.0


From c9a9736ef2cd169bdf832152896ac71175ea0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 35/67] fix: string.sub() with a negative start read before the
 string

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..1a25d74 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From 7784b94339b831f5c32e8f93c55623a59150319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:23 +0000
Subject: [PATCH 36/67] fix: string.tostring() of something that is not a
 number returned garbage instead of nil

---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 1a25d74..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From d4b21b47b763931ed28a8421e9c55893bde10ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:26 +0000
Subject: [PATCH 37/67] fix: io functions used anything in a table's handle
 field as a file

---
 src/buzz/buzzio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..e35908d 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -17,6 +17,7 @@
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
    buzzvm_pop(vm);
 
-- 
2.43.0


From 0b994085e7755e36fa9c16117c7def20e45541f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:30 +0000
Subject: [PATCH 38/67] fix: using a file after io.fclose() accessed freed
 memory

---
 src/buzz/buzzio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e35908d..c0baa5c 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -120,6 +120,11 @@ int buzzio_fclose(buzzvm_t vm) {
    fclose(f);
    /* Register error information */
    buzzio_update_error(vm);
+   /* Forget the file handle, it's not valid anymore */
+   buzzvm_lload(vm, 1);
+   buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+   buzzvm_pushnil(vm);
+   buzzvm_tput(vm);
    /* All done */
    return buzzvm_ret0(vm);
 }
-- 
2.43.0


From 73bd5ea76e2e7194443afc59e9912b5635a68fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:45 +0000
Subject: [PATCH 39/67] fix: io.fforeach() crashed on files with more than one
 line

---
 src/buzz/buzzio.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index c0baa5c..372d3d2 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -165,7 +165,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Go through the file lines */
    int vmstate = vm->state;
-   size_t cap; /* line buffer capacity */
+   size_t cap = 0; /* line buffer capacity */
    char* line = NULL;
    ssize_t len = getline(&line, &cap, f);
    while(len >= 0 &&
@@ -178,10 +178,13 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
       vmstate = buzzvm_closure_call(vm, 1);
-      buzzvm_pop(vm);
+      if(vmstate != BUZZVM_STATE_READY) {
+         free(line);
+         return vmstate;
+      }
       /* Next line */
       len = getline(&line, &cap, f);
-      /* Remove the nil (return value) left by closure_call */
+      /* Remove the value (return value) left by closure_call */
       buzzvm_pop(vm);
    }
    /* Register error information */
-- 
2.43.0


From f219769762f2be5b8cffb2591972ed48d8ac11f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 40/67] fix: removing the visited entry while iterating
 accessed freed memory

---
 src/buzz/buzzdict.c      |  3 ++-
 src/buzz/buzzneighbors.c |  6 ++++--
 src/buzz/buzztype.c      | 20 +++++++++++++-------
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzdict.c b/src/buzz/buzzdict.c
index acefe98..687256e 100644
--- a/src/buzz/buzzdict.c
+++ b/src/buzz/buzzdict.c
@@ -169,7 +169,8 @@ void buzzdict_foreach(buzzdict_t dt,
       /* Is the bucket used? */
       if(dt->buckets[i] != NULL) {
          /* Go through elements in the bucket */
-         for(j = 0; j < buzzdarray_size(dt->buckets[i]); ++j) {
+         /* The function could remove elements, and even the entire bucket */
+         for(j = 0; dt->buckets[i] != NULL && j < buzzdarray_size(dt->buckets[i]); ++j) {
             const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j, struct buzzdict_entry_s);
             fun(e->key, e->data, params);
          }
diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index 5f01d73..96a6b9c 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -542,13 +542,15 @@ struct neighbor_filter_each_s {
 void neighbor_filter_each(const void* key, void* data, void* params) {
    struct neighbor_filter_each_s* d = (struct neighbor_filter_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
+   /* Save id and value, the closure could remove this entry */
    buzzobj_t rid = *(buzzobj_t*)key;
+   buzzobj_t rdata = *(buzzobj_t*)data;
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, rdata);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -565,7 +567,7 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(d->result, &rid, data);
+      buzzdict_set(d->result, &rid, &rdata);
    }
    /* Get rid of return value */
    buzzvm_pop(d->vm);
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 7be03d8..384405b 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -353,12 +353,15 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_map_params* p = (struct buzzobj_map_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Save key and value, the closure could remove this entry */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -373,10 +376,10 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Manage return value */
    buzzobj_t r = buzzvm_stack_at(p->vm, 1);
    if(r->o.type != BUZZTYPE_NIL) {
-      buzzdict_set(p->result, key, &r);
+      buzzdict_set(p->result, &k, &r);
    }
    else {
-      buzzdict_remove(p->result, key);
+      buzzdict_remove(p->result, &k);
    }
    /* Get rid of return value */
    buzzvm_pop(p->vm);
@@ -473,12 +476,15 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_filter_params* p = (struct buzzobj_filter_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Save key and value, the closure could remove this entry */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -495,7 +501,7 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(p->result, key, data);
+      buzzdict_set(p->result, &k, &v);
    }
    /* Get rid of return value */
    buzzvm_pop(p->vm);
-- 
2.43.0


From b3299e512e2f4acf3522499b02877e74865a38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 41/67] fix: strings and numbers with the same text clashed as
 table and stigmergy keys

---
 src/buzz/buzztype.c  | 3 +++
 src/buzz/buzzvstig.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 384405b..c51ccd5 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -32,6 +32,9 @@ uint32_t buzzobj_table_hash(const void* key) {
 }
 
 int buzzobj_table_keycmp(const void* a, const void* b) {
+   /* A string is never the same key as a number, even when it looks like it */
+   if(((*(buzzobj_t*)a)->o.type == BUZZTYPE_STRING) !=
+      ((*(buzzobj_t*)b)->o.type == BUZZTYPE_STRING)) return 2;
    return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index c1489e0..1278054 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -50,6 +50,9 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
+   /* A string is never the same key as a number, even when it looks like it */
+   if(((*(buzzobj_t*)a)->o.type == BUZZTYPE_STRING) !=
+      ((*(buzzobj_t*)b)->o.type == BUZZTYPE_STRING)) return 2;
    return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
-- 
2.43.0


From fc7eb8b801be2f4a4a5c9823fd62ff73fa17c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:18 +0000
Subject: [PATCH 42/67] fix: unary minus on variables did not bind tighter than
 the power operator

---
 src/buzz/buzzparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..99e9f61 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1080,7 +1080,7 @@ int parse_operand(buzzparser_t par) {
          return PARSE_OK;
       }
       else {
-         if(!parse_power(par)) return PARSE_ERROR;
+         if(!parse_bitwisenot(par)) return PARSE_ERROR;
          if(op == '-') chunk_append("\tunm");
          return PARSE_OK;
       }
-- 
2.43.0


From bdf41df6a94567f9a3a3b1189179d4183f1f9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:19 +0000
Subject: [PATCH 43/67] fix: a variable defined by a conditional single
 statement corrupted the other locals

---
 src/buzz/buzzparser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 99e9f61..504bbeb 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -550,6 +550,17 @@ int parse_blockstat(buzzparser_t par) {
       /* It's a block */
       return parse_block(par, 1);
    }
+   else if(par->tok->type == BUZZTOK_VAR &&
+           buzzdarray_size(par->symstack) > 1) {
+      /* It's a single variable definition in a function
+         The statement might not be executed, so the variable can't live
+         longer than the statement */
+      symt_clone();
+      if(!parse_var(par)) return PARSE_ERROR;
+      chunk_append("\tlremove 1");
+      symt_pop();
+      return PARSE_OK;
+   }
    else {
       /* It's a single statement, eat extra statement end characters */
       return parse_stat(par);
-- 
2.43.0


From 70c74055f53958599e0cfc793c3e33bf07a0ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:41 +0000
Subject: [PATCH 44/67] fix: variables and lambdas defined in blocks outside
 functions used a missing local scope

---
 src/buzz/buzzparser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 504bbeb..6a0cb10 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -113,7 +113,8 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
    /* Check whether symbol is global or local */
    int global;
    if(scope == SCOPE_AUTO) {
-      global = (buzzdarray_size(par->symstack) == 1);
+      /* The local scope exists only within functions */
+      global = (par->chunk == buzzdarray_get(par->chunks, 0, struct chunk_s*));
    }
    else {
       global = scope;
@@ -551,7 +552,7 @@ int parse_blockstat(buzzparser_t par) {
       return parse_block(par, 1);
    }
    else if(par->tok->type == BUZZTOK_VAR &&
-           buzzdarray_size(par->symstack) > 1) {
+           par->chunk != buzzdarray_get(par->chunks, 0, chunk_t)) {
       /* It's a single variable definition in a function
          The statement might not be executed, so the variable can't live
          longer than the statement */
@@ -1333,10 +1334,10 @@ int parse_lambda(buzzparser_t par) {
    fetchtok();
    /* Check whether it's necessary to create a brand new symbol table
     * or clone the current one
-    * If the parent symtable is the global one, it is necessary;
+    * If the parent is the global scope, it is necessary;
     * otherwise, clone the parent's
     */
-   if(buzzdarray_size(par->symstack) == 1) {
+   if(oldc == buzzdarray_get(par->chunks, 0, chunk_t)) {
       /* Add new symtable */
       symt_push();
       /* Add "self" symbol */
-- 
2.43.0


From e387cf389c8978aab977cac77b14966a73f76dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:42 +0000
Subject: [PATCH 45/67] fix: lambda arguments named as a local variable of the
 parent were ignored

---
 src/buzz/buzzparser.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 6a0cb10..d1a8444 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -138,6 +138,22 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
    else       buzzdict_set(par->syms, &key, &symdata);
 }
 
+void sym_addarg(buzzparser_t par, const char* sym) {
+   /* Lambdas inherit the local symbols of the parent
+    * If the argument hides one of them, its slot in the activation record
+    * stays taken: keep it under a name that scripts can't use
+    */
+   const struct sym_s* hidden = buzzdict_get(par->syms, &sym, struct sym_s);
+   if(hidden) {
+      struct sym_s symdata = *hidden;
+      char* key;
+      asprintf(&key, "%s#%" PRId64, sym, symdata.pos);
+      buzzdict_set(par->syms, &key, &symdata);
+      buzzdict_remove(par->syms, &sym);
+   }
+   sym_add(par, sym, SCOPE_LOCAL);
+}
+
 void sym_clone(const void* key, void* data, void* params) {
    struct sym_s* toclone = (struct sym_s*)data;
    /* Copy key */
@@ -1179,26 +1195,13 @@ int parse_idlist(buzzparser_t par) {
       return PARSE_OK;
    /* Match an id for the first argument */
    tokmatch(BUZZTOK_ID);
-   /* Look for the argument symbol in the context
-    * If a symbol is found and is not global,
-    * do not add a new symbol; otherwise do
-    * This allows lambdas and nested functions to
-    * reuse the parameters and local variables of
-    * the parent
-    */
-   const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-   if(!sym || sym->global) {
-      sym_add(par, par->tok->value, SCOPE_LOCAL);
-   }
+   sym_addarg(par, par->tok->value);
    fetchtok();
    /* Match rest of the argument list */
    while(par->tok->type == BUZZTOK_LISTSEP) {
       fetchtok();
       tokmatch(BUZZTOK_ID);
-      const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-      if(!sym || sym->global) {
-         sym_add(par, par->tok->value, SCOPE_LOCAL);
-      }
+      sym_addarg(par, par->tok->value);
       fetchtok();
    }
    return PARSE_OK;
-- 
2.43.0


From 67ffbb453cb8b1981c3de3e920ca5e41ace2c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:44 +0000
Subject: [PATCH 46/67] fix: the parser silently ignored the code after an
 unmatched }

---
 src/buzz/buzzparser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index d1a8444..f80df8a 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -449,6 +449,16 @@ int parse_script(buzzparser_t par) {
    chunk_push(0);
    /* Parse the statements */
    if(!parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure the entire script was parsed */
+   if(par->tok->type != BUZZTOK_EOF) {
+      fprintf(stderr,
+              "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unexpected %s\n",
+              buzzlex_getfile(par->lex)->fname,
+              par->tok->line,
+              par->tok->col,
+              buzztok_desc[par->tok->type]);
+      return PARSE_ERROR;
+   }
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
-- 
2.43.0


From 030eb29ed45b5fc044519aef71d0890f419b00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:43 +0000
Subject: [PATCH 47/67] fix: escape sequences in strings made the lexer read
 past the end of the string

---
 src/buzz/buzzlex.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..d23b22c 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -144,7 +144,8 @@ static char* buzzlex_newstring(const char* s,
    /* Pointer for current current */
    char* pns = ns;
    /* Go through original string */
-   for(size_t i = 0; i < len; ++i) {
+   const char* end = s + len;
+   while(s < end) {
       /* Escape sequence? */
       if(*s != '\\') {
          /* No, normal character - just copy it */
@@ -559,14 +560,12 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      char last1 = 0, last2 = 0;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            ((lexf->buf[lexf->cur_c] != c) ||  /* Matching quote not found */
-             (lexf->buf[lexf->cur_c] == c &&   /* Matching quote found, but preceded by \ and not \\ */
-              last1 == '\\' && last2 != '\\'))) {
-         /* Remember the last two characters read */
-         last2 = last1;
-         last1 = lexf->buf[lexf->cur_c];
+            lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
+         /* A \ escapes the next character */
+         if(lexf->buf[lexf->cur_c] == '\\') {
+            nextchar();
+         }
          /* Keep parsing the string */
          nextchar();
       }
-- 
2.43.0


From 6b14aae3c306076f710e9e90083cf40d010498a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:45 +0000
Subject: [PATCH 48/67] fix: lines were miscounted after a string that spans
 several lines

---
 src/buzz/buzzlex.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index d23b22c..5d16fa2 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -560,21 +560,29 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
+      uint64_t startline = lexf->cur_line;
+      int escape = 0;
+      while(lexf->cur_c < lexf->buf_size &&              /* Not end of stream */
+            (lexf->buf[lexf->cur_c] != c || escape)) {   /* Matching quote not found */
          /* A \ escapes the next character */
-         if(lexf->buf[lexf->cur_c] == '\\') {
+         escape = !escape && lexf->buf[lexf->cur_c] == '\\';
+         /* Keep parsing the string */
+         if(lexf->buf[lexf->cur_c] == '\n') {
+            /* The string continues on the next line */
+            ++lexf->cur_line;
+            lexf->cur_col = 0;
+            ++lexf->cur_c;
+         }
+         else {
             nextchar();
          }
-         /* Keep parsing the string */
-         nextchar();
       }
       /* End of stream? Syntax error */
       if(lexf->cur_c >= lexf->buf_size) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: string closing quote not found\n",
                  lexf->fname,
-                 lexf->cur_line,
+                 startline,
                  tokstart);
          return eoftok;
       }
@@ -584,7 +592,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
       nextchar();
       return buzzlex_newtok(BUZZTOK_STRING,
                             val,
-                            lexf->cur_line,
+                            startline,
                             tokstart,
                             lexf->fname);
    }
-- 
2.43.0


From 589829afc5a4a1bbc337cb30f85984897fc5a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:46 +0000
Subject: [PATCH 49/67] fix: identifiers that start with 'include' were taken
 as file inclusions

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 5d16fa2..ad7851a 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -308,7 +308,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             ++lexf->cur_c;
          }
       }
-      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
+      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
+              !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
          /* Manage file inclusion */
          lexf->cur_c += 7;
          lexf->cur_col += 7;
-- 
2.43.0


From 93a0b8fe65af93679eeb17f6059a8efb67361365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:47 +0000
Subject: [PATCH 50/67] fix: return without a value returned the next statement

---
 src/buzz/buzzlex.c    | 7 +------
 src/buzz/buzzparser.c | 5 ++++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index ad7851a..7b017ee 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -301,12 +301,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                return eoftok;
             lexf = buzzlex_getfile(lex);
          }
-         else {
-            /* New line and carry on */
-            ++lexf->cur_line;
-            lexf->cur_col = 0;
-            ++lexf->cur_c;
-         }
+         /* The newline that ends the comment is a token on its own */
       }
       else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
               !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index f80df8a..42eded6 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1133,10 +1133,13 @@ int parse_operand(buzzparser_t par) {
 int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
-      fetchtok();
+      /* Here, the end of the statement matters */
+      buzzlex_destroytok(&par->tok);
+      par->tok = buzzlex_nexttok(par->lex);
       if(par->tok->type == BUZZTOK_STATEND ||
          par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
+         if(par->tok->type == BUZZTOK_STATEND) fetchtok();
       }
       else {
          if(!parse_condition(par)) return PARSE_ERROR;
-- 
2.43.0


From 049ea6fc401ec090c6d9f365e62a4abee9f6778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:49 +0000
Subject: [PATCH 51/67] fix: syntax errors at the end of the file accessed the
 file stack out of bounds

---
 src/buzz/buzzlex.c    |  2 ++
 src/buzz/buzzparser.c | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 7b017ee..335068a 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -262,6 +262,8 @@ buzzlex_t buzzlex_new(const char* fname) {
                             lexf->fname);
 
 buzztok_t buzzlex_nexttok(buzzlex_t lex) {
+   /* Nothing left to read? */
+   if(buzzdarray_isempty(lex)) return eoftok;
    buzzlex_file_t lexf = buzzlex_getfile(lex);
    do {
       /* Look for a non-space character */
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 42eded6..9495836 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -358,6 +358,9 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 /****************************************/
 /****************************************/
 
+/* The file of the current token; the end-of-file token does not have one */
+#define parse_fname() (par->tok->fname ? par->tok->fname : par->scriptfn)
+
 #define fetchtok()                                                      \
    {                                                                    \
       do {                                                              \
@@ -378,7 +381,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              parse_fname(),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -453,7 +456,7 @@ int parse_script(buzzparser_t par) {
    if(par->tok->type != BUZZTOK_EOF) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unexpected %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              parse_fname(),
               par->tok->line,
               par->tok->col,
               buzztok_desc[par->tok->type]);
@@ -608,7 +611,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              parse_fname(),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -660,7 +663,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              parse_fname(),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -896,7 +899,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 parse_fname(),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -923,7 +926,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    parse_fname(),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -959,7 +962,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       parse_fname(),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1156,7 +1159,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    parse_fname(),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1192,7 +1195,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              parse_fname(),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1237,7 +1240,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           parse_fname(),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 3ba762b24bf425f535bffe5bf15cc67f28cf7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:08 +0000
Subject: [PATCH 52/67] fix: lexical errors did not fail the compilation and
 empty scripts had no code

---
 src/buzz/buzzparser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 9495836..1c468a7 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -445,13 +445,14 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
-   if(!parse_statlist(par)) return PARSE_ERROR;
+   if(par->tok->type != BUZZTOK_EOF && !parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure no lexical error happened */
+   if(par->tok->type == BUZZTOK_EOF && !buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Make sure the entire script was parsed */
    if(par->tok->type != BUZZTOK_EOF) {
       fprintf(stderr,
-- 
2.43.0


From df17fe5bc822d907091e99baf2a525a609baba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:26 +0000
Subject: [PATCH 53/67] fix: invalid numeric constants were accepted and
 changed value

---
 src/buzz/buzzparser.c | 59 ++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 1c468a7..f4d354c 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -423,6 +423,7 @@ int parse_bitshift(buzzparser_t par);
 int parse_bitwiseandor(buzzparser_t par);
 int parse_bitwisenot(buzzparser_t par);
 int parse_operand(buzzparser_t par);
+int parse_const(buzzparser_t par, const char* sign);
 
 int parse_command(buzzparser_t par);
 
@@ -916,13 +917,10 @@ int parse_expression(buzzparser_t par) {
          fetchtok();
          if(par->tok->type == BUZZTOK_ID) {
             chunk_append("\tpushs %u", string_add(par->strings, par->tok->value));
+            fetchtok();
          }
          else if(par->tok->type == BUZZTOK_CONST) {
-            if(strchr(par->tok->value, '.')) {
-               chunk_append("\tpushf %s", par->tok->value);
-            } else {
-               chunk_append("\tpushi %s", par->tok->value);
-            }
+            if(!parse_const(par, "")) return PARSE_ERROR;
          }
          else {
             fprintf(stderr,
@@ -933,7 +931,6 @@ int parse_expression(buzzparser_t par) {
                     buzztok_desc[par->tok->type]);
             return PARSE_ERROR;
          }
-         fetchtok();
          /* Consume the = */
          tokmatch(BUZZTOK_ASSIGN);
          fetchtok();
@@ -952,13 +949,10 @@ int parse_expression(buzzparser_t par) {
             fetchtok();
             if(par->tok->type == BUZZTOK_ID) {
                chunk_append("\tpushs %u", string_add(par->strings, par->tok->value));
+               fetchtok();
             }
             else if(par->tok->type == BUZZTOK_CONST) {
-               if(strchr(par->tok->value, '.')) {
-                  chunk_append("\tpushf %s", par->tok->value);
-               } else {
-                  chunk_append("\tpushi %s", par->tok->value);
-               }
+               if(!parse_const(par, "")) return PARSE_ERROR;
             }
             else {
                fprintf(stderr,
@@ -969,7 +963,6 @@ int parse_expression(buzzparser_t par) {
                        buzztok_desc[par->tok->type]);
                return PARSE_ERROR;
             }
-            fetchtok();
             /* Make sure an = is present */
             tokmatch(BUZZTOK_ASSIGN);
             fetchtok();
@@ -1071,6 +1064,26 @@ int parse_bitwisenot(buzzparser_t par) {
    return PARSE_OK;
 }
 
+int parse_const(buzzparser_t par, const char* sign) {
+   /* A constant with a dot is floating-point, otherwise it's integer */
+   const char* dot = strchr(par->tok->value, '.');
+   /* Make sure the constant is a number that can be represented */
+   long long max = *sign ? -(long long)INT32_MIN : INT32_MAX;
+   if(dot ? strchr(dot + 1, '.') != NULL : strtoll(par->tok->value, NULL, 10) > max) {
+      fprintf(stderr,
+              "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: invalid numeric constant %s%s\n",
+              parse_fname(),
+              par->tok->line,
+              par->tok->col,
+              sign,
+              par->tok->value);
+      return PARSE_ERROR;
+   }
+   chunk_append("\tpush%c %s%s", dot ? 'f' : 'i', sign, par->tok->value);
+   fetchtok();
+   return PARSE_OK;
+}
+
 int parse_operand(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_FUN) {
       chunk_append("\tpushl " LABELREF "%u", par->labels);
@@ -1083,16 +1096,7 @@ int parse_operand(buzzparser_t par) {
       return PARSE_OK;
    }
    else if(par->tok->type == BUZZTOK_CONST) {
-      if(strchr(par->tok->value, '.')) {
-         /* Floating-point constant */
-         chunk_append("\tpushf %s", par->tok->value);
-      }
-      else {
-         /* Integer constant */
-         chunk_append("\tpushi %s", par->tok->value);
-      }
-      fetchtok();
-      return PARSE_OK;
+      return parse_const(par, "");
    }
    else if(par->tok->type == BUZZTOK_STRING) {
       chunk_append("\tpushs %u", string_add(par->strings, par->tok->value));
@@ -1110,16 +1114,7 @@ int parse_operand(buzzparser_t par) {
       char op = par->tok->value[0];
       fetchtok();
       if(par->tok->type == BUZZTOK_CONST) {
-         if(strchr(par->tok->value, '.')) {
-            /* Floating-point constant */
-            chunk_append("\tpushf %c%s", op, par->tok->value);
-         }
-         else {
-            /* Integer constant */
-            chunk_append("\tpushi %c%s", op, par->tok->value);
-         }
-         fetchtok();
-         return PARSE_OK;
+         return parse_const(par, op == '-' ? "-" : "");
       }
       else {
          if(!parse_bitwisenot(par)) return PARSE_ERROR;
-- 
2.43.0


From ed2fe556986da9972cb932ab7518cfe1b467c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:44 +0000
Subject: [PATCH 54/67] fix: strings with newlines broke the assembly file

---
 src/buzz/buzzasm.c    | 35 +++++++++++++++++++++++++++--------
 src/buzz/buzzparser.c | 10 +++++++++-
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..7b745cb 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -189,11 +189,17 @@ int buzz_asm(const char* fname,
       /* Is the line a string? */
       if(*trimline == '\'') {
          ++trimline;
-         trimline[strlen(trimline)-1] = 0;
-         size_t l = strlen(trimline) + 1;
-         bcode_resize(l);
-         strcpy((char*)(*buf + *size), trimline);
-         *size += l;
+         bcode_resize(strlen(trimline) + 1);
+         /* Copy the string up to the end of the line; \n and \\ are escape sequences */
+         for(; *trimline != 0 && *trimline != '\n'; ++trimline) {
+            char c = *trimline;
+            if(c == '\\' && (trimline[1] == 'n' || trimline[1] == '\\')) {
+               ++trimline;
+               c = (*trimline == 'n') ? '\n' : '\\';
+            }
+            (*buf)[(*size)++] = c;
+         }
+         (*buf)[(*size)++] = 0;
          continue;
       }
       /* Trim trailing space */
@@ -361,6 +367,11 @@ int buzz_deasm(const uint8_t* buf,
     * Phase 1: fetch the strings
     */
    /* Fetch and print the string count */
+   if(size < sizeof(uint16_t)) {
+      fprintf(stderr, "ERROR: %s: not enough bytes in bytecode for the string count\n", fname);
+      fclose(fd);
+      return 2;
+   }
    uint16_t count;
    memcpy(&count, buf, sizeof(uint16_t));
    fprintf(fd, "!%u\n", count);
@@ -368,10 +379,18 @@ int buzz_deasm(const uint8_t* buf,
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
-      /* Print string */
-      fprintf(fd, "'%s\n", ((char*)buf + i));
+      /* Print string; a string takes one line, newlines must be escaped */
+      fputc('\'', fd);
+      while(i < size && *(buf + i) != 0) {
+         if(buf[i] == '\n')      fputs("\\n", fd);
+         else if(buf[i] == '\\') fputs("\\\\", fd);
+         else                    fputc(buf[i], fd);
+         ++i;
+      }
+      fputc('\n', fd);
+      /* Make sure the string is terminated */
+      if(i >= size) break;
       /* Advance to first character of next string */
-      while(*(buf + i) != 0) ++i;
       ++i;
    }
    if(c < count) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index f4d354c..c9433f4 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -73,7 +73,15 @@ uint32_t string_add(buzzdict_t strings, const char* str) {
 }
 
 void string_print(uint32_t pos, void* data, void* params) {
-   fprintf((FILE*)params, "'%s\n", (*(struct strarray_data_s**)data)->str);
+   FILE* f = (FILE*)params;
+   fputc('\'', f);
+   /* A string takes one line, newlines must be escaped */
+   for(const char* c = (*(struct strarray_data_s**)data)->str; *c; ++c) {
+      if(*c == '\n')      fputs("\\n", f);
+      else if(*c == '\\') fputs("\\\\", f);
+      else                fputc(*c, f);
+   }
+   fputc('\n', f);
 }
 
 /****************************************/
-- 
2.43.0


From 144564ea53f24af53dd1b715e975edd96e807448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:26 +0000
Subject: [PATCH 55/67] fix: the lexer did not signal that there are no more
 tokens

---
 src/buzz/buzzlex.c    |  2 +-
 src/buzz/buzzparser.c | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 335068a..3986af4 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -263,7 +263,7 @@ buzzlex_t buzzlex_new(const char* fname) {
 
 buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    /* Nothing left to read? */
-   if(buzzdarray_isempty(lex)) return eoftok;
+   if(buzzdarray_isempty(lex)) return NULL;
    buzzlex_file_t lexf = buzzlex_getfile(lex);
    do {
       /* Look for a non-space character */
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index c9433f4..58959a0 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -369,12 +369,17 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 /* The file of the current token; the end-of-file token does not have one */
 #define parse_fname() (par->tok->fname ? par->tok->fname : par->scriptfn)
 
+#define nexttok()                                                       \
+   if(par->tok->type != BUZZTOK_EOF) {                                  \
+      buzzlex_destroytok(&par->tok);                                    \
+      par->tok = buzzlex_nexttok(par->lex);                             \
+   }
+
 #define fetchtok()                                                      \
    {                                                                    \
       do {                                                              \
-         buzzlex_destroytok(&par->tok);                                 \
-         par->tok = buzzlex_nexttok(par->lex);                          \
-      } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
+         nexttok();                                                     \
+      } while(par->tok->type == BUZZTOK_STATEND);                       \
    }
 
 int match(buzzparser_t par,
@@ -1141,8 +1146,7 @@ int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
       /* Here, the end of the statement matters */
-      buzzlex_destroytok(&par->tok);
-      par->tok = buzzlex_nexttok(par->lex);
+      nexttok();
       if(par->tok->type == BUZZTOK_STATEND ||
          par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
-- 
2.43.0


From 5fb0d191d5a90147b26341b0bace2c2cc3919e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 56/67] fix: the assembler ignored the garbage after a numeric
 argument

---
 src/buzz/buzzasm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 7b745cb..6ed57b8 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -45,6 +45,10 @@
       int32_t pos = *size;                                              \
       buzzdict_set(labsubs, &pos, &label);                              \
    }                                                                    \
+   else if(*endptr != 0) {                                              \
+      fprintf(stderr, "ERROR: %s:%zu invalid argument \"%s\"\n", fname, lineno, argstr); \
+      return 2;                                                         \
+   }                                                                    \
    memcpy((*buf) + (*size), (uint8_t*)(&arg), sizeof(T));               \
    (*size) += sizeof(T);
 
-- 
2.43.0


From cab0841a537424496c6ba055781de8cdbd7f72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:38 +0000
Subject: [PATCH 57/67] fix: the last statement of a script had no source
 position in the debug information

---
 src/buzz/buzzlex.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 3986af4..d680a9e 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -243,6 +243,18 @@ buzzlex_t buzzlex_new(const char* fname) {
                   0,                             \
                   NULL)
 
+/* Closes the last file and returns a token for the end of it */
+static buzztok_t buzzlex_end(buzzlex_t lex) {
+   buzzlex_file_t lexf = buzzlex_getfile(lex);
+   buzztok_t tok = buzzlex_newtok(BUZZTOK_EOF,
+                                  NULL,
+                                  lexf->cur_line,
+                                  lexf->cur_col - 1,
+                                  lexf->fname);
+   buzzdarray_pop(lex);
+   return tok;
+}
+
 #define readval(CHARCOND)                                         \
    size_t start = lexf->cur_c - 1;                                \
    while(lexf->cur_c < lexf->buf_size &&                          \
@@ -275,11 +287,11 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          }
          /* End of stream? */
          if(lexf->cur_c >= lexf->buf_size) {
+            /* No file to go back to? Done parsing */
+            if(buzzdarray_size(lex) == 1)
+               return buzzlex_end(lex);
             /* Done with current file, go back to previous */
             buzzdarray_pop(lex);
-            if(buzzdarray_isempty(lex))
-               /* No file to go back to, done parsing */
-               return eoftok;
             lexf = buzzlex_getfile(lex);
          }
          else
@@ -296,11 +308,11 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                lexf->buf[lexf->cur_c] != '\n');
          /* End of stream? */
          if(lexf->cur_c >= lexf->buf_size) {
+            /* No file to go back to? Done parsing */
+            if(buzzdarray_size(lex) == 1)
+               return buzzlex_end(lex);
             /* Done with current file, go back to previous */
             buzzdarray_pop(lex);
-            if(buzzdarray_isempty(lex))
-               /* No file to go back to, done parsing */
-               return eoftok;
             lexf = buzzlex_getfile(lex);
          }
          /* The newline that ends the comment is a token on its own */
-- 
2.43.0


From 0fb8690f8d9adab68253a7a1f6c67c43f00747c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:35 +0000
Subject: [PATCH 58/67] fix: long file names overflowed the buffer of the
 include path

---
 src/buzz/buzzlex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index d680a9e..e897930 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -44,12 +44,10 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
             fpath[PATH_MAX-1] = '\0';
             /* Add / at the end if missing */
             if(fpath[strlen(fpath)-1] != '/') {
-               strncat(fpath, "/", PATH_MAX-1);
-               fpath[PATH_MAX-1] = '\0';
+               strncat(fpath, "/", PATH_MAX - 1 - strlen(fpath));
             }
             /* fpath += fname */
-            strncat(fpath, fname, PATH_MAX-1);
-            fpath[PATH_MAX-1] = '\0';
+            strncat(fpath, fname, PATH_MAX - 1 - strlen(fpath));
             /* Try to open the file */
             fd = fopen(fpath, "rb");
          }
-- 
2.43.0


From 1985b12da827861e169055adf48ad869099f6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:56 +0000
Subject: [PATCH 59/67] fix: the symbol of a function was used after free when
 the script declared a variable with the same name

---
 src/buzz/buzzparser.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 58959a0..a3ff926 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -237,8 +237,10 @@ struct chunk_s {
    uint32_t label;
    /* The code for this chunk */
    char* code;
-   /* not-NULL if a symbol must be registered (function), NULL if not (lambda) */
-   const struct sym_s* sym;
+   /* 1 if a symbol must be registered (function), 0 if not (lambda) */
+   int hassym;
+   /* The symbol to register; a copy, as the symbol table might change it */
+   struct sym_s sym;
    /* The code size */
    size_t csize;
    /* The buffer capacity */
@@ -252,7 +254,8 @@ chunk_t chunk_new(uint32_t label, const struct sym_s* sym) {
    c->csize = 0;
    c->ccap = 10;
    c->code = (char*)malloc(c->ccap);
-   c->sym = sym;
+   c->hassym = (sym != NULL);
+   if(sym) c->sym = *sym;
    return c;
 }
 
@@ -307,11 +310,11 @@ void chunk_register(uint32_t pos, void* data, void* params) {
    chunk_t c = *(chunk_t*)data;
    FILE* f = (FILE*)params;
    /* Print registration code */
-   if(c->sym) {
-      if(c->sym->global) fprintf(f, "\tpushs %" PRId64 "\n", c->sym->pos);
+   if(c->hassym) {
+      if(c->sym.global) fprintf(f, "\tpushs %" PRId64 "\n", c->sym.pos);
       fprintf(f, "\tpushcn " LABELREF "%u\n", c->label);
-      if(c->sym->global) fprintf(f, "\tgstore\n");
-      else               fprintf(f, "\tlstore %" PRId64 "\n", c->sym->pos);
+      if(c->sym.global) fprintf(f, "\tgstore\n");
+      else              fprintf(f, "\tlstore %" PRId64 "\n", c->sym.pos);
    }
 }
 
-- 
2.43.0


From 3948934f8934f268b5e9fff3cacf93183e5bc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:43 +0000
Subject: [PATCH 60/67] fix: debug information with long file names overflowed
 a buffer, truncated files were accepted

---
 src/buzz/buzzdebug.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 33fbdbb..020fd6a 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -120,23 +120,29 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    /* Keep reading until you reach the end of the data or an error */
    uint32_t offset;
    uint64_t line, col;
-   uint16_t srcfnlen, srcfnlenmax = 512;
+   uint16_t srcfnlen;
+   uint32_t srcfnlenmax = 512;
+   int truncated = 0;
    char* srcfname = (char*)malloc(srcfnlenmax);
    /* char fepmark; */
-   while(!feof(fd) && !ferror(fd)) {
-      /* Read fields */
-      if(fread(&offset,   sizeof(offset),   1, fd) == 1 &&
+   while(!truncated && !feof(fd) && !ferror(fd)) {
+      /* Read fields; the data can end only before the offset */
+      size_t rd = fread(&offset, 1, sizeof(offset), fd);
+      if(rd == 0) break;
+      truncated = 1;
+      if(rd == sizeof(offset) &&
          fread(&line,     sizeof(line),     1, fd) == 1 &&
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
-            srcfnlenmax = srcfnlen + 1;
+         if(srcfnlen >= srcfnlenmax) {
+            srcfnlenmax = (uint32_t)srcfnlen + 1;
             srcfname = realloc(srcfname, srcfnlenmax);
          }
          if(fread(srcfname, 1, srcfnlen, fd) == srcfnlen) {
             srcfname[srcfnlen] = 0;
             buzzdebug_info_set(dbg, offset, line, col, srcfname);
+            truncated = 0;
          }
          /* Read fields */
          /* if(fread(&fepmark, sizeof(fepmark), 1, fd) == 1 && */
@@ -144,7 +150,7 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          /* } */
       }
    }
-   int err = ferror(fd);
+   int err = ferror(fd) || truncated;
    free(srcfname);
    fclose(fd);
    return err ? 0 : 1;
-- 
2.43.0


From 8a1abc754e9de0d7efe04cbedd2ba03f0eab0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:44 +0000
Subject: [PATCH 61/67] fix: the debugger could never continue after a
 breakpoint

---
 src/buzz/buzzdebug.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 020fd6a..044b65c 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -289,15 +289,17 @@ buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
-      if(vm->state == BUZZVM_STATE_STOPPED)
+      if(vm->state == BUZZVM_STATE_STOPPED) {
+         /* Resume execution, going past the current breakpoint */
          vm->state = BUZZVM_STATE_READY;
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
+      }
       else return vm->state;
    }
    /* Go on until the end, an error, or a breakpoint */
-   while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
-         buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
-      vm->state = BUZZVM_STATE_STOPPED;
+   while(!buzzdebug_breakpoint_exists(dbg, vm->pc))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
+   vm->state = BUZZVM_STATE_STOPPED;
    return vm->state;
 }
 
-- 
2.43.0


From 05494a80bc064499ac750ebd1cd4cd60226847af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 62/67] fix: calling a C closure from the debugger executed one
 instruction of the caller too many

---
 src/buzz/buzzdebug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 044b65c..d744478 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -326,14 +326,13 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks)) {
       if(buzzdebug_breakpoint_exists(dbg, vm->pc))
          vm->state = BUZZVM_STATE_STOPPED;
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
-- 
2.43.0


From b6b21437826d164034f713e6a860c4fcae24fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:46 +0000
Subject: [PATCH 63/67] fix: buzzdebug_tofile() returned 0 for success,
 contrary to its documentation

---
 src/buzz/buzzdebug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index d744478..4ff8494 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -194,7 +194,7 @@ int buzzdebug_tofile(const char* fname,
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
    fclose(fd);
-   return i.ok ? 0 : 1;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From 57df74f114fc7757dc724cdc5574c6b2c9cc056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:18 +0000
Subject: [PATCH 64/67] fix: string.toint() returned garbage for numbers that
 do not fit

---
 src/buzz/buzzstring.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 6a9bddb..0d34a0c 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -179,10 +179,12 @@ int buzzstring_toint(buzzvm_t vm) {
    /* Convert the string to int */
    char* endptr;
    errno = 0;
-   int32_t i = strtol(s, &endptr, 10);
+   long i = strtol(s, &endptr, 10);
    /* Was the conversion successful? */
-   if((errno != 0 && i == 0) || /* An error occurred */
-      (endptr == s)) {          /* No digit found */
+   if(errno != 0 ||      /* An error occurred */
+      endptr == s ||     /* No digit found */
+      i < INT32_MIN ||   /* The number does not fit */
+      i > INT32_MAX) {
       /* Yes, an error occurred */
       buzzvm_pushnil(vm);
    }
-- 
2.43.0


From 2833711e41ed8fc1e9d0da42fd7c7f7a8110e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:12 +0000
Subject: [PATCH 65/67] fix: table.shuffle() could swap with the position past
 the last element

---
 src/include/table.bzz | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/table.bzz b/src/include/table.bzz
index ab5012d..0dfbbca 100644
--- a/src/include/table.bzz
+++ b/src/include/table.bzz
@@ -141,6 +141,8 @@ table.shuffle = function(t) {
   var sz = size(t)
   while(i < sz-1) {
     var j = math.rng.uniform(i, sz)
+    # The upper bound is included in the range
+    if(j >= sz) j = sz - 1
     table.swap(t, i, j)
     i = i + 1
   }
-- 
2.43.0


From 7007c5d8c469360d19e3bba469f28c7c98e38546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:50 +0000
Subject: [PATCH 66/67] fix: io.fforeach() kept reading from a file that its
 function had closed

---
 src/buzz/buzzio.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 372d3d2..b87b3f6 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -182,10 +182,17 @@ int buzzio_fforeach(buzzvm_t vm) {
          free(line);
          return vmstate;
       }
-      /* Next line */
-      len = getline(&line, &cap, f);
       /* Remove the value (return value) left by closure_call */
       buzzvm_pop(vm);
+      /* Stop if the closure has closed the file */
+      buzzvm_lload(vm, 1);
+      buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+      buzzvm_tget(vm);
+      buzzobj_t h = buzzvm_stack_at(vm, 1);
+      buzzvm_pop(vm);
+      if(h->o.type != BUZZTYPE_USERDATA || h->u.value != f) break;
+      /* Next line */
+      len = getline(&line, &cap, f);
    }
    /* Register error information */
    buzzio_update_error(vm);
-- 
2.43.0


From ee029a716f3f4a0fe9aa1ba319ab2274746ff222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:14 +0000
Subject: [PATCH 67/67] fix: arrows.run() only ran the last function of a
 sequence

---
 src/include/arrows.bzz | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/arrows.bzz b/src/include/arrows.bzz
index d779f4f..8e66999 100644
--- a/src/include/arrows.bzz
+++ b/src/include/arrows.bzz
@@ -27,6 +27,9 @@ arrows.wrap = function(f) {
     .f = f,
     .next = function(f) {
       self.n = arrows.wrap(f)
+      # Remember the beginning of the sequence
+      if(self.b) self.n.b = self.b
+      else self.n.b = self
       return self.n
     }
   }
@@ -45,6 +48,8 @@ arrows.begin = arrows.wrap
 #
 arrows.run = function(a) {
   var cur = a
+  # Start from the beginning of the sequence
+  if(a.b) cur = a.b
   cur.f()
   cur = cur.n
   while(cur) {
-- 
2.43.0

