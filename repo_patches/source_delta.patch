From 4735bf792dd688b407122a272fc992f3d3fb2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 01/49] fix: rebalance red-black trees on deletion

The delete fixup stopped at the nil sentinel instead of at the root, so
removing a black leaf never rebalanced the tree, and the mirrored branch
tested the wrong node's color.
---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From a6fd22311caf5940c2f5fe322e38606c6a976a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 02/49] fix: keep swapped red-black trees on their own
 sentinels

The sentinel is embedded in each tree, so swapping the structures left the
contents of each tree pointing at the sentinel of the other one: iterating an
empty tree after a swap and using a tree after releasing its partner read
foreign or released memory.
---
 src/rbtree/rbtree_swap.c | 67 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..8b170f6 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,11 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static void rbtree_adopt_nil(rbtree* tree, const rbtree_node* old_nil);
+static void rbtree_adopt_nil_subtree(
+    rbtree* tree, rbtree_node* n, const rbtree_node* old_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -46,7 +51,69 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each tree embeds its sentinel, so the swapped contents must be updated to
+     * refer to the sentinel of the tree that now owns them. */
+    rbtree_adopt_nil(left, &right->nil_impl);
+    rbtree_adopt_nil(right, &left->nil_impl);
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Point the contents of a tree at this tree's own sentinel.
+ *
+ * \param tree          The tree to update.
+ * \param old_nil       The sentinel to which the contents currently refer.
+ */
+static void rbtree_adopt_nil(rbtree* tree, const rbtree_node* old_nil)
+{
+    /* reset the sentinel. */
+    tree->nil = &tree->nil_impl;
+    tree->nil->parent = tree->nil;
+    tree->nil->left = tree->nil;
+    tree->nil->right = tree->nil;
+    tree->nil->value = rbtree_node_resource_handle(tree->nil);
+    tree->nil->color = RBTREE_BLACK;
+
+    /* update the contents. */
+    if (tree->root == old_nil)
+    {
+        tree->root = tree->nil;
+    }
+    else
+    {
+        tree->root->parent = tree->nil;
+        rbtree_adopt_nil_subtree(tree, tree->root, old_nil);
+    }
+}
+
+/**
+ * \brief Point the leaves of a subtree at this tree's own sentinel.
+ *
+ * \param tree          The tree to update.
+ * \param n             The root of the subtree to update.
+ * \param old_nil       The sentinel to which the contents currently refer.
+ */
+static void rbtree_adopt_nil_subtree(
+    rbtree* tree, rbtree_node* n, const rbtree_node* old_nil)
+{
+    if (n->left == old_nil)
+    {
+        n->left = tree->nil;
+    }
+    else
+    {
+        rbtree_adopt_nil_subtree(tree, n->left, old_nil);
+    }
+
+    if (n->right == old_nil)
+    {
+        n->right = tree->nil;
+    }
+    else
+    {
+        rbtree_adopt_nil_subtree(tree, n->right, old_nil);
+    }
+}
-- 
2.43.0


From 426495ff9c8e6b95baabb9c5989f60efcbfbd929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 03/49] fix: reclaim container nodes whose value fails to
 release

A list, slist or rbtree node leaked its own storage when releasing the
resource it held failed; the node was already detached and unreachable.
---
 src/list/list_node_release.c    | 20 +++++++++++++-------
 src/rbtree/rbtree_node_create.c | 20 +++++++++++++-------
 src/slist/slist_node_release.c  | 20 +++++++++++++-------
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..a147820 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -31,6 +31,7 @@ status
 RCPR_SYM(list_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status child_release_retval = STATUS_SUCCESS;
     list_node* n = (list_node*)r;
 
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
@@ -46,15 +47,20 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_release_retval = resource_release(c);
     }
 
-    /* clean up. */
+    /* clean up the node, even if the child resource could not be released. */
     allocator* a = n->alloc;
+    status reclaim_retval = allocator_reclaim(a, n);
 
-    /* if reclaiming this list_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* decode the response code. */
+    if (STATUS_SUCCESS != child_release_retval)
+    {
+        return child_release_retval;
+    }
+    else
+    {
+        return reclaim_retval;
+    }
 }
diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..1e98346 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -111,6 +111,7 @@ RCPR_SYM(rbtree_node_create)(
  */
 static status rbtree_node_release(resource* r)
 {
+    status child_release_retval = STATUS_SUCCESS;
     rbtree_node* n = (rbtree_node*)r;
 
     /* parameter sanity checks. */
@@ -126,15 +127,20 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_release_retval = resource_release(v);
     }
 
-    /* clean up. */
+    /* clean up the node, even if the value could not be released. */
     allocator* a = n->alloc;
+    status reclaim_retval = allocator_reclaim(a, n);
 
-    /* if reclaiming this rbtree_node succeeds, then so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* decode the response code. */
+    if (STATUS_SUCCESS != child_release_retval)
+    {
+        return child_release_retval;
+    }
+    else
+    {
+        return reclaim_retval;
+    }
 }
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..fb83ae0 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -32,6 +32,7 @@ status
 RCPR_SYM(slist_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status child_release_retval = STATUS_SUCCESS;
     slist_node* n = (slist_node*)r;
 
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
@@ -47,15 +48,20 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_release_retval = resource_release(c);
     }
 
-    /* clean up. */
+    /* clean up the node, even if the child resource could not be released. */
     allocator* a = n->alloc;
+    status reclaim_retval = allocator_reclaim(a, n);
 
-    /* if reclaiming this slist_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* decode the response code. */
+    if (STATUS_SUCCESS != child_release_retval)
+    {
+        return child_release_retval;
+    }
+    else
+    {
+        return reclaim_retval;
+    }
 }
-- 
2.43.0


From 4fc71d22e62075e4894d61436e407772edb24141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 04/49] fix: keep list and slist consistent when clearing fails

When releasing a node fails, the clear stops and the remaining list is
still in use, but its tail or the back link of its head was dangling.
---
 src/list/list_clear.c   | 10 ++++++++++
 src/slist/slist_clear.c |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..da0c3e1 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -43,6 +43,16 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* keep the list consistent, in case the cleanup below fails. */
+        if (NULL != l->head)
+        {
+            l->head->prev = NULL;
+        }
+        else
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
         t->prev = NULL;
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..4934387 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -42,6 +42,12 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* keep the list consistent, in case the cleanup below fails. */
+        if (NULL == l->head)
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
 
-- 
2.43.0


From 54fea80471d3814096f1e4d689040901021f3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 05/49] fix: reparent list and slist nodes when swapping

Each node names its list; after a swap the nodes still named the other
list, so inserting, appending or popping through a node updated the head,
tail and count of the wrong list.
---
 src/list/list_swap.c   | 10 ++++++++++
 src/slist/slist_swap.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..bf7b3e7 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* the swapped nodes now belong to the other list. */
+    for (list_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (list_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..eb3efee 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* the swapped nodes now belong to the other slist. */
+    for (slist_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (slist_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
-- 
2.43.0


From 9cf93dfab21feb952a55e2ed22f8df533bf84b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 06/49] fix: keep a queue that could not be fully released

When releasing one queued resource failed, the queue structure was reclaimed
anyway, so the caller lost every resource still queued.
---
 src/queue/queue_create.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 0968be9..ef94854 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -123,25 +123,20 @@ RCPR_SYM(queue_create)(
  */
 static status queue_release(resource* r)
 {
-    status list_retval, retval;
+    status retval;
     queue* q = (queue*)r;
 
     /* cache the allocator. */
     allocator* a = q->list->alloc;
 
-    /* release the list resource. */
-    list_retval = resource_release(slist_resource_handle(q->list));
-
-    /* reclaim this instance. */
-    retval = allocator_reclaim(a, q);
-
-    /* if we succeed, then return the status of releasing the list. */
-    if (STATUS_SUCCESS == retval)
-    {
-        return list_retval;
-    }
-    else
+    /* release the list resource. If this fails, then this queue and what it
+     * still holds remain owned by the caller. */
+    retval = resource_release(slist_resource_handle(q->list));
+    if (STATUS_SUCCESS != retval)
     {
         return retval;
     }
+
+    /* reclaim this instance. */
+    return allocator_reclaim(a, q);
 }
-- 
2.43.0


From 05c6965d90038c24f2833aea1986d87bb913f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 07/49] fix: reject a yield event just past a discipline's
 callbacks

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From ef57d6e5f8778deb27216014f9de4d555179e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 08/49] fix: reclaim the disciplined scheduler context on
 release

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..01d7f97 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status ctx_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context. */
+    ctx_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -579,7 +583,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     }
     else
     {
-        return STATUS_SUCCESS;
+        return ctx_retval;
     }
 }
 
-- 
2.43.0


From dc9b37ac40dd43de3330fe425ba47dd1d3eb9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 09/49] fix: keep discipline ownership with the caller when
 adding it fails

---
 .../common/fiber_scheduler_discipline_add.c   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..ab79e5b 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -87,16 +87,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
  
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
-
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
     if (NULL == ctx->callback_vector)
@@ -144,6 +134,17 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree. This is done after everything
+     * else that can fail, as the tree takes ownership of the discipline. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From b9e26316be5a3a0ab4091edb0cb2535419b27272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 10/49] fix: report and survive allocation failure in
 disciplined scheduler creation

---
 src/fiber/common/fiber_scheduler_create.c            | 12 +++++++++++-
 .../common/fiber_scheduler_create_with_disciplines.c |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create.c b/src/fiber/common/fiber_scheduler_create.c
index b597700..e942d3e 100644
--- a/src/fiber/common/fiber_scheduler_create.c
+++ b/src/fiber/common/fiber_scheduler_create.c
@@ -124,7 +124,7 @@ RCPR_SYM(fiber_scheduler_create)(
             NULL, &resume_fib, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
-        goto cleanup_fiber_scheduler;
+        goto cleanup_main_fiber;
     }
 
     /* verify that our resume point was correct after adding main. */
@@ -148,6 +148,16 @@ RCPR_SYM(fiber_scheduler_create)(
     /* success. */
     goto done;
 
+cleanup_main_fiber:
+    /* the callback did not accept the main fiber, so it must not be called to
+     * release it. */
+    release_retval = resource_release(fiber_resource_handle(tmp->main_fiber));
+    tmp->main_fiber = NULL;
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
 cleanup_fiber_scheduler:
     release_retval = resource_release(fiber_scheduler_resource_handle(tmp));
     if (STATUS_SUCCESS != release_retval)
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 01d7f97..728ba03 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 95fce8399ba3272e4edf2b102299a2e1939e5231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 11/49] fix: leave the run queue and ownership intact when
 adding a fiber fails

---
 .../fiber_scheduler_create_with_disciplines.c | 71 ++++++++++++-------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 728ba03..6328c08 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -822,7 +822,8 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, undo_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -844,25 +845,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -870,9 +852,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto remove_fiber;
     }
 
     /* if the management fiber exists, */
@@ -887,15 +867,54 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto dequeue_yield_fiber;
         }
+    }
 
-        /* clear the management fiber until it yields again. */
-        ctx->management_fiber = NULL;
+    /* append this fiber to the run queue. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto dequeue_management_fiber;
     }
 
+    /* clear the management fiber until it yields again. */
+    ctx->management_fiber = NULL;
+
     /* success. */
     return STATUS_SUCCESS;
+
+dequeue_management_fiber:
+    if (NULL != ctx->management_fiber)
+    {
+        undo_retval = queue_pop(ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != undo_retval)
+        {
+            retval = undo_retval;
+        }
+    }
+
+dequeue_yield_fiber:
+    undo_retval = queue_pop(ctx->run_queue, &dummy);
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        retval = undo_retval;
+    }
+
+remove_fiber:
+    /* the caller keeps ownership of the fiber on failure. */
+    undo_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        retval = undo_retval;
+    }
+
+    return retval;
 }
 
 /**
-- 
2.43.0


From 5b0d4368c00363045815130d465837372316a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 12/49] fix: do not queue the requester when a
 quiesce/terminate request fails

---
 .../common/fiber_scheduler_create_with_disciplines.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 6328c08..2df5c5f 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -1108,7 +1108,11 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the calling fiber continues with this error, so it must not be
+             * resumed a second time. */
+            resource* dummy = NULL;
+            status pop_retval = queue_pop(ctx->run_queue, &dummy);
+            return (STATUS_SUCCESS != pop_retval) ? pop_retval : retval;
         }
     }
 
@@ -1179,7 +1183,11 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the calling fiber continues with this error, so it must not be
+             * resumed a second time. */
+            resource* dummy = NULL;
+            status pop_retval = queue_pop(ctx->run_queue, &dummy);
+            return (STATUS_SUCCESS != pop_retval) ? pop_retval : retval;
         }
     }
 
-- 
2.43.0


From dde79b73de07f3e1980eaefaa894f97bdc2a74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 13/49] fix: release an idle fiber that was added to the
 scheduler only once

---
 .../fiber_scheduler_create_with_disciplines.c     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 2df5c5f..38fa8ff 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -504,6 +504,21 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     /* cache the allocator. */
     allocator* alloc = ctx->alloc;
 
+    /* an idle fiber which was added to this scheduler is released with the
+     * other fibers below. */
+    if (NULL != ctx->idle_fiber)
+    {
+        resource* idle_fiber_resource = NULL;
+        if (
+            STATUS_SUCCESS
+                == rbtree_find(
+                        &idle_fiber_resource, ctx->fibers_by_pointer,
+                        ctx->idle_fiber))
+        {
+            ctx->idle_fiber = NULL;
+        }
+    }
+
     /* release the fibers by pointer tree, releasing all fibers still associated
      * with it. */
     fibers_by_pointer_retval =
-- 
2.43.0


From 24ddc552d00a956ce078e051836bba4bb7fd3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 14/49] fix: exit with a failure code when a fiber entry
 returns

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From 5e8b9b427016a840972697ae64e87d03fd4fb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 15/49] fix: report failure to create a mailbox or conditional

---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From a9129b540f14e30a984a0deff8d56846c2d901c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 16/49] fix: keep message ownership consistent when scheduling
 runs out of memory

---
 ...cipline_message_receive_callback_handler.c | 27 ++++++---
 ...discipline_message_send_callback_handler.c | 59 ++++++++-----------
 2 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..530b516 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -78,33 +79,41 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* resume the fiber. This is done before the message is popped, so that
+         * the message is not lost if this fails. */
+        resource* msgresource = NULL;
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
-        resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
         if (STATUS_SUCCESS != retval)
         {
             /* couldn't pop a message off of the queue. */
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
         else
         {
             /* encode the popped message in the resume arguments. */
-            resume_event =
+            yield_fib->restore_reason_code =
                 FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            yield_fib->restore_param = msgresource;
         }
 
-        /* resume the thread. */
-        goto done;
+        return STATUS_SUCCESS;
     }
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..5ba45e3 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -68,14 +69,8 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
-    /* message sent, so tell the original fiber to restart. */
+    /* tell the original fiber to restart. This is done before the message
+     * changes hands, so that the sender still owns it if this fails. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
@@ -86,41 +81,37 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
         return retval;
     }
 
-    /* if there is a blocked fiber on this mailbox, set it as the next fiber to
-     * run. */
+    /* if there is a blocked fiber on this mailbox, then the mail queue is
+     * empty; hand it the message and set it as the next fiber to run. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
-        if (STATUS_SUCCESS != retval)
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
+        if (STATUS_SUCCESS == retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            mbox->blocked_fiber = NULL;
         }
-
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
     }
-    /* otherwise, leave the message on the queue. */
+    /* otherwise, append the message to the end of the mail queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
+    }
+
+    /* if the message could not be sent, let the sender know. */
+    if (STATUS_SUCCESS != retval)
+    {
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
+    return STATUS_SUCCESS;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From f4ea2f4a2ca0b942e1e5954e1d10f45db55ecf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 17/49] fix: forget a waiting fiber that was resumed by
 something else

---
 src/condition/conditional_wait.c              | 64 +++++++++++++++++++
 ...fiber_scheduler_receive_management_event.c | 10 ++-
 src/message/message_receive.c                 | 44 +++++++++++++
 3 files changed, 117 insertions(+), 1 deletion(-)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 5bbbff3..ee9dc13 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -14,8 +14,16 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
+RCPR_IMPORT_condition_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void cancel_wait(
+    fiber_scheduler_discipline* condisc, conditional handle);
+
 /**
  * \brief Wait on a \ref conditional.
  *
@@ -49,6 +57,7 @@ RCPR_SYM(conditional_wait)(
             (void*)handle, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        cancel_wait(condisc, handle);
         return retval;
     }
 
@@ -67,7 +76,62 @@ RCPR_SYM(conditional_wait)(
     else
     {
         /* TODO - add support for out-of-band events. */
+        cancel_wait(condisc, handle);
 
         return ERROR_CONDITION_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief Stop waiting on a conditional, if the current fiber is still waiting.
+ *
+ * This is the case when the fiber was resumed by something other than the
+ * condition discipline. A later notification must not resume this fiber.
+ *
+ * \param condisc       The condition discipline.
+ * \param handle        The conditional handle on which this fiber was waiting.
+ */
+static void cancel_wait(
+    fiber_scheduler_discipline* condisc, conditional handle)
+{
+    condition_barrier* cond;
+    fiber* current = NULL;
+    resource* child = NULL;
+    slist_node* prev = NULL;
+    slist_node* node = NULL;
+    condition_discipline_context* ctx =
+        (condition_discipline_context*)
+            fiber_scheduler_discipline_context_get(condisc);
+
+    if (
+        STATUS_SUCCESS
+            != disciplined_fiber_scheduler_current_fiber_get(
+                    &current, ctx->sched)
+        || STATUS_SUCCESS
+            != rbtree_find(
+                    (resource**)&cond, ctx->condition_barriers, &handle)
+        || STATUS_SUCCESS != slist_head(&node, cond->wait_list))
+    {
+        return;
+    }
+
+    /* remove this fiber from the wait list. */
+    while (NULL != node && STATUS_SUCCESS == slist_node_child(&child, node))
+    {
+        if (fiber_resource_handle(current) == child)
+        {
+            status retval =
+                (NULL == prev)
+                    ? slist_pop(cond->wait_list, &child)
+                    : slist_node_next_pop(prev, &child);
+            (void)retval;
+            return;
+        }
+
+        prev = node;
+        if (STATUS_SUCCESS != slist_node_next(&node, node))
+        {
+            return;
+        }
+    }
+}
diff --git a/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c b/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
index 01b26ae..ce4c430 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
@@ -58,9 +58,17 @@ RCPR_SYM(disciplined_fiber_scheduler_receive_management_event)(
     ctx = (fiber_scheduler_disciplined_context*)sched->context;
 
     /* Yield with the management discipline yield event to receive an event. */
-    return
+    status retval =
         fiber_discipline_yield(
             ctx->management_discipline,
             FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_RECEIVE_EVENT,
             NULL, resume_id, resume_event, resume_param);
+
+    /* this fiber no longer waits, even if something else resumed it. */
+    if (sched->current_fiber == ctx->management_fiber)
+    {
+        ctx->management_fiber = NULL;
+    }
+
+    return retval;
 }
diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index efd7b83..b97edc7 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -14,8 +14,15 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
+RCPR_IMPORT_message_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void cancel_receive(
+    fiber_scheduler_discipline* msgdisc, mailbox_address recvaddr);
+
 /**
  * \brief Receive a \ref message from the mailbox.
  *
@@ -58,6 +65,7 @@ RCPR_SYM(message_receive)(
             (void*)recvaddr, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        cancel_receive(msgdisc, recvaddr);
         return retval;
     }
 
@@ -81,7 +89,43 @@ RCPR_SYM(message_receive)(
     else
     {
         /* TODO - add support for out-of-band events. */
+        cancel_receive(msgdisc, recvaddr);
 
         return ERROR_MESSAGE_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief Stop waiting for a message, if the current fiber is still waiting.
+ *
+ * This is the case when the fiber was resumed by something other than the
+ * messaging discipline. A message sent later must not resume this fiber.
+ *
+ * \param msgdisc       The messaging discipline.
+ * \param recvaddr      The mailbox address from which this fiber was waiting.
+ */
+static void cancel_receive(
+    fiber_scheduler_discipline* msgdisc, mailbox_address recvaddr)
+{
+    mailbox* mbox;
+    fiber* current = NULL;
+    message_discipline_context* ctx =
+        (message_discipline_context*)
+            fiber_scheduler_discipline_context_get(msgdisc);
+
+    if (
+        STATUS_SUCCESS
+            != disciplined_fiber_scheduler_current_fiber_get(
+                    &current, ctx->sched))
+    {
+        return;
+    }
+
+    if (
+        STATUS_SUCCESS
+            == rbtree_find((resource**)&mbox, ctx->mailboxes, &recvaddr)
+        && current == mbox->blocked_fiber)
+    {
+        mbox->blocked_fiber = NULL;
+    }
+}
-- 
2.43.0


From d117a932f4ee7b42aac1b981af92b2c4965407b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 18/49] fix: keep a fiber waiting when notifying it runs out of
 memory

---
 ...n_discipline_notify_all_callback_handler.c | 24 ++++++++++++++-----
 ...n_discipline_notify_one_callback_handler.c | 24 ++++++++++++++-----
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
index b442ae1..1592d1e 100644
--- a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
@@ -63,13 +63,18 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
     /* for every waiting fiber... */
     while (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        /* get the first waiting fiber. */
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        slist_node* node;
+        retval = slist_head(&node, cond->wait_list);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
+        }
+        retval = slist_node_child((resource**)&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
 
         /* resume the waiting fiber. */
@@ -80,8 +85,15 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            /* this and any remaining fibers are still waiting. */
+            goto resume_fail;
+        }
+
+        /* this fiber is no longer waiting. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
diff --git a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
index fcc16c2..55cf90c 100644
--- a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
@@ -63,13 +63,18 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
     /* are there waiting fibers? */
     if (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        /* get the first waiting fiber. */
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        slist_node* node;
+        retval = slist_head(&node, cond->wait_list);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
+        }
+        retval = slist_node_child((resource**)&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
 
         /* resume the waiting fiber. */
@@ -80,8 +85,15 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            /* this fiber is still waiting. */
+            goto resume_fail;
+        }
+
+        /* this fiber is no longer waiting. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
-- 
2.43.0


From 834ad61c885fcf253dc37b4116fd9aa7c258105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 19/49] fix: do not take another discipline's event for a
 message or a notification

---
 src/condition/conditional_wait.c | 9 +++++++++
 src/message/message_receive.c    | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index ee9dc13..a773e9c 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -61,6 +61,15 @@ RCPR_SYM(conditional_wait)(
         return retval;
     }
 
+    /* an event from another discipline does not complete this wait. */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            sizeof(rcpr_uuid)))
+    {
+        cancel_wait(condisc, handle);
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is WAIT_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
     {
diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index b97edc7..ab3822e 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -69,6 +69,15 @@ RCPR_SYM(message_receive)(
         return retval;
     }
 
+    /* an event from another discipline does not complete this receive. */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            sizeof(rcpr_uuid)))
+    {
+        cancel_receive(msgdisc, recvaddr);
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is MESSAGE_RECEIVE_FAILURE, return the error. */
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
-- 
2.43.0


From 33e924c8ae0cf7d16505278ef42e5b4a973152a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 20/49] fix: leave no trace of a mailbox or conditional request
 that failed

---
 ...dition_discipline_close_callback_handler.c | 36 +++++++++----------
 ...ition_discipline_create_callback_handler.c | 22 ++++++++----
 ...iscipline_mailbox_close_callback_handler.c | 36 +++++++++----------
 ...scipline_mailbox_create_callback_handler.c | 22 ++++++++----
 4 files changed, 64 insertions(+), 52 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_close_callback_handler.c b/src/condition/fiber/condition_discipline_close_callback_handler.c
index 1c4fdd4..5b92ff6 100644
--- a/src/condition/fiber/condition_discipline_close_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_close_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../../fiber/common/fiber_internal.h"
 #include "../condition_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -34,9 +35,6 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     void* yield_param)
 {
     status retval;
-    int resume_event;
-    void* resume_param;
-
     /* ignore yield event. */
     (void)yield_event;
 
@@ -48,27 +46,25 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_condition_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(cond > 0);
 
+    /* schedule the caller first, so that failing to do so changes nothing. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS,
+            (void*)((ptrdiff_t)STATUS_SUCCESS));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* Attempt to delete the condition barrier. */
     retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
     if (STATUS_SUCCESS != retval)
     {
-        goto resume_fail;
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
-    /* set the resume parameters on success. */
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)STATUS_SUCCESS);
-
-    /* success. */
-    goto done;
-
-resume_fail:
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE;
-    resume_param = (void*)((ptrdiff_t)retval);
-
-done:
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
-            resume_event, resume_param);
+    return STATUS_SUCCESS;
 }
diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index 27b04e8..8955f48 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -70,12 +70,23 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
     /* increment the address on success. */
     ++ctx->index;
 
-    /* set the resume parameters. */
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)cond);
+    /* resume the caller with this new conditional. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS,
+            (void*)((ptrdiff_t)cond));
+    if (STATUS_SUCCESS != retval)
+    {
+        /* the caller will never learn of this conditional, so remove it. */
+        release_retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+    }
 
-    /* success. */
-    goto done;
+    return retval;
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
@@ -88,7 +99,6 @@ resume_fail:
     resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
diff --git a/src/message/message_discipline_mailbox_close_callback_handler.c b/src/message/message_discipline_mailbox_close_callback_handler.c
index 06a93df..18cf4e5 100644
--- a/src/message/message_discipline_mailbox_close_callback_handler.c
+++ b/src/message/message_discipline_mailbox_close_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -34,9 +35,6 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     void* yield_param)
 {
     status retval;
-    int resume_event;
-    void* resume_param;
-
     /* ignore yield event. */
     (void)yield_event;
 
@@ -48,27 +46,25 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_message_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(addr > 0);
 
+    /* schedule the caller first, so that failing to do so changes nothing. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE,
+            (void*)((ptrdiff_t)STATUS_SUCCESS));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* Attempt to delete the mailbox. */
     retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
     if (STATUS_SUCCESS != retval)
     {
-        goto resume_fail;
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
-    /* set the resume parameters on success. */
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
-    resume_param = (void*)((ptrdiff_t)STATUS_SUCCESS);
-
-    /* success. */
-    goto done;
-
-resume_fail:
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
-    resume_param = (void*)((ptrdiff_t)retval);
-
-done:
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-            resume_event, resume_param);
+    return STATUS_SUCCESS;
 }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 122377b..0c404f9 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -70,12 +70,23 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
     /* increment the address on success. */
     ++ctx->index;
 
-    /* set the resume parameters. */
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)addr);
+    /* resume the caller with this new mailbox. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS,
+            (void*)((ptrdiff_t)addr));
+    if (STATUS_SUCCESS != retval)
+    {
+        /* the caller will never learn of this mailbox, so remove it. */
+        release_retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+    }
 
-    /* success. */
-    goto done;
+    return retval;
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
@@ -88,7 +99,6 @@ resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From f738c286e29b06d0a97c2ee7c73f4a2187e1418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 21/49] fix: read all requested bytes in a blocking descriptor
 read

A typed read failed, and lost the bytes it had read, whenever the system
returned fewer bytes than asked for.
---
 src/psock/psock_from_descriptor_read.c | 41 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 5b39baf..a7847e2 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -23,7 +23,8 @@ RCPR_IMPORT_psock_internal;
  * \param ctx           User context (ignored).
  * \param data          Pointer to the buffer into which data should be read.
  * \param size          Pointer to the size to read, updated with the size read.
- * \param block         Ignored for raw descriptor reads.
+ * \param block         Set to true if the read should continue until all bytes
+ *                      are read, the stream ends, or reading more would block.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
@@ -33,7 +34,7 @@ status RCPR_SYM(psock_from_descriptor_read)(
     RCPR_SYM(psock)* sock, void* ctx, void* data, size_t* size, bool block)
 {
     (void)ctx;
-    (void)block;
+    size_t total = 0;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -44,22 +45,40 @@ status RCPR_SYM(psock_from_descriptor_read)(
     /* convert this to a psock_from_descriptor. */
     psock_from_descriptor* s = (psock_from_descriptor*)sock;
 
-    /* attempt to read from the descriptor. */
-    ssize_t retval = read(s->descriptor, data, *size);
-    if (retval < 0)
+    do
     {
-        if (EAGAIN == errno || EWOULDBLOCK == errno)
+        /* attempt to read from the descriptor. */
+        ssize_t retval =
+            read(s->descriptor, (uint8_t*)data + total, *size - total);
+        if (retval < 0)
         {
-            return ERROR_PSOCK_READ_WOULD_BLOCK;
+            if (EAGAIN == errno || EWOULDBLOCK == errno)
+            {
+                /* if bytes have already been read, return these. */
+                if (total > 0)
+                {
+                    break;
+                }
+
+                return ERROR_PSOCK_READ_WOULD_BLOCK;
+            }
+            else
+            {
+                return ERROR_PSOCK_READ_GENERAL;
+            }
         }
-        else
+
+        /* stop on end of stream. */
+        if (0 == retval)
         {
-            return ERROR_PSOCK_READ_GENERAL;
+            break;
         }
-    }
+
+        total += (size_t)retval;
+    } while (block && total < *size);
 
     /* save the size read. */
-    *size = (size_t)retval;
+    *size = total;
 
     /* success, but the read might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From 8c2725d448a7fc824ed88e9629b88f4fa5cf4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 22/49] fix: write all bytes in a descriptor write

A typed write failed, and left a partial value on the wire, whenever the
system accepted fewer bytes than asked for.
---
 src/psock/psock_from_descriptor_write.c | 37 +++++++++++++++++++------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/psock/psock_from_descriptor_write.c b/src/psock/psock_from_descriptor_write.c
index 884b3c6..8a136ec 100644
--- a/src/psock/psock_from_descriptor_write.c
+++ b/src/psock/psock_from_descriptor_write.c
@@ -33,6 +33,7 @@ status RCPR_SYM(psock_from_descriptor_write)(
     RCPR_SYM(psock)* sock, void* ctx, const void* data, size_t* size)
 {
     (void)ctx;
+    size_t total = 0;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -43,22 +44,40 @@ status RCPR_SYM(psock_from_descriptor_write)(
     /* convert this to a psock_from_descriptor. */
     psock_from_descriptor* s = (psock_from_descriptor*)sock;
 
-    /* attempt to write to the descriptor. */
-    ssize_t retval = write(s->descriptor, data, *size);
-    if (retval < 0)
+    do
     {
-        if (EAGAIN == errno || EWOULDBLOCK == errno)
+        /* attempt to write to the descriptor. */
+        ssize_t retval =
+            write(s->descriptor, (const uint8_t*)data + total, *size - total);
+        if (retval < 0)
         {
-            return ERROR_PSOCK_WRITE_WOULD_BLOCK;
+            if (EAGAIN == errno || EWOULDBLOCK == errno)
+            {
+                /* if bytes have already been written, report these. */
+                if (total > 0)
+                {
+                    break;
+                }
+
+                return ERROR_PSOCK_WRITE_WOULD_BLOCK;
+            }
+            else
+            {
+                return ERROR_PSOCK_WRITE_GENERAL;
+            }
         }
-        else
+
+        /* stop if no progress can be made. */
+        if (0 == retval)
         {
-            return ERROR_PSOCK_WRITE_GENERAL;
+            break;
         }
-    }
+
+        total += (size_t)retval;
+    } while (total < *size);
 
     /* save the size written. */
-    *size = (size_t)retval;
+    *size = total;
 
     /* success, but the write might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From fa49a021f599303b7c954fb84635d4f96b27be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 23/49] fix: report failure to create a buffered reader

---
 src/psock/psock_br_create_from_psock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..852bcfc 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,7 +129,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From cb2828157859b500b3d87151b7966affedf16384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 24/49] fix: wait for an async socket in a blocking buffered
 read

A buffered reader over an async socket failed, and a line read failed for
good, as soon as no data was available yet.
---
 src/psock/psock_br_fill.c       | 25 ++++++++++++++++++++++++-
 src/psock/psock_br_psock_read.c |  2 +-
 src/psock/psock_br_read_line.c  |  2 +-
 src/psock/psock_internal.h      |  8 +++++---
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..7e2bbc3 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,15 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         Set to true if an async backing \ref psock should be
+ *                      waited for when it has no data available.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -64,6 +66,27 @@ status RCPR_SYM(psock_br_fill)(
         wrapped_vtable->read_fn(
             br->wrapped, br->wrapped->context, br->buffer + br->current_size,
             &read_bytes, false);
+
+#ifdef HAS_PSOCK_ASYNC
+    /* if the wrapped socket is async, wait for it to have data. */
+    while (
+        ERROR_PSOCK_READ_WOULD_BLOCK == retval && block
+     && PSOCK_TYPE_WRAP_ASYNC == br->wrapped->type)
+    {
+        retval = psock_read_block(br->wrapped);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto done;
+        }
+
+        read_bytes = br->max_size - br->current_size;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, false);
+    }
+#endif /* HAS_PSOCK_ASYNC */
+
     if (STATUS_SUCCESS != retval)
     {
         goto done;
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..5f549fc 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -52,7 +52,7 @@ status RCPR_SYM(psock_br_psock_read)(
         /* attempt to fill the buffer if we don't have enough bytes. */
         if (available_bytes < requested_bytes)
         {
-            retval = psock_br_fill(br);
+            retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
             {
                 /* update size with the number of read bytes. */
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..8440368 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,7 +158,7 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
+                retval = psock_br_fill(br, true);
                 if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..237be17 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,15 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         Set to true if an async backing \ref psock should be
+ *                      waited for when it has no data available.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +700,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From 3c4341fb0236e3a178c570c72bc5d8b17185f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 25/49] fix: keep buffered bytes when a buffered read fails

Bytes already buffered could not be read with a larger buffer once the
stream had ended, and were lost when a typed read failed.
---
 src/psock/psock_br_psock_read.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index 5f549fc..885c0ab 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -42,15 +42,21 @@ status RCPR_SYM(psock_br_psock_read)(
     RCPR_MODEL_ASSERT(NULL != data);
     RCPR_MODEL_ASSERT(NULL != *size);
 
-    /* compute the number of available bytes in the buffer. */
-    size_t available_bytes = br->current_size - br->offset;
+    size_t available_bytes;
     size_t read_bytes = 0;
     size_t requested_bytes = *size;
     uint8_t* bdata = (uint8_t*)data;
 
     do {
-        /* attempt to fill the buffer if we don't have enough bytes. */
-        if (available_bytes < requested_bytes)
+        /* compute the number of available bytes in the buffer. */
+        available_bytes = br->current_size - br->offset;
+
+        /* fill the buffer if it is empty, or if this read must wait for more
+         * bytes than it holds.  Bytes stay in the buffer if this fails. */
+        while (
+            available_bytes < requested_bytes
+         && (0 == available_bytes
+          || (block && available_bytes < br->max_size)))
         {
             retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
@@ -60,10 +66,10 @@ status RCPR_SYM(psock_br_psock_read)(
 
                 goto done;
             }
-        }
 
-        /* re-compute the number of available bytes in the buffer. */
-        available_bytes = br->current_size - br->offset;
+            /* re-compute the number of available bytes in the buffer. */
+            available_bytes = br->current_size - br->offset;
+        }
 
         /* compute the number of bytes to copy. */
         size_t copy_bytes =
-- 
2.43.0


From 7b50e8fbebdc02c9d1cd36c2cde1fc2d18647df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 26/49] fix: read an empty value at the end of a memory buffer

---
 src/psock/psock_from_buffer_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_from_buffer_read.c b/src/psock/psock_from_buffer_read.c
index 8dc8217..9017629 100644
--- a/src/psock/psock_from_buffer_read.c
+++ b/src/psock/psock_from_buffer_read.c
@@ -46,6 +46,12 @@ status RCPR_SYM(psock_from_buffer_read)(
     /* cast to the derived type. */
     psock_from_buffer* pb = (psock_from_buffer*)sock;
 
+    /* an empty read always succeeds. */
+    if (0 == *size)
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* if we are at EOF, return EOF. */
     if (NULL == pb->input_buffer
      || pb->buffer_read_offset >= pb->input_buffer_size)
-- 
2.43.0


From c88141aa04eef01b51d6f12dd510bb080fbae4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 27/49] fix: make a write to an output buffer all or nothing

When a write ran out of memory, part of it was kept, or the socket was left
without a buffer to write to, or a buffer was leaked.
---
 src/psock/psock_from_buffer_write.c | 98 ++++++-----------------------
 1 file changed, 18 insertions(+), 80 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..a942923 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -49,10 +49,8 @@ status RCPR_SYM(psock_from_buffer_write)(
 {
     (void)ctx;
     status retval, release_retval;
-    size_t copy_size;
-    size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
-    void* large_buffer = NULL;
+    char* large_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -75,80 +73,34 @@ status RCPR_SYM(psock_from_buffer_write)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* fill the current buffer first. */
-    copy_size = pb->output_buffer_size - pb->buffer_write_offset;
-    if (copy_size > *size)
+    /* if this data fits in the current buffer, then append it. */
+    if (*size <= pb->output_buffer_size - pb->buffer_write_offset)
     {
-        copy_size = *size;
+        memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, *size);
+        pb->buffer_write_offset += *size;
     }
-    memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-    data = ((uint8_t*)data) + copy_size;
-    total_size += copy_size;
-    pb->buffer_write_offset += copy_size;
-    *size -= copy_size;
-
-    /* if the current buffer is full, append it to the output queue and reset
-     * the buffer. */
-    if (pb->buffer_write_offset >= pb->output_buffer_size)
+    /* otherwise, move the contents of the current buffer and this data to the
+     * output queue. On failure, nothing has changed. */
+    else
     {
-        /* create an output buffer node. */
-        retval =
-            psock_output_buffer_node_create(
-                &ob, sock->alloc, pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
-
-        /* append this to the tail of the queue. */
-        retval = slist_append_tail(pb->output_queue, &ob->hdr);
-        if (STATUS_SUCCESS != retval)
-        {
-            /* clean up ob. */
-            ob->buffer = NULL;
-            release_retval = resource_release(&ob->hdr);
-            if (STATUS_SUCCESS != release_retval)
-            {
-                retval = release_retval;
-            }
-            goto done;
-        }
+        size_t large_size = pb->buffer_write_offset + *size;
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
-        pb->output_buffer_size = PSOCK_BUFFER_SIZE;
-        pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
+        /* create a buffer for holding this data. */
         retval =
-            allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
-    }
-
-    /* if the remaining size is greater than the current output buffer size,
-     * then create and append a buffer equal to that size to save time. */
-    if (*size >= pb->output_buffer_size)
-    {
-        /* create a buffer for holding this extra data. */
-        retval = allocator_allocate(sock->alloc, (void**)&large_buffer, *size);
+            allocator_allocate(sock->alloc, (void**)&large_buffer, large_size);
         if (STATUS_SUCCESS != retval)
         {
             goto done;
         }
 
         /* copy data to this buffer. */
-        memcpy(large_buffer, data, *size);
+        memcpy(large_buffer, pb->output_curr_buffer, pb->buffer_write_offset);
+        memcpy(large_buffer + pb->buffer_write_offset, data, *size);
 
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
-                &ob, sock->alloc, large_buffer, *size);
+                &ob, sock->alloc, large_buffer, large_size);
         if (STATUS_SUCCESS != retval)
         {
             goto cleanup_large_buffer;
@@ -158,40 +110,26 @@ status RCPR_SYM(psock_from_buffer_write)(
         retval = slist_append_tail(pb->output_queue, &ob->hdr);
         if (STATUS_SUCCESS != retval)
         {
-            ob->buffer = NULL;
             goto cleanup_ob;
         }
 
-        /* fixups. */
-        data = ((uint8_t*)data) + *size;
-        total_size += *size;
-        *size = 0;
-    }
-
-    /* if there is still remaining data to copy, then append it. */
-    if (*size > 0)
-    {
-        copy_size = *size;
-        memcpy(
-            pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-        total_size += copy_size;
-        pb->buffer_write_offset += copy_size;
-        *size -= copy_size;
+        /* the current buffer is now empty. */
+        pb->buffer_write_offset = 0;
     }
 
     /* success. */
-    RCPR_MODEL_ASSERT(0 == *size);
-    *size = total_size;
     pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
 cleanup_ob:
+    /* the node owns the buffer. */
     release_retval = resource_release(&ob->hdr);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
+    goto done;
 
 cleanup_large_buffer:
     release_retval = allocator_reclaim(sock->alloc, large_buffer);
-- 
2.43.0


From 3152d81e3cab688267075181994aa7f60066f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 28/49] fix: leave the caller's variables alone when copying
 output fails

---
 src/psock/psock_from_buffer_get_output_buffer.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_from_buffer_get_output_buffer.c b/src/psock/psock_from_buffer_get_output_buffer.c
index f290e0c..a0c640a 100644
--- a/src/psock/psock_from_buffer_get_output_buffer.c
+++ b/src/psock/psock_from_buffer_get_output_buffer.c
@@ -66,6 +66,7 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
     size_t* buffer_size)
 {
     status retval, release_retval;
+    void* tmp = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -89,29 +90,29 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* set the buffer size. */
-    *buffer_size = pb->output_buffer_total_size;
-
     /* allocate memory for the output buffer. */
-    retval = allocator_allocate(a, buffer, *buffer_size);
+    retval = allocator_allocate(a, &tmp, pb->output_buffer_total_size);
     if (STATUS_SUCCESS != retval)
     {
         goto done;
     }
 
     /* copy the output buffer data to this buffer. */
-    retval = copy_output_buffer(pb, (uint8_t*)*buffer, *buffer_size);
+    retval =
+        copy_output_buffer(pb, (uint8_t*)tmp, pb->output_buffer_total_size);
     if (STATUS_SUCCESS != retval)
     {
         goto reclaim_buffer;
     }
 
     /* success. */
+    *buffer = tmp;
+    *buffer_size = pb->output_buffer_total_size;
     retval = STATUS_SUCCESS;
     goto done;
 
 reclaim_buffer:
-    release_retval = allocator_reclaim(a, *buffer);
+    release_retval = allocator_reclaim(a, tmp);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From bd8c21fa07bac1d208898f4ad28563ea0294468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 29/49] fix: do not register a socket discipline that has no
 idle fiber

If the idle fiber could not be created, the discipline stayed registered and
later sockets of that scheduler could never wait for anything.
---
 src/psock/psock_create_wrap_async.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..9e21885 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,22 +295,20 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        goto cleanup_idle_fiber_and_discipline;
     }
 
     /* set the idle fiber. */
@@ -337,6 +335,13 @@ cleanup_idle_fiber:
     /* skip the discipline cleanup; it is now handled by the scheduler. */
     goto done;
 
+cleanup_idle_fiber_and_discipline:
+    release_retval = resource_release(fiber_resource_handle(idle_fiber));
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
 cleanup_discipline:
     release_retval =
         resource_release(fiber_scheduler_discipline_resource_handle(*disc));
-- 
2.43.0


From be05169d8fd7a8b0da02d313b5b110da3908c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 30/49] fix: ask the waiting fiber about an unexpected event

The fiber given when the socket was wrapped was asked, even when another fiber
was the one waiting.
---
 src/psock/psock_read_block.c  | 2 +-
 src/psock/psock_write_block.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..574c5fc 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -121,7 +121,7 @@ RCPR_SYM(psock_read_block)(
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-                    s->fib, resume_id, resume_event, resume_param,
+                    current_fib, resume_id, resume_event, resume_param,
                     &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ);
             if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..2b59e7a 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -118,7 +118,7 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-                    s->fib, resume_id, resume_event, resume_param,
+                    current_fib, resume_id, resume_event, resume_param,
                     &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE);
             if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 3dd5c2fa1ee600a12142dbc514b04b1e8e4addfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 31/49] fix: resume fibers on sockets that only report an error
 or hang-up

Such an event was ignored and the socket armed again, so the idle fiber spun
forever and the waiting fiber was never resumed.
---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..f97c8c5 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -71,7 +71,8 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             event.events = EPOLLONESHOT;
 
             /* check for a read resume event. */
-            if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
+            if ((filter & (EPOLLIN | EPOLLERR | EPOLLHUP))
+             && NULL != ps->read_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
@@ -107,7 +108,8 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             }
 
             /* check for a write resume event. */
-            if ((filter & EPOLLOUT) && NULL != ps->write_block_fib)
+            if ((filter & (EPOLLOUT | EPOLLERR | EPOLLHUP))
+             && NULL != ps->write_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
-- 
2.43.0


From 3681307f7f697b3be7a4e8e113a96daef83201b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 32/49] fix: resume fibers on polled sockets that only report
 an error

---
 src/psock/platform/poll/psock_idle_fiber_entry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 02bc94d..04526b4 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -67,7 +67,7 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 resume_event =
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE;
             }
-            else if (revents & POLLHUP)
+            else if (revents & (POLLHUP | POLLERR | POLLNVAL))
             {
                 if (events & POLLIN)
                 {
@@ -82,7 +82,7 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             }
 
             /* encode resume param value. */
-            if (revents & POLLERR)
+            if (revents & (POLLERR | POLLNVAL))
             {
                 resume_param |=
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_FLAG_ERROR;
-- 
2.43.0


From 524071fe8230b332615403a89f3fe79db8584ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 33/49] fix: keep polling when poll is interrupted

---
 src/psock/platform/poll/psock_idle_fiber_entry.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 04526b4..7d7f253 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <errno.h>
 #include <rcpr/fiber/disciplines/psock_io.h>
 #include <rcpr/model_assert.h>
 #include <string.h>
@@ -40,7 +41,12 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
     {
         /* wait on a poll event. */
         int nev = poll(ctx->poll_events, ctx->poll_curr, -1);
-        if (nev < 0)
+        if (nev < 0 && errno == EINTR)
+        {
+            /* if we are interrupted (e.g. from debugging) try again. */
+            continue;
+        }
+        else if (nev < 0)
         {
             retval = ERROR_PSOCK_POLL_FAILED;
             goto done;
-- 
2.43.0


From 9b89382de452493b57788d00de39b308c3174b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 34/49] fix: do not receive, and leak, more than one descriptor

---
 src/psock/psock_read_raw_descriptor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_read_raw_descriptor.c b/src/psock/psock_read_raw_descriptor.c
index 1862224..abe894d 100644
--- a/src/psock/psock_read_raw_descriptor.c
+++ b/src/psock/psock_read_raw_descriptor.c
@@ -84,7 +84,9 @@ RCPR_SYM(psock_read_raw_descriptor)(
     memset(&m, 0, sizeof(m));
     m.msg_iov = &iov;
     m.msg_iovlen = 1;
-    m.msg_controllen = CMSG_SPACE(sizeof(int));
+    /* there must be room for exactly one descriptor; a second one that fits in
+     * the padding would be received and leaked. */
+    m.msg_controllen = CMSG_LEN(sizeof(int));
     m.msg_control = buf;
 
     /* set sentry for the receive socket. */
-- 
2.43.0


From 96a522ea810023ca6810b2d883f63c990f4db216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 35/49] fix: give a buffered reader the socket type of the
 socket it wraps

---
 src/psock/psock_br_create_from_psock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 852bcfc..cb37dc6 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -104,6 +104,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
     /* set the type. */
     tmp->hdr.type = PSOCK_TYPE_BUFFERED;
+    tmp->hdr.socktype = sock->socktype;
 
     /* set the socket. */
     tmp->wrapped = sock;
-- 
2.43.0


From ee5a55006daab0008516487f3a5181f86a1822b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 36/49] fix: do not lose data when a partial asynchronous read
 is followed by an error

---
 src/psock/psock_wrap_async_read.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..5443d5d 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -83,19 +83,8 @@ status RCPR_SYM(psock_wrap_async_read)(
             }
             continue;
         }
-        /* if we shouldn't block until the read has completed, then return. */
-        else if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && !block)
-        {
-            if (*size > 0)
-            {
-                return STATUS_SUCCESS;
-            }
-            else
-            {
-                return retval;
-            }
-        }
-        /* if a different error occurred in the read, return it.*/
+        /* if we shouldn't block, or if a different error occurred in the read,
+         * return it.*/
         else if (STATUS_SUCCESS != retval)
         {
             return retval;
@@ -110,6 +99,14 @@ status RCPR_SYM(psock_wrap_async_read)(
         *size += tmp_size;
         read_size -= tmp_size;
         dptr += tmp_size;
+
+        /* if we shouldn't block until the read has completed, then return what
+         * has been read.  A further read could fail, and then this data would
+         * be lost. */
+        if (!block)
+        {
+            break;
+        }
     }
 
     return STATUS_SUCCESS;
-- 
2.43.0


From bdd4020877cc02237be166a6a3b0fb970a3fd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 37/49] fix: do not close a descriptor that is already in its
 slot

---
 src/socket_utilities/vsocket_utility_move_descriptors.c | 7 +++++--
 src/socket_utilities/vsocket_utility_setfds.c           | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..938f334 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -61,8 +61,11 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Close the old file descriptor */
-        close(old_fd);
+        /* Close the old file descriptor, unless it is already in place */
+        if (old_fd != threshold)
+        {
+            close(old_fd);
+        }
 
         /* Update the descriptor to point to the new location */
         *curr = threshold;
diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..3d03004 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it is already in place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 00981a2fc366d3fce6ad07f99b7c094aa965fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 38/49] fix: do not overwrite a descriptor that is still to be
 moved

---
 .../vsocket_utility_move_descriptors.c        | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index 938f334..9265a60 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -53,6 +53,33 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
+        /* Get any descriptor that is still to be moved out of the way. */
+        if (old_fd != threshold)
+        {
+            va_list rest;
+            int* other;
+
+            va_copy(rest, args);
+            while (NULL != (other = va_arg(rest, int*)))
+            {
+                if (*other == threshold)
+                {
+                    new_fd = dup(threshold);
+                    if (new_fd < 0)
+                    {
+                        retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
+                        va_end(rest);
+                        goto done;
+                    }
+
+                    *other = new_fd;
+                    close(threshold);
+                    break;
+                }
+            }
+            va_end(rest);
+        }
+
         /* Move the descriptor to the threshold or above */
         new_fd = dup2(old_fd, threshold);
         if (new_fd < 0)
-- 
2.43.0


From 485ae02b81b3a6cbed211f36acb67f1bdc0143b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 39/49] fix: refuse bump allocations whose size overflows the
 offset

---
 src/allocator/bump_allocator_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..e0ac103 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -184,14 +184,13 @@ static status bump_allocator_allocate(
 
     /* verify that this computed offset does not exceed the total size of this
      * memory region. */
-    size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    if (mem_offset >= bump->max_size || size >= bump->max_size - mem_offset)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
     /* bump the allocator. */
-    bump->offset = bump_offset;
+    bump->offset = mem_offset + size;
 
     /* success. */
     *ptr = (bump->region + mem_offset);
-- 
2.43.0


From b066185e013511ca66bf4e7458af2bf5ab6ef9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 40/49] fix: reset a trigger before notifying its listener

---
 src/auto_reset_trigger/auto_reset_trigger_step.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_step.c b/src/auto_reset_trigger/auto_reset_trigger_step.c
index 0f96a6b..2d8bd9c 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_step.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_step.c
@@ -28,13 +28,17 @@ RCPR_SYM(auto_reset_trigger_step)(RCPR_SYM(auto_reset_trigger)* trigger)
         /* Is there a listener? */
         if (NULL != trigger->callback)
         {
-            /* notify the listener. */
-            (trigger->callback)(trigger->context);
+            /* save the listener, which may signal or register again. */
+            RCPR_SYM(auto_reset_trigger_callback) callback = trigger->callback;
+            void* context = trigger->context;
 
             /* reset the trigger. */
             trigger->triggered = false;
             trigger->callback = NULL;
             trigger->context = NULL;
+
+            /* notify the listener. */
+            callback(context);
         }
     }
 }
-- 
2.43.0


From 64cf7c8ba56b3786b6ed11b35aef99bc9ce31782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 41/49] fix: do not queue a fiber twice for an out-of-band
 request

A quiesce or terminate request sent to a fiber that was already in the run
queue overwrote the event pending for it (losing, for instance, a message) and
added it to the run queue again, so that it could be resumed after it stopped
or after it was released. Deliver the pending event first and the request when
the fiber next waits.
---
 ...d_fiber_scheduler_add_fiber_to_run_queue.c | 104 +++++++++++++++++-
 ...ed_fiber_scheduler_set_next_fiber_to_run.c |  14 ++-
 src/fiber/common/fiber_internal.h             |  26 +++++
 .../fiber_scheduler_create_with_disciplines.c |  40 ++++++-
 4 files changed, 181 insertions(+), 3 deletions(-)

diff --git a/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c b/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c
index 1fe99d5..4a91aab 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c
@@ -15,6 +15,11 @@
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_fiber_internal;
 RCPR_IMPORT_queue;
+RCPR_IMPORT_uuid;
+
+/* forward decls. */
+static bool request_add(
+    fiber* fib, const rcpr_uuid* resume_id, int resume_event);
 
 /**
  * \brief Mark the given \ref fiber as runnable.
@@ -57,11 +62,108 @@ RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(
     /* get the fiber scheduler discipline context. */
     ctx = (fiber_scheduler_disciplined_context*)sched->context;
 
+    /* if this fiber is already in the run queue, merge the two events. */
+    if (fiber_queued_event_merge(fib, resume_id, resume_event, resume_param))
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* set the fiber resume parameters. */
     fib->restore_discipline_id = resume_id;
     fib->restore_reason_code = resume_event;
     fib->restore_param = resume_param;
 
     /* add this fiber to the run queue. */
-    return queue_append(ctx->run_queue, fiber_resource_handle(fib));
+    status retval = queue_append(ctx->run_queue, fiber_resource_handle(fib));
+    if (STATUS_SUCCESS == retval)
+    {
+        fib->queued = true;
+    }
+
+    return retval;
+}
+
+/**
+ * \brief If the given fiber is already in the run queue, either because of an
+ * out-of-band request or when this event is an out-of-band request, then merge
+ * this event with the event that is already pending for this fiber.
+ *
+ * The fiber receives the event for which it waited first. An out-of-band request
+ * is then received when this fiber next waits.
+ *
+ * \param fib           The fiber.
+ * \param resume_id     The resume event's discipline id.
+ * \param resume_event  The resume event for this fiber.
+ * \param resume_param  The resume parameter for this fiber.
+ *
+ * \returns true if the event was merged, and false if the fiber should be added
+ * to the run queue.
+ */
+bool RCPR_SYM(fiber_queued_event_merge)(
+    RCPR_SYM(fiber)* fib, const RCPR_SYM(rcpr_uuid)* resume_id,
+    int resume_event, void* resume_param)
+{
+    RCPR_MODEL_ASSERT(prop_fiber_valid(fib));
+    RCPR_MODEL_ASSERT(prop_uuid_valid(resume_id));
+
+    /* a fiber that isn't in the run queue has no pending event. */
+    if (!fib->queued)
+    {
+        return false;
+    }
+
+    /* an out-of-band request waits behind the pending event. */
+    if (request_add(fib, resume_id, resume_event))
+    {
+        return true;
+    }
+
+    /* any other event goes ahead of a pending out-of-band request. */
+    if (
+        request_add(
+            fib, fib->restore_discipline_id, (int)fib->restore_reason_code))
+    {
+        fib->restore_discipline_id = resume_id;
+        fib->restore_reason_code = resume_event;
+        fib->restore_param = resume_param;
+
+        return true;
+    }
+
+    return false;
+}
+
+/**
+ * \brief Remember an out-of-band request for a fiber.
+ *
+ * \param fib           The fiber.
+ * \param resume_id     The resume event's discipline id.
+ * \param resume_event  The resume event for this fiber.
+ *
+ * \returns true if this event is an out-of-band request.
+ */
+static bool request_add(
+    fiber* fib, const rcpr_uuid* resume_id, int resume_event)
+{
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE,
+            sizeof(rcpr_uuid)))
+    {
+        return false;
+    }
+
+    switch (resume_event)
+    {
+        case FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST:
+            fib->quiesce_pending = true;
+            return true;
+
+        case FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST:
+            fib->terminate_pending = true;
+            return true;
+
+        default:
+            return false;
+    }
 }
diff --git a/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c b/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c
index 595a7a8..19d3f1f 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c
@@ -58,11 +58,23 @@ RCPR_SYM(disciplined_fiber_scheduler_set_next_fiber_to_run)(
     /* get the fiber scheduler discipline context. */
     ctx = (fiber_scheduler_disciplined_context*)sched->context;
 
+    /* if this fiber is already in the run queue, merge the two events. */
+    if (fiber_queued_event_merge(fib, resume_id, resume_event, resume_param))
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* set the fiber resume parameters. */
     fib->restore_discipline_id = resume_id;
     fib->restore_reason_code = resume_event;
     fib->restore_param = resume_param;
 
     /* add this fiber to the start of the run queue. */
-    return queue_insert(ctx->run_queue, fiber_resource_handle(fib));
+    status retval = queue_insert(ctx->run_queue, fiber_resource_handle(fib));
+    if (STATUS_SUCCESS == retval)
+    {
+        fib->queued = true;
+    }
+
+    return retval;
 }
diff --git a/src/fiber/common/fiber_internal.h b/src/fiber/common/fiber_internal.h
index 472a304..1763eff 100644
--- a/src/fiber/common/fiber_internal.h
+++ b/src/fiber/common/fiber_internal.h
@@ -42,6 +42,9 @@ struct RCPR_SYM(fiber)
     void* restore_param;
     uint64_t fiber_state;
     RCPR_SYM(fiber_scheduler)* sched;
+    bool queued;
+    bool quiesce_pending;
+    bool terminate_pending;
 };
 
 struct RCPR_SYM(fiber_scheduler)
@@ -165,6 +168,26 @@ void RCPR_SYM(fiber_make)(
  */
 status RCPR_SYM(fiber_scheduler_resource_release)(RCPR_SYM(resource)* r);
 
+/**
+ * \brief If the given fiber is already in the run queue, either because of an
+ * out-of-band request or when this event is an out-of-band request, then merge
+ * this event with the event that is already pending for this fiber.
+ *
+ * The fiber receives the event for which it waited first. An out-of-band request
+ * is then received when this fiber next waits.
+ *
+ * \param fib           The fiber.
+ * \param resume_id     The resume event's discipline id.
+ * \param resume_event  The resume event for this fiber.
+ * \param resume_param  The resume parameter for this fiber.
+ *
+ * \returns true if the event was merged, and false if the fiber should be added
+ * to the run queue.
+ */
+bool RCPR_SYM(fiber_queued_event_merge)(
+    RCPR_SYM(fiber)* fib, const RCPR_SYM(rcpr_uuid)* resume_id,
+    int resume_event, void* resume_param);
+
 /******************************************************************************/
 /* Start of private exports.                                                  */
 /******************************************************************************/
@@ -190,6 +213,9 @@ status RCPR_SYM(fiber_scheduler_resource_release)(RCPR_SYM(resource)* r);
     static inline status fiber_scheduler_resource_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(fiber_scheduler_resource_release)(x); } \
+    static inline bool fiber_queued_event_merge( \
+        RCPR_SYM(fiber)* w, const RCPR_SYM(rcpr_uuid)* x, int y, void* z) { \
+            return RCPR_SYM(fiber_queued_event_merge)(w,x,y,z); } \
     RCPR_END_EXPORT \
     REQUIRE_SEMICOLON_HERE
 
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 38fa8ff..92e7324 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -697,6 +697,32 @@ static status fiber_scheduler_disciplined_callback(
         return retval;
     }
 
+    /* if the yielding fiber now waits, then it first receives the out-of-band
+     * requests that arrived while it was in the run queue. */
+    if (
+        !yield_fib->queued && FIBER_STATE_RUNNING == yield_fib->fiber_state
+            && (yield_fib->quiesce_pending || yield_fib->terminate_pending))
+    {
+        *resume_fib = yield_fib;
+        *resume_id = &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE;
+        *resume_param = NULL;
+
+        if (yield_fib->quiesce_pending)
+        {
+            yield_fib->quiesce_pending = false;
+            *resume_event =
+                FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST;
+        }
+        else
+        {
+            yield_fib->terminate_pending = false;
+            *resume_event =
+                FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST;
+        }
+
+        return STATUS_SUCCESS;
+    }
+
     /* otherwise, try to get an event from the run queue. */
     if (queue_count(ctx->run_queue) != 0)
     {
@@ -711,6 +737,7 @@ static status fiber_scheduler_disciplined_callback(
         /* downcast to a fiber instance. */
         fiber* next_fiber = (fiber*)next_fiber_resource;
         RCPR_MODEL_ASSERT(prop_fiber_valid(next_fiber));
+        next_fiber->queued = false;
 
         /* set that fiber as the resume fiber. */
         *resume_fib = next_fiber;
@@ -817,7 +844,14 @@ static status fiber_scheduler_disciplined_main_callback_handler(
     yield_fib->restore_reason_code = FIBER_SCHEDULER_RESUME_EVENT_MAIN;
     yield_fib->restore_param = NULL;
 
-    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
+    status retval =
+        queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
+    if (STATUS_SUCCESS == retval)
+    {
+        yield_fib->queued = true;
+    }
+
+    return retval;
 }
 
 /**
@@ -905,6 +939,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
 dequeue_management_fiber:
     if (NULL != ctx->management_fiber)
     {
+        ctx->management_fiber->queued = false;
         undo_retval = queue_pop(ctx->run_queue, &dummy);
         if (STATUS_SUCCESS != undo_retval)
         {
@@ -913,6 +948,7 @@ dequeue_management_fiber:
     }
 
 dequeue_yield_fiber:
+    yield_fib->queued = false;
     undo_retval = queue_pop(ctx->run_queue, &dummy);
     if (STATUS_SUCCESS != undo_retval)
     {
@@ -1126,6 +1162,7 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             /* the calling fiber continues with this error, so it must not be
              * resumed a second time. */
             resource* dummy = NULL;
+            yield_fib->queued = false;
             status pop_retval = queue_pop(ctx->run_queue, &dummy);
             return (STATUS_SUCCESS != pop_retval) ? pop_retval : retval;
         }
@@ -1201,6 +1238,7 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             /* the calling fiber continues with this error, so it must not be
              * resumed a second time. */
             resource* dummy = NULL;
+            yield_fib->queued = false;
             status pop_retval = queue_pop(ctx->run_queue, &dummy);
             return (STATUS_SUCCESS != pop_retval) ? pop_retval : retval;
         }
-- 
2.43.0


From ccaf57abace5202772bc932a509e6ac0e091048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 42/49] fix: forget an interrupted socket wait in the poll back
 end

A fiber interrupted while it waited on a socket was left in the poll back
end's list of waiters, and was resumed for that socket even when it waited
for something else.
---
 ...r_disciplined_read_wait_callback_handler.c | 17 +++++++++++
 ...r_disciplined_read_wait_callback_handler.c | 17 +++++++++++
 ...r_disciplined_read_wait_callback_handler.c | 29 +++++++++++++++++++
 src/psock/psock_internal.h                    | 15 ++++++++++
 src/psock/psock_read_block.c                  |  8 +++++
 src/psock/psock_write_block.c                 |  8 +++++
 6 files changed, 94 insertions(+)

diff --git a/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index a550a81..d76cbca 100644
--- a/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -84,3 +84,20 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(
     /* success. */
     return STATUS_SUCCESS;
 }
+
+/**
+ * \brief Forget that the given fiber waits on a socket.
+ *
+ * This is called when a wait ends for any other reason than the socket being
+ * ready.
+ *
+ * \param context       The user context for the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib)
+{
+    /* an event for a socket on which no fiber waits is ignored. */
+    (void)context;
+    (void)fib;
+}
diff --git a/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index c076df5..1b683e9 100644
--- a/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -76,3 +76,20 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(
     /* success. */
     return STATUS_SUCCESS;
 }
+
+/**
+ * \brief Forget that the given fiber waits on a socket.
+ *
+ * This is called when a wait ends for any other reason than the socket being
+ * ready.
+ *
+ * \param context       The user context for the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib)
+{
+    /* TODO - delete the pending kevent. */
+    (void)context;
+    (void)fib;
+}
diff --git a/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index 65a965a..b06601e 100644
--- a/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -93,3 +93,32 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(
 done:
     return retval;
 }
+
+/**
+ * \brief Forget that the given fiber waits on a socket.
+ *
+ * This is called when a wait ends for any other reason than the socket being
+ * ready.
+ *
+ * \param context       The user context for the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib)
+{
+    psock_io_poll_context* ctx = (psock_io_poll_context*)context;
+    size_t new_curr = 0;
+
+    /* remove each entry belonging to this fiber. */
+    for (size_t i = 0; i < ctx->poll_curr; ++i)
+    {
+        if (fib != ctx->poll_fibers[i])
+        {
+            ctx->poll_fibers[new_curr] = ctx->poll_fibers[i];
+            ctx->poll_events[new_curr] = ctx->poll_events[i];
+            ++new_curr;
+        }
+    }
+
+    ctx->poll_curr = new_curr;
+}
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index 237be17..692aae7 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -375,6 +375,18 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_write_wait_callback_handler)(
     void* context, RCPR_SYM(fiber)* yield_fib, int yield_event,
     void* yield_param);
 
+/**
+ * \brief Forget that the given fiber waits on a socket.
+ *
+ * This is called when a wait ends for any other reason than the socket being
+ * ready.
+ *
+ * \param context       The user context for the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib);
+
 /**
  * \brief The entry point for the psock idle fiber.
  *
@@ -632,6 +644,9 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(fiber_scheduler)* y, RCPR_SYM(allocator)* z) { \
             return \
                 RCPR_SYM(psock_fiber_scheduler_discipline_create)(w,x,y,z); } \
+    static inline void psock_fiber_scheduler_disciplined_wait_cancel( \
+        void* x, RCPR_SYM(fiber)* y) { \
+            RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(x,y); } \
     static inline status \
     psock_fiber_scheduler_disciplined_read_wait_callback_handler( \
         void* w, RCPR_SYM(fiber)* x, int y, void* z) { \
diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 574c5fc..533c5f3 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -108,6 +108,9 @@ RCPR_SYM(psock_read_block)(
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
         {
+            psock_fiber_scheduler_disciplined_wait_cancel(
+                fiber_scheduler_discipline_context_get(s->psock_discipline),
+                current_fib);
             return retval;
         }
 
@@ -118,6 +121,11 @@ RCPR_SYM(psock_read_block)(
                 resume_id, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                 sizeof(rcpr_uuid)))
         {
+            /* this fiber no longer waits on this socket. */
+            psock_fiber_scheduler_disciplined_wait_cancel(
+                fiber_scheduler_discipline_context_get(s->psock_discipline),
+                current_fib);
+
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 2b59e7a..be20115 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -105,6 +105,9 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
         {
+            psock_fiber_scheduler_disciplined_wait_cancel(
+                fiber_scheduler_discipline_context_get(s->psock_discipline),
+                current_fib);
             return retval;
         }
 
@@ -115,6 +118,11 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 resume_id, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                 sizeof(rcpr_uuid)))
         {
+            /* this fiber no longer waits on this socket. */
+            psock_fiber_scheduler_disciplined_wait_cancel(
+                fiber_scheduler_discipline_context_get(s->psock_discipline),
+                current_fib);
+
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-- 
2.43.0


From 0b3e2170c8e00076e050aedac2d673a40a0869dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 43/49] fix: do not end a line when filling a buffered reader
 fails

A failed fill was treated as the end of the stream: the part of a line
read so far was returned as a complete line, and every later line read
failed.  Only the end of the stream ends the last line now; after any
other failure the part is reported as truncated, or the failure is
returned, and reading may continue.
---
 src/psock/psock_br_fill.c      |  2 +-
 src/psock/psock_br_read_line.c | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 7e2bbc3..b3add7b 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -95,7 +95,7 @@ status RCPR_SYM(psock_br_fill)(
     /* if zero bytes were read, then the socket is closed. */
     if (0 == read_bytes)
     {
-        retval = ERROR_PSOCK_READ_GENERAL;
+        retval = ERROR_PSOCK_READ_EOF;
         goto done;
     }
 
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index 8440368..ca6e6d4 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -159,11 +159,25 @@ RCPR_SYM(psock_br_read_line)(
             if (!br->error)
             {
                 retval = psock_br_fill(br, true);
-                if (STATUS_SUCCESS != retval)
+                if (ERROR_PSOCK_READ_EOF == retval)
                 {
-                    /* if we encounter an error, set the error flag. */
+                    /* at the end of the stream, set the error flag. */
                     br->error = true;
                 }
+                else if (STATUS_SUCCESS != retval)
+                {
+                    /* if nothing was committed, report this failure. */
+                    if (0 == committed_bytes)
+                    {
+                        goto done;
+                    }
+
+                    /* otherwise, this is only the first part of the line. */
+                    *bbuf = 0;
+                    *buffer_size = committed_bytes;
+                    retval = ERROR_PSOCK_BR_READ_LINE_TRUNCATED;
+                    goto done;
+                }
             }
 
             /* if the error flag is set... */
-- 
2.43.0


From a7dd7073870eab560efccd8a81b6c9f6dac1f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 44/49] fix: keep each container's allocator when swapping
 containers

---
 src/list/list_swap.c     | 4 ++++
 src/rbtree/rbtree_swap.c | 4 ++++
 src/slist/slist_swap.c   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index bf7b3e7..258fa80 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,10 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance is still reclaimed by the allocator that created it. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* the swapped nodes now belong to the other list. */
     for (list_node* n = left->head; NULL != n; n = n->next)
     {
diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 8b170f6..f96ac91 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -51,6 +51,10 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance is still reclaimed by the allocator that created it. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* each tree embeds its sentinel, so the swapped contents must be updated to
      * refer to the sentinel of the tree that now owns them. */
     rbtree_adopt_nil(left, &right->nil_impl);
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index eb3efee..7ff298a 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,10 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance is still reclaimed by the allocator that created it. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* the swapped nodes now belong to the other slist. */
     for (slist_node* n = left->head; NULL != n; n = n->next)
     {
-- 
2.43.0


From 8fd7932bad7c03da9aa7f8d1fdab1f17262e7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 45/49] fix: forget a socket whose wait was interrupted when
 polling with epoll

---
 ...ler_disciplined_read_wait_callback_handler.c | 17 ++++++++++++++---
 ...ler_disciplined_read_wait_callback_handler.c |  4 +++-
 ...ler_disciplined_read_wait_callback_handler.c |  4 +++-
 src/psock/psock_internal.h                      |  7 ++++---
 src/psock/psock_read_block.c                    |  4 ++--
 src/psock/psock_write_block.c                   |  4 ++--
 6 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index d76cbca..45e90d6 100644
--- a/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -93,11 +93,22 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(
  *
  * \param context       The user context for the psock I/O discipline.
  * \param fib           The fiber that no longer waits.
+ * \param sock          The wrapped socket on which it waited.
  */
 void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib)
+    void* context, RCPR_SYM(fiber)* fib, psock_wrap_async* sock)
 {
-    /* an event for a socket on which no fiber waits is ignored. */
-    (void)context;
+    psock_io_epoll_context* ctx = (psock_io_epoll_context*)context;
+    psock_from_descriptor* desc = (psock_from_descriptor*)sock->wrapped;
+    struct epoll_event event;
     (void)fib;
+
+    /* if no other fiber waits on this socket, forget the socket.  The kernel
+     * only does this when the last duplicate of the descriptor is closed, which
+     * could be after the socket has been released. */
+    if (NULL == sock->read_block_fib && NULL == sock->write_block_fib)
+    {
+        memset(&event, 0, sizeof(event));
+        (void)epoll_ctl(ctx->ep, EPOLL_CTL_DEL, desc->descriptor, &event);
+    }
 }
diff --git a/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index 1b683e9..4bbf319 100644
--- a/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -85,11 +85,13 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(
  *
  * \param context       The user context for the psock I/O discipline.
  * \param fib           The fiber that no longer waits.
+ * \param sock          The wrapped socket on which it waited.
  */
 void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib)
+    void* context, RCPR_SYM(fiber)* fib, psock_wrap_async* sock)
 {
     /* TODO - delete the pending kevent. */
     (void)context;
     (void)fib;
+    (void)sock;
 }
diff --git a/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index b06601e..1e068c7 100644
--- a/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/poll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -102,12 +102,14 @@ done:
  *
  * \param context       The user context for the psock I/O discipline.
  * \param fib           The fiber that no longer waits.
+ * \param sock          The wrapped socket on which it waited.
  */
 void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib)
+    void* context, RCPR_SYM(fiber)* fib, psock_wrap_async* sock)
 {
     psock_io_poll_context* ctx = (psock_io_poll_context*)context;
     size_t new_curr = 0;
+    (void)sock;
 
     /* remove each entry belonging to this fiber. */
     for (size_t i = 0; i < ctx->poll_curr; ++i)
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index 692aae7..b33fb40 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -383,9 +383,10 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_write_wait_callback_handler)(
  *
  * \param context       The user context for the psock I/O discipline.
  * \param fib           The fiber that no longer waits.
+ * \param sock          The wrapped socket on which it waited.
  */
 void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib);
+    void* context, RCPR_SYM(fiber)* fib, RCPR_SYM(psock_wrap_async)* sock);
 
 /**
  * \brief The entry point for the psock idle fiber.
@@ -645,8 +646,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
             return \
                 RCPR_SYM(psock_fiber_scheduler_discipline_create)(w,x,y,z); } \
     static inline void psock_fiber_scheduler_disciplined_wait_cancel( \
-        void* x, RCPR_SYM(fiber)* y) { \
-            RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(x,y); } \
+        void* x, RCPR_SYM(fiber)* y, RCPR_SYM(psock_wrap_async)* z) { \
+            RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(x,y,z); } \
     static inline status \
     psock_fiber_scheduler_disciplined_read_wait_callback_handler( \
         void* w, RCPR_SYM(fiber)* x, int y, void* z) { \
diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 533c5f3..e1ade70 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -110,7 +110,7 @@ RCPR_SYM(psock_read_block)(
         {
             psock_fiber_scheduler_disciplined_wait_cancel(
                 fiber_scheduler_discipline_context_get(s->psock_discipline),
-                current_fib);
+                current_fib, s);
             return retval;
         }
 
@@ -124,7 +124,7 @@ RCPR_SYM(psock_read_block)(
             /* this fiber no longer waits on this socket. */
             psock_fiber_scheduler_disciplined_wait_cancel(
                 fiber_scheduler_discipline_context_get(s->psock_discipline),
-                current_fib);
+                current_fib, s);
 
             /* try to call the unexpected event handler. */
             retval =
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index be20115..d46abdd 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -107,7 +107,7 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
         {
             psock_fiber_scheduler_disciplined_wait_cancel(
                 fiber_scheduler_discipline_context_get(s->psock_discipline),
-                current_fib);
+                current_fib, s);
             return retval;
         }
 
@@ -121,7 +121,7 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
             /* this fiber no longer waits on this socket. */
             psock_fiber_scheduler_disciplined_wait_cancel(
                 fiber_scheduler_discipline_context_get(s->psock_discipline),
-                current_fib);
+                current_fib, s);
 
             /* try to call the unexpected event handler. */
             retval =
-- 
2.43.0


From e8cd070c34c6d7a2677ed32b947d0dd9f0ac1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 46/49] fix: refuse a vtable pointer at the end of the vtable
 section

---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From e542daaf534fc31ad339f10640879a9727fb139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 47/49] fix: keep polling when kevent is interrupted

---
 src/psock/platform/kqueue/psock_idle_fiber_entry.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/psock/platform/kqueue/psock_idle_fiber_entry.c b/src/psock/platform/kqueue/psock_idle_fiber_entry.c
index baeb7e9..05e2e65 100644
--- a/src/psock/platform/kqueue/psock_idle_fiber_entry.c
+++ b/src/psock/platform/kqueue/psock_idle_fiber_entry.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <errno.h>
 #include <rcpr/fiber/disciplines/psock_io.h>
 #include <rcpr/model_assert.h>
 #include <sys/types.h>
@@ -44,7 +45,13 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             kevent(
                 ctx->kq, ctx->kevent_inputs, ctx->inputs,
                 ctx->kevent_outputs, MAX_KEVENT_OUTPUTS, NULL);
-        if (nev < 0)
+        if (nev < 0 && errno == EINTR)
+        {
+            /* the inputs are consumed before kevent waits. */
+            ctx->inputs = 0;
+            continue;
+        }
+        else if (nev < 0)
         {
             retval = ERROR_PSOCK_KEVENT_FAILED;
             goto done;
-- 
2.43.0


From 985e062d65aed28e30da910f89a59cb12ec8647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 48/49] fix: forget an interrupted socket wait in the kqueue
 back end

---
 ...r_disciplined_read_wait_callback_handler.c | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c b/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
index 4bbf319..e594d6b 100644
--- a/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
+++ b/src/psock/platform/kqueue/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c
@@ -90,8 +90,33 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_read_wait_callback_handler)(
 void RCPR_SYM(psock_fiber_scheduler_disciplined_wait_cancel)(
     void* context, RCPR_SYM(fiber)* fib, psock_wrap_async* sock)
 {
-    /* TODO - delete the pending kevent. */
-    (void)context;
-    (void)fib;
-    (void)sock;
+    psock_io_kqueue_context* ctx = (psock_io_kqueue_context*)context;
+    psock_from_descriptor* desc = (psock_from_descriptor*)sock->wrapped;
+    struct kevent event;
+    int new_inputs = 0;
+
+    /* forget events for this fiber which have not yet been submitted. */
+    for (int i = 0; i < ctx->inputs; ++i)
+    {
+        if (fib != (RCPR_SYM(fiber)*)ctx->kevent_inputs[i].udata)
+        {
+            ctx->kevent_inputs[new_inputs] = ctx->kevent_inputs[i];
+            ++new_inputs;
+        }
+    }
+    ctx->inputs = new_inputs;
+
+    /* delete the read event, unless another fiber waits for it. */
+    if (NULL == sock->read_block_fib)
+    {
+        EV_SET(&event, desc->descriptor, EVFILT_READ, EV_DELETE, 0, 0, NULL);
+        (void)kevent(ctx->kq, &event, 1, NULL, 0, NULL);
+    }
+
+    /* delete the write event, unless another fiber waits for it. */
+    if (NULL == sock->write_block_fib)
+    {
+        EV_SET(&event, desc->descriptor, EVFILT_WRITE, EV_DELETE, 0, 0, NULL);
+        (void)kevent(ctx->kq, &event, 1, NULL, 0, NULL);
+    }
 }
-- 
2.43.0


From f09b0ac88eac3cf85d5a869b4e1792c439f16e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 49/49] fix: report a node that could not be released when
 popping

---
 src/list/list_pop.c             | 11 +++++++----
 src/slist/slist_node_next_pop.c | 11 +++++++----
 src/slist/slist_pop.c           | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..5db9e36 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,14 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..f7f5d02 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,14 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..0e508e8 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,14 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0

