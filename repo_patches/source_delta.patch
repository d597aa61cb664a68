From 8a8e3cf6dd02fef270062d26dab348e70d745ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 01/35] fix: run equal-priority updates in the order requested

The priority queue is a binary heap and not stable, so three or more equal
updates could render out of order and an older root render could win.
---
 src/runtime.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..34ab011 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -611,7 +611,11 @@ function compareUpdates(update1: Update, update2: Update): number {
   }
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
-  return level1 - level2;
+  if (level1 !== level2) {
+    return level1 - level2;
+  }
+  // The heap is not stable; keep equal updates in the order requested.
+  return update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From ac980430ba9df6a57b9ac487e605e5659fc7ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 02/35] fix: do not strand staged updates behind unstaged ones

A callback firing for a low-priority update found an unstaged update of
higher priority at the head of the queue, gave up, and cleared the staged
lanes, so the update never ran. Callbacks are also shared only between
updates with the same lanes, otherwise an update could be staged piecewise
and lose the lanes staged first.
---
 src/runtime.ts | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 34ab011..ac1875c 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -42,7 +42,7 @@ export class Runtime implements Renderer, Dispatcher {
   _updateBatch: Update[] = [];
   private readonly _adapter: HostAdapter;
   private readonly _middlewares: Middleware[] = [];
-  private _pendingLanes: number = NoLanes;
+  private readonly _pendingLanes: Set<Lanes> = new Set();
   private _stagedLanes: number = NoLanes;
   private _flushLanes: number = NoLanes;
   private _identifierCount: number = 0;
@@ -277,15 +277,20 @@ export class Runtime implements Renderer, Dispatcher {
       transaction,
     });
 
-    if (((this._pendingLanes | this._stagedLanes) & lanes) !== lanes) {
+    // A callback is shared only by updates with the same lanes, so that the
+    // callback of every update stages all of its lanes at once.
+    if (
+      (this._stagedLanes & lanes) !== lanes &&
+      !this._pendingLanes.has(lanes)
+    ) {
       const callback = () => {
-        this._pendingLanes &= ~lanes;
+        this._pendingLanes.delete(lanes);
         this._stagedLanes |= lanes;
         if (this._flushLanes === NoLanes) {
           this._flush();
         }
       };
-      this._pendingLanes |= lanes;
+      this._pendingLanes.add(lanes);
       if (lanes & SyncLane) {
         queueMicrotask(callback);
       } else {
@@ -515,14 +520,23 @@ export class Runtime implements Renderer, Dispatcher {
       // Only updates of equal priority are batched. The queue is lane-ordered,
       // so a UserHandlerLane update is followed only by equal/lower-priority
       // updates; stopping there commits it as its own batch.
+      const deferredUpdates: Update[] = [];
       do {
         const update = this._updateQueue.peek();
+        if (update === undefined) {
+          break;
+        }
         if (
-          update === undefined ||
-          ((update.lanes & this._stagedLanes) !== update.lanes &&
-            getHighestPriorityLane(this._flushLanes) <
-              getHighestPriorityLane(update.lanes))
+          (update.lanes & this._stagedLanes) !== update.lanes &&
+          getHighestPriorityLane(this._flushLanes) <
+            getHighestPriorityLane(update.lanes)
         ) {
+          if (this._flushLanes === NoLanes) {
+            // The update is not staged yet. Set it aside so that it does not
+            // hide staged updates of lower priority behind it.
+            deferredUpdates.push(this._updateQueue.dequeue()!);
+            continue;
+          }
           // The update is not staged yet and lower-priority than the batch;
           // defer it so it commits as its own batch.
           break;
@@ -531,6 +545,10 @@ export class Runtime implements Renderer, Dispatcher {
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
 
+      for (const update of deferredUpdates) {
+        this._updateQueue.enqueue(update);
+      }
+
       if (this._flushLanes === NoLanes) {
         break;
       }
-- 
2.43.0


From 1826ac96fc0bcc838bd0cb3429466b3265f054d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 03/35] fix: commit an update through its handler when a sync
 update precedes it

The handler was ignored when its update joined a batch started by a sync
update, because the batch commits synchronously.
---
 src/runtime.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime.ts b/src/runtime.ts
index ac1875c..f287ea5 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -541,6 +541,14 @@ export class Runtime implements Renderer, Dispatcher {
           // defer it so it commits as its own batch.
           break;
         }
+        if (
+          this._flushLanes !== NoLanes &&
+          update.lanes & UserHandlerLane
+        ) {
+          // The batch commits without the handler; leave the update to a batch
+          // of its own, which commits through it.
+          break;
+        }
         this._flushLanes |= update.lanes;
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
-- 
2.43.0


From ce6d4914014cb114c652f06222f93cc16c4c9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 04/35] fix: render ancestors before descendants within a batch

A batch may mix priorities. When a descendant rendered first, its parent
rendered it again, and both results were mounted. Preparing a component
update also no longer touches the committed node, so that a batch that
fails leaves no half-prepared children behind.
---
 src/component.ts | 11 +++++++++--
 src/runtime.ts   | 15 +++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..5cefff3 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -509,10 +509,17 @@ class UpdateComponent implements Transaction {
     }
     const subScope = node.state.scope.enter(node.type);
     const newElement = node.state.instance.render(node.props, subScope, lanes);
-    node.left = [renderer.diff(node.right[0]!, newElement, subScope, 0, node)];
+    const newChild = renderer.diff(
+      node.right[0]!,
+      newElement,
+      subScope,
+      0,
+      node,
+    );
     return () => {
       if (node.parent !== null) {
-        patch(node.right[0]!, node.left[0]!);
+        node.left = [newChild];
+        patch(node.right[0]!, newChild);
         node.state.instance.connect(node);
         node.right = node.left;
       }
diff --git a/src/runtime.ts b/src/runtime.ts
index f287ea5..827400a 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -561,6 +561,10 @@ export class Runtime implements Renderer, Dispatcher {
         break;
       }
 
+      // The batch may mix priorities. Render ancestors before descendants, so
+      // that descendants already rendered by an ancestor are skipped.
+      this._updateBatch.sort(compareLevels);
+
       try {
         const commitBatch: Commit[] = [];
 
@@ -629,16 +633,19 @@ function buildKeyToIndexMap<T>(
   return keyToIndexMap;
 }
 
+function compareLevels(update1: Update, update2: Update): number {
+  return update1.transaction.scope.level - update2.transaction.scope.level;
+}
+
 function compareUpdates(update1: Update, update2: Update): number {
   const highestLane1 = getHighestPriorityLane(update1.lanes);
   const highestLane2 = getHighestPriorityLane(update2.lanes);
   if (highestLane1 !== highestLane2) {
     return highestLane1 - highestLane2;
   }
-  const level1 = update1.transaction.scope.level;
-  const level2 = update2.transaction.scope.level;
-  if (level1 !== level2) {
-    return level1 - level2;
+  const levelDifference = compareLevels(update1, update2);
+  if (levelDifference !== 0) {
+    return levelDifference;
   }
   // The heap is not stable; keep equal updates in the order requested.
   return update1.id - update2.id;
-- 
2.43.0


From ea05eb8c23fcdd4e5401a6a4a424d77cf9c07bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 05/35] fix: give every update of a root a batch of its own

An unmount followed by a render in the same batch rendered against the tree
about to be removed, and the root ended up empty or with dead components.
---
 src/runtime.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 827400a..1208ade 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -543,10 +543,12 @@ export class Runtime implements Renderer, Dispatcher {
         }
         if (
           this._flushLanes !== NoLanes &&
-          update.lanes & UserHandlerLane
+          (update.lanes & UserHandlerLane ||
+            (update.transaction.scope.level === 0 &&
+              this._updateBatch.some((other) => isSameOwner(other, update))))
         ) {
-          // The batch commits without the handler; leave the update to a batch
-          // of its own, which commits through it.
+          // The batch commits without the handler, or already renders the same
+          // root; leave the update to a batch of its own.
           break;
         }
         this._flushLanes |= update.lanes;
@@ -651,6 +653,10 @@ function compareUpdates(update1: Update, update2: Update): number {
   return update1.id - update2.id;
 }
 
+function isSameOwner(update1: Update, update2: Update): boolean {
+  return update1.transaction.scope.owner === update2.transaction.scope.owner;
+}
+
 function runPipeline(
   update: Update,
   middlewares: Middleware[],
-- 
2.43.0


From 7fd8adff05454983d2f27838ed299704ff3fb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 06/35] fix: do not compute a state eagerly while skipped
 actions are outstanding

With a lower-priority action still to be applied, the eager state ignored it
or dropped the new action as having no effect, and the final state was wrong.
---
 src/component.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 5cefff3..1d4d840 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -374,7 +374,12 @@ export class RenderContext {
           const { pendingActions, currentState, reducer } = dispatcher;
           let eagerState: TState | undefined;
 
-          if (pendingActions.length === 0) {
+          // The next state is only known when no skipped action has yet to be
+          // applied before this one.
+          if (
+            pendingActions.length === 0 &&
+            newHook.memoizedActions.length === 0
+          ) {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
@@ -400,12 +405,13 @@ export class RenderContext {
         currentState: getInitialState(initialState),
         pendingActions: [],
       };
-      currentHook = {
+      const newHook: Hook.ReducerHook<TState, TAction> = {
         type: HookType.REDUCER,
         memoizedState: dispatcher.currentState,
         memoizedActions: [],
         dispatcher,
       };
+      currentHook = newHook;
       this._hooks.push(currentHook);
     }
 
-- 
2.43.0


From b344416244e70e7c271c200cc5786a44503feeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 07/35] fix: keep an update pending while its action is partly
 covered

An action with several lanes could have its lanes cleared piecewise by
renders which all skipped it; its own update was then taken as done and the
action was lost.
---
 src/component.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 1d4d840..f895c1c 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -354,8 +354,13 @@ export class RenderContext {
         if ((lanes & renderLanes) === lanes) {
           nextState = action.eagerState ?? reducer(nextState, payload);
           action.lanes = revertLanes;
-        } else if ((revertLanes & renderLanes) === revertLanes) {
-          action.revertLanes = NoLanes;
+        } else {
+          if ((revertLanes & renderLanes) === revertLanes) {
+            action.revertLanes = NoLanes;
+          }
+          // Renders covering only some lanes of a skipped action must not make
+          // its own update look done.
+          this._instance._pendingLanes |= lanes & ~renderLanes;
         }
         skipLanes |= (lanes & ~renderLanes) | (revertLanes & renderLanes);
       }
-- 
2.43.0


From 0c4550d58b53c3005346382d8979dadcaadba2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 08/35] fix: render a component again after a batch failed to
 commit it

A component rendered in a failing batch had its pending state consumed, and
the next render of its parent skipped it and left the old output in place.
---
 src/component.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index f895c1c..ec1be97 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -20,7 +20,7 @@ import {
 import { patch } from './commit.js';
 import { areDependenciesChanged, is } from './compare.js';
 import { RenderError } from './error.js';
-import { NoLanes } from './lane.js';
+import { AllLanes, NoLanes } from './lane.js';
 import { createBind, wrap } from './velement.js';
 
 const enum HookType {
@@ -131,6 +131,8 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   /** @internal */
   _pendingLanes: Lanes = NoLanes;
   /** @internal */
+  _isCommitted: boolean = false;
+  /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
   _connectedNode: RenderNode.ComponentNode<TProps> | null = null;
@@ -144,11 +146,14 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   get pendingLanes(): Lanes {
-    return this._pendingLanes;
+    // A render whose batch failed has consumed state and effects that are yet to
+    // be committed, so the next render must not be skipped.
+    return this._isCommitted ? this._pendingLanes : AllLanes;
   }
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
     this._pendingLanes &= ~lanes;
+    this._isCommitted = false;
     if (this._context !== null) {
       this._context._scope = scope;
       this._context._lanes = lanes;
@@ -181,6 +186,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
       }
     }
     this._connectedNode = node;
+    this._isCommitted = true;
   }
 
   disconnect(): void {
-- 
2.43.0


From 83c9190ebf9b532333961a8bf581b3f1bc6258db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 09/35] fix: place list items by the nodes that follow them in
 the new tree

Positions were taken from siblings that were yet to move, be replaced or be
removed, so nested or mixed lists ended up in the wrong order or failed with
NotFoundError. Keys are compared with Object.is throughout, as when diffing.
---
 src/base.ts    |  2 --
 src/commit.ts  | 87 +++++++++++++++++++++++++++++---------------------
 src/runtime.ts |  5 ---
 3 files changed, 50 insertions(+), 44 deletions(-)

diff --git a/src/base.ts b/src/base.ts
index 7803f46..d49d64e 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -77,7 +77,6 @@ export type Mutation =
   | {
       type: MutationType.INSERT;
       node: RenderNode;
-      afterNode: RenderNode | undefined;
     }
   | {
       type: MutationType.UPDATE;
@@ -89,7 +88,6 @@ export type Mutation =
       type: MutationType.UPDATE_AND_MOVE;
       oldNode: RenderNode;
       newNode: RenderNode;
-      afterNode: RenderNode | undefined;
       index: number;
     }
   | {
diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..5831e41 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,9 +1,11 @@
 import {
   Bind,
+  type Mutation,
   MutationType,
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -31,6 +33,24 @@ function afterCommit(node: RenderNode): void {
   node.right = node.left;
 }
 
+function applyMutation(mutation: Mutation, parent: RenderNode): void {
+  switch (mutation.type) {
+    case MutationType.INSERT:
+      mountChild(mutation.node, getSiblingDOMNode(mutation.node));
+      break;
+    case MutationType.UPDATE:
+      applyPatch(mutation.oldNode, mutation.newNode, mutation.index, parent);
+      break;
+    case MutationType.UPDATE_AND_MOVE:
+      applyPatch(mutation.oldNode, mutation.newNode, mutation.index, parent);
+      moveChild(mutation.newNode, getSiblingDOMNode(mutation.newNode));
+      break;
+    case MutationType.REMOVE:
+      unmountChild(mutation.node);
+      break;
+  }
+}
+
 function applyPatch(
   oldNode: RenderNode,
   newNode: RenderNode,
@@ -41,7 +61,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
@@ -58,41 +78,26 @@ function applyPatch(
   } else if (typeof newNode.type === 'function') {
     applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
   } else {
+    const children = newNode.left;
+    const mutations: Mutation[] = new Array(children.length);
     for (const mutation of newNode.state.mutations.splice(0)) {
-      switch (mutation.type) {
-        case MutationType.INSERT:
-          mountChild(
-            mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.UPDATE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          break;
-        case MutationType.UPDATE_AND_MOVE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          moveChild(
-            mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.REMOVE:
-          unmountChild(mutation.node);
-          break;
+      if (mutation.type === MutationType.REMOVE) {
+        unmountChild(mutation.node);
+      } else {
+        mutations[getMutationIndex(mutation)] = mutation;
+      }
+    }
+    // Blocks are placed from the last to the first, so that all nodes following
+    // a child are in place when it is mounted or moved. Values have no place,
+    // they are set from the first to the last.
+    for (let i = children.length - 1; i >= 0; i--) {
+      if (children[i]!.type !== Bind) {
+        applyMutation(mutations[i]!, newNode);
+      }
+    }
+    for (let i = 0, l = children.length; i < l; i++) {
+      if (children[i]!.type === Bind) {
+        applyMutation(mutations[i]!, newNode);
       }
     }
   }
@@ -108,14 +113,22 @@ function getChildDOMNode(node: RenderNode): ChildNode | null {
       return domNode;
     }
   }
-  return getSiblingDOMNode(node);
+  return null;
+}
+
+function getMutationIndex(
+  mutation: Exclude<Mutation, { type: MutationType.REMOVE }>,
+): number {
+  return mutation.type === MutationType.INSERT
+    ? mutation.node.index
+    : mutation.index;
 }
 
 function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
+    const children = node.parent!.left;
     for (let i = node.index + 1, l = children.length; i < l; i++) {
       const child = children[i]!;
       if (child.part !== part) {
diff --git a/src/runtime.ts b/src/runtime.ts
index 1208ade..4fefa26 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -363,7 +363,6 @@ export class Runtime implements Renderer, Dispatcher {
           newMutations.push({
             type: MutationType.INSERT,
             node: newChild,
-            afterNode: newChildren[newTail + 1],
           });
           newChildren[newHead] = newChild;
           newHead++;
@@ -432,14 +431,12 @@ export class Runtime implements Renderer, Dispatcher {
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldTail]!,
           newNode: tailChild,
-          afterNode: oldChildren[oldHead],
           index: newHead,
         });
         newMutations.push({
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldHead]!,
           newNode: headChild,
-          afterNode: newChildren[newTail + 1],
           index: newTail,
         });
         newChildren[newHead] = tailChild;
@@ -486,7 +483,6 @@ export class Runtime implements Renderer, Dispatcher {
               type: MutationType.UPDATE_AND_MOVE,
               oldNode: oldChildren[oldIndex]!,
               newNode: newChild,
-              afterNode: newChildren[newTail + 1],
               index: newTail,
             });
             newChildren[newTail] = newChild;
@@ -502,7 +498,6 @@ export class Runtime implements Renderer, Dispatcher {
             newMutations.push({
               type: MutationType.INSERT,
               node: newChild,
-              afterNode: newChildren[newTail + 1],
             });
             newChildren[newTail] = newChild;
           }
-- 
2.43.0


From f5aff618524e81167365ac409192e168281cb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 10/35] fix: mark derivable state dirty before notifying its
 subscribers

A subscriber reading the value was given the old one, and a computed signal
then kept it for good. A replaced value is also compared with the current
one rather than the last one read, and detached before notifying, so that
pending writes below it are neither missed nor applied to the new value.
---
 src/addons/signal/derivable.ts | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..4913a79 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -160,6 +160,8 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  prop._flags |= FLAG_DELETED_PROPERTY;
+  markOwnersDirty(prop);
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
@@ -175,10 +177,8 @@ function deleteProperty<T>(prop: Derivable<T>): void {
         },
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY;
 }
 
 function draftTarget<T>(
@@ -347,6 +347,12 @@ function isNonPrimitive(value: unknown): value is object {
   );
 }
 
+function markOwnersDirty<T>(receiver: Derivable<T>): void {
+  for (let owner = receiver._owner; owner !== null; owner = owner._owner) {
+    owner._flags |= FLAG_DIRTY_VALUE;
+  }
+}
+
 function normalizeKey(key: PropertyKey): NormalizedKey {
   return typeof key === 'number' ? key.toString() : key;
 }
@@ -443,7 +449,19 @@ function resolveProperty<T>(
 }
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
-  const oldValue = receiver._source.value;
+  const oldValue = commitValue(receiver);
+  if (receiver._source instanceof WritableSignal) {
+    // Do this before any subscriber is notified, so that it reads new values.
+    if (receiver._properties !== null) {
+      for (const prop of receiver._properties.values()) {
+        prop._owner = null;
+      }
+      receiver._properties.clear();
+    }
+    receiver._flags |= FLAG_PENDING_VALUE;
+    receiver._flags &= ~FLAG_DELETED_PROPERTY;
+    markOwnersDirty(receiver);
+  }
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
   (receiver._source as WritableSignal<T>).value = newValue;
   for (
@@ -463,17 +481,8 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
         newValue,
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
-    }
-    receiver._properties.clear();
-  }
-  receiver._flags |= FLAG_PENDING_VALUE;
-  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
 
 function shallowClone<T>(target: T): T {
-- 
2.43.0


From 1777a0e6b219c90bc9153744fe8a788184633f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 11/35] fix: drop the captures of routes that are passed over

A route matching a prefix of the path, but without children to continue
with, left its captures behind for the route matching later.
---
 src/addons/router/router.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..0621d0c 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -57,11 +57,12 @@ export class Router<TResult> {
       );
 
       if (captures !== null) {
-        collectedCaptures.push(...captures);
         if (components.length === componentIndex + patterns.length) {
+          collectedCaptures.push(...captures);
           return resolver?.(collectedCaptures, url);
         }
         if (childRoutes.length > 0) {
+          collectedCaptures.push(...captures);
           routes = childRoutes;
           routeIndex = 0;
           componentIndex += patterns.length;
-- 
2.43.0


From 776fc4d3b20c8deaf5becf378ddca5a054896c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 12/35] fix: clear the old attribute value when it becomes true

Toggling leaves an attribute that is already present as it is.
---
 src/dom/part.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..82fa36f 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -58,7 +58,12 @@ export class AttributePart extends DOMPart {
     if (value == null) {
       this._node.removeAttribute(this._name);
     } else if (typeof value === 'boolean') {
-      this._node.toggleAttribute(this._name, value);
+      // Set rather than toggle, to replace a value set before.
+      if (value) {
+        this._node.setAttribute(this._name, '');
+      } else {
+        this._node.removeAttribute(this._name);
+      }
     } else {
       this._node.setAttribute(this._name, toStringOrEmpty(value));
     }
-- 
2.43.0


From 8080e325db3769685b1a6fe6dd285f384608c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 13/35] fix: do not match NaN as an integer

---
 src/addons/router/matchers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..a6c7e12 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -27,7 +27,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return Number.isInteger(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From 30003617460c8861a14e087dbe8899de5b98c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 14/35] fix: do not notify subscribers removed together with
 the current one

Iteration continues from a deleted node over the nodes that followed it,
even if they were deleted after it.
---
 src/addons/signal/linked-list.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..99882d3 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -20,7 +20,10 @@ export class LinkedList<T> implements Iterable<T> {
 
   *[Symbol.iterator](): Generator<T> {
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      // A node deleted during the iteration may still be linked from another.
+      if (node.owner === this) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From d4358ab7cc75a6e944ae6d44f3bcaa50749dac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 15/35] fix: end a transition whose action throws

It was reported as pending for good.
---
 src/addons/hooks.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..714a958 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -113,7 +113,13 @@ export function Transition(): HookFunction<
           setIsPending(false, { transition });
         };
         setIsPending(true, { flushSync: true });
-        const result = action(transition);
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
-- 
2.43.0


From ddbf28b84acbb8ff690fabad469d4cd0ffbf8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 16/35] fix: do not settle updates of a component whose last
 render failed

An update queued while a failing batch rendered its component settled
without the component ever being committed.
---
 src/base.ts      |  1 +
 src/component.ts | 10 +++++++++-
 src/runtime.ts   |  6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/base.ts b/src/base.ts
index d49d64e..aeb9585 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -43,6 +43,7 @@ export interface ComponentInstance<TProps> {
 export type Container = DocumentFragment | Element;
 
 export interface Dispatcher {
+  readonly failureCount: number;
   nextIdentifier(): string;
   nextTransition(): number;
   schedule(transaction: Transaction, options?: UpdateOptions): UpdateHandle;
diff --git a/src/component.ts b/src/component.ts
index ec1be97..b5afcf6 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -133,6 +133,8 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   /** @internal */
   _isCommitted: boolean = false;
   /** @internal */
+  _failureCount: number = 0;
+  /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
   _connectedNode: RenderNode.ComponentNode<TProps> | null = null;
@@ -154,6 +156,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
     this._pendingLanes &= ~lanes;
     this._isCommitted = false;
+    this._failureCount = this._dispatcher.failureCount;
     if (this._context !== null) {
       this._context._scope = scope;
       this._context._lanes = lanes;
@@ -516,7 +519,12 @@ class UpdateComponent implements Transaction {
   }
 
   get pendingLanes(): Lanes {
-    return this._instance._pendingLanes;
+    const instance = this._instance;
+    // Unlike one rendered by the current batch, a component rendered by a batch
+    // that has failed since is yet to be committed.
+    return instance._failureCount === instance._dispatcher.failureCount
+      ? instance._pendingLanes
+      : instance.pendingLanes;
   }
 
   prepare(lanes: Lanes, renderer: Renderer): Commit {
diff --git a/src/runtime.ts b/src/runtime.ts
index 4fefa26..5d96d34 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -46,6 +46,7 @@ export class Runtime implements Renderer, Dispatcher {
   private _stagedLanes: number = NoLanes;
   private _flushLanes: number = NoLanes;
   private _identifierCount: number = 0;
+  private _failureCount: number = 0;
   private _transitionCount: number = 0;
   private _updateCount: number = 0;
 
@@ -158,6 +159,10 @@ export class Runtime implements Renderer, Dispatcher {
     }
   }
 
+  get failureCount(): number {
+    return this._failureCount;
+  }
+
   nextIdentifier(): string {
     return this._adapter.getIdentifier() + '-' + this._identifierCount++;
   }
@@ -596,6 +601,7 @@ export class Runtime implements Renderer, Dispatcher {
           controller.resolve();
         }
       } catch (error) {
+        this._failureCount++;
         for (const { controller } of this._updateBatch) {
           controller.reject(error);
         }
-- 
2.43.0


From 7b81aad8cc15f444f8dedff466a32b0f78767528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 17/35] fix: accept holes in attributes whose case the parser
 adjusts

The parser turns viewbox back into viewBox in svg, which was taken for an
unclosed tag.
---
 src/dom/template.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 9d37626..b12a8f8 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -213,7 +213,7 @@ function collectAttributeHoles(
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
-        if (caseSensitiveName?.toLowerCase() !== name) {
+        if (caseSensitiveName?.toLowerCase() !== name.toLowerCase()) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             `The attribute name must be "${name}", but got "${caseSensitiveName}". There are unclosed tags or duplicate attributes.`,
-- 
2.43.0


From cfa7f0f6c8cf9ea654543cd6ca0257927d9938f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 18/35] fix: keep the case of custom properties in style maps

---
 src/dom/part.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 82fa36f..4552229 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -350,9 +350,12 @@ function normalizeStyle(value: unknown): StyleMap {
  * toCSSProperty('padding-block'); // => 'padding-block'
  */
 function toCSSPropertyName(key: string): string {
-  return key
-    .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
-    .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
+  // Custom properties are case-sensitive.
+  return key.startsWith('--')
+    ? key
+    : key
+        .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
+        .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
 }
 
 function toStringOrEmpty(value: unknown): string {
-- 
2.43.0


From 9fb06ea8cba3cfe2d94d656295d707d2f4b58ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 19/35] fix: do not run effects left by a failed render of a
 component that is kept

---
 src/commit.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index 5831e41..79daf53 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -18,7 +18,11 @@ export function unmount(node: RenderNode): void {
 
 export function patch(oldNode: RenderNode, newNode: RenderNode) {
   applyPatch(oldNode, newNode, newNode.index, newNode.parent);
-  afterCommit(newNode);
+  // A node kept as it is has nothing to commit, though a render of it that
+  // failed may have left effects to run.
+  if (!isCommitted(newNode)) {
+    afterCommit(newNode);
+  }
 }
 
 function afterCommit(node: RenderNode): void {
-- 
2.43.0


From c9a3cfe0cfc252ca83e1758fe6b8b1c98334223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 20/35] fix: tell compositions of partials apart by how their
 strings are split

---
 src/velement.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..07d718e 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -53,7 +53,8 @@ export class Partial {
       const value = values[i]!;
       if (value instanceof Partial) {
         literalStrings.push(...value.strings);
-        literalPositions.push(i);
+        // One position per string, to tell how the strings are distributed.
+        literalPositions.push(...value.strings.map(() => i));
         flattenedValues.push(...value.values);
       } else {
         flattenedValues.push(value);
-- 
2.43.0


From a47485e43e3612fac3d1b3f519a78f2d05062dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 21/35] fix: let drafts assign properties having a setter

---
 src/addons/signal/derivable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 4913a79..13ce37c 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -335,7 +335,7 @@ function getPropertyFlags(descriptor: PropertyDescriptor): number {
   if (descriptor.enumerable) {
     flags |= FLAG_ENUMERABLE_PROPERTY;
   }
-  if (descriptor.writable) {
+  if (descriptor.writable || descriptor.set !== undefined) {
     flags |= FLAG_WRITABLE_PROPERTY;
   }
   return flags;
-- 
2.43.0


From 60cf8925ed18a703ce583725f3b934310e6772e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 22/35] fix: do not show properties in drafts that were only
 looked up

---
 src/addons/signal/derivable.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 13ce37c..7c5821d 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -372,7 +372,9 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        // Absent until it is assigned.
+        FLAG_DELETED_PROPERTY,
     );
   }
 
-- 
2.43.0


From 09f677b094a79adb68abe57f2be4f06d21b57e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 23/35] fix: do not call setters again when a derivable value
 is committed

---
 src/addons/signal/derivable.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 7c5821d..5f6cc01 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -148,7 +148,13 @@ function commitValue<T>(receiver: Derivable<T>): T {
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         delete (pendingValue as any)[key];
       } else if (prop._flags & FLAG_PENDING_VALUE) {
-        (pendingValue as any)[key] = prop.value;
+        // What was assigned to an accessor has been assigned by its setter.
+        if (
+          !(prop._source instanceof Accessor) ||
+          prop._flags & FLAG_NEEDS_COMMIT
+        ) {
+          (pendingValue as any)[key] = prop.value;
+        }
         prop._flags &= ~FLAG_PENDING_VALUE;
       }
     }
-- 
2.43.0


From 61eefb7040b574c95f11898e82c52276616422eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 24/35] fix: make a deleted property of derivable state
 undefined

---
 src/addons/signal/derivable.ts | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 5f6cc01..38d92e8 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -166,8 +166,21 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
-  prop._flags |= FLAG_DELETED_PROPERTY;
+  const detached = prop._owner === null || prop._flags & FLAG_DELETED_PROPERTY;
+  // When it is assigned again, it is not among the committed properties.
+  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
   markOwnersDirty(prop);
+  if (!detached && prop._source instanceof Atom) {
+    // The property itself has become undefined.
+    commitValue(prop);
+    detachProperties(prop);
+    prop._source.write(undefined);
+    prop._source.invalidate({
+      type: 'delete',
+      source: prop._source,
+      path: [],
+    });
+  }
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
@@ -187,6 +200,15 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   }
 }
 
+function detachProperties<T>(receiver: Derivable<T>): void {
+  if (receiver._properties !== null) {
+    for (const prop of receiver._properties.values()) {
+      prop._owner = null;
+    }
+    receiver._properties.clear();
+  }
+}
+
 function draftTarget<T>(
   receiver: Derivable<T>,
   target: T & object,
@@ -460,12 +482,7 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   const oldValue = commitValue(receiver);
   if (receiver._source instanceof WritableSignal) {
     // Do this before any subscriber is notified, so that it reads new values.
-    if (receiver._properties !== null) {
-      for (const prop of receiver._properties.values()) {
-        prop._owner = null;
-      }
-      receiver._properties.clear();
-    }
+    detachProperties(receiver);
     receiver._flags |= FLAG_PENDING_VALUE;
     receiver._flags &= ~FLAG_DELETED_PROPERTY;
     markOwnersDirty(receiver);
-- 
2.43.0


From b1452fa84e777d779569451b3c1e1b03928101a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 25/35] fix: a component updated while its batch renders was
 rendered with old props

A descendant whose queued update had been rendered by an ancestor was rendered
again, with the props committed before, when another update was requested on it
while the batch was rendering.
---
 src/component.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index b5afcf6..d466b0f 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -520,11 +520,15 @@ class UpdateComponent implements Transaction {
 
   get pendingLanes(): Lanes {
     const instance = this._instance;
-    // Unlike one rendered by the current batch, a component rendered by a batch
-    // that has failed since is yet to be committed.
-    return instance._failureCount === instance._dispatcher.failureCount
-      ? instance._pendingLanes
-      : instance.pendingLanes;
+    if (
+      !instance._isCommitted &&
+      instance._failureCount === instance._dispatcher.failureCount
+    ) {
+      // The current batch has rendered the component already. What has been
+      // requested since is left to the next one.
+      return NoLanes;
+    }
+    return instance.pendingLanes;
   }
 
   prepare(lanes: Lanes, renderer: Renderer): Commit {
-- 
2.43.0


From f5d655fc5a0e863430925e64bbc18f0b599f8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 26/35] fix: honor the delay of callbacks when
 scheduler.postTask is unavailable

---
 src/dom/adapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index b383209..81887f4 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -57,6 +57,10 @@ export class DOMAdapter implements HostAdapter {
       return scheduler.postTask(callback, options);
     } else {
       return new Promise((resolve) => {
+        if (options?.delay) {
+          setTimeout(resolve, options.delay);
+          return;
+        }
         switch (options?.priority) {
           case 'user-blocking': {
             const channel = new MessageChannel();
-- 
2.43.0


From 06da303ebe8128a17e372984e92faecd9af07cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 27/35] fix: a getter of derivable state kept to the
 dependencies it had at first

---
 src/addons/signal/derivable.ts | 99 ++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 35 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 38d92e8..930c1f0 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -136,6 +136,51 @@ export class Shallow<T> extends Signal<T> {
   }
 }
 
+/** A computed signal of which the dependencies are found by computing it. */
+class Getter<T> extends Computed<T> {
+  private readonly _sources: Signal<any>[];
+  private readonly _subscriptions: Set<[Subscriber, Unsubscribe[]]>;
+
+  constructor(getter: (track: (source: Signal<any>) => void) => T) {
+    const sources: Signal<any>[] = [];
+    const subscriptions = new Set<[Subscriber, Unsubscribe[]]>();
+    const track = (source: Signal<any>) => {
+      // Which sources are read may differ every time.
+      if (!sources.includes(source)) {
+        sources.push(source);
+        for (const [subscriber, unsubscribes] of subscriptions) {
+          unsubscribes.push(source.subscribe(subscriber));
+        }
+      }
+    };
+    const initialResult = getter(track);
+    const initialVersion = sources.reduce(
+      (version, source) => version + source.version,
+      0,
+    );
+    super(() => getter(track), sources, initialResult, initialVersion);
+    this._sources = sources;
+    this._subscriptions = subscriptions;
+  }
+
+  override subscribe(subscriber: Subscriber): Unsubscribe {
+    const unsubscribes = this._sources.map((source) =>
+      source.subscribe(subscriber),
+    );
+    const subscription: [Subscriber, Unsubscribe[]] = [
+      subscriber,
+      unsubscribes,
+    ];
+    this._subscriptions.add(subscription);
+    return () => {
+      this._subscriptions.delete(subscription);
+      for (const unsubscribe of unsubscribes) {
+        unsubscribe();
+      }
+    };
+  }
+}
+
 export function unwrap<T>(value: T): T {
   return (value as any)?.[UNWRAP_TAG] ?? value;
 }
@@ -436,43 +481,27 @@ function resolveProperty<T>(
   }
 
   if (get !== undefined) {
-    const dependencies: Signal<any>[] = [];
-    const { proxy, revoke } = draftTarget(
+    return new Derivable(
+      new Getter((track) => {
+        const { proxy, revoke } = draftTarget(
+          receiver,
+          target,
+          (receiver, target, key) => {
+            const prop = getProperty(receiver, target, key);
+            track(prop._source);
+            return prop;
+          },
+        );
+        try {
+          return finalizeValue(get.call(proxy));
+        } finally {
+          revoke();
+        }
+      }),
       receiver,
-      target,
-      (receiver, target, key) => {
-        const prop = getProperty(receiver, target, key);
-        dependencies.push(prop._source);
-        return prop;
-      },
+      key,
+      flags,
     );
-    try {
-      const initialResult = finalizeValue(get.call(proxy));
-      const initialVersion = dependencies.reduce(
-        (version, dependency) => version + dependency.version,
-        0,
-      );
-      return new Derivable(
-        new Computed(
-          () => {
-            const { proxy, revoke } = draftTarget(receiver, target);
-            try {
-              return finalizeValue(get.call(proxy));
-            } finally {
-              revoke();
-            }
-          },
-          dependencies,
-          initialResult,
-          initialVersion,
-        ),
-        receiver,
-        key,
-        flags,
-      );
-    } finally {
-      revoke();
-    }
   }
 
   return new Derivable(new Atom(value), receiver, key, flags);
-- 
2.43.0


From d3454527dc54743ac669b9d730162e4817b5d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 28/35] fix: finish a commit in which something throws

An effect, a cleanup or a reference that throws stopped the commit half way:
what was mounted was mounted again by the next render, cleanups ran twice, and
the effects of other components were lost. Finish the commit and throw the
first error then.
---
 src/commit.ts    | 140 ++++++++++++++++++++++++++++++++++-------------
 src/component.ts |  31 ++++++++---
 src/dom/part.ts  |  11 ++--
 src/dom/root.ts  |  17 +++---
 4 files changed, 141 insertions(+), 58 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 79daf53..1073e90 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -7,50 +7,90 @@ import {
 } from './base.js';
 import { is } from './compare.js';
 
+// What a commit runs may throw. The commit is finished nevertheless, as it can
+// neither be undone nor be repeated, and throws the first error then.
+
+export function attempt(callback: () => void, errors: unknown[]): void {
+  try {
+    callback();
+  } catch (error) {
+    errors.push(error);
+  }
+}
+
+export function throwFirst(errors: unknown[]): void {
+  if (errors.length > 0) {
+    throw errors[0];
+  }
+}
+
 export function mount(node: RenderNode): void {
-  mountChild(node, null);
-  afterCommit(node);
+  const errors: unknown[] = [];
+  mountChild(node, null, errors);
+  afterCommit(node, errors);
+  throwFirst(errors);
 }
 
 export function unmount(node: RenderNode): void {
-  unmountChild(node);
+  const errors: unknown[] = [];
+  unmountChild(node, errors);
+  throwFirst(errors);
 }
 
 export function patch(oldNode: RenderNode, newNode: RenderNode) {
-  applyPatch(oldNode, newNode, newNode.index, newNode.parent);
+  const errors: unknown[] = [];
+  applyPatch(oldNode, newNode, newNode.index, newNode.parent, errors);
   // A node kept as it is has nothing to commit, though a render of it that
   // failed may have left effects to run.
   if (!isCommitted(newNode)) {
-    afterCommit(newNode);
+    afterCommit(newNode, errors);
   }
+  throwFirst(errors);
 }
 
-function afterCommit(node: RenderNode): void {
+function afterCommit(node: RenderNode, errors: unknown[]): void {
   for (const child of node.left) {
     if (!isCommitted(child)) {
-      afterCommit(child);
+      afterCommit(child, errors);
     }
   }
   if (typeof node.type === 'function') {
-    node.state.instance.connect(node);
+    const { instance } = node.state;
+    attempt(() => instance.connect(node), errors);
   }
   node.right = node.left;
 }
 
-function applyMutation(mutation: Mutation, parent: RenderNode): void {
+function applyMutation(
+  mutation: Mutation,
+  parent: RenderNode,
+  errors: unknown[],
+): void {
   switch (mutation.type) {
     case MutationType.INSERT:
-      mountChild(mutation.node, getSiblingDOMNode(mutation.node));
+      mountChild(mutation.node, getSiblingDOMNode(mutation.node), errors);
       break;
     case MutationType.UPDATE:
-      applyPatch(mutation.oldNode, mutation.newNode, mutation.index, parent);
+      applyPatch(
+        mutation.oldNode,
+        mutation.newNode,
+        mutation.index,
+        parent,
+        errors,
+      );
       break;
     case MutationType.UPDATE_AND_MOVE:
-      applyPatch(mutation.oldNode, mutation.newNode, mutation.index, parent);
-      moveChild(mutation.newNode, getSiblingDOMNode(mutation.newNode));
+      applyPatch(
+        mutation.oldNode,
+        mutation.newNode,
+        mutation.index,
+        parent,
+        errors,
+      );
+      moveChild(mutation.newNode, getSiblingDOMNode(mutation.newNode), errors);
       break;
     case MutationType.REMOVE:
-      unmountChild(mutation.node);
+      unmountChild(mutation.node, errors);
       break;
   }
 }
@@ -60,33 +100,39 @@ function applyPatch(
   newNode: RenderNode,
   index: number,
   parent: RenderNode | RenderRoot | null,
+  errors: unknown[],
 ): void {
   if (oldNode === newNode && isCommitted(oldNode)) {
     reparentChild(oldNode, index, parent);
     return;
   }
   if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
-    unmountChild(oldNode);
-    mountChild(newNode, getSiblingDOMNode(newNode));
+    unmountChild(oldNode, errors);
+    mountChild(newNode, getSiblingDOMNode(newNode), errors);
   } else if (newNode.type === Bind) {
-    newNode.part.commitUpdate(
-      (oldNode as RenderNode.BindNode).props.value,
-      newNode.props.value,
+    const { part, props } = newNode;
+    attempt(
+      () =>
+        part.commitUpdate(
+          (oldNode as RenderNode.BindNode).props.value,
+          props.value,
+        ),
+      errors,
     );
   } else if (typeof newNode.type === 'object') {
     const oldChildren = newNode.right;
     const newChildren = newNode.left;
     for (let i = 0, l = newChildren.length; i < l; i++) {
-      applyPatch(oldChildren[i]!, newChildren[i]!, i, newNode);
+      applyPatch(oldChildren[i]!, newChildren[i]!, i, newNode, errors);
     }
   } else if (typeof newNode.type === 'function') {
-    applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
+    applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode, errors);
   } else {
     const children = newNode.left;
     const mutations: Mutation[] = new Array(children.length);
     for (const mutation of newNode.state.mutations.splice(0)) {
       if (mutation.type === MutationType.REMOVE) {
-        unmountChild(mutation.node);
+        unmountChild(mutation.node, errors);
       } else {
         mutations[getMutationIndex(mutation)] = mutation;
       }
@@ -96,12 +142,12 @@ function applyPatch(
     // they are set from the first to the last.
     for (let i = children.length - 1; i >= 0; i--) {
       if (children[i]!.type !== Bind) {
-        applyMutation(mutations[i]!, newNode);
+        applyMutation(mutations[i]!, newNode, errors);
       }
     }
     for (let i = 0, l = children.length; i < l; i++) {
       if (children[i]!.type === Bind) {
-        applyMutation(mutations[i]!, newNode);
+        applyMutation(mutations[i]!, newNode, errors);
       }
     }
   }
@@ -152,27 +198,38 @@ function isCommitted(node: RenderNode): boolean {
   return node.left === node.right;
 }
 
-function mountChild(child: RenderNode, afterNode: ChildNode | null): void {
+function mountChild(
+  child: RenderNode,
+  afterNode: ChildNode | null,
+  errors: unknown[],
+): void {
   if (child.type === Bind) {
-    child.part.commitMount(child.props.value);
+    const { part, props } = child;
+    attempt(() => part.commitMount(props.value), errors);
   } else if (typeof child.type === 'object') {
     for (const grandchild of child.left) {
-      mountChild(grandchild, null);
+      mountChild(grandchild, null, errors);
     }
-    child.part.mountBlock(child.state.block, afterNode);
+    const { part, state } = child;
+    attempt(() => part.mountBlock(state.block, afterNode), errors);
   } else {
     for (const grandchild of child.left) {
-      mountChild(grandchild, afterNode);
+      mountChild(grandchild, afterNode, errors);
     }
   }
 }
 
-function moveChild(child: RenderNode, afterNode: ChildNode | null): void {
+function moveChild(
+  child: RenderNode,
+  afterNode: ChildNode | null,
+  errors: unknown[],
+): void {
   if (typeof child.type === 'object') {
-    child.part.moveBlock(child.state.block, afterNode);
+    const { part, state } = child;
+    attempt(() => part.moveBlock(state.block, afterNode), errors);
   } else {
     for (const grandchild of child.left) {
-      moveChild(grandchild, afterNode);
+      moveChild(grandchild, afterNode, errors);
     }
   }
 }
@@ -186,20 +243,27 @@ function reparentChild(
   child.parent = parent;
 }
 
-function unmountChild(child: RenderNode, cascade: boolean = false): void {
+function unmountChild(
+  child: RenderNode,
+  errors: unknown[],
+  cascade: boolean = false,
+): void {
   if (child.type === Bind) {
-    child.part.commitUnmount(child.props.value, cascade);
+    const { part, props } = child;
+    attempt(() => part.commitUnmount(props.value, cascade), errors);
   } else if (typeof child.type === 'object') {
-    child.part.unmountBlock(child.state.block, cascade);
+    const { part, state } = child;
+    attempt(() => part.unmountBlock(state.block, cascade), errors);
     for (const grandchild of child.right) {
-      unmountChild(grandchild, true);
+      unmountChild(grandchild, errors, true);
     }
   } else {
     if (typeof child.type === 'function') {
-      child.state.instance.disconnect();
+      const { instance } = child.state;
+      attempt(() => instance.disconnect(), errors);
     }
     for (const grandchild of child.right) {
-      unmountChild(grandchild, cascade);
+      unmountChild(grandchild, errors, cascade);
     }
   }
   child.parent = null;
diff --git a/src/component.ts b/src/component.ts
index d466b0f..8890959 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -17,7 +17,7 @@ import {
   type VElement,
   VNode,
 } from './base.js';
-import { patch } from './commit.js';
+import { attempt, patch, throwFirst } from './commit.js';
 import { areDependenciesChanged, is } from './compare.js';
 import { RenderError } from './error.js';
 import { AllLanes, NoLanes } from './lane.js';
@@ -181,25 +181,30 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   connect(node: RenderNode.ComponentNode<TProps>): void {
+    const errors: unknown[] = [];
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.dirty) {
-        hook.cleanup?.();
-        hook.cleanup = hook.setup();
-        hook.dirty = false;
+        attempt(() => cleanupEffect(hook), errors);
+        attempt(() => {
+          hook.cleanup = hook.setup();
+          hook.dirty = false;
+        }, errors);
       }
     }
     this._connectedNode = node;
     this._isCommitted = true;
+    throwFirst(errors);
   }
 
   disconnect(): void {
+    const errors: unknown[] = [];
     for (const hook of this._context!._hooks) {
-      if (hook.type === HookType.EFFECT && hook.cleanup !== undefined) {
-        hook.cleanup();
-        hook.cleanup = undefined;
+      if (hook.type === HookType.EFFECT) {
+        attempt(() => cleanupEffect(hook), errors);
       }
     }
     this._connectedNode = null;
+    throwFirst(errors);
   }
 }
 
@@ -547,15 +552,23 @@ class UpdateComponent implements Transaction {
     );
     return () => {
       if (node.parent !== null) {
+        const errors: unknown[] = [];
         node.left = [newChild];
-        patch(node.right[0]!, newChild);
-        node.state.instance.connect(node);
+        attempt(() => patch(node.right[0]!, newChild), errors);
+        attempt(() => node.state.instance.connect(node), errors);
         node.right = node.left;
+        throwFirst(errors);
       }
     };
   }
 }
 
+function cleanupEffect(hook: Hook.EffectHook): void {
+  const { cleanup } = hook;
+  hook.cleanup = undefined;
+  cleanup?.();
+}
+
 function ensureHookType<TExpectedType extends Hook['type']>(
   expectedType: TExpectedType,
   hook: Hook,
diff --git a/src/dom/part.ts b/src/dom/part.ts
index 4552229..dd7c009 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -1,4 +1,5 @@
 import type { Block, Container, Part } from '../base.js';
+import { attempt, throwFirst } from '../commit.js';
 import { is, isObject, sequentialEqual } from '../compare.js';
 import { generateNodeFrame } from './debug.js';
 import { DOMAdapterError } from './error.js';
@@ -262,15 +263,17 @@ export class ElementPart extends DOMPart {
 
   override commitUpdate(oldValue: unknown, newValue: unknown): void {
     if (oldValue !== newValue) {
-      this._cleanup?.();
-      this._cleanup = undefined;
-      this.commitMount(newValue);
+      const errors: unknown[] = [];
+      attempt(() => this.commitUnmount(oldValue, false), errors);
+      attempt(() => this.commitMount(newValue), errors);
+      throwFirst(errors);
     }
   }
 
   override commitUnmount(_value: unknown, _cascade: boolean): void {
-    this._cleanup?.();
+    const cleanup = this._cleanup;
     this._cleanup = undefined;
+    cleanup?.();
   }
 }
 
diff --git a/src/dom/root.ts b/src/dom/root.ts
index 177f47c..aff25b3 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -44,12 +44,14 @@ export class DOMRoot {
                   new ContainerPart(this._container),
                 );
           return () => {
-            if (this._root.right !== null) {
-              patch(this._root.right, this._root.left!);
+            const oldNode = this._root.right;
+            const newNode = this._root.left!;
+            this._root.right = newNode;
+            if (oldNode !== null) {
+              patch(oldNode, newNode);
             } else {
-              mount(this._root.left!);
+              mount(newNode);
             }
-            this._root.right = this._root.left;
           };
         },
       },
@@ -65,9 +67,10 @@ export class DOMRoot {
         pendingLanes: AllLanes,
         prepare: () => {
           return () => {
-            if (this._root.right !== null) {
-              unmount(this._root.right);
-              this._root.right = null;
+            const oldNode = this._root.right;
+            this._root.right = null;
+            if (oldNode !== null) {
+              unmount(oldNode);
             }
           };
         },
-- 
2.43.0


From e534488ae0bbde0f27d63b7bc295d6d097f6422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 29/35] fix: a component stopped following a signal whose value
 could not be read once

---
 src/addons/signal/signal.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/signal.ts b/src/addons/signal/signal.ts
index 164eb59..7a1aa16 100644
--- a/src/addons/signal/signal.ts
+++ b/src/addons/signal/signal.ts
@@ -74,13 +74,14 @@ export abstract class Signal<T> implements Bindable, HookObject<T> {
 
     context.useEffect(() => {
       const checkForChanges = () => {
+        // Reading the value may throw, which must not stop later checks.
+        batched = false;
         if (
           snapshot.version < this.version &&
           !is(snapshot.value, this.value)
         ) {
           context.forceUpdate();
         }
-        batched = false;
       };
       let batched = true;
       queueMicrotask(checkForChanges);
-- 
2.43.0


From 35ff7acd03d25be3e534854da8c85f357e7ef4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 30/35] fix: templates of the same strings in different modes
 were taken for one

---
 src/commit.ts      |  4 ++--
 src/compare.ts     | 16 ++++++++++++++++
 src/dom/adapter.ts | 16 ++++++++++++----
 src/runtime.ts     |  4 ++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 1073e90..6354f8b 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -5,7 +5,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
-import { is } from './compare.js';
+import { isSameElement } from './compare.js';
 
 // What a commit runs may throw. The commit is finished nevertheless, as it can
 // neither be undone nor be repeated, and throws the first error then.
@@ -106,7 +106,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
+  if (!isSameElement(oldNode, newNode)) {
     unmountChild(oldNode, errors);
     mountChild(newNode, getSiblingDOMNode(newNode), errors);
   } else if (newNode.type === Bind) {
diff --git a/src/compare.ts b/src/compare.ts
index b9e0fcb..a0ea6b8 100644
--- a/src/compare.ts
+++ b/src/compare.ts
@@ -1,3 +1,9 @@
+interface VElementLike {
+  readonly type: unknown;
+  readonly key: unknown;
+  readonly props: any;
+}
+
 export const is = Object.is;
 
 export function areDependenciesChanged(
@@ -9,6 +15,16 @@ export function areDependenciesChanged(
   );
 }
 
+// Whether an element renders what has been rendered for another one anew.
+export function isSameElement(x: VElementLike, y: VElementLike): boolean {
+  return (
+    x.type === y.type &&
+    is(x.key, y.key) &&
+    // The same strings make up other templates in other modes.
+    (!Array.isArray(x.type) || x.props.mode === y.props.mode)
+  );
+}
+
 export function isObject<T>(value: T): value is T & object {
   return typeof value === 'object' && value !== null;
 }
diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index 81887f4..22affb8 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -1,4 +1,4 @@
-import type { HostAdapter, VPortal, VTemplate } from '../base.js';
+import type { HostAdapter, TemplateMode, VPortal, VTemplate } from '../base.js';
 import { DOMBlock } from './block.js';
 import { ContainerPart } from './part.js';
 import { DOMTemplate } from './template.js';
@@ -6,8 +6,16 @@ import { DOMTemplate } from './template.js';
 export class DOMAdapter implements HostAdapter {
   private readonly _document: Document;
   private readonly _identifier = generateUniqueIdentifier(8);
-  private readonly _templateCache: WeakMap<readonly string[], DOMTemplate> =
-    new WeakMap();
+  // The same strings make up other templates in other modes.
+  private readonly _templateCaches: Record<
+    TemplateMode,
+    WeakMap<readonly string[], DOMTemplate>
+  > = {
+    html: new WeakMap(),
+    math: new WeakMap(),
+    svg: new WeakMap(),
+    textarea: new WeakMap(),
+  };
 
   constructor(document: Document = window.document) {
     this._document = document;
@@ -36,7 +44,7 @@ export class DOMAdapter implements HostAdapter {
   }
 
   renderTemplate(element: VTemplate): DOMBlock {
-    return this._templateCache
+    return this._templateCaches[element.props.mode]
       .getOrInsertComputed(element.type, () =>
         DOMTemplate.parse(
           element.type,
diff --git a/src/runtime.ts b/src/runtime.ts
index 5d96d34..7a88cdf 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -21,7 +21,7 @@ import {
   type VPortal,
   type VTemplate,
 } from './base.js';
-import { is } from './compare.js';
+import { is, isSameElement } from './compare.js';
 import {
   getHighestPriorityLane,
   getLaneFromPriority,
@@ -61,7 +61,7 @@ export class Runtime implements Renderer, Dispatcher {
     index: number,
     parent: RenderNode | RenderRoot,
   ): RenderNode {
-    if (oldNode.type !== newElement.type || !is(oldNode.key, newElement.key)) {
+    if (!isSameElement(oldNode, newElement)) {
       return this.render(newElement, scope, index, parent, oldNode.part);
     }
     if (oldNode.props === newElement.props) {
-- 
2.43.0


From fbe6d89f9078280483e25e00abe97fe2c6756998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 31/35] fix: a state passed through was not what later actions
 were applied to

---
 src/component.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 8890959..4e11dfa 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -366,7 +366,11 @@ export class RenderContext {
       for (const action of memoizedActions) {
         const { payload, lanes, revertLanes } = action;
         if ((lanes & renderLanes) === lanes) {
-          nextState = action.eagerState ?? reducer(nextState, payload);
+          // An eager state is not based on what is passed through now.
+          const eagerState = options.passthrough
+            ? undefined
+            : action.eagerState;
+          nextState = eagerState ?? reducer(nextState, payload);
           action.lanes = revertLanes;
         } else {
           if ((revertLanes & renderLanes) === revertLanes) {
-- 
2.43.0


From 6493fcfa2ca3c6de977995913fc905a1ae3159c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 32/35] fix: errors about a template failed if an attribute
 name had a colon

---
 src/dom/debug.ts | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dom/debug.ts b/src/dom/debug.ts
index ff85ed7..70509eb 100644
--- a/src/dom/debug.ts
+++ b/src/dom/debug.ts
@@ -201,11 +201,8 @@ function shiftLine(line: string): string {
 function splitAttributes(element: Element): string[] {
   return Array.from(element.attributes, (attribute) => {
     const wrapper = element.ownerDocument.createElement('br');
-    wrapper.setAttributeNS(
-      attribute.namespaceURI,
-      attribute.name,
-      attribute.value,
-    );
+    // The parser accepts names that setAttributeNS() does not, like "@x:y".
+    wrapper.setAttributeNode(attribute.cloneNode() as Attr);
     return wrapper.outerHTML.slice(4, -1);
   });
 }
-- 
2.43.0


From 94faa7ee216085bc05cb87ac278114b1b25078a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:47 +0000
Subject: [PATCH 33/35] fix: a reference bound at another place of the same
 element was lost

---
 src/component.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 4e11dfa..3da729c 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -471,6 +471,7 @@ export class RenderContext {
 
 export class Ref<T> implements Bindable {
   current: T;
+  private _binding: object | null = null;
 
   constructor(current: T) {
     this.current = current;
@@ -481,9 +482,12 @@ export class Ref<T> implements Bindable {
 
   [toElement](): VElement {
     return createBind((instance: T) => {
+      const binding = {};
       this.current = instance;
+      this._binding = binding;
       return () => {
-        if (this.current === instance) {
+        // The reference may have been bound again to the same instance.
+        if (this.current === instance && this._binding === binding) {
           this.current = null as T;
         }
       };
-- 
2.43.0


From 05ffb14623b7335c88535354e5ee67b2a0093b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:50 +0000
Subject: [PATCH 34/35] fix: an error thrown by one commit of a batch kept the
 others from being made

---
 src/runtime.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 7a88cdf..4757bc2 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -21,6 +21,7 @@ import {
   type VPortal,
   type VTemplate,
 } from './base.js';
+import { attempt, throwFirst } from './commit.js';
 import { is, isSameElement } from './compare.js';
 import {
   getHighestPriorityLane,
@@ -581,9 +582,11 @@ export class Runtime implements Renderer, Dispatcher {
 
         if (commitBatch.length > 0) {
           const callback = () => {
+            const errors: unknown[] = [];
             for (const commit of commitBatch) {
-              commit();
+              attempt(commit, errors);
             }
+            throwFirst(errors);
           };
           if (this._flushLanes & SyncLane) {
             callback();
-- 
2.43.0


From 009e2b1bef5b33744557fe70ee9f4196bbc9eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 35/35] fix: an imperative handle was lost when its reference
 was given to another component

---
 src/addons/hooks.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index 714a958..d61aaed 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -58,9 +58,13 @@ export function ImperativeHandle<T>(
       if (typeof ref === 'function') {
         return ref(createHandle());
       } else if (ref != null) {
-        ref.current = createHandle();
+        const handle = createHandle();
+        ref.current = handle;
         return () => {
-          ref.current = null;
+          // The reference may have been given to another component.
+          if (ref.current === handle) {
+            ref.current = null;
+          }
         };
       }
     }, dependencies?.concat(ref));
-- 
2.43.0

