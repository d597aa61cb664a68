#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p('C01', 'The DOM is a function of the latest rendered element tree',
  'Once the renders requested on a root have committed without error, the elements and text in its container (and in every portal target it uses) are exactly those described by the last rendered value, in order, whatever sequence of trees was shown before: nested templates, keyed and unkeyed lists, lists inside lists, empty lists, components and portals included. Foreign siblings already in a container keep their place, and after unmount no rendered node is left in the container or in any portal target. (Sibling keys are distinct, and a hole does not switch between a plain value and a template or list.)',
  ['inputs', 'histories', 'configurations'],
  'All sequences of element trees over templates, lists, keys, components and portals; with and without Element.moveBefore.',
  'Diffing and patching depend on the pair (old tree, new tree) and on all earlier history; the tests sample a few dozen hand-written pairs, almost all of depth one.',
  ['src/runtime.ts', 'src/commit.ts', 'src/dom/part.ts', 'src/dom/block.ts', 'src/dom/root.ts', 'src/velement.ts'],
  [('two-ended keyed diff producing mutations', 'src/runtime.ts _diffChildren'), ('patching and placement of nodes', 'src/commit.ts applyPatch/getSiblingDOMNode'), ('block mount/move/unmount', 'src/dom/block.ts')],
  ['container.childNodes after each committed render'],
  [('RenderNode.left/right', 'work-in-progress and committed children', 'src/base.ts')])

p('C02', 'State and DOM identity follow type and key',
  'An item of a re-rendered tree that keeps its type and its key (its position where no keys are given) keeps its DOM nodes and its component state, also when it moves among its siblings. An item whose type or key changed, or that was absent, is built anew with fresh DOM nodes and initial state, and the one it replaced is unmounted. No DOM node or component instance is ever shared by two live items.',
  ['inputs', 'histories'],
  'All sequences of element trees; all permutations, insertions, removals and type changes of keyed siblings.',
  'Matching depends on combinations of keys, positions and types over several renders; tests check final markup and rarely node or state identity.',
  ['src/runtime.ts', 'src/commit.ts', 'src/component.ts'],
  [('type and key comparison', 'src/runtime.ts diff'), ('keyed matching', 'src/runtime.ts _diffChildren')],
  ['identity of DOM nodes and per-instance state after each commit'])

p('C03', 'Effects: set up once per change, cleaned up exactly once',
  'An effect runs after the commit that mounted its component and again exactly after those commits whose render gave it different dependencies (or none), and never for a render that was not committed (renders being committed one batch at a time). Before it runs again, and when its component is removed by whatever route (parent re-render, key or type change, ancestor removal, root unmount), the cleanup it last returned runs exactly once. After removal neither setup nor cleanup runs again.',
  ['inputs', 'histories'],
  'All sequences of renders, dependency changes, removals and re-additions over trees of components.',
  'The setup/cleanup pairing is a property of whole histories; tests check one or two transitions per hook.',
  ['src/component.ts', 'src/commit.ts'],
  [('dirty flag, deps comparison', 'src/component.ts useEffect'), ('connect/disconnect', 'src/component.ts FunctionComponent')],
  ['order of setup and cleanup calls'])

p('C04', 'Effects see the committed DOM, descendants first, in declaration order',
  'All effects of a commit run after the DOM changes of the tree being committed are complete, so each sees the DOM of that render. Effects of descendant components run before those of their ancestors, effects of earlier siblings before those of later ones, and within a component in the order declared. When a subtree is removed, its cleanups run ancestors before descendants, each component once.',
  ['inputs', 'histories'],
  'All trees of components and all subsets of them having effects to run in a commit.',
  'The order is a relation between all components of a commit; tests cover a parent with one child.',
  ['src/commit.ts', 'src/component.ts'],
  [('post-order walk after patching', 'src/commit.ts afterCommit'), ('disconnect on unmount', 'src/commit.ts unmountChild')],
  ['interleaving of effect calls with DOM state'])

p('C05', 'State updates are never lost, duplicated or reordered',
  'Every state shown by a component is the fold of its reducer, in dispatch order, over a subset of the actions dispatched to that hook which contains every action whose update has finished; once all updates have settled without failure it is the fold over all of them, each exactly once. A dispatch is dropped exactly when, with no other action outstanding on the hook, it would leave a state equal to the current one (Object.is, or the areStatesEqual of the dispatch). With passthrough the fold starts, in every render, from the initial state given to that render. A transient action counts only in renders covering its lanes: it is shown once its update finishes, and gone in a render without them; it never disturbs other actions.',
  ['schedules', 'histories'],
  'All interleavings of dispatches at all priorities (sync, blocking, visible, background, transitions, delays, handlers), unrelated renders and flushes.',
  'The tests dispatch one or two actions at a time; the interesting histories skip low-priority actions in one render and rebase them in a later one.',
  ['src/component.ts', 'src/runtime.ts', 'src/lane.ts'],
  [('pending and memoized actions, rebase on skipped lanes', 'src/component.ts useReducer'), ('eager state and bail-out', 'src/component.ts dispatch')],
  ['state seen by each render, handle.finished'],
  [('memoizedActions', 'actions not yet folded into the base state', 'src/component.ts')])

p('C06', 'An update handle settles exactly once, and only after its effect is visible',
  'The promise of every update settles exactly once. It fulfils only after the commit that made the update visible (or immediately, when there is nothing to do or an earlier batch already included it), and it rejects exactly when rendering or committing the batch that contained it failed, with that error. Updates that are still queued when a batch fails are unaffected and later settle on their own.',
  ['schedules', 'fault_sequences'],
  'All interleavings of updates and host callbacks, with render, commit-handler and host-commit failures injected at any batch.',
  'Tests await one handle at a time; settlement of several concurrent updates with failures is unexplored.',
  ['src/runtime.ts'],
  [('controller resolve/reject per batch', 'src/runtime.ts _flush')],
  ['UpdateHandle.finished relative to commits'])

p('C07', 'No update is stranded',
  'Every scheduled update is rendered and settled once the host has run the callback requested for it (or, when the runtime asked for none, the callbacks that were outstanding at that time) and the commits requested since; host callbacks arriving in any order, also while a commit is in progress, never leave a due update waiting for an unrelated future update.',
  ['schedules'],
  'All orders in which the host runs requested callbacks, microtasks and commits, for updates of all priority combinations.',
  'Tests run host callbacks in the order of one real scheduler; the bug-prone orders (lower-priority callback first, callbacks arriving during a pending commit) never occur there.',
  ['src/runtime.ts', 'src/lane.ts', 'src/queue.ts'],
  [('pending/staged lanes', 'src/runtime.ts schedule and _flush')],
  ['handles still pending when the host is idle'],
  [('_pendingLanes/_stagedLanes', 'lanes for which a callback is outstanding / has fired', 'src/runtime.ts')])

p('C08', 'Updates render by priority, then depth, then request order; batches commit whole',
  'Among updates that are ready, higher priority renders first (sync, handler, user-blocking, user-visible, background, transitions, delays); within a batch ancestors render before descendants and otherwise equal updates in the order requested. All renders of a batch precede its commits, which run together in the same order, never interleaved with another batch. A sync update commits without waiting for the host, an update with a commit handler commits only through that handler in a batch of its own priority, and all others through the host.',
  ['schedules'],
  'All sets of concurrently queued updates with all option combinations and callback orders.',
  'Heap order with many equal keys and batching across staged callbacks need many simultaneous updates; tests queue at most three.',
  ['src/runtime.ts', 'src/queue.ts', 'src/lane.ts'],
  [('update ordering', 'src/runtime.ts compareUpdates, src/queue.ts'), ('batch formation', 'src/runtime.ts _flush')],
  ['order of prepare and commit calls of transactions and of host requests'])

p('C09', 'Concurrent updates converge to the latest root tree and state',
  'When roots, components and their descendants are updated concurrently with any priorities, and everything has settled without errors, the DOM is the one described by the root value requested last together with, for each live component, all the actions dispatched to it. No node is mounted twice, left behind or missing, whatever the interleaving of renders and commits.',
  ['schedules', 'histories'],
  'All interleavings of root renders, state updates at different depths, host callbacks and delayed commits (root renders of one root requested at the same priority).',
  'Overlapping renders of parent and child in one batch, or queued while a commit is pending, do not occur in any test.',
  ['src/component.ts', 'src/runtime.ts', 'src/commit.ts'],
  [('partial re-render from a component', 'src/component.ts UpdateComponent.prepare'), ('double-buffered children', 'src/runtime.ts diff')],
  ['DOM at quiescence'])

p('C10', 'Removed components are inert',
  'Once a component has been removed, updates requested on it before or after its removal settle without rendering it, running its effects, changing the DOM or failing. They do not delay or disturb updates of components that are still there.',
  ['schedules', 'histories'],
  'All orders of requesting an update on a component, removing it, and running the update.',
  'Tests cover one such order for a single component.',
  ['src/component.ts', 'src/commit.ts'],
  [('connected node check', 'src/component.ts UpdateComponent.prepare'), ('parent reset on unmount', 'src/commit.ts unmountChild')],
  ['renders and effects after removal'])

p('C11', 'A consumer reads the nearest provider',
  'Looking up a provided instance yields the one most recently provided by the component itself or else by its nearest enclosing component that provides an instance of the requested class (subclasses included), as of the render that last reached the reader from above; siblings and descendants are never consulted. Without a provider the class default is used if it defines one, and otherwise the lookup fails naming the class. What a component provided in an earlier render but no longer provides is not found by components rendered together with or below its new render.',
  ['inputs', 'histories'],
  'All nestings of providers, consumers, shadowing and re-renders from any ancestor (each consumer re-rendered with its providers, or updated alone).',
  'Tests have one provider and one consumer.',
  ['src/component.ts', 'src/base.ts', 'src/runtime.ts'],
  [('scope chain', 'src/base.ts Scope'), ('lookup', 'src/component.ts inject/provide')],
  ['value returned to each consumer render'])

p('C12', 'Element bindings show exactly the latest value',
  'After any sequence of values bound to an attribute, class, style, property, live or text hole, the element is in the state that a fresh rendering of the last value gives: attributes present or absent with that value, exactly the classes and styles it lists (plus static ones it never mentioned), the property equal to it. A live binding restores its value on each render even when the user changed the element, a plain one is written only when its value changed.',
  ['inputs', 'histories'],
  'All sequences of values (null, undefined, booleans, numbers, strings, class lists and maps, style maps) for each kind of binding, one value per hole.',
  'Each transition depends on the previous value; tests exercise a handful of pairs per kind.',
  ['src/dom/part.ts', 'src/dom/template.ts'],
  [('per-binding commit logic', 'src/dom/part.ts')],
  ['attributes, classList, style and properties of the element'])

p('C13', 'Listeners and element references are attached exactly once',
  'At any time after a commit an event hole invokes exactly the currently bound listener, once per event, with its current options (capture, once, passive), and none after it is set to null or its element is removed; replacing a listener never yields zero or two calls. An element reference callback receives the element once per distinct value and its cleanup runs exactly once, before the next value or on removal; a ref object points to its element exactly while mounted. Several values spread into one hole each get the same treatment. A value that is no listener or reference is reported by a DOMAdapterError and bound to nothing.',
  ['inputs', 'histories'],
  'All sequences of listeners (functions, objects, options, null) and reference values, with dispatches in between and removal.',
  'The add/remove pairing is a history property; tests check one replacement.',
  ['src/dom/part.ts', 'src/component.ts'],
  [('stable listener indirection', 'src/dom/part.ts EventPart'), ('ref cleanup', 'src/dom/part.ts ElementPart')],
  ['listener invocations and ref callback calls'])

p('C14', 'Every hole binds to its own place; partials compose as written',
  'In any template each hole is bound to the place where it is written, in source order, for all hole kinds, nesting, quoting and modes (html, svg, math, text), and rendering the same template several times yields independent copies. A template composed with partials behaves exactly as the template written out by hand, the values of the partials taking their places in order, and equal compositions are treated as the same template while different ones are not. A hole written where none can be bound (in a name, in a part of an attribute value or comment, in a repeated attribute, in a nested template) is reported, in development builds, by a DOMAdapterError, and what is shown stays as it is.',
  ['inputs'],
  'All templates up to a size over the hole kinds, and all compositions of partials, including repeated ones and differently placed ones at the same call site.',
  'The space of hole positions and compositions is combinatorial; tests cover tens of fixed templates.',
  ['src/dom/template.ts', 'src/velement.ts', 'src/dom/adapter.ts'],
  [('template parsing with placeholders', 'src/dom/template.ts'), ('interpolation with cache', 'src/velement.ts Partial.parse')],
  ['DOM produced and positions updated by each value'])

p('C15', 'Signals: reads are always consistent, subscribers notified once per change',
  'A computed value read at any moment, also from inside a notification, equals its function applied to the current values of its dependencies, through any graph of computed values, and is recomputed only if a dependency changed since. Each change of an atom notifies each current subscriber of the atom exactly once, in subscription order, and nobody who unsubscribed; setting an equal value notifies nobody; subscribers of a computed value are notified whenever a dependency changes. Unsubscribing, also during a notification, affects nobody else.',
  ['histories', 'inputs'],
  'All dependency graphs up to a size and all sequences of writes, reads, subscriptions and unsubscriptions, also re-entrant.',
  'Tests use one or two atoms and a linear chain.',
  ['src/addons/signal/signal.ts', 'src/addons/signal/linked-list.ts'],
  [('version-based memoization', 'src/addons/signal/signal.ts Computed'), ('subscriber list', 'src/addons/signal/linked-list.ts')],
  ['values read and notifications received'])

p('C16', 'Derivable state behaves as an immutable plain value',
  'After any sequence of reads and writes through a derivable tree (properties, array items, methods on drafts, deletion, replacing subtrees) its value equals that of the same operations on a plain copy, and child derivables and parent agree with each other. Values obtained earlier are never modified, unchanged parts are shared with the previous value, and the subscribers of a node, and of nobody else, are notified whenever an assignment or deletion below it, or of it, changes its value, with an event telling where, what was there and what is now, and see the new value when they read it. Derivables of parts that were replaced no longer affect the tree, and a draft assigned to another place is copied.',
  ['histories', 'inputs'],
  'All sequences of operations on trees of objects and arrays up to a depth, with reads and subscriptions interleaved.',
  'Laziness and dirty propagation make the outcome depend on which nodes were read before a write; tests use a few fixed sequences.',
  ['src/addons/signal/derivable.ts'],
  [('dirty/invalidate propagation and snapshots', 'src/addons/signal/derivable.ts')],
  ['snapshot values, identity of earlier snapshots, notifications'])

p('C17', 'Components always catch up with the signals and stores they use',
  'When everything has settled, every mounted component that uses a signal, a selected part of one, or an external store shows the current value, for any sequence and timing of changes: before its first commit, several in one tick, during renders, or while it is being removed, and after switching to another signal. A change that leaves the selected value equal causes no re-render, and removed components are unsubscribed.',
  ['schedules', 'histories'],
  'All interleavings of signal changes with mounting, rendering, committing, switching and unmounting.',
  'The gap between rendering and subscribing, and between notification and microtask, is only hit by specific interleavings.',
  ['src/addons/signal/signal.ts', 'src/addons/signal/hooks.ts', 'src/addons/hooks.ts'],
  [('subscription effect with re-check', 'src/addons/signal/signal.ts onUse'), ('external store sync', 'src/addons/hooks.ts SyncExternalStore')],
  ['component output at quiescence'])

p('C18', 'Auxiliary hooks keep their contracts',
  'A deferred value eventually equals its source when the source stays unchanged and otherwise only takes values the source had, in order, following it in later, never synchronous updates. A transition is reported as pending, in a synchronous update, as soon as it starts, and no longer pending once its callback has returned, thrown or settled and everything has settled; updates it made are visible no later than pending is withdrawn, and the result or error of the callback reaches the caller. An event callback runs the function of the latest committed render, and the reference of an imperative handle holds the latest handle after each commit that changed its dependencies, also when it is given from one component to another, and is withdrawn on removal.',
  ['schedules', 'histories'],
  'All sequences of source changes, transitions (sync, async, failing, overlapping) and re-renders.',
  'Tests drive each hook through one cycle.',
  ['src/addons/hooks.ts'],
  [('deferred value effect', 'src/addons/hooks.ts DeferredValue'), ('transient pending state', 'src/addons/hooks.ts Transition')],
  ['values returned by the hooks in each render'])

p('C19', 'Routing picks the first matching route and passes exactly its captures',
  'For every route table and path the router chooses, in declaration order, the first route whose patterns match the leading segments and that either ends the path there or has child routes, descends into the children for the remaining segments, and returns what the resolver of the route ending the path returns, or nothing if there is none. The resolver gets exactly the values captured by the patterns along the chosen route, in order, and the path itself. Matchers accept exactly the segments they are declared for (canonical integers, keywords, regular expressions, alternatives, any segment raw or decoded) and hand on the corresponding value.',
  ['inputs', 'configurations'],
  'All route tables up to a size and depth over all matcher kinds, and all paths over a small alphabet.',
  'First-match, nesting and capture rules interact; tests use one table.',
  ['src/addons/router/router.ts', 'src/addons/router/matchers.ts'],
  [('recursive matching', 'src/addons/router/router.ts'), ('matchers', 'src/addons/router/matchers.ts')],
  ['result of handle(url)'])

p('C20', 'Navigation state follows the browser, and each navigation is reported once',
  'Every navigation that concerns an adapter (in-page, interceptable, no download; hash changes only for the hash adapter and all others only for the browser adapter) is delivered exactly once to each current listener with its target url, state and type, other navigations and removed listeners are left alone, and navigating resolves only after the handlers of all listeners have finished. A component synchronized with an adapter starts with its current location, then shows the scene of the last navigation delivered, provides it to its descendants, and stops listening when it is removed or given another adapter.',
  ['histories', 'configurations'],
  'All sequences of navigations of every kind, subscriptions and component lifecycles, for the browser, hash and in-memory adapters.',
  'Tests fire single navigations against mocks.',
  ['src/addons/router/adapter.ts', 'src/addons/router/hook.ts'],
  [('adapters', 'src/addons/router/adapter.ts'), ('sync hook', 'src/addons/router/hook.ts')],
  ['navigation events seen by subscribers'])

p('C21', 'Middlewares wrap every render in registration order and change nothing else',
  'Each registered middleware sees every update that is rendered exactly once, nested in registration order, and none once it is removed; what it returns is what is committed. Adding the update logger or profiler does not change which updates render or commit, in what order, or how they settle, including failing ones, and they report each committed update exactly once, with its component, priority, way of committing and place in the batch.',
  ['schedules', 'configurations', 'fault_sequences'],
  'All sets of middlewares with additions and removals between updates, over all schedules and failures.',
  'Tests use one middleware and one update.',
  ['src/runtime.ts', 'src/addons/update-logger.ts', 'src/addons/update-profiler.ts'],
  [('pipeline', 'src/runtime.ts runPipeline')],
  ['order of handle calls, reports'])

p('C22', 'The DOM adapter runs each task exactly once, later, at its priority',
  'Every callback given to the DOM adapter runs exactly once, never synchronously and never before the delay asked for, at the priority asked for, whichever scheduling facilities the browser offers, and its promise settles with its outcome; an update is requested at its own priority (the one given, user-blocking for handler updates, background for transitions and delayed ones); a commit runs exactly once, on the next frame, or after a bounded time if no frame comes, and its promise settles after it with its outcome. The default priority of an update is user-blocking inside a discrete event or while the page loads, user-visible inside a continuous event, and background otherwise.',
  ['configurations', 'schedules', 'fault_sequences'],
  'All subsets of scheduling facilities (postTask, idle callback, frames that never come), all event types, all priorities.',
  'Tests run in one browser configuration.',
  ['src/dom/adapter.ts'],
  [('fallback selection', 'src/dom/adapter.ts requestCallback/requestCommit'), ('event classification', 'src/dom/adapter.ts getTaskPriority')],
  ['calls to host facilities; order of execution'])

p('C23', 'A failing render changes nothing and the root recovers',
  'When a component throws while rendering, nothing of its batch is committed: the DOM and all effects stay as they were and its updates reject with an error that names the component path and carries the original error as cause. A later successful render of the same root gives exactly the DOM and live components it would have given had the failed one never been requested.',
  ['fault_sequences', 'histories'],
  'Failures injected into any component at any render of any history, first renders included.',
  'Tests throw once in a single component and look at the error only.',
  ['src/runtime.ts', 'src/component.ts', 'src/error.ts'],
  [('batch abort', 'src/runtime.ts _flush'), ('error with scope', 'src/error.ts')],
  ['DOM after the failure and after recovery'])

p('C24', 'Identifiers are unique and stable',
  'Identifiers handed to components are pairwise distinct within a runtime and across runtimes with different hosts, valid for use as ids, and each hook keeps its identifier for the life of its component across all re-renders and moves. Update ids are distinct and increasing, and transition numbers are distinct.',
  ['histories'],
  'All histories of mounting, re-rendering, moving and removing components with several identifier hooks.',
  'Stability and uniqueness are properties of whole histories; tests look at one render.',
  ['src/component.ts', 'src/runtime.ts', 'src/dom/adapter.ts'],
  [('identifier counter', 'src/runtime.ts nextIdentifier'), ('id hook', 'src/component.ts useId')],
  ['ids returned in each render'])

p('C25', 'Memoized values change exactly when their dependencies do',
  'A memoized value or callback is recomputed in exactly those renders whose dependencies differ (by Object.is, or in number) from those of the previous render, and otherwise is the identical value; references keep their identity and contents, dispatch functions keep their identity. A component reached by a render of its parent is rendered again exactly if its arePropsEqual (Object.is, or given, as shallowEqual and sequentialEqual, which compare own properties and elements by Object.is or the given equality) tells the new props from those it was rendered with, or an update of its own is pending. Each hook of a component keeps its own slot in every render, and calling hooks in a different kind of order is reported as an error rather than mixing slots up.',
  ['histories', 'inputs'],
  'All sequences of dependency lists (NaN, -0, empty, different lengths) and re-renders of components with several hooks.',
  'Each transition depends on the previous dependencies; tests check equal and one changed dependency.',
  ['src/component.ts', 'src/compare.ts'],
  [('dependency comparison', 'src/compare.ts'), ('hook slots', 'src/component.ts RenderContext')],
  ['values returned by hooks in each render'])

p('C26', 'Errors thrown while committing leave nothing undone',
  'When application code that runs while changes are committed throws (the setup or cleanup of an effect, an element reference or its cleanup, the conversion of a bound value to text), the updates of the batch are rejected with the first such error, and the commit of all of them is finished nevertheless: the DOM shows the tree that was rendered, without anything inserted twice or left behind, every other effect, cleanup and reference of the commit runs exactly once, and a cleanup that threw is not called again. Later and concurrent updates go on from there: no state is lost, nodes and components are kept, an effect whose setup threw is set up anew with the next render, and one that has not been set up is not cleaned up.',
  ['histories', 'crash points'],
  'Any combination of throwing effects, cleanups, references and conversions at any commit of any history, first mounts and unmounts included.',
  'What a commit leaves half done shows in the updates after it; tests let nothing throw while committing.',
  ['src/commit.ts', 'src/component.ts', 'src/dom/part.ts', 'src/dom/root.ts'],
  [('commit of a tree', 'src/commit.ts'), ('effects of a component', 'src/component.ts connect, disconnect'), ('root', 'src/dom/root.ts')],
  ['DOM, effects and references after the error and after later updates'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
