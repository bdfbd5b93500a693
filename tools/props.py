"""The properties, with how each is decided. tools/gen.py writes properties.jsonl, MANIFEST.json, rules/index.json from it."""
PROPS = []


def P(**k):
    PROPS.append(k)


TRUST = "Trusts rustc's MIR and callee resolution, the abstract interpreter and its models of core/std functions."

P(id="E01", title="Every HTML component is the element its name promises",
  statement="""Each HTML component (anchor, button, input variants, headings, and so on) creates the HTML tag its name denotes, gives access
  to that element through the DOM interface that the HTML standard assigns to the tag, and rendering it places exactly that element in the
  document with the given children inside it. Input components have the input type their name denotes. Nothing a component returns refers to
  a different element from the one it renders.""",
  over=["programs"], all="All element components the library exports, and all programs that create, access or render one of them.",
  why="No test renders HTML elements (the crate's tests cannot run without a browser), and a wrong cast or tag is only seen when that one element is used.",
  files=["async_ui_web_html/src/common_components.rs", "async_ui_web_html/src/input_types.rs"],
  mech=[("one table entry per element: tag, interface", "async_ui_web_html/src/common_components.rs"), ("constructor per component", "async_ui_web_html/src/common_components.rs")],
  rule=("html", "elements"), technique="symbolic evaluation of each component's MIR against the HTML standard's tag/interface table",
  note="Decides every exported component's tag, interface, child placement and deref target on all paths. " + TRUST)

P(id="E02", title="Each event method waits for the event it is named after",
  statement="""Each event-waiting method offered on an element, the window or an emitter waits for the DOM event its name denotes and yields the
  event interface the DOM standard assigns to that event. It listens on the receiver it was called on and on nothing else.""",
  over=["programs"], all="All event methods and all programs calling one of them.",
  why="No test registers a DOM event; a wrong name or event type is only observable in a browser when that event is fired.",
  files=["async_ui_web_html/src/common_events.rs", "async_ui_web_html/src/event_handling.rs"],
  mech=[("one method per event with its name string", "async_ui_web_html/src/common_events.rs"), ("generic stream over a target and a name", "async_ui_web_html/src/event_handling.rs")],
  rule=("html", "events"), technique="symbolic evaluation of each event method's MIR against the DOM event table",
  note="Decides name, event type and target of every event method. " + TRUST)

P(id="E03", title="An event stream listens until it is dropped and yields every last event",
  statement="""An event stream (what the until_* methods return) listens from its first poll, with the capture and passive options set before, until it is dropped, and from then on nothing of it is registered with the event target. The first event after a poll wakes the task that made it and then runs the app before the browser's event dispatch returns, while nothing of the stream is borrowed. The next poll yields the event that arrived last since the poll before, exactly once; with no event it is pending, and the stream never ends.""",
  over=["schedules", "histories"], all="Every order of setting the options, polls as a future or a stream by either of two tasks, events arriving, and the drop, to any length (all reachable states of the stream are enumerated).",
  why="No test registers a DOM event. A lost waker shows only when another task polls the stream later, a listener that stays only with particular options, and a lost event only between two particular polls.",
  files=["async_ui_web_html/src/event_handling.rs", "async_ui_web_core/src/executor.rs"],
  mech=[("event stream", "async_ui_web_html/src/event_handling.rs")],
  rule=("events", "e03"), technique="abstract interpretation of the stream's MIR on an abstract event target, to a fixpoint over its reachable states",
  how="The stream's constructor, its option setters, polls, drop and the closure it registers are interpreted on a browser that keeps the listeners, the options each was registered with, the options objects, wake-ups and runs of the app. Starting from a new stream, each operation is applied in each state that is reachable, until there are no new states; each step is compared with a specification that knows the options, the task that polled last and the event waiting.",
  note="addEventListener and removeEventListener are taken as the DOM standard says: a listener is the same if its callback and its capture flag are. Options set after the first poll are documented to have no effect and are not tried. " + TRUST)

P(id="X03", title="A path's read, write, identity and store views agree",
  statement="""For every path into a store, including those generated by the derive macro, shared and mutable borrows reach the same datum, and
  both give nothing when any enclosing datum is absent. The identity under which changes to the datum are tracked extends the identity of the
  enclosing datum by exactly one level, is different for different fields, variants, indices and keys below the same parent, and is reported to the store that
  holds the data.""",
  over=["programs", "inputs"], all="All path types (hand written, library collections, derived for any user type) and all values of the data.",
  why="Tests exercise two or three shapes; a wrong index, key or identity in one derived or library path only shows for that shape.",
  files=["x-bow/src/impls/stdlib", "x-bow/src/impls/transparent.rs", "x-bow/src/path_impl.rs", "x-bow/src/store.rs", "x-bow-macros/src/generate.rs"],
  mech=[("path trait implementations per mapper", "x-bow/src/path_impl.rs"), ("derive macro", "x-bow-macros/src/generate.rs")],
  rule=("xbow", "coherence"), technique="symbolic evaluation of every Path impl (and derive expansion) and sibling comparison of the places and identities",
  note="Derive output is analysed on a fixture crate containing each shape the derive supports. " + TRUST)

P(id="X01", title="Every mutable access to store data is announced to its subscribers",
  statement="""Whenever mutable access to a datum obtained through a path ends, every subscriber of that datum, of the data inside it, and of changes
  inside any enclosing datum is notified, in the store that holds the datum; only the operations documented as not notifying are exempt, and reads announce nothing.
  Setting through a path stores exactly the given value there, or hands it back if the datum is absent.""",
  over=["programs", "histories"], all="All programs using the path operations, on every path through them, whatever the data.",
  why="Tests check a few mutations; a path through one operation that skips the announcement shows only for that operation and subscriber kind.",
  files=["x-bow/src/path_ext.rs", "x-bow/src/guarantee.rs", "x-bow/src/borrow_mut_guard.rs", "x-bow/src/store.rs"],
  mech=[("guard that announces on drop", "x-bow/src/borrow_mut_guard.rs"), ("path operations", "x-bow/src/path_ext.rs")],
  rule=("track", "x01"), technique="abstract interpretation of every access operation and of the end of the access it gives, with a subscriber of every kind on every path waiting; effect analysis of raw cell access",
  note="Decides all operations of the two path extension traits on all paths. A mutation through raw cell access elsewhere in the crate is reported. " + TRUST)

P(id="X02", title="Subscriptions listen under the very keys that mutations wake",
  statement="""A subscription to a datum fires for a mutable access to that datum or to any datum enclosing it; a bubbling subscription fires for
  mutable access to that datum or any datum inside it. A notification reaches every task waiting under the affected key and marks the change for those not waiting yet.""",
  over=["programs", "histories", "inputs"], all="All paths and all pairs of a subscription and a mutation.",
  why="Tests use a handful of paths; agreement of subscription and notification keys must hold for every path and depth.",
  files=["x-bow/src/hash_visitor.rs", "x-bow/src/hash.rs", "x-bow/src/wakers.rs", "x-bow/src/until_change.rs", "x-bow/src/borrow_mut_guard.rs"],
  mech=[("key functions", "x-bow/src/hash.rs"), ("visitor modes", "x-bow/src/hash_visitor.rs"), ("entry map", "x-bow/src/wakers.rs")],
  rule=("track", "x02"), technique="symbolic extraction and comparison of the key expressions registered and woken, per tracking mode; abstract interpretation of short histories against a specification of who hears whom",
  note="Key equality is decided as equality of symbolic expressions over (hash so far, depth). Assumes the 64-bit hash does not collide, as the crate documents. " + TRUST)

P(id="X04", title="Unconditional access is offered only where data can never be absent",
  statement="""A path offers the operations that do not return an option only if no step of it can find its data absent: no step into an
  enum variant, a collection item, or through a shared pointer that cannot be borrowed mutably. So these operations never panic for absent data.""",
  over=["programs"], all="All path types, including those derived for user types, and all data.",
  why="It is a typing fact about every path type; tests only instantiate a few.",
  files=["x-bow/src/guarantee.rs", "x-bow/src/impls/stdlib", "x-bow/src/impls/transparent.rs", "x-bow-macros/src/generate.rs"],
  mech=[("marker implementations with a bound on the parent", "x-bow/src/impls/stdlib/tuple.rs")],
  rule=("xbow2", "guarantee"), technique="trait-implementation query joined with the symbolic partiality of each path step",
  note="Partiality of each step is computed from its borrow functions, not from its name. " + TRUST)

P(id="X05", title="A change stream fires exactly when the data changed since its last poll",
  statement="""A change stream's first poll sets a baseline and is pending; every later poll is ready exactly if a change it listens to happened since
  the previous poll. Every poll leaves the current task's waker everywhere the stream listens, so the task is woken by the next change. Dropping a stream
  removes all its registrations and never anybody else's.""",
  over=["schedules", "histories"], all="All interleavings of polls (with any waker), changes and drops of any number of streams.",
  why="Tests poll one stream a few times with one executor; a missed waker or lost baseline needs particular sequences.",
  files=["x-bow/src/until_change.rs", "x-bow/src/wakers.rs"],
  mech=[("poll and drop of the stream", "x-bow/src/until_change.rs"), ("entry map", "x-bow/src/wakers.rs")],
  rule=("track", "x05"), technique="abstract interpretation of all short histories of subscribing, polling, changing and dropping over an abstract path and waker arena, each step against a small specification",
  note="Version sums do not overflow in practice (assumed). First-poll behaviour is the one the repository's tests pin. " + TRUST)

P(id="X06", title="Reactive adaptors run their callback once first and once per change",
  statement="""The adaptors that run a callback on a path's data run it on their first poll and on each poll after the data changed, never otherwise and
  never when the data is absent, and stay subscribed to changes in between. The asynchronous one replaces a running future by the new one and polls the current one until it finishes; the two-way one
  writes the latest incoming value, does not echo it to the callback, and ends with the incoming stream; the signal stream yields the data or ends if it is absent.""",
  over=["schedules", "histories"], all="All combinations of first or later poll, changed or unchanged, present or absent data, and incoming values.",
  why="Each adaptor has many event combinations per poll; tests cover none of the incoming or absent-data combinations.",
  files=["x-bow/src/path_ext/for_each.rs", "x-bow/src/path_ext/for_each_async.rs", "x-bow/src/path_ext/bind_for_each.rs", "x-bow/src/path_ext/signal_stream.rs"],
  mech=[("poll of each adaptor", "x-bow/src/path_ext")],
  rule=("track", "x06"), technique="abstract interpretation of all short histories of polls, changes, incoming values and disappearing data of each adaptor against a small specification",
  note="Each adaptor runs on the real change tracking; the waker arena is its contract (R02). Whether a change that coincides with an incoming value is told is left open. " + TRUST)

P(id="C01", title="A combinator never loses a child's wake-up",
  statement="""join, try_join, race and race_ok over tuples, arrays and vectors poll every child at their first poll. Afterwards, whenever a child that has not
  finished is woken, at whatever moment and from whatever thread, its parent task is woken through the waker of the latest poll (unless that wake-up is still outstanding) and
  the next poll of the combinator polls that child. A child that has finished or was not woken is not polled. A child woken while the poll is in progress is polled by a later one, and that later poll is requested.""",
  over=["schedules", "histories"], all="All numbers of children, all interleavings of wake-ups of any children with polls of the combinator, all wakers.",
  why="A lost wake-up needs a wake-up at one particular moment of a poll, or a second waker, or a particular earlier wake-up; tests sample a few schedules on one thread.",
  files=["async_ui_web_core/src/combinators/common", "async_ui_web_core/src/combinators/utils/wakers"],
  mech=[("combinator poll loops", "async_ui_web_core/src/combinators/common"), ("readiness: flags, wake list, parent waker under a mutex", "async_ui_web_core/src/combinators/utils/wakers")],
  rule=("comb", "c01"), technique="path-sensitive abstract interpretation of poll, wake and constructors over a lock-region and container model",
  note="Decides three facts whose conjunction is the property for any schedule: poll's lock region (register waker, take list, clear flags) precedes its polls and covers each listed child; a wake sets "
       "flag, list and parent atomically for every flag/list state; constructors queue all children. Bounds: tuple arities 1..12 are each analysed, arrays and vectors for symbolic length. " + TRUST)

P(id="C02", title="A finished child's output is delivered exactly once or dropped once",
  statement="""When a child of a combinator finishes, its output goes to that child's place in the result and to no other, and the child is not used again. The result is handed out exactly when it
  is complete, once, with all its places filled, and each child's output is in the position of the child. If the combinator is dropped, or ends early, every output stored but not handed out is dropped exactly once and every
  child is dropped exactly once; nothing is read that was not written, and nothing is leaked.""",
  over=["schedules", "histories", "programs"], all="All numbers of children, orders of completion, early ends and moments of dropping.",
  why="Slots are raw uninitialised memory: a wrong slot, a missed or a second drop shows only for one completion order and moment of dropping, and often not at all without a sanitizer.",
  files=["async_ui_web_core/src/combinators/common", "async_ui_web_core/src/combinators/utils/array.rs"],
  mech=[("finish-up branch of the poll loops", "async_ui_web_core/src/combinators/common"), ("PinnedDrop", "async_ui_web_core/src/combinators/common")],
  rule=("comb", "c02"), technique="typestate analysis (abstract interpretation) of output slots, completion flags and the pending counter through poll and drop",
  note="Drop is analysed for every single slot in each of its states; the poll loops for every path. Assumes children follow the Future contract. " + TRUST)

P(id="C03", title="Each combinator ends on the right child with the right result",
  statement="""join ends when all children have finished, with all outputs; race ends with the first finished child's output; try_join ends at the first error with
  that error, otherwise when all succeeded; race_ok ends at the first success with that value, otherwise when all failed with all errors. This holds alike for tuples of every size up to twelve, arrays and vectors, for nested use, and
  for no children: join, try_join and race_ok of nothing end at once, race of nothing never does.""",
  over=["schedules", "inputs", "programs"], all="All child outcomes in all orders for every input shape the library accepts.",
  why="Each (combinator, shape, arity) pair is its own expansion; tests instantiate few arities and few outcome orders.",
  files=["async_ui_web_core/src/combinators/join", "async_ui_web_core/src/combinators/race", "async_ui_web_core/src/combinators/try_join", "async_ui_web_core/src/combinators/race_ok"],
  mech=[("behaviour traits deciding what a finished child means", "async_ui_web_core/src/combinators/join"), ("entry points", "async_ui_web_core/src/combinators")],
  rule=("comb", "c03"), technique="symbolic evaluation of every behaviour implementation and entry point against the four combinators' decision table",
  note="How the loops act on the decision is decided by C02. The oracle table is written from the documentation. Found tuples of 12 missing for try_join and race_ok (fixed). " + TRUST)

P(id="C04", title="A combinator never confuses its children with one another",
  statement="""In a combinator the child that is polled, the waker it is given, the flag that records it as finished and its position among the rendered siblings all belong
  to the same child, and that child is the one at the same position of the input. So a wake-up of child i polls child i, a completion finishes child i, and the nodes of child i come before those of child j in the
  document exactly if i is less than j.""",
  over=["programs", "schedules"], all="All shapes and numbers of children, all orders of polling.",
  why="Mixing up two children is invisible unless exactly these two children behave differently; rendering positions cannot be tested without a browser.",
  files=["async_ui_web_core/src/combinators/common", "async_ui_web_core/src/combinators/utils"],
  mech=[("poll loops", "async_ui_web_core/src/combinators/common"), ("rendering context with the child's index", "async_ui_web_core/src/context.rs")],
  rule=("comb", "c04"), technique="index-provenance analysis: symbolic equality of the child, waker, flag, slot and position indices on every path",
  note="Includes the order in which constructors lay out the children. " + TRUST)

P(id="C05", title="Handing wakers around never leaks, double-frees or mixes them up",
  statement="""Every waker the combinators and the executor hand out may be cloned, woken by value or reference, and dropped, in any number and order and from any thread: the shared
  allocation it points into lives exactly as long as some waker or its owner, every clone wakes the same child as the original, and waking by value or by reference has the same effect. Cloning and dropping wake nothing.""",
  over=["schedules", "histories", "programs"], all="All sequences of clone, wake, wake_by_ref and drop on all wakers.",
  why="A reference miscounted by one is only seen by a sanitizer on the one sequence that exposes it; tests that never clone by hand miss it.",
  files=["async_ui_web_core/src/combinators/utils/wakers", "async_ui_internal_utils/src/dummy_waker.rs"],
  mech=[("raw waker tables", "async_ui_web_core/src/combinators/utils/wakers/shared_arc.rs"), ("redirect slots", "async_ui_web_core/src/combinators/utils/wakers")],
  rule=("comb", "c05"), technique="effect analysis of each raw waker table: net reference count, wake effect and child index per entry, on all paths",
  note="Every RawWakerVTable built in the workspace is found and analysed, whatever builds it. " + TRUST)

P(id="C06", title="What a mounted future rendered stays in order and leaves with it",
  statement="""A node rendered by a future is put into its container before the next node to its right in the order of positions, or at the end if there is none, and one node is registered per position. When a future whose poll rendered
  something is dropped, exactly the nodes registered below its position are removed from the container, each once; the nodes of other futures stay. A container whose own element is leaving makes the futures inside it skip their removal, and one whose
  element stays does not; when several enclosing containers are being dropped the outermost one decides, until it is done. Dropping a mount removes everything mounted. A container polls its contents with the waker it was given, in its own rendering context,
  and returns what they return.""",
  over=["schedules", "histories", "programs"], all="All trees of containers, combinators and elements, all orders in which their parts render, finish and are dropped.",
  why="No test of the repository looks at a DOM; an insertion point or a removal range that is wrong for one shape of positions, or a drop nested in another, shows only in a browser.",
  files=["async_ui_web_core/src/node_container.rs", "async_ui_web_core/src/node_sibling.rs", "async_ui_web_core/src/context.rs", "async_ui_web_core/src/dropping.rs"],
  mech=[("add and remove by position", "async_ui_web_core/src/context.rs"), ("container future and its drop", "async_ui_web_core/src/node_container.rs"), ("detachment blocker", "async_ui_web_core/src/dropping.rs")],
  rule=("dom", "c06"), technique="typestate exploration of container futures, and path-sensitive abstract interpretation of the position map's operations",
  assume=["Futures are polled before they are dropped (a sibling wrapper that was never polled has no context to remove from)", "Detachment blockers of nested live containers have distinct addresses"],
  note="The container's typestate is explored over new, polls and drop in every blocker state; add and remove are decided per context variant for a symbolic position map. " + TRUST)

P(id="C07", title="Positions of children compare in document order, outer levels first",
  statement="""The positions of two children compare as their sequences of indices from the outermost level to the innermost do, lexicographically, and two positions are equal exactly if these sequences are. Wrapping adds one new outermost level with the given index and keeps the inner ones.
  The position just after a position is greater than everything inside it and not greater than any position to its right: its innermost index is one higher and the rest is equal.""",
  over=["inputs"], all="All positions of any depth and all indices.",
  why="Tests compare a handful of positions; the removal of a range and the place of insertion depend on every comparison.",
  files=["async_ui_web_core/src/position.rs", "async_ui_web_core/src/context.rs", "async_ui_web_core/src/node_sibling.rs"],
  mech=[("comparison and wrapping", "async_ui_web_core/src/position.rs")],
  rule=("dom", "c07"), technique="symbolic evaluation of comparison, wrapping and successor over symbolic index sequences (loop obligations per level)",
  note="Comparison loops are decided by an obligation per iteration and per way out, for any depth. " + TRUST)

P(id="C08", title="A wake-up of the app is always followed by a poll of the app",
  statement="""Whenever the root future is woken (through the waker it was polled with, a clone of it, or schedule()), it is polled afterwards: a wake-up made outside of a poll queues a browser callback that runs the executor, and a wake-up made while the root future is being polled (run_now is on the stack) is answered by another poll before run_now returns. Scheduling again while already scheduled queues nothing.
  The root future is never polled inside its own poll, however schedule and run_now are called from within it. run_now returns once no wake-up is outstanding.
  get_executor creates one executor, makes the root future run exactly that executor forever, and returns it on every later call. mount_at spawns the app as a root container over the given node on that executor and schedules it; mount does so for the document body and detaches the task.""",
  over=["schedules", "histories"], all="Every interleaving of schedule, run_now, waker calls and browser callbacks, at any depth of calls from within a poll.",
  why="A lost wake-up needs a call at one particular point (during the poll, with the flag already set, or with a callback still pending); tests drive the executor in one order and in a browser only.",
  files=["async_ui_web_core/src/executor.rs", "async_ui_web/src/executor.rs", "async_ui_web/src/mount.rs"],
  mech=[("flags of the executor", "async_ui_web_core/src/executor.rs"), ("the executor apps run on", "async_ui_web/src/executor.rs"), ("mounting", "async_ui_web/src/mount.rs")],
  rule=("exec", "c08"), technique="abstract interpretation of the scheduling functions to their effect on the executor's flags, then enumeration of the reachable flag/callback/wake-up combinations to a fixpoint",
  how="Every function that schedules or runs the executor is interpreted path-sensitively from each reachable content of the executor's cells; the polled future is replaced by the closure of everything it could call (the wake functions found in its waker's table and run_now, themselves summarised the same way, to a least fixpoint). What is enumerated are abstract states, not executions of the code.",
  note="The browser is trusted to run a queued callback, and async_executor to notify its waker. The flags are whatever constants the cells of the executor's statics hold. " + TRUST)

P(id="R01", title="Every write to a ReactiveCell reaches everybody who waits for it",
  statement="""Write access to the content of a ReactiveCell is handed out only as a guard, and when the guard goes away the cell's change counter has moved and every task waiting for a change has been woken. The stream of changes of a cell fires at a poll exactly if it was polled before and a write ended since that poll; several writes count as one; a poll on which nothing changed is pending.
  Every poll that does not finish leaves the current task's waker in the stream's own slot, the stream never ends, and dropping it gives its slot back once. for_each runs its callback once at first and once after every change, and it never goes to sleep with a value the callback has not seen. Tasks wait in, and are woken from, one list that exists from the cell's creation on.""",
  over=["schedules", "histories", "inputs"], all="All orders of writes, polls, creations and drops of streams, any number of streams, any counter value.",
  why="A write that reaches some of the waiting tasks or is forgotten when it comes between two particular polls is a lost update; no test of the repository runs two tasks on a cell.",
  files=["async_ui_internal_utils/src/reactive_cell", "async_ui_internal_utils/src/reactive_cell/borrow_mut.rs", "async_ui_internal_utils/src/reactive_cell/until_change.rs", "async_ui_internal_utils/src/reactive_cell/for_each.rs"],
  mech=[("write guard", "async_ui_internal_utils/src/reactive_cell/borrow_mut.rs"), ("stream of changes", "async_ui_internal_utils/src/reactive_cell/until_change.rs")],
  rule=("arena", "r01"), technique="path-sensitive abstract interpretation of the guard's drop, of the stream's polls over a symbolic counter, and a typestate of for_each across its suspension points",
  how="The stream's poll is interpreted for each relation between the version it saw and the cell's (never polled, equal, behind by one, behind by several), with the counter itself symbolic; the drop of the guard every write method returns is interpreted with the loop over the waiting tasks as one obligation per task. for_each is a state machine of its suspension points; at each of them the cell may have changed.",
  note="The arena's operations are taken as specified here and decided by R02. A counter that wraps around is not considered. " + TRUST)

P(id="R02", title="A waker slot is in one list at a time and stays its owner's",
  statement="""In a waker arena the lists (each sublist with its head, and the list of free nodes) are circles whose forward and backward links agree, and no node is in two of them. add moves one free node, growing the arena if there is none, to the sublist given and returns it; remove moves the given node back to the free list and forgets its waker; add_sublist turns a free node into the head of an empty list; remove_sublist_if_empty frees the head exactly if its list is empty and says so.
  No operation touches the other nodes' membership, wakers or order. After growing, all new nodes are free except the one returned. update makes the slot wake what the given waker wakes and changes no other. iter yields the waker of every node of the list, once, and ends.""",
  over=["histories", "inputs"], all="All arenas of any size, all lists of any length, any position of the node in its list, and therefore all sequences of operations.",
  why="A link that is wrong only for neighbouring nodes, for the last free node or right after growing corrupts the list for some later operation of another owner; tests use small arenas.",
  files=["async_ui_internal_utils/src/wakers_arena.rs"],
  mech=[("doubly linked lists in one vector", "async_ui_internal_utils/src/wakers_arena.rs")],
  rule=("arena", "r02"), technique="shape analysis: each operation is interpreted on one abstract arena per aliasing pattern of the nodes it touches, remote nodes summarised, new nodes as a symbolic family",
  how="An operation reaches only the head of the list, the node, their neighbours and the ends of the free list, so the ways in which these coincide are finitely many; each is one abstract arena in which everything further away is a summary whose links lead nowhere. The lists after the operation are walked in both directions on the abstract heap. A write outside of the nodes shown, and a list that does not come back to its head, is a violation. Growth is one symbolic family of nodes given by the closure that makes them.",
  note="This is the invariant the cells (R01), x-bow's stores (X01, X02, X05) and their streams rely on; slots are used as handed out (a slot is removed once). " + TRUST)
P(id="L01", title="A dynamic list shows its items in the order its calls say",
  statement="""At any time the nodes between a DynamicList's two markers are its items in order, each item's nodes between the item's own two markers. insert puts a new item directly before the item with the before key, at the end if there is no such key; inserting a key that is taken replaces that item (its task is dropped) and answers true. remove takes exactly that item off and answers whether it was there. move_before moves the item, with everything between its markers, directly before the other item or to the end, and leaves it where it is when told to move it before itself. swap exchanges the two items and nothing else. retain asks about every item once and removes those refused. contains_key changes nothing. Only a missing key to move or swap panics.
  All of this is the same whether the list is being rendered or not. Rendering puts the whole list between the siblings that were there, holds its place among siblings rendered later, and runs the tasks; when the rendering is dropped the list is back in its stand-in container with all of its items in order, its place is given up, and it can be rendered again. Rendering a list that is shown already panics. Dropping a list keeps the futures in it from looking for their nodes.""",
  over=["histories", "inputs"], all="Lists of any length and content: each call on every position of the items involved to each other and to the ends, with and without items in between, with empty and longer items, with left-over nodes of items removed before, shown and hidden; therefore all sequences of calls.",
  why="The order is kept by moving runs of sibling nodes relative to each other; a mistake shows only for neighbours, for an item moved before itself, for a replaced item or after a second rendering. The repository has no host tests of its lists at all.",
  files=["async_ui_web/src/lists/dynamic_list.rs"],
  mech=[("dynamic_list", "async_ui_web/src/lists/dynamic_list.rs")],
  rule=("lists", "l01"), technique="shape analysis: each method is interpreted on one abstract page per arrangement of the items involved; DOM calls have their documented meaning on abstract child sequences",
  how="A page is the sequence of children of the list's container, items having their two markers and 0 to 2 nodes. Items the call is not about stand for any number of items, since no call looks inside them; the arrangements (order of the items involved, further items before, between and behind them) are enumerated, each method is interpreted from MIR on each, and the resulting sequence, map of items, dropped and spawned tasks are compared with the documented ones. render is interpreted up to where it waits and from there through its drop.",
  note="The browser's insertBefore/removeChild/nextSibling are taken as the DOM standard says, HashMap, Task and scopeguard as documented. Runs of 0, 1 and 2 nodes stand for longer ones: the moving loop treats every node alike. The wake-up of spawned tasks is async-executor's. " + TRUST)

P(id="L02", title="A DiffedList shows its latest keys in order and keeps the items that stay",
  statement="""After DiffedList::update the list shows exactly one item per key of the vector given, in its order. An item whose key was there before is the same item as before (its future is neither dropped nor made again, only moved); the renderer is called exactly once for each key that is new, and that key's item is what it answered; items whose keys are gone are removed. update does not panic, and the next update starts from these keys. A new list remembers no keys.
  Keys within one vector are distinct (as the documentation of the sister type says); the renderer and the keys' Eq, Hash and Clone do not call back into the list.""",
  over=["inputs", "histories"], all="Every arrangement, up to renaming, of 0 to 4 previous keys to 0 to 5 new ones (5 and 5 in the thorough tier), of which up to 3 have not been there before; the previous keys are those of any earlier update, so all sequences of such updates.",
  why="Which key a moved or new item is put before depends on what has been consumed and moved so far; a mistake shows for particular permutations combined with removals only, and nothing in the repository tests its lists.",
  files=["async_ui_web/src/lists/diffed_list.rs"],
  mech=[("diffed_list", "async_ui_web/src/lists/diffed_list.rs")],
  rule=("lists2", "l02"), technique="abstract interpretation of update on every arrangement of short symbolic key lists, collections and iterators followed exactly, the list underneath as L01 specifies it",
  how="Keys are names without any property except which are equal; vectors, hash sets and (peekable) iterators over them are exact abstract values, hash iteration orders are tried both ways; calls on the dynamic list have the meaning L01 decides. The final sequence of (key, origin of its future) and the calls of the renderer are compared with the documented ones.",
  note="The bound on the number of keys is a bound of the analysis: for longer lists it relies on the loop treating every key alike. " + TRUST)

P(id="L03", title="A ModeledList shows its model after update, whatever happened before",
  statement="""ListModel's insert, remove, pop, push, swap, move_item and modify_vec change the items as the operations of Vec of these names do (move_item takes the item at from to index to), and answer what those answer. After any sequence of such calls ModeledList::update makes the list show exactly the model's items in the model's order, without panicking: with every change applied, with changes since the last update only, with more changes than the model remembers, after modify_vec, for a list never updated before, and for a model other than the one of the last update, a clone of it included. Items whose key was in the model all the time are not made anew.
  A clone of a model has the same items and is a different model. Items of one model are distinct, as documented; the renderer and the keys' Eq, Hash and Clone do not call back into the list.""",
  over=["histories", "inputs"], all="Models of 0 to 6 items; all calls with all arguments from each model of up to 4 items, all histories of 2 calls (2 to 3 argument choices each) with an update in between or not, of 3 calls for 4 to 6 items (of 4 calls in the thorough tier); histories of a model and its clone or another model.",
  why="update replays a bounded change log whose start is computed from two counters; off-by-one mistakes show only when exactly the right number of changes happened since the last update, or when two models' counters agree by chance.",
  files=["async_ui_web/src/lists/modeled_list.rs"],
  mech=[("modeled_list", "async_ui_web/src/lists/modeled_list.rs")],
  rule=("lists2", "l03"), technique="abstract interpretation of the model's methods and update along every short history of public calls, on symbolic keys, against Vec's semantics",
  how="Every step interprets the MIR of one public method on the abstract state the step before ended in; the log, its versions and the identity of the model are whatever the code makes of them and are not looked at. What is compared is what a user sees: the slice a model derefs to, the answers, and the sequence of items shown.",
  note="Histories are bounded in length; the log of a model of n items holds n/2 changes, so that histories of 3 calls on 4 to 6 items (4 in the thorough tier) cover a log that is empty, partly used, full and overrun. " + TRUST)

P(id="L04", title="A Dropdown offers its latest options in order and keeps the selection",
  statement="""After Dropdown::update_options the menu consists of exactly the options given, in order, each with its new text; options that were in the menu keep their elements. What was selected before, by the user or by set_value, is selected afterwards if it is still in the menu, and value() still answers it; otherwise the menu shows nothing selected. set_value with an option of the menu selects it and with None, or an option that is not in the menu, deselects; afterwards value() is what was set, or None.""",
  over=["inputs", "histories"], all="Every arrangement, up to renaming, of 0 to 3 options in the menu to 0 to 3 new ones, each option of the menu selected by the user or by set_value, or none.",
  why="The browser silently changes the selection when options are inserted, moved and removed, and the place of an option depends on what was moved before; there are no tests of it at all.",
  files=["async_ui_web/src/components/dropdown.rs"],
  mech=[("dropdown", "async_ui_web/src/components/dropdown.rs")],
  rule=("lists2", "l04"), technique="abstract interpretation of the dropdown's methods on every arrangement of short symbolic option lists, on an abstract menu with a selection",
  how="The menu is an abstract sequence of option elements, each with its text, and which of them is selected; after the menu's content has changed the selection counts as unknown until the code sets it. Collections of options are followed exactly, as in L02.",
  note="insertBefore, removeChild, textContent, selectedIndex, value and selected are taken as the HTML standard says for a menu without multiple. Options of one call are distinct. " + TRUST)

P(id="L05", title="A DynamicSlot renders the future it was given last",
  statement="""While a DynamicSlot is rendered, what it polls is the future given last with set_future, from the next poll on, and nothing after clear_future; the future that was there before is dropped first. A message sent at any time, also before the slot is rendered, while a future in it is being polled, or several between two polls, is not lost and wakes the task that renders the slot. A future is polled with the waker of the task that polls the slot and never again after it has completed. Rendering a slot never ends. Nothing of the slot is borrowed while futures are polled or dropped, so they may use the slot they are in.""",
  over=["schedules", "histories"], all="Every order of set_future, clear_future, polls by either of two tasks, and child futures that are pending, complete, or change the slot while they are polled (all reachable states are enumerated).",
  why="No test renders a slot. What goes wrong needs several messages between two polls, a task that changes, a future that completes, or one whose drop uses the slot.",
  files=["async_ui_web/src/components/dynamic_slot.rs"],
  mech=[("dynamic slot", "async_ui_web/src/components/dynamic_slot.rs")],
  rule=("slot", "l05"), technique="abstract interpretation of the rendering coroutine's MIR to a fixpoint, with every message order played where it waits",
  how="The coroutine of render is interpreted on abstract futures. Where it waits, the poll that ended is compared with a specification (the future shown, whether it has completed, the message not read yet, the task to wake); then each sequence of messages is applied by interpreting set_future and clear_future, and the coroutine is resumed by either task, until no new states appear.",
  note="A slot is rendered once, as documented. " + TRUST)

P(id="L06", title="A VirtualizedList shows one range of its items, each once and in order",
  statement="""Whatever is measured on the page, after VirtualizedList::set_num_items returns, the items shown are those of one unbroken range of indices below the number of items, each once and in ascending order, and each shows what the renderer returned for its own index. No item past the end stays when the list becomes shorter. Items shown before and after an update keep what they show; the renderer is called at most once for an index in one update, and never for an index past the end. set_num_items does not panic.""",
  over=["inputs", "histories"], all="Every sequence of list lengths and every measurement of the page, by playing all index ranges (up to a bound, and far beyond it) from every reachable state of the list.",
  why="No test lays out a virtualized list. What goes wrong needs jumps past what is rendered, lists that become shorter or empty while scrolled down, and growth afterwards.",
  files=["async_ui_web/src/lists/virtualized_list.rs"],
  mech=[("virtualized list", "async_ui_web/src/lists/virtualized_list.rs")],
  rule=("virtual", "l06"), technique="abstract interpretation of the MIR of VirtualizedList over abstract item lists and unknown layouts",
  how="new and set_num_items are interpreted with the list of items as an abstract sequence of indices. Every decision that depends on a measurement is taken both ways; every index computed from measurements (a conversion from a floating-point number) takes every small value and a huge one. All states the list can get into are visited (up to 3 items in the quick tier, 5 in the thorough one), and what is shown after each update is checked.",
  note="Which range is right for the layout (that the visible part of the page is covered) is not decided: it depends on floating-point geometry and on the browser. The operations of DynamicList are taken from their documentation; L01 decides them. " + TRUST)
