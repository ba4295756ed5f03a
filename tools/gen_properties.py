#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))
MUT="src/signal/mutable.rs"; CH="src/signal/channel.rs"; BR="src/signal/broadcaster.rs"; SIG="src/signal/signal.rs"
MAC="src/signal/macros.rs"; INT="src/internal.rs"; SV="src/signal_vec.rs"; SM="src/signal_map.rs"; FU="src/future.rs"; AT="src/atomic.rs"

p("C01","A Mutable is one shared cell for all of its handles",
 "For every sequence of operations (set, replace, replace_with, swap, set_if, set_neq, writes through a lock guard) made through any clones of a Mutable, every read through any clone or read-only view returns the latest written value, every replacing operation returns the value it replaced, and conditional writes see (current, new) and write exactly when told to. `swap` exchanges the two values and terminates, also when both handles refer to the same Mutable.",
 ["histories","inputs"],"every interleaved sequence of operations over any number of clones, read-only views and distinct Mutables",
 "The tests use a handful of fixed call sequences; aliasing of handles (including swap with itself), clones dropped in the middle and mixed read/write sequences are not sampled.",
 [MUT],[("replace/replace_with/swap/set/set_if/set_neq/lock_mut",MUT)],["return values of every read and write operation"])

p("C02","Signals of a Mutable: latest value, notified on every change, end with writers",
 "Every signal taken from a Mutable (or its read-only view) yields the current value when first polled; afterwards, whenever the value was written since its last poll it is woken and its next poll yields exactly the latest value, and when nothing was written it stays pending (a lock guard that was never mutably dereferenced and a rejected conditional write do not notify). It ends exactly when all writer handles are gone, and only after the final value was yielded.",
 ["histories"],"every history of writes, clones, drops, subscriptions, signal drops and polls, with any number of signals over one Mutable",
 "The tests follow one or two signals through fixed scripts; they do not cover subscription in the middle, dead subscribers between live ones, stale wakers, or ends that coincide with changes.",
 [MUT],[("ChangedWaker changed flag and waker slot",MUT),("writer count, final notification",MUT)],["poll results of every signal","which wakers were woken"],
 [("ChangedWaker","per-signal changed flag and latest waker",MUT),("senders","number of live writer handles",MUT)])

p("C03","signal::channel delivers the latest value and closes exactly once",
 "A channel's receiver yields the initial value first; afterwards it yields the most recently sent unseen value, is woken by every send and by the close, and ends exactly when the channel was closed or the last sender dropped, after yielding any unseen value. `send` succeeds exactly while the channel is open and the receiver is alive, otherwise it hands the value back; closing is permanent for all clones, also those made later.",
 ["histories"],"every history of send/clone/close/drop over any number of senders interleaved with receiver polls and receiver drop",
 "Tests have a few linear scripts (send, send, drop); no clone-after-close, receiver-gone or multi-sender histories.",
 [CH,AT],[("value slot + waker slot + sender count",CH)],["send results","receiver poll results and wakeups"])

p("C04","Broadcaster children all see the input's latest value",
 "Every signal of a Broadcaster (or of its clones) yields the most recent value of the input signal when first polled and after every change of the input, independently of how many other children exist, when they were created, polled or dropped; it is woken when the input changes, also when the input wakes its poller while it is being polled. It ends exactly when the input has ended and its final value was seen, and the input is never polled after it ended.",
 ["histories","inputs"],"every script of the input signal and every history of creating, polling and dropping children",
 "Tests use at most two children in lockstep with a well-behaved source; children that lag, appear late, are dropped or re-poll spuriously are not sampled.",
 [BR],[("epoch, notifier, shared input poll",BR)],["poll results and wakeups of every child","polls received by the input"])

p("C05","Single-input signal combinators compute their documented function",
 "For every input signal history, each of map, inspect, eq, neq, dedupe, dedupe_map, dedupe_cloned, filter_map, stop_if, first, not, debug, boxed, the option/result/always constructors, yields exactly the outputs its documentation assigns to the inputs it consumed, in order, calling its closure exactly once per consumed input. It is pending only if it will be woken, and it ends exactly as documented (with its input, or on the stop condition) without consuming more of the input.",
 ["inputs","histories"],"every sequence of input values (with repeats, equal-but-distinguishable values, empty histories, ends) and every poll schedule, including spurious polls",
 "Tests give each combinator one or two hand-picked input sequences.",
 [SIG],[("poll_change of each adapter",SIG)],["output items","closure calls","polls received by the input"])

p("C06","map_ref!, map_mut!, and, or recompute from the latest of all inputs",
 "A signal built from several inputs with map_ref!, map_mut!, or and/or yields as soon as every input has a value, and after any set of inputs changed its next value is the function applied to the latest value of every input, evaluated once for that change. It ends exactly when all inputs have ended, and no input is polled after it ended.",
 ["inputs","histories"],"any number and nesting of inputs, every order in which inputs start, change, and end, every poll schedule",
 "Tests have two or three inputs and a few changes; arities above 3 and inputs ending in different orders are not covered.",
 [MAC,INT,SIG],[("__internal_map_ref polling all inputs",MAC),("MapRef1/MapRefSignal/PollResult",INT)],["output items","polls received by the inputs"])

p("C07","flatten and switch follow exactly the current inner signal",
 "flatten, switch and switch_signal_vec follow the inner signal belonging to the latest outer value: after any history of outer and inner changes their output equals the current inner's latest contents (for switch_signal_vec, applying the emitted diffs recreates it, replaced inners leaving nothing behind), and flatten and switch run the closure once per consumed outer value (switch_signal_vec drains its outer signal, so it may skip all but the latest). They end exactly when the outer signal and the current inner have both ended; replaced or ended inners are never polled again.",
 ["histories","inputs"],"every interleaving of outer changes, inner changes and ends, including inners that are empty or end at once, and outers that end first or last",
 "Tests have single fixed scripts per combinator.",
 [SIG,SV],[("Flatten/Switch/SwitchSignalVec state machines",SIG)],["outputs / replayed vector","polls of inners","wakeups"])

p("C08","Asynchronous signal combinators keep only the latest work",
 "map_future yields the result of the future belonging to the latest input that completed (None first if it is not ready yet), dropping superseded futures unpolled thereafter; throttle yields the first value at once and then at most one value per completed throttling future, always ending up at the latest; from_future yields the result (None first if it is not ready yet) and ends; from_stream yields None if no item is there yet, then the latest stream item; sample_stream_cloned yields for every stream item the latest value of the signal. Each terminates exactly as its inputs do and stays woken until it has delivered the latest value.",
 ["histories","schedules"],"every order in which inputs change and end and futures/stream items complete, including immediate completion",
 "Tests run one schedule each with fixed completion order.",
 [SIG],[("MapFuture, Throttle, FromFuture, FromStream, SampleStreamCloned",SIG)],["output items","future drops and polls","wakeups"])

p("C09","Consumers (for_each, to_stream, to_future, wait_for) handle every item in order",
 "for_each on a Signal calls its callback on consumed values one at a time (the next call only after the previous future completed) and always handles the latest value last; for_each on a SignalVec or SignalMap and to_stream pass on every item, in order, none skipped or repeated. to_future resolves with the final value, wait_for with Some of the first consumed match or None if the input ends without one, and each consumer completes exactly when its input is exhausted.",
 ["histories","schedules"],"every input history, every completion order of the callback futures, every poll schedule",
 "Tests use immediately ready callbacks and short inputs.",
 [SIG,SV,SM],[("ForEach, SignalStream, ToFuture, WaitFor",SIG),("ForEach, SignalVecStream",SV),("ForEach",SM)],["callback calls","completion","wakeups"])

p("C10","MutableVec behaves like Vec for every operation sequence",
 "For every sequence of MutableVec operations (push, pop, insert, remove, set, swap, move, truncate, retain, drain, extend, reverse, clear, replace, apply_vec_diff, and the capacity operations) the contents, return values and panics on out-of-range arguments are those of the corresponding Vec operation; moving or swapping an index with itself does nothing. The slice, equality, ordering, hashing, indexing and Debug views of a lock agree with those of that Vec, and VecDiff::apply_to_vec performs on a Vec the operation the diff describes.",
 ["histories","inputs"],"every operation sequence with in-range and out-of-range arguments, every range form for drain, and partially consumed drains",
 "Tests apply a dozen fixed operations.",
 [SV],[("MutableVecState / MutableVecLockMut",SV)],["contents, return values and panics"])

p("C11","Every MutableVec subscriber can replay its diffs to the exact contents",
 "For every history of MutableVec operations, a subscriber that starts at any moment and polls at any moments receives diffs that are all applicable and which, replayed in order, recreate exactly the contents at each moment it has caught up; it starts with a Replace of the current contents (or with nothing if empty), never skips or reorders a change, and is woken by every change. Operations which have nothing to do (clearing an empty vector, moving to the same index, removing nothing) send nothing, and the subscription ends exactly when all writer handles are gone and all its diffs were delivered.",
 ["histories"],"every operation history, any number of subscribers created, polled and dropped at any point",
 "Tests have one subscriber and short scripts per operation.",
 [SV],[("per-subscriber change queues, notify",SV)],["diffs received by each subscriber","wakeups"])

p("C12","SignalVec map, filter and filter_map track the transformed contents",
 "For every valid diff history of the input, the diffs produced by map, filter, filter_map (and inspect-like adapters such as debug and boxed) are applicable and, replayed, give exactly the mapped/filtered contents of the input after every step. The closure runs exactly once for each value that is inserted or updated, never for moves and removals.",
 ["histories","inputs"],"every valid diff history, including empty replaces, clears of empty vectors, moves in both directions and updates that change filter membership",
 "Tests cover each diff kind a few times at fixed positions; combinations of membership patterns with moves and updates are unexplored.",
 [SV],[("Map, Filter, FilterMap, find_index",SV)],["replayed contents","closure calls"])

p("C13","sort_by_cloned always outputs the stably sorted input",
 "For every valid diff history of the input and every comparison function that is a total preorder, replaying the diffs of sort_by_cloned gives exactly the stable sort of the current input contents after every step, and every diff is applicable.",
 ["histories","inputs"],"every valid diff history, with many equal keys, and arbitrary total preorders",
 "Tests use few values without long runs of ties.",
 [SV],[("SortByCloned indexes, binary search",SV)],["replayed contents"])

p("C14","chain and flatten concatenate their inputs at all times",
 "Replaying the diffs of chain gives the left contents followed by the right contents after every step, and replaying the diffs of flatten gives the concatenation, in outer order, of the current contents of the inner vectors currently in the outer vector. Both hold for every interleaving of changes of all inputs, every diff is applicable, no change is withheld until a later unrelated wakeup, and they end exactly when all inputs have ended.",
 ["histories","schedules"],"every interleaving of valid diff histories of the outer and all inner vectors, including empty replaces, removals and moves of nonempty inners, and ends in any order",
 "Tests check a few hand-written interleavings.",
 [SV],[("Chain left_len/right_len",SV),("Flatten inner_len bookkeeping and pending queue",SV)],["replayed contents","wakeups","termination"])

p("C15","enumerate index signals always show the current position",
 "For every valid diff history, the vector output of enumerate pairs every element with an index signal; whenever the output has caught up, each present element's index signal has (or is woken and yields) exactly its current position. The index signal of a removed, replaced or cleared element yields None, and no element's index signal is exchanged with another's.",
 ["histories"],"every valid diff history, polls of the index signals at any time",
 "Tests check single diffs on vectors of three or four elements.",
 [SV],[("Enumerate mutables, increment/decrement",SV)],["pairs in the replayed output","index signal values"])

p("C16","Scalar and bridge views of a SignalVec equal the function of its contents",
 "len, is_empty, sum, to_signal_map and to_signal_cloned always yield, once caught up, the length, emptiness, sum, mapped value and clone of the current contents, starting with a first value also for empty vectors, being woken for every change of the result, and ending exactly when the input does after the final value. Signal::to_signal_vec, signal_vec::always and from_stream produce vectors that replay to the latest signal value, the given values, and the items of the stream.",
 ["histories","inputs"],"every valid diff history delivered in any batches, ends coinciding with the last change",
 "Tests have a few fixed histories; ends in the same poll as a change, empty histories and empty replaces are missing.",
 [SV,SIG],[("Len, IsEmpty, SumSignal, ToSignalMap, ToSignalCloned",SV),("SignalSignalVec",SIG)],["output items","termination"])

p("C17","map_signal and filter_signal_cloned track the per-element signals",
 "For every valid diff history of the vector and every history of the per-element signals, replaying the diffs of map_signal gives every element's latest signal value in vector order, and replaying those of filter_signal_cloned gives exactly the elements whose signal's latest value is true, in order. The closure runs once per inserted or updated element, signals of removed elements are not polled any more, every diff is applicable, and the output ends exactly when the vector and all its elements' signals have ended.",
 ["histories","schedules"],"every interleaving of vector diffs with per-element signal changes and ends",
 "Tests interleave only a handful of fixed steps.",
 [SV],[("MapSignal, FilterSignalCloned",SV)],["replayed contents","closure calls","termination"])

p("C18","delay_remove keeps elements exactly until their future completes",
 "For every valid diff history and every completion order of the removal futures, delay_remove outputs every live input element in input order and, in addition, exactly those removed elements whose removal future has not completed. The future made for an element is polled only once the element was removed (also by clear or replace; updates replace the element in place), every diff is applicable, and the output ends exactly when the input ended and no delayed element remains.",
 ["histories","schedules"],"every interleaving of vector diffs with completions of removal futures",
 "Tests run single removals with fixed timing.",
 [SV],[("DelayRemove futures and index translation",SV)],["replayed contents","future polls","termination"])

p("C19","MutableBTreeMap behaves like BTreeMap and its diffs replay to it",
 "For every sequence of MutableBTreeMap operations through any clones the contents and return values are those of BTreeMap, and every subscriber, started at any time, receives applicable diffs (insert only for absent keys, update and remove only for present ones) which replay to the exact contents each time it has caught up. Subscribers are woken by every change, operations which have nothing to do (removing an absent key, clearing an empty map) send nothing, and the subscription ends exactly when all writer handles are gone and everything was delivered.",
 ["histories"],"every operation history over small and large key sets, any number of subscribers at any time",
 "Tests have one subscriber and a few fixed scripts.",
 [SM],[("MutableBTreeMapState, notify_clone/notify_with",SM)],["contents, return values, diffs and wakeups"])

p("C20","SignalMap combinators and sorted key/entry views track the map",
 "For every valid map-diff history, map_value and map_value_signal replay to the mapped contents (with each entry's latest signal value), key_cloned yields the key's current value or None and changes when and only when that key is affected (Clear and Replace affect every key), and a MutableBTreeMap's signal_vec_keys and signal_vec_entries replay to its keys and entries in key order. All of them are woken for every change and end exactly when their inputs do.",
 ["histories","inputs"],"every valid map-diff history, interleaved with per-entry signal changes and polls",
 "Tests cover single diffs on maps with up to three entries.",
 [SM],[("MapValue, MapValueSignal, MapWatchKeySignal, MutableSignalVec keys/entries",SM)],["replayed contents","key signal values","termination"])

p("C21","Any pipeline is woken for every change and settles to the right value",
 "For every composition of the library's Signal, SignalVec and SignalMap combinators over any sources, polling only when the most recently supplied waker was woken suffices: whenever nothing is woken, the output equals the composed function of the sources' current values, and it has ended exactly when no source still in use can change. Every signal has a value on its first poll. No input is ever polled again after it reported its end, and spurious polls change nothing.",
 ["programs","histories","schedules"],"every composition of combinators, every source history and every poll schedule",
 "Tests exercise combinators in isolation, with at most two composed, using wakers that are never replaced.",
 [SIG,SV,SM,BR,MUT],[("waker propagation in every poll function",SV)],["output at quiescence","wakeups","polls of inputs"])

p("C22","cancelable_future completes or runs its cancel callback, promptly and once",
 "A cancelable future yields the inner future's output if it completes before cancellation is observed, and otherwise, once its handle was discarded at any moment (before, during or after a poll, from the polled future itself or another thread), its most recent waker is woken and its next poll drops the inner future and yields the cancel callback's result. The callback runs at most once and only after cancellation; the inner future is not polled afterwards.",
 ["schedules","histories"],"every placement of the cancellation relative to polls, on one or two threads, every inner future script",
 "Tests cancel only before or between polls on one thread.",
 [FU],[("is_cancelled flag and waker slot",FU)],["poll results, wakeups, inner drop, callback calls"],
 [("CancelableFutureState","cancel flag and stored waker",FU)],"schedule hook (cfg futures_signals_verif) around locks and atomics")

p("C23","Mutable, channel and Broadcaster lose no update, wakeup or end under threads",
 "When writers, senders and handle drops run on other threads concurrently with the polling of Mutable signals, channel receivers and Broadcaster children, then in every interleaving each consumer that polls only when woken ends up having seen the last written value, and then the end if all writers are gone; it never yields a value older than one it already yielded by the same writer. No interleaving of these operations deadlocks, including swaps in both directions and self-swaps.",
 ["schedules"],"every interleaving, at the granularity of lock and atomic operations, of small concurrent programs over these types",
 "Tests are single-threaded, or run real threads with whatever schedule the OS gives.",
 [MUT,CH,BR,AT],[("check-then-register in poll functions",MUT),("sender count transitions",CH),("epoch and changed flag in shared poll",BR)],["values and ends seen by each consumer","deadlock"],
 None,"schedule hook (cfg futures_signals_verif) around locks and atomics")

p("C24","MutableVec and MutableBTreeMap subscribers stay exact under threads",
 "When several threads mutate, clone, drop and subscribe to a MutableVec or MutableBTreeMap concurrently, then in every interleaving each subscriber's diffs are applicable and replay to contents the collection really had, in an order all subscribers agree on, ending at the final contents and then the end once all writers are gone. No interleaving deadlocks or leaves a subscriber waiting with undelivered changes.",
 ["schedules"],"every interleaving, at the granularity of lock and atomic operations, of small concurrent programs over these types",
 "Tests are single-threaded.",
 [SV,SM],[("state RwLock, unbounded queues, sender drop",SV)],["replayed contents per subscriber"],
 None,"schedule hook (cfg futures_signals_verif) around locks and atomics")

p("C25","Serde round-trips Mutable, MutableVec and MutableBTreeMap transparently",
 "Serialising a Mutable, MutableVec or MutableBTreeMap gives exactly the serialisation of the contained value, Vec or BTreeMap; deserialising what the plain type serialised to gives a container with the same contents, also after any history of changes and for nested containers, and input that the plain type rejects is rejected.",
 ["inputs","histories"],"every content (nested, empty, large, with extreme numbers and arbitrary strings) and malformed documents",
 "The one test checks a fixed small value.",
 [MUT,SV,SM],[("Serialize/Deserialize impls",MUT)],["serialised text and deserialised contents"])

p("C26","Values are owned exactly once: no leak, double drop or use after drop",
 "For every history over Mutables, channels, MutableVecs, MutableBTreeMaps, broadcasters and combinator pipelines, every value put in is dropped exactly once and never used after its drop; values removed or replaced are released as soon as no subscriber can still observe them, and dropping all handles and signals releases everything they held, also the wakers they were given.",
 ["histories"],"every history of operations, subscriptions, polls and drops in any order",
 "Tests never count drops.",
 [AT,CH,MUT,SV,SM],[("raw pointer ownership in AtomicOption",AT),("pin projections in MapRef1",INT)],["drop counters of tracked values"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [len(x["title"]) for x in P if len(x["title"])>80])
