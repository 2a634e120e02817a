#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that statements stay uniform).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+f} for f,n in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

SEQ="The tests replay a handful of hand-written diff sequences on fixed small vectors; the property quantifies over every sequence of changes, every value and every point at which the input goes quiet or ends."
CON="The tests are single-threaded (or run one lucky interleaving); the property quantifies over every interleaving of the involved threads, and a lost wakeup needs one particular pre-emption between two atomic operations."

p("C01","A Mutable's signals never miss the latest value, under any interleaving",
"Each signal taken from a Mutable yields the current value on its first poll, and whenever the value is changed after a poll that returned Pending, the polling task is woken and its next poll yields the newest value. This holds for every interleaving of the threads that change the value and the tasks that poll, and for any number of simultaneous signals. Intermediate values may be skipped, but the last one never is, and a signal never yields more values than there were writes plus one.",
["schedules","histories"],"every interleaving of the writers' and pollers' atomic steps, every sequence of writes, every value",CON,
["signal/mutable.rs"],[("signal/mutable.rs","MutableSignalState::poll_change, MutableLockState::notify, ChangedWaker::wake")])
p("C02","A Mutable's signals end exactly when its last handle is dropped",
"A signal of a Mutable ends if and only if every Mutable handle (clones included) has been dropped, and only after the final value was yielded; read-only handles do not keep it alive. A task that waits on the signal while the last handle is being dropped is woken and observes the end, under every interleaving of the drops, clones and polls.",
["schedules","histories"],"every interleaving of handle clones and drops with polls; every order of drops",CON,
["signal/mutable.rs"],[("signal/mutable.rs","Drop for Mutable, MutableSignalState::poll_change, senders counter")])
p("C03","Mutable operations act like assignments and notify exactly when they should",
"get, set, replace, replace_with, swap, set_if, set_neq and the mutable lock read and write the value exactly like the corresponding operations on a plain variable, for every sequence of calls. Signals yield a new value after every write, including a write of an equal value, but not after operations that made no write: a failed set_if, a set_neq with an equal value, or a mutable lock that was only read through. All clones and read-only views of one Mutable always show the same value.",
["histories","inputs"],"every sequence of operations up to the stated length with arbitrary values","The tests fix a few call sequences with fixed numbers; the property is about every sequence and every value.",
["signal/mutable.rs"],[("signal/mutable.rs","Mutable::{replace,replace_with,swap,set,set_if,set_neq}, MutableLockMut")])
p("C04","A signal channel delivers the last sent value and its closing",
"The receiver yields the initial value first and afterwards always the most recently sent value; a waiting task is woken by every send that arrives after it was told Pending, and the receiver ends once the channel was closed or every sender was dropped, but only after the last value accepted by a send was yielded. send fails, returning the value, when the channel has been closed, and succeeds before that; closing is final however many senders are cloned or dropped afterwards. All of this holds under every interleaving of senders and receiver.",
["schedules","histories"],"every interleaving of send, clone, drop and close on any sender with receiver polls",CON,
["signal/channel.rs"],[("signal/channel.rs","Sender::{send,close,clone,drop}, Receiver::poll_change")])
p("C05","Every signal of a Broadcaster sees the latest value and the end",
"Every signal created from a Broadcaster, at any time, yields the source's latest value, is woken when the source changes after it was told Pending, and ends when the source ends. This holds whatever the order in which the signals are polled, for any number of them, if the source wakes the broadcaster from within its own poll, and under every interleaving of polls on different threads with changes of the source. A signal never yields twice for one source value.",
["schedules","histories"],"every order/interleaving of child polls, source changes and source end",CON,
["signal/broadcaster.rs"],[("signal/broadcaster.rs","BroadcasterState::poll_change, BroadcasterNotifier::{notify,is_changed,wake}, BroadcasterSharedState::poll")])
p("C06","Cancelling a cancelable future is never lost",
"After the handle of a cancelable future was discarded, the future completes: its task is woken, the next poll drops the inner future without polling it further and yields the result of the cancellation callback, which is called exactly once. If it is not cancelled first, it yields exactly the inner future's output and the callback is never called. This holds for every interleaving of the discarding thread with polls.",
["schedules","histories"],"every interleaving of discard with poll; every point of completion of the inner future",CON,
["future.rs"],[("future.rs","CancelableFutureHandle::discard, CancelableFuture::poll")])
p("C07","Replaying a MutableVec's changes rebuilds its exact contents",
"For any history of MutableVec operations, every signal_vec taken from it at any time yields a sequence of in-range changes that, applied in order to an empty vector, reproduces the vector's contents as soon as the signal has no more changes. The operations themselves change the contents and return values exactly as their Vec counterparts do, operations that change nothing emit nothing, and the signal ends exactly when the last MutableVec handle is dropped. The waiting task is woken by every change.",
["histories","inputs"],"every sequence of operations with every index and value, any subscriber arrival time","Tests drive fixed sequences; index arithmetic in drain/retain/truncate/move/swap/reverse depends on values and positions.",
["signal_vec.rs"],[("signal_vec.rs","mod mutable_vec: MutableVecState, MutableVecLockMut, MutableSignalVec")])
p("C08","Replaying a MutableBTreeMap's changes rebuilds its exact contents",
"For any history of MutableBTreeMap operations, every signal_map taken from it at any time yields changes that rebuild the map's exact contents, inserting only absent keys and updating or removing only present ones. The keys and entries vectors derived from it replay to the map's keys and entries in key order. Operations return what the BTreeMap counterparts return, operations that change nothing emit nothing, and the signals end exactly when the last handle is dropped.",
["histories","inputs"],"every sequence of inserts, removals, clears and replacements with arbitrary keys and values","Tests use a few fixed keys and orders.",
["signal_map.rs"],[("signal_map.rs","mod mutable_btree_map: MutableBTreeState, MutableBTreeMapKeys, MutableBTreeMapEntries")])
p("C09","Applying a VecDiff performs exactly the documented list operation",
"Applying any in-range VecDiff to a vector performs exactly the list operation it documents: replace all, insert at, update at, remove at, move from old to new position, push, pop, clear. No other element changes and no element is lost or duplicated. Applying the same diff to a MutableVec has the same effect on its contents and on what its signals report.",
["inputs"],"every vector up to the stated length and every in-range diff with arbitrary indices and values","Tests exercise one example per diff kind.",
["signal_vec.rs"],[("signal_vec.rs","VecDiff::apply_to_vec, MutableVecLockMut::apply_vec_diff")])
p("C10","filter and filter_map keep exactly the matching elements, in order",
"Replaying the output of filter (filter_map) on a SignalVec always reproduces the input's elements that satisfy the predicate (the mapped elements that are Some), in input order, whenever the output has no more pending changes. Every output change is in range for the vector rebuilt so far. This holds for every valid sequence of input changes and every predicate.",
["histories","inputs"],"every valid sequence of input diffs, every value, every predicate outcome",SEQ,
["signal_vec.rs"],[("signal_vec.rs","Filter, FilterMap, poll_filter_map, filter_helper find_index")])
p("C11","sort_by_cloned keeps the output sorted and stable",
"Replaying the output of sort_by_cloned always reproduces the input's elements sorted by the given comparison, with equal elements in input order (a stable sort). Every output change is in range. This holds for every valid sequence of input changes and every key.",
["histories","inputs"],"every valid sequence of input diffs with arbitrary, possibly equal, keys",SEQ,
["signal_vec.rs"],[("signal_vec.rs","SortByCloned")])
p("C12","chain reproduces the concatenation of both vectors",
"Replaying the output of chain always reproduces the left vector followed by the right vector, for every interleaving of changes on the two inputs, including ends of either side. Every output change is in range, and the output ends exactly when both inputs have ended.",
["histories","inputs","schedules"],"every interleaving of two valid diff sequences with pending points and ends",SEQ,
["signal_vec.rs"],[("signal_vec.rs","Chain::{poll_vec_change,process_left,process_right_change,process_replace,process_clear}")])
p("C13","flatten of a SignalVec reproduces the concatenation of its inner vectors",
"Replaying the output of flatten on a SignalVec of SignalVecs always reproduces the concatenation of the current contents of all inner vectors in outer order. This holds for every interleaving of changes of the outer vector with changes of the inner ones, including inserting, replacing, moving and removing non-empty inner vectors. Every output change is in range.",
["histories","inputs","schedules"],"every interleaving of outer and inner diffs",SEQ,
["signal_vec.rs"],[("signal_vec.rs","Flatten, FlattenState")])
p("C14","map and enumerate track every element",
"Replaying the output of map reproduces the function applied to each current element, and calls the function exactly once per element that arrives. For enumerate, every element carries an index signal that always shows the element's current position and shows None once the element was removed. This holds for every valid sequence of input changes.",
["histories","inputs"],"every valid diff sequence",SEQ,
["signal_vec.rs"],[("signal_vec.rs","Map, Enumerate")])
p("C15","map_signal shows each element's latest inner value",
"Replaying the output of map_signal always reproduces, for each current element in order, the latest value of the signal created for it. The signal of an element that was removed no longer influences the output, and the output ends exactly when the input and all remaining signals have ended. This holds for every interleaving of vector changes with changes of the per-element signals.",
["histories","inputs","schedules"],"every interleaving of diffs and inner signal changes",SEQ,
["signal_vec.rs"],[("signal_vec.rs","MapSignal")])
p("C16","filter_signal_cloned keeps exactly the elements whose signal is true",
"Replaying the output of filter_signal_cloned always reproduces the input's elements whose own boolean signal currently shows true, in input order. Every output change is in range. This holds for every interleaving of vector changes with changes of the boolean signals.",
["histories","inputs","schedules"],"every interleaving of diffs and boolean signal changes",SEQ,
["signal_vec.rs"],[("signal_vec.rs","FilterSignalCloned, find_index")])
p("C17","delay_remove keeps removed elements until their future completes",
"In the output of delay_remove an element appears exactly when it appears in the input and disappears exactly once: after it was removed from the input and its future has completed. The surviving elements keep the input's order, and every output change is in range. This holds for every sequence of input changes and every completion order of the futures.",
["histories","inputs","schedules"],"every diff sequence and every completion time of each removal future",SEQ,
["signal_vec.rs"],[("signal_vec.rs","DelayRemove")])
p("C18","len, is_empty, sum and to_signal summaries agree with the vector",
"len, is_empty, sum, to_signal_map and to_signal_cloned always show the value computed from the input's current contents once all its available changes were consumed. len, is_empty and sum yield a first value even for an empty input, none of them yields again unless the input changed, is_empty never yields the same value twice in a row, and every summary ends when the input ends. This holds for every valid sequence of input changes.",
["histories","inputs"],"every valid diff sequence, pending and end points",SEQ,
["signal_vec.rs"],[("signal_vec.rs","Len, IsEmpty, SumSignal, ToSignalMap, ToSignalCloned")])
p("C19","Switching and converting signals into vectors shows only the current source",
"Replaying switch_signal_vec always reproduces the contents of the inner vector chosen by the outer signal's latest value, and nothing of earlier inner vectors remains. Converting a signal of vectors to a SignalVec always shows the latest vector, and a stream converted to a SignalVec shows exactly the items received so far in order. This holds for every interleaving of outer and inner changes and ends.",
["histories","inputs","schedules"],"every interleaving of outer and inner events",SEQ,
["signal/signal.rs","signal_vec.rs"],[("signal/signal.rs","SwitchSignalVec, SignalSignalVec"),("signal_vec.rs","StreamSignalVec, Always")])
p("C20","SignalMap combinators reflect the current map",
"Replaying map_value reproduces the function applied to each current value, and replaying map_value_signal reproduces, for each current key, the latest value of that key's signal. key_cloned always shows the current value of its key, or None while the key is absent. This holds for every valid sequence of map changes interleaved with changes of the value signals.",
["histories","inputs","schedules"],"every valid MapDiff sequence over arbitrary keys, interleaved with inner signal changes",SEQ,
["signal_map.rs"],[("signal_map.rs","MapValue, MapValueSignal, MapWatchKeySignal, Always")])
p("C21","Combined signals always equal the function of their inputs' latest values",
"The signals built by map, inspect, map_ref!, map_mut!, and, or, not, option, result, eq and neq show, once nothing is pending, exactly the function applied to the latest value of every input. They end exactly when all inputs ended. This holds for every interleaving of the inputs' changes.",
["histories","inputs","schedules"],"every interleaving of changes, pendings and ends of the input signals, every value",SEQ,
["signal/signal.rs","signal/macros.rs","internal.rs"],[("signal/signal.rs","Map, Inspect, and/or/not, Eq, Neq, OptionSignal, ResultSignal"),("internal.rs","MapRef1, MapRefSignal, PollResult"),("signal/macros.rs","map_ref!, map_mut!")])
p("C22","Deduplicating, filtering and stopping signals drop only what they may",
"The dedupe family yields the latest value exactly when it differs from the last one it looked at; filter_map yields the latest mapped value that is Some, and yields None at first if the first value is rejected; first yields exactly the first value, stop_if yields values up to and including the first that satisfies the test and then ends. Each calls its callback exactly once per input value it consumes, in order. This holds for every sequence of input values.",
["histories","inputs"],"every sequence of values, pendings and ends",SEQ,
["signal/signal.rs"],[("signal/signal.rs","DedupeMap, Dedupe, DedupeCloned, FilterMap, First, StopIf")])
p("C23","switch, flatten, map_future and throttle show the newest inner result",
"switch and flatten show the latest value of the inner signal belonging to the latest outer value. map_future shows None until a future completed and then the result of the newest completed future, never of one that was superseded before completing; throttle passes values on at most once per completed delay future and never loses the latest one. This holds for every interleaving of outer values, inner values and completions, and each ends exactly when nothing can change any more.",
["histories","inputs","schedules"],"every interleaving of outer changes with inner changes/completions and ends",SEQ,
["signal/signal.rs"],[("signal/signal.rs","Switch, Flatten, MapFuture, Throttle")])
p("C24","Signals convert to and from futures and streams without losing values",
"to_stream yields exactly the signal's values and ends with it; to_future resolves to the last value once the signal has ended; wait_for resolves with the value as soon as it appears, or None if the signal ends first; sample_stream yields the latest signal value once per stream item. from_future shows None and then the output; from_stream shows None if nothing is ready and then always the latest item. This holds for every sequence of values, pendings and ends.",
["histories","inputs","schedules"],"every interleaving of values, pendings and ends",SEQ,
["signal/signal.rs"],[("signal/signal.rs","SignalStream, SignalFuture, WaitFor, SampleStreamCloned, FromFuture, FromStream, Always")])
p("C25","for_each handles every change in order, one at a time, without losing the last",
"for_each on a Signal, SignalVec or SignalMap starts the next callback's future only after the previous one completed. For SignalVec and SignalMap every change is passed to the callback exactly once and in order; for Signal the latest value is always eventually passed. The future completes exactly when the source has ended and the last callback future completed.",
["histories","inputs","schedules"],"every interleaving of source events and completions of callback futures",SEQ,
["signal/signal.rs","signal_vec.rs","signal_map.rs"],[("signal/signal.rs","ForEach"),("signal_vec.rs","ForEach, SignalVecStream"),("signal_map.rs","ForEach, SignalMapStream")])
p("C26","No combinator stalls: Pending always means a wakeup is registered",
"Whenever a combinator, future or stream of this library returns Pending, every one of its inputs that could still change anything was itself polled to Pending with the current task's waker, so that no later change is missed. When all inputs have ended it reports its own end rather than Pending. This holds for every sequence of input events.",
["histories","inputs","schedules"],"every sequence of input events for every combinator","The tests' executors poll again on their own and do not notice a missing wake; the quantifier is over all input event sequences.",
["signal/signal.rs","signal_vec.rs","signal_map.rs","internal.rs"],[("signal_vec.rs","every poll_vec_change/poll_change"),("signal/signal.rs","every poll_change"),("signal_map.rs","every poll_map_change")])
p("C27","An input that has ended is never polled again",
"Once an input signal, vector, map, stream or future has reported its end or completed, no combinator of this library polls it again, as long as the combinator itself has not yet reported its own end. This holds for every sequence of input events.",
["histories","inputs","schedules"],"every sequence of input events for every combinator","Inputs that end at just the wrong moment are not in the tests, and the test sources tolerate repolling.",
["signal/signal.rs","signal_vec.rs","signal_map.rs","internal.rs"],[("signal_vec.rs","combinators' end-of-input state"),("signal/signal.rs","combinators' end-of-input state"),("signal_map.rs","combinators' end-of-input state")])
p("C28","No use after free, double drop, leak or data race in the shared-state code",
"Under every interleaving of safe API calls, values handed to the library are dropped exactly once, no freed memory is accessed, no two threads access the same non-atomic memory without synchronisation, and no call deadlocks or panics (callbacks and wakers that call back into the same object excepted). After all handles, signals and wakers are dropped, no memory remains allocated.",
["schedules","histories"],"every interleaving of the concurrent API calls of Mutable, channel, Broadcaster, cancelable futures and MutableVec",CON,
["atomic.rs","signal/mutable.rs","signal/channel.rs","signal/broadcaster.rs","future.rs"],[("atomic.rs","AtomicOption::{store,take,swap}, Lock"),("signal/channel.rs","Inner"),("signal/broadcaster.rs","shared state"),("future.rs","CancelableFutureState")])
p("C29","Concurrent MutableVec and MutableBTreeMap edits reach every subscriber",
"When several threads edit a MutableVec or MutableBTreeMap while other threads poll signals of it, each signal still replays to the final contents, is woken after its last Pending if anything changed, and ends when the last handle is dropped. This holds for every interleaving of the edits, subscriptions, drops and polls.",
["schedules","histories"],"every interleaving of editing, subscribing, dropping and polling threads",CON,
["signal_vec.rs","signal_map.rs"],[("signal_vec.rs","MutableVecState::notify, MutableSignalVec, senders counter"),("signal_map.rs","MutableBTreeState::notify, MutableSignalMap")])
p("C30","Serialising and deserialising a mutable container preserves its contents",
"Serialising a Mutable, MutableVec or MutableBTreeMap presents exactly the current contents to the serializer, as the plain value would, and deserialising builds a container with exactly the given contents. This holds for all contents.",
["inputs"],"all contents up to the stated size","There is no test that serialises arbitrary contents.",
["signal/mutable.rs","signal_vec.rs","signal_map.rs"],[("signal/mutable.rs","impl Serialize/Deserialize"),("signal_vec.rs","impl Serialize/Deserialize"),("signal_map.rs","impl Serialize/Deserialize")])
p("C31","Wrapped, boxed and constant signals pass everything through unchanged",
"A signal, vector or map behind Box, Pin, a mutable reference, a trait object, boxed, boxed_local or debug behaves exactly like the wrapped one: every poll reaches it once with the caller's waker, and yields what it yielded. The always signals, vectors and maps yield their contents once and then end. This holds for every sequence of values, pendings and ends.",
["histories","inputs"],"every sequence of events of the wrapped source, all constant contents up to the stated size","The tests do not poll through most of the wrappers at all.",
["signal/signal.rs","signal_vec.rs","signal_map.rs"],[("signal/signal.rs","impl Signal for &mut A / Box / Pin, boxed, debug, Always"),("signal_vec.rs","impl SignalVec for &mut A / Box / Pin, boxed, debug, Always"),("signal_map.rs","impl SignalMap for &mut A / Box / Pin, Always")])
p("C32","Views of the containers show and compare exactly their contents",
"The lock views of Mutable, MutableVec and MutableBTreeMap show exactly the current contents however the container was built, and comparing, ordering, hashing, indexing and slicing a view gives what the same operation on the plain contents gives; so does the Debug output of the containers. Dropping other handles never changes the contents. This holds for all contents.",
["inputs"],"all contents up to the stated size","No test compares, orders, hashes or indexes a view.",
["signal/mutable.rs","signal_vec.rs","signal_map.rs"],[("signal_vec.rs","make_shared!, From, new_with_values, with_capacity"),("signal_map.rs","make_shared!, From, with_values"),("signal/mutable.rs","lock_ref, lock_mut, From, Default")])
p("C33","Dropped subscribers are forgotten at the next change",
"Once a signal, vector signal, map signal or broadcaster signal was dropped, the next change of its source leaves nothing of it allocated, however many subscribers came and went and whether or not they were ever polled, and the remaining subscribers still see that change. So memory does not grow with the number of past subscribers of a changing source.",
["histories"],"every history of subscribing, polling, dropping and changing within the bounds","No test measures what remains of a dropped subscriber.",
["signal/mutable.rs","signal/broadcaster.rs","signal_vec.rs","signal_map.rs"],[("signal/mutable.rs","MutableLockState::notify"),("signal/broadcaster.rs","BroadcasterNotifier::notify"),("signal_vec.rs","MutableVecState::notify"),("signal_map.rs","MutableBTreeState::notify")])
p("C34","Superseded inner sources are dropped, not just ignored",
"When an element is removed or replaced, a key is removed, or an outer signal moves on, the inner signal, vector or future that belonged to it is dropped before the combinator next waits or ends: its resources are released and a superseded future is cancelled. This holds for map_signal, filter_signal_cloned, flatten, switch, switch_signal_vec, map_future and map_value_signal and for every interleaving of outer and inner events.",
["histories","schedules"],"every interleaving of outer and inner events within the bounds","The tests look at outputs only, not at whether the superseded inputs are released.",
["signal/signal.rs","signal_vec.rs","signal_map.rs"],[("signal/signal.rs","Switch, Flatten, MapFuture, SwitchSignalVec"),("signal_vec.rs","MapSignal, FilterSignalCloned, Flatten"),("signal_map.rs","MapValueSignal")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
