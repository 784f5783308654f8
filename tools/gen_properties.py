#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the lines stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))
C = "crates/"
RC = C + "rx_core_common/src/"
def op(n): return C + f"rx_core_operator_{n}/src"
def ob(n): return C + f"rx_core_observable_{n}/src"
def sj(n): return C + f"rx_core_subject_{n}/src"

# ---------------------------------------------------------------- the core contract
p("C01", "Every subscriber sees the signal grammar, whatever the input history",
  "Whatever sequence of values, errors, completions and unsubscriptions a source produces, and whichever operator, observable or subject sits between, each subscriber observes any number of values, then at most one completion or error, then a single unsubscription, and nothing afterwards. A subscription reports itself closed exactly from the moment its stream ended (completed, errored or unsubscribed), never before and never later.",
  ["inputs", "histories"], "all event sequences up to the depth bound, including events sent after the stream ended, for every operator and observable",
  "The contract tests drive each operator through one happy history per contract; order-dependent state (queued, primed, partially drained) is reached only by other orders.",
  [RC + "subscribers", RC + "signals", C + "rx_core_operator_*/src", C + "rx_core_macro_subscriber_derive/src"],
  [("closed state of subscribers", RC + "subscribers/subscriber_observer.rs"), ("deferred state of shared subscribers", RC + "subscribers/subscriber_shared.rs"), ("delegated closedness", C + "rx_core_macro_subscriber_derive/src")],
  observe=["notifications at a probe destination", "closedness of the returned subscription"])
p("C02", "Every teardown runs exactly once, at the moment its subscription ends",
  "Every teardown, finalizer callback or nested subscription attached to a subscription runs exactly once: when the subscription completes, errors, is unsubscribed or is dropped, whichever happens first, and never earlier. A teardown attached to an already closed subscription runs immediately, and none is skipped because another teardown, a clone or a re-entrant call is involved.",
  ["histories", "programs"], "all sequences of attach, clone, nest, unsubscribe, drop and re-entrant attach or unsubscribe from inside a teardown, up to the depth bound",
  "Tests attach one or two teardowns and end the subscription one way; combinations of nesting, sharing, late attachment and re-entrancy are not enumerated.",
  [RC + "subscriptions", op("finalize"), C + "rx_core_subscription_inert/src", C + "rx_core_macro_subscription_derive/src"],
  [("teardown storage drained once", RC + "subscriptions/subscription_data.rs"), ("shared subscriptions defer re-entrant unsubscribes", RC + "subscriptions/subscription_shared.rs"), ("drop implementations", C + "rx_core_macro_subscription_derive/src")],
  observe=["per-teardown counters"])
p("C03", "When a stream ends, every upstream resource is released at once",
  "When a subscription ends for any reason (completion, error, unsubscription, drop, or the downstream closing early after any number of values) every source it had subscribed to is unsubscribed by the time control returns, each source exactly once, and no later source event, tick or queued inner stream reaches the subscriber. No scheduled work belonging to the subscription stays in its scheduler.",
  ["inputs", "histories", "configurations"], "all event sequences up to the depth bound times every downstream closing position, for every operator and every multi-source observable",
  "Early-close tests close after a fixed value in a fixed history; leaks appear when closing coincides with a queued, pending or half-finished inner stream.",
  [C + "rx_core_operator_*/src", C + "rx_core_observable_*/src", C + "rx_core_subscriber_higher_order*/src", RC + "subscriptions"],
  [("teardowns travel with the destination", RC + "subscriptions/subscription.rs"), ("work cancellation teardowns", RC + "subscriptions/teardown.rs"), ("inner subscription bookkeeping", C + "rx_core_subscriber_higher_order_concurrent/src")],
  observe=["active subscription count per probe source", "scheduler emptiness", "teardown counters"])
p("C04", "Pipelines behave as the composition of their operators, however they are built",
  "A chain of operators delivers exactly what applying the operators' meanings one after the other delivers, with the same closing moment. Building the same chain by piping, by composing operators first, by erasing or boxing intermediate observables, by wrapping it as optional, shared or deferred, or by cloning it makes no observable difference.",
  ["programs", "inputs"], "all chains of two and three operators from the catalogue times all event sequences up to the depth bound, over every construction route",
  "Tests exercise operators singly and a handful of fixed chains; interaction of one operator's early close or deferred emission with its neighbours is quadratic in the catalogue.",
  [RC + "pipe", RC + "observables", RC + "operators", op("composite"), op("identity"), RC + "subscribers/subscriber_erased.rs"],
  [("pipe subscription order", RC + "pipe/pipe_observable.rs"), ("operator composition", op("composite")), ("type erasure", RC + "observables/erased_observable.rs")],
  observe=["notifications at a probe destination"])

# ---------------------------------------------------------------- operators
p("O01", "Value-mapping operators compute the corresponding sequence function",
  "Mapping, filtering, scanning, enumerating, pairing, buffering, lifting, tapping and value-to-notification operators emit, for every input history, exactly the values of the corresponding function on sequences, one input at a time and in order, forwarding errors, completion and unsubscription unchanged at the same moment unless changing them is their purpose. Callbacks are invoked exactly once per relevant signal.",
  ["inputs", "histories"], "all event sequences up to the depth bound over a small value alphabet, for every value-mapping operator and its small parameter values",
  "Tests use a few increasing inputs; flushing on completion, boundary sizes and resetting state after errors depend on the whole history.",
  [op(n) for n in ("map","map_into","filter","filter_map","scan","enumerate","pairwise","buffer_count","lift_option","lift_result","tap","tap_next","identity","map_never","on_next")],
  [("per-operator subscriber state", C + "rx_core_operator_*/src")], observe=["notifications at a probe destination", "callback invocation log"])
p("O02", "Selecting and aggregating operators end exactly when their answer is known",
  "Taking, skipping, first, find, index, element, emptiness, counting and reducing operators emit the value their sequence function defines, and complete or error at the earliest event after which nothing more could be emitted, releasing the source at that event. Asking for zero elements completes without consuming the source; an operator whose answer never became available ends the way it documents.",
  ["inputs", "histories"], "all event sequences up to the depth bound times parameters 0..3, for every selecting or aggregating operator",
  "Tests cover a few counts; off-by-one behaviour at the boundary between parameter, history length and terminal signal needs all combinations.",
  [op(n) for n in ("take","skip","first","find","find_index","element_at","is_empty","count","reduce")],
  [("remaining counters and completion", op("take"))], observe=["notifications at a probe destination", "active source subscriptions"])
p("O03", "Error-handling operators transform, swallow or recover errors exactly as documented",
  "Catching, retrying, converting to and from results or notifications, error mapping and error boundaries deliver every value before the failure once, never deliver a handled error, and continue with exactly the replacement or re-subscription they promise. Retrying re-subscribes no more than the configured number of times, each time only after the previous attempt failed, and the failed attempt is released first.",
  ["inputs", "histories", "fault_sequences"], "all histories with every placement of errors across successive subscriptions up to the depth bound",
  "Tests fail once or twice at fixed points, synchronously or asynchronously, not every combination of attempts, values and failure positions.",
  [op(n) for n in ("catch","retry","into_result","lift_result","map_error","materialize","dematerialize","error_boundary")],
  [("retry attempt loop and counter", op("retry")), ("replacement subscription", op("catch"))], observe=["notifications", "number of source subscriptions and their teardowns"])
p("O04", "Concurrent flattening respects its limit, its order and its completion rule",
  "Merging or concatenating inner streams never has more than the configured number of inner subscriptions active, starts queued inner streams in arrival order as soon as a slot frees up, and forwards every value of every active inner stream once and in order. The result completes exactly when the outer stream and all started and queued inner streams have completed, and any error ends it at once and releases everything.",
  ["inputs", "histories", "configurations"], "all interleavings of outer and inner events up to the depth bound, limits 1..3, three inner streams",
  "Tests fix the interleaving of outer and inner events; the queue/slot/completion bookkeeping depends on every relative order, including inner streams that end during subscription or are unsubscribed.",
  [C + "rx_core_subscriber_higher_order_concurrent/src", C + "rx_core_subscriber_higher_order/src", C + "rx_core_subscriber_higher_order_all/src", C + "rx_core_subscriber_higher_order_map/src", op("merge_all"), op("concat_all"), op("merge_map"), op("concat_map")],
  [("slot and queue bookkeeping", C + "rx_core_subscriber_higher_order_concurrent/src")], observe=["notifications", "active subscriptions per inner source"])
p("O05", "Switching and exhausting keep exactly one inner stream, the right one",
  "A switching operator unsubscribes the previous inner stream before subscribing to the next and forwards only the latest one; an exhausting operator ignores outer values while an inner stream is active and accepts the next one afterwards. Both complete exactly when the outer stream and the active inner stream have completed, and an error from either ends the result and releases both.",
  ["inputs", "histories"], "all interleavings of outer and inner events up to the depth bound with three inner streams, including inner streams that end during subscription",
  "Tests fix the interleaving of outer and inner events.",
  [C + "rx_core_subscriber_higher_order_switch/src", C + "rx_core_subscriber_higher_order_exhaust/src", op("switch_all"), op("switch_map"), op("exhaust_all"), op("exhaust_map")],
  [("inner subscription replacement", C + "rx_core_subscriber_higher_order_switch/src"), ("busy flag", C + "rx_core_subscriber_higher_order_exhaust/src")], observe=["notifications", "active subscriptions per inner source"])
p("O06", "Boundary operators act exactly at subscription, first value and end",
  "Values prepended at subscription arrive before any source value and values appended at completion arrive after the last one and before completion, and neither appears on error or unsubscription when not documented; subscription callbacks run once per subscription and finalizers once per end. Combining with the latest value of a secondary stream emits once per primary value after the secondary produced one, always with its newest value, and ends with the primary.",
  ["inputs", "histories"], "all interleavings of primary and secondary events up to the depth bound",
  "Tests use one ordering of the secondary stream relative to the primary and one terminal per test.",
  [op(n) for n in ("start_with","end_with","on_subscribe","finalize","with_latest_from")],
  [("secondary subscription", op("with_latest_from"))], observe=["notifications", "callback log", "active subscriptions"])

# ---------------------------------------------------------------- combination and creation
p("M01", "Latest-value combination emits per input change and ends when priming is impossible",
  "Once every input has produced a value, each further input value yields exactly one emission holding the newest value of every input, in order; the changes variant instead emits on each input value from the first, telling which input is new. The combination completes when no further emission is possible, errors as soon as any input errors, and then releases every input.",
  ["inputs", "histories"], "all interleavings of events of two inputs (values, error, completion, unsubscription) up to the depth bound",
  "Each input has five states and the rule depends on the pair and on arrival order; tests name a handful of orders.",
  [ob("combine_latest"), ob("combine_changes"), C + "rx_core_notification_store/src"],
  [("completion and unsubscription conditions", ob("combine_latest"))], observe=["notifications", "active subscriptions per input"])
p("M02", "Pairing observables pair strictly by position and end when pairing is impossible",
  "Zipping emits the n-th pair exactly when both inputs have produced their n-th value, for every interleaving, and completes as soon as a finished input has no queued value left; queue limits drop values only as configured. Joining emits one pair of last values exactly when both inputs have completed, and nothing otherwise.",
  ["inputs", "histories", "configurations"], "all interleavings of events of two inputs up to the depth bound, queue limits and overflow policies",
  "Completion depends on queue contents and arrival order; tests name a handful of orders.",
  [ob("zip"), ob("join"), C + "rx_core_notification_store/src", C + "rx_core_notification_variadics/src"],
  [("notification queues", C + "rx_core_notification_store/src")], observe=["notifications", "active subscriptions per input"])
p("M03", "Merge and concat observables subscribe in order and end together with their inputs",
  "The merge observable forwards every value of every active input and completes when all inputs completed; the concat observable subscribes to the next input only after the previous completed and forwards them in order. An error of any active input ends the result at once and releases the others, and inputs that were never started stay unsubscribed.",
  ["inputs", "histories", "configurations"], "all interleavings of events of three inputs up to the depth bound, concurrency 1..3",
  "Tests use fixed interleavings.",
  [ob("merge"), ob("concat"), C + "rx_core_subscriber_higher_order_concurrent/src"],
  [("concurrent subscription of inputs", ob("merge"))], observe=["notifications", "active subscriptions per input"])
p("M04", "Creation observables emit exactly their content and stop when told to",
  "Observables made from a value, an iterator, a creation or deferral function, or the empty, erroring, silent and closed ones emit exactly their defined content to every subscriber independently and end as defined. They stop producing immediately when the subscriber closes, pulling no further element and running user code no further than needed.",
  ["inputs", "configurations"], "all contents up to the length bound times every early-closing position times repeated subscriptions",
  "Tests use one content and one closing position.",
  [ob(n) for n in ("just","iterator","create","deferred","empty","throw","never","closed")],
  [("emission loop", ob("iterator"))], observe=["notifications", "iterator pull count"])

# ---------------------------------------------------------------- scheduling and time
p("T01", "Scheduled work runs at the right tick, in the right number, whatever the tick sizes",
  "For every sequence of ticks, delayed work runs once at the first tick whose time reaches its due time, immediate work once at the next tick, continuous work once per tick, invoked work once per invocation at the next tick, and repeated work as often as its interval elapsed limited by its per-tick maximum. No work runs early, twice in a tick, or after it reported itself done, and works due in the same tick run in scheduling order.",
  ["schedules", "histories"], "all sequences of ticks of different sizes (including zero), schedule and invoke operations up to the depth bound",
  "Tests tick in regular steps; overshooting, zero-length ticks and scheduling from inside running work interact with every kind of work.",
  [C + "rx_core_scheduler_ticking/src", RC + "scheduling"],
  [("tick loop", C + "rx_core_scheduler_ticking/src/ticking_executor.rs"), ("due-time checks", C + "rx_core_scheduler_ticking/src/work")], observe=["execution log with tick times"])
p("T02", "Cancelled work never runs, and cancelling touches nothing else",
  "Once cancelled, a piece of work never runs again, also when the cancellation happens in the same tick, from inside another or the same work, or before it was ever activated. Cancelling by an identifier removes all and only the work registered under that identifier, invocable or active, and after everything is cancelled or finished the scheduler holds no work.",
  ["schedules", "histories"], "all sequences of schedule, invoke, cancel and tick operations on up to three identifiers, issued from outside or from running work",
  "Tests cancel single works between ticks.",
  [C + "rx_core_scheduler_ticking/src", RC + "scheduling"],
  [("queued scheduler actions", C + "rx_core_scheduler_ticking/src/ticking_scheduler.rs"), ("cancellation in the tick loop", C + "rx_core_scheduler_ticking/src/ticking_executor.rs")], observe=["execution log", "executor emptiness"])
p("T03", "Delaying and rescheduling preserve values, order and end",
  "A delaying operator delivers every value exactly once, in order, at the first tick not earlier than its due time, and completion after the last delayed value; re-scheduling observation delivers on the scheduler's next tick in order; scheduled subscription starts the source once at its due tick. Errors and unsubscription follow the documented immediacy and no value is delivered after them.",
  ["schedules", "inputs"], "all interleavings of source events and ticks of several sizes up to the depth bound",
  "Tests use one timing per case; coinciding due times, overshooting ticks and completion with pending values need all interleavings.",
  [op("delay"), op("observe_on"), op("subscribe_on")],
  [("pending work bookkeeping", op("delay"))], observe=["notifications with tick times", "scheduler emptiness"])
p("T04", "Rate-limiting operators emit the right value at the right tick",
  "Debouncing emits a value only once the source was quiet for the whole duration, always the newest one; throttling emits at most one value per period according to its configured edges; the silence fallback emits its replacement exactly in ticks during which the source was silent. Completion flushes or discards the pending value as documented, and timing is measured from the value that opened the period, for every tick size.",
  ["schedules", "inputs", "configurations"], "all interleavings of source events and ticks of several sizes up to the depth bound, all edge configurations",
  "Tests tick exactly at boundaries; overshoot, several values per tick and idle periods between values change which value survives.",
  [op("debounce_time"), op("throttle_time"), op("fallback_when_silent")],
  [("pending value and timer work", op("throttle_time"))], observe=["notifications with tick times", "scheduler emptiness"])
p("T05", "Timers and intervals fire exactly as often as their period elapsed",
  "A timer fires once at the first tick reaching its due time and completes; an interval counts up by one per elapsed period without drift, limited per tick as configured, optionally starting at subscription; a ticked iterator emits one item per its configured number of ticks and completes after the last. None of them emits after unsubscription and each subscriber has an independent clock.",
  ["schedules", "configurations"], "all tick sequences up to the depth bound with sizes below, at and above the period, all option combinations, one or two subscribers",
  "Tests tick regularly with one option set.",
  [ob("timer"), ob("interval"), ob("iterator_on_tick"), C + "rx_core_scheduler_ticking/src"],
  [("repeated work", C + "rx_core_scheduler_ticking/src/work"), ("tick counting", ob("iterator_on_tick"))], observe=["notifications with tick times", "scheduler emptiness"])

# ---------------------------------------------------------------- subjects
p("S01", "A subject delivers every signal once to everyone subscribed at that time",
  "Each subscriber of a subject receives exactly the values pushed between its subscription and its end, once, in push order, independently of other subscribers coming, going, closing early or failing. Completion or error reaches every current subscriber once and ends the subject; later values are ignored, and a subscriber arriving after the end is closed immediately with the terminal signal the subject kind defines.",
  ["histories", "inputs"], "all sequences of push, terminal, subscribe, unsubscribe, early-close and drop with up to three subscribers and every clone of the subject, up to the depth bound and over subscriber iteration orders",
  "Tests use one or two subscribers in a fixed history.",
  [sj("publish"), sj("behavior"), sj("replay"), sj("async"), C + "rx_core_macro_subject_derive/src"],
  [("subscriber table and deferred queue", sj("publish"))], observe=["notifications per subscriber", "closedness"])
p("S02", "Replaying subjects give late subscribers exactly the promised past",
  "On subscription a behaviour subject first delivers its current value, a replay subject its last N values in order, and an async subject nothing until completion and then its single result, followed by the terminal signal if the subject already ended, exactly as each documents. What is replayed is precisely what was accepted before the end: a closed subject neither accepts nor later replays new values.",
  ["histories", "inputs"], "all sequences of push, terminal, unsubscribe and subscribe up to the depth bound, buffer sizes 0..3",
  "Tests subscribe late at one point of one history.",
  [sj("behavior"), sj("replay"), sj("async"), sj("publish"), sj("provenance")],
  [("stored value or buffer", sj("replay"))], observe=["notifications per subscriber"])
p("S03", "Provenance filtering separates origins without losing anyone's signals",
  "A subscriber that asks for everything, for only one origin, or for the current value whatever its origin followed by one origin receives exactly the matching values in order, the current value on subscription included under the same rule. Terminal signals reach every subscriber regardless of origin.",
  ["histories", "inputs"], "all sequences of pushes from two origins, terminals and subscriptions of every filter kind, up to the depth bound",
  "Tests push a few values with fixed filters.",
  [sj("provenance")], [("origin filter", sj("provenance"))], observe=["notifications per subscriber"])
p("S04", "Sharing connects to the source once and releases it by the configured rules",
  "A connectable or shared observable has at most one subscription to its source at any time, starts it on connect or first subscriber as configured, multicasts every source signal to all current subscribers, and releases or keeps the source on disconnect, last unsubscription, completion or error exactly as its options say. Reconnecting after a reset behaves like a fresh observable.",
  ["histories", "configurations"], "all sequences of subscribe, unsubscribe, connect, disconnect and source events up to the depth bound, all option combinations",
  "Options multiply histories; tests check a handful of pairs.",
  [ob("connectable"), op("share")], [("reference counting and reset policy", ob("connectable"))], observe=["active source subscriptions", "notifications per subscriber"])

# ---------------------------------------------------------------- re-entrancy and threads
p("R01", "Re-entrant use from callbacks neither deadlocks, loses nor duplicates signals",
  "Callbacks of a subscriber (value, error, completion or teardown) may push to, complete, fail, subscribe to or unsubscribe from the very stream that is calling them. Such calls never deadlock or panic, take effect exactly once and no later than the return of the outermost call, keep the issue order of values, and respect the signal grammar.",
  ["programs", "histories"], "all placements of up to two re-entrant actions in the callbacks of up to two subscribers over all short histories, for subjects, shared subscribers and subscriptions, and operators fed by subjects",
  "Tests re-enter with single hand-picked actions; deadlocks depend on which lock is held at which callback.",
  [sj("publish"), RC + "subscribers/subscriber_shared.rs", RC + "subscriptions/subscription_shared.rs", sj("behavior"), sj("replay"), sj("async")],
  [("try-lock plus deferred queue", RC + "subscribers/subscriber_shared.rs")], state=[("deferred queue", "signals issued while the destination is busy", RC + "subscribers/subscriber_shared.rs")], observe=["notifications", "self-deadlock detection", "panics"])
p("K01", "Concurrent use of a subject is equivalent to some sequential order",
  "When several threads push, complete, fail, subscribe and unsubscribe on clones of one subject, every subscriber observes a history that some sequential order of those calls explains: each accepted value once, per-thread order kept, at most one terminal, nothing afterwards. No call deadlocks or panics, and once all calls returned no accepted signal is still pending.",
  ["schedules"], "all thread interleavings with bounded preemptions of two or three threads with one to three calls each",
  "Tests run single-threaded; races between the busy check and the deferred queue need particular preemptions.",
  [sj("publish"), sj("behavior"), sj("replay"), sj("async"), RC + "subscribers/subscriber_shared.rs"],
  [("try-lock plus deferred queue", sj("publish"))], observe=["notifications per subscriber at quiescence"])
p("K02", "Concurrent unsubscribing and sharing run each teardown exactly once",
  "When threads concurrently unsubscribe, drop, query or attach teardowns to clones of one shared subscription or subscriber, possibly while another thread delivers values through it, every teardown runs exactly once by the time all calls returned, no value arrives after the unsubscription finished, and nothing deadlocks or panics.",
  ["schedules"], "all thread interleavings with bounded preemptions of two or three threads with one to three calls each",
  "Tests run single-threaded.",
  [RC + "subscriptions/subscription_shared.rs", RC + "subscribers/subscriber_shared.rs", RC + "subscriptions/subscription_data.rs"],
  [("deferred unsubscribe", RC + "subscriptions/subscription_shared.rs")], observe=["per-teardown counters at quiescence"])
p("K03", "Scheduling and cancelling from other threads while ticking is safe and complete",
  "Work scheduled, invoked or cancelled from other threads while the executor is ticking is either processed by that tick or by the next one, exactly once; work whose cancellation returned before a tick started never runs in that tick. Streams fed by scheduled work and unsubscribed from another thread end without deadlock and leave the scheduler empty.",
  ["schedules"], "all thread interleavings with bounded preemptions of an executor thread and one or two client threads with one to three calls each",
  "Tests run single-threaded.",
  [C + "rx_core_scheduler_ticking/src", RC + "scheduling/scheduler_handle.rs", op("delay"), ob("interval")],
  [("scheduler lock and queue drain", C + "rx_core_scheduler_ticking/src/ticking_executor.rs")], observe=["execution log", "executor emptiness"])

# ---------------------------------------------------------------- bevy
p("B01", "Entity subscriptions and their entities live and die together",
  "In a Bevy world, despawning a subscription entity or removing its subscription ends the subscription and runs its teardowns exactly once; when the stream ends by itself its entity disappears by the end of the frame, and when the app exits every subscription is ended. Despawning a subject's entity or removing the subject ends every subscription of the subject; despawning or removing a plain observable ends none of the existing subscriptions and makes no new ones possible.",
  ["histories", "schedules"], "all sequences of subscribe, despawn, remove, source event and frame update up to the depth bound with two subscriptions",
  "Tests perform a single lifecycle per test app.",
  [C + "rx_bevy_common/src"], [("subscription component hooks", C + "rx_bevy_common/src"), ("despawn work", C + "rx_bevy_common/src")], observe=["teardown counters", "entity existence", "notifications"])
p("B02", "Event observables forward exactly the events of their entity until it is gone",
  "An event observable delivers each event triggered on its entity while subscribed, once and in order, to every subscriber, and nothing from other entities or after unsubscription. It completes when the observed entity is despawned and leaves no observer behind when its subscriptions end.",
  ["histories"], "all sequences of subscribe, trigger on two entities, unsubscribe, despawn and update up to the depth bound",
  "Tests trigger fixed sequences.",
  [C + "rx_bevy_observable_event/src"], [("satellite observer entity", C + "rx_bevy_observable_event/src")], observe=["notifications", "leftover entities"])
p("B03", "Message and key observables deliver every message once per frame in order",
  "A message observable delivers every message still buffered at its subscription and every message written later exactly once, in order, at its schedule, whatever the number of messages per frame and of empty frames, independently per subscriber; the keyboard observable does the same for key signals in its configured mode. Nothing is delivered after unsubscription.",
  ["histories", "configurations"], "all sequences of write (0..2 per frame), subscribe, unsubscribe and update up to the depth bound, all keyboard modes",
  "Tests write a fixed pattern.",
  [C + "rx_bevy_observable_message/src", C + "rx_bevy_observable_keyboard/src"], [("message cursor", C + "rx_bevy_observable_message/src")], observe=["notifications per frame"])
p("B04", "Resource observables emit once per relevant change",
  "A resource observable emits once in each frame in which its resource was changed or added according to its options, with the value read in that frame, stays silent in frames without change, and survives removal and re-insertion of the resource, for every subscriber independently.",
  ["histories", "configurations"], "all sequences of mutate, insert, remove and update up to the depth bound, all option combinations",
  "Tests change a resource in a fixed pattern.",
  [C + "rx_bevy_observable_resource/src"], [("change detection", C + "rx_bevy_observable_resource/src")], observe=["notifications per frame"])
p("B05", "Bevy schedulers run work once per schedule run with the schedule's clock",
  "Work scheduled on a Bevy scheduler runs in the schedule and on the clock it was registered for, with exactly the per-tick semantics of the ticking scheduler for every frame duration, and cancelling or unsubscribing leaves nothing behind. Subscriptions to scheduled observables emit in that schedule only.",
  ["schedules", "histories"], "all sequences of frame durations and scheduling operations up to the depth bound, two schedules",
  "Tests use regular frames.",
  [C + "rx_bevy_common/src", C + "rx_core_scheduler_ticking/src"], [("scheduler plugin systems", C + "rx_bevy_common/src")], observe=["execution log per frame"])
p("B06", "Entity and resource destinations and proxied observables lose no signal",
  "Signals sent to an entity or resource destination reach that entity or resource once, in order, at the next run of the destination's schedule, whatever chain of relaying entities they pass; those whose destination is gone by then are discarded without failing. Subscriptions made through an entity holding an observable or subject behave as subscribing to it directly. A subscription requested before its observable exists is made as soon as the observable exists if that is before the frame ends, and otherwise its destination is unsubscribed and its entity despawned; it never outlives the entity it was given, and nothing panics.",
  ["histories"], "all sequences of spawn, subscribe, source event, despawn and update up to the depth bound",
  "Tests use one order of insertion and subscription.",
  [C + "rx_bevy_common/src", C + "rx_bevy_observable_proxy/src"], [("signal triggers", C + "rx_bevy_common/src"), ("retry system", C + "rx_bevy_common/src")], observe=["triggered signals", "entity existence"])
p("A01", "Envelope phases follow the activation history for every tick sequence",
  "The attack-decay-sustain-release operator walks its phases in order for every sequence of activations, releases and tick sizes, its output stays within the configured levels, and each phase lasts its configured time measured from its trigger. It stops working when its stream ends.",
  ["schedules", "inputs", "configurations"], "all interleavings of activation, release and ticks of several sizes up to the depth bound",
  "Tests follow one press-and-release profile.",
  [op("adsr")], [("phase computation", op("adsr"))], observe=["notifications with tick times"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
