#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


T, S, G, H, L = "src/timer/mod.rs", "src/tokio/sleep.rs", "src/timer/global.rs", "src/timer/heap.rs", "src/timer/arc_list.rs"
CK, TU, IV, TO, ST = "src/timer/clock.rs", "src/tokio/test_utils.rs", "src/tokio/interval.rs", "src/tokio/timeout.rs", "src/std.rs"
DQ, WM, WL, UM = "src/tokio_util/delay_queue.rs", "src/tokio_util/wheel/mod.rs", "src/tokio_util/wheel/level.rs", "src/tokio_util/mod.rs"

p("C01", "A sleep never completes before its deadline",
  "A sleep (and everything built on it) reports completion, through polling or through its elapsed query, only after the crate's clock was observed at or past the sleep's current deadline. An expiry that was computed for an earlier deadline of the same sleep never counts for a later one, and creating, dropping or resetting other sleeps never completes it.",
  ["inputs", "schedules", "histories"], "all deadlines, all interleavings of create/reset/drop/poll with the timer's own runs",
  "Unit tests fire a handful of sleeps with a paused clock and sample few reset histories; a stale expiry needs a particular interleaving.",
  [T, S, G], [("expiry test and completion mark", "Timer::advance_to"), ("completion read", "Sleep::poll / is_elapsed"), ("generation change", "Sleep::reset")],
  ["Sleep::poll", "Sleep::is_elapsed"])

p("C02", "A sleep whose deadline has passed completes and wakes its task",
  "Whenever the timer runs at a time at or after a sleep's current deadline, that sleep is completed in that run and the task that last polled it as pending is woken, no matter how many other sleeps expire in the same run. A poll that returns pending has registered the polling task before it took its final look at the completion state, so an expiry racing with the poll is never lost.",
  ["schedules", "histories"], "every number and order of due sleeps; every interleaving of a poll with the timer's run",
  "Tests use one or two sleeps at a time and never race a poll with an expiry.",
  [T, S], [("drain loop", "Timer::advance_to"), ("register then re-check", "Sleep::poll"), ("hand-over", "Sleep::new / Timer::poll")],
  ["Sleep::poll", "task wake-ups"])

p("C03", "Resetting a sleep replaces its deadline completely",
  "After a sleep is reset, its reported deadline and the instant at which it completes are the new ones, whether the sleep was pending, already completed, or expiring at that moment; it is not elapsed until the new deadline is reached and it is tracked by the timer exactly once. The timer learns of every reset promptly, also when the new deadline is earlier than the old one.",
  ["histories", "schedules"], "all sequences of reset, expiry and poll on one sleep",
  "Two reset tests exist; both reset once, from one state.",
  [S, T], [("state step, new deadline, hand-over, wake", "Sleep::reset"), ("replacement of the old entry", "Timer::poll")],
  ["Sleep::reset", "Sleep::deadline", "Sleep::is_elapsed"])

p("C04", "Dropping a sleep withdraws it from the timer",
  "A dropped sleep is removed from the timer at the timer's next run, which is triggered by the drop: it keeps no entry, no memory and no influence on when the timer wakes up next. Removing it never removes, delays or completes any other sleep.",
  ["histories"], "all orders of creating, resetting, expiring and dropping sleeps",
  "No test drops a pending sleep and looks at the timer afterwards.",
  [S, T, H], [("withdrawal", "Drop for Sleep"), ("slot-addressed removal", "Timer::poll / Heap::remove")],
  ["Drop for Sleep", "host timer requests"])

p("C05", "The timer always knows its earliest deadline, whatever was added or removed",
  "After any sequence of additions, cancellations and reschedulings the timer's notion of the next event is the earliest deadline among the sleeps it tracks, and sleeps are expired in non-decreasing order of deadline. An entry can be removed by the token handed out when it was added, no matter how entries have moved since, and that removes exactly this entry.",
  ["inputs", "histories"], "all heap sizes, all orders of insert, pop and remove, including ties",
  "The heap's unit tests use tens of random operations; the order and back-reference invariants must hold for every shape.",
  [H, T], [("sift up/down with back-references", "timer::heap"), ("slot free list", "timer::heap")],
  ["order of completions", "next wake-up time"])

p("C06", "Updates handed to the timer are neither lost nor duplicated",
  "Every sleep handed to the timer from any thread is seen by the timer exactly once per hand-over that found it not already queued, and a hand-over made after the timer took its batch is seen in the next one. The reference held for a queued sleep is released exactly once, and after the timer has shut the queue a hand-over is refused, and refusing keeps or loses no reference.",
  ["schedules", "histories"], "all interleavings of concurrent hand-overs with the timer taking its batch or shutting down",
  "The list's unit tests are single-threaded.",
  [L, T], [("lock-free push/take/pop", "ArcList")],
  ["ArcList::push / take / take_and_seal / pop"])

p("C07", "When the timer goes away, pending sleeps fail loudly instead of hanging",
  "When a timer is destroyed, every sleep it tracks and every sleep still queued for it is marked as orphaned and its task is woken; polling such a sleep afterwards, or creating one against the dead timer and polling it, panics rather than pending forever or reporting completion. Sleeps that had completed before stay completed.",
  ["histories"], "every set of tracked and queued sleeps at the time of destruction",
  "No test destroys a timer.",
  [T, S], [("seal, drain, invalidate, wake", "Drop for Timer"), ("orphan check", "Sleep::poll")],
  ["Sleep::poll"])

p("C08", "All users share one global timer, installed exactly once",
  "Every default handle refers to the same running timer for the whole life of the program, also when the first uses race: exactly one installation succeeds, the losers adopt the winner, and the installed handle is never replaced or released. Handing out a handle never changes how many references the global registration owns.",
  ["schedules"], "all interleavings of first uses",
  "The tests have a single thread and one first use.",
  [T, G], [("compare-and-swap installation", "TimerHandle::set_as_global_fallback"), ("borrow without release", "TimerHandle::default")],
  ["TimerHandle::default"])

p("C09", "The host is always asked to call back in time for the next deadline",
  "After every run of the background driver a host callback is pending no later than the earliest outstanding deadline (or the clock is paused, which wakes the driver when it moves), whatever number of callbacks is already outstanding; registering, rescheduling or cancelling a sleep triggers a run without delay. Delays that the host cannot represent are capped, never turned into an immediate or lost callback, and the driver never deadlocks with itself.",
  ["histories", "inputs"], "all numbers of outstanding callbacks, all deadlines including ones months away",
  "Host callbacks are bypassed in the tests because the clock is always paused there.",
  [G, "src/js.rs"], [("driver callback", "global::schedule_callback"), ("wake-up", "ArcWake for Waker")],
  ["setTimeout requests"])

p("C10", "A timeout prefers the inner result and fails only after the deadline",
  "Polling a timeout returns the wrapped future's output whenever that future is ready, even if the deadline has passed too; it fails with the elapsed error only when the wrapped future was just polled as pending and the deadline has been reached, and is otherwise pending with the task registered with both. It never polls the wrapped future after its completion and preserves its output unchanged.",
  ["schedules", "inputs"], "every combination of readiness of the future and the deadline at each poll",
  "Four tests cover success and failure but never both ready at once.",
  [TO, S], [("poll order", "Timeout::poll"), ("construction", "timeout / timeout_at")],
  ["Timeout::poll"])

p("C11", "An interval ticks at its start and then once per period",
  "The first tick completes at the start instant, each tick reports the instant it was scheduled for, and a tick handled in time is followed by the next exactly one period after the scheduled instant, so that lateness within the tolerance of 5 ms never accumulates as drift. Resetting an interval makes the next tick occur one period after the reset, and querying the period or behaviour never changes the schedule.",
  ["histories", "inputs"], "all start instants and non-zero periods, all sequences of ticks and resets",
  "Tests follow a few ticks of fixed periods.",
  [IV, S], [("next deadline", "Interval::poll_tick"), ("reset", "Interval::reset")],
  ["Interval::poll_tick", "Interval::tick"])

p("C12", "Missed ticks follow the chosen behaviour exactly",
  "When a tick is handled more than the tolerance of 5 ms late, the next one is scheduled: with Burst one period after the missed tick, with Delay one period after now, with Skip at the first multiple of the period (counted from the missed tick) after now. The default is Burst, and a behaviour set on an interval is the one used and reported.",
  ["inputs", "histories"], "all lateness values and non-zero periods, including lateness of many periods and exact multiples",
  "Each behaviour is tested with a single lateness.",
  [IV], [("behaviour table", "MissedTickBehavior"), ("lateness test", "Interval::poll_tick")],
  ["Interval::poll_tick"])

p("C13", "The pausable clock is continuous: pause freezes, resume continues, advance adds",
  "While the clock is paused successive readings are equal; pausing and resuming cause no jump, so elapsed time counts exactly the unpaused stretches plus every amount advanced, and advancing by a duration moves the reading by exactly that duration. Pausing a paused clock, and resuming or advancing a running one, is refused with a panic and leaves the clock as it was; so is an advance to a time that cannot be represented, and the clock stays usable after it.",
  ["histories", "inputs"], "all sequences of pause, resume and advance with arbitrary waits in between",
  "The tests pause once and never resume.",
  [CK], [("base plus running stretch", "Clock::now / pause / resume / advance")],
  ["Instant::now", "pause / resume / advance"])

p("C14", "Changing the test clock re-evaluates all timers",
  "After pause, resume or advance has changed the clock, the timer is woken so that every sleep due at the new time completes and the next host callback is computed from the new time. The wake-up comes after the change, never before it.",
  ["histories"], "every sequence of clock changes and outstanding sleeps",
  "Tests only advance, with one or two sleeps.",
  [TU, G, CK], [("wake after change", "test_utils"), ("paused clock runs the driver in place", "global::schedule_callback")],
  ["pause / resume / advance"])

p("C15", "Every time-dependent decision uses one clock",
  "All deadlines, expiries, intervals, delays and elapsed-time queries are computed from the one public clock, so that pausing and advancing it governs all of them; the host's clock is read only by that clock itself and to date host callbacks. That clock is installed exactly once, also when first uses race, and reading it never fails because of such a race. Host timeouts are requested only by the timer's driver.",
  ["programs"], "every code path of the crate",
  "A stray direct host-clock read changes nothing while time is not manipulated.",
  ["src/js.rs", ST, CK, G, DQ, IV, S], [("who-may-call", "js::performance_now, js::set_timeout, Instant::now_js")],
  ["Instant::now"])

p("C16", "Instants form a linear order with exact, checked arithmetic",
  "Comparing instants orders them by time; adding and subtracting a duration are exact inverses, never wrap, and report overflow (the checked forms by none, the operators by panicking); the difference of two instants is exact when the first is later and zero (or none in the checked form) otherwise. The current instant has microsecond resolution.",
  ["inputs"], "all instants and durations",
  "One test reads a difference; ordering and overflow are not tested.",
  [ST], [("comparison and arithmetic", "std::Instant")],
  ["Instant"])

p("C17", "System times compare and subtract consistently with the epoch",
  "Comparing system times orders them by time; the difference to an earlier one is the exact number of milliseconds, the difference to a later one is an error carrying that same distance; adding or subtracting a duration moves the time by that many milliseconds in the right direction. Now is the host's date, and the epoch is zero.",
  ["inputs"], "all pairs of system times and durations within range",
  "No test computes with system times.",
  [ST], [("arithmetic", "std::SystemTime")],
  ["SystemTime"])

p("C18", "System times survive serialisation and malformed input is rejected",
  "A system time at or after the epoch is written as seconds and nanoseconds since the epoch under fixed field names, and reading back what was written yields the same time, from map-like and from sequence-like formats. Times before the epoch are refused when writing; missing, duplicate or unknown fields, short sequences and overflowing values are refused when reading.",
  ["inputs"], "all times in range and all malformed inputs",
  "One test round-trips the current time through JSON.",
  [ST], [("writer and reader", "Serialize / Deserialize for SystemTime")],
  ["serde"])

p("C19", "A delay queue yields an item only when its deadline has been reached",
  "An item comes out of polling only after the clock has reached its deadline (rounded up to a whole millisecond), with exactly its own value, key and deadline, whatever else was inserted, removed or reset meanwhile and also with the test utilities enabled. Resetting an item makes only the new deadline count.",
  ["histories", "inputs"], "all sets of items and all sequences of insert, remove, reset and poll",
  "Tests use two or three items with deadlines half a second apart.",
  [DQ, WM, WL, UM], [("wheel time from the fired delay", "DelayQueue::poll_idx"), ("rounding", "normalize_deadline")],
  ["DelayQueue::poll_expired", "Stream::poll_next"])

p("C20", "A waiting delay-queue consumer is woken as soon as there is something to see",
  "While a consumer waits on a queue, the queue's internal wait is armed for no later than the earliest item, and the consumer is woken when an insertion or reset makes an item ready earlier, and when the queue becomes empty. A poll that returns pending has left the consumer registered, and one that returns end-of-queue found no item at all.",
  ["histories", "schedules"], "every sequence of operations between two polls",
  "Tests poll by hand and never depend on a wake-up.",
  [DQ], [("delay and stored waker", "insert_at / remove / reset_at / clear / poll_idx")],
  ["DelayQueue::poll_expired"])

p("C21", "Each delay-queue item leaves exactly once, by expiry, removal or clear",
  "Every inserted item is handed back exactly once, either by expiry or by removal, or is dropped by clear; removing or resetting one item never loses, duplicates or reorders out of time any other. Length and emptiness always equal the number of items not yet handed back.",
  ["histories"], "all sequences of insert, remove, try_remove, reset, clear, compact and poll",
  "Tests follow single items.",
  [DQ, WM, WL], [("storage and lists", "DelayQueue, Stack, SlabStorage")],
  ["DelayQueue"])

p("C22", "Delay-queue keys stay valid and never alias, also after compaction",
  "A key refers to the item it was returned for from insertion until that item leaves the queue, no matter how storage is compacted, shrunk or reused in between, and two live items never share a key. Using a key that belongs to no item in the queue panics (or yields none from the fallible removal) and touches no item.",
  ["histories"], "all sequences of insert, remove and compact",
  "Compaction is not tested at all.",
  [DQ], [("key remapping", "SlabStorage")],
  ["Key", "DelayQueue::compact"])

p("C23", "Delay-queue deadlines work across the whole supported range",
  "At any age of the queue, every deadline up to 2^36-1 milliseconds beyond the time the queue has last processed is accepted and becomes due at the first whole millisecond at or after the requested instant. Farther ones are refused with a panic at insertion or reset, and deadlines in the past are due at once.",
  ["inputs", "histories"], "all delays from 0 to 2^36-1 ms at all ages of the queue",
  "Tests use delays up to 1.5 s; level selection is unit-tested from age zero only.",
  [WM, WL, UM, DQ], [("level and slot selection", "wheel::level_for, slot_for"), ("rounding", "tokio_util::ms")],
  ["DelayQueue::insert", "DelayQueue::insert_at"])

p("C24", "The timing wheel reports the earliest pending deadline at every distance",
  "At any time the wheel's next expiration is never later than the earliest queued deadline and never in the past of the wheel's own time, however far items are spread over its levels, and an empty wheel reports none. When time passes a coarse slot, its items are redistributed to finer ones before any of them is due, and none is left behind.",
  ["inputs", "histories"], "all sets of deadlines and all positions of the wheel's time, including slot and rotation boundaries",
  "Level unit tests check slot numbers only.",
  [WM, WL], [("occupancy and rotation", "Level::next_expiration"), ("cascade", "Wheel::poll")],
  ["DelayQueue::poll_expired"])

p("C25", "No call can deadlock on the crate's own locks or run user wake-ups under them",
  "No code path acquires a lock that it already holds, every lock that is taken is released on every return, and locks that are ever nested are nested in one fixed order. The per-sleep and clock locks are never held while a task is woken or other code is called back.",
  ["programs", "schedules"], "every call path",
  "A self-deadlock shows only when the particular path runs.",
  [T, S, G, CK], [("lock scopes", "std and parking_lot mutexes")],
  ["all entry points"])

p("C26", "Convenience constructors agree with their deadline forms for every duration",
  "Waiting for a duration behaves as waiting until that duration after now, for sleeps, timeouts, intervals and delay-queue insertions and resets alike; a duration too long to be represented waits practically forever instead of panicking or firing for sleeps, timeouts and intervals. Every constructor passes its arguments on unchanged.",
  ["inputs"], "all durations, up to the maximum",
  "Tests use sub-second durations.",
  [S, TO, IV, DQ], [("constructors", "sleep, timeout, interval, insert, reset")],
  ["sleep", "sleep_until", "timeout", "timeout_at", "interval", "interval_at"])

p("C27", "Elapsed errors and queries are faithful",
  "The elapsed error converts to an I/O error of kind timed-out, and accessors (deadline, period, behaviour, inner value, key, length, capacity, remaining error distance) return exactly the stored value and change nothing. Keys, behaviours and errors compare equal exactly when they hold the same, and their copies are the same.",
  ["inputs"], "all values",
  "Accessors are exercised incidentally.",
  ["src/tokio/error.rs", S, IV, TO, DQ, ST], [("accessors", "all public getters")],
  ["public getters"])

p("C28", "Wall-clock accuracy of wake-ups",
  "On a responsive host, a sleep completes within a few milliseconds after its deadline.",
  ["schedules"], "all host loads",
  "Depends on the host's event loop.",
  [G], [("host setTimeout", "js::set_timeout")], ["Sleep"])

p("C29", "The host's monotonic clock never runs backwards",
  "Successive readings of the current instant on a running clock never decrease.",
  ["schedules"], "all readings", "Depends on the host's performance.now.",
  ["src/js.rs", ST], [("host clock", "js::performance_now")], ["Instant::now"])

p("C30", "Timer types are as thread-safe and as movable as what they hold",
  "Sleeps, intervals and their behaviours, instants, system times, delay-queue keys and the errors can always be sent to and shared between threads; a timeout, a delay queue and an expired item can exactly when the value they hold can, and the future of an interval's tick can be sent. All of them may be moved at any time, except that a timeout and an expired item may be only if their value may, and a timeout never moves or overwrites the future it has polled. The state that all threads share through the crate's global registrations is safe to share.",
  ["inputs"], "all type parameters, whatever combination of Send, Sync and Unpin they have",
  "Tests use one future type and one item type on one thread; a lost or wrongly claimed auto trait compiles silently.",
  [T, S, IV, TO, ST, CK, DQ], [("types and their fields", "public structs"), ("pin projection", "Timeout::poll"), ("pointers shared through statics", "HANDLE_FALLBACK, CLOCK")],
  ["uses that require Send, Sync or Unpin"])

p("C31", "Host callbacks do not pile up and the timer does not spin",
  "However sleeps are created, reset and dropped, host callbacks do not pile up: a run of the timer's driver asks for at most one further callback, for none while one that comes no later is still to come, and for none while the clock is paused. It asks to be run again at once only when a sleep is due by then; with no sleep outstanding it comes back only after a pause.",
  ["histories", "schedules"], "all histories of sleeps and wake-ups, any number of callbacks outstanding",
  "A surplus callback has no visible effect in a test, and load builds up only over long histories.",
  [G], [("callback remembered as pending", "Driver::next_callback"), ("delay to the next event", "schedule_callback")],
  ["calls of the host's setTimeout"])

p("C32", "Only documented misuse panics",
  "No operation panics, whatever the history and the interleaving, except: polling a sleep whose timer is gone; arithmetic on instants or system times beyond what can be represented; pausing, resuming or advancing the test clock in the wrong state or too far; an interval of period zero that skips missed ticks, or one handled centuries late; a delay-queue operation with a key that belongs to no item, a deadline farther than the queue supports, or more items than it can hold; and a host that refuses a timeout. The internal consistency checks never fire, and malformed serialised input is an error, not a panic.",
  ["histories", "inputs", "schedules"], "all inputs, histories and interleavings of all public operations and of the driver's runs",
  "A panic on a rare path stays unseen until that path runs; on wasm it ends the whole program.",
  [T, S, G, H, L, CK, IV, TO, ST, DQ, WM, WL], [("assertions and unwraps", "all operations"), ("self-checks", "Heap::assert_consistent")],
  ["every public operation"])

p("C33", "The public interface holds under every combination of features",
  "Under every combination of its features the crate builds, alone, without what only its tests' dependencies switch on, and offers the items of that feature set under their documented paths and types, kept as general as in std, tokio and tokio-util: any future can be given a timeout (one that borrows or stays on its thread too), any type can be queued, keys can be hashed, errors are errors, the epoch is a constant. Enabling a feature takes nothing away. What would get around a guarantee does not compile: forging keys or elapsed errors, resetting a sleep that is shared, duplicating a sleep or a queue, waiting for two ticks of one interval at once, pausing the clock without the test feature.",
  ["inputs"], "all combinations of features; all client programs of the kinds listed",
  "Tests are compiled for two feature sets, with concrete types only, and cannot contain a program that must not compile.",
  ["src/lib.rs", ST, S, IV, TO, "src/tokio/mod.rs", "src/tokio/error.rs", "src/tokio_util/mod.rs", DQ], [("feature gates", "lib.rs, tokio/mod.rs"), ("signatures and bounds", "public items")],
  ["compilation of client programs"])

p("C34", "Unsafe code touches only live memory and frees it exactly once",
  "Nothing the crate keeps behind a raw pointer (the sleeps in a hand-over list, the registration of the global timer, the installed clock) is read after its last reference was released, and each of these references is released exactly once, under every interleaving of hand-overs, registrations, take-overs and drops. No other part of the crate bypasses the compiler's checks, apart from pinning inside a timeout or an interval, where what is pinned is never moved. No reference is lost: nothing is forgotten or leaked, and no timer, sleep or queue entry keeps itself alive through what it owns.",
  ["schedules", "histories"], "all interleavings of the operations on the list, the global timer and the clock; all sequences of operations on sleeps and queues; task wakers' own references excepted",
  "A leak or a use after free passes every test that does not look for it, and most need two threads at one place.",
  [L, T, CK, TO, IV], [("raw references of the list", "ArcList::push / pop / take"), ("registration's reference", "TimerHandle::default / set_as_global_fallback"), ("installed clock", "timer::clock"), ("pinned future", "Timeout::poll")],
  ["ArcList", "TimerHandle::default", "Timeout::poll", "memory"])

p("C35", "Every operation comes to an end",
  "No operation runs for ever, whatever the history, the inputs and the interleaving. Every trip around one of the crate's loops takes an element out of a finite collection it adds nothing to, moves a counter towards a bound that stays where it is, gets nearer to the deadline it looks for, or repeats an atomic step because another thread made progress meanwhile, and then with the value that thread left. No function leads back to itself, except the timer's driver, which runs again at once only while the clock is paused and a sleep has become due.",
  ["inputs", "histories", "schedules"], "all inputs, histories and interleavings of every operation; what task wakers, polled futures and the host do is excepted",
  "A test that hangs samples one history; an endless loop waits for a lost race, an item removed from a coarse slot, or an operator that calls itself.",
  [L, H, G, T, IV, DQ, WM, WL, S], [("retry of a hand-over", "ArcList::push / Registration"), ("timing wheel", "Wheel::poll / Level"), ("walks of the heap", "Heap"), ("driver run", "schedule_callback")],
  ["every public operation"])

p("C36", "Behaviour depends neither on unrelated features nor on the target",
  "Which features a user switches on decides which items there are, not what they do: a function does the same whichever other features are on. The one feature that changes what others do is tokio-test-util, and it does so the same with and without the others: the clock is then the pausable one, under each feature set that has the feature, and the host's under each that has not. And what a function does on wasm32, where the crate is used, is what it does on the host, where it is analysed and partly tested, but for the bindings to the host's functions.",
  ["inputs"], "all combinations of features; wasm32 and the native host; debug assertions off",
  "Tests are compiled for two of ten feature sets, and what is tested natively is not what runs in a browser.",
  [S, T, G, H, L, CK, ST, IV, TO, DQ, WM, WL], [("feature gates", "Instant::now, schedule_callback, TimerHandle, std.rs"), ("sizes", "delay_queue.rs, wheel")],
  ["every function of the crate"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
