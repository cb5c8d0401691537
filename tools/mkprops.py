#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/spine/"
prop("C01", "Ring buffer is a bounded FIFO with exact accounting",
 "For every capacity and every history of pushes (single or bulk, refusing or overwriting the oldest), pops, peeks and drops, a ring buffer behaves as one bounded FIFO sequence: a refusing push accepts exactly what still fits, an overwriting push always accepts and discards only the oldest elements, a bulk pop delivers all requested elements in order or none, peeks do not change anything, and dropping first/last n removes exactly min(n, stored) elements from that end (all of them when n is 0, as documented; clearing empties). "
 "After every operation used space is the number of stored elements, free space is capacity minus that, empty and full agree with it, and capacity never changes. "
 "Between drops the overrun count is exactly the number of elements overwritten since the last pop; dropping last n lowers it by n but never below 0, dropping from the front may lower it, and no operation other than an overwriting push ever raises it.",
 ["histories", "configurations"],
 "all operation histories, all capacities >= 1 and all positions of the content relative to the physical end of the store",
 "The tests walk a few scripted histories with one or two capacities; the guarantee is over every history and every wrap position, and drops on a full buffer or at an arbitrary offset are never combined.",
 [S+"structure/ringbuffer.hpp", S+"structure/array.hpp"],
 [("push/rollover", "RingBuffer::push"), ("pop/peek", "RingBuffer::pop, RingBuffer::peek_at"), ("drops", "RingBuffer::drop_first, drop_last, clear"), ("accounting", "RingBuffer::used_space, free_space, full, empty, overrun_space")],
 [("content", "the stored sequence, oldest first", "m_buffer, m_head, m_tail, m_is_full"), ("overrun", "elements overwritten unread", "m_overwritten")],
 ["return of every public call; used_space/free_space/full/empty/overrun_space/capacity and peek_at over the whole content after each call"])

prop("C02", "Line buffer hands out each complete line once, whole and in order",
 "For every sequence of bytes put into a line buffer and every history of line operations, the next line is always the longest prefix of the stored bytes that ends just before the first delimiter, and has-line, line length, line view, line copy and line drop all agree on it (no line while no delimiter is stored; an empty line between adjacent delimiters is a line). "
 "Viewing a line changes nothing observable, copying or dropping it removes exactly that line and its delimiter, the copy is null-terminated, and a copy into a buffer too small for line plus terminator removes nothing and returns 0. "
 "This holds wherever the line lies relative to the physical end of the storage, for any set of delimiter characters including one changed between operations.",
 ["histories", "inputs", "configurations"],
 "all byte sequences over delimiter and non-delimiter characters, all interleavings of writes and line reads, all capacities and wrap positions, delimiter sets changed at any time",
 "The tests read a handful of fixed strings that mostly start at offset 0; a line that straddles the physical end of the store needs a particular history and capacity.",
 [S+"structure/linebuffer.hpp", S+"structure/linebuffer.cpp", S+"structure/ringbuffer.hpp"],
 [("framing", "LineBuffer::length_of_next_line"), ("view", "LineBuffer::get_next_line_view"), ("copy", "LineBuffer::get_next_line"), ("drop", "LineBuffer::drop_next_line")],
 [("content", "unread bytes, oldest first", "RingBuffer storage"), ("delimiters", "set of characters ending a line", "LineBuffer::_delimiters")],
 ["return of every line operation; used space and peeked bytes after each"])

prop("C03", "Buffered stream input loses no byte of a complete buffered line",
 "Pulling data into a buffered stream moves bytes from the underlying stream in order and never overwrites or reorders a byte that belongs to a complete line already waiting in the input buffer, however often it is called, however much is available, and even after earlier overruns: when the input buffer is full and holds a line, pulling stops and leaves the rest in the underlying stream. "
 "When the buffer is full without holding a line, the oldest bytes are given up so that input keeps flowing, and pulling stops again at the first delimiter. "
 "The number returned is exactly the number of bytes taken from the underlying stream, a failing read takes nothing, and reading, copying or dropping lines afterwards yields exactly the retained bytes in arrival order.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all interleavings of arrival, pull and line consumption, all byte sequences, all buffer sizes, read failures at any byte",
 "The tests pull a few scripted inputs with one buffer size; losing a line needs an overrun followed by further pulls in a particular order.",
 [S+"io/stream/buffered_stream.cpp", S+"io/stream/buffered_stream.hpp", S+"structure/linebuffer.cpp"],
 [("pull loop", "BufferedStream::pull_in_data")],
 [("input", "bytes buffered and not yet read", "BufferedStream::_input_buffer"), ("pending", "bytes still in the underlying stream", "Stream implementation")],
 ["return of pull_in_data; input_buffer_space_used/left; has_line, next line; bytes left in the underlying stream"])

prop("C04", "Buffered stream output is delivered exactly once, in order",
 "Every byte accepted by a buffered write is handed to the underlying stream exactly once and in the order it was accepted, whatever the pattern of flushes, back-pressure (underlying stream accepting only some bytes) and failing writes; a write that fails leaves its byte queued for the next flush. "
 "A write reports exactly how many bytes it accepted: all that fit, the remainder being refused (or, on request, overwriting the oldest queued bytes), and a flush reports exactly how many bytes the underlying stream accepted. "
 "Dropping the last/first n queued bytes (n at least 1) removes exactly min(n, queued) bytes from that end, and space used plus space left always equals the configured size.",
 ["histories", "fault_sequences", "configurations"],
 "all interleavings of writes, flushes and drops, all buffer sizes, every pattern of back-pressure and write failure",
 "The mock stream used by the tests never fails a write it announced room for, and tests flush in a few fixed patterns; a lost or duplicated byte needs a fault at a particular byte.",
 [S+"io/stream/buffered_stream.cpp", S+"io/stream/buffered_stream.hpp", S+"structure/ringbuffer.hpp"],
 [("queue", "BufferedStream::buffered_write"), ("flush", "BufferedStream::push_out_data"), ("retract", "BufferedStream::output_buffer_drop_last / output_buffer_drop_first")],
 [("queued", "bytes accepted and not yet delivered", "BufferedStream::_output_buffer"), ("delivered", "bytes accepted by the underlying stream", "Stream implementation")],
 ["returns; output_buffer_space_used/left; bytes received by the underlying stream"])

prop("C05", "A transaction keeps or undoes exactly its own reply and eats one line",
 "A transaction exists only for a complete buffered line and shows exactly that line until it is finalised, regardless of replies queued through it meanwhile. While it is open it is the only consumer of the input and the only writer of the output. "
 "Committing it, or letting it go out of scope, leaves every byte it queued in the output buffer; aborting it removes exactly the bytes it queued that are still in the buffer and never bytes queued before it; either way exactly that one line is removed from the input exactly once, including when the transaction object was moved. "
 "Its space-used count is what it has queued so far, its space-left count is the room in the output buffer, and a reply larger than the room is cut to what fits.",
 ["histories", "configurations"],
 "all histories of line arrival, reply writes (single, bulk), commit, abort, scope exit and move of the transaction, at every fill level of the output buffer and every wrap position of both buffers",
 "The tests run commit and abort once each on nearly empty buffers; the guarantee is over every fill level, including a full output buffer, a wrapped line, an abort with nothing queued, and moves.",
 [S+"io/stream/transaction.hpp", S+"io/stream/transaction.cpp", S+"io/stream/buffered_stream.cpp", S+"structure/ringbuffer.hpp"],
 [("line capture", "Transaction::Transaction, BufferedStream::new_transaction"), ("finalise once", "Transaction::finalize, ~Transaction, move operations"), ("undo", "Transaction::abort, Transaction::undo")],
 [("queued", "bytes this transaction queued", "Transaction::_outgoing_queued_bytes"), ("finalised", "committed, aborted or moved from", "Transaction::_is_finalized")],
 ["incoming(), outgoing*(), is_finalized(), outgoing_space_left/used; both buffers' contents after each step"])

prop("C06", "Vector is a bounded double-ended sequence",
 "For every capacity and every history of push/emplace/pop at either end, insert, remove by position, clear, fill, list assignment and swap, a vector holds exactly the sequence those operations define: elements keep their relative order, pops and removes return the element that was at that end or position, indexing, front, back, peeks and forward and reverse iteration (const or not) all show that same sequence, and size, empty and full agree with it. "
 "The value given may be one of the vector's own elements: what is added is the value that element had. A push at either end of a full vector, or an insertion into it, changes nothing; every other operation within its precondition takes effect whatever the position of the elements inside the storage. "
 "Inserting at or beyond the end appends, and removing at the index just past the end removes the last element.",
 ["histories", "configurations"],
 "all operation histories within the documented preconditions, all capacities, all positions of the occupied range inside the physical store",
 "The tests use short scripted histories that rarely remove from the front first; most operations behave differently once the occupied range does not start at the physical start.",
 [S+"structure/vector.hpp", S+"structure/array.hpp"],
 [("ends", "Vector::push_back/push_front/emplace_*/pop_back/pop_front"), ("middle", "Vector::insert, Vector::remove"), ("shift", "Vector::rearrange"), ("access", "operator[], front/back, peek_*, begin/end/rbegin/rend")],
 [("sequence", "the elements in order", "m_store[m_head..m_tail)")],
 ["returns; size/empty/full; operator[] over all positions, forward and reverse iteration after every call"])

prop("C07", "Vector never leaks, duplicates or destroys an owned element early",
 "When a vector holds owning elements (shared pointers), after every operation within its preconditions each owned object is kept alive by exactly the places that logically hold it: once per position it occupies in the vector plus once per reference the caller holds. "
 "An element popped, removed, cleared or overwritten by the caller's request is released as soon as the caller lets go of the returned value, no object is destroyed while it is still in the vector, and destroying the vector releases everything it holds.",
 ["histories", "configurations"],
 "all operation histories within preconditions, all capacities, all physical offsets, elements that appear once or several times",
 "Reference counts after raw memory moves are checked in a couple of fixed scripts; a stale or duplicated slot shows only for particular offsets and fill levels and with the sanitizer or a later overwrite.",
 [S+"structure/vector.hpp", S+"structure/array.hpp"],
 [("raw moves with wiped vacated slots", "Vector::insert, push_front, remove, rearrange"), ("moved-out results", "Vector::pop_back, pop_front, remove")],
 [("holders", "reference count per object", "std::shared_ptr control blocks")],
 ["use count of every live object and the number of live objects after every call"])

prop("C08", "Array contents, bounds, iteration and exchange are exact",
 "An array of n elements holds exactly n values addressable by index, front, back, data and by forward and reverse iteration (const or not), each visiting every element exactly once in ascending or descending position order, and iterators move both ways consistently. "
 "Writing one position changes only that position, filling sets all of them, list construction and list assignment give exactly the listed values and length, an array over caller-owned storage reads and writes that storage, and moving hands over contents and length. A copy of an array shows the same elements as the array it was copied from, now and after writes through either; self-assignment changes nothing. Storage an array allocated is given back exactly once: nothing in use is released early and nothing is left behind. "
 "Exchanging two arrays exchanges their contents and their lengths completely, whatever their lengths and whoever owns the storage.",
 ["histories", "configurations"],
 "all lengths, all histories of write, fill, assign, move and swap on several arrays, internal and external storage",
 "The tests exercise one length per operation and never iterate a const array in reverse or swap arrays of different length.",
 [S+"structure/array.hpp"],
 [("storage", "Array constructors, assignment, ~Array"), ("iteration", "ArrayIterator, ArrayReverseIterator, begin/end/rbegin/rend/cbegin/crbegin"), ("exchange", "Array::swap"), ("fill", "Array::fill")],
 None, ["size and every element through every access path after each call"])

prop("C09", "Pool lends each object to at most one holder and reuses every free one",
 "Once fully populated, a pool hands out on acquire an object that nobody outside the pool holds, and returns nothing exactly when every object is held; an object becomes available again as soon as its last outside holder lets go, in whatever order holders release. "
 "Acquiring and releasing never changes the pool's set of objects or its size. "
 "Depopulating hands back the objects in the order they were put in, one per call, and destroying the pool releases the pool's hold on every object: objects held outside survive until their last holder lets go, all others are destroyed immediately.",
 ["histories", "configurations"],
 "all interleavings of acquire, copy and release by several holders, all release orders, all pool sizes, depopulation and destruction at any point",
 "The tests acquire and release in order; skipping a free object or lending one twice depends on release order relative to the internal search position.",
 [S+"structure/pool.hpp", S+"structure/vector.hpp"],
 [("search for an unheld object", "Pool::acquire"), ("draining", "Pool::depopulate, Pool::~Pool")],
 [("objects", "pool population", "Pool::_pointers"), ("search position", "where the next search starts", "Pool::_lookup_index")],
 ["identity of each acquired object; number of live objects; size"])

prop("C10", "Scheduled events fire never early, in due order, ties first-come",
 "An event scheduled at time t with delay d is delivered by the first loop run at or after t+d and by no earlier one, exactly once, whatever the system uptime. "
 "Events delivered by one loop run come in order of due time, and events with equal due time in the order in which they were scheduled, including events scheduled by handlers during that run (a handler scheduling with zero or already elapsed delay is served in the same run). "
 "While events wait, the reported time until the next one is the remaining time of the earliest, or zero when it is already due. Times and delays are whole milliseconds. The pipeline as text lists the time until each waiting event in order, separated by commas, each rounded to its unit. "
 "A future made or rescheduled is due its delay after that moment (the last one given, when none is given), putting it in a pipeline starts that delay anew, and futures compare by when they are due.",
 ["schedules", "histories", "configurations"],
 "all interleavings of schedule, time steps and loop runs, all delays including equal ones, all uptimes, handlers that schedule or trigger further events",
 "The tests schedule a few events with distinct delays from uptime 0 and poll with a fixed step; ordering of ties, far uptimes and nested scheduling are not reached.",
 [S+"eventsystem/eventsystem.cpp", S+"eventsystem/eventsystem.hpp", S+"eventsystem/pipeline.cpp", S+"eventsystem/pipeline.hpp", S+"structure/time/timers.cpp", S+"structure/units/primitives/unit.hpp"],
 [("chronological insertion", "Pipeline::push"), ("expiry", "Pipeline::expire, contains_expired_futures, AlarmTimer::expired"), ("delivery", "EventSystem::loop")],
 [("pipeline", "waiting events by due time", "Pipeline::_pipe"), ("clock", "uptime in ms", "HAL::millis")],
 ["deliveries seen by handlers with the uptime at delivery; time_until_next_future, contains_* of the pipeline"])

prop("C11", "Every attached handler gets each event once, in attach order, unchanged",
 "Delivering an event, whether triggered directly, through an event object, or by the loop when due, calls each handler attached for that event's id exactly once, in the order in which they were attached (before events flow or since), and no handler attached only for other ids. "
 "Each handler sees the id and the data value given when the event was made, of the type it was made with (integer, float, seconds, milliseconds, or no value), no matter how many other events were made, delivered or recycled in between, including by other handlers during the same delivery.",
 ["histories", "schedules", "configurations"],
 "all attach sets and orders, all ids, all payload kinds, nested trigger and schedule from within handlers, any amount of event recycling",
 "Tests attach one or two handlers and send one payload; a payload mixed up by object recycling needs nested events in a handler and several in flight.",
 [S+"eventsystem/eventsystem.cpp", S+"eventsystem/eventsystem.hpp", S+"structure/pool.hpp", S+"structure/vector.hpp"],
 [("handler lists", "EventSystem::attach"), ("dispatch", "EventSystem::trigger"), ("event creation", "EventSystem::event"), ("payload", "Event::Data")],
 None, ["sequence of (handler, id, payload) calls"])

prop("C12", "Event capacity: full refuses cleanly, every slot comes back",
 "An event system configured for n events can have n events outstanding (waiting or held by the caller) and no more: while n are outstanding, making an event returns none, and scheduling or triggering by id has no effect and disturbs nothing that is waiting. "
 "Each delivery or release makes exactly one slot available again, so that capacity is never lost however many events pass through. "
 "Destroying the system with events waiting releases everything it owns; an event still held by the caller stays valid until released.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of scheduling, holding, releasing, delivery and exhaustion for any capacity, destruction at any point",
 "Exhaustion is not reached by the tests; a leaked or doubly used slot shows only after many cycles or at destruction with events waiting.",
 [S+"eventsystem/eventsystem.hpp", S+"eventsystem/eventsystem.cpp", S+"eventsystem/pipeline.cpp", S+"structure/pool.hpp"],
 [("allocation", "EventSystem::event, Pool::acquire"), ("refusal", "EventSystem::schedule, EventSystem::trigger"), ("teardown", "EventSystem::~EventSystem, Pool::~Pool")],
 [("outstanding", "events waiting or held", "Pool use counts, Pipeline::_pipe")],
 ["results of making events, deliveries, number of live event objects after destruction"])

prop("C13", "The event loop sleeps within its configured bounds",
 "With delay between ticks enabled, each loop run ends by sleeping once: the time until the next waiting event but never longer than the configured maximum, or the configured minimum when nothing waits; with it disabled the loop never sleeps. "
 "The bounds are whole milliseconds. Hence repeatedly running the loop with no work in between never sleeps past the due time of an event that was waiting when the sleep began.",
 ["histories", "configurations"],
 "all pipeline contents, all configured minimum and maximum delays, all uptimes",
 "The existing tests disable the delay or check a single configuration; the limit combinations and large uptimes are not sampled.",
 [S+"eventsystem/eventsystem.cpp", S+"eventsystem/pipeline.cpp"],
 [("sleep choice", "EventSystem::loop"), ("next due", "Pipeline::time_until_next_future")],
 [("clock", "uptime", "HAL::millis")], ["uptime before and after each loop run"])

prop("C14", "Timers measure and expire exactly at any uptime",
 "At every uptime, a stopwatch timer reports exactly the milliseconds since its last reset (resetting only when asked), and an alarm reports its due moment and remaining time exactly, is expired at and after its due moment and never before, and once found expired stays expired. "
 "An interval timer reports expiry at most once per check and only when strictly more than the interval has passed since the previous mark; without catch-up the mark moves to the moment of the check, with catch-up it advances by exactly one interval so that no elapsed interval is lost or counted twice. "
 "Its reported next moment and remaining time always equal that mark plus the interval, and reset moves the mark to now.",
 ["histories", "schedules", "configurations"],
 "all sequences of clock advances, polls and resets, all intervals, all uptimes including those beyond 2^24, 2^31 and 2^32 ms",
 "Tests start at uptime 0 and advance a few fixed steps; errors that depend on the uptime's magnitude or on polls at exact boundaries are outside their reach.",
 [S+"structure/time/timers.cpp", S+"structure/time/timers.hpp", S+"structure/units/primitives/unit.hpp", S+"platform/implementations/mock.hpp"],
 [("stopwatch", "Timer::time_since_last, Timer::reset"), ("alarm", "AlarmTimer::expired, time_from_now"), ("interval", "IntervalTimer::expired, reset, future")],
 None, ["returns of every timer call at known uptimes"])

prop("C15", "Integer time arithmetic, conversion and comparison are exact",
 "For integer (kernel) time, addition, subtraction, negation, scalar multiplication and division, and all six comparisons give exactly the mathematical result for operands of equal magnitude, for every representable value. "
 "Converting to a finer unit multiplies exactly and converting to a coarser one rounds to the nearest unit, halves away from zero; mixed-unit operators convert the right operand to the left operand's unit first. "
 "Comparisons in the same unit are therefore a total order consistent with equality and with the difference's sign.",
 ["inputs"],
 "all pairs of values (positive, zero, negative, up to 2^53 and beyond) and all pairs of units from microseconds to days",
 "Tests use small values where single-precision arithmetic happens to be exact; the first wrong value is above 2^24 (4.7 hours in ms).",
 [S+"structure/units/primitives/unit.hpp", S+"structure/units/time.hpp", S+"structure/units/primitives/magnitudes.hpp"],
 [("conversion", "Unit::from_other"), ("operators", "Unit operators")],
 None, ["raw values and comparison results"])

prop("C16", "A daily schedule gives the listed block's value at every second",
 "For every schedule of non-empty blocks within a day, including blocks that run past midnight, and every second of the day, the scheduled value is that of the first listed block covering that second (a block covers start up to but not including start plus duration, wrapping into the next morning), and 0 where no block covers it. "
 "The start of the next block is the earliest block start strictly after the given time, whatever order the blocks are listed in, or 24 hours when there is none.",
 ["configurations", "inputs"],
 "all lists of blocks (any order, adjacent, wrapping midnight, full-day) and every second of a day, in particular both edges of every block",
 "Tests use one sorted list and a few times of day.",
 [S+"structure/time/schedule.cpp", S+"structure/time/schedule.hpp"],
 [("lookup", "Schedule::value_at"), ("next", "Schedule::start_of_next_block")],
 None, ["value_at and start_of_next_block"])

prop("C17", "Latch: hysteresis with minimum and maximum on/off times respected",
 "A latch starts off and changes state only when given a reading: on when the reading is above the high limit, off when below the low limit, unchanged in between. "
 "Once it has changed state it stays there at least the configured minimum time for that state whatever the readings, and when a maximum time for that state is configured, the first reading given after strictly more than that time in the state switches it over, whatever the value read. "
 "Time in a state is counted from the moment it was entered; readings that confirm the present state do not restart it, and the first activation is not delayed by the minimum off time.",
 ["histories", "schedules", "configurations"],
 "all sequences of readings and waiting times, all combinations of limits and minimum/maximum times (including none)",
 "Tests wait fixed periods with one configuration each; the interplay of a maximum time with repeated confirming readings is never exercised.",
 [S+"controller/sr_latch.cpp", S+"controller/sr_latch.hpp"],
 [("decision", "SRLatch::new_reading"), ("dwell time", "SRLatch::set, Timer")],
 [("state", "on/off", "SRLatch::_value"), ("entered", "when the state was entered", "SRLatch::_last_turned")],
 ["response() after every reading"])

prop("C18", "PID output is bounded, sampled and follows the documented law",
 "At all times after initialisation the controller's response lies within the configured output limits. "
 "A reading updates the response only if at least the sample interval has passed since the last update, and then exactly by the PID law: integral accumulating Ki times error per second clamped to the limits, proportional on error or on measurement as configured, derivative on measurement, signs reversed for a reverse-acting controller, total clamped to the limits. "
 "Changing the sample interval keeps the effective tunings per second for any interval, including shorter ones than the default and non-multiples of it, and the tunings it reports are at all times the ones that were set.",
 ["histories", "configurations"],
 "all sequences of readings, setpoints and reading times, all limits, tunings, intervals, directions and proportional modes",
 "Tests run two simulated plants with one sample interval and check that the result is close to the setpoint.",
 [S+"controller/pid.cpp", S+"controller/pid.hpp", S+"controller/implementations/pid/pid_controller.cpp", S+"controller/implementations/pid/pid_controller.hpp"],
 [("update", "PIDController::update"), ("limits", "PIDController::set_output_limits"), ("interval", "PIDController::set_sampling_time"), ("tunings", "PIDController::set_tunings")],
 [("integral", "accumulated output", "PIDController::_cumulative_output")],
 ["response() after every reading"])

prop("C19", "Relay autotuning switches on hysteresis and ends after its cycles",
 "While tuning runs, the output is always one of the two configured output limits: it starts at the upper one, goes to the lower one when the input rises above target plus hysteresis, and returns to the upper one when the input falls below target minus hysteresis; nothing inside the band switches it. "
 "A cycle is counted at each return to the upper output, tuning is finished exactly when the configured number of cycles has been counted, and from then on the output stays at the lower limit. "
 "Starting again begins a fresh run independent of the previous one. "
 "The gains it reports when finished follow from what it saw by the Ziegler-Nichols rule of the chosen mode (ultimate gain 4d / (pi a) from the output range and the extremes of the input since the last switch each way, ultimate period from the last two switches), averaged over all cycles after the first two, or those of the last cycle when there are no more than two. "
 "Tuning a process with PID::autotune first holds the upper output until the starting point is reached or half an hour has passed, runs one relay step per sample interval, ends with output 0, and returns those gains per second, as the controller takes them.",
 ["histories", "configurations"],
 "all input sequences, hysteresis widths, output ranges and cycle counts",
 "No test runs the tuner.",
 [S+"controller/implementations/pid/pid_tuner.cpp", S+"controller/implementations/pid/pid_tuner.hpp"],
 [("relay", "PIDAutotuner::do_autotune"), ("start", "PIDAutotuner::start_tuning_loop")],
 [("cycle", "completed cycles", "PIDAutotuner::cycle"), ("output", "relay state", "PIDAutotuner::output")],
 ["do_autotune, is_finished, get_cycle"])

prop("C20", "Filters and filter stacks transform samples as documented, in order",
 "A filter stack feeds every sample through its attached filters in attach order, each receiving its predecessor's output, reports the last filter's value, detaches exactly the filter asked for while keeping the order of the others, and resets every filter on reset. "
 "A band-pass filter outputs a sample inside its band (around the last output when relative, around the offset when absolute), holds the last output for one outside it, and gives in only once more than the configured number of consecutive samples fell outside it; an in-band sample restarts that count, and the first sample is always passed. "
 "Mapping clamps to the input range and maps it linearly, inversion mirrors within its range, the moving average is the plain mean until its frame is full and exponentially weighted afterwards, and after a reset every filter continues from the given value.",
 ["histories", "inputs", "configurations"],
 "all sample sequences, all filter configurations, all stack compositions and attach/detach/reset histories",
 "Tests use one short sample list per filter and never detach or exceed the rejection limit in varied patterns.",
 [S+"filter/filterstack.hpp", S+"filter/implementations/bandpass.hpp", S+"filter/implementations/ewma.hpp", S+"filter/implementations/mapped_range.hpp", S+"filter/implementations/invert.hpp", S+"filter/implementations/passthrough.hpp"],
 [("chaining", "Stack::value"), ("band", "BandPass::new_sample, update_limits"), ("mean", "EWMA::value"), ("mapping", "MappedRange::value, Invert::value")],
 None, ["value() after every sample; rejection exceptions raised"])

prop("C21", "A result stays exactly what it was made: value, failure, or intermediary",
 "A result is in exactly one of the states empty, success, failure or intermediary, fixed when it is made, and every query reports that state, whatever the value, error and intermediary types (identical types included). "
 "Copying (from const or non-const), moving, assigning or passing a result on preserves its state and payload, reading the payload returns what was put in, and the value-or and error-or forms give the alternative exactly when there is no value or error. "
 "Each combinator calls its function exactly once with the payload when the result is in the state the combinator is for (map and and-then: success; map-error and or-else: failure; map-intermediary and chain: intermediary) and otherwise not at all, passing state and payload on unchanged; match, on a result that is not empty, calls exactly the function for the state. A result that was moved from or unwrapped is not read again.",
 ["programs", "inputs", "configurations"],
 "all construction forms (lvalue, const, temporary, explicit failure or intermediary), all combinations of payload types, all sequences of copies, moves and combinators",
 "Tests build results from temporaries of distinct types; a hijacked constructor shows only for lvalues or particular type combinations.",
 [S+"structure/result.hpp", S+"core/meta/unique_type_variant.hpp"],
 [("construction", "Result constructors, failed, intermediary"), ("queries", "is_success, is_failed, is_intermediary, operator bool"), ("combinators", "map*, and_then, or_else, chain, match, value_or, error_or")],
 None, ["state and payload through all accessors; function call counts"])

prop("C22", "Durations are printed with the right unit and parsed back exactly",
 "Printing a non-negative duration chooses the documented unit (microseconds below 1000, milliseconds below 1000, seconds below 900, minutes below 1440, hours below 24, then days, each judged on the rounded value) and prints that rounded value. "
 "Parsing accepts exactly a non-empty run of digits followed by one of us, ms, s, m, h, d and yields that number in that unit; anything else, including a missing number, a sign, unknown or trailing characters and numbers too large to represent, yields nothing and never fails otherwise. "
 "Hence parsing what was printed gives the printed duration.",
 ["inputs"],
 "all strings and all durations",
 "Tests parse a dozen well-formed strings; malformed and boundary inputs are open-ended.",
 [S+"core/utils/time_repr.hpp", S+"core/utils/time_repr.cpp"],
 [("printing", "repr"), ("parsing", "parse_time")],
 None, ["returned text or value"])

prop("C23", "String helpers and static strings are exact for every input",
 "Stripping from the left or right removes exactly the maximal run of delimiter characters at that end and nothing else, leaving an empty string when all characters are delimiters. "
 "Starts-with, ends-with and find-first-of give the mathematically right answer for every text and needle, including empty ones and needles longer than the text. Reading a number takes the whole text and nothing beyond it, and gives 0 for anything that is not a number. "
 "A static string never reallocates or exceeds its capacity, its size is what was last set or stripped to, and the same guarantees hold for its operations.",
 ["inputs", "histories"],
 "all texts, delimiter sets and needles, including empty and all-delimiter ones; all histories on a static string",
 "Tests strip a few sample strings that all contain a non-delimiter character.",
 [S+"core/utils/string.cpp", S+"core/utils/string.hpp", S+"structure/static_string.cpp", S+"structure/static_string.hpp"],
 [("strip", "lstrip, rstrip"), ("search", "starts_with, ends_with, find_first_of"), ("static", "StaticString")],
 None, ["returned views and values"])

prop("C24", "Logging prints exactly the enabled levels and never overruns",
 "A message of one of the levels error, warning, info and debug is printed exactly when its level is at or below the level currently set, exactly once, in call order, and nothing is printed otherwise; level queries agree with what is printed. The level is info to begin with (debug in debug builds), and debug messages exist in debug builds only. "
 "A printed line carries the uptime, the level's name and the formatted message, cut to the maximum message size when longer: neither content nor length of a message, at any level, ever corrupts memory, and the following messages are unaffected.",
 ["inputs", "histories"],
 "all message lengths around and beyond the limit, all levels and level changes, all uptimes",
 "Tests log short messages; truncation needs lengths around 256 combined with the debug level's suffix.",
 [S+"core/logging.cpp", S+"core/logging.hpp"],
 [("gate", "is_loggable, SPN_LOG_IMPL"), ("format", "detail::print")],
 [("level", "current log level", "g_log_level")], ["text printed per call"])

prop("C25", "Exceptions reach the current handler exactly once",
 "Throwing any exception calls the currently installed machine handler exactly once with that very exception (kind and message), no earlier handler is called, and the exception is logged and the machine halted afterwards; without a handler it is logged and the machine halted. "
 "Installing a handler returns the previously installed one (none at first), which is then owned by the caller and not called again; the installed one stays alive until replaced. "
 "In debug builds an assertion that fails throws an assertion exception naming the condition, once, and an expectation that fails is only logged; conditions that hold do nothing, each is evaluated once, and in other builds none is evaluated.",
 ["histories"],
 "all sequences of installing, replacing, removing handlers and throwing exceptions of each kind",
 "Tests install one handler and throw once or twice.",
 [S+"core/exception.cpp", S+"core/exception.hpp"],
 [("swap", "set_machine_exception_handler"), ("dispatch", "Exception::throw_error")],
 [("handler", "currently installed handler", "eh_instance")], ["handler calls and handler object lifetimes"])

prop("C26", "Date-time follows the Gregorian calendar second by second",
 "For every timestamp the date-time's year, month, day, hour, minute, second, day of week and day of year are those of the proleptic Gregorian calendar in UTC, so that advancing the timestamp by one day moves the date to the next calendar day with every leap-year rule respected. "
 "Building a date-time from calendar fields, or from the date and time texts a compiler provides, gives the timestamp whose fields those are, and the count since 2000 is always the count since 1970 minus 946684800 seconds. Fields beyond their range carry over into the next larger one.",
 ["inputs"],
 "every day from 1900 to 2400, every second of a day, every valid date and time text",
 "Tests check a few dates; leap rules and fields such as 08 and 09 need particular inputs.",
 [S+"structure/time/datetime.cpp", S+"structure/time/datetime.hpp"],
 [("from timestamp", "DateTime(time_t)"), ("from fields", "DateTime(int...)"), ("from text", "DateTime(const char*, const char*)")],
 None, ["getters and timestamps"])

prop("C27", "Outputs report what was set, and fading ends at its setpoint",
 "A digital output reports exactly the state last set, initialised or flipped to, and passes exactly that state on to the pin each time. "
 "Fading an analogue output moves monotonically from the present value towards the setpoint in steps no larger than the increment, never leaves the range between the two, waits the given interval between steps, and ends with the output exactly at the setpoint; the increment and interval left out are a tenth and 250 ms. Initialising the native analogue output sets it to zero, and the native inputs read off and zero. Used through their bases, inputs, interrupts and outputs pass on to their implementation exactly what is asked and give back what it answers.",
 ["histories", "inputs", "configurations"],
 "all sequences of set, flip, initialise; all start values, setpoints, increments and intervals",
 "Tests fade between round numbers only; rounding of the number of steps depends on the values.",
 [S+"platform/gpio.hpp", S+"platform/gpio.cpp"],
 [("digital", "DigitalOutput::set_state, flip, initialize"), ("fade", "AnalogueOutput::fade_to, detail::fade_to")],
 [("state", "last set state", "DigitalOutput::_active, AnalogueOutput::_value")], ["values passed to the pin, value()/state(), uptime"])

prop("C28", "The native platform's clock and mock stream behave as one consistent device",
 "On the native platform milliseconds and microseconds are two views of one clock: every delay, in either unit, advances both by exactly that amount, and the clock never runs backwards. "
 "The mock stream delivers injected bytes in order to reads and written bytes in order to extraction, accepts exactly what fits its two buffers, reports available and writable counts exactly, keeps the two directions independent, and the mock UART passes all of this through unchanged.",
 ["histories", "configurations"],
 "all sequences of delays in both units; all interleavings of inject, read, write, extract for all buffer sizes",
 "Every other native test rests on these mocks but nothing checks them beyond a few bytes and delays.",
 [S+"platform/implementations/mock.hpp", S+"platform/platform.hpp", S+"io/stream/implementations/mock.cpp", S+"io/stream/implementations/mock.hpp"],
 [("clock", "Mock::millis, micros, delay_us, delay_ms"), ("stream", "MockStream"), ("uart", "MockUART")],
 None, ["millis/micros, bytes and counts"])

prop("C29", "Real-valued unit arithmetic and magnitude conversion are accurate",
 "For real (floating point) units, converting between any two magnitudes of one quantity, by construction or assignment, scales the value by their ratio up to the rounding of the number type, and keeps the quantity. "
 "Addition, subtraction, multiplication, division and the six comparisons act on the quantities, whatever magnitudes the operands are written in: a whole number of one unit equals the same quantity written in whole numbers of a finer one (30 mm is 3 cm), exactly one of less, equal and greater holds. "
 "A compound unit (such as volume per time) has the value of its numerator over its denominator in its own magnitudes, whichever magnitudes it is made from; converting or simplifying it keeps that value, for negative and zero values too, and simplifying leaves the smallest terms at the given precision; adding, subtracting, scaling, negating and comparing two compound units of different magnitudes act on their values. "
 "Dividing by nothing throws an exception. Degrees celsius and kelvin differ by 273.15. All of this holds for every unit the library defines.",
 ["inputs", "histories"],
 "all float values, all unit and magnitude pairs, all sequences of operations",
 "Tests sample a few values per unit and compare with tolerances.",
 [S+"structure/units/primitives/unit.hpp", S+"structure/units/primitives/compound_unit.hpp", S+"structure/units/primitives/magnitudes.hpp", S+"structure/units/si.hpp", S+"structure/units/temperature.hpp"],
 [("conversion", "Unit::from_other"), ("compare", "Unit::compare, CompoundUnit operators"), ("compound", "CompoundUnit constructors, simplify, operators"), ("temperature", "to_kelvin, to_celsius")],
 [("value", "raw value in the unit's magnitude", "Unit::_value, CompoundUnit::_numerator, _denominator")], ["raw(), comparisons, numerator(), denominator()"])

prop("C30", "The small value types compute what their names say",
 "Points of two or three coordinates add, subtract, multiply, divide and take remainders coordinate by coordinate, whether by operator or by the member that changes the point, and never mix coordinates; scaling scales every coordinate, two points are equal exactly when all coordinates are, the magnitude is the euclidean length (rounded down for whole numbers), normalising keeps the direction and makes the length one, and a point nobody set is the origin. "
 "A tuple gives back what was put in, in either place, after changing either and in copies. Joining literals gives their characters in order, without the terminators in between and with one at the end. "
 "A list of types made unique has every type of the list exactly once.",
 ["inputs", "histories"],
 "all coordinates, all sequences of operations, all lists of literals and types",
 "The repository has no test for any of these.",
 [S+"structure/point.hpp", S+"structure/tuple.hpp", S+"core/utils/concatenate.hpp", S+"core/meta/unique_type_variant.hpp"],
 [("points", "XYPoint, XYZPoint"), ("tuple", "Tuple::first, second"), ("joined", "concat"), ("types", "Unique")],
 [("point", "coordinates", "x, y, z"), ("tuple", "two values", "Tuple::m_t0, m_t1")], ["coordinates, mag(), comparisons, text, types"])

prop("C31", "Debug builds accept legal use: no internal assertion fires",
 "Built with DEBUG_SPINE, every operation within its precondition runs without any of the library's own assertions firing, whatever came before, and has the result it has in a release build. "
 "Where an operation is refused for lack of room (a push or insert into a full vector, a static string asked for more than its capacity, an event requested, scheduled or triggered from an exhausted event system) the refusal is reported by an assertion, and what the operation leaves behind is the same as in a release build.",
 ["histories", "configurations", "inputs"],
 "all histories, sizes and arguments the specifications of the other properties allow",
 "Assertions state invariants of the code for every history; the tests run a handful of histories past each of them.",
 [S+"core/debugging.hpp", S+"structure/vector.hpp", S+"structure/pool.hpp", S+"eventsystem/eventsystem.cpp", S+"eventsystem/pipeline.cpp", S+"io/stream/transaction.cpp", S+"structure/static_string.cpp", S+"controller/pid.cpp"],
 [("assertions", "spn_assert throughout src/spine")],
 None, ["assertion exceptions raised", "results of operations"])

prop("C32", "Debug builds report misuse before it does harm",
 "Built with DEBUG_SPINE, an operation outside its precondition is reported by an assertion exception before the object is changed or memory is touched: adding to a full vector, taking, peeking or indexing where a vector has no element; populating a full pool, depopulating an empty one, acquiring from one not fully populated; asking a result or event data for what it does not hold; "
 "using a transaction after commit, abort or move, writing more than fits, or starting one without a stream or a line; attaching a missing handler, to an unknown event or beyond the handlers per event; triggering an unknown or unhandled event or none at all; scheduling with no delay; requesting more events than there are; a handler used without an event system or adopted twice or by none; pushing to a full or expiring an empty pipeline; "
 "constructing a schedule with an empty block or longer than a day, an alarm not in the future, a ring buffer without capacity, a controller without sample interval or with missing inputs or negative gains, a band pass with mantissa outside [1,10), inverting or fading to a value out of range, and calling a stream function the stream does not have. Operations within their preconditions are not reported.",
 ["inputs", "histories", "configurations"],
 "all histories of vectors, pools, transactions and event systems up to misuse at any point, and all boundary arguments",
 "No test looks at misuse; a missing or shifted guard only shows as memory corruption much later.",
 [S+"core/debugging.hpp", S+"structure/vector.hpp", S+"structure/pool.hpp", S+"structure/result.hpp", S+"eventsystem/eventsystem.hpp", S+"eventsystem/eventsystem.cpp", S+"io/stream/transaction.cpp", S+"structure/time/schedule.cpp"],
 [("guards", "spn_assert at the start of each operation")],
 [("object", "what the object holds", "the object's own members"), ("reported", "assertion exception raised", "the installed ExceptionHandler")], ["assertion exceptions raised", "content of the object afterwards"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
prop("C33", "A stack is last in, first out, and lets go of what is popped",
 "A stack holds the elements pushed and not popped, in order: the one on top is always the last pushed of those still there, popping takes exactly that one, and changing what is on top changes nothing below it. Pushing, by reference or by moving in, leaves the elements below untouched, and one for which there is no room is refused. "
 "Size and empty agree with the content after every operation. An element is kept alive by the stack exactly while it is on it: popped or replaced, it is let go at once unless the caller holds it, and destroying the stack lets go of everything.",
 ["histories", "configurations"],
 "all histories of push, emplace, pop and change of the top for all capacities, with elements that occur several times",
 "No test uses the stack at all; ownership needs a history of pushes and pops with outside holders.",
 [S+"structure/stack.hpp", S+"structure/vector.hpp"],
 [("push", "Stack::push, emplace"), ("pop", "Stack::pop"), ("top", "Stack::top")],
 [("content", "elements bottom to top", "Stack::store")], ["size, empty, top and the reference count of every object"])
prop("C34", "On an Arduino board the platform drives and reads pins and serial as configured",
 "A digital output becomes an output pin when initialised and from then on has the level of its state, inverted if it is active on low; its reported state is the last one set. An analogue output's duty is its value's share of full scale, whatever the output's own resolution and that of others: exactly nothing when off and exactly full scale when on, complemented if active on low, never more than the resolution holds. "
 "Inputs read what is on the pin, with the pull-up configured. An interrupt calls the callback last given, on the edges last asked for (rising, falling, both) and on no others, until it is detached; other interrupts are not affected. The UART gives bytes in the order they arrived, once each, waits no longer than its time-out for missing ones, reports that there is none to read instead of inventing one, and writes no more than there is room for, reporting how many. "
 "Delays, printing (formatted texts are cut to 255 characters), the baud rate and halting (interrupts off, the reason told) arrive at the board, and what the heap grows by is no longer reported as free. No other pin is touched.",
 ["histories", "configurations", "inputs"],
 "all histories of digital and analogue outputs, inputs, interrupts, serial port and clock on a simulated board, for all configurations",
 "No test compiles the Arduino platform; what a pin shows depends on sense, resolution and on what other outputs did.",
 [S+"platform/implementations/arduino.hpp", S+"platform/implementations/arduino_without_sugar.hpp", S+"platform/gpio.hpp", S+"platform/platform.hpp"],
 [("set", "DigitalOutput::set_state, AnalogueOutput::set_value"), ("attach", "Interrupt::attach_interrupt, detach_interrupt"), ("uart", "ArduinoUART::read, write")],
 [("pins", "mode, level and duty of each pin", "the board"), ("interrupts", "callback and edge attached per interrupt", "the board and ArduinoInterrupt::_mode, _callback"), ("serial", "bytes received and sent, room", "the board")],
 ["pins, duty, attached interrupts, serial bytes and clock of the simulated board after every operation"])
prop("C35", "On Zephyr, delays last as asked, logging obeys its level and halting panics",
 "A delay lasts at least as long as asked for and at most a millisecond (below a millisecond: a tick) longer, in whichever unit and way it is asked for; from a millisecond on the kernel sleeps. Clock readings are the kernel's. "
 "A message reaches the kernel's log exactly if its level is enabled, once, at the corresponding kernel level and with its whole text up to 255 characters (debug messages with where they come from). Setting the log level sets the kernel's own filter to the same level: turned off, nothing passes. Halting gives the reason, if one is given, and panics.",
 ["histories", "inputs"],
 "all histories of level changes, messages of all lengths around the maximum, delays of all sizes and halts on a simulated kernel",
 "No test compiles the Zephyr platform; a delay's length depends on the amount, what is logged on the level history.",
 [S+"platform/implementations/zephyr.hpp", S+"platform/implementations/zephyr.cpp", S+"core/logging.cpp"],
 [("delay", "Platform::delay, delay_ms, delay_us"), ("log", "SPN_ERR .. SPN_DBG"), ("level", "set_log_level"), ("halt", "Platform::halt")],
 [("clock", "the kernel's uptime", "the kernel"), ("level", "log level and kernel filter", "g_log_level and the kernel")], ["clock, log lines with level, filter and panic of the simulated kernel"])

with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
