#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here because JSON lines are unpleasant to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

CB = ["gel/collections/circular_buffer.c", "gel/collections/circular_buffer.h"]
prop("C01", "Ring buffer is an exact bounded byte FIFO for every size and history",
     "For a ring initialised with any memory size N and any history of single and bulk put, get, peek, drop and reset calls, the bytes read are exactly the bytes accepted, in order, each exactly once, and peeking never consumes. "
     "A bulk put accepts min(len, N-1-stored) bytes, a bulk get/peek/drop delivers min(len, stored), single put/get fail exactly when the ring is full/empty, and no call touches memory outside the N elements and the caller's buffers. "
     "Size, capacity, empty and full always report the number of bytes stored, N-1, stored=0 and stored=N-1. Every transfer on a missing ring, or on one that was never given memory, reports failure and affects nothing.",
     ["inputs", "histories", "configurations"], "every buffer size, every index position (incl. wrap-around), every history of calls and lengths, every byte value",
     "The tests use one size (64) and a few aligned histories; they never do a bulk operation on a wrapped or full ring with a length at the boundary, and never ask for the size of a full ring.",
     CB, [("_circular_buf_get / circular_buf_puts chunk computation", CB[0]), ("is_circular_buf_full keeps one slot free", CB[0])],
     [("head", "next slot written by the producer", CB[1]), ("tail", "next slot read by the consumer", CB[1])],
     ["return values and data of every public call"])
prop("C02", "Ring buffer is safe for one producer and one consumer in any interleaving",
     "With one thread calling only the producer functions (single and bulk put) and one calling only the consumer functions (single and bulk get, peek, drop), under every sequentially consistent interleaving of their memory accesses the consumer receives exactly a prefix of the accepted byte stream and every call terminates. "
     "A bulk put accepts fewer bytes than it is given only if at some moment during the call the ring had room for exactly that many of them, a bulk get/peek/drop delivers fewer bytes than asked only if at some moment during the call the ring held exactly that many for it, single put/get fail only if the ring was full/empty during the call. "
     "The producer never modifies the read index nor stored bytes not yet consumed, and the consumer never modifies the write index or the stored bytes.",
     ["schedules", "inputs", "histories"], "every interleaving of the producer's and the consumer's memory accesses, every start position, fill level and length",
     "All existing tests are single threaded; the property is over schedules at the granularity of single loads and stores.",
     CB, [("producer publishes head only after the bytes are written; consumer releases tail only after copying", CB[0])],
     [("head", "written only by the producer", CB[1]), ("tail", "written only by the consumer", CB[1])],
     ["call/return history of both threads", "writes to head, tail and the cells, observed by compiling the unmodified source with memory-access instrumentation"])
prop("C03", "Typed queue is an exact bounded FIFO across index wrap-around",
     "For a generated queue of any power-of-two capacity up to 32768 and any item type, any history of enqueue, dequeue (with or without an output pointer), drop and re-initialisation yields the items in FIFO order, each exactly once, unmodified. "
     "Enqueue fails exactly when capacity items are stored and dequeue/drop fail exactly when none is, in both cases changing nothing. "
     "Count, is-empty and is-full always agree with the number of items stored, also after any number of operations.",
     ["histories", "inputs", "configurations"], "every capacity (power of two), item type, and history of any length, including more than 65536 operations",
     "The tests fill and drain an 8-slot queue completely in lockstep (so the indices wrap together), and never call count, is_full or drop.",
     ["gel/collections/queue.h"], [("free-running 16-bit indices masked by capacity-1", "gel/collections/queue.h")],
     [("read_idx/write_idx", "free-running counters", "gel/collections/queue.h")], ["return values and items of every generated function"])
prop("C04", "Typed stack is an exact bounded LIFO",
     "For a generated stack of any capacity up to 65535 and any item type, any history of push, pop (with or without an output pointer), peek, bottom removal and re-initialisation behaves as a bounded sequence: pop and peek deliver the most recently pushed remaining item, bottom removal discards the oldest, and the order of the others never changes. "
     "Push fails exactly when capacity items are stored, pop/peek fail exactly when the stack is empty, and failing or peeking changes nothing. "
     "Is-empty and is-full agree with the number of items stored.",
     ["histories", "inputs", "configurations"], "every capacity, item type and history of calls",
     "No test instantiates the stack macros at all.",
     ["gel/collections/stack.h"], [("idx is the number of items; items[idx-1] is the top", "gel/collections/stack.h")],
     [("idx", "number of items", "gel/collections/stack.h")], ["return values and items of every generated function"])
prop("C05", "Intrusive list keeps exactly the inserted elements in order, both ways",
     "For any history of head insertion, tail insertion and removal of elements over any number of lists, traversing a list forwards yields exactly its current elements in the order implied by the insertions, and traversing it backwards yields the reverse. "
     "Emptiness, is-last, next and previous agree with that sequence, removing an element affects only its own list, and the entry-wise traversals return the structure that contains each link, wherever the link is placed in it.",
     ["histories", "inputs"], "every history of insertions and removals, every number of lists and elements, every position of the link within the containing structure",
     "No test includes the header.",
     ["gel/collections/listx.h"], [("__list_add / __list_del relink both neighbours", "gel/collections/listx.h"), ("container_of", "gel/collections/listx.h")],
     [("next/prev", "doubly linked ring through the sentinel", "gel/collections/listx.h")], ["traversals in both directions after every call"])
CE = ["gel/circular_event_log/circular_event_log.c", "gel/circular_event_log/circular_event_log.h"]
prop("C06", "Event log always serves exactly the newest retained events, oldest first",
     "For any log capacity, event size and history of saves (some of which the storage may refuse), the log retains the last min(saved, capacity) events and asking for `number` events skipping the newest `jump` returns exactly the events in that window, oldest first, clipped to what is retained, together with their count (0 if jump exceeds what is retained). "
     "The total equals the number retained, a refused save changes nothing and its error is reported, a failing storage read is reported as that error, and storage is only ever accessed inside [0, capacity). "
     "A log structure restored from its saved position and full flag continues identically.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every capacity, event size, history of saves, (number, jump) request, and every storage failure",
     "The tests use one capacity, never make the storage fail, and only ask for windows that are fully retained.",
     CE, [("nth_last_event and the two-part read around the wrap", CE[0])],
     [("next_position", "slot of the next event", CE[1]), ("full_circle", "the storage has been filled once", CE[1])],
     ["return values, loaded bytes, arguments of the storage callbacks"])
WL = ["gel/wearleveling/wearleveling.c", "gel/wearleveling/wearleveling.h"]
prop("C07", "Wear-levelled memory never loses acknowledged data across power loss",
     "On a page of 2 to 255 blocks whose markers were initially all equal and whose storage writes a block's marker last (a block write it reports as failed leaves the marker unwritten): after any history of writes and reads of any length up to a block, storage failures, power losses at any point and re-initialisations, a successful read returns the data of the last write that reported success, or of a later write interrupted after the storage had completely stored it. "
     "(What lies behind a write shorter than the block is kept if that write changed nothing and is unspecified otherwise.) "
     "This holds from the first read after any restart, whatever the position of the active block and however often the markers have wrapped. "
     "Storage errors, also during initialisation, are reported to the caller and never make later reads or writes return or destroy other data.",
     ["crash_points", "fault_sequences", "histories", "configurations"], "every number of blocks, every crash point (before, inside and after the block write), every failing call, every history over any number of marker wraps",
     "The tests never re-initialise after writing, never fail or interrupt a storage call, and always use 128 blocks.",
     WL, [("search_last finds the block whose successor does not carry the next marker", WL[0]), ("wearleveling_write advances block and marker", WL[0])],
     [("last_active_block/last_marker", "position of the live copy", WL[1])], ["data returned by reads, results of writes, the block-write calls received by the storage"])
prop("C08", "Wear is spread evenly: one block write per change, round robin",
     "Writing data equal to the current content performs no storage write; writing different data performs exactly one block write, to the block after the active one (cyclically), with the marker after the last one (modulo 256). "
     "Hence over any history without storage faults the numbers of writes received by any two blocks differ by at most one, also across restarts. "
     "Reads and initialisation never write to the storage and no block outside the page is ever accessed.",
     ["histories", "configurations", "inputs", "crash_points"], "every number of blocks, every history of writes, reads and restarts, every marker position",
     "The tests count writes for three calls on one configuration and never look at which block is written or at its marker.",
     WL, [("NEXT_BLOCK on block index and marker", WL[0]), ("memcmp against the active block", WL[0])],
     [("last_active_block/last_marker", "position of the live copy", WL[1])], ["the sequence of storage calls"])
DB = ["gel/debounce/debounce.c", "gel/debounce/debounce.h"]
prop("C09", "Debounced inputs change only after debounce+1 consecutive differing samples",
     "For every input sequence and constant debounce value d >= 0, the filtered level of each of the inputs changes exactly at the (d+1)-th consecutive sample that differs from it, and a sample that agrees with it restarts the count. "
     "Each filter call reports exactly the set of inputs that changed in that call, the single-input form affects only its own input, inputs never influence each other, and reading an index out of range returns -1. "
     "Initialising or setting the filter gives exactly the requested levels and restarts every count.",
     ["histories", "inputs"], "every sequence of samples on all 32 inputs, every debounce value, interleaved with set/init and single-input calls",
     "The tests change one input at a time out of 16, for three debounce values, and look only at whether some change was reported.",
     DB, [("per-input countdown, re-armed on agreement", DB[0])],
     [("buffered/old_input", "filtered levels", DB[1]), ("debounce_count", "countdown per input", DB[1])], ["return masks, levels of all inputs after every call"])
PC = ["gel/debounce/pulsecounter.c", "gel/debounce/pulsecounter.h"]
prop("C10", "Each pulse counter counts exactly the debounced pulses of its polarity",
     "For every input sequence and constant debounce value d >= 0, the level of each input changes exactly at the (d+1)-th consecutive differing sample, and its count increases by one exactly when the level returns from the pulse polarity (high pulses: high to low, low pulses: low to high) and at no other time. "
     "Each call reports whether some count increased; clearing resets only that counter; indices out of range return -1 or are ignored. "
     "Initialisation yields zero counts, the given levels and no pending change, whatever the structure contained before.",
     ["histories", "inputs", "configurations"], "every sequence of samples on all 32 inputs, both polarities, every debounce value, every clear/re-initialise, any prior memory content",
     "The tests use zeroed static memory, toggle one input at a time, and never check the other counters or clear one.",
     PC, [("per-input countdown and polarity switch", PC[0])],
     [("count/filters/old_input", "pulses, countdown, level per input", PC[1])], ["return value, counts and levels of all inputs after every call"])
KP = ["gel/keypad/keypad.c", "gel/keypad/keypad.h"]
prop("C11", "Keypad emits a well-formed, correctly timed event sequence, one key at a time",
     "For every key table (distinct non-zero bitmaps), every sequence of sampled bitmaps and non-decreasing timestamps (also across timestamp wrap-around) and click <= longclick: each key produces PRESS when first sampled, then CLICK once it has been held for more than the click time, PRESSING repeats spaced by more than the period, LONGCLICK once when held longer than the long-click time, LONGPRESS repeats after it, and RELEASE exactly once per activation - immediately when no click was reported, otherwise once it has stayed released for more than the click time. "
     "At most one key is engaged at any time: between a key's PRESS and its RELEASE no other key produces an event, and no key produces any event unless it was sampled pressed. "
     "The reported code is that of the key concerned, reset forgets all keys, so that one still held is pressed anew, and the queried key state is never 'pressed' for a key that the last sample examined as not pressed.",
     ["histories", "inputs", "schedules"], "every key table, sample sequence, timing and timestamp base",
     "The tests follow a handful of scripted presses with fixed times starting near 0; bounces, hand-overs between keys, wrap-around and timing boundaries are not explored.",
     KP, [("table scan selecting the one engaged key", KP[0]), ("event chain driven by lastevent and strict expiry", KP[0])],
     [("_state", "per-key value, last event and reference times", KP[1])], ["(code, event) of every call, key state of every key"])
TC = "gel/timer/timecheck.h"
prop("C12", "Time comparison is exact across timestamp wrap-around",
     "For any two timestamps less than half the timestamp range apart, 'after', 'after or equal' and 'before' give the order in which they were taken, also when the timestamp counter wrapped in between, and the interval between them is their true distance in either argument order. "
     "For any start time and any delay below half the range, a timeout is loosely expired at exactly the instants from start+delay on, and strictly expired at exactly the instants after it (within half the range).",
     ["inputs"], "every pair of timestamps and every delay, in particular around 0, the maximum and the sign change",
     "The test file for this header is not even compiled in this build; it samples about twenty fixed pairs.",
     [TC], [("signed difference of unsigned timestamps", TC)], [], ["results of the comparison helpers"])
SW = ["gel/timer/stopwatch.c", "gel/timer/stopwatch.h"]
prop("C13", "Stopwatch accounts exactly the running time under any start/pause history",
     "For any history of start, pause, stop, restart, change, set and set-elapsed calls with non-decreasing timestamps (also across wrap-around, with totals below half the timestamp range), the elapsed time is exactly the time spent counting since the last reset, plus any elapsed time set while stopped, and is frozen while paused. "
     "Remaining time is the period minus elapsed time, never below zero, and a started or paused stopwatch reports reached exactly when nothing remains; a stopped one never does. "
     "Operations not allowed in the current state return -1 and change nothing.",
     ["histories", "inputs"], "every history of calls, every period and timestamp, including wrap-around",
     "The tests use monotone timestamps from 0, one pause/resume random walk and fixed periods.",
     SW + [TC], [("starting_time/elapsed_time bookkeeping per state", SW[0])],
     [("state", "stopped, counting or paused", SW[1]), ("elapsed_time", "time accounted before the last start", SW[1])], ["return values, elapsed, remaining, reached, state after every call"])
TM = ["gel/timer/timer.c", "gel/timer/timer.h"]
prop("C14", "Software timer fires exactly when due: once, or once per period if reloading",
     "For any history of init, stop, pause, resume, reset, period change, auto-reload changes and polls with non-decreasing timestamps, a poll invokes the callback exactly once - with the timer, the poll's user pointer and the stored argument - and returns 1 if the timer is running (or paused) and its counted time has reached its period, and otherwise invokes nothing and returns 0. "
     "After firing, a one-shot timer is stopped and never fires again until re-armed, an auto-reloading one starts a full new period at the poll. "
     "Reset and period change start a full period keeping the timer paused if it was paused, and have no effect on a stopped timer; pausing freezes the remaining time.",
     ["histories", "inputs"], "every history of calls, polls at every instant, every period, wrap-around",
     "gel/timer/timer.c has no tests at all.",
     TM + SW, [("manage_callback on top of the stopwatch", TM[0])],
     [("stopwatch, autoreload", "running state and reload mode", TM[1])], ["callback invocations and arguments, return values, remaining time"])
WA = ["gel/data_structures/watcher.c", "gel/data_structures/watcher.h"]
prop("C15", "Watcher reports every change once, delayed ones once after they settle",
     "For any list of watched memory blocks and any history of modifications, processing calls a watcher's callback - with its block and its user pointer, in list order - exactly once for each processing call that finds the block different from the last acknowledged content, and returns 1 exactly when some block differed. "
     "For a watcher with a delay the callback is instead invoked once, at the first processing call that finds the block unchanged at least the delay after the last detected change (also across timestamp wrap-around), however many changes were detected meanwhile. "
     "Checking never invokes callbacks or acknowledges anything, clearing acknowledges all blocks (dropping the pending notification of the delayed ones it finds changed) without invoking callbacks, and triggering invokes exactly the selected callbacks and changes nothing.",
     ["histories", "inputs", "configurations"], "every list of blocks, sizes and delays, every history of modifications, checks, clears, triggers and processing calls with any timestamps",
     "The tests change one variable once or twice and never use check, clear or trigger, several delayed watchers, or wrap-around.",
     WA + [TC], [("old/current comparison and moved flag with timestamp", WA[0])],
     [("old", "last acknowledged content", WA[1]), ("moved,timestamp", "pending delayed notification", WA[1])], ["return values and the sequence of callback invocations"])
PA = ["gel/parameter/parameter.c", "gel/parameter/parameter.h"]
prop("C16", "Stepping a parameter keeps it in range and wraps at the ends",
     "For every integer type of 8 to 64 bits, signed or unsigned (and float/double on exactly representable values), with fixed or pointed-to limits min <= max: stepping by any multiplier whose exact result fits the type gives value + step*multiplier if that lies within the limits, otherwise the minimum when stepping up and the maximum when stepping down. "
     "An exact result that does not fit an unsigned, 8- or 16-bit type is taken modulo the type first, so that stepping from inside never leaves [min, max]. "
     "Pointed-to limits take precedence over fixed ones and are evaluated at each call, the limits, step and default given to the declaration macros are the ones in force for the full range of each type, and only the parameter's own bytes are modified.",
     ["inputs", "configurations", "histories"], "every type, value, limits, step and multiplier",
     "The tests step one uint32 parameter by one.",
     PA, [("APPLY_OPERATOR with CHECK_RANGE_AGAINST", PA[0]), ("_PARAMETER_LIMIT_VALUE_OPTION", PA[1])],
     [("pointer, pmin/pmax, min/max, step", "the parameter and its limits", PA[1])], ["value and neighbouring bytes after each step"])
prop("C17", "Parameter tables: access filtering, defaults and range repair are exact",
     "For any parameter table and access mask, the n-th accessible parameter (level zero or sharing a bit with the mask, in table order) is returned for every n below the table size, NULL if there are fewer, and the accessible count equals the number that can be so obtained. "
     "Resetting sets every parameter of the table to its default, and range checking resets exactly the parameters outside their current limits, leaves all others untouched and returns how many it repaired. "
     "Every parameter's runtime callback runs, with its own handle and argument, before its access level or limits are evaluated.",
     ["inputs", "configurations", "histories"], "every table, access mask, index, and combination of in- and out-of-range values over all types",
     "The tests use one access level, tables without runtime callbacks or level-zero entries, and four types.",
     PA, [("parameter_get_handle filter", PA[0]), ("CHECK_RANGE/SET_DEFAULT", PA[0])],
     [("access_level, runtime", "visibility and refresh hook", PA[1])], ["returned handles, counts and all parameter values"])
prop("C18", "Parameter conversions and copies preserve type and value",
     "Converting an integer parameter to long yields its exact value for every type (up to the range of long), its index equals that value when non-negative, it is true exactly when non-zero, and a null handle converts to zero. "
     "The number of values of an integer parameter is max-min+1 of the limits in force, whenever that fits size_t. Rendering a parameter through the matching printf conversion gives the exact text of its value, and rendering a missing parameter leaves the result untouched. "
     "Copying a value succeeds only between parameters of the same type, copies exactly the bytes of that type and nothing else; cloning yields an independent parameter with the same description and value in the new storage, leaving the source unchanged.",
     ["inputs", "configurations"], "every type and value, in particular negative and maximal ones",
     "No test calls any conversion, clone or copy function.",
     PA, [("per-type switch statements", PA[0])], [], ["converted values, all bytes of source and destination storage"])
PI = ["gel/pid/pid.c", "gel/pid/pid.h"]
prop("C19", "PID terms are exactly those of the documented windows and thresholds",
     "For any history of inputs, set-point and tuning changes (on values where the arithmetic is exact), the proportional term is Kp times the current error, the integral term Ki times the sum over the last H inputs (H the configured window) since the last clearing of the errors that were within the enabled threshold for their sign, and the derivative term Kd times the change of error over the last D inputs (or since the first, while fewer), zero when the error exceeds an enabled derivative threshold. "
     "The output is the sum of the three terms, each truncated toward zero, for any window sizes. "
     "With automatic clearing enabled the integral window is cleared exactly when the sign of the error flips, a zero error counting as no sign.",
     ["histories", "inputs", "configurations"], "every history of inputs, set points, gains, thresholds, clears, window sizes",
     "The tests follow a few monotone input sequences with one window size and hardly exceed one window.",
     PI, [("ring of eligible errors; ring of past errors", PI[0])],
     [("history/index", "integral window", PI[1]), ("derivative_history", "past errors", PI[1])], ["error and the three terms after every input"])
SC = ["gel/scheduler/scheduler.c", "gel/scheduler/scheduler.h"]
prop("C20", "Scheduler selects the right active entry at every instant of the week",
     "At any weekday and time, an entry is in its window exactly when its day mask includes that weekday and the time is in [start, end), or for an end beyond midnight in [start, 24:00) or [0:00, end-24:00). "
     "The active entry is the enabled one in its window with the smallest weekly duration (length times number of days), ties going to the larger value and then to the lower index; there is none exactly when no enabled entry is in its window, and the active flag, current value and remaining duration (time until that window's end) agree with it. "
     "The active map has exactly the bits of the (first sixteen) enabled entries in their window. All of this holds for both ways of storing the table (fixed size and allocated at run time).",
     ["inputs", "configurations", "histories"], "every set of entries (days, start, end, value, enabled), every weekday and second",
     "gel/scheduler has no tests.",
     SC, [("is_entry_active and the minimum search", SC[0])], [("entries", "the schedule table", SC[1])], ["results of all queries"])
prop("C21", "Schedule table operations are exact and entries survive serialisation",
     "Setting, reading, mutating, disabling and initialising entries affect exactly the addressed entry and are rejected for indices out of range; the first available entry and the next enabled entry from a start index are the lowest-indexed such entries, or -1. "
     "The overlap count is the number of enabled entries that share a weekday with the given entry and whose closed [start, end] interval intersects its own. "
     "Any entry with a value of 0..255 is serialised to exactly 11 bytes and restored identically.",
     ["inputs", "histories", "configurations"], "every table content, index, and probe entry",
     "gel/scheduler has no tests.",
     SC, [("NUM_ENTRIES bound checks; INCLUDED intervals; serializer", SC[0])], [("entries", "the schedule table", SC[1])], ["results and complete table after every call"])
PM = ["gel/pagemanager/page_manager.c", "gel/pagemanager/page_manager.h"]
prop("C22", "Page manager: every page instance is created, opened, closed, destroyed in order",
     "For any history of page change, back, swap, rebase, reset-to-page and event calls up to the navigation depth, the visible page is the top of the stack those calls describe, events and updates go only to it with its own data, and back on the last page changes nothing. "
     "Each page instance is created exactly once before use and destroyed exactly once when it leaves the stack for good - never while it is still on it - open and close strictly alternate, at most one page is open at a time, and each callback receives the data and extra of its own instance. "
     "Returning to a page reopens the same instance; reset-to-page returns to the nearest page with the given id below the visible one and destroys everything above it, or everything if there is none, and reports which; with no page left, the next change, swap or rebase starts afresh.",
     ["histories", "configurations"], "every history of navigation calls, with any subset of the optional callbacks present, up to the stack depth",
     "The module cannot be compiled at this commit (all its declarations are disabled), so its tests are left out of the build.",
     PM + ["gel/collections/stack.h"], [("navigation stack and callback order", PM[0])],
     [("current_page, page_stack, initialized", "visible page and pages below", PM[1])], ["sequence of lifecycle callbacks with their arguments"])
prop("C23", "Serialisation is exact positional encoding and lossless for all values",
     "For every value of every width (8, 16, 32, 64 bits, signed and unsigned) encoding writes exactly the width's number of bytes, least significant first (le) or most significant first (be), touches no other byte and returns that number; decoding any bytes yields exactly the value they denote and returns the same number. "
     "Decoding an encoded value always gives the original value back; the pack and unpack macros agree with the functions, whatever expressions they are given.",
     ["inputs"], "every value and byte string, both byte orders",
     "The tests encode and decode one random value per width and never look at the bytes produced.",
     ["gel/serializer/serializer.h"], [("shift and mask per byte", "gel/serializer/serializer.h")], [], ["bytes written and values read"])
prop("C24", "CRC-16/CRC-32 equal the polynomial remainder and compose over splits",
     "For every byte block and initial value, the 16-bit checksum is the remainder for polynomial 0x1021 and the 32-bit one for 0x04C11DB7, both most significant bit first, without reflection or final inversion. "
     "Feeding a block in any number of consecutive pieces, passing each result as the next initial value, gives the same checksum as feeding it at once, an empty piece leaves it unchanged, and the input is not modified.",
     ["inputs", "histories"], "every block, length, initial value and way of splitting the block",
     "gel/crc has no tests.",
     ["gel/crc/crc16-ccitt.c", "gel/crc/crc32.c"], [("256-entry tables", "gel/crc")], [("crc", "the register, threaded by the caller", "gel/crc")], ["return values"])
prop("C25", "State machine dispatches each event to the current state's handler only",
     "For any table of handlers and any sequence of events, each event is passed exactly once, with the model, to the handler of the current state; a non-negative result becomes the current state for the next event and 1 is returned, a negative one leaves the state unchanged and 0 is returned.",
     ["histories", "inputs", "programs"], "every handler table, event sequence and handler result (including 0 and staying in place)",
     "No test includes the header.",
     ["gel/state_machine/state_machine.h"], [("managers[state] call and res >= 0 test", "gel/state_machine/state_machine.h")], [("state", "current state", "gel/state_machine/state_machine.h")], ["handler invocations and return values"])
prop("C26", "A struct update is a snapshot that changes exactly its field when applied",
     "An update created for a field keeps the value given at creation whatever happens to the source afterwards, and applying it - any number of times, to any instances of the structure, interleaved with other updates - sets exactly the bytes of that field and no others. "
     "Array updates cover exactly the given number of elements, and freeing one update releases what it held and never affects another. A value of another type is converted to the field's type, and computed once.",
     ["histories", "inputs"], "every field offset and size, every history of creations, source changes, applications and releases",
     "The test creates and applies each update once, immediately, and looks only at the field set.",
     ["gel/data_structures/struct_update.c", "gel/data_structures/struct_update.h"], [("heap copy of the value plus offset", "gel/data_structures/struct_update.c")],
     [("offset,data,size", "the encoded change", "gel/data_structures/struct_update.h")], ["all bytes of the target structures"])
prop("C27", "Maybe values obey the laws of an optional",
     "A returned value is present and yields itself, whatever the default; nothing is absent and yields the default. "
     "Map applies the function exactly once to a present value and yields the present result, bind yields exactly what the function returns, and on nothing both return nothing without calling the function, for chains of any length and any value type.",
     ["inputs", "programs"], "every value (including zero and bit patterns that look like the empty flag), function and chain",
     "The test never calls map or bind.",
     ["gel/data_structures/maybe.h"], [("just/nothing pair", "gel/data_structures/maybe.h")], [("just, nothing", "payload and absence flag", "gel/data_structures/maybe.h")], ["results and function invocations"])

prop("C28", "Objects of the library are independent of each other",
     "Whatever is done with one object of a module (ring, queue, stack, list, event log, wear-levelled memory, debounce filter, keypad, stopwatch, timer, watcher list, parameter table, PID, scheduler, page manager, serialised buffer, checksum, state machine, struct update, optional) has no effect on any other: "
     "in every interleaving of the calls of two users, including calls made on one object while a callback made for the other is still running, every call returns, notifies and stores exactly what it would if the other user did not exist. "
     "No module keeps state outside the objects it is given, neither for the duration of a call nor between calls.",
     ["histories", "schedules"], "every pair of histories on two objects of a module, every interleaving of their calls, calls nested inside callbacks of the other object",
     "The tests use one object of a module at a time, one after another, and never call the library from within a callback.",
     ["gel/timer", "gel/parameter", "gel/wearleveling", "gel/state_machine", "gel/scheduler", "gel/pagemanager", "gel/data_structures", "gel/keypad", "gel/debounce", "gel/circular_event_log", "gel/pid"],
     [("state passed by pointer to every call", "gel/timer/timer.c"), ("callbacks into the application in the middle of a call", "gel/wearleveling/wearleveling.c")],
     [("two copies of each module's state", "the fields of the object structures; nothing static", "gel")],
     ["results of every call of either user", "callbacks and storage accesses of either user"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
