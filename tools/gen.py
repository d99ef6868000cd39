#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand when a property changes; no check reads this file)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique='', level='proof', note=''):
    R.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
             technique=technique or 'function contracts on the real C code, discharged with CBMC DFCC (goto-instrument --dfcc --enforce-contract / --replace-call-with-contract), lemmas over the contracts', level=level, note=note))
I, H, S, C, F, CR = 'inputs', 'histories', 'schedules', 'configurations', 'fault_sequences', 'crash_points'

prop('C01', 'Circular buffer is a bounded FIFO over its backing array',
     'Starting from any valid buffer, every single-threaded operation behaves like a first-in first-out byte queue whose capacity is fixed at initialisation: bytes come out exactly once, in the order in which they went in, whatever number of wrap-arounds happened before. Size, remaining space and the full/empty answers always agree with the number of queued bytes (a full buffer has size equal to its capacity). A rejected or partial operation transfers exactly the bytes it reports and leaves every other queued byte and all memory outside the backing array untouched.',
     [I, H], 'all capacities, all head/tail positions, all byte counts and contents, all operation sequences (by induction over the buffer invariant)',
     'The tests push a handful of bytes through one small buffer; index wrap-around combined with block operations, full buffers and partial transfers have an unbounded number of positions and lengths.',
     ['gel/collections/circular_buffer.c', 'gel/collections/circular_buffer.h'],
     [('circular_buf_put/put2/get/puts/gets/append/drop and the inline index arithmetic', 'gel/collections/circular_buffer.c'), ('circular_buf_size, circular_buf_full, circular_buf_empty, circular_buf_space', 'gel/collections/circular_buffer.c')],
     [('head/tail', 'write and read position, head==tail means empty', 'circular_buffer.h')], ['return values and the bytes read back'])
prop('C02', 'Circular buffer is safe between one producer and one consumer',
     'When one context only writes and another only reads the same circular buffer without locks, every interleaving of their memory accesses hands the consumer exactly the bytes accepted from the producer, once and in order. A byte is never visible to the consumer before it has been stored, and neither side ever touches a slot that currently belongs to the other.',
     [S], 'all interleavings of the individual accesses to the shared indices, at every position, for every content',
     'The tests are single-threaded; the guarantee is about every point at which an interrupt or thread may run between two memory accesses.',
     ['gel/collections/circular_buffer.c', 'gel/collections/circular_buffer.h'],
     [('index published only after the data was stored / before the slot is reused', 'gel/collections/circular_buffer.c')],
     technique='rely/guarantee contract: environment steps inserted mechanically (clang AST) at every access to the shared indices of the real code, discharged with CBMC; bounded stand-in for the block operations in the quick check (stated bound)',
     level='other', note='Single-item operations and queries: proved for every capacity and every schedule. Block put, get and drop: every schedule for capacities up to 254 slots (65534 in the thorough check), peek up to 65534, by loop invariants - counted as bounded, not as proved. Memory model: sequentially consistent, index accesses atomic.')
prop('C03', 'Fixed-size queue is first-in first-out and counts correctly',
     'A declared queue (capacity a power of two) delivers its elements exactly once in insertion order, whether they are taken or dropped, and stores each one unchanged. It rejects insertion exactly when it holds its declared number of elements and extraction exactly when it is empty, without changing anything. After any history, including wrap-arounds, its count and its full and empty answers describe the number of elements in it.',
     [I, H], 'all index positions and contents, all operation sequences (induction over the representation invariant), several declared element types and sizes',
     'The tests use one queue of one type; count and peek are wrong only for particular head/tail positions.',
     ['gel/collections/queue.h'], [('QUEUE_DECLARATION / QUEUE_DEFINITION macros', 'gel/collections/queue.h')])
prop('C04', 'Fixed-size stack is last-in first-out',
     'A declared stack returns elements in the reverse order of insertion, rejects a push exactly when full and a pop or peek exactly when empty, without changing anything, and peeking returns the element a pop would return without removing it. Removing the oldest element moves all others down by one and keeps their order. No operation changes the elements it does not concern.',
     [I, H], 'all fill levels and contents, all operation sequences (induction over the representation invariant)',
     'The tests push and pop a few integers; the property is about every fill level and content.',
     ['gel/collections/stack.h'], [('STACK_DECLARATION / STACK_DEFINITION macros', 'gel/collections/stack.h')])
prop('C05', 'Intrusive doubly linked list keeps its links consistent',
     'Inserting a node after the head or before it and removing a node keep forward and backward links of an intrusive list consistent, change the sequence of nodes by exactly that insertion or removal, and write no other node. The emptiness, last-node, next and previous answers agree with the links. The iteration macros visit every node exactly once in list order, or in reverse order.',
     [I, H], 'all neighbourhoods of the affected position, lists of any length',
     'The tests build one short list; link repair depends on the position and neighbours of the node.',
     ['gel/collections/listx.h'], [('listx_* macros / inline functions', 'gel/collections/listx.h')])
prop('C06', 'CRC16 and CRC32 equal their polynomial definition on every message',
     'For every message and every initial value, the CRC16 result is the remainder of polynomial division by x^16+x^12+x^5+1 and the CRC32 result the remainder for generator 0x04C11DB7 (most significant bit first, no reflection, no final inversion). Computing a message in several segments, feeding each result as the initial value of the next call, equals computing it at once. The message is never modified and nothing outside it is read.',
     [I], 'all message contents and lengths, all initial values, all ways of splitting a message',
     'The CRC code has no tests at all; a single wrong entry among 512 table constants only shows for messages that reach it.',
     ['gel/crc/crc16-ccitt.c', 'gel/crc/crc32.c'], [('table lookup step', 'gel/crc')])
prop('C07', 'Serializer and deserializer are exact inverses with a fixed layout',
     'For every value of every supported unsigned and signed width from 8 to 64 bits and both byte orders, serialising writes exactly that width\'s number of bytes in the named byte order and reports that number. Deserialising them gives back the same value and reports the same number. No byte outside that range is read or written.',
     [I], 'all values of all widths, both byte orders, unaligned positions',
     'The tests round-trip a few constants; sign extension, byte order and width mistakes show only for particular values.',
     ['gel/serializer/serializer.c', 'gel/serializer/serializer.h'], [('serialize_*/deserialize_* functions and PACK/UNPACK macros', 'gel/serializer')])
prop('C08', 'Debounce filter changes an input only after enough consistent samples',
     'For each input line independently, the debounced value takes the raw level exactly when the raw level has differed from it in the configured number of consecutive calls plus one, whatever happened on the other lines or before. Each call reports exactly the lines that changed in it, reading a line gives its debounced value (or an error out of range), and setting or initialising the filter gives it that value with no change pending.',
     [I, H], 'all raw inputs on all lines, all debounce counts, all histories (inductive history invariant)',
     'The tests drive one or two lines through one sequence; interference between lines and counters left over from earlier bounces need particular histories.',
     ['gel/debounce/debounce.c', 'gel/debounce/debounce.h'], [('debounce_filter', 'gel/debounce/debounce.c')])
prop('C09', 'Pulse counter counts every debounced pulse exactly once',
     'For each input line independently, a level change is accepted only after the configured number of consecutive differing calls plus one, and the line\'s count increases by one exactly when an accepted pulse of the configured polarity ends. Reading and clearing concern only the addressed line, and out-of-range line numbers are rejected. Initialising starts with zero counts, the given levels and no change pending.',
     [I, H], 'all inputs on all lines, all debounce values, both polarities, all histories (inductive history invariant)',
     'The tests count a few pulses on one line; lost or double counts need particular bounce histories.',
     ['gel/debounce/pulsecounter.c', 'gel/debounce/pulsecounter.h'], [('pulse_filter', 'gel/debounce/pulsecounter.c')])
prop('C10', 'Keypad reports press, click, long click, repeat and release correctly',
     'For every key state, bit pattern and timing (click time not above long-click time), a call reports a press exactly when a key that was up is found down, a click once after it has been held longer than the click time, a long click once after the long-click time, a repetition event only while held and only after more than the repetition period, and a release only when the key is up (at once if it never became a click). In a list of keys one call reports the first key that was let go or awaits its release, otherwise the last one that is down, with its code, and no other key moves on. Resetting forgets every key, so that nothing is reported until one goes down.',
     [I, H], 'all key states, codes, bit patterns, timestamps across wrap-around and time limits',
     'The tests follow a few scripted sequences of one or two keys with fixed times.',
     ['gel/keypad/keypad.c', 'gel/keypad/keypad.h'], [('keypad_routine, keypad_reset_keys', 'gel/keypad/keypad.c')])
prop('C11', 'Watcher notices every change and fires each callback as specified',
     'Checking a watch list answers 1 exactly when some watched memory differs from its remembered value, and changes nothing. Processing answers the same, remembers the new value, and fires the callback of each changed element exactly once with its own memory and user data: immediately without delay, otherwise only once the delay has passed since the last change of that element. Initialising and clearing remember the current values without firing, triggering fires exactly the requested callbacks, and watched memory is never modified.',
     [I, H], 'all list contents, sizes, old and new values, delays and instants, pending states',
     'The tests watch a few variables with fixed values and instants.',
     ['gel/data_structures/watcher.c', 'gel/data_structures/watcher.h'], [('watcher_process_changes, watcher_clear_changes, watcher_check_for_changes', 'gel/data_structures/watcher.c')])
prop('C12', 'Optional values and recorded structure updates keep exactly their content',
     'An optional value built from a value is present and holds exactly that value, one built empty is absent; the default is used exactly when it is absent, and mapping or chaining applies the function exactly once to a present value and not at all to an absent one. A recorded structure update holds a copy of the given bytes and, applied, writes exactly those bytes at the recorded offset of the target and nothing else. Freeing an update releases its copy once.',
     [I, H], 'all contents, all sizes, all sequences of operations',
     'The tests use single values; equality over every byte of every size is a for-all statement.',
     ['gel/data_structures/maybe.h', 'gel/data_structures/struct_update.c', 'gel/data_structures/struct_update.h'], [('MAYBE macros, struct update function', 'gel/data_structures')])
prop('C13', 'Parameters never leave their range and step exactly',
     'Changing a parameter by any number of steps leaves it inside the limits in force (its dynamic limits where it has them), moving it by exactly that number of steps or wrapping to the opposite limit when that would leave the range, for every numeric type. A range check resets exactly the parameters that are out of range to their defaults and reports how many; a reset sets every parameter to its default; the number of values in an integer range is exact.',
     [I], 'all ten types, all values, limits (static or dynamic), steps, step counts and defaults; lists of any length',
     'The tests cover a few types with small values; overflow at type limits and dynamic limits need particular values.',
     ['gel/parameter/parameter.c', 'gel/parameter/parameter.h'], [('parameter_operator, parameter_check_ranges, parameter_reset_to_defaults, parameter_get_total_values', 'gel/parameter/parameter.c')])
prop('C14', 'Parameter enumeration lists exactly the accessible parameters',
     'For any access level, the n-th accessible parameter of a list is the n-th one in list order whose access level is free (zero) or shares a bit with the requested level, the count is the number of those, and the two agree: an n-th parameter exists exactly for n below the count. The runtime callback of a parameter is run once, with its own argument, before it is considered, and what it changes is respected.',
     [I], 'all access levels, masks and callbacks, lists of any length',
     'The tests enumerate one fixed list with one or two levels.',
     ['gel/parameter/parameter.c'], [('parameter_get_handle, parameter_get_count', 'gel/parameter/parameter.c')])
prop('C15', 'Parameter conversions, copies and constructors preserve values',
     'Reading a parameter as a signed integer gives its numeric value for every integer type, including negative values and type limits; reading it as an index gives its numeric value whenever that is not negative, and as a boolean whether it is nonzero. Copying succeeds only between equal types and then transfers exactly the value; clones have their own storage, the same description and the same value. The constructor macros record type, limits, default, step, access level and user data exactly as given for each of the ten types.',
     [I], 'all types and all values of each type',
     'The tests convert a few small positive values.',
     ['gel/parameter/parameter.c', 'gel/parameter/parameter.h'], [('parameter_to_long/index/bool, parameter_copy_value, parameter_clone*, PARAMETER* macros', 'gel/parameter')])
prop('C16', 'PID history buffers and control law stay exact over any history',
     'For every history of readings the integral term is its coefficient times the sum of the contributions of the most recent readings, as many as the configured history length, where a contribution is the error if the enabled thresholds admit it and zero otherwise, and a change of sign of the error forgets earlier contributions exactly when that is enabled. The derivative term is its coefficient times the difference between the current error and the error the configured number of readings earlier (or the oldest one known), and zero while none is known or above an enabled threshold. The output is the sum of the proportional, integral and derivative terms; each setting changes only itself, and no access leaves the history arrays.',
     [I, H], 'all ring positions, fill levels and contents, all coefficients and inputs (induction over the ring invariant); 200-entry history as configured',
     'The tests feed a short series; ring wrap-around after hundreds of samples and the combination of options are not reached.',
     ['gel/pid/pid.c', 'gel/pid/pid.h'], [('pid_add_input, pid_get_control, pid_reset and the ring arithmetic', 'gel/pid/pid.c')])
prop('C17', 'Weekly scheduler picks the right entry and durations for every instant',
     'At every instant of the week the scheduler selects, among the enabled entries that cover the instant, the one with the smallest weekly time span, then the largest value, then the first, and none exactly when no enabled entry covers it. The current value, the active answer, and the remaining time until the end of the running interval (also past midnight) are those of the selected entry. The map of active entries has exactly the bits of the enabled entries that cover the instant.',
     [I, C], 'all entries, enable masks, weekdays and seconds of the day; both configurations of the entry layout that build',
     'The scheduler has no tests; the property ranges over every instant of the week and every overlap of entries.',
     ['gel/scheduler/scheduler.c', 'gel/scheduler/scheduler.h'], [('active entry selection, remaining duration', 'gel/scheduler/scheduler.c')])
prop('C18', 'Scheduler store keeps entries intact through edits and serialisation',
     'Setting, disabling and reading entries of a schedule concern only the addressed entry, reject out-of-range indexes, and return what was last stored; initialising disables and clears all. Searches return the first enabled entry from a given index and the first disabled one, and the overlap count is the number of enabled entries that share time on a common day with the given one. Writing an entry to bytes uses exactly the announced size in a fixed little-endian layout, and reading it back gives the same entry (its value taking one byte).',
     [I, H], 'all indexes, entries, field values and operation sequences',
     'The scheduler has no tests; field packing mistakes show only for particular values.',
     ['gel/scheduler/scheduler.c', 'gel/scheduler/scheduler.h'], [('scheduler entry setters/getters and (de)serialisation', 'gel/scheduler/scheduler.c')])
prop('C19', 'Stopwatch accumulates exactly the time spent counting',
     'For every sequence of starting, pausing, stopping, restarting and changes of period, the elapsed time of a stopwatch is the time already accumulated plus the time since it was started if it is counting, also across a wrap of the timestamp counter. Starting a watch that is counting is refused and a stopped or paused watch does not advance. The remaining time is the period minus the elapsed time and never negative, and the watch is reached exactly when it is not stopped and nothing remains.',
     [I, H], 'all states, timestamps across wrap-around and totals, all operation sequences (inductive invariant)',
     'The tests follow one sequence without wrap-around.',
     ['gel/timer/stopwatch.c', 'gel/timer/stopwatch.h'], [('stopwatch_* functions', 'gel/timer/stopwatch.c')])
prop('C20', 'Time comparisons and timers are exact across counter wrap-around',
     'For every configured width of the timestamp type, comparing instants, measuring intervals and deciding expiry are exact whenever the instants are less than half the counter range apart, including across a wrap of the counter. A software timer fires exactly when polled at or after the end of its period, passing itself, the given pointer and its argument; a one-shot timer then stops, an autoreloading one starts its next period at that instant. A stopped or paused timer never fires by the passing of time, and stopping, pausing, resuming, resetting and changing the period keep everything else of the timer.',
     [I, H, C], 'all instants and delays within half the range, 16/32/64-bit and long timestamps, all timer states',
     'The tests use small instants of one type; wrap-around and narrow types are not reached.',
     ['gel/timer/timecheck.h', 'gel/timer/timer.c', 'gel/timer/timer.h'], [('time_after, is_expired, gel_timer_*', 'gel/timer')])
prop('C21', 'Wear-leveled memory always finds and keeps the last written block',
     'A page that started erased and was only ever written through the library is, after a restart at any point, recovered at exactly the block that was written last, for every number of blocks below 256 and any number of wrap-arounds. A write of data that differs from the stored data goes to the next block with the next marker and makes it the active one, unchanged data costs no write, and a failing driver call is reported and leaves the previously active block active and readable.',
     [H, CR, F], 'all page sizes below 256 blocks, all markers and fill levels, all data, every driver failure (induction over the shape of the page)',
     'The tests simulate one small page; full pages, marker wrap-around and failing writes are not reached.',
     ['gel/wearleveling/wearleveling.c', 'gel/wearleveling/wearleveling.h'], [('search_last', 'gel/wearleveling/wearleveling.c'), ('wearleveling_write', 'gel/wearleveling/wearleveling.c')])
prop('C22', 'Circular event log returns exactly the requested last events in order',
     'For every log capacity and fill level, requesting a number of most recent events after skipping some delivers exactly those that exist, oldest first, each from the place where it was saved and to consecutive places of the buffer, also across the wrap of the log. Saving an event makes it the most recent one, overwrites only the oldest when full and changes nothing if the storage rejects it; a failing load is reported as an error.',
     [I, H, F], 'all capacities, positions, numbers, skips and event sizes (full machine range), every driver failure',
     'The tests use one small log; extreme numbers, exact wrap positions and second-chunk failures are not reached.',
     ['gel/circular_event_log/circular_event_log.c', 'gel/circular_event_log/circular_event_log.h'], [('circular_event_log_load_last_events', 'gel/circular_event_log/circular_event_log.c')])
prop('C23', 'State machine dispatches each event only to the current state',
     'An event is handled exactly once and only by the manager of the state that is current, which receives the given model and event. A non-negative answer of the manager becomes the new current state and is reported as a transition; a negative answer keeps the state. Nothing else of the machine changes.',
     [I, H], 'all states of an instance with three states, all events, models and manager results, all sequences (induction)',
     'The tests follow one path through one machine.',
     ['gel/state_machine/state_machine.h'], [('state machine macros', 'gel/state_machine')])
prop('C24', 'Page manager balances every page\'s lifecycle along the navigation stack',
     'Along any navigation, a page is created and opened when it enters, closed when it stops being current, and closed and destroyed exactly once, with its own data, when it leaves for good. Going back restores exactly the page below with its data, returning to a page by id destroys exactly the pages above the topmost one with that id, and rebasing destroys every page below; events and updates reach only the current page.',
     [H, C], 'all stack depths up to the configured maximum, all combinations of optional callbacks, all page contents, with and without the update callback and with NDEBUG',
     'The module is not built nor tested in the repository.',
     ['gel/pagemanager/page_manager.c', 'gel/pagemanager/page_manager.h'], [('pman_change_page, pman_back, pman_rebase_page, pman_reset_to_page, pman_swap_page', 'gel/pagemanager/page_manager.c')])

exec(open(os.path.join(V, 'tools', 'notes.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in R: f.write(json.dumps(r['p']) + '\n')
checks = []
for r in R:
    i = r['p']['id']
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=r['technique'], level=r['level'], level_note=(r['note'] or NOTES.get(i, '')) + ' ' + COMMON))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes='no hooks: the machinery works on /repo\'s unmodified sources; see DESIGN.md'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
