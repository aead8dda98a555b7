"""The properties, as data. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
W = 'cpp_utils/include/cpp_utils/wait/'
EV = 'cpp_utils/include/cpp_utils/event/'
LEFT_OUT = 'its tests need Fast DDS and a quiet machine; '


def P(id, title, statement, over, quant, why, files, mech, note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, observe=observe or [])


PROPERTIES = [
    P('W01', 'Wait handlers: no lost wake-up, every return has a justified reason',
      'A thread that waits for a condition on a handled value returns once the value satisfies it and stays so, however many threads set the value and wait for '
      'it, and never sleeps on while the condition holds. A wait reports success only if the value satisfied the condition at some instant of the call, and '
      'reports the handler as disabled only if it was disabled at some instant of the call. Updates of the value are never lost, and concurrent use corrupts nothing.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of setters, incrementers, waiters and enable/disable calls, with spurious wake-ups and stalled threads, for boolean, integer and user defined values',
      'The tests use one waiter and one setter ordered by sleeps; the window between the check of the condition and the sleep, and the combination with other waiters, is never met on purpose.',
      [W + 'WaitHandler.hpp', W + 'impl/WaitHandler.ipp', W + 'IntWaitHandler.hpp', W + 'BooleanWaitHandler.hpp', 'cpp_utils/src/cpp/wait/IntWaitHandler.cpp', 'cpp_utils/src/cpp/wait/BooleanWaitHandler.cpp'],
      [('value, enabled flag and condition variable under one mutex', W + 'impl/WaitHandler.ipp'), ('notification after every change of the value', W + 'impl/WaitHandler.ipp')],
      'Interval based oracle on the recorded history (which values the handler could hold during each call), plus a check at quiescence that no thread sleeps on a satisfied condition.'),
    P('W02', 'Wait handlers: time limits follow elapsed time',
      'A wait with a time limit never reports a timeout before that much time has elapsed, nor when its condition holds from before then on, and returns once the limit has elapsed, within the time the machine '
      'takes to run it. A wait without time limit never reports a timeout. Steps of the system clock in either direction change none of this.',
      ['schedules', 'fault_sequences', 'inputs'],
      'every time limit, interleaving, sequence of system clock steps and spurious wake-up',
      'The tests measure real elapsed time of a few limits with slack, on a clock nobody steps.',
      [W + 'impl/WaitHandler.ipp', W + 'impl/ConsumerWaitHandler.ipp', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'],
      [('wait until a deadline', W + 'impl/WaitHandler.ipp')],
      'Virtual steady and wall clock, wall clock steps injected while threads wait; early and late returns are compared with virtual elapsed time.'),
    P('W03', 'Wait handlers: disabling, stopping or destroying releases every waiter',
      'When a handler is disabled, stopped or destroyed every thread waiting in it returns and is told that the handler is disabled, and blocking forms return '
      'only when no thread is inside a wait any more, so that the handler can be freed. A stopped handler works again once it continues, and the enabled state '
      'that is read is always the one set last.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of waiters of every kind with disable, stop-and-continue, enable and destruction',
      'The tests disable a handler with a single sleeping waiter; use of the freed handler by a late waiter needs an interleaving of a few instructions.',
      [W + 'WaitHandler.hpp', W + 'impl/WaitHandler.ipp', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp', W + 'impl/ConsumerWaitHandler.ipp'],
      [('count of waiting threads checked by the blocking operations', W + 'impl/WaitHandler.ipp'), ('disable override that also releases threshold waiters', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp')],
      'Use-after-free and race detection on every access, check at quiescence that nobody is blocked in a disabled handler.'),
    P('W04', 'Counter handler: each increment releases exactly one unit',
      'For a handler that counts units, each completed wait takes exactly one unit and the counter always equals its initial value plus all increments minus the '
      'waits that took a unit and the explicit decrements. No wait takes a unit below the threshold, and no waiter sleeps while units are available.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of increments, decrements and waits with and without time limits',
      'There is no test with more than one waiter, so double consumption and lost units are out of reach.',
      [W + 'CounterWaitHandler.hpp', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'],
      [('increments and conditional decrement under the same mutex as the wait', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp')],
      'Linearizability of the recorded history against an integer counter, conservation at quiescence.'),
    P('W05', 'Waits for the threshold or for everything to be consumed end when it happens',
      'A thread waiting until a counter is at its threshold, or until a consumer has nothing left, returns when that happens, however the counter got there, and '
      'never sleeps on while it is so. It never reports so if it was not true at some instant of the call.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of producers, consumers and threads waiting for the threshold',
      'The single test of this wait starts it after the last element was produced.',
      ['cpp_utils/src/cpp/wait/CounterWaitHandler.cpp', W + 'impl/ConsumerWaitHandler.ipp'],
      [('second condition variable notified when the threshold is reached', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp')],
      'Same simulated threads, the history gives the range of values the counter could have; quiescence check for sleepers.'),
    P('Q01', 'Double buffered queue: nothing lost, duplicated, reordered or corrupted',
      'Every element pushed by any number of threads into the double buffered queue is obtained exactly once and unchanged by its consumer, each producer\'s elements in '
      'the order in which they were pushed. Sizes and emptiness reported to the consumer agree with what it can take, a swap drops just what was left in front, clearing drops everything, and concurrent use, including looking at it from other threads, corrupts nothing.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of several producers, one consumer and buffer swaps, with element copies that fail',
      'No test uses the queue from two threads.',
      ['cpp_utils/include/cpp_utils/queue/DBQueue.hpp'],
      [('two mutexes, one per buffer', 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp')],
      'Multiset and per-producer order oracle over all pushed and consumed elements, data race detection.'),
    P('Q02', 'Consumer handler: every produced element is consumed exactly once',
      'Every element produced into a consumer handler is given to exactly one consumer, unchanged, and elements of one producer leave in the order in which they were produced. '
      'While elements are ready no consumer keeps sleeping, and an element whose extraction fails stays available. The number of elements reported ready '
      'agrees with what was produced and consumed.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of producers and consumers with time limits, disables and element copies that throw',
      'The tests run one producer against consumers and compare totals on one schedule.',
      [W + 'ConsumerWaitHandler.hpp', W + 'impl/ConsumerWaitHandler.ipp', W + 'DBQueueWaitHandler.hpp', W + 'impl/DBQueueWaitHandler.ipp'],
      [('counter incremented after the element is stored, decremented before it is taken', W + 'impl/ConsumerWaitHandler.ipp')],
      'Exactly-once and order oracle over the elements, including faults thrown by element copies while producing and consuming.'),
    P('E01', 'Event handlers count every event once and waits for events are exact',
      'Each event on an enabled handler runs its callback exactly once with that event\'s arguments, never in two threads at once, and adds one to the count of events. A '
      'wait for a number of events returns as soon as the count has reached it, reports success only if it did, and a thread never sleeps on once it has.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of event sources, waiters, resets and decrements of the count',
      'The tests raise events from one thread, one after another.',
      [EV + 'EventHandler.hpp', EV + 'impl/EventHandler.ipp'],
      [('callback run under its own mutex, count under the wait mutex', EV + 'impl/EventHandler.ipp')],
      'Linearizability of count operations and waits against an integer, multiset of arguments, quiescence check.'),
    P('E02', 'Event callbacks: none runs after it was removed, replaced or destroyed',
      'Once removing or replacing a callback, or destroying its handler, has returned, that callback neither is running nor ever runs again, even with events raised '
      'concurrently. Threads waiting in a handler that is disabled all return, and handlers are notified of being enabled, changed and disabled exactly when they are.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of events with registering, replacing and removing callbacks from several threads and destruction',
      'The tests change callbacks while no event is being raised.',
      [EV + 'EventHandler.hpp', EV + 'impl/EventHandler.ipp'],
      [('callback mutex held while a callback runs and while it is replaced', EV + 'impl/EventHandler.ipp')],
      'Interval oracle over which callback could be registered at each execution; callback state is freed after removal and every access to it is checked.'),
    P('E03', 'Periodic events: right pace while enabled, none while disabled',
      'While enabled, a periodic handler raises events not closer than its period and does not stop raising them, and once disabled or destroyed it raises none. '
      'Enabling, disabling and destroying may be done from any thread at any moment without hanging, and steps of the system clock change none of this.',
      ['schedules', 'histories', 'fault_sequences', 'inputs'],
      'every period, interleaving of enabling/disabling threads with the timer, duration of callbacks and system clock steps',
      'The tests sleep for some periods on an undisturbed clock and count events with slack.',
      [EV + 'PeriodicEventHandler.hpp', 'cpp_utils/src/cpp/event/PeriodicEventHandler.cpp'],
      [('timer thread sleeping in a wait handler with the period as time limit', 'cpp_utils/src/cpp/event/PeriodicEventHandler.cpp')],
      'Virtual time: distance between events and number of events per enabled interval.'),
    P('E04', 'Process signals: each delivered one reaches every registered handler',
      'Every delivered process signal of a handled number runs the callback of each handler enabled for that number, exactly once per delivery, never that '
      'of another number or of a disabled handler, and within a bounded time. This holds for signals that interrupt any thread at any instant, '
      'including inside the library, and handlers may come and go meanwhile, and the program end, without hanging or corrupting data.',
      ['schedules', 'histories', 'fault_sequences'],
      'every instant and thread in which a signal is delivered, every interleaving of handlers being enabled, disabled and destroyed',
      'The tests raise a signal from a thread that is doing nothing else.',
      [EV + 'SignalEventHandler.hpp', EV + 'impl/SignalEventHandler.ipp', EV + 'SignalManager.hpp', EV + 'impl/SignalManager.ipp'],
      [('signal routine only touches atomics, a thread runs the callbacks', EV + 'impl/SignalManager.ipp')],
      'Simulated signal delivery inside any simulated thread at any scheduling point; count of callbacks per delivered signal.'),
    P('E05', 'A multiple handler reacts to events of every handler it joins',
      'A handler made of several others raises one event per event of any of them while enabled, with none lost or duplicated, and none after being disabled or destroyed. '
      'Its callback never runs in two threads at once.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of events of the joined handlers with enabling, disabling and destruction of the multiple one',
      'There is no test with concurrent events.',
      [EV + 'MultipleEventHandler.hpp', EV + 'impl/MultipleEventHandler.ipp', 'cpp_utils/src/cpp/event/MultipleEventHandler.cpp'],
      [('callbacks registered in the joined handlers forward to this one', 'cpp_utils/src/cpp/event/MultipleEventHandler.cpp')],
      'Same oracle as E01/E02 over the composed handler.'),
    P('L01', 'Log handlers receive each entry exactly once, filtered by severity',
      'While a log handler is enabled each log entry delivered runs its callback exactly once, unchanged and in order, and a handler with a severity threshold never '
      'gets an entry less severe than it, not even while being created or destroyed. After being disabled or destroyed it gets none, and it can be '
      'destroyed while other threads log. A wait for a number of entries ends when they have been consumed.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of logging threads with the delivering thread and with creation, enabling, change, disabling and destruction of handlers',
      'The tests log and flush from one thread with a handler that exists before and after.',
      [EV + 'LogEventHandler.hpp', EV + 'LogSevereEventHandler.hpp', 'cpp_utils/src/cpp/event/logging/LogEventHandler.cpp', 'cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp', 'cpp_utils/src/cpp/event/logging/LogConsumerConnection.cpp'],
      [('consumer registered in the logging module holds a lessee of the handler\'s callback', 'cpp_utils/src/cpp/event/logging/LogConsumerConnection.cpp')],
      'The logging module is a stub with the threading model of Fast DDS; reference consumers record what it delivers and when.'),
    P('L02', 'Log checker verdicts and standard log output match what was logged',
      'The log checker says valid exactly when the number of entries at least as severe as its threshold logged before is within its limits, whichever threads logged them. '
      'The standard consumer writes exactly the entries that its verbosity and filters accept, whole, once, in order and flushed, informative ones to standard output and the rest '
      'to standard error.',
      ['schedules', 'inputs', 'histories'],
      'every set of entries, limits, verbosity and filters, logged from several threads',
      'The tests log a few entries from one thread.',
      ['cpp_utils/src/cpp/testing/LogChecker.cpp', 'cpp_utils/src/cpp/logging/StdLogConsumer.cpp', 'cpp_utils/src/cpp/logging/BaseLogConsumer.cpp'],
      [('flush before counting', 'cpp_utils/src/cpp/testing/LogChecker.cpp'), ('filters by kind and content', 'cpp_utils/src/cpp/logging/BaseLogConsumer.cpp')],
      'Counts of the recorded log calls; captured output is compared line by line with an independent filter.'),
    P('M01', 'Owned data is destroyed once, by its owner, and never while in use',
      'Data held by an owner pointer is destroyed exactly once, when its owner drops it, and never while any thread uses it through a lessee; the owner '
      'waits just for the users to finish. From then on every lessee of it finds it gone, and until then none does. Moving an owner, lessee or guard keeps this.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of lessees locking, using, copying, moving and checking with the owner resetting, replacing, moving and being destroyed',
      'One test has one lessee thread holding its guard over a sleep while the owner resets.',
      ['cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp', 'cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp', 'cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp', 'cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp'],
      [('shared mutex held by guards and taken exclusively to destroy', 'cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp')],
      'Users of each datum are tracked; destruction with a user, access to destroyed data, leaks, hangs and races are violations.'),
    P('D01', 'Database: concurrent operations behave as if done one at a time',
      'Any number of threads may add, modify, look up, copy and erase elements of the database at once: every operation gives a result and has an effect as if all of them '
      'had been done one after another, each at some instant of its call, those that fail having none. No element is lost, duplicated or read half written, and no operation waits forever.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of operations of several threads on a few keys, with copies of elements that fail',
      'The tests use the database from one thread.',
      ['cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp', 'cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp'],
      [('shared mutex taken by every operation', 'cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp')],
      'Linearizability search of the recorded history against a map; each value has two halves that must agree.'),
    P('D02', 'Database iterators: nothing changes while they exist, and they end',
      'While an iterator of the database, or a copy of one, exists, no other thread can add, modify or erase elements, so what it points to stays as it is and iterating gives each '
      'element once in key order. Once the last one is destroyed the writers that were waiting go on.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of threads iterating, copying, moving and dropping iterators with writers',
      'The tests iterate in the only thread there is.',
      ['cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp', 'cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp'],
      [('lock of the shared mutex owned by the iterators', 'cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp')],
      'Race detection, comparison of what an iterator gives with the contents it was created on, hangs.'),
    P('T01', 'Thread pool: each task emitted runs exactly once',
      'Every time a task is emitted to a pool it is executed exactly once, by a thread of the pool, never more at once than the pool has threads and never waiting while one of them is '
      'idle. Tasks emitted while the pool is disabled run when it is enabled; none starts while it is disabled and none runs after disabling or destroying it returns. '
      'Enabling and disabling from any thread is safe, and with a single thread the tasks of each emitter run in the order in which they were emitted.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of emitters, pool threads and threads enabling, disabling and destroying the pool, with tasks of any duration',
      'The tests enable a pool once, emit from one thread and sleep until everything is surely done.',
      ['cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp', 'cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp'],
      [('queue of task ids consumed by the pool threads', 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp')],
      'Count of executions per emission, intervals of enabling and disabling, quiescence check for idle threads, race detection.'),
    P('T02', 'Waiting for all tasks of a pool ends exactly when they are done',
      'A thread waiting until a pool has executed everything returns once no emitted task is pending or running, and what those tasks wrote is then visible to it. It is never told so '
      'if there was not an instant of the call with nothing pending or running; it is told of a disabled pool if that happens first, and of a timeout only after the time limit.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of emitters, pool threads and waiting threads with and without time limits',
      'A test would need the wait to fall between the extraction of the last task and its execution.',
      ['cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'],
      [('count of tasks being executed, checked by the wait', 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp')],
      'Recorded intervals of emission, execution and wait; quiescence check; happens-before race detector for the visibility.'),
    P('T03', 'Task identifiers are unique',
      'No two tasks get the same identifier, whatever number of threads ask for one at the same time.',
      ['schedules'],
      'every interleaving of threads asking for identifiers',
      'The tests ask from one thread.',
      ['cpp_utils/src/cpp/thread_pool/task/TaskId.cpp'],
      [('atomic counter', 'cpp_utils/src/cpp/thread_pool/task/TaskId.cpp')],
      'All the identifiers given in a run are compared.'),
    P('P01', 'Element pool: no element is loaned twice, reset, reused and freed once',
      'A pool of elements never loans an element that is already loaned, reuses returned ones before building more, builds as many at a time as configured, and resets each one as '
      'it is loaned or returned. When building or returning one fails nothing loaned or free is lost, and destroying the pool destroys every element in it exactly once.',
      ['histories', 'fault_sequences', 'inputs'],
      'every sequence of loans and returns, pool sizes, and constructions and allocations that fail at any point',
      'The tests make a few loans and none of them fails.',
      ['cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp', 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp', 'cpp_utils/include/cpp_utils/pool/IPool.hpp'],
      [('vector of free elements grown in batches', 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp')],
      'Reference model of loaned and free elements; failures of allocation and construction injected.'),
    P('S01', 'Singletons are built once, whoever asks first',
      'All threads asking for a singleton get the same instance, fully built, whoever asks first, and different indexes have different instances. One that may be initialized '
      'with arguments is built once, by the first to use or initialize it; just one initialization succeeds, and an attempt that fails leaves it to be built later.',
      ['schedules', 'fault_sequences'],
      'every interleaving of threads whose first uses and initializations coincide, with constructors that fail',
      'The first use happens once per process, so a test has a single attempt.',
      ['cpp_utils/include/cpp_utils/types/Singleton.hpp', 'cpp_utils/include/cpp_utils/types/impl/Singleton.ipp', 'cpp_utils/include/cpp_utils/types/SafeInitializableSingleton.hpp', 'cpp_utils/include/cpp_utils/types/impl/SafeInitializableSingleton.ipp'],
      [('function static variable', 'cpp_utils/include/cpp_utils/types/impl/Singleton.ipp'), ('initialization under a mutex', 'cpp_utils/include/cpp_utils/types/impl/SafeInitializableSingleton.ipp')],
      'Every object built and every reference given is recorded; initialization guards are simulated, so their races are explored.'),
    P('R01', 'The thread safe random generator can be shared by threads',
      'Numbers asked from several threads to a shared random generator are those that one thread alone would get, each given once, and a number asked with a seed depends on the seed only. '
      'Giving the generator a seed restarts it, all at once, with the numbers of that seed. Purely random numbers vary and affect none of the others.',
      ['schedules'],
      'every interleaving of threads asking for numbers, with and without seed',
      'The tests ask from one thread.',
      ['cpp_utils/include/cpp_utils/math/random/TSafeRandomManager.hpp', 'cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp', 'cpp_utils/include/cpp_utils/types/Atomicable.hpp'],
      [('mutex around the generator', 'cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp'), ('lock taken by every access', 'cpp_utils/include/cpp_utils/types/Atomicable.hpp')],
      'Linearizability of the numbers given and seeds set against an unshared generator, race detection.'),
    P('K01', 'Timers and sleeps measure real elapsed time',
      'A timer tells the time elapsed since it was started or reset, one that can be paused adds only the time it was playing, and neither goes back. Sleeping lasts as '
      'long as asked, at least. Steps of the system clock change none of this.',
      ['histories', 'fault_sequences', 'inputs'],
      'every sequence of resets, plays, pauses and reads of timers with steps of the system clock',
      'The tests compare with real sleeps, with slack, on a clock nobody steps.',
      ['cpp_utils/src/cpp/time/Timer.cpp', 'cpp_utils/src/cpp/time/PausableTimer.cpp', 'cpp_utils/src/cpp/time/time_utils.cpp'],
      [('time points of a clock subtracted', 'cpp_utils/src/cpp/time/Timer.cpp')],
      'Virtual time is exact: each reading is compared with the bounds taken around the calls.'),
    P('K02', 'Dates are converted to text and back correctly from any thread',
      'A date written as text is that instant in the format and time zone asked, and reading it back gives the same second, also when several threads do it at the same time '
      'with other dates. Text that is no date is refused, and a time of day is understood as that of the current day.',
      ['schedules', 'inputs', 'fault_sequences'],
      'every interleaving of threads converting dates, for dates of two centuries, and steps of the system clock',
      'The tests convert in one thread, so sharing of conversion state is never seen.',
      ['cpp_utils/src/cpp/time/time_utils.cpp'],
      [('conversion to calendar time in own storage', 'cpp_utils/src/cpp/time/time_utils.cpp')],
      'Independent calendar arithmetic; the C library conversion buffers are modelled as the shared state they are.'),
    P('I01', 'Interactive input: each line typed is delivered once, as edited',
      'Each line typed in the standard input that was asked for is delivered once and in order, being what its keys (characters, deletion, arrows, history) leave in it. '
      'No more is read than asked, the end of the input ends the line being typed and the reading instead of hanging or inventing text, no line goes to a removed callback, and the terminal is left as it was.',
      ['inputs', 'schedules', 'histories', 'fault_sequences'],
      'every sequence of keys typed in any chunks, widths of terminal, ends of input, and interleavings with asking for lines, disabling and destruction',
      'The tests feed a few complete lines from a file and no keys.',
      ['cpp_utils/include/cpp_utils/event/StdinEventHandler.hpp', 'cpp_utils/src/cpp/event/StdinEventHandler.cpp', 'cpp_utils/src/cpp/history/CommandHistoryHandler.cpp'],
      [('thread reading lines asked for through a counter', 'cpp_utils/src/cpp/event/StdinEventHandler.cpp')],
      'Reference line editor; simulated input and terminal with chunked reads and end of input at any byte.'),
    P('I02', 'Commands typed are recognized and given once, in order',
      'Each line typed with a command is given once and in order to whoever reads commands, as the command its first word names and with the rest of words as arguments, '
      'quoted words being one. A line that is not a command is reported as such, and disabling or destroying the reader releases who waits.',
      ['inputs', 'schedules', 'fault_sequences'],
      'every sequence of lines and interleavings of typing, reading and ending',
      'There is no test of the reader of commands.',
      ['cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp', 'cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp'],
      [('lines parsed and queued by the input thread', 'cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp')],
      'Reference parser over the lines typed; exactly-once and order oracle.'),
    P('I03', 'The terminal shows the line being typed and keeps what is above it',
      'While a line is typed in a terminal of four columns or more, the terminal shows after every key the prompt and the line as edited, in as many rows as it needs, with the cursor '
      'where the next character goes, whichever keys are used and however long the line is. What was above stays as it was. A line ended stays whole above what is written next.',
      ['inputs', 'histories', 'schedules', 'fault_sequences'],
      'every sequence of printable characters and editing keys, typed in any pieces, width and height of the terminal, resized between lines, and text written before and after each line',
      'No test looks at what is written in a terminal.',
      ['cpp_utils/src/cpp/event/StdinEventHandler.cpp'],
      [('rows to go up and down and column of the cursor', 'cpp_utils/src/cpp/event/StdinEventHandler.cpp')],
      'Simulated terminal that interprets what is written (rows, wrapping, scrolling, cursor), compared at rest with a reference line editor.'),
    P('F01', 'File watcher: every modification of the file is reported once, no other',
      'While a file is watched each modification of it runs the callback once, with its name, and changes of other files, creations and deletions do not. Once the callback is '
      'removed or the watcher destroyed it does not run again, nothing hangs, and no descriptor stays open, even if the file could not be watched or its directory is removed.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of file changes with watching, replacing the callback, removing it and destruction, reads that give part of the changes or fail, watches refused by the system, and removal of the directory',
      'The tests change a file once per sleep and never fail.',
      ['cpp_utils/src/cpp/event/FileWatcherHandler.cpp', 'thirdparty/filewatch/FileWatch.hpp'],
      [('thread reading changes of the directory and thread delivering them', 'thirdparty/filewatch/FileWatch.hpp')],
      'Simulated file change notification; changes and reports are counted, every descriptor is tracked.'),
    P('F02', 'Reading a file gives its whole text or an error',
      'Reading a text file gives every line of it, in order and unchanged but for the characters and empty lines asked to be left out, whatever the sizes in which the system gives '
      'it. A file that does not exist, cannot be opened or fails before its end gives an error, never part of its text. The access to a file is told as the system grants it.',
      ['inputs', 'fault_sequences', 'schedules'],
      'every text, size of reads, interruption, point at which reading fails, and threads reading at the same time',
      'The tests read one small file that never fails.',
      ['cpp_utils/src/cpp/file/file_utils.cpp', 'cpp_utils/src/cpp/utils.cpp'],
      [('lines read until the end of the stream', 'cpp_utils/src/cpp/file/file_utils.cpp')],
      'Simulated files under the real standard library streams; texts compared with a reference splitter, open files are tracked.'),
    P('Y01', 'Python wait handlers: no lost wake-up, every return has a justified reason',
      'A Python thread waiting for a condition on a handled value returns once the value satisfies it and stays so, and never sleeps on while it holds, however many threads '
      'change it or wait for it. A wait reports that its condition was met, a timeout or a disabled handler only if that was so at some instant of the call. No update is lost.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of threads setting, increasing, decreasing, opening, closing, reading and waiting, with stalled threads',
      'The tests use one waiter and one setter ordered by sleeps.',
      ['py_utils/py_utils/wait/WaitHandler.py', 'py_utils/py_utils/wait/IntWaitHandler.py', 'py_utils/py_utils/wait/BooleanWaitHandler.py'],
      [('value and enabled flag changed and checked under the lock of the condition', 'py_utils/py_utils/wait/WaitHandler.py')],
      'Linearizability search of the recorded history against a (value, enabled) model, check at rest that nobody sleeps on a condition that holds.'),
    P('Y02', 'Python wait handlers: disabling releases every waiter, errors break nothing',
      'When a Python wait handler is disabled and stays so every thread waiting in it returns and is told so, and the blocking form returns, and only when the threads that were waiting '
      'are out of their waits. A condition that raises gives its exception to the thread that waits with it and leaves the handler working for the rest, and an enabled handler works again.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of waiters with disabling, blocking or not, from several threads, and conditions that raise at any evaluation',
      'The tests disable a handler with a single waiter, never in the blocking way.',
      ['py_utils/py_utils/wait/WaitHandler.py'],
      [('count of waiting threads checked by the blocking disable', 'py_utils/py_utils/wait/WaitHandler.py')],
      'Hang and spin detection, state of the waiting threads when the blocking form returns, exceptions injected in conditions.'),
    P('Y03', 'Python timers and time limits follow elapsed time',
      'A Python wait with a time limit does not report a timeout before it has elapsed and returns once it has, and a Python timer tells the time elapsed since it was started or reset '
      'and never goes back. Steps of the system clock change none of this.',
      ['schedules', 'fault_sequences', 'inputs'],
      'every time limit, sequence of timer operations and steps of the system clock',
      'The tests compare with real sleeps on a clock nobody steps.',
      ['py_utils/py_utils/wait/WaitHandler.py', 'py_utils/py_utils/time/Timer.py'],
      [('monotonic clock', 'py_utils/py_utils/time/Timer.py')],
      'Virtual monotonic and system clocks, the second one stepped at any read.'),
    P('Y04', 'Python log: each entry due is written once, whole, in the format in force',
      'An entry given by any thread to a Python log is written once, whole and in the format in force if its level is at least the one in force, and not otherwise; levels and formats '
      'apply as soon as set. A write that fails, an entry that cannot be composed or a wrong format affect nothing else. A function decorated to be debugged gets its arguments, gives its '
      'result or exception, and tells when it starts and finishes if that level is logged.',
      ['schedules', 'histories', 'fault_sequences'],
      'every interleaving of threads writing entries with others setting level and format, writes that fail at any point, nested and concurrent decorated calls',
      'The tests only import the module.',
      ['py_utils/py_utils/logging/log_utils.py', 'py_utils/py_utils/debugging/debug_utils.py'],
      [('handler and level of the logger', 'py_utils/py_utils/logging/log_utils.py'), ('decorator', 'py_utils/py_utils/debugging/debug_utils.py')],
      'What is written is parsed back into entries and compared with the calls made, under the levels and formats that could be in force during each call.'),
    P('U01', 'Helper functions and constant values can be used by many threads at once',
      'A helper function (texts, numbers, conversions, names of topics and types, enumerations) gives the result that its arguments determine whatever was called before and whatever '
      'other threads call at the same time, first calls included. Values that threads only read (builders of enumerations, fuzzy and heritable values, trees, texts being composed, exceptions) may '
      'be shared by all of them.',
      ['schedules', 'inputs'],
      'every interleaving of calls with any arguments, including the first ones of the process',
      'The tests call each function from one thread, so hidden shared state (static buffers, caches, lazy initialization) cannot be seen.',
      ['cpp_utils/src/cpp/utils.cpp', 'cpp_utils/src/cpp/ros2_mangling.cpp', 'cpp_utils/src/cpp/math/math_extension.cpp', 'cpp_utils/src/cpp/Formatter.cpp',
       'cpp_utils/include/cpp_utils/macros/custom_enumeration.hpp', 'cpp_utils/include/cpp_utils/types/impl/Fuzzy.ipp', 'cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp'],
      [('tables initialized once, no other shared state', 'cpp_utils/src/cpp/utils.cpp')],
      'Each result is compared with the one of the same call as the only one of a process, and with the one it gives afterwards; data race detection on everything the functions touch.'),
]

PURE = 'Pure function of its arguments: no schedule, clock, I/O, fault or second party that a simulator could control, so every run would just be a random input. '

NOT_APPLICABLE = [
    {'prop': P('N01', 'Names of ROS 2 topics, services and types are recovered after mangling',
               'A topic, service or type name that is mangled and demangled is the original one, and a name that does not follow the conventions is left as it is or gives an empty text.',
               ['inputs'], 'every name', 'The tests check a few names.', ['cpp_utils/src/cpp/ros2_mangling.cpp'], [('prefixes and suffixes', 'cpp_utils/src/cpp/ros2_mangling.cpp')], ''),
     'reason': PURE + 'U01 claims what simulation can decide of it: the same result from any number of threads.'},
    {'prop': P('N02', 'Conversions to base64 and of amounts of bytes are exact',
               'Decoding what was encoded in base64 gives the original text, and an amount of bytes written with its unit is understood as that amount or refused.',
               ['inputs'], 'every text and amount', 'The tests check a few values.', ['cpp_utils/src/cpp/utils.cpp'], [('base64 and units', 'cpp_utils/src/cpp/utils.cpp')], ''),
     'reason': PURE + 'U01 claims that the conversions can be done by many threads.'},
    {'prop': P('N03', 'Texts are replaced, stripped, split and matched as specified',
               'Replacing, stripping and splitting a text change exactly what was asked, ending for every pattern, and a wildcard pattern matches exactly the texts it describes.',
               ['inputs'], 'every text and pattern', 'The tests check a few texts.', ['cpp_utils/src/cpp/utils.cpp'], [('text functions', 'cpp_utils/src/cpp/utils.cpp')], ''),
     'reason': PURE + 'U01 claims that the functions can be used by many threads.'},
    {'prop': P('N04', 'Enumerations are converted to text and back without ambiguity',
               'Each value of an enumeration built with the macros or with a builder has its names, each name gives its value, and other names are refused.',
               ['inputs'], 'every value and name', 'The tests check one enumeration.', ['cpp_utils/include/cpp_utils/macros/custom_enumeration.hpp', 'cpp_utils/include/cpp_utils/types/impl/Builder.ipp'],
               [('tables built by the macro', 'cpp_utils/include/cpp_utils/macros/custom_enumeration.hpp')], ''),
     'reason': PURE + 'The singletons of the builders are initialized before main by design.'},
    {'prop': P('N05', 'Fuzzy and heritable values and trees keep value semantics',
               'Copies of fuzzy values, heritable values and trees compare equal to the original, are independent of it where documented, and keep the level or dynamic type.',
               ['inputs', 'histories'], 'every sequence of copies, moves and assignments', 'The tests check a few sequences.',
               ['cpp_utils/include/cpp_utils/types/impl/Fuzzy.ipp', 'cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp', 'cpp_utils/include/cpp_utils/types/impl/Tree.ipp'],
               [('value types', 'cpp_utils/include/cpp_utils/types/impl/Fuzzy.ipp')], ''),
     'reason': PURE + 'They are value types of one thread; U01 claims that reading them is safe for many.'},
    {'prop': P('N06', 'Arithmetic helpers agree with the definitions they optimize',
               'The optimized module, division, exponential, parity and progressions give the mathematical result for all arguments in range.',
               ['inputs'], 'every argument', 'The tests check a few numbers.', ['cpp_utils/src/cpp/math/math_extension.cpp'], [('optimized operations', 'cpp_utils/src/cpp/math/math_extension.cpp')], ''),
     'reason': PURE + 'Exhaustive or symbolic checking would decide it, which is another technique.'},
    {'prop': P('N07', 'Return codes and QoS helpers agree with those of Fast DDS',
               'Each return code keeps its value and name when converted from and to those of Fast DDS, and QoS are compared and printed as defined there.',
               ['inputs'], 'every code and QoS', 'The tests check a few of them.', ['cpp_utils/src/cpp/ReturnCode.cpp', 'cpp_utils/src/cpp/qos/qos_utils.cpp'],
               [('conversion tables', 'cpp_utils/src/cpp/ReturnCode.cpp')], ''),
     'reason': PURE + 'Besides, Fast DDS is not installed here and these files do not compile without it.'},
]
