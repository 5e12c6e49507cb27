SEQ = D4 + 'single_producer_sequencer.h'
MSEQ = D4 + 'multi_producer_sequencer.h'
GRP = D4 + 'fixed_sequence_group.h'
BARF = D4 + 'sequence_barrier.h'
WS = D4 + 'wait_strategies/'
RB = D4 + 'ring_buffer.h'
BEP = D4 + 'batch_event_processor.h'
NOP = D4 + 'no_op_event_processor.h'
UTIL = D4 + 'utils/util.h'

prop('C03', 'Producers never claim a slot a registered consumer has not released',
     'Every successful claim of n ring-buffer sequences, blocking or non-blocking, returns the next n sequences after the previous claim, unique across all producers, and the highest claimed sequence is never more than one buffer length ahead of the slowest registered consumer. '
     'A non-blocking claim fails with the capacity error only when that capacity is really missing, changes nothing when it fails, and the capacity query answers the same question. '
     'Registering consumers places each of them at the current cursor and counts each of them from then on.',
     ['schedules', 'inputs', 'histories'],
     'every number of consumers and every position they hold, every claim size, every counter value below 2^62, every interleaving of consumers advancing and (multi-producer) of other producers claiming at each atomic access',
     'tests run a few producers on tiny counters; overwriting an unread slot needs a specific counter, cache and consumer position, or a specific race between two claims',
     [SEQ, MSEQ, UTIL],
     [('single producer claim', SEQ + ': next/try_next/has_available_capacity'), ('multi producer claim', MSEQ + ': next/try_next/has_available_capacity'), ('slowest consumer', UTIL + ': get_minimum_sequence')],
     [('cursor', 'highest claimed (multi) or published (single) sequence', MSEQ), ('gating sequences', 'progress of registered consumers', SEQ), ('cached gating value', 'lower bound of the slowest consumer', SEQ)],
     ['return value of next/try_next, insufficient_capacity_exception, has_available_capacity, sequences of the registered consumers'],
     note='partial correctness (termination of blocking claims not proved); buffer sizes are the listed configurations; weak memory beyond the checked acquire/release orders is not modelled')

prop('C04', 'An event is available to consumers exactly when it has been published',
     'A sequence becomes available to consumers only by being published and stays available until its slot is reused, no matter in which order several producers publish. '
     'The highest available sequence of a range is the end of the gap-free published prefix, so nothing unpublished is ever handed out and nothing published is held back behind it. '
     'Everything a producer wrote before publishing is visible to a consumer that saw the event as available.',
     ['schedules', 'histories', 'inputs'],
     'every order of publications by any number of producers, every range asked for, every wrap of the ring and every counter value below 2^62, buffer sizes 2 to 65536',
     'needs out-of-order publication around a wrap of the ring, or a data race that x86 test runs hide',
     [SEQ, MSEQ, D4 + 'sequence.h'],
     [('availability flags', MSEQ + ': set_available/is_available/get_highest_published_sequence'), ('cursor publication', SEQ + ': publish'), ('wake-up after publish', MSEQ + ': publish')],
     [('available_buffer', 'round number of the last publication of each slot', MSEQ), ('cursor', 'published position of the single producer', SEQ)],
     ['is_available, get_highest_published_sequence, get_cursor, values read from a slot after it became available'],
     note='the visibility clause is decided by the memory-order obligations at the hand-off points plus a bounded ThreadSanitizer run')

prop('C05', 'Waiters get only reached sequences and never miss a wake-up or an alert',
     'A wait for a sequence returns only once that sequence has been reached by everything the waiter depends on, and the value returned is never beyond what all dependencies reached and what was published. '
     'A waiter goes to sleep only if its sequence is not yet there and no alert is pending, and every later publication or alert wakes it; an alerted wait ends with the alert error instead of a value. '
     'The timeout strategy reports a timeout only after its time passed, and no other strategy ever reports one.',
     ['schedules', 'inputs', 'configurations'],
     'all wait strategies, every number of dependencies and every position they hold, every interleaving of publishers, alerts and spurious wake-ups at each atomic access and lock',
     'a lost wake-up or a premature return needs a specific interleaving between the last check and the sleep; tests see it once in millions of runs',
     [BARF, GRP, WS + 'blocking_wait_strategy.h', WS + 'lite_blocking_wait_strategy.h', WS + 'timeout_blocking_wait_strategy.h', WS + 'phased_backoff_wait_strategy.h', WS + 'sleeping_wait_strategy.h', WS + 'yielding_wait_strategy.h', WS + 'busy_spin_wait_strategy.h'],
     [('barrier', BARF + ': wait_for/alert/clear_alert/check_alert'), ('blocking wait and signal', WS + 'blocking_wait_strategy.h'), ('announced waiters', WS + 'lite_blocking_wait_strategy.h')],
     [('alert flag', 'pending alert of a barrier', BARF), ('waiter announcement', 'a waiter may be asleep', WS + 'lite_blocking_wait_strategy.h')],
     ['return value or exception of wait_for on a barrier, elapsed time, is_alerted'],
     note='safety of sleeping (no lost wake-up) is proved; that a woken thread is eventually scheduled is not')

prop('C06', 'Every ring-buffer sequence has its own slot within one buffer length',
     'Any non-negative sequence addresses a slot inside the buffer, two sequences less than one buffer length apart never share memory, and a sequence one buffer length later addresses the same slot again; mutable and read-only access agree. '
     'Construction from a value leaves a copy of it in every slot, and construction from an initialiser runs it exactly once on every slot.',
     ['inputs', 'configurations'],
     'every sequence up to 2^62 and every pair of sequences, for the checked buffer and event sizes',
     'tests use small sequences; addressing errors appear for large sequences, particular sizes or only for the first or last slot',
     [RB, D4 + 'utils/cache_line_storage.h'],
     [('slot addressing', RB + ': operator[]'), ('initialising constructors', RB)],
     [('slots', 'one cache-line padded event per slot', RB)],
     ['address and value of ring[sequence], calls of the initialiser'],
     note='buffer and event sizes are the listed configurations')

prop('C07', 'Event processors deliver every event exactly once, in order, and stop when halted',
     'An event processor calls its handler for every published event exactly once, in sequence order, with the event of that sequence, flagging the end of a batch exactly on its last available event; a handler failure is reported for that very event and processing goes on with the next one. '
     'Its progress never covers an event not yet delivered, covers all delivered ones before it waits again, and is resumed after a restart. '
     'Starting twice is refused, start and shutdown notifications come exactly once per run, and a halt issued at any moment after the start ends the run.',
     ['schedules', 'fault_sequences', 'histories'],
     'every batch size the barrier may report, every exception at every handler call, timeouts and alerts at every wait, a halt arriving between any two atomic accesses',
     'the interesting cases are failures inside a batch and halts racing with the start; tests have neither',
     [BEP, NOP],
     [('run loop', BEP + ': run'), ('halt', BEP + ': halt, ' + NOP + ': halt')],
     [('running flag', 'whether run() is active', BEP), ('progress sequence', 'last event released to producers', BEP)],
     ['handler calls and their arguments, the processor sequence, return or exception of run, is_running'],
     note='the wait inside run is used through the barrier contract of C05; handlers are assumed not to throw the library\'s own alert/timeout exceptions')

CORE = 'core/modules/core/include/klepsydra/core/'
LFS = CORE + 'lock_free_stack.h'
POOL = CORE + 'smart_object_pool.h'

prop('C01', 'The lock-free stack hands every element to one party and loses none',
     'Every element put into the lock-free stack is taken out by at most one caller and none is lost, duplicated or altered, whatever threads push and pop at the same time; each successful pop returns the element most recently pushed and not yet popped. '
     'A pop fails only when no element is available, a push fails only when no place is free, a failed operation changes nothing, and an element taken from the stack can always be put back. '
     'A new stack holds exactly the requested number of elements, each passed to the initialiser once, for every capacity it accepts (0 to 65535); others are refused.',
     ['schedules', 'inputs', 'histories', 'configurations'],
     'every capacity, every stack content and every interleaving of any number of concurrent pushes and pops at each shared access (fewer than 65536 updates of one list inside one attempt)',
     'an ABA or a wrongly ordered hand-over needs a thread descheduled between two particular instructions while others pop and push the same node',
     [LFS],
     [('push', LFS + ': push'), ('pop', LFS + ': pop'), ('construction', LFS + ': LockFreeStack')],
     [('element list', 'elements available, newest first', LFS), ('free list', 'places available', LFS)],
     ['return values of push and pop, the popped element'],
     note='partial correctness (lock-freedom not proved); assumes the 16-bit tag does not lap within one attempt; elements are plain values in the proof')

prop('C02', 'A pooled object has one holder, and returns or is freed exactly once',
     'An object acquired from a pool has exactly one holder until it is given up; it then returns to its pool exactly once if the pool still exists and is freed exactly once otherwise, also when the handle was moved or reset. '
     'Acquiring fails with out_of_range only when the pool is empty, and every failure is counted. '
     'A pool creates the requested number of objects, initialises each once, and when destroyed finalises and frees each object inside exactly once without touching those still held.',
     ['histories', 'schedules', 'inputs'],
     'every pool size, every state of the pool, every life of a handle (kept, moved, reset, outliving the pool), every interleaving of acquisitions and releases under the stack contract',
     'double frees and leaks need a particular order of pool destruction, handle moves and releases, or races between threads on an exhausted pool',
     [POOL, LFS],
     [('acquire', POOL + ': acquire'), ('giving up', POOL + ': ReturnToPool_Deleter::operator()'), ('destruction', POOL + ': ~SmartObjectPool')],
     [('stack of free objects', 'objects inside the pool', POOL), ('objectPoolFails', 'failed acquisitions', POOL)],
     ['handles returned by acquire, out_of_range, constructor/destructor/finaliser calls on the objects, the failure counter'],
     note='relies on the stack contract proved under C01; destroying a pool while another thread uses it is excluded')

SKS = 'core/modules/socket_mdlw/src/'
SKI = 'core/modules/socket_mdlw/include/klepsydra/socket_core/'
prop('C11', 'Sockets deliver exactly the bytes sent, in order, or report the failure',
     'Sending a block of bytes returns normally only after every byte was handed to the system once and in order, across partial writes, interruptions and temporary failures; any other error is reported as an exception. '
     'Receiving returns the number of bytes read, which are the next bytes of the stream, never writes outside the buffer, and stops only at a full buffer, the end or loss of the connection, or when the caller sees the end of its message. '
     'A protocol message is received complete and unchanged up to the end of the stream whatever its size and however it is split, and is sent whole before its end is marked; reading from a closed or moved socket is refused.',
     ['inputs', 'fault_sequences', 'histories'],
     'every message and buffer size, every split of the stream into partial transfers, every sequence of interruptions, temporary and fatal errors',
     'there are no socket tests; partial transfers and errors depend on the kernel and the peer',
     [SKS + 'data_socket.cpp', SKI + 'data_socket.tpp', SKS + 'protocol_simple.cpp', SKI + 'string_resizer.h'],
     [('send loop', SKS + 'data_socket.cpp: putMessageData'), ('receive loop', SKI + 'data_socket.tpp: getMessageData'), ('message growth', SKS + 'protocol_simple.cpp: recvMessage')],
     [('bytes written/read so far', 'progress of a transfer', SKS + 'data_socket.cpp'), ('message size and capacity', 'room for the next piece', SKS + 'protocol_simple.cpp')],
     ['bytes given to write / taken from read, return values, exceptions, the received string'],
     note='system calls and std::string by contract; SIGPIPE assumed ignored; termination under endless temporary errors not claimed')

prop('C12', 'A socket object owns its descriptor: never leaked, never closed twice',
     'The descriptor of a socket stays open while the object owning it lives and is closed exactly once, by close(), by destruction or by the object it was moved to, also when close reports an error or is interrupted. '
     'Creating a server or client socket or accepting a client either yields a working socket at the requested address or throws and leaves no descriptor open. '
     'Accepting waits no longer than the given time, works for every descriptor number, and operations on a closed or moved socket are refused without touching any descriptor.',
     ['histories', 'fault_sequences', 'inputs'],
     'every history of construction, move, swap, close and destruction, failure of each system call at each point, every descriptor number, port and path',
     'there are no socket tests, and leaks or double closes show only under injected failures or particular move and close histories',
     [SKS + 'base_socket.cpp', SKS + 'connect_socket.cpp', SKS + 'server_socket.cpp'],
     [('ownership', SKS + 'base_socket.cpp: close, ~BaseSocket, swap'), ('failed construction', SKS + 'server_socket.cpp, connect_socket.cpp: constructors'), ('accept', SKS + 'server_socket.cpp: accept')],
     [('socketId', 'descriptor owned by the object', SKI + 'base_socket.h')],
     ['close calls per descriptor, exceptions, descriptors open after each operation, addresses given to bind and connect'],
     note='system calls by contract; close ends the descriptor whatever it returns (Linux)')

SQF = 'core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h'
prop('C14', 'The blocking queue hands over every item once, in order, and loses no wake-up',
     'Every accepted item is handed to exactly one consumer, in the order of acceptance; a queue with a limit never grows beyond it by pushing, a push is refused (or waits) exactly while the queue is full, and a forced push discards only the oldest items and reports how many. '
     'A thread sleeps only while it cannot proceed, everything that lets it proceed wakes it (items, room, a wider limit, exchanged or assigned contents), and a timed pop fails only on an empty queue after its time, with no change. '
     'Copies, moves, swaps and assignments transfer exactly the items, keep the limit, and cannot deadlock each other.',
     ['schedules', 'histories', 'inputs'],
     'every content, limit and argument, every interleaving of other threads while an operation waits (including spurious wake-ups and items taken by others)',
     'needs a spurious wake-up, a stolen item or an exchange while others are blocked; the tests only push and pop',
     [SQF],
     [('push family', SQF + ': push, move_push, try_push, try_move_push, force_move_push'), ('pop family', SQF + ': pop, move_pop, try_pop, try_move_pop, timeout_pop, timeout_move_pop'), ('transfer', SQF + ': copy and move construction, swap, assignment')],
     [('m_queue', 'items accepted and not yet handed over', SQF), ('m_max_num_items', 'limit, 0 for none', SQF)],
     ['return values and items of every operation, whether a thread sleeps or is woken'],
     note='monitor reasoning: everything protected by the lock may change whenever it is given up; std::queue, mutex and condition variable by contract; liveness beyond wake-ups is not proved')

SM = 'state_machine/modules/state_machine/'
SMI = SM + 'src/state_machine_impl.cpp'
prop('C08', 'A state machine moves by the first matching transition and tells every observer',
     'An update of a running machine takes pending events in order up to the first one for which the current state has a transition, moves to the destination of the first such transition and keeps the later events; it never stops on an unmatched event. '
     'Every observer registered at that time is then told exactly once, in order of registration, the name of the machine and its state and whether the state changed, also when observers change the observers or trigger further updates; a start tells them the current state. '
     'A stopped machine ignores events and updates, a reset stops it and returns to the initial state, and nothing else changes the state, the pending events or the observers.',
     ['inputs', 'histories', 'configurations'],
     'every table of states and transitions, every queue of events, every list of observers, every operation in every state of the machine, whatever observers do meanwhile',
     'tests run two fixed tables; the order of several matching transitions or events, and observers that use the machine, are not exercised',
     [SMI, SM + 'src/state_impl.cpp', SM + 'src/transition_impl.cpp', SM + 'include/klepsydra/state_machine/state_machine_impl.h'],
     [('transition rule', SMI + ': update'), ('notification', SMI + ': updateObservers'), ('life cycle', SMI + ': start, stop, reset')],
     [('current state and pending events', 'where the machine is and what it still has to process', SMI), ('observers', 'who is told', SMI)],
     ['names and flags given to observers, order of calls, state reached'],
     note='standard containers by contract over abstract values; one thread at a time')

SML = SM + 'src/state_machine_listener.cpp'
prop('C09', 'A listener runs exactly the actions registered for the state, one-off ones once',
     'When a listener is told a state, it runs exactly the actions registered for that state, each once, in order of registration and with the name of that state: one-off and permanent actions only if the state changed, periodic ones always. '
     'A one-off action is run once and never again, even if actions trigger further notifications; actions may change the registrations while they run. '
     'Registrations made for a state apply to the listener\'s machine only, and removing actions removes exactly the periodic actions of the given state, or all of them.',
     ['inputs', 'histories'],
     'every set of registrations, every state name and machine name (also empty), every operation, whatever the actions do to the registrations',
     'tests count a handful of calls; actions that register, remove or notify, and several states at once, are not exercised',
     [SML, SM + 'include/klepsydra/state_machine/state_machine_listener.h'],
     [('running actions', SML + ': updateCurrentState'), ('registration', SML + ': addAction, addOneOffAction, addPeriodicAction, removeActions')],
     [('registrations', 'actions by complete state name', SML)],
     ['which actions run, in which order, with which argument'],
     note='standard containers by contract over abstract values; one thread at a time')

SMF = SM + 'src/sm_factory_impl.cpp'
SMJ = 'state_machine/modules/json_conf/'
prop('C10', 'A machine made from a configuration is exactly the configured one',
     'A state machine made from a configuration has the configured name, exactly the configured states with exactly their transitions in the configured order (event and destination not mixed up), and starts in the first configured state. '
     'A configuration file is read into exactly the fields it names, a file that cannot be read is an error and never an empty machine, and the machine and the listener made from a file are those of its configuration.',
     ['configurations', 'inputs'],
     'every configuration: any number of states and transitions, any names, repeated or empty ones included',
     'tests load two small files and never compare the machine with the file',
     [SMF, SMJ + 'include/klepsydra/state_machine/json_to_state_machine.h', SMJ + 'src/json_config_loader.cpp', SMJ + 'src/kpsr_state_machine.cpp'],
     [('building', SMF + ': createStateMachine'), ('file fields', SMJ + 'include/klepsydra/state_machine/json_to_state_machine.h: serialize')],
     [('configuration', 'names, states and transitions of a machine', SM + 'include/klepsydra/state_machine/config_state_machine.h')],
     ['state reached by events on a machine made from a configuration, exceptions of loading'],
     note="cereal's JSON parsing is assumed by contract and exercised by the bounded driver")

SER = 'serialization/modules/serialization/include/klepsydra/serialization/'
prop('C15', 'An event survives its way through a serialisation mapper unchanged',
     'For every mapper (raw bytes, JSON, portable binary, identity), encoding an event gives exactly its message whatever the target held before, leaves the event as it was, and decoding that message gives an equal event. '
     'The raw message is exactly the bytes of the event, and a message that is shorter than the event is refused without reading past its end or touching the event. '
     'A message that is decoded in place is read from its first to its last byte and never changed.',
     ['inputs', 'programs'],
     'every event content, every previous content of the target, every message length',
     'the only test sends one small record through the raw mapper; texts, cut messages and reused targets are never tried',
     [SER + 'void_caster_mapper.h', SER + 'json_cereal_mapper.h', SER + 'binary_cereal_mapper.h', SER + 'identity_mapper.h', 'core/modules/core/include/klepsydra/core/non_copying_stream_buffer.h'],
     [('raw mapper', SER + 'void_caster_mapper.h: fromMiddleware, toMiddleware'), ('archive mappers', SER + 'json_cereal_mapper.h, binary_cereal_mapper.h')],
     [('message', 'bytes or text of one event', SER + 'mapper.h')],
     ['event decoded from an encoded one, exceptions on short messages'],
     note="cereal's encoding of each field is assumed by contract and exercised by the bounded driver; sizes of raw events are sampled (the size enters as sizeof only)")

prop('C16', 'A queue poller polls from start until stop, in one thread of its own',
     'Starting a poller gives it exactly one thread and returns once it polls, or reports a failure after its time-out and not before; starting it again before it is stopped makes no other thread. '
     'Stopping or destroying it always completes, however late the thread begins, and afterwards no thread is left and no event is taken. '
     'A stopped poller can be started again, and polling ends only when stop or destruction asked for it.',
     ['schedules', 'histories', 'inputs'],
     'every moment at which the thread begins or stop is asked for, every time-out, every order of start, stop and destruction by one owner',
     'the tests start and stop a poller once, with a thread that begins at once',
     ['core/modules/mem_mdlw/src/in_memory_queue_poller.cpp', 'core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h'],
     [('control', 'core/modules/mem_mdlw/src/in_memory_queue_poller.cpp: start, stop, destructor'), ('loop', 'core/modules/mem_mdlw/src/in_memory_queue_poller.cpp: pollingLoop')],
     [('poller', 'one thread that takes events from a queue', 'core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h')],
     ['thread alive or not, running flag, events taken'],
     note='threads, tasks and sleeping are assumed by contract; the thread may begin at every point where its owner sleeps, yields or joins')
prop('C17', 'An emitted event reaches exactly its listeners, in order; one-time ones once',
     'Emitting an event runs exactly the listeners registered for its subscriber at that moment, each once, in order of registration, with that event, and without holding a lock, whatever other threads or the listeners themselves register, remove or emit meanwhile. '
     'A one-time listener runs once in its life, also under nested and concurrent emissions, and is not registered any more when it runs. '
     'Ids are handed out once, removing by an id removes exactly that listener or reports that there is none, statistics belong to their listener and are attached and detached once, and a discarded event is counted by the listeners of its subscriber only.',
     ['inputs', 'histories', 'schedules'],
     'every set of listeners, every subscriber name, id and event, every operation with and without a container, concurrent and nested operations on the safe emitter, every history of the two emitters for one thread',
     'tests register a few listeners in one thread and never emit from inside a listener',
     ['core/modules/core/include/klepsydra/core/safe_event_emitter.h', 'core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h', 'core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h'],
     [('emit', 'core/modules/core/include/klepsydra/core/safe_event_emitter.h: emitEvent, discardEvent'), ('register', 'core/modules/core/include/klepsydra/core/safe_event_emitter.h: on, once, removeListener, removeAllListeners')],
     [('emitter', 'listeners by subscriber name', 'core/modules/core/include/klepsydra/core/event_emitter_interface.h')],
     ['listeners run, registrations, statistics attached, discarded events'],
     note='KlepsydraSDK is not part of the repository and replaced by stand-ins')

prop('C18', 'A published event enters its channel once and unchanged, or is counted as lost',
     'Publishing hands the channel exactly one event: the very event if the caller shares it (where the channel does not copy), otherwise one of the channel\'s own, made once from the given event by the cloner (or its own copy) or prepared once by the callback after initialisation, and the original stays as it was. '
     'The event is complete, with its name and time of publication, before it becomes visible, nothing is published if a callback fails, and it returns to its pool or is freed exactly once when its last holder drops it. '
     'A full queue makes the publisher wait or discard older events as configured, a full ring buffer refuses the event without a change, and every lost event and every allocation is counted exactly once.',
     ['inputs', 'histories', 'schedules', 'configurations'],
     'every way to publish through every publisher, with and without pool, initialiser, cloner, container, discarding and unsafe mode; every event, every state of pool, queue and ring buffer, every number of rounds of waiting or discarding, callbacks that throw at any point',
     'tests publish a few events with one configuration each, look at totals, never let a callback throw and never outlive a pool',
     ['core/modules/core/include/klepsydra/core/object_pool_publisher.h', 'core/modules/core/include/klepsydra/core/event_emitter_publisher.h', 'core/modules/mem_mdlw/include/klepsydra/mem_core/basic_publisher.h', 'core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h'],
     [('publish', 'core/modules/core/include/klepsydra/core/object_pool_publisher.h: internalPublish, processAndPublish'), ('enqueue', 'core/modules/mem_mdlw/include/klepsydra/mem_core/basic_publisher.h: internalPublish'), ('fill a slot', 'high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h: internalPublish, processAndPublish')],
     [('event', 'event on its way into a channel', 'core/modules/core/include/klepsydra/core/object_pool_publisher.h'), ('slot', 'slot of a ring buffer with event, name and time', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h')],
     ['events in the channel and what they are made of, counted losses and allocations, returned and freed events'],
     note='KlepsydraSDK is not part of the repository and replaced by stand-ins; the third-party lock-free queue is assumed by contract')

prop('C19', 'An event taken from a channel reaches the listeners of its name once, unchanged',
     'Every event taken from a queue, and every event the event loop handles, is passed on exactly once and unchanged, with its own name and the time it was published with, to the listeners of that name; of a batch in the data multiplexer the latest event is passed on and every older one is counted as discarded, exactly once. '
     'A listener registered with a subscriber gets the event itself, once per event, until it is removed under its name or its subscriber is destroyed; an empty callback is refused, and asking for or removing an unknown name changes nothing. '
     'A handled event is not kept in its slot of the loop, a forwarded event is published once, and a cache holds the latest event with the number of events seen, consistently also when read by other threads.',
     ['inputs', 'histories', 'schedules'],
     'every event, name, time and id, every set of other listeners, every way to register, remove and destroy, listeners that throw, caches used by several threads',
     'tests pass a few events through one provider each and look at counts; none asks for unknown names, lets a listener throw, or checks names and times',
     ['core/modules/core/include/klepsydra/core/event_emitter_subscriber.h', 'core/modules/core/include/klepsydra/core/event_forwarder.h', 'core/modules/core/include/klepsydra/core/cache_listener.h', 'core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h', 'core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_subscriber.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_function_exec_listener.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_event_handler.h'],
     [('take', 'core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h: takeEventFromQueue'), ('handle', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_event_handler.h: on_event'), ('register', 'core/modules/core/include/klepsydra/core/event_emitter_subscriber.h: registerListener, removeListener')],
     [('listener', 'callback registered under a name with a subscriber', 'core/modules/core/include/klepsydra/core/event_emitter_subscriber.h'), ('cache', 'latest event and number of events', 'core/modules/core/include/klepsydra/core/cache_listener.h')],
     ['events passed on with name and time, listeners run, registrations left, discarded events, cached event and counter'],
     note='KlepsydraSDK is not part of the repository and replaced by stand-ins; the third-party lock-free queue is assumed by contract; the same name registered twice at once is left open')

prop('C20', 'An event loop or multiplexer reader runs in one thread from start to stop',
     'Starting an event loop, or making a reader of a data multiplexer, yields exactly one thread that handles the events published from then on, or fails with an exception once its time-out is over and not much later; starting a started loop changes nothing. '
     'Stopping and destroying return, however late the thread begins and also when it has ended by itself because a listener failed: afterwards no thread is left and no event is handled, and a stopped loop can be started again. '
     'The ring knows the position of a reader before it reads, and no longer waits for or refers to a reader that was destroyed.',
     ['schedules', 'histories', 'configurations'],
     'every moment at which the thread begins or ends by itself, every time-out, every order of start, stop and destruction by one owner, listeners that fail',
     'tests start and stop a loop whose thread begins at once and whose listeners return; none lets a start-up time out, a listener fail, or a producer go on after a reader is gone',
     ['high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h', 'high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h'],
     [('start', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h: start, stop, destruction'), ('reader', 'high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h: construction, destruction')],
     [('thread', 'thread, task and future of a loop or reader', 'high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h'), ('position', 'position of the reader in the ring', 'high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h')],
     ['threads made and left, state reported, exceptions, time waited, positions known to the ring'],
     note='one owner, not the thread of the loop itself; the ring outlives its readers; events published while a loop is stopped are outside the property')

prop('C21', 'A configuration gives back what was set last; a merge only adds',
     'Asking a configuration for a property gives the value that was set last under its name, its root and its type, and says that it exists; a name that was never set is reported and leaves the variable alone, or gives the default in an environment. '
     'Setting a property changes no other, and in a configuration of any types a property is neither read nor replaced by a value of another type, nor does setting it change another configuration it was merged into. '
     'Merging or loading adds every property of the source, of every type, once and below the given root, replaces none that exists and reports when a name was taken; exporting and importing gives the same properties.',
     ['inputs', 'histories', 'configurations'],
     'every contents, name, root and value, every sequence of settings, merges, loads and exports',
     'no test of the repository uses these classes: they are exercised by applications only, with the few names those have',
     ['core/modules/core/include/klepsydra/core/configuration_properties.h', 'core/modules/core/include/klepsydra/core/configuration_environment.h', 'core/modules/core/include/klepsydra/core/property.h', 'core/modules/core/src/configuration_environment.cpp'],
     [('properties', 'core/modules/core/include/klepsydra/core/configuration_properties.h: getProperty, setProperty, copyFrom, getFullKey'), ('environment', 'core/modules/core/src/configuration_environment.cpp: getters, setters, loadFile, updateConfiguration, exportEnvironment')],
     [('property', 'value and type kept under a name', 'core/modules/core/include/klepsydra/core/property.h')],
     ['values and results of asking, results of setting and merging, exported and imported contents'],
     note='one thread; a configuration is not merged into itself; reading and writing JSON (cereal) and properties of type float are covered by the bounded driver only')

