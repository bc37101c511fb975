SMC = ("stateless model checking of the real code: every interleaving of its synchronisation operations up to a deviation bound, "
       "with happens-before race detection and visited-history pruning")
SEQ = ("stateless model checking of the real code: every operation sequence / environment answer up to a depth combined with every "
       "interleaving up to a deviation bound, compared with a reference model")
NOTE = ("Exhaustive within the bounds each scenario states (threads, operations, preemption or delay bound; see the evidence file). "
        "Trusts the explorer in nmc/, sequential consistency of atomics except where a scenario enables weak memory, and the "
        "virtual clock. ")

prop("P01", "A group never runs more tasks at once than its concurrency",
     "At no time are more reactions of one Sync or Group executing than that group's concurrency (one for Sync), whatever pools, "
     "threads, inline emissions, multi-group memberships or exceptions are involved. A reaction in several groups runs only while "
     "it occupies a slot in every one of them. The slots are given back when the reaction ends, also when it throws.",
     ["schedules", "programs"],
     "every interleaving of submitters, pool workers and releases over groups of concurrency 1 and 2, same-pool, cross-pool, "
     "multi-group and inline tasks",
     "the tests run a few tasks on real threads and look for overlap; the window between releasing a slot and the next owner taking "
     "it is a few instructions wide",
     ["src/threading/scheduler/Group.cpp", "src/threading/scheduler/Pool.cpp", "src/threading/scheduler/CombinedLock.cpp"],
     [("slot accounting and queueing", "src/threading/scheduler/Group.cpp"), ("multi-group locks", "Scheduler::get_groups_lock")],
     ["user callbacks entered and left"], SMC, NOTE)

prop("P02", "Every submitted task runs exactly once; none is lost or left stranded",
     "While the system is running, every task created by an emission runs exactly once, in finite time, provided the tasks that "
     "occupy its groups and its pool finish. A task that cannot run because its groups are busy never prevents another task of the "
     "same pool whose groups are free from running. No task runs twice.",
     ["schedules", "programs"],
     "every interleaving of submissions, group releases and workers going to sleep or waking up, up to the bound, run until nothing "
     "can make progress any more",
     "a lost wake-up leaves a task waiting only in one particular interleaving; tests with timeouts pass unless they hit it",
     ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Group.cpp", "src/threading/scheduler/Scheduler.cpp"],
     [("wake-ups", "Pool::submit / Pool::get_task"), ("handing on group slots", "Group::drain_to_pool / Group::notify")],
     ["user callbacks"], SMC, NOTE + "Stranded tasks are found as quiescent states in which a task has not run.")

prop("P03", "Task queues deliver each task once, in producer order, without losing memory",
     "The queues between threads hand every enqueued item to exactly one consumer, and items enqueued by one thread at one priority "
     "come out in the order they went in. A consumer that finds a queue empty after an enqueue has completed and nothing else took "
     "the item never happens. Every item still inside when the queue is destroyed is destroyed exactly once and no item is touched "
     "after it was destroyed or recycled.",
     ["schedules", "histories"],
     "every interleaving of two or three producers and one or two consumers around block boundaries and block recycling, with the "
     "queue pre-filled so that a boundary is a few operations away, including stale reads allowed by the C++ memory model",
     "the queues are lock free; the failing interleavings sit on block boundaries and reclamation epochs which random stress hardly "
     "ever hits",
     ["src/threading/scheduler/queue/TaskQueue.hpp", "src/threading/scheduler/queue/MPSCQueue.hpp",
      "src/threading/scheduler/queue/detail/block_ops.hpp"],
     [("multi-consumer queue", "TaskQueue"), ("single-consumer queue", "MPSCQueue")],
     ["values returned by the queues", "constructor/destructor counts of the items"], SMC, NOTE)

prop("P04", "Reactions run on the threads of their pool, never more than it has",
     "A reaction always runs on a thread of the pool it was bound to, and at most that pool's concurrency of its reactions run at "
     "once; MainThread reactions run on the thread that called start. Current-pool queries made inside a reaction, including one "
     "that throws or emits inline, name that pool. Inline reactions run on the emitting thread.",
     ["schedules", "programs"],
     "every interleaving of emitters and workers over default, custom and main thread pools",
     "tests sample a few schedules and mostly check that a reaction ran, not where",
     ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Scheduler.cpp", "src/dsl/word/Pool.hpp", "src/dsl/word/MainThread.hpp"],
     [("pool lookup", "Scheduler::get_pool"), ("worker loop", "Pool::run")],
     ["thread ids inside user callbacks"], SMC, NOTE)

prop("P05", "Higher priority first, then submission order, within a pool and a group",
     "Among tasks waiting in the same pool that are free to run, a task of higher priority is started before one of lower priority, "
     "and tasks of equal priority are started in the order they were submitted. The same holds among the tasks waiting for one "
     "single-membership group within a pool. The outcome is the same whatever the interleaving of the threads involved.",
     ["schedules", "inputs"],
     "every sequence of priorities of up to four tasks queued behind a running one, for every interleaving up to the bound",
     "existing tests use one fixed submission order and real time",
     ["src/threading/scheduler/queue/Priority.hpp", "src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Group.cpp",
      "src/dsl/word/Priority.hpp"],
     [("priority buckets", "Pool queue / Group queue"), ("task ordering", "ReactionTask comparison")],
     ["order of user callbacks"], SEQ, NOTE)

prop("P06", "Shutdown always completes, drains the pools and never crashes",
     "After shutdown is requested, from any thread and any number of times, start returns; Shutdown reactions run exactly once, and "
     "with a graceful shutdown every task that was queued before it still runs. A forced shutdown ends the pools without starting "
     "the tasks still waiting in them. Persistent pools keep running until every other pool has stopped, and emitting while "
     "or after shutting down never crashes, hangs or runs user code after start has returned.",
     ["schedules", "histories"],
     "every interleaving of the shutting-down thread with workers, idle sleepers and late emitters",
     "shutdown races are over in microseconds and tests take one path through them",
     ["src/PowerPlant.cpp", "src/threading/scheduler/Scheduler.cpp", "src/threading/scheduler/Pool.cpp"],
     [("stop protocol", "Scheduler::stop / Pool::stop / Pool::join")],
     ["return of PowerPlant::start", "user callbacks"], SMC, NOTE)

prop("P07", "Idle reactions run exactly when their pool or the system has run dry",
     "Whenever a pool has run out of work after having had some (every thread has finished its task and none is queued), its idle "
     "reactions are run; global idle reactions likewise when all counted pools have run out of work. No such period is missed, however it is "
     "reached. While a thread of the pool (for global ones, of any counted pool) is running a task no idle reaction is started, "
     "nor in the middle of a chain of tasks that hand work from pool to pool.",
     ["schedules", "histories"],
     "every interleaving of workers running dry, submissions arriving and idle tasks being generated, for one- and two-thread pools",
     "idle detection counts threads across pools without a common lock; tests see one order of events",
     ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/Scheduler.cpp", "src/dsl/word/Idle.hpp"],
     [("idle counting", "Pool::get_idle_task")],
     ["user callbacks"], SMC, NOTE)

prop("P08", "A reaction receives exactly the data of its emission, and nothing partial",
     "A reaction triggered by an emission sees that very message, With delivers the latest message of the other type emitted before, "
     "Optional delivers it or nothing, and Last<n> the last n triggering messages in emission order. A reaction whose required data "
     "does not exist does not run. The data a reaction holds is immutable, alive for as long as it holds it and freed "
     "afterwards.",
     ["schedules", "programs", "histories"],
     "every sequence of emissions of two message types up to a depth, and every interleaving of two emitting threads with the "
     "consuming reactions",
     "tests emit fixed sequences from one thread",
     ["src/util/CallbackGenerator.hpp", "src/dsl/operation/CacheGet.hpp", "src/dsl/store/DataStore.hpp", "src/dsl/word/Last.hpp",
      "src/dsl/word/With.hpp", "src/dsl/word/Optional.hpp", "src/util/TypeMap.hpp", "src/util/MergeTransient.hpp"],
     [("message capture", "CallbackGenerator::operator()"), ("latest message store", "DataStore / TypeMap")],
     ["arguments of user callbacks"], SEQ, NOTE)

prop("P09", "Buffer<n> and Single bound the pending tasks of a reaction",
     "At most n tasks of a Buffer<n> reaction (one for Single) are queued or running at any time; an emission that finds fewer than "
     "n of them pending is not dropped. A task counts until its callback has finished, by return or by exception, so the reaction "
     "becomes available again after every completion. Dropped emissions leave no trace and do not affect other reactions.",
     ["schedules", "histories"],
     "every sequence of emissions and completions up to a depth, and every interleaving of two emitters with the completing worker",
     "the count is changed by several threads at once; tests emit from one",
     ["src/dsl/word/Buffer.hpp", "src/dsl/word/Single.hpp", "src/threading/ReactionTask.cpp", "src/threading/Reaction.cpp"],
     [("pending count", "Reaction::active_tasks")],
     ["user callbacks", "emission results"], SEQ, NOTE)

prop("P10", "Reaction handles switch reactions on, off and out for good",
     "A disabled reaction is not triggered by later emissions and an enabled one is again; an unbound reaction is never triggered "
     "again, and Once reactions run exactly once. A reaction keeps running the callback it was bound with, however that was passed. "
     "These operations affect only their own reaction, may be made from any reaction "
     "including the reaction itself, and may be repeated or made after the reaction is gone.",
     ["histories", "schedules"],
     "every sequence of emit, enable, disable, unbind and rebind operations up to a depth on two reactions, and the interleavings "
     "with running tasks",
     "tests check single transitions",
     ["src/threading/ReactionHandle.cpp", "src/threading/Reaction.cpp", "src/dsl/word/Once.hpp", "src/dsl/operation/Unbind.hpp",
      "src/dsl/operation/TypeBind.hpp"],
     [("enabled flag", "Reaction::enabled"), ("unbinding", "Reaction::unbinders")],
     ["user callbacks", "ReactionHandle::enabled"], SEQ, NOTE)

prop("P11", "Inline emission and inline reactions run when, where and if they should",
     "An inline emission has run every reaction it triggers, on the emitting thread and in binding order, by the time it returns, "
     "except those which refuse inline execution, which are queued. A reaction marked Inline::ALWAYS runs on the emitting thread "
     "however it is emitted, with its data and its task identity, and one marked NEVER does not. Group limits are obeyed by "
     "inline tasks: one whose group is busy waits its turn, and runs later in its own pool, instead of being dropped.",
     ["programs", "schedules"],
     "every combination of emission kind, Inline word, group and nesting up to a depth",
     "tests cover a handful of combinations",
     ["src/util/Inline.hpp", "src/dsl/word/Inline.hpp", "src/dsl/word/emit/Inline.hpp", "src/PowerPlant.cpp",
      "src/threading/scheduler/Scheduler.cpp", "src/dsl/fusion/InlineFusion.hpp"],
     [("inline decision", "PowerPlant::submit / Scheduler::submit")],
     ["order and thread of user callbacks"], SEQ, NOTE)

prop("P12", "Startup runs before anything else and initial emissions are never lost",
     "Startup reactions run, in binding order and exactly once, on the main thread before any other task is executed. A message "
     "emitted with Initialise while the system is being installed reaches every reaction bound during the installation exactly once, "
     "after everything is installed, and in order of emission where a single thread executes them. Tasks submitted before start "
     "run after it.",
     ["programs", "histories", "schedules"],
     "every arrangement of two reactors' bindings and emissions during installation up to a depth, with every interleaving of the "
     "threads started by start",
     "tests use one arrangement",
     ["src/PowerPlant.cpp", "src/PowerPlant.hpp", "src/dsl/word/Startup.hpp", "src/dsl/word/emit/Initialise.hpp"],
     [("start sequence", "PowerPlant::start"), ("deferred tasks", "Initialise")],
     ["user callbacks"], SEQ, NOTE)

prop("P13", "Exceptions stay contained, and task events tell what really happened",
     "An exception thrown by a reaction ends that reaction only: its thread keeps working, its groups and counts are given back and "
     "the previous current task is restored. For each task the reaction events report either that it was blocked or missed data, "
     "once and nothing else, or that it was created, started and finished, in that order and exactly once, with the identities of the "
     "task and the task that caused it. The exception is reported with the finishing event.",
     ["programs", "schedules"],
     "every combination of outcome (return, throw, blocked, missing data), inline nesting and pool, for every interleaving up to the "
     "bound",
     "tests check that a throwing reaction does not end the process",
     ["src/util/CallbackGenerator.hpp", "src/threading/ReactionTask.cpp", "src/message/ReactionStatistics.cpp"],
     [("exception barrier", "CallbackGenerator"), ("current task", "ReactionTask::run")],
     ["ReactionEvent messages", "user callbacks"], SEQ, NOTE)

prop("P14", "Timers fire on time, in order, never early and never lost",
     "A message emitted with a delay or at a time arrives once, not before that time and as soon as it has come; Every reactions "
     "fire once per period without drifting, also when firings are late. Timers added or removed while others are waiting take "
     "effect at once, so an earlier one is not delayed by a later one. Timers with different due times fire in order of due time.",
     ["schedules", "inputs", "histories"],
     "every order and interleaving of adding two or three timers from different threads with the controller sleeping, spinning or "
     "dispatching, in virtual time",
     "the tests use real sleeps with generous tolerances",
     ["src/extension/ChronoController.cpp", "src/dsl/word/Every.hpp", "src/dsl/word/emit/Delay.hpp", "src/util/precise_sleep.cpp"],
     [("timer heap", "ChronoController")],
     ["virtual time of user callbacks"], SMC, NOTE)

prop("P15", "The adjustable clock is consistent, and timers follow it",
     "After the clock is set or its speed changed, time continues from the requested point at the requested rate, for every reader "
     "on every thread, without ever showing a mixture of two settings. Time travel acts on the waiting timers as documented: "
     "relative shifts keep the remaining time, absolute jumps make due timers fire, and nearest never skips a timer.",
     ["schedules", "inputs", "histories"],
     "every interleaving of clock changes with readers, and every combination of travel action, target and rate from a small set",
     "tests use real time and one thread",
     ["src/clock.cpp", "src/clock.hpp", "src/extension/ChronoController.cpp", "src/message/TimeTravel.hpp"],
     [("clock data", "clock::adjust_clock / set_clock / now")],
     ["clock::now", "virtual time of user callbacks"], SEQ, NOTE)

prop("P16", "A watchdog fires exactly when it has not been serviced for its timeout",
     "Unless the clock is adjusted, a Watchdog reaction fires once its timeout has passed since it was created or last serviced, and not earlier; servicing one "
     "watchdog or one instance of it does not affect any other. After firing or being serviced it starts a new period. Unbinding it "
     "stops it.",
     ["schedules", "histories"],
     "every sequence of servicing two watchdogs at a few instants, and every interleaving of servicing with the check",
     "tests use one schedule of real sleeps",
     ["src/dsl/word/Watchdog.hpp", "src/dsl/word/emit/Watchdog.hpp", "src/extension/ChronoController.cpp"],
     [("last service time", "WatchdogDataStore"), ("scheduling", "ChronoController")],
     ["virtual time of user callbacks"], SEQ, NOTE)

prop("P17", "IO reactions see every event of their descriptor once, and no other's",
     "When a watched descriptor becomes ready for an event a reaction asked for, that reaction runs with the event; it is not run "
     "for events it did not ask for, except for the closing of the descriptor, nor again while it is still handling the last one. "
     "An event which arrives while it is being handled is delivered afterwards. Descriptors can be bound and unbound at any time "
     "without losing events of others, and no task is created for a reaction after its unbinding has returned.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of data arriving, reactions handling it, bindings and unbindings, and poll returning early",
     "the controller thread races with the reactions; tests write and read a pipe in lock step",
     ["src/extension/IOController_Posix.ipp", "src/extension/IOController.cpp", "src/dsl/word/IO.hpp"],
     [("watch list", "IOController"), ("wake-up pipe", "IOController::bump / NotifierWakeGuard")],
     ["user callbacks"], SMC, NOTE)

prop("P18", "UDP and TCP words deliver what was sent, with its true addresses",
     "A UDP reaction runs once per datagram with exactly its bytes and the source and target addresses, also when several datagrams "
     "wait at once; a TCP reaction runs once per connection with a descriptor that is open, owned by the receiver and closed "
     "exactly once. A reaction bound to broadcast or multicast receives no traffic meant for somebody else. Unbinding closes the socket.",
     ["histories", "inputs", "schedules"],
     "every sequence of datagrams and connections up to a depth on a virtual network",
     "tests send one message at a time over the real loopback",
     ["src/dsl/word/UDP.hpp", "src/dsl/word/TCP.hpp", "src/dsl/word/emit/UDP.hpp"],
     [("receive path", "UDP::RecvMsgResult / read"), ("accept path", "TCP::get")],
     ["packets seen by user callbacks", "open descriptors"], SEQ, NOTE)

prop("P19", "A network message arrives byte for byte as sent, or not at all",
     "Whatever the size of a message sent over NUClearNet and however its packets are reordered or duplicated, a receiver that gets "
     "it gets exactly the bytes, the type and the sender that were sent, never mixed with another message, another peer or an incomplete "
     "set of packets. Without loss or duplication it arrives exactly once.",
     ["fault_sequences", "inputs"],
     "every loss, duplication and reordering of the packets of messages of one, two and three packets from two senders, on a virtual network",
     "tests use the real loopback, which neither loses nor reorders",
     ["src/extension/network/NUClearNetwork.cpp", "src/extension/network/NUClearNetwork.hpp", "src/extension/network/wire_protocol.hpp"],
     [("fragmentation", "NUClearNetwork::send"), ("reassembly", "NUClearNetwork::process_packet")],
     ["packet callback"], SEQ, NOTE)

prop("P20", "A reliable message reaches every connected target exactly once despite loss",
     "A message sent reliably is delivered exactly once to each target connected when it was sent, and stays connected, for every "
     "finite pattern of lost, duplicated and reordered packets and acknowledgements. The sender retransmits until everything is "
     "acknowledged and then stops. Packets which the receiver asks for again are sent at once and until they are acknowledged. A peer "
     "that leaves ends retransmission to it.",
     ["fault_sequences", "schedules"],
     "every pattern of up to a bounded number of losses, duplications and reorderings of data, ACK and NACK packets, in virtual time",
     "tests use the real loopback, which does not lose packets",
     ["src/extension/network/NUClearNetwork.cpp", "src/extension/network/NUClearNetwork.hpp"],
     [("send queue", "NUClearNetwork::send / retransmit"), ("acknowledgement", "NUClearNetwork::process_packet")],
     ["packet callback", "packets on the wire"], SEQ, NOTE)

prop("P21", "Peers are announced once when they join and once when they leave",
     "Every peer that announces itself is reported as joined exactly once before any of its messages is delivered, and reported as left exactly "
     "once when it says goodbye or has been silent for the timeout; join and leave alternate per peer. A peer "
     "that keeps announcing is never reported as having left. A configured node announces itself for as long as it runs, also when nobody "
     "else sends anything or a send fails for a moment, and says goodbye when it is shut down or configured again.",
     ["fault_sequences", "histories"],
     "every loss and reordering of announce, leave and data packets and every silence pattern of two peers up to a depth, in virtual time",
     "tests run one join",
     ["src/extension/network/NUClearNetwork.cpp", "src/extension/NetworkController.cpp"],
     [("target table", "NUClearNetwork::targets"), ("timeouts", "NUClearNetwork::process")],
     ["join and leave callbacks"], SEQ, NOTE)

prop("P22", "No datagram, however malformed, can crash or corrupt a node",
     "Whatever bytes arrive on the network ports, from known or unknown peers, the node neither accesses memory it must not, nor "
     "throws, hangs or delivers a message that was never sent. It keeps working for well-formed traffic afterwards.",
     ["inputs", "fault_sequences"],
     "every truncation of every packet type, and every combination of boundary values of every header field, in sequences of two, with memory checking",
     "tests never send a malformed packet",
     ["src/extension/network/NUClearNetwork.cpp", "src/extension/network/wire_protocol.hpp"],
     [("packet parsing", "NUClearNetwork::process_packet")],
     ["memory accesses", "callbacks"], SEQ, NOTE)

prop("P23", "Serialising and deserialising returns the value; type identity is stable",
     "For every supported type, deserialising what was serialised gives back an equal value, and a buffer whose size does not fit "
     "is refused instead of being read beyond its end. Equal types hash to equal identifiers on every node, and the hash function "
     "matches its published definition for every input length and seed.",
     ["inputs"],
     "every value of small domains and every length around the block boundaries, against an independent reference",
     "tests check a few values",
     ["src/util/serialise/Serialise.hpp", "src/util/serialise/xxhash.cpp"],
     [("serialisers", "Serialise<T>"), ("hash", "xxhash64")],
     ["return values"], SEQ, NOTE)

prop("P24", "A trace file is well-formed and tells what happened",
     "Between the start and the end of tracing, the trace file holds a well-formed sequence of packets which a decoder reads to the last byte, each "
     "begin matched by its end on the same track, in time order, and every interned name defined before or with its first use. "
     "Every traced task event and log message appears exactly once. Tracing can be stopped and started again with the same guarantee.",
     ["programs", "histories", "schedules"],
     "every sequence of begin, end and task events up to a depth, parsed by an independent decoder",
     "tests do not decode the file fully",
     ["src/extension/TraceController.cpp", "src/extension/trace/protobuf.cpp", "src/extension/trace/StringInterner.hpp"],
     [("encoder", "protobuf.cpp"), ("event mapping", "TraceController")],
     ["bytes of the trace file"], SEQ, NOTE)

prop("P25", "Log messages are delivered exactly when the levels in force say so",
     "A log call delivers one log message to every handler, holding its level, text, source reactor and task, exactly when its level reaches "
     "the minimum level or the display level in force; otherwise it delivers none and its arguments are not turned into text. The levels in "
     "force are those of the reactor whose log function is called; for the free function and the one of the power plant, those of the "
     "reactor whose task is running on the thread, and outside of tasks everything is delivered.",
     ["inputs", "programs"],
     "every combination of message level, reactor minimum and display levels, and context of the call",
     "tests cover part of the table and no nesting",
     ["src/util/Logger.cpp", "src/util/Logger.hpp", "src/PowerPlant.hpp", "src/LogLevel.hpp"],
     [("level lookup", "Logger::get_current_log_levels")],
     ["LogMessage reactions"], SEQ, NOTE)

prop("P26", "Binding, unbinding and emitting concurrently is free of data races",
     "Reactions may be bound, unbound, enabled and disabled while other threads emit messages of the same type: no data race, crash or lost "
     "reaction results, and each emission triggers the reactions bound throughout it exactly once.",
     ["schedules"],
     "every interleaving of one binding or unbinding thread with one or two emitting threads",
     "no test binds and emits from different threads",
     ["src/util/TypeList.hpp", "src/dsl/store/TypeCallbackStore.hpp", "src/dsl/operation/TypeBind.hpp", "src/dsl/operation/Unbind.hpp",
      "src/Reactor.hpp"],
     [("callback lists", "TypeList")],
     ["user callbacks", "memory accesses"], SMC, NOTE)

prop("P27", "A file descriptor wrapper closes its descriptor exactly once",
     "A descriptor given to the wrapper is closed exactly once, with its clean-up action run exactly once before, whatever sequence "
     "of moves, releases, self-assignments and closings the wrapper goes through; a released descriptor is not closed. The "
     "wrapper reports itself valid exactly while it owns an open descriptor.",
     ["histories"],
     "every sequence of operations on three wrappers up to a depth against a reference model",
     "tests check single operations",
     ["src/util/FileDescriptor.cpp", "src/util/FileDescriptor.hpp"],
     [("ownership", "FileDescriptor")],
     ["close calls"], SEQ, NOTE)

prop("P28", "Task scopes tell a task exactly which scope it runs in",
     "While a task of a reaction bound with a TaskScope runs, its thread is in that scope, and in no scope the running reaction is not "
     "bound with; outside of tasks it is in none. An inline reaction nested in it counts for itself, and afterwards the outer task is in "
     "its scopes again, after exceptions as after returns. A scope lock that is moved, or assigned onto an empty one, keeps the scope, and "
     "its end restores what was before.",
     ["histories", "programs"],
     "every sequence of entering, leaving, moving and releasing up to a depth on two scopes",
     "tests cover direct use",
     ["src/dsl/word/TaskScope.hpp", "src/dsl/fusion/ScopeFusion.hpp"],
     [("scope lock", "TaskScope::Lock")],
     ["in_scope"], SEQ, NOTE)

prop("P29", "A system can be destroyed and replaced, and nothing of it is left",
     "Destroying a system, whether it was never started, ran and shut down or was stopped by force, and whatever tasks are still queued in "
     "its pools and groups, neither crashes nor touches what is already destroyed, and frees every callback, task and queued message. A "
     "system made afterwards works as the first one did: no reaction, message history, pool or group of the old one affects it, handles of "
     "the old one are invalid and harmless, and only one system exists at a time.",
     ["histories", "schedules"],
     "every sequence of three lives of a system out of never started, graceful, forced and started with queued tasks, in every schedule within a bound, "
     "with the callbacks and messages counted and memory checked",
     "tests make one system after the other but do not look for what is left",
     ["src/PowerPlant.cpp", "src/PowerPlant.hpp", "src/threading/scheduler/Scheduler.cpp", "src/threading/scheduler/Group.cpp"],
     [("end of the scheduler", "Scheduler::~Scheduler"), ("end of the system", "PowerPlant::~PowerPlant")],
     ["reaction executions", "live objects", "memory accesses"], SMC, NOTE)
