"""The properties: (id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level note).

`tools/gen.py` writes properties.jsonl and MANIFEST.json from this table."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique="", note="", na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na, state=list(state), observe=list(observe)))


prop("C01", "Every request message gets exactly one reply with its own id",
     "Every request that reaches an actor pool is answered with exactly one reply, sent on the connection the request came from and carrying the request's message id: "
     "the result if handling succeeded, an error reply if it raised or was cancelled. If the reply itself cannot be sent (for example because the result cannot be serialized), an error reply with the same id is sent instead. "
     "One failing request never stops the pool from serving the connection's other requests.",
     "inputs schedules fault_sequences", "every message type, every handler outcome (value, exception, cancellation) and every send failure",
     "Tests send a handful of well-behaved messages; they cannot visit every exit path of every handler, in particular cancellation and send failures.",
     ["python/xoscar/backends/pool.py", "python/xoscar/backends/message.pyx"],
     [("error processor turns an exception into an error reply", "backends/pool.py: _ErrorProcessor"), ("message dispatch", "backends/pool.py: AbstractActorPool.process_message/_send_channel/on_new_channel")],
     "abstract interpretation of the connection loop, the dispatcher and every registered handler over a symbolic environment: every outcome of handling, every failure of sending, every cancellation",
     "Every message type and handler is run under every outcome the environment can produce (value, error of several classes, cancellation, reply that cannot be sent, request that cannot be read); reply count, id, connection and content are decided per path. The connection is a stub.")

prop("C02", "Every pending remote call is eventually resolved",
     "A caller waiting for a remote call is resolved in every case: by the reply carrying its message id, or with an error when the connection is closed, the receive fails, a reply cannot be deserialized, or the caller is stopped. "
     "One cancelled or already resolved call never prevents the other pending calls of the connection from being resolved, and a reply is only ever delivered to the call with the same id.",
     "schedules fault_sequences histories", "every interleaving of sends, replies, cancellations and connection failures",
     "Tests exercise orderly replies and one connection loss; interleavings of cancellation with failure are not reachable deterministically.",
     ["python/xoscar/backends/core.py", "python/xoscar/backends/context.py"],
     [("pending call table", "backends/core.py: ActorCallerThreadLocal._client_to_message_futures"), ("listener", "backends/core.py: ActorCallerThreadLocal._listen")],
     "abstract interpretation of the caller and its listener over a symbolic environment: every order of replies, cancellations, send failures, connection ends and stops for up to three concurrent calls",
     "Bounded to three concurrent calls per connection; the connection is a stub whose behaviour (reply, reset, end, close, unreadable reply) is enumerated. Does not bound network time.")

prop("C03", "Errors returned by a remote actor reach the caller",
     "Every operation that talks to an actor pool on behalf of the user inspects the reply: an error reply is raised in the caller with the original exception (annotated with address and pid) and its traceback, never returned as a value, dropped or replaced by a default result. "
     "This covers creating, destroying, looking up, calling, cancelling, batching, copying buffers/files and waiting for pools.",
     "inputs fault_sequences", "every context operation and every error a pool can return",
     "Tests check the error of a few operations; an operation whose reply is discarded looks successful in every test where the remote side succeeds.",
     ["python/xoscar/backends/context.py", "python/xoscar/backends/message.pyx", "python/xoscar/context.pyx"],
     [("reply processing", "backends/context.py: IndigenActorContext._process_result_message"), ("error decoration", "backends/message.pyx: ErrorMessage.as_instanceof_cause")],
     "abstract interpretation of every context operation, local and remote, with every reply a pool can give",
     "Every operation of the context is run against every kind of reply (result, error reply with several exception classes, malformed reply); the exception that reaches the caller is compared with the one sent.")

prop("C04", "Actor method execution is mutually exclusive unless opted out",
     "At most one lock-protected method of a stateful actor runs at a time: every way of invoking a method (local reference, remote message, batch, async generator step) holds that actor's own lock for the whole call, synchronous or not, and releases it on every outcome including errors and cancellation. "
     "Only methods or actor types marked lock-free, and stateless actors, skip the lock; awaiting calls yielded by a method happens with the lock released. Local and remote invocations run the same method with the same arguments and yield the same outcome.",
     "schedules inputs", "every interleaving of concurrent invocations, every kind of method",
     "Mutual exclusion quantifies over schedules; the tests sample a few overlapping calls.",
     ["python/xoscar/core.pyx"],
     [("actor lock", "core.pyx: _BaseActor._lock / __on_receive__ / _actor_method_wrapper"), ("opt out", "core.pyx: no_lock, StatelessActor")],
     "abstract interpretation of every way of invoking a method, in pairs, with methods that report every moment at which they run; asyncio.Lock, tasks and events have their documented semantics",
     "Two and three concurrent invocations of all kinds; relies on asyncio.Lock's own semantics (first come, first served).")

prop("C05", "Messages survive the wire unchanged for every message type",
     "For every message type, deserializing a serialized message yields a message of the same type with every field equal to the one sent, including the error and traceback of error replies and the nested message of forwarded messages. "
     "Message types are distinct on the wire and each one is decoded by its own class.",
     "inputs programs", "every message class and every field value",
     "Tests round-trip some messages; a forgotten or swapped field of a rarely used one is invisible until a remote feature depends on it.",
     ["python/xoscar/backends/message.pyx", "python/xoscar/core.pyx"],
     [("wire layout", "backends/message.pyx: serial()/deserial_members()"), ("type table", "backends/message.pyx: _message_type_to_message_cls")],
     "abstract interpretation over value shapes: the deserializing code is evaluated on the symbolic header the serializing code produced",
     "Field-by-field slot agreement of writer and reader for every message class; does not decide the value serializers themselves.")

prop("C06", "Wire frames are self-describing and written atomically",
     "A serialized message is framed so that the reader recovers exactly the written header and buffers: both sides agree on the layout, widths and byte order of every header field, the reader allocates what the header declares and consumes exactly that. "
     "Frames written concurrently to one connection never interleave, and an unserializable message writes nothing.",
     "inputs schedules", "every message size and number of buffers, every interleaving of senders on a channel",
     "Tests use small messages and mostly one sender.",
     ["python/xoscar/serialization/aio.py", "python/xoscar/backends/communication/utils.py", "python/xoscar/backends/communication/socket.py"],
     [("header", "serialization/aio.py: AioSerializer._get_buffers / AioDeserializer._get_obj"), ("write lock", "backends/communication/socket.py: SocketChannel.send")],
     "abstract interpretation of writer and reader over symbolic byte streams, and of the channels of every backend under concurrent, failing and cancelled use over a recording transport",
     "Frame layouts are decided for any header and any buffers; concurrency for up to three senders or receivers and every relative timing of serialization and transport within the bound. CPU buffers only.")

prop("C07", "Serializers of a type agree on their header and buffers",
     "Every registered serializer reconstructs on the reading side what its writing side produced: header items are read in the order and number they were written, every buffer or sub-object that is written is consumed, contiguous copies are made before exposing raw memory, and serializer ids do not collide. "
     "Deserialization hands back exactly the same object for repeated references within one message, including references to an enclosing container "
     "(empty plain dicts and dict subclasses without a usable constructor are written by value; subclasses of list, tuple and dict are rebuilt from their items).",
     "inputs programs", "every serializer class and every object graph",
     "Round-trip tests sample object shapes; layout disagreement in rarely used serializers or branches stays hidden.",
     ["python/xoscar/serialization"],
     [("serializer contract", "serialization/core.pyx: Serializer"), ("concrete serializers", "serialization/{numpy,scipy,cuda,torch,mlx,exception,pyfury}.py")],
     "abstract interpretation over value shapes of every serializer pair and of the serialization engine on a family of object graphs",
     "Decides, on every abstract path, that each header item and buffer written is used to rebuild the object, that the engine returns the same graph (order, identity, cycles) and raises decoding errors, and that serializer ids are unique. Numeric content and external libraries (numpy, torch, cupy) are opaque.")

prop("C08", "Actor creation and destruction are all-or-nothing",
     "Creating an actor whose id is taken fails without disturbing the existing actor; an actor whose constructor or post-create hook fails is not left registered; a created actor is reachable from the moment creation is acknowledged. "
     "Destroying an actor runs its pre-destroy hook first and makes the actor unreachable before it is acknowledged; unknown actors are reported as missing by every operation.",
     "inputs fault_sequences schedules", "every failure of a user hook and every order of create/destroy/call",
     "Tests do not inject failures in every hook and then inspect what remains.",
     ["python/xoscar/backends/pool.py", "python/xoscar/core.pyx"],
     [("actor registry", "backends/pool.py: ActorPoolBase._actors")],
     "abstract interpretation of every registry operation of both pool kinds, single and concurrent, over every outcome of the actor's hooks and of the surrounding pools",
     "Every handler is run from an arbitrary consistent registry (so histories follow by induction), under every outcome of hooks, constructors and cancellation, and in concurrent pairs.")

prop("C09", "The main pool's allocation records match the actors that exist",
     "After any sequence of creations and destructions, successful or failed, directed at the main pool or at a sub pool, the main pool records exactly the live actors under the address of the pool that hosts them, with what is needed to create them again. "
     "An allocation slot reserved for a creation in progress is released on every outcome.",
     "histories fault_sequences", "every history of create/destroy with failures",
     "Quantifies over histories with failures; tests sample successful ones.",
     ["python/xoscar/backends/pool.py"],
     [("allocation table", "backends/pool.py: MainActorPoolBase._allocated_actors")],
     "abstract interpretation of every recording operation from an arbitrary consistent allocation table, over every reply of the other pools",
     "One operation at a time from an arbitrary consistent state; longer histories follow by induction on operations.")

prop("C10", "Sub pool registry, configuration and routes change together",
     "When a sub pool is added, removed or the main pool starts, the process table, the pool configuration, the allocation records and the routing tables of every pool of the group are updated together, so that every configured pool can be addressed and no removed pool can. "
     "Address lookups by process index, label or address agree with one another.",
     "histories configurations", "every sequence of append/remove of sub pools and every configuration",
     "Tests append and remove once.",
     ["python/xoscar/backends/pool.py", "python/xoscar/backends/indigen/pool.py", "python/xoscar/backends/config.py"],
     [("config", "backends/config.py: ActorPoolConfig"), ("process table", "backends/pool.py: attach_sub_process")],
     "abstract interpretation of every topology operation over a symbolic pool configuration, comparing all tables afterwards",
     "Symbolic addresses and labels; two sub pools plus one being added or removed.")

prop("C11", "A dead sub pool is recovered as configured",
     "When a sub pool process dies, the monitor restarts it at the same address, recreates every actor recorded for it when actor recovery is configured (none otherwise), calls the user's callbacks around the recovery, and only then releases those waiting for the recovery. "
     "An error while handling one sub pool never stops the monitoring of the others, and nothing is restarted once the pool is stopping.",
     "crash_points histories fault_sequences", "every crash moment, every set of recorded actors and every recovery mode",
     "Tests kill one process in one state.",
     ["python/xoscar/backends/pool.py", "python/xoscar/backends/indigen/pool.py"],
     [("monitor", "backends/pool.py: MainActorPoolBase.monitor_sub_pools"), ("recovery", "backends/indigen/pool.py: MainActorPool.recover_sub_pool")],
     "abstract interpretation of the monitor loop and of recovery over every order of deaths, hook outcomes and recovery steps",
     "Decides order and completeness of the recovery steps, not time; two sub pools.")

prop("C12", "Cancelling a call cancels the remote execution",
     "When a caller is cancelled while waiting for a remote call, the pool the call was sent to is asked, over the same proxy route, to cancel it and the caller keeps waiting for the call's outcome; a cancelled call ends as cancelled in the caller unless the method completed. "
     "A running call can be found by its message id from its start until it ends, and cancelling an unknown or finished call is an error. Waiting for a call with a timeout ends when the time is over, or when the waiter is cancelled, and cancels the call.",
     "schedules inputs", "every moment of cancellation",
     "Cancellation instants are schedules; tests cancel at one chosen moment.",
     ["python/xoscar/backends/context.py", "python/xoscar/backends/pool.py", "python/xoscar/api.py"],
     [("running calls", "backends/pool.py: AbstractActorPool._run_coro"), ("cancel", "backends/context.py: IndigenActorContext._wait")],
     "abstract interpretation of the processing of a message and of its cancellation, over every position at which the cancellation can arrive",
     "Cancellation may arrive at every suspension of the handler.")

prop("C13", "Redirected and forwarded messages keep their identity and content",
     "A message that a pool passes on to another pool (redirected by the main pool, forwarded through a proxy) keeps the original message id, content, arguments, protocol, trace and profiling data, and is addressed to the pool that hosts the actor; the reply given to the original caller carries the original id.",
     "inputs configurations", "every message type on every redirecting path",
     "Tests check results, not metadata, and only a few paths.",
     ["python/xoscar/backends/pool.py", "python/xoscar/backends/core.py"],
     [("redirect", "backends/pool.py: MainActorPoolBase.create_actor/destroy_actor/send/tell/cancel/handle_control_command"), ("forward", "backends/core.py: ActorCallerThreadLocal.call/call_with_client")],
     "abstract interpretation of every redirecting operation; every field of the message passed on is compared with the one received",
     "All redirected message types, both pool kinds; the reply side likewise.")

prop("C14", "Stopping a pool releases everything it owns",
     "Stopping a pool stops its servers, its clients and listeners, its watch and monitor tasks and, for a main pool, every sub pool process, removes its routes, and always ends in the stopped state even if one of these steps fails; joiners are released. Stopping is possible after partial start. Starting a pool starts every server of it, and a pool that was stopped does not start again; joining it ends at its time limit or with its stop, without stopping it.",
     "fault_sequences schedules", "every failure during shutdown",
     "Tests stop healthy pools.",
     ["python/xoscar/backends/pool.py", "python/xoscar/backends/core.py", "python/xoscar/backends/communication"],
     [("stop", "backends/pool.py: AbstractActorPool.stop/MainActorPoolBase.stop/SubActorPoolBase.stop"), ("channel close", "backends/communication/*: close/stop")],
     "abstract interpretation of stop with every outcome of every release step",
     "Every step of the release (servers, clients, listeners, stop messages, kills, monitor) is a stub whose outcomes are enumerated; virtual time bounds the waits.")

prop("C15", "No orphaned processes or shared memory",
     "A sub pool that fails to start leaves no shared memory block behind and is reported as an error; the other processes started with it are killed. A sub pool whose main pool is gone terminates itself, and a killed sub pool is terminated (forcibly if needed) and reaped.",
     "crash_points fault_sequences", "every crash moment of parent and child, every start failure",
     "Crash points cannot be enumerated by the tests.",
     ["python/xoscar/backends/indigen/pool.py", "python/xoscar/backends/indigen/fate_sharing.py", "python/xoscar/backends/indigen/shared_memory.py"],
     [("start protocol", "backends/indigen/pool.py: _create_sub_pool_from_parent/_start_sub_pool_in_child"), ("watchdogs", "backends/indigen/pool.py: _check_ppid; backends/pool.py: _watch_main_pool")],
     "abstract interpretation of both sides of the start protocol, of kill and of the watchdogs",
     "Every outcome of process, shared memory and psutil operations and every moment of cancellation is enumerated; a reader of the shared memory is interleaved after every store.")

prop("C16", "Cached clients are live, thread-confined and address-correct",
     "A client obtained for an address is connected to that address (or to the local/internal address mapped to it, or to its proxy), is never a closed cached one, and is only given to the thread and caller that created it; an open cached one is reused and has exactly one reader; a new one is made with the communication settings configured for its transport. The connections of a thread are closed, once, after the thread ended. Removing a pool's routes removes every mapping and proxy it added and nothing that another pool added; the route to a removed sub pool is gone.",
     "histories schedules configurations", "every history of connects, closes and route changes from any number of threads",
     "Tests use one thread and live connections.",
     ["python/xoscar/backends/router.py", "python/xoscar/backends/core.py"],
     [("client cache", "backends/router.py: Router.get_client/_create_client"), ("route tables", "backends/router.py: add_router/remove_router/set_mapping")],
     "abstract interpretation of router and caller caches over histories of use, closing, re-use from several loops and threads",
     "Two requests, one after the other or at once, from one or two threads; connections are stubs that may be closed or fail.")

prop("C17", "Proxy routing reaches the destination or fails, never loops",
     "For every proxy configuration the chain of proxies computed for an address is finite, starts at the proxy configured for that address and continues with the proxy of each proxy. References carry the chain of the address they name; a message for an address that is not reached directly goes to the last proxy of its chain, wrapped exactly once with its destination, and each hop takes off exactly one layer and passes the rest on to the destination named.",
     "configurations inputs", "every proxy configuration including wildcard and cyclic ones",
     "Tests use one fixed proxy topology.",
     ["python/xoscar/backends/router.py", "python/xoscar/backends/core.py", "python/xoscar/backends/pool.py"],
     [("proxy lookup", "backends/router.py: Router.get_proxy/get_proxies"), ("wrapping", "backends/core.py: call_with_client/call")],
     "abstract interpretation of proxy resolution over families of proxy tables (chains, cycles, patterns, missing entries) and of wrapping/unwrapping over symbolic messages",
     "Every table over three addresses plus patterns; termination is decided by the step bound of the interpreter.")

prop("C18", "Copying to remote buffers and files transfers every byte once, in order",
     "Copying local buffers or files to remote ones transfers every byte of every source exactly once to the same offset of the matching destination, whatever the sizes, block size and transport, and returns only after the remote side has confirmed each block.",
     "inputs configurations", "all buffer sizes and counts, block sizes, transports",
     "Tests copy a few sizes over one transport.",
     ["python/xoscar/backends/context.py", "python/xoscar/backends/pool.py", "python/xoscar/api.py"],
     [("block splitting", "backends/context.py: _copy_to_buffers_internal/copy_to_fileobjs"), ("receiver", "backends/pool.py: handle_copy_to_buffers_message")],
     "abstract interpretation of sender and receiver with symbolic views (source, offset, length) and provenance of every block, over lengths, block sizes and read behaviours",
     "Small lengths, counts and block sizes; contents symbolic; all reply outcomes, short reads, connection kinds; file ordering.")

prop("C19", "A batch call behaves like the individual calls",
     "Calling a method in a batch gives, in order, what the individual calls would have given, whether the method is synchronous or asynchronous and whether it has a batch implementation, only single implementation, or both; positional and keyword arguments are bound like in a normal call and the number of results equals the number of calls.",
     "inputs programs", "every batch size, argument shape and method kind",
     "Tests use fixed argument shapes.",
     ["python/xoscar/batch.py", "python/xoscar/core.pyx"],
     [("batch wrapper", "batch.py: _ExtensibleWrapper")],
     "abstract interpretation of batching, with and without batch implementations, sync and async, over symbolic call lists",
     "Up to three delayed calls per batch, mixed argument shapes; argument binding is checked against Python's binding rules.")

prop("C20", "Remote generators yield the producer's items in order and end exactly once",
     "Iterating over a generator returned by an actor method yields, in order, exactly the items the method produced, then stops; an error raised by the method is raised at the consumer; the generator is removed from the actor when exhausted or destroyed, and it can only be consumed through the actor that owns it.",
     "schedules histories inputs", "every producer outcome and consumer behaviour",
     "Tests consume a few well-behaved generators.",
     ["python/xoscar/api.py", "python/xoscar/core.pyx"],
     [("iterator wrapper", "api.py: IteratorWrapper"), ("generator registry", "api.py: AsyncActorMixin.__xoscar_next__/__xoscar_destroy_generator__")],
     "abstract interpretation of generator wrapping, remote iteration and finalisation, over every outcome of the user's generator",
     "Every item kind (falsy values included), errors, early stop, concurrent consumers.")

prop("C21", "Actor references are values: equality, hash and pickling agree",
     "Two actor references are equal exactly when address and uid agree, equal references hash equally, and copying or pickling a reference (local or remote) yields an equal reference that keeps its proxy route and whose methods still work.",
     "inputs histories", "every reference and every way of transporting it",
     "Tests compare a few references.",
     ["python/xoscar/core.pyx", "python/xoscar/context.pyx"],
     [("reference", "core.pyx: ActorRef"), ("method references", "core.pyx: ActorRefMethod")],
     "abstract interpretation of equality, hashing and rebuilding over families of references that differ in exactly one field",
     "Every pair of reference kinds and every single-field difference; weak-reference state enumerated.")

prop("C22", "Type dispatch finds the most specific registered handler",
     "Looking up a type returns the handler registered for the nearest class in its method resolution order, loading lazily registered handlers when their module is present; registering or unregistering a handler takes effect for all later lookups, and for no type but those that inherit it; unknown types are an error.",
     "histories programs", "every order of registrations and lookups and every class hierarchy",
     "Tests look up a few types in one order.",
     ["python/xoscar/_utils.pyx"],
     [("dispatcher", "_utils.pyx: TypeDispatcher")],
     "abstract interpretation of the dispatcher over histories of registrations, unregistrations and look-ups on a small class hierarchy",
     "Histories of up to three registrations interleaved with look-ups; class hierarchy with single, multiple and lazy bases.")

prop("C23", "Metrics record what was recorded, for every backend",
     "Whatever is recorded on a metric arrives at the backend with its value and the caller's tags plus the host and process tags, for the console and the prometheus backend alike: a counter reports the running sum, a gauge the last value, a meter the rate since its last report, a histogram the average since its last report, and no recorded value is lost or counted twice between reports; recording never changes the caller's tags. Metrics created before initialisation forward everything recorded after it; a second initialisation has no effect, and a failed one leaves everything as it was. The percentile report of a window is the rank-th value its contract names, for every window.",
     "inputs histories configurations", "every metric type, backend, tag set, initialisation order and recording history",
     "Tests use one backend, fixed tags and a few values; the reports depend on times between records.",
     ["python/xoscar/metrics"],
     [("metric types", "metrics/backends/metric.py"), ("backends", "metrics/backends/*"), ("API", "metrics/api.py")],
     "abstract interpretation of the metric classes and of initialisation over all orders of records, reports and initialisations",
     "Abstract interpretation with symbolic tags and representative values and times; the prometheus library is a model.")

prop("C24", "Diagnostics never change behaviour",
     "Debug, profiling and tracing hooks restore whatever they change on every outcome of the code they surround, let its result, its exceptions and its cancellation pass unchanged, and are inert when disabled: with options on or off the same calls give the same results and errors in the same order. What profiling records is the calls that were made: every finished call is counted once with its own time, and its data can be read back.",
     "inputs fault_sequences configurations", "every outcome of the surrounded code with every option on or off",
     "Tests run mostly with diagnostics off.",
     ["python/xoscar/debug.py", "python/xoscar/profiling.py", "python/xoscar/metrics/api.py"],
     [("context managers", "debug.py: debug_async_timeout/record_message_trace/no_message_trace"), ("profiling", "profiling.py"), ("timers", "metrics/api.py: record_time_cost_percentile"), ("overdue tasks", "utils.py: patch_asyncio_task_create_time, asyncio_task_timeout_detector")],
     "abstract interpretation of every hook around a body that returns, raises or is cancelled, with the options on and off",
     "Abstract interpretation of each hook over all outcomes of the surrounded code; time and logging are the environment's.")

prop("C25", "Virtual environment requirements are installed as required",
     "Filtering or substituting package requirements keeps every requirement that applies to the environment with its name, version specifier, extras and source unchanged and in order; only requirements whose markers or system placeholders say so are dropped or replaced, and what cannot be understood is an error. Markers hold as their comparisons of versions, architectures and booleans say. Installing passes exactly the requirements that apply and are not already satisfied, with the given options, to the given environment; a failed installation or creation is reported; an existing environment is reused, refused or cleared as asked; cancelling ends the running installation.",
     "inputs configurations", "every requirement list, marker, environment and installer outcome",
     "Tests use a few requirement lines on one machine and need the network.",
     ["python/xoscar/virtualenv"],
     [("filter", "virtualenv/core.py: VirtualEnvManager.process_packages/filter_requirements"), ("installer", "virtualenv/uv.py: UVVirtualEnvManager")],
     "abstract interpretation of requirement processing over families of requirements, markers and environments",
     "Abstract interpretation over representative requirements, marker shapes and environments; the parser and the installer are models.")

prop("C26", "The event loop is never blocked or deadlocked by the library",
     "No coroutine of the library waits synchronously on the event loop thread (sleeping, joining a process or thread, waiting for a thread primitive or the result of an unfinished future, running a subprocess to completion), holds a thread lock across a suspension or around a blocking wait, or iterates over a shared table while suspending inside the loop.",
     "schedules", "every coroutine of the library and every function it calls on the loop",
     "A blocking call shows only as latency or a deadlock under rare schedules.",
     ["python/xoscar"],
     [("event loop discipline", "all async functions")],
     "effect analysis over the type-resolved call graph (blocking effects reachable from coroutines, locks across suspensions, iteration over shared state across suspensions)",
     "Whole package; the blocking primitives are an explicit table; short local file I/O is not covered.")

prop("C27", "Collective operations forward every argument to the right peer call",
     "Every collective operation of the public API passes its buffers, data type, reduction, root and stream/option arguments unchanged and in the right position to the process group of the named group on the calling rank, which passes them to the configured backend; argument checks apply to every sibling operation alike.",
     "inputs configurations", "every collective operation, argument combination and backend",
     "Collective tests run few combinations and are skipped on machines without the libraries.",
     ["python/xoscar/collective"],
     [("API", "collective/core.py"), ("process group", "collective/process_group.py")],
     "abstract interpretation of every collective operation of each layer with symbolic arguments; every argument reaching the next layer is compared with the one given",
     "All operations, argument combinations and root ranks; the communication library is a stub that records its calls.")

prop("C28", "Allocation strategies pick an address their contract allows",
     "Each allocation strategy returns only addresses its contract allows: a process-index strategy the address of that index, a label strategy one carrying that label, an address strategy that address, a main-pool strategy the main pool, an idle-label strategy an address carrying the label at which no actor holds, or is being created with, the same label and mark; when no address qualifies it reports this instead of choosing another. Process indexes generated for pools are distinct across processes and pools.",
     "configurations histories", "every configuration and allocation history",
     "Tests use a small configuration.",
     ["python/xoscar/backends/allocate_strategy.py", "python/xoscar/backends/pool.py", "python/xoscar/backends/config.py"],
     [("strategies", "backends/allocate_strategy.py")],
     "abstract interpretation of each strategy over families of configurations and allocation histories",
     "Three sub pools, every label/mark placement, every subset of used-up addresses.")

prop("C29", "Context operations deliver exactly what the user asked for",
     "Each user-level operation (create, has, destroy, look up, call, tell, cancel, wait for a recovered pool, get pool configuration) sends one message of the matching kind to the address given, carrying the user's arguments unchanged: actor class, id, arguments, allocation strategy, reference, proxies, message content and wait mode. A method called through a reference to an actor of the same process runs once with these arguments and the same outcome, reaches an actor created anew under the id and fails with ActorNotExist if there is none; methods and options of different references do not mix.",
     "inputs", "every operation and argument combination",
     "Tests cover common argument combinations.",
     ["python/xoscar/api.py", "python/xoscar/context.pyx", "python/xoscar/backends/context.py", "python/xoscar/core.pyx"],
     [("API", "api.py"), ("context", "backends/context.py: IndigenActorContext")],
     "abstract interpretation of every user-level operation with symbolic arguments; the message sent is compared field by field with what was asked",
     "All operations, local and remote, and every combination of optional arguments.")

prop("C30", "Awaiting several yielded calls returns results in the order given",
     "When an actor method yields or returns several awaitables together with plain values, the caller of the method gets a tuple in which every position holds the value of the awaitable or the plain value given at this position; if one of them fails its error is raised after all have ended; if the method is cancelled all of them are cancelled and awaited. An async generator method gets the value, or the error, of what it yields at the yield, runs under the actor's lock but not while it waits, and its returned value is the result.",
     "inputs schedules fault_sequences", "every mix of awaitables and values and every completion order",
     "Tests use homogeneous tuples.",
     ["python/xoscar/core.pyx"],
     [("result handling", "core.pyx: _BaseActor._handle_actor_result")],
     "abstract interpretation of result handling over every mix of values and awaitables and every order of completion, failure and cancellation",
     "Up to three positions; completion order and outcome of each enumerated.")

prop("C31", "A pool is created as it was asked for",
     "create_actor_pool starts exactly the processes asked for (the number of CPUs by default) and the configuration of the pool lists, main process first, for every one its label, environment, external address (of the given scheme and port), internal address, modules, logging and event loop settings; numbers of labels, environments or ports that do not fit and unknown recover modes are refused before anything is started; a sub process gets the environment of its parent overlaid with its own and runs the interpreter asked for; a pool that cannot be started leaves no sub process running; a pool listens on its external, internal and local address and serves every connection made to them; ports that are chosen are free and not handed out twice.",
     "inputs configurations fault_sequences", "every combination of what is given and left out, and every start that fails",
     "Tests create pools with a few combinations and none whose start fails.",
     ["python/xoscar/backends/pool.py", "python/xoscar/backends/indigen/pool.py", "python/xoscar/backends/indigen/backend.py", "python/xoscar/backends/config.py", "python/xoscar/api.py", "python/xoscar/utils.py"],
     [("creation", "backends/pool.py: create_actor_pool"), ("process", "backends/indigen/pool.py: MainActorPool.start_sub_pool"), ("servers", "backends/pool.py: ActorPoolBase.create"), ("ports", "utils.py: get_next_port")],
     "abstract interpretation of creating a pool over every combination of what is given and left out and every failing start, with stubs for processes, servers and sockets",
     "One to three processes; processes, sockets and the environment are stubs.")

prop("C32", "A connection made to an address reaches the server that listens there",
     "The scheme of an address selects the transport, and its server and client agree on it; a server listens at the interface and port asked for (any interface when listen_elastic_ip is set), names the address it is reached at, the port it was given by the system included, and accepts no connection before it is started; a client connects to the place its address names and hands over a channel on that connection, within the time configured; a connection that cannot be made is a ConnectionError; every accepted connection is handed to the handler of its own server exactly once, is kept while it is served, and is closed and forgotten when its handler ends, however it ends; two servers in a process never get each other's connections.",
     "inputs configurations schedules fault_sequences", "every form of an address and configuration, and every way a connection fails or a handler ends",
     "Tests connect to servers on the local host that work, and never with IPv6, elastic addresses or a handler that fails.",
     ["python/xoscar/backends/communication/socket.py", "python/xoscar/backends/communication/ucx.py", "python/xoscar/backends/communication/dummy.py", "python/xoscar/backends/communication/core.py"],
     [("scheme", "backends/communication/core.py: get_client_type, get_server_type"), ("listen", "backends/communication/socket.py, ucx.py: *Server.create"), ("reach", "*Client.connect"), ("accept", "*Server.on_connected")],
     "abstract interpretation of the servers and clients of every transport over stubs of asyncio's and ucp's servers and connections, for every form of address and configuration and every failure",
     "Two connections at a time, two hosts and ports; the operating system's sockets are stubs. Server.join is not decided.")

prop("C33", "An asynchronous wrapper gives what the thing it wraps gives",
     "Every operation of AioFileObject and AioEvent calls the same operation of the wrapped object once, with the arguments it was given, in the executor it was given when it may block, and returns its result or raises its error; iteration yields the lines up to the end of the file; leaving the context closes the file and hides no error; wrapping a wrapper wraps the same object. A function cached by alru_cache gives what the function gives for these arguments: callers at one time share one computation and cancelling one of them does not disturb the others, a failed computation is not served again unless errors are to be kept and a cancelled one never is, the results kept are the maxsize last used ones, and nothing is served after it was invalidated, cleared or closed.",
     "inputs schedules fault_sequences histories", "every operation, and every order of calls, failures and cancellations",
     "Tests read and write one file; the cache has no test.",
     ["python/xoscar/aio/base.py", "python/xoscar/aio/file.py", "python/xoscar/aio/parallelism.py", "python/xoscar/aio/lru.py"],
     [("wrap", "aio/base.py: AioBase, aio/file.py: AioFileObject, aio/parallelism.py: AioEvent"), ("cache", "aio/lru.py: alru_cache")],
     "abstract interpretation of every operation of the wrappers over a recording object and executor, and of cached functions over sequences of calls, failures and cancellations compared with a reference cache",
     "Caches of up to three results and up to three callers at one time.")

prop("C34", "Identities are never given out twice",
     "Every id that is drawn for a message, an actor created without an id or a referenced buffer or file has the full length asked for, every part of it freshly random and shared with no other id, built within memory of its own that is given back once, from a generator that is seeded with 64 random bits before the first id and not again; every request carries an id of its own; a reference of a buffer or file object, as created or as received by another process, leads to exactly the object it was created for, and references are equal, with equal hashes, exactly when they name the same address and id.",
     "inputs histories", "every length of an id and every sequence of requests",
     "Tests never compare ids; two ids that share parts, or a generator seeded with few bits, collide too rarely for a test.",
     ["python/xoscar/_utils.pyx", "python/xoscar/context.pyx", "python/xoscar/core.pyx", "python/xoscar/backends/context.py", "python/xoscar/backends/message.pyx"],
     [("draw", "_utils.pyx: new_random_id, reset_id_random_seed"), ("use", "context.pyx: ClientActorContext.create_actor, buffer_ref, file_object_ref"), ("request", "backends/context.py: IndigenActorContext"), ("reference", "core.pyx: BufferRef, FileObjectRef")],
     "abstract interpretation of drawing ids on a model of the memory, pointers and casts of the Cython source and a generator whose words are all different, and of everything that draws or looks up ids",
     "Thirteen lengths up to 100 bytes; the quality of the generator itself is the library's.")

prop("C35", "Backends, contexts and actor implementations are those registered",
     "For every address, pools are created, nodes set up and every operation on actors, buffers and pools done by the backend last registered for the scheme of the address (the default one when it names no scheme), with exactly the arguments given, through one context per scheme; an address without a registered scheme, or none at all, is an error and nothing is set up for it. An actor class for which an implementation is registered is constructed as that implementation, exactly once, with the arguments given, and an error of its constructor is the error of the creation; unregistering restores the class itself.",
     "inputs histories configurations", "every set of registered backends and implementations, every address and every operation",
     "Tests use the default backend; a second backend, or an implementation whose constructor fails, is never registered.",
     ["python/xoscar/backend.py", "python/xoscar/driver.py", "python/xoscar/context.pyx", "python/xoscar/api.py", "python/xoscar/backends/indigen/backend.py"],
     [("registries", "backend.py: register_backend/get_backend; driver.py; context.pyx: register_backend_context"), ("dispatch", "context.pyx: ClientActorContext"), ("nodes and pools", "api.py: setup_cluster/create_actor_pool"), ("implementations", "api.py: AsyncActorMixin.__new__, register_actor_implementation")],
     "abstract interpretation of the registries, of every operation of the client context and of the construction of actors over sets of registrations, addresses and arguments",
     "Two backends with one or two schemes each; addresses with the default, a registered, an empty and an unknown scheme.")

prop("C36", "Retries, addresses, ports, sizes and lazy modules are what they claim",
     "A retried function is called with the arguments given until it succeeds, raises another error than the ones named or was tried as often as allowed, with the given wait between attempts (never blocking the loop for coroutine functions), and its result or its last error is the result of the retry. The address of an actor of a pool that listens on all interfaces is the one the client reached it at with the pool's port; every other address is left as it is. A port chosen is free for its kind, within the bounds and never reserved twice. A readable size is read as its number or share or refused. A lazily imported module is imported at its first use only, replaces its name, calls what waits for it once and after it was loaded, and a missing one is reported as missing.",
     "inputs histories configurations", "every history of attempts, every address, every set of used ports, every size and every order of uses",
     "Tests run on one machine with fixed addresses, ports and modules; exhausted retries of coroutine functions are never tried.",
     ["python/xoscar/utils.py"],
     [("retry", "utils.py: retry_callable"), ("address", "utils.py: fix_all_zero_ip, is_zero_ip"), ("port", "utils.py: get_next_port, _get_ports_from_netstat"), ("size", "utils.py: parse_readable_size"), ("lazy", "utils.py: lazy_import, lazy_import_on_load, ModulePlaceholder")],
     "abstract interpretation of the helpers over every history of attempts, address forms, used ports, platforms and uses of a module",
     "Up to three failed attempts; ten hosts with and without scheme; six ports to choose from; the operating system and the import system are stubs.")
