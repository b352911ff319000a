"""Every property: what properties.jsonl and MANIFEST.json are written from (tools/catalog.py)."""
ENTRIES = []


def P(id, title, statement, over, text, why, files, mech, **kw):
    ENTRIES.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **kw))


P("C01", "A fixed session keeps one id until a new session is started",
  "With the fixed session strategy, the first read of the session id generates one id, and every later read returns that same id until a new session is explicitly started. Starting a session returns a freshly generated id, and the id handed out is always the one remembered and the one written to the persistent store.",
  "histories schedules", "every interleaving of session reads and session starts from any number of threads, with or without an earlier record in the store",
  "The tests call the strategy from one thread in a handful of orders; they cannot show that generation, remembering and recording stay one atomic step on every path.",
  "bd-session/src/fixed.rs bd-session/src/lib.rs",
  [("one critical section around read/generate/record", "bd-session/src/fixed.rs Strategy::session_id, start_new_session"), ("public entry points forward", "bd-session/src/lib.rs Strategy")])
P("C02", "The previous process's session id is captured before it is overwritten",
  "With the fixed session strategy, the id reported for the previous process is what the store held before this process recorded its own first session. It never changes during the process, however many sessions are started, and asking for it writes nothing.",
  "histories crash_points", "every order of asking for the previous id, reading ids and starting sessions; any content of the store at start",
  "Tests check one or two orders; the guarantee is about every order and about the read preceding the overwrite on every path.",
  "bd-session/src/fixed.rs bd-session/src/lib.rs",
  [("captured in the critical section that records the first id", "bd-session/src/fixed.rs Strategy::session_id, start_new_session, previous_process_session_id")])
P("C03", "A failing or re-entrant session-id callback neither blocks nor sticks",
  "A session-id callback that fails leads to a random id instead of an error, and a callback that calls back into the session API neither waits on the session's own lock nor changes any state. After a callback returned, later calls from that thread behave normally again.",
  "programs schedules", "every callback: failing, succeeding, or calling back in, from any thread (a callback that panics is excluded)",
  "Tests exercise one re-entrant callback; a lock taken or a mark left behind on another path is only seen when that path runs.",
  "bd-session/src/fixed.rs",
  [("thread-local in-callback mark set around the callback and checked before locking", "bd-session/src/fixed.rs")],
  note="Assumes callbacks return (a panicking callback leaves the mark set).")
P("C04", "The device id is generated once per store and returned as recorded",
  "The device id handed out is the one the store holds; only when the store holds none is an id generated, and then it is written to the store before it is returned. Once known, the same id is returned on every later read without touching the store.",
  "histories schedules", "every store content, every number of concurrent readers",
  "The one test reads the id twice from one thread; it cannot show atomicity of read-generate-record nor that the id written is the id returned on every path.",
  "bd-device/src/lib.rs", [("id cached and created under one lock", "bd-device/src/lib.rs Device::id")])
P("C05", "The key-value store returns what was set and never fails its caller",
  "What was set under a key is what a later read of that key yields: reading undoes exactly the encoding that writing applied. No storage or decoding failure reaches the caller: a failed write changes nothing else, and an unreadable value is removed and reported as absent; different kinds of stored state never share a key.",
  "inputs fault_sequences", "every value, key and storage failure",
  "Two tests store and read back one value each; encoding asymmetries, partial failures and key collisions need other inputs.",
  "bd-key-value/src/lib.rs bd-device/src/lib.rs bd-session/src/fixed.rs bd-session/src/activity_based.rs bd-logger/src/app_version.rs",
  [("set/get pair", "bd-key-value/src/lib.rs Store"), ("typed keys", "bd-key-value/src/lib.rs Key and its users")])
P("C06", "An app update is reported once, exactly when the version changed",
  "An app update is reported exactly when a version was recorded earlier and differs from the current one in version or build number/version code; the report names the version replaced, and the new version is then recorded so the same update is never reported again. A first-ever version is recorded without a report.",
  "inputs histories", "every pair of recorded and current version, every order of asking and reporting",
  "One test walks one sequence of versions; each component of the version and each order is a separate case.",
  "bd-logger/src/app_version.rs", [("comparison and recording", "bd-logger/src/app_version.rs Repository"), ("log emission", "bd-logger/src/app_version.rs")])
P("C07", "A log has one value per field name, and the SDK's own values win",
  "No two fields of a processed log carry the same name: of the ordered sources the first to name it wins, and out-of-the-box values from the provider and the log precede custom and global ones. For the SDK's internal log kinds provider fields can only be matched on; metadata fails only when the provider failed.",
  "inputs", "every combination of provider fields, log fields, global fields and log kind",
  "Six tests use fixed small field lists; precedence and uniqueness must hold for every overlap among five sources.",
  "bd-logger/src/metadata.rs", [("ordered merge with first-wins uniqueness", "bd-logger/src/metadata.rs MetadataCollector::normalized_metadata_with_extra_fields")])
P("C08", "A custom field never takes a name reserved for the SDK",
  "A custom field under a reserved name never enters a log's fields, and adding such a global field is refused and changes nothing, while every unreserved name is accepted. Out-of-the-box fields are never filtered.",
  "inputs", "every field name, from every custom source",
  "Tests try a few names; reservation is a predicate over all strings (exact names and prefixes) applied at every entry of a custom field.",
  "bd-logger/src/metadata.rs", [("reserved-name verification", "bd-logger/src/metadata.rs")])
P("C09", "Adding a global field replaces it; removing takes every copy away",
  "After adding a global field, the set holds exactly that value for the name, as the latest addition, and everything else unchanged and in order. After removing a name nothing of that name is left and everything else is in place.",
  "histories inputs", "every history of additions and removals",
  "Tests add and remove a handful of fields; list surgery must keep every other element for any content.",
  "bd-logger/src/metadata.rs", [("add_field/remove_field", "bd-logger/src/metadata.rs MetadataCollector")])
P("C10", "A feature flag answers with its configured typed value, else the default",
  "Reading a flag gives its configured value when it was configured with the asked type and the caller's default otherwise; a fractional flag n enables the feature for exactly n of every 10000 draws, never at 0 and always from 10000. A watched flag set gives the answers of its current snapshot, and a usable set exists even when no configuration could be loaded.",
  "inputs configurations", "every configuration, every flag name and default, every random draw",
  "Tests read a few flags; the boundaries of the fraction and the type mismatches are inputs they do not sample, and the draw is random.",
  "bd-runtime-config/src/feature_flags.rs", [("typed accessors", "bd-runtime-config/src/feature_flags.rs"), ("loader conversion", "bd-runtime-config/src/feature_flags.rs")])
P("C11", "Every reported configuration replacement is loaded and published",
  "Each reported replacement of the watched configuration leads to one load whose outcome is published to all readers; an unreadable or unparsable file is counted and published as 'no configuration' and never stops the watching. Watching starts before the first load, the first load is the first snapshot, and shutdown stops the watcher once and waits for its task.",
  "schedules fault_sequences histories", "every sequence of replacements, bad files and shutdowns (a failing watcher is excluded)",
  "Tests replace a file a few times; the missed-update window, repeated failures and double shutdown depend on schedule and fault order.",
  "bd-runtime-config/src/loader.rs", [("watch before load; reload task", "bd-runtime-config/src/loader.rs WatchedFileLoader")])
P("C12", "Shutdown is seen by every component and waits for all of them",
  "Requesting shutdown marks it for every existing and future component before waiting, and the request completes only when no component remains. A component waiting for shutdown is released immediately if it already happened and otherwise when it does; the state never goes back to running.",
  "schedules", "every interleaving of shutdown requests, component creation, waiting and dropping",
  "The crate's tests exercise one ordering; lost wake-ups and early completion are schedule dependent.",
  "bd-shutdown/src/lib.rs", [("watch channel status; closed() wait", "bd-shutdown/src/lib.rs")])
P("C13", "A completion receiver gets the value sent, or an error, never a hang",
  "A completion pair delivers exactly the value its sender was given, once; sending can neither fail nor block. If the sender goes away without sending, the receiver gets an error instead of waiting forever.",
  "schedules", "every order of sending, dropping and receiving",
  "No test covers the crate; the absence of a second sender copy and of blocking must hold for every order.",
  "bd-completion/src/lib.rs", [("oneshot pair", "bd-completion/src/lib.rs Sender, Receiver")])
P("C14", "Forced-abort panics are reported and end the process; others do not",
  "When aborting is forced, a panic anywhere is first reported and then ends the process with a failure status. Otherwise a panic is reported and does not end the process by itself.",
  "programs configurations", "every panic on any thread, in every abort mode and environment setting",
  "A test cannot observe its own process's abort; the one test covers one mode.",
  "bd-panic/src/lib.rs", [("hook chain", "bd-panic/src/lib.rs default")])
P("C15", "The CPU hint is honoured and never yields an unusable runtime",
  "A numeric CPU hint decides the number of worker threads, rounded down to whole CPUs but never below one; without a usable hint the host's count is used within its limits. The runtime always has I/O and timers, and is single-threaded exactly for one CPU.",
  "configurations inputs", "every value of the hint (absent, non-numeric, not a number, infinite, zero, fractional) and host CPU count",
  "No test sets the hint; the value comes from the environment and the result is memoised per process.",
  "bd-rt/src/lib.rs", [("num_cpus and runtime construction", "bd-rt/src/lib.rs")])
P("C16", "A rate-limited warning is let through at most once per period and place",
  "Each rate-limited log statement warns the first time it is reached and then only when more than its period has passed since the last warning let through. Deciding and remembering are one step, so concurrent callers never both pass, a suppressed warning does not extend the silence, and no two statements share a limiter.",
  "schedules histories", "every interleaving of callers and every sequence of arrival times",
  "The one test walks one sequence of times on one thread; it cannot show atomicity or that each statement has a limiter of its own.",
  "bd-log/src/rate_limit_log.rs", [("last-warning time under one lock", "bd-log/src/rate_limit_log.rs WarnTracker::should_warn"), ("one static per macro expansion", "bd-log/src/rate_limit_log.rs log_every")])
P("C17", "Swapping the log filter takes effect as a whole or not at all",
  "Replacing the log filter at runtime installs exactly the filter given in the logger that was started, and then raises or lowers the global maximum level to match it. A filter that is not accepted is reported to the caller and leaves the maximum level as it was.",
  "inputs histories", "every filter string, accepted or not, after any number of swaps",
  "The crate has no test of swapping; the order of reload and level, and the error path, are not exercised.",
  "bd-log/src/lib.rs", [("reload handle and level update", "bd-log/src/lib.rs SwapLogger")])
P("C18", "Label values are bounded: beyond the limit they become one overflow value",
  "A metric's label value never seen before is accepted only while fewer than the limit have been, and is counted when accepted; known values are always accepted and never counted again. When one value cannot be accepted every label becomes the overflow value and the overflow is counted; a labelled metric resolves its labels once, on first use.",
  "histories inputs", "every sequence of label values, every limit (two new values arriving at the same instant may both take the last place)",
  "Tests register a handful of labels against a small limit; accounting errors show only in other sequences.",
  "bd-server-stats/src/stats.rs", [("label tracker", "bd-server-stats/src/stats.rs LabelTracker::track_labels"), ("late initialisation", "bd-server-stats/src/stats.rs LateInitializedMetric::get")],
  note="The limit is not claimed exact when new values race (documented in the code). A label and a value whose joined spelling coincides with that of another pair (a_b with c, a with b_c) count as one, as the code has it.")
P("C19", "One metric per full name and label set, however often it is asked for",
  "Asking a scope for a metric returns the one already registered under that full name and label set, or registers exactly one under that name and those labels. The full name is the scope's name, a colon and the metric's name; labels are the scope's, overridden by the metric's own, and sub-scopes extend both.",
  "histories configurations", "every order of scopes, names and labels asked for, from any thread",
  "Tests ask for a few names; a mismatch between the lookup key and the registered name or labels only shows for particular combinations.",
  "bd-server-stats/src/stats.rs bd-stats-common/src/lib.rs", [("identity map per metric kind", "bd-server-stats/src/stats.rs Scope"), ("identity", "bd-stats-common/src/lib.rs Id")])
P("C20", "A metrics scrape is complete and fresh; in-flight gauges return to zero",
  "A scrape runs every registered callback before reading any metric and contains the collector's own metrics and those of every chained collector, each once, in both output forms. An in-flight gauge goes up by one when tracking starts and down by one when it ends, and the shared counter interface adds exactly what it is given.",
  "histories programs", "every set of callbacks and chained collectors, every nesting of tracked sections",
  "Tests use one collector; completeness for any number of callbacks and collectors is not sampled.",
  "bd-server-stats/src/stats.rs", [("gathering", "bd-server-stats/src/stats.rs Collector"), ("gauge guards", "bd-server-stats/src/stats.rs AutoGauge, StackAutoGauge")])
P("C21", "The client's identity metadata always carries the SDK's own values",
  "The metadata a client sends always carries its configuration version, SDK version, operating system and platform kind, whatever else was collected under those names. Every other collected entry is passed on unchanged.",
  "inputs", "every collected metadata map and platform",
  "No test covers collection; a collected entry of the same name must lose for every map.",
  "bd-metadata/src/lib.rs", [("own keys inserted last", "bd-metadata/src/lib.rs Metadata::collect")])
P("C22", "Matching sees a field by its exact name, captured fields first",
  "A matcher or workflow looking up a name in a log finds the first captured field of exactly that name when it is a string, and only otherwise a matching-only one; binary values are never visible. A log's level and type are found under their own names and hide fields of those names.",
  "inputs", "every list of captured and matching-only fields, every name",
  "Tests look up single fields; precedence under duplicate names and mixed value kinds needs other lists.",
  "bd-matcher/src/lib.rs bd-log-primitives/src/lib.rs", [("field lookup", "bd-matcher/src/lib.rs FieldProvider impls, bd-log-primitives/src/lib.rs FieldsRef")])
P("C23", "Profiling endpoints do exactly what they say and always answer",
  "Enabling, disabling and dumping act on heap profiling exactly once and as asked, each on its own endpoint. Every request is answered: with OK exactly when the action succeeded, and with the error otherwise, whatever file name was given.",
  "inputs fault_sequences", "every request parameter and every failure of the profiler",
  "No test covers the endpoints; the failing file names are inputs nobody sends.",
  "bd-profile/src/lib.rs", [("handlers and routes", "bd-profile/src/lib.rs")])
P("C24", "An activity-based session is replaced exactly after inactivity",
  "With the activity-based strategy, a read of the session id returns the known session unless its inactivity threshold has passed, or the clock is before its last activity; then a fresh id is generated, returned, remembered, recorded and announced alike. Every read counts as activity, and the previous process's id is what the store held at the first read.",
  "histories schedules", "every clock, every order of reads, session starts and flushes from any thread, with or without an earlier record in the store",
  "Tests advance a mock clock through a few orders; which clock readings, stored states and interleavings occur is up to the device.",
  "bd-session/src/activity_based.rs", [("one critical section: read, decide, replace, record, announce", "bd-session/src/activity_based.rs Strategy")],
  note="Assumes the announcing callback returns and does not call back into the strategy.")
P("C25", "A stored or streamed log carries its own values and only its captured fields",
  "Every log that is stored or streamed is encoded from one log's level, type, message, session id and time, with one entry per captured field, in order, and none of the matching-only fields. The builder is empty again before the next log, whatever the output did.",
  "inputs histories", "every log, every list of fields of every kind, every outcome of the writer, any sequence of logs through one builder",
  "Tests encode single logs; leftovers from an earlier log or a failed write, and matching fields that leak, need particular histories.",
  "bd-client-common/src/fb.rs bd-logger/src/log_replay.rs", [("the one encoder and its callers", "bd-client-common/src/fb.rs make_log; bd-logger/src/log_replay.rs ProcessingPipeline")])
P("C26", "A log is offered to every buffer it is destined for",
  "A processed log is written once, to all the buffers the buffer selector and then the workflows chose, with the ids of the flush actions it triggered. A locked or full buffer is passed over without keeping the log from the others, any other failure is reported, and a failure to stream the log to a listener does not keep it from its buffers.",
  "inputs fault_sequences", "every set of destinations and every outcome of each write",
  "Tests write to healthy buffers; which of several buffers is locked, full or failing is a matter of timing.",
  "bd-logger/src/log_replay.rs", [("writing to the destinations", "bd-logger/src/log_replay.rs ProcessingPipeline::process_log, write_to_buffers")])
P("C27", "A blocking call returns only once its log or state was handled and flushed",
  "A caller that logs or flushes in blocking mode waits exactly when its message was accepted, and is released only after the log was stored, the workflow state saved and every buffer the log was stored in, and the stats, were flushed - or that flush failed. Nobody else waits, and a refused message is an error at once.",
  "schedules fault_sequences", "every log, every outcome of the queue, the workflows and the flushes",
  "Tests wait for one log on one healthy path; an early release or a wait without an answer is a matter of the failing step.",
  "bd-logger/src/async_log_buffer.rs bd-logger/src/log_replay.rs",
  [("enqueueing", "bd-logger/src/async_log_buffer.rs enqueue_log, flush_state"), ("answering", "bd-logger/src/log_replay.rs process_log, finish_blocking_log_processing")],
  note="Assumes the flush handlers answer what they accept.")
P("C28", "Logs waiting to be processed are bounded in number and memory",
  "The queue between the callers and the processing thread refuses a message exactly when it is full by count, or when the message would take it over its memory capacity, and says which; a refused or received message gives its size back exactly once. Logs waiting for the first configuration are bounded in the same way, kept in order and given out all. The size of a message counts all the text and bytes it holds.",
  "histories schedules", "every message, every limit, every interleaving of senders and receiver",
  "Tests fill one queue from one thread; a leak in the account needs many refused messages, and an uncounted part a particular message.",
  "bd-logger/src/memory_bound.rs bd-logger/src/pre_config_buffer.rs bd-logger/src/size.rs bd-logger/src/async_log_buffer.rs",
  [("the bounded queue", "bd-logger/src/memory_bound.rs"), ("the waiting buffer", "bd-logger/src/pre_config_buffer.rs"), ("sizes", "bd-logger/src/size.rs, async_log_buffer.rs MemorySized")])
P("C29", "A log belongs to the session and time it was logged in",
  "A log is processed with the current session id and the time its metadata was collected, unless it carries an override whose expected session is the previous process's: then that session and the override's time are used, and the collected time is kept as a field. A log whose override does not match is not written. Its level, type, message, fields and waiting caller are its own, and nothing is written when its metadata cannot be collected.",
  "inputs histories", "every log, every override, every session history",
  "Tests cover one matching and one failing override; a log of the wrong session is silent.",
  "bd-logger/src/async_log_buffer.rs", [("attribution", "bd-logger/src/async_log_buffer.rs AsyncLogBuffer::process_log")])
P("C30", "Logs wait for the first configuration and are then processed first, in order",
  "A log that arrives before the first configuration is kept, or its refusal reported; the first configuration processes all kept logs, in order, before anything else is taken up, and one that fails does not stop the rest. Messages are handled one at a time to their end, each as what it is, and flushing state waits for the stats and every buffer, then records session and workflow state, and answers its caller last.",
  "schedules histories", "every order of messages and configurations, every failure of a step",
  "Tests drive one order with a mock clock; which message is ready when the configuration arrives is the scheduler's choice.",
  "bd-logger/src/async_log_buffer.rs bd-logger/src/logging_state.rs",
  [("the run loop", "bd-logger/src/async_log_buffer.rs AsyncLogBuffer::run_with_shutdown, write_log, update, maybe_replay_pre_config_buffer_logs"), ("the switch of states", "bd-logger/src/logging_state.rs")])
P("C31", "Cached runtime values survive a restart but cannot cause a crash loop",
  "The runtime values cached on disk are applied at startup only after the attempt was counted on disk, and only if fewer than six attempts were counted before; otherwise, and after any failure, the cache is wiped. An update received replaces all values and tells exactly the watches whose value changed, in one step, and is then cached with its count at 0; being marked safe resets the count once. A read or watch of a flag gives the value under its own name, or its default if there is none.",
  "histories crash_points inputs", "every content of the cache directory, every failing file operation, every crash between two steps, every order of updates and registrations",
  "Tests start from a few prepared directories; the guard matters exactly when the process dies in between.",
  "bd-runtime/src/runtime.rs", [("the cache and its guard", "bd-runtime/src/runtime.rs ConfigLoader"), ("reads and watches", "bd-runtime/src/runtime.rs Snapshot, register_watch, feature_flag!")],
  note="Assumes a file write that succeeded is seen by the next process (no fsync is claimed).")
P("C32", "A log that triggers a flush is uploaded with it",
  "Every flush action a log triggers is named and starts exactly if some existing trigger buffer is to be flushed and the action is neither being negotiated nor streaming. A log that triggers flushes and was stored neither in a continuous buffer nor in one being flushed is copied, with its message, captured fields, session, time and the action ids, to a buffer being flushed; otherwise no copy is made. An action's buffers are the existing ones it names (all trigger buffers, or the first continuous one, if it names none).",
  "inputs histories", "every set of buffers and actions, every state of earlier actions, every place the log was stored",
  "Tests check a handful of buffer layouts; which buffers a log ended up in depends on filters, streaming and overwriting at run time.",
  "bd-logger/src/log_replay.rs bd-workflows/src/actions_flush_buffers.rs", [("the copy", "bd-logger/src/log_replay.rs ProcessingPipeline::process_flush_buffers_actions"), ("the actions", "bd-workflows/src/actions_flush_buffers.rs Resolver::process_flush_buffer_actions, PendingFlushBuffersAction::new, StreamingBuffersAction::new")])
P("C33", "Flush actions are negotiated once and flush once at a time",
  "A new flush action becomes pending and is handed to negotiation, and so is every one still pending from before at startup. Negotiation answers each action once, retrying the same request until it gets a response: approved if the upload was granted, otherwise rejected, and an action once dropped is not asked for again. An answered action stops being pending whatever a configuration update made of it meanwhile; an approved one flushes its buffers unless a flush of its own is still going on, and streams from zero logs if it is to.",
  "histories schedules", "every order of triggers, responses, stream losses, restarts and configuration updates",
  "Tests drive one negotiation at a time with canned responses; what an update or a lost stream does in between is a matter of schedule.",
  "bd-workflows/src/actions_flush_buffers.rs bd-workflows/src/engine.rs", [("negotiation", "bd-workflows/src/actions_flush_buffers.rs Negotiator"), ("its outcome", "bd-workflows/src/engine.rs WorkflowsEngine::run_once, on_log_upload_approved, process_log, start")],
  note="That a full negotiation channel loses an action until the next start is not claimed.")
P("C34", "While an action streams, logs for its buffers go to its destinations",
  "A log destined for a buffer that is being streamed goes to all destinations of that streaming, counts for it once, and no longer goes to the streamed buffer; its other existing destinations are kept. Streaming ends exactly when the flush that started it has completed and it streamed its number of logs or the session changed, which is looked at before the log is routed. After a configuration change actions name only existing buffers and go away when none is left.",
  "histories inputs", "every set of streaming actions and destinations, every order of flush completion, session change and logs",
  "Tests stream one action at a time; overlapping actions and the moment a flush completes are not enumerated.",
  "bd-workflows/src/actions_flush_buffers.rs bd-workflows/src/engine.rs", [("routing", "bd-workflows/src/actions_flush_buffers.rs Resolver::process_streaming_actions"), ("configuration changes", "Resolver::standardize_pending_actions, standardize_streaming_buffers, engine.rs update")])
P("C35", "Workflow state follows the session and survives restarts and updates",
  "A log of another session ends every run under way, and marks that to be saved, before any workflow sees it; logs of the same session end nothing. Progress of a workflow that left its first state is marked to be saved, and so is every change of what is pending or streaming; what is marked is written whole to disk unless it was written successfully less than the interval ago, and stays marked until a save was attempted. At startup saved state that cannot be read is removed, and otherwise every configured workflow resumes with the saved runs of its id, in the saved session. A configuration update ends exactly the workflows that are gone or changed, and starts exactly the new ones.",
  "histories crash-points", "every order of logs, sessions, saves, failures to save, restarts and configuration updates",
  "Tests save and restore a few hand-made histories; a skipped save, a failed write or an update between them is one of very many.",
  "bd-workflows/src/engine.rs", [("sessions", "bd-workflows/src/engine.rs WorkflowsEngine::process_log"), ("saving", "bd-workflows/src/engine.rs WorkflowsEngine::maybe_persist, StateStore"), ("start and update", "bd-workflows/src/engine.rs WorkflowsEngine::start, update")],
  note="A save that fails is not repeated until something else changes: the code says so, and it is not claimed otherwise. That saved runs fit a configuration that changed between two processes is not claimed.")
P("C36", "Workflow runs advance exactly on the logs they wait for, within their limits",
  "Every traversal of every run of every workflow sees a log once (save the waiting run of an exclusive workflow whose active run took it). A transition is followed exactly when the log is the last of those it waits for; then its actions are triggered and its target becomes the next state, unless final. A run ends when no traversal is left, when it matched more logs than allowed, lasted too long or exceeds the number of traversals, and in the latter cases triggers nothing. An exclusive workflow has at most one active run and one that waits. The number of traversals the limit is held against is the number there are.",
  "histories inputs", "every workflow configuration, every sequence of logs, all limits, sessions and updates",
  "Tests run hand-made workflows with few states; forks, limits hit amid a fork, resets and their sum in a shared count multiply beyond enumeration.",
  "bd-workflows/src/workflow.rs bd-workflows/src/engine.rs", [("traversals", "bd-workflows/src/workflow.rs Traversal::process_log, Run::process_log"), ("runs", "bd-workflows/src/workflow.rs Workflow::process_log, maybe_add_run, needs_new_run"), ("the count", "bd-workflows/src/engine.rs add_workflow, remove_workflow, clean_state")],
  note="What log matching itself decides is not part of this property; timeouts of transitions are not implemented in the code.")
P("C37", "A killed client opens no connection, for as long as it was told",
  "A client that is killed opens no stream and sends nothing until the process restarts: it only waits for the shutdown. It is killed when the server refuses to authenticate it, when the cached configuration says so, or when the kill file of an earlier process is for this API key and its time has not passed. Being killed takes effect before its record is written, even if writing fails, and the record lasts the configured time. A kill file that has expired or belongs to another API key is removed and kills nobody.",
  "histories crash_points", "every content of the kill file and of the cached configuration, every outcome of reading and writing the file, every sequence of connection rounds",
  "Tests run a few start-ups and one refusal; that no round of the connection loop uses the network without asking the mark, and that the mark is never unset, are facts about every path.",
  "bd-api/src/api.rs",
  [("kill file", "bd-api/src/api.rs Api::maybe_kill_client, write_kill_file, read_kill_file, hash_api_key"), ("mark checked every round", "bd-api/src/api.rs Api::maintain_active_stream")],
  note="What the cached runtime says is C31; the clock is taken as told.")
P("C38", "A stream is used only after its handshake, and reconnects are paced",
  "The first thing sent on a stream is the handshake, and until the server's handshake arrives nothing else is sent, handled or announced on it. A refusal to authenticate is told apart from other errors, any other first response is an error, and what arrived together with the handshake is handled before any configuration pipeline is told that the handshake is complete; then each is told once. The next handshake gives the reason the last stream ended. After losing a stream the client waits as the backoff says, unless the stream had lived longer than a minute.",
  "histories schedules", "every order of stream events, responses, uploads and shutdown over any number of reconnects",
  "Tests script a few event orders; that every round of the loop keeps this order cannot be sampled.",
  "bd-api/src/api.rs",
  [("waiting for the handshake", "bd-api/src/api.rs Api::wait_for_handshake"), ("rounds of the loop", "bd-api/src/api.rs Api::maintain_active_stream, do_reconnect_backoff")],
  note="The backoff's own intervals are the backoff crate's.")
P("C39", "Every upload gets the answer the server gave for it",
  "Every upload and upload intent is remembered under the id of the request it sends, before it is sent. An answer goes to the one that asked under its id, which then awaits nothing more; an upload succeeded exactly if the server gave no error, and an intent the server gave no decision for is dropped. An answer nobody asked for is an error that ends the task. A new stream awaits no answers of an old one. Requests to flush name just the buffers the server named, and other messages are offered to every configuration pipeline, whose answers are sent.",
  "histories schedules", "every kind of request and answer, in every order, over any number of streams",
  "Tests answer a few uploads; the mapping has to hold for every kind of message, including the ones no test sends.",
  "bd-api/src/api.rs bd-api/src/upload.rs bd-api/src/payload_conversion.rs bd-logger/src/service.rs bd-client-stats/src/stats.rs bd-workflows/src/sankey_diagram.rs bd-workflows/src/actions_flush_buffers.rs",
  [("tracking and settling", "bd-api/src/upload.rs StateTracker"), ("answers by kind", "bd-api/src/api.rs Api::handle_responses"), ("requests by kind", "bd-api/src/api.rs StreamState::handle_data_upload"), ("same id in request and record", "callers of Tracked::new")],
  note="Ids are random UUIDs and taken to differ.")
P("C40", "The network is called online only while connected; pings come as asked",
  "Before each attempt to connect the network quality is offline exactly if no handshake completed since a first attempt made longer than the grace period ago, and unknown otherwise; it becomes online only when a handshake is complete. A ping is sent one interval after the handshake or the last pong, where the interval is the one the server gave with the handshake; without one there are no pings, and none is repeated before it was answered.",
  "histories schedules", "every sequence of connection attempts, losses, pings and pongs, with any timing",
  "Tests use a paused clock and one or two losses.",
  "bd-api/src/api.rs",
  [("network quality per round", "bd-api/src/api.rs Api::maintain_active_stream"), ("ping deadline", "bd-api/src/api.rs StreamState::initialize_stream_settings, maybe_schedule_ping")])

P("C41", "A log matcher answers exactly what its configuration says",
  "For every log and every matcher that could be built: or is true iff some part is, and iff every part is, not iff its part is not, all parts seeing the same log; a comparison with a value the log does not have, or that is not a number where one is asked for, is false, otherwise it is the comparison of that value by exactly the configured operator (numbers as numbers, texts as texts, patterns as patterns); versions compare segment by segment, missing segments as zero, both-numeric segments as numbers and all others as texts, and whatever follows - or + does not count. A matcher is built only from a complete configuration: a missing part, an unknown or unspecified operator (for texts and versions) or a broken pattern is an error.",
  "inputs", "every matcher tree, operator, value and log",
  "Tests try a few values per operator; a wrong strictness, a swapped operand, a defaulted absent value or a dropped part shows only for particular values.",
  "bd-log-matcher/src/matcher.rs bd-log-matcher/src/version.rs bd-matcher/src/matcher.rs",
  [("tree and leaf evaluation", "bd-log-matcher/src/matcher.rs Tree::do_match, IntMatch, StringMatch, InputType; bd-matcher/src/matcher.rs Tree, Str, Integer"), ("construction", "Tree::new, Leaf::new, IntMatch::new, StringMatch::new, VersionMatch::new"), ("version order", "bd-log-matcher/src/version.rs Version::new, Version::cmp, VersionSegment::cmp, SimpleComparator")],
  note="What str::parse, Regex and the string order of std answer is taken as given. IntMatch accepts OPERATOR_UNSPECIFIED (and then never matches): not claimed either way. A version's segments are texts when u32 cannot hold them.")

P("C42", "Filters change exactly the logs they match, a log goes to the buffers it matches",
  "Each filter of the chain is asked about the log as the filters before it left it; a filter that matches applies all its transforms in order, one that does not changes nothing. Capturing moves the field of that name from the matching fields to the captured ones; setting replaces any field of that name in its list, keeps an existing field (in either list) unless overriding is allowed, and does nothing when the field to copy does not exist; removing removes from both lists; rewriting replaces the pattern in the first field of that name if it is text. No transform leaves two fields of the name it sets, and none touches the message, level or type. A filter that cannot be built is left out and counted while the others stay. The buffers selected for a log are exactly those with some matching filter, and an unusable buffer filter makes the configuration an error.",
  "inputs histories", "every chain of filters, log and buffer configuration",
  "Tests use one or two filters and fields; a stale copy of the log, a filter that stops the chain or a field left behind needs particular combinations.",
  "bd-log-filter/src/lib.rs bd-matcher/src/buffer_selector.rs",
  [("filter chain", "bd-log-filter/src/lib.rs FilterChain::new, process, Filter::new"), ("transforms", "bd-log-filter/src/lib.rs Transform::apply and the four transforms, Log's FieldProvider"), ("buffer selection", "bd-matcher/src/buffer_selector.rs BufferSelector::new, buffers")])

P("C43", "A configuration update is applied whole and remembered, or refused and told so",
  "An update is applied with every one of its parts, each for its purpose; only then is it written to the file, as it was received, and its version remembered, so that streams are opened with the version last applied. An update that could not be applied changes neither file nor version, and a buffer filter that cannot be used is found before the buffers are changed. Every update is answered: without a complaint if it was applied, else with one that names its version and the reason. The file is removed as soon as it was read and before its content is used, then handled like an update. The logger gets buffers as they are after the update, everything at once. A stream to tail whose condition cannot be used is left out and counted, the others stay, and a log is streamed in one record to exactly the streams without a condition or whose condition it meets.",
  "inputs histories crash-points", "every update, in every order, with any part unusable, and a stop at any point",
  "Tests apply a few valid updates and one invalid; a part half applied or a version remembered too early shows only when a particular step fails.",
  "bd-logger/src/client_config.rs bd-logger/src/logging_state.rs",
  [("handling an update", "bd-logger/src/client_config.rs Config::process_configuration_update, try_load_persisted_config_helper"), ("answers and handshake", "bd-logger/src/client_config.rs Config::try_apply_config, partial_handshake"), ("applying", "bd-logger/src/client_config.rs LoggerUpdate::apply_configuration, logging_state.rs BufferProducers::new"), ("tailing", "bd-logger/src/client_config.rs TailConfigurations::new, maybe_stream_log")],
  note="What is last_applied in the answer to a refused update (the refused version) is not claimed. That a producer can be made for every buffer is up to the buffers.")

P("C44", "What is counted on the client is neither lost nor counted twice",
  "A value given to a counter or histogram is in its metric exactly once, however the histogram keeps its values; taking what was counted leaves nothing behind and hands out exactly what was there, with no moment in which a value is lost or seen twice. Merging adds every value of the one to the other once, and what is written out is read back as the same. The same name and labels give the same metric while it is kept, under its scope's name; a new one is refused only at the limit, or when the name is of another kind. A metric is dropped only if nobody else had a hold of it before what it counted was taken, and nothing was there. A flush takes every metric, fixed and dynamic, once.",
  "inputs histories schedules", "every value, every number of threads that count during a flush, and any sequence of flushes and merges",
  "Tests count on one thread between flushes. A value that arrives within a flush, or at the histogram's switch to a sketch, is lost only in a schedule nobody scripts.",
  "bd-client-stats-store/src/lib.rs bd-client-stats/src/lib.rs bd-client-stats/src/stats.rs",
  [("counting, taking, merging", "bd-client-stats-store/src/lib.rs Histogram, Counter, MetricData"), ("metrics by name", "bd-client-stats-store/src/lib.rs BoundedScope, Scope"), ("dropping", "bd-client-stats-store/src/lib.rs BoundedCollector::retain, bd-client-stats/src/stats.rs Flusher::snap_collector_to_snapshot"), ("dynamic metrics", "bd-client-stats/src/lib.rs DynamicStats")],
  note="The sketch crate itself is trusted. A metric of the same name and labels among both the fixed and the dynamic metrics is not claimed.")
P("C45", "Counted data is stored, uploaded and only then removed, each window once",
  "What a flush took is merged into the newest file that still takes data, each metric by name, kind and labels; everything there stays, and the file's window ends with this flush. A window that is full is closed, and files beyond the maximum go, the oldest first. The upload reads the oldest file, closing it first if it is old enough, so that nothing is added to what was sent; only one upload is under way, and only if it succeeded is its file removed, by its id, and then out of the index. The index on disk is written after each of its changes, a file is never named there after it was removed for good, and one whose content cannot be read or is missing is passed over. An index that cannot be read starts over with an empty directory.",
  "inputs histories crash-points", "every sequence of flushes, uploads and answers, any state of the files found, and a stop between any two steps",
  "Tests go through a handful of flush and upload orders with intact files.",
  "bd-client-stats/src/file_manager.rs bd-client-stats/src/stats.rs",
  [("files and index", "bd-client-stats/src/file_manager.rs FileManager"), ("merging", "bd-client-stats/src/stats.rs Flusher::merge_delta_snapshot_to_disk, SnapshotHelper"), ("uploading", "bd-client-stats/src/stats.rs Flusher::process_pending_upload_completion and callers")],
  note="What a flush took is lost if its file cannot be written, as the code documents. A failure to write the index followed by a crash is not claimed.")
P("C46", "A ring buffer hands out each committed record once, in order, and whole",
  "A place is handed out only if it fits, and touches neither what is being read nor what is reserved; records in its way are given up one by one, oldest first, only where overwriting is allowed, and otherwise the writer is refused or waits. A record becomes readable when it and all reserved before it are committed, in the order of reservation, whatever the order of the commits; its size and its bytes are where the reader looks for them, across any wrap. A read returns the next record and keeps it from being overwritten until it is finished; with a cursor every record read is kept, and they are finished oldest first, each passing also the damaged ones before it. Whoever waits for data, for space, for a reader or for everything to be read is woken by what it waits for, and whoever waits for data or space also by a shutdown. A record whose size cannot be right gives up everything, memory included, once nobody reads or writes.",
  "inputs histories schedules", "every sequence of reservations, commits and reads of any size, by any number of threads, at any fill and wrap",
  "The tests' sequences reach a few positions; an off-by-one at a wrap or a missed wake-up needs particular sizes or schedules.",
  "bd-buffer/src/buffer/common_ring_buffer.rs bd-buffer/src/buffer/volatile_ring_buffer.rs bd-buffer/src/buffer/non_volatile_ring_buffer.rs",
  [("positions", "bd-buffer/src/buffer/common_ring_buffer.rs LockedData"), ("producers and consumers", "volatile_ring_buffer.rs and non_volatile_ring_buffer.rs ProducerImpl, ConsumerImpl, CursorConsumerImpl"), ("shutdown, locking, waiting", "LockedData::shutdown_common, wait_for_drain, lock_common, CommonLockHandleImpl")],
  note="The rules are about each step under the lock; that the steps together keep the positions consistent for every history follows from them by hand, not by the machine. A consumer or producer that is dropped with something outstanding, and a drain whose last record is overwritten, are not claimed.")
P("C47", "A damaged buffer file is noticed, and no damaged record returned",
  "The checksum in the file's header covers all its positions and is that of what they are whenever the lock is given back; a file is used only if it has the size asked for, its version and size are right and its positions have their checksum, nobody else has it open, and otherwise it is told to be lost, or, if of another size, made anew. A record is committed with a checksum of everything behind it, and returned only if it still has it; a damaged one is counted and passed, and the next is tried. Without a cursor the checksum of what was read is wiped, so that it is not read again should the position be wrong.",
  "inputs histories crash-points", "every content of the file found, every change to it, and every sequence of operations before the process ends",
  "The tests damage five particular bytes.",
  "bd-buffer/src/buffer/non_volatile_ring_buffer.rs bd-buffer/src/buffer/common_ring_buffer.rs",
  [("checksums", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs compute_header_crc_32, do_crc32, per_record_crc32, write_header_crc32"), ("opening", "RingBufferImpl::new"), ("reading and committing", "common_consumer_start_read, ProducerImpl::commit, LockedData::zero_extra_data")],
  note="Within one change the header is briefly without its checksum: a process that ends just then finds its file to be lost, as the code accepts. Two contents with one CRC-32 are not told apart.")
P("C48", "What is written to a two-level buffer reaches its file, in order and whole",
  "The flush thread takes each record from memory, reserves its size in the file, waiting if it must, copies it whole and commits, and only then gives its place in memory back, so that a flush that returned means it is in the file; a record is dropped only if the file is being reset or can never take it, and the thread ends only on shutdown. A buffer whose file is smaller than its memory is refused. Shutting down keeps new writes out, waits for those under way, has memory flushed where overwriting is allowed, and then stops the thread and both parts, once; dropping the buffer waits for the thread. Writers use the memory, readers the file.",
  "inputs histories schedules", "every sequence of records of any size, any state of the file, and any moment at which it is flushed, locked or shut down",
  "The tests stop the thread at a few synchronisation points; what it does on each refusal, and in which order, shows only in a particular fill or schedule.",
  "bd-buffer/src/buffer/aggregate_ring_buffer.rs",
  [("the flush thread", "bd-buffer/src/buffer/aggregate_ring_buffer.rs SharedData::flush_thread_func"), ("making", "RingBufferImpl::new"), ("the rest", "RingBufferImpl's RingBuffer and Drop")],
  note="With overwriting not allowed, what is in memory at shutdown is not flushed, as the code says.")
P("C49", "The buffers are those of the configuration, and a flush asked for is done",
  "An update keeps each buffer it names that is there, makes the others with the configured sizes and type in a file named by their id, and replaces the set only when nothing can fail any more; a refused one changes and tells nothing. Buffers that went are told, and their file goes with the last user; those that came are told by their type; the stream buffer is there exactly while streaming; the update ends when all was taken up, which dropping an event always says. A flush is done for each buffer named, or all, also if some are gone, and then told complete. A damaged file is deleted and made again once. Who reads a whole buffer has writers kept out and memory flushed before.",
  "inputs histories", "every sequence of configurations, flush requests and failures to make a buffer",
  "The tests update a few times with one or two buffers and no failures, and never flush a buffer that is gone.",
  "bd-buffer/src/ring_buffer.rs",
  [("updates", "bd-buffer/src/ring_buffer.rs Manager::update_from_config and what it calls, BufferEventWithResponse"), ("flushes", "Manager::process_flushes"), ("one buffer", "RingBuffer, Consumer, CursorConsumer")],
  note="Files that a refused update made are left behind, and a configuration that names one id twice is not claimed (both are notes in the code).")

P("C50", "An upload is let through at the rate, retried as configured, and answered",
  "A request is let through while something is left of the bytes of the current period, and takes its own from them; whoever comes when nothing is left waits until the next period begins and asks again, and all clones of the limit share one state. An upload goes out with its own payload and is tried again as often as the current configuration says, after growing waits, unless it is told to stop; it is answered with what became of its last attempt, also when the limit is lowered while it is retried, and counts as given up only if that attempt failed. An upload that was sent is answered with what the peer said, or as failed if no answer comes.",
  "inputs schedules", "every sequence of requests, sizes, configuration changes and answers",
  "The tests use one size, one configuration and one schedule.",
  "bd-logger/src/service.rs bd-logger/src/ratelimit.rs",
  [("rate", "bd-logger/src/ratelimit.rs RateLimit"), ("again and sent", "bd-logger/src/service.rs RetryPolicy, Uploader, new")],
  note="The retries of a request do not take from the rate again: what is limited is what is newly sent.")

P("C51", "What is read from a buffer is uploaded once, in order, and only then given up",
  "The logs read from a buffer go into batches in the order of the buffer, each log once; a batch is sent as soon as it reaches one of the two limits, and otherwise at its deadline, which runs from the first log of the batch. A continuous buffer is advanced by exactly the logs of a batch after that batch was answered. A flush of a whole buffer reads until nothing is left, leaves out only logs older than the lookback, counts those, sends the rest in batches, the last one also if it is not full, and ends. A streamed buffer sends what has come together at once.",
  "inputs histories", "every sequence of records, limits, deadlines and answers",
  "The tests use a handful of records and limits.",
  "bd-logger/src/consumer.rs",
  [("read on", "bd-logger/src/consumer.rs ContinuousBufferUploader::consume_continuous_logs, CompleteBufferUpload::run, StreamedBufferUpload::start"), ("given up, at once", "flush_current_batch, BatchBuilder")],
  note="A log with a time outside the range of dates panics in the lookback comparison, and a read error other than an empty buffer loses the batch not yet sent; neither is claimed.")

P("C52", "Each buffer has its uploader, and whoever asks for a flush is told its end",
  "A continuous or streamed buffer is read by one task from when it comes until it goes; a trigger buffer is known for flushes for as long as it is there. A flush asked for a buffer that is known and not being flushed is done by one task, and that buffer counts as being flushed from before the task begins until it ended, however it ended; others are left out. Whoever asked is told when all flushes it asked for have ended, also if there are none. Each change is acknowledged, and requests and changes are taken in turn until shutdown.",
  "schedules histories", "every sequence of changes to the set of buffers and of requests for flushes, and every ending of a flush",
  "The tests flush one or two buffers that are there and end well.",
  "bd-logger/src/consumer.rs",
  [("asked, told", "bd-logger/src/consumer.rs BufferUploadManager::handle_trigger_uploads"), ("known, turn", "BufferUploadManager::handle_buffer_update, run")])

P("C53", "A message sent is one whole frame, and the frames read are those that came",
  "An encoded message is one frame that says its exact length and whether it is compressed; a message is compressed only above the size set, and sent as it is when compressing failed. However the bytes are cut into pieces, decoding gives the messages of the frames in order, each from its own bytes, and keeps the rest. A compressed message is decompressed alone and whole; a decompressor that failed is not used again. Sizes are counted once, before and after compressing.",
  "inputs histories", "every message, every cutting of the incoming bytes, every failure of the compressor",
  "The tests encode and decode a few messages, cut in a few ways.",
  "bd-grpc-codec/src",
  [("plain, packed, encode, counted", "bd-grpc-codec/src/lib.rs Encoder, Compressor"), ("frames, unpacked", "Decoder, Decompressor")],
  note="The thread's own compressor is kept after a failed write; writing to memory cannot fail. After an error in decoding the stream ends, and nothing is claimed about decoding further.")

P("C54", "A message is accepted exactly when it obeys the rules it is annotated with",
  "Each rule set for a field is applied to that field's value and refuses the message when it is broken, and only then; a length is one of characters. A rule that is not supported is refused wherever it is set. A message is accepted only when each oneof and message that must be there is there, and each message within it, alone, repeated or in a map, obeys its own rules.",
  "inputs", "every annotation and every value",
  "The tests try some values for some of the rules.",
  "bd-pgv/src",
  [("values, unsupported, rules", "bd-pgv/src/proto_validate.rs validate_*"), ("walk", "bd-pgv/src/proto_validate.rs validate")],
  note="Strict and ignore_empty for strings and skip for messages are neither supported nor refused; this is not claimed.")

P("C55", "The platform's listeners are started, stopped and asked exactly as configured",
  "The events listener is started whenever it is turned on and stopped when it is turned off after an earlier change. A resource report and a screen are asked for at each tick of their interval while they are on, and at no other time; changes of flags and intervals take effect when they come. A screenshot is taken only if screenshots are on and the one before came back; others are counted and left out, and asking for one never waits. All of them end with the shutdown alone.",
  "schedules histories", "every order of ticks, changes, requests and answers",
  "The tests go through a few orders.",
  "bd-events/src, bd-resource-utilization/src, bd-session-replay/src",
  [("events", "bd-events/src/lib.rs Listener"), ("reports", "bd-resource-utilization/src/lib.rs Reporter"), ("screens, screenshots", "bd-session-replay/src/lib.rs Recorder, CaptureScreenshotHandler, ScreenshotLogInterceptor")],
  note="A configured interval of zero panics in tokio, and a change of the replay interval between the two reads at creation waits for the next change; neither is claimed.")

P("C56", "A network stream hands everything on once, and its end never ends the network",
  "Each stream asked for is opened with the headers given and is closed, and told so, when it is refused. While it is open, what is sent goes out and what comes is handed on, each once, in order and as it is. Its end is told to its own receiver; data left from an earlier stream is dropped; a stream asked for while another is open is the next. The network goes on until shutdown or until nobody can ask it.",
  "schedules histories", "every order of requests, data, answers, ends and shutdown",
  "The only test connects once.",
  "bd-hyper-network/src, bd-noop-network/src",
  [("streams, opened, passed, asked", "bd-hyper-network/src/lib.rs HyperNetwork::start, process_stream, Handle"), ("noop", "bd-noop-network/src/lib.rs")],
  note="hyper itself is trusted; connecting is not interrupted by a shutdown (a TODO in the code), and using the handle after the network has ended panics; neither is claimed.")

P("C57", "Unexpected errors are reported up to the bound, then counted, and never loop",
  "While reports are left an error is reported once, with its description and text, to the thread's reporter or else to the one set, and one fewer is left; beyond that it is only counted. What went well is passed on without a report, and of what did not the value given to go on with is used. A reporter put in place for a while is gone after it. A report carries the session's id and each of the metadata; nothing the session's id comes from reports errors itself.",
  "inputs histories", "every outcome, every number of errors, every set of metadata",
  "The tests report a few errors.",
  "bd-client-common/src/error.rs",
  [("bounded, goes on, override, fields", "bd-client-common/src/error.rs UnexpectedErrorHandler, handle_*, MetadataErrorReporter"), ("no cycle", "bd-session/src, bd-key-value/src")],
  note="A panic of what is run with a reporter in place leaves that reporter in place; a reporter of the platform that reports an error itself would wait for ever; neither is claimed.")

P("C58", "Times and lengths of time keep their value, and rounding goes the way it says",
  "Rounding a time down gives the last multiple of the interval not after it, rounding up the first not before it, to the nanosecond and before the epoch too. A time or a length of time turned into another of its forms is the same one as far as that form can say it; a negative one is refused where that is promised. What waits, ticks or ends after a length of time does so after exactly that; a staggered start is within the first interval.",
  "inputs", "every time and every length of time",
  "The tests round a few whole seconds.",
  "bd-time/src",
  [("rounding, conversions", "bd-time/src/lib.rs OffsetDateTimeExt, TimestampExt, ProtoDurationExt, ToProtoDuration"), ("waits", "bd-time/src/lib.rs TimeDurationExt")],
  note="An interval below a second and an instant outside the calendar panic; a negative length is waited for as its absolute value; neither is claimed.")

P("C59", "What workflows trigger is carried out, each metric once with its tags and value",
  "Every workflow sees every log with its own configuration, and of what they trigger each flush, metric, sankey path and screenshot is acted on, whatever the others do. A metric is recorded exactly once, under its kind's name, with the number given or read from the log; only one whose number cannot be read is left out, alone. Its tags are the action's own: fixed ones, and those the log has a value for, and then the action's id.",
  "inputs histories", "every log, every set of workflows and actions",
  "The tests trigger a few actions one at a time.",
  "bd-workflows/src/metrics.rs, bd-workflows/src/engine.rs",
  [("tags, once", "bd-workflows/src/metrics.rs MetricsCollector"), ("all workflows, routed", "bd-workflows/src/engine.rs WorkflowsEngine::process_log, prepare_actions")],
  note="A sankey path that does not fit the processor's queue is dropped, as the code says; it is still counted.")

P("C60", "A sankey path is uploaded once if wanted, and again only if that failed",
  "A path not among the last hundred settled is asked about once; if it is wanted it is uploaded once, with its diagram's and its own id and its nodes in order. A path the server refused by decision, or whose upload it took, is settled and becomes the newest remembered; one that failed anywhere is not and may be tried again. A path seen again becomes the newest, and the oldest of more than a hundred is forgotten. Each path is counted as started and as what became of it.",
  "histories faults", "every sequence of paths, decisions, answers and failures",
  "No test of the existing suite has the server refuse an upload.",
  "bd-workflows/src/sankey_diagram.rs",
  [("asked, uploaded, remembered, counted", "bd-workflows/src/sankey_diagram.rs Processor::process_sankey, ProcessedIntents"), ("every one", "bd-workflows/src/sankey_diagram.rs Processor::run")])

P("C61", "A gRPC call says what it is, hands on whole messages, and ends as its status",
  "A client is made only for a plain scheme and authority. A request waits for a permit, is posted as gRPC to its method's own path with the given headers, compressed as they say; a unary call gives up when its time is out and returns the one message of a successful response. A stream hands on the messages of each frame whole and in order, valid where that is asked for, takes none while reading is stopped, and ends without an error exactly when its body ends or its trailers say 0 or nothing; any other status is the error with its message. Codes and their numbers match both ways, what is sent counts and goes out as one frame, and any status can be written, whatever its message.",
  "inputs schedules faults", "every request, response, frame, status and message, and every order of frames and stops",
  "The tests run a few calls against one server; none has a message that is not a header, a cut-off frame or an empty list.",
  "bd-grpc/src/lib.rs",
  [("code, status, error", "bd-grpc/src/lib.rs Code, Status, Error::into_response"), ("address, request, unary, opened", "bd-grpc/src/lib.rs Client"), ("paused, frames, ends, compressed", "bd-grpc/src/lib.rs ServerStreamingApi, finalize_response_compression"), ("sent", "bd-grpc/src/lib.rs StreamingApiSender")],
  note="The time of a unary call does not cover reading the body, and its trailers are not looked at: as the code has it, not claimed. A read stop whose sender is gone makes a stream spin; no caller drops it.")

P("C62", "A gRPC server answers each request once, and lets its connections finish",
  "A request is read as its headers say and is exactly one message, valid where that is asked for, or an error of the caller's. A unary request is handled once with its own headers and message and answered with that response and status 0, or with the error, which the error handler is told and the counter counts. A streaming request is counted as started and as how it ended, once, and its handler's end is sent as its status after everything it sent. Every connection is counted and served until it is over; at the shutdown each is told to finish, once, and none is left when serving returns.",
  "inputs schedules faults", "every request, every handler's outcome, every order of connections and shutdown",
  "The tests have one request at a time and never shut a server down under a connection.",
  "bd-grpc/src/lib.rs, bd-grpc/src/axum_helper.rs",
  [("request read", "bd-grpc/src/lib.rs decode_request"), ("answered", "bd-grpc/src/lib.rs unary_handler, make_unary_router"), ("streamed", "bd-grpc/src/lib.rs server_streaming_handler, make_server_streaming_router"), ("accepted, drained", "bd-grpc/src/axum_helper.rs serve_with_connect_info_ex")])

P("C63", "What the SDK measures of traffic, offline time and logs is what there was",
  "Each kind of bytes an HTTP response log tells of is added to that kind of the newest sample, and a number that cannot be read adds nothing; one with a status code says the network is there. A resource log starts a new sample and, once samples have aged over a minute and were let go, carries the sums of the others under their own names, and otherwise none. A log made while the network is known to be gone carries the offline mark, and no other. Every log is counted once, and once in its own type; the internal report tells each count under its own name, in resource logs only and only where that is on, and starts the ones since the last report anew.",
  "histories inputs", "every sequence of logs, network states and readings of the clock",
  "The tests log a few responses and look at a few of the fields.",
  "bd-logger/src/network.rs, bd-logger/src/internal_report.rs, bd-network-quality/src/lib.rs",
  [("response, minute, number", "bd-logger/src/network.rs HTTPTrafficDataUsageTracker"), ("offline, known", "bd-logger/src/network.rs NetworkQualityInterceptor; bd-network-quality/src/lib.rs SimpleNetworkQualityProvider"), ("counted, told", "bd-logger/src/internal_report.rs Reporter")],
  note="That the changed copy of the samples is written back is not decided: the analysis does not tell the copy from the guarded list. Sums are taken not to overflow.")

P("C64", "A log given to the logger reaches its queue whole, and the logger runs all parts",
  "What is logged goes to the queue with the level, type, message, fields and session it was given, blocking only where that was asked for, and is counted as taken, full or closed as it was; a log made from inside a log call on the same thread is refused and no other is. Lifecycle, resource and replay logs carry their own level, type and fields. After a shutdown nothing is running. A logger is built of the given parts, each given what it reads, or not at all; the run loop runs the API, uploads, the log buffer, and flushes, and with mobile features the periodic ones. A log passes the report, traffic, network and replay interceptors.",
  "inputs schedules", "every call, every way of building a logger",
  "The tests build one logger and log a few lines.",
  "bd-logger/src/logger.rs, bd-logger/src/builder.rs, bd-logger/src/internal.rs",
  [("guarded, handed, asked", "bd-logger/src/logger.rs LoggerHandle"), ("internal", "bd-logger/src/internal.rs InternalLogger"), ("stopped", "bd-logger/src/logger.rs Logger::shutdown"), ("wired, running, refused", "bd-logger/src/builder.rs LoggerBuilder::build, build_dedicated_thread"), ("interceptors", "bd-logger/src/async_log_buffer.rs AsyncLogBuffer::new")])
P("C65", "A message's hash follows from its content alone, and all of it takes part",
  "Two wrapped messages are equal exactly if the messages are, and equal messages hash alike: the hash is made of the fields in declared order, a map's entries in the order of their keys whatever the table's order. Every set optional field adds its number and whole value, every list its length and elements in order, every map its keys and values; numbers add their little-endian bytes, text and bytes their content, nested messages their own hash; unset fields add nothing. The printable hash is the base64 of the SHA-256 of just that.",
  "inputs", "every message of every type, every order in which a map gives its entries",
  "The tests hash a few prepared messages; which order a hash map iterates in changes from process to process.",
  "bd-proto-util/src/proto.rs", [("every-field, optional, repeated, map", "bd-proto-util/src/proto.rs hash_message"), ("each-kind", "bd-proto-util/src/proto.rs hash_value"), ("as-the-message, all-of-it", "bd-proto-util/src/proto.rs ProtoHashWrapper, Sha256Hasher")],
  note="Different messages are not claimed to hash differently: lists and maps add no field number.")
P("C66", "Each runtime setting governs its own behaviour, with a safe default",
  "Each setting the server can change is used as what its name says and as nothing else: batch size, bytes and deadline limit batches; retry count and waits the retries of uploads; the byte rate its period; kill durations the client's stops; the stats settings their own ticks, files and counters; the switches their own features. A part following a setting holds that setting's watch, which reads what it is now and never panics when its source is gone. By default optional parts are off, nothing stops the client, no interval or limit is zero and no first wait exceeds the longest.",
  "inputs histories", "every value of every setting, every order of changes",
  "The tests leave nearly all settings at their defaults, several of which are equal, so that one standing in for another goes unseen.",
  "bd-runtime/src/runtime.rs, bd-logger/src/consumer.rs, bd-logger/src/service.rs, bd-api/src/api.rs, bd-client-stats/src/lib.rs",
  [("own-behaviour", "every function that reads a setting: bd-logger/src/consumer.rs, service.rs, ratelimit.rs, log_replay.rs; bd-api/src/api.rs; bd-client-stats; bd-workflows/src/engine.rs; bd-session-replay; bd-resource-utilization"), ("followed", "bd-api/src/api.rs Api, bd-logger/src/consumer.rs Flags and the like"), ("safe-default", "bd-runtime/src/runtime.rs feature_flag!"), ("now, own-type", "bd-runtime/src/runtime.rs Watch, InternalWatchKind")])
P("C67", "Requests and responses on the API stream keep their kind",
  "Each request the SDK puts on its stream goes out as the request of its own kind with all of what it holds, framed once with the stream's encoder; a ping is an empty ping. What arrives goes through the stream's decoder and every message in it is passed on, read as the kind of response it is with all of what it holds; one of a kind not known here is passed on as such. A close is passed on with its reason. Bytes sent and received, before and after compression, are each counted under their own name. A runtime update is applied once and then acknowledged with the version now in use and no complaint. The handshake tells the device's data, why the last stream ended and what each pipeline has.",
  "inputs", "every request and response",
  "The tests exchange a few kinds with a server that answers in order, so one kind read or written as another goes unseen.",
  "bd-api/src/payload_conversion.rs, bd-api/src/api.rs",
  [("own-kind", "bd-api/src/payload_conversion.rs IntoRequest"), ("read-as", "bd-api/src/payload_conversion.rs FromResponse, ResponseKind"), ("framed-once, decoded, counted-as", "bd-api/src/api.rs StreamState"), ("acknowledged, introduced", "bd-api/src/payload_conversion.rs, bd-api/src/api.rs, bd-runtime/src/runtime.rs")])
P("C68", "A workflow is what its configuration says, or is left out",
  "From the workflows configured, each that can be made is kept, once and in order, and each that cannot is left out without costing the others. A workflow without states or an execution, with a limit of nothing, a transition to a state that is not there, a rule, action, metric, tag or diagram value without its kind, or a matcher that cannot be made, is refused; no other is. One that is kept has the id, execution, limits and states configured; each transition leads to the state it names with the rule, count or time, actions and diagram values configured; each action has its own kind, id, tags (fixed or taken from the field named), amount, limit and buffers; streaming ends at the smallest number of logs given, if any.",
  "inputs", "every configuration of workflows",
  "The tests make a handful of valid workflows with the helpers and two or three refused ones; nobody tries each missing part, nor two diagrams, criteria or tags at once.",
  "bd-workflows/src/config.rs",
  [("or-left-out", "bd-workflows/src/config.rs WorkflowsConfiguration::new"), ("as-configured, refused", "bd-workflows/src/config.rs Config::new, Execution::new, try_*_limit_from_proto"), ("leads-to, steps", "bd-workflows/src/config.rs State::try_from_proto, Transition::new"), ("own-action, until", "bd-workflows/src/config.rs Action::try_from_proto, Streaming::new, ActionEmitMetric, ActionEmitSankey, SankeyExtraction, TagValue")])
P("C69", "What is kept on disk comes back whole",
  "Everything the SDK keeps across restarts in serialized form (the state of workflows with their runs, traversals, diagrams' steps, pending flushes and streaming; the session and when it was last active; the app's version) is written with every one of its parts and read back with every part from where it was written, whatever the values; each kind of a value is written under a number of its own and read as that kind; and all of it is written and read in one form.",
  "inputs histories", "every value of every kept type",
  "Tests save and load a few states in which the part left out would have been empty or had its default anyway; a part left out only when empty makes what follows it unreadable, which needs that very state.",
  "bd-workflows/src/engine.rs, bd-workflows/src/workflow.rs, bd-workflows/src/actions_flush_buffers.rs, bd-session/src/activity_based.rs, bd-session/src/fixed.rs, bd-logger/src/app_version.rs, bd-key-value/src/lib.rs",
  [("written, read", "every type with serde::Serialize and Deserialize in bd-workflows, bd-session and bd-logger"), ("same-form", "bd-key-value/src/lib.rs, bd-workflows/src/engine.rs StateStore: calls of bincode")])
P("C70", "The path of a sankey diagram is what the logs led through",
  "On a transition, each diagram value configured for it that the log has is added at the end of its own diagram's path, and nothing else of any path changes. When more steps that count are in a path than its limit allows, the oldest that counts goes and the path is marked as trimmed; in no other case does a step go. When the diagram's action is triggered the path gathered under its id is used up and passed on with that id, the values of its steps in order and its mark; every other action triggered is passed on as its own kind. The id of a path is made of the values of all its steps in order, so that paths of different steps can be told apart.",
  "inputs histories", "every workflow, history of logs and limit",
  "The tests lead a few logs through one diagram with one limit; trimming with steps that do not count, two diagrams at once and values that run together are not among them.",
  "bd-workflows/src/workflow.rs",
  [("added, trimmed", "bd-workflows/src/workflow.rs SankeyState::push"), ("whole, id-of-steps, id-tells-apart", "bd-workflows/src/workflow.rs SankeyPath::new, calculate_path_id"), ("extended, finished", "bd-workflows/src/workflow.rs Traversal::sankey_states, triggered_actions")],
  note="One known finding: the id is the hash of the values run together, so a, bc and ab, c share an id. It is recorded rather than repaired because the ids are compared with fixed values by the existing tests and known to the server.")

P("C71", "Every part of the logger is connected to the parts it works with",
  "The logger that is built runs every part it built, and those very parts: logs buffer, uploads, buffers, the connection to the server and, where it keeps its own statistics, their flushing; a part that fails ends it with its error. What one part sends arrives at the part that serves it, each channel having its sending end with those that send on it and its receiving end with that part. All share one runtime configuration, scope of statistics, shutdown and directory. The caller gets the sender of what runs. Likewise within the workflows engine and the log buffer, and statistics are flushed and uploaded each at its own interval, from when it is configured, whether or not it can still change.",
  "inputs histories schedules faults", "every way of building a logger, and every later order of messages, changes of configuration and failures",
  "The tests build each part by itself with channels of their own; how the parts are put together is tested only with all of them running, which the tests that run here do not.",
  "bd-logger/src/builder.rs bd-logger/src/async_log_buffer.rs bd-workflows/src/engine.rs bd-client-stats/src/lib.rs bd-client-stats/src/stats.rs bd-buffer/src/ring_buffer.rs",
  [("ends, runs, shared, returned", "bd-logger/src/builder.rs LoggerBuilder::build"), ("engine", "bd-workflows/src/engine.rs WorkflowsEngine::new"), ("flusher, tick, asked", "bd-client-stats/src/lib.rs Stats::flush_handle, FlushTrigger; stats.rs RuntimeWatchTicker"), ("log-buffer, buffer-events", "bd-logger/src/async_log_buffer.rs AsyncLogBuffer::new, bd-buffer/src/ring_buffer.rs Manager::new")],
  note="One genuine defect was repaired: once nobody could change the interval of a ticker any more, it began anew over and over and never ticked.")

P("C72", "What is handed on between the parts arrives whole and as it was",
  "A request is encoded and exactly its frame sent, once; every upload is remembered as awaiting its own kind of answer, and the request remembered is the one sent, statistics with the time of sending. Data from the server is decoded whole and every message in it handed on; an end of the stream is told apart, with its reason. A file holds the compressed bytes of the whole message, and reading it gives back that message or an error. A record written in one go is reserved at its length, copied whole and then made readable. How a task of the library ended is looked at. A flush the workflows ask for is passed on whole with whoever waits for it. A part that only hands on does so once, with what it was given, and gives back the answer.",
  "inputs histories faults", "every request, upload, message, file and record, and every failure to hand it on",
  "The tests hand on a few small messages that arrive; other kinds of upload, failures midway and the parts between are not exercised by those that run here.",
  "bd-api/src/api.rs bd-client-common/src/file.rs bd-client-common/src/lib.rs bd-buffer/src/buffer/mod.rs bd-runtime/src/runtime.rs bd-grpc/src/lib.rs bd-logger/src/builder.rs bd-logger/src/async_log_buffer.rs bd-logger/src/log_replay.rs",
  [("frame, upload, upstream", "bd-api/src/api.rs StreamState::send_request, handle_data_upload, handle_upstream_event"), ("file, task", "bd-client-common/src/file.rs, bd-client-common/src/lib.rs spawn_error_handling_task"), ("record", "bd-buffer/src/buffer/mod.rs RingBufferProducer::write"), ("round", "bd-logger/src/log_replay.rs ProcessingPipeline::run"), ("thin", "bd-runtime RuntimeManager, bd-grpc StreamingApi, bd-logger LoggerBuilder, LoggerReplay, AsyncLogBuffer")])

P("C73", "No thread waits for a lock it holds, and locks have one order",
  "A thread holding one of the library's locks never waits for that same lock again, directly or through whatever it calls meanwhile; where one lock is taken while another is held, no other path takes them the other way round; a watched value is not replaced by who is looking at it; and no ordinary lock is held while a task is suspended. So no schedule of the callers' threads and the library's own can leave them waiting for each other for good.",
  "programs schedules", "every place where a lock is held and everything that may be called there",
  "A deadlock needs two threads to meet at two particular places, or a call that only some states make while a lock is held; the tests run one thread through the usual states.",
  "bd-session/src/fixed.rs bd-session/src/activity_based.rs bd-device/src/lib.rs bd-client-stats-store/src/lib.rs bd-client-stats/src/stats.rs bd-buffer/src/buffer bd-runtime/src/runtime.rs bd-logger/src/network.rs bd-metadata/src/lib.rs bd-key-value/src/lib.rs",
  [("not-twice", "every call made while a guard is live, in every crate of the library"), ("one-order", "pairs of locks one of which is taken under the other"), ("not-across-await", "bd-client-common, bd-client-stats, bd-logger, bd-workflows: every suspension point")],
  note="Locks are told apart by the crate and what they guard; a concurrent map counts as one lock, asked for by each of its methods. Callbacks of the platform are excluded (C03 has the one asked for a session id); try_ forms do not wait; what the drop of the last shared reference does is not followed; two histograms merged into each other are taken in the order given.")
