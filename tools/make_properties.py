"""Source of /verif/properties.jsonl (kept as Python so that it is editable).

Run: python3 tools/make_properties.py   (rewrites properties.jsonl)
"""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Aggregated calls: every caller gets its own outcome",
     "Every call made through an aggregating wrapper finishes with exactly the result or exception produced for that call's own argument in an execution of the wrapped function that received that argument, even when other calls of the same batch are cancelled, whether they were still waiting or were already running the batch. Cancelling a call never makes another call fail, hang or receive someone else's value. A batch function that raises fails every call of that batch with that exception, and a call for which the function sets no outcome fails with the dedicated 'result not set' error instead of hanging.",
     ["schedules", "fault_sequences", "histories"],
     "All arrival orders of up to 4 calls on one aggregator (both the list-returning and the future-setting variant), all cancellation points of any of them (up to 2 cancellations per execution) between any two event-loop callbacks, and each outcome of the batch function (ok, raise, partial, nothing set).",
     "The tests cancel at one or two fixed sleeps; the guarantee quantifies over every callback boundary at which any call of the batch may be cancelled.",
     ["aiomisc/aggregate.py"],
     [("shared per-batch futures, lock and event", "aiomisc/aggregate.py:AggregatorAsync.aggregate"),
      ("exception fan-out / ResultNotSetError", "aiomisc/aggregate.py:AggregatorAsync._execute")],
     ["result/exception of aggregate(arg)", "arguments received by the wrapped function"],
     [("_args/_futures/_event/_lock", "open batch", "aiomisc/aggregate.py:_clear")])

prop("C02", "Aggregated calls: batch size and collection window are respected",
     "The function behind an aggregator is never called with more than max_count arguments nor with none; an argument is passed to it at most once unless an execution containing it was cancelled, and arguments appear in call order. A batch is executed as soon as it is full, and otherwise when the leeway measured from its first call runs out - neither earlier nor later, unless every one of its calls was cancelled by then - and calls which arrive after a batch was closed belong to the next batch with a full window of its own.",
     ["schedules", "histories", "configurations"],
     "All arrival patterns of up to 5 calls over a grid of arrival instants around the window boundary, max_count in {None,1,2,3}, all interleavings at equal instants, without cancellations.",
     "Tests sample a few arrival patterns in real time with tolerances; they cannot place arrivals exactly at the boundary or enumerate patterns.",
     ["aiomisc/aggregate.py"],
     [("max_count check and event", "aiomisc/aggregate.py:AggregatorAsync.aggregate"),
      ("window = first_call_at + leeway", "aiomisc/aggregate.py:AggregatorAsync.aggregate")],
     ["call time and argument list of the wrapped function"])

prop("C03", "Retry/backoff honours tries, exceptions, giveup, pause and deadlines",
     "A coroutine function wrapped by the backoff or retry decorator is attempted again, with the same arguments and exactly one pause after the failure, only when the attempt failed with one of the listed exception types or an attempt timeout, the number of tries is below the maximum, the giveup predicate does not refuse and the overall deadline has not passed; otherwise the call ends at once. A success is returned as is; a failure surfaces the last exception raised by an attempt; each attempt is cut off at the attempt timeout and the whole call at the deadline; cancelling the call cancels the attempt in progress, starts no further attempt and propagates as cancellation (attempts are taken to let a cancellation they receive propagate).",
     ["inputs", "fault_sequences", "configurations", "schedules"],
     "All sequences of up to 4 attempt behaviours (ok, each exception class, hang, sleeps of chosen length) x configurations of max_tries, deadline, attempt_timeout, pause, giveup, exception lists, and cancellation at every callback boundary, under a virtual clock.",
     "Tests check single configurations with real sleeps; the product of attempt outcomes, limits and cancellation points is never enumerated.",
     ["aiomisc/backoff.py", "aiomisc/timeout.py"],
     [("retry loop", "aiomisc/backoff.py:asyncbackoff.decorator.wrap.run"), ("deadline wait_for", "aiomisc/backoff.py:wrap"), ("timeout decorator", "aiomisc/timeout.py:timeout")],
     ["attempt start times/arguments", "outcome and time of the wrapped call"])

prop("C04", "Select returns the first completed awaitable and cleans up the others",
     "Selecting over several awaitables returns as soon as the first of them completes, holding that awaitable's position and value (or raising its exception, or holding it when exceptions are to be returned), and exactly one position is filled. The remaining awaitables are cancelled unless cancellation is disabled, and when waiting is requested they have finished before the select returns; on a timeout before the first completion no position is filled and the rest is treated the same way. (Awaitables are taken to end as cancelled when they are cancelled.) Cancelling the select cancels every awaitable that is still running, waits for them and propagates the cancellation.",
     ["schedules", "configurations", "fault_sequences"],
     "2-3 awaitables with all completion orders and simultaneous completions, outcomes ok/exception, slow cancellation handlers, every combination of the wait/cancel/return_exceptions/timeout options, and an outer cancellation at every callback boundary.",
     "The tests use fixed sleeps with one completion order; simultaneous completion, slow cancellation and outer cancellation at each step are not enumerated.",
     ["aiomisc/utils.py"],
     [("FIRST_COMPLETED wait + cancel", "aiomisc/utils.py:SelectAwaitable.__run"), ("first result wins", "aiomisc/utils.py:SelectResult.set_result")],
     ["SelectResult", "states of the awaitables at return"])

prop("C05", "Shield, task cancellation helper and awaitable wrapper keep their contract",
     "A coroutine function wrapped with the shield decorator runs to its end exactly once with its arguments even when the caller is cancelled at any point after it started waiting, while the caller itself sees the cancellation, and otherwise sees its result or exception. The task cancelling helper requests cancellation of every unfinished task it is given, leaves finished ones alone, fails unfinished plain futures, and what it returns completes only after all those tasks have really finished, without raising their errors. The awaitable wrapper yields the function's own result whatever kind of value (plain, coroutine, future, awaitable object) the function returns, calling it exactly once, and the timeout decorator cancels the function at its limit and never before.",
     ["schedules", "inputs", "fault_sequences"],
     "All cancellation points of the caller, all mixtures of up to 3 tasks/futures (finished, pending, failing, slow or refusing on cancel), and every kind of return value.",
     "Tests exercise one cancellation instant and one mixture each.",
     ["aiomisc/utils.py", "aiomisc/timeout.py"],
     [("shield", "aiomisc/utils.py:shield"), ("cancel_tasks/set_exception", "aiomisc/utils.py:cancel_tasks"), ("awaitable", "aiomisc/utils.py:awaitable"), ("timeout", "aiomisc/timeout.py:timeout")],
     ["caller outcome", "inner coroutine's effects"])

prop("C06", "Circuit breaker follows its documented state machine",
     "A circuit breaker passes every call through unchanged while passing, refuses every call without invoking the function while broken, and while recovering admits only a growing share of the calls; it opens only once a full history of ten time buckets was collected and every bucket of the last response time, the current one included, reaches the configured error ratio (response time in whole seconds), stays open for the broken time, then recovers, falling back to broken as soon as the failing share of buckets is too high and closing again only after the recovery time. Only listed exceptions, accepted by the inspector when there is one, count as failures; exceptions and results of admitted calls reach the caller unchanged, and refused calls are neither counted nor executed.",
     ["histories", "inputs", "configurations"],
     "All sequences of operations (success, listed failure, unlisted failure, inspector-ignored failure; sync and async; time steps of several sizes; all outcomes of the admission lottery) up to a bounded depth from the initial state and from prepared opened/recovering states, against an executable reference machine.",
     "Unit tests walk a handful of hand-written paths through the states; the history-dependent statistics make the reachable space far larger.",
     ["aiomisc/circuit_breaker.py"],
     [("state transition", "aiomisc/circuit_breaker.py:CircuitBreaker._compute_state"), ("bucket statistics", "aiomisc/circuit_breaker.py:CircuitBreaker.counter"), ("admission", "aiomisc/circuit_breaker.py:CircuitBreaker._on_recover")],
     ["state property", "calls of the function", "exceptions"],
     [("_statistic", "deque of (bucket, counters)", "aiomisc/circuit_breaker.py")])

prop("C07", "Thread pool runs each submitted call once and delivers its outcome",
     "Every function submitted to the thread pool, directly or through the threaded decorators, is executed at most once and, unless its future was cancelled before it started or the pool was shut down, exactly once, with its own arguments and the submitter's context variables, in a thread other than the event loop's. Its awaitable completes in the event loop exactly once with precisely the value returned or the exception raised (including falsy and non-Exception ones), never with another call's outcome, and the cancellation of one call never disturbs another. Never more functions run at once than the pool has workers, a free worker thread takes up any waiting call, and as long as nothing is cancelled up to max_workers blocking functions run at the same time.",
     ["schedules", "fault_sequences"],
     "All interleavings, up to a bound on preemptions at synchronisation operations and source lines, of the event loop thread and the worker threads for 1-4 submissions, 1-4 workers, mixes of returning/raising/blocking functions and cancellations.",
     "Tests run free threads and see only a few natural schedules; races between cancellation, completion and submission are not controlled.",
     ["aiomisc/thread_pool.py"],
     [("WorkItem call and call_soon_threadsafe", "aiomisc/thread_pool.py:WorkItem.__call__"), ("task channel", "aiomisc/thread_pool.py:TaskChannel"), ("submit", "aiomisc/thread_pool.py:ThreadPoolExecutor.submit")],
     ["future outcome", "execution log of submitted functions"])

prop("C08", "Thread pool shutdown terminates and settles every call",
     "Shutting the thread pool down, from the event loop's thread or from another one, always returns, also when it races with submissions, completions or cancellations; a second shutdown is harmless. Afterwards every call ever submitted is settled in its own event loop - with its own outcome if it had been delivered, otherwise with a pool-closed error - a waiting shutdown returns only when no function runs any more or its time limit is over, and no function starts to run once it has returned, new submissions are refused, and all worker threads exit as soon as their current function returns.",
     ["schedules", "fault_sequences"],
     "All interleavings up to a preemption bound of shutdown (wait or not, in-loop or from another thread) against 1-3 calls in every phase (queued, running, finishing, cancelled).",
     "Shutdown races need a particular instruction-level interleaving with a finishing worker; tests shut down idle pools.",
     ["aiomisc/thread_pool.py"],
     [("shutdown", "aiomisc/thread_pool.py:ThreadPoolExecutor.shutdown"), ("channel close token", "aiomisc/thread_pool.py:TaskChannel.close")],
     ["futures", "thread liveness"])

prop("C09", "Threaded iterators deliver the generator's exact sequence",
     "Iterating asynchronously over a threaded iterable yields exactly the items of the underlying iterable, each once and in order, and then ends the iteration, or raises the exception (an Exception, falsy ones included) the iterable raised after all items produced before it (any other BaseException ends the iteration, too); no item and no exception is lost or duplicated under any timing of the producer and the consumer, as long as the consumer itself is not cancelled or closes the iterator. With a maximum size the producer never gets more than that number of items ahead of what the consumer took, plus the one it is handing over.",
     ["schedules", "inputs"],
     "All interleavings up to a preemption bound of the producer thread and the event loop for generators of 0-3 items with and without a final exception, bounded and unbounded queues, both execution variants (pool and separate thread).",
     "The windows (between a failed poll and the closed-check) are a few bytecodes wide; free-running tests practically never hit them.",
     ["aiomisc/iterator_wrapper.py", "aiomisc/thread_pool.py"],
     [("channel", "aiomisc/iterator_wrapper.py:FromThreadChannel"), ("producer loop", "aiomisc/iterator_wrapper.py:IteratorWrapper._in_thread")],
     ["items seen by async for", "termination"])

prop("C10", "Closing a threaded iterator stops the producer and never hangs",
     "Closing a threaded iterator - explicitly, by leaving its context manager, by dropping the iteration or by cancelling the consumer inside the context manager - at any moment, even before iteration started, while the producer is blocked on a full queue, or repeatedly, always completes once the underlying generator reaches its next yield (given a free worker to run it). After the close completed the generator is no longer advanced and its thread has finished, and a generator given to the wrapper has been told to stop or was exhausted.",
     ["schedules", "fault_sequences"],
     "All interleavings up to a preemption bound of close against the producer at each of its steps, for bounded and unbounded queues, and all consumer positions (0-3 items taken).",
     "Needs the consumer to leave exactly while the producer is inside a blocking put or has not started; tests cover single positions with generous sleeps.",
     ["aiomisc/iterator_wrapper.py", "aiomisc/thread_pool.py"],
     [("close/wait_closed", "aiomisc/iterator_wrapper.py:IteratorWrapper.close"), ("channel put after close", "aiomisc/iterator_wrapper.py:FromThreadChannel.put")],
     ["close() awaitable", "producer thread state"])

prop("C11", "Waiting for a coroutine from a thread always returns its outcome",
     "A thread that waits synchronously for a coroutine or asynchronous function executed in the event loop gets exactly that coroutine's result or exception, and never hangs once the coroutine has finished in any way, including having been cancelled. The coroutine is run exactly once, in the event loop's thread, with the given arguments.",
     ["schedules", "fault_sequences"],
     "All interleavings up to a preemption bound of 1-2 waiting threads with the event loop, with coroutines that return, raise, are cancelled, or wait for one another.",
     "Tests cover return and raise under one natural schedule.",
     ["aiomisc/thread_pool.py"],
     [("CoroutineWaiter", "aiomisc/thread_pool.py:CoroutineWaiter")],
     ["return value/exception in the thread"])

prop("C12", "Object pool hands out healthy instances exclusively and within its limit",
     "At every moment each pooled instance is held by at most one user, the number of instances alive (created and not yet destroyed or scheduled for destruction) never exceeds the pool's maximum, and a user only ever receives an instance whose health check passed for this acquisition and that has not been destroyed or discarded. Instances that outlived the recycle time are discarded on release instead of being handed out again, and every discarded instance is destroyed exactly once.",
     ["schedules", "fault_sequences", "histories"],
     "2-3 users acquiring and releasing on pools of size 1-2 with asynchronous create/check/destroy whose completions, failures and cancellations are ordered in every way (bounded number of faults), with and without recycling.",
     "The tests check counts in a happy path; concurrent acquire with failing or cancelled create/check steps is not enumerated.",
     ["aiomisc/pool.py"],
     [("semaphore + instance queue", "aiomisc/pool.py:PoolBase.__acquire"), ("recycle bin", "aiomisc/pool.py:PoolBase.__recycler")],
     ["calls to the create/check/destroy hooks", "instances seen in async with"],
     [("_instances/_used/_semaphore", "free, held, capacity", "aiomisc/pool.py")])

prop("C13", "Object pool never loses capacity and close destroys everything",
     "As long as users release what they acquired, every pending acquisition is eventually served: no failure or cancellation of instance creation, health check, or acquisition, and no recycling, permanently reduces the number of instances the pool can have or leaves a waiter asleep while capacity is free. Failures of creation reach the acquirer that caused them. Closing the pool destroys every instance still existing - idle, held or awaiting destruction - once, does not fail because destroying one of them fails, and leaves no task of the pool running. An instance taken out of use is destroyed while the pool is open, also after destroying another one failed.",
     ["schedules", "fault_sequences", "histories"],
     "Same harness as exclusivity, followed by a drain phase in which the pool must serve its full capacity again and by a close; faults at each create/check/acquire/destroy step.",
     "Leaks need a fault or cancellation at a particular await inside acquire; tests never inject one.",
     ["aiomisc/pool.py"],
     [("semaphore accounting", "aiomisc/pool.py"), ("close", "aiomisc/pool.py:PoolBase.close")],
     ["acquire completion", "destroy hook calls"])

prop("C14", "Recurring and periodic callbacks run serially at the right times until stopped",
     "A recurring, periodic or cron callback is never run concurrently with itself by one started instance; after every run, failed or not, the next one comes exactly one delay (as given by the strategy, or the interval) after the previous ended, the first after the initial delay, and a failing run never ends the series; its error is logged once, unless it is listed as suppressed. A strategy may skip a run with a delay or stop the series, a negative delay counts as zero and a non-numeric one stops the series. After stop no new run is scheduled (one already due in that very loop turn may begin only to be cancelled), a run in progress is cancelled and stopping ends only when that run has ended (when shielded the run finishes in the background), starting a running instance is refused, and a stopped instance can be started again - a periodic one at once, a cron one when its stop has finished - and stopped again.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "All sequences of start/stop/restart operations placed at every callback boundary around runs whose outcomes (return, raise, suppressed, slow, self-cancel) and strategy answers are enumerated under a virtual clock.",
     "Tests count ticks in real time for single scenarios; stop-then-start in the same loop turn, failures at each run and strategy answer sequences are not enumerated.",
     ["aiomisc/recurring.py", "aiomisc/periodic.py", "aiomisc/cron.py"],
     [("loop", "aiomisc/recurring.py:RecurringCallback._start"), ("start/stop", "aiomisc/periodic.py:PeriodicCallback"), ("start/stop", "aiomisc/cron.py:CronCallback")],
     ["start/end times of the callback", "stop() result"])

prop("C15", "Cron callbacks fire once for each scheduled moment",
     "A cron callback starts one run at each moment matching its specification that lies strictly after its start, in the order of the specification and at that moment, as long as runs are shorter than the gaps; moments that pass during a longer run (its end included) are skipped, never run late in a burst, and no moment is ever run twice. Failing runs do not affect later moments. (The wall clock and the loop clock are taken to advance together.)",
     ["inputs", "schedules", "histories"],
     "All start offsets on a grid around minute/second boundaries (including exactly on them), several specifications with second, minute and list/step fields, all sequences of run durations (shorter, equal, longer than the gap) up to depth 4, under a virtual wall clock.",
     "The cron tests are excluded from the stable suite because they sample the wall clock; boundary instants are never tested.",
     ["aiomisc/cron.py", "aiomisc/recurring.py"],
     [("get_next", "aiomisc/cron.py:CronCallback.get_next")],
     ["start times of the callback"])

prop("C16", "Shared context delivers the latest value to every reader",
     "Every task awaiting a context key receives a value that was set for it: readers waiting before the first set all get that value, readers coming later get the most recently applied one, also when the set happens from another thread. Cancelling or timing out one reader never affects other readers, present or future, of the same key. Keys are independent, each event loop has its own context, and a closed context is no longer returned.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of 2-3 readers on 2 keys, 1-3 sets (from the loop and from another thread) and cancellation of readers at every callback boundary.",
     "Tests set once and read once in a fixed order and never cancel a reader.",
     ["aiomisc/context.py"],
     [("future per key", "aiomisc/context.py:Context")],
     ["value returned by await context[key]"])

prop("C17", "Signals and entrypoint hooks call every receiver, in the right phase",
     "Calling a signal awaits each connected receiver exactly once with the given arguments, one after another, also when receivers are connected or disconnected meanwhile (which counts from the next call on); a frozen signal refuses changes, only coroutine functions can be connected, and a copy is independent of its original in both directions. An entrypoint runs its pre-start receivers before any service starts, post-start after all services reported started, pre-stop before any service is stopped and post-stop after all were, each with the services concerned, for the initial start and the final shutdown as well as for dynamic starts and stops; post-start and post-stop receivers run also when a service failed to start or to stop, and the signals of an entrypoint that was entered are frozen.",
     ["histories", "configurations", "schedules"],
     "All sequences of connect/disconnect/copy/freeze/call operations up to depth 5 on two signals; all lifecycles of 0-2 services with early/late start and dynamic start/stop.",
     "Tests check single sequences.",
     ["aiomisc/signal.py", "aiomisc/entrypoint.py"],
     [("Signal", "aiomisc/signal.py:Signal"), ("start_services/stop_services", "aiomisc/entrypoint.py:Entrypoint")],
     ["receiver calls"])

prop("C18", "Entrypoint starts and stops every service exactly once, whatever fails",
     "Entering an entrypoint returns only after every service has either finished its start or signalled that it started, with the event loop and context available to it; a start that fails before that is raised to the caller. On shutdown, whether regular, by exception or by interrupt signal or by several of these at once, every running service's stop is called exactly once with the causing exception, start coroutines that still run after signalling are cancelled and finished first, a failing or slow stop of one service does not keep another from being asked to stop, the failure of a stop is raised by the exit, and the context is closed once the services were asked to stop. Whoever waits for the closing of the entrypoint is released when the shutdown begins; asynchronous generators of the loop are closed, and a loop which the entrypoint created itself is left with no task, without its thread pool and closed, while tasks on a loop it was given are left alone. Services started or stopped dynamically follow the same rules and the set of services reported is always exactly those whose start was begun and whose stop has not ended (dynamic stops are taken to have ended before the shutdown begins).",
     ["schedules", "fault_sequences", "histories"],
     "1-3 services with every start behaviour (returns, signals then runs on, fails early, fails late, hangs until cancelled) and stop behaviour (ok, raises, slow, not async), all dynamic operation sequences up to depth 3, exit reasons (normal, exception, cancellation, interrupt) at each stage, and an own, a given or the running loop.",
     "Each unit test uses one combination with real servers.",
     ["aiomisc/entrypoint.py", "aiomisc/service/base.py"],
     [("_start_service", "aiomisc/entrypoint.py"), ("stop_services/graceful_shutdown", "aiomisc/entrypoint.py"), ("interrupt", "aiomisc/entrypoint.py:_on_interrupt")],
     ["service start/stop calls", "entrypoint.services"])

prop("C19", "Network services give every client its own task and clean up on stop",
     "A TCP or UDP server service runs its handler exactly once per connection or datagram, with that connection's streams or that datagram's data and sender, concurrently and independently: a failing or hanging handler affects no other one. Stopping the service cancels every handler still running, waits for them to finish and closes the listener, leaving no task behind; replies sent by the datagram service reach the given address.",
     ["schedules", "fault_sequences"],
     "2-3 connections/datagrams arriving in all orders relative to each other, to handler steps and to stop, with handlers that return, raise, hang, are slow on cancellation, sync or async.",
     "Tests connect one or two real clients at a time.",
     ["aiomisc/service/tcp.py", "aiomisc/service/udp.py", "aiomisc/service/base.py"],
     [("client handler task", "aiomisc/service/tcp.py:TCPServer.make_client_handler"), ("datagram task", "aiomisc/service/udp.py:UDPServer"), ("stop", "aiomisc/service/base.py:SimpleServer.stop")],
     ["handler calls", "task states after stop"])

prop("C20", "TCP client services connect with retries and the robust one reconnects",
     "A TCP client service makes up to its number of connection attempts, pausing in between after connection errors, and reports that it started as soon as a connection is up, handling that connection once; if all attempts fail the last connection error is raised. The robust client, once it has been connected, waits for the reconnect timeout whenever its handler fails (as it does when the connection is lost) and connects again, and keeps trying when that fails, until a handler returns or it is stopped. Stopping either of them in any phase (connecting, pausing, handling) ends it promptly, cancels the handler and leaves no task behind.",
     ["schedules", "fault_sequences"],
     "All sequences up to length 4 of connection results (ok, refused) and handler outcomes (return, raise, connection lost, hang) and a stop at every callback boundary, under a virtual clock.",
     "The existing tests drop one connection once and swallow timing.",
     ["aiomisc/service/tcp.py"],
     [("connect", "aiomisc/service/tcp.py:TCPClient.connect"), ("reconnect loop", "aiomisc/service/tcp.py:RobustTCPClient.start")],
     ["connection attempts and their times", "handler calls"])

prop("C21", "Async file objects behave exactly like the synchronous file",
     "For every mode, text or binary, and every supported compression, a sequence of operations on an asynchronous file gives the same results, errors and final file content as the same sequence on the corresponding synchronous file object. Iterating yields the file's lines in order, several concurrent iterations of one file receive disjoint lines which together are the file's lines, and leaving the context manager closes the file. Blocking operations are executed by the executor given for the file, not in the event loop's thread.",
     ["inputs", "programs", "schedules"],
     "All operation sequences up to depth 3-4 over open/read/readline/readlines/iterate/seek/tell/truncate/write/writelines/flush/close with small argument domains, for all modes and compressions, and all interleavings of 2 concurrent iterators.",
     "Tests run a few fixed sequences per method.",
     ["aiomisc/io.py"],
     [("executor dispatch", "aiomisc/io.py:AsyncFileIO"), ("iterator lock", "aiomisc/io.py:AsyncFileIO.__anext__"), ("openers", "aiomisc/io.py:Compression")],
     ["results, exceptions, file bytes"])

prop("C22", "Worker wire protocol delivers every message intact",
     "Any sequence of messages sent over the worker protocol, by any of its blocking-file, socket or asynchronous ends, is received by any compatible end as the same sequence of equal values, however the transport splits, merges or shortens individual reads and writes; the asynchronous end sends on only when its transport accepts more data. A stream that ends inside or before a message is reported as an error and never as a truncated or made-up message.",
     ["inputs", "fault_sequences"],
     "All compositions of short reads and short writes over messages of several sizes (empty to several chunks), all truncation points of the stream, all pairings of protocol ends.",
     "Local sockets practically never split small messages, so the tests see only whole ones.",
     ["aiomisc_worker/protocol.py"],
     [("framing", "aiomisc_worker/protocol.py:Protocol"), ("socket loops", "aiomisc_worker/protocol.py:SocketIOProtocol"), ("async", "aiomisc_worker/protocol.py:AsyncProtocol")],
     ["values returned by receive()"])

prop("C23", "Worker pool: each task's outcome reaches its own caller exactly once",
     "Every task given to a process worker pool is sent to at most one worker, and its caller gets exactly the result or exception the worker returned for it; a worker never has more than one task at a time. When a worker dies only the caller whose task it was running gets a process error. Cancelling a caller signals only the worker currently running that caller's task, or withdraws the task if it has not started, and never affects another caller's task. A call that fails, whatever the reason, leaves the pool able to serve the others.",
     ["schedules", "fault_sequences"],
     "1-2 workers driven by the harness over in-memory streams, 2-3 tasks; all orders of authentication, task submission, worker answers, deaths, and caller cancellation at every callback boundary.",
     "Real processes give one natural schedule per test; a cancellation racing with an answer cannot be placed.",
     ["aiomisc/worker_pool.py", "aiomisc_worker/protocol.py"],
     [("handler", "aiomisc/worker_pool.py:WorkerPool.__handle_client"), ("create_task", "aiomisc/worker_pool.py:WorkerPool.create_task")],
     ["packets seen by the worker side", "caller outcomes", "signals sent"])

prop("C24", "Worker pool admits only authenticated workers and close settles everything",
     "Only a peer that presents a known worker identity with a matching keyed digest is ever given a task, can end the pool through a failed initializer, or counts as a worker; any other peer is turned away without affecting tasks. A reported initializer failure fails the waiting callers with that exception and closes the pool. Closing the pool in any state, also concurrently or twice, always finishes, stops the worker supervisor once and leaves no caller waiting and no worker listed. Every pool has its own secret and its local socket is open to its owner only.",
     ["schedules", "inputs", "fault_sequences"],
     "All kinds of first packets (right/wrong type, identity, digest; truncated) and all interleavings of close with submissions, answers and connecting workers.",
     "Tests only connect genuine workers.",
     ["aiomisc/worker_pool.py"],
     [("authentication", "aiomisc/worker_pool.py:WorkerPool.__handle_client"), ("close", "aiomisc/worker_pool.py:WorkerPool.close")],
     ["packets sent to peers", "caller outcomes", "close() completion"])

prop("C25", "Worker process executes requests one by one and survives failures and cancels",
     "A worker process authenticates first, then answers every request it receives with exactly one packet in order: the function's result, or the exception it raised, or a cancellation notice when the pool cancels it before it has been answered, which interrupts the function if it is running and keeps it from running if it is not; afterwards it serves the next request. It ends quietly when the connection is lost and reports a failing initializer to the pool.",
     ["inputs", "fault_sequences", "histories"],
     "All sequences of up to 3 requests over function behaviours (return, each exception class, cancelled while running, unpicklable result or exception) and connection loss at every byte position/step, on an in-memory socket.",
     "Tests drive workers only through the pool with well-behaved functions.",
     ["aiomisc_worker/worker.py", "aiomisc_worker/process_inner.py"],
     [("execute", "aiomisc_worker/worker.py:execute"), ("worker loop", "aiomisc_worker/worker.py:worker")],
     ["packets written by the worker"])

prop("C26", "DNS store answers from the closest enclosing zone only",
     "A query for a name returns exactly the records of that name and type held by the most specific existing zone that encloses the name (whole labels, ignoring case), and nothing if there is none, independent of the order in which zones and records were added, removed or replaced. Records can only be put into a zone that encloses them; adding an existing zone or removing a missing one is refused; replacing zone or store contents is all-or-nothing.",
     ["histories", "inputs"],
     "All sequences up to depth 4-5 of add/remove/replace zone and record operations over a small universe of nested and look-alike names, each followed by all queries, against a flat reference model.",
     "Tests use one or two unrelated zones; nested zones and removal are not covered.",
     ["aiomisc/service/dns/store.py", "aiomisc/service/dns/zone.py", "aiomisc/service/dns/tree.py"],
     [("prefix search", "aiomisc/service/dns/tree.py:RadixTree.find_prefix"), ("membership", "aiomisc/service/dns/zone.py:DNSZone.check_record"), ("atomic replace", "aiomisc/service/dns/store.py:DNSStore.replace")],
     ["query()", "get_zone()"])

prop("C27", "DNS server replies correctly to every request and survives bad ones",
     "For every well-formed DNS request the server sends exactly one reply with the request's id and question, the matching records as answers, name-error when there are none and server-failure when the lookup fails; over datagrams the reply goes to the requester, fits the size the requester announced (at least 512 bytes, 512 if none) and is marked truncated exactly when answers were left out, and over streams it is length-prefixed and complete. Requests split or merged arbitrarily on a stream are answered one by one in order, and a malformed request never stops the server from answering later ones.",
     ["inputs", "fault_sequences", "histories"],
     "All record types and result sizes around the limits, all EDNS sizes on a grid, all segmentations of two pipelined stream requests at every byte position, malformed packets at every truncation length.",
     "Tests send single whole packets.",
     ["aiomisc/service/dns/service.py", "aiomisc/service/dns/records.py"],
     [("handle_request", "aiomisc/service/dns/service.py:DNSServer.handle_request"), ("TCP framing", "aiomisc/service/dns/service.py:TCPDNSServer.handle_client")],
     ["reply bytes"])

prop("C28", "Threaded log handler passes every record on, in order, without blocking",
     "Every record accepted by the threaded log handler is passed to the wrapped handler exactly once and in the order it was accepted, by the background thread, and all records accepted before the handler is closed are passed on before its thread ends. Emitting never waits for the wrapped handler in buffered mode, a failure of the wrapped handler affects only that record, closing makes the background thread end, and an unclosed handler does not keep the program from ending.",
     ["schedules", "fault_sequences"],
     "All interleavings up to a preemption bound of 1-2 emitting threads, the flushing thread, flush and close calls, with buffered/unbuffered and bounded/unbounded queues and failing or blocking targets.",
     "Losing records at close needs the flusher to observe the close flag between two particular steps.",
     ["aiomisc/log.py"],
     [("_in_thread", "aiomisc/log.py:ThreadedHandler._in_thread"), ("close", "aiomisc/log.py:ThreadedHandler.close")],
     ["records received by the target"])

prop("C29", "Every log record becomes one valid JSON line",
     "Formatting any log record with the JSON formatter gives a single line that parses as JSON and carries the record's rendered message, level, logger name and source location, its extra fields, and its traceback when it has an exception; it never raises for a record that the standard formatter can render. Time stamps appear exactly when a date format is given.",
     ["inputs", "configurations"],
     "All combinations of levels (standard and custom), message/argument shapes, extra field names and value kinds (nested, unserialisable, odd keys, reserved names), exception info, date formats.",
     "Tests format a couple of plain records.",
     ["aiomisc_log/formatter/json.py", "aiomisc_log/__init__.py"],
     [("format", "aiomisc_log/formatter/json.py:JSONLogFormatter.format")],
     ["formatted line"])

prop("C30", "Sentry transport sends each accepted event once and closes cleanly",
     "Every event handed to the asynchronous Sentry transport is reported exactly once, as a success or as a failure. It is sent with exactly one HTTP request, in the order of the events, unless it is reported as failed because the queue was full (the oldest event gives way), the transport was closed, or the closing time ran out; a failing request or a failing callback never stops the following events. Closing the transport always finishes, also with events queued, a full queue or a request in flight, and leaves no background task running.",
     ["schedules", "fault_sequences"],
     "All interleavings of 1-3 sends, request outcomes (ok, HTTP error, exception, hang) and close at every callback boundary with queue sizes 1-2.",
     "Tests send one event to a local server.",
     ["aiomisc/service/raven.py"],
     [("queue and worker", "aiomisc/service/raven.py:QueuedAioHttpTransport")],
     ["HTTP requests", "callbacks"])

prop("C31", "Statistics count what happened and are listed while their owner lives",
     "Every statistic object exposes exactly the numeric metrics declared by its class and its ancestors, all starting at zero and independent of any other object's; listing statistics returns for each living object and metric the current value with the object's name and class, restricted to the requested classes. When the counted activities are over, the counters of calls and outcomes of the thread pool, the process pool, retries, the circuit breaker, recurring callbacks, aggregations, the context and the iterator wrapper equal the numbers of the events they name, after any history.",
     ["histories", "programs"],
     "All class hierarchies up to depth 3 over a small set of annotations, all sequences of creating, updating and dropping objects up to depth 5, and counter comparison in the component histories explored for the other properties.",
     "Tests check a few values after one history.",
     ["aiomisc/counters.py"],
     [("MetaStatistic", "aiomisc/counters.py:MetaStatistic"), ("Metric", "aiomisc/counters.py:Metric"), ("get_statistics", "aiomisc/counters.py:get_statistics")],
     ["get_statistics()"])

prop("C32", "Service parameters are validated, settable and survive pickling",
     "A service class requires each argument named by its __required__ declaration (own or inherited) and refuses to be instantiated without them, and refuses definition when a method declared asynchronous is not a coroutine function; every keyword argument given to the base constructor is readable as an attribute, assignment is visible afterwards, and class defaults are overridden only by given arguments and only in that instance. Serialising or copying a service gives a separate service of the same class with the same current parameters (whatever else has been attached to the object does not matter), which can be started like a new one.",
     ["inputs", "programs", "histories"],
     "All combinations of up to 3 required, defaulted and extra parameters over inheritance depth 2 (3), methods of 13 kinds in a base, a mixin or the class, all sequences of set/copy/pickle operations up to depth 3 (4), and the 23 services of the package.",
     "Tests check single examples.",
     ["aiomisc/service/base.py"],
     [("ServiceMeta", "aiomisc/service/base.py:ServiceMeta"), ("Service.__init__/__setattr__/__getstate__", "aiomisc/service/base.py:Service")],
     ["attributes", "exceptions"])

prop("C33", "Watchdog service notifies the service manager at the right moments",
     "The systemd watchdog service announces readiness exactly once, after all services have started and never when the start failed; sends heartbeats from its start to its stop every half watchdog interval (none without an interval) as long as the event loop is responsive; announces an interval which differs from the manager's; and announces stopping exactly once, before any service is stopped at shutdown. Without a notification socket (unset or empty) it stays silent. Each notification is one datagram to the given socket, which is closed in the end; a failing one does not disturb the others.",
     ["configurations", "schedules"],
     "All combinations of environment settings and arguments, all lifecycles of up to 2 further services (slow, signalling, failing, hanging), cancellations of the start, stops at several heartbeat phases, dynamic starts and stops, failing and slow datagrams, under a virtual clock.",
     "The test observes one run with a real socket.",
     ["aiomisc/service/sdwatchdog.py"],
     [("signals and periodic callback", "aiomisc/service/sdwatchdog.py:SDWatchdogService")],
     ["datagrams sent"])

prop("C34", "Chunking splits any iterable into consecutive full chunks",
     "Splitting an iterable into chunks yields lists of the requested size, the last one possibly shorter but never empty, whose concatenation is the original sequence, consuming the input lazily chunk by chunk (never more items than the chunks asked for need). Fast identifier generation yields valid identifiers of the right version and variant, different for different random bits, and of this computer's node for version 1.",
     ["inputs"],
     "All input lengths 0-13 (18) and sizes 1-7 for 13 kinds of iterables, failing and shared sources, every point of giving up; identifiers: every one- and two-bit pattern of the random source at selected instants.",
     "Tests use a few lengths.",
     ["aiomisc/utils.py"],
     [("chunk_list", "aiomisc/utils.py:chunk_list")],
     ["chunks"])

prop("C35", "TLS services use exactly the configured security material",
     "The TLS server and client services use the configured certificate, key, authority, versions, ciphers and verification flags: a server which requires client certificates refuses clients without a certificate of the configured authority and one which does not require them does not; a client asked to verify (the default) connects only to servers whose certificate is issued for the address by the configured authority (the system's when none is configured), one told not to connects to all; both present their own certificate. The files are read anew for every connection of a client and every start of a server.",
     ["configurations"],
     "All combinations of own certificate, authority, verification flags, versions and address with peers of ten kinds of certificates, all sets of TLS 1.2 cipher suites, all changes of the files between up to 3 connections; real handshakes.",
     "Tests use two combinations.",
     ["aiomisc/service/tls.py"],
     [("SSLOptions.create_context", "aiomisc/service/tls.py:SSLOptions.create_context"), ("services", "aiomisc/service/tls.py")],
     ["outcome of handshakes", "certificates seen by the peer"])

prop("C36", "Worker supervisor keeps the configured number of workers alive",
     "The supervisor process starts one worker per identity, restarts a worker that died with the same identity as long as it is not told to stop, stops restarting and terminates every worker when it is interrupted while watching them, and ends when all its workers have ended in an orderly way; the end of any other child process changes nothing.",
     ["fault_sequences", "schedules"],
     "All sequences of worker exits (clean, crash, signal) and interrupts up to depth 5 for 1-2 workers on substituted process primitives.",
     "Tests only look at healthy workers.",
     ["aiomisc_worker/process.py", "aiomisc_worker/forking.py"],
     [("supervision loop", "aiomisc_worker/process.py"), ("fork", "aiomisc_worker/forking.py")],
     ["spawned processes", "signals sent"])

prop("C37", "Errors nobody handled are logged once with all their details",
     "Once logging is configured, every error which the event loop reports as unhandled (a failing callback, a task or future whose exception nobody retrieved, a failing protocol, an explicit report with any context) yields exactly one error record carrying the message, the exception (taken from the future or task when the report has none of its own) with its traceback whatever its truth value, and all other items of the report under their names, followed by one record with the source traceback when there is one; the reporting hook never raises and never changes the report. An exception which ends the program is logged once to every configured handler with its traceback and causes.",
     ["inputs", "fault_sequences"],
     "All combinations of exception, future and task states; all presence combinations of the other items; every pair of item names including those of the log record; all pairs of eleven situations on a real event loop in normal and debug mode; all kinds of fatal exceptions on 1-2 handlers.",
     "Tests only check that configured handlers receive ordinary records.",
     ["aiomisc/log.py", "aiomisc_log/__init__.py"],
     [("loop hook", "aiomisc/log.py:UnhandledLoopHook"), ("interpreter hook", "aiomisc_log/__init__.py:UnhandledPythonHook")],
     ["log records"])

prop("C38", "Process services never leave a process behind and respawn it in time",
     "A process service launches one process running its function with its keyword arguments and the logging level and format of the parent, has started as soon as that process runs and fails when the process ends (or cannot be launched) before; stopping it interrupts the process, waits up to the stop timeout, kills it only if it has not ended by then, and returns with the process ended. Also when the start is cancelled, the stop overtakes the start or a respawn, or the stop itself is repeated or cancelled and repeated, no process is left or launched afterwards, and the event loop is never blocked. The respawning variant runs at most one process at a time and launches the next within its poll interval after the process ended for whatever reason (or after a launch that failed), until it is stopped.",
     ["schedules", "fault_sequences"],
     "Thirteen behaviours of the process, plain and respawning services, seven plans of starting, cancelling and stopping at every callback boundary, sequences of 2 (thorough 3) successive processes with stops around the poll instants, on a model of processes, their events and signals.",
     "Tests start one healthy process and observe one respawn.",
     ["aiomisc/service/process.py"],
     [("start and stop", "aiomisc/service/process.py:ProcessService"), ("supervisor", "aiomisc/service/process.py:RespawningProcessService")],
     ["processes alive", "signals sent", "times of launches"])

prop("C39", "Periodic, cron and diagnostic services do their job from start to stop only",
     "A periodic service runs its callback for the first time after its delay and then an interval after the end of the run before, a cron service runs each registered function at its moments; runs of one job never overlap and a failing run neither ends the service nor disturbs other jobs. Stopping such a service cancels a run in progress (a shielded cron run is finished instead), waits for its end, and nothing runs and no task remains afterwards; also when the stop comes in the middle of the start, of a delay or twice, and the service can be started again. The profiler profiles exactly while its service runs (except while it reports) and saves its statistics to the given path; the memory tracer traces while its service runs and compares each snapshot with the one of its start, reports being made off the event loop; the carbon service installs a client with the given address and options and keeps it sending. Illegal intervals and cron specifications are refused when they are given.",
     ["schedules", "fault_sequences"],
     "Six kinds of services, sequences of up to 3 outcomes of the runs (ok, slow, failing, cleaning up, hanging), stop at every callback boundary and restart, two cron functions with equal or different moments, shielded or not, under a virtual clock.",
     "Tests observe a few undisturbed runs of each service.",
     ["aiomisc/service/periodic.py", "aiomisc/service/cron.py", "aiomisc/service/profiler.py", "aiomisc/service/tracer.py", "aiomisc/service/carbon.py"],
     [("PeriodicService", "aiomisc/service/periodic.py:PeriodicService"), ("CronService", "aiomisc/service/cron.py:CronService"), ("Profiler", "aiomisc/service/profiler.py:Profiler"), ("MemoryTracer", "aiomisc/service/tracer.py:MemoryTracer"), ("CarbonSender", "aiomisc/service/carbon.py:CarbonSender")],
     ["begin and end of each run", "tasks", "state of the diagnostic tools"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
