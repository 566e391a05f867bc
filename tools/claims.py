claim("C01", ASYNC,
      "No execution of the listed scenarios (up to 3 calls, 2 cancellations placed at every callback "
      "boundary) violates the property; trusts asyncio's FIFO callback order and the virtual loop.")
claim("C02", ASYNC,
      "Arrival patterns of up to 5 calls on a half-window grid, every order at equal instants.")
claim("C03", ASYNC,
      "Outcome sequences of up to 4 attempts x configurations, cancellation at every callback boundary.")
claim("C04", ASYNC,
      "2-3 awaitables, every option combination, completion order, outer cancellation point.")
claim("C05", ASYNC, "Every cancellation point of shielded callers; every mixture of up to 3 tasks/futures.")
claim("C06", SEQ,
      "Operation sequences from 14 prepared states against a reference machine; integral response_time.")
claim("C07", THREAD, "1-4 submissions on 1-4 workers, cancellations, preemptions at lines and synchronisation operations.")
claim("C08", THREAD, "Shutdown against calls in every phase, in-loop or from another thread, waiting or not.")
claim("C09", THREAD, "0-3 items, every end, three shapes of iterables, both variants, bounded/unbounded queues.")
claim("C10", THREAD, "Ten ways of closing at every consumer position, against the producer at every step.")
claim("C11", THREAD, "1-2 waiting threads, nine coroutine endings, five entry points, cancellation at every callback boundary, also before the first step.")
claim("C12", ASYNC, "Up to 4 users on pools of size 1-2, bounded faults and cancellations.")
claim("C13", ASYNC, "Same harness followed by a full-capacity drain and close.")
claim("C14", ASYNC, "Start/stop/restart at every callback boundary; run outcomes and strategy answers of length <= 3.")
claim("C15", ASYNC, "Start offsets x specifications x run durations under a virtual wall clock (second resolution specs).")
claim("C16", ASYNC, "2-3 readers of six kinds on 2 keys, up to 3 sets, cancellation of readers at every callback boundary.")
claim("C17", ASYNC, "All signal operation sequences up to depth 4/5; signals changed while called; lifecycles of 0-2 services.")
claim("C18", ASYNC, "0-3 services x start/stop behaviours x exit reasons x dynamic operations, interrupts between any two callbacks.")
claim("C19", ASYNC, "1-3 connections or datagrams, nine handler behaviours, peer resets, stop and late arrivals at every callback boundary; TLS services without the TLS layer.")
claim("C20", ASYNC, "All sequences of connection results and handler outcomes up to length 4-5, stop at every callback boundary; TLS clients without the TLS layer.")
claim("C21", SEQ, "Differential against the synchronous file: all operation sequences of length <= 3 (2 for compressed files); concurrent iteration on controlled threads.")
claim("C22", SEQ, "Every way of cutting the streams of the message sets into up to 3 (thorough 4) pieces or single bytes, every truncation, short writes; large messages at marked positions only.")
claim("C23", ASYNC, "2-4 calls of eleven outcomes on 1-2 modelled workers, deaths, cancellations and late signals at every callback boundary; the model of the worker is what C25 checks.")
claim("C24", ASYNC, "Thirteen kinds of strangers, 1-2 (cancelled) closings, failing initializers and queue bounds, at every callback boundary.")
claim("C25", SEQ, "Request pairs and triples over 17 outcomes; a signal before every source line of the worker and of the function; connection loss at every socket operation.")
claim("C36", SEQ, "1-3 identities, every history of worker ends and interrupts of length <= 2 (thorough 4), every child of a fork, both supervisors, substituted system calls.")

claim("C26", SEQ, "All operation sequences of length 2 (thorough 3) from three states over six universes of names; zone additions/removals to depth 5 (6); every record type and argument.")
claim("C27", SEQ, "Answer sizes around 512/1232/4096/64K x announced sizes, every record type, every way of cutting 1-2 requests into 3 pieces, every malformed prefix.")
claim("C28", THREAD, "1-2 emitting threads, 5 kinds of target, bounded/unbounded and buffered/unbuffered queues, flush and 1-2 closes, preemption bound 1-3 at synchronisation operations or every source line (thorough +1).")
claim("C29", SEQ, "Product of levels, message and argument shapes, extras of odd names and kinds, exceptions and date formats; the bytes written by the handler are compared as well.")
claim("C30", ASYNC, "1-4 events on queues of size 1-3 over seven kinds of request outcome, failing callbacks, senders on other threads, one or two closes at every callback boundary; aiohttp substituted.")
claim("C31", SEQ, "Class hierarchies up to depth 3 (4), operation sequences up to depth 3-5, listings interrupted by changes; counters compared after component histories (thread pool under controlled threads).")
claim("C32", SEQ, "Product of declarations, defaults and arguments; all set/copy/pickle histories of length 3 (thorough 4); every service class of the package.")
claim("C34", SEQ, "Product of lengths, sizes, kinds of iterables, failure and give-up points; identifiers over one- and two-bit random patterns.")
claim("C33", ASYNC, "Product of environment and arguments; lifecycles of up to 2 further services, cancellations of the start, dynamic operations, up to 2 (3) failing or slow datagrams; sockets substituted, virtual clock.")
claim("C35", SEQ, "Product of configurations and peers judged by real TLS handshakes over memory buffers (eight of them also over the loopback network); file changes between 2 (3) connections.")
claim("C37", SEQ, "Product of exception/future/task states, of the other items and of item names; pairs of situations on a real event loop (normal and debug mode).")
claim("C38", ASYNC, "Thirteen kinds of processes x plans of cancelling/stopping at every callback boundary, up to 2 (3) successive processes; processes, multiprocessing events and signals are a model; executor functions and the real body of each process run on parked threads.")
claim("C39", ASYNC, "Periodic, cron, profiler, memory tracer and carbon services: run outcomes of length <= 3, stop and restart at every callback boundary; tracemalloc, cProfile and the carbon client are stand-ins.")
