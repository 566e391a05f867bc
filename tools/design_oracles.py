# property -> (oracle, cost)
ORACLES = {
"C01": ("each call's argument determines the only acceptable results: the value made for it, the exception of an execution which received it, `ResultNotSetError`, or its own cancellation; the recorded executions say which.", "quick 16 s"),
"C02": ("batch boundaries recomputed from the arrival instants, the window and max_count (an independent 30-line scheduler), with latitude only where arrival and deadline coincide.", "quick 10 s"),
"C03": ("a reference machine of attempts, pauses and deadlines under virtual time predicts the number, instants and arguments of attempts and the final result or the *identity* of the exception.", "quick 8 s"),
"C04": ("completion order recorded by the awaitables themselves; acceptable winners are those completed in the first completing loop iteration; losers must have seen a cancellation and be finished when `select` returns.", "quick 45 s"),
"C05": ("recorded starts, ends and cancellations of the inner function; `asyncio.wait_for` semantics for the timeout decorator; identity of results and exceptions.", "quick 10 s"),
"C06": ("an executable state machine (passing / broken / recovering, statistics per time bucket) written from the documentation, run in lock step; the admission lottery is a choice of the explorer.", "quick 25 s"),
"C07": ("every submitted function logs its runs; exactly one run per call that was not cancelled before, outcome identity, which thread ran it, and the number of workers.", "quick 20 s"),
"C08": ("after shutdown: no running worker, every future done in the thread of its loop, later submissions refused; no schedule without runnable threads.", "quick 25 s"),
"C09": ("the list of items the iterable yields, followed by its own end or exception; how far the producer is ahead is compared with max_size.", "quick 35 s"),
"C10": ("the generator has been closed and its thread is free when the closing operation returns; no deadlock.", "quick 40 s"),
"C11": ("the coroutine's own result/exception/cancellation is the thread's.", "quick 15 s"),
"C12": ("a ledger of instances: creations, health checks (with results), users, destructions, recycle deadlines.", "quick 12 s"),
"C13": ("the same ledger: at rest, `maxsize` further acquisitions succeed at once, and after close every created instance has been destroyed exactly once.", "quick 25 s"),
"C14": ("expected instants of runs computed from the strategy's answers; at most one run at a time; none after stop returned.", "quick 20 s"),
"C15": ("the list of matching moments computed by brute force over all minutes/seconds of the horizon.", "quick 10 s"),
"C16": ("the latest set before a read was applied wins; readers which began before the first set get it.", "quick 25 s"),
"C17": ("a model of receiver sets (connect, disconnect, copy, freeze) and of the phases of an entrypoint.", "quick 5 s"),
"C18": ("per service: started at most once, stopped exactly once iff its start succeeded, exceptions reported as specified, exit order.", "quick 17 s"),
"C19": ("a ledger of connections/datagrams and handler tasks; after stop nothing is open or running.", "quick 15 s"),
"C20": ("a reference list of attempt instants, handled connections and the reported result for every sequence of connection results.", "quick 5 s"),
"C21": ("the synchronous file of the same class executing the same operations (differential); the thread of every operation.", "quick 40 s"),
"C22": ("an independent encoder/decoder of the wire format.", "quick 10 s"),
"C23": ("each call's payload determines the acceptable results; the model workers log what they executed.", "quick 42 s"),
"C24": ("strangers never receive a task or cookie material; after close all calls are settled, sockets closed, processes told to end.", "quick 46 s"),
"C25": ("a list of expected packets per request; signals delivered before every source line.", "quick 25 s"),
"C26": ("a flat list of (zone, record) pairs searched linearly.", "quick 20 s"),
"C27": ("the answer recomputed from the same flat list with the size rules of RFC 1035/6891; parsed with dnslib.", "quick 15 s"),
"C28": ("the accepted records in order per emitter; emit never blocked while the target or the background thread works; bounded queue rules.", "quick 13 s"),
"C29": ("the line is parsed by `json` in strict mode and compared field by field with values derived from the record.", "quick 7 s"),
"C30": ("a ledger of accepted events, requests, callbacks; after close nothing is open or pending.", "quick 23 s"),
"C31": ("a dictionary of counters updated with the same operations; component histories counted by the harness.", "quick 12 s"),
"C32": ("set algebra of declared/required/given parameters; attribute dictionaries before and after copying.", "quick 4 s"),
"C33": ("the expected datagrams with their instants, computed from the recorded life of all services.", "quick 4 s"),
"C34": ("slices of the materialised sequence; a counting iterator for laziness; RFC 4122 bits.", "quick 1 s"),
"C35": ("a truth table (who trusts whom, versions, ciphers) against real handshakes.", "quick 4 s"),
"C36": ("a ledger of identities, running children and signals under substituted fork/wait/kill.", "quick 10 s"),
"C37": ("the record expected for every report, built from the report; identity of exceptions and items.", "quick 10 s"),
"C38": ("a ledger of processes (launched, running, interrupted, killed, dead) with instants; the real target runs on a parked thread as the body of the modelled process, so its arguments, logging and events are bound to the code.", "quick 14 s"),
"C39": ("the instants of begin and end of every run against the interval or cron arithmetic, and a ledger of what the stand-ins for tracemalloc, cProfile and the client were told.", "quick 15 s"),
}
