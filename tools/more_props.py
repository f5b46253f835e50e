prop(
    "C11",
    "Clients report exactly what happened to every block, and end with the server",
    "When user code leaves acquire_block, the block is returned exactly once, with the right outcome: success if it ended "
    "normally (or set the status to success), failure if it raised any exception, was interrupted or set another status. "
    "Exceptions raised while processing a block are reported to the server together with block and worker context, whatever "
    "exception it is (also ones that cannot be pickled), are not raised in the client, and do not keep it from continuing; "
    "KeyboardInterrupt and SystemExit pass through. If the server is gone (or tells that there is nothing more to do) "
    "acquire_block yields None, whenever this is noticed: leaving a block whose server is gone raises nothing, and all later calls of acquire_block yield None as well; a client that comes after the end of a run does not wait forever.",
    ["inputs", "histories", "fault_sequences"],
    "all ways user code can leave a block, all exceptions with a working repr, all times at which the server can go away",
    "Tests raise one exception in one client; unusual exceptions and servers that vanish between two steps are not reached.",
    [D + "client.py", D + "messages/message.py", D + "server.py", D + "tcp/tcp_client.py", D + "tcp/tcp_server.py"],
    [{"name": "context manager around a block", "where": "client.py acquire_block"},
     {"name": "transport of exceptions", "where": "messages/message.py ExceptionMessage"},
     {"name": "end of connections", "where": "tcp/tcp_server.py disconnect, handle_stream"}],
    "trace monitor: client-side outcomes matched one to one with what the server accepted and reported",
    "Real Client objects with randomized outcomes against the real server; every outcome and exception is matched.",
    level="fault_enumeration",
    observe=["daisy.Client.acquire_block", "ServerObserver.on_block_failure", "Scheduler.release_block"],
)
prop(
    "C12",
    "A lost client costs its block one attempt, and nothing else",
    "If a client disappears (crash, kill, closed connection, proper disconnect, exit inside a block) while it has a block, the "
    "server notices, "
    "counts exactly one failed attempt for that block, and offers it to other clients unless its retries are used up. No other "
    "block is affected, what a client returned before it disconnected properly counts, a late return through another connection has "
    "no effect, requests of clients that are gone cost nothing, "
    "and blocks of live clients are never taken away (unless a processing timeout is configured and exceeded).",
    ["schedules", "fault_sequences", "crash_points"],
    "all points at which a client can disappear, any number of clients and losses, all interleavings with returns",
    "Tests kill a worker at one point; double counting or a stuck block needs a loss at a particular moment.",
    [D + "block_bookkeeper.py", D + "server.py", D + "tcp/tcp_stream.py", D + "tcp/tcp_server.py"],
    [{"name": "lost blocks", "where": "block_bookkeeper.py get_lost_blocks, server.py _check_for_lost_blocks"},
     {"name": "closed streams", "where": "tcp/tcp_stream.py closed"}],
    "fault injection (dropped connections, SIGKILLed processes) with conservation monitor over hand-outs and returns",
    "Losses are injected at planned and random points in TCP and process runs; hand-outs, returns and losses must balance.",
    level="fault_enumeration",
    observe=["BlockBookkeeper", "Scheduler.release_block", "attempts in worker processes"],
)
prop(
    "C13",
    "The number of workers is what was asked for; crashed workers are replaced",
    "A pool runs exactly the number of worker processes it was last told to; if lowered, the youngest are terminated (and gone "
    "when the call returns), if raised, new ones with new unique ids are started, also with concurrent callers. Workers that "
    "die by a signal or a non-zero exit code are counted once and replaced one to one; workers that exit normally are not "
    "replaced; a worker whose blocks failed more than max_block_failures times is replaced, and failures of clients that are no "
    "workers of the pool have no effect. No more than num_workers blocks of a task are ever processed in its workers at a time.",
    ["histories", "fault_sequences", "schedules"],
    "all sequences of settings, crashes, exits and failures, any number of tasks and threads",
    "Tests start and crash a few workers; growing or shrinking pools need particular sequences.",
    [D + "worker_pool.py", D + "task_worker_pools.py", D + "worker.py"],
    [{"name": "set_num_workers, reap_dead_workers", "where": "worker_pool.py"},
     {"name": "health checks and failure counts", "where": "task_worker_pools.py"}],
    "reference model of the pool compared with the live process table after every operation",
    "Random operation sequences with real processes; judged by processes that exist. SIGTERM-ignoring workers are not covered.",
    level="fault_enumeration",
    observe=["processes", "DAISY_CONTEXT of workers", "WorkerPool and TaskWorkerPools methods"],
)
prop(
    "C14",
    "A run leaves no workers behind, and does not hide exceptions",
    "When run_blockwise returns or raises, no worker process of the run is alive, no block is processed any more and no client "
    "is left waiting. An exception that leaves a worker's spawn function, an init callback or an observer ends the run "
    "and is raised by run_blockwise (spawn exceptions that cannot be transported are described by another exception).",
    ["fault_sequences", "schedules"],
    "all runs and all points at which such an exception can occur, all exceptions",
    "Tests do not look at processes after a run; leftovers depend on crashes and on the moment of the exception.",
    [D + "server.py", D + "worker_pool.py", D + "worker.py", D + "convenience.py"],
    [{"name": "clean up", "where": "server.py run_blockwise finally"}, {"name": "error queue", "where": "worker.py _spawn_wrapper, worker_pool.py check_for_errors"}],
    "process-table monitor after every run, with exceptions injected into spawn functions, callbacks and observers",
    "After every run (normal, failing, crashing, raising) all processes of the session are listed.",
    level="fault_enumeration",
    observe=["process table", "exceptions of run_blockwise"],
)
prop(
    "C15",
    "Every worker receives its context unchanged",
    "All values put into a context arrive in the worker (also in commands started by it) through the environment as they were "
    "given (as strings), together with the log directory and a worker id that no other worker has; values that cannot be "
    "passed on are refused when they are set. Copies are independent, starting workers changes neither the context "
    "of the pool nor the environment of the main process, and workers connect to the server and get blocks of the task they were started for.",
    ["inputs", "schedules"],
    "all keys and values without ':' and '=', any number of workers and pools",
    "Tests pass a few fixed values; blanks, unicode, paths or shared contexts are not reached.",
    [D + "context.py", D + "worker.py", D + "worker_pool.py", D + "task_worker_pools.py", D + "client.py"],
    [{"name": "to_env/from_env", "where": "context.py"}, {"name": "worker id", "where": "worker.py Worker.__init__"}],
    "runtime monitor: contexts recorded inside real workers and commands compared with what was given",
    "Random contexts through the real path into processes.",
    observe=["DAISY_CONTEXT in workers", "Context"],
)
prop(
    "C16",
    "Messages arrive exactly once, unchanged and in order, until a connection ends",
    "Messages of any size sent through a connection by any number of threads arrive exactly once, unchanged, in the order each "
    "thread sent them, at the right peer and marked with the stream they came from, in both directions and independent of other connections. A graceful "
    "disconnect loses none of the messages sent before and is not reported as a lost connection; a broken connection is reported exactly once at the server and "
    "makes waiting clients raise instead of waiting forever; connecting to a server that is not there raises.",
    ["inputs", "schedules", "fault_sequences"],
    "all message sizes (up to tens of megabytes), numbers of clients and threads, interleavings and ends of connections",
    "Tests send one message; framing and order break for particular sizes, concurrency or disconnects.",
    [D + "tcp/tcp_stream.py", D + "tcp/tcp_server.py", D + "tcp/tcp_client.py", D + "tcp/io_looper.py"],
    [{"name": "framing", "where": "tcp/tcp_stream.py _send_message, _get_message"},
     {"name": "disconnect handshake", "where": "tcp_client.py disconnect, tcp_server.py handle_stream"}],
    "offline checker of recorded message histories (FIFO, exactly-once, content) under concurrency and injected disconnects",
    "Sequence numbers and content of all messages are checked at both ends.",
    level="fault_enumeration",
    observe=["TCPServer.get_message", "TCPClient.get_message"],
)
prop(
    "C18",
    "run_blockwise runs all upstream tasks and returns True only if all succeeded",
    "run_blockwise processes the given tasks and everything upstream of them, each task once, in whatever order, number or "
    "combination they are given, and does not change the caller's list or tasks. With multiprocessing it returns True if every block "
    "of all these tasks was completed (or skipped), and False if any failed, was orphaned or not processed.",
    ["inputs", "fault_sequences"],
    "all task graphs (chains, diamonds, independent), all lists of tasks, all outcomes",
    "Tests run single tasks and one chain that succeed; missed upstream tasks and wrong results need diamonds and failures.",
    [D + "convenience.py", D + "server.py", D + "serial_server.py"],
    [{"name": "collection of tasks", "where": "convenience.py run_blockwise"}, {"name": "result", "where": "convenience.py _run_blockwise"}],
    "runtime monitor: processed blocks and return value compared with the prediction from planned outcomes",
    "Real process runs of random task graphs with planned outcomes.",
    observe=["return value of run_blockwise", "process functions"],
)
prop(
    "C19",
    "The result of a run does not depend on how it is executed",
    "If the outcome of processing a block depends on the block (and the attempt) only, every run - serial or distributed, with "
    "any number of workers and any timing - processes the same blocks the same number of times and ends with the same task "
    "states: those that follow from the outcomes and the dependencies.",
    ["inputs", "schedules"],
    "all task sets, all assignments of outcomes, skipped blocks and crashes, any number of workers, any timing",
    "Tests compare neither; differences show for combinations of failures, skips and dependencies.",
    [D + "serial_server.py", D + "server.py", D + "scheduler.py", D + "task.py"],
    [{"name": "serial loop", "where": "serial_server.py run_blockwise"}, {"name": "event loop", "where": "server.py"}],
    "differential runtime oracle: attempts and states of serial and multi-process runs against one prediction",
    "The prediction uses the declared order of blocks within tasks and geometric dependencies between tasks.",
    observe=["process functions", "returned task states"],
)
prop(
    "C22",
    "What workers print ends up in their own log files",
    "Every complete line a worker prints (stdout or stderr, through Python, file descriptors or commands) while it "
    "processes blocks is in the log file of that worker and stream, in order and only there - also if the worker crashes or is terminated "
    "when the run ends. With the log directory set to None nothing is redirected and no file is created.",
    ["inputs", "fault_sequences", "schedules"],
    "all workers and tasks, all outcomes including crashes, all ends of runs",
    "Tests never read logs; buffered output is lost only when workers are terminated.",
    [D + "logging.py", D + "worker.py", D + "client.py"],
    [{"name": "redirection", "where": "logging.py redirect_stdouterr, _file_reopen"}],
    "offline comparison of log files with the recorded output of every worker",
    "All lines of all workers of randomized process runs are compared.",
    observe=["log files", "terminal output"],
)
prop(
    "C23",
    "A stopped or interrupted run ends soon, cleanly and with true results",
    "Setting the stop event at any time, or ^C during run_blockwise (to the main process or to all processes), ends the run within "
    "bounded time: all workers are gone, no block is processed any more, observers are told about the end once, the counts add up "
    "and claim no block that was not completed, and run_blockwise does not return True unless all blocks succeeded.",
    ["schedules", "crash_points"],
    "all times at which a run can be stopped, all states of workers and blocks",
    "Tests never stop a run early.",
    [D + "server.py", D + "convenience.py", D + "worker.py", D + "worker_pool.py"],
    [{"name": "event loop", "where": "server.py _event_loop"}, {"name": "KeyboardInterrupt", "where": "convenience.py run_blockwise, worker.py _spawn_wrapper"}],
    "fault injection: stop events and SIGINT at random points, process-table and state monitors",
    "Sampled stop times over real process runs; bounded by 45 s three times.",
    level="fault_enumeration",
    observe=["process table", "returned states", "worker log of begun blocks"],
)
prop(
    "C24",
    "The execution summary tells what happened",
    "After every run the printed summary lists every task that was started or finished exactly once, with the numbers of blocks, "
    "completed, skipped, failed and orphaned blocks equal to the final task states, claims success exactly for tasks with all blocks "
    "completed, and accounts for every exception raised while processing blocks exactly once (block, worker and exception, or in "
    "the number of omitted entries).",
    ["inputs", "fault_sequences"],
    "all runs, serial and distributed, all outcomes, any number of exceptions",
    "Tests never read the summary.",
    [D + "cl_monitor.py"],
    [{"name": "summary", "where": "cl_monitor.py on_server_exit"}, {"name": "failures", "where": "cl_monitor.py on_block_failure"}],
    "offline comparison of parsed output with recorded events and states",
    "The text is parsed by its labels; progress bars are not judged.",
    observe=["standard output"],
)
prop(
    "C25",
    "Runs in one process do not affect each other or the process",
    "Any number of runs in one process, one after the other or at the same time in several threads, distributed or serial, "
    "successful, failing, raising or stopped, also with the same task objects again and inside of workers of another run, each "
    "behave as they do alone. A run leaves nothing behind that accumulates: no threads, file descriptors, child processes or "
    "objects, and does not change the environment, working directory, signal handlers or standard streams of its caller.",
    ["histories", "schedules"],
    "all sequences and combinations of runs in one process, started by any thread",
    "Tests run each case once and do not look at what is left; leaks and disturbances need several runs, or threads.",
    [D + "convenience.py", D + "tcp/io_looper.py", D + "tcp/tcp_server.py", D + "tcp/tcp_stream.py", D + "server.py", D + "worker.py"],
    [{"name": "IO loop of the process", "where": "tcp/io_looper.py IOLooper"},
     {"name": "end of a run", "where": "server.py run_blockwise, tcp/tcp_server.py disconnect"}],
    "runtime monitor: runs judged as if alone, resource and process-state monitor before and after",
    "Seeded sequences of up to 11 runs; a run that is not as expected is repeated alone before it counts. Resources are compared "
    "between the third and the last of equal runs.",
    observe=["process functions", "/proc/self", "live objects of daisy", "returned states"],
)
prop(
    "C26",
    "Clients reach the server at the address it announces, in any network",
    "The address a server announces (to workers, callbacks and in its attributes) is one at which clients reach it: the host it was "
    "given, otherwise the address of the default route if TCP connections to it work in both directions, otherwise 127.0.0.1. This "
    "holds without any route, and if that address can not be bound, connected to, accepted from or read from. Ports that can not "
    "be used are skipped, and NoFreePort is raised after the allowed number of tries.",
    ["inputs", "fault_sequences"],
    "all default routes, all ways in which connections to an address fail, any number of busy ports",
    "Tests run in one network, where the announced address happens to work.",
    [D + "tcp/tcp_server.py", D + "server.py", D + "task_worker_pools.py", D + "client.py"],
    [{"name": "address detection", "where": "tcp/tcp_server.py _get_address, _validate_address"},
     {"name": "port search", "where": "tcp/tcp_server.py __init__"}],
    "fault injection: sockets of a faked network, real message exchange and runs at the announced address",
    "Methods of socket.socket are wrapped to fake routes and failures; clients and runs of the same network have to succeed.",
    level="fault_enumeration",
    observe=["TCPServer.address", "Context of workers and callbacks", "messages exchanged"],
)
