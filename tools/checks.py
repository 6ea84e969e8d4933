"""What each check runs. Case counts bound the work; nothing here is a time limit."""

def run(harness, variant, quick, thorough, mode="", **kw):
    d = {"harness": harness, "variant": variant, "quick": quick, "thorough": thorough, "mode": mode}
    d.update(kw)
    return d

LOGS = ("CRIT", "ERR", "WARN", "INFO", "DBG")
EXPL = "exploration"
FAULT = "fault_enumeration"

CHECKS = {
    "C01": {
        "runs": [run("ring", "asan", 16000, 120000, "contents"), run("ring", "plain", 60000, 400000, "contents")],
        "level": EXPL,
        "rule": "random histories of writes, abandoned writes, clears and re-openings on arenas of random size, sizes biased to "
                "storage boundaries; after each batch every frame is read forwards and backwards and compared with a model. "
                "Distinct = different sequence of (operation, evicts, wraps, frames held) in a history that evicted something.",
        "min_distinct": 1000, "min_counters": {"frames_evicted": 10000, "wraps": 1000, "high_sequences": 1000},
    },
    "C02": {
        "runs": [run("ring", "asan", 16000, 120000, "account"), run("ring", "plain", 60000, 400000, "account")],
        "level": EXPL,
        "rule": "as C01 plus resizes and eviction forecasts; every query is compared with the model after each batch. "
                "Distinct = different operation/outcome sequence in a history that evicted something.",
        "min_distinct": 1000, "min_counters": {"resizes": 1000},
    },
    "C03": {
        "runs": [run("ring", "asan", 16000, 120000, "cursor"), run("ring", "plain", 60000, 400000, "cursor")],
        "level": EXPL,
        "rule": "two to four handles hold cursors while any of them writes, evicts and clears; before and after every move the "
                "cursor's validity, neighbours and bytes are compared with the model. Distinct = different operation/outcome sequence.",
        "min_distinct": 1000, "min_counters": {"stale_cursor_checks": 1000, "high_sequences": 1000},
    },
    "C04": {
        "runs": [run("crash", "plain", 48, 400, "enum"), run("crash", "plain", 5000, 50000, "chain")],
        "level": FAULT,
        "technique": "SIGKILL at every machine instruction of write-path scripts; survivors' views compared with the chain of states of a reference model",
        "rule": "scripts of open/lock/alloc/commit/clear/unlock from random storage states; in the first run every instruction of every "
                "operation is a crash point, in the second random crashes follow one another on the same storage. A fresh opener, an old handle, "
                "a process blocked on the lock and a sleeping waiter each have to see an allowed state. Distinct = different (program counter, "
                "operation, state found, bystanders) at the kill.",
        "min_distinct": 1500, "min_counters": {"blocked_lockers_released": 500, "sleeping_waiters_checked": 500},
    },
    "C05": {
        "runs": [run("conc", "plain", 12000, 120000, "step"), run("conc", "plain", 1600, 16000, "stress"), run("conc", "asan", 400, 4000, "stress")],
        "level": EXPL,
        "technique": "instruction-level schedule exploration with an online linearizability monitor, plus free-running stress with recorded histories",
        "rule": "stepped: 2-5 threads and processes open (also all at once for the first time), write, abandon, read, step back, take snapshots and "
                "clear, stopped at random machine instructions while others act; every result has to fit one sequential order. Stress: 2-8 threads "
                "and processes write frames of random sizes and read them; the writers' and readers' logs are compared afterwards. Distinct = "
                "different schedule in which something was stopped or blocked, or different stress history.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 2000, "frames_read_concurrently": 100000},
    },
    "C06": {
        "runs": [run("twait", "plain", 30000, 300000)],
        "level": EXPL,
        "technique": "instruction-level schedule exploration (self single-stepping actors) with an online linearizability and liveness monitor",
        "rule": "random schedules of waits on five kinds of condition, timed waits, writes, evictions, clears and shutdowns by 3-5 threads and "
                "processes on two handles; operations are stopped at random machine instructions while others act, and signals are delivered to "
                "sleepers. Distinct = different sequence of (actor, operation, stop point, result) in which something was stopped or blocked.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 5000},
    },
    "C07": {
        "runs": [run("mtx", "plain", 25000, 250000, "lock")],
        "level": EXPL,
        "technique": "instruction-level schedule exploration (self single-stepping actors) with an online linearizability and liveness monitor",
        "rule": "random schedules of lock/trylock/timedlock/unlock and misuse by 3-4 threads and processes; operations are stopped at random "
                "machine instructions while others act. Distinct = different sequence of (actor, operation, stop point, result) in which some "
                "operation was stopped midway or blocked.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 2000},
    },
    "C08": {
        "runs": [run("mtx", "plain", 25000, 200000, "death"), run("mtx", "plain", 12000, 100000, "cnd-death")],
        "level": FAULT,
        "technique": "SIGKILL/thread exit at instruction granularity with an online linearizability and liveness monitor",
        "rule": "as C07 with three mutexes (and condition waits), where actors are killed between operations, while blocked and at random machine "
                "instructions inside operations. Distinct = different schedule in which some operation was stopped, blocked or killed.",
        "min_distinct": 1000, "min_counters": {"deaths_mid_operation": 500, "deaths_while_blocked": 200},
    },
    "C09": {
        "runs": [run("mtx", "plain", 30000, 250000, "cnd")],
        "level": EXPL,
        "technique": "instruction-level schedule exploration with an online linearizability and liveness monitor",
        "rule": "as C07 with condition waits, timed waits, signals, broadcasts and refused waits. Distinct = different schedule in which some "
                "operation was stopped midway or blocked.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 2000},
    },
    "C10": {
        "runs": [run("poll", "asan", 40000, 400000)],
        "level": EXPL,
        "rule": "random histories of writes, evictions, clears and reads by several polling readers and subscribers (C and C++, in place and "
                "copying, every start and step mode), timed blocking reads included; every packet delivered and every can-read answer is compared "
                "with a model of the transport. Distinct = different sequence of operations and outcomes.",
        "min_distinct": 1000, "min_counters": {"packets_read": 10000, "nothing_new": 1000, "histories_with_eviction": 1000, "timeouts": 100, "woken": 100},
    },
    "C11": {
        "runs": [run("bg", "asan", 6000, 60000), run("bg", "plain", 12000, 120000)],
        "level": EXPL,
        "rule": "background readers and subscribers (C and C++, in place and copying, every start and step mode) run against writer threads with "
                "small topics, slow callbacks and closes at random moments; every callback's packet is compared with what was written, gaps "
                "with what was evicted, callbacks after close are trapped, and some callbacks try to close their own reader. Distinct = different set of readers and outcomes.",
        "min_distinct": 1000, "min_counters": {"callbacks": 10000, "closes_among_writers": 500, "gaps_checked": 500, "converged": 500, "closes_in_own_callback": 100},
    },
    "C12": {
        "runs": [run("pkt", "asan", 60000, 600000)],
        "level": EXPL,
        "rule": "random packets (up to five chained header blocks, duplicate, empty and long keys and values, payloads of 0 to 70000 bytes) in "
                "exactly sized heap blocks; every encode, decode, copy, statistic and lookup is compared with the source. Distinct = different "
                "packet shape (blocks, header and payload sizes).",
        "min_distinct": 1000, "min_counters": {"headers": 10000, "empty_payloads": 1000},
    },
    "C13": {
        "runs": [run("jump", "asan", 10000, 100000), run("jump", "plain", 16000, 200000)],
        "level": EXPL,
        "rule": "arenas that end at an unmapped page, filled with frames whose data imitates frame headers; offsets of live and evicted frames, "
                "aligned and unaligned offsets inside and just outside, and offsets near powers of two and the largest integer, through jump and "
                "random access in C and C++. Distinct = different history with at least one live frame.",
        "min_distinct": 1000, "min_counters": {"live_frames_reached": 10000, "accepted": 10000, "refused": 10000, "frames_ending_with_the_arena": 500},
    },
    "C14": {
        "runs": [run("dead", "plain", 16000, 150000, "sched"), run("dead", "plain", 24000, 200000, "death"),
                 run("dm", "plain", 12000, 120000, "topic"), run("dm", "asan", 1600, 16000, "topic")],
        "level": FAULT,
        "technique": "instruction-level schedule exploration and SIGKILL with an online linearizability and liveness monitor",
        "rule": "random schedules of lock/trylock/timedlock/unlock, waits for both states, state queries and shutdowns by 3-5 threads and "
                "processes with two handles each, through three interfaces; operations are stopped (second run: also killed) at random machine "
                "instructions. Then handles on real files are opened, used, closed by their holder and under blocked calls, and abandoned by "
                "threads that end, one after the other with blocked calls pending. Distinct = different sequence of (actor, operation, stop "
                "point, result) in which something was stopped, blocked or killed, or different sequence of commands.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 5000, "deaths_mid_operation": 500, "closed_by_holder": 3000,
                                               "closed_under_pending": 1000, "holder_died": 1000, "pending_returned": 5000},
    },
    "C15": {
        "runs": [run("dead", "plain", 16000, 150000, "token"), run("dead", "plain", 16000, 150000, "token-death"), run("dm", "plain", 6000, 60000, "tokens")],
        "level": EXPL,
        "technique": "instruction-level schedule exploration with an online linearizability and liveness monitor",
        "rule": "as C14 (the topic level included), weighted to waits that hand out or consume tokens and to state queries at rest. Distinct as C14.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 5000},
    },
    "C16": {
        "runs": [run("open", "plain", 8000, 80000, "race"), run("open", "asan", 1600, 16000, "race"),
                 run("open", "plain", 1600, 16000, "fault"), run("open", "asan", 240, 2400, "fault")],
        "level": FAULT,
        "technique": "traced child processes: a controller picks the order of their system calls and makes chosen ones fail; monitored directory, descriptors and mappings",
        "rule": "race: two to four processes open one missing path with different sizes, permissions and missing parent directories, interleaved system call "
                "by system call (some killed); after each call the path is looked at. fault: for a random setup every system call of the open fails once in turn "
                "(sometimes a second one as well). Distinct = different interleaving, or different (setup, failing call, error).",
        "min_distinct": 1000, "min_counters": {"lost_the_race": 1000, "failed_opens": 3000, "survived_faults": 1000, "killed_openers": 200, "large_files": 300},
    },
    "C17": {
        "runs": [run("fs", "asan", 12000, 120000, "paths"), run("fs", "asan", 3000, 30000, "long")],
        "level": EXPL,
        "technique": "randomized histories on random directory trees under address and undefined behaviour sanitizers, as an unprivileged user; whole-tree snapshots compared with a model",
        "rule": "random trees (links in, out, up, dangling; odd and long names; a twin tree in the current directory) and roots; open, iterate, remove and "
                "remove recursively under different spellings; the tree before and after each operation is compared with a model. Distinct = different tree and operations on an existing entry.",
        "min_distinct": 1000, "min_counters": {"trees_with_links_removed": 300, "directories_iterated": 1000, "unusable_paths_refused": 1000, "long_iterated": 500, "deep_trees": 300, "dangling_links_refused": 50},
    },
    "C18": {
        "runs": [run("discover", "plain", 6000, 60000), run("discover", "asan", 1600, 16000)],
        "level": EXPL,
        "technique": "a traced child process runs discovery; a controller changes the directory tree between any two of its system calls; announcements compared with the files made",
        "rule": "random patterns; files, links and directories are created, removed and recreated before the start, between any two system calls of the scan and "
                "event handling, and while it sleeps; event queue overflows, unreadable directories, missing descriptors, early closes. Judged when every thread sleeps. "
                "Distinct = different sequence of (pattern, system call at which something changed) with something to announce.",
        "min_distinct": 1000, "min_counters": {"announced": 20000, "changes_during_a_scan": 20000, "closed_early": 300, "floods": 5},
    },
    "C19": {
        "runs": [run("glob", "asan", 40000, 500000), run("glob", "plain", 64, 256, "all")],
        "level": EXPL,
        "rule": "random patterns (runs of stars, double-star segments, empty and dot segments, up to 45 segments, relative and absolute, five roots) "
                "against paths expanded from them, nearly matching ones and unrelated ones, in exactly sized heap strings; plus every pattern of a "
                "fixed length and all shorter ones over a,b,*,/ against all paths over a,b,/ up to that length (each run covers a slice). The oracle is "
                "a two-level dynamic programme. Distinct = different (wildcard pattern, matching path).",
        "min_distinct": 1000, "min_counters": {"matches": 50000, "mismatches": 50000, "too_deep": 1000},
    },
    "C20": {
        "runs": [run("map", "asan", 24000, 240000, "map"), run("map", "plain", 40000, 400000, "map")],
        "level": EXPL,
        "rule": "random put/delete/pop/get/has sequences over 3-255 (some maps: up to 6000) keys of 1-100 bytes with seven hash functions (constant, few values, high bits "
                "only, one crowded bucket), and hash or comparison made to fail at a random call; compared with a dictionary after every operation, "
                "with full iteration and lookup at intervals and after every failure. Distinct = different sequence of (operation, outcome) in a map "
                "with equal hashes.",
        "min_distinct": 1000, "min_counters": {"failing_callbacks": 5000, "full_comparisons": 10000, "maps_with_equal_hashes": 1000, "comparisons_of_large_maps": 300},
    },
    "C21": {
        "runs": [run("map", "asan", 40000, 400000, "cmp")],
        "level": EXPL,
        "rule": "sets of 3-9 values of each built-in type, biased to powers of two, differences of multiples of 2^31 and 2^32, shared prefixes, "
                "embedded zero bytes and empty buffers; all pairs and triples are checked for equality, antisymmetry, transitivity and equal hashes. "
                "Distinct = different value set.",
        "min_distinct": 1000, "min_counters": {"triples": 1000000, "equal_pairs": 5000, "cases_u32": 1000, "cases_ptr": 1000, "cases_buf": 1000, "cases_str": 1000, "cases_uuid": 1000},
    },
    "C22": {
        "runs": [run("wr", "plain", 8000, 80000, "headers"), run("wr", "asan", 1600, 16000, "headers")],
        "level": EXPL,
        "technique": "free-running threads and processes sharing writers of twelve kinds; the packets found afterwards compared with the recorded calls",
        "rule": "1-3 processes x 1-4 threads write through shared raw writers, publishers, loggers, configurations (C and C++), with the headers added "
                "together or one by one in random order with delays in between, in large and evicting topics; every packet's headers, payload, order and values are "
                "checked. Distinct = different order of (thread, writer) in the topic with at least one switch between threads.",
        "min_distinct": 1000, "min_counters": {"packets": 50000, "switches_between_threads": 20000, "shared_writer_histories": 1000, "multi_process_histories": 500},
    },
    "C23": {
        "runs": [run("wr", "asan", 16000, 160000, "chain", leaks=True)],
        "level": EXPL,
        "technique": "random composition trees of instrumented middleware under address, leak and undefined behaviour sanitizers, compared with a model of the steps",
        "rule": "up to six middlewares in random trees are pushed on and wrapped around one to four writers through C and C++; before every write each gets a "
                "behaviour (pass, stop, fail, pass and then fail, in either step), and the steps run, result, packet and lock are compared with the model; a rival writer "
                "runs beside some, and some closes fail. Distinct = different sequence of (trees, behaviours).",
        "min_distinct": 1000, "min_counters": {"failing_closes": 1000, "stopped_writes": 10000, "writes_with_rival": 5000, "wrapped_writers": 2000},
    },
    "C24": {
        "runs": [run("cfg", "plain", 16000, 160000, "merge"), run("cfg", "asan", 1600, 16000, "merge"), run("cfg", "asan", 64, 600, "large", leaks=True)],
        "level": EXPL,
        "technique": "free-running processes and threads with recorded calls; the chain of published values replayed with an independent merge implementation",
        "rule": "2-12 actors start together and write-if-empty, merge, write and send broken JSON through four interfaces; every published value has to be the merge of "
                "its predecessor and the patch, every refusal and every reported write has to have its reason, real-time order is respected. Plus documents up to a "
                "megabyte. Distinct = different order of (actor, operation) in the topic with at least one switch between actors.",
        "min_distinct": 1000, "min_counters": {"merges": 50000, "refused": 5000, "if_empty_lost": 5000, "switches": 50000, "large_documents": 50},
    },
    "C25": {
        "runs": [run("rpc", "plain", 5000, 50000, "rpc"), run("rpc", "asan", 1500, 15000, "rpc"), run("rpc", "tsan", 300, 3000, "rpc")],
        "level": EXPL,
        "technique": "free-running clients and servers; every call, callback and answer is recorded with a logical timestamp and the whole history is judged afterwards",
        "rule": "1-4 clients with 1-2 threads each send up to 25 (sometimes 260) requests by callback, without one, by future, blocking and with deadlines to 1-3 servers "
                "(C and C++) that answer at once, later, several times, all or not at all; clients cancel, servers come and go, clients close with answers under way, "
                "packets carry headers of other exchanges. Sentinels flush every stream before the history is judged. Distinct = different history shape.",
        "min_distinct": 1000, "min_counters": {"callbacks": 50000, "blocking_answered": 10000, "blocking_cancelled": 1500, "blocking_timed_out": 5000, "cancelled_in_time": 5000,
                                               "cancelled_too_late": 500, "cancels_told": 10000, "closed_before_answer": 5000, "requests_delivered": 100000, "servers_came_and_went": 500},
    },
    "C26": {
        "runs": [run("rpc", "plain", 5000, 50000, "prpc"), run("rpc", "asan", 1500, 15000, "prpc"), run("rpc", "tsan", 300, 3000, "prpc")],
        "level": EXPL,
        "technique": "free-running clients and servers; every call, callback and message is recorded with a logical timestamp and the whole history is judged afterwards",
        "rule": "1-4 clients with 1-2 threads each open up to 15 (sometimes 140) connections on which a server sends 0-100 messages, at once or from several threads, with or "
                "without completing and sometimes on after completion; clients cancel from outside, from the callback and each other's connections, and close with messages "
                "under way; up to two more servers listen. Sentinels flush every stream before the history is judged. Distinct = different history of deliveries.",
        "min_distinct": 1000, "min_counters": {"messages": 200000, "completed": 20000, "cut_by_cancel": 10000, "cut_by_close": 10000, "cancels_told": 10000,
                                               "extra_after_completion": 10000, "foreign_cancels": 1500},
    },
    "C27": {
        "runs": [run("log", "plain", 8000, 80000), run("log", "asan", 3000, 30000)],
        "level": EXPL,
        "technique": "free-running loggers and listeners; each listener's stream is compared with the filtered contents of the topic",
        "rule": "1-4 loggers (C and C++, by level and by name) and plain writers log messages of all levels and none, some passed on from other logs, to 1-5 listeners of "
                "every level, start and stepping mode, fast and slow, opened before and during the logging, some closed during it; small topics evict. "
                "Distinct = different (listener, number of messages, message in the middle).",
        "min_distinct": 1000, "min_counters": dict({"complete_streams": 5000, "without_level": 10000, "logged_UNKNOWN_heard_at_DBG": 500, "logged_UNKNOWN_heard_at_UNKNOWN": 50, "newest_only": 1000, "evicting": 1000, "closed_early": 1000},
                                                   **{"logged_%s_heard_at_%s" % (a, b): 2000 for a in LOGS for b in LOGS}),
    },
    "C28": {
        "runs": [run("cfg", "plain", 12000, 120000, "watch"), run("cfg", "asan", 2000, 20000, "watch")],
        "level": EXPL,
        "technique": "free-running writers, readers and watchers with timestamps taken around every call; freshness and order judged against completed writes",
        "rule": "1-2 writers (threads or processes) write numbered values in bursts through four interfaces while readers poll, block and time out and up to three "
                "watchers of three kinds, fast and slow, are created and closed; small topics evict. Distinct = different sequences of values delivered to the watchers.",
        "min_distinct": 1000, "min_counters": {"watcher_calls": 100000, "values_skipped": 50000, "reads": 100000, "unset_reads": 5000, "closed_early": 1000},
    },
    "C29": {
        "runs": [run("timestr", "asan", 40000, 400000)],
        "level": EXPL,
        "rule": "timestamps at and around decimal, calendar and range boundaries and random ones, as text and back through C and C++ in exactly sized "
                "buffers; one- and two-character corruptions and cut-off texts; sums with durations up to the extremes, compared with 128-bit "
                "arithmetic and an independent calendar. Distinct = different timestamp or sum.",
        "min_distinct": 1000, "min_counters": {"malformed_refused": 100000, "sums": 10000, "unrepresentable": 1000},
    },
    "C30": {
        "runs": [run("uuid", "plain", 6000, 60000)],
        "level": EXPL,
        "rule": "families of processes and threads that generate ids (directly and as packet ids) before, between and after forks from the main and "
                "other threads, concurrent threads, and threads starting when no descriptor can be opened; all ids of a family are compared. "
                "Distinct = different first id of a family.",
        "min_distinct": 1000, "min_counters": {"ids": 100000, "families": 1000, "concurrent_threads": 500, "without_descriptors": 200},
    },
    "C33": {
        "runs": [run("wr", "asan", 12000, 120000, "big")],
        "level": EXPL,
        "technique": "randomized packet and topic sizes through every writing layer under address and undefined behaviour sanitizers; the topic's contents compared before and after",
        "rule": "packets around, at and far beyond what fits are written through 23 layers (raw, publisher, logger, configuration, RPC and progress-RPC ends, C and "
                "C++) into empty, filled and wrapped topics of 160 bytes to 65 kB; refused ones must leave every byte of every packet and the lock as they were and the next "
                "write must work. Distinct = different (layer, topic size, payload size, packets before) that was refused.",
        "min_distinct": 1000, "min_counters": {"refused": 10000, "fitted": 5000, "next_writes": 10000, "refused_rpc reply": 300, "refused_prpc send": 300, "refused_cfg merge": 300, "refused_C++ cfg write-if-empty": 200},
    },
    "C31": {
        "runs": [run("race", "tsan", 8000, 80000), run("race", "asan", 4000, 40000)],
        "level": EXPL,
        "technique": "random concurrent programs over every kind of object under ThreadSanitizer, with each file mapped once per process so that accesses through different handles meet, and under AddressSanitizer and UBSan",
        "rule": "two to four threads open, use and close objects of 17 kinds through both interfaces on one or two topics and share those that may be shared, with background readers, RPC ends, "
                "discoveries and blocked dead-man's switches coming and going. Distinct = different programs.",
        "min_distinct": 4000, "min_counters": {"programs": 10000, "threads": 30000, "calls": 300000, "callbacks": 100000, "mappings shared": 10000},
    },
    "C32": {
        "runs": [run("leak", "asan", 800, 8000, leaks=True)],
        "level": EXPL,
        "technique": "random scripts opening, using and closing every kind of object, repeated in one process; descriptors, mappings, threads and files compared, live heap blocks counted through the allocator's hooks, leak sanitizer at the end",
        "rule": "6..36 steps (60 thorough) over 15 kinds of objects through both interfaces: opening, using, closing in any order, three threads creating one topic at once, openings that fail, threads that cannot be started. "
                "Every script runs at least three times; blocks or mappings that grow in each of 14 runs count as kept. Distinct = different scripts.",
        "min_distinct": 400, "min_counters": {"scripts": 700, "calls": 30000, "callbacks": 10000, "created at once": 800, "refused": 700, "threads refused": 150},
    },
    "C34": {
        "runs": [run("modes", "asan", 10000, 100000, "modes"), run("modes", "plain", 20000, 300000, "modes")],
        "level": EXPL,
        "technique": "randomized series of shared, exclusive and read-only openings of one file, run as an unprivileged user; results compared with a model, the file's bytes watched from outside",
        "rule": "each file is opened 3 to 10 times in random modes, some openings and processes ending in the middle of a write. Every read operation is compared with a "
                "model after every step, every writing and waiting call is tried where it has to be refused, the bytes of the file are compared after every call made "
                "read-only, and another thread works while an exclusive handle is locked. Distinct = different series of openings and operations using both modes.",
        "min_distinct": 2000, "min_counters": {"read_only_openings": 10000, "exclusive_openings": 10000, "left_in_mid_write": 2000, "refusals": 20000, "unlocked_uses": 1000},
    },
    "C35": {
        "runs": [run("modes", "asan", 12000, 100000, "oldformat"), run("modes", "plain", 30000, 300000, "oldformat")],
        "level": EXPL,
        "technique": "images generated by a model of the old writer, opened by the real code in every mode and used further against a model under address and undefined behaviour sanitizers",
        "rule": "images of 200 bytes to 9 kB with up to 60 writes, wrapped, evicted, cleared, with either state copy current, the other copy stale, newer or garbage, and "
                "unfinished writes; opened shared, exclusively and read-only, read back completely, written to until frames are evicted, and re-opened. "
                "Distinct = different (frames, current copy, evictions, later operations).",
        "min_distinct": 5000, "min_counters": {"first_copy_current": 3000, "second_copy_current": 3000, "old_frames": 20000, "images_with_evictions": 2000, "images_with_a_torn_write": 2000},
    },
    "C36": {
        "runs": [run("evl", "plain", 30000, 300000)],
        "level": EXPL,
        "technique": "instruction-level schedule exploration with an online linearizability and liveness monitor",
        "rule": "random schedules of event set/clear/wait/timed wait and latch count-down/arrive/wait by 3-6 threads and processes; operations "
                "are stopped at random machine instructions. Distinct = different schedule in which something was stopped or blocked.",
        "min_distinct": 1000, "min_counters": {"stopped_mid_operation": 5000, "blocked": 5000},
    },
    "C37": {
        "runs": [run("fs", "asan", 12000, 120000, "topic")],
        "level": EXPL,
        "technique": "randomized topic names, templates and environment overrides under address and undefined behaviour sanitizers; the set of files created compared with a model",
        "rule": "sequences of openings of every kind of topic with random names and templates (placeholder look-alikes, separators, repeated placeholders, absolute templates), "
                "and bad ones; after each the exact set of files is compared. Distinct = different sequence of (kind, template, name).",
        "min_distinct": 1000, "min_counters": {"bad_refused": 3000, "opened": 10000, "shared": 3000},
    },
    "C38": {
        "runs": [run("scarce", "asan", 24000, 240000, "scarce"), run("scarce", "plain", 12000, 120000, "scarce")],
        "level": EXPL,
        "technique": "fault injection into the caller's allocator and into thread creation under address and undefined behaviour sanitizers; deliveries compared with a model, descriptors, mappings and threads counted",
        "rule": "polling reads, configuration reads and blocking requests whose allocator refuses chosen calls with chosen errors; eight kinds of background readers whose allocator refuses "
                "chosen packets; every kind of object created while one or two thread starts are refused, then created again and used. Distinct = different series of refusals, kinds of objects.",
        "min_distinct": 1000, "min_counters": {"refused_reads": 5000, "granted_reads": 10000, "refused_packets": 10000, "refused_threads": 2000, "delivered_packets": 15000},
    },
}
