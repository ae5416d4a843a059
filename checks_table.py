ASSUME = [
    "sequentially consistent memory (weak-memory reorderings are not simulated)",
    "the scratch file system under the interposed calls (tmpfs) behaves as a plain POSIX file system",
]
FSREAL = "all AlayaLite code reached by the workload, libstdc++ streams and std::filesystem, unmodified"
FSSTUB = "libc file calls, clocks and randomness are simulator seams; crash images, lost/torn data and I/O errors come from its durability model"
SCHREAL = "the AlayaLite code under test, libstdc++ threads, mutexes, condition variables and futures, unmodified and instrumented at every memory access"
SCHSTUB = "pthread, futex, clock and sleep calls are scheduler seams: one thread runs at a time and a seeded scheduler picks every switch"
DKREAL = "DiskANNIndex with its page I/O, searches, updates, slot allocator and persistence, the libaio reader and the io_uring reactor, unmodified and instrumented at every memory access"
DKSTUB = SCHSTUB + "; libaio and io_uring calls are device models on simulated time over the scratch files; libc file calls carry injected errors; libcoro (not installed) is a minimal stand-in; OpenMP regions (index builds only) run sequentially"
LSSTUB = SCHSTUB + "; libaio is an asynchronous device model on simulated time over the scratch files; OpenMP is a stand-in on simulated threads; libc file calls carry injected errors"
CHECKS = {
    "C19": dict(harness="pool", quick_s=35, thorough_s=420, real=SCHREAL, stubs=SCHSTUB,
        technique="seeded schedule simulation of the thread pool against per-task run counters",
        note="1-4 workers, 1-3 submitting threads, one or two waiters, throwing tasks, reuse after reset and destruction with queued tasks, with preemption at every lock, atomic and memory access and spurious wakeups",
        rule="A run builds a pool of 1-4 workers and does 1-3 rounds of 0-8 tasks (some throwing, some slow) from 1-3 submitting threads with one or two waiters, then destroys it, perhaps with tasks queued; a seeded random-walk or priority scheduler decides every interleaving. Non-trivial: at least one task was enqueued."),
    "C20": dict(harness="coros", quick_s=35, thorough_s=420, real=SCHREAL, stubs=SCHSTUB + "; libcoro (not installed) is a minimal task/when_all stand-in",
        technique="seeded schedule simulation of the coroutine scheduler and workers with data-race detection",
        note="1-4 workers, 0-8 jobs scheduled before or while workers run, some rescheduling themselves many times, from several threads, with or without begin/join cycles; each job must run to completion exactly once and never on two workers at once",
        rule="A run starts the scheduler with 1-4 workers, schedules 0-8 coroutine jobs from 1-3 threads (before start, while running) each yielding 0-4 times, and joins; a seeded scheduler decides every interleaving, a third of the runs with vector-clock race detection. Non-trivial: at least one job was scheduled."),
    "C15": dict(harness="slots", quick_s=35, thorough_s=420, real=SCHREAL, stubs=SCHSTUB + "; file calls carry injected errors",
        technique="seeded schedule and fault simulation of slot allocator and tombstones against an ownership ledger and per-mark histories",
        note="1-3 mutating threads under the caller's lock, lock-free readers judged against the history of each mark, snapshots, failing allocations, saves under write errors, reloads; ids around word and chunk borders",
        rule="A run drives an allocator (or the bare bitmap) with 1-3 mutating threads and 0-2 readers for 2-11 operations each, with failing allocations, then saves it with or without injected write errors and reloads it. Non-trivial: at least one slot was allocated or mark written."),
    "C21": dict(harness="gate", quick_s=35, thorough_s=420, real=SCHREAL, stubs=SCHSTUB + "; libcoro (not installed) is a minimal task/thread_pool stand-in",
        technique="seeded schedule simulation of gate and locks with exclusion counters, race detection and admission-order checks",
        note="async gate with 1-3 objects and up to 6 clients on 1-3 pool threads, spin lock, shared lock with upgrade and downgrade, file lock with interrupted and failing calls; 2-4 threads each",
        rule="A run picks one of gate, spin lock, shared lock, shared-together, file lock, and lets 2-6 threads or coroutines use it 1-4 times each; half of the runs detect data races on what the lock protects. Every run is non-trivial."),
    "C25": dict(harness="publish", quick_s=35, thorough_s=420, real=FSREAL, stubs=FSSTUB,
        technique="seeded crash/fault simulation of publications against the set of acknowledged and attempted versions",
        note="files and directories published with and without overwriting under kills, power losses (journaled or per-directory metadata, lost/torn data), failing, short and interrupted calls; racing publishers under seeded schedules; bounded readers under read faults",
        rule="A run is 1-4 process lives of 1-8 publications each to six names with seeded crash points and I/O errors, or a race of 2-4 publishers for one name. Non-trivial: at least one publication succeeded."),
    "C01": dict(harness="recovery", mode="C01", quick_s=35, thorough_s=420, real=FSREAL + ", instrumented at every memory access", stubs=FSSTUB + "; " + SCHSTUB,
        technique="seeded crash/fault simulation of the log against a map of acknowledged operations",
        note="samples histories of up to 5 lives x 17 operations with process kills, power losses (journaled or per-directory metadata, lost, torn or zero-filled unsynced data) and failing/short writes, reads, stats, syncs, opens, by one thread or several that append and replay together; every acknowledged commit must be replayed with its payload, or the replay report the failing read",
        rule="A run is a chain of 2-5 process lives over one log directory; each life does 3-16 seeded operations (mutate, prepare only, snapshot, reopen, sync, several threads mutating and replaying) with seeded crash points, injected I/O errors and clock steps. Non-trivial: at least one commit or publication was acknowledged."),
    "C02": dict(harness="recovery", mode="C02", quick_s=35, thorough_s=420, real=FSREAL + ", instrumented at every memory access", stubs=FSSTUB + "; " + SCHSTUB,
        technique="seeded crash/fault simulation of the log against the set of attempted operations",
        note="same runs as C01 with the converse oracle: nothing uncommitted, damaged, duplicated, out of order or below the boundary is replayed; ids never fall back",
        rule="As C01. Non-trivial: at least one commit or publication was acknowledged."),
    "C03": dict(harness="recovery", mode="C03", quick_s=35, thorough_s=420, real=FSREAL + ", instrumented at every memory access", stubs=FSSTUB + "; " + SCHSTUB,
        technique="seeded crash/fault simulation of snapshot publication against the published states",
        note="snapshots of several component files are published under crashes, I/O errors and clock stalls or jumps; the active snapshot must be the last published or an interrupted later one, complete, and with the log cover every acknowledged operation",
        rule="As C01 with snapshots always enabled. Non-trivial: at least one commit or publication was acknowledged."),
    "C07": dict(harness="diskcol", mode="C07", quick_s=35, thorough_s=420, real=FSREAL, stubs=FSSTUB + "; OpenMP regions run sequentially",
        technique="seeded crash/fault simulation of disk collections against the set of flushed labels and exact search",
        note="flat and Vamana collections, three metrics; kills and power losses (journaled or per-directory metadata, lost or torn data), I/O errors, failing mmap and allocations around add, flush and reopen; every search compared with an exact one over the expected records",
        rule="A run is a chain of process lives over one collection; each does seeded adds, flushes, reopens and searches with seeded crash points and faults. Non-trivial: at least one flush was acknowledged."),
    "C08": dict(harness="diskcol", mode="C08", quick_s=35, thorough_s=420, real=FSREAL, stubs=FSSTUB + "; OpenMP regions run sequentially",
        technique="seeded fault simulation of adds and flushes with retry against the state before the call",
        note="bad input, duplicate labels, full pending buffers, I/O errors, failing mmap and allocations; after a failure size, searches and pending rows must be as before and the repeated call must succeed",
        rule="As C07 with the emphasis on failing calls and retries. Non-trivial: at least one flush was acknowledged."),
    "C09": dict(harness="diskmt", mode="C09", quick_s=35, thorough_s=420, real=SCHREAL, stubs=SCHSTUB + "; process deaths are simulated kills of a life; lock and file calls carry injected errors",
        technique="seeded schedule, kill and fault simulation of racing creators and openers with an owner counter",
        note="1-4 threads create, open, move, use and close handles of one path, over up to 3 process lives with kills while owning; at most one owner, one creation, refused attempts only when somebody else is around, and the flushed data intact at the end",
        rule="A run is 1-3 lives of 1-4 threads doing 2-8 seeded handle operations each, with kills and failing calls, then a final reopening. Non-trivial: a collection was created or reopened."),
    "C10": dict(harness="diskmt", mode="C10", quick_s=35, thorough_s=420, real=SCHREAL, stubs=SCHSTUB + "; pybind11 is a minimal object model with the GIL as a mutex; OpenMP regions run sequentially",
        technique="seeded schedule and fault simulation of batch searches and the shared Python handle against exact search over version histories",
        note="batch searches on 1-6 threads equal single searches with non-finite queries, threads that cannot start and failing allocations; readers of the Python handle against 1-2 writers with failing flushes must each fit a state between their start and end; data races reported",
        rule="A run either compares 1-3 concurrent batch searches with single searches, or lets 1-2 writers and 1-3 readers share a Python handle; a seeded scheduler decides every interleaving. Non-trivial: several workers or a shared handle."),
    "C05": dict(harness="scalars", mode="C05", quick_s=35, thorough_s=420, real="RocksDBStorage and the metadata filter matcher, on the real RocksDB library with all its background threads", stubs=SCHSTUB + "; libc file calls are simulator seams",
        technique="seeded crash, fault and schedule simulation of the scalar store against a reference map, all read paths compared",
        note="databases of up to 10 ids over 1-4 process lives x 8 operations with process kills at any file operation, failing or short writes, syncs, opens, renames, old-format databases, flush/compaction/checkpoint/reopen, and 2-3 concurrent writers checked for linearizability; filters over the indexed fields by every comparison. No power loss and no full disk (the installed RocksDB asserts after one); field names with underscores that can collide, NaN, infinities and -0.0 are left out",
        rule="A run is 1-4 lives of 1-8 seeded operations (insert, update, remove, batch insert, maintenance) with seeded crashes and faults, all lookups compared after every step, or one concurrent history of up to 9 writes. Non-trivial: at least one write was acknowledged."),
    "C06": dict(harness="scalars", mode="C06", quick_s=35, thorough_s=420, real="RocksDBStorage, on the real RocksDB library with all its background threads", stubs=SCHSTUB + "; libc file calls are simulator seams",
        technique="seeded crash, fault and schedule simulation of the scalar store: reported count against the records read back",
        note="same runs as C05; the reported number of records is compared with the number of readable ones after every call, failed or not, every reopen and every crash",
        rule="As C05. Non-trivial: at least one write was acknowledged."),
    "C22": dict(harness="graphs", mode="C22", quick_s=35, thorough_s=420, real="the Vamana builder, unmodified and instrumented at every memory access", stubs=SCHSTUB + "; OpenMP is a small runtime on plain threads whose chunk sizes and team sizes are seeded",
        technique="seeded schedule simulation of the parallel build with data-race detection and graph invariants",
        note="2-41 points, 1-5 threads, degree bounds from 2, duplicate and equal points; every node, the degree bound, neighbour validity, the entry point as medoid; reachability of every node where the degree bound leaves room for every link",
        rule="A run builds one graph over seeded points with 1-5 simulated OpenMP threads, half of the runs with vector-clock race detection, and checks the result. Non-trivial: some loop ran on more than one thread."),
    "C23": dict(harness="graphs", mode="C23", quick_s=35, thorough_s=420, real="the HNSW builder and its graph types, unmodified and instrumented at every memory access", stubs=SCHSTUB + "; OpenMP is a small runtime on plain threads whose chunk sizes and team sizes are seeded",
        technique="seeded schedule simulation of the parallel build with data-race detection and graph invariants",
        note="1-40 points, 1-5 threads, degree bounds from 4, L2 and inner product; every point once, valid distinct neighbours within the per-level bound on the right level, the entry point on the top level; reachability on every level where the degree bound leaves room for every link",
        rule="A run builds one graph over seeded points with 1-5 simulated threads, half of the runs with vector-clock race detection, and checks the result. Non-trivial: more than one thread built more than two points."),
    "C04": dict(harness="collection", quick_s=35, thorough_s=420, real="the class behind the Python Index with its log, snapshots, graph, quantizers and scalar records, on the real RocksDB library with all its background threads", stubs=SCHSTUB + "; libc file calls are simulator seams; pybind11 and libcoro (not installed) are minimal stand-ins; OpenMP is a small runtime on plain threads",
        technique="seeded crash and fault simulation of a mutable index against the set of contents its acknowledged and attempted calls allow",
        note="histories of up to 4 process lives x 8 operations (insert, upsert, remove by item and by id, save, close and reload) on raw, SQ8 and SQ4 indexes of up to 8 records, with crashes at any file operation incl. recovery (process kill, or power loss with lost, torn and reordered data) and failing reads, writes, syncs, opens and renames; contents, all search paths and batch searches checked after every call and every recovery. The directory that holds the collection is not faulted, and the disk is never full (the installed RocksDB asserts after that)",
        rule="A run creates an index and takes it through 1-4 lives of seeded operations with seeded crashes and faults; a recovery must show exactly the acknowledged calls plus possibly the one in flight. Non-trivial: at least one mutation was acknowledged."),
    "C24": dict(harness="graphupd", quick_s=35, thorough_s=420, real="GraphUpdateJob, GraphSearchJob, the HNSW builder, graph, raw and SQ8 spaces, unmodified", stubs=SCHSTUB + "; allocations fail where the fault stream says; libcoro (not installed) is a minimal stand-in",
        technique="seeded simulation of update histories with failing allocations against a reference map",
        note="indexes of up to 27 records with up to 24 inserts, removals, link updates, saves and loads, with a failing allocation in a third of the inserts and a fifth of the removals, full indexes and emptied ones, on raw vectors and on SQ8 with exact rerank; every live record must be found by its own vector where the degree bound leaves room for every link (a pruned graph promises no such thing), and in all graphs results must be live, distinct and nearest first. An id used up by a failed insert is not counted as a difference",
        rule="A run builds a graph over 1-6 records, then does 1-24 seeded operations with seeded allocation failures and checks graph, vectors and searches after each. Non-trivial: at least one insert succeeded."),
    "C17": dict(harness="readers", quick_s=35, thorough_s=420, real="both aligned file readers (libaio and thread pool), unmodified and instrumented at every memory access", stubs=SCHSTUB + "; libaio is an asynchronous device model on simulated time over the scratch files",
        technique="seeded schedule and fault simulation of the file readers against a per-read ledger and the device's own log",
        note="1-3 registered threads, batches of up to 37 reads, waits, polls, blocking reads, deregistration, closing and destruction with reads in flight; completions delayed and reordered, partial, refused, interrupted and failing submissions, waits and transfers, contexts and worker threads that cannot be created. Buffers are freed as soon as the reader has let go of them, so a late transfer is reported. Closing a reader while another thread is inside one of its calls is caller misuse and left out",
        rule="A run opens a reader over a file of 1-24 sectors 1-3 times and lets 1-3 threads do 1-8 seeded operations each; data races are reported. Non-trivial: a thread had more than one read outstanding."),
    "C16": dict(harness="uring", quick_s=35, thorough_s=420, real="IOUringEngine, SyncEngine and UringReactor with liburing's inline ring code, unmodified and instrumented at every memory access", stubs=SCHSTUB + "; the io_uring calls are a device model on simulated time over the scratch files; libcoro (not installed) is a minimal task/thread_pool stand-in",
        technique="seeded schedule and fault simulation of the I/O engines against a per-request ledger and the device's own log",
        note="rings of depth 1-8 (and 128), batches of up to three times the depth, timed, polling and blocking waits, callback reads whose callbacks poll or submit again, coroutine waves on 1-3 pool threads; completions delayed and reordered, completion overflow, partial, busy, refused, interrupted and failing submissions and waits, short and failed transfers, failing allocations. Buffers of refused requests are freed at once, so a late execution is reported",
        rule="A run lets 1-3 threads use one engine for 1-10 operations each, or 1-4 coroutines send 1-3 waves each through one reactor. Non-trivial: more than one request was accepted."),
    "C14": dict(harness="pageio", quick_s=35, thorough_s=420, real="DiskPageIO, DiskPageCache and UringReactor, unmodified and instrumented at every memory access", stubs=SCHSTUB + "; libc file calls are simulator seams; the io_uring calls are a device model on simulated time over the scratch files; libcoro (not installed) is a minimal task/thread_pool stand-in",
        technique="seeded schedule, fault and crash simulation of the page layer; linearizability of every node's coordinates and neighbours over the recorded history",
        note="1-3 threads over files of up to 40 pages with caches of 0-80 pages, with and without the reactor: writers, readers by every path, search-side peeks and fills, prefetches, batch reads, flushes, reopening; failing, short and non-atomic page reads and writes, failing resizes and syncs, failing allocations; crashes right after a flush. Removal batches run alone among the updates (as the index does). Without a page cache a write that fails halfway leaves its own node undefined",
        rule="A run does 1-3 rounds of 1-3 threads with 1-10 seeded operations each, a flush and a comparison of the file after every round, and checks each node's history as a register. Non-trivial: a round had more than one thread."),
    "C11": dict(harness="diskann", mode="C11", quick_s=35, thorough_s=420, real=DKREAL, stubs=DKSTUB,
        technique="seeded schedule simulation of concurrent searches and updates; every result judged against the interval history of its label",
        note="indexes of 9-40 records with and without product quantisation, 1-2 updating and 1-3 searching threads with 2-7 operations each (single, batch and pooled inserts and removals, node updates, flushes, misuse; single, batch and pipelined searches), page caches of 0-4096 pages, blocking or io_uring updates. Coordinates are small integers, so distances are exact. That everything live is found is claimed only where the degree bound has room for every record and the entry record lives",
        rule="A run loads an index, lets 2-5 threads work on it, compares counts, labels, deleted set and searches with the acknowledged history, flushes, reloads and compares again; half of the runs report data races. Every run is non-trivial."),
    "C12": dict(harness="diskann", mode="C12", quick_s=35, thorough_s=420, real=DKREAL, stubs=DKSTUB,
        technique="seeded fault and schedule simulation of searches against the same searches on healthy storage",
        note="2-5 searches per run (single, batch, pipelined; with and without quantisation, rerank, determinism) repeated by 1-3 threads under failed, short, reordered and refused reads and again without: each gives the healthy answer or an error explained by a fault. Failing files and contexts during load",
        rule="A run answers 2-5 searches on healthy storage, then repeats them 2-10 times per thread and round with and without faults. Every run is non-trivial."),
    "C13": dict(harness="diskann", mode="C13", quick_s=35, thorough_s=420, real=DKREAL, stubs=DKSTUB,
        technique="seeded fault simulation of update histories with flushes and reloads against the acknowledged records",
        note="4-15 steps of updates, searches, and flush plus reload, a third of them under failing or short reads, writes, resizes, syncs, renames, opens and closes; labels, slots, counts, deleted set and exhaustive searches compared after every step and across every reload. A crash inside a flush is outside the claim (a flush rewrites its files in place)",
        rule="A run is one history over one index directory. Non-trivial: it came to the final flush and reload."),
    "C18": dict(harness="laser", mode="C18", quick_s=35, thorough_s=420, real="QuantizedGraph, the LASER segment searcher and DiskCollection over LASER segments, and the libaio reader, unmodified and instrumented at every memory access", stubs=LSSTUB,
        technique="seeded schedule and fault simulation of LASER searches against exact search, with probes that count concurrent searches",
        note="eight indexes of 33-120 records (with medoids, PCA and residual dimensions), 1-3 workspaces, 1-3 threads with single and batch searches on 1-4 OpenMP threads, beam 1-6; failed, short, late, reordered and refused reads, contexts and files that cannot be opened, repeated set_params; integer coordinates make distances exact. An OpenMP runtime that delivers fewer threads than asked for is not simulated",
        rule="A run loads an index (or a collection of 1-2 segments) and does 1-2 rounds of searches under faults and without by 1-3 threads, a probe that all workspaces still serve, and a changed set_params. Non-trivial: it came to its end."),
    "C27": dict(harness="laser", mode="C27", quick_s=35, thorough_s=420, real="QGBuilder, QuantizedGraph and the libaio reader, unmodified and instrumented at every memory access", stubs=LSSTUB,
        technique="seeded schedule and fault simulation of index builds against the files of a reference build",
        note="eight inputs of 33-120 records, 1-4 threads in every combination of reader registration and node loop; failed, short, interrupted, late, reordered and refused reads and writes, full disks, files that cannot be opened or closed; files byte-equal to those of the reference build, whose vectors are checked against the input",
        rule="A run builds one index, in two of three runs first under faults and after a failure again without. Every run is non-trivial."),
    "C28": dict(harness="vamfile", mode="C28", quick_s=35, thorough_s=420, real="build_vamana with its sampling, k-means, shard assignment, Vamana builder, merge and writer, and VamanaReader, unmodified and instrumented at every memory access", stubs=SCHSTUB + "; OpenMP is a small runtime on plain threads whose chunk sizes and team sizes are seeded; libc file calls carry injected errors",
        technique="seeded schedule and fault simulation of whole and sharded graph builds against structural invariants and an independent union of the shards",
        note="2-51 vectors of 1-159 dimensions (scattered, clustered, on a line, many equal), 1-5 threads, 3 and more shards; failing, short and interrupted reads, writes, opens and closes aimed at single files or all, full disks, truncated inputs, passes in small blocks, damaged graph files read back. A budget that no number of shards meets is refused. A power loss is outside the claim (nothing is promised before the build returns, and it does not sync)",
        rule="A run builds one graph file, in two of three runs first under faults and after a failure again without, judges all files it leaves and reads the graph back. Every run is non-trivial."),
}
