CONC = "Exhaustive within the stated preemption bounds for small numbers of fibers, event loops and threads (sequentially consistent interleavings at every shared-memory conflict and kernel call); assumes the virtual kernel and the engine listed in DESIGN.md."
SEQN = "Exhaustive for every operation sequence / input of the stated small alphabet and depth; assumes the engine and the virtual kernel listed in DESIGN.md."
prop("C01", "A fiber runs exactly once and every joiner and exit callback learns its result",
  "Every fiber that is created successfully runs its function exactly once with the arguments given, on the event loop it was created for, with all of the stack asked for to itself. Each join waits until the fiber has ended and delivers exactly its return value, and every registered exit callback runs once, whatever order creating, ending, joining and registering happen in and whichever event loops or threads do it. When the last reference is gone the fiber's memory is released, and not before.",
  ["schedules", "histories"], "all interleavings (up to a preemption bound) of fibers and threads that create, end, join, try to join and register exit callbacks, on one and on several event loops; all orders of these operations on one loop",
  "The tests start a handful of fibers whose timing is fixed by luck; the ends of fiber and joiner race on other event loops only under schedules a test does not control.",
  ["src/kfiber.c", "include/kfiber.h"], [("kfiber_create2/kfiber_start2/kfiber_join2/kfiber_exit_callback", "src/kfiber.c")], CONC,
  state=[("close_cond", "event set when the fiber has ended", "include/kfiber_internal.h")], observe=["return values of join / try-join", "exit callbacks", "heap at the end"])
prop("C02", "Work handed to another event loop is run exactly once, there, in bounded time",
  "A callback or timer posted to an event loop from any thread is run exactly once, on that loop's own thread, with the arguments given, promptly even while the loop is idle, and never before its delay has passed; a post made while the loop sleeps wakes it. What a thread wrote before posting is visible to the callback, and nothing is leaked or run after it was delivered.",
  ["schedules"], "all interleavings (up to a preemption bound) of one or several posting threads, fibers on other loops and the receiving loop, including posts made exactly when the loop goes to sleep or drains earlier posts",
  "A lost wake-up needs one precise interleaving of the poster with the draining loop; the tests have no control over it.",
  ["src/kepoll_selector.c", "include/kepoll_selector.h", "src/kselector.c"], [("kepoll_notice / kepoll_notice_event", "include/kepoll_selector.h"), ("kselector_add_timer_ts", "src/kselector.c")], CONC,
  observe=["which callbacks ran, how often, where and when"])
prop("C03", "A fiber mutex admits at most its limit of holders and never loses a waiter",
  "At no time do more fibers hold a fiber mutex than its limit (one by default), whatever event loops they run on, and what one holder wrote is seen by the next. Every lock call returns once earlier holders have released, with no call lost and none left waiting, also when the limit is changed: raised, it lets waiting fibers in at once; lowered, it lets nobody in until enough have released. A try-lock succeeds whenever fewer than the given number of fibers hold or await the mutex and refuses without waiting otherwise. The last to hold a mutex may destroy it as soon as its unlock returns.",
  ["schedules"], "all interleavings (up to a preemption bound) of up to four fibers on one to three event loops that lock, try-lock and unlock a mutex of limit one or two, and every raise and lowering of the limit while it is held",
  "Mutual exclusion and lost wake-ups depend on the interleaving of lock and unlock on different event loops.",
  ["src/kfiber_sync.c"], [("kfiber_mutex_lock/try_lock/unlock", "src/kfiber_sync.c")], CONC, observe=["critical-section ghost counters", "mutex counters at the end"])
prop("C04", "A fiber read-write lock excludes writers from everyone and never loses a waiter",
  "While a fiber holds the write lock no other fiber holds the lock in any mode, while readers may share it, whatever event loops they run on. Every lock call returns once the conflicting holders have released: no waiter is lost, and releasing never blocks. A writer that nobody follows may destroy the lock as soon as its unlock returns.",
  ["schedules"], "all interleavings (up to a preemption bound) of up to four readers and writers on one to three event loops",
  "Exclusion between readers and writers on different event loops and the wake-up at release depend on interleavings the tests do not control.",
  ["src/kfiber_sync.c"], [("kfiber_rwlock_rlock/wlock/runlock/wunlock", "src/kfiber_sync.c")], CONC, observe=["holders' ghost counters", "return of every call"])
prop("C05", "Fiber condition events wake exactly the right waiters and are never lost",
  "Notifying an automatically reset fiber event releases exactly one wait, the present one or a future one, and a manually reset event once set releases every present and future waiter with the value given, from whatever loop or thread the notice comes. No notice is lost and no waiter is released without one. Who waited for an event's only notice may release the event at once. The plain-thread events (wait by a thread) give the same guarantee.",
  ["schedules", "histories"], "all interleavings (up to a preemption bound, including spurious wake-ups of the underlying primitive) of up to three waiters and notifiers on the fiber, cross-loop and thread kinds of event",
  "Lost or duplicated wake-ups need one interleaving of notify with the waiter going to sleep, or a spurious wake-up of the primitive underneath.",
  ["src/kfiber_sync.c", "include/ksync.h"], [("kfiber_cond_* function tables", "src/kfiber_sync.c"), ("kcond_*", "include/ksync.h")], CONC, observe=["wait results", "number of released waits"])
prop("C06", "A fiber channel delivers each value sent exactly once and in order",
  "A value sent on a fiber channel is received exactly once and the send returns success once it was taken; values of one sender arrive in the order sent, and a sender and a receiver never both keep waiting. Closing the channel releases every waiting sender and receiver with an error, makes later calls fail at once, and the channel lives until its last reference is released, on whatever thread references are taken and released.",
  ["histories"], "every sequence of up to six (quick) or seven (thorough) operations (create readers / writers, send, receive, close) by several fibers of one event loop",
  "A channel's behaviour depends on the whole history of waiting senders and receivers; tests contain no channel at all.",
  ["src/kfiber.c", "include/kfiber.h"], [("kfiber_chan_*", "src/kfiber.c")], SEQN, observe=["values received", "results of each call", "heap at the end"])
prop("C07", "Timers fire once, not early, in order and promptly; ticks run every round",
  "Each timer added to an event loop fires exactly once with its arguments, not before its delay has passed, in order of due time, and within the loop's timer granularity after it, also when it was added from another timer; a fiber's sleep behaves the same. A backward step of the wall clock does not delay pending timers by the size of the step. Registered ticks run every round until closed, the next round comes no later than the earliest time any tick asked for, and ticks may be added and closed at any time, also by other ticks. The program's once-a-second hook runs on the first event loop once for each second that comes.",
  ["histories", "inputs"], "every choice of delays from a small set for up to eight timers, every position of a clock step, every sequence of tick registrations and closings up to a depth",
  "Order and duplication depend on the combination of delays in the timer tree; clock steps never happen in the tests.",
  ["src/kselector.c", "src/krbtree.c", "src/kselector_manager.c", "include/kselector.h"], [("kselector_add_timer / kselector_check_timeout / kselector_update_time", "src/kselector.c"), ("kselector_tick", "src/kselector.c")], SEQN, observe=["time and order of callbacks (virtual clock)"])
prop("C08", "Stream connections deliver every byte exactly once, in order, then end of stream",
  "Bytes written on a stream connection (plain, vectored and _full calls, fiber or callback interface) arrive exactly once and in order however the kernel splits them and in whatever order events are reported; a write reports what was accepted, a _full call returns only when everything was moved, a read returns only data received (never past its result) and then end of stream, again on every later call. No read stays waiting while data or the end is there, no write while there is room, a hang-up watch is reported once after the peer hung up, and a call asked for on the next round is made once, on the next round.",
  ["inputs", "schedules", "histories", "environment"], "every combination of short reads / writes and event orders up to a deviation bound, every schedule of two event loops and a plain peer thread up to a preemption bound, every history of seven reads, writes, watches and peer actions, several capacities and chunk sizes",
  "Edge-triggered readiness is lost only with a particular order of partial transfers and events; loopback tests almost never see a short write.",
  ["src/kepoll_selector.c", "src/kselectable.c", "include/kfiber.h", "src/kfiber.c", "src/kselector.c"], [("epoll_selector_read/write/readhup/select", "src/kepoll_selector.c"), ("selectable_recv/send, kselectable_is_read_ready", "src/kselectable.c"), ("kfiber_net_*", "src/kfiber.c")], CONC, observe=["bytes received", "results of calls", "callbacks"])
prop("C09", "Idle connections and unanswered connects time out, on time and never early",
  "A connection on which no read or write makes progress for the configured time-out (times the connection's own multiplier plus one) is shut down and every operation pending on it ends, not earlier and within the loop's granularity; any progress in either direction restarts the period and no connection affects another's. A connect that gets no answer ends with an error after the connect time-out, one answered earlier reports the answer. A connection marked for read time-outs gets a time-out result instead, every period, stays usable, and the next read delivers to its own buffer. A backward step of the wall clock does not delay any of this by the step. A time-out configured as not positive means the default: one minute, or for connects the configured time-out of reads and writes.",
  ["histories", "inputs", "schedules"], "every combination of peer activity at chosen moments (before, at and after the limits), multipliers, pending directions, answers of connects and clock steps, for one to three connections on one or two event loops",
  "Time-outs take minutes of wall time; tests never wait for one, and the combinations of activity and time are not sampled at all.",
  ["src/kselector.c", "src/kepoll_selector.c", "include/kselectable.h", "include/kfiber.h", "src/kselector_manager.c"], [("kselector_check_timeout (read / write / connect lists)", "src/kselector.c"), ("kselector_add_list", "include/kselectable.h"), ("STF_RTIME_OUT", "include/kfiber.h"), ("selector_manager_set_timeout", "src/kselector_manager.c")], SEQN, observe=["time and result of each operation (virtual clock)"])
prop("C10", "Connecting ends exactly once, with success only when connected",
  "Every connect started (fiber or callback interface) ends exactly once, on its own event loop: with success only if the socket really is connected to the requested address - it can then be written and read at once and the data is exact - and with an error if the peer refuses, the network reports an error, no answer comes within the connect time-out, the attempt is shut down, the local address cannot be bound, or creating or registering the socket fails. An answer in time from a listening peer leads to success. The connection reaches the address it was made for, however it was made, from the local address it was bound to, and tells both. Several connects do not affect each other, and in every case descriptors and memory are released when the connection is closed.",
  ["inputs", "schedules", "environment"], "every combination of targets (listening, closed, unreachable, answering later with each error at each moment around the time-out), every failing set-up step, peers that hang up or reset at once, shutdown of the attempt; every schedule of two event loops and peer threads up to a preemption bound, every short transfer up to a deviation bound",
  "The moment the answer arrives relative to registering for events, a shutdown or the time-out decides which code runs; loopback connects answer immediately.",
  ["src/kconnection.c", "src/ksocket.c", "src/kfiber.c", "src/kepoll_selector.c", "src/kselectable.c"], [("kconnection_half_connect/kconnection_connect", "src/kconnection.c"), ("ksocket_half_connect", "src/ksocket.c"), ("kfiber_net_connect", "src/kfiber.c"), ("epoll_selector_connect", "src/kepoll_selector.c")], CONC, observe=["connect results", "data at both ends", "descriptors and heap at the end"])
prop("C11", "TLS connections deliver exactly what was written, or an error, to the right peer",
  "Data written on a TLS connection (server or client side, TLS 1.2 or 1.3, plain and _full calls, fiber or callback interface, early data included) arrives exactly once, in order and unchanged, however the records are split and whatever their size, and each call reports what it moved; a read returns 0 or an error only after the peer closed or the connection failed, never because more has yet to arrive, and once it has, later calls say so at once. If the byte stream is cut, reset, altered or replaced by garbage at any point, every pending operation ends and no byte that was not sent is ever delivered. A handshake ends with the certificate for the name asked for and the agreed protocol, or with an error if the name is refused; a replaced server context is used for later connections while earlier ones go on, also when the server was just closed, and every context is freed once unused. A connection whose TLS state cannot be made is refused and leaves nothing behind.",
  ["inputs", "schedules", "environment"], "every byte position at which the stream of a handshake and exchange is closed, reset, split, bit-flipped or replaced, for both sides and versions; every combination of up to two short transfers; tables of record and buffer sizes; every split of early data; every schedule of context replacement against connects up to a preemption bound",
  "What happens depends on where in a record the socket runs dry and in which direction TLS then wants to wait; loopback tests see whole flights only.",
  ["src/kgl_ssl.c", "src/kselectable.c", "src/kconnection.c", "src/kserver.c"], [("kgl_ssl_readv/kgl_ssl_writev, read and write over SSL", "src/kselectable.c"), ("kgl_ssl_handshake_status, contexts", "src/kgl_ssl.c"), ("kselectable_ssl_handshake/kconnection_ssl_handshake/kconnection_ssl_connect", "src/kconnection.c"), ("kserver_set_ssl_ctx", "src/kserver.c")], CONC, observe=["bytes received", "results of calls", "handshake result, SNI and ALPN", "reference counts and heap"])
prop("C12", "A server accepts every connection once and closing it releases everything",
  "While a server is open every connection made to it is accepted exactly once and handed to the accept callback (or accepting fiber) on the event loop it is bound to, with its peer's address and descriptor. After kserver_close returns nothing more is accepted; every listening socket is closed and each of its objects freed exactly once, whatever the event loops are doing at that moment, and the server can be opened again. The server object (and its opaque data, once) is freed when the last reference - the program's, a listening socket's or an accepted connection's - is gone, and not before. Opening waits a while for a taken address; a failed open leaves nothing behind, and nothing but an earlier server's socket is ever removed from a local path.",
  ["schedules", "histories"], "every schedule (up to a preemption bound) of clients, two accepting event loops and a thread or loop that opens, closes and releases the server; every history of five to seven opens, closes and connects; each choice of the kernel among the sockets sharing a port; failing set-up steps; local sockets; fibers that listen and accept",
  "Closing races with accepting and with the destruction of listening sockets on other threads; the tests close an idle server.",
  ["src/kserver.c", "include/kserver.h", "src/kepoll_selector.c", "src/kfiber.c", "src/kconnection.c"], [("kserver_open/kserver_close/kserver_selectable_destroy/kserver_release", "src/kserver.c"), ("KACCEPT_CALLBACK", "include/kserver.h"), ("kselector_event_accept", "src/kserver.c"), ("kfiber_net_listen/kfiber_net_accept", "src/kfiber.c")], CONC, state=[("ss / refs", "listening sockets and references of a server", "include/kserver.h")], observe=["accept callbacks", "client results", "free callback", "descriptors and heap"])
prop("C13", "Ending a connection ends everything pending on it and leaves nothing behind",
  "When a connection is shut down (by its own event loop or fiber, another event loop, a thread), or its peer closes, resets or shuts it down, every read, write and hang-up watch pending on it ends exactly once, reads delivering what had arrived and then the end; operations started later end at once. A connection may be ended from the callback of any other or its own, also when their events arrive together. Closing delivers what was written before, then (on TLS, if there is room, the closing alert and) the end of the stream, never waits longer than the time-out, calls nothing afterwards, and releases the descriptor and memory; other connections go on.",
  ["histories", "schedules", "inputs"], "every combination of pending operations, history before, way of ending and operations afterwards; every table of what three callbacks with simultaneous events do to each other's connections, in every order of events up to a deviation bound; every schedule of readers, writers and a shutdown, peer end or reset elsewhere up to a preemption bound; TLS states and ways of closing, with peers that answer, hang up or do nothing",
  "Losing or repeating a callback needs a particular combination of pending operation, event batch and way of ending; no test has several at once.",
  ["src/kselectable.c", "src/kepoll_selector.c", "src/kconnection.c", "src/kfiber.c", "src/kselector.c"], [("kconnection_destroy / kconnection_real_destroy / kselectable_ssl_shutdown", "src/kconnection.c"), ("selectable_clean, selectable_write_event/selectable_read_event", "src/kselectable.c"), ("kfiber_net_shutdown/kfiber_net_close/kfiber_ssl_shutdown", "src/kfiber.c"), ("ready list in kselector_check_timeout", "src/kselector.c")], CONC, observe=["callbacks and results", "what the peer receives", "descriptors and heap"])
prop("C14", "File operations end once with their true result and move exactly those bytes",
  "Each asynchronous read or write of a file ends exactly once, on the file's event loop, with what the device did: the bytes moved, fewer at the end of the file, or an error - whatever order the device completes operations in and whatever it fails or cuts short. It reads or writes exactly the bytes at the file's position (the end, for append), touches nothing beyond its result, and moves the position by its result; seek, tell and size agree. The _full calls go on until everything is moved or an error or the end comes. The safe_ calls do the same for a file of another event loop and resume the caller on its own. Direct I/O gives the same data for any position, length and file size. Opening follows the mode; closing releases the descriptor and memory.",
  ["histories", "schedules", "environment", "inputs"], "every history of four (quick) or five (thorough) operations in every open mode, every failing or shortened device operation up to a bound, every completion order and schedule of several files on one or two event loops up to a preemption bound, tables of sizes, positions and lengths for direct I/O",
  "The tests read one small file on one fiber; completions out of order, device failures, direct I/O at odd positions and calls from other event loops never happen.",
  ["src/kasync_file.c", "src/kfile.c", "src/kfiber.c", "src/kepoll_selector.c", "include/kasync_file.h", "include/kfiber.h"], [("epoll_selector_aio_read/aio_write, aio_event", "src/kepoll_selector.c"), ("kfiber_file_*", "src/kfiber.c"), ("kasync_file_adjust_result, kasync_file_direct", "include/kasync_file.h"), ("kfopen/kfseek/kfread", "src/kfile.c")], SEQN, observe=["file contents (virtual device)", "results and positions", "descriptors and heap"])
prop("C15", "Sending a file moves its bytes once, in order, and ends with the connection",
  "A sendfile on a plain connection sends the file's bytes from the file's position, exactly once and in order with everything else written on the connection, whatever the kernel accepts per call; it returns the number of bytes sent, moves the file's position by exactly that, returns 0 only at the end of the file, and never waits while there is room. The _full call goes on until all is sent or the file or connection ends. Data can be read from the connection while a sendfile waits. If the connection is shut down, closed or reset by either side, the device fails, the connection cannot be registered for events or no room appears for the time-out, the pending call ends with an error, once, and the position does not move.",
  ["inputs", "schedules", "histories", "environment"], "every combination of short transfers and event orders up to a deviation bound, every schedule of sender, reader and second event loop up to a preemption bound, every history of five (quick) or six (thorough) sends, writes, file reads and seeks, every failing device call, every way of ending",
  "Whether the remaining part goes out twice or not at all depends on where the socket fills up; no test calls sendfile.",
  ["src/kselectable.c", "src/kepoll_selector.c", "src/kfiber.c", "include/kfiber.h"], [("selectable_event_sendfile", "src/kselectable.c"), ("epoll_selector_sendfile", "src/kepoll_selector.c"), ("kfiber_sendfile", "src/kfiber.c"), ("kfiber_sendfile_full", "include/kfiber.h")], CONC, observe=["bytes received by the peer", "results and file position", "descriptors and heap"])
prop("C16", "Each datagram is delivered whole to one read, with its addresses",
  "Every datagram that arrives on a datagram connection is delivered to exactly one read, in order of arrival, whole or cut to the read's buffers (plain or vectored), never merged with another and never written outside them, an empty one as 0 bytes; the connection then holds the sender's address, and its destination address if asked for. Sending delivers exactly the bytes given to the address given, once, and reports failure. A read waits while nothing has arrived and is resumed on its own event loop. A waiting read ends with an error when the connection is shut down or is idle for the time-out, later reads end at once, and data that arrived before is delivered first; a failing read or registration is reported, and the next read works. A connection that joined a multicast group gets what is sent to it. Closing releases everything.",
  ["histories", "schedules", "environment"], "every history of two (quick) or three (thorough) datagrams of five sizes from two peers, reads of three forms before or after them, and answers; every schedule of reader, second event loop and plain thread up to a preemption bound; every failing call; every way of ending",
  "No test uses a datagram connection at all, and lost wake-ups depend on the order of arrival and waiting.",
  ["src/kudp.c", "include/kudp.h", "src/kselectable.c", "src/kepoll_selector.c", "src/ksocket.c"], [("kudp_*", "src/kudp.c"), ("selectable_recvmsg / selectable_udp_read_event", "src/kselectable.c"), ("ksocket_new_udp", "src/ksocket.c"), ("epoll_add_event", "src/kepoll_selector.c")], CONC, observe=["bytes and addresses received at both ends", "results of calls", "descriptors and heap"])
prop("C17", "The thread pool runs every accepted function exactly once",
  "Every function given to kthread_pool_start or kthread_start is, if the call reports success, run exactly once with its own argument on some thread, and not at all if it reports failure (no thread could be created), after which the pool works on. It never waits behind another function. A thread that has finished its function is used again before a new one is created, is ended by kthread_flush only once free for a minute and only while more than the given minimum are free, the longest free first, and by kthread_close_all_free at once; running functions are unaffected. kthread_get_count always reports the threads working and free, and every ended thread's memory is released.",
  ["schedules", "histories", "environment"], "every schedule of up to three submitting threads, nested submissions and concurrent flush or dismissal up to a preemption bound; every thread creation failing up to a bound; every history of seven (quick) or eight (thorough) starts, ends, waits, flushes and dismissals against a model of the free threads",
  "A start meets a thread just becoming free, or a flush, in a window of a few instructions between the list and the signal; no test can place it there, and ages of a minute are never waited for.",
  ["src/kthread.c", "include/kthread.h"], [("run_thread / kthread_wait / kthread_notice", "src/kthread.c"), ("kthread_pool_start", "src/kthread.c"), ("kthread_flush / kthread_close_all_free", "src/kthread.c")], CONC, state=[("free_threads, work_thread_count, free_thread_count", "threads waiting to be used again and their counts", "src/kthread.c")], observe=["runs of each function and their threads", "kthread_get_count", "threads and heap at the end"])
prop("C18", "A work queue runs every accepted request once, within its limit and in order",
  "Every request a kasync_worker accepts is run exactly once with its own data, never more than max_worker at once, and at once while fewer are running; waiting requests run in the order they were added, an urgent one before all that wait. kasync_worker_try_start refuses exactly when more than max_queue requests wait (0: never), and when no thread can be created and none is there to run it; a refused request never runs. kasync_worker_start always gets its request run, and returns at once unless more than max_queue wait, then only when its request's turn has come. Releasing the last reference drops no accepted request; the queue is freed after the last has run.",
  ["schedules", "histories", "environment"], "every schedule of producers, workers and the release up to a preemption bound; every failing thread creation up to a bound; every history of seven to nine requests of each kind and completions, for several limits, against a model of the queue",
  "A worker that finds the queue empty and a producer that adds to it decide under the same lock whether a thread is still needed; thread creation never fails in a test.",
  ["src/kasync_worker.c", "include/kasync_worker.h", "src/kthread.c"], [("kasync_worker_add / kasync_worker_worker_thread", "src/kasync_worker.c"), ("kasync_worker_try_start / kasync_worker_start", "src/kasync_worker.c")], CONC, state=[("head/last/worker/queue/refs", "waiting requests, workers and references", "include/kasync_worker.h")], observe=["runs of each request and their overlap", "return values", "threads and heap at the end"])
prop("C19", "A function called on another thread runs once while the event loop goes on",
  "kfiber_thread_call runs the function exactly once, on a thread that is no event loop, with the argument and argument count given; the calling fiber continues only after it has returned, on its own event loop, with its result if it asked for it, and can use everything a fiber can afterwards. Meanwhile the event loop goes on with its other fibers and timers, and several calls run at the same time. If no thread can be created the call returns -1 and the function does not run.",
  ["schedules", "environment"], "every schedule of up to two calling fibers on one or two event loops, the pool's threads and other fibers up to a preemption bound; every failing thread creation up to a bound",
  "The result may arrive before, while or after the fiber goes to sleep, and the thread may be new or used again; no test calls it.",
  ["src/kfiber.c", "src/kthread.c"], [("kfiber_thread_call / _kfiber_worker_thread", "src/kfiber.c"), ("kfiber_wakeup2", "src/kfiber.c")], CONC, observe=["runs, results and event loop of the calling fiber", "other fibers' progress", "heap at the end"])
prop("C20", "Each name lookup is answered once, from the cache while fresh, addresses valid",
  "Every lookup (kfiber_net_getaddr, kgl_find_addr) is answered exactly once, on the asking event loop, with the name's address or none if it has none or cannot be looked up. While a name is being looked up, or for 30 seconds after, no further lookup of it (in any case of letters) is made; later it is answered from the cache at once and refreshed once in the background, after which the new answer is used; up to nine failed refreshes in a row keep the last address. A slow name holds up no other. Entries unused for an hour disappear, and kgl_flush_addr_cache and kgl_get_addr_cache_count agree with that; flushing at any moment loses no answer, and an address stays valid until its user releases it. Event loops using the same address for different ports do not affect each other. If no thread can be created, or more lookups are waiting than the queue takes, the lookup fails and later ones work.",
  ["schedules", "histories", "environment"], "every schedule of lookups on two event loops, their threads and a flush up to a preemption bound, also with answers that take long; every history of six (quick) or seven (thorough) lookups, cache queries, changes and failures of the answer, waits and flushes against a model of the cache; every failing thread creation up to a bound",
  "Refresh and expiry take 30 seconds and an hour; what happens when an entry is dropped between a question and its answer depends on the schedule; tests need a real name server.",
  ["src/kaddr.c", "include/kaddr.h", "src/kfiber.c", "src/ksocket.c"], [("kgl_find_addr / find_addr_in_tree", "src/kaddr.c"), ("update_addr_cache / find_addr_result / addr_result", "src/kaddr.c"), ("kgl_flush_addr_cache", "src/kaddr.c"), ("ksocket_addrinfo_sockaddr", "src/ksocket.c")], CONC, state=[("addr_tree, addr_list", "cached and pending names", "src/kaddr.c")], observe=["answers and their event loops", "number of real lookups", "kgl_get_addr_cache_count", "heap at the end"])
prop("C21", "Event loops start with everything asked for, run it, and end without trace",
  "kasync_main runs the main fiber on an event loop of its own thread and returns that fiber's result once it ends, however it was woken for the last time; it can be called any number of times, one after the other and on several threads at once, each loop running only its own work and what other loops send it, and afterwards every descriptor, file context, pending timer and fiber structure of the loop is released and the thread is bound to no loop. selector_manager_init makes the largest power of two of loops not above the number asked for (1 to 64), selector_manager_grow does so later with the time-outs in force; what was registered with selector_manager_on_ready or sent to a loop before it started runs exactly once, on its loop, after each loop's start-up callbacks, which run once per loop. get_perfect_selector spreads new work evenly over idle loops and never picks one with 64 more connections than its neighbour. A program may step a loop itself.",
  ["histories", "schedules", "inputs"], "every sequence of three (quick) or four (thorough) kasync_main calls over six kinds of main fiber and three ways of being woken last; every schedule of two loops, of starting one to four loops with work sent before and during the start, of growing and of stepping up to a preemption bound; tables of loop numbers and loads",
  "Work sent while a loop is starting, and what an ended loop leaves in thread-local and kernel state, show only in particular schedules or on a second run; each test program starts once and never stops.",
  ["src/kselector_manager.c", "src/kselector.c", "src/kfiber.c", "src/kepoll_selector.c"], [("kasync_main / kasync_fiber_main", "src/kselector_manager.c"), ("selector_manager_init/start/grow/on_ready, get_perfect_selector", "src/kselector_manager.c"), ("kfiber_thread_init", "src/kfiber.c"), ("kselector_destroy / epoll_selector_destroy", "src/kselector.c")], SEQN, observe=["results", "callbacks and fibers per loop", "descriptors, file contexts and heap at the end"])
prop("C22", "kcond loses no notice, rw locks exclude, katom loses no update",
  "kcond, automatic: a notice lets exactly one kcond_wait through, whether it comes before or after the wait; one that nobody waits for is kept for the next wait or try_wait, but only one. Manual: after a notice every wait, also a later one, passes until kcond_reset. kcond_try_wait(.., 0) tells and takes the same state without sleeping. krw_mutex and kwr_mutex: a writer is alone, readers are together, whoever waits gets in once the others are out; a waiting kwr_mutex writer keeps new ordinary readers out, but not those of high priority. katom operations of every width lose no update between threads, give back the documented value (the new one for inc/dec, the old one for add/sub/set) at every edge value, and touch no neighbouring byte.",
  ["schedules", "inputs"], "every schedule of two to five threads up to a preemption bound (two to six in quick, more in thorough), with spurious wake-ups; every history of eight calls of one thread; every operation on thirteen edge values",
  "A lost notice, a reader beside a writer or a lost update appears only in particular schedules; no test uses these from two threads.",
  ["include/ksync.h", "include/katom.h"], [("kcond_wait / kcond_notice", "include/ksync.h"), ("krw_mutex_*, kwr_mutex_*", "include/ksync.h"), ("katom_*", "include/katom.h")], CONC, observe=["who passes", "readers and writers inside together", "results and memory"])
prop("C23", "Buffers give back the bytes written, in order, once, however they are cut",
  "krw_buffer: whatever mix of write buffers, strings, numbers, appended and inserted chunks (also empty ones) was put in, and however it is taken out (krw_read, one read buffer, several, part of them), the bytes come out in order, each once; total_len is the number not yet read, krw_read_success says whether any is left, nothing is offered when nothing is left, and the buffer can be used again afterwards; destroying it frees all. Numbers are written as printf would. ks_buffer: bytes stay in order through growth, ks_save_point keeps exactly the unread tail and leaves room, and reading gives them back once. kbuf_seek and kgl_iovec_seek at every offset leave exactly the bytes from there on, and do not change the chain.",
  ["histories", "inputs"], "every sequence of six of sixteen operations and of eight of the main eight on chunks of four bytes (quick; eight and eleven in thorough) against a byte string, with states seen before pruned; every chunk size 1..24 and fill for numbers of every length; every chain of up to five pieces of 0..3 bytes at every offset",
  "Errors need particular chunk fills, partial reads and empty chunks in particular orders; the tests never use these buffers beyond one chunk.",
  ["src/kbuf.c", "include/kbuf.h"], [("krw_*", "src/kbuf.c"), ("ks_buffer", "src/kbuf.c"), ("kbuf_seek / kgl_iovec_seek", "include/kbuf.h")], SEQN, state=[("head, read_hot, write_hot, total_len", "unread bytes", "include/kbuf.h")], observe=["bytes read", "lengths", "heap at the end"])
prop("C25", "Pool memory is aligned, disjoint and intact until reset; handlers run once",
  "Whatever mix of requests (kgl_palloc, kgl_pnalloc, kgl_pmemalign, pool buffers, arrays, clean-up handlers) is made of a pool, each piece has the asked-for size and alignment, overlaps no other, and keeps its contents until the pool is reset or destroyed or the piece is freed; kgl_pfree gives back exactly the pieces too large for a block, once. Clean-up handlers run exactly once, last added first, with the data set last, at kgl_reset_pool or kgl_destroy_pool; a reset pool works like a new one. Arrays keep their elements, in order, through growth and next to other use of the pool, also when created for no elements. After kgl_destroy_pool nothing is left allocated. If memory runs out the request fails and the pool stays whole.",
  ["histories", "inputs"], "every sequence of four (quick) or five (thorough) of thirteen operations on pools of four sizes after zero to eight filled blocks; every sequence of six (eight) array operations on two arrays; element sizes 1..20 with another allocation at every place; every single failing allocation",
  "Overlap and lost contents depend on exact fills of blocks; the tests never use a pool directly.",
  ["src/kmalloc.c", "include/kmalloc.h"], [("kgl_palloc / kgl_pmemalign / kgl_pfree / kgl_reset_pool", "src/kmalloc.c"), ("kgl_cleanup_*", "src/kmalloc.c"), ("kgl_array_*", "src/kmalloc.c")], SEQN, observe=["addresses and contents of every piece", "handlers run", "heap at the end"])
prop("C26", "Trees, lists and shared strings hold exactly what was put in, in order",
  "rbtree: after any sequence of insertions and removals, the tree holds exactly the keys in it, find, find2 and find_cover give what the keys imply, walking forwards and backwards meets each key once in order, an insertion of a present key gives the present node, and the height stays within twice the minimum; an iteration visits keys in order until told to stop and removes exactly those it was told to. rbtree_int_cmp, string, file and case-less comparisons order every pair. klist and kforward_list hold what was inserted, in order, in both directions. A kstring with references is freed by whoever drops the last one, on any thread, not before.",
  ["histories", "inputs", "schedules"], "every tree reachable with up to ten keys by sixteen (24 for eight keys) insertions and removals, shapes seen before pruned; trees of 8 to 31 keys built in 24 orders with every pair of removals; every answer sequence of an iterator on every subset of six keys; every sequence of four or five list operations; three threads on a shared string",
  "Rebalancing errors need particular shapes; tests use the tree only through timers.",
  ["src/krbtree.c", "include/krbtree.h", "include/klist.h", "include/kstring.h"], [("rbtree_*, rb_*", "src/krbtree.c"), ("klist_*", "include/klist.h"), ("kstring_*", "include/kstring.h")], SEQN, observe=["contents and order", "height", "heap at the end"])
prop("C27", "Addresses survive text, order and hash; sockets are made as asked for",
  "An address read from text (ksocket_getaddr, ksocket_get_ipaddr) comes back as the same text, port and length, in any family asked for that fits and in no buffer too short; what is no address is refused. ksocket_addr_compare, ksocket_ipaddr_compare and ip_addr's operators are total orders agreeing with equality whatever else is in memory, equal addresses have equal hashes, and masks work per bit. Unix socket paths that fit are kept whole, longer ones are refused; an old socket file gives way, any other file does not. Sockets made by ksocket_listen, ksocket_new_udp, ksocket_connect, ksocket_half_connect and ksocket_accept have exactly the blocking mode and options asked for, are closed on exec, and a failing step leaves no descriptor. wait_socket_event waits until the socket is ready, at most as long as asked, for any descriptor number.",
  ["inputs", "environment"], "every pair (order: every triple) of 32 edge addresses, all pairs of 625 IPv4 and 512 IPv6 addresses of edge octets and single bits, every port, every path length to 200, every combination of options, family and failing system call",
  "A comparison that overflows or reads bytes never set is right for most addresses; failing steps and long paths do not occur in tests.",
  ["src/ksocket.c", "include/ksocket.h"], [("ksocket_getaddr / ksocket_sockaddr_ip / ksocket_addr_compare / ksocket_ipaddr_compare", "src/ksocket.c"), ("ip_addr", "include/ksocket.h"), ("ksocket_listen / ksocket_connect / ksocket_accept / wait_socket_event", "src/ksocket.c")], SEQN, observe=["texts, ports, orders, hashes", "socket modes and options", "descriptors and heap at the end"])
prop("C28", "TLS over memory buffers (ENABLE_KSSL_BIO) gives the same guarantees",
  "Built with ENABLE_KSSL_BIO, where OpenSSL reads and writes memory buffers which the library moves to and from the socket, a TLS connection gives everything it gives without: the handshake ends exactly once with success only when the peers agree, early data included; bytes arrive exactly and in order whatever the kernel accepts and delivers per call; nothing stays behind in a memory buffer while a peer waits for it - handshake messages, the answer to early data, data, the closing alert; garbage, resets and time-outs end calls with an error; closing releases everything.",
  ["schedules", "inputs", "environment"], "every scenario of the TLS property and of the ends of TLS connections repeated in this build: every combination of short transfers, event orders and schedules of both peers up to a deviation and preemption bound, every point of breaking off",
  "The build option changes who moves the bytes and when; no test is built with it.",
  ["src/kssl_bio.c", "src/kselectable.c", "src/kconnection.c", "src/kgl_ssl.c"], [("kssl_bio", "src/kssl_bio.c"), ("selectable_event_read / selectable_event_write", "src/kselectable.c"), ("kselectable_ssl_handshake / kselectable_ssl_shutdown", "src/kconnection.c")], CONC, observe=["bytes at both ends", "results of handshake and close", "descriptors, TLS objects and heap"])
prop("C29", "A TLS context offers exactly what it was given, or is refused, and leaks nothing",
  "A server context (kgl_ssl_ctx_new_server, .._new_server2, kgl_ssl_ctx_load_cert_key) presents the certificate it was given, with its whole chain, read from files or memory, the certificate possibly beside the key; one that is unreadable, or does not match its key, is refused. With a certificate authority (file or directory) a context accepts exactly the peers that authority vouches for, a server also insists on a certificate; an unreadable authority is refused. kgl_ssl_ctx_set_protocols allows exactly the TLS versions named, in any order, case and spacing (a client: the lowest unbroken range), the last call counts. A server picks the first of its own ciphers the client has; the application protocol is the server's first that the client offers. kgl_ssl_shutdown sends the alert at once and ends when both have. Contexts, certificates, keys and TLS objects are freed with the last reference, also when a context is refused.",
  ["inputs", "schedules", "histories"], "every subset of the versions in four spellings (in thorough: after every other one), every pair of eleven kinds of certificate and key sources with every kind of authority, every pair of cipher subsets, every offer of protocols, every replacement of a certificate; each judged by handshakes with a peer of fixed settings; three threads sharing a counted context",
  "Leaks and wrongly accepted versions or peers do not disturb an ordinary connection, the only thing a test makes.",
  ["src/kgl_ssl.c", "include/kgl_ssl.h"], [("kgl_ssl_certificate / kgl_ssl_ctx_new_server2 / kgl_ssl_ctx_load_cert_key", "src/kgl_ssl.c"), ("kgl_ssl_ctx_set_protocols", "src/kgl_ssl.c"), ("kgl_ssl_npn_selected", "src/kgl_ssl.c"), ("kgl_release_ssl_ctx", "include/kgl_ssl.h")], SEQN, observe=["handshake results, versions, ciphers, protocols, certificates seen by the peer", "live OpenSSL objects"])
prop("C30", "Plain files open as asked or not at all; positions, times and reads are true",
  "kfopen: read and read-write need an existing file; append, modify, write and write-read create a missing one; write and write-read empty it, the others keep its bytes; append always writes at the end; a file opened for one direction refuses the other. KFILE_NOFOLLOW refuses a symbolic link, KFILE_DSYNC and KFILE_NOATIME are in force, descriptors are never inherited, a file made can be written by its owner only. kfseek moves from the beginning, the current position or the end, also beyond 4 GB; a position before the beginning is refused and changes nothing. kfsize and kftime tell the file's present size and modification time, kfutime sets it, kfile_last_modified tells it by name and is 0 for what is missing or not a regular file (a directory, a link). kfread_all succeeds exactly when all bytes asked for were read, in however many pieces, and touches nothing behind them.",
  ["histories", "inputs", "schedules", "environment"], "every history of six (quick) or eight (thorough) of twelve operations from every mode, flag and kind of file, states seen before pruned; seven positions around 2 and 4 GB; every way a sender's bytes are cut, every schedule of sender and reader up to a preemption bound, and every end of the stream",
  "The tests open one file in one mode; the combination of mode, existing content, position and short reads is what decides.",
  ["src/kfile.c", "include/kfile.h"], [("kfopen / kfseek", "src/kfile.c"), ("kfread_all / kfsize / kftime / kfutime / kfile_last_modified", "include/kfile.h")], SEQN, observe=["results, contents, positions, sizes and times", "descriptor flags", "descriptors at the end"])
