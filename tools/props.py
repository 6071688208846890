BUILT = {"E01", "E02", "R01", "L01", "F01", "F02", "F03", "F04", "F05", "M01", "M02", "C01", "X01", "P01", "P02", "P05", "P06", "P07", "P08", "P03", "P09", "U01", "G01", "A03", "S01", "N01", "T01", "T02", "T03", "A01", "A02", "V01"}
S, C, I, H, F, G = "schedules", "crash_points", "inputs", "histories", "fault_sequences", "configurations"
ALLOC_NOTE = "every allocation the library makes may fail"
def P_(id, *a, **k):
    if id not in BUILT:
        k["na"] = "the check for this property is still under construction in this revision"
    prop(id, *a, **k)

# ---------------------------------------------------------------- fibers
P_("F01", "A resumed fiber continues exactly where it yielded, with its state intact",
   "A fiber that is resumed continues after its own yield with its local state, stack contents and callee-saved registers unchanged, on its own stack, no matter how many other fibers ran in between. Each fiber's entry function is entered exactly once, with the context it was created with, on a stack of at least the requested size. A stack is unmapped only once its fiber is released, and then in full.",
   [S, H, F], "over every interleaving of fiber switches, stack depths and fiber lifetimes, including creation failures",
   "The switch tests make a handful of switches between two fibers; register and stack corruption depends on what ran in between and how deep.",
   ["src/fiber/common/fiber_create.c", "src/fiber/platform/sysv/x86_64/fiber_switch.s", "src/fiber/platform/sysv/x86_64/fiber_make.s"],
   [("register save and restore", "src/fiber/platform/sysv/x86_64/fiber_switch.s"), ("first entry trampoline", "src/fiber/platform/sysv/x86_64/fiber_make.s"), ("stack mapping", "src/stack")],
   ["values seen by fiber code after each resume", "mapped stacks"])
P_("F02", "The scheduler runs fibers in order and delivers each resumption exactly once",
   "Runnable fibers are resumed in the order in which they became runnable, each exactly once per time it was made runnable, and the fiber sees exactly the (discipline, event, parameter) it was made runnable with. A newly added fiber runs after everything that was already runnable while the adder continues first; a fiber that hands control back to be run again goes behind everything else. A failed operation reports its error to the caller and makes nothing runnable.",
   [S, H, F], "over every history of adding, running, yielding and stopping fibers, with allocation failures at any point",
   "The unit tests drive a fixed script of at most a few fibers; ordering and loss only show in longer histories and under failed queue operations.",
   ["src/fiber/common/fiber_scheduler_create_with_disciplines.c", "src/fiber/common/fiber_scheduler_run.c", "src/fiber/common/fiber_scheduler_add.c"],
   [("run queue", "src/fiber/common"), ("add/run/yield handling", "src/fiber/common/fiber_scheduler_create_with_disciplines.c")],
   ["the sequence of resumptions seen by the fibers"])
P_("F03", "Yield events reach the right discipline handler and bad ones are refused",
   "A fiber that yields with a discipline's event has exactly that discipline's matching handler called once, with that discipline's context, the yielding fiber, the event and the parameter, however many disciplines are registered and in whatever order. An event outside every registered discipline is reported to the yielder as a bad yield event and nothing else happens. A discipline can be found by its identifier exactly while registered, registering a duplicate or already registered one fails and leaves ownership with the caller, and every registered discipline is released with the scheduler exactly once.",
   [H, I, G, F], "over every set of disciplines, registration history, yield event and allocation failure",
   "Tests register one or two disciplines and yield known good events; off-by-one dispatch and failure-path ownership need many sizes and failure points.",
   ["src/fiber/common/fiber_scheduler_discipline_add.c", "src/fiber/common/fiber_scheduler_create_with_disciplines.c"],
   [("callback table", "src/fiber/common/fiber_scheduler_discipline_add.c"), ("dispatch", "src/fiber/common")],
   ["handler invocations", "status seen by the yielder"])
P_("F04", "Fiber management events reach the manager and the right fibers",
   "When a fiber waits for management events it is told, in order and exactly once each, of every fiber that is added or stops while it waits. A quiesce or termination request addressed to one fiber reaches exactly that fiber before anything else runs, and one addressed to all reaches every other live fiber exactly once (except a fiber that is waiting for management events), never the requester. A request that cannot be delivered is reported as failed to the requester, who keeps running exactly once; a stopped fiber stays owned by the scheduler until it is removed, after which it belongs to the caller.",
   [S, H, F], "over every history of adds, stops, requests and removals, with allocation failures",
   "Tests cover single requests with two fibers; broadcast, failed requests and stop/remove races need many fibers and failure points.",
   ["src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c", "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_fiber.c", "src/fiber/common/disciplined_fiber_scheduler_send_terminate_request_to_all.c", "src/fiber/common/disciplined_fiber_scheduler_remove_fiber.c"],
   [("management discipline", "src/fiber/common")], ["management events received", "unexpected events delivered", "fiber ownership"])
P_("F05", "The idle fiber runs only when nothing else can",
   "A designated idle fiber is resumed exactly when no other fiber is runnable, and never while one is. Without an idle fiber, a fiber that waits when nothing else is runnable gets an exhaustion error and keeps running, instead of the process crashing or spinning; the scheduler stays usable and can be released.",
   [S, H, F], "over every interleaving of runnable and blocked fibers with and without an idle fiber",
   "Tests exercise the empty queue once; the idle rule must hold at every scheduling decision.",
   ["src/fiber/common/disciplined_fiber_scheduler_set_idle_fiber.c", "src/fiber/common/fiber_scheduler_run.c"],
   [("idle selection", "src/fiber/common")], ["resumptions of the idle fiber", "status of run"])
# ------------------------------------------------------------ messaging
P_("M01", "Messages are delivered once, in order, unmodified, with clear ownership",
   "Every message that is reported as sent is received from its mailbox exactly once, in the order sent, with the payload and return address it was sent with, or released together with its mailbox or the scheduler. A message whose send is reported as failed still belongs to the sender and is never received. A receiver blocked on an empty mailbox is woken by the next message, and no message is leaked or released twice under any failure.",
   [S, H, F], "over every interleaving of senders and receivers on any number of mailboxes, with allocation failures at any point",
   "Tests send one or two messages between two fibers; loss, duplication and double release need interleavings and failures.",
   ["src/message/message_send.c", "src/message/message_receive.c", "src/message/message_discipline_message_send_callback_handler.c", "src/message/message_discipline_message_receive_callback_handler.c"],
   [("mailbox queues and blocked receiver", "src/message")], ["payload identity at the receiver", "release counts"])
P_("M02", "Mailboxes: unique addresses, one waiter, refusal of unknown addresses",
   "Creating a mailbox yields an address no other open mailbox has, and closing it makes the address unusable: sending to, receiving from or closing an address that is not open is refused with an error and has no effect. Only one fiber at a time may wait on a mailbox; a second is refused with an error while the first keeps waiting and still gets the next message. Messages left in a closed mailbox are released exactly once.",
   [S, H, F], "over every history of create, close, send and receive, including failures",
   "Tests create and close one mailbox; address reuse, double waits and closing with queued messages need histories.",
   ["src/message/mailbox_create.c", "src/message/mailbox_close.c", "src/message/message_discipline_mailbox_create_callback_handler.c", "src/message/message_discipline_mailbox_close_callback_handler.c"],
   [("mailbox tree", "src/message")], ["addresses", "statuses"])
P_("C01", "Condition variables wake the right waiters, in order, none lost",
   "A fiber waiting on a conditional resumes successfully only because of a notification made after it began to wait. Notify-one wakes exactly the longest waiting fiber and notify-all wakes exactly the fibers waiting at that moment, in waiting order, before the notifier continues; a notification with no waiters has no effect. Waiting on or notifying a conditional that is not open is refused with an error, and a notification that cannot be carried out is reported to the notifier and leaves the fibers it did not wake waiting.",
   [S, H, F], "over every interleaving of waiters and notifiers on any number of conditionals, with allocation failures",
   "Tests use one waiter; lost and spurious wake-ups depend on schedules and failures.",
   ["src/condition/conditional_wait.c", "src/condition/conditional_notify_one.c", "src/condition/fiber/condition_discipline_wait_callback_handler.c", "src/condition/fiber/condition_discipline_notify_all_callback_handler.c"],
   [("wait lists", "src/condition/fiber")], ["order of wake-ups and statuses"])
P_("X01", "Out-of-band requests interrupt blocking calls cleanly",
   "When a quiesce or termination request reaches a fiber blocked in a socket operation, its unexpected-event handler is called once with that event and the event it was waiting for, and the handler's answer decides whether the operation is retried or fails. A fiber blocked in a message or condition operation, or in a wait of a discipline, leaves it with an error or the request itself. After the interruption nothing is lost or duplicated: no message, wake-up or byte meant for the interrupted fiber disappears, and nobody is woken for an operation that was abandoned. An interrupted operation that fails reports that failure to its caller.",
   [S, H, F], "over every point at which a request can reach a blocked fiber and every handler decision",
   "No existing test interrupts a blocked operation and then continues using the same mailbox, conditional or socket.",
   ["src/fiber/common/fiber_unexpected_event.c", "src/message/message_receive.c", "src/condition/conditional_wait.c", "src/psock/psock_read_block.c", "src/psock/psock_write_block.c"],
   [("unexpected event handlers", "src/fiber/common/fiber_unexpected_event.c")], ["handler calls", "later deliveries"], platforms=["epoll", "poll", "kqueue"], shares=[0.7, 0.15, 0.15])
# ------------------------------------------------------------- sockets
P_("P01", "What is written to a socket is what is read back, for every type",
   "Any sequence of raw and boxed values, strings and data packets written to one end of a connection is read back as the same values in the same order at the other end, however the stream is split into partial reads and writes, over blocking, non-blocking, buffered and user-defined sockets. The bytes on the wire are the documented big-endian encoding with the documented type tags and lengths. Memory returned by reads is exactly the data and belongs to the caller.",
   [I, S, F], "over every value sequence and every fragmentation of the byte stream by short reads and writes",
   "Tests round-trip one value per type over an unfragmented socketpair; partial transfers and mixed sequences are never exercised.",
   ["src/psock/psock_write_boxed_data.c", "src/psock/psock_read_boxed_string.c", "src/psock/psock_from_descriptor_read.c", "src/psock/psock_from_descriptor_write.c"],
   [("retry loops over partial transfers", "src/psock/psock_from_descriptor_read.c"), ("encoders and decoders", "src/psock")], ["values read", "bytes on the wire"])
P_("P02", "Malformed, truncated or hostile input is refused without harm",
   "Reading a typed value from a stream holding another type, an unsupported length or a truncated value fails with an error, never returns a value that was not sent, never touches memory it does not own and never hangs. A type mismatch is reported as such. Whatever was allocated for a failed read is released again and the outputs are left unset.",
   [I, F], "over every byte stream, truncation point and corruption, with allocation failures",
   "Tests check one wrong tag per type; lengths, truncation points and cleanup after partial reads are not covered.",
   ["src/psock/psock_read_boxed_data.c", "src/psock/psock_read_boxed_string.c", "src/psock/psock_read_raw_data.c", "src/psock/psock_read_boxed_int64.c"],
   [("tag and size checks", "src/psock")], ["status and outputs of each read", "heap afterwards"])
P_("P03", "Fiber socket I/O moves every byte exactly once and always makes progress",
   "Over any number of connections served by fibers in one thread, each byte stream arrives complete, in order and without duplication, whatever the readiness order, spurious or partial readiness reports, short transfers and interrupted waits. A fiber blocked on a socket is resumed once its socket becomes ready or closes; as long as peers make progress every transfer finishes and the process does not spin without cause. Fibers that do not wait for I/O keep running meanwhile.",
   [S, H, F], "over every readiness order, fragmentation, peer behaviour and injected I/O fault, on both readiness back ends",
   "Tests run two fibers over one socketpair on whichever back end was built; starvation, missed readiness and partial transfers need schedules.",
   ["src/psock/psock_wrap_async_read.c", "src/psock/psock_wrap_async_write.c", "src/psock/platform/epoll/psock_idle_fiber_entry.c", "src/psock/platform/poll/psock_idle_fiber_entry.c", "src/psock/platform/kqueue/psock_idle_fiber_entry.c"],
   [("readiness registration and idle fiber", "src/psock/platform"), ("retry loops", "src/psock/psock_wrap_async_read.c")], ["bytes received per connection", "steps to completion"], platforms=["epoll", "poll", "kqueue"], shares=[0.5, 0.35, 0.15])
P_("P05", "Buffered reading returns every byte and every line exactly once",
   "Reading through a buffered reader, by bytes, by typed values or by lines in any mixture, returns exactly the bytes of the underlying stream in order, whatever sizes the stream arrives in and whatever the caller's buffer sizes. A line read returns the bytes up to the next newline and consumes the newline, and says so when a line was cut by the buffer size; the last line of a stream need not end with a newline. An underlying error is reported, never taken for the end of a line, and loses no data already buffered; reading can go on after it.",
   [I, S, F], "over every content, chunking, buffer size and mixture of calls",
   "Tests read a couple of lines from one memory buffer; chunk boundaries inside lines and mixed calls are not covered.",
   ["src/psock/psock_br_create_from_psock.c", "src/psock/psock_br_fill.c", "src/psock/psock_br_read_line.c", "src/psock/psock_br_psock_read.c"],
   [("fill and drain of the read buffer", "src/psock/psock_br_fill.c")], ["bytes and lines returned"])
P_("P06", "In-memory sockets return what was put in, bounded and all or nothing",
   "A socket over an input buffer yields exactly that buffer's bytes and then end of stream; it never reads past the end and never modifies the caller's memory. A socket that collects output returns exactly the bytes of the writes that succeeded, in order, as one buffer owned by the caller. Wrong-direction operations are refused, and an allocation failure is reported without losing output already collected.",
   [I, H, F], "over every sequence of reads, writes and output retrievals with allocation failures",
   "Tests do one write and one retrieval.",
   ["src/psock/psock_create_from_buffer.c", "src/psock/psock_from_buffer_read.c", "src/psock/psock_from_buffer_write.c", "src/psock/psock_from_buffer_get_output_buffer.c"],
   [("output queue", "src/psock/psock_from_buffer_write.c")], ["bytes returned"])
P_("P07", "A descriptor sent over a socket arrives once, and none is leaked",
   "A descriptor sent over a datagram socket arrives at the receiver as a descriptor for the same open file, in order, and is never delivered twice; the sender's own descriptor stays open. A message without a descriptor is reported as an error. On any failure no descriptor is left open in the process that nobody owns.",
   [S, F, I], "over every order of sends and receives, blocking or by fibers, with injected message I/O faults",
   "Tests pass one descriptor over one idle socketpair.",
   ["src/psock/psock_read_raw_descriptor.c", "src/psock/psock_write_raw_descriptor.c", "src/psock/psock_from_descriptor_recvmsg.c", "src/psock/psock_wrap_async_recvmsg.c"],
   [("control message handling", "src/psock")], ["descriptor table", "identity of the received file"], platforms=["epoll", "poll", "kqueue"], shares=[0.5, 0.35, 0.15])
P_("P08", "Creating, accepting and closing sockets leaks no descriptor on any path",
   "Connecting, listening, accepting and wrapping sockets either yields a usable socket that owns its descriptor, or fails with an error and leaves the descriptor table and heap as before, whichever step fails. Releasing a socket closes its descriptor exactly once. Every accepted connection is a distinct pending connection of that listener, in order.",
   [H, F], "over every failing step of set-up and every teardown order",
   "Tests only follow the successful path on the real network.",
   ["src/psock/psock_create_from_hostname_and_port.c", "src/psock/psock_create_from_listen_address.c", "src/psock/psock_from_descriptor_accept.c", "src/psock/psock_create_wrap_async.c"],
   [("failure cleanup in constructors", "src/psock")], ["descriptor table", "heap"])
P_("P09", "I/O errors and end of stream surface; they are never reported as success",
   "When the peer closes, resets or the system reports an error, the affected read or write fails with an error and does not return success, hang or deliver bytes that were never sent. Data received before the close is delivered first. Other connections and fibers are unaffected.",
   [S, F], "over every point at which an error or close can occur in a transfer",
   "Tests never close or reset a peer in the middle of a transfer.",
   ["src/psock/psock_from_descriptor_read.c", "src/psock/psock_from_descriptor_write.c", "src/psock/psock_wrap_async_read.c", "src/psock/psock_wrap_async_write.c"],
   [("error mapping", "src/psock")], ["statuses", "bytes delivered"], platforms=["epoll", "poll", "kqueue"], shares=[0.5, 0.35, 0.15])
# ---------------------------------------------------------- containers
P_("R01", "The ordered tree agrees with a sorted map and stays balanced",
   "After any sequence of insertions, deletions, clears and swaps, lookup finds exactly the stored elements, iteration in either direction visits them all once in key order, and the count is right. The tree stays balanced: its height never exceeds twice the base-two logarithm of its size plus one, and a lookup's comparisons are bounded accordingly. A failed insertion leaves the tree and the caller's element untouched.",
   [H, I, F], "over every operation history and key order, with allocation failures",
   "Tests check a few fixed insert/delete orders; rebalancing cases depend on long histories.",
   ["src/rbtree/rbtree_insert.c", "src/rbtree/rbtree_delete_node.c", "src/rbtree/rbtree_swap.c", "src/rbtree/rbtree_find.c"],
   [("rebalancing", "src/rbtree/rbtree_insert.c"), ("removal", "src/rbtree/rbtree_delete_node.c")], ["lookups", "iteration", "height", "comparison counts"],
   rule="A run is one history of up to about 660 operations on one or two trees with up to 2000 distinct keys (mixed, ascending, descending or build-up/tear-down).")
P_("L01", "Lists and queues behave as sequences and keep ownership straight",
   "Singly and doubly linked lists and queues hold exactly the elements inserted and not yet removed, in the documented order, through any sequence of insertion, removal, traversal, child replacement, clear and swap. Each element is owned either by the container or the caller at any time, and released exactly once. A failed operation leaves both container and element unchanged.",
   [H, I, F], "over every operation history with allocation and element-release failures",
   "Tests check each operation once from a fixed small state.",
   ["src/list", "src/slist", "src/queue"],
   [("node linking", "src/list"), ("ownership transfer", "src/slist")], ["element identity and order", "release counts"],
   rule="A run is one history on one or two lists, slists or queues with up to a few hundred operations.")
# ------------------------------------------------- resources, allocation
P_("A01", "Every operation survives allocation failure without leak or half-made state",
   "If any allocation or stack mapping inside any creating operation fails, the operation reports out of memory, everything it had already made is released, nothing the caller passed in is taken over or lost, and repeating it later succeeds. This holds for schedulers, fibers, disciplines, containers, sockets, strings, numbers, identifiers and thread objects. Nothing is leaked and nothing is released twice.",
   [F, H], "over every creating operation and every single allocation that can fail in it",
   "No existing test injects an allocation failure.",
   ["src/fiber/common/fiber_scheduler_create_with_disciplines.c", "src/psock/psock_create_wrap_async.c", "src/rbtree/rbtree_create.c", "src/message/message_discipline_get_or_create.c"],
   [("cleanup paths of constructors", "src")], ["status", "live blocks and stacks", "retry result"], platforms=["epoll", "poll", "kqueue"], shares=[0.75, 0.15, 0.1])
P_("A02", "Releasing a resource releases everything it owns exactly once",
   "Releasing any object releases everything it owns, exactly once, in any reachable state: queued messages, blocked and stopped fibers, contexts, nodes, buffers, descriptors and stacks. If releasing something it owns fails, the failure is reported and the rest is still released. Afterwards no memory, stack or descriptor of it remains.",
   [H, F], "over every reachable state at the time of release and every failing nested release",
   "Tests release small objects with nothing failing and do not check for leaks.",
   ["src/fiber/common/fiber_scheduler_resource_release.c", "src/queue", "src/rbtree/rbtree_clear.c", "src/resource"],
   [("resource release callbacks", "src")], ["release counts", "heap", "status"], platforms=["epoll", "poll", "kqueue"], shares=[0.75, 0.15, 0.1])
P_("A03", "The bump allocator hands out disjoint memory within its region",
   "Every block from a bump allocator lies inside the caller's region, is suitably aligned for its position, and overlaps no other block; when the region cannot hold a request, whatever its size, the request fails as out of memory and nothing changes. It never writes outside the region. Resizing is refused or preserves contents as documented, and reclaiming never makes a live block available again.",
   [I, H], "over every region size and sequence of requests including sizes near the integer limit",
   "Tests allocate a few small blocks.",
   ["src/allocator"], [("bump offset", "src/allocator")], ["addresses", "statuses"])
# ---------------------------------------------------------------- threads
P_("T01", "Mutexes exclude and condition variables lose no wake-up",
   "At most one thread holds a mutex at a time, and a condition wait gives up the mutex while waiting and holds it again when it returns, whether woken or failed. A signal sent under the mutex to a waiting thread wakes at least one, a broadcast wakes all, so a consumer that waits for its predicate always sees it once established. A failing system primitive is reported as an error and leaves the lock state as reported.",
   [S, F], "over every interleaving of threads at synchronisation points, with spurious wake-ups and failing primitives",
   "Tests rely on whatever interleaving the machine produces, with one or two threads.",
   ["src/platform/pthread", "include/rcpr/thread.h"],
   [("lock resources", "src/platform/pthread")], ["critical section occupancy", "progress"], platforms=["epoll", "guard"])
P_("T02", "A thread runs its entry once with its context and is joined on release",
   "Creating a thread runs its entry function exactly once with the given context on a stack of the requested size; releasing the thread waits for it to finish and reports its failure. If creation fails at any step an error is reported, no thread runs and nothing is left allocated. All system objects made for a thread, mutex or condition are destroyed on release.",
   [S, F], "over every interleaving of creation, execution and release with failing primitives",
   "Tests create one thread on a healthy system.",
   ["src/platform/pthread", "include/rcpr/thread.h"], [("thread resource", "src/platform/pthread")], ["entry calls", "system objects", "heap"], platforms=["epoll", "guard"])
P_("T03", "Threads that share no object do not disturb one another",
   "Operations of different threads on different objects, and operations on an object that is handed from thread to thread and used by one at a time, have exactly the results they would have if each thread ran alone, wherever the threads interrupt one another: containers, strings, identifiers, numbers, sockets, triggers, allocators, schedulers and their fibers. A failure is reported to the thread it happened in and to no other, and after all threads have ended everything they made can be released.",
   [S, H, F], "over every interleaving of threads, down to the basic blocks of the library, with allocations failing in any of them",
   "The tests use threads only to try the mutex and condition functions; nothing runs the rest of the library from two threads.",
   ["src", "include/rcpr", "include/rcpr/thread.h"], [("state kept outside objects", "src"), ("threads", "src/platform/pthread")], ["results per thread", "heap"], platforms=["guard"])
P_("G01", "An automatic reset trigger fires its callback once per trigger, none lost",
   "A trigger raised with a listener registered is delivered to that listener exactly once, and a trigger raised with none registered is remembered, once, until one registers. After delivery the trigger is reset and the listener is deregistered, so nothing is delivered again until both happen again. The same holds for triggers, registrations and steps made while a delivery is under way, and for those made by different fibers.",
   [H, S], "over every order of registering, triggering and stepping, including from within the callback and from any fiber",
   "Tests follow one fixed order.",
   ["src/auto_reset_trigger", "include/rcpr/auto_reset_trigger.h"], [("trigger state machine", "src/auto_reset_trigger")], ["callback calls"])
P_("U01", "Descriptor moves land every descriptor in its slot and report failures",
   "Moving a set of open descriptors into their requested slots leaves each slot referring to the file it was asked to, closes the originals, leaves no other new descriptor behind and disturbs no descriptor outside the slots, including when a descriptor is already in its slot; when moving to consecutive slots this holds whatever slots the descriptors come from. A descriptor that cannot be moved makes the operation fail with an error, and no listed file is lost. Closing all other descriptors closes all those above the given one and no other. Helper operations on sockets report every failure of the underlying call and then change nothing.",
   [I, H, F], "over every assignment of descriptors to slots and every failing call",
   "Tests run these helpers only on the good path, with the real kernel.",
   ["src/socket_utilities", "include/rcpr/socket_utilities.h"], [("dup and close sequence", "src/socket_utilities")], ["descriptor table"])
P_("S01", "Copied and joined strings are exact and fail cleanly when memory runs out",
   "Copying a string, or joining any number of strings, yields one new allocation with exactly the bytes of its parts in order, up to the terminator, leaves the parts unchanged and shares nothing with them. If an allocation fails, out of memory is reported, nothing is leaked and nothing else changes.",
   [I, F, H], "over every list of strings, history of copies and failing allocation",
   "Tests use a few fixed strings and never let an allocation fail.",
   ["src/string", "include/rcpr/string.h"], [("copying and joining", "src/string")], ["results", "heap"])
prop("S02", "Trimming, splitting and iterating strings in place stays exact and in bounds",
   "Trimming, splitting and iterating over a string in place gives exactly the documented result for every input and never touches memory outside the string. Iterating over a split string yields every part once, in order; prefix tests give the documented answer.",
   [I], "over every input string",
   "Tests use a few fixed strings.",
   ["src/string", "include/rcpr/string.h"], [("in-place string functions", "src/string")], ["results"],
   na="Pure functions of their arguments: no thread, timer, I/O, allocation or other party takes part, so there is no schedule to control and no fault to inject; a simulation would only be random input testing under another name.")
P_("N01", "Identifiers print, and big numbers are copied, exactly or fail cleanly",
   "Printing an identifier yields its exact canonical text in a new allocation, which parses back to the same identifier. A new big number is zero and has at least the requested bits; a copy has the same sign and digits and shares no storage with its original, so releasing or changing either leaves the other unchanged. If an allocation fails, out of memory is reported, nothing is leaked and the operands are unchanged.",
   [I, F, H], "over every identifier, number size, history of copies and releases, and failing allocation",
   "Tests use a few fixed values and never let an allocation fail.",
   ["src/uuid", "src/bigint"], [("printing", "src/uuid"), ("number storage", "src/bigint")], ["results", "heap"])
prop("N02", "Identifier parsing and byte order conversion are exact and refuse bad text",
   "Parsing the canonical text of an identifier yields exactly its bytes, in either letter case, and malformed or truncated text is refused without reading past its end. Converting between host and network byte order is exact and invertible for every width and value.",
   [I], "over every text and value",
   "Tests use a few fixed values.",
   ["src/uuid", "include/rcpr/byteswap.h"], [("parsing", "src/uuid"), ("conversion", "include/rcpr/byteswap.h")], ["results"],
   na="Pure functions of their arguments: no schedule, clock, I/O, allocation or other party takes part, so there is nothing for a simulator to control or to make fail.")
P_("V01", "With run-time table checking built in, an overwritten table pointer is refused",
   "With run-time checking of function tables built in, an object whose table pointer was overwritten with anything outside the program's tables is refused: releasing or using it reports a bad table, calls no function through the pointer and changes nothing. If it is owned by something else, releasing the owner reports the failure and still releases the rest. Every other object, and the same object once repaired, works as before, and no legitimate object is ever refused.",
   [F, H], "over every kind of object, operation, overwritten pointer and history",
   "The tests build without the checking and corrupt nothing.",
   ["include/rcpr/vtable.h", "src/resource", "src/allocator", "src/psock"], [("range check", "include/rcpr/vtable.h")], ["status", "calls through forged tables", "heap and descriptor table"], platforms=["guard"])
P_("E01", "A served connection gets every reply, and shutdown reclaims everything",
   "A server built from fibers, messaging and sockets in the documented way answers every request of every connected client completely and in order whatever the clients' timing, and keeps serving the others when one client misbehaves. On a quiesce or termination request every fiber stops in bounded steps. After shutdown every fiber, message, descriptor and allocation has been released.",
   [S, H, F], "over every client behaviour, readiness order, interleaving, fault and shutdown point",
   "The examples show the composition; no test runs it under faults or shuts it down in mid-flight.",
   ["examples", "src/psock", "src/fiber", "src/message"], [("composition of disciplines", "src")], ["replies per client", "resources after shutdown"], platforms=["epoll", "poll", "kqueue"], shares=[0.5, 0.35, 0.15])
P_("E02", "The example echo server returns every byte and stops when told to",
   "The echo server of the examples returns to every client exactly the bytes it sent, in order and completely, whatever the other clients do, and closes the connection after the client has. A client is turned away only if memory runs out while it is taken on, and nobody else notices. After a signal the server ends its listener and its connections, joins its signal thread and returns success, at whatever moment the signal comes; the fibers, the thread and the socket pair between them lose nothing.",
   [S, H, F], "over every client behaviour, readiness order, thread schedule, moment of the signal and failing allocation",
   "The example is built but never run by a test.",
   ["examples/echo_server/src/main.c", "src/psock", "src/fiber", "src/platform/pthread"], [("the server", "examples/echo_server/src/main.c"), ("thread and fibers joined by a socket pair", "src/psock")], ["bytes per client", "status of the server"], platforms=["epoll", "poll", "kqueue"], shares=[0.5, 0.35, 0.15])
