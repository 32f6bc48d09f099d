# writes properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,anchors):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=anchors))
p("C01","Ring buffer behaves as an unbounded byte FIFO",
 "After any sequence of appends, removals, partial peeks, copies, searches, checksums and resets, a ring buffer holds exactly the bytes appended and not yet removed, in order; every read, peek, search (first match at or after the given position) and checksum answers exactly as a plain byte queue would, and reports only what is really there. Growth is transparent: no operation loses, repeats or reorders a byte wherever the content sits relative to the wrap point, and no range request, however large, touches memory outside the content.",
 ["inputs","histories"],"every start geometry (capacity, read offset, fill) of small buffers and the shapes around its internal thresholds, times every operation sequence to a bound, with every argument including huge ones",
 "The unit tests walk a few hand-picked fills; wrap-around, exact-power-of-two growth, overflow of offset+count and match-at-the-boundary cases depend on the joint position of cursors and argument.",
 ["source/cyCore/core/cyc_ring_buf.cpp","source/cyCore/core/cyc_ring_buf.h"])
p("C02","Ring buffer socket transfer loses no byte under short I/O",
 "Reading a descriptor into a ring buffer appends exactly the bytes the kernel handed over, and writing it out removes exactly the bytes the kernel accepted, whatever counts, would-blocks, interruptions, errors or end-of-file the kernel answers with. The returned count is that number of bytes; end-of-file and errors are reported only when nothing was transferred, in both the vectored and the plain read/write builds.",
 ["inputs","fault_sequences","configurations"],"every buffer geometry, every kernel answer (all short counts, EAGAIN, EINTR, ECONNRESET, EOF) on every call, both I/O build configurations",
 "The tests use a local socket that always transfers everything; short transfers at the wrap point, failures on a second call and the non-vectored build are never executed.",
 ["source/cyCore/core/cyc_ring_buf.cpp","source/cyCore/core/cyc_socket_api.cpp"])
p("C03","Packet framing round-trips and is segmentation-independent",
 "A packet built from an id and payload is its documented header (size and id, big-endian) followed by the payload, and parsing the same bytes from memory, a ring buffer or a pipe yields the same id, size and payload. A stream of packets cut at any byte positions is recovered as the same packet sequence; an incomplete packet consumes nothing from a ring buffer, and a malformed or truncated input is refused, leaving the packet empty, without touching memory outside the input.",
 ["inputs","histories"],"every header size, small payload size, packet sequence and cut position; every byte string as untrusted prefix up to a bound; every packet object reuse history",
 "Tests build a handful of packets whole; every split point, reuse of a packet object with a larger or smaller payload, and hostile length fields are input-space facts.",
 ["source/cyEvent/event/cye_packet.cpp","source/cyEvent/event/cye_packet.h"])
p("C04","Lock-free queue is a bounded multi-producer multi-consumer FIFO",
 "Whatever the interleaving of producers and consumers, each pushed element is popped at most once and with its value intact, none is lost, elements of one producer come out in the order pushed, and the history is explainable by a single FIFO order. A push fails only if the queue was full at some moment during the call, and a pop fails only if it was empty or an earlier push was still unfinished during the call; no call blocks forever once the other calls have finished.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of 2-3 threads with 1-3 operations each, on queues small enough to wrap and fill",
 "Stress tests sample schedules on queues that hardly ever wrap or fill; a window of one instruction at the wrap point is practically never hit.",
 ["source/cyCore/core/cyc_lf_queue.h","source/cyCore/core/cyc_atomic.h"])
p("C05","Work thread delivers every message exactly once, in order, awake",
 "Every message sent to a work thread, from any thread and in any form (packet, raw bytes, batch), is handed to the message handler exactly once, with identical content, on the work thread, in the order each sender sent it. A message whose send returned is eventually handled without any further send or event being needed, and messages sent while the thread starts up or while the handler is running are not lost. A start callback runs once, first, on the work thread; if it refuses, the thread ends and nothing is handled or leaked.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of 1-3 senders and the work thread, sends from inside the handler, and bursts around the capacity of its queue",
 "A lost wake-up needs a send to land in a window of a few instructions between draining the queue and going back to sleep; sampling with sleeps does not find it.",
 ["source/cyEvent/event/cye_work_thread.cpp","source/cyEvent/event/cye_work_thread.h","source/cyEvent/event/cye_pipe.cpp"])
p("C06","A stop request always ends the event loop, and is always safe",
 "A stop request made from any thread once the loop has been created, at any time relative to the loop starting, dispatching, sleeping or ending, never crashes; a request made while the loop is running makes it return, promptly and without any other event. The loop then releases what it created for itself (descriptors are closed exactly once).",
 ["schedules"],"all interleavings (to a preemption bound) of a looping thread and 1-2 requesting threads, including requests overlapping the loop's own return",
 "Tests stop loops that are comfortably asleep; the overlap of a request with the loop's wake-up, return and teardown is a matter of instructions.",
 ["source/cyEvent/event/cye_looper.cpp","source/cyEvent/event/cye_pipe.cpp"])
p("C07","Event loop calls exactly the ready, enabled, live handlers",
 "A handler runs only for an event that is registered, enabled and really ready at the time, on the thread running the loop, with the caller's argument; a ready enabled event is not starved by others. Registering, enabling, disabling and deleting events from inside handlers takes effect at once: a deleted or disabled event's handler never runs again, a handler that deletes itself or registers others is safe, and a reused id never receives another event's readiness.",
 ["histories","inputs","fault_sequences","configurations"],"every sequence of register/enable/disable/delete/poll operations to a bound, issued from outside and inside handlers, with every order of ready descriptors, on the epoll and select back ends",
 "Tests register a few events and dispatch them in one order; reentrant changes during a batch, id reuse and delivery order within a batch are history properties.",
 ["source/cyEvent/event/cye_looper.cpp","source/cyEvent/event/internal/cye_looper_epoll.cpp","source/cyEvent/event/internal/cye_looper_select.cpp"])
p("C08","Timers fire after their period, keep firing, and stop when told",
 "An enabled timer's handler runs no earlier than its period after it was registered or enabled, then once per period elapsed while the loop is serviced, independently of other events and timers. A disabled or deleted timer never fires again, including when a handler deletes or disables itself or another timer due at the same moment, and it fires again after being re-enabled.",
 ["histories","schedules"],"every sequence of timer operations and clock advances to a bound, in virtual time, with every order of simultaneous expirations",
 "The tests sleep on the wall clock and accept tolerances; simultaneous expiry, operations issued from handlers and re-enable phases are not covered.",
 ["source/cyEvent/event/cye_looper.cpp"])
p("C09","A TCP connection delivers the sent byte stream unaltered",
 "As long as the peer does not end the connection, bytes accepted by send on a connected connection reach it in order, once each, unaltered, whatever the socket accepts per write and however the sends are split among the owning thread, handlers and other threads (each call's bytes stay contiguous). A graceful shutdown issued after a send flushes what was accepted before the peer sees end-of-stream, the send-complete notification comes once the buffered data has been handed to the kernel, and received bytes reach the message handler complete and in order, including those arriving just before the peer closes.",
 ["schedules","fault_sequences","histories"],"all short-write/would-block answers and interleavings of 1-2 sending threads with the event thread to a deviation bound, for small payloads; all arrival segmentations",
 "The network library has no tests; partial writes, a send overlapping the flush of an earlier one and shutdown with data pending depend on kernel answers and schedules.",
 ["source/cyNetwork/network/cyn_tcp_connection.cpp"])
p("C10","Connection close: one notification, one descriptor close, no crash",
 "Whatever ends a connection (peer close, reset, write failure, local shutdown, from a handler or another thread), its close handler runs exactly once on its own event thread, after its connect handler and after all received data, no handler runs later, and its descriptor is closed exactly once. Sends and shutdowns racing with or following the close are harmless: they never crash the process, touch freed memory, or write to another connection.",
 ["schedules","fault_sequences","histories"],"all orders of peer reset/close, write errors, local shutdown and sends from the event thread and one other thread, to a deviation bound",
 "No tests exist for the network library, and close racing with send needs specific schedules and kernel errors.",
 ["source/cyNetwork/network/cyn_tcp_connection.cpp"])
p("C11","TCP client: one verdict per attempt, retry as told, nothing leaked",
 "Each connection attempt, however the kernel answers it, is answered exactly once with its true outcome: by connect() returning false when it fails at once, otherwise by one connected notification (given up attempts by none). After a failure notification a new attempt is made exactly after the delay the handler returned, and never when it returned 0 or the client has been told to disconnect or destroyed. A connection reported as established is reported closed exactly once, later. Data sent while an attempt is under way is transmitted first, complete and in order, when it or one of its retries succeeds; the client names the server of its latest attempt; disconnect at any moment ends the attempt, the waiting retry or the connection; handlers may send, disconnect, connect again after a failure, or drop the client; and every socket, event and timer created is released.",
 ["fault_sequences","histories","schedules"],"all connect outcomes (immediate, delayed, refused, unreachable), peer behaviours and points of disconnect or destruction, to a deviation bound",
 "No tests exist for the client; failures of the connect call, retries and disconnects between attempt and verdict are environment answers.",
 ["source/cyNetwork/network/cyn_tcp_client.cpp"])
p("C12","TCP server gives each accepted connection to one worker, correctly",
 "Every connection a peer makes to a listening port of a running server is accepted once and given to exactly one work thread; its connected (once, first), message and close (once, last) callbacks all run on that thread, with the right connection, thread index and addresses, and the bytes its peer sent; what handlers send reaches that peer. Connection ids are unique, connections are spread over the work threads in turn, messages sent to a work thread or the master thread arrive there once and in order, shutdown_connection closes that connection and no other, and a listen address that has been stopped accepts no more while the others go on.",
 ["schedules","histories"],"all interleavings of master, 1-2 workers and 1-3 peers to a deviation bound",
 "The network library has no tests; hand-over between threads and coincident arrivals are schedule facts.",
 ["source/cyNetwork/network/cyn_tcp_server.cpp","source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp","source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp"])
p("C13","Server stop always terminates and cleans up",
 "Once the server has been asked to stop, from a thread that may stop it, at any moment (before traffic, while connections arrive, send, close, or are being handed over, and while other threads call shutdown_connection or stop_listen), joining it returns: every announced connection's close callback has run exactly once, every peer has been told, the threads have ended, and no descriptor or connection object is left when it is destroyed. A stop refused in a work thread changes nothing, repeating a stop is harmless, and binding without starting, or destroying a server that was never started, is clean.",
 ["schedules","histories","fault_sequences"],"all interleavings of stop/join with accept, hand-over, peer close and worker activity to a deviation bound",
 "Stop protocols fail only in particular orders of messages between threads; there are no tests.",
 ["source/cyNetwork/network/cyn_tcp_server.cpp","source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp","source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp"])
p("C14","Mutexes exclude, signals wake exactly as documented",
 "A mutex is held by at most one thread, and a timed lock succeeds if the mutex becomes free in time and fails, not before its timeout, otherwise. A notify before or during a wait releases exactly one waiter, notifications without a waiter count at most once, and a timed wait reports true only for a notification and false only after its timeout.",
 ["schedules"],"all interleavings of 2-3 threads over lock, timed lock, unlock, notify, wait and timed wait, spurious wake-ups and early/late clock advance, to a preemption bound",
 "Tests check a couple of wall-clock delays; missed wake-ups, spurious wake-ups and double wake-ups are schedule facts.",
 ["source/cyCore/core/cyc_system_api.cpp","source/cyCore/core/cyc_system_api.h"])
p("C15","Threads run their function once, and are joinable at any time",
 "A created thread runs its function exactly once with the given parameter and name, reports an id other threads can match, and join returns only after the function has ended, whether join is called before, during or after it. Detached or joined, its resources are released once, whatever the order of creation, start-up, end, join and destruction, and a work or server thread object observes the same.",
 ["schedules"],"all interleavings of creator and 1-2 created threads to a preemption bound",
 "The hand-over between creator and new thread is a window of instructions that tests do not reach.",
 ["source/cyCore/core/cyc_system_api.cpp","source/cyEvent/event/cye_work_thread.cpp"])
p("C16","Ring queue is a FIFO of objects with exact lifetimes",
 "A ring queue returns its elements in insertion order and reports size, emptiness, indexed and conditional removal, and traversal exactly as a plain list would, across growth, reserve, copy and clear. No element is lost, duplicated, or reordered at any wrap position.",
 ["inputs","histories"],"every operation sequence to a bound from every start geometry, with element types that own memory",
 "Tests follow a few sequences on integers; removal in the middle of a wrapped buffer and growth at each offset need enumeration.",
 ["source/cyUtility/utility/cyu_ring_queue.h"])
p("C17","Statistics agree with the samples inside their window",
 "A period statistic reports the sum and count of exactly the samples pushed within the last period, and the values pushed before that no longer count; extremes report exactly the least and greatest value pushed since reset, for every sign and magnitude and for integer and floating types. Updates from several threads are not lost.",
 ["inputs","schedules","histories"],"all push/advance/query sequences over a small alphabet of values and virtual-time steps; all interleavings of two updating threads",
 "Tests use real sleeps with tolerances and positive integers.",
 ["source/cyUtility/utility/cyu_statistics.h"])
p("C18","Rijndael is AES: standard vectors, inverse, exact CBC chaining",
 "Encryption equals AES-128 in CBC mode with the given key and initial vector for every key and data, decryption is its exact inverse, in place or into another buffer, and processing a message in several block-aligned calls equals one call when the vector is carried on. No call writes outside the stated output or changes the caller's data, key or default vector.",
 ["inputs"],"every single-byte key/data/vector variation, every table entry exercised, every split into block-aligned calls, in-place and separate buffers",
 "A test with a few random keys cannot tell a table entry that is wrong from one that is not used.",
 ["source/cyCrypt/crypt/cyr_rijndael.cpp"])
p("C19","Both ends of a key exchange derive the same secret",
 "For any pair of private keys the two sides of the exchange compute the same secret, the public key is a power of the generator as the exchange defines it modulo 2^128-159 and the secret that power of the peer's public key; every input terminates and gives a result below the modulus.",
 ["inputs"],"all private/public values over an alphabet of boundary 128-bit values (0, 1, 2, word boundaries, modulus +-k, all-ones) pairwise",
 "Tests draw random keys; carries across 64-bit words and values at or above the modulus have negligible probability.",
 ["source/cyCrypt/crypt/cyr_dhexchange.cpp"])
p("C20","Adler-32 equals its definition and composes",
 "The checksum of any byte string equals the Adler-32 of RFC 1950 and updating it over consecutive pieces, of any lengths including empty and beyond the internal blocking, equals one call over the whole; a ring buffer's checksum equals that of its content.",
 ["inputs"],"all strings over a small alphabet to a length, all lengths around the internal block sizes with extreme byte values, all split points",
 "Tests compare a few strings; modular reduction errors appear only at particular lengths with large bytes.",
 ["source/cyCrypt/crypt/cyr_adler32.cpp"])
p("C21","Stream cipher is self-inverse and independent of word-wise splitting",
 "Applying the XorShift128 stream twice from the same seed restores the data, splitting the data over calls at multiples of eight bytes gives the same output as one call, and generator and seed evolve exactly as the published xorshift128+ recurrence. In-place and separate-buffer use agree and no byte outside the stated range changes.",
 ["inputs","histories"],"all lengths and split points to a bound, seeds over a boundary alphabet, in-place and separate buffers",
 "Tests use one length and random seeds; odd tails, alignments and degenerate seeds are not covered.",
 ["source/cyCrypt/crypt/cyr_xorshift128.cpp","source/cyCrypt/crypt/cyr_xorshift128.h"])
p("C22","Concurrent log lines are written whole, once, in each thread's order",
 "Every log call at an enabled level produces exactly one complete line in the current log file, carrying its own time, level, thread name and text, and the same line on standard output (standard error from level error up), whatever other threads log or change (file name, threshold) at the same time and whatever other process creates the log directory meanwhile; lines stand in the order in which calls followed each other, and disabled levels produce nothing. Messages longer than any internal buffer are written whole, the first log calls may come from several threads at once, the file name set before a call is the one the call uses, a default file name consists of process, time, host and process id however long these are, and a message whose file cannot be opened costs no other message.",
 ["schedules","inputs","faults"],"all interleavings of 2-3 logging threads to a preemption bound, including first use, concurrent changes of file and threshold, and failing opens; message lengths around the buffer limits; host and process names around theirs",
 "There is no test of the logger.",
 ["source/cyCore/core/cyc_logger.cpp"])
p("C23","SOCKS5 parser accepts exactly the protocol at any segmentation",
 "For every byte string the handshake and request parsers answer exactly: accepted with the fields the SOCKS5 format defines, more data needed when it is a proper prefix of some valid message, or rejected; a message delivered in pieces is parsed as if whole. No input makes them read outside the received data.",
 ["inputs"],"all byte strings over an alphabet of protocol bytes up to the full message lengths, at every segmentation",
 "There are no tests of the sample.",
 ["samples/socks5/s5_protocol.cpp","samples/socks5/s5_main.cpp"])
p("C24","Addresses round-trip, compare, hash and resolve exactly",
 "An Address built from a text and a port, from a native sockaddr or from a socket shows the same text, port and native form however it was built; == and < agree with the numeric address and port and < is a strict total order, so Addresses work as map keys; equal addresses hash equally and the hash depends on every byte of address and port; invalid text becomes 0.0.0.0 and a socket without the asked name the zero address; loopback/any constructors bind what they say. resolve_hostname answers the first IPv4 address of the resolver's list, keeps the port, leaves its result untouched when it fails and releases the list exactly once. The byte-order helpers are inverse to each other and put the most significant byte first.",
 ["inputs","faults"],"every value of every byte of address and port, all pairs from a set of addresses, malformed texts, all resolver answers up to a list length",
 "There is no test of Address at all.",
 ["source/cyNetwork/network/cyn_address.cpp","source/cyNetwork/network/cyn_address.h","source/cyCore/core/cyc_socket_api.cpp"])
p("C25","The connection probe tells the truth in time; pipes never block and running out of descriptors leaves nothing behind",
 "check_connect answers true exactly if the connection was established within the given time, returns no later than that, and closes the socket it opened - whatever signal interrupts the wait, however many descriptors the process has open, and whichever system call refuses. A Pipe or socket pipe carries bytes in order from its write port to its read port and never blocks on either; destroying it closes its two descriptors and no others. Every constructor helper (pipe, timer, socket, a bound server address) that meets an exhausted descriptor table or a refusing call reports so, and neither leaks a descriptor nor uses or closes one it does not own.",
 ["schedules","faults"],"all arrival times of answer, refusal and interruption around the timeout; all sequences of writes and reads of varied sizes over a small pipe; a refusal at each call; timers and bound addresses while descriptors run out",
 "The tests create one pipe and probe nothing; nothing exhausts descriptors.",
 ["source/cyCore/core/cyc_socket_api.cpp","source/cyEvent/event/cye_pipe.cpp","source/cyEvent/event/cye_pipe.h"])
p("C26","The relay carries every session's bytes unaltered and keeps sessions apart",
 "Whatever a client of the local relay sends reaches the target the server relay connected for that session, and whatever the target sends reaches that client: complete, in order, unaltered by encryption, and never another session's bytes, for any number of simultaneous sessions and any interleaving of their connects, data and closes. When either end of a session closes, all bytes sent before are still delivered to the other end and then it is closed, too; a target that refuses closes that client only. Neither program stops, crashes or keeps a dead session's connection because of what clients, targets or malformed relay messages do.",
 ["histories","schedules"],"all histories of connects, sends, closes and refusals of up to 2-3 sessions through both real programs, all thread interleavings of the shorter ones to a preemption bound, all sequences of raw messages in whole and in pieces",
 "There are no tests of the relay; ends of sessions meeting data on the way are histories no manual test reaches.",
 ["samples/relay/relay_server.cpp","samples/relay/relay_local.cpp","samples/relay/relay_protocol.h"])
p("C27","The SOCKS5 server connects each client to its own target and never wedges or crashes",
 "A client that greets and asks for a target as SOCKS5 says, in however many pieces its messages arrive, gets the greeting answer and then a success answer with the target's address once the target is connected, or a failure answer and the end of its connection if the target refuses, is unreachable at once or fails later; malformed or unsupported messages end that client's connection only. From then on each side receives exactly the other side's bytes of the same tunnel, complete and in order - also those sent while the connection was being made - and when either side closes, the bytes sent before are still delivered and the other side is closed, too. Whatever clients and targets do, the server goes on, and keeps no connection of a finished tunnel.",
 ["histories","schedules"],"all histories of connects, messages in pieces, nonsense, data and closes of up to 2 clients against every outcome of the target's connection, with slow readers on either side; all thread interleavings of the shorter ones to a preemption bound",
 "There are no tests of the sample; which end closes while what is under way needs enumeration.",
 ["samples/socks5/s5_main.cpp","samples/socks5/s5_protocol.cpp"])
p("C28","Chat and echo programs deliver every message to everybody, in one order, and survive broken clients",
 "The chat server passes every complete message it receives, exactly once and unaltered, to every client connected then, the sender included; all clients see the messages in one common order, each sender's in the order it sent them, however messages are cut into segments or run together, and clients that close, reset or stop reading neither stop the server nor cost the others anything. The chat client sends each typed line as one message, shows every message it receives, of any length, once it is complete, and connects as soon as there is a server. The echo server returns every text of any length in upper case, in order, ends a connection on `exit` and the whole program on `shutdown`, keeping no descriptor.",
 ["histories","schedules"],"all histories of connects, messages whole, joined and in pieces, closes, resets and stopped readers of up to 3 clients; all thread interleavings of shorter ones to a preemption bound; all message lengths around the programs' buffers",
 "There are no tests of the samples.",
 ["samples/chat/chat_server.cpp","samples/chat/chat_client.cpp","samples/echo/echo_server.cpp"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
