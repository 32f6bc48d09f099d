# Which harness decides which property, with what bounds.
SEQ = "exhaustive enumeration of operation sequences on the real code against a reference model"
CHECKS = {}
NOT_APPLICABLE = {}
CHECKS["C01"] = dict(
    technique=SEQ,
    units=[dict(name="c01", engine="seq", harness=["c01_ringbuf.cpp"])],
    runs=[
        dict(tag="small", unit="c01", what="all start geometries of capacity 1..3 x all operation sequences", args=["part=0"], quick=["cap=3", "depth=2"], thorough=["cap=3", "depth=3"], limit=dict(quick=90, thorough=600)),
        dict(tag="cap4", unit="c01", tier="thorough", what="capacity 1..5, two operations", args=["part=0", "cap=5", "depth=2"], limit=120),
        dict(tag="big", unit="c01", what="shapes around 1023/1024, powers of two and 64k", args=["part=1", "depth=1"], limit=dict(quick=90, thorough=120)),
    ],
    note="Every operation sequence to the stated depth from every (capacity, read offset, fill) geometry of small buffers, plus one operation on all shapes around the internal size thresholds; every observer is evaluated with every (and huge) argument in every state. Content bytes and larger buffers outside these shapes are assumed to behave alike.",
)
WRAPIO = ["-Wl," + ",".join("--wrap=" + f for f in ("read", "write", "readv", "writev", "recv", "send", "recvfrom", "sendto", "recvmsg", "sendmsg"))]
CHECKS["C02"] = dict(
    technique="exhaustive enumeration of kernel answers (short counts, errors, EOF) on the real code against a byte-queue model",
    units=[dict(name="c02v", engine="seq", harness=["c02_ringbuf_io.cpp"], ld=WRAPIO),
           dict(name="c02p", engine="seq", harness=["c02_ringbuf_io.cpp"], ld=WRAPIO, off=["CY_HAVE_READWRITE_V"])],
    runs=[
        dict(tag="vec", unit="c02v", what="readv/writev build, small buffers", args=[], quick=["cap=3", "depth=2"], thorough=["cap=4", "depth=3"], limit=dict(quick=60, thorough=250)),
        dict(tag="plain", unit="c02p", what="read/write build, small buffers", args=[], quick=["cap=3", "depth=2"], thorough=["cap=3", "depth=3"], limit=dict(quick=60, thorough=250)),
        dict(tag="vec_big", unit="c02v", what="readv/writev build, sizes around 1023 and 64k", args=["big=1"], quick=["depth=1"], thorough=["depth=2"], limit=dict(quick=60, thorough=120)),
        dict(tag="plain_big", unit="c02p", what="read/write build, sizes around 1023 and 64k", args=["big=1"], quick=["depth=1"], thorough=["depth=2"], limit=dict(quick=60, thorough=120)),
    ],
    note="Every answer the kernel may give to every transfer call, from every small geometry, in sequences of reads, writes and discards; both build configurations. The kernel is a stand-in that hands out or accepts any prefix, EAGAIN, EINTR, ECONNRESET or end-of-file.",
)
CHECKS["C03"] = dict(
    technique="exhaustive enumeration of packets, cut positions and byte strings on the real code against the documented format",
    units=[dict(name="c03", engine="seq", harness=["c03_packet.cpp"], dirs=["cyCore", "cyEvent", "cyCrypt"])],
    runs=[
        dict(tag="memory", unit="c03", what="all header sizes x ids x sizes around thresholds x two-part splits x object reuse histories; the same bytes through ring buffer and pipe", args=["part=0"], limit=dict(quick=100, thorough=200)),
        dict(tag="stream", unit="c03", what="all streams of 1-3 small packets cut at all pairs of positions", args=["part=1"], limit=dict(quick=100, thorough=300)),
        dict(tag="hostile", unit="c03", what="all byte strings over {0,1,2,4,255} up to 7 (8) bytes as input", args=["part=2"], limit=dict(quick=100, thorough=300)),
    ],
    note="Sizes are the small ones, the ones around the internal static buffer (1024) and the 16-bit limits. Building a packet whose two parts exceed 65535 bytes is a programming error the library asserts on and is not explored.",
)
CHECKS["C16"] = dict(technique=SEQ,
    units=[dict(name="c16", engine="seq", harness=["c16_ringqueue.cpp"], dirs=["cyCore", "cyCrypt"])],
    runs=[dict(tag="seq", unit="c16", what="fixed capacity 1..4 (and 7, 8 in thorough) and growing queues, three element types, all start geometries x operation sequences", quick=["depth=3", "fixed=4"], thorough=["depth=4", "fixed=6"], limit=dict(quick=100, thorough=600))],
    note="Every sequence of push, pop(n), reset and copy to the stated depth; every observer and both traversals (stopped after every count) in every state. Growing queues start around the built-in initial capacity of 31.")
CHECKS["C18"] = dict(technique="exhaustive enumeration of single-byte variations, block counts and call splits against FIPS-197 written out from the standard",
    units=[dict(name="c18", engine="seq", harness=["c18_aes.cpp"])],
    runs=[dict(tag="aes", unit="c18", what="all 16x256 key, data and vector byte variations, all splits of 1-5 blocks, in place and separate, with and without vector; messages around powers of two to 257 (4097) blocks cut once")],
    note="The whole key and data space cannot be enumerated; every value of every byte of key, data and vector is, which drives every entry of every table many times.")
CHECKS["C19"] = dict(technique="exhaustive pairwise enumeration of boundary keys against plain 128-bit modular arithmetic",
    units=[dict(name="c19", engine="seq", harness=["c19_dh.cpp"], ld=["-Wl,--wrap=rand"])],
    runs=[dict(tag="dh", unit="c19", what="all pairs over an alphabet of boundary 128-bit values, as private/private and private/public", limit=dict(quick=100, thorough=500))],
    note="Key values outside the boundary alphabet are assumed to behave like those in it.")
CHECKS["C20"] = dict(technique="exhaustive enumeration of strings, lengths and split points against the definition",
    units=[dict(name="c20", engine="seq", harness=["c20_adler.cpp"])],
    runs=[dict(tag="adler", unit="c20", what="all strings over {0,1,80,ff} to 6 (7) bytes with all splits; all lengths to 80 with all splits; lengths around 5552 and 65521; ring buffers, small and around 5552 bytes", limit=dict(quick=100, thorough=300))],
    note="Long strings are of three byte patterns (extreme ones included).")
CHECKS["C21"] = dict(technique="exhaustive enumeration of lengths, alignments, splits and boundary seeds against the published recurrence",
    units=[dict(name="c21", engine="seq", harness=["c21_xorshift.cpp"])],
    runs=[dict(tag="xs", unit="c21", what="36 seeds x lengths 0..41 (65) x alignments x two split points at multiples of eight; lengths around powers of two to 65544 (524296)", limit=dict(quick=100, thorough=300))],
    note="Splitting is only promised at multiples of eight bytes: the generator produces 64-bit words and a call that ends inside one discards the rest of it.")
CHECKS["C17"] = dict(technique=SEQ,
    units=[dict(name="c17", engine="seq", harness=["c17_stats.cpp"])],
    runs=[dict(tag="seq", unit="c17", what="all update sequences over boundary values for six types; all push/advance/query sequences with explicit times around the period and the queue's growth points", quick=["depth=4"], thorough=["depth=6", "mmdepth=5"], limit=dict(quick=100, thorough=500))],
    note="Times given explicitly never run backwards.")
CHECKS["C23"] = dict(technique="exhaustive enumeration of protocol byte strings and segmentations against the RFC 1928 format",
    units=[dict(name="c23", engine="seq", harness=["c23_s5parser.cpp"], dirs=["cyCore", "cyCrypt", "cyNetwork", "cyEvent"], repo_src=["samples/socks5/s5_protocol.cpp"], inc=["samples/socks5"], ld=["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo"])],
    runs=[dict(tag="parser", unit="c23", what="all handshakes over a protocol alphabet to 6 (7) bytes, long method lists, all header combinations, every value of every address byte, all domain-length boundary cases; whole, bytewise and two-piece delivery", limit=dict(quick=100, thorough=300))],
    note="Requests are drawn from an alphabet that contains every value the parsers distinguish. Name lookup is a stand-in.")
CHECKS["C24"] = dict(technique="exhaustive enumeration of addresses byte by byte, of address pairs and of lookup results, on the real code against the addresses' bytes",
    units=[dict(name="c24", engine="seq", harness=["c24_address.cpp"], dirs=["cyCore", "cyCrypt", "cyNetwork", "cyEvent"], ld=["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo,--wrap=getsockname,--wrap=getpeername"])],
    runs=[dict(tag="addr", unit="c24", what="every value of every byte of address and port around 143 addresses, all pairs of these, all one-byte differences, malformed texts, all lookup results of up to three entries", limit=dict(quick=100, thorough=300))],
    note="The sockets' and the name service's answers are stand-ins.")

SCHED = "stateless model checking of the real code: every thread interleaving to a preemption bound, with happens-before state caching"
CHECKS["C04"] = dict(technique=SCHED,
    units=[dict(name="c04", engine="mcrt", harness=["c04_lfqueue.cpp"])],
    runs=[
        dict(tag="two_q4", unit="c04", what="2 threads, every script of 2 operations each, queue of 4, every cursor position and fill", args=["Q=4", "thr=2", "ops=2"], quick=["P=2"], thorough=["P=4"], limit=dict(quick=60, thorough=150)),
        dict(tag="two_q2", unit="c04", what="2 threads, every script of 3 operations each, queue of 2", args=["Q=2", "thr=2", "ops=3"], quick=["P=2"], thorough=["P=4"], limit=dict(quick=60, thorough=150)),
        dict(tag="three_q2", unit="c04", what="3 threads, every script of 2 operations each, queue of 2", args=["Q=2", "thr=3", "ops=2", "turn=0"], quick=["P=2"], thorough=["P=3"], limit=dict(quick=60, thorough=200)),
        dict(tag="three_q4", unit="c04", what="3 threads, every script of 2 operations each, queue of 4", args=["Q=4", "thr=3", "ops=2", "turn=0"], quick=["P=1"], thorough=["P=3"], limit=dict(quick=60, thorough=250)),
    ],
    note="Sequentially consistent interleavings; the element is a 16-byte structure so that torn copies show.")
U14 = [dict(name="c14", engine="mcrt", harness=["c14_sync.cpp"])]
CHECKS["C14"] = dict(technique=SCHED, units=U14,
    runs=[
        dict(tag="mutex", unit="c14", what="2 threads, every script of 2 lock/trylock/timed/scoped operations, held over a yield or not", args=["part=0", "thr=2", "ops=2"], quick=["D=2"], thorough=["D=3", "P=3"], limit=dict(quick=70, thorough=150)),
        dict(tag="mutex_time", unit="c14", what="2 threads, 2 operations, mutex held for 0, 3 or 10 ms against 5 ms timeouts", args=["part=0", "thr=2", "ops=2", "times=1"], quick=["D=1"], thorough=["D=2"], limit=dict(quick=70, thorough=100)),
        dict(tag="mutex3", unit="c14", what="3 threads, one operation each", args=["part=0", "thr=3", "ops=1", "times=1"], quick=["D=2"], thorough=["D=3", "P=3"], limit=dict(quick=70, thorough=100)),
        dict(tag="signal", unit="c14", what="2 threads, every script of 2 notify/wait/timed wait operations, spurious wake-ups, early clock", args=["part=1", "thr=2", "ops=2", "T=1"], quick=["D=2"], thorough=["D=3", "P=3"], limit=dict(quick=70, thorough=150)),
        dict(tag="signal3", unit="c14", what="3 threads, one operation each, at different times", args=["part=1", "thr=3", "ops=1", "times=1", "T=1", "scales=1"], quick=["D=2"], thorough=["D=3", "P=3"], limit=dict(quick=70, thorough=200)),
        dict(tag="signal_time", unit="c14", what="2 threads, one operation each, timeouts across a full second and of more than a second", args=["part=1", "thr=2", "ops=1", "times=1", "T=1"], quick=["D=2"], thorough=["D=3", "P=3"], limit=dict(quick=60, thorough=100)),
    ],
    note="Virtual clock; the library's mutex is not recursive on this platform, so relocking by the holder is outside the property.")
CHECKS["C15"] = dict(technique=SCHED,
    units=[dict(name="c15", engine="mcrt", harness=["c15_threads.cpp"])],
    runs=[dict(tag="one", unit="c15", what="1 thread in every mode, duration and join time", args=["thr=1"], quick=["D=3", "P=3"], thorough=["D=4", "P=4", "up=1"], limit=dict(quick=60, thorough=200)),
          dict(tag="two", unit="c15", what="2 threads, modes join / timed join / detached / created by the other thread", args=["thr=2"], quick=["D=1", "durs=3"], thorough=["D=2", "durs=4"], limit=dict(quick=90, thorough=500))],
    note="Work and server threads are covered by C05, C12 and C13.")
CHECKS["C17"]["units"].append(dict(name="c17t", engine="mcrt", harness=["c17t_stats.cpp"]))
CHECKS["C17"]["runs"] += [
    dict(tag="mm_threads", unit="c17t", what="2 threads, every script of 2 updates over {-7,0,5,9}", args=["part=0", "thr=2", "ops=2"], quick=["P=2"], thorough=["P=4"], limit=dict(quick=60, thorough=150)),
    dict(tag="period_threads", unit="c17t", what="2 threads pushing and querying, queue at its growth points", args=["part=1", "thr=2", "ops=2"], quick=["P=2"], thorough=["P=4"], limit=dict(quick=60, thorough=150)),
    dict(tag="mm3", unit="c17t", tier="thorough", what="3 threads, one update each", args=["part=0", "thr=3", "ops=1", "P=4"], limit=100)]

EV = ["cyCore", "cyCrypt", "cyEvent"]
def both(name, harness, dirs):
    return [dict(name=name, engine="mcrt", harness=[harness], dirs=dirs), dict(name=name + "s", engine="mcrt", harness=[harness], dirs=dirs, off=["CY_HAVE_EPOLL"])]
CHECKS["C06"] = dict(technique=SCHED, units=both("c06", "c06_stop.cpp", EV),
    runs=[dict(tag="one", unit="c06", what="1 requesting thread, each kind of loop, epoll", args=["req=1"], quick=["P=3", "D=3"], thorough=["P=4", "D=4"], limit=dict(quick=60, thorough=200)),
          dict(tag="two", unit="c06", what="2 requesting threads, epoll", args=["req=2"], quick=["P=2", "D=2"], thorough=["P=3", "D=3"], limit=dict(quick=60, thorough=200)),
          dict(tag="select", unit="c06s", what="1 requesting thread, select", args=["req=1"], quick=["P=2", "D=2"], thorough=["P=4", "D=4"], limit=dict(quick=60, thorough=200))],
    note="Up to two requesting threads; the requests come at every point of the loop's life, for an empty loop, a loop with timers and with a pipe. Kernel objects are simulated.")

CHECKS["C05"] = dict(technique=SCHED, units=both("c05", "c05_work.cpp", EV) + [dict(name="c05q", engine="mcrt", harness=["c05_work.cpp"], dirs=EV, pre=["-include", "small_queue.h"])],
    runs=[dict(tag="one", unit="c05", what="1 sender, 3 messages in every combination of 4 forms, before/while/after the thread starts, handler sending to its own thread", args=["senders=1", "forms=4"], quick=["P=1", "D=1", "msgs=2"], thorough=["P=2", "D=2", "msgs=3"], limit=dict(quick=60, thorough=200)),
          dict(tag="two", unit="c05", what="2 senders, 2 messages each", args=["senders=2", "msgs=2"], quick=["P=2", "D=2", "forms=1"], thorough=["P=2", "D=2", "forms=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="three", unit="c05", what="3 senders, 1 message each", args=["senders=3", "msgs=1", "forms=1", "early=1", "self=1"], quick=["P=2", "D=2"], thorough=["P=3", "D=3"], limit=dict(quick=60, thorough=200)),
          dict(tag="select", unit="c05s", what="1 sender, 2 messages, select", args=["senders=1", "msgs=2", "forms=2"], quick=["P=2"], thorough=["P=3", "D=3"], limit=dict(quick=60, thorough=100)),
          dict(tag="hook", unit="c05", what="with a start callback that accepts, refuses, or sends to its own thread", args=["senders=2", "hook=4", "forms=1"], quick=["P=1", "D=1", "msgs=1"], thorough=["P=2", "D=2", "msgs=2"], limit=dict(quick=60, thorough=150)),
          dict(tag="small", unit="c05q", what="2 senders (and the handler), 3 messages each, through a queue of 4 entries", args=["senders=2", "msgs=3", "forms=1"], quick=["P=2", "D=2"], thorough=["P=3", "D=3"], limit=dict(quick=60, thorough=250)),
          dict(tag="small1", unit="c05q", what="1 sender and the handler, 6 messages, through a queue of 4 entries", args=["senders=1", "msgs=6", "forms=1"], quick=["P=2", "D=2"], thorough=["P=4", "D=4"], limit=dict(quick=60, thorough=200)),
          dict(tag="full", unit="c05", what="bursts around the queue's capacity of 65535", args=["full=1"], quick=["P=0", "E=0"], thorough=["P=0", "E=0"], limit=dict(quick=60, thorough=100))],
    note="Up to three senders and the handler itself; the burst run fills the queue of 65535 entries before the worker starts or while it is held up in its handler. Kernel objects are simulated.")
CHECKS["C07"] = dict(technique="exhaustive enumeration of operation histories, issued from outside and inside handlers, on the real loop over a simulated kernel; thread interleavings to a preemption bound", units=both("c07", "c07_loop.cpp", EV),
    runs=[dict(tag="hist", unit="c07", what="3 events, every pair of operations placed anywhere (outside, in any handler), step() and loop(), epoll", args=["acts=2"], quick=["rounds=2", "E=0"], thorough=["rounds=2", "E=1"], limit=dict(quick=90, thorough=300)),
          dict(tag="hist_select", unit="c07s", what="the same on select", args=["acts=2"], quick=["rounds=2", "E=0"], thorough=["rounds=2", "eintr=1"], limit=dict(quick=90, thorough=300)),
          dict(tag="many", unit="c07", what="15..40 ready events, one operation in any handler, epoll", args=["many=1", "menu=3"], quick=["E=0"], limit=dict(quick=60, thorough=100)),
          dict(tag="many_select", unit="c07s", what="the same on select", args=["many=1", "menu=3"], quick=["E=0"], limit=dict(quick=60, thorough=100)),
          dict(tag="threads", unit="c07", what="another thread enables and disables events of a running loop, epoll", args=["many=3"], quick=["P=2", "D=2", "ops=1"], thorough=["P=2", "D=2", "ops=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="threads_select", unit="c07s", what="the same on select", args=["many=3"], quick=["P=2", "D=2", "ops=1"], thorough=["P=2", "D=2", "ops=2"], limit=dict(quick=60, thorough=250))],
    note="Three events over sockets and pipes with read, write or both enabled, readable, writable, at end of stream or idle; a kernel simulation answers. The order in which epoll reports ready events is varied by rotation. Enabling and disabling from another thread is explored for one event.")
CHECKS["C08"] = dict(technique="exhaustive enumeration of timer operation histories and clock advances on the real loop, over a simulated kernel in virtual time", units=both("c08", "c08_timer.cpp", EV),
    runs=[dict(tag="one", unit="c08", what="3 timers and a pipe, one operation anywhere, 4 period mixes, epoll order and interruption", args=["acts=1", "cfgs=4", "eintr=1"], quick=["E=1", "D=1"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=200)),
          dict(tag="two", unit="c08", what="3 timers and a pipe, two operations anywhere, epoll", args=["acts=2", "E=0"], quick=["cfgs=1", "rounds=2"], thorough=["cfgs=3", "rounds=3"], limit=dict(quick=80, thorough=300)),
          dict(tag="one_select", unit="c08s", what="one operation anywhere, select", args=["acts=1", "cfgs=4", "eintr=1"], quick=["E=1", "D=1"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=200)),
          dict(tag="two_select", unit="c08s", what="two operations anywhere, select", args=["acts=2", "E=0"], quick=["cfgs=1", "rounds=2"], thorough=["cfgs=3", "rounds=3"], limit=dict(quick=80, thorough=300))],
    note="Three timers (four period mixes, seconds and milliseconds), a pipe event, handlers that take longer than a period. The clock is virtual and advances exactly to the next expiry.")
NET = EV + ["cyNetwork"]
CONN = "exhaustive exploration of kernel answers, handler action scripts and thread interleavings on the real connection and loop over a simulated kernel"
U9 = both("c09", "c09_conn.cpp", NET)
CHECKS["C09"] = dict(technique=CONN, units=U9,
    runs=[dict(tag="script", unit="c09", what="no other thread: every script of sends and shutdowns in the message and send-complete handlers and at the start, peer reading at once or late, one (thorough: three) partial or refused writes at any point, epoll", args=["part=0"], quick=["E=2", "D=2"], thorough=["E=3", "D=3"], limit=dict(quick=60, thorough=250)),
          dict(tag="script_select", unit="c09s", what="the same on select", args=["part=0"], quick=["E=1", "D=1"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="threads", unit="c09", what="one sending thread against the event thread, every interleaving to the preemption bound, epoll", args=["part=1"], quick=["P=1", "E=1", "D=2"], thorough=["P=2", "E=2", "D=3"], limit=dict(quick=60, thorough=300)),
          dict(tag="threads2", unit="c09", what="two sending threads against the event thread, epoll", args=["part=1", "senders=2"], quick=["P=1", "E=0", "D=1", "msgs=2", "inits=2"], thorough=["P=2", "E=1", "D=2"], limit=dict(quick=60, thorough=300)),
          dict(tag="threads_select", unit="c09s", what="one sending thread, select", args=["part=1"], quick=["P=1", "E=1", "D=1"], thorough=["P=2", "E=2", "D=2"], limit=dict(quick=60, thorough=300)),
          dict(tag="recv", unit="c09", what="1-3 small segments with and without pauses, then FIN, half close or reset; handlers consume all, part, nothing, answer or shut down; short reads and would-block", args=["part=2"], quick=["E=1", "D=1"], thorough=["E=3", "D=3"], limit=dict(quick=60, thorough=250)),
          dict(tag="recv_large", unit="c09", what="segments of 1023, 1500 and 67000 bytes", args=["part=2", "large=1"], quick=["E=1", "D=1", "segs=2"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="recv_select", unit="c09s", what="small segments, select", args=["part=2"], quick=["E=1", "D=1", "segs=2"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=250))],
    note="Messages of 3 and 9 bytes over a simulated socket that holds 5 bytes, so that most sends are split. Every byte names its call, so loss, duplication, reordering and torn calls are all visible. Data pending when the peer itself ends the connection may be lost.")
CHECKS["C09"]["units"] = U9 + both("c09l", "c09_large.cpp", NET)
CHECKS["C09"]["runs"] += [
    dict(tag="send_large", unit="c09l", what="one message (thorough: two) of 1 to 200000 bytes around powers of two over sockets that hold 5000, 65536 or more bytes, from handlers or another thread, fast and slow reader, a partial or refused write at any point, epoll", quick=["n=1", "E=1"], thorough=["n=2", "E=1"], limit=dict(quick=60, thorough=250)),
    dict(tag="send_large2", unit="c09l", what="two (thorough: three) such messages", quick=["n=2", "E=0"], thorough=["n=3", "E=0"], limit=dict(quick=60, thorough=250)),
    dict(tag="send_large_select", unit="c09ls", what="one such message, select", args=["n=1"], quick=["E=1", "D=1"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=200))]
CHECKS["C10"] = dict(technique=CONN, units=U9,
    runs=[dict(tag="script", unit="c09", what="no other thread: every script of sends and shutdowns in four handlers x ended by local shutdown, peer close, half close or reset, before, while or after data was exchanged; late use of the closed connection with its descriptor number reused; epoll", args=["part=3"], quick=["E=1", "D=1"], thorough=["E=2", "D=2"], limit=dict(quick=90, thorough=300)),
          dict(tag="script_select", unit="c09s", what="the same on select", args=["part=3"], quick=["E=0"], thorough=["E=1", "D=1"], limit=dict(quick=60, thorough=300)),
          dict(tag="threads", unit="c09", what="one sending thread against the event thread and every way of ending, epoll", args=["part=4"], quick=["P=1", "E=1", "D=1", "inits=2"], thorough=["P=2", "E=1", "D=2"], limit=dict(quick=90, thorough=400)),
          dict(tag="threads2", unit="c09", what="the same with scheduling points at every reference count", args=["part=4", "ref=1"], quick=["P=1", "E=0", "D=1", "msgs=2", "inits=2"], thorough=["P=2", "E=0", "D=2"], limit=dict(quick=60, thorough=300)),
          dict(tag="threads_select", unit="c09s", what="one sending thread, select", args=["part=4"], quick=["P=1", "E=0", "D=1", "inits=2"], thorough=["P=2", "E=1", "D=2"], limit=dict(quick=60, thorough=300))],
    note="Besides the exactly-once close notification and descriptor close, every use of freed memory, every use of a closed or reused descriptor, SIGPIPE, leaked blocks and descriptors and endless loops are violations. Other threads keep the connection and use it during and after the close, and after its event loop is gone.")
CHECKS["C11"] = dict(technique=CONN, units=both("c11", "c11_client.cpp", NET),
    runs=[dict(tag="hist", unit="c11", what="every history of connect outcomes (established, refused, timed out, unreachable, reset before seen, no descriptor), retry delays, peer and application actions in and outside handlers", args=["part=0"], quick=["acts=2", "rounds=2"], thorough=["acts=2", "rounds=3", "atts=2"], limit=dict(quick=60, thorough=300)),
          dict(tag="acts3", unit="c11", what="more actions of the application inside handlers", args=["part=0"], quick=["acts=3", "rounds=1", "atts=2"], thorough=["acts=3", "rounds=2", "atts=3"], limit=dict(quick=60, thorough=300)),
          dict(tag="env", unit="c11", what="with a reset at every system call", args=["part=0"], quick=["acts=1", "rounds=2", "E=1"], thorough=["acts=2", "rounds=2", "E=2", "D=2"], limit=dict(quick=60, thorough=200)),
          dict(tag="hist_select", unit="c11s", what="select: the same histories", args=["part=0"], quick=["acts=1", "rounds=2"], thorough=["acts=2", "rounds=2"], limit=dict(quick=60, thorough=200)),
          dict(tag="threads", unit="c11", what="another thread watches the state and sends as soon as it sees the connection", args=["part=1"], quick=["P=2", "D=2"], thorough=["P=3", "D=3"], limit=dict(quick=60, thorough=200)),
          dict(tag="threads2", unit="c11", what="two such threads", args=["part=1", "threads=2"], quick=["P=1", "D=1"], thorough=["P=2", "D=2"], limit=dict(quick=60, thorough=200))],
    note="A reference client (state, due time of the retry, data owed) is compared at every notification, every connection attempt and after every event; descriptors and heap blocks are counted at the end. A client is connected again only after a failed attempt: the implementation refuses (assertion) to reuse one whose connection was established.")
SERVER_NOTE = "The real server, with master and work threads of the model checker, on the simulated kernel; peers are driven by the main thread."
CHECKS["C11"]["units"] = CHECKS["C11"]["units"] + both("c11c", "c11_cache.cpp", NET)
CHECKS["C11"]["runs"] += [
    dict(tag="cache", unit="c11c", what="one or two (thorough: three) messages of 1 to 70000 bytes sent while connecting and one afterwards, the first attempt failing or not, sockets of three sizes, a partial or refused write at any point", quick=["E=0"], thorough=["E=1", "n=3"], limit=dict(quick=60, thorough=250)),
    dict(tag="cache_select", unit="c11cs", what="the same with one message, select", args=["n=1"], quick=["E=1"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=200))]
CHECKS["C12"] = dict(technique=CONN, units=both("c12", "c12_server.cpp", NET),
    runs=[dict(tag="hist2", unit="c12", what="every history of two operations (connect, send, close, reset, work and master messages, stop_listen) with and without time between, two ports, two work threads", args=["part=0", "W=2", "ports=2"], quick=["n=2"], thorough=["n=3"], limit=dict(quick=60, thorough=250)),
          dict(tag="hist3", unit="c12", what="every history of three operations, each finished before the next", args=["part=0", "wait=0", "ports=2"], quick=["n=3", "ca=2", "ma=2", "W=2"], thorough=["n=4", "ca=3", "ma=2", "W=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="spread", unit="c12", what="up to five connections on three work threads", args=["part=0", "ops=0", "ca=1", "ma=1", "W=3"], quick=["n=5", "wait=0"], thorough=["n=5"], limit=dict(quick=60, thorough=150)),
          dict(tag="order", unit="c12", what="one connection or message each, every interleaving", args=["part=0", "ops=2", "ports=2"], quick=["n=1", "P=1", "W=2"], thorough=["n=2", "P=1", "W=1"], limit=dict(quick=60, thorough=250)),
          dict(tag="order2", unit="c12", what="two steps on connections, every interleaving", args=["part=0", "ops=1", "n=2"], quick=["P=1", "W=1", "ca=2", "ma=1"], thorough=["P=1", "W=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="ids", unit="c12", what="two connections accepted at once by two work threads, every interleaving", args=["part=0", "ops=4", "n=2", "W=2", "ca=1", "ma=1"], quick=["P=1"], thorough=["P=2", "D=2"], limit=dict(quick=60, thorough=150)),
          dict(tag="accept", unit="c12", what="connections while accept() fails now and then", args=["part=0", "ops=2", "n=2", "W=1", "accept=1", "ca=1", "ma=1", "ports=2"], quick=["E=1"], thorough=["E=2", "D=2"], limit=dict(quick=60, thorough=150)),
          dict(tag="select", unit="c12s", what="select: every history of two operations", args=["part=0", "n=2", "W=1", "ports=2"], quick=["wait=0"], thorough=["wait=1"], limit=dict(quick=60, thorough=150))],
    note=SERVER_NOTE)
CHECKS["C13"] = dict(technique=CONN, units=both("c12", "c12_server.cpp", NET),
    runs=[dict(tag="api", unit="c12", what="bind, start, stop_listen, get_bind_address, stop, join, destroy in every combination", args=["part=3"], quick=[], thorough=["P=1"], limit=dict(quick=60, thorough=150)),
          dict(tag="stop1", unit="c12", what="stop at every moment around one operation", args=["part=1", "ops=1", "n=1"], quick=["P=1", "W=1"], thorough=["P=2", "D=2", "W=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="stop2", unit="c12", what="stop after and between two operations", args=["part=1", "n=2"], quick=["ops=1", "W=2", "ca=6", "ma=2"], thorough=["ops=1", "W=1", "P=1"], limit=dict(quick=60, thorough=250)),
          dict(tag="refused", unit="c12", what="stop refused in handlers", args=["part=1", "n=2", "ca=5", "ma=6"], quick=["W=1"], thorough=["W=2", "P=1"], limit=dict(quick=60, thorough=150)),
          dict(tag="threads", unit="c12", what="stop, stop_listen, shutdown_connection, peers connecting, sending, closing, all at once on several threads", args=["part=2"], quick=["P=1", "W=1", "bits=3"], thorough=["P=2", "D=2", "W=2"], limit=dict(quick=100, thorough=300)),
          dict(tag="threads2", unit="c12", what="the same with two connections", args=["part=2", "n=2"], quick=["P=0", "W=2", "bits=3"], thorough=["P=1", "W=2", "bits=4"], limit=dict(quick=60, thorough=200)),
          dict(tag="slow", unit="c12", what="a connection whose peer takes its data late while another one is closed, twice, by another thread and the server stops", args=["part=2", "n=2", "slow=1", "W=1"], quick=["P=1", "bits=1"], thorough=["P=2", "D=2", "bits=2"], limit=dict(quick=60, thorough=200)),
          dict(tag="select", unit="c12s", what="select: stop around one operation", args=["part=1", "ops=1", "n=1"], quick=["P=0", "W=1"], thorough=["P=1", "W=1"], limit=dict(quick=60, thorough=150))],
    note=SERVER_NOTE)

def program(f, name, more=()):   # a sample program, its main() under another name
    return (f, ["-Dmain=%s_main" % name, "-Dg_rgOptions=%s_options" % name, "-DprintUsage=%s_usage" % name, "-Dset_log_threshold=quiet_threshold"] + ["-D%s=%s_%s" % (m, name, m) for m in more])
CHECKS["C26"] = dict(technique="exhaustive enumeration of session histories through the real programs, all threads scheduled by the explorer, over a simulated kernel",
    units=[dict(name="c26", engine="mcrt", harness=["c26_relay.cpp"], dirs=NET + ["cyUtility"], inc=["samples/relay"], repo_src=[program("samples/relay/relay_server.cpp", "relay_server", ["RelaySession"]), program("samples/relay/relay_local.cpp", "relay_local", ["RelaySession"])])],
    runs=[dict(tag="hist", unit="c26", what="every history of connects, sends, closes of both ends and refusals, with and without time between, plain and encrypted", args=[], quick=["n=3"], thorough=["n=5"], limit=dict(quick=60, thorough=250)),
          dict(tag="deep", unit="c26", what="longer histories, each step finished before the next", args=["wait=1"], quick=["n=4", "clients=2"], thorough=["n=6", "clients=3"], limit=dict(quick=60, thorough=250)),
          dict(tag="slow", unit="c26", what="the target reads only at the end", args=["slow=1", "wait=1"], quick=["n=4"], thorough=["n=5"], limit=dict(quick=60, thorough=250)),
          dict(tag="raw", unit="c26", what="every sequence of messages to the relay server, whole and in two pieces", args=["raw=1"], quick=["n=3"], thorough=["n=4"], limit=dict(quick=60, thorough=250)),
          dict(tag="raw_slow", unit="c26", what="the same while the target does not read", args=["raw=1", "slow=1"], quick=["n=3"], thorough=["n=4"], limit=dict(quick=60, thorough=250)),
          dict(tag="raw_local", unit="c26", what="every sequence of messages to the local relay, handshakes included, whole and in two pieces", args=["raw=2"], quick=["n=3"], thorough=["n=4"], limit=dict(quick=60, thorough=250)),
          dict(tag="big", unit="c26", what="messages around the packet limits", args=["big=1", "wait=1", "clients=1"], quick=["n=3"], thorough=["n=4"], limit=dict(quick=60, thorough=250)),
          dict(tag="order", unit="c26", what="all interleavings", args=["clients=1"], quick=["n=2", "P=1"], thorough=["n=4", "P=1"], limit=dict(quick=60, thorough=250))],
    note="Both relay programs run with their own main(), threads and command line; only main() and the log threshold are renamed. The client and target ends are driven by the main thread.")
CHECKS["C27"] = dict(technique="exhaustive enumeration of client and target histories through the real program, all threads scheduled by the explorer, over a simulated kernel",
    units=[dict(name="c27", engine="mcrt", harness=["c27_socks5.cpp"], dirs=NET + ["cyUtility"], inc=["samples/socks5"], repo_src=[program("samples/socks5/s5_main.cpp", "s5"), "samples/socks5/s5_protocol.cpp"], ld=["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo"])],
    runs=[dict(tag="hist", unit="c27", what="every history of connects, messages, nonsense, closes of both ends, with and without time between, with every outcome of the connection to the target", args=[], quick=["n=4"], thorough=["n=5"], limit=dict(quick=60, thorough=250)),
          dict(tag="deep", unit="c27", what="longer histories, each step finished before the next", args=["wait=1"], quick=["n=5"], thorough=["n=6"], limit=dict(quick=60, thorough=250)),
          dict(tag="slow", unit="c27", what="the target reads only at the end", args=["slow=1", "wait=1"], quick=["n=6", "clients=1"], thorough=["n=6"], limit=dict(quick=60, thorough=250)),
          dict(tag="slowc", unit="c27", what="the clients read only at the end", args=["slow=2", "wait=1"], quick=["n=6", "clients=1"], thorough=["n=6"], limit=dict(quick=60, thorough=250)),
          dict(tag="order", unit="c27", what="all interleavings", args=["clients=2", "threads=2", "order=1"], quick=["n=3", "P=1"], thorough=["n=5", "P=1"], limit=dict(quick=60, thorough=250))],
    note="The server runs with its own main(), threads and command line; only main() is renamed. Name lookup is a stand-in. The client and target ends are driven by the main thread.")
CHECKS["C28"] = dict(technique="exhaustive enumeration of client histories through the real programs, all threads scheduled by the explorer, over a simulated kernel",
    units=[dict(name="c28", engine="mcrt", harness=["c28_chat.cpp"], dirs=NET + ["cyUtility"], inc=["samples/chat"], repo_src=[
        (lambda f, fl: (f, fl + ["-Dget_cpu_counts=cpus"]))(*program("samples/chat/chat_server.cpp", "chat_server")),
        (lambda f, fl: (f, fl + ["-Ddisk_log=c28_log", "-Dcin=c28_in"]))(*program("samples/chat/chat_client.cpp", "chat_client")),
        (lambda f, fl: (f, fl + ["-Dget_cpu_counts=cpus"]))(*program("samples/echo/echo_server.cpp", "echo_server"))], ld=["-Wl,--wrap=exit"])],
    runs=[dict(tag="chat", unit="c28", what="chat server: every history of connects, messages, pieces, closes and resets, with and without time between, one work thread, ready events in any order", args=["part=0", "start=2"], quick=["n=3", "E=1"], thorough=["n=5", "E=2", "D=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="deep", unit="c28", what="longer histories, each step finished before the next", args=["part=0", "wait=1"], quick=["n=6"], thorough=["n=7"], limit=dict(quick=60, thorough=250)),
          dict(tag="slow", unit="c28", what="with clients that stop reading", args=["part=0", "slow=1", "start=2", "clients=2"], quick=["n=3"], thorough=["n=5"], limit=dict(quick=60, thorough=250)),
          dict(tag="order", unit="c28", what="two work threads, all interleavings", args=["part=0", "threads=2", "start=2", "clients=2"], quick=["n=2", "P=1"], thorough=["n=3", "P=2", "D=2"], limit=dict(quick=60, thorough=250)),
          dict(tag="client", unit="c28", what="chat client: lines typed, messages of all lengths in all pieces, late server", args=["part=1"], quick=["n=2"], thorough=["n=3"], limit=dict(quick=60, thorough=250)),
          dict(tag="echo", unit="c28", what="echo server: texts of all lengths, exit, shutdown, closes", args=["part=2"], quick=["n=4", "threads=2"], thorough=["n=4", "P=1", "threads=2"], limit=dict(quick=60, thorough=250))],
    note="The programs run with their own main(), threads and command line; main(), exit(), the number of CPUs, standard input and the log are renamed. What the echo server does with an `exit` that shares a segment with other text is not specified.")
CHECKS["C25"] = dict(technique="exhaustive exploration of kernel answers, times, descriptor shortages and thread interleavings on the real code over a simulated kernel",
    units=[dict(name="c25", engine="mcrt", harness=["c25_probe.cpp"], dirs=NET), dict(name="c25p", engine="mcrt", harness=["c25_probe.cpp"], dirs=NET, off=["CY_HAVE_PIPE2"])],
    runs=[dict(tag="probe", unit="c25", what="every outcome and delay of the attempt x every timeout, interrupted waits, more than 1024 descriptors open", args=["part=0"], quick=["E=2", "D=2"], thorough=["E=4", "D=4"], limit=dict(quick=60, thorough=100)),
          dict(tag="probe_fault", unit="c25", what="with a refused descriptor or failing fcntl at any point", args=["part=0", "faults=1"], quick=["E=2", "D=2"], thorough=["E=3", "D=3"], limit=dict(quick=60, thorough=100)),
          dict(tag="pipe", unit="c25", what="one writing and one reading thread, pipe of 4 bytes, pipe2", args=["part=1"], quick=["P=2", "D=2", "ops=2"], thorough=["P=4", "D=4", "ops=3"], limit=dict(quick=60, thorough=150)),
          dict(tag="pipe_fault", unit="c25", what="refused descriptors, pipe2 and sockets", args=["part=1", "faults=1", "ops=1"], quick=["E=2", "D=2"], thorough=["E=3", "D=3"], limit=dict(quick=60, thorough=100)),
          dict(tag="plain", unit="c25p", what="the pipe without pipe2", args=["part=1"], quick=["P=1", "D=1", "ops=2"], thorough=["P=3", "D=3", "ops=2"], limit=dict(quick=60, thorough=100)),
          dict(tag="plain_fault", unit="c25p", what="refused descriptors and failing fcntl, without pipe2", args=["part=1", "faults=1", "ops=1"], quick=["E=2", "D=2"], thorough=["E=3", "D=3"], limit=dict(quick=60, thorough=100)),
          dict(tag="servers", unit="c25", what="servers that bind addresses, free, taken and not local ones, and never start", args=["part=2"], quick=["ops=2"], thorough=["ops=3"], limit=dict(quick=60, thorough=100)),
          dict(tag="servers_fault", unit="c25", what="the same with refused descriptors and failing fcntl", args=["part=2", "faults=1"], quick=["ops=2"], thorough=["ops=3", "E=2", "D=2"], limit=dict(quick=60, thorough=100)),
          dict(tag="timers", unit="c25", what="timers made while descriptors are refused or run out, then run and deleted in every order", args=["part=3"], quick=["ops=2"], thorough=["ops=3"], limit=dict(quick=60, thorough=100)),
          dict(tag="timers_fault", unit="c25", what="the same with a refusal at any call", args=["part=3", "faults=1"], quick=["ops=2"], thorough=["ops=3", "E=2", "D=2"], limit=dict(quick=60, thorough=100))],
    note="A probe that completes exactly at its timeout may answer either way.")

WRAPLOG = ["-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fopen64", "fclose", "fflush", "fprintf", "vfprintf", "printf", "vprintf", "fputs", "puts", "fputc", "putc", "putchar", "fwrite", "vsnprintf", "snprintf", "access", "mkdir", "gethostname", "readlink"))]
CHECKS["C22"] = dict(technique="stateless model checking of the real logger: all thread interleavings to a preemption bound, every stdio call a scheduling point, with injected open and mkdir failures",
    units=[dict(name="c22", engine="mcrt", harness=["c22_logger.cpp"], dirs=["cyCore", "cyCrypt"], ld=WRAPLOG)],
    runs=[dict(tag="two", unit="c22", what="two threads, one message each of every level and length; file named before, by one of the threads, or never", args=["part=0", "n=1"], quick=["P=1", "D=2", "E=1", "foreign=1"], thorough=["P=2", "D=3", "E=1", "foreign=1"], limit=dict(quick=60, thorough=300)),
          dict(tag="fault", unit="c22", what="with failing opens", args=["part=0", "faults=1"], quick=["n=2", "kinds=2", "P=1", "E=1"], thorough=["n=2", "kinds=6", "P=2", "E=2"], limit=dict(quick=60, thorough=300)),
          dict(tag="settings", unit="c22", what="one thread changes file or threshold while the other logs two messages", args=["part=1"], quick=["n=2", "kinds=4", "P=2"], thorough=["n=2", "P=3", "D=3"], limit=dict(quick=60, thorough=300)),
          dict(tag="three", unit="c22", what="three threads", args=["part=0", "thr=3"], quick=["n=1", "kinds=3", "P=1", "first=1"], thorough=["n=1", "kinds=6", "P=2"], limit=dict(quick=60, thorough=300))],
    note="Lines are read back from real files in a scratch directory. Writes themselves are assumed not to fail; opening the file may.")
