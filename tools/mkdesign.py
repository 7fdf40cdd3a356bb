#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md from properties.jsonl, checks.py and the notes below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
# property: (harness, the oracle and how it is decided, measured cost of quick)
N = {
"C01": ("h/C01", "An arbitrary script of operations is executed on lists and on a ghost array; after each operation the list is walked and compared with the array, incl. the links which must not change.", "9 s"),
"C02": ("h/C02", "As C01, both directions are walked.", "15 s"),
"C03": ("h/C03", "Arbitrary operations with arbitrary keys; the popped element is compared with the extreme of a ghost multiset, the heap index stored in each element is checked, nothing is lost. Grown by one arbitrary step from an arbitrary valid heap.", "40 s"),
"C04": ("h/C04", "Threads allocate and free; each block has a ghost owner, an allocation of a block which has one is a violation. Batches passed between threads through the global pool.", "35 s"),
"C05": ("h/C05", "Arbitrary script of copies, moves, resets, swaps over several pointers and objects; ghost counters of owners, the destructor must run exactly when the counter becomes 0.", "10 s"),
"C06": ("h/C06", "Threads take and drop references in all schedules; exactly one drop sees the last one, and what was done before each drop happens before the destruction (happens-before by vector clocks from the memory orders in the code).", "3 s"),
"C07": ("h/C07", "Producers and a consumer in all schedules; order of each producer, exactly-once, and happens-before of a push to the pop; the returned 'was empty' flag is exact.", "10 s"),
"C08": ("h/C08", "Concurrent producers and consumers with tiny sub-queues; each item is consumed once and in the order of pushes per producer; crossing the sub-queue boundaries.", "50 s"),
"C09": ("h/C09", "Any sequential history against a ghost FIFO, incl. Reserve, several consumers, detaching them.", "65 s"),
"C10": ("h/C10", "Senders and receivers (blocking, timed, polling) in all schedules; a ghost flag; a receive never succeeds without a send, a blocked receiver is woken up (otherwise a deadlock is reported by the engine); happens-before.", "20 s"),
"C11": ("h/C11", "Lockers (also interrupting) in all schedules; mutual exclusion ghost, deadlock detection, happens-before from unlock to lock, the interrupted owner sees the request.", "20 s"),
"C12": ("h/C12", "Mutex and condition variable in all schedules over the pthread model, incl. recursion, ownership and timeouts with arbitrary values.", "15 s"),
"C13": ("h/C13", "All 64-bit values of durations, points and the clock; the oracle computes in 128 bits.", "4 s"),
"C14": ("h/C14", "All strings of the bounded length; the oracle is an independent parser of decimals in wide arithmetic.", "8 s"),
"C15": ("h/C15", "All vectors of the bounded count with any sizes and any byte count; the oracle recomputes the bytes.", "20 s"),
"C16": ("h/C16", "All 32-bit codes (system and own), all chains of causes.", "4 s"),
"C17": ("h/coro, h/sch/coro.cpp", "Coroutine bodies are scripts of calls, suspensions and throws of control; the order of the resumed frames and of the destructors is compared with a ghost stack; every frame is freed once (live allocations are counted). clang's coroutine frames are executed as IR. The second part runs coroutines as bodies of tasks in the scheduler in all schedules.", "2-5 min"),
"C18": ("h/sch/sch.cpp", "The real scheduler with 1-2 workers and threads posting, waking and re-posting; ghost state of each task (not two threads in a body, one execution per post, not touched after the end of the last execution).", "160 s"),
"C19": ("h/sch/sch.cpp", "As C18: a wakeup or a signal after which the task is never executed is a deadlock; a signal is received once.", "55 s"),
"C20": ("h/sch/sch.cpp", "As C18 with deadlines and a ghost clock which can move at any point.", "50 s"),
"C21": ("h/sch/sch.cpp", "As C18: WaitEmpty() never returns while a posted task is not finished.", "50 s"),
"C22": ("h/buf/stream.cpp", "Histories of all stream operations with arbitrary sizes against a ghost byte array; after every operation the full content, sizes and positions are compared. The size of buffers is reduced to 2-3 by the hook to make boundaries reachable.", "90 s"),
"C23": ("h/buf/links.cpp", "As C22 for lists of buffer links with chains shared between lists: content of the others must not change.", "25 s"),
"C24": ("h/buf/vec.cpp", "Chains of any shape; vectors are compared with the bytes; sizes near 2^32 with a model of untouched memory.", "25 s"),
"C25": ("h/net/host.cpp", "All strings / all addresses within the bounds; parse, print and compare against an independent oracle over the inet_* models.", "40 s"),
"C26": ("h/net/url.cpp", "All strings of the bounded length over the alphabet of separators and others; the oracle is a direct reading of the grammar.", "8 s"),
"C27": ("h/net/helpers.cpp", "All arguments and all outcomes of the calls; each call's arguments are compared with the requested.", "8 s"),
"C28": ("h/net/domain.cpp", "The real worker thread, requests, cancels and timeouts in all schedules with any getaddrinfo() result; ghost count of callbacks; no leaks.", "60 s"),
"C29": ("h/ssl/stream.cpp", "The real stream over a toy TLS library (any partial reads, records, alerts and errors by the rules of OpenSSL's documentation); bytes are compared in both directions; nothing in plain text after Connect().", "30 s"),
"C30": ("h/ssl/bio.cpp", "Histories of BIO operations against a ghost byte queue.", "2 min"),
"C31": ("h/task/task.cpp", "The real IO core with workers, the scheduler role passed between them, tasks with and without sockets, wakeups, deadlines, closes and kernel events in all schedules; ghost state as in C18-C20; lost events are deadlocks.", "3 min"),
"C32": ("h/aio/ops.cpp", "The real task operations over a model of sockets; any error and any partial result; the IOEvent must tell exactly what the call returned, an event isn't lost between the attempt and the wait.", "1 min"),
"C33": ("h/aio/tcp.cpp", "The real socket, core and buffers; every byte carries its number, sendmsg() checks that it gets the next ones; what was taken is reported exactly; no leaks.", "4 min"),
"C34": ("h/aio/tcp.cpp", "As C33; the ghost life cycle: connect once, the first error reported once with the right code, closed once, nothing after, all descriptors closed, progress when the kernel does its best.", "2 min"),
"C35": ("h/aio/server.cpp", "The real server; accept returns any errors; every descriptor is either handed over once or closed.", "30 s"),
"C36": ("h/sio/tcp.cpp", "Histories of operations of a sync socket with any outcomes; bytes and error codes against the ghost.", "25 s"),
"C37": ("h/sio/server.cpp", "As C36 for a server.", "20 s"),
"C38": ("h/msg/msg.cpp", "Messages of any values are written into a stream with tiny buffers, cut in any place and read back.", "3 min"),
"C39": ("h/aio/ssl.cpp", "The real SSL socket, core and buffers, the TLS stream replaced by a model with the contract of C29; see the statement: all of its parts are asserted in the callbacks and in sendmsg().", "3 min"),
}
out = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = checks.CHECKS[i]
    h, o, cost = N[i]
    out.append("### %s %s\n- Harness: `%s`, %d instances (quick and thorough). Cost of quick: about %s.\n- Decided: %s\n- Bounds: %s.\n- Outside: %s.\n%s" % (
        i, p["title"], h, len(c["insts"]), cost, o, c["bounds"], c["outside"], "- Assumed: " + "; ".join(c["assumptions"]) + ".\n" if c["assumptions"] else ""))
    for k in p:
        if k.startswith("why"): out[-1] += "- Why the tests can't settle it: %s\n" % (p[k] if isinstance(p[k], str) else json.dumps(p[k]))
d = open(H + "/DESIGN.md").read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
open(H + "/DESIGN.md", "w").write(d[:d.index(a) + len(a)] + "\n".join(out) + d[d.index(b):])
