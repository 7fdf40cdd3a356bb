"""The instances of every check: harness, bounds, options."""
COMMON_ASSUMPTIONS = [
    "clang 18's translation to LLVM IR is right; the executor (engine/) and kissat/minisat are right (cross-checked by native replay of witnesses)",
    "memory never runs out; addresses are not reused after free; uninitialized memory holds any value",
    "assertions of the repository (MG_DEV_ASSERT/MG_BOX_ASSERT, debug build) are part of the property",
]
CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, level="model_checking", bounds="", outside="", assumptions=()):
    CHECKS[prop] = {"insts": {}, "level": level, "bounds": bounds, "outside": outside, "assumptions": list(assumptions)}
    return prop


def inst(prop, name, src, **kw):
    kw["src"] = [src] if isinstance(src, str) else src
    CHECKS[prop]["insts"][name] = kw


# --------------------------------------------------------------------------------------------------
p = check("C01", bounds="4 (quick) / 6 (thorough) operations of 10 kinds in any order, 2 lists plus a temporary one, 3 items, any arguments",
          outside="longer histories, more items")
inst(p, "list4", "h/C01/list.cpp", defs={"NOPS": 4, "NITEMS": 3}, tier="quick")
inst(p, "list6", "h/C01/list.cpp", defs={"NOPS": 6, "NITEMS": 3}, tier="thorough")

p = check("C02", bounds="4 (quick) / 5 (thorough) operations of 12 kinds in any order, 2 lists plus a temporary one, 3 items, any arguments",
          outside="longer histories, more items")
inst(p, "list4", "h/C02/list.cpp", defs={"NOPS": 4, "NITEMS": 3}, tier="quick")
inst(p, "list5", "h/C02/list.cpp", defs={"NOPS": 5, "NITEMS": 3}, tier="thorough")

p = check("C03", bounds="any heap of 1..7 (thorough: 9) elements with any 8-bit keys, then any operation (thorough: any two) with any arguments, then a full drain; "
          "any 4 (thorough: 5) pushes in any order, then a drain; all 6 kinds of heaps",
          outside="bigger heaps, other key types")
for v, vn in enumerate("minintr maxintr minptr maxptr minobj maxobj".split()):
    nops = 6 if v <= 1 else 4
    opn = "push pop rmtop uptop update remove".split()
    def heap(name, n, ops, order, tier, cost=1):
        inst(p, "%s_%s" % (vn, name), "h/C03/heap.cpp", defs={"VARIANT": v, "N": n, "NOPS": len(ops), "OPS": ",".join(map(str, ops)), "ORDERED": order},
             opts="--unwind 14", tier=tier, cost=cost)
    for o in range(nops):
        for n in ((7,) if v <= 1 else (6,)):
            heap("%d_%s" % (n, opn[o]), n, [o], 1, "quick", n)
    if v in (0, 3, 4):
        for n in range(1, 5):
            for o in ((5,) if v == 0 else (1,)):
                heap("%d_%s" % (n, opn[o]), n, [o], 1, "quick")
    heap("any", 4, [1], 0, "quick")
    heap("any5", 5, [1], 0, "thorough")
    for o in range(nops):
        heap("9_%s" % opn[o], 9, [o], 1, "thorough", 9)
        for o2 in range(nops):
            heap("5_%s_%s" % (opn[o], opn[o2]), 5, [o, o2], 1, "thorough", 5)

p = check("C05", bounds="3 (thorough: 4) operations of 16 kinds over 3 pointers, a pointer to the base class and a pointer inside of each of 3 objects, any arguments",
          outside="longer histories, reference cycles")
inst(p, "ptr3", "h/C05/ptr.cpp", defs={"NOPS": 3}, tier="quick", reach=["middle", "end"])
inst(p, "ptr4", "h/C05/ptr.cpp", defs={"NOPS": 4}, tier="thorough", reach=["middle", "end"])

p = check("C06", bounds="2 and 3 threads using, copying, moving and dropping pointers to one object, all schedules of 4 (2 threads) or 3 rounds", outside="more threads")
for i, (k, r) in enumerate([("dd", 4), ("dc", 4), ("cm", 4), ("cc", 4), ("mn", 4), ("ddd", 3), ("dcm", 3), ("ccc", 3)]):
    inst(p, "ref_%s" % k, "h/C06/ref.cpp", defs={"THREADS": len(k), "KINDS": '"%s"' % k, "ROUNDS": r})

p = check("C07", bounds="2 producers with scripts of 1-3 pushes of 1-3 items (thorough: 3 producers) and a consumer with 1-3 pops, all schedules of 3-4 rounds", outside="more threads, longer scripts")
for name, prod, scripts, pops, rev, emp, rounds, tier in [
        ("one", 2, ["11", "1"], 2, 0, 0, 4, "both"), ("one_rev", 2, ["11", "1"], 2, 1, 0, 4, "both"), ("many", 2, ["12", "3"], 2, 0, 0, 4, "both"),
        ("fast", 2, ["16", ":"], 2, 0, 1, 4, "both"), ("fast_rev", 2, ["7", "1:"], 2, 1, 1, 4, "both"), ("three", 2, ["111", "12"], 3, 0, 1, 3, "both"),
        ("prod3", 3, ["1", "1", "2"], 2, 0, 1, 3, "both"), ("deep", 2, ["121", "61"], 3, 0, 1, 4, "thorough")]:
    inst(p, name, "h/C07/queue.cpp", defs={"PROD": prod, "SCRIPTS": ",".join('"%s"' % x for x in scripts), "POPS": pops, "REVERSED": rev, "WITHEMPTY": emp, "ROUNDS": rounds},
         tier=tier, reach=["end", "middle"])

p = check("C13", bounds="any 64-bit times, durations and points (clock: up to 285 years of uptime in the nanosecond function)", outside="precise floating point time")
for i, n in enumerate("clock duration point convert".split()):
    inst(p, n, "h/C13/time.cpp", defs={"WHAT": i}, repo=["mg/box/Time_Unix.cpp"])

p = check("C14", bounds="any strings of up to 7 bytes (thorough: 9) for numbers, plus any 3 bytes after prefixes of 3, 8 and 18 digits; any strings of up to 5 (thorough: 7) bytes for the trim",
          outside="longer strings; locales", assumptions=["strtoull, isspace: models by the C standard, locale C"])
for w, t in enumerate((16, 32, 64)):
    inst(p, "u%d" % t, "h/C14/num.cpp", defs={"WHAT": w, "LEN": 6}, repo=["mg/box/StringFunctions.cpp"], opts="--unwind 30", reach=["number", "no number"], tier="quick")
    inst(p, "u%dlong" % t, "h/C14/num.cpp", defs={"WHAT": w, "LEN": 9}, repo=["mg/box/StringFunctions.cpp"], opts="--unwind 40", reach=["number", "no number"], tier="thorough")
    for pr in ["655", "42949672", "184467440737095516", "1844674407370955161", " +000000000000000000000"]:
        inst(p, "u%d_%s" % (t, pr.strip(" +")[:20]), "h/C14/num.cpp", defs={"WHAT": w, "LEN": 3, "PREFIX": '"%s"' % pr}, repo=["mg/box/StringFunctions.cpp"], opts="--unwind 50",
             reach=["no number"] if pr[0] != ' ' and int(pr) >= 1 << t else ["number", "no number"])
inst(p, "trim", "h/C14/num.cpp", defs={"WHAT": 3, "LEN": 5}, repo=["mg/box/StringFunctions.cpp"], opts="--unwind 30", tier="quick")
inst(p, "trim7", "h/C14/num.cpp", defs={"WHAT": 3, "LEN": 7}, repo=["mg/box/StringFunctions.cpp"], opts="--unwind 40", tier="thorough")
inst(p, "trim20", "h/C14/num.cpp", defs={"WHAT": 3, "LEN": 18}, repo=["mg/box/StringFunctions.cpp"], opts="--unwind 60", tier="thorough")

p = check("C15", bounds="3 vectors of any sizes up to 255 (2 vectors: up to 65535; thorough: 4 vectors) with any data pointers, 2 (thorough: 3) steps of any sizes", outside="more vectors, bigger sizes")
inst(p, "iov3", "h/C15/iovec.cpp", defs={"N": 3, "STEPS": 2, "MAXSIZE": "0xffull"}, repo=["mg/box/IOVec.cpp"])
inst(p, "iov2", "h/C15/iovec.cpp", defs={"N": 2, "STEPS": 2, "MAXSIZE": "0xffffull"}, repo=["mg/box/IOVec.cpp"])
inst(p, "iov4", "h/C15/iovec.cpp", defs={"N": 4, "STEPS": 2, "MAXSIZE": "0x1full"}, repo=["mg/box/IOVec.cpp"])
inst(p, "iov1", "h/C15/iovec.cpp", defs={"N": 1, "STEPS": 3, "MAXSIZE": "0xffffffffull"}, repo=["mg/box/IOVec.cpp"])

p = check("C16", bounds="any two codes; any 32-bit errno", outside="texts of the messages; Windows codes")
for i, n in enumerate("codes errno raise".split()):
    inst(p, n, "h/C16/err.cpp", defs={"WHAT": i}, repo=["mg/box/Error.cpp"], opts="--unwind 40")

MCQ = ["mg/box/MultiConsumerQueueBase.cpp", "mg/box/Mutex.cpp"]
p = check("C09", bounds="any 4 (thorough: 5) operations of 8 kinds by 2 consumers with any arguments, from the start and after several prefixes, sub-queues of 1, 2, 3 items", outside="longer histories, more consumers")
for sub in (1, 2, 3):
    def mcq(name, ops, rec=0, tier="both", cost=1):
        inst(p, "sub%d_%s" % (sub, name), "h/C09/mcq.cpp", defs={"SUB": sub, "OPS": ops, "RECYCLE": rec}, repo=MCQ, stubs=["sync"],
             reach=["end", "not empty"], opts="--unwind 14", tier=tier, cost=cost)
    mcq("any4", "-1,-1,-1,-1", cost=9)
    mcq("any5", "-1,-1,-1,-1,-1", tier="thorough", cost=9)
    for pre in ("0,0,3", "0,6,0", "1,1,1", "0,6,0,0,4", "0,1,0,3,3", "0,3,5,0"):
        mcq("p" + pre.replace(",", ""), pre + ",-1,-1,-1", tier="both" if sub < 3 else "thorough", cost=5)
        mcq("pp" + pre.replace(",", ""), pre + ",-1,-1,-1,-1", tier="thorough", cost=9)
    mcq("reuse", "0,0,-1,-1", 1, cost=3)
    mcq("reuse2", "0,0,6,0,3,-1,-1", 1, cost=3)

p = check("C08", bounds="a producer with 2-3 pushes/pending pushes/flushes and two consumers with 1-2 pops (also attaching and detaching) after a prefix, all schedules of 3 rounds, sub-queues of 1 and 2 items",
          outside="more threads, longer scripts")
for sub, init, scripts, rounds, tier in [
        (1, "", ["pp", "pp", "p"], 2, "quick"), (1, "p", ["pp", "pp", "p"], 2, "quick"), (2, "", ["ppp", "pp", "p"], 2, "quick"), (2, "", ["qqf", "pp", "p"], 3, "both"), (1, "p", ["p", "pp", "pp"], 2, "quick"), (2, "ppp", ["qf", "pp", "pp"], 2, "quick"),
        (1, "p12p", ["pp", "pp", "p"], 2, "quick"), (1, "p", ["pp", "ppd", "ap"], 2, "quick"), (1, "p", ["p", "pd", "ap"], 2, "quick"), (1, "pp", ["p", "pp"], 3, "quick"), (1, "pp", ["p", "pd", "a"], 3, "quick"), (2, "pp1", ["qqp", "pp", "ap"], 2, "quick"),
        (1, "", ["pp", "pp", "p"], 3, "thorough"), (2, "", ["ppp", "pp", "p"], 3, "thorough"), (1, "pp", ["p", "pp", "pp"], 3, "thorough"),
        (2, "ppp", ["qf", "pp", "pp"], 3, "thorough"), (1, "p12p", ["pp", "pp", "p"], 3, "thorough"), (1, "p", ["pp", "ppd", "ap"], 3, "thorough"), (2, "pp1", ["qqp", "pp", "app"], 3, "thorough"),
        (1, "p1", ["ppp", "ppp", "pp"], 3, "thorough"), (1, "pp", ["p", "pp"], 4, "thorough"), (2, "pp1", ["pppp", "ppp", "pp"], 2, "thorough")]:
    inst(p, "s%d_%s_%s_%d" % (sub, init, "_".join(scripts), rounds), "h/C08/mcq.cpp", defs={"SUB": sub, "INIT": '"%s"' % init, "SCRIPTS": ",".join('"%s"' % x for x in scripts), "CONS": len(scripts) - 1, "ROUNDS": rounds},
         repo=MCQ, stubs=["sync"], opts="--unwind 10", reach=["end"] if scripts in (["p", "pd", "a"], ["p", "pp"]) else ["end", "middle"], tier=tier)

p = check("C10", bounds="1-2 senders with 1-2 sends each and a receiver with 1-3 receipts (non-blocking, blocking, timed, infinite, then destroying the signal), all schedules of 3-4 rounds, 0 or 1 spurious wakeup", outside="more threads, longer scripts")
SIGNAL = ["mg/box/Signal.cpp", "mg/box/ConditionVariable.cpp", "mg/box/Mutex.cpp", "mg/box/Time_Unix.cpp"]
for rec, senders, rounds, sp in [("b", ["s"], 4, 0), ("b", ["s"], 4, 1), ("bx", ["s"], 4, 0), ("rr", ["s", "s"], 3, 0), ("bb", ["s", "s"], 3, 0), ("br", ["s", "s"], 3, 0), ("ir", ["s"], 4, 0), ("ix", ["s"], 4, 0),
                                 ("tr", ["s", "s"], 3, 0), ("tb", ["ss"], 4, 0), ("rbr", ["ss"], 3, 1), ("bt", ["ss"], 3, 0)]:
    r = ["end"]
    inst(p, "%s_%s_%d%s" % (rec, "_".join(senders), rounds, "_sp" if sp else ""), "h/C10/sig.cpp", defs={"SCRIPTS": ",".join('"%s"' % x for x in [rec] + senders), "SENDERS": len(senders), "ROUNDS": rounds, "SPURIOUS": sp},
         repo=SIGNAL, stubs=["sync"], reach=r)

p = check("C11", bounds="2-3 threads with 1-2 locks (with a wakeup), try-locks or waits under the lock each, all schedules of 3-4 rounds", outside="more threads, longer scripts")
for scripts, rounds, tier in [(["L", "L"], 3, "quick"), (["L", "L"], 4, "thorough"), (["LL", "L"], 2, "quick"), (["LL", "L"], 3, "thorough"), (["L", "T"], 4, "both"), (["O", "L"], 3, "quick"), (["O", "L"], 4, "thorough"), (["O", "LL"], 3, "both"), (["W", "L"], 3, "quick"), (["W", "L"], 4, "thorough"), (["WT", "L"], 3, "both"), (["O", "L", "L"], 2, "quick"), (["L", "L", "L"], 2, "quick"), (["O", "L", "T"], 2, "quick"),
                              (["O", "L", "L"], 3, "thorough"), (["L", "L", "L"], 3, "thorough"), (["O", "L", "T"], 3, "thorough"), (["W", "L", "L"], 3, "thorough"), (["W", "W", "L"], 3, "thorough"), (["LL", "LL"], 3, "thorough")]:
    inst(p, "%s_%d" % ("_".join(scripts), rounds), "h/C11/imu.cpp", defs={"SCRIPTS": ",".join('"%s"' % x for x in scripts), "THREADS": len(scripts), "ROUNDS": rounds},
         repo=SIGNAL + ["mg/box/InterruptibleMutex.cpp"], stubs=["sync"], tier=tier)

p = check("C12", bounds="2-3 threads with scripts of up to 6 lock, try-lock, unlock, wait, signal operations, all schedules of 3-4 rounds, 0 or 1 spurious wakeup, any timeout beyond 278 years", outside="more threads, longer scripts",
          assumptions=["std::mutex and std::condition_variable_any: models by the C++ standard"])
for scripts, rounds, sp in [(["lqlquqtquuq", "lqtququ"], 3, 0), (["tqu", "tqu"], 4, 0), (["gquglu", "lgqu"], 3, 0), (["lwqu", "lsu"], 4, 1), (["lfqu", "lsu"], 4, 0), (["liqu", "lbu"], 4, 1), (["lhqu", "lsu"], 4, 0), (["lpu", "qtu"], 4, 0),
                            (["lwu", "lwu", "lbu"], 3, 0), (["lwu", "liu", "lbu"], 3, 0), (["tu", "lu", "lqu"], 3, 0), (["lfu", "lwu", "lbu"], 3, 0)]:
    inst(p, "%s_%d" % ("_".join(scripts), rounds), "h/C12/mu.cpp", defs={"SCRIPTS": ",".join('"%s"' % x for x in scripts), "THREADS": len(scripts), "ROUNDS": rounds, "SPURIOUS": sp},
         repo=["mg/box/ConditionVariable.cpp", "mg/box/Mutex.cpp", "mg/box/Time_Unix.cpp"], stubs=["sync"], stub_defs={"VX_VISIBLE_UNLOCK": None})

p = check("C04", bounds="one thread: any 6 (thorough: 8) allocations and frees in any order, batches of 1, 2, 3 objects of sizes 8, 24, 48; 2-3 threads with scripts of allocations, own and foreign frees and exit, all schedules of 3 rounds", outside="more threads, longer histories")
for batch, size, align, n, live, tier in [(1, 1, 8, 6, 4, "quick"), (2, 3, 8, 6, 4, "quick"), (3, 6, 16, 5, 4, "quick"), (1, 3, 8, 8, 5, "thorough"), (2, 1, 8, 8, 5, "thorough"), (3, 3, 8, 8, 5, "thorough")]:
    inst(p, "seq_%d_%d_%d" % (batch, size, n), "h/C04/pool.cpp", defs={"WHAT": 0, "BATCH": batch, "SIZE": size, "WORD": "uint64_t", "ALIGN": align, "NOPS": n, "MAXLIVE": live}, repo=["mg/box/Mutex.cpp"], stubs=["sync"],
         opts="--unwind 60", tier=tier, reach=["end"] + (["middle"] if live > batch + 1 else []))
for batch, scripts, pre, prefree, rounds in [(1, ["aaff", "aaf"], 0, 0, 3), (1, ["afa", "ggg"], 3, 0, 3), (2, ["aaafff", "gga"], 2, 0, 3), (1, ["aa", "aa"], 4, 4, 3), (1, ["a", "aga"], 4, 3, 3), (1, ["af", "af", "af"], 2, 2, 2)]:
    inst(p, "thr_%d_%s_%d" % (batch, "_".join(scripts), pre), "h/C04/pool.cpp", defs={"WHAT": 1, "BATCH": batch, "SIZE": 1, "WORD": "uint64_t", "ALIGN": 8, "SCRIPTS": ",".join('"%s"' % x for x in scripts), "THREADS": len(scripts), "PRE": pre, "PREFREE": prefree, "ROUNDS": rounds},
         repo=["mg/box/Mutex.cpp"], stubs=["sync"], opts="--unwind 60")

SCHED = ["mg/sch/TaskScheduler.cpp", "mg/sch/Task.cpp"]
def sched(p, workers, sub, init, scripts, bodies, rounds, tier="both", delay="5", reach=["end"], opts="--unwind 8", name="", **defs):
    name = "w%d_%d_%s_%s__%s_%d" % (workers, sub, init, "_".join(scripts), "_".join(bodies), rounds) + name
    d = {"WORKERS": workers, "SUB": sub, "INIT": '"%s"' % init, "SCRIPTS": ",".join('"%s"' % x for x in scripts), "BODIES": ",".join('"%s"' % x for x in bodies), "TASKS": len(bodies), "ROUNDS": rounds, "DELAY": delay}
    d.update(defs)
    inst(p, name, "h/sch/sch.cpp", defs=d, repo=SCHED, stubs=["models/model.cpp"], cflags=("-DVX_MODELS",), reach=reach, opts=opts, tier=tier)

MODULAR = ["signals, interruptible mutexes and multi-consumer queues are replaced by their specifications, which are what the checks C08-C11 decide about the real ones"]
FREE = dict(opts="--unwind 8 --free-last", name="f")
p = check("C18", bounds="1-2 workers, 1-3 tasks with up to 3 executions re-posting themselves or posting each other, 1-2 threads posting, all schedules of 2 rounds (1 worker: 3)", outside="more threads, tasks, rounds; coroutine tasks (C17)", assumptions=MODULAR)
for w, sub, init, scripts, bodies, rounds in [
    (1, 4, "", ["P0", "P1"], ["pe", "e"], 2), (2, 4, "", ["P0"], ["pe"], 2), (2, 4, "P0P1", ["P2"], ["e", "e", "e"], 2), (2, 1, "P0P1", ["P2"], ["e", "e", "e"], 2), (1, 1, "", ["P0"], ["pe"], 2),
    (2, 4, "", ["P0"], ["oe", "e"], 2), (1, 4, "", ["P0"], ["oe", "e"], 3), (1, 4, "P0", ["P1"], ["pe", "pe"], 2), (1, 2, "P0P1", ["P2"], ["pe", "e", "e"], 2)]:
    sched(p, w, sub, init, scripts, bodies, rounds)
sched(p, 1, 1, "D0D1", ["c0W1W0"], ["e", "e"], 2)
sched(p, 1, 2, "D0D1D2", ["c0W2W0W1"], ["e", "e", "e"], 2, tier="thorough")
sched(p, 2, 4, "P0", ["P1"], ["pe", "e"], 2, tier="thorough", reach=[], **FREE)
sched(p, 2, 4, "", ["P0"], ["pe"], 3, tier="thorough")
sched(p, 1, 4, "", ["P0", "P1"], ["pe", "e"], 3, tier="thorough")
sched(p, 2, 4, "P0P1", ["P2"], ["pe", "e", "e"], 2, tier="thorough", reach=[], **FREE)

p = check("C19", bounds="1-2 workers, 1-2 tasks waiting for ever or with a deadline and being posted, 1-2 threads sending 1-2 wakeups or signals, all schedules of 2-3 rounds", outside="more threads, tasks, rounds", assumptions=MODULAR)
for w, sub, init, scripts, bodies, rounds, tier in [
    (1, 4, "", ["I0W0"], ["pe"], 3, "both"), (1, 4, "", ["I0S0"], ["Re"], 3, "both"), (1, 4, "I0", ["S0", "S0"], ["Re"], 2, "both"), (1, 4, "I0", ["S0", "W0"], ["Re"], 2, "both"),
    (1, 4, "I0", ["w0"], ["ie"], 3, "both"), (1, 4, "I0", ["s0"], ["re"], 3, "both"), (2, 4, "I0", ["S0W0"], ["Rpe"], 2, "both"), (2, 4, "I0", ["S0", "S0"], ["Re"], 2, "both"),
    (1, 4, "I0I1", ["S0", "W1"], ["Re", "e"], 2, "both"), (1, 4, "D0", ["W0"], ["e"], 2, "quick"), (1, 4, "D0", ["S0"], ["Re"], 2, "both"),
    (1, 4, "D0", ["W0"], ["e"], 3, "thorough"), (1, 4, "D0", ["S0"], ["Re"], 3, "thorough"), (2, 4, "I0", ["S0"], ["Rie"], 3, "thorough")]:
    sched(p, w, sub, init, scripts, bodies, rounds, tier=tier)
sched(p, 2, 4, "I0", ["S0W0"], ["Rpe"], 2, reach=[], **FREE)
sched(p, 2, 4, "I0", ["w0", "s0"], ["re"], 2, reach=[], **FREE)

p = check("C20", bounds="1-2 workers, 1-2 tasks with deadlines, any advances of the clock, all schedules of 2-3 rounds", outside="more threads, tasks, rounds", assumptions=MODULAR)
for w, sub, init, scripts, bodies, rounds, tier in [
    (1, 4, "", ["D0"], ["e"], 3, "both"), (1, 4, "D0", ["c0"], ["e"], 2, "both"), (1, 4, "D0D1", ["c0"], ["e", "e"], 2, "both"), (1, 4, "D0", ["c0"], ["de"], 2, "both"), (1, 4, "D0", ["P1"], ["e", "e"], 2, "both"),
    (1, 4, "D0", ["c0"], ["e"], 3, "thorough"), (2, 4, "D0", ["c0"], ["e"], 2, "thorough")]:
    sched(p, w, sub, init, scripts, bodies, rounds, tier=tier)
sched(p, 1, 4, "D0D1", ["E0"], ["e", "e"], 2, name="o", delay="k == 0 ? 9 : 4", ORDER=1, tier="thorough")
sched(p, 1, 4, "D0D1D2D3", ["c0"], ["e", "e", "e", "e"], 1, name="os", delay="1 + vx_range(0, 7)", ORDER=1, tier="thorough")
sched(p, 1, 4, "D0D1D2", ["c0"], ["e", "e", "e"], 1, name="o", delay="k == 0 ? 9 : k == 1 ? 12 : 4", ORDER=1)
sched(p, 1, 4, "D0D1D2", ["c0"], ["e", "e", "e"], 1, name="os", delay="1 + vx_range(0, 7)", ORDER=1)
sched(p, 1, 4, "D0D1", ["E0"], ["e", "e"], 2, name="os", delay="1 + vx_range(0, 7)", ORDER=1, tier="thorough")

p = check("C21", bounds="1-2 workers, 1-2 tasks, a thread checking for emptiness or stopping the scheduler, all schedules of 2 rounds (partly 3)", outside="more threads, tasks, rounds; WaitEmpty polling", assumptions=MODULAR)
for w, sub, init, scripts, bodies, rounds, tier in [
    (1, 4, "", ["P0E0"], ["pe"], 2, "both"), (1, 4, "P0", ["E0"], ["de"], 2, "both"), (2, 4, "P0P1", ["E0"], ["e", "e"], 2, "both"), (2, 4, "P0", ["E0"], ["e"], 3, "thorough"),
    (1, 4, "P0", ["X0"], ["pe"], 2, "both"), (2, 4, "P0", ["X0"], ["e"], 2, "both"), (1, 4, "D0", ["X0"], ["e"], 2, "both"), (2, 4, "P0", ["X0"], ["pe"], 2, "both"), (1, 4, "", ["P0X0"], ["pe"], 3, "both")]:
    sched(p, w, sub, init, scripts, bodies, rounds, tier=tier, **({"STOP": 1} if "X0" in scripts[0] else {}))
sched(p, 2, 4, "P0", ["E0"], ["e"], 2, reach=["empty"], **FREE)
sched(p, 1, 4, "P0", ["E0"], ["de"], 2, reach=["empty"], **FREE)

BUF = ["mg/net/Buffer.cpp"]
BUFDEFS = {"MG_VX_BUFFER_COPY_SIZE": 2}
p = check("C22", bounds="histories of 3 operations of 10 kinds after the empty stream (first 2 of any kinds but those which need data), 5-6 operations in selected orders, with buffers of 2 bytes and any sizes of up to 2-3 buffers (thorough: 4 operations)",
          outside="longer histories; buffers of the original size (the code does not depend on it); chains with empty buffers given by reference")
def stream(script, tier="both", cost=1):
    inst(p, script, "h/buf/stream.cpp", defs={"SCRIPT": '"%s"' % script, "MAXCOPY": 3, "MAXREAD": 4, **BUFDEFS}, repo=BUF, repo_defs=BUFDEFS, cflags=("-DVX_MODELS",), opts="--unwind 12",
         reach=["end"], tier=tier, cost=cost)
for x in "crke":
    for y in "crkepRSP":
        stream(x + y + "?")
        for z in "crkepRSPK":
            stream(x + y + z + "?", "thorough")
for script in ["ckeRp", "cekRP", "epcSc", "kecPr", "kkRPc", "ecpRk", "krSkR", "ePkcR", "kPkec", "cReck"]:
    stream(script)

p = check("C23", bounds="histories of 4 operations on an empty list (any first addition, then a skip or an addition, then any skip, then any operation) and 5 operations in selected orders, with chains of 1-2 buffers of 0-2 bytes, all of them shared with another owner or none",
          outside="longer histories, longer chains, buffers of more than 2 bytes")
def links(script, shared=1, tier="both", **defs):
    inst(p, script + ("" if shared else "_own"), "h/buf/links.cpp", defs={"SCRIPT": '"%s"' % script, "SHARED": shared, **BUFDEFS, **defs}, repo=BUF, repo_defs=BUFDEFS, cflags=("-DVX_MODELS",), opts="--unwind 12",
         reach=["end"], tier=tier)
for x in "rsmcRa":
    for y in "kx" + ("r" if x in "rm" else ""):
        links(x + y + "?")
    for y in "kxrsmcRa":
        for z in "kx2":
            links(x + y + z + "?", tier="thorough")
            links(x + y + z + "?", 0, tier="thorough")
for script in ["rakx", "cRkkx", "sxckx", "r2rkx", "arkx", "mkxkx", "mmkx"]:
    links(script)
for script in ["mkx?", "srkx", "akk"]:
    links(script, 0)
links("rkxk", tier="both", CHAIN3=1)
links("rmkk?", tier="thorough")

p = check("C24", bounds="chains of up to 4 buffers in up to 3 links of selected shapes with any 32-bit positions, capacities and offsets and any limit of up to 4 vectors; copies of up to 3 buffers of 0-3 bytes; references to any memory of up to 3 * 4 GB + 5", outside="longer chains; limit 0 for reading (out of contract)")
def vec(what, shape, tier="both", limit=3, opts="--unwind 14"):
    inst(p, "%s_%s" % (what, shape.replace("|", "_")), "h/buf/vec.cpp", defs={"WHAT": '"%s"' % what, "SHAPE": '"%s"' % shape, "LIMIT": limit, **BUFDEFS}, repo=BUF, repo_defs=BUFDEFS, cflags=("-DVX_MODELS",), opts=opts, reach=["end"], tier=tier)
for shape in ["", "b", "bb", "bbb", "bbbb"]:
    vec("w", shape)
for shape in ["", "b|b", "|b", "b|", "bb|b", "b||bb", "|bb|b", "bbb|b"]:
    vec("l", shape)
for shape in ["b", "bb", "bbb", "bbbb"]:
    vec("r", shape)
    vec("p", shape)
    vec("q", shape, "thorough" if len(shape) > 2 else "both")
vec("c", "")
vec("f", "")
for shape in ["", "b", "bb", "bbb"]:
    vec("C", shape)
for shape in ["", "b|b", "|bb", "b||b"]:
    vec("L", shape)

HOST = ["mg/net/Host.cpp", "mg/box/StringFunctions.cpp"]
p = check("C25", bounds="any two hosts (all bytes of the addresses); any IPv4 and IPv6 addresses with texts of the given lengths of octets or groups and any port of the given length (23 combinations of lengths); any texts of up to 6 bytes in a small language of addresses, any 1-3 bytes in places of longer texts",
          outside="other combinations of lengths; IPv4 tails of IPv6 texts", assumptions=["inet_pton, inet_ntop, vsnprintf, strtoull: models by their documentation"])
def host(name, what, tier="both", **defs):
    inst(p, name, "h/net/host.cpp", defs={"WHAT": what, **defs}, repo=HOST, stubs=["format"], opts="--unwind 70", tier=tier, reach=["end"] if what != 1 else [])
host("pair", 2)
for lens in ["11111", "33335", "12312", "22223", "31214", "33330", "00000", "30030"]:
    host("v4_" + lens, 0, LENS='"%s"' % lens)
for lens in ["444444445", "111111111", "123412342", "000000013", "100000004", "044444441", "440000445", "400440045", "000000000", "404040405", "343434345"]:
    host("v6_" + lens, 0, LENS='"%s"' % lens)
for i, t in enumerate(["??????", "[??????", "4a:?????", "[:a]:????", "?4a:65???", "[:a]?1", "????????"]):
    host("text%d" % i, 1, TEXT='"%s"' % t, SMALL_INET=1, tier="thorough" if len(t) > 7 and t[0] == "?" and t[1] == "?" else "both")
for i, t in enumerate(["[" + "a" * 60 + "??", "[" + "a" * 53 + "??]:1", "a" * 60 + "??:1", "a" * 21 + "?:?1", "[" + "1" * 46 + "???", "1" * 16 + "???????"]):
    host("long%d" % i, 1, TEXT='"%s"' % t, SMALL_INET=1)
for n in [14, 15, 16, 17, 22, 23, 24, 39, 45, 46, 47, 54, 55, 56, 64, 65]:
    host("len%d" % n, 1, TEXT='"%s?:1"' % ("a" * (n - 1)), SMALL_INET=1)
    host("blen%d" % n, 1, TEXT='"[%s?]:1"' % ("a" * (n - 1)), SMALL_INET=1)
for i, t in enumerate(["1.2.3.4:??", "127.0.0.?:1?", "[::1?:80", "::?", "1.2.3.?4", "[1::?]:5", "255.25?.1.1"]):
    host("real%d" % i, 1, TEXT='"%s"' % t)

p = check("C26", bounds="any texts of up to 4 bytes, of up to 7 characters which matter, and of 2-4 of any bytes in places of longer texts", outside="longer texts; IPv6 addresses as hosts (not a form which is supported)", assumptions=["strtoull: a model by its documentation"])
for i, t in enumerate(["????", "______", "a://____", "a:____", "a/____", "http://##:80/###", "##://host:8080/t", "a:6553#/", "ab:####", "h:12345##/b", "____://_", "://____", "http://verylonghostname####:8/1", "a:80/u=b:##c"]):
    inst(p, "text%d" % i, "h/net/url.cpp", defs={"TEXT": '"%s"' % t}, repo=["mg/net/URL.cpp", "mg/box/StringFunctions.cpp"], opts="--unwind 40", reach=["end"])
inst(p, "long", "h/net/url.cpp", defs={"TEXT": '"_______"'}, repo=["mg/net/URL.cpp", "mg/box/StringFunctions.cpp"], opts="--unwind 40", reach=["end"], tier="thorough")

p = check("C27", bounds="none: any arguments, any results of every system call", outside="the parts for Windows and macOS", assumptions=["the system calls: models by their documentation (limits of the TCP options included), any failures"])
SOCK = ["mg/net/Socket_Unix.cpp", "mg/net/Socket.cpp", "mg/net/Host.cpp", "mg/box/Error.cpp", "mg/box/StringFunctions.cpp"]
for n, d, r in [("keepalive", {"WHAT": 0}, ["failed", "done", "on", "end"]), ("reuse", {"WHAT": 1, "WHICH": 0}, ["failed", "done"]), ("dualstack", {"WHAT": 1, "WHICH": 1}, ["failed", "done"]), ("nodelay", {"WHAT": 1, "WHICH": 2}, ["failed", "done"]),
                ("shutdown", {"WHAT": 1, "WHICH": 3}, ["failed", "done"]), ("bind", {"WHAT": 2}, ["failed", "done", "end"]), ("state", {"WHAT": 3}, ["failed", "end"]), ("accept", {"WHAT": 4}, ["end"])]:
    inst(p, n, "h/net/helpers.cpp", defs=d, repo=SOCK, opts="--unwind 130", reach=r)

p = check("C36", bounds="selected histories of up to 7 operations, sends of 0-4 bytes in buffers of 2 bytes, any outcomes of the system calls (any partial writes and reads, errors)", outside="other histories; more than 128 buffers at once",
          assumptions=["the system calls: models by their documentation, any failures"])
SIO = ["mg/sio/TCPSocket.cpp", "mg/sio/Socket.cpp", "mg/sio/Socket_Unix.cpp", "mg/net/Buffer.cpp", "mg/box/IOVec.cpp"] + SOCK
def sio(script, tier="both", reach=["end"]):
    inst(p, script, "h/sio/tcp.cpp", defs={"SCRIPT": '"%s"' % script, **BUFDEFS}, repo=SIO, repo_defs=BUFDEFS, cflags=("-DVX_MODELS",), opts="--unwind 20", tier=tier, reach=reach)
for s in ["CUUXCU", "CrUUU", "WcUcUU", "WrUbUU", "WkUkU", "WbbUU", "WcRUcU", "WLRL", "CURXCR", "WrXWcU", "WcUXCrUU"]: sio(s)

p = check("C37", bounds="histories of up to 7 operations, any outcomes of the system calls, any addresses", outside="longer histories", assumptions=["the system calls: models by their documentation, any failures"])
for s, r in [("BPLAAXB", ["failed", "accepted", "transient", "end"]), ("BBLLAAA", ["failed", "accepted", "transient", "end"]), ("XBXBLX", ["failed", "end"]), ("BLABLAP", ["failed", "accepted", "transient", "end"])]:
    inst(p, s, "h/sio/server.cpp", defs={"SCRIPT": '"%s"' % s, "MAXFD": 6}, repo=["mg/sio/TCPServer.cpp"] + SIO, opts="--unwind 130", reach=r)

p = check("C38", bounds="1-3 messages of selected shapes with any values, strings and data of any sizes of up to 3 bytes (and some long ones), buffers of 8-10 bytes, the stream cut in any place", outside="other shapes")
def msg(script, size, cut=0, tier="both", **defs):
    bd = {"MG_VX_BUFFER_COPY_SIZE": size}
    inst(p, "%s_%d_%d" % (script.replace("(", "o").replace(")", "c"), size, cut), "h/msg/msg.cpp", defs={"SCRIPT": '"%s"' % script, "CUT": cut, **bd, **defs}, repo=["mg/test/Message.cpp", "mg/net/Buffer.cpp", "mg/box/IOVec.cpp", "mg/box/StringFunctions.cpp"], repo_defs=bd, cflags=("-DVX_MODELS",), opts="--unwind 40", tier=tier, reach=["end"])
for s in ["(1248)T", "(ijlq)T", "(sb)(d)T", "(d)T(s)T", "(ds)(2)T"]:
    for size in (8, 10, 11):
        if (s, size) != ("(sb)(d)T", 8): msg(s, size) # Too many values of pointers for the engine.
msg("()(1)T", 9, cut=30)
msg("(d2)(s)T", 9, cut=30, tier="thorough")
msg("(d2)T", 9, cut=30)
msg("(1S2)T", 100, LONG=300)
msg("(S)(S)T", 250, LONG=256)

AIO = ["mg/box/Mutex.cpp", "mg/aio/IOCore.cpp", "mg/aio/IOCore_epoll.cpp", "mg/aio/IOTask_epoll.cpp", "mg/net/Buffer.cpp", "mg/net/URL.cpp", "mg/box/IOVec.cpp"] + SOCK
AIOTCP = AIO + ["mg/aio/TCPSocket.cpp", "mg/aio/TCPSocketIFace.cpp", "mg/aio/TCPSocketCtl.cpp", "mg/aio/TCPSocketSubscription.cpp"]
AIOASSUME = ["the kernel (sockets, epoll, eventfd): models by their documentation, any failures", "the ready queue is replaced by its specification (checks C08, C09)"]
def aiotcp(p, script, cb="", inject=None, hup=0, tier="both", reach=["end"]):
    name = "%s_%s%s%s" % (script.replace(".", "_").replace("*", "i"), cb, "_" + inject if inject else "", "_hup" if hup else "")
    inst(p, name.replace("!", "e"), "h/aio/tcp.cpp", defs={"SCRIPT": '"%s"' % script, "CB": '"%s"' % cb, "HUP": hup, "MAXFD": 3, **({"INJECT": "'%s'" % inject} if inject else {}), **BUFDEFS}, repo=AIOTCP, repo_defs=BUFDEFS,
         stubs=["models/model.cpp", "sync"], cflags=("-DVX_MODELS", "-fno-access-control"), opts="--unwind 30", tier=tier, reach=reach)
p = check("C32", bounds="scripts of 2-4 executions of a task with sends, receives, accepts and connects started in them; every result of every system call (any error code), any events delivered by epoll before, between and with the executions, any size of a partial result", outside="longer histories, several tasks, io_uring/kqueue/IOCP", assumptions=AIOASSUME)
for sc, hup, r in [("ssrs", 0, ["done"]), ("rrsr", 0, ["done"]), ("bnb", 0, ["done"]), ("sbnr", 1, ["broken", "done"]), ("aana", 0, ["done"]), ("cus", 0, ["done", "connected"]), ("fuur", 0, ["done", "connected"]), ("cnub", 1, ["done", "connected", "broken"]), ("sX", 1, ["done"]), ("rnX", 0, ["done"])]:
    inst(p, "%s%s" % (sc, "_hup" if hup else ""), "h/aio/ops.cpp", defs={"SCRIPT": '"%s"' % sc, "HUP": hup, "MAXFD": 5}, repo=AIO,
         stubs=["models/model.cpp", "sync"], cflags=("-DVX_MODELS", "-DVX_MCQ_MAX=12", "-fno-access-control"), opts="--unwind 130", reach=r + ["end"])
p = check("C33", bounds="scripts of 1-3 sends and receives of up to 3 bytes each (posted before the start, between the executions, from the callbacks and from other threads in the middle of any system call), any partial results, any errors, graceful end of the stream, any readiness order; a connected or a wrapped socket", outside="more operations, bigger buffers (the sizes of buffers are reduced with the hook), SSL, several sockets", assumptions=AIOASSUME)
for sc, cb, inj in [("Wc.G...P", "", None), ("Wcr..G...P", "", None), ("Wr.s.G..P", "Rc", None), ("Wr.G..P", "Rr", None), ("Ws.*.G..P", "", "c"), ("Wr.*G..P", "", "r"), ("Wc..cG..P", "Sc", None), ("C.c..G..P", "Cc", None)]: aiotcp(p, sc, cb, inj)
p = check("C35", bounds="a server with up to 3 incoming connections and any accept and bind errors, closes in any position incl. OnAccept and from another thread in the middle of any system call; IPv4 and IPv6", outside="more connections at once, several servers", assumptions=AIOASSUME)
for sc, f, ci, r in [("BLPB...G..X", 4, 0, ["transient", "accepted", "closed"]), ("BPLL..X.X", 6, 0, ["transient", "accepted", "closed"]), ("BLB.*..", 6, 0, ["transient", "accepted", "closed"]), ("BBL..G..", 4, 1, ["transient", "accepted", "closed"]), ("BXX", 4, 0, []), ("X.", 6, 0, []), ("", 4, 0, [])]:
    inst(p, "%s_%d_%d" % (sc.replace(".", "_").replace("*", "i") or "none", f, ci), "h/aio/server.cpp", defs={"SCRIPT": '"%s"' % sc, "FAMILY": f, "CLOSE_IN": ci, "MAXFD": 6}, repo=AIO + ["mg/aio/TCPServer.cpp"],
         stubs=["models/model.cpp", "sync"], cflags=("-DVX_MODELS", "-fno-access-control"), opts="--unwind 130", reach=r + ["end"])
p = check("C34", bounds="scripts of up to 10 steps of connects (by an address, with a timeout, by a domain with any answers), sends, receives, shutdowns, closes and reopening from OnClose, in every position incl. in callbacks and from another thread in the middle of any system call; any results of the system calls", outside="longer histories, SSL, several sockets", assumptions=AIOASSUME)
for sc, cb, inj, hup in [("C...G.P", "", None, 1), ("D.t.tG...P", "", None, 0), ("F...G.P", "", None, 0), ("Tw.w.G..P", "ECCc", None, 0), ("WHG..P", "", None, 0), ("CHG...P", "", None, 0), ("Wc..G...PX..G...P", "XOXC", None, 0), ("W.*.G..P", "", "X", 0), ("C.*.G..P", "", "H", 1), ("THw.G..P", "EC", None, 0), ("CX.G...P", "XOXW", None, 0), ("C.*.G..P", "", "w", 0), ("Wr.*.G..P", "!XRX", "X", 1)]: aiotcp(p, sc, cb, inj, hup)

def aiossl(p, script, cb="", inject=None, hup=0, enc=1, steps=1, broken=0, tier="both", reach=["end"]):
    name = "%s_%s%s%s_%d%d%s" % (script.replace(".", "_").replace("*", "i"), cb, "_" + inject if inject else "", "_hup" if hup else "", enc, steps, "b" if broken else "")
    inst(p, name.replace("!", "e"), "h/aio/ssl.cpp", defs={"SCRIPT": '"%s"' % script, "CB": '"%s"' % cb, "HUP": hup, "MAXFD": 3, "MAXOUT": 24, "ENC": enc, "STEPS": steps, "BROKEN": broken, **({"INJECT": "'%s'" % inject} if inject else {}), **BUFDEFS}, repo=AIO + ["mg/aio/SSLSocket.cpp", "mg/aio/TCPSocketIFace.cpp", "mg/aio/TCPSocketCtl.cpp", "mg/aio/TCPSocketSubscription.cpp"], repo_defs=BUFDEFS,
         stubs=["models/model.cpp", "sync"], cflags=("-DVX_MODELS", "-fno-access-control"), opts="--unwind 30", tier=tier, reach=reach)
p = check("C39", bounds="scripts of up to 10 steps of connects, sends, receives, closes, enabling of encryption, in every position incl. in callbacks and from another thread in the middle of any system call; handshakes of 1-2 steps, any splits of the incoming and outgoing bytes, any results of the system calls, broken records", outside="longer histories, bigger buffers (the sizes of buffers are reduced with the hook), close notifications of TLS", assumptions=AIOASSUME + ["the TLS stream: a model with the contract checked by C29"])
for sc, cb, inj, enc, steps, br, r in [("WcG.....P", "Cr", None, 1, 1, 0, ["progress", "received", "sent"]), ("CG......P", "Cr", None, 1, 1, 0, ["progress", "connected"]),
    ("WrG.....P", "", None, 1, 1, 0, ["progress", "received"]), ("WG......P", "CrRr", None, 1, 1, 0, ["progress", "received"]), ("Wr..", "", None, 1, 1, 1, ["ssl error", "closed"]), ("Wcr.G....P", "", None, 0, 1, 0, ["progress", "received", "sent"]),
    ("WcG....r....P", "CsRY", None, 0, 1, 0, ["progress", "encrypted"]), ("WcG*....P", "ScSr", "c", 1, 1, 0, ["injected", "progress"]), ("WrG*....", "", "X", 1, 1, 0, ["injected", "closed"]), ("WrG.*...P", "", "r", 1, 1, 0, ["injected", "received"]),
    ("WG......", "", None, 1, 2, 1, ["connected"]), ("WcG..w....P", "CX", None, 1, 1, 0, ["closed"])]: aiossl(p, sc, cb, inj, 0, enc, steps, br, reach=["end"] + r)

def task(p, workers, init, scripts, bodies, rounds, tier="both", batch=4, hb=0, opts="--unwind 8", reach=["end"], name="", **defs):
    n = "%s%dw_b%d_%s_%s_%s_r%d" % (name, workers, batch, init or "0", "_".join(scripts), "_".join(b.replace(":", "") or "n" for b in bodies), rounds)
    d = {"WORKERS": workers, "INIT": '"%s"' % init, "SCRIPTS": ",".join('"%s"' % x for x in scripts) or '""', "BODIES": ",".join('"%s"' % x for x in bodies), "TASKS": len(bodies), "ROUNDS": rounds, "BATCH": batch, "HB": hb}
    if "X" in "".join(scripts): d["STOP"] = 1
    inst(p, n, "h/task/task.cpp", defs=d, repo=AIO + ["mg/aio/IOTask.cpp"], stubs=["models/model.cpp", "sync"], cflags=("-DVX_MODELS", "-DVX_HEAP_MODEL=%d" % len(bodies), "-fno-access-control"), reach=reach, opts=opts, tier=tier)
p = check("C31", bounds="1-2 workers, 1-3 tasks with or without sockets, 1-2 threads waking them up and closing, kernel events, deadlines, re-posting, socket attaching, stop of the core; all schedules of 2 rounds (partly 3)", outside="more threads, tasks, rounds; memory ordering of what is done before a wakeup; io_uring, kqueue, IOCP", assumptions=MODULAR + ["the kernel (epoll, eventfd, poll): a model by the documentation", "the waiting queue: its specification (check C03)"])
for w, init, scripts, bodies, rounds in [
    (1, "", ["P0w0"], [""], 2), (1, "P0", ["w0", "x0"], [""], 2), (1, "P0", ["k0", "x0"], [""], 2), (1, "P0", ["x0", "x0"], [""], 2), (2, "P0", ["w0k0"], [""], 2),
    (2, "P0", ["x0"], [":P"], 2), (1, "Q0", ["w0x0"], ["a"], 2), (1, "P0", ["c0"], ["d"], 2), (1, "P0", ["k0", "w0"], ["d"], 2), (2, "P0P1", ["w0"], ["rn", "w"], 2),
    (1, "P0w0", [], ["wc:Q"], 2), (1, "P0w0Q1", [], ["o", "w"], 2), (1, "P0w0Q1", [], ["x", ":P"], 2),
    (1, "P0", ["w0", "x0"], ["w"], 3), (1, "P0", ["k0w0", "x0"], [""], 3), (2, "P0", ["w0", "w0"], [""], 3), (2, "P0", ["w0", "x0"], [""], 2), (2, "P0", ["k0", "w0"], ["n"], 2), (2, "P0", ["x0w0", "x0"], [":P"], 2),
    (2, "Q0", ["w0k0x0"], ["a"], 3), (1, "P0w0", ["c0k0"], ["dd"], 2), (1, "", ["x0P0"], [""], 3)]: task(p, w, init, scripts, bodies, rounds)
task(p, 1, "P0P1P2", ["w0"], ["", "", ""], 2, batch=2)
for w, init, scripts, bodies, rounds in [(1, "P0", ["X0"], [""], 2), (2, "P0", ["X0"], ["r"], 2), (1, "", ["P0X0"], ["d"], 2), (1, "P0", ["w0X0"], ["w"], 2), (2, "P0", ["w0X0"], ["w"], 2), (1, "P0", ["X0", "w0"], ["w"], 2), (1, "P0w0", ["X0"], ["d"], 2)]: task(p, w, init, scripts, bodies, rounds, opts="--unwind 8 --spin IOCoreWorker::Run")
task(p, 1, "P0", ["x0"], ["r"], 2, hb=1)
for w, init, scripts, bodies, rounds in [(1, "P0P1w1", ["k0"], ["", "d"], 2), (2, "P0", ["w0", "x0"], [""], 3), (2, "P0", ["k0", "w0"], ["n"], 3), (1, "P0w0", ["x0"], ["d"], 2)]: task(p, w, init, scripts, bodies, rounds, tier="thorough")

p = check("C30", bounds="sequences of 4-6 operations of both sides, every write of 0-3 bytes, every read of 0-4, any data", outside="longer sequences; buffer sizes are reduced with the hook", assumptions=["the BIO functions of OpenSSL only store and call the callbacks"])
for sc, w, r in [("wrwr", 3, 4), ("wwrr", 3, 4), ("rWwrf", 3, 4), ("wRwr", 3, 4), ("CwSrr", 3, 4), ("WWrwR", 2, 3), ("wwwrrr", 1, 3), ("wrrwr", 2, 3)]:
    inst(p, sc, "h/ssl/bio.cpp", defs={"SCRIPT": '"%s"' % sc, "MAXW": w, "MAXR": r, **BUFDEFS}, repo=["mg/net/SSLBioMem.cpp", "mg/net/Buffer.cpp", "mg/box/IOVec.cpp"], repo_defs=BUFDEFS, cflags=("-DVX_MODELS",), opts="--unwind 20", reach=["read", "end"])
p = check("C29", bounds="histories of 4-10 operations (connect, shutdown, update, app data of 1-2 bytes, 1-2 pieces of network input of any kind, valid, broken or cut, pops of both outputs, errors left in the library by others), any allowed results of the library", outside="longer histories, bigger data (the buffer size is reduced with the hook), the cryptography itself", assumptions=["the TLS library is a model with a toy cipher and the documented results of the calls"])
for sc, d in [("CnUaop", {}), ("CnaNop", {}), ("aCpnao", {}), ("CNnoU", {}), ("CanUnap", {"STEPS": 2}), ("CnoaNaUSo", {"SERVER": 1}), ("CnUanonop", {}), ("aCaNapSp", {}), ("CnaUSanoUo", {}), ("CnUSeUp", {}), ("CnUSNUSU", {}), ("CnUSneUo", {}), ("CnUNoeo", {}), ("CnUeSo", {}), ("eCeao", {}), ("aSaSp", {}), ("CanUSap", {}), ("Caapnap", {"FAILS": 1})]:
    inst(p, sc, "h/ssl/stream.cpp", defs={"SCRIPT": '"%s"' % sc, "STEPS": 1, "SERVER": 0, "FAILS": 0, **d, **BUFDEFS}, repo=["mg/net/SSLBioMem.cpp", "mg/net/SSLStreamOpenSSL.cpp", "mg/net/Buffer.cpp", "mg/box/IOVec.cpp"], repo_defs=BUFDEFS, cflags=("-DVX_MODELS", "-fno-access-control"), opts="--unwind 30", reach=["end"])

p = check("C28", bounds="1-3 requests by 1-2 threads, cancels, time limits, blocking requests, requests and cancels from callbacks, any result of the resolver with up to 3 addresses; all schedules of 2-3 rounds", outside="more requests, threads and rounds", assumptions=["getaddrinfo: a model by its documentation", "the heap of deadlines: its specification (check C03)", "the lock and the condition: the semantics of std ones (check C12 checks the wrappers)"])
def domain(init, scripts, bodies, results, rounds, slow=0, tier="both", opts="--unwind 10 --spin DomainToIPWorker::Run", reach=["end"]):
    inst(p, "%s_%s_%s_%s_r%d%s" % (init or "0", "_".join(scripts), "_".join(b or "n" for b in bodies), results.replace("?", "a"), rounds, "s" if slow else ""), "h/net/domain.cpp", defs={"INIT": '"%s"' % init, "SCRIPTS": ",".join('"%s"' % x for x in scripts) or '""', "BODIES": ",".join('"%s"' % x for x in bodies), "REQS": len(bodies), "RESULTS": '"%s"' % results, "ROUNDS": rounds, "SLOW": slow},
         repo=["mg/box/Mutex.cpp", "mg/box/ConditionVariable.cpp", "mg/box/Error.cpp", "mg/net/Host.cpp", "mg/box/StringFunctions.cpp"], stubs=["models/model.cpp", "sync", "format"], cflags=("-DVX_MODELS", "-DVX_HEAP_MODEL=%d" % len(bodies), "-fno-access-control"), reach=reach, opts=opts, tier=tier)
for init, scripts, bodies, results, rounds, slow in [
    ("", ["r0"], [""], "3", 2, 0), ("", ["r0"], [""], "?", 3, 0), ("", ["r0x0"], [""], "?", 2, 0), ("r0", ["x0"], [""], "1", 3, 0), ("", ["t0c-c-"], [""], "?", 2, 0), ("t0", ["c-c-x0"], [""], "e", 2, 0),
    ("", ["b0"], [""], "?", 2, 0), ("", ["b0"], [""], "2", 3, 0), ("", ["r0d0", "r1x1"], ["", ""], "12", 2, 0), ("", ["r0"], ["r1", ""], "11", 2, 0), ("t0t1t2", ["x1"], ["t", "", ""], "11e", 2, 0), ("t0t1", ["x1c-"], ["", ""], "1s", 2, 1),
    ("r0r1", ["x0"], ["x1", ""], "1e", 2, 0), ("", ["r0", "b1"], ["", ""], "10", 2, 0), ("", ["r0r1x0", "c-"], ["", ""], "11", 2, 0), ("", ["r0x0r1x1"], ["", ""], "11", 3, 0), ("", ["r0", "r1"], ["", ""], "11", 3, 0), ("r0t1", ["x0x1"], ["t", "r2", ""], "1e1", 2, 1)]: domain(init, scripts, bodies, results, rounds, slow)
domain("", ["r0c-x0"], [""], "?", 3, reach=["end", "success", "no address", "system error", "cancelled"])
domain("t0", ["c-c-x0"], ["t"], "?", 3, reach=["end", "success", "timeout", "cancelled"])
for init, scripts, bodies, results, rounds, slow in [("", ["r0x0", "r1x1"], ["", ""], "11", 3, 0), ("t0r1", ["x0", "x1"], ["", ""], "11", 3, 1), ("t0t1t2", ["x1", "x2c-"], ["t", "", ""], "11e", 3, 0)]: domain(init, scripts, bodies, results, rounds, slow, tier="thorough")

p = check("C17", bounds="any histories of 4-5 steps from the start and of 3 (thorough: 4) steps after 16 prefixes of up to 8 steps, stacks of up to 4 coroutines; coroutines as bodies of 1-2 tasks in a scheduler with 1-2 workers, all schedules of 2 rounds (partly 1 or 3)", outside="longer histories, deeper stacks, more threads", assumptions=MODULAR)
def coro(prefix, more, depth=4, tier="both", reach=["end"]):
    inst(p, "%s_%d" % (prefix or "0", more), "h/coro/coro.cpp", defs={"DEPTH": depth, "STEPS": len(prefix) + more, "PREFIX": '"%s"' % prefix}, repo=["mg/box/Coro.cpp"], coro=True, opts="--unwind 20", tier=tier, reach=reach)
coro("", 4, reach=["end", "ended", "returned", "destroyed by itself"])
for pre in ["rcs", "rccs", "rcccs", "rcces", "rccces", "rcesr", "rcsrcs", "rccsre", "rcsre", "rcusr", "rsmrcs", "rccsree", "rcecs", "rceces", "rcecsmre", "rccsrcs"]: coro(pre, 3)
for pre in ["rs", "rc", "re", "ru", "rx", "mr", "mm"]: coro(pre, 3)
for pre in ["rcs", "rcccs", "rsmrcs", "rcesr"]: coro(pre, 4, tier="thorough")
NOPRUNE = ["e", "p", "ye", "(yp", "(ye"]
def corotask(workers, init, scripts, bodies, rounds, tier="both", reach=["end"], opts=None):
    opts = opts or "--unwind 10" + (" --no-prune" if bodies[0] in NOPRUNE else "")
    inst(p, "task%d_%s_%s_%s_%d" % (workers, init or "0", "_".join(scripts), "_".join(b.replace("(", "o").replace(")", "c") for b in bodies), rounds), "h/sch/coro.cpp", defs={"WORKERS": workers, "INIT": '"%s"' % init, "SCRIPTS": ",".join('"%s"' % x for x in scripts) or '""', "BODIES": ",".join('"%s"' % x for x in bodies), "TASKS": len(bodies), "ROUNDS": rounds},
         repo=SCHED + ["mg/box/Coro.cpp"], stubs=["models/model.cpp"], cflags=("-DVX_MODELS", "-DVX_HEAP_MODEL=%d" % len(bodies)), coro=True, opts=opts, tier=tier, reach=reach)
for w, init, scripts, bodies, rounds, reach in [
    (1, "P0", [], ["y(y)n"], 1, []), (2, "", ["P0"], ["yyn"], 2, []), (2, "P0", [], ["(y)x"], 2, []), (2, "P0", [], ["(yx"], 2, []), (1, "P0", [], ["d(yy)p"], 2, ["plain"]), (1, "P0", [], ["(yp"], 2, ["plain"]), (2, "P0", [], ["e"], 2, ["plain"]),
    (2, "P0", ["X0"], ["(ys"], 2, ["exit"]), (1, "P0", ["X0"], ["ys"], 3, ["exit"]), (1, "P0", ["S0"], ["rx"], 2, ["received"]), (2, "P0", ["S0"], ["(r)x"], 2, ["received"]), (1, "P0", ["W0S0"], ["yrx"], 2, ["received", "spurious"]), (2, "P0", ["W0"], ["(ir"], 2, ["suspended"]),
    (1, "P0P1", ["W1"], ["(y)x", "(iy)n"], 2, []), (1, "P0", ["S0X0"], ["(rs"], 2, ["exit"]), (1, "P0", ["W0", "W0"], ["(iyi)n"], 2, ["suspended"]), (1, "", ["P0", "P1"], ["(yx", "y(y)n"], 2, [])]: corotask(w, init, scripts, bodies, rounds, reach=["end"] + reach)
for w, init, scripts, bodies, rounds, reach in [(1, "P0", [], ["(ye"], 2, ["plain"]), (2, "P0", [], ["p"], 2, ["plain"]), (2, "P0", ["S0X0"], ["(rs"], 2, ["exit"]), (2, "P0", [], ["ye"], 2, ["plain"])]: corotask(w, init, scripts, bodies, rounds, reach=["end"] + reach, tier="thorough")
p = "C34"
for sc, cb, inj, hup in [("N.A.G..P", "", None, 0), ("M.A.G..P", "", None, 0), ("K.w*.G..P", "", "A", 0), ("NX.A..", "", None, 0), ("N..*A.", "", "X", 0), ("NH.AG...P", "", None, 0)]: aiotcp(p, sc, cb, inj, hup)
