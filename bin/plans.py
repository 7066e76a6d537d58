"""What each check runs.  profile -> properties, sizes per tier."""
import random
import time

ASSUME = ["one device write (one pwrite of the implementation) is atomic",
          "the recorded executions sample the schedules, histories and crash points; the models are exhaustive within their constants"]

# property -> [(harness profile, traces in the quick tier)]
STORE = {
    "C01": [("map", 160), ("large", 8), ("tiny", 200), ("far", 24)],
    "C02": [("reopen", 160), ("far", 16)],
    "C03": [("kill", 96), ("burst", 24)],
    "C04": [("power", 128), ("powerburst", 16)],
    "C05": [("gc", 128), ("burst", 16)],
    "C06": [("fail", 128)],
    "C07": [("own", 144), ("large", 8), ("far", 48), ("conc:lin", 120)],
    "C09": [("conc:lin", 560)],
    "C10": [("conc:close", 400), ("conc:lin", 80)],
    "C13": [("range", 160), ("large", 24), ("far", 32)],
    "C17": [("dev", 160), ("far", 48)],
    "C21": [("churn", 96), ("manyrecs", 24)],
}

# property -> [(harness kind, profile, traces, specification)]
COMP = {
    "C14": [("ring", "random", 400, "RingTrace")],
    "C15": [("buf", "random", 400, "BufferTrace")],
    "C11": [("snap", "seq", 64, "SnapTrace"), ("snap", "conc", 160, "ConcTrace"), ("sdev", "random", 32, "SnapDevTrace"), ("sdev", "far", 24, "SnapDevTrace")],
    "C12": [("snap", "seq", 176, "SnapTrace"), ("sdev", "random", 48, "SnapDevTrace"), ("sdev", "far", 32, "SnapDevTrace")],
    "C18": [("hand", "seq", 320, "HandlesTrace"), ("hand", "conc", 320, "HandlesTrace")],
    "C19": [("tool", "x", 128, "ToolTrace")],
    "C20": [("server", "x", 192, "ServerTrace"), ("server", "backup", 48, "ServerTrace")],
    "C22": [("nvm", "random", 480, "NvmTrace"), ("nvm", "far", 160, "NvmTrace")],
    "C16": [("record", "random", 160, "RecordTrace"), ("store", "spoil", 128, "StoreTrace")],
}


# all short behaviours of spec/MCStore.tla, run by the real store: property -> (mode, number in the quick tier)
SHORT = {"C01": ("plain", 1200), "C02": ("plain", 1000), "C03": ("kill", 800), "C04": ("power", 1000), "C05": ("kill", 800)}


def short(c, pid, mode, n, seed):
    def wrap(k, ops):
        o2 = []
        for o in ops:
            o2 += [dict(o="close"), dict(o="open")] if o["o"] == "reopen" else [dict(o, k=mode) if o["o"] == "crash" else o]
        if mode == "plain":
            o2 = [o for o in o2 if o["o"] != "crash"]
        if pid == "C02":
            o2 += [dict(o="close"), dict(o="open")]
        return dict(cfg=dict(cuts=[0, 100, 600], cap=4, jsec=3 + k % 4, auto=k % 5 != 0, mode=mode, seed=k, probes=12, name="short"),
                    ops=o2 + [dict(o="dump"), dict(o="own"), dict(o="usage", a=0, b=1)])
    sc = c.generate("MCStore", "MCStoreGen.cfg", n, 0, wrap, seed=seed)
    c.drive("short", 0, seed=seed, scripts=sc, timeout=880)


# the model of the implementation: property -> (mode of its scripts, all in the quick tier, designs that must fail)
IMPL = {"C02": ("plain", 0, []), "C03": ("kill", 1, ["endfirst"]), "C04": ("power", 1, ["both", "headfirst"]),
        "C05": ("kill", 1, ["copyfirst", "last"]), "C07": ("plain", 0, ["hold"]), "C21": ("plain", 0, [])}
BROKEN = dict(endfirst="KillSafe", both="PowerSafe", headfirst="PowerSafe", copyfirst="KillSafe", last="Compact", hold="KillSafe")


def impl(c, pid, tier, seed):
    mode, every, without = IMPL[pid]
    big = tier == "thorough"
    if every:
        c.model("StoreImpl", "StoreImplBig.cfg" if big else "StoreImpl.cfg", timeout=880,
                what="ring, buffer, head, GC and blocks on a device that loses writes refine Store, up to a depth")
    for cfg in ("StoreImplSim.cfg", "StoreImplSim4.cfg"):
        c.model("StoreImpl", cfg, simulate=400 if big else 12, seed=seed, timeout=880, what="the same in long random behaviours, with crashes in between")
    for f in without:
        c.model("StoreImpl", "StoreImplNo_%s.cfg" % f, expect=BROKEN[f], simulate=200 if f == "last" else 0, seed=1,
                what="the design without " + f)
    # behaviours of the model run by the real store
    at = {}
    agree = [0, 0]

    def wrap(embed, sectors, blocks):
        cuts = sorted({0, 100} | set(embed))

        def f(k, ops):
            l = []
            for o in ops:
                o = dict(o)
                pos = o.pop("at")
                if o["o"] in ("put", "pute"):
                    o["n"] = cuts.index(o["n"])
                l += [o, dict(o="journal")]
                at.setdefault(k, []).append(pos)
            return dict(cfg=dict(cuts=cuts, cap=blocks, jsec=sectors + 1, auto=True, mode=mode, seed=k, probes=10, name="impl"),
                        ops=l + [dict(o="dump"), dict(o="own"), dict(o="close"), dict(o="open"), dict(o="dump")])
        return f

    def each(tr):
        js = [e for e in tr["ev"] if e["e"] == "journal" and e["r"] == "ok"]
        for e, p in zip(js, at.get(tr["id"], [])):
            agree[0] += [e["uh"], e["h"], e["t"]] == p
            agree[1] += 1

    for cfg, n, depth, w in (("StoreImplGenBig.cfg" if big else "StoreImplGen.cfg", 20000 if big else 600, 0, wrap((237, 495), 3, 2)),
                             ("StoreImplGenLong.cfg", 300 if big else 24, 130, wrap((100, 495, 1005), 6, 3)),
                             ("StoreImplGenLong4.cfg", 300 if big else 24, 130, wrap((100, 237, 495), 4, 3))):
        at.clear()
        sc = c.generate("StoreImpl", cfg, n, depth, w, seed=seed)
        c.drive(cfg[9:-4], 0, seed=seed, scripts=sc, timeout=880, each=each)
        # for information: how closely the model follows the code
        c.drives[-1]["ring_positions_as_in_the_model"] = "%d of %d" % tuple(agree)


# the designs of the snapshot that must fail
SNAP = {"C11": dict(before="KillSafe", writelock="Once", readlock="Reads", all="Mine"),
        "C12": dict(entryfirst="KillSafe", complete="KillSafe")}


def snapimpl(c, pid, tier, seed):
    c.model("SnapImpl", "SnapImpl.cfg", what="regions are saved before they are overwritten: with two writers, a reader and a kill at any step the snapshot holds what the device held")
    for f, inv in SNAP[pid].items():
        c.model("SnapImpl", "SnapImplNo_%s.cfg" % f, expect=inv, what="the design without " + f)

    def wrap(k, ops):
        l = []
        for o in ops:
            if o["o"] == "write":  # all of a region or half of it, or where two meet
                s, n = 2 * o["s"], o["n"]
                l.append(dict(o="write", s=s + 1, n=2) if n > 1 else dict(o="write", s=s + k // 2 % 2, n=2 - k % 2 if k // 2 % 2 == 0 else 1))
            elif o["o"] == "crash":
                l.append(dict(o="crash", b=o.get("k", 0) * 7 + k))
            else:
                l.append(dict(o=o["o"]))
            if k % 3 == 0:
                l.append(dict(o="read", s=0, n=9))
        return dict(cfg=dict(cap=8, shift=20, unit=1 << 19, extra=0, probes=3 if tier == "quick" else 6), ops=l + [dict(o="read", s=0, n=9)])
    sc = c.generate("SnapImpl", "SnapImplGen.cfg", 0 if tier == "thorough" else 160, 0, wrap, seed=seed, keep=lambda ops: all(o["n"] < 3 for o in ops) and any(o["o"] == "snapc" for o in ops[:-1]))
    c.drive("short", 0, kind="sdev", spec="SnapDevTrace", seed=seed, scripts=sc, timeout=880)


# the designs of the locking that must fail
CONC = {"C09": dict(getlock="Right", lookup="Right", onlynew="Right", updatelock="Mirror", syncjr="KillSafe"),
        "C10": dict(order="NoDeadlock", writelock="Right", again="Right", sidecheck="Right")}


def concimpl(c, pid, tier, seed):
    big = tier == "thorough"
    c.model("ConcImpl", "ConcImplClose.cfg" if pid == "C10" else "ConcImplTwo.cfg" if big else "ConcImpl.cfg", timeout=880,
            what="with these locks, checks and the reuse of blocks after a sync only, every interleaving of the operations' steps gives results of one order, and ends")
    for f, inv in CONC[pid].items():
        c.model("ConcImpl", "ConcImplNo_%s.cfg" % f, expect=inv, what="the design without " + f)

    def wrap(k, ops):
        r = random.Random(seed * 7919 + k)
        like = dict(put=["put", "put", "put", "pute"], get=["get", "get", "geto", "size"], sync=["sync", "sync", "flush"], snapc=["snapc", "snapd", "snapr"], side=["side", "side", "gc"])
        ids = r.choice([[0, 0, 0], [0, 1, 2], [0, 149, 150]])
        before = [dict(o="put", i=ids[r.randrange(2)], n=2) for _ in range(r.randrange(4))]
        if "Wrong" in cfg and r.randrange(3):  # just as the specification has it
            like, before = dict(get=["get", "geto"]), []
        if r.randrange(3) == 0:
            before.append(dict(o="sync"))
        l = []
        for j, o in enumerate(ops):
            x = dict(o=r.choice(like.get(o["o"], [o["o"]])), i=ids[o["i"]], a=o["th"], n=2)
            if x["o"] == "puto":
                x.update(s=j % 2, n=j % 2 + 1, rv=2)
            elif x["o"] in ("geto", "snapr"):
                x.update(s=0, n=r.choice([1, 2]))
            elif x["o"] == "side":
                x.update(n=64)
            l.append(x)
        return dict(cfg=dict(cuts=r.choice([[0, 200, 480], [0, 200, 480], [0, 600, 1300]]), cap=r.choice([24, 30]), jsec=r.choice([6, 12]), auto=r.randrange(3) > 0, mode="plain", seed=k + 1, name="sched"),
                    ops=before + [dict(o="start")] + l)
    k = 10 if big else 1
    for cfg, n, depth in (("ConcImplGenClose.cfg", 0 if big else 600, 0), ("ConcImplGenWrongClose.cfg", 0, 0), ("ConcImplGenLongClose.cfg", 400 * k, 120)) if pid == "C10" else (
                          ("ConcImplGen.cfg", 0 if big else 600, 0), ("ConcImplGenThree.cfg", 0 if big else 200, 0), ("ConcImplGenWrong.cfg", 0 if big else 900, 0), ("ConcImplGenLong.cfg", 300 * k, 120)):
        sc = c.generate("ConcImpl", cfg, n, depth, wrap, seed=seed)
        c.drive(cfg[8:-4], 0, kind="sched", spec="ConcTrace", seed=seed, scripts=sc, timeout=880)


def rounds(c, tier, budget, f):
    """f(seed) once in the quick tier, until the budget (s) is used in the thorough one"""
    from check import SEED
    f(SEED)
    k = 0
    t0 = time.time()
    last = 0.0
    while tier == "thorough" and time.time() - t0 + last < budget and not c.violations:
        k += 1
        t = time.time()
        f(SEED * 1000 + k)
        last = time.time() - t


def run(c, pid, tier):
    meta = dict(level="model_checking", assumptions=ASSUME)
    if pid in STORE:
        def go(seed):
            for profile, n in STORE[pid]:
                if profile.startswith("conc:"):
                    c.drive(profile[5:], n, kind="conc", seed=seed, spec="ConcTrace")
                else:
                    c.drive(profile, n, seed=seed)
        if pid in ("C03", "C04"):
            c.model("MCStore", "MCStoreBig.cfg" if tier == "thorough" else "MCStore.cfg", timeout=880,
                    what="the crash images that Store accepts are those that the properties allow, with two lumps, up to a depth")
        if pid in SHORT:
            mode, n = SHORT[pid]
            from check import SEED
            short(c, pid, mode, 0 if tier == "thorough" else n, SEED)
        if pid in CONC:
            from check import SEED
            concimpl(c, pid, tier, SEED)
        if pid in IMPL:
            from check import SEED
            impl(c, pid, tier, SEED)
        rounds(c, tier, 400, go)
        return meta
    if pid == "C08":
        big = tier == "thorough"
        c.model("AllocImpl", "AllocImplBig.cfg" if big else "AllocImpl.cfg", what="best fit with merging refines Alloc, for every sequence of operations")
        c.model("AllocImpl", "AllocImplOrig.cfg", expect="Largest", what="the original design, which does not merge the rest of a split segment")

        def wrap(k, ops):
            return dict(cfg=dict(impl=["judy", "judy2", "btree"][k % 3], cap=13, fresh=k % 3 != 1 and k % 2 == 0),
                        ops=[dict(o="q")] + [dict(o=o["o"], n=o["n"]) for o in ops])

        def go(seed):
            sc = c.generate("AllocImpl", "AllocImplGen.cfg", 60, 62, wrap, seed=seed)
            c.drive("generated", 60, kind="alloc", seed=seed, spec="AllocTrace", scripts=sc)
            c.drive("random", 480, kind="alloc", seed=seed, spec="AllocTrace")
        rounds(c, tier, 400, go)
        return meta
    if pid in COMP:
        if pid in ("C11", "C12") and tier == "thorough":
            c.drive("big", 16, kind="snap", spec="SnapTrace")
        if pid in SNAP:
            from check import SEED
            snapimpl(c, pid, tier, SEED)

        if pid == "C22":
            big = tier == "thorough"
            from check import SEED
            c.model("MCNvm", "MCNvm.cfg", what="views stay apart and inside, and writes inside of their view, for every short sequence")

            def wrap(k, ops):
                impl = ["mem", "create", "open", "snap"][k % 4]
                return dict(cfg=dict(impl=impl, size=2 if impl == "create" else 4, first=0, cap=2, shot=k // 4 % 2, shift=11), ops=ops)
            sc = c.generate("MCNvm", "MCNvmGen.cfg", 0 if big else 3000, 0, wrap, seed=SEED)
            c.drive("short", 0, kind="nvm", spec="NvmTrace", seed=SEED, scripts=sc)

        def go(seed):
            for kind, profile, n, spec in COMP[pid]:
                c.drive(profile, n, kind=kind, seed=seed, spec=spec)
        rounds(c, tier, 500, go)
        return meta
    raise SystemExit("no plan for " + pid)


TV = "TLA+ (TLC): recorded executions of the real store validated against spec/Store.tla"
NOTES = {
    "C01": (TV, "random histories of all operations with maintenance in between, every result checked against the ordered map; stores of a few sectors and behind the first 4 GB; the short behaviours of spec/MCStore.tla run by the real store"),
    "C02": (TV, "histories with close/reopen; contents, counts and ownership after each reopen; the short behaviours of spec/MCStore.tla run by the real store; spec/StoreImpl.tla, the implementation as a model, checked and its behaviours run by the real store"),
    "C03": (TV + ", a kill at device writes", "crash images taken before every device write and sync (sampled per operation), reopened, each must be one state since the last flush; long bursts of records must have been synced automatically; the short behaviours of spec/MCStore.tla run by the real store; spec/StoreImpl.tla, the implementation as a model, checked and its behaviours run by the real store"),
    "C04": (TV + ", subsets of the unsynced writes lost", "power failure images (all but one, only one, prefixes, random subsets of the writes since the last sync), judged lump by lump; the short behaviours of spec/MCStore.tla run by the real store; spec/StoreImpl.tla, the implementation as a model, checked and its behaviours run by the real store"),
    "C05": (TV + " with GC at any moment", "GC steps, full GC, switched automatic GC, crash images inside GC; the short behaviours of spec/MCStore.tla run by the real store; spec/StoreImpl.tla, the implementation as a model, checked and its behaviours run by the real store"),
    "C06": (TV + " with injected device errors", "errors of reads, writes and syncs, too large values, full data area and journal"),
    "C07": (TV + ", block ownership", "owned blocks of all lumps, free space and largest segment after each step, everything deleted and reopened at the end; spec/StoreImpl.tla, the implementation as a model, checked and its behaviours run by the real store"),
    "C09": ("TLA+ (TLC): calls and returns of concurrent operations on the real store validated against spec/Store.tla by spec/ConcTrace.tla, which searches for an order",
            "2 to 4 threads, device operations held up until others have returned, every result explained by one order; contents, ownership and reopened contents afterwards; spec/ConcImpl.tla, the locks and steps as a model, its schedules (and those that break wrong designs) run by the real store"),
    "C10": ("TLA+ (TLC): as C09, with close and snapshot operations", "threads with close, snapshot create/read/delete; every call returns, later calls fail, no device operation after the close, the reopened contents; spec/ConcImpl.tla as in C09"),
    "C11": ("TLA+ (TLC): device writes, snapshots and reads of the real store validated against spec/Snapshot.tla",
            "readers with every kind of chunk and seek, copies opened as stores, sequential and with concurrent writers; small regions (32 MB ones in the thorough tier); spec/SnapImpl.tla, the saving of regions as a model, checked with kills at any step and its behaviours run by the real device (spec/SnapDev.tla)"),
    "C12": ("TLA+ (TLC): as C11, with reopening and crash images of the store and its backing file", "crash images at device writes of store and backing file, reopened, read, written to, deleted; other stores with similar names beside it; spec/SnapImpl.tla, the saving of regions as a model, checked with kills at any step and its behaviours run by the real device (spec/SnapDev.tla)"),
    "C08": ("TLA+ (TLC): model of the allocation algorithm checked against spec/Alloc.tla, scripts generated from it and random ones run through the real allocators and validated against Alloc",
            "exhaustive model (small capacity), generated and random call sequences on both allocators, capacities up to beyond the 24 bit segment limit, rebuilt allocators"),
    "C14": ("TLA+ (TLC): recorded calls of the real ring validated against spec/Ring.tla", "record sizes at sector borders, wrap-arounds, pops and releases, the device contents after every call, reopening"),
    "C15": ("TLA+ (TLC): recorded calls of the real write buffer validated against spec/Buffer.tla", "seeks, reads, writes at and around sector borders, the device contents after every call"),
    "C16": ("TLA+ (TLC): spec/Record.tla reads and writes the record format; bytes written and read by the real code validated against it, and opens of altered stores against Store.tla",
            "one and two altered bytes, every tag, truncated records, largest records; altered bytes in live and free parts of the journal of a store"),
    "C13": (TV + ", byte ranges", "offsets and lengths at block borders, overflowing ones, embedded lumps"),
    "C17": (TV + ", device writes", "every changed byte on the device is attributed to a region; the journal records that a restart would find only grow at the end and shrink at the front"),
    "C18": ("TLA+ (TLC): opens, creations and closes of stores and devices, in one process and several, validated against spec/Handles.tla",
            "handles of one or several processes on files, links, directories and damaged headers; create, open and close at the same time, each result explained by one order; what is left on the file system afterwards"),
    "C19": ("TLA+ (TLC): runs of the real command line tool validated against spec/Tool.tla",
            "random sequences of commands with their output and effects, missing and damaged files, sizes of resize, files given to put, the store read back with the library after each command"),
    "C20": ("TLA+ (TLC): requests to the real HTTP server and their answers validated against spec/Server.tla, which searches for an order",
            "2 to 5 clients uploading, downloading and taking, malformed requests, power failure images after acknowledged uploads, shutdown at any time, snapshots and backups opened as stores"),
    "C22": ("TLA+ (TLC): calls on the real devices and views validated against spec/Nvm.tla, scripts generated from it",
            "memory devices, files created and opened, snapshot files with and without a snapshot; views of views, positions outside, odd sizes; the whole device and all positions after every call"),
    "C21": (TV + ", churn", "long sequences of puts and deletes with a pinned live set; journal-full results are accepted only when the live set is large; spec/StoreImpl.tla, the implementation as a model, checked and its behaviours run by the real store"),
}
NOT_APPLICABLE = {}
