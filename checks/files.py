"""C04-C05: writing data, file objects"""
from lib import vf
from lib.vf import hexs

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def exe_file():
    return vf.build("file", "file.cc", ["file", "filesystem", "exceptions", "locale_convert"], flags=ASAN)


def rand_history(r):
    """Random history; the only bookkeeping is what keeps it within defined behaviour of stdio: writers have their file to
    themselves, and there is a seek between reading and writing"""
    s = []
    for n in "abc":
        if r.random() < .7:
            s.append("put %s %s" % (n, hexs(bytes(r.choice([10, 65, 66, r.randint(0, 255)]) for _ in range(r.choice([0, 3, 12, 40]))))))
            if r.random() < .3:
                s[-1] = "put %s %s" % (n, hexs(b"first\nsecond line\n\nlast" + r.choice([b"", b"\n"])))
    slot = {1: None, 2: None, 3: None}     # None: no object; else dict(name, mode, open, last)
    exists = {x.split()[1] for x in s}
    lost = []                              # (name, mode) of taken ones

    def holders(n):
        return [v for v in slot.values() if v and v["open"] and v["name"] == n] + [dict(name=a, mode=b) for a, b in lost if a == n]
    for _ in range(r.randint(4, 30)):
        k = r.randint(1, 3)
        o = slot[k]
        if o is None:
            if r.random() < .75:
                n = r.choice("aabbcx")
                m = r.choice(["r", "r", "w", "a", "r+", "w+", "a+"])
                h = holders(n)
                if h and (m != "r" or any(x["mode"] != "r" for x in h)):
                    continue
                ok = n != "x" and (m not in ("r", "r+") or n in exists)
                if ok:
                    exists.add(n)
                slot[k] = dict(name=n, mode=m, open=ok, last="", known=not m.startswith("a"))
                s.append("open %d %s %s" % (k, n, m + r.choice(["", "b"])))
            else:
                j = r.choice([x for x in (1, 2, 3) if x != k])
                if slot[j]:
                    slot[k] = dict(slot[j])
                    slot[j]["open"] = False
                    s.append("move %d %d" % (j, k))
            continue
        x = r.random()
        if x < .08:
            s.append("close %d" % k)
            o["open"] = False
        elif x < .13:
            s.append("destroy %d" % k)
            slot[k] = None
        elif x < .18:
            s.append("take %d" % k)
            if o["open"]:
                lost.append((o["name"], o["mode"]))
            o["open"] = False
        elif x < .22:
            s.append("drop")
            lost = []
        elif x < .32:
            j = r.randint(1, 3)
            if slot[j]:
                s.append("assign %d %d" % (j, k))
                if j != k:
                    slot[k] = dict(slot[j])
                    slot[j]["open"] = False
        else:
            op = r.choice(["read", "read", "cread", "gets", "write", "write", "cwrite", "cwrite", "puts", "seek", "tell", "eof", "error"])
            data = hexs(bytes(r.randint(1, 255) for _ in range(r.choice([1, 2, 7, 30]))))
            if not o["open"]:
                if op in ("read", "cread", "gets"):
                    s.append("%s %d %d" % (op, k, r.randint(2, 5)))
                elif op in ("write", "cwrite", "puts"):
                    s.append("%s %d %s" % (op, k, data))
                elif op == "seek":
                    s.append("seek %d 0 0" % k)
                else:
                    s.append("%s %d" % (op, k))
                continue
            if op in ("read", "cread", "gets"):
                if o["last"] == "w":
                    s.append("seek %d %d %d" % (k, r.randint(0, 9), 0))
                    o["known"] = True
                o["last"] = "r"
                s.append("%s %d %d" % (op, k, r.choice([1, 2, 5, 60]) + (1 if op == "gets" else 0)))
                if op == "read" and r.random() < .2:
                    s[-1] = "read %d %d %d" % (k, 12, r.choice([1]))
            elif op in ("write", "cwrite", "puts"):
                if o["last"] == "r":
                    s.append("seek %d 0 %d" % (k, r.choice([0, 2])))
                o["last"] = "w"
                if o["mode"] != "r":
                    o["known"] = True
                s.append("%s %d %s" % (op, k, data))
            elif op == "seek":
                w = r.choice([0, 0, 2, 1 if o["known"] else 0])
                off = r.choice([0, 1, 3, -2, r.randint(-10, 20)])
                s.append("seek %d %d %d" % (k, off, w))
                # a refused seek leaves the position
                o["known"] = o["known"] or off >= 0
                if o["known"]:
                    s.append("tell %d" % k)
                if off < 0 or r.random() < .3:
                    s.append("seek %d %d 0" % (k, r.randint(0, 12)))
                o["known"] = True
                o["last"] = ""
            elif op == "tell":
                if o["known"]:
                    s.append("tell %d" % k)
            else:
                s.append("%s %d" % (op, k))
    s += ["destroy 1", "destroy 2", "destroy 3", "drop"]
    return s


def c05(ctx):
    ctx.design("MCFile")
    ctx.design("MCFile", "MCFileIO.cfg")
    e = exe_file()
    scripts = []
    for c in ctx.generate("GenFile", None if ctx.quick else "GenFileAll.cfg"):
        s = ["put a " + hexs(bytes([1, 10, 2]))] + [" ".join(map(str, o)) for o in c["ops"]]
        s += ["cwrite 1 71", "cwrite 2 72", "cread 1 1", "cread 2 1", "destroy 1", "destroy 2", "drop"]
        scripts.append(s)
    root = vf.scratch_root()
    ctx.conform(e, "FileTrace", scripts, args=[root], what="spec-enumerated")
    r = ctx.rng
    ctx.conform(e, "FileTrace", [rand_history(r) for _ in range(ctx.n(1500, 20000))], args=[root], what="random histories")
    s = []
    for n, lim in [(0, 100), (100, 200000), (200000, 200000), (200001, 200000), (300000, 10), (300000, 200000), (1 << 20, 65536)] + [(r.choice([100000, 500000]) + r.randint(0, 99), r.randint(0, 600000)) for _ in range(20)]:
        # a few bytes may stay in the buffer until the file is closed: only ask for failures that writing itself must notice
        if n <= lim or n - lim > 70000:
            s.append("limited %d %d" % (n, lim))
    for n in (1, 100, 5000, 70000):
        for given in (0, n - 1, n, n + 10):
            s.append("trickle %d %d %d" % (n, given, r.choice([1, 7, 1000]) if n <= 5000 else 4096))
    ctx.conform(e, "FileTrace", [s], args=[root], what="writes that fail, reads that trickle")
    return ctx.finish("model_checking", rule="every history of five (thorough: six) ownership operations on two objects and three handles, then a write and a read on each; "
                      "random histories of three objects in all modes; writes beyond the file size limit; reads from a pipe")


def exe_atomic():
    return vf.build("atomic", "atomic.cc", ["data", "file", "filesystem", "exceptions", "locale_convert"])


def c04(ctx):
    ctx.design("MCWriteProtocol")
    e = exe_atomic()
    root = vf.scratch_root()
    r = ctx.rng
    hows = ["temp", "plain"]
    sizes = [0, 1, 100, 4095, 4096, 4097, 8192, 70000] + ([] if ctx.quick else [300000, 1 << 20])
    # first without faults, which shows how many calls there are to interfere with
    base = [(h, n, b, t) for h in hows for n in sizes for b in ("absent", "old") for t in (("absent", "stale") if h == "temp" else ("absent",))]
    scripts = [["do %s %d %s %s -1 none 0" % c] for c in base]
    scripts += [["do %s 100 absent absent -1 none 0 fail" % h] for h in hows]
    traces, _ = ctx.conform(e, "AtomicTrace", scripts, args=[root], what="without faults")
    faults = []
    for c, t in zip(base, traces):
        calls = sum(1 for x in t if x.startswith('{"op":"call"'))
        for k in range(calls + 2):
            for err in (28, 5, 13) if ctx.quick else (28, 5, 13, 4, 18, 30, 122):
                faults.append(["do %s %d %s %s %d fail %d" % (c + (k, err))])
            faults.append(["do %s %d %s %s %d short 0" % (c + (k,))])
            faults.append(["do %s %d %s %s %d shortfail %d" % (c + (k, r.choice((28, 5, 122))))])
            faults.append(["do %s %d %s %s %d kill 0" % (c + (k,))])
    ctx.notes["fault_points"] = len(faults)
    ctx.conform(e, "AtomicTrace", faults, args=[root], what="every call failing, short, or never reached")
    return ctx.finish("model_checking", rule="each operating-system call that writing makes on its files, for each size, previous destination and stale temporary file, is made to fail with each errno, "
                      "to be short, to be short and then fail, or is preceded by the death of the process; non-trivial = the fault was reached")
