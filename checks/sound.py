"""C23: sound track files"""
import math
from lib import vf

EDGES = [0, 1, -1, 2, 8388606, 8388607, 8388608, 8388609, -8388607, -8388608, -8388609, 16777215, 16777216, -16777216, 2147483647, -2147483647]
REAL_EDGES = [0, 1, -1, 2, 3, -3, 16777213, 16777214, 16777215, 16777216, -16777213, -16777214, -16777215, -16777216, 33554432, -33554432]


def exe():
    return vf.build_full("sound", "sound.cc")


def value(r, kind):
    x = r.random()
    if x < .3:
        return r.choice(EDGES if kind == "i" else REAL_EDGES)
    if x < .5:
        return r.randint(-300, 300)
    return r.randint(-9000000, 9000000) if kind == "i" else r.randint(-17000000, 17000000)


def write(r, k, channels, n, kind=None, given=None):
    kind = kind or r.choice("if")
    given = given if given is not None else r.choice([channels, channels, r.randint(1, channels)])
    return "write %d %s %d %s" % (k, kind, given, " ".join(str(value(r, kind)) for _ in range(given * n)))


def shape(r):
    """An edit rate and a sampling rate for which an edit unit is short, and computing in double precision is exact enough"""
    while True:
        num, den = r.choice([(24, 1), (25, 1), (30, 1), (48, 1), (60, 1), (24000, 1001), (30000, 1001), (16, 1), (200, 11)])
        sampling = r.randint(1, 6 * num // den)
        exact = -(-sampling * den // num)
        if math.ceil(sampling / (num / den)) == exact:
            return num, den, sampling, exact


def new(k, num, den, sampling, channels, std, lang, enc, sync, mca, extra):
    return " ".join(str(x) for x in ["new", k, num, den, sampling, channels, std, lang, enc, sync, mca] + list(extra))


def c23(ctx):
    ctx.design("MCSound")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenSound")
    split = [c for c in cases if c["case"] == "split"]
    if ctx.quick:
        split = r.sample(split, 500)
    scripts = []
    for c in split:
        channels = r.randint(1, 4)
        enc = int(r.random() < .3)
        s = [new(1, 24, 1, 24 * c["length"], channels, r.choice(["smpte", "interop"]), "en-GB", enc, 0, r.randint(0, 1), [])]
        s += [write(r, 1, channels, n) for n in c["calls"]]
        s.append("finalize 1")
        if c["calls"]:
            s.append("read 1")
        scripts.append(s)
    for c in cases:
        if c["case"] == "labels":
            s = [new(1, 24, 1, 24, c["channels"], c["std"], r.choice(["en-GB", "de-DE", "fr", "zh-Hant"]), 0, 0, c["mca"], c["extra"])]
            scripts.append(s + [write(r, 1, c["channels"], 1), "finalize 1", "read 1"])
        elif c["case"] == "refused":
            scripts.append([new(1, 24, 1, 48000, c["channels"], c["std"], "en", 0, c["sync"], 1, c["extra"])])
    ctx.conform(e, "SoundTrace", scripts, what="spec-enumerated calls and labels")

    scripts = []
    for c in cases:
        if c["case"] == "sync":
            n = 48000 // c["rate"]
            whole, part, by = c["rows"]
            rows = n * whole + (0 if not part else n // by - (by == 1))
            if ctx.quick:
                rows = min(rows, n * max(2, 4 * c["rate"] // 96) + n // 2)
            s = [new(1, c["rate"], 1, 48000, r.randint(14, 16), "smpte", "en", r.randint(0, 1), 1, r.randint(0, 1), [])]
            while rows:
                m = min(rows, r.choice([n, 2 * n, n // 2, n + 1, 1, r.randint(1, 3 * n)]))
                s.append("tone 1 %d" % m)
                rows -= m
            scripts.append(s + ["finalize 1", "sync 1"])
    ctx.conform(e, "SoundTrace", scripts, what="synchronisation tracks")

    scripts = []
    for _ in range(ctx.n(400, 6000)):
        s = []
        num, den, sampling, length = shape(r)
        for k in (1, 2):
            channels = r.randint(1, 16)
            s.append(new(k, num, den, sampling, channels, r.choice(["smpte", "smpte", "interop"]), r.choice(["en-GB", "de", "pt-BR"]), r.randint(0, 1), 0, r.randint(0, 1),
                         sorted(r.sample([6, 7, 10, 11], r.randint(0, 4)))))
            total = r.randint(0, 5 * length)
            calls = []
            while total:
                n = r.randint(1, total)
                calls.append(write(r, k, channels, n))
                total -= n
            s += calls + ["finalize %d" % k] + (["read %d" % k] if calls else [])
        scripts.append(s)
    ctx.conform(e, "SoundTrace", scripts, what="random sounds")

    # a file that fails
    scripts = []
    for what in ("open", "frame", "finalize"):
        for nth in (1,) if what != "frame" else (1, 2, 3, 4):
            for error in ("ENOSPC", "EDQUOT", "EIO"):
                for enc in (0, 1):
                    rows, s = 7, []
                    for _ in range(rows):
                        s.append(write(r, 1, 2, 2))
                    # unit of four rows: three whole ones and the rest when it is finished
                    at = {"open": 0, "frame": min(7, nth * 2 - 1), "finalize": 7}[what]
                    s = [new(1, 24, 1, 96, 2, "smpte", "en", enc, 0, 0, [])] + s[:at] + ["fault %s %d %s" % (what, 1, error)] + s[at:at + 1]
                    if at == 7:
                        s.append("finalize 1")
                    scripts.append(s)
    ctx.conform(e, "SoundTrace", scripts, what="failures to store")

    # pairs that differ in one thing, or in nothing
    scripts = []
    for _ in range(ctx.n(300, 4000)):
        num, den, sampling, length = shape(r)
        channels = r.choice([r.randint(1, 6), r.randint(7, 12)])
        rows = r.randint(1, 3 * length)
        bits = r.choice([16, 24, 24])
        top = 1 << (bits - 1)
        data = [r.choice([0, 1, -1, top - 1, -top, r.randint(-top, top - 1)]) for _ in range(rows * channels)]
        other, what = list(data), r.choice(["same", "sample", "sample", "sample", "more", "channels", "sampling", "rate", "bits"])
        o = dict(num=num, den=den, sampling=sampling, channels=channels, bits=bits)
        tolerance = r.choice([0, 0, 1, 5])
        if what == "sample":
            for _ in range(r.randint(1, 2)):
                i = r.choice([0, len(data) - 1, r.randrange(len(data))])
                other[i] = max(-top, min(top - 1, data[i] + r.choice([-1, 1]) * r.choice([1, tolerance, tolerance + 1, 100000])))
        elif what == "more":
            other += [r.choice([0, 7])] * (channels * r.randint(1, length))
        elif what == "channels":
            o["channels"] += 1
            other = [0] * (rows * (channels + 1))
        elif what == "sampling":
            o["sampling"] += num // den if r.random() < .5 else 1
            if math.ceil(o["sampling"] / (num / den)) != -(-o["sampling"] * den // num):
                continue
        elif what == "rate":
            o["num"] *= 2
            o["sampling"] *= r.randint(1, 2)
            if math.ceil(o["sampling"] / (o["num"] / den)) != -(-o["sampling"] * den // o["num"]):
                continue
        elif what == "bits":
            o["bits"] = 40 - bits
            other = [max(-32768, min(32767, x)) for x in data]

        def sound(k, p, values):
            if p["bits"] == 16 or r.random() < .3:
                return ["foreign %d %d %d %d %d %d " % (k, p["num"], p["den"], p["sampling"], p["channels"], p["bits"]) + " ".join(map(str, values))]
            return [new(k, p["num"], p["den"], p["sampling"], p["channels"], "smpte", "en", r.randint(0, 1), 0, r.randint(0, 1), []),
                    "write %d i %d " % (k, p["channels"]) + " ".join(map(str, values)), "finalize %d" % k]
        s = sound(1, dict(num=num, den=den, sampling=sampling, channels=channels, bits=bits), data) + sound(2, o, other)
        if r.random() < .3:
            s += ["read 1", "read 2"]
        s += ["compare 1 2 %d 0" % tolerance, "compare 2 1 %d 0" % tolerance, "compare 1 2 0 1", "compare 1 1 0 0"]
        scripts.append(s)
    ctx.conform(e, "SoundTrace", scripts, what="pairs of sounds")
    return ctx.finish("model_checking", rule="design: every way of dividing rows into calls for several lengths of edit unit; conformance: the spec's calls, labels and synchronisation rates, and random sounds and pairs of sounds")
