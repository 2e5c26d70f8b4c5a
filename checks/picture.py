"""C24: pictures and immersive audio"""
from lib import vf

SIZES = [(1998, 1080), (2048, 858), (2048, 1080), (3996, 2160), (4096, 1716), (1920, 1080), (64, 32)]
RATES = [(24, 1), (25, 1), (30, 1), (48, 1), (60, 1), (24000, 1001), (96, 1)]


def exe():
    return vf.build_full("picture", "picture.cc")


class Film:
    def __init__(self, r, k, kind, enc=None, rate=None, params=None):
        self.k, self.kind, self.r = k, kind, r
        self.enc = r.randint(0, 1) if enc is None else enc
        self.width, self.height = r.choice(SIZES)
        if kind == "mpeg2":
            self.width, self.height = r.choice([(1920, 1080), (1280, 720), (640, 480)])
        self.std = {"mpeg2": "interop", "atmos": "smpte"}.get(kind) or r.choice(["smpte", "interop"])
        self.rate = rate or r.choice(RATES)
        self.params = params or [r.randint(0, 5), r.randint(1, 64), r.randint(1, 118), r.randint(1, 3)]
        self.size = {}

    def make(self):
        return "make %d %s %s %d %d %d %d %d %d %d" % (self.k, self.kind, self.std, self.rate[0], self.rate[1], self.enc, *self.params)

    def write(self, c, valid=1):
        n = self.size.setdefault(c, self.r.choice([60, 61, 120, self.r.randint(60, 2000), self.r.randint(2000, 40000) if self.r.random() < .1 else 99]))
        return "write %d %d %d %d %d %d" % (self.k, c, self.width, self.height, n, valid)


def c24(ctx):
    ctx.design("MCPicture")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenPicture")
    resumes = [c for c in cases if c["case"] == "resume"]
    if ctx.quick:
        resumes = r.sample(resumes, 400)
    scripts = []
    for c in resumes:
        f = Film(r, 1, c["kind"], c["enc"])
        contents = [r.randint(1, 90) for _ in range(c["frames"])]
        s = [f.make(), "start 1 0"]
        done = 0
        for stop in c["stops"]:
            s += [f.write(contents[i]) for i in range(done, stop["at"])] + ["crash 1", "start 1 1", f.write(contents[0])] + ["skip 1"] * (stop["keep"] - 1)
            done = stop["keep"]
        s += [f.write(contents[i]) for i in range(done, c["frames"])] + ["finalize 1"]
        if c["kind"] == "mono" or c["frames"] % 2 == 0:
            s += ["read 1"]
        scripts.append(s)
    for c in cases:
        if c["case"] == "fault":
            for error in ("ENOSPC", "EDQUOT", "EIO"):
                f = Film(r, 1, c["kind"], c["enc"])
                s = [f.make(), "start 1 0"]
                for i in range(4):
                    if c["what"] == "open" and i == 0 or c["what"] == "frame" and i == c["nth"]:
                        s += ["fault %s 1 %s" % (c["what"], error), f.write(r.randint(1, 90))]
                        if c["what"] == "open":
                            break
                    s.append(f.write(r.randint(1, 90)))
                else:
                    if c["what"] == "finalize":
                        s.append("fault finalize 1 %s" % error)
                    s.append("finalize 1")
                    if c["what"] == "frame":
                        s.append("read 1")
                scripts.append(s)
    ctx.conform(e, "PictureTrace", scripts, what="interrupted writing and failures")

    scripts = []
    for _ in range(ctx.n(500, 6000)):
        kind = r.choice(["mono", "mono", "stereo", "mpeg2", "atmos"])
        f = Film(r, 1, kind)
        s = [f.make(), "start 1 0"]
        n = r.choice([0, 1, 1, 2, r.randint(1, 8), r.randint(1, 30)]) * (2 if kind == "stereo" else 1)
        for i in range(n):
            if kind in ("mono", "stereo") and r.random() < .05:
                s.append(f.write(r.randint(1, 90), 0))
            if i and r.random() < .03 and kind in ("mono", "stereo"):
                s.append("fault frame 1 %s" % r.choice(["ENOSPC", "EIO", "EDQUOT"]))
                s.append(f.write(r.randint(1, 90)))
            s.append(f.write(r.randint(1, 90)))
        s.append("finalize 1")
        if n:
            s.append("read 1")
            if kind != "atmos":
                edits = n // 2 if kind == "stereo" else n
                for _ in range(r.randint(0, 3)):
                    s.append("tamper 1 %d %d" % (r.randint(1, edits), r.choice([0, 1000, r.randint(0, 1000)])))
        scripts.append(s)
    for kind, n in (("mono", 1400000), ("mono", 3900000), ("stereo", 1400000), ("stereo", 3900000), ("mpeg2", 900000), ("atmos", 900000)):
        f = Film(r, 1, kind)
        f.size = {1: n, 2: 100, 3: n - r.randint(0, 100)}
        scripts.append([f.make(), "start 1 0"] + [f.write(c) for c in (2, 1, 3, 2)] + ["finalize 1", "read 1"])
    ctx.conform(e, "PictureTrace", scripts, what="random pictures and immersive audio")

    # frames that can be decoded, so that what differs can be measured
    scripts = []
    for _ in range(ctx.n(200, 2500)):
        kind = r.choice(["mono", "mono", "stereo"])
        eyes = 2 if kind == "stereo" else 1
        n = r.randint(1, 5) * eyes
        a = [r.randint(1, 6) for _ in range(n)]
        b, kind2, rate2 = list(a), kind, None
        rate = r.choice(RATES)
        what = r.choice(["same", "frame", "frame", "frame", "length", "length", "rate", "kind"])
        if what == "frame":
            for _ in range(r.randint(1, 2)):
                i = r.choice([0, n - 1, r.randrange(n)])
                b[i] = r.choice([r.randint(1, 6), a[i] % 10 + 10 * r.choice([1, 1, 2, 2, 3, 4, 7, 9])])
        elif what == "length":
            b += [r.randint(1, 6) for _ in range(eyes * r.randint(1, 2))]
        elif what == "rate":
            rate2 = r.choice([x for x in RATES if x != rate])
        elif what == "kind":
            kind2 = "stereo" if kind == "mono" else "mono"
            b = b + b if kind2 == "stereo" else b
        s = []
        for k, (d, frames, rt) in enumerate([(kind, a, rate), (kind2, b, rate2 or rate)], 1):
            f = Film(r, k, d, rate=rt)
            f.size = {c: 0 for c in range(100)}
            s += [f.make(), "start %d 0" % k] + [f.write(c) for c in frames] + ["finalize %d" % k]
        for _ in range(2):
            mean, dev = r.choice([(r.randint(0, 2000), 5000000), (5000000, r.choice([30, 500, 700, 900, 1000, 1300, 1700])), (5000000, r.choice([30, 500, 700, 900, 1000, 1300, 1700])), (0, 0), (0, 0), (5000000, 5000000), (r.randint(0, 2000000), 5000000), (5000000, r.randint(0, 2000000)), (r.randint(0, 2000000), r.randint(0, 2000000))])
            s += ["compare 1 2 %d %d %d" % (mean, dev, r.randint(0, 1)), "compare 2 1 %d %d %d" % (mean, dev, r.randint(0, 1))]
        s.append("compare 1 1 0 0 0")
        scripts.append(s)
    ctx.conform(e, "PictureTrace", scripts, what="pairs of pictures")
    return ctx.finish("model_checking", rule="design: every crash point while frames are stored cell by cell, taken up any number of times; conformance: the spec's interruptions and failures, and random pictures and pairs of pictures")
