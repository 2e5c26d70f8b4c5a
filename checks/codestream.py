"""C28: what is said about the codestreams of pictures"""
from lib import vf


def exe():
    return vf.build_full("codestream", "codestream.cc")


def check(b, r=None):
    start, frame, rate = (r.choice([0, 24, 1000]), r.randrange(50), r.choice([24, 24, 25, 30, 48, 60])) if r else (100, 5, 24)
    return ["check %d %d %d %s" % (start, frame, rate, " ".join(map(str, b)))]


def segments(b):
    """Where segments of a codestream that has nothing wrong with it begin"""
    p, s = 0, []
    while p < len(b):
        s.append(p)
        m = b[p + 1]
        if m == 0x4f or m == 0xd9:
            p += 2
        elif m == 0x93:
            p += 2
            while b[p] != 0xff or b[p + 1] < 0x90:
                p += 1
        else:
            p += 2 + b[p + 2] * 256 + b[p + 3]
    return s + [len(b)]


def spoiled(r, b):
    """A codestream with a few things done to it"""
    b = list(b)
    s = segments(b)
    parts = [b[x:y] for x, y in zip(s, s[1:])]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        i = r.randrange(len(parts))
        if k < .15 and len(parts) > 1:
            parts.pop(i)
        elif k < .3:
            parts.insert(i, list(r.choice(parts)))
        elif k < .4:
            j = r.randrange(len(parts))
            parts[i], parts[j] = parts[j], parts[i]
        elif parts[i]:
            # the lengths of COD and COC mean nothing to anyone
            lo = 4 if parts[i][:2] in ([255, 0x52], [255, 0x53]) and r.random() < .9 else 0
            if lo < len(parts[i]):
                parts[i][r.randrange(lo, len(parts[i]))] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 16, 32, 64, 96, 119, 127, 128, 136, 255, r.randrange(256)])
    b = sum(parts, [])
    if r.random() < .1:
        b = b[:r.randrange(len(b) + 1)]
    return b


def c28(ctx):
    ctx.design("MCCodestream")
    e = exe()
    r = ctx.rng
    cases = [c["b"] for c in ctx.generate("GenCodestream")]
    proper = []
    for c in cases:
        try:
            s = segments(c)
            if s[-1] == len(c) and [c[x + 1] for x in s[:3]] == [0x4f, 0x51, 0x52] and c[-2:] == [0xff, 0xd9]:
                proper.append(c)
        except IndexError:
            pass
    ctx.conform(e, "CodestreamTrace", [check(c) for c in cases], what="codestreams with one thing wrong or an early end")
    ctx.conform(e, "CodestreamTrace", [check(spoiled(r, r.choice(proper)), r) for _ in range(ctx.n(6000, 40000))], what="codestreams with anything wrong")
    made = ["made 0 %d %d %d %d %d %d %d" % (r.randrange(9), rate, w, h, stereo, w > 2048, r.randrange(99)) for rate in (24, 25, 30) for w, h in ((48, 32), (64, 64), (96, 40), (2080, 64)) for stereo in (0, 1)]
    ctx.conform(e, "CodestreamTrace", [[m] for m in made], what="codestreams that the library makes")
    return ctx.finish("model_checking", rule="what is said of a codestream is what the specification's reading of its bytes gives")
