"""C17: times within a film"""
from lib import vf
from checks.local_time import batch


def exe():
    return vf.build_full("timecode", "timecode.cc")


RATES = [1, 24, 25, 30, 48, 50, 60, 99, 120, 249, 250, 251, 999, 1000]


def c17(ctx):
    ctx.design("MCTimecode")
    e = exe()
    r = ctx.rng
    pairs, texts = [], []
    for c in ctx.generate("GenTimecode"):
        if c["kind"] == "pair":
            pairs.append(["set 1 %d %d %d %d %d" % tuple(c["a"]), "set 2 %d %d %d %d %d" % tuple(c["b"]), "compare 1 2", "add 1 2 3", "compare 1 3", "sub 3 2 4", "compare 4 1",
                          "rebase 1 %d 5" % r.choice(RATES), "units 1 %d" % r.choice(RATES), "ratio 1 2", "write 1 0", "write 1 1"])
        else:
            texts += ["parse 1 %d %s" % (q, bytes(c["s"]).hex() or "-") for q in (0, 24, 250)]
    if ctx.quick:
        pairs = r.sample(pairs, 2500)
    ctx.conform(e, "TimecodeTrace", pairs, what="spec-enumerated pairs")
    ctx.conform(e, "TimecodeTrace", batch(texts, 60), what="spec-enumerated texts")

    def time(rate=None, hours=99):
        q = rate or r.choice(RATES + [r.randint(1, 1200)])
        return (r.choice([0, 1, r.randint(0, hours)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, q - 1, q // 2, r.randint(0, q - 1)]), q)
    scripts = []
    for _ in range(ctx.n(1500, 15000)):
        q, q2 = r.choice(RATES), r.choice(RATES)
        s = ["set 1 %d %d %d %d %d" % time(q, 5), "set 2 %d %d %d %d %d" % time(q2, 5), "set 3 %d %d %d %d %d" % time(q, 5)]
        for k in range(r.randint(2, 10)):
            x = r.random()
            # register 1 and 3 keep rate q, so sums stay in it
            if x < .3:
                s.append("add %d %d 1" % tuple(r.choice([(1, 3), (3, 3), (3, 1)])))
            elif x < .45:
                s += ["add 1 2 4", "sub 4 2 5", "compare 5 1", "compare 4 1"]
            elif x < .6:
                s += ["rebase %d %d 6" % (r.choice([1, 2, 3]), r.choice(RATES)), "compare 6 1", "units 6 %d" % r.choice(RATES)]
            elif x < .7:
                s += ["units %d %d" % (r.choice([1, 2, 3]), r.randint(1, 1200)), "compare 1 2", "compare 2 3", "compare 1 3"]
            elif x < .8:
                s.append("ratio %d %d" % tuple(r.sample([1, 2, 3], 2)))
            elif x < .9:
                num, den = r.choice([(24, 1), (25, 1), (30, 1), (48, 1), (24000, 1001), (30000, 1001), (60, 1)])
                n = r.choice([r.randint(0, 3000), r.randint(0, 2000000), 3600 * num // den - 1, 60 * num // den - 1, 60 * num // den])
                s.append("frames %d %d %d %d 6" % (n, num, den, r.choice(RATES)))
            elif x < .97:
                s += ["millis %d %d 6" % (r.choice([r.randint(0, 2000000000), r.randint(0, 100000), 60000 * r.randint(0, 600) - 1 + 60000, 999]), r.choice(RATES)), "write 6 %d" % r.randint(0, 1)]
            else:
                q3 = r.choice([24, 25, 250, 999])
                t = time(q3)
                s += ["parse 7 %d %s" % (q3, vf.hexs("%02d:%02d:%02d:%02d" % t[:4])), "write 7 0", "write 7 1", "parse 8 0 %s" % vf.hexs("%02d:%02d:%02d.%03d" % t[:4]), "compare 7 8"]
        # a ratio needs something to divide by
        scripts.append([x for x in s if not x.startswith("ratio")] if any(x.split()[2:6] == ["0", "0", "0", "0"] for x in s[:3]) else s)
    ctx.conform(e, "TimecodeTrace", scripts, what="random histories")
    return ctx.finish("model_checking", rule="design: every pair of times around every carry at five rates; conformance: the spec's pairs at six rates, damaged texts, random histories over registers")
