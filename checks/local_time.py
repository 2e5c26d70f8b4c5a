"""C01-C03: timestamps"""
import calendar
from lib import vf
from lib.vf import hexs

SRC = ["local_time", "utc_offset", "exceptions", "locale_convert"]


def exe():
    return vf.build("local_time", "local_time.cc", SRC)


def s8(t):
    return " ".join(map(str, t))


def rand_date(r, lo=1401, hi=9997):
    y = r.choice([r.randint(lo, hi), r.randint(1965, 2040), r.choice([1600, 1700, 1900, 2000, 2024, 2096, 2100, 2400])])
    m = r.randint(1, 12)
    last = calendar.monthrange(y, m)[1]
    return y, m, r.choice([1, last, last, r.randint(1, last)])


def rand_stamp(r, lo=1401, hi=9997):
    return list(rand_date(r, lo, hi)) + [r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]),
                                         r.choice([0, 999, r.randint(0, 999)]), rand_off(r)]


def rand_off(r):
    return r.choice([0, r.randint(-719, 779), r.randint(-59, 59), r.choice([-719, 779, 720, 60, -60])])


def batch(lines, n=50):
    return [lines[i:i + n] for i in range(0, len(lines), n)]


def rand_text(r):
    t = rand_stamp(r, 1000, 9999 - 2) if r.random() < .8 else [r.randint(0, 9999), r.randint(0, 19), r.randint(0, 39), r.randint(0, 29), r.randint(0, 69), r.randint(0, 69), 0, rand_off(r)]
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(t[:6])
    if r.random() < .6:
        s += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 8)))
    z = r.random()
    if z < .6:
        o = t[7]
        s += "%s%02d:%02d" % ("-" if o < 0 else "+", abs(o) // 60, abs(o) % 60)
    elif z < .8:
        s += "Z"
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        i = r.randint(0, len(s) - 1)
        k = r.random()
        c = r.choice("0123456789+-:.TZ xé/%,\t")
        s = s[:i] + c + s[i + 1:] if k < .5 else s[:i] + s[i + 1:] if k < .75 else s[:i] + c + s[i:]
        if not s:
            break
    return s


def gen(ctx, what):
    return ctx.generate("GenLocalTime", env={"WHAT": what})


def c01(ctx):
    ctx.design("MCLocalTime", None if ctx.quick else "MCLocalTimeAll.cfg")
    e = exe()
    lines = []
    for c in gen(ctx, "C01"):
        lines.append("make " + s8(c["t"]) if c["k"] == "make" else "parse " + (bytes(c["s"]).hex() or "-"))
    ctx.conform(e, "LocalTimeTrace", batch(lines), what="spec-enumerated")
    r = ctx.rng
    lines = []
    for _ in range(ctx.n(6000, 60000)):
        if r.random() < .35:
            lines.append("make " + s8(rand_stamp(r)))
        elif r.random() < .1:
            t = rand_stamp(r)
            lines.append("minute_make " + s8(t[:5] + [0, 0] + t[7:]))
        else:
            lines.append("parse " + hexs(rand_text(r)))
    ctx.conform(e, "LocalTimeTrace", batch(lines), what="random")
    # times made without a zone take the one of the process
    for off in [0, 60, 330, -570, -30, 45] + [rand_off(r) for _ in range(ctx.n(2, 20))]:
        a = -off
        tz = "VRF%s%d:%02d" % ("-" if a < 0 else "+", abs(a) // 60, abs(a) % 60)
        lines = []
        for _ in range(40):
            t = rand_stamp(r)
            if r.random() < .5:
                t[6] = 0
            lines.append("local " + s8(t[:7] + [off]) + (" tm" if t[6] == 0 else " ptime"))
        ctx.conform(e, "LocalTimeTrace", [lines], env={"TZ": tz}, what="TZ=" + tz, samples=0)
    return ctx.finish("model_checking", rule="design: calendar walk, text round trip, order over boundary stamps; conformance: spec-enumerated grammar and "
                      "single-character damage, plus seeded random stamps and texts; non-trivial = distinct texts or stamps")


def c02(ctx):
    ctx.design("MCLocalTime")
    e = exe()
    lines = ["cmp %s %s" % (s8(c["a"]), s8(c["b"])) for c in gen(ctx, "C02")]
    ctx.conform(e, "LocalTimeTrace", batch(lines), what="spec-enumerated")
    r = ctx.rng
    lines = []
    for _ in range(ctx.n(10000, 150000)):
        a = rand_stamp(r)
        if r.random() < .3:
            b = rand_stamp(r)
        else:
            # near: same civil time or a few fields changed, other zone
            b = list(a)
            for _ in range(r.randint(0, 2)):
                k = r.randint(0, 6)
                b[k] = {0: min(9997, a[0] + r.randint(0, 1)), 1: r.randint(1, 12), 2: r.randint(1, 28), 3: r.randint(0, 23), 4: r.randint(0, 59), 5: r.randint(0, 59), 6: r.randint(0, 999)}[k]
            b[2] = min(b[2], calendar.monthrange(b[0], b[1])[1])
            b[7] = rand_off(r)
            if r.random() < .4:
                b = shift(a, r.choice([0, 0, 1, -1, 1000, -1000, 60000, -60000, 3600000, -3600000, 86400000]), b[7])
        lines.append("cmp %s %s" % (s8(a), s8(b)))
    ctx.conform(e, "LocalTimeTrace", batch(lines), what="random")
    return ctx.finish("model_checking", rule="all pairs over boundary dates x times x offsets, near-equal instants in two zones, seeded random pairs")


def shift(a, ms, off):
    """a's instant plus ms, expressed in another zone (only used to make inputs)"""
    import datetime as dt
    d = dt.datetime(*a[:6], a[6] * 1000) - dt.timedelta(minutes=a[7]) + dt.timedelta(milliseconds=ms) + dt.timedelta(minutes=off)
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond // 1000, off]


def c03(ctx):
    ctx.design("MCLocalTime", None if ctx.quick else "MCLocalTimeAll.cfg")
    e = exe()
    scripts = [["new " + s8(c["t"])] + ["%s %d" % (o[0], o[1]) for o in c["ops"]] for c in gen(ctx, "C03")]
    ctx.conform(e, "LocalTimeTrace", scripts, what="spec-enumerated")
    r = ctx.rng
    scripts = []
    for _ in range(ctx.n(600, 6000)):
        s = ["new " + s8(rand_stamp(r, 2400, 8500))]
        for _ in range(r.randint(1, 12)):
            k = r.randint(0, 6)
            if k == 0:
                s.append("add_days %d" % r.choice([r.randint(-400, 400), r.randint(-20000, 20000), r.choice([0, 1, -1])]))
            elif k == 1:
                s.append("add_months %d" % r.choice([r.randint(-30, 30), r.randint(-600, 600), r.choice([0, 1, -1, 12])]))
            elif k == 2:
                s.append("add_minutes %d" % r.choice([r.randint(-100, 100), r.randint(-2000000, 2000000), r.choice([0, 1, -1])]))
            elif k in (3, 4):
                s.append("add %d %d %d %d" % (r.choice([0, r.randint(-5000, 5000)]), r.randint(-30, 30), r.randint(-90, 90), r.choice([0, 1, -1, 999, r.randint(-5000000, 5000000)])))
            else:
                s.append("set_offset %d" % rand_off(r))
        scripts.append(s)
    # the ends of the calendar
    for y, sign in ((1400, 1), (9999, -1)):
        for _ in range(20):
            scripts.append(["new %d 6 15 12 0 0 0 0" % y] + ["add_days %d" % (sign * r.randint(0, 30)) for _ in range(3)] + ["add_months %d" % (sign * r.randint(0, 5))])
    ctx.conform(e, "LocalTimeTrace", scripts, what="random histories")
    lines = []
    for _ in range(ctx.n(1500, 15000)):
        y, m, d = rand_date(r, 1950, 2049)
        h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
        z = r.choice(["Z", "Z", ""])
        yy = r.choice([y % 100, r.choice([0, 69, 70, 99])])
        d = min(d, 28 if m == 2 else d)
        lines.append("asn1 utc " + hexs("%02d%02d%02d%02d%02d%02d%s" % (yy, m, d, h, mi, s, z)))
        y, m, d = rand_date(r)
        lines.append("asn1 generalized " + hexs("%04d%02d%02d%02d%02d%02d%s" % (y, m, d, h, mi, s, z)))
        y, m, d = rand_date(r, 1970, 9997)
        if y >= 1970:
            lines.append("epoch " + s8([y, m, d, h, mi, s, r.randint(0, 999), 0]))
    for t in ([1970, 1, 1, 0, 0, 0, 0, 0], [1970, 1, 1, 0, 0, 1, 999, 0], [2038, 1, 19, 3, 14, 7, 0, 0], [2038, 1, 19, 3, 14, 8, 0, 0], [2106, 2, 7, 6, 28, 16, 0, 0], [9999, 12, 31, 23, 59, 59, 0, 0]):
        lines.append("epoch " + s8(t))
    ctx.conform(e, "LocalTimeTrace", batch(lines), what="certificate times and epoch")
    return ctx.finish("model_checking", rule="every script of two additions from boundary dates, seeded random histories of up to twelve operations, random certificate times")
