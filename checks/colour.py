"""C13-C16: transfer functions and colour conversions"""
from fractions import Fraction
from lib import vf

SOURCES = ["transfer_function", "gamma_transfer_function", "modified_gamma_transfer_function", "identity_transfer_function", "s_gamut3_transfer_function",
           "colour_conversion", "chromaticity", "exceptions", "locale_convert"]
GAMMAS = [(11, 5), (12, 5), (13, 5), (2, 1), (1, 1), (9, 4), (3, 2)]
SRGB = (12, 5, 4045, 55, 1292)
REC709 = (20, 9, 8100, 99, 450)


def exe():
    return vf.build("colour", "colour.cc", SOURCES)


def exe_asan():
    return vf.build("colour_asan", "colour.cc", SOURCES, flags=["-fsanitize=address", "-fno-omit-frame-pointer"])


def exe_tsan():
    return vf.build("colour_tsan", "colour.cc", SOURCES, flags=["-fsanitize=thread", "-fno-omit-frame-pointer"])


def req(integer, a, b, den, bits, inv, scale):
    return "%s %d %d %d %d %d %d" % ("i" if integer else "d", a, b, den, bits, inv, scale)


def rand_req(r, probe):
    """Few values, so that requests often differ in one thing, or are the same"""
    if r.random() < .3:
        # ranges that are nearly the same; numbers small enough for large scales
        return (r.random() < .5, r.randint(0, 40), r.randint(0, 40), 2048, r.choice([1, 2, 3]), r.randint(0, 1), r.choice([1, 255, 4095, 20000, 65535]))
    a, b = r.choice([(0, 8), (0, 4), (4, 8), (0, 0), (8, 0), (1, 8), (0, 1), (4, 0)])
    return (r.random() < .5, a, b, 8, r.choice([1, 2, 3, 4]), r.randint(0, 1), r.choice([1, 2, 3, 255, 1000, 4]))


def c13(ctx):
    ctx.design("MCTables")
    r = ctx.rng
    scripts = []
    keys = [(i, a, b, 64, n, inv, s) for i in (False, True) for a, b in ((0, 64), (64, 0), (0, 32), (32, 32), (1, 64), (0, 63)) for n in (1, 2, 3) for inv in (0, 1) for s in ((1, 2, 3, 1000) if i else (1,))]
    # every ordered pair of requests of the probe that differ in at most one thing
    pairs = [(p, q) for p in keys for q in keys if sum(x != y for x, y in zip(p, q)) <= (1 if ctx.quick else 2) or (p[1], p[2]) == (q[2], q[1])]
    r.shuffle(pairs)
    for k in range(0, len(pairs), 10):
        s = []
        for n, (p, q) in enumerate(pairs[k:k + 10]):
            s += ["new %d probe" % n, "ask %d %s" % (n, req(*p)), "ask %d %s" % (n, req(*q)), "ask %d %s" % (n, req(*p)), "again %d" % n]
        scripts.append(s)
    ctx.notes["request_pairs"] = len(pairs)
    curves = ["probe", "gamma 11 5", "gamma 13 5", "mod 12 5 4045 55 1292", "id", "sg"]
    for _ in range(ctx.n(150, 2000)):
        s = []
        for k in range(3):
            s.append("new %d %s" % (k, r.choice(curves)))
        for _ in range(r.randint(5, 30)):
            k = r.randint(0, 2)
            s.append("ask %d %s" % (k, req(*rand_req(r, True))))
            if r.random() < .15:
                s.append("again %d" % r.randint(0, 2))
        s += ["again %d" % k for k in range(3)]
        scripts.append(s)
    # many tables of one object: the store grows, what was handed out stays
    for c in curves[:2]:
        s = ["new 0 " + c]
        for a in range(9):
            for b in range(9):
                s.append("ask 0 " + req(False, a, b, 8, 2, 0, 1))
        s.append("again 0")
        scripts.append(s)
    ctx.conform(exe_asan(), "TablesTrace", scripts, what="one thread")
    scripts = []
    for _ in range(ctx.n(60, 600)):
        s = ["new 0 " + r.choice(curves)]
        for _ in range(3):
            n = r.choice([2, 3, 4, 8])
            pool = [rand_req(r, True) for _ in range(r.choice([2, 4, 10]))]
            s.append("threads 0 %d %s" % (n, " ".join(req(*r.choice(pool)) for _ in range(n * r.randint(1, 6)))))
        s.append("again 0")
        scripts.append(s)
    env = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}
    ctx.conform(exe_tsan(), "TablesTrace", scripts, env=env, what="several threads")
    return ctx.finish("model_checking", rule="every pair of requests that differ in at most one parameter, asked in each order on one object; random histories of requests on three objects, "
                      "with everything handed out looked at again (AddressSanitizer); up to eight threads asking one object at once (ThreadSanitizer)")


def modified(r):
    """Parameters of a modified curve that do not step down at the break"""
    u, v = r.choice(GAMMAS[:4] + [(20, 9), (5, 2)])
    if u == v:
        u, v = 2, 1
    thr = r.randint(500, 12000)
    A = r.randint(10, 200)
    x = thr / 100000
    a = A / 1000
    y = ((x + a) / (1 + a)) ** (u / v)
    B = int(x / y * 100) + 1
    return (u, v, thr, A, B)


def curve_word(c):
    return c if isinstance(c, str) else ("gamma %d %d" % c if len(c) == 2 else "mod %d %d %d %d %d" % c)


def breaks(c, inv):
    if isinstance(c, str):
        return [Fraction(1712102946929, 10 ** 10) / 1023 if not inv else Fraction(1125, 100000)] if c == "sg" else []
    if len(c) == 2:
        return []
    t = Fraction(c[2], 100000)
    return [t / Fraction(c[4], 100)] if inv else [t]


def c14(ctx):
    ctx.design("MCCurves")
    e = exe()
    r = ctx.rng
    curves = ["id", "sg", SRGB, REC709] + GAMMAS
    scripts = []

    def table(c, inv, a, b, den, bits, want):
        m = 2 ** bits - 1
        bad = breaks(c, inv)
        want = [i for i in sorted(set(want)) if 0 <= i <= m and not any(Fraction(a, den) + Fraction(b - a, den) * Fraction(i, m) == t for t in bad)]
        return "table %s %d %d %d %d %d %s" % (curve_word(c), inv, a, b, den, bits, " ".join(map(str, want)))
    # small tables in full, over the whole range and parts of it, forwards and backwards
    for c in curves:
        for inv in (0, 1):
            for a, b in ((0, 8), (1, 8), (2, 5), (0, 1), (8, 0), (7, 3), (3, 3), (0, 3), (4, 8)):
                for bits in (1, 2, 3, 4):
                    scripts.append([table(c, inv, a, b, 8, bits, range(2 ** bits))])
    # large ones at the ends, around the break, and here and there
    for c in curves + [modified(r) for _ in range(ctx.n(20, 300))]:
        for inv in (0, 1):
            for bits in (8, 10, 12) + (() if c == "sg" else (16,)):
                m = 2 ** bits - 1
                for a, b, den in ((0, 1, 1), (1, 10, 10)):
                    if c == "sg" and den * m > 1000000:
                        continue
                    w = [0, 1, 2, m // 2, m - 1, m] + [r.randint(0, m) for _ in range(4)]
                    for t in breaks(c, inv):
                        k = int((t - Fraction(a, den)) / Fraction(b - a, den) * m)
                        w += [k - 1, k, k + 1, k + 2]
                    scripts.append([table(c, inv, a, b, den, bits, w)])
    for c in curves + [modified(r) for _ in range(ctx.n(10, 100))]:
        den = 1000
        s = []
        for n in [0, 1, 2, 5, 10, 40, 41, 80, 82, 166, 167, 168, 500, 999, 1000] + [r.randint(0, den) for _ in range(10)]:
            if not any(Fraction(n, den) == t for t in breaks(c, 0)):
                s.append("trip %s %d %d" % (curve_word(c), n, den))
        scripts.append(s)
    for _ in range(ctx.n(120, 1500)):
        c = r.choice([x for x in curves if x != "sg"])
        inv = r.randint(0, 1)
        bn, bd = r.choice([(1, 4), (1, 64), (31, 1000), (1, 100), (1, 2), (7, 8)])
        low, high = r.choice([(12, 12), (8, 8), (12, 16), (4, 10), (16, 12), (2, 3)])
        d = 10000
        b = bn * d // bd
        ns = {0, 1, d - 1, d, b, max(0, b - 1), b + 1} | {r.randint(0, d) for _ in range(8)} | {r.randint(0, max(1, b)) for _ in range(4)}
        scripts.append(["piece %s %d %d %d %d %d %d %d %s" % (curve_word(c), inv, bn, bd, low, high, r.choice([1, 255, 4095, 65535]), d, " ".join(map(str, sorted(ns))))])
    ctx.conform(e, "CurvesTrace", scripts, what="tables")
    return ctx.finish("model_checking", rule="all entries of small tables for every curve, direction and nine ranges; entries at the ends, around the break and at random of tables to 16 bits, for the "
                      "standard curves and random ones; round trips; piecewise tables around their break")


def triangle(r):
    """Primaries and a white well inside"""
    while True:
        p = [(r.randint(5000, 75000), r.randint(2000, 85000)) for _ in range(3)]
        if any(x + y > 99000 for x, y in p):
            continue
        (ax, ay), (bx, by), (cx, cy) = p
        area = (bx - ax) * (cy - ay) - (cx - ax) * (by - ay)
        if abs(area) < 5 * 10 ** 8:
            continue
        t = [r.uniform(.15, .7) for _ in range(3)]
        w = (int(sum(t[i] * p[i][0] for i in range(3)) / sum(t)), int(sum(t[i] * p[i][1] for i in range(3)) / sum(t)))
        if w[1] < 15000:
            continue
        return p + [w]


def c15(ctx):
    ctx.design("MCMatrices")
    e = exe()
    r = ctx.rng
    scripts = [["preset %d" % k] for k in range(9)]
    whites = [(31270, 32900), (31400, 35100), (32168, 33767), (34567, 35850), (33333, 33333), (44757, 40745)]
    sets = [[(64000, 33000), (30000, 60000), (15000, 6000)], [(68000, 32000), (26500, 69000), (15000, 6000)], [(70800, 29200), (17000, 79700), (13100, 4600)], [(73000, 28000), (14000, 85500), (10000, -5000)]]
    for s in sets:
        for w in whites[:5]:
            flat = s + [w]
            scripts.append(["matrix " + " ".join("%d %d" % c for c in flat)])
            for a in whites:
                scripts.append(["matrix " + " ".join("%d %d" % c for c in flat + [a])])
    for _ in range(ctx.n(300, 4000)):
        t = triangle(r)
        s = ["matrix " + " ".join("%d %d" % c for c in t)]
        a = r.choice(whites + [(r.randint(20000, 45000), r.randint(20000, 45000)), t[3]])
        s.append("matrix " + " ".join("%d %d" % c for c in t + [a]))
        # the same primaries in another order
        o = t[:3]
        r.shuffle(o)
        s.append("matrix " + " ".join("%d %d" % c for c in o + [t[3]]))
        scripts.append(s)
    ctx.conform(e, "ColourTrace", scripts, what="matrices")
    return ctx.finish("model_checking", rule="the nine presets, four sets of primaries with five whites and six adjusted whites, random non-degenerate primaries and whites in different orders")


FIELDS = ("in", "pin", "out", "pout", "chroma", "adjusted", "yuv")


def setting_words(s):
    adj = s["adjusted"]
    return " ".join([s["in"]] + [str(x) for x in s["pin"]] + [s["out"]] + [str(x) for x in s["pout"]] + [str(x) for x in s["chroma"]] +
                    (["1"] + [str(x) for x in adj] if adj else ["0", "0", "0"]) + [str(s["yuv"])])


def c16(ctx):
    ctx.design("MCSettings")
    e = exe()
    r = ctx.rng
    scripts = []
    cases = ctx.generate("GenSettings")
    for k in range(0, len(cases), 20):
        scripts.append(["equal %d %d %s %s" % (r.randint(0, 3), c["eps"], setting_words(c["x"]), setting_words(c["y"])) for c in cases[k:k + 20]])
    ctx.conform(e, "SettingsTrace", scripts, what="spec-enumerated")
    scripts = []
    for _ in range(ctx.n(300, 4000)):
        eps = r.choice([10, 100, 1000, 20000])
        kinds = ["gamma", "mod", "id", "sg"]
        x = {"in": r.choice(kinds), "pin": [r.randint(1000000, 3000000), r.randint(10000, 90000), r.randint(10000, 90000), r.randint(4000000, 14000000)],
             "out": r.choice(kinds + ["none"]), "pout": [r.randint(1000000, 3000000), r.randint(10000, 90000), r.randint(10000, 90000), r.randint(4000000, 14000000)],
             "chroma": [r.randint(50000, 800000) for _ in range(8)], "adjusted": r.choice([[], [r.randint(200000, 400000), r.randint(200000, 400000)]]), "yuv": r.randint(0, 2)}
        y = {k: (list(v) if isinstance(v, list) else v) for k, v in x.items()}
        for _ in range(r.randint(0, 4)):
            f = r.choice(["pin", "pout", "chroma", "adjusted"])
            if y[f]:
                k = r.randrange(len(y[f]))
                y[f][k] += r.choice([eps // 2, -eps // 2, eps * 2, -eps * 2, eps * 50])
        # nothing exactly at the tolerance, where rounding decides
        if any(abs(abs(p - q) - eps) * 20 < eps for f in ("pin", "pout", "chroma", "adjusted") for p, q in zip(x[f], y[f])):
            continue
        scripts.append(["equal %d %d %s %s" % (r.randint(0, 3), eps, setting_words(x), setting_words(y))])
    ctx.conform(e, "SettingsTrace", scripts, what="random")
    return ctx.finish("model_checking", rule="every pair of kinds of curve, every parameter moved by less and by more than the tolerance in each combination of kinds, pairs of parameters moved in opposite "
                      "directions, random settings with up to four differences")
