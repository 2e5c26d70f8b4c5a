"""C08-C12: bit streams, the synchronisation tone, name templates, scope guards, named values"""
from lib import vf
from lib.vf import hexs
from checks.local_time import batch


def exe_bits():
    return vf.build("bitstream", "bitstream.cc", ["bitstream", "exceptions", "locale_convert"])


def exe_fsk():
    return vf.build("fsk", "fsk.cc", ["fsk"])


def exe_name(windows=False):
    return vf.build("name_format" + ("_windows" if windows else ""), "name_format.cc", ["name_format"], flags=["-DLIBDCP_WINDOWS"] if windows else [])


def exe_guard():
    return vf.build("scope_guard", "scope_guard.cc", [])


def exe_named():
    return vf.build("named_values", "named_values.cc", ["content_kind", "h_align", "v_align", "subtitle_standard", "exceptions", "locale_convert"])


def c08(ctx):
    ctx.design("MCBitstream")
    e = exe_bits()
    scripts = [[" ".join(map(str, o)) for o in c["ops"]] for c in ctx.generate("GenBitstream")]
    ctx.conform(e, "BitstreamTrace", scripts, what="spec-enumerated")
    r = ctx.rng
    scripts = []
    for _ in range(ctx.n(700, 8000)):
        s, running = [], False
        for _ in range(r.randint(2, 14)):
            k = r.random()
            if k < .15:
                s.append("crc" if running else "start %d" % r.choice([0x1021, 0x8005, 0xffff, 1, 0, r.randint(0, 65535)]))
                running = not running
            elif k < .3:
                s.append("bit %d" % r.randint(0, 1))
            elif k < .65:
                s.append("byte %d %d" % (r.choice([0, 255, 0x80, r.randint(0, 255)]), r.choice([8, 8, r.randint(0, 8)])))
            else:
                s.append("word %d %d %d" % (r.choice([0, 65535, 0x8000, r.randint(0, 65535)]), r.randint(0, 65535), r.choice([32, 32, 16, r.randint(0, 32)])))
        if running:
            s.append("crc")
        scripts.append(s)
    # the real shape: packets with their own checksums, one after another
    for _ in range(ctx.n(20, 100)):
        s = []
        for _ in range(3):
            s += ["start 4129", "byte %d 4" % r.randint(0, 15), "word %d %d 24" % (r.randint(0, 255), r.randint(0, 65535))]
            s += ["byte %d 8" % r.randint(0, 255) for _ in range(16)] + ["crc", "bit 0"]
        scripts.append(s)
    ctx.conform(e, "BitstreamTrace", scripts, what="random histories")
    return ctx.finish("model_checking", rule="design: every history up to 10 bits with 3-bit checksums; conformance: every legal script of three steps over a small alphabet, "
                      "random histories with random generators, packet-like histories")


def c09(ctx):
    ctx.design("MCFsk")
    e = exe_fsk()
    scripts = []
    for c in ctx.generate("GenFsk"):
        s = []
        for d, n in c["steps"]:
            s += ["set " + "".join(map(str, d)), "get %d" % n]
        scripts.append(s)
    ctx.conform(e, "FskTrace", scripts, what="spec-enumerated")
    r = ctx.rng
    scripts = []
    for _ in range(ctx.n(400, 5000)):
        s = []
        for _ in range(r.randint(1, 5)):
            n = r.randint(1, 40)
            s.append("set " + "".join(r.choice(r.choice(["01", "0", "1"])) for _ in range(n)))
            left = 4 * n
            while left and r.random() < .8:
                g = left if r.random() < .4 else r.randint(1, left)
                s.append("get %d" % g)
                left -= g
        scripts.append(s)
    ctx.conform(e, "FskTrace", scripts, what="random histories")
    return ctx.finish("model_checking", rule="every block up to 8 bits, every pair of blocks up to 3 bits with the first cut at every sample, random histories of up to 5 blocks")


def c10(ctx):
    ctx.design("MCNameFormat")
    cases = ctx.generate("GenNameFormat")
    r = ctx.rng
    H = lambda x: bytes(x).hex() or "-"
    spec = []
    for c in cases:
        spec += ["make " + H(c["spec"]), "get %s %s %s" % (hexs(r.choice(["", ".mxf", "/ :%c.xml"])), H(c["ignore"]), " ".join(H([k]) + " " + H(v) for k, v in c["values"]))]
    chars = ["%", "%", "%", "c", "t", "/", ":", " ", "_", "-", ".", "\\", "?", "é", "\n", "x", "0", "%c", "%t", "%%"]

    def text(n):
        return "".join(r.choice(chars) for _ in range(r.randint(0, n)))
    rand = []
    for _ in range(ctx.n(3000, 40000)):
        if r.random() < .15:
            a = text(6)
            rand.append("eq %s %s" % (hexs(a), hexs(r.choice([a, a + " ", a[:-1], text(6), a.upper()]))))
            continue
        if r.random() < .7:
            rand.append(r.choice(["make ", "set "]) + hexs(text(14)))
        keys = r.sample(["c", "t", "%", "_", "/", " ", "x", "0"], r.randint(0, 5))
        rand.append("get %s %s %s" % (hexs(text(4)), hexs("".join(r.sample("ct%_x", r.choice([0, 0, 1, 2])))), " ".join(hexs(k) + " " + hexs(text(8)) for k in keys)))
    for windows in (False, True):
        e = exe_name(windows)
        ctx.conform(e, "NameFormatTrace", batch(spec, 60), what="spec-enumerated" + (" (Windows rules)" if windows else ""))
        ctx.conform(e, "NameFormatTrace", batch(rand, 60), what="random" + (" (Windows rules)" if windows else ""))
    return ctx.finish("model_checking", rule="every template up to five characters over %, a key, / and space with four maps of values and three ignore sets; random templates, values and suffixes")


def c11(ctx):
    ctx.design("MCScopeGuard")
    e = exe_guard()
    cases = ctx.generate("GenScopeGuard")
    scripts = []
    for c in cases:
        p = ["%s %d" % (o, i) for o, i in c["ops"]]
        scripts.append(p + ["return", "run"])
        scripts.append(p + ["throw", "run"])
    ctx.conform(e, "ScopeGuardTrace", scripts, what="spec-enumerated")
    r = ctx.rng
    scripts = []
    for _ in range(ctx.n(1000, 20000)):
        guards, scopes, s, made = 0, [], [], 0
        for _ in range(r.randint(1, 25)):
            k = r.random()
            if k < .3:
                made += 1
                guards += 1
                s.append("make %d" % made)
            elif k < .55 and guards:
                s.append("move %d" % r.choice([guards, r.randint(1, guards)]))
                guards += 1
            elif k < .7 and guards:
                s.append("cancel %d" % r.randint(1, guards))
            elif k < .85:
                s.append("enter 0")
                scopes.append(guards)
            elif scopes:
                s.append("leave 0")
                guards = scopes.pop()
        scripts.append(s + [r.choice(["return", "throw"]), "run"])
    ctx.conform(e, "ScopeGuardTrace", scripts, what="random programs")
    return ctx.finish("model_checking", rule="every program of up to five steps with 3 actions and 4 guards, left by return and by exception; random programs of up to 25 steps")


def c12(ctx):
    ctx.design("MCNamedValues")
    e = exe_named()
    r = ctx.rng
    names = [bytes(c["s"]) for c in ctx.generate("GenNamedValues")]
    lines = ["all"] + ["constant %d" % i for i in range(1, 17)] + ["hname %d" % i for i in (1, 2, 3)] + ["vname %d" % i for i in (1, 2, 3)] + ["standard %d" % i for i in (1, 2, 3, 4)]
    for n in names:
        lines += ["%s %s" % (op, n.hex() or "-") for op in ("kind", "h", "v")]
    ctx.conform(e, "NamedValuesTrace", batch(lines, 60), what="spec-enumerated")
    scopes = ["none", "-", hexs("http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind"), hexs("http://www.smpte-ra.org/schemas/2067-3/2013#content-kind"), hexs("x")]
    lines = []
    for _ in range(ctx.n(2000, 20000)):
        n = r.choice(names)
        m = r.choice([n, n, n.upper(), r.choice(names)])
        s, t = r.choice(scopes), r.choice(scopes)
        lines.append("made %s %s" % (n.hex() or "-", s))
        lines.append("eq %s %s %s %s" % (n.hex() or "-", s, m.hex() or "-", r.choice([s, t])))
        k = bytes(c ^ 32 if 65 <= c & ~32 <= 90 and r.random() < .5 else c for c in n)
        lines.append("%s %s" % (r.choice(["kind", "h", "v"]), k.hex() or "-"))
    ctx.conform(e, "NamedValuesTrace", batch(lines, 100), what="random")
    return ctx.finish("model_checking", rule="every name, respelling and one-character damage in every table; random pairs of kinds and scopes")
