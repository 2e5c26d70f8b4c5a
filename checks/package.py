"""C18: packages on the disk"""
from lib import vf


def exe():
    return vf.build_full("package", "package.cc")


NAMES = ["a%d.mxf", "b %d.mxf", "c&%d.mxf", "d%%20%d", "e'%d.mxf", "urn_%d", "f+%d.mxf", "%d"]


def script(r, c, history=None):
    """One package of the shape c = {std, parts, sharing}"""
    std = c["std"]
    s = ["standard " + std]
    parts = list(c["parts"])
    r.shuffle(parts)
    uses = []
    # directories: one's name may begin like another's
    ds = [1] + r.sample([2, 12, 3], 2)
    if c["sharing"] != "packages" or r.random() < .5:
        ds = ds[:2]
    for k, (role, place) in enumerate(parts, 1):
        kind = {"picture": r.choice(["mono", "mono", "stereo"]), "sound": "sound", "atmos": "atmos"}.get(role, "text")
        name = r.choice(NAMES) % k
        if place == "sub":
            name = r.choice(["sub%d/", "x y/%d/", "%d/deep/er/"]) % k + name
        enc = 1 if r.random() < .25 and not (std == "interop" and kind == "text") else 0
        fonts = r.choice([0, 1, 2]) if kind == "text" and place == "sub" else 0
        images = r.choice([0, 0, 1, 2]) if kind == "text" else 0
        where = r.choice(ds[1:]) if place == "out" else 1
        s.append("asset %d %s %d %s %d %d %d %d" % (k, kind, where, vf.hexs(name), r.randint(1, 4), enc, fonts, images))
        if kind == "text" and r.random() < .3:
            s.append("rewrite %d %d %d" % (k, where, k))
        elif kind != "text" and r.random() < .15:
            s.append("move %d %d %s" % (k, r.choice(ds), vf.hexs("moved/%d.x" % k)))
        uses.append("use %%d %%d %d %s" % (k, role))
    ncpl = {"compositions": 2, "packages": len(ds)}.get(c["sharing"], 1)
    nreel = 2 if c["sharing"] == "reels" else 1
    for k in range(1, ncpl + 1):
        s.append("cpl %d" % k)
        for n in range(1, nreel + 1):
            s.append("reel %d" % k)
            s += [u % (k, n) for u in uses]
    every = list(ds)
    if c["sharing"] != "packages":
        ds = [1]
    for k in range(1, ncpl + 1):
        s.append("add %d %d" % (ds[k - 1] if c["sharing"] == "packages" else 1, k))
    for d in ds:
        if r.random() < .5:
            s.append("who %d %s %s %s" % (d, r.choice(["Me", "A.B"]), r.choice(["You", "C"]), r.choice(["Note", "N2"])))
        s.append("write %d 0" % d)
    s += ["read %d 0" % d for d in ds]
    s.append("find " + " ".join(str(d) for d in r.sample(ds, len(ds))))
    x = r.random()
    if x < .35:
        s += ["read 1 1", "write 1 %d" % r.randint(0, 1), "read 1 0"]
    elif x < .6:
        s += ["write 1 %d" % r.randint(0, 1), "read 1 0"]
    elif x < .8:
        mxf = [k for k, (role, place) in enumerate(parts, 1) if role in ("picture", "sound", "atmos")]
        if mxf:
            s += ["move %d %d %s" % (r.choice(mxf), r.choice(every), vf.hexs("later.x")), "write 1 1"]
            s += ["write %d 1" % d for d in ds[1:]]
            s += ["read 1 1", "write 1 1"]
    if len(ds) > 1:
        s.append("find " + " ".join(str(d) for d in r.sample(ds, len(ds))))
    return s


def c18(ctx):
    ctx.design("MCPackage")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenPackage")
    if ctx.quick:
        cases = r.sample(cases, 1500)
    ctx.conform(e, "PackageTrace", [script(r, c) for c in cases], what="spec-enumerated shapes")
    # larger ones
    scripts = []
    for _ in range(ctx.n(80, 1200)):
        std = r.choice(["smpte", "interop"])
        roles = ["picture", "sound", "atmos", "subtitle", "ccap", "ccap"] + (["caption", "csub", "csub"] if std == "smpte" else [])
        parts = [(x, r.choice(["in", "in", "sub", "sub", "out"])) for x in roles if r.random() < .7]
        scripts.append(script(r, {"std": std, "parts": parts or [("picture", "in")], "sharing": r.choice(["one", "reels", "compositions", "packages"])}))
    ctx.conform(e, "PackageTrace", scripts, what="large packages")
    return ctx.finish("model_checking", rule="design: every history of writing, hashing, using and moving three assets; conformance: packages of the spec's shapes, written, read, rewritten and searched")
