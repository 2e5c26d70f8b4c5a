"""C27: several packages made into one"""
from lib import vf


def exe():
    return vf.build_full("combine", "combine.cc")


def text(standard, k):
    return "t%d/t.xml" % k if standard == "interop" else "t.mxf"


def small(c):
    """The script of a case of GenCombine"""
    one, two = c["standards"]
    s = ["standard 1 " + one, "standard 2 " + two, "asset 1 mono 1 p.mxf 24 0 0 0"]
    use = [["use 1 1 picture"], []]
    pic = {"own": "asset 2 mono 2 %s 24 0 0 0" % c["name"], "copy": "copy 2 1 2 %s" % c["name"]}.get(c["pic"])
    if pic:
        s.append(pic)
    use[1].append("use 2 %d picture" % (2 if pic else 1))
    if c["first"] != "none":
        s.append("asset 3 text 1 %s 24 0 %s" % (text(one, 3), "0 0" if c["first"] == "plain" else "2 1"))
        use[0].append("use 1 3 subtitle")
    if c["text"] == "own":
        s.append("asset 4 text 2 %s 24 0 %s" % (text(two, 3), "1 1" if c["first"] == "plain" else "2 0"))
    elif c["text"] == "copy":
        s.append("copy 4 3 2 %s" % text(two, 3))
    if c["text"] != "none":
        use[1].append("use 2 %d subtitle" % (3 if c["text"] == "other" else 4))
    for d in (1, 2):
        s += ["cpl %d %d" % (d, d), "reel %d" % d] + use[d - 1]
    return s + ["go %d %s" % (c["sign"], " ".join(map(str, c["inputs"])))]


def many(r):
    """Some packages, some of whose assets are in several of them or are used by others"""
    n = r.choice([1, 2, 2, 3, 3, 4])
    same = r.choice(["smpte", "interop"])
    standards = [r.choice(["smpte", "interop"]) if r.random() < .05 else same for _ in range(n)]
    s = ["standard %d %s" % (d + 1, x) for d, x in enumerate(standards)]
    k = 0
    all = []
    taken = set()
    words = r.sample(["p", "q", "p0", "p1", "a/p", "b/p", "a/p0", "x.y"], r.choice([2, 4, 8]))
    for d in range(1, n + 1):
        standard = standards[d - 1]
        for _ in range(r.randint(1, 5)):
            k += 1
            kind = r.choice(["mono", "mono", "sound", "text", "text"] + (["stereo", "atmos"] if standard == "smpte" else []))
            others = [a for a in all if a["dir"] != d and a["standard"] == standard and a["kind"] in ("mono", "sound", "text") and a["key"] == a["who"]
                      and not any(b["who"] == a["who"] and b["dir"] == d for b in all)]
            copy = r.choice(others) if others and r.random() < .3 else None
            if copy:
                kind = copy["kind"]
            for _ in range(20):
                name = r.choice(words) + ".mxf"
                if (d, name) not in taken:
                    break
            else:
                name = "n%d.mxf" % k
            if kind == "text" and standard == "interop":
                name = "t%d/%s.xml" % (k, r.choice(["t", "p", "t0"]))
            taken.add((d, name))
            if copy:
                s.append("copy %d %d %d %s" % (k, copy["who"], d, name))
            else:
                s.append("asset %d %s %d %s 24 %d %d %d" % (k, kind, d, name, kind != "text" and r.random() < .2, r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 2])))
            all.append({"key": k, "who": copy["who"] if copy else k, "dir": d, "kind": kind, "standard": standard})
    c = 0
    for d in range(1, n + 1):
        for _ in range(r.choice([1, 1, 2])):
            c += 1
            s.append("cpl %d %d" % (c, d))
            for _ in range(r.randint(1, 3)):
                s.append("reel %d" % c)
                own = [a["who"] for a in all if a["dir"] == d]
                here = [a for a in all if a["dir"] == d or (a["standard"] == standards[d - 1] and a["who"] not in own and r.random() < .15)]
                r.shuffle(here)
                roles = set()
                for a in here:
                    role = {"mono": "picture", "stereo": "picture", "sound": "sound", "atmos": "atmos", "text": r.choice(["subtitle", "subtitle", "ccap"])}[a["kind"]]
                    if role not in roles and r.random() < .8:
                        roles.add(role)
                        s.append("use %d %d %s" % (c, a["key"], role))
    inputs = list(range(1, n + 1))
    r.shuffle(inputs)
    if r.random() < .15:
        inputs.append(r.choice(inputs))
    if r.random() < .1:
        inputs.pop()
    return s + ["go %d %s" % (r.random() < .3, " ".join(map(str, inputs or [1])))]


def c27(ctx):
    ctx.design("MCCombine")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenCombine")
    ctx.conform(e, "CombineTrace", [small(c) for c in cases], what="two packages")
    ctx.conform(e, "CombineTrace", [many(r) for _ in range(ctx.n(1000, 6000))], what="up to four packages")
    return ctx.finish("model_checking", rule="what is in a package made from others is what the specification says, and they are as they were")
