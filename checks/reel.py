"""C20: reels treat parts of every kind alike"""
from lib import vf


def exe():
    return vf.build_full("reel", "reel.cc")


KIND = {"sound": "sound", "atmos": "atmos"}


def reel(r, roles, enc, std="smpte", share=False):
    """Contents and a reel that uses them; returns the script and for each role the number of its content"""
    s = ["standard " + std]
    contents = []
    uses = []
    for i, (role, e) in enumerate(zip(roles, enc), 1):
        entry = r.choice([0, 0, 1, 2])
        duration = r.randint(1, 6)
        stated = r.randint(0, 1)
        if role == "markers":
            uses.append("use markers 0 %d %d %d" % (duration, entry, stated))
            contents.append(0)
            continue
        kind = KIND.get(role) or (r.choice(["mono", "stereo"]) if role == "picture" else "text")
        c = i
        if share and kind == "text":
            # the same text in several places
            c = next((contents[j] for j in range(len(contents)) if roles[j] not in ("picture", "sound", "atmos", "markers")), i)
        frames = duration + entry
        if c == i:
            s.append("content %d %s %d %d" % (i, kind, frames, e if not (std == "interop" and kind == "text") else 0))
        uses.append("use %s %d %d %d %d" % (role, c, duration, entry, stated))
        contents.append(c)
    return s + uses, contents


def c20(ctx):
    ctx.design("MCReel")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenReel")
    keys = [c for c in cases if c["case"] == "keys"]
    compare = [c for c in cases if c["case"] == "compare"]
    if ctx.quick:
        keys = r.sample(keys, 6000)
    scripts = []
    for c in keys:
        enc = c["enc"]
        s, _ = reel(r, c["roles"], enc)
        s.append("fresh")
        for op, ks in c["steps"]:
            if op == "give":
                ks = [k for k in ks if enc[k - 1]] or [0]
            s.append(" ".join([{"give": "give", "find": "resolve"}[op]] + [str(k) for k in ks]))
        scripts.append(s)
    for c in compare:
        (v, (w,)), = c["steps"]
        s, _ = reel(r, c["roles"], c["enc"])
        s.append("compare " + " ".join(v if w in (i, 3) else "same" for i in (1, 2)))
        scripts.append(s)
    ctx.conform(e, "ReelTrace", scripts, what="spec-enumerated reels")

    scripts = []
    for _ in range(ctx.n(300, 4000)):
        std = r.choice(["smpte", "smpte", "interop"])
        many = ["ccap", "ccap"] + (["csub", "csub", "caption"] if std == "smpte" else [])
        roles = [x for x in ["picture", "sound", "atmos", "subtitle", "markers"] + many if r.random() < .55] or ["sound"]
        r.shuffle(roles)
        p = r.choice([0, .5, .9, 1])
        enc = [int(r.random() < p) for _ in roles]
        s, contents = reel(r, roles, enc, std, share=r.random() < .3)
        real = sorted(set(contents) - {0})
        made = {int(x.split()[1]): x.split() for x in s if x.startswith("content")}
        locked = [k for k in real if made[k][4] == "1"]
        mxf = [k for k in locked if made[k][2] != "text"]
        s.append("fresh")
        for _ in range(r.randint(1, 7)):
            if r.random() < .5:
                ks = [k for k in locked if r.random() < .5] + [-k for k in mxf if r.random() < .1] + ([0] if r.random() < .2 else [])
                r.shuffle(ks)
                s.append(" ".join(["give"] + [str(k) for k in ks]))
            else:
                s.append(" ".join(["resolve"] + [str(k) for k in real if r.random() < .6]))
            if r.random() < .05:
                s.append("fresh")
        for _ in range(3):
            vs = []
            for role, c in zip(roles, contents):
                v = ["absent", "annotation", "annotation-allowed", "duration", "entry"] + (["marker"] if role == "markers" else ["hash", "hash-allowed", "content"])
                vs.append(r.choice(v) if r.random() < 1 / len(roles) else "same")
            s.append("compare " + " ".join(vs))
        scripts.append(s)
    ctx.conform(e, "ReelTrace", scripts, what="random reels")
    return ctx.finish("model_checking", rule="design: every order of giving keys and finding contents; conformance: the spec's pairs of roles with every short history and every difference between two reels, and random larger ones")
