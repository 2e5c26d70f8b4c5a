"""C29: language tags"""
import os

from lib import vf

KINDS = ("language", "script", "region", "variant", "extlang")


def exe():
    return vf.build_full("language", "language.cc")


def lines(c):
    return [("parse " + ("-".join(o["x"]) or ".")) if o["op"] == "parse" else " ".join([o["op"], o["kind"]] + list(o["x"])) for o in c]


def lists():
    r = {}
    for k in KINDS:
        with open(os.path.join(vf.REPO, "tags", k), encoding="utf-8", errors="replace") as f:
            r[k] = [x.strip() for x in f.read().split("\n")[::2] if x.strip()]
    return r


def cased(r, s):
    """The same, but perhaps with letters of the other case"""
    return s if r.random() < .8 else r.choice([s.lower(), s.upper(), s.title()])


def tag(r, all):
    """Something like a tag"""
    t = [cased(r, r.choice(all["language"]))]
    for k in KINDS[1:]:
        n = r.choice([0, 0, 1, 1, 2, 3]) if k in ("variant", "extlang") else r.choice([0, 1])
        t += r.sample(all[k], n)
    if r.random() < .2:
        i = r.randrange(len(t))
        t.insert(r.randrange(len(t) + 1), r.choice([t[i], "x", "", "none", r.choice(all[r.choice(KINDS)])]))
    if r.random() < .1:
        r.shuffle(t)
    return "-".join(t) or "."


def changes(r, all):
    """Changes to a tag"""
    s = []
    few = {k: r.sample(all[k], 3) for k in KINDS}
    for _ in range(r.randint(2, 12)):
        x = r.random()
        k = r.choice(KINDS)
        pick = lambda k: r.choice(few[k if r.random() < .9 else r.choice(KINDS)])
        if x < .15:
            s.append("parse " + tag(r, all))
        elif k in ("variant", "extlang") and x < .6:
            s.append("add %s %s" % (k, pick(k)))
        elif k in ("variant", "extlang"):
            s.append(" ".join(["set", k] + [pick(k) for _ in range(r.randint(0, 3))]))
        else:
            s.append("set %s %s" % (k, cased(r, pick(k))))
    return s


def c29(ctx):
    ctx.design("MCLanguage")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenLanguage")
    change = [c for c in cases if c["op"] != "parse"]
    few = [lines([c]) for c in cases if c["op"] == "parse"]
    few += [["parse de-1901-ltg"] + lines([c, d]) for c in change for d in change]
    ctx.conform(e, "LanguageTrace", few, what="up to four subtags together, and pairs of changes")
    all = lists()
    every = ["parse " + x for x in all["language"]] + ["parse de-" + x for k in KINDS[1:] for x in all[k]]
    ctx.conform(e, "LanguageTrace", [every[i:i + 20] for i in range(0, len(every), 20)], what="every subtag of the lists")
    ctx.conform(e, "LanguageTrace", [changes(r, all) for _ in range(ctx.n(2000, 15000))], what="changes at random")
    return ctx.finish("model_checking", rule="what a tag says, after anything done to it, is what the specification gives for it")
