"""C22: certificates, chains and what they sign"""
import datetime

from checks import kdm
from lib import vf


def world(r):
    """The certificates of GenChain, with anybody's names"""
    far = [kdm.stamp(datetime.datetime(r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60))) for _ in range(16)]
    names = {k: kdm.name(r, k) for k in range(1, 9)}
    names[6] = names[7] = names[1]

    def cert(k, person, issuer, ca, forger=""):
        serial = r.choice([k, r.getrandbits(31), r.getrandbits(64) | 1, r.getrandbits(150)])
        return ("cert %d %d %d %s %d %s %s %d %s" % (k, person, issuer, names[k], serial, far[2 * k - 2], far[2 * k - 1], ca, forger)).strip()
    return [cert(1, 1, 0, 1), cert(2, 2, 1, 1), cert(3, 3, 2, 0), cert(4, 4, 0, r.randint(0, 1)), cert(5, 5, 2, 1, "4"), cert(6, 6, 0, 1), cert(7, 1, 0, 1), cert(8, 8, 3, 0)]


PEOPLE = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 1, 8: 8}
PLAIN = ["example.org", "Some Company", "CS.smpte.LEAF", ".root", "A B-C", "x", "name, with comma", "a.b.c.d.e.f"]


def holder(r, c):
    if c["key"] == "none":
        return 0
    last = [k for k in (8, 3, 5, 2, 7, 6, 1, 4) if k in c["list"]]
    if c["key"] == "leaf" and last:
        return PEOPLE[last[0]]
    return r.randint(1, 8)


def c22(ctx):
    ctx.design("MCChain")
    e = kdm.exe()
    r = ctx.rng
    cases = ctx.generate("GenChain")
    cases = r.sample(cases, ctx.n(4000, len(cases)))
    scripts = []
    for at in range(0, len(cases), 12):
        s = world(r)
        for i, c in enumerate(cases[at:at + 12]):
            s.append(("chain %d %d %s %s" % (i, holder(r, c), c["how"], " ".join(str(k) for k in c["list"]))).strip())
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                s.append("remove %d %d" % (i, r.choice(c["list"] or [1]) if r.random() < .8 else r.randint(1, 8)))
        scripts.append(s)
    ctx.conform(e, "ChainTrace", scripts, what="spec-enumerated lists of certificates")

    scripts = []
    for _ in range(ctx.n(150, 2500)):
        s = world(r) + ["look %d %d" % (k, r.randint(0, 3)) for k in range(1, 9)]
        n = r.choice([1, 2, 3, 3])
        order = r.sample(range(1, n + 1), n)
        s.append("chain 1 %d %s %s" % (n, r.choice(["add", "text"]), " ".join(str(k) for k in order)))
        s += ["sign 1 %s %s" % (r.choice(["cpl", "pkl"]), r.choice(["smpte", "interop"])) for _ in range(2)]
        scripts.append(s)
    for _ in range(ctx.n(2, 40)):
        scripts.append(["made %d %s" % (r.randint(10, 8000), " ".join(vf.hexs(r.choice(PLAIN)) for _ in range(5)))])
    ctx.conform(e, "ChainTrace", scripts, what="certificates and signed documents")
    return ctx.finish("model_checking", rule="design: every world of three certificates, their claims and their signatures; conformance: lists of genuine, forged, foreign and repeated certificates in every order, with and without the right key; certificates of any names looked at; documents signed")
