"""C21: key messages"""
import datetime

from lib import vf


def exe():
    return vf.build_full("kdm", "kdm.cc")


NAMES = ["example.org", "Some, Company", "A+B", "\"quoted\"", "back\\slash", " space", "space ", "#hash", "a#b", "<x>;y", "Plain Name", "x=y", "CS.smpte.LEAF", ".root"]
UTF8 = ["Ünï", "日本", "é"]
TITLES = ["Title", "A & B <c>", "", " padded ", "日本語", "\"q\" 'q'", "x" * 300, "a]]>b"]


def stamp(d):
    return d.strftime("%Y%m%d%H%M%SZ")


def local(d, offset="+00:00"):
    return d.strftime("%Y-%m-%dT%H:%M:%S") + offset


DAY = datetime.timedelta(days=1)


def uuid(r):
    h = "%032x" % r.getrandbits(128)
    return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def name(r, k):
    """o ou cn dn utf8 as arguments; the qualifier makes it unlike others"""
    utf8 = r.random() < .2
    pool = NAMES + (UTF8 if utf8 else [])
    dn = "q%d%s" % (k, r.choice(["", "+=", "/x", "a b"]))
    return " ".join([vf.hexs(r.choice(pool)), vf.hexs(r.choice(pool)), vf.hexs(r.choice(pool)), vf.hexs(dn), "1" if utf8 else "0"])


def cert(r, k, person, issuer, before, after, ca):
    return "cert %d %d %d %s %d %s %s %d" % (k, person, issuer, name(r, k), r.choice([k, k, r.getrandbits(63), r.getrandbits(150)]), stamp(before), stamp(after), ca)


def chain(r, base=0, length=3, windows=None, people=None):
    """Certificates base+1 (root) ... base+length (leaf)"""
    people = people or [base + i for i in range(1, length + 1)]
    out = []
    for i in range(length):
        w = windows[i] if windows else (datetime.datetime(2015, 3, 1, 12), datetime.datetime(2035, 3, 1, 12))
        out.append(cert(r, base + i + 1, people[i], base + i if i else 0, w[0], w[1], i < length - 1))
    return out


# the people: 1-3 sign, 4 and 5 receive, 6 neither
def preamble(r, windows=None, length=3):
    people = [1, 2, 3][-length:]
    s = chain(r, 0, length, windows, people)
    order = list(range(1, length + 1))
    r.shuffle(order)
    s.append("chain 1 %d %s %s" % (3, r.choice(["add", "text"]), " ".join(str(k) for k in order)))
    # recipients: one by itself, one vouched for by the signer's root
    far = (datetime.datetime(2010, 1, 1), datetime.datetime(2049, 1, 1))
    s.append(cert(r, 11, 4, 0, far[0], far[1], 0))
    s.append(cert(r, 12, 5, 1, far[0], far[1], 0))
    return s


def window(r):
    a = datetime.datetime(2016, 1, 1) + datetime.timedelta(seconds=r.randrange(10 * 365 * 86400))
    b = a + datetime.timedelta(seconds=r.randrange(5 * 365 * 86400))
    return local(a, r.choice(["+00:00", "+01:00", "-05:30", "+12:00", "-11:00"])), local(b, r.choice(["+00:00", "+02:00", "-08:00"]))


def message(r, m, types, w=None):
    w = w or window(r)
    s = ["message %d %s %s %s %s" % (m, vf.hexs(w[0]), vf.hexs(w[1]), vf.hexs(r.choice(TITLES)), vf.hexs(r.choice(TITLES)))]
    cpl = uuid(r)
    for t in types:
        s.append("key %d %s %s %032x %s" % (m, t, uuid(r), r.getrandbits(128), cpl if r.random() < .9 else uuid(r)))
    return s


def devices(r, n):
    return " ".join(vf.hexs("%dhQjB+x/%020d=" % (i, r.getrandbits(60))) for i in range(n))


def story(r, f, picture, audio, n, types, ways):
    s = preamble(r, length=r.choice([3, 3, 1, 2]))
    leaf = len([x for x in s if x.startswith("cert")]) - 2
    s += message(r, 1, types)
    s.append(("seal 1 1 1 %d %s %d %d " % (r.choice([11, 12]), f, picture, audio) + devices(r, n)).strip())
    who = 4 if s[-1].split()[4] == "11" else 5
    last = 1
    for i, w in enumerate(ways, 2):
        s.append("reread %d %d %s %d" % (last, i, w, leaf))
        last = i
    people = [4, 5, 6, 3]
    r.shuffle(people)
    for p in people[:2] + [who]:
        s.append("open %d %d %d" % (2, last, p))
    if r.random() < .3:
        # what was opened can be sealed for somebody else
        s += ["seal 20 2 1 %d mt1 0 -1" % (23 - r.choice([11, 12])), "reread 20 21 text %d" % leaf]
    return s


def block(r, w, cpl, old):
    kind = b"" if old else r.choice([b"MDIK", b"MDAK", b"MDSK", b"MDEK"])
    start = "%032x" % r.getrandbits(128) if old else "f1dc124460169a0e85bc300642f866ab"
    return start + "%040x" % r.getrandbits(160) + cpl + kind.hex() + "%032x" % r.getrandbits(128) + w[0].encode().hex() + w[1].encode().hex() + "%032x" % r.getrandbits(128)


def foreign(r):
    """Somebody else's message, perhaps with keys whose windows differ"""
    n = r.randint(1, 4)
    s = preamble(r) + message(r, 1, ["MDIK"] * n) + ["seal 1 1 1 11 %s 0 -1" % r.choice(["mt1", "any"])]
    w = window(r)
    other = window(r)
    cpl = "%032x" % r.getrandbits(128)
    old = r.random() < .5
    odd = r.randrange(n) if r.random() < .3 else -1
    mixed = (other[0], w[1]) if r.random() < .5 else (w[0], other[1])
    s.append("foreign 1 2 %d %d %s" % (r.randint(0, 1), r.randint(0, 1), " ".join(block(r, mixed if i == odd else w, cpl, old) for i in range(n))))
    return s + ["open 2 2 %d" % p for p in (4, 5, 4)]


def c21(ctx):
    ctx.design("MCKdm")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenKdm")
    seals = [c for c in cases if c["case"] == "seal"]
    windows = [c for c in cases if c["case"] == "window"]
    compositions = [c for c in cases if c["case"] == "composition"]
    seals = r.sample(seals, ctx.n(1000, len(seals)))
    if ctx.quick:
        windows = r.sample(windows, 300)
    scripts = [story(r, c["f"], c["picture"], c["audio"], c["devices"], c["types"], c["ways"]) for c in seals]
    for c in windows:
        a = datetime.datetime(r.choice([2019, 2020, 2021]), r.choice([1, 2, 3, 12]), r.choice([1, 28, 15]), r.randrange(24), r.randrange(60))
        b = datetime.datetime(r.choice([2022, 2024]), r.choice([1, 2, 3, 12]), r.choice([1, 28, 15]), r.randrange(24), r.randrange(60))

        def near(t, days):
            """some time in that day"""
            return datetime.datetime(t.year, t.month, t.day, r.randrange(24), r.randrange(60)) + days * DAY
        ws = [(near(a, f), near(b, t)) for f, t in zip(c["from"], c["to"])]
        scripts.append(preamble(r, ws) + message(r, 1, ["MDIK"], (local(a), local(b))) + ["seal 1 1 1 11 mt1 0 -1", "open 2 1 4"])
        if any(x >= 0 for x in c["from"]) or any(x <= 0 for x in c["to"]):
            scripts[-1].pop()
    for c in compositions:
        w = window(r)
        s = preamble(r) + ["composition 1 " + " ".join("%s %d" % tuple(p) for p in c["parts"])]
        s.append("forall 1 1 %s %s %s %s %s" % (vf.hexs(w[0]), vf.hexs(w[1]), vf.hexs(r.choice(TITLES)), vf.hexs(r.choice(TITLES)), c["how"]))
        if any(p[1] for p in c["parts"]):
            s += ["seal 1 1 1 11 any 0 -1", "open 2 1 4", "open 3 1 5"]
        scripts.append(s)
    ctx.conform(e, "KdmTrace", scripts, what="spec-enumerated messages")

    scripts = []
    for _ in range(ctx.n(200, 3000)):
        scripts.append(story(r, r.choice(["mt1", "mmt1", "any", "specific"]), r.randint(0, 1), r.choice([-1, 0, 1, 6, 16]), r.randint(0, 4),
                             [r.choice(["MDIK", "MDAK", "MDSK", "MDEK"]) for _ in range(r.randint(1, 12))], [r.choice(["text", "file", "copy"]) for _ in range(r.randint(0, 4))]))
    ctx.conform(e, "KdmTrace", scripts, what="random messages")
    ctx.conform(e, "KdmTrace", [foreign(r) for _ in range(ctx.n(150, 3000))], what="messages made elsewhere")
    return ctx.finish("model_checking", rule="design: sealed and signed messages that anybody can rewrite or change; conformance: messages of the spec's shapes sealed, read, rewritten and opened by several people")
