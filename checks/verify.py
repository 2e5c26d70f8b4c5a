"""C26: what the verifier says"""
from lib import vf

KINDS = ["feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement"]
SIZES = [(1998, 1080), (2048, 858), (3996, 2160), (4096, 1716), (2048, 1080), (1920, 1080), (1998, 858), (4096, 2160), (858, 2048)]
RATES = [(24, 1), (24, 1), (24, 1), (25, 1), (48, 1), (30, 1), (50, 1), (60, 1), (96, 1), (24000, 1001), (47, 1), (12, 1)]


def exe():
    return vf.build_full("verify", "verify.cc")


def script(p):
    s = ["cpl %s %s %s %d %d %s %s %d %d %d %d %s %d %d %d %s %s %d %d" % (
        p["kind"], p["ann"], p["pklann"], p["meta"], p["ver"], p["ext"], p["terr"], p["cver"], p["label"], p["area"][0], p["area"][1], p["addl"],
        p["sign"], p["msc"], p["more"], p["dup"], p["bad"], p["stale"], p["det"])]
    for r in p["reels"]:
        s.append("reel %d %d" % tuple(r["rate"]))
        q = r["pic"]
        s.append(" ".join(map(str, ["pic"] + [q[k] for k in ("w", "h", "frames", "stereo", "enc", "dur", "entry", "gone", "hash")] + list(q["big"]))))
        q = r["snd"]
        s.append(" ".join(map(str, ["snd"] + [q[k] for k in ("has", "ch", "rate", "frames", "enc", "dur", "gone", "hash")])))
        for role in ("sub", "cc"):
            for t in r[role]:
                s.append(" ".join(map(str, ["text", role] + [t[k] for k in ("lang", "start", "entry", "dur", "intr", "font", "enc", "gone")])))
                for x in t["lines"]:
                    s.append("line %d %d %d %s %d" % (x["tin"], x["tout"], x["vp"], x["va"], x["len"]))
        m = r["marks"]
        if m["has"]:
            s.append(" ".join(map(str, ["marks", m["entry"], m["dur"]] + [w for x in m["m"] for w in x])))
    return s + ["go"]


def maybe(r, p, *others):
    return r.choice(others) if r.random() < p else None


def lines(r, rate, frames, first, limit):
    """Texts, mostly as they should be"""
    out = []
    at = rate * 4 if first else r.randint(0, rate)
    if first and r.random() < .1:
        at -= r.randint(1, 3)
    while at + 15 < frames and len(out) < 12:
        end = at + r.choice([15, 15, 16, r.randint(15, 40), r.randint(15, 40), r.randint(15, 40)])
        if r.random() < .05:
            end = at + r.randint(1, 14)
        if end > frames and r.random() < .8:
            break
        n = r.choice([1, 1, 2, 2, 3, 3]) if r.random() > .05 else 4
        va = r.choice(["top", "bottom", "center"])
        places = r.sample([10, 20, 30, 40], n)
        for v in places:
            total = r.choice([1, r.randint(1, limit), r.randint(1, limit), limit])
            if r.random() < .05:
                total = r.choice([limit + 1, 79, 80, limit + r.randint(1, 40)])
            pieces = r.choice([1, 1, 1, 2, 3])
            cuts = sorted(r.sample(range(1, total), pieces - 1)) if total > pieces else []
            for a, b in zip([0] + cuts, cuts + [total]):
                out.append(dict(tin=at, tout=end, vp=v, va=va if r.random() > .03 else r.choice(["top", "bottom", "center"]), len=b - a))
        at = end + r.choice([2, 2, 3, r.randint(2, 30), r.randint(2, 30)])
        if r.random() < .06:
            at = end + r.randint(0, 1)
        elif r.random() < .06:
            at = max(at - r.randint(8, 20), out[-1]["tin"] + 1, rate * 4 if first else 0)
    return out


def package(r, p):
    """A package that is as it should be, but for things that each happen with some likelihood"""
    n = r.choice([1, 1, 2, 2, 3])
    rate = r.choice(RATES) if r.random() < .4 else (24, 1)
    tcr = rate[0] if rate[1] == 1 else 24
    subs = r.random() < .5 and rate[1] == 1
    ccs = r.choice([0, 0, 1, 1, 2]) if rate[1] == 1 else 0
    size = r.choice(SIZES if r.random() < .3 else SIZES[:2])
    ch = r.randint(1, 6)
    enc = 1 if r.random() < .15 else 0
    stereo = 1 if r.random() < .2 else 0
    kind = maybe(r, p, "nonsense", "FEATUR") or r.choice(KINDS)
    reels = []
    for i in range(n):
        long = (subs or ccs) and rate[0] <= 30
        frames = r.randint(5 * tcr, 6 * tcr) if long else r.choice([tcr, tcr + 1, r.randint(tcr, tcr + 20)])
        if rate == (24000, 1001):
            frames += 1
        if r.random() < p:
            frames = r.choice([tcr - 1, r.randint(1, tcr)])
        q = size if r.random() > p else r.choice(SIZES)
        dur = frames if r.random() > p else max(1, frames - r.randint(1, 3))
        pic = dict(w=q[0], h=q[1], frames=frames, stereo=stereo, enc=enc if r.random() > p else 1 - enc, dur=dur, entry=0,
                   gone=maybe(r, p, 1, 2, 3, 3) or 0, hash=maybe(r, p, "cpl", "pkl", "both", "file", "none") or "ok", big=[])
        snd = dict(has=1 if r.random() > p else 0, ch=ch if r.random() > p else r.randint(1, 6), rate=maybe(r, p, 96000, 44100) or 48000, frames=frames,
                   enc=enc if r.random() > p else 1 - enc, dur=dur if r.random() > p else max(1, dur - 1), gone=maybe(r, p, 1, 2, 3, 3) or 0,
                   hash=maybe(r, p, "cpl", "pkl", "both", "file", "none") or "ok")

        def text(limit):
            d = dur if r.random() > p else max(1, dur - r.randint(0, 1))
            return dict(lang=maybe(r, p, "none", "fr-FR", "de-DE") or "en-GB", start=maybe(r, p, "none", "late") or "zero", entry=maybe(r, p, "none", "late") or "zero",
                        dur=d, intr=d if r.random() > p else d + r.randint(0, 2), font=0 if r.random() < p else 100, enc=enc if r.random() > p else 1 - enc,
                        gone=maybe(r, p, 1, 2, 3, 3) or 0, lines=lines(r, rate[0], dur, i == 0, limit))

        reels.append(dict(rate=list(rate), pic=pic, snd=snd, sub=[text(52)] if subs and r.random() > p else [], cc=[text(32) for _ in range(ccs if r.random() > p else r.randint(0, 2))],
                          marks=dict(has=1, entry=1 if r.random() < p else 0, dur=1 if r.random() < p else 0, m=[])))
    marks = [("FFOC", 0, 1), ("LFOC", n - 1, reels[-1]["pic"]["dur"] - 1)]
    if kind == "feature" or r.random() < .3:
        marks += [("FFEC", n - 1, 2), ("FFMC", n - 1, 3)]
    for name, reel, at in marks:
        if r.random() < p:
            continue
        if r.random() < p:
            at = max(0, at + r.choice([-1, 1]))
        elif r.random() < p:
            reel = r.randrange(n)
        if at < max(1, reels[reel]["pic"]["frames"]) and rate[1] == 1:
            reels[reel]["marks"]["m"].append([name, at])
    for x in reels:
        x["marks"]["has"] = 1 if x["marks"]["m"] else 0
    area = [min(x["pic"]["w"] for x in reels), min(x["pic"]["h"] for x in reels)]
    if r.random() < p:
        area[r.randrange(2)] += r.choice([-2, -1, 1, 2])
    encrypted = any(x["enc"] for y in reels for x in [y["pic"], y["snd"]] + y["sub"] + y["cc"])
    det = 0
    if r.random() < 2 * p and rate[1] == 1:
        det = 1
        for x in reels:
            most = (62500000 * rate[1] + rate[0]) // (2 * rate[0])
            risky = (57500000 * rate[1] + rate[0]) // (2 * rate[0])
            x["pic"]["big"] = [r.choice([0, 0, 200, most, most + 1, risky, risky + 1, r.randint(risky - 99, most + 99)]) for _ in range(min(x["pic"]["frames"], r.randint(0, 3)))]
    more = maybe(r, p, 1, 2) or 0
    dup = maybe(r, p, "pkl", "am") or "no"
    if all(x["gone"] == 3 for y in reels for x in [y["pic"]] + [y["snd"]] * y["snd"]["has"] + y["sub"] + y["cc"]):
        dup = "no"
    return dict(kind=kind, ann=maybe(r, p, "none", "other") or "same", pklann="other" if r.random() < p else "same", ext=maybe(r, p, "none", "scope", "name", "profile", "old") or "ok",
                terr=maybe(r, p, "XYZ", "none", "001", "FR", "X1") or "GB", addl=maybe(r, p, "zzzzzz", "de-DE", "none") or "fr-FR", meta=0 if r.random() < p else 1, ver=0 if r.random() < p else 1,
                cver=0 if r.random() < p else 1, label=0 if r.random() < p else 1, area=area, sign=1 if encrypted and r.random() > p else 0, msc=reels[0]["snd"]["ch"] if r.random() > p else r.randint(1, 6),
                more=more, dup=dup, bad=maybe(r, p, "cpl", "pkl", "am") or "none", stale=r.randint(1, more + 1) if r.random() < p else 0, det=det, reels=reels)


def c26(ctx):
    ctx.design("MCVerify")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenVerify")
    two = [c for c in cases if c["n"] == 2]
    cases = [c for c in cases if c["n"] < 2] + (r.sample(two, 1500) if ctx.quick else two)
    ctx.conform(e, "VerifyTrace", [script(c["pkg"]) for c in cases], what="packages with one or two things wrong")
    ctx.conform(e, "VerifyTrace", [script(package(r, r.choice([0, .01, .03, .1]))) for _ in range(ctx.n(1200, 6000))], what="packages with anything wrong")
    return ctx.finish("model_checking", rule="the verifier's complaints about a package are those that the specification gives for it")
