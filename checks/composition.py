"""C19: compositions and their documents"""
from lib import vf


def exe():
    return vf.build_full("cpl", "cpl.cc")


TEXTS = ["x", "A film", "a & b", "<tag>", "\"quoted\" 'single'", "Ünïcödé ☃ 🎬", "", " leading", "trailing ", "two  spaces", "line\nbreak", "tab\tbed", "]]>", "&amp;", "%1 {} %s", "a" * 300, "-", "0"]
TAGS = ["de", "fr", "en-GB", "pt-BR", "zh-Hant", "es-419", "de-DE", "ja"]
MARKS = ["FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC", "FFMC", "LFMC", "FFOB", "LFOB"]
CONFIGS = ["51/L,R,C,LFE,Ls,Rs", "71/L,R,C,LFE,Lss,Rss,-,-,-,-,Lrs,Rrs", "51/L,R,C,LFE,Ls,Rs,HI,VIN,-,-,-,-,DBOX,FSKSync,SLVS", "ST/L,R", "MC/C"]
KINDS = ["feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement"]
SCOPED = ["clip", "promo", "stereocard", "episode", "highlights", "event", "anything"]


def text(r):
    return r.choice(TEXTS)


def h(*words):
    return " ".join(vf.hexs(w) for w in words)


def value(r, field, langs):
    if field in ("issuer", "creator", "annotation", "title", "full_title", "chain", "distributor", "facility", "edr"):
        return h(text(r))
    if field == "date":
        return h("2024-0%d-11T10:%02d:00+00:00" % (r.randint(1, 9), r.randint(0, 59)))
    if field in ("full_title_language", "sign_language"):
        return h(r.choice(TAGS))
    if field == "territory":
        return h(r.choice(["GB", "US", "FR", "150"]))
    if field == "kind":
        return h(r.choice(KINDS)) if r.random() < .5 else h(r.choice(SCOPED), r.choice(["http://a/b#c", "scope & all"]))
    if field == "version":
        return h(str(r.choice([0, 1, 2, 17, 2147483647])))
    if field == "status":
        return h(r.choice(["temp", "pre", "final"]))
    if field == "luminance":
        return h(r.choice(["4.5", "14", "0.05", "48", "100", "31.5", "1"]), r.choice(["candela-per-square-metre", "foot-lambert"]))
    if field == "sound_config":
        return h(r.choice(CONFIGS))
    if field == "sound_rate":
        return h(r.choice(["48000", "96000"]))
    if field in ("stored", "active"):
        return h(*r.choice([("1998", "1080"), ("2048", "858"), ("4096", "2160"), ("2", "4")]))
    if field == "versions":
        ids = ["urn:uuid:%d" % i for i in range(4)] + ["x & y", ""]
        r.shuffle(ids)
        return h(*[x for i in ids[:r.randint(0, 4)] for x in (i, text(r))])
    if field == "ratings":
        return h(*[x for i in range(r.randint(0, 3)) for x in (r.choice(["http://www.mpaa.org/2003-ratings", "agency"]), text(r))])
    if field == "languages":
        return h(*langs)
    if field == "noversion":
        return ""
    raise KeyError(field)


def markers(r):
    rate = r.choice([24, 25, 30, 48])
    n = r.randint(1, 100000)
    marks = r.sample(MARKS, r.randint(0, 12))
    return "part markers markers %d %d %d %d 0 0 %s - %d %s" % (
        n, r.choice([-1, -1, 0, 1]), r.choice([-1, n]), r.randint(0, 1), vf.hexs(text(r)), rate, " ".join("%s %d" % (m, r.randint(0, n)) for m in marks))


def part(r, role, kind, lang="", mca=0, enc=None):
    n = r.randint(1, 5)
    entry = r.choice([0, 0, r.randint(0, n)])
    extra = ""
    if role == "picture" and r.random() < .6:
        extra = " " + r.choice(["1998 1080", "2048 858", "1920 1080", "4 3", "5 3", "2 1", "1 1", "239 100", "1440 1080", "3 1"])
    if enc is None:
        enc = 1 if r.random() < .3 and kind != "text" else 0
    return "part %s %s %d %d %d %d %d %d %s %s%s" % (role, kind, n, entry, r.choice([-1, -1, r.randint(0, n - entry)]), r.randint(0, 1), enc, mca, vf.hexs(text(r)), vf.hexs(lang), extra)


def script(r, c, more=False):
    smpte = c["std"] == "smpte"
    s = ["new %s %s %s" % (c["std"], c["profile"], vf.hexs(text(r)))]
    fields = list(c["fields"])
    r.shuffle(fields)
    s += ["set %s %s" % (f, value(r, f, c["langs"])) for f in fields]
    for k, sub in enumerate(c["subs"]):
        s.append("reel")
        parts = []
        if r.random() < .3:
            parts.append(markers(r))
        if c["pic"] if k == 0 else r.random() < .5:
            parts.append(part(r, "picture", r.choice(["mono", "mono", "stereo"])))
        if k == 0 and c["mca"]:
            parts.append(part(r, "sound", "sound", mca=1, enc=0))
        elif r.random() < .4:
            parts.append(part(r, "sound", "sound"))
        if sub != "nosub":
            parts.append(part(r, "subtitle", "text", "" if sub == "none" else sub))
        for role, odds in (("ccap", .2), ("ccap", .1), ("caption", .1), ("csub", .1), ("csub", .1)):
            if r.random() < odds and (smpte or role == "ccap"):
                parts.append(part(r, role, "text", r.choice(["", "de", "fr", "en-GB"])))
        if r.random() < .1:
            parts.append(part(r, "atmos", "atmos"))
        r.shuffle(parts)
        s += parts
    s.append("write")
    if r.random() < .3:
        s.append("scope " + h(r.choice(["http://scope", "x"])))
    s += ["read", "write"]
    if more or r.random() < .5:
        for _ in range(r.randint(1, 4)):
            f = r.choice(["issuer", "title", "version", "noversion", "status", "chain", "territory", "languages", "versions", "ratings", "sign_language", "edr",
                          "kind", "full_title", "date", "luminance", "stored", "active", "sound_config"])
            s.append("set %s %s" % (f, value(r, f, [r.choice(TAGS)])))
        if r.random() < .3:
            s += ["set active " + h(*r.choice([("1999", "1080"), ("1998", "1081"), ("3", "3")])), "set version " + h("-%d" % r.randint(1, 9)), "set versions " + h("a", "x", "b", "y", "a", "z")]
        s += ["write", "read", "write", "read", "write"]
    return s


def c19(ctx):
    ctx.design("MCComposition")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenComposition")
    if ctx.quick:
        cases = r.sample(cases, 500)
    ctx.conform(e, "CompositionTrace", [script(r, c) for c in cases], what="spec-enumerated fields and languages")
    scripts = []
    every = ["issuer", "creator", "annotation", "title", "kind", "date", "versions", "ratings", "full_title", "full_title_language", "territory", "version", "status",
             "chain", "distributor", "facility", "luminance", "languages", "sign_language", "edr"]
    for _ in range(ctx.n(150, 3000)):
        fields = [f for f in every if r.random() < .5] + [f for f in ("sound_config", "sound_rate", "stored", "active") if r.random() < .95]
        fields += [r.choice(every) for _ in range(2)]
        scripts.append(script(r, {"std": r.choice(["smpte", "smpte", "smpte", "interop"]), "profile": r.choice(["a", "20", "21"]), "fields": fields,
                                  "langs": [r.choice(TAGS) for _ in range(r.randint(0, 3))], "subs": [r.choice(["nosub", "none", "fr", "de", "en-GB"]) for _ in range(r.randint(1, 4))],
                                  "pic": r.random() < .8, "mca": int(r.random() < .3)}, more=True))
    ctx.conform(e, "CompositionTrace", scripts, what="compositions with many fields")
    return ctx.finish("model_checking", rule="design: all small compositions under writing and reading; conformance: compositions of the spec's shapes with arbitrary text, written, read, changed and written again")
