"""C25: subtitles and captions"""
from lib import vf

WORDS = ["Hello", "a", " ", "  two  spaces ", "<b>&amp;</b>", "\"quoted\" 'so'", "tab\there", "new\nline", "žluťoučký kůň", "日本語", "\U0001f600", "x]]>y", "العربية", "&lt;", "- Dash", ". . ."]
FONT_IDS = ["", "arial", "Font 1", "a&b", "x<y>", "say \"hi\"", "it's", "字体"]
RATES = [24, 25, 30, 48, 50, 60]
NS = {2007: "http://www.smpte-ra.org/schemas/428-7/2007/DCST", 2010: "http://www.smpte-ra.org/schemas/428-7/2010/DCST", 2014: "http://www.smpte-ra.org/schemas/428-7/2014/DCST"}
VALUES = {"Id": ["one", "two"], "Size": ["50", " 60 "], "AspectAdjust": ["1.5", "0.5"], "Italic": ["yes", "no"], "Weight": ["bold", "normal"], "Underline": ["yes", "no"],
          "Color": ["FF102030", "80ffEE01"], "Effect": ["border", "shadow"], "EffectColor": ["FF0a0b0c", "FFFFFFFF"]}


def exe():
    return vf.build_full("texts", "texts.cc")


def esc(s, attribute=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return s.replace('"', "&quot;") if attribute else s


def el(name, attrs=(), kids=()):
    a = "".join(' %s="%s"' % (k, esc(v, True)) for k, v in attrs)
    return "<%s%s>%s</%s>" % (name, a, "".join(kids), name) if kids else "<%s%s/>" % (name, a)


def feature(name, std):
    if name == "Id":
        return "ID" if std == "smpte" else "Id"
    if name == "Underline":
        return "Underline" if std == "smpte" else "Underlined"
    return name


class Doc:
    """A document that the library did not write"""
    def __init__(self, r, std):
        self.r, self.std = r, std
        self.tcr = r.choice(RATES) if std == "smpte" else 250

    def time(self, s=None):
        r = self.r
        s = r.randint(0, 7000) if s is None else s
        e = r.randrange(self.tcr)
        if self.std == "interop" and r.random() < .3:
            return "%02d:%02d:%02d.%03d" % (s // 3600, s // 60 % 60, s % 60, r.randrange(1000))
        return "%02d:%02d:%02d:%0*d" % (s // 3600, s // 60 % 60, s % 60, 3 if self.std == "interop" else r.choice([2, 3]), e)

    def fade(self):
        r = self.r
        k = r.randint(0, 5)
        if k == 0:
            return None
        if k == 1:
            return ""
        if k == 2:
            return str(r.choice([0, 1, 20, r.randint(0, 3000)]))
        return self.time(r.choice([0, 0, 1, 7, 8, 9, 100]))

    def font(self, kids, some=.4):
        a = [(feature(f, self.std), self.r.choice(v)) for f, v in VALUES.items() if self.r.random() < some]
        if self.r.random() < .1:
            a.append(("Script", "normal"))
        self.r.shuffle(a)
        return el("Font", a, kids)

    def place(self, zs):
        r = self.r
        a = []
        for name in ("position", "align"):
            for d in "HV":
                if r.random() < .6:
                    n = d + (name if r.random() < .5 else name.capitalize())
                    v = r.choice(["0", "10", "-5", "12.5", "99.8", " 3 ", "100"]) if name == "position" else r.choice(["left", "center", "right"] if d == "H" else ["top", "center", "bottom"])
                    a.append((n, v))
        if r.random() < .2:
            a.append(("Zposition", r.choice(["1.5", "-20", "0"])))
        if zs and r.random() < .6:
            a.append(("VariableZ", r.choice(zs + ["nowhere"])))
        r.shuffle(a)
        return a

    def words(self):
        return esc(self.r.choice(WORDS))

    def run(self, depth=0):
        r = self.r
        k = r.random()
        if k < .45:
            return self.words()
        if k < .55:
            return "<!-- %s -->" % r.choice(["a comment", "x", "<Text>"])
        if k < .58:
            return "<?pi content?>"
        if k < .62:
            return "<![CDATA[%s]]>" % r.choice(["plain", "<b>", "a & b"])
        if k < .75 and depth == 0:
            return el("Space", r.choice([[], [("Size", r.choice(["0.5", "2", "9.5", "-1", "0"]) + (r.choice(["", "em"]) if self.std == "interop" else ""))]]))
        if k < .82 and depth == 0:
            return self.ruby()
        if depth < 2:
            return self.font([self.run(depth + 1) for _ in range(r.randint(0, 3))])
        return self.words()

    def ruby(self):
        r = self.r
        a = [(n, v) for n, v in (("Size", r.choice(["0.5", "0.7"])), ("Position", r.choice(["before", "after"])), ("Offset", r.choice(["0.1", "-0.2", "1"])), ("Spacing", "0.5"), ("AspectAdjust", r.choice(["1.5", "0.8"]))) if r.random() < .5]
        return el("Ruby", [], [el("Rb", [], [self.words()]), el("Rt", a, [self.words()])])

    def text(self, zs):
        a = self.place(zs)
        if self.r.random() < .3:
            a.append(("Direction", self.r.choice(["ltr", "rtl", "ttb", "btt"] if self.std == "smpte" else ["horizontal", "vertical"])))
        return el("Text", a, [self.run() for _ in range(self.r.randint(0, 4))])

    def image(self, zs):
        r = self.r
        name = "picture%d" % r.randint(0, 3)
        if r.random() < .01:
            name = "missing"
        return el("Image", self.place(zs), [("urn:uuid:" if r.random() < .5 else "") + name if self.std == "smpte" else name + ".png"])

    def subtitle(self):
        r = self.r
        a = [("SpotNumber", "1"), ("TimeIn", self.time()), ("TimeOut", self.time())]
        for n in ("FadeUpTime", "FadeDownTime"):
            f = self.fade()
            if f is not None:
                a.append((n, f))
        zs = []
        kids = []
        for i in range(r.choice([0, 0, 1, 2])):
            zs.append("Z%d" % r.randint(1, 3))
            content = " ".join(r.choice(["1.5", "-2", "3:24", "0.5:1", "10:2"]) for _ in range(r.randint(1, 3)))
            if r.random() < .05:
                content = r.choice(["", "x", "1:2:3", "1:0", "1.5 y:2"])
            kids.append(el("LoadVariableZ", [("ID", zs[-1])], [content.replace(" ", r.choice([" ", "\n  ", "\t"]))]))
        for _ in range(r.randint(1, 3)):
            k = self.text(zs) if r.random() < .8 else self.image(zs)
            if r.random() < .3:
                k = self.font([k])
            kids.append(k)
            if r.random() < .2:
                kids.append(r.choice(["\n  ", "<!-- between -->", "stray"]))
        return el("Subtitle", a, kids)

    def whole(self, body):
        r = self.r
        if self.std == "smpte":
            h = [el("Id", [], ["urn:uuid:0f1e2d3c-0000-4000-8000-%012x" % r.randrange(1 << 40)]), el("ContentTitleText", [], [esc(r.choice(["Title", "A & B", "Ünïcode"]))])]
            if r.random() < .4:
                h.append(el("AnnotationText", [], ["Note"]))
            h.append(el("IssueDate", [], ["2021-0%d-1%dT1%d:20:30" % (r.randint(1, 9), r.randint(0, 9), r.randint(0, 9))]))
            if r.random() < .5:
                h.append(el("ReelNumber", [], [str(r.randint(1, 20))]))
            if r.random() < .5:
                h.append(el("Language", [], [r.choice(["en", "de-DE", "zh-Hant"])]))
            h.append(el("EditRate", [], [r.choice(["%d 1", "%d"]) % r.choice([24, 25, 30, 48])]))
            h.append(el("TimeCodeRate", [], [str(self.tcr)]))
            if r.random() < .5:
                h.append(el("StartTime", [], ["00:00:0%d:00" % r.randint(0, 9)]))
            h += [el("LoadFont", [("ID", f)], ["urn:uuid:0f1e2d3c-0000-4000-9000-%012x" % i]) for i, f in enumerate(r.sample(FONT_IDS[1:], r.randint(0, 2)))]
            inside = "".join(h) + el("SubtitleList", [], body)
            return '<?xml version="1.0" encoding="UTF-8"?>\n<SubtitleReel xmlns="%s">%s</SubtitleReel>\n' % (r.choice(list(NS.values())), inside)
        h = [el("SubtitleID", [], ["0f1e2d3c-0000-4000-8000-%012x" % r.randrange(1 << 40)]), el("MovieTitle", [], [esc(r.choice(["Title", "A & B", "Ünïcode"]))]), el("ReelNumber", [], [r.choice(["1", "12"])]), el("Language", [], [r.choice(["English", "de"])])]
        h += [el("LoadFont", [("Id", f), ("URI", "f%d.ttf" % i)]) for i, f in enumerate(r.sample(FONT_IDS[1:], r.randint(0, 2)))]
        return '<?xml version="1.0" encoding="UTF-8"?>\n<DCSubtitle Version="1.0">%s</DCSubtitle>\n' % ("".join(h) + "".join(body))

    def random(self):
        r = self.r
        body = []
        for _ in range(r.randint(1, 4)):
            s = self.subtitle()
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                s = self.font([s] + ([self.subtitle()] if r.random() < .3 else []))
            body.append(s)
        return "foreign %s %s" % (self.std, vf.hexs(self.whole(body)))


TIMES = [("TimeIn", "00:00:01:00"), ("TimeOut", "00:00:02:00")]


def nest(r, c):
    d = Doc(r, c["std"])
    f = feature(c["feature"], c["std"])
    at = lambda n: [(f, VALUES[c["feature"]][n - 1])] if n else []
    text = el("Text", [], ["x", el("Font", at(c["inner"]), ["y"]), "z"])
    return ["foreign %s %s" % (c["std"], vf.hexs(d.whole([el("Font", at(c["outer"]), [el("Font", at(c["middle"]), [el("Subtitle", TIMES, [text])])])])))]


def kids(r, c):
    d = Doc(r, c["std"])
    n = iter("abcdefghijkl")
    part = {"t": lambda: next(n), "s": lambda: el("Space", [("Size", str(r.randint(1, 9)))]), "f": lambda: el("Font", [("Italic", "yes")], [next(n)]), "c": lambda: "<!--c-->", "g": lambda: el("Font", [("Size", "50")], [next(n), "<!--c-->", next(n)])}
    return ["foreign %s %s" % (c["std"], vf.hexs(d.whole([el("Subtitle", TIMES, [el("Text", [], [part[k]() for k in c["kids"]])])])))]


def hx(s):
    return vf.hexs(s) if s else "-"


class Given:
    """Texts to be written"""
    def __init__(self, r, k, std, enc=None, **fixed):
        self.r, self.k, self.std = r, k, std
        self.tcr = r.choice(RATES) if std == "smpte" else 250
        self.fixed = fixed
        if std == "smpte":
            self.h = [r.choice([2007, 2010, 2014, 2014]), r.choice([24, 25, 30, 48, 60]), 1, self.tcr, hx(r.choice(["Title", "A & B <c>", "Ünï", ""])), hx("20%02d-%02d-%02dT%02d:%02d:%02d" % (r.randint(10, 40), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))),
                      r.choice([-1, 1, r.randint(1, 99)]), r.choice(["none", "en", "fr-CA"]), r.choice([-1, 0, r.randint(0, 7200)]), r.randint(0, 1) if enc is None else enc]
        else:
            self.h = [hx(r.choice(["Title", "A & B <c>", "Ünï"])), hx(r.choice(["1", "2"])), hx(r.choice(["English", "de"]))]
        self.fonts = []

    def make(self):
        return "make %d %s %s" % (self.k, self.std, " ".join(map(str, self.h)))

    def time(self, lo=0, hi=7200):
        r = self.r
        if r.random() < .2:
            return "%d %d" % (r.randint(lo, hi) * 1000, 1000)
        return "%d %d" % (r.randint(lo * self.tcr, hi * self.tcr), self.tcr)

    def pos(self):
        return self.r.choice([0, 10000, 50000, 100000, -20000, 200 * self.r.randint(-500, 500)])

    def base(self):
        r = self.r
        return dict(font="none", it=0, bo=0, un=0, col="255 255 255", size=42, aspect=1000, tin="%d %d" % (4 * self.tcr, self.tcr), tout="%d %d" % (6 * self.tcr, self.tcr), hp=0, ha="center", vp=10000, va="top", zp=0, vz="none", dir="ltr",
                    text="x", eff="none", ecol="0 0 0", fu="0 %d" % self.tcr, fd="0 %d" % self.tcr, space=0, rubies=[])

    def vary(self, t, key):
        r = self.r
        c = lambda: "%d %d %d" % tuple(r.choice([0, 1, 16, 255, r.randint(0, 255)]) for _ in range(3))
        t[key] = {"font": lambda: r.choice(["none"] + [hx(f) for f in FONT_IDS if f]), "it": lambda: r.randint(0, 1), "bo": lambda: r.randint(0, 1), "un": lambda: r.randint(0, 1), "col": c, "ecol": c,
                  "size": lambda: r.randint(1, 200), "aspect": lambda: r.randint(3, 40) * 100, "tin": lambda: self.time(), "tout": lambda: self.time(), "hp": self.pos, "vp": self.pos, "zp": lambda: r.choice([0, 200 * r.randint(-500, 500)]),
                  "ha": lambda: r.choice(["left", "center", "right"]), "va": lambda: r.choice(["top", "center", "bottom"]), "vz": self.vz, "dir": lambda: r.choice(["ltr", "rtl", "ttb", "btt"]),
                  "text": lambda: r.choice(WORDS), "eff": lambda: r.choice(["none", "border", "shadow"]), "fu": lambda: self.time(0, 8 if r.random() < .1 else 0) if r.random() < .9 else "%d %d" % (8 * self.tcr, self.tcr), "fd": lambda: self.time(0, 7),
                  "space": lambda: r.choice([0, 100 * r.randint(-99, 99)]), "rubies": self.rubies}[key]()
        return t

    def vz(self):
        r = self.r
        return r.choice(["none", ",".join("%d:%d" % (r.randint(-300, 300), r.choice([1, 1, 2, r.randint(1, 1000)])) for _ in range(r.randint(1, 4)))])

    def later(self, time):
        n, rate = map(int, time.split())
        return "%d %d" % (n + (rate * self.r.randint(1, 20) if rate == 1000 else self.r.choice([1, rate, self.r.randint(1, 20 * rate)])), rate)

    def tweak(self, t, key):
        """A small difference in one thing"""
        r = self.r
        if key in ("col", "ecol"):
            c = [int(x) for x in t[key].split()]
            i = r.randrange(3)
            c[i] = c[i] + 1 if c[i] < 255 else 254
            t[key] = "%d %d %d" % tuple(c)
        elif key == "vz" and t["vz"] != "none":
            z = [[int(y) for y in x.split(":")] for x in t["vz"].split(",")]
            x = r.choice(z)
            x[r.randint(0, 1)] += 1
            t["vz"] = ",".join("%d:%d" % tuple(x) for x in z)
        elif key == "rubies" and t["rubies"]:
            i = r.randrange(len(t["rubies"]))
            y = list(t["rubies"][i])
            j = r.randrange(7)
            y[j] = y[j] + "x" if j < 2 else {"before": "after", "after": "before"}[y[j]] if j == 3 else y[j] + 100
            t["rubies"] = [tuple(y) if k == i else x for k, x in enumerate(t["rubies"])]
        elif key in ("hp", "zp"):
            t[key] += r.choice([200, -200])
        elif key in ("it", "bo", "un"):
            t[key] = 1 - t[key]
        else:
            self.vary(t, key)
        return t

    def rubies(self):
        r = self.r
        return [(r.choice(WORDS[:2] + WORDS[8:10]), r.choice(WORDS[:6]), 100 * r.randint(1, 20), r.choice(["before", "after"]), 100 * r.randint(-20, 20), 100 * r.randint(0, 20), 100 * r.randint(3, 40)) for _ in range(r.randint(0, 2))]

    def line(self, t):
        rb = " ".join("%s %s %d %s %d %d %d" % (hx(x[0]), hx(x[1]), *x[2:]) for x in t["rubies"])
        return ("string %d %s %d %d %d %s %d %d %s %s %d %s %d %s %d %s %s %s %s %s %s %s %d %d %s" % (
            self.k, t["font"], t["it"], t["bo"], t["un"], t["col"], t["size"], t["aspect"], t["tin"], t["tout"], t["hp"], t["ha"], t["vp"], t["va"], t["zp"], t["vz"], t["dir"], hx(t["text"]), t["eff"], t["ecol"], t["fu"], t["fd"], t["space"],
            len(t["rubies"]), rb)).rstrip()

    def image(self, t, n):
        return "image %d %d %d %d %s %s %d %s %d %s %d %s %s %s" % (self.k, 30 + n, n, n, t["tin"], t["tout"], t["hp"], t["ha"], t["vp"], t["va"], t["zp"], t["vz"], t["fu"], t["fd"])

    def font(self):
        left = [f for f in FONT_IDS if f not in self.fonts]
        if not left:
            return []
        f = self.r.choice(left)
        self.fonts.append(f)
        return ["font %d %s %d %d" % (self.k, hx(f), self.r.randint(1, 3000), self.r.randint(0, 99))]

    STYLE = ["font", "it", "bo", "un", "col", "ecol", "size", "aspect", "eff", "text", "space"]
    PLACE = ["hp", "vp", "zp", "ha", "vz", "dir"]
    TIME = ["tout", "fu", "fd"]

    def apart(self, t):
        """Somewhere else: rubies belong to a line"""
        self.places += 1
        t["vp"] = 100000 + 200 * self.places

    def group(self, mixed=False):
        """Texts that appear together"""
        r = self.r
        out = []
        t = self.vary(self.vary(self.base(), "tin"), "va")
        if r.random() < .5:
            t["tout"] = self.later(t["tin"])
        for key in self.TIME + self.PLACE + self.STYLE:
            if r.random() < .4:
                self.vary(t, key)
        for i in range(r.choice([1, 1, 2, 3, 4])):
            if r.random() < .15:
                self.vary(t, r.choice(self.TIME))
            if r.random() < .4:
                for key in self.PLACE:
                    if r.random() < .4:
                        (self.tweak if r.random() < .5 else self.vary)(t, key)
            if mixed:
                self.vary(t, "va")
            if r.random() < .12:
                again = self.seen and not mixed and r.random() < .4
                out.append(("image", dict(t), r.choice(sorted(self.seen)) if again else r.randint(1, 1000) if not mixed else len(self.seen) + 2000))
                self.seen.add(out[-1][2])
                continue
            rubies = self.rubies() if r.random() < .2 and self.std == "smpte" else []
            if rubies:
                self.apart(t)
            for j in range(r.choice([1, 1, 1, 2, 3])):
                if j:
                    for key in self.STYLE:
                        if r.random() < .25:
                            self.vary(t, key)
                self.vary(t, "text")
                u = dict(t, rubies=rubies)
                if mixed:
                    self.sizes += 1
                    u["size"] = 300 + self.sizes
                out.append(("string", u, 0))
            if rubies:
                self.apart(t)
        return out

    def moment(self):
        """Some time, often one at which a text comes or goes"""
        return self.r.choice(self.moments) if self.r.random() < .7 else self.time()

    def fill(self, groups, mixed=False):
        self.seen, self.sizes, self.places = set(), 0, 0
        r = self.r
        texts = []
        for _ in range(groups):
            g = self.group(mixed)
            texts += g
        s = []
        self.moments = [t[x] for _, t, _ in texts for x in ("tin", "tout")]
        for kind, t, n in texts:
            s.append(self.line(t) if kind == "string" else self.image(t, n))
        return s


def lines(r, c):
    g = Given(r, 1, c["std"], r.randint(0, 1))
    s = [g.make(), "font 1 %s 10 1" % hx("named")]
    for i, k in enumerate(c["strings"]):
        t = g.base()
        t["text"] = "abcdef"[i]
        t.update({"p": {}, "b": {"bo": 1}, "i": {"it": 1}, "s": {"space": 500}, "c": {"space": 1500, "bo": 1}, "v": {"vp": 5000}, "z": {"vz": "15:2,20:1"}, "y": {"vz": "15:2,20:4"}, "n": {"font": hx("named")},
                  "o": {"tin": "%d %d" % (2 * g.tcr, g.tcr)}}[k])
        s.append(g.line(t))
    return s + ["write 1", "read 1"]


def c25(ctx):
    ctx.design("MCTexts")
    e = exe()
    r = ctx.rng
    cases = ctx.generate("GenTexts")
    pick = lambda name, n: (lambda cs: r.sample(cs, min(n, len(cs))) if ctx.quick else cs)([c for c in cases if c["case"] == name])
    scripts = [nest(r, c) for c in pick("nest", 486)] + [kids(r, c) for c in pick("kids", 500)] + [lines(r, c) for c in pick("line", 700)]
    ctx.conform(e, "TextsTrace", scripts, what="the specification's documents and lines")

    scripts = []
    for _ in range(ctx.n(700, 9000)):
        scripts.append([Doc(r, r.choice(["smpte", "interop"])).random()])
    ctx.conform(e, "TextsTrace", scripts, what="random documents")

    scripts = []
    for _ in range(ctx.n(600, 8000)):
        g = Given(r, 1, r.choice(["smpte", "smpte", "interop"]))
        s = [g.make()]
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            s += g.font()
        if r.random() < .1 and g.fonts:
            s.append("ensure 1 %s 20 5" % hx(r.choice(g.fonts + ["new"])))
        s += g.fill(r.choice([1, 1, 2, 3, 6]), r.random() < .1)
        for _ in range(r.choice([0, 1, 3])):
            a, b = g.moment(), g.moment()
            s.append("during 1 %s %s %d" % (a, b, r.randint(0, 1)))
        if r.random() < .15:
            s.append("fixempty 1")
        if g.std == "smpte" and r.random() < .1:
            s.append("fault %s %d %s" % (r.choice(["open", "frame", "finalize"]), 1, r.choice(["ENOSPC", "EIO", "EDQUOT"])))
            s.append("write 1")
        s += ["write 1", "read 1"]
        scripts.append(s)
    scripts += [["limit %d" % n] for n in (0, 1, 4094, 4095, 5000, r.randint(2, 4000))]
    ctx.conform(e, "TextsTrace", scripts, what="random texts")

    scripts = []
    for _ in range(ctx.n(400, 5000)):
        std = r.choice(["smpte", "interop"])
        g = Given(r, 1, std, 0)
        g.seen, g.sizes, g.places = set(), 0, 0
        texts = g.group() + (g.group() if r.random() < .3 else [])
        fonts = [x for _ in range(r.choice([0, 1, 2])) for x in g.font()]
        render = lambda gg, ts: [gg.line(t) if kind == "string" else gg.image(t, n) for kind, t, n in ts]
        other = Given(r, 2, std, 0)
        other.tcr = g.tcr
        other.h = list(g.h)
        mine = [(a, dict(b), c) for a, b, c in texts]
        fonts2 = [f.replace("font 1", "font 2") for f in fonts]
        what = r.choice(["same", "text", "text", "text", "text", "text", "text", "vp", "vp", "count", "fonts", "header", "header", "standard"])
        if what == "text":
            i = r.randrange(len(mine))
            key = r.choice([k for k in mine[i][1]] if mine[i][0] == "string" else ["tin", "tout", "hp", "ha", "vp", "va", "zp", "vz", "fu", "fd"])
            other.tweak(mine[i][1], key)
            if mine[i][0] == "image" and r.random() < .3:
                mine[i] = (mine[i][0], mine[i][1], mine[i][2] + r.randint(0, 1))
        elif what == "vp":
            i = r.randrange(len(mine))
            mine[i][1]["vp"] += 200 * r.randint(-3, 3)
        elif what == "count":
            mine = mine[:-1] if r.random() < .5 and len(mine) > 1 else mine + mine[-1:]
        elif what == "fonts":
            fonts2 = r.choice([fonts2[:-1], fonts2 + ["font 2 %s 10 1" % hx("other")], [f.replace("font 2 ", "font 2 ff") if f.split()[2] != "-" else f for f in fonts2]])
        elif what == "header":
            fresh = Given(r, 2, std, 0)
            i = r.randrange(len(fresh.h))
            other.h[i] = fresh.h[i] if i != 3 or std == "interop" else other.h[i]
        elif what == "standard":
            other = Given(r, 2, "interop" if std == "smpte" else "smpte", 0)
        s = [g.make()] + fonts + render(g, texts) + [other.make()] + fonts2 + render(other, mine)
        for _ in range(2):
            o = "%d %d %d" % (r.choice([0, 0, 100, 300, 500]), r.randint(0, 1), r.randint(0, 1))
            s += ["compare 1 2 " + o, "compare 2 1 " + o]
        s.append("compare 1 1 0 0 0")
        scripts.append(s)
    ctx.conform(e, "TextsTrace", scripts, what="pairs of texts")
    return ctx.finish("model_checking", rule="design: every group of up to three strings of 37 kinds, written as the library writes and read as the document says; conformance: the spec's documents and lines, random documents, texts and pairs of texts")
