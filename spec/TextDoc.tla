------------------------------ MODULE TextDoc ------------------------------
(* Subtitles and captions.  A document is a tree of nodes [n, a, kids, t]: n is the name ("#" for text, "#c" for a
   comment), a a sequence of <<name, value>>, t the text of a text node.  Meaning gives the texts that a document shows.

   A text is a record: k is "s" for a string and "i" for an image; positions are in thousandths of a percent, numbers of
   other kinds in thousandths, times are <<seconds, 12000ths>> and colours <<red, green, blue>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Text

Att(node, name) == LET S == {i \in DOMAIN node.a : node.a[i][1] = name} IN IF S = {} THEN <<>> ELSE <<node.a[CHOOSE i \in S : TRUE][2]>>
(* the first of some names that is there *)
RECURSIVE AttOf(_, _)
AttOf(node, names) == IF names = <<>> THEN <<>> ELSE LET v == Att(node, Head(names)) IN IF v # <<>> THEN v ELSE AttOf(node, Tail(names))

---------------------------------------------------------------------------
(* Values *)
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
RECURSIVE Number(_, _)
Number(s, acc) == IF s = <<>> THEN acc ELSE Number(Tail(s), acc * 10 + (Head(s) - 48))
Whole(s) == IF s # <<>> /\ Head(s) = 45 THEN -Number(Tail(s), 0) ELSE Number(s, 0)
Digits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])

RECURSIVE SplitAt(_, _, _)
SplitAt(s, seps, acc) ==
  IF s = <<>> THEN <<acc>> ELSE IF Head(s) \in seps THEN <<acc>> \o SplitAt(Tail(s), seps, <<>>) ELSE SplitAt(Tail(s), seps, Append(acc, Head(s)))
Split(s, seps) == SplitAt(s, seps, <<>>)

(* a decimal number, in thousandths *)
Thousandths(text) ==
  LET s == Without(text, 32)
      neg == s # <<>> /\ Head(s) = 45
      p == Split(IF neg THEN Tail(s) ELSE s, {46})
      frac == IF Len(p) = 1 THEN <<>> ELSE p[2]
      v == Number(p[1], 0) * 1000 + Number([i \in 1..3 |-> IF i <= Len(frac) THEN frac[i] ELSE 48], 0)
  IN  IF neg THEN -v ELSE v

True(s) == IF s \in {Codes("1"), Codes("yes")} THEN 1 ELSE 0
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
ColourOf(s) == [i \in 1..3 |-> Hex(s[2 * i + 1]) * 16 + Hex(s[2 * i + 2])]

Unit == 12000
TimeOf(s, rate) ==
  LET p == Split(s, {58})
      head == Number(p[1], 0) * 3600 + Number(p[2], 0) * 60
      q == Split(p[3], {46})
  IN  IF Len(p) = 4 THEN <<head + Number(p[3], 0), Number(p[4], 0) * (Unit \div rate)>>
      ELSE <<head + Number(q[1], 0), Number(q[2], 0) * (Unit \div 1000)>>
After2(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Least2(a, b) == IF After2(a, b) THEN b ELSE a

(* a fade is a time or a number of units; 20/250 s if it is not given and at most eight seconds *)
FadeOf(v, rate) ==
  LET t == IF v = <<>> \/ v[1] = <<>> THEN <<0, 20 * (Unit \div 250)>>
           ELSE IF \E i \in DOMAIN v[1] : v[1][i] = 58 THEN TimeOf(v[1], rate)
           ELSE LET n == Whole(v[1]) IN <<n \div rate, (n % rate) * (Unit \div rate)>>
  IN  Least2(t, <<8, 0>>)

---------------------------------------------------------------------------
(* LoadVariableZ: positions (in thousandths) that last for some number of frames *)
Parts(s) == SelectSeq(Split(s, {9, 10, 13, 32}), LAMBDA x : x # <<>>)
PartOk(p) == LET h == Split(p, {58}) IN Len(h) <= 2 /\ (\A i \in DOMAIN h[1] : h[1][i] \in (48..57) \union {45, 46}) /\ h[1] # <<>> /\ (Len(h) = 2 => Digits(h[2]) /\ Whole(h[2]) > 0)
ZOf(p) == LET h == Split(p, {58}) IN <<Thousandths(h[1]), IF Len(h) = 2 THEN Whole(h[2]) ELSE 1>>
RECURSIVE TextIn(_)
TextIn(kids) == IF kids = <<>> THEN <<>> ELSE (IF Head(kids).n = "#" THEN Head(kids).t ELSE <<>>) \o TextIn(Tail(kids))
LoadZ(node) ==
  LET p == Parts(TextIn(node.kids))
      ok == p # <<>> /\ \A i \in DOMAIN p : PartOk(p[i])
  IN  [id |-> Att(node, "ID"), ok |-> ok, pos |-> IF ok THEN [i \in DOMAIN p |-> ZOf(p[i])] ELSE <<>>]

Named(kids, name) == SelectSeq(kids, LAMBDA x : x.n = name)

RubyOf(node) ==
  LET b == Named(node.kids, "Rb")
      t == Named(node.kids, "Rt")
      v(name, default) == LET x == Att(t[1], name) IN IF x = <<>> THEN default ELSE Thousandths(x[1])
  IN  [base |-> TextIn(b[1].kids), ann |-> TextIn(t[1].kids), size |-> v("Size", 500), off |-> v("Offset", 0), spacing |-> v("Spacing", 0), aspect |-> v("AspectAdjust", 1000),
       pos |-> IF Att(t[1], "Position") = <<Codes("after")>> THEN "after" ELSE "before"]

---------------------------------------------------------------------------
(* What is in force at some place in a document *)
Start == [font |-> <<>>, size |-> 42, aspect |-> 1000, it |-> 0, bo |-> 0, un |-> 0, col |-> <<255, 255, 255>>, eff |-> "none", ecol |-> <<0, 0, 0>>,
          hp |-> 0, ha |-> "center", vp |-> 0, va |-> "center", zp |-> 0, vz |-> <<>>, dir |-> "ltr", tin |-> <<>>, tout |-> <<>>, fu |-> <<0, 0>>, fd |-> <<0, 0>>,
          kind |-> "", loads |-> <<>>, rubies |-> <<>>]

Word(s) ==
  LET words == {"none", "border", "shadow", "left", "center", "right", "top", "bottom", "ltr", "rtl", "ttb", "btt"}
  IN  IF s \in {Codes("horizontal")} THEN "ltr" ELSE IF s = Codes("vertical") THEN "ttb" ELSE CHOOSE w \in words : Codes(w) = s

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Is(v, old, Val(_)) == IF v = <<>> THEN old ELSE Val(v[1])

InFont(c, node, std) ==
  [c EXCEPT !.font = LET v == Att(node, IF std = "smpte" THEN "ID" ELSE "Id") IN IF v = <<>> THEN @ ELSE v,
            !.size = Is(Att(node, "Size"), @, LAMBDA s : Whole(Without(s, 32))),
            !.aspect = Is(Att(node, "AspectAdjust"), @, LAMBDA s : Clamp(Thousandths(s), 250, 4000)),
            !.it = Is(Att(node, "Italic"), @, True),
            !.bo = Is(Att(node, "Weight"), @, LAMBDA s : IF s = Codes("bold") THEN 1 ELSE 0),
            !.un = Is(Att(node, IF std = "smpte" THEN "Underline" ELSE "Underlined"), @, True),
            !.col = Is(Att(node, "Color"), @, ColourOf),
            !.eff = Is(Att(node, "Effect"), @, Word),
            !.ecol = Is(Att(node, "EffectColor"), @, ColourOf)]

InSubtitle(c, node, rate) ==
  [c EXCEPT !.tin = TimeOf(Att(node, "TimeIn")[1], rate), !.tout = TimeOf(Att(node, "TimeOut")[1], rate),
            !.fu = FadeOf(Att(node, "FadeUpTime"), rate), !.fd = FadeOf(Att(node, "FadeDownTime"), rate),
            !.loads = LET z == Named(node.kids, "LoadVariableZ") IN [i \in DOMAIN z |-> LoadZ(z[i])]]

Placed(c, node) ==
  [c EXCEPT !.hp = Is(AttOf(node, <<"HPosition", "Hposition">>), @, Thousandths), !.ha = Is(AttOf(node, <<"HAlign", "Halign">>), @, Word),
            !.vp = Is(AttOf(node, <<"VPosition", "Vposition">>), @, Thousandths), !.va = Is(AttOf(node, <<"VAlign", "Valign">>), @, Word),
            !.zp = Is(Att(node, "Zposition"), @, Thousandths),
            !.vz = LET v == Att(node, "VariableZ") IN IF v = <<>> THEN @ ELSE v]
InText(c, node) ==
  [Placed(c, node) EXCEPT !.kind = "s", !.dir = Is(Att(node, "Direction"), @, Word),
                          !.rubies = LET r == Named(node.kids, "Ruby") IN [i \in DOMAIN r |-> RubyOf(r[i])]]
InImage(c, node) == [Placed(c, node) EXCEPT !.kind = "i"]

Chosen(c) == {i \in DOMAIN c.loads : c.vz # <<>> /\ c.loads[i].id = c.vz}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
ZPositions(c) == IF Chosen(c) = {} THEN <<>> ELSE c.loads[Least(Chosen(c))].pos
ZOk(c) == Chosen(c) = {} \/ c.loads[Least(Chosen(c))].ok

Urn == Codes("urn:uuid:")
ImageId(s, std) ==
  IF std = "interop" THEN IF Len(s) >= 4 THEN SubSeq(s, 1, Len(s) - 4) ELSE s
  ELSE IF HasPrefix(s, Urn) THEN SubSeq(s, 10, Len(s)) ELSE s

(* fonts do not matter for images *)
Shown(c, s, space, std) ==
  IF c.kind = "s"
  THEN [k |-> "s", font |-> c.font, size |-> c.size, aspect |-> c.aspect, it |-> c.it, bo |-> c.bo, un |-> c.un, col |-> c.col, eff |-> c.eff, ecol |-> c.ecol,
        hp |-> c.hp, ha |-> c.ha, vp |-> c.vp, va |-> c.va, zp |-> c.zp, vz |-> ZPositions(c), dir |-> c.dir, tin |-> c.tin, tout |-> c.tout, fu |-> c.fu, fd |-> c.fd,
        t |-> s, space |-> space, rubies |-> c.rubies]
  ELSE [k |-> "i", font |-> <<>>, size |-> 0, aspect |-> 0, it |-> 0, bo |-> 0, un |-> 0, col |-> <<0, 0, 0>>, eff |-> "", ecol |-> <<0, 0, 0>>,
        hp |-> c.hp, ha |-> c.ha, vp |-> c.vp, va |-> c.va, zp |-> c.zp, vz |-> ZPositions(c), dir |-> "", tin |-> c.tin, tout |-> c.tout, fu |-> c.fu, fd |-> c.fd,
        t |-> ImageId(s, std), space |-> 0, rubies |-> <<>>]

SpaceOf(node, std) == Is(Att(node, "Size"), 500, LAMBDA s : Thousandths(IF HasSuffix(s, Codes("em")) THEN SubSeq(s, 1, Len(s) - 2) ELSE s))

(* the walk gives the texts so far, the space that the next string has before it, and whether anything was wrong *)
RECURSIVE Walk(_, _, _, _, _), WalkKids(_, _, _, _, _)
Walk(node, c, acc, std, rate) ==
  CASE node.n = "Font" -> WalkKids(node.kids, InFont(c, node, std), acc, std, rate)
    [] node.n = "Subtitle" -> WalkKids(node.kids, InSubtitle(c, node, rate), acc, std, rate)
    [] node.n = "Text" -> [WalkKids(node.kids, InText(c, node), [acc EXCEPT !.space = 0], std, rate) EXCEPT !.space = 0]
    [] node.n = "Image" -> WalkKids(node.kids, InImage(c, node), acc, std, rate)
    [] node.n = "SubtitleList" -> WalkKids(node.kids, c, acc, std, rate)
    [] node.n = "Space" -> [acc EXCEPT !.space = @ + SpaceOf(node, std)]
    [] node.n = "#" -> IF c.kind = "" \/ c.tin = <<>> THEN acc
                       ELSE [acc EXCEPT !.texts = Append(@, Shown(c, node.t, acc.space, std)), !.space = 0, !.bad = @ \/ ~ZOk(c)]
    [] node.n \in {"LoadVariableZ", "Ruby", "#c"} -> acc
    [] OTHER -> [acc EXCEPT !.bad = TRUE]
WalkKids(kids, c, acc, std, rate) == IF kids = <<>> THEN acc ELSE WalkKids(Tail(kids), c, Walk(Head(kids), c, acc, std, rate), std, rate)

(* of the children of the root, the ones that hold texts *)
Roots(root, std) == SelectSeq(root.kids, LAMBDA x : x.n \in IF std = "smpte" THEN {"SubtitleList"} ELSE {"Font", "Subtitle"})
Meaning(root, std, rate) == WalkKids(Roots(root, std), Start, [texts |-> <<>>, space |-> 0, bad |-> FALSE], std, rate)

---------------------------------------------------------------------------
(* Strings that follow one another without space between them, and look the same, are as one *)
Alike(a, b) == a.k = "s" /\ b.k = "s" /\ b.space = 0 /\ [a EXCEPT !.t = <<>>, !.space = 0] = [b EXCEPT !.t = <<>>, !.space = 0]
RECURSIVE Joined(_, _)
Joined(ts, acc) ==
  IF ts = <<>> THEN acc
  ELSE IF acc # <<>> /\ Alike(acc[Len(acc)], Head(ts)) THEN Joined(Tail(ts), [acc EXCEPT ![Len(acc)].t = @ \o Head(ts).t])
  ELSE Joined(Tail(ts), Append(acc, Head(ts)))
Norm(ts) == Joined(ts, <<>>)

(* Texts are written in the order in which they appear; those that appear together from the top down *)
Higher(a, b) == IF a.va = "bottom" THEN a.vp > b.vp ELSE a.vp < b.vp
Order(ts) ==
  LET e == [i \in DOMAIN ts |-> <<i, ts[i]>>]
      before(x, y) == LET a == x[2]
                          b == y[2]
                      IN IF a.tin # b.tin THEN After2(b.tin, a.tin) ELSE IF Higher(a, b) THEN TRUE ELSE IF Higher(b, a) THEN FALSE ELSE x[1] < y[1]
      s == SortSeq(e, before)
  IN  [i \in DOMAIN s |-> s[i][2]]

(* the older standard has neither depth nor direction *)
Kept(t, std) == IF std = "smpte" THEN t ELSE [t EXCEPT !.zp = 0, !.dir = IF t.k = "i" THEN "" ELSE "ltr"]

Range(s) == {s[i] : i \in DOMAIN s}
(* texts at the same time with different vertical alignment come in some order *)
Mixed(ts) == \E i, j \in DOMAIN ts : ts[i].tin = ts[j].tin /\ ts[i].va # ts[j].va
Times(ts) == [i \in DOMAIN ts |-> ts[i].tin]
Says(shown, given) ==
  IF Mixed(given) THEN Range(shown) = Range(given) /\ Len(shown) = Len(given) /\ Times(shown) = Times(Order(given))
  ELSE Norm(shown) = Norm(Order(given))

Latest(ts) == LET RECURSIVE L(_, _)
                  L(s, m) == IF s = <<>> THEN m ELSE L(Tail(s), IF After2(Head(s).tout, m) THEN Head(s).tout ELSE m)
              IN  L(ts, <<0, 0>>)
(* a duration in frames, rounded up *)
Frames(t, rate) == t[1] * rate + (t[2] * rate + Unit - 1) \div Unit

(* those that start in [from, to), or that are seen at some time in [from, to] *)
During(ts, from, to, starting) ==
  SelectSeq(ts, LAMBDA t : IF starting THEN ~After2(from, t.tin) /\ After2(to, t.tin) ELSE ~After2(from, t.tout) /\ ~After2(t.tin, to))
=============================================================================
