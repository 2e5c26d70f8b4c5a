------------------------------ MODULE MCTexts ------------------------------
(* Writing lines of strings: what strings of a line have in common goes outside the line, what is left goes around each
   string, and strings next to one another share what is left.  Read again, the document says what was given.  *)
EXTENDS TextDoc

CONSTANTS Strings, MaxStrings, ByPosition, SpaceInside
VARIABLES given

Node(n, a, kids) == [n |-> n, a |-> a, kids |-> kids, t |-> <<>>]
Leaf(s) == [n |-> "#", a |-> <<>>, kids |-> <<>>, t |-> s]

FontOf(t) == {<<"Weight", IF t.bo = 1 THEN Codes("bold") ELSE Codes("normal")>>, <<"Italic", IF t.it = 1 THEN Codes("yes") ELSE Codes("no")>>, <<"Size", Decimal(t.size)>>}
             \union (IF t.font = <<>> THEN {} ELSE {<<"ID", t.font[1]>>})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Around(font, kids) == IF font = {} THEN kids ELSE <<Node("Font", SeqOf(font), kids)>>
Tenth(n) == Decimal(n \div 1000) \o Codes(".") \o <<48 + ((n % 1000) \div 100)>>
Gap(t) == IF t.space = 0 THEN <<>> ELSE <<Node("Space", << <<"Size", Tenth(t.space)>> >>, <<>>)>>

(* the strings of a line: each inside what it does not share *)
RECURSIVE Inside(_, _)
Inside(line, common) ==
  IF line = <<>> THEN <<>>
  ELSE LET f == FontOf(Head(line)) \ common
           last == Least({i \in DOMAIN line : i = Len(line) \/ FontOf(line[i + 1]) \ common # f \/ line[i + 1].space # 0})
           group == [i \in 1..last |-> Leaf(line[i].t)]
           kids == IF SpaceInside THEN Around(f, Gap(Head(line)) \o group) ELSE Gap(Head(line)) \o Around(f, group)
       IN  kids \o Inside(SubSeq(line, last + 1, Len(line)), common)

SameLine(a, b) == a.vp = b.vp /\ a.hp = b.hp /\ (ByPosition \/ a.vz = b.vz)
RECURSIVE Lines(_)
Lines(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET n == Least({i \in DOMAIN ts : i = Len(ts) \/ ~SameLine(ts[1], ts[i + 1])})
       IN  <<SubSeq(ts, 1, n)>> \o Lines(SubSeq(ts, n + 1, Len(ts)))
Common(line) == {x \in FontOf(line[1]) : \A i \in DOMAIN line : x \in FontOf(line[i])}
Placement(t) == << <<"Vposition", Decimal(t.vp \div 1000)>>, <<"Hposition", Decimal(t.hp \div 1000)>>, <<"Valign", Codes(t.va)>> >>
                \o IF t.vz = <<>> THEN <<>> ELSE << <<"VariableZ", Codes("Z") \o Decimal(t.vz[1][1])>> >>
LineNode(line) == Around(Common(line), <<Node("Text", Placement(line[1]), Inside(line, Common(line)))>>)
RECURSIVE AllLines(_)
AllLines(ls) == IF ls = <<>> THEN <<>> ELSE LineNode(Head(ls)) \o AllLines(Tail(ls))
Zs(ts) == {ts[i].vz : i \in DOMAIN ts} \ {<<>>}
RECURSIVE Loads(_)
Loads(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE z \in S : TRUE IN <<Node("LoadVariableZ", << <<"ID", Codes("Z") \o Decimal(z[1][1])>> >>, <<Leaf(Decimal(z[1][1] \div 1000))>>)>> \o Loads(S \ {z})
Subtitle(ts) == Node("Subtitle", << <<"TimeIn", Codes("00:00:01:00")>>, <<"TimeOut", Codes("00:00:02:00")>>, <<"FadeUpTime", Codes("00:00:00:00")>>, <<"FadeDownTime", Codes("00:00:00:00")>> >>,
                     Loads(Zs(ts)) \o AllLines(Lines(ts)))
Document(ts) == Node("SubtitleReel", <<>>, <<Node("SubtitleList", <<>>, <<Subtitle(Order(ts))>>)>>)

Base == [k |-> "s", font |-> <<>>, size |-> 42, aspect |-> 1000, it |-> 0, bo |-> 0, un |-> 0, col |-> <<255, 255, 255>>, eff |-> "none", ecol |-> <<0, 0, 0>>,
         hp |-> 0, ha |-> "center", vp |-> 10000, va |-> "top", zp |-> 0, vz |-> <<>>, dir |-> "ltr", tin |-> <<1, 0>>, tout |-> <<2, 0>>, fu |-> <<0, 0>>, fd |-> <<0, 0>>,
         t |-> Codes("a"), space |-> 0, rubies |-> <<>>]
StringsMC ==
  {[Base EXCEPT !.bo = b, !.it = i, !.space = s, !.vp = v, !.t = w] : b \in 0..1, i \in 0..1, s \in {0, 500}, v \in {10000, 20000}, w \in {Codes("a"), Codes("b")}}
  \union {[Base EXCEPT !.bo = 1, !.font = <<Codes("f")>>], [Base EXCEPT !.size = 50], [Base EXCEPT !.vz = << <<3000, 1>> >>], [Base EXCEPT !.vz = << <<4000, 1>> >>], [Base EXCEPT !.hp = 5000]}

(* a Space may only be directly inside a Text *)
RECURSIVE Placing(_, _)
Placing(node, in) == (node.n = "Space" => in = "Text") /\ \A i \in DOMAIN node.kids : Placing(node.kids[i], node.n)

Init == given = <<>>
Next == Len(given) < MaxStrings /\ \E s \in Strings : given' = Append(given, s)
Spec == Init /\ [][Next]_given

RoundTrip == given # <<>> => LET m == Meaning(Document(given), "smpte", 24) IN ~m.bad /\ Says(m.texts, given)
Allowed == given # <<>> => Placing(Document(given), "")
=============================================================================
