----------------------------- MODULE GenCombine -----------------------------
(* Two packages: whether they are of one standard, have files of one name, have or use one another's assets, and how they are given *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Worlds ==
  [standards : {<<"smpte", "smpte">>, <<"interop", "interop">>, <<"smpte", "interop">>},
   name : {"p.mxf", "q.mxf", "d/p.mxf"}, pic : {"own", "copy", "other"},
   first : {"none", "plain", "fonts"}, text : {"none", "own", "copy", "other"},
   sign : {0, 1}, inputs : {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2, 1>>}]
Sensible(w) ==
  /\ w.text \in {"copy", "other"} => w.first # "none"
  /\ w.standards[1] # w.standards[2] => w.pic = "own" /\ w.text \in {"none", "own"}
  /\ w.pic = "other" => w.name = "p.mxf"
  /\ w.inputs = <<1>> => w.pic = "own" /\ w.name = "p.mxf" /\ w.text = "none"
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({w \in Worlds : Sensible(w)}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
