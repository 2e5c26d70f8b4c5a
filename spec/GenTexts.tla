------------------------------ MODULE GenTexts ------------------------------
(* Documents to be read: every feature of a font set, set otherwise or not mentioned at three depths; every line of up to
   four parts (t text, s space, f text in a font, c comment, g two texts in a font).  Texts to be written: lines and groups
   of lines made of strings of several kinds (p plain, b bold, i italic, s after space, c bold after space, v elsewhere, z
   at a variable depth, y at another, n with a named font, o at another time).  *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, SequencesExt

Standards == {"smpte", "interop"}
Features == {"Id", "Size", "AspectAdjust", "Italic", "Weight", "Underline", "Color", "Effect", "EffectColor"}
Nest == {[case |-> "nest", std |-> s, feature |-> f, outer |-> a, middle |-> b, inner |-> c] : s \in Standards, f \in Features, a \in 0..2, b \in 0..2, c \in 0..2}
Kids == {[case |-> "kids", std |-> s, kids |-> k] : s \in Standards, k \in UNION {[1..n -> {"t", "s", "f", "c", "g"}] : n \in 1..4}}
Lines == {[case |-> "line", std |-> s, strings |-> k] : s \in Standards, k \in UNION {[1..n -> {"p", "b", "i", "s", "c", "v", "z", "y", "n", "o"}] : n \in 1..3}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Nest \union Kids \union Lines))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
