---------------------------- MODULE GenLanguage ----------------------------
(* Every way to put up to four subtags together, and every change to a tag *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Words == {"de", "ltg", "yue", "Latn", "GB", "419", "1901", "rozaj", "none"}
Lists(n) == [1 .. n -> Words]
Change == {[op |-> "set", kind |-> k, x |-> x] : k \in {"language", "script", "region"}, x \in [{1} -> {"de", "ltg", "Latn", "GB", "1901", "none"}]}
          \union {[op |-> "set", kind |-> k, x |-> x] : k \in {"variant", "extlang"}, x \in UNION {[1 .. i -> {"1901", "rozaj", "ltg", "yue", "GB"}] : i \in 0 .. 2}}
          \union {[op |-> "add", kind |-> k, x |-> x] : k \in {"variant", "extlang"}, x \in [{1} -> {"1901", "rozaj", "ltg", "yue", "de"}]}
Parse(xs) == SetToSeq({[op |-> "parse", kind |-> "", x |-> x] : x \in xs})
ASSUME ndJsonSerialize(IOEnv.OUT, Parse({<<>>}) \o Parse(Lists(1)) \o Parse(Lists(2)) \o Parse(Lists(3)) \o Parse({<<"de">> \o x : x \in Lists(3)}) \o SetToSeq(Change))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
