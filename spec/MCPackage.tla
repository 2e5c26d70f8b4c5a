------------------------------ MODULE MCPackage ------------------------------
(* How a package comes to be: assets are written, hashed when they are put into a reel (the hash is then remembered),
   written again, moved into or out of the package; the package's own files are written in the order composition,
   packing list, asset map.  Contents are version numbers and a hash is the version it was taken of.

   Forget says whether writing an asset (or a composition) makes it forget its hash; with Forget = FALSE the packing
   list can describe contents that are no longer there.  *)
EXTENDS Package, Integers

CONSTANTS Assets, MaxVersion, Forget

VARIABLES asset, reel, cpl, list, map, phase, clean

vars == <<asset, reel, cpl, list, map, phase, clean>>

Dirs == {1, 2}
None == 0

Init ==
  /\ asset = [a \in Assets |-> [ver |-> None, hash |-> None, dir |-> 1]]
  /\ reel = {}
  /\ cpl = [ver |-> None, hash |-> None, refs |-> {}]
  /\ list = {} /\ map = {}
  /\ phase = "idle"
  /\ clean = FALSE

(* an asset is written, perhaps over its old self *)
Write(a, d) ==
  /\ phase = "idle"
  /\ asset[a].ver < MaxVersion
  /\ asset[a].ver # None => d = asset[a].dir
  (* a reel that refers to it holds a copy of its hash, so it may no longer change *)
  /\ \A u \in reel : u.a # a
  /\ asset' = [asset EXCEPT ![a] = [ver |-> @.ver + 1, hash |-> IF Forget THEN None ELSE @.hash, dir |-> d]]
  /\ clean' = FALSE
  /\ UNCHANGED <<reel, cpl, list, map, phase>>

Hashed(x) == IF x.hash = None THEN [x EXCEPT !.hash = x.ver] ELSE x

(* somebody asks for the hash *)
Ask(a) ==
  /\ phase = "idle" /\ asset[a].ver # None
  /\ asset' = [asset EXCEPT ![a] = Hashed(@)]
  /\ UNCHANGED <<reel, cpl, list, map, phase, clean>>

Use(a) ==
  /\ phase = "idle" /\ asset[a].ver # None
  /\ \A u \in reel : u.a # a
  /\ asset' = [asset EXCEPT ![a] = Hashed(@)]
  /\ reel' = reel \union {[a |-> a, hash |-> Hashed(asset[a]).hash]}
  /\ clean' = FALSE
  /\ UNCHANGED <<cpl, list, map, phase>>

Move(a) ==
  /\ phase = "idle" /\ asset[a].ver # None
  /\ asset' = [asset EXCEPT ![a].dir = 3 - @]
  /\ clean' = FALSE
  /\ UNCHANGED <<reel, cpl, list, map, phase>>

WriteComposition ==
  /\ phase = "idle" /\ cpl.ver < MaxVersion
  /\ cpl' = [ver |-> cpl.ver + 1, hash |-> IF Forget THEN None ELSE cpl.hash, refs |-> reel]
  /\ phase' = "list"
  /\ UNCHANGED <<asset, reel, list, map, clean>>

HeldNow == {u.a : u \in {v \in reel : asset[v.a].dir = 1}}

WriteList ==
  /\ phase = "list"
  /\ asset' = [a \in Assets |-> IF a \in HeldNow THEN Hashed(asset[a]) ELSE asset[a]]
  /\ cpl' = Hashed(cpl)
  /\ list' = {[id |-> a, hash |-> Hashed(asset[a]).hash] : a \in HeldNow} \union {[id |-> "cpl", hash |-> Hashed(cpl).hash]}
  /\ phase' = "map"
  /\ UNCHANGED <<reel, map, clean>>

WriteMap ==
  /\ phase = "map"
  /\ map' = HeldNow \union {"cpl", "list"}
  /\ phase' = "idle"
  /\ clean' = TRUE
  /\ UNCHANGED <<asset, reel, cpl, list>>

Next ==
  \/ \E a \in Assets : (\E d \in Dirs : Write(a, d)) \/ Ask(a) \/ Use(a) \/ Move(a)
  \/ WriteComposition \/ WriteList \/ WriteMap

Spec == Init /\ [][Next]_vars

Current(id) == IF id = "cpl" THEN cpl.ver ELSE asset[id].ver
(* after a package is written and until something is changed *)
Described == clean /\ phase = "idle" => \A e \in list : e.hash = Current(e.id)
Referred == clean /\ phase = "idle" => cpl.refs = reel /\ \A u \in cpl.refs : u.hash = asset[u.a].ver
Agreed == clean /\ phase = "idle" => map = {e.id : e \in list} \union {"list"}
Complete == clean /\ phase = "idle" => \A u \in reel : (asset[u.a].dir = 1) = (u.a \in map)
=============================================================================
