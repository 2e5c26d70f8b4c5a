----------------------------- MODULE MCVerify -----------------------------
(* A package that is as it should be is not complained about, each thing that is not as it should be is, and two things
   that do not concern one another are both complained about as if each were the only one.  *)
EXTENDS Deviations

VARIABLES base, P, done

Init == base \in {"plain", "texts"} /\ P = Of(base) /\ done = {}
Ways(n, Q) == Anywhere(Q) \union (IF n = "plain" THEN InPlain(Q) ELSE InTexts(Q))
(* ways that replace the whole package, or change how everything in a reel is counted, come first or not at all *)
Wholes == {"rate30", "rate32", "twelve3d", "fourk25", "rate48", "rate25", "short", "allenc"}
Unseen(a, b) == a[1] = "subenc" /\ b[2] = "sub"
Next == /\ Cardinality(done) < 2
        /\ \E d \in Ways(base, P) :
             /\ \A e \in done : e[2] # d[2] /\ e[1] \notin Wholes /\ ~Unseen(e, d) /\ ~Unseen(d, e)
             /\ done = {} \/ d[1] \notin Wholes
             /\ P' = d[4]
             /\ done' = done \union {<<d[1], d[2], d[3]>>}
        /\ UNCHANGED base
Spec == Init /\ [][Next]_<<base, P, done>>

Said == {x[1] : x \in Complaints(P)}
Wanted == UNION {d[3] : d \in done}
(* pairs that do concern one another *)
Together(a, b) == \E d, e \in done : d[1] = a /\ e[1] = b
About(a, S) == \E b \in S : Together(a, b)
Hidden ==   \* what one way makes impossible to see of another
  (IF \E d \in done : d[1] \in {"noam", "halfam"} THEN Wanted \ {"FAILED_READ"} ELSE {})
  \union (IF \E d \in done : d[2] = "more" THEN {"MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL"} ELSE {})
  \union (IF \E d \in done : d[1] \in {"picgone", "picpath", "picelse"}
          THEN {"INCORRECT_PICTURE_HASH", "MISMATCHED_PICTURE_HASHES", "INVALID_PICTURE_SIZE_IN_PIXELS", "INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D", "INVALID_PICTURE_FRAME_SIZE_IN_BYTES",
                "NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES", "INVALID_MAIN_PICTURE_ACTIVE_AREA"} ELSE {})
  \union (IF \E d \in done : d[1] \in {"picgone", "picpath", "picelse"} /\ About("encpic", {d[1]}) THEN {"UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT"} ELSE {})
  \union (IF \E d \in done : d[1] \in {"sndgone", "sndelse", "nosnd"} THEN {"INCORRECT_SOUND_HASH", "MISMATCHED_SOUND_HASHES", "INVALID_MAIN_SOUND_CONFIGURATION"} ELSE {})
  \union (IF \E d \in done : d[1] = "nosnd" THEN {"MISSING_HASH", "MISMATCHED_ASSET_DURATION", "INVALID_DURATION", "PARTIALLY_ENCRYPTED"} ELSE {})
  \union (IF \E d \in done : d[1] \in {"subgone", "subelse", "nosub", "subenc"} THEN {"MISSED_CHECK_OF_ENCRYPTED", "MISMATCHED_ASSET_DURATION"} ELSE {})

(* what was done before: no subtitles are looked at if the first reel has none (see MCVerifyFirstReel.cfg) *)
OnlyAfterFirst(Q) == [i \in DOMAIN Q.reels |-> IF Q.reels[1].sub = <<>> THEN <<>> ELSE Q.reels[i].sub]

Clean == done = {} => Complaints(P) = {}
Each == Cardinality(done) = 1 => Said = Wanted
Shown == [base |-> base, done |-> {d[1] : d \in done}, more |-> Said \ Wanted, less |-> (Wanted \ Said) \ Hidden]
Both == Cardinality(done) = 2 => Said \subseteq Wanted /\ Wanted \ Said \subseteq Hidden
=============================================================================
