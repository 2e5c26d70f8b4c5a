------------------------------- MODULE Picture -------------------------------
(* Track files made of frames that are stored whole: pictures (one frame per edit unit, or with "stereo" one for each
   eye, left first) and immersive audio.  A writer may be lost half-way; a new one can then be told to pass over frames
   that are already in the file, given where they are.  *)
EXTENDS Integers, Sequences, FiniteSets

Eyes(kind) == IF kind = "stereo" THEN 2 ELSE 1
(* a file can be finished when its last edit unit is complete *)
Whole(frames, kind) == Len(frames) % Eyes(kind) = 0
DurationOf(frames, kind) == Len(frames) \div Eyes(kind)

(* where the next frame goes: after the one before it *)
After(info) == info.off + info.size

(* Two pictures are equal if they have the same form and length, and every frame is the same or near enough *)
Near(d, mean, dev) == d.identical = 1 \/ (d.mean <= mean /\ d.dev <= dev)
(* ... when the measured differences are not too near the limits to tell *)
Clear(d, mean, dev) == d.identical = 1 \/ ((d.mean < mean - 2 \/ d.mean > mean + 2) /\ (d.dev < dev - 2 \/ d.dev > dev + 2))
=============================================================================
