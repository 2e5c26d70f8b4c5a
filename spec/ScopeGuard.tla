----------------------------- MODULE ScopeGuard -----------------------------
(* Guards that run an action when their scope is left.

   A program creates guards in nested scopes.  Guards live on a stack; leaving a scope destroys the guards
   made in it, newest first.  Each guard is responsible for at most one action: [act |-> name of the action
   or 0 for none, off |-> cancelled].  `scopes' is the stack of the heights at which scopes began. *)
EXTENDS Integers, Sequences

Fresh == [guards |-> <<>>, scopes |-> <<>>, ran |-> <<>>]

Make(s, a) == [s EXCEPT !.guards = Append(@, [act |-> a, off |-> FALSE])]
(* a new guard takes over what guard i was responsible for *)
Move(s, i) == [s EXCEPT !.guards = Append([@ EXCEPT ![i] = [act |-> 0, off |-> FALSE]], s.guards[i])]
Cancel(s, i) == [s EXCEPT !.guards = [@ EXCEPT ![i].off = TRUE]]
Enter(s) == [s EXCEPT !.scopes = Append(@, Len(s.guards))]
(* destroying the newest guard *)
Runs(g) == IF g.act # 0 /\ ~g.off THEN <<g.act>> ELSE <<>>
Pop(s) == [s EXCEPT !.guards = SubSeq(@, 1, Len(@) - 1), !.ran = @ \o Runs(s.guards[Len(s.guards)])]
RECURSIVE PopTo(_, _)
PopTo(s, n) == IF Len(s.guards) <= n THEN s ELSE PopTo(Pop(s), n)
Bottom(s) == s.scopes[Len(s.scopes)]
Leave(s) == [PopTo(s, Bottom(s)) EXCEPT !.scopes = SubSeq(@, 1, Len(@) - 1)]
(* an exception caught outside everything *)
Unwind(s) == [PopTo(s, 0) EXCEPT !.scopes = <<>>]
=============================================================================
