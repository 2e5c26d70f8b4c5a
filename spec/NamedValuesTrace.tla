-------------------------- MODULE NamedValuesTrace --------------------------
EXTENDS NamedValues, Common

(* looking up a name in a table of names: index of the value found, or 0 if refused *)
Lookup(names, ev) == LET w == Find(names, ev.s) IN Clause("lookup", IF w = {} THEN ev.v = 0 ELSE ev.v \in w)
Naming(names, ev) == Clause("name", ev.name = names[ev.v])

JudgeNamed(s, ev) == [st |-> s, f |->
  CASE ev.op = "kind" ->
         LET w == FindKind(ev.s)
         IN  IF w = {} THEN Clause("must-refuse", ev.ok = 0)
             ELSE Clause("must-find", ev.ok = 1) \union (IF ev.ok = 1 THEN Clause("kind", <<ev.name, ev.scope>> \in w) ELSE {})
    [] ev.op = "all" -> Clause("all-kinds", { ev.kinds[i] : i \in DOMAIN ev.kinds } = KindSet /\ Len(ev.kinds) = Cardinality(KindSet))
    [] ev.op = "constant" -> Clause("constant", <<ev.name, ev.scope>> = Kinds[ev.v])
    [] ev.op = "made" -> Clause("kept", ev.name = ev.given_name /\ ev.scope = ev.given_scope)
    [] ev.op = "eq" -> Clause("equality", (ev.r = 1) <=> (ev.a = ev.b)) \union Clause("inequality", (ev.ne = 1) <=> (ev.a # ev.b))
    [] ev.op = "h" -> Lookup(HNames, ev)
    [] ev.op = "v" -> Lookup(VNames, ev)
    [] ev.op = "hname" -> Naming(HNames, ev)
    [] ev.op = "vname" -> Naming(VNames, ev)
    [] ev.op = "standard" -> Clause("baseline", (ev.baseline = 1) <=> Baseline(ev.v)) \union Clause("bounding-box", (ev.box = 1) <=> BoundingBox(ev.v))
    [] OTHER -> {"unknown-event"}]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeNamed
=============================================================================
