--------------------------- MODULE LanguageTrace ---------------------------
EXTENDS Language, Common

After(t, ev) ==
  CASE ev.op = "parse" -> Parsed(ev.x).t
    [] ev.op = "set" -> Set(t, ev.kind, ev.x)
    [] ev.op = "add" -> Add(t, ev.kind, ev.x[1])
Can(t, ev) ==
  CASE ev.op = "parse" -> CanParse(ev.x)
    [] ev.op = "set" -> CanSet(ev.kind, ev.x)
    [] ev.op = "add" -> CanAdd(t, ev.kind, ev.x[1])
JudgeLanguage(t, ev) ==
  LET n == IF Can(t, ev) THEN After(t, ev) ELSE t
      said == n.language # <<>>
  IN  [st |-> n,
       f |-> Clause("refused", ev.threw = (IF Can(t, ev) THEN "" ELSE "tag"))
             \union Clause("string", ev.str = (IF said THEN AsString(n) ELSE "") /\ ev.strthrew = (IF said THEN "" ELSE "tag"))
             \union Clause("description", ev.desc = (IF said THEN Description(n) ELSE "") /\ ev.descthrew = (IF said THEN "" ELSE "tag"))
             \union Clause("subtags", ev.subs = Subtags(n))
             \union Clause("again", said => ev.again = 1)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- Empty, Judge <- JudgeLanguage
=============================================================================
