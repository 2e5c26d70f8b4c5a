---------------------------- MODULE PackageTrace ----------------------------
(* Judges packages: what is on the disk after each writing, what a reader makes of it, what a search over several
   packages finds.  *)
EXTENDS Package, Common

S0P == [std |-> "smpte", assets |-> <<>>, cpls |-> <<>>, dcps |-> <<>>, written |-> <<>>, replaced |-> {}, who |-> <<>>]

At(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]

AssetIn(ev) == [id |-> ev.id, kind |-> ev.kind, dir |-> ev.dir, file |-> ev.file, enc |-> ev.enc, sha |-> ev.sha, subs |-> ev.subs]

(* compositions as they would be written now; where an asset is now counts, its hash is the one it had when it was put in *)
Now(s, ks) ==
  [i \in DOMAIN ks |->
     [id |-> s.cpls[ks[i]].id,
      reels |-> [r \in DOMAIN s.cpls[ks[i]].reels |->
                   [p \in DOMAIN s.cpls[ks[i]].reels[r] |->
                      [role |-> s.cpls[ks[i]].reels[r][p].role, used |-> s.cpls[ks[i]].reels[r][p].sha, asset |-> s.assets[s.cpls[ks[i]].reels[r][p].a]]]]]]

Unique(seq) == Cardinality({seq[i].id : i \in DOMAIN seq}) = Len(seq)


JudgeWritten(s, ev, cpls) ==
  LET std == s.std
      want == Listed(cpls, ev.d)
      files == Range(ev.files)
      File(n) == {f \in files : f.name = n}
      oneMap == Len(ev.maps) = 1
      m == ev.maps[1]
      flagged == {e \in Range(m.entries) : e.pkl = 1}
      lists == {p \in Range(ev.pkls) : \E e \in flagged : e.id = p.id /\ e.path = p.file}
      oneList == Cardinality(flagged) = 1 /\ Cardinality(lists) = 1
      pkl == CHOOSE p \in lists : TRUE
      Where(id) == {e.path : e \in {x \in Range(m.entries) : x.id = id}}
      who == At(s.who, ev.d, <<>>)
  IN  Clause("writing a package succeeds", ev.error = "")
      \union (IF ev.error # "" THEN {} ELSE
      Clause("there is one asset map with the standard's name", oneMap /\ m.file = MapName(std) /\ m.ns = MapSpace(std))
      \union Clause("there is a volume index with the standard's name", File(IndexName(std)) # {})
      \union (IF ~oneMap THEN {} ELSE
      Clause("the asset map names one packing list, which is there", oneList)
      \union Clause("every asset map entry leads to a whole file",
                    \A e \in Range(m.entries) : \E f \in File(e.path) : e.chunks = 1 /\ e.offset = "0" /\ e.volume = "1" /\ e.length = ToString(f.size))
      \union (IF ~oneList THEN {} ELSE
      Clause("the packing list is in its standard's namespace", pkl.ns = ListSpace(std))
      \union Clause("the asset map holds the packing list and all that it lists, once", Unique(m.entries) /\ Ids(Range(m.entries)) = Ids(want) \union {pkl.id})
      \union Clause("the packing list holds the compositions and what lies in the package, once", Unique(pkl.entries) /\ Ids(Range(pkl.entries)) = Ids(want))
      \union Clause("the asset map says where each asset is", \A w \in want : w.file # "" => Where(w.id) = {w.file})
      \union Clause("packing list sizes and hashes are those of the files",
                    \A e \in Range(pkl.entries) : \A n \in Where(e.id) : \E f \in File(n) : e.hash = f.sha /\ e.size = ToString(f.size))
      \union Clause("packing list types are those of the content", \A e \in Range(pkl.entries) : \A w \in want : e.id = w.id => e.type = TypeOf(std, w.kind))
      \union Clause("packing list names are those of the files", \A e \in Range(pkl.entries) : \A n \in Where(e.id) : \E f \in File(n) : e.original \in {"", f.base})
      \union Clause("issuer, creator and annotation are those given",
                    who # <<>> => /\ <<m.issuer, m.creator, m.annotation>> = who
                                  /\ <<pkl.issuer, pkl.creator, pkl.annotation>> = who)
      \union UNION {
           LET c == cpls[i]
               there == {x \in Range(ev.cpls) : x.id = c.id}
               x == CHOOSE y \in there : TRUE
           IN  Clause("every composition is in a file where the asset map says", Cardinality(there) = 1 /\ Where(c.id) = {x.file} /\ x.ns = PlaySpace(std))
               \union (IF Cardinality(there) # 1 THEN {} ELSE
               Clause("compositions have their reels", Len(x.reels) = Len(c.reels))
               \union (IF Len(x.reels) # Len(c.reels) THEN {} ELSE
               Clause("reels refer to their parts, each in its place",
                      \A r \in DOMAIN c.reels : /\ Len(x.reels[r]) = Len(c.reels[r])
                                                /\ {<<p.node, p.id>> : p \in Range(x.reels[r])} = {<<NodeOf(std, p.role, p.asset.kind), p.asset.id>> : p \in Range(c.reels[r])})
               \union Clause("references carry the hashes of the files",
                      \A r \in DOMAIN c.reels : {<<p.id, p.hash>> : p \in Range(x.reels[r])} = {<<p.asset.id, p.used>> : p \in Range(c.reels[r])})
               \union Clause("references carry a key exactly when the content is encrypted",
                      \A r \in DOMAIN c.reels : {<<p.id, p.key # "">> : p \in Range(x.reels[r])} = {<<p.asset.id, p.asset.enc = 1>> : p \in Range(c.reels[r])})))
           : i \in DOMAIN cpls})))

(* view: what the library gives; held: the assets that can be found, with their directories *)
JudgeView(view, cpls, held) ==
  Clause("every composition is found once", Len(view) = Len(cpls) /\ Ids(Range(view)) = Ids(Range(cpls)))
  \union UNION {
       LET c == cpls[i]
           x == CHOOSE y \in Range(view) : y.id = c.id
       IN  IF c.id \notin Ids(Range(view)) THEN {} ELSE
           Clause("compositions are read with their reels", Len(x.reels) = Len(c.reels))
           \union (IF Len(x.reels) # Len(c.reels) THEN {} ELSE
           Clause("reels are read with their parts, each in its place",
                  \A r \in DOMAIN c.reels : /\ Len(x.reels[r]) = Len(c.reels[r])
                                            /\ {<<p.role, p.id>> : p \in Range(x.reels[r])} = {<<p.role, p.asset.id>> : p \in Range(c.reels[r])})
           \union Clause("references are resolved exactly when their asset is there",
                  \A r \in DOMAIN x.reels : \A p \in Range(x.reels[r]) : (p.resolved = 1) = (\E a \in held : a.id = p.id))
           \union Clause("references lead to their own files",
                  \A r \in DOMAIN x.reels : \A p \in Range(x.reels[r]) : p.resolved = 1 => \E a \in held : a.id = p.id /\ p.file = "d" \o ToString(a.dir) \o "/" \o a.file)
           \union Clause("hashes are read as written",
                  \A r \in DOMAIN c.reels : {<<p.id, p.hash>> : p \in Range(x.reels[r])} = {<<p.asset.id, p.used>> : p \in Range(c.reels[r])})
           \union Clause("assets take the hash that the package states",
                  \A r \in DOMAIN x.reels : \A p \in Range(x.reels[r]) : p.resolved = 1 => p.ahash = p.hash)
           \union Clause("content is read as encrypted when it is",
                  \A r \in DOMAIN c.reels : {<<p.id, p.enc>> : p \in Range(x.reels[r])} = {<<p.asset.id, p.asset.enc>> : p \in Range(c.reels[r])}))
       : i \in DOMAIN cpls}

JudgeRead(s, ev, cpls) ==
  LET held == Held(cpls, ev.d)
      refs == {<<i, r, p>> : i \in DOMAIN cpls, r \in 1..10, p \in 1..20}
      outside == {x \in refs : /\ x[2] \in DOMAIN cpls[x[1]].reels
                               /\ x[3] \in DOMAIN cpls[x[1]].reels[x[2]]
                               /\ cpls[x[1]].reels[x[2]][x[3]].asset \notin held}
      fonts == {f \in SubsOf(held) : f.kind = "font"}
  IN  Clause("reading a package succeeds", ev.error = "")
      \union (IF ev.error # "" THEN {} ELSE
      JudgeView(ev.cpls, cpls, held)
      \union Clause("only external references are remarked on, each once", Len(ev.notes) = Cardinality(outside) /\ Range(ev.notes) \subseteq {"external"})
      (* nothing can be said about text that cannot be read *)
      \union Clause("a package equals itself", ev.equal = 1 \/ \E a \in held : a.kind = "text" /\ a.enc = 1)
      \union Clause("every composition is summarised", Len(ev.summaries) = Len(cpls) /\ Ids(Range(ev.summaries)) = Ids(Range(cpls)))
      \union Clause("the package's assets are the ones written", Range(ev.assets) = Ids(Range(cpls)) \union Ids(held) \union Ids(fonts)))

Gathered(s, ds) == UNION {Held(s.written[ds[i]], ds[i]) : i \in DOMAIN ds}
RECURSIVE Concat(_, _)
Concat(s, ds) == IF ds = <<>> THEN <<>> ELSE s.written[Head(ds)] \o Concat(s, Tail(ds))

JudgePackage(s, ev) ==
  LET keep(f) == [st |-> s, f |-> f]
      fine == Clause("no failure", ev.error = "")
  IN  CASE ev.op = "standard" -> [st |-> [s EXCEPT !.std = ev.standard], f |-> {}]
        [] ev.op = "asset" -> [st |-> IF ev.error = "" THEN [s EXCEPT !.assets = Append(s.assets, AssetIn(ev))] ELSE s, f |-> fine]
        [] ev.op \in {"rewrite", "move"} ->
             [st |-> IF ev.error = "" THEN [s EXCEPT !.assets[ev.a] = [@ EXCEPT !.file = ev.file, !.dir = ev.dir, !.sha = ev.sha, !.subs = ev.subs]] ELSE s, f |-> fine]
        [] ev.op = "cpl" -> [st |-> [s EXCEPT !.cpls = Append(s.cpls, [id |-> ev.id, reels |-> <<>>])], f |-> fine]
        [] ev.op = "reel" -> [st |-> [s EXCEPT !.cpls[ev.k].reels = Append(@, <<>>)], f |-> fine]
        [] ev.op = "use" -> [st |-> [s EXCEPT !.cpls[ev.k].reels[ev.r] = Append(@, [role |-> ev.role, a |-> ev.a, sha |-> s.assets[ev.a].sha])], f |-> fine]
        [] ev.op = "add" -> [st |-> [s EXCEPT !.dcps = Put(@, ev.d, Append(At(@, ev.d, <<>>), ev.k))], f |-> fine]
        [] ev.op = "who" -> [st |-> [s EXCEPT !.who = Put(@, ev.d, <<ev.issuer, ev.creator, ev.annotation>>)], f |-> fine]
        [] ev.op = "write" ->
             LET cpls == IF ev.d \in s.replaced THEN s.written[ev.d] ELSE Now(s, s.dcps[ev.d])
             IN  [st |-> [s EXCEPT !.written = Put(@, ev.d, cpls)], f |-> JudgeWritten(s, ev, cpls)]
        [] ev.op = "read" -> [st |-> IF ev.error = "" /\ ev.replace = 1 THEN [s EXCEPT !.replaced = @ \union {ev.d}] ELSE s, f |-> JudgeRead(s, ev, s.written[ev.d])]
        [] ev.op = "find" -> keep(fine \union (IF ev.error = "" THEN JudgeView(ev.cpls, Concat(s, ev.ds), Gathered(s, ev.ds)) ELSE {}))
        [] OTHER -> keep({"unknown event"})

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0P, Judge <- JudgePackage
=============================================================================
