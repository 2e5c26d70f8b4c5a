------------------------------- MODULE Package -------------------------------
(* What a package on a disk must be: compositions made of reels made of parts, each part the content of one file; a
   packing list that gives for every file of the package its size and hash; and an asset map that says where every file
   is.  A part whose file lies outside the package's directory belongs to some other package: it is referred to by the
   composition but listed nowhere.

   An asset is [id, kind, dir, file, enc, sha, subs], subs the files that come with it: [id, kind, file].
   A composition is [id, reels], a reel a sequence of parts [role, asset].  *)
EXTENDS Sequences, FiniteSets, Naturals

Range(s) == {s[i] : i \in DOMAIN s}

Standards == {"smpte", "interop"}
TextRoles == {"subtitle", "caption", "csub", "ccap"}
Roles(std) == {"picture", "sound", "atmos", "subtitle", "ccap"} \union (IF std = "smpte" THEN {"caption", "csub"} ELSE {})
(* roles that a reel can have more than once *)
Many == {"csub", "ccap"}

MapName(std) == IF std = "smpte" THEN "ASSETMAP.xml" ELSE "ASSETMAP"
IndexName(std) == IF std = "smpte" THEN "VOLINDEX.xml" ELSE "VOLINDEX"
MapSpace(std) == IF std = "smpte" THEN "http://www.smpte-ra.org/schemas/429-9/2007/AM" ELSE "http://www.digicine.com/PROTO-ASDCP-AM-20040311#"
ListSpace(std) == IF std = "smpte" THEN "http://www.smpte-ra.org/schemas/429-8/2007/PKL" ELSE "http://www.digicine.com/PROTO-ASDCP-PKL-20040311#"
PlaySpace(std) == IF std = "smpte" THEN "http://www.smpte-ra.org/schemas/429-7/2006/CPL" ELSE "http://www.digicine.com/PROTO-ASDCP-CPL-20040511#"

TypeOf(std, kind) ==
  CASE kind = "cpl" -> IF std = "smpte" THEN "text/xml" ELSE "text/xml;asdcpKind=CPL"
    [] kind \in {"mono", "stereo"} -> IF std = "smpte" THEN "application/mxf" ELSE "application/x-smpte-mxf;asdcpKind=Picture"
    [] kind = "sound" -> IF std = "smpte" THEN "application/mxf" ELSE "application/x-smpte-mxf;asdcpKind=Sound"
    [] kind = "atmos" -> "application/mxf"
    [] kind = "text" -> IF std = "smpte" THEN "application/mxf" ELSE "text/xml;asdcpKind=Subtitle"
    [] kind = "font" -> "application/ttf"
    [] kind = "image" -> "image/png"

NodeOf(std, role, kind) ==
  CASE role = "picture" -> IF kind = "stereo" THEN "MainStereoscopicPicture" ELSE "MainPicture"
    [] role = "sound" -> "MainSound"
    [] role = "subtitle" -> "MainSubtitle"
    [] role = "caption" -> "MainCaption"
    [] role = "csub" -> "ClosedSubtitle"
    [] role = "ccap" -> IF std = "smpte" THEN "ClosedCaption" ELSE "MainClosedCaption"
    [] role = "atmos" -> "AuxData"

Parts(cpl) == UNION {Range(cpl.reels[i]) : i \in DOMAIN cpl.reels}
AssetsOf(cpls) == {p.asset : p \in UNION {Parts(c) : c \in Range(cpls)}}
(* the assets that a package in directory d with these compositions holds, and what comes with them *)
Held(cpls, d) == {a \in AssetsOf(cpls) : a.dir = d}
SubsOf(as) == UNION {Range(a.subs) : a \in as}
(* everything the packing list names: [id, kind, file]; the compositions' files can have any name *)
Listed(cpls, d) ==
  {[id |-> c.id, kind |-> "cpl", file |-> ""] : c \in Range(cpls)}
    \union {[id |-> a.id, kind |-> a.kind, file |-> a.file] : a \in Held(cpls, d)}
    \union SubsOf(Held(cpls, d))
Ids(s) == {x.id : x \in s}
=============================================================================
