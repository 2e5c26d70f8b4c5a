-------------------------------- MODULE Kdm --------------------------------
(* Key messages.  A message is [before, after, title, annotation, annotated, keys], keys a sequence of
   <<type, id, key, composition>>; sealing it for the holder of a certificate, signed by a chain, gives a document.  *)
EXTENDS Pki

Formulations == {"mt1", "mmt1", "any", "specific"}
KeyTypes == {"MDIK", "MDAK", "MDSK", "MDEK"}
TypeOf(role) == CASE role = "picture" -> "MDIK" [] role = "sound" -> "MDAK" [] role = "atmos" -> "MDEK" [] OTHER -> "MDSK"

(* thumbprint that stands for any device *)
AnyDevice == "326a6d6a376c35725377307956622f766c5741596b4b2f5942776b3d"
Scope(type) == IF type = "MDEK" THEN "http://www.dolby.com/cp850/2012/KDM#kdm-key-type" ELSE "http://www.smpte-ra.org/430-1/2006/KDM#kdm-key-type"
KeyIds(msg) == [i \in DOMAIN msg.keys |-> <<msg.keys[i][1], Scope(msg.keys[i][1]), msg.keys[i][2]>>]

Devices(f, given) == IF f \in {"mt1", "any"} \/ given = <<>> THEN <<AnyDevice>> ELSE given
Flags(picture, audio, number) ==
  (IF picture = 1 THEN <<"http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-picture-disable">> ELSE <<>>)
    \o (IF audio < 0 THEN <<>>
        ELSE IF audio = 0 THEN <<"http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-audio-disable">>
        ELSE <<"http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-audio-disable-above-channel-" \o number>>)

(* The block that carries a key, encrypted for the recipient; and its older form, without the kind of key.  All as hex *)
StructureId == "f1dc124460169a0e85bc300642f866ab"
TypeHex == [MDIK |-> "4d44494b", MDAK |-> "4d44414b", MDSK |-> "4d44534b", MDEK |-> "4d44454b"]
Bare(id) == SubSeq(id, 1, 8) \o SubSeq(id, 10, 13) \o SubSeq(id, 15, 18) \o SubSeq(id, 20, 23) \o SubSeq(id, 25, 36)
Block(print, before, after, k) == StructureId \o print \o Bare(k[4]) \o TypeHex[k[1]] \o Bare(k[2]) \o before \o after \o k[3]

Piece(b, from, bytes) == SubSeq(b, 2 * from + 1, 2 * (from + bytes))
IdAt(b, at) == Piece(b, at, 4) \o "-" \o Piece(b, at + 4, 2) \o "-" \o Piece(b, at + 6, 2) \o "-" \o Piece(b, at + 8, 2) \o "-" \o Piece(b, at + 10, 6)
TypeAt(b, at) == IF \E t \in KeyTypes : TypeHex[t] = Piece(b, at, 4) THEN CHOOSE t \in KeyTypes : TypeHex[t] = Piece(b, at, 4) ELSE "?"
(* what a block says: <<type, id, key, composition, standard>>, and its window *)
Opened(b) == IF Len(b) = 2 * 134 THEN <<"", IdAt(b, 52), Piece(b, 118, 16), IdAt(b, 36), "interop">>
             ELSE <<TypeAt(b, 52), IdAt(b, 56), Piece(b, 122, 16), IdAt(b, 36), "smpte">>
WindowIn(b) == LET at == IF Len(b) = 2 * 134 THEN 68 ELSE 72 IN <<Piece(b, at, 25), Piece(b, at + 25, 25)>>

(* days as numbers; a message must begin at least a day after every certificate that vouches for it does, and end at
   least a day before.  What is wrong with it, if anything, and the certificates are asked from the leaf upwards *)
RECURSIVE Outside(_, _, _)
Outside(certs, up, window) ==
  IF up = <<>> THEN ""
  ELSE IF certs[Head(up)].from >= window[1] THEN "early"
  ELSE IF certs[Head(up)].to <= window[2] THEN "late"
  ELSE Outside(certs, Tail(up), window)
=============================================================================
