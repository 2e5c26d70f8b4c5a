---------------------------- MODULE Deviations ----------------------------
(* Packages that are as they should be, and ways in which a package can be otherwise *)
EXTENDS Verify

At(in, out, vp, va, len) == [tin |-> in, tout |-> out, vp |-> vp, va |-> va, len |-> len]
PicOf(n) == [w |-> 1998, h |-> 1080, frames |-> n, stereo |-> 0, enc |-> 0, dur |-> n, entry |-> 0, gone |-> 0, hash |-> "ok", big |-> <<>>]
SndOf(n) == [has |-> 1, ch |-> 2, rate |-> 48000, frames |-> n, enc |-> 0, dur |-> n, gone |-> 0, hash |-> "ok"]
TextOf(n, lines) == [lang |-> "en-GB", start |-> "zero", entry |-> "zero", dur |-> n, intr |-> n, font |-> 100, enc |-> 0, gone |-> 0, lines |-> lines]
ReelOf(n, marks, sub, cc) == [rate |-> <<24, 1>>, pic |-> PicOf(n), snd |-> SndOf(n), sub |-> sub, cc |-> cc, marks |-> [has |-> 1, entry |-> 0, dur |-> 0, m |-> marks]]
PackageOf(reels) ==
  [kind |-> "trailer", ann |-> "same", pklann |-> "same", ext |-> "ok", terr |-> "GB", addl |-> "fr-FR", meta |-> 1, ver |-> 1, cver |-> 1, label |-> 1, area |-> <<1998, 1080>>,
   sign |-> 0, msc |-> 2, more |-> 0, dup |-> "no", bad |-> "none", stale |-> 0, det |-> 0, reels |-> reels]

Plain == PackageOf(<<ReelOf(24, << <<"FFOC", 1>>, <<"LFOC", 23>> >>, <<>>, <<>>)>>)
Lines1 == <<At(96, 111, 20, "bottom", 32), At(96, 111, 10, "bottom", 32), At(113, 135, 20, "bottom", 20), At(113, 135, 10, "bottom", 12)>>
Lines2 == <<At(24, 48, 80, "top", 32), At(50, 70, 80, "top", 32), At(50, 70, 90, "top", 3), At(72, 144, 0, "center", 5)>>
WithTexts ==
  PackageOf(<<ReelOf(144, << <<"FFOC", 1>> >>, <<TextOf(144, Lines1)>>, <<TextOf(144, Lines1)>>),
              ReelOf(144, << <<"LFOC", 143>> >>, <<TextOf(144, Lines2)>>, <<TextOf(144, Lines2)>>)>>)

AllEnc(P) == [P EXCEPT !.sign = 1,
                       !.reels = [i \in DOMAIN P.reels |-> LET r == P.reels[i]
                                                           IN [r EXCEPT !.pic.enc = 1, !.snd.enc = 1, !.sub = [k \in DOMAIN @ |-> [@[k] EXCEPT !.enc = 1]],
                                                                        !.cc = [k \in DOMAIN @ |-> [@[k] EXCEPT !.enc = 1]]]]]
Shortened(P) == [P EXCEPT !.reels = [i \in DOMAIN P.reels |-> [P.reels[i] EXCEPT !.pic.frames = 23, !.pic.dur = 23, !.snd.frames = 23, !.snd.dur = 23,
                                                                                 !.marks.m = << <<"FFOC", 1>>, <<"LFOC", 22>> >>]]]
Reworded(P, new) == [P EXCEPT !.reels[2].sub[1].lines = new, !.reels[2].cc[1].lines = new]

(* name, what it concerns, what is to be said about it, the package with it *)
Anywhere(P) ==
  LET n == Len(P.reels)
      r == P.reels[n]
      half == r.pic.dur \div 2
  IN  { <<"kind", "kind", {"INVALID_CONTENT_KIND"}, [P EXCEPT !.kind = "nonsense"]>>,
        <<"feature", "kind", {"MISSING_FFEC_IN_FEATURE", "MISSING_FFMC_IN_FEATURE"}, [P EXCEPT !.kind = "feature"]>>,
        <<"noann", "ann", {"MISSING_CPL_ANNOTATION_TEXT"}, [P EXCEPT !.ann = "none"]>>,
        <<"otherann", "ann", {"MISMATCHED_CPL_ANNOTATION_TEXT"}, [P EXCEPT !.ann = "other"]>>,
        <<"pklann", "pklann", {"MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL"}, [P EXCEPT !.pklann = "other"]>>,
        <<"nover", "meta", {"MISSING_CPL_METADATA_VERSION_NUMBER"}, [P EXCEPT !.ver = 0]>>,
        <<"nometa", "meta", {"MISSING_CPL_METADATA"}, [P EXCEPT !.meta = 0]>>,
        <<"noext", "meta", {"MISSING_EXTENSION_METADATA"}, [P EXCEPT !.ext = "none"]>>,
        <<"extscope", "meta", {"MISSING_EXTENSION_METADATA"}, [P EXCEPT !.ext = "scope"]>>,
        <<"extname", "meta", {"INVALID_EXTENSION_METADATA"}, [P EXCEPT !.ext = "name"]>>,
        <<"extprofile", "meta", {"INVALID_EXTENSION_METADATA"}, [P EXCEPT !.ext = "profile"]>>,
        <<"extold", "meta", {}, [P EXCEPT !.ext = "old"]>>,
        <<"terr", "meta", {"INVALID_LANGUAGE"}, [P EXCEPT !.terr = "XYZ"]>>,
        <<"world", "meta", {}, [P EXCEPT !.terr = "001"]>>,
        <<"addl", "meta", {"INVALID_LANGUAGE"}, [P EXCEPT !.addl = "zzzzzz"]>>,
        <<"cver", "cver", {"MISSING_CPL_CONTENT_VERSION", "INVALID_XML"}, [P EXCEPT !.cver = 0]>>,
        <<"label", "cver", {"EMPTY_CONTENT_VERSION_LABEL_TEXT"}, [P EXCEPT !.label = 0]>>,
        <<"areaodd", "meta", {"INVALID_MAIN_PICTURE_ACTIVE_AREA"}, [P EXCEPT !.area = <<1997, 1080>>]>>,
        <<"areaodd2", "meta", {"INVALID_MAIN_PICTURE_ACTIVE_AREA"}, [P EXCEPT !.area = <<1998, 1001>>]>>,
        <<"areabig", "meta", {"INVALID_MAIN_PICTURE_ACTIVE_AREA"}, [P EXCEPT !.area = <<2000, 1080>>]>>,
        <<"areatall", "meta", {"INVALID_MAIN_PICTURE_ACTIVE_AREA"}, [P EXCEPT !.area = <<1998, 1082>>]>>,
        <<"encpic", "enc", {"PARTIALLY_ENCRYPTED", "UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT", "UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT"}, [P EXCEPT !.reels[n].pic.enc = 1]>>,
        <<"encsnd", "enc", {"PARTIALLY_ENCRYPTED"}, [P EXCEPT !.reels[n].snd.enc = 1, !.sign = 1]>>,
        <<"signed", "enc", {}, [P EXCEPT !.sign = 1]>>,
        <<"duppkl", "dup", {"DUPLICATE_ASSET_ID_IN_PKL"}, [P EXCEPT !.dup = "pkl"]>>,
        <<"dupam", "dup", {"DUPLICATE_ASSET_ID_IN_ASSETMAP"}, [P EXCEPT !.dup = "am"]>>,
        <<"badcpl", "bad", {"INVALID_XML"}, [P EXCEPT !.bad = "cpl"]>>,
        <<"badpkl", "bad", {"INVALID_XML"}, [P EXCEPT !.bad = "pkl"]>>,
        <<"badam", "bad", {"INVALID_XML"}, [P EXCEPT !.bad = "am"]>>,
        <<"stale", "stale", {"MISMATCHED_CPL_HASHES"}, [P EXCEPT !.stale = 1]>>,
        <<"msc", "meta", {"INVALID_MAIN_SOUND_CONFIGURATION"}, [P EXCEPT !.msc = 3]>>,
        <<"picsize", "meta", {"INVALID_PICTURE_SIZE_IN_PIXELS"}, [P EXCEPT !.reels[n].pic.w = 2048]>>,
        <<"scope", "meta", {}, [P EXCEPT !.reels[n].pic.w = 2048, !.reels[n].pic.h = 858, !.area = <<1998, 858>>]>>,
        <<"fourk", "meta", {}, [P EXCEPT !.reels[n].pic.w = 3996, !.reels[n].pic.h = 2160]>>,
        <<"fourk3d", "meta", {"INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D"}, [P EXCEPT !.reels[n].pic.w = 4096, !.reels[n].pic.h = 1716, !.reels[n].pic.stereo = 1]>>,
        <<"stereo", "meta", {}, [P EXCEPT !.reels[n].pic.stereo = 1]>>,
        <<"pichashcpl", "pichash", {"MISMATCHED_PICTURE_HASHES"}, [P EXCEPT !.reels[n].pic.hash = "cpl"]>>,
        <<"pichashpkl", "pichash", {"MISMATCHED_PICTURE_HASHES"}, [P EXCEPT !.reels[n].pic.hash = "pkl"]>>,
        <<"pichashboth", "pichash", {"INCORRECT_PICTURE_HASH"}, [P EXCEPT !.reels[n].pic.hash = "both"]>>,
        <<"picfile", "pichash", {"INCORRECT_PICTURE_HASH"}, [P EXCEPT !.reels[n].pic.hash = "file"]>>,
        <<"picnohash", "pichash", {"MISSING_HASH"}, [P EXCEPT !.reels[n].pic.hash = "none"]>>,
        <<"sndhashcpl", "sndhash", {"MISMATCHED_SOUND_HASHES"}, [P EXCEPT !.reels[n].snd.hash = "cpl"]>>,
        <<"sndhashpkl", "sndhash", {"MISMATCHED_SOUND_HASHES"}, [P EXCEPT !.reels[n].snd.hash = "pkl"]>>,
        <<"sndhashboth", "sndhash", {"INCORRECT_SOUND_HASH"}, [P EXCEPT !.reels[n].snd.hash = "both"]>>,
        <<"sndfile", "sndhash", {"INCORRECT_SOUND_HASH"}, [P EXCEPT !.reels[n].snd.hash = "file"]>>,
        <<"sndnohash", "sndhash", {"MISSING_HASH"}, [P EXCEPT !.reels[n].snd.hash = "none"]>>,
        <<"over", "det", {"INVALID_PICTURE_FRAME_SIZE_IN_BYTES"}, [P EXCEPT !.det = 1, !.reels[n].pic.big = <<0, 1302084>>]>>,
        <<"most", "det", {"NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES"}, [P EXCEPT !.det = 1, !.reels[n].pic.big = <<1302083>>]>>,
        <<"near", "det", {"NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES"}, [P EXCEPT !.det = 1, !.reels[n].pic.big = <<1197918, 1197917>>]>>,
        <<"risky", "det", {}, [P EXCEPT !.det = 1, !.reels[n].pic.big = <<1197917>>]>>,
        <<"sndrate", "snd", {"INVALID_SOUND_FRAME_RATE"}, [P EXCEPT !.reels[n].snd.rate = 96000]>>,
        <<"nosnd", "snd", {}, [P EXCEPT !.reels[n].snd.has = 0]>>,
        <<"sndgone", "snd", {"MISSING_ASSET"}, [P EXCEPT !.reels[n].snd.gone = 1]>>,
        <<"picgone", "pic", {"MISSING_ASSET"}, [P EXCEPT !.reels[n].pic.gone = 1]>>,
        <<"picelse", "pic", {"EXTERNAL_ASSET"}, [P EXCEPT !.reels[n].pic.gone = 3]>>,
        <<"sndelse", "snd", {"EXTERNAL_ASSET"}, [P EXCEPT !.reels[n].snd.gone = 3]>>,
        <<"picpath", "pic", {"EMPTY_ASSET_PATH"}, [P EXCEPT !.reels[n].pic.gone = 2]>>,
        <<"snddur", "dur", {"MISMATCHED_ASSET_DURATION"} \union (IF n = 1 THEN {"INVALID_DURATION"} ELSE {}), [P EXCEPT !.reels[n].snd.dur = @ - 1]>>,
        <<"noffoc", "marks", {"MISSING_FFOC"}, [P EXCEPT !.reels[1].marks.m = SelectSeq(@, LAMBDA m : m[1] # "FFOC")]>>,
        <<"ffoc", "marks", {"INCORRECT_FFOC"}, [P EXCEPT !.reels[1].marks.m[1] = <<"FFOC", 2>>]>>,
        <<"nolfoc", "marks", {"MISSING_LFOC"}, [P EXCEPT !.reels[n].marks.m = SelectSeq(@, LAMBDA m : m[1] # "LFOC")]>>,
        <<"lfoc", "marks", {"INCORRECT_LFOC"}, [P EXCEPT !.reels[n].marks.m[Len(r.marks.m)] = <<"LFOC", r.pic.dur - 2>>]>>,
        <<"markentry", "markx", {"UNEXPECTED_ENTRY_POINT"}, [P EXCEPT !.reels[n].marks.entry = 1]>>,
        <<"markdur", "markx", {"UNEXPECTED_DURATION"}, [P EXCEPT !.reels[n].marks.dur = 1]>>,
        <<"more", "more", {}, [P EXCEPT !.more = 1]>>,
        <<"more2", "more", {}, [P EXCEPT !.more = 2]>> }

InPlain(P) ==
  { <<"allenc", "enc", {}, AllEnc(P)>>,
    <<"rate25", "pic", {}, LET Q == PackageOf(<<ReelOf(25, << <<"FFOC", 1>>, <<"LFOC", 24>> >>, <<>>, <<>>)>>) IN [Q EXCEPT !.reels[1].rate = <<25, 1>>]>>,
    <<"rate48", "pic", {}, LET Q == PackageOf(<<ReelOf(48, << <<"FFOC", 1>>, <<"LFOC", 47>> >>, <<>>, <<>>)>>) IN [Q EXCEPT !.reels[1].rate = <<48, 1>>]>>,
    <<"short", "pic", {"INVALID_DURATION", "INVALID_INTRINSIC_DURATION"}, Shortened(P)>>,
    <<"noam", "bad", {"FAILED_READ"}, [P EXCEPT !.bad = "noam"]>>,
    <<"halfam", "bad", {"FAILED_READ"}, [P EXCEPT !.bad = "halfam"]>>,
    <<"rate30", "pic", {"INVALID_PICTURE_FRAME_RATE_FOR_2K"}, LET Q == PackageOf(<<ReelOf(30, << <<"FFOC", 1>>, <<"LFOC", 29>> >>, <<>>, <<>>)>>) IN [Q EXCEPT !.reels[1].rate = <<30, 1>>]>>,
    <<"rate32", "pic", {"INVALID_PICTURE_FRAME_RATE_FOR_2K", "INVALID_PICTURE_FRAME_RATE"},
                LET Q == PackageOf(<<ReelOf(32, << <<"FFOC", 1>>, <<"LFOC", 31>> >>, <<>>, <<>>)>>) IN [Q EXCEPT !.reels[1].rate = <<32, 1>>]>>,
    <<"twelve3d", "pic", {"INVALID_PICTURE_FRAME_RATE_FOR_2K"},
                LET Q == PackageOf(<<ReelOf(12, << <<"FFOC", 1>>, <<"LFOC", 11>> >>, <<>>, <<>>)>>) IN [Q EXCEPT !.reels[1].rate = <<12, 1>>, !.reels[1].pic.stereo = 1]>>,
    <<"fourk25", "pic", {"INVALID_PICTURE_FRAME_RATE_FOR_4K"},
                LET Q == PackageOf(<<ReelOf(25, << <<"FFOC", 1>>, <<"LFOC", 24>> >>, <<>>, <<>>)>>) IN [Q EXCEPT !.reels[1].rate = <<25, 1>>, !.reels[1].pic.w = 4096, !.reels[1].pic.h = 1716, !.area = <<1998, 1080>>]>> }

InTexts(P) ==
  { <<"sndch", "snd", {"MISMATCHED_SOUND_CHANNEL_COUNTS"}, [P EXCEPT !.reels[2].snd.ch = 3]>>,
    <<"allenc", "enc", {"MISSED_CHECK_OF_ENCRYPTED"}, AllEnc(P)>>,
    <<"subenc", "enc", {"PARTIALLY_ENCRYPTED", "MISSED_CHECK_OF_ENCRYPTED"}, [P EXCEPT !.reels[2].sub[1].enc = 1, !.sign = 1]>>,
    <<"sublang", "sub", {"MISMATCHED_SUBTITLE_LANGUAGES"}, [P EXCEPT !.reels[2].sub[1].lang = "fr-FR"]>>,
    <<"cclang", "cc", {}, [P EXCEPT !.reels[2].cc[1].lang = "fr-FR"]>>,
    <<"subnolang", "sub", {"MISSING_SUBTITLE_LANGUAGE"}, [P EXCEPT !.reels[2].sub[1].lang = "none"]>>,
    <<"ccnolang", "cc", {"MISSING_SUBTITLE_LANGUAGE"}, [P EXCEPT !.reels[2].cc[1].lang = "none"]>>,
    <<"substart", "sub", {"MISSING_SUBTITLE_START_TIME"}, [P EXCEPT !.reels[2].sub[1].start = "none"]>>,
    <<"sublate", "sub", {"INVALID_SUBTITLE_START_TIME"}, [P EXCEPT !.reels[2].sub[1].start = "late"]>>,
    <<"cclate", "cc", {"INVALID_SUBTITLE_START_TIME"}, [P EXCEPT !.reels[2].cc[1].start = "late"]>>,
    <<"subentry", "sub", {"MISSING_SUBTITLE_ENTRY_POINT"}, [P EXCEPT !.reels[2].sub[1].entry = "none"]>>,
    <<"subentrylate", "sub", {"INCORRECT_SUBTITLE_ENTRY_POINT"}, [P EXCEPT !.reels[2].sub[1].entry = "late"]>>,
    <<"ccentry", "cc", {"MISSING_CLOSED_CAPTION_ENTRY_POINT"}, [P EXCEPT !.reels[2].cc[1].entry = "none"]>>,
    <<"ccentrylate", "cc", {"INCORRECT_CLOSED_CAPTION_ENTRY_POINT"}, [P EXCEPT !.reels[2].cc[1].entry = "late"]>>,
    <<"subintr", "sub", {"MISMATCHED_TIMED_TEXT_DURATION"}, [P EXCEPT !.reels[2].sub[1].intr = 145]>>,
    <<"ccintr", "cc", {"MISMATCHED_TIMED_TEXT_DURATION"}, [P EXCEPT !.reels[2].cc[1].intr = 145]>>,
    <<"subfont", "sub", {"MISSING_LOAD_FONT"}, [P EXCEPT !.reels[2].sub[1].font = 0]>>,
    <<"ccfont", "cc", {"MISSING_LOAD_FONT"}, [P EXCEPT !.reels[2].cc[1].font = 0]>>,
    <<"subfontbig", "sub", {"INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES"}, [P EXCEPT !.reels[2].sub[1].font = 10485761]>>,
    <<"subfontmost", "sub", {}, [P EXCEPT !.reels[2].sub[1].font = 10485760]>>,
    <<"subgone", "sub", {"MISSING_ASSET"}, [P EXCEPT !.reels[2].sub[1].gone = 1]>>,
    <<"subgone1", "sub", {"MISSING_ASSET"}, [P EXCEPT !.reels[1].sub[1].gone = 1]>>,
    <<"ccgone", "cc", {"MISSING_ASSET"}, [P EXCEPT !.reels[2].cc[1].gone = 1]>>,
    <<"subelse", "sub", {"EXTERNAL_ASSET"}, [P EXCEPT !.reels[2].sub[1].gone = 3]>>,
    <<"ccelse", "cc", {"EXTERNAL_ASSET"}, [P EXCEPT !.reels[2].cc[1].gone = 3]>>,
    <<"nosub", "sub", {"MISSING_MAIN_SUBTITLE_FROM_SOME_REELS"}, [P EXCEPT !.reels[2].sub = <<>>]>>,
    <<"nosub1", "sub", {"MISSING_MAIN_SUBTITLE_FROM_SOME_REELS"}, [P EXCEPT !.reels[1].sub = <<>>]>>,
    <<"nocc", "cc", {"MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS"}, [P EXCEPT !.reels[2].cc = <<>>]>>,
    <<"nocc1", "cc", {"MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS"}, [P EXCEPT !.reels[1].cc = <<>>]>>,
    <<"twocc", "cc", {"MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS"}, [P EXCEPT !.reels[1].cc = @ \o @]>>,
    <<"early", "sub", {"INVALID_SUBTITLE_FIRST_TEXT_TIME"}, [P EXCEPT !.reels[1].sub[1].lines = <<At(95, 111, 20, "bottom", 9)>>]>>,
    <<"brief", "sub", {"INVALID_SUBTITLE_DURATION_BV21"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 38, 20, "bottom", 9)>>]>>,
    <<"nolength", "sub", {"INVALID_SUBTITLE_DURATION"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 24, 20, "bottom", 9)>>]>>,
    <<"onlybrief", "sub", {"MISSING_MAIN_SUBTITLE_FROM_SOME_REELS", "INVALID_SUBTITLE_DURATION_BV21"}, [P EXCEPT !.reels[1].sub = <<>>, !.reels[2].sub[1].lines = <<At(24, 38, 20, "bottom", 9)>>]>>,
    <<"elsebrief", "sub", {"EXTERNAL_ASSET", "INVALID_SUBTITLE_DURATION_BV21"}, [P EXCEPT !.reels[1].sub[1].gone = 3, !.reels[2].sub[1].lines = <<At(24, 38, 20, "bottom", 9)>>]>>,
    <<"morebrief", "cc", {"MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS", "INVALID_SUBTITLE_DURATION_BV21"}, [P EXCEPT !.reels[2].cc = @ \o <<TextOf(144, <<At(24, 38, 20, "bottom", 9)>>)>>]>>,
    <<"nolines", "sub", {"INVALID_XML"}, [P EXCEPT !.reels[2].sub[1].lines = <<>>]>>,
    <<"close", "sub", {"INVALID_SUBTITLE_SPACING"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 44, 20, "bottom", 9), At(45, 77, 20, "bottom", 9)>>]>>,
    <<"touch", "sub", {"INVALID_SUBTITLE_SPACING"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 44, 20, "bottom", 50), At(44, 77, 20, "bottom", 50)>>]>>,
    <<"past", "sub", {"SUBTITLE_OVERLAPS_REEL_BOUNDARY"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 145, 20, "bottom", 9)>>]>>,
    <<"pastfirst", "sub", {"SUBTITLE_OVERLAPS_REEL_BOUNDARY"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 145, 20, "bottom", 9), At(30, 50, 50, "bottom", 9)>>]>>,
    <<"past1", "cc", {"SUBTITLE_OVERLAPS_REEL_BOUNDARY"}, [P EXCEPT !.reels[1].cc[1].lines = <<At(100, 145, 20, "bottom", 9)>>]>>,
    <<"four", "sub", {"INVALID_SUBTITLE_LINE_COUNT"}, [P EXCEPT !.reels[2].sub[1].lines = [k \in 1..4 |-> At(24, 48, 10 * k, "top", 9)]]>>,
    <<"fourcc", "cc", {"INVALID_CLOSED_CAPTION_LINE_COUNT"}, [P EXCEPT !.reels[2].cc[1].lines = [k \in 1..4 |-> At(24, 48, 10 * k, "top", 9)]]>>,
    <<"mixed", "sub", {"INVALID_SUBTITLE_LINE_COUNT"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 10, "center", 9), At(24, 48, 40, "top", 9), At(24, 48, 80, "bottom", 9), At(24, 48, 20, "bottom", 9)>>]>>,
    <<"mixed3", "sub", {}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 10, "center", 9), At(24, 48, 60, "top", 9), At(24, 48, 80, "bottom", 9), At(24, 48, 40, "top", 9)>>]>>,
    <<"three", "sub", {}, [P EXCEPT !.reels[2].sub[1].lines = [k \in 1..3 |-> At(24, 48, 10 * k, "top", 52)]]>>,
    <<"pairs", "sub", {}, [P EXCEPT !.reels[2].sub[1].lines = [k \in 1..8 |-> At(20 * ((k + 1) \div 2), 20 * ((k + 1) \div 2) + 16, 20 * ((k + 1) \div 2), "top", 26)]]>>,
    <<"long", "sub", {"NEARLY_INVALID_SUBTITLE_LINE_LENGTH"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 20, "bottom", 53)>>]>>,
    <<"longest", "sub", {"NEARLY_INVALID_SUBTITLE_LINE_LENGTH"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 20, "bottom", 40), At(24, 48, 20, "bottom", 39)>>]>>,
    <<"toolong", "sub", {"INVALID_SUBTITLE_LINE_LENGTH"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 20, "bottom", 80)>>]>>,
    <<"longcc", "cc", {"INVALID_CLOSED_CAPTION_LINE_LENGTH"}, [P EXCEPT !.reels[2].cc[1].lines = <<At(24, 48, 20, "bottom", 33)>>]>>,
    <<"hugecc", "cc", {"INVALID_CLOSED_CAPTION_LINE_LENGTH", "INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES"}, [P EXCEPT !.reels[2].cc[1].lines = <<At(24, 48, 20, "bottom", 262145)>>]>>,
    <<"largecc", "cc", {"INVALID_CLOSED_CAPTION_LINE_LENGTH"}, [P EXCEPT !.reels[2].cc[1].lines = <<At(24, 48, 20, "bottom", 255000)>>]>>,
    <<"hugesub", "sub", {"INVALID_SUBTITLE_LINE_LENGTH"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 20, "bottom", 262145)>>]>>,
    <<"empty", "sub", {"EMPTY_TEXT"}, [P EXCEPT !.reels[2].sub[1].lines = <<At(24, 48, 20, "bottom", 0)>>]>>,
    <<"valign", "cc", {"MISMATCHED_CLOSED_CAPTION_VALIGN"}, [P EXCEPT !.reels[2].cc[1].lines = <<At(24, 48, 20, "bottom", 9), At(24, 48, 20, "top", 9)>>]>> }

Others(name) == IF name = "plain" THEN InPlain(Plain) ELSE InTexts(WithTexts)
Of(name) == IF name = "plain" THEN Plain ELSE WithTexts
=============================================================================
