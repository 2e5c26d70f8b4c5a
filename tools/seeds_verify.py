"""Planted bugs in the verifier; OUT of GenVerify is expected in $CASES"""
import json, os, sys
from mkseed import full, V
sys.path.insert(0, V)
from checks.verify import script

H = ("common.h", "world.h", "xmlview.h", "pki.h", "verify.cc")
cases = {c["name"]: c["pkg"] for c in map(json.loads, open(os.environ["CASES"]))}
P = '''#define main driver
#include "verify.cc"
#undef main
/* Everything that the verifier says about a package */
static string said(string script) { std::ios::sync_with_stdio(false); std::istringstream in("reset\\n" + script); std::cin.clear(); std::cin.rdbuf(in.rdbuf()); std::ostringstream out; auto old = std::cout.rdbuf(out.rdbuf()); driver(); std::cout.rdbuf(old); return out.str(); }
static bool in(string what, string all) { return all.find("\\"c\\":\\"" + what + "\\"") != string::npos; }
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
'''


def case(name, **changes):
    return json.loads(json.dumps(cases[name]))


def bug(id, needs, breaks, edits, said):
    """said: (package, code, whether it is to be said)"""
    body = "".join("\tWANT(%sin(\"%s\", said(%s)));\n" % ("" if yes else "!", code, json.dumps("\n".join(script(p)) + "\n")) for p, code, yes in said)
    full(id, "C26", needs, breaks, [("src/verify.cc", a, b) for a, b in edits], P + "int main()\n{\n" + body + "}\n", H)


plain, texts = case("plain"), case("texts")
q = case("texts"); q["reels"][1]["snd"]["ch"] = 1
bug("a01", "a later reel with fewer sound channels than the first", "reels whose sound has fewer channels than that of the first are not noticed",
    [("} else if (*context.audio_channels != asset->channels()) {", "} else if (*context.audio_channels < asset->channels()) {")],
    [(q, "MISMATCHED_SOUND_CHANNEL_COUNTS", True), (texts, "MISMATCHED_SOUND_CHANNEL_COUNTS", False)])
bug("a02", "an asset whose hashes in the lists agree with one another and not with the file", "a damaged asset is reported as lists that disagree",
    [("	if (cpl_hash && *cpl_hash != *reference_hash) {", "	if (cpl_hash && *cpl_hash != *calculated_hash) {")],
    [(case("plain picfile"), "INCORRECT_PICTURE_HASH", True)])
bug("a03", "subtitles with one frame between them", "subtitles that follow one another by a frame are not noticed",
    [("distance >= 0 && distance < 2", "distance >= 0 && distance < 1")],
    [(case("texts close"), "INVALID_SUBTITLE_SPACING", True)])
bug("a04", "a reel without any closed captions", "reels with no closed captions at all are not noticed among reels that have some",
    [("		if (fewest_closed_captions != most_closed_captions) {", "		if (fewest_closed_captions && fewest_closed_captions != most_closed_captions) {")],
    [(case("texts nocc"), "MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS", True)])
q = case("texts")
for k in ("pic", "snd"):
    q["reels"][1][k]["frames"] = q["reels"][1][k]["dur"] = 150
for k in ("sub", "cc"):
    q["reels"][1][k][0]["dur"] = q["reels"][1][k][0]["intr"] = 150
q["reels"][1]["marks"]["m"][0][1] = 149
bug("a05", "reels of different lengths", "the last frame is taken to be that of the first reel",
    [("lfoc_time != (cpl->reels().back()->duration() - 1)", "lfoc_time != (cpl->reels().front()->duration() - 1)")],
    [(q, "INCORRECT_LFOC", False), (texts, "INCORRECT_LFOC", False)])
q = case("texts"); q["reels"][1]["snd"]["enc"] = 1
bug("a06", "a packing list of encrypted assets of which the first is not encrypted", "an unsigned packing list is noticed only if the first asset of a reel is encrypted",
    [("			if (j->asset_ref().resolved()) {\n				auto mxf", "			if (j->asset_ref().resolved() && (encrypted.empty() ? j == i->reel_file_assets().front() : true)) {\n				auto mxf")],
    [(q, "UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT", True)])
q = case("texts"); q["reels"][1]["sub"][0]["lines"] = [dict(tin=24, tout=48, vp=v, va=a, len=9) for v, a in ((10, "center"), (40, "top"), (20, "top"), (80, "top"))]
bug("a07", "lines counted from the centre along with lines counted from the top or bottom", "lines above and below the centre are confused when counting lines",
    [("return lrintf((0.5f + sub->v_position()) * 100);", "return lrintf((0.5f - sub->v_position()) * 100);")],
    [(q, "INVALID_SUBTITLE_LINE_COUNT", True)])
q = case("plain"); q["reels"][0]["pic"].update(w=4096, h=1716); q["reels"][0]["rate"] = [48, 1]; q["area"] = [1998, 1080]
for k in ("pic", "snd"):
    q["reels"][0][k]["frames"] = q["reels"][0][k]["dur"] = 48
q["reels"][0]["marks"]["m"] = [["FFOC", 1], ["LFOC", 47]]
bug("a08", "4K pictures at a multiple of 24 frames per second", "high frame rates are accepted for 4K pictures",
    [("		if (asset->edit_rate() != Fraction(24, 1)) {", "		if (asset->edit_rate().numerator % 24 || asset->edit_rate().denominator != 1) {")],
    [(q, "INVALID_PICTURE_FRAME_RATE_FOR_4K", True)])
bug("a09", "a subtitle of exactly fifteen frames", "subtitles of the shortest length allowed are said to be too short",
    [("length.as_editable_units_ceil(er) < 15", "length.as_editable_units_ceil(er) <= 15")],
    [(texts, "INVALID_SUBTITLE_DURATION_BV21", False)])
bug("a10", "a caption of 33 to 52 characters", "captions are measured by the limits of subtitles",
    [("verify_text_lines_and_characters(i->asset(), 32, 32, &result);", "verify_text_lines_and_characters(i->asset(), 32, 52, &result);")],
    [(case("texts longcc"), "INVALID_CLOSED_CAPTION_LINE_LENGTH", True)])
