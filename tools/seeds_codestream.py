"""Planted bugs in the verification of codestreams"""
from mkseed import full

P = '''#include "verify.h"
#include "verify_j2k.h"
#include "array_data.h"
#include "dcp.h"
#include "util.h"
#include <iostream>
#include <vector>
using namespace dcp;
typedef std::vector<int> B;
typedef VerificationNote::Code C;
static B operator+(B a, B b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static B soc{0xff, 0x4f}, eoc{0xff, 0xd9}, tlm{0xff, 0x55, 0, 6, 0, 80, 0, 0};
static B siz(int w, int rsiz) { return B{0xff, 0x51, 0, 47, 0, rsiz, 0, 0, w >> 8, w & 255, 0, 0, 4, 56, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, w >> 8, w & 255, 0, 0, 4, 56, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 11, 1, 1, 11, 1, 1, 11, 1, 1}; }
static B cod(bool big, int cbw = 3, int cbh = 3) { B b{0xff, 0x52, 0, big ? 19 : 18, 1, 4, 0, 1, 1, big ? 6 : 5, cbw, cbh, 0, 0, 0x77, 0x88, 0x88, 0x88, 0x88, 0x88}; if (big) b.push_back(0x88); return b; }
static B qcd(int style) { return B{0xff, 0x5c, 0, 8, style, 1, 2, 3, 4, 5}; }
static B poc(int last = 4) { return B{0xff, 0x5f, 0, 16, 0, 0, 0, 1, 6, 3, 4, 6, 0, 0, 1, 7, 3, last}; }
static B tile(int i, int n, B length = {0, 0, 0, 20}) { return B{0xff, 0x90, 0, 10, 0, 0} + length + B{i, n, 0xff, 0x93, 1, 255, 0, 7}; }
static B tiles(int n) { B b; for (int i = 0; i < n; ++i) b = b + tile(i, n); return b; }
static std::vector<VerificationNote> said(B b, int start = 0, int frame = 0, int rate = 24)
{
	std::vector<uint8_t> d(b.begin(), b.end());
	std::vector<VerificationNote> n;
	verify_j2k(std::make_shared<ArrayData>(d.data(), d.size()), start, frame, rate, n);
	return n;
}
static bool only(std::vector<VerificationNote> n, C c) { if (n.empty()) return false; for (auto const& i: n) if (i.code() != c) return false; return true; }
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
int main()
{
	dcp::init();
	B const head = soc + siz(2048, 3) + cod(false) + qcd(32), big = soc + siz(4096, 4) + cod(true) + qcd(64) + poc();
	WANT(said(head + tlm + tiles(3) + eoc).empty());
	WANT(said(big + tlm + tiles(6) + eoc).empty());
'''


def bug(id, needs, breaks, edits, wants):
    full(id, "C28", needs, breaks, [("src/verify_j2k.cc", a, b) for a, b in edits], P + "".join("\tWANT(%s);\n" % w for w in wants) + "}\n", ())


bug("i01", "a progression order change that is between tile parts", "progression order changes after the main header are not noticed if there was one in it",
    [("				if (main_header_finished) {\n					num_POC_after_main++;", "				if (main_header_finished && num_POC_in_main == 0) {\n					num_POC_after_main++;")],
    ["only(said(big + tlm + B{0xff, 0x90, 0, 10, 0, 0, 0, 0, 0, 20, 0, 6} + poc() + B{0xff, 0x93, 1, 2} + eoc), C::INVALID_JPEG2000_POC_MARKER_LOCATION)"])
bug("i02", "a tile part of exactly one byte more than is allowed", "a tile part may be a little too big",
    [("std::floor(200e6 / (8 * frame_rate))", "std::ceil(200e6 / (8 * frame_rate))")],
    ["only(said(head + tlm + tile(0, 3, {0, 0x0f, 0xe5, 0x03}) + tile(1, 3) + tile(2, 3) + eoc), C::INVALID_JPEG2000_TILE_PART_SIZE)", "said(head + tlm + tile(0, 3, {0, 0x0f, 0xe5, 0x02}) + tile(1, 3) + tile(2, 3) + eoc).empty()"])
bug("i03", "a tile whose height alone is not that of the picture", "tiles as wide as the picture may be of any height",
    [("tile_width != image_width || tile_height != image_height", "tile_width != image_width && tile_height != image_height")],
    ["[&]() { auto s = siz(2048, 3); s[29] = 55; return only(said(soc + s + cod(false) + qcd(32) + tlm + tiles(3) + eoc), C::INVALID_JPEG2000_TILE_SIZE); }()"])
bug("i04", "a picture of 2049 to 3995 pixels across", "pictures a little more than 2K wide are taken to be 2K",
    [("auto const fourk = image_width > 2048;", "auto const fourk = image_width > 2100;")],
    ["said(soc + siz(2049, 4) + cod(true) + qcd(64) + poc() + tlm + tiles(6) + eoc).empty()"])
bug("i05", "a codestream with two quantisation defaults", "a second quantisation default is not noticed",
    [("		if (num_QCD > 1) {", "		if (num_QCD > 2) {")],
    ["only(said(head + qcd(32) + tlm + tiles(3) + eoc), C::INVALID_JPEG2000_CODESTREAM)"])
bug("i06", "a codestream that is wrong in a later reel", "the frame with a wrong codestream is counted from the start of its reel",
    [("		note.set_frame(start_index + frame_index);\n		note.set_frame_rate(dcp::Fraction(frame_rate, 1));\n		notes.push_back(note);\n	}\n}", "		note.set_frame(frame_index);\n		note.set_frame_rate(dcp::Fraction(frame_rate, 1));\n		notes.push_back(note);\n	}\n}")],
    ["*said(soc, 100, 5)[0].frame() == 105"])
bug("i07", "picture data with a byte 0xff followed by one from 0x80 to 0x8f", "picture data are sometimes taken for a marker",
    [("ptr[1] < 0x90)) {", "ptr[1] < 0x80)) {")],
    ["said(head + tlm + tile(0, 3) + tile(1, 3) + B{0xff, 0x90, 0, 10, 0, 0, 0, 0, 0, 20, 2, 3, 0xff, 0x93, 1, 255, 0x85, 7} + eoc).empty()"])
