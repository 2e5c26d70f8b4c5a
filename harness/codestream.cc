/* What is said about JPEG2000 codestreams.
 *
 * check START FRAME RATE BYTES...        BYTES as decimal numbers
 * made START FRAME RATE W H 3D 4K SALT   those that the library makes of a picture */
#include "common.h"
#include "array_data.h"
#include "data.h"
#include "j2k_transcode.h"
#include "openjpeg_image.h"
#include "verify.h"
#include "verify_j2k.h"
#include "dcp.h"
#include "util.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>

using std::make_shared;
using std::string;
using std::vector;
using VN = dcp::VerificationNote;

/** Bytes with nothing that can be read after them */
class Guarded : public dcp::Data
{
public:
	Guarded(vector<uint8_t> const& d)
		: _size(d.size())
	{
		auto const page = sysconf(_SC_PAGESIZE);
		_space = (d.size() + page - 1) / page * page + page;
		_memory = static_cast<uint8_t*>(mmap(nullptr, _space, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		mprotect(_memory + _space - page, page, PROT_NONE);
		_data = _memory + _space - page - d.size();
		memcpy(_data, d.data(), d.size());
	}
	~Guarded() { munmap(_memory, _space); }
	uint8_t const * data() const override { return _data; }
	uint8_t * data() override { return _data; }
	int size() const override { return _size; }
private:
	int _size;
	size_t _space;
	uint8_t* _memory;
	uint8_t* _data;
};

static string name(VN::Code c)
{
	switch (c) {
#define C(x) case VN::Code::x: return #x;
	C(INVALID_JPEG2000_CODESTREAM) C(INVALID_JPEG2000_GUARD_BITS_FOR_2K) C(INVALID_JPEG2000_GUARD_BITS_FOR_4K) C(INVALID_JPEG2000_TILE_SIZE) C(INVALID_JPEG2000_CODE_BLOCK_WIDTH)
	C(INVALID_JPEG2000_CODE_BLOCK_HEIGHT) C(INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K) C(INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K) C(INCORRECT_JPEG2000_POC_MARKER)
	C(INVALID_JPEG2000_POC_MARKER_LOCATION) C(INVALID_JPEG2000_TILE_PARTS_FOR_2K) C(INVALID_JPEG2000_TILE_PARTS_FOR_4K) C(INVALID_JPEG2000_RSIZ_FOR_2K) C(INVALID_JPEG2000_RSIZ_FOR_4K)
	C(MISSING_JPEG2000_TLM_MARKER) C(INVALID_JPEG2000_TILE_PART_SIZE)
	default: return "?";
#undef C
	}
}

/** The number that a note is about, or 0 */
static int value(VN const& n)
{
	switch (n.code()) {
	case VN::Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K: case VN::Code::INVALID_JPEG2000_GUARD_BITS_FOR_4K: return *n.guard_bits();
	case VN::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH: return *n.code_block_width();
	case VN::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT: return *n.code_block_height();
	case VN::Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K: case VN::Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K: return *n.poc_markers();
	case VN::Code::INVALID_JPEG2000_TILE_PARTS_FOR_2K: case VN::Code::INVALID_JPEG2000_TILE_PARTS_FOR_4K: return *n.tile_parts();
	case VN::Code::INVALID_JPEG2000_RSIZ_FOR_2K: case VN::Code::INVALID_JPEG2000_RSIZ_FOR_4K: return *n.capabilities();
	case VN::Code::INVALID_JPEG2000_TILE_PART_SIZE: return *n.component();
	default: return 0;
	}
}

static void handle(string op, Args& a)
{
	if (op != "check" && op != "made") {
		bad_script(op);
	}
	auto const start = a.i(), frame = a.i(), rate = a.i();
	vector<int> bytes;
	if (op == "check") {
		while (a.left()) {
			bytes.push_back(a.i());
		}
	} else {
		auto const width = a.i(), height = a.i(), stereo = a.i(), fourk = a.i(), salt = a.i();
		auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(width, height));
		for (int c = 0; c < 3; ++c) {
			for (int i = 0; i < width * height; ++i) {
				image->data(c)[i] = (salt * 331 + (i / 64) * (7 + c)) & 4095;
			}
		}
		auto const made = dcp::compress_j2k(image, 3000000, rate, stereo, fourk);
		bytes.assign(made.data(), made.data() + made.size());
	}
	J j(op);
	j.n("start", start).n("frame", frame).n("rate", rate).raw("b", J::list(bytes));
	vector<VN> notes;
	string thrown;
	try {
		dcp::verify_j2k(make_shared<Guarded>(vector<uint8_t>(bytes.begin(), bytes.end())), start, frame, rate, notes);
	} catch (std::exception& e) {
		thrown = "exception";
	}
	vector<string> said;
	for (auto const& n: notes) {
		auto const large = n.code() == VN::Code::INVALID_JPEG2000_TILE_PART_SIZE;
		said.push_back("{\"c\":\"" + name(n.code()) + "\",\"v\":" + std::to_string(value(n)) + ",\"f\":" + std::to_string(n.frame() ? *n.frame() : -1)
			+ ",\"hi\":" + std::to_string(large ? (uint32_t(*n.size_in_bytes()) >> 16) : 0) + ",\"lo\":" + std::to_string(large ? (*n.size_in_bytes() & 0xffff) : 0) + "}");
	}
	j.raw("notes", J::join(said)).w("thrown", thrown).out();
}

int main()
{
	dcp::init();
	return main_loop([]() {}, handle);
}
