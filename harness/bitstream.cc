/* Drives dcp::Bitstream */
#include "bitstream.h"
#include "common.h"
#include <memory>

int main()
{
	std::unique_ptr<dcp::Bitstream> b;
	return main_loop(
		[&]() { b.reset(new dcp::Bitstream); },
		[&](std::string op, Args& a) {
			J j(op);
			bool threw = false;
			try {
				if (op == "bit") {
					auto const v = a.i();
					j.n("v", v);
					b->write_bit(v);
				} else if (op == "byte") {
					auto const v = a.i();
					auto const n = a.i();
					j.n("v", v).n("n", n);
					if (n == 8) {
						b->write_from_byte(v);
					} else {
						b->write_from_byte(v, n);
					}
				} else if (op == "word") {
					uint32_t const hi = a.num();
					uint32_t const lo = a.num();
					auto const n = a.i();
					j.n("hi", hi).n("lo", lo).n("n", n);
					if (n == 32) {
						b->write_from_word(hi * 65536 + lo);
					} else {
						b->write_from_word(hi * 65536 + lo, n);
					}
				} else if (op == "start") {
					auto const p = a.i();
					j.n("poly", p);
					b->start_crc(p);
				} else if (op == "crc") {
					b->write_crc();
				} else {
					bad_script(op);
				}
			} catch (std::exception&) {
				threw = true;
			}
			j.b("threw", threw).ns("bits", b->get()).out();
		});
}
