/* Drives dcp::FSK */
#include "common.h"
#include "fsk.h"
#include <memory>

int main()
{
	std::unique_ptr<dcp::FSK> f;
	return main_loop(
		[&]() { f.reset(new dcp::FSK); },
		[&](std::string op, Args& a) {
			J j(op);
			if (op == "set") {
				std::vector<bool> d;
				for (auto c: a.word()) {
					d.push_back(c == '1');
				}
				f->set_data(d);
				j.ns("data", d).out();
			} else if (op == "get") {
				auto const n = a.i();
				std::vector<int> out;
				for (int i = 0; i < n; ++i) {
					out.push_back(f->get());
				}
				j.n("n", n).ns("out", out).out();
			} else {
				bad_script(op);
			}
		});
}
