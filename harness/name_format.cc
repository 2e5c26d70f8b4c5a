/* Drives dcp::NameFormat */
#include "common.h"
#include "name_format.h"
#include <memory>

#ifdef LIBDCP_WINDOWS
static bool const windows = true;
#else
static bool const windows = false;
#endif

int main()
{
	std::unique_ptr<dcp::NameFormat> f;
	return main_loop(
		[&]() { f.reset(new dcp::NameFormat); },
		[&](std::string op, Args& a) {
			J j(op);
			if (op == "make") {
				auto const s = a.text();
				f.reset(new dcp::NameFormat(s));
				j.t("spec", s).t("shows", f->specification()).out();
			} else if (op == "set") {
				auto const s = a.text();
				f->set_specification(s);
				j.t("spec", s).t("shows", f->specification()).out();
			} else if (op == "get") {
				auto const suffix = a.text();
				auto const ignore = a.text();
				dcp::NameFormat::Map m;
				std::vector<std::string> pairs;
				while (a.left()) {
					auto const k = a.text();
					auto const v = a.text();
					m[k[0]] = v;
					pairs.push_back("[" + std::to_string(static_cast<unsigned char>(k[0])) + "," + J::codes(v) + "]");
				}
				auto const name = ignore.empty() ? f->get(m, suffix) : f->get(m, suffix, ignore);
				j.t("suffix", suffix).t("ignore", ignore).raw("values", J::join(pairs)).b("windows", windows).t("name", name).t("shows", f->specification()).out();
			} else if (op == "eq") {
				auto const x = a.text();
				auto const y = a.text();
				j.t("a", x).t("b", y).b("r", dcp::NameFormat(x) == dcp::NameFormat(y)).out();
			} else {
				bad_script(op);
			}
		});
}
