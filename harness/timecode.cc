/* Drives dcp::Time.  Registers hold times; "set" fills one, the others compute */
#include "common.h"
#include "dcp_time.h"
#include "exceptions.h"
#include <cmath>
#include <map>

using dcp::Time;

static std::string show(Time const& t)
{
	return J::list(std::vector<int>{t.h, t.m, t.s, t.e, t.tcr});
}

int main()
{
	std::map<int, Time> r;
	return main_loop(
		[&]() { r.clear(); },
		[&](std::string op, Args& a) {
			J j(op);
			if (op == "set") {
				auto const k = a.i();
				Time t;
				t.h = a.i(); t.m = a.i(); t.s = a.i(); t.e = a.i(); t.tcr = a.i();
				r[k] = Time(t.h, t.m, t.s, t.e, t.tcr);
				j.n("k", k).raw("r", show(r[k])).out();
			} else if (op == "compare") {
				auto const i = a.i(), k = a.i();
				Time const x = r[i], y = r[k];
				j.n("i", i).n("j", k).b("lt", x < y).b("gt", x > y).b("le", x <= y).b("ge", x >= y).b("eq", x == y).b("ne", x != y).out();
			} else if (op == "add" || op == "sub") {
				auto const i = a.i(), y = a.i(), k = a.i();
				r[k] = op == "add" ? r[i] + r[y] : r[i] - r[y];
				j.n("i", i).n("j", y).n("k", k).raw("r", show(r[k])).out();
			} else if (op == "ratio") {
				auto const i = a.i(), y = a.i();
				double const v = r[i] / r[y];
				bool const fine = std::isfinite(v) && std::fabs(v) < 2000;
				j.n("i", i).n("j", y).b("finite", fine && v >= 0).n("r", fine ? llround(v * 1e6) : 0).out();
			} else if (op == "rebase") {
				auto const i = a.i(), q = a.i(), k = a.i();
				r[k] = r[i].rebase(q);
				j.n("i", i).n("q", q).n("k", k).raw("r", show(r[k])).out();
			} else if (op == "frames") {
				auto const n = a.i(), num = a.i(), den = a.i(), q = a.i(), k = a.i();
				r[k] = Time(n, double(num) / den, q);
				j.n("n", n).n("num", num).n("den", den).n("q", q).n("k", k).raw("r", show(r[k])).out();
			} else if (op == "millis") {
				auto const n = a.i(), q = a.i(), k = a.i();
				r[k] = Time(n / 1000.0, q);
				j.n("n", n).n("q", q).n("k", k).raw("r", show(r[k])).out();
			} else if (op == "units") {
				auto const i = a.i(), q = a.i();
				auto const t = r[i];
				auto const secs = t.as_seconds();
				j.n("i", i).n("q", q).n("own", t.as_editable_units()).n("down", t.as_editable_units_floor(q)).n("up", t.as_editable_units_ceil(q));
				j.n("secs", llround(std::floor(secs))).n("micros", llround((secs - std::floor(secs)) * 1e6)).out();
			} else if (op == "write") {
				auto const i = a.i(), interop = a.i();
				j.n("i", i).n("interop", interop).t("s", r[i].as_string(interop ? dcp::Standard::INTEROP : dcp::Standard::SMPTE)).out();
			} else if (op == "parse") {
				auto const k = a.i(), q = a.i();
				auto const s = a.text();
				j.n("k", k).n("q", q).t("s", s);
				try {
					r[k] = Time(s, q ? boost::optional<int>(q) : boost::optional<int>());
					j.n("ok", 1).n("own", 0).raw("r", show(r[k])).out();
				} catch (dcp::ReadError&) {
					j.n("ok", 0).n("own", 1).out();
				} catch (std::exception&) {
					j.n("ok", 0).n("own", 0).out();
				}
			} else {
				bad_script(op);
			}
		});
}
