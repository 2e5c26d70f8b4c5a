/* Drives dcp::LocalTime through its public interface */
#include "common.h"
#include "exceptions.h"
#include "local_time.h"
#include "utc_offset.h"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <memory>

using dcp::LocalTime;
using dcp::UTCOffset;
using std::string;
using std::vector;
namespace pt = boost::posix_time;
namespace gr = boost::gregorian;

typedef vector<int> T;

static T read_stamp(Args& a)
{
	T t;
	for (int i = 0; i < 8; ++i) {
		t.push_back(a.i());
	}
	return t;
}

static UTCOffset offset(int o)
{
	return UTCOffset(o / 60, o % 60);
}

static LocalTime make(T const& t)
{
	return LocalTime(pt::ptime(gr::date(t[0], t[1], t[2]), pt::time_duration(t[3], t[4], t[5], t[6] * 1000LL)), offset(t[7]));
}

static T fields(LocalTime const& t)
{
	return T { t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.millisecond() };
}

/* What an object shows: its fields, its text, and whether it equals a time made of the fields and zone in them */
static J& show(J& j, LocalTime const& t)
{
	auto const f = fields(t);
	auto const text = t.as_string(true, true);
	bool same = false;
	try {
		if (text.size() >= 6) {
			auto const zone = text.substr(text.size() - 6);
			int const o = atoi(zone.substr(1, 2).c_str()) * 60 + atoi(zone.substr(4, 2).c_str());
			auto g = f;
			g.push_back(zone[0] == '-' ? -o : o);
			same = t == make(g);
		}
	} catch (...) {

	}
	return j.ns("f", f).t("text", text).b("same", same);
}

/* The text of the zone alone */
static string zone(LocalTime const& t)
{
	auto const s = t.as_string(true, true);
	return s.size() >= 6 ? s.substr(s.size() - 6) : s;
}

static string reread(string const& text)
{
	try {
		LocalTime t(text);
		return J::join({J::list(fields(t)), J::codes(zone(t))});
	} catch (...) {
		return "[]";
	}
}

static string compare(LocalTime const& a, LocalTime const& b)
{
	return J::list(vector<int>{a < b, a <= b, a > b, a >= b, a == b, a != b});
}

int main()
{
	std::unique_ptr<LocalTime> cur;

	return main_loop(
		[&]() { cur.reset(); },
		[&](string op, Args& a) {
			if (op == "parse") {
				auto const s = a.text();
				J j("parse");
				j.t("s", s);
				try {
					LocalTime t(s);
					j.b("ok", true);
					show(j, t);
				} catch (...) {
					j.b("ok", false);
				}
				j.out();
			} else if (op == "make") {
				auto const s = read_stamp(a);
				auto const t = make(s);
				J j("make");
				j.ns("t", s);
				show(j, t);
				vector<string> texts;
				for (int ms = 0; ms < 2; ++ms) {
					for (int z = 0; z < 2; ++z) {
						texts.push_back(J::codes(t.as_string(ms, z)));
					}
				}
				j.raw("texts", J::join(texts));
				j.t("date", t.date());
				j.raw("tod", J::join({J::codes(t.time_of_day(false, false)), J::codes(t.time_of_day(true, false)), J::codes(t.time_of_day(true, true))}));
				j.raw("reread", reread(t.as_string(true, true)));
				j.raw("reread0", reread(t.as_string(false, true)));
				j.out();
			} else if (op == "minute_make") {
				auto const s = read_stamp(a);
				LocalTime t(s[0], s[1], s[2], s[3], s[4], offset(s[7]));
				J j("local");
				j.ns("t", s);
				show(j, t).out();
			} else if (op == "local") {
				auto const s = read_stamp(a);
				auto const how = a.word();
				J j("local");
				j.ns("t", s);
				if (how == "tm") {
					struct tm x = tm();
					x.tm_year = s[0] - 1900;
					x.tm_mon = s[1] - 1;
					x.tm_mday = s[2];
					x.tm_hour = s[3];
					x.tm_min = s[4];
					x.tm_sec = s[5];
					show(j, LocalTime(x)).out();
				} else {
					show(j, LocalTime(pt::ptime(gr::date(s[0], s[1], s[2]), pt::time_duration(s[3], s[4], s[5], s[6] * 1000LL)))).out();
				}
			} else if (op == "cmp") {
				auto const x = read_stamp(a);
				auto const y = read_stamp(a);
				auto const ta = make(x);
				auto const tb = make(y);
				J j("cmp");
				j.ns("a", x).ns("b", y);
				j.raw("before", J::join({J::codes(ta.as_string(true, true)), J::codes(tb.as_string(true, true))}));
				j.raw("r", compare(ta, tb)).raw("rr", compare(tb, ta));
				j.raw("after", J::join({J::codes(ta.as_string(true, true)), J::codes(tb.as_string(true, true))}));
				j.out();
			} else if (op == "asn1") {
				auto const kind = a.word();
				auto const s = a.text();
				J j("asn1");
				j.w("kind", kind).t("s", s);
				auto const t = kind == "utc" ? LocalTime::from_asn1_utc_time(s) : LocalTime::from_asn1_generalized_time(s);
				j.ns("f", fields(t)).t("zone", zone(t)).t("utc", zone(make({2000, 1, 1, 0, 0, 0, 0, 0}))).out();
			} else if (op == "epoch") {
				auto const s = read_stamp(a);
				auto const v = static_cast<long long>(make(s).as_time_t());
				J j("epoch");
				long long d = v / 86400;
				if (v % 86400 < 0) {
					--d;
				}
				j.ns("t", s).n("day", d < -2000000000 || d > 2000000000 ? -2000000000 : d).n("sec", v - d * 86400).out();
			} else if (op == "new") {
				auto const s = read_stamp(a);
				cur.reset(new LocalTime(make(s)));
				J j("new");
				j.ns("t", s).b("ok", true).ns("f", fields(*cur)).t("zone", zone(*cur)).out();
			} else {
				if (!cur) {
					bad_script("no current time");
				}
				J j(op);
				long long n[4] = { 0, 0, 0, 0 };
				if (op == "add") {
					/* days hours minutes ms */
					for (auto& i: n) {
						i = a.num();
					}
					/* for the specification: whole days and the rest */
					long long ms = (n[1] * 60 + n[2]) * 60000 + n[3];
					j.n("days", n[0] + ms / 86400000).n("ms", ms % 86400000);
				} else {
					n[0] = a.num();
					j.n("n", n[0]);
				}
				bool ok = true;
				try {
					if (op == "add_days") {
						cur->add_days(n[0]);
					} else if (op == "add_months") {
						cur->add_months(n[0]);
					} else if (op == "add_minutes") {
						cur->add_minutes(n[0]);
					} else if (op == "add") {
						cur->add(pt::hours(n[0] * 24 + n[1]) + pt::minutes(n[2]) + pt::milliseconds(n[3]));
					} else if (op == "set_offset") {
						cur->set_offset(offset(n[0]));
					} else if (op == "set_day") {
						cur->set_day(n[0]);
					} else if (op == "set_month") {
						cur->set_month(n[0]);
					} else if (op == "set_year") {
						cur->set_year(n[0]);
					} else {
						bad_script(op);
					}
				} catch (...) {
					ok = false;
				}
				j.b("ok", ok).ns("f", fields(*cur)).t("zone", zone(*cur)).out();
			}
		});
}
