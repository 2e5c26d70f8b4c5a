/* Drives content kinds, alignments and subtitle standards */
#include "common.h"
#include "compose.hpp"
#include "exceptions.h"
#include <boost/optional.hpp>
#include "content_kind.h"
#include "h_align.h"
#include "subtitle_standard.h"
#include "v_align.h"

using namespace dcp;
using std::string;
using std::vector;

static string scope(ContentKind const& k)
{
	return k.scope() ? "[" + J::codes(*k.scope()) + "]" : "[]";
}

static boost::optional<string> read_scope(string s)
{
	return s == "none" ? boost::optional<string>() : boost::optional<string>(unhex(s));
}

int main()
{
	vector<ContentKind> const constants = {
		ContentKind::FEATURE, ContentKind::SHORT, ContentKind::TRAILER, ContentKind::TEST, ContentKind::TRANSITIONAL, ContentKind::RATING,
		ContentKind::TEASER, ContentKind::POLICY, ContentKind::PUBLIC_SERVICE_ANNOUNCEMENT, ContentKind::ADVERTISEMENT, ContentKind::CLIP,
		ContentKind::PROMO, ContentKind::STEREOCARD, ContentKind::EPISODE, ContentKind::HIGHLIGHTS, ContentKind::EVENT
	};
	vector<HAlign> const h = { HAlign::LEFT, HAlign::CENTER, HAlign::RIGHT };
	vector<VAlign> const v = { VAlign::TOP, VAlign::CENTER, VAlign::BOTTOM };
	vector<SubtitleStandard> const st = { SubtitleStandard::INTEROP, SubtitleStandard::SMPTE_2007, SubtitleStandard::SMPTE_2010, SubtitleStandard::SMPTE_2014 };

	return main_loop([]() {}, [&](string op, Args& a) {
		J j(op);
		if (op == "kind") {
			auto const s = a.text();
			j.t("s", s);
			try {
				auto const k = ContentKind::from_name(s);
				j.b("ok", true).t("name", k.name()).raw("scope", scope(k));
			} catch (std::exception&) {
				j.b("ok", false);
			}
		} else if (op == "all") {
			vector<string> out;
			for (auto const& k: ContentKind::all()) {
				out.push_back("[" + J::codes(k.name()) + "," + scope(k) + "]");
			}
			j.raw("kinds", J::join(out));
		} else if (op == "constant") {
			auto const i = a.i();
			j.n("v", i).t("name", constants.at(i - 1).name()).raw("scope", scope(constants.at(i - 1)));
		} else if (op == "made") {
			auto const n = a.text();
			auto const s = a.word();
			ContentKind k(n, read_scope(s));
			auto const copy = k;
			j.t("given_name", n).raw("given_scope", read_scope(s) ? "[" + J::codes(*read_scope(s)) + "]" : "[]").t("name", copy.name()).raw("scope", scope(copy));
		} else if (op == "eq") {
			auto const n1 = a.text();
			auto const s1 = read_scope(a.word());
			auto const n2 = a.text();
			auto const s2 = read_scope(a.word());
			ContentKind x(n1, s1);
			ContentKind y(n2, s2);
			j.raw("a", "[" + J::codes(n1) + "," + (s1 ? "[" + J::codes(*s1) + "]" : "[]") + "]");
			j.raw("b", "[" + J::codes(n2) + "," + (s2 ? "[" + J::codes(*s2) + "]" : "[]") + "]");
			j.b("r", x == y).b("ne", x != y);
		} else if (op == "h" || op == "v") {
			auto const s = a.text();
			int found = 0;
			try {
				if (op == "h") {
					auto const x = string_to_halign(s);
					for (int i = 0; i < 3; ++i) {
						if (h[i] == x) {
							found = i + 1;
						}
					}
				} else {
					auto const x = string_to_valign(s);
					for (int i = 0; i < 3; ++i) {
						if (v[i] == x) {
							found = i + 1;
						}
					}
				}
			} catch (std::exception&) {

			}
			j.t("s", s).n("v", found);
		} else if (op == "hname" || op == "vname") {
			auto const i = a.i();
			j.n("v", i).t("name", op == "hname" ? halign_to_string(h.at(i - 1)) : valign_to_string(v.at(i - 1)));
		} else if (op == "standard") {
			auto const i = a.i();
			j.n("v", i).b("baseline", uses_baseline(st.at(i - 1))).b("box", uses_bounding_box(st.at(i - 1)));
		} else {
			bad_script(op);
		}
		j.out();
	});
}
