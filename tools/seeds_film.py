"""Planted bugs in film times, packages and compositions"""
from mkseed import full

T = '''#include "dcp_time.h"
#include <iostream>
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
using dcp::Time;
'''
F = "src/dcp_time.cc"
full("p01", "C17", "a sum that comes to exactly a whole second", "the units of a sum are not carried into the seconds when they come to exactly one second",
     [(F, "	if (r.e >= r.tcr) {\n", "	if (r.e > r.tcr) {\n")],
     T + '''int main() { auto t = Time(0, 0, 1, 12, 24) + Time(0, 0, 0, 12, 24); WANT(t.s == 2); WANT(t.e == 0); }''', ())
full("p02", "C17", "a change of rate that rounds up at the end of a minute", "rounding up at a change of rate is carried into the seconds but not the minutes",
     [(F, '''	int m_ = m;
	if (s_ >= 60) {
		s_ -= 60;
		++m_;
	}
''', '''	int m_ = m;
	if (s_ > 60) {
		s_ -= 60;
		++m_;
	}
''')],
     T + '''int main() { auto t = Time(0, 3, 59, 999, 1000).rebase(24); WANT(t.m == 4); WANT(t.s == 0); }''', ())
full("p03", "C17", "a count of units at a lower rate that is a little over a whole number", "unit counts that should round up round to the nearest",
     [(F, "return ceil(int64_t(e)", "return round(int64_t(e)")],
     T + '''int main() { WANT(Time(0, 0, 1, 1, 250).as_editable_units_ceil(24) == 25); }''', ())

P = '''#include "world.h"
#include "xmlview.h"
#include "search.h"
#include "verify.h"
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
using namespace world;
using namespace xmlview;
static std::string find(Path d, std::string start) {
	for (auto i: boost::filesystem::directory_iterator(d)) { if (i.path().filename().string().compare(0, start.size(), start) == 0) { return contents(i.path()); } }
	return "";
}
'''
full("q01", "C18", "a text asset written a second time to the same file", "an asset keeps its cached hash when it is written again at the same place",
     [("src/asset.cc", '''	_file = filesystem::absolute(file);
	_hash = optional<string>();
}


void
Asset::set_file_preserving_hash''', '''	auto const absolute = filesystem::absolute(file);
	if (_file && *_file == absolute) {
		return;
	}
	_file = absolute;
	_hash = optional<string>();
}


void
Asset::set_file_preserving_hash''')],
     P + '''int main() {
	dcp::init(); Scratch s;
	auto cpl = std::make_shared<dcp::CPL>("A", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, dcp::Profile::SMPTE_BV21);
	auto reel = std::make_shared<dcp::Reel>(); cpl->add(reel);
	reel->add(reel_asset(make_asset("mono", s.path() / "p.mxf", 2, 1, boost::none, dcp::Standard::SMPTE), "picture", 2, 0));
	dcp::DCP d(s.path()); d.add(cpl); d.write_xml();
	cpl->set_issuer("another");
	d.write_xml({}, dcp::Filenames::ORIGINAL);
	WANT(find(s.path(), "pkl_").find(sha1_base64(contents(*cpl->file()))) != std::string::npos); }''')
full("q02", "C18", "an asset in a directory whose name begins like the package's", "a file is taken to be within a directory if the text of its path begins with the directory's",
     [("src/util.cc", '''	auto i = root.begin ();
	auto j = file.begin ();
''', '''	if (file.string().compare(0, root.string().length(), root.string()) == 0 && file.parent_path().parent_path() == root.parent_path()) {
		return file.filename();
	}

	auto i = root.begin ();
	auto j = file.begin ();
''')],
     P + '''int main() {
	dcp::init(); Scratch s;
	boost::filesystem::create_directories(s.path() / "d"); boost::filesystem::create_directories(s.path() / "d2");
	auto cpl = std::make_shared<dcp::CPL>("A", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, dcp::Profile::SMPTE_BV21);
	auto reel = std::make_shared<dcp::Reel>(); cpl->add(reel);
	auto a = make_asset("mono", s.path() / "d2" / "p.mxf", 2, 1, boost::none, dcp::Standard::SMPTE);
	reel->add(reel_asset(a, "picture", 2, 0));
	dcp::DCP d(s.path() / "d"); d.add(cpl); d.write_xml();
	WANT(contents(s.path() / "d" / "ASSETMAP.xml").find(a->id()) == std::string::npos); }''')
full("q03", "C18", "two compositions in one package that share an asset after others", "references to an asset already listed for another composition are not resolved across packages beyond the first",
     [("src/search.cc", "				i->resolve_refs(j->assets(true));\n", "				i->resolve_refs(j->assets(true));\n				break;\n")],
     P + '''int main() {
	dcp::init(); Scratch s;
	std::vector<Path> ds; std::string id;
	for (int k = 0; k < 3; ++k) { ds.push_back(s.path() / std::string(1, 'a' + k)); boost::filesystem::create_directories(ds[k]); }
	std::vector<std::shared_ptr<dcp::Asset>> as;
	for (int k = 0; k < 3; ++k) { as.push_back(make_asset("mono", ds[k] / "p.mxf", 2, k, boost::none, dcp::Standard::SMPTE)); }
	for (int k = 0; k < 3; ++k) {
		auto cpl = std::make_shared<dcp::CPL>("A", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, dcp::Profile::SMPTE_BV21);
		auto r1 = std::make_shared<dcp::Reel>(), r2 = std::make_shared<dcp::Reel>(); cpl->add(r1); cpl->add(r2);
		r1->add(reel_asset(as[k], "picture", 2, 0)); r2->add(reel_asset(as[k == 2 ? 0 : 2], "picture", 2, 0));
		dcp::DCP d(ds[k]); d.add(cpl); d.write_xml();
	}
	for (auto c: dcp::find_and_resolve_cpls(ds, true)) { for (auto r: c->reels()) { WANT(r->main_picture()->asset_ref().resolved()); } } }''')

C = P + '''#include "main_sound_configuration.h"
#include "rating.h"
struct Made { Scratch s; std::shared_ptr<dcp::CPL> c; Made() {
	dcp::init();
	c = std::make_shared<dcp::CPL>("A", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, dcp::Profile::SMPTE_BV20);
	auto reel = std::make_shared<dcp::Reel>(); c->add(reel);
	reel->add(reel_asset(make_asset("mono", s.path() / "p.mxf", 2, 1, boost::none, dcp::Standard::SMPTE), "picture", 2, 0));
	c->set_main_sound_configuration(dcp::MainSoundConfiguration("51/L,R,C,LFE,Ls,Rs")); c->set_main_sound_sample_rate(48000);
	c->set_main_picture_stored_area(dcp::Size(1998, 1080)); c->set_main_picture_active_area(dcp::Size(1998, 1080)); }
	std::shared_ptr<dcp::CPL> again() { c->write_xml(s.path() / "c.xml", {}); return std::make_shared<dcp::CPL>(s.path() / "c.xml"); } };
'''
full("r01", "C19", "a version number of zero", "a version number of zero is not written",
     [("src/cpl.cc", "	if (_version_number) {\n		auto vn", "	if (_version_number.get_value_or(0)) {\n		auto vn")],
     C + '''int main() { Made m; m.c->set_version_number(0); WANT(m.again()->version_number() && *m.again()->version_number() == 0); }''')
full("r02", "C19", "two extensions with the same name and property and different scopes", "setting an extension looks at names only when it is the same property as before",
     [("src/cpl.cc", '''	for (auto& metadata: _extension_metadata) {
		if (metadata.scope == scope && metadata.name == name) {
			for (auto& property: metadata.properties) {
				if (property.name == property_name) {
					property.value = value;
					return;
				}
			}
		}
	}

	_extension_metadata.push_back(''', '''	for (auto& metadata: _extension_metadata) {
		if (metadata.scope == scope && metadata.name == name) {
			for (auto& property: metadata.properties) {
				if (property.name == property_name && property.value.empty()) {
					property.value = value;
					return;
				}
			}
		}
	}

	_extension_metadata.push_back(''')],
     C + '''int main() { Made m; m.c->set_dolby_edr_image_transfer_function("a"); m.c->set_dolby_edr_image_transfer_function("b"); WANT(*m.again()->dolby_edr_image_transfer_function() == "b"); }''')
full("r03", "C19", "three or more versions", "of the versions after the first only one is written",
     [("src/cpl.cc", "		for (size_t i = 1; i < _content_versions.size(); ++i) {\n", "		for (size_t i = 1; i < _content_versions.size() && i < 2; ++i) {\n")],
     C + '''int main() { Made m; m.c->set_content_versions({dcp::ContentVersion("a", "b"), dcp::ContentVersion("c", "d"), dcp::ContentVersion("e", "f")}); WANT(m.again()->content_versions().size() == 3); }''')
full("r04", "C19", "a part with a duration shorter than the rest of its asset", "the duration of a part is written only when there is an entry point other than the start",
     [("src/reel_asset.cc", "	if (_duration) {\n		cxml::", "	if (_duration && (!_entry_point || *_entry_point || *_duration == _intrinsic_duration)) {\n		cxml::")],
     C + '''int main() { Made m; m.c->reels()[0]->main_picture()->set_duration(1); WANT(m.again()->reels()[0]->main_picture()->actual_duration() == 1); }''')
