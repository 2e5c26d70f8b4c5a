"""Planted bugs in subtitles and captions"""
from mkseed import full

H = ("common.h", "world.h", "xmlview.h")
P = '''#include "world.h"
#include "equality_options.h"
#include "exceptions.h"
#include "interop_text_asset.h"
#include "smpte_text_asset.h"
#include "text_image.h"
#include "text_string.h"
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
using namespace world;
static auto const quiet = [](dcp::NoteType, std::string) {};
struct T { std::string text = "x"; int in = 1; int out = 2; float h = 0; float v = 0.1; dcp::VAlign va = dcp::VAlign::TOP; std::vector<dcp::Text::VariableZPosition> z = {}; dcp::Time fu = dcp::Time(0, 0, 0, 0, 24); dcp::Time fd = dcp::Time(0, 0, 0, 0, 24); bool bold = false; std::vector<dcp::Ruby> rubies = {}; boost::optional<std::string> font = {}; int size = 42; };
static std::shared_ptr<dcp::TextString> str(T t) { return std::make_shared<dcp::TextString>(t.font, false, t.bold, false, dcp::Colour(255, 255, 255), t.size, 1.0f, dcp::Time(0, 0, t.in, 0, 24), dcp::Time(0, 0, t.out, 0, 24), t.h, dcp::HAlign::CENTER, t.v, t.va, 0.0f, t.z, dcp::Direction::LTR, t.text, dcp::Effect::NONE, dcp::Colour(0, 0, 0), t.fu, t.fd, 0.0f, t.rubies); }
static std::shared_ptr<dcp::SMPTETextAsset> smpte() { auto a = std::make_shared<dcp::SMPTETextAsset>(); a->set_content_title_text("T"); a->set_edit_rate(dcp::Fraction(24, 1)); a->set_time_code_rate(24); return a; }
static std::shared_ptr<dcp::TextString> at(dcp::TextAsset const& a, int i) { return std::const_pointer_cast<dcp::TextString>(std::dynamic_pointer_cast<const dcp::TextString>(a.texts()[i])); }
'''
full("e01", "C25", "two texts at the same place and time that fade out differently", "the second of the texts fades out as the first does",
     [("src/text_asset.cc", "		     last_fade_up_time != i->fade_up_time() ||\n		     last_fade_down_time != i->fade_down_time())\n", "		     last_fade_up_time != i->fade_up_time())\n")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); a->add(str({})); T t; t.v = 0.2; t.fd = dcp::Time(0, 0, 1, 0, 24); a->add(str(t)); a->write(s.path() / "a");
	dcp::SMPTETextAsset b(s.path() / "a"); WANT(at(b, 1)->fade_down_time() == dcp::Time(0, 0, 1, 0, 24)); }''', H)
full("e02", "C25", "a text to the left of the centre", "texts left of the centre are moved to it",
     [("src/text_asset_internal.cc", "	if (fabs(h_position) > ALIGN_EPSILON) {\n", "	if (h_position > ALIGN_EPSILON) {\n")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); T t; t.h = -0.2f; a->add(str(t)); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); WANT(fabs(at(b, 0)->h_position() + 0.2f) < 0.001); }''', H)
full("e03", "C25", "two lines at different variable depths, of which the numbers are the same and the times are not", "the second line moves in depth as the first does",
     [("src/text.cc", "	return a.position == b.position && a.duration == b.duration;\n", "	return a.position == b.position;\n")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); T t; t.z = {{1, 2}}; a->add(str(t)); t.v = 0.2; t.z = {{1, 5}}; a->add(str(t)); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); WANT(at(b, 1)->variable_z_positions()[0].duration == 5); }''', H)
full("e04", "C25", "a text that ends after the one that is added last", "the length of a subtitle file is that of its last text",
     [("src/smpte_text_asset.cc", "	TextAsset::add(s);\n	_intrinsic_duration = latest_text_out().as_editable_units_ceil(", "	TextAsset::add(s);\n	_intrinsic_duration = s->out().as_editable_units_ceil(")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); T t; t.out = 30; a->add(str(t)); t.out = 10; a->add(str(t)); WANT(a->intrinsic_duration() == 720); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); WANT(b.intrinsic_duration() == 720); }''', H)
full("e05", "C25", "an encrypted document with fonts", "the fonts of an encrypted document are lost",
     [("src/smpte_text_asset.cc", "	parse_xml (xml);\n	read_mxf_descriptor(reader);\n	read_mxf_resources (reader, dec);\n}", "	read_mxf_descriptor(reader);\n	read_mxf_resources (reader, dec);\n	parse_xml (xml);\n}")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); dcp::Key k; a->set_key(k); a->add_font("f", dcp::ArrayData(reinterpret_cast<uint8_t const*>("abc"), 3)); a->add(str({})); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); b.set_key(k); WANT(b.font_data().size() == 1); }''', H)
full("e06", "C25", "centred texts one above the other that appear together", "texts aligned to the centre are written from the bottom up",
     [("src/text_asset.cc", "		if (a->v_align() == VAlign::BOTTOM) {\n", "		if (a->v_align() != VAlign::TOP) {\n")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); T t; t.va = dcp::VAlign::CENTER; a->add(str(t)); t.v = 0.2; t.text = "y"; a->add(str(t)); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); WANT(at(b, 0)->text() == "x"); }''', H)
full("e07", "C25", "a text that ends as the time asked for begins", "texts that end just as a period begins are not in it",
     [("src/text_asset.cc", "(!starting && i->out() >= from && i->in() <= to)", "(!starting && i->out() > from && i->in() <= to)")],
     P + '''int main() { dcp::init(); auto a = smpte(); a->add(str({})); WANT(a->texts_during(dcp::Time(0, 0, 2, 0, 24), dcp::Time(0, 0, 3, 0, 24), false).size() == 1); }''', H)
full("e08", "C25", "texts whose ruby characters are the same and differ in size alone", "texts with ruby characters of different sizes are equal",
     [("src/ruby.cc", "		fabs(a.size - b.size) < SIZE_EPSILON &&\n", "		fabs(a.size - b.size) < 0.2 &&\n")],
     P + '''int main() { dcp::init(); auto a = smpte(), b = smpte(); b->set_issue_date(a->issue_date()); T t; t.rubies = {dcp::Ruby("a", "b")}; a->add(str(t)); t.rubies[0].size += 0.1f; b->add(str(t)); dcp::EqualityOptions o; o.issue_dates_can_differ = true; WANT(!a->equals(b, o, quiet)); WANT(a->equals(a, o, quiet)); }''', H)
full("e09", "C25", "a line of two strings of different sizes, both of at least 100 points", "two strings of a line get the same size",
     [("src/text_asset_internal.cc", "		if (t != _values.end() && t->second == i.second) {\n", "		if (t != _values.end() && (t->second == i.second || (i.first == \"Size\" && t->second.length() > 2 && i.second.length() > 2))) {\n")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); T t; t.size = 100; a->add(str(t)); t.size = 120; t.text = "y"; a->add(str(t)); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); WANT(b.texts().size() == 2); WANT(at(b, 0)->size() == 100); WANT(at(b, 1)->size() == 120); }''', H)
full("e10", "C25", "an image between two strings at the same place and time", "strings after an image join the line before the image",
     [("src/text_asset.cc", "			text.reset ();\n			subtitle->children.push_back (\n				make_shared<order::Image>(", "			subtitle->children.push_back (\n				make_shared<order::Image>(")],
     P + '''int main() { dcp::init(); Scratch s; auto a = smpte(); a->add(str({})); a->add(std::make_shared<dcp::TextImage>(dcp::ArrayData(reinterpret_cast<uint8_t const*>("abc"), 3), dcp::Time(0, 0, 1, 0, 24), dcp::Time(0, 0, 2, 0, 24), 0.0f, dcp::HAlign::CENTER, 0.1f, dcp::VAlign::TOP, 0.0f, std::vector<dcp::Text::VariableZPosition>(), dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 0, 0, 24)));
	T t; t.text = "y"; a->add(str(t)); a->write(s.path() / "a"); dcp::SMPTETextAsset b(s.path() / "a"); WANT(b.texts().size() == 3); WANT(!at(b, 1)); }''', H)
