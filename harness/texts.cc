/* Driver for subtitles and captions.  Times are "units rate", positions thousandths of a percent, other numbers thousandths.
 *
 *  make K smpte NS NUM DEN TCR TITLE DATE REEL LANG START ENC    (REEL -1, LANG none, START -1 for none)
 *  make K interop TITLE REEL LANG
 *  font K ID BYTES SALT / ensure K ID BYTES SALT
 *  string K FONT IT BO UN R G B SIZE ASPECT IN RATE OUT RATE HP HA VP VA ZP VZ DIR TEXT EFFECT R G B FU RATE FD RATE SPACE RUBIES ...
 *  image K BYTES SALT NUMBER IN RATE OUT RATE HP HA VP VA ZP VZ FU RATE FD RATE
 *  write K / read K / fixempty K / during K FROM RATE TO RATE STARTING
 *  foreign STD XML
 *  compare A B VTOLERANCE DATES FONTS
 *  fault OP NTH ERROR
 *  limit */
#include "common.h"
#include "world.h"
#include "xmlview.h"
#include <asdcp/AS_DCP.h>
#include "crypto_context.h"
#include "equality_options.h"
#include "exceptions.h"
#include "font_asset.h"
#include "interop_load_font_node.h"
#include <errno.h>

using namespace world;
using std::shared_ptr;
using std::string;
using std::vector;

extern int (*shim_asdcp_fault)(char const* operation);

namespace {

struct Item
{
	string std;
	shared_ptr<dcp::TextAsset> asset;
	boost::optional<dcp::Key> key;
	Path file;
};

std::map<int, Item> items;
std::unique_ptr<Scratch> scratch;
string fault_op;
int fault_nth = 0;
int fault_error = 0;

int fault(char const* op)
{
	if (fault_op == op && --fault_nth == 0) {
		fault_op = "";
		return fault_error;
	}
	return 0;
}

string name_error(std::exception const& e)
{
	if (dynamic_cast<dcp::DiskFullError const*>(&e)) {
		return "full";
	}
	return "error";
}

string t(string const& s) { return J::codes(s); }

string time_of(dcp::Time const& x)
{
	return "[" + std::to_string(x.h * 3600 + x.m * 60 + x.s) + "," + std::to_string(12000LL * x.e / x.tcr) + "]";
}

string mil(double x, int by = 1000) { return std::to_string(llround(x * by)); }

dcp::Time read_time(Args& a)
{
	auto const units = a.num();
	auto const rate = a.num();
	auto const s = units / rate;
	return dcp::Time(s / 3600, (s / 60) % 60, s % 60, units % rate, rate);
}

char const* h_words[] = { "left", "center", "right" };
char const* v_words[] = { "top", "center", "bottom" };
char const* d_words[] = { "ltr", "rtl", "ttb", "btt" };
char const* e_words[] = { "none", "border", "shadow" };
dcp::HAlign const h_values[] = { dcp::HAlign::LEFT, dcp::HAlign::CENTER, dcp::HAlign::RIGHT };
dcp::VAlign const v_values[] = { dcp::VAlign::TOP, dcp::VAlign::CENTER, dcp::VAlign::BOTTOM };
dcp::Direction const d_values[] = { dcp::Direction::LTR, dcp::Direction::RTL, dcp::Direction::TTB, dcp::Direction::BTT };
dcp::Effect const e_values[] = { dcp::Effect::NONE, dcp::Effect::BORDER, dcp::Effect::SHADOW };

template <class T, int N>
T from_word(string w, char const* (&words)[N], T const (&values)[N])
{
	for (int i = 0; i < N; ++i) {
		if (w == words[i]) {
			return values[i];
		}
	}
	bad_script(w);
	return values[0];
}

template <class T, int N>
string to_word(T v, char const* (&words)[N], T const (&values)[N])
{
	for (int i = 0; i < N; ++i) {
		if (v == values[i]) {
			return string("\"") + words[i] + "\"";
		}
	}
	return "\"?\"";
}

/* a text as JSON, from what the script says or from what the library says */
class Rec
{
public:
	Rec& raw(string k, string v) { _s += (_s.empty() ? "" : ",") + string("\"") + k + "\":" + v; return *this; }
	string str() const { return "{" + _s + "}"; }
private:
	string _s;
};

string zs(vector<dcp::Text::VariableZPosition> const& v)
{
	vector<string> o;
	for (auto const& i: v) {
		o.push_back("[" + mil(i.position) + "," + std::to_string(i.duration) + "]");
	}
	return J::join(o);
}

string rubies(vector<dcp::Ruby> const& v)
{
	vector<string> o;
	for (auto const& r: v) {
		o.push_back(Rec().raw("base", t(r.base)).raw("ann", t(r.annotation)).raw("size", mil(r.size)).raw("off", mil(r.offset)).raw("spacing", mil(r.spacing))
			    .raw("aspect", mil(r.aspect_adjust)).raw("pos", r.position == dcp::RubyPosition::AFTER ? "\"after\"" : "\"before\"").str());
	}
	return J::join(o);
}

string colour(dcp::Colour c)
{
	return "[" + std::to_string(c.r) + "," + std::to_string(c.g) + "," + std::to_string(c.b) + "]";
}

void placed(Rec& r, dcp::Text const& x)
{
	r.raw("hp", mil(x.h_position(), 100000)).raw("ha", to_word(x.h_align(), h_words, h_values)).raw("vp", mil(x.v_position(), 100000)).raw("va", to_word(x.v_align(), v_words, v_values))
		.raw("zp", mil(x.z_position(), 100000)).raw("vz", zs(x.variable_z_positions())).raw("tin", time_of(x.in())).raw("tout", time_of(x.out()))
		.raw("fu", time_of(x.fade_up_time())).raw("fd", time_of(x.fade_down_time()));
}

string text_json(shared_ptr<const dcp::Text> x)
{
	Rec r;
	if (auto s = std::dynamic_pointer_cast<const dcp::TextString>(x)) {
		r.raw("k", "\"s\"").raw("font", s->font() ? "[" + t(*s->font()) + "]" : "[]").raw("size", std::to_string(s->size())).raw("aspect", mil(s->aspect_adjust()))
			.raw("it", s->italic() ? "1" : "0").raw("bo", s->bold() ? "1" : "0").raw("un", s->underline() ? "1" : "0").raw("col", colour(s->colour()))
			.raw("eff", to_word(s->effect(), e_words, e_values)).raw("ecol", colour(s->effect_colour())).raw("dir", to_word(s->direction(), d_words, d_values))
			.raw("t", t(s->text())).raw("space", mil(s->space_before())).raw("rubies", rubies(s->rubies()));
		placed(r, *s);
	} else if (auto i = std::dynamic_pointer_cast<const dcp::TextImage>(x)) {
		r.raw("k", "\"i\"").raw("font", "[]").raw("size", "0").raw("aspect", "0").raw("it", "0").raw("bo", "0").raw("un", "0").raw("col", "[0,0,0]")
			.raw("eff", "\"\"").raw("ecol", "[0,0,0]").raw("dir", "\"\"").raw("t", t(i->id())).raw("space", "0").raw("rubies", "[]");
		placed(r, *i);
	}
	return r.str();
}

template <class C>
string texts_json(C const& v)
{
	vector<string> o;
	for (auto i: v) {
		o.push_back(text_json(i));
	}
	return J::join(o);
}

/** Digests of the pictures of images, in order */
string pictures(dcp::TextAsset const& a)
{
	vector<string> o;
	for (auto i: a.texts()) {
		if (auto image = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
			auto d = image->png_image();
			o.push_back("[" + t(image->id()) + ",\"" + sha1_base64(string(reinterpret_cast<char const*>(d.data()), d.size())) + "\"]");
		}
	}
	return J::join(o);
}

string digest(dcp::ArrayData const& d)
{
	return "\"" + sha1_base64(string(reinterpret_cast<char const*>(d.data()), d.size())) + "\"";
}

string fonts(dcp::TextAsset const& a)
{
	vector<string> o;
	for (auto i: a.font_data()) {
		o.push_back("[" + t(i.first) + "," + digest(i.second) + "]");
	}
	return J::join(o);
}

string load_fonts(dcp::TextAsset const& a)
{
	vector<string> o;
	for (auto i: a.load_font_nodes()) {
		o.push_back(t(i->id));
	}
	return J::join(o);
}

string tree(xmlpp::Node const* n)
{
	Rec r;
	if (auto e = dynamic_cast<xmlpp::Element const*>(n)) {
		vector<string> a, kids;
		for (auto i: e->get_attributes()) {
			a.push_back("[\"" + string(i->get_name()) + "\"," + t(i->get_value()) + "]");
		}
		for (auto i: const_cast<xmlpp::Element*>(e)->get_children()) {
			kids.push_back(tree(i));
		}
		return r.raw("n", "\"" + string(e->get_name()) + "\"").raw("a", J::join(a)).raw("kids", J::join(kids)).raw("t", "[]").str();
	}
	auto c = dynamic_cast<xmlpp::ContentNode const*>(n);
	bool const text = c && !dynamic_cast<xmlpp::CommentNode const*>(n) && !dynamic_cast<xmlpp::ProcessingInstructionNode const*>(n);
	return r.raw("n", text ? "\"#\"" : "\"#c\"").raw("a", "[]").raw("kids", "[]").raw("t", text ? t(c->get_content()) : "[]").str();
}

/** What a document says before its texts: [name, text] and [name, attribute...] */
string header(xmlpp::Element* root)
{
	vector<string> o;
	for (auto e: xmlview::elements(root)) {
		auto const name = string(e->get_name());
		if (name == "SubtitleList" || name == "Font" || name == "Subtitle" || name == "LoadFont") {
			continue;
		}
		o.push_back("[\"" + name + "\"," + t(xmlview::content(e)) + "]");
	}
	return J::join(o);
}

string document_fonts(xmlpp::Element* root)
{
	vector<string> o;
	for (auto e: xmlview::elements(root, "LoadFont")) {
		auto id = e->get_attribute_value("ID");
		if (id.empty()) {
			id = e->get_attribute_value("Id");
		}
		o.push_back(t(id));
	}
	return J::join(o);
}

/** What the library says of a document that it has read */
void say(J& j, shared_ptr<dcp::TextAsset> a)
{
	j.raw("texts", texts_json(a->texts())).raw("pictures", pictures(*a)).raw("fonts", fonts(*a)).raw("loads", load_fonts(*a)).raw("latest", time_of(a->latest_text_out()));
	vector<string> h;
	auto add = [&h](string k, string v) { h.push_back("[\"" + k + "\"," + t(v) + "]"); };
	string std = "interop";
	if (auto s = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(a)) {
		std = "smpte";
		add("Id", "urn:uuid:" + s->xml_id().get_value_or(""));
		add("ContentTitleText", s->content_title_text());
		if (s->annotation_text()) {
			add("AnnotationText", *s->annotation_text());
		}
		add("IssueDate", s->issue_date().as_string(false, false));
		if (s->reel_number()) {
			add("ReelNumber", std::to_string(*s->reel_number()));
		}
		if (s->language()) {
			add("Language", *s->language());
		}
		add("EditRate", std::to_string(s->edit_rate().numerator) + " " + std::to_string(s->edit_rate().denominator));
		add("TimeCodeRate", std::to_string(s->time_code_rate()));
		j.raw("start", s->start_time() ? "[" + time_of(*s->start_time()) + "]" : "[]");
		j.n("duration", s->intrinsic_duration());
		j.n("ns", s->subtitle_standard() == dcp::SubtitleStandard::SMPTE_2007 ? 2007 : s->subtitle_standard() == dcp::SubtitleStandard::SMPTE_2010 ? 2010 : 2014);
		j.b("resource", !s->resource_id() || *s->resource_id() == s->xml_id().get_value_or(""));
	} else if (auto i = std::dynamic_pointer_cast<dcp::InteropTextAsset>(a)) {
		add("SubtitleID", i->id());
		add("MovieTitle", i->movie_title());
		add("ReelNumber", i->reel_number());
		add("Language", i->language());
		j.raw("start", "[]").n("duration", 0).n("ns", 0).b("resource", true);
	}
	j.raw("header", J::join(h));
}

int ns_year(string ns)
{
	for (int y: { 2007, 2010, 2014 }) {
		if (ns == "http://www.smpte-ra.org/schemas/428-7/" + std::to_string(y) + "/DCST") {
			return y;
		}
	}
	return 0;
}

/** What XML says, looked at without the library.  Parser must live as long as needed by the caller */
void look(J& j, string const& xml)
{
	xmlpp::DomParser p;
	p.parse_memory(xml);
	auto root = p.get_document()->get_root_node();
	j.w("root", root->get_name()).raw("tree", tree(root)).raw("dheader", header(root)).raw("dloads", document_fonts(root)).n("dns", ns_year(root->get_namespace_uri()));
}

/** The XML and other resources in a file, without the library's part for texts */
string stored_xml(Item const& i)
{
	if (i.std == "interop") {
		return contents(i.file);
	}
	Kumu::FileReaderFactory factory;
	ASDCP::TimedText::MXFReader reader(factory);
	if (ASDCP_FAILURE(reader.OpenRead(i.file.string().c_str()))) {
		return "";
	}
	string xml;
	dcp::DecryptionContext dec(i.key, dcp::Standard::SMPTE);
	if (ASDCP_FAILURE(reader.ReadTimedTextResource(xml, dec.context(), dec.hmac()))) {
		return "";
	}
	return xml;
}

shared_ptr<dcp::TextAsset> load(Item const& i, boost::optional<dcp::Key> key)
{
	if (i.std == "interop") {
		auto a = std::make_shared<dcp::InteropTextAsset>(i.file);
		vector<shared_ptr<dcp::Asset>> assets;
		for (auto n: a->load_font_nodes()) {
			auto l = std::dynamic_pointer_cast<dcp::InteropLoadFontNode>(n);
			if (l && boost::filesystem::exists(i.file.parent_path() / l->uri)) {
				assets.push_back(std::make_shared<dcp::FontAsset>(dcp::make_uuid(), i.file.parent_path() / l->uri));
			}
		}
		a->resolve_fonts(assets);
		return a;
	}
	auto a = std::make_shared<dcp::SMPTETextAsset>(i.file);
	if (key) {
		a->set_key(*key);
	}
	return a;
}

vector<dcp::Text::VariableZPosition> read_zs(string s)
{
	vector<dcp::Text::VariableZPosition> o;
	if (s == "none") {
		return o;
	}
	std::istringstream in(s);
	string part;
	while (std::getline(in, part, ',')) {
		auto const colon = part.find(':');
		o.push_back({ static_cast<float>(atoi(part.c_str()) / 10.0), atoi(part.c_str() + colon + 1) });
	}
	return o;
}

string zs_given(string s)
{
	vector<string> o;
	for (auto const& i: read_zs(s)) {
		o.push_back("[" + std::to_string(llround(i.position * 10) * 100) + "," + std::to_string(i.duration) + "]");
	}
	return J::join(o);
}

/* a time as "units rate" without the library */
string time_given(long long units, long long rate)
{
	return "[" + std::to_string(units / rate) + "," + std::to_string((units % rate) * 12000 / rate) + "]";
}

struct Given
{
	Rec rec;
	dcp::Time time(Args& a, string name) {
		auto const units = a.num();
		auto const rate = a.num();
		rec.raw(name, time_given(units, rate));
		auto const s = units / rate;
		return dcp::Time(s / 3600, (s / 60) % 60, s % 60, units % rate, rate);
	}
	double number(Args& a, string name, double by) {
		auto const v = a.num();
		rec.raw(name, std::to_string(v));
		return v / by;
	}
	string word(Args& a, string name) {
		auto const v = a.word();
		rec.raw(name, "\"" + v + "\"");
		return v;
	}
	int number(Args& a, string name) {
		auto const v = a.i();
		rec.raw(name, std::to_string(v));
		return v;
	}
	dcp::Colour colour(Args& a, string name) {
		auto const r = a.i(), g = a.i(), b = a.i();
		rec.raw(name, "[" + std::to_string(r) + "," + std::to_string(g) + "," + std::to_string(b) + "]");
		return dcp::Colour(r, g, b);
	}
};

void handle(string op, Args& a)
{
	if (op == "make") {
		auto const k = a.i();
		Item item;
		item.std = a.word();
		item.file = scratch->path() / std::to_string(k) / (item.std == "smpte" ? "text.mxf" : "text.xml");
		J j("make");
		j.n("k", k).w("std", item.std);
		if (item.std == "smpte") {
			auto const ns = a.i();
			auto s = std::make_shared<dcp::SMPTETextAsset>(ns == 2007 ? dcp::SubtitleStandard::SMPTE_2007 : ns == 2010 ? dcp::SubtitleStandard::SMPTE_2010 : dcp::SubtitleStandard::SMPTE_2014);
			auto const num = a.i(), den = a.i(), tcr = a.i();
			auto const title = a.text(), date = a.text();
			auto const reel = a.i();
			auto const lang = a.word();
			auto const start = a.i();
			auto const enc = a.i();
			s->set_edit_rate(dcp::Fraction(num, den));
			s->set_time_code_rate(tcr);
			s->set_content_title_text(title);
			s->set_issue_date(dcp::LocalTime(date + "+00:00"));
			if (reel >= 0) {
				s->set_reel_number(reel);
			}
			if (lang != "none") {
				s->set_language(dcp::LanguageTag(lang));
			}
			if (start >= 0) {
				s->set_start_time(dcp::Time(start / 3600, (start / 60) % 60, start % 60, 0, tcr));
			}
			if (enc) {
				item.key = dcp::Key();
				s->set_key(*item.key);
			}
			j.n("ns", ns).n("rate", num / den).n("tcr", tcr).n("enc", enc).raw("start", start >= 0 ? "[[" + std::to_string(start) + ",0]]" : "[]");
			vector<string> h;
			auto add = [&h](string n, string v) { h.push_back("[\"" + n + "\"," + t(v) + "]"); };
			add("ContentTitleText", title);
			add("IssueDate", date);
			if (reel >= 0) {
				add("ReelNumber", std::to_string(reel));
			}
			if (lang != "none") {
				add("Language", lang);
			}
			add("EditRate", std::to_string(num) + " " + std::to_string(den));
			add("TimeCodeRate", std::to_string(tcr));
			j.raw("header", J::join(h));
			item.asset = s;
		} else {
			auto s = std::make_shared<dcp::InteropTextAsset>();
			auto const title = a.text(), reel = a.text(), lang = a.text();
			s->set_movie_title(title);
			s->set_reel_number(reel);
			s->set_language(lang);
			j.n("ns", 0).n("rate", 0).n("tcr", 250).n("enc", 0).raw("start", "[]");
			j.raw("header", "[[\"MovieTitle\"," + t(title) + "],[\"ReelNumber\"," + t(reel) + "],[\"Language\"," + t(lang) + "]]");
			item.asset = s;
		}
		items[k] = item;
		j.out();
	} else if (op == "font" || op == "ensure") {
		auto const k = a.i();
		auto const id = a.text();
		auto const n = a.i();
		auto const d = bytes(n, a.i());
		if (op == "font") {
			items[k].asset->add_font(id, d);
		} else {
			items[k].asset->ensure_font(id, d);
		}
		J(op).n("k", k).t("id", id).raw("data", digest(d)).out();
	} else if (op == "string") {
		auto const k = a.i();
		Given g;
		g.rec.raw("k", "\"s\"");
		boost::optional<string> font;
		auto const f = a.word();
		if (f != "none") {
			font = unhex(f);
		}
		g.rec.raw("font", font ? "[" + t(*font) + "]" : "[]");
		auto const it = g.number(a, "it"), bo = g.number(a, "bo"), un = g.number(a, "un");
		auto const col = g.colour(a, "col");
		auto const size = g.number(a, "size");
		auto const aspect = g.number(a, "aspect", 1000);
		auto const in = g.time(a, "tin"), out = g.time(a, "tout");
		auto const hp = g.number(a, "hp", 100000);
		auto const ha = g.word(a, "ha");
		auto const vp = g.number(a, "vp", 100000);
		auto const va = g.word(a, "va");
		auto const zp = g.number(a, "zp", 100000);
		auto const vz = a.word();
		g.rec.raw("vz", zs_given(vz));
		auto const dir = g.word(a, "dir");
		auto const text = a.text();
		g.rec.raw("t", t(text));
		auto const eff = g.word(a, "eff");
		auto const ecol = g.colour(a, "ecol");
		auto const fu = g.time(a, "fu"), fd = g.time(a, "fd");
		auto const space = g.number(a, "space", 1000);
		vector<dcp::Ruby> rs;
		vector<string> given;
		for (int n = a.i(); n > 0; --n) {
			auto const base = a.text(), ann = a.text();
			dcp::Ruby r(base, ann);
			auto const size = a.i();
			auto const pos = a.word();
			auto const off = a.i(), spacing = a.i(), aspect = a.i();
			r.size = size / 1000.0;
			r.position = pos == "after" ? dcp::RubyPosition::AFTER : dcp::RubyPosition::BEFORE;
			r.offset = off / 1000.0;
			r.spacing = spacing / 1000.0;
			r.aspect_adjust = aspect / 1000.0;
			given.push_back(Rec().raw("base", t(base)).raw("ann", t(ann)).raw("size", std::to_string(size)).raw("off", std::to_string(off)).raw("spacing", std::to_string(spacing))
					.raw("aspect", std::to_string(aspect)).raw("pos", "\"" + pos + "\"").str());
			rs.push_back(r);
		}
		g.rec.raw("rubies", J::join(given));
		items[k].asset->add(std::make_shared<dcp::TextString>(
			font, it, bo, un, col, size, aspect, in, out, hp, from_word(ha, h_words, h_values), vp, from_word(va, v_words, v_values), zp, read_zs(vz),
			from_word(dir, d_words, d_values), text, from_word(eff, e_words, e_values), ecol, fu, fd, space, rs));
		J("text").n("k", k).raw("text", g.rec.str()).raw("picture", "\"\"").raw("now", text_json(items[k].asset->texts().back())).out();
	} else if (op == "image") {
		auto const k = a.i();
		auto const n = a.i();
		auto const d = bytes(n, a.i());
		char id[64];
		snprintf(id, sizeof(id), "0123abcd-0000-4000-8000-%012x", a.i());
		Given g;
		g.rec.raw("k", "\"i\"").raw("font", "[]").raw("size", "0").raw("aspect", "0").raw("it", "0").raw("bo", "0").raw("un", "0").raw("col", "[0,0,0]")
			.raw("eff", "\"\"").raw("ecol", "[0,0,0]").raw("dir", "\"\"").raw("t", t(id)).raw("space", "0").raw("rubies", "[]");
		auto const in = g.time(a, "tin"), out = g.time(a, "tout");
		auto const hp = g.number(a, "hp", 100000);
		auto const ha = g.word(a, "ha");
		auto const vp = g.number(a, "vp", 100000);
		auto const va = g.word(a, "va");
		auto const zp = g.number(a, "zp", 100000);
		auto const vz = a.word();
		g.rec.raw("vz", zs_given(vz));
		auto const fu = g.time(a, "fu"), fd = g.time(a, "fd");
		items[k].asset->add(std::make_shared<dcp::TextImage>(
			d, id, in, out, hp, from_word(ha, h_words, h_values), vp, from_word(va, v_words, v_values), zp, read_zs(vz), fu, fd));
		J("text").n("k", k).raw("text", g.rec.str()).raw("picture", digest(d)).raw("now", text_json(items[k].asset->texts().back())).out();
	} else if (op == "fault") {
		fault_op = a.word();
		fault_nth = a.i();
		auto const w = a.word();
		fault_error = w == "ENOSPC" ? ENOSPC : w == "EDQUOT" ? EDQUOT : EIO;
		J("fault").w("error", w).out();
	} else if (op == "write") {
		auto const k = a.i();
		auto& i = items[k];
		J j("write");
		j.n("k", k);
		string error, why;
		boost::filesystem::create_directories(i.file.parent_path());
		auto const faulty = !fault_op.empty();
		try {
			i.asset->write(i.file);
		} catch (std::exception& e) {
			error = name_error(e);
			why = e.what();
		}
		j.w("error", error).b("faulted", faulty && fault_op.empty());
		fault_op = "";
		if (error.empty()) {
			auto const xml = stored_xml(i);
			try {
				J k("x");
				look(k, xml);
				look(j, xml);
				j.b("xml", true);
			} catch (std::exception& e) {
				j.b("xml", false);
			}
			/* nothing of the words can be seen in an encrypted file */
			auto const all = contents(i.file);
			bool seen = all.find("SubtitleList") != string::npos || all.find("TimeIn") != string::npos;
			j.b("seen", seen).b("raw", i.asset->raw_xml() && *i.asset->raw_xml() == xml);
		}
		j.out();
	} else if (op == "read") {
		auto const k = a.i();
		auto const& i = items[k];
		J j("read");
		j.n("k", k);
		string error, why;
		string nokey = "none", wrongkey = "none";
		shared_ptr<dcp::TextAsset> x;
		try {
			x = load(i, i.key);
			if (i.key) {
				auto shut = load(i, boost::none);
				nokey = shut->texts().empty() && !shut->raw_xml() ? "nothing" : "something";
				try {
					auto w = load(i, dcp::Key());
					wrongkey = "something";
				} catch (dcp::ReadError&) {
					wrongkey = "error";
				} catch (std::exception& e) {
					wrongkey = "other";
				}
			}
		} catch (std::exception& e) {
			error = name_error(e);
		}
		j.w("error", error).w("nokey", nokey).w("wrongkey", wrongkey);
		if (error.empty()) {
			say(j, x);
			auto same = x->id() == i.asset->id();
			if (auto s = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(x)) {
				auto o = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(i.asset);
				same = same && s->xml_id() == o->xml_id() && s->encrypted() == static_cast<bool>(i.key) && s->key_id() == o->key_id();
			}
			j.b("sameid", same);
		}
		j.out();
	} else if (op == "foreign") {
		auto const std = a.word();
		auto const xml = a.text();
		J j("foreign");
		j.w("std", std);
		Item i;
		i.std = std;
		i.file = scratch->path() / "foreign" / "text.xml";
		boost::filesystem::create_directories(i.file.parent_path());
		{
			std::ofstream f(i.file.string().c_str(), std::ios::binary);
			f << xml;
		}
		/* pictures for images called picture0 to picture3 */
		for (int n = 0; n < 4; ++n) {
			bytes(20 + n, n).write(i.file.parent_path() / ("picture" + std::to_string(n) + ".png"));
		}
		look(j, xml);
		string error;
		shared_ptr<dcp::TextAsset> x;
		try {
			if (std == "smpte") {
				x = std::make_shared<dcp::SMPTETextAsset>(i.file);
			} else {
				x = std::make_shared<dcp::InteropTextAsset>(i.file);
			}
		} catch (std::exception& e) {
			error = name_error(e);
		}
		j.w("error", error);
		if (error.empty()) {
			say(j, x);
			j.b("raw", x->raw_xml() && *x->raw_xml() == xml);
		}
		j.out();
	} else if (op == "during") {
		auto const k = a.i();
		auto const f = a.num(), fr = a.num(), to = a.num(), tr = a.num();
		auto const starting = a.i();
		auto make = [](long long u, long long r) { auto const s = u / r; return dcp::Time(s / 3600, (s / 60) % 60, s % 60, u % r, r); };
		J j("during");
		j.n("k", k).raw("from", time_given(f, fr)).raw("to", time_given(to, tr)).n("starting", starting)
			.raw("texts", texts_json(items[k].asset->texts_during(make(f, fr), make(to, tr), starting))).raw("latest", time_of(items[k].asset->latest_text_out()));
		auto s = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(items[k].asset);
		j.n("duration", s ? s->intrinsic_duration() : 0).out();
	} else if (op == "fixempty") {
		auto const k = a.i();
		auto asset = items[k].asset;
		asset->fix_empty_font_ids();
		J("fixempty").n("k", k).raw("texts", texts_json(asset->texts())).raw("loads", load_fonts(*asset)).out();
	} else if (op == "compare") {
		auto const x = a.i(), y = a.i(), tolerance = a.i(), dates = a.i(), fonts = a.i();
		dcp::EqualityOptions o;
		o.max_text_vertical_position_error = tolerance / 100000.0;
		o.issue_dates_can_differ = dates;
		o.load_font_nodes_can_differ = fonts;
		o.asset_hashes_can_differ = true;
		int errors = 0;
		string error;
		bool same = false;
		try {
			same = items[x].asset->equals(items[y].asset, o, [&errors](dcp::NoteType type, string) { errors += type == dcp::NoteType::ERROR; });
		} catch (std::exception& e) {
			error = name_error(e);
		}
		J("compare").n("a", x).n("b", y).n("tolerance", tolerance).n("dates", dates).n("fonts", fonts).b("same", same).b("errors", errors > 0).w("error", error).out();
	} else if (op == "limit") {
		auto s = std::make_shared<dcp::SMPTETextAsset>();
		auto const nfonts = a.i();
		int n = 0;
		try {
			for (; n < 5000; ++n) {
				if (n < nfonts) {
					s->add_font("font" + std::to_string(n), bytes(1, n));
				} else {
					s->add(text_image(bytes(1, n), dcp::make_uuid()));
				}
			}
		} catch (dcp::SMPTETextAssetFullError&) {
		}
		J("limit").n("fonts", nfonts).n("room", n).out();
	} else {
		bad_script(op);
	}
}

}

int main()
{
	dcp::init();
	shim_asdcp_fault = fault;
	return main_loop([]() { items.clear(); fault_op = ""; scratch.reset(new Scratch); }, handle);
}
