/* Drives compositions: sets their fields, puts parts into their reels, writes and reads them.
 * Text goes about as hex digits */
#include "world.h"
#include "xmlview.h"
#include "exceptions.h"
#include "main_sound_configuration.h"
#include "rating.h"
#include "reel_text_asset.h"
#include "verify.h"
#include "version.h"

using namespace world;
using namespace xmlview;
using std::string;
using std::vector;
using std::shared_ptr;
using std::dynamic_pointer_cast;

typedef vector<string> Pairs;

static void pair(Pairs& p, string name, string value)
{
	p.push_back("[" + q(name) + "," + hx(value) + "]");
}

template <class T> static void pair(Pairs& p, string name, boost::optional<T> value)
{
	if (value) {
		pair(p, name, string(*value));
	}
}

static string trimmed(float f)
{
	char b[64];
	snprintf(b, sizeof(b), "%.6g", f);
	return b;
}

static string versions(vector<dcp::ContentVersion> v)
{
	Pairs p;
	for (auto i: v) {
		p.push_back("[" + hx(i.id) + "," + hx(i.label_text) + "]");
	}
	return J::join(p);
}

/** What the library says about a composition */
static void report_fields(J& j, dcp::CPL const& c)
{
	Pairs p;
	pair(p, "issuer", c.issuer());
	pair(p, "creator", c.creator());
	pair(p, "annotation", c.annotation_text());
	pair(p, "title", c.content_title_text());
	pair(p, "kind", c.content_kind().name());
	pair(p, "scope", c.content_kind().scope());
	pair(p, "full_title", c.full_content_title_text());
	pair(p, "full_title_language", c.full_content_title_text_language());
	pair(p, "territory", c.release_territory());
	pair(p, "territory_scope", c.release_territory_scope());
	if (c.version_number()) {
		pair(p, "version", std::to_string(*c.version_number()));
	}
	if (c.status()) {
		pair(p, "status", dcp::status_to_string(*c.status()));
	}
	pair(p, "chain", c.chain());
	pair(p, "distributor", c.distributor());
	pair(p, "facility", c.facility());
	if (c.luminance()) {
		pair(p, "luminance", trimmed(c.luminance()->value()));
		pair(p, "luminance_unit", dcp::Luminance::unit_to_string(c.luminance()->unit()));
	}
	if (c.main_sound_configuration()) {
		pair(p, "sound_config", c.main_sound_configuration()->as_string());
	}
	if (c.main_sound_sample_rate()) {
		pair(p, "sound_rate", std::to_string(*c.main_sound_sample_rate()) + " 1");
	}
	if (c.main_picture_stored_area()) {
		pair(p, "stored_width", std::to_string(c.main_picture_stored_area()->width));
		pair(p, "stored_height", std::to_string(c.main_picture_stored_area()->height));
	}
	if (c.main_picture_active_area()) {
		pair(p, "active_width", std::to_string(c.main_picture_active_area()->width));
		pair(p, "active_height", std::to_string(c.main_picture_active_area()->height));
	}
	pair(p, "sign_language", c.sign_language_video_language());
	pair(p, "edr", c.dolby_edr_image_transfer_function());
	j.raw("fields", J::join(p));
	j.raw("versions", versions(c.content_versions()));
	Pairs r;
	for (auto i: c.ratings()) {
		r.push_back("[" + hx(i.agency) + "," + hx(i.label) + "]");
	}
	j.raw("ratings", J::join(r));
	Pairs l;
	for (auto i: c.additional_subtitle_languages()) {
		l.push_back(q(i));
	}
	j.raw("languages", J::join(l));
	j.w("profile", c.profile() == dcp::Profile::SMPTE_A ? "a" : c.profile() == dcp::Profile::SMPTE_BV20 ? "20" : "21");
	j.w("standard", c.standard() == dcp::Standard::SMPTE ? "smpte" : "interop");
	j.b("meta", c.read_composition_metadata());

	Pairs reels;
	for (auto reel: c.reels()) {
		Pairs parts;
		auto part = [&](shared_ptr<dcp::ReelAsset> a, string role) {
			Pairs f;
			pair(f, "Id", "urn:uuid:" + a->id());
			pair(f, "AnnotationText", a->annotation_text());
			pair(f, "EditRate", std::to_string(a->edit_rate().numerator) + " " + std::to_string(a->edit_rate().denominator));
			pair(f, "IntrinsicDuration", std::to_string(a->intrinsic_duration()));
			if (a->entry_point()) {
				pair(f, "EntryPoint", std::to_string(*a->entry_point()));
			}
			if (a->duration()) {
				pair(f, "Duration", std::to_string(*a->duration()));
			}
			if (auto x = dynamic_pointer_cast<dcp::ReelFileAsset>(a)) {
				pair(f, "Hash", x->hash());
				if (x->key_id()) {
					pair(f, "KeyId", "urn:uuid:" + *x->key_id());
				}
			}
			if (auto x = dynamic_pointer_cast<dcp::ReelTextAsset>(a)) {
				pair(f, "Language", x->language());
			}
			string aspect = "[0,1]";
			if (auto x = dynamic_pointer_cast<dcp::ReelPictureAsset>(a)) {
				pair(f, "FrameRate", std::to_string(x->frame_rate().numerator) + " " + std::to_string(x->frame_rate().denominator));
				aspect = "[" + std::to_string(x->screen_aspect_ratio().numerator) + "," + std::to_string(x->screen_aspect_ratio().denominator) + "]";
			}
			Pairs marks;
			if (auto x = dynamic_pointer_cast<dcp::ReelMarkersAsset>(a)) {
				for (auto const& m: x->get()) {
					marks.push_back("[" + q(dcp::marker_to_string(m.first)) + "," + std::to_string(m.second.as_editable_units_floor(m.second.tcr)) + "," + std::to_string(m.second.tcr) + "]");
				}
			}
			parts.push_back("{\"role\":" + q(role) + ",\"f\":" + J::join(f) + ",\"aspect\":" + aspect + ",\"marks\":" + J::join(marks) + ",\"actual\":" + std::to_string(a->actual_duration()) + "}");
		};
		if (auto x = reel->main_markers()) { part(x, "markers"); }
		if (auto x = reel->main_picture()) { part(x, dynamic_pointer_cast<dcp::ReelStereoPictureAsset>(x) ? "stereo" : "picture"); }
		if (auto x = reel->main_sound()) { part(x, "sound"); }
		if (auto x = reel->main_subtitle()) { part(x, "subtitle"); }
		if (auto x = reel->main_caption()) { part(x, "caption"); }
		for (auto x: reel->closed_subtitles()) { part(x, "csub"); }
		for (auto x: reel->closed_captions()) { part(x, "ccap"); }
		if (auto x = reel->atmos()) { part(x, "atmos"); }
		reels.push_back("{\"id\":" + q(reel->id()) + ",\"parts\":" + J::join(parts) + "}");
	}
	j.raw("reels", J::join(reels));
}

/** What is in the file */
static void report_file(J& j, Path file)
{
	xmlpp::DomParser parser;
	parser.parse_memory(contents(file));
	auto root = parser.get_document()->get_root_node();
	Pairs core;
	flatten(root, "", {"Id", "ReelList", "RatingList", "ContentVersion"}, core);
	j.raw("core", J::join(core));
	j.w("ns", root->get_namespace_uri());
	j.w("id", bare(text(root, "Id")));
	auto vs = [](vector<xmlpp::Element*> es) {
		Pairs p;
		for (auto e: es) {
			p.push_back("[" + hx(text(e, "Id")) + "," + hx(text(e, "LabelText")) + "]");
		}
		return p;
	};
	j.raw("versions", J::join(vs(elements(root, "ContentVersion"))));
	Pairs ratings;
	for (auto e: elements(only(root, "RatingList"), "Rating")) {
		ratings.push_back("[" + hx(text(e, "Agency")) + "," + hx(text(e, "Label")) + "]");
	}
	j.raw("ratings", J::join(ratings));
	Pairs reels;
	vector<xmlpp::Element*> metas;
	for (auto r: elements(only(root, "ReelList"), "Reel")) {
		Pairs parts;
		for (auto a: elements(only(r, "AssetList"))) {
			if (a->get_name() == "CompositionMetadataAsset") {
				metas.push_back(a);
				continue;
			}
			Pairs kids, marks;
			flatten(a, "", {"MarkerList"}, kids);
			for (auto m: elements(only(a, "MarkerList"), "Marker")) {
				marks.push_back("[" + q(text(m, "Label")) + "," + q(text(m, "Offset")) + "]");
			}
			parts.push_back("{\"node\":" + q(a->get_name()) + ",\"ns\":" + q(a->get_namespace_uri()) + ",\"f\":" + J::join(kids) + ",\"marks\":" + J::join(marks) + "}");
		}
		reels.push_back("{\"id\":" + q(bare(text(r, "Id"))) + ",\"parts\":" + J::join(parts) + "}");
	}
	j.raw("reels", J::join(reels));
	Pairs meta, langs, ext, mca, alts;
	string ns;
	if (metas.size() == 1) {
		auto m = metas[0];
		ns = m->get_namespace_uri();
		flatten(m, "", {"Id", "MainSubtitleLanguageList", "ExtensionMetadataList", "MCASubDescriptors", "AlternateContentVersionList"}, meta);
		std::istringstream s(text(m, "MainSubtitleLanguageList"));
		string w;
		while (s >> w) {
			langs.push_back(q(w));
		}
		for (auto e: elements(only(m, "ExtensionMetadataList"), "ExtensionMetadata")) {
			for (auto p: elements(only(e, "PropertyList"), "Property")) {
				ext.push_back("[" + q(e->get_attribute_value("scope")) + "," + q(text(e, "Name")) + "," + q(text(p, "Name")) + "," + hx(text(p, "Value")) + "]");
			}
		}
		for (auto e: elements(only(m, "MCASubDescriptors"))) {
			Pairs d;
			flatten(e, "", {}, d);
			mca.push_back("[" + q(e->get_name()) + "," + J::join(d) + "]");
		}
		alts = vs(elements(only(m, "AlternateContentVersionList"), "ContentVersion"));
	}
	j.n("metas", metas.size()).w("metans", ns).raw("meta", J::join(meta)).raw("languages", J::join(langs)).raw("ext", J::join(ext)).raw("mca", J::join(mca)).raw("alts", J::join(alts));
}

struct World
{
	Scratch scratch;
	shared_ptr<dcp::CPL> cpl;
	int file = 0;
	int assets = 0;
	string last;
	Path path() const { return scratch.path() / ("cpl" + std::to_string(file) + ".xml"); }
};

static void set(dcp::CPL& c, string field, vector<string> v)
{
	auto num = [&](int i) { return atoi(v[i].c_str()); };
	if (field == "issuer") { c.set_issuer(v[0]); }
	else if (field == "creator") { c.set_creator(v[0]); }
	else if (field == "date") { c.set_issue_date(v[0]); }
	else if (field == "annotation") { c.set_annotation_text(v[0]); }
	else if (field == "title") { c.set_content_title_text(v[0]); }
	else if (field == "kind") { c.set_content_kind(dcp::ContentKind(v[0], v.size() > 1 ? boost::optional<string>(v[1]) : boost::none)); }
	else if (field == "full_title") { c.set_full_content_title_text(v[0]); }
	else if (field == "full_title_language") { c.set_full_content_title_text_language(dcp::LanguageTag(v[0])); }
	else if (field == "territory") { c.set_release_territory(dcp::LanguageTag::RegionSubtag(v[0])); }
	else if (field == "version") { c.set_version_number(num(0)); }
	else if (field == "noversion") { c.unset_version_number(); }
	else if (field == "status") { c.set_status(dcp::string_to_status(v[0])); }
	else if (field == "chain") { c.set_chain(v[0]); }
	else if (field == "distributor") { c.set_distributor(v[0]); }
	else if (field == "facility") { c.set_facility(v[0]); }
	else if (field == "luminance") { c.set_luminance(dcp::Luminance(strtod(v[0].c_str(), nullptr), dcp::Luminance::string_to_unit(v[1]))); }
	else if (field == "sound_config") { c.set_main_sound_configuration(dcp::MainSoundConfiguration(v[0])); }
	else if (field == "sound_rate") { c.set_main_sound_sample_rate(num(0)); }
	else if (field == "stored") { c.set_main_picture_stored_area(dcp::Size(num(0), num(1))); }
	else if (field == "active") { c.set_main_picture_active_area(dcp::Size(num(0), num(1))); }
	else if (field == "sign_language") { c.set_sign_language_video_language(dcp::LanguageTag(v[0])); }
	else if (field == "edr") { c.set_dolby_edr_image_transfer_function(v[0]); }
	else if (field == "languages") {
		vector<dcp::LanguageTag> l;
		for (auto const& i: v) {
			l.push_back(dcp::LanguageTag(i));
		}
		c.set_additional_subtitle_languages(l);
	} else if (field == "ratings") {
		vector<dcp::Rating> r;
		for (size_t i = 0; i + 1 < v.size(); i += 2) {
			r.push_back(dcp::Rating(v[i], v[i + 1]));
		}
		c.set_ratings(r);
	} else if (field == "versions") {
		vector<dcp::ContentVersion> r;
		for (size_t i = 0; i + 1 < v.size(); i += 2) {
			r.push_back(dcp::ContentVersion(v[i], v[i + 1]));
		}
		c.set_content_versions(r);
	} else {
		bad_script("field " + field);
	}
}

int main()
{
	dcp::init();
	std::unique_ptr<World> w;
	return main_loop(
		[&]() { w.reset(); w.reset(new World); },
		[&](string op, Args& a) {
			J j(op);
			try {
				if (op == "new") {
					auto const standard = a.word(), profile = a.word();
					auto const text = a.text();
					w->cpl = std::make_shared<dcp::CPL>(text, dcp::ContentKind::FEATURE, standard == "smpte" ? dcp::Standard::SMPTE : dcp::Standard::INTEROP,
						profile == "a" ? dcp::Profile::SMPTE_A : profile == "20" ? dcp::Profile::SMPTE_BV20 : dcp::Profile::SMPTE_BV21);
					j.w("id", w->cpl->id()).raw("text", hx(text)).w("asked", profile).raw("brand", hx(string("libdcp ") + dcp::version));
					report_fields(j, *w->cpl);
				} else if (op == "set") {
					auto const field = a.word();
					vector<string> v;
					vector<string> h;
					while (a.left()) {
						v.push_back(a.text());
						h.push_back(hx(v.back()));
					}
					/* settings that make no sense */
					auto odd = [&](string s) { return atoi(s.c_str()) % 2 != 0; };
					bool const wrong = (field == "version" && atoi(v[0].c_str()) < 0) || (field == "active" && (odd(v[0]) || odd(v[1])));
					Pairs words;
					for (auto const& i: v) {
						words.push_back(field == "languages" ? q(i) : "\"\"");
					}
					j.w("field", field).raw("v", J::join(h)).raw("words", J::join(words)).b("wrong", wrong);
					set(*w->cpl, field, v);
				} else if (op == "reel") {
					auto r = std::make_shared<dcp::Reel>();
					w->cpl->add(r);
					j.w("id", r->id());
				} else if (op == "part") {
					/* to the last reel */
					auto const role = a.word(), kind = a.word();
					auto const frames = a.i(), entry = a.i(), duration = a.i(), annotation = a.i(), enc = a.i(), mca = a.i();
					auto const text = a.text(), language = a.text();
					auto const standard = w->cpl->standard();
					shared_ptr<dcp::ReelAsset> part;
					int rate = 24;
					std::pair<int, int> aspect(1998, 1080);
					if (kind == "markers") {
						rate = a.i();
						auto m = std::make_shared<dcp::ReelMarkersAsset>(dcp::Fraction(rate, 1), frames);
						vector<string> marks;
						while (a.left()) {
							auto const name = a.word();
							auto const at = a.i();
							m->set(dcp::marker_from_string(name), dcp::Time(at, rate, rate));
							marks.push_back("[" + q(name) + "," + std::to_string(at) + "]");
						}
						if (entry >= 0) {
							m->set_entry_point(entry);
						}
						part = m;
						j.raw("marks", J::join(marks)).w("hash", "").w("key", "");
					} else {
						auto const file = w->scratch.path() / ("asset" + std::to_string(w->assets++));
						shared_ptr<dcp::Asset> asset;
						if (mca) {
							auto s = std::make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, 6, dcp::LanguageTag("en-GB"), standard);
							auto x = s->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
							vector<float> f(2000);
							float* c[] = { f.data(), f.data(), f.data(), f.data(), f.data(), f.data() };
							for (int i = 0; i < frames; ++i) {
								x->write(c, 6, 2000);
							}
							x->finalize();
							asset = s;
						} else {
							asset = make_asset(kind, file, frames, frames, enc ? boost::optional<dcp::Key>(dcp::Key()) : boost::none, standard);
						}
						if (auto pic = dynamic_pointer_cast<dcp::PictureAsset>(asset)) {
							if (a.left()) {
								aspect.first = a.i();
								aspect.second = a.i();
								pic->set_screen_aspect_ratio(dcp::Fraction(aspect.first, aspect.second));
							}
						}
						auto r = reel_asset(asset, role, frames, entry);
						part = r;
						if (auto t = dynamic_pointer_cast<dcp::ReelTextAsset>(part)) {
							if (!language.empty()) {
								t->set_language(dcp::LanguageTag(language));
							}
						}
						j.raw("marks", "[]").raw("hash", hx(sha1_base64(contents(file)))).raw("key", hx(r->key_id() ? "urn:uuid:" + *r->key_id() : ""));
					}
					if (duration >= 0) {
						part->set_duration(duration);
					}
					if (annotation) {
						part->set_annotation_text(text);
					}
					w->cpl->reels().back()->add(part);
					j.w("role", role).w("kind", kind).raw("id", hx("urn:uuid:" + part->id())).n("frames", frames).n("entry", entry).n("dur", duration).n("annotated", annotation)
						.raw("text", hx(text)).raw("language", hx(language)).w("lang", language).n("enc", enc).n("mca", mca).n("rate", rate).raw("aspect", "[" + std::to_string(aspect.first) + "," + std::to_string(aspect.second) + "]");
				} else if (op == "write") {
					w->cpl->write_xml(w->path(), {});
					auto const now = contents(w->path());
					j.b("same", now == w->last);
					w->last = now;
					report_file(j, w->path());
				} else if (op == "scope") {
					/* as somebody else's file would have it */
					auto const scope = a.text();
					auto s = contents(w->path());
					auto const tag = string("ReleaseTerritory>");
					auto const at = s.find(tag);
					if (at != string::npos) {
						s.replace(at, tag.length(), "ReleaseTerritory scope=\"" + scope + "\">");
						std::ofstream(w->path().string().c_str(), std::ios::binary) << s;
						w->last = s;
					}
					j.b("done", at != string::npos).raw("scope", hx(scope));
				} else if (op == "read") {
					vector<dcp::VerificationNote> notes;
					w->cpl = std::make_shared<dcp::CPL>(w->path(), &notes);
					w->file++;
					j.w("id", w->cpl->id()).n("notes", notes.size());
					report_fields(j, *w->cpl);
				} else {
					bad_script(op);
				}
				j.w("error", "");
			} catch (std::exception& e) {
				j.raw("error", q(string(e.what()).substr(0, 200)));
			}
			j.out();
		});
}
