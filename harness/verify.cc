/* A package made to a description, and what the verifier says about it.
 *
 * The description is given part by part: cpl, damage, then for each reel "reel", pic, snd, text (each followed by its
 * lines) and marks; "go" makes the package, with the files of it changed where the description says so, and verifies it. */
#include "world.h"
#include "pki.h"
#include "certificate_chain.h"
#include "main_sound_configuration.h"
#include "pkl.h"
#include "verify.h"
#include <algorithm>

using std::map;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using namespace world;

#define CODES(X) \
	X(FAILED_READ) X(MATCHING_CPL_HASHES) X(MISMATCHED_CPL_HASHES) X(INVALID_PICTURE_FRAME_RATE) X(CORRECT_PICTURE_HASH) X(INCORRECT_PICTURE_HASH) \
	X(MISMATCHED_PICTURE_HASHES) X(INCORRECT_SOUND_HASH) X(MISMATCHED_SOUND_HASHES) X(EMPTY_ASSET_PATH) X(MISSING_ASSET) X(MISMATCHED_STANDARD) \
	X(INVALID_XML) X(MISSING_ASSETMAP) X(INVALID_INTRINSIC_DURATION) X(INVALID_DURATION) X(VALID_PICTURE_FRAME_SIZES_IN_BYTES) \
	X(INVALID_PICTURE_FRAME_SIZE_IN_BYTES) X(NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES) X(EXTERNAL_ASSET) X(THREED_ASSET_MARKED_AS_TWOD) \
	X(INVALID_STANDARD) X(INVALID_LANGUAGE) X(VALID_RELEASE_TERRITORY) X(INVALID_PICTURE_SIZE_IN_PIXELS) X(INVALID_PICTURE_FRAME_RATE_FOR_2K) \
	X(INVALID_PICTURE_FRAME_RATE_FOR_4K) X(INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D) X(INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES) \
	X(INVALID_TIMED_TEXT_SIZE_IN_BYTES) X(INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES) X(MISSING_SUBTITLE_LANGUAGE) X(MISMATCHED_SUBTITLE_LANGUAGES) \
	X(MISSING_SUBTITLE_START_TIME) X(INVALID_SUBTITLE_START_TIME) X(INVALID_SUBTITLE_FIRST_TEXT_TIME) X(INVALID_SUBTITLE_DURATION) \
	X(INVALID_SUBTITLE_DURATION_BV21) X(INVALID_SUBTITLE_SPACING) X(SUBTITLE_OVERLAPS_REEL_BOUNDARY) X(INVALID_SUBTITLE_LINE_COUNT) \
	X(NEARLY_INVALID_SUBTITLE_LINE_LENGTH) X(INVALID_SUBTITLE_LINE_LENGTH) X(INVALID_CLOSED_CAPTION_LINE_COUNT) X(INVALID_CLOSED_CAPTION_LINE_LENGTH) \
	X(INVALID_SOUND_FRAME_RATE) X(INVALID_SOUND_BIT_DEPTH) X(MISSING_CPL_ANNOTATION_TEXT) X(MISMATCHED_CPL_ANNOTATION_TEXT) X(VALID_CPL_ANNOTATION_TEXT) \
	X(MISMATCHED_ASSET_DURATION) X(MISSING_MAIN_SUBTITLE_FROM_SOME_REELS) X(MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS) X(MISSING_SUBTITLE_ENTRY_POINT) \
	X(INCORRECT_SUBTITLE_ENTRY_POINT) X(MISSING_CLOSED_CAPTION_ENTRY_POINT) X(INCORRECT_CLOSED_CAPTION_ENTRY_POINT) X(MISSING_HASH) \
	X(MISSING_FFEC_IN_FEATURE) X(MISSING_FFMC_IN_FEATURE) X(MISSING_FFOC) X(MISSING_LFOC) X(INCORRECT_FFOC) X(INCORRECT_LFOC) X(MISSING_CPL_METADATA) \
	X(MISSING_CPL_METADATA_VERSION_NUMBER) X(MISSING_EXTENSION_METADATA) X(INVALID_EXTENSION_METADATA) X(UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT) \
	X(UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT) X(MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL) X(MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL) X(ALL_ENCRYPTED) \
	X(NONE_ENCRYPTED) X(PARTIALLY_ENCRYPTED) X(INVALID_JPEG2000_CODESTREAM) X(INVALID_JPEG2000_GUARD_BITS_FOR_2K) X(INVALID_JPEG2000_GUARD_BITS_FOR_4K) \
	X(INVALID_JPEG2000_TILE_SIZE) X(INVALID_JPEG2000_CODE_BLOCK_WIDTH) X(INVALID_JPEG2000_CODE_BLOCK_HEIGHT) \
	X(INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K) X(INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K) X(INCORRECT_JPEG2000_POC_MARKER) \
	X(INVALID_JPEG2000_POC_MARKER_LOCATION) X(INVALID_JPEG2000_TILE_PARTS_FOR_2K) X(INVALID_JPEG2000_TILE_PARTS_FOR_4K) X(INVALID_JPEG2000_RSIZ_FOR_2K) \
	X(INVALID_JPEG2000_RSIZ_FOR_4K) X(MISSING_JPEG2000_TLM_MARKER) X(MISMATCHED_TIMED_TEXT_RESOURCE_ID) X(INCORRECT_TIMED_TEXT_ASSET_ID) \
	X(MISMATCHED_TIMED_TEXT_DURATION) X(MISSED_CHECK_OF_ENCRYPTED) X(EMPTY_TEXT) X(MISMATCHED_CLOSED_CAPTION_VALIGN) \
	X(INCORRECT_CLOSED_CAPTION_ORDERING) X(UNEXPECTED_ENTRY_POINT) X(UNEXPECTED_DURATION) X(INVALID_CONTENT_KIND) X(VALID_CONTENT_KIND) \
	X(INVALID_MAIN_PICTURE_ACTIVE_AREA) X(VALID_MAIN_PICTURE_ACTIVE_AREA) X(DUPLICATE_ASSET_ID_IN_PKL) X(DUPLICATE_ASSET_ID_IN_ASSETMAP) \
	X(MISSING_SUBTITLE) X(INVALID_SUBTITLE_ISSUE_DATE) X(MISMATCHED_SOUND_CHANNEL_COUNTS) X(INVALID_MAIN_SOUND_CONFIGURATION) X(MISSING_FONT) \
	X(INVALID_JPEG2000_TILE_PART_SIZE) X(INCORRECT_SUBTITLE_NAMESPACE_COUNT) X(MISSING_LOAD_FONT_FOR_FONT) X(MISSING_LOAD_FONT) \
	X(MISMATCHED_ASSET_MAP_ID) X(EMPTY_CONTENT_VERSION_LABEL_TEXT) X(VALID_CONTENT_VERSION_LABEL_TEXT) X(INVALID_CPL_NAMESPACE) \
	X(MISSING_CPL_CONTENT_VERSION) X(INVALID_PKL_NAMESPACE)

static string code_name(dcp::VerificationNote::Code c)
{
#define ONE(n) if (c == dcp::VerificationNote::Code::n) return #n;
	CODES(ONE)
#undef ONE
	return "?";
}

static string type_name(dcp::VerificationNote::Type t)
{
	switch (t) {
	case dcp::VerificationNote::Type::OK: return "ok";
	case dcp::VerificationNote::Type::ERROR: return "error";
	case dcp::VerificationNote::Type::BV21_ERROR: return "bv21";
	case dcp::VerificationNote::Type::WARNING: return "warning";
	}
	return "?";
}

struct Line { int in, out, vp, len; string va; };
struct TextPart { string role, lang, start, entry; int dur, intr, font, enc, gone; vector<Line> lines; };
struct Picture { int w, h, frames, stereo, enc, dur, entry, gone; string hash; vector<int> big; };
struct Sound { int has, ch, rate, frames, enc, dur, gone; string hash; };
struct Marks { int has = 0, entry = 0, dur = 0; vector<std::pair<string, int>> m; };
struct ReelPart { int num, den; Picture pic; Sound snd; vector<TextPart> texts; Marks marks; };
struct Package
{
	string kind, ann, pklann, ext, terr, addl;
	int meta, ver, cver, label, aw, ah, sign, msc, more;
	string dup, bad;
	int stale, det;
	vector<ReelPart> reels;
};

static Package P;
static shared_ptr<dcp::CertificateChain> chain;

static string quote(string s) { return "\"" + s + "\""; }
static string field(string k, string v) { return "\"" + k + "\":\"" + v + "\""; }
static string field(string k, int v) { return "\"" + k + "\":" + std::to_string(v); }
static string record(vector<string> const& fields)
{
	string s = "{";
	for (size_t i = 0; i < fields.size(); ++i) {
		s += (i ? "," : "") + fields[i];
	}
	return s + "}";
}

static string described()
{
	vector<string> reels;
	for (auto const& r: P.reels) {
		vector<string> subs, ccs;
		for (auto const& t: r.texts) {
			vector<string> lines;
			for (auto const& l: t.lines) {
				lines.push_back(record({field("tin", l.in), field("tout", l.out), field("vp", l.vp), field("va", l.va), field("len", l.len)}));
			}
			auto& to = t.role == "sub" ? subs : ccs;
			to.push_back(record({
				field("lang", t.lang), field("start", t.start), field("entry", t.entry), field("dur", t.dur), field("intr", t.intr), field("font", t.font),
				field("enc", t.enc), field("gone", t.gone), "\"lines\":" + J::join(lines)
			}));
		}
		vector<string> marks;
		for (auto const& m: r.marks.m) {
			marks.push_back("[" + quote(m.first) + "," + std::to_string(m.second) + "]");
		}
		auto const& p = r.pic;
		auto const& s = r.snd;
		reels.push_back(record({
			"\"rate\":" + J::list(vector<int>{r.num, r.den}),
			"\"pic\":" + record({
				field("w", p.w), field("h", p.h), field("frames", p.frames), field("stereo", p.stereo), field("enc", p.enc), field("dur", p.dur), field("entry", p.entry),
				field("gone", p.gone), field("hash", p.hash), "\"big\":" + J::list(p.big)
			}),
			"\"snd\":" + record({
				field("has", s.has), field("ch", s.ch), field("rate", s.rate), field("frames", s.frames), field("enc", s.enc), field("dur", s.dur), field("gone", s.gone),
				field("hash", s.hash)
			}),
			"\"sub\":" + J::join(subs),
			"\"cc\":" + J::join(ccs),
			"\"marks\":" + record({field("has", r.marks.has), field("entry", r.marks.entry), field("dur", r.marks.dur), "\"m\":" + J::join(marks)})
		}));
	}
	return record({
		field("kind", P.kind), field("ann", P.ann), field("pklann", P.pklann), field("ext", P.ext), field("terr", P.terr), field("addl", P.addl),
		field("meta", P.meta), field("ver", P.ver), field("cver", P.cver), field("label", P.label), "\"area\":" + J::list(vector<int>{P.aw, P.ah}), field("sign", P.sign), field("msc", P.msc), field("more", P.more),
		field("dup", P.dup), field("bad", P.bad), field("stale", P.stale), field("det", P.det), "\"reels\":" + J::join(reels)
	});
}

static void store(Path p, string const& s)
{
	std::ofstream f(p.string().c_str(), std::ios::binary | std::ios::trunc);
	f << s;
}

static void replace(string& s, string from, string to)
{
	auto const i = s.find(from);
	if (i == string::npos) {
		bad_script("cannot find " + from);
	}
	s.replace(i, from.size(), to);
}

/** @return where the element that contains what is at i is, given its name */
static std::pair<size_t, size_t> element(string const& s, string name, size_t i)
{
	auto const b = s.rfind("<" + name + ">", i);
	auto const e = s.find("</" + name + ">", i);
	if (b == string::npos || e == string::npos) {
		bad_script("cannot find " + name);
	}
	return {b, e + name.size() + 3};
}

/** Without the first element with some name at or after i */
static void without(string& s, string name, size_t i = 0)
{
	auto const b = s.find("<" + name, i);
	auto const e = s.find("</" + name + ">", i);
	if (b == string::npos || e == string::npos || e < b) {
		bad_script("cannot find " + name);
	}
	s.erase(b, e + name.size() + 3 - b);
}

static void inside(string& s, string name, string what, size_t i = 0)
{
	auto const b = s.find("<" + name, i);
	auto const c = s.find(">", b);
	auto const e = s.find("</" + name + ">", i);
	if (b == string::npos || e == string::npos || e < c) {
		bad_script("cannot find " + name);
	}
	s.replace(c + 1, e - c - 1, what);
}

/** Another hash */
static string const other_hash = "AAAAAAAAAAAAAAAAAAAAAAAAAAA=";

static string words(int n, int salt)
{
	string s;
	for (int i = 0; i < n; ++i) {
		s += 'a' + (salt + i) % 26;
	}
	return s;
}

static shared_ptr<dcp::CertificateChain> signer()
{
	if (!chain) {
		pki::Names n;
		auto name = [&n](string cn) {
			n.o = "example.org";
			n.ou = "example.org";
			n.cn = cn;
			n.dn = "dnq" + cn;
			return n;
		};
		auto root = pki::certificate(1, name("root"), "5", "20200101000000Z", "20300101000000Z", true, nullptr);
		auto mid = pki::certificate(2, name("mid"), "6", "20200101000000Z", "20300101000000Z", true, &root);
		auto leaf = pki::certificate(3, name("leaf"), "7", "20200101000000Z", "20300101000000Z", false, &mid);
		chain = make_shared<dcp::CertificateChain>();
		for (auto const& c: {root, mid, leaf}) {
			chain->add(dcp::Certificate(c.pem));
		}
		chain->set_key(pki::private_pem(3, false));
	}
	return chain;
}

static dcp::Time frames_time(int64_t n, int tcr)
{
	return dcp::Time(n / (tcr * 3600), (n / (tcr * 60)) % 60, (n / tcr) % 60, n % tcr, tcr);
}

struct Placed { string id, role, hash, entry; int gone; Path file; };

static void go(J& j)
{
	Scratch scratch;
	auto const dir = scratch.path() / "dcp";
	boost::filesystem::create_directories(dir);
	dcp::DCP dcp(dir);
	vector<shared_ptr<dcp::CPL>> cpls;
	for (int i = 0; i <= P.more; ++i) {
		auto cpl = make_shared<dcp::CPL>("Title", dcp::ContentKind(P.kind, boost::none), dcp::Standard::SMPTE);
		cpl->set_annotation_text(P.ann == "other" ? "Something else" : "Title");
		cpl->set_issuer("issuer");
		cpl->set_creator("creator");
		cpl->set_content_version(dcp::ContentVersion("id", P.label ? "label" : ""));
		if (P.meta) {
			string c = "51/";
			char const* names[] = {"L", "R", "C", "LFE", "Ls", "Rs"};
			for (int k = 0; k < P.msc; ++k) {
				c += (k ? "," : "") + string(k < 6 ? names[k] : "-");
			}
			cpl->set_main_sound_configuration(dcp::MainSoundConfiguration(c));
			cpl->set_main_sound_sample_rate(48000);
			cpl->set_main_picture_stored_area(dcp::Size(1998, 1080));
			/* odd sizes are put into the file later */
			cpl->set_main_picture_active_area(dcp::Size(P.aw & ~1, P.ah & ~1));
			cpl->set_version_number(1);
			if (!P.ver) {
				cpl->unset_version_number();
			}
			if (P.terr != "none") {
				cpl->set_release_territory(dcp::LanguageTag::RegionSubtag("GB"));
			}
			if (P.addl != "none") {
				cpl->set_additional_subtitle_languages({dcp::LanguageTag("fr-FR")});
			}
		}
		cpls.push_back(cpl);
		dcp.add(cpl);
	}

	vector<Placed> placed;
	int number = 0;
	for (auto const& r: P.reels) {
		auto const name = std::to_string(++number);
		dcp::Fraction const rate(r.num, r.den);
		int const tcr = r.den == 1 ? r.num : 24;
		auto reel = make_shared<dcp::Reel>();

		auto const& p = r.pic;
		shared_ptr<dcp::J2KPictureAsset> picture;
		if (p.stereo) {
			picture = make_shared<dcp::StereoJ2KPictureAsset>(rate, dcp::Standard::SMPTE);
		} else {
			picture = make_shared<dcp::MonoJ2KPictureAsset>(rate, dcp::Standard::SMPTE);
		}
		if (p.enc) {
			picture->set_key(dcp::Key());
		}
		auto const picture_file = dir / ("pic" + name + ".mxf");
		{
			auto w = picture->start_write(picture_file, dcp::Behaviour::MAKE_NEW);
			for (int i = 0; i < p.frames * (p.stereo ? 2 : 1); ++i) {
				auto f = j2k_frame(number + i, p.w, p.h);
				if (size_t(i) < p.big.size()) {
					if (p.big[i] == -1) {
						/* not a picture */
						f[f.size() - 122] = 0;
						f[f.size() - 123] = 0;
						f[f.size() - 124] = 0;
					} else if (p.big[i]) {
						f.resize(p.big[i]);
					}
				}
				w->write(f.data(), f.size());
			}
			w->finalize();
		}
		shared_ptr<dcp::ReelPictureAsset> rp;
		if (auto m = std::dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(picture)) {
			rp = make_shared<dcp::ReelMonoPictureAsset>(m, p.entry);
		} else {
			rp = make_shared<dcp::ReelStereoPictureAsset>(std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(picture), p.entry);
		}
		rp->set_duration(p.dur);
		if (p.hash == "cpl" || p.hash == "both") {
			rp->set_hash(other_hash);
		}
		reel->add(rp);
		placed.push_back({picture->id(), "MainPicture", p.hash, "", p.gone, picture_file});
		if (p.stereo) {
			placed.back().role = "msp-cpl:MainStereoscopicPicture";
		}

		auto const& s = r.snd;
		if (s.has) {
			auto sound = make_shared<dcp::SoundAsset>(rate, s.rate, s.ch, dcp::LanguageTag("en-GB"), dcp::Standard::SMPTE);
			if (s.enc) {
				sound->set_key(dcp::Key());
			}
			auto const file = dir / ("snd" + name + ".mxf");
			auto w = sound->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
			int const n = int64_t(s.rate) * r.den / r.num;
			vector<float> d(n, .1f);
			vector<float*> c(s.ch, d.data());
			for (int i = 0; i < s.frames; ++i) {
				d[0] = i / 1000.f;
				w->write(c.data(), s.ch, n);
			}
			w->finalize();
			auto rs = make_shared<dcp::ReelSoundAsset>(sound, 0);
			rs->set_duration(s.dur);
			if (s.hash == "cpl" || s.hash == "both") {
				rs->set_hash(other_hash);
			}
			reel->add(rs);
			placed.push_back({sound->id(), "MainSound", s.hash, "", s.gone, file});
		}

		int k = 0;
		for (auto const& t: r.texts) {
			auto text = make_shared<dcp::SMPTETextAsset>();
			if (t.enc) {
				text->set_key(dcp::Key());
			}
			if (t.lang != "none") {
				text->set_language(dcp::LanguageTag(t.lang));
			}
			text->set_edit_rate(rate);
			text->set_time_code_rate(tcr);
			text->set_content_title_text("Title");
			if (t.start != "none") {
				text->set_start_time(frames_time(t.start == "late" ? 1 : 0, tcr));
			}
			if (t.font) {
				text->add_font("font", bytes(t.font, 5));
			}
			int salt = 0;
			for (auto const& l: t.lines) {
				text->add(make_shared<dcp::TextString>(
					t.font ? boost::optional<string>("font") : boost::none, (++salt) & 1, false, false, dcp::Colour(255, 255, 255), 42, 1,
					frames_time(l.in, tcr), frames_time(l.out, tcr), 0, dcp::HAlign::CENTER, l.vp / 100.f,
					l.va == "top" ? dcp::VAlign::TOP : l.va == "center" ? dcp::VAlign::CENTER : dcp::VAlign::BOTTOM, 0,
					vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, words(l.len, salt), dcp::Effect::NONE, dcp::Colour(0, 0, 0),
					dcp::Time(), dcp::Time(), 0, vector<dcp::Ruby>()));
			}
			text->set_intrinsic_duration(t.intr);
			auto const file = dir / ("txt" + name + "_" + std::to_string(++k) + ".mxf");
			text->write(file);
			auto rt = make_shared<dcp::ReelSMPTETextAsset>(t.role == "sub" ? dcp::TextType::OPEN_SUBTITLE : dcp::TextType::CLOSED_CAPTION, text, rate, t.intr, t.entry == "late" ? 1 : 0);
			rt->set_duration(t.dur);
			if (t.entry == "none") {
				rt->unset_entry_point();
			}
			reel->add(rt);
			placed.push_back({text->id(), "", "ok", "", t.gone, file});
		}

		if (r.marks.has) {
			auto m = make_shared<dcp::ReelMarkersAsset>(rate, p.frames);
			for (auto const& x: r.marks.m) {
				m->set(dcp::marker_from_string(x.first), frames_time(x.second, tcr));
			}
			if (r.marks.entry) {
				m->set_entry_point(0);
			}
			if (r.marks.dur) {
				m->set_duration(p.frames);
			}
			reel->add(m);
		}
		for (auto cpl: cpls) {
			cpl->add(reel);
		}
	}

	dcp.set_annotation_text(P.pklann == "other" ? "Something else" : "Title");
	dcp.write_xml(P.sign ? signer() : nullptr);

	Path pkl_file = *dcp.pkls()[0]->file();
	Path am_file = dir / "ASSETMAP.xml";
	auto pkl = contents(pkl_file);
	auto am = contents(am_file);

	int n = 0;
	for (auto cpl: cpls) {
		Path const file = *cpl->file();
		auto x = contents(file);
		auto const before = x;
		if (P.ann == "none") {
			without(x, "AnnotationText");
		}
		if (!P.cver) {
			without(x, "ContentVersion");
		}
		if (P.meta) {
			if (P.ext == "none") {
				without(x, "meta:ExtensionMetadataList");
			} else if (P.ext == "scope") {
				replace(x, "http://isdcf.com/ns/cplmd/app", "http://example.org/app");
			} else if (P.ext == "name") {
				replace(x, ">Application<", ">Applicaton<");
			} else if (P.ext == "profile") {
				replace(x, "SMPTE-RDD-52:2020-Bv2.1", "SMPTE-RDD-52:2020-Bv2.2");
			} else if (P.ext == "old") {
				replace(x, "SMPTE-RDD-52:2020-Bv2.1", "SMPTE-RDD-52:2020-Bv2.0");
			}
			if (P.terr != "none" && P.terr != "GB") {
				inside(x, "meta:ReleaseTerritory", P.terr);
			}
			if (P.addl != "none" && P.addl != "fr-FR") {
				replace(x, ">fr-FR<", ">" + P.addl + "<");
			}
			auto const area = x.find("<meta:MainPictureActiveArea");
			inside(x, "meta:Width", std::to_string(P.aw), area);
			inside(x, "meta:Height", std::to_string(P.ah), area);
		}
		for (auto const& i: placed) {
			if (i.hash == "none") {
				auto const at = element(x, "Id", x.find(i.id)).first;
				without(x, "Hash", at);
			}
		}
		if (P.bad == "cpl") {
			inside(x, "IssueDate", "soon");
		}
		if (x != before) {
			auto e = element(pkl, "Asset", pkl.find(cpl->id()));
			auto part = pkl.substr(e.first, e.second - e.first);
			inside(part, "Hash", sha1_base64(x));
			inside(part, "Size", std::to_string(x.size()));
			pkl.replace(e.first, e.second - e.first, part);
			store(file, x);
		}
		if (P.stale && n == P.stale - 1) {
			replace(x, "<Issuer>issuer</Issuer>", "<Issuer>issuar</Issuer>");
			store(file, x);
		}
		++n;
	}

	for (auto const& i: placed) {
		if (i.gone == 3) {
			/* it is in another package */
			for (auto list: {&pkl, &am}) {
				auto const e = element(*list, "Asset", list->find(i.id));
				list->erase(e.first, e.second - e.first);
			}
			boost::filesystem::remove(i.file);
			continue;
		}
		if (i.hash == "both" || i.hash == "pkl") {
			auto e = element(pkl, "Asset", pkl.find(i.id));
			auto part = pkl.substr(e.first, e.second - e.first);
			inside(part, "Hash", other_hash);
			pkl.replace(e.first, e.second - e.first, part);
		} else if (i.hash == "file") {
			/* one bit of what the track says is different */
			auto d = contents(i.file);
			uint64_t footer;
			memcpy(&footer, d.data() + 9, 8);
			d[footer - 10] ^= 1;
			store(i.file, d);
		}
		if (i.gone == 1) {
			boost::filesystem::remove(i.file);
		} else if (i.gone == 2) {
			inside(am, "Path", "", am.find(i.id));
		}
	}
	auto twice = [&placed](string& s) {
		auto const i = std::find_if(placed.begin(), placed.end(), [](Placed const& p) { return p.gone != 3; });
		if (i == placed.end()) {
			bad_script("nothing to have twice");
		}
		auto const e = element(s, "Asset", s.find(i->id));
		s.insert(e.second, s.substr(e.first, e.second - e.first));
	};
	if (P.dup == "pkl") {
		twice(pkl);
	} else if (P.dup == "am") {
		twice(am);
	}
	if (P.bad == "pkl") {
		replace(pkl, "</PackingList>", "<Unknown>1</Unknown></PackingList>");
	} else if (P.bad == "am") {
		replace(am, "</AssetMap>", "<Unknown>1</Unknown></AssetMap>");
	}
	store(pkl_file, pkl);
	store(am_file, am);
	if (P.bad == "noam") {
		boost::filesystem::remove(am_file);
	} else if (P.bad == "halfam") {
		store(am_file, am.substr(0, am.size() / 2));
	} else if (P.bad == "halfcpl") {
		auto const x = contents(*cpls[0]->file());
		store(*cpls[0]->file(), x.substr(0, x.size() / 2));
	}

	dcp::VerificationOptions options;
	options.check_picture_details = P.det;
	string thrown;
	bool said = true;
	vector<string> notes;
	try {
		auto const r = dcp::verify(
			{dir}, {}, [](string, boost::optional<Path>) {}, [](float) {}, options, Path(getenv("LIBDCP_RESOURCES") ? string(getenv("LIBDCP_RESOURCES")) + "/xsd" : "xsd")
			);
		for (auto const& i: r.notes) {
			notes.push_back(record({field("c", code_name(i.code())), field("t", type_name(i.type())), field("r", i.reel_index() ? *i.reel_index() : -1)}));
			auto same = [](string s) { return s; };
			if (dcp::note_to_string(i, same, same).empty()) {
				said = false;
			}
		}
	} catch (std::exception& e) {
		thrown = typeid(e).name();
		std::cerr << "verify: " << e.what() << "\n";
	}
	j.raw("pkg", described()).raw("notes", J::join(notes)).w("thrown", thrown).b("said", said).out();
}

static void handle(string op, Args& a)
{
	if (op == "cpl") {
		P.kind = a.word(); P.ann = a.word(); P.pklann = a.word(); P.meta = a.i(); P.ver = a.i(); P.ext = a.word(); P.terr = a.word();
		P.cver = a.i(); P.label = a.i(); P.aw = a.i(); P.ah = a.i(); P.addl = a.word(); P.sign = a.i(); P.msc = a.i(); P.more = a.i();
		P.dup = a.word(); P.bad = a.word(); P.stale = a.i(); P.det = a.i();
	} else if (op == "reel") {
		P.reels.push_back(ReelPart());
		P.reels.back().num = a.i();
		P.reels.back().den = a.i();
	} else if (op == "pic") {
		auto& p = P.reels.back().pic;
		p.w = a.i(); p.h = a.i(); p.frames = a.i(); p.stereo = a.i(); p.enc = a.i(); p.dur = a.i(); p.entry = a.i(); p.gone = a.i(); p.hash = a.word();
		while (a.left()) {
			p.big.push_back(a.i());
		}
	} else if (op == "snd") {
		auto& s = P.reels.back().snd;
		s.has = a.i(); s.ch = a.i(); s.rate = a.i(); s.frames = a.i(); s.enc = a.i(); s.dur = a.i(); s.gone = a.i(); s.hash = a.word();
	} else if (op == "text") {
		TextPart t;
		t.role = a.word(); t.lang = a.word(); t.start = a.word(); t.entry = a.word(); t.dur = a.i(); t.intr = a.i(); t.font = a.i(); t.enc = a.i(); t.gone = a.i();
		P.reels.back().texts.push_back(t);
	} else if (op == "line") {
		Line l;
		l.in = a.i(); l.out = a.i(); l.vp = a.i(); l.va = a.word(); l.len = a.i();
		P.reels.back().texts.back().lines.push_back(l);
	} else if (op == "marks") {
		auto& m = P.reels.back().marks;
		m.has = 1;
		m.entry = a.i(); m.dur = a.i();
		while (a.left()) {
			auto const name = a.word();
			m.m.push_back({name, a.i()});
		}
	} else if (op == "go") {
		J j("verify");
		go(j);
		return;
	} else {
		bad_script(op);
	}
}

int main()
{
	dcp::init();
	return main_loop([]() { P = Package(); }, handle);
}
