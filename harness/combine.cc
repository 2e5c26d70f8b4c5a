/* Packages made to a description, combined into one, and what is in that one.
 *
 * asset K kind D name frames enc fonts images     an asset of package D
 * copy K OF D name                                the same asset (with the same ID) in package D as well
 * cpl C D ; reel C ; use C R K role
 * go sign D ...                                   write all the packages and combine those named
 * with "standard D s" before anything of package D */
#include "world.h"
#include "pki.h"
#include "xmlview.h"
#include "certificate_chain.h"
#include "combine.h"
#include "exceptions.h"
#include "font_asset.h"
#include "reel_text_asset.h"

using namespace world;
using namespace xmlview;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

struct Part { int who, dir; string kind, name; shared_ptr<dcp::Asset> asset; };
struct Composition { int dir; shared_ptr<dcp::CPL> cpl; vector<vector<int>> reels, keys; };

struct World
{
	Scratch scratch;
	map<int, string> standards;
	map<int, Part> parts;
	map<int, Composition> cpls;
	Path dir(int d) const { return scratch.path() / ("in" + std::to_string(d)); }
	dcp::Standard standard(int d) { return standards[d] == "interop" ? dcp::Standard::INTEROP : dcp::Standard::SMPTE; }
};

static shared_ptr<dcp::CertificateChain> signer()
{
	static shared_ptr<dcp::CertificateChain> chain;
	if (!chain) {
		pki::Names n;
		auto name = [&n](string cn) { n.o = n.ou = "example.org"; n.cn = cn; n.dn = "dnq" + cn; return n; };
		auto root = pki::certificate(1, name("root"), "5", "20200101000000Z", "20300101000000Z", true, nullptr);
		auto mid = pki::certificate(2, name("mid"), "6", "20200101000000Z", "20300101000000Z", true, &root);
		auto leaf = pki::certificate(3, name("leaf"), "7", "20200101000000Z", "20300101000000Z", false, &mid);
		chain = make_shared<dcp::CertificateChain>();
		for (auto const& c: {root, mid, leaf}) {
			chain->add(dcp::Certificate(c.pem));
		}
		chain->set_key(pki::private_pem(3, false));
	}
	return chain;
}

static vector<Path> files_in(Path dir)
{
	vector<Path> all;
	if (boost::filesystem::exists(dir)) {
		for (boost::filesystem::recursive_directory_iterator i(dir), e; i != e; ++i) {
			if (boost::filesystem::is_regular_file(i->path())) {
				all.push_back(i->path());
			}
		}
	}
	std::sort(all.begin(), all.end());
	return all;
}

static string digest(Path dir)
{
	string s;
	for (auto f: files_in(dir)) {
		s += f.string() + " " + sha1_base64(contents(f)) + "\n";
	}
	return s;
}

static void gather(xmlpp::Element* e, string name, vector<xmlpp::Element*>& out)
{
	for (auto c: elements(e)) {
		if (c->get_name() == name) {
			out.push_back(c);
		}
		gather(c, name, out);
	}
}

/** What an Interop text shows, with its fonts and images, found as the document says; fonts: the files of fonts */
static string shows(Path file, std::set<string>& fonts)
{
	xmlpp::DomParser parser;
	parser.parse_memory(contents(file));
	auto root = parser.get_document()->get_root_node();
	string s = bare(text(root, "SubtitleID")) + "|" + text(root, "MovieTitle") + "|" + text(root, "Language");
	vector<xmlpp::Element*> found;
	gather(root, "Text", found);
	for (auto t: found) {
		s += "|text " + content(t);
	}
	map<string, string> by_id;
	for (auto f: elements(root, "LoadFont")) {
		auto const p = file.parent_path() / string(f->get_attribute_value("URI"));
		by_id[f->get_attribute_value("Id")] = boost::filesystem::exists(p) ? sha1_base64(contents(p)) : "none";
		fonts.insert(boost::filesystem::exists(p) ? boost::filesystem::canonical(p).string() : p.string());
	}
	for (auto const& i: by_id) {
		s += "|font " + i.first + " " + i.second;
	}
	found.clear();
	gather(root, "Image", found);
	for (auto i: found) {
		auto const p = file.parent_path() / (content(i));
		auto const png = file.parent_path() / (content(i) + ".png");
		s += "|image " + (boost::filesystem::exists(p) ? sha1_base64(contents(p)) : boost::filesystem::exists(png) ? sha1_base64(contents(png)) : string("none"));
	}
	return s;
}

static void go(J& j, World& w, vector<int> given, bool sign)
{
	map<string, int> who_of, cpl_of;
	map<int, string> was;
	std::set<string> some;
	vector<string> parts, cpls;
	for (auto const& i: w.parts) {
		auto const& p = i.second;
		who_of[p.asset->id()] = p.who;
		auto const interop = p.kind == "text" && w.standards[p.dir] == "interop";
		was[p.who] = interop ? shows(*p.asset->file(), some) : sha1_base64(contents(*p.asset->file()));
		parts.push_back("{\"key\":" + std::to_string(i.first) + ",\"who\":" + std::to_string(p.who) + ",\"dir\":" + std::to_string(p.dir) + ",\"name\":" + q(p.name) + ",\"kind\":" + q(p.kind)
			+ ",\"fonts\":" + std::to_string(interop ? dynamic_pointer_cast<dcp::InteropTextAsset>(p.asset)->font_assets().size() : 0) + "}");
	}
	for (auto const& i: w.cpls) {
		cpl_of[i.second.cpl->id()] = i.first;
		vector<string> reels, keys;
		for (auto const& r: i.second.reels) {
			reels.push_back(J::list(r));
		}
		for (auto const& r: i.second.keys) {
			keys.push_back(J::list(r));
		}
		cpls.push_back("{\"key\":" + std::to_string(i.first) + ",\"dir\":" + std::to_string(i.second.dir) + ",\"reels\":" + J::join(reels) + ",\"keys\":" + J::join(keys) + "}");
	}
	vector<string> standards;
	vector<Path> inputs;
	for (auto const& s: w.standards) {
		auto const d = s.first;
		standards.push_back(q(s.second));
		dcp::DCP dcp(w.dir(d));
		for (auto const& i: w.cpls) {
			if (i.second.dir == d) {
				dcp.add(i.second.cpl);
			}
		}
		dcp.write_xml();
	}
	for (auto d: given) {
		inputs.push_back(w.dir(d));
	}
	j.raw("inputs", J::list(given)).raw("standards", J::join(standards)).raw("parts", J::join(parts)).raw("cpls", J::join(cpls)).b("sign", sign);

	string before;
	for (auto const& i: w.standards) {
		before += digest(w.dir(i.first));
	}
	auto const out = w.scratch.path() / "out";
	string thrown;
	try {
		dcp::combine(inputs, out, "the issuer", "the creator", "2024-01-02T03:04:05+00:00", "the annotation", sign ? signer() : nullptr);
	} catch (dcp::CombineError&) {
		thrown = "combine";
	} catch (std::exception& e) {
		thrown = "other";
	}
	string after;
	for (auto const& i: w.standards) {
		after += digest(w.dir(i.first));
	}
	j.w("thrown", thrown).b("untouched", before == after);

	/* what is there */
	vector<string> listed, found_cpls, strays;
	std::set<string> font_files, mapped;
	int packing = 0, maps = 0, is_signed = 0, said = 0;
	map<string, int> in_pkl;
	map<string, std::pair<string, string>> pkl_says;
	for (auto f: files_in(out)) {
		auto const c = contents(f);
		if (c.compare(0, 5, "<?xml") != 0) {
			continue;
		}
		xmlpp::DomParser parser;
		parser.parse_memory(c);
		auto root = parser.get_document()->get_root_node();
		if (root->get_name() == "PackingList") {
			++packing;
			is_signed += only(root, "Signature") ? 1 : 0;
			said += text(root, "Issuer") == "the issuer" && text(root, "Creator") == "the creator" && text(root, "AnnotationText") == "the annotation" && text(root, "IssueDate") == "2024-01-02T03:04:05+00:00";
			for (auto a: elements(only(root, "AssetList"), "Asset")) {
				auto const id = bare(text(a, "Id"));
				++in_pkl[id];
				pkl_says[id] = {text(a, "Hash"), text(a, "Size")};
			}
		} else if (root->get_name() == "DCSubtitle") {
			shows(f, font_files);
		}
	}
	for (auto f: files_in(out)) {
		if (f.filename().string().compare(0, 8, "ASSETMAP") != 0) {
			continue;
		}
		++maps;
		xmlpp::DomParser parser;
		parser.parse_memory(contents(f));
		for (auto a: elements(only(parser.get_document()->get_root_node(), "AssetList"), "Asset")) {
			auto const id = bare(text(a, "Id"));
			auto const chunk = only(only(a, "ChunkList"), "Chunk");
			auto const path = out / text(chunk, "Path");
			auto const exists = boost::filesystem::is_regular_file(path);
			auto const c = exists ? contents(path) : "";
			auto const canonical = exists ? boost::filesystem::canonical(path).string() : "";
			auto const again = !mapped.insert(canonical).second;
			if (only(a, "PackingList")) {
				continue;
			}
			string kind = "?", same = "0";
			int who = 0;
			if (who_of.find(id) != who_of.end()) {
				who = who_of[id];
				kind = "part";
				auto const interop = c.find("<DCSubtitle") != string::npos;
				same = exists && was[who] == (interop ? shows(path, some) : sha1_base64(c)) ? "1" : "0";
			} else if (cpl_of.find(id) != cpl_of.end()) {
				who = cpl_of[id];
				kind = "cpl";
				xmlpp::DomParser parser;
				parser.parse_memory(c);
				auto root = parser.get_document()->get_root_node();
				same = text(root, "ContentTitleText") == "Title " + std::to_string(who) ? "1" : "0";
				is_signed += only(root, "Signature") ? 1 : 0;
				vector<string> reels;
				for (auto r: elements(only(root, "ReelList"), "Reel")) {
					vector<int> refs;
					for (auto x: elements(only(r, "AssetList"))) {
						if (x->get_name() != "CompositionMetadataAsset") {
							auto const i = who_of.find(bare(text(x, "Id")));
							refs.push_back(i == who_of.end() ? 0 : i->second);
						}
					}
					reels.push_back(J::list(refs));
				}
				found_cpls.push_back("{\"key\":" + std::to_string(who) + ",\"reels\":" + J::join(reels) + "}");
			} else if (exists && font_files.find(canonical) != font_files.end()) {
				kind = "font";
				same = "1";
			} else if (exists && path.extension() == ".png") {
				kind = "image";
				same = "1";
			}
			listed.push_back("{\"who\":" + std::to_string(who) + ",\"kind\":" + q(kind) + ",\"exists\":" + (exists ? "1" : "0") + ",\"again\":" + (again ? "1" : "0") + ",\"same\":" + same
				+ ",\"pkl\":" + std::to_string(in_pkl[id]) + ",\"hash\":" + (pkl_says[id].first == sha1_base64(c) ? "1" : "0") + ",\"size\":" + (pkl_says[id].second == std::to_string(c.size()) ? "1" : "0")
				+ ",\"path\":" + q(text(chunk, "Path")) + "}");
			in_pkl.erase(id);
		}
	}
	for (auto f: files_in(out)) {
		auto const name = f.filename().string();
		if (mapped.find(boost::filesystem::canonical(f).string()) == mapped.end() && name.compare(0, 8, "ASSETMAP") != 0 && name.compare(0, 8, "VOLINDEX") != 0) {
			strays.push_back(q(boost::filesystem::relative(f, out).generic_string()));
		}
	}
	j.n("maps", maps).n("packing", packing).n("signed", is_signed).n("said", said).n("unmapped", std::count_if(in_pkl.begin(), in_pkl.end(), [](std::pair<string, int> i) { return i.second > 0; }))
		.raw("listed", J::join(listed)).raw("found", J::join(found_cpls)).raw("strays", J::join(strays));

	/* and what the library makes of it */
	string again;
	int unresolved = 0;
	if (thrown.empty()) {
		try {
			dcp::DCP dcp(out);
			dcp.read();
			for (auto c: dcp.cpls()) {
				for (auto r: c->reel_file_assets()) {
					unresolved += r->asset_ref().resolved() ? 0 : 1;
				}
			}
		} catch (std::exception& e) {
			again = "error";
		}
	}
	j.w("again", again).n("unresolved", unresolved);
}

int main()
{
	dcp::init();
	std::unique_ptr<World> w;
	return main_loop(
		[&]() { w.reset(); w.reset(new World); },
		[&](string op, Args& a) {
			if (op == "standard") {
				auto const d = a.i();
				w->standards[d] = a.word();
			} else if (op == "asset") {
				auto const k = a.i();
				Part p;
				p.who = k;
				p.kind = a.word();
				p.dir = a.i();
				p.name = a.word();
				auto const frames = a.i(), enc = a.i(), fonts = a.i(), images = a.i();
				p.asset = make_asset(p.kind, w->dir(p.dir) / p.name, frames, k * 5, enc ? boost::optional<dcp::Key>(dcp::Key()) : boost::none, w->standard(p.dir), fonts, images);
				w->parts[k] = p;
			} else if (op == "copy") {
				auto const k = a.i();
				Part p = w->parts[a.i()];
				auto const from = *p.asset->file();
				p.dir = a.i();
				p.name = a.word();
				auto const to = w->dir(p.dir) / p.name;
				boost::filesystem::create_directories(to.parent_path());
				boost::filesystem::copy_file(from, to);
				if (p.kind == "mono") {
					p.asset = make_shared<dcp::MonoJ2KPictureAsset>(to);
				} else if (p.kind == "sound") {
					p.asset = make_shared<dcp::SoundAsset>(to);
				} else if (w->standards[p.dir] == "smpte") {
					p.asset = make_shared<dcp::SMPTETextAsset>(to);
				} else {
					vector<shared_ptr<dcp::Asset>> fonts;
					for (auto f: files_in(from.parent_path())) {
						if (f.extension() == ".ttf" || f.extension() == ".png") {
							boost::filesystem::copy_file(f, to.parent_path() / f.filename());
						}
						if (f.extension() == ".ttf") {
							fonts.push_back(make_shared<dcp::FontAsset>(dcp::make_uuid(), to.parent_path() / f.filename()));
						}
					}
					auto text = make_shared<dcp::InteropTextAsset>(to);
					text->resolve_fonts(fonts);
					p.asset = text;
				}
				w->parts[k] = p;
			} else if (op == "cpl") {
				auto const c = a.i(), d = a.i();
				w->cpls[c] = {d, make_shared<dcp::CPL>("Title " + std::to_string(c), dcp::ContentKind::FEATURE, w->standard(d)), {}, {}};
			} else if (op == "reel") {
				auto& c = w->cpls[a.i()];
				c.cpl->add(make_shared<dcp::Reel>());
				c.reels.push_back({});
				c.keys.push_back({});
			} else if (op == "use") {
				auto& c = w->cpls[a.i()];
				auto const k = a.i();
				c.cpl->reels().back()->add(reel_asset(w->parts[k].asset, a.word(), 24, 0));
				c.reels.back().push_back(w->parts[k].who);
				c.keys.back().push_back(k);
			} else if (op == "go") {
				auto const sign = a.i();
				vector<int> given;
				while (a.left()) {
					given.push_back(a.i());
				}
				J j("combine");
				go(j, *w, given, sign);
				j.out();
			} else {
				bad_script(op);
			}
		});
}
