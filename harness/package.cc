/* Drives whole packages: makes assets, puts them into reels and compositions, writes packages, reads them back.
 * What is on the disk is reported without the library's help */
#include "world.h"
#include "xmlview.h"
#include "equality_options.h"
#include "exceptions.h"
#include "filesystem.h"
#include "name_format.h"
#include "reel_text_asset.h"
#include "search.h"
#include "verify.h"

using namespace world;
using namespace xmlview;
using std::string;
using std::vector;
using std::shared_ptr;
using std::dynamic_pointer_cast;

static string reel_refs(xmlpp::Element* root)
{
	vector<string> reels;
	for (auto r: elements(only(root, "ReelList"), "Reel")) {
		vector<string> refs;
		for (auto a: elements(only(r, "AssetList"))) {
			auto const name = string(a->get_name());
			if (name == "MainMarkers" || name == "CompositionMetadataAsset") {
				continue;
			}
			refs.push_back("{\"node\":" + q(name) + ",\"id\":" + q(bare(text(a, "Id"))) + ",\"hash\":" + q(text(a, "Hash")) + ",\"key\":" + q(bare(text(a, "KeyId"))) + "}");
		}
		reels.push_back(J::join(refs));
	}
	return J::join(reels);
}

/** Everything in a directory */
static void report_disk(J& j, Path dir)
{
	vector<string> files, pkls, cpls, maps;
	vector<Path> all;
	for (boost::filesystem::recursive_directory_iterator i(dir), e; i != e; ++i) {
		if (boost::filesystem::is_regular_file(i->path())) {
			all.push_back(i->path());
		}
	}
	std::sort(all.begin(), all.end());
	for (auto p: all) {
		auto const name = boost::filesystem::relative(p, dir).generic_string();
		auto const c = contents(p);
		files.push_back("{\"name\":" + q(name) + ",\"base\":" + q(p.filename().string()) + ",\"size\":" + std::to_string(c.size()) + ",\"sha\":" + q(sha1_base64(c)) + "}");
		if (c.compare(0, 5, "<?xml") != 0) {
			continue;
		}
		xmlpp::DomParser parser;
		parser.parse_memory(c);
		auto root = parser.get_document()->get_root_node();
		auto const ns = string(root->get_namespace_uri());
		if (root->get_name() == "AssetMap") {
			vector<string> entries;
			for (auto a: elements(only(root, "AssetList"), "Asset")) {
				auto const chunks = elements(only(a, "ChunkList"), "Chunk");
				auto const chunk = chunks.empty() ? nullptr : chunks[0];
				entries.push_back("{\"id\":" + q(bare(text(a, "Id"))) + ",\"pkl\":" + (only(a, "PackingList") ? "1" : "0") + ",\"chunks\":" + std::to_string(chunks.size())
					+ ",\"path\":" + q(chunk ? text(chunk, "Path") : "") + ",\"length\":" + q(chunk ? text(chunk, "Length") : "")
					+ ",\"offset\":" + q(chunk ? text(chunk, "Offset") : "") + ",\"volume\":" + q(chunk ? text(chunk, "VolumeIndex") : "") + "}");
			}
			maps.push_back("{\"file\":" + q(name) + ",\"ns\":" + q(ns) + ",\"id\":" + q(bare(text(root, "Id"))) + ",\"issuer\":" + q(text(root, "Issuer")) + ",\"creator\":" + q(text(root, "Creator"))
				+ ",\"annotation\":" + q(text(root, "AnnotationText")) + ",\"entries\":" + J::join(entries) + "}");
		} else if (root->get_name() == "PackingList") {
			vector<string> entries;
			for (auto a: elements(only(root, "AssetList"), "Asset")) {
				entries.push_back("{\"id\":" + q(bare(text(a, "Id"))) + ",\"hash\":" + q(text(a, "Hash")) + ",\"size\":" + q(text(a, "Size")) + ",\"type\":" + q(text(a, "Type"))
					+ ",\"original\":" + q(text(a, "OriginalFileName")) + "}");
			}
			pkls.push_back("{\"file\":" + q(name) + ",\"ns\":" + q(ns) + ",\"id\":" + q(bare(text(root, "Id"))) + ",\"issuer\":" + q(text(root, "Issuer")) + ",\"creator\":" + q(text(root, "Creator"))
				+ ",\"annotation\":" + q(text(root, "AnnotationText")) + ",\"entries\":" + J::join(entries) + "}");
		} else if (root->get_name() == "CompositionPlaylist") {
			cpls.push_back("{\"file\":" + q(name) + ",\"ns\":" + q(ns) + ",\"id\":" + q(bare(text(root, "Id"))) + ",\"reels\":" + reel_refs(root) + "}");
		}
	}
	j.raw("files", J::join(files)).raw("maps", J::join(maps)).raw("pkls", J::join(pkls)).raw("cpls", J::join(cpls));
}

static string role_of(shared_ptr<dcp::ReelFileAsset> a)
{
	if (dynamic_pointer_cast<dcp::ReelPictureAsset>(a)) {
		return "picture";
	} else if (dynamic_pointer_cast<dcp::ReelSoundAsset>(a)) {
		return "sound";
	} else if (dynamic_pointer_cast<dcp::ReelAtmosAsset>(a)) {
		return "atmos";
	} else if (auto t = dynamic_pointer_cast<dcp::ReelTextAsset>(a)) {
		switch (t->type()) {
		case dcp::TextType::OPEN_SUBTITLE: return "subtitle";
		case dcp::TextType::OPEN_CAPTION: return "caption";
		case dcp::TextType::CLOSED_SUBTITLE: return "csub";
		case dcp::TextType::CLOSED_CAPTION: return "ccap";
		}
	}
	return "?";
}

/** What the library says about some compositions; file: relative to base */
static string view(vector<shared_ptr<dcp::CPL>> cpls, Path base)
{
	vector<string> out;
	for (auto c: cpls) {
		vector<string> reels;
		for (auto r: c->reels()) {
			vector<string> parts;
			for (auto a: r->file_assets()) {
				auto const resolved = a->asset_ref().resolved();
				string file;
				if (resolved && a->asset_ref()->file()) {
					file = boost::filesystem::relative(boost::filesystem::canonical(*a->asset_ref()->file()), base).generic_string();
				}
				parts.push_back("{\"role\":" + q(role_of(a)) + ",\"id\":" + q(a->asset_ref().id()) + ",\"resolved\":" + (resolved ? "1" : "0") + ",\"file\":" + q(file)
					+ ",\"hash\":" + q(a->hash().get_value_or("")) + ",\"ahash\":" + q(resolved ? a->asset_ref()->hash() : "") + ",\"enc\":" + (a->encrypted() ? "1" : "0") + "}");
			}
			reels.push_back(J::join(parts));
		}
		out.push_back("{\"id\":" + q(c->id()) + ",\"reels\":" + J::join(reels) + ",\"anyenc\":" + (c->any_encrypted() ? "1" : "0") + ",\"allenc\":" + (c->all_encrypted() ? "1" : "0") + "}");
	}
	return J::join(out);
}

struct World
{
	Scratch scratch;
	dcp::Standard standard = dcp::Standard::SMPTE;
	std::map<int, shared_ptr<dcp::Asset>> assets;
	std::map<int, shared_ptr<dcp::CPL>> cpls;
	std::map<int, shared_ptr<dcp::DCP>> dcps;
	Path dir(int d) const { return scratch.path() / ("d" + std::to_string(d)); }
};

static void report_asset(J& j, World& w, shared_ptr<dcp::Asset> a, int d)
{
	vector<string> subs;
	if (auto t = dynamic_pointer_cast<dcp::InteropTextAsset>(a)) {
		for (auto f: t->font_assets()) {
			subs.push_back("{\"id\":" + q(f->id()) + ",\"kind\":\"font\",\"file\":" + q(boost::filesystem::relative(*f->file(), w.dir(d)).generic_string()) + "}");
		}
		for (auto i: t->texts()) {
			if (auto m = dynamic_pointer_cast<const dcp::TextImage>(i)) {
				subs.push_back("{\"id\":" + q(m->id()) + ",\"kind\":\"image\",\"file\":" + q(boost::filesystem::relative(*m->file(), w.dir(d)).generic_string()) + "}");
			}
		}
	}
	j.w("id", a->id()).raw("file", q(boost::filesystem::relative(*a->file(), w.dir(d)).generic_string())).w("sha", sha1_base64(contents(*a->file()))).raw("subs", J::join(subs));
}

int main()
{
	dcp::init();
	std::unique_ptr<World> w;
	return main_loop(
		[&]() { w.reset(); w.reset(new World); },
		[&](string op, Args& a) {
			J j(op);
			auto const key = dcp::Key();
			try {
				if (op == "standard") {
					auto const s = a.word();
					w->standard = s == "smpte" ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
					j.w("standard", s);
				} else if (op == "asset") {
					auto const k = a.i();
					auto const kind = a.word();
					auto const d = a.i();
					auto const name = a.text();
					auto const frames = a.i(), enc = a.i(), fonts = a.i(), images = a.i();
					auto x = make_asset(kind, w->dir(d) / name, frames, k * 5, enc ? boost::optional<dcp::Key>(key) : boost::none, w->standard, fonts, images);
					w->assets[k] = x;
					j.n("a", k).w("kind", kind).n("dir", d).n("frames", frames).n("enc", enc);
					report_asset(j, *w, x, d);
				} else if (op == "rewrite") {
					/* change a text asset and write it again, to the same place */
					auto const k = a.i(), d = a.i();
					auto x = w->assets[k];
					if (auto t = dynamic_pointer_cast<dcp::TextAsset>(x)) {
						t->hash();
						t->add(text_string("More words " + std::to_string(a.i()), 10, 12));
						t->write(*t->file());
					}
					j.n("a", k).n("dir", d);
					report_asset(j, *w, x, d);
				} else if (op == "move") {
					auto const k = a.i(), d = a.i();
					auto const to = w->dir(d) / a.text();
					boost::filesystem::create_directories(to.parent_path());
					boost::filesystem::rename(*w->assets[k]->file(), to);
					w->assets[k]->rename_file(to);
					j.n("a", k).n("dir", d);
					report_asset(j, *w, w->assets[k], d);
				} else if (op == "cpl") {
					auto const k = a.i();
					w->cpls[k] = std::make_shared<dcp::CPL>("Title", dcp::ContentKind::FEATURE, w->standard);
					j.n("k", k).w("id", w->cpls[k]->id());
				} else if (op == "reel") {
					auto const k = a.i();
					w->cpls[k]->add(std::make_shared<dcp::Reel>());
					j.n("k", k);
				} else if (op == "use") {
					auto const k = a.i(), r = a.i(), x = a.i();
					auto const role = a.word();
					w->cpls[k]->reels()[r - 1]->add(reel_asset(w->assets[x], role, 24, 0));
					j.n("k", k).n("r", r).n("a", x).w("role", role);
				} else if (op == "add") {
					auto const d = a.i(), k = a.i();
					if (!w->dcps[d]) {
						w->dcps[d] = std::make_shared<dcp::DCP>(w->dir(d));
					}
					w->dcps[d]->add(w->cpls[k]);
					j.n("d", d).n("k", k);
				} else if (op == "who") {
					auto const d = a.i();
					auto const issuer = a.word(), creator = a.word(), annotation = a.word();
					w->dcps[d]->set_issuer(issuer);
					w->dcps[d]->set_creator(creator);
					w->dcps[d]->set_annotation_text(annotation);
					j.n("d", d).w("issuer", issuer).w("creator", creator).w("annotation", annotation);
				} else if (op == "write") {
					auto const d = a.i(), original = a.i();
					w->dcps[d]->write_xml({}, original ? dcp::Filenames::ORIGINAL : dcp::Filenames::NEW);
					j.n("d", d).n("original", original);
					report_disk(j, w->dir(d));
				} else if (op == "read") {
					/* replace: carry on with the package as read */
					auto const d = a.i(), replace = a.i();
					auto x = std::make_shared<dcp::DCP>(w->dir(d));
					vector<dcp::VerificationNote> notes;
					x->read(&notes);
					vector<string> codes;
					for (auto n: notes) {
						codes.push_back(n.code() == dcp::VerificationNote::Code::EXTERNAL_ASSET ? "\"external\"" : "\"other\"");
					}
					auto y = std::make_shared<dcp::DCP>(w->dir(d));
					y->read();
					auto const equal = x->equals(*y, dcp::EqualityOptions(), [](dcp::NoteType, string) {});
					vector<string> summaries;
					for (auto s: x->cpl_summaries()) {
						summaries.push_back("{\"id\":" + q(s.cpl_id) + ",\"enc\":" + (s.encrypted ? "1" : "0") + "}");
					}
					if (replace) {
						w->dcps[d] = x;
					}
					vector<string> files;
					for (auto m: x->assets(true)) {
						files.push_back(q(m->id()));
					}
					j.n("d", d).n("replace", replace).raw("notes", J::join(codes)).b("equal", equal).raw("cpls", view(x->cpls(), w->scratch.path())).raw("summaries", J::join(summaries))
						.raw("assets", J::join(files)).b("anyenc", x->any_encrypted()).b("allenc", x->all_encrypted());
				} else if (op == "find") {
					vector<int> ds;
					vector<Path> dirs;
					while (a.left()) {
						ds.push_back(a.i());
						dirs.push_back(w->dir(ds.back()));
					}
					auto const c = dcp::find_and_resolve_cpls(dirs, false);
					j.ns("ds", ds).raw("cpls", view(c, w->scratch.path()));
				} else if (op == "spoil") {
					/* damage a file as a disk would: one byte */
					auto const d = a.i();
					auto const p = w->dir(d) / a.text();
					auto c = contents(p);
					c[c.size() / 2] ^= 1;
					std::ofstream(p.string().c_str(), std::ios::binary) << c;
					j.n("d", d);
				} else {
					bad_script(op);
				}
				j.w("error", "");
			} catch (std::exception& e) {
				j.raw("error", q(string(e.what()).substr(0, 200)));
			}
			j.out();
		});
}
