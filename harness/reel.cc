/* Drives reels: parts of every kind, keys and assets given to them in any order, comparisons of reels that differ in
 * one part */
#include "world.h"
#include "asset_factory.h"
#include "decrypted_kdm.h"
#include "equality_options.h"
#include "exceptions.h"
#include "local_time.h"
#include "util.h"

using namespace world;
using std::string;
using std::vector;
using std::map;
using std::shared_ptr;
using std::dynamic_pointer_cast;

struct Content
{
	string kind;
	int frames;
	int salt;
	boost::optional<dcp::Key> key;
	shared_ptr<dcp::Asset> asset;
	/* the same with other words or pictures */
	shared_ptr<dcp::Asset> other;
};

struct Use
{
	string role;
	int content;
	int duration;
	int entry;
	bool stated;
};

static std::unique_ptr<Scratch> scratch;
static map<int, Content> contents_;
static vector<Use> uses;
static dcp::Standard standard;
static shared_ptr<dcp::CPL> cpl;
static shared_ptr<dcp::Reel> reel;

static void reset()
{
	reel.reset();
	cpl.reset();
	uses.clear();
	contents_.clear();
	scratch.reset(new Scratch);
	standard = dcp::Standard::SMPTE;
}

static shared_ptr<dcp::ReelAsset> part(Use const& u)
{
	shared_ptr<dcp::ReelAsset> a;
	if (u.role == "markers") {
		auto m = std::make_shared<dcp::ReelMarkersAsset>(dcp::Fraction(24, 1), u.duration + u.entry);
		m->set(dcp::Marker::FFOC, dcp::Time(0, 0, 0, 1, 24));
		a = m;
		a->set_entry_point(u.entry);
	} else {
		a = reel_asset(contents_[u.content].asset, u.role, u.duration + u.entry, u.entry);
	}
	if (u.stated) {
		a->set_duration(u.duration);
	}
	return a;
}

static dcp::DecryptedKDM kdm()
{
	return dcp::DecryptedKDM(dcp::LocalTime(), dcp::LocalTime(), "", "", "");
}


/** All there is to see of the reel */
static void look(J& j)
{
	vector<string> p;
	for (auto a: reel->file_assets()) {
		int content = 0;
		for (auto const& c: contents_) {
			if (c.second.asset->id() == a->asset_ref().id()) {
				content = c.first;
			}
		}
		auto const resolved = a->asset_ref().resolved();
		bool right_key = false;
		bool any_key = false;
		bool words = true;
		bool readable = false;
		if (resolved) {
			readable = a->can_be_read();
			if (auto m = dynamic_pointer_cast<dcp::MXF>(a->asset_ref().asset())) {
				any_key = static_cast<bool>(m->key());
				right_key = any_key && contents_[content].key && *m->key() == *contents_[content].key;
			}
			if (auto t = dynamic_pointer_cast<dcp::TextAsset>(a->asset_ref().asset())) {
				words = t->texts().size() == 1;
			}
		}
		p.push_back("{\"c\":" + std::to_string(content) + ",\"resolved\":" + std::to_string(resolved) + ",\"enc\":" + std::to_string(a->encrypted())
			    + ",\"key\":" + std::to_string(right_key) + ",\"anykey\":" + std::to_string(any_key) + ",\"words\":" + std::to_string(words)
			    + ",\"readable\":" + std::to_string(readable) + "}");
	}
	j.b("any", reel->any_encrypted()).b("all", reel->all_encrypted()).n("duration", reel->duration()).b("readable", reel->can_be_read()).raw("parts", J::join(p));
	j.b("cany", cpl->any_encrypted()).b("call", cpl->all_encrypted()).b("creadable", cpl->can_be_read()).n("cduration", cpl->reels().front()->duration());
}

/** Make one aspect of a part different */
static shared_ptr<dcp::ReelAsset> vary(Use const& u, string variation, dcp::EqualityOptions& options)
{
	auto a = part(u);
	auto file = dynamic_pointer_cast<dcp::ReelFileAsset>(a);
	if (variation == "annotation" || variation == "annotation-allowed") {
		a->set_annotation_text("Something else");
	} else if (variation == "duration") {
		a->set_duration(u.duration + 1);
	} else if (variation == "entry") {
		a->set_entry_point(u.entry + 1);
	} else if (variation == "hash" || variation == "hash-allowed") {
		file->set_hash("c29tZXRoaW5nIGVsc2UgYWdhaW4h");
	} else if (variation == "content") {
		auto& c = contents_[u.content];
		if (!c.other) {
			c.other = make_asset(c.kind, scratch->path() / "other" / (std::to_string(u.content) + ".mxf"), c.frames, c.salt + 5, c.key, standard, 0, 0, "", true);
		}
		auto const hash = file->hash();
		auto v = reel_asset(c.other, u.role, u.duration + u.entry, u.entry);
		if (hash) {
			v->set_hash(*hash);
		}
		if (u.stated) {
			v->set_duration(u.duration);
		}
		a = v;
	} else if (variation == "marker") {
		auto m = dynamic_pointer_cast<dcp::ReelMarkersAsset>(a);
		m->set(dcp::Marker::FFOC, dcp::Time(0, 0, 0, 2, 24));
	} else if (variation != "same") {
		bad_script("variation " + variation);
	}
	if (variation == "annotation-allowed") {
		options.reel_annotation_texts_can_differ = true;
	} else if (variation == "hash-allowed") {
		options.reel_hashes_can_differ = true;
	}
	return a;
}

static void handle(string op, Args& args)
{
	J j(op);
	auto guarded = [&j](std::function<void ()> f) {
		string error;
		try {
			f();
		} catch (std::exception& e) {
			error = typeid(e).name();
		}
		j.w("error", error);
	};

	if (op == "standard") {
		auto const s = args.word();
		standard = s == "interop" ? dcp::Standard::INTEROP : dcp::Standard::SMPTE;
		j.w("standard", s);
	} else if (op == "content") {
		auto const k = args.i();
		Content c;
		c.kind = args.word();
		c.frames = args.i();
		c.salt = k;
		if (args.i()) {
			c.key = dcp::Key();
		}
		guarded([&]() {
			c.asset = make_asset(c.kind, scratch->path() / (std::to_string(k) + (c.kind == "text" && standard == dcp::Standard::INTEROP ? ".xml" : ".mxf")), c.frames, c.salt, c.key, standard, 0, 0, "", true);
			contents_[k] = c;
		});
		j.n("k", k).b("enc", static_cast<bool>(c.key)).w("kind", c.kind);
	} else if (op == "use") {
		Use u;
		u.role = args.word();
		u.content = args.i();
		u.duration = args.i();
		u.entry = args.i();
		u.stated = args.i();
		uses.push_back(u);
		j.w("role", u.role).n("c", u.content).n("duration", u.duration);
	} else if (op == "fresh") {
		/* a reel that comes from a file, so knows none of its assets */
		guarded([&]() {
			auto c = std::make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, standard);
			auto r = std::make_shared<dcp::Reel>();
			for (auto const& u: uses) {
				r->add(part(u));
			}
			c->add(r);
			auto const file = scratch->path() / "cpl.xml";
			c->write_xml(file, {});
			cpl = std::make_shared<dcp::CPL>(file);
			reel = cpl->reels().front();
			look(j);
		});
	} else if (op == "give") {
		/* keys in one message: for the contents named; 0 is a key that nobody knows of, -k a wrong key for k */
		vector<int> ks;
		while (args.left()) {
			ks.push_back(args.i());
		}
		guarded([&]() {
			auto m = kdm();
			for (auto k: ks) {
				if (k == 0) {
					m.add_key(string("MDIK"), dcp::make_uuid(), dcp::Key(), cpl->id(), standard);
				} else {
					auto mxf = dynamic_pointer_cast<dcp::MXF>(contents_[abs(k)].asset);
					m.add_key(string("MDIK"), *mxf->key_id(), k < 0 ? dcp::Key() : *contents_[k].key, cpl->id(), standard);
				}
			}
			reel->add(m);
			look(j);
		});
		j.ns("ks", ks);
	} else if (op == "resolve") {
		vector<int> ks;
		while (args.left()) {
			ks.push_back(args.i());
		}
		guarded([&]() {
			vector<shared_ptr<dcp::Asset>> found;
			for (auto k: ks) {
				auto const file = *contents_[k].asset->file();
				if (file.extension() == ".xml") {
					found.push_back(std::make_shared<dcp::InteropTextAsset>(file));
				} else {
					found.push_back(dcp::asset_factory(file, false));
				}
			}
			reel->resolve_refs(found);
			look(j);
		});
		j.ns("ks", ks);
	} else if (op == "compare") {
		/* one variation for each use */
		vector<string> v;
		while (args.left()) {
			v.push_back(args.word());
		}
		bool ab = false, ba = false;
		guarded([&]() {
			dcp::EqualityOptions options;
			auto a = std::make_shared<dcp::Reel>();
			auto b = std::make_shared<dcp::Reel>();
			for (size_t i = 0; i < v.size(); ++i) {
				a->add(part(uses[i]));
				if (v[i] != "absent") {
					b->add(vary(uses[i], v[i], options));
				}
			}
			auto quiet = [](dcp::NoteType, string) {};
			ab = a->equals(b, options, quiet);
			ba = b->equals(a, options, quiet);
		});
		vector<string> w;
		for (auto i: v) {
			w.push_back("\"" + i + "\"");
		}
		j.raw("v", J::join(w)).b("ab", ab).b("ba", ba);
	} else {
		bad_script(op);
	}
	j.out();
}

int main()
{
	dcp::init();
	return main_loop(reset, handle);
}
