/* Pictures and immersive audio: frames written (also over an interrupted file), read back, damaged, compared.
 *
 * make K mono|stereo|mpeg2|atmos smpte|interop NUM DEN ENC FIRST CHANNELS OBJECTS VERSION
 * start K OVER
 * write K CONTENT WIDTH HEIGHT SIZE VALID     (SIZE 0: a frame that can be decoded)
 * skip K
 * crash K
 * finalize K
 * read K
 * tamper K EDIT PLACE                         (frame, from 1; place in its bytes, in thousandths)
 * compare A B MEAN DEV KEEP                   (thousandths)
 * fault WHAT NTH ERRNO                        (the next call that does something fails)
 */
#include "world.h"
#include "atmos_asset_reader.h"
#include "equality_options.h"
#include "exceptions.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "mono_mpeg2_picture_asset.h"
#include "mono_mpeg2_picture_asset_reader.h"
#include "mono_mpeg2_picture_frame.h"
#include "mpeg2_picture_asset_writer.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_frame.h"
#include <asdcp/AS_DCP.h>
#include <cmath>

using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

struct Film
{
	string kind;
	bool smpte;
	dcp::Fraction rate;
	vector<int> params;
	string id, atmos_id, context_id;
	boost::optional<dcp::Key> key;
	string key_id;
	shared_ptr<dcp::Asset> asset;
	shared_ptr<dcp::J2KPictureAssetWriter> j2k;
	shared_ptr<dcp::MPEG2PictureAssetWriter> mpeg2;
	shared_ptr<dcp::AtmosAssetWriter> atmos;
	boost::filesystem::path path;
	vector<dcp::FrameInfo> infos;
	int index = 0;
};

static std::unique_ptr<world::Scratch> scratch;
static map<int, Film> films;
static map<string, int> contents;

static string fault_what;
static int fault_nth;
static string fault_errno, faulted;

static int fault(char const* what)
{
	if (fault_what == what && --fault_nth == 0) {
		faulted = fault_errno;
		return fault_errno == "ENOSPC" ? ENOSPC : fault_errno == "EDQUOT" ? EDQUOT : EIO;
	}
	return 0;
}

/* One that can be decoded; those with the same last digit differ little */
static string decodable(int c)
{
	static map<int, string> made;
	auto& d = made[c];
	if (d.empty()) {
		int const part = c / 10;
		auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(48, 32));
		for (int i = 0; i < 3; ++i) {
			for (int j = 0; j < 48 * 32; ++j) {
				image->data(i)[j] = ((c % 10) * 331 + j * (7 + i) + (part && j % part == 0 ? part : 0)) & 4095;
			}
		}
		auto const e = dcp::compress_j2k(image, 100000000, 24, false, false);
		d.assign(reinterpret_cast<char const*>(e.data()), e.size());
	}
	return d;
}

static string make_frame(string kind, int c, int width, int height, int size)
{
	string d;
	if (kind == "mpeg2") {
		d = string("\0\0\1\xb3", 4);
		d += static_cast<char>(width >> 4);
		d += static_cast<char>((width & 15) << 4 | height >> 8);
		d += static_cast<char>(height);
	} else if (kind == "atmos") {
		d = "atmos";
	} else {
		if (!size) {
			return decodable(c);
		}
		auto const f = world::j2k_frame(c, width, height, std::min(size, 120));
		d.assign(f.begin(), f.end());
		d.resize(d.size() - 2);
	}
	d += "frame " + std::to_string(c) + " ";
	for (int i = 0; i < size; ++i) {
		d += static_cast<char>(c * 31 + i * 7 + (i >> 4) * c);
	}
	return d;
}

static dcp::MXF* mxf(shared_ptr<dcp::Asset> a)
{
	return dynamic_cast<dcp::MXF*>(a.get());
}

static shared_ptr<dcp::Asset> blank(Film const& f)
{
	shared_ptr<dcp::Asset> a;
	auto const std = f.smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	if (f.kind == "mono") {
		a = make_shared<dcp::MonoJ2KPictureAsset>(f.rate, std);
	} else if (f.kind == "stereo") {
		a = make_shared<dcp::StereoJ2KPictureAsset>(f.rate, std);
	} else if (f.kind == "mpeg2") {
		a = make_shared<dcp::MonoMPEG2PictureAsset>(f.rate);
	} else {
		a = make_shared<dcp::AtmosAsset>(f.rate, f.params[0], f.params[1], f.params[2], f.params[3]);
	}
	dcp::MXFMetadata m;
	m.company_name = "company";
	m.product_name = "product";
	m.product_version = "version";
	mxf(a)->set_metadata(m);
	return a;
}

static shared_ptr<dcp::Asset> opened(Film const& f, boost::optional<dcp::Key> key)
{
	shared_ptr<dcp::Asset> a;
	if (f.kind == "mono") {
		a = make_shared<dcp::MonoJ2KPictureAsset>(f.path);
	} else if (f.kind == "stereo") {
		a = make_shared<dcp::StereoJ2KPictureAsset>(f.path);
	} else if (f.kind == "mpeg2") {
		a = make_shared<dcp::MonoMPEG2PictureAsset>(f.path);
	} else {
		a = make_shared<dcp::AtmosAsset>(f.path);
	}
	if (key) {
		mxf(a)->set_key(*key);
	}
	return a;
}

static int64_t duration(shared_ptr<dcp::Asset> a)
{
	if (auto p = dynamic_pointer_cast<dcp::PictureAsset>(a)) {
		return p->intrinsic_duration();
	}
	return dynamic_pointer_cast<dcp::AtmosAsset>(a)->intrinsic_duration();
}

/* The frames (one or two) of an edit unit */
typedef std::function<vector<string> (int)> Source;

template <class T> static string bytes(T const& f) { return string(reinterpret_cast<char const*>(f->data()), f->size()); }

static Source source(shared_ptr<dcp::Asset> a, bool check = true)
{
	if (auto m = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(a)) {
		auto r = m->start_read();
		r->set_check_hmac(check);
		return [m, r](int i) { return vector<string>{ bytes(r->get_frame(i)) }; };
	} else if (auto s = dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(a)) {
		auto r = s->start_read();
		r->set_check_hmac(check);
		return [s, r](int i) { auto f = r->get_frame(i); return vector<string>{ bytes(f->left()), bytes(f->right()) }; };
	} else if (auto s = dynamic_pointer_cast<dcp::MonoMPEG2PictureAsset>(a)) {
		auto r = s->start_read();
		r->set_check_hmac(check);
		return [s, r](int i) { return vector<string>{ bytes(r->get_frame(i)) }; };
	}
	auto t = dynamic_pointer_cast<dcp::AtmosAsset>(a);
	auto r = t->start_read();
	r->set_check_hmac(check);
	return [t, r](int i) { return vector<string>{ bytes(r->get_frame(i)) }; };
}

static string attempt(Film const& f, boost::optional<dcp::Key> key, vector<vector<string>> const& wanted, bool check = true)
{
	string result = "error";
	try {
		auto a = opened(f, key);
		auto s = source(a, check);
		for (int i = 0; i < duration(a) && i < int(wanted.size()); ++i) {
			try {
				auto got = s(i);
				for (size_t j = 0; j < got.size(); ++j) {
					if (got[j] == wanted[i][j]) {
						return "same";
					}
				}
				result = "differs";
			} catch (std::exception&) {
			}
		}
	} catch (std::exception&) {
	}
	return wanted.empty() ? "same" : result;
}

static string caught()
{
	try {
		throw;
	} catch (dcp::DiskFullError&) {
		return "full";
	} catch (std::exception&) {
		return "error";
	}
}

static void clear_fault()
{
	fault_what = "";
	faulted = "";
}

static vector<vector<string>> everything(shared_ptr<dcp::Asset> a)
{
	auto s = source(a);
	vector<vector<string>> all;
	for (int i = 0; i < duration(a); ++i) {
		all.push_back(s(i));
	}
	return all;
}

int main()
{
	dcp::init();
	shim_asdcp_fault = fault;
	return main_loop([]() {
		films.clear();
		contents.clear();
		clear_fault();
		scratch.reset(new world::Scratch);
	}, [](string op, Args& a) {
		if (op == "fault") {
			fault_what = a.word();
			fault_nth = a.i();
			fault_errno = a.word();
			return;
		}
		int const k = a.i();
		auto& f = films[k];
		if (op == "make") {
			f = Film();
			f.kind = a.word();
			f.smpte = a.word() == "smpte";
			int const num = a.i(), den = a.i();
			f.rate = dcp::Fraction(num, den);
			bool const enc = a.i();
			for (int i = 0; i < 4; ++i) {
				f.params.push_back(a.i());
			}
			if (enc) {
				f.key = dcp::Key();
				f.key_id = dcp::make_uuid();
			}
			f.context_id = dcp::make_uuid();
			f.path = scratch->path() / (std::to_string(k) + ".mxf");
			auto b = blank(f);
			f.id = b->id();
			if (auto t = dynamic_pointer_cast<dcp::AtmosAsset>(b)) {
				f.atmos_id = t->atmos_id();
			}
			f.asset = b;
			J("make").n("k", k).w("kind", f.kind).w("std", f.smpte ? "smpte" : "interop").n("num", num).n("den", den).b("enc", enc).ns("params", f.params).out();
		} else if (op == "start") {
			bool const over = a.i();
			string error;
			try {
				if (f.key) {
					mxf(f.asset)->set_key_id(f.key_id);
					mxf(f.asset)->set_key(*f.key);
					mxf(f.asset)->set_context_id(f.context_id);
				}
				f.index = 0;
				if (!over) {
					f.infos.clear();
				}
				auto const b = over ? dcp::Behaviour::OVERWRITE_EXISTING : dcp::Behaviour::MAKE_NEW;
				if (auto p = dynamic_pointer_cast<dcp::J2KPictureAsset>(f.asset)) {
					f.j2k = p->start_write(f.path, b);
				} else if (auto p = dynamic_pointer_cast<dcp::MPEG2PictureAsset>(f.asset)) {
					f.mpeg2 = p->start_write(f.path, b);
				} else {
					f.atmos = dynamic_pointer_cast<dcp::AtmosAsset>(f.asset)->start_write(f.path);
				}
			} catch (...) {
				error = caught();
			}
			J("start").n("k", k).b("over", over).w("error", error).out();
		} else if (op == "write") {
			int const c = a.i(), width = a.i(), height = a.i(), size = a.i();
			bool const valid = a.i();
			auto d = make_frame(f.kind, c, width, height, size);
			contents[d] = c;
			if (!valid) {
				d[size % 4] ^= 0x55;
			}
			string error;
			dcp::FrameInfo info;
			try {
				auto p = reinterpret_cast<uint8_t const*>(d.data());
				if (f.j2k) {
					info = f.j2k->write(p, d.size());
				} else if (f.mpeg2) {
					info = f.mpeg2->write(p, d.size());
				} else {
					f.atmos->write(p, d.size());
				}
			} catch (...) {
				error = caught();
			}
			J j("write");
			j.n("k", k).n("c", c).n("width", size ? width : 48).n("height", size ? height : 32).b("valid", valid).w("fault", faulted).b("opening", fault_what == "open").w("error", error);
			bool inside = false, plain = false;
			if (error.empty()) {
				if (int(f.infos.size()) <= f.index) {
					f.infos.resize(f.index + 1);
				}
				f.infos[f.index] = info;
				++f.index;
				auto const all = world::contents(f.path);
				if (info.offset + info.size <= all.size()) {
					auto const there = all.substr(info.offset, info.size);
					inside = f.key ? there.size() >= d.size() : there.find(d) != string::npos;
					plain = all.find(d.substr(0, 24)) != string::npos || all.find(d.substr(d.size() - 24)) != string::npos;
				}
			}
			j.n("off", info.offset).n("size", info.size).w("hash", info.hash).b("inside", inside).b("plain", plain).out();
			clear_fault();
		} else if (op == "skip") {
			string error;
			try {
				auto const& i = f.infos.at(f.index);
				f.j2k->fake_write(dcp::J2KFrameInfo(i.offset, i.size, i.hash));
				++f.index;
			} catch (...) {
				error = caught();
			}
			J("skip").n("k", k).w("fault", faulted).w("error", error).out();
			clear_fault();
		} else if (op == "crash") {
			/* the file stays as it is now, whatever the writer does when it goes */
			auto const keep = scratch->path() / "keep";
			bool const there = boost::filesystem::exists(f.path);
			if (there) {
				boost::filesystem::copy_file(f.path, keep, boost::filesystem::copy_option::overwrite_if_exists);
			}
			f.j2k.reset();
			f.mpeg2.reset();
			f.atmos.reset();
			if (there) {
				boost::filesystem::rename(keep, f.path);
			}
			J("crash").n("k", k).out();
		} else if (op == "finalize") {
			string error;
			bool made = false;
			try {
				made = f.j2k ? f.j2k->finalize() : f.mpeg2 ? f.mpeg2->finalize() : f.atmos->finalize();
			} catch (...) {
				error = caught();
			}
			J("finalize").n("k", k).w("fault", faulted).w("error", error).b("made", made).out();
			clear_fault();
			f.j2k.reset();
			f.mpeg2.reset();
			f.atmos.reset();
		} else if (op == "read") {
			try {
				auto as = opened(f, f.key);
				auto const all = everything(as);
				auto s = source(as);
				bool again = true;
				for (int i = int(all.size()) - 1; i >= 0; --i) {
					again = again && s(i) == all[i];
				}
				string beyond = "fine";
				try {
					s(all.size());
				} catch (std::exception&) {
					beyond = "error";
				}
				vector<int> fs;
				for (auto const& i: all) {
					for (auto const& x: i) {
						fs.push_back(contents.find(x) == contents.end() ? -1 : contents[x]);
					}
				}
				auto m = mxf(as);
				J j("read");
				j.n("k", k).w("error", "").ns("frames", fs).b("again", again).w("beyond", beyond).n("duration", duration(as)).n("mduration", duration(f.asset));
				j.w("std", m->standard() == dcp::Standard::SMPTE ? "smpte" : "interop").b("sameid", as->id() == f.id).b("enc", m->encrypted());
				j.b("meta", m->metadata().company_name == "company" && m->metadata().product_name == "product" && m->metadata().product_version == "version");
				j.b("samekeyid", f.key && m->key_id() && *m->key_id() == f.key_id);
				j.w("nokey", attempt(f, boost::none, all)).w("wrongkey", attempt(f, dcp::Key("0123456789abcdef0123456789abcdef"), all));
				if (auto t = dynamic_pointer_cast<dcp::AtmosAsset>(as)) {
					j.ns("params", vector<int>{ t->first_frame(), t->max_channel_count(), t->max_object_count(), t->atmos_version() }).b("sameatmos", t->atmos_id() == f.atmos_id);
					j.n("num", t->edit_rate().numerator).n("den", t->edit_rate().denominator);
				} else {
					auto p = dynamic_pointer_cast<dcp::PictureAsset>(as);
					auto q = dynamic_pointer_cast<dcp::PictureAsset>(f.asset);
					j.n("num", p->edit_rate().numerator).n("den", p->edit_rate().denominator);
					j.n("width", p->size().width).n("height", p->size().height).n("mwidth", q->size().width).n("mheight", q->size().height);
					j.n("fnum", p->frame_rate().numerator).n("fden", p->frame_rate().denominator).n("mfnum", q->frame_rate().numerator).n("mfden", q->frame_rate().denominator);
					j.n("anum", p->screen_aspect_ratio().numerator).n("aden", p->screen_aspect_ratio().denominator);
					j.n("manum", q->screen_aspect_ratio().numerator).n("maden", q->screen_aspect_ratio().denominator);
				}
				j.out();
			} catch (std::exception&) {
				J("read").n("k", k).w("error", "error").out();
			}
		} else if (op == "tamper") {
			int const edit = a.i(), place = a.i();
			auto const before = world::contents(f.path);
			try {
				auto const all = everything(opened(f, f.key));
				int const eyes = f.kind == "stereo" ? 2 : 1;
				/* somewhere in the frame itself: after what comes before it, before what comes after it */
				auto const& info = f.infos.at((edit - 1) * eyes);
				auto const at = info.offset + 32 + (info.size - 52 - 1) * place / 1000;
				auto damaged = before;
				damaged[at] ^= 1;
				std::ofstream(f.path.string().c_str(), std::ios::binary) << damaged;
				vector<string> results;
				auto s = source(opened(f, f.key));
				for (size_t i = 0; i < all.size(); ++i) {
					try {
						results.push_back(s(i) == all[i] ? "\"same\"" : "\"differs\"");
					} catch (std::exception&) {
						results.push_back("\"error\"");
					}
				}
				string unchecked = "error";
				try {
					auto t = source(opened(f, f.key), false);
					unchecked = t(edit - 1) == all[edit - 1] ? "same" : "differs";
				} catch (std::exception&) {
				}
				J("tamper").n("k", k).n("edit", edit).w("error", "").raw("results", J::join(results)).w("unchecked", unchecked).out();
			} catch (std::exception&) {
				J("tamper").n("k", k).n("edit", edit).w("error", "error").out();
			}
			std::ofstream(f.path.string().c_str(), std::ios::binary) << before;
		} else if (op == "compare") {
			int const l = a.i(), mean = a.i(), dev = a.i();
			bool const keep = a.i();
			auto const& g = films[l];
			string error;
			bool same = false;
			int errors = 0;
			vector<string> diffs;
			try {
				auto x = opened(f, f.key), y = opened(g, g.key);
				dcp::EqualityOptions opt;
				opt.max_mean_pixel_error = mean / 1000.0;
				opt.max_std_dev_pixel_error = dev / 1000.0;
				opt.keep_going = keep;
				same = x->equals(y, opt, [&errors](dcp::NoteType t, string) {
					if (t == dcp::NoteType::ERROR) {
						++errors;
					}
				});
				auto const xs = everything(x), ys = everything(y);
				for (size_t i = 0; i < std::min(xs.size(), ys.size()); ++i) {
					for (size_t j = 0; j < std::min(xs[i].size(), ys[i].size()); ++j) {
						bool const identical = xs[i][j] == ys[i][j];
						double m = 0, v = 0;
						if (!identical) {
							auto p = dcp::decompress_j2k(dcp::ArrayData(reinterpret_cast<uint8_t const*>(xs[i][j].data()), xs[i][j].size()), 0);
							auto q = dcp::decompress_j2k(dcp::ArrayData(reinterpret_cast<uint8_t const*>(ys[i][j].data()), ys[i][j].size()), 0);
							int const n = p->size().width * p->size().height;
							for (int c = 0; c < 3; ++c) {
								for (int o = 0; o < n; ++o) {
									m += abs(p->data(c)[o] - q->data(c)[o]);
								}
							}
							m /= 3 * n;
							for (int c = 0; c < 3; ++c) {
								for (int o = 0; o < n; ++o) {
									v += pow(abs(p->data(c)[o] - q->data(c)[o]) - m, 2);
								}
							}
							v = sqrt(v / (3 * n));
						}
						diffs.push_back("{\"identical\":" + string(identical ? "1" : "0") + ",\"mean\":" + std::to_string(int(m * 1000)) + ",\"dev\":" + std::to_string(int(v * 1000)) + "}");
					}
				}
			} catch (std::exception& e) {
				error = "error";
			}
			J("compare").n("a", k).n("b", l).n("mean", mean).n("dev", dev).b("keep", keep).b("same", same).n("errors", errors).raw("diffs", J::join(diffs)).w("error", error).out();
		} else {
			bad_script(op);
		}
	});
}
