/* Sound track files: written in calls of any length, read back, compared.
 *
 * new K NUM DEN SAMPLING CHANNELS smpte|interop LANG ENC SYNC MCA EXTRA...
 * write K i|f CHANNELS VALUE...          (row by row; with f a value is VALUE / 2^24)
 * tone K N                               (N rows with the number of the channel, from 1, in every channel)
 * finalize K
 * read K
 * sync K                                 (channel 14 in full, the others by runs)
 * foreign K NUM DEN SAMPLING CHANNELS BITS VALUE...   (not written by the library)
 * compare A B TOLERANCE ALLOW
 * fault open|frame|finalize NTH ERRNO    (the NTH from now fails)
 */
#include "world.h"
#include "equality_options.h"
#include "exceptions.h"
#include "sound_asset_reader.h"
#include <asdcp/AS_DCP.h>

using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

struct Sound
{
	shared_ptr<dcp::SoundAsset> asset;
	shared_ptr<dcp::SoundAssetWriter> writer;
	boost::filesystem::path path;
	boost::optional<dcp::Key> key;
	string id;
};

static std::unique_ptr<world::Scratch> scratch;
static map<int, Sound> sounds;

static string label(ASDCP::UL const& ul)
{
	using namespace ASDCP;
	static vector<std::pair<MDD_t, char const*>> const names = {
		{ MDD_DCAudioSoundfield_51, "sg51" }, { MDD_DCAudioSoundfield_71, "sg71" },
		{ MDD_DCAudioChannel_L, "chL" }, { MDD_DCAudioChannel_R, "chR" }, { MDD_DCAudioChannel_C, "chC" }, { MDD_DCAudioChannel_LFE, "chLFE" },
		{ MDD_DCAudioChannel_Ls, "chLs" }, { MDD_DCAudioChannel_Rs, "chRs" }, { MDD_DCAudioChannel_Lss, "chLss" }, { MDD_DCAudioChannel_Rss, "chRss" },
		{ MDD_DCAudioChannel_Lrs, "chLrs" }, { MDD_DCAudioChannel_Rrs, "chRrs" }, { MDD_DCAudioChannel_HI, "chHI" }, { MDD_DCAudioChannel_VIN, "chVIN" }
	};
	for (auto const& i: names) {
		if (DefaultSMPTEDict().ul(i.first) == ul) {
			return i.second;
		}
	}
	return "other";
}

static string frames(shared_ptr<dcp::SoundAsset> a)
{
	auto r = a->start_read();
	vector<string> out;
	for (int i = 0; i < a->intrinsic_duration(); ++i) {
		auto f = r->get_frame(i);
		vector<string> rows;
		for (int s = 0; s < f->samples(); ++s) {
			vector<int> row;
			for (int c = 0; c < f->channels(); ++c) {
				row.push_back(f->get(c, s));
			}
			rows.push_back(J::list(row));
		}
		out.push_back(J::join(rows));
	}
	return J::join(out);
}

/* What every frame holds, byte for byte */
static vector<string> raw(shared_ptr<dcp::SoundAsset> a)
{
	auto r = a->start_read();
	vector<string> out;
	for (int i = 0; i < a->intrinsic_duration(); ++i) {
		auto f = r->get_frame(i);
		out.push_back(string(reinterpret_cast<char const*>(f->data()), f->size()));
	}
	return out;
}

static string attempt(boost::filesystem::path path, boost::optional<dcp::Key> key, vector<string> const& wanted)
{
	try {
		auto a = make_shared<dcp::SoundAsset>(path);
		if (key) {
			a->set_key(*key);
		}
		auto const got = raw(a);
		for (size_t i = 0; i < got.size() && i < wanted.size(); ++i) {
			if (got[i] == wanted[i]) {
				return "same";
			}
		}
		return wanted.empty() ? "same" : "differs";
	} catch (std::exception&) {
		return "error";
	}
}

static shared_ptr<dcp::SoundAsset> open(Sound const& s)
{
	auto a = make_shared<dcp::SoundAsset>(s.path);
	if (s.key) {
		a->set_key(*s.key);
	}
	return a;
}

static void read(int k)
{
	auto const& s = sounds[k];
	J j("read");
	j.n("k", k);
	try {
		auto a = open(s);
		J out("read");
		out.n("k", k).w("error", "");
		out.n("num", a->edit_rate().numerator).n("den", a->edit_rate().denominator).n("sampling", a->sampling_rate()).n("channels", a->channels());
		out.n("bits", a->bit_depth()).n("duration", a->intrinsic_duration()).b("sameid", a->id() == s.id);
		out.w("std", a->standard() == dcp::Standard::SMPTE ? "smpte" : "interop").b("enc", a->encrypted()).n("active", a->active_channels());
		out.w("lang", a->language().get_value_or(""));
		out.raw("frames", frames(a));
		auto const all = raw(a);
		out.w("nokey", attempt(s.path, boost::none, all));
		out.w("wrongkey", attempt(s.path, dcp::Key("0123456789abcdef0123456789abcdef"), all));
		ASDCP::PCM::MXFReader reader{Kumu::FileReaderFactory()};
		reader.OpenRead(s.path.string());
		string field, fieldlang;
		vector<string> labels;
		ASDCP::MXF::SoundfieldGroupLabelSubDescriptor* group = nullptr;
		for (auto o: reader.OP1aHeader().objects) {
			if (auto g = dynamic_cast<ASDCP::MXF::SoundfieldGroupLabelSubDescriptor*>(o)) {
				group = g;
				field = g->MCATagSymbol == label(g->MCALabelDictionaryID) ? g->MCATagSymbol : "?";
				fieldlang = g->RFC5646SpokenLanguage.get();
			}
		}
		for (auto o: reader.OP1aHeader().objects) {
			if (auto c = dynamic_cast<ASDCP::MXF::AudioChannelLabelSubDescriptor*>(o)) {
				labels.push_back(
					"{\"channel\":" + std::to_string(c->MCAChannelID.get()) +
					",\"symbol\":\"" + c->MCATagSymbol + "\",\"ul\":\"" + label(c->MCALabelDictionaryID) + "\",\"name\":\"" + c->MCATagName.get() +
					"\",\"lang\":\"" + c->RFC5646SpokenLanguage.get() + "\",\"group\":" + (group && c->SoundfieldGroupLinkID.get() == group->MCALinkID ? "1" : "0") + "}"
					);
			}
		}
		out.w("field", field).w("fieldlang", fieldlang).raw("labels", J::join(labels));
		out.out();
	} catch (std::exception& e) {
		j.w("error", "error").out();
	}
}

static void sync(int k)
{
	auto const& s = sounds[k];
	try {
		auto a = open(s);
		auto r = a->start_read();
		vector<string> tone;
		vector<vector<string>> others(a->channels());
		for (int i = 0; i < a->intrinsic_duration(); ++i) {
			auto f = r->get_frame(i);
			for (int c = 0; c < f->channels(); ++c) {
				vector<int> all;
				for (int j = 0; j < f->samples(); ++j) {
					all.push_back(f->get(c, j));
				}
				if (c == 13) {
					tone.push_back(J::list(all));
					others[c].push_back("[]");
					continue;
				}
				vector<string> runs;
				for (size_t j = 0; j < all.size();) {
					size_t m = j;
					while (m < all.size() && all[m] == all[j]) {
						++m;
					}
					runs.push_back(J::list(vector<int>{ all[j], static_cast<int>(m - j) }));
					j = m;
				}
				others[c].push_back(J::join(runs));
			}
		}
		vector<string> o;
		for (auto const& i: others) {
			o.push_back(J::join(i));
		}
		J("sync").n("k", k).w("error", "").n("duration", a->intrinsic_duration()).raw("tone", J::join(tone)).raw("others", J::join(o)).out();
	} catch (std::exception&) {
		J("sync").n("k", k).w("error", "error").out();
	}
}

static string fault_what, fault_errno, faulted;
static int fault_nth;

static int fault(char const* what)
{
	if (fault_what == what && --fault_nth == 0) {
		faulted = fault_errno;
		return fault_errno == "ENOSPC" ? ENOSPC : fault_errno == "EDQUOT" ? EDQUOT : EIO;
	}
	return 0;
}

static string caught()
{
	try {
		throw;
	} catch (dcp::DiskFullError&) {
		return "full";
	} catch (std::exception&) {
		return "error";
	}
}

int main()
{
	dcp::init();
	shim_asdcp_fault = fault;
	return main_loop([]() {
		sounds.clear();
		fault_what = faulted = "";
		scratch.reset(new world::Scratch);
	}, [](string op, Args& a) {
		if (op == "fault") {
			fault_what = a.word();
			fault_nth = a.i();
			fault_errno = a.word();
		} else if (op == "new") {
			int const k = a.i();
			int const num = a.i(), den = a.i(), sampling = a.i(), channels = a.i();
			auto const std = a.word(), lang = a.word();
			bool const enc = a.i(), sync = a.i(), mca = a.i();
			vector<int> extra;
			vector<dcp::Channel> extra_channels;
			while (a.left()) {
				extra.push_back(a.i());
				extra_channels.push_back(static_cast<dcp::Channel>(extra.back()));
			}
			auto& s = sounds[k];
			s = Sound();
			s.path = scratch->path() / (std::to_string(k) + ".mxf");
			s.asset = make_shared<dcp::SoundAsset>(dcp::Fraction(num, den), sampling, channels, dcp::LanguageTag(lang), std == "smpte" ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
			s.id = s.asset->id();
			if (enc) {
				s.key = dcp::Key();
				s.asset->set_key(*s.key);
			}
			string error;
			try {
				s.writer = s.asset->start_write(s.path, extra_channels, sync ? dcp::SoundAsset::AtmosSync::ENABLED : dcp::SoundAsset::AtmosSync::DISABLED,
								mca ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED);
			} catch (std::exception&) {
				error = "error";
			}
			vector<int> id;
			string hex;
			for (auto c: s.id) {
				if (c != '-') {
					hex += c;
				}
			}
			for (size_t i = 0; i + 1 < hex.size(); i += 2) {
				id.push_back(strtol(hex.substr(i, 2).c_str(), nullptr, 16));
			}
			J("new").n("k", k).n("num", num).n("den", den).n("sampling", sampling).n("channels", channels).w("std", std).w("lang", lang)
				.b("enc", enc).b("sync", sync).b("mca", mca).ns("extra", extra).ns("id", id).w("error", error).out();
		} else if (op == "write" || op == "tone") {
			int const k = a.i();
			auto& s = sounds[k];
			if (!s.writer) {
				bad_script("no writer");
			}
			bool const tone = op == "tone";
			string const kind = tone ? "i" : a.word();
			int const channels = tone ? s.asset->channels() : a.i();
			vector<vector<int>> rows;
			if (tone) {
				int const n = a.i();
				for (int i = 0; i < n; ++i) {
					rows.push_back({});
					for (int c = 0; c < channels; ++c) {
						rows.back().push_back(c + 1);
					}
				}
			} else {
				while (a.left()) {
					rows.push_back({});
					for (int c = 0; c < channels; ++c) {
						rows.back().push_back(a.i());
					}
				}
			}
			string error;
			try {
				vector<vector<float>> fs(channels);
				vector<vector<int32_t>> is(channels);
				for (auto const& r: rows) {
					for (int c = 0; c < channels; ++c) {
						fs[c].push_back(r[c] / 16777216.0f);
						is[c].push_back(r[c]);
					}
				}
				vector<float const*> fp;
				vector<int32_t const*> ip;
				for (int c = 0; c < channels; ++c) {
					fp.push_back(fs[c].data());
					ip.push_back(is[c].data());
				}
				if (kind == "f") {
					s.writer->write(fp.data(), channels, rows.size());
				} else {
					s.writer->write(ip.data(), channels, rows.size());
				}
			} catch (...) {
				error = caught();
			}
			if (tone) {
				J("tone").n("k", k).n("n", rows.size()).w("fault", faulted).w("error", error).out();
			} else {
				vector<string> rs;
				for (auto const& r: rows) {
					rs.push_back(J::list(r));
				}
				J("write").n("k", k).w("kind", kind).raw("rows", J::join(rs)).w("fault", faulted).w("error", error).out();
			}
			faulted = "";
		} else if (op == "finalize") {
			int const k = a.i();
			auto& s = sounds[k];
			string error;
			bool made = false;
			try {
				made = s.writer->finalize();
			} catch (...) {
				error = caught();
			}
			J("finalize").n("k", k).b("made", made).b("there", boost::filesystem::exists(s.path)).n("duration", s.asset->intrinsic_duration()).w("fault", faulted).w("error", error).out();
			faulted = "";
			s.writer.reset();
		} else if (op == "read") {
			read(a.i());
		} else if (op == "sync") {
			sync(a.i());
		} else if (op == "foreign") {
			int const k = a.i();
			int const num = a.i(), den = a.i(), sampling = a.i(), channels = a.i(), bits = a.i();
			vector<string> rows;
			vector<int> all;
			while (a.left()) {
				vector<int> row;
				for (int c = 0; c < channels; ++c) {
					row.push_back(a.i());
					all.push_back(row.back());
				}
				rows.push_back(J::list(row));
			}
			auto& s = sounds[k];
			s = Sound();
			s.path = scratch->path() / (std::to_string(k) + ".mxf");
			s.id = dcp::make_uuid();
			ASDCP::PCM::AudioDescriptor d;
			d.EditRate = ASDCP::Rational(num, den);
			d.AudioSamplingRate = ASDCP::Rational(sampling, 1);
			d.ChannelCount = channels;
			d.QuantizationBits = bits;
			d.BlockAlign = channels * bits / 8;
			d.AvgBps = d.BlockAlign * sampling;
			d.ChannelFormat = ASDCP::PCM::CF_CFG_4;
			ASDCP::WriterInfo info;
			unsigned int n;
			Kumu::hex2bin(s.id.c_str(), info.AssetUUID, 16, &n);
			info.LabelSetType = ASDCP::LS_MXF_SMPTE;
			ASDCP::PCM::MXFWriter w;
			bool ok = ASDCP_SUCCESS(w.OpenWrite(s.path.string(), info, d));
			auto const size = ASDCP::PCM::CalcFrameBufferSize(d);
			ASDCP::PCM::FrameBuffer fb(size);
			string data;
			for (auto v: all) {
				for (int b = 0; b < bits; b += 8) {
					data += static_cast<char>(v >> b);
				}
			}
			for (size_t at = 0; at < data.size(); at += size) {
				string piece = data.substr(at, size);
				piece.resize(size, '\0');
				memcpy(fb.Data(), piece.data(), size);
				fb.Size(size);
				ok = ok && ASDCP_SUCCESS(w.WriteFrame(fb));
			}
			ok = ok && ASDCP_SUCCESS(w.Finalize());
			J("foreign").n("k", k).n("num", num).n("den", den).n("sampling", sampling).n("channels", channels).n("bits", bits).raw("rows", J::join(rows)).w("error", ok ? "" : "error").out();
		} else if (op == "compare") {
			int const x = a.i(), y = a.i(), tolerance = a.i();
			bool const allow = a.i();
			string error;
			bool same = false;
			int errors = 0;
			try {
				dcp::EqualityOptions opt;
				opt.max_audio_sample_error = tolerance;
				opt.sound_assets_can_differ = allow;
				same = open(sounds[x])->equals(open(sounds[y]), opt, [&errors](dcp::NoteType t, string) {
					if (t == dcp::NoteType::ERROR) {
						++errors;
					}
				});
			} catch (std::exception&) {
				error = "error";
			}
			J("compare").n("a", x).n("b", y).n("tolerance", tolerance).b("allow", allow).b("same", same).n("errors", errors).w("error", error).out();
		} else {
			bad_script(op);
		}
	});
}
