"""Planted bugs in sound and picture track files"""
from mkseed import full

H = ("common.h", "world.h", "xmlview.h")
P = '''#include "world.h"
#include "equality_options.h"
#include "exceptions.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "sound_asset_reader.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_frame.h"
#include <asdcp/AS_DCP.h>
#include <asdcp/Metadata.h>
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
using namespace world;
static auto const quiet = [](dcp::NoteType, std::string) {};
'''
S = P + '''typedef std::vector<std::vector<int32_t>> Rows;
static std::shared_ptr<dcp::SoundAssetWriter> writer(std::shared_ptr<dcp::SoundAsset> a, boost::filesystem::path p, std::vector<dcp::Channel> extra = {}, bool sync = false, bool mca = true) {
	return a->start_write(p, extra, sync ? dcp::SoundAsset::AtmosSync::ENABLED : dcp::SoundAsset::AtmosSync::DISABLED, mca ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED); }
static std::shared_ptr<dcp::SoundAsset> sound(int channels, int sampling = 48000, int rate = 24) { return std::make_shared<dcp::SoundAsset>(dcp::Fraction(rate, 1), sampling, channels, dcp::LanguageTag("en"), dcp::Standard::SMPTE); }
template <class T> static void put(std::shared_ptr<dcp::SoundAssetWriter> w, int channels, int n, T v) {
	std::vector<std::vector<T>> d(channels, std::vector<T>(n, v)); std::vector<T const*> p; for (auto& i: d) { p.push_back(i.data()); } w->write(p.data(), channels, n); }
'''
full("y01", "C23", "an edit unit that ends after a call with fewer channels than the file", "the rest of the last edit unit is filled with what was there before",
     [("src/sound_asset_writer.h", "				memset(frame_buffer_data(), 0, frame_buffer_capacity());\n", "				memset(frame_buffer_data(), 0, data_channels < asset_channels ? 3 * asset_channels : frame_buffer_capacity());\n")],
     S + '''int main() { dcp::init(); Scratch s; auto a = sound(2, 96); auto w = writer(a, s.path() / "a"); put<int32_t>(w, 1, 6, 1000); w->finalize();
	dcp::SoundAsset b(s.path() / "a"); auto f = b.start_read()->get_frame(1); WANT(f->get(0, 1) == 1000); WANT(f->get(0, 2) == 0); WANT(f->get(0, 3) == 0); }''', H)
full("y02", "C23", "labelled sounds that differ only in a channel without a label", "only as many channels as have labels are compared",
     [("src/sound_asset.cc", "				for (int channel = 0; channel < frame_A->channels(); ++channel) {\n", "				for (int channel = 0; channel < active_channels(); ++channel) {\n")],
     S + '''int main() { dcp::init(); Scratch s; for (int i = 0; i < 2; ++i) { auto a = sound(8, 96); auto w = writer(a, s.path() / std::to_string(i)); put<int32_t>(w, 7 + i, 4, 1000); w->finalize(); }
	dcp::SoundAsset b(s.path() / "0"); WANT(!b.equals(std::make_shared<dcp::SoundAsset>(s.path() / "1"), dcp::EqualityOptions(), quiet)); }''', H)
full("y03", "C23", "an extra channel asked for that is just beyond those of the file", "a label is written for a channel that is not in the file",
     [("src/sound_asset_writer.cc", "			return static_cast<int>(channel) >= _asset->channels();\n", "			return static_cast<int>(channel) > _asset->channels();\n")],
     S + '''int main() { dcp::init(); Scratch s; auto a = sound(6, 96); auto w = writer(a, s.path() / "0", {dcp::Channel::HI}); put<int32_t>(w, 6, 4, 1); w->finalize(); dcp::SoundAsset b(s.path() / "0"); WANT(b.active_channels() == 6); }''', H)
full("y04", "C23", "a synchronisation track of more than one edit unit", "synchronisation packets of every edit unit but the first carry the number of the one before",
     [("src/sound_asset_writer.cc", '''	++_frames_written;

	if (_sync) {
		/* We need a new set of sync packets for this frame */
		_fsk.set_data (create_sync_packets());
	}
''', '''	if (_sync) {
		/* We need a new set of sync packets for this frame */
		_fsk.set_data (create_sync_packets());
	}

	++_frames_written;
''')],
     S + '''static std::vector<int32_t> track(std::shared_ptr<const dcp::SoundFrame> f) { std::vector<int32_t> r; for (int i = 0; i < f->samples(); ++i) { r.push_back(f->get(13, i)); } return r; }
int main() { dcp::init(); Scratch s; auto a = sound(14); auto w = writer(a, s.path() / "0", {}, true); put<int32_t>(w, 14, 6000, 1); w->finalize(); dcp::SoundAsset b(s.path() / "0"); auto r = b.start_read();
	auto p = track(r->get_frame(0)), q = track(r->get_frame(1)); int same = 0; for (size_t i = 0; i < p.size(); ++i) { same += p[i] == q[i]; } WANT(same != int(p.size())); }''', H)
full("y05", "C23", "sound given as fractions very near full level", "loud fractions are limited one step too low",
     [("src/sound_asset_writer.h", "	float constexpr clip = 1.0f - (1.0f / (1 << 23));\n", "	float constexpr clip = 1.0f - (1.0f / (1 << 16));\n")],
     S + '''int main() { dcp::init(); Scratch s; auto a = sound(2, 96); auto w = writer(a, s.path() / "a"); put<float>(w, 2, 4, 1.0f - 1.0f / (1 << 20)); w->finalize();
	dcp::SoundAsset b(s.path() / "a"); WANT(b.start_read()->get_frame(0)->get(0, 0) == (1 << 23) - 8); }''', H)

Q = P + '''static std::shared_ptr<dcp::J2KPictureAsset> film(bool stereo) { if (stereo) { return std::make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), dcp::Standard::SMPTE); } return std::make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), dcp::Standard::SMPTE); }
static dcp::J2KFrameInfo put(std::shared_ptr<dcp::J2KPictureAssetWriter> w, std::vector<uint8_t> f) { return w->write(f.data(), f.size()); }
static std::shared_ptr<dcp::J2KPictureAsset> real(boost::filesystem::path p, bool stereo, std::vector<int> n) { auto a = film(stereo); auto w = a->start_write(p, dcp::Behaviour::MAKE_NEW); for (auto i: n) { put(w, real_j2k_frame(i)); } w->finalize(); return a; }
'''
full("z01", "C24", "taking up a 3D picture and passing over an even number of eyes more than once", "the length of a 3D picture that was taken up is counted wrongly",
     [("src/stereo_j2k_picture_asset_writer.cc", '''	_next_eye = _next_eye == Eye::LEFT ? Eye::RIGHT : Eye::LEFT;
	if (_next_eye == Eye::LEFT) {
		++_frames_written;
	}
}
''', '''	if (_next_eye == Eye::LEFT) {
		++_frames_written;
	}
	_next_eye = _next_eye == Eye::LEFT ? Eye::RIGHT : Eye::LEFT;
}
''')],
     Q + '''int main() { dcp::init(); Scratch s; auto p = s.path() / "a"; auto a = film(true); std::vector<dcp::J2KFrameInfo> is; { auto w = a->start_write(p, dcp::Behaviour::MAKE_NEW); for (int i = 0; i < 4; ++i) { is.push_back(put(w, j2k_frame(i))); } boost::filesystem::copy_file(p, s.path() / "b"); }
	boost::filesystem::rename(s.path() / "b", p); auto b = film(true); auto w = b->start_write(p, dcp::Behaviour::OVERWRITE_EXISTING); put(w, j2k_frame(0)); w->fake_write(is[1]); put(w, j2k_frame(2)); put(w, j2k_frame(3)); w->finalize(); WANT(b->intrinsic_duration() == 2); }''', H)
full("z02", "C24", "an encrypted 3D picture", "the beginning of each frame of an encrypted 3D picture is left in clear",
     [("src/stereo_j2k_picture_asset_writer.cc", "	_state->frame_buffer.PlaintextOffset(0);\n", "	if (!_picture_asset->encrypted()) {\n		_state->frame_buffer.PlaintextOffset(0);\n	}\n")],
     Q + '''int main() { dcp::init(); Scratch s; auto a = film(true); a->set_key(dcp::Key()); auto f = j2k_frame(3); { auto w = a->start_write(s.path() / "a", dcp::Behaviour::MAKE_NEW); put(w, f); put(w, f); w->finalize(); }
	WANT(contents(s.path() / "a").find(std::string(f.begin(), f.begin() + 24)) == std::string::npos); }''', H)
full("z03", "C24", "a change to a stored frame of an encrypted 3D picture", "changes to encrypted 3D frames are not noticed",
     [("src/stereo_j2k_picture_frame.cc", "	if (ASDCP_FAILURE (reader->ReadFrame (n, *_buffer, c->context(), check_hmac ? c->hmac() : nullptr))) {\n", "	if (ASDCP_FAILURE (reader->ReadFrame (n, *_buffer, c->context(), check_hmac && n == 0 ? c->hmac() : nullptr))) {\n")],
     Q + '''int main() { dcp::init(); Scratch s; auto p = s.path() / "a"; auto a = film(true); dcp::Key k; a->set_key(k); dcp::J2KFrameInfo i(0, 0, ""); { auto w = a->start_write(p, dcp::Behaviour::MAKE_NEW); for (int n = 0; n < 4; ++n) { i = put(w, j2k_frame(n, 1998, 1080, 900)); } w->finalize(); }
	auto d = contents(p); d[i.offset + 500] ^= 1; std::ofstream(p.string().c_str(), std::ios::binary) << d;
	dcp::StereoJ2KPictureAsset b(p); b.set_key(k); try { b.start_read()->get_frame(1); } catch (std::exception&) { return 0; } return 1; }''', H)
full("z04", "C24", "comparison that goes on after a difference, with a later frame the same", "with keep_going a picture's comparison tells only about its last frame",
     [("src/mono_j2k_picture_asset.cc", '''			if (!frame_buffer_equals (
				    i, opt, bind (&storing_note_handler, boost::ref(notes), _1, _2),
				    frame_A->data(), frame_A->size(),
				    frame_B->data(), frame_B->size()
				    )) {
				result = false;
			}
''', '''			result = frame_buffer_equals (
				i, opt, bind (&storing_note_handler, boost::ref(notes), _1, _2),
				frame_A->data(), frame_A->size(),
				frame_B->data(), frame_B->size()
				);
''')],
     Q + '''int main() { dcp::init(); Scratch s; auto a = real(s.path() / "a", false, {1, 2, 3}), b = real(s.path() / "b", false, {1, 4, 3}); dcp::EqualityOptions o; WANT(!a->equals(b, o, quiet)); o.keep_going = true; WANT(!a->equals(b, o, quiet)); }''', H)
full("z05", "C24", "a user's quota used up while writing", "running into a quota is not told as a full disk",
     [("src/util.cc", "	case EDQUOT:\n	case ENOSPC:\n", "	case ENOSPC:\n")],
     Q + '''static int fault(char const* w) { return std::string(w) == "frame" ? EDQUOT : 0; }
int main() { dcp::init(); Scratch s; auto a = film(false); auto w = a->start_write(s.path() / "a", dcp::Behaviour::MAKE_NEW); put(w, j2k_frame(1)); shim_asdcp_fault = fault;
	try { put(w, j2k_frame(2)); } catch (dcp::DiskFullError&) { return 0; } catch (std::exception&) { return 1; } return 1; }''', H)
