/* What the drivers of the whole library share: scratch directories, small assets of every kind, looking at files
 * without the library */
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H

#include "common.h"
#include "array_data.h"
#include "atmos_asset.h"
#include "atmos_asset_writer.h"
#include "cpl.h"
#include "dcp.h"
#include "interop_text_asset.h"
#include "j2k_picture_asset_writer.h"
#include "j2k_transcode.h"
#include "key.h"
#include "language_tag.h"
#include "mono_j2k_picture_asset.h"
#include "openjpeg_image.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_writer.h"
#include "stereo_j2k_picture_asset.h"
#include "text_image.h"
#include "text_string.h"
#include <boost/filesystem.hpp>
#include <openssl/evp.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <stdlib.h>
#include <unistd.h>

namespace world {

typedef boost::filesystem::path Path;

/** A directory under the current one that is removed with this object */
class Scratch
{
public:
	Scratch() {
		auto pattern = (boost::filesystem::canonical(boost::filesystem::current_path()) / "world.XXXXXX").string();
		std::vector<char> b(pattern.begin(), pattern.end());
		b.push_back(0);
		if (!mkdtemp(b.data())) {
			bad_script("cannot make a scratch directory");
		}
		_path = b.data();
	}
	~Scratch() {
		boost::system::error_code ec;
		boost::filesystem::remove_all(_path, ec);
	}
	Scratch(Scratch const&) = delete;
	Scratch& operator=(Scratch const&) = delete;
	Path path() const { return _path; }
private:
	Path _path;
};

inline std::string contents(Path p)
{
	std::ifstream f(p.string().c_str(), std::ios::binary);
	std::ostringstream s;
	s << f.rdbuf();
	return s.str();
}

inline std::string sha1_base64(std::string const& data)
{
	unsigned char digest[EVP_MAX_MD_SIZE];
	unsigned int n = 0;
	EVP_Digest(data.data(), data.size(), digest, &n, EVP_sha1(), nullptr);
	std::vector<unsigned char> out(64);
	auto const len = EVP_EncodeBlock(out.data(), digest, n);
	return std::string(out.begin(), out.begin() + len);
}

/** A JPEG2000 code stream as far as its main header goes */
inline std::vector<uint8_t> j2k_frame(int number, int width = 1998, int height = 1080, int size = 120)
{
	std::vector<uint8_t> d;
	auto u8 = [&d](int v) { d.push_back(v & 255); };
	auto u16 = [&](int v) { u8(v >> 8); u8(v); };
	auto u32 = [&](int v) { u16(v >> 16); u16(v); };
	u16(0xff4f);
	u16(0xff51); u16(47); u16(3);
	u32(width); u32(height); u32(0); u32(0); u32(width); u32(height); u32(0); u32(0);
	u16(3);
	for (int i = 0; i < 3; ++i) {
		u8(11); u8(1); u8(1);
	}
	u16(0xff64); u16(size > 0 ? size : 2);
	for (int i = 0; i < size - 2; ++i) {
		u8((number * 37 + i * 11) & 127);
	}
	u16(0xffd9);
	return d;
}

/** A JPEG2000 code stream that can be decoded */
inline std::vector<uint8_t> real_j2k_frame(int number)
{
	static std::map<int, std::vector<uint8_t>> made;
	auto& d = made[number];
	if (d.empty()) {
		auto image = std::make_shared<dcp::OpenJPEGImage>(dcp::Size(48, 32));
		for (int c = 0; c < 3; ++c) {
			for (int i = 0; i < 48 * 32; ++i) {
				image->data(c)[i] = (number * 331 + i * (7 + c)) & 4095;
			}
		}
		auto const e = dcp::compress_j2k(image, 100000000, 24, false, false);
		d.assign(e.data(), e.data() + e.size());
	}
	return d;
}

inline std::shared_ptr<dcp::TextString> text_string(std::string words, int in_s = 4, int out_s = 8, std::string font = "")
{
	return std::make_shared<dcp::TextString>(
		font.empty() ? boost::optional<std::string>() : boost::optional<std::string>(font), false, false, false, dcp::Colour(255, 255, 255), 42, 1,
		dcp::Time(0, 0, in_s, 0, 24), dcp::Time(0, 0, out_s, 0, 24), 0.5, dcp::HAlign::CENTER, 0.8, dcp::VAlign::TOP, 0,
		std::vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, words, dcp::Effect::NONE, dcp::Colour(255, 255, 255),
		dcp::Time(), dcp::Time(), 0, std::vector<dcp::Ruby>());
}

inline std::shared_ptr<dcp::TextImage> text_image(dcp::ArrayData png, std::string id)
{
	return std::make_shared<dcp::TextImage>(
		png, id, dcp::Time(0, 0, 4, 0, 24), dcp::Time(0, 0, 8, 0, 24), 0, dcp::HAlign::CENTER, 0, dcp::VAlign::TOP, 0,
		std::vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time());
}

inline dcp::ArrayData bytes(int n, int salt)
{
	dcp::ArrayData d(n);
	for (int i = 0; i < n; ++i) {
		d.data()[i] = (salt * 31 + i * 7) & 255;
	}
	return d;
}

/** An asset of some kind, written to path */
inline std::shared_ptr<dcp::Asset> make_asset(std::string kind, Path path, int frames, int salt, boost::optional<dcp::Key> key, dcp::Standard standard,
					      int fonts = 0, int images = 0, std::string language = "", bool real = false)
{
	boost::filesystem::create_directories(path.parent_path());
	dcp::Fraction const rate(24, 1);
	if (kind == "mono" || kind == "stereo") {
		std::shared_ptr<dcp::J2KPictureAsset> a;
		if (kind == "mono") {
			a = std::make_shared<dcp::MonoJ2KPictureAsset>(rate, standard);
		} else {
			a = std::make_shared<dcp::StereoJ2KPictureAsset>(rate, standard);
		}
		if (key) {
			a->set_key(*key);
		}
		auto w = a->start_write(path, dcp::Behaviour::MAKE_NEW);
		for (int i = 0; i < frames * (kind == "mono" ? 1 : 2); ++i) {
			auto const f = real ? real_j2k_frame(salt + i) : j2k_frame(salt + i);
			w->write(f.data(), f.size());
		}
		w->finalize();
		return a;
	} else if (kind == "sound") {
		auto a = std::make_shared<dcp::SoundAsset>(rate, 48000, 2, dcp::LanguageTag("en-GB"), standard);
		if (key) {
			a->set_key(*key);
		}
		auto w = a->start_write(path, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
		std::vector<float> s(2000);
		for (int i = 0; i < frames; ++i) {
			for (int j = 0; j < 2000; ++j) {
				s[j] = ((salt + i * 13 + j) % 100) / 200.0;
			}
			float* c[] = { s.data(), s.data() };
			w->write(c, 2, 2000);
		}
		w->finalize();
		return a;
	} else if (kind == "atmos") {
		auto a = std::make_shared<dcp::AtmosAsset>(rate, 0, 10, 118, 1);
		if (key) {
			a->set_key(*key);
		}
		auto w = a->start_write(path);
		for (int i = 0; i < frames; ++i) {
			auto d = bytes(64, salt + i);
			w->write(d.data(), d.size());
		}
		w->finalize();
		return a;
	} else if (kind == "text" && standard == dcp::Standard::SMPTE) {
		auto a = std::make_shared<dcp::SMPTETextAsset>();
		if (key) {
			a->set_key(*key);
		}
		if (!language.empty()) {
			a->set_language(dcp::LanguageTag(language));
		}
		a->set_start_time(dcp::Time(0, 0, 0, 0, 24));
		for (int i = 0; i < fonts; ++i) {
			a->add_font("font" + std::to_string(i), bytes(100, salt + i));
		}
		a->add(text_string("Words " + std::to_string(salt), 4, 8, fonts ? "font0" : ""));
		for (int i = 0; i < images; ++i) {
			a->add(text_image(bytes(80, salt + i), dcp::make_uuid()));
		}
		a->set_intrinsic_duration(frames);
		a->write(path);
		return a;
	} else if (kind == "text") {
		auto a = std::make_shared<dcp::InteropTextAsset>();
		a->set_language(language.empty() ? "en" : language);
		a->set_movie_title("Title");
		a->set_reel_number("1");
		for (int i = 0; i < fonts; ++i) {
			a->add_font("font" + std::to_string(i), bytes(100, salt + i));
		}
		a->add(text_string("Words " + std::to_string(salt), 4, 8, fonts ? "font0" : ""));
		for (int i = 0; i < images; ++i) {
			a->add(text_image(bytes(80, salt + i), dcp::make_uuid()));
		}
		a->write(path);
		return a;
	}
	bad_script("kind " + kind);
	return {};
}

inline dcp::TextType text_type(std::string s)
{
	return s == "subtitle" ? dcp::TextType::OPEN_SUBTITLE : s == "caption" ? dcp::TextType::OPEN_CAPTION : s == "csub" ? dcp::TextType::CLOSED_SUBTITLE : dcp::TextType::CLOSED_CAPTION;
}

/** The part of a reel that an asset makes; role is picture, sound, atmos, subtitle, caption, csub or ccap */
inline std::shared_ptr<dcp::ReelFileAsset> reel_asset(std::shared_ptr<dcp::Asset> a, std::string role, int64_t duration, int64_t entry)
{
	dcp::Fraction const rate(24, 1);
	if (auto m = std::dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(a)) {
		return std::make_shared<dcp::ReelMonoPictureAsset>(m, entry);
	} else if (auto s = std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(a)) {
		return std::make_shared<dcp::ReelStereoPictureAsset>(s, entry);
	} else if (auto s = std::dynamic_pointer_cast<dcp::SoundAsset>(a)) {
		return std::make_shared<dcp::ReelSoundAsset>(s, entry);
	} else if (auto m = std::dynamic_pointer_cast<dcp::AtmosAsset>(a)) {
		return std::make_shared<dcp::ReelAtmosAsset>(m, entry);
	} else if (auto t = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(a)) {
		return std::make_shared<dcp::ReelSMPTETextAsset>(text_type(role), t, rate, duration, entry);
	} else if (auto t = std::dynamic_pointer_cast<dcp::InteropTextAsset>(a)) {
		return std::make_shared<dcp::ReelInteropTextAsset>(text_type(role), t, rate, duration, entry);
	}
	bad_script("cannot be in a reel");
	return {};
}

}

#endif
