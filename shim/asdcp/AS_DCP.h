/* Stand-in for asdcplib: the part of its interface that libdcp uses.  Track files are kept in a format of its
 * own (see impl/asdcp.cc) that makes the same promises: frames come back in order and unchanged, encrypted ones only with
 * the right key, a damaged one fails its integrity check, and a file that was not finalized cannot be opened.
 */
#ifndef SHIM_AS_DCP_H
#define SHIM_AS_DCP_H

#include "KM_log.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>

typedef unsigned char byte_t;
typedef uint8_t ui8_t;
typedef uint16_t ui16_t;
typedef uint32_t ui32_t;
typedef uint64_t ui64_t;
typedef int64_t i64_t;

#define ASDCP_SUCCESS(v) (((v) < 0) ? 0 : 1)
#define ASDCP_FAILURE(v) (((v) < 0) ? 1 : 0)

/** Called before each operation of a writer with its name; a value other than zero is the errno with which it fails */
extern int (*shim_asdcp_fault)(char const* operation);

namespace Kumu {

const ui32_t UUID_Length = 16;
const ui32_t Kilobyte = 1024;
const ui32_t Megabyte = 1024 * 1024;
typedef ui64_t fsize_t;

char const* bin2hex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len);
char const* bin2UUIDhex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len);
int hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size);
char const* base64encode(byte_t const* buf, ui32_t buf_len, char* out, ui32_t out_len);

template <int SIZE>
class Identifier
{
public:
	Identifier() { memset(_value, 0, SIZE); }
	Identifier(byte_t const* v) { memcpy(_value, v, SIZE); }
	void Set(byte_t const* v) { memcpy(_value, v, SIZE); }
	byte_t const* Value() const { return _value; }
	ui32_t Size() const { return SIZE; }
	bool DecodeHex(char const* s) { ui32_t c = 0; return hex2bin(s, _value, SIZE, &c) == 0 && c == SIZE; }
	char const* EncodeHex(char* buf, ui32_t len) const { return bin2hex(_value, SIZE, buf, len); }
	bool operator==(Identifier const& o) const { return memcmp(_value, o._value, SIZE) == 0; }
	bool operator!=(Identifier const& o) const { return !(*this == o); }
	bool operator<(Identifier const& o) const { return memcmp(_value, o._value, SIZE) < 0; }
protected:
	byte_t _value[SIZE];
};

class UUID : public Identifier<16>
{
public:
	UUID() {}
	UUID(byte_t const* v) : Identifier<16>(v) {}
	char const* EncodeHex(char* buf, ui32_t len) const { return bin2UUIDhex(_value, 16, buf, len); }
	char const* EncodeString(char* buf, ui32_t len) const { return bin2UUIDhex(_value, 16, buf, len); }
};

void GenRandomUUID(byte_t*);
void GenRandomValue(UUID&);

class FortunaRNG
{
public:
	byte_t const* FillRandom(byte_t* buf, ui32_t len);
};

class ByteString
{
public:
	ByteString() : _length(0) {}
	explicit ByteString(ui32_t cap) : _data(cap), _length(0) {}
	byte_t* Data() { return _data.data(); }
	byte_t const* RoData() const { return _data.data(); }
	ui32_t Capacity() const { return _data.size(); }
	Result_t Capacity(ui32_t c) { _data.resize(c); return RESULT_OK; }
	ui32_t Length() const { return _length; }
	void Length(ui32_t l) { _length = l; }
private:
	std::vector<byte_t> _data;
	ui32_t _length;
};

class IFileReader { public: virtual ~IFileReader() {} };

class FileReader : public IFileReader
{
public:
	FileReader() : _f(nullptr) {}
	~FileReader() { Close(); }
	Result_t OpenRead(std::string const& path);
	Result_t Read(byte_t*, ui32_t, ui32_t* done);
	fsize_t Size() const;
	Result_t Close();
private:
	FILE* _f;
};

class IFileReaderFactory { public: virtual ~IFileReaderFactory() {} };
class FileReaderFactory : public IFileReaderFactory {};

}

namespace ASDCP {

using Kumu::Result_t;
using Kumu::RESULT_OK;
using Kumu::RESULT_FAIL;

const Result_t RESULT_FORMAT(-101, "RESULT_FORMAT", "The file format is not proper OP-Atom/AS-DCP.");
const Result_t RESULT_RANGE(-103, "RESULT_RANGE", "Frame number out of range.");
const Result_t RESULT_CRYPT_CTX(-104, "RESULT_CRYPT_CTX", "AESEncContext required when writing to encrypted file");
const Result_t RESULT_LARGE_PTO(-105, "RESULT_LARGE_PTO", "Plaintext offset exceeds frame buffer size");
const Result_t RESULT_CAPEXTMEM(-106, "RESULT_CAPEXTMEM", "Cannot resize externally allocated memory");
const Result_t RESULT_CHECKFAIL(-107, "RESULT_CHECKFAIL", "The check value did not decrypt correctly.");
const Result_t RESULT_HMACFAIL(-108, "RESULT_HMACFAIL", "HMAC authentication failure.");
const Result_t RESULT_HMAC_CTX(-109, "RESULT_HMAC_CTX", "HMAC context required");
const Result_t RESULT_SFORMAT(-118, "RESULT_SFORMAT", "Reading JP2K stereoscopic file as monoscopic");
const Result_t RESULT_SPHASE(-119, "RESULT_SPHASE", "Stereoscopic phase mismatch");

const ui32_t UUIDlen = 16;
const ui32_t KeyLen = 16;
const ui32_t CBC_BLOCK_SIZE = 16;

struct Rational
{
	i64_t Numerator;
	i64_t Denominator;
	Rational() : Numerator(0), Denominator(0) {}
	Rational(i64_t n, i64_t d) : Numerator(n), Denominator(d) {}
	double Quotient() const { return double(Numerator) / double(Denominator); }
	bool operator==(Rational const& o) const { return Numerator == o.Numerator && Denominator == o.Denominator; }
	bool operator!=(Rational const& o) const { return !(*this == o); }
};

enum EssenceType_t {
	ESS_UNKNOWN, ESS_MPEG2_VES, ESS_JPEG_2000, ESS_PCM_24b_48k, ESS_PCM_24b_96k, ESS_TIMED_TEXT, ESS_JPEG_2000_S, ESS_DCDATA_UNKNOWN, ESS_DCDATA_DOLBY_ATMOS
};

enum LabelSet_t { LS_MXF_UNKNOWN, LS_MXF_INTEROP, LS_MXF_SMPTE };

Result_t EssenceType(std::string const& path, EssenceType_t& type, Kumu::IFileReaderFactory const& factory);

struct WriterInfo
{
	byte_t ProductUUID[UUIDlen];
	byte_t AssetUUID[UUIDlen];
	byte_t ContextID[UUIDlen];
	byte_t CryptographicKeyID[UUIDlen];
	bool EncryptedEssence;
	bool UsesHMAC;
	std::string ProductVersion;
	std::string CompanyName;
	std::string ProductName;
	LabelSet_t LabelSetType;
	WriterInfo() : EncryptedEssence(false), UsesHMAC(false), LabelSetType(LS_MXF_INTEROP) {
		memset(ProductUUID, 0, UUIDlen); memset(AssetUUID, 0, UUIDlen); memset(ContextID, 0, UUIDlen); memset(CryptographicKeyID, 0, UUIDlen);
	}
};

class AESEncContext
{
public:
	AESEncContext() : _ready(false) {}
	Result_t InitKey(byte_t const* key);
	Result_t SetIVec(byte_t const* iv);
	byte_t _key[KeyLen];
	byte_t _iv[CBC_BLOCK_SIZE];
	bool _ready;
};

class AESDecContext
{
public:
	AESDecContext() : _ready(false) {}
	Result_t InitKey(byte_t const* key);
	Result_t SetIVec(byte_t const* iv);
	byte_t _key[KeyLen];
	byte_t _iv[CBC_BLOCK_SIZE];
	bool _ready;
};

class HMACContext
{
public:
	HMACContext() : _ready(false) {}
	Result_t InitKey(byte_t const* key, LabelSet_t type);
	byte_t _key[KeyLen];
	bool _ready;
};

class FrameBuffer
{
public:
	FrameBuffer() : _data(nullptr), _capacity(0), _own(true), _size(0), _frame(0), _plaintext_offset(0) {}
	virtual ~FrameBuffer() { if (_own) { free(_data); } }
	FrameBuffer(FrameBuffer const&) = delete;
	FrameBuffer& operator=(FrameBuffer const&) = delete;

	Result_t SetData(byte_t* buf, ui32_t len);
	Result_t Capacity(ui32_t c);
	ui32_t Capacity() const { return _capacity; }
	byte_t const* RoData() const { return _data; }
	byte_t* Data() { return _data; }
	ui32_t Size(ui32_t s) { _size = s; return s; }
	ui32_t Size() const { return _size; }
	void FrameNumber(ui32_t n) { _frame = n; }
	ui32_t FrameNumber() const { return _frame; }
	void PlaintextOffset(ui32_t o) { _plaintext_offset = o; }
	ui32_t PlaintextOffset() const { return _plaintext_offset; }
protected:
	byte_t* _data;
	ui32_t _capacity;
	bool _own;
	ui32_t _size;
	ui32_t _frame;
	ui32_t _plaintext_offset;
};

class UL : public Kumu::Identifier<16>
{
public:
	UL() {}
	UL(byte_t const* v) : Kumu::Identifier<16>(v) {}
	char const* EncodeString(char* buf, ui32_t len) const;
};

enum MDD_t {
	MDD_WaveAudioDescriptor, MDD_SoundfieldGroupLabelSubDescriptor, MDD_AudioChannelLabelSubDescriptor, MDD_DCAudioSoundfield_51, MDD_DCAudioSoundfield_71,
	MDD_DCAudioChannel_VIN, MDD_DCAudioChannel_Rss, MDD_DCAudioChannel_Rs, MDD_DCAudioChannel_Rrs, MDD_DCAudioChannel_R, MDD_DCAudioChannel_Lss,
	MDD_DCAudioChannel_Ls, MDD_DCAudioChannel_Lrs, MDD_DCAudioChannel_LFE, MDD_DCAudioChannel_L, MDD_DCAudioChannel_HI, MDD_DCAudioChannel_C,
	MDD_DCAudioChannelCfg_4_WTF, MDD_DBOXMotionCodePrimaryStream, MDD_Max
};

class Dictionary
{
public:
	UL ul(MDD_t) const;
};

Dictionary const& DefaultSMPTEDict();

template <class T>
class optional_property
{
public:
	optional_property() : _has(false) {}
	optional_property const& operator=(T const& v) { _has = true; _value = v; return *this; }
	bool empty() const { return !_has; }
	T& get() { return _value; }
	T const& const_get() const { return _value; }
	void set(T const& v) { _has = true; _value = v; }
private:
	bool _has;
	T _value;
};

namespace MXF {

class UTF16String : public std::string
{
public:
	UTF16String() {}
	UTF16String(std::string const& s) : std::string(s) {}
	UTF16String(char const* s) : std::string(s) {}
	UTF16String const& operator=(std::string const& s) { assign(s); return *this; }
	UTF16String const& operator=(char const* s) { assign(s); return *this; }
	char const* EncodeString(char* buf, ui32_t len) const { snprintf(buf, len, "%s", c_str()); return buf; }
};

class InterchangeObject
{
public:
	explicit InterchangeObject(MDD_t t) : type(t) { Kumu::GenRandomValue(InstanceUID); }
	virtual ~InterchangeObject() {}
	MDD_t const type;
	Kumu::UUID InstanceUID;
};

class WaveAudioDescriptor : public InterchangeObject
{
public:
	explicit WaveAudioDescriptor(Dictionary const*) : InterchangeObject(MDD_WaveAudioDescriptor) {}
	optional_property<UL> ChannelAssignment;
	std::vector<Kumu::UUID> SubDescriptors;
};

class MCALabelSubDescriptor : public InterchangeObject
{
public:
	explicit MCALabelSubDescriptor(MDD_t t) : InterchangeObject(t) {}
	UL MCALabelDictionaryID;
	Kumu::UUID MCALinkID;
	UTF16String MCATagSymbol;
	optional_property<UTF16String> MCATagName;
	optional_property<ui32_t> MCAChannelID;
	optional_property<UTF16String> RFC5646SpokenLanguage;
};

class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit SoundfieldGroupLabelSubDescriptor(Dictionary const*) : MCALabelSubDescriptor(MDD_SoundfieldGroupLabelSubDescriptor) {}
};

class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit AudioChannelLabelSubDescriptor(Dictionary const*) : MCALabelSubDescriptor(MDD_AudioChannelLabelSubDescriptor) {}
	optional_property<Kumu::UUID> SoundfieldGroupLinkID;
};

class OP1aHeader
{
public:
	OP1aHeader() {}
	OP1aHeader(OP1aHeader const&) = delete;
	~OP1aHeader();
	Result_t GetMDObjectByType(UL const& type, InterchangeObject** object = nullptr);
	Result_t GetMDObjectsByType(UL const& type, std::list<InterchangeObject*>& objects);
	void AddChildObject(InterchangeObject* o) { objects.push_back(o); }
	std::list<InterchangeObject*> objects;
};

}

/* The files themselves */

namespace shim {

/** What every kind of track file keeps besides its frames */
struct Header
{
	EssenceType_t type;
	WriterInfo info;
	Rational edit_rate;
	Rational sample_rate;
	Rational aspect;
	ui32_t numbers[32];
	byte_t id[UUIDlen];
	std::string text;
	std::vector<std::pair<std::string, int>> resources;
	Header() : type(ESS_UNKNOWN) { memset(numbers, 0, sizeof(numbers)); memset(id, 0, sizeof(id)); }
};

class Writer
{
public:
	Writer() : _f(nullptr), _open(false), _done(false) {}
	~Writer();
	Result_t open(std::string const& path, Header const& header, bool overwrite, ui32_t header_size);
	Result_t frame(byte_t const* data, ui32_t size, AESEncContext*, HMACContext*, std::string* hash, ui32_t flags, ui32_t plain = 0);
	Result_t skip(ui32_t size, ui32_t flags);
	ui64_t tell() const { return _pos; }
	Result_t finalize(ui32_t duration);
	bool is_open() const { return _open; }
	ui32_t frames() const { return _index.size(); }
	MXF::OP1aHeader op1a;
	Header header;
private:
	Result_t put(void const* data, size_t size);
	FILE* _f;
	bool _open;
	bool _done;
	ui64_t _pos;
	std::vector<std::pair<ui64_t, ui32_t>> _index;
};

class Reader
{
public:
	Reader() : _f(nullptr) {}
	~Reader();
	Result_t open(std::string const& path);
	Result_t frame(ui32_t n, FrameBuffer& fb, AESDecContext*, HMACContext*, ui32_t* flags = nullptr) const;
	ui32_t frames() const { return _index.size(); }
	ui32_t duration;
	Header header;
	MXF::OP1aHeader op1a;
private:
	FILE* _f;
	std::vector<std::pair<ui64_t, ui32_t>> _index;
};

}

#define SHIM_READER(DESC, FILL, FB, ...) \
	class MXFReader { \
	public: \
		explicit MXFReader(Kumu::IFileReaderFactory const&) {} \
		MXFReader(MXFReader const&) = delete; \
		Result_t OpenRead(std::string const& path) const; \
		Result_t Close() const { return RESULT_OK; } \
		Result_t FILL(DESC&) const; \
		Result_t FillWriterInfo(WriterInfo&) const; \
		MXF::OP1aHeader& OP1aHeader() { return _r.op1a; } \
		__VA_ARGS__ \
	private: \
		mutable shim::Reader _r; \
	};

namespace JP2K {

const ui32_t MaxComponents = 3;
const ui32_t MaxCapabilities = 32;

struct ImageComponent_t { ui8_t Ssize; ui8_t XRsize; ui8_t YRsize; };

struct PictureDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration;
	Rational SampleRate;
	ui32_t StoredWidth;
	ui32_t StoredHeight;
	Rational AspectRatio;
	ui16_t Rsize;
	ui32_t Xsize, Ysize, XOsize, YOsize, XTsize, YTsize, XTOsize, YTOsize;
	ui16_t Csize;
	ImageComponent_t ImageComponents[MaxComponents];
	PictureDescriptor() : ContainerDuration(0), StoredWidth(0), StoredHeight(0), Rsize(0), Xsize(0), Ysize(0), XOsize(0), YOsize(0), XTsize(0), YTsize(0), XTOsize(0), YTOsize(0), Csize(0) {
		memset(ImageComponents, 0, sizeof(ImageComponents));
	}
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	FrameBuffer(ui32_t size) { Capacity(size); }
};

enum StereoscopicPhase_t { SP_LEFT, SP_RIGHT };

class SFrameBuffer
{
public:
	FrameBuffer Left;
	FrameBuffer Right;
	SFrameBuffer(ui32_t size) : Left(size), Right(size) {}
};

class CodestreamParser
{
public:
	Result_t OpenReadFrame(byte_t const* data, ui32_t size, FrameBuffer& fb) const;
	Result_t FillPictureDescriptor(PictureDescriptor&) const;
private:
	mutable PictureDescriptor _desc;
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const&, PictureDescriptor const&, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size);
	Result_t Finalize();
	ui64_t Tell() const { return _w.tell(); }
private:
	shim::Writer _w;
};

SHIM_READER(PictureDescriptor, FillPictureDescriptor, FrameBuffer, Result_t ReadFrame(ui32_t, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;)

class MXFSWriter
{
public:
	MXFSWriter() : _next(SP_LEFT) {}
	Result_t OpenWrite(std::string const& path, WriterInfo const&, PictureDescriptor const&, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const&, StereoscopicPhase_t, AESEncContext* = nullptr, HMACContext* = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, StereoscopicPhase_t);
	Result_t Finalize();
	ui64_t Tell() const { return _w.tell(); }
private:
	shim::Writer _w;
	StereoscopicPhase_t _next;
};

class MXFSReader
{
public:
	explicit MXFSReader(Kumu::IFileReaderFactory const&) {}
	MXFSReader(MXFSReader const&) = delete;
	Result_t OpenRead(std::string const& path) const;
	Result_t FillPictureDescriptor(PictureDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadFrame(ui32_t, SFrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;
	Result_t ReadFrame(ui32_t, StereoscopicPhase_t, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;
private:
	mutable shim::Reader _r;
};

}

namespace PCM {

enum ChannelFormat_t { CF_NONE, CF_CFG_1, CF_CFG_2, CF_CFG_3, CF_CFG_4, CF_CFG_5, CF_CFG_6 };

struct AudioDescriptor
{
	Rational EditRate;
	Rational AudioSamplingRate;
	ui32_t Locked;
	ui32_t ChannelCount;
	ui32_t QuantizationBits;
	ui32_t BlockAlign;
	ui32_t AvgBps;
	ui32_t LinkedTrackID;
	ui32_t ContainerDuration;
	ChannelFormat_t ChannelFormat;
	AudioDescriptor() : Locked(0), ChannelCount(0), QuantizationBits(0), BlockAlign(0), AvgBps(0), LinkedTrackID(0), ContainerDuration(0), ChannelFormat(CF_NONE) {}
};

ui32_t CalcFrameBufferSize(AudioDescriptor const&);

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	FrameBuffer(ui32_t size) { Capacity(size); }
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const&, AudioDescriptor const&, ui32_t header_size = 16384);
	Result_t WriteFrame(FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t Finalize();
	MXF::OP1aHeader& OP1aHeader() { return _w.op1a; }
private:
	shim::Writer _w;
};

SHIM_READER(AudioDescriptor, FillAudioDescriptor, FrameBuffer, Result_t ReadFrame(ui32_t, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;)

}

namespace DCData {

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	FrameBuffer(ui32_t size) { Capacity(size); }
};

}

namespace ATMOS {

struct AtmosDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration;
	ui32_t FirstFrame;
	ui16_t MaxChannelCount;
	ui16_t MaxObjectCount;
	byte_t AtmosID[UUIDlen];
	ui32_t AtmosVersion;
	AtmosDescriptor() : ContainerDuration(0), FirstFrame(0), MaxChannelCount(0), MaxObjectCount(0), AtmosVersion(0) { memset(AtmosID, 0, UUIDlen); }
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const&, AtmosDescriptor const&, ui32_t header_size = 16384);
	Result_t WriteFrame(DCData::FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t Finalize();
private:
	shim::Writer _w;
};

SHIM_READER(AtmosDescriptor, FillAtmosDescriptor, DCData::FrameBuffer, Result_t ReadFrame(ui32_t, DCData::FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;)

}

namespace TimedText {

enum MIMEType_t { MT_BIN, MT_PNG, MT_OPENTYPE };

struct TimedTextResourceDescriptor
{
	byte_t ResourceID[UUIDlen];
	MIMEType_t Type;
	TimedTextResourceDescriptor() : Type(MT_BIN) { memset(ResourceID, 0, UUIDlen); }
};

struct TimedTextDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration;
	byte_t AssetID[UUIDlen];
	std::string NamespaceName;
	std::string EncodingName;
	std::list<TimedTextResourceDescriptor> ResourceList;
	TimedTextDescriptor() : ContainerDuration(0), EncodingName("UTF-8") { memset(AssetID, 0, UUIDlen); }
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	FrameBuffer(ui32_t size) { Capacity(size); }
};

class MXFWriter
{
public:
	MXFWriter() : _state(0) {}
	Result_t OpenWrite(std::string const& path, WriterInfo const&, TimedTextDescriptor const&, ui32_t header_size = 16384);
	Result_t WriteTimedTextResource(std::string const& xml, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t WriteAncillaryResource(FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr);
	Result_t Finalize();
private:
	shim::Writer _w;
	int _state;
	ui32_t _duration;
};

SHIM_READER(TimedTextDescriptor, FillTimedTextDescriptor, FrameBuffer,
	Result_t ReadTimedTextResource(std::string&, AESDecContext* = nullptr, HMACContext* = nullptr) const;
	Result_t ReadAncillaryResource(byte_t const* id, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;)

}

namespace MPEG2 {

enum FrameType_t { FRAME_U = 0x00, FRAME_I = 0x01, FRAME_P = 0x02, FRAME_B = 0x03 };

struct VideoDescriptor
{
	Rational EditRate;
	ui32_t FrameRate;
	Rational SampleRate;
	ui8_t FrameLayout;
	ui32_t StoredWidth;
	ui32_t StoredHeight;
	Rational AspectRatio;
	ui32_t ComponentDepth;
	ui32_t ContainerDuration;
	VideoDescriptor() : FrameRate(0), FrameLayout(0), StoredWidth(0), StoredHeight(0), ComponentDepth(0), ContainerDuration(0) {}
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() : _type(FRAME_U), _offset(0), _closed(false), _start(false) {}
	FrameBuffer(ui32_t size) : _type(FRAME_U), _offset(0), _closed(false), _start(false) { Capacity(size); }
	FrameType_t FrameType() const { return _type; }
	ui8_t TemporalOffset() const { return _offset; }
	bool GOPStart() const { return _start; }
	bool ClosedGOP() const { return _closed; }
private:
	FrameType_t _type;
	ui8_t _offset;
	bool _closed;
	bool _start;
};

class Parser
{
public:
	Result_t OpenRead(byte_t const* data, ui32_t size) const;
	Result_t FillVideoDescriptor(VideoDescriptor&) const;
private:
	mutable VideoDescriptor _desc;
};

class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const&, VideoDescriptor const&, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const&, AESEncContext* = nullptr, HMACContext* = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, FrameType_t, bool gop_start, bool closed_gop, ui8_t temporal_offset);
	Result_t Finalize();
	ui64_t Tell() const { return _w.tell(); }
private:
	shim::Writer _w;
};

SHIM_READER(VideoDescriptor, FillVideoDescriptor, FrameBuffer, Result_t ReadFrame(ui32_t, FrameBuffer&, AESDecContext* = nullptr, HMACContext* = nullptr) const;)

}

}

#endif
