/* Stand-in for asdcplib.  A track file is
 *     "SHIMMXF1", complete (1 byte), position of the footer (8 bytes), zeros up to the size asked for the header;
 *     the frames, one after another;
 *     the footer: type, information, descriptor, index of the frames, and a digest of all this.
 * A frame is its number (4), length (4), stored length (4), whether it is encrypted and twice the number of bytes that are not (4), initialization vector (16), data, integrity code (20).
 */
#include <asdcp/AS_DCP.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <openssl/md5.h>
#include <cerrno>
#include <cmath>
#include <sys/stat.h>
#include <unistd.h>

using std::string;
using std::vector;
using std::pair;

int (*shim_asdcp_fault)(char const* operation) = nullptr;

namespace dcp {
	char const* version = "devel";
	char const* git_commit = "unknown";
	char const* built_by = "verif";
}

namespace Kumu {

ILogSink& DefaultLogSink()
{
	static ILogSink sink;
	return sink;
}

char const* bin2hex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len)
{
	if (bin_len * 2 + 1 > str_len) {
		return nullptr;
	}
	for (ui32_t i = 0; i < bin_len; ++i) {
		snprintf(str + i * 2, 3, "%02x", bin[i]);
	}
	str[bin_len * 2] = 0;
	return str;
}

char const* bin2UUIDhex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len)
{
	if (bin_len != 16 || str_len < 37) {
		return nullptr;
	}
	char* p = str;
	for (int i = 0; i < 16; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) {
			*p++ = '-';
		}
		snprintf(p, 3, "%02x", bin[i]);
		p += 2;
	}
	*p = 0;
	return str;
}

int hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size)
{
	*conv_size = 0;
	if (!str || !buf) {
		return -1;
	}
	memset(buf, 0, buf_len);
	bool high = true;
	for (; *str; ++str) {
		int v;
		if (*str >= '0' && *str <= '9') {
			v = *str - '0';
		} else if (*str >= 'a' && *str <= 'f') {
			v = *str - 'a' + 10;
		} else if (*str >= 'A' && *str <= 'F') {
			v = *str - 'A' + 10;
		} else {
			continue;
		}
		if (*conv_size >= buf_len) {
			return -1;
		}
		if (high) {
			buf[*conv_size] = v << 4;
		} else {
			buf[(*conv_size)++] |= v;
		}
		high = !high;
	}
	return 0;
}

char const* base64encode(byte_t const* buf, ui32_t buf_len, char* out, ui32_t out_len)
{
	if (out_len < (buf_len + 2) / 3 * 4 + 1) {
		return nullptr;
	}
	int const n = EVP_EncodeBlock(reinterpret_cast<unsigned char*>(out), buf, buf_len);
	out[n] = 0;
	return out;
}

byte_t const* FortunaRNG::FillRandom(byte_t* buf, ui32_t len)
{
	RAND_bytes(buf, len);
	return buf;
}

void GenRandomUUID(byte_t* buf)
{
	FortunaRNG().FillRandom(buf, 16);
	buf[6] = (buf[6] & 0x0f) | 0x40;
	buf[8] = (buf[8] & 0x3f) | 0x80;
}

void GenRandomValue(UUID& id)
{
	byte_t buf[16];
	GenRandomUUID(buf);
	id.Set(buf);
}

static Result_t os_error(Result_t const& r, int e) { return Result_t(r.Value(), r.Label(), r.Message(), e); }

Result_t FileReader::OpenRead(string const& path)
{
	Close();
	struct stat st;
	if (stat(path.c_str(), &st) != 0) {
		return os_error(RESULT_NOT_FOUND, errno);
	}
	if (S_ISDIR(st.st_mode)) {
		return RESULT_FILEOPEN;
	}
	_f = fopen(path.c_str(), "rb");
	return _f ? RESULT_OK : os_error(RESULT_FILEOPEN, errno);
}

Result_t FileReader::Read(byte_t* buf, ui32_t len, ui32_t* done)
{
	ui32_t dummy;
	if (!done) {
		done = &dummy;
	}
	*done = 0;
	if (!_f) {
		return RESULT_FILEOPEN;
	}
	*done = fread(buf, 1, len, _f);
	if (*done == 0) {
		return ferror(_f) ? os_error(RESULT_READFAIL, errno) : RESULT_ENDOFFILE;
	}
	return RESULT_OK;
}

fsize_t FileReader::Size() const
{
	struct stat st;
	return (_f && fstat(fileno(_f), &st) == 0) ? st.st_size : 0;
}

Result_t FileReader::Close()
{
	if (_f) {
		fclose(_f);
		_f = nullptr;
	}
	return RESULT_OK;
}

}

namespace ASDCP {

using Kumu::os_error;

Result_t AESEncContext::InitKey(byte_t const* key) { memcpy(_key, key, KeyLen); _ready = true; return RESULT_OK; }
Result_t AESEncContext::SetIVec(byte_t const* iv) { memcpy(_iv, iv, CBC_BLOCK_SIZE); return RESULT_OK; }
Result_t AESDecContext::InitKey(byte_t const* key) { memcpy(_key, key, KeyLen); _ready = true; return RESULT_OK; }
Result_t AESDecContext::SetIVec(byte_t const* iv) { memcpy(_iv, iv, CBC_BLOCK_SIZE); return RESULT_OK; }

Result_t HMACContext::InitKey(byte_t const* key, LabelSet_t type)
{
	byte_t in[KeyLen + 1];
	memcpy(in, key, KeyLen);
	in[KeyLen] = type;
	byte_t out[SHA_DIGEST_LENGTH];
	SHA1(in, sizeof(in), out);
	memcpy(_key, out, KeyLen);
	_ready = true;
	return RESULT_OK;
}

Result_t FrameBuffer::SetData(byte_t* buf, ui32_t len)
{
	if (_own) {
		free(_data);
	}
	_data = buf;
	_capacity = len;
	_own = false;
	return RESULT_OK;
}

Result_t FrameBuffer::Capacity(ui32_t c)
{
	if (!_own) {
		return RESULT_CAPEXTMEM;
	}
	if (c > _capacity) {
		free(_data);
		_data = static_cast<byte_t*>(calloc(c, 1));
		if (!_data) {
			_capacity = 0;
			return Kumu::RESULT_ALLOC;
		}
		_capacity = c;
		_size = 0;
	}
	return RESULT_OK;
}

char const* UL::EncodeString(char* buf, ui32_t len) const
{
	byte_t const* v = _value;
	snprintf(buf, len, "%02x%02x%02x%02x.%02x%02x%02x%02x.%02x%02x%02x%02x.%02x%02x%02x%02x", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
	return buf;
}

UL Dictionary::ul(MDD_t t) const
{
	byte_t v[16] = { 0x06, 0x0e, 0x2b, 0x34, 0x04, 0x01, 0x01, 0x0d, 0x03, 0x02, 0x01, 0, 0, 0, 0, 0 };
	v[12] = 1 + t;
	return UL(v);
}

Dictionary const& DefaultSMPTEDict()
{
	static Dictionary d;
	return d;
}

MXF::OP1aHeader::~OP1aHeader()
{
	for (auto i: objects) {
		delete i;
	}
}

Result_t MXF::OP1aHeader::GetMDObjectByType(UL const& type, InterchangeObject** object)
{
	for (auto i: objects) {
		if (DefaultSMPTEDict().ul(i->type) == type) {
			if (object) {
				*object = i;
			}
			return RESULT_OK;
		}
	}
	if (object) {
		*object = nullptr;
	}
	return RESULT_FAIL;
}

Result_t MXF::OP1aHeader::GetMDObjectsByType(UL const& type, std::list<InterchangeObject*>& out)
{
	out.clear();
	for (auto i: objects) {
		if (DefaultSMPTEDict().ul(i->type) == type) {
			out.push_back(i);
		}
	}
	return out.empty() ? RESULT_FAIL : RESULT_OK;
}

namespace shim {

struct Out
{
	string s;
	void bytes(void const* p, size_t n) { s.append(static_cast<char const*>(p), n); }
	void u32(ui32_t v) { bytes(&v, 4); }
	void u64(ui64_t v) { bytes(&v, 8); }
	void str(string const& v) { u32(v.size()); s += v; }
	void rat(Rational const& r) { u64(r.Numerator); u64(r.Denominator); }
};

struct In
{
	string const& s;
	size_t p;
	bool bad;
	explicit In(string const& t) : s(t), p(0), bad(false) {}
	void bytes(void* o, size_t n)
	{
		if (bad || n > s.size() - p) {
			bad = true;
			memset(o, 0, n);
			return;
		}
		memcpy(o, s.data() + p, n);
		p += n;
	}
	ui32_t u32() { ui32_t v; bytes(&v, 4); return v; }
	ui64_t u64() { ui64_t v; bytes(&v, 8); return v; }
	string str()
	{
		ui32_t const n = u32();
		if (bad || n > s.size() - p) {
			bad = true;
			return "";
		}
		string r = s.substr(p, n);
		p += n;
		return r;
	}
	Rational rat() { Rational r; r.Numerator = u64(); r.Denominator = u64(); return r; }
};

static char const magic[] = "SHIMMXF1";

static int fault(char const* op) { return shim_asdcp_fault ? shim_asdcp_fault(op) : 0; }

static void object_out(Out& o, MXF::InterchangeObject* i)
{
	o.u32(i->type);
	o.bytes(i->InstanceUID.Value(), 16);
	if (auto w = dynamic_cast<MXF::WaveAudioDescriptor*>(i)) {
		o.u32(!w->ChannelAssignment.empty());
		o.bytes(w->ChannelAssignment.get().Value(), 16);
		o.u32(w->SubDescriptors.size());
		for (auto const& j: w->SubDescriptors) {
			o.bytes(j.Value(), 16);
		}
	} else if (auto l = dynamic_cast<MXF::MCALabelSubDescriptor*>(i)) {
		o.bytes(l->MCALabelDictionaryID.Value(), 16);
		o.bytes(l->MCALinkID.Value(), 16);
		o.str(l->MCATagSymbol);
		o.u32(!l->MCATagName.empty());
		o.str(l->MCATagName.get());
		o.u32(!l->MCAChannelID.empty());
		o.u32(l->MCAChannelID.empty() ? 0 : l->MCAChannelID.get());
		o.u32(!l->RFC5646SpokenLanguage.empty());
		o.str(l->RFC5646SpokenLanguage.get());
		auto c = dynamic_cast<MXF::AudioChannelLabelSubDescriptor*>(i);
		o.u32(c && !c->SoundfieldGroupLinkID.empty());
		Kumu::UUID none;
		o.bytes(c ? c->SoundfieldGroupLinkID.get().Value() : none.Value(), 16);
	}
}

static MXF::InterchangeObject* object_in(In& in)
{
	auto const type = static_cast<MDD_t>(in.u32());
	byte_t id[16];
	in.bytes(id, 16);
	byte_t b[16];
	MXF::InterchangeObject* r = nullptr;
	if (type == MDD_WaveAudioDescriptor) {
		auto w = new MXF::WaveAudioDescriptor(nullptr);
		bool const has = in.u32();
		in.bytes(b, 16);
		if (has) {
			w->ChannelAssignment = UL(b);
		}
		ui32_t const n = in.u32();
		for (ui32_t i = 0; i < n && !in.bad; ++i) {
			in.bytes(b, 16);
			w->SubDescriptors.push_back(Kumu::UUID(b));
		}
		r = w;
	} else {
		MXF::MCALabelSubDescriptor* l;
		if (type == MDD_SoundfieldGroupLabelSubDescriptor) {
			l = new MXF::SoundfieldGroupLabelSubDescriptor(nullptr);
		} else {
			l = new MXF::AudioChannelLabelSubDescriptor(nullptr);
		}
		in.bytes(b, 16);
		l->MCALabelDictionaryID = UL(b);
		in.bytes(b, 16);
		l->MCALinkID = Kumu::UUID(b);
		l->MCATagSymbol = in.str();
		bool has = in.u32();
		string s = in.str();
		if (has) {
			l->MCATagName = MXF::UTF16String(s);
		}
		has = in.u32();
		ui32_t const n = in.u32();
		if (has) {
			l->MCAChannelID = n;
		}
		has = in.u32();
		s = in.str();
		if (has) {
			l->RFC5646SpokenLanguage = MXF::UTF16String(s);
		}
		has = in.u32();
		in.bytes(b, 16);
		if (has) {
			if (auto c = dynamic_cast<MXF::AudioChannelLabelSubDescriptor*>(l)) {
				c->SoundfieldGroupLinkID = Kumu::UUID(b);
			}
		}
		r = l;
	}
	r->InstanceUID.Set(id);
	return r;
}

Writer::~Writer()
{
	if (_f) {
		fclose(_f);
	}
}

Result_t Writer::put(void const* data, size_t size)
{
	if (fwrite(data, 1, size, _f) != size) {
		return os_error(Kumu::RESULT_WRITEFAIL, errno);
	}
	_pos += size;
	return RESULT_OK;
}

Result_t Writer::open(string const& path, Header const& h, bool overwrite, ui32_t header_size)
{
	if (_open) {
		return Kumu::RESULT_STATE;
	}
	if (int e = fault("open")) {
		return os_error(Kumu::RESULT_FILEOPEN, e);
	}
	_f = fopen(path.c_str(), overwrite ? "r+b" : "w+b");
	if (!_f && overwrite) {
		_f = fopen(path.c_str(), "w+b");
	}
	if (!_f) {
		return os_error(Kumu::RESULT_FILEOPEN, errno);
	}
	header = h;
	_pos = 0;
	string head(header_size, '\0');
	memcpy(&head[0], magic, 8);
	auto r = put(head.data(), head.size());
	if (ASDCP_FAILURE(r)) {
		return r;
	}
	fflush(_f);
	_open = true;
	return RESULT_OK;
}

Result_t Writer::frame(byte_t const* data, ui32_t size, AESEncContext* enc, HMACContext* hmac, string* hash, ui32_t flags, ui32_t plain)
{
	if (!_open || _done) {
		return Kumu::RESULT_STATE;
	}
	if (int e = fault("frame")) {
		return os_error(Kumu::RESULT_WRITEFAIL, e);
	}
	if (header.info.EncryptedEssence && !enc) {
		return RESULT_CRYPT_CTX;
	}
	if (enc && !header.info.EncryptedEssence) {
		return RESULT_CRYPT_CTX;
	}
	if (enc && header.info.UsesHMAC && !hmac) {
		return RESULT_HMAC_CTX;
	}
	if (hash) {
		byte_t d[MD5_DIGEST_LENGTH];
		MD5(data, size, d);
		char out[2 * MD5_DIGEST_LENGTH + 1];
		*hash = Kumu::bin2hex(d, MD5_DIGEST_LENGTH, out, sizeof(out));
	}
	string body(reinterpret_cast<char const*>(data), size);
	byte_t iv[16] = { 0 };
	if (enc) {
		memcpy(iv, enc->_iv, 16);
		/* The frame's first bytes may be left as they are */
		plain = std::min(plain, size);
		string secret(16, 'C');
		secret += body.substr(plain);
		vector<byte_t> out(secret.size() + 32);
		int a = 0, b = 0;
		auto c = EVP_CIPHER_CTX_new();
		EVP_EncryptInit_ex(c, EVP_aes_128_cbc(), nullptr, enc->_key, iv);
		EVP_EncryptUpdate(c, out.data(), &a, reinterpret_cast<byte_t const*>(secret.data()), secret.size());
		EVP_EncryptFinal_ex(c, out.data() + a, &b);
		EVP_CIPHER_CTX_free(c);
		body = body.substr(0, plain) + string(reinterpret_cast<char*>(out.data()), a + b);
		memcpy(enc->_iv, body.data() + body.size() - 16, 16);
	}
	auto const start = _pos;
	Out o;
	o.u32(_index.size());
	o.u32(size);
	o.u32(body.size());
	o.u32(enc ? 1 + 2 * plain : 0);
	o.bytes(iv, 16);
	o.s += body;
	byte_t code[20] = { 0 };
	if (enc && hmac) {
		unsigned int n = 20;
		HMAC(EVP_sha1(), hmac->_key, KeyLen, reinterpret_cast<byte_t const*>(o.s.data()), o.s.size(), code, &n);
	}
	o.bytes(code, 20);
	auto r = put(o.s.data(), o.s.size());
	if (ASDCP_FAILURE(r)) {
		return r;
	}
	/* As a writer without a buffer of its own would: what is written before a crash is there afterwards */
	fflush(_f);
	_index.push_back(std::make_pair(start, flags));
	return RESULT_OK;
}

Result_t Writer::skip(ui32_t size, ui32_t flags)
{
	if (!_open || _done) {
		return Kumu::RESULT_STATE;
	}
	if (int e = fault("skip")) {
		return os_error(Kumu::RESULT_WRITEFAIL, e);
	}
	_index.push_back(std::make_pair(_pos, flags));
	_pos += size;
	if (fseeko(_f, _pos, SEEK_SET) != 0) {
		return Kumu::RESULT_BADSEEK;
	}
	return RESULT_OK;
}

Result_t Writer::finalize(ui32_t duration)
{
	if (!_open || _done) {
		return Kumu::RESULT_STATE;
	}
	if (int e = fault("finalize")) {
		return os_error(Kumu::RESULT_WRITEFAIL, e);
	}
	Out o;
	o.u32(header.type);
	o.bytes(header.info.AssetUUID, 16);
	o.bytes(header.info.ContextID, 16);
	o.bytes(header.info.CryptographicKeyID, 16);
	o.u32(header.info.EncryptedEssence);
	o.u32(header.info.UsesHMAC);
	o.str(header.info.ProductVersion);
	o.str(header.info.CompanyName);
	o.str(header.info.ProductName);
	o.u32(header.info.LabelSetType);
	o.rat(header.edit_rate);
	o.rat(header.sample_rate);
	o.rat(header.aspect);
	o.bytes(header.numbers, sizeof(header.numbers));
	o.bytes(header.id, 16);
	o.str(header.text);
	o.u32(header.resources.size());
	for (auto const& i: header.resources) {
		o.str(i.first);
		o.u32(i.second);
	}
	o.u32(duration);
	o.u32(_index.size());
	for (auto const& i: _index) {
		o.u64(i.first);
		o.u32(i.second);
	}
	o.u32(op1a.objects.size());
	for (auto i: op1a.objects) {
		object_out(o, i);
	}
	byte_t digest[SHA_DIGEST_LENGTH];
	SHA1(reinterpret_cast<byte_t const*>(o.s.data()), o.s.size(), digest);
	ui64_t const footer = _pos;
	Out f;
	f.bytes(digest, SHA_DIGEST_LENGTH);
	f.str(o.s);
	auto r = put(f.s.data(), f.s.size());
	if (ASDCP_FAILURE(r)) {
		return r;
	}
	if (ftruncate(fileno(_f), _pos) != 0) {}
	Out h;
	h.bytes(magic, 8);
	h.s += '\1';
	h.u64(footer);
	fseeko(_f, 0, SEEK_SET);
	fwrite(h.s.data(), 1, h.s.size(), _f);
	_done = true;
	bool const ok = fclose(_f) == 0;
	_f = nullptr;
	return ok ? RESULT_OK : os_error(Kumu::RESULT_WRITEFAIL, errno);
}

Reader::~Reader()
{
	if (_f) {
		fclose(_f);
	}
}

Result_t Reader::open(string const& path)
{
	if (_f) {
		return Kumu::RESULT_STATE;
	}
	struct stat st;
	if (stat(path.c_str(), &st) != 0 || S_ISDIR(st.st_mode)) {
		return Kumu::RESULT_NOT_FOUND;
	}
	_f = fopen(path.c_str(), "rb");
	if (!_f) {
		return os_error(Kumu::RESULT_FILEOPEN, errno);
	}
	char head[17];
	if (fread(head, 1, 17, _f) != 17 || memcmp(head, magic, 8) || head[8] != 1) {
		return RESULT_FORMAT;
	}
	ui64_t footer;
	memcpy(&footer, head + 9, 8);
	if (footer + 24 > static_cast<ui64_t>(st.st_size)) {
		return RESULT_FORMAT;
	}
	fseeko(_f, footer, SEEK_SET);
	string all(st.st_size - footer, '\0');
	if (fread(&all[0], 1, all.size(), _f) != all.size()) {
		return RESULT_FORMAT;
	}
	In f(all);
	byte_t digest[SHA_DIGEST_LENGTH];
	f.bytes(digest, SHA_DIGEST_LENGTH);
	string const body = f.str();
	byte_t actual[SHA_DIGEST_LENGTH];
	SHA1(reinterpret_cast<byte_t const*>(body.data()), body.size(), actual);
	if (f.bad || memcmp(digest, actual, SHA_DIGEST_LENGTH)) {
		return RESULT_FORMAT;
	}
	In in(body);
	header.type = static_cast<EssenceType_t>(in.u32());
	in.bytes(header.info.AssetUUID, 16);
	in.bytes(header.info.ContextID, 16);
	in.bytes(header.info.CryptographicKeyID, 16);
	header.info.EncryptedEssence = in.u32();
	header.info.UsesHMAC = in.u32();
	header.info.ProductVersion = in.str();
	header.info.CompanyName = in.str();
	header.info.ProductName = in.str();
	header.info.LabelSetType = static_cast<LabelSet_t>(in.u32());
	header.edit_rate = in.rat();
	header.sample_rate = in.rat();
	header.aspect = in.rat();
	in.bytes(header.numbers, sizeof(header.numbers));
	in.bytes(header.id, 16);
	header.text = in.str();
	ui32_t n = in.u32();
	for (ui32_t i = 0; i < n && !in.bad; ++i) {
		string id = in.str();
		int const t = in.u32();
		header.resources.push_back(std::make_pair(id, t));
	}
	duration = in.u32();
	n = in.u32();
	for (ui32_t i = 0; i < n && !in.bad; ++i) {
		ui64_t const p = in.u64();
		ui32_t const fl = in.u32();
		_index.push_back(std::make_pair(p, fl));
	}
	n = in.u32();
	for (ui32_t i = 0; i < n && !in.bad; ++i) {
		op1a.objects.push_back(object_in(in));
	}
	return in.bad ? RESULT_FORMAT : RESULT_OK;
}

Result_t Reader::frame(ui32_t n, FrameBuffer& fb, AESDecContext* dec, HMACContext* hmac, ui32_t* flags) const
{
	if (!_f) {
		return Kumu::RESULT_INIT;
	}
	if (n >= _index.size()) {
		return RESULT_RANGE;
	}
	/* Readers may be shared between threads */
	int const fd = fileno(_f);
	string head(32, '\0');
	if (pread(fd, &head[0], 32, _index[n].first) != 32) {
		return Kumu::RESULT_READFAIL;
	}
	In in(head);
	ui32_t const number = in.u32();
	ui32_t const size = in.u32();
	ui32_t const stored = in.u32();
	ui32_t const encryption = in.u32();
	bool const encrypted = encryption & 1;
	ui32_t const open = encryption >> 1;
	byte_t iv[16];
	in.bytes(iv, 16);
	if (stored > 512 * 1024 * 1024 || number != n || open > stored) {
		return RESULT_FORMAT;
	}
	string body(stored + 20, '\0');
	if (pread(fd, &body[0], stored + 20, _index[n].first + 32) != static_cast<ssize_t>(stored + 20)) {
		return Kumu::RESULT_READFAIL;
	}
	byte_t code[20];
	memcpy(code, body.data() + stored, 20);
	body.resize(stored);
	if (encrypted && dec) {
		if (hmac) {
			byte_t expected[20];
			unsigned int m = 20;
			string const covered = head + body;
			HMAC(EVP_sha1(), hmac->_key, KeyLen, reinterpret_cast<byte_t const*>(covered.data()), covered.size(), expected, &m);
			if (memcmp(code, expected, 20)) {
				return RESULT_HMACFAIL;
			}
		}
		vector<byte_t> out(body.size() + 32);
		int a = 0, b = 0;
		auto c = EVP_CIPHER_CTX_new();
		EVP_DecryptInit_ex(c, EVP_aes_128_cbc(), nullptr, dec->_key, iv);
		int ok = EVP_DecryptUpdate(c, out.data(), &a, reinterpret_cast<byte_t const*>(body.data()) + open, body.size() - open);
		ok = ok && EVP_DecryptFinal_ex(c, out.data() + a, &b);
		EVP_CIPHER_CTX_free(c);
		string const plain(reinterpret_cast<char*>(out.data()), ok ? a + b : 0);
		if (!ok || open + plain.size() != size + 16 || plain.substr(0, 16) != string(16, 'C')) {
			return RESULT_CHECKFAIL;
		}
		body = body.substr(0, open) + plain.substr(16);
	}
	if (body.size() > fb.Capacity()) {
		return Kumu::RESULT_SMALLBUF;
	}
	memcpy(fb.Data(), body.data(), body.size());
	fb.Size(body.size());
	fb.FrameNumber(n);
	if (flags) {
		*flags = _index[n].second;
	}
	return RESULT_OK;
}

}

Result_t EssenceType(string const& path, EssenceType_t& type, Kumu::IFileReaderFactory const&)
{
	type = ESS_UNKNOWN;
	shim::Reader r;
	auto const result = r.open(path);
	if (result == RESULT_FORMAT) {
		return RESULT_OK;
	}
	if (ASDCP_FAILURE(result)) {
		return result;
	}
	type = r.header.type;
	return RESULT_OK;
}

#define SHIM_OPEN(NS, TYPE_OK) \
	Result_t NS::MXFReader::OpenRead(string const& path) const \
	{ \
		auto r = _r.open(path); \
		if (ASDCP_FAILURE(r)) { return r; } \
		auto const t = _r.header.type; \
		return (TYPE_OK) ? RESULT_OK : RESULT_FORMAT; \
	} \
	Result_t NS::MXFReader::FillWriterInfo(WriterInfo& i) const { i = _r.header.info; return RESULT_OK; }

/* JPEG2000 */

namespace JP2K {

static void pack(shim::Header& h, PictureDescriptor const& d)
{
	h.edit_rate = d.EditRate;
	h.sample_rate = d.SampleRate;
	h.aspect = d.AspectRatio;
	ui32_t const n[] = { d.StoredWidth, d.StoredHeight, d.Rsize, d.Xsize, d.Ysize, d.XOsize, d.YOsize, d.XTsize, d.YTsize, d.XTOsize, d.YTOsize, d.Csize };
	memcpy(h.numbers, n, sizeof(n));
}

static void unpack(shim::Reader const& r, PictureDescriptor& d)
{
	auto const& h = r.header;
	d.EditRate = h.edit_rate;
	d.SampleRate = h.sample_rate;
	d.AspectRatio = h.aspect;
	auto n = h.numbers;
	d.StoredWidth = n[0]; d.StoredHeight = n[1]; d.Rsize = n[2]; d.Xsize = n[3]; d.Ysize = n[4]; d.XOsize = n[5]; d.YOsize = n[6];
	d.XTsize = n[7]; d.YTsize = n[8]; d.XTOsize = n[9]; d.YTOsize = n[10]; d.Csize = n[11];
	d.ContainerDuration = r.duration;
}

Result_t CodestreamParser::OpenReadFrame(byte_t const* p, ui32_t size, FrameBuffer& fb) const
{
	/* SOC, then SIZ */
	if (size < 45 || p[0] != 0xff || p[1] != 0x4f || p[2] != 0xff || p[3] != 0x51) {
		return Kumu::RESULT_FAIL;
	}
	if (size > fb.Capacity()) {
		return Kumu::RESULT_SMALLBUF;
	}
	auto u16 = [p](int o) { return ui32_t(p[o]) << 8 | p[o + 1]; };
	auto u32 = [p](int o) { return ui32_t(p[o]) << 24 | ui32_t(p[o + 1]) << 16 | ui32_t(p[o + 2]) << 8 | p[o + 3]; };
	_desc = PictureDescriptor();
	_desc.Rsize = u16(6);
	_desc.Xsize = u32(8);
	_desc.Ysize = u32(12);
	_desc.XOsize = u32(16);
	_desc.YOsize = u32(20);
	_desc.XTsize = u32(24);
	_desc.YTsize = u32(28);
	_desc.XTOsize = u32(32);
	_desc.YTOsize = u32(36);
	_desc.Csize = u16(40);
	_desc.StoredWidth = _desc.Xsize;
	_desc.StoredHeight = _desc.Ysize;
	_desc.AspectRatio = Rational(_desc.Xsize, _desc.Ysize);
	memcpy(fb.Data(), p, size);
	fb.Size(size);
	/* The header may be left unencrypted, unless something else is said */
	fb.PlaintextOffset(45);
	return RESULT_OK;
}

Result_t CodestreamParser::FillPictureDescriptor(PictureDescriptor& d) const { d = _desc; return RESULT_OK; }

Result_t MXFWriter::OpenWrite(string const& path, WriterInfo const& info, PictureDescriptor const& d, ui32_t size, bool overwrite)
{
	shim::Header h;
	h.type = ESS_JPEG_2000;
	h.info = info;
	pack(h, d);
	h.sample_rate = d.EditRate;
	return _w.open(path, h, overwrite, size);
}

Result_t MXFWriter::WriteFrame(FrameBuffer const& fb, AESEncContext* e, HMACContext* m, string* hash)
{
	return _w.frame(fb.RoData(), fb.Size(), e, m, hash, 0, fb.PlaintextOffset());
}

Result_t MXFWriter::FakeWriteFrame(int size) { return _w.skip(size, 0); }
Result_t MXFWriter::Finalize() { return _w.finalize(_w.frames()); }

Result_t MXFReader::OpenRead(string const& path) const
{
	auto r = _r.open(path);
	if (ASDCP_FAILURE(r)) {
		return r;
	}
	if (_r.header.type == ESS_JPEG_2000_S) {
		return RESULT_SFORMAT;
	}
	return _r.header.type == ESS_JPEG_2000 ? RESULT_OK : RESULT_FORMAT;
}

Result_t MXFReader::FillWriterInfo(WriterInfo& i) const { i = _r.header.info; return RESULT_OK; }
Result_t MXFReader::FillPictureDescriptor(PictureDescriptor& d) const { unpack(_r, d); return RESULT_OK; }
Result_t MXFReader::ReadFrame(ui32_t n, FrameBuffer& fb, AESDecContext* d, HMACContext* h) const { return _r.frame(n, fb, d, h); }

Result_t MXFSWriter::OpenWrite(string const& path, WriterInfo const& info, PictureDescriptor const& d, ui32_t size, bool overwrite)
{
	shim::Header h;
	h.type = ESS_JPEG_2000_S;
	h.info = info;
	pack(h, d);
	h.sample_rate = Rational(d.EditRate.Numerator * 2, d.EditRate.Denominator);
	return _w.open(path, h, overwrite, size);
}

Result_t MXFSWriter::WriteFrame(FrameBuffer const& fb, StereoscopicPhase_t phase, AESEncContext* e, HMACContext* m, string* hash)
{
	if (phase != _next) {
		return RESULT_SPHASE;
	}
	auto r = _w.frame(fb.RoData(), fb.Size(), e, m, hash, phase, fb.PlaintextOffset());
	if (ASDCP_SUCCESS(r)) {
		_next = _next == SP_LEFT ? SP_RIGHT : SP_LEFT;
	}
	return r;
}

Result_t MXFSWriter::FakeWriteFrame(int size, StereoscopicPhase_t phase)
{
	if (phase != _next) {
		return RESULT_SPHASE;
	}
	_next = _next == SP_LEFT ? SP_RIGHT : SP_LEFT;
	return _w.skip(size, phase);
}

Result_t MXFSWriter::Finalize()
{
	if (_next != SP_LEFT) {
		return RESULT_SPHASE;
	}
	return _w.finalize(_w.frames() / 2);
}

Result_t MXFSReader::OpenRead(string const& path) const
{
	auto r = _r.open(path);
	if (ASDCP_FAILURE(r)) {
		return r;
	}
	return _r.header.type == ESS_JPEG_2000_S ? RESULT_OK : RESULT_FORMAT;
}

Result_t MXFSReader::FillWriterInfo(WriterInfo& i) const { i = _r.header.info; return RESULT_OK; }
Result_t MXFSReader::FillPictureDescriptor(PictureDescriptor& d) const { unpack(_r, d); return RESULT_OK; }

Result_t MXFSReader::ReadFrame(ui32_t n, StereoscopicPhase_t phase, FrameBuffer& fb, AESDecContext* d, HMACContext* h) const
{
	return _r.frame(n * 2 + (phase == SP_RIGHT ? 1 : 0), fb, d, h);
}

Result_t MXFSReader::ReadFrame(ui32_t n, SFrameBuffer& fb, AESDecContext* d, HMACContext* h) const
{
	auto r = ReadFrame(n, SP_LEFT, fb.Left, d, h);
	return ASDCP_FAILURE(r) ? r : ReadFrame(n, SP_RIGHT, fb.Right, d, h);
}

}

/* Sound */

namespace PCM {

ui32_t CalcFrameBufferSize(AudioDescriptor const& d)
{
	return static_cast<ui32_t>(std::ceil(d.AudioSamplingRate.Quotient() / d.EditRate.Quotient())) * (d.QuantizationBits / 8) * d.ChannelCount;
}

Result_t MXFWriter::OpenWrite(string const& path, WriterInfo const& info, AudioDescriptor const& d, ui32_t size)
{
	shim::Header h;
	h.type = d.AudioSamplingRate == Rational(96000, 1) ? ESS_PCM_24b_96k : ESS_PCM_24b_48k;
	h.info = info;
	h.edit_rate = d.EditRate;
	h.sample_rate = d.AudioSamplingRate;
	ui32_t const n[] = { d.Locked, d.ChannelCount, d.QuantizationBits, d.BlockAlign, d.AvgBps, d.LinkedTrackID, d.ChannelFormat };
	memcpy(h.numbers, n, sizeof(n));
	_w.op1a.AddChildObject(new MXF::WaveAudioDescriptor(nullptr));
	return _w.open(path, h, false, size);
}

Result_t MXFWriter::WriteFrame(FrameBuffer const& fb, AESEncContext* e, HMACContext* m) { return _w.frame(fb.RoData(), fb.Size(), e, m, nullptr, 0, fb.PlaintextOffset()); }
Result_t MXFWriter::Finalize() { return _w.finalize(_w.frames()); }

Result_t MXFReader::FillAudioDescriptor(AudioDescriptor& d) const
{
	auto const& h = _r.header;
	d.EditRate = h.edit_rate;
	d.AudioSamplingRate = h.sample_rate;
	auto n = h.numbers;
	d.Locked = n[0]; d.ChannelCount = n[1]; d.QuantizationBits = n[2]; d.BlockAlign = n[3]; d.AvgBps = n[4]; d.LinkedTrackID = n[5];
	d.ChannelFormat = static_cast<ChannelFormat_t>(n[6]);
	d.ContainerDuration = _r.duration;
	return RESULT_OK;
}

Result_t MXFReader::ReadFrame(ui32_t n, FrameBuffer& fb, AESDecContext* d, HMACContext* h) const { return _r.frame(n, fb, d, h); }

}

SHIM_OPEN(PCM, t == ESS_PCM_24b_48k || t == ESS_PCM_24b_96k)

/* Atmos */

namespace ATMOS {

Result_t MXFWriter::OpenWrite(string const& path, WriterInfo const& info, AtmosDescriptor const& d, ui32_t size)
{
	shim::Header h;
	h.type = ESS_DCDATA_DOLBY_ATMOS;
	h.info = info;
	h.edit_rate = d.EditRate;
	ui32_t const n[] = { d.FirstFrame, d.MaxChannelCount, d.MaxObjectCount, d.AtmosVersion };
	memcpy(h.numbers, n, sizeof(n));
	memcpy(h.id, d.AtmosID, 16);
	return _w.open(path, h, false, size);
}

Result_t MXFWriter::WriteFrame(DCData::FrameBuffer const& fb, AESEncContext* e, HMACContext* m) { return _w.frame(fb.RoData(), fb.Size(), e, m, nullptr, 0, fb.PlaintextOffset()); }
Result_t MXFWriter::Finalize() { return _w.finalize(_w.frames()); }

Result_t MXFReader::FillAtmosDescriptor(AtmosDescriptor& d) const
{
	auto const& h = _r.header;
	d.EditRate = h.edit_rate;
	d.ContainerDuration = _r.duration;
	d.FirstFrame = h.numbers[0];
	d.MaxChannelCount = h.numbers[1];
	d.MaxObjectCount = h.numbers[2];
	d.AtmosVersion = h.numbers[3];
	memcpy(d.AtmosID, h.id, 16);
	return RESULT_OK;
}

Result_t MXFReader::ReadFrame(ui32_t n, DCData::FrameBuffer& fb, AESDecContext* d, HMACContext* h) const { return _r.frame(n, fb, d, h); }

}

SHIM_OPEN(ATMOS, t == ESS_DCDATA_DOLBY_ATMOS)

/* Timed text */

namespace TimedText {

Result_t MXFWriter::OpenWrite(string const& path, WriterInfo const& info, TimedTextDescriptor const& d, ui32_t size)
{
	shim::Header h;
	h.type = ESS_TIMED_TEXT;
	h.info = info;
	h.edit_rate = d.EditRate;
	memcpy(h.id, d.AssetID, 16);
	h.text = d.NamespaceName + "\n" + d.EncodingName;
	for (auto const& i: d.ResourceList) {
		h.resources.push_back(std::make_pair(string(reinterpret_cast<char const*>(i.ResourceID), 16), static_cast<int>(i.Type)));
	}
	_duration = d.ContainerDuration;
	_state = 1;
	return _w.open(path, h, false, size);
}

Result_t MXFWriter::WriteTimedTextResource(string const& xml, AESEncContext* e, HMACContext* m)
{
	if (_state != 1) {
		return Kumu::RESULT_STATE;
	}
	_state = 2;
	return _w.frame(reinterpret_cast<byte_t const*>(xml.data()), xml.size(), e, m, nullptr, 0);
}

Result_t MXFWriter::WriteAncillaryResource(FrameBuffer const& fb, AESEncContext* e, HMACContext* m)
{
	if (_state != 2 || _w.frames() > _w.header.resources.size()) {
		return Kumu::RESULT_STATE;
	}
	return _w.frame(fb.RoData(), fb.Size(), e, m, nullptr, 0, fb.PlaintextOffset());
}

Result_t MXFWriter::Finalize() { return _w.finalize(_duration); }

Result_t MXFReader::FillTimedTextDescriptor(TimedTextDescriptor& d) const
{
	auto const& h = _r.header;
	d.EditRate = h.edit_rate;
	d.ContainerDuration = _r.duration;
	memcpy(d.AssetID, h.id, 16);
	auto const cut = h.text.find('\n');
	d.NamespaceName = h.text.substr(0, cut);
	d.EncodingName = h.text.substr(cut + 1);
	d.ResourceList.clear();
	for (auto const& i: h.resources) {
		TimedTextResourceDescriptor r;
		memcpy(r.ResourceID, i.first.data(), 16);
		r.Type = static_cast<MIMEType_t>(i.second);
		d.ResourceList.push_back(r);
	}
	return RESULT_OK;
}

Result_t MXFReader::ReadTimedTextResource(string& s, AESDecContext* d, HMACContext* h) const
{
	FrameBuffer fb(64 * Kumu::Megabyte);
	auto r = _r.frame(0, fb, d, h);
	if (ASDCP_SUCCESS(r)) {
		s.assign(reinterpret_cast<char const*>(fb.RoData()), fb.Size());
	}
	return r;
}

Result_t MXFReader::ReadAncillaryResource(byte_t const* id, FrameBuffer& fb, AESDecContext* d, HMACContext* h) const
{
	auto const& res = _r.header.resources;
	for (size_t i = 0; i < res.size(); ++i) {
		if (memcmp(res[i].first.data(), id, 16) == 0) {
			return _r.frame(i + 1, fb, d, h);
		}
	}
	return RESULT_RANGE;
}

}

SHIM_OPEN(TimedText, t == ESS_TIMED_TEXT)

/* MPEG2 */

namespace MPEG2 {

Result_t Parser::OpenRead(byte_t const* p, ui32_t size) const
{
	/* A sequence header */
	if (size < 12 || p[0] != 0 || p[1] != 0 || p[2] != 1 || p[3] != 0xb3) {
		return Kumu::RESULT_FAIL;
	}
	_desc = VideoDescriptor();
	_desc.StoredWidth = p[4] << 4 | p[5] >> 4;
	_desc.StoredHeight = (p[5] & 0xf) << 8 | p[6];
	_desc.AspectRatio = Rational(_desc.StoredWidth, _desc.StoredHeight);
	_desc.ComponentDepth = 8;
	return RESULT_OK;
}

Result_t Parser::FillVideoDescriptor(VideoDescriptor& d) const { d = _desc; return RESULT_OK; }

Result_t MXFWriter::OpenWrite(string const& path, WriterInfo const& info, VideoDescriptor const& d, ui32_t size, bool overwrite)
{
	shim::Header h;
	h.type = ESS_MPEG2_VES;
	h.info = info;
	h.edit_rate = d.EditRate;
	h.sample_rate = d.EditRate;
	h.aspect = d.AspectRatio;
	ui32_t const n[] = { d.FrameRate, d.FrameLayout, d.StoredWidth, d.StoredHeight, d.ComponentDepth };
	memcpy(h.numbers, n, sizeof(n));
	return _w.open(path, h, overwrite, size);
}

Result_t MXFWriter::WriteFrame(FrameBuffer const& fb, AESEncContext* e, HMACContext* m, string* hash) { return _w.frame(fb.RoData(), fb.Size(), e, m, hash, 0, fb.PlaintextOffset()); }
Result_t MXFWriter::FakeWriteFrame(int size, FrameType_t type, bool, bool, ui8_t) { return _w.skip(size, type); }
Result_t MXFWriter::Finalize() { return _w.finalize(_w.frames()); }

Result_t MXFReader::FillVideoDescriptor(VideoDescriptor& d) const
{
	auto const& h = _r.header;
	d.EditRate = h.edit_rate;
	d.SampleRate = h.sample_rate;
	d.AspectRatio = h.aspect;
	d.FrameRate = h.numbers[0]; d.FrameLayout = h.numbers[1]; d.StoredWidth = h.numbers[2]; d.StoredHeight = h.numbers[3]; d.ComponentDepth = h.numbers[4];
	d.ContainerDuration = _r.duration;
	return RESULT_OK;
}

Result_t MXFReader::ReadFrame(ui32_t n, FrameBuffer& fb, AESDecContext* d, HMACContext* h) const { return _r.frame(n, fb, d, h); }

}

SHIM_OPEN(MPEG2, t == ESS_MPEG2_VES)

}
