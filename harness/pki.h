/* Keys and certificates made without the library */
#ifndef VERIF_PKI_H
#define VERIF_PKI_H

#include "common.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <xmlsec/crypto.h>
#include <xmlsec/xmldsig.h>
#include <xmlsec/xmlsec.h>
#include <xmlsec/xmltree.h>
#include <map>
#include <memory>

namespace pki {

/** Somebody's RSA key; the same number is the same key for as long as the program runs */
inline EVP_PKEY* key_of(int person)
{
	static std::map<int, EVP_PKEY*> made;
	auto& k = made[person];
	if (!k) {
		k = EVP_RSA_gen(2048);
	}
	return k;
}

inline std::string from_bio(BIO* b)
{
	char* d;
	auto const n = BIO_get_mem_data(b, &d);
	std::string s(d, n);
	BIO_free(b);
	return s;
}

inline std::string private_pem(int person, bool traditional)
{
	auto b = BIO_new(BIO_s_mem());
	if (traditional) {
		PEM_write_bio_PrivateKey_traditional(b, key_of(person), nullptr, nullptr, 0, nullptr, nullptr);
	} else {
		PEM_write_bio_PrivateKey(b, key_of(person), nullptr, nullptr, 0, nullptr, nullptr);
	}
	return from_bio(b);
}

struct Names
{
	std::string o, ou, cn, dn;
	bool utf8 = false;
};

struct Cert
{
	int person = 0;
	std::shared_ptr<X509> x;
	std::string pem;
};

inline void name_part(X509_NAME* n, int nid, std::string s, bool utf8)
{
	X509_NAME_add_entry_by_NID(n, nid, utf8 ? MBSTRING_UTF8 : V_ASN1_PRINTABLESTRING, reinterpret_cast<unsigned char const*>(s.data()), s.size(), -1, 0);
}

/** @param before as YYYYMMDDHHMMSSZ.  @param issuer null for a certificate that signs itself */
inline Cert certificate(int person, Names names, std::string serial, std::string before, std::string after, bool ca, Cert const* issuer)
{
	auto x = X509_new();
	X509_set_version(x, 2);
	BIGNUM* bn = nullptr;
	BN_dec2bn(&bn, serial.c_str());
	BN_to_ASN1_INTEGER(bn, X509_get_serialNumber(x));
	BN_free(bn);
	ASN1_TIME_set_string_X509(X509_getm_notBefore(x), before.c_str());
	ASN1_TIME_set_string_X509(X509_getm_notAfter(x), after.c_str());
	auto n = X509_NAME_new();
	name_part(n, NID_organizationName, names.o, names.utf8);
	name_part(n, NID_organizationalUnitName, names.ou, names.utf8);
	name_part(n, NID_commonName, names.cn, names.utf8);
	name_part(n, NID_dnQualifier, names.dn, false);
	X509_set_subject_name(x, n);
	X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer->x.get()) : n);
	X509_NAME_free(n);
	X509_set_pubkey(x, key_of(person));
	auto add = [&](int nid, char const* value) {
		X509V3_CTX ctx;
		X509V3_set_ctx(&ctx, issuer ? issuer->x.get() : x, x, nullptr, nullptr, 0);
		if (auto e = X509V3_EXT_conf_nid(nullptr, &ctx, nid, value)) {
			X509_add_ext(x, e, -1);
			X509_EXTENSION_free(e);
		}
	};
	add(NID_basic_constraints, ca ? "critical,CA:true" : "critical,CA:false");
	add(NID_key_usage, ca ? "keyCertSign,cRLSign" : "digitalSignature,keyEncipherment");
	add(NID_subject_key_identifier, "hash");
	X509_sign(x, key_of(issuer ? issuer->person : person), EVP_sha256());
	Cert c;
	c.person = person;
	c.x.reset(x, X509_free);
	auto b = BIO_new(BIO_s_mem());
	PEM_write_bio_X509(b, x);
	c.pem = from_bio(b);
	return c;
}

/** Is any part of its owner's name held as UTF-8? */
inline bool has_utf8(Cert const& c)
{
	auto n = X509_get_subject_name(c.x.get());
	for (int i = 0; i < X509_NAME_entry_count(n); ++i) {
		if (ASN1_STRING_type(X509_NAME_ENTRY_get_data(X509_NAME_get_entry(n, i))) == V_ASN1_UTF8STRING) {
			return true;
		}
	}
	return false;
}

/** The lines between the first and the last */
inline std::string body(std::string pem)
{
	auto const a = pem.find('\n') + 1;
	auto const b = pem.find("\n-----END");
	return pem.substr(a, b - a);
}

inline std::string base64(unsigned char const* d, size_t n)
{
	std::vector<unsigned char> out(n * 2 + 8);
	auto const len = EVP_EncodeBlock(out.data(), d, n);
	return std::string(out.begin(), out.begin() + len);
}

/** SHA1 of the signed part, from the whole certificate's encoding: a sequence whose first element it is */
inline std::string thumbprint(Cert const& c)
{
	unsigned char* der = nullptr;
	auto const n = i2d_X509(c.x.get(), &der);
	auto header = [](unsigned char const* p, size_t& length) {
		if (p[1] < 128) {
			length = p[1];
			return 2;
		}
		int const k = p[1] & 127;
		length = 0;
		for (int i = 0; i < k; ++i) {
			length = length * 256 + p[2 + i];
		}
		return 2 + k;
	};
	size_t length = 0;
	auto const outer = header(der, length);
	auto const inner = header(der + outer, length);
	unsigned char digest[20];
	SHA1(der + outer, inner + length, digest);
	(void) n;
	OPENSSL_free(der);
	return base64(digest, 20);
}

inline std::string hex(unsigned char const* d, size_t n)
{
	std::string o;
	for (size_t i = 0; i < n; ++i) {
		o += "0123456789abcdef"[d[i] >> 4];
		o += "0123456789abcdef"[d[i] & 15];
	}
	return o;
}

inline std::string unhex(std::string s)
{
	std::string o;
	for (size_t i = 0; i + 1 < s.size(); i += 2) {
		o += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
	}
	return o;
}

inline std::vector<unsigned char> unbase64(std::string s)
{
	std::string t;
	for (auto c: s) {
		if (c > ' ') {
			t += c;
		}
	}
	std::vector<unsigned char> out(t.size() + 4);
	auto n = EVP_DecodeBlock(out.data(), reinterpret_cast<unsigned char const*>(t.data()), t.size());
	while (n > 0 && !t.empty() && t.back() == '=') {
		t.pop_back();
		--n;
	}
	out.resize(n > 0 ? n : 0);
	return out;
}

/** What was encrypted for somebody, as hex; empty if it was not for them */
inline std::string opened(int person, std::string cipher)
{
	auto const in = unbase64(cipher);
	auto ctx = EVP_PKEY_CTX_new(key_of(person), nullptr);
	EVP_PKEY_decrypt_init(ctx);
	EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_OAEP_PADDING);
	std::vector<unsigned char> out(1024);
	size_t n = out.size();
	auto const r = EVP_PKEY_decrypt(ctx, out.data(), &n, in.data(), in.size());
	EVP_PKEY_CTX_free(ctx);
	return r == 1 ? hex(out.data(), n) : "";
}

inline std::string encrypted(int person, std::string bytes)
{
	auto ctx = EVP_PKEY_CTX_new(key_of(person), nullptr);
	EVP_PKEY_encrypt_init(ctx);
	EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_OAEP_PADDING);
	std::vector<unsigned char> out(1024);
	size_t n = out.size();
	EVP_PKEY_encrypt(ctx, out.data(), &n, reinterpret_cast<unsigned char const*>(bytes.data()), bytes.size());
	EVP_PKEY_CTX_free(ctx);
	return base64(out.data(), n);
}

inline void find_ids(xmlDocPtr doc, xmlNodePtr n)
{
	for (; n; n = n->next) {
		if (n->type == XML_ELEMENT_NODE) {
			if (auto a = xmlHasProp(n, BAD_CAST "Id")) {
				auto v = xmlGetProp(n, BAD_CAST "Id");
				xmlAddID(nullptr, doc, v, a);
				xmlFree(v);
			}
			find_ids(doc, n->children);
		}
	}
}

inline xmlNodePtr find_text(xmlNodePtr n, std::string under, bool in = false)
{
	for (; n; n = n->next) {
		if (n->type == XML_TEXT_NODE && in && !xmlIsBlankNode(n)) {
			return n;
		}
		if (n->type == XML_ELEMENT_NODE) {
			if (auto r = find_text(n->children, under, in || under == reinterpret_cast<char const*>(n->name))) {
				return r;
			}
		}
	}
	return nullptr;
}

/** A document with a letter more in the first text of the first element with some name that has any */
inline std::string tampered(std::string xml, std::string under)
{
	auto doc = xmlReadMemory(xml.data(), xml.size(), nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
	if (!doc) {
		return xml;
	}
	if (auto n = find_text(xmlDocGetRootElement(doc), under)) {
		xmlNodeAddContent(n, BAD_CAST "A");
	}
	xmlChar* out = nullptr;
	int size = 0;
	xmlDocDumpMemory(doc, &out, &size);
	std::string r(reinterpret_cast<char*>(out), size);
	xmlFree(out);
	xmlFreeDoc(doc);
	return r;
}

/** Is the one signature in a document right for the owner of a certificate? */
inline bool signature_right(std::string xml, Cert const& c)
{
	auto doc = xmlReadMemory(xml.data(), xml.size(), nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
	if (!doc) {
		return false;
	}
	find_ids(doc, xmlDocGetRootElement(doc));
	auto node = xmlSecFindNode(xmlDocGetRootElement(doc), xmlSecNodeSignature, xmlSecDSigNs);
	bool right = false;
	if (node) {
		auto ctx = xmlSecDSigCtxCreate(nullptr);
		ctx->signKey = xmlSecCryptoAppKeyLoadMemory(reinterpret_cast<unsigned char const*>(c.pem.data()), c.pem.size(), xmlSecKeyDataFormatCertPem, nullptr, nullptr, nullptr);
		right = ctx->signKey && xmlSecDSigCtxVerify(ctx, node) >= 0 && ctx->status == xmlSecDSigStatusSucceeded;
		xmlSecDSigCtxDestroy(ctx);
	}
	xmlFreeDoc(doc);
	return right;
}

}

#endif
