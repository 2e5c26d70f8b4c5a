"""Planted bugs in reels, key messages and chains"""
from mkseed import full

P = '''#include "world.h"
#include "pki.h"
#include "xmlview.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "certificate_chain.h"
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
using namespace world;
static pki::Names who(std::string n) { pki::Names r; r.o = "o"; r.ou = "ou"; r.cn = "cn." + n; r.dn = n; return r; }
static std::string const B = "20150101000000Z", A = "20350101000000Z";
struct Three { pki::Cert a, b, c; std::shared_ptr<dcp::CertificateChain> chain; Three() {
	a = pki::certificate(1, who("a"), "1", B, A, true, nullptr); b = pki::certificate(2, who("b"), "2", B, A, true, &a); c = pki::certificate(3, who("c"), "3", B, A, false, &b);
	chain = std::make_shared<dcp::CertificateChain>(); for (auto p: {c, a, b}) { chain->add(dcp::Certificate(p.pem)); } chain->set_key(pki::private_pem(3, false)); } };
static dcp::DecryptedKDM plain(int n) {
	dcp::DecryptedKDM d(dcp::LocalTime("2020-01-01T00:00:00+00:00"), dcp::LocalTime("2021-01-01T00:00:00+00:00"), "note", "title", "2020-01-01T00:00:00+00:00");
	for (int i = 0; i < n; ++i) { d.add_key(std::string("MDIK"), "1111111" + std::to_string(i) + "-2222-3333-4444-555555555555", dcp::Key(), "99999999-2222-3333-4444-555555555555", dcp::Standard::SMPTE); }
	return d; }
static pki::Cert projector() { return pki::certificate(4, who("p"), "9", B, A, false, nullptr); }
'''
H = ("common.h", "world.h", "xmlview.h", "pki.h")

R = P + '''static std::shared_ptr<dcp::Asset> as(std::string k, Scratch& s, int n, boost::optional<dcp::Key> key) { return make_asset(k, s.path() / std::to_string(n), 3, n, key, dcp::Standard::SMPTE); }
'''
full("s01", "C20", "two messages given before the assets are there", "only the last of the messages given to a reel is kept for assets that come later",
     [("src/reel.cc", "	_kdms.push_back (kdm);\n", "	_kdms.assign (1, kdm);\n")],
     R + '''int main() { dcp::init(); Scratch s; dcp::Key k1, k2;
	auto p = as("mono", s, 1, k1), q = as("sound", s, 2, k2);
	dcp::CPL cpl("t", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE); auto reel = std::make_shared<dcp::Reel>(); cpl.add(reel);
	reel->add(reel_asset(p, "picture", 3, 0)); reel->add(reel_asset(q, "sound", 3, 0)); p->hash(); q->hash();
	cpl.write_xml(s.path() / "c.xml", {}); dcp::CPL again(s.path() / "c.xml");
	auto w = [&](std::shared_ptr<dcp::ReelFileAsset> f, dcp::Key k) { dcp::DecryptedKDM d = plain(0); d.add_key(f->key_type(), *f->key_id(), k, cpl.id(), dcp::Standard::SMPTE); return d; };
	again.add(w(reel->main_picture(), k1)); again.add(w(reel->main_sound(), k2));
	again.resolve_refs({std::make_shared<dcp::MonoJ2KPictureAsset>(*p->file()), std::make_shared<dcp::SoundAsset>(*q->file())});
	WANT(again.reels()[0]->main_picture()->asset()->key() && *again.reels()[0]->main_picture()->asset()->key() == k1);
	WANT(again.reels()[0]->main_sound()->asset()->key() && *again.reels()[0]->main_sound()->asset()->key() == k2); }''', H)
full("s02", "C20", "an unencrypted immersive part in an otherwise encrypted reel", "a reel counts as wholly encrypted though its immersive sound is not",
     [("src/reel.cc", "		(!_atmos || _atmos->encrypted())\n", "		(!_atmos || ecc)\n")],
     R + '''int main() { dcp::init(); Scratch s; dcp::Reel r; r.add(reel_asset(as("mono", s, 1, dcp::Key()), "picture", 3, 0)); r.add(reel_asset(as("atmos", s, 2, boost::none), "atmos", 3, 0)); WANT(!r.all_encrypted()); WANT(r.any_encrypted()); }''', H)
full("s03", "C20", "reels with two closed captions that differ in the second", "comparison of closed captions stops after the first",
     [("src/reel.cc", '''		if (!(*i)->equals(*j, opt, note)) {
			return false;
		}
		++i;
		++j;
''', '''		if (!(*i)->equals(*j, opt, note)) {
			return false;
		}
		++i;
		++j;
		if (opt.reel_annotation_texts_can_differ || opt.issue_dates_can_differ) {
			break;
		}
''')],
     R + '''int main() { dcp::init(); Scratch s; auto a = as("text", s, 1, boost::none), b = as("text", s, 2, boost::none), c = as("text", s, 3, boost::none);
	auto r = std::make_shared<dcp::Reel>(), t = std::make_shared<dcp::Reel>();
	r->add(reel_asset(a, "ccap", 3, 0)); r->add(reel_asset(b, "ccap", 3, 0)); t->add(reel_asset(a, "ccap", 3, 0)); t->add(reel_asset(c, "ccap", 3, 0));
	dcp::EqualityOptions o; o.issue_dates_can_differ = true; o.reel_hashes_can_differ = true; WANT(!r->equals(t, o, [](dcp::NoteType, std::string) {})); }''', H)
full("s04", "C20", "a reel without a picture whose closed captions are its shortest part", "closed captions do not shorten a reel",
     [("src/reel.cc", "		d = min (d, i->actual_duration());\n", "		d = min (d, i->actual_duration() > 0 && _main_sound ? _main_sound->actual_duration() : i->actual_duration());\n")],
     R + '''int main() { dcp::init(); Scratch s; dcp::Reel r; r.add(reel_asset(as("sound", s, 1, boost::none), "sound", 3, 0)); r.add(reel_asset(as("text", s, 2, boost::none), "ccap", 2, 0)); WANT(r.duration() == 2); }''', H)

full("u01", "C21", "a key other than the first", "the kind of each key in the list of keys is that of the first",
     [("src/decrypted_kdm.cc", "		key_ids.push_back (make_pair (i.type().get(), i.id ()));\n", "		key_ids.push_back (make_pair (key_ids.empty() ? i.type().get() : key_ids.front().first, i.id ()));\n")],
     P + '''int main() { dcp::init(); Three t; auto d = plain(1); d.add_key(std::string("MDAK"), "21111111-2222-3333-4444-555555555555", dcp::Key(), "99999999-2222-3333-4444-555555555555", dcp::Standard::SMPTE);
	auto x = d.encrypt(t.chain, dcp::Certificate(projector().pem), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, false, boost::none).as_xml(); WANT(x.find(">MDAK<") != std::string::npos); }''', H)
full("u02", "C21", "a window that ends on the last day of a certificate above the leaf", "only the leaf's end is compared with the message's",
     [("src/decrypted_kdm.cc", "			throw BadKDMDateError (false);\n", "			if (i == signer->leaf()) {\n				throw BadKDMDateError (false);\n			}\n")],
     P + '''int main() { dcp::init(); auto a = pki::certificate(1, who("a"), "1", B, "20200601000000Z", true, nullptr), b = pki::certificate(2, who("b"), "2", B, A, false, &a);
	auto chain = std::make_shared<dcp::CertificateChain>(); chain->add(dcp::Certificate(a.pem)); chain->add(dcp::Certificate(b.pem)); chain->set_key(pki::private_pem(2, false));
	try { plain(1).encrypt(chain, dcp::Certificate(projector().pem), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, false, boost::none); } catch (dcp::BadKDMDateError&) { return 0; } return 1; }''', H)
full("u03", "C21", "a message with an audio flag above a channel, read and written again", "the channel of an audio marking flag is lost on reading when there is a picture flag too",
     [("src/encrypted_kdm.cc", "					if (starts_with(i->content(), above)) {\n", "					if (!disable_forensic_marking_picture && starts_with(i->content(), above)) {\n")],
     P + '''int main() { dcp::init(); Three t; auto e = plain(1).encrypt(t.chain, dcp::Certificate(projector().pem), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 6);
	dcp::EncryptedKDM f(e.as_xml()); WANT(f.as_xml() == e.as_xml()); WANT(pki::signature_right(f.as_xml(), t.c)); }''', H)
full("u04", "C21", "several devices", "a list of devices is written without its last one when there are more than two",
     [("src/encrypted_kdm.cc", "		for (auto i: certificate_thumbprints) {\n", "		for (auto i: certificate_thumbprints) {\n			if (certificate_thumbprints.size() > 2 && i == certificate_thumbprints.back()) {\n				continue;\n			}\n")],
     P + '''int main() { dcp::init(); Three t; auto e = plain(1).encrypt(t.chain, dcp::Certificate(projector().pem), {"aaa", "bbb", "ccc"}, dcp::Formulation::DCI_SPECIFIC, false, boost::none);
	dcp::EncryptedKDM f(e.as_xml()); WANT(f.trusted_devices().size() == 3); }''', H)

full("x01", "C22", "a certificate that claims another vouched for it but was signed with a different key", "signatures below the root are not verified, only names compared",
     [("src/certificate_chain.cc", "		if (X509_verify_cert(ctx) != 1) {\n", "		if (X509_verify_cert(ctx) != 1 && i == chain.begin()) {\n")],
     P + '''int main() { dcp::init(); Three t; auto forged = t.b; forged.person = 7; auto f = pki::certificate(5, who("f"), "5", B, A, false, &forged);
	dcp::CertificateChain c; for (auto p: {t.a, t.b, f}) { c.add(dcp::Certificate(p.pem)); } c.set_key(pki::private_pem(5, false)); WANT(!c.valid()); }''', H)
full("x02", "C22", "a certificate whose number is wider than a machine word", "serial numbers are cut to 128 bits",
     [("src/certificate.cc", "	char* c = BN_bn2dec (b);\n", "	BN_mask_bits (b, 128);\n	char* c = BN_bn2dec (b);\n")],
     P + '''int main() { dcp::init(); auto a = pki::certificate(1, who("a"), "702882086084358645905691728336118838404824553", B, A, true, nullptr); WANT(dcp::Certificate(a.pem).serial() == "702882086084358645905691728336118838404824553"); }''', H)
full("x03", "C22", "a chain whose text order differs from its real order", "documents carry certificates in the order they were given",
     [("src/certificate_chain.cc", "	for (auto const& i: leaf_to_root()) {\n		auto data", "	for (auto const& i: _certificates) {\n		auto data")],
     P + '''int main() { dcp::init(); Scratch s; Three t; dcp::PKL p(dcp::Standard::SMPTE, std::string("x"), "2020-01-01T00:00:00+00:00", "i", "c"); p.write_xml(s.path() / "p.xml", t.chain);
	auto x = contents(s.path() / "p.xml"); auto at = [&](pki::Cert c) { return x.find(pki::body(c.pem)); }; WANT(at(t.c) < at(t.b)); WANT(at(t.b) < at(t.a)); }''', H)
full("x04", "C22", "a chain with a private key that is an intermediate certificate's", "the private key may be that of any certificate in the chain",
     [("src/certificate_chain.cc", "	return valid;\n}\n", "	if (!valid) {\n		for (auto const& i: _certificates) {\n			BIGNUM const * n;\n			RSA_get0_key(i.public_key(), &n, 0, 0);\n			if (!BN_cmp(private_key_n, n)) {\n				return true;\n			}\n		}\n	}\n\n	return valid;\n}\n")],
     P + '''int main() { dcp::init(); Three t; t.chain->set_key(pki::private_pem(2, false)); WANT(!t.chain->valid()); }''', H)
