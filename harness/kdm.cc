/* Drives key messages and the certificates they depend on.  Text goes about as hex digits */
#include "world.h"
#include "pki.h"
#include "xmlview.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "pkl.h"
#include "util.h"

using namespace xmlview;
using std::string;
using std::vector;
using std::map;
using std::shared_ptr;
using std::make_shared;

static map<int, pki::Cert> certs;
static map<int, shared_ptr<dcp::CertificateChain>> chains;
static map<int, vector<int>> chain_certs;
static map<int, shared_ptr<dcp::DecryptedKDM>> plain;
static map<int, shared_ptr<dcp::EncryptedKDM>> sealed;
static map<int, shared_ptr<dcp::CPL>> cpls;
static map<int, dcp::Key> keys_of;
/* whom a sealed message is for */
static map<int, int> reader;
static std::unique_ptr<world::Scratch> scratch;

static void reset()
{
	certs.clear();
	chains.clear();
	chain_certs.clear();
	plain.clear();
	sealed.clear();
	cpls.clear();
	keys_of.clear();
	reader.clear();
	scratch.reset();
}

static dcp::Formulation formulation(string s)
{
	if (s == "mt1") {
		return dcp::Formulation::MODIFIED_TRANSITIONAL_1;
	} else if (s == "mmt1") {
		return dcp::Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1;
	} else if (s == "any") {
		return dcp::Formulation::DCI_ANY;
	} else if (s == "specific") {
		return dcp::Formulation::DCI_SPECIFIC;
	}
	bad_script("formulation " + s);
	return dcp::Formulation::DCI_ANY;
}

/** Which of our certificates has this text? */
static int which(string body)
{
	for (auto const& c: certs) {
		if (pki::body(c.second.pem) == body) {
			return c.first;
		}
	}
	return 0;
}

static string order(vector<dcp::Certificate> const& list)
{
	vector<int> o;
	for (auto const& i: list) {
		int n = 0;
		for (auto const& c: certs) {
			if (c.second.pem == i.certificate(true)) {
				n = c.first;
			}
		}
		o.push_back(n);
	}
	return J::list(o);
}

static string strings(vector<string> const& v)
{
	vector<string> o;
	for (auto const& i: v) {
		o.push_back(hx(i));
	}
	return J::join(o);
}

/** What a key message's document says */
static void report_document(J& j, string xml, int person)
{
	xmlpp::DomParser parser;
	parser.parse_memory(xml);
	auto root = parser.get_document()->get_root_node();
	auto pub = only(root, "AuthenticatedPublic");
	auto priv = only(root, "AuthenticatedPrivate");
	auto signature = only(root, "Signature");
	vector<string> out;
	flatten(pub, "", {"RequiredExtensions", "NonCriticalExtensions", "IssueDate", "MessageId"}, out);
	auto ext = only(only(pub, "RequiredExtensions"), "KDMRequiredExtensions");
	flatten(ext, "", {"AuthorizedDeviceInfo", "KeyIdList", "ForensicMarkFlagList"}, out);
	j.raw("fields", J::join(out));
	vector<string> keys;
	for (auto k: elements(only(ext, "KeyIdList"), "TypedKeyId")) {
		auto type = only(k, "KeyType");
		keys.push_back("[" + q(content(type)) + "," + q(type ? string(type->get_attribute_value("scope")) : "") + "," + q(bare(text(k, "KeyId"))) + "]");
	}
	j.raw("keyids", J::join(keys));
	vector<string> devices;
	auto info = only(ext, "AuthorizedDeviceInfo");
	for (auto k: elements(only(info, "DeviceList"), "CertificateThumbprint")) {
		devices.push_back(content(k));
	}
	j.raw("devices", strings(devices));
	j.raw("devicename", hx(text(info, "DeviceListDescription")));
	vector<string> flags;
	for (auto k: elements(only(ext, "ForensicMarkFlagList"), "ForensicMarkFlag")) {
		flags.push_back(q(content(k)));
	}
	j.raw("flags", J::join(flags));
	vector<string> blocks;
	for (auto k: elements(priv, "EncryptedKey")) {
		blocks.push_back(q(pki::opened(person, text(only(k, "CipherData"), "CipherValue"))));
	}
	j.raw("blocks", J::join(blocks));
	vector<string> signers;
	for (auto k: elements(only(signature, "KeyInfo"), "X509Data")) {
		auto serial = only(k, "X509IssuerSerial");
		signers.push_back("[" + std::to_string(which(text(k, "X509Certificate"))) + "," + hx(text(serial, "X509IssuerName")) + "," + hx(text(serial, "X509SerialNumber")) + "]");
	}
	j.raw("signers", J::join(signers));
}

static void report_sealed(J& j, dcp::EncryptedKDM const& e, int signer, int person)
{
	auto const xml = e.as_xml();
	report_document(j, xml, person);
	j.b("signed", pki::signature_right(xml, certs[signer]));
	j.b("covers", !pki::signature_right(pki::tampered(xml, "KDMRequiredExtensions"), certs[signer]) && !pki::signature_right(pki::tampered(xml, "CipherValue"), certs[signer]));
	j.raw("title", hx(e.content_title_text())).raw("annotation", hx(e.annotation_text().get_value_or(""))).b("annotated", static_cast<bool>(e.annotation_text()))
		.raw("before", hx(e.not_valid_before().as_string())).raw("after", hx(e.not_valid_after().as_string()))
		.raw("subject", hx(e.recipient_x509_subject_name())).w("cpl", e.cpl_id()).raw("trusted", strings(e.trusted_devices()));
	string o = "[0]";
	try {
		o = order(e.signer_certificate_chain().root_to_leaf());
	} catch (dcp::CertificateChainError&) {}
	j.raw("chain", o);
}

static string error_name(std::exception const& e)
{
	if (dynamic_cast<dcp::BadKDMDateError const*>(&e)) {
		return static_cast<dcp::BadKDMDateError const*>(&e)->starts_too_early() ? "early" : "late";
	} else if (dynamic_cast<dcp::KDMDecryptionError const*>(&e)) {
		return "locked";
	} else if (dynamic_cast<dcp::KDMFormatError const*>(&e)) {
		return "format";
	} else if (dynamic_cast<dcp::CertificateChainError const*>(&e)) {
		return "chain";
	} else if (dynamic_cast<dcp::NotEncryptedError const*>(&e)) {
		return "unencrypted";
	} else if (dynamic_cast<dcp::InconsistentValidityPeriodError const*>(&e)) {
		return "inconsistent";
	} else if (dynamic_cast<dcp::MiscError const*>(&e)) {
		return "misc";
	}
	return typeid(e).name();
}

static string key_list(vector<dcp::DecryptedKDMKey> const& keys)
{
	vector<string> o;
	for (auto const& k: keys) {
		o.push_back("[" + q(k.type().get_value_or("")) + "," + q(k.id()) + "," + q(k.key().hex()) + "," + q(k.cpl_id()) + "," + q(k.standard() == dcp::Standard::SMPTE ? "smpte" : "interop") + "]");
	}
	return J::join(o);
}

static void handle(string op, Args& a)
{
	J j(op);
	string error;
	auto guarded = [&](std::function<void ()> f) {
		try {
			f();
		} catch (std::exception& e) {
			error = error_name(e);
		}
		j.w("error", error);
	};

	if (op == "cert") {
		/* cert k person issuer o ou cn dn utf8 serial before after ca; issuer 0 for self-signed */
		auto const k = a.i();
		auto const person = a.i();
		auto const issuer = a.i();
		pki::Names n;
		n.o = a.text();
		n.ou = a.text();
		n.cn = a.text();
		n.dn = a.text();
		n.utf8 = a.i();
		auto const serial = a.word();
		auto const before = a.word();
		auto const after = a.word();
		auto const ca = a.i();
		/* who really signed it */
		auto const forger = a.left() ? a.i() : 0;
		pki::Cert above;
		if (issuer) {
			above = certs[issuer];
		}
		if (forger) {
			above.person = forger;
		}
		certs[k] = pki::certificate(person, n, serial, before, after, ca, issuer ? &above : nullptr);
		j.n("k", k).n("person", person).n("issuer", issuer).t("o", n.o).t("ou", n.ou).t("cn", n.cn).t("dn", n.dn).b("utf8", pki::has_utf8(certs[k])).n("ca", ca).n("signer", issuer ? above.person : person)
			.raw("serial", hx(serial)).w("before", before).w("after", after).raw("thumb", hx(pki::thumbprint(certs[k])))
			.w("print", pki::hex(pki::unbase64(pki::thumbprint(certs[k])).data(), 20));
	} else if (op == "look") {
		/* everything the library says of a certificate; how: 0 as it is, 1 on one line, 2 with carriage returns, 3 copied and assigned */
		auto const k = a.i();
		auto const how = a.i();
		guarded([&]() {
			auto pem = certs[k].pem;
			if (how == 1) {
				auto b = pki::body(pem);
				b.erase(std::remove(b.begin(), b.end(), '\n'), b.end());
				pem = "-----BEGIN CERTIFICATE-----\n" + b + "\n-----END CERTIFICATE-----";
			} else if (how == 2) {
				string t;
				for (auto c: pem) {
					if (c == '\n') {
						t += "\r";
					}
					t += c;
				}
				pem = t;
			}
			dcp::Certificate c(pem);
			if (how == 3) {
				dcp::Certificate d(c);
				dcp::Certificate e(certs.begin()->second.pem);
				e.public_key();
				e = d;
				c = e;
			}
			char local[64];
			auto when = [&local](dcp::LocalTime t) {
				snprintf(local, sizeof(local), "%04d%02d%02d%02d%02d%02dZ", t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second());
				return string(local);
			};
			j.raw("subject", hx(c.subject())).raw("issuer", hx(c.issuer())).t("cn", c.subject_common_name()).t("o", c.subject_organization_name())
				.t("ou", c.subject_organizational_unit_name()).t("dn", c.subject_dn_qualifier())
				.t("icn", c.issuer_common_name()).t("io", c.issuer_organization_name()).t("iou", c.issuer_organizational_unit_name())
				.raw("serial", hx(c.serial())).raw("thumb", hx(c.thumbprint())).b("utf8", c.has_utf8_strings())
				.w("before", when(c.not_before())).w("after", when(c.not_after()))
				.b("same", c.certificate(true) == certs[k].pem && c.certificate(false) == pki::body(certs[k].pem) && c == dcp::Certificate(certs[k].pem));
		});
		j.n("k", k);
	} else if (op == "chain") {
		/* chain c person how certs...; how: "add" one by one, "text" all at once, "junk" with other things between them */
		auto const c = a.i();
		auto const person = a.i();
		auto const how = a.word();
		vector<int> ks;
		while (a.left()) {
			ks.push_back(a.i());
		}
		chain_certs[c] = ks;
		chains.erase(c);
		guarded([&]() {
			shared_ptr<dcp::CertificateChain> chain;
			if (how == "add") {
				chain = make_shared<dcp::CertificateChain>();
				for (auto k: ks) {
					chain->add(dcp::Certificate(certs[k].pem));
				}
			} else {
				string t;
				for (auto k: ks) {
					t += certs[k].pem;
					if (how == "junk") {
						t += "\nsome words: about this\r\n";
					}
				}
				chain = make_shared<dcp::CertificateChain>(t);
			}
			if (person) {
				chain->set_key(pki::private_pem(person, person % 2));
			}
			chains[c] = chain;
		});
		j.n("c", c).n("person", person).w("how", how).ns("ks", ks);
		if (chains.find(c) != chains.end()) {
			auto chain = chains[c];
			string reason;
			auto const valid = chain->valid(&reason);
			j.b("valid", valid).b("why", !reason.empty());
			int keyed = 0;
			try {
				keyed = chain->private_key_valid();
			} catch (dcp::CertificateChainError&) {}
			j.n("keyed", keyed).b("inorder", chain->chain_valid());
			string o = "[0]", r = "[0]";
			int leaf = 0, root = 0;
			try {
				o = order(chain->root_to_leaf());
				r = order(chain->leaf_to_root());
				if (!ks.empty()) {
					leaf = which(chain->leaf().certificate());
					root = which(chain->root().certificate());
				}
			} catch (dcp::CertificateChainError&) {}
			j.raw("down", o).raw("up", r).n("leaf", leaf).n("root", root).raw("held", order(chain->unordered()));
			/* its text makes the same chain again */
			string again = "[0]";
			try {
				again = order(dcp::CertificateChain(chain->chain()).root_to_leaf());
			} catch (dcp::CertificateChainError&) {}
			j.raw("again", again);
		}
	} else if (op == "remove") {
		/* remove c k: without a certificate that it may have */
		auto const c = a.i();
		auto const k = a.i();
		j.n("c", c).n("k", k);
		guarded([&]() {
			chains.at(c)->remove(dcp::Certificate(certs[k].pem));
			j.raw("held", order(chains.at(c)->unordered()));
			j.b("valid", chains.at(c)->valid());
		});
	} else if (op == "made") {
		/* made days o ou root intermediate leaf: a chain made by the library */
		auto const days = a.i();
		auto const o = a.text();
		auto const ou = a.text();
		auto const r = a.text();
		auto const i = a.text();
		auto const l = a.text();
		j.n("days", days).t("o", o).t("ou", ou).t("names0", r).t("names1", i).t("names2", l);
		guarded([&]() {
			auto const here = boost::filesystem::current_path();
			world::Scratch elsewhere;
			setenv("TMPDIR", elsewhere.path().c_str(), 1);
			auto const now = time(nullptr);
			std::unique_ptr<dcp::CertificateChain> chain;
			try {
				chain.reset(new dcp::CertificateChain("openssl", days, o, ou, r, i, l));
			} catch (...) {
				unsetenv("TMPDIR");
				boost::filesystem::current_path(here);
				throw;
			}
			unsetenv("TMPDIR");
			j.b("tidy", boost::filesystem::is_empty(elsewhere.path()) && boost::filesystem::current_path() == here);
			boost::filesystem::current_path(here);
			j.b("valid", chain->valid());
			vector<string> list;
			EVP_PKEY* above = nullptr;
			X509* top = nullptr;
			for (auto const& c: chain->root_to_leaf()) {
				auto const pem = c.certificate(true);
				auto b = BIO_new_mem_buf(pem.data(), pem.size());
				auto x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
				BIO_free(b);
				auto const key = X509_get_pubkey(x);
				auto part = [x](int nid) {
					char buffer[256] = "";
					X509_NAME_get_text_by_NID(X509_get_subject_name(x), nid, buffer, sizeof(buffer));
					return string(buffer);
				};
				/* the name is qualified by a digest of the key */
				unsigned char digest[20];
				auto bits = X509_get0_pubkey_bitstr(x);
				SHA1(ASN1_STRING_get0_data(bits), ASN1_STRING_length(bits), digest);
				int days_left = 0, seconds_left = 0;
				auto t = ASN1_TIME_set(nullptr, now);
				ASN1_TIME_diff(&days_left, &seconds_left, t, X509_get0_notAfter(x));
				ASN1_TIME_free(t);
				vector<int> facts = {
					part(NID_dnQualifier) == pki::base64(digest, 20),
					X509_verify(x, above ? above : key) == 1,
					X509_NAME_cmp(X509_get_issuer_name(x), X509_get_subject_name(top ? top : x)) == 0,
					X509_check_ca(x) == 1,
					EVP_PKEY_get_bits(key) == 2048,
					/* which may have got to the next second */
					seconds_left > 0 ? days_left + (seconds_left > 43200) : days_left
				};
				list.push_back("{\"o\":" + J::codes(part(NID_organizationName)) + ",\"ou\":" + J::codes(part(NID_organizationalUnitName)) + ",\"cn\":" + J::codes(part(NID_commonName)) + ",\"facts\":" + J::list(facts) + "}");
				above = key;
				top = x;
			}
			j.raw("certs", J::join(list));
		});
	} else if (op == "sign") {
		/* sign c what standard: a document signed by a chain */
		auto const c = a.i();
		auto const what = a.word();
		auto const standard = a.word() == "smpte" ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
		j.n("c", c).w("what", what).w("standard", standard == dcp::Standard::SMPTE ? "smpte" : "interop");
		guarded([&]() {
			if (!scratch) {
				scratch.reset(new world::Scratch);
			}
			auto const file = scratch->path() / "signed.xml";
			string id;
			if (what == "cpl") {
				dcp::CPL cpl("A title & more", dcp::ContentKind::FEATURE, standard);
				auto reel = make_shared<dcp::Reel>();
				auto asset = world::make_asset("mono", scratch->path() / "signed.mxf", 2, 1, boost::none, standard);
				asset->hash();
				reel->add(world::reel_asset(asset, "picture", 2, 0));
				cpl.add(reel);
				cpl.write_xml(file, chains.at(c));
				id = dcp::CPL(file).id();
				j.b("read", id == cpl.id() && dcp::CPL(file).content_title_text() == "A title & more");
			} else {
				dcp::PKL pkl(standard, string("A title & more"), "2020-01-01T00:00:00+00:00", "issuer", "creator");
				pkl.add_asset("11111111-2222-3333-4444-555555555555", string("a<b"), "hash", 4, "application/mxf", "file");
				pkl.write_xml(file, chains.at(c));
				id = dcp::PKL(file).id();
				j.b("read", id == pkl.id() && dcp::PKL(file).assets().size() == 1);
			}
			auto const xml = dcp::file_to_string(file);
			auto const leaf = which(chains.at(c)->leaf().certificate());
			j.b("signed", pki::signature_right(xml, certs[leaf])).b("covers", !pki::signature_right(pki::tampered(xml, "Id"), certs[leaf]) && !pki::signature_right(pki::tampered(xml, what == "cpl" ? "ContentTitleText" : "Hash"), certs[leaf]));
			int others = 0;
			for (auto const& k: certs) {
				others += k.second.person != certs[leaf].person && pki::signature_right(xml, k.second);
			}
			j.n("others", others);
			xmlpp::DomParser parser;
			parser.parse_memory(xml);
			auto root = parser.get_document()->get_root_node();
			auto signature = only(root, "Signature");
			vector<string> signers;
			for (auto k: elements(only(signature, "KeyInfo"), "X509Data")) {
				auto serial = only(k, "X509IssuerSerial");
				signers.push_back("[" + std::to_string(which(text(k, "X509Certificate"))) + "," + hx(text(serial, "X509IssuerName")) + "," + hx(text(serial, "X509SerialNumber")) + "]");
			}
			j.raw("signers", J::join(signers));
			auto data = only(only(root, "Signer"), "X509Data");
			auto serial = only(data, "X509IssuerSerial");
			j.raw("signer", J::join({hx(text(serial, "X509IssuerName")), hx(text(serial, "X509SerialNumber")), hx(text(data, "X509SubjectName"))}));
			j.w("method", only(only(signature, "SignedInfo"), "SignatureMethod")->get_attribute_value("Algorithm"));
		});
	} else if (op == "message") {
		/* message m before after title annotation */
		auto const m = a.i();
		auto const before = a.text();
		auto const after = a.text();
		auto const title = a.text();
		auto const annotation = a.text();
		guarded([&]() {
			plain[m] = make_shared<dcp::DecryptedKDM>(dcp::LocalTime(before), dcp::LocalTime(after), annotation, title, "2020-01-01T00:00:00+00:00");
		});
		j.n("m", m).raw("before", hx(before)).raw("after", hx(after)).raw("title", hx(title)).raw("annotation", hx(annotation));
	} else if (op == "key") {
		/* key m type id key cpl */
		auto const m = a.i();
		auto const type = a.word();
		auto const id = a.word();
		auto const key = a.word();
		auto const cpl = a.word();
		guarded([&]() { plain.at(m)->add_key(type, id, dcp::Key(key), cpl, dcp::Standard::SMPTE); });
		j.n("m", m).w("type", type).w("id", id).w("key", key).w("cpl", cpl);
	} else if (op == "seal") {
		/* seal e m chain recipient formulation picture audio devices...; audio -1 for no flag */
		auto const e = a.i();
		auto const m = a.i();
		auto const c = a.i();
		auto const r = a.i();
		auto const f = a.word();
		auto const picture = a.i();
		auto const audio = a.i();
		vector<string> devices;
		while (a.left()) {
			devices.push_back(a.text());
		}
		j.n("e", e).n("m", m).n("c", c).n("r", r).w("f", f).n("picture", picture).n("audio", audio).raw("given", strings(devices));
		guarded([&]() {
			boost::optional<int> au;
			if (audio >= 0) {
				au = audio;
			}
			auto s = make_shared<dcp::EncryptedKDM>(plain.at(m)->encrypt(chains.at(c), dcp::Certificate(certs[r].pem), devices, formulation(f), picture, au));
			sealed[e] = s;
			reader[e] = certs[r].person;
			report_sealed(j, *s, which(chains[c]->leaf().certificate()), reader[e]);
			auto const xml = s->as_xml();
			bool leaked = false;
			for (auto const& k: plain.at(m)->keys()) {
				leaked = leaked || xml.find(k.key().hex()) != string::npos || xml.find(pki::base64(k.key().value(), k.key().length())) != string::npos;
			}
			j.b("leaked", leaked);
		});
	} else if (op == "reread") {
		/* reread e f how signer: e's document, read as f */
		auto const e = a.i();
		auto const f = a.i();
		auto const how = a.word();
		auto const signer = a.i();
		j.n("e", e).n("f", f);
		guarded([&]() {
			auto const before = sealed.at(e)->as_xml();
			shared_ptr<dcp::EncryptedKDM> s;
			if (how == "file") {
				if (!scratch) {
					scratch.reset(new world::Scratch);
				}
				sealed.at(e)->as_xml(scratch->path() / "k.xml");
				s = make_shared<dcp::EncryptedKDM>(dcp::file_to_string(scratch->path() / "k.xml"));
			} else if (how == "copy") {
				s = make_shared<dcp::EncryptedKDM>(*sealed.at(e));
			} else {
				s = make_shared<dcp::EncryptedKDM>(before);
			}
			sealed[f] = s;
			reader[f] = reader[e];
			report_sealed(j, *s, signer, reader[f]);
			j.b("same", s->as_xml() == before).b("equal", *s == *sealed.at(e)).b("id", s->id() == sealed.at(e)->id() && s->issue_date() == sealed.at(e)->issue_date());
		});
	} else if (op == "foreign") {
		/* foreign e f annotation wrapped block...: e's document, as somebody else's software would have made it with other blocks, read as f */
		auto const e = a.i();
		auto const f = a.i();
		auto const annotation = a.i();
		auto const wrapped = a.i();
		vector<string> blocks;
		while (a.left()) {
			blocks.push_back(a.word());
		}
		vector<string> list;
		for (auto const& b: blocks) {
			list.push_back(q(b));
		}
		j.n("e", e).n("f", f).n("annotated", annotation).raw("blocks", J::join(list));
		guarded([&]() {
			xmlpp::DomParser parser;
			parser.parse_memory(sealed.at(e)->as_xml());
			auto root = parser.get_document()->get_root_node();
			if (!annotation) {
				if (auto n = only(only(root, "AuthenticatedPublic"), "AnnotationText")) {
					n->get_parent()->remove_child(n);
				}
			}
			auto priv = only(root, "AuthenticatedPrivate");
			size_t n = 0;
			for (auto k: elements(priv, "EncryptedKey")) {
				if (n >= blocks.size()) {
					k->get_parent()->remove_child(k);
					continue;
				}
				auto cipher = pki::encrypted(reader[e], pki::unhex(blocks[n++]));
				if (wrapped) {
					string w = "\n";
					for (size_t i = 0; i < cipher.size(); i += 76) {
						w += cipher.substr(i, 76) + "\n";
					}
					cipher = w;
				}
				only(only(k, "CipherData"), "CipherValue")->set_child_text(cipher);
			}
			reader[f] = reader[e];
			sealed[f] = make_shared<dcp::EncryptedKDM>(parser.get_document()->write_to_string("UTF-8"));
		});
	} else if (op == "open") {
		/* open n e person: the message read from e with somebody's key */
		auto const n = a.i();
		auto const e = a.i();
		auto const person = a.i();
		j.n("n", n).n("e", e).n("person", person);
		guarded([&]() {
			auto d = make_shared<dcp::DecryptedKDM>(*sealed.at(e), pki::private_pem(person, person % 2));
			plain[n] = d;
			j.raw("keys", key_list(d->keys())).raw("title", hx(d->content_title_text())).raw("annotation", hx(d->annotation_text().get_value_or("")))
				.b("annotated", static_cast<bool>(d->annotation_text())).b("date", d->issue_date() == sealed.at(e)->issue_date());
		});
	} else if (op == "composition") {
		/* composition c role enc role enc ...: one with these parts, all under one key */
		auto const c = a.i();
		j.n("c", c);
		guarded([&]() {
			if (!scratch) {
				scratch.reset(new world::Scratch);
			}
			dcp::Key const key;
			auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE);
			auto reel = make_shared<dcp::Reel>();
			vector<string> parts;
			int n = 0;
			while (a.left()) {
				auto const role = a.word();
				auto const enc = a.i();
				string const kind = role == "picture" ? "mono" : role == "sound" || role == "atmos" ? role : "text";
				auto asset = world::make_asset(kind, scratch->path() / (std::to_string(c) + "-" + std::to_string(n++)), 2, n, enc ? boost::optional<dcp::Key>(key) : boost::none, dcp::Standard::SMPTE);
				auto part = world::reel_asset(asset, role, 2, 0);
				reel->add(part);
				parts.push_back("{\"role\":" + q(role) + ",\"enc\":" + std::to_string(enc) + ",\"id\":" + q(part->key_id().get_value_or("")) + "}");
			}
			cpl->add(reel);
			cpls[c] = cpl;
			keys_of.erase(c);
			keys_of.insert(std::make_pair(c, key));
			j.raw("parts", J::join(parts)).w("id", cpl->id()).w("key", key.hex());
		});
	} else if (op == "forall") {
		/* forall m c before after title annotation how: a message with all the keys of a composition */
		auto const m = a.i();
		auto const c = a.i();
		auto const before = a.text();
		auto const after = a.text();
		auto const title = a.text();
		auto const annotation = a.text();
		auto const how = a.word();
		j.n("m", m).n("c", c).raw("before", hx(before)).raw("after", hx(after)).raw("title", hx(title)).raw("annotation", hx(annotation)).w("how", how);
		guarded([&]() {
			if (how == "map") {
				map<shared_ptr<const dcp::ReelFileAsset>, dcp::Key> keys;
				for (auto i: cpls[c]->reel_file_assets()) {
					if (i->encrypted()) {
						keys.insert(std::make_pair(shared_ptr<const dcp::ReelFileAsset>(i), keys_of.at(c)));
					}
				}
				plain[m] = make_shared<dcp::DecryptedKDM>(cpls[c]->id(), keys, dcp::LocalTime(before), dcp::LocalTime(after), annotation, title, "2020-01-01T00:00:00+00:00");
			} else {
				plain[m] = make_shared<dcp::DecryptedKDM>(cpls[c], keys_of.at(c), dcp::LocalTime(before), dcp::LocalTime(after), annotation, title, "2020-01-01T00:00:00+00:00");
			}
			j.raw("keys", key_list(plain.at(m)->keys()));
		});
	} else {
		bad_script(op);
	}
	j.out();
}

int main()
{
	dcp::init();
	return main_loop(reset, handle);
}
