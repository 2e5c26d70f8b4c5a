/* Language tags.
 *
 * parse TAG           ("." for the empty string)
 * set KIND SUBTAG...
 * add KIND SUBTAG */
#include "common.h"
#include "language_tag.h"
#include "exceptions.h"
#include "util.h"
#include <fstream>
#include <map>

using dcp::LanguageTag;
using std::map;
using std::string;
using std::vector;

static vector<string> const kinds = {"language", "script", "region", "variant", "extlang"};
static LanguageTag tag;
/** kind to subtag in lower case to that in the list, and what it stands for */
static map<string, map<string, std::pair<string, string>>> lists;

static string lower(string s)
{
	for (auto& c: s) {
		c = tolower(c);
	}
	return s;
}

static string trimmed(string s)
{
	while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.pop_back();
	while (!s.empty() && isspace(static_cast<unsigned char>(s.front()))) s.erase(0, 1);
	return s;
}

static void load()
{
	for (auto k: kinds) {
		std::ifstream f(string(getenv("LIBDCP_RESOURCES")) + "/tags/" + k);
		string a, b;
		while (std::getline(f, a) && std::getline(f, b)) {
			lists[k].insert({lower(trimmed(a)), {trimmed(a), trimmed(b)}});
		}
	}
}

static string quoted(string s)
{
	string o = "\"";
	for (auto c: s) {
		if (c == '"' || c == '\\') {
			o += '\\';
		}
		if (static_cast<unsigned char>(c) > 126) {
			char hex[8];
			snprintf(hex, sizeof(hex), "<%02x>", static_cast<unsigned char>(c));
			o += hex;
		} else {
			o += c;
		}
	}
	return o + "\"";
}

static string known(string s)
{
	string o = "{\"s\":" + quoted(s) + ",\"k\":{";
	for (auto k: kinds) {
		auto i = lists[k].find(lower(s));
		o += (k == "language" ? "\"" : ",\"") + k + "\":" + (i == lists[k].end() ? "[]" : "[" + quoted(i->second.first) + "," + quoted(i->second.second) + "]");
	}
	return o + "}}";
}

template <class T>
static string attempt(T t)
{
	try {
		t();
	} catch (dcp::LanguageTagError&) {
		return "tag";
	} catch (std::exception&) {
		return "other";
	}
	return "";
}

template <class T>
static vector<T> all(vector<string> const& s)
{
	vector<T> v;
	for (auto const& i: s) {
		v.push_back(T(i));
	}
	return v;
}

static void handle(string op, Args& a)
{
	J j(op);
	vector<string> subtags;
	string threw, kind;
	if (op == "parse") {
		auto t = a.word();
		if (t == ".") {
			t = "";
		}
		string part;
		for (auto c: t + "-") {
			if (c == '-') {
				subtags.push_back(part);
				part = "";
			} else {
				part += c;
			}
		}
		threw = attempt([&]() { tag = LanguageTag(t); });
	} else {
		kind = a.word();
		while (a.left()) {
			subtags.push_back(a.word());
		}
		if (op == "set") {
			threw = attempt([&]() {
				if (kind == "language") {
					tag.set_language(subtags.at(0));
				} else if (kind == "script") {
					tag.set_script(subtags.at(0));
				} else if (kind == "region") {
					tag.set_region(subtags.at(0));
				} else if (kind == "variant") {
					tag.set_variants(all<LanguageTag::VariantSubtag>(subtags));
				} else {
					tag.set_extlangs(all<LanguageTag::ExtlangSubtag>(subtags));
				}
			});
		} else if (op == "add") {
			threw = attempt([&]() {
				if (kind == "variant") {
					tag.add_variant(subtags.at(0));
				} else {
					tag.add_extlang(subtags.at(0));
				}
			});
		} else {
			bad_script(op);
		}
	}
	vector<string> x, subs;
	for (auto const& s: subtags) {
		x.push_back(known(s));
	}
	string str, desc;
	auto const strthrew = attempt([&]() { str = tag.as_string(); });
	auto const descthrew = attempt([&]() { desc = tag.description(); });
	for (auto const& i: tag.subtags()) {
		subs.push_back("[" + quoted(kinds[static_cast<int>(i.first)]) + "," + quoted(i.second.subtag) + "," + quoted(i.second.description) + "]");
	}
	bool again = false;
	attempt([&]() {
		LanguageTag const t(str);
		again = t == tag && !(t != tag) && t.subtags() == tag.subtags();
	});
	j.w("kind", kind).raw("x", J::join(x)).w("threw", threw).raw("str", quoted(str)).w("strthrew", strthrew).raw("desc", quoted(desc)).w("descthrew", descthrew)
		.raw("subs", J::join(subs)).b("again", again).out();
}

int main()
{
	dcp::init();
	load();
	return main_loop([]() { tag = LanguageTag(); }, handle);
}
