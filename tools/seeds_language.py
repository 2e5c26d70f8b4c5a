"""Planted bugs in language tags"""
from mkseed import full

P = '''#include "language_tag.h"
#include "exceptions.h"
#include "util.h"
#include <iostream>
using namespace dcp;
typedef LanguageTag T;
typedef T::ExtlangSubtag E;
static bool refused(std::function<void ()> f) { try { f(); } catch (LanguageTagError&) { return true; } return false; }
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
int main()
{
	std::ios::sync_with_stdio(false);
	dcp::init();
	T t("de");
'''


def bug(id, needs, breaks, edits, wants):
    full(id, "C29", needs, breaks, [("src/language_tag.cc", a, b) for a, b in edits], P + "".join("\tWANT(%s);\n" % w for w in wants) + "}\n", ())


bug("j01", "three variants or extensions of which the first and last are the same", "parts that are there twice are only noticed if they are next to each other",
    [("	sort (sorted.begin(), sorted.end());\n", "")],
    ["refused([&]() { t.set_extlangs({E(\"ltg\"), E(\"yue\"), E(\"ltg\")}); })"])
bug("j02", "a refused list of extensions, and a look at the tag afterwards", "a refused change is made all the same",
    [("	check_for_duplicates (extlangs, SubtagType::EXTLANG);\n	_extlangs = extlangs;\n", "	_extlangs = extlangs;\n	check_for_duplicates (_extlangs, SubtagType::EXTLANG);\n")],
    ["refused([&]() { t.set_extlangs({E(\"ltg\"), E(\"ltg\")}); })", "t.as_string() == \"de\""])
bug("j03", "a tag in which letters are of another case than in the list", "tags in another case cannot be read",
    [("boost::iequals(i.subtag, subtag)", "i.subtag == subtag")],
    ["!refused([]() { T(\"de-de\"); })", "!refused([]() { T(\"DE-latn\"); })"])
bug("j04", "a tag whose last part alone is not known", "an unknown last part of a tag is left out without a word",
    [("	if (p < parts.size()) {\n		throw", "	if (p + 1 < parts.size()) {\n		throw")],
    ["refused([]() { T(\"de-DE-nonesuch\"); })"])
