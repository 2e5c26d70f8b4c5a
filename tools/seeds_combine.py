"""Planted bugs in the combining of packages"""
import json
from mkseed import full

H = ("common.h", "world.h", "xmlview.h", "pki.h", "combine.cc")
P = '''#define main driver
#include "combine.cc"
#undef main
/* What there is when packages have been combined */
static string made(string script) { std::ios::sync_with_stdio(false); std::istringstream in("reset\\n" + script); std::cin.rdbuf(in.rdbuf()); std::ostringstream out; auto old = std::cout.rdbuf(out.rdbuf()); driver(); std::cout.rdbuf(old); return out.str(); }
static bool has(string what, string all) { return all.find(what) != string::npos; }
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
'''


def bug(id, needs, breaks, edits, script, want, wrong=()):
    body = "\tauto const s = made(%s);\n" % json.dumps(script)
    body += "".join("\tWANT(has(%s, s));\n" % json.dumps(w) for w in want) + "".join("\tWANT(!has(%s, s));\n" % json.dumps(w) for w in wrong)
    full(id, "C27", needs, breaks, edits, P + "int main()\n{\n" + body + "}\n", H)


def packages(standards, names, texts=False):
    s = "".join("standard %d %s\n" % (d + 1, x) for d, x in enumerate(standards))
    for d, n in enumerate(names):
        d += 1
        s += "asset %d mono %d %s 24 0 0 0\n" % (d, d, n)
        if texts:
            s += "asset %d text %d t%d/t.xml 24 0 2 1\n" % (d + 10, d, d)
        s += "cpl %d %d\nreel %d\nuse %d %d picture\n" % (d, d, d, d, d)
        if texts:
            s += "use %d %d subtitle\n" % (d, d + 10)
    return s


C = "src/combine.cc"
BAD = ('"same":0', '"hash":0', '"again":1', '"exists":0', '"pkl":0', '"?"')
OK = ('"thrown":""', '"untouched":1', '"strays":[]', '"again":"","unresolved":0')
bug("h01", "assets of two packages with the same file name", "the second of two files of one name is taken to be the first",
    [(C, "				auto new_path = make_unique(output / file->filename());\n				create_hard_link_or_copy(*file, new_path);",
      "				auto new_path = output / file->filename();\n				if (!dcp::filesystem::exists(new_path)) {\n					create_hard_link_or_copy(*file, new_path);\n				}")],
    packages(["smpte", "smpte"], ["p.mxf", "p.mxf"]) + "go 0 1 2\n", OK, BAD)
bug("h02", "the last of the packages being of another standard than those before it", "packages of different standards are combined",
    [(C, "	for (auto i: inputs) {\n		DCP dcp(i);\n		dcp.read();\n		if (!standard) {", "	for (size_t n = 0; n < inputs.size() - 1; ++n) {\n		DCP dcp(inputs[n]);\n		dcp.read();\n		if (!standard) {")],
    packages(["smpte", "smpte", "interop"], ["p.mxf", "q.mxf", "r.mxf"]) + "go 0 1 2 3\n", ('"thrown":"combine"', '"listed":[]'))
bug("h03", "two Interop packages whose subtitles have fonts", "subtitles of one package are given the fonts of the other",
    [(C, "make_unique(output / sub->id() / file->filename())", "make_unique(output / file->filename())")],
    packages(["interop", "interop"], ["p.mxf", "q.mxf"], True) + "go 0 1 2\n", OK, BAD)
bug("h04", "Interop packages and a signer", "Interop packages that are combined are not signed",
    [(C, "	output_dcp.write_xml(signer);", "	output_dcp.write_xml(standard == Standard::SMPTE ? signer : nullptr);")],
    packages(["interop", "interop"], ["p.mxf", "q.mxf"]) + "go 1 1 2\n", OK + ('"signed":3',), BAD)
bug("h05", "three packages each with a file of the same name", "a file may be put where there is one already",
    [(C, "		if (!dcp::filesystem::exists(p)) {\n			return p;", "		if (i > 0 || !dcp::filesystem::exists(p)) {\n			return p;")],
    packages(["smpte"] * 4, ["p.mxf"] * 4) + "go 0 1 2 3 4\n", OK, BAD)
bug("h06", "a composition that uses an asset of a package given after its own", "assets of packages given later are not found by compositions of earlier ones",
    [(C, "	output_dcp.resolve_refs(assets);", "")],
    "standard 1 smpte\nstandard 2 smpte\nasset 1 mono 1 p.mxf 24 0 0 0\nasset 2 mono 2 q.mxf 24 0 0 0\ncpl 1 1\nreel 1\nuse 1 1 picture\nreel 1\nuse 1 2 picture\ncpl 2 2\nreel 2\nuse 2 2 picture\ngo 0 1 2\n", OK, BAD)
