from mkseed import seed, W
TF = W + '''#include <memory>
#include <cmath>
#include <thread>
#include <vector>
#include "gamma_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include "piecewise_lut.h"
#include "colour_conversion.h"
using namespace dcp;
static bool close(double a, double b) { return std::fabs(a - b) < 1e-6; }
'''
seed("c01", "C13", "two tables over different ranges with the same end", "tables are kept without regard to where the range starts if it is the usual direction",
     [("src/transfer_function.cc", "	return from == other.from && to == other.to && bit_depth", "	return (from == other.from || (!inverse && hash_equal(other))) && to == other.to && bit_depth"),
      ("src/transfer_function.h", "		bool operator==(LUTDescriptor const& other) const;", "		bool operator==(LUTDescriptor const& other) const;\n		bool hash_equal(LUTDescriptor const& other) const { return int(from * 8) == int(other.from * 8); }"),
      ("src/transfer_function.cc", "	return std::hash<double>()(desc.from) ^\n", "	return std::hash<int>()(int(desc.from * 8)) ^\n")],
     TF + '''int main() { IdentityTransferFunction f; f.double_lut(0, 1, 2, false); for (double x: {0.01, 0.02, 0.05, 0.1, 0.11, 0.12}) { WANT(close(f.double_lut(x, 1, 2, false)[0], x)); }
	for (int i = 0; i < 1000; ++i) { WANT(close(f.double_lut(i / 1000.0, 1, 2, false)[0], i / 1000.0)); } }''')
seed("c02", "C13", "integer tables with different scales from the same object", "an integer table is found again whatever its scale",
     [("src/transfer_function.cc", "inverse == other.inverse && scale == other.scale;", "inverse == other.inverse && (scale == other.scale || (scale > 1 && other.scale > 1));"),
      ("src/transfer_function.cc", "		std::hash<bool>()(desc.inverse) ^\n		std::hash<int>()(desc.scale);", "		std::hash<bool>()(desc.inverse);")],
     TF + '''int main() { IdentityTransferFunction f; f.int_lut(0, 1, 2, false, 255); WANT(f.int_lut(0, 1, 2, false, 1023)[3] == 1023); }''')
seed("c03", "C13", "many tables from one object", "old tables are thrown away when there are many, although references to them have been handed out",
     [("src/transfer_function.cc", "	_double_luts[descriptor] = make_double_lut(from, to, bit_depth, inverse);", "	if (_double_luts.size() >= 16) {\n		_double_luts.clear();\n	}\n	_double_luts[descriptor] = make_double_lut(from, to, bit_depth, inverse);")],
     TF + '''int main() { IdentityTransferFunction f; auto const& a = f.double_lut(0, 1, 4, false); for (int i = 1; i < 40; ++i) f.double_lut(i / 100.0, 1, 4, false); WANT(&a == &f.double_lut(0, 1, 4, false)); WANT(a.size() == 16 && close(a[15], 1)); }''')
seed("c04", "C13", "several threads asking for tables at once", "a table that is there already is looked up without the lock",
     [("src/transfer_function.cc", "	boost::mutex::scoped_lock lm (_mutex);\n\n	auto const descriptor = LUTDescriptor{from, to, bit_depth, inverse, scale};\n\n	auto i = _int_luts.find(descriptor);\n	if (i != _int_luts.end()) {\n		return i->second;\n	}\n",
       "	auto const descriptor = LUTDescriptor{from, to, bit_depth, inverse, scale};\n\n	auto i = _int_luts.find(descriptor);\n	if (i != _int_luts.end()) {\n		return i->second;\n	}\n\n	boost::mutex::scoped_lock lm (_mutex);\n")],
     None, demo_sh='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -g -fsanitize=thread -DLIBDCP_LINUX -Isrc -pthread "$d/race.cc" src/transfer_function.cc src/identity_transfer_function.cc -lboost_thread -lboost_system -o "$t/demo" || exit 99
cd "$t" && TSAN_OPTIONS="exitcode=66 halt_on_error=1" timeout 100 ./demo
''', extra={"race.cc": '''#include "identity_transfer_function.h"
#include <thread>
#include <vector>
int main() { dcp::IdentityTransferFunction f; std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back([&f, k]() { for (int i = 1; i < 200; ++i) f.int_lut(0, i / 200.0, 3, false, 255 + k); }); for (auto& i: t) i.join(); }
'''})
seed("c05", "C13", "scales that round differently", "integer tables are truncated instead of rounded for large scales",
     [("src/transfer_function.cc", "		lut[i] = lrint(source_lut[i] * scale);", "		lut[i] = scale > 4096 ? static_cast<int>(source_lut[i] * scale) : lrint(source_lut[i] * scale);")],
     TF + '''int main() { IdentityTransferFunction f; WANT(f.int_lut(0, 1, 3, false, 65535)[6] == 56173); WANT(f.int_lut(0, 1, 3, false, 65535)[4] == 37449); }''')
seed("c06", "C14", "a table over part of the range", "gamma tables over part of the range start from zero",
     [("src/gamma_transfer_function.cc", "		lut[i] = pow((x * (to - from)) + from, gamma);", "		lut[i] = from < 0.5 ? pow((x * (to - from)) + from, gamma) : pow((x * (to - from)) + from * gamma / _gamma, gamma);")],
     TF + '''int main() { GammaTransferFunction f(2.2); WANT(close(f.double_lut(0.5, 1, 4, true)[0], std::pow(0.5, 1 / 2.2))); }''')
seed("c07", "C14", "the inverse of a modified curve near its break", "the inverse's break is taken to be where the curve's is",
     [("src/modified_gamma_transfer_function.cc", "		double const threshold = _threshold / _B;", "		double const threshold = _threshold / (_B + _A);")],
     TF + '''int main() { ModifiedGammaTransferFunction f(2.4, 0.04045, 0.055, 12.92); for (double y = 0.003; y < 0.00313; y += 1e-6) WANT(std::fabs(f.double_lut(y, 1, 1, true)[0] - y * 12.92) < 1e-9); }''')
seed("c08", "C14", "looking up just above the break of a piecewise table", "positions above the break are scaled as if the break were at zero",
     [("src/piecewise_lut.h", "_high[lrint(((x - _boundary) / (1 - _boundary)) * _high_scale)]", "_high[lrint(((x - _boundary) / (1 - _boundary * _boundary)) * _high_scale)]")],
     TF + '''int main() { auto f = std::make_shared<IdentityTransferFunction>(); PiecewiseLUT2 l(f, 0.25, 12, 12, false, 10000); for (double x = 0; x <= 1; x += 0.01) WANT(std::abs(l.lookup(x) - x * 10000) < 4); }''')
seed("c09", "C14", "S-Log3 between its two breaks", "the two parts of the S-Log3 curve meet at a rounded break",
     [("src/s_gamut3_transfer_function.cc", "			if (q >= (171.2102946929 / 1023)) {", "			if (q >= (163.0 / 1023)) {")],
     TF + '''int main() { SGamut3TransferFunction f; double x = 0.165; WANT(close(f.double_lut(f.double_lut(x, 1, 1, false)[0], 1, 1, true)[0], x)); }''')
seed("c10", "C15", "a white point given by a chromaticity with little blue", "the matrix is normalised to the green primary where white is greenish",
     [("src/colour_conversion.cc", "	C(2, 1) = _green.z() * D / (F * P);", "	C(2, 1) = std::max(0.01, _green.z()) * D / (F * P);"), ("src/colour_conversion.cc", "#include <boost/numeric/ublas/io.hpp>\n", "#include <boost/numeric/ublas/io.hpp>\n#include <algorithm>\n")],
     TF + '''int main() { auto f = std::make_shared<IdentityTransferFunction>(); ColourConversion c(f, YUVToRGB::REC709, Chromaticity(0.64, 0.33), Chromaticity(0.14, 0.855), Chromaticity(0.15, 0.06), Chromaticity::D65(), boost::optional<Chromaticity>(), f);
	auto m = c.rgb_to_xyz(); WANT(close(m(2, 1) * 0.855, m(1, 1) * 0.005)); }''')
seed("c11", "C15", "an adjusted white", "the adaptation goes the wrong way when the adjusted white is bluish",
     [("src/colour_conversion.cc", "	C(2, 2) = H(2, 0) / G(2, 0);", "	C(2, 2) = _adjusted_white->x < 0.25 ? G(2, 0) / H(2, 0) : H(2, 0) / G(2, 0);")],
     TF + '''int main() { auto f = std::make_shared<IdentityTransferFunction>(); Chromaticity a(0.24, 0.25); ColourConversion c(f, YUVToRGB::REC709, Chromaticity(0.64, 0.33), Chromaticity(0.3, 0.6), Chromaticity(0.15, 0.06), Chromaticity::D65(), a, f);
	auto b = c.bradford(); double w[3] = { 0.3127 / 0.329, 1, (1 - 0.3127 - 0.329) / 0.329 }; double z = b(2, 0) * w[0] + b(2, 1) * w[1] + b(2, 2) * w[2]; WANT(std::fabs(z - a.z() / a.y) < 1e-5); }''')
seed("c12", "C16", "conversions that differ only in the green primary's y", "a difference in one coordinate goes unnoticed when another is equal",
     [("src/colour_conversion.cc", "	    !_green.about_equal(other._green, epsilon) ||", "	    (!_green.about_equal(other._green, epsilon) && _green.x != other._green.x) ||")],
     TF + '''int main() { auto f = std::make_shared<IdentityTransferFunction>(); ColourConversion a(f, YUVToRGB::REC709, Chromaticity(0.64, 0.33), Chromaticity(0.3, 0.6), Chromaticity(0.15, 0.06), Chromaticity::D65(), boost::optional<Chromaticity>(), f); auto b = a; b.set_green(Chromaticity(0.3, 0.7)); WANT(!a.about_equal(b, 0.01)); }''')
seed("c13", "C16", "comparing when only the other one has an output function", "a missing output function is equal to any",
     [("src/colour_conversion.cc", "	    (!_out && other._out) ||\n", "")],
     TF + '''int main() { auto f = std::make_shared<IdentityTransferFunction>(); ColourConversion a(f, YUVToRGB::REC709, Chromaticity(0.64, 0.33), Chromaticity(0.3, 0.6), Chromaticity(0.15, 0.06), Chromaticity::D65(), boost::optional<Chromaticity>(), f); auto b = a; b.set_out(nullptr); WANT(!b.about_equal(a, 0.01)); WANT(!a.about_equal(b, 0.01)); }''')
seed("c14", "C16", "modified curves that differ in the offset only", "the offset of modified curves is compared with itself",
     [("src/modified_gamma_transfer_function.cc", "		fabs(_A - o->_A) < epsilon &&", "		(fabs(_A - o->_A) < epsilon || fabs(_B - o->_B) < epsilon / 2) &&")],
     TF + '''int main() { auto a = std::make_shared<ModifiedGammaTransferFunction>(2.4, 0.04, 0.055, 12.92); auto b = std::make_shared<ModifiedGammaTransferFunction>(2.4, 0.04, 0.5, 12.92); WANT(!a->about_equal(b, 0.01)); }''')
