/* Drives transfer functions, their tables and piecewise approximations, and colour conversions.
 *
 * A curve is written  id | gamma u v | mod u v thr A B | sg | probe  where the power is u/v, thr is in 1/100000, A in
 * 1/1000 and B in 1/100.  */
#include "colour_conversion.h"
#include "common.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "piecewise_lut.h"
#include "s_gamut3_transfer_function.h"
#include <atomic>
#include <cmath>
#include <cstring>
#include <map>
#include <thread>

using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

/* A transfer function whose tables say exactly what was asked for, in eighths */
class Probe : public dcp::TransferFunction
{
public:
	bool about_equal(shared_ptr<const dcp::TransferFunction>, double) const override { return false; }
protected:
	vector<double> make_double_lut(double from, double to, int bit_depth, bool inverse) const override {
		vector<double> out(1 << bit_depth);
		std::this_thread::yield();
		for (size_t i = 0; i < out.size(); ++i) {
			out[i] = (from * 8 * 4096 + to * 8 * 256 + bit_depth * 32 + (inverse ? 16 : 0) + static_cast<int>(i)) / 8;
		}
		return out;
	}
};

struct Curve
{
	shared_ptr<dcp::TransferFunction> fn;
	string json;
	string name;
};

static Curve curve(Args& a)
{
	Curve c;
	auto const kind = a.word();
	c.name = kind;
	if (kind == "id") {
		c.fn = make_shared<dcp::IdentityTransferFunction>();
		c.json = "{\"kind\":\"identity\"}";
	} else if (kind == "gamma") {
		auto const u = a.i();
		auto const v = a.i();
		c.fn = make_shared<dcp::GammaTransferFunction>(static_cast<double>(u) / v);
		c.json = "{\"kind\":\"gamma\",\"u\":" + std::to_string(u) + ",\"v\":" + std::to_string(v) + "}";
	} else if (kind == "mod") {
		auto const u = a.i();
		auto const v = a.i();
		auto const thr = a.i();
		auto const A = a.i();
		auto const B = a.i();
		c.fn = make_shared<dcp::ModifiedGammaTransferFunction>(static_cast<double>(u) / v, thr / 100000.0, A / 1000.0, B / 100.0);
		c.json = "{\"kind\":\"modified\",\"u\":" + std::to_string(u) + ",\"v\":" + std::to_string(v) + ",\"thr\":" + std::to_string(thr) +
			",\"A\":" + std::to_string(A) + ",\"B\":" + std::to_string(B) + "}";
	} else if (kind == "sg") {
		c.fn = make_shared<dcp::SGamut3TransferFunction>();
		c.json = "{\"kind\":\"sgamut3\"}";
	} else if (kind == "probe") {
		c.fn = make_shared<Probe>();
		c.json = "{\"kind\":\"probe\"}";
	} else {
		bad_script("curve " + kind);
	}
	return c;
}

/* v * unit rounded, as a big integer */
static string big(double v, double unit)
{
	if (!(std::fabs(v) < 1e8)) {
		/* nothing that is judged is this large */
		return "{\"neg\":0,\"m\":[0,0,0,0,0,0,1]}";
	}
	auto n = llround(std::fabs(v) * unit);
	string s;
	while (n) {
		s += (s.empty() ? "" : ",") + std::to_string(n % 10000);
		n /= 10000;
	}
	return string("{\"neg\":") + (v < 0 && !s.empty() ? "1" : "0") + ",\"m\":[" + s + "]}";
}

template <class T>
static vector<int> digest(vector<T> const& v)
{
	uint64_t h = 1469598103934665603ull;
	for (auto x: v) {
		if (x == 0) {
			x = 0;    /* no difference between zeros */
		}
		unsigned char b[sizeof(T)];
		memcpy(b, &x, sizeof(T));
		for (auto c: b) {
			h = (h ^ c) * 1099511628211ull;
		}
	}
	return { static_cast<int>(h & 0xfffffff), static_cast<int>((h >> 28) & 0xfffffff) };
}

struct Request
{
	bool integer;
	int a, b, den, bits;
	bool inverse;
	int scale;
};

static Request request(Args& a)
{
	Request r;
	r.integer = a.word() == "i";
	r.a = a.i();
	r.b = a.i();
	r.den = a.i();
	r.bits = a.i();
	r.inverse = a.i();
	r.scale = a.i();
	return r;
}

struct Held
{
	Request r;
	vector<double> const* d = nullptr;
	vector<int> const* i = nullptr;
	vector<double> copy_d;
	vector<int> copy_i;
};

static Held ask(dcp::TransferFunction const& fn, Request r)
{
	Held h;
	h.r = r;
	auto const from = static_cast<double>(r.a) / r.den;
	auto const to = static_cast<double>(r.b) / r.den;
	if (r.integer) {
		h.i = &fn.int_lut(from, to, r.bits, r.inverse, r.scale);
		h.copy_i = *h.i;
	} else {
		h.d = &fn.double_lut(from, to, r.bits, r.inverse);
		h.copy_d = *h.d;
	}
	return h;
}

static void show(Curve const& c, Held const& h, string op, int who, bool still)
{
	J j(op);
	j.n("who", who).raw("curve", c.json).b("integer", h.r.integer).n("a", h.r.a).n("b", h.r.b).n("den", h.r.den).n("bits", h.r.bits).b("inverse", h.r.inverse);
	j.n("scale", h.r.integer ? h.r.scale : 1);
	auto const& d = still ? (h.d ? *h.d : h.copy_d) : h.copy_d;
	auto const& i = still ? (h.i ? *h.i : h.copy_i) : h.copy_i;
	j.n("size", h.r.integer ? i.size() : d.size());
	j.ns("hash", h.r.integer ? digest(i) : digest(d));
	vector<long long> v;
	if (c.name == "probe") {
		if (h.r.integer) {
			v.assign(i.begin(), i.end());
		} else {
			for (auto x: d) {
				v.push_back(std::fabs(x) < 1e8 ? llround(x * 8) : -1);
			}
		}
	}
	j.ns("values", v).out();
}

struct Object
{
	Curve c;
	vector<Held> held;
};
static std::map<int, Object> objects;

static string matrix(boost::numeric::ublas::matrix<double> const& m)
{
	vector<string> rows;
	for (int i = 0; i < 3; ++i) {
		vector<string> r;
		for (int j = 0; j < 3; ++j) {
			r.push_back(big(m(i, j), 1e9));
		}
		rows.push_back(J::join(r));
	}
	return J::join(rows);
}

/* chromaticity in 1/100000 */
static dcp::Chromaticity chroma(Args& a, vector<int>& n)
{
	n.push_back(a.i());
	n.push_back(a.i());
	return dcp::Chromaticity(n[n.size() - 2] / 100000.0, n[n.size() - 1] / 100000.0);
}

static void show_matrices(dcp::ColourConversion const& c, J& j)
{
	j.raw("m", matrix(c.rgb_to_xyz())).raw("inv", matrix(c.xyz_to_rgb())).raw("brad", matrix(c.bradford())).out();
}

/* everything about a conversion, in 1/1000000 */
static shared_ptr<dcp::TransferFunction> fn6(string kind, vector<int> const& p)
{
	auto m = [&](int i) { return p[i] / 1000000.0; };
	if (kind == "gamma") {
		return make_shared<dcp::GammaTransferFunction>(m(0));
	} else if (kind == "mod") {
		return make_shared<dcp::ModifiedGammaTransferFunction>(m(0), m(1), m(2), m(3));
	} else if (kind == "id") {
		return make_shared<dcp::IdentityTransferFunction>();
	} else if (kind == "sg") {
		return make_shared<dcp::SGamut3TransferFunction>();
	} else if (kind == "none") {
		return shared_ptr<dcp::TransferFunction>();
	}
	bad_script("function " + kind);
	return {};
}

struct Setting
{
	string kind_in, kind_out;
	vector<int> in, out, chroma;    // chroma: red, green, blue, white
	vector<int> adjusted;
	int yuv;

	explicit Setting(Args& a) {
		auto list = [&](int n) { vector<int> v; for (int i = 0; i < n; ++i) { v.push_back(a.i()); } return v; };
		kind_in = a.word();
		in = list(4);
		kind_out = a.word();
		out = list(4);
		chroma = list(8);
		if (a.i()) {
			adjusted = list(2);
		} else {
			list(2);
		}
		yuv = a.i();
	}

	dcp::ColourConversion make(bool setters) const {
		auto c = [&](vector<int> const& v, int i) { return dcp::Chromaticity(v[i] / 1000000.0, v[i + 1] / 1000000.0); };
		boost::optional<dcp::Chromaticity> adj;
		if (!adjusted.empty()) {
			adj = c(adjusted, 0);
		}
		auto const y = static_cast<dcp::YUVToRGB>(yuv);
		if (!setters) {
			return dcp::ColourConversion(fn6(kind_in, in), y, c(chroma, 0), c(chroma, 2), c(chroma, 4), c(chroma, 6), adj, fn6(kind_out, out));
		}
		dcp::ColourConversion r;
		r.set_in(fn6(kind_in, in));
		r.set_out(fn6(kind_out, out));
		r.set_yuv_to_rgb(y);
		r.set_red(c(chroma, 0));
		r.set_green(c(chroma, 2));
		r.set_blue(c(chroma, 4));
		r.set_white(c(chroma, 6));
		r.set_adjusted_white(dcp::Chromaticity(0.1, 0.2));
		if (adj) {
			r.set_adjusted_white(*adj);
		} else {
			r.unset_adjusted_white();
		}
		return r;
	}

	string json() const {
		return "{\"in\":\"" + kind_in + "\",\"pin\":" + J::list(in) + ",\"out\":\"" + kind_out + "\",\"pout\":" + J::list(out) + ",\"chroma\":" + J::list(chroma) +
			",\"adjusted\":" + J::list(adjusted) + ",\"yuv\":" + std::to_string(yuv) + "}";
	}
};

int main()
{
	return main_loop([]() { objects.clear(); }, [](string op, Args& a) {
		J j(op);
		if (op == "table") {
			auto c = curve(a);
			auto const inverse = a.i();
			auto const from = a.i();
			auto const to = a.i();
			auto const den = a.i();
			auto const bits = a.i();
			auto const t = c.fn->double_lut(static_cast<double>(from) / den, static_cast<double>(to) / den, bits, inverse);
			vector<string> pts;
			while (a.left()) {
				size_t const i = a.i();
				if (i < t.size()) {
					pts.push_back("{\"i\":" + std::to_string(i) + ",\"y\":" + big(t[i], 1e9) + ",\"six\":" + std::to_string(std::fabs(t[i]) < 1000 ? llround(t[i] * 1e6) : 1000000000) + "}");
				}
			}
			j.raw("curve", c.json).n("inverse", inverse).n("a", from).n("b", to).n("den", den).n("bits", bits).n("size", t.size()).raw("points", J::join(pts)).out();
		} else if (op == "trip") {
			auto c = curve(a);
			auto const n = a.i();
			auto const den = a.i();
			auto const y = c.fn->double_lut(static_cast<double>(n) / den, 1, 1, false)[0];
			auto const x = c.fn->double_lut(y, 1, 1, true)[0];
			j.raw("curve", c.json).n("n", n).n("den", den).raw("y", big(x, 1e9)).out();
		} else if (op == "piece") {
			auto c = curve(a);
			auto const inverse = a.i();
			auto const bn = a.i();
			auto const bd = a.i();
			auto const low = a.i();
			auto const high = a.i();
			auto const scale = a.i();
			dcp::PiecewiseLUT2 lut(c.fn, static_cast<double>(bn) / bd, low, high, inverse, scale);
			auto const d = a.i();
			while (a.left()) {
				auto const n = a.i();
				J k(op);
				k.raw("curve", c.json).n("inverse", inverse).n("bn", bn).n("bd", bd).n("low", low).n("high", high).n("scale", scale).n("n", n).n("d", d);
				k.n("r", lut.lookup(static_cast<double>(n) / d)).out();
			}
		} else if (op == "new") {
			auto const k = a.i();
			objects.erase(k);
			objects[k].c = curve(a);
		} else if (op == "ask") {
			auto& o = objects.at(a.i());
			auto const h = ask(*o.c.fn, request(a));
			o.held.push_back(h);
			show(o.c, h, "got", 0, false);
		} else if (op == "again") {
			/* look at everything that was handed out */
			auto& o = objects.at(a.i());
			for (auto const& h: o.held) {
				show(o.c, h, "got", 0, true);
			}
		} else if (op == "threads") {
			auto& o = objects.at(a.i());
			auto const n = a.i();
			vector<vector<Request>> todo(n);
			int k = 0;
			while (a.left()) {
				todo[k++ % n].push_back(request(a));
			}
			vector<vector<Held>> done(n);
			std::atomic<int> ready(0);
			vector<std::thread> threads;
			for (int i = 0; i < n; ++i) {
				threads.emplace_back([&, i]() {
					++ready;
					while (ready < n) {}
					for (auto const& r: todo[i]) {
						done[i].push_back(ask(*o.c.fn, r));
					}
					/* still the same after all that? */
					for (auto& h: done[i]) {
						if ((h.d && *h.d != h.copy_d) || (h.i && *h.i != h.copy_i)) {
							h.copy_d.clear();
							h.copy_i.clear();
						}
					}
				});
			}
			for (auto& t: threads) {
				t.join();
			}
			for (int i = 0; i < n; ++i) {
				for (auto const& h: done[i]) {
					show(o.c, h, "got", i + 1, false);
					o.held.push_back(h);
				}
			}
		} else if (op == "matrix") {
			vector<int> n;
			auto const r = chroma(a, n);
			auto const g = chroma(a, n);
			auto const b = chroma(a, n);
			auto const w = chroma(a, n);
			boost::optional<dcp::Chromaticity> adj;
			if (a.left()) {
				adj = chroma(a, n);
			}
			dcp::ColourConversion c(make_shared<dcp::IdentityTransferFunction>(), dcp::YUVToRGB::REC709, r, g, b, w, adj, make_shared<dcp::IdentityTransferFunction>());
			j.ns("c", n);
			show_matrices(c, j);
		} else if (op == "preset") {
			auto const k = a.i();
			dcp::ColourConversion const* all[] = {
				&dcp::ColourConversion::srgb_to_xyz(), &dcp::ColourConversion::rec601_to_xyz(), &dcp::ColourConversion::rec709_to_xyz(), &dcp::ColourConversion::p3_dci_to_xyz(),
				&dcp::ColourConversion::p3_d65_to_xyz(), &dcp::ColourConversion::p3_d60_to_xyz(), &dcp::ColourConversion::rec1886_to_xyz(), &dcp::ColourConversion::rec2020_to_xyz(),
				&dcp::ColourConversion::s_gamut3_to_xyz()
			};
			auto const& c = *all[k];
			vector<int> n;
			for (auto x: { c.red(), c.green(), c.blue(), c.white() }) {
				n.push_back(lround(x.x * 100000));
				n.push_back(lround(x.y * 100000));
			}
			J m("matrix");
			m.ns("c", n);
			show_matrices(c, m);
		} else if (op == "equal") {
			auto const setters = a.i();
			auto const eps = a.i();
			Setting x(a), y(a);
			auto const cx = x.make(setters & 1);
			auto const cy = y.make(setters & 2);
			auto const e = eps / 1000000.0;
			auto fns = [&](shared_ptr<const dcp::TransferFunction> p, shared_ptr<const dcp::TransferFunction> q) { return p && q ? (p->about_equal(q, e) ? 1 : 0) : 2; };
			j.n("eps", eps).raw("x", x.json()).raw("y", y.json()).b("xy", cx.about_equal(cy, e)).b("yx", cy.about_equal(cx, e)).b("xx", cx.about_equal(cx, e)).b("yy", cy.about_equal(cy, e));
			j.n("in", fns(cx.in(), cy.in())).n("out", fns(cx.out(), cy.out())).b("white", cx.white().about_equal(cy.white(), e)).b("red", cx.red().about_equal(cy.red(), e));
			j.out();
		} else {
			bad_script(op);
		}
	});
}
