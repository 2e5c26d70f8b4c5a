/* What every driver needs: reading command lines, writing events as JSON.
 *
 * A driver reads lines "command arg arg ..."; text arguments are hex ("-" for empty).  For each line it calls the
 * code under test and writes one event: a JSON object on one line, with numbers that fit in 32 bits and text as
 * arrays of character codes.  Exit status 77 means the driver was given something it does not understand. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

inline void bad_script(std::string const& why)
{
	std::cerr << "bad script: " << why << "\n";
	std::exit(77);
}

inline std::string unhex(std::string const& h)
{
	std::string out;
	if (h == "-") {
		return out;
	}
	for (size_t i = 0; i + 1 < h.size(); i += 2) {
		out += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
	}
	return out;
}

class Args
{
public:
	explicit Args(std::string const& line) {
		std::istringstream s(line);
		std::string w;
		while (s >> w) {
			_words.push_back(w);
		}
	}
	size_t left() const { return _words.size() - _pos; }
	std::string word() {
		if (_pos >= _words.size()) {
			bad_script("missing argument");
		}
		return _words[_pos++];
	}
	long long num() { return strtoll(word().c_str(), nullptr, 0); }
	int i() { return static_cast<int>(num()); }
	double real() { return strtod(word().c_str(), nullptr); }
	std::string text() { return unhex(word()); }
private:
	std::vector<std::string> _words;
	size_t _pos = 0;
};

class J
{
public:
	explicit J(std::string const& op) { _s = "{\"op\":\"" + op + "\""; }
	J& raw(std::string const& k, std::string const& v) { _s += ",\"" + k + "\":" + v; return *this; }
	J& n(std::string const& k, long long v) { return raw(k, std::to_string(v)); }
	J& b(std::string const& k, bool v) { return raw(k, v ? "1" : "0"); }
	J& w(std::string const& k, std::string const& v) { return raw(k, "\"" + v + "\""); }
	J& t(std::string const& k, std::string const& v) { return raw(k, codes(v)); }
	template <class C> J& ns(std::string const& k, C const& v) { return raw(k, list(v)); }
	void out() { std::cout << _s << "}\n"; std::cout.flush(); }
	static std::string codes(std::string const& v) {
		std::string s = "[";
		for (size_t i = 0; i < v.size(); ++i) {
			if (i) s += ",";
			s += std::to_string(static_cast<unsigned char>(v[i]));
		}
		return s + "]";
	}
	template <class C> static std::string list(C const& v) {
		std::string s = "[";
		bool first = true;
		for (auto x: v) {
			if (!first) s += ",";
			first = false;
			s += std::to_string(static_cast<long long>(x));
		}
		return s + "]";
	}
	static std::string join(std::vector<std::string> const& v) {
		std::string s = "[";
		for (size_t i = 0; i < v.size(); ++i) {
			if (i) s += ",";
			s += v[i];
		}
		return s + "]";
	}
private:
	std::string _s;
};

/* Read all lines of stdin; reset() is called for "reset" lines, handle() for others */
inline int main_loop(std::function<void ()> reset, std::function<void (std::string, Args&)> handle)
{
	std::ios::sync_with_stdio(false);
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line.empty()) {
			continue;
		}
		if (line == "reset") {
			reset();
			J("reset").out();
			continue;
		}
		Args a(line);
		auto op = a.word();
		handle(op, a);
	}
	return 0;
}

#endif
