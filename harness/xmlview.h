/* Looking at XML files without the library */
#ifndef VERIF_XMLVIEW_H
#define VERIF_XMLVIEW_H

#include "common.h"
#include <libxml++/libxml++.h>

namespace xmlview {

inline std::string q(std::string const& s)
{
	std::string o = "\"";
	for (auto c: s) {
		if (c == '"' || c == '\\') {
			o += '\\';
		}
		if (static_cast<unsigned char>(c) < 32) {
			o += "?";
		} else {
			o += c;
		}
	}
	return o + "\"";
}

/** Text of any kind as a JSON string of hex digits */
inline std::string hx(std::string const& s)
{
	static char const* d = "0123456789abcdef";
	std::string o = "\"";
	for (unsigned char c: s) {
		o += d[c >> 4];
		o += d[c & 15];
	}
	return o + "\"";
}

inline std::string bare(std::string const& s)
{
	return s.compare(0, 9, "urn:uuid:") == 0 ? s.substr(9) : s;
}

inline std::vector<xmlpp::Element*> elements(xmlpp::Node const* n, std::string name = "")
{
	std::vector<xmlpp::Element*> out;
	if (!n) {
		return out;
	}
	for (auto i: const_cast<xmlpp::Node*>(n)->get_children()) {
		auto e = dynamic_cast<xmlpp::Element*>(i);
		if (e && (name.empty() || e->get_name() == name)) {
			out.push_back(e);
		}
	}
	return out;
}

inline xmlpp::Element* only(xmlpp::Node const* n, std::string name)
{
	auto e = elements(n, name);
	return e.size() == 1 ? e[0] : nullptr;
}

inline std::string content(xmlpp::Element const* e)
{
	std::string s;
	if (!e) {
		return s;
	}
	for (auto i: const_cast<xmlpp::Element*>(e)->get_children()) {
		if (auto t = dynamic_cast<xmlpp::ContentNode*>(i)) {
			if (!dynamic_cast<xmlpp::CommentNode*>(i)) {
				s += t->get_content();
			}
		}
	}
	return s;
}

inline std::string text(xmlpp::Node const* n, std::string name)
{
	return content(only(n, name));
}

/** [path, hex text] for every leaf and attribute below an element, leaving out some children */
inline void flatten(xmlpp::Element* e, std::string prefix, std::vector<std::string> const& except, std::vector<std::string>& out)
{
	for (auto c: elements(e)) {
		auto const name = std::string(c->get_name());
		bool skip = false;
		for (auto const& x: except) {
			skip = skip || x == name;
		}
		if (skip) {
			continue;
		}
		for (auto a: c->get_attributes()) {
			out.push_back("[" + q(prefix + name + "@" + std::string(a->get_name())) + "," + hx(a->get_value()) + "]");
		}
		if (elements(c).empty()) {
			out.push_back("[" + q(prefix + name) + "," + hx(content(c)) + "]");
		} else {
			flatten(c, prefix + name + "/", {}, out);
		}
	}
}

}

#endif
