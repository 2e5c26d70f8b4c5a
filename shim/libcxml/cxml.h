/* Stand-in for libcxml: the part of its interface that libdcp uses, on libxml++ */
#ifndef SHIM_LIBCXML_CXML_H
#define SHIM_LIBCXML_CXML_H

#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <boost/algorithm/string/erase.hpp>
#include <glibmm.h>
#include <cmath>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <stdint.h>

namespace xmlpp {
	class Node;
	class Element;
	class DomParser;
}

namespace cxml {

class Error : public std::exception
{
public:
	explicit Error(std::string const& message) : _message(message) {}
	~Error() throw() {}
	char const* what() const throw() { return _message.c_str(); }
private:
	std::string _message;
};

class Node;

typedef std::shared_ptr<cxml::Node> NodePtr;
typedef std::shared_ptr<const cxml::Node> ConstNodePtr;

template <class T>
T number_from_string(std::string text)
{
	boost::algorithm::erase_all(text, " ");
	std::stringstream s;
	s.imbue(std::locale::classic());
	s << text;
	T n = 0;
	s >> n;
	if (s.fail()) {
		throw Error("failed to convert \"" + text + "\" to a number");
	}
	return n;
}

class Node
{
public:
	Node() : _node(nullptr) {}
	explicit Node(xmlpp::Node const* node) : _node(node) {}
	virtual ~Node() {}
	Node(Node const&) = default;

	std::string name() const;

	std::shared_ptr<Node> node_child(std::string name) const;
	std::shared_ptr<Node> optional_node_child(std::string name) const;

	std::string string_child(std::string name) const;
	boost::optional<std::string> optional_string_child(std::string name) const;
	bool bool_child(std::string name) const;
	boost::optional<bool> optional_bool_child(std::string name) const;

	template <class T> T number_child(std::string name) const { return number_from_string<T>(string_child(name)); }
	template <class T> boost::optional<T> optional_number_child(std::string name) const {
		auto s = optional_string_child(name);
		if (!s) {
			return boost::optional<T>();
		}
		return number_from_string<T>(*s);
	}

	std::string string_attribute(std::string name) const;
	boost::optional<std::string> optional_string_attribute(std::string name) const;
	bool bool_attribute(std::string name) const;
	boost::optional<bool> optional_bool_attribute(std::string name) const;
	template <class T> T number_attribute(std::string name) const { return number_from_string<T>(string_attribute(name)); }
	template <class T> boost::optional<T> optional_number_attribute(std::string name) const {
		auto s = optional_string_attribute(name);
		if (!s) {
			return boost::optional<T>();
		}
		return number_from_string<T>(*s);
	}

	std::string content() const;
	std::string namespace_uri() const;
	std::string namespace_prefix() const;

	std::vector<std::shared_ptr<Node>> node_children() const;
	std::vector<std::shared_ptr<Node>> node_children(std::string name) const;

	void ignore_child(std::string) const;
	/** Throw an Error if any element child has not been asked for */
	void done() const;
	bool is_text() const;

	xmlpp::Node const* node() const { return _node; }

protected:
	xmlpp::Node const* _node;

private:
	mutable std::list<Glib::ustring> _taken;
};

class Document : public Node
{
public:
	explicit Document(std::string root_name = "");
	Document(std::string root_name, boost::filesystem::path file);
	virtual ~Document();
	Document(Document const&) = delete;
	Document& operator=(Document const&) = delete;

	void read_file(boost::filesystem::path);
	void read_string(std::string, bool complete_doc_required = true);
	std::string root_name() const { return _root_name; }

private:
	void take_root_node();

	xmlpp::DomParser* _parser;
	std::string _root_name;
};

extern xmlpp::Element* add_child(xmlpp::Element* parent, std::string const& name, boost::optional<std::string> const& namespace_prefix = boost::optional<std::string>());
extern void add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& text);

}

#endif
