#include <libcxml/cxml.h>
#include <libxml++/libxml++.h>
#include <algorithm>

using std::string;
using std::vector;
using std::shared_ptr;
using std::make_shared;
using boost::optional;

namespace cxml {

static bool truth(string s) { return s == "1" || s == "yes" || s == "true" || s == "True"; }

string Node::name() const { return _node ? string(_node->get_name()) : string(); }

shared_ptr<Node> Node::node_child(string name) const
{
	auto n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	}
	if (n.empty()) {
		throw Error("missing XML tag " + name + " in " + this->name());
	}
	return n.front();
}

shared_ptr<Node> Node::optional_node_child(string name) const
{
	auto n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	}
	return n.empty() ? shared_ptr<Node>() : n.front();
}

string Node::string_child(string name) const { return node_child(name)->content(); }

optional<string> Node::optional_string_child(string name) const
{
	auto n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	}
	if (n.empty()) {
		return optional<string>();
	}
	return n.front()->content();
}

bool Node::bool_child(string name) const { return truth(string_child(name)); }

optional<bool> Node::optional_bool_child(string name) const
{
	auto s = optional_string_child(name);
	return s ? optional<bool>(truth(*s)) : optional<bool>();
}

string Node::string_attribute(string name) const
{
	auto a = optional_string_attribute(name);
	if (!a) {
		throw Error("missing attribute " + name);
	}
	return *a;
}

optional<string> Node::optional_string_attribute(string name) const
{
	auto e = dynamic_cast<xmlpp::Element const*>(_node);
	if (!e) {
		throw Error("missing attribute " + name);
	}
	auto a = e->get_attribute(name);
	return a ? optional<string>(string(a->get_value())) : optional<string>();
}

bool Node::bool_attribute(string name) const { return truth(string_attribute(name)); }

optional<bool> Node::optional_bool_attribute(string name) const
{
	auto s = optional_string_attribute(name);
	return s ? optional<bool>(truth(*s)) : optional<bool>();
}

string Node::content() const
{
	string c;
	auto content = dynamic_cast<xmlpp::ContentNode const*>(_node);
	if (content) {
		c = content->get_content();
	}
	for (auto i: _node->get_children()) {
		auto v = dynamic_cast<xmlpp::ContentNode const*>(i);
		if (v && dynamic_cast<xmlpp::TextNode const*>(i)) {
			c += v->get_content();
		}
	}
	return c;
}

string Node::namespace_uri() const { return _node->get_namespace_uri(); }
string Node::namespace_prefix() const { return _node->get_namespace_prefix(); }

vector<shared_ptr<Node>> Node::node_children() const
{
	vector<shared_ptr<Node>> r;
	for (auto i: _node->get_children()) {
		r.push_back(make_shared<Node>(i));
		_taken.push_back(i->get_name());
	}
	return r;
}

vector<shared_ptr<Node>> Node::node_children(string name) const
{
	vector<shared_ptr<Node>> r;
	for (auto i: _node->get_children()) {
		if (i->get_name() == name) {
			r.push_back(make_shared<Node>(i));
		}
	}
	_taken.push_back(name);
	return r;
}

void Node::ignore_child(string name) const { _taken.push_back(name); }

void Node::done() const
{
	for (auto i: _node->get_children()) {
		if (dynamic_cast<xmlpp::Element const*>(i) && std::find(_taken.begin(), _taken.end(), i->get_name()) == _taken.end()) {
			throw Error("unexpected XML node " + i->get_name());
		}
	}
}

bool Node::is_text() const { return dynamic_cast<xmlpp::TextNode const*>(_node) != nullptr; }

Document::Document(string root_name) : _parser(new xmlpp::DomParser), _root_name(root_name) {}

Document::Document(string root_name, boost::filesystem::path file) : _parser(new xmlpp::DomParser), _root_name(root_name) { read_file(file); }

Document::~Document() { delete _parser; }

void Document::read_file(boost::filesystem::path path)
{
	_parser->parse_file(path.string());
	take_root_node();
}

void Document::read_string(string s, bool)
{
	std::stringstream t(s);
	_parser->parse_stream(t);
	take_root_node();
}

void Document::take_root_node()
{
	if (!_parser) {
		throw Error("could not parse XML");
	}
	_node = _parser->get_document()->get_root_node();
	if (!_root_name.empty() && _node->get_name() != _root_name) {
		throw Error("unrecognised root node " + _node->get_name() + " (expecting " + _root_name + ")");
	} else if (_root_name.empty()) {
		_root_name = _node->get_name();
	}
}

xmlpp::Element* add_child(xmlpp::Element* parent, string const& name, optional<string> const& prefix)
{
	return prefix ? parent->add_child(name, *prefix) : parent->add_child(name);
}

void add_text_child(xmlpp::Element* parent, string const& name, string const& text)
{
	parent->add_child(name)->add_child_text(text);
}

}
