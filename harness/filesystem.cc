/* Drives dcp::filesystem in a small world of its own.
 *
 * usage: filesystem DIR plain|long|root
 *
 * The driver becomes an unprivileged user first and works in a new directory inside DIR, which belongs to that
 * user.  Paths in scripts are "@/a/b" (absolute, from the root of the world) or relative to the current directory.
 *
 * In "long" mode the wrappers are built to decorate paths with \\?\.  The current directory then contains a
 * link of that name, so that the decorated form of "/vrf_long/a" leads to the world and the bare form nowhere. */
#include "common.h"
#include "filesystem.h"
#include <boost/filesystem.hpp>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <map>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <utime.h>

using std::string;
using std::vector;
namespace fs = dcp::filesystem;
namespace bfs = boost::filesystem;

static string base, world, root, logical;
static bool long_paths = false, at_root = false;
static int count = 0;

static void must(bool ok, string what)
{
	if (!ok) {
		bad_script(what + ": " + strerror(errno));
	}
}

/* ---- plain system calls, for preparation and for looking */

static void wipe(string const& p)
{
	struct stat st;
	if (p.compare(0, base.size() + 1, base + "/") != 0 || lstat(p.c_str(), &st) != 0) {
		return;
	}
	if (S_ISDIR(st.st_mode)) {
		vector<string> names;
		if (auto d = opendir(p.c_str())) {
			while (auto e = readdir(d)) {
				string n = e->d_name;
				if (n != "." && n != "..") {
					names.push_back(n);
				}
			}
			closedir(d);
		}
		for (auto const& n: names) {
			wipe(p + "/" + n);
		}
		rmdir(p.c_str());
	} else {
		unlink(p.c_str());
	}
}

static string slurp(string const& p)
{
	string s;
	int fd = open(p.c_str(), O_RDONLY);
	char buf[4096];
	ssize_t n;
	while (fd >= 0 && (n = read(fd, buf, sizeof buf)) > 0) {
		s.append(buf, n);
	}
	close(fd);
	return s;
}

static vector<string> parts(string const& s)
{
	vector<string> r;
	string cur;
	for (auto c: s + "/") {
		if (c == '/') {
			if (!cur.empty()) {
				r.push_back(cur);
			}
			cur.clear();
		} else {
			cur += c;
		}
	}
	return r;
}

static string names(vector<string> const& v)
{
	string s = "[";
	for (size_t i = 0; i < v.size(); ++i) {
		string clean;
		for (unsigned char c: v[i]) {
			if (c < 32 || c > 126 || c == '"' || c == '\\') {
				char b[8];
				snprintf(b, sizeof b, "%%%02x", c);
				clean += b;
			} else {
				clean += c;
			}
		}
		s += string(i ? "," : "") + "\"" + clean + "\"";
	}
	return s + "]";
}

/* is p at or below dir; rest is what follows */
static bool below(string const& p, string const& dir, string& rest)
{
	if (p == dir) {
		rest = "";
		return true;
	}
	if (p.compare(0, dir.size() + 1, dir + "/") == 0) {
		rest = p.substr(dir.size() + 1);
		return true;
	}
	return false;
}

static void look(string const& p, vector<string> const& prefix, vector<string>& out, std::map<std::pair<dev_t, ino_t>, int>& inodes)
{
	vector<string> found;
	if (auto d = opendir(p.c_str())) {
		while (auto e = readdir(d)) {
			string n = e->d_name;
			if (n != "." && n != "..") {
				found.push_back(n);
			}
		}
		closedir(d);
	}
	std::sort(found.begin(), found.end());
	for (auto const& n: found) {
		auto full = p + "/" + n;
		auto path = prefix;
		path.push_back(n);
		struct stat st;
		if (lstat(full.c_str(), &st) != 0) {
			continue;
		}
		int const label = inodes.insert({{st.st_dev, st.st_ino}, int(inodes.size()) + 1}).first->second;
		string s = "{\"p\":" + names(path) + ",\"i\":" + std::to_string(label) + ",\"k\":";
		if (S_ISLNK(st.st_mode)) {
			char buf[4096];
			auto k = readlink(full.c_str(), buf, sizeof buf);
			string target(buf, k > 0 ? k : 0), rest;
			bool const abs = below(target, root, rest);
			s += string("\"l\",\"abs\":") + (abs ? "1" : "0") + ",\"to\":" + names(parts(abs ? rest : target)) + "}";
			out.push_back(s);
		} else if (S_ISDIR(st.st_mode)) {
			out.push_back(s + "\"d\"}");
			look(full, path, out, inodes);
		} else {
			out.push_back(s + "\"f\",\"c\":" + J::codes(slurp(full)) + "}");
		}
	}
}

static string snapshot()
{
	vector<string> out;
	std::map<std::pair<dev_t, ino_t>, int> inodes;
	look(root, {}, out, inodes);
	return J::join(out);
}

static string real_cwd()
{
	char buf[4096];
	return getcwd(buf, sizeof buf) ? buf : "";
}

/* ---- paths in scripts */

static string given(string const& w)
{
	if (at_root) {
		return w;
	}
	return w[0] == '@' ? logical + w.substr(1) : w;
}

static string raw(string const& w)
{
	return w[0] == '@' ? root + w.substr(1) : w;
}

static string path_json(string const& w)
{
	bool const abs = w[0] == '@' || (at_root && w[0] == '/');
	return string("{\"abs\":") + (abs ? "1" : "0") + ",\"c\":" + names(parts(w[0] == '@' ? w.substr(1) : w)) + "}";
}

/* a path that came out */
static void show(J& j, bfs::path const& p)
{
	string rest;
	auto s = p.string();
	bool const in = at_root ? s[0] == '/' : (below(s, logical, rest) || below(s, root, rest));
	j.b("in", in).raw("vs", names(parts(at_root ? s : (in ? rest : s))));
}

static void where(J& j)
{
	string rest;
	bool const in = !long_paths && below(real_cwd(), root, rest);
	j.raw("cwd", names(in ? parts(rest) : (long_paths ? vector<string>() : vector<string>{"?"})));
}

static void reset()
{
	must(chdir(base.c_str()) == 0, "chdir");
	if (!world.empty()) {
		wipe(world);
	}
	world = base + "/w" + std::to_string(++count);
	root = world + "/vrf_long";
	must(mkdir(world.c_str(), 0755) == 0, "mkdir");
	must(mkdir(root.c_str(), 0755) == 0, "mkdir");
	if (long_paths) {
		auto here = world + "/here";
		must(mkdir(here.c_str(), 0755) == 0, "mkdir");
		must(chdir(here.c_str()) == 0, "chdir");
		must(symlink(world.c_str(), "\\\\?\\") == 0, "symlink");
		logical = "/vrf_long";
	} else {
		must(chdir(root.c_str()) == 0, "chdir");
		logical = root;
	}
}

struct Seen
{
	long long v = 0;
	bool is_path = false;
	bfs::path path;
	bool is_list = false;
	vector<string> list;
};

static Seen number(long long v)
{
	Seen s;
	s.v = v;
	return s;
}

static Seen path_value(bfs::path const& p)
{
	Seen s;
	s.is_path = true;
	s.path = p;
	return s;
}

static void add(Seen& s, bfs::path const& top, bfs::path const& p)
{
	string rest;
	if (s.list.size() > 1000) {
		throw std::runtime_error("endless");
	}
	s.list.push_back(below(p.string(), top.string(), rest) ? names(parts(rest)) : names({"?", p.string()}));
}

template <class I>
static Seen iterate(bfs::path const& p, int form)
{
	Seen s;
	s.is_list = true;
	if (form == 0) {
		for (auto e: I(p)) {
			add(s, p, e.path());
		}
	} else if (form == 1) {
		for (I i(p); i != I(); ++i) {
			add(s, p, i->path());
		}
	} else {
		auto i = I(p);
		auto e = end(i);
		for (; i != e; ++i) {
			auto entry = *i;
			bfs::path const& q = entry;
			add(s, p, q);
		}
	}
	return s;
}

static Seen perform(string const& c, bool ec_form, int form, bfs::path const& a, bfs::path const& b, boost::system::error_code& ec)
{
	if (c == "exists") return number(ec_form ? fs::exists(a, ec) : fs::exists(a));
	if (c == "is_directory") return number(fs::is_directory(a));
	if (c == "is_regular_file") return number(fs::is_regular_file(a));
	if (c == "is_empty") return number(fs::is_empty(a));
	if (c == "file_size") return number(ec_form ? fs::file_size(a, ec) : fs::file_size(a));
	if (c == "hard_link_count") return number(fs::hard_link_count(a));
	if (c == "last_write_time") return number(ec_form ? fs::last_write_time(a, ec) : fs::last_write_time(a));
	if (c == "space") {
		auto s = fs::space(a);
		auto t = bfs::space(base);
		return number(s.capacity == t.capacity);
	}
	if (c == "create_directory") return number(ec_form ? fs::create_directory(a, ec) : fs::create_directory(a));
	if (c == "create_directories") return number(ec_form ? fs::create_directories(a, ec) : fs::create_directories(a));
	if (c == "remove") return number(ec_form ? fs::remove(a, ec) : fs::remove(a));
	if (c == "remove_all") return number(ec_form ? fs::remove_all(a, ec) : fs::remove_all(a));
	if (c == "rename") {
		if (ec_form) fs::rename(a, b, ec); else fs::rename(a, b);
		return number(0);
	}
	if (c == "create_hard_link") {
		if (ec_form) fs::create_hard_link(a, b, ec); else fs::create_hard_link(a, b);
		return number(0);
	}
	if (c == "create_symlink") {
		fs::create_symlink(a, b, ec);
		return number(0);
	}
	if (c == "copy_file") {
		if (form == 1) fs::copy_file(a, b, fs::CopyOptions::OVERWRITE_EXISTING);
		else if (form == 2) fs::copy_file(a, b, fs::CopyOptions::NONE);
		else if (ec_form) fs::copy_file(a, b, ec);
		else fs::copy_file(a, b);
		return number(0);
	}
	if (c == "copy") {
		fs::copy(a, b);
		return number(0);
	}
	if (c == "chdir") {
		fs::current_path(a);
		return number(0);
	}
	if (c == "cwd") return path_value(fs::current_path());
	if (c == "canonical") return path_value(fs::canonical(a));
	if (c == "absolute") return path_value(fs::absolute(a));
	if (c == "list") {
		if (ec_form) {
			Seen s;
			s.is_list = true;
			for (fs::directory_iterator i(a, ec); i != fs::directory_iterator(); ++i) {
				add(s, a, (*i).path());
			}
			return s;
		}
		return iterate<fs::directory_iterator>(a, form);
	}
	if (c == "list_all") return iterate<fs::recursive_directory_iterator>(a, form);
	bad_script(c);
	return {};
}

static void handle(string op, Args& a)
{
	if (op == "put") {
		auto w = a.word();
		auto bytes = a.text();
		int fd = open(raw(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		must(fd >= 0, "put " + w);
		must(write(fd, bytes.data(), bytes.size()) == ssize_t(bytes.size()), "put");
		close(fd);
		J("put").raw("a", path_json(w)).t("bytes", bytes).out();
	} else if (op == "touch") {
		auto w = a.word();
		auto t = a.i();
		struct utimbuf u = {t, t};
		must(utime(raw(w).c_str(), &u) == 0, "touch");
		J("touch").raw("a", path_json(w)).n("t", t).out();
	} else if (op == "mkdir") {
		auto w = a.word();
		must(mkdir(raw(w).c_str(), 0755) == 0, "mkdir " + w);
		J("mkdir").raw("a", path_json(w)).out();
	} else if (op == "symlink" || op == "link") {
		auto w = a.word();
		auto x = a.word();
		if (op == "symlink") {
			must(symlink(raw(w).c_str(), raw(x).c_str()) == 0, "symlink " + x);
		} else {
			must(link(raw(w).c_str(), raw(x).c_str()) == 0, "link " + x);
		}
		J(op).raw("a", path_json(w)).raw("b", path_json(x)).out();
	} else if (op == "weak") {
		auto w = a.word();
		J j("weak");
		j.raw("a", path_json(w)).b("root", at_root);
		int err = 0;
		bool same = false;
		bfs::path p;
		try {
			p = fs::weakly_canonical(given(w));
			same = fs::weakly_canonical(p) == p && fs::weakly_canonical(p).string() == p.string();
		} catch (boost::system::system_error& e) {
			err = e.code().value();
		} catch (...) {
			err = 9999;
		}
		show(j, p);
		j.n("err", err).b("same", same).out();
	} else if (op == "extension") {
		auto t = a.text();
		J("extension").t("t", t).t("r", fs::extension(t)).out();
	} else if (op == "change_extension") {
		auto t = a.text();
		auto e = a.text();
		J("change_extension").t("t", t).t("e", e).t("r", fs::change_extension(t, e).string()).out();
	} else if (op == "fix") {
		auto t = a.text();
		auto r = fs::fix_long_path(t);
		J("fix").t("t", t).b("long", long_paths).t("cwd", real_cwd()).t("r", r.string()).t("back", fs::unfix_long_path(r).string()).out();
	} else if (op == "unfix") {
		auto t = a.text();
		J("unfix").t("t", t).b("long", long_paths).t("r", fs::unfix_long_path(t).string()).out();
	} else {
		/* call e|t form a b */
		bool const ec_form = a.word() == "e";
		auto const form = a.i();
		auto w = a.word();
		auto x = a.left() ? a.word() : w;
		J j("call");
		j.w("call", op).b("ec", ec_form).n("over", form == 1).raw("a", path_json(w)).raw("b", path_json(x));
		boost::system::error_code ec;
		Seen s;
		int err = 0;
		try {
			s = perform(op, ec_form, form, given(w), given(x), ec);
			err = ec.value();
		} catch (boost::system::system_error& e) {
			err = e.code().value() ? e.code().value() : 9998;
		} catch (std::exception& e) {
			err = 9999;
		}
		if (s.is_list) {
			j.b("in", true).raw("vs", J::join(s.list)).n("v", 0);
		} else if (s.is_path) {
			show(j, s.path);
			j.n("v", 0);
		} else {
			j.b("in", true).raw("vs", "[]").n("v", s.v > 2000000000 || s.v < -1 ? -2 : s.v);
		}
		where(j);
		j.n("err", err).raw("snap", snapshot()).out();
	}
}

int main(int argc, char* argv[])
{
	if (argc < 3) {
		bad_script("usage");
	}
	if (getuid() == 0) {
		must(setgroups(0, nullptr) == 0 && setgid(65534) == 0 && setuid(65534) == 0, "becoming nobody");
	}
	if (getuid() == 0 || geteuid() == 0) {
		bad_script("still root");
	}
	umask(022);
	long_paths = string(argv[2]) == "long";
	at_root = string(argv[2]) == "root";
	base = string(argv[1]) + "/d.XXXXXX";
	vector<char> t(base.begin(), base.end());
	t.push_back(0);
	must(mkdtemp(t.data()), "mkdtemp");
	char* r = realpath(t.data(), nullptr);
	must(r, "realpath");
	base = r;
	auto e = main_loop(reset, handle);
	must(chdir("/") == 0, "chdir");
	if (!world.empty()) {
		wipe(world);
	}
	rmdir(base.c_str());
	return e;
}
