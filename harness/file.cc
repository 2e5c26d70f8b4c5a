/* Drives dcp::File: three objects, files a, b, c in the directory given as the first argument */
#include "common.h"
#include "exceptions.h"
#include "file.h"
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using dcp::File;
using std::string;
using std::unique_ptr;
using std::vector;

static string dir;
static unique_ptr<File> slots[4];
static vector<FILE*> taken;
static vector<string> const names = { "a", "b", "c" };

static string path_of(string name)
{
	return name == "x" ? dir + "/missing/x" : dir + "/" + name;
}

static string name_of(string path)
{
	for (auto n: names) {
		if (path == path_of(n)) {
			return n;
		}
	}
	return path == path_of("x") ? "x" : "?";
}

static string contents(string name)
{
	int const fd = open(path_of(name).c_str(), O_RDONLY);
	if (fd < 0) {
		return "[-1]";
	}
	string s;
	char buf[4096];
	ssize_t n;
	while ((n = read(fd, buf, sizeof(buf))) > 0) {
		s.append(buf, n);
	}
	close(fd);
	return J::codes(s);
}

static std::map<string, int> descriptors()
{
	std::map<string, int> out = { {"a", 0}, {"b", 0}, {"c", 0}, {"other", 0} };
	auto d = opendir("/proc/self/fd");
	while (auto e = readdir(d)) {
		char buf[4096];
		ssize_t const n = readlinkat(dirfd(d), e->d_name, buf, sizeof(buf) - 1);
		if (n <= 0) {
			continue;
		}
		string const p(buf, n);
		if (p.compare(0, dir.size(), dir) == 0) {
			auto const name = name_of(p);
			out[name.size() == 1 && name != "?" ? name : "other"]++;
		}
	}
	closedir(d);
	return out;
}

static void show(J& j)
{
	vector<int> open;
	vector<string> path;
	for (int i = 1; i <= 3; ++i) {
		open.push_back(slots[i] ? static_cast<bool>(*slots[i]) : 0);
		if (slots[i] && static_cast<bool>(*slots[i]) != (slots[i]->get() != nullptr)) {
			open.back() = 2;
		}
		path.push_back("\"" + (slots[i] ? name_of(slots[i]->path().string()) : string("")) + "\"");
	}
	j.ns("open", open).raw("path", J::join(path));
	string f, c;
	for (auto const& i: descriptors()) {
		f += (f.empty() ? "{" : ",") + ("\"" + i.first + "\":") + std::to_string(i.second);
	}
	for (auto n: names) {
		c += (c.empty() ? "{" : ",") + ("\"" + n + "\":") + contents(n);
	}
	j.raw("fds", f + "}").raw("disk", c + "}").out();
}

static void reset()
{
	for (int i = 1; i <= 3; ++i) {
		slots[i].reset();
	}
	for (auto t: taken) {
		fclose(t);
	}
	taken.clear();
	for (auto n: names) {
		unlink(path_of(n).c_str());
	}
}

int main(int argc, char** argv)
{
	char scratch[4096];
	snprintf(scratch, sizeof(scratch), "%s/fileXXXXXX", argc > 1 ? argv[1] : ".");
	if (!mkdtemp(scratch)) {
		bad_script("mkdtemp");
	}
	dir = scratch;
	signal(SIGXFSZ, SIG_IGN);
	signal(SIGPIPE, SIG_IGN);

	int const r = main_loop(reset, [&](string op, Args& a) {
		J j(op);
		if (op == "put") {
			auto const n = a.word();
			auto const b = a.text();
			auto f = fopen(path_of(n).c_str(), "wb");
			fwrite(b.data(), 1, b.size(), f);
			fclose(f);
			j.w("name", n).t("bytes", b);
		} else if (op == "open") {
			auto const k = a.i();
			auto const n = a.word();
			auto const mode = a.word();
			errno = 0;
			slots[k].reset(new File(path_of(n), mode));
			string plain;
			for (auto c: mode) {
				if (c != 'b') {
					plain += c;
				}
			}
			j.n("k", k).w("name", n).w("mode", plain).n("error", slots[k]->open_error());
		} else if (op == "move") {
			auto const i = a.i();
			auto const k = a.i();
			slots[k].reset(new File(std::move(*slots[i])));
			j.n("i", i).n("j", k);
		} else if (op == "assign") {
			auto const i = a.i();
			auto const k = a.i();
			*slots[k] = std::move(*slots[i]);
			j.n("i", i).n("j", k);
		} else if (op == "limited") {
			auto const n = a.num();
			auto const limit = a.num();
			struct rlimit old, now;
			getrlimit(RLIMIT_FSIZE, &old);
			now = old;
			now.rlim_cur = limit;
			vector<char> data(n, 'x');
			bool threw = false;
			auto const path = dir + "/big";
			{
				File f(path, "wb");
				setrlimit(RLIMIT_FSIZE, &now);
				try {
					f.checked_write(data.data(), n);
				} catch (std::exception&) {
					threw = true;
				}
				f.close();
			}
			setrlimit(RLIMIT_FSIZE, &old);
			struct stat st;
			long long const size = stat(path.c_str(), &st) == 0 ? st.st_size : -1;
			int const left = descriptors()["other"];
			unlink(path.c_str());
			j.n("n", n).n("limit", limit).b("threw", threw).n("size", size).n("left", left).out();
			return;
		} else if (op == "trickle") {
			auto const n = a.num();
			auto const given = a.num();
			auto const piece = a.num();
			auto const path = dir + "/fifo";
			mkfifo(path.c_str(), 0600);
			vector<char> data(given);
			for (int i = 0; i < given; ++i) {
				data[i] = (i * 7) & 0xff;
			}
			std::thread t([&]() {
				int const fd = open(path.c_str(), O_WRONLY);
				for (long i = 0; i < given; i += piece) {
					if (write(fd, data.data() + i, std::min<long>(piece, given - i)) < 0) {
						break;
					}
				}
				close(fd);
			});
			bool threw = false;
			bool same = false;
			{
				File f(path, "rb");
				vector<char> got(n);
				try {
					f.checked_read(got.data(), n);
					same = std::equal(got.begin(), got.end(), data.begin());
				} catch (std::exception&) {
					threw = true;
				}
			}
			t.join();
			unlink(path.c_str());
			j.n("n", n).n("given", given).b("threw", threw).b("same", same).out();
			return;
		} else if (op == "drop") {
			for (auto t: taken) {
				fclose(t);
			}
			taken.clear();
		} else {
			auto const k = a.i();
			if (!slots[k]) {
				/* nothing there: not an event */
				return;
			}
			auto& f = *slots[k];
			j.n("k", k);
			if (op == "close") {
				f.close();
				show(j);
				return;
			} else if (op == "destroy") {
				slots[k].reset();
				show(j);
				return;
			} else if (op == "take") {
				auto t = f.take();
				if (t) {
					taken.push_back(t);
				}
				j.b("got", t != nullptr);
				show(j);
				return;
			}
			bool threw = false;
			try {
				if (op == "read") {
					auto const n = a.i();
					auto const size = a.left() ? a.i() : 1;
					j.n("n", n);
					vector<char> buf(n + 1, '#');
					auto const r = f.read(buf.data(), size, n / size);
					j.n("r", r * size).t("bytes", string(buf.data(), std::min<size_t>(n, r * size)));
				} else if (op == "cread") {
					auto const n = a.i();
					j.n("n", n);
					vector<char> buf(n + 1, '#');
					f.checked_read(buf.data(), n);
					j.t("bytes", string(buf.data(), n));
				} else if (op == "gets") {
					auto const n = a.i();
					j.n("n", n);
					vector<char> buf(n + 1, '#');
					auto const r = f.gets(buf.data(), n);
					j.b("null", r == nullptr).t("bytes", r ? string(r) : string());
				} else if (op == "write") {
					auto const b = a.text();
					j.t("bytes", b);
					j.n("r", f.write(b.data(), 1, b.size()));
				} else if (op == "puts") {
					auto const b = a.text();
					j.t("bytes", b);
					j.b("r", f.puts(b.c_str()) >= 0);
				} else if (op == "cwrite") {
					auto const b = a.text();
					j.t("bytes", b);
					f.checked_write(b.data(), b.size());
				} else if (op == "seek") {
					auto const off = a.num();
					auto const w = a.i();
					j.n("off", off).n("whence", w);
					j.n("r", f.seek(off, w == 0 ? SEEK_SET : w == 1 ? SEEK_CUR : SEEK_END));
				} else if (op == "tell") {
					j.n("r", f.tell());
				} else if (op == "eof") {
					j.n("r", f.eof() ? 1 : 0);
				} else if (op == "error") {
					j.n("r", f.error() ? 1 : 0);
				} else {
					bad_script(op);
				}
			} catch (std::exception&) {
				threw = true;
			}
			j.b("threw", threw);
		}
		show(j);
	});
	reset();
	rmdir(dir.c_str());
	return r;
}
