/* Drives Data::write, Data::write_via_temp and loading, call by call, with faults and crashes */
#include "common.h"
#include "data.h"
#include "exceptions.h"
#include "syscalls.h"
#include <sys/stat.h>
#ifdef VERIF_HAVE_UTIL
#include "array_data.h"
#include "util.h"
#endif

using std::string;
using std::vector;

class Bytes : public dcp::Data
{
public:
	explicit Bytes(string s) : _s(s) {}
	uint8_t const* data() const override { return reinterpret_cast<uint8_t const*>(_s.data()); }
	uint8_t* data() override { return reinterpret_cast<uint8_t*>(&_s[0]); }
	int size() const override { return _s.size(); }
private:
	string _s;
};

static string dir, dest, temp, old_data, new_data;

static string pattern(size_t n, int salt)
{
	string s(n, 0);
	for (size_t i = 0; i < n; ++i) {
		s[i] = static_cast<char>((i * 31 + (i >> 8) * 7 + salt) & 0xff);
	}
	return s;
}

static void put(string path, string s)
{
	auto f = fopen(path.c_str(), "wb");
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}

static const char* seen()
{
	int const n = watch::compare(dest.c_str(), new_data.data(), new_data.size());
	if (n == 0) {
		return "absent";
	}
	if (n == 1) {
		return "new";
	}
	return watch::compare(dest.c_str(), old_data.data(), old_data.size()) == 1 ? "old" : "other";
}

static void clear()
{
	unlink(dest.c_str());
	unlink(temp.c_str());
}

int main(int argc, char** argv)
{
	char scratch[4096];
	snprintf(scratch, sizeof(scratch), "%s/atomXXXXXX", argc > 1 ? argv[1] : ".");
	if (!mkdtemp(scratch)) {
		bad_script("mkdtemp");
	}
	dir = scratch;
	dest = dir + "/dest";
	temp = dir + "/temp";

	int const r = main_loop(clear, [&](string op, Args& a) {
		/* do <how> <size> <dest before: absent|old> <temp before: absent|stale> <call to interfere with> <kind> <errno> <expect> */
		if (op != "do") {
			bad_script(op);
		}
		auto const how = a.word();
		auto const size = a.num();
		auto const before = a.word();
		auto const stale = a.word();
		watch::Plan plan;
		plan.at = a.i();
		plan.kind = a.word();
		plan.error = a.i();
		auto const expect = a.left() ? a.word() : string("ok");
		clear();
		old_data = pattern(size + 1000, 5);
		new_data = pattern(size, 99);
		if (before == "old") {
			put(dest, how == "load" ? new_data : old_data);
		}
		if (stale == "stale") {
			put(temp, pattern(size + 5000, 3));
		}
		auto const target = expect == "fail" ? dir + "/missing/dest" : dest;
		auto const first = seen();
		auto const same = static_cast<int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		*same = 0;
		int const status = watch::run(dir, plan, seen, [&]() {
			try {
				if (how == "temp") {
					Bytes(new_data).write_via_temp(temp, target);
				} else if (how == "plain") {
					Bytes(new_data).write(target);
#ifdef VERIF_HAVE_UTIL
				} else if (how == "string") {
					dcp::write_string_to_file(new_data, target);
				} else if (how == "load") {
					dcp::ArrayData d(target);
					*same = d.size() == static_cast<int>(new_data.size()) && memcmp(d.data(), new_data.data(), d.size()) == 0;
#endif
				} else {
					bad_script(how);
				}
			} catch (std::exception&) {
				return 1;
			}
			return 0;
		});
		if (status == 99 || status == 77) {
			bad_script("cannot watch system calls");
		}
		J("begin").w("how", how).n("size", size).w("dest", first).w("temp", stale).out();
		for (int i = 0; i < watch::shared->count; ++i) {
			auto const& c = watch::shared->calls[i];
			if (string(c.fault) == "kill") {
				break;
			}
			J("call").w("name", c.name).w("file", c.file).w("to", c.to).n("asked", c.asked).n("result", c.result).w("fault", c.fault).w("dest", c.seen).out();
		}
		if (status == -SIGKILL) {
			J("crash").w("dest", seen()).out();
		} else if (status < 0) {
			std::cerr << "child died with signal " << -status << "\n";
			std::exit(5);
		} else {
			J("result").b("ok", status == 0).w("dest", seen()).b("same", *same).w("expect", expect).out();
		}
		munmap(same, 4096);
	});
	clear();
	rmdir(dir.c_str());
	return r;
}
