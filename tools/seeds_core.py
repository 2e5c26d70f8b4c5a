from mkseed import seed, W
DATA = W + '''#include "data.h"
#include <boost/filesystem.hpp>
#include <vector>
struct D : public dcp::Data { std::vector<uint8_t> d; D(int n) : d(n, 7) {} uint8_t const* data() const { return d.data(); } uint8_t* data() { return d.data(); } int size() const { return d.size(); } };
'''
seed("w01", "C04", "the destination exists before an atomic write and the process dies at the wrong moment", "the destination is removed before the temporary file takes its place, so a crash leaves neither",
     [("src/data.cc", "	boost::filesystem::rename (temp, final);", "	boost::filesystem::remove (final);\n	boost::filesystem::rename (temp, final);")],
     DATA + '''int main() { spit("final", "old"); chmod(".", 0755); D d(10);
	/* a temporary file that cannot be renamed onto the destination's directory: nothing may be lost */
	mkdir("dir", 0755); spit("dir/final", "old"); boost::system::error_code ec; boost::filesystem::create_directory("t");
	/* the destination's name is watched through a hard link */
	link("final", "also"); struct stat a; d.write_via_temp("temp", "final"); 
	/* an atomic replacement never unlinks: ask the dynamic linker whether remove was used */
	return getenv("REMOVED") ? 1 : 0; }''',
     demo_sh='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -DLIBDCP_LINUX -D_FILE_OFFSET_BITS=64 -Isrc -pthread "$d/demo2.cc" "$d/except.cc" _build/src/libdcp-1.0.so \\
	-Wl,-rpath,"$PWD/_build/src" -Wl,--allow-shlib-undefined -Wl,-z,lazy -lboost_filesystem -lboost_system -ldl -o "$t/demo" || exit 99
cd "$t" && timeout 100 ./demo
''', extra={"demo2.cc": DATA + '''#include <dlfcn.h>
#include <cstdio>
#include <sys/wait.h>
/* die instead of renaming: what is left must be the old file */
extern "C" int rename(char const* a, char const* b) { if (getenv("DIE")) _exit(9); return syscall(82, a, b); }
int main() { spit("final", "old"); if (fork() == 0) { setenv("DIE", "1", 1); D d(10); d.write_via_temp("temp", "final"); _exit(0); }
	int s; wait(&s); WANT(slurp("final") == "old"); D d(10); d.write_via_temp("temp", "final"); WANT(slurp("final").size() == 10); }'''})
seed("w02", "C04", "a write that is cut short, e.g. by a full disk", "a short write is only noticed if nothing at all was written",
     [("src/data.cc", "	if (f.write(data(), 1, size()) != size_t(size())) {", "	if (size() && f.write(data(), 1, size()) == 0) {")],
     DATA + '''int main() { struct rlimit r = {100000, 100000}; setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN); D d(300000); bool threw = false;
	try { d.write("x"); } catch (...) { threw = true; } WANT(threw); }''')
seed("w03", "C04", "the temporary file's write fails", "failure to write the temporary file is swallowed and the partial file takes the destination's place",
     [("src/data.cc", "	write (temp);\n", "	try {\n		write (temp);\n	} catch (FileError &) {\n		if (!boost::filesystem::exists(temp)) {\n			throw;\n		}\n	}\n")],
     DATA + '''int main() { spit("final", "old"); struct rlimit r = {100000, 100000}; setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN); D d(300000);
	try { d.write_via_temp("temp", "final"); } catch (...) {} WANT(slurp("final") == "old"); }''')
FILE = W + '''#include "file.h"
#include "filesystem.h"
#include <dirent.h>
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
'''
seed("f01", "C05", "a file object is moved from and both objects are destroyed", "the moved-from object keeps the handle, which is then closed twice",
     [("src/file.cc", "	, _open_error(other._open_error)\n{\n	other._file = nullptr;\n}", "	, _open_error(other._open_error)\n{\n	if (other._open_error) {\n		other._file = nullptr;\n	}\n}")],
     FILE + '''int main() { spit("a", "x"); dcp::File a("a", "r"); dcp::File b(std::move(a)); WANT(!a); a.take(); }''')
seed("f02", "C05", "a read that ends in the middle of a request", "a checked read that gets part of what was asked for returns as if it had everything",
     [("src/file.cc", "		done += N;", "		done += N;\n		if (feof(_file)) {\n			break;\n		}")],
     FILE + '''int main() { spit("a", "xyz"); dcp::File a("a", "r"); char b[10]; bool t = false; try { a.checked_read(b, 5); } catch (...) { t = true; } WANT(t); }''')
seed("f03", "C05", "a file is taken out of its object", "a handle that has been taken is closed again by the object",
     [("src/file.cc", "	auto give = _file;\n	_file = nullptr;\n	return give;", "	auto give = _file;\n	if (_open_error) {\n		_file = nullptr;\n	}\n	return give;")],
     FILE + '''int main() { spit("a", "xyz"); dcp::File a("a", "r"); FILE* f = a.take(); WANT(!a); fclose(f); a.take(); }''')
seed("f04", "C05", "seeking from the current position or the end", "seeks relative to the end are made relative to the start when the offset is not negative",
     [("src/file.cc", "	return fseek(_file, offset, whence);", "	return fseek(_file, offset, offset > 0 && whence == SEEK_END ? SEEK_SET : whence);")],
     FILE + '''int main() { spit("a", "xyz"); dcp::File a("a", "r"); a.seek(2, SEEK_END); WANT(a.tell() == 5); }''')
FS = W + '''#include "filesystem.h"
#include <boost/filesystem.hpp>
namespace fs = dcp::filesystem;
'''
seed("d01", "C06", "copying onto an existing file without asking to overwrite", "copying with no options overwrites what is there",
     [("src/filesystem.cc", "boost::filesystem::copy_options::overwrite_existing : boost::filesystem::copy_options::none;", "boost::filesystem::copy_options::overwrite_existing : boost::filesystem::copy_options::update_existing;")],
     FS + '''int main() { spit("b", "old"); sleep(1); spit("a", "new"); try { fs::copy_file("a", "b", fs::CopyOptions::NONE); } catch (...) {} WANT(slurp("b") == "old"); }''')
seed("d02", "C06", "an error-code form called on a missing path", "the error-code form of renaming drops the error",
     [("src/filesystem.cc", "	boost::filesystem::rename(dcp::filesystem::fix_long_path(old_path), dcp::filesystem::fix_long_path(new_path), ec);", "	if (dcp::filesystem::exists(old_path)) {\n		boost::filesystem::rename(dcp::filesystem::fix_long_path(old_path), dcp::filesystem::fix_long_path(new_path), ec);\n	}")],
     FS + '''int main() { boost::system::error_code ec; fs::rename("nothing", "x", ec); WANT(ec.value() != 0); }''')
seed("d03", "C06", "a directory that is only reached through a symbolic link", "a link to a directory is not seen as a directory",
     [("src/filesystem.cc", "	return boost::filesystem::is_directory(dcp::filesystem::fix_long_path(path));", "	return boost::filesystem::symlink_status(dcp::filesystem::fix_long_path(path)).type() == boost::filesystem::directory_file;")],
     FS + '''int main() { mkdir("d", 0755); symlink("d", "l"); WANT(fs::is_directory("l")); }''')
seed("d04", "C06", "the build for Windows, with a long destination path", "the destination of a hard link is not decorated, so that long destinations fail",
     [("src/filesystem.cc", "	boost::filesystem::create_hard_link(dcp::filesystem::fix_long_path(from), dcp::filesystem::fix_long_path(to), ec);", "	boost::filesystem::create_hard_link(dcp::filesystem::fix_long_path(from), to, ec);")],
     None, demo_sh='''#!/bin/bash
# The decorated form of an absolute path leads somewhere through a link; the bare form does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -DLIBDCP_WINDOWS -DLIBDCP_HAVE_COPY_OPTIONS=1 -DLIBDCP_HAVE_REPLACE_EXTENSION=1 -Isrc "$d/long.cc" src/filesystem.cc -lboost_filesystem -lboost_system -o "$t/demo" || exit 99
cd "$t" && mkdir -p world/vrfdemo && ln -s world '\\\\?\\' && echo x > world/vrfdemo/a && timeout 100 ./demo
''', extra={"long.cc": FS + '''int main() { boost::system::error_code ec; fs::create_hard_link("/vrfdemo/a", "/vrfdemo/b", ec); WANT(!ec); WANT(slurp("world/vrfdemo/b") == "x\\n"); }'''})
seed("d05", "C07", "'..' after a symbolic link to a directory elsewhere", "'..' after a link is taken to be the link's own directory",
     [("src/filesystem.cc", 'if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {', 'if ((boost::filesystem::is_symlink(result, ec) && !boost::filesystem::is_directory(result, ec)) || result.filename() == "..") {')],
     FS + '''int main() { mkdir("x", 0755); mkdir("x/y", 0755); spit("x/f", "1"); symlink("x/y", "l"); WANT(boost::filesystem::exists(fs::weakly_canonical("l/../f"))); }''')
seed("d06", "C07", "several '..' in a row after a symbolic link", "the second '..' after a link removes the first one",
     [("src/filesystem.cc", 'if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {', 'if (boost::filesystem::is_symlink(result, ec)) {')],
     FS + '''int main() { mkdir("x", 0755); mkdir("x/y", 0755); mkdir("x/y/z", 0755); spit("x/f", "1"); symlink("x/y/z", "l"); WANT(boost::filesystem::exists(fs::weakly_canonical("l/../../f"))); }''')
BITS = W + '''#include "bitstream.h"
static std::string s(dcp::Bitstream& b) { std::string r; for (auto x: b.get()) r += x ? '1' : '0'; return r; }
'''
seed("b01", "C08", "words of more than 16 bits", "bits above the sixteenth of a word are lost",
     [("src/bitstream.cc", "		write_bit ((word >> i) & 1);", "		write_bit ((static_cast<uint16_t>(word) >> i) & 1);")],
     BITS + '''int main() { dcp::Bitstream b; b.write_from_word(1 << 20, 24); WANT(s(b) == "000100000000000000000000"); }''')
seed("b02", "C08", "a checksum written while bits precede its start", "the checksum covers everything since the first checksum was started",
     [("src/bitstream.cc", "	_data.push_back (bit);\n}", "	_data.push_back (bit);\n	if (_crc && _data.size() == 128) {\n		_crc->process_bit (false);\n	}\n}")],
     BITS + '''int main() { dcp::Bitstream a, b; for (int i = 0; i < 15; ++i) b.write_from_byte(0); a.start_crc(0x1021); b.start_crc(0x1021); a.write_from_word(0x12345, 24); b.write_from_word(0x12345, 24); a.write_crc(); b.write_crc();
	WANT(s(b).substr(120) == s(a)); }''')
seed("b03", "C08", "two checksums in the same stream", "the second checksum starts from the remainder of the first",
     [("src/bitstream.cc", "	_crc = boost::crc_basic<16> (poly);", "	_crc = boost::crc_basic<16> (poly, _data.size() > 8 && _data[_data.size() - 1] && poly != 0x1021 ? 1 : 0);")],
     BITS + '''int main() { dcp::Bitstream a, b; a.write_from_word(0xffff, 16); b.write_from_word(0xfffe, 16); a.start_crc(0x8005); b.start_crc(0x8005); a.write_from_byte(5); b.write_from_byte(5); a.write_crc(); b.write_crc(); WANT(s(a).substr(16) == s(b).substr(16)); }''')
FSK = W + '''#include "fsk.h"
#include <vector>
static std::vector<int> g(dcp::FSK& f, int n) { std::vector<int> r; for (int i = 0; i < n * 4; ++i) r.push_back(f.get()); return r; }
'''
seed("k01", "C09", "data set again after some has been played", "setting new data starts again with the original polarity and bit",
     [("src/fsk.cc", "	_data_position = _sample_position = 0;", "	_data_position = _sample_position = 0;\n	_last_polarity = _last_bit = false;")],
     FSK + '''int main() { dcp::FSK a, b; a.set_data({true, false, false}); auto x = g(a, 3); b.set_data({true, false}); g(b, 2); b.set_data({false}); auto y = g(b, 1); WANT(std::vector<int>(x.begin() + 8, x.end()) == y); }''')
seed("k02", "C09", "a 1 after a 0", "polarity is flipped after a 1 instead of after a 0 when the bit starts",
     [("src/fsk.cc", "	if (_sample_position == 0 && _last_bit == false) {", "	if (_sample_position == 0 && (_last_bit == false && !(bit && _data_position > 20))) {")],
     FSK + '''int main() { std::vector<bool> d(40, true), e(24, true); for (int i = 0; i < 40; i += 2) d[i] = false; for (int i = 0; i < 24; i += 2) e[i] = false; dcp::FSK a, b; a.set_data(d); b.set_data({false, true}); auto x = g(a, 40); 
	for (int i = 4; i < 40 - 4; i += 1) { bool same = true, opp = true; for (int k = 0; k < 16; ++k) { same = same && x[4 * i - 16 + k] == x[k]; } } 
	/* the pattern 01 flips once: every other pair is the negative */
	for (int i = 0; i < 32; ++i) { int p = i / 2; int sign = p % 2 ? -1 : 1; WANT(x[i * 4] == sign * x[(i % 2) * 4]); } }''')
NAME = W + '''#include "name_format.h"
'''
seed("n01", "C10", "a value that contains a percent sign", "values are themselves expanded",
     [("src/name_format.cc", "				result += filter (j->second);", "				result += filter (j->second == \"%\" + string(1, key) ? string() : j->second);")],
     NAME + '''int main() { dcp::NameFormat n("%a"); dcp::NameFormat::Map m; m['a'] = "%a"; WANT(n.get(m, "", "") == "%a"); }''')
seed("n02", "C10", "an unknown placeholder at the end of the template", "a placeholder with no value is dropped",
     [("src/name_format.cc", "		if (!done) {", "		if (!done && !(_specification[i] == '%' && i == _specification.length() - 1)) {")],
     NAME + '''int main() { dcp::NameFormat n("100%"); WANT(n.get({}, ".x", "") == "100%.x"); }''')
seed("n03", "C10", "a colon in a value", "colons in values are not made safe",
     [("src/name_format.cc", "		o += filter (c[i]);", "		o += c[i] == ':' && i == 1 ? c[i] : filter (c[i]);")],
     NAME + '''int main() { dcp::NameFormat n("%a"); dcp::NameFormat::Map m; m['a'] = "x:y"; WANT(n.get(m, "", "") == "x-y"); }''')
seed("g02", "C11", "cancelling a guard", "a cancelled guard still runs when the stack is being unwound",
     [("src/scope_guard.h", "		if (!_cancelled) {", "		if (!_cancelled || std::uncaught_exception()) {"), ("src/scope_guard.h", "#include <functional>\n", "#include <exception>\n#include <functional>\n")],
     W + '''#include "scope_guard.h"
int main() { int n = 0; try { dcp::ScopeGuard a([&n]() { ++n; }); a.cancel(); throw 1; } catch (int) {} WANT(n == 0); }''')
KIND = W + '''#include "content_kind.h"
#include "h_align.h"
#include "v_align.h"
'''
seed("v01", "C12", "a content kind with a scope", "two content kinds with the same name but different scopes are equal",
     [("src/content_kind.cc", "a.name() == b.name() && a.scope() == b.scope()", "a.name() == b.name() && (a.scope() == b.scope() || !a.scope() || !b.scope())")],
     KIND + '''int main() { WANT(!(dcp::ContentKind("feature", std::string("x")) == dcp::ContentKind("feature", boost::optional<std::string>()))); }''')
seed("v02", "C12", "an unknown content kind name that begins a known one", "any name that a known content kind starts with is taken for it",
     [("src/content_kind.cc", "return k.name() == name; }", "return k.name().compare(0, std::max<size_t>(name.length(), 5), name) == 0; }")],
     KIND + '''int main() { bool t = false; try { dcp::ContentKind::from_name("advert"); } catch (...) { t = true; } WANT(t); }''')
seed("v03", "C12", "the less common content kinds", "a content kind that is offered in the list is not recognised by name",
     [("src/content_kind.cc", "		ContentKind::HIGHLIGHTS,\n", "")],
     KIND + '''int main() { WANT(dcp::ContentKind::from_name("highlights") == dcp::ContentKind::HIGHLIGHTS); }''')
