/* Watch the operating-system calls a piece of code makes on the files of one directory, and make chosen ones fail.
 *
 * A seccomp filter turns the calls of interest into SIGSYS; the handler carries them out itself (through a stub whose
 * address the filter lets through), or pretends that they failed, or kills the process instead.  Everything happens in
 * a child process made for the purpose; what it saw is left in shared memory. */
#ifndef VERIF_SYSCALLS_H
#define VERIF_SYSCALLS_H

#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

extern "C" {
long vrf_raw_syscall(long n, long a, long b, long c, long d, long e, long f);
extern char vrf_raw_syscall_end[];
}
asm(R"(
.text
.globl vrf_raw_syscall
.type vrf_raw_syscall, @function
vrf_raw_syscall:
	mov %rdi, %rax
	mov %rsi, %rdi
	mov %rdx, %rsi
	mov %rcx, %rdx
	mov %r8, %r10
	mov %r9, %r8
	mov 8(%rsp), %r9
	syscall
.globl vrf_raw_syscall_end
vrf_raw_syscall_end:
	ret
)");

namespace watch {

struct Call
{
	char name[16];
	char file[16];      // name of the file in the directory, or the source of a rename
	char to[16];        // destination of a rename
	long asked;
	long result;
	char fault[16];     // none, short, fail, kill
	char seen[16];      // what observe() said afterwards
};

struct Shared
{
	int count;          // calls seen
	int finished;
	Call calls[4096];
};

struct Plan
{
	int at = -1;            // index of the call to interfere with
	std::string kind;       // fail, short, kill (before the call), or shortfail: short and then later ones of the same sort fail
	int error = 0;
	bool again = false;     // also all later calls of the same sort
};

static Shared* shared;
static Plan plan;
static std::string root;
static char fd_file[1024][16];
static bool fd_writes[1024];
/* classify what is to be observed; must use raw calls only */
static const char* (*observe)();

inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
	return vrf_raw_syscall(n, a, b, c, d, e, f);
}

inline bool name_in_root(long p, char* out)
{
	auto const s = reinterpret_cast<char const*>(p);
	if (!s || strncmp(s, root.c_str(), root.size()) != 0 || s[root.size()] != '/') {
		return false;
	}
	strncpy(out, s + root.size() + 1, 15);
	out[15] = 0;
	return true;
}

/* compare a file with bytes: 0 absent, 1 equal, 2 different */
inline int compare(char const* path, char const* data, size_t size)
{
	long const fd = raw(SYS_open, reinterpret_cast<long>(path), O_RDONLY, 0);
	if (fd < 0) {
		return 0;
	}
	static char buf[65536];
	size_t pos = 0;
	int r = 1;
	while (true) {
		long const n = raw(SYS_read, fd, reinterpret_cast<long>(buf), sizeof(buf));
		if (n <= 0) {
			break;
		}
		if (pos + n > size || memcmp(buf, data + pos, n) != 0) {
			r = 2;
			break;
		}
		pos += n;
	}
	raw(SYS_close, fd);
	return r == 1 && pos != size ? 2 : r;
}

inline void handler(int, siginfo_t* info, void* vctx)
{
	auto ctx = static_cast<ucontext_t*>(vctx);
	auto g = ctx->uc_mcontext.gregs;
	long const nr = info->si_syscall;
	long a[6] = { static_cast<long>(g[REG_RDI]), static_cast<long>(g[REG_RSI]), static_cast<long>(g[REG_RDX]), static_cast<long>(g[REG_R10]), static_cast<long>(g[REG_R8]), static_cast<long>(g[REG_R9]) };
	Call c;
	memset(&c, 0, sizeof(c));
	strcpy(c.fault, "none");
	bool mine = false;
	bool writes = false;
	int length = -1;   // index of the argument that is a length
	auto by_fd = [&](char const* n, long fd) {
		strcpy(c.name, n);
		if (fd >= 0 && fd < 1024 && fd_file[fd][0]) {
			strcpy(c.file, fd_file[fd]);
			mine = true;
		}
	};
	switch (nr) {
	case SYS_open:
		strcpy(c.name, "open");
		mine = name_in_root(a[0], c.file);
		writes = (a[1] & O_ACCMODE) != O_RDONLY;
		break;
	case SYS_creat:
		strcpy(c.name, "open");
		mine = name_in_root(a[0], c.file);
		writes = true;
		break;
	case SYS_openat:
		strcpy(c.name, "open");
		mine = name_in_root(a[1], c.file);
		writes = (a[2] & O_ACCMODE) != O_RDONLY;
		break;
	case SYS_read: case SYS_pread64: by_fd("read", a[0]); length = 2; break;
	case SYS_write: case SYS_pwrite64: by_fd("write", a[0]); length = 2; break;
	case SYS_writev: by_fd("writev", a[0]); break;
	case SYS_close: by_fd("close", a[0]); break;
	case SYS_fsync: case SYS_fdatasync: by_fd("sync", a[0]); break;
	case SYS_ftruncate: by_fd("truncate", a[0]); break;
	case SYS_truncate: strcpy(c.name, "truncate"); mine = name_in_root(a[0], c.file); break;
	case SYS_sendfile: case SYS_copy_file_range: by_fd("copy", nr == SYS_sendfile ? a[0] : a[2]); break;
	case SYS_rename: strcpy(c.name, "rename"); mine = name_in_root(a[0], c.file) | name_in_root(a[1], c.to); break;
	case SYS_renameat: case SYS_renameat2: strcpy(c.name, "rename"); mine = name_in_root(a[1], c.file) | name_in_root(a[3], c.to); break;
	case SYS_link: strcpy(c.name, "link"); mine = name_in_root(a[0], c.file) | name_in_root(a[1], c.to); break;
	case SYS_linkat: strcpy(c.name, "link"); mine = name_in_root(a[1], c.file) | name_in_root(a[3], c.to); break;
	case SYS_unlink: strcpy(c.name, "unlink"); mine = name_in_root(a[0], c.file); break;
	case SYS_unlinkat: strcpy(c.name, "unlink"); mine = name_in_root(a[1], c.file); break;
	}
	if (!mine) {
		g[REG_RAX] = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
		return;
	}
	int const index = shared->count;
	c.asked = length >= 0 ? a[length] : 0;
	bool const later = plan.at >= 0 && index > plan.at && strcmp(shared->calls[plan.at].name, c.name) == 0;
	bool const hit = plan.at >= 0 && (index == plan.at || (plan.again && later));
	bool const shortfail = plan.kind == "shortfail";
	if (hit && plan.kind == "kill") {
		strcpy(c.fault, "kill");
		shared->calls[index] = c;
		shared->count = index + 1;
		raw(SYS_kill, getpid(), SIGKILL);
		while (true) {}
	}
	long result;
	if ((hit && plan.kind == "fail") || (shortfail && later && length >= 0)) {
		strcpy(c.fault, strcmp(c.name, "close") == 0 ? "close" : "fail");
		result = -plan.error;
		if (nr == SYS_close) {
			/* as the kernel does: the descriptor is gone although an error is reported */
			raw(SYS_close, a[0]);
		}
	} else {
		if (hit && (plan.kind == "short" || shortfail) && length >= 0 && a[length] > 1) {
			strcpy(c.fault, "short");
			a[length] = a[length] / 2;
		}
		result = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	}
	if (strcmp(c.name, "open") == 0 && result >= 0 && result < 1024) {
		strcpy(fd_file[result], c.file);
		fd_writes[result] = writes;
	}
	if (nr == SYS_close && a[0] >= 0 && a[0] < 1024) {
		fd_file[a[0]][0] = 0;
	}
	c.result = result;
	strncpy(c.seen, observe ? observe() : "", 15);
	if (index < 4096) {
		shared->calls[index] = c;
		shared->count = index + 1;
	}
	g[REG_RAX] = result;
}

inline bool install()
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = handler;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSYS, &sa, nullptr);
	int const calls[] = {
		SYS_open, SYS_creat, SYS_openat, SYS_read, SYS_pread64, SYS_write, SYS_pwrite64, SYS_writev, SYS_close, SYS_fsync, SYS_fdatasync, SYS_ftruncate,
		SYS_truncate, SYS_sendfile, SYS_copy_file_range, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_unlink, SYS_unlinkat
	};
	int const n = sizeof(calls) / sizeof(calls[0]);
	auto const end = reinterpret_cast<uint64_t>(vrf_raw_syscall_end);
	std::vector<sock_filter> f;
	auto stmt = [&](uint16_t code, uint32_t k) { f.push_back({code, 0, 0, k}); };
	auto jump = [&](uint16_t code, uint32_t k, int t, int e) { f.push_back({code, static_cast<uint8_t>(t), static_cast<uint8_t>(e), k}); };
	stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
	jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(end), 0, 2);
	stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
	jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(end >> 32), n + 1, 0);
	stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
	for (int i = 0; i < n; ++i) {
		jump(BPF_JMP | BPF_JEQ | BPF_K, calls[i], n - i, 0);
	}
	stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	stmt(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	sock_fprog prog = { static_cast<unsigned short>(f.size()), f.data() };
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0) {
		return false;
	}
	return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) == 0;
}

/* Run action in a child under observation; returns its exit status, or -signal.  The status is 99 if the filter cannot be installed */
inline int run(std::string const& directory, Plan const& p, const char* (*obs)(), std::function<int ()> action)
{
	if (!shared) {
		shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	}
	memset(shared, 0, sizeof(Shared));
	root = directory;
	plan = p;
	observe = obs;
	fflush(stdout);
	pid_t const pid = fork();
	if (pid == 0) {
		alarm(60);
		if (!install()) {
			_exit(99);
		}
		int const r = action();
		shared->finished = 1;
		raw(SYS_exit_group, r);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
}

}

#endif
