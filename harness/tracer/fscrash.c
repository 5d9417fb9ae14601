// fscrash runs a command and counts the file-system operations of its process tree below a directory. At a selected operation it kills the
// command (kill, cut: a write is done in part before) or makes the operation, or all modifying ones from then on, fail (fail, sticky).
// It only traces processes it has started itself.
//
// usage: fscrash DIR LOG MODE SELECT ERRNO -- CMD...
//   SELECT: "#N" the N-th operation, LABEL@K the K-th operation with this label, or with a label that starts like it if it ends with *, "-" none
//   LOG gets one line per operation: LABEL BYTES FLAG (flag x: selected)
// exit code: of the command, 137 if killed by us
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *dir;
static size_t dirlen;
static FILE *lg;
static char mode;          // r, k, c, f, s
static long selN = -1;
static char selL[256];
static long selK;
static int err;
static long ops;
static int hit, killed;
static pid_t root;

static const int calls[] = {SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_pread64, SYS_write, SYS_pwrite64, SYS_writev, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2,
	SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_getdents64, SYS_truncate, SYS_ftruncate, SYS_fsync, SYS_fdatasync, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat,
	SYS_stat, SYS_lstat, SYS_newfstatat, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_copy_file_range, SYS_sendfile, SYS_fallocate};
#define NC (sizeof calls / sizeof calls[0])

static void filter(void) {
	struct sock_filter f[8 + 2 * NC];
	int n = 0;
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
	f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (size_t i = 0; i < NC; i++) {
		f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[i], 0, 1);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
	}
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	struct sock_fprog p = {.len = n, .filter = f};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) {
		perror("seccomp");
		_exit(126);
	}
}

static int under(const char *p) {
	return strncmp(p, dir, dirlen) == 0 && (p[dirlen] == 0 || p[dirlen] == '/');
}

static int fdpath(pid_t t, int fd, char *out) {
	char l[64];
	snprintf(l, sizeof l, "/proc/%d/fd/%d", t, fd);
	ssize_t n = readlink(l, out, PATH_MAX - 1);
	if (n < 0) return 0;
	out[n] = 0;
	return 1;
}

// argument string of the traced process as an absolute path
static int argpath(pid_t t, int dfd, unsigned long addr, char *out) {
	char s[PATH_MAX];
	size_t n = 0;
	while (n < sizeof s - 1) {
		size_t part = 4096 - (addr + n) % 4096; // does not cross a page
		if (part > sizeof s - 1 - n) part = sizeof s - 1 - n;
		struct iovec l = {s + n, part}, r = {(void *)(addr + n), part};
		ssize_t k = process_vm_readv(t, &l, 1, &r, 1, 0);
		if (k <= 0) return 0;
		char *z = memchr(s + n, 0, k);
		n += k;
		if (z) break;
	}
	s[sizeof s - 1] = 0;
	if (s[0] == '/') {
		strcpy(out, s);
		return 1;
	}
	if (dfd == AT_FDCWD) {
		char l[64];
		snprintf(l, sizeof l, "/proc/%d/cwd", t);
		ssize_t k = readlink(l, out, PATH_MAX - 1);
		if (k < 0) return 0;
		out[k] = 0;
	} else if (!fdpath(t, dfd, out))
		return 0;
	if (s[0] == 0) return 1;
	size_t m = strlen(out);
	if (m + 1 + strlen(s) >= PATH_MAX) return 0;
	out[m] = '/';
	strcpy(out + m + 1, s);
	return 1;
}

static const char *rel(const char *p) {
	return p[dirlen] ? p + dirlen + 1 : ".";
}

static int counts(const char *label) {
	// labels seen so far
	static struct { char *l; long n; } tab[4096];
	static int nt;
	for (int i = 0; i < nt; i++)
		if (!strcmp(tab[i].l, label)) return ++tab[i].n;
	if (nt < 4096) {
		tab[nt].l = strdup(label);
		tab[nt++].n = 1;
	}
	return 1;
}

static void killall(void) {
	killed = 1;
	kill(root, SIGKILL);
}

// handles one operation: returns nothing, may change the registers or kill
static void handle(pid_t t) {
	struct user_regs_struct r;
	if (ptrace(PTRACE_GETREGS, t, 0, &r)) return;
	char p[2 * PATH_MAX] = "", q[2 * PATH_MAX] = "";
	const char *op = 0;
	int mod = 0;      // modifies something
	long bytes = 0;
	int iswrite = 0;
	switch (r.orig_rax) {
	case SYS_open: argpath(t, AT_FDCWD, r.rdi, p); op = (r.rsi & (O_CREAT | O_TRUNC)) ? "create" : "open"; mod = (r.rsi & (O_CREAT | O_TRUNC)) != 0; break;
	case SYS_creat: argpath(t, AT_FDCWD, r.rdi, p); op = "create"; mod = 1; break;
	case SYS_openat: argpath(t, (int)r.rdi, r.rsi, p); op = (r.rdx & (O_CREAT | O_TRUNC)) ? "create" : "open"; mod = (r.rdx & (O_CREAT | O_TRUNC)) != 0; break;
	case SYS_read: case SYS_pread64: fdpath(t, (int)r.rdi, p); op = "read"; break;
	case SYS_write: case SYS_pwrite64: fdpath(t, (int)r.rdi, p); op = "write"; mod = 1; bytes = r.rdx; iswrite = 1; break;
	case SYS_writev: fdpath(t, (int)r.rdi, p); op = "write"; mod = 1; break;
	case SYS_copy_file_range: fdpath(t, (int)r.rdx, p); op = "write"; mod = 1; break;
	case SYS_sendfile: fdpath(t, (int)r.rdi, p); op = "write"; mod = 1; break;
	case SYS_close: fdpath(t, (int)r.rdi, p); op = "close"; break;
	case SYS_getdents64: fdpath(t, (int)r.rdi, p); op = "list"; break;
	case SYS_truncate: argpath(t, AT_FDCWD, r.rdi, p); op = "trunc"; mod = 1; break;
	case SYS_ftruncate: case SYS_fallocate: fdpath(t, (int)r.rdi, p); op = "trunc"; mod = 1; break;
	case SYS_fsync: case SYS_fdatasync: fdpath(t, (int)r.rdi, p); op = "sync"; break;
	case SYS_stat: case SYS_lstat: argpath(t, AT_FDCWD, r.rdi, p); op = "stat"; break;
	case SYS_newfstatat: argpath(t, (int)r.rdi, r.rsi, p); op = "stat"; break;
	case SYS_chmod: argpath(t, AT_FDCWD, r.rdi, p); op = "chmod"; break;
	case SYS_fchmod: fdpath(t, (int)r.rdi, p); op = "chmod"; break;
	case SYS_fchmodat: argpath(t, (int)r.rdi, r.rsi, p); op = "chmod"; break;
	case SYS_unlink: argpath(t, AT_FDCWD, r.rdi, p); op = "unlink"; mod = 1; break;
	case SYS_rmdir: argpath(t, AT_FDCWD, r.rdi, p); op = "rmdir"; mod = 1; break;
	case SYS_unlinkat: argpath(t, (int)r.rdi, r.rsi, p); op = (r.rdx & AT_REMOVEDIR) ? "rmdir" : "unlink"; mod = 1; break;
	case SYS_mkdir: argpath(t, AT_FDCWD, r.rdi, p); op = "mkdir"; mod = 1; break;
	case SYS_mkdirat: argpath(t, (int)r.rdi, r.rsi, p); op = "mkdir"; mod = 1; break;
	case SYS_rename: argpath(t, AT_FDCWD, r.rdi, p); argpath(t, AT_FDCWD, r.rsi, q); op = "rename"; mod = 1; break;
	case SYS_renameat: case SYS_renameat2: argpath(t, (int)r.rdi, r.rsi, p); argpath(t, (int)r.rdx, r.r10, q); op = "rename"; mod = 1; break;
	case SYS_link: case SYS_symlink: argpath(t, AT_FDCWD, r.rsi, p); op = "link"; mod = 1; break;
	case SYS_linkat: argpath(t, (int)r.rdx, r.r10, p); op = "link"; mod = 1; break;
	case SYS_symlinkat: argpath(t, (int)r.rsi, r.rdx, p); op = "link"; mod = 1; break;
	}
	if (!op) return;
	int up = under(p), uq = q[0] && under(q);
	if (!up && !uq) return;
	ops++;
	char label[4 * PATH_MAX];
	if (q[0]) snprintf(label, sizeof label, "%s:%s:%s", op, up ? rel(p) : "?", uq ? rel(q) : "?");
	else snprintf(label, sizeof label, "%s:%s", op, rel(p));
	for (char *c = label; *c; c++) if (*c == ' ' || *c == '\n') *c = '_';
	long k = counts(label);
	static long pk;
	size_t sl = strlen(selL);
	if (sl && selL[sl - 1] == '*' && !strncmp(selL, label, sl - 1)) k = ++pk;
	int sel = (selN >= 0 ? ops == selN : sl && (!strcmp(selL, label) || (selL[sl - 1] == '*' && !strncmp(selL, label, sl - 1))) && k == selK);
	int act = sel || (mode == 's' && hit && mod);
	fprintf(lg, "%s %ld %s\n", label, bytes, act ? "x" : "-");
	fflush(lg);
	if (!act) return;
	hit = 1;
	switch (mode) {
	case 'k':
		killall();
		break;
	case 'c':
		if (iswrite && bytes > 1) {
			// let it write the first half and stop after the call
			r.rdx = bytes / 2;
			ptrace(PTRACE_SETREGS, t, 0, &r);
			ptrace(PTRACE_SYSCALL, t, 0, 0);
			int st;
			waitpid(t, &st, __WALL);
		}
		killall();
		break;
	case 'f':
	case 's':
		if (iswrite && bytes > 1 && mode == 's' && sel) {
			// disk full: a short write, the rest fails
			r.rdx = bytes / 2;
			ptrace(PTRACE_SETREGS, t, 0, &r);
			break;
		}
		if (r.orig_rax == SYS_close) {
			// the descriptor is released, then the error is returned
			ptrace(PTRACE_SYSCALL, t, 0, 0);
			int st;
			waitpid(t, &st, __WALL);
			if (!WIFSTOPPED(st)) break;
			ptrace(PTRACE_GETREGS, t, 0, &r);
			r.rax = -(long)err;
			ptrace(PTRACE_SETREGS, t, 0, &r);
			break;
		}
		r.orig_rax = -1;
		r.rax = -(long)err;
		ptrace(PTRACE_SETREGS, t, 0, &r);
		break;
	}
}

int main(int argc, char **argv) {
	if (argc < 8 || strcmp(argv[6], "--")) {
		fprintf(stderr, "usage: fscrash DIR LOG MODE SELECT ERRNO -- CMD...\n");
		return 125;
	}
	dir = argv[1];
	dirlen = strlen(dir);
	lg = fopen(argv[2], "we");
	if (!lg) {
		perror(argv[2]);
		return 125;
	}
	mode = argv[3][0];
	if (argv[4][0] == '#') selN = atol(argv[4] + 1);
	else if (strcmp(argv[4], "-")) {
		char *at = strrchr(argv[4], '@');
		if (!at) return 125;
		snprintf(selL, sizeof selL, "%.*s", (int)(at - argv[4]), argv[4]);
		selK = atol(at + 1);
	}
	err = atoi(argv[5]);
	root = fork();
	if (root == 0) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0)) {
			perror("ptrace");
			_exit(126);
		}
		raise(SIGSTOP);
		filter();
		execvp(argv[7], argv + 7);
		perror("exec");
		_exit(126);
	}
	int st;
	if (waitpid(root, &st, __WALL) < 0 || !WIFSTOPPED(st)) {
		fprintf(stderr, "fscrash: could not trace\n");
		return 126;
	}
	if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP)) {
		perror("fscrash: options");
		return 126;
	}
	ptrace(PTRACE_CONT, root, 0, 0);
	int code = 126;
	for (;;) {
		pid_t t = waitpid(-1, &st, __WALL);
		if (t < 0) {
			if (errno == EINTR) continue;
			break; // no children left
		}
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (t == root) {
				code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
				break; // EXITKILL ends the others
			}
			continue;
		}
		if (!WIFSTOPPED(st)) continue;
		int sig = WSTOPSIG(st), ev = st >> 16;
		if (sig == SIGTRAP && ev == PTRACE_EVENT_SECCOMP) {
			if (!killed) handle(t);
			ptrace(PTRACE_CONT, t, 0, 0);
		} else if (sig == SIGTRAP) {
			ptrace(PTRACE_CONT, t, 0, 0);
		} else if (sig == SIGSTOP) {
			ptrace(PTRACE_CONT, t, 0, 0); // new thread or process
		} else {
			ptrace(PTRACE_CONT, t, 0, sig);
		}
	}
	fclose(lg);
	return killed ? 137 : code;
}
