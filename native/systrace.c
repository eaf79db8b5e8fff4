/* Runs a command and watches its system calls that touch files; can end it, make a call fail, cut a write
 * short, or delay, at a chosen call.  Traces its own children only.
 *
 *   systrace [-c mut|read] [-k N] [-s N] [-f N:errno] [-F name:path-part:errno] [-d seed:permille:usec] [-o log] -- prog args
 *
 * -k N  kill everything right before the N-th counted call (1-based)
 * -s N  the N-th counted call, if it is a write, writes half of its bytes, then everything is killed
 * -f N:E  the N-th counted call fails with errno E   (N:E:all: from the N-th on every one does)
 * -l  only log, everything: "pid call dirfd write path<TAB>other path", "pid fork child", "pid chdir ...", "pid chroot ..."
 * -t N:S  the program gets signal S at the N-th counted call   (N:S:all: and at every one after it)
 * -w DIR  the log has absolute paths, and a ! after the call when DIR is not locked exclusively
 * -i  HUP, INT, QUIT and TERM are ignored when the program starts, as under nohup
 * -d S:P:U  before each counted call, with probability P/1000 (seed S), wait up to U microseconds
 * exit: the command's; 137 when killed by us; 120 for trouble of our own
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

struct sc { int nr; const char *name; int kind; int path; };
/* kind: 5 moves (-l only); 0 modifies; 1 open-like with flags in arg1; 2 open-like with flags in arg2; 3 write-like (fd in arg0); 4 reads */
static const struct sc CALLS[] = {
	{SYS_open, "open", 1, 0}, {SYS_openat, "openat", 2, 1}, {SYS_creat, "creat", 0, 0},
	{SYS_write, "write", 3, -1}, {SYS_pwrite64, "pwrite", 3, -1}, {SYS_writev, "writev", 3, -1},
	{SYS_rename, "rename", 0, 0}, {SYS_renameat, "renameat", 0, 1}, {SYS_renameat2, "renameat2", 0, 1},
	{SYS_unlink, "unlink", 0, 0}, {SYS_unlinkat, "unlinkat", 0, 1}, {SYS_rmdir, "rmdir", 0, 0},
	{SYS_mkdir, "mkdir", 0, 0}, {SYS_mkdirat, "mkdirat", 0, 1}, {SYS_symlink, "symlink", 0, 1}, {SYS_symlinkat, "symlinkat", 0, 2},
	{SYS_link, "link", 0, 1}, {SYS_linkat, "linkat", 0, 3}, {SYS_chmod, "chmod", 0, 0}, {SYS_fchmod, "fchmod", 0, -1},
	{SYS_fchmodat, "fchmodat", 0, 1}, {SYS_chown, "chown", 0, 0}, {SYS_fchown, "fchown", 0, -1}, {SYS_lchown, "lchown", 0, 0},
	{SYS_fchownat, "fchownat", 0, 1}, {SYS_utimensat, "utimensat", 0, 1}, {SYS_utimes, "utimes", 0, 0}, {SYS_futimesat, "futimesat", 0, 1},
	{SYS_truncate, "truncate", 0, 0}, {SYS_ftruncate, "ftruncate", 0, -1}, {SYS_mknod, "mknod", 0, 0}, {SYS_mknodat, "mknodat", 0, 1},
	{SYS_fsync, "fsync", 0, -1}, {SYS_fdatasync, "fdatasync", 0, -1}, {SYS_copy_file_range, "copy_file_range", 0, -1},
	{SYS_sendfile, "sendfile", 0, -1}, {SYS_lsetxattr, "lsetxattr", 0, 0}, {SYS_fsetxattr, "fsetxattr", 0, -1},
	{SYS_chdir, "chdir", 5, 0}, {SYS_fchdir, "fchdir", 5, -1}, {SYS_chroot, "chroot", 5, 0},
	{SYS_read, "read", 4, -1}, {SYS_pread64, "pread", 4, -1}, {SYS_readv, "readv", 4, -1}, {SYS_getdents64, "getdents", 4, -1},
};
#define NC (int)(sizeof CALLS / sizeof *CALLS)

static int logall, ignored, class_read, sign, sigwhat, sigall, killn, shortn, failn, failerr, failall, dprob, dusec;
static unsigned dseed;
static const struct sc *failed;
static char failpath[300];
static const char *lockdir;
static FILE *lg;
static pid_t kids[256];
static int nk;

static void die(const char *m) { perror(m); _exit(120); }

static void killall_(void)
{
	for (int i = 0; i < nk; i++)
		kill(kids[i], SIGKILL);
	while (waitpid(-1, NULL, __WALL) > 0)
		;
	if (lg)
		fclose(lg);
	_exit(137);
}

static void peek(pid_t p, unsigned long a, char *buf, size_t n)
{
	size_t got = 0;
	buf[0] = 0;
	while (got + 1 < n) {
		char c;
		struct iovec l = {&c, 1}, r = {(void *)(a + got), 1};
		if (process_vm_readv(p, &l, 1, &r, 1, 0) != 1 || !c)
			break;
		buf[got++] = c == '\n' ? '?' : c;
	}
	buf[got] = 0;
}

static void filter(void)
{
	struct sock_filter f[NC + 8];
	int n = 0;
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (int i = 0; i < NC; i++) {
		int want = class_read ? (CALLS[i].kind == 4 || CALLS[i].kind == 1 || CALLS[i].kind == 2) : CALLS[i].kind < 4;
		if (logall)
			want = CALLS[i].kind != 4 && (CALLS[i].path >= 0 || CALLS[i].nr == SYS_fchdir);
		if (!want)
			continue;
		f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, CALLS[i].nr, 0, 0);
	}
	int first = 1, last = n;        /* jump targets: last = ALLOW, last+1 = TRACE */
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
	for (int i = first; i < last; i++)
		f[i].jt = last - i;
	struct sock_fprog p = {n, f};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
		die("no_new_privs");
	if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p))
		die("seccomp");
}

/* somebody has the exclusive lock of the directory */
static int locked(void)
{
	int fd = open(lockdir, O_RDONLY | O_DIRECTORY | O_CLOEXEC), l = 0;
	if (fd >= 0) {
		l = flock(fd, LOCK_SH | LOCK_NB) && errno == EWOULDBLOCK;
		close(fd);
	}
	return l;
}

int main(int argc, char **argv)
{
	int c;
	const char *lname = NULL;
	while ((c = getopt(argc, argv, "+lic:k:s:f:t:w:d:o:")) != -1)
		switch (c) {
		case 'l': logall = 1; break;
		case 'c': class_read = !strcmp(optarg, "read"); break;
		case 'k': killn = atoi(optarg); break;
		case 's': shortn = atoi(optarg); break;
		case 'f': sscanf(optarg, "%d:%d:%*c", &failn, &failerr);
			failall = strstr(optarg, ":all") ? 1 : strstr(optarg, ":same") ? 2 : strstr(optarg, ":path") ? 3 : 0;
			break;
		case 't': sscanf(optarg, "%d:%d:%*c", &sign, &sigwhat);
			sigall = strstr(optarg, ":all") != NULL;
			break;
		case 'i': ignored = 1; break;
		case 'w': lockdir = optarg; break;
		case 'd': sscanf(optarg, "%u:%d:%d", &dseed, &dprob, &dusec); break;
		case 'o': lname = optarg; break;
		default: return 120;
		}
	if (optind >= argc)
		return 120;
	if (lname && !(lg = fopen(lname, "we")))
		die(lname);
	pid_t child = fork();
	if (child == 0) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0))
			die("traceme");
		raise(SIGSTOP);
		if (ignored) {
			signal(SIGHUP, SIG_IGN);
			signal(SIGINT, SIG_IGN);
			signal(SIGQUIT, SIG_IGN);
			signal(SIGTERM, SIG_IGN);
		}
		filter();
		execv(argv[optind], argv + optind);
		die(argv[optind]);
	}
	kids[nk++] = child;
	int st;
	if (waitpid(child, &st, __WALL) != child || !WIFSTOPPED(st))
		die("first stop");
	if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE |
		   PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESYSGOOD))
		die("setoptions");
	ptrace(PTRACE_CONT, child, 0, 0);
	int n = 0, code = 120, started = 0, dying = 0;
	for (;;) {
		pid_t p = waitpid(-1, &st, __WALL);
		if (p < 0)
			break;
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			for (int i = 0; i < nk; i++)
				if (kids[i] == p)
					kids[i] = kids[--nk];
			if (p == child) {
				code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
				break;
			}
			continue;
		}
		int ev = st >> 16, sig = WSTOPSIG(st);
		if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
			unsigned long k;
			ptrace(PTRACE_GETEVENTMSG, p, 0, &k);
			if (logall && lg)
				fprintf(lg, "%d fork %d\n", p, (int)k);
			if (nk < 256)
				kids[nk++] = (pid_t)k;
			ptrace(PTRACE_CONT, p, 0, 0);
			continue;
		}
		if (ev == PTRACE_EVENT_EXEC) {
			started = 1;
			ptrace(PTRACE_CONT, p, 0, 0);
			continue;
		}
		if (sig == (SIGTRAP | 0x80)) {      /* the end of the shortened write */
			if (dying)
				killall_();
			ptrace(PTRACE_CONT, p, 0, 0);
			continue;
		}
		if (ev == PTRACE_EVENT_SECCOMP && started) {
			struct user_regs_struct r;
			ptrace(PTRACE_GETREGS, p, 0, &r);
			const struct sc *s = NULL;
			for (int i = 0; i < NC; i++)
				if (CALLS[i].nr == (int)r.orig_rax)
					s = &CALLS[i];
			int count = s != NULL;
			if (s && logall) {
				unsigned long a[6] = {r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9};
				unsigned long fl = s->kind == 1 ? r.rsi : r.rdx;
				int w = s->kind == 5 ? 0 : s->kind == 0 || (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY;
				int nr = (int)r.orig_rax, at = s->path >= 1 && strstr(s->name, "at") != NULL, other = -1, ofd = -1;
				char path[4200], path2[4200] = "";
				if (nr == SYS_rename || nr == SYS_link)
					other = s->path ? 0 : 1;
				if (nr == SYS_renameat || nr == SYS_renameat2)
					other = 3, ofd = 2;
				if (nr == SYS_linkat)
					other = 1, ofd = 0;
				char base[4200] = "", ln[64];
				int dfd = at ? (int)a[s->path - 1] : -100;
				snprintf(ln, sizeof ln, dfd == -100 ? "/proc/%d/cwd" : "/proc/%d/fd/%d", p, dfd);
				ssize_t k = readlink(ln, base, sizeof base - 1);
				base[k > 0 ? k : 0] = 0;
				if (s->path >= 0)
					peek(p, a[s->path], path, sizeof path);
				else
					path[0] = 0;
				if (other >= 0)
					peek(p, a[other], path2, sizeof path2);
				fprintf(lg, "%d %s %d %d %s\t%s\t%d\t%s\n", p, s->name, dfd, w, path, path2, ofd >= 0 ? (int)a[ofd] : -100, base);
				fflush(lg);
				ptrace(PTRACE_CONT, p, 0, 0);
				continue;
			}
			if (s && (s->kind == 1 || s->kind == 2)) {
				unsigned long fl = s->kind == 1 ? r.rsi : r.rdx;
				int w = (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY;
				count = class_read ? !w : w;
			}
			if (s && s->kind == 3 && r.rdi <= 2)
				count = 0;
			if (s && s->kind == 4 && r.rdi <= 2)
				count = 0;
			char path[sizeof failpath] = "";
			if (count && s->path >= 0) {
				unsigned long a[4] = {r.rdi, r.rsi, r.rdx, r.r10};
				peek(p, a[s->path], path, sizeof path);
			} else if (count) {
				char ln[64];
				snprintf(ln, sizeof ln, "/proc/%d/fd/%d", p, (int)r.rdi);
				ssize_t k = readlink(ln, path, sizeof path - 1);
				path[k > 0 ? k : 0] = 0;
			}
			/* the loader's own business and devices do not count */
			if (count && (!strncmp(path, "/lib", 4) || !strncmp(path, "/usr/lib/x86", 12) || !strncmp(path, "/etc/ld.so", 10)
				      || !strncmp(path, "/proc/", 6) || !strncmp(path, "/dev/", 5) || !strncmp(path, "/w/log", 6)
				      || strstr(path, "/locale") || !strncmp(path, "pipe:", 5) || !strncmp(path, "socket:", 7)))
				count = 0;
			if (count) {
				n++;
				char base[4200] = "", ln[64];
				if (lockdir && path[0] != '/' && s->path >= 0) {
					unsigned long a[4] = {r.rdi, r.rsi, r.rdx, r.r10};
					int dfd = strstr(s->name, "at") && s->path >= 1 ? (int)a[s->path - 1] : -100;
					snprintf(ln, sizeof ln, dfd == -100 ? "/proc/%d/cwd" : "/proc/%d/fd/%d", p, dfd);
					ssize_t k = readlink(ln, base, sizeof base - 2);
					base[k > 0 ? k : 0] = 0;
					strcat(base, "/");
				}
				if (lg)
					fprintf(lg, "%d %d %s%s %s%s\n", n, p == child, s->name, lockdir && !locked() ? "!" : "", base, path);
				if (sign && (n == sign || (sigall && n > sign)))
					kill(child, sigwhat);
				if (n == killn)
					killall_();
				if (n == shortn) {
					if (s->kind != 3 || r.rdx < 2)
						killall_();
					r.rdx /= 2;
					ptrace(PTRACE_SETREGS, p, 0, &r);
					dying = 1;
					ptrace(PTRACE_SYSCALL, p, 0, 0);
					continue;
				}
				if (n == failn) {
					failed = s;
					strcpy(failpath, path);
				}
				if (n == failn || (failn && n > failn && (failall == 1 || (failall >= 2 && s == failed)) && (failall != 3 || !strcmp(path, failpath)))) {
					r.orig_rax = -1;
					r.rax = -(long)failerr;
					ptrace(PTRACE_SETREGS, p, 0, &r);
				}
				if (dprob) {
					dseed = dseed * 1103515245u + 12345u;
					if ((int)((dseed >> 16) % 1000) < dprob) {
						dseed = dseed * 1103515245u + 12345u;
						usleep((dseed >> 8) % (dusec + 1));
					}
				}
			}
			ptrace(PTRACE_CONT, p, 0, 0);
			continue;
		}
		if (ev) {
			ptrace(PTRACE_CONT, p, 0, 0);
			continue;
		}
		/* a new child's first stop is no signal of its own */
		ptrace(PTRACE_CONT, p, 0, sig == SIGSTOP ? 0 : sig);
	}
	if (lg)
		fclose(lg);
	return code;
}
