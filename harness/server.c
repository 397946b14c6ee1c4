/* Fork server: runs the real asm6809 main() once per case, in a fresh child,
 * inside a private scratch directory.  See DESIGN.md, "Execution engine".
 *
 * usage: server DIR   (requests on fd 0, responses on fd 1)
 *
 * request : u32 len | u32 timeout_ms | i64 fsize | u32 n, n*(str)      argv[1..]
 *           | u32 n, n*(u32 kind, str name, str content)  files (kind 0 file,
 *             1 directory, 2 symlink to content, 3 file with no permissions, 4 fifo,
 *             5 no file but a fault in streams opened by this name: "r N" reads fail
 *             at byte N, "s N" reads return at most N bytes, "w N" writes fail at
 *             byte N, "c" closing fails, "o N" the Nth and later opening fails;
 *             faults that happened are returned as names "!name op")
 *           | u32 n, n*(str)                                      files to return
 * response: u32 len | u32 kind (0 exit, 1 signal, 2 timeout) | u32 code
 *           | str stdout | str stderr | u32 n, n*(u32 exists, str content)
 *           | u32 n, n*(str)   names of all files left in DIR that were not inputs
 */
#define _GNU_SOURCE
#include <malloc.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int asm6809_main(int argc, char **argv);

#if defined(__SANITIZE_ADDRESS__)
#define SANITIZED 1
const char *__asan_default_options(void);
const char *__asan_default_options(void) {
	return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=1024:symbolize=0";
}
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) {
	return "exitcode=99:halt_on_error=1:print_stacktrace=0";
}
#elif defined(VERIF_MSAN)
#define SANITIZED 1
const char *__msan_default_options(void);
const char *__msan_default_options(void) {
	return "exit_code=99:halt_on_error=1:symbolize=0";
}
#endif

static void die(const char *m) { fprintf(stderr, "server: %s: %s\n", m, strerror(errno)); _exit(70); }

static void rd(void *p, size_t n) {
	char *c = p;
	while (n) {
		ssize_t r = read(0, c, n);
		if (r == 0) _exit(0);
		if (r < 0) { if (errno == EINTR) continue; die("read"); }
		c += r; n -= (size_t)r;
	}
}

static void wr(int fd, const void *p, size_t n) {
	const char *c = p;
	while (n) {
		ssize_t r = write(fd, c, n);
		if (r < 0) { if (errno == EINTR) continue; die("write"); }
		c += r; n -= (size_t)r;
	}
}

static char *req; static size_t req_cap, req_len, req_pos;
static uint32_t gu32(void) { uint32_t v; if (req_pos + 4 > req_len) die("short"); memcpy(&v, req + req_pos, 4); req_pos += 4; return v; }
static int64_t gi64(void) { int64_t v; if (req_pos + 8 > req_len) die("short"); memcpy(&v, req + req_pos, 8); req_pos += 8; return v; }
/* strings carry a trailing NUL in the request for convenience */
static char *gstr(uint32_t *n) { *n = gu32(); if (req_pos + *n + 1 > req_len) die("short"); char *s = req + req_pos; req_pos += *n + 1; return s; }

static char *rsp; static size_t rsp_cap, rsp_len;
static void need(size_t n) { if (rsp_len + n > rsp_cap) { rsp_cap = (rsp_len + n) * 2 + 4096; rsp = realloc(rsp, rsp_cap); if (!rsp) die("oom"); } }
static void pu32(uint32_t v) { need(4); memcpy(rsp + rsp_len, &v, 4); rsp_len += 4; }
static void pbytes(const void *p, size_t n) { need(n); memcpy(rsp + rsp_len, p, n); rsp_len += n; }
static void pfile(const char *name) {
	int fd = open(name, O_RDONLY | O_NONBLOCK);
	if (fd < 0) { pu32(0); return; }
	size_t at = rsp_len; pu32(0);
	for (;;) {
		need(65536);
		ssize_t r = read(fd, rsp + rsp_len, 65536);
		if (r <= 0) break;
		rsp_len += (size_t)r;
		if (rsp_len - at > 32u << 20) break;
	}
	close(fd);
	uint32_t n = (uint32_t)(rsp_len - at - 4);
	memcpy(rsp + at, &n, 4);
}

static const char *dir;
#define MAXIN 512
static char *innames[MAXIN]; static int nin;

/* empty the directory open on fd (the scratch directory, or one made inside it) */
static void clean_fd(int fd) {
	DIR *d = fdopendir(fd);
	if (!d) die("opendir");
	struct dirent *e;
	while ((e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		if (unlinkat(dirfd(d), e->d_name, 0) == 0) continue;
		if (unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR) == 0) continue;
		int sub = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
		if (sub < 0) continue;
		clean_fd(sub);
		unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR);
	}
	closedir(d);
}

static void clean(void) {
	int fd = open(".", O_RDONLY | O_DIRECTORY);
	if (fd < 0) die("open .");
	clean_fd(fd);
}

/* make the directories that lead to name, and note the one at the top */
static char *parents(char *name) {
	if (*name == '/' || strstr(name, "..")) die("name leaves the directory");
	for (char *p = strchr(name, '/'); p; p = strchr(p + 1, '/')) {
		*p = 0;
		if (mkdir(name, 0700) < 0 && errno != EEXIST) die("mkdir");
		*p = '/';
	}
	while (!strncmp(name, "./", 2) || *name == '/') name++, name += *name == '/';
	char *top = strdup(name), *e = strchr(top, '/');
	if (e) *e = 0;
	return top;
}

/* ---- stream faults (linked with --wrap=fopen) ---- */

#define MAXFAULT 8
static struct fault { char *name; char op; long n; long opens; } faults[MAXFAULT];
static int nfaults;
static volatile char *fired;	/* shared with the child */

struct stream { int fd; struct fault *f; long pos; };

static ssize_t st_read(void *c, char *buf, size_t n) {
	struct stream *s = c; struct fault *f = s->f;
	if (f->op == 'r') {
		if (s->pos >= f->n) { fired[f - faults] = 1; errno = EIO; return -1; }
		if ((long)n > f->n - s->pos) n = (size_t)(f->n - s->pos);
	}
	if (f->op == 's' && (long)n > f->n) n = (size_t)f->n;
	ssize_t r = read(s->fd, buf, n);
	if (r > 0) s->pos += r;
	return r;
}

static ssize_t st_write(void *c, const char *buf, size_t n) {
	struct stream *s = c; struct fault *f = s->f;
	size_t m = n;
	if (f->op == 'w') {
		if (s->pos >= f->n) m = 0;
		else if ((long)n > f->n - s->pos) m = (size_t)(f->n - s->pos);
	}
	ssize_t r = m ? write(s->fd, buf, m) : 0;
	if (r > 0) s->pos += r;
	if (m < n) { fired[f - faults] = 1; errno = ENOSPC; }
	return r;
}

static int st_seek(void *c, off64_t *off, int whence) {
	struct stream *s = c;
	off64_t r = lseek64(s->fd, *off, whence);
	if (r < 0) return -1;
	*off = s->pos = r;
	return 0;
}

static int st_close(void *c) {
	struct stream *s = c; struct fault *f = s->f;
	int r = close(s->fd);
	free(s);
	if (f->op == 'c') { fired[f - faults] = 1; errno = EIO; return -1; }
	return r;
}

FILE *__real_fopen(const char *name, const char *mode);
FILE *__wrap_fopen(const char *name, const char *mode);
FILE *__wrap_fopen(const char *name, const char *mode) {
	for (int i = 0; i < nfaults; i++) {
		struct fault *f = &faults[i];
		if (strcmp(f->name, name) != 0) continue;
		if (f->op == 'o') {
			if (f->opens++ < f->n) continue;
			fired[i] = 1; errno = EACCES; return NULL;
		}
		int flags = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
		int fd = open(name, flags, 0666);
		if (fd < 0) return NULL;
		struct stream *s = calloc(1, sizeof *s);
		s->fd = fd; s->f = f;
		cookie_io_functions_t io = { st_read, st_write, st_seek, st_close };
		return fopencookie(s, mode, io);
	}
	return __real_fopen(name, mode);
}

/* What is read without having been written must not look like zeroes by luck. */
static void __attribute__((noinline)) dirty_stack(void) {
	volatile unsigned char junk[24 << 10];
	memset((void *)junk, 0x5a, sizeof junk);
	__asm__ volatile("" : : "r"(junk) : "memory");
}

static void lim(int which, rlim_t v) { struct rlimit r = { v, v }; setrlimit(which, &r); }

int main(int argc, char **argv) {
	if (argc < 2) return 64;
	dir = argv[1];
	if (chdir(dir) < 0) die("chdir");
	char outp[4096], errp[4096];
	/* captured streams live beside, not inside, the case's directory */
	snprintf(outp, sizeof outp, "%s.stdout", dir);
	snprintf(errp, sizeof errp, "%s.stderr", dir);
	int ofd = open(outp, O_RDWR | O_CREAT | O_TRUNC, 0600);
	int efd = open(errp, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (ofd < 0 || efd < 0) die("capture");
	unlink(outp); unlink(errp);
	signal(SIGPIPE, SIG_IGN);
	lim(RLIMIT_CORE, 0);
	fired = mmap(NULL, MAXFAULT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (fired == MAP_FAILED) die("mmap");
	for (;;) {
		uint32_t len; rd(&len, 4);
		if (len > req_cap) { req_cap = len * 2; req = realloc(req, req_cap); if (!req) die("oom"); }
		rd(req, len); req_len = len; req_pos = 0;
		uint32_t timeout = gu32();
		int64_t fsize = gi64();
		uint32_t na = gu32();
		char **av = calloc(na + 2, sizeof *av);
		av[0] = (char *)"asm6809";
		uint32_t l;
		for (uint32_t i = 0; i < na; i++) av[i + 1] = gstr(&l);
		clean();
		nin = 0;
		nfaults = 0; memset((char *)fired, 0, MAXFAULT);
		uint32_t nf = gu32();
		for (uint32_t i = 0; i < nf; i++) {
			uint32_t kind = gu32(), nl;
			char *name = gstr(&nl); char *content = gstr(&l);
			if (kind == 5) {
				if (nfaults == MAXFAULT) die("too many faults");
				struct fault *f = &faults[nfaults++];
				f->name = name; f->op = content[0]; f->opens = 0;
				f->n = content[1] ? atol(content + 1) : 0;
				continue;
			}
			char *top = kind == 0 && strchr(name, '/') ? parents(name) : NULL;
			if (nin < MAXIN) innames[nin++] = top ? top : name;
			if (kind == 1) { if (mkdir(name, 0700) < 0) die("mkdir"); continue; }
			if (kind == 2) { if (symlink(content, name) < 0) die("symlink"); continue; }
			if (kind == 4) { if (mkfifo(name, 0600) < 0) die("mkfifo"); continue; }
			int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
			if (fd < 0) die("create input");
			wr(fd, content, l);
			if (kind == 3) fchmod(fd, 0);
			close(fd);
		}
		if (ftruncate(ofd, 0) < 0 || ftruncate(efd, 0) < 0) die("ftruncate");
		lseek(ofd, 0, SEEK_SET); lseek(efd, 0, SEEK_SET);
		pid_t pid = fork();
		if (pid < 0) die("fork");
		if (pid == 0) {
			int nul = open("/dev/null", O_RDONLY);
			dup2(nul, 0); dup2(ofd, 1); dup2(efd, 2);
			close(nul); close(ofd); close(efd);
			/* processor time, so that a busy machine makes nothing look like
			 * a hang; real time only stops what waits for ever */
			struct itimerval it = { {0, 0}, { timeout / 1000, (timeout % 1000) * 1000 } };
			struct itimerval real = { {0, 0}, { timeout / 1000 * 6 + 1, 0 } };
			setitimer(ITIMER_PROF, &it, NULL);
			setitimer(ITIMER_REAL, &real, NULL);
			/* captured streams are regular files: a limit below what a run
			 * legitimately prints would hit them too, which is intended */
			if (fsize >= 0) { signal(SIGXFSZ, SIG_IGN); lim(RLIMIT_FSIZE, (rlim_t)fsize); }
			else lim(RLIMIT_FSIZE, 64 << 20);
#ifndef SANITIZED
			lim(RLIMIT_AS, (rlim_t)1 << 30);
			mallopt(M_PERTURB, 0xa5);
			dirty_stack();
#endif
			/* files left open would only be missed after a thousand of them */
			lim(RLIMIT_NOFILE, 48);
			errno = 0;
			exit(asm6809_main((int)na + 1, av));
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) die("waitpid");
		rsp_len = 0;
		if (WIFEXITED(st)) { pu32(0); pu32((uint32_t)WEXITSTATUS(st)); }
		else if (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) { pu32(2); pu32(0); }
		else { pu32(1); pu32((uint32_t)WTERMSIG(st)); }
		int fds[2] = { ofd, efd };
		for (int i = 0; i < 2; i++) {
			struct stat sb; if (fstat(fds[i], &sb) < 0) die("fstat");
			size_t n = (size_t)sb.st_size; if (n > 4u << 20) n = 4u << 20;
			pu32((uint32_t)n); need(n);
			ssize_t r = pread(fds[i], rsp + rsp_len, n, 0);
			if (r != (ssize_t)n) die("pread");
			rsp_len += n;
		}
		uint32_t no = gu32(); pu32(no);
		for (uint32_t i = 0; i < no; i++) {
			char *name = gstr(&l);
			struct stat sb;
			int ex = lstat(name, &sb) == 0 ? (S_ISREG(sb.st_mode) ? 1 : 2) : 0;
			pu32((uint32_t)ex);
			if (ex == 1) pfile(name); else pu32(0);
		}
		/* other files left behind */
		size_t at = rsp_len; uint32_t cnt = 0; pu32(0);
		DIR *d = opendir("."); struct dirent *e;
		while (d && (e = readdir(d))) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			int known = 0;
			for (int i = 0; i < nin; i++) if (!strcmp(innames[i], e->d_name)) known = 1;
			if (known) continue;
			uint32_t n = (uint32_t)strlen(e->d_name);
			pu32(n); pbytes(e->d_name, n); cnt++;
		}
		if (d) closedir(d);
		for (int i = 0; i < nfaults; i++) {
			if (!fired[i]) continue;
			char b[300]; int n = snprintf(b, sizeof b, "!%s %c", faults[i].name, faults[i].op);
			pu32((uint32_t)n); pbytes(b, (size_t)n); cnt++;
		}
		memcpy(rsp + at, &cnt, 4);
		uint32_t rl = (uint32_t)rsp_len;
		wr(1, &rl, 4); wr(1, rsp, rsp_len);
		free(av);
	}
}
