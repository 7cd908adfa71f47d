/* Actor side of the simulator: every libc entry through which the code under
 * test can observe or change the outside world is redirected (objcopy
 * --redefine-syms) to the sim_* functions below.  They forward to the
 * simulator kernel and park until it answers. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <signal.h>
#include <dirent.h>
#include <time.h>
#include <limits.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sched.h>
#include <ftw.h>
#include <execinfo.h>
#include <ucontext.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/file.h>
#include "simproto.h"

#define NOCOV __attribute__((no_sanitize_coverage))

/* ---------------------------------------------------------------- channel */
static __thread int chan = -1;
static int main_chan = -1;
static volatile unsigned char *covmap;

static void die(const char *m) {
	(void)!write(2, m, strlen(m)); (void)!write(2, "\n", 1);
	_exit(97);
}
static void xsend(int fd, const void *b, size_t n) {
	const char *p = b;
	while (n) {
		ssize_t r = send(fd, p, n, MSG_NOSIGNAL);
		if (r < 0) { if (errno == EINTR) continue; _exit(98); }
		p += r; n -= r;
	}
}
static int passed_fd;
static void xrecv(int fd, void *b, size_t n) {
	char *p = b;
	while (n) {
		char cbuf[CMSG_SPACE(sizeof(int))];
		struct iovec io = { p, n };
		struct msghdr mh = { .msg_iov = &io, .msg_iovlen = 1, .msg_control = cbuf, .msg_controllen = sizeof cbuf };
		ssize_t r = recvmsg(fd, &mh, 0);
		if (r < 0) { if (errno == EINTR) continue; _exit(98); }
		if (r == 0) _exit(99); /* kernel is gone */
		for (struct cmsghdr *c = CMSG_FIRSTHDR(&mh); c; c = CMSG_NXTHDR(&mh, c))
			if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS)
				memcpy(&passed_fd, CMSG_DATA(c), sizeof(int));
		p += r; n -= r;
	}
}
static __thread int keep_turn;
/* payload out: (p1,n1)(p2,n2); payload in: out/outmax; returns ret, sets errno */
static int64_t rpc2(int op, const int64_t *a, const void *p1, size_t n1, const void *p2, size_t n2,
		void *out, size_t outmax, size_t *outlen) {
	struct sim_req q; struct sim_rep r;
	memset(&q, 0, sizeof q);
	q.op = op | (keep_turn ? SIM_KEEPTURN : 0); q.len = n1 + n2;
	if (a) memcpy(q.a, a, sizeof q.a);
	if (n1 + n2 < 60000) {
		char b[sizeof q + n1 + n2];
		memcpy(b, &q, sizeof q);
		if (n1) memcpy(b + sizeof q, p1, n1);
		if (n2) memcpy(b + sizeof q + n1, p2, n2);
		xsend(chan, b, sizeof q + n1 + n2);
	} else {
		xsend(chan, &q, sizeof q);
		if (n1) xsend(chan, p1, n1);
		if (n2) xsend(chan, p2, n2);
	}
	xrecv(chan, &r, sizeof r);
	size_t take = r.len < outmax ? r.len : outmax;
	if (take) xrecv(chan, out, take);
	if (r.len > take) { /* discard */
		char sink[512]; size_t left = r.len - take;
		while (left) { size_t k = left < sizeof sink ? left : sizeof sink; xrecv(chan, sink, k); left -= k; }
	}
	if (outlen) *outlen = take;
	if (r.ret < 0) errno = r.err;
	return r.ret;
}
#define A(...) ((int64_t[6]){ __VA_ARGS__ })
static int64_t rpc(int op, const int64_t *a) { return rpc2(op, a, 0, 0, 0, 0, 0, 0, 0); }
static int64_t rpcs(int op, const int64_t *a, const char *s) {
	if (!s) { errno = EFAULT; return -1; }
	return rpc2(op, a, s, strlen(s) + 1, 0, 0, 0, 0, 0);
}

/* ------------------------------------------------------------- parameters */
static struct {
	unsigned long long garbage, guard, allocfail, allocfailafter, memlimit, maxsteps, preempt, preseed, childfail, ttyout, chunkalloc, shift, btrace, preburst, pregap, asites, smear;
} P;
static unsigned long long rngs;
static unsigned long long rnd(void) { /* xorshift64* */
	rngs ^= rngs >> 12; rngs ^= rngs << 25; rngs ^= rngs >> 27;
	return rngs * 2685821657736338717ULL;
}
static int is_child; /* forked from the launched process (runs user code) */

/* ------------------------------------------------------------------- heap */
#define ARENA ((char *)0x100000000000UL)
#define ARENASZ (8UL << 30)
#define GARENA ((char *)0x200000000000UL)
#define GARENASZ (64UL << 30)
#define MAGIC_LIVE 0x51a17e51a17eULL
#define MAGIC_FREE 0xdeadf4eedeadULL
struct hdr { unsigned long long magic; unsigned long long size; unsigned int seq, cls; unsigned long long pad; };
static char *brkp = ARENA, *gbrk = GARENA;
struct fl { struct fl *next; };
#define NCLS 256
static struct fl *freel[NCLS];
static long live_blocks, live_bytes, n_allocs, peak_bytes;
static unsigned long long steps;

static void heapbad(const char *what, struct hdr *h) {
	char b[200];
	snprintf(b, sizeof b, "%s (block #%u size %llu)", what, h ? h->seq : 0, h ? h->size : 0);
	rpcs(OP_HEAPBAD, 0, b);
	if (P.btrace) { void *v[40]; backtrace_symbols_fd(v, backtrace(v, 40), 2); }
	_exit(96);
}
static size_t cls_size(int c) {
	if (c < 64) return (size_t)(c + 1) * 16;
	int k = c - 64;
	return ((size_t)1024 << (k / 4)) * (4 + k % 4 + 1) / 4;
}
static int size_cls(size_t n) {
	if (n <= 1024) return (int)((n + 15) / 16) - 1;
	for (int c = 64; c < NCLS; c++) if (cls_size(c) >= n) return c;
	return -1;
}
static int in_small(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENASZ; }
static int in_guard(const void *p) { return (char *)p >= GARENA && (char *)p < GARENA + GARENASZ; }

static void fillg(void *p, size_t n) {
	if (P.garbage == 0) { memset(p, 0, n); return; }
	unsigned long long s = P.garbage * 0x9E3779B97F4A7C15ULL + n_allocs;
	memset(p, (int)((s >> 32) | 1), n);
}
static void *guard_pages(size_t n) {
	size_t pg = (n + 4095) / 4096 * 4096;
	char *base = gbrk + 4096;
	if (gbrk + pg + 8192 > GARENA + GARENASZ) return NULL;
	if (mprotect(base, pg, PROT_READ | PROT_WRITE)) return NULL;
	gbrk += pg + 8192;
	return base;
}
/* guarded block layout: header at start of its first page minus... kept in a side table */
struct gent { char *user; size_t size, pages; char *base; unsigned seq; int live; };
static struct gent gtab[60000]; static int ngtab;
static struct gent *gfind(void *p) {
	for (int i = ngtab - 1; i >= 0; i--) if (gtab[i].user == p) return &gtab[i];
	return NULL;
}
static void *raw_alloc(size_t n, int zero) {
	n_allocs++;
	if (P.guard && ngtab < 28000 && (n >= 65536 || rnd() % P.guard == 0)) {
		size_t need = (n + 15) & ~15UL; if (!need) need = 16;
		char *base = guard_pages(need);
		if (base) {
			size_t pg = (need + 4095) / 4096 * 4096;
			char *u = base + pg - need;
			struct gent *g = &gtab[ngtab++];
			g->user = u; g->size = n; g->pages = pg; g->base = base; g->seq = n_allocs; g->live = 1;
			fillg(u, n); if (zero) memset(u, 0, n);
			memset(u + n, 0xC5, need - n);
			live_blocks++; live_bytes += n; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
			return u;
		}
	}
	size_t tot = n + sizeof(struct hdr) + 16;
	int c = size_cls(tot);
	if (c < 0) return NULL;
	struct hdr *h;
	if (freel[c]) {
		h = (struct hdr *)freel[c];
		freel[c] = freel[c]->next;
		struct hdr *hh = h;
		unsigned char *q = (unsigned char *)(hh + 1);
		size_t k = cls_size(c) - sizeof *hh; if (k > 192) k = 192;
		for (size_t i = 0; i < k; i++) if (q[i] != 0xDF) heapbad("write after free", hh);
	} else {
		size_t sz = cls_size(c);
		if (brkp + sz > ARENA + ARENASZ) return NULL;
		h = (struct hdr *)brkp; brkp += sz;
	}
	h->magic = MAGIC_LIVE; h->size = n; h->seq = n_allocs; h->cls = c; h->pad = 0xC5C5C5C5C5C5C5C5ULL;
	char *u = (char *)(h + 1);
	if (zero) memset(u, 0, n); else fillg(u, n);
	memset(u + n, 0xC5, 16);
	live_blocks++; live_bytes += n; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
	return u;
}
static struct hdr *chk(void *p) {
	struct hdr *h = (struct hdr *)p - 1;
	if (h->magic == MAGIC_FREE) heapbad("double free", h);
	if (h->magic != MAGIC_LIVE) heapbad("invalid free", 0);
	if (h->pad != 0xC5C5C5C5C5C5C5C5ULL) heapbad("underflow write", h);
	for (int i = 0; i < 16; i++) if (((unsigned char *)p)[h->size + i] != 0xC5) heapbad("overflow write", h);
	return h;
}
static void raw_free(void *p) {
	if (!p) return;
	if (in_guard(p)) {
		struct gent *g = gfind(p);
		if (!g) heapbad("invalid free", 0);
		if (!g->live) heapbad("double free", 0);
		for (char *q = g->user + g->size; q < g->base + g->pages; q++) if ((unsigned char)*q != 0xC5) heapbad("overflow write", 0);
		g->live = 0; live_blocks--; live_bytes -= g->size;
		mprotect(g->base, g->pages, PROT_NONE);
		madvise(g->base, g->pages, MADV_DONTNEED);
		return;
	}
	if (!in_small(p)) { free(p); return; } /* from libc itself */
	struct hdr *h = chk(p);
	live_blocks--; live_bytes -= h->size;
	size_t k = cls_size(h->cls) - sizeof *h; if (k > 192) k = 192;
	h->magic = MAGIC_FREE;
	memset(p, 0xDF, k);
	h->magic = 0; /* freelist link overlays magic+size */
	struct fl *f = (struct fl *)h;
	unsigned cls = h->cls;
	f->next = freel[cls]; freel[cls] = f;
	/* keep a recognisable mark for double free: pad field */
	((struct hdr *)f)->pad = MAGIC_FREE;
}
static size_t usz(void *p) {
	if (in_guard(p)) { struct gent *g = gfind(p); if (!g || !g->live) heapbad("realloc of bad block", 0); return g->size; }
	if (((struct hdr *)p - 1)->pad == MAGIC_FREE) heapbad("use of freed block", 0);
	return chk(p)->size;
}
/* where an allocation comes from: the innermost return addresses */
static uint32_t *asites; static unsigned long n_asites, cap_asites;
static void note_site(void **fp) {
	unsigned long h = 0; int i;
	for (i = 0; i < 60; i++) {
		void **up = (void **)fp[0];
		if (i < 7) h = (h ^ ((unsigned long)fp[1] - (unsigned long)note_site)) * 0x9E3779B97F4A7C15UL;
		if (up <= fp || (char *)up > (char *)fp + (1 << 20) || ((unsigned long)up & 7)) break;
		fp = up;
	}
	if (n_asites == cap_asites) { cap_asites = cap_asites ? 2 * cap_asites : 4096; asites = realloc(asites, cap_asites * sizeof *asites); }
	asites[n_asites++] = (h >> 40) << 6 | i;
}
static void send_sites(void) {
	char *b = malloc(n_asites * 9 + 20), *p = b + sprintf(b, "sites:");
	for (unsigned long i = 0; i < n_asites; i++) p += sprintf(p, "%x,", asites[i]);
	rpcs(OP_NOTE, 0, b);
	free(b);
}
/* decide whether this allocation request fails */
static int alloc_fails(size_t n) {
	static unsigned long long cnt;
	if (is_child && !P.childfail) return 0;
	cnt++;
	if (P.asites) note_site((void **)__builtin_frame_address(0));
	int f = 0;
	if (P.allocfail && cnt == P.allocfail) f = 1;
	if (P.allocfailafter && cnt >= P.allocfailafter) f = 1;
	if (P.memlimit && (unsigned long long)live_bytes + n > P.memlimit) f = 1;
	if (n > (4UL << 30)) f = 2;
	if (f) { if (f == 1) rpc(OP_ALLOCFAIL, A(cnt, n)); errno = ENOMEM; }
	return f;
}
void *sim_malloc(size_t n) { if (alloc_fails(n)) return NULL; return raw_alloc(n, 0); }
void *sim_calloc(size_t a, size_t b) {
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	if (alloc_fails(n)) return NULL; return raw_alloc(n, 1);
}
void sim_free(void *p) {
	int e = errno;
	if (p && in_small(p) && ((struct hdr *)p - 1)->pad == MAGIC_FREE) heapbad("double free", 0);
	raw_free(p); errno = e;
}
void *sim_realloc(void *p, size_t n) {
	if (!p) return sim_malloc(n);
	if (!in_small(p) && !in_guard(p)) return realloc(p, n);
	size_t old = usz(p);
	if (n == 0) { raw_free(p); return NULL; }
	if (alloc_fails(n)) return NULL;
	void *q = raw_alloc(n, 0);
	if (!q) { errno = ENOMEM; return NULL; }
	memcpy(q, p, old < n ? old : n);
	raw_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return sim_realloc(p, n);
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_memalign(size_t al, size_t n) { /* over-aligned blocks come from libc */ if (alloc_fails(n)) return NULL; return al <= 16 ? raw_alloc(n, 0) : memalign(al, n); }
void *sim_aligned_alloc(size_t al, size_t n) { return sim_memalign(al, n); }
int sim_posix_memalign(void **r, size_t al, size_t n) { void *p = sim_memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
int sim_vasprintf(char **r, const char *f, va_list ap) {
	va_list b; va_copy(b, ap); int n = vsnprintf(0, 0, f, b); va_end(b);
	*r = sim_malloc(n + 1); if (!*r) return -1;
	return vsnprintf(*r, n + 1, f, ap);
}
int sim_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(r, f, ap); va_end(ap); return n; }
/* queries for the drivers */
long sim_heap_live_blocks(void) { return live_blocks; }
long sim_heap_live_bytes(void) { return live_bytes; }
long sim_heap_allocs(void) { return n_allocs; }
long sim_fd_count(void) { return rpc(OP_FDCOUNT, 0); }

/* -------------------------------------------------- coverage, steps, yields */
static int threaded;
static __thread int in_slow;
static unsigned long long next_yield, burst_left;
/* yields come `preempt` steps apart on average; with pregap, in bursts of about
   preburst yields separated by about pregap steps */
static NOCOV void plan_yield(void) {
	unsigned long long m = P.preempt;
	if (P.pregap) {
		if (burst_left) burst_left--;
		else { burst_left = 1 + rnd() % (2 * (P.preburst ? P.preburst : 1)); m = P.pregap; }
	}
	next_yield = steps + 1 + rnd() % (2 * m);
}
static NOCOV __attribute__((noinline)) void cov_slow(void) {
	if (in_slow || chan < 0) return;
	in_slow = 1;
	if (P.maxsteps && steps > P.maxsteps) { rpc(OP_STEPLIMIT, A(steps)); _exit(95); }
	if (P.preempt && threaded && steps >= next_yield) {
		plan_yield();
		rpc(OP_YIELD, A(0));
	}
	in_slow = 0;
}
/* what earlier calls left on the stack is never the same: overwrite it below the running function */
static __attribute__((noinline)) void smear_stack(void) {
	static const short sz[4] = { 200, 600, 2000, 9000 };
	unsigned long long h = (steps + P.smear) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
	size_t n = sz[(h >> 8) & 3];
	char *b = __builtin_alloca(n);
	memset(b, (int)(h >> 40), n);
	__asm__ volatile("" :: "r"(b) : "memory");
}
NOCOV void __sanitizer_cov_trace_pc(void) {
	unsigned long pc = (unsigned long)__builtin_return_address(0);
	steps++;
	if (__builtin_expect(P.smear != 0, 0) && (steps % (P.smear & 7 ? P.smear & 7 : 1)) == 0) smear_stack();
	if (covmap) { unsigned long k = (pc ^ (pc >> 13)) & (SIM_COVBITS - 1); covmap[k] = 1; }
	if (__builtin_expect((threaded && P.preempt) || (steps & 1023) == 0, 0)) {
		if ((P.maxsteps && steps > P.maxsteps) || (threaded && P.preempt && steps >= next_yield)) cov_slow();
	}
}

/* ------------------------------------------------------------------ files */
static int need_mode(int fl) { return (fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE; }
static int do_open(const char *p, int fl, mode_t m) { return (int)rpcs(OP_OPEN, A(fl, m), p); }
int sim_open(const char *p, int fl, ...) { mode_t m = 0; if (need_mode(fl)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
int sim_open64(const char *p, int fl, ...) { mode_t m = 0; if (need_mode(fl)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
static int badat(int d, const char *p) { if (d == AT_FDCWD || (p && p[0] == '/')) return 0; errno = ENOSYS; rpcs(OP_NOTE, 0, "unsupported *at() call"); return 1; }
int sim_openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (need_mode(fl)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (badat(d, p)) return -1; return do_open(p, fl, m); }
int sim_creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t sim_read(int fd, void *b, size_t n) { if (n > (1u << 30)) n = 1u << 30; return rpc2(OP_READ, A(fd, n), 0, 0, 0, 0, b, n, 0); }
ssize_t sim_write(int fd, const void *b, size_t n) { return rpc2(OP_WRITE, A(fd, n), b, n, 0, 0, 0, 0, 0); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return rpc2(OP_PREAD, A(fd, n, o), 0, 0, 0, 0, b, n, 0); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return rpc2(OP_PWRITE, A(fd, n, o), b, n, 0, 0, 0, 0, 0); }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_pwrite(fd, b, n, o); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t sim_lseek(int fd, off_t o, int w) { return rpc(OP_LSEEK, A(fd, o, w)); }
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
int sim_close(int fd) { return (int)rpc(OP_CLOSE, A(fd)); }
int sim_fsync(int fd) { return (int)rpc(OP_FSYNC, A(fd)); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) { }
int sim_ftruncate(int fd, off_t l) { return (int)rpc(OP_FTRUNCATE, A(fd, l)); }
int sim_ftruncate64(int fd, off_t l) { return sim_ftruncate(fd, l); }
int sim_truncate(const char *p, off_t l) { return (int)rpcs(OP_TRUNCATE, A(l), p); }
static void fillst(struct stat *st, const struct sim_stat *s) {
	memset(st, 0, sizeof *st);
	st->st_mode = s->type | s->mode; st->st_size = s->size; st->st_ino = s->ino; st->st_nlink = s->nlink;
	st->st_mtime = s->mtime; st->st_ctime = s->mtime; st->st_atime = s->mtime; st->st_blksize = 4096; st->st_blocks = (s->size + 511) / 512; st->st_dev = 1;
	st->st_uid = 1000; st->st_gid = 1000;
}
static int do_stat(int op, int fd, const char *p, struct stat *st) {
	struct sim_stat s; memset(&s, 0, sizeof s);
	int64_t r = rpc2(op, A(fd), p, p ? strlen(p) + 1 : 0, 0, 0, &s, sizeof s, 0);
	if (r < 0) return -1;
	fillst(st, &s); return 0;
}
int sim_stat(const char *p, struct stat *st) { return do_stat(OP_STAT, 0, p, st); }
int sim_lstat(const char *p, struct stat *st) { return do_stat(OP_LSTAT, 0, p, st); }
int sim_fstat(int fd, struct stat *st) { return do_stat(OP_FSTAT, fd, 0, st); }
int sim_stat64(const char *p, struct stat *st) { return do_stat(OP_STAT, 0, p, st); }
int sim_lstat64(const char *p, struct stat *st) { return do_stat(OP_LSTAT, 0, p, st); }
int sim_fstat64(int fd, struct stat *st) { return do_stat(OP_FSTAT, fd, 0, st); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { if (badat(d, p)) return -1; return do_stat(fl & AT_SYMLINK_NOFOLLOW ? OP_LSTAT : OP_STAT, 0, p, st); }
int sim_access(const char *p, int m) { return (int)rpcs(OP_ACCESS, A(m), p); }
int sim_faccessat(int d, const char *p, int m, int f) { (void)f; if (badat(d, p)) return -1; return sim_access(p, m); }
int sim_mkdir(const char *p, mode_t m) { return (int)rpcs(OP_MKDIR, A(m), p); }
int sim_mkdirat(int d, const char *p, mode_t m) { if (badat(d, p)) return -1; return sim_mkdir(p, m); }
int sim_rmdir(const char *p) { return (int)rpcs(OP_RMDIR, 0, p); }
static int two(int op, int64_t fl, const char *a, const char *b) { return (int)rpc2(op, A(fl), a, strlen(a) + 1, b, strlen(b) + 1, 0, 0, 0); }
int sim_rename(const char *a, const char *b) { return two(OP_RENAME, 0, a, b); }
int sim_renameat(int d, const char *a, int e, const char *b) { if (badat(d, a) || badat(e, b)) return -1; return two(OP_RENAME, 0, a, b); }
int sim_renameat2(int d, const char *a, int e, const char *b, unsigned f) { if (badat(d, a) || badat(e, b)) return -1; return two(OP_RENAME, f, a, b); }
int sim_link(const char *a, const char *b) { return two(OP_LINK, 0, a, b); }
int sim_symlink(const char *a, const char *b) { return two(OP_SYMLINK, 0, a, b); }
ssize_t sim_readlink(const char *p, char *b, size_t n) { return rpc2(OP_READLINK, A(n), p, strlen(p) + 1, 0, 0, b, n, 0); }
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { if (badat(d, p)) return -1; return sim_readlink(p, b, n); }
int sim_unlink(const char *p) { return (int)rpcs(OP_UNLINK, 0, p); }
int sim_unlinkat(int d, const char *p, int f) { if (badat(d, p)) return -1; return f & AT_REMOVEDIR ? sim_rmdir(p) : sim_unlink(p); }
int sim_remove(const char *p) { int r = sim_unlink(p); if (r < 0 && (errno == EISDIR || errno == EPERM)) r = sim_rmdir(p); return r; }
int sim_chmod(const char *p, mode_t m) { return (int)rpcs(OP_CHMOD, A(m), p); }
int sim_fchmod(int fd, mode_t m) { return (int)rpc(OP_CHMOD, A(m, fd)); }
int sim_fchmodat(int d, const char *p, mode_t m, int f) { (void)f; if (badat(d, p)) return -1; return sim_chmod(p, m); }
int sim_chown(const char *p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; return 0; }
int sim_fchown(int f, uid_t u, gid_t g) { (void)f; (void)u; (void)g; return 0; }
int sim_lchown(const char *p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; return 0; }
int sim_utimes(const char *p, const struct timeval *t) { (void)t; return (int)rpcs(OP_UTIMES, 0, p); }
int sim_utimensat(int d, const char *p, const struct timespec *t, int f) { (void)t; (void)f; if (badat(d, p)) return -1; return (int)rpcs(OP_UTIMES, 0, p); }
int sim_futimens(int fd, const struct timespec *t) { (void)fd; (void)t; return 0; }
mode_t sim_umask(mode_t m) { return (mode_t)rpc(OP_UMASK, A(m)); }
int sim_chdir(const char *p) { return (int)rpcs(OP_CHDIR, 0, p); }
char *sim_getcwd(char *b, size_t n) {
	char t[PATH_MAX]; size_t l;
	if (rpc2(OP_GETCWD, A(0), 0, 0, 0, 0, t, sizeof t, &l) < 0) return NULL;
	if (!b) { if (n < l) n = l; b = sim_malloc(n); if (!b) return NULL; }
	if (n < l) { errno = ERANGE; return NULL; }
	memcpy(b, t, l); return b;
}
char *sim_get_current_dir_name(void) { return sim_getcwd(0, 0); }
char *sim_realpath(const char *p, char *b) {
	char t[PATH_MAX]; size_t l;
	if (!p) { errno = EINVAL; return NULL; }
	if (rpc2(OP_REALPATH, A(0), p, strlen(p) + 1, 0, 0, t, sizeof t, &l) < 0) return NULL;
	if (!b) { b = sim_malloc(l); if (!b) return NULL; }
	memcpy(b, t, l); return b;
}
char *sim_canonicalize_file_name(const char *p) { return sim_realpath(p, 0); }
int sim_dup(int fd) { return (int)rpc(OP_DUP, A(fd, 0)); }
int sim_dup2(int a, int b) { return (int)rpc(OP_DUP2, A(a, b)); }
int sim_dup3(int a, int b, int f) { (void)f; return (int)rpc(OP_DUP2, A(a, b)); }
int sim_pipe(int *f) { int r[2]; if (rpc2(OP_PIPE, 0, 0, 0, 0, 0, r, sizeof r, 0) < 0) return -1; f[0] = r[0]; f[1] = r[1]; return 0; }
int sim_pipe2(int *f, int fl) { int r = sim_pipe(f); if (!r && (fl & O_NONBLOCK)) { rpc(OP_SETFL, A(f[0], O_NONBLOCK)); rpc(OP_SETFL, A(f[1], O_NONBLOCK)); } return r; }
int sim_fcntl(int fd, int cmd, ...) {
	va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
	switch (cmd) {
	case F_SETLK: case F_SETLKW: { struct flock *l = (struct flock *)arg; return (int)rpc(OP_LOCK, A(fd, l->l_type, cmd == F_SETLKW, 0)); }
	case F_GETLK: ((struct flock *)arg)->l_type = F_UNLCK; return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: return (int)rpc(OP_DUP, A(fd, arg));
	case F_GETFL: return (int)rpc(OP_GETFL, A(fd));
	case F_GETFD: return rpc(OP_GETFL, A(fd)) < 0 ? -1 : 0;
	case F_SETFL: return (int)rpc(OP_SETFL, A(fd, arg));
	case F_SETFD: return 0;
	}
	errno = EINVAL; return -1;
}
int sim_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return sim_fcntl(fd, cmd, arg); }
int sim_flock(int fd, int op) { return (int)rpc(OP_LOCK, A(fd, (op & LOCK_UN) ? F_UNLCK : (op & LOCK_EX) ? F_WRLCK : F_RDLCK, !(op & LOCK_NB), 1)); }
int sim_lockf(int fd, int cmd, off_t l) { (void)l; return (int)rpc(OP_LOCK, A(fd, cmd == F_ULOCK ? F_UNLCK : F_WRLCK, cmd == F_LOCK, 0)); }
int sim_ioctl(int fd, unsigned long r, ...) {
	va_list a; va_start(a, r); void *p = va_arg(a, void *); va_end(a);
	if (r == FIONREAD) { int64_t n = rpc(OP_FIONREAD, A(fd)); if (n < 0) return -1; *(int *)p = (int)n; return 0; }
	if (r == FIONBIO) { int64_t f = rpc(OP_GETFL, A(fd)); if (f < 0) return -1; return (int)rpc(OP_SETFL, A(fd, *(int *)p ? f | O_NONBLOCK : f & ~O_NONBLOCK)); }
	errno = ENOTTY; return -1;
}
static int pollus(struct pollfd *v, nfds_t n, int64_t us) { return (int)rpc2(OP_POLL, A(n, us), v, n * sizeof *v, 0, 0, v, n * sizeof *v, 0); }
int sim_poll(struct pollfd *v, nfds_t n, int ms) { return pollus(v, n, ms < 0 ? -1 : (int64_t)ms * 1000); }
int sim_ppoll(struct pollfd *v, nfds_t n, const struct timespec *t, const sigset_t *m) { (void)m; return pollus(v, n, t ? t->tv_sec * 1000000 + t->tv_nsec / 1000 : -1); }
int sim___poll_chk(struct pollfd *v, nfds_t n, int ms, size_t l) { (void)l; return sim_poll(v, n, ms); }
static int selus(int n, fd_set *r, fd_set *w, fd_set *e, int64_t us) {
	struct pollfd v[64]; int k = 0, hit = 0;
	for (int i = 0; i < n && k < 64; i++) {
		int ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
		if (ev) { v[k].fd = i; v[k].events = ev; v[k++].revents = 0; }
	}
	int x = pollus(v, k, us);
	if (x < 0) return -1;
	if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
	for (int i = 0; i < k; i++) {
		if (v[i].revents & POLLNVAL) { errno = EBADF; return -1; }
		if ((v[i].events & POLLIN) && (v[i].revents & (POLLIN | POLLHUP))) { FD_SET(v[i].fd, r); hit++; }
		if ((v[i].events & POLLOUT) && (v[i].revents & (POLLOUT | POLLERR))) { FD_SET(v[i].fd, w); hit++; }
	}
	return hit;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return selus(n, r, w, e, t ? t->tv_sec * 1000000 + t->tv_usec : -1); }
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { (void)m; return selus(n, r, w, e, t ? t->tv_sec * 1000000 + t->tv_nsec / 1000 : -1); }
ssize_t sim_sendfile(int o, int i, off_t *of, size_t n) {
	char b[16384]; if (n > sizeof b) n = sizeof b;
	ssize_t k = of ? sim_pread(i, b, n, *of) : sim_read(i, b, n);
	if (k <= 0) return k;
	ssize_t w = sim_write(o, b, k);
	if (w < 0) { if (!of) sim_lseek(i, -k, SEEK_CUR); return -1; }
	if (of) *of += w; else if (w < k) sim_lseek(i, w - k, SEEK_CUR);
	return w;
}
ssize_t sim_copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned fl) {
	char b[16384]; (void)fl; if (n > sizeof b) n = sizeof b;
	ssize_t k = io ? sim_pread(i, b, n, *io) : sim_read(i, b, n);
	if (k <= 0) return k;
	ssize_t w = oo ? sim_pwrite(o, b, k, *oo) : sim_write(o, b, k);
	if (w < 0) { if (!io) sim_lseek(i, -k, SEEK_CUR); return -1; }
	if (io) *io += w; else if (w < k) sim_lseek(i, w - k, SEEK_CUR);
	if (oo) *oo += w;
	return w;
}
int sim_isatty(int fd) { int r = (int)rpc(OP_ISATTY, A(fd)); if (r <= 0) { errno = ENOTTY; return 0; } return 1; }

/* directories */
struct sim_dir { char *buf; size_t len, pos; struct dirent de; };
static char *dirlist(const char *p, size_t *n) {
	size_t cap = 1 << 18; char *b = malloc(cap);
	if (rpc2(OP_READDIR, A(0), p, strlen(p) + 1, 0, 0, b, cap, n) < 0) { int e = errno; free(b); errno = e; return NULL; }
	return b;
}
void *sim_opendir(const char *p) {
	size_t n; char *b = dirlist(p, &n); if (!b) return NULL;
	struct sim_dir *d = calloc(1, sizeof *d); d->buf = b; d->len = n; return d;
}
struct dirent *sim_readdir(void *dp) {
	struct sim_dir *d = dp;
	if (d->pos >= d->len) return NULL;
	memset(&d->de, 0, sizeof d->de);
	d->de.d_type = (unsigned char)d->buf[d->pos++];
	strncpy(d->de.d_name, d->buf + d->pos, sizeof d->de.d_name - 1);
	d->pos += strlen(d->buf + d->pos) + 1;
	d->de.d_ino = d->pos; d->de.d_reclen = sizeof d->de;
	return &d->de;
}
struct dirent *sim_readdir64(void *dp) { return sim_readdir(dp); }
int sim_closedir(void *dp) { struct sim_dir *d = dp; free(d->buf); free(d); return 0; }
void sim_rewinddir(void *dp) { ((struct sim_dir *)dp)->pos = 0; }
int sim_dirfd(void *dp) { (void)dp; errno = ENOTSUP; return -1; }
int sim_scandir(const char *p, struct dirent ***out, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) {
	void *d = sim_opendir(p); if (!d) return -1;
	struct dirent **v = NULL, *e; int n = 0, cap = 0;
	while ((e = sim_readdir(d))) {
		if (f && !f(e)) continue;
		if (n == cap) { cap = cap ? 2 * cap : 8; struct dirent **w = sim_realloc(v, cap * sizeof *v); if (!w) goto oom; v = w; }
		v[n] = sim_malloc(sizeof *e); if (!v[n]) goto oom;
		memcpy(v[n++], e, sizeof *e);
	}
	sim_closedir(d);
	if (!v) v = sim_malloc(1);
	if (c && n > 1) qsort(v, n, sizeof *v, (int (*)(const void *, const void *))c);
	*out = v; return n;
oom:
	while (n--) sim_free(v[n]);
	sim_free(v); sim_closedir(d); errno = ENOMEM; return -1;
}
int sim_scandir64(const char *p, struct dirent ***out, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { return sim_scandir(p, out, f, c); }
static int nftw_rec(const char *p, int (*fn)(const char *, const struct stat *, int, struct FTW *), int fl, int lev) {
	struct stat st; struct FTW w; int r;
	const char *b = strrchr(p, '/'); w.base = b ? b + 1 - p : 0; w.level = lev;
	if ((fl & FTW_PHYS ? sim_lstat(p, &st) : sim_stat(p, &st)) < 0) return fn(p, &st, FTW_NS, &w);
	if (!S_ISDIR(st.st_mode)) return fn(p, &st, S_ISLNK(st.st_mode) ? FTW_SL : FTW_F, &w);
	if (!(fl & FTW_DEPTH) && (r = fn(p, &st, FTW_D, &w))) return r;
	void *d = sim_opendir(p); if (!d) return fn(p, &st, FTW_DNR, &w);
	struct dirent *e;
	while ((e = sim_readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		char q[PATH_MAX]; snprintf(q, sizeof q, "%s/%s", p, e->d_name);
		if ((r = nftw_rec(q, fn, fl, lev + 1))) { sim_closedir(d); return r; }
	}
	sim_closedir(d);
	if (fl & FTW_DEPTH) return fn(p, &st, FTW_DP, &w);
	return 0;
}
int sim_nftw(const char *p, int (*fn)(const char *, const struct stat *, int, struct FTW *), int n, int fl) { (void)n; return nftw_rec(p, fn, fl, 0); }

/* fortified variants */
void sim_chkfail(void) { rpcs(OP_NOTE, 0, "fortify: buffer overflow"); abort(); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t l) { if (n > l) sim_chkfail(); return sim_read(fd, b, n); }
ssize_t sim___pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { if (n > l) sim_chkfail(); return sim_pread(fd, b, n, o); }
ssize_t sim___pread64_chk(int fd, void *b, size_t n, off_t o, size_t l) { return sim___pread_chk(fd, b, n, o, l); }
ssize_t sim___readlink_chk(const char *p, char *b, size_t n, size_t l) { if (n > l) sim_chkfail(); return sim_readlink(p, b, n); }
char *sim___getcwd_chk(char *b, size_t n, size_t l) { if (n > l) sim_chkfail(); return sim_getcwd(b, n); }
char *sim___realpath_chk(const char *p, char *b, size_t l) { (void)l; return sim_realpath(p, b); }
int sim___open_2(const char *p, int fl) { return do_open(p, fl, 0); }
int sim___open64_2(const char *p, int fl) { return do_open(p, fl, 0); }
int sim___openat_2(int d, const char *p, int fl) { return sim_openat(d, p, fl); }
int sim___vasprintf_chk(char **r, int f, const char *fmt, va_list ap) { (void)f; return sim_vasprintf(r, fmt, ap); }
int sim___asprintf_chk(char **r, int f, const char *fmt, ...) { (void)f; va_list ap; va_start(ap, fmt); int n = sim_vasprintf(r, fmt, ap); va_end(ap); return n; }
char *sim___strdup(const char *s) { return sim_strdup(s); }

/* ------------------------------------------------------------------ stdio */
struct ck { int fd; };
static struct { FILE *f; int fd; } ftab[4096]; static int nft;
/* libc holds the lock of the stream during these: the kernel makes them without
   switching to another thread (which could wait for that lock out of its sight) */
static ssize_t ck_read(void *c, char *b, size_t n) { keep_turn = 1; ssize_t r = sim_read(((struct ck *)c)->fd, b, n); keep_turn = 0; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
	keep_turn = 1;
	size_t done = 0; /* as glibc's _IO_new_file_write: loop over short writes */
	while (done < n) { ssize_t r = sim_write(((struct ck *)c)->fd, b + done, n - done); if (r < 0) break; done += r; }
	keep_turn = 0;
	return done;
}
static int ck_seek(void *c, off64_t *o, int w) { keep_turn = 1; off_t r = sim_lseek(((struct ck *)c)->fd, *o, w); keep_turn = 0; if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int fd = ((struct ck *)c)->fd; free(c); keep_turn = 1; int r = sim_close(fd); keep_turn = 0; return r; }
static FILE *mkfile(int fd, const char *mode) {
	struct ck *c = malloc(sizeof *c); c->fd = fd;
	FILE *f = fopencookie(c, mode, (cookie_io_functions_t){ ck_read, ck_write, ck_seek, ck_close });
	if (!f) { free(c); return NULL; }
	int i; for (i = 0; i < nft; i++) if (!ftab[i].f) break;
	if (i == nft && nft < 4096) nft++;
	if (i < 4096) { ftab[i].f = f; ftab[i].fd = fd; }
	return f;
}
static int modefl(const char *m) {
	int fl; int plus = strchr(m, '+') != 0;
	switch (m[0]) { case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
	case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
	case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
	default: return -1; }
	if (strchr(m, 'x')) fl |= O_EXCL;
	return fl;
}
FILE *sim_fopen(const char *p, const char *m) {
	int fl = modefl(m); if (fl < 0) { errno = EINVAL; return NULL; }
	int fd = do_open(p, fl, 0666); if (fd < 0) return NULL;
	char mm[8]; int k = 0; mm[k++] = m[0]; if (strchr(m, '+')) mm[k++] = '+'; mm[k] = 0;
	FILE *f = mkfile(fd, mm); if (!f) sim_close(fd);
	return f;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *m) {
	if (rpc(OP_GETFL, A(fd)) < 0) return NULL;
	char mm[8]; int k = 0; mm[k++] = m[0]; if (strchr(m, '+')) mm[k++] = '+'; mm[k] = 0;
	return mkfile(fd, mm);
}
static int fidx(FILE *f) { for (int i = 0; i < nft; i++) if (ftab[i].f == f) return i; return -1; }
int sim_fileno(FILE *f) { int i = fidx(f); if (i < 0) { errno = EBADF; return -1; } return ftab[i].fd; }
int sim_fileno_unlocked(FILE *f) { return sim_fileno(f); }
int sim_fclose(FILE *f) { int i = fidx(f); if (i >= 0) ftab[i].f = NULL; return fclose(f); }
FILE *sim_freopen(const char *p, const char *m, FILE *f) {
	int i = fidx(f); if (i < 0) { errno = EBADF; return NULL; }
	fflush(f); int fd = do_open(p, modefl(m), 0666); if (fd < 0) return NULL;
	sim_dup2(fd, ftab[i].fd); sim_close(fd); return f;
}
FILE *sim_tmpfile(void) { static int n; char b[64]; snprintf(b, sizeof b, "/tmp/tmpf.%d.%d", (int)rpc(OP_GETPID, 0), n++); FILE *f = sim_fopen(b, "w+x"); if (f) sim_unlink(b); return f; }
FILE *sim_popen(const char *c, const char *m) { (void)c; (void)m; rpcs(OP_NOTE, 0, "popen not simulated"); errno = ENOSYS; return NULL; }
int sim_pclose(FILE *f) { (void)f; return -1; }
int sim_system(const char *c) { (void)c; rpcs(OP_NOTE, 0, "system not simulated"); errno = ENOSYS; return -1; }
ssize_t sim_getdelim(char **l, size_t *n, int dl, FILE *f) {
	size_t k = 0; int c;
	if (!*l) *n = 0;
	if (!*l || !*n) { char *q = sim_realloc(*l, 120); if (!q) return -1; *l = q; *n = 120; }
	while ((c = getc(f)) != EOF) {
		if (k + 2 > *n) { char *q = sim_realloc(*l, *n * 2); if (!q) return -1; *l = q; *n *= 2; }
		(*l)[k++] = c;
		if (c == dl) break;
	}
	if (c == EOF && (k == 0 || ferror(f))) { if (k < *n) (*l)[k] = 0; return -1; }
	(*l)[k] = 0; return k;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
ssize_t sim___getdelim(char **l, size_t *n, int d, FILE *f) { return sim_getdelim(l, n, d, f); }
static int mktmpl(char *t, int sl, int dir) {
	size_t n = strlen(t); if (n < (size_t)(6 + sl)) { errno = EINVAL; return -1; }
	char *x = t + n - sl - 6;
	for (int k = 0; k < 100; k++) {
		unsigned long long v = (unsigned long long)rpc(OP_RANDOM, 0) & 0x7fffffffffffffffULL;
		for (int i = 0; i < 6; i++) { x[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[v % 36]; v /= 36; }
		int r = dir ? sim_mkdir(t, 0700) : do_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
		if (r >= 0) return r;
		if (errno != EEXIST) return -1;
	}
	errno = EEXIST; return -1;
}
int sim_mkstemp(char *t) { return mktmpl(t, 0, 0); }
int sim_mkstemp64(char *t) { return mktmpl(t, 0, 0); }
int sim_mkostemp(char *t, int f) { (void)f; return mktmpl(t, 0, 0); }
int sim_mkstemps(char *t, int s) { return mktmpl(t, s, 0); }
char *sim_mkdtemp(char *t) { return mktmpl(t, 0, 1) < 0 ? NULL : t; }

/* -------------------------------------------------------------- processes */
static void do_exit_note(void) { if (P.asites && !is_child) send_sites(); rpc(OP_EXITNOTE, A(live_blocks, live_bytes, n_allocs, steps, peak_bytes)); }
void sim_exit(int c) { do_exit_note(); exit(c); }
void sim__exit(int c) { do_exit_note(); _exit(c); }
void sim__Exit(int c) { do_exit_note(); _exit(c); }
void sim_quick_exit(int c) { do_exit_note(); _exit(c); }
void sim_abort(void) { do_exit_note(); signal(SIGABRT, SIG_DFL); abort(); }
pid_t sim_fork(void) {
	/* kernel: may refuse; otherwise a new channel is passed with the reply */
	passed_fd = -1;
	int64_t pid = rpc(OP_FORK, 0);
	if (pid < 0) return -1;
	int nfd = passed_fd;
	long r = syscall(SYS_clone, 0x00008000 | SIGCHLD, 0, 0, 0, 0);
	if (r < 0) die("clone failed");
	if (r == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(chan); chan = nfd; main_chan = nfd; is_child = 1;
		rpc(OP_HELLO, A(getpid(), 1));
		return 0;
	}
	close(nfd);
	rpc(OP_FORKED, A(pid, r));
	return (pid_t)pid;
}
pid_t sim_vfork(void) { return sim_fork(); }
pid_t sim_waitpid(pid_t p, int *st, int opt) {
	int s[1]; size_t l;
	int64_t r = rpc2(OP_WAITPID, A(p, opt), 0, 0, 0, 0, s, sizeof s, &l);
	if (r > 0 && st && l == sizeof s) *st = s[0];
	return (pid_t)r;
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
pid_t sim_wait4(pid_t p, int *st, int o, void *ru) { (void)ru; return sim_waitpid(p, st, o); }
int sim_waitid(int t, int id, siginfo_t *si, int o) {
	int st; pid_t r = sim_waitpid(t == P_ALL ? -1 : id, &st, (o & WNOHANG) | (o & WUNTRACED) | (o & WCONTINUED));
	if (r < 0) return -1;
	memset(si, 0, sizeof *si); if (!r) return 0;
	si->si_pid = r; si->si_signo = SIGCHLD;
	if (WIFEXITED(st)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS(st); }
	else if (WIFSIGNALED(st)) { si->si_code = CLD_KILLED; si->si_status = WTERMSIG(st); }
	else if (WIFSTOPPED(st)) { si->si_code = CLD_STOPPED; si->si_status = WSTOPSIG(st); }
	else { si->si_code = CLD_CONTINUED; si->si_status = SIGCONT; }
	return 0;
}
pid_t sim_getpid(void) { return (pid_t)rpc(OP_GETPID, 0); }
pid_t sim_getppid(void) { return (pid_t)rpc(OP_GETPPID, 0); }
int sim_kill(pid_t p, int sig) {
	int64_t r = rpc(OP_KILL, A(p, sig));
	if (r == 1) { raise(sig); return 0; } /* self, terminating or handled */
	return (int)r;
}
int sim_raise(int sig) { return sim_kill(sim_getpid(), sig); }
int sim_execve(const char *p, char *const *a, char *const *e) { (void)p; (void)a; (void)e; rpcs(OP_NOTE, 0, "execve not simulated"); errno = ENOSYS; return -1; }
int sim_execv(const char *p, char *const *a) { return sim_execve(p, a, 0); }
int sim_execvp(const char *p, char *const *a) { return sim_execve(p, a, 0); }
unsigned sim_alarm(unsigned s) { (void)s; return 0; }
int sim_pause(void) { rpc(OP_SLEEP, A(1000000000)); errno = EINTR; return -1; }

/* ------------------------------------------------------------------- time */
static int64_t nowus(void) { return rpc(OP_TIME, 0); }
time_t sim_time(time_t *t) { time_t v = nowus() / 1000000; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; int64_t u = nowus(); tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; int64_t u = nowus(); ts->tv_sec = u / 1000000; ts->tv_nsec = u % 1000000 * 1000; return 0; }
clock_t sim_clock(void) { return (clock_t)(steps / 100); }
int sim_nanosleep(const struct timespec *t, struct timespec *r) { if (r) r->tv_sec = r->tv_nsec = 0; return (int)rpc(OP_SLEEP, A(t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
int sim_usleep(useconds_t u) { return (int)rpc(OP_SLEEP, A(u)); }
unsigned sim_sleep(unsigned s) { rpc(OP_SLEEP, A((int64_t)s * 1000000)); return 0; }
int sim_sched_yield(void) { rpc(OP_YIELD, A(1)); return 0; }

/* ------------------------------------------------------------ memory, dl */
int sim_mprotect(void *p, size_t n, int pr) { if (rpc(OP_MPROTECT, A(n, pr)) < 0) return -1; return mprotect(p, n, pr); }
void *sim_mmap(void *p, size_t n, int pr, int fl, int fd, off_t o) {
	if (rpc(OP_MMAP, A(n, pr, fl)) < 0) return MAP_FAILED;
	if (fl & MAP_ANONYMOUS) return mmap(p, n, pr, fl, -1, o);
	/* file mapping: private copy of the simulated file */
	char *q = mmap(p, n, PROT_READ | PROT_WRITE, (fl & MAP_FIXED) | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (q == MAP_FAILED) return q;
	size_t k = 0; ssize_t r;
	while (k < n && (r = sim_pread(fd, q + k, n - k, o + k)) > 0) k += r;
	mprotect(q, n, pr); return q;
}
void *sim_mmap64(void *p, size_t n, int pr, int fl, int fd, off_t o) { return sim_mmap(p, n, pr, fl, fd, o); }
int sim_munmap(void *p, size_t n) { return munmap(p, n); }
static long dl_live; /* libraries the code under test holds open */
long sim_dl_live(void) { return dl_live; }
static void *dl_count(void *h) { if (h) dl_live++; return h; }
void *sim_dlopen(const char *f, int fl) {
	static char buf[8 << 20]; size_t l = 0;
	if (!f) return dl_count(dlopen(NULL, fl));
	int64_t r = rpc2(OP_DLOPEN, A(0), f, strlen(f) + 1, 0, 0, buf, sizeof buf, &l);
	if (r < 0) { dlopen("/nonexistent/simulated-failure.so", RTLD_LAZY); return NULL; }
	if (r == 1) { /* a simulated file */
		int fd = memfd_create("simlib", 0);
		(void)!write(fd, buf, l);
		char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
		return dl_count(dlopen(p, fl)); /* kept open: the loader knows libraries by name */
	}
	return dl_count(dlopen(f, fl));
}
int sim_dlclose(void *h) { dl_live--; return dlclose(h); }

/* ------------------------------------------------------- threads and locks */
int sim_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; return (int)rpc(OP_SEMINIT, A((int64_t)s, v)); }
int sim_sem_destroy(sem_t *s) { (void)s; return 0; }
int sim_sem_wait(sem_t *s) { return (int)rpc(OP_SEMWAIT, A((int64_t)s)); }
int sim_sem_trywait(sem_t *s) { return (int)rpc(OP_SEMTRY, A((int64_t)s)); }
int sim_sem_post(sem_t *s) { return (int)rpc(OP_SEMPOST, A((int64_t)s)); }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; memset(m, 0, sizeof *m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return (int)rpc(OP_MUTEXLOCK, A((int64_t)m, 1)) < 0 ? errno : 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return (int)rpc(OP_MUTEXLOCK, A((int64_t)m, 0)) < 0 ? errno : 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return (int)rpc(OP_MUTEXUNLOCK, A((int64_t)m)) < 0 ? errno : 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
struct thr { int fd; void *(*fn)(void *); void *arg, *ret; pthread_t t; int id; };
static struct thr thrs[256];
static void *thr_main(void *v) {
	struct thr *t = v; chan = t->fd;
	rpc(OP_HELLO, A(0, 2));
	t->ret = t->fn(t->arg);
	rpc(OP_THREADEXIT, A(t->id));
	return NULL;
}
int sim_pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	(void)at; passed_fd = -1;
	int64_t id = rpc(OP_THREAD, 0);
	if (id < 0) return errno;
	struct thr *t = &thrs[id % 256];
	t->fd = passed_fd; t->fn = fn; t->arg = arg; t->id = (int)id; threaded = 1;
	if (!next_yield && P.preempt) plan_yield();
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
	if (pthread_create(&t->t, &a, thr_main, t)) die("pthread_create failed");
	rpc(OP_YIELD, A(2));
	*pt = (pthread_t)id; return 0;
}
int sim_pthread_join(pthread_t pt, void **r) {
	if (rpc(OP_THREADJOIN, A((int64_t)pt)) < 0) return errno;
	struct thr *t = &thrs[pt % 256];
	pthread_join(t->t, NULL); close(t->fd);
	if (r) *r = t->ret; return 0;
}
int sim_pthread_detach(pthread_t p) { (void)p; return 0; }
pthread_t sim_pthread_self(void) { return pthread_self(); }

/* -------------------------------------------------------------- dlsym table */
struct simsym { const char *n; void *p; };
void *sim_dlsym(void *h, const char *n);
static const struct simsym simtab[] = {
#define S(x) { #x, (void *)sim_##x },
#include "simtab.h"
#undef S
	{ 0, 0 }
};
void sim_note(const char *s) { rpcs(OP_NOTE, 0, s); }
void *sim_dlsym(void *h, const char *n) {
	if (!strcmp(n, "sim_note")) return (void *)sim_note;
	if (!strcmp(n, "dlsym")) return (void *)sim_dlsym;
	for (const struct simsym *s = simtab; s->n; s++) if (!strcmp(s->n, n)) return s->p;
	return dlsym(h, n);
}

/* ----------------------------------------------------------------- zygote */
extern int actor_main(int argc, char **argv);
extern char **environ;
static void on_crash(int sig, siginfo_t *si, void *uc) { /* debugging aid: where did it die */
	greg_t *g = ((ucontext_t *)uc)->uc_mcontext.gregs;
	dprintf(2, "signal %d at %p, rip %p rsp %p\n", sig, si->si_addr, (void *)g[REG_RIP], (void *)g[REG_RSP]);
	void *b[40]; int n = backtrace(b, 40);
	backtrace_symbols_fd(b, n, 2);
	signal(sig, SIG_DFL); raise(sig);
}
static void setparams(char *p) {
	for (char *s = strtok(p, ","); s; s = strtok(NULL, ",")) {
		char *e = strchr(s, '='); if (!e) continue; *e++ = 0;
		unsigned long long v = strtoull(e, 0, 10);
#define K(f) if (!strcmp(s, #f)) P.f = v;
		K(garbage) K(guard) K(allocfail) K(allocfailafter) K(memlimit) K(maxsteps) K(preempt) K(preseed) K(childfail) K(ttyout) K(shift) K(btrace) K(preburst) K(pregap) K(asites) K(smear)
#undef K
	}
	rngs = P.preseed * 2 + 0x9E3779B97F4A7C15ULL;
}
int main(int argc, char **argv) {
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		personality(ADDR_NO_RANDOMIZE);
		char *env[] = { "LC_ALL=C", "TZ=UTC", "LD_BIND_NOW=1", 0 };
		char *av[] = { "actor", argc > 1 ? argv[1] : "3", argc > 2 ? argv[2] : "-1", 0 };
		execve("/proc/self/exe", av, env);
		die("exec failed");
	}
	int ctl = atoi(argv[1]), cov = atoi(argv[2]);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (cov >= 0) { covmap = mmap(0, SIM_COVBITS, PROT_READ | PROT_WRITE, MAP_SHARED, cov, 0); if (covmap == MAP_FAILED) covmap = NULL; }
	if (mmap(ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) die("arena");
	if (mmap(GARENA, GARENASZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) die("garena");
	struct rlimit nc = { 0, 0 }; setrlimit(RLIMIT_CORE, &nc);
	signal(SIGPIPE, SIG_DFL); signal(SIGCHLD, SIG_DFL);
	int dn = open("/dev/null", O_RDWR);
	dup2(dn, 0); dup2(dn, 1); close(dn);
	for (;;) {
		uint32_t len;
		passed_fd = -1;
		xrecv(ctl, &len, sizeof len);
		char *blob = malloc(len + 1); xrecv(ctl, blob, len); blob[len] = 0;
		int nfd = passed_fd;
		if (nfd < 0) die("no channel passed");
		long r = syscall(SYS_clone, 0x00008000 | SIGCHLD, 0, 0, 0, 0);
		if (r < 0) die("clone failed");
		if (r) { close(nfd); free(blob); int32_t pid = (int32_t)r; xsend(ctl, &pid, sizeof pid); continue; }
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(ctl); chan = main_chan = nfd;
		char *q = blob, *params = q; q += strlen(q) + 1;
		int ac = atoi(q); q += strlen(q) + 1;
		char **av = calloc(ac + 1, sizeof *av);
		for (int i = 0; i < ac; i++) { av[i] = q; q += strlen(q) + 1; }
		int ec = atoi(q); q += strlen(q) + 1;
		clearenv();
		static char *noenv[1]; environ = noenv;
		for (int i = 0; i < ec; i++) { putenv(q); q += strlen(q) + 1; }
		setparams(params);
		/* glibc's own standard streams are replaced by simulated ones */
		nft = 0;
		stdin = mkfile(0, "r"); stdout = mkfile(1, "w"); stderr = mkfile(2, "w");
		setvbuf(stderr, NULL, _IONBF, 0);
		if (P.ttyout) setvbuf(stdout, NULL, _IOLBF, 0);
		rpc(OP_HELLO, A(getpid(), 0));
		if (P.btrace) {
			static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
			struct sigaction sa = { .sa_sigaction = on_crash, .sa_flags = SA_SIGINFO | SA_ONSTACK };
			sigaltstack(&ss, NULL);
			sigaction(SIGSEGV, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
		}
		if (P.shift) { /* other addresses for heap, mappings and stack */
			brkp += P.shift * 16; gbrk += P.shift / 3 * 4096;
			mmap(NULL, (P.shift % 5000 + 1) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			volatile char *pad = __builtin_alloca(P.shift % 9000 * 16 + 16); pad[0] = 1;
		}
		int rc = actor_main(ac, av);
		sim_exit(rc);
	}
}
