// The seams: allocator, file system, clocks, threads; and the executor that runs a plan on the real code.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "host.h"
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real___cxa_guard_acquire(int64_t *);
void __real___cxa_guard_release(int64_t *);
void __real___cxa_guard_abort(int64_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_rand(void);
unsigned __real_alarm(unsigned);
int __real_setitimer(int, const void *, void *);
char *__real_getenv(const char *);
long __real_random(void);
int __real_getpid(void);
clock_t __real_clock(void);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
}

static thread_local int in_sut = 0;
static thread_local int no_switch = 0;
struct Out { // harness code running inside a hook
	int s;
	Out() : s(in_sut) { in_sut = 0; }
	~Out() { in_sut = s; }
};

struct LiveFault {
	Fault f;
	long left = -1; // -1 not triggered yet
};
struct VFile {
	std::string name;
	int memfd;
	std::string prev;
	bool existed_prev = false, touched = false, removed = false;
};
struct Block { // guard mode bookkeeping
	char *base;
	size_t total, size;
	bool owned, live, hard;
};

static struct G {
	bool active = false;
	uint64_t edges = 0, next_event = ~0ull, op_limit = ~0ull;
	const Plan *plan = nullptr;
	const Env *env = nullptr;
	Trace *tr = nullptr;
	Shared *sh = nullptr;
	int outfd = -1;
	int curop = -1;
	OpRec *rec = nullptr;
	std::vector<LiveFault> faults;
	bool faults_on = true;
	// heap
	char *arena = nullptr, *brk = nullptr, *end = nullptr;
	std::map<size_t, std::deque<char *>> freelist;
	std::map<char *, Block> gblocks;
	long live_bytes = 0, live_blocks = 0;
	uint64_t nalloc = 0, nrand = 0, ntimer = 0, nguard = 0;
	// files
	std::map<std::string, VFile *> files;
	std::map<int, VFile *> fds;
	// threads
	bool sched = false;
	int nthr = 0, baton = 0;
	std::vector<sem_t *> sems;
	std::vector<bool> done;
	size_t swi = 0;
	uint64_t next_switch = ~0ull;
} G;

static void finish(int outcome, const std::string &note) __attribute__((noreturn));

// ---------------------------------------------------------------- memory contents
static void fill(void *p, size_t n, uint64_t salt)
{
	unsigned char *c = (unsigned char *)p;
	int mode = G.env ? G.env->dirt : 0;
	uint64_t w = 0;
	Rng r(mix64(G.env ? G.env->dseed : 0, salt));
	switch (mode) {
	case 0: memset(p, 0, n); return;
	case 1: memset(p, 0xFF, n); return;
	case 2: w = 0x7E37E43C8800759Cull; break; // 1e300
	case 3: break;                              // random doubles
	case 4: break;                              // small integers
	case 5: break;                              // random bits
	case 6: return;                             // stale
	case 7: memset(p, 0x01, n); return;
	case 8: w = 0x3FF0000000000000ull; break; // 1.0
	}
	for (size_t i = 0; i < n; i += 8) {
		if (mode == 3) {
			double d = r.uni(-1, 1) * pow(10, r.uni(-8, 4));
			memcpy(&w, &d, 8);
		} else if (mode == 4)
			w = (r.next() & 63) | ((r.next() & 63) << 32);
		else if (mode == 5)
			w = r.next();
		memcpy(c + i, &w, n - i < 8 ? n - i : 8);
	}
}

static __attribute__((noinline)) void dirty_stack()
{
	char buf[48 * 1024];
	asm volatile("" : : "r"(buf) : "memory");
	fill(buf, sizeof buf, 0x57ac + G.curop);
	asm volatile("" : : "r"(buf) : "memory");
}

// ---------------------------------------------------------------- heap
static const uint64_t MAGIC = 0xA110C8EDB10CC0DEull, FREED = 0xDEADF7EEDB10CC00ull;
struct Hdr {
	uint64_t magic;
	uint64_t size;
	uint64_t owned;
	uint64_t pad;
};
static const size_t TAIL = 16;

static void arena_init()
{
	size_t len = 16ull << 30;
	char *want = (char *)(0x100000000000ull + (uint64_t)G.env->shift * 4096 * 17);
	G.arena = (char *)mmap(want, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (G.arena == MAP_FAILED)
		G.arena = (char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (G.arena == MAP_FAILED)
		_exit(97);
	G.brk = G.arena + 64 * (G.env->shift % 7);
	G.end = G.arena + len;
}
static inline bool in_arena(const void *p) { return G.arena && (char *)p >= G.arena && (char *)p < G.end; }

static bool fault_hits(LiveFault &lf, long counter, bool match)
{
	if (!match || !G.faults_on)
		return false;
	if (lf.left < 0) {
		if (lf.f.opid != G.curop || counter != lf.f.nth)
			return false;
		lf.left = lf.f.len;
	}
	if (lf.left == 0)
		return false;
	lf.left--;
	if (G.rec)
		G.rec->fired++;
	G.tr->stat["fault." + lf.f.kind]++;
	return true;
}

static bool alloc_fails()
{
	long c = G.rec ? G.rec->al : 0;
	if (G.rec)
		G.rec->al++;
	if (!G.env->allocfaults)
		return false;
	bool bad = false;
	for (auto &f : G.faults)
		if (f.f.kind == "alloc" && fault_hits(f, c, true))
			bad = true;
	return bad;
}

static void *sim_alloc(size_t n, bool owned, size_t align = 16)
{
	Out o;
	if (owned && alloc_fails())
		return nullptr;
	uint64_t salt = 0x1000 + G.nalloc++;
	if (n > (1ull << 33))
		return nullptr;
	char *p;
	if (G.env->guard) {
		size_t pg = 4096, body = ((n ? n : 1) + pg - 1) / pg * pg;
		if (align > 16 && align < pg)
			body += align;
		body = (body + pg - 1) / pg * pg;
		char *b = (char *)(((uintptr_t)G.brk + pg - 1) / pg * pg);
		if (b + body + 2 * pg > G.end)
			finish(OUT_HARNESS, "arena exhausted");
		G.brk = b + body + pg; // the trailing guard is the next leading one
		bool hard = ++G.nguard < 12000; // the kernel limits the number of mappings: later blocks only have canaries
		if (hard) {
			mprotect(b, pg, PROT_NONE);
			mprotect(b + pg + body, pg, PROT_NONE);
		}
		char *d = b + pg;
		bool left = (salt * 0x9E3779B97F4A7C15ull >> 61) == 0; // one in eight is aligned to catch underflow
		p = left ? d : d + body - ((n ? n : 1) + align - 1) / align * align;
		memset(d, 0xC5, body);
		fill(p, n, salt);
		Block bl = {d, body, n, owned, true, hard};
		G.gblocks[p] = bl;
	} else {
		size_t need = (sizeof(Hdr) + n + TAIL + 15) / 16 * 16;
		if (align > 16)
			need += align;
		auto &fl = G.freelist[need];
		if (align <= 16 && fl.size() > 3) {
			p = fl.front();
			fl.pop_front();
		} else {
			p = (char *)(((uintptr_t)G.brk + 15) / 16 * 16) + sizeof(Hdr);
			if (align > 16)
				p = (char *)(((uintptr_t)p + align - 1) / align * align);
			G.brk = p - sizeof(Hdr) + need;
			if (G.brk > G.end)
				finish(OUT_HARNESS, "arena exhausted");
		}
		Hdr *h = (Hdr *)(p - sizeof(Hdr));
		h->magic = MAGIC;
		h->size = n;
		h->owned = owned;
		h->pad = 0xC5C5C5C5C5C5C5C5ull;
		fill(p, n, salt);
		memset(p + n, 0xC5, TAIL);
	}
	if (owned) {
		G.live_bytes += n;
		G.live_blocks++;
	}
	return p;
}

static void check_block(char *p, size_t *size, bool *owned, const char *what)
{
	if (G.env->guard) {
		auto it = G.gblocks.find(p);
		if (it == G.gblocks.end())
			finish(OUT_HEAP, fmt("%s of an address that is no block", what));
		Block &b = it->second;
		if (!b.live)
			finish(OUT_HEAP, fmt("%s of a block already released", what));
		for (char *q = b.base; q < p; q++)
			if ((unsigned char)*q != 0xC5)
				finish(OUT_HEAP, "write before a block");
		for (char *q = p + b.size; q < b.base + b.total; q++)
			if ((unsigned char)*q != 0xC5)
				finish(OUT_HEAP, "write past a block");
		*size = b.size;
		*owned = b.owned;
	} else {
		Hdr *h = (Hdr *)(p - sizeof(Hdr));
		if (h->magic == FREED)
			finish(OUT_HEAP, fmt("%s of a block already released", what));
		if (h->magic != MAGIC || h->pad != 0xC5C5C5C5C5C5C5C5ull)
			finish(OUT_HEAP, fmt("%s: header overwritten or not a block", what));
		for (size_t i = 0; i < TAIL; i++)
			if ((unsigned char)p[h->size + i] != 0xC5)
				finish(OUT_HEAP, "write past a block");
		*size = h->size;
		*owned = h->owned;
	}
}

static void sim_free(void *vp)
{
	Out o;
	char *p = (char *)vp;
	size_t n;
	bool owned;
	check_block(p, &n, &owned, "release");
	if (owned) {
		G.live_bytes -= n;
		G.live_blocks--;
	}
	if (G.env->guard) {
		Block &b = G.gblocks[p];
		b.live = false;
		madvise(b.base, b.total, MADV_DONTNEED);
		if (b.hard)
			mprotect(b.base, b.total, PROT_NONE);
	} else {
		Hdr *h = (Hdr *)(p - sizeof(Hdr));
		h->magic = FREED;
		if (G.env->dirt != 6)
			memset(p, 0xDB, n);
		size_t need = (sizeof(Hdr) + n + TAIL + 15) / 16 * 16;
		G.freelist[need].push_back(p);
	}
}

static size_t block_size(void *p)
{
	size_t n;
	bool ow;
	check_block((char *)p, &n, &ow, "use");
	return n;
}

static bool simmed() { return G.active && in_sut > 0; }

extern "C" {
void *__wrap_malloc(size_t n) { return simmed() ? sim_alloc(n, true) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
	if (!simmed())
		return __real_calloc(a, b);
	if (b && a > SIZE_MAX / b)
		return nullptr;
	void *p = sim_alloc(a * b, true);
	if (p)
		memset(p, 0, a * b);
	return p;
}
void __wrap_free(void *p)
{
	if (!p)
		return;
	if (in_arena(p))
		sim_free(p);
	else
		__real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
	if (p ? !in_arena(p) : !simmed())
		return __real_realloc(p, n);
	if (!p)
		return sim_alloc(n, true);
	void *q = sim_alloc(n, true);
	if (!q)
		return nullptr;
	size_t o = block_size(p);
	memcpy(q, p, o < n ? o : n);
	sim_free(p);
	return q;
}
int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
	if (!simmed())
		return __real_posix_memalign(r, al, n);
	void *p = sim_alloc(n, true, al < 16 ? 16 : al);
	if (!p)
		return ENOMEM;
	*r = p;
	return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n)
{
	return simmed() ? sim_alloc(n, true, al < 16 ? 16 : al) : __real_aligned_alloc(al, n);
}
}

static void *cxx_new(size_t n, size_t al, bool nothrow)
{
	void *p = simmed() ? sim_alloc(n, true, al < 16 ? 16 : al) : (al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1));
	if (!p && !nothrow)
		throw std::bad_alloc();
	return p;
}
static void cxx_del(void *p) { __wrap_free(p); }
void *operator new(size_t n) { return cxx_new(n, 16, false); }
void *operator new[](size_t n) { return cxx_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return cxx_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return cxx_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return cxx_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return cxx_new(n, (size_t)a, false); }
void operator delete(void *p) noexcept { cxx_del(p); }
void operator delete[](void *p) noexcept { cxx_del(p); }
void operator delete(void *p, size_t) noexcept { cxx_del(p); }
void operator delete[](void *p, size_t) noexcept { cxx_del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { cxx_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { cxx_del(p); }
void operator delete(void *p, std::align_val_t) noexcept { cxx_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { cxx_del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { cxx_del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { cxx_del(p); }

// ---------------------------------------------------------------- file system
static std::string file_content(VFile *f)
{
	struct stat st;
	std::string s;
	if (fstat(f->memfd, &st))
		return s;
	s.resize(st.st_size);
	size_t o = 0;
	while (o < s.size()) {
		ssize_t k = pread(f->memfd, &s[o], s.size() - o, o);
		if (k <= 0)
			break;
		o += k;
	}
	return s;
}

enum { EV_OPEN = 0, EV_WRITE = 1, EV_CLOSE = 2 };
static const Fault *io_event(int type)
{
	long c = 0;
	if (G.rec)
		c = G.rec->ioc[type]++;
	G.tr->stat[type == EV_OPEN ? "io.open" : type == EV_WRITE ? "io.write" : "io.close"]++;
	if (!G.env->iofaults)
		return nullptr;
	const Fault *hit = nullptr;
	for (auto &f : G.faults) {
		const std::string &k = f.f.kind;
		bool m = (type == EV_OPEN && (k == "open" || k == "crasho")) ||
		         (type == EV_WRITE && (k == "eio" || k == "enospc" || k == "short" || k == "eintr" || k == "crash")) ||
		         (type == EV_CLOSE && (k == "close" || k == "crashc"));
		if (fault_hits(f, c, m) && !hit)
			hit = &f.f;
	}
	return hit;
}

static bool sim_path(const char *p)
{
	return simmed() && p && strncmp(p, "/usr/", 5) && strncmp(p, "/etc/", 5) && strncmp(p, "/proc/", 6) && strncmp(p, "/dev/", 5) && strncmp(p, "/sys/", 5);
}

static VFile *get_file(const std::string &name, bool create)
{
	auto it = G.files.find(name);
	if (it != G.files.end() && !it->second->removed)
		return it->second;
	if (!create)
		return nullptr;
	VFile *f = it != G.files.end() ? it->second : new VFile;
	f->name = name;
	f->removed = false;
	f->memfd = syscall(SYS_memfd_create, "vfile", 0);
	if (f->memfd < 0)
		finish(OUT_HARNESS, "memfd");
	f->touched = true;
	G.files[name] = f;
	return f;
}

static int sim_open(const char *path, int flags)
{
	Out o;
	const Fault *ft = io_event(EV_OPEN);
	if (ft && ft->kind == "crasho" && ft->arg < 0.5)
		finish(OUT_CRASHED, fmt("crash before opening %s", path));
	if (ft && ft->kind == "open") {
		errno = ft->arg < 0.34 ? EACCES : ft->arg < 0.67 ? EMFILE : ENOSPC;
		return -1;
	}
	VFile *f = get_file(path, flags & O_CREAT);
	if (!f) {
		errno = ENOENT;
		return -1;
	}
	char pr[64];
	snprintf(pr, sizeof pr, "/proc/self/fd/%d", f->memfd);
	int fd = syscall(SYS_openat, AT_FDCWD, pr, (flags & ~(O_CREAT | O_EXCL)), 0600);
	if (fd < 0)
		finish(OUT_HARNESS, fmt("reopen of memfd: %s", strerror(errno)));
	if (flags & O_TRUNC)
		f->touched = true;
	G.fds[fd] = f;
	if (ft && ft->kind == "crasho")
		finish(OUT_CRASHED, fmt("crash after opening %s", path));
	return fd;
}

typedef FILE *(*fopen_t)(const char *, const char *);
typedef int (*fclose_t)(FILE *);

static FILE *do_fopen(const char *path, const char *mode)
{
	static fopen_t real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
	if (!sim_path(path))
		return real(path, mode);
	int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
	if (mode[0] == 'w')
		fl |= O_CREAT | O_TRUNC;
	if (mode[0] == 'a')
		fl |= O_CREAT | O_APPEND;
	int fd = sim_open(path, fl);
	if (fd < 0)
		return nullptr;
	Out o;
	return fdopen(fd, mode);
}

static int sim_closed(int fd)
{
	Out o;
	G.fds.erase(fd);
	const Fault *ft = io_event(EV_CLOSE);
	if (ft && ft->kind == "crashc")
		finish(OUT_CRASHED, "crash at close");
	return ft && ft->kind == "close";
}

static ssize_t sim_write(int fd, const struct iovec *v, int nv)
{
	Out o;
	VFile *f = G.fds[fd];
	const Fault *ft = io_event(EV_WRITE);
	size_t n = 0;
	for (int i = 0; i < nv; i++)
		n += v[i].iov_len;
	if (ft && ft->kind == "eio") {
		errno = EIO;
		return -1;
	}
	if (ft && ft->kind == "enospc") {
		errno = ENOSPC;
		return -1;
	}
	if (ft && ft->kind == "eintr") {
		errno = EINTR;
		return -1;
	}
	std::string s;
	for (int i = 0; i < nv; i++)
		s.append((const char *)v[i].iov_base, v[i].iov_len);
	size_t m = n;
	if (ft && ft->kind == "short" && n > 1)
		m = 1 + (size_t)(ft->arg * (n - 1));
	if (ft && ft->kind == "crash")
		m = (size_t)(ft->arg * n);
	size_t d = 0;
	while (d < m) {
		ssize_t k = syscall(SYS_write, fd, s.data() + d, m - d);
		if (k <= 0) {
			if (ft && ft->kind == "crash")
				break;
			return k;
		}
		d += k;
	}
	f->touched = true;
	if (ft && ft->kind == "crash")
		finish(OUT_CRASHED, fmt("crash in a write to %s after %zu of %zu bytes", f->name.c_str(), m, n));
	return m;
}

// C stdio used by the library itself (file streams of the C++ library come through fopen and write below): libc's own
// writes cannot be interposed, so the stream is one whose reads and writes are ours. Short writes are continued, as libc does.
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	size_t d = 0;
	while (d < n) {
		struct iovec v = {(void *)(b + d), n - d};
		ssize_t k = sim_write((int)(intptr_t)c, &v, 1);
		if (k < 0 && errno == EINTR)
			continue;
		if (k <= 0)
			break;
		d += k;
	}
	return d;
}
static int ck_seek(void *c, off64_t *o, int w)
{
	off64_t k = syscall(SYS_lseek, (int)(intptr_t)c, *o, w);
	if (k < 0)
		return -1;
	*o = k;
	return 0;
}
static int ck_close(void *c)
{
	int fd = (int)(intptr_t)c, bad = sim_closed(fd);
	syscall(SYS_close, fd);
	if (bad)
		errno = EIO;
	return bad ? -1 : 0;
}
static FILE *lib_fopen(const char *path, const char *mode)
{
	static fopen_t real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
	if (!sim_path(path))
		return real(path, mode);
	int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
	if (mode[0] == 'w')
		fl |= O_CREAT | O_TRUNC;
	if (mode[0] == 'a')
		fl |= O_CREAT | O_APPEND;
	int fd = sim_open(path, fl);
	if (fd < 0)
		return nullptr;
	Out o;
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	return fopencookie((void *)(intptr_t)fd, mode, io);
}

extern "C" {
FILE *__wrap_fopen(const char *path, const char *mode) { return lib_fopen(path, mode); }
FILE *__wrap_fopen64(const char *path, const char *mode) { return lib_fopen(path, mode); }
FILE *fopen(const char *path, const char *mode) { return do_fopen(path, mode); }
FILE *fopen64(const char *path, const char *mode) { return do_fopen(path, mode); }
int fclose(FILE *f)
{
	static fclose_t real = (fclose_t)dlsym(RTLD_NEXT, "fclose");
	if (!G.active)
		return real(f);
	int fd;
	bool ours;
	{
		Out o;
		fd = fileno(f);
		ours = G.fds.count(fd);
	}
	if (!ours)
		return real(f);
	{
		Out o;
		fflush(f);
	}
	int bad = sim_closed(fd);
	int r;
	{
		Out o;
		r = real(f);
	}
	if (bad) {
		errno = EIO;
		return EOF;
	}
	return r;
}
int open(const char *path, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	if (sim_path(path))
		return sim_open(path, flags);
	return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	if (sim_path(path))
		return sim_open(path, flags);
	return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int close(int fd)
{
	int bad = 0;
	bool ours = false;
	if (G.active) {
		Out o;
		ours = G.fds.count(fd);
	}
	if (ours)
		bad = sim_closed(fd);
	int r = syscall(SYS_close, fd);
	if (bad) {
		errno = EIO;
		return -1;
	}
	return r;
}
ssize_t write(int fd, const void *p, size_t n)
{
	bool ours = false;
	if (G.active) {
		Out o;
		ours = G.fds.count(fd);
	}
	if (!ours)
		return syscall(SYS_write, fd, p, n);
	struct iovec v = {(void *)p, n};
	return sim_write(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int nv)
{
	bool ours = false;
	if (G.active) {
		Out o;
		ours = G.fds.count(fd);
	}
	if (!ours)
		return syscall(SYS_writev, fd, v, nv);
	return sim_write(fd, v, nv);
}
static void count_read(int fd, ssize_t n)
{
	if (G.active && n > 0) {
		Out o;
		if (G.rec && G.fds.count(fd))
			G.rec->rd += n;
	}
}
ssize_t read(int fd, void *p, size_t n)
{
	ssize_t k = syscall(SYS_read, fd, p, n);
	count_read(fd, k);
	return k;
}
static int sim_remove(const char *p)
{
	Out o;
	VFile *f = get_file(p, false);
	if (!f) {
		errno = ENOENT;
		return -1;
	}
	f->removed = true;
	f->touched = true;
	return 0;
}
int remove(const char *p)
{
	if (sim_path(p))
		return sim_remove(p);
	return syscall(SYS_unlink, p);
}
int unlink(const char *p)
{
	if (sim_path(p))
		return sim_remove(p);
	return syscall(SYS_unlink, p);
}
int rename(const char *a, const char *b)
{
	if (!sim_path(a))
		return syscall(SYS_rename, a, b);
	Out o;
	VFile *f = get_file(a, false);
	if (!f) {
		errno = ENOENT;
		return -1;
	}
	VFile *t = get_file(b, true);
	t->memfd = f->memfd;
	t->touched = true;
	f->removed = true;
	f->touched = true;
	return 0;
}

// ---------------------------------------------------------------- clocks and friends
static uint64_t sim_ns() { return (uint64_t)G.env->clock * 1000000000ull + G.edges + G.nalloc * 1000; }
int clock_gettime(clockid_t c, struct timespec *t)
{
	if (simmed()) {
		uint64_t n = sim_ns();
		t->tv_sec = n / 1000000000ull;
		t->tv_nsec = n % 1000000000ull;
		return 0;
	}
	return syscall(SYS_clock_gettime, c, t);
}
time_t __wrap_time(time_t *p)
{
	if (!simmed())
		return __real_time(p);
	time_t t = sim_ns() / 1000000000ull;
	if (p)
		*p = t;
	return t;
}
clock_t __wrap_clock(void) { return simmed() ? (clock_t)(sim_ns() / 1000) : __real_clock(); }
int __wrap_gettimeofday(struct timeval *t, void *z)
{
	if (!simmed())
		return __real_gettimeofday(t, z);
	uint64_t n = sim_ns();
	t->tv_sec = n / 1000000000ull;
	t->tv_usec = n / 1000 % 1000000;
	return 0;
}
static uint64_t simrand() { G.nrand++; return mix64(G.env->clock, G.edges + G.nalloc) >> 33; }
int __wrap_rand(void) { return simmed() ? (int)simrand() : __real_rand(); }
long __wrap_random(void) { return simmed() ? (long)simrand() : __real_random(); }
unsigned __wrap_alarm(unsigned s)
{
	if (!simmed())
		return __real_alarm(s);
	G.ntimer++;
	return 0;
}
int __wrap_setitimer(int w, const void *n, void *o)
{
	if (!simmed())
		return __real_setitimer(w, n, o);
	G.ntimer++;
	return 0;
}
// whatever variable the library asks for, some hosts have it set
static char *simenv(const char *n, char *real)
{
	if (!simmed() || !G.env->host)
		return real;
	uint64_t h = G.env->host;
	for (const char *c = n; *c; c++)
		h = mix64(h, *c);
	static char val[8][16] = {"1", "0", "", "3.5", "/nonexistent", "yes", "1e-3", "7"};
	return h >> 8 & 1 ? val[h % 8] : real;
}
char *__wrap_getenv(const char *n) { return simenv(n, __real_getenv(n)); }
char *__wrap_secure_getenv(const char *n) { return simenv(n, __real_getenv(n)); }
int __wrap_getpid(void) { return simmed() ? (int)(G.env->clock % 30000 + 2) : __real_getpid(); }

// ---------------------------------------------------------------- threads
int __wrap___cxa_guard_acquire(int64_t *g)
{
	int r = __real___cxa_guard_acquire(g);
	if (r)
		no_switch++;
	return r;
}
void __wrap___cxa_guard_release(int64_t *g)
{
	__real___cxa_guard_release(g);
	no_switch--;
}
void __wrap___cxa_guard_abort(int64_t *g)
{
	__real___cxa_guard_abort(g);
	no_switch--;
}
}

static void update_next_event() { G.next_event = G.op_limit < G.next_switch ? G.op_limit : G.next_switch; }

static void arm_switch()
{
	if (G.sched && G.swi < G.plan->sw.size())
		G.next_switch = G.edges + (G.plan->sw[G.swi].edges > 0 ? G.plan->sw[G.swi].edges : 1);
	else
		G.next_switch = ~0ull;
	update_next_event();
}

static thread_local int my_thr = -1;

static void hand_over(int to)
{
	int me = my_thr;
	int s = in_sut;
	G.baton = to;
	sem_post(G.sems[to]);
	while (sem_wait(G.sems[me]))
		;
	in_sut = s;
}

static int next_alive(int from)
{
	for (int i = 1; i <= G.nthr; i++) {
		int t = (from + i) % G.nthr;
		if (!G.done[t])
			return t;
	}
	return -1;
}

extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!G.sched || !simmed())
		return __real_pthread_mutex_lock(m);
	int r;
	int spins = 0;
	while ((r = pthread_mutex_trylock(m)) == EBUSY) {
		Out o;
		int t = next_alive(my_thr);
		if (t < 0 || t == my_thr || ++spins > 1000000)
			finish(OUT_BUDGET, "deadlock on a mutex");
		hand_over(t);
	}
	return r;
}

static void slow_event()
{
	Out o;
	if (G.edges >= G.op_limit)
		finish(OUT_BUDGET, fmt("work bound exceeded: %llu edges in one call", (unsigned long long)G.env->budget));
	if (G.edges >= G.next_switch) {
		if (no_switch) {
			G.next_switch = G.edges + 1;
			update_next_event();
			return;
		}
		int to = G.plan->sw[G.swi].to % G.nthr;
		G.swi++;
		arm_switch();
		if (G.done[to])
			to = next_alive(my_thr);
		if (to >= 0 && to != my_thr) {
			G.tr->switches++;
			G.tr->hash = mix64(G.tr->hash, G.edges * 16 + to);
			hand_over(to);
		}
	}
}

static unsigned char cov_dummy[1 << 16];
unsigned char *g_cov = cov_dummy; // which basic blocks of the library were reached
extern "C" void __sanitizer_cov_trace_pc(void)
{
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	unsigned char *c = &g_cov[(pc >> 1) & 0xffff];
	if (!*c) // stores would make the workers share cache lines
		*c = 1;
	if (++G.edges >= G.next_event && G.active)
		slow_event();
}

// ---------------------------------------------------------------- trace transport
struct W {
	std::string s;
	void raw(const void *p, size_t n) { s.append((const char *)p, n); }
	void i(int64_t v) { raw(&v, 8); }
	void str(const std::string &t)
	{
		i(t.size());
		s += t;
	}
};
struct R {
	const char *p, *e;
	bool ok = true;
	void raw(void *d, size_t n)
	{
		if ((size_t)(e - p) < n) {
			ok = false;
			memset(d, 0, n);
			return;
		}
		memcpy(d, p, n);
		p += n;
	}
	int64_t i()
	{
		int64_t v = 0;
		raw(&v, 8);
		return v;
	}
	std::string str()
	{
		int64_t n = i();
		if (!ok || n < 0 || n > e - p) {
			ok = false;
			return "";
		}
		std::string t(p, n);
		p += n;
		return t;
	}
};

static void put(W &w, const Trace &t)
{
	w.i(t.outcome);
	w.str(t.note);
	w.i(t.curop);
	w.i(t.edges);
	w.i(t.hash);
	w.i(t.switches);
	w.i(t.ops.size());
	for (auto &o : t.ops) {
		w.i(o.opid);
		w.i(o.k);
		w.i(o.inst);
		w.i(o.status);
		w.i(o.live_bytes);
		w.i(o.live_blocks);
		w.i(o.fds);
		w.raw(o.ioc, sizeof o.ioc);
		w.i(o.al);
		w.i(o.rd);
		w.str(o.host);
		w.i(o.fired);
		w.i(o.edges);
		w.i(o.gps.size());
		for (auto &g : o.gps) {
			w.i(g.id);
			w.raw(g.s, sizeof g.s);
			w.raw(g.c, sizeof g.c);
			w.i(g.flag);
			w.i(g.has);
			w.i(g.unstable);
		}
		w.i(o.files.size());
		for (auto &f : o.files) {
			w.str(f.name);
			w.i(f.mode);
			w.str(f.data);
		}
	}
	w.i(t.files.size());
	for (auto &f : t.files) {
		w.str(f.first);
		w.str(f.second);
	}
	w.i(t.stat.size());
	for (auto &f : t.stat) {
		w.str(f.first);
		w.i(f.second);
	}
}
static bool get(R &r, Trace &t)
{
	t.outcome = r.i();
	t.note = r.str();
	t.curop = r.i();
	t.edges = r.i();
	t.hash = r.i();
	t.switches = r.i();
	int64_t n = r.i();
	for (int64_t k = 0; r.ok && k < n; k++) {
		OpRec o;
		o.opid = r.i();
		o.k = r.i();
		o.inst = r.i();
		o.status = r.i();
		o.live_bytes = r.i();
		o.live_blocks = r.i();
		o.fds = r.i();
		r.raw(o.ioc, sizeof o.ioc);
		o.al = r.i();
		o.rd = r.i();
		o.host = r.str();
		o.fired = r.i();
		o.edges = r.i();
		int64_t m = r.i();
		for (int64_t j = 0; r.ok && j < m; j++) {
			GpRec g;
			g.id = r.i();
			r.raw(g.s, sizeof g.s);
			r.raw(g.c, sizeof g.c);
			g.flag = r.i();
			g.has = r.i();
			g.unstable = r.i();
			o.gps.push_back(g);
		}
		m = r.i();
		for (int64_t j = 0; r.ok && j < m; j++) {
			FileDelta f;
			f.name = r.str();
			f.mode = r.i();
			f.data = r.str();
			o.files.push_back(f);
		}
		t.ops.push_back(o);
	}
	n = r.i();
	for (int64_t k = 0; r.ok && k < n; k++) {
		std::string a = r.str();
		t.files[a] = r.str();
	}
	n = r.i();
	for (int64_t k = 0; r.ok && k < n; k++) {
		std::string a = r.str();
		t.stat[a] = r.i();
	}
	return r.ok;
}

static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	const unsigned char *c = (const unsigned char *)p;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		uint64_t w;
		memcpy(&w, c + i, 8);
		h = (h ^ w) * 0x100000001b3ull;
		h ^= h >> 29;
	}
	for (; i < n; i++)
		h = (h ^ c[i]) * 0x100000001b3ull;
	return h;
}

static void collect_files(OpRec *r)
{
	for (auto &it : G.files) {
		VFile *f = it.second;
		if (!f->touched)
			continue;
		f->touched = false;
		if (f->removed) {
			if (f->existed_prev && r)
				r->files.push_back({f->name, 'x', ""});
			f->existed_prev = false;
			f->prev.clear();
			continue;
		}
		std::string c = file_content(f);
		if (r) {
			if (f->existed_prev && c.size() >= f->prev.size() && c.compare(0, f->prev.size(), f->prev) == 0) {
				if (c.size() > f->prev.size())
					r->files.push_back({f->name, 'a', c.substr(f->prev.size())});
			} else
				r->files.push_back({f->name, 'w', c});
		}
		f->existed_prev = true;
		f->prev = c;
	}
}

static void finish(int outcome, const std::string &note)
{
	in_sut = 0;
	G.active = false;
	Trace &t = *G.tr;
	t.outcome = outcome;
	t.note = note;
	t.curop = G.curop;
	t.edges = G.edges;
	if (G.rec && outcome == OUT_CRASHED)
		collect_files(G.rec);
	for (auto &f : G.files)
		if (!f.second->removed)
			t.files[f.first] = file_content(f.second);
	uint64_t h = fnv(t.hash ^ 0xcbf29ce484222325ull, &G.edges, 8);
	for (auto &o : t.ops) {
		h = fnv(h, &o.opid, 4);
		h = fnv(h, &o.status, 4);
		h = fnv(h, &o.edges, 8);
		h = fnv(h, &o.al, 8);
		for (auto &g : o.gps) {
			h = fnv(h, g.s, sizeof g.s);
			h = fnv(h, g.c, sizeof g.c);
			h = fnv(h, &g.flag, 4);
		}
		for (auto &f : o.files)
			h = fnv(h, f.data.data(), f.data.size());
	}
	t.hash = h;
	W w;
	put(w, t);
	size_t o = 0;
	while (o < w.s.size()) {
		ssize_t k = syscall(SYS_write, G.outfd, w.s.data() + o, w.s.size() - o);
		if (k < 0 && errno == EINTR)
			continue;
		if (k <= 0)
			break;
		o += k;
	}
	_exit(0);
}

// ---------------------------------------------------------------- executor
struct Inst {
	void *mem = nullptr;
	bool alive = false;
	Config cfg;
	std::vector<int> ids;
};
static const uint64_t SENT = 0x7ff4deadbeef0001ull;

static void *argbuf(size_t n)
{
	if (G.env->guard)
		return sim_alloc(n, false);
	return __real_malloc(n);
}
static void argfree(void *p)
{
	if (in_arena(p))
		sim_free(p);
	else
		__real_free(p);
}

// input arrays belong to the caller
static std::vector<char> keep(const void *p, size_t n) { return std::vector<char>((const char *)p, (const char *)p + n); }
static void same(const std::vector<char> &k, const void *p)
{
	if (memcmp(k.data(), p, k.size()))
		finish(OUT_HEAP, "an input array of the caller was changed");
}

static void call_op(Inst &I, const Op &op)
{
	int api = G.env->api;
	struct Buf {
		void *p = nullptr;
		~Buf()
		{
			if (p) {
				int s = in_sut;
				in_sut = 0;
				argfree(p);
				in_sut = s;
			}
		}
	} b1, b2, b3, b4;
	struct Enter {
		Enter() { dirty_stack(); in_sut = 1; }
		~Enter() { in_sut = 0; }
	};
	switch (op.k) {
	case 'N': {
		const Config &c = G.plan->cfgs[op.a];
		int *size = (int *)(b1.p = argbuf(3 * sizeof(int)));
		double *mp = (double *)(b2.p = argbuf(5 * sizeof(double)));
		int *mt = (int *)(b3.p = argbuf(2 * sizeof(int)));
		double *par = (double *)(b4.p = argbuf(20 * sizeof(double)));
		memcpy(size, c.n, 3 * sizeof(int));
		memcpy(mp, c.mp, 5 * sizeof(double));
		memcpy(mt, c.mt, 2 * sizeof(int));
		memcpy(par, c.par, 20 * sizeof(double));
		if (G.env->carefree) {
			if (c.dim == 2) {
				fill(&size[2], 4, 11);
				fill(&mp[2], 8, 12);
			}
			for (int m = 0; m < 2; m++)
				fill(par + m * 10 + 4, 6 * 8, 13 + m);
		}
		if (!api) {
			if (!I.mem)
				I.mem = sim_alloc(sut_sizeof(), false);
			else
				fill(I.mem, sut_sizeof(), 0x0b1ec7);
		}
		I.alive = false;
		I.ids.clear();
		I.cfg = c;
		{
			Enter e;
			in_sut = 0;
			std::vector<char> k1 = keep(size, 12), k2 = keep(mp, 40), k3 = keep(mt, 8), k4 = keep(par, 160);
			in_sut = 1;
			sut_new(I.mem, api, c.dim, size, c.type, mp, mt, par);
			in_sut = 0;
			same(k1, size), same(k2, mp), same(k3, mt), same(k4, par);
		}
		if (G.env->scribble) {
			memset(size, 0x5a, 12);
			memset(mt, 0x5a, 8);
			for (int i = 0; i < 5; i++)
				mp[i] = NAN;
			for (int i = 0; i < 20; i++)
				par[i] = NAN;
		}
		I.alive = true;
		break;
	}
	case 'D': {
		I.alive = false;
		I.ids.clear();
		{
			Enter e;
			sut_del(I.mem, api);
		}
		break;
	}
	case 'S': {
		int nv = I.cfg.nvoi();
		double *e = (double *)(b1.p = argbuf((G.env->guard ? nv : 6) * sizeof(double)));
		memcpy(e, op.e, nv * sizeof(double));
		if (!G.env->guard)
			for (int i = nv; i < 6; i++) {
				if (G.env->carefree)
					fill(e + i, 8, 15 + i);
				else
					e[i] = 0;
			}
		{
			Enter en;
			in_sut = 0;
			std::vector<char> k1 = keep(e, (G.env->guard ? nv : 6) * 8);
			in_sut = 1;
			sut_set(I.mem, api, op.a, e);
			in_sut = 0;
			same(k1, e);
		}
		if (G.env->scribble)
			for (int i = 0; i < (G.env->guard ? nv : 6); i++)
				e[i] = NAN;
		bool have = false;
		for (int id : I.ids)
			have |= id == op.a;
		if (!have)
			I.ids.push_back(op.a);
		break;
	}
	case 'H': {
		Enter e;
		sut_hom(I.mem, api);
		break;
	}
	case 'U': {
		Enter e;
		sut_upd(I.mem, api);
		break;
	}
	case 'O': {
		Enter e;
		sut_out(I.mem, api, op.b, op.a);
		break;
	}
	case 'I': {
		Enter e;
		sut_info(I.mem, api);
		break;
	}
	case 'Q': break; // the read below does it
	}
}

// how: what to ask for (bits as in GpRec::has), in which order, how often
static void read_gp(Inst &I, int id, GpRec &g, uint64_t how = 7)
{
	int api = G.env->api, nv = I.cfg.nvoi();
	g.id = id;
	g.has = how & 7;
	for (int i = 0; i < 6; i++)
		memcpy(&g.s[i], &SENT, 8);
	for (int i = 0; i < 36; i++)
		memcpy(&g.c[i], &SENT, 8);
	g.flag = -77;
	int turn = (how >> 3) % 6, times = 1 + ((how >> 8) & 3) / 2;
	static const int order[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}};
	GpRec first = g;
	for (int k = 0; k < times; k++) {
		GpRec w = first;
		bool gd = G.env->guard;
		double *s = gd ? (double *)argbuf(nv * 8) : w.s, *c = gd ? (double *)argbuf(nv * nv * 8) : w.c;
		int *f = gd ? (int *)argbuf(4) : &w.flag;
		if (gd) {
			memcpy(s, w.s, nv * 8);
			memcpy(c, w.c, nv * nv * 8);
			*f = -77;
		}
		for (int j = 0; j < 3; j++) {
			int q = order[turn][j];
			if (!(g.has >> q & 1))
				continue;
			in_sut = 1;
			if (q == 0)
				sut_stress(I.mem, api, id, s);
			else if (q == 1)
				sut_ctan(I.mem, api, id, c);
			else
				sut_flag(I.mem, api, id, f);
			in_sut = 0;
		}
		if (gd) {
			memcpy(w.s, s, nv * 8);
			memcpy(w.c, c, nv * nv * 8);
			w.flag = *f;
			argfree(s);
			argfree(c);
			argfree(f);
		}
		if (k && (memcmp(w.s, g.s, sizeof w.s) || memcmp(w.c, g.c, sizeof w.c) || w.flag != g.flag))
			g.unstable = 1;
		if (!k) {
			memcpy(g.s, w.s, sizeof w.s);
			memcpy(g.c, w.c, sizeof w.c);
			g.flag = w.flag;
		}
	}
}

static int try_op(Inst &I, const Op &op)
{
	try {
		call_op(I, op);
	} catch (std::bad_alloc &) {
		in_sut = 0;
		return 1;
	} catch (...) {
		in_sut = 0;
		return 2;
	}
	in_sut = 0;
	return 0;
}

static void exec_op(Inst &I, const Op &op, OpRec &r)
{
	r.opid = op.id;
	r.k = op.k;
	r.inst = op.inst;
	G.curop = op.id;
	G.sh->curop = op.id;
	G.rec = &r;
	uint64_t e0 = G.edges;
	if (!G.sched) {
		G.op_limit = G.edges + G.env->budget;
		update_next_event();
	}
	if (op.k != 'N' && !I.alive) {
		r.status = 5; // nothing to call
		return;
	}
	HostState before;
	uint64_t nr = G.nrand, nt = G.ntimer;
	if (G.env->hostcheck) {
		before = host_state();
		host_before(G.env->host, op.id);
	}
	r.status = try_op(I, op);
	if (r.status && G.env->retry) {
		G.faults_on = false; // memory is available again
		G.tr->stat["retried"]++;
		int first = r.status;
		int again = try_op(I, op);
		r.status = again ? again : 10 + first;
	}
	r.edges = G.edges - e0;
	if (I.alive) {
		if (op.k == 'Q') {
			GpRec g;
			read_gp(I, op.a, g);
			r.gps.push_back(g);
		} else if (!G.env->sparse)
			for (int id : I.ids) {
				GpRec g;
				read_gp(I, id, g);
				r.gps.push_back(g);
			}
		else {
			uint64_t h = mix64(G.env->sparse, op.id);
			if (h % 3 == 0)
				for (size_t i = 0; i < I.ids.size(); i++) {
					int id = h & 32 ? I.ids[I.ids.size() - 1 - i] : I.ids[i];
					uint64_t k = mix64(h, id);
					if (k % 5 < 2)
						continue;
					GpRec g;
					read_gp(I, id, g, k >> 8 & 1 ? k >> 9 : k >> 9 | 7);
					r.gps.push_back(g);
				}
		}
	}
	G.rec = nullptr;
	if (G.env->hostcheck) {
		r.host = host_diff(before, host_state());
		if (r.host.empty() && G.nrand != nr)
			r.host = "random sequence (numbers were taken from it)";
		if (r.host.empty() && G.ntimer != nt)
			r.host = "timers (a call set one)";
	}
	if (!G.sched)
		collect_files(&r);
	r.live_bytes = G.live_bytes;
	r.live_blocks = G.live_blocks;
	r.fds = G.fds.size();
}

struct ThrArg {
	int t;
	std::vector<const Op *> ops;
	std::vector<OpRec> recs;
	Inst inst;
};

static void *thr_main(void *v)
{
	ThrArg *a = (ThrArg *)v;
	my_thr = a->t;
	while (sem_wait(G.sems[a->t]))
		;
	a->recs.resize(a->ops.size());
	for (size_t i = 0; i < a->ops.size(); i++)
		exec_op(a->inst, *a->ops[i], a->recs[i]);
	G.done[a->t] = true;
	int n = next_alive(a->t);
	if (n >= 0) {
		G.baton = n;
		sem_post(G.sems[n]);
	} else
		sem_post(G.sems[G.nthr]);
	return nullptr;
}

static void child(const Plan &p, const Env &e, int fd, Shared *sh)
{
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	alarm(400);
	struct itimerval cpu = {{0, 0}, {60, 0}}; // of processor time; where edges are counted, the budget ends a run first
	if (!e.longrun)
		setitimer(ITIMER_PROF, &cpu, nullptr);
	int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
	dup2(nul, 1);
	dup2(nul, 2);
	if (e.hostcheck) {
		host_init();
		host_apply(e.host);
	}
	static Trace tr;
	G.plan = &p;
	G.env = &e;
	G.tr = &tr;
	G.sh = sh;
	G.outfd = fd;
	for (auto &f : p.faults) {
		LiveFault l;
		l.f = f;
		G.faults.push_back(l);
	}
	arena_init();
	if (e.keepfs)
		for (auto &f : e.fs) {
			VFile *v = get_file(f.first, true);
			if (pwrite(v->memfd, f.second.data(), f.second.size(), 0) != (ssize_t)f.second.size())
				finish(OUT_HARNESS, "fs preload");
		}
	collect_files(nullptr);
	G.edges = 0;
	if (e.threads) {
		int n = 0;
		for (auto &o : p.ops)
			if (o.inst + 1 > n)
				n = o.inst + 1;
		std::vector<ThrArg> args(n);
		G.nthr = n;
		G.done.assign(n, false);
		for (int t = 0; t <= n; t++) {
			sem_t *s = new sem_t;
			sem_init(s, 0, 0);
			G.sems.push_back(s);
		}
		std::vector<pthread_t> th(n);
		for (int t = 0; t < n; t++) {
			args[t].t = t;
			for (auto &o : p.ops)
				if (o.inst == t)
					args[t].ops.push_back(&o);
			if (pthread_create(&th[t], nullptr, thr_main, &args[t]))
				_exit(98);
		}
		G.sched = true;
		G.active = true;
		G.op_limit = e.budget * 4;
		arm_switch();
		my_thr = n;
		hand_over(0); // comes back through sems[n] when all are done
		for (int t = 0; t < n; t++)
			pthread_join(th[t], nullptr);
		G.sched = false;
		for (auto &a : args)
			for (auto &r : a.recs)
				tr.ops.push_back(r);
	} else {
		int n = 1;
		for (auto &o : p.ops)
			if (o.inst + 1 > n)
				n = o.inst + 1;
		std::vector<Inst> inst(n);
		tr.ops.reserve(p.ops.size() + 1);
		G.active = true;
		for (auto &o : p.ops) {
			tr.ops.emplace_back();
			exec_op(inst[o.inst], o, tr.ops.back());
		}
	}
	// blocks that are still alive must be intact
	if (!e.guard) {
	} else {
		for (auto &b : G.gblocks)
			if (b.second.live) {
				size_t s;
				bool ow;
				check_block(b.first, &s, &ow, "end of run");
			}
	}
	finish(OUT_OK, "");
}

Trace run_exec(const Plan &p, const Env &e)
{
	static Shared *sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Trace t;
	int pp[2];
	if (pipe2(pp, O_CLOEXEC)) {
		t.outcome = OUT_HARNESS;
		t.note = "pipe";
		return t;
	}
	sh->curop = -1;
	pid_t c = fork();
	if (c < 0) {
		close(pp[0]);
		close(pp[1]);
		t.outcome = OUT_HARNESS;
		t.note = "fork";
		return t;
	}
	if (c == 0) {
		close(pp[0]);
		child(p, e, pp[1], sh);
		_exit(99);
	}
	close(pp[1]);
	std::string buf;
	char tmp[65536];
	for (;;) {
		ssize_t k = read(pp[0], tmp, sizeof tmp);
		if (k < 0 && errno == EINTR)
			continue;
		if (k <= 0)
			break;
		buf.append(tmp, k);
	}
	close(pp[0]);
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR)
		;
	if (WIFSIGNALED(st)) {
		t.outcome = WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? OUT_TIMEOUT : OUT_SIGNAL;
		if (WTERMSIG(st) == SIGKILL)
			t.outcome = OUT_HARNESS;
		t.sig = WTERMSIG(st);
		t.curop = sh->curop;
		t.note = fmt("signal %d (%s) in operation %d", t.sig, strsignal(t.sig), t.curop);
		t.hash = mix64(t.sig, t.curop + 1);
		return t;
	}
	R r = {buf.data(), buf.data() + buf.size()};
	if (WEXITSTATUS(st) != 0 || !get(r, t)) {
		// the library itself ended the process
		t = Trace();
		t.outcome = WEXITSTATUS(st) >= 97 || WEXITSTATUS(st) == 0 ? OUT_HARNESS : OUT_SIGNAL;
		t.sig = 0;
		t.curop = sh->curop;
		t.note = fmt("process exited with status %d in operation %d", WEXITSTATUS(st), t.curop);
	}
	return t;
}
