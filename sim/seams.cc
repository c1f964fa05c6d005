// libc and system-call seams: everything the library objects import is
// redirected here (objcopy --redefine-syms), see redefine.map.
#include "sim.h"
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/auxv.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <algorithm>

namespace sim {

Ledger L; World W;
extern bool unreg_fault_seen[]; extern int unreg_fault_errno[];
bool expect_abort; bool heap_check = true;
char last_stderr[512]; u64 n_stderr;

static const u64 ARENA = 0x100000000000ULL, ARENA_SZ = 1ULL << 41;
static const u64 HEAP = 0x0f0000000000ULL, HEAP_SZ = 64ULL << 20;
static u64 heap_cur; static u8 *heap_shadow;
static u64 arena_cur; static u64 mmap_seed; static int skew_mode; static u64 mmap_n;
static std::map<u64, u64> holes;
static std::map<const void *, int> mtx;		// 0: free, else tid+1
static std::map<const void *, std::pair<int, int>> rwl;	// readers, writer tid+1
static std::map<const void *, int> onces;
#define PG (W.page)
static std::map<u64, int> retired;		// pages made inaccessible on purpose

bool (*retired_hook)(u64);
bool addr_retired(u64 a);
bool addr_retired(u64 a) {
	return retired_hook && retired_hook(a);
}

static bool fds_from_0; static Stat st_fd0("env:descriptor_0_free");
void low_fds() { fds_from_0 = true; close(0); st_fd0.hit(); }
void seams_setup(u64 seed, int skew) {
	static bool mapped;
	if (!mapped) {
		mapped = true;
		void *p = mmap((void *) ARENA, ARENA_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		void *h = mmap((void *) HEAP, HEAP_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		heap_shadow = (u8 *) mmap(nullptr, HEAP_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p != (void *) ARENA || h != (void *) HEAP || heap_shadow == MAP_FAILED) { fprintf(stderr, "cannot reserve simulation arena\n"); _exit(2); }
		heap_cur = HEAP + 64; arena_cur = ARENA + 16 * PG;
	}
	mmap_seed = seed; skew_mode = skew;
}

u64 ledger_pages(int o) { return L.pages.count(o); }
u64 ledger_heap(int o) { u64 n = 0; for (auto &p : L.heap) if (p.second.second == o) n++; return n; }
u64 ledger_fds(int o) { u64 n = 0; for (auto &p : L.fds) if (p.second == o) n++; return n; }

void lib_abort(const char *why) {
	// A legitimate abort ends the run; the scenario says whether it was due.
	if (S.on_abort && S.on_abort(why)) finish_run();
	violate("abort", "library aborted: %s (thread %d op %d code %d)", why, cur->id, cur->op ? cur->op->id : 0, cur->op ? cur->op->code : -1);
}

static inline bool own_stack(u64 a) {
	u64 sp = (u64) __builtin_frame_address(0);
	return a - (sp - 4096) < (1u << 20);
}
static inline void check_heap(u64 a) {
	u64 o = a - HEAP;
	if (o < HEAP_SZ && heap_check) {
		u8 s = heap_shadow[o / 16];
		if (s != 1) violate("heap-misuse", "library accessed %s heap memory (thread %d op %d code %d)", s == 2 ? "freed" : "unallocated", cur->id, cur->op ? cur->op->id : 0, cur->op ? cur->op->code : -1);
	}
}
static inline void mem_yield(u64 a) {
	if (own_stack(a)) return;
	check_heap(a);
	yield_point(S_YIELD);
}

static void *heap_alloc(size_t n) {
	u64 sz = (n + 15) & ~15ULL; if (!sz) sz = 16;
	if (sz > (16ULL << 20) || heap_cur + sz + 64 > HEAP + HEAP_SZ) { errno = ENOMEM; return nullptr; }
	u64 p = heap_cur; heap_cur += sz + 48;
	memset(heap_shadow + (p - HEAP) / 16, 1, sz / 16);
	memset((void *) p, 0xA5, sz);
	L.heap[p] = { n, cur->owner };
	return (void *) p;
}
static void heap_free(void *v) {
	if (!v) return;
	u64 p = (u64) v;
	if (p - HEAP >= HEAP_SZ) { free(v); return; }
	auto i = L.heap.find(p);
	if (i == L.heap.end()) violate("heap-misuse", "library freed a pointer it does not own or freed it twice (thread %d op %d)", cur->id, cur->op ? cur->op->id : 0);
	u64 sz = (i->second.first + 15) & ~15ULL; if (!sz) sz = 16;
	memset(v, 0xDD, sz);
	memset(heap_shadow + (p - HEAP) / 16, 2, sz / 16);
	L.heap.erase(i);
}

struct VFile { std::string data; size_t pos = 0; bool dir = false; };
static std::map<int, VFile> vfiles; static int next_vfd = 100000;
struct VDir { size_t pos = 0; struct dirent de; };

static bool is_possible(const char *p) { return !strcmp(p, "/sys/devices/system/cpu/possible"); }

} // namespace sim
using namespace sim;

// ------------------------------------------------------------ constructors
extern "C" {
extern void (*__start_simctor[])(int, char **, char **) __attribute__((weak));
extern void (*__stop_simctor[])(int, char **, char **) __attribute__((weak));
extern void (*__start_simdtor[])(void) __attribute__((weak));
extern void (*__stop_simdtor[])(void) __attribute__((weak));
}
namespace sim {
extern "C" void lib_ctor() {
	static char *none[] = { nullptr };
	for (auto f = __start_simctor; f && f < __stop_simctor; f++) if (*f) (*f)(0, none, none);
}
extern "C" void lib_dtor() { for (auto f = __stop_simdtor; f && f > __start_simdtor; ) { --f; if (*f) (*f)(); } }
}

extern "C" {

// ------------------------------------------------------------ instrumentation
void __sanitizer_cov_trace_pc() { yield_point(S_YIELD); }
void __sanitizer_cov_trace_pc_guard(uint32_t *) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
#define LS(n) void __sanitizer_cov_load##n(void *a) { mem_yield((u64) a); } void __sanitizer_cov_store##n(void *a) { mem_yield((u64) a); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// ------------------------------------------------------------ memory functions
static inline size_t chunk(size_t n) { return n >= 4096 ? 512 : n >= 512 ? 64 : n >= 64 ? 16 : 8; }
void *sim_memcpy(void *d, const void *s, size_t n) {
	size_t c = chunk(n);
	for (size_t i = 0; i < n; i += c) { size_t k = n - i < c ? n - i : c; mem_yield((u64) s + i); mem_yield((u64) d + i); memcpy((char *) d + i, (const char *) s + i, k); }
	return d;
}
void *sim_memmove(void *d, const void *s, size_t n) {
	if ((u64) d - (u64) s >= n) return sim_memcpy(d, s, n);
	mem_yield((u64) s); mem_yield((u64) d); return memmove(d, s, n);
}
void *sim_memset(void *d, int v, size_t n) {
	size_t c = chunk(n);
	for (size_t i = 0; i < n; i += c) { size_t k = n - i < c ? n - i : c; mem_yield((u64) d + i); memset((char *) d + i, v, k); }
	return d;
}
void sim_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
void sim_explicit_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
int sim_memcmp(const void *a, const void *b, size_t n) {
	size_t c = chunk(n);
	for (size_t i = 0; i < n; i += c) { size_t k = n - i < c ? n - i : c; mem_yield((u64) a + i); mem_yield((u64) b + i); int r = memcmp((const char *) a + i, (const char *) b + i, k); if (r) return r; }
	return 0;
}
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }

// ------------------------------------------------------------ heap
void *sim_malloc(size_t n) { yield_point(S_YIELD); if (int e = fault(S_F_MALLOC, { ENOMEM })) { errno = e; return nullptr; } return heap_alloc(n); }
void *sim_calloc(size_t a, size_t b) {
	yield_point(S_YIELD);
	if (int e = fault(S_F_CALLOC, { ENOMEM })) { errno = e; return nullptr; }
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	void *p = heap_alloc(n); if (p) memset(p, 0, n); return p;
}
void sim_free(void *p) { yield_point(S_YIELD); heap_free(p); }
void *sim_realloc(void *p, size_t n) {
	if (!p) return sim_malloc(n);
	if (int e = fault(S_F_REALLOC, { ENOMEM })) { errno = e; return nullptr; }
	auto i = L.heap.find((u64) p); if (i == L.heap.end()) violate("heap-misuse", "realloc of unknown pointer");
	size_t o = i->second.first; void *q = heap_alloc(n); if (!q) return nullptr;
	memcpy(q, p, o < n ? o : n); heap_free(p); return q;
}
char *sim_strdup(const char *s) {
	yield_point(S_YIELD);
	if (int e = fault(S_F_STRDUP, { ENOMEM })) { errno = e; return nullptr; }
	size_t n = strlen(s) + 1; char *p = (char *) heap_alloc(n); if (p) memcpy(p, s, n); return p;
}
char *sim_strndup(const char *s, size_t m) {
	if (int e = fault(S_F_STRDUP, { ENOMEM })) { errno = e; return nullptr; }
	size_t n = strnlen(s, m); char *p = (char *) heap_alloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p;
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
	if (fault(S_F_MALLOC, { ENOMEM })) return ENOMEM;
	heap_cur = (heap_cur + al - 1) & ~(al - 1); void *p = heap_alloc(n); if (!p) return ENOMEM; *out = p; return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { void *p = nullptr; return sim_posix_memalign(&p, al, n) ? nullptr : p; }
int sim_asprintf(char **out, const char *f, ...) {
	va_list ap; va_start(ap, f); char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
	char *p = sim_strdup(b); if (!p) return -1; *out = p; return n;
}

void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { return (char *) sim_memcpy(d, s, n) + n; }
int sim_vasprintf(char **out, const char *f, va_list ap) {
	char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); char *p = sim_strdup(b); if (!p) return -1; *out = p; return n;
}

// ------------------------------------------------------------ mappings and files
void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
	yield_point(S_YIELD);
	bool fixed = flags & MAP_FIXED;
	if (int e = fault(fixed ? S_F_MMAP_FIXED : S_F_MMAP, { ENOMEM })) { errno = e; return MAP_FAILED; }
	if (!len || ((u64) addr & (PG - 1) && fixed)) { errno = EINVAL; return MAP_FAILED; }
	u64 n = (len + PG - 1) / PG;
	if (n > (1ULL << 36) / PG) { errno = ENOMEM; return MAP_FAILED; }
	u64 a;
	if (fixed) {
		a = (u64) addr;
		if (a - ARENA >= ARENA_SZ || ARENA + ARENA_SZ - a < n * PG) violate("foreign-map", "op %d of thread %d maps over memory the library never mapped", cur->op ? cur->op->id : 0, cur->id);
		for (auto p = L.pages.first(a, a + n * PG); p != L.pages.m.end() && p->first < a + n * PG; ++p) {
			if (p->second.second != cur->owner) violate("foreign-map", "op %d of thread %d maps over memory of owner %d", cur->op ? cur->op->id : 0, cur->id, p->second.second);
		}
		if (!L.pages.covers(a, a + n * PG, cur->owner)) violate("foreign-map", "op %d of thread %d maps at a fixed address that it has not reserved", cur->op ? cur->op->id : 0, cur->id);
	} else {
		u64 h = mix(mmap_seed, ++mmap_n);
		a = 0;
		if ((h & 3) == 0) {	// reuse a hole left by munmap, as kernels do
			for (auto &ho : holes) if (ho.second >= n * PG) { a = ho.first; u64 rest = ho.second - n * PG; holes.erase(a); if (rest) holes[a + n * PG] = rest; break; }
		}
		if (!a) {
			u64 gap = 0;
			switch (skew_mode) { case 0: gap = 0; break; case 1: gap = (h >> 8) % 3; break; case 2: gap = (h >> 8) % 64; break; default: gap = (h >> 8) % 600; }
			a = (arena_cur + PG - 1) / PG * PG + gap * PG;
			if (a + n * PG + 16 * PG > ARENA + ARENA_SZ) { errno = ENOMEM; return MAP_FAILED; }
			arena_cur = a + n * PG;
		}
	}
	void *r = mmap((void *) a, n * PG, prot, (flags & ~MAP_FIXED_NOREPLACE) | MAP_FIXED | (flags & MAP_ANONYMOUS ? MAP_NORESERVE : 0), fd, off);
	if (r == MAP_FAILED) return r;
	L.n_mmap++;
	L.pages.set(a, a + n * PG, cur->owner);
	trace_ev(0x33a9, n, fixed);
	return r;
}
void *sim_mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return sim_mmap(a, l, p, f, fd, o); }
int sim_munmap(void *addr, size_t len) {
	yield_point(S_YIELD);
	if (cur->unmap_faults) if (int e = fault(S_F_MUNMAP, { EINVAL, ENOMEM })) { errno = e; return -1; }
	u64 a = (u64) addr;
	if ((a & (PG - 1)) || !len) { errno = EINVAL; return -1; }
	if (a - ARENA >= ARENA_SZ) violate("foreign-unmap", "munmap of memory the library never mapped (thread %d op %d)", cur->id, cur->op ? cur->op->id : 0);
	u64 n = (len + PG - 1) / PG;
	for (auto p = L.pages.first(a, a + n * PG); p != L.pages.m.end() && p->first < a + n * PG; ++p)
		if (p->second.second != cur->owner) violate("foreign-unmap", "op %d of thread %d (owner %d) unmaps memory of owner %d", cur->op ? cur->op->id : 0, cur->id, cur->owner, p->second.second);
	L.pages.erase(a, a + n * PG);
	L.n_munmap++;
	mmap((void *) a, n * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	holes[a] = n * PG;
	trace_ev(0x3037, n);
	return 0;
}
int sim_madvise(void *a, size_t n, int adv) {
	yield_point(S_YIELD);
	if (int e = fault(S_F_MADVISE, { EINVAL, ENOMEM, EAGAIN })) { errno = e; return -1; }
	if ((u64) a & (PG - 1)) { errno = EINVAL; return -1; }
	return madvise(a, (n + PG - 1) / PG * PG, adv);
}
int sim_mprotect(void *a, size_t n, int p) { yield_point(S_YIELD); if (int e = fault(S_F_OTHER, { ENOMEM })) { errno = e; return -1; } if ((u64) a & (PG - 1)) { errno = EINVAL; return -1; } return mprotect(a, (n + PG - 1) / PG * PG, p); }
int sim_memfd_create(const char *n, unsigned f) {
	yield_point(S_YIELD);
	if (int e = fault(S_F_MEMFD, { EMFILE, ENFILE, ENOMEM })) { errno = e; return -1; }
	int fd = memfd_create(n, f); if (fd >= 0) L.fds[fd] = cur->owner; return fd;
}
int sim_ftruncate(int fd, off_t n) {
	yield_point(S_YIELD);
	if (int e = fault(S_F_FTRUNC, { ENOSPC, EIO, EFBIG })) { errno = e; return -1; }
	return ftruncate(fd, n);
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_fallocate(int fd, int m, off_t o, off_t n) { if (int e = fault(S_F_FTRUNC, { ENOSPC })) { errno = e; return -1; } return fallocate(fd, m, o, n); }
int sim_close(int fd) {
	yield_point(S_YIELD);
	if (vfiles.count(fd)) { if (fd < 100000) close(fd); vfiles.erase(fd); L.fds.erase(fd); }
	else {
		if (!L.fds.count(fd)) violate("fd-misuse", "library closes a descriptor it does not own (thread %d op %d)", cur->id, cur->op ? cur->op->id : 0);
		L.fds.erase(fd); close(fd);
	}
	if (int e = fault(S_F_CLOSE, { EIO, EINTR })) { errno = e; return -1; }
	return 0;
}
static int vopen(const char *path) {
	yield_point(S_YIELD);
	if (is_possible(path)) {
		if (!W.possible_exists) { errno = ENOENT; return -1; }
		if (int e = fault(S_F_OPEN, { EACCES, EMFILE, ENOENT })) { errno = e; return -1; }
		int fd = fds_from_0 ? open("/dev/null", O_RDONLY) : next_vfd++; vfiles[fd].data = W.possible; L.fds[fd] = cur->owner; return fd;
	}
	errno = ENOENT; return -2;
}
int sim_open(const char *path, int fl, ...) {
	int r = vopen(path); if (r != -2) return r;
	if (!strncmp(path, "/sys/", 5)) { errno = ENOENT; return -1; }
	int fd = open(path, fl, 0600); if (fd >= 0) L.fds[fd] = cur->owner; return fd;
}
int sim_open64(const char *path, int fl, ...) { return sim_open(path, fl); }
int sim_openat(int, const char *path, int fl, ...) { return sim_open(path, fl); }
ssize_t sim_read(int fd, void *buf, size_t n) {
	yield_point(S_YIELD);
	auto i = vfiles.find(fd);
	if (i == vfiles.end()) return read(fd, buf, n);
	int e = fault(S_F_READ, { EINTR, EINTR, EINTR, EIO, -1, -2, -3 });	// negative: short read
	if (e > 0) { errno = e; return -1; }
	size_t left = i->second.data.size() - i->second.pos;
	if (n > left) n = left;
	if (W.max_read && n > (size_t) W.max_read) n = W.max_read;
	if (e < 0 && n > (size_t) -e) n = -e;
	memcpy(buf, i->second.data.data() + i->second.pos, n); i->second.pos += n;
	return (ssize_t) n;
}
ssize_t sim_pread(int fd, void *buf, size_t n, off_t o) {
	auto i = vfiles.find(fd); if (i == vfiles.end()) return pread(fd, buf, n, o);
	size_t save = i->second.pos; i->second.pos = (size_t) o < i->second.data.size() ? (size_t) o : i->second.data.size();
	ssize_t r = sim_read(fd, buf, n); i->second.pos = save; return r;
}
ssize_t sim_pread64(int fd, void *buf, size_t n, off_t o) { return sim_pread(fd, buf, n, o); }
ssize_t sim_readv(int fd, const struct iovec *v, int n) {
	ssize_t t = 0;
	for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; }
	return t;
}
off_t sim_lseek(int fd, off_t o, int w) {
	auto i = vfiles.find(fd); if (i == vfiles.end()) return lseek(fd, o, w);
	off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t) i->second.pos : (off_t) i->second.data.size();
	if (b + o < 0) { errno = EINVAL; return -1; }
	i->second.pos = (size_t) (b + o) < i->second.data.size() ? (size_t) (b + o) : i->second.data.size(); return b + o;
}
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
int sim_fstat(int fd, struct stat *st) {
	if (!vfiles.count(fd)) return fstat(fd, st);
	memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0444; st->st_size = 4096; return 0;	// as sysfs files report
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
// stdio access to the same file
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; do { r = sim_read((int) (intptr_t) c, b, n); } while (r < 0 && errno == EINTR); return r; }
static int ck_close(void *c) { return sim_close((int) (intptr_t) c); }
FILE *sim_fopen(const char *path, const char *mode) {
	int fd = vopen(path); if (fd == -1) return nullptr; if (fd == -2) { return strncmp(path, "/sys/", 5) ? fopen(path, mode) : nullptr; }
	cookie_io_functions_t f = { ck_read, nullptr, nullptr, ck_close }; return fopencookie((void *) (intptr_t) fd, mode, f);
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
DIR *sim_opendir(const char *path) {
	yield_point(S_YIELD);
	if (strcmp(path, "/sys/devices/system/cpu")) { errno = ENOENT; return nullptr; }
	if (!W.cpudir_exists) { errno = ENOENT; return nullptr; }
	if (int e = fault(S_F_OPENDIR, { EACCES, EMFILE, ENOMEM })) { errno = e; return nullptr; }
	VDir *d = (VDir *) heap_alloc(sizeof(VDir)); new (d) VDir(); return (DIR *) d;
}
struct dirent *sim_readdir(DIR *dd) {
	yield_point(S_YIELD);
	VDir *d = (VDir *) dd;
	if (d->pos >= W.cpudir.size()) return nullptr;
	memset(&d->de, 0, sizeof d->de);
	auto &e = W.cpudir[d->pos++];
	snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str()); d->de.d_type = e.second; d->de.d_ino = d->pos;
	return &d->de;
}
struct dirent *sim_readdir64(DIR *d) { return sim_readdir(d); }
int sim_closedir(DIR *d) { yield_point(S_YIELD); heap_free(d); if (int e = fault(S_F_CLOSE, { EIO })) { errno = e; return -1; } return 0; }
long sim_sysconf(int n) {
	if (n == _SC_NPROCESSORS_CONF || n == _SC_NPROCESSORS_ONLN) {
		yield_point(S_YIELD);
		if (fault(S_F_SYSCONF, { EINVAL })) return -1;
		return n == _SC_NPROCESSORS_CONF ? W.nproc_conf : (W.nproc_conf > 1 ? W.nproc_conf - 1 : 1);
	}
	if (n == _SC_PAGESIZE) { if (W.page_unknown) { errno = EINVAL; return -1; } return (long) W.page; }
	return sysconf(n);
}
int sim_getpagesize() { return (int) W.page; }
int sim_get_nprocs_conf() { return (int) W.nproc_conf; }
int sim_get_nprocs() { return (int) (W.nproc_conf > 1 ? W.nproc_conf - 1 : 1); }

// ------------------------------------------------------------ system
unsigned long sim_getauxval(unsigned long t) {
	if (t == 27) { if (!W.aux_feature) errno = ENOENT; return W.aux_feature; }
	if (t == 28) { if (!W.aux_align) errno = ENOENT; return W.aux_align; }
	if (t == AT_PAGESZ) return W.page;
	return getauxval(t);
}
static void *dlsym_common(const char *n, bool *ok) {
	*ok = true;
	if (!strcmp(n, "__rseq_offset")) return W.has_off ? (void *) &W.libc_off : nullptr;
	if (!strcmp(n, "__rseq_size")) return W.has_size ? (void *) &W.libc_size : nullptr;
	if (!strcmp(n, "__rseq_flags")) return W.has_flags ? (void *) &W.libc_flags : nullptr;
	*ok = false; return nullptr;
}
void *sim_dlsym(void *h, const char *n) { yield_point(S_YIELD); bool ok; void *p = dlsym_common(n, &ok); return ok ? p : dlsym(h, n); }
void *sim_dlvsym(void *h, const char *n, const char *v) { bool ok; void *p = dlsym_common(n, &ok); return ok ? p : dlvsym(h, n, v); }

static long do_rseq(rseq_area *a, u32 len, int flags, u32 sig) {
	yield_point(S_YIELD);
	long r;
	bool query = !a && !len && !flags && !sig;
	if (!query && !(flags & 1) && W.rseq_denied && (!W.rseq_deny_first || (int) W.nreg < W.rseq_deny_first)) r = -W.rseq_denied;
	else {
		int e = 0;
		if (!query && (flags & 1) && cur->reg) e = fault(S_F_RSEQ, { EPERM, EINVAL, EFAULT });
		if (e) { unreg_fault_seen[cur->id] = true; unreg_fault_errno[cur->id] = e; r = -e; }
		else r = k_rseq(*cur, a, len, flags, sig);
	}
	if (!query) { W.rseq_calls.push_back(((long) cur->id << 32) | (flags & 1)); if (flags & 1) W.nunreg++; else W.nreg++; }
	trace_ev(0x45e9, cur->id, flags, (u64) r);
	yield_point(S_YIELD);
	return r;
}
long sim_syscall(long nr, ...) {
	va_list ap; va_start(ap, nr);
	long a[6]; for (auto &x : a) x = va_arg(ap, long);
	va_end(ap);
	if (nr == SYS_rseq) {
		long r = do_rseq((rseq_area *) a[0], (u32) a[1], (int) a[2], (u32) a[3]);
		if (r < 0) { errno = (int) -r; return -1; }
		return r;
	}
	if (nr == SYS_getcpu) {
		yield_point(S_YIELD);
		if (int e = fault(S_F_GETCPU, { ENOSYS, EFAULT })) { errno = e; return -1; }
		if (a[0]) *(unsigned *) a[0] = (unsigned) cur->cpu;
		if (a[1]) *(unsigned *) a[1] = (unsigned) S.node_of[cur->cpu];
		yield_point(S_YIELD);
		return 0;
	}
	if (nr == SYS_memfd_create) return sim_memfd_create((const char *) a[0], (unsigned) a[1]);
	if (nr == SYS_munmap) return sim_munmap((void *) a[0], (size_t) a[1]);
	if (nr == SYS_madvise) return sim_madvise((void *) a[0], (size_t) a[1], (int) a[2]);
	return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sim_sched_getcpu() {
	yield_point(S_YIELD);
	if (int e = fault(S_F_SCHEDGETCPU, { ENOSYS })) { errno = e; return -1; }
	int c = cur->cpu;
	yield_point(S_YIELD);
	return c;
}
int sim_getcpu(unsigned *c, unsigned *n) { return (int) sim_syscall(SYS_getcpu, (long) c, (long) n, 0L); }
int sim_numa_node_of_cpu(int c) {
	if (int e = fault(S_F_NUMANODE, { EINVAL })) { errno = e; return -1; }
	if (W.numa_node) return W.numa_node(c);
	errno = EINVAL; return -1;
}
int sim_numa_available() { return 0; }
long sim_move_pages(int pid, unsigned long n, void **pages, const int *nodes, int *status, int flags) {
	if (W.move_pages) return W.move_pages(pid, n, pages, nodes, status, flags);
	errno = ENOSYS; return -1;
}

// ------------------------------------------------------------ locks
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mtx[m] = 0; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { mtx.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
	yield_point(S_YIELD); check_heap((u64) m);
	while (mtx[m]) {
		if (mtx[m] == cur->id + 1) violate("deadlock", "thread %d locks a mutex it already holds (op %d)", cur->id, cur->op ? cur->op->id : 0);
		block_on(m);
	}
	mtx[m] = cur->id + 1;
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { yield_point(S_YIELD); if (mtx[m]) return EBUSY; mtx[m] = cur->id + 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
	check_heap((u64) m);
	if (mtx[m] != cur->id + 1) violate("lock-misuse", "thread %d unlocks a mutex it does not hold (op %d)", cur->id, cur->op ? cur->op->id : 0);
	mtx[m] = 0; wake_all(m);
	yield_point(S_YIELD);
	return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *m, int) { mtx[(void *) m] = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *m) { mtx.erase((void *) m); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *) m); }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { return sim_pthread_mutex_unlock((pthread_mutex_t *) m); }
int sim_pthread_spin_trylock(pthread_spinlock_t *m) { return sim_pthread_mutex_trylock((pthread_mutex_t *) m); }
int sim_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { rwl[m] = { 0, 0 }; return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { rwl.erase(m); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { yield_point(S_YIELD); while (rwl[m].second) block_on(m); rwl[m].first++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { yield_point(S_YIELD); while (rwl[m].second || rwl[m].first) block_on(m); rwl[m].second = cur->id + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (rwl[m].second) rwl[m].second = 0; else rwl[m].first--; wake_all(m); yield_point(S_YIELD); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
	yield_point(S_YIELD);
	while (onces[o] == 1) block_on(o);
	if (onces[o] == 0) { onces[o] = 1; f(); onces[o] = 2; wake_all(o); }
	return 0;
}
int sim_sched_yield() { yield_point(S_YIELD); return 0; }

// ------------------------------------------------------------ diagnostics
static void note(const char *s) { n_stderr++; snprintf(last_stderr, sizeof last_stderr, "%s", s); for (char *p = last_stderr; *p; p++) if (*p == '\n') *p = ' '; }
int sim_fprintf(FILE *, const char *f, ...) { char b[480]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); note(b); return n; }
int sim_vfprintf(FILE *, const char *f, va_list ap) { char b[480]; int n = vsnprintf(b, sizeof b, f, ap); note(b); return n; }
int sim_printf(const char *f, ...) { char b[480]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); note(b); return n; }
int sim_fputs(const char *s, FILE *) { note(s); return 0; }
int sim_puts(const char *s) { note(s); return 0; }
size_t sim_fwrite(const void *s, size_t a, size_t b, FILE *) { std::string x((const char *) s, a * b); note(x.c_str()); return b; }
int sim_fputc(int c, FILE *) { return c; }
void sim_perror(const char *s) { note(s); }
[[noreturn]] void sim_abort() { lib_abort(n_stderr ? last_stderr : "abort()"); }
[[noreturn]] void sim_assert_fail(const char *e, const char *, unsigned, const char *fn) {
	char b[300]; snprintf(b, sizeof b, "assertion failed: %s in %s", e, fn); lib_abort(b);
}
} // extern "C"
