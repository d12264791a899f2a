// Preload library that puts the simulator between a process and the operating system: every open, read and
// write that touches the run's input file or output file is answered according to the run's fault plan, which the
// simulator has laid down in a shared file. Nothing here is random and no clock is read.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NONE UINT64_MAX
#define EINTR_NOW 0xffffffffu
#define LOGMAX 16384

struct plan {
    // asked for
    uint64_t in_dev, in_ino, out_dev, out_ino;
    uint64_t in_at, in_errno, in_lasting;
    uint64_t out_at, out_errno, out_lasting, out_reject; // out_errno 0: accepts nothing
    uint64_t open_errno;
    uint64_t max_calls;
    uint64_t alloc_at, alloc_min, alloc_lasting; // which allocation of at least so many bytes fails
    uint64_t n_rd, n_wr;
    uint32_t rd[64], wr[64]; // 0 whole, k at most k bytes
    // what happened
    uint64_t calls, livelock;
    uint64_t in_fired, in_fired_at, out_fired, open_fired, short_r, short_w, intr_r, intr_w, eofs;
    uint64_t i_rd, i_wr;
    uint64_t allocs, alloc_fired;
    int64_t held, peak;
    uint64_t hash;
    uint64_t nlog;
    struct { uint32_t what, asked; int64_t result; uint64_t pos; } log[LOGMAX];
};

static struct plan *p;

static void setup(void) __attribute__((constructor));
static void setup(void) {
    if (p) return;
    const char *path = getenv("REZIP_SIM_PLAN");
    if (!path) return;
    int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    void *m = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m != MAP_FAILED) p = m;
}

static void mixin(uint64_t v) {
    for (int i = 0; i < 8; i++) {
        p->hash ^= (v >> (8 * i)) & 0xff;
        p->hash *= 0x100000001b3ull;
    }
}

static void note(uint32_t what, uint64_t asked, int64_t result, uint64_t pos) {
    mixin(what);
    mixin(asked);
    mixin((uint64_t)result);
    mixin(pos);
    if (p->nlog < LOGMAX) {
        p->log[p->nlog].what = what;
        p->log[p->nlog].asked = (uint32_t)asked;
        p->log[p->nlog].result = result;
        p->log[p->nlog].pos = pos;
    }
    p->nlog++;
    p->calls++;
    if (p->calls > p->max_calls) {
        p->livelock = 1;
        syscall(SYS_exit_group, 97);
    }
}

// The heap: what is held is counted, and an allocation may fail.
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static void *taken(void *q) {
    if (p && q) {
        p->held += malloc_usable_size(q);
        if (p->held > p->peak) p->peak = p->held;
    }
    return q;
}

static int refused(size_t n) {
    if (!p || n < p->alloc_min) return 0;
    uint64_t i = p->allocs++;
    if (i != p->alloc_at && !(p->alloc_lasting && i > p->alloc_at)) return 0;
    if (!p->alloc_fired++) note(4, n, -ENOMEM, i);
    errno = ENOMEM;
    return 1;
}

void *malloc(size_t n) { return refused(n) ? 0 : taken(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) n = SIZE_MAX;
    return refused(n) ? 0 : taken(__libc_calloc(a, b));
}
void *realloc(void *q, size_t n) {
    if (refused(n)) return 0;
    size_t before = q ? malloc_usable_size(q) : 0;
    void *r = __libc_realloc(q, n);
    if (p && (r || n == 0)) p->held -= before;
    return taken(r);
}
void *memalign(size_t a, size_t n) { return refused(n) ? 0 : taken(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **to, size_t a, size_t n) {
    int e = errno;
    void *q = memalign(a, n);
    errno = e;
    if (!q) return ENOMEM;
    *to = q;
    return 0;
}
void free(void *q) {
    if (p && q) p->held -= malloc_usable_size(q);
    __libc_free(q);
}

// 0 neither, 1 the input, 2 the output
static int role(int fd) {
    if (!p) return 0;
    struct stat st;
    int e = errno;
    int r = syscall(SYS_fstat, fd, &st);
    errno = e;
    if (r != 0) return 0;
    if (st.st_ino == p->in_ino && st.st_dev == p->in_dev) return 1;
    if (st.st_ino == p->out_ino && st.st_dev == p->out_dev) return 2;
    return 0;
}

static uint64_t where(int fd) {
    int e = errno;
    off_t o = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    errno = e;
    return o < 0 ? 0 : (uint64_t)o;
}

// Decides about a read: how many bytes may be read, or -1 with errno.
static ssize_t gate_in(size_t want, uint64_t pos, uint64_t *step) {
    *step = 0;
    if (want == 0) return 0;
    uint32_t a = p->n_rd ? p->rd[p->i_rd++ % p->n_rd] : 0;
    if (a == EINTR_NOW) {
        p->intr_r++;
        note(1, want, -EINTR, pos);
        errno = EINTR;
        return -1;
    }
    if (pos >= p->in_at && (p->in_lasting || !p->in_fired)) {
        if (!p->in_fired) p->in_fired_at = pos;
        p->in_fired++;
        note(1, want, -(int64_t)p->in_errno, pos);
        errno = (int)p->in_errno;
        return -1;
    }
    size_t n = want;
    if (pos < p->in_at && n > p->in_at - pos) n = p->in_at - pos;
    if (a && n > a) { n = a; p->short_r++; }
    return (ssize_t)n;
}

static ssize_t gate_out(size_t want, uint64_t pos) {
    if (want == 0) return 0;
    uint32_t a = p->n_wr ? p->wr[p->i_wr++ % p->n_wr] : 0;
    if (a == EINTR_NOW) {
        p->intr_w++;
        note(2, want, -EINTR, pos);
        errno = EINTR;
        return -1;
    }
    if ((p->out_lasting || !p->out_fired)
        && (pos >= p->out_at || (p->out_reject && p->out_at != NONE && pos + want > p->out_at))) {
        p->out_fired++;
        note(2, want, -(int64_t)p->out_errno, pos);
        if (p->out_errno == 0) return 0;
        errno = (int)p->out_errno;
        return -1;
    }
    size_t n = want;
    if (pos < p->out_at && p->out_at != NONE && n > p->out_at - pos) { n = p->out_at - pos; p->short_w++; }
    if (a && n > a) { n = a; p->short_w++; }
    return (ssize_t)n;
}

ssize_t read(int fd, void *buf, size_t count) {
    if (role(fd) != 1) return syscall(SYS_read, fd, buf, count);
    uint64_t pos = where(fd), step;
    ssize_t n = gate_in(count, pos, &step);
    if (n <= 0) return n;
    n = syscall(SYS_read, fd, buf, n);
    if (n == 0) p->eofs++;
    note(1, count, n, pos);
    return n;
}

ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    if (role(fd) != 1) return syscall(SYS_readv, fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}

ssize_t pread64(int fd, void *buf, size_t count, off64_t at) {
    if (role(fd) != 1) return syscall(SYS_pread64, fd, buf, count, at);
    uint64_t step;
    ssize_t n = gate_in(count, (uint64_t)at, &step);
    if (n <= 0) return n;
    n = syscall(SYS_pread64, fd, buf, n, at);
    if (n == 0) p->eofs++;
    note(1, count, n, (uint64_t)at);
    return n;
}
ssize_t pread(int fd, void *buf, size_t count, off_t at) { return pread64(fd, buf, count, at); }

ssize_t write(int fd, const void *buf, size_t count) {
    if (role(fd) != 2) return syscall(SYS_write, fd, buf, count);
    uint64_t pos = where(fd);
    ssize_t n = gate_out(count, pos);
    if (n <= 0) return n;
    n = syscall(SYS_write, fd, buf, n);
    note(2, count, n, pos);
    return n;
}

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (role(fd) != 2) return syscall(SYS_writev, fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}

static int opened(int fd) {
    if (fd >= 0 && role(fd) == 1) {
        if (p->open_errno) {
            p->open_fired++;
            note(3, 0, -(int64_t)p->open_errno, 0);
            syscall(SYS_close, fd);
            errno = (int)p->open_errno;
            return -1;
        }
        note(3, 0, 0, 0);
    }
    return fd;
}

#define MODE(last) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { MODE(flags) return opened(syscall(SYS_openat, AT_FDCWD, path, flags, mode)); }
int open64(const char *path, int flags, ...) { MODE(flags) return opened(syscall(SYS_openat, AT_FDCWD, path, flags, mode)); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return opened(syscall(SYS_openat, d, path, flags, mode)); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return opened(syscall(SYS_openat, d, path, flags, mode)); }

// Copies inside the kernel would go round the seam: callers fall back to read and write.
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = EINVAL; return -1; }
