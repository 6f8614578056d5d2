/* The simulated operating system under fpcalc and compare, preloaded into the real binaries.
 * Media reads, standard output and the clock are decided by a plan (file named by SIMIO_PLAN);
 * everything that happened is appended to the event log (SIMIO_LOG).
 *
 * Plan, one directive per line, all numbers decimal:
 *   media I PATH            file number I (the real bytes)
 *   loop I FROM TO SIZE     logical file: bytes 0..TO, then FROM..TO again and again, SIZE bytes in all
 *   cap I N                 no read returns more than N bytes
 *   short I CALL N          read number CALL (from 0) returns at most N bytes
 *   err I CALL ERRNO        read number CALL fails, later ones work again
 *   errat I OFF ERRNO       every read at or after OFF fails
 *   once I OFF ERRNO        the first read that would deliver byte OFF fails
 *   eof I OFF               the file ends at OFF although its metadata says otherwise
 *   pipe I                  not seekable, no length
 *   open I ERRNO  stat I ERRNO  seek I ERRNO    that call fails
 *   clock NS                the clock at the beginning
 *   tick I OFF NS           the clock moves by NS once byte OFF of file I has been delivered
 *                           (-1: while the file is being opened)
 *   wshort CALL N           write number CALL to standard output takes at most N bytes
 *   wcap N                  no write to standard output takes more than N bytes
 *   werr CALL ERRNO ONCE    write number CALL fails (and all later ones unless ONCE)
 *   rand SEED               what getrandom returns
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NMEDIA 2
#define NRULE 256

struct rule { char kind; int media; long long a, b, c; int used; };
struct media {
    char path[512];
    int known, looped, pipe;
    long long loop_a, loop_b, size;   /* size: what metadata reports */
    long long end;                    /* where reads end */
    long long cap, errat; int errat_no;
    int open_err, stat_err, seek_err;
    long long calls, high;
};
struct handle { int used, media; long long pos; };

static struct media M[NMEDIA];
static struct rule R[NRULE];
static int nrules;
static struct handle H[1024];
static long long now_ns, writes, clock_reads, wcap;
static uint64_t rnd;
static int logfd = -1, active;
static int wfail_no;
static long long heap_now;

static long sysx(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    return syscall(n, a, b, c, d, e, f);
}

static void say(const char *fmt, ...) {
    char buf[256];
    if (logfd < 0) return;
    int saved = errno;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > 0) sysx(SYS_write, (long)logfd, (long)buf, (long)n, 0L, 0L, 0L);
    errno = saved;
}

static void rule(char k, int m, long long a, long long b, long long c) {
    if (nrules < NRULE) R[nrules++] = (struct rule){k, m, a, b, c, 0};
}

__attribute__((constructor)) static void init(void) {
    const char *plan = getenv("SIMIO_PLAN"), *log = getenv("SIMIO_LOG");
    if (!plan || !log) return;
    int fd = (int)sysx(SYS_openat, (long)AT_FDCWD, (long)plan, (long)(O_RDONLY | O_CLOEXEC), 0L, 0L, 0L);
    if (fd < 0) _exit(97);
    static char buf[65536];
    long n = 0, k;
    while ((k = sysx(SYS_read, (long)fd, (long)(buf + n), (long)(sizeof buf - 1 - n), 0L, 0L, 0L)) > 0) n += k;
    sysx(SYS_close, (long)fd, 0L, 0L, 0L, 0L, 0L);
    buf[n] = 0;
    int l = (int)sysx(SYS_openat, (long)AT_FDCWD, (long)log, (long)(O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC), 0600L, 0L, 0L);
    if (l < 0) _exit(97);
    logfd = (int)sysx(SYS_fcntl, (long)l, (long)F_DUPFD_CLOEXEC, 900L, 0L, 0L, 0L);
    if (logfd < 0) logfd = l;
    else sysx(SYS_close, (long)l, 0L, 0L, 0L, 0L, 0L);
    for (int i = 0; i < NMEDIA; i++) M[i].cap = M[i].errat = -1;
    char *save = 0;
    for (char *s = strtok_r(buf, "\n", &save); s; s = strtok_r(0, "\n", &save)) {
        int i = 0;
        long long a = 0, b = 0, c = 0;
        char p[512];
        if (sscanf(s, "media %d %511[^\n]", &i, p) == 2 && i >= 0 && i < NMEDIA) {
            struct stat st;
            strcpy(M[i].path, p);
            M[i].known = 1;
            if (sysx(SYS_newfstatat, (long)AT_FDCWD, (long)p, (long)&st, 0L, 0L, 0L) == 0)
                M[i].size = M[i].end = st.st_size;
        } else if (sscanf(s, "loop %d %lld %lld %lld", &i, &a, &b, &c) == 4) {
            M[i].looped = 1; M[i].loop_a = a; M[i].loop_b = b; M[i].size = M[i].end = c;
        } else if (sscanf(s, "cap %d %lld", &i, &a) == 2) M[i].cap = a;
        else if (sscanf(s, "short %d %lld %lld", &i, &a, &b) == 3) rule('s', i, a, b, 0);
        else if (sscanf(s, "err %d %lld %lld", &i, &a, &b) == 3) rule('e', i, a, b, 0);
        else if (sscanf(s, "errat %d %lld %lld", &i, &a, &b) == 3) M[i].errat = a, M[i].errat_no = (int)b;
        else if (sscanf(s, "once %d %lld %lld", &i, &a, &b) == 3) rule('o', i, a, b, 0);
        else if (sscanf(s, "eof %d %lld", &i, &a) == 2) M[i].end = a;
        else if (sscanf(s, "pipe %d", &i) == 1) M[i].pipe = 1;
        else if (sscanf(s, "open %d %lld", &i, &a) == 2) M[i].open_err = (int)a;
        else if (sscanf(s, "stat %d %lld", &i, &a) == 2) M[i].stat_err = (int)a;
        else if (sscanf(s, "seek %d %lld", &i, &a) == 2) M[i].seek_err = (int)a;
        else if (sscanf(s, "clock %lld", &a) == 1) now_ns = a;
        else if (sscanf(s, "tick %d %lld %lld", &i, &a, &b) == 3) rule('t', i, a, b, 0);
        else if (sscanf(s, "wshort %lld %lld", &a, &b) == 2) rule('w', 0, a, b, 0);
        else if (sscanf(s, "wcap %lld", &a) == 1) wcap = a;
        else if (sscanf(s, "werr %lld %lld %lld", &a, &b, &c) == 3) rule('x', 0, a, b, c);
        else if (sscanf(s, "rand %lld", &a) == 1) rnd = (uint64_t)a;
        else _exit(98);
    }
    active = 1;
}

static void ticks(int m) {
    for (int i = 0; i < nrules; i++)
        if (R[i].kind == 't' && R[i].media == m && !R[i].used && M[m].high > R[i].a) {
            R[i].used = 1;
            now_ns += R[i].b;
            say("T %d %lld %lld\n", m, M[m].high, now_ns);
        }
}

/* ---- media files ---- */

static int media_of_path(const char *p) {
    if (!active || !p) return -1;
    for (int i = 0; i < NMEDIA; i++)
        if (M[i].known && !strcmp(M[i].path, p)) return i;
    return -1;
}

static struct handle *handle_of(int fd) {
    return active && fd >= 0 && fd < 1024 && H[fd].used ? &H[fd] : 0;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    int m = media_of_path(path);
    if (m >= 0 && M[m].open_err) {
        say("O %d %d\n", m, M[m].open_err);
        errno = M[m].open_err;
        return -1;
    }
    int fd = (int)sysx(SYS_openat, (long)dir, (long)path, (long)flags, (long)mode, 0L, 0L);
    if (m >= 0 && fd >= 0 && fd < 1024) {
        H[fd] = (struct handle){1, m, 0};
        say("O %d 0\n", m);
        ticks(m);
    }
    return fd;
}

#define OPEN_BODY(dir)                                   \
    mode_t mode = 0;                                     \
    if (flags & (O_CREAT | O_TMPFILE)) {                 \
        va_list ap; va_start(ap, flags);                 \
        mode = va_arg(ap, mode_t); va_end(ap);           \
    }                                                    \
    return do_open(dir, path, flags, mode);
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int dir, const char *path, int flags, ...) { OPEN_BODY(dir) }
int openat64(int dir, const char *path, int flags, ...) { OPEN_BODY(dir) }

int close(int fd) {
    if (fd == logfd && active) return 0;
    if (active && fd >= 0 && fd < 1024) H[fd].used = 0;
    return (int)sysx(SYS_close, (long)fd, 0L, 0L, 0L, 0L, 0L);
}

/* one simulated read at a position */
static ssize_t media_read(int fd, int m, const struct iovec *v, int nv, long long pos) {
    struct media *f = &M[m];
    long long call = f->calls++, want = 0, lim;
    for (int i = 0; i < nv; i++) want += (long long)v[i].iov_len;
    lim = f->end - pos;
    if (lim < 0) lim = 0;
    if (lim > want) lim = want;
    if (f->cap >= 0 && lim > f->cap) lim = f->cap;
    int e = 0;
    for (int i = 0; i < nrules && !e; i++) {
        if (R[i].media != m || R[i].used) continue;
        if (R[i].kind == 's' && R[i].a == call) { R[i].used = 1; if (lim > R[i].b && R[i].b > 0) lim = R[i].b; }
        else if (R[i].kind == 'e' && R[i].a == call) { R[i].used = 1; e = (int)R[i].b; }
        else if (R[i].kind == 'o' && pos <= R[i].a && pos + want > R[i].a) {
            /* deliver what is before the bad byte first, then fail once */
            if (pos == R[i].a || lim == 0) { R[i].used = 1; e = (int)R[i].b; }
            else if (pos + lim > R[i].a) lim = R[i].a - pos;
        }
    }
    if (!e && f->errat >= 0 && want > 0) {
        if (pos >= f->errat) e = f->errat_no;
        else if (pos + lim > f->errat) lim = f->errat - pos;
    }
    if (e) {
        say("E %d %lld %lld %d\n", m, call, pos, e);
        errno = e;
        return -1;
    }
    long long got = 0;
    for (int i = 0; i < nv && got < lim; i++) {
        long long part = (long long)v[i].iov_len, done = 0;
        if (part > lim - got) part = lim - got;
        while (done < part) {
            long long at = pos + got + done, n = part - done;
            if (f->looped && at >= f->loop_b) {
                long long len = f->loop_b - f->loop_a;
                at = f->loop_a + (at - f->loop_b) % len;
            }
            if (f->looped && n > f->loop_b - at) n = f->loop_b - at;
            long k = sysx(SYS_pread64, (long)fd, (long)((char *)v[i].iov_base + done), (long)n, (long)at, 0L, 0L);
            if (k <= 0) break;
            done += k;
        }
        got += done;
        if (done < part) break;
    }
    if (pos + got > f->high) f->high = pos + got;
    say("R %d %lld %lld %lld %lld %lld\n", m, call, pos, got, want, heap_now);
    ticks(m);
    return (ssize_t)got;
}

ssize_t read(int fd, void *buf, size_t n) {
    struct handle *h = handle_of(fd);
    if (!h) return (ssize_t)sysx(SYS_read, (long)fd, (long)buf, (long)n, 0L, 0L, 0L);
    struct iovec v = {buf, n};
    ssize_t k = media_read(fd, h->media, &v, 1, h->pos);
    if (k > 0) h->pos += k;
    return k;
}
ssize_t readv(int fd, const struct iovec *v, int nv) {
    struct handle *h = handle_of(fd);
    if (!h) return (ssize_t)sysx(SYS_readv, (long)fd, (long)v, (long)nv, 0L, 0L, 0L);
    ssize_t k = media_read(fd, h->media, v, nv, h->pos);
    if (k > 0) h->pos += k;
    return k;
}
static ssize_t do_pread(int fd, void *buf, size_t n, long long at) {
    struct handle *h = handle_of(fd);
    if (!h) return (ssize_t)sysx(SYS_pread64, (long)fd, (long)buf, (long)n, (long)at, 0L, 0L);
    if (M[h->media].pipe) { errno = ESPIPE; return -1; }
    struct iovec v = {buf, n};
    return media_read(fd, h->media, &v, 1, at);
}
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return do_pread(fd, buf, n, at); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t at) { return do_pread(fd, buf, n, at); }

static long long do_seek(int fd, long long off, int whence) {
    struct handle *h = handle_of(fd);
    if (!h) return sysx(SYS_lseek, (long)fd, (long)off, (long)whence, 0L, 0L, 0L);
    struct media *f = &M[h->media];
    if (f->pipe || f->seek_err) {
        errno = f->pipe ? ESPIPE : f->seek_err;
        say("S %d %d\n", h->media, errno);
        return -1;
    }
    long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : f->size;
    if (base + off < 0) { errno = EINVAL; return -1; }
    h->pos = base + off;
    say("S %d 0 %lld\n", h->media, h->pos);
    return h->pos;
}
off_t lseek(int fd, off_t off, int whence) { return do_seek(fd, off, whence); }
off64_t lseek64(int fd, off64_t off, int whence) { return do_seek(fd, off, whence); }

static int stat_media(int fd, const char *path) {
    struct handle *h = handle_of(fd);
    if (h && (!path || !*path)) return h->media;
    return media_of_path(path);
}
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    int m = stat_media(dir, path);
    if (m >= 0 && M[m].stat_err) {
        say("F %d %d\n", m, M[m].stat_err);
        errno = M[m].stat_err;
        return -1;
    }
    int r = (int)sysx(SYS_statx, (long)dir, (long)path, (long)flags, (long)mask, (long)st, 0L);
    if (m >= 0 && r == 0) {
        st->stx_size = M[m].pipe ? 0 : (uint64_t)M[m].size;
        if (M[m].pipe) st->stx_mode = (st->stx_mode & ~S_IFMT) | S_IFIFO;
    }
    return r;
}
static int do_stat(int m, int r, struct stat *st) {
    if (m >= 0 && M[m].stat_err) {
        say("F %d %d\n", m, M[m].stat_err);
        errno = M[m].stat_err;
        return -1;
    }
    if (m >= 0 && r == 0) {
        st->st_size = M[m].pipe ? 0 : M[m].size;
        if (M[m].pipe) st->st_mode = (st->st_mode & ~S_IFMT) | S_IFIFO;
    }
    return r;
}
int fstat(int fd, struct stat *st) {
    return do_stat(stat_media(fd, 0), (int)sysx(SYS_fstat, (long)fd, (long)st, 0L, 0L, 0L, 0L), st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat(const char *restrict p, struct stat *restrict st) {
    return do_stat(stat_media(-1, p), (int)sysx(SYS_newfstatat, (long)AT_FDCWD, (long)p, (long)st, 0L, 0L, 0L), st);
}
int stat64(const char *restrict p, struct stat64 *restrict st) { return stat(p, (struct stat *)st); }

/* ---- standard output ---- */

static ssize_t out_write(const struct iovec *v, int nv) {
    long long call = writes++, want = 0, lim;
    for (int i = 0; i < nv; i++) want += (long long)v[i].iov_len;
    lim = want;
    if (wcap > 0 && lim > wcap) { lim = wcap; say("w %lld %lld\n", call, lim); }
    int e = wfail_no;
    for (int i = 0; i < nrules && !e; i++) {
        if (R[i].kind == 'w' && R[i].a == call && R[i].b > 0 && lim > R[i].b) { lim = R[i].b; say("w %lld %lld\n", call, lim); }
        if (R[i].kind == 'x' && R[i].a == call) { e = (int)R[i].b; if (!R[i].c) wfail_no = e; }
    }
    if (e) {
        say("X %lld %d\n", call, e);
        errno = e;
        return -1;
    }
    long long got = 0;
    for (int i = 0; i < nv && got < lim; i++) {
        long long part = (long long)v[i].iov_len, done = 0;
        if (part > lim - got) part = lim - got;
        while (done < part) {
            long k = sysx(SYS_write, 1L, (long)((char *)v[i].iov_base + done), (long)(part - done), 0L, 0L, 0L);
            if (k <= 0) break;
            done += k;
        }
        got += done;
        if (done < part) break;
    }
    say("W %lld %lld %lld\n", call, got, want);
    return (ssize_t)got;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!active || fd != 1) return (ssize_t)sysx(SYS_write, (long)fd, (long)buf, (long)n, 0L, 0L, 0L);
    struct iovec v = {(void *)buf, n};
    return out_write(&v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int nv) {
    if (!active || fd != 1) return (ssize_t)sysx(SYS_writev, (long)fd, (long)v, (long)nv, 0L, 0L, 0L);
    return out_write(v, nv);
}

/* ---- clock and randomness ---- */

int clock_gettime(clockid_t id, struct timespec *t) {
    if (!active) return (int)sysx(SYS_clock_gettime, (long)id, (long)t, 0L, 0L, 0L, 0L);
    /* monotonic clocks never go backwards: they only count readings */
    clock_reads++;
    long long ns = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? now_ns : 1000000000LL + clock_reads * 1000;
    t->tv_sec = ns / 1000000000LL;
    t->tv_nsec = ns % 1000000000LL;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) say("C %lld\n", ns);
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    (void)z;
    if (!active) return (int)sysx(SYS_gettimeofday, (long)t, 0L, 0L, 0L, 0L, 0L);
    t->tv_sec = now_ns / 1000000000LL;
    t->tv_usec = now_ns % 1000000000LL / 1000;
    say("C %lld\n", now_ns);
    return 0;
}
time_t time(time_t *t) {
    if (!active) { struct timespec s; sysx(SYS_clock_gettime, 0L, (long)&s, 0L, 0L, 0L, 0L); if (t) *t = s.tv_sec; return s.tv_sec; }
    say("C %lld\n", now_ns);
    time_t v = (time_t)(now_ns / 1000000000LL);
    if (t) *t = v;
    return v;
}
static void fill(unsigned char *p, size_t n) {
    while (n--) {
        rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
        *p++ = (unsigned char)(rnd >> 56);
    }
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
    if (!active) return (ssize_t)sysx(SYS_getrandom, (long)b, (long)n, (long)flags, 0L, 0L, 0L);
    fill(b, n);
    return (ssize_t)n;
}

/* ---- heap accounting ---- */

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static void *took(void *p) {
    if (p) __atomic_add_fetch(&heap_now, (long long)malloc_usable_size(p), __ATOMIC_RELAXED);
    return p;
}
void *malloc(size_t n) { return took(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
    void *q = took(__libc_memalign(a, n));
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void *realloc(void *p, size_t n) {
    long long old = p ? (long long)malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || n == 0) __atomic_add_fetch(&heap_now, (q ? (long long)malloc_usable_size(q) : 0) - old, __ATOMIC_RELAXED);
    return q;
}
void free(void *p) {
    if (p) __atomic_sub_fetch(&heap_now, (long long)malloc_usable_size(p), __ATOMIC_RELAXED);
    __libc_free(p);
}
