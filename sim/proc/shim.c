// The world around a real `cordy` process, preloaded into it.  Standard input, output and error, every file
// under /sim/ and every library named sim:... exist only in here; what they do, including how they fail,
// is read from descriptor 0 before the program starts.  Everything that happens is written to descriptor 1.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>

#define PUB __attribute__((visibility("default")))
static bool on = false;

// ------------------------------------------------------------------ log
static void raw(const void *p, size_t n) { const char *c = p; while (n) { long k = syscall(SYS_write, 1, c, n); if (k < 0) { if (errno == EINTR) continue; syscall(SYS_exit_group, 99); } c += k; n -= k; } }
static void rec2(char tag, const char *a, size_t an, const void *b, size_t bn) {
    char h[9]; h[0] = tag; uint32_t x = an, y = bn; memcpy(h + 1, &x, 4); memcpy(h + 5, &y, 4);
    raw(h, 9); if (an) raw(a, an); if (bn) raw(b, bn);
}
static void rec(char tag, const char *a) { int e = errno; rec2(tag, a, strlen(a), 0, 0); errno = e; }
static void recf(char tag, const char *f, ...) { char b[2200]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); rec(tag, b); }

// ------------------------------------------------------------------ scenario
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static char *buf; static size_t blen, bpos;
static char *in; static size_t in_len, in_pos; static uint64_t in_seed, in_ops; static long in_fail = -1; static int in_errno;
static uint64_t out_seed, out_ops; static long out_limit = -1; static int out_errno; static size_t out_done; static bool out_failed;
static uint64_t err_seed, err_ops;
static long crash_at = -1, calls; static uint64_t fs_seed, fs_ops;

struct file { char *path; char *data; size_t len, cap; bool dir, gone; };
static struct file files[128]; static int nfiles;
struct fault { long op; char stage; int err; long after; };
static struct fault faults[64]; static int nfaults; static long opens;
struct lib { char *name; long fail_first; bool no_init; char *missing; long attempts; int id; };
static struct lib libs[16]; static int nlibs;
static char *outcome[256]; static int noutcomes; static long ncalls;

static char *token(size_t n) { char *s = malloc(n + 1); memcpy(s, buf + bpos, n); s[n] = 0; bpos += n; return s; }
static long num(void) { while (bpos < blen && (buf[bpos] == ' ' || buf[bpos] == '\n')) bpos++; char *e; long v = strtol(buf + bpos, &e, 10); bpos = e - buf; return v; }
static uint64_t unum(void) { while (bpos < blen && (buf[bpos] == ' ' || buf[bpos] == '\n')) bpos++; char *e; uint64_t v = strtoull(buf + bpos, &e, 10); bpos = e - buf; return v; }
static char *str(size_t *n) { long k = num(); bpos++; if (n) *n = k; return token(k); }
static struct file *add(char *path) { struct file *f = &files[nfiles++]; if (nfiles > 127) syscall(SYS_exit_group, 98); memset(f, 0, sizeof *f); f->path = path; return f; }

static int (*r_open)(const char *, int, ...); static ssize_t (*r_read)(int, void *, size_t); static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int); static ssize_t (*r_readv)(int, const struct iovec *, int); static int (*r_close)(int); static off_t (*r_lseek)(int, off_t, int);
static int (*r_fstat)(int, struct stat *); static int (*r_stat)(const char *, struct stat *); static int (*r_lstat)(const char *, struct stat *); static int (*r_statx)(int, const char *, int, unsigned, struct statx *);
static int (*r_ftruncate)(int, off_t); static int (*r_fsync)(int); static int (*r_rename)(const char *, const char *); static int (*r_unlink)(const char *); static int (*r_access)(const char *, int);
static void *(*r_dlopen)(const char *, int); static void *(*r_dlsym)(void *, const char *); static int (*r_dlclose)(void *); static char *(*r_dlerror)(void);
static int (*r_fcntl)(int, int, ...); static int (*r_fchmod)(int, mode_t);

static void setup_real(void) {
    if (r_dlsym) return;
    r_dlsym = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34"); if (!r_dlsym) r_dlsym = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
#define R(n) r_##n = r_dlsym(RTLD_NEXT, #n)
    R(open); R(read); R(write); R(writev); R(readv); R(close); R(lseek); R(fstat); R(stat); R(lstat); R(statx); R(ftruncate); R(fsync); R(rename); R(unlink); R(access); R(dlopen); R(dlclose); R(dlerror); R(fcntl); R(fchmod);
}

__attribute__((constructor)) static void start(void) {
    setup_real();
    if (!getenv("SIM_WORLD")) return;
    size_t cap = 1 << 16; buf = malloc(cap + 1);
    for (;;) { if (blen == cap) { cap *= 2; buf = realloc(buf, cap + 1); } long k = syscall(SYS_read, 0, buf + blen, cap - blen); if (k < 0) { if (errno == EINTR) continue; break; } if (k == 0) break; blen += k; }
    buf[blen] = 0;
    while (bpos < blen) {
        while (bpos < blen && (buf[bpos] == '\n' || buf[bpos] == ' ')) bpos++;
        if (bpos >= blen) break;
        char k = buf[bpos++];
        switch (k) {
            case 'i': in_seed = unum(); in_fail = num(); in_errno = num(); in = str(&in_len); break;
            case 'o': out_seed = unum(); out_limit = num(); out_errno = num(); break;
            case 'e': err_seed = unum(); break;
            case 'c': crash_at = num(); break;
            case 's': fs_seed = unum(); break;
            case 'f': { char *p = str(0); struct file *f = add(p); f->data = str(&f->len); f->cap = f->len; break; }
            case 'd': { struct file *f = add(str(0)); f->dir = true; break; }
            case 'x': { struct fault *f = &faults[nfaults++]; f->op = num(); bpos++; f->stage = buf[bpos++]; f->err = num(); f->after = num(); break; }
            case 'l': { struct lib *l = &libs[nlibs++]; l->id = nlibs - 1; l->name = str(0); l->fail_first = num(); l->no_init = num(); l->missing = str(0); break; }
            case 'r': outcome[noutcomes++] = str(0); break;
            case 'u': unsetenv(str(0)); break;
            default: syscall(SYS_exit_group, 97);
        }
    }
    unsetenv("LD_PRELOAD"); unsetenv("SIM_WORLD");
    on = true;
}

// ------------------------------------------------------------------ faults
static void step(void) { if (crash_at >= 0 && calls++ == crash_at) { rec('X', "the process is killed"); syscall(SYS_exit_group, 137); } }
static struct fault *fault(long op, char stage) { for (int i = 0; i < nfaults; i++) if (faults[i].op == op && faults[i].stage == stage) return &faults[i]; return 0; }
/// how many of n bytes are transferred: 0 stands for an interruption
static size_t piece(uint64_t seed, uint64_t *ops, size_t n, const char *what) {
    if (!seed || !n) return n;
    uint64_t h = mix(seed ^ mix(++*ops));
    int style = seed % 3;
    if (h % 5 == 0) { recf('X', "interrupted %s", what); return 0; }
    size_t k = n;
    if (style == 0) k = 1 + (h >> 8) % 3; else if (style == 1) k = 1 + (h >> 8) % 17; else if (h % 5 < 3) k = 1 + (h >> 8) % n;
    if (n > 2000 && k < 20) k += (h >> 8) % (n / 16);
    if (k < n) { recf('X', "short %s", what); return k; }
    return n;
}

// ------------------------------------------------------------------ streams
static ssize_t in_read(void *p, size_t n) {
    step();
    size_t end = in_fail >= 0 ? (size_t)in_fail : in_len;
    if (in_pos >= end) { if (in_fail >= 0) { rec('X', "input stream failure"); errno = in_errno; return -1; } rec('R', ""); return 0; }
    size_t k = end - in_pos < n ? end - in_pos : n;
    k = piece(in_seed, &in_ops, k, "read");
    if (!k) { errno = EINTR; return -1; }
    memcpy(p, in + in_pos, k); in_pos += k;
    return k;
}
static ssize_t out_write(int fd, const void *p, size_t n) {
    step();
    if (fd == 2) { size_t k = piece(err_seed, &err_ops, n, "write to standard error"); if (!k && n) { errno = EINTR; return -1; } rec2('E', p, k, 0, 0); return k; }
    if (n && out_limit >= 0 && (out_failed || out_done >= (size_t)out_limit)) { out_failed = true; rec('X', "output stream failure"); if (out_errno == 0) return 0; errno = out_errno; return -1; }
    size_t k = n;
    if (out_limit >= 0 && out_done + k > (size_t)out_limit) k = out_limit - out_done;
    k = piece(out_seed, &out_ops, k, "write");
    if (!k && n) { errno = EINTR; return -1; }
    rec2('O', p, k, 0, 0); out_done += k;
    return k;
}

// ------------------------------------------------------------------ files
struct fd { bool used; int file; size_t pos; int flags; long op; size_t moved; };
static struct fd fds[256];
#define BASE 4096
static bool sim_path(const char *p) { return on && p && !strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4]); }
static struct fd *sim_fd(int fd) { return on && fd >= BASE && fd < BASE + 256 && fds[fd - BASE].used ? &fds[fd - BASE] : 0; }
static int lookup(const char *p) { for (int i = 0; i < nfiles; i++) if (!files[i].gone && !strcmp(files[i].path, p)) return i; return -1; }
static bool parent(const char *p) { // the directory of a path exists
    char d[4096]; strncpy(d, p, 4095); d[4095] = 0; char *s = strrchr(d, '/'); if (!s) return false; *s = 0;
    if (!strcmp(d, "/sim")) return true;
    int i = lookup(d); return i >= 0 && files[i].dir;
}
static void grow(struct file *f, size_t n) { if (n > f->cap) { f->cap = n * 2 + 64; f->data = realloc(f->data, f->cap); } }

static int sim_open(const char *path, int flags) {
    step();
    if (fs_seed && mix(fs_seed ^ mix(++fs_ops)) % 7 == 0) { rec('X', "interrupted open"); errno = EINTR; return -1; }
    long op = opens++;
    struct fault *x = fault(op, 'o');
    if (x) { recf('X', "open failure"); recf('F', "open-failed %s", path); errno = x->err; return -1; }
    int i = lookup(path); bool w = (flags & O_ACCMODE) != O_RDONLY;
    if (i < 0 && !(flags & O_CREAT)) { recf('F', "open-failed %s", path); errno = ENOENT; return -1; }
    if (i >= 0 && files[i].dir && w) { recf('F', "open-failed %s", path); errno = EISDIR; return -1; }
    if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) { recf('F', "open-failed %s", path); errno = EEXIST; return -1; }
    if (i < 0 && !parent(path)) { recf('F', "open-failed %s", path); errno = ENOENT; return -1; }
    recf('F', "open %c %s", w ? 'w' : 'r', path);
    if (i < 0) { add(strdup(path)); i = nfiles - 1; rec2('W', path, strlen(path), "", 0); }
    if ((flags & O_TRUNC) && w) { files[i].len = 0; rec2('W', path, strlen(path), "", 0); }
    for (int k = 0; k < 256; k++) if (!fds[k].used) { fds[k] = (struct fd){ true, i, 0, flags, op, 0 }; return BASE + k; }
    errno = EMFILE; return -1;
}
static ssize_t sim_read(struct fd *d, void *p, size_t n) {
    step();
    struct file *f = &files[d->file];
    if (f->dir) { rec('X', "reading a directory"); errno = EISDIR; return -1; }
    struct fault *x = fault(d->op, 'r');
    size_t left = d->pos < f->len ? f->len - d->pos : 0, k = left < n ? left : n;
    if (x) { if (d->moved >= (size_t)x->after || !left) { rec('X', "file read failure"); errno = x->err; return -1; } if (d->moved + k > (size_t)x->after) k = x->after - d->moved; }
    if (k) { k = piece(fs_seed, &fs_ops, k, "file read"); if (!k) { errno = EINTR; return -1; } }
    memcpy(p, f->data + d->pos, k); d->pos += k; d->moved += k;
    return k;
}
static ssize_t sim_write(struct fd *d, const void *p, size_t n) {
    step();
    struct file *f = &files[d->file];
    struct fault *x = fault(d->op, 'w');
    size_t k = n;
    if (x && n) { if (d->moved >= (size_t)x->after) { rec('X', x->err ? "file write failure" : "file write accepting nothing"); if (!x->err) return 0; errno = x->err; return -1; } if (d->moved + k > (size_t)x->after) k = x->after - d->moved; }
    if (k) { k = piece(fs_seed, &fs_ops, k, "file write"); if (!k) { errno = EINTR; return -1; } }
    if (d->flags & O_APPEND) d->pos = f->len;
    grow(f, d->pos + k); if (d->pos > f->len) memset(f->data + f->len, 0, d->pos - f->len);
    memcpy(f->data + d->pos, p, k); d->pos += k; d->moved += k; if (d->pos > f->len) f->len = d->pos;
    char *pt = malloc(k + 8); uint64_t off = d->pos - k; memcpy(pt, &off, 8); memcpy(pt + 8, f->data + off, k);
    rec2('P', f->path, strlen(f->path), pt, k + 8); free(pt);
    return k;
}
static void sim_stat(struct file *f, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = f->len; st->st_nlink = 1; st->st_blksize = 4096; }

static int denied(const char *p, int flags) {
    // nothing real is ever written
    if (on && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT))) { recf('F', "outside %s", p); return 1; }
    return 0;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); }
PUB int open(const char *p, int flags, ...) { MODE setup_real(); if (sim_path(p)) return sim_open(p, flags); if (denied(p, flags)) { errno = EACCES; return -1; } return r_open(p, flags, m); }
PUB int open64(const char *p, int flags, ...) { MODE setup_real(); if (sim_path(p)) return sim_open(p, flags); if (denied(p, flags)) { errno = EACCES; return -1; } return r_open(p, flags, m); }
PUB int openat(int d, const char *p, int flags, ...) { MODE if (sim_path(p)) return sim_open(p, flags); if (denied(p, flags)) { errno = EACCES; return -1; } return syscall(SYS_openat, d, p, flags, m); }
PUB int openat64(int d, const char *p, int flags, ...) { MODE if (sim_path(p)) return sim_open(p, flags); if (denied(p, flags)) { errno = EACCES; return -1; } return syscall(SYS_openat, d, p, flags, m); }
PUB ssize_t read(int fd, void *p, size_t n) { if (on && fd == 0) return in_read(p, n); struct fd *d = sim_fd(fd); if (d) return sim_read(d, p, n); return syscall(SYS_read, fd, p, n); }
PUB ssize_t pread64(int fd, void *p, size_t n, off_t o) { struct fd *d = sim_fd(fd); if (d) { size_t k = d->pos; d->pos = o; ssize_t r = sim_read(d, p, n); d->pos = k; return r; } return syscall(SYS_pread64, fd, p, n, o); }
PUB ssize_t write(int fd, const void *p, size_t n) { if (on && (fd == 1 || fd == 2)) return out_write(fd, p, n); struct fd *d = sim_fd(fd); if (d) return sim_write(d, p, n); return syscall(SYS_write, fd, p, n); }
PUB ssize_t pwrite64(int fd, const void *p, size_t n, off_t o) { struct fd *d = sim_fd(fd); if (d) { size_t k = d->pos; d->pos = o; ssize_t r = sim_write(d, p, n); d->pos = k; return r; } return syscall(SYS_pwrite64, fd, p, n, o); }
PUB ssize_t writev(int fd, const struct iovec *v, int n) {
    if (on && (fd == 1 || fd == 2 || sim_fd(fd))) {
        size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len;
        char *b = malloc(t + 1); size_t at = 0; for (int i = 0; i < n; i++) { memcpy(b + at, v[i].iov_base, v[i].iov_len); at += v[i].iov_len; }
        ssize_t r = write(fd, b, t); int e = errno; free(b); errno = e; return r;
    }
    return syscall(SYS_writev, fd, v, n);
}
PUB ssize_t readv(int fd, const struct iovec *v, int n) { if (on && (fd == 0 || sim_fd(fd))) { for (int i = 0; i < n; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; } return syscall(SYS_readv, fd, v, n); }
PUB int close(int fd) { struct fd *d = sim_fd(fd); if (d) { step(); d->used = false; recf('F', "close %s", files[d->file].path); return 0; } return syscall(SYS_close, fd); }
static off_t do_seek(int fd, off_t o, int w) { struct fd *d = sim_fd(fd); if (d) { off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)d->pos : (off_t)files[d->file].len; d->pos = b + o; return d->pos; } if (on && fd >= 0 && fd < 3) { errno = ESPIPE; return -1; } return syscall(SYS_lseek, fd, o, w); }
PUB off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
PUB off_t lseek64(int fd, off_t o, int w) { return do_seek(fd, o, w); }
static int do_fstat(int fd, struct stat *st) { struct fd *d = sim_fd(fd); if (d) { sim_stat(&files[d->file], st); return 0; } setup_real(); return r_fstat(fd, st); }
PUB int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
PUB int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }
static int do_stat(const char *p, struct stat *st) { int i = lookup(p); if (i < 0) { errno = ENOENT; return -1; } sim_stat(&files[i], st); return 0; }
PUB int stat(const char *p, struct stat *st) { setup_real(); return sim_path(p) ? do_stat(p, st) : r_stat(p, st); }
PUB int stat64(const char *p, struct stat64 *st) { setup_real(); return sim_path(p) ? do_stat(p, (struct stat *)st) : r_stat(p, (struct stat *)st); }
PUB int lstat(const char *p, struct stat *st) { setup_real(); return sim_path(p) ? do_stat(p, st) : r_lstat(p, st); }
PUB int lstat64(const char *p, struct stat64 *st) { setup_real(); return sim_path(p) ? do_stat(p, (struct stat *)st) : r_lstat(p, (struct stat *)st); }
PUB int statx(int dfd, const char *p, int flags, unsigned mask, struct statx *st) {
    struct fd *d = p && !*p ? sim_fd(dfd) : 0; struct file *f = d ? &files[d->file] : 0;
    if (!f && sim_path(p)) { int i = lookup(p); if (i < 0) { errno = ENOENT; return -1; } f = &files[i]; }
    if (f) { memset(st, 0, sizeof *st); st->stx_mask = STATX_BASIC_STATS; st->stx_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->stx_size = f->len; st->stx_nlink = 1; st->stx_blksize = 4096; return 0; }
    setup_real(); return r_statx(dfd, p, flags, mask, st);
}
static int do_truncate(int fd, off_t n) { struct fd *d = sim_fd(fd); if (d) { step(); struct file *f = &files[d->file]; grow(f, n); if ((size_t)n > f->len) memset(f->data + f->len, 0, n - f->len); f->len = n; rec2('W', f->path, strlen(f->path), f->data, f->len); return 0; } setup_real(); return r_ftruncate(fd, n); }
PUB int ftruncate(int fd, off_t n) { return do_truncate(fd, n); }
PUB int ftruncate64(int fd, off_t n) { return do_truncate(fd, n); }
PUB int fsync(int fd) { if (sim_fd(fd)) { step(); return 0; } setup_real(); return r_fsync(fd); }
PUB int fdatasync(int fd) { if (sim_fd(fd)) { step(); return 0; } return syscall(SYS_fdatasync, fd); }
PUB int fchmod(int fd, mode_t m) { if (sim_fd(fd)) return 0; setup_real(); return r_fchmod(fd, m); }
static int sim_rename(const char *a, const char *b) {
    step(); int i = lookup(a), j = lookup(b); if (i < 0) { errno = ENOENT; return -1; }
    recf('F', "rename %s %s", a, b);
    if (i == j) return 0;
    if (j >= 0) files[j].gone = true;
    files[i].path = strdup(b); rec2('D', a, strlen(a), 0, 0); rec2('W', b, strlen(b), files[i].data, files[i].len); return 0;
}
PUB int rename(const char *a, const char *b) { setup_real(); if (sim_path(a) && sim_path(b)) return sim_rename(a, b); if (on) { recf('F', "outside %s", a); errno = EACCES; return -1; } return r_rename(a, b); }
PUB int renameat(int x, const char *a, int y, const char *b) { return rename(a, b); }
PUB int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return rename(a, b); }
static int sim_unlink(const char *p) { step(); int i = lookup(p); if (i < 0) { errno = ENOENT; return -1; } recf('F', "unlink %s", p); files[i].gone = true; rec2('D', p, strlen(p), 0, 0); return 0; }
PUB int unlink(const char *p) { setup_real(); if (sim_path(p)) return sim_unlink(p); if (on) { recf('F', "outside %s", p); errno = EACCES; return -1; } return r_unlink(p); }
PUB int unlinkat(int d, const char *p, int f) { return unlink(p); }
PUB int access(const char *p, int m) { setup_real(); if (sim_path(p)) { if (lookup(p) < 0) { errno = ENOENT; return -1; } return 0; } return r_access(p, m); }
PUB char *realpath(const char *p, char *o) { static char *(*r)(const char *, char *); if (!r) r = r_dlsym(RTLD_NEXT, "realpath"); if (sim_path(p)) { if (lookup(p) < 0) { errno = ENOENT; return 0; } return o ? strcpy(o, p) : strdup(p); } return r(p, o); }
static int (*r_isatty)(int);
PUB int isatty(int fd) { if (on && fd < 3) { errno = ENOTTY; return 0; } setup_real(); if (!r_isatty) r_isatty = r_dlsym(RTLD_NEXT, "isatty"); return r_isatty(fd); }

// ------------------------------------------------------------------ native libraries
struct value { uint32_t ty; union { int64_t i; const char *s; struct { struct value *p; size_t n, cap; } v; }; };
static struct value (*api_str)(const char *); static struct value (*api_vec)(size_t); static void (*api_free)(struct value);

static char *ob; static size_t on_, ocap;
static void put(const char *s, size_t n) { if (on_ + n + 1 > ocap) { ocap = (on_ + n + 1) * 2; ob = realloc(ob, ocap); } memcpy(ob + on_, s, n); on_ += n; ob[on_] = 0; }
static void show(const struct value *v) {
    char t[40];
    switch (v->ty) {
        case 1: put("nil", 3); break;
        case 2: put(v->i ? "true" : "false", v->i ? 4 : 5); break;
        case 3: snprintf(t, sizeof t, "%ld", (long)v->i); put(t, strlen(t)); break;
        case 4: put("\"", 1); put(v->s, strlen(v->s)); put("\"", 1); break;
        case 5: put("[", 1); for (size_t i = 0; i < v->v.n; i++) { if (i) put(", ", 2); show(&v->v.p[i]); } put("]", 1); break;
        default: snprintf(t, sizeof t, "?%u", v->ty); put(t, strlen(t));
    }
}
static struct value copy(const struct value *v) {
    if (v->ty == 4) return api_str(v->s);
    if (v->ty == 5) { struct value r = api_vec(v->v.n); for (size_t i = 0; i < v->v.n; i++) r.v.p[i] = copy(&v->v.p[i]); r.v.n = v->v.n; return r; }
    return *v;
}
// n nil, t/f bool, i<int>; integer, s<len>:bytes string, a<n>: array, b<len>:bytes bytes which are not text, e<len>:message failure, p the first argument
static struct value decode(const char **c, const struct value *args, size_t n) {
    struct value r = { .ty = 1, .i = 0 };
    char k = *(*c)++;
    char *e;
    switch (k) {
        case 'n': return r;
        case 't': r.ty = 2; r.i = 1; return r;
        case 'f': r.ty = 2; r.i = 0; return r;
        case 'i': r.ty = 3; r.i = strtoll(*c, &e, 10); *c = e + 1; return r;
        case 's': case 'b': case 'e': { long l = strtol(*c, &e, 10); char *t = malloc(l + 1); memcpy(t, e + 1, l); t[l] = 0; *c = e + 1 + l;
            if (k == 'e') { r.ty = 0; r.s = t; return r; }
            if (k == 's') { r = api_str(t); free(t); return r; }
            // bytes that are no text can not be made with the api: an owned string of the same length, overwritten
            char *x = malloc(l + 1); memset(x, 'x', l); x[l] = 0; r = api_str(x); memcpy((char *)r.s, t, l); free(x); free(t); return r; }
        case 'a': { long l = strtol(*c, &e, 10); *c = e + 1; r = api_vec(l + 2); for (long i = 0; i < l; i++) { r.v.p[i] = decode(c, args, n); r.v.n = i + 1; } return r; }
        case 'p': return n ? copy(&args[0]) : r;
    }
    return r;
}
struct sym { struct lib *lib; char *name; };
static struct sym syms[128]; static int nsyms;
static struct value invoke(int k, const struct value *args, size_t n) {
    step();
    on_ = 0; put("", 0);
    put(syms[k].lib->name, strlen(syms[k].lib->name)); put("->", 2); put(syms[k].name, strlen(syms[k].name)); put("(", 1);
    for (size_t i = 0; i < n; i++) { if (i) put(", ", 2); show(&args[i]); }
    put(")", 1);
    rec2('C', ob, on_, 0, 0);
    long idx = ncalls++;
    const char *c = noutcomes ? outcome[idx % noutcomes] : "n";
    if (*c == 'e') rec('X', "foreign function failure");
    else if (*c == 'b') rec('X', "foreign result which is no text");
    else if (syms[k].name[0] == 'p') c = "p";
    else if (syms[k].name[0] == 'c') c = mix(idx) & 1 ? "t" : "f";
    return decode(&c, args, n);
}
#define F1(k) static struct value f##k(const struct value *a, size_t n) { return invoke(k, a, n); }
#define F8(k) F1(k##0) F1(k##1) F1(k##2) F1(k##3) F1(k##4) F1(k##5) F1(k##6) F1(k##7)
F8(1) F8(2) F8(3) F8(4) F8(5) F8(6) F8(7) F8(8)
#define N8(k) f##k##0, f##k##1, f##k##2, f##k##3, f##k##4, f##k##5, f##k##6, f##k##7
static struct value (*tramp[])(const struct value *, size_t) = { N8(1), N8(2), N8(3), N8(4), N8(5), N8(6), N8(7), N8(8) };
static int tnum[] = { 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 23, 24, 25, 26, 27, 30, 31, 32, 33, 34, 35, 36, 37, 40, 41, 42, 43, 44, 45, 46, 47, 50, 51, 52, 53, 54, 55, 56, 57, 60, 61, 62, 63, 64, 65, 66, 67, 70, 71, 72, 73, 74, 75, 76, 77, 80, 81, 82, 83, 84, 85, 86, 87 };
static void init_lib(int k, void *s, void *v, void *f) { step(); api_str = s; api_vec = v; api_free = f; recf('I', "%s", libs[k].name); }
#define I1(k) static void i##k(void *s, void *v, void *f) { init_lib(k, s, v, f); }
I1(0) I1(1) I1(2) I1(3) I1(4) I1(5) I1(6) I1(7)
static void (*itramp[])(void *, void *, void *) = { i0, i1, i2, i3, i4, i5, i6, i7 };
static char dlmsg[512]; static bool dlbad;
PUB void *dlopen(const char *p, int f) {
    setup_real();
    if (!on || !p || strncmp(p, "sim:", 4)) { if (on && p) recf('L', "real %s", p); return r_dlopen(p, f); }
    step();
    for (int i = 0; i < nlibs; i++) if (!strcmp(libs[i].name, p)) {
        long a = libs[i].attempts++;
        if (a < libs[i].fail_first) { rec('X', "library load failure"); recf('L', "failed %s", p); snprintf(dlmsg, sizeof dlmsg, "%s: simulated load failure %ld", p, a); dlbad = true; return 0; }
        recf('L', "loaded %s", p); return &libs[i];
    }
    recf('L', "failed %s", p); snprintf(dlmsg, sizeof dlmsg, "%s: cannot open shared object file: No such file or directory", p); dlbad = true; return 0;
}
PUB void *dlsym(void *h, const char *name) {
    setup_real();
    if (on) for (int i = 0; i < nlibs; i++) if (h == &libs[i]) {
        if (!strcmp(name, "_cordy_api_init")) { if (libs[i].no_init) { rec('X', "library without initialiser"); snprintf(dlmsg, sizeof dlmsg, "%s: undefined symbol: %s", libs[i].name, name); dlbad = true; return 0; } return itramp[i]; }
        char pat[300]; snprintf(pat, sizeof pat, ",%s,", name);
        if (strstr(libs[i].missing, pat)) { rec('X', "missing symbol"); snprintf(dlmsg, sizeof dlmsg, "%s: undefined symbol: %s", libs[i].name, name); dlbad = true; return 0; }
        int k; for (k = 0; k < nsyms; k++) if (syms[tnum[k]].lib == &libs[i] && !strcmp(syms[tnum[k]].name, name)) return tramp[k];
        k = nsyms++; syms[tnum[k]].lib = &libs[i]; syms[tnum[k]].name = strdup(name); return tramp[k];
    }
    return r_dlsym(h, name);
}
PUB int dlclose(void *h) { setup_real(); if (on) for (int i = 0; i < nlibs; i++) if (h == &libs[i]) { recf('L', "closed %s", libs[i].name); return 0; } return r_dlclose(h); }
PUB char *dlerror(void) { setup_real(); if (dlbad) { dlbad = false; return dlmsg; } return r_dlerror(); }
// randomness comes from nowhere
PUB ssize_t getrandom(void *p, size_t n, unsigned f) { if (!on) return syscall(SYS_getrandom, p, n, f); static uint64_t k; unsigned char *c = p; for (size_t i = 0; i < n; i++) c[i] = mix(++k); return n; }
PUB int socket(int a, int b, int c) { rec('F', "outside socket"); errno = EACCES; return -1; }
PUB int execve(const char *p, char *const a[], char *const e[]) { recf('F', "outside execve %s", p); errno = EACCES; return -1; }
