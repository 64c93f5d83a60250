// Preloaded into the tools: entropy that repeats (VF_ENTROPY), and a crash before or within the VF_CRASH-th write.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static int fill(unsigned char *b, size_t n) {
    const char *e = getenv("VF_ENTROPY");
    if (!e) return 0;
    static unsigned long nth;
    uint64_t s = strtoull(e, 0, 10);
    // every request gets the same bytes, unless VF_STREAM asks for different ones
    if (getenv("VF_STREAM")) s += 0x1234567812345671ull * __atomic_add_fetch(&nth, 1, __ATOMIC_SEQ_CST);
    for (size_t i = 0; i < n; i++) {
        static __thread uint64_t z;
        if (i % 8 == 0) {
            s += 0x9E3779B97F4A7C15ull;
            z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            z ^= z >> 31;
        }
        b[i] = (unsigned char)(z >> (8 * (i % 8)));
    }
    return 1;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    static long (*real)(long, ...);
    if (fill(b, n)) return n;
    if (!real) real = dlsym(RTLD_NEXT, "syscall");
    return real(SYS_getrandom, b, n, f);
}
long syscall(long nr, ...) {
    static long (*real)(long, ...);
    long a[6];
    va_list l;
    va_start(l, nr);
    for (int i = 0; i < 6; i++) a[i] = va_arg(l, long);
    va_end(l);
    if (nr == SYS_getrandom && fill((unsigned char *)a[0], a[1])) return a[1];
    if (!real) real = dlsym(RTLD_NEXT, "syscall");
    return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

static long calls;
static int due(void) {
    const char *e = getenv("VF_CRASH");
    return e && ++calls == atol(e);
}
static void report(void) __attribute__((destructor));
static void report(void) {
    const char *e = getenv("VF_COUNT");
    if (!e) return;
    int fd = open(e, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        dprintf(fd, "%ld", calls);
        close(fd);
    }
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int part(void) { return getenv("VF_PART") != 0; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (due()) { if (part()) real(fd, b, n / 2, o); _exit(99); }
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    if (due()) { if (part()) real(fd, b, n / 2, o); _exit(99); }
    return real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (fd > 2 && due()) { if (part()) real(fd, b, n / 2); _exit(99); }
    return real(fd, b, n);
}
int fsync(int fd) {
    REAL(fsync);
    if (due()) _exit(99);
    return real(fd);
}
int fdatasync(int fd) {
    REAL(fdatasync);
    if (due()) _exit(99);
    return real(fd);
}
int unlink(const char *p) {
    REAL(unlink);
    if (due()) _exit(99);
    return real(p);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (due()) _exit(99);
    return real(fd, n);
}
