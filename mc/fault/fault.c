/* Answers the system calls of one stream as a scenario says: short transfers, cuts, errors. Loaded
   into the process that runs a scenario on the real system; every other descriptor is left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { FDS = 4096, MANY = 64 };
enum { FAIL = 0, ZERO = 1, SHORT = 2 };

static struct dir {
    long max;                          /* 0: no limit */
    long cuts[MANY]; int ncuts;
    struct { long call; int what; long arg; } at[MANY]; int nat;
    long calls, done;
    pthread_mutex_t lock;
} D[2] = { { .lock = PTHREAD_MUTEX_INITIALIZER }, { .lock = PTHREAD_MUTEX_INITIALIZER } };
static atomic_char marked[2][FDS];
static int side = -1;                  /* 0: what connects, 1: what is accepted, 2: fds 0 and 1 */
static atomic_int gone = 0;

void mcf_side(int s) { side = s; if (s == 2) { marked[0][0] = 1; marked[1][1] = 1; } }
void mcf_max(int d, long n) { D[d].max = n; }
void mcf_cut(int d, long p) { if (D[d].ncuts < MANY) D[d].cuts[D[d].ncuts++] = p; }
void mcf_at(int d, long call, int what, long arg) {
    if (D[d].nat < MANY) { int i = D[d].nat++; D[d].at[i].call = call; D[d].at[i].what = what; D[d].at[i].arg = arg; }
}
void mcf_go(void) { gone = 1; }

static int mine(int d, int fd) { return fd >= 0 && fd < FDS && marked[d][fd]; }
static void mark(int fd, int v) { if (fd >= 0 && fd < FDS) { marked[0][fd] = v; marked[1][fd] = v; } }

/* Returns -2: go on with *n bytes; otherwise the call's result. */
static ssize_t answer(int d, size_t *n) {
    struct dir *x = &D[d];
    if (d == 0) while (!gone) usleep(200);
    if (*n == 0) return -2;
    pthread_mutex_lock(&x->lock);
    long call = x->calls++, at = x->done;
    ssize_t r = -2;
    if (x->max > 0 && (long)*n > x->max) *n = x->max;
    for (int i = 0; i < x->ncuts; i++) if (x->cuts[i] > at && (long)*n > x->cuts[i] - at) { *n = x->cuts[i] - at; }
    for (int i = 0; i < x->nat; i++) if (x->at[i].call == call) {
        if (x->at[i].what == FAIL) { errno = x->at[i].arg; r = -1; }
        else if (x->at[i].what == ZERO) r = 0;
        else if ((long)*n > x->at[i].arg) *n = x->at[i].arg;
        break;
    }
    pthread_mutex_unlock(&x->lock);
    return r;
}
static ssize_t count(int d, ssize_t r) {
    if (r > 0) { int e = errno; pthread_mutex_lock(&D[d].lock); D[d].done += r; pthread_mutex_unlock(&D[d].lock); errno = e; }
    return r;
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define WITH(d, fd, n, call) \
    if (mine(d, fd)) { ssize_t r = answer(d, &n); return r != -2 ? r : count(d, call); } \
    return call

ssize_t read(int fd, void *b, size_t n) { WITH(0, fd, n, REAL(read)(fd, b, n)); }
ssize_t recv(int fd, void *b, size_t n, int f) { if (f & MSG_PEEK) return REAL(recv)(fd, b, n, f); WITH(0, fd, n, REAL(recv)(fd, b, n, f)); }
ssize_t write(int fd, const void *b, size_t n) { WITH(1, fd, n, REAL(write)(fd, b, n)); }
ssize_t send(int fd, const void *b, size_t n, int f) { WITH(1, fd, n, REAL(send)(fd, b, n, f)); }

static ssize_t vec(int d, int fd, const struct iovec *v, int k) {
    static const char none[1];
    size_t total = 0;
    for (int i = 0; i < k; i++) total += v[i].iov_len;
    size_t n = total;
    ssize_t r = answer(d, &n);
    if (r != -2) return r;
    if (total == 0) return d ? REAL(write)(fd, none, 0) : 0;
    struct iovec w[16];
    int m = 0;
    for (int i = 0; i < k && m < 16 && n > 0; i++) {
        w[m] = v[i];
        if (w[m].iov_len > n) w[m].iov_len = n;
        n -= w[m++].iov_len;
    }
    return count(d, d ? REAL(writev)(fd, w, m) : REAL(readv)(fd, w, m));
}
ssize_t readv(int fd, const struct iovec *v, int k) { return mine(0, fd) ? vec(0, fd, v, k) : REAL(readv)(fd, v, k); }
ssize_t writev(int fd, const struct iovec *v, int k) { return mine(1, fd) ? vec(1, fd, v, k) : REAL(writev)(fd, v, k); }

int connect(int fd, const struct sockaddr *a, socklen_t l) {
    int r = REAL(connect)(fd, a, l);
    if (side == 0 && (r == 0 || errno == EINPROGRESS)) { int e = errno; mark(fd, 1); errno = e; }
    return r;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) {
    int r = REAL(accept4)(fd, a, l, f);
    if (side == 1) mark(r, 1);
    return r;
}
static int clone_of(int fd, int r) {
    if (r >= 0 && r < FDS && fd >= 0 && fd < FDS) for (int d = 0; d < 2; d++) marked[d][r] = marked[d][fd];
    return r;
}
static int control(int fd, int cmd, void *arg) {
    int r = ((int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl"))(fd, cmd, arg);
    return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? clone_of(fd, r) : r;
}
int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); void *a = va_arg(v, void *); va_end(v); return control(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list v; va_start(v, cmd); void *a = va_arg(v, void *); va_end(v); return control(fd, cmd, a); }
int close(int fd) { if (side != 2) mark(fd, 0); return REAL(close)(fd); }
