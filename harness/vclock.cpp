// Virtual time: the driver's process sees a clock that only moves when the driver lets it.
#include "vclock.h"
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>

static long long g_base[16];
static bool g_init = false;
static long long g_vt = 0;       // virtual ns since start
static bool g_adv = false;
static long long g_target = 0;
static long long g_settleUs = 0; // real time given to the kernel before the clock jumps
static bool g_fresh = true;
bool vclock_free = false;        // real time passes (diagnostics only)

static long long real_ns(int id) {
    struct timespec ts;
    syscall(SYS_clock_gettime, id, &ts);
    return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}
static void init() {
    if (g_init) return;
    g_init = true;
    for (int i = 0; i < 12; i++) g_base[i] = real_ns(i);
    g_base[5] = g_base[0]; g_base[6] = g_base[1]; g_base[4] = g_base[1];
    // a day boundary must not fall into a run
    g_base[0] = g_base[5] = (g_base[0] / 86400000000000LL) * 86400000000000LL + 3600000000000LL;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
    init();
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID || id < 0 || id > 11)
        return syscall(SYS_clock_gettime, id, ts);
    long long v = g_base[id] + g_vt;
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    init();
    long long v = g_base[0] + g_vt;
    tv->tv_sec = v / 1000000000LL; tv->tv_usec = (v % 1000000000LL) / 1000;
    return 0;
}
extern "C" time_t time(time_t *t) noexcept {
    init();
    time_t v = (g_base[0] + g_vt) / 1000000000LL;
    if (t) *t = v;
    return v;
}
extern "C" int ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *mask) {
    struct timespec z = {0, 0};
    int r = syscall(SYS_ppoll, fds, n, &z, mask, 8);
    if (r != 0) { g_fresh = true; return r; }
    long long want = ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : (1LL << 62);
    if (want == 0 || !g_adv) return 0;
    if (g_fresh && g_settleUs > 0) {
        for (int k = 0; k < 200; k++) {
            z.tv_nsec = g_settleUs * 1000;
            r = syscall(SYS_ppoll, fds, n, &z, mask, 8);
            if (r != 0) return r;
            if (!vclock_inflight()) break;
        }
        g_fresh = false;
    }
    if (g_vt >= g_target) return 0;
    long long left = g_target - g_vt;
    g_vt += want < left ? want : left;
    return 0;
}
long long vclock_now_ms() { return g_vt / 1000000LL; }
void vclock_begin(long long ms) { g_adv = true; g_target = g_vt + ms * 1000000LL; g_fresh = true; }
bool vclock_done() { return g_vt >= g_target; }
void vclock_end() { g_adv = false; }
void vclock_settle(long long us) { g_settleUs = us; }

// The virtual clock does not wait for the kernel: no delayed small segments on any socket of this process.
#include <sys/socket.h>
#include <netinet/in.h>
#include <linux/tcp.h>
static bool g_tcp[4096], g_had[4096];
static void nodelay(int fd) { if (fd >= 0 && fd < 4096) { g_tcp[fd] = true; g_had[fd] = false; } int one = 1, e = errno; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); errno = e; }
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t n) {
    if (a->sa_family == AF_INET || a->sa_family == AF_INET6) nodelay(fd);
    return syscall(SYS_connect, fd, a, n);
}
extern "C" int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) {
    int r = syscall(SYS_accept4, fd, a, n, flags);
    if (r >= 0) nodelay(r);
    return r;
}
extern "C" int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept4(fd, a, n, 0); }

// Is anything on its way between two sockets of this process?  (On a busy machine the kernel may take its time even on
// the loopback interface; nothing that has arrived is meant, since the event loop sees that.)
#include <string.h>
enum { TCP_ESTABLISHED = 1, TCP_SYN_SENT = 2, TCP_FIN_WAIT1 = 4, TCP_FIN_WAIT2 = 5 };
bool vclock_inflight() {
    struct End { int fd; struct sockaddr_storage l, p; struct tcp_info i; bool paired; };
    static End e[4096];
    int n = 0, err = errno;
    bool busy = false;
    for (int fd = 0; fd < 4096; fd++) {
        if (!g_tcp[fd]) continue;
        End &x = e[n];
        socklen_t k = sizeof x.i;
        memset(&x, 0, sizeof x);
        if (getsockopt(fd, IPPROTO_TCP, TCP_INFO, &x.i, &k) != 0) { g_tcp[fd] = false; continue; }
        if (x.i.tcpi_state == TCP_SYN_SENT) { busy = true; continue; }
        socklen_t a = sizeof x.l, b = sizeof x.p;
        if (getsockname(fd, (struct sockaddr *)&x.l, &a) != 0 || getpeername(fd, (struct sockaddr *)&x.p, &b) != 0) continue;
        x.fd = fd;
        n++;
    }
    for (int i = 0; i < n && !busy; i++) {
        if (e[i].paired) continue;
        for (int j = i + 1; j < n; j++) {
            if (memcmp(&e[i].l, &e[j].p, sizeof e[i].l) || memcmp(&e[i].p, &e[j].l, sizeof e[i].l)) continue;
            e[i].paired = e[j].paired = g_had[e[i].fd] = g_had[e[j].fd] = true;
            for (int k = 0; k < 2; k++) {
                const struct tcp_info &a = k ? e[i].i : e[j].i, &b = k ? e[j].i : e[i].i;
                if (a.tcpi_bytes_sent > a.tcpi_bytes_retrans + b.tcpi_bytes_received) busy = true;
                if ((a.tcpi_state == TCP_FIN_WAIT1 || a.tcpi_state == TCP_FIN_WAIT2) && b.tcpi_state == TCP_ESTABLISHED) busy = true;
            }
            break;
        }
        // its other end has been closed, but it does not know yet
        if (!e[i].paired && g_had[e[i].fd] && e[i].i.tcpi_state == TCP_ESTABLISHED) busy = true;
    }
    errno = err;
    return busy;
}
