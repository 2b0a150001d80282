/* Loaded before libc into the web server under test. The server listens on 127.0.0.1, port
 * NOODLE_PORT, in place of port 8082 of all addresses, and its clock runs NOODLE_SPEED times as fast
 * (so that its time limits can be reached). Everything else is the server's own. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

int socket(int domain, int type, int protocol) {
    return syscall(SYS_socket, domain == AF_INET6 ? AF_INET : domain, type, protocol);
}

int bind(int fd, const struct sockaddr *addr, socklen_t len) {
    const char *port = getenv("NOODLE_PORT");
    if (port && (addr->sa_family == AF_INET6 || addr->sa_family == AF_INET)) {
        struct sockaddr_in in;
        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET;
        in.sin_port = htons(atoi(port));
        in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        return syscall(SYS_bind, fd, &in, sizeof in);
    }
    return syscall(SYS_bind, fd, addr, len);
}

int setsockopt(int fd, int level, int name, const void *value, socklen_t len) {
    if (level == IPPROTO_IPV6)
        return 0;
    return syscall(SYS_setsockopt, fd, level, name, value, len);
}

/* Connections are not held up by Nagle's algorithm; with NOODLE_SNDBUF, little is buffered. */
int accept4(int fd, struct sockaddr *addr, socklen_t *len, int flags) {
    int c = syscall(SYS_accept4, fd, addr, len, flags), one = 1;
    const char *b = getenv("NOODLE_SNDBUF");
    if (c >= 0)
        syscall(SYS_setsockopt, c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (c >= 0 && b) {
        int n = atoi(b);
        syscall(SYS_setsockopt, c, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    }
    return c;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    static long speed, base[2];
    int r = syscall(SYS_clock_gettime, id, ts);
    if (r || id != CLOCK_MONOTONIC)
        return r;
    if (!speed) {
        const char *s = getenv("NOODLE_SPEED");
        base[0] = ts->tv_sec;
        speed = s ? atol(s) : 1;
    }
    if (speed > 1) {
        long ns = ts->tv_nsec * speed;
        ts->tv_sec = base[0] + (ts->tv_sec - base[0]) * speed + ns / 1000000000;
        ts->tv_nsec = ns % 1000000000;
    }
    return 0;
}
