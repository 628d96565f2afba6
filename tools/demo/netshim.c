/* Only redirects TLS connections to the fake S3 server: for the sanitizer build,
   with which the full shim does not go together.  Allocates nothing. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

int getaddrinfo(const char *restrict node, const char *restrict svc, const struct addrinfo *restrict h, struct addrinfo **restrict res) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    size_t n = node ? strlen(node) : 0;
    return real(n > 10 && !strcmp(node + n - 10, ".localhost") ? "127.0.0.1" : node, svc, h, res);
}
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
    const char *p = getenv("VF_PORT");
    if (p && *p) {
        if (sa->sa_family == AF_INET && ntohs(((const struct sockaddr_in *)sa)->sin_port) == 443) {
            struct sockaddr_in to = *(const struct sockaddr_in *)sa;
            to.sin_port = htons(atoi(p)); to.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            return syscall(SYS_connect, fd, &to, sizeof to);
        }
        if (sa->sa_family == AF_INET6) { errno = ECONNREFUSED; return -1; }
    }
    return syscall(SYS_connect, fd, sa, len);
}
