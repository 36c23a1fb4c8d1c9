// Connections for harnesses that would otherwise use up the ports of the machine (each connection that is closed
// keeps its port for a minute).
#pragma once
#include "eckit/net/TCPSocket.h"
#include "pbt.h"
#include <cstdio>
#include <sys/socket.h>
#include <unistd.h>

// a TCPSocket on one end of a pair of sockets
struct PairSocket : eckit::net::TCPSocket {
    explicit PairSocket(int fd) { socket_ = fd; }
};

inline void socketPair(int fd[2]) {
    if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd)) pbt::fail("socketpair");
}

// connections that wait for their minute to pass
inline long timeWaits() {
    long n = 0;
    char l[300];
    FILE* f = ::fopen("/proc/net/sockstat", "r");
    if (!f) return 0;
    while (::fgets(l, sizeof(l), f)) {
        long a, b;
        if (::sscanf(l, "TCP: inuse %ld orphan %ld tw %ld", &a, &b, &n) == 3) break;
    }
    ::fclose(f);
    return n;
}

inline void spareThePorts(long most = 20000) {
    if (timeWaits() > most) {
        ::usleep(300000);
        pbt::discard();
    }
}
