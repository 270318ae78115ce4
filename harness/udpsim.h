// A deterministic network for the UDP server.
#ifndef UDPSIM_H
#define UDPSIM_H
#include "proto.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <server/memcached/conversation.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <memory>
#include <deque>
#ifdef HEAP_H
#define UDPSIM_PAUSE heap::Pause udpsim_pause_
#else
#define UDPSIM_PAUSE (void)0
#endif
namespace udpsim {
// ------------------------------------------------------------- a deterministic network: the UDP socket of the server is one end of a
// pair of unix datagram sockets (delivery is immediate, in order and without loss), addresses travel in side queues
static int server_fd = -1, net_fd = -1; static bool capture = false; static std::vector<char> busy; static size_t send_no = 0; static uint64_t sends = 0;
static int blocked = 0;                                                // sends waiting: a dummy datagram is in the way, taking it makes the socket writable again
static bool unblock() { bool any = blocked > 0; for (; blocked; --blocked) { char c; ::syscall(SYS_recvfrom, net_fd, &c, 1, MSG_DONTWAIT, nullptr, nullptr); } return any; }
static std::deque<uint16_t> senders;                                   // client ports of the datagrams in the server's queue
static std::vector<std::pair<uint16_t, std::string>> outgoing;         // datagrams sent by the server
static sockaddr_in client_addr(uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
#ifdef NETSIM_H
static ssize_t udp_sendmsg(int fd, const struct msghdr * m, int flags);
#endif
extern "C" int socket(int domain, int type, int proto) {
    if (!capture || domain != AF_INET || (type & 0xf) != SOCK_DGRAM) return (int)::syscall(SYS_socket, domain, type, proto);
    int sv[2]; if (::syscall(SYS_socketpair, AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) return -1;
    server_fd = sv[0]; net_fd = sv[1]; UDPSIM_PAUSE;
#ifdef NETSIM_H
    netsim::dgram_fd = server_fd; netsim::dgram_hook = udp_sendmsg;
#endif
    senders.clear(); outgoing.clear(); return server_fd;
}
extern "C" int bind(int fd, const struct sockaddr * a, socklen_t n) { if (fd == server_fd) return 0; return (int)::syscall(SYS_bind, fd, a, n); }
extern "C" int setsockopt(int fd, int level, int name, const void * v, socklen_t n) { if (fd == server_fd) return 0; return (int)::syscall(SYS_setsockopt, fd, level, name, v, n); }
static ssize_t server_send(const std::string & d, const void * to, socklen_t tolen) {
    size_t i = send_no++; if (i < busy.size() && busy[i]) { ::syscall(SYS_sendto, server_fd, "", 0, MSG_DONTWAIT, nullptr, 0); blocked++; errno = EAGAIN; return -1; }
    if (d.size() > 65507) { errno = EMSGSIZE; return -1; }
    if (!to || tolen < sizeof(sockaddr_in)) { errno = EDESTADDRREQ; return -1; }
    sends++; outgoing.emplace_back(ntohs(((const sockaddr_in *)to)->sin_port), d); return (ssize_t)d.size();
}
#ifdef NETSIM_H
static ssize_t udp_sendmsg(int fd, const struct msghdr * m, int flags) {
#else
extern "C" ssize_t sendmsg(int fd, const struct msghdr * m, int flags) {
#endif
    UDPSIM_PAUSE; if (fd != server_fd) return ::syscall(SYS_sendmsg, fd, m, flags);
    std::string d; for (size_t i = 0; i < m->msg_iovlen; ++i) d.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return server_send(d, m->msg_name, m->msg_namelen);
}
extern "C" ssize_t sendto(int fd, const void * p, size_t n, int flags, const struct sockaddr * a, socklen_t al) { UDPSIM_PAUSE; if (fd != server_fd) return ::syscall(SYS_sendto, fd, p, n, flags, a, al); return server_send(std::string((const char *)p, n), a, al); }
static socklen_t sender(void * to, socklen_t cap) { UDPSIM_PAUSE; uint16_t port = senders.front(); senders.pop_front(); sockaddr_in a = client_addr(port); if (to) memcpy(to, &a, std::min<size_t>(cap, sizeof a)); return sizeof a; }
extern "C" ssize_t recvmsg(int fd, struct msghdr * m, int flags) {
    if (fd != server_fd) return ::syscall(SYS_recvmsg, fd, m, flags);
    void * name = m->msg_name; socklen_t cap = m->msg_namelen; m->msg_name = nullptr; m->msg_namelen = 0;
    ssize_t r = ::syscall(SYS_recvmsg, fd, m, flags); m->msg_name = name; m->msg_namelen = cap; if (r >= 0) m->msg_namelen = sender(name, cap); return r;
}
extern "C" ssize_t recvfrom(int fd, void * p, size_t n, int flags, struct sockaddr * a, socklen_t * al) {
    if (fd != server_fd) return ::syscall(SYS_recvfrom, fd, p, n, flags, a, al);
    ssize_t r = ::syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr); if (r >= 0) { socklen_t cap = al ? *al : 0; socklen_t got = sender(a, cap); if (al) *al = got; } return r;
}

}
#endif
