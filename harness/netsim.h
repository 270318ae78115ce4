// Real connections of the server driven step by step in one process: socketpair or loopback sockets,
// one event loop polled by the explorer, interposed send calls for short writes.
#ifndef NETSIM_H
#define NETSIM_H
#include "proto.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <server/memcached/conversation.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>

#ifdef HEAP_H
#define NETSIM_HEAP heap::Scope netsim_heap_scope_
#else
#define NETSIM_HEAP (void)0
#endif
namespace netsim {
using std::string; using namespace cachelot;

// at most this many bytes are accepted by the n-th send call on the descriptor (0: no limit)
struct SendPlan { std::map<int, std::vector<size_t>> limits; std::map<int, size_t> calls; void clear() { limits.clear(); calls.clear(); } };
extern SendPlan plan; extern uint64_t sends; extern ssize_t (*dgram_hook)(int, const struct msghdr *, int); extern int dgram_fd;
extern int fail_accept, accept_errors;       // errno of the next accept call (once), number of failures so far

struct Client {
    int fd = -1; string got; bool eof = false; std::weak_ptr<void> conv; int server_fd = -1;
    ssize_t send_raw(const char * p, size_t n) { ssize_t r = ::syscall(SYS_sendto, fd, p, n, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); return r; }
    // takes at most `max` bytes from the socket; true if anything happened
    bool drain(size_t max = (size_t)-1) {
        bool any = false; static thread_local char buf[65536];
        while (fd >= 0 && !eof && max) {
            ssize_t r = ::syscall(SYS_recvfrom, fd, buf, std::min(sizeof buf, max), MSG_DONTWAIT, nullptr, nullptr);
            if (r > 0) { got.append(buf, r); any = true; max -= r; }
            else if (r == 0) { eof = true; any = true; }
            else { if (errno == ECONNRESET || errno == EPIPE) { eof = true; any = true; } break; }
        }
        return any;
    }
    void close() { if (fd >= 0) ::close(fd); fd = -1; }
    void reset_close() { close(); }
};

struct World {
    typedef memcached::UnixSocketServer Server;
    net::io_service ios; cache::Cache c; std::unique_ptr<Server> srv; std::vector<std::unique_ptr<Client>> cl;
    World(size_t mem, size_t page, size_t dict, bool evict, size_t rcv_max, size_t snd_max) : c(cache::Cache::Create(mem, page, dict, evict)) {
        settings.cache.page_size = page; settings.cache.memory_limit = mem; settings.net.max_rcv_buffer_size = rcv_max; settings.net.max_snd_buffer_size = snd_max;
        srv.reset(new Server(c, ios)); plan.clear();
    }
    ~World() { for (auto & x : cl) x->close(); settle(false); srv.reset(); }
    Client & connect(int sndbuf = 0) {
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) { perror("socketpair"); abort(); }
        if (sndbuf) { setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf); }
        cl.emplace_back(new Client); Client & k = *cl.back(); k.fd = sv[0]; k.server_fd = sv[1];
        { NETSIM_HEAP; auto conv = srv->new_conversation(); conv->socket().assign(net::local::stream_protocol(), sv[1]); k.conv = conv; conv->start(); }
        return k;
    }
    size_t poll_one() { size_t n; { NETSIM_HEAP; ios.restart(); n = ios.poll_one(); } mc::step(); return n; }
    // run everything that can run without further input; clients read unless told otherwise
    void settle(bool drain = true) {
        for (int idle = 0; idle < 2;) {
            bool any; { NETSIM_HEAP; ios.restart(); any = ios.poll() > 0; }
            if (drain) for (auto & x : cl) any |= x->drain();
            idle = any ? 0 : idle + 1; mc::step();
        }
    }
    void send(Client & k, const string & s, bool drain = true) {
        for (size_t at = 0; at < s.size();) {
            ssize_t r = k.send_raw(s.data() + at, s.size() - at);
            if (r > 0) at += r; else if (r < 0 && errno == EAGAIN) { settle(drain); if (k.eof) return; } else { k.eof = true; return; }
        }
    }
};
}
#ifdef NETSIM_IMPL
namespace netsim { SendPlan plan; uint64_t sends = 0; ssize_t (*dgram_hook)(int, const struct msghdr *, int) = nullptr; int dgram_fd = -1; int fail_accept = 0, accept_errors = 0;
    static size_t limit(int fd, size_t len) {
        sends++;
        auto it = plan.limits.find(fd); if (it == plan.limits.end()) return len;
        size_t i = plan.calls[fd]++; if (i >= it->second.size() || it->second[i] == 0 || it->second[i] >= len) return len;
        return it->second[i];
    }
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr * m, int flags) {
    if (fd == netsim::dgram_fd && netsim::dgram_hook) return netsim::dgram_hook(fd, m, flags);
    if (m->msg_name == nullptr && netsim::plan.limits.count(fd)) {
        size_t len = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) len += m->msg_iov[i].iov_len;
        size_t n = netsim::limit(fd, len);
        if (n < len) { std::string all; for (size_t i = 0; i < m->msg_iovlen; ++i) all.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return ::syscall(SYS_sendto, fd, all.data(), n, flags, nullptr, 0); }
    }
    return ::syscall(SYS_sendmsg, fd, m, flags);
}
namespace netsim { static bool accept_fails() { if (!fail_accept) return false; errno = fail_accept; fail_accept = 0; accept_errors++; return true; } }
extern "C" int accept(int fd, struct sockaddr * a, socklen_t * n) { if (netsim::accept_fails()) return -1; return (int)::syscall(SYS_accept4, fd, a, n, 0); }
extern "C" int accept4(int fd, struct sockaddr * a, socklen_t * n, int flags) { if (netsim::accept_fails()) return -1; return (int)::syscall(SYS_accept4, fd, a, n, flags); }
extern "C" ssize_t send(int fd, const void * p, size_t n, int flags) { return ::syscall(SYS_sendto, fd, p, netsim::limit(fd, n), flags, nullptr, 0); }
#endif
#endif
