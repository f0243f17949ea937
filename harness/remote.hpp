// In-process remote connections: a synchronous one whose replies can be damaged, and one over a socket pair.
#pragma once
#include "values.hpp"
#include <Pothos/Remote/Handler.hpp>
#include <Pothos/Remote/Client.hpp>
#include <sys/socket.h>
#include <signal.h>
#include <thread>
#include <mutex>
#include <condition_variable>

namespace remote {
using namespace values;

struct FdBuf : std::streambuf
{
    explicit FdBuf(int fd): fd(fd) { setg(ibuf, ibuf, ibuf); }
    int_type underflow(void) { ssize_t n; do n = ::recv(fd, ibuf, sizeof(ibuf), 0); while (n < 0 && errno == EINTR); if (n <= 0) return traits_type::eof(); setg(ibuf, ibuf, ibuf + n); return traits_type::to_int_type(*gptr()); }
    int_type overflow(int_type c) { if (c != traits_type::eof()) { char ch = char(c); if (!put(&ch, 1)) return traits_type::eof(); } return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) { return put(s, size_t(n)) ? n : 0; }
    bool put(const char *p, size_t n) { while (n) { ssize_t r = ::send(fd, p, n, MSG_NOSIGNAL); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; p += r; n -= size_t(r); sent += size_t(r); if (limit && sent >= limit) { ::shutdown(fd, SHUT_RDWR); return false; } } return true; }
    int fd; char ibuf[4096]; size_t sent = 0, limit = 0; // limit: cut the connection after so many bytes sent
};

//! client and server end of a socket pair; the server runs on its own thread
struct Link
{
    Link(size_t cutAfter = 0, bool dribble = false)
    {
        if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fds) != 0) pbt::fail("socketpair");
        if (dribble) { int v = 2048; ::setsockopt(fds[1], SOL_SOCKET, SO_SNDBUF, &v, sizeof(v)); }
        cb.reset(new FdBuf(fds[0])); sb.reset(new FdBuf(fds[1])); sb->limit = cutAfter;
        cis.reset(new std::istream(cb.get())); cos.reset(new std::ostream(cb.get()));
        server = std::thread([this](void)
        {
            std::istream is(sb.get()); std::ostream os(sb.get());
            Pothos::RemoteHandler h("peer");
            try { h.runHandler(is, os); ended = 1; }
            catch (const std::exception &ex) { error = ex.what(); ended = 2; }
            ::shutdown(fds[1], SHUT_RDWR);
        });
    }
    Pothos::ProxyEnvironment::Sptr connect(const std::string &name = "managed") { return Pothos::RemoteClient::makeEnvironment(*cis, *cos, name); }
    void join(void) { if (server.joinable()) { ::shutdown(fds[0], SHUT_RDWR); server.join(); } }
    ~Link(void) { join(); ::close(fds[0]); ::close(fds[1]); }
    int fds[2]; std::unique_ptr<FdBuf> cb, sb; std::unique_ptr<std::istream> cis; std::unique_ptr<std::ostream> cos; std::thread server; std::atomic<int> ended{0}; std::string error;
};

//! runs the server inside the client's read; the reply bytes pass through a filter
struct SyncLink : std::streambuf
{
    explicit SyncLink(std::function<std::string(size_t, const std::string &)> filter): filter(filter), is(this), os(this), handler("peer") { setg(nullptr, nullptr, nullptr); }
    int_type overflow(int_type c) { req += char(c); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) { req.append(s, size_t(n)); return n; }
    int_type underflow(void)
    {
        if (req.empty() || closed) return traits_type::eof();
        std::istringstream rs(req); std::ostringstream ws;
        handler.runHandlerOnce(rs, ws);
        req.erase(0, size_t(rs.tellg()));
        rep = filter(replies++, ws.str());
        if (rep != ws.str()) closed = true; // after the damage the connection ends
        if (rep.empty()) return traits_type::eof();
        setg(&rep[0], &rep[0], &rep[0] + rep.size());
        return traits_type::to_int_type(*gptr());
    }
    std::function<std::string(size_t, const std::string &)> filter; std::istream is; std::ostream os; Pothos::RemoteHandler handler; std::string req, rep; size_t replies = 0; bool closed = false;
};
} // namespace remote
