// Real listeners and channels on the loopback network and in a scratch directory.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstring>
#include <thread>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include <dots/asio.h>
#include <dots/io/Channel.h>
#include <dots/io/Listener.h>
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/UdsChannel.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <dots/io/channels/WebSocketListener.h>

namespace net
{
    enum struct Kind { tcp2, tcp1, uds2, uds1, ws };
    inline const char* name(Kind k)
    {
        switch (k)
        {
        case Kind::tcp1: return "TCP, version 1";
        case Kind::tcp2: return "TCP, version 2";
        case Kind::uds1: return "local socket, version 1";
        case Kind::uds2: return "local socket, version 2";
        default: return "WebSocket";
        }
    }
    inline bool isUds(Kind k) { return k == Kind::uds1 || k == Kind::uds2; }
    inline bool isV1(Kind k) { return k == Kind::tcp1 || k == Kind::uds1; }

    // a scratch directory of this process
    struct Scratch
    {
        std::string path;
        Scratch()
        {
            const char* base = ::getenv("TMPDIR");
            std::string t = std::string{ base ? base : "/tmp" } + "/vfsXXXXXX";
            if (::mkdtemp(t.data()) == nullptr) throw std::runtime_error{ "no scratch directory" };
            path = t;
        }
        ~Scratch() { ::rmdir(path.c_str()); }
    };

    inline uint16_t freePort(int family = AF_INET, const std::string& address = "127.0.0.1")
    {
        int fd = ::socket(family, SOCK_STREAM, 0);
        if (fd < 0) return 0;
        uint16_t port = 0;
        if (family == AF_INET)
        {
            sockaddr_in a{};
            a.sin_family = AF_INET;
            ::inet_pton(AF_INET, address.c_str(), &a.sin_addr);
            socklen_t n = sizeof a;
            if (::bind(fd, reinterpret_cast<sockaddr*>(&a), n) == 0 && ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0) port = ntohs(a.sin_port);
        }
        else
        {
            sockaddr_in6 a{};
            a.sin6_family = AF_INET6;
            a.sin6_addr = in6addr_loopback;
            socklen_t n = sizeof a;
            if (::bind(fd, reinterpret_cast<sockaddr*>(&a), n) == 0 && ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0) port = ntohs(a.sin6_port);
        }
        ::close(fd);
        return port;
    }

    // where a listener listens
    struct Place
    {
        Kind kind = Kind::tcp2;
        bool v6 = false;
        std::string address = "127.0.0.1", port, path;
    };

    inline dots::io::listener_ptr_t makeListener(dots::asio::io_context& io, Place& p, Scratch& scratch)
    {
        static unsigned counter = 0;
        for (int attempt = 0;; ++attempt)
        {
            try
            {
                if (isUds(p.kind))
                {
                    p.path = scratch.path + "/" + std::to_string(counter++);
                    if (p.kind == Kind::uds1) return std::make_unique<dots::io::posix::v1::UdsListener>(io, std::string_view{ p.path });
                    return std::make_unique<dots::io::posix::v2::UdsListener>(io, std::string_view{ p.path });
                }
                // (a fresh address, because closed connections keep their ports for a while)
                unsigned n = counter++;
                p.address = p.v6 ? "::1" : "127." + std::to_string(1 + ::getpid() % 250) + "." + std::to_string(n / 250 % 250) + "." + std::to_string(1 + n % 250);
                p.port = std::to_string(freePort(p.v6 ? AF_INET6 : AF_INET, p.address));
                if (p.kind == Kind::tcp1) return std::make_unique<dots::io::v1::TcpListener>(io, p.address, p.port);
                if (p.kind == Kind::tcp2) return std::make_unique<dots::io::v2::TcpListener>(io, p.address, p.port);
                return std::make_unique<dots::io::WebSocketListener>(io, p.address, p.port);
            }
            catch (const std::exception&) { if (attempt == 20) throw; }
        }
    }

    // a plain connected socket (-1: refused)
    inline int rawConnect(const Place& p)
    {
        int fd;
        int r;
        if (isUds(p.kind))
        {
            fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            std::strncpy(a.sun_path, p.path.c_str(), sizeof a.sun_path - 1);
            r = ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
        }
        else if (p.v6)
        {
            fd = ::socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_in6 a{};
            a.sin6_family = AF_INET6;
            a.sin6_addr = in6addr_loopback;
            a.sin6_port = htons(static_cast<uint16_t>(std::stoi(p.port)));
            r = ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
        }
        else
        {
            fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            ::inet_pton(AF_INET, p.address.c_str(), &a.sin_addr);
            a.sin_port = htons(static_cast<uint16_t>(std::stoi(p.port)));
            r = ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
        }
        if (r != 0) { ::close(fd); return -1; }
        return fd;
    }

    inline void reset(int fd)
    {
        linger l{ 1, 0 };
        ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        ::close(fd);
    }

    // a client channel of the library on a connected plain socket, or connecting by itself
    inline dots::io::channel_ptr_t makeChannel(dots::asio::io_context& io, const Place& p)
    {
        switch (p.kind)
        {
        case Kind::tcp1: return dots::io::make_channel<dots::io::v1::TcpChannel>(io, p.address, p.port);
        case Kind::tcp2: return dots::io::make_channel<dots::io::v2::TcpChannel>(io, p.address, p.port);
        case Kind::uds1: return dots::io::make_channel<dots::io::posix::v1::UdsChannel>(io, std::string_view{ p.path });
        case Kind::uds2: return dots::io::make_channel<dots::io::posix::v2::UdsChannel>(io, std::string_view{ p.path });
        default: return dots::io::make_channel<dots::io::WebSocketChannel>(io, std::string_view{ p.address }, std::string_view{ p.port });
        }
    }
}
