// A28: a program gets connected, runs and ends as it was told.
#undef DOTS_NO_GLOBAL_TRANSCEIVER
#include "model.h"
#include "subject.h"
#include "sockets.h"
#include <chrono>
#include <csignal>
#include <spawn.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <dots/Application.h>
#include <dots/dots.h>
#include <dots/HostTransceiver.h>
#include <dots/io/Io.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/tools/logging.h>
#include <DotsAuthentication.dots.h>
#include <DotsAuthenticationPolicy.dots.h>
#include <DotsClient.dots.h>
#include <DotsCacheInfo.dots.h>
#include <VfPlain.dots.h>
#include <VfKeys.dots.h>
#include <VfSubKey.dots.h>
#include <VfUncached.dots.h>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
extern char** environ;

using pbt::cat;
namespace asio = dots::asio;
using net::Kind;
using net::Place;

namespace
{
    using Clock = std::chrono::steady_clock;

    std::string toHex(std::string_view s)
    {
        std::string r = "x";
        for (unsigned char x : s) { r += "0123456789abcdef"[x >> 4]; r += "0123456789abcdef"[x & 15]; }
        return r;
    }
    std::string fromHex(std::string_view s)
    {
        std::string r;
        auto digit = [](char x) { return x <= '9' ? x - '0' : x - 'a' + 10; };
        for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(digit(s[i]) << 4 | digit(s[i + 1]));
        return r;
    }
    std::string bytes(const dots::type::Struct& x) { auto v = dots::to_cbor(x, x._validProperties()); return { v.begin(), v.end() }; }

    enum struct Ending { timer, event, post, signal, loss, none, COUNT };

    // one use of an application, as the program is told to make it
    struct Use
    {
        bool host = false;
        std::string name;
        bool withArgs = true;
        std::vector<std::string> args;
        bool own = false;           // with a transceiver of its own
        bool ownContext = false;
        bool signals = true;
        std::optional<std::string> envEndpoint, envSecret;
        Ending ending = Ending::timer;
        int code = 0;
        int publish = 0;
        int millis = 0;

        std::string text() const
        {
            std::ostringstream o;
            o << host << ' ' << toHex(name) << ' ' << withArgs << ' ' << args.size();
            for (auto& a : args) o << ' ' << toHex(a);
            o << ' ' << own << ' ' << ownContext << ' ' << signals << ' ' << (envEndpoint ? toHex(*envEndpoint) : "-") << ' ' << (envSecret ? toHex(*envSecret) : "-")
              << ' ' << static_cast<int>(ending) << ' ' << code << ' ' << publish << ' ' << millis;
            return o.str();
        }
        static Use parse(std::istream& i)
        {
            Use u;
            std::string s;
            size_t n = 0;
            int e = 0;
            auto opt = [&](std::optional<std::string>& o) { i >> s; if (s != "-") o = fromHex(s); };
            i >> u.host >> s; u.name = fromHex(s);
            i >> u.withArgs >> n;
            for (; n > 0; --n) { i >> s; u.args.push_back(fromHex(s)); }
            i >> u.own >> u.ownContext >> u.signals;
            opt(u.envEndpoint);
            opt(u.envSecret);
            i >> e >> u.code >> u.publish >> u.millis;
            u.ending = static_cast<Ending>(e);
            return u;
        }
    };

    constexpr uint16_t ExitKey = 60000;

    // ---------------------------------------------------------------- the program

    void say(const std::string& line)
    {
        std::string s = line + "\n";
        for (size_t n = 0; n < s.size(); ) { ssize_t w = ::write(3, s.data() + n, s.size() - n); if (w <= 0) ::_exit(77); n += static_cast<size_t>(w); }
    }

    void wait()
    {
        char b;
        while (::read(4, &b, 1) < 0 && errno == EINTR) {}
    }

    void guestUse(const Use& u, int argc, char** argv)
    {
        asio::io_context context{ 1 };
        std::optional<dots::GuestTransceiver> own;
        if (u.own) own.emplace("own " + u.name, u.ownContext ? context : dots::io::global_io_context());
        dots::Application app = u.withArgs ? dots::Application{ u.name, argc, argv, std::move(own), u.signals } : dots::Application{ u.name, std::move(own), u.signals };
        auto& guest = static_cast<dots::GuestTransceiver&>(app.transceiver());
        if (!u.own && &guest != &dots::global_transceiver()) say("wrong transceiver");
        std::string caches;
        if (!u.own)
        {
            for (auto& [x, info] : dots::container<VfPlain>()) caches += " P" + toHex(bytes(x.get()));
            for (auto& [x, info] : dots::container<VfKeys>()) caches += " K" + toHex(bytes(x.get()));
        }
        say(cat("up ", guest.connected(), ' ', guest.connected() ? guest.connection().selfId() : 0, ' ', toHex(guest.selfName()), caches));
        int replayed = 0;
        auto onPlain = [&](const dots::Event<VfPlain>& e)
        {
            ++replayed;
            if (e().id == ExitKey && e.header().fromCache.valueOrDefault(0) == 0 && !e.isFromMyself()) app.exit(u.code);
        };
        dots::Subscription sub = u.own ? guest.subscribe<VfPlain>(onPlain) : dots::subscribe<VfPlain>(onPlain);
        int atOnce = replayed;
        auto& io = guest.ioContext();
        if (u.own)
        {
            // (the host has answered the subscription)
            bool complete = false;
            auto info = guest.subscribe<DotsCacheInfo>([&](const dots::Event<DotsCacheInfo>& e) { complete = complete || (e().typeName == "VfPlain" && e().endTransmission == true); });
            while (!complete && io.run_one() > 0) {}
            atOnce = replayed;
        }
        for (int i = 0; i < u.publish; ++i)
        {
            VfSubKey x{ .id = VfLeaf{ .a = i }, .uid = dots::uuid_t{}, .a = u.name };
            if (u.own) guest.publish(x); else dots::publish(x);
            if (i % 3 == 2) { if (u.own) guest.remove(x); else dots::remove(x); }
        }
        say(cat("ready ", atOnce));
        std::optional<dots::Timer> timer;
        switch (u.ending)
        {
        case Ending::timer:
            timer.emplace(io, dots::type::Duration{ u.millis / 1000. }, dots::tools::Handler<void()>{ [&] { app.exit(u.code); } }, u.code % 2 == 1);
            break;
        case Ending::post:
            asio::post(io.get_executor(), [&] { app.exit(u.code); });
            break;
        default: break;
        }
        if (u.ending != Ending::none) say(cat("exec ", app.exec()));
    }

    void hostUse(const Use& u, int argc, char** argv)
    {
        asio::io_context context{ 1 };
        dots::HostTransceiver host{ u.name, u.ownContext ? context : dots::io::global_io_context() };
        dots::Application app = u.withArgs ? dots::Application{ argc, argv, std::move(host), u.signals } : dots::Application{ std::move(host), u.signals };
        auto sub = app.transceiver().subscribe<VfPlain>([&](const dots::Event<VfPlain>& e) { if (e().id == ExitKey) app.exit(u.code); });
        for (int i = 0; i < u.publish; ++i) app.transceiver().publish(VfSubKey{ .id = VfLeaf{ .a = i }, .uid = dots::uuid_t{}, .a = u.name });
        say(cat("up 1 1 ", toHex(app.transceiver().selfName())));
        say("ready 0");
        std::optional<dots::Timer> timer;
        if (u.ending == Ending::timer) timer.emplace(app.transceiver().ioContext(), dots::type::Duration{ u.millis / 1000. }, dots::tools::Handler<void()>{ [&] { app.exit(u.code); } }, false);
        if (u.ending != Ending::none) say(cat("exec ", app.exec()));
    }

    int program(const char* script)
    {
        if (::getenv("VF_STDERR") == nullptr) dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg);
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        // (sockets of the process that started this one)
        ::close_range(5, ~0u, 0);
        std::istringstream in{ script };
        size_t n = 0;
        in >> n;
        for (size_t i = 0; i < n; ++i)
        {
            Use u = Use::parse(in);
            if (u.envEndpoint) ::setenv("DOTS_ENDPOINT", u.envEndpoint->c_str(), 1); else ::unsetenv("DOTS_ENDPOINT");
            if (u.envSecret) ::setenv("DOTS_AUTH_SECRET", u.envSecret->c_str(), 1); else ::unsetenv("DOTS_AUTH_SECRET");
            std::vector<std::string> args = u.args;
            std::vector<char*> argv;
            for (auto& a : args) argv.push_back(a.data());
            argv.push_back(nullptr);
            say("start");
            try
            {
                if (u.host) hostUse(u, static_cast<int>(args.size()), argv.data());
                else guestUse(u, static_cast<int>(args.size()), argv.data());
                say(cat("down ", dots::global_transceiver_is_set()));
            }
            catch (const std::exception& e)
            {
                say(cat("failed ", dots::global_transceiver_is_set(), ' ', toHex(e.what())));
            }
            wait();
        }
        say("end");
        return 0;
    }

    struct Child
    {
        pid_t pid = -1;
        int fd = -1, go = -1;
        std::string buffer;
        std::vector<std::string> lines;
        size_t used = 0;
        bool ended = false;
        int status = 0;

        Child(const std::vector<Use>& uses)
        {
            int p[2], q[2];
            if (::pipe2(p, O_CLOEXEC) != 0 || ::pipe2(q, O_CLOEXEC) != 0) throw std::runtime_error{ "no pipe" };
            // (not one of the numbers they get in the program)
            for (int* f : { &p[0], &p[1], &q[0], &q[1] }) if (int n = ::fcntl(*f, F_DUPFD_CLOEXEC, 10); n >= 0) { ::close(*f); *f = n; }
            std::string script = std::to_string(uses.size());
            for (auto& u : uses) script += " " + u.text();
            std::vector<std::string> env{ "VF_PROGRAM=" + script };
            for (char** e = environ; *e; ++e) if (std::strncmp(*e, "DOTS_", 5) != 0) env.push_back(*e);
            std::vector<char*> envp, argv;
            for (auto& e : env) envp.push_back(e.data());
            envp.push_back(nullptr);
            std::string self = "/proc/self/exe", name = "program";
            argv = { name.data(), nullptr };
            posix_spawn_file_actions_t a;
            ::posix_spawn_file_actions_init(&a);
            ::posix_spawn_file_actions_adddup2(&a, p[1], 3);
            ::posix_spawn_file_actions_adddup2(&a, q[0], 4);
            ::posix_spawn_file_actions_addopen(&a, 1, "/dev/null", O_WRONLY, 0);
            if (::getenv("VF_STDERR") == nullptr) ::posix_spawn_file_actions_addopen(&a, 2, "/dev/null", O_WRONLY, 0);
            posix_spawnattr_t attr;
            ::posix_spawnattr_init(&attr);
            sigset_t none, all;
            ::sigemptyset(&none);
            ::sigemptyset(&all);
            for (int s : { SIGINT, SIGTERM, SIGPIPE }) ::sigaddset(&all, s);
            ::posix_spawnattr_setsigmask(&attr, &none);
            ::posix_spawnattr_setsigdefault(&attr, &all);
            ::posix_spawnattr_setflags(&attr, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
            int r = ::posix_spawn(&pid, self.c_str(), &a, &attr, argv.data(), envp.data());
            ::posix_spawn_file_actions_destroy(&a);
            ::posix_spawnattr_destroy(&attr);
            ::close(p[1]);
            ::close(q[0]);
            go = q[1];
            if (r != 0) { ::close(p[0]); ::close(q[1]); throw std::runtime_error{ "cannot start" }; }
            fd = p[0];
            ::fcntl(fd, F_SETFL, O_NONBLOCK);
        }
        ~Child()
        {
            if (!ended && pid > 0) { ::kill(pid, SIGKILL); ::waitpid(pid, &status, 0); }
            ::close(fd);
            ::close(go);
        }
        void proceed() { if (::write(go, "g", 1) != 1) {} }
        bool poll()
        {
            char b[65536];
            bool any = false;
            for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0; any = true) buffer.append(b, static_cast<size_t>(n));
            for (size_t e; (e = buffer.find('\n')) != std::string::npos; buffer.erase(0, e + 1)) lines.push_back(buffer.substr(0, e));
            if (!ended && ::waitpid(pid, &status, WNOHANG) == pid)
            {
                ended = any = true;
                for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0; ) buffer.append(b, static_cast<size_t>(n));
                for (size_t e; (e = buffer.find('\n')) != std::string::npos; buffer.erase(0, e + 1)) lines.push_back(buffer.substr(0, e));
            }
            return any;
        }
        std::string end() const { return !ended ? "runs" : WIFEXITED(status) ? cat("ended with code ", WEXITSTATUS(status)) : cat("was killed by signal ", WTERMSIG(status)); }
    };

    // ---------------------------------------------------------------- what it is told

    std::string scheme(pbt::Src& s, Kind k)
    {
        switch (k)
        {
        case Kind::tcp1: return "tcp-v1";
        case Kind::tcp2: return s.boolean() ? "tcp-v2" : "tcp";
        case Kind::uds1: return "uds-v1";
        case Kind::uds2: return s.boolean() ? "uds-v2" : "uds";
        default: return "ws";
        }
    }

    std::string word(pbt::Src& s, bool anything)
    {
        static const std::string plain = "abcxyzABC019-_.~";
        static const std::string odd = "abc@:/ ?#%[]\"'=$!&+,;\\";
        std::string r;
        for (size_t n = 1 + s.length(8); n > 0; --n) r += anything && s.chance(1, 2) ? odd[s.below(odd.size())] : plain[s.below(plain.size())];
        return r;
    }

    // options and operands that are none of the library's business
    void noise(pbt::Src& s, std::vector<std::string>& args)
    {
        while (s.chance(1, 3))
        {
            switch (s.below(6))
            {
            case 0: args.push_back("--verbose"); break;
            case 1: args.push_back("--config=" + word(s, false)); break;
            case 2: args.push_back("-x"); break;
            case 3: args.push_back("--other"); args.push_back(word(s, false)); if (args.back()[0] == '-') args.back()[0] = 'o'; break;
            case 4: args.push_back("--dots-log-level=8"); if (std::count(args.begin(), args.end(), args.back()) > 1) args.pop_back(); break;
            case 5: args.push_back(word(s, false)); if (args.back()[0] == '-') args.back()[0] = 'f'; break;
            }
        }
    }

    void option(pbt::Src& s, std::vector<std::string>& args, const std::string& name, const std::string& value)
    {
        noise(s, args);
        if (s.boolean()) args.push_back("--" + name + "=" + value);
        else { args.push_back("--" + name); args.push_back(value); }
        noise(s, args);
    }

    std::string address(pbt::Src& s, const Place& p)
    {
        std::string sch = scheme(s, p.kind);
        if (net::isUds(p.kind)) return sch + ":" + p.path;
        return sch + "://" + p.address + ":" + p.port;
    }

    // the documented default endpoint, which only one case can use at a time
    struct DefaultPlace
    {
        int fd = -1;
        explicit DefaultPlace(pbt::Ctx& c)
        {
            fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(11236);
            ::inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
            for (int i = 0; ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0; ++i)
            {
                if (i == 2000) { ::close(fd); fd = -1; c.discard(); }
                ::usleep(5000);
            }
            int t = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
            ::setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
            a.sin_port = htons(11235);
            bool free = ::bind(t, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && ::listen(t, 1) == 0;
            ::close(t);
            if (!free) { ::close(fd); fd = -1; c.discard(); }
        }
        ~DefaultPlace() { if (fd >= 0) ::close(fd); }
        static Place place()
        {
            Place p;
            p.kind = Kind::tcp2;
            p.address = "127.0.0.1";
            p.port = "11235";
            return p;
        }
        static bool is(const Place& p) { return p.port == "11235" && p.address == "127.0.0.1"; }
    };

    struct World
    {
        pbt::Ctx& c;
        net::Scratch& scratch;
        asio::io_context io{ 1 };
        struct Peer { uint32_t id; std::string name; DotsConnectionState state; std::string error; };
        std::vector<Peer> peers;
        std::unique_ptr<dots::HostTransceiver> host;
        std::vector<Place> places;
        std::vector<Use> uses;
        std::unique_ptr<Child> child;

        World(pbt::Ctx& c_, net::Scratch& s_) : c(c_), scratch(s_) {}
        ~World()
        {
            child.reset();
            host.reset();
            io.restart();
            io.poll();
            for (auto& p : places) if (net::isUds(p.kind)) ::unlink(p.path.c_str());
        }

        void open(const std::string& name)
        {
            host = std::make_unique<dots::HostTransceiver>(name, io, dots::type::Registry::StaticTypePolicy::All, dots::HostTransceiver::transition_handler_t{ [this](const dots::Connection& k, std::exception_ptr e)
            {
                std::string error;
                try { if (e != nullptr) std::rethrow_exception(e); } catch (const std::exception& x) { error = cat("error: ", x.what()); }
                for (auto& p : peers) if (p.id == k.peerId()) { p.state = k.state(); p.name = k.peerName(); p.error += error; return; }
                peers.push_back({ k.peerId(), k.peerName(), k.state(), error });
            } });
            for (size_t i = 0; i < places.size(); ++i)
            {
                if (!DefaultPlace::is(places[i])) { host->listen(net::makeListener(io, places[i], scratch)); continue; }
                dots::io::listener_ptr_t listener;
                try { listener = std::make_unique<dots::io::v2::TcpListener>(io, places[i].address, places[i].port); }
                catch (const std::exception&) { c.discard(); }
                host->listen(std::move(listener));
            }
        }

        Peer* peer(uint32_t id) { for (auto& p : peers) if (p.id == id) return &p; return nullptr; }

        template <typename F>
        void until(F done, const std::string& what, double seconds = 30)
        {
            for (auto end = Clock::now() + std::chrono::duration<double>(seconds); !done(); )
            {
                io.restart();
                size_t n = io.poll();
                n += child != nullptr && child->poll();
                if (n == 0) ::usleep(200);
                c.throwIfFailed();
                if (Clock::now() > end) c.fail(what);
            }
        }

        // the next line the program says
        std::string line(const std::string& expected)
        {
            until([&] { return child->used < child->lines.size() || child->ended; }, cat("the program does not get on; expected: ", expected));
            if (child->used == child->lines.size()) c.fail(cat("the program ", child->end(), "; expected: ", expected));
            return child->lines[child->used++];
        }
        std::vector<std::string> words(const std::string& l)
        {
            std::istringstream i{ l };
            std::vector<std::string> r;
            for (std::string s; i >> s; ) r.push_back(s);
            return r;
        }
    };

    std::set<std::string> contents(const dots::HostTransceiver& host, const dots::type::StructDescriptor& d)
    {
        std::set<std::string> r;
        if (auto* box = host.pool().find(d)) for (auto& [x, info] : *box) r.insert(bytes(x.get()));
        return r;
    }

    void describe(pbt::Ctx& c, const Use& u)
    {
        c.log << "\n  " << (u.host ? "host" : u.own ? "guest with its own transceiver" : "guest") << ' ' << pbt::quote(u.name) << (u.ownContext ? ", own event loop" : "") << (u.signals ? "" : ", signals left alone");
        if (u.withArgs) { c.log << ", arguments:"; for (auto& a : u.args) c.log << ' ' << pbt::quote(a); } else c.log << ", no arguments";
        if (u.envEndpoint) c.log << ", DOTS_ENDPOINT=" << pbt::quote(*u.envEndpoint);
        if (u.envSecret) c.log << ", DOTS_AUTH_SECRET=" << pbt::quote(*u.envSecret);
        static const char* const ends[] = { "a timer", "an event", "a posted call", "a signal", "the host's end", "nothing" };
        c.log << "; publishes " << u.publish << ", ends by " << ends[static_cast<int>(u.ending)] << " with code " << u.code;
    }

    void fillCache(pbt::Ctx& c, dots::HostTransceiver& host)
    {
        for (size_t n = c.s.length(6); n > 0; --n)
        {
            VfPlain x{ .id = static_cast<uint16_t>(c.s.below(10)) };
            if (c.s.boolean()) x.a = word(c.s, true);
            if (c.s.boolean()) x.b = static_cast<int32_t>(c.s.interestingInt());
            if (c.s.boolean()) x.sub = VfLeaf{ .a = 1, .b = "b" };
            host.publish(x);
        }
        for (size_t n = c.s.length(4); n > 0; --n)
        {
            VfKeys x{ .k1 = word(c.s, true), .k2 = static_cast<int64_t>(c.s.below(3)), .k3 = VfColor::blue };
            if (c.s.boolean()) x.count = 7u;
            host.publish(x);
        }
    }

    struct Plan
    {
        size_t place = 0;       // index of the place or Nowhere / Silent
        bool admitted = true, up = true;
        std::string peerName;
    };
    constexpr size_t Nowhere = 1000;

    // guests: a host in this process, the application in another one
    void guests(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        std::optional<DefaultPlace> defaultPlace;
        World w{ c, scratch };
        if (c.s.chance(1, 16))
        {
            defaultPlace.emplace(c);
            w.places.push_back(DefaultPlace::place());
        }
        for (size_t n = 1 + c.s.below(2); n > 0; --n)
        {
            Place p;
            p.kind = static_cast<Kind>(c.s.weighted({ 4, 2, 3, 1, 2 }));
            w.places.push_back(p);
        }
        w.open("host");
        std::optional<std::string> secret;
        if (c.s.chance(1, 2))
        {
            secret = word(c.s, c.s.boolean());
            w.host->setAuthManager<dots::io::LegacyAuthManager>();
            w.host->publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = false });
            w.host->publish(DotsAuthentication{ .nameSpace = "", .network = DotsNetwork{ .network = "127.0.0.0", .prefix = uint8_t{ 8 } }, .clientName = "", .priority = uint16_t{ 1 }, .secret = *secret, .accept = true });
            c.log << "secret " << pbt::quote(*secret);
        }
        fillCache(c, *w.host);
        c.log << ", places:";
        for (auto& p : w.places) c.log << " " << net::name(p.kind);

        std::vector<Plan> plans;
        bool lost = false;
        for (size_t n = 1 + c.s.below(3); n > 0 && !lost; --n)
        {
            Use u;
            Plan plan;
            u.name = c.s.chance(1, 3) ? word(c.s, true) : "program" + std::to_string(plans.size());
            u.own = c.s.chance(1, 4);
            u.ownContext = u.own && c.s.boolean();
            u.signals = !c.s.chance(1, 4);
            u.withArgs = !c.s.chance(1, 6);
            plan.peerName = u.own ? "own " + u.name : u.name;
            // where to
            std::string to;
            std::optional<std::string> given;
            bool uds = false;
            if (c.s.chance(1, 6))
            {
                plan.place = Nowhere;
                plan.up = false;
                switch (c.s.below(5))
                {
                case 0: to = "uds:" + scratch.path + "/nowhere"; uds = true; break;
                case 1: to = "tcp://127.9.9.9:" + std::to_string(net::freePort(AF_INET, "127.9.9.9")); break;
                case 2: to = "ws://127.9.9.9:" + std::to_string(net::freePort(AF_INET, "127.9.9.9")); break;
                case 3: to = "http://127.0.0.1"; break;
                default: to = "nothing"; break;
                }
            }
            else
            {
                plan.place = c.s.below(w.places.size());
                const Place& p = w.places[plan.place];
                uds = net::isUds(p.kind);
                to = address(c.s, p);
                if (!uds && c.s.chance(1, 3))
                {
                    std::string user = word(c.s, false), before = to.substr(0, to.find("//") + 2), after = to.substr(before.size());
                    to = before + user;
                    if (!u.own) plan.peerName = user;
                    if (c.s.boolean()) { given = secret && c.s.boolean() && secret->find_first_of("@:/ ") == std::string::npos ? *secret : word(c.s, false); to += ":" + *given; }
                    to += "@" + after;
                }
            }
            auto wrong = [&] { return c.s.chance(2, 3) ? word(c.s, false) : std::string{ "tcp://127.9.9.9:1" }; };
            if (u.withArgs)
            {
                u.args.push_back("program");
                noise(c.s, u.args);
            }
            if (plan.place < w.places.size() && DefaultPlace::is(w.places[plan.place]) && given == std::nullopt && to.find('@') == std::string::npos && c.s.chance(2, 3)) c.count("default endpoint");
            else if (u.withArgs && c.s.chance(2, 3))
            {
                option(c.s, u.args, "dots-endpoint", to);
                if (c.s.chance(1, 3)) u.envEndpoint = wrong();
            }
            else u.envEndpoint = to;
            auto pickSecret = [&] { return secret && c.s.chance(3, 4) ? *secret : word(c.s, true); };
            if (c.s.chance(1, 3)) { u.envSecret = pickSecret(); given = u.envSecret; }
            if (u.withArgs && c.s.chance(secret ? 2 : 1, 4)) { std::string x = pickSecret(); option(c.s, u.args, "dots-auth-secret", x); given = x; }
            if (plan.place != Nowhere && secret && !uds) plan.admitted = given == secret;
            plan.up = plan.up && plan.admitted;
            u.ending = static_cast<Ending>(c.s.weighted({ 3, 3, 1, 2, u.own ? 0u : 2u, 1 }));
            if (u.ending == Ending::signal && !u.signals) u.ending = Ending::timer;
            lost = plan.up && u.ending == Ending::loss;
            u.code = c.s.chance(1, 2) ? 0 : static_cast<int>(c.s.range(-3, 300));
            u.publish = static_cast<int>(c.s.length(12));
            u.millis = static_cast<int>(c.s.below(20));
            describe(c, u);
            c.log << (plan.up ? "" : plan.admitted ? " [there is no such host]" : " [not admitted]");
            w.uses.push_back(u);
            plans.push_back(plan);
        }

        w.child = std::make_unique<Child>(w.uses);
        size_t ups = 0, failures = 0;
        for (size_t i = 0; i < w.uses.size(); ++i)
        {
            const Use& u = w.uses[i];
            const Plan& plan = plans[i];
            c.check(w.line("start") == "start", "out of step");
            auto l = w.words(w.line(plan.up ? "the application is up" : "the application cannot be constructed"));
            if (!plan.up)
            {
                if (l[0] != "failed") c.fail(cat("use ", i, ": the application is up although ", plan.admitted ? "there is no such host" : "the host does not admit it"));
                c.check(l[1] == "0", cat("use ", i, ": a transceiver is left behind by an application that could not be constructed"));
                ++failures;
                w.child->proceed();
                continue;
            }
            if (l[0] == "failed") c.fail(cat("use ", i, ": the application cannot be constructed: ", fromHex(l[2])));
            c.check(l[0] == "up" && l.size() >= 4, "out of step");
            c.check(l[1] == "1", cat("use ", i, ": the application is constructed but not connected"));
            uint32_t id = static_cast<uint32_t>(std::stoul(l[2]));
            auto* p = w.peer(id);
            c.check(p != nullptr && (p->state == DotsConnectionState::connected || p->state == DotsConnectionState::early_subscribe || (p->state == DotsConnectionState::closed)), cat("use ", i, ": the host does not know the application"));
            std::string name = fromHex(l[3]);
            c.check(name == plan.peerName, cat("use ", i, ": the application calls itself ", pbt::quote(name), " instead of ", pbt::quote(plan.peerName)));
            if (!u.own)
            {
                std::set<std::string> plain, keys;
                for (size_t k = 4; k < l.size(); ++k) (l[k][0] == 'P' ? plain : keys).insert(fromHex(l[k].substr(1)));
                c.check(plain == contents(*w.host, VfPlain::_Descriptor()), cat("use ", i, ": the cache of a type it subscribes to is not the host's when the application is up: ", plain.size(), " objects instead of ", contents(*w.host, VfPlain::_Descriptor()).size()));
                c.check(keys == contents(*w.host, VfKeys::_Descriptor()), cat("use ", i, ": the cache of a type whose container it uses is not the host's when the application is up"));
            }
            else c.check(l.size() == 4, "out of step");
            l = w.words(w.line("the application has subscribed"));
            c.check(l[0] == "ready", "out of step");
            c.check(std::stoul(l[1]) == contents(*w.host, VfPlain::_Descriptor()).size(), cat("use ", i, ": a new subscription is called with ", l[1], " cached objects instead of ", contents(*w.host, VfPlain::_Descriptor()).size()));
            bool closing = false;
            switch (u.ending)
            {
            case Ending::event:
                w.host->publish(VfPlain{ .id = ExitKey });
                break;
            case Ending::signal:
                ::usleep(static_cast<useconds_t>(u.millis * 300));
                ::kill(w.child->pid, u.code % 2 ? SIGINT : SIGTERM);
                break;
            case Ending::loss:
                // the messages the program has published shall arrive first
                w.until([&] { auto* k = w.peer(id); auto got = contents(*w.host, VfSubKey::_Descriptor()); return k != nullptr && static_cast<int>(got.size()) >= u.publish - u.publish / 3; }, "published objects do not arrive");
                w.host.reset();
                closing = true;
                break;
            default: break;
            }
            if (u.ending != Ending::none)
            {
                l = w.words(w.line("the application ends"));
                c.check(l[0] == "exec" && l.size() == 2, "out of step");
                int code = u.ending == Ending::signal || u.ending == Ending::loss ? 0 : u.code;
                c.check(std::stoi(l[1]) == code, cat("use ", i, ": the application returns ", l[1], " instead of ", code));
            }
            l = w.words(w.line("the application is destroyed"));
            c.check(l[0] == "down", "out of step");
            c.check(l[1] == "0", cat("use ", i, ": the global transceiver is left behind"));
            ++ups;
            if (closing) { w.child->proceed(); continue; }
            w.until([&] { auto* k = w.peer(id); return k != nullptr && k->state == DotsConnectionState::closed; }, cat("use ", i, ": the host does not notice the application's end"));
            auto* k = w.peer(id);
            c.check(k->name == plan.peerName, cat("use ", i, ": the host knows the application as ", pbt::quote(k->name)));
            c.check(k->error.empty(), cat("use ", i, ": the connection of an application that ended in good order ends with an error: ", k->error));
            bool running = false;
            for (auto& [x, info] : w.host->pool().get<DotsClient>()) { auto& client = x.to<DotsClient>(); if (client.id == id) running = client.running == true && info.lastUpdateFrom == id; }
            c.check(running, cat("use ", i, ": the application does not tell that it is running"));
            std::set<std::string> due;
            for (int n = 0; n < u.publish; ++n) if (n % 3 != 2) due.insert(bytes(VfSubKey{ .id = VfLeaf{ .a = n }, .uid = dots::uuid_t{}, .a = u.name }));
            std::set<std::string> got = contents(*w.host, VfSubKey::_Descriptor());
            c.check(got == due, cat("use ", i, ": of ", due.size(), " objects the application published ", got.size(), " are at the host"));
            w.host->remove(VfPlain{ .id = ExitKey });
            for (auto d = due.begin(); d != due.end(); ++d)
            {
                VfSubKey x = dots::from_cbor<VfSubKey>(std::vector<uint8_t>(d->begin(), d->end()));
                w.host->remove(x);
            }
            w.child->proceed();
        }
        c.check(w.line("end") == "end", "out of step");
        w.until([&] { return w.child->ended; }, "the program does not end");
        c.check(WIFEXITED(w.child->status) && WEXITSTATUS(w.child->status) == 0, cat("the program ", w.child->end()));
        c.count("applications up", ups);
        c.count("applications refused", failures);
        c.nontrivial(ups + failures >= 2 || (ups == 1 && w.uses[0].publish > 0));
    }

    // hosts: the application listens in another process, guests in this one
    void hosts(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        std::optional<DefaultPlace> defaultPlace;
        World w{ c, scratch };
        Use u;
        u.host = true;
        u.name = c.s.chance(1, 3) ? word(c.s, true) : "host";
        u.ownContext = c.s.boolean();
        u.signals = !c.s.chance(1, 4);
        u.withArgs = c.s.chance(3, 4);
        bool inArgs = u.withArgs && c.s.chance(2, 3);
        if (u.withArgs) u.args.push_back("program");
        std::string env;
        if (c.s.chance(1, 16))
        {
            defaultPlace.emplace(c);
            w.places.push_back(DefaultPlace::place());
            inArgs = false;
            c.count("default endpoint");
        }
        else for (size_t n = 1 + c.s.below(3); n > 0; --n)
        {
            Place p;
            p.kind = static_cast<Kind>(c.s.weighted({ 4, 2, 3, 1, 2 }));
            // (find out a free place)
            { asio::io_context io{ 1 }; net::makeListener(io, p, scratch); }
            w.places.push_back(p);
            std::string to = address(c.s, p);
            if (inArgs) option(c.s, u.args, "dots-endpoint", to);
            else env += std::string(c.s.chance(1, 4), ' ') + (env.empty() ? "" : std::string(1 + c.s.below(2), ' ')) + to;
        }
        if (defaultPlace) {}
        else if (!inArgs) u.envEndpoint = env;
        else if (c.s.chance(1, 3)) u.envEndpoint = "nothing";
        if (u.withArgs) noise(c.s, u.args);
        for (auto a : u.args) if (std::count(u.args.begin(), u.args.end(), "--dots-log-level=8") > 1) u.args.erase(std::find(u.args.begin(), u.args.end(), "--dots-log-level=8"));
        u.ending = c.s.one<Ending>({ Ending::event, Ending::signal, Ending::none });
        if (u.ending == Ending::signal && !u.signals) u.ending = Ending::event;
        u.code = c.s.chance(1, 2) ? 0 : static_cast<int>(c.s.range(-3, 300));
        u.publish = static_cast<int>(c.s.length(12));
        describe(c, u);
        w.uses = { u };
        w.child = std::make_unique<Child>(w.uses);
        c.check(w.line("start") == "start", "out of step");
        auto l = w.words(w.line("the application is up"));
        if (l[0] == "failed") c.fail(cat("the application cannot be constructed: ", fromHex(l[2])));
        c.check(l[0] == "up" && fromHex(l[3]) == u.name, "the host has another name");
        c.check(w.line("ready") == "ready 0", "out of step");
        if (u.ending != Ending::none)
        {
            std::vector<std::unique_ptr<dots::GuestTransceiver>> guests;
            std::vector<size_t> got(w.places.size()), relayed(w.places.size());
            size_t lost = 0;
            std::string error;
            for (size_t i = 0; i < w.places.size(); ++i)
            {
                auto& g = *guests.emplace_back(std::make_unique<dots::GuestTransceiver>("guest" + std::to_string(i), w.io, dots::type::Registry::StaticTypePolicy::All,
                    dots::GuestTransceiver::transition_handler_t{ [&](const dots::Connection& k, std::exception_ptr e)
                    {
                        if (k.state() != DotsConnectionState::closed) return;
                        ++lost;
                        try { if (e != nullptr) std::rethrow_exception(e); } catch (const std::exception& x) { error = x.what(); }
                    } }));
                dots::io::channel_ptr_t channel;
                try { channel = net::makeChannel(w.io, w.places[i]); }
                catch (const std::exception& e) { c.fail(cat("place ", i, " (", net::name(w.places[i].kind), ") refuses a guest: ", e.what())); }
                g.open(std::move(channel));
                w.until([&] { return g.connected() || lost > 0; }, cat("place ", i, " (", net::name(w.places[i].kind), ") does not serve a guest"));
                c.check(lost == 0, cat("place ", i, " (", net::name(w.places[i].kind), ") does not serve a guest: ", error));
                g.subscribe<VfSubKey>([&got, i](const dots::Event<VfSubKey>&) { ++got[i]; }).discard();
                g.subscribe<VfPlain>([&relayed, i](const dots::Event<VfPlain>&) { ++relayed[i]; }).discard();
                c.check(g.connection().peerName() == u.name, "the host introduces itself by another name");
                w.until([&] { return got[i] == static_cast<size_t>(u.publish); }, cat("the guest at place ", i, " gets ", got[i], " of ", u.publish, " objects"));
            }
            for (uint16_t i = 0; i < guests.size(); ++i) guests[i]->publish(VfPlain{ .id = i });
            for (size_t i = 0; i < guests.size(); ++i) w.until([&] { return relayed[i] == guests.size(); }, cat("the guest at place ", i, " gets ", relayed[i], " of ", guests.size(), " messages of the guests"));
            c.check(lost == 0, "a guest is disconnected");
            if (u.ending == Ending::event) guests[c.s.below(guests.size())]->publish(VfPlain{ .id = ExitKey });
            else ::kill(w.child->pid, u.code % 2 ? SIGINT : SIGTERM);
            l = w.words(w.line("the application ends"));
            int code = u.ending == Ending::signal ? 0 : u.code;
            c.check(l[0] == "exec" && std::stoi(l[1]) == code, cat("the application returns ", l[1], " instead of ", code));
            w.until([&] { return lost == guests.size(); }, "the host's end is not noticed by all guests");
            guests.clear();
        }
        l = w.words(w.line("the application is destroyed"));
        c.check(l[0] == "down", "out of step");
        w.child->proceed();
        c.check(w.line("end") == "end", "out of step");
        w.until([&] { return w.child->ended; }, "the program does not end");
        c.check(WIFEXITED(w.child->status) && WEXITSTATUS(w.child->status) == 0, cat("the program ", w.child->end()));
        c.count("hosts");
        c.nontrivial(u.ending != Ending::none && (u.publish > 0 || w.places.size() > 1));
    }

    // strangers: something listens at the endpoint that is no host, then the program tries again
    void strangers(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        World w{ c, scratch };
        Place real, strange;
        real.kind = static_cast<Kind>(c.s.weighted({ 4, 2, 3, 1, 2 }));
        strange.kind = static_cast<Kind>(c.s.weighted({ 4, 2, 3, 1, 2 }));
        { asio::io_context io{ 1 }; net::makeListener(io, strange, scratch); }
        w.places.push_back(real);
        w.open("host");
        w.places.push_back(strange);
        struct Fd { int fd = -1; ~Fd() { if (fd >= 0) ::close(fd); } } listener, peer;
        if (net::isUds(strange.kind))
        {
            ::unlink(strange.path.c_str());
            listener.fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            std::strncpy(a.sun_path, strange.path.c_str(), sizeof a.sun_path - 1);
            if (::bind(listener.fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) c.discard();
        }
        else
        {
            listener.fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            int one = 1;
            ::setsockopt(listener.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(static_cast<uint16_t>(std::stoi(strange.port)));
            ::inet_pton(AF_INET, strange.address.c_str(), &a.sin_addr);
            if (::bind(listener.fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) c.discard();
        }
        ::listen(listener.fd, 8);
        bool hold = c.s.chance(1, 3);
        std::string answer;
        for (size_t n = hold ? 0 : c.s.length(40); n > 0; --n) answer += static_cast<char>(c.s.chance(1, 2) ? c.s.below(256) : "{\x82\xa0\xbf\xff}H\r\n"[c.s.below(9)]);
        // speaks WebSocket, but not the protocol
        bool webSocket = !hold && strange.kind == Kind::ws && c.s.boolean();
        std::string subprotocol = c.s.one<std::string>({ "", "Sec-WebSocket-Protocol: dots\r\n", "Sec-WebSocket-Protocol: dots-json2\r\n", "Sec-WebSocket-Protocol: json-dots\r\n", "Sec-WebSocket-Extensions: dots-json\r\n" });
        int sig = c.s.boolean() ? SIGINT : SIGTERM;
        unsigned pause = static_cast<unsigned>(c.s.below(3000));
        for (size_t i = 0; i < 2; ++i)
        {
            Use u;
            u.name = "program" + std::to_string(i);
            u.own = c.s.chance(1, 4);
            u.ownContext = u.own && c.s.boolean();
            u.signals = !c.s.chance(1, 4);
            u.withArgs = c.s.boolean();
            std::string to = address(c.s, i == 0 ? strange : w.places[0]);
            if (u.withArgs) { u.args.push_back("program"); option(c.s, u.args, "dots-endpoint", to); }
            else u.envEndpoint = to;
            u.ending = Ending::post;
            u.code = static_cast<int>(c.s.range(-3, 300));
            describe(c, u);
            w.uses.push_back(u);
        }
        c.log << (webSocket ? cat("\n  the stranger accepts WebSocket clients with ", pbt::quote(subprotocol)) : hold ? cat("\n  the stranger at ", net::name(strange.kind), " does not answer, signal ", sig, " after ", pause, " us") : cat("\n  the stranger at ", net::name(strange.kind), " answers ", pbt::quote(answer), " and closes"));
        w.child = std::make_unique<Child>(w.uses);
        c.check(w.line("start") == "start", "out of step");
        w.until([&] { return (peer.fd = ::accept4(listener.fd, nullptr, nullptr, SOCK_CLOEXEC)) >= 0 || w.child->ended || w.child->used < w.child->lines.size(); }, "the program does not connect");
        if (peer.fd < 0) c.fail("the program does not connect to the endpoint it was given");
        if (hold)
        {
            ::usleep(pause);
            ::kill(w.child->pid, sig);
        }
        else if (webSocket)
        {
            // stays connected
            std::string request;
            char buffer[4096];
            w.until([&]
            {
                ssize_t n = ::recv(peer.fd, buffer, sizeof buffer, MSG_DONTWAIT);
                if (n > 0) request.append(buffer, static_cast<size_t>(n));
                return request.find("\r\n\r\n") != std::string::npos;
            }, "the program sends no WebSocket handshake");
            const std::string header = "Sec-WebSocket-Key: ";
            size_t at = request.find(header);
            c.check(at != std::string::npos && request.find("Sec-WebSocket-Protocol: dots-json\r\n") != std::string::npos, cat("the program sends an incomplete WebSocket handshake: ", pbt::quote(request)));
            at += header.size();
            boost::beast::websocket::detail::sec_ws_accept_type accept;
            boost::beast::websocket::detail::make_sec_ws_accept(accept, boost::beast::string_view{ request.data() + at, request.find("\r\n", at) - at });
            answer = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n" + subprotocol + "Sec-WebSocket-Accept: " + std::string{ accept.data(), accept.size() } + "\r\n\r\n";
            if (::send(peer.fd, answer.data(), answer.size(), MSG_NOSIGNAL) < 0) {}
            c.count("WebSocket strangers");
        }
        else
        {
            if (::send(peer.fd, answer.data(), answer.size(), MSG_NOSIGNAL) < 0) {}
            ::usleep(pause / 10);
            ::close(peer.fd);
            peer.fd = -1;
        }
        w.until([&] { return w.child->ended || w.child->used < w.child->lines.size(); }, hold ? "a program that waits for the host's answer does not end on a signal" : "a program whose host is none does not get on");
        if (w.child->used == w.child->lines.size())
        {
            c.check(hold && WIFSIGNALED(w.child->status) && WTERMSIG(w.child->status) == sig, cat("the program ", w.child->end()));
            c.count("ended while waiting");
            c.nontrivial(true);
            return;
        }
        auto l = w.words(w.line("the application cannot be constructed"));
        c.check(l[0] == "failed", "the application is up although there is no host");
        c.check(l[1] == "0", "a transceiver is left behind by an application that could not be constructed");
        w.child->proceed();
        c.check(w.line("start") == "start", "out of step");
        l = w.words(w.line("the application is up"));
        if (l[0] == "failed") c.fail(cat("the application cannot be constructed at the second try: ", fromHex(l[2])));
        c.check(l[0] == "up" && l[1] == "1", "the application is constructed but not connected");
        c.check(w.words(w.line("the application has subscribed"))[0] == "ready", "out of step");
        l = w.words(w.line("the application ends"));
        c.check(l[0] == "exec" && std::stoi(l[1]) == w.uses[1].code, cat("the application returns ", l[1], " instead of ", w.uses[1].code));
        l = w.words(w.line("the application is destroyed"));
        c.check(l[0] == "down" && l[1] == "0", "the global transceiver is left behind");
        w.child->proceed();
        c.check(w.line("end") == "end", "out of step");
        w.until([&] { return w.child->ended; }, "the program does not end");
        c.check(WIFEXITED(w.child->status) && WEXITSTATUS(w.child->status) == 0, cat("the program ", w.child->end()));
        c.count("tried again");
        c.nontrivial(true);
    }
}

int main(int argc, char** argv)
{
    if (const char* script = ::getenv("VF_PROGRAM")) return program(script);
    pbt::Check check;
    check.property = "A28";
    check.rule = "a guest program uses at least two applications, or one that publishes; a host program serves guests and publishes or listens at several places";
    check.subs = {
        { "guests", guests, 4000, 60000, 120 },
        { "strangers", strangers, 1500, 20000, 120 },
        { "hosts", hosts, 2000, 30000, 120 },
    };
    check.init = [] { dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); ::signal(SIGPIPE, SIG_IGN); };
    return pbt::run(argc, argv, check);
}
