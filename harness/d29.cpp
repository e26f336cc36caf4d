// D29: the daemon tells the truth about its clients and itself, serves them, and starts and ends as it is told.
//
// The daemon of bin/dotsd runs in child processes (this binary itself) whose clocks and timers are sped up.
#include "model.h"
#include "subject.h"
#include "sockets.h"
#include <chrono>
#include <csignal>
#include <ctime>
#include <spawn.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/wait.h>
#include <dots/GuestTransceiver.h>
#include <dots/tools/logging.h>
#include <DotsAuthentication.dots.h>
#include <DotsAuthenticationPolicy.dots.h>
#include <DotsClient.dots.h>
#include <DotsDaemonStatus.dots.h>
#include <VfCleanup.dots.h>
#include <VfKeys.dots.h>
#include <VfPlain.dots.h>
#include <VfUncached.dots.h>

extern char** environ;
int dotsd_main(int argc, char* argv[]);

// ---------------------------------------------------------------- the daemon's fast clock

namespace
{
    long g_speed = 1;
    int64_t ns(const timespec& t) { return int64_t{ 1000000000 } * t.tv_sec + t.tv_nsec; }
    timespec ts(int64_t n) { timespec t; t.tv_sec = n / 1000000000; t.tv_nsec = n % 1000000000; return t; }
    int64_t real(clockid_t id) { timespec t; ::syscall(SYS_clock_gettime, id, &t); return ns(t); }
    int64_t g_base[2];
    bool fast(clockid_t id) { return g_speed > 1 && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC); }
}

extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept
{
    long r = ::syscall(SYS_clock_gettime, id, t);
    if (r == 0 && fast(id)) *t = ts(g_base[id] + (ns(*t) - g_base[id]) * g_speed);
    return static_cast<int>(r);
}

extern "C" int timerfd_settime(int fd, int flags, const itimerspec* value, itimerspec* old) noexcept
{
    itimerspec v = *value;
    if (g_speed > 1)
    {
        if (int64_t n = ns(v.it_value); n > 0)
        {
            if (flags & TFD_TIMER_ABSTIME) { if (int64_t b = g_base[CLOCK_MONOTONIC]; n > b) v.it_value = ts(b + (n - b) / g_speed); }
            else v.it_value = ts(std::max<int64_t>(n / g_speed, 1));
        }
        if (int64_t n = ns(v.it_interval); n > 0) v.it_interval = ts(std::max<int64_t>(n / g_speed, 1));
    }
    return static_cast<int>(::syscall(SYS_timerfd_settime, fd, flags, &v, old));
}

namespace
{
    using namespace mdl;
    using namespace dots::types;
    using pbt::cat;
    using net::Kind;
    using net::Place;
    using Clock = std::chrono::steady_clock;
    namespace asio = dots::asio;
    constexpr long Speed = 200;

    // ---------------------------------------------------------------- the daemon's process

    struct Daemon
    {
        pid_t pid = -1;
        bool ended = false;
        int status = 0;

        explicit Daemon(const std::vector<std::string>& arguments, const std::optional<std::string>& endpoints = {})
        {
            std::vector<std::string> env{ cat("VF_SPEED=", Speed) }, args = arguments;
            for (char** e = environ; *e; ++e) if (std::strncmp(*e, "DOTS_", 5) != 0) env.push_back(*e);
            if (endpoints) env.push_back("DOTS_ENDPOINT=" + *endpoints);
            std::vector<char*> envp, argv;
            for (auto& e : env) envp.push_back(e.data());
            envp.push_back(nullptr);
            for (auto& a : args) argv.push_back(a.data());
            argv.push_back(nullptr);
            posix_spawn_file_actions_t a;
            ::posix_spawn_file_actions_init(&a);
            ::posix_spawn_file_actions_addopen(&a, 1, "/dev/null", O_WRONLY, 0);
            const char* log = ::getenv("VF_STDERR");
            ::posix_spawn_file_actions_addopen(&a, 2, log == nullptr ? "/dev/null" : log, O_WRONLY | O_APPEND | O_CREAT, 0600);
            posix_spawnattr_t attr;
            ::posix_spawnattr_init(&attr);
            sigset_t none, all;
            ::sigemptyset(&none);
            ::sigemptyset(&all);
            for (int s : { SIGINT, SIGTERM }) ::sigaddset(&all, s);
            ::posix_spawnattr_setsigmask(&attr, &none);
            ::posix_spawnattr_setsigdefault(&attr, &all);
            ::posix_spawnattr_setflags(&attr, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
            int r = ::posix_spawn(&pid, "/proc/self/exe", &a, &attr, argv.data(), envp.data());
            ::posix_spawn_file_actions_destroy(&a);
            ::posix_spawnattr_destroy(&attr);
            if (r != 0) throw std::runtime_error{ "cannot start" };
        }
        ~Daemon()
        {
            if (!poll()) { ::kill(pid, SIGKILL); ::waitpid(pid, &status, 0); }
        }
        bool poll()
        {
            if (!ended && ::waitpid(pid, &status, WNOHANG) == pid) ended = true;
            return ended;
        }
        std::string end() const { return !ended ? "runs" : WIFEXITED(status) ? cat("ended with code ", WEXITSTATUS(status)) : cat("was killed by signal ", WTERMSIG(status)); }
    };

    std::string scheme(pbt::Src& s, Kind k)
    {
        switch (k)
        {
        case Kind::tcp1: return "tcp-v1";
        case Kind::tcp2: return s.boolean() ? "tcp-v2" : "tcp";
        case Kind::uds1: return "uds-v1";
        case Kind::uds2: return s.boolean() ? "uds-v2" : "uds";
        default: return "ws";
        }
    }
    std::string address(pbt::Src& s, const Place& p)
    {
        std::string sch = scheme(s, p.kind);
        return net::isUds(p.kind) ? sch + ":" + p.path : sch + "://" + p.address + ":" + p.port;
    }

    std::set<int> sockets()
    {
        std::set<int> r;
        for (int fd = 3; fd < 400; ++fd)
        {
            struct stat s;
            if (::fstat(fd, &s) == 0 && S_ISSOCK(s.st_mode)) r.insert(fd);
        }
        return r;
    }

    // ---------------------------------------------------------------- the guests and the model

    struct Guest
    {
        std::unique_ptr<dots::GuestTransceiver> transceiver;
        std::string name;
        uint32_t id = 0;
        int fd = -1;
        bool closed = false, announced = false;
        std::string error;
    };

    struct Record { uint32_t created, updated; std::optional<std::string> a; std::optional<int32_t> b; };

    struct World
    {
        pbt::Ctx& c;
        net::Scratch& scratch;
        asio::io_context io{ 1 };
        std::vector<Place> places;
        std::string name = "dotsd";
        std::unique_ptr<Daemon> daemon;
        std::unique_ptr<Guest> observer;
        std::vector<std::unique_ptr<Guest>> guests;
        std::map<uint32_t, std::pair<std::string, bool>> gone;      // name, announced
        std::map<uint16_t, Record> plain;
        std::map<uint32_t, Record> cleanup;
        std::map<std::tuple<int64_t, std::string>, Record> keys;
        std::map<uint32_t, int32_t> barriers;                       // how far the objects of a guest have been seen
        int32_t barrier = 0;
        std::optional<std::string> secret;
        Clock::time_point start = Clock::now();
        double startTime = std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count();
        std::string trouble;
        size_t statuses = 0, removals = 0;

        World(pbt::Ctx& c_, net::Scratch& s_) : c(c_), scratch(s_) {}
        ~World()
        {
            for (auto& g : guests) g->transceiver.reset();
            if (observer) observer->transceiver.reset();
            daemon.reset();
            io.restart();
            io.poll();
            for (auto& p : places) if (net::isUds(p.kind)) ::unlink(p.path.c_str());
        }

        template <typename F, typename W>
        void until(F done, W what, double seconds = 30)
        {
            for (auto end = Clock::now() + std::chrono::duration<double>(seconds); !done(); )
            {
                io.restart();
                if (io.poll() == 0) ::usleep(200);
                c.throwIfFailed();
                if (!trouble.empty()) c.fail(trouble);
                if (daemon && daemon->poll()) c.fail(cat("the daemon ", daemon->end()));
                if (Clock::now() > end) { if constexpr (std::is_invocable_v<W>) c.fail(what()); else c.fail(what); }
            }
        }

        std::unique_ptr<Guest> connect(const std::string& name_, const Place& p, bool first = false)
        {
            auto g = std::make_unique<Guest>();
            Guest* raw = g.get();
            g->name = name_;
            g->transceiver = std::make_unique<dots::GuestTransceiver>(name_, io, dots::type::Registry::StaticTypePolicy::All, dots::GuestTransceiver::transition_handler_t{ [raw](const dots::Connection& k, std::exception_ptr e)
            {
                if (k.state() != DotsConnectionState::closed) return;
                raw->closed = true;
                try { if (e != nullptr) std::rethrow_exception(e); } catch (const std::exception& x) { raw->error = x.what(); }
            } });
            dots::io::channel_ptr_t channel;
            auto before = sockets();
            for (auto end = Clock::now() + std::chrono::seconds{ 30 }; channel == nullptr; )
            {
                try { channel = net::makeChannel(io, p); }
                catch (const std::exception& e)
                {
                    if (daemon->poll()) c.fail(cat("the daemon ", daemon->end()));
                    if (!first || Clock::now() > end) c.fail(cat("the daemon does not listen on ", net::name(p.kind), ": ", e.what()));
                    ::usleep(2000);
                }
            }
            for (int fd : sockets()) if (before.count(fd) == 0) g->fd = fd;
            g->transceiver->open({}, {}, secret, std::move(channel));
            until([&] { return g->transceiver->connected() || g->closed; }, cat("the daemon does not serve a guest on ", net::name(p.kind)));
            if (g->closed) c.fail(cat("the daemon refuses a guest on ", net::name(p.kind), ": ", g->error));
            g->id = g->transceiver->connection().selfId();
            c.check(g->transceiver->connection().peerName() == name, cat("the daemon calls itself ", pbt::quote(g->transceiver->connection().peerName()), " instead of ", pbt::quote(name)));
            return g;
        }

        void observe()
        {
            observer = connect("observer", places[0], true);
            auto& t = *observer->transceiver;
            t.subscribe<VfPlain>([](const dots::Event<VfPlain>&) {}).discard();
            t.subscribe<VfCleanup>([](const dots::Event<VfCleanup>&) {}).discard();
            t.subscribe<VfKeys>([](const dots::Event<VfKeys>&) {}).discard();
            t.subscribe<VfUncached>([this](const dots::Event<VfUncached>& e) { barriers[*e.updated().id] = *e.updated().b; }).discard();
            t.subscribe<DotsClient>([this](const dots::Event<DotsClient>& e)
            {
                if (!e.isRemove()) return;
                ++removals;
                uint32_t id = *e.updated().id;
                if (present(id)) trouble = cat("the daemon removes the object of client ", id, " (", pbt::quote(present(id)->name), "), which is connected");
                else if (referenced(id)) trouble = cat("the daemon removes the object of client ", id, " although there are objects from it");
            }).discard();
            t.subscribe<DotsDaemonStatus>([this](const dots::Event<DotsDaemonStatus>& e)
            {
                ++statuses;
                if (e.isRemove()) trouble = "the daemon removes its status";
            }).discard();
            settleObjects(observer.get());
        }

        Guest* present(uint32_t id)
        {
            if (observer && observer->id == id) return observer.get();
            for (auto& g : guests) if (g->id == id) return g.get();
            return nullptr;
        }
        bool referenced(uint32_t id)
        {
            for (auto& [k, r] : plain) if (r.created == id || r.updated == id) return true;
            for (auto& [k, r] : cleanup) if (r.created == id || r.updated == id) return true;
            for (auto& [k, r] : keys) if (r.created == id || r.updated == id) return true;
            return false;
        }

        // what is wrong with the observer's view of the application objects
        std::string objects()
        {
            auto& pool = observer->transceiver->pool();
            auto compare = [&](const auto& box, auto& model, auto key) -> std::string
            {
                if (box.size() != model.size()) return cat("there are ", box.size(), " objects instead of ", model.size());
                for (auto& [x, info] : box)
                {
                    auto& o = x.template to<std::decay_t<decltype(key.type)>>();
                    auto r = model.find(key(o));
                    if (r == model.end()) return "an object is there that was not published";
                    (void)info;
                    if (!key.equal(o, r->second)) return "an object has another value";
                }
                return "";
            };
            struct P { VfPlain type; uint16_t operator()(const VfPlain& o) const { return *o.id; } bool equal(const VfPlain& o, const Record& r) const { return opt<std::string>(o.a) == r.a && opt<int32_t>(o.b) == r.b; } };
            struct C { VfCleanup type; uint32_t operator()(const VfCleanup& o) const { return *o.id; } bool equal(const VfCleanup& o, const Record& r) const { return opt<std::string>(o.a) == r.a && opt<int32_t>(o.b) == r.b; } };
            struct K { VfKeys type; std::tuple<int64_t, std::string> operator()(const VfKeys& o) const { return { *o.k2, *o.k1 }; } bool equal(const VfKeys& o, const Record& r) const { return opt<std::string>(o.value) == r.a && o.count.isValid() == r.b.has_value() && (!r.b || static_cast<int32_t>(*o.count) == *r.b); } };
            if (auto e = compare(pool.get<VfPlain>(), plain, P{}); !e.empty()) return e;
            if (auto e = compare(pool.get<VfCleanup>(), cleanup, C{}); !e.empty()) return e;
            return compare(pool.get<VfKeys>(), keys, K{});
        }
        template <typename T, typename P>
        static std::optional<T> opt(const P& p) { if (p.isValid()) return *p; return {}; }

        // what is wrong with the observer's view of the clients
        std::string clients()
        {
            std::set<uint32_t> seen;
            for (auto& [x, info] : observer->transceiver->pool().get<DotsClient>())
            {
                auto& d = x.to<DotsClient>();
                seen.insert(*d.id);
                if (Guest* g = present(*d.id))
                {
                    if (!(d.connectionState == DotsConnectionState::connected)) return cat("client ", *d.id, " is connected, but published as ", d.connectionState.isValid() ? std::to_string(static_cast<int>(*d.connectionState)) : std::string{ "<none>" });
                    if (!(d.name == g->name)) return cat("client ", *d.id, " is published by another name");
                    if ((d.running == true) != g->announced) return cat("client ", *d.id, ": what the client says about itself is lost");
                }
                else
                {
                    if (!(d.connectionState == DotsConnectionState::closed)) return cat("client ", *d.id, " is gone, but published as ", d.connectionState.isValid() ? std::to_string(static_cast<int>(*d.connectionState)) : std::string{ "<none>" });
                    if (auto g = gone.find(*d.id); g != gone.end() && !(d.name == g->second.first)) return cat("client ", *d.id, ", which is gone, is published by another name");
                    if (!referenced(*d.id)) return cat("client ", *d.id, " is gone and there is nothing left from it, but it is still published");
                }
            }
            if (seen.count(observer->id) == 0) return "the observer is not published";
            for (auto& g : guests) if (seen.count(g->id) == 0) return cat("client ", g->id, " is connected but not published");
            for (auto& [id, g] : gone) if (referenced(id) && seen.count(id) == 0) return cat("client ", id, " is not published although there are objects from it");
            return "";
        }

        const DotsDaemonStatus* status()
        {
            auto& box = observer->transceiver->pool().get<DotsDaemonStatus>();
            if (box.size() > 1) c.fail("the daemon publishes more than one status");
            for (auto& [x, info] : box) return &x.to<DotsDaemonStatus>();
            return nullptr;
        }

        void settleObjects(Guest* g = nullptr)
        {
            if (g != nullptr)
            {
                g->transceiver->publish(VfUncached{ .id = g->id, .b = ++barrier });
                until([&] { return barriers[g->id] == barrier; }, "the daemon does not forward what a guest publishes");
            }
            until([&] { return objects().empty(); }, [&] { return cat("objects of the guests do not arrive: ", objects()); });
        }
        void settle()
        {
            settleObjects();
            until([&] { return clients().empty(); }, [&] { return clients(); });
            for (auto& g : guests) if (g->closed) c.fail(cat("guest ", pbt::quote(g->name), " is disconnected: ", g->error));
        }
        void checkStatus()
        {
            until([&] { return status() != nullptr; }, "the daemon does not publish its status");
            auto* s = status();
            c.check(s->serverName == name, "the daemon's status names another server");
            double up = std::chrono::duration<double>(Clock::now() - start).count();
            c.check(s->startTime.isValid() && s->startTime->duration().toFractionalSeconds() >= startTime - 2 && s->startTime->duration().toFractionalSeconds() <= startTime + up * Speed + 2, "the daemon's status tells a wrong start time");
            c.check(s->cache.isValid() && s->cache->nrTypes.isValid() && s->cache->size.isValid(), "the daemon's status does not tell what is cached");
            c.check(*s->cache->nrTypes >= 2u, "the daemon's status tells too few types");
            c.check(s->resourceUsage.isValid() && s->resourceUsage->maxRss.isValid() && *s->resourceUsage->maxRss > 1000 && s->resourceUsage->userCpuTime.isValid(), "the daemon's status does not tell what the daemon uses");
        }

        Record& touch(auto& model, auto key, uint32_t id)
        {
            auto [r, isNew] = model.try_emplace(key, Record{ id, id, {}, {} });
            r->second.updated = id;
            return r->second;
        }
        void publish(Guest& g)
        {
            size_t n = 1 + c.s.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                std::optional<std::string> a;
                std::optional<int32_t> b;
                if (c.s.boolean()) a = std::string(c.s.length(10), 'x');
                if (c.s.boolean()) b = static_cast<int32_t>(c.s.below(1000));
                uint32_t key = static_cast<uint32_t>(c.s.below(5));
                bool remove = c.s.chance(1, 3);
                auto done = [&](auto& model, auto k, auto x)
                {
                    if (remove) { model.erase(k); g.transceiver->remove(x); return; }
                    Record& r = touch(model, k, g.id);
                    if (a) r.a = a;
                    if (b) r.b = b;
                    g.transceiver->publish(x);
                };
                size_t kind = c.s.below(3);
                if (remove && (kind == 0 ? plain.count(static_cast<uint16_t>(key)) : kind == 1 ? cleanup.count(key) : keys.count({ key / 2, key % 2 ? "k" : "" })) == 0) remove = false;
                c.log << "\n  " << pbt::quote(g.name) << (remove ? " removes " : " publishes ") << (kind == 0 ? "VfPlain " : kind == 1 ? "VfCleanup " : "VfKeys ") << key;
                switch (kind)
                {
                case 0: { VfPlain x{ .id = static_cast<uint16_t>(key) }; if (a) x.a = *a; if (b) x.b = *b; done(plain, static_cast<uint16_t>(key), x); break; }
                case 1: { VfCleanup x{ .id = key }; if (a) x.a = *a; if (b) x.b = *b; done(cleanup, key, x); break; }
                default: { VfKeys x{ .k1 = key % 2 ? "k" : "", .k2 = key / 2, .k3 = VfColor::red }; if (a) x.value = *a; if (b) x.count = static_cast<uint32_t>(*b); done(keys, std::tuple<int64_t, std::string>{ key / 2, key % 2 ? "k" : "" }, x); break; }
                }
            }
            settleObjects(&g);
        }
        void leave(size_t i, bool abruptly)
        {
            auto g = std::move(guests[i]);
            guests.erase(guests.begin() + static_cast<std::ptrdiff_t>(i));
            gone[g->id] = { g->name, g->announced };
            for (auto k = cleanup.begin(); k != cleanup.end(); ) k = k->second.updated == g->id ? cleanup.erase(k) : std::next(k);
            if (abruptly && g->fd >= 0)
            {
                ::shutdown(g->fd, SHUT_RDWR);
                until([&] { return g->closed; }, "a guest does not notice that its connection has broken");
            }
            g->transceiver.reset();
            until([&]
            {
                for (auto& [x, info] : observer->transceiver->pool().get<DotsClient>()) if (auto& d = x.to<DotsClient>(); *d.id == g->id) return d.connectionState == DotsConnectionState::closed;
                return true;
            }, cat("the daemon does not tell that client ", g->id, " is gone"));
            settleObjects();
        }
    };

    std::string word(pbt::Src& s)
    {
        static const std::string odd = "abcxyz ABC0-_.:/@\"'=";
        std::string r;
        for (size_t n = 1 + s.length(8); n > 0; --n) r += odd[s.below(odd.size())];
        return r;
    }

    void daemons(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        World w{ c, scratch };
        std::vector<std::string> args{ "dotsd" };
        if (c.s.chance(1, 2))
        {
            w.name = word(c.s);
            if (w.name[0] == '-') w.name[0] = 'd';
            switch (c.s.below(3))
            {
            case 0: args.push_back("--daemon-name=" + w.name); break;
            case 1: args.push_back("--daemon-name"); args.push_back(w.name); break;
            default: args.push_back("-n"); args.push_back(w.name); break;
            }
        }
        std::optional<std::string> env;
        bool inArgs = c.s.boolean();
        for (size_t n = 1 + c.s.below(3); n > 0; --n)
        {
            Place p;
            p.kind = static_cast<Kind>(c.s.weighted({ 4, 2, 3, 1, 2 }));
            { asio::io_context io{ 1 }; net::makeListener(io, p, scratch); }
            w.places.push_back(p);
            std::string to = address(c.s, p);
            if (inArgs) { if (c.s.boolean()) args.push_back("--dots-endpoint=" + to); else { args.push_back("--dots-endpoint"); args.push_back(to); } }
            else env = env ? *env + " " + to : to;
        }
        for (auto& a : args) c.log << (a == "dotsd" ? "" : " ") << pbt::quote(a);
        if (env) c.log << " DOTS_ENDPOINT=" << pbt::quote(*env);
        w.daemon = std::make_unique<Daemon>(args, env);
        w.observe();
        size_t left = 0, strangers = 0, published = 0;
        for (size_t steps = 3 + c.s.length(24); steps > 0; --steps)
        {
            switch (c.s.weighted({ 4, w.guests.empty() ? 0u : 6u, w.guests.empty() ? 0u : 4u, 2, w.guests.empty() ? 0u : 1u, 2, 1, 1 }))
            {
            case 0:
            {
                if (w.guests.size() == 4) break;
                std::string name = c.s.chance(1, 3) ? word(c.s) : "guest" + std::to_string(w.guests.size());
                const Place& p = w.places[c.s.below(w.places.size())];
                c.log << "\n  " << pbt::quote(name) << " connects by " << net::name(p.kind);
                w.guests.push_back(w.connect(name, p));
                c.log << ": " << w.guests.back()->id;
                break;
            }
            case 1: w.publish(*w.guests[c.s.below(w.guests.size())]); ++published; break;
            case 2:
            {
                size_t i = c.s.below(w.guests.size());
                bool abruptly = c.s.boolean();
                c.log << "\n  " << pbt::quote(w.guests[i]->name) << (abruptly ? " is cut off" : " leaves");
                w.leave(i, abruptly);
                ++left;
                break;
            }
            case 3:
                c.log << "\n  settle";
                w.settle();
                break;
            case 4:
            {
                auto& g = *w.guests[c.s.below(w.guests.size())];
                c.log << "\n  " << pbt::quote(g.name) << " announces itself";
                g.announced = true;
                g.transceiver->publish(DotsClient{ .id = g.id, .running = true });
                break;
            }
            case 5:
            {
                const Place& p = w.places[c.s.below(w.places.size())];
                bool reset = c.s.boolean();
                std::string text(c.s.length(12), '\0');
                for (auto& ch : text) ch = static_cast<char>(c.s.below(256));
                c.log << "\n  a stranger comes by " << net::name(p.kind) << ", says " << pbt::quote(text) << (reset ? " and is cut off" : " and goes");
                int fd = net::rawConnect(p);
                if (fd < 0) c.fail("the daemon does not listen any more");
                if (::send(fd, text.data(), text.size(), MSG_NOSIGNAL | MSG_DONTWAIT) < 0) {}
                if (c.s.boolean()) { w.io.restart(); w.io.poll(); ::usleep(200); }
                reset ? net::reset(fd) : static_cast<void>(::close(fd));
                ++strangers;
                break;
            }
            case 6:
            {
                c.log << "\n  check the status";
                w.checkStatus();
                break;
            }
            case 7:
            {
                // what is cached is told sooner or later, and so is that it is not any more
                if (w.guests.empty()) break;
                auto& g = *w.guests[c.s.below(w.guests.size())];
                w.settle();
                w.checkStatus();
                size_t big = 100000 + c.s.below(400000);
                c.log << "\n  " << pbt::quote(g.name) << " publishes " << big << " bytes and removes them";
                uint64_t before = *w.status()->cache->size;
                Record& r = w.touch(w.plain, uint16_t{ 99 }, g.id);
                r.a = std::string(big, 'b');
                g.transceiver->publish(VfPlain{ .id = uint16_t{ 99 }, .a = *r.a });
                w.settleObjects(&g);
                w.until([&] { return *w.status()->cache->size >= before + big - 20000; }, "the daemon's status does not tell that more is cached");
                uint64_t most = *w.status()->cache->size;
                w.plain.erase(uint16_t{ 99 });
                g.transceiver->remove(VfPlain{ .id = uint16_t{ 99 } });
                w.settleObjects(&g);
                w.until([&] { return *w.status()->cache->size + big <= most + 20000; }, "the daemon's status does not tell that less is cached");
                break;
            }
            }
        }
        c.log << "\n  settle";
        w.settle();
        w.checkStatus();
        int sig = c.s.boolean() ? SIGTERM : SIGINT;
        c.log << "\n  signal " << sig;
        ::kill(w.daemon->pid, sig);
        for (auto end = Clock::now() + std::chrono::seconds{ 30 }; ; )
        {
            w.io.restart();
            w.io.poll();
            bool closed = w.observer->closed;
            for (auto& g : w.guests) closed = closed && g->closed;
            if (w.daemon->poll() && closed) break;
            if (Clock::now() > end) c.fail(w.daemon->ended ? "a guest does not notice the end of the daemon" : "the daemon does not end on a signal");
            ::usleep(200);
        }
        c.check(WIFEXITED(w.daemon->status) && WEXITSTATUS(w.daemon->status) == 0, cat("the daemon ", w.daemon->end(), " on a signal"));
        c.count("clients left", left);
        c.count("strangers", strangers);
        c.count("client objects removed", w.removals);
        c.count("statuses", w.statuses);
        c.nontrivial(left > 0 && published > 0);
    }

    // programs that have to end by themselves
    void ends(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        World w{ c, scratch };
        std::vector<std::string> args{ "dotsd" };
        bool good = false;
        Place p;
        p.kind = static_cast<Kind>(c.s.below(5));
        std::unique_ptr<asio::io_context> io;
        dots::io::listener_ptr_t listener;
        io = std::make_unique<asio::io_context>(1);
        listener = net::makeListener(*io, p, scratch);
        w.places.push_back(p);
        switch (c.s.below(4))
        {
        case 0: args.push_back("--help"); good = true; break;
        case 1: args.push_back("--dots-endpoint=" + address(c.s, p)); break;    // is in use
        case 2: args.push_back("--dots-endpoint=" + c.s.one<std::string>({ "http://127.0.0.1", "nothing", "udp://127.0.0.1:7", "tcp://203.0.113.7:1" })); break;
        default: args.push_back("--daemon-name"); break;
        }
        if (!good && c.s.boolean()) args.insert(args.begin() + 1, "--daemon-name=x");
        for (auto& a : args) c.log << ' ' << pbt::quote(a);
        Daemon d{ args };
        for (auto end = Clock::now() + std::chrono::seconds{ 30 }; !d.poll(); ::usleep(300)) if (Clock::now() > end) c.fail("the daemon does not end");
        c.check(WIFEXITED(d.status) && (WEXITSTATUS(d.status) == 0) == good && WEXITSTATUS(d.status) < 98, cat("the daemon ", d.end()));
        c.nontrivial(true);
    }
}

int main(int argc, char** argv)
{
    if (const char* speed = ::getenv("VF_SPEED"))
    {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::close_range(3, ~0u, 0);
        for (clockid_t id : { CLOCK_REALTIME, CLOCK_MONOTONIC }) g_base[id] = real(id);
        g_speed = std::atol(speed);
        ::unsetenv("VF_SPEED");
        if (::getenv("VF_STDERR") == nullptr) dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg);
        return dotsd_main(argc, argv);
    }
    pbt::Check check;
    check.property = "D29";
    check.rule = "at least one guest publishes something and one leaves";
    check.subs = {
        { "daemons", daemons, 4000, 60000, 120 },
        { "ends", ends, 100, 1000, 120 },
    };
    check.init = [] { dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); ::signal(SIGPIPE, SIG_IGN); };
    return pbt::run(argc, argv, check);
}
