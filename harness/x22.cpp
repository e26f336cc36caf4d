// X22: timers, descriptor watches and subscriptions fire until they are released, never after.
#include "subject.h"
#include "broker.h"
#include <dots/HostTransceiver.h>
#include <dots/Timer.h>
#include <dots/asio.h>
#include <dots/dots.h>
#include <dots/io/Io.h>
#include <dots/io/FdObserver.h>
#include <dots/type/DynamicStruct.h>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <thread>
#include <unistd.h>

using pbt::cat;
using Clock = std::chrono::steady_clock;
using namespace std::chrono_literals;
using dots::io::posix::FdObserver;

// ---- a clock that stands still until it is told to go on

namespace
{
    bool g_standing = false;
    int64_t g_now = 0;
    std::map<int, int64_t> g_due;   // of the timer descriptors of event loops
}

extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept
{
    if (!g_standing || id != CLOCK_MONOTONIC) return static_cast<int>(::syscall(SYS_clock_gettime, id, t));
    t->tv_sec = g_now / 1000000000;
    t->tv_nsec = g_now % 1000000000;
    return 0;
}

extern "C" int timerfd_settime(int fd, int flags, const itimerspec* value, itimerspec* old) noexcept
{
    itimerspec v = *value;
    if (g_standing)
    {
        int64_t n = int64_t{ 1000000000 } * v.it_value.tv_sec + v.it_value.tv_nsec;
        g_due.erase(fd);
        if (n > 0 && (flags & TFD_TIMER_ABSTIME) == 0)
        {
            g_due[fd] = g_now + n;
            v = itimerspec{};
        }
    }
    return static_cast<int>(::syscall(SYS_timerfd_settime, fd, flags, &v, old));
}

namespace
{
    // ---- timers and watches
    enum class Op { nothing, timer, periodic, watch, destroy, move, moveInto, discard, write, spend, count };

    struct Step
    {
        Op op = Op::nothing;
        size_t a = 0, b = 0;
        int ms = 0;
        std::vector<std::vector<Step>> script; // what the handler of the created item does when it is called for the n-th time
        size_t takes = 1;
    };

    Step genStep(pbt::Src& s, unsigned depth)
    {
        Step r;
        r.op = static_cast<Op>(s.weighted({ 0, 6, 3, 4, 5, 3, 3, 2, 4, 1 }));
        r.a = s.below(5);
        r.b = s.below(5);
        r.ms = static_cast<int>(s.below(s.chance(1, 4) ? 6 : 3));
        r.takes = 1 + s.below(3);
        if ((r.op == Op::timer || r.op == Op::periodic || r.op == Op::watch) && depth > 0)
        {
            size_t n = s.length(3);
            for (size_t i = 0; i < n; ++i)
            {
                std::vector<Step> steps;
                size_t k = s.length(2);
                for (size_t j = 0; j < k; ++j) steps.push_back(genStep(s, depth - 1));
                r.script.push_back(std::move(steps));
            }
        }
        return r;
    }

    struct Item
    {
        size_t id = 0;
        Op kind = Op::timer;
        Clock::time_point dueMin, dueMax; // of a one-shot timer or of the first firing
        std::chrono::milliseconds interval{};
        size_t fired = 0;
        bool released = false;
        bool discarded = false;
        int readEnd = -1, writeEnd = -1;
        size_t available = 0;
        size_t takes = 1;
        size_t spurious = 0;
        std::vector<std::vector<Step>> script;
        ~Item()
        {
            if (writeEnd >= 0) ::close(writeEnd);
        }
    };
    using ItemP = std::shared_ptr<Item>;

    struct Slot
    {
        std::optional<dots::Timer> timer;
        std::optional<FdObserver> watch;
        std::optional<dots::Timer::id_t> id; // of a timer that the library keeps
        ItemP item;

        void clear()
        {
            timer.reset();
            watch.reset();
            if (id) dots::remove_timer(*id);
            id.reset();
        }
    };

    struct Bench
    {
        pbt::Ctx& c;
        bool global; // on the event loop of the library
        std::unique_ptr<dots::asio::io_context> own = std::make_unique<dots::asio::io_context>();
        dots::asio::io_context* io = global ? &dots::io::global_io_context() : own.get();
        std::vector<ItemP> items;
        std::vector<dots::Timer::id_t> removed;
        std::array<Slot, 5> slots;
        size_t calls = 0, releasedPending = 0, inside = 0;
        bool ending = false;

        explicit Bench(pbt::Ctx& c_, bool global_ = false) : c(c_), global(global_) {}
        ~Bench()
        {
            for (auto& s : slots) s.clear();
            if (global) { io->restart(); io->poll(); }
        }

        void fired(const ItemP& item, std::exception_ptr e)
        {
            if (c.failed) return;
            try
            {
                ++calls;
                auto now = Clock::now();
                const char* what = item->kind == Op::watch ? "watch " : "timer ";
                c.check(!item->released, cat(what, item->id, " fired after it had been released"));
                ++item->fired;
                if (item->kind == Op::timer)
                {
                    c.check(item->fired == 1, cat("one-shot timer ", item->id, " fired again"));
                    c.check(now >= item->dueMin, cat("timer ", item->id, " fired too early"));
                    for (auto& other : items)
                    {
                        if (other->kind == Op::timer && !other->released && other->fired == 0) c.check(other->dueMax >= item->dueMin, cat("timer ", item->id, " fired before timer ", other->id, ", which was due earlier"));
                    }
                }
                else if (item->kind == Op::periodic)
                {
                    c.check(now >= item->dueMin + item->interval * (item->fired - 1), cat("periodic timer ", item->id, " fired too early for the ", item->fired, ". time"));
                }
                else
                {
                    c.check(e == nullptr, cat("watch ", item->id, " reported an error"));
                    // epoll might report what happened to a closed descriptor for a new one
                    if (item->available == 0) c.check(++item->spurious <= items.size(), cat("watch ", item->id, " is called although there is no data"));
                    char buffer[8];
                    auto n = ::read(item->readEnd, buffer, std::min<size_t>(item->takes, sizeof buffer));
                    c.check(n > 0 || item->available == 0, cat("there is no data for watch ", item->id));
                    if (n > 0) item->available -= static_cast<size_t>(n);
                }
                if (item->fired <= item->script.size() && !ending)
                {
                    ++inside;
                    for (auto& step : item->script[item->fired - 1]) run(step);
                    --inside;
                }
            }
            catch (const pbt::Failure&)
            {
                io->stop();
            }
        }

        void release(Slot& s)
        {
            if (!s.item) return;
            bool pending = s.item->kind != Op::timer || s.item->fired == 0;
            if (pending) ++releasedPending;
            s.item->released = true;
            s.item = nullptr;
        }

        ItemP create(const Step& step)
        {
            auto item = std::make_shared<Item>();
            item->id = items.size();
            item->kind = step.op;
            item->script = step.script;
            item->takes = step.takes;
            item->interval = std::chrono::milliseconds{ step.op == Op::periodic ? step.ms + 1 : step.ms };
            items.push_back(item);
            return item;
        }

        void put(const Step& step, Slot& slot)
        {
            ItemP item = create(step);
            c.log << (inside ? "  " : "") << "slot " << step.a << ": " << (step.op == Op::watch ? "watch " : step.op == Op::timer ? "timer " : "periodic timer ") << item->id << " of " << item->interval.count() << " ms\n";
            // the handler does not keep the item alive by itself
            auto call = [this, item] { fired(item, nullptr); };
            if (step.op == Op::watch)
            {
                int fds[2];
                if (::pipe2(fds, O_NONBLOCK | O_CLOEXEC) != 0) throw std::runtime_error{ "no pipe" };
                item->writeEnd = fds[1];
                item->readEnd = fds[0]; // which the watch owns
                FdObserver o{ *io, fds[0], [this, item](std::exception_ptr e) { fired(item, e); } };
                release(slot);
                if (slot.timer) slot.timer.reset();
                if (slot.id) slot.clear();
                // replaces what was there by moving the new one over it
                if (slot.watch) *slot.watch = std::move(o);
                else slot.watch.emplace(std::move(o));
            }
            else
            {
                auto before = Clock::now();
                std::optional<dots::Timer> t;
                std::optional<dots::Timer::id_t> id;
                if (global && step.takes > 1) id = dots::add_timer(dots::duration_t{ item->interval }, call, step.op == Op::periodic);
                else if (global) t = dots::create_timer(dots::duration_t{ item->interval }, call, step.op == Op::periodic);
                else t.emplace(*io, dots::duration_t{ item->interval }, call, step.op == Op::periodic);
                item->dueMin = before + item->interval;
                item->dueMax = Clock::now() + item->interval;
                release(slot);
                slot.watch.reset();
                if (slot.id) { removed.push_back(*slot.id); dots::remove_timer(*slot.id); slot.id.reset(); }
                if (id) { slot.timer.reset(); slot.id = id; }
                else if (slot.timer) *slot.timer = std::move(*t);
                else slot.timer.emplace(std::move(*t));
            }
            slot.item = item;
        }

        void run(const Step& step)
        {
            if (items.size() > 40) return;
            Slot& a = slots[step.a];
            Slot& b = slots[step.b];
            auto log = [&](const std::string& text) { c.log << (inside ? "  " : "") << "slot " << step.a << ": " << text << "\n"; };
            switch (step.op)
            {
                case Op::timer:
                case Op::periodic:
                case Op::watch:
                    put(step, a);
                    break;
                case Op::destroy:
                    log("destroy");
                    // a timer that has been removed before is unknown
                    if (!a.id && !removed.empty() && step.ms == 0) dots::remove_timer(removed[step.b % removed.size()]);
                    if (a.id) removed.push_back(*a.id);
                    release(a);
                    a.clear();
                    break;
                case Op::move:
                {
                    // out of the slot and back
                    if (!a.item || step.a == step.b) break;
                    log(cat("move to slot ", step.b));
                    release(b);
                    b.clear();
                    std::swap(a.id, b.id);
                    if (a.timer) { b.timer.emplace(std::move(*a.timer)); a.timer.reset(); }
                    if (a.watch) { b.watch.emplace(std::move(*a.watch)); a.watch.reset(); }
                    b.item = std::move(a.item);
                    a.item = nullptr;
                    break;
                }
                case Op::moveInto:
                {
                    if (!a.item || step.a == step.b) break;
                    if (a.timer && b.timer)
                    {
                        log(cat("move over the one in slot ", step.b));
                        release(b);
                        *b.timer = std::move(*a.timer);
                        // a moved handle is empty
                        if (step.ms & 1) a.timer->discard();
                        a.timer.reset();
                        b.item = std::move(a.item);
                    }
                    else if (a.watch && b.watch)
                    {
                        log(cat("move over the one in slot ", step.b));
                        release(b);
                        *b.watch = std::move(*a.watch);
                        if (step.ms & 1) a.watch->discard();
                        a.watch.reset();
                        b.item = std::move(a.item);
                    }
                    break;
                }
                case Op::discard:
                    if (!a.item || global) break;
                    log("discard");
                    a.item->discarded = true;
                    if (a.timer) a.timer->discard();
                    if (a.watch) a.watch->discard();
                    if (step.ms & 1) { a.timer.reset(); a.watch.reset(); }
                    a.item = nullptr;
                    break;
                case Op::write:
                {
                    // to any watch, released or not
                    std::vector<ItemP> ws;
                    for (auto& i : items) if (i->kind == Op::watch) ws.push_back(i);
                    if (ws.empty()) break;
                    auto& w = ws[(step.a * 5 + step.b) % ws.size()];
                    size_t n = 1 + static_cast<size_t>(step.ms);
                    c.log << (inside ? "  " : "") << "write " << n << " bytes to watch " << w->id << "\n";
                    if (auto k = ::write(w->writeEnd, "xxxxxxxx", n); k > 0) w->available += static_cast<size_t>(k);
                    else c.check(errno == EPIPE && w->released, cat("watch ", w->id, " closed its descriptor"));
                    break;
                }
                case Op::spend:
                {
                    log(cat("spend ", step.ms, " ms"));
                    std::this_thread::sleep_for(std::chrono::milliseconds{ step.ms });
                    break;
                }
                default: break;
            }
        }

        // everything that was due has happened
        std::string missing(Clock::time_point now)
        {
            for (auto& i : items)
            {
                if (i->released) continue;
                if (i->kind == Op::timer && i->fired == 0 && i->dueMax <= now) return cat("timer ", i->id, " did not fire");
                if (i->kind == Op::periodic && i->dueMax <= now)
                {
                    auto want = static_cast<size_t>((now - i->dueMax) / i->interval) + 1;
                    if (i->fired < want) return cat("periodic timer ", i->id, " fired ", i->fired, " instead of ", want, " times");
                }
                if (i->kind == Op::watch && i->available > 0) return cat("watch ", i->id, " was not called although there is data");
            }
            return {};
        }

        void settle()
        {
            auto now = Clock::now();
            auto limit = now + 20s;
            for (;;)
            {
                io->restart();
                io->poll();
                c.throwIfFailed();
                std::string m = missing(now);
                if (m.empty()) return;
                if (Clock::now() > limit) c.fail(m);
                std::this_thread::sleep_for(100us);
            }
        }
    };

    void timers(pbt::Ctx& c)
    {
        size_t n = 2 + c.s.length(12);
        std::vector<std::pair<Step, int>> steps;
        for (size_t i = 0; i < n; ++i)
        {
            Step st = genStep(c.s, 2);
            steps.push_back({ std::move(st), c.s.chance(1, 3) ? static_cast<int>(c.s.below(4)) : -1 });
        }
        Bench b{ c, c.s.chance(1, 4) };
        if (b.global) c.log << "on the event loop of the library\n";
        for (auto& [step, wait] : steps)
        {
            b.run(step);
            if (wait >= 0)
            {
                c.log << "run for " << wait << " ms\n";
                if (wait == 0) { b.io->restart(); b.io->poll(); }
                else { b.io->restart(); b.io->run_for(std::chrono::milliseconds{ wait }); }
                c.throwIfFailed();
            }
        }
        // long enough for each one-shot timer
        auto until = Clock::now();
        for (auto& i : b.items) if (i->kind == Op::timer && !i->released && i->fired == 0) until = std::max(until, i->dueMax);
        b.io->restart();
        b.io->run_until(until);
        c.throwIfFailed();
        b.settle();
        // what is still active goes on
        if (c.s.boolean())
        {
            c.log << "go on for 2 ms\n";
            b.io->restart();
            b.io->run_for(2ms);
            c.throwIfFailed();
            b.settle();
        }
        // released in any order
        b.ending = true;
        for (size_t k = 0; k < b.slots.size(); ++k)
        {
            Slot& s = b.slots[c.s.below(b.slots.size())];
            b.release(s);
            s.clear();
        }
        for (auto& i : b.items) if (i->released && i->writeEnd >= 0 && ::write(i->writeEnd, "x", 1) == 1) ++i->available;
        b.io->restart();
        b.io->run_for(1ms);
        c.throwIfFailed();
        for (auto& s : b.slots)
        {
            b.release(s);
            s.clear();
        }
        bool active = false;
        for (auto& i : b.items) active = active || i->discarded;
        if (active) c.count("discarded");
        b.io->restart();
        b.io->poll();
        c.throwIfFailed();
        if (b.global) c.count("on the event loop of the library");
        c.count("calls", b.calls);
        c.nontrivial(b.calls > 0 && b.releasedPending > 0);
    }

    // ---- timers by a clock that goes on only as told
    struct Ticker
    {
        size_t id = 0;
        bool periodic = false, released = false, discarded = false;
        int64_t start = 0, interval = 0, spends = 0;
        size_t calls = 0, endsAt = 0;
        std::optional<dots::Timer> timer;
    };

    void clocks(pbt::Ctx& c)
    {
        struct Standing
        {
            Standing() { g_now = 1000000000000; g_due.clear(); g_standing = true; }
            ~Standing() { g_standing = false; }
        } standing;
        dots::asio::io_context io{ 1 };
        std::vector<std::unique_ptr<Ticker>> tickers;
        constexpr int64_t Slack = 2000;
        size_t calls = 0, late = 0;

        auto release = [&](Ticker& t) { t.released = true; t.timer.reset(); };
        auto fired = [&](Ticker& t)
        {
            if (c.failed) return;
            try
            {
                ++calls;
                c.check(!t.released, cat("timer ", t.id, " fired after it had been released"));
                ++t.calls;
                c.check(t.periodic || t.calls == 1, cat("one-shot timer ", t.id, " fired again"));
                int64_t due = t.start + t.interval * static_cast<int64_t>(t.calls);
                c.check(g_now >= due - Slack, cat("timer ", t.id, " fired ", due - g_now, " ns too early for the ", t.calls, ". time"));
                late += g_now > due + Slack;
                g_now += t.spends;
                if (t.calls == t.endsAt) release(t);
            }
            catch (const pbt::Failure&) {}
        };
        auto verify = [&]
        {
            for (auto& t : tickers)
            {
                if (t->released) continue;
                int64_t passed = g_now - t->start;
                auto count = [&](int64_t p) { return p < 0 ? size_t{ 0 } : t->periodic ? static_cast<size_t>(p / t->interval) : p >= t->interval ? size_t{ 1 } : size_t{ 0 }; };
                size_t least = count(passed - Slack), most = count(passed + Slack);
                c.check(t->calls >= least && t->calls <= most, cat(t->periodic ? "periodic" : "one-shot", " timer ", t->id, " of ", t->interval, " ns fired ", t->calls, " instead of ", least, " times within ", passed, " ns"));
            }
        };
        auto poll = [&]
        {
            for (size_t quiet = 0; quiet < 2; )
            {
                io.restart();
                quiet = io.poll() == 0 ? quiet + 1 : 0;
                c.throwIfFailed();
            }
        };
        auto run = [&](int64_t until)
        {
            poll();
            for (;;)
            {
                until = std::max(until, g_now);
                int fd = -1;
                for (auto& [f, due] : g_due) if (due <= until && (fd < 0 || due < g_due[fd])) fd = f;
                if (fd < 0) break;
                g_now = std::max(g_now, g_due[fd]);
                g_due.erase(fd);
                itimerspec v{};
                v.it_value.tv_nsec = 1;
                ::syscall(SYS_timerfd_settime, fd, TFD_TIMER_ABSTIME, &v, nullptr);
                poll();
            }
            g_now = until;
            poll();
        };

        for (size_t n = 3 + c.s.length(25); n > 0; --n)
        {
            switch (c.s.weighted({ 5, 6, 2, 1, 1 }))
            {
            case 0:
            {
                if (tickers.size() == 8) break;
                auto t = std::make_unique<Ticker>();
                t->id = tickers.size();
                t->periodic = !c.s.chance(1, 3);
                t->interval = static_cast<int64_t>(c.s.chance(1, 3) ? 1000 * (1 + c.s.below(50)) : 500 + c.s.below(50000)) * 1000;
                if (c.s.boolean()) t->spends = static_cast<int64_t>(c.s.below(100)) * (t->interval / 1000);
                if (c.s.chance(1, 5)) t->endsAt = 1 + c.s.below(4);
                t->start = g_now;
                c.log << "\n" << (t->periodic ? "periodic" : "one-shot") << " timer " << t->id << " of " << t->interval << " ns, whose handler takes " << t->spends << " ns";
                if (t->endsAt > 0) c.log << " and releases it at call " << t->endsAt;
                t->timer.emplace(io, dots::type::Duration{ static_cast<double>(t->interval) / 1e9 }, [&, raw = t.get()] { fired(*raw); }, t->periodic);
                tickers.push_back(std::move(t));
                break;
            }
            case 1:
            {
                int64_t d = static_cast<int64_t>(c.s.below(300000)) * 1000;
                c.log << "\nrun for " << d << " ns";
                run(g_now + d);
                verify();
                break;
            }
            case 2:
            {
                if (tickers.empty()) break;
                auto& t = *c.s.pick(tickers);
                if (t.released || t.discarded) break;
                c.log << "\nrelease timer " << t.id;
                release(t);
                break;
            }
            case 3:
            {
                if (tickers.empty()) break;
                auto& t = *c.s.pick(tickers);
                if (t.released || t.discarded || t.endsAt > 0) break;
                c.log << "\ndiscard timer " << t.id;
                t.discarded = true;
                t.timer->discard();
                break;
            }
            default:
            {
                int64_t d = static_cast<int64_t>(c.s.below(100000)) * 1000;
                c.log << "\nwait for " << d << " ns without running";
                g_now += d;
                break;
            }
            }
        }
        c.log << "\nrun for 300 ms";
        run(g_now + 300000000);
        verify();
        c.count("calls", calls);
        c.count("late calls", late);
        c.nontrivial(calls > 3);
    }

    // ---- subscriptions
    struct Host
    {
        std::unique_ptr<dots::HostTransceiver> t;
    };

    struct SStep
    {
        size_t op = 0, a = 0, b = 0, kind = 0;
        std::vector<std::vector<SStep>> script;
        size_t throws = 0;          // the handler throws when called for the n-th time
    };

    SStep genS(pbt::Src& s, unsigned depth, bool outside)
    {
        SStep r;
        r.op = s.weighted({ 6, 4, 3, 3, 2, 6, 3, outside ? 2u : 0u });
        r.a = s.below(5);
        r.b = s.below(5);
        r.kind = s.below(6);
        if (r.op == 0 && depth > 0)
        {
            size_t n = s.length(3);
            if (s.chance(1, 5)) r.throws = 1 + s.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                std::vector<SStep> steps;
                size_t k = s.length(2);
                for (size_t j = 0; j < k; ++j) steps.push_back(genS(s, depth - 1, false));
                r.script.push_back(std::move(steps));
            }
        }
        return r;
    }

    struct Sub
    {
        size_t id = 0;
        bool types = false;         // of new types, else of messages
        bool released = false;
        size_t throws = 0;
        size_t host = 0;
        std::map<uint64_t, size_t> got;
        std::vector<uint64_t> expected;
        size_t fired = 0;
        std::vector<std::vector<SStep>> script;
    };
    using SubP = std::shared_ptr<Sub>;

    struct SSlot
    {
        std::optional<dots::Subscription> s;
        SubP sub;
    };

    struct Subs
    {
        pbt::Ctx& c;
        dots::asio::io_context io;
        std::array<std::unique_ptr<dots::HostTransceiver>, 2> hosts;
        std::vector<std::unique_ptr<dots::HostTransceiver>> old;
        size_t current = 0;
        size_t generation = 0;
        std::vector<SubP> subs;
        std::array<SSlot, 5> slots;
        std::vector<std::shared_ptr<dots::type::Descriptor<>>> types;
        uint64_t next = 1;
        size_t depth = 0, calls = 0, releases = 0, moves = 0;

        explicit Subs(pbt::Ctx& c_) : c(c_) {}

        dots::HostTransceiver& host() { return *hosts[0]; }

        void fired(const SubP& s, uint64_t key)
        {
            if (c.failed) return;
            try
            {
                ++calls;
                c.check(!s->released, cat("subscription ", s->id, " was called after it had been released"));
                c.check(++s->got[key] == 1, cat("subscription ", s->id, " was called twice for ", s->types ? "type " : "message ", key));
                size_t n = ++s->fired;
                if (n <= s->script.size() && depth < 6)
                {
                    ++depth;
                    for (auto& st : s->script[n - 1]) run(st);
                    --depth;
                }
                if (n == s->throws)
                {
                    c.log << std::string(2 * depth + 2, ' ') << "subscription " << s->id << " throws\n";
                    c.count("throws");
                    throw std::runtime_error{ "handler error" };
                }
            }
            catch (const pbt::Failure&) {}
        }

        void release(SSlot& s)
        {
            if (s.sub) { s.sub->released = true; ++releases; }
            s.sub = nullptr;
        }

        dots::Subscription subscribe(const SubP& s, size_t kind)
        {
            auto& t = host();
            switch (kind)
            {
                case 0: return t.subscribe<VfUncached>([this, s](const dots::Event<VfUncached>& e) { fired(s, static_cast<uint64_t>(*e().id)); });
                case 1: return t.subscribe(VfUncached::_Descriptor(), dots::Transceiver::event_handler_t<>{ [this, s](const dots::Event<>& e) { fired(s, static_cast<uint64_t>(*e().template _to<VfUncached>().id)); } });
                case 2: return t.subscribe("VfUncached", dots::Transceiver::event_handler_t<>{ [this, s](const dots::Event<>& e) { fired(s, static_cast<uint64_t>(*e().template _to<VfUncached>().id)); } });
                case 3: return t.subscribe(VfUncached::_Descriptor(), dots::Transceiver::transmission_handler_t{ [this, s](const dots::io::Transmission& m) { fired(s, static_cast<uint64_t>(*m.instance()->_to<VfUncached>().id)); } });
                case 4: return t.subscribe("VfUncached", dots::Transceiver::transmission_handler_t{ [this, s](const dots::io::Transmission& m) { fired(s, static_cast<uint64_t>(*m.instance()->_to<VfUncached>().id)); } });
                default:
                {
                    s->types = true;
                    return t.subscribe(dots::Transceiver::new_type_handler_t<>{ [this, s](const dots::type::Descriptor<>& d)
                    {
                        if (d.name().rfind("New", 0) == 0) fired(s, std::stoull(d.name().substr(3)));
                    } });
                }
            }
        }

        void run(const SStep& st)
        {
            SSlot& a = slots[st.a];
            SSlot& b = slots[st.b];
            auto log = [&](const std::string& text) { c.log << std::string(2 * depth, ' ') << text << "\n"; };
            switch (st.op)
            {
                case 0:
                {
                    if (subs.size() > 30 || !hosts[0]) break;
                    auto s = std::make_shared<Sub>();
                    s->id = subs.size();
                    s->script = st.script;
                    s->types = st.kind == 5;
                    s->host = generation;
                    subs.push_back(s);
                    log(cat("slot ", st.a, ": subscription ", s->id, s->types ? " to types" : " to messages", " (", st.kind, ")"));
                    // the known types are reported at once
                    if (s->types) for (auto& d : types) if (host().registry().hasType(d->name())) s->expected.push_back(std::stoull(d->name().substr(3)));
                    if (s->types) c.count("initial types", s->expected.size());
                    s->throws = st.throws;
                    try
                    {
                        auto x = subscribe(s, st.kind);
                        release(a);
                        if (a.s) *a.s = std::move(x);
                        else a.s.emplace(std::move(x));
                        a.sub = s;
                    }
                    catch (const pbt::Failure&) { throw; }
                    catch (const std::runtime_error& e)
                    {
                        // there is no subscription then
                        c.check(s->types && s->fired >= s->throws, cat("subscription ", s->id, " could not be made: ", e.what()));
                        s->released = true;
                    }
                    break;
                }
                case 1:
                    log(cat("slot ", st.a, ": ", st.b & 1 ? "unsubscribe" : "destroy"));
                    release(a);
                    if (st.b & 1) { if (a.s) a.s->unsubscribe(); }
                    else a.s.reset();
                    break;
                case 2:
                    if (!a.sub || st.a == st.b) break;
                    log(cat("slot ", st.a, ": move to slot ", st.b));
                    release(b);
                    b.s.reset();
                    b.s.emplace(std::move(*a.s));
                    if (st.kind & 1) a.s.reset();
                    b.sub = std::move(a.sub);
                    a.sub = nullptr;
                    break;
                case 3:
                    if (!a.sub || !b.s || st.a == st.b) break;
                    log(cat("slot ", st.a, ": move over slot ", st.b));
                    release(b);
                    *b.s = std::move(*a.s);
                    if (st.kind & 1) a.s->unsubscribe();
                    b.sub = std::move(a.sub);
                    a.sub = nullptr;
                    break;
                case 4:
                    if (!a.sub) break;
                    log(cat("slot ", st.a, ": discard"));
                    a.s->discard();
                    if (st.kind & 1) a.s.reset();
                    a.sub = nullptr;
                    break;
                case 5:
                {
                    if (!hosts[0]) break;
                    uint64_t key = next++;
                    log(cat("publish ", key));
                    for (auto& s : subs) if (!s->released && !s->types && s->host == generation) s->expected.push_back(key);
                    host().publish(VfUncached{ .id = static_cast<uint32_t>(key) });
                    break;
                }
                case 6:
                {
                    if (types.size() > 20 || !hosts[0]) break;
                    uint64_t key = next++;
                    log(cat("new type ", key));
                    types.push_back(dots::type::make_descriptor<dots::type::Descriptor<dots::type::DynamicStruct>>(cat("New", key), uint8_t{ 0 }, dots::type::property_descriptor_container_t{}, sizeof(dots::type::DynamicStruct)));
                    auto d = types.back();
                    for (auto& s : subs) if (!s->released && s->types && s->host == generation) s->expected.push_back(key);
                    host().registry().registerType(*d);
                    break;
                }
                default:
                {
                    // from the outside only
                    ++moves;
                    switch (st.kind)
                    {
                        case 0:
                        case 1:
                        case 2:
                        {
                            log(st.kind ? "move the host, the old one is kept" : "move the host");
                            if (!hosts[0]) break;
                            auto n = std::make_unique<dots::HostTransceiver>(std::move(*hosts[0]));
                            if (st.kind) old.push_back(std::move(hosts[0]));
                            hosts[0] = std::move(n);
                            break;
                        }
                        case 3:
                        {
                            if (!hosts[0]) break;
                            log("move the host over another");
                            auto n = std::make_unique<dots::HostTransceiver>("other", io);
                            *n = std::move(*hosts[0]);
                            if (st.b & 1) old.push_back(std::move(hosts[0]));
                            hosts[0] = std::move(n);
                            break;
                        }
                        case 4:
                        {
                            log("replace the host by moving a new one over it");
                            if (!hosts[0]) break;
                            dots::HostTransceiver n{ "new", io };
                            *hosts[0] = std::move(n);
                            forget();
                            break;
                        }
                        default:
                            log("destroy the host");
                            hosts[0].reset();
                            forget();
                            hosts[0] = std::make_unique<dots::HostTransceiver>("new", io);
                            break;
                    }
                }
            }
        }

        // subscriptions of the former host get nothing any more
        void forget()
        {
            verify();
            ++generation;
            for (auto& s : subs) s->released = true;
        }

        void verify()
        {
            c.throwIfFailed();
            for (auto& s : subs)
            {
                if (s->released) continue;
                for (auto k : s->expected) c.check(s->got.count(k), cat("subscription ", s->id, " was not called for ", s->types ? "type " : "message ", k));
            }
        }
    };

    void subscriptions(pbt::Ctx& c)
    {
        broker::silence();
        size_t n = 3 + c.s.length(14);
        std::vector<SStep> steps;
        for (size_t i = 0; i < n; ++i) steps.push_back(genS(c.s, 2, true));
        Subs s{ c };
        s.hosts[0] = std::make_unique<dots::HostTransceiver>("host", s.io);
        for (auto& st : steps)
        {
            s.run(st);
            s.verify();
        }
        // one more of each
        SStep last;
        last.op = 5;
        s.run(last);
        last.op = 6;
        s.run(last);
        s.verify();
        // in any order
        size_t order = c.s.below(3);
        if (order == 0) s.hosts[0].reset();
        if (order == 1) s.old.clear();
        for (auto& x : s.slots) { s.release(x); x.s.reset(); }
        if (s.hosts[0])
        {
            // nothing of it is left but what was discarded
            s.run(last);
            last.op = 5;
            s.run(last);
            s.verify();
        }
        c.count("calls", s.calls);
        c.nontrivial(s.calls > 0 && s.releases > 0);
    }
}

int main(int argc, char** argv)
{
    ::signal(SIGPIPE, SIG_IGN);
    pbt::Check check;
    check.property = "X22";
    check.rule = "timers: a handler was called and an active timer or watch was released; subscriptions: a handler was called and a subscription was released";
    check.subs = {
        { "clocks", clocks, 50000, 900000 },
        { "timers", timers, 60000, 900000, 60 },
        { "subscriptions", subscriptions, 500000, 8000000 },
    };
    check.assumptions = { "event loops outlive the timers and watches running in them; what is due is expected within 20 s; hosts are moved while no handler of theirs runs and before they listen" };
    return pbt::run(argc, argv, check);
}
