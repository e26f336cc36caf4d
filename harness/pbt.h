// Choice-sequence property-based testing framework (see DESIGN.md).
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace pbt
{
    // Thrown by Ctx::fail. Deliberately not derived from std::exception.
    struct Failure { };
    // Thrown by Ctx::discard: the case is not evaluated.
    struct Discard { };

    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    inline uint64_t hashBytes(std::string_view s, uint64_t h = 1469598103934665603ull)
    {
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return mix(h);
    }

    // Source of all choices of a case. Value 0 is always the simplest choice.
    struct Src
    {
        static constexpr size_t Cap = 1u << 20;

        Src(uint64_t seed, uint64_t* buf, volatile uint64_t* count);
        Src(std::vector<uint64_t> replay, uint64_t* buf, volatile uint64_t* count);

        // uniform in [0, max]
        uint64_t draw(uint64_t max);

        // uniform in [lo, hi]
        int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo))); }
        size_t below(size_t n) { return n <= 1 ? 0 : static_cast<size_t>(draw(n - 1)); }
        bool boolean() { return draw(1) != 0; }
        // true with probability num/den; false is simplest
        bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
        template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
        template <typename C> const auto& pick(const C& c) { return c[below(c.size())]; }
        template <typename T> T one(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        size_t weighted(std::initializer_list<unsigned> w);
        // small lengths are likelier; in [0, max]
        size_t length(size_t max);
        uint64_t bits64() { return draw(~0ull); }
        // integers with a bias to boundaries of all widths
        int64_t interestingInt();
        uint64_t interestingUint();
        size_t used() const { return m_pos; }

    private:
        uint64_t next();
        bool m_replaying = false;
        std::vector<uint64_t> m_replay;
        size_t m_pos = 0;
        uint64_t m_state = 0;
        uint64_t* m_buf;
        volatile uint64_t* m_count;
    };

    struct Ctx
    {
        explicit Ctx(Src& s_) : s(s_) {}

        Src& s;
        // human readable description of the case; its hash identifies the case
        std::ostringstream log;

        [[noreturn]] void fail(const std::string& msg);
        // records the failure without throwing (for use inside callbacks of the code under test)
        void failLater(const std::string& msg);
        void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
        [[noreturn]] void discard() { throw Discard{}; }
        void throwIfFailed() { if (failed) throw Failure{}; }
        // a failure that is a listed known finding: counts it and discards the rest of the case
        void count(const std::string& cls, uint64_t n = 1) { classes[cls] += n; }
        void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }

        bool failed = false;
        std::string message;
        bool isNontrivial = false;
        std::map<std::string, uint64_t> classes;
    };

    using Prop = std::function<void(Ctx&)>;

    struct Sub
    {
        std::string name;
        Prop fn;
        uint64_t quick;
        uint64_t thorough;
        // seconds after which a case counts as hanging
        double hangSeconds = 60;
    };

    // A defect that is listed in known_findings.txt: returns true (and describes) while the defect is still there.
    struct Known
    {
        std::string key;
        std::function<bool()> stillFails;
    };

    struct Check
    {
        std::string property;
        std::string rule;
        std::vector<Sub> subs;
        std::vector<Known> known;
        std::vector<std::string> assumptions;
        // called once per worker process before its first case
        std::function<void()> init;
    };

    // true if the finding is listed (its inputs are then excluded by the generator)
    bool isKnown(const std::string& key);

    int run(int argc, char** argv, const Check& check);

    template <typename... Args>
    std::string cat(Args&&... args)
    {
        std::ostringstream o;
        (o << ... << args);
        return o.str();
    }

    std::string quote(std::string_view s, size_t max = 400);
    std::string hex(std::string_view s, size_t max = 600);
}
