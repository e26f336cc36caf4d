#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    namespace
    {
        struct Slot
        {
            volatile uint64_t sub;
            volatile uint64_t index;
            volatile uint64_t running;     // 1 while inside a case
            volatile uint64_t startMs;
            volatile uint64_t cases;
            volatile uint64_t failed;      // 1: property failure recorded in msg
            volatile uint64_t count;
            char msg[16384];
            uint64_t rec[Src::Cap];
        };

        uint64_t nowMs()
        {
            using namespace std::chrono;
            return duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count();
        }

        template <typename T>
        T* sharedAlloc(size_t n)
        {
            void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { perror("mmap"); exit(3); }
            return static_cast<T*>(p);
        }

        std::set<std::string> g_known;
        std::string g_root;
        bool g_verbose = false;

        std::string jsonEscape(std::string_view s)
        {
            std::string r;
            for (unsigned char c : s)
            {
                if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
                else if (c == '\n') r += "\\n";
                else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
                else r += static_cast<char>(c);
            }
            return r;
        }

        struct Result { bool failed = false; bool discarded = false; std::string message; };

        struct Stats
        {
            uint64_t evaluations = 0, discarded = 0;
            std::set<uint64_t> distinct;
            std::map<std::string, uint64_t> classes;
            std::map<std::string, std::map<uint64_t, std::string>> samples; // per sub-check, the ones with the smallest hashes
            std::map<std::string, uint64_t> perSub;
        };

        Result runCase(const Sub& sub, Src& src, Stats* stats, std::string* logOut)
        {
            Result r;
            Ctx ctx{ src };
            try
            {
                sub.fn(ctx);
            }
            catch (const Failure&) { }
            catch (const Discard&) { r.discarded = true; }
            catch (const std::exception& e) { ctx.failLater(std::string{ "unexpected exception: " } + e.what()); }
            catch (...) { ctx.failLater("unexpected exception of unknown type"); }

            r.failed = ctx.failed;
            r.message = ctx.message;
            if (r.failed) r.discarded = false;
            if (logOut != nullptr) *logOut = ctx.log.str();

            if (stats != nullptr)
            {
                if (r.discarded) ++stats->discarded;
                else
                {
                    ++stats->evaluations;
                    ++stats->perSub[sub.name];
                    std::string log = sub.name + ": " + ctx.log.str();
                    uint64_t h = hashBytes(log);
                    if (ctx.isNontrivial)
                    {
                        if (stats->distinct.insert(h).second)
                        {
                            if (log.size() > 1200) { log.resize(1200); log += "..."; }
                            // keep the samples with the smallest hashes: independent of scheduling
                            auto& keep = stats->samples[sub.name];
                            keep.emplace(h, log);
                            if (keep.size() > 2) keep.erase(std::prev(keep.end()));
                        }
                    }
                    for (const auto& [k, v] : ctx.classes) stats->classes[sub.name + "/" + k] += v;
                }
            }
            return r;
        }

        uint64_t caseSeed(uint64_t seed, const std::string& sub, uint64_t index)
        {
            return mix(hashBytes(sub, mix(seed)) ^ mix(index * 0x9E3779B97F4A7C15ull + 17));
        }

        void writeStats(const std::string& path, const Stats& st)
        {
            std::ofstream o(path, std::ios::binary | std::ios::trunc);
            o << "e " << st.evaluations << "\nD " << st.discarded << "\n";
            for (auto h : st.distinct) o << "h " << h << "\n";
            for (auto& [k, v] : st.classes) o << "c " << v << " " << k << "\n";
            for (auto& [k, v] : st.perSub) o << "s " << v << " " << k << "\n";
            for (auto& [n, m] : st.samples) for (auto& [k, v] : m) o << "x " << k << " " << jsonEscape(v) << "\n";
        }

        void readStats(const std::string& path, Stats& st, std::map<uint64_t, std::string>& samples)
        {
            std::ifstream i(path, std::ios::binary);
            std::string line;
            while (std::getline(i, line))
            {
                std::istringstream l(line);
                std::string t; l >> t;
                uint64_t n; l >> n;
                std::string rest; std::getline(l, rest);
                if (!rest.empty()) rest.erase(0, 1);
                if (t == "e") st.evaluations += n;
                else if (t == "D") st.discarded += n;
                else if (t == "h") st.distinct.insert(n);
                else if (t == "c") st.classes[rest] += n;
                else if (t == "s") st.perSub[rest] += n;
                else if (t == "x") samples.emplace(n, rest);
            }
        }

        enum class Outcome { Pass, Fail, Crash, Hang };

        struct Eval { Outcome outcome = Outcome::Pass; std::string message; std::vector<uint64_t> rec; };

        // runs replays in forked children, several at once
        struct Replayer
        {
            const Check& check;
            Slot* slots;
            size_t n;
            int quietFd;

            std::vector<Eval> evalAll(size_t subIndex, const std::vector<std::vector<uint64_t>>& cands, bool quiet, double timeoutFactor = 1.0)
            {
                const Sub& sub = check.subs[subIndex];
                std::vector<Eval> out(cands.size());
                size_t next = 0;
                struct Run { pid_t pid; size_t cand; uint64_t start; };
                std::map<size_t, Run> running;
                std::vector<size_t> freeSlots;
                for (size_t i = n; i-- > 0;) freeSlots.push_back(i);
                uint64_t timeout = static_cast<uint64_t>(sub.hangSeconds * 1000 * timeoutFactor);

                while (next < cands.size() || !running.empty())
                {
                    while (next < cands.size() && !freeSlots.empty())
                    {
                        size_t si = freeSlots.back(); freeSlots.pop_back();
                        Slot& sl = slots[si];
                        sl.failed = 0; sl.count = 0; sl.msg[0] = 0; sl.running = 1;
                        fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
                        pid_t pid = fork();
                        if (pid == 0)
                        {
                            prctl(PR_SET_PDEATHSIG, SIGKILL);
                            if (quiet) { dup2(quietFd, 1); dup2(quietFd, 2); }
                            if (check.init) check.init();
                            Src src{ cands[next], sl.rec, &sl.count };
                            std::string log;
                            Result r = runCase(sub, src, nullptr, &log);
                            if (r.failed)
                            {
                                std::string m = r.message + "\n--- case ---\n" + log;
                                snprintf(sl.msg, sizeof sl.msg, "%s", m.c_str());
                                sl.failed = 1;
                            }
                            else if (g_verbose && !quiet) std::cerr << "--- case ---\n" << log << std::endl;
                            sl.running = 0;
                            fflush(stdout); fflush(stderr);
                            _exit(r.failed ? 99 : 0);
                        }
                        running[si] = Run{ pid, next, nowMs() };
                        ++next;
                    }
                    bool progressed = false;
                    for (auto it = running.begin(); it != running.end();)
                    {
                        int status = 0;
                        Slot& sl = slots[it->first];
                        pid_t p = waitpid(it->second.pid, &status, WNOHANG);
                        bool hang = false;
                        if (p == 0 && nowMs() - it->second.start > timeout)
                        {
                            kill(it->second.pid, SIGKILL);
                            waitpid(it->second.pid, &status, 0);
                            p = it->second.pid; hang = true;
                        }
                        if (p == it->second.pid)
                        {
                            Eval& e = out[it->second.cand];
                            size_t cnt = std::min<size_t>(static_cast<size_t>(sl.count), Src::Cap);
                            e.rec.assign(sl.rec, sl.rec + cnt);
                            if (hang) { e.outcome = Outcome::Hang; e.message = "case does not terminate"; }
                            else if (sl.failed == 1) { e.outcome = Outcome::Fail; e.message = sl.msg; }
                            else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sl.running == 0) e.outcome = Outcome::Pass;
                            else
                            {
                                e.outcome = Outcome::Crash;
                                e.message = WIFSIGNALED(status) ? cat("process died with signal ", WTERMSIG(status)) : cat("process exited with status ", WEXITSTATUS(status), " (sanitizer report or exit)");
                            }
                            freeSlots.push_back(it->first);
                            it = running.erase(it);
                            progressed = true;
                        }
                        else ++it;
                    }
                    if (!progressed) usleep(500);
                }
                return out;
            }

            // smaller in shortlex order
            static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
            {
                if (a.size() != b.size()) return a.size() < b.size();
                return a < b;
            }

            std::vector<uint64_t> shrink(size_t sub, std::vector<uint64_t> best, Outcome kind, double seconds)
            {
                uint64_t deadline = nowMs() + static_cast<uint64_t>(seconds * 1000);
                auto tryBatch = [&](std::vector<std::vector<uint64_t>> cands) -> int
                {
                    auto res = evalAll(sub, cands, true, kind == Outcome::Hang ? 0.2 : 1.0);
                    for (size_t i = 0; i < res.size(); ++i)
                    {
                        if (res[i].outcome == kind && smaller(res[i].rec, best))
                        {
                            best = res[i].rec;
                            return static_cast<int>(i);
                        }
                    }
                    return -1;
                };
                bool improved = true;
                while (improved && nowMs() < deadline)
                {
                    improved = false;
                    // truncate / delete blocks
                    for (size_t block = std::max<size_t>(1, best.size() / 2); block >= 1 && nowMs() < deadline; block = block == 1 ? 0 : (block > 64 ? block / 2 : block > 8 ? block * 2 / 3 : block - 1))
                    {
                        size_t i = 0;
                        while (i < best.size() && nowMs() < deadline)
                        {
                            std::vector<std::vector<uint64_t>> cands;
                            std::vector<size_t> pos;
                            for (size_t j = i; j < best.size() && cands.size() < n; j += block)
                            {
                                auto c = best;
                                c.erase(c.begin() + j, c.begin() + std::min(best.size(), j + block));
                                cands.push_back(std::move(c)); pos.push_back(j);
                            }
                            int k = tryBatch(cands);
                            if (k >= 0) { improved = true; i = pos[k]; }
                            else i = pos.back() + block;
                        }
                        if (block == 1) break;
                    }
                    // lower values
                    for (size_t i = 0; i < best.size() && nowMs() < deadline;)
                    {
                        if (best[i] == 0) { ++i; continue; }
                        std::vector<std::vector<uint64_t>> cands;
                        std::set<uint64_t> vals{ 0, 1, best[i] / 2, best[i] - 1, best[i] - best[i] / 4, best[i] - best[i] / 16 };
                        for (uint64_t v : vals) if (v < best[i]) { auto c = best; c[i] = v; cands.push_back(c); }
                        if (tryBatch(cands) >= 0) improved = true; else ++i;
                    }
                }
                return best;
            }
        };

        std::string writeReplay(const Check& check, const std::string& sub, uint64_t seed, const std::vector<uint64_t>& rec, const std::string& message)
        {
            std::string dir = g_root + "/replays";
            mkdir(dir.c_str(), 0777);
            std::ostringstream body;
            body << "pbt-replay 1\nproperty " << check.property << "\nsub " << sub << "\nseed " << seed << "\nchoices " << rec.size();
            for (size_t i = 0; i < rec.size(); ++i) body << (i % 20 == 0 ? "\n" : " ") << rec[i];
            body << "\nend\n";
            std::string path = dir + "/" + check.property + "-" + sub + "-" + hex(std::string_view{ reinterpret_cast<const char*>("") }, 0) + std::to_string(hashBytes(body.str()) % 1000000007ull) + ".replay";
            std::ofstream o(path, std::ios::trunc);
            o << body.str() << "\n" << message << "\n";
            return path;
        }

        bool readReplay(const std::string& path, std::string& sub, std::vector<uint64_t>& rec)
        {
            std::ifstream i(path);
            std::string w;
            size_t n = 0;
            while (i >> w)
            {
                if (w == "sub") i >> sub;
                else if (w == "choices") { i >> n; rec.resize(n); for (auto& v : rec) i >> v; return true; }
                else if (w == "pbt-replay" || w == "property" || w == "seed") i >> w;
            }
            return false;
        }
    }

    Src::Src(uint64_t seed, uint64_t* buf, volatile uint64_t* count) : m_state(seed), m_buf(buf), m_count(count) { *m_count = 0; }
    Src::Src(std::vector<uint64_t> replay, uint64_t* buf, volatile uint64_t* count) : m_replaying(true), m_replay(std::move(replay)), m_buf(buf), m_count(count) { *m_count = 0; }

    uint64_t Src::next()
    {
        m_state += 0x9E3779B97F4A7C15ull;
        uint64_t x = m_state;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    uint64_t Src::draw(uint64_t max)
    {
        uint64_t v;
        if (m_replaying) v = m_pos < m_replay.size() ? std::min(m_replay[m_pos], max) : 0;
        else if (max == ~0ull) v = next();
        else v = static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
        if (m_pos < Cap) { m_buf[m_pos] = v; ++m_pos; *m_count = m_pos; }
        else throw Discard{};
        return v;
    }

    size_t Src::weighted(std::initializer_list<unsigned> w)
    {
        uint64_t sum = 0;
        for (unsigned x : w) sum += x;
        uint64_t d = draw(sum - 1);
        size_t i = 0;
        for (unsigned x : w) { if (d < x) return i; d -= x; ++i; }
        return 0;
    }

    size_t Src::length(size_t max)
    {
        if (max == 0) return 0;
        switch (weighted({ 6, 3, 1 }))
        {
            case 0: return draw(std::min<size_t>(max, 3));
            case 1: return draw(std::min<size_t>(max, 8));
            default: return draw(max);
        }
    }

    uint64_t Src::interestingUint()
    {
        switch (weighted({ 4, 3, 3, 2 }))
        {
            case 0: return draw(30);
            case 1:
            {
                // around a power of two
                uint64_t b = draw(63);
                uint64_t p = 1ull << b;
                return p + static_cast<uint64_t>(range(-2, 2));
            }
            case 2: { uint64_t b = draw(63); uint64_t v = bits64(); return v >> b; }
            default: return one<uint64_t>({ 0, 23, 24, 25, 255, 256, 65535, 65536, 0xFFFFFFFFull, 0x100000000ull, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, (1ull << 31), (1ull << 31) - 1, 1ull << 53, (1ull << 53) + 1 });
        }
    }

    int64_t Src::interestingInt()
    {
        bool neg = boolean();
        uint64_t u = interestingUint();
        return static_cast<int64_t>(neg ? ~u : u);
    }

    void Ctx::failLater(const std::string& msg)
    {
        if (!failed) { failed = true; message = msg; }
    }

    void Ctx::fail(const std::string& msg)
    {
        failLater(msg);
        throw Failure{};
    }

    bool isKnown(const std::string& key) { return g_known.count(key) != 0; }

    std::string quote(std::string_view s, size_t max)
    {
        std::string r = "\"";
        size_t n = 0;
        for (unsigned char c : s)
        {
            if (n++ >= max) { r += "...("; r += std::to_string(s.size()); r += ")"; break; }
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r + "\"";
    }

    std::string hex(std::string_view s, size_t max)
    {
        std::string r;
        size_t n = 0;
        for (unsigned char c : s)
        {
            if (n++ >= max) { r += "...("; r += std::to_string(s.size()); r += ")"; break; }
            char b[4]; snprintf(b, sizeof b, "%02x", c); r += b;
        }
        return r;
    }

    int run(int argc, char** argv, const Check& check)
    {
        uint64_t t0 = nowMs();
        std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
        uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
        size_t workers = 8;
        double scale = 1.0;
        std::string replayPath, only;
        g_root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : ".";
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--tier") tier = val();
            else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--workers") workers = std::max(1, atoi(val().c_str()));
            else if (a == "--scale") scale = atof(val().c_str());
            else if (a == "--replay") replayPath = val();
            else if (a == "--only") only = val();
            else if (a == "-v") g_verbose = true;
            else { std::cerr << "unknown argument " << a << "\n"; return 2; }
        }
        if (tier != "thorough") tier = "quick";

        // known findings
        {
            std::ifstream f(g_root + "/known_findings.txt");
            std::string line;
            while (std::getline(f, line))
            {
                std::istringstream l(line);
                std::string kind, prop, key; l >> kind >> prop >> key;
                if (kind == "finding:" && prop == "property=" + check.property && key.rfind("key=", 0) == 0) g_known.insert(key.substr(4));
            }
        }

        Slot* slots = sharedAlloc<Slot>(std::max<size_t>(workers, 8));
        int nullFd = open("/dev/null", O_WRONLY);
        Replayer rep{ check, slots, std::max<size_t>(workers, 8), nullFd };

        if (!replayPath.empty())
        {
            std::string sub; std::vector<uint64_t> rec;
            if (!readReplay(replayPath, sub, rec)) { std::cerr << "cannot read " << replayPath << "\n"; return 2; }
            for (size_t i = 0; i < check.subs.size(); ++i)
            {
                if (check.subs[i].name == sub)
                {
                    Eval e = rep.evalAll(i, { rec }, false)[0];
                    std::cout << (e.outcome == Outcome::Pass ? "PASS" : "FAIL") << " " << e.message << std::endl;
                    if (e.outcome == Outcome::Pass) return 0;
                    std::cout << "VIOLATION property=" << check.property << " replay=" << replayPath << std::endl;
                    return 1;
                }
            }
            std::cerr << "no such sub-check: " << sub << "\n";
            return 2;
        }

        for (const Known& k : check.known)
        {
            if (isKnown(k.key))
            {
                // probe in a child: it may crash
                fflush(stdout);
                pid_t pid = fork();
                if (pid == 0)
                {
                    dup2(nullFd, 1); dup2(nullFd, 2);
                    bool b = false;
                    try { if (check.init) check.init(); b = k.stillFails(); } catch (...) { b = true; }
                    _exit(b ? 99 : 0);
                }
                int st = 0; waitpid(pid, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) std::cout << "KNOWN-FINDING: property=" << check.property << " " << k.key << std::endl;
            }
        }

        std::string tmpl = "/tmp/pbt-" + check.property + "-XXXXXX";
        std::vector<char> tmp(tmpl.begin(), tmpl.end()); tmp.push_back(0);
        std::string statDir = mkdtemp(tmp.data());

        struct Worker { pid_t pid = 0; bool done = false; uint64_t startSub = 0, startIdx = 0; int generation = 0; };
        std::vector<Worker> ws(workers);
        auto budget = [&](const Sub& s) { return static_cast<uint64_t>((tier == "thorough" ? s.thorough : s.quick) * scale); };

        auto spawn = [&](size_t w)
        {
            Worker& wk = ws[w];
            Slot& sl = slots[w];
            sl.running = 0; sl.failed = 0; sl.msg[0] = 0; sl.count = 0;
            fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
            pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                if (!g_verbose) { dup2(nullFd, 1); dup2(nullFd, 2); }
                if (check.init) check.init();
                Stats st;
                for (uint64_t si = wk.startSub; si < check.subs.size(); ++si)
                {
                    const Sub& sub = check.subs[si];
                    if (!only.empty() && sub.name != only) continue;
                    uint64_t n = budget(sub);
                    uint64_t i = si == wk.startSub ? wk.startIdx : 0;
                    // first index of this worker
                    if (i % workers != w) i += (w + workers - i % workers) % workers;
                    for (; i < n; i += workers)
                    {
                        sl.sub = si; sl.index = i; sl.startMs = nowMs(); sl.running = 1;
                        Src src{ caseSeed(seed, sub.name, i), sl.rec, &sl.count };
                        Result r = runCase(sub, src, &st, nullptr);
                        ++sl.cases;
                        if (r.failed)
                        {
                            snprintf(sl.msg, sizeof sl.msg, "%s", r.message.c_str());
                            sl.failed = 1;
                            writeStats(statDir + "/" + std::to_string(w) + "." + std::to_string(wk.generation), st);
                            _exit(99);
                        }
                        sl.running = 0;
                    }
                }
                writeStats(statDir + "/" + std::to_string(w) + "." + std::to_string(wk.generation), st);
                _exit(0);
            }
            wk.pid = pid;
        };

        for (size_t w = 0; w < workers; ++w) spawn(w);

        struct Found { uint64_t sub = 0, index = 0; std::vector<uint64_t> rec; std::string message; Outcome kind = Outcome::Pass; };
        bool violation = false;
        Found found;
        std::string violationPath, violationMessage;
        uint64_t unreproduced = 0;
        std::vector<std::string> unreproducedMsgs;

        auto killAll = [&]()
        {
            for (auto& wk : ws) if (!wk.done && wk.pid > 0) { kill(wk.pid, SIGKILL); int s; waitpid(wk.pid, &s, 0); wk.done = true; }
        };

        while (true)
        {
            bool all = true, progressed = false;
            for (size_t w = 0; w < workers && !violation; ++w)
            {
                Worker& wk = ws[w];
                if (wk.done) continue;
                all = false;
                Slot& sl = slots[w];
                int status = 0;
                pid_t p = waitpid(wk.pid, &status, WNOHANG);
                bool hang = false;
                if (p == 0 && sl.running == 1 && sl.sub < check.subs.size())
                {
                    uint64_t st = sl.startMs, now = nowMs();
                    if (now > st && now - st > static_cast<uint64_t>(check.subs[sl.sub].hangSeconds * 1000) && sl.running == 1)
                    {
                        kill(wk.pid, SIGKILL); waitpid(wk.pid, &status, 0); p = wk.pid; hang = true;
                    }
                }
                if (p != wk.pid) continue;
                progressed = true;
                if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) { wk.done = true; continue; }

                Found f;
                f.sub = sl.sub; f.index = sl.index;
                f.rec.assign(sl.rec, sl.rec + std::min<size_t>(static_cast<size_t>(sl.count), Src::Cap));
                f.kind = hang ? Outcome::Hang : sl.failed == 1 ? Outcome::Fail : Outcome::Crash;
                f.message = hang ? "case does not terminate" : sl.failed == 1 ? std::string{ sl.msg } : WIFSIGNALED(status) ? cat("process died with signal ", WTERMSIG(status)) : cat("process exited with status ", WEXITSTATUS(status), " (sanitizer report or exit)");
                wk.done = true;

                // replay uses the slots of the workers: stop them first
                std::vector<std::pair<uint64_t, uint64_t>> resume(workers);
                for (size_t v = 0; v < workers; ++v)
                {
                    if (!ws[v].done) { kill(ws[v].pid, SIGSTOP); }
                }
                Slot* own = sharedAlloc<Slot>(8);
                Replayer rp{ check, own, 8, nullFd };
                std::cerr << check.property << "/" << check.subs[f.sub].name << " case " << f.index << " failed: " << f.message << "\n";
                auto confirm = [&](const std::vector<uint64_t>& rec) -> std::pair<bool, Eval>
                {
                    auto rs = rp.evalAll(f.sub, { rec, rec, rec }, true);
                    bool all3 = true;
                    for (auto& e : rs) all3 = all3 && e.outcome != Outcome::Pass;
                    return { all3, rs[0] };
                };
                auto [ok, first] = confirm(f.rec);
                if (ok)
                {
                    violation = true;
                    found = f;
                    killAll();
                    auto small = rp.shrink(f.sub, first.rec.size() < f.rec.size() ? first.rec : f.rec, first.outcome, 40);
                    auto [ok2, e2] = confirm(small);
                    if (!ok2) { small = f.rec; e2 = first; }
                    violationMessage = e2.message;
                    // final run with output for the details of crashes
                    if (e2.outcome == Outcome::Crash)
                    {
                        std::string path = statDir + "/crash.txt";
                        int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
                        Replayer rq{ check, own, 1, fd };
                        rq.evalAll(f.sub, { small }, true);
                        close(fd);
                        std::ifstream in(path); std::stringstream ss; ss << in.rdbuf();
                        std::string txt = ss.str(); if (txt.size() > 6000) txt.resize(6000);
                        violationMessage += "\n" + txt;
                    }
                    violationPath = writeReplay(check, check.subs[f.sub].name, seed, small, violationMessage);
                }
                else
                {
                    ++unreproduced;
                    unreproducedMsgs.push_back(cat(check.subs[f.sub].name, " case ", f.index, ": ", f.message));
                    std::cerr << "  not reproducible in a fresh process, inconclusive (" << writeReplay(check, check.subs[f.sub].name, seed, f.rec, f.message) << ")\n";
                    if (wk.generation < 20)
                    {
                        wk.startSub = f.sub; wk.startIdx = f.index + 1; ++wk.generation; wk.done = false;
                        spawn(w);
                    }
                    uint64_t now = nowMs();
                    for (size_t v = 0; v < workers; ++v) if (v != w && !ws[v].done) { slots[v].startMs = now; kill(ws[v].pid, SIGCONT); }
                }
                munmap(own, sizeof(Slot) * 8);
            }
            if (violation || all) break;
            if (!progressed) usleep(20000);
        }
        killAll();

        Stats total;
        std::map<uint64_t, std::string> samples;
        for (size_t w = 0; w < workers; ++w)
            for (int g = 0; g <= ws[w].generation; ++g)
            {
                std::string p = statDir + "/" + std::to_string(w) + "." + std::to_string(g);
                readStats(p, total, samples);
                unlink(p.c_str());
            }
        unlink((statDir + "/crash.txt").c_str());
        rmdir(statDir.c_str());

        // evidence
        {
            std::string dir = g_root + "/evidence";
            mkdir(dir.c_str(), 0777);
            std::ofstream o(dir + "/" + check.property + ".json", std::ios::trunc);
            o << "{\n \"property\": \"" << check.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
            o << " \"coverage\": {\n  \"evaluations\": " << total.evaluations << ",\n  \"distinct_nontrivial\": " << total.distinct.size() << ",\n  \"discarded\": " << total.discarded << ",\n";
            o << "  \"rule\": \"" << jsonEscape(check.rule) << "\",\n  \"per_sub_check\": {";
            bool first = true;
            for (auto& [k, v] : total.perSub) { o << (first ? "" : ", ") << "\"" << jsonEscape(k) << "\": " << v; first = false; }
            o << "},\n  \"classes\": {";
            first = true;
            for (auto& [k, v] : total.classes) { o << (first ? "" : ", ") << "\"" << jsonEscape(k) << "\": " << v; first = false; }
            o << "},\n  \"unreproduced_failures\": " << unreproduced << ",\n  \"samples\": [";
            // show samples of every sub-check
            first = true;
            std::map<std::string, int> shown;
            for (auto& [h, s] : samples)
            {
                std::string sub = s.substr(0, s.find(':'));
                if (shown[sub]++ >= 2) continue;
                o << (first ? "\n   \"" : ",\n   \"") << s << "\"";
                first = false;
            }
            o << "\n  ]\n },\n \"assumptions\": [";
            first = true;
            for (auto& a : check.assumptions) { o << (first ? "\"" : ", \"") << jsonEscape(a) << "\""; first = false; }
            o << "],\n \"wall_s\": " << (nowMs() - t0) / 1000.0 << ",\n \"violations\": " << (violation ? 1 : 0) << "\n}\n";
        }

        std::cout << check.property << ": " << total.evaluations << " cases, " << total.distinct.size() << " distinct non-trivial, " << total.discarded << " discarded, " << unreproduced << " unreproduced, " << (nowMs() - t0) / 1000.0 << " s\n";
        for (auto& m : unreproducedMsgs) std::cout << "  unreproduced: " << m.substr(0, 600) << "\n";
        if (g_verbose || getenv("PBT_CLASSES"))
        {
            for (auto& [k, v] : total.perSub) std::cout << "  sub " << k << ": " << v << "\n";
            for (auto& [k, v] : total.classes) std::cout << "  class " << k << ": " << v << "\n";
        }
        if (violation)
        {
            std::cout << violationMessage << "\n";
            std::cout << "VIOLATION property=" << check.property << " replay=" << violationPath << std::endl;
            return 1;
        }
        std::cout.flush();
        return 0;
    }
}
