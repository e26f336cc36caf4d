// T19: times, durations and ids survive conversion to text and back.
#include "pbt.h"
#include <cmath>
#include <memory>
#include <sys/time.h>
#include <dots/type/Chrono.h>
#include <dots/type/LibcTime.h>
#include <dots/type/PosixTime.h>
#include <dots/type/Uuid.h>

using pbt::cat;
using dots::type::Duration;
using dots::type::TimePoint;
using dots::type::SteadyTimePoint;
using dots::type::Uuid;

// text in a heap buffer of exactly its size
struct Exact
{
    std::unique_ptr<char[]> b;
    size_t n;
    explicit Exact(const std::string& s) : b{ new char[s.size()] }, n{ s.size() } { std::memcpy(b.get(), s.data(), n); }
    operator std::string_view() const { return { b.get(), n }; }
};

static double ulp(double d) { d = std::fabs(d); return std::nextafter(d, INFINITY) - d; }

template <typename F> static bool rejects(F&& f, std::string* got = nullptr)
{
    try { auto r = f(); if (got != nullptr) *got = cat(r); return false; }
    catch (const std::exception&) { return true; }
}

// ---- durations

static double genSeconds(pbt::Src& s, double limit)
{
    double d = 0;
    switch (s.weighted({ 3, 3, 2, 2, 2 }))
    {
        case 0: d = static_cast<double>(s.range(0, 100000)); break;
        case 1: d = static_cast<double>(s.range(0, 4000000000ll)) / 1000.0; break;
        case 2: d = static_cast<double>(s.one<int64_t>({ 59, 60, 3599, 3600, 86399, 86400, 172800, 2147483647, 2147483648ll, 4294967296ll, 31556952 })) + s.one<double>({ 0, 0.5, 0.999, 0.9999994, 0.9999996, 1e-6, 1e-7, -1e-6, -1e-7 }); break;
        case 3: d = std::ldexp(static_cast<double>(s.bits64() >> 11) / 9007199254740992.0, static_cast<int>(s.range(-30, 39))); break;
        default: d = static_cast<double>(s.range(0, 5000)) * 86400 + (s.boolean() ? static_cast<double>(s.range(0, 86399999)) / 1000 : 0); break;
    }
    if (d > limit) d = std::fmod(d, limit);
    return s.chance(1, 3) ? -d : d;
}

// the value a duration text denotes; nothing if it is none. `grey`: forms nobody specified (numbers like ".5" or "5.")
static bool parseDuration(const std::string& t, long double& out, bool& grey)
{
    size_t p = 0;
    bool neg = false, any = false, time = false;
    out = 0;
    grey = false;
    if (p < t.size() && t[p] == '-') { neg = true; ++p; }
    if (p >= t.size() || t[p] != 'P') return false;
    ++p;
    int last = -1;
    while (p < t.size())
    {
        if (t[p] == 'T') { if (time) return false; time = true; last = -1; ++p; continue; }
        size_t b = p;
        size_t dots = 0, digits = 0;
        while (p < t.size() && ((t[p] >= '0' && t[p] <= '9') || t[p] == '.')) { if (t[p] == '.') ++dots; else ++digits; ++p; }
        if (digits == 0 || dots > 1 || p >= t.size()) return false;
        if (t[b] == '.' || t[p - 1] == '.') grey = true;
        long double v = std::strtold(t.substr(b, p - b).c_str(), nullptr);
        static const std::string dateD = "YMWD", timeD = "HMS";
        static const long double dateS[] = { 31556952, 2629746, 604800, 86400 }, timeS[] = { 3600, 60, 1 };
        size_t i = (time ? timeD : dateD).find(t[p]);
        if (i == std::string::npos || static_cast<int>(i) <= last) return false;
        last = static_cast<int>(i);
        out += v * (time ? timeS : dateS)[i];
        any = true;
        ++p;
    }
    if (neg) out = -out;
    return any;
}

static void durationRoundTrip(pbt::Ctx& c)
{
    double d = genSeconds(c.s, 1e12);
    c.log.precision(20);
    c.log << "duration " << d;
    std::string t = Duration{ d }.toString();
    c.log << " text " << t;
    long double v;
    bool grey;
    c.check(parseDuration(t, v, grey) && !grey, "the text is no ISO 8601 duration");
    long double tol = 0.5e-6L + 4 * ulp(d);
    c.check(std::fabs(v - d) <= tol, cat("the text denotes ", static_cast<double>(v)));
    Exact e{ t };
    double back = 0;
    try { back = Duration::FromString(e).count(); } catch (const std::exception& x) { c.fail(cat("its own text is rejected: ", x.what())); }
    c.check(std::fabs(back - d) <= 2 * tol, cat("converting back gives ", back));
    Duration f;
    c.check(f.fromString(e) && f.count() == back, "fromString and FromString differ");
    SteadyTimePoint stp{ Duration{ d } };
    c.check(stp.toString() == t, "a steady time point does not have the text of its duration");
    c.check(SteadyTimePoint::FromString(e).duration().count() == back, "a steady time point is not read like its duration");
    TimePoint tp{ Duration{ d } };
    c.check(tp.toString(TimePoint::ISO8601Duration) == t && TimePoint::FromString(e, TimePoint::ISO8601Duration).duration().count() == back, "duration notation of a time point differs");
    c.nontrivial(d != 0);
}

static void durationParse(pbt::Ctx& c)
{
    std::string t = c.s.chance(1, 5) ? "-P" : "P";
    auto num = [&]
    {
        std::string n = std::to_string(c.s.range(0, c.s.chance(1, 4) ? 100000 : 99));
        if (c.s.chance(1, 3)) { n += '.'; size_t k = 1 + c.s.length(9); for (size_t i = 0; i < k; ++i) n += static_cast<char>('0' + c.s.draw(9)); }
        return n;
    };
    for (char x : { 'Y', 'M', 'W', 'D' }) if (c.s.chance(1, 3)) t += num() + x;
    if (c.s.chance(2, 3)) { t += 'T'; for (char x : { 'H', 'M', 'S' }) if (c.s.boolean()) t += num() + x; }
    if (c.s.boolean())
    {
        size_t k = 1 + c.s.length(2);
        for (size_t i = 0; i < k; ++i)
        {
            size_t at = c.s.below(t.size() + 1);
            char ch = c.s.one<char>({ '5', 'P', 'T', 'D', 'S', 'M', '.', '-', '+', ' ', 'e', 'H', 'Y', 'W', 'x', ',', '\0', 'p' });
            switch (c.s.below(4))
            {
                case 0: t.insert(at, 1, ch); break;
                case 1: if (at < t.size()) t[at] = ch; break;
                case 2: if (at < t.size()) t.erase(at, 1); break;
                default: t.resize(at); break;
            }
        }
    }
    c.log << pbt::quote(t);
    long double v;
    bool grey;
    bool valid = parseDuration(t, v, grey);
    if (grey) c.discard();
    Exact e{ t };
    double got = 0;
    bool ok = true;
    try { got = Duration::FromString(e).count(); } catch (const std::exception&) { ok = false; }
    if (valid)
    {
        c.check(ok, "a valid duration is rejected");
        c.check(std::fabs(got - v) <= 1e-9L + std::fabs(v) * 1e-14L, cat("read as ", got, " instead of ", static_cast<double>(v)));
        c.count("valid");
    }
    else
    {
        c.check(!ok, cat("accepted as ", got));
        c.count("invalid");
    }
    c.nontrivial(t.size() > 3);
}

// ---- calendar times

static int64_t daysFromCivil(int64_t y, int m, int d)
{
    // counting whole years and months; independent of any library
    int64_t y0 = y - 1;
    int64_t days = y0 * 365 + (y0 >= 0 ? y0 / 4 - y0 / 100 + y0 / 400 : 0);
    static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    for (int i = 1; i < m; ++i) days += ml[i - 1] + (i == 2 && leap ? 1 : 0);
    return days + d - 1 - 719162;   // 0001-01-01 is day -719162
}

static int monthLength(int64_t y, int m)
{
    static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return ml[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 1 : 0);
}

struct Civil { int64_t y = 1970; int mo = 1, d = 1, h = 0, mi = 0, s = 0, ms = 0; };

static Civil genCivil(pbt::Src& s)
{
    Civil r;
    switch (s.weighted({ 6, 2, 1 }))
    {
        case 0: r.y = s.range(1970, 2100); break;
        case 1: r.y = s.one<int64_t>({ 1970, 1969, 1900, 2000, 1999, 2038, 2100, 1600 }); break;
        default: r.y = s.range(1, 9999); break;
    }
    r.mo = static_cast<int>(s.range(1, 12));
    r.d = static_cast<int>(s.chance(1, 3) ? monthLength(r.y, r.mo) : s.range(1, monthLength(r.y, r.mo)));
    r.h = static_cast<int>(s.one<int64_t>({ 0, 23, s.range(0, 23) }));
    r.mi = static_cast<int>(s.one<int64_t>({ 0, 59, s.range(0, 59) }));
    r.s = static_cast<int>(s.one<int64_t>({ 0, 59, s.range(0, 59) }));
    r.ms = static_cast<int>(s.one<int64_t>({ 0, 999, 1, s.range(0, 999), s.range(0, 999) }));
    return r;
}

static int64_t millis(const Civil& v) { return (((daysFromCivil(v.y, v.mo, v.d) * 24 + v.h) * 60 + v.mi) * 60 + v.s) * 1000 + v.ms; }

static std::string fmt(const char* f, auto... a) { char b[200]; std::snprintf(b, sizeof b, f, a...); return b; }

// the instant in milliseconds of "YYYY-MM-DDThh:mm:ss[.f{1,3}](Z|+hh:mm|-hh:mm)"
static bool parseIso(const std::string& t, int64_t& ms)
{
    size_t p = 0;
    auto num = [&](size_t n, int& out) { out = 0; for (size_t i = 0; i < n; ++i, ++p) { if (p >= t.size() || t[p] < '0' || t[p] > '9') return false; out = out * 10 + (t[p] - '0'); } return true; };
    auto lit = [&](char ch) { return p < t.size() && t[p++] == ch; };
    int y, mo, d, h, mi, s, oh = 0, om = 0;
    if (!(num(4, y) && lit('-') && num(2, mo) && lit('-') && num(2, d) && lit('T') && num(2, h) && lit(':') && num(2, mi) && lit(':') && num(2, s))) return false;
    int frac = 0;
    if (p < t.size() && t[p] == '.')
    {
        ++p;
        int k = 0;
        while (p < t.size() && t[p] >= '0' && t[p] <= '9') { if (++k > 3) return false; frac = frac * 10 + (t[p] - '0'); ++p; }
        if (k == 0) return false;
        for (; k < 3; ++k) frac *= 10;
    }
    if (p >= t.size()) return false;
    int sign = 0;
    if (t[p] == 'Z') ++p;
    else if (t[p] == '+' || t[p] == '-') { sign = t[p++] == '+' ? 1 : -1; if (!(num(2, oh) && lit(':') && num(2, om))) return false; }
    else return false;
    if (p != t.size() || mo < 1 || mo > 12 || y < 1 || d < 1 || d > monthLength(y, mo) || h > 23 || mi > 59 || s > 59 || om > 59) return false;
    ms = (((daysFromCivil(y, mo, d) * 24 + h) * 60 + mi) * 60 + s) * 1000 + frac - sign * (oh * 60 + om) * 60000ll;
    return true;
}

static double tpSeconds(int64_t ms) { return static_cast<double>(static_cast<long double>(ms) / 1000); }

static const std::vector<std::string>& zones()
{
    static const std::vector<std::string> z = []
    {
        std::vector<std::string> r;
        for (const char* n : { "Etc/GMT+5", "Etc/GMT-14", "Asia/Kolkata", "America/St_Johns", "Europe/Berlin", "UTC" })
        {
            try { dots::type::chrono::experimental::set_time_zone_override(n); r.push_back(n); } catch (const std::exception&) {}
            dots::type::chrono::experimental::clear_time_zone_override();
        }
        return r;
    }();
    return z;
}

static void timeRoundTrip(pbt::Ctx& c)
{
    Civil v = genCivil(c.s);
    int64_t ms = millis(v);
    double sub = c.s.chance(1, 4) ? static_cast<double>(c.s.range(-499, 499)) * 1e-6 : 0;   // not a whole number of milliseconds
    double sec = tpSeconds(ms) + sub;
    TimePoint tp{ Duration{ sec } };
    std::string iso = fmt("%04lld-%02d-%02dT%02d:%02d:%02d.%03d+00:00", static_cast<long long>(v.y), v.mo, v.d, v.h, v.mi, v.s, v.ms);
    c.log.precision(20);
    c.log << iso << " " << sec;
    std::string utc = tp.toString(TimePoint::ISO8601DateTime, true);
    // close to the middle between two milliseconds the rounding may go either way
    bool near = std::fabs(sub) > 0.00047;
    if (!near) c.check(utc == iso, cat("UTC text is ", utc));
    else { int64_t m; c.check(parseIso(utc, m) && std::llabs(m - ms) <= 1, cat("UTC text is ", utc)); }
    struct Reset { ~Reset() { dots::type::chrono::experimental::clear_time_zone_override(); } } reset;
    if (!zones().empty() && c.s.boolean())
    {
        auto& z = c.s.pick(zones());
        c.log << " zone " << z;
        dots::type::chrono::experimental::set_time_zone_override(z);
        c.count("zone " + z);
    }
    std::string local = tp.toString();
    c.log << " local " << local;
    int64_t m;
    if (v.y > 1 && v.y < 9999)
    {
        c.check(parseIso(local, m), "the local text is not in the documented notation");
        c.check(std::llabs(m - ms) <= (near ? 1 : 0), cat("the local text denotes another instant, off by ", m - ms, " ms"));
        Exact e{ local };
        TimePoint back;
        try { back = TimePoint::FromString(e); } catch (const std::exception& x) { c.fail(cat("its own text is rejected: ", x.what())); }
        c.check(std::fabs(back.duration().count() - tpSeconds(m)) <= 2 * ulp(sec), cat("the local text is read as ", back.duration().count()));
        c.check(back.toString() == local, cat("converting twice gives ", back.toString()));
        TimePoint f;
        c.check(f.fromString(e) && f == back, "fromString and FromString differ");
    }
    // fractional seconds
    std::string fs = tp.toString({});
    double fv = std::strtod(fs.c_str(), nullptr);
    c.check(std::fabs(fv - sec) <= 0.5e-6 + 2 * ulp(sec), cat("fractional seconds are ", fs));
    Exact fe{ fs };
    c.check(std::fabs(TimePoint::FromString(fe, {}).duration().count() - sec) <= 0.5e-6 + 2 * ulp(sec), "fractional seconds do not convert back");
    // free formats
    if (!near)
    {
        struct F { const char* f; std::string text; };
        for (const F& f : { F{ "%Y/%m/%d %H:%M:%S", fmt("%04lld/%02d/%02d %02d:%02d:%02d.%03d", static_cast<long long>(v.y), v.mo, v.d, v.h, v.mi, v.s, v.ms) },
            F{ "%d.%m.%Y-%T", fmt("%02d.%02d.%04lld-%02d:%02d:%02d.%03d", v.d, v.mo, static_cast<long long>(v.y), v.h, v.mi, v.s, v.ms) } })
        {
            Exact ff{ f.f };
            // the parsed format comes from a text of exactly its size as well
            std::string t = tp.toString(ff, true);
            c.check(t == f.text, cat("format ", f.f, " gives ", t));
            Exact fx{ t };
            c.check(std::fabs(TimePoint::FromString(fx, ff).duration().count() - tpSeconds(ms)) <= 2 * ulp(sec), cat("format ", f.f, " is not read back"));
        }
    }
    c.nontrivial(v.ms != 0 || v.s != 0);
}

static void timeParse(pbt::Ctx& c)
{
    Civil v = genCivil(c.s);
    std::string t = fmt("%04lld-%02d-%02dT%02d:%02d:%02d", static_cast<long long>(v.y), v.mo, v.d, v.h, v.mi, v.s);
    size_t digits = c.s.below(4);
    if (digits > 0) t += "." + fmt("%03d", v.ms).substr(0, digits);
    if (c.s.chance(1, 3)) t += 'Z';
    else t += fmt("%c%02d:%02d", c.s.boolean() ? '+' : '-', static_cast<int>(c.s.range(0, 14)), static_cast<int>(c.s.one<int64_t>({ 0, 30, 45, c.s.range(0, 59) })));
    const char* how = nullptr;
    if (c.s.boolean())
    {
        auto put = [&](size_t at, const char* x) { t.replace(at, std::strlen(x), x); };
        switch (c.s.below(14))
        {
            case 0: how = "month 13"; put(5, "13"); break;
            case 1: how = "month 0"; put(5, "00"); break;
            case 2: how = "day 32"; put(8, "32"); break;
            case 3: how = "day 0"; put(8, "00"); break;
            case 4: how = "February 30"; put(5, "02-30"); break;
            case 5: how = "minute 60"; put(14, "60"); break;
            case 6: how = "second 61"; put(17, "61"); break;
            case 7: how = "trailing characters"; t += c.s.one<const char*>({ "x", "Z", "0", " ", "+01:00", ".5" }); break;
            case 8: how = "truncated"; t.resize(c.s.below(16)); break;
            case 9: how = "no zone"; t.resize(19); break;
            case 10: how = "letter"; t[c.s.one<size_t>({ 0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18 })] = c.s.one<char>({ 'a', 'T', '/', ':', '\0', '\x80' }); break;
            case 11: how = "wrong separator"; t[c.s.one<size_t>({ 4, 7, 10, 13, 16 })] = c.s.one<char>({ 'x', '/', '_', ';' }); break;
            case 12: how = "leading characters"; t.insert(0, c.s.one<const char*>({ "x", "T", ":" })); break;
            default: how = "hour 25"; put(11, "25"); break;
        }
    }
    c.log << pbt::quote(t) << " " << (how ? how : "valid");
    Exact e{ t };
    int64_t ms = 0;
    bool valid = parseIso(t, ms);
    if (how == nullptr) c.check(valid, "HARNESS: own grammar is wrong");
    // a mutation may by chance yield another valid text; for years of five digits see the assumptions
    if (how != nullptr && valid) c.discard();
    double got = 0;
    bool ok = true;
    try { got = TimePoint::FromString(e).duration().count(); } catch (const std::exception&) { ok = false; }
    if (valid)
    {
        c.check(ok, "a valid time is rejected");
        c.check(std::fabs(got - tpSeconds(ms)) <= 2 * ulp(got), cat("read as ", got, " instead of ", tpSeconds(ms)));
    }
    else c.check(!ok, cat("accepted as ", got));
    c.count(how ? how : "valid");
    c.nontrivial();
    // numbers
    std::string n = cat(c.s.range(-1000000, 1000000), c.s.boolean() ? ".25" : "");
    Exact ne{ n };
    c.check(TimePoint::FromString(ne, {}).duration().count() == std::strtod(n.c_str(), nullptr), cat("fractional seconds ", n, " are read differently"));
    for (const char* bad : { "", "x", "1x", "1.5 2", "--1" })
    {
        Exact b{ bad };
        c.check(rejects([&] { return TimePoint::FromString(b, {}).duration().count(); }), cat("fractional seconds '", bad, "' are accepted"));
    }
}

// ---- other representations

static void representations(pbt::Ctx& c)
{
    double d = genSeconds(c.s, 2e11);
    c.log.precision(20);
    c.log << d;
    namespace libc = dots::type::libc;
    namespace posix = dots::type::posix;
    double tol = 2 * ulp(d);
    auto checkSpec = [&](const timespec* ts, double v, const char* what)
    {
        c.check(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000l, cat(what, ": nanoseconds are ", ts->tv_nsec));
        long double x = static_cast<long double>(ts->tv_sec) + static_cast<long double>(ts->tv_nsec) / 1e9L;
        c.check(std::fabs(x - v) <= 0.51e-9L + 2 * ulp(v), cat(what, ": ", ts->tv_sec, " s ", ts->tv_nsec, " ns"));
    };
    libc::Timespec ts{ Duration{ d } };
    const libc::Timespec& cts = ts;
    checkSpec(cts, d, "Timespec of a duration");
    c.check(std::fabs(static_cast<Duration>(ts).count() - d) <= 0.51e-9 + tol, "Timespec does not convert back");
    const libc::Timespec t2{ TimePoint{ Duration{ d } } }, t3{ SteadyTimePoint{ Duration{ d } } };
    checkSpec(t2, d, "Timespec of a time point");
    checkSpec(t3, d, "Timespec of a steady time point");
    posix::Timeval tv{ Duration{ d } };
    const posix::Timeval& ctv = tv;
    const timeval* rv = ctv;
    c.check(rv->tv_usec >= 0 && rv->tv_usec < 1000000, cat("Timeval: microseconds are ", rv->tv_usec));
    c.check(std::fabs(static_cast<long double>(rv->tv_sec) + static_cast<long double>(rv->tv_usec) / 1e6L - d) <= 0.51e-6L + tol, cat("Timeval: ", rv->tv_sec, " s ", rv->tv_usec, " us"));
    c.check(std::fabs(static_cast<Duration>(tv).count() - d) <= 0.51e-6 + tol, "Timeval does not convert back");
    double e = genSeconds(c.s, 2e9);
    c.log << " and " << e;
    const libc::Timespec te{ Duration{ e } };
    const libc::Timespec sum = cts + te, dif = cts - te;
    double big = 4 * (ulp(d) + ulp(e)) + 1.1e-9;
    c.check(std::fabs(static_cast<Duration>(sum).count() - (d + e)) <= big && std::fabs(static_cast<Duration>(dif).count() - (d - e)) <= big, "Timespec arithmetic");
    const posix::Timeval ve{ Duration{ e } };
    const posix::Timeval vsum = ctv + ve, vdif = ctv - ve;
    big += 1.1e-6;
    c.check(std::fabs(static_cast<Duration>(vsum).count() - (d + e)) <= big && std::fabs(static_cast<Duration>(vdif).count() - (d - e)) <= big, "Timeval arithmetic");
    if (std::fabs(d - e) > 1e-4) c.check((cts < te) == (d < e) && (cts > te) == (d > e) && (ctv < ve) == (d < e) && (ctv > ve) == (d > e), "order of Timespec or Timeval");
    // rounding conversions as far as the result fits
    struct R { double scale; int v; const char* n; };
    Duration dd{ d };
    auto fits = [&](double x) { return std::fabs(x) < 2147483646.0; };
    auto near = [&](int v, double x, const char* n) { c.check(std::fabs(v - x) <= 0.5 + 1e-3 * (std::fabs(x) > 1e6), cat(n, " gives ", v)); };
    if (fits(d)) near(dd.toSeconds(), d, "toSeconds");
    if (fits(d * 1e3)) near(dd.toMilliseconds(), d * 1e3, "toMilliseconds");
    if (fits(d * 1e6)) near(dd.toMicroseconds(), d * 1e6, "toMicroseconds");
    if (fits(d * 1e9)) near(dd.toNanoseconds(), d * 1e9, "toNanoseconds");
    c.check(dd.toFractionalSeconds() == d && static_cast<double>(dd) == d && dd.isZero() == (d == 0), "fractional seconds");
    TimePoint tp{ dd };
    c.check((tp + Duration{ e }).time_since_epoch().count() == d + e && (tp - Duration{ e }).time_since_epoch().count() == d - e, "time point arithmetic");
    tp += Duration{ e };
    c.check(tp.duration().count() == d + e, "time point +=");
    c.nontrivial(d != 0);

    // broken-down time
    Civil v = genCivil(c.s);
    int64_t ms = millis(v);
    time_t tt = static_cast<time_t>((ms - v.ms) / 1000);
    if (v.y >= 1900)
    {
        posix::PosixTm tm{ tt, true };
        c.check(tm.year() == v.y && tm.month() == v.mo && tm.day() == v.d && tm.hour() == v.h && tm.minute() == v.mi && tm.second() == v.s, "broken-down UTC time");
        int64_t days = daysFromCivil(v.y, v.mo, v.d);
        c.check(tm.weekDay() == static_cast<int>(((days % 7) + 7 + 4) % 7) + 1, "day of the week");
        bool unset = c.s.boolean();
        if (unset) ::unsetenv("TZ"); else ::setenv("TZ", "XYZ-03:30", 1);
        c.check(tm.mktime(true) == tt, "mktime in UTC");
        const char* tz = ::getenv("TZ");
        c.check(unset ? tz == nullptr : tz != nullptr && std::string{ tz } == "XYZ-03:30", "the time zone is not restored");
        ::unsetenv("TZ");
        ::tzset();
        posix::PosixTm set{ 0, true };
        set.year(static_cast<int>(v.y)); set.month(v.mo); set.day(v.d); set.hour(v.h); set.minute(v.mi); set.second(v.s);
        c.check(set.mktime(true) == tt, "mktime of assigned fields");
        char buf[64];
        size_t n = tm.strftime(buf, sizeof buf, "%Y-%m-%d %H:%M:%S");
        c.check(std::string(buf, n) == fmt("%04lld-%02d-%02d %02d:%02d:%02d", static_cast<long long>(v.y), v.mo, v.d, v.h, v.mi, v.s), "strftime");
        posix::PosixTm parsed{ 0, true };
        c.check(parsed.strptime(std::string(buf, n), "%Y-%m-%d %H:%M:%S") != nullptr && parsed.mktime(true) == tt, "strptime");
    }
}

// ---- ids

static void uuids(pbt::Ctx& c)
{
    auto gen = [&]
    {
        Uuid::value_t r;
        for (auto& b : r) b = static_cast<std::decay_t<decltype(b)>>(c.s.chance(1, 4) ? 0 : c.s.draw(255));
        return r;
    };
    auto a = gen(), b = c.s.chance(1, 4) ? a : gen();
    if (c.s.chance(1, 3)) { b = a; b[c.s.below(16)] ^= static_cast<uint8_t>(c.s.draw(255)); }
    auto hex = [](const Uuid::value_t& v)
    {
        std::string r;
        for (size_t i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) r += '-'; r += fmt("%02x", static_cast<unsigned>(static_cast<uint8_t>(v[i]))); }
        return r;
    };
    Uuid ua{ a }, ub{ b };
    std::string t = hex(a);
    c.log << t << " " << hex(b);
    c.check(ua.toString() == t, cat("text is ", ua.toString()));
    c.check(ua.data() == a, "data differs");
    std::string u = t;
    for (char& ch : u) if (c.s.boolean()) ch = static_cast<char>(std::toupper(ch));
    Exact e{ u };
    try { c.check(Uuid::FromString(e).data() == a, cat(u, " is read differently")); } catch (const std::exception& x) { c.fail(cat(u, " is rejected: ", x.what())); }
    int cmp = std::memcmp(a.data(), b.data(), 16);
    c.check((ua == ub) == (cmp == 0) && (ua != ub) == (cmp != 0) && (ua < ub) == (cmp < 0), "comparison");
    Exact raw{ std::string(reinterpret_cast<const char*>(a.data()), 16) };
    c.check(Uuid::FromData(raw) == ua, "FromData differs");
    c.check(Uuid(reinterpret_cast<const uint8_t*>(a.data())) == ua, "constructor from bytes differs");
    size_t wrong = c.s.below(40);
    if (wrong != 16) { Exact w{ std::string(wrong, 'a') }; c.check(rejects([&] { return Uuid::FromData(w).toString(); }), cat("FromData accepts ", wrong, " bytes")); }
    // damaged text
    std::string d = t;
    switch (c.s.below(5))
    {
        case 0: d.resize(c.s.below(36)); break;
        case 1: d += c.s.one<char>({ '0', 'a', '-', ' ', '}' }); break;
        case 2: { size_t i = c.s.below(36); if (d[i] == '-') ++i; d[i] = c.s.one<char>({ 'g', 'x', ' ', '-', '{', '\0', '\xff' }); break; }
        case 3: d.insert(d.begin(), c.s.one<char>({ ' ', '0', '-', '(' })); break;
        default: d.erase(c.s.one<size_t>({ 0, 1, 7, 35, 20 }), 1); break;
    }
    // 32 digits without any dash are a notation, too
    Exact de{ d };
    std::string got;
    c.check(rejects([&] { return Uuid::FromString(de).toString(); }, &got), cat("damaged id ", pbt::quote(d), " is accepted as ", got));
    if (c.s.chance(1, 20)) { Uuid r1 = Uuid::Random(), r2 = Uuid::Random(); c.check(r1 != r2 && Uuid::FromString(r1.toString()) == r1, "random ids"); }
    c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "T19";
    check.rule = "the value is not zero / the text has at least one component";
    check.assumptions = { "calendar times within the years 1 to 9999, written as YYYY-MM-DDThh:mm:ss with up to three fractional digits and Z or +-hh:mm",
        "the integer conversions of durations are specified for results that fit an int", "resolutions: durations and fractional seconds 1 us, calendar times 1 ms" };
    check.subs = {
        { "duration round trip", durationRoundTrip, 200000, 10000000 },
        { "duration text", durationParse, 200000, 10000000 },
        { "time round trip", timeRoundTrip, 60000, 3000000 },
        { "time text", timeParse, 80000, 5000000 },
        { "representations", representations, 100000, 5000000 },
        { "ids", uuids, 150000, 5000000 },
    };
    return pbt::run(argc, argv, check);
}
