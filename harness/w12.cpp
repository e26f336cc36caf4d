// W12: malformed input is rejected without harm.
#include "subject.h"
#include "cborref.h"
#include <dots/io/DescriptorConverter.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <dots/tools/logging.h>
#include <cmath>

using namespace mdl;
using namespace dots::serialization;
using dots::property_set_t;
using dots::type::Type;
using pbt::cat;

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);

// ---- memory accounting of the call under test
static bool g_track = false;
static int64_t g_live = 0, g_peak = 0;
static void onMalloc(const volatile void*, size_t n) { if (g_track) { g_live += static_cast<int64_t>(n); if (g_live > g_peak) g_peak = g_live; } }
static void onFree(const volatile void* p) { if (g_track && p != nullptr) g_live -= static_cast<int64_t>(__sanitizer_get_allocated_size(p)); }
static void init() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }

struct Track
{
    Track() { g_live = g_peak = 0; g_track = true; }
    ~Track() { g_track = false; }
    size_t peak() const { return static_cast<size_t>(g_peak); }
};

static std::unique_ptr<char[]> exact(const std::string& s)
{
    std::unique_ptr<char[]> b{ new char[s.size()] };
    std::memcpy(b.get(), s.data(), s.size());
    return b;
}

// ---- formats

template <typename Ser>
struct Binary
{
    static constexpr bool Text = false;
    static constexpr bool PerTag = std::is_same_v<Ser, CborSerializer>;
    TextOptions opts;
    std::string encode(const dots::type::Struct& i, uint32_t set) { auto b = Ser::Serialize(i, property_set_t{ set }); return { b.begin(), b.end() }; }
    size_t decode(const char* p, size_t n, dots::type::Struct& i, uint32_t set)
    {
        Ser s;
        s.setInput(reinterpret_cast<const uint8_t*>(p), n);
        return s.deserialize(i, property_set_t{ set });
    }
};

template <typename Ser>
struct Textual
{
    static constexpr bool Text = true;
    TextOptions opts;
    std::string encode(const dots::type::Struct& i, uint32_t set) { return Ser::Serialize(i, property_set_t{ set }, opts); }
    size_t decode(const char* p, size_t n, dots::type::Struct& i, uint32_t set)
    {
        Ser s{ opts };
        s.setInput(p, n);
        return s.deserialize(i, property_set_t{ set });
    }
};

template <typename Format>
struct Rapid
{
    static constexpr bool Text = true;
    using Ser = RapidJsonSerializer<Format>;
    TextOptions opts;
    std::string encode(const dots::type::Struct& i, uint32_t set) { return Ser::Serialize(i, property_set_t{ set }); }
    size_t decode(const char* p, size_t n, dots::type::Struct& i, uint32_t set)
    {
        Ser s{ std::string_view{ p, n } };
        s.deserialize(i, property_set_t{ set });
        return n;
    }
};

struct NamedRapid : RapidJsonSerializerFormat<>
{
    static constexpr TimepointFormat TimepointFormat = TimepointFormat::ISO8601String;
    static constexpr EnumFormat EnumFormat = EnumFormat::String;
};

template <typename F>
static F makeFormat(pbt::Ctx& c)
{
    F f;
    if constexpr (F::Text)
    {
        f.opts.style = c.s.one<TextOptions::Style>({ TextOptions::SingleLine, TextOptions::Minified, TextOptions::MultiLine });
        f.opts.policy = f.opts.style == TextOptions::MultiLine && c.s.boolean() ? TextOptions::Strict : TextOptions::Relaxed;
    }
    return f;
}

// ---- malformed inputs

static void mutateBytes(pbt::Src& s, std::string& b)
{
    size_t n = 1 + s.length(4);
    for (size_t i = 0; i < n; ++i)
    {
        size_t at = b.empty() ? 0 : s.below(b.size());
        switch (s.weighted({ 3, 3, 2, 2, 2, 1, 1, 2 }))
        {
            case 0: if (!b.empty()) b[at] = static_cast<char>(b[at] ^ (1 << s.below(8))); break;
            case 1: if (!b.empty()) b[at] = static_cast<char>(s.one<int>({ 0x00, 0x1b, 0x3b, 0x5b, 0x7b, 0x9b, 0xbb, 0xdb, 0xfb, 0xff, 0x5f, 0x7f, 0x9f, 0xbf, 0x80, 0xa0, 0xf6, 0x1f, 0x18, 0x9a, 0xba, 0x7a, 0xc0, 0xf8 })); break;
            case 2: b.resize(at); break;
            case 3: b.erase(at, 1 + s.length(8)); break;
            case 4: b.insert(at, 1 + s.length(4), static_cast<char>(s.draw(255))); break;
            case 5: { size_t len = 1 + s.length(20); std::string part = b.substr(at, len); b.insert(b.empty() ? 0 : s.below(b.size()), part); break; }
            case 6: if (!b.empty()) b[at] = static_cast<char>(s.draw(255)); break;
            default: // a huge length
            {
                std::string h;
                h += static_cast<char>(s.one<int>({ 0x9b, 0xbb, 0x5b, 0x7b, 0x9a, 0xba, 0x5a, 0x7a }));
                uint64_t v = s.one<uint64_t>({ 0x7fffffff, 0xffffffff, 0x7fffffffffffffff, ~0ull, 0x10000, 0x1000000, 0x100000000ull, 0x2000000000000000ull });
                for (int k = (h[0] & 1 ? 7 : 3); k >= 0; --k) h += static_cast<char>(v >> (8 * k));
                b.replace(at, std::min<size_t>(1, b.size() - at), h);
            }
        }
        if (b.size() > 100000) b.resize(100000);
    }
}

static std::vector<std::string> tokens(const std::string& t)
{
    std::vector<std::string> r;
    auto cls = [](char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '-' || static_cast<unsigned char>(ch) >= 0x80 ? 1 : std::isspace(static_cast<unsigned char>(ch)) ? 2 : 0; };
    for (char ch : t)
    {
        if (!r.empty() && cls(ch) != 0 && cls(ch) == cls(r.back().back())) r.back() += ch;
        else r.push_back(std::string(1, ch));
    }
    return r;
}

static const std::vector<std::string>& oddTokens()
{
    static const std::vector<std::string> t{ "{", "}", "[", "]", ",", ":", "\"", "'", "\\", "\\u", "\\uD800", "\\u12", "\\uDC00\\uD800", "\\x", ".", "=", "-", "+", "0x", "0b", "0b102", "null", "<invalid>", "<none>", "true", "false", "tru",
        "NaN", "inf", "-inf", "nan", "1e999", "-1e999", "1e-999", "99999999999999999999999", "-99999999999999999999", "256", "65536", "4294967296", "-129", "1.5", "0x1ffffffffffffffff", "::", "VfColor::", "f", "u", "\x80", "\xff\xfe", std::string(1, '\0'), " ", "\n", "\t", "//", "{}", "[]", "\"\"", "2022-13-45T99:99:99Z", "2022-02-30T00:00:00Z", "\"2022-01-01T00:00:00\"", "00000000-0000-0000-0000-00000000000", "zz", "e", "E+" };
    return t;
}

static void mutateTokens(pbt::Src& s, std::string& t)
{
    auto ts = tokens(t);
    size_t n = 1 + s.length(4);
    for (size_t i = 0; i < n && !ts.empty(); ++i)
    {
        size_t at = s.below(ts.size());
        switch (s.weighted({ 3, 3, 2, 2, 1, 1 }))
        {
            case 0: ts[at] = s.pick(oddTokens()); break;
            case 1: ts.insert(ts.begin() + static_cast<ptrdiff_t>(at), s.pick(oddTokens())); break;
            case 2: ts.erase(ts.begin() + static_cast<ptrdiff_t>(at)); break;
            case 3: std::swap(ts[at], ts[s.below(ts.size())]); break;
            case 4: ts.insert(ts.begin() + static_cast<ptrdiff_t>(at), ts[s.below(ts.size())]); break;
            default: ts.resize(at); break;
        }
    }
    t.clear();
    for (auto& x : ts) t += x;
}

// CBOR with the structure of the type but surprising contents
struct Odd
{
    pbt::Src& s;
    cborref::Encoder e;

    int width() { return s.chance(1, 4) ? static_cast<int>(s.below(5)) : 0; }

    void junk(unsigned depth)
    {
        switch (s.weighted({ 3, 2, 3, 2, 3, 2, depth ? 3u : 0u, depth ? 3u : 0u, depth ? 1u : 0u, 1, 1 }))
        {
            case 0: e.head(0, s.interestingUint(), width()); break;
            case 1: e.head(1, s.interestingUint(), width()); break;
            case 2: e.text(3, genUtf8(s, 20), width()); break;
            case 3: { std::string b(s.one<size_t>({ 0, 1, 15, 16, 17, 32 }), 'x'); e.text(2, b, width()); break; }
            case 4: e.simple(static_cast<uint8_t>(s.range(20, 23))); break;
            case 5: if (s.boolean()) e.f64(s.one<double>({ 0.0, 1e308, -1e308, NAN, INFINITY, -INFINITY, 1e19, -1e19 })); else if (s.boolean()) e.f32(s.one<float>({ 0, 1, NAN, INFINITY })); else e.f16(static_cast<uint16_t>(s.draw(0xffff))); break;
            case 6: { size_t n = s.length(5); bool ind = s.chance(1, 3); if (ind) e.indefinite(4); else e.head(4, n, width()); for (size_t i = 0; i < n; ++i) junk(depth - 1); if (ind) e.brk(); break; }
            case 7: { size_t n = s.length(4); bool ind = s.chance(1, 3); if (ind) e.indefinite(5); else e.head(5, n, width()); for (size_t i = 0; i < n; ++i) { if (s.chance(1, 4)) junk(depth - 1); else e.head(0, s.range(0, 40), width()); junk(depth - 1); } if (ind) e.brk(); break; }
            case 8: e.head(6, s.interestingUint(), width()); junk(depth - 1); break;
            case 9: e.head(s.boolean() ? 4 : 5, s.interestingUint(), width()); break;    // wrong count
            default: e.out.push_back(static_cast<uint8_t>(s.draw(255))); break;
        }
    }

    void value(const MType& t, unsigned depth)
    {
        if (s.chance(1, 4)) { junk(2); return; }
        switch (t.k)
        {
            case Type::boolean: e.simple(s.boolean() ? 21 : 20); break;
            case Type::int8: case Type::int16: case Type::int32: case Type::int64: e.head(static_cast<int>(s.below(2)), s.interestingUint(), width()); break;
            case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: e.head(0, s.interestingUint(), width()); break;
            case Type::float32: case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: e.f64(s.one<double>({ 0.0, 1.5, 1e300, NAN, INFINITY, -1e19 })); break;
            case Type::uuid: e.text(s.chance(1, 3) ? 3 : 2, std::string(s.one<size_t>({ 16, 0, 15, 17, 36 }), 'u'), width()); break;
            case Type::string: e.text(s.chance(1, 3) ? 2 : 3, genUtf8(s, 20), width()); break;
            case Type::Enum: e.head(0, s.draw(5), width()); break;
            case Type::Vector:
            {
                size_t n = s.length(5);
                e.head(4, s.chance(1, 5) ? s.interestingUint() : n, width());
                for (size_t i = 0; i < n; ++i) value(*t.elem, depth);
                break;
            }
            case Type::Struct: object(*t.s, depth); break;
        }
    }

    void object(const StructT& t, unsigned depth)
    {
        size_t n = s.length(6);
        e.head(5, s.chance(1, 6) ? s.interestingUint() : n, width());
        for (size_t i = 0; i < n; ++i)
        {
            if (!t.props.empty() && s.chance(4, 5) && depth > 0)
            {
                const MProp& p = s.pick(t.props);
                e.head(0, p.tag, width());
                value(*p.type, depth - 1);
            }
            else { junk(1); junk(2); }
        }
    }

    // the positional notation of the experimental format
    void positional(const StructT& t, unsigned depth)
    {
        uint32_t set = s.chance(1, 5) ? static_cast<uint32_t>(s.bits64()) : genSubset(s, t.all());
        e.head(4, s.chance(1, 5) ? s.interestingUint() : static_cast<uint64_t>(__builtin_popcount(set)), width());
        e.head(0, set, width());
        for (auto& p : t.props)
        {
            if (!(set >> p.tag & 1)) continue;
            if (p.type->k == Type::Struct && depth > 0) positional(*p.type->s, depth - 1);
            else value(*p.type, depth);
        }
    }
};

static std::string bytesOf(const cborref::Encoder& e) { return { e.out.begin(), e.out.end() }; }

// ---- the object that was decoded into stays usable

template <typename F>
static void usable(pbt::Ctx& c, F& f, const Subject& sub, dots::type::Struct& inst, const GenOpts& o)
{
    MValue before;
    {
        before = read(inst, *sub.t);
        Instance copy{ *sub.d };
        copy->_assign(inst);
        (void)copy->_equal(inst);
        (void)copy->_less(inst);
        MValue got = read(*copy, *sub.t);
        if (!same(got, before)) c.fail(cat("a copy of the object decoded into differs: ", firstDifference(got, before)));
        try { (void)f.encode(inst, 0xFFFFFFFFu); } catch (const std::exception&) { c.count("not encodable afterwards"); }
    }
    MValue v = genStruct(c.s, *sub.t, o);
    Instance src{ *sub.d };
    write(*src, *sub.t, v);
    std::string good = f.encode(*src, v.valid());
    inst._clear();
    c.check(read(inst, *sub.t).fields.empty(), "clearing the object decoded into leaves values");
    try { f.decode(good.data(), good.size(), inst, 0xFFFFFFFFu); }
    catch (const std::exception& e) { c.fail(cat("the object cannot be decoded into any more: ", e.what())); }
    MValue got = read(inst, *sub.t);
    c.check(got.valid() == v.valid(), "decoding into the object after a failure yields other properties");
}

template <typename F>
static void decodeAny(pbt::Ctx& c, F& f, const Subject& sub, const std::string& in, const GenOpts& o, const char* kind)
{
    uint32_t set = c.s.chance(1, 3) ? genSubset(c.s, sub.t->all()) : 0xFFFFFFFFu;
    Instance inst{ *sub.d };
    if (c.s.boolean())
    {
        MValue old = genStruct(c.s, *sub.t, o);
        c.log << "\n  into " << show(old);
        write(*inst, *sub.t, old);
    }
    auto buf = exact(in);
    bool ok = false;
    size_t used = 0, peak = 0;
    {
        Track t;
        try { used = f.decode(buf.get(), in.size(), *inst, set); ok = true; }
        catch (const std::exception&) { }
        catch (const pbt::Failure&) { throw; }
        catch (...) { g_track = false; c.fail("decoding throws something that is not an error report (std::exception)"); }
        peak = t.peak();
    }
    if (ok && used > in.size()) c.fail(cat("decoding reports ", used, " consumed of ", in.size()));
    size_t limit = 256 * 1024 + 8192 * in.size();
    if (peak > limit) c.fail(cat("decoding ", in.size(), " bytes allocated ", peak, " bytes"));
    c.count(cat(kind, ok ? ": accepted" : ": rejected"));
    c.nontrivial(in.size() >= 4);
    usable(c, f, sub, *inst, o);
}

template <typename F>
static void malformed(pbt::Ctx& c)
{
    GenOpts o;
    o.plainTimes = true;
    o.rawText = false;
    o.maxText = 20;
    Subject sub = genSubject(c.s, o);
    F f = makeFormat<F>(c);
    c.log << show(*sub.t);
    std::string in;
    const char* kind;
    switch (c.s.weighted({ 6, 3, 1 }))
    {
        case 0:
        {
            kind = "mutated";
            MValue v = genStruct(c.s, *sub.t, o);
            Instance i{ *sub.d };
            write(*i, *sub.t, v);
            in = f.encode(*i, v.valid());
            if (F::Text && c.s.chance(3, 4)) mutateTokens(c.s, in); else mutateBytes(c.s, in);
            break;
        }
        case 1:
            kind = "structured";
            if constexpr (!F::Text)
            {
                Odd odd{ c.s };
                if constexpr (F::PerTag) odd.object(*sub.t, 3); else odd.positional(*sub.t, 3);
                in = bytesOf(odd.e);
                if (c.s.chance(1, 4)) in.resize(c.s.below(in.size() + 1));
            }
            else
            {
                // a soup of the type's own tokens and odd ones
                std::vector<std::string> words = oddTokens();
                words.push_back(sub.t->name);
                for (auto& p : sub.t->props) { words.push_back(p.name); words.push_back("\"" + p.name + "\":"); words.push_back("." + p.name + " = "); }
                size_t n = 1 + c.s.length(30);
                if (c.s.boolean()) in = c.s.boolean() ? "{" : sub.t->name + "{";
                for (size_t i = 0; i < n; ++i) in += c.s.pick(words);
            }
            break;
        default:
        {
            kind = "random";
            size_t n = c.s.length(64);
            for (size_t i = 0; i < n; ++i) in += static_cast<char>(c.s.draw(255));
        }
    }
    c.log << "\n  input " << (F::Text ? pbt::quote(in) : pbt::hex(in));
    decodeAny(c, f, sub, in, o, kind);
}

// nesting as deep as the input is long
template <typename F>
static void deep(pbt::Ctx& c)
{
    GenOpts o;
    o.plainTimes = true;
    o.rawText = false;
    Subject sub;
    auto& st = staticTypes();
    size_t i = c.s.below(st.size());
    sub.t = st[i].second;
    sub.d = st[i].first;
    F f = makeFormat<F>(c);
    size_t n = static_cast<size_t>(c.s.range(1, 400000));
    std::string in;
    const MProp& p = c.s.pick(sub.t->props);
    bool known = c.s.boolean();
    if constexpr (F::Text)
    {
        std::string open = c.s.one<const char*>({ "[", "{\"a\":", "[{\"a\":", "{", "{.a=", "VfLeaf{ .x = " });
        in = std::is_same_v<F, Textual<StringSerializer>> ? cat("{ .", known ? p.name : "zzz", " = ") : cat("{\"", known ? p.name : "zzz", "\":");
        for (size_t k = 0; k < n && in.size() < 600000; ++k) in += open;
    }
    else
    {
        cborref::Encoder e;
        e.head(5, 1);
        e.head(0, known ? p.tag : 77);
        in = bytesOf(e);
        std::string open = c.s.one<const char*>({ "\x81", "\xa1\x01", "\xc1", "\x9f", "\xbf\x01", "\x82\x81" });
        for (size_t k = 0; k < n; ++k) in += open;
    }
    c.log << show(*sub.t) << " property " << (known ? p.name : "unknown") << ", " << in.size() << " bytes: " << (F::Text ? pbt::quote(in.substr(0, 60)) : pbt::hex(in.substr(0, 30)));
    decodeAny(c, f, sub, in, o, "deep");
}

// every proper prefix of an encoding is refused
template <typename F>
static void truncated(pbt::Ctx& c)
{
    GenOpts o;
    o.plainTimes = true;
    o.rawText = false;
    o.maxText = 12;
    o.bigVec = 0;
    Subject sub = genSubject(c.s, o);
    F f = makeFormat<F>(c);
    MValue v = genStruct(c.s, *sub.t, o);
    uint32_t dset = c.s.chance(1, 3) ? genSubset(c.s, sub.t->all()) : 0xFFFFFFFFu;
    Instance inst{ *sub.d };
    write(*inst, *sub.t, v);
    std::string whole = f.encode(*inst, v.valid());
    c.log << show(*sub.t) << "\n  " << show(v) << " decode set " << std::hex << dset << std::dec << "\n  " << (F::Text ? pbt::quote(whole) : pbt::hex(whole));
    size_t n = std::min<size_t>(whole.size(), 6);
    for (size_t k = 0; k < n; ++k)
    {
        size_t len = k < 2 ? whole.size() - 1 - k : c.s.below(whole.size());
        if (len >= whole.size()) continue;
        std::string in = whole.substr(0, len);
        auto buf = exact(in);
        Instance out{ *sub.d };
        bool ok = false;
        try { f.decode(buf.get(), len, *out, dset); ok = true; } catch (const std::exception&) { }
        if (ok) c.fail(cat("the first ", len, " of ", whole.size(), " bytes are taken for a complete object: ", F::Text ? pbt::quote(in) : pbt::hex(in)));
        (void)read(*out, *sub.t);
    }
    c.nontrivial(whole.size() >= 8);
}

// a value of a kind the property cannot have is refused
static std::vector<const MProp*> mismatchable(const StructT& t)
{
    std::vector<const MProp*> r;
    for (auto& p : t.props) r.push_back(&p);
    return r;
}

static void mismatchCbor(pbt::Ctx& c)
{
    GenOpts o;
    o.bigVec = 0;
    Subject sub = genSubject(c.s, o);
    auto cand = mismatchable(*sub.t);
    if (cand.empty()) c.discard();
    const MProp& p = *c.s.pick(cand);
    MValue v = genStruct(c.s, *sub.t, o);
    v.fields.erase(p.tag);
    Instance inst{ *sub.d };
    write(*inst, *sub.t, v);
    auto rest = CborSerializer::Serialize(*inst, property_set_t{ v.valid() });
    cborref::Encoder e;
    e.head(5, v.fields.size() + 1);
    auto isInt = [](Type k) { return k >= Type::int8 && k <= Type::uint64; };
    cborref::Encoder bad;
    const char* what = "";
    Type k = p.type->k;
    for (;;)
    {
        switch (c.s.below(9))
        {
            case 0: if (k == Type::string || k == Type::uuid) continue; bad.text(3, "abc"); what = "text"; break;
            case 1: if (k == Type::string || k == Type::uuid) continue; bad.text(2, "abc"); what = "byte string"; break;
            case 2: if (k == Type::Vector) continue; bad.head(4, 1); bad.head(0, 1); what = "array"; break;
            case 3: if (k == Type::Struct) continue; bad.head(5, 1); bad.head(0, 1); bad.head(0, 1); what = "map"; break;
            case 4: if (k == Type::boolean) continue; bad.simple(21); what = "true"; break;
            case 5: if (isInt(k) || k == Type::property_set || k == Type::Enum || k == Type::boolean || k == Type::float32 || k == Type::float64 || k == Type::timepoint || k == Type::steady_timepoint || k == Type::duration) continue; bad.head(0, 7); what = "integer"; break;
            case 6:
            {
                int bits = k == Type::int8 ? 7 : k == Type::uint8 ? 8 : k == Type::int16 ? 15 : k == Type::uint16 ? 16 : k == Type::int32 ? 31 : k == Type::uint32 || k == Type::property_set || k == Type::Enum ? 32 : k == Type::int64 ? 63 : 0;
                if (bits == 0) continue;
                bad.head(0, (1ull << bits) + c.s.draw(3));
                what = "integer that is too large";
                break;
            }
            case 7: if (k != Type::uuid) continue; bad.text(2, std::string(c.s.one<size_t>({ 0, 15, 17, 32 }), 'x')); what = "uuid of wrong length"; break;
            default:
                if (k == Type::uint8 || k == Type::uint16 || k == Type::uint32 || k == Type::uint64 || k == Type::property_set) { bad.head(1, c.s.draw(5)); what = "negative number for unsigned"; break; }
                if (k == Type::int8) { bad.head(1, 128); what = "number too small"; break; }
                if (k == Type::int16) { bad.head(1, 32768); what = "number too small"; break; }
                if (k == Type::int32) { bad.head(1, 2147483648u); what = "number too small"; break; }
                if (k == Type::int64) { bad.head(1, 1ull << 63); what = "number too small"; break; }
                if (k == Type::Enum)
                {
                    uint32_t tag = 0;
                    for (auto& i : p.type->e->items) tag = std::max(tag, i.tag);
                    bad.head(0, tag + 1);
                    what = "enumerator tag that does not exist";
                    break;
                }
                continue;
        }
        break;
    }
    // the map of the others, with this property in front or behind
    std::vector<uint8_t> body{ rest.begin() + (v.fields.size() < 24 ? 1 : 2), rest.end() };
    bool front = c.s.boolean();
    if (!front) e.out.insert(e.out.end(), body.begin(), body.end());
    e.head(0, p.tag);
    e.out.insert(e.out.end(), bad.out.begin(), bad.out.end());
    if (front) e.out.insert(e.out.end(), body.begin(), body.end());
    std::string in = bytesOf(e);
    c.log << show(*sub.t) << "\n  property " << p.name << " of type " << p.type->name() << " carries " << what << "\n  " << pbt::hex(in);
    auto buf = exact(in);
    Instance out{ *sub.d };
    bool ok = false;
    try { CborSerializer s; s.setInput(reinterpret_cast<const uint8_t*>(buf.get()), in.size()); s.deserialize(*out); ok = true; } catch (const std::exception&) { }
    if (ok) c.fail(cat("accepted, giving ", show(read(*out, *sub.t))));
    (void)read(*out, *sub.t);
    c.count(what);
    c.nontrivial();
}

template <typename F>
static void mismatchJson(pbt::Ctx& c)
{
    GenOpts o;
    o.bigVec = 0;
    o.rawText = false;
    o.plainTimes = true;
    Subject sub = genSubject(c.s, o);
    auto cand = mismatchable(*sub.t);
    if (cand.empty()) c.discard();
    const MProp& p = *c.s.pick(cand);
    MValue v = genStruct(c.s, *sub.t, o);
    v.fields.erase(p.tag);
    Instance inst{ *sub.d };
    write(*inst, *sub.t, v);
    F f;
    f.opts.style = TextOptions::Minified;
    std::string rest = f.encode(*inst, v.valid());
    Type k = p.type->k;
    auto isInt = [](Type k) { return k >= Type::int8 && k <= Type::uint64; };
    bool integral = isInt(k) || k == Type::property_set || k == Type::Enum;
    bool numeric = integral || k == Type::float32 || k == Type::float64 || k == Type::timepoint || k == Type::steady_timepoint || k == Type::duration;
    std::string bad;
    for (;;)
    {
        switch (c.s.below(8))
        {
            case 0: if (k == Type::string) continue; bad = "\"abc\""; break;
            case 1: if (k == Type::Vector) continue; bad = "[1]"; break;
            case 2: if (k == Type::Struct) continue; bad = "{\"a\":1}"; break;
            case 3: if (k == Type::boolean) continue; bad = c.s.boolean() ? "true" : "false"; break;
            case 4: if (numeric) continue; bad = "7"; break;
            case 5: if (!integral) continue; bad = c.s.boolean() ? "1.5" : "99999999999999999999999"; break;
            case 6:
                bad = k == Type::int8 ? "128" : k == Type::uint8 ? "256" : k == Type::int16 ? "-32769" : k == Type::uint16 ? "65536" : k == Type::int32 ? "2147483648" : k == Type::uint32 || k == Type::property_set ? "4294967296" : k == Type::int64 ? "9223372036854775808" : k == Type::uint64 ? "18446744073709551616" : "";
                if (bad.empty()) continue;
                break;
            default: bad = c.s.one<const char*>({ "", "nul", "'a'", "]", "+", "{", "\"", "tru" }); break;
        }
        break;
    }
    std::string body = rest.substr(1, rest.size() - 2);
    std::string member = "\"" + p.name + "\":" + bad;
    std::string in = body.empty() ? "{" + member + "}" : c.s.boolean() ? "{" + member + "," + body + "}" : "{" + body + "," + member + "}";
    c.log << show(*sub.t) << "\n  property " << p.name << " of type " << p.type->name() << " is given as " << bad << "\n  " << in;
    auto buf = exact(in);
    Instance out{ *sub.d };
    bool ok = false;
    try { f.decode(buf.get(), in.size(), *out, 0xFFFFFFFFu); ok = true; } catch (const std::exception&) { }
    if (ok) c.fail(cat("accepted, giving ", show(read(*out, *sub.t))));
    (void)read(*out, *sub.t);
    c.nontrivial();
}

// single values
template <typename T>
static void single(pbt::Ctx& c, const std::string& in)
{
    {
        T v{};
        Track t;
        try { dots::from_string(in, v); c.count("accepted"); } catch (const std::exception&) { c.count("rejected"); }
        size_t peak = t.peak();
        g_track = false;
        if (peak > 256 * 1024 + 8192 * in.size()) c.fail(cat("reading ", in.size(), " characters allocated ", peak, " bytes"));
    }
    T w{};
    try { dots::from_json(in, w); } catch (const std::exception&) { }
    T x{};
    auto buf = exact(in);
    try { CborSerializer s; s.setInput(reinterpret_cast<const uint8_t*>(buf.get()), in.size()); s.deserialize(x); } catch (const std::exception&) { }
    T y{};
    try { RapidJsonSerializer<>::Deserialize(in, y); } catch (const std::exception&) { }
}

static void values(pbt::Ctx& c)
{
    std::string in;
    size_t n = 1 + c.s.length(6);
    bool soup = !c.s.chance(1, 3);
    for (size_t i = 0; i < n; ++i) { if (soup) in += c.s.pick(oddTokens()); else in += static_cast<char>(c.s.draw(255)); }
    size_t k = c.s.below(16);
    c.log << "kind " << k << " text " << pbt::quote(in);
    c.nontrivial(in.size() >= 2);
    switch (k)
    {
        case 0: single<dots::bool_t>(c, in); break;
        case 1: single<dots::int8_t>(c, in); break;
        case 2: single<dots::uint16_t>(c, in); break;
        case 3: single<dots::int64_t>(c, in); break;
        case 4: single<dots::float32_t>(c, in); break;
        case 5: single<dots::float64_t>(c, in); break;
        case 6: single<dots::string_t>(c, in); break;
        case 7: single<dots::uuid_t>(c, in); break;
        case 8: single<dots::timepoint_t>(c, in); break;
        case 9: single<dots::duration_t>(c, in); break;
        case 10: single<dots::property_set_t>(c, in); break;
        case 11: single<VfColor>(c, in); break;
        case 12: single<dots::vector_t<dots::int32_t>>(c, in); break;
        case 13: single<dots::vector_t<dots::string_t>>(c, in); break;
        case 14: single<dots::vector_t<VfLeaf>>(c, in); break;
        default: single<dots::steady_timepoint_t>(c, in); break;
    }
}

// a serializer that reported an error works on the next input and output like a new one
template <typename Ser>
static void reuse(pbt::Ctx& c)
{
    constexpr bool Text = !std::is_same_v<Ser, CborSerializer> && !std::is_same_v<Ser, ExperimentalCborSerializer>;
    using ch = std::conditional_t<Text, char, uint8_t>;
    auto quoted = [](const auto& d) { std::string t{ d.begin(), d.end() }; return Text ? pbt::quote(t) : pbt::hex(t); };
    GenOpts o;
    o.plainTimes = true;
    o.rawText = false;
    Subject sub = genSubject(c.s, o);
    c.log << show(*sub.t);
    TextOptions opts;
    if constexpr (Text)
    {
        opts.style = c.s.one<TextOptions::Style>({ TextOptions::SingleLine, TextOptions::Minified, TextOptions::MultiLine });
        opts.policy = c.s.boolean() ? TextOptions::Strict : TextOptions::Relaxed;
    }
    auto make = [&]
    {
        if constexpr (Text) return Ser{ opts };
        else return Ser{};
    };
    Ser used = make();
    std::vector<std::shared_ptr<char[]>> inputs;
    bool failed = false, after = false;

    // the outcome of an operation: what it yields and whether it failed
    struct Outcome { bool failed = false; std::string what; };
    auto both = [&](const char* name, const std::function<Outcome(Ser&)>& f)
    {
        auto run = [&](Ser& ser) { Outcome r; try { r = f(ser); } catch (const std::exception&) { r.failed = true; } return r; };
        Ser fresh = make();
        Outcome a = run(fresh), b = run(used);
        if (b.failed) c.check(used.output().empty(), cat("a part of an object that cannot be encoded remains in the output: ", name));
        used.output().clear();
        after = after || (failed && !a.failed);
        c.check(a.failed == b.failed, cat("a serializer used before ", b.failed ? "fails" : "succeeds", " where a new one does not: ", name));
        if (!a.failed) c.check(a.what == b.what, cat("a serializer used before yields something else than a new one: ", name, "\n  ", b.what, "\n  ", a.what));
        failed = failed || a.failed;
    };
    auto feed = [&](Ser& ser, const std::string& in)
    {
        std::shared_ptr<char[]> m{ exact(in).release() };
        inputs.push_back(m);
        ser.setInput(reinterpret_cast<const ch*>(m.get()), in.size());
    };
    auto text = [](const auto& d) { return std::string{ d.begin(), d.end() }; };

    size_t n = 2 + c.s.length(5);
    for (size_t i = 0; i < n; ++i)
    {
        MValue v = genStruct(c.s, *sub.t, o);
        Instance inst{ *sub.d };
        write(*inst, *sub.t, v);
        uint32_t set = c.s.boolean() ? sub.t->all() : genSubset(c.s, sub.t->all());
        switch (c.s.weighted({ 6, 3, 2, 2, 2, 2 }))
        {
            case 0:
            {
                std::string in;
                if constexpr (Text) in = text(Ser::Serialize(*inst, property_set_t{ v.valid() }, opts));
                else in = text(Ser::Serialize(*inst, property_set_t{ v.valid() }));
                if (c.s.chance(1, 12)) in.clear();
                else if (c.s.boolean()) { if (Text) mutateTokens(c.s, in); else mutateBytes(c.s, in); }
                c.log << "\n  decode " << property_set_t{ set }.toString() << " of " << quoted(in);
                both("decode", [&](Ser& ser)
                {
                    feed(ser, in);
                    Instance out{ *sub.d };
                    size_t size = ser.deserialize(*out, property_set_t{ set });
                    return Outcome{ false, cat(size, " ", show(read(*out, *sub.t))) };
                });
                break;
            }
            case 1:
                c.log << "\n  encode " << property_set_t{ set }.toString() << " of " << show(v);
                both("encode", [&](Ser& ser) { ser.serialize(*inst, property_set_t{ set }); return Outcome{ false, quoted(ser.output()) }; });
                break;
            case 2:
            {
                // a value that has no enumerator
                VfAll all;
                all.id = 1;
                all.color = static_cast<VfColor>(12345);
                c.log << "\n  encode a value that has no enumerator";
                both("encode unknown enumerator", [&](Ser& ser) { ser.serialize(all, VfAll::id_p + VfAll::color_p); return Outcome{ false, quoted(ser.output()) }; });
                break;
            }
            case 3:
            {
                std::string in = c.s.one<std::string>({ "blue", "\"blue\"", "red", "VfColor::black", "7", "nope", "", "  green ", "x" });
                if (!Text) in = std::string(1, static_cast<char>(c.s.one<int>({ 7, 1, 2, 4, 5, 0x18, 0x60, 0xa0 })));
                c.log << "\n  decode the enumerator " << pbt::quote(in);
                both("decode enumerator", [&](Ser& ser) { feed(ser, in); VfColor v{}; size_t size = ser.deserialize(v); return Outcome{ false, cat(size, " ", static_cast<int64_t>(v)) }; });
                break;
            }
            case 4:
            {
                dots::string_t w = genText(c.s, o);
                c.log << "\n  text " << pbt::quote(w);
                both("text", [&](Ser& ser)
                {
                    ser.serialize(w);
                    std::string in = text(ser.output());
                    ser.output().clear();
                    feed(ser, in);
                    dots::string_t back;
                    size_t size = ser.deserialize(back);
                    return Outcome{ false, cat(pbt::quote(in), " ", size, " ", pbt::quote(back)) };
                });
                break;
            }
            default:
            {
                std::string in = c.s.one<std::string>({ "[1, 2]", "[1,2", "[", "[]", "1", "[1 2]", "{1}" });
                if (!Text) in = c.s.one<std::string>({ "\x82\x01\x02", "\x82\x01", "\x80", "\x01", "\x9f\x01\xff", "\x82\x01\x60" });
                c.log << "\n  decode the vector " << quoted(in);
                both("decode vector", [&](Ser& ser) { feed(ser, in); dots::vector_t<dots::int32_t> v; size_t size = ser.deserialize(v); std::string r = cat(size); for (auto x : v) r += cat(" ", x); return Outcome{ false, r }; });
                break;
            }
        }
    }
    c.nontrivial(after);
    c.count(after ? "after an error" : failed ? "errors only at the end" : "no error");
}

// ---- type descriptions from a peer

static void descriptions(pbt::Ctx& c)
{
    dots::type::Registry registry;
    dots::io::DescriptorConverter convert{ registry };
    std::vector<std::string> names{ "VzA", "VzB", "VzC", "VzE", "VzF" };
    std::vector<std::string> types{ "bool", "int8", "uint16", "int32", "float64", "string", "uuid", "timepoint", "property_set", "VfLeaf", "VfColor", "vector<VfColor>", "vector<int32>", "vector<string>", "vector<VfLeaf>", "vector<VfInner>" };
    std::vector<std::string> oddTypes{ "vector<", "vector<>", "vector", "xvector<int32>", "vector<vector<int32>>", "vector<nope>", "nope", "", "vector<int32", "vector<int32> ", "  vector<int32>", ">", "vector<VzA>x" };
    size_t n = 1 + c.s.length(5);
    for (size_t i = 0; i < n; ++i)
    {
        std::string name = c.s.pick(names);
        bool bad = c.s.boolean();
        if (c.s.chance(1, 3))
        {
            EnumDescriptorData d;
            if (!(bad && c.s.chance(1, 6))) d.name = name;
            if (!(bad && c.s.chance(1, 6)))
            {
                auto& es = d.elements.emplace();
                size_t m = c.s.length(4);
                for (size_t k = 0; k < m; ++k)
                {
                    EnumElementDescriptor e;
                    if (!(bad && c.s.chance(1, 6))) e.name = cat("e", c.s.chance(1, 8) ? 0 : k);
                    if (!(bad && c.s.chance(1, 6))) e.tag = static_cast<uint32_t>(c.s.chance(1, 8) ? c.s.interestingUint() : k + 1);
                    if (!(bad && c.s.chance(1, 6))) e.enum_value = static_cast<int32_t>(c.s.chance(1, 4) ? c.s.interestingInt() : static_cast<int64_t>(k));
                    es.emplace_back(e);
                }
            }
            c.log << "\n  " << dots::to_string(d, TextOptions{ TextOptions::SingleLine });
            try
            {
                auto& r = convert(d);
                bool known = false;
                for (auto& t : types) known = known || t == name;
                if (!known) types.push_back(name), types.push_back("vector<" + name + ">");
                c.check(d.name.isValid() && r.name() == *d.name, "the described enum has another name");
                if (d.elements.isValid()) for (auto& e : r.enumerators()) (void)r.enumeratorFromTag(e.tag());
                c.count("enum accepted");
            }
            catch (const std::exception& e) { c.count("enum rejected"); }
        }
        else
        {
            StructDescriptorData d;
            if (!(bad && c.s.chance(1, 8))) d.name = name;
            if (c.s.boolean()) { auto& f = d.flags.emplace(); if (c.s.boolean()) f.cached = c.s.boolean(); if (c.s.boolean()) f.cleanup = c.s.boolean(); if (c.s.boolean()) f.internal = c.s.boolean(); }
            if (!(bad && c.s.chance(1, 8)))
            {
                auto& ps = d.properties.emplace();
                size_t m = c.s.length(5);
                for (size_t k = 0; k < m; ++k)
                {
                    StructPropertyData p;
                    if (!(bad && c.s.chance(1, 8))) p.name = cat("p", c.s.chance(1, 10) ? 0 : k);
                    if (!(bad && c.s.chance(1, 8))) p.tag = static_cast<uint32_t>(bad && c.s.chance(1, 4) ? c.s.one<uint64_t>({ 0, 1, 2, 31, 32, 33, 64, 255, 0xFFFFFFFF }) : k + 1);
                    if (!(bad && c.s.chance(1, 8))) p.isKey = c.s.chance(1, 4);
                    if (!(bad && c.s.chance(1, 8))) p.type = bad && c.s.chance(1, 4) ? c.s.pick(oddTypes) : c.s.pick(types);
                    ps.emplace_back(p);
                }
            }
            c.log << "\n  " << dots::to_string(d, TextOptions{ TextOptions::SingleLine });
            try
            {
                auto& r = convert(d);
                bool known = false;
                for (auto& t : types) known = known || t == name;
                if (!known) types.push_back(name), types.push_back("vector<" + name + ">");
                c.check(d.name.isValid() && r.name() == *d.name, "the described type has another name");
                // whatever was accepted must be usable as a type
                StructP t = describeStruct(r);
                std::set<uint32_t> tags;
                for (auto& p : t->props) { c.check(p.tag < 32, "a tag outside of the allowed range was accepted"); c.check(tags.insert(p.tag).second, "two properties with the same tag were accepted"); }
                Subject sub;
                sub.t = t;
                sub.d = &r;
                GenOpts o;
                bool emptyEnum = false;
                std::function<void(const MType&)> scan = [&](const MType& t) { if (t.e && t.e->items.empty()) emptyEnum = true; if (t.elem) scan(*t.elem); if (t.s) for (auto& p : t.s->props) scan(*p.type); };
                for (auto& p : t->props) scan(*p.type);
                if (!emptyEnum)
                {
                    MValue v = genStruct(c.s, *t, o);
                    Instance a{ r }, b{ r };
                    write(*a, *t, v);
                    auto bytes = CborSerializer::Serialize(*a, property_set_t{ v.valid() });
                    CborSerializer s;
                    s.setInput(bytes.data(), bytes.size());
                    s.deserialize(*b);
                    std::set<std::pair<uint32_t, std::string>> enumTags;
                    MValue got = read(*b, *t);
                    c.check(got.valid() == v.valid(), "an object of the described type does not survive encoding");
                }
                c.count("struct accepted");
            }
            catch (const std::exception& e) { c.count("struct rejected"); }
        }
        c.nontrivial(bad);
    }
}

int main(int argc, char** argv)
{
    dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg);
    using Cbor = Binary<CborSerializer>;
    using Exp = Binary<ExperimentalCborSerializer>;
    using Json = Textual<JsonSerializer>;
    using Str = Textual<StringSerializer>;
    using Rap = Rapid<DefaultRapidJsonSerializerFormat>;
    using RapN = Rapid<NamedRapid>;
    pbt::Check check;
    check.property = "W12";
    check.rule = "malformed: the input has at least 4 bytes; truncated: the encoding has at least 8 bytes; mismatch: always; reuse: an operation succeeds after another one failed; descriptions: some part of a description may be missing or odd";
    check.init = init;
    check.subs = {
        { "cbor", malformed<Cbor>, 60000, 3000000, 20 },
        { "cbor-positional", malformed<Exp>, 20000, 1000000, 20 },
        { "json", malformed<Json>, 40000, 2000000, 20 },
        { "string", malformed<Str>, 40000, 2000000, 20 },
        { "rapidjson", malformed<Rap>, 20000, 1000000, 20 },
        { "rapidjson-named", malformed<RapN>, 15000, 700000, 20 },
        { "deep-cbor", deep<Cbor>, 300, 3000, 30 },
        { "deep-positional", deep<Exp>, 100, 1000, 30 },
        { "deep-json", deep<Json>, 300, 3000, 30 },
        { "deep-string", deep<Str>, 300, 3000, 30 },
        { "deep-rapidjson", deep<Rap>, 300, 3000, 30 },
        { "truncated-cbor", truncated<Cbor>, 20000, 800000, 20 },
        { "truncated-positional", truncated<Exp>, 8000, 300000, 20 },
        { "truncated-json", truncated<Json>, 12000, 500000, 20 },
        { "truncated-string", truncated<Str>, 12000, 500000, 20 },
        { "truncated-rapidjson", truncated<Rap>, 8000, 300000, 20 },
        { "mismatch-cbor", mismatchCbor, 20000, 800000, 20 },
        { "mismatch-json", mismatchJson<Json>, 12000, 500000, 20 },
        { "mismatch-rapidjson", mismatchJson<Rap>, 8000, 300000, 20 },
        { "values", values, 30000, 2000000, 20 },
        { "reuse-cbor", reuse<CborSerializer>, 10000, 400000, 20 },
        { "reuse-positional", reuse<ExperimentalCborSerializer>, 6000, 200000, 20 },
        { "reuse-json", reuse<JsonSerializer>, 8000, 300000, 20 },
        { "reuse-string", reuse<StringSerializer>, 8000, 300000, 20 },
        { "descriptions", descriptions, 15000, 600000, 20 },
    };
    check.assumptions = { "sanitizer builds (ASan, UBSan subset) observe out-of-bounds accesses and undefined conversions", "peak memory of a decode is bounded by 256 KiB + 8 KiB per input byte" };
    return pbt::run(argc, argv, check);
}
