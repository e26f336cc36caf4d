// W13: text formats round-trip and agree with standard JSON.
#include "subject.h"
#include "jsonref.h"
#include <cmath>
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/serialization/StringSerializer.h>

using namespace mdl;
using namespace dots::serialization;
using dots::property_set_t;
using dots::type::Type;
using pbt::cat;
using jsonref::Value;

// ---- formats with the other documented notations of times and enumerators
struct NamedJsonFormat : TextSerializerFormat
{
    using reader_t = JsonReader;
    using writer_t = JsonWriter;
    static constexpr PropertySetFormat PropertySetFormat = PropertySetFormat::DecimalValue;
    static constexpr TimepointFormat TimepointFormat = TimepointFormat::ISO8601String;
    static constexpr EnumFormat EnumFormat = EnumFormat::String;
};
struct NamedJsonSerializer : TextSerializer<NamedJsonFormat, NamedJsonSerializer>
{
    using base_t = TextSerializer<NamedJsonFormat, NamedJsonSerializer>;
    using data_t = std::string;
    using base_t::base_t;
};
struct NamedRapidFormat : RapidJsonSerializerFormat<>
{
    static constexpr TimepointFormat TimepointFormat = TimepointFormat::ISO8601String;
    static constexpr EnumFormat EnumFormat = EnumFormat::String;
};

// "up to the documented resolution": ISO times have milliseconds, everything else is exact (zero has no sign)
static bool textEqual(const MValue& a, const MValue& b, bool isoTime)
{
    if (a.k != b.k) return false;
    switch (a.k)
    {
        case Type::float32: case Type::float64: case Type::steady_timepoint: case Type::duration: return a.d == b.d || (std::isnan(a.d) && std::isnan(b.d));
        case Type::timepoint: return a.d == b.d || (std::isnan(a.d) && std::isnan(b.d)) || (isoTime && std::fabs(a.d - b.d) < 0.001 + 1e-6);
        case Type::Vector:
            if (a.items.size() != b.items.size()) return false;
            for (size_t i = 0; i < a.items.size(); ++i) if (!textEqual(a.items[i], b.items[i], isoTime)) return false;
            return true;
        case Type::Struct:
            if (a.valid() != b.valid()) return false;
            for (auto& [t, v] : a.fields) if (!textEqual(v, b.fields.at(t), isoTime)) return false;
            return true;
        default: return same(a, b);
    }
}

static MValue overlay(const MValue& old, const MValue& in)
{
    MValue r = old;
    for (auto& [tag, v] : in.fields)
    {
        auto it = r.fields.find(tag);
        if (it != r.fields.end() && v.k == Type::Struct) it->second = overlay(it->second, v);
        else r.fields[tag] = v;
    }
    return r;
}

// what decoding the text of `in` with included properties `set` into `old`, limited to `dset`, yields
static MValue decoded(const StructT& t, const MValue& old, const MValue& in, uint32_t set, uint32_t dset)
{
    uint32_t eff = set & dset & t.all();
    MValue r = overlay(old, restrict(in, eff));
    for (auto& p : t.props) if ((eff >> p.tag & 1) && in.fields.count(p.tag) == 0) r.fields.erase(p.tag);
    return r;
}

// ---- JSON meaning

static bool sameNumber(const std::string& text, double d, bool single)
{
    if (single) return std::strtof(text.c_str(), nullptr) == static_cast<float>(d);
    return std::strtod(text.c_str(), nullptr) == d;
}

static std::string uuidText(const std::string& b)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < 16; ++i)
    {
        if (i == 4 || i == 6 || i == 8 || i == 10) r += '-';
        r += d[static_cast<unsigned char>(b[i]) >> 4];
        r += d[static_cast<unsigned char>(b[i]) & 15];
    }
    return r;
}

static void compareJson(const Value& j, const MValue& v, const MType& t, bool named, const std::string& path);

static void compareJsonStruct(const Value& j, const MValue& v, const StructT& t, uint32_t set, bool named, const std::string& path)
{
    auto need = [&](bool ok, const std::string& what) { if (!ok) throw std::logic_error{ path + ": " + what }; };
    need(j.k == Value::Object, "expected an object");
    size_t n = 0;
    for (auto& p : t.props)
    {
        if (!(set >> p.tag & 1)) continue;
        ++n;
        const Value* m = j.find(p.name);
        need(m != nullptr, "no member " + p.name);
        auto it = v.fields.find(p.tag);
        if (it == v.fields.end()) need(m->k == Value::Null, "member " + p.name + " should be null");
        else compareJson(*m, it->second, *p.type, named, path + "." + p.name);
    }
    need(n == j.names.size(), "members that were not selected");
}

static void compareJson(const Value& j, const MValue& v, const MType& t, bool named, const std::string& path)
{
    auto need = [&](bool ok, const std::string& what) { if (!ok) throw std::logic_error{ path + ": expected " + what }; };
    switch (t.k)
    {
        case Type::boolean: need(j.k == Value::Bool && j.b == (v.u != 0), "the boolean"); break;
        case Type::int8: case Type::int16: case Type::int32: case Type::int64: need(j.k == Value::Number && j.s == std::to_string(v.i()), std::to_string(v.i())); break;
        case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: need(j.k == Value::Number && j.s == std::to_string(v.u), std::to_string(v.u)); break;
        case Type::float32: need(j.k == Value::Number && sameNumber(j.s, v.d, true), cat(v.d)); break;
        case Type::timepoint:
            if (named) { need(j.k == Value::String, "a time as string"); break; }
            [[fallthrough]];
        case Type::float64: case Type::steady_timepoint: case Type::duration: need(j.k == Value::Number && sameNumber(j.s, v.d, false), cat(v.d)); break;
        case Type::uuid: need(j.k == Value::String && j.s == uuidText(v.s), "uuid " + uuidText(v.s)); break;
        case Type::string: need(j.k == Value::String && j.s == v.s, "the string " + pbt::quote(v.s)); break;
        case Type::Enum:
        {
            auto& it = t.e->byValue(static_cast<int32_t>(v.i()));
            if (named) need(j.k == Value::String && j.s == it.name, "enumerator " + it.name);
            else need(j.k == Value::Number && j.s == std::to_string(it.tag), cat("enumerator tag ", it.tag));
            break;
        }
        case Type::Vector:
            need(j.k == Value::Array && j.items.size() == v.items.size(), cat("an array of ", v.items.size()));
            for (size_t i = 0; i < v.items.size(); ++i) compareJson(j.items[i], v.items[i], *t.elem, named, cat(path, "[", i, "]"));
            break;
        case Type::Struct: compareJsonStruct(j, v, *t.s, v.valid(), named, path); break;
    }
}

static const std::vector<std::pair<const char*, TextOptions::Style>> Styles{ { "SingleLine", TextOptions::SingleLine }, { "Minified", TextOptions::Minified }, { "MultiLine", TextOptions::MultiLine } };

static std::unique_ptr<char[]> exact(const std::string& s)
{
    std::unique_ptr<char[]> b{ new char[s.size() + (s.empty() ? 1 : 0)] };
    std::memcpy(b.get(), s.data(), s.size());
    return b;
}

static bool rich(const MValue& v)
{
    return v.fields.size() >= 2;
}

template <typename Ser, bool Json, bool Iso>
static void roundTrip(pbt::Ctx& c)
{
    GenOpts o;
    o.plainTimes = Iso;
    o.finiteFloats = Json || !c.s.chance(1, 5);
    o.rawText = !Json;
    Subject sub = genSubject(c.s, o);
    auto& [styleName, style] = c.s.pick(Styles);
    TextOptions opts;
    opts.style = style;
    // Strict demands the full notation, which is that of the MultiLine style
    opts.policy = (Json || style == TextOptions::MultiLine) && c.s.boolean() ? TextOptions::Strict : TextOptions::Relaxed;
    if (c.s.chance(1, 4)) opts.indentSize = static_cast<size_t>(c.s.range(0, 9));
    size_t n = 1 + c.s.length(3);
    c.log << (sub.isDynamic ? "run-time type " : "generated type ") << show(*sub.t) << " style " << styleName << (opts.policy == TextOptions::Strict ? " strict" : "") << " indent " << opts.indentSize;

    Ser writer{ opts };
    std::vector<MValue> values;
    std::vector<uint32_t> sets;
    std::vector<size_t> sizes;
    std::string all;
    for (size_t i = 0; i < n; ++i)
    {
        MValue v = genStruct(c.s, *sub.t, o);
        uint32_t set = c.s.chance(1, 2) ? genSubset(c.s, sub.t->all()) : c.s.chance(1, 3) ? 0xFFFFFFFFu : v.valid();
        c.log << "\n  object " << show(v) << " set " << std::hex << set << std::dec;
        Instance inst{ *sub.d };
        write(*inst, *sub.t, v);
        std::string one = Ser::Serialize(*inst, property_set_t{ set }, opts);
        size_t sz = writer.serialize(*inst, property_set_t{ set });
        c.check(sz == one.size(), cat("serialize() reports ", sz, " characters, the text has ", one.size()));
        c.check(same(read(*inst, *sub.t), v), "encoding changed the object");
        if (Json)
        {
            try { compareJsonStruct(Value(jsonref::Parser::parse(one)), v, *sub.t, set & sub.t->all(), Iso, ""); }
            catch (const std::exception& e) { c.fail(cat("not the standard JSON of the object: ", e.what(), "\n  ", one)); }
        }
        all += one;
        sizes.push_back(sz);
        values.push_back(v);
        sets.push_back(set);
        c.nontrivial(rich(restrict(v, set)));
    }
    c.check(writer.output() == all, "encoding several objects with one serializer differs from encoding each");

    auto buf = exact(all);
    Ser reader{ opts };
    reader.setInput(buf.get(), all.size());
    for (size_t i = 0; i < n; ++i)
    {
        Instance out{ *sub.d };
        MValue old = emptyStruct();
        uint32_t dset = 0xFFFFFFFFu;
        if (c.s.boolean())
        {
            old = genStruct(c.s, *sub.t, o);
            write(*out, *sub.t, old);
            c.log << "\n  into " << show(old);
            c.count("into existing object");
            if (c.s.boolean()) { dset = genSubset(c.s, sub.t->all()); c.log << " decode set " << std::hex << dset << std::dec; c.count("decode subset"); }
        }
        size_t sz = 0;
        try { sz = reader.deserialize(*out, property_set_t{ dset }); }
        catch (const std::exception& e) { c.fail(cat("object ", i, " is rejected: ", e.what(), "\n  ", all)); }
        MValue got = read(*out, *sub.t);
        MValue want = decoded(*sub.t, old, values[i], sets[i], dset);
        if (!textEqual(got, want, Iso)) c.fail(cat("object ", i, " decodes differently: got vs expected ", firstDifference(got, want), "\n  ", all));
        c.check(sz == sizes[i], cat("object ", i, ": decoding consumed ", sz, " characters, encoding produced ", sizes[i]));
    }
    c.count(sub.isDynamic ? "run-time type" : "generated type");
    c.count(styleName);
}

// RapidJSON based serializer
template <typename Format, bool Iso>
static void rapid(pbt::Ctx& c)
{
    using Ser = RapidJsonSerializer<Format>;
    GenOpts o;
    o.plainTimes = Iso;
    o.rawText = false;
    Subject sub = genSubject(c.s, o);
    MValue v = genStruct(c.s, *sub.t, o);
    uint32_t set = c.s.chance(1, 2) ? genSubset(c.s, sub.t->all()) : v.valid();
    MValue old = emptyStruct();
    Instance inst{ *sub.d }, out{ *sub.d };
    write(*inst, *sub.t, v);
    uint32_t dset = 0xFFFFFFFFu;
    if (c.s.boolean()) old = genStruct(c.s, *sub.t, o);
    if (c.s.chance(1, 3)) dset = genSubset(c.s, sub.t->all());
    write(*out, *sub.t, old);
    c.log << show(*sub.t) << "\n  " << show(v) << " set " << std::hex << set << " into " << show(old) << " decode set " << dset << std::dec;
    std::string text = Ser::Serialize(*inst, property_set_t{ set });
    try { compareJsonStruct(jsonref::Parser::parse(text), v, *sub.t, set & sub.t->all(), Iso, ""); }
    catch (const std::exception& e) { c.fail(cat("not the standard JSON of the object: ", e.what(), "\n  ", text)); }
    auto buf = exact(text);
    try
    {
        Ser reader{ std::string_view{ buf.get(), text.size() } };
        reader.deserialize(*out, property_set_t{ dset });
    }
    catch (const std::exception& e) { c.fail(cat("rejected: ", e.what(), "\n  ", text)); }
    MValue got = read(*out, *sub.t), want = decoded(*sub.t, old, v, set, dset);
    if (!textEqual(got, want, Iso)) c.fail(cat("decodes differently: got vs expected ", firstDifference(got, want), "\n  ", text));
    c.nontrivial(rich(restrict(v, set)));
}

// ---- JSON of a foreign writer

struct Foreign
{
    pbt::Ctx& c;
    jsonref::Writer w;
    bool shuffle, unknown;

    void value(const MValue& v, const MType& t)
    {
        switch (t.k)
        {
            case Type::boolean: w.out += v.u ? "true" : "false"; break;
            case Type::int8: case Type::int16: case Type::int32: case Type::int64: w.out += v.u == 0 && w.s.chance(1, 4) ? "-0" : std::to_string(v.i()); break;
            case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: w.out += std::to_string(v.u); break;
            case Type::float32: case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration:
                if (v.d == std::floor(v.d) && std::fabs(v.d) < 1e9 && w.s.boolean()) w.out += std::to_string(static_cast<int64_t>(v.d));
                else w.real(v.d, t.k == Type::float32);
                break;
            case Type::uuid:
            {
                std::string u = uuidText(v.s);
                if (w.s.chance(1, 3)) for (char& ch : u) ch = static_cast<char>(std::toupper(ch));
                w.out += '"' + u + '"';
                break;
            }
            case Type::string: w.string(v.s); break;
            case Type::Enum: w.out += std::to_string(t.e->byValue(static_cast<int32_t>(v.i())).tag); break;
            case Type::Vector:
                w.out += '['; w.ws();
                for (size_t i = 0; i < v.items.size(); ++i) { if (i) { w.out += ','; w.ws(); } value(v.items[i], *t.elem); w.ws(); }
                w.out += ']';
                break;
            case Type::Struct: object(v, *t.s, 0); break;
        }
    }

    void object(const MValue& v, const StructT& t, uint32_t nulls)
    {
        struct M { const MProp* p; bool null; };
        std::vector<M> ms;
        for (auto& p : t.props)
        {
            if (v.fields.count(p.tag)) ms.push_back({ &p, false });
            else if (nulls >> p.tag & 1) ms.push_back({ &p, true });
        }
        if (unknown) { size_t n = w.s.length(3); for (size_t i = 0; i < n; ++i) ms.push_back({ nullptr, false }); }
        if (shuffle) for (size_t i = ms.size(); i > 1; --i) std::swap(ms[i - 1], ms[i - 1 - w.s.below(i)]);
        w.out += '{'; w.ws();
        size_t i = 0;
        for (auto& m : ms)
        {
            if (i) { w.out += ','; w.ws(); }
            w.out += '"' + (m.p ? m.p->name : cat("zzUnknown_", i)) + '"';
            w.ws(); w.out += ':'; w.ws();
            if (m.p == nullptr) { w.anything(3); c.count("unknown member"); }
            else if (m.null) w.out += "null";
            else value(v.fields.at(m.p->tag), *m.p->type);
            w.ws();
            ++i;
        }
        w.out += '}';
    }
};

static void foreign(pbt::Ctx& c)
{
    GenOpts o;
    o.rawText = false;
    Subject sub = genSubject(c.s, o);
    MValue v = genStruct(c.s, *sub.t, o);
    uint32_t nulls = c.s.boolean() ? genSubset(c.s, sub.t->all()) : 0;
    MValue old = c.s.boolean() ? genStruct(c.s, *sub.t, o) : emptyStruct();
    uint32_t dset = c.s.chance(1, 3) ? genSubset(c.s, sub.t->all()) : 0xFFFFFFFFu;
    Foreign f{ c, { c.s }, c.s.boolean(), c.s.boolean() };
    f.w.plain = c.s.chance(1, 4);
    f.w.ws();
    f.object(v, *sub.t, nulls);
    f.w.ws();
    const std::string& text = f.w.out;
    c.log << show(*sub.t) << "\n  " << show(v) << " into " << show(old) << " decode set " << std::hex << dset << std::dec << "\n  " << text;
    try { jsonref::Parser::parse(text); } catch (const std::exception& e) { c.fail(cat("HARNESS: own writer is wrong: ", e.what())); }
    MValue want = decoded(*sub.t, old, v, v.valid() | nulls, dset);
    auto buf = exact(text);
    {
        Instance out{ *sub.d };
        write(*out, *sub.t, old);
        try
        {
            TextOptions opts;
            opts.policy = c.s.boolean() ? TextOptions::Strict : TextOptions::Relaxed;
            JsonSerializer r{ opts };
            r.setInput(buf.get(), text.size());
            r.deserialize(*out, property_set_t{ dset });
        }
        catch (const std::exception& e) { c.fail(cat("JsonSerializer rejects standard JSON: ", e.what())); }
        if (MValue got = read(*out, *sub.t); !textEqual(got, want, false)) c.fail(cat("JsonSerializer: got vs expected ", firstDifference(got, want)));
    }
    {
        Instance out{ *sub.d };
        write(*out, *sub.t, old);
        try
        {
            RapidJsonSerializer<> r{ std::string_view{ buf.get(), text.size() } };
            r.deserialize(*out, property_set_t{ dset });
        }
        catch (const std::exception& e) { c.fail(cat("RapidJsonSerializer rejects standard JSON: ", e.what())); }
        if (MValue got = read(*out, *sub.t); !textEqual(got, want, false)) c.fail(cat("RapidJsonSerializer: got vs expected ", firstDifference(got, want)));
    }
    c.nontrivial(rich(v) && (f.shuffle || f.unknown || !f.w.plain));
}

// ---- values outside of objects and the convenience functions

template <typename T>
static void value(pbt::Ctx& c)
{
    GenOpts o;
    o.rawText = false;
    o.plainTimes = true;
    const auto& d = dots::type::Descriptor<T>::Instance();
    TypeP t = describe(d);
    MValue v = genValue(c.s, *t, o);
    // the text of a lone string is the string itself
    if (t->k == Type::string && (v.s.empty() || static_cast<unsigned char>(v.s[0]) <= ' ')) v.s = "x" + v.s;
    T a{};
    writeTypeless(*dots::type::Typeless::From(&a), d, *t, v);
    auto& [styleName, style] = c.s.pick(Styles);
    TextOptions opts;
    opts.style = style;
    opts.policy = style == TextOptions::MultiLine && c.s.boolean() ? TextOptions::Strict : TextOptions::Relaxed;
    c.log << d.name() << " " << show(v) << " " << styleName;
    std::string str = dots::to_string(a, opts), js = dots::to_json(a, opts);
    c.log << "\n  " << str << "\n  " << js;
    c.check(dots::to_string(a, d, opts) == str, "to_string with and without descriptor differ");
    auto get = [&](const T& x) { return readTypeless(*dots::type::Typeless::From(&x), d, *t); };
    try
    {
        T b = dots::from_string<T>(str, opts);
        if (!textEqual(get(b), v, true)) c.fail(cat("from_string gives ", show(get(b))));
        T e{};
        c.check(dots::from_string(str, e, opts) == str.size() && textEqual(get(e), v, true), "from_string into a variable differs");
        T f = dots::from_json<T>(js);
        if (!textEqual(get(f), v, false)) c.fail(cat("from_json gives ", show(get(f))));
    }
    catch (const std::exception& e) { c.fail(cat("rejected: ", e.what())); }
    if (t->k != Type::string && t->k != Type::uuid)
    {
        try { compareJson(jsonref::Parser::parse(js), v, *t, false, ""); }
        catch (const std::exception& e) { c.fail(cat("not the standard JSON of the value: ", e.what())); }
    }
    c.nontrivial(t->k != Type::Vector || v.items.size() > 1);
    c.count(d.name());
}

using dots::vector_t;
template <typename... Ts>
static const std::vector<void (*)(pbt::Ctx&)> valueTests{ value<Ts>..., value<vector_t<Ts>>... };

static void values(pbt::Ctx& c)
{
    c.s.pick(valueTests<dots::bool_t, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, dots::float32_t, dots::float64_t,
        dots::property_set_t, dots::timepoint_t, dots::steady_timepoint_t, dots::duration_t, dots::uuid_t, dots::string_t, VfColor>)(c);
}

static void typedApi(pbt::Ctx& c)
{
    GenOpts o;
    o.rawText = false;
    o.plainTimes = true;
    static const StructP t = describeStruct(VfAll::_Descriptor());
    MValue v = genStruct(c.s, *t, o);
    VfAll a;
    write(a, *t, v);
    uint32_t set = c.s.boolean() ? v.valid() : genSubset(c.s, t->all());
    TextOptions opts;
    opts.style = c.s.pick(Styles).second;
    c.log << show(v) << " set " << std::hex << set << std::dec;
    auto cmp = [&](const VfAll& b, const MValue& want, bool iso, const char* what) { if (!textEqual(read(b, *t), want, iso)) c.fail(cat(what, ": ", firstDifference(read(b, *t), want))); };
    try
    {
        cmp(dots::from_json<VfAll>(dots::to_json(a, opts)), v, false, "to_json/from_json");
        cmp(dots::from_json<VfAll>(dots::to_json(a, property_set_t{ set }, opts)), restrict(v, set), false, "to_json(set)/from_json");
        cmp(dots::from_string<VfAll>(dots::to_string(a, opts), opts), v, true, "to_string/from_string");
        cmp(dots::from_string<VfAll>(dots::to_string(a, property_set_t{ set }, opts), opts), restrict(v, set), true, "to_string(set)/from_string");
        VfAll b;
        RapidJsonSerializer<>::Deserialize(RapidJsonSerializer<>::Serialize(a), b);
        cmp(b, v, false, "RapidJsonSerializer");
    }
    catch (const std::exception& e) { c.fail(cat("rejected: ", e.what())); }
    c.nontrivial(rich(v));
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "W13";
    check.rule = "the text carries at least two valid properties (values: a vector of at least two, or a scalar; foreign: also not in canonical form)";
    check.assumptions = { "JSON: finite numbers, text is UTF-8, member names are written without escapes, unknown members have identifier names",
        "string notation: calendar times within 1970..2200; strict input policy only with the MultiLine style that writes the full notation" };
    check.subs = {
        { "json", roundTrip<JsonSerializer, true, false>, 50000, 3000000 },
        { "json with names", roundTrip<NamedJsonSerializer, true, true>, 15000, 1000000 },
        { "string", roundTrip<StringSerializer, false, true>, 50000, 3000000 },
        { "rapidjson", rapid<DefaultRapidJsonSerializerFormat, false>, 40000, 3000000 },
        { "rapidjson with names", rapid<NamedRapidFormat, true>, 15000, 1000000 },
        { "foreign json", foreign, 60000, 4000000 },
        { "values", values, 60000, 3000000 },
        { "typed api", typedApi, 15000, 1000000 },
    };
    return pbt::run(argc, argv, check);
}
