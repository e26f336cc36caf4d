// W10: binary round trip of every object.
#include "subject.h"
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>

using namespace mdl;
using dots::property_set_t;
using pbt::cat;
using Bytes = std::vector<uint8_t>;

// what decoding `in` (restricted to `set`) into an object with value `old` yields: transmitted properties
// replace, nested objects are replaced property by property, everything else stays
static MValue overlay(const MValue& old, const MValue& in)
{
    MValue r = old;
    for (auto& [tag, v] : in.fields)
    {
        auto it = r.fields.find(tag);
        if (it != r.fields.end() && v.k == dots::type::Type::Struct) it->second = overlay(it->second, v);
        else r.fields[tag] = v;
    }
    return r;
}

static bool hasNested(const MValue& v)
{
    for (auto& [t, f] : v.fields) { if (f.k == dots::type::Type::Struct && !f.fields.empty()) return true; if (f.k == dots::type::Type::Vector && !f.items.empty()) return true; }
    return false;
}

template <typename Ser>
static void roundTrip(pbt::Ctx& c)
{
    GenOpts o;
    o.finiteFloats = !c.s.chance(1, 4);
    Subject sub = genSubject(c.s, o);
    size_t n = 1 + c.s.length(4);
    c.log << (sub.isDynamic ? "run-time type " : "generated type ") << show(*sub.t);

    Ser writer;
    std::vector<MValue> expected;
    std::vector<size_t> sizes;
    Bytes all;
    // optionally something is in front of the objects
    for (size_t i = 0; i < n; ++i)
    {
        MValue v = genStruct(c.s, *sub.t, o);
        uint32_t set = c.s.chance(1, 2) ? genSubset(c.s, sub.t->all()) : c.s.boolean() ? static_cast<uint32_t>(c.s.draw(0xFFFFFFFFu)) : 0xFFFFFFFFu;
        c.log << "\n  object " << show(v) << " set " << std::hex << set << std::dec;
        Instance inst{ *sub.d };
        write(*inst, *sub.t, v);
        Bytes one = Ser::Serialize(*inst, property_set_t{ set });
        if (c.s.chance(1, 8))
        {
            Bytes again = Ser::Serialize(*inst, property_set_t{ set });
            c.check(again == one, "encoding twice gives different bytes");
        }
        size_t sz = writer.serialize(*inst, property_set_t{ set });
        c.check(sz == one.size(), cat("serialize() reports ", sz, " bytes, the encoding has ", one.size()));
        c.check(same(read(*inst, *sub.t), v), "encoding changed the object");
        all.insert(all.end(), one.begin(), one.end());
        sizes.push_back(one.size());
        expected.push_back(restrict(v, set));
        if (expected.back().fields.size() >= 2 || hasNested(expected.back())) c.nontrivial();
    }
    c.check(writer.output() == all, "encoding several objects with one serializer differs from encoding each");

    // exact sized heap buffer, so that reading one byte too far is a sanitizer error
    std::unique_ptr<uint8_t[]> buf{ new uint8_t[all.size()] };
    std::memcpy(buf.get(), all.data(), all.size());
    Ser reader;
    reader.setInput(buf.get(), all.size());
    for (size_t i = 0; i < n; ++i)
    {
        Instance out{ *sub.d };
        MValue old = emptyStruct();
        unsigned mode = static_cast<unsigned>(c.s.weighted({ 4, 3, 2 }));
        uint32_t dset = 0xFFFFFFFFu;
        if (mode != 0)
        {
            old = genStruct(c.s, *sub.t, o);
            write(*out, *sub.t, old);
            c.log << "\n  into " << show(old);
            c.count("into existing object");
        }
        if (mode == 2 && std::is_same_v<Ser, dots::serialization::CborSerializer>)
        {
            dset = genSubset(c.s, sub.t->all());
            c.log << " decode set " << std::hex << dset << std::dec;
            c.count("decode subset");
        }
        size_t sz = reader.deserialize(*out, property_set_t{ dset });
        c.check(sz == sizes[i], cat("object ", i, ": decoding consumed ", sz, " bytes, encoding produced ", sizes[i]));
        MValue got = read(*out, *sub.t);
        MValue want = overlay(old, restrict(expected[i], dset));
        if (!same(got, want)) c.fail(cat("object ", i, " decodes differently: got vs expected ", firstDifference(got, want)));
        c.check(reader.inputAvailable() == [&] { size_t r = 0; for (size_t k = i + 1; k < n; ++k) r += sizes[k]; return r; }(), "wrong number of bytes left");
    }
    c.count(sub.isDynamic ? "run-time type" : "generated type");
}

// the generated type's C++ accessors and free functions see the same data
static void typedApi(pbt::Ctx& c)
{
    GenOpts o;
    static const StructP t = describeStruct(VfAll::_Descriptor());
    MValue v = genStruct(c.s, *t, o);
    uint32_t set = c.s.boolean() ? 0xFFFFFFFFu : genSubset(c.s, t->all());
    c.log << "VfAll " << show(v) << " set " << std::hex << set;
    VfAll a;
    write(a, *t, v);
    auto data = dots::to_cbor(a, property_set_t{ set });
    VfAll b = dots::from_cbor<VfAll>(data);
    MValue want = restrict(v, set);
    if (!same(read(b, *t), want)) c.fail(cat("to_cbor/from_cbor: ", firstDifference(read(b, *t), want)));
    auto data2 = dots::to_cbor(a);
    VfAll d;
    size_t n = dots::from_cbor(data2.data(), data2.size(), d);
    c.check(n == data2.size(), "from_cbor consumed a wrong number of bytes");
    if (!same(read(d, *t), v)) c.fail(cat("to_cbor/from_cbor without set: ", firstDifference(read(d, *t), v)));
    // direct access
    if (v.fields.count(1) && *d.id != static_cast<int32_t>(v.fields[1].i())) c.fail("typed accessor id differs");
    if (v.fields.count(17) && *d.str != v.fields[17].s) c.fail("typed accessor str differs");
    if (v.fields.count(21))
    {
        auto& vec = *d.vint;
        c.check(vec.size() == v.fields[21].items.size(), "typed vector size differs");
        for (size_t i = 0; i < vec.size(); ++i) c.check(vec[i] == v.fields[21].items[i].i(), "typed vector item differs");
    }
    if (v.fields.count(20))
    {
        auto& vec = *d.vbool;
        for (size_t i = 0; i < vec.size(); ++i) c.check(static_cast<bool>(vec[i]) == (v.fields[20].items[i].u != 0), "typed bool vector item differs");
    }
    // and an object filled through the typed interface encodes like the model's
    VfAll e;
    for (auto& [tag, f] : v.fields)
    {
        switch (tag)
        {
            case 1: e.id = static_cast<int32_t>(f.i()); break;
            case 2: e.boolean = f.u != 0; break;
            case 3: e.i8 = static_cast<int8_t>(f.i()); break;
            case 9: e.u64 = f.u; break;
            case 10: e.f32 = static_cast<float>(f.d); break;
            case 11: e.f64 = f.d; break;
            case 17: e.str = f.s; break;
            case 18: e.color = static_cast<VfColor>(static_cast<int32_t>(f.i())); break;
            case 23: { dots::vector_t<dots::string_t> x; for (auto& i : f.items) x.push_back(i.s); e.vstr = std::move(x); break; }
            case 20: { dots::vector_t<dots::bool_t> x; for (auto& i : f.items) x.push_back(i.u != 0); e.vbool = x; break; }
            case 31: { VfLeaf l; if (f.fields.count(1)) l.a = static_cast<int32_t>(f.fields.at(1).i()); if (f.fields.count(2)) l.b = f.fields.at(2).s; if (f.fields.count(3)) l.c = f.fields.at(3).u != 0; e.leaf = l; break; }
        }
    }
    uint32_t sub = 1u << 1 | 1u << 2 | 1u << 3 | 1u << 9 | 1u << 10 | 1u << 11 | 1u << 17 | 1u << 18 | 1u << 20 | 1u << 23 | 1u << 31;
    c.check(dots::to_cbor(e) == dots::to_cbor(a, property_set_t{ sub }), "object filled through its accessors encodes differently");
    c.nontrivial(v.fields.size() >= 2);
}

// values that are not objects
template <typename T>
static void valueTrip(pbt::Ctx& c, const T& v, const char* name)
{
    auto data = dots::to_cbor(v);
    T r = T{};
    size_t n = dots::from_cbor(data.data(), data.size(), r);
    c.check(n == data.size(), cat(name, ": wrong number of bytes consumed"));
    c.check(std::memcmp(&r, &v, sizeof v) == 0, cat(name, " value does not round trip"));
    auto data2 = dots::to_cbor_experimental(v);
    T r2 = T{};
    n = dots::from_cbor_experimental(data2.data(), data2.size(), r2);
    c.check(n == data2.size(), cat(name, " (experimental): wrong number of bytes consumed"));
    c.check(std::memcmp(&r2, &v, sizeof v) == 0, cat(name, " (experimental) value does not round trip"));
    c.nontrivial();
}

static void values(pbt::Ctx& c)
{
    GenOpts o;
    o.finiteFloats = false;
    switch (c.s.below(16))
    {
        case 0: { auto v = static_cast<int8_t>(c.s.interestingInt()); c.log << "int8 " << int(v); valueTrip(c, v, "int8"); break; }
        case 1: { auto v = static_cast<uint8_t>(c.s.interestingUint()); c.log << "uint8 " << int(v); valueTrip(c, v, "uint8"); break; }
        case 2: { auto v = static_cast<int16_t>(c.s.interestingInt()); c.log << "int16 " << v; valueTrip(c, v, "int16"); break; }
        case 3: { auto v = static_cast<uint16_t>(c.s.interestingUint()); c.log << "uint16 " << v; valueTrip(c, v, "uint16"); break; }
        case 4: { auto v = static_cast<int32_t>(c.s.interestingInt()); c.log << "int32 " << v; valueTrip(c, v, "int32"); break; }
        case 5: { auto v = static_cast<uint32_t>(c.s.interestingUint()); c.log << "uint32 " << v; valueTrip(c, v, "uint32"); break; }
        case 6: { auto v = static_cast<int64_t>(c.s.interestingInt()); c.log << "int64 " << v; valueTrip(c, v, "int64"); break; }
        case 7: { auto v = static_cast<uint64_t>(c.s.interestingUint()); c.log << "uint64 " << v; valueTrip(c, v, "uint64"); break; }
        case 8: { auto v = c.s.boolean(); c.log << "bool " << v; valueTrip(c, v, "bool"); break; }
        case 9: { auto v = genDouble(c.s, o); c.log << "float64 " << v; valueTrip(c, v, "float64"); break; }
        case 10: { uint32_t b = static_cast<uint32_t>(c.s.draw(0xFFFFFFFFu)); float v; std::memcpy(&v, &b, 4); if (v != v) c.discard(); c.log << "float32 " << v; valueTrip(c, v, "float32"); break; }
        case 11: { dots::property_set_t v{ static_cast<uint32_t>(c.s.interestingUint()) }; c.log << "set " << v.toValue(); valueTrip(c, v, "property_set"); break; }
        case 12: { dots::timepoint_t v{ dots::duration_t{ genDouble(c.s, o) } }; c.log << "timepoint " << v.time_since_epoch().count(); valueTrip(c, v, "timepoint"); break; }
        case 13: { dots::duration_t v{ genDouble(c.s, o) }; c.log << "duration " << v.count(); valueTrip(c, v, "duration"); break; }
        case 14: { auto v = c.s.one<VfColor>({ VfColor::red, VfColor::green, VfColor::blue, VfColor::violet, VfColor::black }); c.log << "enum " << int(v); valueTrip(c, v, "enum"); break; }
        default:
        {
            std::string v = genText(c.s, o);
            c.log << "string " << pbt::quote(v);
            auto data = dots::to_cbor(v);
            c.check(dots::from_cbor<std::string>(data) == v, "string does not round trip");
            auto d2 = dots::to_cbor_experimental(v);
            c.check(dots::from_cbor_experimental<std::string>(d2) == v, "string does not round trip (experimental)");
            c.nontrivial(!v.empty());
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "W10";
    check.rule = "an object case is non-trivial if some encoded object has at least two transmitted properties or a non-empty nested object or list; a value case always is";
    check.subs = {
        { "cbor", roundTrip<dots::serialization::CborSerializer>, 160000, 4000000 },
        { "experimental", roundTrip<dots::serialization::ExperimentalCborSerializer>, 60000, 1500000 },
        { "typed", typedApi, 60000, 1000000 },
        { "values", values, 40000, 800000 },
    };
    check.assumptions = { "objects are written and read through the property area accessors, independently of any serializer" };
    return pbt::run(argc, argv, check);
}
