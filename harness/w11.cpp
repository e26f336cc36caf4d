// W11: the binary format is plain CBOR and interoperates with any conforming peer.
#include "subject.h"
#include "cborref.h"
#include <dots/serialization/CborSerializer.h>

using namespace mdl;
using dots::property_set_t;
using dots::type::Type;
using pbt::cat;
using Bytes = std::vector<uint8_t>;
using cborref::Item;

static void fromItem(const Item& it, const MType& t, MValue& v, const std::string& path);

static MValue structFromItem(const Item& it, const StructT& t, const std::string& path)
{
    MValue v = emptyStruct();
    if (it.k != Item::Map) throw std::logic_error{ path + ": not a map" };
    for (size_t i = 0; i < it.items.size(); i += 2)
    {
        if (it.items[i].k != Item::Uint) throw std::logic_error{ path + ": key is not an unsigned integer" };
        uint64_t tag = it.items[i].u;
        if (v.fields.count(static_cast<uint32_t>(tag))) throw std::logic_error{ cat(path, ": duplicate key ", tag) };
        const MProp* p = tag < 32 ? t.find(static_cast<uint32_t>(tag)) : nullptr;
        if (p == nullptr) throw std::logic_error{ cat(path, ": key ", tag, " is no tag of the type") };
        fromItem(it.items[i + 1], *p->type, v.fields[p->tag], cat(path, ".", tag));
    }
    return v;
}

static void fromItem(const Item& it, const MType& t, MValue& v, const std::string& path)
{
    v.k = t.k;
    auto need = [&](bool ok, const char* what) { if (!ok) throw std::logic_error{ cat(path, ": expected ", what) }; };
    switch (t.k)
    {
        case Type::boolean: need(it.k == Item::Simple && (it.u == 20 || it.u == 21), "a boolean"); v.u = it.u == 21; break;
        case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: need(it.k == Item::Uint, "an unsigned integer"); v.u = it.u; break;
        case Type::int8: case Type::int16: case Type::int32: case Type::int64:
            need((it.k == Item::Uint || it.k == Item::Nint) && it.u <= 0x7fffffffffffffffull, "an integer");
            v.u = it.k == Item::Uint ? it.u : ~it.u;
            break;
        case Type::float32: case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: need(it.k == Item::Float, "a float"); v.d = it.d; break;
        case Type::uuid: need(it.k == Item::Bytes && it.s.size() == 16, "16 bytes"); v.s = it.s; break;
        case Type::string: need(it.k == Item::Text, "text"); v.s = it.s; break;
        case Type::Enum:
        {
            need(it.k == Item::Uint, "an enumerator tag");
            bool found = false;
            for (auto& e : t.e->items) if (e.tag == it.u) { v.u = static_cast<uint64_t>(static_cast<int64_t>(e.value)); found = true; }
            need(found, "the tag of an enumerator");
            break;
        }
        case Type::Vector:
            need(it.k == Item::Array, "an array");
            for (size_t i = 0; i < it.items.size(); ++i) { v.items.emplace_back(); fromItem(it.items[i], *t.elem, v.items.back(), cat(path, "[", i, "]")); }
            break;
        case Type::Struct: v = structFromItem(it, *t.s, path); break;
    }
}

static void encodes(pbt::Ctx& c)
{
    GenOpts o;
    o.finiteFloats = !c.s.chance(1, 5);
    Subject sub = genSubject(c.s, o);
    MValue v = genStruct(c.s, *sub.t, o);
    uint32_t set = c.s.boolean() ? 0xFFFFFFFFu : genSubset(c.s, sub.t->all());
    c.log << show(*sub.t) << "\n  " << show(v) << " set " << std::hex << set << std::dec;
    Instance inst{ *sub.d };
    write(*inst, *sub.t, v);
    Bytes b = dots::serialization::CborSerializer::Serialize(*inst, property_set_t{ set });
    cborref::Decoder d{ b.data(), b.data() + b.size() };
    MValue got;
    try
    {
        Item it = d.item();
        if (d.p != d.end) c.fail(cat("bytes left after the CBOR item: ", pbt::hex({ reinterpret_cast<const char*>(b.data()), b.size() })));
        got = structFromItem(it, *sub.t, "");
    }
    catch (const std::exception& e)
    {
        c.fail(cat("not the expected CBOR: ", e.what(), "\n  ", pbt::hex({ reinterpret_cast<const char*>(b.data()), b.size() })));
    }
    MValue want = restrict(v, set);
    // NaN payloads are equal as long as both are NaN
    if (!same(got, want)) c.fail(cat("CBOR means something else: ", firstDifference(got, want)));
    c.nontrivial(want.fields.size() >= 2);
    c.count(sub.isDynamic ? "run-time type" : "generated type");
}

// ---- foreign encoder

struct Foreign
{
    pbt::Src& s;
    pbt::Ctx& c;
    cborref::Encoder e;
    bool wide, shuffle, unknown;

    int width() { return wide ? static_cast<int>(s.weighted({ 5, 1, 1, 1, 1 })) : 0; }

    void anything(unsigned depth)
    {
        switch (s.weighted({ 3, 2, 2, 2, 2, 1, 2, 1, depth ? 3u : 0u, depth ? 3u : 0u, depth ? 2u : 0u, 1 }))
        {
            case 0: e.head(0, s.interestingUint(), width()); break;
            case 1: e.head(1, s.interestingUint(), width()); break;
            case 2: { GenOpts o; e.text(3, genUtf8(s, 60), width()); break; }
            case 3: { GenOpts o; o.bigVec = 10; e.text(2, genText(s, o), width()); break; }
            case 4: e.simple(static_cast<uint8_t>(s.boolean() ? s.range(20, 23) : s.boolean() ? s.range(32, 255) : s.range(0, 19))); break;
            case 5: e.f16(static_cast<uint16_t>(s.draw(0xffff))); break;
            case 6: e.f64(1.5); break;
            case 7: e.f32(1.5f); break;
            case 8:
            {
                bool ind = s.chance(1, 3);
                size_t n = s.chance(1, 8) ? static_cast<size_t>(s.range(23, 30)) : s.length(5);
                if (ind) e.indefinite(4); else e.head(4, n, width());
                for (size_t i = 0; i < n; ++i) anything(n > 10 ? 0 : depth - 1);
                if (ind) { e.brk(); c.count("indefinite"); }
                break;
            }
            case 9:
            {
                bool ind = s.chance(1, 3);
                size_t n = s.chance(1, 10) ? static_cast<size_t>(s.range(23, 28)) : s.length(4);
                if (ind) e.indefinite(5); else e.head(5, n, width());
                for (size_t i = 0; i < n; ++i) { e.head(0, i + 1, width()); anything(n > 10 ? 0 : depth - 1); }
                if (ind) { e.brk(); c.count("indefinite"); }
                break;
            }
            case 10: e.head(6, s.interestingUint(), width()); anything(depth - 1); c.count("tagged"); break;
            default:
            {
                int major = s.boolean() ? 2 : 3;
                e.indefinite(major);
                size_t n = s.length(3);
                for (size_t i = 0; i < n; ++i) e.text(major, "chunk", width());
                e.brk();
                c.count("indefinite");
            }
        }
    }

    void num(double d, Type k)
    {
        bool narrow = !std::isnan(d);
        unsigned m = wide ? static_cast<unsigned>(s.weighted({ 3, 2, 2 })) : 0;
        if (m == 1 && narrow && cborref::toHalf(d) >= 0) { e.f16(static_cast<uint16_t>(cborref::toHalf(d))); c.count("half float"); return; }
        if (m == 2 && k == Type::float32) { e.f64(d); c.count("double for float"); return; }
        if (k == Type::float32) { e.f32(static_cast<float>(d)); return; }
        if (m == 2 && static_cast<double>(static_cast<float>(d)) == d) { e.f32(static_cast<float>(d)); c.count("float for double"); return; }
        e.f64(d);
    }

    void value(const MValue& v, const MType& t)
    {
        switch (t.k)
        {
            case Type::boolean: e.simple(v.u ? 21 : 20); break;
            case Type::int8: case Type::int16: case Type::int32: case Type::int64: if (v.i() < 0) e.head(1, ~v.u, width()); else e.head(0, v.u, width()); break;
            case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: e.head(0, v.u, width()); break;
            case Type::float32: case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: num(v.d, t.k); break;
            case Type::uuid: e.text(2, v.s, width()); break;
            case Type::string: e.text(3, v.s, width()); break;
            case Type::Enum: e.head(0, t.e->byValue(static_cast<int32_t>(v.i())).tag, width()); break;
            case Type::Vector: e.head(4, v.items.size(), width()); for (auto& i : v.items) value(i, *t.elem); break;
            case Type::Struct: object(v, *t.s); break;
        }
    }

    void object(const MValue& v, const StructT& t)
    {
        std::vector<uint32_t> tags;
        for (auto& [tag, f] : v.fields) tags.push_back(tag);
        std::set<uint32_t> extra;
        if (unknown)
        {
            size_t n = s.length(3);
            for (size_t i = 0; i < n; ++i)
            {
                uint32_t tag = static_cast<uint32_t>(s.chance(1, 3) ? s.range(32, 0xffffffff) : s.range(0, 31));
                if (t.find(tag) == nullptr) extra.insert(tag);
            }
        }
        for (uint32_t x : extra) { tags.push_back(x); c.count("unknown property"); }
        if (shuffle || !extra.empty()) for (size_t i = tags.size(); i > 1; --i) std::swap(tags[i - 1], tags[s.below(i)]);
        e.head(5, tags.size(), width());
        for (uint32_t tag : tags)
        {
            e.head(0, tag, width());
            if (extra.count(tag)) anything(3);
            else value(v.fields.at(tag), *t.find(tag)->type);
        }
    }
};

static void decodes(pbt::Ctx& c)
{
    GenOpts o;
    o.finiteFloats = !c.s.chance(1, 6);
    Subject sub = genSubject(c.s, o);
    Foreign f{ c.s, c };
    f.wide = c.s.boolean();
    f.shuffle = c.s.boolean();
    f.unknown = c.s.boolean();
    size_t n = 1 + c.s.length(2);
    c.log << show(*sub.t);
    std::vector<MValue> values;
    std::vector<size_t> ends;
    for (size_t i = 0; i < n; ++i)
    {
        values.push_back(genStruct(c.s, *sub.t, o));
        c.log << "\n  " << show(values.back());
        f.object(values.back(), *sub.t);
        ends.push_back(f.e.out.size());
    }
    auto& b = f.e.out;
    std::string hx = pbt::hex({ reinterpret_cast<const char*>(b.data()), b.size() });
    c.log << "\n  bytes " << hx;
    std::unique_ptr<uint8_t[]> buf{ new uint8_t[b.size()] };
    std::memcpy(buf.get(), b.data(), b.size());
    dots::serialization::CborSerializer ser;
    ser.setInput(buf.get(), b.size());
    size_t pos = 0;
    for (size_t i = 0; i < n; ++i)
    {
        Instance out{ *sub.d };
        try { pos += ser.deserialize(*out); }
        catch (const std::exception& e) { c.fail(cat("object ", i, " rejected: ", std::string{ e.what() }.substr(0, 300))); }
        c.check(pos == ends[i], cat("object ", i, ": decoding ended at ", pos, " instead of ", ends[i]));
        MValue got = read(*out, *sub.t);
        if (!same(got, values[i])) c.fail(cat("object ", i, " decodes differently (got vs sent): ", firstDifference(got, values[i])));
        c.nontrivial((f.wide || f.shuffle || f.unknown) && values[i].fields.size() >= 2);
    }
    c.count(f.unknown ? "with unknown properties" : "known properties only");
}

// ---- peers with different versions of a type

static StructP evolve(pbt::Ctx& c, const StructP& t, std::map<const StructT*, StructP>& done, TypeGen& g, int depth);

static TypeP evolveType(pbt::Ctx& c, const TypeP& t, std::map<const StructT*, StructP>& done, TypeGen& g, int depth)
{
    auto r = std::make_shared<MType>(*t);
    if (t->s) r->s = evolve(c, t->s, done, g, depth + 1);
    if (t->elem) r->elem = evolveType(c, t->elem, done, g, depth);
    return r;
}

static StructP evolve(pbt::Ctx& c, const StructP& t, std::map<const StructT*, StructP>& done, TypeGen& g, int depth)
{
    if (auto it = done.find(t.get()); it != done.end()) return it->second;
    auto r = std::make_shared<StructT>(*t);
    r->props.clear();
    for (auto& p : t->props)
    {
        if (c.s.chance(1, 4)) continue; // dropped
        MProp q = p;
        q.type = evolveType(c, p.type, done, g, depth);
        r->props.push_back(q);
    }
    size_t add = c.s.length(3);
    for (size_t i = 0; i < add; ++i)
    {
        uint32_t tag = static_cast<uint32_t>(c.s.range(1, 31));
        if (t->find(tag) || r->find(tag)) continue;
        GenOpts save = g.o;
        g.o.structs = false;
        MProp q;
        q.tag = tag; q.name = "added" + std::to_string(tag); q.type = g.type(0);
        g.o = save;
        r->props.insert(r->props.begin() + static_cast<ptrdiff_t>(c.s.below(r->props.size() + 1)), q);
    }
    if (r->props.empty()) { MProp q; q.tag = 31; while (t->find(q.tag)) --q.tag; q.name = "added"; auto mt = std::make_shared<MType>(); mt->k = Type::int32; q.type = mt; r->props.push_back(q); }
    done.emplace(t.get(), r);
    return r;
}

// what a value of type `from` looks like to a peer that has `to`
static MValue project(const MValue& v, const MType& from, const MType& to);
static MValue projectStruct(const MValue& v, const StructT& from, const StructT& to)
{
    MValue r = emptyStruct();
    for (auto& [tag, f] : v.fields)
    {
        const MProp* p = to.find(tag);
        if (p == nullptr) continue;
        r.fields[tag] = project(f, *from.find(tag)->type, *p->type);
    }
    return r;
}
static MValue project(const MValue& v, const MType& from, const MType& to)
{
    if (v.k == Type::Struct) return projectStruct(v, *from.s, *to.s);
    if (v.k == Type::Vector)
    {
        MValue r = v;
        for (auto& i : r.items) i = project(i, *from.elem, *to.elem);
        return r;
    }
    return v;
}

static void versions(pbt::Ctx& c)
{
    GenOpts o;
    o.bigVec = 4;
    TypeGen g{ c.s, o };
    StructP a = g.structT(2);
    std::map<const StructT*, StructP> done;
    StructP b = evolve(c, a, done, g, 0);
    Dynamic da, db;
    auto& A = da.get(*a);
    auto& B = db.get(*b);
    size_t n = 1 + c.s.length(2);
    c.log << "sender has " << show(*a) << "\n  receiver has " << show(*b);
    dots::serialization::CborSerializer ser, des;
    std::vector<MValue> vs;
    for (size_t i = 0; i < n; ++i)
    {
        vs.push_back(genStruct(c.s, *a, o));
        c.log << "\n  " << show(vs.back());
        Instance x{ A };
        write(*x, *a, vs.back());
        ser.serialize(*x, property_set_t::All);
    }
    des.setInput(ser.output());
    for (size_t i = 0; i < n; ++i)
    {
        Instance y{ B };
        try { des.deserialize(*y); }
        catch (const std::exception& e) { c.fail(cat("object ", i, " rejected by the other version: ", std::string{ e.what() }.substr(0, 300))); }
        MValue got = read(*y, *b), want = projectStruct(vs[i], *a, *b);
        if (!same(got, want)) c.fail(cat("object ", i, " (got vs expected): ", firstDifference(got, want)));
        c.nontrivial(!want.fields.empty() && !same(want, vs[i]));
    }
    c.check(des.inputAvailable() == 0, "bytes left");
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "W11";
    check.rule = "encodes: at least two transmitted properties; decodes: the foreign encoder used a non-default width, order or unknown property and an object has at least two properties; versions: the receiver's version sees a non-empty, different part of the object";
    check.subs = {
        { "encodes", encodes, 150000, 3000000 },
        { "decodes", decodes, 150000, 3000000 },
        { "versions", versions, 80000, 1500000 },
    };
    check.assumptions = { "the reference CBOR encoder and decoder follow RFC 8949", "known properties are encoded with definite lengths" };
    return pbt::run(argc, argv, check);
}
