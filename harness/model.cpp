#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <dots/type/DynamicEnum.h>
#include <dots/type/EnumDescriptor.h>
#include <dots/type/FundamentalTypes.h>
#include <dots/type/ProxyProperty.h>
#include <dots/type/StructDescriptor.h>
#include <dots/type/VectorDescriptor.h>

namespace mdl
{
    using namespace dots;
    using dots::type::Typeless;

    static bool isFloat(Type k) { return k == Type::float32 || k == Type::float64 || k == Type::timepoint || k == Type::steady_timepoint || k == Type::duration; }
    static bool isSigned(Type k) { return k == Type::int8 || k == Type::int16 || k == Type::int32 || k == Type::int64 || k == Type::Enum; }

    std::string MType::name() const
    {
        switch (k)
        {
            case Type::boolean: return "bool";
            case Type::int8: return "int8";
            case Type::uint8: return "uint8";
            case Type::int16: return "int16";
            case Type::uint16: return "uint16";
            case Type::int32: return "int32";
            case Type::uint32: return "uint32";
            case Type::int64: return "int64";
            case Type::uint64: return "uint64";
            case Type::float32: return "float32";
            case Type::float64: return "float64";
            case Type::property_set: return "property_set";
            case Type::timepoint: return "timepoint";
            case Type::steady_timepoint: return "steady_timepoint";
            case Type::duration: return "duration";
            case Type::uuid: return "uuid";
            case Type::string: return "string";
            case Type::Vector: return "vector<" + elem->name() + ">";
            case Type::Struct: return s->name;
            case Type::Enum: return e->name;
        }
        return "?";
    }

    const EnumT::Item& EnumT::byValue(int32_t v) const
    {
        for (auto& i : items) if (i.value == v) return i;
        throw std::logic_error{ "model: no such enumerator" };
    }

    bool same(const MValue& a, const MValue& b)
    {
        if (a.k != b.k) return false;
        if (isFloat(a.k)) return std::memcmp(&a.d, &b.d, sizeof a.d) == 0;
        switch (a.k)
        {
            case Type::string: case Type::uuid: return a.s == b.s;
            case Type::Vector:
                if (a.items.size() != b.items.size()) return false;
                for (size_t i = 0; i < a.items.size(); ++i) if (!same(a.items[i], b.items[i])) return false;
                return true;
            case Type::Struct:
                if (a.fields.size() != b.fields.size()) return false;
                for (auto ia = a.fields.begin(), ib = b.fields.begin(); ia != a.fields.end(); ++ia, ++ib)
                    if (ia->first != ib->first || !same(ia->second, ib->second)) return false;
                return true;
            default: return a.u == b.u;
        }
    }

    bool equalValue(const MValue& a, const MValue& b)
    {
        if (isFloat(a.k)) return a.d == b.d;
        switch (a.k)
        {
            case Type::string: case Type::uuid: return a.s == b.s;
            case Type::Vector:
                if (a.items.size() != b.items.size()) return false;
                for (size_t i = 0; i < a.items.size(); ++i) if (!equalValue(a.items[i], b.items[i])) return false;
                return true;
            case Type::Struct:
                if (a.fields.size() != b.fields.size()) return false;
                for (auto ia = a.fields.begin(), ib = b.fields.begin(); ia != a.fields.end(); ++ia, ++ib)
                    if (ia->first != ib->first || !equalValue(ia->second, ib->second)) return false;
                return true;
            default: return a.u == b.u;
        }
    }

    bool lessValue(const MValue& a, const MValue& b, const MType& t)
    {
        if (isFloat(a.k)) return a.d < b.d;
        switch (a.k)
        {
            case Type::string: case Type::uuid: return a.s < b.s; // std::string compares as unsigned char
            case Type::Vector:
                for (size_t i = 0; i < a.items.size() && i < b.items.size(); ++i)
                {
                    if (lessValue(a.items[i], b.items[i], *t.elem)) return true;
                    if (lessValue(b.items[i], a.items[i], *t.elem)) return false;
                }
                return a.items.size() < b.items.size();
            case Type::Struct:
                for (auto& p : t.s->props)
                {
                    auto ia = a.fields.find(p.tag), ib = b.fields.find(p.tag);
                    bool va = ia != a.fields.end(), vb = ib != b.fields.end();
                    if (!va && !vb) continue;
                    if (va != vb) return !va;
                    if (lessValue(ia->second, ib->second, *p.type)) return true;
                    if (lessValue(ib->second, ia->second, *p.type)) return false;
                }
                return false;
            case Type::property_set: return a.u < b.u;
            default: return isSigned(a.k) ? a.i() < b.i() : a.u < b.u;
        }
    }

    std::string show(const MValue& v, const MType* t)
    {
        std::ostringstream o;
        if (isFloat(v.k)) { o.precision(17); o << v.d; return o.str(); }
        switch (v.k)
        {
            case Type::string: return pbt::quote(v.s, 80);
            case Type::uuid: return "uuid:" + pbt::hex(v.s);
            case Type::Vector:
                o << "[";
                for (size_t i = 0; i < v.items.size(); ++i)
                {
                    if (i == 12) { o << ", ...(" << v.items.size() << ")"; break; }
                    o << (i ? ", " : "") << show(v.items[i], t ? t->elem.get() : nullptr);
                }
                o << "]";
                return o.str();
            case Type::Struct:
            {
                o << "{";
                bool first = true;
                for (auto& [tag, f] : v.fields)
                {
                    const MProp* p = t && t->s ? t->s->find(tag) : nullptr;
                    o << (first ? "" : ", ") << tag << ": " << show(f, p ? p->type.get() : nullptr);
                    first = false;
                }
                o << "}";
                return o.str();
            }
            case Type::boolean: return v.u ? "true" : "false";
            case Type::property_set: o << "set:" << std::hex << v.u; return o.str();
            default: if (isSigned(v.k)) o << v.i(); else o << v.u; return o.str();
        }
    }

    std::string show(const StructT& t)
    {
        std::ostringstream o;
        o << t.name << "/" << unsigned(t.flags) << "(";
        bool first = true;
        for (auto& p : t.props)
        {
            o << (first ? "" : "; ") << p.tag << ":" << (p.key ? "[key] " : "") << p.type->name() << " " << p.name;
            first = false;
        }
        o << ")";
        return o.str();
    }

    std::string firstDifference(const MValue& a, const MValue& b, const std::string& path)
    {
        if (a.k == Type::Struct && b.k == Type::Struct)
        {
            for (auto& [t, v] : a.fields)
            {
                auto it = b.fields.find(t);
                if (it == b.fields.end()) return path + "." + std::to_string(t) + ": " + show(v) + " vs absent";
                if (!same(v, it->second)) return firstDifference(v, it->second, path + "." + std::to_string(t));
            }
            for (auto& [t, v] : b.fields) if (a.fields.count(t) == 0) return path + "." + std::to_string(t) + ": absent vs " + show(v);
            return "";
        }
        if (a.k == Type::Vector && b.k == Type::Vector && a.items.size() == b.items.size())
        {
            for (size_t i = 0; i < a.items.size(); ++i)
                if (!same(a.items[i], b.items[i])) return firstDifference(a.items[i], b.items[i], path + "[" + std::to_string(i) + "]");
            return "";
        }
        return same(a, b) ? "" : path + ": " + show(a) + " vs " + show(b);
    }

    MValue restrict(const MValue& v, uint32_t set)
    {
        MValue r = emptyStruct();
        for (auto& [t, f] : v.fields) if (set & (1u << t)) r.fields.emplace(t, f);
        return r;
    }

    // ---------------------------------------------------------------- generation

    std::string genUtf8(pbt::Src& s, size_t max)
    {
        std::string r;
        size_t n = s.length(max);
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t c;
            switch (s.weighted({ 8, 2, 1, 1, 1 }))
            {
                case 0: c = static_cast<uint32_t>('a' + s.draw(25)); break;
                case 1: c = static_cast<uint32_t>(s.range(0x20, 0x7e)); break;
                case 2: c = static_cast<uint32_t>(s.range(0x80, 0x7ff)); break;
                case 3: c = static_cast<uint32_t>(s.boolean() ? s.range(0x800, 0xd7ff) : s.range(0xe000, 0xffff)); break;
                default: c = static_cast<uint32_t>(s.range(0x10000, 0x10ffff)); break;
            }
            if (c < 0x80) r += static_cast<char>(c);
            else if (c < 0x800) { r += static_cast<char>(0xc0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 0x3f)); }
            else if (c < 0x10000) { r += static_cast<char>(0xe0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 0x3f)); r += static_cast<char>(0x80 | (c & 0x3f)); }
            else { r += static_cast<char>(0xf0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 0x3f)); r += static_cast<char>(0x80 | ((c >> 6) & 0x3f)); r += static_cast<char>(0x80 | (c & 0x3f)); }
        }
        return r;
    }

    std::string genText(pbt::Src& s, const GenOpts& o)
    {
        if (o.bigVec != 0 && s.chance(o.bigVec, 100))
        {
            size_t n = static_cast<size_t>(s.one<int64_t>({ 23, 24, 25, 255, 256, 257, 300, 65535, 65536, 66000 }));
            char c = static_cast<char>('a' + s.draw(25));
            return std::string(n, c);
        }
        switch (s.weighted({ 6, 2, 2 }))
        {
            case 0:
            {
                std::string r;
                size_t n = s.length(o.maxText);
                for (size_t i = 0; i < n; ++i) r += static_cast<char>('a' + s.draw(25));
                return r;
            }
            case 1:
                if (!o.nonAsciiText)
                {
                    std::string r;
                    size_t n = s.length(o.maxText);
                    for (size_t i = 0; i < n; ++i) r += static_cast<char>(s.range(0x20, 0x7e));
                    return r;
                }
                return genUtf8(s, o.maxText);
            default:
            {
                // text with syntax characters, control characters or arbitrary bytes
                std::string r;
                size_t n = s.length(o.maxText);
                for (size_t i = 0; i < n; ++i)
                {
                    switch (s.weighted({ 3, 3, 2 }))
                    {
                        case 0: r += s.one<char>({ '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', ' ', ',', ':', '{', '}', '[', ']', '\'', '.', '<', '&', '%' }); break;
                        case 1: r += static_cast<char>(s.range(0x20, 0x7e)); break;
                        default: r += static_cast<char>(s.draw(o.rawText ? 255 : 0x1f)); break;
                    }
                }
                return r;
            }
        }
    }

    // a value that half precision can represent
    static double genHalf(pbt::Src& s, const GenOpts& o)
    {
        bool negative = s.boolean();
        int exponent = s.chance(1, 3) ? 0 : static_cast<int>(s.below(31));
        double fraction = static_cast<double>(s.draw(0x3FF));
        double d = exponent == 0 ? std::ldexp(fraction, -24) : std::ldexp(fraction + 1024, exponent - 25);
        if (negative) d = -d;
        return !o.negZero && d == 0 ? 0.0 : d;
    }

    double genDouble(pbt::Src& s, const GenOpts& o)
    {
        switch (s.weighted({ 4, 3, 2, 2, 1 }))
        {
            case 4: return genHalf(s, o);
            case 0: return static_cast<double>(s.range(-20, 20));
            case 1: return static_cast<double>(s.range(-1000000, 1000000)) / 1000.0;
            case 2:
            {
                // any finite bit pattern
                for (int i = 0; i < 4; ++i)
                {
                    uint64_t b = s.bits64();
                    double d;
                    std::memcpy(&d, &b, sizeof d);
                    if (std::isfinite(d) && (o.negZero || d != 0)) return d;
                }
                return 1.5;
            }
            default:
            {
                double d = s.one<double>({ 0.0, 1.0 / 3, 0.1, 1e-7, 123456789.125, 1e15, 9007199254740993.0, 1e21, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -0.0,
                    std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() });
                if (o.finiteFloats && !std::isfinite(d)) return 2.5;
                if (!o.negZero && d == 0) return 0.0;
                return d;
            }
        }
    }

    static double genFloat(pbt::Src& s, const GenOpts& o)
    {
        switch (s.weighted({ 4, 2, 2, 1 }))
        {
            case 3: return genHalf(s, o);
            case 0: return static_cast<double>(static_cast<float>(s.range(-1000, 1000)) / 8);
            case 1:
                for (int i = 0; i < 4; ++i)
                {
                    uint32_t b = static_cast<uint32_t>(s.draw(0xFFFFFFFFu));
                    float f;
                    std::memcpy(&f, &b, sizeof f);
                    if (std::isfinite(f) && (o.negZero || f != 0)) return static_cast<double>(f);
                }
                return 1.5;
            default:
            {
                float f = s.one<float>({ 0.0f, 0.1f, 1.0f / 3, 3.4028235e38f, 1.17549435e-38f, 1e-45f, 16777217.0f, 1e10f, 123456.789f, -0.0f,
                    std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN() });
                if (o.finiteFloats && !std::isfinite(f)) return 2.5;
                if (!o.negZero && f == 0) return 0.0;
                return static_cast<double>(f);
            }
        }
    }

    static uint64_t clampInt(Type k, pbt::Src& s)
    {
        switch (k)
        {
            case Type::int8: return static_cast<uint64_t>(static_cast<int64_t>(static_cast<int8_t>(s.interestingInt())));
            case Type::int16: return static_cast<uint64_t>(static_cast<int64_t>(static_cast<int16_t>(s.interestingInt())));
            case Type::int32: return static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(s.interestingInt())));
            case Type::int64: return static_cast<uint64_t>(s.interestingInt());
            case Type::uint8: return static_cast<uint8_t>(s.interestingUint());
            case Type::uint16: return static_cast<uint16_t>(s.interestingUint());
            case Type::uint32: return static_cast<uint32_t>(s.interestingUint());
            default: return s.interestingUint();
        }
    }

    MValue genValue(pbt::Src& s, const MType& t, const GenOpts& o)
    {
        MValue v;
        v.k = t.k;
        switch (t.k)
        {
            case Type::boolean: v.u = s.boolean(); break;
            case Type::int8: case Type::uint8: case Type::int16: case Type::uint16:
            case Type::int32: case Type::uint32: case Type::int64: case Type::uint64: v.u = clampInt(t.k, s); break;
            case Type::float32: v.d = genFloat(s, o); break;
            case Type::float64: v.d = genDouble(s, o); break;
            case Type::property_set: v.u = static_cast<uint32_t>(s.interestingUint()); break;
            case Type::timepoint:
                v.d = o.plainTimes ? static_cast<double>(s.range(0, 7258118400000ll)) / 1000.0 : s.chance(1, 3) ? genDouble(s, o) : static_cast<double>(s.range(0, 4102444800000ll)) / 1000.0;
                break;
            case Type::steady_timepoint: case Type::duration:
                v.d = o.plainTimes ? static_cast<double>(s.range(0, 360000000ll)) / 1000.0 : genDouble(s, o);
                break;
            case Type::uuid:
                for (int i = 0; i < 2; ++i) { uint64_t b = s.bits64(); v.s.append(reinterpret_cast<const char*>(&b), 8); }
                break;
            case Type::string: v.s = genText(s, o); break;
            case Type::Enum: v.u = static_cast<uint64_t>(static_cast<int64_t>(s.pick(t.e->items).value)); break;
            case Type::Vector:
            {
                size_t n = s.length(o.maxVec);
                bool simple = t.elem->k != Type::Struct && t.elem->k != Type::string;
                if (simple && o.bigVec != 0 && s.chance(o.bigVec, 100)) n = static_cast<size_t>(s.one<int64_t>({ 23, 24, 25, 255, 256, 257, 300 }));
                for (size_t i = 0; i < n; ++i) v.items.push_back(genValue(s, *t.elem, o));
                break;
            }
            case Type::Struct: v = genStruct(s, *t.s, o); break;
        }
        return v;
    }

    uint32_t genSubset(pbt::Src& s, uint32_t of)
    {
        uint32_t r = 0;
        switch (s.weighted({ 5, 2, 1 }))
        {
            case 1: return of;
            case 2: return 0;
            default:
                for (uint32_t i = 0; i < 32; ++i) if ((of >> i & 1) && s.boolean()) r |= 1u << i;
                return r;
        }
    }

    MValue genStruct(pbt::Src& s, const StructT& t, const GenOpts& o, bool withKeys, bool all)
    {
        MValue v = emptyStruct();
        uint32_t valid = all ? t.all() : genSubset(s, t.all());
        if (withKeys) valid |= t.keys();
        for (auto& p : t.props) if (valid >> p.tag & 1) v.fields.emplace(p.tag, genValue(s, *p.type, o));
        return v;
    }

    TypeP TypeGen::keyType()
    {
        auto t = std::make_shared<MType>();
        t->k = s.one<Type>({ Type::int32, Type::string, Type::uint32, Type::int64, Type::boolean, Type::uint8, Type::uint64, Type::uuid, Type::int16, Type::timepoint, Type::float64, Type::property_set });
        return t;
    }

    std::shared_ptr<const EnumT> TypeGen::enumT()
    {
        if (!enums.empty() && s.boolean()) return s.pick(enums);
        auto e = std::make_shared<EnumT>();
        e->name = prefix + "Enum" + std::to_string(counter++);
        size_t n = 1 + s.length(5);
        std::set<uint32_t> tags;
        std::set<int32_t> values;
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t tag = static_cast<uint32_t>(s.chance(1, 4) ? s.range(0, 1000) : i + 1);
            int32_t val = s.chance(1, 4) ? static_cast<int32_t>(s.interestingInt()) : static_cast<int32_t>(i);
            while (!tags.insert(tag).second) ++tag;
            while (!values.insert(val).second) val = val == std::numeric_limits<int32_t>::max() ? 0 : val + 1;
            e->items.push_back({ tag, "e" + std::to_string(i) + (s.chance(1, 4) ? "_x" : ""), val });
        }
        enums.push_back(e);
        return e;
    }

    TypeP TypeGen::type(unsigned depth)
    {
        auto t = std::make_shared<MType>();
        switch (s.weighted({ 10, 2, depth > 0 && o.structs ? 3u : 0u, o.vectors ? 3u : 0u }))
        {
            case 0:
                for (int i = 0; ; ++i)
                {
                    t->k = s.one<Type>({ Type::int32, Type::string, Type::boolean, Type::int8, Type::uint8, Type::int16, Type::uint16, Type::uint32, Type::int64, Type::uint64,
                        Type::float32, Type::float64, Type::property_set, Type::timepoint, Type::steady_timepoint, Type::duration, Type::uuid });
                    bool ok = (t->k != Type::steady_timepoint || o.steadyTp) && (t->k != Type::property_set || o.propertySet) && (t->k != Type::duration || o.duration) && (t->k != Type::uuid || o.uuid);
                    if (ok) break;
                    if (i > 10) { t->k = Type::int32; break; }
                }
                break;
            case 1: t->k = Type::Enum; t->e = enumT(); break;
            case 2: t->k = Type::Struct; t->s = structT(depth - 1); break;
            default:
                t->k = Type::Vector;
                {
                    GenOpts save = o;
                    o.vectors = false;
                    t->elem = type(depth);
                    o = save;
                }
                break;
        }
        return t;
    }

    StructP TypeGen::structT(unsigned depth, bool needKey, std::optional<uint8_t> flags)
    {
        // reuse an already generated struct now and then (only as a part)
        if (!needKey && !flags && !structs.empty() && s.chance(1, 4)) return s.pick(structs);
        auto t = std::make_shared<StructT>();
        t->name = prefix + "Struct" + std::to_string(counter++);
        t->flags = flags ? *flags : static_cast<uint8_t>(s.chance(1, 3) ? (s.draw(63) & ~2u) : 1); // never internal by default
        size_t n = 1 + s.length(o.maxProps - 1);
        std::set<uint32_t> tags;
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t tag = static_cast<uint32_t>(s.chance(1, 3) ? s.range(1, 31) : i + 1);
            while (!tags.insert(tag).second) tag = tag % 31 + 1;
            MProp p;
            p.tag = tag;
            p.name = "p" + std::to_string(tag) + (s.chance(1, 4) ? s.one<const char*>({ "Name", "_x", "A" }) : "");
            p.key = needKey && (i == 0 || s.chance(1, 6));
            bool keyLike = p.key;
            // the key may be any property, not only the first
            p.type = keyLike ? keyType() : type(depth);
            t->props.push_back(p);
        }
        if (s.chance(1, 3) && t->props.size() > 1)
        {
            size_t a = s.below(t->props.size()), b = s.below(t->props.size());
            std::swap(t->props[a], t->props[b]);
        }
        structs.push_back(t);
        return t;
    }

    // ---------------------------------------------------------------- bridge

    TypeP describe(const dots::type::Descriptor<>& d)
    {
        auto t = std::make_shared<MType>();
        t->k = d.type();
        if (auto* v = d.as<type::Descriptor<type::Vector<>>>()) t->elem = describe(v->valueDescriptor());
        else if (auto* st = d.as<type::StructDescriptor>()) t->s = describeStruct(*st);
        else if (auto* e = d.as<type::EnumDescriptor>())
        {
            auto m = std::make_shared<EnumT>();
            m->name = e->name();
            for (auto& i : e->enumerators()) m->items.push_back({ i.tag(), i.name(), i.value() });
            t->e = m;
        }
        return t;
    }

    StructP describeStruct(const dots::type::StructDescriptor& d)
    {
        auto t = std::make_shared<StructT>();
        t->name = d.name();
        t->flags = d.flags();
        for (auto& p : d.propertyDescriptors()) t->props.push_back({ p.name(), p.tag(), p.isKey(), describe(p.valueDescriptor()) });
        return t;
    }

    dots::type::Descriptor<>& Dynamic::get(const EnumT& e)
    {
        auto it = descriptors.find(e.name);
        if (it != descriptors.end()) return *it->second;
        std::vector<type::EnumeratorDescriptor> items;
        for (auto& i : e.items) items.emplace_back(i.tag, i.name, i.value);
        auto d = type::make_descriptor<type::Descriptor<type::DynamicEnum>>(e.name, std::move(items));
        descriptors.emplace(e.name, d);
        return *d;
    }

    dots::type::Descriptor<>& Dynamic::get(const MType& t)
    {
        switch (t.k)
        {
            case Type::boolean: return type::Descriptor<bool>::Instance();
            case Type::int8: return type::Descriptor<int8_t>::Instance();
            case Type::uint8: return type::Descriptor<uint8_t>::Instance();
            case Type::int16: return type::Descriptor<int16_t>::Instance();
            case Type::uint16: return type::Descriptor<uint16_t>::Instance();
            case Type::int32: return type::Descriptor<int32_t>::Instance();
            case Type::uint32: return type::Descriptor<uint32_t>::Instance();
            case Type::int64: return type::Descriptor<int64_t>::Instance();
            case Type::uint64: return type::Descriptor<uint64_t>::Instance();
            case Type::float32: return type::Descriptor<float>::Instance();
            case Type::float64: return type::Descriptor<double>::Instance();
            case Type::property_set: return type::Descriptor<types::property_set_t>::Instance();
            case Type::timepoint: return type::Descriptor<types::timepoint_t>::Instance();
            case Type::steady_timepoint: return type::Descriptor<types::steady_timepoint_t>::Instance();
            case Type::duration: return type::Descriptor<types::duration_t>::Instance();
            case Type::uuid: return type::Descriptor<types::uuid_t>::Instance();
            case Type::string: return type::Descriptor<std::string>::Instance();
            case Type::Enum: return get(*t.e);
            case Type::Struct: return get(*t.s);
            case Type::Vector: break;
        }
        switch (t.elem->k)
        {
            case Type::boolean: return type::Descriptor<type::Vector<bool>>::Instance();
            case Type::int8: return type::Descriptor<type::Vector<int8_t>>::Instance();
            case Type::uint8: return type::Descriptor<type::Vector<uint8_t>>::Instance();
            case Type::int16: return type::Descriptor<type::Vector<int16_t>>::Instance();
            case Type::uint16: return type::Descriptor<type::Vector<uint16_t>>::Instance();
            case Type::int32: return type::Descriptor<type::Vector<int32_t>>::Instance();
            case Type::uint32: return type::Descriptor<type::Vector<uint32_t>>::Instance();
            case Type::int64: return type::Descriptor<type::Vector<int64_t>>::Instance();
            case Type::uint64: return type::Descriptor<type::Vector<uint64_t>>::Instance();
            case Type::float32: return type::Descriptor<type::Vector<float>>::Instance();
            case Type::float64: return type::Descriptor<type::Vector<double>>::Instance();
            case Type::property_set: return type::Descriptor<type::Vector<types::property_set_t>>::Instance();
            case Type::timepoint: return type::Descriptor<type::Vector<types::timepoint_t>>::Instance();
            case Type::steady_timepoint: return type::Descriptor<type::Vector<types::steady_timepoint_t>>::Instance();
            case Type::duration: return type::Descriptor<type::Vector<types::duration_t>>::Instance();
            case Type::uuid: return type::Descriptor<type::Vector<types::uuid_t>>::Instance();
            case Type::string: return type::Descriptor<type::Vector<std::string>>::Instance();
            case Type::Enum:
            case Type::Struct:
            {
                std::string name = t.name();
                auto it = descriptors.find(name);
                if (it != descriptors.end()) return *it->second;
                std::shared_ptr<type::Descriptor<>> d;
                if (t.elem->k == Type::Enum) d = type::make_descriptor<type::Descriptor<type::Vector<type::DynamicEnum>>>(static_cast<type::Descriptor<type::DynamicEnum>&>(get(*t.elem)));
                else d = type::make_descriptor<type::Descriptor<type::Vector<type::DynamicStruct>>>(get(*t.elem->s), false);
                descriptors.emplace(name, d);
                return *d;
            }
            default: throw std::logic_error{ "model: unsupported vector" };
        }
    }

    dots::type::Descriptor<dots::type::DynamicStruct>& Dynamic::get(const StructT& t)
    {
        using D = type::Descriptor<type::DynamicStruct>;
        auto it = descriptors.find(t.name);
        if (it != descriptors.end()) return static_cast<D&>(*it->second);
        type::property_descriptor_container_t props;
        size_t offset = sizeof(type::PropertyArea);
        size_t maxAlign = alignof(type::Struct);
        for (auto& p : t.props)
        {
            auto& d = get(*p.type);
            offset = (offset + d.alignment() - 1) / d.alignment() * d.alignment();
            props.emplace_back(d, p.name, p.tag, p.key, type::PropertyOffset{ std::in_place, offset });
            offset += d.size();
            maxAlign = std::max(maxAlign, d.alignment());
        }
        offset = (offset + maxAlign - 1) / maxAlign * maxAlign;
        auto d = type::make_descriptor<D>(t.name, t.flags, props, sizeof(type::DynamicStruct) + offset);
        descriptors.emplace(t.name, d);
        return *d;
    }

    template <typename T>
    static void put(Typeless& storage, T v) { storage.to<T>() = v; }

    void writeTypeless(Typeless& st, const dots::type::Descriptor<>& d, const MType& t, const MValue& v)
    {
        if (d.type() != t.k || v.k != t.k) throw std::logic_error{ "model: kind mismatch" };
        switch (t.k)
        {
            case Type::boolean: put<bool>(st, v.u != 0); break;
            case Type::int8: put<int8_t>(st, static_cast<int8_t>(v.u)); break;
            case Type::uint8: put<uint8_t>(st, static_cast<uint8_t>(v.u)); break;
            case Type::int16: put<int16_t>(st, static_cast<int16_t>(v.u)); break;
            case Type::uint16: put<uint16_t>(st, static_cast<uint16_t>(v.u)); break;
            case Type::int32: put<int32_t>(st, static_cast<int32_t>(v.u)); break;
            case Type::uint32: put<uint32_t>(st, static_cast<uint32_t>(v.u)); break;
            case Type::int64: put<int64_t>(st, static_cast<int64_t>(v.u)); break;
            case Type::uint64: put<uint64_t>(st, v.u); break;
            case Type::float32: put<float>(st, static_cast<float>(v.d)); break;
            case Type::float64: put<double>(st, v.d); break;
            case Type::property_set: put<types::property_set_t>(st, types::property_set_t{ static_cast<uint32_t>(v.u) }); break;
            case Type::timepoint: put<types::timepoint_t>(st, types::timepoint_t{ types::duration_t{ v.d } }); break;
            case Type::steady_timepoint: put<types::steady_timepoint_t>(st, types::steady_timepoint_t{ types::duration_t{ v.d } }); break;
            case Type::duration: put<types::duration_t>(st, types::duration_t{ v.d }); break;
            case Type::uuid: put<types::uuid_t>(st, types::uuid_t{ reinterpret_cast<const uint8_t*>(v.s.data()) }); break;
            case Type::string: st.to<std::string>() = v.s; break;
            case Type::Enum: put<int32_t>(st, static_cast<int32_t>(v.u)); break;
            case Type::Vector:
            {
                auto& vd = static_cast<const type::Descriptor<type::Vector<>>&>(d);
                auto& vec = st.to<type::Vector<>>();
                vd.fill(vec, v.items.size());
                if (vec.typelessSize() != v.items.size()) throw std::logic_error{ "vector fill produced a wrong size" };
                for (size_t i = 0; i < v.items.size(); ++i) writeTypeless(vec.typelessAt(i), vd.valueDescriptor(), *t.elem, v.items[i]);
                break;
            }
            case Type::Struct: write(st.to<type::Struct>(), *t.s, v); break;
        }
    }

    static const type::PropertyDescriptor& propertyOf(const type::Struct& instance, uint32_t tag)
    {
        for (auto& pd : instance._descriptor().propertyDescriptors()) if (pd.tag() == tag) return pd;
        throw std::logic_error{ "model: no property with tag " + std::to_string(tag) + " in " + instance._descriptor().name() };
    }

    void writeProperty(type::Struct& instance, const MProp& p, const MValue& v)
    {
        auto& pd = propertyOf(instance, p.tag);
        type::ProxyProperty<> prop{ instance._propertyArea(), pd };
        if (!prop.isValid()) prop.emplace();
        writeTypeless(prop.storage(), pd.valueDescriptor(), *p.type, v);
    }

    void write(type::Struct& instance, const StructT& t, const MValue& v)
    {
        for (auto& p : t.props)
        {
            auto it = v.fields.find(p.tag);
            if (it != v.fields.end()) writeProperty(instance, p, it->second);
            else
            {
                type::ProxyProperty<> prop{ instance._propertyArea(), propertyOf(instance, p.tag) };
                if (prop.isValid()) prop.reset();
            }
        }
    }

    MValue readTypeless(const Typeless& st, const dots::type::Descriptor<>& d, const MType& t)
    {
        if (d.type() != t.k) throw std::logic_error{ "model: kind mismatch" };
        MValue v;
        v.k = t.k;
        auto si = [&](int64_t i) { v.u = static_cast<uint64_t>(i); };
        switch (t.k)
        {
            case Type::boolean: v.u = st.to<uint8_t>(); break;
            case Type::int8: si(st.to<int8_t>()); break;
            case Type::uint8: v.u = st.to<uint8_t>(); break;
            case Type::int16: si(st.to<int16_t>()); break;
            case Type::uint16: v.u = st.to<uint16_t>(); break;
            case Type::int32: si(st.to<int32_t>()); break;
            case Type::uint32: v.u = st.to<uint32_t>(); break;
            case Type::int64: si(st.to<int64_t>()); break;
            case Type::uint64: v.u = st.to<uint64_t>(); break;
            case Type::float32: v.d = static_cast<double>(st.to<float>()); break;
            case Type::float64: v.d = st.to<double>(); break;
            case Type::property_set: v.u = st.to<types::property_set_t>().toValue(); break;
            case Type::timepoint: v.d = st.to<types::timepoint_t>().time_since_epoch().count(); break;
            case Type::steady_timepoint: v.d = st.to<types::steady_timepoint_t>().time_since_epoch().count(); break;
            case Type::duration: v.d = st.to<types::duration_t>().count(); break;
            case Type::uuid: v.s.assign(reinterpret_cast<const char*>(st.to<types::uuid_t>().data().data()), 16); break;
            case Type::string: v.s = st.to<std::string>(); break;
            case Type::Enum: si(st.to<int32_t>()); break;
            case Type::Vector:
            {
                auto& vd = static_cast<const type::Descriptor<type::Vector<>>&>(d);
                auto& vec = st.to<type::Vector<>>();
                for (size_t i = 0; i < vec.typelessSize(); ++i) v.items.push_back(readTypeless(vec.typelessAt(i), vd.valueDescriptor(), *t.elem));
                break;
            }
            case Type::Struct: v = read(st.to<type::Struct>(), *t.s); break;
        }
        return v;
    }

    MValue read(const type::Struct& instance, const StructT& t)
    {
        MValue v = emptyStruct();
        uint32_t valid = instance._propertyArea().validProperties().toValue();
        for (auto& p : t.props)
        {
            if (!(valid >> p.tag & 1)) continue;
            auto& pd = propertyOf(instance, p.tag);
            const Typeless& st = instance._propertyArea().getProperty<Typeless>(pd.offset());
            v.fields.emplace(p.tag, readTypeless(st, pd.valueDescriptor(), *p.type));
            valid &= ~(1u << p.tag);
        }
        if (valid != 0) throw std::logic_error{ "object has valid flags for undeclared properties: " + std::to_string(valid) };
        return v;
    }

    Instance::Instance(const type::StructDescriptor& d) : m_d(d), m_p(static_cast<type::Struct*>(std::malloc(d.size())))
    {
        std::memset(static_cast<void*>(m_p), 0xA5, d.size());
        d.constructInPlace(Typeless::From(*m_p));
    }

    Instance::~Instance()
    {
        m_d.destruct(Typeless::From(*m_p));
        std::free(static_cast<void*>(m_p));
    }
}
