// X26: generated code implements the model it was generated from.
#include "x26.h"
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/JsonSerializer.h>
#include <dots/type/AnyStruct.h>

using namespace mdl;
using pbt::cat;
using dots::type::PropertySet;
using dots::type::Struct;

namespace
{
    x26::Registration& registration()
    {
        static auto* r = new x26::Registration;
        return *r;
    }

    std::vector<void (*)(x26::Registration&)>& adders()
    {
        static auto* r = new std::vector<void (*)(x26::Registration&)>;
        return *r;
    }

    PropertySet toSet(uint32_t s)
    {
        PropertySet r;
        for (uint32_t t = 0; t < 32; ++t) if (s >> t & 1) r += PropertySet::FromIndex(t);
        return r;
    }

    struct Owned
    {
        const x26::StructEntry& e;
        Struct* p;
        explicit Owned(const x26::StructEntry& e_) : e(e_), p(e.ops.create()) {}
        Owned(const x26::StructEntry& e_, Struct* p_) : e(e_), p(p_) {}
        Owned(const Owned&) = delete;
        ~Owned() { e.ops.destroy(p); }
        Struct& operator*() { return *p; }
        Struct* operator->() { return p; }
    };

    std::string typeName(const MType& t) { return t.name(); }

    void sameType(pbt::Ctx& c, const dots::type::Descriptor<>& d, const MType& t, const std::string& where)
    {
        c.check(d.type() == t.k, cat(where, " is of kind ", static_cast<int>(d.type()), " instead of ", static_cast<int>(t.k)));
        c.check(d.name() == t.name(), cat(where, " is of type ", d.name(), " instead of ", t.name()));
        if (t.k == Type::Vector)
        {
            auto* v = d.as<dots::type::VectorDescriptor>();
            c.check(v != nullptr, cat(where, " is no vector"));
            sameType(c, v->valueDescriptor(), *t.elem, where + "[]");
        }
    }

    void enumeration(pbt::Ctx& c, const x26::EnumEntry& e)
    {
        auto& t = *e.t;
        c.log << "enum " << t.name << "\n";
        c.check(e.d->name() == t.name, cat("enum ", t.name, " is named ", e.d->name()));
        c.check(e.d->type() == Type::Enum, cat("enum ", t.name, " is no enumeration"));
        auto& list = e.d->enumerators();
        c.check(list.size() == t.items.size(), cat("enum ", t.name, " has ", list.size(), " instead of ", t.items.size(), " enumerators"));
        for (size_t i = 0; i < t.items.size(); ++i)
        {
            auto& m = t.items[i];
            auto& d = list[i];
            c.check(d.tag() == m.tag && d.name() == m.name && d.value() == m.value, cat("enumerator ", i, " of ", t.name, " is ", d.tag(), ": ", d.name(), " = ", d.value(), " instead of ", m.tag, ": ", m.name, " = ", m.value));
            c.check(e.values[i] == m.value, cat(t.name, "::", m.name, " is ", e.values[i], " instead of ", m.value));
            c.check(&e.d->enumeratorFromName(m.name) == &d && &e.d->enumeratorFromTag(m.tag) == &d && &e.d->enumeratorFromValue(m.value) == &d, cat("lookup of ", t.name, "::", m.name));
        }
        c.nontrivial(t.items.size() > 1);
    }

    std::string join(const std::vector<std::string>& v)
    {
        std::string r;
        for (auto& x : v) r += x + " ";
        return r;
    }

    void structure(pbt::Ctx& c, const x26::StructEntry& e)
    {
        auto& t = *e.t;
        auto& d = *e.d;
        c.log << show(t) << "\n";
        c.check(d.name() == t.name && e.ops.name == t.name, cat(t.name, " is named ", d.name(), " and ", e.ops.name));
        c.check(d.type() == Type::Struct, cat(t.name, " is no struct"));
        c.check(d.flags() == t.flags, cat(t.name, " has flags ", int(d.flags()), " instead of ", int(t.flags)));
        c.check(e.ops.flags == t.flags, cat(t.name, " has constants for flags ", int(e.ops.flags), " instead of ", int(t.flags)));
        c.check(d.cached() == bool(t.flags & 1) && d.internal() == bool(t.flags & 2) && d.persistent() == bool(t.flags & 4) && d.cleanup() == bool(t.flags & 8) && d.local() == bool(t.flags & 16) && d.substructOnly() == bool(t.flags & 32), cat("flags of ", t.name));
        c.check(d.size() == e.ops.size, cat(t.name, " has size ", d.size(), " instead of ", e.ops.size));
        c.check(d.alignment() == e.ops.alignment, cat(t.name, " has alignment ", d.alignment(), " instead of ", e.ops.alignment));

        auto& list = d.propertyDescriptors();
        c.check(list.size() == t.props.size(), cat(t.name, " has ", list.size(), " instead of ", t.props.size(), " properties"));
        std::vector<std::string> names, keys;
        Owned o{ e };
        for (size_t i = 0; i < t.props.size(); ++i)
        {
            auto& m = t.props[i];
            auto& p = list[i];
            std::string where = cat(t.name, ".", m.name);
            c.check(p.name() == m.name, cat("property ", i, " of ", t.name, " is named ", p.name(), " instead of ", m.name));
            c.check(p.tag() == m.tag, cat(where, " has tag ", p.tag(), " instead of ", m.tag));
            c.check(p.isKey() == m.key, cat(where, m.key ? " is no key" : " is a key"));
            c.check(p.set() == toSet(1u << m.tag) && e.set(i) == toSet(1u << m.tag), cat(where, " has set ", p.set().toString()));
            sameType(c, p.valueDescriptor(), *m.type, where);
            names.push_back(m.name);
            if (m.key) keys.push_back(m.name);

            // all ways lead to the same property
            x26::Access x = e.access(*o, i);
            auto byName = o->_get(m.name);
            auto byTag = o->_find(m.tag);
            c.check(&byName.storage() == x.value, cat(where, " is another property when looked up by name"));
            c.check(byTag != o->_end() && &byTag->storage() == x.value, cat(where, " is another property when looked up by tag"));
            c.check(e.ops.property(*o, i) == x.address, cat(where, " is another property as typed one"));
            auto* begin = reinterpret_cast<const char*>(o.p);
            auto* at = reinterpret_cast<const char*>(x.value);
            c.check(at >= begin && at < begin + e.ops.size, cat(where, " lies outside of the object"));
            c.check(!x.isValid && !byName.isValid(), cat(where, " is valid in a new object"));
            c.check(x.descriptor.name() == m.name && x.descriptor.tag() == m.tag && x.descriptor.isKey() == m.key, cat(where, " has another descriptor"));
        }
        c.check(e.ops.properties == names, cat(t.name, " has properties ", join(e.ops.properties), "instead of ", join(names)));
        c.check(e.ops.keys == keys, cat(t.name, " has keys ", join(e.ops.keys), "instead of ", join(keys)));
        c.check(e.ops.allSet == t.all() && d.properties() == toSet(t.all()), cat("properties of ", t.name));
        c.check(e.ops.keySet == t.keys() && d.keyProperties() == toSet(t.keys()), cat("keys of ", t.name));
        c.check(o->_descriptor().name() == t.name, cat("descriptor of an object of ", t.name));

        // initialization of members by name
        uint32_t half = 0;
        for (size_t i = 0; i < t.props.size(); i += 2) half |= 1u << t.props[i].tag;
        e.full(*o);
        c.check(e.ops.valid(*o) == t.all() && o->_validProperties() == toSet(t.all()), cat("initialized ", t.name, " has ", o->_validProperties().toString()));
        MValue v = read(*o, t);
        for (size_t i = 0; i < t.props.size(); ++i)
        {
            auto& m = t.props[i];
            if (m.type->k == Type::Vector) c.check(v.fields.at(m.tag).items.size() == i % 3 + 1, cat(t.name, ".", m.name, " has ", v.fields.at(m.tag).items.size(), " elements"));
        }
        e.half(*o);
        c.check(e.ops.valid(*o) == half && o->_validProperties() == toSet(half), cat("half initialized ", t.name, " has ", o->_validProperties().toString()));
        c.nontrivial(t.props.size() > 1);
    }

    void declared(pbt::Ctx& c)
    {
        auto& r = registration();
        size_t i = c.s.below(r.structs.size() + r.enums.size());
        if (i < r.structs.size()) structure(c, r.structs[i]);
        else enumeration(c, r.enums[i - r.structs.size()]);
    }

    // ---- objects of generated types and of run-time types of the same model
    struct Pair
    {
        std::unique_ptr<Owned> s;
        std::unique_ptr<Instance> d;
    };

    std::string cborOf(const Struct& x, PropertySet set)
    {
        auto data = dots::to_cbor(x, set);
        return std::string{ reinterpret_cast<const char*>(data.data()), data.size() };
    }

    MValue related(pbt::Src& s, const MValue& v, const StructT& t, const GenOpts& o)
    {
        if (s.chance(1, 3)) return genStruct(s, t, o, s.boolean());
        MValue r = v;
        // differs in at most a few properties
        size_t n = s.below(3);
        for (size_t i = 0; i < n && !t.props.empty(); ++i)
        {
            auto& p = s.pick(t.props);
            if (s.chance(1, 3)) r.fields.erase(p.tag);
            else r.fields[p.tag] = genValue(s, *p.type, o);
        }
        return r;
    }

    void objects(pbt::Ctx& c)
    {
        auto& r = registration();
        auto& e = r.structs[c.s.below(r.structs.size())];
        auto& t = *e.t;
        c.log << show(t) << "\n";
        Dynamic dynamic;
        auto& dd = dynamic.get(t);
        GenOpts o;
        o.rawText = false;
        std::array<Pair, 2> x;
        MValue v[2];
        v[0] = genStruct(c.s, t, o, c.s.boolean());
        v[1] = related(c.s, v[0], t, o);
        MType mt;
        mt.k = Type::Struct;
        mt.s = e.t;
        for (size_t i = 0; i < 2; ++i)
        {
            x[i].s = std::make_unique<Owned>(e);
            x[i].d = std::make_unique<Instance>(dd);
            write(**x[i].s, t, v[i]);
            write(**x[i].d, t, v[i]);
            c.log << (i ? "b" : "a") << " = " << show(v[i], &mt) << "\n";
        }

        auto alike = [&](const std::string& after)
        {
            for (size_t i = 0; i < 2; ++i)
            {
                MValue a = read(**x[i].s, t), b = read(**x[i].d, t);
                c.check(same(a, b), cat("after ", after, ": ", i ? "b" : "a", " of the generated and the run-time type differ: ", firstDifference(a, b)));
                c.check(x[i].s->p->_validProperties() == (**x[i].d)._validProperties() && e.ops.valid(*x[i].s->p) == a.valid(), cat("after ", after, ": valid properties"));
            }
        };

        auto observe = [&](uint32_t set, const std::string& after)
        {
            PropertySet ps = toSet(set);
            Struct &sa = *x[0].s->p, &sb = *x[1].s->p, &da = **x[0].d, &db = **x[1].d;
            for (size_t i = 0; i < 2; ++i)
            {
                Struct &s = *x[i].s->p, &d = **x[i].d;
                c.check(cborOf(s, ps) == cborOf(d, ps), cat("after ", after, ": encodings differ: ", pbt::hex(cborOf(s, ps)), " and ", pbt::hex(cborOf(d, ps))));
                c.check(dots::to_json(s) == dots::to_json(d), cat("after ", after, ": JSON texts differ: ", dots::to_json(s), " and ", dots::to_json(d)));
            }
            auto q = e.ops.compare(sa, sb, ps);
            c.check(q.eq == da._equal(db, ps) && q.eq == sa._equal(sb, ps), cat("after ", after, ": equality"));
            c.check(q.lt == da._less(db, ps) && q.lt == sa._less(sb, ps), cat("after ", after, ": order"));
            c.check(q.le == da._lessEqual(db, ps) && q.le == sa._lessEqual(sb, ps), cat("after ", after, ": order or equality"));
            c.check(q.same == da._same(db) && q.same == sa._same(sb), cat("after ", after, ": sameness"));
            c.check(toSet(q.diff) == da._diffProperties(db, ps) && toSet(q.diff) == sa._diffProperties(sb, ps), cat("after ", after, ": differences"));
            c.check(q.opEq == da._equal(db) && q.opNe == !q.opEq && q.opLt == da._less(db), cat("after ", after, ": operators"));
            c.count(q.eq ? "equal" : q.same ? "same" : "different");
        };

        alike("writing");
        observe(~0u, "writing");
        size_t n = c.s.length(6);
        for (size_t k = 0; k < n; ++k)
        {
            size_t a = c.s.below(2), b = c.s.chance(1, 8) ? a : 1 - a;
            uint32_t set = c.s.chance(1, 3) ? ~0u : genSubset(c.s, t.all());
            PropertySet ps = toSet(set);
            bool untyped = c.s.boolean();
            Struct &sa = *x[a].s->p, &sb = *x[b].s->p, &da = **x[a].d, &db = **x[b].d;
            std::string what;
            switch (c.s.below(8))
            {
                case 0: what = "assign"; untyped ? void(sa._assign(sb, ps)) : e.ops.assign(sa, sb, ps); da._assign(db, ps); break;
                case 1: what = "copy"; untyped ? void(sa._copy(sb, ps)) : e.ops.copy(sa, sb, ps); da._copy(db, ps); break;
                case 2: what = "merge"; untyped ? void(sa._merge(sb, ps)) : e.ops.merge(sa, sb, ps); da._merge(db, ps); break;
                case 3: what = "swap"; untyped ? sa._swap(sb, ps) : e.ops.swap(sa, sb, ps); da._swap(db, ps); break;
                case 4: what = "clear"; untyped ? sa._clear(ps) : e.ops.clear(sa, ps); da._clear(ps); break;
                case 5:
                {
                    what = "copy construction";
                    auto n2 = std::make_unique<Owned>(e, e.ops.clone(sa));
                    x[a].s = std::move(n2);
                    break;
                }
                case 6:
                {
                    what = "move construction";
                    auto n2 = std::make_unique<Owned>(e, e.ops.moved(sa));
                    x[a].s = std::move(n2);
                    break;
                }
                default:
                {
                    what = "exchange of encodings";
                    // each decodes what the other one encodes
                    std::string sd = cborOf(sa, ps), dd2 = cborOf(da, ps);
                    auto s2 = std::make_unique<Owned>(e);
                    auto d2 = std::make_unique<Instance>(dd);
                    dots::from_cbor(std::vector<uint8_t>(dd2.begin(), dd2.end()), **s2);
                    dots::from_cbor(std::vector<uint8_t>(sd.begin(), sd.end()), **d2);
                    x[a].s = std::move(s2);
                    x[a].d = std::move(d2);
                    break;
                }
            }
            what = cat(a ? "b" : "a", a == b ? " itself " : " ", untyped ? "" : "typed ", what, " ", ps.toString());
            c.log << what << "\n";
            alike(what);
        }
        observe(c.s.boolean() ? ~0u : genSubset(c.s, t.all()), "all");
        c.nontrivial(t.props.size() > 1 && v[0].fields.size() > 1 && n > 0);
    }
}

bool x26::add(void (*f)(Registration&))
{
    adders().push_back(f);
    return true;
}

int main(int argc, char** argv)
{
    for (auto* f : adders()) f(registration());
    pbt::Check check;
    check.property = "X26";
    check.rule = "declared: a type with more than one property or enumerator; objects: a type with more than one property, an object with more than one of them set, and at least one operation";
    check.subs = {
        { "declared", declared, 20000, 200000 },
        { "objects", objects, 150000, 2500000 },
    };
    check.assumptions = { "models are generated from the seed, translated by the code generator with the templates of the repository, and compiled by clang++ and g++ in turn; names that collide with C++ keywords or macros, with an enclosing type or with another name plus _p or _pt, types that contain themselves and vectors of vectors are not generated" };
    return pbt::run(argc, argv, check);
}
