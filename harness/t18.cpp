// T18: the registry of types and the pool of caches never lose or duplicate an entry.
#include "subject.h"
#include <dots/ContainerPool.h>
#include <dots/type/Registry.h>
#include <dots/type/DynamicEnum.h>

using namespace mdl;
using pbt::cat;
using dots::type::Registry;
using Desc = dots::type::Descriptor<>;
using dots::type::EnumDescriptor;
using dots::type::StructDescriptor;
using dots::type::VectorDescriptor;

namespace
{
    template <typename F>
    bool throws(F f)
    {
        try { f(); return false; } catch (const std::exception&) { return true; }
    }

    TypeP prim(Type k) { auto t = std::make_shared<MType>(); t->k = k; return t; }
    TypeP structType(StructP s) { auto t = std::make_shared<MType>(); t->k = Type::Struct; t->s = std::move(s); return t; }
    TypeP enumType(std::shared_ptr<const EnumT> e) { auto t = std::make_shared<MType>(); t->k = Type::Enum; t->e = std::move(e); return t; }
    TypeP vectorOf(TypeP p) { auto t = std::make_shared<MType>(); t->k = Type::Vector; t->elem = std::move(p); return t; }

    // everything a modelled type is built from, directly
    std::vector<TypeP> partsOf(const MType& t)
    {
        std::vector<TypeP> r;
        if (t.k == Type::Vector) r.push_back(t.elem);
        else if (t.k == Type::Enum) r.push_back(prim(Type::int32));
        else if (t.k == Type::Struct) for (auto& p : t.s->props) r.push_back(p.type);
        return r;
    }

    // a family of types that are built from each other, all of them known by name
    struct Family
    {
        Dynamic dyn;
        std::vector<TypeP> types;
        std::map<std::string, TypeP> byName;

        void add(const TypeP& t)
        {
            if (!byName.emplace(t->name(), t).second) return;
            types.push_back(t);
            for (auto& p : partsOf(*t)) add(p);
        }

        Desc& get(const MType& t) { return dyn.get(t); }
    };

    void family(pbt::Src& s, Family& f, const GenOpts& o, const std::string& prefix)
    {
        TypeGen g{ s, o };
        g.prefix = prefix;
        size_t n = 1 + s.below(3);
        for (size_t i = 0; i < n; ++i) f.add(structType(g.structT(o.maxDepth)));
        for (auto& p : g.structs)
        {
            f.add(structType(p));
            if (s.chance(1, 3)) f.add(vectorOf(structType(p)));
        }
        for (auto& e : g.enums)
        {
            f.add(enumType(e));
            if (s.chance(1, 3)) f.add(vectorOf(enumType(e)));
        }
    }

    void compare(pbt::Ctx& c, Registry& r, const std::map<std::string, const Desc*>& m)
    {
        const Registry& cr = r;
        c.check(r.size() == m.size(), cat("there are ", r.size(), " instead of ", m.size(), " types"));
        auto it = m.begin();
        for (auto& [name, d] : cr)
        {
            c.check(it != m.end() && it->first == name && it->second == d.get() && d->name() == name, cat("type ", std::string{ name }, " instead of ", it == m.end() ? "none" : it->first));
            ++it;
        }
        it = m.begin();
        size_t structs = 0, enums = 0, vectors = 0;
        r.forEach([&](const Desc& d) { c.check(it != m.end() && it->second == &d, "visited another type"); ++it; });
        c.check(it == m.end(), "not all types were visited");
        std::set<const Desc*> seen;
        r.forEach<StructDescriptor>([&](const StructDescriptor& d) { ++structs; c.check(m.at(d.name()) == &d && seen.insert(&d).second, "visited struct"); });
        r.forEach<EnumDescriptor, VectorDescriptor>([&](const auto& d)
        {
            ++(d.type() == dots::type::Type::Enum ? enums : vectors);
            c.check(m.at(d.name()) == &d && seen.insert(&d).second, "visited type");
        });
        size_t filtered = 0;
        r.forEach([&](const Desc&) { ++filtered; }, [](const Desc& d) { return d.type() == dots::type::Type::Struct; });
        size_t ws = 0, we = 0, wv = 0;
        for (auto& [n, d] : m)
        {
            ws += d->type() == dots::type::Type::Struct;
            we += d->type() == dots::type::Type::Enum;
            wv += d->type() == dots::type::Type::Vector;
        }
        c.check(structs == ws && enums == we && vectors == wv && filtered == ws, "number of visited types of a kind");
    }

    void lookup(pbt::Ctx& c, Registry& r, const std::map<std::string, const Desc*>& m, const std::string& name)
    {
        auto it = m.find(name);
        const Desc* want = it == m.end() ? nullptr : it->second;
        const Registry& cr = r;
        bool st = want && want->type() == dots::type::Type::Struct, en = want && want->type() == dots::type::Type::Enum;
        c.check(r.findType(name) == want && cr.findType(name) == want && r.hasType(name) == (want != nullptr), cat("lookup of ", pbt::quote(name)));
        c.check(static_cast<const Desc*>(r.findStructType(name)) == (st ? want : nullptr) && static_cast<const Desc*>(cr.findStructType(name)) == (st ? want : nullptr), cat("lookup of struct ", pbt::quote(name)));
        c.check(static_cast<const Desc*>(r.findEnumType(name)) == (en ? want : nullptr) && static_cast<const Desc*>(cr.findEnumType(name)) == (en ? want : nullptr), cat("lookup of enum ", pbt::quote(name)));
        const Desc* got = nullptr;
        c.check(throws([&] { got = &cr.getType(name); }) == !want && got == want, cat("getting ", pbt::quote(name)));
        got = nullptr;
        c.check(throws([&] { got = &r.getStructType(name); }) == !st && got == (st ? want : nullptr), cat("getting struct ", pbt::quote(name)));
        got = nullptr;
        c.check(throws([&] { got = &r.getEnumType(name); }) == !en && got == (en ? want : nullptr), cat("getting enum ", pbt::quote(name)));
        c.check(throws([&] { (void)r.findType(name, true); }) == !want, cat("asserted lookup of ", pbt::quote(name)));
    }

    bool userType(const Desc& d)
    {
        if (auto s = d.as<StructDescriptor>()) return !s->internal();
        if (auto v = d.as<VectorDescriptor>()) return userType(v->valueDescriptor());
        return false;
    }

    bool fundamental(const Desc& d)
    {
        if (auto v = d.as<VectorDescriptor>()) return fundamental(v->valueDescriptor());
        return d.type() != dots::type::Type::Struct && d.type() != dots::type::Type::Enum;
    }

    void registry(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(c.s.below(3));
        o.maxProps = 4;
        o.maxText = 8;
        Family f;
        family(c.s, f, o, "Gen");
        // other types under the same names
        Family f2;
        bool clash = c.s.boolean();
        if (clash) family(c.s, f2, o, "Gen");
        else f2.add(structType(std::make_shared<StructT>(StructT{ "Other", 0, {} })));

        std::map<std::string, const Desc*> m;
        std::vector<const Desc*> announced;
        auto policy = c.s.one<Registry::StaticTypePolicy>({ Registry::StaticTypePolicy::All, Registry::StaticTypePolicy::InternalOnly, Registry::StaticTypePolicy::FundamentalOnly });
        bool handler = !c.s.chance(1, 6);
        Registry* self = nullptr;
        std::optional<Registry::new_type_handler_t> h;
        if (handler) h = [&](const Desc& d)
        {
            announced.push_back(&d);
            // it is known when it is announced
            if (self->findType(d.name()) != &d) c.failLater(cat(d.name(), " is not known while it is announced"));
        };
        Registry r{ h, policy };
        self = &r;
        for (auto& [name, d] : dots::type::static_descriptors())
        {
            if (policy == Registry::StaticTypePolicy::All || (policy == Registry::StaticTypePolicy::InternalOnly && !userType(*d)) || (policy == Registry::StaticTypePolicy::FundamentalOnly && fundamental(*d)))
                m.emplace(std::string{ name }, d.get());
        }
        c.check(announced.empty(), "types were announced that were known from the beginning");
        compare(c, r, m);
        for (auto k : { Type::boolean, Type::int8, Type::uint64, Type::string, Type::uuid, Type::property_set, Type::duration })
        {
            lookup(c, r, m, prim(k)->name());
            c.check(r.hasType(prim(k)->name()), cat(prim(k)->name(), " is not known"));
        }

        size_t steps = 6 + c.s.length(20);
        size_t added = 0, removed = 0, refused = 0;
        std::set<const Desc*> gone;
        for (size_t k = 0; k < steps; ++k)
        {
            Family& g = c.s.chance(1, 4) ? f2 : f;
            TypeP t = c.s.pick(g.types);
            for (int again = 0; again < 2 && (t->k != Type::Struct || t->s->props.empty()); ++again) t = c.s.pick(g.types);
            Desc& d = g.get(*t);
            switch (c.s.weighted({ 6, 3, 3, 1 }))
            {
                case 0:
                {
                    bool assertNew = c.s.boolean();
                    c.log << "register " << d.name() << (&g == &f2 ? "'" : "") << (assertNew ? " as a new type" : "") << "\n";
                    announced.clear();
                    auto known = m.find(d.name());
                    const Desc* before = known == m.end() ? nullptr : known->second;
                    const Desc* got = nullptr;
                    bool thrown = throws([&]
                    {
                        if (c.s.boolean()) got = &r.registerType(d, assertNew);
                        else got = &r.registerType(std::static_pointer_cast<Desc>(d.shared_from_this()), assertNew);
                    });
                    c.throwIfFailed();
                    if (before)
                    {
                        c.check(thrown == assertNew, thrown ? "a known type was refused" : "a second type was accepted although it had to be new");
                        c.check(thrown || got == before, "another type was returned");
                        c.check(announced.empty(), "a known type was announced");
                        ++refused;
                    }
                    else
                    {
                        c.check(!thrown && got == &d, "a new type was refused");
                        // everything missing it is built from, each of it once and after its own parts
                        std::vector<const Desc*> want;
                        std::set<std::string> missing;
                        std::function<void(const TypeP&)> visit = [&](const TypeP& p)
                        {
                            if (m.count(p->name()) || !missing.insert(p->name()).second) return;
                            for (auto& q : partsOf(*p)) visit(q);
                            want.push_back(&g.get(*p));
                        };
                        visit(t);
                        for (auto* w : want) m.emplace(w->name(), w);
                        if (handler)
                        {
                            c.check(announced.size() == want.size(), cat(announced.size(), " instead of ", want.size(), " types were announced"));
                            c.check(std::set<const Desc*>(announced.begin(), announced.end()) == std::set<const Desc*>(want.begin(), want.end()), "other types were announced");
                            std::map<const Desc*, size_t> at;
                            for (size_t i = 0; i < announced.size(); ++i) at[announced[i]] = i;
                            for (auto* w : want)
                                for (auto& q : partsOf(*g.byName.at(w->name())))
                                    if (auto it = at.find(&g.get(*q)); it != at.end()) c.check(it->second < at[w], cat(w->name(), " was announced before ", q->name(), " which it is built from"));
                        }
                        else c.check(announced.empty(), "announcement without handler");
                        added += want.size();
                    }
                    break;
                }
                case 1:
                {
                    bool assertKnown = c.s.boolean(), byName = c.s.boolean();
                    c.log << "deregister " << d.name() << (assertKnown ? " which has to be known" : "") << "\n";
                    announced.clear();
                    bool known = m.count(d.name());
                    bool thrown = throws([&] { if (byName) r.deregisterType(d.name(), assertKnown); else r.deregisterType(d, assertKnown); });
                    c.check(thrown == (!known && assertKnown), thrown ? "refused" : "an unknown type was deregistered");
                    c.check(announced.empty(), "deregistering announced something");
                    if (known) ++removed;
                    m.erase(d.name());
                    break;
                }
                case 2:
                {
                    std::string name = d.name();
                    switch (c.s.below(6))
                    {
                        case 0: name.pop_back(); break;
                        case 1: name += 'x'; break;
                        case 2: name = "vector<" + name + ">"; break;
                        case 3: name = genText(c.s, o); break;
                        case 4: { auto it = m.begin(); std::advance(it, static_cast<std::ptrdiff_t>(c.s.below(m.size()))); name = it->first; break; }
                        default: break;
                    }
                    lookup(c, r, m, name);
                    break;
                }
                default:
                {
                    compare(c, r, m);
                    break;
                }
            }
            lookup(c, r, m, d.name());
            c.check(r.size() == m.size(), cat("there are ", r.size(), " instead of ", m.size(), " types"));
        }
        compare(c, r, m);
        for (auto* g : { &f, &f2 }) for (auto& t : g->types) lookup(c, r, m, t->name());
        c.nontrivial(added >= 3 && removed + refused > 0);
    }

    void map(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1;
        o.maxProps = 2;
        Family f, f2;
        family(c.s, f, o, "Gen");
        family(c.s, f2, o, "Gen");
        dots::type::DescriptorMap x;
        const auto& cx = x;
        std::map<std::string, const Desc*> m;
        auto verify = [&]
        {
            c.check(x.size() == m.size() && x.data().size() == m.size(), cat("the size is ", x.size(), " instead of ", m.size()));
            auto it = m.begin();
            for (auto& [name, d] : x) { c.check(it != m.end() && name == it->first && d.get() == it->second, "content"); ++it; }
            c.check(it == m.end() && static_cast<size_t>(std::distance(cx.cbegin(), cx.cend())) == m.size(), "content");
        };
        size_t steps = 5 + c.s.length(16), ops = 0;
        for (size_t k = 0; k < steps; ++k)
        {
            Family& g = c.s.boolean() ? f2 : f;
            Desc& d = g.get(*c.s.pick(g.types));
            const std::string& name = d.name();
            bool has = m.count(name);
            switch (c.s.below(6))
            {
                case 0:
                {
                    c.log << "try " << name << "\n";
                    auto [p, emplaced] = x.tryEmplace(d);
                    c.check(emplaced == !has && p == (has ? m[name] : &d), "tryEmplace");
                    m.emplace(name, &d);
                    break;
                }
                case 1:
                {
                    c.log << "add " << name << "\n";
                    const Desc* got = nullptr;
                    bool shared = c.s.boolean();
                    bool thrown = throws([&] { if (shared) got = &x.emplace(std::static_pointer_cast<Desc>(d.shared_from_this())); else got = &x.emplace(d); });
                    c.check(thrown == has && (thrown || got == &d), "emplace");
                    m.emplace(name, &d);
                    break;
                }
                case 2:
                {
                    bool assertHas = c.s.boolean(), byName = c.s.boolean();
                    c.log << "erase " << name << "\n";
                    bool thrown = throws([&] { if (byName) x.erase(name, assertHas); else x.erase(d, assertHas); });
                    c.check(thrown == (assertHas && !has), "erase");
                    ops += has;
                    m.erase(name);
                    break;
                }
                case 3:
                    if (c.s.chance(1, 6)) { x.clear(); m.clear(); }
                    break;
                default: break;
            }
            const Desc* want = m.count(name) ? m[name] : nullptr;
            c.check(cx.find(name) == want && x.find(name) == want && x.contains(name) == (want != nullptr), cat("lookup of ", name));
            c.check(throws([&] { (void)x.get(name); }) == !want && throws([&] { (void)cx.find(name, true); }) == !want, cat("asserted lookup of ", name));
            verify();
        }
        c.nontrivial(ops > 0);
    }

    // ---- pool of caches
    void pool(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1;
        o.maxProps = 3;
        o.maxText = 6;
        // types with the same names in different families are never cached at the same time
        std::vector<std::unique_ptr<Family>> families;
        size_t n = 1 + c.s.below(2);
        for (size_t i = 0; i < n; ++i)
        {
            families.push_back(std::make_unique<Family>());
            TypeGen g{ c.s, o };
            size_t k = 1 + c.s.below(4);
            for (size_t j = 0; j < k; ++j) families.back()->add(structType(g.structT(1, true, c.s.boolean() ? std::optional<uint8_t>{ StructDescriptor::Cached } : std::nullopt)));
        }
        struct Candidate { const StructDescriptor* d; StructP t; };
        std::vector<Candidate> types;
        for (auto& f : families)
            for (auto& t : f->types)
                if (t->k == Type::Struct) types.push_back({ &f->dyn.get(*t->s), t->s });
        auto& st = staticTypes();
        for (size_t i = 0; i < st.size(); ++i) if (c.s.chance(1, 4)) types.push_back({ st[i].first, st[i].second });
        if (c.s.boolean()) types.push_back({ &VfKeys::_Descriptor(), describeStruct(VfKeys::_Descriptor()) });

        struct Entry
        {
            const Candidate* type;
            dots::Container<>* where;
            size_t objects = 0;
        };
        std::map<std::string, Entry> m;
        std::map<std::string, bool> everRemoved;
        std::vector<dots::ContainerPool::node_t> kept;
        dots::ContainerPool first;
        dots::ContainerPool* p = &first;
        std::unique_ptr<dots::ContainerPool> moved;

        auto verify = [&]
        {
            const dots::ContainerPool& cp = *p;
            c.check(p->size() == m.size() && p->empty() == m.empty(), cat("there are ", p->size(), " instead of ", m.size(), " caches"));
            std::set<const StructDescriptor*> seen;
            size_t usage = 0;
            auto visit = [&](const dots::Container<>& x)
            {
                auto& d = x.descriptor();
                c.check(seen.insert(&d).second, cat("two caches of ", d.name()));
                auto it = m.find(d.name());
                c.check(it != m.end() && it->second.type->d == &d && it->second.where == &x, cat("unexpected cache of ", d.name()));
                c.check(x.size() == it->second.objects, cat("the cache of ", d.name(), " has ", x.size(), " instead of ", it->second.objects, " objects"));
                usage += x.totalMemoryUsage();
            };
            for (auto& [d, x] : cp) { c.check(d == &x.descriptor(), "key"); visit(x); }
            c.check(seen.size() == m.size(), "missing caches");
            seen.clear();
            usage = 0;
            p->forEach(visit);
            c.check(seen.size() == m.size() && p->totalMemoryUsage() == usage, "visit of all caches");
            for (auto& t : types)
            {
                auto& d = *t.d;
                auto it = m.find(d.name());
                const dots::Container<>* byName = it == m.end() ? nullptr : it->second.where;
                const dots::Container<>* byType = byName && it->second.type->d == &d ? byName : nullptr;
                c.check(cp.find(d) == byType && p->find(d) == byType, cat("lookup of the cache of ", d.name(), " by its type"));
                c.check(cp.find(d.name()) == byName && p->find(d.name()) == byName, cat("lookup of the cache of ", d.name(), " by its name finds ", cp.find(d.name()) ? "something" : "nothing"));
                const dots::Container<>* got = nullptr;
                c.check(throws([&] { got = &cp.get(d, false); }) == !byType && got == byType, cat("getting the cache of ", d.name(), " by its type"));
                got = nullptr;
                c.check(throws([&] { got = &p->get(d.name()); }) == !byName && got == byName, cat("getting the cache of ", d.name(), " by its name"));
                got = nullptr;
                c.check(throws([&] { got = &cp.get(d.name()); }) == !byName && got == byName, cat("getting the constant cache of ", d.name(), " by its name"));
            }
            if (auto it = m.find("VfKeys"); it == m.end() || it->second.type->d == &VfKeys::_Descriptor())
            {
                const void* byName = it == m.end() ? nullptr : it->second.where;
                c.check(p->find<VfKeys>() == byName && cp.find<VfKeys>() == byName, "lookup by static type");
            }
            c.check(!p->find("NoSuchType") && throws([&] { (void)p->get("NoSuchType"); }), "unknown name");
        };

        size_t steps = 6 + c.s.length(20), removals = 0;
        for (size_t k = 0; k < steps; ++k)
        {
            const Candidate& t = c.s.pick(types);
            auto& d = *t.d;
            auto it = m.find(d.name());
            bool other = it != m.end() && it->second.type->d != &d;
            switch (c.s.weighted({ 6, 4, 4, 1 }))
            {
                case 0:
                {
                    if (other) break;
                    c.log << "get " << d.name() << "\n";
                    dots::Container<>* x = nullptr;
                    size_t how = c.s.below(3);
                    if (how == 0) x = &p->get(d);
                    else if (how == 1) x = const_cast<dots::Container<>*>(&std::as_const(*p).get(d));
                    else if (&d == &VfKeys::_Descriptor()) x = &p->get<VfKeys>();
                    else x = &p->get(d, true);
                    if (it != m.end()) c.check(x == it->second.where, "a second cache of the type");
                    else
                    {
                        c.check(&x->descriptor() == &d && x->empty(), "a new cache of another type or with content");
                        m[d.name()] = { &t, x, 0 };
                    }
                    break;
                }
                case 1:
                {
                    c.log << "remove " << d.name() << "\n";
                    bool has = it != m.end() && !other;
                    dots::ContainerPool::node_t node;
                    bool thrown = throws([&] { node = p->remove(d); });
                    c.check(thrown == !has, thrown ? "refused to remove a cache" : "removed an absent cache");
                    if (has)
                    {
                        c.check(!node.empty() && node.key() == &d && &node.mapped() == it->second.where && node.mapped().size() == it->second.objects, "the removed cache is another one");
                        m.erase(it);
                        ++removals;
                        if (c.s.boolean()) kept.push_back(std::move(node));
                    }
                    break;
                }
                case 2:
                {
                    if (it == m.end() || other || !d.cached()) break;
                    c.log << "insert into " << d.name() << "\n";
                    MValue v = genStruct(c.s, *t.t, o, true);
                    Instance i{ d };
                    write(*i, *t.t, v);
                    DotsHeader header;
                    header.typeName = d.name();
                    header.attributes = dots::property_set_t{ v.valid() };
                    header.sentTime = dots::timepoint_t{};
                    header.sender = 1u;
                    header.removeObj = false;
                    it->second.where->insert(header, *i);
                    it->second.objects = it->second.where->size();
                    c.check(it->second.objects > 0, "empty cache");
                    break;
                }
                default:
                    // all of it at once
                    if (!moved)
                    {
                        c.log << "move\n";
                        moved = std::make_unique<dots::ContainerPool>(std::move(first));
                        p = moved.get();
                    }
                    break;
            }
            verify();
        }
        kept.clear();
        verify();
        c.nontrivial(removals > 0 && m.size() > 0);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "T18";
    check.rule = "registry: at least 3 types became known and one was deregistered or refused; map: an entry was erased; pool: a cache was removed and others remain";
    check.subs = {
        { "registry", registry, 40000, 300000 },
        { "map", map, 40000, 300000 },
        { "pool", pool, 50000, 500000 },
    };
    check.assumptions = { "descriptors outlive the caches of their types; two types of the same name are not cached in one pool at the same time" };
    return pbt::run(argc, argv, check);
}
