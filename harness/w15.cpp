// W15: peers that share no code agree on types.
#include "subject.h"
#include <deque>
#include <dots/asio.h>
#include <dots/io/DescriptorConverter.h>
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/tools/logging.h>

using namespace mdl;
using pbt::cat;
using dots::type::Registry;
using Policy = Registry::StaticTypePolicy;

namespace
{
    // a named part of a type: a struct or an enum
    struct Part
    {
        StructP s;
        std::shared_ptr<const EnumT> e;
        const std::string& name() const { return s ? s->name : e->name; }
    };

    void parts(const MType& t, std::vector<Part>& out);

    bool known(const std::vector<Part>& v, const std::string& name)
    {
        for (auto& p : v) if (p.name() == name) return true;
        return false;
    }

    // everything a struct is built from and the struct itself, dependencies first; nothing for internal structs
    void parts(const StructP& t, std::vector<Part>& out)
    {
        if (known(out, t->name) || (t->flags & 2)) return;
        for (auto& p : t->props) parts(*p.type, out);
        out.push_back({ t, nullptr });
    }

    void parts(const MType& t, std::vector<Part>& out)
    {
        if (t.k == Type::Vector) parts(*t.elem, out);
        else if (t.k == Type::Struct) parts(t.s, out);
        else if (t.k == Type::Enum && !known(out, t.e->name)) out.push_back({ nullptr, t.e });
    }

    void directParts(const Part& p, std::set<std::string>& out)
    {
        if (!p.s) return;
        for (auto& prop : p.s->props)
        {
            const MType* t = prop.type.get();
            if (t->k == Type::Vector) t = t->elem.get();
            if (t->k == Type::Struct && !(t->s->flags & 2)) out.insert(t->s->name);
            if (t->k == Type::Enum) out.insert(t->e->name);
        }
    }

    std::string show(const EnumT& e)
    {
        std::string r = "enum " + e.name + " {";
        for (auto& i : e.items) r += cat(" ", i.tag, ":", i.name, "=", i.value);
        return r + " }";
    }

    std::string show(const Part& p) { return p.s ? mdl::show(*p.s) : show(*p.e); }

    // ---- descriptions
    StructDescriptorData dataOf(const StructT& t)
    {
        StructDescriptorData d{
            .name = t.name,
            .flags = DotsStructFlags{
                .cached = (t.flags & 1) != 0,
                .internal = (t.flags & 2) != 0,
                .persistent = (t.flags & 4) != 0,
                .cleanup = (t.flags & 8) != 0,
                .local = (t.flags & 16) != 0,
                .substructOnly = (t.flags & 32) != 0
            }
        };
        auto& props = d.properties.emplace();
        for (auto& p : t.props)
            props.push_back(StructPropertyData{ .name = p.name, .tag = p.tag, .isKey = p.key, .type = p.type->name() });
        return d;
    }

    EnumDescriptorData dataOf(const EnumT& e)
    {
        EnumDescriptorData d{ .name = e.name };
        auto& items = d.elements.emplace();
        for (auto& i : e.items) items.push_back(EnumElementDescriptor{ .enum_value = i.value, .name = i.name, .tag = i.tag });
        return d;
    }

    // what a description says, independently of the library's comparison
    std::string text(const StructDescriptorData& d)
    {
        auto flag = [](auto& p) { return !p.isValid() ? "-" : *p ? "1" : "0"; };
        std::string r = "struct " + (d.name.isValid() ? *d.name : std::string{ "<none>" }) + " flags ";
        if (!d.flags.isValid()) r += "none";
        else r += cat(flag(d.flags->cached), flag(d.flags->internal), flag(d.flags->persistent), flag(d.flags->cleanup), flag(d.flags->local), flag(d.flags->substructOnly));
        r += " {";
        if (d.properties.isValid())
            for (const auto& p : *d.properties)
                r += cat(" ", p.tag.isValid() ? cat(*p.tag) : "-", ":", p.isKey.isValid() ? (*p.isKey ? "[key]" : "") : "-", p.type.isValid() ? *p.type : "-", " ", p.name.isValid() ? *p.name : "-", ";");
        return r + " }";
    }

    std::string text(const EnumDescriptorData& d)
    {
        std::string r = "enum " + (d.name.isValid() ? *d.name : std::string{ "<none>" }) + " {";
        if (d.elements.isValid())
            for (const auto& e : *d.elements) r += cat(" ", e.tag.isValid() ? cat(*e.tag) : "-", ":", e.name.isValid() ? *e.name : "-", "=", e.enum_value.isValid() ? cat(*e.enum_value) : "-");
        return r + " }";
    }

    std::string textOf(const Part& p) { return p.s ? text(dataOf(*p.s)) : text(dataOf(*p.e)); }

    std::string text(dots::io::DescriptorConverter& c, const dots::type::Descriptor<>& d)
    {
        if (auto* s = d.as<dots::type::StructDescriptor>()) return text(c(*s));
        if (auto* e = d.as<dots::type::EnumDescriptor>()) return text(c(*e));
        return "neither struct nor enum: " + d.name();
    }

    const std::vector<Part>& staticParts()
    {
        static const auto* v = []
        {
            auto* r = new std::vector<Part>;
            for (auto* d : std::initializer_list<const dots::type::StructDescriptor*>{ &VfLeaf::_Descriptor(), &VfInner::_Descriptor(), &VfKeys::_Descriptor(), &VfAll::_Descriptor(), &VfSubKey::_Descriptor(),
                    &VfCleanup::_Descriptor(), &VfPlain::_Descriptor(), &VfUncached::_Descriptor(), &VfNoKey::_Descriptor(), &VfLocal::_Descriptor() })
                parts(describeStruct(*d), *r);
            return r;
        }();
        return *v;
    }

    GenOpts options(pbt::Src& s)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(s.below(3));
        o.maxProps = s.chance(1, 10) ? 31 : 8;
        return o;
    }

    std::vector<std::string> names(const Registry& r)
    {
        std::vector<std::string> v;
        for (auto& [name, d] : r) v.push_back(std::string{ name });
        return v;
    }

    // the model of a family of types: several structs that share parts
    struct Family
    {
        std::vector<StructP> tops;
        std::vector<Part> all;      // dependencies first
    };

    Family family(pbt::Ctx& c, const GenOpts& o, const std::string& prefix, size_t n, bool useStatic)
    {
        Family f;
        TypeGen g{ c.s, o };
        g.prefix = prefix;
        if (useStatic)
        {
            for (auto& p : staticParts())
            {
                if (p.e) g.enums.push_back(p.e);
                else if (p.s->name == "VfLeaf" || p.s->name == "VfKeys" || p.s->name == "VfInner") g.structs.push_back(p.s);
            }
        }
        for (size_t i = 0; i < n; ++i)
        {
            uint8_t flags = static_cast<uint8_t>(c.s.chance(1, 2) ? 1 : c.s.draw(63) & ~2u);
            f.tops.push_back(g.structT(o.maxDepth, c.s.boolean(), flags));
            parts(f.tops.back(), f.all);
        }
        return f;
    }

    // ---- rebuilding
    // checks the description of a type that is now known to the registry
    void checkRebuilt(pbt::Ctx& c, Registry& r, const Part& p, const dots::type::Descriptor<>& d)
    {
        c.check(d.name() == p.name(), cat("the rebuilt type is called ", d.name(), " instead of ", p.name()));
        if (p.s)
        {
            auto* found = r.findStructType(p.name());
            c.check(found == &d, "the rebuilt struct is not found under its name: " + p.name());
            auto* sd = d.as<dots::type::StructDescriptor>();
            StructP got = describeStruct(*sd);
            c.check(text(dataOf(*got)) == textOf(p), cat("the rebuilt struct differs:\n  ", text(dataOf(*got)), "\nfrom its description\n  ", textOf(p)));
            uint32_t keys = 0;
            for (auto& pd : sd->propertyDescriptors()) if (pd.isKey()) keys |= 1u << pd.tag();
            c.check(sd->keyProperties().toValue() == p.s->keys() && sd->properties().toValue() == p.s->all() && keys == p.s->keys(), "key or property set of the rebuilt struct differ: " + p.name());
            c.check(sd->flags() == p.s->flags, cat("flags of ", p.name(), " became ", +sd->flags(), " instead of ", +p.s->flags));
        }
        else
        {
            auto* found = r.findEnumType(p.name());
            c.check(found == &d, "the rebuilt enum is not found under its name: " + p.name());
            for (auto& i : p.e->items)
            {
                auto* ed = d.as<dots::type::EnumDescriptor>();
                auto& byTag = ed->enumeratorFromTag(i.tag);
                auto& byName = ed->enumeratorFromName(i.name);
                c.check(byTag.name() == i.name && byTag.tag() == i.tag && byTag.valueTypeless().to<int32_t>() == i.value && &byTag == &byName,
                    cat("enumerator ", i.tag, " of the rebuilt ", p.name(), " differs"));
            }
        }
        dots::io::DescriptorConverter conv{ r };
        c.check(text(conv, d) == textOf(p), cat("the rebuilt type describes itself as\n  ", text(conv, d), "\ninstead of\n  ", textOf(p)));
    }

    dots::type::Descriptor<>& import(Registry& r, const Part& p)
    {
        dots::io::DescriptorConverter conv{ r };
        if (p.s) return conv(dataOf(*p.s));
        return conv(dataOf(*p.e));
    }

    // sends the description through the binary format
    dots::type::Descriptor<>& importWire(pbt::Ctx& c, Registry& from, const dots::type::Descriptor<>& original, Registry& to, const Part& p)
    {
        dots::io::DescriptorConverter out{ from }, in{ to };
        if (p.s)
        {
            StructDescriptorData data = out(*original.as<dots::type::StructDescriptor>());
            c.check(text(data) == textOf(p), cat("the type is described as\n  ", text(data), "\ninstead of\n  ", textOf(p)));
            c.check(data == dataOf(*p.s), "the description compares different from an identical one: " + text(data));
            StructDescriptorData received;
            dots::from_cbor(dots::to_cbor(data), received);
            return in(received);
        }
        else
        {
            EnumDescriptorData data = out(*original.as<dots::type::EnumDescriptor>());
            c.check(text(data) == textOf(p), cat("the type is described as\n  ", text(data), "\ninstead of\n  ", textOf(p)));
            EnumDescriptorData received;
            dots::from_cbor(dots::to_cbor(data), received);
            return in(received);
        }
    }

    const dots::type::Descriptor<>& descriptorOf(Dynamic& dyn, const Part& p, Registry* statics)
    {
        if (statics)
            if (auto* d = statics->findType(p.name())) return *d;
        if (p.s) return dyn.get(*p.s);
        return dyn.get(*p.e);
    }

    void rebuild(pbt::Ctx& c)
    {
        GenOpts o = options(c.s);
        bool useStatic = c.s.boolean();
        Policy policy = c.s.one<Policy>({ Policy::FundamentalOnly, Policy::All, Policy::InternalOnly });
        Family f = family(c, o, "Gen", 1 + c.s.length(3), useStatic);
        bool statics = c.s.chance(1, 6);
        if (statics)
        {
            auto& v = staticParts();
            auto& p = v[c.s.below(v.size())];
            if (p.s) { f.tops.push_back(p.s); parts(p.s, f.all); }
        }
        c.log << "receiver knows " << (policy == Policy::All ? "all static types" : policy == Policy::InternalOnly ? "internal types" : "fundamental types") << "\n";
        for (auto& p : f.all) c.log << show(p) << "\n";

        static Registry all{ std::nullopt, Policy::All };
        Dynamic dyn;
        std::vector<std::string> announced;
        auto sink = [&](const dots::type::Descriptor<>& d) { announced.push_back(d.name()); };
        Registry r{ sink, policy };

        size_t vectors = 0, nested = 0, rebuilt = 0;
        std::map<std::string, const dots::type::Descriptor<>*> got;
        for (auto& p : f.all)
        {
            auto* before = r.findType(p.name());
            size_t size = r.size(), calls = announced.size();
            bool useOriginal = statics && c.s.boolean();
            auto& d = importWire(c, all, descriptorOf(dyn, p, useOriginal ? &all : nullptr), r, p);
            if (before)
            {
                c.check(&d == before && r.size() == size && announced.size() == calls, "describing a known type changed something: " + p.name());
                c.count("described a type known before");
            }
            else
            {
                ++rebuilt;
                bool told = std::find(announced.begin() + calls, announced.end(), p.name()) != announced.end();
                c.check(told, "the rebuilt type was not announced: " + p.name());
            }
            checkRebuilt(c, r, p, d);
            got[p.name()] = &d;
            if (p.s)
                for (auto& prop : p.s->props)
                {
                    if (prop.type->k == Type::Vector) ++vectors;
                    if (prop.type->k == Type::Struct || prop.type->k == Type::Enum) ++nested;
                }

            // earlier types are still what they were
            if (c.s.chance(1, 4))
            {
                auto& q = c.s.pick(f.all);
                if (auto it = got.find(q.name()); it != got.end()) checkRebuilt(c, r, q, *it->second);
            }
        }

        // describing any of them again, even as something else, changes nothing
        for (auto& p : f.all)
        {
            if (!c.s.chance(1, 3)) continue;
            size_t size = r.size(), calls = announced.size();
            Part q = p;
            if (c.s.boolean() && p.s)
            {
                auto t = std::make_shared<StructT>(*p.s);
                t->flags ^= 4;
                if (c.s.boolean()) t->props.pop_back();
                q.s = t;
            }
            auto& d = import(r, q);
            c.check(&d == got[p.name()] && r.size() == size && announced.size() == calls, "describing a known type again changed something: " + p.name());
            checkRebuilt(c, r, p, d);
        }

        // a second generation, rebuilt from the rebuilt types' own descriptions
        Registry r2{ std::nullopt, Policy::FundamentalOnly };
        bool second = c.s.chance(1, 3);
        if (second) for (auto& p : f.all) checkRebuilt(c, r2, p, importWire(c, r, *got[p.name()], r2, p));

        // objects
        for (auto& t : f.tops)
        {
            size_t n = 1 + c.s.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                MValue v = genStruct(c.s, *t, o, false, c.s.chance(1, 3));
                uint32_t set = c.s.chance(1, 4) ? genSubset(c.s, t->all()) : t->all();
                MValue want = restrict(v, set);
                Instance original{ dyn.get(*t) };
                write(*original, *t, v);
                auto data = dots::to_cbor(*original, dots::property_set_t{ set });
                auto& rd = *got[t->name]->as<dots::type::StructDescriptor>();
                Instance copy{ rd };
                dots::from_cbor(data, *copy);
                MValue there = read(*copy, *t);
                c.check(same(there, want), cat("an object of ", t->name, " differs at the receiver: ", firstDifference(want, there), "\nsent ", mdl::show(want)));
                auto data2 = dots::to_cbor(*copy);
                Instance back{ dyn.get(*t) };
                dots::from_cbor(data2, *back);
                c.check(same(read(*back, *t), want), cat("an object of ", t->name, " differs after the way back: ", firstDifference(want, read(*back, *t))));
                c.check((data == data2) , cat("the receiver encodes the object of ", t->name, " differently"));
                if (second)
                {
                    Instance third{ *r2.findStructType(t->name) };
                    dots::from_cbor(data2, *third);
                    c.check(same(read(*third, *t), want), cat("an object of ", t->name, " differs at the second receiver: ", firstDifference(want, read(*third, *t))));
                }
                // a copy of the received object is independent of it
                dots::type::AnyStruct other{ *copy };
                copy->_clear();
                c.check(same(read(other.get(), *t), want), cat("a copy of a received object of ", t->name, " changed with it"));
                c.count("objects");
            }
        }
        c.count("types rebuilt", rebuilt);
        c.count("vector properties", vectors);
        c.nontrivial(rebuilt >= 1 && nested + vectors >= 1);
    }

    // descriptions that cannot be fulfilled are refused and leave nothing behind under their name
    void refuse(pbt::Ctx& c)
    {
        GenOpts o = options(c.s);
        Family f = family(c, o, "Gen", 1 + c.s.below(2), c.s.boolean());
        Registry r{ std::nullopt, c.s.one<Policy>({ Policy::FundamentalOnly, Policy::All, Policy::InternalOnly }) };
        for (auto& p : f.all) if (!r.findType(p.name())) import(r, p);
        auto before = names(r);

        auto& t = *c.s.pick(f.tops);
        StructDescriptorData d = dataOf(t);
        d.name = "Refused";
        size_t i = c.s.below(d.properties->size());
        auto& p = (*d.properties)[i];
        size_t kind = c.s.below(9);
        bool bad = true;
        switch (kind)
        {
            case 0: p.type = c.s.one<const char*>({ "Unknown", "", "int3", "vector", "Refused", "vector<>", "vector<Refused>", "vector<Unknown>", "vector<int32", "vector<vector<int32>>", "vector<", ">", "Vector<int32>", "int32 " }); break;
            case 1: p.tag = c.s.one<uint32_t>({ 32, 33, 64, 255, 256, 4096, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu }); break;
            case 2:
                if (d.properties->size() < 2) { bad = false; break; }
                p.tag = (*d.properties)[(i + 1) % d.properties->size()].tag;
                break;
            case 3: p.name.reset(); break;
            case 4: p.tag.reset(); break;
            case 5: p.type.reset(); break;
            case 6: p.isKey.reset(); break;
            case 7: d.properties.reset(); break;
            default: d.name.reset(); break;
        }
        c.log << "description " << text(d) << "\n";
        dots::io::DescriptorConverter conv{ r };
        bool thrown = false;
        try { conv(d); }
        catch (const std::exception& e) { thrown = true; c.log << "refused: " << e.what() << "\n"; }
        if (!bad) { c.check(!thrown, "a correct description was refused"); return; }
        c.check(thrown, "an impossible description was accepted");
        c.check(r.findType("Refused") == nullptr, "a refused description left a type behind");
        // what was known still is
        for (auto& n : before) c.check(r.findType(n) != nullptr, "a refused description removed type " + n);
        for (auto& q : f.all) if (auto* x = r.findType(q.name())) checkRebuilt(c, r, q, *x);
        // and the type can be described correctly afterwards
        StructT again = t;
        again.name = "Refused";
        Part fixed{ std::make_shared<StructT>(again), nullptr };
        checkRebuilt(c, r, fixed, import(r, fixed));

        EnumDescriptorData e{ .name = "RefusedEnum" };
        e.elements.emplace();
        size_t n = 1 + c.s.below(3);
        for (size_t k = 0; k < n; ++k) e.elements->push_back(EnumElementDescriptor{ .enum_value = static_cast<int32_t>(k), .name = cat("e", k), .tag = static_cast<uint32_t>(k) });
        auto& item = (*e.elements)[c.s.below(n)];
        switch (c.s.below(4))
        {
            case 0: item.enum_value.reset(); break;
            case 1: item.name.reset(); break;
            case 2: item.tag.reset(); break;
            default: if (c.s.boolean()) e.elements.reset(); else e.name.reset(); break;
        }
        thrown = false;
        try { conv(e); } catch (const std::exception&) { thrown = true; }
        c.check(thrown, "an incomplete enum description was accepted: " + text(e));
        c.check(r.findType("RefusedEnum") == nullptr, "a refused enum description left a type behind");
        c.nontrivial(kind <= 2);
        c.count(cat("kind ", kind));
    }

    // ---- over a connection
    struct Side
    {
        std::string name;
        std::unique_ptr<Registry> registry;
        Dynamic dyn;
        dots::io::channel_ptr_t channel;
        std::map<std::string, Part> models;             // everything the side knows that can be sent or described
        std::map<std::string, std::string> definition;  // name -> text of what the side knows under this name
        std::set<std::string> shared;                   // sent or received on this connection
        std::deque<std::pair<StructP, MValue>> objects; // expected next
        // expected to be received: groups of descriptions, then an object
        struct Group { std::map<std::string, Part> descriptions; std::optional<std::pair<StructP, MValue>> object; uint32_t set = 0; std::string marker; };
        std::deque<Group> expected;
        size_t described = 0, received = 0, stale = 0;

        void know(const Part& p)
        {
            models.emplace(p.name(), p);
            definition.emplace(p.name(), textOf(p));
        }
    };

    // a channel that may refuse a message, as one does that has too much to write already
    struct FailingChannel : dots::io::LocalChannel
    {
        using dots::io::LocalChannel::LocalChannel;

        std::optional<size_t> failAfter;
        std::set<std::string> described;   // since failAfter was set

    protected:
        using dots::io::LocalChannel::transmitImpl;

        void transmitImpl(const DotsHeader& header, const dots::type::Struct& instance) override
        {
            if (failAfter)
            {
                if (*failAfter == 0) throw std::runtime_error{ "transmission failed" };
                --*failAfter;
                if (auto* s = instance._as<StructDescriptorData>()) described.insert(*s->name);
                else if (auto* e = instance._as<EnumDescriptorData>()) described.insert(*e->name);
            }
            LocalChannel::transmitImpl(header, instance);
        }
    };

    struct Net
    {
        pbt::Ctx& c;
        dots::asio::io_context io;
        Side a, b;

        Net(pbt::Ctx& c_) : c(c_) {}

        Side& other(Side& x) { return &x == &a ? b : a; }

        void start(Side& x)
        {
            x.channel->init(*x.registry);
            x.channel->asyncReceive(
                [this, &x](dots::io::Transmission t) { try { receive(x, t); } catch (const pbt::Failure&) {} return true; },
                [this, &x](std::exception_ptr e)
                {
                    try { std::rethrow_exception(e); }
                    catch (const std::exception& ex) { c.failLater(cat(x.name, " reports an error: ", ex.what())); }
                });
        }

        void described(Side& x, const std::string& name, const std::string& what)
        {
            ++x.described;
            c.check(!x.expected.empty(), cat(x.name, " received an unexpected description: ", what));
            auto& g = x.expected.front();
            auto it = g.descriptions.find(name);
            c.check(it != g.descriptions.end(), cat(x.name, " received a description that was not due: ", what));
            c.check(textOf(it->second) == what, cat(x.name, " received the description\n  ", what, "\ninstead of\n  ", textOf(it->second)));
            std::set<std::string> need;
            directParts(it->second, need);
            for (auto& n : need) c.check(!g.descriptions.count(n), cat(x.name, " received the description of ", name, " before that of ", n));
            Part p = it->second;
            g.descriptions.erase(it);
            x.shared.insert(name);

            // the type is known from now on, as described or as it was known before
            bool isNew = !x.definition.count(name);
            x.know(p);
            auto* d = x.registry->findType(name);
            c.check(d != nullptr, cat(x.name, " does not know ", name, " after its description"));
            dots::io::DescriptorConverter conv{ *x.registry };
            c.check(text(conv, *d) == x.definition[name], cat(x.name, " knows ", name, " as\n  ", text(conv, *d), "\ninstead of\n  ", x.definition[name]));
            if (isNew) c.count("types learned"); else c.count("descriptions of known types");
            finishGroup(x);
        }

        void finishGroup(Side& x)
        {
            while (!x.expected.empty() && x.expected.front().descriptions.empty() && !x.expected.front().object) x.expected.pop_front();
        }

        void receive(Side& x, const dots::io::Transmission& t)
        {
            if (c.failed) return;
            const dots::type::Struct& instance = t.instance();
            if (auto* s = instance._as<StructDescriptorData>()) return described(x, *s->name, text(*s));
            if (auto* e = instance._as<EnumDescriptorData>()) return described(x, *e->name, text(*e));
            ++x.received;
            const std::string& name = instance._descriptor().name();
            c.check(!x.expected.empty() && x.expected.front().object, cat(x.name, " received an unexpected object of ", name));
            auto& g = x.expected.front();
            c.check(g.object->first->name == name, cat(x.name, " received an object of ", name, " instead of ", g.object->first->name));
            for (auto& [n, p] : g.descriptions) c.fail(cat(x.name, " received an object of ", name, " without the description of ", n));
            c.check(&instance._descriptor() == x.registry->findStructType(name), cat("the object of ", name, " is not of the type the receiver knows"));
            MValue got = read(instance, *g.object->first);
            c.check(same(got, g.object->second), cat(x.name, " received another object of ", name, ": ", firstDifference(g.object->second, got)));
            c.check(t.header().typeName == name && t.header().attributes.isValid() && t.header().attributes->toValue() == g.set, cat("header of ", name, " differs"));
            g.object.reset();
            finishGroup(x);
        }

        // what has to be described before something built from these parts
        std::map<std::string, Part> due(Side& x, const std::vector<Part>& ps)
        {
            std::map<std::string, Part> r;
            for (auto& p : ps)
            {
                if (!x.shared.insert(p.name()).second) continue;
                r.emplace(p.name(), p);
            }
            return r;
        }

        const dots::type::Descriptor<>& find(Side& x, const Part& p)
        {
            auto* d = x.registry->findType(p.name());
            if (!d) c.fail(cat(x.name, " lost type ", p.name()));
            return *d;
        }

        void send(Side& x, const Part& p, const GenOpts& o)
        {
            Side& y = other(x);
            std::vector<Part> ps;
            parts(p.s, ps);
            MValue v = genStruct(c.s, *p.s, o, false, c.s.chance(1, 4));
            auto& d = static_cast<const dots::type::StructDescriptor&>(find(x, p));
            dots::type::AnyStruct instance{ d };
            write(instance.get(), *p.s, v);
            Side::Group g;
            g.descriptions = due(x, ps);
            uint32_t set = v.valid();
            size_t way = c.s.below(3);
            if (way != 0 && c.s.chance(1, 3)) set = genSubset(c.s, p.s->all());
            g.set = set;
            g.object.emplace(p.s, restrict(v, set));
            c.log << x.name << " sends " << p.name() << " (" << g.descriptions.size() << " descriptions due)\n";
            bool some = !g.descriptions.empty();
            bool fails = c.s.chance(1, 6);
            auto& channel = static_cast<FailingChannel&>(*x.channel);
            if (fails)
            {
                channel.failAfter = c.s.below(g.descriptions.size() + 1);
                channel.described.clear();
                c.log << "  fails after " << *channel.failAfter << " messages\n";
            }
            else y.expected.push_back(g);
            DotsHeader header{ .typeName = d.name(), .attributes = dots::property_set_t{ set } };
            bool refused = false;
            try
            {
                if (way == 0) x.channel->transmit(instance.get());
                else if (way == 1) x.channel->transmit(header, instance.get());
                else x.channel->transmit(dots::io::Transmission{ std::move(header), std::move(instance) });
            }
            catch (const std::exception&)
            {
                if (!fails) throw;
                refused = true;
            }
            if (fails)
            {
                c.check(refused, "a failed transmission is not reported");
                channel.failAfter.reset();
                // what was not sent is still due
                Side::Group sent;
                for (auto& [n, q] : g.descriptions)
                {
                    if (channel.described.count(n)) sent.descriptions.emplace(n, q);
                    else x.shared.erase(n);
                }
                if (!sent.descriptions.empty()) y.expected.push_back(std::move(sent));
                c.count("failed transmissions");
                return;
            }
            c.count(some ? "sent with descriptions" : "sent without descriptions");
        }

        void describe(Side& x, const Part& p)
        {
            Side& y = other(x);
            std::vector<Part> ps;
            if (p.s) parts(p.s, ps);
            else ps.push_back(p);
            Side::Group g;
            g.descriptions = due(x, ps);
            c.log << x.name << " describes " << p.name() << " (" << g.descriptions.size() << " due)\n";
            if (!g.descriptions.empty()) y.expected.push_back(std::move(g));
            x.channel->transmit(find(x, p));
        }

        void poll(size_t n)
        {
            for (size_t i = 0; i < n; ++i)
            {
                io.restart();
                if (io.poll_one() == 0) break;
            }
            c.throwIfFailed();
        }
    };

    void wire(pbt::Ctx& c)
    {
        Net n{ c };
        GenOpts o = options(c.s);
        o.maxVec = 4;
        static const std::map<std::string, Part>* statics = []
        {
            auto* r = new std::map<std::string, Part>;
            for (auto& p : staticParts()) r->emplace(p.name(), p);
            return r;
        }();

        n.a.name = "A";
        n.b.name = "B";
        Family shared = family(c, o, "Both", c.s.below(2), c.s.boolean());
        for (Side* x : { &n.a, &n.b })
        {
            bool all = c.s.boolean();
            x->registry = std::make_unique<Registry>(std::nullopt, all ? Policy::All : Policy::InternalOnly);
            if (all) for (auto& [name, p] : *statics) x->know(p);
            else for (auto& p : staticParts()) if (x->registry->findType(p.name())) x->know(p);
            c.log << x->name << " knows " << (all ? "all static types" : "internal types") << "\n";
        }
        auto add = [&](Side& x, const Family& f)
        {
            // register each type in dependency order, keeping those that are known
            for (auto& p : f.all)
            {
                if (x.definition.count(p.name())) continue;
                import(*x.registry, p);
                x.know(p);
            }
        };
        add(n.a, shared);
        add(n.b, shared);
        // types of its own: rebuilt ones (as above) or ones defined by hand
        unsigned families = 0;
        auto own = [&](Side& x)
        {
            Family f = family(c, o, cat(x.name, families++, "x"), 1 + c.s.below(2), false);
            if (c.s.boolean()) add(x, f);
            else
                for (auto& p : f.all)
                {
                    if (p.s) x.registry->registerType(x.dyn.get(*p.s), false);
                    else x.registry->registerType(x.dyn.get(*p.e), false);
                    x.know(p);
                }
            for (auto& p : f.all) c.log << x.name << " has " << show(p) << "\n";
        };
        own(n.a);
        if (c.s.boolean()) own(n.b);

        auto host = dots::io::make_channel<FailingChannel>(n.io);
        auto guest = dots::io::make_channel<FailingChannel>(n.io);
        auto h = std::static_pointer_cast<dots::io::LocalChannel>(host->shared_from_this());
        auto g = std::static_pointer_cast<dots::io::LocalChannel>(guest->shared_from_this());
        h->link(*g);
        g->link(*h);
        n.a.channel = std::move(host);
        n.b.channel = std::move(guest);
        n.start(n.a);
        n.start(n.b);

        size_t steps = 2 + c.s.length(30), sends = 0;
        for (size_t i = 0; i < steps; ++i)
        {
            Side& x = c.s.boolean() ? n.b : n.a;
            switch (c.s.weighted({ 8, 2, 5, 1 }))
            {
                case 0:
                case 1:
                {
                    if (x.models.empty()) break;
                    // own and learned types rather than the static ones
                    std::vector<const Part*> v;
                    for (auto& [name, p] : x.models) if (!statics->count(name) || c.s.chance(1, 4)) v.push_back(&p);
                    if (v.empty()) break;
                    Part p = *v[c.s.below(v.size())];
                    if (p.s && c.s.chance(5, 6)) { n.send(x, p, o); ++sends; }
                    else n.describe(x, p);
                    break;
                }
                case 2: n.poll(1 + c.s.below(4)); break;
                default: own(x); break;
            }
            c.throwIfFailed();
        }
        n.poll(100000);
        for (Side* x : { &n.a, &n.b })
            if (!x->expected.empty())
            {
                auto& e = x->expected.front();
                c.fail(cat(x->name, " is still waiting for ", e.descriptions.empty() ? "an object" : "the description of " + e.descriptions.begin()->first));
            }
        // whatever happened, each side knows what it knew, unchanged
        for (Side* x : { &n.a, &n.b })
        {
            dots::io::DescriptorConverter conv{ *x->registry };
            for (auto& [name, def] : x->definition)
            {
                auto* d = x->registry->findType(name);
                c.check(d != nullptr && text(conv, *d) == def, cat(x->name, " no longer knows ", name, " as it did"));
            }
        }
        c.nontrivial(sends >= 2 && n.a.described + n.b.described >= 2);
        c.count("objects sent", sends);
        c.count("descriptions received", n.a.described + n.b.described);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "W15";
    check.rule = "rebuild: at least one type was rebuilt that has a part or vector; refuse: the description named an unknown type or an impossible tag; wire: at least two objects and two descriptions crossed the connection";
    check.subs = {
        { "rebuild", rebuild, 30000, 400000 },
        { "refuse", refuse, 20000, 200000 },
        { "wire", wire, 30000, 400000 },
    };
    check.assumptions = { "internal types are known to both peers and never described" };
    check.init = [] { dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); };
    return pbt::run(argc, argv, check);
}
