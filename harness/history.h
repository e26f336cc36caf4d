// Histories of messages for one type and the reference fold of a cache.
#pragma once
#include "subject.h"
#include <dots/Container.h>
#include <DotsHeader.dots.h>
#include <DotsCloneInformation.dots.h>

namespace mdl
{
    using dots::property_set_t;
    using dots::timepoint_t;
    using pbt::cat;
    using dots::type::Type;

    struct Clone
    {
        MValue value;
        DotsMt lastOperation = DotsMt::create;
        std::optional<uint32_t> createdFrom, lastFrom;
        std::optional<double> created, modified;
    };

    inline Clone* findClone(const StructT& t, std::vector<Clone>& model, const MValue& v)
    {
        for (auto& m : model) if (equalValue(restrict(m.value, t.keys()), restrict(v, t.keys()))) return &m;
        return nullptr;
    }

    // the reference fold; returns the resulting object (nullopt: nothing happened)
    inline std::optional<Clone> fold(const StructT& t, std::vector<Clone>& model, std::optional<uint32_t> sender, std::optional<double> sent, const MValue& v, uint32_t attributes, bool remove)
    {
        Clone* e = findClone(t, model, v);
        if (e == nullptr)
        {
            if (remove) return {};
            Clone n;
            n.value = restrict(v, attributes | t.keys());
            n.createdFrom = n.lastFrom = sender;
            n.created = n.modified = sent;
            model.push_back(n);
            return n;
        }
        for (auto& p : t.props)
        {
            if (p.key || !(attributes >> p.tag & 1)) continue;
            if (auto it = v.fields.find(p.tag); it != v.fields.end()) e->value.fields[p.tag] = it->second;
            else e->value.fields.erase(p.tag);
        }
        e->lastOperation = remove ? DotsMt::remove : DotsMt::update;
        e->lastFrom = sender;
        e->modified = sent;
        Clone r = *e;
        if (remove) model.erase(model.begin() + (e - model.data()));
        return r;
    }

    // history generator: type, pool of key values
    struct World
    {
        pbt::Ctx& c;
        Subject sub;
        GenOpts o;
        std::vector<MValue> keys;      // values holding key fields only
        std::vector<Clone> model;
        double clock = 1000;
        std::string prefix;
        std::vector<int> flags;        // flags to choose from for run-time types (empty: usual ones)

        explicit World(pbt::Ctx& c_, bool cached = true, std::string prefix_ = "Gen", std::vector<int> flags_ = {}) : c(c_), prefix(std::move(prefix_)), flags(std::move(flags_))
        {
            o.finiteFloats = !c.s.chance(1, 4);
            o.maxText = 24;
            pickType(cached);
            GenOpts ko = o;
            ko.finiteFloats = true;
            ko.maxText = 6;
            uint32_t keySet = sub.t->keys();
            // a few values per key property; keys are combinations, so that keys often differ in one property only
            std::map<uint32_t, std::vector<MValue>> values;
            for (auto& p : sub.t->props) if (p.key) for (size_t i = 0, n = 1 + c.s.below(3); i < n; ++i) values[p.tag].push_back(genValue(c.s, *p.type, ko));
            size_t n = keySet == 0 ? 1 : 1 + c.s.below(6);
            for (size_t i = 0; i < n; ++i)
            {
                MValue k = emptyStruct();
                for (auto& [tag, v] : values) k.fields[tag] = c.s.pick(v);
                keys.push_back(k);
            }
            c.log << (sub.isDynamic ? "run-time type " : "generated type ") << show(*sub.t);
        }

        void pickType(bool cached)
        {
            if (!flags.empty())
            {
                int f = c.s.pick(flags);
                if (!c.s.chance(1, 4))
                {
                    GenOpts t = o;
                    t.maxDepth = 1;
                    sub = makeDynamic(c.s, t, !c.s.chance(1, 10), static_cast<uint8_t>(f), prefix);
                    return;
                }
                static const std::vector<const dots::type::StructDescriptor*> normal{ &VfKeys::_Descriptor(), &VfPlain::_Descriptor(), &VfSubKey::_Descriptor(), &VfAll::_Descriptor(), &VfLeaf::_Descriptor() };
                sub.d = f & 8 ? &VfCleanup::_Descriptor() : f & 1 ? c.s.pick(normal) : c.s.boolean() ? static_cast<const dots::type::StructDescriptor*>(&VfUncached::_Descriptor()) : &VfNoKey::_Descriptor();
                sub.t = describeStruct(*sub.d);
                return;
            }
            if (!cached)
            {
                GenOpts t = o;
                t.maxDepth = 1;
                if (c.s.chance(1, 3)) { sub.d = c.s.boolean() ? static_cast<const dots::type::StructDescriptor*>(&VfUncached::_Descriptor()) : &VfNoKey::_Descriptor(); sub.t = describeStruct(*sub.d); }
                else sub = makeDynamic(c.s, t, c.s.boolean(), uint8_t{ 0 }, prefix);
                return;
            }
            if (c.s.chance(3, 5))
            {
                GenOpts t = o;
                t.maxDepth = 1;
                sub = makeDynamic(c.s, t, !c.s.chance(1, 10), static_cast<uint8_t>(c.s.one<int>({ 1, 1, 1 | 8, 1 | 4 }) ), prefix);
                return;
            }
            static const std::vector<const dots::type::StructDescriptor*> types{ &VfKeys::_Descriptor(), &VfCleanup::_Descriptor(), &VfPlain::_Descriptor(), &VfSubKey::_Descriptor(), &VfAll::_Descriptor(), &VfLeaf::_Descriptor() };
            sub.d = c.s.pick(types);
            sub.t = describeStruct(*sub.d);
        }

        MValue keyOf(const MValue& v) const { return restrict(v, sub.t->keys()); }

        Clone* find(const MValue& v)
        {
            for (auto& m : model) if (equalValue(keyOf(m.value), keyOf(v))) return &m;
            return nullptr;
        }

        MValue genObject(bool small)
        {
            MValue v = genStruct(c.s, *sub.t, o);
            const MValue& k = c.s.pick(keys);
            for (uint32_t t = 0; t < 32; ++t) if (sub.t->keys() >> t & 1) v.fields[t] = k.fields.at(t);
            if (small) v = restrict(v, sub.t->keys() | (c.s.chance(1, 4) ? genSubset(c.s, sub.t->all()) : 0));
            return v;
        }

        uint32_t genAttributes(const MValue& v)
        {
            switch (c.s.weighted({ 5, 4, 2, 2, 1 }))
            {
            case 0: return v.valid();
            case 1: return v.valid() | genSubset(c.s, sub.t->all());
            case 2: return sub.t->keys() | genSubset(c.s, v.valid());
            case 3: return sub.t->keys() | genSubset(c.s, sub.t->all());
            default: return static_cast<uint32_t>(c.s.draw(0xFFFFFFFFu));
            }
        }

        DotsHeader genHeader(uint32_t attributes, bool remove)
        {
            DotsHeader h;
            h.typeName = sub.t->name;
            h.attributes = property_set_t{ attributes };
            if (!c.s.chance(1, 8)) h.sender = static_cast<uint32_t>(c.s.chance(1, 6) ? c.s.interestingUint() : c.s.range(1, 4));
            clock += static_cast<double>(c.s.range(0, 3)) - (c.s.chance(1, 10) ? 5 : 0);
            h.sentTime = timepoint_t{ dots::type::Duration{ clock } };
            if (!c.s.chance(1, 3)) h.removeObj = remove;
            else if (remove) h.removeObj = true;
            if (c.s.chance(1, 5)) h.fromCache = static_cast<uint32_t>(c.s.range(0, 5));
            if (c.s.boolean()) h.isFromMyself = c.s.boolean();
            return h;
        }

        static std::optional<uint32_t> sender(const DotsHeader& h) { if (h.sender.isValid()) return *h.sender; return {}; }
        static std::optional<double> sent(const DotsHeader& h) { if (h.sentTime.isValid()) return h.sentTime->duration().toFractionalSeconds(); return {}; }

        // applies the message to the model; returns the resulting object (nullopt: nothing happened)
        std::optional<Clone> apply(const DotsHeader& h, const MValue& v, uint32_t attributes, bool remove)
        {
            return fold(*sub.t, model, sender(h), sent(h), v, attributes, remove);
        }

        void compare(const dots::type::Struct& obj, const DotsCloneInformation& ci, const Clone& m, const std::string& where)
        {
            MValue got = read(obj, *sub.t);
            c.check(same(restrict(got, ~sub.t->keys()), restrict(m.value, ~sub.t->keys())) && equalValue(keyOf(got), keyOf(m.value)), cat(where, ": object differs: ", firstDifference(got, m.value)));
            c.check(ci.lastOperation == m.lastOperation, cat(where, ": record names the wrong last operation"));
            auto u = [](const auto& p) { return p.isValid() ? std::optional<uint32_t>{ *p } : std::nullopt; };
            auto t = [](const auto& p) { return p.isValid() ? std::optional<double>{ p->duration().toFractionalSeconds() } : std::nullopt; };
            c.check(u(ci.lastUpdateFrom) == m.lastFrom, cat(where, ": record names the wrong last sender"));
            c.check(u(ci.createdFrom) == m.createdFrom, cat(where, ": record names the wrong creator"));
            c.check(t(ci.created) == m.created, cat(where, ": record has the wrong creation time"));
            c.check(t(ci.modified) == m.modified, cat(where, ": record has the wrong modification time"));
        }

        void compareAll(const dots::Container<>& k)
        {
            c.check(k.size() == model.size() && k.empty() == model.empty(), cat("container has ", k.size(), " objects instead of ", model.size()));
            size_t n = 0;
            for (const auto& [inst, ci] : k)
            {
                Clone* m = find(read(inst.get(), *sub.t));
                c.check(m != nullptr, "container holds an object that was never created or was removed");
                compare(inst.get(), ci, *m, "container");
                ++n;
            }
            c.check(n == model.size(), "iteration does not visit every object once");
            size_t a = 0, b = 0;
            k.forEach([&](const dots::type::Struct& s) { ++a; if (find(read(s, *sub.t)) == nullptr) c.failLater("forEach visits an unknown object"); });
            k.forEachClone([&](const dots::Container<>::value_t& v) { ++b; if (find(read(v.first.get(), *sub.t)) == nullptr) c.failLater("forEachClone visits an unknown object"); });
            c.throwIfFailed();
            c.check(a == model.size() && b == model.size(), "forEach does not visit every object once");
            for (auto& m : model)
            {
                // looked up by keys alone, other properties must not matter
                MValue q = m.value;
                if (c.s.boolean()) q = keyOf(q);
                Instance i{ *sub.d };
                write(*i, *sub.t, q);
                const auto* p = k.findClone(*i);
                c.check(p != nullptr, "an object of the container is not found by its key");
                compare(p->first.get(), p->second, m, "found object");
                c.check(k.find(*i) == &p->first.get() && &k.get(*i) == &p->first.get() && &k.getClone(*i) == p, "find, get, findClone and getClone disagree");
            }
            for (auto& key : keys)
            {
                if (find(key)) continue;
                Instance i{ *sub.d };
                write(*i, *sub.t, key);
                c.check(k.find(*i) == nullptr && k.findClone(*i) == nullptr, "find returns an object for an absent key");
                bool t1 = false, t2 = false;
                try { k.get(*i); } catch (const std::logic_error&) { t1 = true; }
                try { k.getClone(*i); } catch (const std::logic_error&) { t2 = true; }
                c.check(t1 && t2, "get does not report an absent key");
            }
        }
    };
}
