// T17: property sets, iteration and lookup are mutually consistent.
#include "subject.h"
#include <dots/type/AnyStruct.h>

using namespace mdl;
using pbt::cat;
using dots::type::PropertySet;
using dots::type::Struct;
using dots::type::Typeless;

namespace
{
    using Tags = std::set<uint32_t>;

    uint32_t bitsOf(const Tags& t)
    {
        uint32_t r = 0;
        for (uint32_t i : t) r |= 1u << i;
        return r;
    }

    Tags tagsOf(uint32_t bits)
    {
        Tags r;
        for (uint32_t i = 0; i < 32; ++i) if (bits >> i & 1) r.insert(i);
        return r;
    }

    Tags unite(const Tags& a, const Tags& b) { Tags r = a; r.insert(b.begin(), b.end()); return r; }
    Tags meet(const Tags& a, const Tags& b) { Tags r; for (auto i : a) if (b.count(i)) r.insert(i); return r; }
    Tags minus(const Tags& a, const Tags& b) { Tags r; for (auto i : a) if (!b.count(i)) r.insert(i); return r; }
    bool subset(const Tags& a, const Tags& b) { return minus(a, b).empty(); }

    // ---- sets
    void sets(pbt::Ctx& c)
    {
        auto gen = [&]
        {
            switch (c.s.below(4))
            {
                case 0: { Tags t; size_t n = c.s.below(4); for (size_t i = 0; i < n; ++i) t.insert(static_cast<uint32_t>(c.s.below(32))); return t; }
                case 1: return tagsOf(static_cast<uint32_t>(c.s.bits64()));
                case 2: return tagsOf(static_cast<uint32_t>(c.s.interestingUint()));
                default: { Tags t = tagsOf(~0u); size_t n = c.s.below(4); for (size_t i = 0; i < n; ++i) t.erase(static_cast<uint32_t>(c.s.below(32))); return t; }
            }
        };
        auto make = [&](const Tags& t)
        {
            PropertySet r;
            if (c.s.boolean()) { for (uint32_t i : t) r += PropertySet::FromIndex(i); }
            else r = PropertySet{ bitsOf(t) };
            return r;
        };
        std::vector<Tags> m;
        std::vector<PropertySet> v;
        size_t n = 2 + c.s.below(3);
        for (size_t i = 0; i < n; ++i) { m.push_back(gen()); v.push_back(make(m.back())); }
        auto check = [&](PropertySet got, const Tags& want, const char* what)
        {
            c.check(got.toValue() == bitsOf(want), cat(what, " is ", got.toValue(), " instead of ", bitsOf(want)));
        };
        auto verify = [&](size_t i)
        {
            const PropertySet& s = v[i];
            const Tags& t = m[i];
            check(s, t, "the set");
            c.check(s.empty() == t.empty() && static_cast<bool>(s) != t.empty() && s.count() == t.size(), cat("size of ", s.toValue()));
            for (uint32_t k = 0; k < 32; ++k)
            {
                c.check((PropertySet::FromIndex(k) <= s) == (t.count(k) > 0), cat(k, " in ", s.toValue()));
                if (auto it = t.lower_bound(k); it != t.end()) c.check(s.firstValid(k) == *it, cat("first of ", s.toValue(), " from ", k, " is ", s.firstValid(k)));
                if (auto it = t.upper_bound(k); it != t.begin()) c.check(s.lastValid(k) == *std::prev(it), cat("last of ", s.toValue(), " up to ", k, " is ", s.lastValid(k)));
            }
            if (!t.empty()) c.check(s.firstValid() == *t.begin() && s.lastValid() == *t.rbegin(), cat("first and last of ", s.toValue()));
            std::string text;
            for (int k = 31; k >= 0; --k) text += t.count(static_cast<uint32_t>(k)) ? 'x' : '.';
            c.check(s.toString('.', 'x') == text, cat("text of ", s.toValue(), " is ", s.toString('.', 'x')));
        };
        size_t steps = 1 + c.s.length(12);
        for (size_t k = 0; k < steps; ++k)
        {
            size_t a = c.s.below(n), b = c.s.below(n), d = c.s.below(n);
            size_t op = c.s.below(14);
            c.log << "op " << op << " on " << v[a].toValue() << " " << v[b].toValue() << "\n";
            Tags ta = m[a], tb = m[b];
            PropertySet sa = v[a], sb = v[b];
            switch (op)
            {
                case 0: v[d] = sa + sb; m[d] = unite(ta, tb); break;
                case 1: v[d] = sa - sb; m[d] = minus(ta, tb); break;
                case 2: v[d] = sa ^ sb; m[d] = meet(ta, tb); break;
                case 3: v[d] = ~sa; m[d] = minus(tagsOf(~0u), ta); break;
                case 4: v[a] += sb; m[a] = unite(ta, tb); d = a; break;
                case 5: v[a] -= sb; m[a] = minus(ta, tb); d = a; break;
                case 6: v[a] ^= sb; m[a] = meet(ta, tb); d = a; break;
                case 7: v[d] = sa.intersection(sb); m[d] = meet(ta, tb); break;
                case 8: check(v[a].intersect(sb), meet(ta, tb), "intersect"); m[a] = meet(ta, tb); d = a; break;
                case 9: v[d] = sa.symmetricDifference(sb); m[d] = unite(minus(ta, tb), minus(tb, ta)); break;
                case 10: check(v[a].symmetricSubtract(sb), unite(minus(ta, tb), minus(tb, ta)), "symmetricSubtract"); m[a] = unite(minus(ta, tb), minus(tb, ta)); d = a; break;
                case 11:
                    c.check((sa == sb) == (ta == tb) && (sa != sb) == (ta != tb), "equality");
                    c.check((sa <= sb) == subset(ta, tb) && (sa >= sb) == subset(tb, ta), "inclusion");
                    c.check((sa < sb) == (ta != tb && subset(ta, tb)) && (sa > sb) == (ta != tb && subset(tb, ta)), "strict inclusion");
                    break;
                case 12: v[d] = PropertySet::All; m[d] = tagsOf(~0u); break;
                default: v[d] = PropertySet::None; m[d] = {}; break;
            }
            verify(d);
            verify(a);
        }
        for (size_t i = 0; i < n; ++i) verify(i);
        c.nontrivial(steps >= 3);
    }

    // ---- iteration
    struct Object
    {
        std::unique_ptr<Instance> i;
        MValue m;
    };

    template <typename P>
    const Typeless* addressOf(const P& p) { return &p.storage(); }

    struct Iter
    {
        pbt::Ctx& c;
        const Subject& s;
        const StructT& t;
        std::vector<Object> o;
        std::map<std::string, const Typeless*> where[2];

        Iter(pbt::Ctx& c_, const Subject& s_) : c(c_), s(s_), t(*s_.t) {}

        const MProp& prop(uint32_t tag) const { return *t.find(tag); }

        // properties of a set in declaration order
        std::vector<uint32_t> order(uint32_t set) const
        {
            std::vector<uint32_t> r;
            for (auto& p : t.props) if (set >> p.tag & 1) r.push_back(p.tag);
            return r;
        }

        template <typename P>
        void checkProperty(const P& p, size_t obj, uint32_t tag, const std::string& what)
        {
            auto& d = p.descriptor();
            const MProp& mp = prop(tag);
            c.check(d.tag() == tag, cat(what, " visits property ", d.tag(), " instead of ", tag));
            c.check(d.name() == mp.name && d.isKey() == mp.key && d.set().toValue() == 1u << tag && d.valueDescriptor().name() == mp.type->name(), cat(what, ": description of property ", tag));
            auto it = o[obj].m.fields.find(tag);
            c.check(p.isValid() == (it != o[obj].m.fields.end()), cat(what, ": property ", tag, " is ", p.isValid() ? "set" : "unset"));
            c.check(addressOf(p) == where[obj][mp.name], cat(what, ": property ", tag, " is elsewhere"));
            if (p.isValid())
            {
                MValue got = readTypeless(*p, d.valueDescriptor(), *mp.type);
                c.check(same(got, it->second), cat(what, ": property ", tag, " has another value: ", firstDifference(it->second, got)));
            }
            else
            {
                bool thrown = false;
                try { (void)*p; } catch (const std::exception&) { thrown = true; }
                c.check(thrown, cat(what, ": the value of unset property ", tag, " was handed out"));
            }
        }

        template <typename Range>
        void range(Range&& r, size_t obj, uint32_t set, bool reverse, const std::string& what)
        {
            auto want = order(set);
            if (reverse) std::reverse(want.begin(), want.end());
            size_t i = 0;
            for (auto& p : r)
            {
                c.check(i < want.size(), cat(what, " visits more than ", want.size(), " properties, e. g. ", p.descriptor().tag()));
                checkProperty(p, obj, want[i], what);
                ++i;
            }
            c.check(i == want.size(), cat(what, " visits ", i, " instead of ", want.size(), " properties"));
        }

        template <typename Range>
        void pairs(Range&& r, size_t a, size_t b, uint32_t set, bool reverse, const std::string& what)
        {
            auto want = order(set);
            if (reverse) std::reverse(want.begin(), want.end());
            size_t i = 0;
            for (auto& [p, q] : r)
            {
                c.check(i < want.size(), cat(what, " visits more than ", want.size(), " properties"));
                checkProperty(p, a, want[i], what + " (first)");
                checkProperty(q, b, want[i], what + " (second)");
                ++i;
            }
            c.check(i == want.size(), cat(what, " visits ", i, " instead of ", want.size(), " properties"));
        }

        // to and fro between the first property and the end
        template <typename It>
        void walk(It begin, It end, size_t obj, uint32_t set, bool reverse, const std::string& what)
        {
            auto want = order(set);
            if (reverse) std::reverse(want.begin(), want.end());
            size_t pos = 0;
            It it = begin;
            if (c.s.boolean()) { it = end; pos = want.size(); }
            size_t steps = c.s.length(20);
            for (size_t k = 0; k <= steps; ++k)
            {
                c.check((it == end) == (pos == want.size()) && (it != end) == (pos != want.size()), cat(what, ": at the end is ", it == end, " at position ", pos, " of ", want.size()));
                if (want.size()) c.check((it == begin) == (pos == 0), cat(what, ": at the beginning is ", it == begin, " at position ", pos));
                if (pos < want.size())
                {
                    checkProperty(*it, obj, want[pos], what);
                    c.check(it->descriptor().tag() == want[pos], cat(what, ": arrow"));
                }
                else
                {
                    bool thrown = false;
                    try { (void)*it; } catch (const std::exception&) { thrown = true; }
                    c.check(thrown, cat(what, ": something was found behind the end"));
                }
                bool forward = c.s.boolean();
                if (forward && pos < want.size())
                {
                    if (c.s.boolean()) ++it;
                    else
                    {
                        It old = it++;
                        checkProperty(*old, obj, want[pos], what + " (post-increment)");
                    }
                    ++pos;
                }
                else if (!forward && pos > 0)
                {
                    if (c.s.boolean()) --it;
                    else
                    {
                        It old = it--;
                        if (pos < want.size()) checkProperty(*old, obj, want[pos], what + " (post-decrement)");
                        else c.check(old == end, cat(what, ": post-decrement"));
                    }
                    --pos;
                }
                // exchanging iterators exchanges what they point at
                if (c.s.chance(1, 6))
                {
                    It other = begin;
                    if (c.s.boolean()) other.swap(it);
                    else it.swap(other);
                    if (pos < want.size()) checkProperty(*other, obj, want[pos], what + " (swapped)");
                    else c.check(other == end, cat(what, ": swapped end"));
                    if (!want.empty()) checkProperty(*it, obj, want[0], what + " (swapped begin)");
                    it = other;
                }
            }
        }

        template <typename It>
        void walkPairs(It begin, It end, size_t a, size_t b, uint32_t set, const std::string& what)
        {
            auto want = order(set);
            size_t pos = 0;
            It it = begin;
            size_t steps = c.s.length(12);
            for (size_t k = 0; k <= steps; ++k)
            {
                c.check((it == end) == (pos == want.size()), cat(what, ": at the end is ", it == end, " at position ", pos, " of ", want.size()));
                if (pos < want.size())
                {
                    checkProperty((*it).first, a, want[pos], what);
                    checkProperty(it->second, b, want[pos], what);
                }
                bool forward = c.s.boolean();
                if (forward && pos < want.size()) { if (c.s.boolean()) ++it; else it++; ++pos; }
                else if (!forward && pos > 0) { if (c.s.boolean()) --it; else it--; --pos; }
            }
        }
    };

    void iterate(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(c.s.below(2));
        o.maxProps = c.s.chance(1, 6) ? 31 : 8;
        o.maxText = 8;
        o.maxVec = 2;
        Subject s = genSubject(c.s, o);
        Iter w{ c, s };
        c.log << show(*s.t) << "\n";
        for (size_t k = 0; k < 2; ++k)
        {
            w.o.push_back({ std::make_unique<Instance>(*s.d), emptyStruct() });
            w.o[k].m = genStruct(c.s, *s.t, o, false, c.s.chance(1, 6));
            write(**w.o[k].i, *s.t, w.o[k].m);
            c.log << k << ": " << show(w.o[k].m) << "\n";
        }
        Struct& a = **w.o[0].i;
        Struct& b = **w.o[1].i;
        // where properties are, by their descriptors
        for (size_t k = 0; k < 2; ++k)
            for (auto& d : s.d->propertyDescriptors()) w.where[k][d.name()] = &(**w.o[k].i)._propertyArea().getProperty<Typeless>(d.offset());

        uint32_t all = s.t->all();
        size_t rounds = 1 + c.s.length(3);
        bool some = false;
        for (size_t r = 0; r < rounds; ++r)
        {
            uint32_t bits = c.s.chance(1, 4) ? ~0u : c.s.boolean() ? genSubset(c.s, all) : genSubset(c.s, ~0u);
            PropertySet set{ bits };
            uint32_t in = bits & all, va = in & w.o[0].m.valid(), both = va & w.o[1].m.valid();
            some = some || (in && in != all);
            c.log << "set " << bits << "\n";
            const Struct& ca = a;
            const Struct& cb = b;
            w.range(a._propertyRange(set), 0, in, false, "range");
            w.range(ca._propertyRange(set), 0, in, false, "const range");
            w.range(a._propertyRangeReversed(set), 0, in, true, "reversed range");
            w.range(ca._propertyRangeReversed(set), 0, in, true, "const reversed range");
            w.range(a._validPropertyRange(set), 0, va, false, "valid range");
            w.range(ca._validPropertyRange(set), 0, va, false, "const valid range");
            w.range(a._validPropertyRangeReversed(set), 0, va, true, "reversed valid range");
            w.range(ca._validPropertyRangeReversed(set), 0, va, true, "const reversed valid range");
            w.range(a, 0, all, false, "object");
            w.range(ca, 0, all, false, "const object");
            w.pairs(a._propertyRange(b, set), 0, 1, in, false, "pair range");
            w.pairs(a._propertyRange(cb, set), 0, 1, in, false, "pair range (const)");
            w.pairs(ca._propertyRange(cb, set), 0, 1, in, false, "const pair range");
            w.pairs(a._propertyRangeReversed(b, set), 0, 1, in, true, "reversed pair range");
            w.pairs(a._propertyRangeReversed(cb, set), 0, 1, in, true, "reversed pair range (const)");
            w.pairs(ca._propertyRangeReversed(cb, set), 0, 1, in, true, "const reversed pair range");
            w.pairs(a._validPropertyRange(b, set), 0, 1, both, false, "valid pair range");
            w.pairs(a._validPropertyRange(cb, set), 0, 1, both, false, "valid pair range (const)");
            w.pairs(ca._validPropertyRange(cb, set), 0, 1, both, false, "const valid pair range");
            w.pairs(a._validPropertyRangeReversed(b, set), 0, 1, both, true, "reversed valid pair range");
            w.pairs(a._validPropertyRangeReversed(cb, set), 0, 1, both, true, "reversed valid pair range (const)");
            w.pairs(ca._validPropertyRangeReversed(cb, set), 0, 1, both, true, "const reversed valid pair range");
            w.walk(a._begin(set), a._end(set), 0, in, false, "walk");
            w.walk(ca._begin(set), ca._end(set), 0, in, false, "const walk");
            w.walk(a._rbegin(set), a._rend(set), 0, in, true, "reverse walk");
            w.walk(ca._rbegin(set), ca._rend(set), 0, in, true, "const reverse walk");
            {
                auto range = a._propertyRange(b, set);
                w.walkPairs(range.begin(), range.end(), 0, 1, in, "pair walk");
            }

            // descriptors and checks by set
            auto ds = s.d->propertyDescriptors(set);
            auto want = w.order(in);
            c.check(ds.size() == want.size(), "number of partial property descriptors");
            for (size_t i = 0; i < want.size(); ++i) c.check(ds[i].get().tag() == want[i], "partial property descriptors");
            uint32_t valid = w.o[0].m.valid();
            c.check(a._validProperties().toValue() == valid, "valid properties");
            c.check(a._hasProperties(set) == ((bits & ~valid) == 0) && a._hasProperties<false>(set) == (bits == valid), "has properties");
            bool t1 = false, t2 = false;
            try { a._assertHasProperties(set); } catch (const std::exception&) { t1 = true; }
            try { a._assertHasProperties<false>(set); } catch (const std::exception&) { t2 = true; }
            c.check(t1 == ((bits & ~valid) != 0) && t2 == (bits != valid), "asserted properties");
            c.check(a._keyProperties().toValue() == s.t->keys() && a._properties().toValue() == all, "key and all properties");

            // a write through an iterator reaches exactly this property
            if (in)
            {
                auto targets = w.order(in);
                size_t i = c.s.below(targets.size());
                auto it = a._begin(set);
                std::advance(it, static_cast<std::ptrdiff_t>(i));
                const MProp& p = w.prop(targets[i]);
                if (c.s.chance(1, 3)) { *it = dots::invalid; w.o[0].m.fields.erase(p.tag); }
                else if (b._get(p.name).isValid())
                {
                    auto src = b._get(p.name);
                    it->assign(src);
                    w.o[0].m.fields[p.tag] = w.o[1].m.fields[p.tag];
                }
                MValue got = read(a, *s.t);
                c.check(same(got, w.o[0].m), cat("a write of property ", p.tag, " through an iterator: ", firstDifference(w.o[0].m, got)));
            }
        }
        c.nontrivial(some && s.t->props.size() >= 3);
    }

    // ---- lookup
    template <typename U>
    bool isKind(dots::type::ProxyProperty<>& p, pbt::Ctx& c)
    {
        bool is = p.template is<U>();
        c.check((p.template as<U>() != nullptr) == is, "as and is differ");
        bool thrown = false;
        try { (void)p.template to<U, true>(); } catch (const std::exception&) { thrown = true; }
        c.check(thrown != is, "safe conversion");
        return is;
    }

    struct Place
    {
        std::string path;
        std::vector<const MProp*> chain;
    };

    void places(const StructT& t, std::vector<Place>& out, const Place& prefix = {})
    {
        for (auto& p : t.props)
        {
            Place q = prefix;
            q.path += (q.path.empty() ? "" : ".") + p.name;
            q.chain.push_back(&p);
            out.push_back(q);
            if (p.type->k == Type::Struct) places(*p.type->s, out, q);
        }
    }

    const MValue* at(const MValue& m, const Place& p)
    {
        const MValue* v = &m;
        for (auto* q : p.chain)
        {
            auto it = v->fields.find(q->tag);
            if (it == v->fields.end()) return nullptr;
            v = &it->second;
        }
        return v;
    }

    void lookup(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(c.s.below(4));
        o.maxProps = c.s.chance(1, 8) ? 20 : 5;
        o.maxText = 8;
        o.maxVec = 2;
        Subject s = genSubject(c.s, o);
        if (s.t->props.empty()) c.discard();
        const StructT& t = *s.t;
        dots::type::AnyStruct x{ *s.d };
        MValue m = genStruct(c.s, t, o);
        write(*x, t, m);
        c.log << show(t) << "\n" << show(m) << "\n";
        std::vector<Place> ps;
        places(t, ps);
        std::set<std::string> known;
        for (auto& p : ps) known.insert(p.path);
        c.check(s.d->propertyPaths().size() == ps.size(), cat("there are ", s.d->propertyPaths().size(), " paths instead of ", ps.size()));
        size_t deep = 0;
        size_t steps = 2 + c.s.length(20);
        for (size_t k = 0; k < steps; ++k)
        {
            switch (c.s.weighted({ 6, 2, 2 }))
            {
                case 0:
                {
                    const Place& p = c.s.pick(ps);
                    // deeper ones more often
                    const Place& q = c.s.pick(ps);
                    const Place& place = q.chain.size() > p.chain.size() ? q : p;
                    if (place.chain.size() > 1) ++deep;
                    const MProp& mp = *place.chain.back();
                    auto& path = x->_path(place.path);
                    c.check(path.elements().size() == place.chain.size() && path.destination().name() == mp.name && path.destination().tag() == mp.tag, cat("path ", place.path, " leads elsewhere"));
                    for (size_t i = 0; i < place.chain.size(); ++i) c.check(path.elements()[i].get().name() == place.chain[i]->name && path.elements()[i].get().tag() == place.chain[i]->tag, cat("element ", i, " of path ", place.path));
                    auto prop = c.s.boolean() ? x->_get(place.path) : x->_get(path);
                    const MValue* v = at(m, place);
                    c.check(prop.isValid() == (v != nullptr), cat(place.path, " is ", prop.isValid() ? "set" : "unset"));
                    c.check(prop.descriptor().tag() == mp.tag && prop.descriptor().name() == mp.name, cat(place.path, " is another property"));
                    if (v)
                    {
                        MValue got = readTypeless(*prop, prop.descriptor().valueDescriptor(), *mp.type);
                        c.check(same(got, *v), cat(place.path, " has another value: ", firstDifference(*v, got)));
                    }
                    else
                    {
                        bool thrown = false;
                        try { (void)*prop; } catch (const std::exception&) { thrown = true; }
                        c.check(thrown, cat("the value of unset ", place.path, " was handed out"));
                    }
                    // typed access is given to the right type only
                    auto& tp = *mp.type;
                    if (c.s.chance(1, 4))
                    {
                        c.check(isKind<int32_t>(prop, c) == (tp.k == Type::int32) && isKind<dots::string_t>(prop, c) == (tp.k == Type::string) && isKind<uint8_t>(prop, c) == (tp.k == Type::uint8) && isKind<dots::float64_t>(prop, c) == (tp.k == Type::float64)
                            && isKind<dots::bool_t>(prop, c) == (tp.k == Type::boolean) && isKind<dots::timepoint_t>(prop, c) == (tp.k == Type::timepoint), cat("type of ", place.path));
                    }
                    // reads change nothing
                    MValue now = read(*x, t);
                    c.check(same(now, m), cat("looking up ", place.path, " changed something: ", firstDifference(m, now)));
                    size_t op = c.s.below(4);
                    if (op == 0)
                    {
                        prop.reset();
                        // only the property itself is affected
                        if (v)
                        {
                            MValue* w = &m;
                            for (size_t i = 0; i + 1 < place.chain.size(); ++i) w = &w->fields[place.chain[i]->tag];
                            w->fields.erase(mp.tag);
                        }
                        c.log << "reset " << place.path << "\n";
                    }
                    else if (op == 1)
                    {
                        MValue nv = genValue(c.s, tp, o);
                        c.log << "write " << place.path << " = " << show(nv) << "\n";
                        // creates what is missing on the way
                        auto& d = prop.descriptor().valueDescriptor();
                        prop.valueOrEmplace();
                        writeTypeless(*prop, d, tp, nv);
                        MValue* w = &m;
                        for (size_t i = 0; i + 1 < place.chain.size(); ++i) w = &w->fields.try_emplace(place.chain[i]->tag, emptyStruct()).first->second;
                        w->fields[mp.tag] = nv;
                    }
                    now = read(*x, t);
                    c.check(same(now, m), cat("after a write through ", place.path, ": ", firstDifference(m, now)));
                    break;
                }
                case 1:
                {
                    // by name and tag
                    auto& p = c.s.pick(t.props);
                    const Struct& cx = *x;
                    Struct& mx = *x;
                    auto check = [&](auto it, auto end, const char* what)
                    {
                        c.check(it != end, cat(what, " does not find ", p.name));
                        c.check(it->descriptor().tag() == p.tag && it->descriptor().name() == p.name, cat(what, " finds another property than ", p.name));
                        auto v = m.fields.find(p.tag);
                        c.check(it->isValid() == (v != m.fields.end()), cat(what, ": ", p.name, " is ", it->isValid() ? "set" : "unset"));
                        if (it->isValid()) c.check(same(readTypeless(**it, it->descriptor().valueDescriptor(), *p.type), v->second), cat(what, ": ", p.name, " has another value"));
                    };
                    check(mx[p.tag], mx._end(), "[tag]");
                    check(cx[p.tag], cx._end(), "const [tag]");
                    check(mx[std::string_view{ p.name }], mx._end(), "[name]");
                    check(cx[std::string_view{ p.name }], cx._end(), "const [name]");
                    check(mx._find(p.tag), mx._end(), "_find(tag)");
                    check(cx._find(p.name), cx._end(), "const _find(name)");
                    break;
                }
                default:
                {
                    // what does not exist is not found
                    std::string name = c.s.pick(ps).path;
                    switch (c.s.below(8))
                    {
                        case 0: name += "."; break;
                        case 1: name = "." + name; break;
                        case 2: name += "x"; break;
                        case 3: name.pop_back(); break;
                        case 4: name += "." + c.s.pick(ps).path; break;
                        case 5: name = genText(c.s, o); break;
                        case 6: if (auto i = name.find('.'); i != std::string::npos) name.insert(i, "."); else name.clear(); break;
                        default: if (auto i = name.find('.'); i != std::string::npos) name = name.substr(i + 1); else name[0] = static_cast<char>(name[0] ^ 0x20); break;
                    }
                    if (!known.count(name))
                    {
                        bool thrown = false;
                        try { (void)x->_path(name); } catch (const std::exception&) { thrown = true; }
                        c.check(thrown, cat("path ", pbt::quote(name), " was found"));
                        thrown = false;
                        try { (void)x->_get(name).isValid(); } catch (const std::exception&) { thrown = true; }
                        c.check(thrown, cat("property ", pbt::quote(name), " was found"));
                        c.count("unknown paths");
                    }
                    bool top = false;
                    for (auto& p : t.props) top = top || p.name == name;
                    Struct& mx = *x;
                    if (!top) c.check(mx._find(std::string_view{ name }) == mx._end() && mx[std::string_view{ name }] == mx._end(), cat("name ", pbt::quote(name), " was found"));
                    uint32_t tag = static_cast<uint32_t>(c.s.boolean() ? c.s.below(40) : c.s.interestingUint());
                    if (!t.find(tag))
                    {
                        c.check(mx._find(tag) == mx._end(), cat("tag ", tag, " was found"));
                        bool thrown = false;
                        try { (void)*mx[tag]; } catch (const std::exception&) { thrown = true; }
                        c.check(thrown, cat("tag ", tag, " was handed out"));
                    }
                    MValue now = read(*x, t);
                    c.check(same(now, m), cat("looking up something unknown changed something: ", firstDifference(m, now)));
                    break;
                }
            }
        }
        c.count("lookups through nested objects", deep);
        c.nontrivial(deep > 0);
    }

    // ---- enumerators
    void enumerators(pbt::Ctx& c)
    {
        GenOpts o;
        TypeGen g{ c.s, o };
        auto e = g.enumT();
        Dynamic dyn;
        auto& d = *dyn.get(*e).as<dots::type::EnumDescriptor>();
        c.check(d.enumerators().size() == e->items.size(), "number of enumerators");
        for (size_t i = 0; i < e->items.size(); ++i)
        {
            auto& it = e->items[i];
            auto* t = &d.enumeratorFromTag(it.tag);
            c.check(t == &d.enumeratorFromName(it.name) && t == &d.enumeratorFromValue(it.value) && t == &d.enumeratorFromValue(Typeless::From(it.value)) && t == &d.enumerators()[i], cat("enumerator ", it.name));
            c.check(t->tag() == it.tag && t->name() == it.name && t->value() == it.value, cat("content of enumerator ", it.name));
        }
        size_t n = c.s.length(6);
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t tag = static_cast<uint32_t>(c.s.boolean() ? c.s.below(20) : c.s.interestingUint());
            int32_t value = static_cast<int32_t>(c.s.boolean() ? c.s.range(-5, 20) : c.s.interestingInt());
            std::string name = c.s.boolean() ? genText(c.s, o) : cat("e", c.s.below(9));
            bool ht = false, hv = false, hn = false;
            for (auto& it : e->items) { ht = ht || it.tag == tag; hv = hv || it.value == value; hn = hn || it.name == name; }
            auto throws = [](auto f) { try { f(); return false; } catch (const std::exception&) { return true; } };
            c.check(throws([&] { (void)d.enumeratorFromTag(tag); }) != ht, cat("tag ", tag));
            c.check(throws([&] { (void)d.enumeratorFromValue(value); }) != hv, cat("value ", value));
            c.check(throws([&] { (void)d.enumeratorFromName(name); }) != hn, cat("name ", pbt::quote(name)));
        }
        c.nontrivial(e->items.size() >= 2);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "T17";
    check.rule = "sets: at least 3 operations; iterate: a proper subset of at least 3 properties was visited; lookup: a property of a nested object was looked up; enumerators: at least 2 of them";
    check.subs = {
        { "sets", sets, 60000, 1000000 },
        { "iterate", iterate, 30000, 800000 },
        { "lookup", lookup, 60000, 1000000 },
        { "enumerators", enumerators, 20000, 200000 },
    };
    check.assumptions = { "iterators are not moved before the first property or past the end; both objects of a pair have the same type" };
    return pbt::run(argc, argv, check);
}
