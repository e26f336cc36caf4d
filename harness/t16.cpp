// T16: object operations agree with a plain map of properties.
#include "subject.h"
#include <dots/type/AnyStruct.h>
#include <sanitizer/allocator_interface.h>

using namespace mdl;
using pbt::cat;
using dots::type::AnyStruct;
using dots::type::DynamicStruct;
using dots::type::PropertySet;
using dots::type::Struct;
using dots::type::Descriptor;
namespace type = dots::type;

namespace
{
    // ---- the model's operations
    uint32_t rank(const StructT& t, uint32_t tag)
    {
        for (uint32_t i = 0; i < t.props.size(); ++i) if (t.props[i].tag == tag) return i;
        return ~0u;
    }

    void mAssign(MValue& a, const MValue& b, uint32_t set) { a = restrict(b, set); }

    void mCopy(MValue& a, const MValue& b, uint32_t set)
    {
        MValue o = b;
        for (uint32_t tag = 0; tag < 32; ++tag)
        {
            if (!(set >> tag & 1)) continue;
            if (o.fields.count(tag)) a.fields[tag] = o.fields[tag];
            else a.fields.erase(tag);
        }
    }

    void mMerge(MValue& a, const MValue& b, uint32_t set)
    {
        MValue o = b;
        for (auto& [tag, v] : o.fields)
        {
            if (!(set >> tag & 1)) continue;
            if (v.k == Type::Struct)
            {
                auto& dst = a.fields.try_emplace(tag, emptyStruct()).first->second;
                mMerge(dst, v, ~0u);
            }
            else a.fields[tag] = v;
        }
    }

    void mSwap(MValue& a, MValue& b, uint32_t set)
    {
        if (&a == &b) return;
        MValue x = a, y = b;
        mCopy(a, y, set);
        mCopy(b, x, set);
    }

    void mClear(MValue& a, uint32_t set)
    {
        for (auto it = a.fields.begin(); it != a.fields.end();) it = set >> it->first & 1 ? a.fields.erase(it) : std::next(it);
    }

    bool mEqual(const MValue& a, const MValue& b, uint32_t set)
    {
        for (uint32_t tag = 0; tag < 32; ++tag)
        {
            if (!(set >> tag & 1)) continue;
            auto i = a.fields.find(tag), j = b.fields.find(tag);
            if ((i == a.fields.end()) != (j == b.fields.end())) return false;
            if (i != a.fields.end() && !equalValue(i->second, j->second)) return false;
        }
        return true;
    }

    bool mLess(const MValue& a, const MValue& b, const StructT& t, uint32_t set)
    {
        for (auto& p : t.props)
        {
            if (!(set >> p.tag & 1)) continue;
            auto i = a.fields.find(p.tag), j = b.fields.find(p.tag);
            bool ia = i != a.fields.end(), jb = j != b.fields.end();
            if (!ia && !jb) continue;
            if (ia != jb) return jb;
            if (lessValue(i->second, j->second, *p.type)) return true;
            if (lessValue(j->second, i->second, *p.type)) return false;
        }
        return false;
    }

    uint32_t mDiff(const MValue& a, const MValue& b, uint32_t set)
    {
        uint32_t r = 0;
        for (uint32_t tag = 0; tag < 32; ++tag)
            if ((set >> tag & 1) && !mEqual(a, b, 1u << tag)) r |= 1u << tag;
        return r;
    }

    // ---- holders of objects
    struct Slot
    {
        virtual ~Slot() = default;
        virtual Struct& get() = 0;
        virtual std::unique_ptr<Slot> copy() = 0;       // copy constructed
        virtual std::unique_ptr<Slot> move() = 0;       // move constructed
        virtual std::unique_ptr<Slot> fresh() = 0;
        virtual bool copyFrom(Slot&) { return false; }  // operator =
        virtual bool moveFrom(Slot&) { return false; }
        virtual bool gone() { return false; }           // moved from and no longer usable
        virtual const char* kind() = 0;

        // as the type itself, where both are of it; false: not available
        enum Op { Assign, MoveAssign, Copy, Merge, Swap };
        virtual bool typed(Op, Slot&, PropertySet) { return false; }
        virtual bool typedClear(PropertySet) { return false; }
        struct Cmp { bool eq, ne, lt, le, gt, ge, same; uint32_t diff; bool opEq = false, opLt = false, opLe = false, opGt = false, opGe = false, opNe = false; };
        virtual bool typedCompare(Slot&, PropertySet, Cmp&) { return false; }
        enum PropOp { PAssign, PMove, PSwap, PEmplace, PReset, PDefault };
        virtual bool typedProperty(PropOp, uint32_t /*tag*/, Slot&) { return false; }
        virtual bool typedPropertyCompare(uint32_t /*tag*/, Slot&, Cmp&) { return false; }
    };

    // storage handled through the descriptor, as the library's containers of unknown types do
    struct RawSlot : Slot
    {
        Instance i;
        explicit RawSlot(const dots::type::StructDescriptor& d) : i(d) {}
        Struct& get() override { return *i; }
        std::unique_ptr<Slot> copy() override { auto r = std::make_unique<RawSlot>(i->_descriptor()); r->i->_assign(*i); return r; }
        std::unique_ptr<Slot> move() override { auto r = std::make_unique<RawSlot>(i->_descriptor()); r->i->_assign(std::move(*i)); return r; }
        std::unique_ptr<Slot> fresh() override { return std::make_unique<RawSlot>(i->_descriptor()); }
        const char* kind() override { return "raw"; }
    };

    struct AnySlot : Slot
    {
        const dots::type::StructDescriptor* d;
        AnyStruct a;
        bool m_gone = false;
        explicit AnySlot(const dots::type::StructDescriptor& d_) : d(&d_), a(d_) {}
        explicit AnySlot(const AnyStruct& o) : d(&o->_descriptor()), a(o) {}
        explicit AnySlot(AnyStruct&& o) : d(&o->_descriptor()), a(std::move(o)) {}
        Struct& get() override { return *a; }
        std::unique_ptr<Slot> copy() override { return std::make_unique<AnySlot>(a); }
        std::unique_ptr<Slot> move() override { m_gone = true; return std::make_unique<AnySlot>(std::move(a)); }
        std::unique_ptr<Slot> fresh() override { return std::make_unique<AnySlot>(*d); }
        bool copyFrom(Slot& o) override
        {
            if (auto* x = dynamic_cast<AnySlot*>(&o)) a = x->a;
            else a = o.get();
            return true;
        }
        bool moveFrom(Slot& o) override
        {
            auto* x = dynamic_cast<AnySlot*>(&o);
            if (!x || x == this) return false;
            a = std::move(x->a);
            x->m_gone = true;
            return true;
        }
        bool gone() override { return m_gone; }
        const char* kind() override { return "any"; }
    };

    template <typename D>
    struct TypedBase : Slot
    {
        template <typename T>
        static bool run(Op op, T& a, T& b, PropertySet set)
        {
            switch (op)
            {
                case Assign: a._assign(std::as_const(b), set); break;
                case MoveAssign: a._assign(std::move(b), set); break;
                case Copy: a._copy(b, set); break;
                case Merge: a._merge(b, set); break;
                case Swap: a._swap(b, set); break;
            }
            return true;
        }
        template <typename T>
        static void compare(const T& a, const T& b, PropertySet set, Cmp& r)
        {
            r.eq = a._equal(b, set);
            r.lt = a._less(b, set);
            r.le = a._lessEqual(b, set);
            r.gt = a._greater(b, set);
            r.ge = a._greaterEqual(b, set);
            r.same = a._same(b);
            r.diff = a._diffProperties(b, set).toValue();
            r.opEq = a == b; r.opNe = a != b; r.opLt = a < b; r.opLe = a <= b; r.opGt = a > b; r.opGe = a >= b;
        }
    };

    struct DynSlot : TypedBase<DynSlot>
    {
        DynamicStruct v;
        explicit DynSlot(const dots::type::Descriptor<DynamicStruct>& d) : v(d) {}
        explicit DynSlot(const DynamicStruct& o) : v(o) {}
        explicit DynSlot(DynamicStruct&& o) : v(std::move(o)) {}
        const auto& desc() { return static_cast<const dots::type::Descriptor<DynamicStruct>&>(v._descriptor()); }
        Struct& get() override { return v; }
        std::unique_ptr<Slot> copy() override { return std::make_unique<DynSlot>(v); }
        std::unique_ptr<Slot> move() override { return std::make_unique<DynSlot>(std::move(v)); }
        std::unique_ptr<Slot> fresh() override { return std::make_unique<DynSlot>(desc()); }
        static DynamicStruct* of(Slot& s) { return &static_cast<DynamicStruct&>(s.get()); }  // all objects of such types are
        bool copyFrom(Slot& o) override { v = *of(o); return true; }
        bool moveFrom(Slot& o) override { v = std::move(*of(o)); return true; }
        const char* kind() override { return "dynamic"; }
        bool typed(Op op, Slot& o, PropertySet set) override { return run(op, v, *of(o), set); }
        bool typedClear(PropertySet set) override { v._clear(set); return true; }
        bool typedCompare(Slot& o, PropertySet set, Cmp& r) override
        {
            DynamicStruct& b = *of(o);
            r.eq = v._equal(b, set);
            r.lt = static_cast<Struct&>(v)._less(b, set);
            r.le = v._lessEqual(b, set);
            r.gt = v._greater(b, set);
            r.ge = v._greaterEqual(b, set);
            r.same = v._same(b);
            r.diff = v._diffProperties(b, set).toValue();
            r.opEq = v == b; r.opNe = v != b; r.opLt = v < b; r.opLe = v <= b; r.opGt = v > b; r.opGe = v >= b;
            return true;
        }
    };

    template <typename T>
    struct StaticSlot : TypedBase<StaticSlot<T>>
    {
        using Op = Slot::Op;
        using PropOp = Slot::PropOp;
        using Cmp = Slot::Cmp;
        T v;
        StaticSlot() = default;
        explicit StaticSlot(const T& o) : v(o) {}
        explicit StaticSlot(T&& o) : v(std::move(o)) {}
        Struct& get() override { return v; }
        std::unique_ptr<Slot> copy() override { return std::make_unique<StaticSlot>(v); }
        std::unique_ptr<Slot> move() override { return std::make_unique<StaticSlot>(std::move(v)); }
        std::unique_ptr<Slot> fresh() override { return std::make_unique<StaticSlot>(); }
        static T& of(Slot& s) { return static_cast<T&>(s.get()); }
        bool copyFrom(Slot& o) override { v = std::as_const(of(o)); return true; }
        bool moveFrom(Slot& o) override { v = std::move(of(o)); return true; }
        const char* kind() override { return "static"; }
        bool typed(Op op, Slot& o, PropertySet set) override { return this->run(op, v, of(o), set); }
        bool typedClear(PropertySet set) override { v._clear(set); return true; }
        bool typedCompare(Slot& o, PropertySet set, Cmp& r) override { this->compare(v, of(o), set, r); return true; }

        bool typedProperty(PropOp op, uint32_t tag, Slot& o) override
        {
            bool done = false;
            T& b = of(o);
            v._applyPropertyPairs(b, [&](const auto&... pairs)
            {
                auto one = [&](auto& p, auto& q)
                {
                    using P = std::decay_t<decltype(p)>;
                    if (P::Tag() != tag) return;
                    done = true;
                    switch (op)
                    {
                        case Slot::PAssign: p = std::as_const(q); break;
                        case Slot::PMove: p = std::move(q); break;
                        case Slot::PSwap: p.swap(q); break;
                        case Slot::PEmplace: if (q.isValid()) p.emplace(std::as_const(q).value()); else p = dots::invalid; break;
                        case Slot::PReset: p.reset(); break;
                        case Slot::PDefault: p.valueOrEmplace(); break;
                    }
                };
                (one(pairs.first, pairs.second), ...);
            });
            return done;
        }

        bool typedPropertyCompare(uint32_t tag, Slot& o, Cmp& r) override
        {
            bool done = false;
            std::as_const(v)._applyPropertyPairs(std::as_const(of(o)), [&](const auto&... pairs)
            {
                auto one = [&](auto& p, auto& q)
                {
                    using P = std::decay_t<decltype(p)>;
                    if (P::Tag() != tag) return;
                    done = true;
                    r.opEq = p == q; r.opNe = p != q; r.opLt = p < q; r.opLe = p <= q; r.opGt = p > q; r.opGe = p >= q;
                    r.eq = q.isValid() ? p == *q : p == dots::invalid;
                    r.lt = q.isValid() ? p < *q : p < dots::invalid;
                    r.gt = q.isValid() ? p > *q : p > dots::invalid;
                    r.le = q.isValid() ? p <= *q : p <= dots::invalid;
                    r.ge = q.isValid() ? p >= *q : p >= dots::invalid;
                    r.ne = q.isValid() ? p != *q : p != dots::invalid;
                };
                (one(pairs.first, pairs.second), ...);
            });
            return done;
        }
    };

    using Make = std::unique_ptr<Slot> (*)();
    const std::map<const dots::type::StructDescriptor*, Make>& makers()
    {
        static const auto* m = []
        {
            auto* r = new std::map<const dots::type::StructDescriptor*, Make>;
            auto add = [&]<typename T>(const T*) { (*r)[&T::_Descriptor()] = []() -> std::unique_ptr<Slot> { return std::make_unique<StaticSlot<T>>(); }; };
            add(static_cast<VfLeaf*>(nullptr));
            add(static_cast<VfAll*>(nullptr));
            add(static_cast<VfInner*>(nullptr));
            add(static_cast<VfKeys*>(nullptr));
            add(static_cast<VfSubKey*>(nullptr));
            add(static_cast<VfNoKey*>(nullptr));
            add(static_cast<DotsTransportHeader*>(nullptr));
            add(static_cast<StructDescriptorData*>(nullptr));
            add(static_cast<EnumDescriptorData*>(nullptr));
            add(static_cast<DotsClient*>(nullptr));
            add(static_cast<DotsMsgConnectResponse*>(nullptr));
            return r;
        }();
        return *m;
    }

    // ---- a history, drawn in advance so that it can be played twice
    struct Step
    {
        enum Kind { Write, Assign, MoveAssign, Copy, Merge, Swap, Clear, CopyCtor, MoveCtor, OpAssign, OpMove, Fresh, PropWrite, PropAssign, PropMove, PropSwap, PropEmplace, PropReset, PropDefault, Nested, Compare, PropCompare, N };
        Kind kind;
        size_t a, b;
        bool typed;
        uint32_t set;
        uint32_t pick[4];
        MValue value;
    };
    const char* const names[] = { "write", "assign", "move-assign", "copy", "merge", "swap", "clear", "copy construct", "move construct", "operator =", "operator = (move)", "fresh", "property write", "property assign", "property move",
        "property swap", "property emplace", "property reset", "property default", "nested write", "compare", "property compare" };

    struct History
    {
        Subject s;
        std::vector<unsigned> kinds;
        std::vector<Step> steps;
        // nested writes need a value of the type found on the way: prepared per property path
    };

    std::vector<std::pair<std::vector<uint32_t>, TypeP>> paths(const StructT& t)
    {
        std::vector<std::pair<std::vector<uint32_t>, TypeP>> r;
        for (auto& p : t.props)
        {
            r.push_back({ { p.tag }, p.type });
            if (p.type->k == Type::Struct)
                for (auto& [path, type] : paths(*p.type->s))
                {
                    std::vector<uint32_t> q{ p.tag };
                    q.insert(q.end(), path.begin(), path.end());
                    r.push_back({ q, type });
                }
        }
        return r;
    }

    struct World
    {
        pbt::Ctx* c;        // null: play without checking
        const History& h;
        std::vector<std::unique_ptr<Slot>> slots;
        std::vector<MValue> model;
        size_t nontrivial = 0, nestedMerges = 0, equalPairs = 0;

        World(pbt::Ctx* c_, const History& h_) : c(c_), h(h_)
        {
            for (unsigned k : h.kinds)
            {
                if (k == 0) slots.push_back(std::make_unique<RawSlot>(*h.s.d));
                else if (k == 1) slots.push_back(std::make_unique<AnySlot>(*h.s.d));
                else if (h.s.isDynamic) slots.push_back(std::make_unique<DynSlot>(static_cast<const dots::type::Descriptor<DynamicStruct>&>(*h.s.d)));
                else slots.push_back(makers().at(h.s.d)());
                model.push_back(emptyStruct());
            }
        }

        void verify(size_t i, const std::string& what)
        {
            MValue got = read(slots[i]->get(), *h.s.t);
            if (!same(got, model[i])) c->fail(cat("after ", what, " object ", i, " (", slots[i]->kind(), ") differs: ", firstDifference(model[i], got)));
        }

        // an object that was moved from keeps each property or has lost it, and can be used on
        void movedFrom(size_t i, const std::string& what)
        {
            if (slots[i]->gone())
            {
                slots[i] = slots[i]->fresh();
                model[i] = emptyStruct();
                return;
            }
            MValue got = read(slots[i]->get(), *h.s.t);
            if (c)
                for (auto& [tag, v] : got.fields)
                {
                    auto it = model[i].fields.find(tag);
                    if (it == model[i].fields.end() || !same(it->second, v)) c->fail(cat("after ", what, " the object moved from (", slots[i]->kind(), ") has another value of property ", tag, ": ", show(v)));
                }
            model[i] = got;
        }

        void checkCompare(const Slot::Cmp& r, const MValue& a, const MValue& b, uint32_t set, const std::string& what, bool ops)
        {
            const StructT& t = *h.s.t;
            bool eq = mEqual(a, b, set), lt = mLess(a, b, t, set), gt = mLess(b, a, t, set);
            auto check = [&](const char* name, bool got, bool want) { if (got != want) c->fail(cat(what, ": ", name, " is ", got, " for\n  ", show(a), "\n  ", show(b), "\n  set ", set)); };
            check("equal", r.eq, eq);
            check("less", r.lt, lt);
            check("lessEqual", r.le, !gt);
            check("greater", r.gt, gt);
            check("greaterEqual", r.ge, !lt);
            check("same", r.same, mEqual(a, b, t.keys()));
            if (r.diff != mDiff(a, b, set)) c->fail(cat(what, ": differing properties are reported as ", r.diff, " instead of ", mDiff(a, b, set), " for\n  ", show(a), "\n  ", show(b)));
            if (ops)
            {
                bool e = mEqual(a, b, ~0u), l = mLess(a, b, t, ~0u), g = mLess(b, a, t, ~0u);
                check("==", r.opEq, e);
                check("!=", r.opNe, !e);
                check("<", r.opLt, l);
                check("<=", r.opLe, !g);
                check(">", r.opGt, g);
                check(">=", r.opGe, !l);
            }
            // the order agrees with equality
            if (static_cast<int>(eq) + lt + gt != 1) c->fail("the model's order is inconsistent");
            if (eq) ++equalPairs;
        }

        void step(const Step& s, size_t index)
        {
            size_t a = s.a, b = s.b;
            const StructT& t = *h.s.t;
            Struct& x = slots[a]->get();
            Struct& y = slots[b]->get();
            PropertySet set{ s.set };
            std::string what;
            if (c)
            {
                what = cat("step ", index, ": ", names[s.kind], " ", a, " ", b, s.typed ? " typed" : "", " set ", s.set);
                c->log << what << "\n";
            }
            bool moved = false;
            const MProp& p = t.props[s.pick[0] % t.props.size()];
            switch (s.kind)
            {
                case Step::Write:
                    write(x, t, s.value);
                    model[a] = s.value;
                    break;
                case Step::Assign:
                case Step::OpAssign:
                {
                    uint32_t m = s.kind == Step::OpAssign ? ~0u : s.set;
                    if (s.kind == Step::OpAssign) { if (!slots[a]->copyFrom(*slots[b])) x._assign(y); }
                    else if (!s.typed || !slots[a]->typed(Slot::Assign, *slots[b], set)) x._assign(std::as_const(y), set);
                    if (a != b || m != ~0u) { MValue v = model[b]; mAssign(model[a], v, m); }
                    break;
                }
                case Step::MoveAssign:
                case Step::OpMove:
                {
                    if (a == b) return;
                    uint32_t m = s.kind == Step::OpMove ? ~0u : s.set;
                    if (s.kind == Step::OpMove) { if (!slots[a]->moveFrom(*slots[b])) x._assign(std::move(y)); }
                    else if (!s.typed || !slots[a]->typed(Slot::MoveAssign, *slots[b], set)) x._assign(std::move(y), set);
                    mAssign(model[a], model[b], m);
                    moved = true;
                    break;
                }
                case Step::Copy:
                    if (!s.typed || !slots[a]->typed(Slot::Copy, *slots[b], set)) x._copy(y, set);
                    mCopy(model[a], model[b], s.set);
                    break;
                case Step::Merge:
                    for (auto& [tag, v] : model[b].fields) if (v.k == Type::Struct && model[a].fields.count(tag) && a != b) ++nestedMerges;
                    if (!s.typed || !slots[a]->typed(Slot::Merge, *slots[b], set)) x._merge(y, set);
                    mMerge(model[a], model[b], s.set);
                    break;
                case Step::Swap:
                    if (!s.typed || !slots[a]->typed(Slot::Swap, *slots[b], set)) x._swap(y, set);
                    mSwap(model[a], model[b], s.set);
                    break;
                case Step::Clear:
                    if (!s.typed || !slots[a]->typedClear(set)) x._clear(set);
                    mClear(model[a], s.set);
                    break;
                case Step::CopyCtor:
                {
                    auto n = slots[b]->copy();
                    slots[a] = std::move(n);
                    model[a] = MValue(model[b]);
                    break;
                }
                case Step::MoveCtor:
                {
                    if (a == b) return;
                    auto n = slots[b]->move();
                    slots[a] = std::move(n);
                    model[a] = model[b];
                    moved = true;
                    break;
                }
                case Step::Fresh:
                    slots[a] = slots[a]->fresh();
                    model[a] = emptyStruct();
                    break;
                case Step::PropWrite:
                {
                    auto it = s.value.fields.find(p.tag);
                    if (it == s.value.fields.end()) { x._get(p.name) = dots::invalid; model[a].fields.erase(p.tag); }
                    else { writeProperty(x, p, it->second); model[a].fields[p.tag] = it->second; }
                    break;
                }
                case Step::PropAssign:
                    if (!s.typed || !slots[a]->typedProperty(Slot::PAssign, p.tag, *slots[b])) { auto q = y._get(p.name); x._get(p.name).assign(q); }
                    mCopy(model[a], model[b], 1u << p.tag);
                    break;
                case Step::PropEmplace:
                    if (!s.typed || !slots[a]->typedProperty(Slot::PEmplace, p.tag, *slots[b]))
                    {
                        auto q = y._get(p.name);
                        auto r = x._get(p.name);
                        if (q.isValid()) r.emplace(std::as_const(q).value());
                        else r = dots::invalid;
                    }
                    mCopy(model[a], model[b], 1u << p.tag);
                    break;
                case Step::PropMove:
                {
                    if (a == b) return;
                    if (!s.typed || !slots[a]->typedProperty(Slot::PMove, p.tag, *slots[b])) x._get(p.name).assign(y._get(p.name));
                    mCopy(model[a], model[b], 1u << p.tag);
                    moved = true;
                    break;
                }
                case Step::PropSwap:
                {
                    if (!s.typed || !slots[a]->typedProperty(Slot::PSwap, p.tag, *slots[b]))
                    {
                        auto r = x._get(p.name);
                        auto q = y._get(p.name);
                        r.swap(q);
                    }
                    mSwap(model[a], model[b], 1u << p.tag);
                    break;
                }
                case Step::PropReset:
                    if (!s.typed || !slots[a]->typedProperty(Slot::PReset, p.tag, *slots[a])) x._get(p.name).reset();
                    model[a].fields.erase(p.tag);
                    break;
                case Step::PropDefault:
                {
                    // an unset property gets some value, a set one keeps its own; nothing else changes
                    if (!s.typed || !slots[a]->typedProperty(Slot::PDefault, p.tag, *slots[a])) x._get(p.name).valueOrEmplace();
                    MValue got = read(slots[a]->get(), t);
                    if (c && !got.fields.count(p.tag)) c->fail(cat(what, ": property ", p.name, " is still unset"));
                    // plain values are zero (or an empty text, vector, struct); enums have no default
                    if (!model[a].fields.count(p.tag))
                    {
                        MValue& v = got.fields[p.tag];
                        if (c && (v.k == Type::Struct || v.k == Type::Vector || v.k == Type::string) && !(v.fields.empty() && v.items.empty() && v.s.empty()))
                            c->fail(cat(what, ": property ", p.name, " is not empty: ", show(v)));
                        model[a].fields[p.tag] = v;
                    }
                    break;
                }
                case Step::Nested:
                {
                    // descends into nested objects, creating those that are missing
                    Struct* sx = &x;
                    const StructT* st = &t;
                    MValue* m = &model[a];
                    const MProp* q = &p;
                    size_t depth = 0;
                    const MValue* src = &s.value;
                    while (q->type->k == Type::Struct && depth < 3 && s.pick[depth + 1] % 8 != 0)
                    {
                        auto it = src->fields.find(q->tag);
                        if (it == src->fields.end()) break;
                        src = &it->second;
                        auto prop = sx->_get(q->name);
                        sx = &prop.valueOrEmplace().to<Struct>();
                        m = &m->fields.try_emplace(q->tag, emptyStruct()).first->second;
                        st = q->type->s.get();
                        ++depth;
                        if (st->props.empty()) break;
                        q = &st->props[s.pick[depth] % st->props.size()];
                    }
                    if (st->props.empty()) break;
                    auto it = src->fields.find(q->tag);
                    if (it == src->fields.end()) { sx->_get(q->name).reset(); m->fields.erase(q->tag); }
                    else { writeProperty(*sx, *q, it->second); m->fields[q->tag] = it->second; }
                    break;
                }
                case Step::Compare:
                {
                    Slot::Cmp r{};
                    bool ops = true;
                    if (!s.typed || !slots[a]->typedCompare(*slots[b], set, r))
                    {
                        r.eq = x._equal(y, set);
                        r.lt = x._less(y, set);
                        r.le = x._lessEqual(y, set);
                        r.gt = x._greater(y, set);
                        r.ge = x._greaterEqual(y, set);
                        r.same = x._same(y);
                        r.diff = x._diffProperties(y, set).toValue();
                        r.opEq = x == y; r.opNe = x != y; r.opLt = x < y; r.opLe = x <= y; r.opGt = x > y; r.opGe = x >= y;
                    }
                    if (c) checkCompare(r, model[a], model[b], s.set, what, ops);
                    break;
                }
                case Step::PropCompare:
                {
                    Slot::Cmp r{};
                    if (!s.typed || !slots[a]->typedPropertyCompare(p.tag, *slots[b], r))
                    {
                        const auto l = x._get(p.name);
                        const auto m = y._get(p.name);
                        r.opEq = r.eq = l == m; r.opNe = r.ne = l != m; r.opLt = r.lt = l < m; r.opLe = r.le = l <= m; r.opGt = r.gt = l > m; r.opGe = r.ge = l >= m;
                    }
                    if (c)
                    {
                        uint32_t one = 1u << p.tag;
                        bool eq = mEqual(model[a], model[b], one), lt = mLess(model[a], model[b], t, one), gt = mLess(model[b], model[a], t, one);
                        if (r.eq != eq || r.opEq != eq || r.ne == eq || r.opNe == eq) c->fail(cat(what, ": equality of property ", p.name, " is ", r.eq, r.opEq, !r.ne, !r.opNe, " for\n  ", show(model[a]), "\n  ", show(model[b])));
                        if (r.lt != lt || r.opLt != lt || r.ge == lt || r.opGe == lt || r.gt != gt || r.opGt != gt || r.le == gt || r.opLe == gt)
                            c->fail(cat(what, ": order of property ", p.name, " is lt ", r.lt, r.opLt, " gt ", r.gt, r.opGt, " le ", r.le, r.opLe, " ge ", r.ge, r.opGe, " for\n  ", show(model[a]), "\n  ", show(model[b])));
                    }
                    break;
                }
                case Step::N: break;
            }
            if (moved) movedFrom(b, what);
            if (c)
            {
                for (size_t i = 0; i < slots.size(); ++i) verify(i, what);
                ++nontrivial;
            }
        }
    };

    void play(const History& h)
    {
        World w{ nullptr, h };
        for (size_t i = 0; i < h.steps.size(); ++i) w.step(h.steps[i], i);
    }

    void operations(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(c.s.below(3));
        o.maxText = c.s.boolean() ? 40 : 4;
        o.maxVec = 4;
        History h;
        h.s = genSubject(c.s, o);
        if (h.s.t->props.empty()) c.discard();
        c.log << show(*h.s.t) << (h.s.isDynamic ? " (run-time defined)" : "") << "\n";
        size_t n = 2 + c.s.below(3);
        for (size_t i = 0; i < n; ++i) h.kinds.push_back(static_cast<unsigned>(c.s.below(3)));
        size_t len = c.s.boolean() ? 2 + c.s.length(30) : 4 + c.s.below(24);
        uint32_t all = h.s.t->all();
        std::vector<MValue> seen;
        for (size_t i = 0; i < len; ++i)
        {
            Step s{};
            s.kind = static_cast<Step::Kind>(c.s.weighted({ 8, 4, 4, 4, 5, 4, 2, 2, 2, 3, 3, 1, 4, 3, 3, 3, 2, 2, 2, 5, 8, 5 }));
            s.a = c.s.below(n);
            s.b = c.s.chance(1, 12) ? s.a : c.s.below(n);
            if (i < n && c.s.chance(3, 4)) { s.kind = Step::Write; s.a = i; }
            s.typed = c.s.boolean();
            s.set = c.s.weighted({ 3, 2, 1 }) == 0 ? ~0u : c.s.boolean() ? genSubset(c.s, all) : genSubset(c.s, ~0u);
            for (auto& p : s.pick) p = static_cast<uint32_t>(c.s.below(64));
            if (s.kind == Step::Write || s.kind == Step::PropWrite || s.kind == Step::Nested)
            {
                // often a variation of an earlier value, so that values meet
                if (!seen.empty() && c.s.chance(1, 2))
                {
                    s.value = c.s.pick(seen);
                    if (c.s.boolean())
                    {
                        auto& p = h.s.t->props[c.s.below(h.s.t->props.size())];
                        if (c.s.boolean()) s.value.fields.erase(p.tag);
                        else s.value.fields[p.tag] = genValue(c.s, *p.type, o);
                    }
                }
                else s.value = genStruct(c.s, *h.s.t, o, false, c.s.chance(1, 3));
                seen.push_back(s.value);
            }
            h.steps.push_back(std::move(s));
        }
        size_t merges = 0;
        {
            World w{ &c, h };
            for (size_t i = 0; i < h.steps.size(); ++i) w.step(h.steps[i], i);
            merges = w.nestedMerges;
            c.count("merges of nested objects", w.nestedMerges);
            c.count("comparisons of equal objects", w.equalPairs);
        }
        // no operation leaks: playing it again leaves nothing behind
        play(h);
        size_t before = __sanitizer_get_current_allocated_bytes();
        play(h);
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (after != before) c.fail(cat("the history leaves ", static_cast<int64_t>(after - before), " bytes allocated"));
        c.count(h.s.isDynamic ? "run-time defined types" : "generated types");
        c.count("steps", h.steps.size());
        (void)merges;
        c.nontrivial(len >= 6);
    }

    // equality and order over several objects: an equivalence and a strict total order
    void laws(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(c.s.below(2));
        o.maxText = 3;
        o.maxVec = 3;
        Subject s = genSubject(c.s, o);
        if (s.t->props.empty()) c.discard();
        size_t n = 3 + c.s.below(5);
        std::vector<AnyStruct> v;
        std::vector<MValue> m;
        for (size_t i = 0; i < n; ++i)
        {
            MValue x = i == 0 || c.s.chance(1, 3) ? genStruct(c.s, *s.t, o) : m[c.s.below(i)];
            if (c.s.boolean())
            {
                auto& p = s.t->props[c.s.below(s.t->props.size())];
                if (c.s.chance(1, 3)) x.fields.erase(p.tag);
                else x.fields[p.tag] = genValue(c.s, *p.type, o);
            }
            v.emplace_back(*s.d);
            write(*v.back(), *s.t, x);
            m.push_back(x);
            c.log << i << ": " << show(x) << "\n";
        }
        uint32_t bits = c.s.boolean() ? ~0u : genSubset(c.s, s.t->all());
        PropertySet set{ bits };
        size_t equal = 0;
        for (size_t i = 0; i < n; ++i)
        {
            c.check(v[i]->_equal(*v[i], set) && !v[i]->_less(*v[i], set), cat("object ", i, " is not equal to itself"));
            for (size_t j = 0; j < n; ++j)
            {
                bool eq = v[i]->_equal(*v[j], set), lt = v[i]->_less(*v[j], set), gt = v[j]->_less(*v[i], set);
                c.check(eq + lt + gt == 1, cat("objects ", i, " and ", j, " are equal: ", eq, ", less: ", lt, ", greater: ", gt));
                c.check(eq == v[j]->_equal(*v[i], set), cat("equality of ", i, " and ", j, " is not symmetric"));
                c.check(v[i]->_diffProperties(*v[j], set).empty() == eq, cat("objects ", i, " and ", j, " differ in ", v[i]->_diffProperties(*v[j], set).toValue(), " but equal is ", eq));
                if (eq && i != j) ++equal;
                for (size_t k = 0; k < n; ++k)
                {
                    if (eq && v[j]->_equal(*v[k], set)) c.check(v[i]->_equal(*v[k], set), cat("equality of ", i, " ", j, " ", k, " is not transitive"));
                    if (lt && v[j]->_less(*v[k], set)) c.check(v[i]->_less(*v[k], set), cat("order of ", i, " ", j, " ", k, " is not transitive"));
                    if (eq) c.check(v[i]->_less(*v[k], set) == v[j]->_less(*v[k], set), cat("equal objects ", i, " and ", j, " compare differently with ", k));
                }
            }
        }
        c.nontrivial(equal > 0);
    }

    // values handled through the descriptors of their types
    MValue defaultOf(const MType& t)
    {
        MValue v;
        v.k = t.k;
        if (t.k == Type::uuid) v.s = std::string(16, '\0');
        return v;
    }

    void values(pbt::Ctx& c)
    {
        GenOpts o;
        o.maxDepth = 1 + static_cast<unsigned>(c.s.below(3));
        o.maxText = c.s.boolean() ? 40 : 4;
        o.maxVec = 4;
        Subject s = genSubject(c.s, o);
        if (s.t->props.empty()) c.discard();
        const Descriptor<>* d = s.d;
        MType whole;
        whole.k = Type::Struct;
        whole.s = s.t;
        const MType* t = &whole;
        if (!c.s.chance(1, 5))
        {
            auto& p = s.t->props[c.s.below(s.t->props.size())];
            for (auto& pd : s.d->propertyDescriptors()) if (pd.tag() == p.tag) d = &pd.valueDescriptor();
            t = p.type.get();
            if (t->k == Type::Vector && c.s.chance(1, 4))
            {
                d = &static_cast<const Descriptor<type::Vector<>>&>(*d).valueDescriptor();
                t = t->elem.get();
            }
        }
        c.check(d->type() == t->k, "type()");

        struct Cell
        {
            void* p = nullptr;
            std::optional<MValue> v;    // none: no object
            bool known = true;          // unknown: an object has been moved from it
        };
        size_t n = 2 + c.s.below(2), len = 3 + c.s.below(20), compared = 0;
        // bytes of memory that the values hold
        int64_t held = 0;
        auto lib = [&](auto&& f)
        {
            auto before = static_cast<int64_t>(__sanitizer_get_current_allocated_bytes());
            f();
            held += static_cast<int64_t>(__sanitizer_get_current_allocated_bytes()) - before;
        };
        {
        std::vector<Cell> cells(n);
        struct Free { std::vector<Cell>& cells; const Descriptor<>* d; ~Free() { for (auto& x : cells) { if (x.v) d->destruct(type::Typeless::From(*static_cast<std::byte*>(x.p))); std::free(x.p); } } } release{ cells, d };
        for (auto& x : cells) { x.p = std::malloc(d->size()); std::memset(x.p, 0xA5, d->size()); }
        auto at = [&](Cell& x) -> type::Typeless& { return type::Typeless::From(*static_cast<std::byte*>(x.p)); };
        std::vector<MValue> seen;
        auto gen = [&]
        {
            MValue v = !seen.empty() && c.s.chance(1, 2) ? c.s.pick(seen) : t->k == Type::Struct ? genStruct(c.s, *t->s, o) : genValue(c.s, *t, o);
            seen.push_back(v);
            return v;
        };
        for (size_t i = 0; i < len; ++i)
        {
            size_t ia = c.s.below(n), ib = c.s.below(n);
            Cell& a = cells[ia];
            Cell& b = cells[ib];
            std::string what = cat("step ", i, ", ", ia, " with ", ib, ": ");
            auto moved = [&](Cell& x) { x.known = false; };
            if (!a.v)
            {
                if (!b.v || !b.known || &a == &b)
                {
                    lib([&] { d->constructInPlace(at(a)); });
                    a.v = defaultOf(*t);
                    what += "construct";
                }
                else if (c.s.boolean())
                {
                    lib([&] { d->constructInPlace(at(a), at(b)); });
                    a.v = b.v;
                    what += "construct a copy";
                }
                else
                {
                    lib([&] { d->constructInPlace(at(a), std::move(at(b))); });
                    a.v = b.v;
                    moved(b);
                    what += "construct by move";
                }
                a.known = true;
            }
            else if (!a.known || c.s.chance(1, 4))
            {
                // given a new value
                if (c.s.chance(1, 4)) { lib([&] { d->assign(at(a)); }); a.v = defaultOf(*t); what += "assign nothing"; }
                else { a.v = gen(); lib([&] { writeTypeless(at(a), *d, *t, *a.v); }); what += "write"; }
                a.known = true;
            }
            else
            {
                size_t op = c.s.weighted({ 3, 3, 3, 2, 4, 3 });
                if (op != 3 && op != 5 && (!b.v || !b.known)) continue;
                switch (op)
                {
                    case 0: lib([&] { d->assign(at(a), at(b)); }); a.v = b.v; what += "assign"; break;
                    case 1:
                        if (&a == &b) break;
                        lib([&] { d->assign(at(a), std::move(at(b))); });
                        a.v = b.v;
                        moved(b);
                        what += "assign by move";
                        break;
                    case 2: lib([&] { d->swap(at(a), at(b)); }); std::swap(a.v, b.v); what += "swap"; break;
                    case 3: lib([&] { d->destruct(at(a)); }); a.v.reset(); std::memset(a.p, 0xA5, d->size()); what += "destruct"; break;
                    case 4:
                    {
                        bool eq = equalValue(*a.v, *b.v), lt = lessValue(*a.v, *b.v, *t), gt = lessValue(*b.v, *a.v, *t);
                        type::Typeless& x = at(a);
                        type::Typeless& y = at(b);
                        c.check(d->equal(x, y) == eq && d->less(x, y) == lt && d->greater(x, y) == gt && d->lessEqual(x, y) == !gt && d->greaterEqual(x, y) == !lt,
                            cat(what, "equal ", d->equal(x, y), " less ", d->less(x, y), " greater ", d->greater(x, y), " lessEqual ", d->lessEqual(x, y), " greaterEqual ", d->greaterEqual(x, y), " for\n  ", show(*a.v), "\n  ", show(*b.v)));
                        ++compared;
                        break;
                    }
                    case 5:
                        if (t->k != Type::Vector) break;
                        // the first values stay and new ones are empty
                        size_t size = c.s.below(7);
                        auto& vd = static_cast<const Descriptor<type::Vector<>>&>(*d);
                        what += cat("resize from ", a.v->items.size(), " to ", size);
                        if (c.s.chance(1, 3)) { lib([&] { vd.fill(at(a).to<type::Vector<>>(), size); }); a.v->items.clear(); what += " (fill)"; }
                        else lib([&] { vd.resize(at(a).to<type::Vector<>>(), size); });
                        a.v->items.resize(size, defaultOf(*t->elem));
                        break;
                }
            }
            c.log << what << "\n";
            for (size_t k = 0; k < n; ++k)
            {
                if (!cells[k].v || !cells[k].known) continue;
                MValue r = readTypeless(at(cells[k]), *d, *t);
                if (!same(r, *cells[k].v)) c.fail(cat(what, ": value ", k, " is\n  ", show(r), "\nbut should be\n  ", show(*cells[k].v)));
            }
        }
        for (auto& x : cells)
        {
            if (x.v) lib([&] { d->destruct(at(x)); });
            x.v.reset();
        }
        seen.clear();
        }
        if (held != 0) c.fail(cat("destroyed values leave ", held, " bytes allocated"));
        c.count(s.isDynamic ? "run-time defined types" : "generated types");
        c.nontrivial(compared > 0);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "T16";
    check.rule = "operations: at least 6 steps; laws: two different objects compared equal; values: two values were compared";
    check.subs = {
        { "operations", operations, 90000, 2000000 },
        { "laws", laws, 60000, 1000000 },
        { "values", values, 60000, 1000000 },
    };
    check.assumptions = { "operations combine objects of the same type; floating point values are not NaN" };
    return pbt::run(argc, argv, check);
}
