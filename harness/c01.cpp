// C01: a cache is the fold of the updates it received.
#include "history.h"
#include <dots/Dispatcher.h>

using namespace mdl;
using dots::property_set_t;
using dots::timepoint_t;
using pbt::cat;
using dots::type::Type;

namespace
{
    void container(pbt::Ctx& c)
    {
        World w{ c };
        auto k = std::make_unique<dots::Container<>>(*w.sub.d);
        std::vector<dots::Container<>::node_t> removedNodes;
        std::vector<Clone> removedModels;
        size_t steps = 1 + c.s.length(40), updates = 0, removals = 0, creates = 0;
        for (size_t i = 0; i < steps; ++i)
        {
            size_t what = c.s.weighted({ 8, 4, 1 });
            if (what == 2)
            {
                if (!c.s.chance(1, 3)) continue;
                c.log << "\n  clear";
                k->clear();
                w.model.clear();
            }
            else
            {
                bool remove = what == 1;
                MValue v = w.genObject(remove);
                uint32_t attributes = remove && c.s.chance(2, 3) ? w.sub.t->keys() : w.genAttributes(v);
                DotsHeader h = w.genHeader(attributes, remove);
                c.log << (remove ? "\n  remove " : "\n  insert ") << show(v) << " attributes " << std::hex << attributes << std::dec;
                bool known = w.find(v) != nullptr;
                if (known && c.s.chance(1, 12))
                {
                    // a header that does not say what was transmitted is refused and changes nothing
                    DotsHeader bad = h;
                    bad.attributes.reset();
                    Instance inst{ *w.sub.d };
                    write(*inst, *w.sub.t, v);
                    bool refused = false;
                    c.log << " (incomplete header)";
                    try { if (remove) k->remove(bad, *inst); else k->insert(bad, *inst); } catch (const std::exception&) { refused = true; }
                    c.check(refused, "a message without a property set is accepted");
                    w.compareAll(*k);
                    continue;
                }
                std::optional<Clone> expected = w.apply(h, v, attributes, remove);
                auto inst = std::make_unique<Instance>(*w.sub.d);
                write(**inst, *w.sub.t, v);
                timepoint_t before = timepoint_t::Now();
                if (remove)
                {
                    auto node = k->remove(h, **inst);
                    c.check(node.empty() == !expected, expected ? "removal of a known object returns nothing" : "removal of an unknown object returns an object");
                    if (expected)
                    {
                        ++removals;
                        w.compare(node.key().get(), node.mapped(), *expected, "removed object");
                        removedNodes.push_back(std::move(node));
                        removedModels.push_back(*expected);
                    }
                }
                else
                {
                    const auto& r = k->insert(h, **inst);
                    w.compare(r.first.get(), r.second, *expected, known ? "updated object" : "created object");
                    c.check(k->findClone(**inst) == &r, "insert returns something else than the object in the container");
                    c.check(r.second.localUpdateTime.isValid() && *r.second.localUpdateTime >= before && *r.second.localUpdateTime <= timepoint_t::Now(), "local update time is wrong");
                    ++(known ? updates : creates);
                }
                c.check(same(read(**inst, *w.sub.t), v), "the inserted object itself was changed");
                // the container must not depend on the object handed in
                if (c.s.boolean()) inst->get()._clear(property_set_t{ ~w.sub.t->keys() });
                inst.reset();
            }
            if (c.s.chance(1, 4)) w.compareAll(*k);
        }
        w.compareAll(*k);
        if (c.s.boolean()) k.reset();
        for (size_t i = 0; i < removedNodes.size(); ++i) w.compare(removedNodes[i].key().get(), removedNodes[i].mapped(), removedModels[i], "removed object, later");
        c.nontrivial(updates > 0 && removals > 0);
        c.count("creates", creates); c.count("updates", updates); c.count("removals", removals);
        c.count(cat("keys per type ", __builtin_popcount(w.sub.t->keys())));
    }

    // the same through the dispatcher, several types interleaved, with a listener seeing every operation
    void dispatcher(pbt::Ctx& c)
    {
        size_t n = 1 + c.s.below(3);
        std::vector<std::unique_ptr<World>> ws;
        for (size_t i = 0; i < n; ++i)
        {
            ws.push_back(std::make_unique<World>(c));
            for (size_t j = 0; j < i; ++j) if (ws[j]->sub.d == ws[i]->sub.d) c.discard();
            c.log << "\n";
        }
        dots::Dispatcher d{ [](const dots::type::StructDescriptor&, std::exception_ptr) {} };
        bool throwing = c.s.chance(1, 3);
        size_t events = 0, updates = 0, removals = 0;
        World* current = nullptr;
        std::optional<Clone> expected;
        bool known = false, isRemove = false;
        std::vector<bool> listens(n);
        std::vector<dots::Dispatcher::id_t> ids(n);
        for (size_t i = 0; i < n; ++i)
        {
            listens[i] = !c.s.chance(1, 5);
            if (listens[i]) ids[i] = d.addEventHandler(*ws[i]->sub.d, [&, i](const dots::Event<>& e)
            {
                ++events;
                if (ws[i].get() != current || !expected) { c.failLater("an operation is reported that did not take place"); return; }
                try
                {
                    c.check(e.mt() == (isRemove ? DotsMt::remove : known ? DotsMt::update : DotsMt::create), "the reported operation is not the one that took place");
                    current->compare(e.updated(), e.cloneInfo(), *expected, "reported object");
                    const dots::type::Struct* in = d.container(*current->sub.d).find(e.updated());
                    c.check((in == nullptr) == isRemove, "cache is not up to date when the operation is reported");
                    c.check(isRemove || in == &e.updated(), "reported object is not the one in the cache");
                }
                catch (pbt::Failure&) { c.failed = true; }
                if (throwing) throw std::runtime_error{ "handler failure" };
            });
        }
        size_t steps = 1 + c.s.length(40);
        for (size_t i = 0; i < steps; ++i)
        {
            size_t wi = c.s.below(n);
            World& w = *ws[wi];
            bool remove = c.s.chance(1, 3);
            MValue v = w.genObject(remove);
            uint32_t attributes = remove && c.s.chance(2, 3) ? w.sub.t->keys() : w.genAttributes(v);
            DotsHeader h = w.genHeader(attributes, remove);
            c.log << "\n  type " << wi << (remove ? " remove " : " publish ") << show(v) << " attributes " << std::hex << attributes << std::dec;
            current = &w; isRemove = remove; known = w.find(v) != nullptr;
            expected = w.apply(h, v, attributes, remove);
            Instance inst{ *w.sub.d };
            write(*inst, *w.sub.t, v);
            size_t had = events;
            d.dispatch(dots::io::Transmission{ h, dots::type::AnyStruct{ *inst } });
            c.throwIfFailed();
            c.check(events - had == (expected && listens[wi] ? 1u : 0u), cat(events - had, " operations were reported"));
            if (remove && expected) ++removals;
            if (!remove && known) ++updates;
            if (c.s.chance(1, 4)) for (auto& x : ws) x->compareAll(d.container(*x->sub.d));
        }
        for (auto& x : ws) x->compareAll(d.container(*x->sub.d));
        for (size_t i = 0; i < n; ++i) if (listens[i]) d.removeEventHandler(*ws[i]->sub.d, ids[i]);
        c.nontrivial(updates > 0 && removals > 0);
        if (throwing) c.count("throwing handlers");
    }

    void typed(pbt::Ctx& c)
    {
        // the typed view of a cache shows the same objects
        dots::Container<VfKeys> k;
        StructP t = describeStruct(VfKeys::_Descriptor());
        GenOpts o;
        std::map<std::pair<std::string, int64_t>, std::string> model;
        size_t steps = 1 + c.s.length(20);
        for (size_t i = 0; i < steps; ++i)
        {
            std::string k1 = c.s.one<std::string>({ "a", "b", "" });
            int64_t k2 = c.s.range(0, 2);
            bool remove = c.s.chance(1, 3);
            std::string value = genUtf8(c.s, 6);
            VfKeys x{ .value = value, .k1 = k1, .k2 = k2, .k3 = VfColor::green };
            c.log << (remove ? " remove " : " insert ") << k1 << "/" << k2 << "=" << pbt::quote(value);
            DotsHeader h{ .typeName = "VfKeys", .sentTime = timepoint_t::Now(), .attributes = x._validProperties(), .sender = 3 };
            if (remove) { k.remove(h, x); model.erase({ k1, k2 }); }
            else { k.insert(h, x); model[{ k1, k2 }] = value; }
            c.check(k.size() == model.size(), "wrong size");
            size_t n = 0;
            k.forEach([&](const VfKeys& y) { ++n; auto it = model.find({ *y.k1, *y.k2 }); if (it == model.end() || it->second != *y.value) c.failLater("forEach shows a wrong object"); });
            c.throwIfFailed();
            c.check(n == model.size(), "forEach visits the wrong number of objects");
            for (const char* q : { "a", "b", "" }) for (int64_t z = 0; z <= 2; ++z)
            {
                const VfKeys* p = k.find(VfKeys{ .k1 = q, .k2 = z, .k3 = VfColor::green });
                auto it = model.find({ q, z });
                c.check((p != nullptr) == (it != model.end()), "find disagrees with the model");
                if (p) c.check(*p->value == it->second, "find returns a wrong object");
            }
        }
        c.nontrivial(steps > 3);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C01";
    check.rule = "the history contains an update of an existing object and a removal of an existing object";
    check.subs = {
        { "container", container, 150000, 3000000, 60 },
        { "dispatcher", dispatcher, 100000, 2000000, 60 },
        { "typed", typed, 10000, 200000, 60 },
    };
    check.assumptions = { "objects handed to a cache carry all their key properties (the connection refuses others, see C06); NaN is no key" };
    return pbt::run(argc, argv, check);
}
