// C04: a late subscriber receives a complete, consistent snapshot.
#include "broker.h"
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>

using namespace broker;

namespace
{
    void finish(pbt::Ctx& c, Broker& b)
    {
        c.count("snapshots", b.snapshots);
        c.count("objects in snapshots", b.snapshotObjects);
        c.count("guests checked at the end of preload", b.preloadsChecked);
        c.nontrivial(b.snapshots >= 1 && b.snapshotObjects >= 2);
    }

    // guests come and subscribe at any time while others keep publishing
    void late(pbt::Ctx& c)
    {
        Options o;
        o.maxGuests = 5;
        o.publish = 14;
        o.open = 6;
        o.subscribe = 8;
        o.joinByName = 3;
        o.deliver = 16;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // the same with guests that leave and return
    void returning(pbt::Ctx& c)
    {
        Options o;
        o.maxGuests = 3;
        o.open = 8;
        o.subscribe = 8;
        o.end = 3;
        o.reconnect = true;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // snapshots of many objects
    void many(pbt::Ctx& c)
    {
        dots::asio::io_context io{ 1 };
        auto all = dots::type::Registry::StaticTypePolicy::All;
        auto host = std::make_unique<dots::HostTransceiver>("host", io, all, dots::HostTransceiver::transition_handler_t{ [](const dots::Connection&, std::exception_ptr) {} });
        auto& listener = host->listen<dots::io::LocalListener>();
        auto run = [&] { do io.restart(); while (io.poll() > 0); c.throwIfFailed(); };
        auto connect = [&](const char* name, bool preload)
        {
            auto g = std::make_unique<dots::GuestTransceiver>(name, io, all, dots::GuestTransceiver::transition_handler_t{ [](const dots::Connection&, std::exception_ptr) {} });
            dots::type::DescriptorMap sub;
            if (preload) { sub.emplace(*g->registry().findStructType("VfPlain")); sub.emplace(*g->registry().findStructType("VfCleanup")); }
            g->open({}, std::move(sub), {}, dots::io::make_channel<dots::io::LocalChannel>(io, listener));
            run();
            c.check(g->connected(), cat(name, " does not get connected"));
            return g;
        };

        // both types, objects of the host and of a guest
        std::map<uint32_t, int32_t> plain, cleanup;
        auto writer = connect("writer", false);
        const size_t n = c.s.boolean() ? static_cast<size_t>(c.s.one<int>({ 255, 256, 257, 300, 511, 512, 513, 1000 })) : c.s.below(700);
        const uint32_t stride = c.s.one<uint32_t>({ 1, 7, 65535, 257, 40503 });
        uint32_t id = static_cast<uint32_t>(c.s.below(65536));
        const size_t removed = c.s.boolean() ? c.s.below(n + 1) : 0;
        const bool mixed = c.s.boolean();
        c.log << n << " objects with steps of " << stride << ", of which " << removed << " are removed" << (mixed ? ", of two types" : "");
        std::vector<uint32_t> ids;
        for (size_t i = 0; i < n; ++i, id = (id + stride) % 65536)
        {
            ids.push_back(id);
            int32_t b = static_cast<int32_t>(i);
            dots::Transceiver& t = i % 3 == 0 ? static_cast<dots::Transceiver&>(*host) : *writer;
            if (mixed && i % 2) { t.publish(VfCleanup{ .id = id, .b = b }); cleanup[id] = b; }
            else { t.publish(VfPlain{ .id = static_cast<uint16_t>(id), .b = b }); plain[id] = b; }
        }
        run();
        for (size_t i = 0; i < removed; ++i)
        {
            dots::Transceiver& t = i % 3 == 1 ? static_cast<dots::Transceiver&>(*host) : *writer;
            if (cleanup.erase(ids[i])) t.remove(VfCleanup{ .id = ids[i] });
            else { t.remove(VfPlain{ .id = static_cast<uint16_t>(ids[i]) }); plain.erase(ids[i]); }
        }
        run();

        auto snapshot = [&](dots::Transceiver& t, const std::string& who)
        {
            auto one = [&](auto tag, std::map<uint32_t, int32_t>& model)
            {
                using T = decltype(tag);
                std::set<uint32_t> got;
                auto sub = t.subscribe<T>([&](const dots::Event<T>& e)
                {
                    if (c.failed) return;
                    try
                    {
                        uint32_t key = *e().id;
                        auto m = model.find(key);
                        c.check(m != model.end() && e().b == m->second, cat(who, " is told of an object that is not there"));
                        c.check(got.insert(key).second, cat(who, " is told twice of an object"));
                        c.check(e.header().fromCache.isValid() && *e.header().fromCache == model.size() - got.size(), cat(who, ": the snapshot of ", model.size(), " objects counts wrongly: object ", got.size()));
                        c.check(!e.isRemove(), cat(who, " is told that an object is removed"));
                    }
                    catch (const pbt::Failure&) {}
                });
                run();
                c.check(got.size() == model.size(), cat(who, " is told of ", got.size(), " instead of ", model.size(), " objects"));
                c.check(t.pool().get<T>().size() == model.size(), cat(who, " has ", t.pool().get<T>().size(), " instead of ", model.size(), " objects"));
            };
            one(VfPlain{}, plain);
            one(VfCleanup{}, cleanup);
        };
        auto late = connect("late", false);
        snapshot(*late, "a late guest");
        snapshot(*late, "a second handler of a guest");
        auto early = connect("preloading", true);
        c.check(early->pool().get<VfPlain>().size() == plain.size() && early->pool().get<VfCleanup>().size() == cleanup.size(), "a guest is connected before its caches are filled");
        snapshot(*early, "a guest that has preloaded");
        snapshot(*host, "the host");
        writer.reset();
        run();
        if (!cleanup.empty())
        {
            for (auto k = cleanup.begin(); k != cleanup.end(); ) k = host->pool().get<VfCleanup>().find(VfCleanup{ .id = k->first }) == nullptr ? cleanup.erase(k) : std::next(k);
            snapshot(*early, "a guest after the end of another");
        }
        c.count("objects", plain.size() + cleanup.size());
        c.nontrivial(plain.size() + cleanup.size() >= 2);
        early.reset();
        late.reset();
        run();
        host.reset();
        run();
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C04";
    check.rule = "at least one snapshot is sent and the snapshots contain at least two objects";
    check.subs = {
        { "many", many, 2500, 40000, 60 },
        { "late", late, 50000, 1000000, 60 },
        { "returning", returning, 30000, 600000, 60 },
    };
    check.init = silence;
    check.assumptions = { "messages on one connection arrive in order or not at all (a byte stream)" };
    return pbt::run(argc, argv, check);
}
