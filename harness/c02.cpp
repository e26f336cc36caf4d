// C02: dispatch: exactly once, in order, correctly labelled, also while handlers come, go, fail or publish themselves.
#include "history.h"
#include <dots/Dispatcher.h>
#include <dots/Event.h>

using namespace mdl;

namespace
{
    struct Fault { int id; };

    struct Net
    {
        enum Kind { Trans, Ev };
        enum Phase { None, InTrans, InEvent };

        struct Message
        {
            size_t world;
            MValue value;
            uint32_t attributes;
            bool remove;
            DotsHeader header;
            bool hasEvent;
            std::optional<Clone> expected;
            DotsMt mt;
        };

        struct Handler
        {
            Kind kind;
            size_t world;
            dots::Dispatcher::id_t id = 0;
            size_t first = 0;                     // first message owed
            std::optional<size_t> maybe;          // may or may not get this one
            bool cancelled = false;
            size_t last = 0;                      // messages from here on must not arrive (valid if cancelled)
            std::vector<size_t> got;
            size_t replayed = 0;
            bool adding = false;
            std::vector<Clone> replayState;
            std::vector<bool> replaySeen;
        };

        pbt::Ctx& c;
        std::vector<std::unique_ptr<World>> ws;
        std::vector<Message> messages;
        std::vector<std::vector<std::vector<Clone>>> states;   // [world][number of messages applied]
        std::vector<std::unique_ptr<Handler>> handlers;
        std::unique_ptr<dots::Dispatcher> d;
        std::vector<std::pair<size_t, Phase>> running;         // messages of the handlers on the stack
        size_t thrown = 0, reported = 0;
        std::map<int, size_t> faults;                          // outstanding exceptions
        size_t budget = 60, selfCancels = 0, nested = 0, duringDelivery = 0, replays = 0;

        explicit Net(pbt::Ctx& c_) : c(c_)
        {
            size_t n = 1 + c.s.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                ws.push_back(std::make_unique<World>(c, c.s.chance(3, 4)));
                for (size_t j = 0; j < i; ++j) if (ws[j]->sub.d == ws[i]->sub.d) c.discard();
                c.log << "\n";
            }
            states.resize(n, { {} });
            make();
        }

        bool cached(size_t w) const { return ws[w]->sub.d->cached(); }

        void make()
        {
            d = std::make_unique<dots::Dispatcher>([this](const dots::type::StructDescriptor& descriptor, std::exception_ptr e)
            {
                ++reported;
                try { std::rethrow_exception(e); }
                catch (const std::runtime_error& x) { fault(std::atoi(x.what()), descriptor); }
                catch (const Fault& x) { fault(x.id, descriptor); }
                catch (const std::exception& x) { c.failLater(cat("an error nobody raised was reported: ", x.what())); }
            });
        }

        void fault(int id, const dots::type::StructDescriptor& descriptor)
        {
            auto it = faults.find(id);
            if (it == faults.end()) { c.failLater("an error nobody raised was reported, or one was reported twice"); return; }
            if (ws[it->second]->sub.d != &descriptor) c.failLater("an error was reported for another type");
            faults.erase(it);
        }

        size_t applied() const { return running.empty() ? messages.size() : running.back().first; }

        const std::vector<Clone>& stateNow(size_t w) const
        {
            if (running.empty()) return states[w].back();
            auto [seq, phase] = running.back();
            return states[w][phase == InEvent ? seq + 1 : seq];
        }

        void dispatch()
        {
            if (budget == 0) return;
            --budget;
            size_t wi = c.s.below(ws.size());
            World& w = *ws[wi];
            bool remove = cached(wi) && c.s.chance(1, 3);
            Message m;
            m.world = wi;
            m.value = w.genObject(remove);
            m.attributes = remove && c.s.chance(2, 3) ? w.sub.t->keys() : w.genAttributes(m.value);
            m.remove = remove;
            m.header = w.genHeader(m.attributes, remove);
            c.log << "\n" << std::string(2 + running.size() * 2, ' ') << "message " << messages.size() << ": type " << wi << (remove ? " remove " : " publish ") << show(m.value) << " attributes " << std::hex << m.attributes << std::dec;
            if (cached(wi))
            {
                bool known = w.find(m.value) != nullptr;
                m.expected = w.apply(m.header, m.value, m.attributes, remove);
                m.hasEvent = m.expected.has_value();
                m.mt = remove ? DotsMt::remove : known ? DotsMt::update : DotsMt::create;
            }
            else
            {
                m.hasEvent = true;
                m.mt = DotsMt::create;
                Clone e;
                e.value = m.value;
                e.createdFrom = World::sender(m.header);
                e.created = World::sent(m.header);
                m.expected = e;
            }
            DotsHeader header = m.header;
            MValue value = m.value;
            size_t seq = messages.size();
            messages.push_back(std::move(m));
            for (size_t i = 0; i < ws.size(); ++i) states[i].push_back(ws[i]->model);
            Instance inst{ *w.sub.d };
            write(*inst, *w.sub.t, value);
            bool top = running.empty();
            if (!top) ++nested;
            d->dispatch(dots::io::Transmission{ header, dots::type::AnyStruct{ *inst } });
            (void)seq;
            if (top) c.throwIfFailed();
        }

        void subscribe()
        {
            if (handlers.size() >= 14) return;
            auto h = std::make_unique<Handler>();
            h->kind = c.s.chance(1, 3) ? Trans : Ev;
            h->world = c.s.below(ws.size());
            Handler& r = *h;
            size_t index = handlers.size();
            handlers.push_back(std::move(h));
            c.log << "\n" << std::string(2 + running.size() * 2, ' ') << "subscribe handler " << index << (r.kind == Trans ? " (messages) " : " (events) ") << "type " << r.world;
            const auto& descriptor = *ws[r.world]->sub.d;
            r.first = messages.size();
            if (!running.empty())
            {
                ++duringDelivery;
                auto [seq, phase] = running.back();
                r.first = seq + 1;
                if (r.kind == Ev && phase == InTrans && messages[seq].world == r.world)
                {
                    // the object is not in the cache yet: the handler must learn of it by the event
                    if (cached(r.world)) r.first = seq; else r.maybe = seq;
                }
            }
            // state with identity, to check that it outlives calls
            auto token = std::make_shared<std::string>(cat("handler ", index, " with some text to live on the heap"));
            if (r.kind == Trans)
            {
                r.id = d->addTransmissionHandler(descriptor, [this, &r, token = std::string{ *token }, index](const dots::io::Transmission& t) { transmission(r, index, t); if (token.empty()) c.failLater("handler state lost"); });
                r.adding = false;
            }
            else
            {
                r.adding = true;
                r.replayState = stateNow(r.world);
                if (!cached(r.world)) r.replayState.clear();
                r.replaySeen.assign(r.replayState.size(), false);
                r.id = d->addEventHandler(descriptor, [this, &r, token = std::string{ *token }, index](const dots::Event<>& e) { event(r, index, e); if (token.empty()) c.failLater("handler state lost"); });
                r.adding = false;
                if (r.replayed != r.replayState.size()) c.failLater(cat("handler ", index, " was called for ", r.replayed, " of ", r.replayState.size(), " cached objects when it subscribed"));
            }
            for (auto& o : handlers) if (o.get() != &r && o->id == r.id) c.failLater("two handlers have the same id");
        }

        void cancel(Handler& h, size_t index)
        {
            if (h.cancelled || h.adding) return;
            c.log << "\n" << std::string(2 + running.size() * 2, ' ') << "cancel handler " << index;
            h.cancelled = true;
            h.last = messages.size();
            if (!running.empty())
            {
                ++duringDelivery;
                h.last = running.back().first;
                if (std::find(h.got.begin(), h.got.end(), h.last) != h.got.end()) ++h.last;
            }
            try
            {
                if (h.kind == Trans) d->removeTransmissionHandler(*ws[h.world]->sub.d, h.id);
                else d->removeEventHandler(*ws[h.world]->sub.d, h.id);
            }
            catch (const std::exception& e) { c.failLater(cat("cancelling handler ", index, " failed: ", e.what())); }
        }

        void cancelAny()
        {
            if (handlers.empty()) return;
            size_t i = c.s.below(handlers.size());
            cancel(*handlers[i], i);
        }

        void act(Handler& self, size_t index)
        {
            size_t n = c.s.chance(1, 2) ? 0 : 1 + c.s.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                switch (c.s.weighted({ 3, 3, 4, 4, 3 }))
                {
                case 0: subscribe(); break;
                case 1: cancelAny(); break;
                case 2: if (!self.cancelled && !self.adding) { ++selfCancels; cancel(self, index); } break;
                case 3: dispatch(); break;
                case 4:
                {
                    int id = static_cast<int>(++thrown);
                    faults[id] = self.world;
                    c.log << "\n" << std::string(2 + running.size() * 2, ' ') << "handler " << index << " fails";
                    if (c.s.boolean()) throw Fault{ id };
                    throw std::runtime_error{ std::to_string(id) };
                }
                }
            }
        }

        struct Frame
        {
            Net& n;
            Frame(Net& n_, size_t seq, Phase p) : n(n_) { n.running.emplace_back(seq, p); }
            ~Frame() { n.running.pop_back(); }
        };

        // the oldest message this handler has not seen and that is being delivered
        std::optional<size_t> identify(const DotsHeader& h, const dots::type::Struct& inst, Handler& r, bool wantEvent)
        {
            // candidates in order; the next owed one must match
            size_t from = r.got.empty() ? 0 : r.got.back() + 1;
            for (size_t s = from; s < messages.size(); ++s)
            {
                const Message& m = messages[s];
                if (m.world != r.world || (wantEvent && !m.hasEvent)) continue;
                if (s < r.first && s != r.maybe) continue;
                if (s == r.maybe && !matches(m, h, inst)) { continue; }
                return s;
            }
            return {};
        }

        bool matches(const Message& m, const DotsHeader& h, const dots::type::Struct& inst)
        {
            return same(read(inst, *ws[m.world]->sub.t), m.value) && h._equal(m.header);
        }

        void checkCall(Handler& r, size_t index, size_t seq)
        {
            if (r.cancelled && seq >= r.last) c.failLater(cat("handler ", index, " was called after its cancellation"));
            r.got.push_back(seq);
        }

        void transmission(Handler& r, size_t index, const dots::io::Transmission& t)
        {
            if (c.failed) return;
            if (r.cancelled) { c.failLater(cat("handler ", index, " was called after its cancellation")); return; }
            auto seq = identify(t.header(), t.instance(), r, false);
            if (!seq) { c.failLater(cat("handler ", index, " was called without a message for it")); return; }
            const Message m = messages[*seq];
            if (!matches(m, t.header(), t.instance())) { c.failLater(cat("handler ", index, " got another message instead of message ", *seq)); return; }
            if (!running.empty()) { c.failLater(cat("message ", *seq, " was delivered while another was being delivered")); return; }
            checkCall(r, index, *seq);
            c.log << "\n    handler " << index << " gets message " << *seq;
            // not in the cache yet
            if (cached(r.world) && r.kind == Trans)
            {
                const dots::type::Struct* in = d->container(*ws[r.world]->sub.d).find(t.instance());
                bool was = false;
                for (auto& s : states[r.world][*seq]) was = was || equalValue(ws[r.world]->keyOf(s.value), ws[r.world]->keyOf(m.value));
                if ((in != nullptr) != was) c.failLater("a message handler sees the cache after the update");
            }
            Frame f{ *this, *seq, InTrans };
            act(r, index);
        }

        void event(Handler& r, size_t index, const dots::Event<>& e)
        {
            if (c.failed) return;
            World& w = *ws[r.world];
            if (r.cancelled) { c.failLater(cat("handler ", index, " was called after its cancellation")); return; }
            try
            {
                c.check(&e.descriptor() == w.sub.d, "event of another type");
                if (r.adding && r.replayed < r.replayState.size())
                {
                    ++replays;
                    ++r.replayed;
                    c.check(r.replayed <= r.replayState.size(), cat("handler ", index, " was called more often than there are cached objects when it subscribed"));
                    MValue v = read(e.updated(), *w.sub.t);
                    size_t i = 0;
                    while (i < r.replayState.size() && !equalValue(w.keyOf(r.replayState[i].value), w.keyOf(v))) ++i;
                    c.check(i < r.replayState.size(), "an object that is not cached was delivered on subscription");
                    c.check(!r.replaySeen[i], "a cached object was delivered twice on subscription");
                    r.replaySeen[i] = true;
                    w.compare(e.updated(), e.cloneInfo(), r.replayState[i], "object delivered on subscription");
                    c.check(same(read(e.transmitted(), *w.sub.t), v) && same(read(e(), *w.sub.t), v), "object delivered on subscription: received and up-to-date object differ");
                    c.check(e.mt() == DotsMt::create && e.isCreate() && !e.isUpdate() && !e.isRemove(), "object delivered on subscription is not labelled as create");
                    c.check(!e.isFromMyself(), "object delivered on subscription is labelled as from myself");
                    c.check(e.header().fromCache.isValid() && *e.header().fromCache == r.replayState.size() - r.replayed, "wrong countdown on subscription");
                    c.check(e.header().typeName == w.sub.t->name, "wrong type name on subscription");
                    c.check(e.newProperties().toValue() == v.valid() && e.updatedProperties().toValue() == v.valid(), "wrong property sets on subscription");
                    c.log << "\n    handler " << index << " gets cached " << show(v);
                    size_t seq = running.empty() ? messages.size() : running.back().first;
                    Phase p = running.empty() ? InEvent : running.back().second;
                    if (running.empty())
                    {
                        // nothing is being delivered: the cache is in its latest state, up to messages deferred by earlier handlers of this replay
                        seq = replayBase(r) - 1;
                        p = InEvent;
                    }
                    Frame f{ *this, seq, p };
                    act(r, index);
                    return;
                }
                auto seq = identify(e.header(), e.transmitted(), r, true);
                c.check(seq.has_value(), cat("handler ", index, " was called without an event for it"));
                const Message m = messages[*seq];
                c.check(matches(m, e.header(), e.transmitted()), cat("handler ", index, " got another event instead of that of message ", *seq));
                c.check(running.empty(), cat("message ", *seq, " was delivered while another was being delivered"));
                checkCall(r, index, *seq);
                c.log << "\n    handler " << index << " gets event " << *seq;
                c.check(e.mt() == m.mt && e.isCreate() == (m.mt == DotsMt::create) && e.isUpdate() == (m.mt == DotsMt::update) && e.isRemove() == (m.mt == DotsMt::remove), "event names the wrong operation");
                c.check(e.isFromMyself() == (m.header.isFromMyself == true), "event is labelled wrongly as from myself");
                MValue u = read(e.updated(), *w.sub.t);
                c.check(same(read(e(), *w.sub.t), u), "event call operator yields another object");
                if (cached(r.world)) w.compare(e.updated(), e.cloneInfo(), *m.expected, "event object");
                else
                {
                    c.check(same(u, m.value), "event object of an uncached type is not the received one");
                    Clone x = *m.expected;
                    const auto& ci = e.cloneInfo();
                    c.check(ci.createdFrom.isValid() == x.createdFrom.has_value() && (!x.createdFrom || *ci.createdFrom == *x.createdFrom), "event of an uncached type names the wrong sender");
                    c.check(ci.created.isValid() && ci.created->duration().toFractionalSeconds() == *x.created, "event of an uncached type has the wrong time");
                }
                c.check(e.newProperties().toValue() == m.attributes, "wrong set of new properties");
                c.check(e.updatedProperties().toValue() == (m.attributes & u.valid()), "wrong set of changed properties");
                if (cached(r.world))
                {
                    const dots::type::Struct* in = d->container(*w.sub.d).find(e.updated());
                    c.check((in == nullptr) == m.remove, "the cache is not up to date when the event is delivered");
                }
                Frame f{ *this, *seq, InEvent };
                act(r, index);
            }
            catch (pbt::Failure&) { c.failed = true; }
        }

        // number of messages already applied to the cache while handler r is being added at top level
        size_t replayBase(const Handler& r) const { return r.first; }

        void finish()
        {
            c.throwIfFailed();
            c.check(faults.empty(), "a failing handler was not reported to the error handler");
            c.check(thrown == reported, "number of reported errors is wrong");
            for (size_t i = 0; i < ws.size(); ++i) if (cached(i)) ws[i]->compareAll(d->container(*ws[i]->sub.d));
            for (size_t i = 0; i < handlers.size(); ++i)
            {
                Handler& h = *handlers[i];
                size_t end = h.cancelled ? h.last : messages.size();
                std::vector<size_t> want;
                for (size_t s = 0; s < end; ++s)
                {
                    const Message& m = messages[s];
                    if (m.world != h.world || (h.kind == Ev && !m.hasEvent)) continue;
                    bool got = std::find(h.got.begin(), h.got.end(), s) != h.got.end();
                    if (s >= h.first || (s == h.maybe && got)) want.push_back(s);
                }
                if (want != h.got)
                {
                    std::ostringstream a, b;
                    for (auto x : want) a << x << " ";
                    for (auto x : h.got) b << x << " ";
                    c.fail(cat("handler ", i, " got messages [ ", b.str(), "] instead of [ ", a.str(), "]"));
                }
            }
        }
    };

    void dispatcher(pbt::Ctx& c)
    {
        Net n{ c };
        size_t steps = 1 + c.s.length(30);
        for (size_t i = 0; i < steps; ++i)
        {
            switch (c.s.weighted({ 6, 3, 2, 1 }))
            {
            case 0: n.dispatch(); break;
            case 1: n.subscribe(); break;
            case 2: n.cancelAny(); break;
            case 3:
                if (!c.s.chance(1, 3)) break;
                if (c.s.chance(2, 3))
                {
                    c.log << "\n  dispatcher moved";
                    if (c.s.boolean()) n.d = std::make_unique<dots::Dispatcher>(std::move(*n.d));
                    else
                    {
                        auto old = std::move(n.d);
                        n.make();
                        *n.d = std::move(*old);
                    }
                }
                else
                {
                    c.log << "\n  all handlers dropped";
                    n.d->clear();
                    for (auto& h : n.handlers) if (!h->cancelled) { h->cancelled = true; h->last = n.messages.size(); }
                }
                break;
            }
            c.throwIfFailed();
        }
        n.finish();
        c.nontrivial(n.duringDelivery > 0 && n.messages.size() >= 3);
        if (n.selfCancels) c.count("histories with a handler cancelling itself");
        if (n.nested) c.count("histories with a handler publishing");
        if (n.thrown) c.count("histories with a failing handler");
        if (n.replays) c.count("histories with replay on subscription");
    }

    // subscribing to many objects
    void many(pbt::Ctx& c)
    {
        dots::Dispatcher d{ [](const dots::type::StructDescriptor&, std::exception_ptr) {} };
        const size_t n = c.s.boolean() ? static_cast<size_t>(c.s.one<int>({ 255, 256, 257, 511, 512, 1000 })) : c.s.below(700);
        const uint32_t stride = c.s.one<uint32_t>({ 1, 7, 65535, 257, 40503 });
        const size_t removed = c.s.boolean() ? c.s.below(n + 1) : 0;
        uint32_t id = static_cast<uint32_t>(c.s.below(65536));
        c.log << n << " objects with steps of " << stride << ", of which " << removed << " are removed";
        std::vector<uint16_t> ids;
        std::set<uint16_t> left;
        std::vector<std::pair<uint16_t, bool>> told, expected;
        auto post = [&](uint16_t key, bool remove)
        {
            DotsHeader h{ .typeName = VfPlain::_Name, .sender = 3u, .removeObj = remove };
            VfPlain x{ .id = key, .b = 5 };
            h.attributes = remove ? x._keyProperties() : x._validProperties();
            expected.push_back({ key, remove });
            d.dispatch(dots::io::Transmission{ h, dots::type::AnyStruct{ x } });
        };
        auto early = d.addEventHandler<VfPlain>([&](const dots::Event<VfPlain>& e) { told.push_back({ *e().id, e.isRemove() }); });
        for (size_t i = 0; i < n; ++i, id = (id + stride) % 65536) { ids.push_back(static_cast<uint16_t>(id)); left.insert(ids.back()); post(ids.back(), false); }
        for (size_t i = 0; i < removed; ++i) { left.erase(ids[i]); post(ids[i], true); }
        c.check(told == expected, "a handler is not told of everything that happens, in order");
        std::set<uint16_t> got;
        auto late = d.addEventHandler<VfPlain>([&](const dots::Event<VfPlain>& e)
        {
            if (c.failed) return;
            try
            {
                c.check(left.count(*e().id) == 1 && e().b == 5 && !e.isRemove(), "a new handler is told of an object that is not there");
                c.check(got.insert(*e().id).second, "a new handler is told twice of an object");
                c.check(e.header().fromCache.isValid() && *e.header().fromCache == left.size() - got.size(), cat("wrong countdown on subscription: object ", got.size(), " of ", left.size()));
            }
            catch (const pbt::Failure&) {}
        });
        c.throwIfFailed();
        c.check(got.size() == left.size(), cat("a new handler is told of ", got.size(), " instead of ", left.size(), " objects"));
        d.removeEventHandler(VfPlain::_Descriptor(), early);
        d.removeEventHandler(VfPlain::_Descriptor(), late);
        c.nontrivial(left.size() >= 3);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C02";
    check.rule = "at least three messages, and a handler is subscribed or cancelled while a message is being delivered";
    check.subs = {
        { "many", many, 10000, 200000, 60 },
        { "dispatcher", dispatcher, 150000, 3000000, 60 },
    };
    check.assumptions = { "a message sent by a handler arrives when the message being delivered has been delivered completely (documented at Dispatcher::dispatch)" };
    return pbt::run(argc, argv, check);
}
