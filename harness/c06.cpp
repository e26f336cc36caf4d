// C06: only clients that completed the handshake can take part.
#include "broker.h"

using namespace broker;

namespace
{
    void finish(pbt::Ctx& c, Broker& b)
    {
        size_t n = 0, handshakes = 0;
        for (auto& k : b.conns) { n += k->rawSent; handshakes += k->states.size() > 1 && k->states[1] != State::closed; }
        c.count("messages of raw peers", n);
        c.count("completed handshakes", handshakes);
        c.count("refused connection requests", b.refusals);
        c.count("closed connections", b.closings);
        c.count("messages processed by the host", b.hostMessages);
        c.nontrivial(handshakes >= 1 && b.closings + b.refusals >= 1);
    }

    // peers that send anything in any order next to guests
    void raw(pbt::Ctx& c)
    {
        Options o;
        o.auth = true;
        o.raw = 24;
        o.maxRaw = 3;
        o.maxGuests = 2;
        o.open = 1;
        o.publish = 6;
        o.flags = { 1, 1, 1 | 8, 0 };
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // guests with and without the secret
    void guests(pbt::Ctx& c)
    {
        Options o;
        o.auth = true;
        o.maxGuests = 4;
        o.open = 8;
        o.publish = 4;
        o.maxSteps = 25;
        o.reconnect = true;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // a guest whose host sends anything in any order
    void host(pbt::Ctx& c)
    {
        World w{ c, c.s.chance(4, 5), "Gen" };
        const StructT& t = *w.sub.t;
        std::vector<State> states, expected;
        bool graceful = false, expectGraceful = false;
        size_t calls = 0, expectedCalls = 0;
        std::optional<DotsHeader> last;
        MValue lastValue;
        dots::asio::io_context io{ 1 };
        dots::GuestTransceiver g{ "guest", io, dots::type::Registry::StaticTypePolicy::All, dots::GuestTransceiver::transition_handler_t{ [&](const dots::Connection& k, std::exception_ptr e)
        {
            states.push_back(k.state());
            if (k.state() == State::closed) graceful = e == nullptr;
        } } };
        if (w.sub.isDynamic) g.registry().registerType(const_cast<dots::type::StructDescriptor&>(*w.sub.d), false);
        auto link = std::make_shared<Link>();
        std::optional<std::string> secret;
        if (c.s.boolean()) secret = "secret";
        c.log << (secret ? "\nguest with a secret" : "\nguest without a secret");
        dots::type::DescriptorMap pub, sub;
        bool preload = c.s.boolean();
        if (preload) { sub.emplace(*const_cast<dots::type::StructDescriptor*>(w.sub.d)); c.log << " preloads the type"; }
        g.open(std::move(pub), std::move(sub), secret, dots::io::make_channel<SimChannel>(link, sim::Guest));
        expected.push_back(State::connecting);
        std::optional<dots::Subscription> s;
        State state = State::connecting;
        bool greeted = false;
        uint32_t self = 0;
        size_t accepted = 0, ignored = 0;
        auto close = [&](bool regular) { state = State::closed; expected.push_back(State::closed); expectGraceful = regular; };

        size_t n = 1 + c.s.length(20);
        bool normal = c.s.chance(3, 4);
        for (size_t i = 0; i < n && state != State::closed; ++i)
        {
            auto m = std::make_shared<Message>();
            auto put = [&](const dots::type::Struct& x, uint32_t attributes)
            {
                m->header.typeName = x._descriptor().name();
                m->header.attributes = property_set_t{ attributes };
                if (!c.s.chance(1, 4)) m->header.sentTime = timepoint_t{ dots::type::Duration{ 1000.0 + static_cast<double>(i) } };
                m->keep = x._descriptor().shared_from_this();
                m->object.emplace(x);
                m->data = dots::to_cbor(x, property_set_t{ attributes });
            };
            size_t before = link->end[sim::Guest].sent.size();
            auto sent = [&] { std::vector<MessageP> r; auto& v = link->end[sim::Guest].sent; for (size_t k = before; k < v.size(); ++k) if (!Broker::isDescription(v[k]->type())) r.push_back(v[k]); return r; };
            std::function<void()> after = [&] {};
            last.reset();
            expectedCalls = calls;
            size_t what = normal && !greeted && state == State::connecting ? 0 : normal && state == State::connecting && greeted ? 1 : normal && state == State::early_subscribe && c.s.chance(1, 3) ? 2 : c.s.weighted({ 1, 2, 2, 10, 1, 1, 1 });
            switch (what)
            {
            case 0:
            {
                DotsMsgHello h;
                if (!c.s.chance(1, 10)) h.serverName = "host";
                if (!c.s.chance(1, 10)) h.authChallenge = c.s.interestingUint();
                if (c.s.chance(1, 3)) h.authenticationRequired = c.s.boolean();
                c.log << "\n  hello" << (h.serverName.isValid() && h.authChallenge.isValid() ? "" : " (incomplete)") << (h.authenticationRequired == true ? " that asks for a proof" : "");
                put(h, h._validProperties().toValue());
                if (state != State::connecting || greeted || !h.serverName.isValid() || !h.authChallenge.isValid()) close(false);
                else if (h.authenticationRequired == true && !secret) close(false);
                else
                {
                    greeted = true;
                    after = [&, h]
                    {
                        auto r = sent();
                        c.check(r.size() == 1 && r[0]->type() == "DotsMsgConnect", "the guest does not answer the hello with one connection request");
                        auto& x = r[0]->object->to<DotsMsgConnect>();
                        c.check(x.clientName == std::string{ "guest" } && x.preloadCache.isValid(), "the guest sends an incomplete connection request");
                        c.check((h.authenticationRequired == true) == x.authChallengeResponse.isValid(), "the guest sends a proof exactly if it was not asked for one");
                        if (x.authChallengeResponse.isValid()) c.check(x.cnonce.isValid() && *x.authChallengeResponse == toHex(proof(*h.authChallenge, *x.cnonce, "guest", *secret)), "the guest sends a wrong proof");
                    };
                }
                break;
            }
            case 1:
            {
                DotsMsgConnectResponse r;
                if (!c.s.chance(1, 12)) r.clientId = self = static_cast<uint32_t>(c.s.range(2, 5));
                if (!c.s.chance(1, 12)) r.accepted = !c.s.chance(1, 6);
                if (!c.s.chance(1, 12)) r.preload = c.s.boolean();
                bool complete = r.clientId.isValid() && r.accepted.isValid() && r.preload.isValid();
                c.log << "\n  response" << (complete ? "" : " (incomplete)") << (r.accepted == true ? "" : " refused") << (r.preload == true ? " with preload" : "");
                put(r, r._validProperties().toValue());
                if (state != State::connecting || !greeted || !complete || r.accepted == false) close(false);
                else
                {
                    state = *r.preload ? State::early_subscribe : State::connected;
                    expected.push_back(state);
                    if (*r.preload) after = [&]
                    {
                        auto x = sent();
                        c.check(!x.empty() && x.back()->type() == "DotsMsgConnect" && x.back()->object->to<DotsMsgConnect>().preloadClientFinished == true, "the guest does not finish its preload phase");
                        c.check(x.size() == (preload ? 2 : 1), "the guest does not ask for exactly the types to preload");
                    };
                }
                break;
            }
            case 2:
            {
                DotsMsgConnectResponse r{ .preloadFinished = true };
                c.log << "\n  end of preload";
                put(r, r._validProperties().toValue());
                if (state == State::early_subscribe) { state = State::connected; expected.push_back(state); }
                else close(false);
                break;
            }
            case 3:
            {
                MValue v = w.genObject(false);
                bool keyless = c.s.chance(1, 12) && t.keys() != 0;
                if (keyless) v = restrict(v, ~t.keys());
                c.log << "\n  object " << show(v);
                Instance inst{ *w.sub.d };
                write(*inst, t, v);
                put(*inst, v.valid());
                if (!c.s.chance(1, 4)) { m->header.sender = static_cast<uint32_t>(c.s.range(1, 5)); c.log << " from " << *m->header.sender; }
                if (c.s.chance(1, 4)) m->header.isFromMyself = c.s.boolean();
                bool in = state == State::early_subscribe || state == State::connected;
                if (!in || keyless) close(false);
                else
                {
                    ++accepted;
                    if (s) ++expectedCalls;
                    bool mine = m->header.sender.isValid() && *m->header.sender == self;
                    uint32_t from = m->header.sender.isValid() ? *m->header.sender : dots::Connection::HostId;
                    if (w.sub.d->cached()) fold(t, w.model, from, {}, v, v.valid(), false);
                    if (s) after = [&, mine, from, v]
                    {
                        c.check(last.has_value(), "an object was not delivered");
                        c.check(last->isFromMyself == mine, mine ? "an own object is taken for one of another participant" : "an object of another participant is taken for an own one");
                        c.check(last->sender == from, "an object is attributed to the wrong sender");
                        c.check(same(lastValue, v), "another object was delivered");
                    };
                }
                break;
            }
            case 4:
            {
                DotsMsgError e;
                if (!c.s.chance(1, 4)) e.errorCode = c.s.one<int>({ 0, 0, 1, -1 });
                c.log << "\n  error";
                if (e.errorCode.isValid()) c.log << " " << *e.errorCode;
                put(e, e._validProperties().toValue());
                close(e.errorCode == 0);
                break;
            }
            case 5:
            {
                DotsMsgConnect x{ .clientName = "x", .preloadCache = true };
                c.log << "\n  connection request";
                put(x, x._validProperties().toValue());
                close(false);
                break;
            }
            default:
            {
                c.log << "\n  unknown type";
                DotsMsgError e{ .errorCode = 0 };
                put(e, e._validProperties().toValue());
                m->header.typeName = "NoSuchType";
                close(false);
                break;
            }
            }
            link->end[sim::Guest].in.push_back(m);
            if (link->end[sim::Guest].channel == nullptr || !link->end[sim::Guest].ready) c.fail("the guest does not wait for messages");
            link->end[sim::Guest].channel->feed();
            c.throwIfFailed();
            c.check(states == expected, "the guest is in another state than the protocol says");
            c.check(calls == expectedCalls, "a handler was not called exactly once for an object, or was called for one that must not be accepted");
            if (state == State::closed) c.check(graceful == expectGraceful, graceful ? "an irregular end is reported as regular" : "a regular end is reported as an error");
            else after();
            c.check(g.connected() == (state == State::connected), "the guest reports the wrong connection state");
            const auto* box = std::as_const(g).pool().find(*w.sub.d);
            c.check((box == nullptr ? 0 : box->size()) == w.model.size(), "the guest caches another number of objects than it accepted");
            if (state != State::closed && (state == State::early_subscribe || state == State::connected) && !s && c.s.boolean())
            {
                c.log << "\n  the guest subscribes";
                s.emplace(g.subscribe(t.name, dots::Transceiver::transmission_handler_t{ [&](const dots::io::Transmission& x)
                {
                    ++calls;
                    last = x.header();
                    lastValue = read(x.instance().get(), t);
                } }));
            }
        }
        if (state == State::closed)
        {
            ++ignored;
            c.check(link->end[sim::Guest].channel == nullptr, "the guest keeps an ended connection");
        }
        c.count("objects accepted by a guest", accepted);
        c.nontrivial(expected.size() >= 2 && n >= 3 && (accepted > 0 || ignored > 0));
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C06";
    check.rule = "raw, guests: at least one handshake is completed and at least one connection is refused or closed; host: at least three messages, at least one transition and an accepted object or a closed connection";
    check.subs = {
        { "raw", raw, 100000, 2000000, 60 },
        { "guests", guests, 40000, 800000, 60 },
        { "host", host, 80000, 1600000, 60 },
    };
    check.init = silence;
    check.assumptions = { "messages on one connection arrive in order or not at all (a byte stream)" };
    return pbt::run(argc, argv, check);
}
