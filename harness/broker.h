// A host and its guests on the simulated network, with a reference model of what the host has to send to whom.
#pragma once
#include "history.h"
#include "simnet.h"
#include <deque>
#include <dots/asio.h>
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <dots/io/auth/AuthManager.h>
#include <dots/tools/logging.h>
#include <PicoSHA2/picosha2.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsMember.dots.h>
#include <DotsEcho.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <StructDescriptorData.dots.h>
#include <EnumDescriptorData.dots.h>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

namespace broker
{
    using namespace mdl;
    using namespace sim;
    using State = DotsConnectionState;

    inline void silence() { dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); }
    inline double now() { return timepoint_t::Now().duration().toFractionalSeconds(); }

    inline std::string sha256(const std::string& s)
    {
        picosha2::hash256_one_by_one h;
        h.process(s.begin(), s.end());
        h.finish();
        std::string r(32, '\0');
        h.get_hash_bytes(r.begin(), r.end());
        return r;
    }

    inline std::string toHex(const std::string& s)
    {
        std::string r;
        for (unsigned char b : s) { r += "0123456789abcdef"[b >> 4]; r += "0123456789abcdef"[b & 15]; }
        return r;
    }

    // the proof of a secret, computed from its definition
    inline std::string proof(uint64_t nonce, const std::string& cnonce, const std::string& name, const std::string& secret)
    {
        std::string n(reinterpret_cast<const char*>(&nonce), sizeof nonce);
        return sha256(sha256(name + "::" + secret) + ":" + n + ":" + cnonce);
    }

    // who is admitted: depends on the name and the proof
    struct Policy
    {
        std::optional<uint64_t> nonce;
        std::string secret;
        std::set<std::string> banned;

        bool admits(const std::string& name, const std::string& cnonce, const std::string& proof_) const
        {
            if (banned.count(name)) return false;
            return !nonce || proof_ == proof(*nonce, cnonce, name, secret);
        }
    };

    struct TestAuth : dots::io::AuthManager
    {
        const Policy& p;
        TestAuth(dots::HostTransceiver& t, const Policy& p_) : AuthManager(t), p(p_) {}
        std::optional<dots::io::Nonce> requiresAuthentication(const dots::io::Endpoint&, std::string_view) override
        {
            return p.nonce ? std::optional<dots::io::Nonce>{ dots::io::Nonce{ *p.nonce } } : std::nullopt;
        }
        bool verifyAuthentication(const dots::io::Endpoint& e, std::string_view guest, dots::io::Nonce nonce, dots::io::Nonce cnonce, const dots::io::Digest& response) override
        {
            return verifyAuthentication(e, guest, nonce, cnonce.toString(), response);
        }
        bool verifyAuthentication(const dots::io::Endpoint&, std::string_view guest, dots::io::Nonce nonce, std::string_view cnonce, const dots::io::Digest& response) override
        {
            if (p.nonce && nonce.value() != *p.nonce) return false;
            return p.admits(std::string{ guest }, std::string{ cnonce }, std::string(response.value().begin(), response.value().end()));
        }
    };

    struct Options
    {
        unsigned maxGuests = 3;
        unsigned maxSteps = 50;
        std::vector<int> flags{ 1, 1, 1 | 8, 1 | 4, 0 };
        bool reactions = false;      // handlers publish (must not be combined with faults)
        bool cascades = false;       // with reactions: handlers of the host also react to removals
        bool reconnect = false;
        bool faults = false;         // failing transmissions
        bool destroyHost = false;
        // weights of the operations
        unsigned open = 3, publish = 12, remove = 4, hostPublish = 3, subscribe = 5, unsubscribe = 1, joinByName = 1, deliver = 24, settle = 2;
        unsigned leave = 0, reject = 0, end = 0, echo = 0, describe = 0, clear = 0, raw = 0;
        size_t maxRaw = 0;           // peers driven message by message
        bool auth = false;           // the host may ask for a secret
    };

    struct Guest
    {
        struct Handler
        {
            size_t world;
            bool event;
            std::optional<dots::Subscription> sub;
            size_t calls = 0;              // during the current delivery
            size_t total = 0;
            bool replaying = false;
            std::vector<Clone> replay;
        };
        size_t id = 0;
        std::string name;
        LinkP link;
        std::unique_ptr<dots::GuestTransceiver> t;
        std::vector<std::shared_ptr<Dynamic>> dynamic;   // own descriptors of the types it knows in advance
        bool staticTypes = true;
        std::vector<std::vector<Clone>> model;           // fold of what was delivered, per type
        std::vector<std::unique_ptr<Handler>> handlers;
        std::set<size_t> joined;                         // types it asked for on this connection through subscribe
        std::set<size_t> stale;                          // caches that may hold old objects
        std::set<size_t> preloadSub, preloadPub;
        std::optional<std::string> secret;
        std::optional<uint32_t> selfId;
        std::vector<State> states, expected;
        size_t closes = 0;
        bool graceful = false, expectGraceful = false;
        size_t connections = 0;
        uint64_t publications = 0;
    };

    // what the model knows about a connection at the host
    struct Conn
    {
        LinkP link;
        Guest* guest = nullptr;            // null: a raw peer
        uint32_t peerId = 0;
        State state = State::connecting;
        std::string name;
        size_t rawSent = 0;
        std::string lastTypes;
        std::set<size_t> member;
        std::set<std::string> other;       // groups that are no generated types
        std::set<size_t> left;
        std::vector<State> states, expected;
        bool reportedError = false, expectGraceful = false;
        size_t cursor = 0;                 // into link->end[Host].sent
        std::map<size_t, std::vector<Clone>> atFinish;   // snapshot promised by preload
        std::set<std::string> described;   // types described on this connection in any direction
        bool failed() const { return link->end[Host].fail; }
        bool closed() const { return state == State::closed; }
    };

    struct Broker
    {
        struct HostMsg
        {
            size_t world = 0;
            MValue value;                  // transmitted properties
            uint32_t attributes = 0;
            bool remove = false;
            uint32_t sender = 0;
            std::optional<double> sent;
        };
        struct HostLog { HostMsg m; bool fromMyself; double serverSent; };

        pbt::Ctx& c;
        Options opt;
        dots::asio::io_context io{ 1 };
        std::vector<std::unique_ptr<World>> ws;
        std::vector<std::shared_ptr<Dynamic>> hostDynamic;
        std::map<std::string, size_t> worldByName;
        std::unique_ptr<dots::HostTransceiver> host;
        SimListener* listener = nullptr;
        std::vector<std::unique_ptr<Guest>> guests;
        std::vector<std::unique_ptr<Conn>> conns;
        std::vector<std::optional<dots::Subscription>> hostSubs;
        std::vector<HostLog> hostLog;
        size_t hostLogPos = 0;
        std::optional<Policy> policy;
        size_t raws = 0, admissions = 0, refusals = 0;
        std::deque<std::pair<size_t, HostMsg>> nested;   // published by host handlers during the step, and what they reacted to
        // object that has to go because of a closed connection (then with its identity) or a cleared cache
        struct Owed { HostMsg m; std::optional<uint32_t> peer; bool optional = false; };
        std::vector<Owed> removals;
        bool destroying = false;
        double stepStart = 0;
        size_t reactionBudget = 0, reactionTotal = 80, nextLink = 0;
        // statistics
        size_t deliveries = 0, closings = 0, snapshots = 0, hostMessages = 0, fanout = 0, cleaned = 0, snapshotObjects = 0, preloadsChecked = 0, hostPublications = 0, refused = 0, echoes = 0, describes = 0, descriptions = 0, clears = 0, cleared = 0, leaves = 0;

        Broker(pbt::Ctx& c_, Options o) : c(c_), opt(std::move(o))
        {
            size_t n = 1 + c.s.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                ws.push_back(std::make_unique<World>(c, true, cat("T", i), opt.flags));
                if (worldByName.count(ws[i]->sub.t->name)) c.discard();
                worldByName[ws[i]->sub.t->name] = i;
                c.log << " flags " << int(ws[i]->sub.d->flags()) << "\n";
            }
            hostSubs.resize(n);
            bool all = c.s.chance(1, 3);
            host = std::make_unique<dots::HostTransceiver>("host", io, all ? dots::type::Registry::StaticTypePolicy::All : dots::type::Registry::StaticTypePolicy::InternalOnly,
                dots::HostTransceiver::transition_handler_t{ [this](const dots::Connection& k, std::exception_ptr e) { hostTransition(k, e); } });
            c.log << "host knows " << (all ? "all" : "internal") << " generated types";
            for (auto& w : ws)
            {
                hostDynamic.push_back(std::make_shared<Dynamic>());
                if (w->sub.isDynamic && c.s.chance(1, 3))
                {
                    host->registry().registerType(hostDynamic.back()->get(*w->sub.t), false);
                    c.log << " and " << w->sub.t->name;
                }
            }
            if (opt.auth && c.s.chance(3, 4))
            {
                policy.emplace();
                if (c.s.chance(2, 3)) policy->nonce = c.s.one<uint64_t>({ 1, 0, 0x123456789abcdefull, ~0ull });
                policy->secret = c.s.one<std::string>({ "secret", "", "x::y" });
                if (c.s.chance(1, 4)) policy->banned.insert("guest1");
                c.log << (policy->nonce ? "; it asks for the secret " : "; it asks for no secret") << (policy->nonce ? policy->secret : "") << (policy->banned.empty() ? "" : " and bans guest1");
                host->setAuthManager<TestAuth>(*policy);
            }
            auto l = std::make_unique<SimListener>();
            listener = l.get();
            host->listen(std::move(l));
            watch();
        }

        ~Broker()
        {
            // the order in which everything is taken down must not matter to the checks
            destroying = true;
            for (auto& k : conns) for (auto& e : k->link->end) { e.in.clear(); e.sent.clear(); }
            for (auto& g : guests) { g->handlers.clear(); g->t.reset(); }
            guests.clear();
            hostSubs.clear();
            host.reset();
        }

        const StructT& type(size_t w) const { return *ws[w]->sub.t; }
        bool cached(size_t w) const { return ws[w]->sub.d->cached(); }
        const dots::type::StructDescriptor* hostType(size_t w) const { return std::as_const(*host).registry().findStructType(type(w).name); }
        const dots::type::StructDescriptor* guestType(const Guest& g, size_t w) const { return std::as_const(*g.t).registry().findStructType(type(w).name); }
        std::optional<size_t> worldOf(const std::string& name) const { auto it = worldByName.find(name); if (it == worldByName.end()) return {}; return it->second; }
        static bool isDescription(const std::string& t) { return t == "StructDescriptorData" || t == "EnumDescriptorData"; }

        Conn* connOf(const LinkP& l) { for (auto& k : conns) if (k->link == l) return k.get(); return nullptr; }
        Conn* connOf(const Guest& g) { return g.link == nullptr ? nullptr : connOf(g.link); }

        // subscribes the host to every type as soon as it knows it
        void watch()
        {
            for (size_t w = 0; w < ws.size(); ++w)
            {
                if (hostSubs[w] || hostType(w) == nullptr) continue;
                hostSubs[w].emplace(host->subscribe(type(w).name, dots::Transceiver::transmission_handler_t{ [this, w](const dots::io::Transmission& t) { hostSees(w, t); } }));
            }
        }

        void hostSees(size_t w, const dots::io::Transmission& t)
        {
            const DotsHeader& h = t.header();
            HostLog l;
            l.m.world = w;
            l.m.attributes = h.attributes->toValue();
            l.m.value = read(t.instance().get(), type(w));
            l.m.remove = h.removeObj.isValid() && *h.removeObj;
            if (!h.sender.isValid() || !h.sentTime.isValid() || !h.isFromMyself.isValid() || !h.serverSentTime.isValid()) { c.failLater("a message is dispatched at the host without sender, times or origin"); return; }
            l.m.sender = *h.sender;
            l.m.sent = h.sentTime->duration().toFractionalSeconds();
            l.fromMyself = *h.isFromMyself;
            l.serverSent = h.serverSentTime->duration().toFractionalSeconds();
            bool react = opt.reactions && !destroying && (opt.cascades ? l.m.remove || l.m.sender != dots::Connection::HostId : l.m.sender != dots::Connection::HostId && !l.m.remove) && reactionBudget > 0 && reactionTotal > 0 && c.s.chance(1, 4);
            hostLog.push_back(std::move(l));
            const size_t cause = hostLog.size() - 1;
            if (react)
            {
                --reactionBudget;
                    --reactionTotal;
                try
                {
                    size_t n = 1 + c.s.below(2);
                    if (opt.cascades && c.s.chance(1, 4))
                    {
                        // further caches come into being
                        c.log << "\n    (host handler) asks for the caches of all types";
                        std::vector<const dots::type::StructDescriptor*> all;
                        std::as_const(*host).registry().forEach<dots::type::StructDescriptor>([&](const dots::type::StructDescriptor& d) { all.push_back(&d); });
                        for (auto* d : all) std::as_const(*host).pool().get(*d);
                    }
                    for (size_t i = 0; i < n; ++i)
                    {
                        auto [m, included] = opt.cascades && c.s.chance(2, 3) ? genHostRemoval(w) : genHostMessage();
                        if (!m) continue;
                        c.log << "\n    (host handler)";
                        nested.emplace_back(cause, *m);
                        hostPublishNow(*m, included);
                    }
                }
                catch (const pbt::Failure&) { c.failed = true; }
            }
        }

        void hostTransition(const dots::Connection& k, std::exception_ptr e)
        {
            if (destroying && k.state() == State::closed)
            {
            }
            std::string uri{ k.remoteEndpoint().uriStr() };
            Conn* conn = nullptr;
            for (auto& x : conns) if (uri == cat("sim://guest-", x->link->id)) conn = x.get();
            if (conn == nullptr) { if (!destroying) c.failLater("transition of an unknown connection"); return; }
            conn->states.push_back(k.state());
            if (k.state() == State::connecting)
            {
                conn->peerId = k.peerId();
                if (k.peerId() <= dots::Connection::HostId) c.failLater("a client was given a reserved identity");
                for (auto& x : conns) if (x.get() != conn && !x->closed() && x->peerId == k.peerId()) c.failLater("two simultaneous clients have the same identity");
            }
            else if (k.peerId() != conn->peerId) c.failLater("the identity of a client changes");
            if (k.state() == State::closed) conn->reportedError = e != nullptr;
        }

        // ---------------------------------------------------------------- model of the host

        bool pendingRemoval(const HostMsg& m)
        {
            for (size_t i = 0; i < removals.size(); ++i)
            {
                auto& r = removals[i].m;
                if (r.world == m.world && equalValue(restrict(r.value, type(m.world).keys()), restrict(m.value, type(m.world).keys())))
                {
                    removals.erase(removals.begin() + i);
                    return true;
                }
            }
            return false;
        }

        // next message the host sent on the connection in this step; null if there is none
        MessageP next(Conn& k, bool keepDescriptions = false)
        {
            auto& sent = k.link->end[Host].sent;
            while (k.cursor < sent.size())
            {
                MessageP m = sent[k.cursor];
                if (isDescription(m->type()) && !keepDescriptions) { ++k.cursor; k.described.insert(describedName(*m)); continue; }
                return m;
            }
            return nullptr;
        }

        static std::string describedName(const Message& m)
        {
            if (auto* s = m.object->as<StructDescriptorData>()) return s->name.isValid() ? *s->name : std::string{};
            if (auto* e = m.object->as<EnumDescriptorData>()) return e->name.isValid() ? *e->name : std::string{};
            return {};
        }

        std::string where(const Conn& k) const { return cat("connection ", k.link->id, ": "); }

        // the model closes the connection; its cleanup objects have to go
        void close(Conn& k, bool graceful)
        {
            if (k.closed()) return;
            ++closings;
            k.state = State::closed;
            k.expected.push_back(State::closed);
            k.expectGraceful = graceful;
            k.member.clear();
            for (size_t w = 0; w < ws.size(); ++w)
            {
                if (!ws[w]->sub.d->cleanup()) continue;
                for (auto& o : ws[w]->model) if (o.lastFrom == k.peerId)
                {
                    HostMsg m;
                    m.world = w;
                    m.value = o.value;
                    removals.push_back({ std::move(m), k.peerId });
                    ++cleaned;
                }
            }
        }

        // checks an object sent to a connection; true: sent, false: the transmission failed
        bool expectObject(Conn& k, const HostMsg& m, std::optional<uint32_t> fromCache)
        {
            MessageP p = next(k);
            if (k.failed() && (p == nullptr || p->type() == "DotsMsgError"))
            {
                close(k, false);
                return false;
            }
            const StructT& t = type(m.world);
            c.check(p != nullptr, cat(where(k), fromCache ? "an object is missing in the snapshot of " : "a message was not delivered: ", t.name, " ", show(m.value)));
            ++k.cursor;
            checkObject(k, *p, m, fromCache);
            return true;
        }

        void checkObject(Conn& k, const Message& p, const HostMsg& m, std::optional<uint32_t> fromCache)
        {
            const StructT& t = type(m.world);
            c.check(p.type() == t.name, cat(where(k), "got a message of type ", p.type(), " instead of ", t.name, " ", show(m.value)));
            const DotsHeader& h = p.header;
            c.check(h.attributes.isValid() && h.attributes->toValue() == m.attributes, cat(where(k), "message names other properties: ", h.attributes.isValid() ? h.attributes->toString() : "none", " instead of ", property_set_t{ m.attributes }.toString()));
            MValue got = restrict(read(p.object->get(), t), m.attributes);
            c.check(same(got, restrict(m.value, m.attributes)), cat(where(k), "message carries another object: ", firstDifference(got, restrict(m.value, m.attributes))));
            c.check(h.sender.isValid() && *h.sender == m.sender, cat(where(k), "message names the wrong sender"));
            c.check((h.removeObj.isValid() && *h.removeObj) == m.remove, cat(where(k), "message has the wrong remove marker"));
            c.check(h.sentTime.isValid() && h.sentTime->duration().toFractionalSeconds() == *m.sent, cat(where(k), "message has the wrong time"));
            c.check(h.serverSentTime.isValid() && h.serverSentTime->duration().toFractionalSeconds() >= stepStart - 0.1 && h.serverSentTime->duration().toFractionalSeconds() <= now() + 0.1, cat(where(k), "message has the wrong server time"));
            if (fromCache) c.check(h.fromCache.isValid() && *h.fromCache == *fromCache, cat(where(k), "snapshot does not count down to zero"));
        }

        // next entry of the host's own log must be m (its sent time is taken over when m has none)
        HostMsg expectDispatch(const HostMsg& m, double t0)
        {
            c.check(hostLogPos < hostLog.size(), cat("the host did not process a message: ", type(m.world).name, " ", show(m.value)));
            const HostLog& l = hostLog[hostLogPos++];
            c.check(l.m.world == m.world, "the host processed a message of another type");
            c.check(l.m.attributes == m.attributes, cat("the host processed other properties: ", property_set_t{ l.m.attributes }.toString(), " instead of ", property_set_t{ m.attributes }.toString()));
            c.check(same(l.m.value, restrict(m.value, m.attributes)), cat("the host processed another object: ", firstDifference(l.m.value, restrict(m.value, m.attributes))));
            c.check(l.m.remove == m.remove, "the host took a removal for an update or the reverse");
            c.check(l.m.sender == m.sender, "the host attributed a message to the wrong sender");
            c.check(l.fromMyself == (m.sender == dots::Connection::HostId), "the host marked the wrong message as its own");
            if (m.sent) c.check(*l.m.sent == *m.sent, "the host changed the sent time");
            else c.check(*l.m.sent >= t0 - 0.1 && *l.m.sent <= now() + 0.1, "a message of the host has the wrong time");
            HostMsg r = m;
            r.sent = l.m.sent;
            return r;
        }

        void modelDispatch(const HostMsg& m_)
        {
            HostMsg m = expectDispatch(m_, stepStart);
            World& w = *ws[m.world];
            if (cached(m.world)) fold(type(m.world), w.model, m.sender, m.sent, m.value, m.attributes, m.remove);
            ++hostMessages;
            for (auto& k : conns) if (!k->closed() && k->member.count(m.world))
            {
                ++fanout;
                expectObject(*k, m, {});
            }
        }

        // what follows from handlers and closed connections
        void modelFollowUps()
        {
            for (;;)
            {
                // what handlers publish is processed before anything the host does next
                while (!nested.empty() && nested.front().first < hostLogPos)
                {
                    HostMsg m = nested.front().second;
                    nested.pop_front();
                    modelDispatch(m);
                    noteOptional();
                }
                bool owed = false;
                const HostMsg* missing = nullptr;
                for (auto& r : removals) if (!r.optional) { owed = true; missing = &r.m; }
                const bool more = hostLogPos < hostLog.size();
                if (!owed && (!more || removals.empty())) { removals.clear(); return; }
                c.check(more, missing == nullptr ? "" : cat("the host did not remove an object it has to remove: ", type(missing->world).name, " ", show(missing->value)));
                const HostMsg& l = hostLog[hostLogPos].m;
                c.check(l.remove, "the host processed an unexpected message");
                HostMsg m;
                m.world = l.world;
                c.check(pendingRemoval(l), cat("the host removed an object it must keep: ", type(l.world).name, " ", show(l.value)));
                const Clone* o = ws[l.world]->find(l.value);
                c.check(o != nullptr, "the host removed an object twice");
                m.value = restrict(o->value, type(l.world).keys());
                m.attributes = type(l.world).keys();
                m.remove = true;
                m.sender = dots::Connection::HostId;
                modelDispatch(m);
                noteOptional();
            }
        }

        // objects that handlers removed need not be removed any more; objects that handlers published since belong to the host
        void noteOptional()
        {
            for (auto& r : removals)
            {
                const Clone* o = ws[r.m.world]->find(r.m.value);
                if (o == nullptr || (r.peer && o->lastFrom != r.peer)) r.optional = true;
            }
        }

        void expectSimple(Conn& k, const std::string& typeName, const std::function<void(const dots::type::Struct&)>& f)
        {
            if (k.closed()) return;
            MessageP p = next(k);
            if (k.failed() && (p == nullptr || p->type() == "DotsMsgError")) { close(k, false); return; }
            c.check(p != nullptr, cat(where(k), "no ", typeName, " was sent"));
            c.check(p->type() == typeName, cat(where(k), "got ", p->type(), " instead of ", typeName));
            ++k.cursor;
            f(p->object->get());
        }

        void modelSnapshot(Conn& k, size_t w)
        {
            if (hostType(w) == nullptr || !cached(w)) return;
            ++snapshots;
            std::vector<Clone> left = ws[w]->model;
            size_t n = left.size();
            snapshotObjects += n;
            for (size_t i = 0; i < n; ++i)
            {
                MessageP p = next(k);
                if (k.failed() && (p == nullptr || p->type() == "DotsMsgError")) { close(k, false); return; }
                c.check(p != nullptr && p->type() == type(w).name, cat(where(k), "the snapshot of ", type(w).name, " misses ", left.size(), " objects"));
                MValue v = read(p->object->get(), type(w));
                Clone* o = findClone(type(w), left, v);
                c.check(o != nullptr, cat(where(k), "the snapshot of ", type(w).name, " has an object twice or one that is not cached: ", show(v)));
                HostMsg m;
                m.world = w;
                m.value = o->value;
                m.attributes = o->value.valid();
                m.sender = *o->lastFrom;
                m.sent = o->modified;
                ++k.cursor;
                checkObject(k, *p, m, static_cast<uint32_t>(n - 1 - i));
                left.erase(left.begin() + (o - left.data()));
            }
            expectSimple(k, "DotsCacheInfo", [&](const dots::type::Struct& s)
            {
                auto& i = s._to<DotsCacheInfo>();
                c.check(i.typeName == type(w).name && i.endTransmission == true && !(i.endDescriptorRequest == true) && !i.startTransmission.isValid(), cat(where(k), "the end of the snapshot is not announced for ", type(w).name));
            });
        }

        // the model of what a message does at the host. Everything else is an offence that closes the connection.
        void modelReceive(Conn& k, const Message& m)
        {
            const std::string t = m.type();
            const dots::type::Struct* o = m.object ? &m.object->get() : nullptr;
            bool admitted = k.state == State::early_subscribe || k.state == State::connected;
            if (o == nullptr || !m.header.attributes.isValid()) { close(k, false); return; }
            property_set_t transmitted = *m.header.attributes;
            auto has = [&](property_set_t p) { return p <= transmitted && p <= o->_validProperties(); };
            if (t == "DotsMsgError")
            {
                auto& e = o->_to<DotsMsgError>();
                close(k, has(DotsMsgError::errorCode_p) && *e.errorCode == 0);
                return;
            }
            if (t == "DotsMsgConnect")
            {
                auto& x = o->_to<DotsMsgConnect>();
                if (k.state == State::connecting && has(DotsMsgConnect::clientName_p) && has(DotsMsgConnect::preloadCache_p))
                {
                    bool preload = *x.preloadCache;
                    k.name = *x.clientName;
                    if (policy)
                    {
                        std::string p;
                        const std::string hex = x.authChallengeResponse.isValid() ? static_cast<std::string>(*x.authChallengeResponse) : std::string{};
                        auto digit = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; };
                        bool wellFormed = hex.size() == 64 || hex.empty();
                        for (char ch : hex) wellFormed = wellFormed && digit(ch) >= 0;
                        if (wellFormed) for (size_t i = 0; i + 1 < hex.size(); i += 2) p += static_cast<char>(digit(hex[i]) * 16 + digit(hex[i + 1]));
                        if (!wellFormed || !policy->admits(k.name, x.cnonce.isValid() ? static_cast<std::string>(*x.cnonce) : std::string{}, p))
                        {
                            ++refusals;
                            // the refusal may be announced before the connection is closed
                            if (MessageP m = next(k); m != nullptr && m->type() == "DotsMsgConnectResponse")
                            {
                                ++k.cursor;
                                c.check(m->object->to<DotsMsgConnectResponse>().accepted == false, cat(where(k), "a client that may not take part is told that it is accepted"));
                            }
                            close(k, false);
                            return;
                        }
                    }
                    ++admissions;
                    expectSimple(k, "DotsMsgConnectResponse", [&](const dots::type::Struct& s)
                    {
                        auto& r = s._to<DotsMsgConnectResponse>();
                        c.check(r.accepted == true && r.clientId == k.peerId && r.preload == preload, cat(where(k), "wrong response to a connection request"));
                    });
                    if (k.closed()) return;
                    k.state = preload ? State::early_subscribe : State::connected;
                    k.expected.push_back(k.state);
                    return;
                }
                if (k.state == State::early_subscribe && has(DotsMsgConnect::preloadClientFinished_p) && *x.preloadClientFinished)
                {
                    k.state = State::connected;
                    k.expected.push_back(k.state);
                    for (size_t w : k.member) if (!k.left.count(w)) k.atFinish[w] = ws[w]->model;
                    expectSimple(k, "DotsMsgConnectResponse", [&](const dots::type::Struct& s) { c.check(s._to<DotsMsgConnectResponse>().preloadFinished == true, cat(where(k), "wrong end of the preload phase")); });
                    return;
                }
                close(k, false);
                return;
            }
            if (isDescription(t))
            {
                k.described.insert(describedName(m));
                if (!admitted) close(k, false);
                return;
            }
            if (!admitted || t == "DotsMsgHello" || t == "DotsMsgConnectResponse") { close(k, false); return; }
            if (t == "DotsMember")
            {
                auto& x = o->_to<DotsMember>();
                if (!has(DotsMember::groupName_p) || !has(DotsMember::event_p)) { close(k, false); return; }
                auto w = worldOf(*x.groupName);
                if (x.event == DotsMemberEvent::join)
                {
                    if (!w)
                    {
                        k.other.insert(*x.groupName);
                        if (auto* d = std::as_const(*host).registry().findStructType(static_cast<std::string>(*x.groupName)); d != nullptr && d->cached())
                            expectSimple(k, "DotsCacheInfo", [&](const dots::type::Struct& s) { c.check(s._to<DotsCacheInfo>().typeName == x.groupName && s._to<DotsCacheInfo>().endTransmission == true, cat(where(k), "the end of a snapshot is not announced")); });
                        return;
                    }
                    k.member.insert(*w);
                    modelSnapshot(k, *w);
                }
                else if (x.event == DotsMemberEvent::leave)
                {
                    if (!w) { k.other.erase(*x.groupName); return; }
                    leaves += k.member.erase(*w);
                    k.left.insert(*w);
                }
                return;
            }
            if (t == "DotsEcho")
            {
                auto& x = o->_to<DotsEcho>();
                if (!(has(DotsEcho::request_p) && *x.request)) return;
                ++echoes;
                expectSimple(k, "DotsEcho", [&](const dots::type::Struct& s)
                {
                    auto& r = s._to<DotsEcho>();
                    c.check(r.request == false, cat(where(k), "an echo reply is marked as a request"));
                    DotsEcho q;
                    q._assign(x, transmitted);
                    q.request = false;
                    c.check(q._equal(r), cat(where(k), "an echo reply has other data than the request"));
                });
                return;
            }
            if (t == "DotsDescriptorRequest") { modelDescribe(k, o->_to<DotsDescriptorRequest>()); return; }
            if (t == "DotsClearCache")
            {
                auto& x = o->_to<DotsClearCache>();
                if (!has(DotsClearCache::typeNames_p)) { close(k, false); return; }
                ++clears;
                for (auto& name : *x.typeNames) if (auto w = worldOf(name); w && cached(*w) && hostType(*w) != nullptr)
                {
                    for (auto& obj : ws[*w]->model)
                    {
                        HostMsg r;
                        r.world = *w;
                        r.value = obj.value;
                        bool dup = false;
                        for (auto& p : removals) dup = dup || (p.m.world == *w && equalValue(ws[*w]->keyOf(p.m.value), ws[*w]->keyOf(obj.value)));
                        if (!dup) { removals.push_back({ std::move(r), {} }); ++cleared; }
                    }
                }
                return;
            }
            auto w = worldOf(t);
            if (!w) { close(k, false); return; }
            HostMsg h;
            h.world = *w;
            h.attributes = transmitted.toValue();
            h.value = restrict(read(*o, type(*w)), h.attributes);
            h.remove = m.header.removeObj.isValid() && *m.header.removeObj;
            h.sender = k.peerId;
            if (m.header.sentTime.isValid()) h.sent = m.header.sentTime->duration().toFractionalSeconds();
            if ((h.value.valid() & type(*w).keys()) != type(*w).keys() || (h.remove && !cached(*w))) { close(k, false); return; }
            modelDispatch(h);
        }

        // application types known to the host that match, and everything they are built from
        void closure(const dots::type::Descriptor<>& d, std::set<std::string>& out) const
        {
            if (auto* v = d.as<dots::type::VectorDescriptor>()) closure(v->valueDescriptor(), out);
            else if (d.as<dots::type::EnumDescriptor>()) out.insert(d.name());
            else if (auto* s = d.as<dots::type::StructDescriptor>())
            {
                if (s->internal()) return;
                out.insert(s->name());
                for (auto& p : s->propertyDescriptors()) closure(p.valueDescriptor(), out);
            }
        }

        void dependencies(const dots::type::Descriptor<>& d, std::set<std::string>& out) const
        {
            auto* s = d.as<dots::type::StructDescriptor>();
            if (s == nullptr) return;
            for (auto& p : s->propertyDescriptors()) closure(p.valueDescriptor(), out);
        }

        void modelDescribe(Conn& k, const DotsDescriptorRequest& r)
        {
            ++describes;
            std::set<std::string> wanted, needed;
            std::as_const(*host).registry().forEach<dots::type::StructDescriptor>([&](const dots::type::StructDescriptor& d)
            {
                if (d.internal()) return;
                auto in = [&](const auto& l) { return std::find(l->begin(), l->end(), d.name()) != l->end(); };
                if (r.whitelist.isValid() && !r.whitelist->empty() && !in(r.whitelist)) return;
                if (r.blacklist.isValid() && !r.blacklist->empty() && in(r.blacklist)) return;
                wanted.insert(d.name());
                closure(d, needed);
            });
            std::set<std::string> before = k.described;
            while (MessageP p = next(k, true))
            {
                if (!isDescription(p->type())) break;
                ++k.cursor;
                std::string name = describedName(*p);
                c.check(needed.count(name) != 0, cat(where(k), "a type nobody asked for is described: ", name));
                c.check(!k.described.count(name), cat(where(k), "a type is described twice: ", name));
                std::set<std::string> deps;
                dependencies(*std::as_const(*host).registry().findType(name), deps);
                for (auto& n : deps) c.check(k.described.count(n) != 0, cat(where(k), name, " is described before ", n, ", which it is built from"));
                k.described.insert(name);
                ++descriptions;
            }
            if (k.failed() && next(k) == nullptr) { close(k, false); return; }
            for (auto& n : wanted) c.check(k.described.count(n) != 0, cat(where(k), "a requested type is not described: ", n));
            expectSimple(k, "DotsCacheInfo", [&](const dots::type::Struct& s)
            {
                auto& i = s._to<DotsCacheInfo>();
                c.check(i.endDescriptorRequest == true && !(i.endTransmission == true) && !i.typeName.isValid(), cat(where(k), "the end of the type descriptions is not announced"));
            });
        }

        // runs an action of the host and checks everything it caused
        void hostStep(const std::function<void()>& action, const std::function<void()>& model)
        {
            stepStart = now();
            hostLog.clear();
            hostLogPos = 0;
            nested.clear();
            reactionBudget = 3;
            action();
            c.throwIfFailed();
            model();
            modelFollowUps();
            c.check(hostLogPos == hostLog.size(), hostLogPos >= hostLog.size() ? "" : cat("the host processed a message nobody sent: ", type(hostLog[hostLogPos].m.world).name, " ", show(hostLog[hostLogPos].m.value)));
            for (auto& k : conns)
            {
                MessageP p = next(*k);
                if (p != nullptr && p->type() == "DotsMsgError" && k->closed() && !k->states.empty()) { ++k->cursor; p = next(*k); }
                if (p != nullptr) c.fail(cat(where(*k), "the host sent a message nobody asked for: ", p->type(), worldOf(p->type()) ? " " + show(read(p->object->get(), type(*worldOf(p->type())))) : ""));
                checkStates(where(*k), k->states, k->expected);
                if (k->closed()) c.check(k->reportedError == !k->expectGraceful, cat(where(*k), k->reportedError ? "a regular end is reported as an error" : "an irregular end is reported as regular"));
            }
            watch();
            compareHost();
        }

        static const char* stateName(State s) { return s == State::closed ? "closed" : s == State::connected ? "connected" : s == State::early_subscribe ? "early_subscribe" : s == State::connecting ? "connecting" : "suspended"; }

        void checkStates(const std::string& who, const std::vector<State>& got, const std::vector<State>& expected)
        {
            if (got == expected) return;
            std::string a, b;
            for (State s : got) a += cat(" ", stateName(s));
            for (State s : expected) b += cat(" ", stateName(s));
            c.fail(cat(who, "went through the states", a, " instead of", b));
        }

        void compareHost()
        {
            for (size_t w = 0; w < ws.size(); ++w)
            {
                const auto* d = hostType(w);
                const dots::Container<>* k = d == nullptr ? nullptr : std::as_const(*host).pool().find(*d);
                if (k == nullptr) { c.check(ws[w]->model.empty(), cat("the host has no cache of ", type(w).name)); continue; }
                compareContainer(*k, w, ws[w]->model, cat("host cache of ", type(w).name, ": "), true, false);
            }
        }

        void compareContainer(const dots::Container<>& k, size_t w, const std::vector<Clone>& model_, const std::string& who, bool full, bool superset)
        {
            std::vector<Clone> model = model_;
            if (!cached(w)) { c.check(k.empty(), cat(who, "an uncached type is cached")); return; }
            size_t n = 0;
            for (const auto& [inst, ci] : k)
            {
                MValue v = read(inst.get(), type(w));
                Clone* m = findClone(type(w), model, v);
                if (m == nullptr && superset) continue;
                c.check(m != nullptr, cat(who, "has an object it must not have: ", show(v)));
                ++n;
                const uint32_t compared = ~type(w).keys() & (superset ? m->value.valid() : ~0u);
                c.check(same(restrict(v, compared), restrict(m->value, compared)), cat(who, "object differs: ", firstDifference(v, m->value)));
                auto u = [](const auto& p) { return p.isValid() ? std::optional<uint32_t>{ *p } : std::nullopt; };
                auto t = [](const auto& p) { return p.isValid() ? std::optional<double>{ p->duration().toFractionalSeconds() } : std::nullopt; };
                c.check(u(ci.lastUpdateFrom) == m->lastFrom, cat(who, "wrong last sender of ", show(v)));
                c.check(t(ci.modified) == m->modified, cat(who, "wrong modification time of ", show(v)));
                if (full)
                {
                    c.check(u(ci.createdFrom) == m->createdFrom, cat(who, "wrong creator of ", show(v)));
                    c.check(t(ci.created) == m->created, cat(who, "wrong creation time of ", show(v)));
                    c.check(ci.lastOperation == m->lastOperation, cat(who, "wrong last operation of ", show(v)));
                }
            }
            c.check(n == model.size(), cat(who, "has ", n, " objects instead of ", model.size()));
        }

        // ---------------------------------------------------------------- host operations

        std::pair<std::optional<HostMsg>, std::optional<uint32_t>> genHostMessage()
        {
            std::vector<size_t> known;
            for (size_t w = 0; w < ws.size(); ++w) if (hostType(w) != nullptr) known.push_back(w);
            if (known.empty()) return {};
            HostMsg m;
            m.world = c.s.pick(known);
            World& w = *ws[m.world];
            m.remove = cached(m.world) && c.s.chance(1, 4);
            m.value = w.genObject(m.remove);
            std::optional<uint32_t> included;
            if (m.remove && c.s.chance(3, 4)) included = type(m.world).keys();
            else if (c.s.boolean()) included = w.genAttributes(m.value);
            m.attributes = included ? (*included | type(m.world).keys()) & type(m.world).all() : m.value.valid();
            m.sender = dots::Connection::HostId;
            return { m, included };
        }

        // removal of an object of a type that is being dealt with
        std::pair<std::optional<HostMsg>, std::optional<uint32_t>> genHostRemoval(size_t world)
        {
            if (ws[world]->model.empty() || hostType(world) == nullptr) return genHostMessage();
            HostMsg m;
            m.world = world;
            m.remove = true;
            m.value = restrict(c.s.pick(ws[world]->model).value, type(world).keys());
            m.attributes = type(world).keys();
            m.sender = dots::Connection::HostId;
            return { m, type(world).keys() };
        }

        void hostPublishNow(const HostMsg& m, std::optional<uint32_t> included)
        {
            c.log << "\n  host " << (m.remove ? "removes " : "publishes ") << type(m.world).name << " " << show(m.value) << " properties " << property_set_t{ m.attributes }.toString();
            Instance inst{ *hostType(m.world) };
            write(*inst, type(m.world), m.value);
            if (m.remove && included == type(m.world).keys() && c.s.boolean()) host->remove(*inst);
            else host->publish(*inst, included ? std::optional<property_set_t>{ property_set_t{ *included } } : std::nullopt, m.remove);
        }

        void hostPublish()
        {
            auto [m, included] = genHostMessage();
            if (!m) return;
            ++hostPublications;
            hostStep([&] { hostPublishNow(*m, included); }, [&] { modelDispatch(*m); });
        }

        // ---------------------------------------------------------------- guests

        Guest& addGuest()
        {
            guests.push_back(std::make_unique<Guest>());
            Guest& g = *guests.back();
            g.id = guests.size() - 1;
            g.name = cat("guest", c.s.chance(1, 4) ? 0 : g.id);
            g.model.resize(ws.size());
            g.staticTypes = !c.s.chance(1, 4);
            g.t = std::make_unique<dots::GuestTransceiver>(g.name, io, g.staticTypes ? dots::type::Registry::StaticTypePolicy::All : dots::type::Registry::StaticTypePolicy::InternalOnly,
                dots::GuestTransceiver::transition_handler_t{ [this, &g](const dots::Connection& k, std::exception_ptr e) { guestTransition(g, k, e); } });
            c.log << "\n  guest " << g.id << " knows";
            for (size_t w = 0; w < ws.size(); ++w)
            {
                g.dynamic.push_back(std::make_shared<Dynamic>());
                if (ws[w]->sub.isDynamic && !c.s.chance(1, 4)) g.t->registry().registerType(g.dynamic.back()->get(type(w)), false);
                if (guestType(g, w)) c.log << " " << type(w).name;
            }
            return g;
        }

        void expectHello(Conn& k)
        {
            expectSimple(k, "DotsMsgHello", [&](const dots::type::Struct& s)
            {
                auto& h = s._to<DotsMsgHello>();
                c.check(h.serverName == std::string{ "host" } && h.authChallenge.isValid(), cat(where(k), "wrong hello"));
                bool required = policy && policy->nonce;
                c.check((h.authenticationRequired == true) == required, cat(where(k), required ? "no proof is asked for" : "a proof is asked for that is not needed"));
                if (required) c.check(h.authChallenge == *policy->nonce, cat(where(k), "wrong challenge"));
            });
        }

        // a peer without a transceiver, driven message by message
        void openRaw()
        {
            auto link = std::make_shared<Link>();
            link->id = nextLink++;
            auto hc = dots::io::make_channel<SimChannel>(link, Host);
            conns.push_back(std::make_unique<Conn>());
            Conn& k = *conns.back();
            k.link = link;
            k.expected = { State::connecting };
            ++raws;
            c.log << "\n  a raw peer connects (" << link->id << ")";
            hostStep([&] { listener->accept(std::move(hc)); }, [&] { expectHello(k); });
        }

        void rawSend(Conn& k)
        {
            ++k.rawSent;
            c.log << "\n    raw peer " << k.link->id << " sends ";
            auto forge = [&](DotsHeader& h)
            {
                if (c.s.boolean()) return;
                if (c.s.boolean()) { h.sender = static_cast<uint32_t>(c.s.chance(1, 3) ? c.s.interestingUint() : c.s.range(0, 6)); c.log << " (as " << *h.sender << ")"; }
                if (c.s.boolean()) h.isFromMyself = c.s.boolean();
                if (c.s.chance(1, 4)) h.serverSentTime = timepoint_t{ dots::type::Duration{ 5 } };
                if (c.s.chance(1, 4)) h.fromCache = static_cast<uint32_t>(c.s.below(3));
                if (c.s.chance(1, 4)) h.sentTime.reset();
                else if (c.s.chance(1, 4)) h.sentTime = timepoint_t{ dots::type::Duration{ 77 } };
            };
            // most peers first do what they have to
            bool early = k.link->end[Host].in.empty() && !k.closed();
            size_t what = early && k.state == State::connecting && c.s.chance(3, 4) ? 0 : early && k.state == State::early_subscribe && c.s.chance(1, 2) ? 1
                : c.s.weighted({ 3, 2, 5, 10, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1 });
            switch (what)
            {
            case 0:
            {
                DotsMsgConnect m;
                if (!c.s.chance(1, 10)) m.clientName = c.s.one<std::string>({ "raw", "guest1", "" });
                if (!c.s.chance(1, 10)) m.preloadCache = c.s.boolean();
                if (c.s.chance(1, 12)) m.preloadClientFinished = c.s.boolean();
                c.log << "a connection request";
                if (m.clientName.isValid()) c.log << " of " << *m.clientName;
                if (m.preloadCache.isValid()) c.log << (*m.preloadCache ? " with" : " without") << " preload";
                if (policy ? !c.s.chance(1, 8) : c.s.chance(1, 4))
                {
                    std::string cn = c.s.one<std::string>({ "0123456789abcdef", "", "x" });
                    std::string secret = policy ? policy->secret : "secret", name = m.clientName.isValid() ? static_cast<std::string>(*m.clientName) : std::string{};
                    uint64_t nonce = policy && policy->nonce ? *policy->nonce : 0;
                    std::string hex = toHex(proof(nonce, cn, name, secret));
                    const unsigned odd = policy && policy->nonce ? 1 : 0;   // a proof nobody asked for is well-formed
                    switch (c.s.weighted({ 8, 1, 1, 1, 1, 1, 1, odd, odd, odd, odd }))
                    {
                    case 0: c.log << " with the proof"; break;
                    case 1: c.log << " with the proof in capitals"; for (char& ch : hex) ch = static_cast<char>(toupper(ch)); break;
                    case 2: c.log << " with the proof of another secret"; hex = toHex(proof(nonce, cn, name, secret + "x")); break;
                    case 3: c.log << " with the proof of another name"; hex = toHex(proof(nonce, cn, name + "x", secret)); break;
                    case 4: c.log << " with the proof of another challenge"; hex = toHex(proof(nonce + 1, cn, name, secret)); break;
                    case 5: c.log << " with the proof of another client nonce"; hex = toHex(proof(nonce, cn + "0", name, secret)); break;
                    case 6: c.log << " with a damaged proof"; hex[c.s.below(64)] ^= 1; break;
                    case 7: c.log << " with a shortened proof"; hex.resize(c.s.below(60)); break;
                    case 8: c.log << " with a lengthened proof"; for (size_t i = 0, n = 1 + c.s.below(400); i < n; ++i) hex += "0f"[c.s.below(2)]; break;
                    case 9: c.log << " with the proof without its end"; hex.resize(hex.substr(60) == "0000" ? 58 : 60); break;
                    default: c.log << " with an improper proof"; hex[c.s.below(64)] = c.s.one<char>({ 'g', ' ', '\0', '\xff' }); break;
                    }
                    if (!c.s.chance(1, 12)) m.cnonce = cn;
                    if (!c.s.chance(1, 12)) m.authChallengeResponse = hex;
                }
                inject(k, m);
                return;
            }
            case 1:
            {
                DotsMsgConnect m;
                m.preloadClientFinished = !c.s.chance(1, 10);
                c.log << "the end of its preload phase" << (*m.preloadClientFinished ? "" : " (not)");
                inject(k, m);
                return;
            }
            case 2:
            {
                DotsMember m;
                if (!c.s.chance(1, 12)) m.groupName = c.s.chance(1, 8) ? c.s.one<std::string>({ "DotsClient", "NoSuchType", "" }) : type(c.s.below(ws.size())).name;
                if (!c.s.chance(1, 12)) m.event = c.s.weighted({ 6, 2, 1 }) == 0 ? DotsMemberEvent::join : c.s.boolean() ? DotsMemberEvent::leave : DotsMemberEvent::kill;
                c.log << "a membership";
                if (m.groupName.isValid()) c.log << " of " << *m.groupName;
                if (m.event.isValid()) c.log << (m.event == DotsMemberEvent::join ? " (join)" : m.event == DotsMemberEvent::leave ? " (leave)" : " (kill)");
                if (c.s.chance(1, 4)) m.client = static_cast<uint32_t>(c.s.below(6));
                inject(k, m, forge);
                return;
            }
            case 3:
            {
                std::vector<size_t> known;
                for (size_t w = 0; w < ws.size(); ++w) if (hostType(w) != nullptr) known.push_back(w);
                if (known.empty()) { c.log << "nothing"; return; }
                size_t w = c.s.pick(known);
                bool remove = cached(w) && c.s.chance(1, 5);
                MValue v = ws[w]->genObject(remove);
                if (c.s.chance(1, 8)) v = restrict(v, ~(c.s.boolean() ? type(w).keys() : genSubset(c.s, type(w).keys())));
                uint32_t attributes = v.valid();
                if (c.s.chance(1, 3)) attributes |= genSubset(c.s, type(w).all());
                c.log << (remove ? "the removal of " : "") << type(w).name << " " << show(v) << " properties " << property_set_t{ attributes }.toString();
                Instance i{ *hostType(w) };
                write(*i, type(w), v);
                inject(k, *i, [&](DotsHeader& h)
                {
                    h.attributes = property_set_t{ attributes };
                    if (remove) h.removeObj = true;
                    forge(h);
                });
                return;
            }
            case 4: c.log << "a hello"; inject(k, DotsMsgHello{ .serverName = "x", .authChallenge = 0u }); return;
            case 5: c.log << "a response"; inject(k, DotsMsgConnectResponse{ .clientId = 5u, .accepted = true, .preload = c.s.boolean() }); return;
            case 6: c.log << "the end of the host's preload phase"; inject(k, DotsMsgConnectResponse{ .preloadFinished = true }); return;
            case 7:
            {
                DotsMsgError e;
                if (!c.s.chance(1, 4)) e.errorCode = c.s.one<int>({ 0, 1, -1 });
                c.log << "an error";
                if (e.errorCode.isValid()) c.log << " " << *e.errorCode;
                inject(k, e);
                return;
            }
            case 8: c.log << "an unknown type"; inject(k, DotsMsgError{ .errorCode = 7 }, [](DotsHeader& h) { h.typeName = "NoSuchType"; }); k.link->end[Host].in.back()->object.reset(); return;
            case 9:
            {
                c.log << "an echo request";
                inject(k, DotsEcho{ .request = true, .identifier = 5u, .data = "abc" }, forge);
                return;
            }
            case 10: c.log << "a request for descriptions"; inject(k, DotsDescriptorRequest{}, forge); return;
            case 11:
            {
                DotsClearCache m;
                m.typeNames.emplace();
                m.typeNames->push_back(type(c.s.below(ws.size())).name);
                c.log << "a request to clear " << m.typeNames->back();
                inject(k, m, forge);
                return;
            }
            case 12:
                c.log << "a connection request with the end of the preload phase";
                inject(k, DotsMsgConnect{ .clientName = "raw", .preloadCache = c.s.boolean(), .preloadClientFinished = true });
                return;
            default: c.log << "damaged bytes"; inject(k, DotsMsgError{ .errorCode = 7 }); k.link->end[Host].in.back()->object.reset(); k.link->end[Host].in.back()->data = { 0xA1, 0x01 }; return;
            }
        }

        void open(Guest& g)
        {
            auto link = std::make_shared<Link>();
            link->id = nextLink++;
            g.link = link;
            g.joined.clear();
            g.stale.clear();
            for (auto& m : g.model) m.clear();
            g.selfId.reset();
            g.states.clear();
            g.expected = { State::connecting };
            g.closes = 0;
            ++g.connections;
            auto gc = dots::io::make_channel<SimChannel>(link, Guest_);
            auto hc = dots::io::make_channel<SimChannel>(link, Host);
            conns.push_back(std::make_unique<Conn>());
            Conn& k = *conns.back();
            k.link = link;
            k.guest = &g;
            k.expected = { State::connecting };
            dots::type::DescriptorMap pub, sub;
            g.preloadPub.clear();
            g.preloadSub.clear();
            c.log << "\n  guest " << g.id << " connects (" << link->id << ")";
            for (size_t w = 0; w < ws.size(); ++w)
            {
                auto* d = g.t->registry().findStructType(type(w).name);
                if (d == nullptr) continue;
                if (c.s.chance(1, 4)) { sub.emplace(*d); g.preloadSub.insert(w); c.log << " preload-subscribe " << type(w).name; }
                else if (c.s.chance(1, 6)) { pub.emplace(*d); g.preloadPub.insert(w); c.log << " preload-publish " << type(w).name; }
            }
            bool guestFirst = c.s.boolean();
            g.secret.reset();
            if (opt.auth && !c.s.chance(1, 4))
            {
                g.secret = policy && c.s.chance(3, 4) ? policy->secret : "wrong";
                c.log << " with the secret " << *g.secret;
            }
            auto a = [&] { g.t->open(std::move(pub), std::move(sub), g.secret, gc); gc.reset(); };
            if (guestFirst) a();
            hostStep([&] { listener->accept(std::move(hc)); }, [&]
            {
                expectHello(k);
            });
            if (!guestFirst) a();
            c.throwIfFailed();
            checkStates(cat("guest ", g.id, " "), g.states, g.expected);
        }

        static constexpr Side Guest_ = sim::Guest;

        bool usable(const Guest& g) const { return g.t != nullptr && !g.states.empty() && (g.states.back() == State::early_subscribe || g.states.back() == State::connected); }

        // index of the first message sent by the guest in an operation that is no type description
        std::vector<MessageP> sentBy(Guest& g, size_t from)
        {
            std::vector<MessageP> r;
            auto& s = g.link->end[Guest_].sent;
            for (size_t i = from; i < s.size(); ++i)
            {
                if (!isDescription(s[i]->type())) r.push_back(s[i]);
            }
            return r;
        }

        void guestTransition(Guest& g, const dots::Connection& k, std::exception_ptr e)
        {
            g.states.push_back(k.state());
            if (destroying) return;
            try
            {
                if (k.state() == State::early_subscribe)
                {
                    g.selfId = k.selfId();
                    size_t n = c.s.chance(1, 2) ? c.s.below(ws.size() + 1) : 0;
                    for (size_t i = 0; i < n; ++i) subscribe(g, c.s.below(ws.size()));
                    if (c.s.chance(1, 6)) publish(g, false);
                }
                else if (k.state() == State::connected)
                {
                    Conn& conn = *connOf(g);
                    if (!conn.atFinish.empty()) ++preloadsChecked;
                    for (auto& [w, model] : conn.atFinish)
                    {
                        auto* d = guestType(g, w);
                        if (d == nullptr || !cached(w)) continue;
                        const dots::Container<>* box = std::as_const(*g.t).pool().find(*d);
                        if (box == nullptr) { c.check(model.empty(), cat("guest ", g.id, " reports an established connection before it has the preloaded objects")); continue; }
                        compareContainer(*box, w, model, cat("guest ", g.id, " at the end of preload, ", type(w).name, ": "), false, g.stale.count(w) != 0);
                    }
                }
                else if (k.state() == State::closed)
                {
                    ++g.closes;
                    g.graceful = e == nullptr;
                }
            }
            catch (const pbt::Failure&) { c.failed = true; }
        }

        void subscribe(Guest& g, size_t w)
        {
            if (guestType(g, w) == nullptr) return;
            bool event = c.s.chance(2, 3);
            c.log << "\n    guest " << g.id << " subscribes to " << type(w).name << (event ? " (events)" : " (messages)");
            size_t before = g.link->end[Guest_].sent.size();
            auto h = std::make_unique<Guest::Handler>();
            auto* p = h.get();
            p->world = w;
            p->event = event;
            p->replay = g.model[w];
            p->replaying = true;
            if (event) p->sub.emplace(g.t->subscribe(type(w).name, dots::Transceiver::event_handler_t<>{ [this, &g, p](const dots::Event<>& e)
            {
                if (p->replaying) { if (Clone* m = findClone(type(p->world), p->replay, read(e.updated(), type(p->world)))) p->replay.erase(p->replay.begin() + (m - p->replay.data())); else c.failLater("a new handler was called for an object that is not cached"); return; }
                called(g, *p, e.header(), e.transmitted(), &e);
            } }));
            else p->sub.emplace(g.t->subscribe(type(w).name, dots::Transceiver::transmission_handler_t{ [this, &g, p](const dots::io::Transmission& t) { called(g, *p, t.header(), t.instance().get(), nullptr); } }));
            p->replaying = false;
            c.check(!event || p->replay.empty(), "a new handler was not called for all cached objects");
            g.handlers.push_back(std::move(h));
            auto sent = sentBy(g, before);
            bool first = g.joined.insert(w).second;
            if (first && !alreadyPreloaded(g, w))
            {
                c.check(sent.size() == 1 && sent[0]->type() == "DotsMember", cat("guest ", g.id, " subscribes without telling the host"));
                auto& m = sent[0]->object->to<DotsMember>();
                c.check(m.groupName == type(w).name && m.event == DotsMemberEvent::join, cat("guest ", g.id, " asks for another type than it subscribes to"));
            }
            else c.check(sent.empty(), cat("guest ", g.id, " asks twice for the same type"));
        }

        bool alreadyPreloaded(const Guest& g, size_t w) const
        {
            // preload subscriptions are sent after the handler for the early_subscribe transition has returned
            if (!g.preloadSub.count(w)) return false;
            for (auto& m : g.link->end[Guest_].sent) if (m->type() == "DotsMsgConnect" && m->object->to<DotsMsgConnect>().preloadClientFinished.isValid()) return true;
            return false;
        }

        struct Delivery { Guest* g = nullptr; const Message* m = nullptr; std::optional<size_t> world; bool hasEvent = false; std::optional<Clone> result; DotsMt mt = DotsMt::create; } delivery;

        void called(Guest& g, Guest::Handler& h, const DotsHeader& header, const dots::type::Struct& object, const dots::Event<>* e)
        {
            if (destroying) return;
            try
            {
                ++h.calls;
                ++h.total;
                c.check(delivery.g == &g && delivery.world == h.world, cat("a handler of guest ", g.id, " was called for something that was not delivered"));
                const Message& m = *delivery.m;
                const StructT& t = type(h.world);
                MValue v = read(object, t);
                c.check(same(v, restrict(read(m.object->get(), t), m.header.attributes->toValue())), cat("guest ", g.id, " got another object than the host sent: ", show(v)));
                c.check(header.attributes.isValid() && header.attributes->toValue() == m.header.attributes->toValue(), cat("guest ", g.id, " got other properties than the host sent"));
                c.check(header.sender.isValid() && *header.sender == *m.header.sender, cat("guest ", g.id, " got the wrong sender"));
                c.check(header.isFromMyself.isValid() && *header.isFromMyself == (*m.header.sender == *g.selfId), cat("guest ", g.id, *header.isFromMyself ? " takes a message of another participant for its own" : " takes its own message for one of another participant"));
                c.check((header.removeObj.isValid() && *header.removeObj) == (m.header.removeObj.isValid() && *m.header.removeObj), cat("guest ", g.id, " got the wrong remove marker"));
                if (e != nullptr)
                {
                    c.check(delivery.hasEvent, cat("guest ", g.id, " got an event for an object that did not exist"));
                    c.check(e->mt() == delivery.mt, cat("guest ", g.id, " got the wrong operation"));
                    if (cached(h.world)) c.check(same(restrict(read(e->updated(), t), ~t.keys()), restrict(delivery.result->value, ~t.keys())), cat("guest ", g.id, " got the wrong updated object"));
                    c.check(e->isFromMyself() == (*m.header.sender == *g.selfId), cat("guest ", g.id, " has an event with the wrong origin"));
                }
                if (opt.reactions && reactionBudget > 0 && reactionTotal > 0 && c.s.chance(1, 6) && *m.header.sender != *g.selfId)
                {
                    --reactionBudget;
                    --reactionTotal;
                    c.log << "\n    (guest handler)";
                    publish(g, c.s.chance(1, 4));
                }
            }
            catch (const pbt::Failure&) { c.failed = true; }
        }

        void publish(Guest& g, bool remove)
        {
            std::vector<size_t> known;
            for (size_t w = 0; w < ws.size(); ++w) if (guestType(g, w) != nullptr) known.push_back(w);
            if (known.empty()) return;
            size_t w = c.s.pick(known);
            remove = remove && cached(w);
            MValue v = ws[w]->genObject(remove);
            if (remove && !ws[w]->model.empty() && c.s.chance(3, 4)) v = c.s.pick(ws[w]->model).value;
            std::optional<uint32_t> included;
            if (remove ? c.s.chance(1, 4) : c.s.boolean()) included = ws[w]->genAttributes(v);
            publishObject(g, w, v, included, remove);
        }

        void publishObject(Guest& g, size_t w, const MValue& v, std::optional<uint32_t> included, bool remove)
        {
            const StructT& t = type(w);
            bool ok = (v.valid() & t.keys()) == t.keys();
            bool plainRemove = remove && !included && c.s.boolean();
            uint32_t attributes = plainRemove ? t.keys() : included ? (*included | t.keys()) & t.all() : v.valid();
            c.log << "\n    guest " << g.id << (remove ? " removes " : " publishes ") << t.name << " " << show(v) << " properties " << property_set_t{ attributes }.toString();
            Instance inst{ *guestType(g, w) };
            write(*inst, t, v);
            size_t before = g.link->end[Guest_].sent.size();
            double t0 = now();
            bool threw = false;
            try
            {
                if (plainRemove) g.t->remove(*inst);
                else g.t->publish(*inst, included ? std::optional<property_set_t>{ property_set_t{ *included } } : std::nullopt, remove);
            }
            catch (const std::exception&) { threw = true; }
            auto sent = sentBy(g, before);
            if (!ok)
            {
                ++refused;
                c.check(threw, cat("guest ", g.id, " may publish an object without its key"));
                c.check(g.link->end[Guest_].sent.size() == before, cat("guest ", g.id, " sends an object without its key"));
                return;
            }
            c.check(!threw, cat("guest ", g.id, " cannot publish"));
            c.check(sent.size() == 1, cat("guest ", g.id, " sends ", sent.size(), " messages for one publication"));
            const Message& m = *sent[0];
            c.check(g.link->end[Guest_].sent.back() == sent[0], cat("guest ", g.id, " describes types after the object"));
            c.check(m.type() == t.name, cat("guest ", g.id, " sends a message of type ", m.type()));
            c.check(m.header.attributes.isValid() && m.header.attributes->toValue() == attributes, cat("guest ", g.id, " publishes the properties ", m.header.attributes->toString(), " instead of ", property_set_t{ attributes }.toString()));
            c.check((m.header.removeObj.isValid() && *m.header.removeObj) == remove, cat("guest ", g.id, " sends the wrong remove marker"));
            c.check(m.header.sentTime.isValid() && m.header.sentTime->duration().toFractionalSeconds() >= t0 - 0.1 && m.header.sentTime->duration().toFractionalSeconds() <= now() + 0.1, cat("guest ", g.id, " sends the wrong time"));
            // what is on the wire: nothing but the announced properties
            Instance got{ *guestType(g, w) };
            dots::from_cbor(m.data, *got);
            MValue wire = read(*got, t);
            c.check(same(wire, restrict(v, attributes)), cat("guest ", g.id, " sends another object: ", firstDifference(wire, restrict(v, attributes))));
            ++g.publications;
        }

        template <typename T>
        void publishInternal(Guest& g, const T& instance)
        {
            g.t->publish(instance);
        }

        void joinByName(Guest& g, size_t w, bool join)
        {
            c.log << "\n    guest " << g.id << (join ? " joins " : " leaves ") << type(w).name;
            publishInternal(g, DotsMember{ .groupName = type(w).name, .event = join ? DotsMemberEvent::join : DotsMemberEvent::leave });
            if (!join) g.stale.insert(w);
        }

        void deliverToGuest(Guest& g)
        {
            Link::End& in = g.link->end[Guest_];
            ++deliveries;
            reactionBudget = 2;
            Conn& conn = *connOf(g);
            if (in.in.empty())
            {
                c.log << "\n  end of connection " << g.link->id << " at guest " << g.id;
                g.expected.push_back(State::closed);
                g.expectGraceful = false;
                in.channel->feed();
                c.throwIfFailed();
                checkGuest(g);
                return;
            }
            MessageP m = in.in.front();
            std::string t = m->type();
            c.log << "\n  deliver " << t << " to guest " << g.id;
            auto w = worldOf(t);
            delivery = Delivery{};
            delivery.g = &g;
            delivery.m = m.get();
            delivery.world = w;
            bool fail = in.fail;
            if (w)
            {
                const DotsHeader& h = m->header;
                bool remove = h.removeObj.isValid() && *h.removeObj;
                MValue v = restrict(read(m->object->get(), type(*w)), h.attributes->toValue());
                if (cached(*w))
                {
                    bool known = findClone(type(*w), g.model[*w], v) != nullptr;
                    delivery.result = fold(type(*w), g.model[*w], *h.sender, h.sentTime->duration().toFractionalSeconds(), v, h.attributes->toValue(), remove);
                    delivery.hasEvent = delivery.result.has_value();
                    delivery.mt = remove ? DotsMt::remove : known ? DotsMt::update : DotsMt::create;
                }
                else { delivery.hasEvent = true; delivery.mt = DotsMt::create; }
            }
            for (auto& h : g.handlers) h->calls = 0;
            std::vector<Guest::Handler*> due;
            for (auto& h : g.handlers) if (h->sub) due.push_back(h.get());
            size_t before = in.sent.size();
            if (t == "DotsMsgConnectResponse")
            {
                auto& r = m->object->to<DotsMsgConnectResponse>();
                if (r.accepted == false) { g.expected.push_back(State::closed); g.expectGraceful = false; }
                else if (r.accepted.isValid()) g.expected.push_back(r.preload == true ? State::early_subscribe : State::connected);
                else g.expected.push_back(State::connected);
            }
            if (t == "DotsMsgError")
            {
                g.expected.push_back(State::closed);
                g.expectGraceful = m->object->to<DotsMsgError>().errorCode == 0;
            }
            in.channel->feed();
            delivery.g = nullptr;
            c.throwIfFailed();
            for (auto* h : due)
            {
                size_t expected = w && h->world == *w && (!h->event || delivery.hasEvent) ? 1 : 0;
                c.check(h->calls == expected, cat("a handler of guest ", g.id, " for ", type(h->world).name, " was called ", h->calls, " times instead of ", expected));
            }
            (void)fail;
            auto sent = sentBy(g, before);
            if (t == "DotsMsgHello" && m->object->to<DotsMsgHello>().authenticationRequired == true && !g.secret)
            {
                // it has nothing to prove with
                c.check(sent.empty(), cat("guest ", g.id, " asks for a connection without the required proof"));
                g.expected.push_back(State::closed);
                g.expectGraceful = false;
            }
            else if (t == "DotsMsgHello")
            {
                c.check(sent.size() == 1 && sent[0]->type() == "DotsMsgConnect", cat("guest ", g.id, " does not answer the hello of the host"));
                auto& x = sent[0]->object->to<DotsMsgConnect>();
                c.check(x.clientName == g.name && x.preloadCache.isValid(), cat("guest ", g.id, " sends an incomplete connection request"));
                if (m->object->to<DotsMsgHello>().authenticationRequired == true)
                {
                    c.check(x.cnonce.isValid() && x.authChallengeResponse.isValid(), cat("guest ", g.id, " sends no proof"));
                    c.check(*x.authChallengeResponse == toHex(proof(*m->object->to<DotsMsgHello>().authChallenge, *x.cnonce, g.name, *g.secret)), cat("guest ", g.id, " sends a wrong proof"));
                }
            }
            if (t == "DotsMsgConnectResponse" && g.states.back() == State::early_subscribe)
            {
                c.check(!sent.empty() && sent.back()->type() == "DotsMsgConnect" && sent.back()->object->to<DotsMsgConnect>().preloadClientFinished == true, cat("guest ", g.id, " does not finish the preload phase"));
                for (size_t p : g.preloadSub)
                {
                    size_t n = 0;
                    for (auto& s : sent) if (s->type() == "DotsMember" && s->object->to<DotsMember>().groupName == type(p).name) ++n;
                    c.check(n == 1, cat("guest ", g.id, " does not ask exactly once for the preloaded type ", type(p).name));
                }
            }
            checkGuest(g);
            (void)conn;
        }

        void checkGuest(Guest& g)
        {
            checkStates(cat("guest ", g.id, " "), g.states, g.expected);
            if (!g.states.empty() && g.states.back() == State::closed)
            {
                c.check(g.closes == 1, cat("guest ", g.id, ": the end is reported ", g.closes, " times"));
                c.check(g.graceful == g.expectGraceful, cat("guest ", g.id, g.graceful ? ": an irregular end is reported as regular" : ": a regular end is reported as an error"));
                c.check(!g.t->connected(), cat("guest ", g.id, " is connected after the end of the connection"));
            }
            else if (!g.states.empty()) c.check(g.t->connected() == (g.states.back() == State::connected), cat("guest ", g.id, " reports the wrong connection state"));
        }

        void deliverToHost(Conn& k)
        {
            Link::End& in = k.link->end[Host];
            ++deliveries;
            if (in.in.empty())
            {
                c.log << "\n  end of connection " << k.link->id << " at the host";
                hostStep([&] { in.channel->feed(); }, [&] { close(k, false); });
                return;
            }
            MessageP m = in.in.front();
            c.log << "\n  deliver " << m->type() << " of connection " << k.link->id << " to the host";
            hostStep([&] { in.channel->feed(); }, [&] { modelReceive(k, *m); });
        }

        // delivers one message somewhere; false if nothing is in flight
        bool deliver()
        {
            std::vector<std::pair<Conn*, Side>> can;
            for (auto& k : conns)
            {
                if (k->link->deliverable(Host)) can.emplace_back(k.get(), Host);
                if (k->guest != nullptr && k->guest->t != nullptr && k->guest->link == k->link && k->link->deliverable(Guest_)) can.emplace_back(k.get(), Guest_);
            }
            if (can.empty()) return false;
            auto [k, side] = c.s.pick(can);
            if (side == Host) deliverToHost(*k);
            else deliverToGuest(*k->guest);
            return true;
        }

        void settle()
        {
            size_t n = 0;
            while (deliver()) c.check(++n < 20000, "the participants never come to rest");
            for (auto& k : conns)
            {
                Guest* g = k->guest;
                if (g == nullptr || g->t == nullptr || g->link != k->link || k->closed()) continue;
                c.check(k->state == State::connected && g->states.back() == State::connected, cat("guest ", g->id, " and the host do not get connected"));
                c.check(g->selfId == k->peerId, cat("guest ", g->id, " has another identity than the host gave it"));
                for (size_t w = 0; w < ws.size(); ++w)
                {
                    auto* d = guestType(*g, w);
                    const dots::Container<>* box = d == nullptr ? nullptr : std::as_const(*g->t).pool().find(*d);
                    bool empty = box == nullptr || box->empty();
                    if (!k->member.count(w))
                    {
                        if (!k->left.count(w) && !g->stale.count(w)) c.check(empty, cat("guest ", g->id, " has objects of a type it did not ask for"));
                        continue;
                    }
                    if (!cached(w)) continue;
                    if (box == nullptr) { c.check(ws[w]->model.empty(), cat("guest ", g->id, " lacks all objects of ", type(w).name)); continue; }
                    compareContainer(*box, w, ws[w]->model, cat("at rest, guest ", g->id, ", ", type(w).name, ": "), false, g->stale.count(w) != 0);
                }
            }
        }

        // ---------------------------------------------------------------- ends of connections

        void inject(Conn& k, const dots::type::Struct& instance, std::function<void(DotsHeader&)> edit = {})
        {
            auto m = std::make_shared<Message>();
            m->header.typeName = instance._descriptor().name();
            m->header.sentTime = timepoint_t::Now();
            m->header.attributes = instance._validProperties();
            m->keep = instance._descriptor().shared_from_this();
            m->object.emplace(instance);
            m->data = dots::to_cbor(instance, instance._validProperties());
            if (edit) edit(m->header);
            k.link->end[Host].in.push_back(m);
        }

        void endConnection(Conn& k)
        {
            Guest* g = k.guest;
            bool guestThere = g != nullptr && g->t != nullptr && g->link == k.link && !g->states.empty() && g->states.back() != State::closed;
            switch (c.s.weighted({ 4, 4, static_cast<unsigned>(opt.faults ? 5 : 0), 2, 2, 2, 2 }))
            {
            case 0:
                if (!guestThere) return;
                c.log << "\n  guest " << g->id << " goes away";
                {
                    bool connected = g->states.back() == State::connected;
                    g->handlers.clear();
                    size_t before = g->link->end[Guest_].sent.size();
                    g->expected.push_back(State::closed);
                    g->t.reset();
                    auto sent = sentBy(*g, before);
                    c.check(sent.size() == (connected ? 1 : 0), cat("guest ", g->id, connected ? " does not say goodbye once" : " sends something at its end"));
                    if (connected) c.check(sent[0]->type() == "DotsMsgError" && sent[0]->object->to<DotsMsgError>().errorCode == 0, cat("guest ", g->id, " ends with an error"));
                    checkStates(cat("guest ", g->id, " "), g->states, g->expected);
                }
                return;
            case 1:
            {
                c.log << "\n  connection " << k.link->id << " is cut";
                k.link->cut = true;
                for (Side s : { Guest_, Host })
                {
                    auto& q = k.link->end[s].in;
                    size_t keep = c.s.below(q.size() + 1);
                    c.log << (s == Host ? ", host keeps " : ", guest keeps ") << keep << " of " << q.size();
                    q.resize(keep);
                }
                return;
            }
            case 2:
                c.log << "\n  transmissions of the host on connection " << k.link->id << " fail from now on";
                k.link->end[Host].fail = true;
                return;
            case 3:
            {
                int code = c.s.one<int>({ 0, 1, 2, -1 });
                c.log << "\n  connection " << k.link->id << " sends an error " << code;
                DotsMsgError e;
                e.errorCode = code;
                if (c.s.boolean()) e.errorText = "text";
                inject(k, e);
                return;
            }
            case 4:
            {
                c.log << "\n  connection " << k.link->id << " sends an offending message";
                switch (c.s.below(5))
                {
                case 0: c.log << " (unknown type)"; inject(k, DotsMsgError{ .errorCode = 7 }, [](DotsHeader& h) { h.typeName = "NoSuchType"; }); k.link->end[Host].in.back()->object.reset(); break;
                case 1: c.log << " (hello)"; inject(k, DotsMsgHello{ .serverName = "x", .authChallenge = 0u }); break;
                case 2: c.log << " (response)"; inject(k, DotsMsgConnectResponse{ .clientId = 5u, .accepted = true, .preload = true }); break;
                case 3: c.log << " (second connection request)"; inject(k, DotsMsgConnect{ .clientName = "again", .preloadCache = c.s.boolean() }); break;
                case 4: c.log << " (incomplete membership)"; inject(k, DotsMember{ .event = DotsMemberEvent::join }); break;
                }
                return;
            }
            case 5:
            {
                // undecodable bytes
                c.log << "\n  connection " << k.link->id << " sends damaged bytes";
                inject(k, DotsMsgError{ .errorCode = 7 });
                k.link->end[Host].in.back()->object.reset();
                k.link->end[Host].in.back()->data = { 0xA1, 0x01 };
                return;
            }
            default:
            {
                size_t w = c.s.below(ws.size());
                if (hostType(w) == nullptr || type(w).keys() == 0) return;
                MValue v = restrict(ws[w]->genObject(false), ~type(w).keys());
                c.log << "\n  connection " << k.link->id << " sends an object without its key: " << type(w).name;
                Instance i{ *hostType(w) };
                write(*i, type(w), v);
                inject(k, *i);
                return;
            }
            }
        }

        // ---------------------------------------------------------------- services

        void service(Guest& g)
        {
            unsigned total = opt.echo + opt.describe + opt.clear;
            if (total == 0) return;
            switch (c.s.weighted({ opt.echo, opt.describe, opt.clear }))
            {
            case 0:
            {
                DotsEcho e;
                if (!c.s.chance(1, 6)) e.request = !c.s.chance(1, 4);
                if (c.s.boolean()) e.identifier = static_cast<uint32_t>(c.s.interestingUint());
                if (c.s.boolean()) e.sequenceNumber = static_cast<uint32_t>(c.s.interestingUint());
                if (c.s.boolean()) e.data = genUtf8(c.s, 40);
                c.log << "\n    guest " << g.id << " sends an echo " << (e.request == true ? "request" : "that is no request");
                publishInternal(g, e);
                break;
            }
            case 1:
            {
                DotsDescriptorRequest r;
                auto names = [&](auto& l)
                {
                    l.emplace();
                    size_t n = c.s.below(4);
                    for (size_t i = 0; i < n; ++i) { l->push_back(c.s.chance(3, 5) ? type(c.s.below(ws.size())).name : c.s.one<std::string>({ "VfLeaf", "VfInner", "VfAll", "VfInternal", "DotsClient", "NoSuchType", "", "VfKey", "VfKeysX" })); c.log << " " << l->back(); }
                };
                c.log << "\n    guest " << g.id << " asks for type descriptions";
                if (c.s.chance(2, 3)) { c.log << " of"; names(r.whitelist); }
                if (c.s.chance(1, 2)) { c.log << " but not of"; names(r.blacklist); }
                publishInternal(g, r);
                break;
            }
            default:
            {
                DotsClearCache r;
                r.typeNames.emplace();
                c.log << "\n    guest " << g.id << " clears";
                size_t n = c.s.below(4);
                for (size_t i = 0; i < n; ++i) { r.typeNames->push_back(c.s.chance(4, 5) ? type(c.s.below(ws.size())).name : c.s.one<std::string>({ "NoSuchType", "", "DotsClient" })); c.log << " " << r.typeNames->back(); }
                publishInternal(g, r);
                break;
            }
            }
        }

        // ---------------------------------------------------------------- histories

        Guest* pickUsable()
        {
            std::vector<Guest*> r;
            for (auto& g : guests) if (usable(*g)) r.push_back(g.get());
            return r.empty() ? nullptr : c.s.pick(r);
        }

        void step()
        {
            switch (c.s.weighted({ opt.deliver, opt.publish, opt.remove, opt.hostPublish, opt.subscribe, opt.unsubscribe, opt.joinByName, opt.open, opt.settle, opt.leave, opt.reject, opt.end, opt.raw, opt.echo + opt.describe + opt.clear }))
            {
            case 0: { size_t n = 1 + c.s.below(6); for (size_t i = 0; i < n && deliver(); ++i) {} break; }
            case 1: if (Guest* g = pickUsable()) { size_t n = 1 + c.s.below(3); for (size_t i = 0; i < n; ++i) publish(*g, false); } break;
            case 2: if (Guest* g = pickUsable()) publish(*g, true); break;
            case 3: hostPublish(); break;
            case 4: if (Guest* g = pickUsable()) subscribe(*g, c.s.below(ws.size())); break;
            case 5: if (Guest* g = pickUsable()) { std::vector<Guest::Handler*> h; for (auto& x : g->handlers) if (x->sub) h.push_back(x.get()); if (!h.empty()) { c.log << "\n    guest " << g->id << " drops a handler"; c.s.pick(h)->sub.reset(); } } break;
            case 6: if (Guest* g = pickUsable()) { size_t w = c.s.below(ws.size()); if (!g->joined.count(w) && !alreadyPreloaded(*g, w)) { joinByName(*g, w, true); } } break;
            case 7:
                if (guests.size() < opt.maxGuests) open(addGuest());
                else if (opt.reconnect) for (auto& g : guests) if (g->t != nullptr && g->states.back() == State::closed && c.s.boolean()) { open(*g); break; }
                break;
            case 8: c.log << "\n  settle"; settle(); break;
            case 9: if (Guest* g = pickUsable()) joinByName(*g, c.s.below(ws.size()), c.s.chance(1, 3)); break;
            case 10: if (Guest* g = pickUsable()) reject(*g); break;
            case 11:
            {
                std::vector<Conn*> open_;
                for (auto& k : conns) if (!k->closed()) open_.push_back(k.get());
                if (!open_.empty()) endConnection(*c.s.pick(open_));
                break;
            }
            case 12:
            {
                std::vector<Conn*> open_;
                for (auto& k : conns) if (k->guest == nullptr && !k->closed()) open_.push_back(k.get());
                if (open_.size() < opt.maxRaw && (open_.empty() || c.s.chance(1, 6))) openRaw();
                else if (!open_.empty()) rawSend(*c.s.pick(open_));
                break;
            }
            default: if (Guest* g = pickUsable()) service(*g); break;
            }
        }

        void reject(Guest& g)
        {
            if (c.s.boolean())
            {
                // an object without one or all of its keys
                size_t w = c.s.below(ws.size());
                if (guestType(g, w) == nullptr || type(w).keys() == 0) return;
                MValue v = ws[w]->genObject(false);
                uint32_t drop = 0;
                while (drop == 0) drop = genSubset(c.s, type(w).keys()) | (c.s.boolean() ? type(w).keys() : 0);
                publishObject(g, w, restrict(v, ~drop), c.s.boolean() ? std::optional<uint32_t>{ ws[w]->genAttributes(v) } : std::nullopt, c.s.chance(1, 3));
            }
            else
            {
                c.log << "\n    guest " << g.id << " publishes a type that occurs only inside others";
                ++refused;
                VfInner i;
                if (c.s.boolean()) i.text = "x";
                size_t before = g.link->end[Guest_].sent.size();
                bool threw = false;
                try { g.t->publish(i, c.s.boolean() ? std::optional<property_set_t>{ i._properties() } : std::nullopt, c.s.boolean()); } catch (const std::exception&) { threw = true; }
                c.check(threw && g.link->end[Guest_].sent.size() == before, "a type that occurs only inside others may be published");
                threw = false;
                try { host->publish(i); } catch (const std::exception&) { threw = true; }
                c.check(threw, "the host may publish a type that occurs only inside others");
                threw = false;
                try { auto s = g.t->subscribe(VfInner::_Descriptor(), dots::Transceiver::event_handler_t<>{ [](const dots::Event<>&) {} }); } catch (const std::exception&) { threw = true; }
                c.check(threw && g.link->end[Guest_].sent.size() == before, "a type that occurs only inside others may be subscribed to");
            }
        }

        void run()
        {
            size_t n = 1 + c.s.below(2);
            for (size_t i = 0; i < n; ++i) open(addGuest());
            if (c.s.chance(4, 5)) settle();
            size_t steps = 2 + c.s.length(opt.maxSteps);
            for (size_t i = 0; i < steps; ++i) step();
            c.log << "\n  settle";
            settle();
            if (opt.destroyHost && c.s.chance(1, 3)) goodbye();
        }

        // the host goes away: every established guest learns it once
        void goodbye()
        {
            c.log << "\n  the host goes away";
            std::vector<Conn*> open_;
            for (auto& k : conns) if (!k->closed()) open_.push_back(k.get());
            destroying = true;
            hostSubs.clear();
            host.reset();
            destroying = false;
            for (Conn* k : open_)
            {
                k->expected.push_back(State::closed);
                checkStates(where(*k), k->states, k->expected);
                Guest* g = k->guest;
                if (g == nullptr || g->t == nullptr || g->link != k->link) continue;
                while (k->link->deliverable(Guest_)) deliverToGuest(*g);
                c.check(g->states.back() == State::closed, cat("guest ", g->id, " does not learn that the host is gone"));
            }
        }
    };
}
