// E27: a host keeps accepting and serving clients, whatever single connections do.
#include "history.h"
#include "sockets.h"
#include <chrono>
#include <dirent.h>
#include <sys/resource.h>
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <dots/io/Transmission.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/JsonSerializer.h>
#include <dots/tools/logging.h>
#include <DotsTransportHeader.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsMember.dots.h>
#include <DotsEcho.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsClient.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <StructDescriptorData.dots.h>
#include <EnumDescriptorData.dots.h>
#include <VfPlain.dots.h>
#include <VfUncached.dots.h>
#include <VfCleanup.dots.h>
#include <VfKeys.dots.h>
#include <VfAll.dots.h>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace mdl;
namespace asio = dots::asio;
using net::Kind;
using net::Place;

namespace
{
    using Clock = std::chrono::steady_clock;

    void init() { dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg); ::signal(SIGPIPE, SIG_IGN); }

    size_t openFiles()
    {
        size_t n = 0;
        if (DIR* d = ::opendir("/proc/self/fd")) { while (::readdir(d)) ++n; ::closedir(d); }
        return n;
    }

    const char* Upgrade = "GET / HTTP/1.1\r\nHost: host\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: dots-json\r\n\r\n";

    std::string frame(pbt::Src& s, const std::string& payload, uint8_t opcode = 1, bool final = true, bool masked = true)
    {
        std::string r;
        r += static_cast<char>((final ? 0x80 : 0) | opcode);
        const char m = static_cast<char>(masked ? 0x80 : 0);
        if (payload.size() < 126) r += static_cast<char>(m | static_cast<char>(payload.size()));
        else if (payload.size() < 65536) { r += static_cast<char>(m | 126); r += static_cast<char>(payload.size() >> 8); r += static_cast<char>(payload.size()); }
        else { r += static_cast<char>(m | 127); for (int i = 7; i >= 0; --i) r += static_cast<char>(static_cast<uint64_t>(payload.size()) >> (8 * i)); }
        if (!masked) return r + payload;
        uint32_t key = static_cast<uint32_t>(s.draw(0xffffffff));
        for (int i = 0; i < 4; ++i) r += static_cast<char>(key >> (8 * i));
        for (size_t i = 0; i < payload.size(); ++i) r += static_cast<char>(payload[i] ^ static_cast<char>(key >> (8 * (i % 4))));
        return r;
    }

    std::string text(const std::vector<uint8_t>& v) { return { v.begin(), v.end() }; }

    // one message as it stands on the wire
    std::string encode(pbt::Src& s, Kind kind, const DotsHeader& header, const dots::type::Struct& x)
    {
        if (kind == Kind::ws) return frame(s, pbt::cat("[", dots::to_json(header, dots::serialization::TextOptions{ dots::serialization::TextOptions::Minified }), ",", dots::to_json(x, dots::serialization::TextOptions{ dots::serialization::TextOptions::Minified }), "]"));
        std::string body = text(dots::to_cbor(x));
        if (net::isV1(kind))
        {
            DotsTransportHeader t{ .dotsHeader = header, .payloadSize = static_cast<uint32_t>(body.size()) };
            if (header.typeName.isValid()) t.destinationGroup = *header.typeName;
            std::string h = text(dots::to_cbor(t));
            std::string r;
            r += static_cast<char>(h.size());
            r += static_cast<char>(h.size() >> 8);
            return r + h + body;
        }
        body = text(dots::to_cbor(header)) + body;
        std::string r{ '\x1a' };
        for (int i = 3; i >= 0; --i) r += static_cast<char>(body.size() >> (8 * i));
        return r + body;
    }

    // ---- the clients
    struct Good
    {
        size_t n = 0, place = 0;
        std::unique_ptr<dots::GuestTransceiver> t;
        std::vector<dots::Subscription> subs;
        std::set<std::string> seen, due;
        bool over = false, lost = false, established = false;
        std::string why;
    };
    struct Bad
    {
        size_t n = 0, place = 0;
        int fd = -1;
        bool reading = true;
        std::string pending;
    };

    struct World
    {
        pbt::Ctx& c;
        net::Scratch& scratch;
        asio::io_context io{ 1 };
        std::vector<Place> places;
        std::map<std::string, std::pair<std::string, std::string>> peers; // where the host sees itself and the guest, by the guest's name
        std::unique_ptr<dots::HostTransceiver> host;
        std::vector<std::unique_ptr<Good>> goods;
        std::vector<std::unique_ptr<Bad>> bads;
        std::vector<dots::Subscription> hostSubs;
        size_t counter = 0, guestCount = 0, badCount = 0, delivered = 0, badBefore = 0, messages = 0, odd = 0;
        static constexpr int Deadline = 15;

        World(pbt::Ctx& c_, net::Scratch& s) : c(c_), scratch(s)
        {
            host = std::make_unique<dots::HostTransceiver>("host", io, dots::type::Registry::StaticTypePolicy::All, dots::HostTransceiver::transition_handler_t{ [this](const dots::Connection& k, std::exception_ptr)
            {
                if (k.state() == DotsConnectionState::connected) peers[k.peerName()] = { std::string{ k.localEndpoint().uriStr() }, std::string{ k.remoteEndpoint().uriStr() } };
            } });
            c.log << "host listens on";
            for (size_t n = 1 + c.s.below(2); n > 0; --n)
            {
                Place p;
                p.kind = static_cast<Kind>(c.s.weighted({ 4, 2, 2, 1, 3 }));
                p.v6 = !net::isUds(p.kind) && p.kind != Kind::ws && c.s.chance(1, 3);
                host->listen(net::makeListener(io, p, scratch));
                c.log << " " << net::name(p.kind) << (p.v6 ? " (IPv6)" : "");
                places.push_back(p);
            }
            if (c.s.boolean()) hostSubs.push_back(host->subscribe<VfPlain>([](const dots::Event<VfPlain>&) {}));
        }
        ~World() { end(); }

        void end()
        {
            for (auto& g : goods) { g->over = true; g->subs.clear(); g->t.reset(); }
            goods.clear();
            for (auto& b : bads) if (b->fd >= 0) ::close(b->fd);
            bads.clear();
        }

        void pump()
        {
            io.restart();
            size_t n = io.poll();
            char buffer[65536];
            for (auto& b : bads)
            {
                if (b->fd < 0) continue;
                if (b->reading) while (::recv(b->fd, buffer, sizeof buffer, MSG_DONTWAIT) > 0) ++n;
                while (!b->pending.empty())
                {
                    ssize_t k = ::send(b->fd, b->pending.data(), b->pending.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
                    if (k < 0 && errno == EAGAIN) break;
                    ++n;
                    if (k < 0) b->pending.clear();
                    else b->pending.erase(0, static_cast<size_t>(k));
                }
            }
            if (n == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
            for (auto& g : goods) if (g->lost) c.fail(pbt::cat("guest ", g->n, " loses its connection: ", g->why));
            c.throwIfFailed();
        }
        void until(const std::function<bool()>& done, const std::function<std::string()>& what)
        {
            for (auto end = Clock::now() + std::chrono::seconds(Deadline); !done(); )
            {
                pump();
                if (Clock::now() > end) c.fail(what());
            }
        }

        // ---- guests that follow the protocol
        dots::io::channel_ptr_t dial(const Place& p)
        {
            int fd = net::rawConnect(p);
            if (fd < 0) c.fail(pbt::cat("the host no longer listens on ", net::name(p.kind)));
            auto v = p.v6 ? asio::ip::tcp::v6() : asio::ip::tcp::v4();
            switch (p.kind)
            {
                case Kind::tcp1: return dots::io::make_channel<dots::io::v1::TcpChannel>(asio::ip::tcp::socket{ io, v, fd }, nullptr);
                case Kind::tcp2: return dots::io::make_channel<dots::io::v2::TcpChannel>(asio::ip::tcp::socket{ io, v, fd }, nullptr);
                case Kind::uds1: return dots::io::make_channel<dots::io::posix::v1::UdsChannel>(asio::local::stream_protocol::socket{ io, asio::local::stream_protocol{}, fd }, nullptr);
                case Kind::uds2: return dots::io::make_channel<dots::io::posix::v2::UdsChannel>(asio::local::stream_protocol::socket{ io, asio::local::stream_protocol{}, fd }, nullptr);
                default: break;
            }
            dots::io::WebSocketChannel::ws_stream_t stream{ io };
            stream.next_layer().socket().assign(v, fd);
            stream.set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::request_type& r) { r.set(boost::beast::http::field::sec_websocket_protocol, "dots-json"); }));
            boost::beast::websocket::response_type response;
            bool done = false;
            std::string error;
            stream.async_handshake(response, "host", "/", [&](boost::system::error_code ec) { done = true; if (ec) error = ec.message(); });
            try { until([&] { return done; }, [] { return std::string{ "the host does not answer the handshake of a WebSocket client" }; }); }
            catch (...) { stream.next_layer().close(); io.restart(); io.poll(); throw; }
            c.check(error.empty(), pbt::cat("the host refuses the handshake of a WebSocket client: ", error));
            c.check(response["Sec-WebSocket-Protocol"] == "dots-json", "the host answers a WebSocket handshake without the subprotocol");
            return dots::io::make_channel<dots::io::WebSocketChannel>(std::move(stream));
        }

        template <typename T>
        void watch(Good& g)
        {
            g.subs.push_back(g.t->subscribe<T>([&g](const dots::Event<T>& e) { if (!e.isRemove() && e.updated().a.isValid() && e.updated().a->size() < 100) g.seen.insert(pbt::cat(T::_Descriptor().name(), " ", *e.updated().id, " ", *e.updated().a)); }));
        }

        void publish(Good& g, size_t type, std::set<std::string>* due = nullptr)
        {
            const size_t k = counter++;
            const std::string a = pbt::cat("m", k);
            std::string mark;
            if (type == 0) { g.t->publish(VfPlain{ .a = a, .id = static_cast<uint16_t>(1000 + k) }); mark = pbt::cat("VfPlain ", 1000 + k, " ", a); }
            else if (type == 1) { g.t->publish(VfUncached{ .id = static_cast<uint32_t>(k), .a = a }); mark = pbt::cat("VfUncached ", k, " ", a); }
            else { g.t->publish(VfCleanup{ .id = static_cast<uint32_t>(1000 + k), .a = a }); mark = pbt::cat("VfCleanup ", 1000 + k, " ", a); }
            ++messages;
            if (due) due->insert(mark);
            else for (auto& o : goods) if (o->established) o->due.insert(mark);
        }

        Good& join(size_t place)
        {
            const Place& p = places[place];
            goods.push_back(std::make_unique<Good>());
            Good& g = *goods.back();
            g.n = guestCount++;
            g.place = place;
            c.log << "\n  guest " << g.n << " joins over " << net::name(p.kind);
            g.t = std::make_unique<dots::GuestTransceiver>(pbt::cat("guest", g.n), io, dots::type::Registry::StaticTypePolicy::All,
                dots::GuestTransceiver::transition_handler_t{ [&g](const dots::Connection& k, std::exception_ptr e)
                {
                    if (k.state() != DotsConnectionState::closed || g.over) return;
                    g.lost = true;
                    try { if (e) std::rethrow_exception(e); g.why = "without a reason"; } catch (const std::exception& x) { g.why = x.what(); }
                } });
            g.t->open(dial(p));
            until([&] { return g.t->connected(); }, [&] { return pbt::cat("guest ", g.n, " is not admitted"); });
            if (!net::isUds(p.kind))
            {
                // both sides name the two ends of the connection alike
                const auto& [local, remote] = peers[pbt::cat("guest", g.n)];
                const auto& k = g.t->connection();
                c.check(k.localEndpoint().uriStr() == remote && k.remoteEndpoint().uriStr() == local,
                    pbt::cat("guest ", g.n, " is connected from ", k.localEndpoint().uriStr(), " to ", k.remoteEndpoint().uriStr(), ", but for the host from ", remote, " to ", local));
            }
            watch<VfPlain>(g);
            watch<VfUncached>(g);
            watch<VfCleanup>(g);
            for (size_t i = 0; i < 3; ++i) publish(g, i, &g.due);
            settle(g);
            g.established = true;
            badBefore = std::max(badBefore, badCount);
            return g;
        }
        void settle(Good& g)
        {
            until([&] { return std::includes(g.seen.begin(), g.seen.end(), g.due.begin(), g.due.end()); },
                [&]
                {
                    std::string missing;
                    for (auto& d : g.due) if (!g.seen.count(d) && missing.size() < 100) missing += " " + d;
                    return pbt::cat("guest ", g.n, " does not receive", missing);
                });
            delivered += g.due.size();
            for (auto& d : g.due) g.seen.erase(d);
            g.due.clear();
        }
        void settle() { for (auto& g : goods) settle(*g); }

        // ---- clients that do not
        std::string badBytes(Kind kind)
        {
            auto garbage = [&](size_t max)
            {
                std::string r(c.s.length(max), '\0');
                for (auto& b : r) b = static_cast<char>(c.s.draw(255));
                return r;
            };
            std::string r;
            switch (c.s.weighted({ 3, 2, 2, 6, 2 }))
            {
                case 0: c.log << " garbage"; return garbage(40);
                case 1:
                {
                    c.log << " a big number";
                    if (kind == Kind::ws) return c.s.one<std::string>({ std::string("\x81\xff\x7f\xff\xff\xff\xff\xff\xff\xff", 10), std::string("\x82\xfe\xff\xff", 4), std::string("\xff\x80\0\0\0\0", 6) });
                    return c.s.one<std::string>({ std::string("\x1a\xff\xff\xff\xff", 5), std::string("\x1a\x7f\xff\xff\xff", 5), std::string("\x1b\xff\xff\xff\xff\xff\xff\xff\xff", 9), std::string("\xff\xff", 2), std::string("\x1a\0\0\0\0", 5), std::string("\0\0", 2) });
                }
                case 2:
                {
                    c.log << " a request of another protocol";
                    return c.s.one<std::string>({ "GET / HTTP/1.0\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n", "\r\n\r\n", "GET ", "\x16\x03\x01\x02" });
                }
                case 4:
                    if (kind == Kind::ws)
                    {
                        c.log << " a frame";
                        return frame(c.s, c.s.boolean() ? garbage(20) : c.s.one<std::string>({ "", "[]", "[{}]", "[{},{}]", "[[[[", "{}", "null", "[{\"typeName\":\"VfPlain\"}", "[1,2]", "\xff" }), static_cast<uint8_t>(c.s.one<int>({ 1, 2, 8, 9, 10, 0, 3, 15 })), !c.s.chance(1, 4), !c.s.chance(1, 5));
                    }
                    [[fallthrough]];
                default: break;
            }
            for (size_t n = 1 + c.s.below(3); n > 0; --n) r += badMessage(kind);
            if (c.s.chance(1, 5) && !r.empty()) { c.log << " (cut off)"; r.resize(c.s.below(r.size())); }
            if (c.s.chance(1, 6) && !r.empty()) { c.log << " (damaged)"; r[c.s.below(r.size())] = static_cast<char>(c.s.draw(255)); }
            return r;
        }

        const std::vector<const dots::type::StructDescriptor*>& oddTypes()
        {
            static std::vector<const dots::type::StructDescriptor*> t{ &VfPlain::_Descriptor(), &VfUncached::_Descriptor(), &VfCleanup::_Descriptor(), &VfKeys::_Descriptor(), &VfAll::_Descriptor(),
                &DotsMember::_Descriptor(), &DotsEcho::_Descriptor(), &DotsDescriptorRequest::_Descriptor(), &DotsClearCache::_Descriptor(), &DotsMsgError::_Descriptor(), &DotsMsgConnect::_Descriptor(), &DotsMsgHello::_Descriptor(),
                &DotsMsgConnectResponse::_Descriptor(), &DotsClient::_Descriptor(), &DotsCacheInfo::_Descriptor(), &StructDescriptorData::_Descriptor(), &EnumDescriptorData::_Descriptor(), &DotsHeader::_Descriptor() };
            return t;
        }

        std::string badMessage(Kind kind)
        {
            const auto* d = c.s.pick(oddTypes());
            auto t = describeStruct(*d);
            GenOpts o;
            o.maxText = 6;
            o.plainTimes = kind == Kind::ws;
            o.rawText = kind != Kind::ws;
            MValue v = genStruct(c.s, *t, o);
            auto put = [&](uint32_t tag, const std::string& s) { MValue x; x.k = dots::type::Type::string; x.s = s; v.fields[tag] = x; };
            const std::string name = c.s.one<std::string>({ "VfPlain", "VfUncached", "VfCleanup", "Nope", "" });
            if (d == &DotsMember::_Descriptor() && !c.s.chance(1, 4)) put(1, name);
            Instance x{ *d };
            write(*x, *t, v);
            DotsHeader h;
            if (!c.s.chance(1, 12)) h.typeName = c.s.chance(1, 12) ? name : d->name();
            switch (c.s.weighted({ 6, 3, 2, 1 }))
            {
                case 0: h.attributes = property_set_t{ v.valid() }; break;
                case 1: break;
                case 2: h.attributes = property_set_t{ static_cast<uint32_t>(c.s.draw(0xffffffff)) }; break;
                default: h.attributes = property_set_t{ 0xffffffffu }; break;
            }
            if (!c.s.chance(1, 4)) h.sentTime = timepoint_t{ dots::type::Duration{ static_cast<double>(c.s.range(0, 2000000000)) } };
            if (c.s.chance(1, 4)) h.sender = static_cast<uint32_t>(c.s.interestingUint());
            if (c.s.chance(1, 3)) h.removeObj = c.s.boolean();
            if (c.s.chance(1, 6)) h.fromCache = static_cast<uint32_t>(c.s.interestingUint());
            c.log << " " << d->name() << show(v) << (h.typeName.isValid() ? h.typeName == d->name() ? "" : " called " + *h.typeName : " without a name") << (h.attributes.isValid() ? h.attributes->toValue() == v.valid() ? "" : " with wrong attributes" : " without attributes") << (h.sentTime.isValid() ? "" : " without time") << (h.removeObj == true ? " (remove)" : "");
            ++odd;
            return encode(c.s, kind, h, *x);
        }

        // the messages a guest starts with
        std::string greeting(Kind kind, size_t n, bool full)
        {
            auto m = [&](const dots::type::Struct& x) { return encode(c.s, kind, DotsHeader{ .typeName = x._descriptor().name(), .sentTime = timepoint_t::Now(), .attributes = x._validProperties() }, x); };
            std::string r = m(DotsMsgConnect{ .clientName = pbt::cat("bad", n), .preloadCache = c.s.boolean() });
            if (full)
            {
                for (const char* g : { "VfPlain", "VfUncached", "VfCleanup" }) if (c.s.boolean()) r += m(DotsMember{ .groupName = std::string{ g }, .event = DotsMemberEvent::join });
                r += m(DotsMsgConnect{ .preloadClientFinished = true });
            }
            return r;
        }

        void open()
        {
            auto b = std::make_unique<Bad>();
            b->n = badCount++;
            b->place = c.s.below(places.size());
            const Place& p = places[b->place];
            b->fd = net::rawConnect(p);
            c.log << "\n  client " << b->n << " connects to " << net::name(p.kind);
            if (b->fd < 0) c.fail(pbt::cat("the host no longer listens on ", net::name(p.kind)));
            b->reading = !c.s.chance(1, 5);
            if (!b->reading) c.log << " and never reads";
            Bad& k = *b;
            bads.push_back(std::move(b));
            if (p.kind == Kind::ws && c.s.chance(3, 4)) { c.log << ", upgrades"; k.pending += Upgrade; }
            const unsigned how = static_cast<unsigned>(c.s.weighted({ 3, 3, 3 }));
            if (how > 0) { c.log << (how == 1 ? ", starts the protocol" : ", becomes a guest"); k.pending += greeting(p.kind, k.n, how == 2); }
            if (c.s.chance(1, 2)) { c.log << ", sends"; k.pending += badBytes(p.kind); }
            if (c.s.chance(1, 3)) { if (!k.pending.empty() && c.s.boolean()) k.pending.resize(c.s.below(k.pending.size())); finish(k, true); }
        }
        void finish(Bad& b, bool atOnce = false)
        {
            if (b.fd < 0) return;
            if (!atOnce && c.s.boolean()) pump();
            if (!b.pending.empty()) { (void)!::send(b.fd, b.pending.data(), b.pending.size(), MSG_DONTWAIT | MSG_NOSIGNAL); b.pending.clear(); }
            switch (c.s.below(3))
            {
                case 0: c.log << ", resets the connection"; net::reset(b.fd); b.fd = -1; break;
                case 1: c.log << ", closes the connection"; ::close(b.fd); b.fd = -1; break;
                default: c.log << ", ends its sending"; ::shutdown(b.fd, SHUT_WR); break;
            }
        }
    };

    void clients(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        const size_t filesBefore = openFiles();
        size_t messages, bad, delivered, guests, odd;
        {
            World w{ c, scratch };
            const size_t filesIdle = openFiles();
            for (size_t n = 1 + c.s.length(25); n > 0; --n)
            {
                switch (c.s.weighted({ 8, 5, 4, 4, 3, 6, 2, 1 }))
                {
                    case 0: if (w.bads.size() < 12) w.open(); break;
                    case 1:
                    {
                        if (w.bads.empty()) break;
                        auto& b = *c.s.pick(w.bads);
                        if (b.fd < 0) break;
                        c.log << "\n  client " << b.n << " sends";
                        b.pending += w.badBytes(w.places[b.place].kind);
                        break;
                    }
                    case 2:
                    {
                        if (w.bads.empty()) break;
                        auto& b = *c.s.pick(w.bads);
                        if (b.fd < 0) break;
                        c.log << "\n  client " << b.n;
                        w.finish(b);
                        break;
                    }
                    case 3: for (size_t k = 1 + c.s.below(4); k > 0; --k) w.pump(); break;
                    case 4: if (w.goods.size() < 4) w.join(c.s.below(w.places.size())); break;
                    case 5:
                    {
                        if (w.goods.empty()) break;
                        auto& g = *c.s.pick(w.goods);
                        size_t type = c.s.below(3);
                        c.log << "\n  guest " << g.n << " publishes";
                        w.publish(g, type);
                        break;
                    }
                    case 6: w.settle(); break;
                    default:
                    {
                        if (w.goods.empty()) break;
                        size_t i = c.s.below(w.goods.size());
                        Good& g = *w.goods[i];
                        w.settle();
                        c.log << "\n  guest " << g.n << " leaves";
                        g.over = true;
                        g.subs.clear();
                        g.t.reset();
                        w.goods.erase(w.goods.begin() + static_cast<std::ptrdiff_t>(i));
                        break;
                    }
                }
                c.throwIfFailed();
            }
            c.log << "\n  (end)";
            for (size_t k = 0; k < 3; ++k) w.pump();
            for (size_t p = 0; p < w.places.size(); ++p) w.join(p);
            for (size_t type = 0; type < 3; ++type) w.publish(*w.goods.back(), type);
            w.settle();
            messages = w.messages;
            bad = w.badCount;
            delivered = w.delivered;
            guests = w.guestCount;
            odd = w.odd;
            w.end();
            w.until([&] { return openFiles() <= filesIdle; }, [&] { return pbt::cat("the host keeps ", openFiles() - filesIdle, " sockets of clients that are gone"); });
            w.hostSubs.clear();
            w.host.reset();
            w.io.restart();
            w.io.poll();
        }
        c.check(openFiles() <= filesBefore, "the host leaves sockets open");
        c.count("messages of guests", messages);
        c.count("deliveries", delivered);
        c.count("guests", guests);
        c.count("misbehaving clients", bad);
        c.count("odd messages", odd);
        c.nontrivial(bad > 0 && delivered > 3);
    }

    // a client that does not read must not hold up the others
    void stalled(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        {
            World w{ c, scratch };
            const size_t filesIdle = openFiles();
            const size_t place = c.s.below(w.places.size());
            Good& sender = w.join(c.s.below(w.places.size()));
            Good& receiver = w.join(c.s.below(w.places.size()));
            const size_t stallers = 1 + c.s.below(2);
            for (size_t i = 0; i < stallers; ++i)
            {
                auto b = std::make_unique<Bad>();
                b->n = w.badCount++;
                b->place = i == 0 ? place : c.s.below(w.places.size());
                const Kind kind = w.places[b->place].kind;
                b->fd = net::rawConnect(w.places[b->place]);
                c.check(b->fd >= 0, "the host no longer listens");
                int small = 4096;
                ::setsockopt(b->fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
                c.log << "\n  client " << b->n << " becomes a guest over " << net::name(kind) << " and never reads";
                b->reading = false;
                if (kind == Kind::ws) b->pending += Upgrade;
                b->pending += encode(c.s, kind, DotsHeader{ .typeName = "DotsMsgConnect", .attributes = property_set_t{ 6u } }, DotsMsgConnect{ .clientName = pbt::cat("bad", i), .preloadCache = false });
                for (const char* g : { "VfPlain", "VfUncached" })
                    b->pending += encode(c.s, kind, DotsHeader{ .typeName = "DotsMember", .attributes = property_set_t{ 6u } }, DotsMember{ .groupName = std::string{ g }, .event = DotsMemberEvent::join });
                w.bads.push_back(std::move(b));
            }
            for (int i = 0; i < 20; ++i) w.pump();
            const size_t size = c.s.one<size_t>({ 1000000, 300000, 3000000 });
            std::string content(size, 'x');
            size_t total = 0, got = 0;
            receiver.subs.push_back(receiver.t->subscribe<VfUncached>([&](const dots::Event<VfUncached>& e) { if (e.updated().b.isValid() && e.updated().a->size() == size) ++got; }));
            size_t n = 0;
            c.log << "\n  guest 0 publishes objects of " << size << " bytes";
            for (; total < 36 * 1000 * 1000; total += size)
            {
                sender.t->publish(VfUncached{ .id = 1u, .a = content, .b = 7 });
                ++n;
                w.until([&] { return got == n; }, [&] { return pbt::cat("guest 1 does not receive object ", n, " while another client does not read"); });
                if (c.s.chance(1, 8)) w.publish(sender, 0);
            }
            w.settle();
            w.join(place);
            c.count("megabytes sent to stalled clients", total / 1000000 * stallers);
            c.count("stalled clients", stallers);
            w.end();
            w.until([&] { return openFiles() <= filesIdle; }, [&] { return pbt::cat("the host keeps ", openFiles() - filesIdle, " sockets of clients that are gone"); });
            w.hostSubs.clear();
            w.host.reset();
            w.io.restart();
            w.io.poll();
            c.nontrivial(true);
        }
    }

    // running out of file descriptors must not end the listening
    void exhausted(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        rlimit old{};
        ::getrlimit(RLIMIT_NOFILE, &old);
        struct Restore { rlimit l; ~Restore() { ::setrlimit(RLIMIT_NOFILE, &l); } } restore{ old };
        {
            World w{ c, scratch };
            if (c.s.boolean()) w.join(c.s.below(w.places.size()));
            std::vector<int> fds;
            for (size_t n = 1 + c.s.below(4); n > 0; --n) { int fd = ::dup(0); if (fd >= 0) fds.push_back(fd); }
            const int highest = *std::max_element(fds.begin(), fds.end());
            for (int fd : fds) ::close(fd);
            rlimit low = old;
            low.rlim_cur = static_cast<rlim_t>(highest) + 1;
            ::setrlimit(RLIMIT_NOFILE, &low);
            std::vector<int> all;
            const size_t place = c.s.below(w.places.size());
            for (size_t n = 1 + c.s.below(4); n > 0; --n)
            {
                int fd = net::rawConnect(w.places[place]);
                if (fd < 0) break;
                all.push_back(fd);
            }
            c.log << "\n  " << all.size() << " clients connect to " << net::name(w.places[place].kind) << " while " << fds.size() << " file descriptors are left";
            const bool over = 2 * all.size() > fds.size();
            for (size_t n = 1 + c.s.below(10); n > 0; --n) w.pump();
            const bool keep = c.s.boolean();
            if (keep) ::setrlimit(RLIMIT_NOFILE, &old);
            for (int fd : all) { if (c.s.boolean()) net::reset(fd); else ::close(fd); }
            ::setrlimit(RLIMIT_NOFILE, &old);
            for (size_t p = 0; p < w.places.size(); ++p) w.join(p);
            w.settle();
            c.count("exhaustions", over);
            c.nontrivial(over);
            w.end();
            w.hostSubs.clear();
            w.host.reset();
            w.io.restart();
            w.io.poll();
        }
    }

    // a host that ends while clients are coming
    void ending(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        const size_t filesBefore = openFiles();
        size_t polled = 0, came = 0;
        {
            World w{ c, scratch };
            std::vector<std::pair<int, Kind>> fds;
            c.log << "\n  clients:";
            for (size_t n = c.s.length(4); n > 0; --n) w.pump();
            for (size_t n = 2 + c.s.length(6); n > 0; --n)
            {
                auto& p = w.places[c.s.below(w.places.size())];
                int fd = net::rawConnect(p);
                if (fd < 0) c.fail("the host does not listen");
                std::string text;
                if (c.s.boolean()) text = w.badBytes(p.kind);
                c.log << ' ' << net::name(p.kind);
                if (::send(fd, text.data(), text.size(), MSG_NOSIGNAL | MSG_DONTWAIT) < 0) {}
                if (c.s.chance(1, 4)) { net::reset(fd); c.log << " (cut off)"; }
                else fds.emplace_back(fd, p.kind);
                ++came;
                w.io.restart();
                if (c.s.chance(1, 3)) { w.io.poll_one(); c.log << " (step)"; ++polled; }
            }
            w.io.restart();
            for (size_t n = c.s.below(8); n > 0 && w.io.poll_one() > 0; --n) ++polled;
            c.log << "\n  end after " << polled << " steps";
            w.hostSubs.clear();
            w.host.reset();
            if (c.s.chance(3, 4)) { w.io.restart(); w.io.poll(); }
            for (auto& [fd, kind] : fds)
            {
                // note: the handshakes of WebSocket clients end only after a while
                if (kind != Kind::ws)
                {
                    char buffer[4096];
                    ssize_t r;
                    while ((r = ::recv(fd, buffer, sizeof buffer, MSG_DONTWAIT)) > 0) {}
                    if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK))
                    {
                        w.io.restart();
                        w.io.poll();
                        while ((r = ::recv(fd, buffer, sizeof buffer, MSG_DONTWAIT)) > 0) {}
                        if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) c.failLater("a host that has ended keeps the connection of a client");
                    }
                }
                ::close(fd);
            }
            c.throwIfFailed();
        }
        c.check(openFiles() <= filesBefore, "the host leaves sockets open");
        c.count("clients", came);
        c.nontrivial(polled > 0);
    }

    // guests in the process of the host come and go at any point of joining it
    void locals(pbt::Ctx& c)
    {
        auto& s = c.s;
        asio::io_context io;
        auto host = std::make_unique<dots::HostTransceiver>("host", io, dots::type::Registry::StaticTypePolicy::All);
        dots::io::LocalListener* listener = &host->listen<dots::io::LocalListener>();
        std::vector<std::pair<uint32_t, int32_t>> seen;
        auto watch = host->subscribe<VfUncached>([&](const dots::Event<VfUncached>& e) { seen.emplace_back(*e().id, *e().b); });
        struct Guest
        {
            std::unique_ptr<dots::GuestTransceiver> tr;
            uint32_t id = 0;
            int32_t sent = 0;
        };
        std::vector<Guest> guests;
        std::map<uint32_t, int32_t> sent;      // by guests that were not discarded
        uint32_t next = 0;
        size_t discardedEarly = 0;
        auto connected = [](Guest& g) { try { return g.tr->connection().connected(); } catch (const std::exception&) { return false; } };
        unsigned steps = unsigned(s.range(2, 24));
        for (unsigned n = 0; n < steps; ++n)
        {
            switch (s.weighted({ 4, 3, 4, 3 }))
            {
                case 0:
                {
                    Guest g;
                    g.id = ++next;
                    c.log << "guest " << g.id << " joins\n";
                    g.tr = std::make_unique<dots::GuestTransceiver>(pbt::cat("guest", g.id), io, dots::type::Registry::StaticTypePolicy::All);
                    g.tr->open<dots::io::LocalChannel>(*listener);
                    guests.push_back(std::move(g));
                    break;
                }
                case 1:
                {
                    if (guests.empty()) break;
                    size_t i = s.below(guests.size());
                    c.log << "guest " << guests[i].id << " is discarded" << (connected(guests[i]) ? "" : " while it joins") << "\n";
                    if (!connected(guests[i])) ++discardedEarly;
                    sent.erase(guests[i].id);
                    guests.erase(guests.begin() + long(i));
                    break;
                }
                case 2:
                {
                    unsigned k = unsigned(s.range(1, 6));
                    c.log << k << " steps\n";
                    io.restart();
                    while (k-- > 0) io.poll_one();
                    break;
                }
                default:
                {
                    if (guests.empty()) break;
                    auto& g = guests[s.below(guests.size())];
                    if (!connected(g)) break;
                    c.log << "guest " << g.id << " publishes\n";
                    g.tr->publish(VfUncached{ .id = g.id, .b = g.sent });
                    sent[g.id] = ++g.sent;
                    break;
                }
            }
        }
        bool ends = s.chance(1, 3);
        if (ends)
        {
            c.log << "the host ends\n";
            watch.unsubscribe();
            host.reset();
            io.restart();
            io.poll();
            for (auto& g : guests) c.check(!connected(g) , pbt::cat("guest ", g.id, " is connected to a host that has ended"));
        }
        else
        {
            io.restart();
            io.poll();
            for (auto& g : guests) c.check(connected(g), pbt::cat("guest ", g.id, " cannot join"));
            std::map<uint32_t, int32_t> got;
            for (auto& [id, b] : seen)
            {
                c.check(b == got[id], pbt::cat("the host gets publish ", b, " of guest ", id, " instead of ", got[id]));
                ++got[id];
            }
            for (auto& [id, n] : sent) c.check(got[id] == n, pbt::cat("the host gets ", got[id], " of ", n, " publishes of guest ", id));
        }
        if (s.boolean()) guests.clear();
        c.count("discarded while joining", discardedEarly);
        c.nontrivial(next > 0 && (discardedEarly > 0 || !seen.empty()));
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "E27";
    check.rule = "clients: at least one misbehaving client and a guest that has to receive messages; exhausted: more connections than file descriptors; stalled: every case; locals: a guest was discarded while it joined or published";
    check.init = init;
    check.subs = {
        { "clients", clients, 5000, 60000, 60 },
        { "ending", ending, 5000, 60000, 60 },
        { "exhausted", exhausted, 150, 3000, 60 },
        { "stalled", stalled, 24, 400, 60 },
        { "locals", locals, 12000, 200000 },
    };
    return pbt::run(argc, argv, check);
}
