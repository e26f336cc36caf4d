// W14: a byte stream delivers exactly the messages sent, in order.
#include "history.h"
#include "sockets.h"
#include <chrono>
#include <deque>
#include <dots/asio.h>
#include <DotsMember.dots.h>
#include <dots/io/Channel.h>
#include <dots/io/Transmission.h>
#include <dots/io/channels/AsyncStreamChannel.h>
#include <dots/tools/logging.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace mdl;
using pbt::quote;
namespace asio = dots::asio;

namespace
{
    // ---- memory accounting
    bool g_track = false;
    int64_t g_live = 0, g_peak = 0;
    void onMalloc(const volatile void*, size_t n) { if (g_track) { g_live += static_cast<int64_t>(n); if (g_live > g_peak) g_peak = g_live; } }
    void onFree(const volatile void* p) { if (g_track && p != nullptr) g_live -= static_cast<int64_t>(__sanitizer_get_allocated_size(p)); }
    void init()
    {
        dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg);
        __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    }

    // ---- a stream whose bytes move when the check says so
    using Error = boost::system::error_code;
    struct Op { virtual ~Op() = default; virtual void done(Error ec, size_t n) = 0; };
    template <typename H> struct OpOf : Op
    {
        H h;
        explicit OpOf(H&& h_) : h(std::move(h_)) {}
        void done(Error ec, size_t n) override { h(ec, n); }
    };
    using OpP = std::shared_ptr<Op>;

    // one direction
    struct Pipe
    {
        asio::io_context* io = nullptr;
        std::deque<uint8_t> data;             // written, not yet read
        std::vector<asio::const_buffer> wbuf; // pending write
        OpP wop;
        std::vector<asio::mutable_buffer> rbuf; // pending read
        OpP rop;
        bool writerGone = false, readerGone = false, broken = false, failed = false;
        size_t written = 0;

        void complete(OpP& op, Error ec, size_t n) { asio::post(*io, [op = std::move(op), ec, n] { op->done(ec, n); }); op.reset(); }

        bool canWrite() const { return wop != nullptr; }
        void doWrite(size_t n)
        {
            if (readerGone || broken) { failed = true; complete(wop, asio::error::broken_pipe, 0); return; }
            size_t done = 0;
            for (auto& b : wbuf)
            {
                size_t k = std::min(n - done, b.size());
                auto* p = static_cast<const uint8_t*>(b.data());
                data.insert(data.end(), p, p + k);
                done += k;
            }
            written += done;
            complete(wop, {}, done);
        }
        bool canRead() const { return rop != nullptr && (!data.empty() || writerGone || broken); }
        void doRead(size_t n)
        {
            if (broken && data.empty()) { complete(rop, asio::error::connection_reset, 0); return; }
            if (data.empty()) { complete(rop, asio::error::eof, 0); return; }
            n = std::min(n, data.size());
            size_t done = 0;
            for (auto& b : rbuf)
            {
                size_t k = std::min(n - done, b.size());
                std::copy(data.begin(), data.begin() + static_cast<ptrdiff_t>(k), static_cast<uint8_t*>(b.data()));
                data.erase(data.begin(), data.begin() + static_cast<ptrdiff_t>(k));
                done += k;
            }
            complete(rop, {}, done);
        }
    };
    using PipeP = std::shared_ptr<Pipe>;

    struct SimStream
    {
        using executor_type = asio::io_context::executor_type;
        PipeP in, out;
        SimStream(PipeP i, PipeP o) : in(std::move(i)), out(std::move(o)) {}
        SimStream(SimStream&&) = default;
        SimStream& operator=(SimStream&&) = default;
        ~SimStream()
        {
            if (in) { in->readerGone = true; if (in->rop) in->complete(in->rop, asio::error::operation_aborted, 0); }
            if (out) { out->writerGone = true; if (out->wop) out->complete(out->wop, asio::error::operation_aborted, 0); }
        }
        executor_type get_executor() { return in->io->get_executor(); }

        template <typename Buffers, typename Handler>
        void async_read_some(const Buffers& buffers, Handler&& handler)
        {
            if (in->rop) throw std::logic_error{ "two reads at once" };
            in->rbuf.assign(asio::buffer_sequence_begin(buffers), asio::buffer_sequence_end(buffers));
            in->rop = std::make_shared<OpOf<std::decay_t<Handler>>>(std::decay_t<Handler>(std::forward<Handler>(handler)));
        }
        template <typename Buffers, typename Handler>
        void async_write_some(const Buffers& buffers, Handler&& handler)
        {
            if (out->wop) throw std::logic_error{ "two writes at once" };
            out->wbuf.assign(asio::buffer_sequence_begin(buffers), asio::buffer_sequence_end(buffers));
            out->wop = std::make_shared<OpOf<std::decay_t<Handler>>>(std::decay_t<Handler>(std::forward<Handler>(handler)));
        }
    };

    using dots::io::TransmissionFormat;
    template <TransmissionFormat F> using Stream = dots::io::AsyncStreamChannel<SimStream, dots::serialization::CborSerializer, F>;

    // ---- messages
    struct Msg
    {
        StructP t;
        const dots::type::StructDescriptor* d = nullptr;
        DotsHeader header;
        MValue value;      // what the receiver must get
        std::shared_ptr<Instance> instance;
    };
    using MsgP = std::shared_ptr<Msg>;

    struct Types
    {
        std::vector<Subject> subjects;
        std::map<std::string, StructP> byName;

        GenOpts o;

        Types(pbt::Ctx& c, bool text = false)
        {
            if (text) { o.plainTimes = true; o.rawText = false; }
            auto add = [&](Subject s) { byName[s.t->name] = s.t; subjects.push_back(std::move(s)); };
            Subject plain;
            plain.d = &VfPlain::_Descriptor();
            plain.t = describeStruct(*plain.d);
            add(plain);
            if (c.s.boolean())
            {
                Subject all;
                all.d = &VfAll::_Descriptor();
                all.t = describeStruct(*all.d);
                add(all);
            }
            for (size_t n = c.s.below(3); n > 0; --n)
            {
                GenOpts t = o;
                t.maxDepth = 1;
                add(makeDynamic(c.s, t, false, {}, cat("Gen", n)));
            }
        }
        void registerAt(dots::type::Registry& r) { for (auto& s : subjects) if (s.isDynamic) r.registerType(const_cast<dots::type::StructDescriptor&>(*s.d), false); }
    };

    // JSON text has no negative zero
    void unsignZeros(MValue& v)
    {
        if (v.d == 0) v.d = 0.0;
        for (auto& i : v.items) unsignZeros(i);
        for (auto& [t, f] : v.fields) unsignZeros(f);
    }

    MsgP genMsg(pbt::Ctx& c, Types& types, size_t big = 0)
    {
        auto m = std::make_shared<Msg>();
        GenOpts o = types.o;
        o.maxText = 24;
        const Subject& sub = big ? types.subjects[0] : c.s.pick(types.subjects);
        m->t = sub.t;
        m->d = sub.d;
        MValue v = genStruct(c.s, *sub.t, o);
        if (!o.rawText) unsignZeros(v);
        if (big)
        {
            MValue text;
            text.k = Type::string;
            text.s.assign(big, static_cast<char>('a' + c.s.below(26)));
            for (size_t i = 0; i < 5; ++i) text.s[c.s.below(big)] = static_cast<char>(c.s.below(o.rawText ? 256 : 128));
            v.fields[1] = text;
        }
        uint32_t attributes = c.s.chance(1, 3) && !big ? genSubset(c.s, sub.t->all()) : v.valid() | (c.s.boolean() ? genSubset(c.s, sub.t->all()) : 0);
        m->instance = std::make_shared<Instance>(*sub.d);
        write(**m->instance, *sub.t, v);
        m->value = restrict(v, attributes);
        m->header.typeName = sub.t->name;
        m->header.attributes = property_set_t{ attributes };
        if (c.s.boolean()) m->header.sentTime = timepoint_t{ dots::type::Duration{ static_cast<double>(c.s.range(0, 2000000000)) + 0.5 } };
        if (c.s.boolean()) m->header.serverSentTime = timepoint_t{ dots::type::Duration{ static_cast<double>(c.s.range(0, 2000000000)) } };
        if (c.s.boolean()) m->header.sender = static_cast<uint32_t>(c.s.interestingUint());
        if (c.s.boolean()) m->header.removeObj = c.s.boolean();
        if (c.s.chance(1, 3)) m->header.isFromMyself = c.s.boolean();
        return m;
    }

    std::string show(const Msg& m) { return m.value.fields.count(1) && m.t->name == "VfPlain" && m.value.fields.at(1).s.size() > 200 ? cat(m.t->name, " with ", m.value.fields.at(1).s.size(), " characters") : cat(m.t->name, " ", mdl::show(m.value)); }

    // is the received message the sent one?
    std::string compare(const Msg& m, const DotsHeader& h, const dots::type::Struct& instance, TransmissionFormat f)
    {
        if (h.typeName != m.header.typeName) return cat("a message of another type: ", h.typeName.isValid() ? *h.typeName : "none");
        if (instance._descriptor().name() != m.t->name) return cat("an object of another type: ", instance._descriptor().name());
        MValue got = read(instance, *m.t);
        if (!same(got, m.value)) return cat("another object: ", firstDifference(m.value, got));
        DotsHeader x = m.header;
        if (f == TransmissionFormat::v1)
        {
            if (!x.sentTime.isValid() && h.sentTime.isValid()) x.sentTime = *h.sentTime;
            if (!x.sender.isValid()) x.sender = 1;
        }
        if (!(x == h)) return "another header";
        return {};
    }

    bool isDescription(const std::string& name) { return name == "StructDescriptorData" || name == "EnumDescriptorData"; }

    // ---- one end of a connection
    enum struct End { none, stop, release, fail };
    struct Peer
    {
        pbt::Ctx& c;
        std::string name;
        TransmissionFormat format;
        dots::type::Registry registry;
        dots::io::channel_ptr_t channel;
        std::deque<MsgP> expected;      // messages sent to this peer, not yet received
        size_t received = 0, errors = 0;
        bool over = false;              // nothing may be reported any more
        bool stopped = false;           // its handler asked for no more messages
        bool damaged = false;           // what is received is not what was sent
        std::vector<std::string> log;   // with `damaged`: what was delivered
        End endHow = End::none;
        size_t endAt = 0;
        std::function<void()> inHandler;
        bool expectError = false;
        bool releaseOnError = false;

        Peer(pbt::Ctx& c_, std::string n, TransmissionFormat f) : c(c_), name(std::move(n)), format(f), registry(dots::type::Registry::new_type_handler_t{ [](const dots::type::Descriptor<>&) {} }, dots::type::Registry::StaticTypePolicy::All) {}

        void start(dots::io::channel_ptr_t k)
        {
            channel = std::move(k);
            channel->init(registry);
            channel->asyncReceive(dots::io::Channel::receive_handler_t{ [this](dots::io::Transmission t) { return receive(std::move(t)); } }, dots::io::Channel::error_handler_t{ [this](std::exception_ptr e) { error(e); } });
        }

        bool receive(dots::io::Transmission t)
        {
            if (c.failed) return false;
            try
            {
                const bool track = g_track;
                g_track = false;
                const auto& [header, instance] = t;
                const std::string& type = instance->_descriptor().name();
                c.check(!over, cat(name, " gets a message after the end"));
                if (isDescription(type)) { g_track = track; return true; }
                if (damaged)
                {
                    auto it = types.find(type);
                    log.push_back(cat(type, header.removeObj == true, it == types.end() ? std::string{} : mdl::show(read(*instance, *it->second))));
                }
                if (expected.empty()) { if (!damaged) c.fail(cat(name, " gets a message nobody sent: ", type)); }
                else
                {
                    MsgP m = expected.front();
                    expected.pop_front();
                    std::string diff = compare(*m, header, *instance, format);
                    c.check(diff.empty(), cat(name, " gets ", diff));
                }
                ++received;
                if (inHandler) inHandler();
                g_track = track;
                if (endHow != End::none && received == endAt)
                {
                    if (endHow == End::fail) { expectError = true; throw std::runtime_error{ "handler fails" }; }
                    over = true;
                    if (endHow == End::release) channel.reset();
                    else stopped = true;
                    return false;
                }
                return true;
            }
            catch (const pbt::Failure&) { return false; }
        }

        void error(std::exception_ptr e)
        {
            if (c.failed) return;
            try
            {
                ++errors;
                c.check(e != nullptr, "an error without a reason is reported");
                c.check(!over || (stopped && errors == 1), cat(name, errors > 1 ? " gets an error a second time" : " gets an error after the end"));
                over = true;
                if (releaseOnError) channel.reset();
            }
            catch (const pbt::Failure&) {}
        }

        std::map<std::string, StructP> types;
    };

    void poll(asio::io_context& io) { io.restart(); io.poll(); }

    template <TransmissionFormat F>
    std::pair<std::unique_ptr<Peer>, std::unique_ptr<Peer>> connect(pbt::Ctx& c, asio::io_context& io, PipeP& ab, PipeP& ba, typename Stream<F>::payload_cache_t* cache = nullptr)
    {
        ab = std::make_shared<Pipe>();
        ba = std::make_shared<Pipe>();
        ab->io = ba->io = &io;
        auto a = std::make_unique<Peer>(c, "A", F), b = std::make_unique<Peer>(c, "B", F);
        a->start(dots::io::make_channel<Stream<F>>(SimStream{ ba, ab }, cache));
        b->start(dots::io::make_channel<Stream<F>>(SimStream{ ab, ba }, nullptr));
        return { std::move(a), std::move(b) };
    }

    void transmit(pbt::Ctx& c, Peer& from, const Msg& m)
    {
        // a message that cannot be sent leaves no trace
        if (c.s.chance(1, 16))
        {
            DotsHeader incomplete = m.header;
            incomplete.attributes.reset();
            bool refused = false;
            try { from.channel->transmit(incomplete, **m.instance); } catch (const std::exception&) { refused = true; }
            c.check(refused, "a message without selected properties is sent");
        }
        if (c.s.chance(1, 16))
        {
            DotsMember odd{ .groupName = "odd", .event = static_cast<DotsMemberEvent>(12345) };
            bool refused = false;
            try { if (c.s.boolean()) from.channel->transmit(odd); else from.channel->transmit(dots::io::Transmission{ DotsHeader{ .typeName = "DotsMember", .attributes = odd._validProperties() }, dots::type::AnyStruct{ odd } }); } catch (const std::exception&) { refused = true; }
            c.check(refused, "a message with a value that has no enumerator is sent");
            c.count("refused messages");
        }
        switch (c.s.below(2))
        {
        case 0: from.channel->transmit(m.header, **m.instance); break;
        default: from.channel->transmit(dots::io::Transmission{ DotsHeader{ m.header }, dots::type::AnyStruct{ **m.instance } }); break;
        }
    }

    template <TransmissionFormat F>
    void streamOf(pbt::Ctx& c)
    {
        Types types{ c };
        asio::io_context io{ 1 };
        PipeP ab, ba;
        auto [a, b] = connect<F>(c, io, ab, ba);
        types.registerAt(a->registry);
        types.registerAt(b->registry);
        size_t sent = 0, bigs = 0, partial = 0;
        auto send = [&](Peer& from, Peer& to)
        {
            if (!from.channel) return;
            size_t big = c.s.chance(1, 12) ? static_cast<size_t>(c.s.one<int>({ 1000, 2000, 2048, 3000, 5000, 70000, 300000 }) + c.s.range(-60, 60)) : 0;
            MsgP m = genMsg(c, types, big);
            c.log << "\n  " << from.name << " sends " << show(*m);
            to.expected.push_back(m);
            ++sent;
            bigs += big > 2000;
            transmit(c, from, *m);
        };
        a->inHandler = [&] { if (c.s.chance(1, 12) && sent < 60) send(*a, *b); };
        b->inHandler = [&] { if (c.s.chance(1, 6) && sent < 60) send(*b, *a); };
        if (c.s.chance(1, 4)) { b->endHow = c.s.one<End>({ End::stop, End::release, End::fail }); b->endAt = 1 + c.s.length(12); b->releaseOnError = c.s.boolean(); c.log << "\n  B " << (b->endHow == End::stop ? "stops" : b->endHow == End::release ? "lets go" : "fails") << " at its message " << b->endAt; }
        bool lost = false, cut = false;
        auto amount = [&](size_t all) { return c.s.chance(1, 2) ? all : 1 + c.s.length(c.s.one<size_t>({ 4, 40, 3000 })); };
        auto flow = [&](size_t what)
        {
            Pipe& p = what & 1 ? *ab : *ba;
            if (what & 2) { if (p.canWrite()) { size_t n = 0; for (auto& x : p.wbuf) n += x.size(); size_t k = std::min(n, amount(n)); partial += k < n; c.log << "\n    write " << k; p.doWrite(k); } }
            else if (p.canRead()) { size_t n = p.data.size(), k = std::min(n, amount(n)); partial += k < n; c.log << "\n    read " << k; p.doRead(k); }
            poll(io);
        };
        for (size_t n = 2 + c.s.length(60); n > 0; --n)
        {
            switch (c.s.weighted({ 6, 2, 12 }))
            {
            case 0: send(*a, *b); break;
            case 1: send(*b, *a); break;
            default: flow(c.s.below(4)); break;
            }
            if (c.s.chance(1, 4)) poll(io);
            c.throwIfFailed();
        }
        // how the connection ends
        switch (c.s.below(5))
        {
        case 1:
            c.log << "\n  A lets go of the connection";
            a->channel.reset();
            a->over = true;
            a->expected.clear();
            break;
        case 2:
        {
            // everything not read yet gets lost, except for some bytes
            size_t keep = ab->data.empty() ? 0 : c.s.below(ab->data.size());
            c.log << "\n  the connection breaks, " << keep << " more bytes get through";
            ab->data.resize(keep);
            ba->data.clear();
            ab->broken = ba->broken = true;
            cut = lost = true;
            break;
        }
        case 3:
            c.log << "\n  B lets go of the connection";
            b->channel.reset();
            b->over = true;
            b->expected.clear();
            lost = true;
            break;
        default: break;
        }
        for (size_t i = 0; i < 100000; ++i)
        {
            poll(io);
            bool any = false;
            for (size_t what = 0; what < 4; ++what)
            {
                Pipe& p = what & 1 ? *ab : *ba;
                if (what & 2 ? p.canWrite() : p.canRead()) { any = true; flow(what); }
                c.throwIfFailed();
            }
            poll(io);
            if (!any) break;
        }
        c.throwIfFailed();
        for (Peer* p : { b.get(), a.get() })
        {
            Peer& q = p == a.get() ? *b : *a;
            if (p->expectError) c.check(p->errors == 1, cat(p->name, " gets no error although its handler failed"));
            bool ended = p->stopped || p->endHow == End::release || p->expectError || p->channel == nullptr || (p == b.get() ? ba : ab)->failed;
            if (cut && p->endHow == End::none) c.check(p->errors == 1, cat(p->name, " is not told that the connection broke"));
            if (!ended && !lost) c.check(p->expected.empty(), cat(p->name, " does not get the last ", p->expected.size(), " messages"));
            // the peer finished sending and went away
            if (p == b.get() && q.channel == nullptr && !lost && p->endHow == End::none)
            {
                c.check(p->expected.empty() || ba->failed, "messages sent before the sender let go of the connection are lost");
                c.check(p->errors == 1, "B is not told that A went away");
            }
        }
        c.count("messages", sent);
        c.count("received", a->received + b->received);
        c.count("large messages", bigs);
        c.count("partial reads and writes", partial);
        c.count("errors", a->errors + b->errors);
        c.nontrivial(a->received + b->received >= 2 && partial >= 2);
        // let everything go before the event loop goes
        a->over = b->over = true;
        a->channel.reset();
        b->channel.reset();
        for (auto& p : { ab, ba }) { p->rop.reset(); p->wop.reset(); }
        poll(io);
    }

    void stream(pbt::Ctx& c)
    {
        if (c.s.boolean()) { c.log << "version 1"; streamOf<TransmissionFormat::v1>(c); }
        else { c.log << "version 2"; streamOf<TransmissionFormat::v2>(c); }
    }

    // feeds bytes to a receiver; returns what was delivered
    template <TransmissionFormat F>
    std::unique_ptr<Peer> feed(pbt::Ctx& c, Types& types, const std::vector<uint8_t>& bytes, std::deque<MsgP> intact, const std::vector<size_t>& chunks)
    {
        asio::io_context io{ 1 };
        auto in = std::make_shared<Pipe>(), out = std::make_shared<Pipe>();
        in->io = out->io = &io;
        auto b = std::make_unique<Peer>(c, "B", F);
        types.registerAt(b->registry);
        b->types = types.byName;
        b->damaged = true;
        b->expected = std::move(intact);
        b->start(dots::io::make_channel<Stream<F>>(SimStream{ in, out }, nullptr));
        in->data.assign(bytes.begin(), bytes.end());
        in->writerGone = true;
        size_t i = 0;
        g_live = g_peak = 0;
        while (in->canRead() && !c.failed)
        {
            size_t k = chunks.empty() ? bytes.size() : chunks[i++ % chunks.size()];
            in->doRead(std::max<size_t>(k, 1));
            g_track = true;
            poll(io);
            g_track = false;
        }
        const int64_t limit = 1024 * 1024 + 8192 * static_cast<int64_t>(bytes.size());
        c.throwIfFailed();
        c.check(g_peak <= limit, cat("receiving ", bytes.size(), " bytes reserved ", g_peak, " bytes of memory"));
        b->over = true;
        b->channel.reset();
        in->rop.reset();
        poll(io);
        return b;
    }

    template <TransmissionFormat F>
    void damageOf(pbt::Ctx& c)
    {
        Types types{ c };
        asio::io_context io{ 1 };
        PipeP ab, ba;
        auto [a, b] = connect<F>(c, io, ab, ba);
        types.registerAt(a->registry);
        std::deque<MsgP> sent;
        std::vector<size_t> ends;     // offset behind each message
        auto drain = [&] { poll(io); while (ab->canWrite()) { ab->doWrite(1 << 30); poll(io); } };
        std::vector<size_t> starts;   // of frames
        for (size_t n = 1 + c.s.length(8); n > 0; --n)
        {
            MsgP m = genMsg(c, types, c.s.chance(1, 10) ? 2500 : 0);
            sent.push_back(m);
            c.log << "\n  " << show(*m);
            transmit(c, *a, *m);
            drain();
            ends.push_back(ab->data.size());
        }
        std::vector<uint8_t> bytes(ab->data.begin(), ab->data.end());
        a->over = b->over = true;
        a->channel.reset();
        b->channel.reset();
        ab->rop.reset();
        ba->rop.reset();
        poll(io);

        // where the frames start
        for (size_t p = 0; p + 5 <= bytes.size(); )
        {
            starts.push_back(p);
            if (F == TransmissionFormat::v2) p += 5 + (static_cast<size_t>(bytes[p + 1]) << 24 | static_cast<size_t>(bytes[p + 2]) << 16 | static_cast<size_t>(bytes[p + 3]) << 8 | bytes[p + 4]);
            else
            {
                size_t h = bytes[p] | static_cast<size_t>(bytes[p + 1]) << 8;
                dots::serialization::CborSerializer s;
                std::vector<uint8_t> rest(bytes.begin() + static_cast<ptrdiff_t>(p + 2), bytes.end());
                s.setInput(rest.data(), rest.size());
                DotsTransportHeader t;
                s.deserialize(t);
                c.check(t.payloadSize.isValid() && rest.size() - s.inputAvailable() == h, "a header does not have the announced length");
                p += 2 + h + *t.payloadSize;
            }
            if (p == bytes.size()) break;
            c.check(p < bytes.size(), "a message is shorter than announced");
        }
        size_t at = bytes.size();
        bool lengthDamaged = false;
        switch (c.s.weighted({ 3, 3, 3, 1, 1 }))
        {
        case 0:
            at = c.s.below(bytes.size());
            bytes.resize(at);
            c.log << "\n  ends after " << at << " bytes";
            break;
        case 1:
            at = c.s.below(bytes.size());
            bytes[at] ^= static_cast<uint8_t>(1 << c.s.below(8));
            c.log << "\n  a bit of byte " << at << " changes";
            break;
        case 2:
        {
            // another length
            at = c.s.pick(starts);
            if (F == TransmissionFormat::v2)
            {
                uint32_t n = static_cast<uint32_t>(bytes[at + 1]) << 24 | static_cast<uint32_t>(bytes[at + 2]) << 16 | static_cast<uint32_t>(bytes[at + 3]) << 8 | bytes[at + 4];
                uint32_t x = static_cast<uint32_t>(c.s.chance(1, 3) ? c.s.interestingUint() : static_cast<uint64_t>(n) + static_cast<uint64_t>(c.s.range(-20, 60)));
                if (x == n) ++x;
                c.log << "\n  the message at byte " << at << " with " << n << " bytes announces " << x;
                for (int i = 0; i < 4; ++i) bytes[at + 1 + static_cast<size_t>(i)] = static_cast<uint8_t>(x >> (24 - 8 * i));
            }
            else
            {
                uint16_t n = static_cast<uint16_t>(bytes[at] | bytes[at + 1] << 8);
                uint16_t x = static_cast<uint16_t>(c.s.chance(1, 3) ? c.s.interestingUint() : static_cast<uint64_t>(n) + static_cast<uint64_t>(c.s.range(-20, 60)));
                if (x == n) ++x;
                c.log << "\n  the header at byte " << at << " with " << n << " bytes announces " << x;
                bytes[at] = static_cast<uint8_t>(x);
                bytes[at + 1] = static_cast<uint8_t>(x >> 8);
            }
            lengthDamaged = true;
            break;
        }
        case 3:
        {
            at = c.s.below(bytes.size());
            size_t n = std::min(bytes.size() - at, 1 + c.s.length(20));
            bytes.erase(bytes.begin() + static_cast<ptrdiff_t>(at), bytes.begin() + static_cast<ptrdiff_t>(at + n));
            c.log << "\n  " << n << " bytes are missing at " << at;
            break;
        }
        default:
        {
            at = c.s.below(bytes.size());
            std::vector<uint8_t> junk(1 + c.s.length(20));
            for (auto& x : junk) x = static_cast<uint8_t>(c.s.below(256));
            bytes.insert(bytes.begin() + static_cast<ptrdiff_t>(at), junk.begin(), junk.end());
            c.log << "\n  " << junk.size() << " bytes too many at " << at;
            break;
        }
        }
        // messages in front of the damage
        std::deque<MsgP> intact;
        for (size_t i = 0; i < sent.size() && ends[i] <= at; ++i) intact.push_back(sent[i]);
        const size_t whole = intact.size();
        auto chunks = [&] { std::vector<size_t> r(c.s.below(4)); for (auto& x : r) x = 1 + c.s.length(c.s.one<size_t>({ 4, 40, 3000 })); return r; };
        auto first = feed<F>(c, types, bytes, intact, chunks());
        c.check(first->expected.empty(), "a message sent before the damage is not delivered");
        c.check(first->errors == 1, "the damage or end of the stream is not reported");
        if (lengthDamaged)
        {
            c.check(first->received == whole, "a message with a wrong length is accepted");
        }
        auto second = feed<F>(c, types, bytes, intact, chunks());
        c.check(first->log == second->log, "what is delivered depends on how the stream is split");
        c.count("messages before the damage", whole);
        c.count("messages accepted behind the damage", first->received - whole);
        c.nontrivial(sent.size() >= 2);
    }

    void damage(pbt::Ctx& c)
    {
        if (c.s.boolean()) { c.log << "version 1"; damageOf<TransmissionFormat::v1>(c); }
        else { c.log << "version 2"; damageOf<TransmissionFormat::v2>(c); }
    }

    // one sender, many receivers, a common cache of encoded messages
    template <TransmissionFormat F>
    void broadcastOf(pbt::Ctx& c)
    {
        Types types{ c };
        asio::io_context io{ 1 };
        typename Stream<F>::payload_cache_t cache{ 0, {} };
        struct Conn { PipeP ab, ba; std::unique_ptr<Peer> a, b; };
        std::vector<Conn> conns(1 + c.s.below(4));
        for (auto& k : conns)
        {
            std::tie(k.a, k.b) = connect<F>(c, io, k.ab, k.ba, &cache);
            types.registerAt(k.a->registry);
            types.registerAt(k.b->registry);
        }
        size_t sent = 0, shared = 0;
        auto flow = [&](Conn& k, bool all)
        {
            Pipe& p = *k.ab;
            if (p.canWrite()) { size_t n = 0; for (auto& x : p.wbuf) n += x.size(); p.doWrite(all ? n : 1 + c.s.below(n)); }
            poll(io);
            if (p.canRead()) p.doRead(all ? p.data.size() : 1 + c.s.below(std::max<size_t>(p.data.size(), 1)));
            poll(io);
        };
        std::vector<std::pair<MsgP, std::shared_ptr<dots::io::Transmission>>> old;
        for (size_t n = 1 + c.s.length(25); n > 0; --n)
        {
            MsgP m;
            std::shared_ptr<dots::io::Transmission> t;
            if (!old.empty() && c.s.chance(1, 6)) std::tie(m, t) = c.s.pick(old);
            else
            {
                m = genMsg(c, types);
                t = std::make_shared<dots::io::Transmission>(DotsHeader{ m->header }, dots::type::AnyStruct{ **m->instance });
                old.emplace_back(m, t);
            }
            c.log << "\n  " << show(*m) << " to";
            size_t to = 0;
            for (size_t i = 0; i < conns.size(); ++i)
            {
                Conn& k = conns[i];
                if (c.s.chance(1, 5)) continue;
                c.log << " " << i;
                k.b->expected.push_back(m);
                // another message in between
                if (c.s.chance(1, 8))
                {
                    MsgP x = genMsg(c, types);
                    k.b->expected.insert(k.b->expected.end() - 1, x);
                    c.log << " (with another message " << show(*x) << " before)";
                    transmit(c, *k.a, *x);
                }
                k.a->channel->transmit(*t);
                ++sent;
                ++to;
                if (c.s.chance(1, 4)) flow(k, false);
                c.throwIfFailed();
            }
            shared += to > 1;
            if (c.s.chance(1, 3)) flow(c.s.pick(conns), c.s.boolean());
        }
        for (auto& k : conns)
        {
            for (size_t i = 0; i < 100000 && (k.ab->canWrite() || k.ab->canRead()); ++i) flow(k, true);
            c.throwIfFailed();
            c.check(k.b->expected.empty(), cat("a receiver does not get the last ", k.b->expected.size(), " messages"));
            c.check(k.b->errors == 0 && k.a->errors == 0, "an error is reported on an intact connection");
        }
        c.count("messages", sent);
        c.count("messages to several receivers", shared);
        c.nontrivial(shared >= 2);
        for (auto& k : conns)
        {
            k.a->over = k.b->over = true;
            k.a->channel.reset();
            k.b->channel.reset();
            for (auto& p : { k.ab, k.ba }) { p->rop.reset(); p->wop.reset(); }
        }
        poll(io);
    }

    void broadcast(pbt::Ctx& c)
    {
        if (c.s.boolean()) { c.log << "version 1"; broadcastOf<TransmissionFormat::v1>(c); }
        else { c.log << "version 2"; broadcastOf<TransmissionFormat::v2>(c); }
    }

    // receivers that do not read
    template <TransmissionFormat F>
    void stalledOf(pbt::Ctx& c)
    {
        Types types{ c };
        asio::io_context io{ 1 };
        typename Stream<F>::payload_cache_t cache{ 0, {} };
        struct Conn { PipeP ab, ba; std::unique_ptr<Peer> a, b; size_t refused = 0, accepted = 0; bool slow = false; };
        std::vector<Conn> conns(1 + c.s.below(3));
        for (auto& k : conns)
        {
            std::tie(k.a, k.b) = connect<F>(c, io, k.ab, k.ba, &cache);
            types.registerAt(k.a->registry);
            types.registerAt(k.b->registry);
        }
        constexpr size_t Limit = 10 * 1024 * 1024;
        const size_t big = 600000 + c.s.below(1000000);
        std::vector<MsgP> messages;
        for (size_t i = 0, n = 1 + c.s.below(3); i < n; ++i) messages.push_back(genMsg(c, types, i == 0 ? big : big - c.s.below(1000)));
        const size_t rounds = 3 * Limit / big;
        c.log << "\n  " << rounds << " times in turn";
        for (auto& m : messages) c.log << " " << show(*m);
        auto flow = [&](Conn& k)
        {
            for (size_t i = 0; i < 100000 && (k.ab->canWrite() || k.ab->canRead()); ++i)
            {
                Pipe& p = *k.ab;
                if (p.canWrite()) { size_t n = 0; for (auto& x : p.wbuf) n += x.size(); p.doWrite(n); }
                poll(io);
                if (p.canRead()) p.doRead(p.data.size());
                poll(io);
            }
        };
        for (auto& k : conns) { k.slow = c.s.chance(2, 3); c.log << (k.slow ? " slow" : " fast"); }
        for (size_t n = 0; n < rounds; ++n)
        {
            const MsgP& m = messages[n % messages.size()];
            dots::io::Transmission t{ DotsHeader{ m->header }, dots::type::AnyStruct{ **m->instance } };
            for (auto& k : conns)
            {
                try { k.a->channel->transmit(t); ++k.accepted; k.b->expected.push_back(m); }
                catch (const std::exception&) { ++k.refused; }
                if (!k.slow) flow(k);
                c.throwIfFailed();
            }
        }
        for (auto& k : conns)
        {
            if (!k.slow) { c.check(k.refused == 0, "a message to a receiver that reads is refused"); continue; }
            c.check(k.refused > 0, cat("messages to a receiver that does not read are kept without limit: ", k.accepted, " messages of ", big, " bytes"));
            c.check(k.accepted >= Limit / 2 / big, "messages are refused although little is waiting");
        }
        // what was accepted arrives nevertheless
        for (auto& k : conns)
        {
            flow(k);
            c.throwIfFailed();
            c.check(k.b->expected.empty() && k.b->received == k.accepted, "a message that was accepted for a slow receiver is lost");
            c.check(k.b->errors == 0, "an error is reported for a slow receiver");
        }
        c.nontrivial(true);
        for (auto& k : conns)
        {
            k.a->over = k.b->over = true;
            k.a->channel.reset();
            k.b->channel.reset();
            for (auto& p : { k.ab, k.ba }) { p->rop.reset(); p->wop.reset(); }
        }
        poll(io);
    }

    void stalled(pbt::Ctx& c)
    {
        if (c.s.boolean()) { c.log << "version 1"; stalledOf<TransmissionFormat::v1>(c); }
        else { c.log << "version 2"; stalledOf<TransmissionFormat::v2>(c); }
    }
    // real sockets: a listener and its clients
    void sockets(pbt::Ctx& c)
    {
        static net::Scratch scratch;
        using Clock = std::chrono::steady_clock;
        net::Place place;
        place.kind = static_cast<net::Kind>(c.s.weighted({ 4, 3, 4, 3, 2 }));
        c.log << net::name(place.kind);
        const bool ws = place.kind == net::Kind::ws;
        const TransmissionFormat format = net::isV1(place.kind) ? TransmissionFormat::v1 : TransmissionFormat::v2;
        Types types{ c, ws };
        asio::io_context hostIo{ 1 }, io{ 1 };
        std::vector<dots::io::channel_ptr_t> accepted;
        auto listener = net::makeListener(hostIo, place, scratch);
        std::string listenError;
        listener->asyncAccept(dots::io::Listener::accept_handler_t{ [&](dots::io::Listener&, dots::io::channel_ptr_t k) { accepted.push_back(std::move(k)); return true; } },
            dots::io::Listener::error_handler_t{ [&](dots::io::Listener&, std::exception_ptr e) { try { std::rethrow_exception(e); } catch (const std::exception& x) { listenError = x.what(); } } });
        auto until = [&](const std::function<bool()>& done, const char* what)
        {
            for (auto end = Clock::now() + std::chrono::seconds(30); !done(); )
            {
                hostIo.restart();
                io.restart();
                if (hostIo.poll() + io.poll() == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
                c.throwIfFailed();
                if (Clock::now() > end) c.fail(what);
            }
        };
        struct Conn { std::unique_ptr<Peer> host, client; };
        std::vector<Conn> conns;
        size_t sent = 0, bigs = 0, ends = 0;
        for (size_t n = 1 + c.s.below(3); n > 0; --n)
        {
            Conn k;
            k.host = std::make_unique<Peer>(c, cat("host's connection ", conns.size()), format);
            k.client = std::make_unique<Peer>(c, cat("client ", conns.size()), format);
            types.registerAt(k.host->registry);
            types.registerAt(k.client->registry);
            dots::io::channel_ptr_t channel;
            std::string error;
            std::atomic<bool> done{ false };
            std::thread opener{ [&] { try { channel = net::makeChannel(io, place); } catch (const std::exception& e) { error = e.what(); } done = true; } };
            const size_t before = accepted.size();
            try { until([&] { return done.load() && (channel == nullptr || accepted.size() > before); }, "a client cannot connect"); } catch (...) { opener.join(); throw; }
            opener.join();
            c.check(error.empty(), cat("a client cannot connect: ", error));
            c.check(listenError.empty(), cat("listening fails: ", listenError));
            c.check(accepted.size() == before + 1, "a client is accepted more than once");
            if (!net::isUds(place.kind)) c.check(accepted.back()->remoteEndpoint().host() == "127.0.0.1" && accepted.back()->remoteEndpoint().port() == channel->localEndpoint().port() && channel->remoteEndpoint().port() == place.port, "a connection has wrong endpoints");
            c.check(accepted.back()->remoteEndpoint().scheme() == (ws ? "ws" : net::isUds(place.kind) ? "uds" : "tcp"), "a connection has another kind of endpoint");
            k.host->start(std::move(accepted.back()));
            k.client->start(std::move(channel));
            conns.push_back(std::move(k));
        }
        accepted.clear();
        for (size_t n = 1 + c.s.length(20); n > 0; --n)
        {
            size_t big = c.s.chance(1, 10) ? static_cast<size_t>(c.s.one<int>({ 1000, 2048, 5000, 70000, 1000000 }) + c.s.range(-60, 60)) : 0;
            if (ws && big > 200000) big = 200000;
            if (c.s.chance(1, 8)) { until([&] { return conns[0].host->expected.empty() && conns[0].client->expected.empty(); }, "messages do not arrive"); continue; }
            MsgP m = genMsg(c, types, big);
            bigs += big > 2000;
            c.log << "\n  ";
            if (c.s.boolean())
            {
                size_t i = c.s.below(conns.size());
                if (!conns[i].client->channel) continue;
                if (!conns[i].host->channel) continue;
                c.log << "client " << i << " sends " << show(*m);
                conns[i].host->expected.push_back(m);
                ++sent;
                transmit(c, *conns[i].client, *m);
            }
            else
            {
                c.log << "host sends " << show(*m) << " to";
                dots::io::Transmission t{ DotsHeader{ m->header }, dots::type::AnyStruct{ **m->instance } };
                for (size_t i = 0; i < conns.size(); ++i)
                    if (conns[i].host->channel && conns[i].client->channel && c.s.chance(3, 4)) { c.log << " " << i; conns[i].client->expected.push_back(m); ++sent; conns[i].host->channel->transmit(t); }
            }
            c.throwIfFailed();
            // a connection ends once nothing is under way to its closing end
            if (conns.size() > 1 && c.s.chance(1, 12))
            {
                Conn& k = c.s.pick(conns);
                if (!k.host->channel || !k.client->channel) continue;
                const bool byHost = c.s.boolean();
                Peer& closing = byHost ? *k.host : *k.client;
                Peer& other = byHost ? *k.client : *k.host;
                until([&] { return closing.expected.empty(); }, "messages do not arrive");
                c.log << "\n  " << closing.name << " closes";
                closing.over = true;
                closing.channel.reset();
                until([&] { return other.errors > 0; }, "the end of a connection is not reported");
                c.check(other.expected.empty(), "messages sent before the end of a connection are lost");
                other.channel.reset();
                ++ends;
            }
        }
        for (auto& k : conns)
        {
            if (!k.host->channel || !k.client->channel) continue;
            until([&] { return k.host->expected.empty() && k.client->expected.empty(); }, "messages do not arrive");
            c.check(k.host->errors == 0 && k.client->errors == 0, "an error is reported on an intact connection");
        }
        c.count("messages", sent);
        c.count("large messages", bigs);
        c.count("ended connections", ends);
        c.nontrivial(sent >= 3);
        for (auto& k : conns)
        {
            k.host->over = k.client->over = true;
            k.host->channel.reset();
            k.client->channel.reset();
        }
        for (auto* x : { &hostIo, &io }) { x->restart(); x->poll(); }
        listener.reset();
        for (auto* x : { &hostIo, &io }) { x->restart(); x->poll(); }
    }

    // connecting reports its outcome exactly once, and a channel that was connected works
    template <typename Channel>
    void connectOf(pbt::Ctx& c, net::Kind kind)
    {
        static net::Scratch scratch;
        net::Place place;
        place.kind = kind;
        c.log << net::name(kind);
        asio::io_context io{ 1 };
        Types types{ c };
        std::vector<dots::io::channel_ptr_t> accepted;
        auto listener = net::makeListener(io, place, scratch);
        listener->asyncAccept(dots::io::Listener::accept_handler_t{ [&](dots::io::Listener&, dots::io::channel_ptr_t k) { accepted.push_back(std::move(k)); return true; } }, dots::io::Listener::error_handler_t{ [](dots::io::Listener&, std::exception_ptr) {} });
        auto until = [&](const std::function<bool()>& done, const char* what)
        {
            for (auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20); !done(); )
            {
                io.restart();
                if (io.poll() == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
                c.throwIfFailed();
                if (std::chrono::steady_clock::now() > end) c.fail(what);
            }
        };
        size_t outcomes = 0;
        for (size_t n = 1 + c.s.below(3); n > 0; --n)
        {
            std::string host = place.address, port = place.port;
            bool good = true;
            switch (c.s.below(3))
            {
                case 0: break;
                case 1: port = std::to_string(net::freePort(AF_INET, place.address)); good = port == place.port; break;
                default: port = c.s.one<std::string>({ "x", "1x", "", "70000x" }); good = port == place.port; if (port.empty()) port = "-"; break;
            }
            c.log << "\n  connects to port " << (port == place.port ? "of the listener" : port == std::to_string(std::atoi(port.c_str())) ? "nobody listens on" : port);
            size_t calls = 0;
            boost::system::error_code result;
            const size_t before = accepted.size();
            auto channel = dots::io::make_channel<Channel>(io, std::string_view{ host }, std::string_view{ port }, std::function<void(const boost::system::error_code&)>{ [&](const boost::system::error_code& e) { ++calls; result = e; } });
            c.check(calls == 0, "the outcome is reported before the call returns");
            until([&] { return calls > 0; }, "the outcome of connecting is not reported");
            for (int i = 0; i < 5; ++i) { io.restart(); io.poll(); }
            c.check(calls == 1, "the outcome of connecting is reported twice");
            c.check(!result == good, good ? "connecting fails" : "connecting to nobody succeeds");
            ++outcomes;
            if (!good) continue;
            until([&] { return accepted.size() > before; }, "the connection is not accepted");
            c.check(channel->remoteEndpoint().port() == place.port && accepted.back()->remoteEndpoint().port() == channel->localEndpoint().port(), "a connection has wrong endpoints");
            const TransmissionFormat format = net::isV1(kind) ? TransmissionFormat::v1 : TransmissionFormat::v2;
            Peer a{ c, "client", format }, b{ c, "host", format };
            for (Peer* p : { &a, &b }) types.registerAt(p->registry);
            a.start(std::move(channel));
            b.start(std::move(accepted.back()));
            for (size_t k = 1 + c.s.below(3); k > 0; --k)
            {
                MsgP m = genMsg(c, types);
                b.expected.push_back(m);
                transmit(c, a, *m);
                m = genMsg(c, types);
                a.expected.push_back(m);
                transmit(c, b, *m);
            }
            until([&] { return a.expected.empty() && b.expected.empty(); }, "messages do not arrive");
            a.over = b.over = true;
            a.channel.reset();
            b.channel.reset();
            io.restart();
            io.poll();
        }
        c.count("connection attempts", outcomes);
        c.nontrivial(true);
        accepted.clear();
        listener.reset();
        io.restart();
        io.poll();
    }
    void connecting(pbt::Ctx& c) { if (c.s.boolean()) connectOf<dots::io::v1::TcpChannel>(c, net::Kind::tcp1); else connectOf<dots::io::v2::TcpChannel>(c, net::Kind::tcp2); }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "W14";
    check.rule = "stream: at least two received messages and two partial reads or writes; damage: at least two messages; broadcast: at least two messages to several receivers; stalled: always";
    check.subs = {
        { "stream", stream, 20000, 400000, 60 },
        { "damage", damage, 30000, 600000, 60 },
        { "broadcast", broadcast, 10000, 200000, 60 },
        { "stalled", stalled, 40, 800, 120 },
        { "connect", connecting, 2000, 40000, 60 },
        { "sockets", sockets, 5000, 60000, 60 },
    };
    check.init = init;
    return pbt::run(argc, argv, check);
}
