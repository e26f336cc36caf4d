// A deterministic in-memory network: every message is delivered when the check says so, and can be lost with its connection.
#pragma once
#include "model.h"
#include <deque>
#include <dots/io/Channel.h>
#include <dots/io/Listener.h>
#include <dots/io/Endpoint.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/type/AnyStruct.h>
#include <DotsMsgError.dots.h>

namespace sim
{
    enum Side { Guest = 0, Host = 1 };
    inline Side peerOf(Side s) { return s == Guest ? Host : Guest; }

    struct Message
    {
        DotsHeader header;
        std::shared_ptr<const dots::type::Descriptor<>> keep;
        std::optional<dots::type::AnyStruct> object;   // as handed to the channel (all its properties); empty for raw bytes
        std::vector<uint8_t> data;
        std::string type() const { return header.typeName.isValid() ? static_cast<std::string>(*header.typeName) : std::string{}; }
    };
    using MessageP = std::shared_ptr<Message>;

    struct SimChannel;

    struct Link
    {
        struct End
        {
            SimChannel* channel = nullptr;
            bool gone = false;       // the channel was destroyed
            bool ready = false;      // a receive is pending
            bool reported = false;   // the end of the connection was reported to this end
            bool fail = false;       // transmitting throws
            std::deque<MessageP> in;
            std::vector<MessageP> sent;
        };
        size_t id = 0;
        End end[2];
        bool cut = false;

        bool deliverable(Side to) const
        {
            const End& e = end[to];
            return e.channel != nullptr && !e.gone && e.ready && !e.reported && (!e.in.empty() || end[peerOf(to)].gone || cut);
        }
    };
    using LinkP = std::shared_ptr<Link>;

    struct SimChannel : dots::io::Channel
    {
        SimChannel(key_t key, LinkP link, Side side, std::string remote = {}) : Channel(key), m_link(std::move(link)), m_side(side)
        {
            std::string guest = remote.empty() ? "sim://guest-" + std::to_string(m_link->id) : remote;
            dots::io::Endpoint h{ "sim://host" }, g{ guest };
            if (side == Host) initEndpoints(h, g);
            else initEndpoints(g, h);
            m_link->end[side].channel = this;
        }

        ~SimChannel() noexcept override
        {
            m_link->end[m_side].gone = true;
            m_link->end[m_side].channel = nullptr;
        }

        // hands the next message (or the end of the connection) to this end
        void feed()
        {
            auto keep = shared_from_this();
            Link::End& e = m_link->end[m_side];
            if (e.in.empty())
            {
                e.reported = true;
                e.ready = false;
                processError("connection closed by peer");
                return;
            }
            MessageP m = e.in.front();
            e.in.pop_front();
            e.ready = false;
            std::optional<dots::io::Transmission> t;
            try
            {
                const dots::type::StructDescriptor* d = registry().findStructType(*m->header.typeName);
                if (d == nullptr) throw std::runtime_error{ "encountered unknown type" };
                dots::type::AnyStruct object{ *d };
                dots::from_cbor(m->data, object.get());
                t.emplace(DotsHeader{ m->header }, std::move(object));
            }
            catch (...)
            {
                e.reported = true;
                processError(std::current_exception());
                return;
            }
            processReceive(std::move(*t));
        }

    protected:
        void asyncReceiveImpl() override { m_link->end[m_side].ready = true; }

        using Channel::transmitImpl;

        void transmitImpl(const DotsHeader& header, const dots::type::Struct& instance) override
        {
            Link::End& me = m_link->end[m_side];
            Link::End& peer = m_link->end[peerOf(m_side)];
            if (me.fail) throw std::runtime_error{ "transmission failed" };
            auto m = std::make_shared<Message>();
            m->header = header;
            m->keep = instance._descriptor().shared_from_this();
            m->object.emplace(instance);
            m->data = dots::to_cbor(instance, *header.attributes);
            me.sent.push_back(m);
            if (!m_link->cut && !peer.gone) peer.in.push_back(m);
        }

    private:
        LinkP m_link;
        Side m_side;
    };

    struct SimListener : dots::io::Listener
    {
        void accept(dots::io::channel_ptr_t channel) { processAccept(std::move(channel)); }
    protected:
        void asyncAcceptImpl() override {}
    };
}
