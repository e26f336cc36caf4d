// C07: admission follows the configured authentication rules.
#include "broker.h"
#include <arpa/inet.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <dots/tools/IpNetwork.h>

using namespace broker;
using pbt::quote;

namespace
{
    struct Address
    {
        bool v6 = false;
        std::array<uint8_t, 16> bytes{};

        size_t bits() const { return v6 ? 128 : 32; }
        void flip(size_t bit) { bytes[bit / 8] ^= static_cast<uint8_t>(0x80 >> (bit % 8)); }
        std::string text() const
        {
            char buffer[INET6_ADDRSTRLEN];
            ::inet_ntop(v6 ? AF_INET6 : AF_INET, bytes.data(), buffer, sizeof buffer);
            return buffer;
        }
        dots::asio::ip::address asio() const
        {
            if (v6) return dots::asio::ip::address_v6{ bytes };
            return dots::asio::ip::address_v4{ std::array<uint8_t, 4>{ bytes[0], bytes[1], bytes[2], bytes[3] } };
        }
    };

    // the first `prefix` bits agree
    bool inside(const Address& a, const Address& net, unsigned prefix)
    {
        if (a.v6 != net.v6) return false;
        for (unsigned i = 0; i < prefix; ++i) if (((a.bytes[i / 8] ^ net.bytes[i / 8]) >> (7 - i % 8)) & 1) return false;
        return true;
    }

    struct Rule
    {
        std::optional<Address> net;     // empty: not a valid address
        std::string netText;
        std::optional<unsigned> prefix;
        std::string name;
        uint16_t priority = 0;
        std::optional<std::string> secret;
        std::optional<bool> accept;

        bool sameKey(const Rule& o) const { return netText == o.netText && prefix == o.prefix && name == o.name && priority == o.priority; }
        bool matches(const Address& a, const std::string& client) const
        {
            return net && prefix && *prefix <= net->bits() && (name.empty() || name == client) && inside(a, *net, *prefix);
        }
        std::string show() const
        {
            return cat(netText, "/", prefix ? std::to_string(*prefix) : "-", name.empty() ? "" : cat(" client ", quote(name)), " priority ", priority, secret ? cat(" secret ", quote(*secret)) : "", accept ? *accept ? " accept" : " refuse" : "");
        }
    };

    struct Rules
    {
        std::vector<Rule> rules;
        std::optional<bool> policy;
        std::vector<std::string> names{ "alice", "bob", "a", "" };
        std::vector<std::string> secrets{ "", "s", "secret", "other" };
        Address base4, base6;

        explicit Rules(pbt::Ctx& c)
        {
            base6.v6 = true;
            for (auto& b : base4.bytes) b = 0;
            for (size_t i = 0; i < 4; ++i) base4.bytes[i] = static_cast<uint8_t>(c.s.below(256));
            base6.bytes = { 0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 };
            if (c.s.boolean()) for (auto& b : base6.bytes) b = static_cast<uint8_t>(c.s.below(256));
        }

        Address genAddress(pbt::Ctx& c)
        {
            Address a;
            const bool v6 = c.s.chance(1, 3);
            a = v6 ? base6 : base4;
            // differs from a known address in some bits close to the end of a prefix
            if (!rules.empty() && c.s.boolean())
            {
                const Rule& r = rules[c.s.below(rules.size())];
                if (r.net)
                {
                    a = *r.net;
                    if (r.prefix && *r.prefix <= a.bits())
                    {
                        size_t p = *r.prefix;
                        switch (c.s.below(4))
                        {
                        case 1: if (p > 0) a.flip(p - 1); break;
                        case 2: if (p < a.bits()) a.flip(p); break;
                        case 3: for (size_t i = p; i < a.bits(); ++i) if (c.s.boolean()) a.flip(i); break;
                        default: break;
                        }
                    }
                    return a;
                }
            }
            for (size_t n = c.s.length(3); n > 0; --n) a.flip(c.s.below(a.bits()));
            return a;
        }

        Rule genRule(pbt::Ctx& c)
        {
            Rule r;
            if (c.s.chance(1, 20)) r.netText = c.s.one<std::string>({ "", "nonsense", "1.2.3", "1.2.3.4/8", "::g" });
            else
            {
                r.net = genAddress(c);
                r.netText = r.net->text();
            }
            const size_t bits = r.net ? r.net->bits() : 32;
            if (!c.s.chance(1, 30)) r.prefix = static_cast<unsigned>(c.s.weighted({ 3, 2, 1 }) == 0 ? c.s.range(0, static_cast<int64_t>(bits)) : c.s.one<size_t>({ bits, 0, bits / 4, bits - 1, bits / 2, bits + 1 }));
            if (c.s.boolean()) r.name = c.s.one<std::string>({ names[0], names[1], names[2] });
            r.priority = static_cast<uint16_t>(c.s.chance(1, 10) ? c.s.one<int>({ 65535, 256, 32768 }) : c.s.range(0, 9));
            content(c, r);
            return r;
        }

        void content(pbt::Ctx& c, Rule& r)
        {
            r.secret.reset();
            r.accept.reset();
            if (c.s.boolean()) r.secret = secrets[c.s.below(secrets.size())];
            if (!c.s.chance(1, 10)) r.accept = !c.s.chance(1, 3);
        }

        // all decisions the rules allow (rules of one priority may be taken in any order)
        std::set<bool> verdicts(const Address& a, const std::string& name, const std::function<bool(const std::string&)>& proves) const
        {
            std::map<uint16_t, std::set<bool>> byPriority;
            for (const Rule& r : rules)
                if (r.matches(a, name) && r.accept && (!r.secret || proves(*r.secret))) byPriority[r.priority].insert(*r.accept);
            if (!byPriority.empty()) return byPriority.begin()->second;
            return { policy.value_or(true) };
        }
    };

    dots::io::Endpoint endpoint(pbt::Ctx& c, const Address& a)
    {
        return dots::io::Endpoint{ c.s.boolean() ? "ws" : "tcp", dots::asio::ip::tcp::endpoint{ a.asio(), static_cast<uint16_t>(c.s.range(1, 65535)) } };
    }

    DotsAuthentication toObject(const Rule& r)
    {
        DotsAuthentication x;
        x.nameSpace = "";
        DotsNetwork n;
        n.network = r.netText;
        if (r.prefix) n.prefix = static_cast<uint8_t>(*r.prefix);
        x.network = n;
        x.clientName = r.name;
        x.priority = r.priority;
        if (r.secret) x.secret = *r.secret;
        if (r.accept) x.accept = *r.accept;
        return x;
    }

    struct Stage
    {
        pbt::Ctx& c;
        Rules model;
        dots::asio::io_context io{ 1 };
        dots::HostTransceiver host;
        size_t changes = 0;

        explicit Stage(pbt::Ctx& c_) : c(c_), model(c_), host("host", io, dots::type::Registry::StaticTypePolicy::InternalOnly, dots::HostTransceiver::transition_handler_t{ [](const dots::Connection&, std::exception_ptr) {} })
        {
            host.setAuthManager<dots::io::LegacyAuthManager>();
        }

        void change()
        {
            ++changes;
            switch (model.rules.empty() ? c.s.weighted({ 8, 0, 0, 2, 1 }) : c.s.weighted({ 8, 4, 2, 2, 1 }))
            {
            case 0:
            {
                Rule r = model.genRule(c);
                c.log << "\n  rule " << r.show();
                for (Rule& o : model.rules) if (o.sameKey(r)) c.discard();
                host.publish(toObject(r));
                model.rules.push_back(r);
                break;
            }
            case 1:
            {
                Rule& r = model.rules[c.s.below(model.rules.size())];
                Rule before = r;
                model.content(c, r);
                dots::property_set_t props = DotsAuthentication::_KeyProperties();
                if (c.s.boolean()) props += DotsAuthentication::secret_p; else r.secret = before.secret;
                if (c.s.chance(3, 4)) props += DotsAuthentication::accept_p; else r.accept = before.accept;
                c.log << "\n  rule becomes " << r.show();
                host.publish(toObject(r), props);
                break;
            }
            case 2:
            {
                size_t i = c.s.below(model.rules.size());
                c.log << "\n  no more rule " << model.rules[i].show();
                host.remove(toObject(model.rules[i]));
                model.rules.erase(model.rules.begin() + static_cast<ptrdiff_t>(i));
                break;
            }
            case 3:
                model.policy = c.s.boolean();
                c.log << "\n  default policy " << (*model.policy ? "accept" : "refuse");
                host.publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = *model.policy });
                break;
            default:
                if (!model.policy) break;
                c.log << "\n  no default policy";
                host.remove(DotsAuthenticationPolicy{ .nameSpace = "" });
                model.policy.reset();
                break;
            }
        }
    };

    // questions to the manager while the rules change
    void rules(pbt::Ctx& c)
    {
        Stage s{ c };
        dots::io::LegacyAuthManager auth{ s.host };
        size_t decided = 0, challenged = 0;
        for (size_t n = 1 + c.s.length(25); n > 0; --n)
        {
            if (c.s.chance(2, 5)) { s.change(); continue; }
            const Address a = s.model.genAddress(c);
            const std::string name = s.model.names[c.s.below(s.model.names.size())];
            dots::io::Endpoint e = endpoint(c, a);
            c.check(e.host() == a.text(), cat("an address is taken for another host: ", a.text(), " becomes ", e.host()));
            const uint64_t nonce = c.s.interestingUint();
            dots::io::Nonce cn{ c.s.interestingUint() };
            std::string cnonce = cn.toString();
            bool asText = c.s.boolean();
            if (asText && c.s.boolean()) cnonce = genText(c.s, GenOpts{});
            std::string response(32, '\0');
            std::string what = "no proof";
            if (c.s.chance(5, 6))
            {
                std::string secret = s.model.secrets[c.s.below(s.model.secrets.size())];
                if (!s.model.rules.empty() && c.s.boolean()) { const Rule& r = s.model.rules[c.s.below(s.model.rules.size())]; if (r.secret) secret = *r.secret; }
                uint64_t n2 = nonce;
                std::string cn2 = cnonce, name2 = name;
                what = cat("proof of ", quote(secret));
                if (c.s.chance(1, 4))
                    switch (c.s.below(4))
                    {
                    case 0: n2 ^= uint64_t{ 1 } << c.s.below(64); what += " for another challenge"; break;
                    case 1: cn2 += "x"; what += " for another client nonce"; break;
                    case 2: name2 += "x"; what += " for another name"; break;
                    default: break;
                    }
                response = proof(n2, cn2, name2, secret);
                if (c.s.chance(1, 8)) { response[c.s.below(32)] ^= static_cast<char>(1 << c.s.below(8)); what += " damaged"; }
            }
            dots::io::Digest::value_t value;
            std::copy(response.begin(), response.end(), value.begin());
            dots::io::Digest digest{ value };
            auto proves = [&](const std::string& secret) { return response == proof(nonce, cnonce, name, secret); };
            std::set<bool> expected = s.model.verdicts(a, name, proves);
            c.log << "\n  client " << quote(name) << " at " << a.text() << " with " << what << ", expected:" << (expected.count(true) ? " admitted" : "") << (expected.count(false) ? " refused" : "");
            bool admitted = asText ? auth.verifyAuthentication(e, name, dots::io::Nonce{ nonce }, std::string_view{ cnonce }, digest) : auth.verifyAuthentication(e, name, dots::io::Nonce{ nonce }, cn, digest);
            c.check(expected.count(admitted) == 1, admitted ? "a client is admitted against the rules" : "a client is refused against the rules");
            if (expected.size() == 1) ++decided;

            // a client that needs a secret gets a challenge, as far as this does not depend on its name
            bool anonymous = true;
            for (const Rule& r : s.model.rules) anonymous = anonymous && r.name.empty();
            if (anonymous && expected.size() == 1)
            {
                std::set<bool> without = s.model.verdicts(a, name, [](const std::string&) { return false; });
                if (*expected.begin() && without.size() == 1 && !*without.begin())
                {
                    ++challenged;
                    c.check(auth.requiresAuthentication(e, name).has_value(), "a client that has to prove a secret is not asked for it");
                }
            }
            if (s.model.rules.empty()) c.check(!auth.requiresAuthentication(e, name).has_value(), "a proof is asked for without any rule");
        }
        c.count("decisions", decided);
        c.count("required challenges", challenged);
        c.count("changes of rules", s.changes);
        c.nontrivial(decided >= 1 && s.changes >= 2);
    }

    // guests connect to a host with rules
    void admission(pbt::Ctx& c)
    {
        Stage s{ c };
        auto listener = std::make_unique<SimListener>();
        SimListener* l = listener.get();
        s.host.listen(std::move(listener));
        struct Client
        {
            std::shared_ptr<Link> link;
            std::unique_ptr<dots::GuestTransceiver> guest;
            bool challenged = false;
        };
        std::vector<Client> clients;
        size_t admitted = 0, refused = 0;
        for (size_t n = 1 + c.s.length(14); n > 0; --n)
        {
            if (c.s.chance(1, 2)) { s.change(); continue; }
            const Address a = s.model.genAddress(c);
            const std::string name = s.model.names[c.s.below(3)];
            std::optional<std::string> secret;
            if (c.s.chance(3, 4)) secret = s.model.secrets[c.s.below(s.model.secrets.size())];
            if (!s.model.rules.empty() && c.s.boolean()) { const Rule& r = s.model.rules[c.s.below(s.model.rules.size())]; if (r.secret) secret = *r.secret; }
            c.log << "\n  client " << quote(name) << " at " << a.text() << (secret ? cat(" with secret ", quote(*secret)) : " without secret");
            Client k;
            k.link = std::make_shared<Link>();
            k.link->id = clients.size();
            std::string remote{ endpoint(c, a).uriStr() };
            l->accept(dots::io::make_channel<SimChannel>(k.link, sim::Host, remote));
            k.guest = std::make_unique<dots::GuestTransceiver>(name, s.io, dots::type::Registry::StaticTypePolicy::InternalOnly, dots::GuestTransceiver::transition_handler_t{ [](const dots::Connection&, std::exception_ptr) {} });
            k.guest->open({}, {}, secret, dots::io::make_channel<SimChannel>(k.link, sim::Guest, "sim://host"));
            auto pump = [&]
            {
                for (bool again = true; again; )
                {
                    again = false;
                    for (Side side : { sim::Guest, sim::Host })
                        if (k.link->deliverable(side)) { k.link->end[side].channel->feed(); again = true; }
                    s.io.restart();
                    if (s.io.poll() > 0) again = true;
                }
            };
            // rules may change between the challenge and the answer
            if (c.s.chance(1, 3))
            {
                if (k.link->deliverable(sim::Guest)) k.link->end[sim::Guest].channel->feed();
                s.change();
            }
            const DotsMsgHello* hello = nullptr;
            for (auto& m : k.link->end[sim::Host].sent) if (m->type() == "DotsMsgHello") hello = &m->object->to<DotsMsgHello>();
            c.check(hello != nullptr, "the host does not greet the client");
            k.challenged = hello->authenticationRequired == true;
            const bool proving = k.challenged && secret.has_value();
            const bool asks = !k.challenged || secret.has_value();
            std::set<bool> expected = s.model.verdicts(a, name, [&](const std::string& x) { return proving && x == *secret; });
            pump();
            bool in = k.guest->connected();
            c.log << (k.challenged ? " challenged" : "") << (in ? " admitted" : " not admitted");
            if (!asks) c.check(!in, "a client is admitted that did not ask for it");
            else c.check(expected.count(in) == 1, in ? "a client is admitted against the rules" : "a client is refused against the rules");
            ++(in ? admitted : refused);
            // the host's side agrees
            const DotsMsgConnectResponse* response = nullptr;
            for (auto& m : k.link->end[sim::Host].sent) if (m->type() == "DotsMsgConnectResponse" && response == nullptr) response = &m->object->to<DotsMsgConnectResponse>();
            if (asks) c.check(response != nullptr && (response->accepted == true) == in, "the host's answer differs from what the client got");
            clients.push_back(std::move(k));
        }
        c.count("admitted clients", admitted);
        c.count("refused clients", refused);
        c.nontrivial(admitted + refused >= 1 && s.changes >= 1);
        for (auto& k : clients) k.guest.reset();
    }

    // proofs and their texts
    void proofs(pbt::Ctx& c)
    {
        const uint64_t nonce = c.s.interestingUint();
        const std::string cnonce = genText(c.s, GenOpts{}), name = genText(c.s, GenOpts{}), secret = genText(c.s, GenOpts{});
        c.log << "challenge " << nonce << ", client nonce " << quote(cnonce) << ", name " << quote(name) << ", secret " << quote(secret);
        auto str = [](const dots::io::Digest& d) { return std::string(d.value().begin(), d.value().end()); };
        dots::io::Nonce n{ nonce };
        const std::string expected = proof(nonce, cnonce, name, secret);
        dots::io::Digest d{ n, cnonce, name, secret };
        c.check(str(d) == expected, "the proof is not the one defined for these inputs");
        c.check(str(dots::io::Digest{ n, cnonce, name, secret }) == expected, "identical inputs give different proofs");
        c.check(d.toString() == toHex(expected), "the text of a proof is wrong");
        c.check(str(dots::io::Digest{ std::string_view{ d.toString() } }) == expected, "the text of a proof does not give the proof again");
        std::string mixed = d.toString();
        for (char& x : mixed) if (c.s.boolean()) x = static_cast<char>(::toupper(x));
        c.check(str(dots::io::Digest{ std::string_view{ mixed } }) == expected, "the text of a proof in upper case does not give the proof again");

        const uint64_t second = c.s.interestingUint();
        dots::io::Nonce n2{ second };
        char hex[17];
        std::snprintf(hex, sizeof hex, "%016llx", static_cast<unsigned long long>(second));
        c.check(n2.toString() == hex, "the text of a nonce is wrong");
        c.check(str(dots::io::Digest{ n, n2, name, secret }) == proof(nonce, hex, name, secret), "a client nonce gives another proof than its text");
        // a text need not end where the nonce ends
        std::string around = hex;
        around += c.s.one<std::string>({ "", "f", "0", " ", "x" });
        std::unique_ptr<char[]> exact(new char[16]);
        std::copy(hex, hex + 16, exact.get());
        c.check(dots::io::Nonce{ std::string_view{ around.data(), 16 } }.value() == second, "the text of a nonce does not give the nonce again");
        c.check(dots::io::Nonce{ std::string_view{ exact.get(), 16 } }.value() == second, "the text of a nonce does not give the nonce again");

        // one different input
        uint64_t nonce2 = nonce;
        std::string cnonce2 = cnonce, name2 = name, secret2 = secret;
        auto vary = [&](std::string& x) { if (x.empty() || c.s.boolean()) x += static_cast<char>(c.s.range(1, 127)); else x[c.s.below(x.size())] ^= static_cast<char>(1 << c.s.below(8)); };
        switch (c.s.below(4))
        {
        case 0: nonce2 ^= uint64_t{ 1 } << c.s.below(64); break;
        case 1: vary(cnonce2); break;
        case 2: vary(name2); break;
        default: vary(secret2); break;
        }
        if (name + "::" + secret != name2 + "::" + secret2 || nonce2 != nonce || cnonce2 != cnonce)
            c.check(str(dots::io::Digest{ dots::io::Nonce{ nonce2 }, cnonce2, name2, secret2 }) != expected, "different inputs give the same proof");
        // texts that are no proofs
        std::string bad = d.toString();
        switch (c.s.below(3))
        {
        case 0: bad[c.s.below(bad.size())] = c.s.one<char>({ 'g', ' ', '-', 'x', '\0' }); break;
        case 1: bad.resize(2 * c.s.below(31) + 1); break;
        default: bad += "00"; break;
        }
        bool rejected = false;
        try { dots::io::Digest x{ std::string_view{ bad } }; } catch (const std::exception&) { rejected = true; }
        catch (const boost::exception&) { rejected = true; }
        c.check(rejected, cat("a text that is no proof is accepted: ", quote(bad)));
        c.nontrivial(!secret.empty() && !name.empty() && !cnonce.empty());
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C07";
    check.rule = "rules: at least one unambiguous decision after at least two changes of rules; admission: at least one connecting client and one rule change; proofs: no empty input";
    check.subs = {
        { "rules", rules, 150000, 3000000, 60 },
        { "admission", admission, 40000, 800000, 60 },
        { "proofs", proofs, 150000, 3000000, 60 },
    };
    check.init = silence;
    check.assumptions = {
        "rules of equal priority may be taken in any order",
        "whether a challenge is needed is only checked for rules that do not depend on the client's name, which the host does not know when it has to decide on it",
    };
    return pbt::run(argc, argv, check);
}
