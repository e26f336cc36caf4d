// U21: endpoint addresses and networks mean what they say.
#include "pbt.h"
#include <dots/io/Endpoint.h>
#include <dots/tools/IpNetwork.h>
#include <dots/tools/Uri.h>
#include <dots/asio.h>
#include <array>
#include <optional>

using dots::io::Endpoint;
using dots::tools::IpNetwork;
using dots::tools::Uri;
using pbt::cat;

namespace
{
    template <typename F>
    bool throws(F f)
    {
        try { f(); return false; } catch (const std::exception&) { return true; }
    }

    // ---- addresses, after RFC 3986 without query and fragment
    struct Parts
    {
        std::string scheme;
        bool slashes = false;      // there is an authority, even if it is empty
        std::optional<std::string> user, password, port;
        std::string host;
        bool ipv6 = false;
        std::string path;

        std::string authority() const
        {
            std::string r;
            if (user) r += *user + (password ? ":" + *password : "") + "@";
            r += ipv6 ? "[" + host + "]" : host;
            if (port) r += ":" + *port;
            return r;
        }
        std::string text() const { return scheme + ":" + (slashes ? "//" + authority() : "") + path; }
    };

    std::string chars(pbt::Src& s, const char* alphabet, size_t min, size_t max)
    {
        std::string_view a{ alphabet };
        std::string r;
        size_t n = min + s.length(max - min);
        for (size_t i = 0; i < n; ++i) r += a[s.below(a.size())];
        return r;
    }

    std::string genScheme(pbt::Src& s)
    {
        if (s.boolean()) return s.one<const char*>({ "tcp", "tcp-v2", "tcp-v1", "uds", "uds-v2", "uds-v1", "ws", "dots" });
        return chars(s, "abxyzT", 1, 1) + chars(s, "abcz09+-.X", 0, 8);
    }
    std::string genUser(pbt::Src& s, bool empty) { return chars(s, "abcz09-._~!$&'()*+,;=%", empty ? 0 : 1, 8); }
    std::string genPassword(pbt::Src& s, bool empty) { return chars(s, "abcz09-._~!$&'()*+,;=%::", empty ? 0 : 1, 8); }
    std::string genPort(pbt::Src& s, bool empty) { return s.boolean() ? std::to_string(s.below(65536)) : chars(s, "0123456789", empty ? 0 : 1, 5); }
    std::pair<std::string, bool> genHost(pbt::Src& s, bool empty)
    {
        switch (s.below(4))
        {
            case 0: return { chars(s, "abcz09-.", empty ? 0 : 1, 12), false };
            case 1: return { cat(s.below(256), ".", s.below(256), ".", s.below(256), ".", s.below(256)), false };
            case 2: return { s.one<const char*>({ "::1", "::", "fe80::1%2", "1080:0:0:0:8:800:200C:417A", "::FFFF:129.144.52.38", "2001:db8::" }), true };
            default: return { s.one<const char*>({ "localhost", "127.0.0.1", "foo.bar", "h", "xn--a", "my_host", "a+b" }), false };
        }
    }
    std::string genPath(pbt::Src& s, bool authority, bool slashes)
    {
        std::string r;
        size_t n = s.length(4);
        for (size_t i = 0; i < n; ++i)
        {
            std::string seg = chars(s, "abcz09-._~%:@!$&'()*+,;=", 0, 6);
            if (s.chance(1, 8)) seg = "x://y";
            if (i == 0 && !authority && s.chance(1, 3)) { r += seg; continue; }
            r += "/" + seg;
        }
        if (authority && !r.empty() && r[0] != '/') r = "/" + r;
        if (!slashes) while (r.substr(0, 2) == "//") r.erase(0, 1);
        return r;
    }

    Parts genAuthority(pbt::Src& s)
    {
        Parts p;
        bool odd = s.chance(1, 5);
        std::tie(p.host, p.ipv6) = genHost(s, odd);
        if (s.boolean())
        {
            p.user = genUser(s, odd);
            if (s.boolean()) p.password = genPassword(s, odd);
        }
        if (s.boolean()) p.port = genPort(s, odd);
        return p;
    }

    Parts genParts(pbt::Src& s)
    {
        Parts p;
        if (s.chance(3, 4))
        {
            p = genAuthority(s);
            p.slashes = true;
            if (s.chance(1, 10)) p = Parts{ .slashes = true };
        }
        p.scheme = genScheme(s);
        p.path = genPath(s, p.slashes, p.slashes);
        return p;
    }

    void compare(pbt::Ctx& c, const Uri& u, const Parts& p, const char* what)
    {
        std::string text{ u.uriStr() };
        auto part = [&](std::string_view got, const std::string& want, const char* name)
        {
            // inside of the address
            if (!got.empty()) c.check(got.data() >= u.uriStr().data() && got.data() + got.size() <= u.uriStr().data() + u.uriStr().size(), cat(what, ": the ", name, " of ", pbt::quote(text), " lies outside of it"));
            c.check(got == want, cat(what, ": the ", name, " of ", pbt::quote(text), " is ", pbt::quote(std::string{ got }), " instead of ", pbt::quote(want)));
        };
        part(u.scheme(), p.scheme, "scheme");
        part(u.userName(), p.user.value_or(""), "user");
        part(u.userPassword(), p.password.value_or(""), "password");
        part(u.host(), p.host, "host");
        part(u.port(), p.port.value_or(""), "port");
        part(u.path(), p.path, "path");
    }

    // the address as it stands has exactly these parts, whether or not empty ones are delimited
    void compareText(pbt::Ctx& c, const Uri& u, Parts p, const char* what)
    {
        compare(c, u, p, what);
        std::string text{ u.uriStr() };
        bool found = false;
        for (int bits = 0; bits < 16 && !found; ++bits)
        {
            Parts q = p;
            if (!q.user.value_or("").empty() || !q.password.value_or("").empty()) q.user = q.user.value_or("");
            else if (bits & 1) q.user = "";
            else q.user.reset();
            if (q.user && q.password.value_or("").empty()) { if (bits & 2) q.password = ""; else q.password.reset(); }
            if (q.port.value_or("").empty()) { if (bits & 4) q.port = ""; else q.port.reset(); }
            if (!q.authority().empty()) q.slashes = true;
            else q.slashes = bits & 8;
            if (q.text() == text) { found = true; c.check(u.authority() == (q.slashes ? q.authority() : ""), cat(what, ": the authority of ", pbt::quote(text), " is ", pbt::quote(std::string{ u.authority() }))); }
        }
        c.check(found, cat(what, ": the parts of ", pbt::quote(p.text()), " became ", pbt::quote(text)));
        Uri again{ text };
        compare(c, again, p, "read again");
    }

    void uri(pbt::Ctx& c)
    {
        Parts p = genParts(c.s);
        std::string text = p.text();
        c.log << text << "\n";
        Uri u{ text };
        c.check(u.uriStr() == text, cat(pbt::quote(text), " became ", pbt::quote(std::string{ u.uriStr() })));
        c.check(u.authority() == (p.slashes ? p.authority() : ""), cat("the authority of ", pbt::quote(text), " is ", pbt::quote(std::string{ u.authority() })));
        compare(c, u, p, "read");
        std::optional<Uri> u2;

        // changes
        size_t steps = c.s.length(10), done = 0;
        for (size_t k = 0; k < steps; ++k)
        {
            std::string before{ u.uriStr() };
            bool thrown = false, refuse = false;
            Parts q = p;
            const char* what = "";
            bool noAuthority = u.authority().empty();
            bool relative = !p.path.empty() && p.path[0] != '/';
            switch (c.s.below(11))
            {
                case 0:
                    what = "scheme";
                    q.scheme = c.s.chance(1, 8) ? "" : genScheme(c.s);
                    refuse = q.scheme.empty();
                    c.log << "scheme " << q.scheme << "\n";
                    thrown = throws([&] { u.setScheme(q.scheme); });
                    break;
                case 1:
                {
                    what = "authority";
                    Parts a = genAuthority(c.s);
                    if (c.s.chance(1, 8)) a = {};
                    q = a;
                    q.scheme = p.scheme;
                    q.path = p.path;
                    refuse = noAuthority && relative;
                    c.log << "authority " << a.authority() << "\n";
                    thrown = throws([&] { u.setAuthority(a.authority()); });
                    break;
                }
                case 2:
                    what = "user";
                    q.user = genUser(c.s, c.s.chance(1, 6));
                    refuse = p.user.value_or("").empty() && p.host.empty();
                    c.log << "user " << *q.user << "\n";
                    thrown = throws([&] { u.setUserName(*q.user); });
                    break;
                case 3:
                    what = "password";
                    q.password = genPassword(c.s, c.s.chance(1, 3));
                    refuse = p.password.value_or("").empty() && p.user.value_or("").empty();
                    c.log << "password " << *q.password << "\n";
                    thrown = throws([&] { u.setUserPassword(*q.password); });
                    break;
                case 4:
                    what = "host";
                    std::tie(q.host, q.ipv6) = genHost(c.s, c.s.chance(1, 6));
                    refuse = noAuthority && relative;
                    c.log << "host " << q.host << "\n";
                    thrown = throws([&] { u.setHost(q.host); });
                    break;
                case 5:
                    what = "port";
                    q.port = genPort(c.s, c.s.chance(1, 3));
                    refuse = p.port.value_or("").empty() && p.host.empty();
                    c.log << "port " << *q.port << "\n";
                    thrown = throws([&] { u.setPort(*q.port); });
                    break;
                case 6:
                {
                    what = "path";
                    bool bad = c.s.chance(1, 8);
                    q.path = bad ? chars(c.s, "abc.", 1, 4) : genPath(c.s, true, !noAuthority);
                    refuse = bad;
                    c.log << "path " << q.path << "\n";
                    thrown = throws([&] { u.setPath(q.path); });
                    break;
                }
                case 7:
                {
                    what = "assignment";
                    q = genParts(c.s);
                    c.log << "assign " << q.text() << "\n";
                    Uri v{ q.text() };
                    if (c.s.boolean()) { u = v; compare(c, v, q, "assigned"); }
                    else u = std::move(v);
                    break;
                }
                case 8:
                {
                    what = "copy";
                    c.log << "copy\n";
                    u2.emplace(u);
                    compare(c, *u2, p, "copy");
                    Uri v{ std::move(*u2) };
                    compare(c, v, p, "moved copy");
                    // is independent
                    v.setScheme("other");
                    break;
                }
                case 9:
                    if (u2) { c.log << "assign itself\n"; what = "self-assignment"; auto& self = u; u = self; }
                    break;
                default:
                {
                    what = "constructor";
                    Parts n;
                    n.scheme = genScheme(c.s);
                    switch (c.s.below(4))
                    {
                        case 0:
                            n.slashes = true;
                            std::tie(n.host, n.ipv6) = genHost(c.s, false);
                            n.port = genPort(c.s, false);
                            u = Uri{ n.scheme, c.s.boolean() && n.ipv6 ? "[" + n.host + "]" : n.host, *n.port };
                            break;
                        case 1:
                        {
                            n.slashes = true;
                            std::tie(n.host, n.ipv6) = genHost(c.s, false);
                            auto port = static_cast<uint16_t>(c.s.below(65536));
                            n.port = std::to_string(port);
                            u = Uri{ n.scheme, n.host, port };
                            break;
                        }
                        case 2:
                            n.path = genPath(c.s, false, false);
                            u = Uri{ n.scheme, n.path };
                            break;
                        default:
                        {
                            n.slashes = true;
                            n.ipv6 = c.s.boolean();
                            n.host = n.ipv6 ? c.s.one<const char*>({ "::1", "::", "2001:db8::1" }) : c.s.one<const char*>({ "127.0.0.1", "0.0.0.0", "1.2.3.4" });
                            auto port = static_cast<uint16_t>(c.s.below(65536));
                            n.port = std::to_string(port);
                            dots::asio::ip::tcp::endpoint e{ dots::asio::ip::make_address(n.host), port };
                            if (c.s.boolean()) { n.scheme = "tcp"; u = Endpoint{ e }; }
                            else u = Endpoint{ n.scheme, e };
                            break;
                        }
                    }
                    q = n;
                    c.log << "create " << q.text() << "\n";
                    break;
                }
            }
            c.check(thrown == refuse, cat("setting the ", what, " of ", pbt::quote(before), thrown ? " was refused" : " was not refused"));
            if (refuse) c.check(u.uriStr() == before, cat("refusing to set the ", what, " of ", pbt::quote(before), " left ", pbt::quote(std::string{ u.uriStr() })));
            else { p = q; ++done; }
            compareText(c, u, p, what);
        }
        c.nontrivial(done >= 2);
    }

    void lists(pbt::Ctx& c)
    {
        std::vector<Parts> want;
        std::string text;
        size_t n = c.s.length(5);
        auto space = [&](size_t min) { size_t k = min + c.s.length(3); return std::string(k, ' '); };
        text += space(0);
        for (size_t i = 0; i < n; ++i)
        {
            if (i) text += space(1);
            want.push_back(genParts(c.s));
            text += want.back().text();
        }
        text += space(0);
        c.log << pbt::quote(text) << "\n";
        auto check = [&](const auto& got)
        {
            c.check(got.size() == want.size(), cat(got.size(), " instead of ", want.size(), " addresses"));
            for (size_t i = 0; i < n; ++i)
            {
                c.check(got[i].uriStr() == want[i].text(), cat("address ", i, " is ", pbt::quote(std::string{ got[i].uriStr() })));
                compare(c, got[i], want[i], "in a list");
            }
        };
        check(Uri::FromStrings(text));
        check(Endpoint::FromStrings(text));
        c.nontrivial(n >= 2);
    }

    // arbitrary text is either refused or taken apart consistently
    void garbage(pbt::Ctx& c)
    {
        std::string text = c.s.boolean() ? genParts(c.s).text() : "";
        size_t n = 1 + c.s.length(12);
        for (size_t i = 0; i < n; ++i)
        {
            size_t at = text.empty() ? 0 : c.s.below(text.size() + 1);
            if (c.s.boolean() && at < text.size()) text.erase(at, 1);
            else text.insert(at, 1, c.s.chance(1, 6) ? static_cast<char>(c.s.below(256)) : ":/@[]a?#% "[c.s.below(10)]);
        }
        c.log << pbt::quote(text) << "\n";
        std::optional<Uri> u;
        if (throws([&] { u.emplace(text); })) { c.count("refused"); c.discard(); }
        c.check(u->uriStr() == text, "the address changed");
        auto inside = [&](std::string_view v) { c.check(v.empty() || (v.data() >= u->uriStr().data() && v.data() + v.size() <= u->uriStr().data() + text.size()), "a part lies outside of the address"); };
        for (auto v : { u->scheme(), u->authority(), u->userName(), u->userPassword(), u->host(), u->port(), u->path() }) inside(v);
        // changes are refused or leave something that can be read again
        Parts p = genAuthority(c.s);
        switch (c.s.below(6))
        {
            case 0: (void)throws([&] { u->setUserName(*(p.user = "x")); }); break;
            case 1: (void)throws([&] { u->setUserPassword("x"); }); break;
            case 2: (void)throws([&] { u->setHost(p.host); }); break;
            case 3: (void)throws([&] { u->setPort("1"); }); break;
            case 4: (void)throws([&] { u->setPath("/x"); }); break;
            default: (void)throws([&] { u->setAuthority(p.authority()); }); break;
        }
        c.nontrivial(!u->authority().empty());
    }

    // ---- networks
    struct Address
    {
        bool v6 = false;
        std::vector<uint8_t> bytes;
        unsigned scope = 0;
        size_t bits() const { return bytes.size() * 8; }
    };

    std::string hex(pbt::Src& s, unsigned v)
    {
        static const char* lower = "0123456789abcdef";
        static const char* upper = "0123456789ABCDEF";
        const char* d = s.boolean() ? lower : upper;
        std::string r;
        for (int i = 12; i >= 0; i -= 4) if (unsigned x = v >> i & 15; x || !r.empty() || i == 0) r += d[x];
        while (r.size() < 4 && s.chance(1, 6)) r = "0" + r;
        return r;
    }

    std::string dotted(const uint8_t* b) { return cat(+b[0], ".", +b[1], ".", +b[2], ".", +b[3]); }

    // one of the notations of the address
    std::string write(pbt::Src& s, const Address& a)
    {
        if (!a.v6) return dotted(a.bytes.data());
        bool v4 = s.chance(1, 4);
        size_t n = v4 ? 6 : 8;
        std::vector<unsigned> g;
        for (size_t i = 0; i < n; ++i) g.push_back(static_cast<unsigned>(a.bytes[2 * i] << 8 | a.bytes[2 * i + 1]));
        // a run of zeros may be left out
        std::vector<std::pair<size_t, size_t>> runs;
        for (size_t i = 0; i < n; ++i)
            for (size_t k = i; k < n && g[k] == 0; ++k) runs.push_back({ i, k + 1 });
        std::string r;
        std::optional<std::pair<size_t, size_t>> cut;
        if (!runs.empty() && s.chance(3, 4)) cut = s.pick(runs);
        for (size_t i = 0; i < n;)
        {
            if (cut && i == cut->first) { r += "::"; i = cut->second; continue; }
            if (!r.empty() && r.back() != ':') r += ":";
            r += hex(s, g[i]);
            ++i;
        }
        if (v4)
        {
            if (r.back() != ':') r += ":";
            r += dotted(a.bytes.data() + 12);
        }
        if (a.scope) r += "%" + std::to_string(a.scope);
        return r;
    }

    Address genAddress(pbt::Src& s, std::optional<bool> v6 = {})
    {
        Address a;
        a.v6 = v6 ? *v6 : s.boolean();
        a.bytes.resize(a.v6 ? 16 : 4);
        switch (s.below(4))
        {
            case 0: break;
            case 1: a.bytes.back() = static_cast<uint8_t>(s.below(256)); break;
            case 2: for (auto& b : a.bytes) b = s.one<uint8_t>({ 0, 0, 1, 128, 255, 127 }); break;
            default: for (auto& b : a.bytes) b = static_cast<uint8_t>(s.below(256)); break;
        }
        if (a.v6 && s.chance(1, 4))
        {
            a.bytes[0] = 0xfe;
            a.bytes[1] = 0x80;
            for (size_t i = 2; i < 8; ++i) a.bytes[i] = 0;
            if (s.boolean()) a.scope = 1 + static_cast<unsigned>(s.below(5));
        }
        return a;
    }

    bool bitsEqual(const Address& a, const Address& b, size_t n)
    {
        for (size_t i = 0; i < n; ++i) if ((a.bytes[i / 8] >> (7 - i % 8) & 1) != (b.bytes[i / 8] >> (7 - i % 8) & 1)) return false;
        return true;
    }

    dots::asio::ip::address asioAddress(const Address& a)
    {
        if (!a.v6)
        {
            std::array<unsigned char, 4> b;
            std::copy(a.bytes.begin(), a.bytes.end(), b.begin());
            return dots::asio::ip::address_v4{ b };
        }
        std::array<unsigned char, 16> b;
        std::copy(a.bytes.begin(), a.bytes.end(), b.begin());
        return dots::asio::ip::address_v6{ b, a.scope };
    }

    struct Net { Address a; size_t prefix; };

    IpNetwork make(pbt::Ctx& c, Net& n)
    {
        std::string text = write(c.s, n.a);
        switch (c.s.below(5))
        {
            case 0: c.log << text << " with prefix " << n.prefix << "\n"; return IpNetwork{ text, static_cast<IpNetwork::prefix_length_t>(n.prefix) };
            case 1: if (n.prefix == n.a.bits()) { c.log << text << "\n"; return IpNetwork{ text }; } break;
            case 2: if (n.prefix == n.a.bits()) { c.log << text << " as an address\n"; return IpNetwork{ asioAddress(n.a) }; } break;
            case 3:
                c.log << text << "/" << n.prefix << " as a network\n";
                if (n.a.v6) return IpNetwork{ IpNetwork::network_t{ dots::asio::ip::network_v6{ asioAddress(n.a).to_v6(), static_cast<unsigned short>(n.prefix) } } };
                return IpNetwork{ IpNetwork::network_t{ dots::asio::ip::network_v4{ asioAddress(n.a).to_v4(), static_cast<unsigned short>(n.prefix) } } };
            default: break;
        }
        c.log << text << "/" << n.prefix << "\n";
        return IpNetwork{ text + "/" + std::to_string(n.prefix) };
    }

    void networks(pbt::Ctx& c)
    {
        Net net;
        net.a = genAddress(c.s);
        net.prefix = c.s.chance(1, 6) ? 0 : c.s.chance(1, 6) ? net.a.bits() : c.s.below(net.a.bits() + 1);
        Net other;
        switch (c.s.below(4))
        {
            case 0: other.a = genAddress(c.s); break;
            case 1:
                // differs in a single bit
                other.a = net.a;
                {
                    size_t bit = c.s.boolean() && net.prefix ? net.prefix - 1 : c.s.boolean() && net.prefix < net.a.bits() ? net.prefix : c.s.below(net.a.bits());
                    other.a.bytes[bit / 8] = static_cast<uint8_t>(other.a.bytes[bit / 8] ^ (128 >> bit % 8));
                }
                break;
            case 2:
                other.a = net.a;
                for (size_t i = net.prefix; i < net.a.bits(); ++i) if (c.s.boolean()) other.a.bytes[i / 8] = static_cast<uint8_t>(other.a.bytes[i / 8] ^ (128 >> i % 8));
                break;
            default: other.a = genAddress(c.s, net.a.v6); break;
        }
        if (!other.a.v6 || other.a.bytes[0] != 0xfe || other.a.bytes[1] != 0x80) other.a.scope = 0;
        else if (c.s.chance(1, 4)) other.a.scope = static_cast<unsigned>(c.s.below(4));
        if (net.a.scope && c.s.boolean()) net.a.scope = 0;
        other.prefix = c.s.boolean() ? other.a.bits() : c.s.boolean() && net.a.v6 == other.a.v6 ? net.prefix : c.s.below(other.a.bits() + 1);

        IpNetwork n = make(c, net);
        IpNetwork o = make(c, other);
        c.check(n.isIpv4() == !net.a.v6 && n.isIpv6() == net.a.v6, "kind of network");
        auto [address, prefix] = n.toPrefixAddress();
        c.check(address == asioAddress(net.a) && prefix == net.prefix, cat("the network became ", n.toString()));
        IpNetwork again{ n.toString() };
        auto [address2, prefix2] = again.toPrefixAddress();
        c.check(address2 == address && prefix2 == prefix, cat("its text ", n.toString(), " is another network: ", again.toString()));

        // an interface of the network confines it
        bool sameKind = net.a.v6 == other.a.v6;
        bool inScope = sameKind && (net.a.scope == 0 || net.a.scope == other.a.scope);
        bool contains = sameKind && inScope && net.prefix <= other.prefix && bitsEqual(net.a, other.a, net.prefix);
        c.check(o.isSubnetOf(n) == contains, cat(o.toString(), contains ? " is" : " is not", " part of ", n.toString(), ", but reported otherwise"));
        bool strict = contains && net.prefix < other.prefix;
        c.check(o.isStrictSubnetOf(n) == strict, cat(o.toString(), strict ? " is" : " is not", " strictly part of ", n.toString(), ", but reported otherwise"));
        c.check(n.isSubnetOf(n) && !n.isStrictSubnetOf(n), "a network is part of itself, but not strictly");
        if (contains) c.count("contained");
        else c.count("not contained");
        c.nontrivial(sameKind && net.prefix > 0);
    }

    void malformed(pbt::Ctx& c)
    {
        Address a = genAddress(c.s);
        a.scope = 0;
        std::string text = write(c.s, a);
        auto prefix = std::to_string(c.s.below(a.bits() + 1));
        bool separate = false;
        int number = 0;
        switch (c.s.below(14))
        {
            case 0: prefix = std::to_string(a.bits() + 1 + c.s.below(1000)); break;
            case 1: prefix = "-" + prefix; break;
            case 2: prefix = ""; break;
            case 3: prefix += c.s.one<const char*>({ "x", " ", "/", ".", "-", "/8" }); break;
            case 4: prefix = c.s.one<const char*>({ " ", "x", "+8", " 8", "0x8", "eight" }); break;
            case 5: prefix = std::to_string((uint64_t{ 1 } << (c.s.boolean() ? 32 : 16)) + c.s.below(a.bits() + 1)); break;
            case 6: text = ""; break;
            case 7: text += c.s.one<const char*>({ ".", ":", " ", "x", "/8", ".1.2.3.4.5", ":1:2:3:4:5:6:7:8:9" }); break;
            case 8: text = c.s.one<const char*>({ " ", ":", "-", "[" }) + text; break;
            case 9: text = c.s.one<const char*>({ "1.2.3", "1.2", "1", "256.1.1.1", "1.2.3.1000", "1.2.3.-4", "1..2.3", "1.2.3.4.5", "0x1.2.3.4", "a.b.c.d", "1,2,3,4" }); prefix = "8"; break;
            case 10: text = c.s.one<const char*>({ "1::2::3", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "12345::", "g::", ":::", ":1", "1:", "::1.2.3", "::1.2.3.256", "1:2:3:4:5:6:7:1.2.3.4", "[::1]", "::1 " }); prefix = "8"; break;
            case 11: text = c.s.one<const char*>({ "localhost", "tcp://1.2.3.4", "*", "any", "1.2.3.4:80", "[::1]:80" }); prefix = "8"; break;
            case 12: text.insert(c.s.below(text.size() + 1), 1, 'g'); break;
            default: separate = true; number = static_cast<int>(a.bits() + 1 + c.s.below(65536 - a.bits() - 1)); break;
        }
        if (separate)
        {
            c.log << pbt::quote(text) << " with prefix " << number << "\n";
            c.check(throws([&] { (void)IpNetwork{ text, static_cast<IpNetwork::prefix_length_t>(number) }; }), cat("the prefix ", number, " was accepted for ", text));
        }
        else
        {
            c.log << pbt::quote(text + "/" + prefix) << "\n";
            c.check(throws([&] { (void)IpNetwork{ text + "/" + prefix }; }), cat(pbt::quote(text + "/" + prefix), " was accepted"));
        }
        c.nontrivial(true);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "U21";
    check.rule = "uri: at least 2 parts were changed; lists: at least 2 addresses; garbage: an authority was found; networks: both of the same kind and a prefix that is not 0; malformed: all";
    check.subs = {
        { "uri", uri, 400000, 6000000 },
        { "lists", lists, 80000, 300000 },
        { "garbage", garbage, 300000, 5000000 },
        { "networks", networks, 300000, 5000000 },
        { "malformed", malformed, 100000, 600000 },
    };
    check.assumptions = { "an authority-less address does not get a path that begins with two slashes; queries and fragments are not told apart from the path" };
    return pbt::run(argc, argv, check);
}
