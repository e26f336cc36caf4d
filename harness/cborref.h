// CBOR encoder and decoder written from RFC 8949 only (no code shared with dots).
#pragma once
#include "model.h"
#include <cmath>
#include <stdexcept>

namespace cborref
{
    struct Item
    {
        enum Kind { Uint, Nint, Bytes, Text, Array, Map, Tag, Simple, Float } k = Uint;
        uint64_t u = 0;      // value, -1-u for Nint, simple value, tag number
        double d = 0;
        int width = 0;       // encoded width of a float in bytes
        std::string s;
        std::vector<Item> items; // Map: key, value, key, value...
    };

    struct Error : std::runtime_error { using runtime_error::runtime_error; };

    struct Decoder
    {
        const uint8_t* p;
        const uint8_t* end;
        size_t depth = 0;

        uint8_t byte() { if (p == end) throw Error{ "truncated" }; return *p++; }

        static double half(uint16_t h)
        {
            int e = (h >> 10) & 0x1f, m = h & 0x3ff;
            double v = e == 0 ? std::ldexp(m, -24) : e != 31 ? std::ldexp(m + 1024, e - 25) : m == 0 ? INFINITY : NAN;
            return h & 0x8000 ? -v : v;
        }

        Item item()
        {
            if (++depth > 10000) throw Error{ "too deep" };
            Item r;
            uint8_t ib = byte();
            int major = ib >> 5, ai = ib & 31;
            uint64_t v = 0;
            int n = 0;
            bool indefinite = false;
            if (ai < 24) v = static_cast<uint64_t>(ai);
            else if (ai < 28) { n = 1 << (ai - 24); for (int i = 0; i < n; ++i) v = v << 8 | byte(); }
            else if (ai == 31 && (major >= 2 && major <= 5)) indefinite = true;
            else throw Error{ "reserved additional information" };

            auto isBreak = [&] { if (p == end) throw Error{ "truncated" }; if (*p == 0xff) { ++p; return true; } return false; };
            switch (major)
            {
                case 0: r.k = Item::Uint; r.u = v; break;
                case 1: r.k = Item::Nint; r.u = v; break;
                case 2: case 3:
                    r.k = major == 2 ? Item::Bytes : Item::Text;
                    if (indefinite)
                    {
                        while (!isBreak())
                        {
                            if ((*p >> 5) != major || (*p & 31) == 31) throw Error{ "bad chunk" };
                            r.s += item().s;
                        }
                    }
                    else
                    {
                        if (v > static_cast<uint64_t>(end - p)) throw Error{ "truncated" };
                        r.s.assign(reinterpret_cast<const char*>(p), v);
                        p += v;
                    }
                    break;
                case 4: case 5:
                {
                    r.k = major == 4 ? Item::Array : Item::Map;
                    if (indefinite) { while (!isBreak()) { r.items.push_back(item()); if (major == 5) r.items.push_back(item()); } }
                    else
                    {
                        if (v > static_cast<uint64_t>(end - p)) throw Error{ "truncated" };
                        for (uint64_t i = 0; i < (major == 4 ? v : 2 * v); ++i) r.items.push_back(item());
                    }
                    break;
                }
                case 6: r.k = Item::Tag; r.u = v; r.items.push_back(item()); break;
                default:
                    if (ai < 24) { r.k = Item::Simple; r.u = v; }
                    else if (ai == 24) { if (v < 32) throw Error{ "ill-formed simple value" }; r.k = Item::Simple; r.u = v; }
                    else
                    {
                        r.k = Item::Float;
                        r.width = n;
                        if (n == 2) r.d = half(static_cast<uint16_t>(v));
                        else if (n == 4) { uint32_t b = static_cast<uint32_t>(v); float f; std::memcpy(&f, &b, 4); r.d = static_cast<double>(f); }
                        else std::memcpy(&r.d, &v, 8);
                    }
            }
            --depth;
            return r;
        }
    };

    struct Encoder
    {
        std::vector<uint8_t> out;

        // w: 0 = shortest, 1 = in-place.., otherwise at least that width index (1: 1 byte, 2: 2, 3: 4, 4: 8)
        void head(int major, uint64_t v, int minWidth = 0)
        {
            int w = v < 24 ? 0 : v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 3 : 4;
            if (minWidth > w) w = minWidth;
            if (w == 0) { out.push_back(static_cast<uint8_t>(major << 5 | static_cast<int>(v))); return; }
            out.push_back(static_cast<uint8_t>(major << 5 | (23 + w)));
            for (int i = (1 << (w - 1)) - 1; i >= 0; --i) out.push_back(static_cast<uint8_t>(v >> (8 * i)));
        }
        void indefinite(int major) { out.push_back(static_cast<uint8_t>(major << 5 | 31)); }
        void brk() { out.push_back(0xff); }
        void text(int major, const std::string& s, int w = 0) { head(major, s.size(), w); out.insert(out.end(), s.begin(), s.end()); }
        void simple(uint8_t v) { if (v < 24) out.push_back(static_cast<uint8_t>(0xe0 | v)); else { out.push_back(0xf8); out.push_back(v); } }
        void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) out.push_back(static_cast<uint8_t>(v >> (8 * i))); }
        void f64(double d) { uint64_t b; std::memcpy(&b, &d, 8); out.push_back(0xfb); be(b, 8); }
        void f32(float f) { uint32_t b; std::memcpy(&b, &f, 4); out.push_back(0xfa); be(b, 4); }
        void f16(uint16_t h) { out.push_back(0xf9); be(h, 2); }
    };

    // half precision bits of a value that is exactly representable, or -1
    inline int toHalf(double d)
    {
        uint16_t sign = std::signbit(d) ? 0x8000 : 0;
        double a = std::fabs(d);
        if (a == 0) return sign;
        if (std::isinf(a)) return sign | 0x7c00;
        int e;
        double m = std::frexp(a, &e); // a = m * 2^e, m in [0.5, 1)
        if (e > 16) return -1;
        if (e >= -13)
        {
            double x = std::ldexp(m, 11); // 11 bit integer if representable
            if (x != std::floor(x)) return -1;
            return sign | ((e + 14) << 10) | (static_cast<int>(x) & 0x3ff);
        }
        double x = std::ldexp(a, 24);
        if (x != std::floor(x)) return -1;
        return sign | static_cast<int>(x);
    }
}
