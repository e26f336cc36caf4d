// JSON reader and writer written from RFC 8259 (independent of the code under test).
#pragma once
#include "pbt.h"
#include <cstdlib>
#include <stdexcept>

namespace jsonref
{
    struct Value
    {
        enum Kind { Null, Bool, Number, String, Array, Object } k = Null;
        bool b = false;
        std::string s;                                      // text of a number, decoded string
        std::vector<Value> items;
        std::vector<std::string> names;                     // of an object's members; their values are the items
        const Value* find(std::string_view n) const { for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return &items[i]; return nullptr; }
    };

    inline bool validUtf8(std::string_view s)
    {
        for (size_t i = 0; i < s.size();)
        {
            unsigned char c = static_cast<unsigned char>(s[i]);
            size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
            if (n == 0 || i + n > s.size()) return false;
            uint32_t cp = n == 1 ? c : c & (0xFFu >> (n + 1));
            for (size_t k = 1; k < n; ++k)
            {
                unsigned char d = static_cast<unsigned char>(s[i + k]);
                if ((d & 0xC0) != 0x80) return false;
                cp = (cp << 6) | (d & 0x3F);
            }
            if ((n == 3 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) || (n == 4 && (cp < 0x10000 || cp > 0x10FFFF))) return false;
            i += n;
        }
        return true;
    }

    inline void appendUtf8(std::string& r, uint32_t c)
    {
        auto a = [&](uint32_t b) { r += static_cast<char>(b); };
        if (c < 0x80) a(c);
        else if (c < 0x800) { a(0xC0 | (c >> 6)); a(0x80 | (c & 0x3f)); }
        else if (c < 0x10000) { a(0xE0 | (c >> 12)); a(0x80 | ((c >> 6) & 0x3f)); a(0x80 | (c & 0x3f)); }
        else { a(0xF0 | (c >> 18)); a(0x80 | ((c >> 12) & 0x3f)); a(0x80 | ((c >> 6) & 0x3f)); a(0x80 | (c & 0x3f)); }
    }

    struct Parser
    {
        std::string_view in;
        size_t p = 0;

        static Value parse(std::string_view text)
        {
            if (!validUtf8(text)) throw std::runtime_error{ "not UTF-8" };
            Parser r{ text };
            r.ws();
            Value v = r.value();
            r.ws();
            if (r.p != text.size()) r.err("text behind the value");
            return v;
        }

        [[noreturn]] void err(const std::string& m) { throw std::runtime_error{ pbt::cat(m, " at offset ", p) }; }
        int peek() { return p < in.size() ? static_cast<unsigned char>(in[p]) : -1; }
        void ws() { while (p < in.size() && (in[p] == ' ' || in[p] == '\t' || in[p] == '\n' || in[p] == '\r')) ++p; }
        void lit(std::string_view l) { if (in.substr(p, l.size()) != l) err("bad literal"); p += l.size(); }

        Value value()
        {
            Value v;
            switch (peek())
            {
                case 'n': lit("null"); return v;
                case 't': lit("true"); v.k = Value::Bool; v.b = true; return v;
                case 'f': lit("false"); v.k = Value::Bool; return v;
                case '"': v.k = Value::String; v.s = string(); return v;
                case '[':
                    v.k = Value::Array; ++p; ws();
                    if (peek() == ']') { ++p; return v; }
                    for (;;)
                    {
                        ws(); v.items.push_back(value()); ws();
                        if (peek() == ',') { ++p; continue; }
                        if (peek() == ']') { ++p; return v; }
                        err("expected , or ]");
                    }
                case '{':
                    v.k = Value::Object; ++p; ws();
                    if (peek() == '}') { ++p; return v; }
                    for (;;)
                    {
                        ws();
                        if (peek() != '"') err("expected a member name");
                        std::string n = string();
                        ws();
                        if (peek() != ':') err("expected :");
                        ++p; ws();
                        if (v.find(n) != nullptr) err("duplicate member " + n);
                        Value m = value();
                        v.names.push_back(std::move(n)); v.items.push_back(std::move(m));
                        ws();
                        if (peek() == ',') { ++p; continue; }
                        if (peek() == '}') { ++p; return v; }
                        err("expected , or }");
                    }
                default: return number();
            }
        }

        Value number()
        {
            size_t b = p;
            auto digit = [&] { return peek() >= '0' && peek() <= '9'; };
            if (peek() == '-') ++p;
            if (peek() == '0') ++p;
            else if (digit()) while (digit()) ++p;
            else err("no value");
            if (peek() == '.') { ++p; if (!digit()) err("bad fraction"); while (digit()) ++p; }
            if (peek() == 'e' || peek() == 'E') { ++p; if (peek() == '+' || peek() == '-') ++p; if (!digit()) err("bad exponent"); while (digit()) ++p; }
            Value v;
            v.k = Value::Number;
            v.s = std::string{ in.substr(b, p - b) };
            return v;
        }

        uint32_t hex4()
        {
            uint32_t r = 0;
            for (int i = 0; i < 4; ++i)
            {
                int c = peek();
                int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                if (d < 0) err("bad \\u escape");
                r = r * 16 + static_cast<uint32_t>(d);
                ++p;
            }
            return r;
        }

        std::string string()
        {
            std::string r;
            ++p;
            for (;;)
            {
                int c = peek();
                if (c < 0) err("unterminated string");
                if (c < 0x20) err("control character in string");
                ++p;
                if (c == '"') return r;
                if (c != '\\') { r += static_cast<char>(c); continue; }
                int e = peek();
                ++p;
                switch (e)
                {
                    case '"': case '\\': case '/': r += static_cast<char>(e); break;
                    case 'b': r += '\b'; break;
                    case 'f': r += '\f'; break;
                    case 'n': r += '\n'; break;
                    case 'r': r += '\r'; break;
                    case 't': r += '\t'; break;
                    case 'u':
                    {
                        uint32_t u = hex4();
                        if (u >= 0xDC00 && u <= 0xDFFF) err("lone surrogate");
                        if (u >= 0xD800 && u <= 0xDBFF)
                        {
                            lit("\\u");
                            uint32_t l = hex4();
                            if (l < 0xDC00 || l > 0xDFFF) err("lone surrogate");
                            u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                        }
                        appendUtf8(r, u);
                        break;
                    }
                    default: err("bad escape");
                }
            }
        }
    };

    // writer with free choice of everything the standard leaves open
    struct Writer
    {
        pbt::Src& s;
        std::string out;
        bool plain = false;

        void ws() { if (plain) return; while (s.chance(1, 3)) out += s.one<char>({ ' ', '\n', '\t', '\r' }); }

        void string(std::string_view t)
        {
            out += '"';
            for (size_t i = 0; i < t.size();)
            {
                unsigned char c = static_cast<unsigned char>(t[i]);
                size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
                uint32_t cp = n == 1 ? c : c & (0xFFu >> (n + 1));
                for (size_t k = 1; k < n; ++k) cp = (cp << 6) | (static_cast<unsigned char>(t[i + k]) & 0x3Fu);
                const char* simple = cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '\n' ? "\\n" : cp == '\r' ? "\\r" : cp == '\t' ? "\\t" : cp == '\b' ? "\\b" : cp == '\f' ? "\\f" : nullptr;
                bool must = cp < 0x20 || cp == '"' || cp == '\\';
                bool u = s.chance(1, 8);
                if (cp == '/' && !u && s.boolean()) out += "\\/";
                else if (simple != nullptr && !u) out += simple;
                else if (must || u)
                {
                    auto unit = [&](uint32_t v)
                    {
                        const char* d = s.boolean() ? "0123456789abcdef" : "0123456789ABCDEF";
                        out += "\\u";
                        for (int k = 12; k >= 0; k -= 4) out += d[(v >> k) & 15];
                    };
                    if (cp >= 0x10000) { unit(0xD800 + ((cp - 0x10000) >> 10)); unit(0xDC00 + ((cp - 0x10000) & 0x3FF)); }
                    else unit(cp);
                }
                else out += t.substr(i, n);
                i += n;
            }
            out += '"';
        }

        void real(double d, bool single)
        {
            char b[64];
            int prec = single ? 9 : 17;
            switch (s.weighted({ 4, 2, 2 }))
            {
                case 0: std::snprintf(b, sizeof b, "%.*g", prec, d); break;
                case 1: std::snprintf(b, sizeof b, "%.*e", prec - 1, d); break;
                default: std::snprintf(b, sizeof b, "%.*E", prec + 2, d); break;
            }
            std::string r = b;
            // %g never writes a leading '.', and "1e+05" is fine for JSON
            out += r;
        }

        // any well-formed value
        void anything(unsigned depth)
        {
            switch (s.weighted({ 2, 2, 3, 3, depth ? 3u : 0u, depth ? 3u : 0u }))
            {
                case 0: out += "null"; break;
                case 1: out += s.boolean() ? "true" : "false"; break;
                case 2: out += s.one<const char*>({ "0", "-1", "17", "1.5", "-2.25e-3", "1E+20", "123456789012345678901234567890", "-0" }); break;
                case 3: { std::string t; size_t n = s.length(10); for (size_t i = 0; i < n; ++i) t += s.one<char>({ 'a', '"', '\\', ',', '}', ']', '{', '[', ':', ' ', '\n' }); string(t); break; }
                case 4:
                {
                    out += '['; ws();
                    size_t n = s.length(4);
                    for (size_t i = 0; i < n; ++i) { if (i) { out += ','; ws(); } anything(depth - 1); ws(); }
                    out += ']';
                    break;
                }
                default:
                {
                    out += '{'; ws();
                    size_t n = s.length(4);
                    for (size_t i = 0; i < n; ++i) { if (i) { out += ','; ws(); } out += pbt::cat("\"m", i, "\""); ws(); out += ':'; ws(); anything(depth - 1); ws(); }
                    out += '}';
                    break;
                }
            }
        }
    };
}
