// Independent model of the dots type system: types, values, generators, and the bridge to dots objects.
#pragma once
#include "pbt.h"
#include <memory>
#include <optional>
#include <dots/type/Registry.h>
#include <dots/type/Struct.h>
#include <dots/type/DynamicStruct.h>

namespace mdl
{
    using dots::type::Type;

    struct EnumT;
    struct StructT;

    struct MType
    {
        Type k = Type::boolean;
        std::shared_ptr<const EnumT> e;
        std::shared_ptr<const StructT> s;
        std::shared_ptr<const MType> elem;
        std::string name() const;
    };
    using TypeP = std::shared_ptr<const MType>;

    struct EnumT
    {
        struct Item { uint32_t tag; std::string name; int32_t value; };
        std::string name;
        std::vector<Item> items;
        const Item& byValue(int32_t v) const;
    };

    struct MProp { std::string name; uint32_t tag = 0; bool key = false; TypeP type; };

    struct StructT
    {
        std::string name;
        uint8_t flags = 1;
        std::vector<MProp> props;
        const MProp* find(uint32_t tag) const { for (auto& p : props) if (p.tag == tag) return &p; return nullptr; }
        uint32_t all() const { uint32_t r = 0; for (auto& p : props) r |= 1u << p.tag; return r; }
        uint32_t keys() const { uint32_t r = 0; for (auto& p : props) if (p.key) r |= 1u << p.tag; return r; }
    };
    using StructP = std::shared_ptr<const StructT>;

    struct MValue
    {
        Type k = Type::boolean;
        uint64_t u = 0;                   // bool, integers (two's complement), property_set, enum value (int32)
        double d = 0;                     // floats, times
        std::string s;                    // string, uuid (16 bytes)
        std::vector<MValue> items;        // vector
        std::map<uint32_t, MValue> fields; // struct
        int64_t i() const { return static_cast<int64_t>(u); }
        uint32_t valid() const { uint32_t r = 0; for (auto& [t, v] : fields) r |= 1u << t; return r; }
    };

    // exact (bitwise for floats) equality
    bool same(const MValue& a, const MValue& b);
    // equality and order as the dots value operations define them (floats compare numerically)
    bool equalValue(const MValue& a, const MValue& b);
    // a type is needed to know declaration order
    bool lessValue(const MValue& a, const MValue& b, const MType& t);
    std::string show(const MValue& v, const MType* t = nullptr);
    std::string show(const StructT& t);
    std::string firstDifference(const MValue& a, const MValue& b, const std::string& path = "");

    inline MValue emptyStruct() { MValue v; v.k = Type::Struct; return v; }
    MValue restrict(const MValue& v, uint32_t set);

    // ---- generation
    struct GenOpts
    {
        unsigned maxDepth = 2;          // nesting of structs
        unsigned maxProps = 8;
        bool steadyTp = true;
        bool finiteFloats = true;
        bool plainTimes = false;        // timepoints within years 1970..2200, ms resolution
        bool nonAsciiText = true;       // arbitrary bytes in strings when rawText, else valid UTF-8
        bool rawText = true;
        bool propertySet = true;
        bool duration = true;
        bool uuid = true;
        bool vectors = true;
        bool structs = true;
        bool negZero = true;
        size_t maxText = 40;
        size_t maxVec = 6;
        unsigned bigVec = 1;            // chance/100 of a long vector/string
        bool dynamicOnlyTypes = false;
    };

    // pool of named types so that names are unique in a case
    struct TypeGen
    {
        pbt::Src& s;
        GenOpts o;
        unsigned counter = 0;
        std::string prefix = "Gen";
        std::vector<StructP> structs;
        std::vector<std::shared_ptr<const EnumT>> enums;

        TypeP type(unsigned depth);
        TypeP keyType();
        std::shared_ptr<const EnumT> enumT();
        StructP structT(unsigned depth, bool needKey = false, std::optional<uint8_t> flags = {});
    };

    std::string genText(pbt::Src& s, const GenOpts& o);
    std::string genUtf8(pbt::Src& s, size_t max);
    double genDouble(pbt::Src& s, const GenOpts& o);
    MValue genValue(pbt::Src& s, const MType& t, const GenOpts& o);
    // all: every property valid; otherwise random subset. keys are always set if withKeys
    MValue genStruct(pbt::Src& s, const StructT& t, const GenOpts& o, bool withKeys = false, bool all = false);
    uint32_t genSubset(pbt::Src& s, uint32_t of);

    // ---- bridge
    // model of an existing descriptor
    TypeP describe(const dots::type::Descriptor<>& d);
    StructP describeStruct(const dots::type::StructDescriptor& d);

    // run-time descriptors for modelled types; keeps everything alive
    struct Dynamic
    {
        std::map<std::string, std::shared_ptr<dots::type::Descriptor<>>> descriptors;
        dots::type::Descriptor<>& get(const MType& t);
        dots::type::Descriptor<dots::type::DynamicStruct>& get(const StructT& t);
        dots::type::Descriptor<>& get(const EnumT& t);
    };

    void write(dots::type::Struct& instance, const StructT& t, const MValue& v);      // sets exactly v's properties, clears the others
    void writeProperty(dots::type::Struct& instance, const MProp& p, const MValue& v);
    void writeTypeless(dots::type::Typeless& storage, const dots::type::Descriptor<>& d, const MType& t, const MValue& v); // storage holds a constructed value
    MValue read(const dots::type::Struct& instance, const StructT& t);
    MValue readTypeless(const dots::type::Typeless& storage, const dots::type::Descriptor<>& d, const MType& t);

    // holder of an instance of a static or dynamic struct type
    struct Instance
    {
        explicit Instance(const dots::type::StructDescriptor& d);
        Instance(const Instance&) = delete;
        ~Instance();
        dots::type::Struct& get() { return *m_p; }
        dots::type::Struct& operator*() { return *m_p; }
        dots::type::Struct* operator->() { return m_p; }
    private:
        const dots::type::StructDescriptor& m_d;
        dots::type::Struct* m_p;
    };
}
