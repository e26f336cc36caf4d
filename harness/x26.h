// Registration of generated types together with what their model declares (check X26).
#pragma once
#include "model.h"
#include <functional>
#include <dots/type/EnumDescriptor.h>
#include <dots/type/ProxyProperty.h>
#include <dots/type/StaticStruct.h>
#include <dots/type/StructDescriptor.h>

namespace x26
{
    // operations of the type itself instead of those of its descriptor
    struct TypedOps
    {
        struct Compared { bool eq, lt, le, same, opEq, opNe, opLt; uint32_t diff; };
        std::string name;
        uint8_t flags;                                   // of the constants
        size_t size, alignment;
        std::vector<std::string> properties, keys;       // of the tuples
        uint32_t keySet, allSet;
        void (*assign)(dots::type::Struct&, const dots::type::Struct&, dots::types::property_set_t);
        void (*copy)(dots::type::Struct&, const dots::type::Struct&, dots::types::property_set_t);
        void (*merge)(dots::type::Struct&, const dots::type::Struct&, dots::types::property_set_t);
        void (*swap)(dots::type::Struct&, dots::type::Struct&, dots::types::property_set_t);
        void (*clear)(dots::type::Struct&, dots::types::property_set_t);
        uint32_t (*valid)(const dots::type::Struct&);
        Compared (*compare)(const dots::type::Struct&, const dots::type::Struct&, dots::types::property_set_t);
        dots::type::Struct* (*create)();
        dots::type::Struct* (*clone)(const dots::type::Struct&);
        dots::type::Struct* (*moved)(dots::type::Struct&);
        void (*destroy)(dots::type::Struct*);
        const void* (*property)(const dots::type::Struct&, size_t);
    };

    template <typename T>
    TypedOps typed()
    {
        using dots::type::Struct;
        using set_t = dots::types::property_set_t;
        TypedOps r{};
        r.name = T::_Name;
        r.flags = static_cast<uint8_t>(T::_Cached * 1 + T::_Internal * 2 + T::_Persistent * 4 + T::_Cleanup * 8 + T::_Local * 16 + T::_SubstructOnly * 32);
        r.size = sizeof(T);
        r.alignment = alignof(T);
        [&]<typename... P>(std::tuple<P*...>*) { (r.properties.push_back(std::string{ P::Metadata.name() }), ...); }(static_cast<typename T::_properties_t*>(nullptr));
        [&]<typename... P>(std::tuple<P*...>*) { (r.keys.push_back(std::string{ P::Metadata.name() }), ...); }(static_cast<typename T::_key_properties_t*>(nullptr));
        r.keySet = T::_KeyProperties().toValue();
        r.allSet = T::_Properties().toValue();
        r.assign = [](Struct& a, const Struct& b, set_t s) { static_cast<T&>(a)._assign(static_cast<const T&>(b), s); };
        r.copy = [](Struct& a, const Struct& b, set_t s) { static_cast<T&>(a)._copy(static_cast<const T&>(b), s); };
        r.merge = [](Struct& a, const Struct& b, set_t s) { static_cast<T&>(a)._merge(static_cast<const T&>(b), s); };
        r.swap = [](Struct& a, Struct& b, set_t s) { static_cast<T&>(a)._swap(static_cast<T&>(b), s); };
        r.clear = [](Struct& a, set_t s) { static_cast<T&>(a)._clear(s); };
        r.valid = [](const Struct& a) { return static_cast<const T&>(a)._validProperties().toValue(); };
        r.compare = [](const Struct& x, const Struct& y, set_t s)
        {
            const T& a = static_cast<const T&>(x);
            const T& b = static_cast<const T&>(y);
            return TypedOps::Compared{ a._equal(b, s), a._less(b, s), a._lessEqual(b, s), a._same(b), a == b, a != b, a < b, a._diffProperties(b, s).toValue() };
        };
        r.create = []() -> Struct* { return new T; };
        r.clone = [](const Struct& a) -> Struct* { return new T(static_cast<const T&>(a)); };
        r.moved = [](Struct& a) -> Struct* { return new T(std::move(static_cast<T&>(a))); };
        r.destroy = [](Struct* a) { delete static_cast<T*>(a); };
        r.property = [](const Struct& a, size_t i) -> const void*
        {
            const void* p = nullptr;
            size_t k = 0;
            [&]<typename... P>(std::tuple<P*...>*) { ((k++ == i ? void(p = &static_cast<const T&>(a).template _getProperty<P>()) : void()), ...); }(static_cast<typename T::_properties_t*>(nullptr));
            return p;
        };
        return r;
    }

    struct Access
    {
        const void* address;
        const void* value;
        bool isValid;
        const dots::type::PropertyDescriptor& descriptor;
    };

    template <typename P>
    Access access(P& p)
    {
        return { &p, &p.storage(), p.isValid(), p.descriptor() };
    }

    struct StructEntry
    {
        mdl::StructP t;
        const dots::type::StructDescriptor* d;
        Access (*access)(dots::type::Struct&, size_t);
        dots::types::property_set_t (*set)(size_t);
        void (*full)(dots::type::Struct&);
        void (*half)(dots::type::Struct&);
        TypedOps ops;
    };

    struct EnumEntry
    {
        std::shared_ptr<const mdl::EnumT> t;
        const dots::type::EnumDescriptor* d;
        std::vector<int32_t> values;
    };

    struct Registration
    {
        std::vector<StructEntry> structs;
        std::vector<EnumEntry> enums;
    };

    bool add(void (*f)(Registration&));

    inline mdl::TypeP of(dots::type::Type k) { auto r = std::make_shared<mdl::MType>(); r->k = k; return r; }
    inline mdl::TypeP of(std::shared_ptr<mdl::EnumT> e) { auto r = std::make_shared<mdl::MType>(); r->k = dots::type::Type::Enum; r->e = std::move(e); return r; }
    inline mdl::TypeP of(std::shared_ptr<mdl::StructT> s) { auto r = std::make_shared<mdl::MType>(); r->k = dots::type::Type::Struct; r->s = std::move(s); return r; }
    inline mdl::TypeP vec(mdl::TypeP e) { auto r = std::make_shared<mdl::MType>(); r->k = dots::type::Type::Vector; r->elem = std::move(e); return r; }
}
