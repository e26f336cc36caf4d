// Types to exercise: statically generated ones and run-time defined ones.
#pragma once
#include "model.h"
#include <VfAll.dots.h>
#include <VfCleanup.dots.h>
#include <VfColor.dots.h>
#include <VfInner.dots.h>
#include <VfInternal.dots.h>
#include <VfKeys.dots.h>
#include <VfLeaf.dots.h>
#include <VfLocal.dots.h>
#include <VfNoKey.dots.h>
#include <VfPlain.dots.h>
#include <VfSubKey.dots.h>
#include <VfUncached.dots.h>
#include <DotsTransportHeader.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <StructDescriptorData.dots.h>
#include <EnumDescriptorData.dots.h>
#include <DotsClient.dots.h>
#include <DotsMsgConnectResponse.dots.h>

namespace mdl
{
    struct Subject
    {
        StructP t;
        const dots::type::StructDescriptor* d = nullptr;
        bool isDynamic = false;
        std::shared_ptr<Dynamic> dynamic;
        std::vector<StructP> pool;  // all structs generated for it
    };

    inline const std::vector<std::pair<const dots::type::StructDescriptor*, StructP>>& staticTypes()
    {
        static const auto* v = []
        {
            auto* r = new std::vector<std::pair<const dots::type::StructDescriptor*, StructP>>;
            auto add = [&](const dots::type::StructDescriptor& d) { r->emplace_back(&d, describeStruct(d)); };
            add(VfLeaf::_Descriptor());
            add(VfAll::_Descriptor());
            add(VfInner::_Descriptor());
            add(VfKeys::_Descriptor());
            add(VfSubKey::_Descriptor());
            add(DotsTransportHeader::_Descriptor());
            add(StructDescriptorData::_Descriptor());
            add(EnumDescriptorData::_Descriptor());
            add(DotsClient::_Descriptor());
            add(DotsMsgConnectResponse::_Descriptor());
            add(VfNoKey::_Descriptor());
            return r;
        }();
        return *v;
    }

    inline Subject makeDynamic(pbt::Src& s, const GenOpts& o, bool needKey = false, std::optional<uint8_t> flags = {}, const std::string& prefix = "Gen")
    {
        Subject r;
        TypeGen g{ s, o };
        g.prefix = prefix;
        r.t = g.structT(o.maxDepth, needKey, flags);
        r.dynamic = std::make_shared<Dynamic>();
        r.d = &r.dynamic->get(*r.t);
        r.isDynamic = true;
        r.pool = g.structs;
        return r;
    }

    inline Subject genSubject(pbt::Src& s, const GenOpts& o)
    {
        Subject r;
        if (s.chance(1, 2)) return makeDynamic(s, o);
        auto& st = staticTypes();
        size_t i = s.weighted({ 4, 10, 3, 4, 3, 3, 2, 2, 2, 2, 1 });
        r.t = st[i].second;
        r.d = st[i].first;
        return r;
    }
}
