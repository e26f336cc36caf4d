// C05: disconnecting removes exactly the client's cleanup objects and subscriptions.
#include "broker.h"

using namespace broker;

namespace
{
    void finish(pbt::Ctx& c, Broker& b)
    {
        c.count("ended connections", b.closings);
        c.count("cleaned up objects", b.cleaned);
        c.count("messages distributed", b.fanout);
        c.nontrivial(b.closings >= 1 && b.cleaned >= 1);
    }

    Options base()
    {
        Options o;
        o.flags = { 1 | 8, 1 | 8, 1 | 8, 1, 1 | 8 | 4 };
        o.maxGuests = 4;
        o.open = 5;
        o.publish = 14;
        o.end = 4;
        o.destroyHost = true;
        return o;
    }

    void ends(pbt::Ctx& c)
    {
        Broker b{ c, base() };
        b.run();
        finish(c, b);
    }

    void faults(pbt::Ctx& c)
    {
        Options o = base();
        o.faults = true;
        o.end = 6;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    void returning(pbt::Ctx& c)
    {
        Options o = base();
        o.maxGuests = 2;
        o.open = 8;
        o.reconnect = true;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // handlers of the host react to what happens, also to the removals that the end of a connection causes
    void reactions(pbt::Ctx& c)
    {
        Options o = base();
        o.reactions = true;
        o.cascades = true;
        o.maxSteps = 35;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C05";
    check.rule = "at least one connection ends while it owns at least one object of an auto-cleanup type";
    check.subs = {
        { "ends", ends, 40000, 800000, 60 },
        { "faults", faults, 40000, 800000, 60 },
        { "reactions", reactions, 20000, 400000, 60 },
        { "returning", returning, 20000, 400000, 60 },
    };
    check.init = silence;
    check.assumptions = { "messages on one connection arrive in order or not at all (a byte stream)" };
    return pbt::run(argc, argv, check);
}
