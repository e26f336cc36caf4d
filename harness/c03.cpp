// C03: all subscribed participants converge to the host's cache.
#include "broker.h"

using namespace broker;

namespace
{
    void finish(pbt::Ctx& c, Broker& b)
    {
        c.count("deliveries", b.deliveries);
        c.count("messages processed by the host", b.hostMessages);
        c.count("messages distributed", b.fanout);
        c.nontrivial(b.hostMessages >= 3 && b.fanout >= 3);
    }

    void history(pbt::Ctx& c)
    {
        Options o;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    void reactions(pbt::Ctx& c)
    {
        Options o;
        o.reactions = true;
        o.maxSteps = 30;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // connections that fail while others are served
    void faults(pbt::Ctx& c)
    {
        Options o;
        o.faults = true;
        o.maxGuests = 4;
        o.open = 5;
        o.subscribe = 8;
        o.publish = 14;
        o.hostPublish = 4;
        o.end = 5;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C03";
    check.rule = "the host processes at least three messages and distributes at least three copies to subscribed guests";
    check.subs = {
        { "history", history, 60000, 1200000, 60 },
        { "faults", faults, 40000, 800000, 60 },
        { "reactions", reactions, 30000, 600000, 60 },
    };
    check.init = silence;
    check.assumptions = { "messages on one connection arrive in order or not at all (a byte stream)" };
    return pbt::run(argc, argv, check);
}
