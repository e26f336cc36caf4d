// C09: the host answers every service request completely and precisely.
#include "broker.h"

using namespace broker;

namespace
{
    void finish(pbt::Ctx& c, Broker& b)
    {
        c.count("echoes", b.echoes);
        c.count("description requests", b.describes);
        c.count("descriptions", b.descriptions);
        c.count("clear requests", b.clears);
        c.count("cleared objects", b.cleared);
        c.count("leaves", b.leaves);
        c.nontrivial(b.echoes + b.describes + b.clears + b.leaves >= 2 && (b.descriptions > 0 || b.cleared > 0));
    }

    void services(pbt::Ctx& c)
    {
        Options o;
        o.leave = 4;
        o.echo = 3;
        o.describe = 5;
        o.clear = 5;
        o.maxSteps = 40;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }

    // handlers of the host react to what happens, also to the removals that a request causes
    void reactions(pbt::Ctx& c)
    {
        Options o;
        o.echo = 1;
        o.describe = 1;
        o.clear = 8;
        o.reactions = true;
        o.cascades = true;
        o.maxSteps = 35;
        Broker b{ c, o };
        b.run();
        finish(c, b);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C09";
    check.rule = "the host processes at least two service requests that lead to a description or a cleared object";
    check.subs = {
        { "services", services, 90000, 1800000, 60 },
        { "reactions", reactions, 20000, 400000, 60 },
    };
    check.init = silence;
    check.assumptions = { "messages on one connection arrive in order or not at all (a byte stream)" };
    return pbt::run(argc, argv, check);
}
