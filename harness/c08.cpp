// C08: exactly the requested publication leaves a participant.
#include "broker.h"

using namespace broker;

namespace
{
    void finish(pbt::Ctx& c, Broker& b)
    {
        size_t n = 0;
        for (auto& g : b.guests) n += g->publications;
        c.count("publications of guests", n);
        c.count("publications of the host", b.hostPublications);
        c.count("refused publications", b.refused);
        c.count("copies distributed", b.fanout);
        c.nontrivial(n + b.hostPublications >= 3 && b.fanout >= 1);
    }

    Options base()
    {
        Options o;
        o.flags = { 1, 1, 0, 1 | 4 };
        o.maxGuests = 2;
        o.maxSteps = 30;
        o.open = 1;
        o.publish = 16;
        o.remove = 8;
        o.hostPublish = 12;
        o.joinByName = 2;
        o.reject = 6;
        return o;
    }

    void publications(pbt::Ctx& c)
    {
        Broker b{ c, base() };
        b.run();
        finish(c, b);
    }
}

int main(int argc, char** argv)
{
    pbt::Check check;
    check.property = "C08";
    check.rule = "at least three publications leave participants and at least one copy is distributed";
    check.subs = { { "publications", publications, 100000, 2000000, 60 } };
    check.init = silence;
    return pbt::run(argc, argv, check);
}
