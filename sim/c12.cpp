// C12: Jitter reduction keeps messages in order and not before their arrival
#include "jr_impl.h"
using namespace sim;

static void run(Ctx& c)
{
    jitter_world(c, { true, false });
}

const Scenario& sim::scenario()
{
    static const Scenario s{ "C12",
                             "sender stamping clock and event messages with its own drifting clock, in-order link with seeded delays, loss and duplication of clock messages, "
                             "receiver stalls, clock steps, resets and offset changes; non-trivial: several clock and several event messages processed; distinct by hash of the complete event log",
                             run, 2000000, false, "jr_clock_follower, jr_timestamp_t, jr_clock_message, jr_timestamp_message", "sender, its clock, link, receiver's clock, user",
                             "link keeps order; clock gaps at most 65535 ticks; first clock message arrives after the follower was constructed" };
    return s;
}
