// C04: SysEx7 messages survive packetisation and collection
#include "c04_impl.h"
const Scenario& sim::scenario()
{
    static const Scenario s{ "C04",
                             "one to four senders on groups of their own, packets interleaved by the seeded scheduler with each other and with every other message type, received by a "
                             "collector per group; cut off senders and lost starts before intact messages; non-trivial: at least two messages and, with several senders, at least one switch "
                             "between them; distinct by hash of the complete event log",
                             run_transfer<7>, 20000, false, "send_sysex7, as_sysex7_packets, sysex7_collector", "link scheduler, application", "" };
    return s;
}
