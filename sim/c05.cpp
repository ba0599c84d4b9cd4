// C05: SysEx8 messages survive packetisation and parallel streams
#include "c04_impl.h"
const Scenario& sim::scenario()
{
    static const Scenario s{ "C05",
                             "one to four senders on streams of their own, packets interleaved by the seeded scheduler with each other and with every other message type, received by a "
                             "collector per stream; cut off senders and lost starts before intact messages; non-trivial: at least two messages and, with several senders, at least one switch "
                             "between them; distinct by hash of the complete event log",
                             run_transfer<8>, 30000, false, "send_sysex8, as_sysex8_packets, sysex8_collector", "link scheduler, application", "" };
    return s;
}
