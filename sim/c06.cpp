// C06: SysEx7 collection under packet faults never invents a message
#include "c06_impl.h"
const Scenario& sim::scenario()
{
    static const Scenario s{ "C06",
                             "simulated packet link to one SysEx7 collector: loss (single, burst), duplication, reordering, truncation, corruption of form, size, payload and type, "
                             "stray packets, resets, other message types in between; non-trivial: messages besides the closing ones were reported and faults happened "
                             "(every fifth run is fault free on purpose); distinct by hash of the complete event log",
                             run_faults<7>, 24000, false, "sysex7_collector, send_sysex7, as_sysex7_packets", "link, application callbacks",
                             "corruption keeps SysEx7 payload bytes 7 bit; a run with an incomplete manufacturer ID is reported without data and with any manufacturer" };
    return s;
}
