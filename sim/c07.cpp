// C07: SysEx8 collection under packet faults never mixes or invents
#include "c06_impl.h"
const Scenario& sim::scenario()
{
    static const Scenario s{ "C07",
                             "simulated packet link with up to three interleaved streams to one SysEx8 collector: loss (single, burst), duplication, reordering, truncation, "
                             "corruption of form, size, stream id, payload and type, stray packets, resets, other message types in between; non-trivial: messages besides the "
                             "closing ones were reported and faults happened (every fifth run is fault free on purpose); distinct by hash of the complete event log",
                             run_faults<8>, 34000, false, "sysex8_collector, send_sysex8", "link, application callbacks",
                             "a run with an incomplete manufacturer ID is reported without data and with any manufacturer" };
    return s;
}
