// C06 / C07: collection under packet faults
#include "coll.h"
using namespace sim;

template<int BITS>
static void run_faults(Ctx& c)
{
    const uint8_t mask = BITS == 7 ? 0x7F : 0xFF;
    SizeProfile   sizes;
    sizes.large = c.choose(10) == 9 ? 1 : 0;
    sizes.giant = c.choose(1000) == 999 ? 3 : 0;
    PacketLink link;
    const bool faulty = c.choose(5) != 0;
    if (faulty)
        link.draw_rates(c);
    const uint32_t p_reset = c.pick({ 0u, 0u, 30u }), p_other = c.pick({ 0u, 100u, 300u }), p_weird = c.pick({ 0u, 0u, 60u, 250u });
    const uint32_t p_cb    = c.pick({ 0u, 0u, 0u, 20u });
    const uint8_t  group   = uint8_t(c.choose(16));
    const uint32_t streams = BITS == 8 ? c.pick({ 1u, 2u, 3u }) : 1; // several senders on one collector
    uint8_t        ids[3]  = { uint8_t(c.choose(2) ? c.choose(256) : 0), 0, 0 };
    ids[1]                 = uint8_t(ids[0] + 1 + c.choose(3));
    ids[2]                 = uint8_t(ids[0] ^ 0x80);

    CollRig<BITS>      rig(c);
    std::deque<Packet> q[3]; // in flight per sender
    if (c.choose(4) == 3)
        rig.other.emplace(c.choose(1u << 16));
    if (c.choose(500) == 499) // a long past: many short messages
    {
        const uint32_t n = c.pick({ 130u, 260u, 600u, 5000u, 66000u }), salt = c.choose(1u << 16), form = c.choose(3);
        c.probe("long past");
        for (uint32_t i = 0; i < n; ++i)
        {
            const uint64_t h = mix64((uint64_t(salt) << 32) + i);
            const Msg      m{ uint32_t(1 + h % 126) << 16, Bytes(size_t(form == 0 ? (h >> 8) & 3 : form == 1 ? 14 + ((h >> 8) & 1) : (h >> 8) & 31), uint8_t(h >> 16) & mask) };
            for (auto& p : packetise<BITS>(c, m, group, ids[0], false))
                rig.feed(p);
        }
    }
    Ops                ops(c, c.pick({ 6u, 16u, 40u }), 160);
    bool               more = true;
    while (more)
    {
        more = ops.next();
        if (more)
        {
            const uint32_t s = c.choose(streams);
            auto           v = packetise<BITS>(c, gen_msg(c, mask, sizes), group, ids[s], false);
            v                = link.carry<BITS>(c, std::move(v));
            q[s].insert(q[s].end(), v.begin(), v.end());
        }
        // deliver a while: the scheduler decides which sender's packet comes next
        size_t budget = 0;
        for (auto& x : q)
            budget += x.size();
        if (more && streams > 1 && c.choose(3))
            budget = c.choose(uint32_t(budget + 1)); // the others stay in flight
        const uint32_t dense = budget > 80 ? uint32_t(budget / 40) : 1;
        uint32_t       cur   = 0;
        for (size_t k = 0; k < budget; ++k)
        {
            const bool point = k % dense == 0;
            if (streams > 1 && point)
                cur = c.choose(streams);
            for (uint32_t t = 0; q[cur].empty() && t < 3; ++t)
                cur = (cur + 1) % 3;
            if (q[cur].empty())
                break;
            if (point)
            {
                if (p_reset && c.pm(p_reset))
                {
                    c.fault("reset");
                    rig.reset();
                }
                while (p_other && c.pm(p_other))
                {
                    rig.feed(gen_other_packet(c));
                    c.probe("other packet in between");
                }
                if (p_weird && c.pm(p_weird))
                {
                    rig.feed(gen_frag<BITS>(c, group, ids[c.choose(streams)]));
                    c.fault("stray sysex packet");
                }
                if (p_cb && c.pm(p_cb))
                    rig.set_callback(!rig.callback_set);
            }
            rig.feed(q[cur].front());
            q[cur].pop_front();
            c.advance(256000);
        }
    }
    // healing: the next intact message is reported (checked by the rig)
    rig.set_callback(true);
    const auto before = rig.delivered;
    for (uint32_t n = 0; n < 2; ++n)
        for (auto& p : packetise<BITS>(c, { n ? 0x7D0000u : 0x002109u, Bytes(size_t(5 + 30 * n), uint8_t(n + 3)) }, group, ids[n % streams], false))
            rig.feed(p);
    if (rig.delivered != before + 2)
        c.fail("healing", "%d of 2 intact messages reported after the last fault", int(rig.delivered - before));
    if (rig.delivered > 3 && (c.nfaults() || !faulty))
        c.nontrivial();
}
