// C04 / C05: packetisation and collection across interleaved groups and streams
#include "coll.h"
using namespace sim;

template<int BITS>
static void run_transfer(Ctx& c)
{
    const uint8_t mask = BITS == 7 ? 0x7F : 0xFF;
    SizeProfile   sizes;
    sizes.large    = c.choose(8) == 7 ? 1 : 0;
    sizes.giant    = c.choose(600) == 599 ? 3 : 0;
    sizes.boundary = c.pick({ 4u, 14u });
    const uint32_t nsend   = 1 + c.choose(4);
    const uint32_t p_other = c.pick({ 0u, 80u, 300u });
    const bool     history = c.choose(3) == 2; // garbage, cut off messages, restarted senders
    const bool     foreign = c.choose(3) == 2; // packets of other implementations, not filled up
    const bool     nest    = c.choose(3) == 2; // senders that start while another is in the middle of its message
    const uint32_t order   = c.choose(3);      // 0: round robin, 1: random, 2: bursts

    struct Sender
    {
        uint8_t            group, stream;
        std::deque<Packet> flight;
    };
    std::vector<Sender> senders;
    for (uint32_t i = 0; i < nsend; ++i)
    {
        Sender s;
        s.group  = uint8_t(c.choose(16));
        s.stream = BITS == 8 ? uint8_t(c.choose(2) ? c.choose(256) : c.choose(3)) : 0;
        // a stream belongs to one sender
        bool dup = true;
        while (dup)
        {
            dup = false;
            for (auto& o : senders)
                if (o.group == s.group && o.stream == s.stream)
                    dup = true;
            if (dup)
                BITS == 8 ? void(++s.stream) : void(s.group = (s.group + 1) & 15);
        }
        senders.push_back(s);
    }
    // the receiver demultiplexes by group (and stream id): one collector each
    struct Port
    {
        std::unique_ptr<CollRig<BITS>> rig;
        std::vector<Msg>               got;
        std::deque<Msg>                expected;
    };
    std::vector<Port> ports(nsend);
    for (uint32_t i = 0; i < nsend; ++i)
    {
        ports[i].rig       = std::make_unique<CollRig<BITS>>(c);
        ports[i].rig->hook = [&c, &ports, &senders, i](const Msg& m, uint8_t id) {
            auto& p = ports[i];
            c.check();
            if (p.expected.empty())
                c.fail("invented", "message %s arrived, none was sent completely", str(m).c_str());
            if (!(p.expected.front() == m))
                c.fail("changed", "message %s arrived, sent was %s", str(m).c_str(), str(p.expected.front()).c_str());
            if (BITS == 8 && id != senders[i].stream)
                c.fail("stream-id", "arrived with stream id %u, sent with %u", id, senders[i].stream);
            p.expected.pop_front();
            p.got.push_back(m);
        };
        ports[i].rig->raw_hook = [&c, &ports, i](const auto& s) { examine(c, s, ports[i].got.back()); };
    }
    uint64_t messages = 0, switches = 0;
    uint32_t last     = 0;
    auto     deliver  = [&](uint32_t s) {
        const Packet p = senders[s].flight.front();
        senders[s].flight.pop_front();
        if (s != last)
            ++switches;
        last = s;
        // demultiplexing by what the packet says
        auto f = decode<BITS>(p);
        read_through_view<BITS>(c, p);
        for (uint32_t i = 0; i < nsend; ++i)
            if (!f || (f->group == senders[i].group && (BITS == 7 || f->stream == senders[i].stream)))
                ports[i].rig->feed(p);
        c.advance(256000);
    };

    Ops  ops(c, c.pick({ 4u, 12u, 30u }), 120);
    bool more = true;
    while (more)
    {
        more = ops.next();
        if (more)
        {
            const uint32_t s   = c.choose(nsend);
            auto&          snd = senders[s];
            if (history && c.choose(3) == 0)
            {
                // the sender was cut off in the middle of an earlier message, or something else was on the line
                const uint32_t what = c.choose(3);
                if (what == 2)
                {
                    // another implementation's packets, not filled up, cut off anywhere (inside the manufacturer ID too)
                    for (uint32_t n = 1 + c.choose(4), k = 0; k < n; ++k)
                    {
                        auto f = *decode<BITS>(gen_frag<BITS>(c, snd.group, snd.stream));
                        f.form = k ? Frag::cont : Frag::start;
                        snd.flight.push_back(encode<BITS>(f));
                    }
                    c.fault("foreign sender cut off");
                }
                else if (what == 1)
                {
                    const Msg cut  = gen_msg(c, mask, sizes);
                    const bool thr = c.choose(2);
                    auto      v    = packetise<BITS>(c, cut, snd.group, snd.stream, true, {}, thr ? 1 + c.choose(5) : SIZE_MAX);
                    if (v.size() > 1 && decode<BITS>(v.back()) && decode<BITS>(v.back())->form != Frag::cont && thr)
                        v.pop_back(); // the transport had no chance to fail
                    if (v.size() > 1)
                    {
                        v.resize(1 + c.choose(uint32_t(std::min<size_t>(v.size() - 1, 2000))));
                        snd.flight.insert(snd.flight.end(), v.begin(), v.end());
                        c.fault("sender cut off");
                    }
                }
                else
                {
                    // stray packets of a message whose start was never seen; must not follow a cut off start
                    const Msg  m   = gen_msg(c, mask);
                    auto       v   = packetise<BITS>(c, m, snd.group, snd.stream);
                    const bool cut = snd.flight.empty() ? ports[s].rig->model.in_run : decode<BITS>(snd.flight.back()) && [&] {
                        auto f = decode<BITS>(snd.flight.back());
                        return f->form == Frag::start || f->form == Frag::cont;
                    }();
                    if (v.size() > 1 && !cut)
                    {
                        v.erase(v.begin());
                        snd.flight.insert(snd.flight.end(), v.begin(), v.end());
                        c.fault("start lost");
                    }
                }
            }
            const Msg m = gen_msg(c, mask, sizes);
            // while a message goes out another sender of the process may start one
            std::function<void()> nested;
            if (nest && c.choose(2))
                nested = [&] {
                    const uint32_t o = c.choose(nsend);
                    if (o == s)
                        return;
                    const Msg x = gen_msg(c, mask);
                    for (auto& p : packetise<BITS>(c, x, senders[o].group, senders[o].stream))
                        senders[o].flight.push_back(p);
                    ports[o].expected.push_back(x);
                    ++messages;
                    c.probe("sends inside sends");
                };
            auto v = foreign && m.data.size() < 5000 && c.choose(2) ? foreign_packets<BITS>(c, m, snd.group, snd.stream)
                                                                    : packetise<BITS>(c, m, snd.group, snd.stream, true, nested);
            snd.flight.insert(snd.flight.end(), v.begin(), v.end());
            ports[s].expected.push_back(m);
            ++messages;
        }
        size_t budget = 0;
        for (auto& s : senders)
            budget += s.flight.size();
        if (more && c.choose(2))
            budget = c.choose(uint32_t(budget + 1));
        const uint32_t dense = budget > 100 ? uint32_t(budget / 50) : 1;
        uint32_t       cur   = c.choose(nsend);
        for (size_t k = 0; k < budget; ++k)
        {
            if (order == 0)
                cur = (cur + 1) % nsend;
            else if (k % dense == 0 && (order == 1 || c.choose(6) == 0))
                cur = c.choose(nsend);
            while (senders[cur].flight.empty())
                cur = (cur + 1) % nsend;
            if (k % dense == 0)
                while (p_other && c.pm(p_other))
                {
                    const Packet o = gen_other_packet(c);
                    read_through_view<BITS>(c, o);
                    for (auto& p : ports)
                        p.rig->feed(o);
                    c.probe("other packet in between");
                }
            deliver(cur);
        }
    }
    for (uint32_t i = 0; i < nsend; ++i)
        if (!ports[i].expected.empty())
            c.fail("lost", "%zu messages never arrived, first %s", ports[i].expected.size(), str(ports[i].expected.front()).c_str());
    c.probe("switches between senders", switches);
    c.probe("messages transferred", messages);
    if (messages >= 2 && (nsend == 1 || switches))
        c.nontrivial();
}
