// C22: a receiver following a performance through the library's message types has the state the messages describe
#include "world.h"
#include <cmath>
#include <map>
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
using namespace sim;

namespace {

//! MIDI 2.0 bit scaling, written from the specification
uint32_t upscale(uint32_t v, unsigned from, unsigned to)
{
    const uint32_t centre = 1u << (from - 1);
    uint32_t       r      = v << (to - from);
    if (v <= centre)
        return r;
    const unsigned k = from - 1;
    for (unsigned i = 0; i < to - from; ++i)
        r |= ((v >> (k - 1 - (i % k))) & 1) << (to - from - 1 - i);
    return r;
}

enum Kind
{
    note_off,
    note_on,
    poly_pressure,
    control,
    program,
    pressure,
    bend,
    note_off2, // from here on MIDI 2
    note_on2,
    note_on_pitch,
    note_on_attr,
    poly_pressure2,
    reg_per_note,
    ass_per_note,
    note_management,
    control2,
    reg_control,
    ass_control,
    rel_reg_control,
    rel_ass_control,
    program2,
    program_bank,
    pressure2,
    bend2,
    note_bend,
    system_msg, // from here on not channel voice
    song_position,
    utility,
    tempo,
    time_signature,
    metronome,
    key_signature,
    chord,
    text,
    kinds
};
const char* const kind_names[] = { "MIDI 1 note off",          "MIDI 1 note on",          "MIDI 1 poly pressure",    "MIDI 1 control change", "MIDI 1 program change",
                                   "MIDI 1 channel pressure",  "MIDI 1 pitch bend",       "note off",                "note on",               "note on with pitch",
                                   "note on with attribute",   "poly pressure",           "registered per note controller", "assignable per note controller", "per note management",
                                   "control change",           "registered controller",   "assignable controller",   "relative registered controller", "relative assignable controller",
                                   "program change",           "program change with bank", "channel pressure",       "pitch bend",            "per note pitch bend",
                                   "system message",           "song position",           "utility message",         "set tempo",             "set time signature",
                                   "set metronome",            "set key signature",       "set chord",               "text" };

struct Op
{
    Kind        kind = note_on;
    uint8_t     g = 0, ch = 0;
    uint8_t     a = 0, b = 0;     // note, controller, bank / index, attribute, status
    uint32_t    v = 0, w = 0, x = 0;
    uint8_t     address = 0;      // flex data
    uint8_t     form = 0;
    bool        brief = false;    // made with as few arguments as possible
    std::string s;
};

//! the words the specification wants for it
void reference(const Op& o, uint32_t (&r)[4])
{
    std::fill(r, r + 4, 0u);
    auto cv1 = [&](uint32_t st, uint32_t d1, uint32_t d2) { r[0] = 0x20000000u | (uint32_t(o.g) << 24) | (st << 20) | (uint32_t(o.ch) << 16) | (d1 << 8) | d2; };
    auto cv2 = [&](uint32_t st, uint32_t b3, uint32_t b4, uint32_t d) {
        r[0] = 0x40000000u | (uint32_t(o.g) << 24) | (st << 20) | (uint32_t(o.ch) << 16) | (b3 << 8) | b4;
        r[1] = d;
    };
    auto flex = [&](uint32_t bank, uint32_t st) {
        r[0] = 0xD0000000u | (uint32_t(o.g) << 24) | (uint32_t(o.form) << 22) | (uint32_t(o.address) << 20) | (uint32_t(o.ch) << 16) | (bank << 8) | st;
    };
    switch (o.kind)
    {
    case note_off: cv1(8, o.a, o.v >> 9); break;
    case note_on: cv1(9, o.a, o.v >> 9); break;
    case poly_pressure: cv1(10, o.a, o.v >> 25); break;
    case control: cv1(11, o.a, o.v >> 25); break;
    case program: cv1(12, o.a, 0); break;
    case pressure: cv1(13, o.v >> 25, 0); break;
    case bend: cv1(14, (o.v >> 18) & 0x7F, o.v >> 25); break;
    case note_off2: cv2(8, o.a, o.b, (o.v << 16) | o.w); break;
    case note_on2: cv2(9, o.a, 0, o.v << 16); break;
    case note_on_pitch: cv2(9, o.a, 3, (o.v << 16) | o.w); break;
    case note_on_attr: cv2(9, o.a, o.b, (o.v << 16) | o.w); break;
    case poly_pressure2: cv2(10, o.a, 0, o.v); break;
    case reg_per_note: cv2(0, o.a, o.b, o.v); break;
    case ass_per_note: cv2(1, o.a, o.b, o.v); break;
    case note_management: cv2(15, o.a, o.b, 0); break;
    case control2: cv2(11, o.a, 0, o.v); break;
    case reg_control: cv2(2, o.a, o.b, o.v); break;
    case ass_control: cv2(3, o.a, o.b, o.v); break;
    case rel_reg_control: cv2(4, o.a, o.b, o.v); break;
    case rel_ass_control: cv2(5, o.a, o.b, o.v); break;
    case program2: cv2(12, 0, 0, uint32_t(o.a) << 24); break;
    case program_bank: cv2(12, 0, 1, (uint32_t(o.a) << 24) | ((o.v >> 7) << 8) | (o.v & 0x7F)); break;
    case pressure2: cv2(13, 0, 0, o.v); break;
    case bend2: cv2(14, 0, 0, o.v); break;
    case note_bend: cv2(6, o.a, 0, o.v); break;
    case system_msg: r[0] = 0x10000000u | (uint32_t(o.g) << 24) | (uint32_t(o.a) << 16) | ((o.v & 0x7F) << 8) | (o.v >> 7); break;
    case song_position: r[0] = 0x10F20000u | (uint32_t(o.g) << 24) | ((o.v & 0x7F) << 8) | (o.v >> 7); break;
    case utility: r[0] = (uint32_t(o.a) << 16) | o.v; break;
    case tempo: flex(0, 0), r[1] = o.v; break;
    case time_signature: flex(0, 1), r[1] = o.v << 8; break;
    case metronome: flex(0, 2), r[1] = o.v, r[2] = o.w << 16; break;
    case key_signature: flex(0, 5), r[1] = o.v << 24; break;
    case chord: flex(0, 6), r[1] = o.v, r[2] = o.w, r[3] = o.x; break;
    case text:
        flex(o.a, o.b);
        for (size_t i = 0; i < o.s.size(); ++i)
            r[1 + i / 4] |= uint32_t(uint8_t(o.s[i])) << (24 - 8 * (i % 4));
        break;
    default: break;
    }
}

//! the sender's side
Packet make(const Op& o)
{
    const midi::velocity         vel{ midi::uint16_t(o.v) };
    const midi::controller_value val{ midi::uint32_t(o.v) };
    const midi::pitch_bend       pb{ midi::uint32_t(o.v) };
    const auto                   adr = midi::packet_address(o.address);
    if (o.brief)
        switch (o.kind)
        {
        case note_off:
            if (o.v == 0x8000)
                return midi::make_midi1_note_off_message(o.g, o.ch, o.a);
            break;
        case note_off2:
            if (!o.w)
                return o.b ? midi::make_midi2_note_off_message(o.g, o.ch, o.a, vel, o.b) : midi::make_midi2_note_off_message(o.g, o.ch, o.a, vel);
            break;
        case program: return o.v ? midi::make_midi1_channel_voice_message(o.g, 0xC0, o.ch, o.a) : Packet(midi::midi1_channel_voice_message(o.g, midi::status_t(0xC0 | o.ch), o.a));
        case note_on: return midi::make_midi1_channel_voice_message(o.g, midi::channel_voice_status::note_on, o.ch, o.a, vel.as_uint7());
        case control: return midi::midi1_channel_voice_message(o.g, midi::status_t(midi::midi1_channel_voice_status::control_change | o.ch), o.a, val.as_uint7());
        case system_msg:
            if (!o.v && !(o.g & 1))
                return midi::system_message(o.g, o.a);
            if (!(o.v >> 7))
                return o.v ? midi::make_system_message(o.g, o.a, midi::uint7_t(o.v)) : midi::make_system_message(o.g, o.a);
            break;
        case utility:
            if (!o.v)
                return o.a ? midi::utility_message(o.a) : midi::utility_message();
            return midi::utility_message(o.a, midi::uint16_t(o.v));
        case tempo: return midi::make_flex_data_message(o.g, midi::packet_format::complete, adr, o.ch, 0, 0, o.v);
        case metronome: return midi::make_flex_data_message(o.g, midi::packet_format::complete, adr, o.ch, 0, 2, o.v, o.w << 16);
        case chord: return midi::flex_data_message(o.g, midi::packet_format::complete, adr, o.ch, 0, 6, o.v, o.w, o.x);
        case text:
            if (o.s.empty())
                return midi::make_flex_data_message(o.g, midi::packet_format(o.form), adr, o.ch, o.a, o.b);
            break;
        default: break;
        }
    switch (o.kind)
    {
    case note_off: return midi::make_midi1_note_off_message(o.g, o.ch, o.a, vel);
    case note_on: return midi::make_midi1_note_on_message(o.g, o.ch, o.a, vel);
    case poly_pressure: return midi::make_midi1_poly_pressure_message(o.g, o.ch, o.a, val);
    case control: return midi::make_midi1_control_change_message(o.g, o.ch, o.a, val);
    case program: return midi::make_midi1_program_change_message(o.g, o.ch, o.a);
    case pressure: return midi::make_midi1_channel_pressure_message(o.g, o.ch, val);
    case bend: return midi::make_midi1_pitch_bend_message(o.g, o.ch, pb);
    case note_off2: return midi::make_midi2_note_off_message(o.g, o.ch, o.a, vel, o.b, midi::uint16_t(o.w));
    case note_on2: return midi::make_midi2_note_on_message(o.g, o.ch, o.a, vel);
    case note_on_pitch: return midi::make_midi2_note_on_message(o.g, o.ch, o.a, vel, midi::pitch_7_9{ midi::uint16_t(o.w) });
    case note_on_attr: return midi::make_midi2_note_on_message(o.g, o.ch, o.a, vel, o.b, midi::uint16_t(o.w));
    case poly_pressure2: return midi::make_midi2_poly_pressure_message(o.g, o.ch, o.a, val);
    case reg_per_note: return midi::make_registered_per_note_controller_message(o.g, o.ch, o.a, o.b, val);
    case ass_per_note: return midi::make_assignable_per_note_controller_message(o.g, o.ch, o.a, o.b, val);
    case note_management: return midi::make_per_note_management_message(o.g, o.ch, o.a, o.b);
    case control2: return midi::make_midi2_control_change_message(o.g, o.ch, o.a, val);
    case reg_control: return midi::make_registered_controller_message(o.g, o.ch, o.a, o.b, val);
    case ass_control: return midi::make_assignable_controller_message(o.g, o.ch, o.a, o.b, val);
    case rel_reg_control: return midi::make_relative_registered_controller_message(o.g, o.ch, o.a, o.b, midi::controller_increment{ int32_t(o.v) });
    case rel_ass_control: return midi::make_relative_assignable_controller_message(o.g, o.ch, o.a, o.b, midi::controller_increment{ int32_t(o.v) });
    case program2: return midi::make_midi2_program_change_message(o.g, o.ch, o.a);
    case program_bank: return midi::make_midi2_program_change_message(o.g, o.ch, o.a, midi::uint14_t(o.v));
    case pressure2: return midi::make_midi2_channel_pressure_message(o.g, o.ch, val);
    case bend2: return midi::make_midi2_pitch_bend_message(o.g, o.ch, pb);
    case note_bend: return midi::make_per_note_pitch_bend_message(o.g, o.ch, o.a, pb);
    case system_msg: return midi::make_system_message(o.g, o.a, midi::uint7_t(o.v & 0x7F), midi::uint7_t(o.v >> 7));
    case song_position: return midi::make_song_position_message(o.g, midi::uint14_t(o.v));
    case utility: return midi::make_utility_message(o.a, midi::uint16_t(o.v));
    case tempo: return midi::make_set_tempo_message(o.g, o.v);
    case time_signature: return midi::make_set_time_signature_message(o.g, uint8_t(o.v >> 16), uint8_t(o.v >> 8), uint8_t(o.v));
    case metronome: return midi::make_set_metronome_message(o.g, uint8_t(o.v >> 24), uint8_t(o.v >> 16), uint8_t(o.v >> 8), uint8_t(o.v), uint8_t(o.w >> 8), uint8_t(o.w));
    case key_signature: return midi::make_set_key_signature_message(o.g, adr, o.ch, midi::uint4_t(o.v >> 4), midi::uint4_t(o.v & 15));
    case chord: return midi::make_set_chord_message(o.g, adr, o.ch, o.v, o.w, o.x);
    default: return midi::make_flex_data_text_message(o.g, midi::packet_format(o.form), adr, o.ch, o.a, o.b, o.s);
    }
}

using Key = uint32_t;
struct Note
{
    uint32_t                     velocity = 0, pitch = 0, bend = 0x80000000u, pressure = 0, attr = 0, attr_data = 0;
    std::map<uint32_t, uint32_t> reg, ass;
    bool                         operator==(const Note& o) const
    {
        return velocity == o.velocity && pitch == o.pitch && bend == o.bend && pressure == o.pressure && attr == o.attr && attr_data == o.attr_data && reg == o.reg && ass == o.ass;
    }
};
struct Channel
{
    std::map<uint32_t, Note>     notes;
    std::map<uint32_t, uint32_t> cc, rpn, nrpn;
    uint32_t                     program = 0, bank = 0, pressure = 0, bend = 0x80000000u, released = 0;
    uint32_t                     sens = 2u << 25, note_sens = 2u << 25;
};
struct Group
{
    uint32_t song = 0, clocks = 0, playing = 0, mtc = 0, select = 0;
    uint32_t tempo = 0, time = 0;
    uint64_t metronome = 0;
    std::map<uint32_t, uint32_t>    keys;   // by address / channel
    std::map<uint32_t, uint64_t>    chords;
    std::map<uint32_t, std::string> open, texts; // by address / channel / bank / status
};
struct World
{
    std::map<uint32_t, Channel> channels;
    std::map<uint32_t, Group>   groups;
    uint32_t                    jr_clocks = 0, jr_stamps = 0, stamp = 0;
    Channel&                    ch(uint32_t g, uint32_t c) { return channels[(g << 4) | c]; }
};

int64_t clamp64(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }

//! reference: state by what was said
void apply(World& w, const Op& o)
{
    auto& ch  = w.ch(o.g, o.ch);
    auto& grp = w.groups[o.g];
    auto  on  = [&](uint32_t vel, uint32_t pitch, uint32_t attr, uint32_t data) {
        Note& n     = ch.notes[o.a];
        n.velocity  = vel;
        n.pitch     = pitch;
        n.attr      = attr;
        n.attr_data = data;
    };
    auto off = [&](uint32_t vel) {
        ch.notes.erase(o.a);
        ch.released = vel;
    };
    auto relative = [&](std::map<uint32_t, uint32_t>& m) {
        uint32_t& v = m[(uint32_t(o.a) << 7) | o.b];
        v           = uint32_t(clamp64(int64_t(v) + int32_t(o.v), 0, 0xFFFFFFFFll));
    };
    const uint32_t where = (uint32_t(o.address) << 4) | o.ch, tkey = (where << 16) | (uint32_t(o.a) << 8) | o.b;
    switch (o.kind)
    {
    case note_off: off(upscale(o.v >> 9, 7, 16)); break;
    case note_on:
        if (o.v >> 9)
            on(upscale(o.v >> 9, 7, 16), uint32_t(o.a) << 25, 0, 0);
        else
            off(0x8000);
        break;
    case poly_pressure: ch.notes[o.a].pressure = upscale(o.v >> 25, 7, 32); break;
    case control: ch.cc[o.a] = upscale(o.v >> 25, 7, 32); break;
    case program:
    case program2: ch.program = o.a; break;
    case pressure: ch.pressure = upscale(o.v >> 25, 7, 32); break;
    case bend: ch.bend = upscale(o.v >> 18, 14, 32); break;
    case note_off2: off(o.v); break;
    case note_on2: on(o.v, uint32_t(o.a) << 25, 0, 0); break;
    case note_on_pitch: on(o.v, o.w << 16, 3, o.w); break;
    case note_on_attr: on(o.v, o.b == 3 ? o.w << 16 : uint32_t(o.a) << 25, o.b, o.w); break;
    case poly_pressure2: ch.notes[o.a].pressure = o.v; break;
    case reg_per_note:
        ch.notes[o.a].reg[o.b] = o.v;
        if (o.b == 3)
            ch.notes[o.a].pitch = o.v;
        break;
    case ass_per_note: ch.notes[o.a].ass[o.b] = o.v; break;
    case note_management:
        if (o.b & 1)
            ch.notes[o.a].reg.clear(), ch.notes[o.a].ass.clear(), ch.notes[o.a].bend = 0x80000000u;
        if (o.b & 2)
            ch.notes.erase(o.a);
        break;
    case control2: ch.cc[o.a] = o.v; break;
    case reg_control:
        ch.rpn[(uint32_t(o.a) << 7) | o.b] = o.v;
        if (o.a == 0 && o.b == 0)
            ch.sens = o.v & 0xFFFC0000u;
        if (o.a == 0 && o.b == 7)
            ch.note_sens = o.v;
        break;
    case ass_control: ch.nrpn[(uint32_t(o.a) << 7) | o.b] = o.v; break;
    case rel_reg_control: relative(ch.rpn); break;
    case rel_ass_control: relative(ch.nrpn); break;
    case program_bank:
        ch.program = o.a;
        ch.bank    = o.v;
        break;
    case pressure2: ch.pressure = o.v; break;
    case bend2: ch.bend = o.v; break;
    case note_bend: ch.notes[o.a].bend = o.v; break;
    case system_msg:
        switch (o.a)
        {
        case 0xF1: grp.mtc = o.v & 0x7F; break;
        case 0xF3: grp.select = o.v & 0x7F; break;
        case 0xF8: ++grp.clocks; break;
        case 0xFA: grp.playing = 1, grp.song = 0; break;
        case 0xFB: grp.playing = 1; break;
        case 0xFC: grp.playing = 0; break;
        default: break;
        }
        break;
    case song_position: grp.song = o.v; break;
    case utility:
        w.jr_clocks += o.a == 0x10;
        if (o.a == 0x20)
            ++w.jr_stamps, w.stamp = o.v;
        break;
    case tempo: grp.tempo = o.v; break;
    case time_signature: grp.time = o.v; break;
    case metronome: grp.metronome = (uint64_t(o.v) << 16) | o.w; break;
    case key_signature: grp.keys[where] = o.v; break;
    case chord: grp.chords[where] = mix64((uint64_t(o.v) << 32) | o.w) ^ o.x; break;
    case text:
        switch (o.form)
        {
        case 0: grp.texts[tkey] = o.s; grp.open.erase(tkey); break;
        case 1: grp.open[tkey] = o.s; break;
        case 2:
            if (grp.open.count(tkey))
                grp.open[tkey] += o.s;
            break;
        default:
            if (grp.open.count(tkey))
                grp.texts[tkey] = grp.open[tkey] + o.s, grp.open.erase(tkey);
        }
        break;
    default: break;
    }
}

//! equal to itself, to none with another value
template<typename T>
void comparison(Ctx& c, const char* name, T v)
{
    T o     = v;
    o.value = decltype(v.value)(o.value ^ (1u << (mix64(v.value) % (8 * sizeof(v.value)))));
    const T same = v;
    c.check();
    if (!(same == v) || same != v || o == v || !(o != v))
        c.fail("units", "%ss %08x and %08x compare wrong", name, unsigned(v.value), unsigned(o.value));
}
//! the library's value is the exact one, rounded up or down, or the end of the range
bool near(int64_t got, double exact, int64_t lo, int64_t hi)
{
    if (exact <= double(lo))
        return got == lo;
    if (exact >= double(hi))
        return got == hi;
    return std::fabs(double(got) - exact) < 1;
}
bool near(int64_t got, int64_t exact, int64_t tolerance, int64_t lo, int64_t hi)
{
    if (exact - tolerance >= hi)
        return got == hi;
    if (exact + tolerance <= lo)
        return got == lo;
    return std::llabs(got - exact) <= tolerance && got >= lo && got <= hi;
}

//! values in the units the library offers
void units(Ctx& c, midi::velocity v)
{
    comparison(c, "velocity", v);
    const double d = v.as_double(), f = v.as_float();
    if ((v.value == 0 && d != 0) || (v.value == 0x8000 && d != 0.5) || (v.value == 0xFFFF && d != 1))
        c.fail("units", "velocity %04x reads as %.17g", v.value, d);
    if (!(d >= 0 && d <= 1) || std::fabs(d - v.value / 65535.) > 1.1 / 65536 || std::fabs(f - d) > 1e-6 || !(midi::velocity{ d } == v) || midi::velocity{ v.as_float() } != v || v.as_uint7() != v.value >> 9)
        c.fail("units", "velocity %04x reads as %.12g, %.12g, %u", v.value, d, f, v.as_uint7());
}
void units(Ctx& c, midi::controller_value v)
{
    comparison(c, "controller value", v);
    const double d = v.as_double(), f = v.as_float();
    if ((v.value == 0 && d != 0) || (v.value == 0x80000000u && d != 0.5) || (v.value == 0xFFFFFFFFu && d != 1))
        c.fail("units", "controller value %08x reads as %.17g", v.value, d);
    if (!(d >= 0 && d <= 1) || std::fabs(d - v.value / 4294967295.) > 1e-9 || std::fabs(f - d) > 1e-6 || !(midi::controller_value{ d } == v) || v.as_uint7() != v.value >> 25 || v.as_uint14() != v.value >> 18 ||
        std::llabs(int64_t(midi::controller_value{ v.as_float() }.value) - int64_t(v.value)) > 512)
        c.fail("units", "controller value %08x reads as %.12g, %.12g, %u, %u", v.value, d, f, v.as_uint14(), v.as_uint7());
    if (midi::controller_value{ v.as_uint14() }.value != upscale(v.value >> 18, 14, 32) || midi::controller_value{ v.as_uint7() }.value != upscale(v.value >> 25, 7, 32))
        c.fail("units", "controller value %08x made of 14 or 7 bits", v.value);
}
void units(Ctx& c, midi::pitch_bend v)
{
    comparison(c, "pitch bend", v);
    const double d = v.as_double(), f = v.as_float(), exact = (double(v.value) - 2147483648.) / (v.value > 0x80000000u ? 2147483647. : 2147483648.);
    if (!(d >= -1 && d <= 1) || std::fabs(d - exact) > 1e-9 || std::fabs(f - d) > 1e-6 || std::llabs(int64_t(midi::pitch_bend{ d }.value) - int64_t(v.value)) > 1 || v.as_uint14() != v.value >> 18 ||
        std::llabs(int64_t(midi::pitch_bend{ v.as_float() }.value) - int64_t(v.value)) > 1024 || midi::pitch_bend{ v.as_uint14() }.value != upscale(v.value >> 18, 14, 32))
        c.fail("units", "pitch bend %08x reads as %.12g, %.12g, %u", v.value, d, f, v.as_uint14());
    if ((v.value == 0 && (d != -1 || f != -1)) || (v.value == 0x80000000u && (d != 0 || f != 0)) || (v.value == 0xFFFFFFFFu && (d != 1 || f != 1)))
        c.fail("units", "pitch bend %08x reads as %.17g, %.17g", v.value, d, f);
    midi::pitch_bend r = v;
    r.reset();
    if (r.value != 0x80000000u || !(r == midi::pitch_bend{}))
        c.fail("units", "pitch bend %08x resets to %08x", v.value, r.value);
}
void units(Ctx& c, midi::pitch_7_9 v)
{
    comparison(c, "pitch", v);
    const double d = v.as_double(), f = v.as_float();
    const midi::note_nr_t key = v.note_nr();
    midi::pitch_7_25      wide;
    wide = v;
    if (midi::pitch_7_9{ key }.value != (v.value & 0xFE00u) || midi::pitch_7_25{ key }.value != uint32_t(v.value & 0xFE00u) << 16 || wide.value != uint32_t(v.value) << 16)
        c.fail("units", "key %u becomes %04x, %08x, pitch %04x becomes %08x", key, midi::pitch_7_9{ key }.value, midi::pitch_7_25{ key }.value, v.value, wide.value);
    if (d != v.value / 512. || f != d || midi::pitch_7_9{ d }.value != v.value || midi::pitch_7_9{ v.as_float() }.value != v.value || v.note_nr() != v.value >> 9 || midi::pitch_7_25{ v }.value != uint32_t(v.value) << 16)
        c.fail("units", "pitch %04x reads as %.12g, %.12g, key %u", v.value, d, f, v.note_nr());
}
void units(Ctx& c, midi::pitch_7_25 v)
{
    comparison(c, "pitch", v);
    const double d = v.as_double(), f = v.as_float();
    if (d != v.value / 33554432. || std::fabs(f - d) > 1e-5 || midi::pitch_7_25{ d }.value != v.value || v.note_nr() != v.value >> 25 || midi::controller_value{ v }.value != v.value ||
        std::llabs(int64_t(midi::pitch_7_25{ v.as_float() }.value) - int64_t(v.value)) > 256)
        c.fail("units", "pitch %08x reads as %.12g, %.12g, key %u", v.value, d, f, v.note_nr());
}

//! the receiver: sees packets only, understands them by the library's functions and calculates with its types
void receive(Ctx& c, World& w, const Packet& p, const Op& o)
{
    c.check();
    auto bad = [&](const char* what) { c.fail("message", "%s (group %u, channel %u): %s is wrong, packet %s", kind_names[o.kind], o.g, o.ch, what, str(p).c_str()); };
    const bool cv1 = o.kind < note_off2, cv2 = !cv1 && o.kind < system_msg;
    // what it is
    if (midi::is_midi1_channel_voice_message(p) != cv1 || midi::is_midi2_channel_voice_message(p) != cv2 || p.is_channel_voice_message() != (cv1 || cv2))
        bad("the message type");
    if (midi::is_system_message(p) != (o.kind == system_msg || o.kind == song_position) || midi::is_flex_data_message(p) != (o.kind >= tempo) || bool(midi::as_system_message_view(p)) != midi::is_system_message(p) ||
        bool(midi::as_flex_data_message_view(p)) != midi::is_flex_data_message(p) || bool(midi::as_midi1_channel_voice_message_view(p)) != cv1 || bool(midi::as_midi2_channel_voice_message_view(p)) != cv2)
        bad("the message type");
    const bool sys = o.kind == system_msg || o.kind == song_position;
    if (p.has_channel() != (cv1 || cv2 || o.kind >= tempo) || p.is_utility_message() != (o.kind == utility) || p.is_system_message() != sys || p.is_data_message() || p.is_midi1_protocol_message() != (cv1 || sys))
        bad("has_channel() or is_..._message()");
    {
        const Packet copy = p;
        Packet       other = p, blank = p;
        other.data[o.v % ump_words(p.data[0])] ^= 1u << (o.v % 32);
        blank.reset();
        if (!(copy == p) || copy != p || other == p || !(other != p) || blank.data[0] || blank.data[1] || blank.data[2] || blank.data[3])
            bad("comparison or reset");
        // taken apart into words and bytes
        const unsigned n = ump_words(p.data[0]);
        const Packet   words = n == 1 ? Packet(p.data[0]) : n == 2 ? Packet(p.data[0], p.data[1]) : Packet(p.data[0], p.data[1], p.data[2], p.data[3]), three(p.data[0], p.data[1], p.data[2]);
        Packet         bytes, moved = p;
        for (unsigned i = 4 * n; i-- > 0;)
        {
            if (p.get_byte(i) != uint8_t(p.data[i / 4] >> (24 - 8 * (i % 4))) || p.get_byte_7bit(i) != (p.get_byte(i) & 0x7F))
                bad("get_byte");
            if (p.get_byte(i) < 128)
                bytes.set_byte_7bit(i, p.get_byte(i));
            else
                bytes.set_byte(i, p.get_byte(i));
        }
        if (!same_words(words, p) || !same_words(bytes, p) || three.data[0] != p.data[0] || three.data[1] != p.data[1] || three.data[2] != p.data[2])
            bad("the packet made of its words or bytes");
        const uint32_t where = o.v % (4 * n), g = (o.g + 1 + o.w % 15) & 15, t = (o.v ^ o.w) & 15;
        moved.set_group(uint8_t(g));
        if (moved.data[0] != ((p.data[0] & 0xF0FFFFFFu) | g << 24) || moved.group() != g || moved.data[1] != p.data[1] || moved.data[2] != p.data[2] || moved.data[3] != p.data[3])
            bad("set_group");
        moved = p;
        moved.set_byte(where, uint8_t(o.w));
        for (unsigned i = 0; i < 16; ++i)
            if (moved.get_byte(i) != (i == where ? uint8_t(o.w) : p.get_byte(i)))
                bad("set_byte");
        moved = p;
        moved.set_type(midi::packet_type(t));
        if (moved.data[0] != ((p.data[0] & 0x0FFFFFFFu) | t << 28) || moved.type() != midi::packet_type(t) || moved.size() != ump_words(moved.data[0]) || moved.data[1] != p.data[1])
            bad("set_type");
    }
    const struct
    {
        bool        is, want;
        const char* name;
    } preds[] = {
        { midi::is_note_off_message(p), o.kind == note_off || o.kind == note_off2 || (o.kind == note_on && !(o.v >> 9)), "is_note_off_message" },
        { midi::is_note_on_message(p), (o.kind == note_on && (o.v >> 9)) || (o.kind >= note_on2 && o.kind <= note_on_attr), "is_note_on_message" },
        { midi::is_poly_pressure_message(p), o.kind == poly_pressure || o.kind == poly_pressure2, "is_poly_pressure_message" },
        { midi::is_control_change_message(p), o.kind == control || o.kind == control2, "is_control_change_message" },
        { midi::is_program_change_message(p), o.kind == program || o.kind == program2 || o.kind == program_bank, "is_program_change_message" },
        { midi::is_channel_pressure_message(p), o.kind == pressure || o.kind == pressure2, "is_channel_pressure_message" },
        { midi::is_channel_pitch_bend_message(p), o.kind == bend || o.kind == bend2, "is_channel_pitch_bend_message" },
        { midi::is_registered_controller_message(p), o.kind == reg_control, "is_registered_controller_message" },
        { midi::is_assignable_controller_message(p), o.kind == ass_control, "is_assignable_controller_message" },
        { midi::is_registered_per_note_controller_message(p), o.kind == reg_per_note, "is_registered_per_note_controller_message" },
        { midi::is_registered_per_note_controller_pitch_message(p), o.kind == reg_per_note && o.b == 3, "is_registered_per_note_controller_pitch_message" },
        { midi::is_assignable_per_note_controller_message(p), o.kind == ass_per_note, "is_assignable_per_note_controller_message" },
        { midi::is_per_note_pitch_bend_message(p), o.kind == note_bend, "is_per_note_pitch_bend_message" },
        { midi::is_note_on_with_pitch_7_9(p), o.kind == note_on_pitch || (o.kind == note_on_attr && o.b == 3), "is_note_on_with_pitch_7_9" },
        { midi::is_pitch_bend_sensitivity_message(p), o.kind == reg_control && o.a == 0 && o.b == 0, "is_pitch_bend_sensitivity_message" },
        { midi::is_per_note_pitch_bend_sensitivity_message(p), o.kind == reg_control && o.a == 0 && o.b == 7, "is_per_note_pitch_bend_sensitivity_message" },
    };
    for (auto& x : preds)
        if (x.is != x.want)
            bad(x.name);
    // a repeater takes the message apart and puts it together again
    auto again = [&](const Packet& x) {
        if (!(x == p) || !same_words(x, p))
            c.fail("message", "%s %s put together again is %s", kind_names[o.kind], str(p).c_str(), str(x).c_str());
    };
    if (auto v = midi::as_midi1_channel_voice_message_view(p))
    {
        again(midi::make_midi1_channel_voice_message(v->group(), v->status(), v->channel(), v->data_byte_1(), v->data_byte_2()));
        again(midi::midi1_channel_voice_message(v->group(), midi::status_t(v->status() | v->channel()), v->data_byte_1(), v->data_byte_2()));
        if (v->get_14bit_value() != ((p.data[0] >> 8 & 0x7F) | (p.data[0] & 0x7F) << 7))
            bad("get_14bit_value");
    }
    if (auto v = midi::as_midi2_channel_voice_message_view(p))
        if (p.byte3() < 128 && p.byte4() < 128)
            again(midi::make_midi2_channel_voice_message(v->group(), v->status(), v->channel(), v->byte3(), v->byte4(), v->data()));
    if (auto v = midi::as_system_message_view(p))
        again(midi::make_system_message(v->group(), v->status(), v->data_byte_1(), v->data_byte_2()));
    if (o.kind == utility)
        again(midi::make_utility_message(midi::utility_message_view{ p }.status(), midi::utility_message_view{ p }.payload()));
    if (auto v = midi::as_flex_data_message_view(p))
    {
        const auto x = midi::make_flex_data_message(v->group(), v->format(), v->address(), v->channel(), v->status_bank(), v->status(), v->data1(), v->data2(), v->data3());
        again(x);
        if (x.format() != v->format() || x.address() != v->address() || x.status_bank() != v->status_bank() || x.status() != v->status() || x.payload_as_string() != v->payload_as_string())
            bad("flex_data_message");
    }
    if (o.kind == note_on_attr || o.kind == note_on2 || o.kind == note_on_pitch || o.kind == note_off2)
    {
        const uint8_t attr = o.kind == note_on2 ? 0 : o.kind == note_on_pitch ? 3 : o.b, other = uint8_t(attr + 1 + o.w % 255);
        if (midi::is_note_on_with_attribute(p, attr) != (o.kind != note_off2) || midi::is_note_off_with_attribute(p, attr) != (o.kind == note_off2) || midi::is_note_on_with_attribute(p, other) ||
            midi::is_note_off_with_attribute(p, other))
            bad("is_note_on/off_with_attribute");
    }
    // where it goes
    if (o.kind == utility)
    {
        midi::utility_message_view v{ p };
        if (p.type() != midi::packet_type::utility)
            bad("the message type");
        w.jr_clocks += v.status() == midi::utility_status::jr_clock;
        if (v.status() == midi::utility_status::jr_timestamp)
            ++w.jr_stamps, w.stamp = v.payload();
        return;
    }
    if (auto v = midi::as_system_message_view(p))
    {
        auto& grp = w.groups[v->group()];
        switch (v->status())
        {
        case midi::system_status::mtc_quarter_frame: grp.mtc = v->data_byte_1(); break;
        case midi::system_status::song_position: grp.song = v->get_song_position(); break;
        case midi::system_status::song_select: grp.select = v->data_byte_1(); break;
        case midi::system_status::clock: ++grp.clocks; break;
        case midi::system_status::start: grp.playing = 1, grp.song = 0; break;
        case midi::system_status::cont: grp.playing = 1; break;
        case midi::system_status::stop: grp.playing = 0; break;
        default: break;
        }
        if (v->status() != midi::system_status::song_position && v->get_song_position() != 0)
            bad("get_song_position");
        return;
    }
    if (auto v = midi::as_flex_data_message_view(p))
    {
        auto&          grp   = w.groups[v->group()];
        const uint32_t where = (uint32_t(v->address()) << 4) | v->channel(), tkey = (where << 16) | (uint32_t(v->status_bank()) << 8) | v->status();
        if (o.kind == text)
        {
            const std::string s = v->payload_as_string();
            switch (v->format())
            {
            case midi::packet_format::complete: grp.texts[tkey] = s; grp.open.erase(tkey); break;
            case midi::packet_format::start: grp.open[tkey] = s; break;
            case midi::packet_format::cont:
                if (grp.open.count(tkey))
                    grp.open[tkey] += s;
                break;
            default:
                if (grp.open.count(tkey))
                    grp.texts[tkey] = grp.open[tkey] + s, grp.open.erase(tkey);
            }
            return;
        }
        if (v->status_bank() != 0 || v->format() != midi::packet_format::complete)
            bad("the status bank or format");
        switch (v->status())
        {
        case 0: grp.tempo = v->data1(); break;
        case 1: grp.time = v->data1() >> 8; break;
        case 2: grp.metronome = (uint64_t(v->data1()) << 16) | (v->data2() >> 16); break;
        case 5: grp.keys[where] = v->data1() >> 24; break;
        case 6: grp.chords[where] = mix64((uint64_t(v->data1()) << 32) | v->data2()) ^ v->data3(); break;
        default: bad("the status");
        }
        return;
    }
    auto& ch = w.ch(p.group(), p.channel());
    if (midi::is_note_on_message(p))
    {
        Note& n     = ch.notes[midi::get_note_nr(p)];
        n.velocity  = midi::get_note_velocity(p).value;
        units(c, midi::get_note_velocity(p));
        units(c, midi::get_note_pitch(p));
        n.pitch     = midi::pitch_7_25{ midi::get_note_pitch(p) }.value;
        n.attr      = cv2 ? midi::get_midi2_note_attribute(p) : 0;
        n.attr_data = cv2 ? midi::get_midi2_note_attribute_data(p) : 0;
    }
    else if (midi::is_note_off_message(p))
    {
        ch.notes.erase(midi::get_note_nr(p));
        ch.released = midi::get_note_velocity(p).value;
        if (cv2 && (midi::get_midi2_note_attribute(p) != o.b || midi::get_midi2_note_attribute_data(p) != o.w))
            bad("the attribute");
    }
    else if (midi::is_poly_pressure_message(p))
        ch.notes[midi::get_note_nr(p)].pressure = midi::get_poly_pressure_value(p).value;
    else if (midi::is_control_change_message(p))
    {
        ch.cc[midi::get_controller_nr(p)] = midi::get_controller_value(p).value;
        units(c, midi::get_controller_value(p));
    }
    else if (midi::is_program_change_message(p))
    {
        ch.program = midi::get_program_value(p);
        if (auto v = midi::as_midi2_channel_voice_message_view(p))
            if (v->byte4() & 1)
                ch.bank = ((v->data() >> 1) & 0x3F80) | (v->data() & 0x7F);
    }
    else if (midi::is_channel_pressure_message(p))
        ch.pressure = midi::get_channel_pressure_value(p).value;
    else if (midi::is_channel_pitch_bend_message(p))
    {
        ch.bend = midi::get_channel_pitch_bend_value(p).value;
        units(c, midi::get_channel_pitch_bend_value(p));
    }
    else if (midi::is_registered_per_note_controller_message(p))
    {
        Note& n                                        = ch.notes[midi::get_note_nr(p)];
        n.reg[midi::get_per_note_controller_index(p)] = midi::get_controller_value(p).value;
        if (midi::is_registered_per_note_controller_pitch_message(p))
        {
            const midi::pitch_7_25 x{ midi::get_controller_value(p) };
            n.pitch = x.value;
            units(c, x);
        }
    }
    else if (midi::is_assignable_per_note_controller_message(p))
        ch.notes[midi::get_note_nr(p)].ass[midi::get_per_note_controller_index(p)] = midi::get_controller_value(p).value;
    else if (midi::is_per_note_pitch_bend_message(p))
        ch.notes[midi::get_note_nr(p)].bend = midi::get_per_note_pitch_bend_value(p).value;
    else
    {
        auto v = midi::as_midi2_channel_voice_message_view(p);
        if (!v)
            bad("the message type");
        const uint32_t at = (uint32_t(v->byte3()) << 7) | v->byte4();
        switch (v->status())
        {
        case midi::channel_voice_status::per_note_management:
        {
            const uint32_t n = v->byte3();
            if (v->byte4() & midi::note_management::reset)
                ch.notes[n].reg.clear(), ch.notes[n].ass.clear(), ch.notes[n].bend = midi::pitch_bend{}.value;
            if (v->byte4() & midi::note_management::detach)
                ch.notes.erase(n);
            break;
        }
        case midi::channel_voice_status::registered_controller:
            ch.rpn[at] = v->data();
            if (midi::is_pitch_bend_sensitivity_message(p))
                ch.sens = midi::get_pitch_bend_sensitivity_value(p).value;
            if (midi::is_per_note_pitch_bend_sensitivity_message(p))
                ch.note_sens = midi::get_per_note_pitch_bend_sensitivity_value(p).value;
            break;
        case midi::channel_voice_status::assignable_controller: ch.nrpn[at] = v->data(); break;
        case midi::channel_voice_status::relative_registered_controller:
        {
            midi::controller_value x{ midi::uint32_t(ch.rpn[at]) };
            x += midi::controller_increment{ int32_t(v->data()) };
            ch.rpn[at] = x.value;
            break;
        }
        case midi::channel_voice_status::relative_assignable_controller:
            ch.nrpn[at] = (midi::controller_value{ midi::uint32_t(ch.nrpn[at]) } + midi::controller_increment{ int32_t(v->data()) }).value;
            break;
        default: bad("the status");
        }
    }
}

//! a packet some other device sends, of whatever kind: the receiver only has to see what it is
void foreign(Ctx& c)
{
    {
        // messages with nothing in them yet
        const uint8_t  g = uint8_t(c.choose(16)), st = uint8_t(0x80 + c.choose(0x80)), d = uint8_t(c.choose(128)), u = uint8_t(c.choose(3));
        const uint32_t gr = uint32_t(g) << 24;
        const struct
        {
            Packet      p;
            uint32_t    want;
            const char* name;
        } empty[] = {
            { midi::utility_message{}, 0, "utility_message" },
            { midi::utility_message{ u }, uint32_t(u) << 16, "utility_message" },
            { midi::system_message{}, 0x10000000u, "system_message" },
            { midi::system_message{ g, st }, 0x10000000u | gr | uint32_t(st) << 16, "system_message" },
            { midi::system_message{ g, st, d }, 0x10000000u | gr | uint32_t(st) << 16 | uint32_t(d) << 8, "system_message" },
            { midi::midi1_channel_voice_message{ g, st }, 0x20000000u | gr | uint32_t(st) << 16, "midi1_channel_voice_message" },
            { midi::midi1_channel_voice_message{ g, st, d }, 0x20000000u | gr | uint32_t(st) << 16 | uint32_t(d) << 8, "midi1_channel_voice_message" },
            { midi::data_message{}, 0x30000000u, "data_message" },
            { midi::extended_data_message{}, 0x50000000u, "extended_data_message" },
            { midi::flex_data_message{}, 0xD0000000u, "flex_data_message" },
            { midi::flex_data_message{ g }, 0xD0000000u | gr, "flex_data_message" },
        };
        for (auto& e : empty)
            if (e.p.data[0] != e.want || e.p.data[1] || e.p.data[2] || e.p.data[3])
                c.fail("message", "empty %s is %s", e.name, str(e.p).c_str());
    }
    const uint32_t t = c.choose(2) ? c.choose(16) : c.pick({ 1u, 2u, 4u });
    uint32_t       w = (t << 28) | (c.u32() & 0x0FFFFFFFu);
    if (t == 2)
        w &= 0xFFFF7F7Fu;
    if (c.choose(4) == 3)
        w &= 0xFFFFFF00u;
    const Packet   p(w, c.u32(), c.u32(), c.u32());
    const uint32_t st = (w >> 20) & 15, s8 = (w >> 16) & 255, b3 = (w >> 8) & 255, b4 = w & 255;
    const bool     cv1 = t == 2, cv2 = t == 4, cv = cv1 || cv2;
    auto           bad = [&](const char* what) { c.fail("message", "%s is wrong for foreign packet %s", what, str(p).c_str()); };
    const struct
    {
        bool        is, want;
        const char* name;
    } preds[] = {
        { midi::is_note_off_message(p), (cv && st == 8) || (cv1 && st == 9 && !b4), "is_note_off_message" },
        { midi::is_note_on_message(p), st == 9 && (cv2 || (cv1 && b4)), "is_note_on_message" },
        { midi::is_poly_pressure_message(p), cv && st == 10, "is_poly_pressure_message" },
        { midi::is_control_change_message(p), cv && st == 11, "is_control_change_message" },
        { midi::is_program_change_message(p), cv && st == 12, "is_program_change_message" },
        { midi::is_channel_pressure_message(p), cv && st == 13, "is_channel_pressure_message" },
        { midi::is_channel_pitch_bend_message(p), cv && st == 14, "is_channel_pitch_bend_message" },
        { midi::is_registered_per_note_controller_message(p), cv2 && st == 0, "is_registered_per_note_controller_message" },
        { midi::is_registered_per_note_controller_pitch_message(p), cv2 && st == 0 && b4 == 3, "is_registered_per_note_controller_pitch_message" },
        { midi::is_assignable_per_note_controller_message(p), cv2 && st == 1, "is_assignable_per_note_controller_message" },
        { midi::is_registered_controller_message(p), cv2 && st == 2, "is_registered_controller_message" },
        { midi::is_assignable_controller_message(p), cv2 && st == 3, "is_assignable_controller_message" },
        { midi::is_per_note_pitch_bend_message(p), cv2 && st == 6, "is_per_note_pitch_bend_message" },
        { midi::is_note_on_with_pitch_7_9(p), cv2 && st == 9 && b4 == 3, "is_note_on_with_pitch_7_9" },
        { midi::is_note_on_with_attribute(p, uint8_t(b4)), cv2 && st == 9, "is_note_on_with_attribute" },
        { midi::is_note_off_with_attribute(p, uint8_t(b4)), cv2 && st == 8, "is_note_off_with_attribute" },
        { midi::is_pitch_bend_sensitivity_message(p), cv2 && st == 2 && b3 == 0 && b4 == 0, "is_pitch_bend_sensitivity_message" },
        { midi::is_per_note_pitch_bend_sensitivity_message(p), cv2 && st == 2 && b3 == 0 && b4 == 7, "is_per_note_pitch_bend_sensitivity_message" },
        { midi::is_system_message(p) && p.is_system_message() && bool(midi::as_system_message_view(p)), t == 1, "is_system_message" },
        { midi::is_midi1_channel_voice_message(p) && bool(midi::as_midi1_channel_voice_message_view(p)), cv1, "is_midi1_channel_voice_message" },
        { midi::is_midi2_channel_voice_message(p) && bool(midi::as_midi2_channel_voice_message_view(p)), cv2, "is_midi2_channel_voice_message" },
        { midi::is_flex_data_message(p) && bool(midi::as_flex_data_message_view(p)), t == 13, "is_flex_data_message" },
        { p.is_utility_message(), t == 0, "is_utility_message" },
        { p.is_channel_voice_message(), cv, "is_channel_voice_message" },
        { p.is_data_message(), t == 3 || t == 5, "is_data_message" },
        { p.has_channel(), cv || t == 13, "has_channel" },
        { p.is_midi1_protocol_message(), (cv1 && st >= 8 && st < 15) || (t == 1 && s8 > 0xF0 && s8 != 0xF4 && s8 != 0xF5 && s8 != 0xF7 && s8 != 0xF9 && s8 != 0xFD), "is_midi1_protocol_message" },
    };
    c.check();
    for (auto& x : preds)
        if (x.is != x.want)
            bad(x.name);
    if (p.size() != ump_words(w) || p.group() != ((w >> 24) & 15) || p.status() != s8 || p.byte2() != s8 || p.byte3() != b3 || p.byte4() != b4 || (p.has_channel() && p.channel() != (s8 & 15)))
        bad("a basic accessor");
    c.probe("foreign packets");
}

//! compare all of both states
void compare(Ctx& c, World& got, World& want)
{
    c.check();
    if (got.jr_clocks != want.jr_clocks || got.jr_stamps != want.jr_stamps || got.stamp != want.stamp)
        c.fail("state", "%u clocks, %u timestamps, last %u; instead of %u, %u, %u", got.jr_clocks, got.jr_stamps, got.stamp, want.jr_clocks, want.jr_stamps, want.stamp);
    for (uint32_t k = 0; k < 256; ++k)
    {
        if (!got.channels.count(k) && !want.channels.count(k))
            continue;
        Channel &a = got.channels[k], &b = want.channels[k];
        auto     bad = [&](const char* what) { c.fail("state", "group %u channel %u: %s differ", k >> 4, k & 15, what); };
        c.check();
        if (a.cc != b.cc)
            bad("controllers");
        if (a.rpn != b.rpn || a.nrpn != b.nrpn)
            bad("parameters");
        if (a.program != b.program || a.bank != b.bank)
            bad("programs");
        if (a.pressure != b.pressure || a.bend != b.bend || a.released != b.released)
            bad("pressure, pitch bend or release velocity");
        if (a.sens != b.sens || a.note_sens != b.note_sens)
            bad("pitch bend ranges");
        if (!(a.notes == b.notes))
            bad("notes");
    }
    for (uint32_t k = 0; k < 16; ++k)
    {
        if (!got.groups.count(k) && !want.groups.count(k))
            continue;
        Group &a = got.groups[k], &b = want.groups[k];
        auto   bad = [&](const char* what) { c.fail("state", "group %u: %s differ", k, what); };
        if (a.song != b.song || a.clocks != b.clocks || a.playing != b.playing || a.mtc != b.mtc || a.select != b.select)
            bad("transports");
        if (a.tempo != b.tempo || a.time != b.time || a.metronome != b.metronome)
            bad("tempo, time signature or metronome");
        if (a.keys != b.keys || a.chords != b.chords)
            bad("keys or chords");
        if (a.texts != b.texts)
            bad("texts");
    }
}

//! a modulation in semitones
double gen_modulation(Ctx& c)
{
    const double sign = c.choose(2) ? -1 : 1;
    switch (c.choose(5))
    {
    case 4: return sign * c.pick({ 64., 0., 128., 63.999999970197678, 63.99999997019768, 127.99999997019768, 1., 200. });
    case 0: return sign * c.choose(1u << 16) / 1024.;
    case 1: return sign * (64. - std::ldexp(1., -int(c.choose(48))));
    case 2: return sign * std::ldexp(double(c.u32()), -25);
    default: return sign * std::ldexp(double(1 + c.choose(15)), -int(c.choose(40)));
    }
}

//! what sounds: exact arithmetic against the library's
void compare_sound(Ctx& c, World& got, World& want)
{
    // all notes are detuned and modulated by the receiver
    const double  mod = gen_modulation(c), detune = gen_modulation(c);
    const midi::pitch_increment lfo{ mod }, flfo{ float(mod) };
    const int64_t               mi = lfo.value;
    comparison(c, "increment", lfo);
    comparison(c, "increment", midi::controller_increment{ flfo.value });
    if (!near(lfo.value, mod * 33554432., INT32_MIN, INT32_MAX) || !near(flfo.value, double(float(mod)) * 33554432., INT32_MIN, INT32_MAX))
        c.fail("sound", "modulation by %.12g semitones: increments %d and %d", mod, lfo.value, flfo.value);
    {
        // keys and tunings an application has as numbers of semitones
        const double x = mod + (c.choose(2) ? 64 : 0) + detune;
        const midi::pitch_7_9  p9{ x }, f9{ float(x) };
        const midi::pitch_7_25 p25{ x }, f25{ float(x) };
        if (!near(p9.value, x * 512, 0, 0xFFFF) || !near(f9.value, double(float(x)) * 512, 0, 0xFFFF) || !near(p25.value, x * 33554432., 0, 0xFFFFFFFFll) || !near(f25.value, double(float(x)) * 33554432., 0, 0xFFFFFFFFll))
            c.fail("sound", "%.17g semitones become %04x, %04x, %08x, %08x", x, p9.value, f9.value, p25.value, f25.value);
        if (midi::velocity{}.value != 0x8000 || midi::pitch_bend{}.value != 0x80000000u || midi::controller_value{}.value || midi::controller_increment{}.value || midi::pitch_increment{}.value || midi::pitch_7_9{}.value ||
            midi::pitch_7_25{}.value || midi::pitch_bend_sensitivity{}.value != 2u << 25)
            c.fail("sound", "an initial value is wrong");
    }
    for (auto& kc : want.channels)
        for (auto& kn : kc.second.notes)
        {
            const Channel& b = kc.second;
            const Note&    n = kn.second;
            auto           inc = [](uint32_t pb, uint32_t sens) {
                const __int128 x = (__int128(int64_t(pb) - 0x80000000ll) * sens) / 0x80000000ll;
                return int64_t(x < INT32_MIN ? INT32_MIN : x > INT32_MAX ? INT32_MAX : x);
            };
            //! one of the two integers around the exact quotient
            auto around = [](int64_t got, uint32_t pb, uint32_t sens) {
                const __int128 x = __int128(int64_t(pb) - 0x80000000ll) * sens, y = (__int128(got) << 31) - x;
                if (x <= -(__int128(1) << 62))
                    return got == INT32_MIN;
                if (x >= (__int128(INT32_MAX) << 31))
                    return got == INT32_MAX;
                return y < (__int128(1) << 31) && y > -(__int128(1) << 31);
            };
            // one step of tolerance for each rounding
            const int64_t ci = inc(b.bend, b.sens), ni = inc(n.bend, b.note_sens), sum = clamp64(ci + ni, INT32_MIN, INT32_MAX);
            const int64_t sound = int64_t(n.pitch) + sum;
            Channel&      a = got.channels[kc.first];
            const Note&   m = a.notes[kn.first];
            const midi::pitch_bend             pb{ midi::uint32_t(a.bend) }, nb{ midi::uint32_t(m.bend) };
            const midi::pitch_bend_sensitivity s1{ midi::uint32_t(a.sens) }, s2{ midi::uint32_t(a.note_sens) };
            midi::pitch_increment              i = pb * s1;
            c.check();
            if (!around(i.value, b.bend, b.sens) || !around((s1 * pb).value, b.bend, b.sens) || !around((nb * s2).value, n.bend, b.note_sens))
                c.fail("sound", "bend %08x, range %08x: increment %d instead of %lld", b.bend, b.sens, i.value, (long long)ci);
            const midi::pitch_increment both = i + nb * s2;
            i += nb * s2;
            if (!near(i.value, ci + ni, 2, INT32_MIN, INT32_MAX) || !(both == i))
                c.fail("sound", "increments %lld and %lld add up to %d", (long long)ci, (long long)ni, i.value);
            const midi::pitch_7_25 base{ midi::uint32_t(m.pitch) };
            midi::pitch_7_25       s = base + i;
            if (!near(s.value, sound, 2, 0, 0xFFFFFFFFll))
                c.fail("sound", "note %u sounds at %08x instead of %08llx", kn.first, s.value, (long long)sound);
            midi::pitch_7_25 t = base;
            t += i;
            if (!(t == s))
                c.fail("sound", "note %u: + and += differ", kn.first);
            const midi::pitch_7_25 u = s + lfo, v = u + detune, fv = u + float(detune);
            if (int64_t(u.value) != clamp64(int64_t(s.value) + mi, 0, 0xFFFFFFFFll) || !near(v.value, double(u.value) + detune * 33554432., 0, 0xFFFFFFFFll) ||
                !near(fv.value, double(u.value) + double(float(detune)) * 33554432., 0, 0xFFFFFFFFll))
                c.fail("sound", "pitch %08x modulated by %.12g is %08x, detuned by %.12g %08x, %08x", s.value, mod, u.value, detune, v.value, fv.value);
            if (s.note_nr() != s.value >> 25)
                c.fail("sound", "pitch %08x is on key %u", s.value, s.note_nr());
        }
}

//! a value an application has as a number from 0 to 1
template<typename T>
uint32_t from_real(Ctx& c)
{
    constexpr double full = sizeof(T::value) == 2 ? 65536. : 4294967296.;
    double           d;
    switch (c.choose(4))
    {
    case 0: d = c.choose(1001) / 1000.; break;
    case 1: d = 0.5 + (c.choose(2) ? 1 : -1) * std::ldexp(1., -int(1 + c.choose(50))); break;
    case 2: d = c.choose(2) ? 1 - std::ldexp(1., -int(c.choose(53))) : std::ldexp(1., -int(c.choose(60))); break;
    default: d = c.u32() / 4294967295.; break;
    }
    auto exact = [&](double x) { return std::min(full - 1, x <= 0.5 ? x * full : full / 2 + (x - 0.5) * (full - 1)); };
    const T  v{ d }, f{ float(d) }, below{ -d - 1 }, above{ d + 1.0001f };
    c.check();
    if (std::fabs(v.value - exact(d)) > 1 || std::fabs(f.value - exact(float(d))) > 1 + full / 16777216. || below.value != 0 || above.value != uint32_t(full - 1))
        c.fail("units", "%.17g becomes %08x, as float %08x, out of range %08x and %08x", d, unsigned(v.value), unsigned(f.value), unsigned(below.value), unsigned(above.value));
    return v.value;
}

uint32_t gen_value(Ctx& c)
{
    switch (c.choose(6))
    {
    case 5: // next to a power of two, counted from zero or from the centre, up or down
    {
        const uint32_t step = 1u << c.choose(32), base = c.choose(2) ? 0x80000000u : 0u, off = c.pick({ 0u, 1u, 0xFFFFFFFFu });
        return (c.choose(2) ? base - step : base + step) + off;
    }
    case 4: return from_real<midi::controller_value>(c);
    case 0: return c.u32();
    case 1: return c.pick({ 0x80000000u, 0u, 0xFFFFFFFFu, 1u, 0x7FFFFFFFu, 0x80000001u, 0x02000000u, 0x01FFFFFFu, 0x0003FFFFu, 0x00040000u, 0xFE000000u, 0xFDFFFFFFu });
    case 2: return upscale(c.choose(128), 7, 32);
    default: return c.choose(128) << 25;
    }
}

void run(Ctx& c)
{
    struct Flying
    {
        Packet p;
        Op     o;
        uint32_t lane;
    };
    std::deque<Flying> wire;
    World              got, want;
    const uint32_t     p_loss = c.pick({ 0u, 30u, 150u }), p_dup = c.pick({ 0u, 30u, 150u }), p_over = c.pick({ 0u, 100u, 500u }), p_crash = c.pick({ 0u, 0u, 8u });
    const uint32_t     ngroups = 1 + c.choose(3), nch = 1 + c.choose(4);
    uint8_t            groups[3], chs[4];
    for (auto& g : groups)
        g = uint8_t(c.choose(16));
    for (auto& x : chs)
        x = uint8_t(c.choose(16));
    const uint32_t mode = c.choose(4); // 0: everything, 1: MIDI 1 part, 2: MIDI 2 part, 3: notes and bends
    uint64_t       received = 0;

    auto send = [&](const Op& o) {
        Packet   p = make(o);
        uint32_t r[4];
        reference(o, r);
        c.check();
        for (unsigned i = 0; i < ump_words(r[0]); ++i)
            if (p.data[i] != r[i])
                c.fail("encoding", "%s (group %u, channel %u) is sent as %s, word %u should be %08x", kind_names[o.kind], o.g, o.ch, str(p).c_str(), i, r[i]);
        if (p.size() != ump_words(r[0]))
            c.fail("encoding", "%s has %zu words", kind_names[o.kind], size_t(p.size()));
        c.ev("send", o.kind, (uint64_t(p.data[0]) << 32) | p.data[1], (uint64_t(p.data[2]) << 32) | p.data[3]);
        if (c.choose(16) == 15)
            foreign(c);
        const uint32_t lane = o.kind == text ? 1 + ((uint32_t(o.g) << 8 | uint32_t(o.address) << 4 | o.ch) << 16 | uint32_t(o.a) << 8 | o.b) : 0;
        const bool     lose = !lane && p_loss && c.pm(p_loss);
        if (lose)
            c.fault("message lost");
        else
        {
            wire.push_back({ p, o, lane });
            if (!lane && p_dup && c.pm(p_dup))
            {
                wire.push_back({ p, o, lane });
                c.fault("message duplicated");
            }
            if (!lane && p_over && wire.size() > 1 && c.pm(p_over))
            {
                std::swap(wire[wire.size() - 1], wire[wire.size() - 2]);
                if (wire.back().lane && wire[wire.size() - 2].lane == wire.back().lane)
                    std::swap(wire[wire.size() - 1], wire[wire.size() - 2]);
                else
                    c.fault("message overtaken");
            }
        }
    };
    auto deliver = [&](size_t n) {
        for (; n && !wire.empty(); --n)
        {
            const Flying f = wire.front();
            wire.pop_front();
            c.advance(200000);
            receive(c, got, f.p, f.o);
            apply(want, f.o);
            ++received;
            c.state((uint64_t(f.o.kind) << 40) ^ (f.p.data[0] & 0x00FFFFFF));
        }
    };
    Ops ops(c, c.pick({ 10u, 40u }), 220);
    while (ops.next())
    {
        Op o;
        o.g        = groups[c.choose(ngroups)];
        o.ch       = chs[c.choose(nch)];
        uint32_t k = mode == 1 ? c.choose(note_off2) : mode == 2 ? note_off2 + c.choose(system_msg - note_off2) : mode == 3 ? c.pick({ uint32_t(note_on), uint32_t(note_on2), uint32_t(note_on_pitch), uint32_t(bend), uint32_t(bend2), uint32_t(note_bend), uint32_t(reg_control), uint32_t(reg_per_note), uint32_t(note_off2) }) : c.choose(kinds);
        o.kind = Kind(k);
        o.a    = uint8_t(c.choose(3) ? c.choose(128) : 60 + c.choose(4));
        switch (o.kind)
        {
        case note_off:
        case note_on: o.v = c.choose(4) == 3 ? c.choose(512) : c.choose(1u << 16); break;
        case note_off2:
        case note_on2:
        case note_on_pitch:
        case note_on_attr:
            o.v = c.choose(4) == 3 ? from_real<midi::velocity>(c) : c.choose(3) ? c.choose(1u << 16) : c.pick({ 0u, 0xFFFFu, 0x8000u, 1u });
            if (o.kind != note_on2)
                o.w = c.choose(1u << 16);
            if (o.kind == note_on_attr || o.kind == note_off2)
                o.b = uint8_t(c.choose(2) ? c.choose(4) : c.choose(256));
            if (!o.b && o.kind != note_on_pitch)
                o.w = 0;
            break;
        case reg_per_note:
        case ass_per_note:
            o.b = uint8_t(c.choose(2) ? 3 : c.choose(256));
            o.v = gen_value(c);
            break;
        case note_management: o.b = uint8_t(c.choose(4)); break;
        case reg_control:
        case ass_control:
        case rel_reg_control:
        case rel_ass_control:
            o.a = uint8_t(c.choose(2) ? 0 : c.choose(128));
            o.b = uint8_t(c.choose(3) ? c.pick({ 0u, 7u, 1u }) : c.choose(128));
            o.v = gen_value(c);
            break;
        case program_bank: o.v = c.choose(1u << 14); break;
        case system_msg:
            o.ch = 0;
            o.a  = c.pick({ uint8_t(0xF8), uint8_t(0xF1), uint8_t(0xF3), uint8_t(0xF6), uint8_t(0xFA), uint8_t(0xFB), uint8_t(0xFC), uint8_t(0xFE), uint8_t(0xFF) });
            o.v  = o.a == 0xF1 || o.a == 0xF3 ? c.choose(128) : 0;
            break;
        case song_position: o.v = c.choose(1u << 14); break;
        case utility:
            o.a = c.pick({ uint8_t(0), uint8_t(0x10), uint8_t(0x20) });
            o.v = o.a ? c.choose(1u << 16) : 0;
            break;
        case tempo: o.v = gen_value(c), o.address = 1, o.ch = 0; break;
        case time_signature: o.v = c.choose(1u << 24), o.address = 1, o.ch = 0; break;
        case metronome: o.v = c.u32(), o.w = c.choose(1u << 16), o.address = 1, o.ch = 0; break;
        case key_signature:
        case chord:
            o.address = uint8_t(c.choose(2));
            if (o.address)
                o.ch = 0;
            o.v = o.kind == chord ? c.u32() : c.choose(256);
            o.w = o.kind == chord ? c.u32() : 0;
            o.x = o.kind == chord ? c.u32() : 0;
            break;
        case text:
        {
            o.address = uint8_t(c.choose(2));
            if (o.address)
                o.ch = 0;
            o.a = uint8_t(1 + c.choose(2));
            o.b = uint8_t(c.choose(13));
            std::string    s;
            const uint32_t salt = c.choose(1u << 16), size = c.choose(2) ? c.choose(50) : c.pick({ 12u, 24u, 36u, 13u, 0u });
            for (uint32_t i = 0; i < size; ++i)
                s += char(1 + mix64((uint64_t(salt) << 20) + i) % 255);
            // cut into packets by the application; other messages come in between; perhaps cut off
            const uint32_t n    = size <= 12 ? 1 : (size + 11) / 12;
            uint32_t       upto = n;
            if (n > 1 && p_loss && c.choose(4) == 3)
                upto = 1 + c.choose(n - 1), c.fault("sender cut off");
            for (uint32_t i = 0; i < upto; ++i)
            {
                o.form = uint8_t(n == 1 ? 0 : i == 0 ? 1 : i + 1 == n ? 3 : 2);
                o.s    = s.substr(i * 12, 12);
                o.brief = c.choose(3) == 2;
                send(o);
                if (c.choose(3) == 2)
                {
                    Op x;
                    x.kind = control2;
                    x.g    = o.g;
                    x.ch   = uint8_t(c.choose(16));
                    x.a    = uint8_t(c.choose(128));
                    x.v    = gen_value(c);
                    send(x);
                }
            }
            deliver(c.choose(uint32_t(wire.size() + 1)));
            continue;
        }
        default: o.v = gen_value(c); break;
        }
        if (o.kind == program || o.kind == program2)
            o.v = 0;
        o.brief = c.choose(3) == 2;
        if (o.brief && o.kind == note_off && c.choose(2))
            o.v = 0x8000;
        if (o.brief && (o.kind == note_off2 || o.kind == note_on_attr) && c.choose(2))
            o.w = 0;
        send(o);
        if (p_crash && c.pm(p_crash))
        {
            c.fault("receiver restarted");
            got = want = {};
        }
        if (c.choose(3) == 0)
        {
            deliver(c.choose(uint32_t(wire.size() + 1)));
            if (c.choose(8) == 7)
                compare_sound(c, got, want);
        }
    }
    ops.close();
    deliver(wire.size());
    compare(c, got, want);
    compare_sound(c, got, want);
    c.probe("messages received", received);
    if (received > 8)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C22",
                             "a performance of seeded MIDI 1 and MIDI 2 channel voice, system, utility and flex data messages over a link that loses, duplicates and reorders messages, followed by a receiver that uses "
                             "the library's views and value types; its complete state and sounding pitches are compared with a reference; non-trivial: more than eight messages received; distinct by hash of the "
                             "complete event log",
                             run, 500000, false, "channel voice, system, utility and flex data factories, views, predicates and value types", "link, performing and receiving application logic",
                             "field values within their documented ranges; texts stay in order and are cut off, not thinned out" };
    return s;
}
