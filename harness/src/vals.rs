//! Typed field values: every expressible value is writable, lands on its code and reads back.
use crate::codec::*;
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::props_a::*;
use crate::types::*;
use midi2::prelude::*;
use std::sync::OnceLock;

/// every listable value of a codec
fn every(s: &CodecSpec) -> Vec<u64> {
    if s.name.starts_with('U') && !s.name.contains('x') && s.bits <= 14 {
        return (0..1u64 << s.bits).collect();
    }
    match s.name {
        "OptBank" => std::iter::once(0).chain(1 << 14..1 << 15).collect(),
        "OptChannel" | "OptionalChannel" => (0..64).collect(),
        _ => (s.all)(),
    }
}

/// (kit, field, values listed before this pair) for every listable field
fn pairs<U: Model>() -> Vec<(usize, usize, u64, Vec<u64>)> {
    let mut v = vec![];
    let mut at = 0;
    for (i, k) in U::kits().iter().enumerate() {
        for (j, f) in k.spec().fields.iter().enumerate() {
            let all = every(f.codec);
            if all.is_empty() {
                continue;
            }
            let n = all.len() as u64;
            v.push((i, j, at, all));
            at += n;
        }
    }
    v
}
type Pairs = Vec<(usize, usize, u64, Vec<u64>)>;
static P32: OnceLock<Pairs> = OnceLock::new();
static P8: OnceLock<Pairs> = OnceLock::new();

fn write_and_check<U: Model>(c: &mut Ctx, k: K<U>, i: usize, raws: &[u64]) -> R {
    let s = k.spec();
    with_object(c, k, &MUTABLE, 40, &mut |c, o, m, cap| {
        for raw in raws {
            let op = Op::Set(i, *raw);
            c.note(|| show_op(s, &op));
            c.hit("value");
            step(o, m, &op, cap, "value")?;
            let code = (s.fields[i].codec.canon)(*raw);
            same!(o.get(i), code, format!("value:{}", s.fields[i].codec.name), "{} {} written as code {raw:X}", s.name, s.fields[i].name);
        }
        Ok(())
    })
}

/// every value of every field with a listable type, once each before any repeats
pub fn c18_listed<U: Model>(c: &mut Ctx) -> R {
    let p = if U::BITS == 32 { P32.get_or_init(pairs::<U>) } else { P8.get_or_init(pairs::<U>) };
    let total: u64 = p.last().map(|x| x.2 + x.3.len() as u64).unwrap();
    let at = c.idx % total;
    let q = p.partition_point(|x| x.2 <= at) - 1;
    let (i, j, base, all) = &p[q];
    let k = U::kits()[*i];
    c.key = hash_str(k.spec().name);
    c.note(|| k.spec().name.to_string());
    write_and_check(c, k, *j, &[all[(at - base) as usize]])
}

/// fields too wide to list: corners and random values, one after the other on the same message
pub fn c18_wide<U: Model>(c: &mut Ctx) -> R {
    static WIDE: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    let wide = WIDE.get_or_init(|| {
        let mut wide = vec![];
        for (i, k) in U::kits().iter().enumerate() {
            for (j, f) in k.spec().fields.iter().enumerate() {
                if every(f.codec).is_empty() {
                    wide.push((i, j));
                }
            }
        }
        wide
    });
    let (i, j) = wide[(c.idx % wide.len() as u64) as usize];
    let k = U::kits()[i];
    c.key = hash_str(k.spec().name) ^ j as u64;
    c.note(|| k.spec().name.to_string());
    let codec = k.spec().fields[j].codec;
    let raws: Vec<u64> = (0..1 + c.s.us(3)).map(|_| (codec.draw)(&mut c.s)).collect();
    write_and_check(c, k, j, &raws)
}

// ---------------------------------------------------------------- by name

use midi2::channel_voice2::{Controller, NoteAttribute};
use midi2::flex_data::{Alteration, ChordType, SetChordNameSharpsFlats as Csf, SetKeySignatureSharpsFlats as Ksf, Tonic as LibTonic};
use midi2::num::{Fixed7_25, Fixed7_9};
use midi2::ump_stream::{Direction, Midi1Port, UiHint};
use midi2::ux::*;

/// (value, code on the wire)
fn controllers(d: u32) -> Vec<(Controller, u8)> {
    use Controller::*;
    let mut v = vec![
        (Modulation(d), 1), (Breath(d), 2), (Pitch7_25(Fixed7_25::from_bits(d)), 3), (Volume(d), 7), (Balance(d), 8), (Pan(d), 10),
        (Expression(d), 11), (SoundVariation(d), 70), (Timbre(d), 71), (ReleaseTime(d), 72), (AttackTime(d), 73), (Brightness(d), 74),
        (DecayTime(d), 75), (VebratoRate(d), 76), (VebratoDepth(d), 77), (VebratoDelay(d), 78), (Undefined(d), 79),
        (ReverbSendLevel(d), 91), (ChorusSendLevel(d), 93),
    ];
    for i in 1..=10u8 {
        v.push((SoundController { index: i, data: d }, 69 + i));
    }
    for i in 1..=5u8 {
        v.push((EffectDepth { index: i, data: d }, 90 + i));
    }
    v
}
/// two names of one code are allowed to read back as either
fn controller_pair(c: &Controller) -> (u64, u64) {
    let x = controller_code(c);
    (x >> 32, x & 0xFFFF_FFFF)
}
fn attributes(d: u16) -> Vec<(Option<NoteAttribute>, u8, Option<u16>)> {
    vec![
        (None, 0, None),
        (Some(NoteAttribute::ManufacturerSpecific(d)), 1, Some(d)),
        (Some(NoteAttribute::ProfileSpecific(d)), 2, Some(d)),
        (Some(NoteAttribute::Pitch7_9(Fixed7_9::from_bits(d))), 3, Some(d)),
    ]
}

macro_rules! in_buffers {
    ($c:ident, $n:literal, [$($p:ident)::+], $m:ident => $body:block) => {{
        match $c.s.us(4) {
            0 => {
                let mut $m = <$($p)::+<Vec<u32>>>::new();
                $body
            }
            1 => {
                let mut $m = <$($p)::+<[u32; $n]>>::new();
                $body
            }
            2 => {
                let mut b: Vec<u32> = (0..$n + $c.s.us(3)).map(|_| $c.s.word()).collect();
                let mut $m = <$($p)::+<&mut [u32]>>::try_new_with_buffer(&mut b[..]).unwrap();
                $body
            }
            _ => {
                let b: Vec<u32> = (0..$c.s.us(8)).map(|_| $c.s.word()).collect();
                let mut $m = <$($p)::+<Vec<u32>>>::new_with_buffer(b);
                $body
            }
        }
    }};
}

/// write `$v`, compare the code at the given place and the value read back
macro_rules! say {
    ($c:ident, $m:ident, $set:ident, $get:ident, $v:expr, $read:expr, $what:literal; $($unit:expr, $mask:expr => $code:expr);*) => {{
        let v = $v;
        let before = $m.data().to_vec();
        $c.note(|| format!("{} {:?}", stringify!($set), v));
        $c.hit($what);
        $m.$set(v);
        let d = $m.data().to_vec();
        let mut want = before.clone();
        $( want[$unit] = want[$unit] & !($mask as u32) | $code as u32; )*
        same!(hx(&d), hx(&want), concat!("code:", $what), "{:?} written on {}", v, hx(&before));
        let r = $m.$get();
        ensure!($read(&r, &v), concat!("read:", $what), "{:?} reads back as {:?}", v, r);
    }};
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

pub fn c18_named(c: &mut Ctx) -> R {
    match c.idx % 8 {
        0 => {
            let data = c.s.word();
            let list = controllers(data);
            let n = 1 + c.s.us(4);
            in_buffers!(c, 2, [midi2::channel_voice2::RegisteredPerNoteController], m => {
                for _ in 0..n {
                    let (v, code) = *c.s.pick(&list);
                    say!(c, m, set_controller, controller, v, |a: &Controller, b: &Controller| controller_pair(a) == controller_pair(b), "controller"; 0, 0xFF => code; 1, u32::MAX => data);
                }
            })
        }
        1 => {
            let data = c.s.word() as u16;
            let list = attributes(data);
            macro_rules! note {
                ($($p:ident)::+) => {
                    in_buffers!(c, 2, [$($p)::+], m => {
                        m.set_velocity(c.s.bits(16) as u16);
                        for _ in 0..3 {
                            let (v, code, d) = *c.s.pick(&list);
                            let low = m.data()[1] & 0xFFFF;
                            match d {
                                Some(d) => say!(c, m, set_attribute, attribute, v, eq, "note attribute"; 0, 0xFF => code; 1, 0xFFFF => d),
                                None => {
                                    // the data bits of an absent attribute are unspecified
                                    c.hit("note attribute");
                                    let _ = low;
                                    m.set_attribute(v);
                                    same!(m.data()[0] & 0xFF, 0, "code:note attribute", "no attribute");
                                    same!(m.attribute(), None, "read:note attribute", "no attribute");
                                }
                            }
                        }
                    })
                };
            }
            if c.s.chance(1, 2) {
                note!(midi2::channel_voice2::NoteOn)
            } else {
                note!(midi2::channel_voice2::NoteOff)
            }
        }
        2 => {
            in_buffers!(c, 4, [midi2::flex_data::SetKeySignature], m => {
                for _ in 0..4 {
                    let n = c.s.us(8) as u8;
                    let (v, code): (Ksf, u32) = match c.s.us(3) {
                        0 => (Ksf::Sharps(u3::new(n)), n as u32),
                        1 => (Ksf::Flats(u3::new(n)), (16 - n as u32) % 16),
                        _ => (Ksf::NonStandard, 8),
                    };
                    say!(c, m, set_sharps_flats, sharps_flats, v, |a: &Ksf, b: &Ksf| a == b || KeySf::enc(a) == 0 && KeySf::enc(b) == 0, "key signature"; 1, 0xF000_0000u32 => code << 28);
                    let t = Tonic::dec(c.s.below(8));
                    let tc = Tonic::enc(&t) as u32;
                    say!(c, m, set_tonic, tonic, t, eq::<LibTonic>, "tonic"; 1, 0x0F00_0000 => tc << 24);
                }
            })
        }
        3 | 4 => {
            in_buffers!(c, 4, [midi2::flex_data::SetChordName], m => {
                for _ in 0..4 {
                    let a = *c.s.pick(&[Csf::DoubleSharp, Csf::Sharp, Csf::Natural, Csf::Flat, Csf::DoubleFlat]);
                    let ac = ChordSf::enc(&a) as u32;
                    let t = Tonic::dec(c.s.below(8));
                    let tc = Tonic::enc(&t) as u32;
                    let k = Chord::dec(c.s.below(27));
                    let kc = Chord::enc(&k) as u32;
                    match c.s.us(6) {
                        0 => say!(c, m, set_tonic_sharps_flats, tonic_sharps_flats, a, eq::<Csf>, "chord accidental"; 1, 0xF000_0000u32 => ac << 28),
                        1 => say!(c, m, set_tonic, tonic, t, eq::<LibTonic>, "tonic"; 1, 0x0F00_0000 => tc << 24),
                        2 => say!(c, m, set_chord_type, chord_type, k, eq::<ChordType>, "chord type"; 1, 0x00FF_0000 => kc << 16),
                        3 => say!(c, m, set_bass_sharps_flats, bass_sharps_flats, a, eq::<Csf>, "chord accidental"; 3, 0xF000_0000u32 => ac << 28),
                        4 => say!(c, m, set_bass_note, bass_note, t, eq::<LibTonic>, "tonic"; 3, 0x0F00_0000 => tc << 24),
                        _ => say!(c, m, set_bass_chord_type, bass_chord_type, k, eq::<ChordType>, "chord type"; 3, 0x00FF_0000 => kc << 16),
                    }
                }
            })
        }
        5 => {
            in_buffers!(c, 4, [midi2::flex_data::SetChordName], m => {
                for _ in 0..4 {
                    let x = u4::new(c.s.bits(4) as u8);
                    let v = *c.s.pick(&[Alteration::Add(x), Alteration::Subtract(x), Alteration::Raise(x), Alteration::Lower(x)]);
                    let code = Alt::enc(&Some(v)) as u32;
                    let v = Some(v);
                    match c.s.us(6) {
                        0 => say!(c, m, set_chord_alteration1, chord_alteration1, v, eq::<Option<Alteration>>, "alteration"; 1, 0x0000_FF00 => code << 8),
                        1 => say!(c, m, set_chord_alteration2, chord_alteration2, v, eq::<Option<Alteration>>, "alteration"; 1, 0x0000_00FF => code),
                        2 => say!(c, m, set_chord_alteration3, chord_alteration3, v, eq::<Option<Alteration>>, "alteration"; 2, 0xFF00_0000u32 => code << 24),
                        3 => say!(c, m, set_chord_alteration4, chord_alteration4, v, eq::<Option<Alteration>>, "alteration"; 2, 0x00FF_0000 => code << 16),
                        4 => say!(c, m, set_bass_alteration1, bass_alteration1, v, eq::<Option<Alteration>>, "alteration"; 3, 0x0000_FF00 => code << 8),
                        _ => say!(c, m, set_bass_alteration2, bass_alteration2, v, eq::<Option<Alteration>>, "alteration"; 3, 0x0000_00FF => code),
                    }
                }
            })
        }
        6 => {
            in_buffers!(c, 4, [midi2::ump_stream::FunctionBlockInfo], m => {
                for _ in 0..4 {
                    match c.s.us(3) {
                        0 => {
                            let (v, code) = *c.s.pick(&[(UiHint::Undeclared, 0u32), (UiHint::Receiver, 1), (UiHint::Sender, 2), (UiHint::SenderReciever, 3)]);
                            say!(c, m, set_ui_hint, ui_hint, v, eq::<UiHint>, "ui hint"; 0, 0x30 => code << 4)
                        }
                        1 => {
                            let (v, code) = *c.s.pick(&[(None, 0u32), (Some(Midi1Port::DontRestrictBandwidth), 1), (Some(Midi1Port::RestrictBandwidth), 2)]);
                            say!(c, m, set_midi1_port, midi1_port, v, eq::<Option<Midi1Port>>, "midi 1.0 port"; 0, 0x0C => code << 2)
                        }
                        _ => {
                            let (v, code) = *c.s.pick(&[(Direction::Input, 1u32), (Direction::Output, 2), (Direction::Bidirectional, 3)]);
                            say!(c, m, set_direction, direction, v, eq::<Direction>, "direction"; 0, 0x03 => code)
                        }
                    }
                }
            })
        }
        _ => {
            in_buffers!(c, 2, [midi2::channel_voice2::ProgramChange], m => {
                for _ in 0..4 {
                    let b = c.s.bits(14) as u16;
                    if c.s.chance(1, 4) {
                        c.hit("bank");
                        m.set_bank(None);
                        same!(m.bank(), None, "read:bank", "no bank");
                        same!(m.data()[0] & 1, 0, "code:bank", "no bank");
                    } else {
                        // bank MSB and LSB octets hold seven bits each; their order is not judged here
                        c.hit("bank");
                        c.note(|| format!("bank {b:X}"));
                        let before = m.data().to_vec();
                        m.set_bank(Some(u14::new(b)));
                        same!(m.bank(), Some(u14::new(b)), "read:bank", "bank {b:X}");
                        same!(m.data()[0], before[0] | 1, "code:bank", "bank {b:X} option flags");
                        same!(m.data()[1] & 0xFFFF_8080, before[1] & 0xFFFF_0000, "code:bank", "bank {b:X} on {}", hx(&before));
                    }
                }
            })
        }
    }
    Ok(())
}
