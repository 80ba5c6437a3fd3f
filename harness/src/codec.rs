//! Field codecs: the wire code of every typed field value, written from the MIDI 2.0 tables and
//! independent of the library's own encoders.
use crate::engine::Src;
#[cfg(feature = "channel-voice2")]
use midi2::channel_voice2::{Controller as LibController, NoteAttribute as LibAttr};
#[cfg(feature = "flex-data")]
use midi2::flex_data::{
    Alteration as LibAlt, ChordType as LibChord, SetChordNameSharpsFlats as LibCsf, SetKeySignatureSharpsFlats as LibKsf,
    Tonic as LibTonic,
};
#[cfg(feature = "ump-stream")]
use midi2::ump_stream::{Direction as LibDir, Midi1Port as LibPort, UiHint as LibHint};
use midi2::ux::*;

pub struct CodecSpec {
    pub name: &'static str,
    pub bits: u32,
    /// is this raw value an accepted encoding
    pub valid: fn(u64) -> bool,
    /// the canonical encoding of the typed value the raw value denotes
    pub canon: fn(u64) -> u64,
    /// bits whose wire value is unspecified when the field holds this (canonical) value
    pub dc: fn(u64) -> u64,
    pub default: u64,
    /// draws a valid raw value
    pub draw: fn(&mut Src) -> u64,
    /// every canonical value, when few enough to list
    pub all: fn() -> Vec<u64>,
}

pub trait Codec {
    type T: PartialEq + std::fmt::Debug;
    const SPEC: &'static CodecSpec;
    fn enc(t: &Self::T) -> u64;
    fn dec(raw: u64) -> Self::T;
}

fn yes(_: u64) -> bool {
    true
}
fn id(x: u64) -> u64 {
    x
}
fn none(_: u64) -> u64 {
    0
}
fn list0() -> Vec<u64> {
    vec![]
}

macro_rules! uint {
    ($n:ident, $t:ty, $bits:expr, $mk:expr, $un:expr) => {
        pub struct $n;
        impl Codec for $n {
            type T = $t;
            const SPEC: &'static CodecSpec = &CodecSpec {
                name: stringify!($n),
                bits: $bits,
                valid: yes,
                canon: id,
                dc: none,
                default: 0,
                draw: |s| s.val($bits),
                all: || if $bits <= 8 { (0..1u64 << $bits).collect() } else { vec![] },
            };
            fn enc(t: &$t) -> u64 {
                let f: fn($t) -> u64 = $un;
                f(*t)
            }
            fn dec(raw: u64) -> $t {
                let f: fn(u64) -> $t = $mk;
                f(raw)
            }
        }
    };
}
uint!(Bool, bool, 1, |r| r != 0, |t| t as u64);
uint!(U4, u4, 4, |r| u4::new(r as u8), |t| u8::from(t) as u64);
uint!(U7, u7, 7, |r| u7::new(r as u8), |t| u8::from(t) as u64);
uint!(U8, u8, 8, |r| r as u8, |t| t as u64);
uint!(U14, u14, 14, |r| u14::new(r as u16), |t| u16::from(t) as u64);
uint!(U16, u16, 16, |r| r as u16, |t| t as u64);
uint!(U20, u20, 20, |r| u20::new(r as u32), |t| u32::from(t) as u64);
uint!(U28, u28, 28, |r| u28::new(r as u32), |t| u32::from(t) as u64);
uint!(U32, u32, 32, |r| r as u32, |t| t as u64);
uint!(
    U7x2, [u7; 2], 14,
    |r| [u7::new((r >> 7) as u8 & 0x7F), u7::new(r as u8 & 0x7F)],
    |t| (u8::from(t[0]) as u64) << 7 | u8::from(t[1]) as u64
);
uint!(
    U7x3, [u7; 3], 21,
    |r| [u7::new((r >> 14) as u8 & 0x7F), u7::new((r >> 7) as u8 & 0x7F), u7::new(r as u8 & 0x7F)],
    |t| (u8::from(t[0]) as u64) << 14 | (u8::from(t[1]) as u64) << 7 | u8::from(t[2]) as u64
);
uint!(
    U7x4, [u7; 4], 28,
    |r| [u7::new((r >> 21) as u8 & 0x7F), u7::new((r >> 14) as u8 & 0x7F), u7::new((r >> 7) as u8 & 0x7F), u7::new(r as u8 & 0x7F)],
    |t| (u8::from(t[0]) as u64) << 21 | (u8::from(t[1]) as u64) << 14 | (u8::from(t[2]) as u64) << 7 | u8::from(t[3]) as u64
);

/// bank valid flag + 14 bit bank
pub struct OptBank;
impl Codec for OptBank {
    type T = Option<u14>;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "OptBank",
        bits: 15,
        valid: yes,
        canon: |r| if r >> 14 == 0 { 0 } else { r },
        dc: |r| if r >> 14 == 0 { 0x3FFF } else { 0 },
        default: 0,
        draw: |s| s.val(15),
        all: list0,
    };
    fn enc(t: &Self::T) -> u64 {
        match t {
            None => 0,
            Some(b) => 1 << 14 | u16::from(*b) as u64,
        }
    }
    fn dec(raw: u64) -> Self::T {
        if raw >> 14 == 0 {
            None
        } else {
            Some(u14::new(raw as u16 & 0x3FFF))
        }
    }
}

#[cfg(feature = "channel-voice2")]
mod cv2 {
use super::*;
/// attribute type octet + 16 data bits
pub struct Attr;
impl Codec for Attr {
    type T = Option<LibAttr>;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "NoteAttribute",
        bits: 24,
        valid: |r| r >> 16 <= 3,
        canon: |r| if r >> 16 == 0 { 0 } else { r },
        dc: |r| if r >> 16 == 0 { 0xFFFF } else { 0 },
        default: 0,
        draw: |s| s.below(4) << 16 | s.val(16),
        all: list0,
    };
    fn enc(t: &Self::T) -> u64 {
        match t {
            None => 0,
            Some(LibAttr::ManufacturerSpecific(d)) => 1 << 16 | *d as u64,
            Some(LibAttr::ProfileSpecific(d)) => 2 << 16 | *d as u64,
            Some(LibAttr::Pitch7_9(f)) => 3 << 16 | f.to_bits() as u64,
            _ => u64::MAX,
        }
    }
    fn dec(raw: u64) -> Self::T {
        let d = raw as u16;
        match raw >> 16 {
            1 => Some(LibAttr::ManufacturerSpecific(d)),
            2 => Some(LibAttr::ProfileSpecific(d)),
            3 => Some(LibAttr::Pitch7_9(midi2::num::Fixed7_9::from_bits(d))),
            _ => None,
        }
    }
}

pub const CONTROLLERS: [u64; 22] =
    [1, 2, 3, 7, 8, 10, 11, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 91, 92, 93, 94, 95];
/// controller index octet + 32 data bits
pub struct Ctrl;
pub fn controller_code(c: &LibController) -> u64 {
    use LibController::*;
    let (i, d) = match *c {
        Modulation(d) => (1, d),
        Breath(d) => (2, d),
        Pitch7_25(f) => (3, f.to_bits()),
        Volume(d) => (7, d),
        Balance(d) => (8, d),
        Pan(d) => (10, d),
        Expression(d) => (11, d),
        SoundVariation(d) => (70, d),
        Timbre(d) => (71, d),
        ReleaseTime(d) => (72, d),
        AttackTime(d) => (73, d),
        Brightness(d) => (74, d),
        DecayTime(d) => (75, d),
        VebratoRate(d) => (76, d),
        VebratoDepth(d) => (77, d),
        VebratoDelay(d) => (78, d),
        Undefined(d) => (79, d),
        ReverbSendLevel(d) => (91, d),
        ChorusSendLevel(d) => (93, d),
        SoundController { index, data } => (69 + index as u64, data),
        EffectDepth { index, data } => (90 + index as u64, data),
        _ => (0xFFFF, 0),
    };
    i << 32 | d as u64
}
impl Codec for Ctrl {
    type T = LibController;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "Controller",
        bits: 40,
        valid: |r| CONTROLLERS.contains(&(r >> 32)),
        canon: id,
        dc: none,
        default: 1 << 32,
        draw: |s| *s.pick(&CONTROLLERS) << 32 | s.val(32),
        all: list0,
    };
    fn enc(t: &Self::T) -> u64 {
        controller_code(t)
    }
    fn dec(raw: u64) -> Self::T {
        use LibController::*;
        let d = raw as u32;
        match raw >> 32 {
            1 => Modulation(d),
            2 => Breath(d),
            3 => Pitch7_25(midi2::num::Fixed7_25::from_bits(d)),
            7 => Volume(d),
            8 => Balance(d),
            10 => Pan(d),
            11 => Expression(d),
            i @ 70..=79 => SoundController { index: i as u8 - 69, data: d },
            i @ 91..=95 => EffectDepth { index: i as u8 - 90, data: d },
            i => panic!("harness: controller {i}"),
        }
    }
}

}
#[cfg(feature = "channel-voice2")]
pub use cv2::*;

#[cfg(feature = "flex-data")]
mod flex {
use super::*;
pub struct Tonic;
const TONICS: [LibTonic; 8] = [
    LibTonic::NonStandard, LibTonic::A, LibTonic::B, LibTonic::C, LibTonic::D, LibTonic::E, LibTonic::F, LibTonic::G,
];
impl Codec for Tonic {
    type T = LibTonic;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "Tonic",
        bits: 4,
        valid: |r| r < 8,
        canon: id,
        dc: none,
        default: 3,
        draw: |s| s.below(8),
        all: || (0..8).collect(),
    };
    fn enc(t: &LibTonic) -> u64 {
        TONICS.iter().position(|x| x == t).map(|x| x as u64).unwrap_or(u64::MAX)
    }
    fn dec(raw: u64) -> LibTonic {
        TONICS[raw as usize]
    }
}

/// two's complement nibble; -8 is non-standard
pub struct KeySf;
impl Codec for KeySf {
    type T = LibKsf;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "KeySharpsFlats",
        bits: 4,
        valid: yes,
        canon: id,
        dc: none,
        default: 0,
        draw: |s| s.below(16),
        all: || (0..16).collect(),
    };
    fn enc(t: &LibKsf) -> u64 {
        match t {
            LibKsf::Sharps(n) => u8::from(*n) as u64,
            LibKsf::Flats(n) => (16 - u8::from(*n) as u64) % 16,
            LibKsf::NonStandard => 8,
            #[allow(unreachable_patterns)]
            _ => u64::MAX,
        }
    }
    fn dec(raw: u64) -> LibKsf {
        match raw {
            0..=7 => LibKsf::Sharps(u3::new(raw as u8)),
            8 => LibKsf::NonStandard,
            _ => LibKsf::Flats(u3::new(16 - raw as u8)),
        }
    }
}

pub struct ChordSf;
impl Codec for ChordSf {
    type T = LibCsf;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "ChordSharpsFlats",
        bits: 4,
        valid: |r| matches!(r, 0 | 1 | 2 | 0xE | 0xF),
        canon: id,
        dc: none,
        default: 0,
        draw: |s| *s.pick(&[0, 1, 2, 0xE, 0xF]),
        all: || vec![0, 1, 2, 0xE, 0xF],
    };
    fn enc(t: &LibCsf) -> u64 {
        match t {
            LibCsf::DoubleSharp => 2,
            LibCsf::Sharp => 1,
            LibCsf::Natural => 0,
            LibCsf::Flat => 0xF,
            LibCsf::DoubleFlat => 0xE,
            #[allow(unreachable_patterns)]
            _ => u64::MAX,
        }
    }
    fn dec(raw: u64) -> LibCsf {
        match raw {
            0 => LibCsf::Natural,
            1 => LibCsf::Sharp,
            2 => LibCsf::DoubleSharp,
            0xE => LibCsf::DoubleFlat,
            0xF => LibCsf::Flat,
            r => panic!("harness: sharps/flats {r}"),
        }
    }
}

pub struct Chord;
const CHORDS: [LibChord; 27] = {
    use LibChord::*;
    [
        ClearChord, Major, Major6th, Major7th, Major9th, Major11th, Major13th, Minor, Minor6th, Minor7th, Minor9th, Minor11th,
        Minor13th, Dominant, Dominant9th, Dominant11th, Dominant13th, Augmented, Augmented7th, Diminished, Diminished7th,
        HalfDiminished, MajorMinor, Pedal, Power, Suspended2nd, Suspended4th,
    ]
};
impl Codec for Chord {
    type T = LibChord;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "ChordType",
        bits: 8,
        valid: |r| r < 27,
        canon: id,
        dc: none,
        default: 0,
        draw: |s| s.below(27),
        all: || (0..27).collect(),
    };
    fn enc(t: &LibChord) -> u64 {
        CHORDS.iter().position(|x| x == t).map(|x| x as u64).unwrap_or(u64::MAX)
    }
    fn dec(raw: u64) -> LibChord {
        CHORDS[raw as usize]
    }
}

pub struct Alt;
impl Codec for Alt {
    type T = Option<LibAlt>;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "Alteration",
        bits: 8,
        valid: |r| r >> 4 <= 4,
        canon: |r| if r >> 4 == 0 { 0 } else { r },
        dc: |r| if r >> 4 == 0 { 0xF } else { 0 },
        default: 0,
        draw: |s| s.below(5) << 4 | s.val(4),
        all: || (0..5 * 16).filter(|x| *x == 0 || *x >= 16).collect(),
    };
    fn enc(t: &Self::T) -> u64 {
        match t {
            None => 0,
            Some(LibAlt::Add(x)) => 0x10 | u8::from(*x) as u64,
            Some(LibAlt::Subtract(x)) => 0x20 | u8::from(*x) as u64,
            Some(LibAlt::Raise(x)) => 0x30 | u8::from(*x) as u64,
            Some(LibAlt::Lower(x)) => 0x40 | u8::from(*x) as u64,
            #[allow(unreachable_patterns)]
            _ => u64::MAX,
        }
    }
    fn dec(raw: u64) -> Self::T {
        let x = u4::new(raw as u8 & 0xF);
        match raw >> 4 {
            1 => Some(LibAlt::Add(x)),
            2 => Some(LibAlt::Subtract(x)),
            3 => Some(LibAlt::Raise(x)),
            4 => Some(LibAlt::Lower(x)),
            _ => None,
        }
    }
}

}
#[cfg(feature = "flex-data")]
pub use flex::*;

/// address crumb (0 channel, 1 group) + channel nibble
pub struct OptChan;
impl Codec for OptChan {
    type T = Option<u4>;
    const SPEC: &'static CodecSpec = &CodecSpec {
        name: "OptionalChannel",
        bits: 6,
        valid: yes,
        canon: |r| if r >> 4 == 0 { r } else { 0x10 },
        dc: |r| if r >> 4 == 0 { 0 } else { 0xF },
        default: 0x10,
        draw: |s| s.below(64),
        all: || (0..17).collect(),
    };
    fn enc(t: &Self::T) -> u64 {
        match t {
            Some(c) => u8::from(*c) as u64,
            None => 0x10,
        }
    }
    fn dec(raw: u64) -> Self::T {
        if raw >> 4 == 0 {
            Some(u4::new(raw as u8 & 0xF))
        } else {
            None
        }
    }
}

#[cfg(feature = "ump-stream")]
macro_rules! few {
    ($n:ident, $t:ty, $bits:expr, $default:expr, [$($code:literal => $v:expr),*]) => {
        pub struct $n;
        impl Codec for $n {
            type T = $t;
            const SPEC: &'static CodecSpec = &CodecSpec {
                name: stringify!($n),
                bits: $bits,
                valid: |r| [$($code),*].contains(&r),
                canon: id,
                dc: none,
                default: $default,
                draw: |s| *s.pick(&[$($code),*]),
                all: || vec![$($code),*],
            };
            fn enc(t: &$t) -> u64 {
                $(if *t == $v { return $code; })*
                u64::MAX
            }
            fn dec(raw: u64) -> $t {
                match raw {
                    $($code => $v,)*
                    r => panic!("harness: {} {r}", stringify!($n)),
                }
            }
        }
    };
}
#[cfg(feature = "ump-stream")]
few!(Hint, LibHint, 2, 0, [0u64 => LibHint::Undeclared, 1u64 => LibHint::Receiver, 2u64 => LibHint::Sender, 3u64 => LibHint::SenderReciever]);
#[cfg(feature = "ump-stream")]
few!(Port, Option<LibPort>, 2, 0, [0u64 => None, 1u64 => Some(LibPort::DontRestrictBandwidth), 2u64 => Some(LibPort::RestrictBandwidth)]);
#[cfg(feature = "ump-stream")]
few!(Dir, LibDir, 2, 3, [1u64 => LibDir::Input, 2u64 => LibDir::Output, 3u64 => LibDir::Bidirectional]);
