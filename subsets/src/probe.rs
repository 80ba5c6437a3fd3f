use crate::codec::{self, Codec};
use midi2::buffer::*;
use midi2::error::BufferOverflow;
use midi2::prelude::*;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use crate::types::*;

include!("../../harness/src/faces.rs");

pub trait Probe<U: Un>: Sync {
    fn name(&self) -> &'static str;
    fn parse(&self, d: &[U]) -> Option<String>;
    fn edit(&self, start: Option<&[U]>, cap: usize, ops: &[Op]) -> String;
}
/// between observations; never part of one
const SEP: char = '\u{1}';

pub enum Op {
    Set(usize, u64),
    Edit(Edit),
}

fn observe<U: Un, M: Face<U>>(s: &Spec, m: &M) -> String {
    let mut t = String::new();
    let f: Vec<String> = (0..s.fields.len()).map(|i| format!("{}={:X}", s.fields[i].name, m.f_get(i))).collect();
    let ops = [ItOp::Hint, ItOp::Next, ItOp::Len, ItOp::Nth(1), ItOp::CloneCollect];
    let _ = write!(
        t,
        "{} {} [{}] {:?} {:?} {:?} {:?} {:?} {:?}",
        hx(m.f_data()), m.f_dbg(), f.join(" "), m.f_content(), m.f_size(), m.f_packets(),
        m.f_drive(Which::Payload, &ops), m.f_drive(Which::TextBytes, &ops), m.f_drive(Which::Packets, &ops)
    );
    t
}
fn run<U: Un>(s: &Spec, o: &mut dyn Obj<U>, ops: &[Op]) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_ops(s, o, ops))).unwrap_or("PANIC".into())
}
fn run_ops<U: Un>(s: &Spec, o: &mut dyn Obj<U>, ops: &[Op]) -> String {
    let mut t = String::new();
    for op in ops {
        match op {
            Op::Set(i, r) if *i < s.fields.len() => o.set(*i, *r),
            Op::Set(..) => {}
            Op::Edit(e) => t.push(if o.edit(e).is_ok() { '+' } else { '!' }),
        }
    }
    let f: Vec<String> = (0..s.fields.len()).map(|i| format!("{:X}", o.get(i))).collect();
    let _ = write!(t, "{} [{}] {:?} {:?}", hx(o.data()), f.join(" "), o.content(), o.packets());
    t
}

// the same rows as the harness's tables, each under the feature of its family
macro_rules! msg {
    ($K:ident, $SPEC:ident, $name:literal, Cv1, $($r:tt)*) => { #[cfg(feature = "channel-voice1")] row!($K, $SPEC, $name, Cv1, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, Cv2, $($r:tt)*) => { #[cfg(feature = "channel-voice2")] row!($K, $SPEC, $name, Cv2, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, Sc, $($r:tt)*) => { #[cfg(feature = "system-common")] row!($K, $SPEC, $name, Sc, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, Ut, $($r:tt)*) => { #[cfg(feature = "utility")] row!($K, $SPEC, $name, Ut, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, Flex, $($r:tt)*) => { #[cfg(feature = "flex-data")] row!($K, $SPEC, $name, Flex, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, Stream, $($r:tt)*) => { #[cfg(feature = "ump-stream")] row!($K, $SPEC, $name, Stream, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, S7, $($r:tt)*) => { #[cfg(feature = "sysex7")] row!($K, $SPEC, $name, S7, $($r)*); };
    ($K:ident, $SPEC:ident, $name:literal, S8, $($r:tt)*) => { #[cfg(feature = "sysex8")] row!($K, $SPEC, $name, S8, $($r)*); };
}
macro_rules! row {
    ($K:ident, $SPEC:ident, $name:literal, $fam:ident, $shape:expr; $($p:ident)::+; $U:ty, $Bound:path, $pk:ident; $min:literal, [$($consts:expr),*], $addr:literal;
     $content:ident $(($($ca:ident),*))?; { $( $g:ident $s:ident $C:ident $sh:literal [ $($pc:expr),* ] );* $(;)? }) => {
        pub static $SPEC: Spec = Spec {
            name: $name,
            fam: Fam::$fam,
            shape: $shape,
            min: $min,
            consts: &[$($consts),*],
            fields: &[$( FieldSpec { name: stringify!($g), pieces: &[$($pc),*], codec: <codec::$C as Codec>::SPEC, shared: $sh } ),*],
            addr_nonzero: $addr,
        };
        face!($($p)::+; $U, $Bound, $pk; $content $(($($ca),*))?; { $( $g $s $C $sh [ $($pc),* ] );* });
        pub struct $K;
        impl Probe<$U> for $K {
            fn name(&self) -> &'static str {
                $name
            }
            fn parse(&self, d: &[$U]) -> Option<String> {
                <$($p)::+<&[$U]>>::try_from(d).ok().map(|m| observe(&$SPEC, &m))
            }
            fn edit(&self, start: Option<&[$U]>, cap: usize, ops: &[Op]) -> String {
                let mut t = String::new();
                set_default_cap(cap);
                let (fix, grow, arr): (Result<$($p)::+<Fix<$U>>, BufferOverflow>, $($p)::+<Grow<$U>>, Result<$($p)::+<[$U; ARR_BIG]>, BufferOverflow>) = match start {
                    Some(d) => {
                        let Ok(m) = <$($p)::+<&[$U]>>::try_from(d) else { return "rejected".into() };
                        (m.clone().try_rebuffer_into(), m.clone().rebuffer_into(), m.try_rebuffer_into())
                    }
                    None => (<$($p)::+<Fix<$U>>>::try_new(), <$($p)::+<Grow<$U>>>::new(), <$($p)::+<[$U; ARR_BIG]>>::try_new()),
                };
                match fix {
                    Ok(m) => t += &run(&$SPEC, &mut Tr(m), ops),
                    Err(_) => t += "overflow",
                }
                t.push(SEP);
                t += &run(&$SPEC, &mut Rz(grow), ops);
                t.push(SEP);
                match arr {
                    Ok(m) => t += &run(&$SPEC, &mut Tr(m), ops),
                    Err(_) => t += "overflow",
                }
                t
            }
        }
    };
}
include!("../../harness/src/tables.rs");
include!("probe_lists.rs");

fn hex<U: Un>(s: &str) -> Vec<U> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| U::from32(u32::from_str_radix(x, 16).expect("probe: bad request"))).collect()
}
fn feed(s: &str) -> Feed {
    Feed { bytes: hex::<u8>(s), hint: Hint::Exact }
}
fn op(s: &str) -> Op {
    let (k, r) = s.split_at(1);
    let two = |r: &str| -> (usize, String) {
        let (a, b) = r.split_once(':').expect("probe: bad request");
        (a.parse().expect("probe: bad request"), b.to_string())
    };
    match k {
        "s" => {
            let (i, v) = two(r);
            Op::Set(i, v.parse().expect("probe: bad request"))
        }
        "t" => Op::Edit(Edit::Text(String::from_utf8(hex(r)).expect("probe: bad request"))),
        "S" => Op::Edit(Edit::Set(feed(r))),
        "A" => Op::Edit(Edit::Append(feed(r))),
        "b" => Op::Edit(Edit::AppendByte(r.parse().unwrap())),
        "I" => {
            let (i, v) = two(r);
            Op::Edit(Edit::Insert(feed(&v), i))
        }
        "X" => {
            let (i, v) = two(r);
            let (j, v) = two(&v);
            Op::Edit(Edit::Splice(feed(&v), i, j, RangeKind::HalfOpen))
        }
        _ => {
            let (i, v) = two(r);
            Op::Edit(Edit::SetByte(v.parse().unwrap(), i))
        }
    }
}

macro_rules! any_ump {
    ($($i:item)*) => { $( #[cfg(any(feature = "channel-voice1", feature = "channel-voice2", feature = "flex-data", feature = "sysex7", feature = "sysex8", feature = "system-common", feature = "ump-stream", feature = "utility"))] $i )* };
}
macro_rules! any_bytes {
    ($($i:item)*) => { $( #[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))] $i )* };
}
any_ump! {
    fn all32(d: &[u32], t: &mut String) {
        if let Ok(m) = UmpMessage::<&[u32]>::try_from(d) {
            let _ = write!(t, "all={} {:?} {:?}{SEP}", hx(m.data()), m, packets_vec(&m));
            let g: Result<UmpMessage<Fix<u32>>, _> = m.try_rebuffer_into();
            if let Ok(g) = g {
                let _ = write!(t, "moved={} {:?}{SEP}", hx(g.data()), packets_vec(&g));
            }
        }
    }
}
any_bytes! {
    fn all8(d: &[u8], t: &mut String) {
        if let Ok(m) = BytesMessage::<&[u8]>::try_from(d) {
            let _ = write!(t, "all={} {:?}{SEP}", hx(m.data()), m);
            let g: Result<BytesMessage<Fix<u8>>, _> = m.try_rebuffer_into();
            if let Ok(g) = g {
                let _ = write!(t, "moved={}{SEP}", hx(g.data()));
            }
        }
    }
}
#[cfg(not(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common")))]
fn all8(_: &[u8], _: &mut String) {}

#[allow(unused_variables)]
fn families32(d: &[u32], t: &mut String) {
    macro_rules! fam {
        ($m:ident $f:ident) => {
            if let Ok(m) = midi2::$m::$f::<&[u32]>::try_from(d) {
                let _ = write!(t, "family:{}={} {:?} {:?}{SEP}", stringify!($m), hx(m.data()), m, packets_vec(&m));
            }
        };
    }
    #[cfg(feature = "channel-voice1")]
    fam!(channel_voice1 ChannelVoice1);
    #[cfg(feature = "channel-voice2")]
    fam!(channel_voice2 ChannelVoice2);
    #[cfg(feature = "system-common")]
    fam!(system_common SystemCommon);
    #[cfg(feature = "flex-data")]
    fam!(flex_data FlexData);
    #[cfg(feature = "ump-stream")]
    fam!(ump_stream UmpStream);
    #[cfg(feature = "utility")]
    fam!(utility Utility);
}
#[allow(unused_variables)]
fn families8(d: &[u8], t: &mut String) {
    macro_rules! fam {
        ($m:ident $f:ident) => {
            if let Ok(m) = midi2::$m::$f::<&[u8]>::try_from(d) {
                let _ = write!(t, "family:{}={} {:?}{SEP}", stringify!($m), hx(m.data()), m);
            }
        };
    }
    #[cfg(feature = "channel-voice1")]
    fam!(channel_voice1 ChannelVoice1);
    #[cfg(feature = "system-common")]
    fam!(system_common SystemCommon);
}
#[allow(unused_variables)]
fn packets(d: &[u32], t: &mut String) {
    macro_rules! pk {
        ($m:ident) => {
            if let Ok(p) = midi2::$m::Packet::try_from(d) {
                let _ = write!(t, "packet:{}={:?}{SEP}", stringify!($m), p);
            }
        };
    }
    #[cfg(feature = "channel-voice1")]
    pk!(channel_voice1);
    #[cfg(feature = "channel-voice2")]
    pk!(channel_voice2);
    #[cfg(feature = "system-common")]
    pk!(system_common);
    #[cfg(feature = "flex-data")]
    pk!(flex_data);
    #[cfg(feature = "ump-stream")]
    pk!(ump_stream);
    #[cfg(feature = "utility")]
    pk!(utility);
    #[cfg(feature = "sysex7")]
    pk!(sysex7);
    #[cfg(feature = "sysex8")]
    pk!(sysex8);
}
#[allow(unused_variables)]
fn conversions32(d: &[u32], t: &mut String) {
    macro_rules! cv {
        ($($m:ident::$f:ident)*) => {$(
            if let Ok(m) = midi2::$m::$f::<&[u32]>::try_from(d) {
                let b: midi2::$m::$f<Grow<u8>> = m.clone().into_bytes();
                let c: Result<midi2::$m::$f<Fix<u8>>, _> = m.try_into_bytes();
                let _ = write!(t, "bytes:{}={} {:?}{SEP}", stringify!($m), hx(b.data()), c.map(|c| hx(c.data())));
            }
        )*};
    }
    #[cfg(feature = "channel-voice1")]
    cv!(channel_voice1::NoteOff channel_voice1::NoteOn channel_voice1::KeyPressure channel_voice1::ControlChange channel_voice1::ProgramChange channel_voice1::ChannelPressure channel_voice1::PitchBend);
    #[cfg(feature = "system-common")]
    cv!(system_common::TimeCode system_common::SongPositionPointer system_common::SongSelect system_common::TuneRequest system_common::TimingClock system_common::Start system_common::Continue system_common::Stop system_common::ActiveSensing system_common::Reset);
    #[cfg(feature = "sysex7")]
    cv!(sysex7::Sysex7);
}
#[allow(unused_variables)]
fn conversions8(d: &[u8], t: &mut String) {
    macro_rules! cv {
        ($($m:ident::$f:ident)*) => {$(
            if let Ok(m) = midi2::$m::$f::<&[u8]>::try_from(d) {
                let b: midi2::$m::$f<Grow<u32>> = m.clone().into_ump();
                let c: Result<midi2::$m::$f<Fix<u32>>, _> = m.try_into_ump();
                let _ = write!(t, "words:{}={} {:?}{SEP}", stringify!($m), hx(b.data()), c.map(|c| hx(c.data())));
            }
        )*};
    }
    #[cfg(feature = "channel-voice1")]
    cv!(channel_voice1::NoteOff channel_voice1::NoteOn channel_voice1::KeyPressure channel_voice1::ControlChange channel_voice1::ProgramChange channel_voice1::ChannelPressure channel_voice1::PitchBend);
    #[cfg(feature = "system-common")]
    cv!(system_common::TimeCode system_common::SongPositionPointer system_common::SongSelect system_common::TuneRequest system_common::TimingClock system_common::Start system_common::Continue system_common::Stop system_common::ActiveSensing system_common::Reset);
    #[cfg(feature = "sysex7")]
    cv!(sysex7::Sysex7);
}
#[cfg(feature = "ci")]
fn discovery(d: &[u8], t: &mut String) {
    use midi2::ci::{Ci, DiscoveryQuery};
    if let Ok(m) = DiscoveryQuery::<1, &[u8]>::try_from(d) {
        let _ = write!(t, "discovery1={} {:?} {:?} {:?}{SEP}", hx(m.data()), m, m.source(), m.max_sysex_size());
    }
    if let Ok(m) = DiscoveryQuery::<2, &[u8]>::try_from(d) {
        let _ = write!(t, "discovery2={} {:?} {:?} {:?}{SEP}", hx(m.data()), m, m.source(), m.output_path_id());
    }
}
#[cfg(not(feature = "ci"))]
fn discovery(_: &[u8], _: &mut String) {}

fn parse<U: Un>(ps: &[&dyn Probe<U>], d: &[U], t: &mut String) {
    for p in ps {
        if let Some(o) = p.parse(d) {
            let _ = write!(t, "{}={}{SEP}", p.name(), o);
        }
    }
}
fn edit<U: Un>(ps: &[&dyn Probe<U>], w: &[&str]) -> String {
    let start: Option<Vec<U>> = if w[3] == "new" { None } else { Some(hex(w[3])) };
    let ops: Vec<Op> = w[4..].iter().map(|x| op(x)).collect();
    match ps.iter().find(|p| p.name() == w[1]) {
        Some(p) => p.edit(start.as_deref(), w[2].parse().expect("probe: bad request"), &ops),
        None => "absent".into(),
    }
}
fn answer(l: &str) -> String {
    let w: Vec<&str> = l.split(' ').collect();
    let mut t = String::new();
    match w[0] {
        "P" => {
            set_default_cap(w[1].parse().expect("probe: bad request"));
            let d = hex::<u32>(w[2]);
            parse(UPROBES, &d, &mut t);
            all32(&d, &mut t);
            families32(&d, &mut t);
            packets(&d, &mut t);
            conversions32(&d, &mut t);
        }
        "p" => {
            set_default_cap(w[1].parse().expect("probe: bad request"));
            let d = hex::<u8>(w[2]);
            parse(BPROBES, &d, &mut t);
            all8(&d, &mut t);
            families8(&d, &mut t);
            conversions8(&d, &mut t);
            discovery(&d, &mut t);
        }
        "E" => t = edit(UPROBES, &w),
        _ => t = edit(BPROBES, &w),
    }
    t
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let a = match std::panic::catch_unwind(|| answer(&l)) {
            Ok(a) => a.replace('\n', " "),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("PANIC {}", m.replace('\n', " "))
            }
        };
        let mut o = out.lock();
        if writeln!(o, "{a}").and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}
