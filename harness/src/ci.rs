//! MIDI-CI discovery queries of both versions.
use crate::engine::*;
use crate::types::*;
use midi2::ci::{Ci, DeviceId, DiscoveryQuery};
use midi2::prelude::*;
use midi2::ux::*;

/// (name, width); the last only in version 2
pub const FIELDS: [(&str, u32); 11] = [
    ("source", 28), ("device_manufacturer", 21), ("device_family", 14), ("model_number", 14), ("software_version", 28),
    ("process_inquiry_supported", 1), ("property_exchange_supported", 1), ("profile_configuration_supported", 1),
    ("protocol_negotiation_supported", 1), ("max_sysex_size", 28), ("output_path_id", 7),
];
pub fn min(version: u8) -> usize {
    30 + version as usize
}
fn nfields(version: u8) -> usize {
    9 + version as usize
}
/// the octets of a field, most significant value bits first
fn place(i: usize) -> (&'static [usize], u8) {
    match i {
        0 => (&[9, 8, 7, 6], 0x7F),
        1 => (&[14, 15, 16], 0x7F),
        2 => (&[18, 17], 0x7F),
        3 => (&[20, 19], 0x7F),
        4 => (&[21, 22, 23, 24], 0x7F),
        5 => (&[25], 0x10),
        6 => (&[25], 0x08),
        7 => (&[25], 0x04),
        8 => (&[25], 0x02),
        9 => (&[29, 28, 27, 26], 0x7F),
        _ => (&[30], 0x7F),
    }
}
pub fn fetch(d: &[u8], i: usize) -> u64 {
    let (at, mask) = place(i);
    let mut v = 0u64;
    for o in at {
        let b = (d[*o] & mask) as u64;
        v = if mask == 0x7F { v << 7 | b } else { (b != 0) as u64 };
    }
    v
}
pub fn store(d: &mut [u8], i: usize, raw: u64) {
    let (at, mask) = place(i);
    let mut v = raw;
    for o in at.iter().rev() {
        if mask == 0x7F {
            d[*o] = v as u8 & 0x7F;
            v >>= 7;
        } else {
            d[*o] = d[*o] & !mask | if v != 0 { mask } else { 0 };
        }
    }
}
pub fn fresh(version: u8) -> Vec<u8> {
    let n = min(version);
    let mut d = vec![0u8; n];
    d[..6].copy_from_slice(&[0xF0, 0x7E, 0x7F, 0x0D, 0x70, version]);
    for b in &mut d[10..14] {
        *b = 0x7F;
    }
    d[n - 1] = 0xF7;
    d
}
/// the length of the message at the start of the slice, if it is a discovery query of this version
pub fn accept(version: u8, d: &[u8]) -> Option<usize> {
    if d.first() != Some(&0xF0) {
        return None;
    }
    let end = d.iter().position(|b| *b == 0xF7)?;
    if d[1..end].iter().any(|b| *b >= 0x80) || end + 1 < min(version) {
        return None;
    }
    let w = fresh(version);
    if d[1..6] != w[1..6] || d[10..14] != w[10..14] {
        return None;
    }
    Some(end + 1)
}

pub struct Seen {
    pub data: Vec<u8>,
    pub fields: Vec<u64>,
    pub payload: Vec<u8>,
    pub size: usize,
    pub device: DeviceId,
    pub destination: u32,
    pub dbg: String,
    pub ump: Vec<u8>,
}

fn n3(v: [u7; 3]) -> u64 {
    v.iter().fold(0, |a, b| a << 7 | u8::from(*b) as u64)
}
fn n4(v: [u7; 4]) -> u64 {
    v.iter().fold(0, |a, b| a << 7 | u8::from(*b) as u64)
}
fn s7(v: u64, k: u32) -> u7 {
    u7::new((v >> (7 * k)) as u8 & 0x7F)
}

macro_rules! look {
    (1, $m:expr) => { look!(base, $m) };
    (2, $m:expr) => {{ let mut s = look!(base, $m); s.fields.push(u8::from($m.output_path_id()) as u64); s }};
    (base, $m:expr) => {{
        let m = &$m;
        Seen {
            data: m.data().to_vec(),
            fields: vec![
                u32::from(m.source()) as u64,
                n3(m.device_manufacturer()),
                u16::from(m.device_family()) as u64,
                u16::from(m.model_number()) as u64,
                n4(m.software_version()),
                m.process_inquiry_supported() as u64,
                m.property_exchange_supported() as u64,
                m.profile_configuration_supported() as u64,
                m.protocol_negotiation_supported() as u64,
                u32::from(m.max_sysex_size()) as u64,
            ],
            payload: m.payload().map(u8::from).collect(),
            size: m.payload_size(),
            device: m.device_id(),
            destination: u32::from(m.destination()),
            dbg: format!("{:?}", m),
            ump: {
                let s: midi2::sysex7::Sysex7<Vec<u8>> = midi2::sysex7::Sysex7::<&[u8]>::try_from(m.data()).unwrap().rebuffer_into();
                let w: midi2::sysex7::Sysex7<Vec<u32>> = s.into_ump();
                w.payload().map(u8::from).collect()
            },
        }
    }};
}
macro_rules! put {
    (1, $m:ident, $i:expr, $v:expr) => { put!(base, $m, $i, $v) };
    (2, $m:ident, $i:expr, $v:expr) => {
        if $i == 10 { $m.set_output_path_id(s7($v, 0)) } else { put!(base, $m, $i, $v) }
    };
    (base, $m:ident, $i:expr, $v:expr) => {
        match $i {
            0 => $m.set_source(u28::new($v as u32)),
            1 => $m.set_device_manufacturer([s7($v, 2), s7($v, 1), s7($v, 0)]),
            2 => $m.set_device_family(u14::new($v as u16)),
            3 => $m.set_model_number(u14::new($v as u16)),
            4 => $m.set_software_version([s7($v, 3), s7($v, 2), s7($v, 1), s7($v, 0)]),
            5 => $m.set_process_inquiry_supported($v != 0),
            6 => $m.set_property_exchange_supported($v != 0),
            7 => $m.set_profile_configuration_supported($v != 0),
            8 => $m.set_protocol_negotiation_supported($v != 0),
            _ => $m.set_max_sysex_size(u28::new($v as u32)),
        }
    };
}

fn check(version: u8, want: &[u8], s: &Seen, at: &str) -> R {
    same!(hx(&s.data), hx(want), format!("data:{at}"), "discovery query v{version} {at}");
    for i in 0..nfields(version) {
        same!(s.fields[i], fetch(want, i), format!("read:{}:{at}", FIELDS[i].0), "discovery query v{version} {} {at} of {}", FIELDS[i].0, hx(want));
    }
    same!(hx(&s.payload), hx(&want[1..want.len() - 1]), format!("payload:{at}"), "payload of discovery query v{version} {at}");
    same!(s.size, want.len() - 2, format!("payload-size:{at}"), "payload size of discovery query v{version} {at} {}", hx(want));
    same!(s.device, DeviceId::FunctionBlock, format!("device:{at}"), "device id of discovery query v{version} {at}");
    same!(s.destination, 0x0FFF_FFFF, format!("destination:{at}"), "destination of discovery query v{version} {at}");
    same!(hx(&s.ump), hx(&want[1..want.len() - 1]), format!("as-words:{at}"), "packets of discovery query v{version} {at}");
    for w in want.chunks(1) {
        ensure!(s.dbg.contains(&format!("{:02X}", w[0])), format!("debug:{at}"), "discovery query v{version} {at} {} is rendered {}", hx(want), s.dbg);
    }
    ensure!(s.data.len() >= 2 && s.data[1..s.data.len() - 1].iter().all(|b| *b < 0x80), format!("seven-bit:{at}"), "data byte of discovery query v{version} {}", hx(&s.data));
    Ok(())
}

macro_rules! history {
    ($c:ident, $V:tt, $m:ident, $want:ident, $at:expr) => {{
        check($V, &$want, &look!($V, $m), $at)?;
        let start = $want.clone();
        for _ in 0..$c.s.us(8) {
            let i = $c.s.us(nfields($V));
            let v = $c.s.val(FIELDS[i].1);
            $c.note(|| format!("set_{} {v:X}", FIELDS[i].0));
            $c.hit("written");
            put!($V, $m, i, v);
            store(&mut $want, i, v);
            check($V, &$want, &look!($V, $m), "written")?;
        }
        let _ = start;
        let d = $m.data().to_vec();
        ensure!($m == $m.clone(), "clone", "discovery query {} differs from its clone", hx(&d));
        // the result parses as the same type and no other version
        match DiscoveryQuery::<$V, &[u8]>::try_from(&d[..]) {
            Ok(p) => check($V, &$want, &look!($V, p), "parsed again")?,
            Err(e) => return fail("reparse", format!("discovery query {} is rejected: {e}", hx(&d))),
        }
        ensure!(DiscoveryQuery::<{ 3 - $V }, &[u8]>::try_from(&d[..]).is_err(), "other-version", "{} accepted as the other version", hx(&d));
        // moved to other buffers
        let n = d.len();
        match $c.s.us(4) {
            0 => {
                let r: DiscoveryQuery<$V, Vec<u8>> = DiscoveryQuery::<$V, &[u8]>::try_from(&d[..]).unwrap().rebuffer_into();
                check($V, &$want, &look!($V, r), "rebuffered to a vector")?;
            }
            1 => {
                let r: Result<DiscoveryQuery<$V, [u8; 40]>, _> = DiscoveryQuery::<$V, &[u8]>::try_from(&d[..]).unwrap().try_rebuffer_into();
                match r {
                    Ok(r) => check($V, &$want, &look!($V, r), "rebuffered to an array")?,
                    Err(_) => ensure!(n > 40, "rebuffer-overflow", "discovery query of {n} bytes into 40"),
                }
            }
            2 => {
                let r: Result<DiscoveryQuery<$V, [u8; 31]>, _> = DiscoveryQuery::<$V, &[u8]>::try_from(&d[..]).unwrap().try_rebuffer_into();
                match r {
                    Ok(r) => {
                        ensure!(n <= 31, "rebuffer-missing-overflow", "discovery query of {n} bytes into 31");
                        check($V, &$want, &look!($V, r), "rebuffered to an array")?
                    }
                    Err(_) => ensure!(n > 31, "rebuffer-overflow", "discovery query of {n} bytes into 31"),
                }
            }
            _ => {}
        }
    }};
}
macro_rules! fallible {
    ($c:ident, $V:tt, $r:expr, $cap:expr, $what:literal) => {{
        let mut want = fresh($V);
        match $r {
            Err(_) => {
                $c.hit("overflow");
                ensure!($cap < min($V), concat!("construct-overflow:", $what), "discovery query v{} in {} bytes", $V, $cap);
            }
            Ok(mut m) => {
                ensure!($cap >= min($V), concat!("construct-missing-overflow:", $what), "discovery query v{} in {} bytes", $V, $cap);
                $c.hit("constructed");
                history!($c, $V, m, want, "constructed");
            }
        }
    }};
}
macro_rules! built {
    ($c:ident, $V:tt) => {{
        let cap = if $c.s.chance(2, 3) { min($V) + $c.s.us(10) } else { $c.s.us(min($V) + 1) };
        let fill: Vec<u8> = (0..cap).map(|_| $c.s.word() as u8).collect();
        set_default_cap(cap);
        let kind = $c.s.us(12);
        $c.note(|| format!("discovery query v{} kind {kind} over {}", $V, hx(&fill)));
        let mut want = fresh($V);
        match kind {
            0 => {
                let mut m = DiscoveryQuery::<$V, Vec<u8>>::new();
                $c.hit("constructed");
                history!($c, $V, m, want, "constructed");
            }
            1 => {
                let mut m = DiscoveryQuery::<$V, Vec<u8>>::new_with_buffer(fill);
                $c.hit("constructed");
                history!($c, $V, m, want, "constructed");
            }
            2 => {
                let mut m = DiscoveryQuery::<$V, Grow<u8>>::new();
                $c.hit("constructed");
                history!($c, $V, m, want, "constructed");
            }
            3 => {
                let mut m = DiscoveryQuery::<$V, Grow<u8>>::new_with_buffer(Grow::dirty(&fill));
                $c.hit("constructed");
                history!($c, $V, m, want, "constructed");
            }
            4 => fallible!($c, $V, (DiscoveryQuery::<$V, Fix<u8>>::try_new_with_buffer(Fix::dirty(&fill))), cap, "fixed-size user buffer"),
            5 => {
                let len = $c.s.us(cap + 1);
                fallible!($c, $V, (DiscoveryQuery::<$V, Shr<u8>>::try_new_with_buffer(Shr::dirty(&fill, len))), cap, "bounded user buffer")
            }
            6 => fallible!($c, $V, (DiscoveryQuery::<$V, Fix<u8>>::try_new()), cap, "fixed-size user buffer, default"),
            7 => fallible!($c, $V, (DiscoveryQuery::<$V, Shr<u8>>::try_new()), cap, "bounded user buffer, default"),
            8 => {
                let a: [u8; 31] = crate::kits::arr(&fill);
                fallible!($c, $V, (DiscoveryQuery::<$V, [u8; 31]>::try_new_with_buffer(a)), 31, "array")
            }
            9 => {
                let a: [u8; 32] = crate::kits::arr(&fill);
                fallible!($c, $V, (DiscoveryQuery::<$V, [u8; 32]>::try_new_with_buffer(a)), 32, "array")
            }
            10 => fallible!($c, $V, (DiscoveryQuery::<$V, [u8; 45]>::try_new()), 45, "array, default"),
            _ => fallible!($c, $V, (DiscoveryQuery::<$V, [u8; 20]>::try_new()), 20, "small array"),
        }
        Ok(())
    }};
}
pub fn c19_built(c: &mut Ctx) -> R {
    if c.idx % 2 == 0 {
        built!(c, 1)
    } else {
        built!(c, 2)
    }
}

/// slices at and near the layout
pub fn gen(c: &mut Ctx, version: u8) -> Vec<u8> {
    let mut d = fresh(version);
    for i in 0..nfields(version) {
        store(&mut d, i, c.s.val(FIELDS[i].1));
    }
    if c.s.chance(1, 3) {
        d[25] = c.s.bits(7) as u8;
    }
    if c.s.chance(1, 4) {
        let end = d.len() - 1;
        let n = 1 + c.s.us(20);
        let more: Vec<u8> = (0..n).map(|_| c.s.bits(7) as u8).collect();
        d.splice(end..end, more);
    }
    if c.s.chance(1, 3) {
        let n = 1 + c.s.us(20);
        for _ in 0..n {
            d.push(if c.s.chance(1, 2) { c.s.word() as u8 } else { *c.s.pick(&[0xF0, 0xF7, 0x7F, 0x80, 0xFF, 0]) });
        }
    }
    if c.s.chance(1, 2) {
        for _ in 0..1 + c.s.us(2) {
            match c.s.us(6) {
                0 => {
                    let i = c.s.us(d.len());
                    d[i] = c.s.word() as u8;
                }
                1 => {
                    let i = c.s.us(d.len());
                    d[i] = 0xF7;
                }
                2 => {
                    let i = c.s.us(d.len());
                    d[i] ^= 1 << c.s.us(8);
                }
                3 => {
                    let n = c.s.us(d.len() + 1);
                    d.truncate(n.max(1));
                }
                4 => {
                    let i = c.s.us(6.min(d.len()));
                    d[i] = c.s.word() as u8;
                }
                _ => {
                    let i = c.s.us(d.len());
                    d.remove(i);
                    if d.is_empty() {
                        d.push(0xF0);
                    }
                }
            }
        }
    }
    d
}

macro_rules! parsed {
    ($c:ident, $V:tt) => {{
        let d = gen($c, $V);
        $c.note(|| format!("v{} {}", $V, hx(&d)));
        $c.hit("parsed");
        let want = accept($V, &d);
        ensure!(DiscoveryQuery::<{ 3 - $V }, &[u8]>::try_from(&d[..]).is_ok() == accept(3 - $V, &d).is_some(), "accept-other", "v{} from {}", 3 - $V, hx(&d));
        match (want, DiscoveryQuery::<$V, &[u8]>::try_from(&d[..])) {
            (None, Err(_)) => {
                $c.tag("rejected");
                Ok(())
            }
            (None, Ok(_)) => fail("accepts", format!("discovery query v{} accepts {}", $V, hx(&d))),
            (Some(_), Err(e)) => fail("rejects", format!("discovery query v{} rejects {}: {e}", $V, hx(&d))),
            (Some(n), Ok(m)) => {
                $c.tag("accepted");
                let mut want = d[..n].to_vec();
                check($V, &want, &look!($V, m), "parsed")?;
                let mut o: DiscoveryQuery<$V, Vec<u8>> = m.rebuffer_into();
                history!($c, $V, o, want, "loaded");
                Ok(())
            }
        }
    }};
}
pub fn c19_parsed(c: &mut Ctx) -> R {
    if c.idx % 2 == 0 {
        parsed!(c, 1)
    } else {
        parsed!(c, 2)
    }
}

/// C01: parse as either version and read everything
pub fn use_all(d: &[u8]) -> bool {
    let mut any = false;
    if let Ok(m) = DiscoveryQuery::<1, &[u8]>::try_from(d) {
        std::hint::black_box(look!(1, m).fields);
        any = true;
    }
    if let Ok(m) = DiscoveryQuery::<2, &[u8]>::try_from(d) {
        std::hint::black_box(look!(2, m).fields);
        any = true;
    }
    any
}
