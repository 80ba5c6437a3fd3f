//! C22: the buffers the library provides against a plain list of units, and the error types.
use crate::engine::*;
use crate::types::*;
use midi2::buffer::*;
use midi2::error;
use midi2::prelude::*;

/// what one step of a buffer's history does
#[derive(Clone, Debug)]
enum Step<U> {
    Resize(usize),
    Write(usize, U),
    Fill(U),
}

fn unit<U: Un>(c: &mut Ctx) -> U {
    U::from32(c.s.word())
}
fn units<U: Un>(c: &mut Ctx, n: usize) -> Vec<U> {
    (0..n).map(|_| unit(c)).collect()
}
/// steps around the sizes of a buffer of `n` units
fn steps<U: Un>(c: &mut Ctx, n: usize) -> Vec<Step<U>> {
    let max = if n > 24 { 2 * n } else { 40 };
    (0..1 + c.s.us(8))
        .map(|_| match c.s.us(4) {
            0 => Step::Resize(c.s.len_biased(max)),
            1 => Step::Resize((n + c.s.us(7)).saturating_sub(3)),
            2 => Step::Write(c.s.us(max + 1), unit(c)),
            _ => Step::Fill(unit(c)),
        })
        .collect()
}
fn edit<U: Un, B: BufferMut + Buffer<Unit = U>>(b: &mut B, list: &mut [U], st: &Step<U>) {
    match st {
        Step::Write(i, v) if *i < list.len() => {
            b.buffer_mut()[*i] = *v;
            list[*i] = *v;
        }
        Step::Fill(v) => {
            b.buffer_mut().fill(*v);
            list.fill(*v);
        }
        _ => {}
    }
}
fn growable<U: Un, B: BufferMut + BufferResize + Buffer<Unit = U>>(c: &mut Ctx, what: &str, b: &mut B, mut list: Vec<U>, h: &[Step<U>]) -> R {
    same!(b.buffer(), &list[..], "start", "{what} before any step");
    for st in h {
        if let Step::Resize(n) = st {
            c.hit("resized");
            b.resize(*n);
            list.resize(*n, U::zero());
        }
        edit(b, &mut list, st);
        same!(b.buffer(), &list[..], "growable", "{what} after {st:X?}");
        same!(b.buffer_mut(), &list[..], "growable-mut", "{what} after {st:X?}");
    }
    Ok(())
}
fn fixed<U: Un, B: BufferMut + BufferTryResize + Buffer<Unit = U>>(c: &mut Ctx, what: &str, b: &mut B, mut list: Vec<U>, h: &[Step<U>]) -> R {
    same!(b.buffer(), &list[..], "start", "{what} before any step");
    for st in h {
        if let Step::Resize(n) = st {
            let fits = *n <= list.len();
            c.hit(if fits { "fits" } else { "refused" });
            same!(b.try_resize(*n).is_ok(), fits, "try-resize", "{what} of {} units asked for {n}", list.len());
        }
        edit(b, &mut list, st);
        same!(b.buffer(), &list[..], "fixed", "{what} after {st:X?}");
        same!(b.buffer_mut(), &list[..], "fixed-mut", "{what} after {st:X?}");
    }
    Ok(())
}
fn array<const N: usize, U: Un>(c: &mut Ctx, h: &[Step<U>], d: &[U]) -> R {
    let what = format!("array of {N}");
    let start = <[U; N] as BufferDefault>::default();
    fixed(c, &what, &mut start.clone(), vec![U::zero(); N], h)?;
    let own: [U; N] = std::array::from_fn(|i| d.get(i).copied().unwrap_or(U::zero()));
    fixed(c, &what, &mut own.clone(), own.to_vec(), h)?;
    // into an array: everything, and zero behind it
    let fits = d.len() <= N;
    let mut want = d.to_vec();
    want.resize(N.max(d.len()), U::zero());
    let check = |r: Result<[U; N], error::BufferOverflow>, from: &str| -> R {
        same!(r.is_ok(), fits, "into-array", "{from} of {} units into an {what}", d.len());
        if let Ok(a) = r {
            same!(&a[..], &want[..], "into-array-units", "{from} of {} units into an {what}", d.len());
        }
        Ok(())
    };
    check(TryFromBuffer::try_from_buffer(d), "slice")?;
    check(TryIntoBuffer::try_into_buffer(d), "slice (into)")?;
    let mut x = d.to_vec();
    check(TryFromBuffer::try_from_buffer(&mut x[..]), "mutable slice")?;
    check(TryIntoBuffer::try_into_buffer(&mut x[..]), "mutable slice (into)")?;
    same!(&x[..], d, "source", "the mutable slice after the conversion");
    // spare capacity is not content
    x.reserve(c.s.us(3) * N);
    check(TryIntoBuffer::try_into_buffer(x.clone()), "vector (into)")?;
    check(TryFromBuffer::try_from_buffer(x), "vector")?;
    c.hit(if fits { "array-fits" } else { "array-overflow" });
    // and out of one
    let v: Vec<U> = FromBuffer::from_buffer(own);
    same!(v, own.to_vec(), "from-array", "vector from an {what}");
    let v: Vec<U> = IntoBuffer::into_buffer(own);
    same!(v, own.to_vec(), "from-array", "vector from an {what} (into)");
    Ok(())
}

pub fn c22_buffers<U: Un>(c: &mut Ctx) -> R {
    let n = match c.s.us(24) {
        23 => c.s.us(3000),
        20..=22 => c.s.us(300),
        _ => c.s.len_biased(24),
    };
    if n > 24 {
        c.hit("long");
    }
    let d: Vec<U> = units(c, n);
    let h: Vec<Step<U>> = steps(c, n);
    c.note(|| format!("units {d:X?}, steps {h:X?}"));
    same!(<U as Unit>::zero().to32(), 0, "zero", "the zero unit");
    growable(c, "default vector", &mut <Vec<U> as BufferDefault>::default(), vec![], &h)?;
    growable(c, "vector", &mut d.clone(), d.clone(), &h)?;
    let mut own = d.clone();
    own.reserve(c.s.us(50));
    growable(c, "borrowed vector", &mut &mut own, d.clone(), &h)?;
    let mut own = d.clone();
    let mut list = d.clone();
    fixed(c, "mutable slice", &mut &mut own[..], d.clone(), &h)?;
    for st in &h {
        edit(&mut &mut list[..], &mut d.clone(), st);
    }
    same!(own, list, "slice-writes", "the borrowed units after the history");
    let shared = &d[..];
    same!(shared.buffer(), &d[..], "shared", "a shared slice");
    // between the kinds
    let v: Vec<U> = FromBuffer::from_buffer(&d[..]);
    same!(v, d, "slice-to-vector", "");
    let v: Vec<U> = IntoBuffer::into_buffer(&d[..]);
    same!(v, d, "slice-to-vector", "(into)");
    let mut own = d.clone();
    let mut v: Vec<U> = FromBuffer::from_buffer(&mut own[..]);
    same!(v, d, "mutable-slice-to-vector", "");
    v.fill(unit(c));
    same!(own, d, "copy", "the source after the copy was written");
    let v: Vec<U> = IntoBuffer::into_buffer(&mut own[..]);
    same!(v, d, "mutable-slice-to-vector", "(into)");
    let at = own.as_ptr();
    let s: &[U] = FromBuffer::from_buffer(&mut own[..]);
    same!(s, &d[..], "freeze", "mutable to shared slice");
    ensure!(s.as_ptr() == at, "freeze-place", "mutable to shared slice moved the units");
    match c.s.us(if n > 24 { 14 } else { 11 }) {
        0 => array::<0, U>(c, &h, &d),
        1 => array::<1, U>(c, &h, &d),
        2 => array::<2, U>(c, &h, &d),
        3 => array::<3, U>(c, &h, &d),
        4 => array::<4, U>(c, &h, &d),
        5 => array::<5, U>(c, &h, &d),
        6 => array::<8, U>(c, &h, &d),
        7 => array::<11, U>(c, &h, &d),
        8 => array::<16, U>(c, &h, &d),
        9 => array::<23, U>(c, &h, &d),
        10 => array::<64, U>(c, &h, &d),
        11 => array::<255, U>(c, &h, &d),
        12 => array::<256, U>(c, &h, &d),
        _ => array::<1025, U>(c, &h, &d),
    }
}

/// the errors of rejected inputs and of overflows, converted and printed
pub fn c22_errors(c: &mut Ctx) -> R {
    let n = c.s.us(9);
    let d: Vec<u32> = units(c, n);
    let b: Vec<u8> = units(c, n);
    c.note(|| format!("{d:08X?} {b:02X?}"));
    let mut seen = vec![];
    if let Err(e) = UmpMessage::try_from(&d[..]) {
        seen.push(e);
    }
    if let Err(e) = BytesMessage::try_from(&b[..]) {
        seen.push(e);
    }
    for e in seen {
        c.hit("invalid");
        ensure!(!e.0.is_empty(), "no-reason", "{d:08X?} or {b:02X?} is rejected without a reason");
        let all: error::Error = e.clone().into();
        same!(all, error::Error::InvalidData(e.clone()), "convert", "{e:?} as the common error");
        ensure!(all != error::Error::BufferOverflow, "convert-kind", "{e:?} equals an overflow");
        ensure!(e.to_string().contains(e.0), "print", "{e:?} prints as {e}");
        let dynamic: Box<dyn std::error::Error> = Box::new(e.clone());
        ensure!(dynamic.to_string().contains(e.0), "print", "{e:?} prints as {dynamic}");
    }
    let mut m = midi2::sysex7::Sysex7::<[u32; 4]>::try_new().unwrap();
    let want = c.s.us(30);
    let r = m.try_set_payload((0..want).map(|x| u7::new(x as u8 & 0x7F)));
    same!(r.is_ok(), want <= 12, "overflow", "{want} bytes into two packets");
    if let Err(e) = r {
        c.hit("overflow");
        ensure!(!e.to_string().is_empty(), "print", "an overflow prints as nothing");
        same!(error::Error::from(e), error::Error::BufferOverflow, "convert", "an overflow as the common error");
    }
    Ok(())
}
