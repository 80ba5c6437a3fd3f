//! The uniform face and kit of every message type.
use crate::codec::{self, Codec};
use crate::engine::alloc_count;
use crate::types::*;
use midi2::buffer::*;
use midi2::error::BufferOverflow;
use midi2::prelude::*;

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/faces.rs"));

// ---------------------------------------------------------------- kits

pub fn mk<'a, U: Un, M: Obj<U> + 'a>(m: Result<M, BufferOverflow>) -> Made<'a, U> {
    m.map(|m| Box::new(m) as Box<dyn Obj<U> + 'a>)
}

pub fn arr<U: Un, const N: usize>(v: &[U]) -> [U; N] {
    let mut a = [U::default(); N];
    let n = N.min(v.len());
    a[..n].copy_from_slice(&v[..n]);
    a
}

macro_rules! kit_arr {
    (try $p:ty, $N:expr, $U:ty, $c:ident, $st:ident) => {{
        match $c {
            Ctor::With => {
                let a: [$U; $N] = arr(&$st.v);
                let (r, n) = alloc_count(|| <$p>::try_new_with_buffer(a));
                $st.allocs = n;
                Some(mk(r.map(Tr)))
            }
            Ctor::TryNew => {
                let (r, n) = alloc_count(|| <$p>::try_new());
                $st.allocs = n;
                Some(mk(r.map(Tr)))
            }
            Ctor::New => None,
        }
    }};
    (new $p:ty, $N:expr, $U:ty, $c:ident, $st:ident) => {{
        if let Ctor::New = $c {
            let (r, n) = alloc_count(|| <$p>::new());
            $st.allocs = n;
            Some(mk(Ok(Tr(r))))
        } else {
            kit_arr!(try $p, $N, $U, $c, $st)
        }
    }};
}

macro_rules! kit {
    ($K:ident, $SPEC:ident; $($p:ident)::+; $U:ty; $min:literal) => {
        pub struct $K;
        impl Kit<$U> for $K {
            fn spec(&self) -> &'static Spec {
                &$SPEC
            }
            fn parse<'a>(&self, d: &'a [$U]) -> Result<Box<dyn Obj<$U> + 'a>, String> {
                match <$($p)::+<&'a [$U]>>::try_from(d) {
                    Ok(m) => Ok(Box::new(Ro(m))),
                    Err(e) => Err(e.to_string()),
                }
            }
            fn make<'a>(&self, k: Kind, c: Ctor, st: &'a mut St<$U>) -> Option<Made<'a, $U>> {
                match k {
                    Kind::Vec => match c {
                        Ctor::New => Some(mk(Ok(Rz(<$($p)::+<Vec<$U>>>::new())))),
                        Ctor::With => Some(mk(Ok(Rz(<$($p)::+<Vec<$U>>>::new_with_buffer(st.v.clone()))))),
                        Ctor::TryNew => None,
                    },
                    Kind::MutVec => match c {
                        Ctor::With => Some(mk(Ok(Rz(<$($p)::+<&'a mut Vec<$U>>>::new_with_buffer(&mut st.v))))),
                        _ => None,
                    },
                    Kind::Grow => match c {
                        Ctor::New => {
                            let (r, n) = alloc_count(|| <$($p)::+<Grow<$U>>>::new());
                            st.allocs = n;
                            Some(mk(Ok(Rz(r))))
                        }
                        Ctor::With => {
                            let b = Grow::dirty(&st.v);
                            let (r, n) = alloc_count(move || <$($p)::+<Grow<$U>>>::new_with_buffer(b));
                            st.allocs = n;
                            Some(mk(Ok(Rz(r))))
                        }
                        Ctor::TryNew => None,
                    },
                    Kind::Slice => match c {
                        Ctor::With => {
                            let s: &'a mut [$U] = &mut st.v[..];
                            let (r, n) = alloc_count(move || <$($p)::+<&'a mut [$U]>>::try_new_with_buffer(s));
                            st.allocs = n;
                            Some(mk(r.map(Tr)))
                        }
                        _ => None,
                    },
                    Kind::Fix => match c {
                        Ctor::With => {
                            let b = Fix::dirty(&st.v);
                            let (r, n) = alloc_count(move || <$($p)::+<Fix<$U>>>::try_new_with_buffer(b));
                            st.allocs = n;
                            Some(mk(r.map(Tr)))
                        }
                        Ctor::TryNew => {
                            set_default_cap(st.v.len());
                            let (r, n) = alloc_count(|| <$($p)::+<Fix<$U>>>::try_new());
                            st.allocs = n;
                            Some(mk(r.map(Tr)))
                        }
                        Ctor::New => None,
                    },
                    Kind::Shr => match c {
                        Ctor::With => {
                            let b = Shr::dirty(&st.v, st.len);
                            let (r, n) = alloc_count(move || <$($p)::+<Shr<$U>>>::try_new_with_buffer(b));
                            st.allocs = n;
                            Some(mk(r.map(Tr)))
                        }
                        Ctor::TryNew => {
                            set_default_cap(st.v.len());
                            let (r, n) = alloc_count(|| <$($p)::+<Shr<$U>>>::try_new());
                            st.allocs = n;
                            Some(mk(r.map(Tr)))
                        }
                        Ctor::New => None,
                    },
                    Kind::ArrUnder => kit_arr!(try $($p)::+<[$U; $min - 1]>, {$min - 1}, $U, c, st),
                    Kind::ArrMin => kit_arr!(try $($p)::+<[$U; $min]>, $min, $U, c, st),
                    Kind::ArrOdd => kit_arr!(new $($p)::+<[$U; $min + ARR_ODD_EXTRA]>, {$min + ARR_ODD_EXTRA}, $U, c, st),
                    Kind::ArrBig => kit_arr!(new $($p)::+<[$U; ARR_BIG]>, {ARR_BIG}, $U, c, st),
                }
            }
            fn load(&self, k: Kind, d: &[$U]) -> Option<Made<'static, $U>> {
                let m = <$($p)::+<&[$U]>>::try_from(d).ok()?;
                match k {
                    Kind::Vec => {
                        let r: $($p)::+<Vec<$U>> = m.rebuffer_into();
                        Some(mk(Ok(Rz(r))))
                    }
                    Kind::Grow => {
                        if d.len() > CUSTOM_MAX {
                            return None;
                        }
                        let r: $($p)::+<Grow<$U>> = m.rebuffer_into();
                        Some(mk(Ok(Rz(r))))
                    }
                    Kind::Fix => {
                        let r: Result<$($p)::+<Fix<$U>>, _> = m.try_rebuffer_into();
                        Some(mk(r.map(Tr)))
                    }
                    Kind::Shr => {
                        let r: Result<$($p)::+<Shr<$U>>, _> = m.try_rebuffer_into();
                        Some(mk(r.map(Tr)))
                    }
                    Kind::ArrMin => {
                        let r: Result<$($p)::+<[$U; $min]>, _> = m.try_rebuffer_into();
                        Some(mk(r.map(Tr)))
                    }
                    Kind::ArrOdd => {
                        let r: Result<$($p)::+<[$U; $min + ARR_ODD_EXTRA]>, _> = m.try_rebuffer_into();
                        Some(mk(r.map(Tr)))
                    }
                    Kind::ArrBig => {
                        let r: Result<$($p)::+<[$U; ARR_BIG]>, _> = m.try_rebuffer_into();
                        Some(mk(r.map(Tr)))
                    }
                    _ => None,
                }
            }
            fn routes(&self) -> usize {
                10
            }
            fn rebuffer(&self, route: usize, d: &[$U]) -> (&'static str, Option<usize>, Result<Boxed<$U>, BufferOverflow>) {
                let m = <$($p)::+<&[$U]>>::try_from(d).expect("harness: rebuffer of a rejected message");
                type V = $($p)::+<Vec<$U>>;
                type Big = $($p)::+<[$U; ARR_BIG]>;
                match route {
                    0 => {
                        let r: V = m.rebuffer_into();
                        ("slice>vec", None, mk(Ok(Rz(r))))
                    }
                    1 => {
                        let r: Result<$($p)::+<[$U; $min]>, _> = m.try_rebuffer_into();
                        ("slice>[min]", Some($min), mk(r.map(Tr)))
                    }
                    2 => {
                        let r: Result<$($p)::+<[$U; $min + ARR_ODD_EXTRA]>, _> = m.try_rebuffer_into();
                        ("slice>[min+5]", Some($min + ARR_ODD_EXTRA), mk(r.map(Tr)))
                    }
                    3 => {
                        let r: Result<Big, _> = m.try_rebuffer_into();
                        ("slice>[29]", Some(ARR_BIG), mk(r.map(Tr)))
                    }
                    4 => {
                        let v: $($p)::+<Grow<$U>> = m.rebuffer_into();
                        let v: V = v.rebuffer_into();
                        let r: Result<Big, _> = v.try_rebuffer_into();
                        ("roomy vec>[29]", Some(ARR_BIG), mk(r.map(Tr)))
                    }
                    5 => {
                        let r: Result<Big, _> = m.try_rebuffer_into();
                        let r: Result<V, _> = r.map(|a| a.rebuffer_into());
                        ("slice>[29]>vec", Some(ARR_BIG), mk(r.map(Rz)))
                    }
                    6 => {
                        let r: Result<$($p)::+<Fix<$U>>, _> = m.try_rebuffer_into();
                        let r: Result<V, _> = r.map(|a| a.rebuffer_into());
                        ("slice>Fix>vec", Some(usize::MAX), mk(r.map(Rz)))
                    }
                    7 => {
                        let r: Result<$($p)::+<Shr<$U>>, _> = m.try_rebuffer_into();
                        ("slice>Shr", Some(usize::MAX), mk(r.map(Tr)))
                    }
                    8 => {
                        if Data::data(&m).len() > ARR_BIG {
                            let r: V = m.rebuffer_into();
                            return ("slice>vec", None, mk(Ok(Rz(r))));
                        }
                        let r: Big = m.array_rebuffer_into();
                        ("slice>>[29]", None, mk(Ok(Tr(r))))
                    }
                    _ => {
                        let v: $($p)::+<Grow<$U>> = m.rebuffer_into();
                        let v: V = v.rebuffer_into();
                        if Data::data(&v).len() > $min + ARR_ODD_EXTRA {
                            return ("slice>vec", None, mk(Ok(Rz(v))));
                        }
                        let r: $($p)::+<[$U; $min + ARR_ODD_EXTRA]> = v.array_rebuffer_into();
                        ("roomy vec>>[min+5]", None, mk(Ok(Tr(r))))
                    }
                }
            }
            fn mutroutes(&self) -> usize {
                7
            }
            fn mutroute(&self, route: usize, v: &mut [$U], script: &mut dyn FnMut(&mut dyn Obj<$U>), check: &mut dyn FnMut(&'static str, Option<usize>, Option<&dyn Obj<$U>>)) {
                type Big = $($p)::+<[$U; ARR_BIG]>;
                let Ok(m) = <$($p)::+<&mut [$U]>>::try_new_with_buffer(v) else { return };
                let mut t = Tr(m);
                script(&mut t);
                let m = t.0;
                match route {
                    0 => {
                        let r: $($p)::+<&[$U]> = m.rebuffer_into();
                        check("&mut>&", None, Some(&Ro(r.clone())));
                        let v: $($p)::+<Vec<$U>> = r.clone().rebuffer_into();
                        check("&mut>&>vec", None, Some(&Ro(v.clone())));
                        if Data::data(&r).len() <= ARR_BIG {
                            let a: Big = r.array_rebuffer_into();
                            check("&mut>&>>[29]", None, Some(&Ro(a)));
                        }
                    }
                    1 => {
                        let r: $($p)::+<Vec<$U>> = m.rebuffer_into();
                        check("&mut>vec", None, Some(&Ro(r)));
                    }
                    2 => {
                        let r: Result<$($p)::+<[$U; $min]>, _> = m.try_rebuffer_into();
                        match r {
                            Ok(r) => check("&mut>[min]", Some($min), Some(&Ro(r))),
                            Err(_) => check("&mut>[min]", Some($min), None),
                        }
                    }
                    3 => {
                        let r: Result<$($p)::+<[$U; $min + ARR_ODD_EXTRA]>, _> = m.try_rebuffer_into();
                        match r {
                            Ok(r) => check("&mut>[min+5]", Some($min + ARR_ODD_EXTRA), Some(&Ro(r))),
                            Err(_) => check("&mut>[min+5]", Some($min + ARR_ODD_EXTRA), None),
                        }
                    }
                    4 => {
                        let r: Result<Big, _> = m.try_rebuffer_into();
                        match r {
                            Ok(r) => check("&mut>[29]", Some(ARR_BIG), Some(&Ro(r))),
                            Err(_) => check("&mut>[29]", Some(ARR_BIG), None),
                        }
                    }
                    5 => {
                        if Data::data(&m).len() <= ARR_BIG {
                            let r: Big = m.array_rebuffer_into();
                            check("&mut>>[29]", None, Some(&Ro(r)));
                        }
                    }
                    _ => {
                        // an array, via an array
                        let r: Result<Big, _> = m.try_rebuffer_into();
                        if let Ok(r) = r {
                            let n = Data::data(&r).len();
                            if n <= $min + ARR_ODD_EXTRA {
                                let r: $($p)::+<[$U; $min + ARR_ODD_EXTRA]> = r.clone().array_rebuffer_into();
                                check("[29]>>[min+5]", None, Some(&Ro(r)));
                            }
                            let v: $($p)::+<Vec<$U>> = r.rebuffer_into();
                            check("[29]>vec", None, Some(&Ro(v.clone())));
                            let r: Result<$($p)::+<[$U; ARR_BIG]>, _> = v.try_rebuffer_into();
                            match r {
                                Ok(r) => check("vec of 29>[29]", None, Some(&Ro(r))),
                                Err(_) => check("vec of 29>[29]", Some(usize::MAX), None),
                            }
                        }
                    }
                }
            }
            fn ownroutes(&self) -> usize {
                9
            }
            fn ownroute(&self, route: usize, v: Vec<$U>, script: &mut dyn FnMut(&mut dyn Obj<$U>, Option<usize>), check: &mut dyn FnMut(&'static str, usize, Option<usize>, Option<&dyn Obj<$U>>)) {
                type V = $($p)::+<Vec<$U>>;
                type Odd = $($p)::+<[$U; $min + ARR_ODD_EXTRA]>;
                type Big = $($p)::+<[$U; ARR_BIG]>;
                if route >= 6 {
                    // from an array
                    let mut t = Tr(Big::new());
                    script(&mut t, Some(ARR_BIG));
                    let m = t.0;
                    match route {
                        6 => {
                            let v: V = m.rebuffer_into();
                            check("edited [29]>vec", ARR_BIG, None, Some(&Ro(v)));
                        }
                        7 => {
                            if Data::data(&m).len() <= $min + ARR_ODD_EXTRA {
                                let r: Odd = m.array_rebuffer_into();
                                check("edited [29]>>[min+5]", ARR_BIG, None, Some(&Ro(r)));
                            }
                        }
                        _ => {
                            let mut t = Tr(Odd::new());
                            script(&mut t, Some($min + ARR_ODD_EXTRA));
                            let m = t.0;
                            if $min + ARR_ODD_EXTRA <= ARR_BIG {
                                let r: Big = m.clone().array_rebuffer_into();
                                check("edited [min+5]>>[29]", $min + ARR_ODD_EXTRA, None, Some(&Ro(r)));
                            }
                            let v: V = m.rebuffer_into();
                            check("edited [min+5]>vec", $min + ARR_ODD_EXTRA, None, Some(&Ro(v)));
                        }
                    }
                    return;
                }
                let mut t = Rz(V::new_with_buffer(v));
                script(&mut t, None);
                let m = t.0;
                let _: $($p)::+<Probe<$U>> = m.clone().rebuffer_into();
                let n = PROBED.with(|c| c.get());
                match route {
                    0 => {
                        let r: Result<$($p)::+<[$U; $min]>, _> = m.try_rebuffer_into();
                        let r = r.ok().map(Ro);
                        check("edited vec>[min]", n, Some($min), r.as_ref().map(|r| r as &dyn Obj<$U>));
                    }
                    1 => {
                        let r: Result<Odd, _> = m.try_rebuffer_into();
                        let r = r.ok().map(Ro);
                        check("edited vec>[min+5]", n, Some($min + ARR_ODD_EXTRA), r.as_ref().map(|r| r as &dyn Obj<$U>));
                    }
                    2 => {
                        let r: Result<Big, _> = m.try_rebuffer_into();
                        let r = r.ok().map(Ro);
                        check("edited vec>[29]", n, Some(ARR_BIG), r.as_ref().map(|r| r as &dyn Obj<$U>));
                    }
                    3 => {
                        if Data::data(&m).len() <= ARR_BIG {
                            let r: Big = m.array_rebuffer_into();
                            check("edited vec>>[29]", n, None, Some(&Ro(r)));
                        }
                    }
                    4 => {
                        if Data::data(&m).len() <= $min + ARR_ODD_EXTRA {
                            let r: Odd = m.array_rebuffer_into();
                            check("edited vec>>[min+5]", n, None, Some(&Ro(r)));
                        }
                    }
                    _ => {
                        let r: Result<$($p)::+<Fix<$U>>, _> = m.try_rebuffer_into();
                        let r = r.ok().map(Ro);
                        check("edited vec>Fix", n, Some(usize::MAX), r.as_ref().map(|r| r as &dyn Obj<$U>));
                    }
                }
            }
            fn eq(&self, a: &[$U], b: &[$U]) -> bool {
                let a = <$($p)::+<&[$U]>>::try_from(a).expect("harness: eq");
                let b = <$($p)::+<&[$U]>>::try_from(b).expect("harness: eq");
                a == b
            }
            fn values(&self, h: Held, a: &Side<$U>, b: &Side<$U>, play: &mut dyn FnMut(usize, &mut dyn Obj<$U>)) -> Option<Vals<$U>> {
                type V = $($p)::+<Vec<$U>>;
                type G = $($p)::+<Grow<$U>>;
                type Odd = $($p)::+<[$U; $min + ARR_ODD_EXTRA]>;
                type Big = $($p)::+<[$U; ARR_BIG]>;
                fn p(d: &[$U]) -> $($p)::+<&[$U]> {
                    <$($p)::+<&[$U]>>::try_from(d).expect("harness: values of a rejected message")
                }
                Some(match h {
                    Held::Shared => {
                        let (Side::Parsed(a), Side::Parsed(b)) = (a, b) else { return None };
                        let mut v = vals_copy(Ro, |w| &w.0, p(a), p(b), p(a), play);
                        let x = p(a);
                        let y = x;
                        v.kept.push(("the copied view", Data::data(&x).to_vec(), Data::data(&y).to_vec()));
                        v
                    }
                    Held::Vec => {
                        let mk = |s: &Side<$U>| -> V {
                            match s {
                                Side::Parsed(d) => p(d).rebuffer_into(),
                                Side::Over(d) => V::new_with_buffer(d.clone()),
                            }
                        };
                        vals_copy(Rz, |w| &w.0, mk(a), mk(b), mk(a), play)
                    }
                    Held::Grow => {
                        let mk = |s: &Side<$U>| -> G {
                            match s {
                                Side::Parsed(d) => p(d).rebuffer_into(),
                                Side::Over(d) => G::new_with_buffer(Grow::dirty(d)),
                            }
                        };
                        vals_copy(Rz, |w| &w.0, mk(a), mk(b), mk(a), play)
                    }
                    Held::ArrOdd => {
                        let mk = |s: &Side<$U>| -> Option<Odd> {
                            match s {
                                Side::Parsed(d) => p(d).try_rebuffer_into().ok(),
                                Side::Over(d) => Odd::try_new_with_buffer(arr(d)).ok(),
                            }
                        };
                        vals_copy(Tr, |w| &w.0, mk(a)?, mk(b)?, mk(a)?, play)
                    }
                    Held::ArrBig => {
                        let mk = |s: &Side<$U>| -> Option<Big> {
                            match s {
                                Side::Parsed(d) => p(d).try_rebuffer_into().ok(),
                                Side::Over(d) => Big::try_new_with_buffer(arr(d)).ok(),
                            }
                        };
                        let mut v = vals_copy(Tr, |w| &w.0, mk(a)?, mk(b)?, mk(a)?, play);
                        let x = mk(a)?;
                        let y = x;
                        v.kept.push(("the copied array", Data::data(&x).to_vec(), Data::data(&y).to_vec()));
                        v
                    }
                    Held::Slice => {
                        let (Side::Over(a), Side::Over(b)) = (a, b) else { return None };
                        let (mut a, mut b) = (a.clone(), b.clone());
                        let x = <$($p)::+<&mut [$U]>>::try_new_with_buffer(&mut a[..]).ok()?;
                        let y = <$($p)::+<&mut [$U]>>::try_new_with_buffer(&mut b[..]).ok()?;
                        vals_pair(Tr, |w| &w.0, x, y, play).2
                    }
                })
            }
        }
    };
}

macro_rules! msg {
    ($K:ident, $SPEC:ident, $name:literal, $fam:ident, $shape:expr; $($p:ident)::+; $U:ty, $Bound:path, $pk:ident; $min:literal, [$($consts:expr),*], $addr:literal;
     $content:ident $(($($ca:ident),*))?; { $( $g:ident $s:ident $C:ident $sh:literal [ $($pc:expr),* ] );* $(;)? }) => {
        pub static $SPEC: Spec = Spec {
            name: $name,
            fam: Fam::$fam,
            shape: $shape,
            min: $min,
            consts: &[$($consts),*],
            fields: &[$( FieldSpec { name: stringify!($g), pieces: &[$($pc),*], codec: <codec::$C as Codec>::SPEC, shared: $sh } ),*],
            addr_nonzero: $addr,
        };
        face!($($p)::+; $U, $Bound, $pk; $content $(($($ca),*))?; { $( $g $s $C $sh [ $($pc),* ] );* });
        kit!($K, $SPEC; $($p)::+; $U; $min);
    };
}

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/tables.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/kit_lists.rs"));
