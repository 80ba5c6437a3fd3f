// included by kits.rs and by the probe of the feature subsets
fn u7of(b: u8) -> u7 {
    u7::new(b & 0x7F)
}
fn same(b: u8) -> u8 {
    b
}

// ---------------------------------------------------------------- faces

macro_rules! packets_of {
    (yes, $self:ident) => { Some(packets_vec($self)) };
    (no, $self:ident) => { None };
}
macro_rules! packets_drive_of {
    (yes, $self:ident, $ops:ident) => { Some(packets_drive($self, $ops)) };
    (no, $self:ident, $ops:ident) => { None };
}

macro_rules! content_fns {
    ($U:ty, $pk:ident, none) => {
        fn f_content(&self) -> Content {
            Content::default()
        }
        fn f_size(&self) -> Option<usize> {
            None
        }
        fn f_drive(&self, w: Which, ops: &[ItOp]) -> Option<Vec<ItObs>> {
            let _ = ops;
            match w {
                Which::Packets => packets_drive_of!($pk, self, ops),
                _ => None,
            }
        }
        fn f_poke(&mut self, _: u8, _: usize)
        where
            Self::Buf: BufferMut,
        {
        }
        fn f_edit(&mut self, _: &Edit)
        where
            Self::Buf: BufferMut + BufferResize,
        {
        }
        fn f_try(&mut self, _: &Edit) -> Result<(), BufferOverflow>
        where
            Self::Buf: BufferMut + BufferTryResize,
        {
            Ok(())
        }
    };
    ($U:ty, $pk:ident, text($get:ident, $bytes:ident, $set:ident, $try:ident)) => {
        fn f_content(&self) -> Content {
            #[cfg(feature = "std")]
            let text = Some(self.$get());
            #[cfg(not(feature = "std"))]
            let text = Some(String::from_utf8(self.$bytes().collect()).expect("text is not utf8"));
            Content { text, bytes: Some(self.$bytes().collect()) }
        }
        fn f_size(&self) -> Option<usize> {
            None
        }
        fn f_drive(&self, w: Which, ops: &[ItOp]) -> Option<Vec<ItObs>> {
            match w {
                Which::Packets => packets_drive_of!($pk, self, ops),
                Which::TextBytes => Some(drive_noclone(self.$bytes(), ops, |b| b as u64, None)),
                _ => None,
            }
        }
        fn f_poke(&mut self, _: u8, _: usize)
        where
            Self::Buf: BufferMut,
        {
        }
        fn f_edit(&mut self, e: &Edit)
        where
            Self::Buf: BufferMut + BufferResize,
        {
            match e {
                Edit::Text(t) => self.$set(t),
                _ => unreachable!(),
            }
        }
        fn f_try(&mut self, e: &Edit) -> Result<(), BufferOverflow>
        where
            Self::Buf: BufferMut + BufferTryResize,
        {
            match e {
                Edit::Text(t) => self.$try(t),
                _ => unreachable!(),
            }
        }
    };
    ($U:ty, $pk:ident, sysex($conv:ident)) => {
        fn f_content(&self) -> Content {
            Content { text: None, bytes: Some(self.payload().map(|b| u8::from(b)).collect()) }
        }
        fn f_size(&self) -> Option<usize> {
            Some(self.payload_size())
        }
        fn f_drive(&self, w: Which, ops: &[ItOp]) -> Option<Vec<ItObs>> {
            match w {
                Which::Packets => packets_drive_of!($pk, self, ops),
                Which::Payload => Some(drive(self.payload(), ops, |b| u8::from(b) as u64, Some(|i| i.len()))),
                _ => None,
            }
        }
        fn f_poke(&mut self, b: u8, i: usize)
        where
            Self::Buf: BufferMut,
        {
            self.set_byte($conv(b), i)
        }
        fn f_edit(&mut self, e: &Edit)
        where
            Self::Buf: BufferMut + BufferResize,
        {
            match e {
                Edit::Set(f) => self.set_payload(f.iter($conv)),
                Edit::Append(f) => self.append_payload(f.iter($conv)),
                Edit::AppendByte(b) => self.append_byte($conv(*b)),
                Edit::Insert(f, i) => self.insert_payload(f.iter($conv), *i),
                Edit::Splice(f, a, b, k) => self.splice_payload(f.iter($conv), bounds(*a, *b, *k)),
                _ => unreachable!(),
            }
        }
        fn f_try(&mut self, e: &Edit) -> Result<(), BufferOverflow>
        where
            Self::Buf: BufferMut + BufferTryResize,
        {
            match e {
                Edit::Set(f) => self.try_set_payload(f.iter($conv)),
                Edit::Append(f) => self.try_append_payload(f.iter($conv)),
                Edit::AppendByte(b) => self.try_append_byte($conv(*b)),
                Edit::Insert(f, i) => self.try_insert_payload(f.iter($conv), *i),
                Edit::Splice(f, a, b, k) => self.try_splice_payload(f.iter($conv), bounds(*a, *b, *k)),
                _ => unreachable!(),
            }
        }
    };
}

macro_rules! face {
    ($($p:ident)::+; $U:ty, $Bound:path, $pk:ident; $content:ident $(($($ca:ident),*))?; { $( $g:ident $s:ident $C:ident $sh:literal [ $($pc:expr),* ] );* $(;)? }) => {
        impl<B: $Bound> Face<$U> for $($p)::+<B> {
            type Buf = B;
            fn f_data(&self) -> &[$U] {
                Data::data(self)
            }
            fn f_get(&self, i: usize) -> u64 {
                let k = 0;
                $( if i == k { return <codec::$C as Codec>::enc(&self.$g()); } let k = k + 1; )*
                let _ = k;
                unreachable!("field {i}")
            }
            fn f_dbg(&self) -> String {
                format!("{:?}", self)
            }
            fn f_packets(&self) -> Option<Vec<Vec<u32>>> {
                packets_of!($pk, self)
            }
            fn f_set(&mut self, i: usize, raw: u64) where Self::Buf: BufferMut {
                let k = 0;
                $( if i == k { return self.$s(<codec::$C as Codec>::dec(raw)); } let k = k + 1; )*
                let _ = (k, raw);
                unreachable!("field {i}")
            }
            content_fns!($U, $pk, $content $(($($ca),*))?);
        }
    };
}
