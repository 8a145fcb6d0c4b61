//! C08: raw field access is little-endian, offset-exact and bounds-checked.
use crate::common::*;
use crate::rt::*;
use crate::*;
use crate::hooks;
use dmidecode::*;

/// An offset of the specification; larger ones than the header's end, whose end does not overflow
fn any_offset(size: usize) -> usize {
    let o: usize = any();
    #[cfg(not(kani))]
    let o = if is_random() && o % 16 != 0 { o % 300 } else { o };
    requires!(o >= 4 && o <= usize::MAX - size);
    o
}

/// Postcondition of `get` for an integer of `size` bytes, compared as u128
fn check<T: Into<u128>>(i: &In, o: usize, size: usize, r: Result<T, Er>) {
    let present = o + size <= i.len;
    reachable!("present", present && o > 100);
    reachable!("partly", !present && (o < i.len || size == 1));
    match r {
        Ok(x) => {
            ensures!("C08.get.present", present);
            let x: u128 = x.into();
            let mut k = 0;
            while k < size {
                ensures!("C08.get.little_endian", !present || (x >> (8 * k)) as u8 == i.d[o - 4 + k]);
                k += 1;
            }
            ensures!("C08.get.width", size == 16 || x >> (8 * size as u32) == 0);
        }
        Err(e) => {
            ensures!("C08.get.absent", !present);
            ensures!("C08.get.error", matches!(e, Er::InvalidSlice(_)));
        }
    }
}

contracts! {
    /// RawStructure::get::<u8>
    #[unwind(18)]
    fn c08_get_u8() {
        let i = In::any(InfoType::Oem(200));
        let o = any_offset(1);
        check(&i, o, 1, i.raw().get::<u8>(o));
    }
    /// RawStructure::get::<u16>
    #[unwind(18)]
    fn c08_get_u16() {
        let i = In::any(InfoType::Oem(200));
        let o = any_offset(2);
        check(&i, o, 2, i.raw().get::<u16>(o));
    }
    /// RawStructure::get::<u32>
    #[unwind(18)]
    fn c08_get_u32() {
        let i = In::any(InfoType::Oem(200));
        let o = any_offset(4);
        check(&i, o, 4, i.raw().get::<u32>(o));
    }
    /// RawStructure::get::<u64>
    #[unwind(18)]
    fn c08_get_u64() {
        let i = In::any(InfoType::Oem(200));
        let o = any_offset(8);
        check(&i, o, 8, i.raw().get::<u64>(o));
    }
    /// RawStructure::get::<u128>
    #[unwind(18)]
    fn c08_get_u128() {
        let i = In::any(InfoType::Oem(200));
        let o = any_offset(16);
        check(&i, o, 16, i.raw().get::<u128>(o));
    }
    /// RawStructure::get_slice
    fn c08_get_slice() {
        let i = In::any(InfoType::Oem(200));
        let mut size: usize = any();
        #[cfg(not(kani))]
        if is_random() && size % 16 != 0 { size %= 300 }
        let o = any_offset(size);
        let present = o + size <= i.len;
        match i.raw().get_slice(o, size) {
            Some(s) => {
                reachable!("slice", size > 3);
                ensures!("C08.get_slice.present", present);
                ensures!("C08.get_slice.bytes", !present || s.len() == size && identical(s, &i.d[o - 4..o - 4 + size]));
            }
            None => {
                reachable!("no slice", o < i.len);
                ensures!("C08.get_slice.absent", !present);
            }
        }
    }
    /// RawStructure::get_string
    #[unwind(4)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c08_get_string() {
        let i = In::any(InfoType::from(any::<u8>()));
        let o = any_offset(1);
        let present = o + 1 <= i.len;
        match i.raw().get_string(o) {
            Ok(s) => {
                reachable!("string", i.nstr == 255 && s.len() == 7);
                ensures!("C08.get_string.present", present);
                ensures!("C08.get_string.number", i.s(s, o));
            }
            Err(e) => {
                reachable!("no byte", !present);
                reachable!("no string", present);
                ensures!("C08.get_string.error", if present { i.bad_string(&e, [o]) } else { matches!(e, Er::InvalidSlice(_)) });
            }
        }
    }
}
