//! Shared specification vocabulary of the structure decoders.

use crate::rt::*;
use crate::hooks;
use dmidecode::*;

#[cfg(not(dmi_verif_nohooks))]
type Raw = RawStructure<'static>;
#[cfg(dmi_verif_nohooks)]
type Raw = hooks::Raw;

pub type Er = MalformedStructureError;

/// Number of strings of the structure at hand.
static mut NSTR: u8 = 0;
/// The n-th string has n bytes, so that its length identifies it.
static TEXT: [u8; 255] = [b'x'; 255];

/// The contract of `RawStructure::find_string` (property C07) for a structure with NSTR strings;
/// it stands for the function in the contracts of its callers.
#[cfg(kani)]
pub fn find_string_contract<'b: 'b>(s: &RawStructure<'b>, idx: u8) -> Result<&'b str, MalformedStructureError> {
    if idx == 0 {
        Ok("")
    } else if idx <= unsafe { NSTR } {
        Ok(unsafe { core::str::from_utf8_unchecked(&TEXT[..idx as usize]) })
    } else {
        Err(MalformedStructureError::InvalidStringIndex(s.info, s.handle, idx))
    }
}

/// A structure with arbitrary version, handle, formatted section and number of strings.
#[derive(Clone, Copy)]
pub struct In {
    pub v: (u8, u8),
    pub info: InfoType,
    pub h: u16,
    /// formatted section without header
    pub d: &'static [u8],
    /// stated length: header and formatted section
    pub len: usize,
    pub nstr: u8,
    pub strings: &'static [u8],
}

#[cfg(all(kani, not(feature = "nostub")))]
fn strings_of(_n: u8) -> &'static [u8] {
    &[0, 0]
}
#[cfg(all(kani, feature = "nostub"))]
fn strings_of(n: u8) -> &'static [u8] {
    match n {
        0 => &[0, 0],
        1 => b"x\0\0",
        _ => {
            assume(n == 2);
            b"x\0xx\0\0"
        }
    }
}
#[cfg(not(kani))]
fn strings_of(n: u8) -> &'static [u8] {
    let mut v = Vec::new();
    for i in 1..=n as usize {
        v.extend_from_slice(&TEXT[..i]);
        v.push(0);
    }
    if n == 0 {
        v.push(0);
    }
    v.push(0);
    object(v)
}

/// The same bytes at the same place (in a copy of the table: the same bytes)
pub fn identical(a: &[u8], b: &[u8]) -> bool {
    #[cfg(not(dmi_verif_nohooks))]
    return a.as_ptr() == b.as_ptr() && a.len() == b.len();
    #[cfg(dmi_verif_nohooks)]
    return a == b;
}

/// The structure at hand has `n` strings
pub fn set_strings(n: u8) {
    unsafe { NSTR = n };
}

impl In {
    pub fn any(info: InfoType) -> In {
        Self::any_with(info, any_slice::<251>())
    }
    pub fn any_with(info: InfoType, d: &'static [u8]) -> In {
        let v = any_version();
        let h: u16 = any();
        let nstr: u8 = any();
        set_strings(nstr);
        In {
            v,
            info,
            h,
            d,
            len: d.len() + 4,
            nstr,
            strings: strings_of(nstr),
        }
    }
    /// A structure with n strings
    pub fn with_strings(info: InfoType, d: &'static [u8], nstr: u8) -> In {
        set_strings(nstr);
        In {
            v: (2, 1),
            info,
            h: any(),
            d,
            len: d.len() + 4,
            nstr,
            strings: strings_of(nstr),
        }
    }
    /// Representation invariant of a raw structure (established by C04): the stated length covers
    /// the header and the formatted section.
    pub fn raw(&self) -> Raw {
        hooks::raw(
            SmbiosVersion {
                major: self.v.0,
                minor: self.v.1,
            },
            self.info,
            self.len as u8,
            self.h,
            self.d,
            self.strings,
        )
    }
    pub fn has(&self, offset: usize, size: usize) -> bool {
        self.len >= offset + size
    }
    /// Values at specification offsets; 0 where the section does not reach (callers guard by `has`)
    pub fn u8(&self, o: usize) -> u8 {
        if self.has(o, 1) {
            self.d[o - 4]
        } else {
            0
        }
    }
    pub fn u16(&self, o: usize) -> u16 {
        self.u8(o) as u16 | (self.u8(o + 1) as u16) << 8
    }
    pub fn u32(&self, o: usize) -> u32 {
        self.u16(o) as u32 | (self.u16(o + 2) as u32) << 16
    }
    pub fn u64(&self, o: usize) -> u64 {
        self.u32(o) as u64 | (self.u32(o + 4) as u64) << 32
    }
    pub fn o8(&self, o: usize) -> Option<u8> {
        if self.has(o, 1) {
            Some(self.u8(o))
        } else {
            None
        }
    }
    pub fn o16(&self, o: usize) -> Option<u16> {
        if self.has(o, 2) {
            Some(self.u16(o))
        } else {
            None
        }
    }
    pub fn o32(&self, o: usize) -> Option<u32> {
        if self.has(o, 4) {
            Some(self.u32(o))
        } else {
            None
        }
    }
    pub fn o64(&self, o: usize) -> Option<u64> {
        if self.has(o, 8) {
            Some(self.u64(o))
        } else {
            None
        }
    }
    /// String number `idx` exists
    pub fn sok(&self, idx: u8) -> bool {
        idx <= self.nstr
    }
    /// `s` is string number `idx`
    pub fn is(&self, s: &str, idx: u8) -> bool {
        #[cfg(kani)]
        return idx <= self.nstr && s.len() == idx as usize;
        #[cfg(not(kani))]
        return idx <= self.nstr && s.as_bytes() == &TEXT[..idx as usize];
    }
    /// `s` is the string whose number is at offset `o`
    pub fn s(&self, s: &str, o: usize) -> bool {
        self.has(o, 1) && self.is(s, self.u8(o))
    }
    /// `s` is Some string whose number is at offset `o`
    pub fn os(&self, s: Option<&str>, o: usize) -> bool {
        match s {
            Some(s) => self.s(s, o),
            None => false,
        }
    }
    /// The error names this structure and a string number without string, found at one of `offsets`
    pub fn bad_string<const N: usize>(&self, e: &Er, offsets: [usize; N]) -> bool {
        match e {
            Er::InvalidStringIndex(info, h, i) => {
                *info == self.info && *h == self.h && !self.sok(*i) && self.among(*i, offsets)
            }
            _ => false,
        }
    }
    fn among<const N: usize>(&self, i: u8, offsets: [usize; N]) -> bool {
        let mut found = false;
        let mut k = 0;
        while k < N {
            found |= self.has(offsets[k], 1) && self.u8(offsets[k]) == i;
            k += 1;
        }
        found
    }
    /// All strings at `offsets` exist
    pub fn strings_ok<const N: usize>(&self, offsets: [usize; N]) -> bool {
        let mut ok = true;
        let mut k = 0;
        while k < N {
            ok &= self.has(offsets[k], 1) && self.sok(self.u8(offsets[k]));
            k += 1;
        }
        ok
    }
    /// The error reports this structure's formatted section length
    pub fn bad_length(&self, e: &Er) -> bool {
        matches!(e, Er::InvalidFormattedSectionLength(info, h, _, _) if *info == self.info && *h == self.h)
    }
}
