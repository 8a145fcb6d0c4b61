//! C07: string numbers resolve to exactly that string of the strings section.
use crate::common::*;
use crate::rt::*;
use crate::*;
use crate::hooks;
use dmidecode::*;

/// The n-th string (from 1) of a strings section: a non-empty run of bytes ended by NUL; strings
/// end at the first empty one.
pub fn nth(b: &[u8], n: usize) -> Option<(usize, usize)> {
    let mut start = 0;
    let mut count = 0;
    let mut k = 0;
    while k < b.len() {
        if b[k] == 0 {
            if k == start {
                return None;
            }
            count += 1;
            if count == n {
                return Some((start, k - start));
            }
            start = k + 1;
        }
        k += 1;
    }
    // without terminator
    if start < b.len() && count + 1 == n {
        return Some((start, b.len() - start));
    }
    None
}

/// Validity of the texts at hand, whose bytes are ASCII or FFh
pub fn utf8(b: &[u8]) -> bool {
    let mut ok = true;
    let mut k = 0;
    while k < b.len() {
        ok &= b[k] < 0x80;
        k += 1;
    }
    ok
}

/// The contract of `core::str::from_utf8` for such texts (assumed: it is the standard library's)
#[cfg(kani)]
pub fn from_utf8_contract(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    if utf8(b) {
        Ok(unsafe { core::str::from_utf8_unchecked(b) })
    } else {
        Err(unsafe { core::mem::zeroed() })
    }
}

pub fn any_section<const MAX: usize>() -> &'static [u8] {
    let b = any_slice::<MAX>();
    let mut k = 0;
    while k < b.len() {
        requires!(b[k] < 0x80 || b[k] == 0xFF);
        k += 1;
    }
    b
}

pub fn is(s: &str, b: &[u8], at: (usize, usize)) -> bool {
    let t = &b[at.0..at.0 + at.1];
    identical(s.as_bytes(), t)
}

contracts! {
    /// RawStructure::find_string
    #[unwind(10)]
    #[stub(core::str::from_utf8, crate::c07::from_utf8_contract)]
    fn c07_find_string() {
        let b = any_section::<7>();
        let mut i = In::any_with(InfoType::from(any::<u8>()), &[]);
        i.strings = b;
        let n: u8 = any();
        match i.raw().find_string(n) {
            Ok(s) => {
                reachable!("empty", n == 0);
                reachable!("third", n == 3);
                if n == 0 {
                    ensures!("C07.find_string.zero", s.is_empty());
                } else {
                    match nth(b, n as usize) {
                        Some(at) => {
                            ensures!("C07.find_string.bytes", is(s, b, at));
                            ensures!("C07.find_string.utf8", utf8(s.as_bytes()));
                        }
                        None => ensures!("C07.find_string.exists", false),
                    }
                }
            }
            Err(e) => {
                reachable!("none", b.len() > 3);
                ensures!("C07.find_string.names", matches!(e, Er::InvalidStringIndex(k, h, m) if k == i.info && h == i.h && m == n));
                ensures!("C07.find_string.missing", n > 0 && match nth(b, n as usize) {
                    Some(at) => !utf8(&b[at.0..at.0 + at.1]),
                    None => true,
                });
            }
        }
    }

    /// StructureStrings::next: bounded, sections up to 6 bytes
    #[unwind(9)]
    #[stub(core::str::from_utf8, crate::c07::from_utf8_contract)]
    fn c07_strings() {
        let b = any_section::<6>();
        let mut i = In::any_with(InfoType::OemStrings, &[]);
        i.strings = b;
        let mut strings = match hooks::oem_strings(i.raw()) {
            Ok(x) => {
                ensures!("C06.oem_strings.handle", x.handle == i.h);
                x.strings
            }
            Err(_) => {
                ensures!("C07.strings.given", false);
                return;
            }
        };
        let mut n = 1;
        while n <= 3 {
            let found = nth(b, n);
            match strings.next() {
                Some(s) => {
                    reachable!("third", n == 3);
                    ensures!("C07.strings.in_order", match found { Some(at) => is(s, b, at), None => false });
                    ensures!("C07.strings.utf8", utf8(s.as_bytes()));
                }
                None => {
                    reachable!("end", n == 3);
                    reachable!("invalid", found.is_some());
                    ensures!("C07.strings.end", match found { Some(at) => !utf8(&b[at.0..at.0 + at.1]), None => true });
                    return;
                }
            }
            n += 1;
        }
    }
}

native! {
    /// Any strings section: up to 600 strings, of up to 300 bytes, valid UTF-8 or not
    fn c07_sections() {
        let mut b = Vec::new();
        let many: bool = any();
        let count = if many { any::<u16>() as usize % 600 } else { any::<u8>() as usize % 9 };
        for _ in 0..count {
            let long = any::<u8>();
            let n = if long < 8 { 1 + any::<u16>() as usize % 300 } else { 1 + any::<u8>() as usize % 9 };
            let kind = any::<u8>();
            let at = b.len();
            for _ in 0..n {
                b.push(match kind { 0..=9 => any::<u8>() | 1, _ => 1 + any::<u8>() % 127 });
            }
            if kind > 230 && n > 2 {
                b.splice(at..at + 2, "\u{e9}".bytes());
            }
            b.push(0);
        }
        if count == 0 || any::<u8>() > 20 {
            b.push(0);
            if count == 0 { b.push(0) }
        }
        let info = if cfg!(dmi_verif_nohooks) { InfoType::Oem(200) } else { InfoType::from(any::<u8>()) };
        let mut i = In::any_with(info, &[]);
        i.strings = object(b.clone());
        let raw = i.raw();
        for n in 0..=255u8 {
            let found = nth(&b, n as usize).map(|at| core::str::from_utf8(&b[at.0..at.0 + at.1]));
            match raw.find_string(n) {
                Ok(s) if n == 0 => ensures!("C07.find_string.zero", s.is_empty()),
                Ok(s) => ensures!("C07.find_string.bytes", matches!(found, Some(Ok(t)) if s == t)),
                Err(e) => {
                    ensures!("C07.find_string.names", matches!(e, Er::InvalidStringIndex(k, h, m) if k == i.info && h == i.h && m == n));
                    ensures!("C07.find_string.missing", n > 0 && !matches!(found, Some(Ok(_))));
                }
            }
        }
        i.info = InfoType::OemStrings;
        let mut strings = match hooks::oem_strings(i.raw()) {
            Ok(x) => x.strings,
            Err(_) => panic!("ENSURES C07.strings.given"),
        };
        for n in 1.. {
            let found = nth(&b, n).map(|at| core::str::from_utf8(&b[at.0..at.0 + at.1]));
            match strings.next() {
                Some(s) => ensures!("C07.strings.in_order", matches!(found, Some(Ok(t)) if s == t)),
                None => {
                    ensures!("C07.strings.end", !matches!(found, Some(Ok(_))));
                    break;
                }
            }
        }
    }
}
