//! C02 and C03: the entry point search.
use crate::common::*;
use crate::rt::*;
use crate::*;
use crate::hooks;
use dmidecode::*;

/// Which anchor the bytes from `at` on start with: Some(is_v3)
fn anchor(b: &[u8], at: usize) -> Option<bool> {
    if at + 4 > b.len() || b[at] != b'_' || b[at + 1] != b'S' || b[at + 2] != b'M' {
        None
    } else if b[at + 3] == b'_' {
        Some(false)
    } else if b[at + 3] == b'3' && at + 5 <= b.len() && b[at + 4] == b'_' {
        Some(true)
    } else {
        None
    }
}

/// The lowest multiple of 16 with an anchor
pub fn first_anchor(b: &[u8]) -> Option<(bool, usize)> {
    let mut at = 0;
    while at < b.len() {
        if let Some(v3) = anchor(b, at) {
            return Some((v3, at));
        }
        at += 16;
    }
    None
}

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0;
    let mut k = n;
    while k > 0 {
        k -= 1;
        v = v << 8 | b[at + k] as u64;
    }
    v
}

fn sum(b: &[u8]) -> u8 {
    let mut sum = 0u8;
    for v in b {
        sum = sum.wrapping_add(*v);
    }
    sum
}

/// The bytes summed so far, and their sum (which no other reasoning needs to know)
#[cfg(kani)]
static mut SUMMED: usize = 0;
#[cfg(kani)]
static mut SUM: u8 = 0;
#[cfg(kani)]
static mut ENTRY: &[u8] = &[];

/// The contract of u8::wrapping_add in the checksum loop: from the sum of so many bytes and the byte
/// behind them it makes the sum of one more
#[cfg(kani)]
pub fn wrapping_add_contract(sum: u8, val: u8) -> u8 {
    unsafe {
        ensures!("C03.sum.so_far", sum == SUM && SUMMED < ENTRY.len());
        ensures!("C03.sum.next", val == ENTRY[SUMMED]);
        SUMMED += 1;
        SUM = any();
        SUM
    }
}

/// EntryPoint::search: every content and length of the entry point
fn summed(v3: bool) {
    let b = any_slice::<257>();
    requires!(anchor(b, 0) == Some(v3));
    told(Some((v3, 0)));
    #[cfg(kani)]
    unsafe {
        ENTRY = b;
        let r = EntryPoint::search(b);
        accepted_sum(b, v3, 0, &r, |n| {
            ensures!("C03.sum.all", SUMMED == n);
            SUM
        });
    }
}

/// C03 at an anchor of the given kind and offset
pub fn accepted(b: &[u8], v3: bool, at: usize, r: &Result<EntryPoint, InvalidEntryPointError>) {
    accepted_sum(b, v3, at, r, |n| sum(&b[at..at + n]))
}

fn accepted_sum(b: &[u8], v3: bool, at: usize, r: &Result<EntryPoint, InvalidEntryPointError>, sum: impl Fn(usize) -> u8) {
    use InvalidEntryPointError::*;
    ensures!("C02.search.found", !matches!(r, Err(NotFound)));
    let left = b.len() - at;
    let size = if v3 { 0x18 } else { 0x1F };
    let (len_at, major_at) = if v3 { (6, 7) } else { (5, 6) };
    if left < size {
        reachable!("cut off", true);
        ensures!("C03.search.cut_off", matches!(r, Err(BadSize(n)) if *n == left as u8));
        return;
    }
    let len = b[at + len_at];
    let major = b[at + major_at];
    if (len as usize) < size {
        reachable!("short", true);
        ensures!("C03.search.short", matches!(r, Err(BadSize(n)) if *n == len));
        return;
    }
    if major < 2 {
        reachable!("old", true);
        ensures!("C03.search.too_old", matches!(r, Err(TooOldVersion(n)) if *n == major));
        return;
    }
    if left < len as usize {
        reachable!("long", true);
        ensures!("C03.search.long", matches!(r, Err(BadSize(n)) if *n == left as u8));
        return;
    }
    let sum = sum(len as usize);
    if sum != 0 {
        reachable!("sum", true);
        ensures!("C03.search.checksum", matches!(r, Err(BadChecksum(n)) if *n == sum));
        return;
    }
    match r {
        Err(_) => ensures!("C03.search.accepted", false),
        Ok(e) => {
            reachable!("accepted", true);
            fields(&b[at..], v3, e);
        }
    }
}

/// Every field is the little-endian value at its offset
fn fields(b: &[u8], v3: bool, e: &EntryPoint) {
    ensures!("C03.fields.len", e.len() == b[if v3 { 6 } else { 5 }]);
    ensures!("C03.fields.major", e.major() == b[if v3 { 7 } else { 6 }]);
    ensures!("C03.fields.minor", e.minor() == b[if v3 { 8 } else { 7 }]);
    ensures!("C03.fields.version", e.to_version() == SmbiosVersion { major: e.major(), minor: e.minor() });
    ensures!("C03.fields.revision", e.revision() == b[0x0A]);
    if v3 {
        ensures!("C03.fields.smbios_len", e.smbios_len() as u64 == le(b, 0x0C, 4));
        ensures!("C03.fields.smbios_address", e.smbios_address() == le(b, 0x10, 8));
    } else {
        ensures!("C03.fields.smbios_len", e.smbios_len() as u64 == le(b, 0x16, 2));
        ensures!("C03.fields.smbios_address", e.smbios_address() == le(b, 0x18, 4));
    }
    match e {
        EntryPoint::V2(p) => {
            ensures!("C02.search.kind", !v3);
            let (signature, struct_max, smbios_len, address, count) =
                (p.signature, p.struct_max, p.smbios_len, p.smbios_address, p.smbios_count);
            ensures!("C03.fields2.signature", signature as u64 == le(b, 0, 4));
            ensures!("C03.fields2.checksum", p.checksum == b[4]);
            ensures!("C03.fields2.len", p.len == b[5] && p.major == b[6] && p.minor == b[7]);
            ensures!("C03.fields2.struct_max", struct_max as u64 == le(b, 8, 2));
            ensures!("C03.fields2.revision", p.revision == b[0x0A]);
            let (f, d) = (p.formatted, p.dmi_signature);
            ensures!("C03.fields2.formatted", f[0] == b[0x0B] && f[1] == b[0x0C] && f[2] == b[0x0D] && f[3] == b[0x0E] && f[4] == b[0x0F]);
            ensures!("C03.fields2.dmi_signature", d[0] == b[0x10] && d[1] == b[0x11] && d[2] == b[0x12] && d[3] == b[0x13] && d[4] == b[0x14]);
            ensures!("C03.fields2.dmi_checksum", p.dmi_checksum == b[0x15]);
            ensures!("C03.fields2.smbios_len", smbios_len as u64 == le(b, 0x16, 2));
            ensures!("C03.fields2.smbios_address", address as u64 == le(b, 0x18, 4));
            ensures!("C03.fields2.smbios_count", count as u64 == le(b, 0x1C, 2));
            ensures!("C03.fields2.bcd_revision", p.bcd_revision == b[0x1E]);
        }
        EntryPoint::V3(p) => {
            ensures!("C02.search.kind3", v3);
            let (len_max, address) = (p.smbios_len_max, p.smbios_address);
            let s = p.signature;
            ensures!("C03.fields3.signature", s[0] == b[0] && s[1] == b[1] && s[2] == b[2] && s[3] == b[3] && s[4] == b[4]);
            ensures!("C03.fields3.checksum", p.checksum == b[5]);
            ensures!("C03.fields3.len", p.len == b[6] && p.major == b[7] && p.minor == b[8]);
            ensures!("C03.fields3.revision", p.docrev == b[9] && p.revision == b[0x0A]);
            ensures!("C03.fields3.smbios_len_max", len_max as u64 == le(b, 0x0C, 4));
            ensures!("C03.fields3.smbios_address", address == le(b, 0x10, 8));
        }
    }
}

/// The search found what it is told to (contract of `find_signature`, C02)
fn told(found: Option<(bool, usize)>) {
    #[cfg(kani)]
    unsafe {
        hooks::SIGNATURE = found;
    }
}

/// The number of bytes summed is exactly the stated length, whatever it is
fn checksum(v3: bool) {
    let (size, len_at, major_at) = if v3 { (0x18, 6, 7) } else { (0x1F, 5, 6) };
    let len: u8 = any();
    requires!(len as usize >= size);
    let mut b = [1u8; 256];
    b[0] = b'_';
    b[1] = b'S';
    b[2] = b'M';
    b[3] = if v3 { b'3' } else { b'_' };
    b[4] = if v3 { b'_' } else { 0 };
    b[major_at] = 2;
    let fixed = b[0].wrapping_add(b[1]).wrapping_add(b[2]).wrapping_add(b[3]).wrapping_add(b[4]).wrapping_add(2);
    b[len_at] = len;
    // fixed, len itself, and as many ones as there are other bytes
    let others = len - 7;
    let expected = fixed.wrapping_add(len).wrapping_add(others);
    told(Some((v3, 0)));
    match EntryPoint::search(&b) {
        Ok(_) => {
            ensures!("C03.checksum.accepted", expected == 0)
        }
        Err(InvalidEntryPointError::BadChecksum(n)) => {
            reachable!("refused", len > 250);
            ensures!("C03.checksum.refused", expected != 0 && n == expected)
        }
        Err(_) => ensures!("C03.checksum.other", false),
    }
}

/// A buffer whose first anchor is the one given, arbitrary otherwise.
fn with_anchor<const MAX: usize>(v3: bool, at: usize) -> &'static [u8] {
    let b = any_slice::<MAX>();
    #[cfg(not(kani))]
    let b = planted(b, v3, at);
    requires!(first_anchor(b) == Some((v3, at)));
    told(Some((v3, at)));
    b
}

/// Native random search only: make valid entry points likely
#[cfg(not(kani))]
fn planted(b: &'static [u8], v3: bool, at: usize) -> &'static [u8] {
    if !is_random() {
        return b;
    }
    let mut b = b.to_vec();
    plant(&mut b, v3, at);
    object(b)
}

/// Put an anchor, often of a valid entry point, where it fits
#[cfg(not(kani))]
pub fn plant(b: &mut [u8], v3: bool, at: usize) {
    let text: &[u8] = if v3 { b"_SM3_" } else { b"_SM_" };
    if b.len() < at + text.len() {
        return;
    }
    b[at..at + text.len()].copy_from_slice(text);
    let e = &mut b[at..];
    let (len_at, major_at, sum_at) = if v3 { (6, 7, 5) } else { (5, 6, 4) };
    if e.len() > 0x1F && any::<u8>() > 60 {
        e[len_at] = (0x18 + any::<u8>() as usize % (e.len() - 0x17).max(1)) as u8;
        e[major_at] |= 2;
        let len = (e[len_at] as usize).min(e.len());
        if any::<u8>() > 60 {
            e[sum_at] = e[sum_at].wrapping_sub(sum(&e[..len]));
        }
    }
}

contracts! {
    /// find_signature: bounded, buffers up to 84 bytes
    #[unwind(18)]
    fn c02_find_signature() {
        let b = any_slice::<84>();
        let r = hooks::find_signature(b);
        reachable!("none", r.is_none() && b.len() > 70);
        reachable!("first", r == Some((false, 0)));
        reachable!("third", r == Some((true, 32)));
        reachable!("fifth", r == Some((true, 64)));
        ensures!("C02.find_signature.first", r == first_anchor(b));
    }

    /// EntryPoint::search without an anchor: bounded without stubs, buffers up to 42 bytes
    #[unwind(44)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c02_search_none() {
        let b = any_slice::<42>();
        requires!(first_anchor(b).is_none());
        told(None);
        reachable!("long", b.len() > 40);
        ensures!("C02.search.not_found", matches!(EntryPoint::search(b), Err(InvalidEntryPointError::NotFound)));
    }

    /// EntryPoint::search with the 32-bit anchor at offset 16: bounded, buffers up to 60 bytes
    #[unwind(46)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c02_search_v2() {
        let b = with_anchor::<60>(false, 16);
        accepted(b, false, 16, &EntryPoint::search(b));
    }

    /// EntryPoint::search with the 64-bit anchor at offset 16: bounded, buffers up to 60 bytes
    #[unwind(46)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c02_search_v3() {
        let b = with_anchor::<60>(true, 16);
        accepted(b, true, 16, &EntryPoint::search(b));
    }

    /// EntryPoint::search at a 32-bit anchor: every stated length, bytes all equal
    #[unwind(257)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c03_checksum_v2() {
        checksum(false);
    }

    /// EntryPoint::search at a 64-bit anchor: every stated length, bytes all equal
    #[unwind(257)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c03_checksum_v3() {
        checksum(true);
    }

    /// EntryPoint::search at a 32-bit anchor: every content and length, the sum by induction
    #[unwind(257)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    #[stub(u8::wrapping_add, crate::c02::wrapping_add_contract)]
    fn c03_sum_v2() {
        summed(false);
    }

    /// EntryPoint::search at a 64-bit anchor: every content and length, the sum by induction
    #[unwind(257)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    #[stub(u8::wrapping_add, crate::c02::wrapping_add_contract)]
    fn c03_sum_v3() {
        summed(true);
    }

    /// EntryPoint::search at a 32-bit anchor: bounded, buffers up to 44 bytes
    #[unwind(46)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c03_search_v2() {
        let b = with_anchor::<44>(false, 0);
        accepted(b, false, 0, &EntryPoint::search(b));
    }

    /// EntryPoint::search at a 64-bit anchor: bounded, buffers up to 44 bytes
    #[unwind(46)]
    #[stub(dmidecode::find_signature, dmidecode::verif_hooks::find_signature_contract)]
    fn c03_search_v3() {
        let b = with_anchor::<44>(true, 0);
        accepted(b, true, 0, &EntryPoint::search(b));
    }
}
