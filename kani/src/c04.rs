//! C04 and C05: framing of structures, progress and termination.
use crate::common::*;
use crate::rt::*;
use crate::*;
use crate::hooks;
use dmidecode::*;

/// Ghost record of the call of `find_nulnul`: the argument and the result.
static mut SEARCHED: Option<(*const u8, usize, Option<usize>)> = None;

/// The contract of `find_nulnul` (proved by `c04_find_nulnul*`), standing for it in its callers:
/// the result is the index of the second byte of the first double NUL.
#[cfg(kani)]
pub fn find_nulnul_contract(buf: &[u8]) -> Option<usize> {
    let found: bool = kani::any();
    let at: usize = kani::any();
    let r = if found {
        kani::assume(1 <= at && at < buf.len() && buf[at] == 0 && buf[at - 1] == 0);
        Some(at)
    } else {
        None
    };
    unsafe { SEARCHED = Some((buf.as_ptr(), buf.len(), r)) };
    r
}

/// Where the first double NUL at or after `from` ends, if any.
fn first_nulnul(b: &[u8], from: usize) -> Option<usize> {
    #[cfg(all(kani, not(feature = "nostub")))]
    unsafe {
        match SEARCHED {
            // The callee was asked about the bytes from the end of the formatted section on
            Some((p, n, r)) => {
                ensures!("C04.ghost.strings_start", p == b[from..].as_ptr() && n == b.len() - from);
                r.map(|x| from + x + 1)
            }
            None => {
                ensures!("C04.ghost.strings_searched", false);
                None
            }
        }
    }
    #[cfg(not(all(kani, not(feature = "nostub"))))]
    {
        let mut k = from;
        while k + 1 < b.len() {
            if b[k] == 0 && b[k + 1] == 0 {
                return Some(k + 2);
            }
            k += 1;
        }
        None
    }
}

fn next_raw_contract(b: &'static [u8]) {
    let v = any_version();
    let version = SmbiosVersion { major: v.0, minor: v.1 };
    let smbios_len: u32 = any();
    let idx: u32 = any();
    let mut s = hooks::structures_at(version, smbios_len, idx, b);
    unsafe { SEARCHED = None };
    let r = hooks::next_raw(&mut s);
    let (len2, idx2) = hooks::structures_state(&s);
    let at = idx as usize;
    ensures!("C04.next_raw.declared_length_kept", len2 == smbios_len);
    if (smbios_len as u64) < idx as u64 + 4 {
        reachable!("end", idx > 0);
        ensures!("C04.next_raw.end", r.is_none() && idx2 == idx);
        return;
    }
    let header = at + 4 <= b.len();
    let len = if header { b[at + 1] as usize } else { 0 };
    let fits = header && len >= 4 && at + len < smbios_len as usize && at + len <= b.len();
    match r {
        None => ensures!("C04.next_raw.not_end", false),
        Some(Err(Er::BadSize(o, _))) => {
            reachable!("no header", !header);
            reachable!("bad length", header);
            ensures!("C04.next_raw.bad_size", !fits && o == idx);
            ensures!("C04.next_raw.bad_size_stays", idx2 == idx);
        }
        Some(Err(Er::UnterminatedStrings(o))) => {
            reachable!("unterminated", true);
            ensures!("C04.next_raw.unterminated", fits && o == idx && first_nulnul(b, at + len).is_none());
            ensures!("C04.next_raw.unterminated_stays", idx2 == idx);
        }
        Some(Err(_)) => ensures!("C04.next_raw.error", false),
        Some(Ok(raw)) => {
            reachable!("structure", at > 0);
            ensures!("C04.next_raw.fits", fits);
            if fits {
                ensures!("C04.next_raw.version", raw.version == version);
                ensures!("C04.next_raw.type", raw.info == crate::c15::t_info_type(b[at]));
                ensures!("C04.next_raw.length", raw.length as usize == len);
                ensures!("C04.next_raw.handle", raw.handle == b[at + 2] as u16 | (b[at + 3] as u16) << 8);
                ensures!("C04.next_raw.formatted", raw.data.as_ptr() == b[at + 4..].as_ptr() && raw.data.len() == len - 4);
                let strings = hooks::raw_strings(&raw);
                match first_nulnul(b, at + len) {
                    None => ensures!("C04.next_raw.terminated", false),
                    Some(end) => {
                        ensures!("C04.next_raw.strings", strings.as_ptr() == b[at + len..].as_ptr() && strings.len() == end - at - len);
                        // An offset that does not fit 32 bits is beyond any declared length
                        ensures!("C04.next_raw.next", idx2 as usize == end || end > u32::MAX as usize && idx2 == u32::MAX);
                        ensures!("C05.next_raw.progress", idx2 as u64 >= idx as u64 + 6 || idx2 == u32::MAX);
                    }
                }
            }
        }
    }
}

contracts! {
    /// Structures::next_raw from any state, for buffers up to 16 GiB
    #[stub(dmidecode::find_nulnul, crate::c04::find_nulnul_contract)]
    fn c04_next_raw() {
        next_raw_contract(any_object::<{ 1 << 34 }>());
    }

    /// find_nulnul for buffers up to 16 GiB, by its loop invariant: a double NUL at an arbitrary
    /// index is never passed by
    #[unwind(26)]
    fn c04_nulnul_loop() {
        let b = any_object::<{ 1 << 34 }>();
        let at: usize = any();
        #[cfg(all(kani, dmi_verif_loops))]
        unsafe {
            hooks::WITNESS = at;
        }
        let r = hooks::find_nulnul(b);
        let is = |k: usize| b.len() >= 2 && k <= b.len() - 2 && b[k] == 0 && b[k + 1] == 0;
        match r {
            None => ensures!("C04.nulnul_loop.none", !is(at)),
            Some(end) => {
                reachable!("far", end > 1000000);
                ensures!("C04.nulnul_loop.found", end >= 1 && is(end - 1));
                ensures!("C04.nulnul_loop.first", at >= end - 1 || !is(at));
            }
        }
    }

    /// find_nulnul: bounded, up to 24 bytes, without the loop invariant
    #[unwind(26)]
    fn c04_find_nulnul() {
        let b = any_slice::<24>();
        let mut first = None;
        let mut k = 0;
        while k + 1 < b.len() {
            if first.is_none() && b[k] == 0 && b[k + 1] == 0 {
                first = Some(k + 1);
            }
            k += 1;
        }
        let r = hooks::find_nulnul(b);
        reachable!("last", r == Some(23));
        reachable!("none", r.is_none() && b.len() == 24);
        ensures!("C04.find_nulnul.first", r == first);
    }

    /// EntryPoint::structures starts at the table's first byte with the declared length and version
    #[unwind(10)]
    fn c04_structures() {
        let e: [u8; 31] = any();
        let b = any_slice::<8>();
        // The layout of the packed entry points is the one C03 pins
        let (p, version, declared) = if any() {
            let p: EntryPointV2 = unsafe { core::ptr::read(e.as_ptr() as *const EntryPointV2) };
            (EntryPoint::V2(p), (p.major, p.minor), p.smbios_len as u32)
        } else {
            let p: EntryPointV3 = unsafe { core::ptr::read(e.as_ptr() as *const EntryPointV3) };
            (EntryPoint::V3(p), (p.major, p.minor), p.smbios_len_max)
        };
        let s = p.structures(b);
        let version = SmbiosVersion { major: version.0, minor: version.1 };
        reachable!("large", declared > 70000);
        ensures!("C04.structures.start", hooks::structures_state(&s) == (declared, 0));
        ensures!("C04.structures.version", p.to_version() == version);
        ensures!("C04.structures.state", s.clone() == hooks::structures_at(version, declared, 0, b));
    }
}
