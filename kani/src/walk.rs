//! Whole searches and whole traversals through the public interface, on inputs larger than the
//! verifier's (native runs only, no part of a proof): C02 to C07 together, end to end.
#![cfg(not(kani))]
use crate::c02::{accepted, first_anchor, plant};
use crate::c06::{decoded, has_decoder};
use crate::c15::t_info_type;
use crate::common::*;
use crate::hooks::entry_point;
use crate::rt::*;
use crate::*;
use dmidecode::*;

fn below(n: usize) -> usize {
    any::<u32>() as usize % n.max(1)
}

/// A buffer with some anchors, most of them misplaced, truncated or invalid
fn memory() -> Vec<u8> {
    let n = match any::<u8>() {
        0..=99 => below(100),
        100..=219 => below(700),
        220..=250 => below(5000),
        251..=254 => 60000 + below(90000),
        // more than 65536 paragraphs
        _ => 1050000 + below(300000),
    };
    let fill = match any::<u8>() % 3 {
        0 => 0,
        1 => b'_',
        _ => any(),
    };
    let mut b = vec![fill; n];
    for _ in 0..below(24) {
        if n > 0 {
            let at = below(n);
            b[at] = any();
        }
    }
    for _ in 0..below(5) {
        let v3: bool = any();
        // mostly far behind, so that the anchor behind many paragraphs is the first one
        let mut at = if any() { n - below(n.min(300)).min(n) } else { below(n) };
        if any::<u8>() > 60 {
            at &= !15;
        }
        plant(&mut b, v3, at);
    }
    b
}

/// A strings section and its strings
fn strings() -> Vec<u8> {
    let mut b = Vec::new();
    let n = match any::<u8>() {
        0..=99 => 0,
        100..=235 => below(6),
        _ => below(300),
    };
    for _ in 0..n {
        let long = if any::<u8>() == 255 { 400 } else { 12 };
        for _ in 0..1 + below(long) {
            b.push(match any::<u8>() {
                0..=2 => 0xFF,
                c => b' ' + c % 90,
            });
        }
        b.push(0);
    }
    if n == 0 {
        b.push(0);
    }
    b.push(0);
    b
}

fn table() -> Vec<u8> {
    let mut b = Vec::new();
    if any::<u8>() == 0 {
        // many structures
        let many = 250 + below(300);
        let kind = 128 + any::<u8>() % 128;
        for _ in 0..many {
            b.extend_from_slice(&[kind, 4, any(), 0, 0, 0]);
        }
    }
    for _ in 0..below(9) {
        let kind = match any::<u8>() {
            0..=120 => any::<u8>() % 24,
            121..=140 => 127,
            141..=200 => 128 + any::<u8>() % 128,
            _ => any(),
        };
        let n = match any::<u8>() {
            0..=150 => below(32),
            151..=220 => below(80),
            _ => below(252),
        };
        let len = match any::<u8>() {
            0..=4 => any(),
            5..=8 => below(5) as u8,
            _ => n as u8 + 4,
        };
        b.extend_from_slice(&[kind, len, any(), any()]);
        for _ in 0..n {
            b.push(match any::<u8>() {
                0..=60 => 0,
                61..=90 => 1,
                _ => any(),
            });
        }
        if any::<u8>() > 3 {
            b.extend_from_slice(&strings());
        }
        if any::<u8>() == 0 {
            // beyond 64 KiB
            let n = 66000 + below(3000);
            b.extend(std::iter::repeat(b'x').take(n));
            b.extend_from_slice(&[0, 0]);
        }
    }
    match any::<u8>() {
        0..=200 => {}
        201..=230 => b.truncate(below(b.len() + 1)),
        _ => {
            for _ in 0..below(12) {
                b.push(any::<u8>() & 7);
            }
        }
    }
    b
}

/// What the framing of the structure at an offset should be
enum Frame {
    End,
    BadSize,
    Unterminated,
    Is(usize, usize),
}
fn frame(b: &[u8], declared: u32, at: usize) -> Frame {
    if (declared as usize) < at + 4 {
        return Frame::End;
    }
    if at + 4 > b.len() {
        return Frame::BadSize;
    }
    let len = b[at + 1] as usize;
    if len < 4 || at + len >= declared as usize || at + len > b.len() {
        return Frame::BadSize;
    }
    let mut k = at + len;
    while k + 1 < b.len() {
        if b[k] == 0 && b[k + 1] == 0 {
            return Frame::Is(at + len, k + 2);
        }
        k += 1;
    }
    Frame::Unterminated
}

/// String number n of a strings section
fn string(b: &[u8], n: usize) -> Option<&[u8]> {
    b.split(|c| *c == 0).take_while(|s| !s.is_empty()).nth(n - 1)
}

/// The raw structure again, from a table of its own
fn alone(b: &'static [u8], version: SmbiosVersion) -> Option<RawStructure<'static>> {
    match entry_point(version, true, b.len() as u32).structures(b).next() {
        Some(Ok(Structure::Other(raw))) => Some(raw),
        _ => None,
    }
}

fn other(raw: &RawStructure<'static>, b: &'static [u8], at: usize, strings_at: usize, end: usize, version: SmbiosVersion) {
    ensures!("C06.walk.other", !has_decoder(b[at]));
    ensures!("C06.walk.other_type", raw.info == t_info_type(b[at]));
    ensures!("C06.walk.other_version", raw.version == version);
    ensures!("C06.walk.other_handle", raw.handle == u16::from_le_bytes([b[at + 2], b[at + 3]]));
    ensures!("C06.walk.other_length", raw.length == b[at + 1]);
    ensures!("C06.walk.other_data", raw.data == &b[at + 4..strings_at]);
    ensures!("C04.walk.data", raw.data.as_ptr() == b[at + 4..].as_ptr() && raw.data.len() == strings_at - at - 4);
    ensures!("C04.walk.header", raw.length == b[at + 1] && raw.handle == u16::from_le_bytes([b[at + 2], b[at + 3]])
        && raw.info == t_info_type(b[at]));
    // strings included
    if at > 0 && version.major >= 2 {
        ensures!("C04.walk.same_alone", alone(object(b[at..end].to_vec()), version).as_ref() == Some(raw));
    }
    let section = &b[strings_at..end];
    let count = section.split(|c| *c == 0).take_while(|s| !s.is_empty()).count();
    for k in 0..14 {
        let n = match k {
            0..=6 => k,
            7 => count.min(255),
            8 => (count + 1).min(255),
            9 => 255,
            _ => any::<u8>() as usize,
        };
        let s = if n == 0 { Some(&[][..]) } else { string(section, n) };
        let valid = s.and_then(|s| core::str::from_utf8(s).ok());
        match raw.find_string(n as u8) {
            Ok(x) => ensures!("C07.walk.string", valid == Some(x)),
            Err(Er::InvalidStringIndex(k, h, m)) => {
                ensures!("C07.walk.no_string", valid.is_none() && k == raw.info && h == raw.handle && m == n as u8)
            }
            Err(_) => ensures!("C07.walk.error", false),
        }
    }
}

native! {
    /// EntryPoint::search on large buffers
    fn c02_large() {
        let b = object(memory());
        let r = EntryPoint::search(b);
        match first_anchor(b) {
            None => ensures!("C02.large.none", matches!(r, Err(InvalidEntryPointError::NotFound))),
            Some((v3, at)) => {
                // what lies before the anchor makes no difference
                ensures!("C02.large.there", format!("{:?}", EntryPoint::search(&b[at..])) == format!("{r:?}"));
                accepted(b, v3, at, &r)
            }
        }
    }

    /// A traversal from entry point to end, item by item
    fn c04_walk() {
        let v = any_version();
        let version = SmbiosVersion { major: v.0, minor: v.1 };
        requires!(v.0 >= 2);
        let v3: bool = any();
        let b = object(table());
        let declared = match any::<u8>() {
            0..=170 => b.len() as u32,
            171..=190 => below(b.len() + 1) as u32,
            191..=220 => b.len() as u32 + below(40) as u32,
            221..=235 => (b.len() as u32).saturating_sub(below(8) as u32),
            _ => any(),
        };
        let declared = if v3 { declared } else { declared as u16 as u32 };
        let mut s = entry_point(version, v3, declared).structures(b);
        let (mut at, mut over, mut items) = (0, false, 0);
        loop {
            let r = s.next();
            if over {
                ensures!("C05.walk.over", r.is_none());
                break;
            }
            let f = frame(b, declared, at);
            if let Frame::End = f {
                ensures!("C04.walk.end", r.is_none());
                ensures!("C05.walk.end", r.is_none());
                over = true;
                continue;
            }
            items += 1;
            ensures!("C05.walk.count", items <= b.len() / 6 + 1);
            let Some(r) = r else {
                ensures!("C04.walk.item", false);
                ensures!("C05.walk.goes_on", false);
                return;
            };
            match f {
                Frame::End => {}
                Frame::BadSize => {
                    ensures!("C04.walk.bad_size", matches!(r, Err(Er::BadSize(o, _)) if o as usize == at));
                    over = true;
                }
                Frame::Unterminated => {
                    ensures!("C04.walk.unterminated", matches!(r, Err(Er::UnterminatedStrings(o)) if o as usize == at));
                    over = true;
                }
                Frame::Is(strings_at, end) => {
                    let (kind, h) = (b[at], u16::from_le_bytes([b[at + 2], b[at + 3]]));
                    match r {
                        Ok(Structure::Other(raw)) => other(&raw, b, at, strings_at, end, version),
                        Ok(x) => {
                            ensures!("C06.walk.variant", decoded(&x).map(|d| d.0) == Some(kind));
                            ensures!("C06.walk.handle", decoded(&x).map(|d| d.1) == Some(h));
                            ensures!("C04.walk.decoded", decoded(&x) == Some((kind, h)));
                        }
                        Err(Er::BadSize(..)) | Err(Er::UnterminatedStrings(_)) => {
                            ensures!("C04.walk.framed", false);
                        }
                        Err(Er::InvalidStringIndex(k, x, _)) | Err(Er::InvalidFormattedSectionLength(k, x, _, _)) => {
                            ensures!("C06.walk.refused", has_decoder(kind) && k == t_info_type(kind) && x == h);
                        }
                        Err(_) => ensures!("C06.walk.refused_slice", has_decoder(kind)),
                    }
                    over = kind == 127 && v.0 >= 3;
                    at = end;
                }
            }
        }
        ensures!("C05.walk.fused", s.next().is_none() && s.next().is_none());
    }
}
