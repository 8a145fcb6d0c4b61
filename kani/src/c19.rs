//! C19: sub-record iterators yield exactly the records present, then stop.
use crate::common::*;
use crate::rt::*;
use crate::*;
use dmidecode::baseboard::BoardType;
use dmidecode::enclosure::ContainedElementType;
use dmidecode::system_event_log::*;
use dmidecode::system_slots::PeerDevices;
use crate::hooks;
#[cfg(dmi_verif_nohooks)]
use crate::hooks::*;
use dmidecode::*;

/// Version and strings do not matter here; data is at most MAX bytes
fn any_in<const MAX: usize>(info: InfoType, v: (u8, u8)) -> In {
    let d = any_slice::<MAX>();
    #[cfg(not(kani))]
    let d = consistent(info, d);
    let mut i = In::any_with(info, d);
    i.v = v;
    i
}

/// Native random search only: make counts and lengths that fit likely
#[cfg(not(kani))]
fn consistent(info: InfoType, d: &'static [u8]) -> &'static [u8] {
    let mut v = d.to_vec();
    // where the count and the record length are, and where the records start
    let (count_at, size_at, start) = match info {
        InfoType::Enclosure => (0x13 - 4, 0x14 - 4, 0x15 - 4),
        InfoType::SystemSlots => (0x12 - 4, 0, 0x13 - 4),
        InfoType::SystemEventLog => (0x15 - 4, 0x16 - 4, 0x17 - 4),
        _ => return d,
    };
    if !is_random() || v.len() < start || any::<u8>() < 40 {
        return d;
    }
    let left = v.len() - start;
    let size = if size_at == 0 { 5 } else { 1 + any::<u8>() as usize % if any() { 4 } else { 40 } };
    let most = left / size;
    let count = if any() { most } else { any::<u8>() as usize % (most + 1) };
    v[count_at] = count as u8;
    if size_at > 0 {
        v[size_at] = size as u8;
    }
    if info == InfoType::SystemEventLog {
        v.truncate(start + count * size);
    }
    object(v)
}

fn contained_elements<const MAX: usize>() {
    let i = any_in::<MAX>(InfoType::Enclosure, (2, 7));
    // records behind the fixed part of the section
    let (count, size) = (i.u8(0x13) as usize, i.u8(0x14) as usize);
    let mut it = match hooks::enclosure(i.raw()) {
        Ok(x) => match x.contained_elements {
            Some(it) => it,
            None => return,
        },
        Err(_) => return,
    };
    let n = if size == 0 { 0 } else { count };
    // the number stated by the structure
    ensures!("C19.contained.count", dmidecode::enclosure::ContainedElements::count(&it) as usize == count);
    let mut k = 0;
    while k < n {
        let at = 0x15 + k * size;
        let b = |j: usize| if j < size { i.u8(at + j) } else { 0 };
        ensures!("C19.contained.present", i.has(at, size));
        match it.next() {
            None => ensures!("C19.contained.each", false),
            Some(e) => {
                reachable!("second", k == 1);
                let (type_, min, max) = e.verif_parts();
                ensures!("C19.contained.type", type_ == if b(0) < 0x80 {
                    ContainedElementType::BoardType(crate::c15::t_baseboard_board_type(b(0)))
                } else {
                    ContainedElementType::InfoType(crate::c15::t_info_type(b(0) & 0x7F))
                });
                ensures!("C19.contained.minimum", min == b(1));
                ensures!("C19.contained.maximum", max == b(2));
            }
        }
        k += 1;
    }
    reachable!("end", n == 2);
    ensures!("C19.contained.end", it.next().is_none());
}

fn peer_devices<const MAX: usize>() {
    let b = any_slice::<MAX>();
    requires!(b.len() % 5 == 0);
    let mut it = PeerDevices::from(b);
    let mut k = 0;
    while k < b.len() {
        match it.next() {
            None => ensures!("C19.peers.each", false),
            Some(d) => {
                reachable!("third", k == 10);
                ensures!("C19.peers.segment", d.segment_group_number == b[k] as u16 | (b[k + 1] as u16) << 8);
                ensures!("C19.peers.bus", d.bus_number == b[k + 2]);
                ensures!("C19.peers.function", u8::from(d.device_and_function_number) == b[k + 3]);
                ensures!("C19.peers.width", d.data_bus_width == b[k + 4]);
            }
        }
        k += 5;
    }
    ensures!("C19.peers.end", it.next().is_none());
}

/// Also the peer groups of a slot structure
fn slot_peers<const MAX: usize>() {
    let i = any_in::<MAX>(InfoType::SystemSlots, (3, 2));
    let count = i.u8(0x12) as usize;
    let mut it = match hooks::system_slots(i.raw()) {
        Ok(x) => match x.peer_devices {
            Some(it) => it,
            None => return,
        },
        Err(_) => return,
    };
    let mut k = 0;
    while k < count {
        let at = 0x13 + 5 * k;
        ensures!("C19.slot_peers.present", i.has(at, 5));
        match it.next() {
            None => ensures!("C19.slot_peers.each", false),
            Some(d) => {
                reachable!("second", k == 1);
                ensures!("C19.slot_peers.segment", d.segment_group_number == i.u16(at));
                ensures!("C19.slot_peers.bus", d.bus_number == i.u8(at + 2));
                ensures!("C19.slot_peers.function", u8::from(d.device_and_function_number) == i.u8(at + 3));
                ensures!("C19.slot_peers.width", d.data_bus_width == i.u8(at + 4));
            }
        }
        k += 1;
    }
    ensures!("C19.slot_peers.end", it.next().is_none());
}

fn group_items<const MAX: usize>() {
    let i = any_in::<MAX>(InfoType::GroupAssociations, (3, 0));
    let mut it = match hooks::group_associations(i.raw()) {
        Ok(x) => x.items,
        Err(_) => return,
    };
    let n = if i.len < 5 { 0 } else { (i.len - 5) / 3 };
    let mut k = 0;
    while k < n {
        match it.next() {
            None => ensures!("C19.items.each", false),
            Some(m) => {
                reachable!("third", k == 2);
                ensures!("C19.items.type", m.type_ == i.u8(5 + 3 * k));
                ensures!("C19.items.handle", m.handle == i.u16(6 + 3 * k));
            }
        }
        k += 1;
    }
    ensures!("C19.items.end", it.next().is_none());
    ensures!("C19.items.ended", it.next().is_none());
}

fn descriptors<const MAX: usize>() {
    let i = any_in::<MAX>(InfoType::SystemEventLog, (2, 1));
    let (count, size) = (i.u8(0x15) as usize, i.u8(0x16) as usize);
    let mut it = match hooks::system_event_log(i.raw()) {
        Ok(x) => match x.supported_event_log_type_descriptors {
            Some(it) => it,
            None => return,
        },
        Err(_) => return,
    };
    // a record too short for a descriptor is none
    let n = if size < 2 { 0 } else { count };
    let mut k = 0;
    while k < n {
        let at = 0x17 + k * size;
        ensures!("C19.descriptors.present", i.has(at, size));
        match it.next() {
            None => ensures!("C19.descriptors.each", false),
            Some(d) => {
                reachable!("long", k == 1 && size == 3);
                ensures!("C19.descriptors.type", d.log_type == EventLogType::from(i.u8(at)));
                ensures!("C19.descriptors.format", d.variable_data_format_type == VariableDataFormatType::from(i.u8(at + 1)));
            }
        }
        k += 1;
    }
    reachable!("short", size == 1 && count == 2);
    ensures!("C19.descriptors.end", it.next().is_none());
}

/// Two states of a record iterator are the same: nothing left in both, or identical
fn same_rest<'a, I: Iterator<Item = &'a [u8]> + Clone>(a: I, b: I) -> bool {
    if a.clone().next().is_none() {
        return b.clone().next().is_none();
    }
    let words = core::mem::size_of::<I>() / core::mem::size_of::<usize>();
    let (p, q) = (&a as *const I as *const usize, &b as *const I as *const usize);
    let mut k = 0;
    let mut same = true;
    while k < words {
        same = same && unsafe { *p.add(k) == *q.add(k) };
        k += 1;
    }
    same
}

/// ContainedElements: one step from the state after any number of records
fn contained_step() {
    let i = any_in::<251>(InfoType::Enclosure, (2, 7));
    let (count, size) = (i.u8(0x13) as usize, i.u8(0x14) as usize);
    let mut it = match hooks::enclosure(i.raw()) {
        Ok(x) => match x.contained_elements {
            Some(it) => it,
            None => return,
        },
        Err(_) => return,
    };
    let n = if size == 0 { 0 } else { count };
    let k = any::<u8>() as usize;
    requires!(k <= n);
    let mut then = it.clone();
    it.verif_skip(k);
    then.verif_skip(k + 1);
    let at = 0x15 + k * size;
    let r = it.next();
    ensures!("C19.contained.step_end", r.is_none() == (k == n));
    if let Some(e) = r {
        reachable!("far", k == 60);
        let b = |j: usize| if j < size { i.u8(at + j) } else { 0 };
        ensures!("C19.contained.step_present", i.has(at, size));
        let (type_, min, max) = e.verif_parts();
        ensures!("C19.contained.step_type", type_ == if b(0) < 0x80 {
            ContainedElementType::BoardType(crate::c15::t_baseboard_board_type(b(0)))
        } else {
            ContainedElementType::InfoType(crate::c15::t_info_type(b(0) & 0x7F))
        });
        ensures!("C19.contained.step_minimum", min == b(1));
        ensures!("C19.contained.step_maximum", max == b(2));
    }
    ensures!("C19.contained.step_state", same_rest(it.verif_rest(), then.verif_rest()));
}

/// PeerDevices of a slot: one step from the state after any number of groups
fn peers_step() {
    let i = any_in::<251>(InfoType::SystemSlots, (3, 2));
    let count = i.u8(0x12) as usize;
    let mut it = match hooks::system_slots(i.raw()) {
        Ok(x) => match x.peer_devices {
            Some(it) => it,
            None => return,
        },
        Err(_) => return,
    };
    let k = any::<u8>() as usize;
    requires!(k <= count);
    let mut then = it.clone();
    it.verif_skip(k);
    then.verif_skip(k + 1);
    let at = 0x13 + 5 * k;
    let r = it.next();
    ensures!("C19.slot_peers.step_end", r.is_none() == (k == count));
    if let Some(d) = r {
        reachable!("far", k == 40);
        ensures!("C19.slot_peers.step_present", i.has(at, 5));
        ensures!("C19.slot_peers.step_segment", d.segment_group_number == i.u16(at));
        ensures!("C19.slot_peers.step_bus", d.bus_number == i.u8(at + 2));
        ensures!("C19.slot_peers.step_function", u8::from(d.device_and_function_number) == i.u8(at + 3));
        ensures!("C19.slot_peers.step_width", d.data_bus_width == i.u8(at + 4));
    }
    ensures!("C19.slot_peers.step_state", same_rest(it.verif_rest(), then.verif_rest()));
}

/// SupportedEventLogTypeDescriptors: one step from the state after any number of descriptors
fn descriptors_step() {
    let i = any_in::<251>(InfoType::SystemEventLog, (2, 1));
    let (count, size) = (i.u8(0x15) as usize, i.u8(0x16) as usize);
    let mut it = match hooks::system_event_log(i.raw()) {
        Ok(x) => match x.supported_event_log_type_descriptors {
            Some(it) => it,
            None => return,
        },
        Err(_) => return,
    };
    let k = any::<u8>() as usize;
    requires!(k <= count);
    let mut then = it.clone();
    it.verif_skip(k);
    then.verif_skip(k + 1);
    let at = 0x17 + k * size;
    let r = it.next();
    ensures!("C19.descriptors.step_end", r.is_none() == (k == count || size < 2));
    if let Some(d) = r {
        reachable!("far", k == 50);
        ensures!("C19.descriptors.step_present", i.has(at, size));
        ensures!("C19.descriptors.step_type", d.log_type == EventLogType::from(i.u8(at)));
        ensures!("C19.descriptors.step_format", d.variable_data_format_type == VariableDataFormatType::from(i.u8(at + 1)));
    }
    ensures!("C19.descriptors.step_state", size < 2 || same_rest(it.verif_rest(), then.verif_rest()));
}

/// GroupItems: one step from the state after any number of members
fn items_step() {
    let i = any_in::<251>(InfoType::GroupAssociations, (3, 0));
    let mut it = match hooks::group_associations(i.raw()) {
        Ok(x) => x.items,
        Err(_) => return,
    };
    let n = if i.len < 5 { 0 } else { (i.len - 5) / 3 };
    ensures!("C19.items.step_start", *it.verif_index() == 0);
    let k = any::<u8>() as usize;
    requires!(k <= n);
    *it.verif_index() = 3 * k;
    let r = it.next();
    ensures!("C19.items.step_end", r.is_none() == (k == n));
    if let Some(m) = r {
        reachable!("far", k == 80);
        ensures!("C19.items.step_type", m.type_ == i.u8(5 + 3 * k));
        ensures!("C19.items.step_handle", m.handle == i.u16(6 + 3 * k));
    }
    ensures!("C19.items.step_state", *it.verif_index() == 3 * if k == n { k } else { k + 1 });
}

/// InstallableLanguages: one step from the state after any number of strings
fn languages_step() {
    let d: &'static [u8] = &[0; 0x12];
    let n: u8 = any();
    let i = In::with_strings(InfoType::BiosLanguage, d, n);
    let mut it = match hooks::bios_language(i.raw()) {
        Ok(x) => x.installable_languages,
        Err(_) => {
            ensures!("C19.languages.step_given", false);
            return;
        }
    };
    ensures!("C19.languages.step_start", *it.verif_index() == 1);
    let k: u8 = any();
    requires!(k <= n);
    // the number of the next string, 0 after the last possible one
    *it.verif_index() = k.wrapping_add(1);
    let r = it.next();
    ensures!("C19.languages.step_end", r.is_none() == (k == n));
    if let Some(s) = r {
        reachable!("far", k == 254);
        ensures!("C19.languages.step_string", i.is(s, k + 1));
    }
    ensures!("C19.languages.step_state", *it.verif_index() == if k == n { k.wrapping_add(1) } else { k.wrapping_add(2) });
}

contracts! {
    /// ContainedElements: every state and section
    #[unwind(5)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_contained_step() { contained_step() }
    /// PeerDevices: every state and section
    #[unwind(8)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_peers_step() { peers_step() }
    /// SupportedEventLogTypeDescriptors: every state and section
    #[unwind(5)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_descriptors_step() { descriptors_step() }
    /// GroupItems: every state and section
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_items_step() { items_step() }
    /// InstallableLanguages: every state and section
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_languages_step() { languages_step() }
    /// ContainedElements: bounded, 8 bytes of records
    #[unwind(10)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_contained_elements() { contained_elements::<{ 0x11 + 8 }>() }
    /// PeerDevices: bounded, 3 groups
    #[unwind(7)]
    fn c19_peer_devices() { peer_devices::<15>() }
    /// SystemSlots::peer_devices: bounded, 3 groups
    #[unwind(7)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_slot_peers() { slot_peers::<{ 0x0F + 17 }>() }
    /// GroupItems: bounded, 4 members
    #[unwind(8)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_group_items() { group_items::<13>() }
    /// SupportedEventLogTypeDescriptors: bounded, 8 bytes of descriptors
    #[unwind(10)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_descriptors() { descriptors::<{ 0x13 + 8 }>() }
    /// InstallableLanguages: every number of strings up to 10, and the largest ones
    #[unwind(260)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c19_languages() {
        let mut n = 0;
        while n <= 10 {
            languages(n);
            n += 1;
        }
        languages(254);
        languages(255);
    }
}

fn languages(n: u8) {
    let d: &'static [u8] = &[0; 0x12];
    let i = In::with_strings(InfoType::BiosLanguage, d, n);
    let mut it = match hooks::bios_language(i.raw()) {
        Ok(x) => x.installable_languages,
        Err(_) => {
            ensures!("C19.languages.given", false);
            return;
        }
    };
    let mut k: u16 = 0;
    while k < n as u16 {
        k += 1;
        match it.next() {
            None => {
                ensures!("C19.languages.each", false);
                return;
            }
            Some(s) => {
                ensures!("C19.languages.string", i.is(s, k as u8));
            }
        }
    }
    reachable!("last", k == 255);
    ensures!("C19.languages.end", it.next().is_none());
    ensures!("C19.languages.ended", it.next().is_none());
}

native! {
    /// Sections of all sizes
    fn c19_large() {
        match any::<u8>() % 6 {
            0 => contained_elements::<251>(),
            1 => peer_devices::<1280>(),
            2 => slot_peers::<251>(),
            3 => group_items::<251>(),
            4 => languages(any()),
            _ => descriptors::<251>(),
        }
    }
}
