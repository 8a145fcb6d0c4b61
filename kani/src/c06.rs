//! C06 (dispatch by type byte) and the part of C05 about `Structures::next`.
use crate::common::*;
use crate::rt::*;
use crate::*;
use crate::hooks;
use dmidecode::*;

/// Ghost state of the contract of `next_raw`: what it returns and the state it leaves.
#[cfg(kani)]
static mut RAW: Option<Option<Result<RawStructure<'static>, Er>>> = None;
#[cfg(kani)]
static mut AFTER: Option<Structures<'static>> = None;

/// The contract of `Structures::next_raw` (C04), standing for it in `Structures::next`.
#[cfg(kani)]
pub fn next_raw_contract<'b: 'b>(s: &mut Structures<'b>) -> Option<Result<RawStructure<'b>, Er>> {
    unsafe {
        if let Some(after) = AFTER.take() {
            *s = core::ptr::read(&after as *const Structures<'static> as *const Structures<'b>);
        }
        match RAW.take() {
            Some(r) => core::ptr::read(&r as *const _ as *const Option<Result<RawStructure<'b>, Er>>),
            None => {
                kani::assume(false);
                None
            }
        }
    }
}

/// Result of `next`, state before it and state after the raw structure was taken.
struct Step {
    r: Option<Result<Structure<'static>, Er>>,
    before: (u32, u32),
    taken: (u32, u32),
    after: (u32, u32),
    s: Structures<'static>,
}

/// Call `Structures::next` where the next raw structure is `i`, in any state.
#[cfg(all(kani, not(feature = "nostub")))]
fn step(kind: u8, i: &In) -> Step {
    let version = i.raw().version;
    let smbios_len: u32 = any();
    let idx: u32 = any();
    let idx2: u32 = any();
    let mut s = hooks::structures_at(version, smbios_len, idx, i.d);
    unsafe {
        RAW = Some(Some(Ok(i.raw())));
        AFTER = Some(hooks::structures_at(version, smbios_len, idx2, i.d));
    }
    let r = s.next();
    Step { r, before: (smbios_len, idx), taken: (smbios_len, idx2), after: hooks::structures_state(&s), s }
}
/// The same from a table holding the structure at offset 0
#[cfg(not(all(kani, not(feature = "nostub"))))]
fn step(kind: u8, i: &In) -> Step {
    let smbios_len: u32 = any();
    let b = table(kind, i);
    requires!(smbios_len as usize > i.len);
    let mut s = hooks::structures_at(i.raw().version, smbios_len, 0, b);
    let r = s.next();
    let taken = (i.len + i.strings.len()) as u32;
    Step { r, before: (smbios_len, 0), taken: (smbios_len, taken), after: hooks::structures_state(&s), s }
}
#[cfg(not(kani))]
fn table(kind: u8, i: &In) -> &'static [u8] {
    let mut b = vec![kind, i.len as u8, i.h as u8, (i.h >> 8) as u8];
    b.extend_from_slice(i.d);
    b.extend_from_slice(i.strings);
    object(b)
}
#[cfg(all(kani, feature = "nostub"))]
fn table(kind: u8, i: &In) -> &'static [u8] {
    const N: usize = 4 + 64 + 6;
    let mut b = [0; N];
    b[0] = kind;
    b[1] = i.len as u8;
    b[2] = i.h as u8;
    b[3] = (i.h >> 8) as u8;
    requires!(i.d.len() <= 64);
    let mut k = 0;
    while k < i.d.len() {
        b[4 + k] = i.d[k];
        k += 1;
    }
    let mut j = 0;
    while j < i.strings.len() {
        b[4 + k + j] = i.strings[j];
        j += 1;
    }
    std::boxed::Box::leak(std::boxed::Box::new(b))
}

/// Contracts of the decoders, standing for them in `Structures::next`: they refuse the structure
/// they are given, naming it, or decode it keeping its handle (C09 to C14).
#[cfg(kani)]
pub mod decoders {
    use super::*;
    /// Which decoder was called, and with what
    pub static mut SEEN: Seen = NOTHING;
    #[derive(Clone, Copy)]
    pub struct Seen {
        pub calls: u8,
        pub kind: u8,
        pub version: SmbiosVersion,
        pub info: InfoType,
        pub handle: u16,
        pub length: u8,
        pub data: *const u8,
        pub size: usize,
        pub strings: *const u8,
    }
    pub const NOTHING: Seen = Seen {
        calls: 0,
        kind: 0,
        version: SmbiosVersion { major: 0, minor: 0 },
        info: InfoType::End,
        handle: 0,
        length: 0,
        data: core::ptr::null(),
        size: 0,
        strings: core::ptr::null(),
    };
    fn refuse(kind: u8, raw: &RawStructure<'_>) -> Er {
        unsafe {
            SEEN = Seen {
                calls: SEEN.calls + 1,
                kind,
                version: raw.version,
                info: raw.info,
                handle: raw.handle,
                length: raw.length,
                data: raw.data.as_ptr(),
                size: raw.data.len(),
                strings: hooks::raw_strings(raw).as_ptr(),
            };
        }
        Er::InvalidStringIndex(raw.info, raw.handle, 77)
    }
    macro_rules! decoder {
        ($refuse:ident $accept:ident $kind:literal $t:ty $(, $l:lifetime)?) => {
            pub fn $refuse$(<$l: $l>)?(raw: RawStructure$(<$l>)?) -> Result<$t, Er> {
                Err(refuse($kind, &raw))
            }
            pub fn $accept$(<$l: $l>)?(raw: RawStructure$(<$l>)?) -> Result<$t, Er> {
                // Some value: all bytes 1
                let bytes = [1u8; 512];
                assert!(core::mem::size_of::<$t>() <= 512);
                let mut x: $t = unsafe { core::ptr::read_unaligned(bytes.as_ptr() as *const $t) };
                x.handle = raw.handle;
                Ok(x)
            }
        };
    }
    decoder!(bios bios_ok 0 Bios<'b>, 'b);
    decoder!(system system_ok 1 System<'b>, 'b);
    decoder!(base_board base_board_ok 2 BaseBoard<'b>, 'b);
    decoder!(enclosure enclosure_ok 3 Enclosure<'b>, 'b);
    decoder!(processor processor_ok 4 Processor<'b>, 'b);
    decoder!(cache cache_ok 7 Cache<'b>, 'b);
    decoder!(port_connector port_connector_ok 8 PortConnector<'b>, 'b);
    decoder!(system_slots system_slots_ok 9 SystemSlots<'b>, 'b);
    decoder!(oem_strings oem_strings_ok 11 OemStrings<'b>, 'b);
    decoder!(system_configuration_options system_configuration_options_ok 12 SystemConfigurationOptions<'b>, 'b);
    decoder!(bios_language bios_language_ok 13 BiosLanguage<'b>, 'b);
    decoder!(group_associations group_associations_ok 14 GroupAssociations<'b>, 'b);
    decoder!(system_event_log system_event_log_ok 15 SystemEventLog<'b>, 'b);
    decoder!(physical_memory_array physical_memory_array_ok 16 PhysicalMemoryArray);
    decoder!(memory_device memory_device_ok 17 MemoryDevice<'b>, 'b);
    decoder!(memory_error32 memory_error32_ok 18 MemoryError32, 'b);
    decoder!(memory_array_mapped_address memory_array_mapped_address_ok 19 MemoryArrayMappedAddress, 'b);
    decoder!(memory_device_mapped_address memory_device_mapped_address_ok 20 MemoryDeviceMappedAddress, 'b);
    decoder!(built_in_pointing_device built_in_pointing_device_ok 21 BuiltInPointingDevice, 'b);
    decoder!(portable_battery portable_battery_ok 22 PortableBattery<'b>, 'b);
}

/// Type and handle of a decoded structure
pub fn decoded(x: &Structure<'_>) -> Option<(u8, u16)> {
    Some(match x {
        Structure::Bios(x) => (0, x.handle),
        Structure::System(x) => (1, x.handle),
        Structure::BaseBoard(x) => (2, x.handle),
        Structure::Enclosure(x) => (3, x.handle),
        Structure::Processor(x) => (4, x.handle),
        Structure::Cache(x) => (7, x.handle),
        Structure::PortConnector(x) => (8, x.handle),
        Structure::SystemSlots(x) => (9, x.handle),
        Structure::OemStrings(x) => (11, x.handle),
        Structure::SystemConfigurationOptions(x) => (12, x.handle),
        Structure::BiosLanguage(x) => (13, x.handle),
        Structure::GroupAssociations(x) => (14, x.handle),
        Structure::SystemEventLog(x) => (15, x.handle),
        Structure::PhysicalMemoryArray(x) => (16, x.handle),
        Structure::MemoryDevice(x) => (17, x.handle),
        Structure::MemoryError32(x) => (18, x.handle),
        Structure::MemoryArrayMappedAddress(x) => (19, x.handle),
        Structure::MemoryDeviceMappedAddress(x) => (20, x.handle),
        Structure::BuiltInPointingDevice(x) => (21, x.handle),
        Structure::PortableBattery(x) => (22, x.handle),
        Structure::Other(_) => return None,
    })
}
pub fn has_decoder(kind: u8) -> bool {
    matches!(kind, 0 | 1 | 2 | 3 | 4 | 7 | 8 | 9 | 11 | 12 | 13 | 14 | 15 | 16 | 17 | 18 | 19 | 20 | 21 | 22)
}

contracts! {
    /// InfoType::from: each type byte has its own type
    fn c06_types() {
        let kind: u8 = any();
        ensures!("C06.types.type", InfoType::from(kind) == crate::c15::t_info_type(kind));
    }

    /// Structures::next where `next_raw` yields a structure of any type, in any state, and the
    /// decoders refuse theirs
    #[stub(dmidecode::Bios::try_from, crate::c06::decoders::bios)]
    #[stub(dmidecode::System::try_from, crate::c06::decoders::system)]
    #[stub(dmidecode::BaseBoard::try_from, crate::c06::decoders::base_board)]
    #[stub(dmidecode::Enclosure::try_from, crate::c06::decoders::enclosure)]
    #[stub(dmidecode::Processor::try_from, crate::c06::decoders::processor)]
    #[stub(dmidecode::Cache::try_from, crate::c06::decoders::cache)]
    #[stub(dmidecode::PortConnector::try_from, crate::c06::decoders::port_connector)]
    #[stub(dmidecode::SystemSlots::try_from, crate::c06::decoders::system_slots)]
    #[stub(dmidecode::OemStrings::try_from, crate::c06::decoders::oem_strings)]
    #[stub(dmidecode::SystemConfigurationOptions::try_from, crate::c06::decoders::system_configuration_options)]
    #[stub(dmidecode::BiosLanguage::try_from, crate::c06::decoders::bios_language)]
    #[stub(dmidecode::GroupAssociations::try_from, crate::c06::decoders::group_associations)]
    #[stub(dmidecode::SystemEventLog::try_from, crate::c06::decoders::system_event_log)]
    #[stub(dmidecode::PhysicalMemoryArray::try_from, crate::c06::decoders::physical_memory_array)]
    #[stub(dmidecode::MemoryDevice::try_from, crate::c06::decoders::memory_device)]
    #[stub(dmidecode::MemoryError32::try_from, crate::c06::decoders::memory_error32)]
    #[stub(dmidecode::MemoryArrayMappedAddress::try_from, crate::c06::decoders::memory_array_mapped_address)]
    #[stub(dmidecode::MemoryDeviceMappedAddress::try_from, crate::c06::decoders::memory_device_mapped_address)]
    #[stub(dmidecode::BuiltInPointingDevice::try_from, crate::c06::decoders::built_in_pointing_device)]
    #[stub(dmidecode::PortableBattery::try_from, crate::c06::decoders::portable_battery)]
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c06_dispatch() {
        let kind: u8 = any();
        let i = In::any_with(crate::c15::t_info_type(kind), any_object::<251>());
        #[cfg(kani)]
        unsafe {
            decoders::SEEN = decoders::NOTHING;
        }
        let t = step(kind, &i);
        #[cfg(all(kani, not(feature = "nostub")))]
        {
            // The decoder of this type, and no other, was given this raw structure
            let seen = unsafe { decoders::SEEN };
            if has_decoder(kind) {
                reachable!("decoder called", kind == 22);
                ensures!("C06.dispatch.decoder", seen.calls == 1 && seen.kind == kind);
                ensures!("C06.dispatch.given", seen.info == i.info && seen.handle == i.h && seen.length as usize == i.len
                    && (seen.version.major, seen.version.minor) == i.v && seen.data == i.d.as_ptr() && seen.size == i.d.len()
                    && seen.strings == i.strings.as_ptr());
                ensures!("C06.dispatch.passed_on", matches!(t.r, Some(Err(Er::InvalidStringIndex(k, h, 77))) if k == i.info && h == i.h));
            } else {
                ensures!("C06.dispatch.no_decoder", seen.calls == 0);
            }
        }
        outcome(kind, &i, &t);
    }

    /// The same where the decoders accept: Bios, Cache, BiosLanguage, MemoryError32
    #[stub(dmidecode::Bios::try_from, crate::c06::decoders::bios_ok)]
    #[stub(dmidecode::System::try_from, crate::c06::decoders::system)]
    #[stub(dmidecode::BaseBoard::try_from, crate::c06::decoders::base_board)]
    #[stub(dmidecode::Enclosure::try_from, crate::c06::decoders::enclosure)]
    #[stub(dmidecode::Processor::try_from, crate::c06::decoders::processor)]
    #[stub(dmidecode::Cache::try_from, crate::c06::decoders::cache_ok)]
    #[stub(dmidecode::PortConnector::try_from, crate::c06::decoders::port_connector)]
    #[stub(dmidecode::SystemSlots::try_from, crate::c06::decoders::system_slots)]
    #[stub(dmidecode::OemStrings::try_from, crate::c06::decoders::oem_strings)]
    #[stub(dmidecode::SystemConfigurationOptions::try_from, crate::c06::decoders::system_configuration_options)]
    #[stub(dmidecode::BiosLanguage::try_from, crate::c06::decoders::bios_language_ok)]
    #[stub(dmidecode::GroupAssociations::try_from, crate::c06::decoders::group_associations)]
    #[stub(dmidecode::SystemEventLog::try_from, crate::c06::decoders::system_event_log)]
    #[stub(dmidecode::PhysicalMemoryArray::try_from, crate::c06::decoders::physical_memory_array)]
    #[stub(dmidecode::MemoryDevice::try_from, crate::c06::decoders::memory_device)]
    #[stub(dmidecode::MemoryError32::try_from, crate::c06::decoders::memory_error32_ok)]
    #[stub(dmidecode::MemoryArrayMappedAddress::try_from, crate::c06::decoders::memory_array_mapped_address)]
    #[stub(dmidecode::MemoryDeviceMappedAddress::try_from, crate::c06::decoders::memory_device_mapped_address)]
    #[stub(dmidecode::BuiltInPointingDevice::try_from, crate::c06::decoders::built_in_pointing_device)]
    #[stub(dmidecode::PortableBattery::try_from, crate::c06::decoders::portable_battery)]
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c06_accept_0() {
        let kind: u8 = any();
        requires!(kind == 0 || kind == 7 || kind == 13 || kind == 18);
        let i = In::any_with(crate::c15::t_info_type(kind), any_object::<251>());
        let t = step(kind, &i);
        reachable!("accepted", matches!(t.r, Some(Ok(_))));
        #[cfg(all(kani, not(feature = "nostub")))]
        ensures!("C06.dispatch.accepted", matches!(t.r, Some(Ok(_))));
        outcome(kind, &i, &t);
    }

    /// The same where the decoders accept: System, PortConnector, GroupAssociations, MemoryArrayMappedAddress
    #[stub(dmidecode::Bios::try_from, crate::c06::decoders::bios)]
    #[stub(dmidecode::System::try_from, crate::c06::decoders::system_ok)]
    #[stub(dmidecode::BaseBoard::try_from, crate::c06::decoders::base_board)]
    #[stub(dmidecode::Enclosure::try_from, crate::c06::decoders::enclosure)]
    #[stub(dmidecode::Processor::try_from, crate::c06::decoders::processor)]
    #[stub(dmidecode::Cache::try_from, crate::c06::decoders::cache)]
    #[stub(dmidecode::PortConnector::try_from, crate::c06::decoders::port_connector_ok)]
    #[stub(dmidecode::SystemSlots::try_from, crate::c06::decoders::system_slots)]
    #[stub(dmidecode::OemStrings::try_from, crate::c06::decoders::oem_strings)]
    #[stub(dmidecode::SystemConfigurationOptions::try_from, crate::c06::decoders::system_configuration_options)]
    #[stub(dmidecode::BiosLanguage::try_from, crate::c06::decoders::bios_language)]
    #[stub(dmidecode::GroupAssociations::try_from, crate::c06::decoders::group_associations_ok)]
    #[stub(dmidecode::SystemEventLog::try_from, crate::c06::decoders::system_event_log)]
    #[stub(dmidecode::PhysicalMemoryArray::try_from, crate::c06::decoders::physical_memory_array)]
    #[stub(dmidecode::MemoryDevice::try_from, crate::c06::decoders::memory_device)]
    #[stub(dmidecode::MemoryError32::try_from, crate::c06::decoders::memory_error32)]
    #[stub(dmidecode::MemoryArrayMappedAddress::try_from, crate::c06::decoders::memory_array_mapped_address_ok)]
    #[stub(dmidecode::MemoryDeviceMappedAddress::try_from, crate::c06::decoders::memory_device_mapped_address)]
    #[stub(dmidecode::BuiltInPointingDevice::try_from, crate::c06::decoders::built_in_pointing_device)]
    #[stub(dmidecode::PortableBattery::try_from, crate::c06::decoders::portable_battery)]
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c06_accept_1() {
        let kind: u8 = any();
        requires!(kind == 1 || kind == 8 || kind == 14 || kind == 19);
        let i = In::any_with(crate::c15::t_info_type(kind), any_object::<251>());
        let t = step(kind, &i);
        reachable!("accepted", matches!(t.r, Some(Ok(_))));
        #[cfg(all(kani, not(feature = "nostub")))]
        ensures!("C06.dispatch.accepted", matches!(t.r, Some(Ok(_))));
        outcome(kind, &i, &t);
    }

    /// The same where the decoders accept: BaseBoard, SystemSlots, SystemEventLog, MemoryDeviceMappedAddress
    #[stub(dmidecode::Bios::try_from, crate::c06::decoders::bios)]
    #[stub(dmidecode::System::try_from, crate::c06::decoders::system)]
    #[stub(dmidecode::BaseBoard::try_from, crate::c06::decoders::base_board_ok)]
    #[stub(dmidecode::Enclosure::try_from, crate::c06::decoders::enclosure)]
    #[stub(dmidecode::Processor::try_from, crate::c06::decoders::processor)]
    #[stub(dmidecode::Cache::try_from, crate::c06::decoders::cache)]
    #[stub(dmidecode::PortConnector::try_from, crate::c06::decoders::port_connector)]
    #[stub(dmidecode::SystemSlots::try_from, crate::c06::decoders::system_slots_ok)]
    #[stub(dmidecode::OemStrings::try_from, crate::c06::decoders::oem_strings)]
    #[stub(dmidecode::SystemConfigurationOptions::try_from, crate::c06::decoders::system_configuration_options)]
    #[stub(dmidecode::BiosLanguage::try_from, crate::c06::decoders::bios_language)]
    #[stub(dmidecode::GroupAssociations::try_from, crate::c06::decoders::group_associations)]
    #[stub(dmidecode::SystemEventLog::try_from, crate::c06::decoders::system_event_log_ok)]
    #[stub(dmidecode::PhysicalMemoryArray::try_from, crate::c06::decoders::physical_memory_array)]
    #[stub(dmidecode::MemoryDevice::try_from, crate::c06::decoders::memory_device)]
    #[stub(dmidecode::MemoryError32::try_from, crate::c06::decoders::memory_error32)]
    #[stub(dmidecode::MemoryArrayMappedAddress::try_from, crate::c06::decoders::memory_array_mapped_address)]
    #[stub(dmidecode::MemoryDeviceMappedAddress::try_from, crate::c06::decoders::memory_device_mapped_address_ok)]
    #[stub(dmidecode::BuiltInPointingDevice::try_from, crate::c06::decoders::built_in_pointing_device)]
    #[stub(dmidecode::PortableBattery::try_from, crate::c06::decoders::portable_battery)]
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c06_accept_2() {
        let kind: u8 = any();
        requires!(kind == 2 || kind == 9 || kind == 15 || kind == 20);
        let i = In::any_with(crate::c15::t_info_type(kind), any_object::<251>());
        let t = step(kind, &i);
        reachable!("accepted", matches!(t.r, Some(Ok(_))));
        #[cfg(all(kani, not(feature = "nostub")))]
        ensures!("C06.dispatch.accepted", matches!(t.r, Some(Ok(_))));
        outcome(kind, &i, &t);
    }

    /// The same where the decoders accept: Enclosure, OemStrings, PhysicalMemoryArray, BuiltInPointingDevice
    #[stub(dmidecode::Bios::try_from, crate::c06::decoders::bios)]
    #[stub(dmidecode::System::try_from, crate::c06::decoders::system)]
    #[stub(dmidecode::BaseBoard::try_from, crate::c06::decoders::base_board)]
    #[stub(dmidecode::Enclosure::try_from, crate::c06::decoders::enclosure_ok)]
    #[stub(dmidecode::Processor::try_from, crate::c06::decoders::processor)]
    #[stub(dmidecode::Cache::try_from, crate::c06::decoders::cache)]
    #[stub(dmidecode::PortConnector::try_from, crate::c06::decoders::port_connector)]
    #[stub(dmidecode::SystemSlots::try_from, crate::c06::decoders::system_slots)]
    #[stub(dmidecode::OemStrings::try_from, crate::c06::decoders::oem_strings_ok)]
    #[stub(dmidecode::SystemConfigurationOptions::try_from, crate::c06::decoders::system_configuration_options)]
    #[stub(dmidecode::BiosLanguage::try_from, crate::c06::decoders::bios_language)]
    #[stub(dmidecode::GroupAssociations::try_from, crate::c06::decoders::group_associations)]
    #[stub(dmidecode::SystemEventLog::try_from, crate::c06::decoders::system_event_log)]
    #[stub(dmidecode::PhysicalMemoryArray::try_from, crate::c06::decoders::physical_memory_array_ok)]
    #[stub(dmidecode::MemoryDevice::try_from, crate::c06::decoders::memory_device)]
    #[stub(dmidecode::MemoryError32::try_from, crate::c06::decoders::memory_error32)]
    #[stub(dmidecode::MemoryArrayMappedAddress::try_from, crate::c06::decoders::memory_array_mapped_address)]
    #[stub(dmidecode::MemoryDeviceMappedAddress::try_from, crate::c06::decoders::memory_device_mapped_address)]
    #[stub(dmidecode::BuiltInPointingDevice::try_from, crate::c06::decoders::built_in_pointing_device_ok)]
    #[stub(dmidecode::PortableBattery::try_from, crate::c06::decoders::portable_battery)]
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c06_accept_3() {
        let kind: u8 = any();
        requires!(kind == 3 || kind == 11 || kind == 16 || kind == 21);
        let i = In::any_with(crate::c15::t_info_type(kind), any_object::<251>());
        let t = step(kind, &i);
        reachable!("accepted", matches!(t.r, Some(Ok(_))));
        #[cfg(all(kani, not(feature = "nostub")))]
        ensures!("C06.dispatch.accepted", matches!(t.r, Some(Ok(_))));
        outcome(kind, &i, &t);
    }

    /// The same where the decoders accept: Processor, SystemConfigurationOptions, MemoryDevice, PortableBattery
    #[stub(dmidecode::Bios::try_from, crate::c06::decoders::bios)]
    #[stub(dmidecode::System::try_from, crate::c06::decoders::system)]
    #[stub(dmidecode::BaseBoard::try_from, crate::c06::decoders::base_board)]
    #[stub(dmidecode::Enclosure::try_from, crate::c06::decoders::enclosure)]
    #[stub(dmidecode::Processor::try_from, crate::c06::decoders::processor_ok)]
    #[stub(dmidecode::Cache::try_from, crate::c06::decoders::cache)]
    #[stub(dmidecode::PortConnector::try_from, crate::c06::decoders::port_connector)]
    #[stub(dmidecode::SystemSlots::try_from, crate::c06::decoders::system_slots)]
    #[stub(dmidecode::OemStrings::try_from, crate::c06::decoders::oem_strings)]
    #[stub(dmidecode::SystemConfigurationOptions::try_from, crate::c06::decoders::system_configuration_options_ok)]
    #[stub(dmidecode::BiosLanguage::try_from, crate::c06::decoders::bios_language)]
    #[stub(dmidecode::GroupAssociations::try_from, crate::c06::decoders::group_associations)]
    #[stub(dmidecode::SystemEventLog::try_from, crate::c06::decoders::system_event_log)]
    #[stub(dmidecode::PhysicalMemoryArray::try_from, crate::c06::decoders::physical_memory_array)]
    #[stub(dmidecode::MemoryDevice::try_from, crate::c06::decoders::memory_device_ok)]
    #[stub(dmidecode::MemoryError32::try_from, crate::c06::decoders::memory_error32)]
    #[stub(dmidecode::MemoryArrayMappedAddress::try_from, crate::c06::decoders::memory_array_mapped_address)]
    #[stub(dmidecode::MemoryDeviceMappedAddress::try_from, crate::c06::decoders::memory_device_mapped_address)]
    #[stub(dmidecode::BuiltInPointingDevice::try_from, crate::c06::decoders::built_in_pointing_device)]
    #[stub(dmidecode::PortableBattery::try_from, crate::c06::decoders::portable_battery_ok)]
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c06_accept_4() {
        let kind: u8 = any();
        requires!(kind == 4 || kind == 12 || kind == 17 || kind == 22);
        let i = In::any_with(crate::c15::t_info_type(kind), any_object::<251>());
        let t = step(kind, &i);
        reachable!("accepted", matches!(t.r, Some(Ok(_))));
        #[cfg(all(kani, not(feature = "nostub")))]
        ensures!("C06.dispatch.accepted", matches!(t.r, Some(Ok(_))));
        outcome(kind, &i, &t);
    }

    /// Structures::next where `next_raw` fails: the error is passed on and the iteration is over
    #[stub(dmidecode::Structures::next_raw, crate::c06::next_raw_contract)]
    fn c05_error_ends() {
        #[cfg(all(kani, not(feature = "nostub")))]
        {
            let v = any_version();
            let version = SmbiosVersion { major: v.0, minor: v.1 };
            let (smbios_len, idx, o, l): (u32, u32, u32, u8) = (any(), any(), any(), any());
            let unterminated: bool = any();
            let mut s = hooks::structures_at(version, smbios_len, idx, &[]);
            unsafe {
                RAW = Some(Some(Err(if unterminated { Er::UnterminatedStrings(o) } else { Er::BadSize(o, l) })));
            }
            let r = s.next();
            ensures!("C05.next.error_reported", match r {
                Some(Err(Er::UnterminatedStrings(o2))) => unterminated && o2 == o,
                Some(Err(Er::BadSize(o2, l2))) => !unterminated && o2 == o && l2 == l,
                _ => false,
            });
            ensures!("C05.next.error_ends", done(hooks::structures_state(&s)));
            // next_raw ends in every such state (C04.next_raw.end), and so does next
            let before = hooks::structures_state(&s);
            unsafe { RAW = Some(None) };
            ensures!("C05.next.end", s.next().is_none());
            ensures!("C05.next.end_stays", hooks::structures_state(&s) == before);
        }
        #[cfg(not(all(kani, not(feature = "nostub"))))]
        traversal(any_slice::<20>());
    }
}

fn outcome(kind: u8, i: &In, t: &Step) {
    match &t.r {
        Some(Ok(Structure::Other(raw))) => {
            ensures!("C06.dispatch.other", !has_decoder(kind));
            ensures!("C06.dispatch.raw_header", raw.info == i.info && raw.handle == i.h && raw.length as usize == i.len
                && (raw.version.major, raw.version.minor) == i.v);
            ensures!("C06.dispatch.raw_data", same(raw.data, i.d) && same(hooks::raw_strings(raw), i.strings));
        }
        Some(Ok(x)) => ensures!("C06.dispatch.variant_and_handle", decoded(x) == Some((kind, i.h))),
        Some(Err(e)) => {
            ensures!("C06.dispatch.refused", has_decoder(kind) && match e {
                Er::InvalidStringIndex(k, h, _) | Er::InvalidFormattedSectionLength(k, h, _, _) => *k == i.info && *h == i.h,
                Er::InvalidSlice(_) => true,
                _ => false,
            });
        }
        None => ensures!("C06.dispatch.item", false),
    }
    if kind == 127 && i.v.0 >= 3 {
        // The table ends here whatever follows
        ensures!("C05.next.end_of_table", done(t.after));
    } else {
        ensures!("C05.next.goes_on", t.after == t.taken);
    }
}

/// In this state `next_raw` returns None and stays (C04.next_raw.end)
fn done((smbios_len, idx): (u32, u32)) -> bool {
    smbios_len.saturating_sub(idx) < 4
}
fn same(a: &[u8], b: &[u8]) -> bool {
    #[cfg(all(kani, not(feature = "nostub")))]
    return a.as_ptr() == b.as_ptr() && a.len() == b.len();
    #[cfg(not(all(kani, not(feature = "nostub"))))]
    return a == b;
}

/// Follow a table to its end: an error of the framing is the last item
fn traversal(b: &'static [u8]) {
    let v = any_version();
    let smbios_len: u32 = any();
    let mut s = hooks::structures_at(SmbiosVersion { major: v.0, minor: v.1 }, smbios_len, 0, b);
    let mut items = 0;
    let mut over = false;
    while let Some(r) = s.next() {
        ensures!("C05.next.after_end", !over);
        items += 1;
        ensures!("C05.next.count", items <= b.len() / 6 + 1);
        over = match r {
            Err(Er::BadSize(..)) | Err(Er::UnterminatedStrings(_)) => true,
            Ok(Structure::Other(raw)) => raw.info == InfoType::End && v.0 >= 3,
            _ => false,
        };
    }
    ensures!("C05.next.stays_over", s.next().is_none());
}
