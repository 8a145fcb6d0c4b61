//! C14: Pointing device, battery, event log, groups and option strings decode exactly.
use crate::common::*;
use crate::*;
use dmidecode::bitfield::BitField;
use crate::hooks;
use dmidecode::*;

#[cfg(kani)]
static mut GHOST_STRINGS: usize = 0;

/// The contract of StructureStrings::next where only the number of strings matters: so many, then the end
#[cfg(kani)]
pub fn strings_next_contract<'a>(_this: &mut dmidecode::StructureStrings<'a>) -> Option<&'a str>
where
    'a: 'a,
{
    unsafe {
        if GHOST_STRINGS == 0 {
            None
        } else {
            GHOST_STRINGS -= 1;
            Some("")
        }
    }
}

contracts! {
    /// BuiltInPointingDevice::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c14_built_in_pointing_device() {
        use dmidecode::built_in_pointing_device::*;
        let i = In::any(InfoType::BuiltInPointingDevice);
        let length_ok = i.v < (2, 1) || i.len == 0x07;
        match hooks::built_in_pointing_device(i.raw()) {
            Ok(x) => {
                reachable!("pointing 2.1", i.v == (2, 1));
                ensures!("C14.pointing.length_accepted", length_ok && i.len >= 0x07);
                ensures!("C14.pointing.handle", x.handle == i.h);
                ensures!("C14.pointing.type", x.type_ == Type::from(i.u8(0x04)));
                ensures!("C14.pointing.interface", x.interface == Interface::from(i.u8(0x05)));
                ensures!("C14.pointing.buttons", x.number_of_buttons == i.u8(0x06));
            }
            Err(e) => {
                reachable!("pointing length", true);
                ensures!("C14.pointing.error", if !length_ok { i.bad_length(&e) } else { i.len < 0x07 });
            }
        }
    }

    /// PortableBattery::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c14_portable_battery() {
        use dmidecode::portable_battery::*;
        let i = In::any(InfoType::PortableBattery);
        let strings = [0x04, 0x05, 0x08, 0x0E];
        let length_ok = if i.v == (2, 1) { i.len == 0x10 } else if i.v >= (2, 2) { i.len == 0x1A } else { true };
        // A string is given when its number is not 0 and the string exists
        let given = |o: usize| i.u8(o) != 0 && i.sok(i.u8(o));
        match hooks::portable_battery(i.raw()) {
            Ok(x) => {
                reachable!("battery 2.1", i.v == (2, 1));
                reachable!("battery 2.2", i.v == (2, 2));
                ensures!("C14.battery.length_accepted", length_ok && i.len >= 0x10);
                ensures!("C14.battery.handle", x.handle == i.h);
                ensures!("C14.battery.location", i.s(x.location, 0x04));
                ensures!("C14.battery.manufacturer", i.s(x.manufacturer, 0x05));
                let d = i.u16(0x12);
                ensures!("C14.battery.date", match x.manufacture_date {
                    ManufactureDate::Basic(s) => given(0x06) && i.s(s, 0x06),
                    ManufactureDate::SmartBatteryDataSpecification { year, month, date } => !given(0x06) && i.has(0x12, 2)
                        && date as u16 == d % 32 && month as u16 == d / 32 % 16 && year == 1980 + d / 512,
                    ManufactureDate::None => !given(0x06) && !i.has(0x12, 2),
                });
                ensures!("C14.battery.serial", match x.serial_number {
                    SerialNumber::Basic(s) => given(0x07) && i.s(s, 0x07),
                    SerialNumber::SmartBatteryDataSpecification(n) => !given(0x07) && i.o16(0x10) == Some(n),
                    SerialNumber::None => !given(0x07) && !i.has(0x10, 2),
                });
                ensures!("C14.battery.device_name", i.s(x.device_name, 0x08));
                ensures!("C14.battery.chemistry", match (i.u8(0x09), x.device_chemistry) {
                    (1, DeviceChemistry::Other) => true,
                    (2, DeviceChemistry::SmartBatteryDataSpecification(s)) => i.s(s, 0x14),
                    (2, DeviceChemistry::Unknown) => !(i.has(0x14, 1) && i.sok(i.u8(0x14))),
                    (3, DeviceChemistry::LeadAcid) => true,
                    (4, DeviceChemistry::NickelCadmium) => true,
                    (5, DeviceChemistry::NickelMetalHydride) => true,
                    (6, DeviceChemistry::LithiumIon) => true,
                    (7, DeviceChemistry::ZincAir) => true,
                    (8, DeviceChemistry::LithiumPolymer) => true,
                    (c, DeviceChemistry::Undefined(u)) => c == u && !(1..=8).contains(&c),
                    _ => false,
                });
                ensures!("C14.battery.capacity", match x.design_capacity {
                    DesignCapacity::Unknown => i.u16(0x0A) == 0,
                    DesignCapacity::Data { value, multiplier } => value != 0 && value == i.u16(0x0A)
                        && multiplier == i.o8(0x15).unwrap_or(1),
                });
                ensures!("C14.battery.voltage", x.design_voltage == i.u16(0x0C));
                ensures!("C14.battery.sbds_version", i.s(x.sbds_version_number, 0x0E));
                ensures!("C14.battery.maximum_error", x.maximum_error_in_battery_data == i.u8(0x0F));
                ensures!("C14.battery.oem", x.oem_specific == i.o32(0x16));
            }
            Err(e) => {
                reachable!("battery length", !length_ok);
                reachable!("battery string", length_ok && i.v >= (2, 2));
                ensures!("C14.battery.error", if !length_ok { i.bad_length(&e) }
                    else if i.len < 0x10 { matches!(e, Er::InvalidSlice(_)) || i.bad_string(&e, strings) }
                    else { !i.strings_ok(strings) && i.bad_string(&e, strings) });
            }
        }
    }

    /// SystemEventLog::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c14_system_event_log() {
        use dmidecode::system_event_log::*;
        let i = In::any(InfoType::SystemEventLog);
        let size = i.u8(0x15) as usize * i.u8(0x16) as usize;
        let listed = i.has(0x15, 2);
        let length_ok = if i.v == (2, 0) { i.len == 0x14 } else if i.v >= (2, 1) { listed && i.len == 0x17 + size } else { true };
        match hooks::system_event_log(i.raw()) {
            Ok(x) => {
                reachable!("log 2.0", i.v == (2, 0));
                reachable!("log 2.1", i.v == (2, 1) && size > 4);
                ensures!("C14.log.length_accepted", length_ok && i.len >= 0x14);
                ensures!("C14.log.handle", x.handle == i.h);
                ensures!("C14.log.area_length", x.log_area_length == i.u16(0x04));
                ensures!("C14.log.header_offset", x.log_header_start_offset == i.u16(0x06));
                ensures!("C14.log.data_offset", x.log_data_start_offset == i.u16(0x08));
                ensures!("C14.log.access_method", x.access_method == AccessMethod::new(i.u8(0x0A), i.u32(0x10)));
                ensures!("C14.log.status", x.log_status.value() == i.u8(0x0B));
                ensures!("C14.log.token", x.log_change_token == i.u32(0x0C));
                ensures!("C14.log.header_format", x.log_header_format == i.o8(0x14).map(LogHeaderFormat::from));
                ensures!("C14.log.descriptors", x.supported_event_log_type_descriptors.is_some() == (listed && i.has(0x17, size)));
                if let Some(mut l) = x.supported_event_log_type_descriptors {
                    if i.u8(0x16) == 2 {
                        ensures!("C14.log.first_descriptor", match l.next() {
                            Some(d) => i.u8(0x15) > 0 && d == EventLogTypeDescriptor::from([i.u8(0x17), i.u8(0x18)]),
                            None => i.u8(0x15) == 0,
                        });
                    }
                }
            }
            Err(e) => {
                reachable!("log length", !length_ok);
                ensures!("C14.log.error", if !length_ok { i.bad_length(&e) } else { i.len < 0x14 && matches!(e, Er::InvalidSlice(_)) });
            }
        }
    }

    /// GroupAssociations::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c14_group_associations() {
        let i = In::any(InfoType::GroupAssociations);
        match hooks::group_associations(i.raw()) {
            Ok(mut x) => {
                reachable!("group ok", i.len > 0x0B);
                ensures!("C14.group.length_accepted", i.len >= 0x05);
                ensures!("C14.group.handle", x.handle == i.h);
                ensures!("C14.group.name", i.s(x.group_name, 0x04));
                ensures!("C14.group.first_item", match x.items.next() {
                    Some(g) => i.has(0x05, 3) && g.type_ == i.u8(0x05) && g.handle == i.u16(0x06),
                    None => !i.has(0x05, 3),
                });
                ensures!("C14.group.second_item", match x.items.next() {
                    Some(g) => i.has(0x08, 3) && g.type_ == i.u8(0x08) && g.handle == i.u16(0x09),
                    None => !i.has(0x08, 3),
                });
            }
            Err(e) => {
                reachable!("group short", i.len < 5);
                reachable!("group string", i.len >= 5);
                ensures!("C14.group.error", if i.len < 0x05 { i.bad_length(&e) || matches!(e, Er::InvalidSlice(_)) }
                    else { !i.strings_ok([0x04]) && i.bad_string(&e, [0x04]) });
            }
        }
    }

    /// SystemConfigurationOptions::try_from against the contract of StructureStrings::next: every
    /// stated count, up to 300 strings
    #[unwind(302)]
    #[stub(<dmidecode::StructureStrings as core::iter::Iterator>::next, crate::c14::strings_next_contract)]
    fn c14_options_count() {
        let i = In::any(InfoType::SystemConfigurationOptions);
        let n: usize = crate::rt::any();
        requires!(n <= 300);
        #[cfg(kani)]
        unsafe {
            GHOST_STRINGS = n;
        }
        match hooks::system_configuration_options(i.raw()) {
            Ok(x) => {
                reachable!("many", n == 255);
                ensures!("C14.options.count", i.has(4, 1) && i.u8(4) as usize == n);
                ensures!("C14.options.handle", x.handle == i.h);
            }
            Err(e) => {
                reachable!("too many", n == 256);
                ensures!("C14.options.error", if i.has(4, 1) {
                    i.u8(4) as usize != n && matches!(e, Er::InvalidStringIndex(k, h, c) if k == i.info && h == i.h && c == i.u8(4))
                } else {
                    true
                });
            }
        }
    }

    /// SystemConfigurationOptions::try_from: bounded, strings sections of 6 bytes
    #[unwind(9)]
    #[stub(core::str::from_utf8, crate::c07::from_utf8_contract)]
    fn c14_configuration_options() {
        let b = crate::c07::any_section::<6>();
        let mut i = In::any(InfoType::SystemConfigurationOptions);
        i.strings = b;
        // the strings that the iterator over them yields
        let mut n = 0;
        while n < 4 {
            match crate::c07::nth(b, n + 1) {
                Some(at) if crate::c07::utf8(&b[at.0..at.0 + at.1]) => n += 1,
                _ => break,
            }
        }
        match hooks::system_configuration_options(i.raw()) {
            Ok(x) => {
                reachable!("two", n == 2);
                ensures!("C14.options.count", i.has(4, 1) && i.u8(4) as usize == n);
                ensures!("C14.options.handle", x.handle == i.h);
                let mut strings = x.strings;
                let first = strings.next();
                ensures!("C14.options.strings", match (first, crate::c07::nth(b, 1)) {
                    (Some(s), Some(at)) => crate::c07::is(s, b, at),
                    (None, _) => n == 0,
                    _ => false,
                });
            }
            Err(e) => {
                reachable!("contradiction", i.has(4, 1));
                ensures!("C14.options.error", if i.has(4, 1) {
                    i.u8(4) as usize != n && matches!(e, Er::InvalidStringIndex(k, h, c) if k == i.info && h == i.h && c == i.u8(4))
                } else {
                    matches!(e, Er::InvalidSlice(_))
                });
            }
        }
    }
}

native! {
    /// Up to 600 strings, and a count that agrees with them in its low eight bits
    fn c14_options_large() {
        let n = match crate::rt::any::<u8>() {
            0..=99 => crate::rt::any::<u8>() as usize % 4,
            100..=149 => 250 + crate::rt::any::<u8>() as usize % 12,
            150..=179 => 256 + crate::rt::any::<u8>() as usize % 4,
            180..=200 => 512,
            _ => crate::rt::any::<u16>() as usize % 600,
        };
        let mut b = Vec::new();
        for _ in 0..n {
            b.extend_from_slice(&[b'o', 0]);
        }
        if n == 0 { b.push(0) }
        b.push(0);
        let count = match crate::rt::any::<u8>() {
            0..=199 => n as u8,
            200..=209 => n.min(255) as u8,
            _ => crate::rt::any::<u8>(),
        };
        let mut i = In::any_with(InfoType::SystemConfigurationOptions, crate::rt::object(vec![count]));
        i.strings = crate::rt::object(b);
        match hooks::system_configuration_options(i.raw()) {
            Ok(x) => {
                ensures!("C14.options.count", count as usize == n);
                ensures!("C14.options.strings", x.strings.count() == n);
            }
            Err(e) => {
                ensures!("C14.options.error", count as usize != n
                    && matches!(e, Er::InvalidStringIndex(k, h, c) if k == i.info && h == i.h && c == count));
            }
        }
    }
}
