//! C09: BIOS, System and BIOS Language decode by declared version.
use crate::common::*;
use crate::*;
use dmidecode::bios::*;
use dmidecode::bitfield::BitField;
use dmidecode::system::WakeupType;
use crate::hooks;
use dmidecode::*;

contracts! {
    /// Bios::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c09_bios() {
        let i = In::any(InfoType::Bios);
        let min = if i.v >= (3, 1) { 0x1A } else if i.v >= (2, 4) { 0x18 } else { 0x12 };
        let strings = [0x04, 0x05, 0x08];
        match hooks::bios(i.raw()) {
            Ok(x) => {
                reachable!("bios 2.0", i.v == (2, 0));
                reachable!("bios 2.2", i.v == (2, 2));
                reachable!("bios 2.4", i.v == (2, 4));
                reachable!("bios 3.1", i.v == (3, 1));
                ensures!("C09.bios.length_accepted", i.len >= min);
                ensures!("C09.bios.handle", x.handle == i.h);
                ensures!("C09.bios.vendor", i.s(x.vendor, 0x04));
                ensures!("C09.bios.version", i.s(x.bios_version, 0x05));
                ensures!("C09.bios.segment", x.bios_starting_address_segment == i.u16(0x06));
                ensures!("C09.bios.release_date", i.s(x.bios_release_date, 0x08));
                ensures!("C09.bios.rom_size", x.rom_size.basic == i.u8(0x09));
                ensures!("C09.bios.characteristics", x.bios_characteristics.value() == i.u64(0x0A));
                ensures!("C09.bios.ext1", x.bios_characteristics_exttension_1.map(|e| e.value())
                    == if i.v >= (2, 1) { i.o8(0x12) } else { None });
                ensures!("C09.bios.ext2", x.bios_characteristics_exttension_2.map(|e| e.value())
                    == if i.v >= (2, 4) { Some(i.u8(0x13)) } else { None });
                ensures!("C09.bios.bios_revision", x.bios_revision
                    == if i.v >= (2, 4) { Some(BiosRevision { major: i.u8(0x14), minor: i.u8(0x15) }) } else { None });
                ensures!("C09.bios.firmware_revision", x.firmware_revision
                    == if i.v >= (2, 4) { Some(FirmwareRevision { major: i.u8(0x16), minor: i.u8(0x17) }) } else { None });
                ensures!("C09.bios.extended_rom_size", x.rom_size.extended
                    == if i.v >= (3, 1) { Some(i.u16(0x18)) } else { None });
            }
            Err(e) => {
                reachable!("bios short", i.len < min);
                reachable!("bios string", i.len >= min);
                ensures!("C09.bios.error", if i.len < min { i.bad_length(&e) } else {
                    !i.strings_ok(strings) && i.bad_string(&e, strings) });
            }
        }
    }

    /// System::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c09_system() {
        let i = In::any(InfoType::System);
        let min = if i.v >= (2, 4) { 0x1B } else if i.v >= (2, 1) { 0x19 } else { 0x08 };
        let base = i.strings_ok([0x04, 0x05, 0x06, 0x07]);
        let late = i.v >= (2, 4);
        match hooks::system(i.raw()) {
            Ok(x) => {
                reachable!("system 2.0", i.v == (2, 0));
                reachable!("system 2.1", i.v == (2, 1));
                reachable!("system 2.4", i.v == (2, 4));
                reachable!("system 2.6", i.v == (2, 6));
                ensures!("C09.system.length_accepted", i.len >= min);
                ensures!("C09.system.handle", x.handle == i.h);
                ensures!("C09.system.manufacturer", i.s(x.manufacturer, 0x04));
                ensures!("C09.system.product", i.s(x.product, 0x05));
                ensures!("C09.system.version", i.s(x.version, 0x06));
                ensures!("C09.system.serial", i.s(x.serial, 0x07));
                if i.v >= (2, 1) {
                    let le = i.v >= (2, 6);
                    let b = |k: usize| i.u8(0x08 + k);
                    match x.uuid {
                        None => ensures!("C09.system.uuid_present", false),
                        Some(u) => {
                            let u = u.as_bytes();
                            ensures!("C09.system.uuid_field1", if le {
                                u[0] == b(3) && u[1] == b(2) && u[2] == b(1) && u[3] == b(0)
                            } else {
                                u[0] == b(0) && u[1] == b(1) && u[2] == b(2) && u[3] == b(3)
                            });
                            ensures!("C09.system.uuid_field2", if le { u[4] == b(5) && u[5] == b(4) } else { u[4] == b(4) && u[5] == b(5) });
                            ensures!("C09.system.uuid_field3", if le { u[6] == b(7) && u[7] == b(6) } else { u[6] == b(6) && u[7] == b(7) });
                            ensures!("C09.system.uuid_rest", u[8] == b(8) && u[9] == b(9) && u[10] == b(10) && u[11] == b(11)
                                && u[12] == b(12) && u[13] == b(13) && u[14] == b(14) && u[15] == b(15));
                        }
                    }
                    ensures!("C09.system.wakeup", x.wakeup == Some(WakeupType::from(i.u8(0x18))));
                } else {
                    ensures!("C09.system.uuid_absent", x.uuid.is_none() && x.wakeup.is_none());
                }
                ensures!("C09.system.sku", if late { i.os(x.sku, 0x19) } else { x.sku.is_none() });
                ensures!("C09.system.family", if late { i.os(x.family, 0x1A) } else { x.family.is_none() });
            }
            Err(e) => {
                reachable!("system short", i.len < min);
                reachable!("system string", i.len >= min);
                ensures!("C09.system.error", if i.len < min { i.bad_length(&e) } else if late {
                    !(base && i.strings_ok([0x19, 0x1A])) && i.bad_string(&e, [0x04, 0x05, 0x06, 0x07, 0x19, 0x1A])
                } else {
                    !base && i.bad_string(&e, [0x04, 0x05, 0x06, 0x07])
                });
            }
        }
    }

    /// BiosLanguage::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c09_bios_language() {
        let i = In::any(InfoType::BiosLanguage);
        let new = i.v >= (2, 1);
        let min = if new { 0x16 } else { 0x15 };
        match hooks::bios_language(i.raw()) {
            Ok(mut x) => {
                reachable!("language 2.0", !new);
                reachable!("language 2.1", new);
                ensures!("C09.bios_language.length_accepted", i.len >= min);
                ensures!("C09.bios_language.handle", x.handle == i.h);
                ensures!("C09.bios_language.flags", x.flags.map(|f| f.value()) == if new { Some(i.u8(0x05)) } else { None });
                ensures!("C09.bios_language.current", x.current_language == i.u8(min - 1));
                // The languages are the structure's strings from number 1 on (C19)
                let first = x.installable_languages.next();
                ensures!("C09.bios_language.first", match first { Some(s) => i.is(s, 1), None => i.nstr == 0 });
            }
            Err(e) => {
                reachable!("language short", i.len < min);
                ensures!("C09.bios_language.error", i.len < min && i.bad_length(&e));
            }
        }
    }
}
