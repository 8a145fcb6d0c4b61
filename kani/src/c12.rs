//! C12: System Slots decode by version and length, with variable peer groups.
use crate::common::*;
use crate::*;
use dmidecode::bitfield::BitField;
use dmidecode::system_slots::*;
use crate::hooks;
#[cfg(dmi_verif_nohooks)]
use crate::hooks::*;
use dmidecode::*;

contracts! {
    /// SystemSlots::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c12_system_slots() {
        let i = In::any(InfoType::SystemSlots);
        let v = i.v;
        let length_ok = if v < (2, 0) { true } else if v < (2, 1) { i.len == 0x0C } else if v < (2, 6) { i.len == 0x0D }
            else if v < (3, 2) { i.len == 0x11 } else { i.len >= 0x11 };
        let n = if i.has(0x12, 1) { i.u8(0x12) as usize } else { 0 };
        match hooks::system_slots(i.raw()) {
            Ok(x) => {
                reachable!("slots 2.0", v == (2, 0));
                reachable!("slots 2.1", v == (2, 1));
                reachable!("slots 2.6", v == (2, 6));
                reachable!("slots 3.2 peers", v == (3, 2) && n > 2 && i.has(0x13, 5 * n));
                ensures!("C12.slots.length_accepted", length_ok && i.len >= 0x0C);
                ensures!("C12.slots.handle", x.handle == i.h);
                ensures!("C12.slots.designation", i.s(x.slot_designation, 0x04));
                ensures!("C12.slots.type", x.slot_type == SlotType::from(i.u8(0x05)));
                ensures!("C12.slots.data_bus_width", x.slot_data_bus_width == SlotWidth::from(i.u8(0x06)));
                ensures!("C12.slots.usage", x.current_usage == CurrentUsage::from(i.u8(0x07)));
                ensures!("C12.slots.length", x.slot_length == SlotLength::from(i.u8(0x08)));
                ensures!("C12.slots.id", x.slot_id == i.u16(0x09));
                ensures!("C12.slots.characteristics_1", x.slot_characteristics_1.value() == i.u8(0x0B));
                ensures!("C12.slots.characteristics_2", x.slot_characteristics_2.map(|c| c.value()) == i.o8(0x0C));
                ensures!("C12.slots.segment", x.segment_group_number == match i.o16(0x0D) { Some(0xFFFF) => None, s => s });
                ensures!("C12.slots.bus", x.bus_number == match i.o8(0x0F) { Some(0xFF) => None, s => s });
                ensures!("C12.slots.device_function", x.device_and_function_number.map(u8::from)
                    == match i.o8(0x10) { Some(0xFF) => None, s => s });
                ensures!("C12.slots.base_width", x.data_bus_width == i.o8(0x11));
                ensures!("C12.slots.peers", x.peer_devices.is_some() == i.has(0x13, 5 * n));
                if let Some(mut p) = x.peer_devices {
                    // Exactly n groups: the first and, when n is 1, no second (C19 covers the iterator)
                    let first = p.next();
                    ensures!("C12.slots.peers_first", match first { Some(d) => n > 0 && d.segment_group_number == i.u16(0x13)
                        && d.bus_number == i.u8(0x15) && u8::from(d.device_and_function_number) == i.u8(0x16)
                        && d.data_bus_width == i.u8(0x17), None => n == 0 });
                    ensures!("C12.slots.peers_second", match p.next() { Some(d) => n > 1 && d.segment_group_number == i.u16(0x18)
                        && d.data_bus_width == i.u8(0x1C), None => n < 2 });
                }
                ensures!("C12.slots.information", x.slot_information == i.o8(0x14 + 5 * n));
                ensures!("C12.slots.physical_width", x.slot_physical_width == i.o8(0x15 + 5 * n).map(SlotWidth::from));
                ensures!("C12.slots.pitch", x.slot_pitch.map(|p| p.verif_value()) == i.o16(0x16 + 5 * n));
            }
            Err(e) => {
                reachable!("slots length", !length_ok);
                reachable!("slots string", length_ok && v > (2, 0));
                ensures!("C12.slots.error", if !length_ok { i.bad_length(&e) } else if i.len < 0x0C {
                    matches!(e, Er::InvalidSlice(_)) || i.bad_string(&e, [0x04])
                } else {
                    !i.strings_ok([0x04]) && i.bad_string(&e, [0x04])
                });
            }
        }
    }
}
