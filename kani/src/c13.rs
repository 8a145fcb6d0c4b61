//! C13: Memory structures (types 16 to 20) decode exactly.
use crate::common::*;
use crate::*;
use crate::hooks;
use dmidecode::*;

contracts! {
    /// PhysicalMemoryArray::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c13_physical_memory_array() {
        use dmidecode::physical_memory_array::*;
        let i = In::any(InfoType::PhysicalMemoryArray);
        let v = i.v;
        let capacity = if i.u32(0x07) == 0x8000_0000 { None } else { Some(i.u32(0x07)) };
        // The extended capacity is needed only when the basic one refers to it
        let needs_extended = v >= (2, 7) && capacity.is_none();
        match hooks::physical_memory_array(i.raw()) {
            Ok(x) => {
                reachable!("array 2.0", v == (2, 0));
                reachable!("array 2.1", v == (2, 1));
                reachable!("array 2.7", v == (2, 7) && capacity.is_none());
                ensures!("C13.array.handle", x.handle == i.h);
                if v >= (2, 1) {
                    ensures!("C13.array.length_accepted", i.len >= 0x0F && (!needs_extended || i.len >= 0x17));
                    ensures!("C13.array.location", x.location == MemoryArrayLocation::from(i.u8(0x04)));
                    ensures!("C13.array.use", x.r#use == MemoryArrayUse::from(i.u8(0x05)));
                    ensures!("C13.array.ecc", x.memory_error_correction == MemoryArrayErrorCorrectionTypes::from(i.u8(0x06)));
                    ensures!("C13.array.maximum_capacity", x.maximum_capacity == capacity);
                    ensures!("C13.array.error_handle", x.memory_error_information_handle
                        == if i.u16(0x0B) == 0xFFFE { None } else { Some(i.u16(0x0B)) });
                    ensures!("C13.array.devices", x.number_of_memory_devices == i.u16(0x0D));
                    ensures!("C13.array.extended", x.extended_maximum_capacity
                        == if needs_extended && i.u64(0x0F) != 0 { Some(i.u64(0x0F)) } else { None });
                } else {
                    ensures!("C13.array.absent", x.maximum_capacity.is_none() && x.memory_error_information_handle.is_none()
                        && x.extended_maximum_capacity.is_none());
                }
            }
            Err(_) => {
                reachable!("array short", i.len < 0x0F);
                reachable!("array short extended", i.len >= 0x0F);
                ensures!("C13.array.error", v >= (2, 1) && (i.len < 0x0F || needs_extended && i.len < 0x17));
            }
        }
    }

    /// MemoryDevice::try_from
    #[unwind(17)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c13_memory_device() {
        use dmidecode::memory_device::*;
        let i = In::any(InfoType::MemoryDevice);
        let strings = [0x10, 0x11, 0x17, 0x18, 0x19, 0x1A];
        let filter = |o: usize, unknown: u16| match i.o16(o) { Some(w) if w == unknown => None, w => w };
        match hooks::memory_device(i.raw()) {
            Ok(x) => {
                reachable!("device 20h", i.len == 0x20);
                reachable!("device 5Ch", i.len == 0x5C);
                reachable!("device 25h", i.len == 0x25);
                ensures!("C13.device.length_accepted", i.len >= 0x20);
                ensures!("C13.device.handle", x.handle == i.h);
                ensures!("C13.device.array_handle", x.physical_memory_handle == i.u16(0x04));
                ensures!("C13.device.error_handle", x.memory_error_handle == filter(0x06, 0xFFFE));
                ensures!("C13.device.total_width", x.total_width == filter(0x08, 0xFFFF));
                ensures!("C13.device.data_width", x.data_width == filter(0x0A, 0xFFFF));
                ensures!("C13.device.size", x.size == filter(0x0C, 0xFFFF));
                ensures!("C13.device.form_factor", x.form_factor == FormFactor::from(i.u8(0x0E)));
                ensures!("C13.device.set", x.device_set == Some(i.u8(0x0F)));
                ensures!("C13.device.locator", i.s(x.device_locator, 0x10));
                ensures!("C13.device.bank", i.s(x.bank_locator, 0x11));
                ensures!("C13.device.type", x.memory_type == Type::from(i.u8(0x12)));
                ensures!("C13.device.detail", x.type_detail.bits() == i.u16(0x13) & Detail::all().bits());
                ensures!("C13.device.speed", x.speed == filter(0x15, 0));
                ensures!("C13.device.manufacturer", i.s(x.manufacturer, 0x17));
                ensures!("C13.device.serial", i.s(x.serial, 0x18));
                ensures!("C13.device.asset", i.s(x.asset_tag, 0x19));
                ensures!("C13.device.part", i.s(x.part_number, 0x1A));
                ensures!("C13.device.attributes", x.attributes == i.u8(0x1B));
                ensures!("C13.device.extended_size", x.extended_size == i.u32(0x1C));
                ensures!("C13.device.configured_speed", x.configured_memory_speed == filter(0x20, 0));
                ensures!("C13.device.minimum_voltage", x.minimum_voltage == filter(0x22, 0));
                ensures!("C13.device.maximum_voltage", x.maximum_voltage == filter(0x24, 0));
                ensures!("C13.device.configured_voltage", x.configured_voltage == filter(0x26, 0));
                ensures!("C13.device.technology", x.memory_technology == i.o8(0x28).map(MemoryTechnology::from));
                ensures!("C13.device.modes", x.operating_mode_capability.map(|m| m.bits())
                    == i.o16(0x29).map(|w| w & OperatingModes::all().bits()));
                ensures!("C13.device.firmware", if i.has(0x2B, 1) && i.sok(i.u8(0x2B)) { i.os(x.firmware_version, 0x2B) }
                    else { x.firmware_version.is_none() });
                ensures!("C13.device.module_manufacturer", x.module_manufacturer == i.o16(0x2C));
                ensures!("C13.device.module_product", x.module_product_id == i.o16(0x2E));
                ensures!("C13.device.controller_manufacturer", x.memory_subsystem_controller_manufacturer_id == i.o16(0x30));
                ensures!("C13.device.controller_product", x.memory_subsystem_controller_product_id == i.o16(0x32));
                ensures!("C13.device.non_volatile", x.non_volatile_size == i.o64(0x34));
                ensures!("C13.device.volatile", x.volatile_size == i.o64(0x3C));
                ensures!("C13.device.cache", x.cache_size == i.o64(0x44));
                ensures!("C13.device.logical", x.logical_size == i.o64(0x4C));
                ensures!("C13.device.extended_speed", x.extended_speed == i.o32(0x54));
                ensures!("C13.device.extended_configured_speed", x.extended_configured_memory_speed == i.o32(0x58));
            }
            Err(e) => {
                reachable!("device short", i.len < 0x15);
                reachable!("device string", i.len >= 0x20);
                ensures!("C13.device.error", if i.len < 0x15 { i.bad_length(&e) }
                    else if i.len < 0x20 { matches!(e, Er::InvalidSlice(_)) || i.bad_string(&e, strings) }
                    else { !i.strings_ok(strings) && i.bad_string(&e, strings) });
            }
        }
    }

    /// Bits of the memory device's flag words (SMBIOS 7.18.3 and 7.18.7)
    fn c13_memory_device_flags() {
        use dmidecode::memory_device::*;
        let w: u16 = crate::rt::any();
        ensures!("C13.device.detail_bits", Detail::from_bits_truncate(w).bits() == w & 0xFFFE);
        ensures!("C13.device.mode_bits", OperatingModes::from_bits_truncate(w).bits() == w & OPERATING_MODES);
    }

    /// MemoryError32::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c13_memory_error_32() {
        use dmidecode::memory_error_32::*;
        let i = In::any(InfoType::MemoryError32);
        let length_ok = i.v < (2, 1) || i.len == 0x17;
        match hooks::memory_error_32(i.raw()) {
            Ok(x) => {
                reachable!("error32 2.1", i.v == (2, 1));
                ensures!("C13.error32.length_accepted", length_ok && i.len >= 0x17);
                ensures!("C13.error32.handle", x.handle == i.h);
                ensures!("C13.error32.type", x.error_type == ErrorType::from(i.u8(0x04)));
                ensures!("C13.error32.granularity", x.error_granularity == ErrorGranularity::from(i.u8(0x05)));
                ensures!("C13.error32.operation", x.error_operation == ErrorOperation::from(i.u8(0x06)));
                ensures!("C13.error32.syndrome", x.vendor_syndrome == i.u32(0x07));
                ensures!("C13.error32.array_address", x.memory_array_error_address == i.u32(0x0B));
                ensures!("C13.error32.device_address", x.device_error_address == i.u32(0x0F));
                ensures!("C13.error32.resolution", x.error_resolution == i.u32(0x13));
            }
            Err(e) => {
                reachable!("error32 length", true);
                ensures!("C13.error32.error", if !length_ok { i.bad_length(&e) } else { i.len < 0x17 });
            }
        }
    }

    /// MemoryArrayMappedAddress::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c13_memory_array_mapped_address() {
        let i = In::any(InfoType::MemoryArrayMappedAddress);
        let length_ok = if i.v < (2, 1) { true } else if i.v < (2, 7) { i.len == 0x0F } else { i.len == 0x1F };
        match hooks::memory_array_mapped_address(i.raw()) {
            Ok(x) => {
                reachable!("array mapped 2.1", i.v == (2, 1));
                reachable!("array mapped 2.7", i.v == (2, 7));
                ensures!("C13.array_mapped.length_accepted", length_ok && i.len >= 0x0F);
                ensures!("C13.array_mapped.handle", x.handle == i.h);
                ensures!("C13.array_mapped.start", x.starting_address == i.u32(0x04));
                ensures!("C13.array_mapped.end", x.ending_address == i.u32(0x08));
                ensures!("C13.array_mapped.array", x.memory_array_handle == i.u16(0x0C));
                ensures!("C13.array_mapped.width", x.partition_width == i.u8(0x0E));
                ensures!("C13.array_mapped.extended_start", x.extended_starting_address == i.o64(0x0F));
                ensures!("C13.array_mapped.extended_end", x.extended_ending_address == i.o64(0x17));
            }
            Err(e) => {
                reachable!("array mapped length", true);
                ensures!("C13.array_mapped.error", if !length_ok { i.bad_length(&e) } else { i.len < 0x0F });
            }
        }
    }

    /// MemoryDeviceMappedAddress::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c13_memory_device_mapped_address() {
        let i = In::any(InfoType::MemoryDeviceMappedAddress);
        let length_ok = if i.v < (2, 1) { true } else if i.v < (2, 7) { i.len == 0x13 } else { i.len == 0x23 };
        match hooks::memory_device_mapped_address(i.raw()) {
            Ok(x) => {
                reachable!("device mapped 2.1", i.v == (2, 1));
                reachable!("device mapped 2.7", i.v == (2, 7));
                ensures!("C13.device_mapped.length_accepted", length_ok && i.len >= 0x13);
                ensures!("C13.device_mapped.handle", x.handle == i.h);
                ensures!("C13.device_mapped.start", x.starting_address == i.u32(0x04));
                ensures!("C13.device_mapped.end", x.ending_address == i.u32(0x08));
                ensures!("C13.device_mapped.device", x.memory_device_handle == i.u16(0x0C));
                ensures!("C13.device_mapped.array_mapped", x.memory_array_mapped_address_handle == i.u16(0x0E));
                ensures!("C13.device_mapped.row", x.partition_row_position == i.u8(0x10));
                ensures!("C13.device_mapped.interleave", x.interleave_position == i.u8(0x11));
                ensures!("C13.device_mapped.depth", x.interleaved_data_depth == i.u8(0x12));
                ensures!("C13.device_mapped.extended_start", x.extended_starting_address == i.o64(0x13));
                ensures!("C13.device_mapped.extended_end", x.extended_ending_address == i.o64(0x1B));
            }
            Err(e) => {
                reachable!("device mapped length", true);
                ensures!("C13.device_mapped.error", if !length_ok { i.bad_length(&e) } else { i.len < 0x13 });
            }
        }
    }
}

/// Bits the operating mode flags define
const OPERATING_MODES: u16 = 0b11_1110;
