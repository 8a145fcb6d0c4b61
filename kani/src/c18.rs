//! C18: derived quantities are exact and total.
use crate::rt::*;
#[cfg(dmi_verif_nohooks)]
use crate::hooks::*;
use crate::*;
use dmidecode::bios::RomSize;
use dmidecode::cache::*;
use dmidecode::portable_battery::DesignCapacity;
use dmidecode::processor::Voltage;
use dmidecode::system_slots::SlotPitch;

contracts! {
    /// CacheSize
    fn c18_cache_size() {
        let w: u16 = any();
        let unit: u64 = if w >= 0x8000 { 0x10000 } else { 0x400 };
        let s = CacheSize::from(w);
        ensures!("C18.cache_size.bytes", s.bytes() == (w & 0x7FFF) as u64 * unit);
        ensures!("C18.cache_size.value", match s {
            CacheSize::Granularity1K(v) => w < 0x8000 && v == w,
            CacheSize::Granularity64K(v) => w >= 0x8000 && v == w - 0x8000,
        });
        // any value of the public type
        let v: u16 = any();
        ensures!("C18.cache_size.any", CacheSize::Granularity1K(v).bytes() == v as u64 * 0x400
            && CacheSize::Granularity64K(v).bytes() == v as u64 * 0x10000);
    }
    /// CacheSize2
    fn c18_cache_size_2() {
        let w: u32 = any();
        let unit: u64 = if w >= 0x8000_0000 { 0x10000 } else { 0x400 };
        let s = CacheSize2::from(w);
        ensures!("C18.cache_size_2.bytes", s.bytes() == (w & 0x7FFF_FFFF) as u64 * unit);
        ensures!("C18.cache_size_2.value", match s {
            CacheSize2::Granularity1K(v) => w < 0x8000_0000 && v == w,
            CacheSize2::Granularity64K(v) => w >= 0x8000_0000 && v == w - 0x8000_0000,
        });
        let v: u32 = any();
        ensures!("C18.cache_size_2.any", CacheSize2::Granularity1K(v).bytes() == v as u64 * 0x400
            && CacheSize2::Granularity64K(v).bytes() == v as u64 * 0x10000);
    }
    /// CacheConfiguration
    fn c18_cache_configuration() {
        let w: u16 = any();
        let (level, socketed, location, enabled, mode) = CacheConfiguration::from(w).verif_parts();
        let levels = [CacheLevel::L1, CacheLevel::L2, CacheLevel::L3, CacheLevel::L4, CacheLevel::L5, CacheLevel::L6,
            CacheLevel::L7, CacheLevel::L8];
        let locations = [CacheLocation::Internal, CacheLocation::External, CacheLocation::Reserved, CacheLocation::Unknown];
        let modes = [CacheOperationalMode::WriteThrough, CacheOperationalMode::WriteBack,
            CacheOperationalMode::ValuesWithMemoryAddress, CacheOperationalMode::Unknown];
        ensures!("C18.cache_configuration.level", level == levels[(w & 7) as usize]);
        ensures!("C18.cache_configuration.socketed", socketed == (w & 8 != 0));
        ensures!("C18.cache_configuration.location", location == locations[(w >> 5 & 3) as usize]);
        ensures!("C18.cache_configuration.enabled", enabled == (w & 0x80 != 0));
        ensures!("C18.cache_configuration.mode", mode == modes[(w >> 8 & 3) as usize]);
    }
    /// RomSize
    fn c18_rom_size() {
        let basic: u8 = any();
        let e: u16 = any();
        let given: bool = any();
        let extended = if given { Some(e) } else { None };
        let expected: u64 = if basic != 0xFF {
            (basic as u64 + 1) * 0x10000
        } else if given && e >> 14 == 0 {
            (e & 0x3FFF) as u64 * 0x10_0000
        } else if given && e >> 14 == 1 {
            (e & 0x3FFF) as u64 * 0x4000_0000
        } else {
            0x100_0000
        };
        ensures!("C18.rom_size", u64::from(RomSize { basic, extended }) == expected);
    }
    /// DesignCapacity
    fn c18_design_capacity() {
        let value: u16 = any();
        let multiplier: u8 = any();
        ensures!("C18.design_capacity.unknown", u64::from(DesignCapacity::Unknown) == 0);
        ensures!("C18.design_capacity.product", u64::from(DesignCapacity::Data { value, multiplier }) == value as u64 * multiplier as u64);
    }
    /// Voltage
    fn c18_voltage() {
        let b: u8 = any();
        ensures!("C18.voltage", match Voltage::from(b) {
            Voltage::Current(v) => b >= 0x80 && v == b - 0x80,
            Voltage::Legacy(l) => b < 8 && l.bits() == b,
            Voltage::Undefined(v) => b >= 8 && b < 0x80 && v == b,
        });
    }
    /// SlotPitch
    fn c18_slot_pitch() {
        let w: u16 = any();
        ensures!("C18.slot_pitch", SlotPitch::from(w).verif_value() == w);
    }
}
