//! C10: Processor and Cache decode by declared version.
use crate::common::*;
use crate::*;
use dmidecode::cache::*;
use dmidecode::processor::*;
use crate::hooks;
use dmidecode::*;

contracts! {
    /// Processor::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c10_processor() {
        let i = In::any(InfoType::Processor);
        let v = i.v;
        let min = if v >= (3, 0) { 0x30 } else if v >= (2, 6) { 0x2A } else if v >= (2, 5) { 0x28 }
            else if v >= (2, 3) { 0x23 } else if v >= (2, 1) { 0x20 } else { 0x1A };
        let late = v >= (2, 3);
        let all = i.strings_ok([0x04, 0x07, 0x10]) && (!late || i.strings_ok([0x20, 0x21, 0x22]));
        let count = |o: usize, o2: usize| {
            if v < (2, 5) { None }
            else if v >= (3, 0) && i.u8(o) == 0xFF { Some(i.u16(o2)) }
            else { Some(i.u8(o) as u16) }
        };
        match hooks::processor(i.raw()) {
            Ok(x) => {
                reachable!("processor 2.0", v == (2, 0));
                reachable!("processor 2.1", v == (2, 1));
                reachable!("processor 2.3", v == (2, 3));
                reachable!("processor 2.5", v == (2, 5));
                reachable!("processor 2.6", v == (2, 6) && i.u8(0x06) == 0xFE);
                reachable!("processor 3.0", v == (3, 0) && i.u8(0x23) == 0xFF);
                ensures!("C10.processor.length_accepted", i.len >= min);
                ensures!("C10.processor.handle", x.handle == i.h);
                ensures!("C10.processor.socket", i.s(x.socket_designation, 0x04));
                ensures!("C10.processor.type", x.processor_type == ProcessorType::from(i.u8(0x05)));
                let family = if v >= (2, 6) && i.u8(0x06) == 0xFE { i.u16(0x28) } else { i.u8(0x06) as u16 };
                ensures!("C10.processor.family", x.processor_family == ProcessorFamily::from(family));
                ensures!("C10.processor.manufacturer", i.s(x.processor_manufacturer, 0x07));
                ensures!("C10.processor.id", x.processor_id == i.u64(0x08));
                ensures!("C10.processor.version", i.s(x.processor_version, 0x10));
                ensures!("C10.processor.voltage", x.voltage == Voltage::from(i.u8(0x11)));
                ensures!("C10.processor.external_clock", x.external_clock == i.u16(0x12));
                ensures!("C10.processor.max_speed", x.max_speed == i.u16(0x14));
                ensures!("C10.processor.current_speed", x.current_speed == i.u16(0x16));
                ensures!("C10.processor.status", x.status.bits() == i.u8(0x18) & 0b0100_0111);
                ensures!("C10.processor.upgrade", x.processor_upgrade == ProcessorUpgrade::from(i.u8(0x19)));
                let h = |o| if v >= (2, 1) { Some(i.u16(o)) } else { None };
                ensures!("C10.processor.l1", x.l1_cache_handle == h(0x1A));
                ensures!("C10.processor.l2", x.l2_cache_handle == h(0x1C));
                ensures!("C10.processor.l3", x.l3_cache_handle == h(0x1E));
                ensures!("C10.processor.serial", if late { i.os(x.serial_number, 0x20) } else { x.serial_number.is_none() });
                ensures!("C10.processor.asset", if late { i.os(x.asset_tag, 0x21) } else { x.asset_tag.is_none() });
                ensures!("C10.processor.part", if late { i.os(x.part_number, 0x22) } else { x.part_number.is_none() });
                ensures!("C10.processor.core_count", x.core_count == count(0x23, 0x2A));
                ensures!("C10.processor.core_enabled", x.core_enabled == count(0x24, 0x2C));
                ensures!("C10.processor.thread_count", x.thread_count == count(0x25, 0x2E));
                ensures!("C10.processor.characteristics", x.processor_characteristics.map(|c| c.bits())
                    == if v >= (2, 5) { Some(i.u16(0x26) & 0x02FF) } else { None });
            }
            Err(e) => {
                reachable!("processor short", i.len < min);
                reachable!("processor string", i.len >= min);
                ensures!("C10.processor.error", if i.len < min { i.bad_length(&e) } else if late {
                    !all && i.bad_string(&e, [0x04, 0x07, 0x10, 0x20, 0x21, 0x22])
                } else {
                    !all && i.bad_string(&e, [0x04, 0x07, 0x10])
                });
            }
        }
    }

    /// Cache::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c10_cache() {
        let i = In::any(InfoType::Cache);
        let v = i.v;
        let min = if v >= (3, 1) { 0x1B } else if v >= (2, 1) { 0x13 } else { 0x0F };
        match hooks::cache(i.raw()) {
            Ok(x) => {
                reachable!("cache 2.0", v == (2, 0));
                reachable!("cache 2.1", v == (2, 1));
                reachable!("cache 3.1", v == (3, 1));
                ensures!("C10.cache.length_accepted", i.len >= min);
                ensures!("C10.cache.handle", x.handle == i.h);
                ensures!("C10.cache.socket", i.s(x.socket_designation, 0x04));
                ensures!("C10.cache.configuration", x.cache_configuration == CacheConfiguration::from(i.u16(0x05)));
                ensures!("C10.cache.maximum_size", x.maximum_cache_size == CacheSize::from(i.u16(0x07)));
                ensures!("C10.cache.installed_size", x.installed_size == CacheSize::from(i.u16(0x09)));
                ensures!("C10.cache.supported_sram", x.supported_sram_type.bits() == i.u16(0x0B) & 0x7F);
                ensures!("C10.cache.current_sram", x.current_sram_type.bits() == i.u16(0x0D) & 0x7F);
                let new = v >= (2, 1);
                let b = |o| if new { Some(i.u8(o)) } else { None };
                ensures!("C10.cache.speed", x.cache_speed == b(0x0F));
                ensures!("C10.cache.ecc", x.error_correction_type == b(0x10).map(CacheErrorCorrectionType::from));
                ensures!("C10.cache.system_type", x.system_cache_type == b(0x11).map(SystemCacheType::from));
                ensures!("C10.cache.associativity", x.associativity == b(0x12).map(CacheAssociativity::from));
                let w = |o| if v >= (3, 1) { Some(CacheSize2::from(i.u32(o))) } else { None };
                ensures!("C10.cache.maximum_size_2", x.maximum_cache_size_2 == w(0x13));
                ensures!("C10.cache.installed_size_2", x.installed_size_2 == w(0x17));
            }
            Err(e) => {
                reachable!("cache short", i.len < min);
                reachable!("cache string", i.len >= min);
                ensures!("C10.cache.error", if i.len < min { i.bad_length(&e) } else {
                    !i.strings_ok([0x04]) && i.bad_string(&e, [0x04]) });
            }
        }
    }
}
