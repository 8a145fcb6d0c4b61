//! C16: bit field views report every bit once, in order, with its own meaning.
use crate::c16_layouts::LAYOUTS;
use crate::common::*;
use crate::rt::*;
use crate::*;
use core::convert::TryFrom;
use dmidecode::bitfield::*;
use dmidecode::*;

/// A bit field of any size, layout and iterator position
struct Field<T> {
    value: T,
    index: usize,
    layout: Layout<'static>,
}
impl<T: Default + Into<u128> + TryFrom<u128> + Copy + core::fmt::Debug> BitField<'static> for Field<T> {
    type Size = T;
    fn value(&self) -> T {
        self.value
    }
    fn iter(&self) -> Iter<'static, T> {
        Iter { value: self.value, index: self.index, layout: self.layout }
    }
}

static TEXT: [u8; 128] = [b'x'; 128];
/// The n-th entry's text has n bytes
static NUMBERED: [FlagType<'static>; 128] = {
    let mut a = [FlagType::Unknown; 128];
    let mut k = 0;
    while k < 128 {
        let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(TEXT.as_ptr(), k)) };
        a[k] = if k % 3 == 2 { FlagType::Reserved(s) } else { FlagType::Significant(s, "") };
        k += 1;
    }
    a
};
fn numbered(t: FlagType, k: usize) -> bool {
    match t {
        FlagType::Reserved(s) => k % 3 == 2 && s.len() == k,
        FlagType::Significant(s, l) => k % 3 != 2 && s.len() == k && l.is_empty(),
        FlagType::Unknown => false,
    }
}

/// Iter::next from any position
fn next<T: Into<u128> + Copy>(value: T) {
    let bits = core::mem::size_of::<T>() * 8;
    let mut index: usize = any();
    #[cfg(not(kani))]
    if is_random() { index %= bits + 1 }
    requires!(index <= bits);
    let mut it = Iter { value, index, layout: &NUMBERED[..bits] };
    match it.next() {
        None => {
            reachable!("end", true);
            ensures!("C16.iter.end", index == bits && it.index == bits);
        }
        Some(f) => {
            reachable!("last", index == bits - 1 && f.is_set);
            ensures!("C16.iter.position", index < bits && f.position.0 == index);
            ensures!("C16.iter.is_set", f.is_set == ((value.into() >> (index as u32 & 127)) & 1 == 1));
            ensures!("C16.iter.meaning", numbered(f.type_, index));
            ensures!("C16.iter.next", it.index == index + 1);
        }
    }
    ensures!("C16.iter.value_kept", it.value.into() == value.into());
    ensures!("C16.iter.layout_kept", it.layout.as_ptr() == NUMBERED.as_ptr() && it.layout.len() == bits);
}

/// Any layout of N entries
fn any_layout<const N: usize>() -> &'static [FlagType<'static>] {
    let mut a = [FlagType::Unknown; N];
    let mut k = 0;
    while k < N {
        let kind: u8 = any();
        a[k] = match kind & 3 {
            0 => FlagType::Unknown,
            1 => FlagType::Significant("s", "S"),
            2 => FlagType::Reserved("a"),
            _ => FlagType::Reserved("b"),
        };
        k += 1;
    }
    Box::leak(Box::new(a))
}

fn significants<T, const N: usize>(value: T)
where
    T: Default + Into<u128> + TryFrom<u128> + Copy + core::fmt::Debug,
{
    let layout = any_layout::<N>();
    let mut index: usize = any();
    #[cfg(not(kani))]
    if is_random() { index %= N + 1 }
    requires!(index <= N);
    let v: u128 = value.into();
    let field = Field { value, index, layout };
    // The first set flag at or after `from` that is not reserved
    let first = |from: usize| {
        let mut found = None;
        let mut k = 0;
        while k < N {
            if k >= from && found.is_none() && (v >> k) & 1 == 1 && !matches!(layout[k], FlagType::Reserved(_)) {
                found = Some(k);
            }
            k += 1;
        }
        found
    };
    let mut it = field.significants();
    let mut from = index;
    let mut call = 0;
    while call < 2 {
        let expected = first(from);
        match it.next() {
            Some(f) => {
                reachable!("second", call == 1);
                ensures!("C16.significants.next", expected == Some(f.position.0));
                ensures!("C16.significants.is_set", f.is_set);
                ensures!("C16.significants.meaning", f.position.0 < N && kind(f.type_) == kind(layout[f.position.0 % N]));
                from = f.position.0 + 1;
            }
            None => {
                reachable!("none", index < N);
                ensures!("C16.significants.end", expected.is_none());
                return;
            }
        }
        call += 1;
    }
}

fn kind(t: FlagType) -> u8 {
    match t {
        FlagType::Unknown => 0,
        FlagType::Significant(_, _) => 1,
        FlagType::Reserved(s) => s.as_bytes()[0],
    }
}

fn reserved<T, const N: usize>(value: T, calls: usize)
where
    T: Default + Into<u128> + TryFrom<u128> + Copy + core::fmt::Debug,
{
    let layout = any_layout::<N>();
    let mut index: usize = any();
    #[cfg(not(kani))]
    if is_random() { index %= N + 1 }
    requires!(index <= N);
    // The first position at or after `from` of a reserved entry, and the last one of its run
    let run = |from: usize| {
        let (mut start, mut end, mut open) = (N, N, true);
        let mut k = 0;
        while k < N {
            if k >= from && start == N && kind(layout[k]) >= 2 {
                start = k;
            }
            if start < N && open {
                if kind(layout[k]) == kind(layout[start]) {
                    end = k;
                } else {
                    open = false;
                }
            }
            k += 1;
        }
        (start, end)
    };
    let mut it = Field { value, index, layout }.reserved();
    let mut from = index;
    let mut call = 0;
    while call < calls {
        let (start, end) = run(from);
        match it.next() {
            None => {
                reachable!("none", call > 0);
                ensures!("C16.reserved.end", start == N);
                return;
            }
            Some(r) => {
                reachable!("single", start == end && call > 0);
                reachable!("end", end == N - 1 && start > 0);
                ensures!("C16.reserved.range", *r.range.start() == start && *r.range.end() == end);
                ensures!("C16.reserved.description", r.description.as_bytes()[0] == kind(layout[start % N]));
                from = end + 1;
            }
        }
        call += 1;
    }
}

macro_rules! collect {
    ($($t:ty)*) => {{$({
        let bits = core::mem::size_of::<$t>() * 8;
        let (a, b, c) = (any::<u8>() as usize % bits, any::<u8>() as usize % bits, any::<u8>() as usize % bits);
        let p = [Position(a), Position(b), Position(c)];
        let expected: $t = 1 << a | 1 << b | 1 << c;
        ensures!("C16.collect.references", p.iter().collect::<$t>() == expected);
        ensures!("C16.collect.positions", p.into_iter().collect::<$t>() == expected);

    })*}};
}

macro_rules! back {
    ($($t:ty)*) => {{$({
        const N: usize = core::mem::size_of::<$t>() * 8;
        let value: $t = any();
        let f = Field { value, index: 0, layout: &NUMBERED[..N] };
        ensures!("C16.collect.back", f.iter().filter(|f| f.is_set).map(|f| f.position).collect::<$t>() == value);
    })*}};
}

contracts! {
    /// bitfield::Iter::next, for all sizes, values and positions
    #[unwind(2)]
    fn c16_iter_u8() { next::<u8>(any()) }
    #[unwind(2)]
    fn c16_iter_u16() { next::<u16>(any()) }
    #[unwind(2)]
    fn c16_iter_u32() { next::<u32>(any()) }
    #[unwind(2)]
    fn c16_iter_u64() { next::<u64>(any()) }
    #[unwind(2)]
    fn c16_iter_u128() { next::<u128>(any()) }
    /// Significants::next: bytes with any layout
    #[unwind(10)]
    fn c16_significants() { significants::<u8, 8>(any()) }
    /// Reserved::next: bytes with any layout, from any position
    #[unwind(10)]
    fn c16_reserved() { reserved::<u8, 8>(any(), 2) }
    /// FromIterator<Position>
    #[unwind(5)]
    fn c16_collect() { collect!(u8 u16 u32 u64 u128 usize) }
    /// The named flags of the bit sets
    fn c16_flags() {
        ensures!("C16.flags.detail.reserved", dmidecode::memory_device::Detail::RESERVED.bits() == 0x0);
        ensures!("C16.flags.detail.other", dmidecode::memory_device::Detail::OTHER.bits() == 0x2);
        ensures!("C16.flags.detail.unknown", dmidecode::memory_device::Detail::UNKNOWN.bits() == 0x4);
        ensures!("C16.flags.detail.fast_paged", dmidecode::memory_device::Detail::FAST_PAGED.bits() == 0x8);
        ensures!("C16.flags.detail.static_column", dmidecode::memory_device::Detail::STATIC_COLUMN.bits() == 0x10);
        ensures!("C16.flags.detail.pseudo_static", dmidecode::memory_device::Detail::PSEUDO_STATIC.bits() == 0x20);
        ensures!("C16.flags.detail.rambus", dmidecode::memory_device::Detail::RAMBUS.bits() == 0x40);
        ensures!("C16.flags.detail.synchronous", dmidecode::memory_device::Detail::SYNCHRONOUS.bits() == 0x80);
        ensures!("C16.flags.detail.cmos", dmidecode::memory_device::Detail::CMOS.bits() == 0x100);
        ensures!("C16.flags.detail.edo", dmidecode::memory_device::Detail::EDO.bits() == 0x200);
        ensures!("C16.flags.detail.window_dram", dmidecode::memory_device::Detail::WINDOW_DRAM.bits() == 0x400);
        ensures!("C16.flags.detail.cache_dram", dmidecode::memory_device::Detail::CACHE_DRAM.bits() == 0x800);
        ensures!("C16.flags.detail.non_volatile", dmidecode::memory_device::Detail::NON_VOLATILE.bits() == 0x1000);
        ensures!("C16.flags.detail.registered", dmidecode::memory_device::Detail::REGISTERED.bits() == 0x2000);
        ensures!("C16.flags.detail.unregistered", dmidecode::memory_device::Detail::UNREGISTERED.bits() == 0x4000);
        ensures!("C16.flags.detail.lrdimm", dmidecode::memory_device::Detail::LRDIMM.bits() == 0x8000);
        ensures!("C16.flags.operatingmodes.reserved", dmidecode::memory_device::OperatingModes::RESERVED.bits() == 0x0);
        ensures!("C16.flags.operatingmodes.other", dmidecode::memory_device::OperatingModes::OTHER.bits() == 0x2);
        ensures!("C16.flags.operatingmodes.unknown", dmidecode::memory_device::OperatingModes::UNKNOWN.bits() == 0x4);
        ensures!("C16.flags.operatingmodes.volatile", dmidecode::memory_device::OperatingModes::VOLATILE.bits() == 0x8);
        ensures!("C16.flags.operatingmodes.byte_accessible_persistent", dmidecode::memory_device::OperatingModes::BYTE_ACCESSIBLE_PERSISTENT.bits() == 0x10);
        ensures!("C16.flags.operatingmodes.block_accessible_persistent", dmidecode::memory_device::OperatingModes::BLOCK_ACCESSIBLE_PERSISTENT.bits() == 0x20);
        ensures!("C16.flags.processorstatus.cpu_socket_populated", dmidecode::processor::ProcessorStatus::CPU_SOCKET_POPULATED.bits() == 0x40);
        ensures!("C16.flags.processorstatus.cpu_enabled", dmidecode::processor::ProcessorStatus::CPU_ENABLED.bits() == 0x1);
        ensures!("C16.flags.processorstatus.cpu_disabled_by_user", dmidecode::processor::ProcessorStatus::CPU_DISABLED_BY_USER.bits() == 0x2);
        ensures!("C16.flags.processorstatus.cpu_disabled_by_bios", dmidecode::processor::ProcessorStatus::CPU_DISABLED_BY_BIOS.bits() == 0x3);
        ensures!("C16.flags.processorstatus.cpu_idle", dmidecode::processor::ProcessorStatus::CPU_IDLE.bits() == 0x4);
        ensures!("C16.flags.processorstatus.cpu_other", dmidecode::processor::ProcessorStatus::CPU_OTHER.bits() == 0x7);
        ensures!("C16.flags.processorcharacteristics.reserved", dmidecode::processor::ProcessorCharacteristics::RESERVED.bits() == 0x1);
        ensures!("C16.flags.processorcharacteristics.unknown", dmidecode::processor::ProcessorCharacteristics::UNKNOWN.bits() == 0x2);
        ensures!("C16.flags.processorcharacteristics.capable_64bit", dmidecode::processor::ProcessorCharacteristics::CAPABLE_64BIT.bits() == 0x4);
        ensures!("C16.flags.processorcharacteristics.multicore", dmidecode::processor::ProcessorCharacteristics::MULTICORE.bits() == 0x8);
        ensures!("C16.flags.processorcharacteristics.hardware_thread", dmidecode::processor::ProcessorCharacteristics::HARDWARE_THREAD.bits() == 0x10);
        ensures!("C16.flags.processorcharacteristics.execute_protection", dmidecode::processor::ProcessorCharacteristics::EXECUTE_PROTECTION.bits() == 0x20);
        ensures!("C16.flags.processorcharacteristics.enhanced_virtualization", dmidecode::processor::ProcessorCharacteristics::ENHANCED_VIRTUALIZATION.bits() == 0x40);
        ensures!("C16.flags.processorcharacteristics.power_performance_control", dmidecode::processor::ProcessorCharacteristics::POWER_PERFORMANCE_CONTROL.bits() == 0x80);
        ensures!("C16.flags.processorcharacteristics.arm64_soc_id", dmidecode::processor::ProcessorCharacteristics::ARM64_SOC_ID.bits() == 0x200);
        ensures!("C16.flags.voltagelegacy.voltage_capability_5v0", dmidecode::processor::VoltageLegacy::VOLTAGE_CAPABILITY_5V0.bits() == 0x1);
        ensures!("C16.flags.voltagelegacy.voltage_capability_3v3", dmidecode::processor::VoltageLegacy::VOLTAGE_CAPABILITY_3V3.bits() == 0x2);
        ensures!("C16.flags.voltagelegacy.voltage_capability_2v9", dmidecode::processor::VoltageLegacy::VOLTAGE_CAPABILITY_2V9.bits() == 0x4);
        ensures!("C16.flags.cachesramtype.other", dmidecode::cache::CacheSramType::OTHER.bits() == 0x1);
        ensures!("C16.flags.cachesramtype.unknown", dmidecode::cache::CacheSramType::UNKNOWN.bits() == 0x2);
        ensures!("C16.flags.cachesramtype.nonburst", dmidecode::cache::CacheSramType::NONBURST.bits() == 0x4);
        ensures!("C16.flags.cachesramtype.burst", dmidecode::cache::CacheSramType::BURST.bits() == 0x8);
        ensures!("C16.flags.cachesramtype.pipeline_burst", dmidecode::cache::CacheSramType::PIPELINE_BURST.bits() == 0x10);
        ensures!("C16.flags.cachesramtype.synchronous", dmidecode::cache::CacheSramType::SYNCHRONOUS.bits() == 0x20);
        ensures!("C16.flags.cachesramtype.asynchronous", dmidecode::cache::CacheSramType::ASYNCHRONOUS.bits() == 0x40);
        ensures!("C16.flags.baseboardflags.hosting", dmidecode::baseboard::BaseBoardFlags::HOSTING.bits() == 0x1);
        ensures!("C16.flags.baseboardflags.requires_daughter", dmidecode::baseboard::BaseBoardFlags::REQUIRES_DAUGHTER.bits() == 0x2);
        ensures!("C16.flags.baseboardflags.is_removable", dmidecode::baseboard::BaseBoardFlags::IS_REMOVABLE.bits() == 0x4);
        ensures!("C16.flags.baseboardflags.is_replaceable", dmidecode::baseboard::BaseBoardFlags::IS_REPLACEABLE.bits() == 0x8);
        ensures!("C16.flags.baseboardflags.is_hot_swappable", dmidecode::baseboard::BaseBoardFlags::IS_HOT_SWAPPABLE.bits() == 0x10);
    }
    /// Collecting the set flags of bytes
    #[unwind(10)]
    fn c16_back() { back!(u8) }
}

native! {
    /// Wide bit fields, read to the end
    fn c16_wide() {
        reserved::<u8, 8>(any(), 9);
        significants::<u16, 16>(any());
        significants::<u32, 32>(any());
        significants::<u64, 64>(any());
        significants::<u128, 128>(any());
        reserved::<u16, 16>(any(), 17);
        reserved::<u32, 32>(any(), 33);
        reserved::<u64, 64>(any(), 65);
        reserved::<u128, 128>(any(), 129);
        back!(u16 u32 u64 u128);
    }
    /// The layouts, which are constants: all entries
    fn c16_layouts() {
        fn entries(l: Layout<'static>, expected: &[(char, &str)]) -> bool {
            l.len() == expected.len() && l.iter().zip(expected).all(|(a, e)| match a {
                FlagType::Significant(s, _) => e.0 == 'S' && *s == e.1,
                FlagType::Reserved(s) => e.0 == 'R' && *s == e.1,
                FlagType::Unknown => e.0 == 'U',
            })
        }
        let mut k = 0;
        for (name, layout) in crate::c16_layouts::actual() {
            let expected = LAYOUTS.iter().find(|l| l.0 == name).unwrap().1;
            ensures!("C16.layouts", entries(layout, expected));
            k += 1;
        }
        assert!(k == LAYOUTS.len());
    }
}
