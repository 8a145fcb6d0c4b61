//! Access to the private parts of /repo that the contracts need.
//!
//! Normally these are the guarded hooks of /repo. Where they do not compile with the tree at hand
//! (`dmi_verif_nohooks`, native runs only) the public interface stands in for them: a structure is
//! put into a table behind an entry point, and searched, framed and decoded by the real code.
#[cfg(not(dmi_verif_nohooks))]
pub use dmidecode::verif_hooks::*;

#[cfg(dmi_verif_nohooks)]
pub use public::*;

/// An entry point of the given version and declared length, as found by `EntryPoint::search`
#[cfg(not(kani))]
pub fn entry_point(version: dmidecode::SmbiosVersion, v3: bool, declared: u32) -> dmidecode::EntryPoint {
    let mut b = vec![0u8; if v3 { 0x18 } else { 0x1F }];
    let sum_at = if v3 {
        b[..5].copy_from_slice(b"_SM3_");
        b[6] = 0x18;
        (b[7], b[8]) = (version.major, version.minor);
        b[0x0C..0x10].copy_from_slice(&declared.to_le_bytes());
        5
    } else {
        b[..4].copy_from_slice(b"_SM_");
        b[5] = 0x1F;
        (b[6], b[7]) = (version.major, version.minor);
        b[0x16..0x18].copy_from_slice(&(declared as u16).to_le_bytes());
        4
    };
    b[sum_at] = b.iter().fold(0u8, |a, x| a.wrapping_sub(*x));
    match dmidecode::EntryPoint::search(&b) {
        Ok(e) => e,
        Err(_) => {
            crate::rt::assume(false);
            unreachable!()
        }
    }
}

#[cfg(dmi_verif_nohooks)]
mod public {
    use crate::common::Er;
    use crate::rt::*;
    use dmidecode::*;
    use std::cell::OnceCell;

    /// The parts of a raw structure; the real one when it is asked for
    pub struct Raw {
        pub version: SmbiosVersion,
        pub info: InfoType,
        pub handle: u16,
        pub length: u8,
        pub data: &'static [u8],
        pub strings: &'static [u8],
        real: OnceCell<RawStructure<'static>>,
    }
    pub fn raw(
        version: SmbiosVersion,
        info: InfoType,
        length: u8,
        handle: u16,
        data: &'static [u8],
        strings: &'static [u8],
    ) -> Raw {
        Raw { version, info, handle, length, data, strings, real: OnceCell::new() }
    }
    fn discard<T>() -> T {
        assume(false);
        unreachable!()
    }
    impl Raw {
        fn first(&self) -> Structure<'static> {
            match self.decode() {
                Ok(x) => x,
                Err(_) => discard(),
            }
        }
        fn decode(&self) -> Result<Structure<'static>, Er> {
            // A strings section as framing leaves it
            let n = self.strings.len();
            assume(n >= 2 && self.strings.windows(2).position(|w| w == [0, 0]) == Some(n - 2));
            assume(self.length as usize == self.data.len() + 4 && self.version.major >= 2);
            let kind = (0..=255u8).find(|k| crate::c15::t_info_type(*k) == self.info).unwrap();
            let mut b = vec![kind, self.length, self.handle as u8, (self.handle >> 8) as u8];
            b.extend_from_slice(self.data);
            b.extend_from_slice(self.strings);
            let b = object(b);
            let e = super::entry_point(self.version, self.version.major > 2, b.len() as u32);
            let mut s = e.structures(b);
            match s.next() {
                None | Some(Err(Er::BadSize(..))) | Some(Err(Er::UnterminatedStrings(_))) => discard(),
                Some(r) => r,
            }
        }
    }
    impl core::ops::Deref for Raw {
        type Target = RawStructure<'static>;
        fn deref(&self) -> &RawStructure<'static> {
            self.real.get_or_init(|| match self.first() {
                Structure::Other(raw) => raw,
                _ => discard(),
            })
        }
    }
    /// Only the start of a traversal can be had from outside, and nothing of its state
    pub fn structures_at(version: SmbiosVersion, smbios_len: u32, idx: u32, b: &[u8]) -> Structures<'_> {
        assume(idx == 0);
        super::entry_point(version, true, smbios_len).structures(b)
    }
    pub fn structures_state(_: &Structures<'_>) -> (u32, u32) {
        discard()
    }
    pub fn next_raw<'a>(_: &mut Structures<'a>) -> Option<Result<RawStructure<'a>, Er>> {
        discard()
    }
    pub fn find_nulnul(_: &[u8]) -> Option<usize> {
        discard()
    }
    pub fn raw_strings<'a>(_: &RawStructure<'a>) -> &'a [u8] {
        discard()
    }
    pub fn find_signature(_: &[u8]) -> Option<(bool, usize)> {
        discard()
    }
    macro_rules! decoders {
        ($($name:ident $variant:ident: $ty:ty;)*) => {
            $(
                pub fn $name(raw: Raw) -> Result<$ty, MalformedStructureError> {
                    match raw.decode()? {
                        Structure::$variant(x) => Ok(x),
                        _ => discard(),
                    }
                }
            )*
        };
    }
    decoders! {
        bios Bios: Bios<'static>;
        system System: System<'static>;
        baseboard BaseBoard: BaseBoard<'static>;
        enclosure Enclosure: Enclosure<'static>;
        processor Processor: Processor<'static>;
        cache Cache: Cache<'static>;
        port_connector PortConnector: PortConnector<'static>;
        system_slots SystemSlots: SystemSlots<'static>;
        oem_strings OemStrings: OemStrings<'static>;
        system_configuration_options SystemConfigurationOptions: SystemConfigurationOptions<'static>;
        bios_language BiosLanguage: BiosLanguage<'static>;
        group_associations GroupAssociations: GroupAssociations<'static>;
        system_event_log SystemEventLog: SystemEventLog<'static>;
        physical_memory_array PhysicalMemoryArray: PhysicalMemoryArray;
        memory_device MemoryDevice: MemoryDevice<'static>;
        memory_error_32 MemoryError32: MemoryError32;
        memory_array_mapped_address MemoryArrayMappedAddress: MemoryArrayMappedAddress;
        memory_device_mapped_address MemoryDeviceMappedAddress: MemoryDeviceMappedAddress;
        built_in_pointing_device BuiltInPointingDevice: BuiltInPointingDevice;
        portable_battery PortableBattery: PortableBattery<'static>;
    }

    /// The numbers in the text of a value
    fn numbers(text: &str) -> Vec<u64> {
        text.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
    }
    pub trait Value {
        fn verif_value(&self) -> u16;
    }
    impl Value for system_slots::SlotPitch {
        fn verif_value(&self) -> u16 {
            match numbers(&format!("{self:?}"))[..] {
                [n] => n as u16,
                _ => discard(),
            }
        }
    }
    pub trait Element {
        fn verif_parts(&self) -> (enclosure::ContainedElementType, u8, u8);
    }
    impl Element for enclosure::ContainedElement {
        fn verif_parts(&self) -> (enclosure::ContainedElementType, u8, u8) {
            let text = format!("{self:?}");
            let field = |name: &str| match text.split(name).nth(1).map(numbers) {
                Some(n) if !n.is_empty() => n[0] as u8,
                _ => discard(),
            };
            let type_ = (0..=255u8)
                .map(enclosure::ContainedElementType::from)
                .find(|t| text.contains(&format!("type_: {t:?},")));
            match type_ {
                Some(t) => (t, field("minimum: "), field("maximum: ")),
                None => discard(),
            }
        }
    }

    /// Private parts that nothing public shows: nothing is said about them
    pub trait Hidden: Sized {
        fn verif_parts(&self) -> (cache::CacheLevel, bool, cache::CacheLocation, bool, cache::CacheOperationalMode) {
            discard()
        }
    }
    impl Hidden for cache::CacheConfiguration {}
    pub trait Steps: Sized {
        fn verif_skip(&mut self, _: usize) {
            discard()
        }
        fn verif_rest(&self) -> core::slice::Chunks<'_, u8> {
            discard()
        }
    }
    impl Steps for enclosure::ContainedElements<'_> {}
    impl Steps for system_slots::PeerDevices<'_> {}
    impl Steps for system_event_log::SupportedEventLogTypeDescriptors<'_> {}
    pub trait Index<T>: Sized {
        fn verif_index(&mut self) -> &mut T {
            discard()
        }
    }
    impl Index<u8> for bios_language::InstallableLanguages<'_> {}
    impl Index<usize> for group_associations::GroupItems<'_> {}
}
