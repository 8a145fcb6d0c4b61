//! C15: enumerated codes map totally and exactly as the specification lists them.
//!
//! The tables below are the specification: frozen here, not read from /repo.
use crate::rt::*;
use crate::*;
use dmidecode::*;

pub fn t_info_type(x: u8) -> dmidecode::InfoType {
    use dmidecode::InfoType as E;
    match x {
        0 => E::Bios,
        1 => E::System,
        2 => E::BaseBoard,
        3 => E::Enclosure,
        4 => E::Processor,
        7 => E::Cache,
        8 => E::PortConnector,
        9 => E::SystemSlots,
        11 => E::OemStrings,
        12 => E::SystemConfigurationOptions,
        13 => E::BiosLanguage,
        14 => E::GroupAssociations,
        15 => E::SystemEventLog,
        16 => E::PhysicalMemoryArray,
        17 => E::MemoryDevice,
        18 => E::MemoryError32,
        19 => E::MemoryArrayMappedAddress,
        20 => E::MemoryDeviceMappedAddress,
        21 => E::BuiltInPointingDevice,
        22 => E::PortableBattery,
        32 => E::SystemBoot,
        127 => E::End,
        t => E::Oem(t),
    }
}

fn t_system_wakeup_type(x: u8) -> dmidecode::system::WakeupType {
    use dmidecode::system::WakeupType as E;
    match x {
        0 => E::Reserved,
        1 => E::Other,
        2 => E::Unknown,
        3 => E::APM_Timer,
        4 => E::Modem_Ring,
        5 => E::LAN_Remote,
        6 => E::Power_Switch,
        7 => E::PCI_PME,
        8 => E::AC_Power_Restored,
        t => E::Undefined(t),
    }
}

pub fn t_baseboard_board_type(x: u8) -> dmidecode::baseboard::BoardType {
    use dmidecode::baseboard::BoardType as E;
    match x {
        1 => E::Unknown,
        2 => E::Other,
        3 => E::ServerBlade,
        4 => E::ConnectivitySwitch,
        5 => E::SystemManagementModule,
        6 => E::ProcessorModule,
        7 => E::IoModule,
        8 => E::MemoryModule,
        9 => E::DaughterBoard,
        10 => E::MotherBoard,
        11 => E::ProcessorMemoryModule,
        12 => E::ProcessorIoModule,
        13 => E::InterconnectBoard,
        t => E::Undefined(t),
    }
}

fn t_enclosure_enclosure_type(x: u8) -> dmidecode::enclosure::EnclosureType {
    use dmidecode::enclosure::EnclosureType as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Desktop,
        0x04 => E::LowProfileDesktop,
        0x05 => E::PizzaBox,
        0x06 => E::MiniTower,
        0x07 => E::Tower,
        0x08 => E::Portable,
        0x09 => E::Laptop,
        0x0A => E::Notebook,
        0x0B => E::HandHeld,
        0x0C => E::DockingStation,
        0x0D => E::AllInOne,
        0x0E => E::SubNotebook,
        0x0F => E::SpaceSaving,
        0x10 => E::LunchBox,
        0x11 => E::MainServerChassis,
        0x12 => E::ExpansionChassis,
        0x13 => E::SubChassis,
        0x14 => E::BusExpansionChassis,
        0x15 => E::PeripheralChassis,
        0x16 => E::RaidChassis,
        0x17 => E::RackMountChassis,
        0x18 => E::SealedCasePc,
        0x19 => E::MultiSystemChassis,
        0x1A => E::CompactPci,
        0x1B => E::AdvancedTca,
        0x1C => E::Blade,
        0x1D => E::BladeEnclosure,
        0x1E => E::Tablet,
        0x1F => E::Convertible,
        0x20 => E::Detachable,
        0x21 => E::IotGateway,
        0x22 => E::EmbeddedPc,
        0x23 => E::MiniPc,
        0x24 => E::StickPc,
        v => E::Undefined(v),
    }
}

fn t_enclosure_state(x: u8) -> dmidecode::enclosure::State {
    use dmidecode::enclosure::State as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Safe,
        0x04 => E::Warning,
        0x05 => E::Critical,
        0x06 => E::NonRecoverable,
        v => E::Undefined(v),
    }
}

fn t_enclosure_security_status(x: u8) -> dmidecode::enclosure::SecurityStatus {
    use dmidecode::enclosure::SecurityStatus as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::None,
        0x04 => E::ExternalInterfaceLockedOut,
        0x05 => E::ExternalInterfaceEnabled,
        v => E::Undefined(v),
    }
}

fn t_processor_processor_type(x: u8) -> dmidecode::processor::ProcessorType {
    use dmidecode::processor::ProcessorType as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::CentralProcessor,
        4 => E::MathProcessor,
        5 => E::DspProcessor,
        6 => E::VideoProcessor,
        t => E::Undefined(t),
    }
}

fn t_processor_processor_family(x: u16) -> dmidecode::processor::ProcessorFamily {
    use dmidecode::processor::ProcessorFamily as E;
    match x {
        0x00 => E::OutOfSpec,
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Intel8086,
        0x04 => E::Intel80286,
        0x05 => E::Intel386Processor,
        0x06 => E::Intel486Processor,
        0x07 => E::Intel8087,
        0x08 => E::Intel80287,
        0x09 => E::Intel80387,
        0x0A => E::Intel80487,
        0x0B => E::IntelPentiumProcessor,
        0x0C => E::PentiumProProcessor,
        0x0D => E::PentiumIIProcessor,
        0x0E => E::PentiumProcessorWithMMXTechnology,
        0x0F => E::IntelCeleronProcessor,
        0x10 => E::PentiumIIXeonProcessor,
        0x11 => E::PentiumIIIProcessor,
        0x12 => E::M1Family,
        0x13 => E::M2Family,
        0x14 => E::IntelCeleronMProcessor,
        0x15 => E::IntelPentium4HTProcessor,
        n @ 0x16..=0x17 => E::Available(n),
        0x18 => E::AMDDuronProcessorFamily,
        0x19 => E::K5Family,
        0x1A => E::K6Family,
        0x1B => E::K62,
        0x1C => E::K63,
        0x1D => E::AMDAthlonProcessorFamily,
        0x1E => E::AMD29000Family,
        0x1F => E::K62Plus,
        0x20 => E::PowerPCFamily,
        0x21 => E::PowerPC601,
        0x22 => E::PowerPC603,
        0x23 => E::PowerPC603Plus,
        0x24 => E::PowerPC604,
        0x25 => E::PowerPC620,
        0x26 => E::PowerPCX704,
        0x27 => E::PowerPC750,
        0x28 => E::IntelCoreDuoProcessor,
        0x29 => E::IntelCoreDuoMobileProcessor,
        0x2A => E::IntelCoreSoloMobileProcessor,
        0x2B => E::IntelAtomProcessor,
        0x2C => E::IntelCoreMProcessor,
        0x2D => E::IntelCoreM3Processor,
        0x2E => E::IntelCoreM5Processor,
        0x2F => E::IntelCoreM7Processor,
        0x30 => E::AlphaFamily,
        0x31 => E::Alpha21064,
        0x32 => E::Alpha21066,
        0x33 => E::Alpha21164,
        0x34 => E::Alpha21164PC,
        0x35 => E::Alpha21164a,
        0x36 => E::Alpha21264,
        0x37 => E::Alpha21364,
        0x38 => E::AMDTurionIIUltraDualCoreMobileMProcessorFamily,
        0x39 => E::AMDTurionIIDualCoreMobileMProcessorFamily,
        0x3A => E::AMDAthlonIIDualCoreMProcessorFamily,
        0x3B => E::AMDOpteron6100SeriesProcessor,
        0x3C => E::AMDOpteron4100SeriesProcessor,
        0x3D => E::AMDOpteron6200SeriesProcessor,
        0x3E => E::AMDOpteron4200SeriesProcessor,
        0x3F => E::AMDFXSeriesProcessor,
        0x40 => E::MIPSFamily,
        0x41 => E::MIPSR4000,
        0x42 => E::MIPSR4200,
        0x43 => E::MIPSR4400,
        0x44 => E::MIPSR4600,
        0x45 => E::MIPSR10000,
        0x46 => E::AMDCSeriesProcessor,
        0x47 => E::AMDESeriesProcessor,
        0x48 => E::AMDASeriesProcessor,
        0x49 => E::AMDGSeriesProcessor,
        0x4A => E::AMDZSeriesProcessor,
        0x4B => E::AMDRSeriesProcessor,
        0x4C => E::AMDOpteron4300SeriesProcessor,
        0x4D => E::AMDOpteron6300SeriesProcessor,
        0x4E => E::AMDOpteron3300SeriesProcessor,
        0x4F => E::AMDFireProSeriesProcessor,
        0x50 => E::SPARCFamily,
        0x51 => E::SuperSPARC,
        0x52 => E::MicroSPARCII,
        0x53 => E::MicroSPARCIIep,
        0x54 => E::UltraSPARC,
        0x55 => E::UltraSPARCII,
        0x56 => E::UltraSPARCIii,
        0x57 => E::UltraSPARCIII,
        0x58 => E::UltraSPARCIIIi,
        n @ 0x59..=0x5F => E::Available(n),
        0x60 => E::Motorola68040Family,
        0x61 => E::Motorola68xxx,
        0x62 => E::Motorola68000,
        0x63 => E::Motorola68010,
        0x64 => E::Motorola68020,
        0x65 => E::Motorola68030,
        0x66 => E::AMDAthlonX4QuadCoreProcessorFamily,
        0x67 => E::AMDOpteronX1000SeriesProcessor,
        0x68 => E::AMDOpteronX2000SeriesAPU,
        0x69 => E::AMDOpteronASeriesProcessor,
        0x6A => E::AMDOpteronX3000SeriesAPU,
        0x6B => E::AMDZenProcessorFamily,
        n @ 0x6C..=0x6F => E::Available(n),
        0x70 => E::HobbitFamily,
        n @ 0x71..=0x77 => E::Available(n),
        0x78 => E::CrusoeTM5000Family,
        0x79 => E::CrusoeTM3000Family,
        0x7A => E::EfficeonTM8000Family,
        n @ 0x7B..=0x7F => E::Available(n),
        0x80 => E::Weitek,
        n @ 0x81 => E::Available(n),
        0x82 => E::ItaniumProcessor,
        0x83 => E::AMDAthlon64ProcessorFamily,
        0x84 => E::AMDOpteronProcessorFamily,
        0x85 => E::AMDSempronProcessorFamily,
        0x86 => E::AMDTurion64MobileTechnology,
        0x87 => E::DualCoreAMDOpteronProcessorFamily,
        0x88 => E::AMDAthlon64X2DualCoreProcessorFamily,
        0x89 => E::AMDTurion64X2MobileTechnology,
        0x8A => E::QuadCoreAMDOpteronProcessorFamily,
        0x8B => E::ThirdGenerationAMDOpteronProcessorFamily,
        0x8C => E::AMDPhenomFXQuadCoreProcessorFamily,
        0x8D => E::AMDPhenomX4QuadCoreProcessorFamily,
        0x8E => E::AMDPhenomX2DualCoreProcessorFamily,
        0x8F => E::AMDAthlonX2DualCoreProcessorFamily,
        0x90 => E::PARISCFamily,
        0x91 => E::PARISC8500,
        0x92 => E::PARISC8000,
        0x93 => E::PARISC7300LC,
        0x94 => E::PARISC7200,
        0x95 => E::PARISC7100LC,
        0x96 => E::PARISC7100,
        n @ 0x97..=0x9F => E::Available(n),
        0xA0 => E::V30Family,
        0xA1 => E::QuadCoreIntelXeonProcessor3200Series,
        0xA2 => E::DualCoreIntelXeonProcessor3000Series,
        0xA3 => E::QuadCoreIntelXeonProcessor5300Series,
        0xA4 => E::DualCoreIntelXeonProcessor5100Series,
        0xA5 => E::DualCoreIntelXeonProcessor5000Series,
        0xA6 => E::DualCoreIntelXeonProcessorLV,
        0xA7 => E::DualCoreIntelXeonProcessorULV,
        0xA8 => E::DualCoreIntelXeonProcessor7100Series,
        0xA9 => E::QuadCoreIntelXeonProcessor5400Series,
        0xAA => E::QuadCoreIntelXeonProcessor,
        0xAB => E::DualCoreIntelXeonProcessor5200Series,
        0xAC => E::DualCoreIntelXeonProcessor7200Series,
        0xAD => E::QuadCoreIntelXeonProcessor7300Series,
        0xAE => E::QuadCoreIntelXeonProcessor7400Series,
        0xAF => E::MultiCoreIntelXeonProcessor7400Series,
        0xB0 => E::PentiumIIIXeonProcessor,
        0xB1 => E::PentiumIIIProcessorWithIntelSpeedStepTechnology,
        0xB2 => E::Pentium4Processor,
        0xB3 => E::IntelXeonProcessor,
        0xB4 => E::AS400Family,
        0xB5 => E::IntelXeonProcessorMP,
        0xB6 => E::AMDAthlonXPProcessorFamily,
        0xB7 => E::AMDAthlonMPProcessorFamily,
        0xB8 => E::IntelItanium2Processor,
        0xB9 => E::IntelPentiumMProcessor,
        0xBA => E::IntelCeleronDProcessor,
        0xBB => E::IntelPentiumDProcessor,
        0xBC => E::IntelPentiumProcessorExtremeEdition,
        0xBD => E::IntelCoreSoloProcessor,
        0xBE => E::Ambiguous,
        0xBF => E::IntelCore2DuoProcessor,
        0xC0 => E::IntelCore2SoloProcessor,
        0xC1 => E::IntelCore2ExtremeProcessor,
        0xC2 => E::IntelCore2QuadProcessor,
        0xC3 => E::IntelCore2ExtremeMobileProcessor,
        0xC4 => E::IntelCore2DuoMobileProcessor,
        0xC5 => E::IntelCore2SoloMobileProcessor,
        0xC6 => E::IntelCoreI7Processor,
        0xC7 => E::DualCoreIntelCeleronProcessor,
        0xC8 => E::IBM390Family,
        0xC9 => E::G4,
        0xCA => E::G5,
        0xCB => E::ESA390G6,
        0xCC => E::ZArchitectureBase,
        0xCD => E::IntelCoreI5Processor,
        0xCE => E::IntelCoreI3Processor,
        0xCF => E::IntelCoreI9Processor,
        n @ 0xD0..=0xD1 => E::Available(n),
        0xD2 => E::VIAC7MProcessorFamily,
        0xD3 => E::VIAC7DProcessorFamily,
        0xD4 => E::VIAC7ProcessorFamily,
        0xD5 => E::VIAEdenProcessorFamily,
        0xD6 => E::MultiCoreIntelXeonProcessor,
        0xD7 => E::DualCoreIntelXeonProcessor3xxxSeries,
        0xD8 => E::QuadCoreIntelXeonProcessor3xxxSeries,
        0xD9 => E::VIANanoProcessorFamily,
        0xDA => E::DualCoreIntelXeonProcessor5xxxSeries,
        0xDB => E::QuadCoreIntelXeonProcessor5xxxSeries,
        n @ 0xDC => E::Available(n),
        0xDD => E::DualCoreIntelXeonProcessor7xxxSeries,
        0xDE => E::QuadCoreIntelXeonProcessor7xxxSeries,
        0xDF => E::MultiCoreIntelXeonProcessor7xxxSeries,
        0xE0 => E::MultiCoreIntelXeonProcessor3400Series,
        n @ 0xE1..=0xE3 => E::Available(n),
        0xE4 => E::AMDOpteron3000SeriesProcessor,
        0xE5 => E::AMDSempronIIProcessor,
        0xE6 => E::EmbeddedAMDOpteronQuadCoreProcessorFamily,
        0xE7 => E::AMDPhenomTripleCoreProcessorFamily,
        0xE8 => E::AMDTurionUltraDualCoreMobileProcessorFamily,
        0xE9 => E::AMDTurionDualCoreMobileProcessorFamily,
        0xEA => E::AMDAthlonDualCoreProcessorFamily,
        0xEB => E::AMDSempronSIProcessorFamily,
        0xEC => E::AMDPhenomIIProcessorFamily,
        0xED => E::AMDAthlonIIProcessorFamily,
        0xEE => E::SixCoreAMDOpteronProcessorFamily,
        0xEF => E::AMDSempronMProcessorFamily,
        n @ 0xF0..=0xF9 => E::Available(n),
        0xFA => E::I860,
        0xFB => E::I960,
        n @ 0xFC..=0xFD => E::Available(n),
        0xFE => E::ProcessorFamily2,
        n @ 0xFF => E::NotUsed(n),
        0x100 => E::ARMv7,
        0x101 => E::ARMv8,
        0x102 => E::ARMv9,
        0x103 => E::Available(0x103),
        0x104 => E::SH3,
        0x105 => E::SH4,
        n @ 0x106..=0x117 => E::Available(n),
        0x118 => E::ARM,
        0x119 => E::StrongARM,
        n @ 0x11A..=0x12B => E::Available(n),
        0x12C => E::Cyrix6x86,
        0x12D => E::MediaGX,
        0x12E => E::MII,
        n @ 0x12F..=0x13F => E::Available(n),
        0x140 => E::WinChip,
        n @ 0x141..=0x15D => E::Available(n),
        0x15E => E::DSP,
        n @ 0x15F..=0x1F3 => E::Available(n),
        0x1F4 => E::VideoProcessor,
        n @ 0x1F5..=0x1FF => E::Available(n),
        0x200 => E::RISCVRV32,
        0x201 => E::RISCVRV64,
        0x202 => E::RISCVRV128,
        n @ 0x203..=0xFFFD => E::Available(n),
        0xFFFE => E::ForFutureUse,
        n @ 0xFFFF => E::NotUsed(n),
    }
}

fn t_processor_processor_upgrade(x: u8) -> dmidecode::processor::ProcessorUpgrade {
    use dmidecode::processor::ProcessorUpgrade as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::DaughterBoard,
        0x04 => E::ZIFSocket,
        0x05 => E::ReplaceablePiggyBack,
        0x06 => E::None,
        0x07 => E::LIFSocket,
        0x08 => E::Slot1,
        0x09 => E::Slot2,
        0x0a => E::Socket370,
        0x0b => E::SlotA,
        0x0c => E::SlotM,
        0x0d => E::Socket423,
        0x0e => E::SocketA,
        0x0f => E::Socket478,
        0x10 => E::Socket754,
        0x11 => E::Socket940,
        0x12 => E::Socket939,
        0x13 => E::SocketmPGA604,
        0x14 => E::SocketLGA771,
        0x15 => E::SocketLGA775,
        0x16 => E::SocketS1,
        0x17 => E::SocketAM2,
        0x18 => E::SocketF,
        0x19 => E::SocketLGA1366,
        0x1a => E::SocketG34,
        0x1b => E::SocketAM3,
        0x1c => E::SocketC32,
        0x1d => E::SocketLGA1156,
        0x1e => E::SocketLGA1567,
        0x1f => E::SocketPGA988A,
        0x20 => E::SocketBGA1288,
        0x21 => E::SocketrPGA988B,
        0x22 => E::SocketBGA1023,
        0x23 => E::SocketBGA1224,
        0x24 => E::SocketLGA1155,
        0x25 => E::SocketLGA1356,
        0x26 => E::SocketLGA2011,
        0x27 => E::SocketFS1,
        0x28 => E::SocketFS2,
        0x29 => E::SocketFM1,
        0x2a => E::SocketFM2,
        0x2b => E::SocketLGA2011Three,
        0x2c => E::SocketLGA1356Three,
        0x2d => E::SocketLGA1150,
        0x2e => E::SocketBGA1168,
        0x2f => E::SocketBGA1234,
        0x30 => E::SocketBGA1364,
        0x31 => E::SocketAM4,
        0x32 => E::SocketLGA1151,
        0x33 => E::SocketBGA1356,
        0x34 => E::SocketBGA1440,
        0x35 => E::SocketBGA1515,
        0x36 => E::SocketLGA3647,
        0x37 => E::SocketSP3,
        0x38 => E::SocketSP3r2,
        0x39 => E::SocketLGA2066,
        0x3a => E::SocketBGA1392,
        0x3b => E::SocketBGA1510,
        0x3c => E::SocketBGA1528,
        0x3d => E::SocketLGA4189,
        0x3e => E::SocketLGA1200,
        n => E::Undefined(n),
    }
}

fn t_cache_cache_level(x: u16) -> Option<dmidecode::cache::CacheLevel> {
    use dmidecode::cache::CacheLevel as E;
    Some(match x {
        0 => E::L1,
        1 => E::L2,
        2 => E::L3,
        3 => E::L4,
        4 => E::L5,
        5 => E::L6,
        6 => E::L7,
        7 => E::L8,
        _ => return None,
    })
}

fn t_cache_cache_location(x: u16) -> Option<dmidecode::cache::CacheLocation> {
    use dmidecode::cache::CacheLocation as E;
    Some(match x {
        0 => E::Internal,
        1 => E::External,
        2 => E::Reserved,
        3 => E::Unknown,
        _ => return None,
    })
}

fn t_cache_cache_operational_mode(x: u16) -> Option<dmidecode::cache::CacheOperationalMode> {
    use dmidecode::cache::CacheOperationalMode as E;
    Some(match x {
        0 => E::WriteThrough,
        1 => E::WriteBack,
        2 => E::ValuesWithMemoryAddress,
        3 => E::Unknown,
        _ => return None,
    })
}

fn t_cache_cache_error_correction_type(x: u8) -> dmidecode::cache::CacheErrorCorrectionType {
    use dmidecode::cache::CacheErrorCorrectionType as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::None,
        0x04 => E::Parity,
        0x05 => E::SingleBitEcc,
        0x06 => E::MultiBitEcc,
        t => E::Undefined(t),
    }
}

fn t_cache_system_cache_type(x: u8) -> dmidecode::cache::SystemCacheType {
    use dmidecode::cache::SystemCacheType as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Instruction,
        0x04 => E::Data,
        0x05 => E::Unified,
        t => E::Undefined(t),
    }
}

fn t_cache_cache_associativity(x: u8) -> dmidecode::cache::CacheAssociativity {
    use dmidecode::cache::CacheAssociativity as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::DirectMapped,
        0x04 => E::TwowaySetAssociative,
        0x05 => E::FourWaySetAssociative,
        0x06 => E::FullyAssociative,
        0x07 => E::EightWaySetAssociative,
        0x08 => E::SixteenWaySetAssociative,
        0x09 => E::TwelveWaySetAssociative,
        0x0A => E::TwentyFourWaySetAssociative,
        0x0B => E::ThirtyTwoWaySetAssociative,
        0x0C => E::FourtyEightWaySetAssociative,
        0x0D => E::SixtyFourWaySetAssociative,
        0x0E => E::TwentyWaySetAssociative,
        t => E::Undefined(t),
    }
}

fn t_port_connector_connector_type(x: u8) -> dmidecode::port_connector::ConnectorType {
    use dmidecode::port_connector::ConnectorType as E;
    match x {
        0x00 => E::None,
        0x01 => E::Centronics,
        0x02 => E::MiniCentronics,
        0x03 => E::Proprietary,
        0x04 => E::Db25PinMale,
        0x05 => E::Db25PinFemale,
        0x06 => E::Db15PinMale,
        0x07 => E::Db15PinFemale,
        0x08 => E::Db9PinMale,
        0x09 => E::Db9PinFemale,
        0x0A => E::Rj11,
        0x0B => E::Rj45,
        0x0C => E::MiniScsi,
        0x0D => E::MiniDin,
        0x0E => E::MicroDin,
        0x0F => E::Ps2,
        0x10 => E::Infrared,
        0x11 => E::HpHil,
        0x12 => E::AccessBus,
        0x13 => E::SsaScsi,
        0x14 => E::CircularDin8Male,
        0x15 => E::CircularDin8Female,
        0x16 => E::OnBoardIde,
        0x17 => E::OnBoardFloppy,
        0x18 => E::DualInline9,
        0x19 => E::DualInline25,
        0x1A => E::DualInline50,
        0x1B => E::DualInline68,
        0x1C => E::OnBoardSoundInputFromCdRom,
        0x1D => E::MiniCentronicsType14,
        0x1E => E::MiniCentronicsType26,
        0x1F => E::MiniJack,
        0x20 => E::Bnc,
        0x21 => E::Ieee1394,
        0x22 => E::SasSataPlugReceptacle,
        0x23 => E::UsbTypeCReceptacle,
        0xA0 => E::Pc98,
        0xA1 => E::Pc98Hireso,
        0xA2 => E::PcH98,
        0xA3 => E::Pc98Note,
        0xA4 => E::Pc98Full,
        0xFF => E::Other,
        v => E::Undefined(v),
    }
}

fn t_port_connector_port_type(x: u8) -> dmidecode::port_connector::PortType {
    use dmidecode::port_connector::PortType as E;
    match x {
        0x00 => E::None,
        0x01 => E::ParallelPortXtAtCompatible,
        0x02 => E::ParallelPortPs2,
        0x03 => E::ParallelPortEcp,
        0x04 => E::ParallelPortEpp,
        0x05 => E::ParallelPortEcpEpp,
        0x06 => E::SerialPortXtAtCompatible,
        0x07 => E::SerialPort16450Compatible,
        0x08 => E::SerialPort16550Compatible,
        0x09 => E::SerialPort16550ACompatible,
        0x0A => E::ScsiPort,
        0x0B => E::MidiPort,
        0x0C => E::JoyStickPort,
        0x0D => E::KeyboardPort,
        0x0E => E::MousePort,
        0x0F => E::SsaScsi,
        0x10 => E::Usb,
        0x11 => E::FireWire,
        0x12 => E::PcmciaType1,
        0x13 => E::PcmciaType2,
        0x14 => E::PcmciaType3,
        0x15 => E::Cardbus,
        0x16 => E::AccessBusPort,
        0x17 => E::Scsi2,
        0x18 => E::ScsiWide,
        0x19 => E::Pc98,
        0x1A => E::Pc98Hireso,
        0x1B => E::PcH98,
        0x1C => E::VideoPort,
        0x1D => E::AudioPort,
        0x1E => E::ModemPort,
        0x1F => E::NetworkPort,
        0x20 => E::Sata,
        0x21 => E::Sas,
        0x22 => E::MultiFunctionDisplayPort,
        0x23 => E::Thunderbolt,
        0xA0 => E::Intel8251Compatible,
        0xA1 => E::Intel8251FifoCompatible,
        0xFF => E::Other,
        v => E::Undefined(v),
    }
}

fn t_system_slots_slot_type(x: u8) -> dmidecode::system_slots::SlotType {
    use dmidecode::system_slots::SlotType as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Isa,
        0x04 => E::Mca,
        0x05 => E::Eisa,
        0x06 => E::Pci,
        0x07 => E::PcCard,
        0x08 => E::VlVesa,
        0x09 => E::Proprietary,
        0x0A => E::ProcessorCardSlot,
        0x0B => E::ProprietaryMemoryCardSlot,
        0x0C => E::IoRiserCardSlot,
        0x0D => E::Nubus,
        0x0E => E::Pci66Mhz,
        0x0F => E::Agp,
        0x10 => E::Agp2x,
        0x11 => E::Agp4x,
        0x12 => E::PciX,
        0x13 => E::Agp8x,
        0x14 => E::M2Socket1DP,
        0x15 => E::M2Socket1SD,
        0x16 => E::M2Socket2,
        0x17 => E::M2Socket3,
        0x18 => E::MxmType1,
        0x19 => E::MxmType2,
        0x1A => E::MxmType3,
        0x1B => E::MxmType3He,
        0x1C => E::MxmType4,
        0x1D => E::Mxm3TypeA,
        0x1E => E::Mxm3TypeB,
        0x1F => E::U2PciExpressGen2,
        0x20 => E::U2PciExpressGen3,
        0x21 => E::PciExpressMini52pin1,
        0x22 => E::PciExpressMini52pin2,
        0x23 => E::PciExpressMini76pin,
        0x24 => E::U2PciExpressGen4,
        0x25 => E::U2PciExpressGen5,
        0x26 => E::OcpNic3Small,
        0x27 => E::OcpNic3Large,
        0x28 => E::OcpNicPriorTo3,
        0x30 => E::CxlFlexbus1,
        0xA0 => E::Pc98C20,
        0xA1 => E::Pc98C24,
        0xA2 => E::Pc98E,
        0xA3 => E::Pc98LocalBus,
        0xA4 => E::Pc98Card,
        0xA5 => E::PciExpress,
        0xA6 => E::PciExpressX1,
        0xA7 => E::PciExpressX2,
        0xA8 => E::PciExpressX4,
        0xA9 => E::PciExpressX8,
        0xAA => E::PciExpressX16,
        0xAB => E::PciExpressGen2,
        0xAC => E::PciExpressGen2x1,
        0xAD => E::PciExpressGen2x2,
        0xAE => E::PciExpressGen2x4,
        0xAF => E::PciExpressGen2x8,
        0xB0 => E::PciExpressGen2x16,
        0xB1 => E::PciExpressGen3,
        0xB2 => E::PciExpressGen3x1,
        0xB3 => E::PciExpressGen3x2,
        0xB4 => E::PciExpressGen3x4,
        0xB5 => E::PciExpressGen3x8,
        0xB6 => E::PciExpressGen3x16,
        0xB8 => E::PciExpressGen4,
        0xB9 => E::PciExpressGen4x1,
        0xBA => E::PciExpressGen4x2,
        0xBB => E::PciExpressGen4x4,
        0xBC => E::PciExpressGen4x8,
        0xBD => E::PciExpressGen4x16,
        0xBE => E::PciExpressGen5,
        0xBF => E::PciExpressGen5x1,
        0xC0 => E::PciExpressGen5x2,
        0xC1 => E::PciExpressGen5x4,
        0xC2 => E::PciExpressGen5x8,
        0xC3 => E::PciExpressGen5x16,
        0xC4 => E::PciExpressGen6,
        0xC5 => E::E1FormFactorSlot,
        0xC6 => E::E3FormFactorSlot,
        v => E::Undefined(v),
    }
}

fn t_system_slots_slot_width(x: u8) -> dmidecode::system_slots::SlotWidth {
    use dmidecode::system_slots::SlotWidth as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Byte,
        0x04 => E::Word,
        0x05 => E::Dword,
        0x06 => E::Qword,
        0x07 => E::Dqword,
        0x08 => E::X1,
        0x09 => E::X2,
        0x0A => E::X4,
        0x0B => E::X8,
        0x0C => E::X12,
        0x0D => E::X16,
        0x0E => E::X32,
        v => E::Undefined(v),
    }
}

fn t_system_slots_current_usage(x: u8) -> dmidecode::system_slots::CurrentUsage {
    use dmidecode::system_slots::CurrentUsage as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Available,
        0x04 => E::InUse,
        0x05 => E::Unavailable,
        v => E::Undefined(v),
    }
}

fn t_system_slots_slot_length(x: u8) -> dmidecode::system_slots::SlotLength {
    use dmidecode::system_slots::SlotLength as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::ShortLength,
        0x04 => E::LongLength,
        0x05 => E::DriveFormFactor2_5,
        0x06 => E::DriveFormFactor3_5,
        v => E::Undefined(v),
    }
}

fn t_system_event_log_event_log_type(x: u8) -> dmidecode::system_event_log::EventLogType {
    use dmidecode::system_event_log::EventLogType as E;
    match x {
        0x00 | 0x0F => E::Reserved(x),
        0x01 => E::SingleBitEccMemoryError,
        0x02 => E::MultiBitEccMemoryError,
        0x03 => E::ParityMemoryError,
        0x04 => E::BusTimeOut,
        0x05 => E::IoChannelCheck,
        0x06 => E::SoftwareNmi,
        0x07 => E::PostMemoryResize,
        0x08 => E::PostError,
        0x09 => E::PciParityError,
        0x0A => E::PciSystemError,
        0x0B => E::CpuFailure,
        0x0C => E::EisaFailSafeTimerTimeOut,
        0x0D => E::CorrectableMemoryLogDisabled,
        0x0E => E::LoggingDisabledForSpecificEventType,
        0x10 => E::SystemLimitExceeded,
        0x11 => E::AsynchronousHardwareTimerExpired,
        0x12 => E::SystemConfigurationInformation,
        0x13 => E::HardDiskInformation,
        0x14 => E::SystemReconfigured,
        0x15 => E::UncorrectableCpuComplexError,
        0x16 => E::LogAreaReset,
        0x17 => E::SystemBoot,
        v @ 0x18..=0x7F => E::Unused(v),
        v @ 0x80..=0xFE => E::Available(v),
        0xFF => E::EndOfLog,
    }
}

fn t_system_event_log_variable_data_format_type(x: u8) -> dmidecode::system_event_log::VariableDataFormatType {
    use dmidecode::system_event_log::VariableDataFormatType as E;
    match x {
        0x00 => E::None,
        0x01 => E::Handle { handle: 0 },
        0x02 => E::MultipleEvent { counter: 0 },
        0x03 => E::MultipleEventHandle { handle: 0, counter: 0 },
        0x04 => E::PostResults((0).into()),
        0x05 => E::SystemManagementType((0xFFFF).into()),
        0x06 => E::MultipleEventSystemManagementType {
        system_management_type: (0xFFFF).into(),
        counter: 0,
        },
        v @ 0x07..=0x7F => E::Unused(v),
        v @ 0x80..=0xFF => E::OemAssigned(v),
    }
}

fn t_system_event_log_system_management_type(x: u32) -> dmidecode::system_event_log::log_record_format::SystemManagementType {
    use dmidecode::system_event_log::log_record_format::SystemManagementType as E;
    match x {
        0x00000000 => E::OutOfRangeVoltagePlus2_5Num1,
        0x00000001 => E::OutOfRangeVoltagePlus2_5Num2,
        0x00000002 => E::OutOfRangeVoltagePlus3_3,
        0x00000003 => E::OutOfRangeVoltagePlus5,
        0x00000004 => E::OutOfRangeVoltageMinus5,
        0x00000005 => E::OutOfRangeVoltagePlus12,
        0x00000006 => E::OutOfRangeVoltageMinus12,
        v @ 0x00000007..=0x0000000F => E::OutOfRangeVoltageReserved(v as u8),
        0x00000010 => E::OutOfRangeTemperatureSystemBoard,
        0x00000011 => E::OutOfRangeTemperatureProcessor1,
        0x00000012 => E::OutOfRangeTemperatureProcessor2,
        0x00000013 => E::OutOfRangeTemperatureProcessor3,
        0x00000014 => E::OutOfRangeTemperatureProcessor4,
        v @ 0x00000015..=0x1F => E::OutOfRangeTemperatureReserved(v as u8),
        v @ 0x00000020..=0x27 => E::OutOfRangeFan((v & 0b111) as u8),
        0x00000030 => E::ChassisSecureSwitchActivated,
        v @ 0x00010000..=0x0001FFFF => E::OutOfRangeSystemManagementProbe(v as u16),
        v @ 0x80000000..=0xFFFFFFFF => E::OemAssigned(v),
        v => E::Reserved(v),
    }
}

fn t_system_event_log_log_header_format(x: u8) -> dmidecode::system_event_log::LogHeaderFormat {
    use dmidecode::system_event_log::LogHeaderFormat as E;
    match x {
        0x00 => E::NoHeader,
        0x01 => E::LogHeaderType1,
        v @ 0x80..=0xFF => E::OemSpecific(v),
        v => E::Available(v),
    }
}

fn t_physical_memory_array_memory_array_location(x: u8) -> dmidecode::physical_memory_array::MemoryArrayLocation {
    use dmidecode::physical_memory_array::MemoryArrayLocation as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::SystemBoardOrMotherboard,
        4 => E::IsaAddOnCard,
        5 => E::EisaAddOnCard,
        6 => E::PciAddOnCard,
        7 => E::McaAddOnCard,
        8 => E::PcmciaAddOnCard,
        9 => E::ProprietaryAddOnCard,
        10 => E::NuBus,
        0xA0 => E::Pc98c20AddOnCard,
        0xA1 => E::Pc98c24AddOnCard,
        0xA2 => E::Pc98eAddOnCard,
        0xA3 => E::Pc98LocalBusAddOnCard,
        0xA4 => E::CxlAddOnCard,
        t => E::Undefined(t),
    }
}

fn t_physical_memory_array_memory_array_use(x: u8) -> dmidecode::physical_memory_array::MemoryArrayUse {
    use dmidecode::physical_memory_array::MemoryArrayUse as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::SystemMemory,
        4 => E::VideoMemory,
        5 => E::FlashMemory,
        6 => E::NonVolatileRam,
        7 => E::CacheMemory,
        t => E::Undefined(t),
    }
}

fn t_physical_memory_array_memory_array_error_correction_types(x: u8) -> dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes {
    use dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::None,
        4 => E::Parity,
        5 => E::SingleBitEcc,
        6 => E::MultiBitEcc,
        7 => E::CRC,
        t => E::Undefined(t),
    }
}

fn t_memory_device_error_granularity(x: u8) -> dmidecode::memory_device::ErrorGranularity {
    use dmidecode::memory_device::ErrorGranularity as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::DeviceLevel,
        4 => E::MemoryLevel,
        t => E::Undefined(t),
    }
}

fn t_memory_device_error_operation(x: u8) -> dmidecode::memory_device::ErrorOperation {
    use dmidecode::memory_device::ErrorOperation as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::Read,
        4 => E::Write,
        5 => E::PartialWrite,
        t => E::Undefined(t),
    }
}

fn t_memory_device_error_type(x: u8) -> dmidecode::memory_device::ErrorType {
    use dmidecode::memory_device::ErrorType as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::Ok,
        4 => E::BadRead,
        5 => E::Parity,
        6 => E::SingleBit,
        7 => E::DoubleBit,
        8 => E::MultiBit,
        9 => E::Nibble,
        10 => E::Checksum,
        11 => E::Crc,
        12 => E::CorrectedSingleBit,
        13 => E::Corrected,
        14 => E::Uncorrectable,
        t => E::Undefined(t),
    }
}

fn t_memory_device_form_factor(x: u8) -> dmidecode::memory_device::FormFactor {
    use dmidecode::memory_device::FormFactor as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::Simm,
        4 => E::Sip,
        5 => E::Chip,
        6 => E::Dip,
        7 => E::Zip,
        8 => E::ProprietaryCard,
        9 => E::Dimm,
        10 => E::Tsop,
        11 => E::RowOfChips,
        12 => E::Rimm,
        13 => E::SoDimm,
        14 => E::Srimm,
        15 => E::FbDimm,
        t => E::Undefined(t),
    }
}

fn t_memory_device_memory_technology(x: u8) -> dmidecode::memory_device::MemoryTechnology {
    use dmidecode::memory_device::MemoryTechnology as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::Dram,
        4 => E::NvDimmN,
        5 => E::NvDimmF,
        6 => E::NvDimmP,
        7 => E::IntelOptane,
        t => E::Undefined(t),
    }
}

fn t_memory_device_type(x: u8) -> dmidecode::memory_device::Type {
    use dmidecode::memory_device::Type as E;
    match x {
        1 => E::Other,
        2 => E::Unknown,
        3 => E::Dram,
        4 => E::Edram,
        5 => E::Vram,
        6 => E::Sram,
        7 => E::Ram,
        8 => E::Rom,
        9 => E::Flash,
        10 => E::Eeprom,
        11 => E::Feprom,
        12 => E::Eprom,
        13 => E::Cdram,
        14 => E::ThreeDram,
        15 => E::Sdram,
        16 => E::Sgram,
        17 => E::Rdram,
        18 => E::Ddr,
        19 => E::Ddr2,
        20 => E::Ddr2FbDimm,
        21 => E::Reserved,
        22 => E::Reserved,
        23 => E::Reserved,
        24 => E::Ddr3,
        25 => E::Fbd2,
        26 => E::Ddr4,
        27 => E::LpDdr,
        28 => E::LpDdr2,
        29 => E::LpDdr3,
        30 => E::LpDdr4,
        31 => E::LogicalNonVolatileDevice,
        32 => E::Hbm,
        33 => E::Hbm2,
        34 => E::Ddr5,
        35 => E::LpDdr5,
        t => E::Undefined(t),
    }
}

fn t_memory_error_32_error_type(x: u8) -> dmidecode::memory_error_32::ErrorType {
    use dmidecode::memory_error_32::ErrorType as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Ok,
        0x04 => E::BadRead,
        0x05 => E::ParityError,
        0x06 => E::SingleBitError,
        0x07 => E::DoubleBitError,
        0x08 => E::MultiBitError,
        0x09 => E::NibbleError,
        0x0a => E::ChecksumError,
        0x0b => E::CrcError,
        0x0c => E::CorrectedSingleBitError,
        0x0d => E::CorrectedError,
        0x0e => E::UncorrectableError,
        v => E::Undefined(v),
    }
}

fn t_memory_error_32_error_granularity(x: u8) -> dmidecode::memory_error_32::ErrorGranularity {
    use dmidecode::memory_error_32::ErrorGranularity as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::DeviceLevel,
        0x04 => E::MemoryPartitionLevel,
        v => E::Undefined(v),
    }
}

fn t_memory_error_32_error_operation(x: u8) -> dmidecode::memory_error_32::ErrorOperation {
    use dmidecode::memory_error_32::ErrorOperation as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Read,
        0x04 => E::Write,
        0x05 => E::PartialWrite,
        v => E::Undefined(v),
    }
}

fn t_built_in_pointing_device_type(x: u8) -> dmidecode::built_in_pointing_device::Type {
    use dmidecode::built_in_pointing_device::Type as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Mouse,
        0x04 => E::TrackBall,
        0x05 => E::TrackPoint,
        0x06 => E::GlidePoint,
        0x07 => E::TouchPad,
        0x08 => E::TouchScreen,
        0x09 => E::OpticalSensor,
        v => E::Undefined(v),
    }
}

fn t_built_in_pointing_device_interface(x: u8) -> dmidecode::built_in_pointing_device::Interface {
    use dmidecode::built_in_pointing_device::Interface as E;
    match x {
        0x01 => E::Other,
        0x02 => E::Unknown,
        0x03 => E::Serial,
        0x04 => E::Ps2,
        0x05 => E::Infrared,
        0x06 => E::HpHil,
        0x07 => E::BusMouse,
        0x08 => E::Adb,
        0xA0 => E::BusMouseDb9,
        0xA1 => E::BusMouseMicroDin,
        0xA2 => E::Usb,
        v => E::Undefined(v),
    }
}

contracts! {
    /// The enumerations of info_type
    fn c15_info_type() {
        {
            let x: u8 = any();
            ensures!("C15.info_type.InfoType", dmidecode::InfoType::from(x) == t_info_type(x));
        }
    }

    /// The enumerations of system
    fn c15_system() {
        {
            let x: u8 = any();
            ensures!("C15.system.WakeupType", dmidecode::system::WakeupType::from(x) == t_system_wakeup_type(x));
        }
    }

    /// The enumerations of baseboard
    fn c15_baseboard() {
        {
            let x: u8 = any();
            ensures!("C15.baseboard.BoardType", dmidecode::baseboard::BoardType::from(x) == t_baseboard_board_type(x));
        }
    }

    /// The enumerations of enclosure
    fn c15_enclosure() {
        {
            let x: u8 = any();
            ensures!("C15.enclosure.EnclosureType", dmidecode::enclosure::EnclosureType::from(x) == t_enclosure_enclosure_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.enclosure.State", dmidecode::enclosure::State::from(x) == t_enclosure_state(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.enclosure.SecurityStatus", dmidecode::enclosure::SecurityStatus::from(x) == t_enclosure_security_status(x));
        }
        {
            use dmidecode::enclosure::ContainedElementType as T;
            let x: u8 = any();
            ensures!("C15.enclosure.ContainedElementType", T::from(x) == if x < 0x80 {
                T::BoardType(t_baseboard_board_type(x))
            } else {
                T::InfoType(t_info_type(x - 0x80))
            });
        }
    }

    /// The enumerations of processor
    fn c15_processor() {
        {
            let x: u8 = any();
            ensures!("C15.processor.ProcessorType", dmidecode::processor::ProcessorType::from(x) == t_processor_processor_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.processor.ProcessorFamily_byte", dmidecode::processor::ProcessorFamily::from(x) == t_processor_processor_family(x as u16));
        }
        {
            let x: u16 = any();
            ensures!("C15.processor.ProcessorFamily", dmidecode::processor::ProcessorFamily::from(x) == t_processor_processor_family(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.processor.ProcessorUpgrade", dmidecode::processor::ProcessorUpgrade::from(x) == t_processor_processor_upgrade(x));
        }
    }

    /// The enumerations of cache
    fn c15_cache() {
        {
            let x: u16 = any();
            // only codes within the bits of the field are converted
            if let Some(e) = t_cache_cache_level(x) {
                ensures!("C15.cache.CacheLevel", dmidecode::cache::CacheLevel::from(x) == e);
            }
        }
        {
            let x: u16 = any();
            // only codes within the bits of the field are converted
            if let Some(e) = t_cache_cache_location(x) {
                ensures!("C15.cache.CacheLocation", dmidecode::cache::CacheLocation::from(x) == e);
            }
        }
        {
            let x: u16 = any();
            // only codes within the bits of the field are converted
            if let Some(e) = t_cache_cache_operational_mode(x) {
                ensures!("C15.cache.CacheOperationalMode", dmidecode::cache::CacheOperationalMode::from(x) == e);
            }
        }
        {
            let x: u8 = any();
            ensures!("C15.cache.CacheErrorCorrectionType", dmidecode::cache::CacheErrorCorrectionType::from(x) == t_cache_cache_error_correction_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.cache.SystemCacheType", dmidecode::cache::SystemCacheType::from(x) == t_cache_system_cache_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.cache.CacheAssociativity", dmidecode::cache::CacheAssociativity::from(x) == t_cache_cache_associativity(x));
        }
    }

    /// The enumerations of port_connector
    fn c15_port_connector() {
        {
            let x: u8 = any();
            ensures!("C15.port_connector.ConnectorType", dmidecode::port_connector::ConnectorType::from(x) == t_port_connector_connector_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.port_connector.PortType", dmidecode::port_connector::PortType::from(x) == t_port_connector_port_type(x));
        }
    }

    /// The enumerations of system_slots
    fn c15_system_slots() {
        {
            let x: u8 = any();
            ensures!("C15.system_slots.SlotType", dmidecode::system_slots::SlotType::from(x) == t_system_slots_slot_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.system_slots.SlotWidth", dmidecode::system_slots::SlotWidth::from(x) == t_system_slots_slot_width(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.system_slots.CurrentUsage", dmidecode::system_slots::CurrentUsage::from(x) == t_system_slots_current_usage(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.system_slots.SlotLength", dmidecode::system_slots::SlotLength::from(x) == t_system_slots_slot_length(x));
        }
    }

    /// The enumerations of system_event_log
    fn c15_system_event_log() {
        {
            let x: u8 = any();
            ensures!("C15.system_event_log.EventLogType", dmidecode::system_event_log::EventLogType::from(x) == t_system_event_log_event_log_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.system_event_log.VariableDataFormatType", dmidecode::system_event_log::VariableDataFormatType::from(x) == t_system_event_log_variable_data_format_type(x));
        }
        {
            let x: u32 = any();
            ensures!("C15.system_event_log.SystemManagementType", dmidecode::system_event_log::log_record_format::SystemManagementType::from(x) == t_system_event_log_system_management_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.system_event_log.LogHeaderFormat", dmidecode::system_event_log::LogHeaderFormat::from(x) == t_system_event_log_log_header_format(x));
        }
    }

    /// The enumerations of physical_memory_array
    fn c15_physical_memory_array() {
        {
            let x: u8 = any();
            ensures!("C15.physical_memory_array.MemoryArrayLocation", dmidecode::physical_memory_array::MemoryArrayLocation::from(x) == t_physical_memory_array_memory_array_location(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.physical_memory_array.MemoryArrayUse", dmidecode::physical_memory_array::MemoryArrayUse::from(x) == t_physical_memory_array_memory_array_use(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.physical_memory_array.MemoryArrayErrorCorrectionTypes", dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes::from(x) == t_physical_memory_array_memory_array_error_correction_types(x));
        }
    }

    /// The enumerations of memory_device
    fn c15_memory_device() {
        {
            let x: u8 = any();
            ensures!("C15.memory_device.ErrorGranularity", dmidecode::memory_device::ErrorGranularity::from(x) == t_memory_device_error_granularity(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_device.ErrorOperation", dmidecode::memory_device::ErrorOperation::from(x) == t_memory_device_error_operation(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_device.ErrorType", dmidecode::memory_device::ErrorType::from(x) == t_memory_device_error_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_device.FormFactor", dmidecode::memory_device::FormFactor::from(x) == t_memory_device_form_factor(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_device.MemoryTechnology", dmidecode::memory_device::MemoryTechnology::from(x) == t_memory_device_memory_technology(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_device.Type", dmidecode::memory_device::Type::from(x) == t_memory_device_type(x));
        }
    }

    /// The enumerations of memory_error_32
    fn c15_memory_error_32() {
        {
            let x: u8 = any();
            ensures!("C15.memory_error_32.ErrorType", dmidecode::memory_error_32::ErrorType::from(x) == t_memory_error_32_error_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_error_32.ErrorGranularity", dmidecode::memory_error_32::ErrorGranularity::from(x) == t_memory_error_32_error_granularity(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.memory_error_32.ErrorOperation", dmidecode::memory_error_32::ErrorOperation::from(x) == t_memory_error_32_error_operation(x));
        }
    }

    /// The enumerations of built_in_pointing_device
    fn c15_built_in_pointing_device() {
        {
            let x: u8 = any();
            ensures!("C15.built_in_pointing_device.Type", dmidecode::built_in_pointing_device::Type::from(x) == t_built_in_pointing_device_type(x));
        }
        {
            let x: u8 = any();
            ensures!("C15.built_in_pointing_device.Interface", dmidecode::built_in_pointing_device::Interface::from(x) == t_built_in_pointing_device_interface(x));
        }
    }

}
