//! The layouts of the bit fields as the specification defines them: frozen here, not read from /repo.
use dmidecode::bitfield::{BitField, Layout};

pub fn actual() -> Vec<(&'static str, Layout<'static>)> {
    use dmidecode::*;
    vec![
        ("bios.characteristics", <bios::Characteristics as BitField>::LAYOUT),
        ("bios.extension1", <bios::CharacteristicsExtension1 as BitField>::LAYOUT),
        ("bios.extension2", <bios::CharacteristicsExtension2 as BitField>::LAYOUT),
        ("slots.characteristics1", <system_slots::SlotCharacteristics1 as BitField>::LAYOUT),
        ("slots.characteristics2", <system_slots::SlotCharacteristics2 as BitField>::LAYOUT),
        ("language.flags", <bios_language::LanguageFlags as BitField>::LAYOUT),
        ("event_log.status", <system_event_log::LogStatus as BitField>::LAYOUT),
        ("event_log.post_results", <system_event_log::log_record_format::PostResults as BitField>::LAYOUT),
    ]
}
pub const LAYOUTS: &[(&str, &[(char, &str)])] = &[
    ("bios.characteristics", &[
        ('S', "Reserved"),
        ('S', "Reserved"),
        ('S', "Unknown"),
        ('S', "BIOS characteristics not supported"),
        ('S', "ISA is supported"),
        ('S', "MCA is supported"),
        ('S', "EISA is supported"),
        ('S', "PCI is supported"),
        ('S', "PC card (PCMCIA) is supported"),
        ('S', "PNP is supported"),
        ('S', "APM is supported"),
        ('S', "BIOS is upgradeable"),
        ('S', "BIOS shadowing is allowed"),
        ('S', "VLB is supported"),
        ('S', "ESCD support is available"),
        ('S', "Boot from CD is supported"),
        ('S', "Selectable boot is supported"),
        ('S', "BIOS ROM is socketed"),
        ('S', "Boot from PC card (PCMCIA) is supported"),
        ('S', "EDD is supported"),
        ('S', "Japanese floppy for NEC 9800 1.2 MB is supported (int 13h)"),
        ('S', "Japanese floppy for Toshiba 1.2 MB is supported (int 13h)"),
        ('S', "5.25\"/360 kB floppy services are supported (int 13h)"),
        ('S', "5.25\"/1.2 MB floppy services are supported (int 13h)"),
        ('S', "3.5\"/720 kB floppy services are supported (int 13h)"),
        ('S', "3.5\"/2.88 MB floppy services are supported (int 13h)"),
        ('S', "Print screen service is supported (int 5h)"),
        ('S', "8042 keyboard services are supported (int 9h)"),
        ('S', "Serial services are supported (int 14h)"),
        ('S', "Printer services are supported (int 17h)"),
        ('S', "CGA/mono video services are supported (int 10h)"),
        ('S', "NEC PC-98"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for BIOS vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
        ('R', "Reserved for system vendor"),
    ]),
    ("bios.extension1", &[
        ('S', "ACPI is supported"),
        ('S', "USB legacy is supported"),
        ('S', "AGP is supported"),
        ('S', "I2O boot is supported"),
        ('S', "LS-120 SuperDisk boot is supported"),
        ('S', "ATAPI ZIP drive boot is supported"),
        ('S', "IEEE 1394 boot is supported"),
        ('S', "Smart battery is supported"),
    ]),
    ("bios.extension2", &[
        ('S', "BIOS boot specification is supported"),
        ('S', "Function key-initiated network boot is supported"),
        ('S', "Targeted content distribution is supported"),
        ('S', "UEFI is supported"),
        ('S', "System is a virtual machine"),
        ('R', "Reserved for future assignment"),
        ('R', "Reserved for future assignment"),
        ('R', "Reserved for future assignment"),
    ]),
    ("slots.characteristics1", &[
        ('S', "Characteristics unknown"),
        ('S', "5.0 V is provided"),
        ('S', "3.3 V is provided"),
        ('S', "Opening is shared"),
        ('S', "PC Card-16 is supported"),
        ('S', "Cardbus is supported"),
        ('S', "Zoom Video is supported"),
        ('S', "Modem ring resume is supported"),
    ]),
    ("slots.characteristics2", &[
        ('S', "PME signal is supported"),
        ('S', "Hot-plug devices are supported"),
        ('S', "SMBus signal is supported"),
        ('S', "PCIe slot bifurcation is supported"),
        ('S', "Async/surprise removal is supported"),
        ('S', "Flexbus slot, CXL 1.0 capable"),
        ('S', "Flexbus slot, CXL 2.0 capable"),
        ('R', "Reserved"),
    ]),
    ("language.flags", &[
        ('S', "Current Language strings use the abbreviated format"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
    ]),
    ("event_log.status", &[
        ('S', "Valid"),
        ('S', "Full"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
    ]),
    ("event_log.post_results", &[
        ('S', "Channel 2 Timer error"),
        ('S', "Primary PIC (8259 #1) error"),
        ('S', "Secondary PIC (8259 #2) error"),
        ('S', "CMOS RAM Battery Failure"),
        ('S', "CMOS RAM System Options Not Set"),
        ('S', "CMOS RAM Checksum Error"),
        ('S', "CMOS RAM Configuration Error"),
        ('S', "Mouse and Keyboard Swapped"),
        ('S', "Keyboard Locked"),
        ('S', "Keyboard Not Functional"),
        ('S', "Keyboard Controller Not Functional"),
        ('S', "CMOS Memory Size Different"),
        ('S', "Memory Decreased in Size"),
        ('S', "Cache Memory Error"),
        ('S', "Floppy Drive 0 Error"),
        ('S', "Floppy Drive 1 Error"),
        ('S', "Floppy Controller Failure"),
        ('S', "Number of ATA Drives Reduced Error"),
        ('S', "RTC Time Not Set"),
        ('S', "DDC Monitor Configuration Change"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('S', "Second DWORD has valid data"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Reserved"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('R', "Available for OEM assignment"),
        ('S', "PCI Memory Conflict"),
        ('S', "PCI I/O Conflict"),
        ('S', "PCI IRQ Conflict"),
        ('S', "PNP Memory Conflict"),
        ('S', "PNP 32 bit Memory Conflict"),
        ('S', "PNP I/O Conflict"),
        ('S', "PNP IRQ Conflict"),
        ('S', "PNP DMA Conflict"),
        ('S', "Bad PNP Serial ID Checksum"),
        ('S', "Bad PNP Resource Data Checksum"),
        ('S', "Static Resource Conflict"),
        ('S', "NVRAM Checksum Error, NVRAM Cleared"),
        ('S', "System Board Device Resource Conflict"),
        ('S', "Primary Output Device Not Found"),
        ('S', "Primary Input Device Not Found"),
        ('S', "Primary Boot Device Not Found"),
        ('S', "NVRAM Cleared By Jumper"),
        ('S', "NVRAM Data Invalid, NVRAM Cleared"),
        ('S', "FDC Resource Conflict"),
        ('S', "Primary ATA Controller Resource Conflict"),
        ('S', "Secondary ATA Controller Resource Conflict"),
        ('S', "Parallel Port Resource Conflict"),
        ('S', "Serial Port 1 Resource Conflict"),
        ('S', "Serial Port 2 Resource Conflict"),
        ('S', "Audio Resource Conflict"),
    ]),
];
