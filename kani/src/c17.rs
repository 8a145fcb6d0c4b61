//! C17: conversions to and from raw bytes are inverse.
use crate::rt::*;
use crate::*;
use dmidecode::system_event_log::*;
use dmidecode::system_slots::*;

contracts! {
    /// EventLogType, VariableDataFormatType, EventLogTypeDescriptor
    fn c17_event_log() {
        let a: u8 = any();
        let b: u8 = any();
        let t = EventLogType::from(a);
        ensures!("C17.event_log_type.byte", u8::from(t) == a);
        ensures!("C17.event_log_type.back", EventLogType::from(u8::from(t)) == t);
        let f = VariableDataFormatType::from(b);
        ensures!("C17.variable_data.byte", u8::from(f) == b);
        ensures!("C17.variable_data.back", VariableDataFormatType::from(u8::from(f)) == f);
        let d = EventLogTypeDescriptor::from([a, b]);
        ensures!("C17.descriptor.parts", d.log_type == t && d.variable_data_format_type == f);
        ensures!("C17.descriptor.bytes", <[u8; 2]>::from(d) == [a, b]);
        ensures!("C17.descriptor.back", EventLogTypeDescriptor::from(<[u8; 2]>::from(d)) == d);
    }

    /// AccessMethod
    fn c17_access_method() {
        let method: u8 = any();
        let address: u32 = any();
        let m = AccessMethod::new(method, address);
        let mask: u32 = match method {
            0 => 0x00FF_00FF,
            1 | 2 => 0x00FF_FFFF,
            4 => 0x0000_FFFF,
            _ => 0xFFFF_FFFF,
        };
        ensures!("C17.access_method.address", m.address() == address & mask);
        let b = address.to_le_bytes();
        ensures!("C17.access_method.type", match m {
            AccessMethod::IndexedIoOne8bitIndexOne8bitData { index, data } => method == 0 && index == b[0] && data == b[2],
            AccessMethod::IndexedIoTwo8bitIndexOne8bitData { index, data } => method == 1 && index == [b[0], b[1]] && data == b[2],
            AccessMethod::IndexedIoOne16bitIndexOne8bitData { index, data } =>
                method == 2 && index == address as u16 && data == b[2],
            AccessMethod::MemoryMappedPhysicaAddress { physical_address } => method == 3 && physical_address == address,
            AccessMethod::GeneralPurposeNonVolatileData { gpnv_handle } => method == 4 && gpnv_handle == address as u16,
            AccessMethod::Available { method: m, address: a } => method > 4 && method < 0x80 && m == method && a == address,
            AccessMethod::OemSpecific { method: m, address: a } => method >= 0x80 && m == method && a == address,
        });
    }

    /// Device, DeviceAndFunctionNumber
    #[unwind(7)]
    fn c17_device() {
        let b: [u8; 5] = any();
        let d = Device::from(&b[..]);
        ensures!("C17.device.segment", d.segment_group_number == b[0] as u16 | (b[1] as u16) << 8);
        ensures!("C17.device.bus", d.bus_number == b[2]);
        ensures!("C17.device.width", d.data_bus_width == b[4]);
        ensures!("C17.device.number", u8::from(d.device_and_function_number) == b[3]);
        ensures!("C17.device.bytes", <[u8; 5]>::from(&d) == b);
        ensures!("C17.device.back", Device::from(&<[u8; 5]>::from(&d)[..]) == d);
        let n = DeviceAndFunctionNumber::from(b[3]);
        ensures!("C17.device_function.byte", u8::from(n) == b[3]);
        ensures!("C17.device_function.back", DeviceAndFunctionNumber::from(u8::from(n)) == n);
    }
}
