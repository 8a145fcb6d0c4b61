//! C11: Baseboard, Enclosure and Port Connector decode by section length.
use crate::common::*;
use crate::*;
use dmidecode::baseboard::*;
use dmidecode::enclosure::*;
use dmidecode::port_connector::*;
use crate::hooks;
use dmidecode::*;

contracts! {
    /// BaseBoard::try_from
    #[unwind(12)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c11_baseboard() {
        let i = In::any(InfoType::BaseBoard);
        let base = i.strings_ok([0x04, 0x05, 0x06, 0x07]);
        let asset = i.has(0x08, 1);
        let location = i.has(0x0A, 1);
        match hooks::baseboard(i.raw()) {
            Ok(x) => {
                reachable!("baseboard min", i.len == 8);
                reachable!("baseboard max", i.len == 255);
                ensures!("C11.baseboard.length_accepted", i.len >= 0x08);
                ensures!("C11.baseboard.handle", x.handle == i.h);
                ensures!("C11.baseboard.manufacturer", i.s(x.manufacturer, 0x04));
                ensures!("C11.baseboard.product", i.s(x.product, 0x05));
                ensures!("C11.baseboard.version", i.s(x.version, 0x06));
                ensures!("C11.baseboard.serial", i.s(x.serial, 0x07));
                ensures!("C11.baseboard.asset", if asset { i.os(x.asset, 0x08) } else { x.asset.is_none() });
                ensures!("C11.baseboard.flags", x.feature_flags.map(|f| f.bits()) == i.o8(0x09).map(|b| b & 0x1F));
                ensures!("C11.baseboard.location", if location { i.os(x.location_in_chassis, 0x0A) } else { x.location_in_chassis.is_none() });
                ensures!("C11.baseboard.chassis_handle", x.chassis_handle == i.o16(0x0B));
                ensures!("C11.baseboard.board_type", x.board_type == i.o8(0x0D).map(BoardType::from));
            }
            Err(e) => {
                reachable!("baseboard short", i.len < 8);
                reachable!("baseboard string", i.len >= 8);
                ensures!("C11.baseboard.error", if i.len < 0x08 { i.bad_length(&e) } else {
                    !(base && (!asset || i.strings_ok([0x08])) && (!location || i.strings_ok([0x0A])))
                        && i.bad_string(&e, [0x04, 0x05, 0x06, 0x07, 0x08, 0x0A]) });
            }
        }
    }

    /// Enclosure::try_from and ContainedElements::new
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c11_enclosure() {
        let i = In::any(InfoType::Enclosure);
        let base = i.strings_ok([0x04, 0x06, 0x07, 0x08]);
        // Contained elements: count, record length, records
        let (n, m) = (i.u8(0x13), i.u8(0x14));
        let size = n as usize * m as usize;
        let elements = i.has(0x13, 2) && i.has(0x15, size);
        let sku = elements && i.has(0x15 + size, 1);
        match hooks::enclosure(i.raw()) {
            Ok(x) => {
                reachable!("enclosure min", i.len == 9);
                reachable!("enclosure sku", sku && size > 0);
                reachable!("enclosure large elements", i.has(0x13, 2) && size > 255);
                ensures!("C11.enclosure.length_accepted", i.len >= 0x09);
                ensures!("C11.enclosure.handle", x.handle == i.h);
                ensures!("C11.enclosure.manufacturer", i.s(x.manufacturer, 0x04));
                ensures!("C11.enclosure.lock", x.chassis_lock == (i.u8(0x05) >= 0x80));
                ensures!("C11.enclosure.type", x.enclosure_type == EnclosureType::from(i.u8(0x05) & 0x7F));
                ensures!("C11.enclosure.version", i.s(x.version, 0x06));
                ensures!("C11.enclosure.serial", i.s(x.serial_number, 0x07));
                ensures!("C11.enclosure.asset", i.s(x.asset_tag_number, 0x08));
                ensures!("C11.enclosure.boot_up_state", x.boot_up_state == i.o8(0x09).map(State::from));
                ensures!("C11.enclosure.power_supply_state", x.power_supply_state == i.o8(0x0A).map(State::from));
                ensures!("C11.enclosure.thermal_state", x.thermal_state == i.o8(0x0B).map(State::from));
                ensures!("C11.enclosure.security_status", x.security_status == i.o8(0x0C).map(SecurityStatus::from));
                ensures!("C11.enclosure.oem_defined", x.oem_defined == i.o32(0x0D));
                ensures!("C11.enclosure.height", x.height == i.o8(0x11));
                ensures!("C11.enclosure.power_cords", x.power_cords_number == i.o8(0x12));
                ensures!("C11.enclosure.contained_elements", x.contained_elements.is_some() == elements);
                if let Some(e) = &x.contained_elements {
                    ensures!("C11.enclosure.contained_count", e.count() == n);
                }
                ensures!("C11.enclosure.sku", if sku { i.os(x.sku_number, 0x15 + size) } else { x.sku_number.is_none() });
            }
            Err(e) => {
                reachable!("enclosure short", i.len < 9);
                reachable!("enclosure string", i.len >= 9);
                ensures!("C11.enclosure.error", if i.len < 0x09 { i.bad_length(&e) } else {
                    !(base && (!sku || i.strings_ok([0x15 + size])))
                        && (i.bad_string(&e, [0x04, 0x06, 0x07, 0x08]) || sku && i.bad_string(&e, [0x15 + size])) });
            }
        }
    }

    /// PortConnector::try_from
    #[unwind(9)]
    #[stub(dmidecode::RawStructure::find_string, crate::common::find_string_contract)]
    fn c11_port_connector() {
        let i = In::any(InfoType::PortConnector);
        let ok = i.strings_ok([0x04, 0x06]);
        match hooks::port_connector(i.raw()) {
            Ok(x) => {
                reachable!("port ok", true);
                ensures!("C11.port.length_accepted", i.len >= 0x09);
                ensures!("C11.port.handle", x.handle == i.h);
                ensures!("C11.port.internal", i.s(x.internal_reference_designator, 0x04));
                ensures!("C11.port.internal_type", x.internal_connector_type == ConnectorType::from(i.u8(0x05)));
                ensures!("C11.port.external", i.s(x.external_reference_designator, 0x06));
                ensures!("C11.port.external_type", x.external_connector_type == ConnectorType::from(i.u8(0x07)));
                ensures!("C11.port.port_type", x.port_type == PortType::from(i.u8(0x08)));
            }
            Err(e) => {
                reachable!("port short", i.len < 9);
                reachable!("port string", i.len >= 9);
                ensures!("C11.port.error", if i.len < 0x09 { i.bad_length(&e) } else { !ok && i.bad_string(&e, [0x04, 0x06]) });
            }
        }
    }
}
