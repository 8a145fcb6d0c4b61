#![allow(dead_code)]
use dmidecode::*;
pub fn entry2(major: u8, minor: u8, len: u16) -> Vec<u8> {
    let mut e = vec![0u8; 0x1F];
    e[..4].copy_from_slice(b"_SM_");
    e[5] = 0x1F;
    e[6] = major;
    e[7] = minor;
    e[0x10..0x15].copy_from_slice(b"_DMI_");
    e[0x16..0x18].copy_from_slice(&len.to_le_bytes());
    fix(&mut e, 4);
    e
}
pub fn entry3(major: u8, minor: u8, len: u32) -> Vec<u8> {
    let mut e = vec![0u8; 0x18];
    e[..5].copy_from_slice(b"_SM3_");
    e[6] = 0x18;
    e[7] = major;
    e[8] = minor;
    e[0x0C..0x10].copy_from_slice(&len.to_le_bytes());
    fix(&mut e, 5);
    e
}
pub fn fix(e: &mut [u8], at: usize) {
    e[at] = 0;
    let s = e.iter().fold(0u8, |a, b| a.wrapping_add(*b));
    e[at] = 0u8.wrapping_sub(s);
}
/// One structure: type, handle, formatted section behind the header, strings
pub fn st(kind: u8, handle: u16, data: &[u8], strings: &[&[u8]]) -> Vec<u8> {
    let mut b = vec![kind, data.len() as u8 + 4, handle as u8, (handle >> 8) as u8];
    b.extend_from_slice(data);
    for s in strings {
        b.extend_from_slice(s);
        b.push(0);
    }
    if strings.is_empty() {
        b.push(0);
    }
    b.push(0);
    b
}
pub fn end() -> Vec<u8> {
    st(127, 0xFFFF, &[], &[])
}
/// The structures of a table at a version
pub fn decode(major: u8, minor: u8, table: Vec<u8>) -> Vec<Result<Structure<'static>, MalformedStructureError>> {
    let e = if major == 2 { entry2(major, minor, table.len() as u16) } else { entry3(major, minor, table.len() as u32) };
    let table: &'static [u8] = Box::leak(table.into_boxed_slice());
    EntryPoint::search(&e).unwrap().structures(table).take(10_000).collect()
}
/// The first structure of a table holding it and the end marker
pub fn one(major: u8, minor: u8, s: Vec<u8>) -> Result<Structure<'static>, MalformedStructureError> {
    decode(major, minor, [s, end()].concat()).into_iter().next().unwrap()
}
