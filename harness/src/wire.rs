//! Minimal independent protobuf writer (used to build file descriptors and to craft inputs).
pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn key(num: u32, wt: u8, out: &mut Vec<u8>) {
    varint(((num as u64) << 3) | wt as u64, out);
}
pub fn put_int(num: u32, v: i64, out: &mut Vec<u8>) {
    key(num, 0, out);
    varint(v as u64, out);
}
pub fn put_bytes(num: u32, v: &[u8], out: &mut Vec<u8>) {
    key(num, 2, out);
    varint(v.len() as u64, out);
    out.extend_from_slice(v);
}
pub fn put_str(num: u32, v: &str, out: &mut Vec<u8>) {
    put_bytes(num, v.as_bytes(), out);
}
