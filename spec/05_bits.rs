// ---------------------------------------------------- machine arithmetic (proved by bit blasting)
pub broadcast proof fn bv1(x: u32) ensures #[trigger] (x & 0x7Fu32) == x % 128 { assert(x & 0x7Fu32 == x % 128) by (bit_vector); }
pub broadcast proof fn bv2(x: u32) ensures (#[trigger] (x & 0x80u32) == 0) == (x % 256 < 128) { assert((x & 0x80u32 == 0) == (x % 256 < 128)) by (bit_vector); }
pub broadcast proof fn bv3(x: u8) ensures #[trigger] (x & 0x7Fu8) == x % 128 { assert(x & 0x7Fu8 == x % 128) by (bit_vector); }
pub broadcast proof fn bv4(x: u8) ensures (#[trigger] (x & 0x80u8) != 0) == (x >= 128), #[trigger] (x & 0x80u8) == 0 || #[trigger] (x & 0x80u8) == 128 { assert((x & 0x80u8 != 0) == (x >= 128)) by (bit_vector); assert((x & 0x80u8) == 0 || (x & 0x80u8) == 128) by (bit_vector); }
pub broadcast proof fn bv5(x: u16) ensures #[trigger] (x << 8u16) == (x % 256) * 256 { assert((x << 8u16) == (x % 256) * 256) by (bit_vector); }
pub broadcast proof fn bv6(x: u32) ensures #[trigger] (x << 24u32) == (x % 256) * 16777216, { assert((x << 24u32) == (x % 256) * 16777216) by (bit_vector); }
pub broadcast proof fn bv7(x: u32) ensures #[trigger] (x << 16u32) == (x % 65536) * 65536, { assert((x << 16u32) == (x % 65536) * 65536) by (bit_vector); }
pub broadcast proof fn bv8(x: u32) ensures #[trigger] (x << 8u32) == (x % 16777216) * 256, { assert((x << 8u32) == (x % 16777216) * 256) by (bit_vector); }
pub broadcast proof fn bv9(x: u16) ensures #[trigger] (x >> 8u16) == x / 256 { assert((x >> 8u16) == x / 256) by (bit_vector); }
pub broadcast proof fn bv10(x: u32) ensures #[trigger] (x >> 24u32) == x / 16777216 { assert((x >> 24u32) == x / 16777216) by (bit_vector); }
pub broadcast proof fn bv11(x: u32) ensures #[trigger] (x >> 16u32) == x / 65536 { assert((x >> 16u32) == x / 65536) by (bit_vector); }
pub broadcast proof fn bv12(x: u32) ensures #[trigger] (x >> 8u32) == x / 256 { assert((x >> 8u32) == x / 256) by (bit_vector); }
pub broadcast proof fn bv13(x: u32) requires x < 128 ensures #[trigger] (x | 0x80u32) == x + 128 { assert(x < 128 ==> (x | 0x80u32) == x + 128) by (bit_vector); }
pub broadcast proof fn bv14(x: u16) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn bv15(x: u32) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn bv15b(x: u32) ensures #[trigger] (x as u16) == x % 65536 { assert((x as u16) == x % 65536) by (bit_vector); }
pub broadcast proof fn bv16(x: usize) ensures #[trigger] (x as u32) == x % 4294967296 { assert((x as u32) == x % 4294967296) by (bit_vector); }
pub broadcast proof fn bv17(x: usize) ensures #[trigger] (x as u16) == x % 65536 { assert((x as u16) == x % 65536) by (bit_vector); }
pub broadcast proof fn bv18(x: u8) requires x < 128 ensures #[trigger] (x | 0x80u8) == x + 128 { assert(x < 128 ==> (x | 0x80u8) == x + 128) by (bit_vector); }
pub broadcast proof fn bv19(x: u8) ensures #[trigger] (x >> 4u8) == x / 16 { assert((x >> 4u8) == x / 16) by (bit_vector); }
pub broadcast proof fn bv20(x: u8) ensures #[trigger] (x & 0x0Fu8) == x % 16 { assert((x & 0x0Fu8) == x % 16) by (bit_vector); }
pub broadcast proof fn bv21(x: u8) ensures #[trigger] (x & 1u8) == x % 2 { assert((x & 1u8) == x % 2) by (bit_vector); }
pub broadcast proof fn bv22(x: u8) ensures #[trigger] (x & 6u8) == ((x / 2) % 4) * 2 { assert((x & 6u8) == ((x / 2) % 4) * 2) by (bit_vector); }
pub broadcast proof fn bv23(x: u8) ensures #[trigger] (x & 8u8) == ((x / 8) % 2) * 8 { assert((x & 8u8) == ((x / 8) % 2) * 8) by (bit_vector); }
pub broadcast proof fn bv24(x: u8) ensures #[trigger] (x >> 1u8) == x / 2 { assert((x >> 1u8) == x / 2) by (bit_vector); }
pub broadcast proof fn bv25(x: u8) ensures #[trigger] (x << 1u8) == (x % 128) * 2 { assert((x << 1u8) == (x % 128) * 2) by (bit_vector); }
pub broadcast proof fn bv26(x: u8) ensures #[trigger] (x << 3u8) == (x % 32) * 8 { assert((x << 3u8) == (x % 32) * 8) by (bit_vector); }
pub broadcast proof fn bv_or(x: u8, y: u8) ensures
    #![trigger (x | y)]
    ((x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y) && ((x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y) && ((x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y) && ((x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y) && ((x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y) && ((x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y) && ((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y)
{ assert(((x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y) && ((x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y) && ((x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y) && ((x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y) && ((x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y) && ((x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y) && ((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y)) by (bit_vector); }
pub broadcast proof fn bv27(x: u8) ensures #[trigger] (x & 0x18u8) == ((x / 8) % 4) * 8 { assert((x & 0x18u8) == ((x / 8) % 4) * 8) by (bit_vector); }
pub broadcast proof fn bv28(x: u8) ensures #[trigger] (x & 0x40u8) == ((x / 64) % 2) * 64 { assert((x & 0x40u8) == ((x / 64) % 2) * 64) by (bit_vector); }
pub broadcast proof fn bv29(x: u8) ensures #[trigger] (x & 0x20u8) == ((x / 32) % 2) * 32 { assert((x & 0x20u8) == ((x / 32) % 2) * 32) by (bit_vector); }
pub broadcast proof fn bv30(x: u8) ensures #[trigger] (x & 0x04u8) == ((x / 4) % 2) * 4 { assert((x & 0x04u8) == ((x / 4) % 2) * 4) by (bit_vector); }
pub broadcast proof fn bv31(x: u8) ensures #[trigger] (x & 0x02u8) == ((x / 2) % 2) * 2 { assert((x & 0x02u8) == ((x / 2) % 2) * 2) by (bit_vector); }
pub broadcast proof fn bv32(x: u8) ensures #[trigger] (x & 0x03u8) == x % 4 { assert((x & 0x03u8) == x % 4) by (bit_vector); }
pub broadcast proof fn bv33(x: u8) ensures #[trigger] (x & 0xC0u8) == (x / 64) * 64 { assert((x & 0xC0u8) == (x / 64) * 64) by (bit_vector); }
pub broadcast proof fn bv34(x: u8) ensures #[trigger] (x & 0xFCu8) == (x / 4) * 4 { assert((x & 0xFCu8) == (x / 4) * 4) by (bit_vector); }
pub broadcast proof fn bv35(x: u8) ensures #[trigger] (x >> 2u8) == x / 4 { assert((x >> 2u8) == x / 4) by (bit_vector); }
pub broadcast proof fn bv36(x: u8) ensures #[trigger] (x >> 3u8) == x / 8 { assert((x >> 3u8) == x / 8) by (bit_vector); }
pub broadcast proof fn bv37(x: u8) ensures #[trigger] (x << 2u8) == (x % 64) * 4 { assert((x << 2u8) == (x % 64) * 4) by (bit_vector); }
pub broadcast proof fn bv38(x: u8) ensures #[trigger] (x << 4u8) == (x % 16) * 16 { assert((x << 4u8) == (x % 16) * 16) by (bit_vector); }
pub broadcast proof fn bv_or_in(x: u8, y: u8) ensures
    #![trigger (x | y)]
    (y == 1 && (x / 1) % 2 == 1 ==> (x | y) == x) && (y == 2 && (x / 2) % 2 == 1 ==> (x | y) == x) && (y == 4 && (x / 4) % 2 == 1 ==> (x | y) == x) && (y == 8 && (x / 8) % 2 == 1 ==> (x | y) == x) && (y == 16 && (x / 16) % 2 == 1 ==> (x | y) == x) && (y == 32 && (x / 32) % 2 == 1 ==> (x | y) == x) && (y == 64 && (x / 64) % 2 == 1 ==> (x | y) == x) && (y == 128 && (x / 128) % 2 == 1 ==> (x | y) == x)
{ assert((y == 1 && (x / 1) % 2 == 1 ==> (x | y) == x) && (y == 2 && (x / 2) % 2 == 1 ==> (x | y) == x) && (y == 4 && (x / 4) % 2 == 1 ==> (x | y) == x) && (y == 8 && (x / 8) % 2 == 1 ==> (x | y) == x) && (y == 16 && (x / 16) % 2 == 1 ==> (x | y) == x) && (y == 32 && (x / 32) % 2 == 1 ==> (x | y) == x) && (y == 64 && (x / 64) % 2 == 1 ==> (x | y) == x) && (y == 128 && (x / 128) % 2 == 1 ==> (x | y) == x)) by (bit_vector); }
pub broadcast proof fn bv40(x: u32) ensures #[trigger] (x >> 7u32) == x / 128 { assert((x >> 7u32) == x / 128) by (bit_vector); }
pub broadcast proof fn bv41(x: u32) ensures #[trigger] (x >> 14u32) == x / 16384 { assert((x >> 14u32) == x / 16384) by (bit_vector); }
pub broadcast proof fn bv42(x: u32) ensures #[trigger] (x >> 21u32) == x / 2097152 { assert((x >> 21u32) == x / 2097152) by (bit_vector); }
pub broadcast proof fn bv43(x: u64) ensures #[trigger] (x >> 8u64) == x / 256 { assert((x >> 8u64) == x / 256) by (bit_vector); }
pub broadcast proof fn bv44(x: u64) ensures #[trigger] (x >> 16u64) == x / 65536 { assert((x >> 16u64) == x / 65536) by (bit_vector); }
pub broadcast proof fn bv45(x: u64) ensures #[trigger] (x >> 24u64) == x / 16777216 { assert((x >> 24u64) == x / 16777216) by (bit_vector); }
pub broadcast proof fn bv46(x: usize) ensures #[trigger] (x >> 7usize) == x / 128 { assert((x >> 7usize) == x / 128) by (bit_vector); }
pub broadcast proof fn bv47(x: usize) ensures #[trigger] (x >> 8usize) == x / 256 { assert((x >> 8usize) == x / 256) by (bit_vector); }
pub broadcast proof fn bv48(x: usize) ensures #[trigger] (x >> 14usize) == x / 16384 { assert((x >> 14usize) == x / 16384) by (bit_vector); }
pub broadcast proof fn bv49(x: usize) ensures #[trigger] (x >> 16usize) == x / 65536 { assert((x >> 16usize) == x / 65536) by (bit_vector); }
pub broadcast proof fn bv50(x: usize) ensures #[trigger] (x >> 21usize) == x / 2097152 { assert((x >> 21usize) == x / 2097152) by (bit_vector); }
pub broadcast proof fn bv51(x: usize) ensures #[trigger] (x >> 24usize) == x / 16777216 { assert((x >> 24usize) == x / 16777216) by (bit_vector); }
pub broadcast proof fn bv52(x: u32) ensures #[trigger] (x << 7u32) == (x % 33554432) * 128 { assert((x << 7u32) == (x % 33554432) * 128) by (bit_vector); }
pub broadcast proof fn bv53(x: u32) ensures #[trigger] (x << 14u32) == (x % 262144) * 16384 { assert((x << 14u32) == (x % 262144) * 16384) by (bit_vector); }
pub broadcast proof fn bv54(x: u32) ensures #[trigger] (x << 21u32) == (x % 2048) * 2097152 { assert((x << 21u32) == (x % 2048) * 2097152) by (bit_vector); }
pub broadcast proof fn bv55(x: u16) ensures #[trigger] (x & 255u16) == x % 256 { assert((x & 255u16) == x % 256) by (bit_vector); }
pub broadcast proof fn bv56(x: u32) ensures #[trigger] (x & 255u32) == x % 256 { assert((x & 255u32) == x % 256) by (bit_vector); }
pub broadcast proof fn bv57(x: u32) ensures #[trigger] (x & 65535u32) == x % 65536 { assert((x & 65535u32) == x % 65536) by (bit_vector); }
pub broadcast proof fn bv58(x: usize) ensures #[trigger] (x & 127usize) == x % 128 { assert((x & 127usize) == x % 128) by (bit_vector); }
pub broadcast proof fn bv59(x: usize) ensures #[trigger] (x & 255usize) == x % 256 { assert((x & 255usize) == x % 256) by (bit_vector); }
pub broadcast proof fn bv60(x: usize) ensures #[trigger] (x & 65535usize) == x % 65536 { assert((x & 65535usize) == x % 65536) by (bit_vector); }
pub broadcast proof fn bv61(x: usize) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn bv62(x: u16) ensures #[trigger] (x & 0xFF00u16) == (x / 256) * 256 { assert((x & 0xFF00u16) == (x / 256) * 256) by (bit_vector); }
pub broadcast proof fn bv_or_u16(x: u16, y: u16) ensures #![trigger (x | y)] ((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y)
{ assert(((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y)) by (bit_vector); }
pub broadcast proof fn bv_or_u32(x: u32, y: u32) ensures #![trigger (x | y)] ((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y) && ((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y) && ((x % 16384 == 0 && y < 16384) || (y % 16384 == 0 && x < 16384) ==> (x | y) == x + y) && ((x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) && ((x % 2097152 == 0 && y < 2097152) || (y % 2097152 == 0 && x < 2097152) ==> (x | y) == x + y) && ((x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y)
{ assert(((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y) && ((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y) && ((x % 16384 == 0 && y < 16384) || (y % 16384 == 0 && x < 16384) ==> (x | y) == x + y) && ((x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) && ((x % 2097152 == 0 && y < 2097152) || (y % 2097152 == 0 && x < 2097152) ==> (x | y) == x + y) && ((x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y)) by (bit_vector); }
/// the six parts of the CONNECT flags, none of which share a bit
pub broadcast proof fn bv_or6(u: u8, p: u8, r: u8, q: u8, w: u8, c: u8)
    requires u == 0 || u == 128, p == 0 || p == 64, r == 0 || r == 32, q == 0 || q == 8 || q == 16 || q == 24, w == 0 || w == 4, c == 0 || c == 2,
    ensures #[trigger] (u | p | r | q | w | c) == u + p + r + q + w + c
{
    assert((u == 0 || u == 128) && (p == 0 || p == 64) && (r == 0 || r == 32) && (q == 0 || q == 8 || q == 16 || q == 24) && (w == 0 || w == 4) && (c == 0 || c == 2)
        ==> (u | p | r | q | w | c) == add(add(add(add(add(u, p), r), q), w), c)) by (bit_vector);
}
pub broadcast group bits { bv_or_in, bv1, bv2, bv3, bv4, bv5, bv6, bv7, bv8, bv9, bv10, bv11, bv12, bv13, bv14, bv15, bv15b, bv16, bv17, bv18, bv19, bv20, bv21, bv22, bv23, bv24, bv25, bv26, bv_or, bv27, bv28, bv29, bv30, bv31, bv32, bv33, bv34, bv35, bv36, bv37, bv38, bv40, bv41, bv42, bv43, bv44, bv45, bv46, bv47, bv48, bv49, bv50, bv51, bv52, bv53, bv54, bv55, bv56, bv57, bv58, bv59, bv60, bv61, bv62, bv_or_u16, bv_or_u32 }
