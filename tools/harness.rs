
/// entry points of the analysis: one per operation the engine uses (never executed)
mod harness {
    use crate::bitboard::{Bitboard, Occupied};
    use shogi_core::Square;
    type Iter = <Bitboard as IntoIterator>::IntoIter;
    fn sq(i: u8) -> Square {
        unsafe { Square::from_u8_unchecked(i) }
    }
    pub fn h_empty() -> Bitboard { Bitboard::empty() }
    pub fn h_single(i: u8) -> Bitboard { Bitboard::single(sq(i)) }
    pub fn h_is_empty(a: Bitboard) -> bool { a.is_empty() }
    pub fn h_contains(a: Bitboard, i: u8) -> bool { a.contains(sq(i)) }
    pub fn h_count(a: Bitboard) -> u8 { a.count() }
    pub fn h_and(a: Bitboard, b: Bitboard) -> Bitboard { a & b }
    pub fn h_or(a: Bitboard, b: Bitboard) -> Bitboard { a | b }
    pub fn h_xor(a: Bitboard, b: Bitboard) -> Bitboard { a ^ b }
    pub fn h_and_ref(a: Bitboard, b: Bitboard) -> Bitboard { a & &b }
    pub fn h_or_ref(a: Bitboard, b: Bitboard) -> Bitboard { a | &b }
    pub fn h_xor_ref(a: Bitboard, b: Bitboard) -> Bitboard { a ^ &b }
    pub fn h_and_assign(a: Bitboard, b: Bitboard) -> Bitboard { let mut a = a; a &= b; a }
    pub fn h_or_assign(a: Bitboard, b: Bitboard) -> Bitboard { let mut a = a; a |= b; a }
    pub fn h_xor_assign(a: Bitboard, b: Bitboard) -> Bitboard { let mut a = a; a ^= b; a }
    pub fn h_not(a: Bitboard) -> Bitboard { !a }
    pub fn h_not_ref(a: Bitboard) -> Bitboard { !&a }
    pub fn h_eq(a: Bitboard, b: Bitboard) -> bool { a == b }
    pub fn h_ne(a: Bitboard, b: Bitboard) -> bool { a != b }
    pub fn h_iter(a: Bitboard) -> Iter { a.into_iter() }
    pub fn h_next(it: &mut Iter) -> u8 {
        match it.next() {
            Some(s) => s.index(),
            None => 0,
        }
    }
    pub fn h_shl(a: Bitboard) -> Bitboard { a.shl() }
    pub fn h_shr(a: Bitboard) -> Bitboard { a.shr() }
    pub fn h_pos_consecutive(a: Bitboard, m: Bitboard) -> Bitboard { a.sliding_positive_consecutive(&m) }
    pub fn h_neg_consecutive(a: Bitboard, m: Bitboard) -> Bitboard { a.sliding_negative_consecutive(&m) }
    pub fn h_positives(a: Bitboard, m: Bitboard, n: Bitboard) -> Bitboard { a.sliding_positives(&[m, n]) }
    pub fn h_negatives(a: Bitboard, m: Bitboard, n: Bitboard) -> Bitboard { a.sliding_negatives(&[m, n]) }
    pub fn h_vacant_files(a: Bitboard) -> Bitboard { a.vacant_files() }
}
