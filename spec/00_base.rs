pub use std::collections::HashMap;
pub use vstd::utf8::*;
pub use vstd::std_specs::hash::*;
pub use vstd::std_specs::cmp::*;

// ======================================================================
// Trusted base: what is assumed about the standard library
// ======================================================================

#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: std::io::Read; }

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(std::io::BufReader<R>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

/// The bytes the reader is going to deliver before the end of the stream or
/// the first failing read.
pub uninterp spec fn stream<R: std::io::Read + ?Sized>(r: &std::io::BufReader<R>) -> Seq<u8>;

/// The source may refuse a read for the moment (ErrorKind::Interrupted): read_exact tries again, fill_buf reports it.
pub uninterp spec fn interrupts<R: std::io::Read + ?Sized>(r: &std::io::BufReader<R>) -> bool;

pub assume_specification<R: std::io::Read>[ std::io::BufReader::<R>::new ](inner: R) -> (res: std::io::BufReader<R>);

pub assume_specification<R: std::io::Read + ?Sized>[ <std::io::BufReader<R> as std::io::Read>::read_exact ](r: &mut std::io::BufReader<R>, buf: &mut [u8]) -> (res: Result<(), std::io::Error>)
    ensures
        final(buf)@.len() == old(buf)@.len(),
        match res {
            Ok(_) => old(buf)@.len() <= stream(old(r)).len()
                && final(buf)@ == stream(old(r)).subrange(0, old(buf)@.len() as int)
                && stream(final(r)) == stream(old(r)).subrange(old(buf)@.len() as int, stream(old(r)).len() as int),
            Err(_) => stream(old(r)).len() < old(buf)@.len(),
        };

pub assume_specification<R: std::io::Read + ?Sized>[ <std::io::BufReader<R> as std::io::BufRead>::fill_buf ](r: &mut std::io::BufReader<R>) -> (res: Result<&[u8], std::io::Error>)
    ensures
        match res {
            Ok(v) => stream(final(r)) == stream(old(r)) && (v@.len() == 0) == (stream(old(r)).len() == 0),
            Err(_) => stream(old(r)).len() == 0 || interrupts(old(r)),
        };

/// bytes of a string
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (res: Result<String, std::string::FromUtf8Error>)
    ensures
        res is Ok <==> valid_utf8(v@),
        res matches Ok(s) ==> sb(s@) == v@;

/// Lengths. Sizes in memory: nothing is longer than the address space (48 bits).
pub trait VLen {
    spec fn v_size(&self) -> nat;
    fn v_len(&self) -> (r: usize)
        ensures r == self.v_size(), r < 0x1_0000_0000_0000;
    fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.v_size() == 0);
}
impl VLen for str {
    open spec fn v_size(&self) -> nat { sb(self@).len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VLen for String {
    open spec fn v_size(&self) -> nat { sb(self@).len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl<T> VLen for [T] {
    open spec fn v_size(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl<T> VLen for Vec<T> {
    open spec fn v_size(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VLen for UMap {
    open spec fn v_size(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}

/// comparison of a slice with an array
pub broadcast proof fn axiom_eq1<'a, const N: usize>(a: &'a [u8], b: [u8; N])
    ensures #[trigger] <&'a [u8] as PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a@ =~= b@)
{ admit(); }
pub broadcast proof fn axiom_eq2<'a, const N: usize>()
    ensures #[trigger] <&'a [u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec()
{ admit(); }

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (res: Vec<T>)
    ensures res@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&s@[i],), #[trigger] res@[i]);

#[verifier::external_body]
pub fn opaque_string() -> (r: String) { String::new() }

#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ a == b }

#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: Vec<u8>)
    ensures r@ == sb(s@)
{ s.as_bytes().to_vec() }

pub broadcast group vgroup { axiom_eq1, axiom_eq2, rgroup, lemma_svals_push, lemma_svals_empty, lemma_umv_empty }
