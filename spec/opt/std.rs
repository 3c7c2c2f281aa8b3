//@opt \bbe_u16\b
pub fn be_u16(b: [u8; 2]) -> (r: u16)
    ensures r == b@[0] * 256 + b@[1]
{ b[0] as u16 * 256 + b[1] as u16 }
//@opt \bbe_u32\b
pub fn be_u32(b: [u8; 4]) -> (r: u32)
    ensures r == b@[0] * 0x1000000 + b@[1] * 0x10000 + b@[2] * 256 + b@[3]
{ b[0] as u32 * 0x1000000 + b[1] as u32 * 0x10000 + b[2] as u32 * 256 + b[3] as u32 }
//@opt \bv_to_be_bytes\b
pub trait VBe<const N: usize> { spec fn be_rel(self, r: [u8; N]) -> bool; fn v_to_be_bytes(self) -> (r: [u8; N]) ensures self.be_rel(r); }
impl VBe<2> for u16 {
    open spec fn be_rel(self, r: [u8; 2]) -> bool { r@[0] == (self / 256) as u8 && r@[1] == (self % 256) as u8 }
    fn v_to_be_bytes(self) -> (r: [u8; 2]) { [(self / 256) as u8, (self % 256) as u8] }
}
impl VBe<4> for u32 {
    open spec fn be_rel(self, r: [u8; 4]) -> bool { r@[0] == (self / 0x1000000) as u8 && r@[1] == ((self / 0x10000) % 256) as u8 && r@[2] == ((self / 256) % 256) as u8 && r@[3] == (self % 256) as u8 }
    fn v_to_be_bytes(self) -> (r: [u8; 4]) {
        let (a, b, c, d) = ((self / 0x1000000) as u8, ((self / 0x10000) % 256) as u8, ((self / 256) % 256) as u8, (self % 256) as u8);
        let r = [a, b, c, d];
        assert(r@[0] == (self / 0x1000000) as u8 && r@[1] == ((self / 0x10000) % 256) as u8 && r@[2] == ((self / 256) % 256) as u8 && r@[3] == (self % 256) as u8);
        assert(self.be_rel(r));
        r
    }
}
//@opt \bis_some_and\b
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
//@opt \bmap_or\b
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
//@opt \bor_default\b
pub assume_specification<'a, K, V: Default>[ std::collections::hash_map::Entry::<'a, K, V>::or_default ](entry: std::collections::hash_map::Entry<'a, K, V>) -> (value: &'a mut V)
    ensures
        match entry.value() { Some(v) => *value == v, None => call_ensures(V::default, (), *value) },
        entry.final_value() == Some(*final(value));
//@opt \bmem::replace\b
pub assume_specification<T>[ std::mem::replace::<T> ](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
//@opt \.or\(
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(x), None => p });
//@opt \.xor\(
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None });
//@opt \.filter\(
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: P) -> (r: Option<T>)
    requires o matches Some(x) ==> f.requires((&x,)),
    ensures match o { Some(x) => exists |b: bool| #[trigger] f.ensures((&x,), b) && r == (if b { Some(x) } else { None }), None => r == None::<T> };
//@opt \bis_none_or\b
pub assume_specification<T>[ Option::<T>::is_none_or ](o: Option<T>, f: impl FnOnce(T) -> bool) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r };
//@opt \bmap_or_else\b
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)), o is None ==> d.requires(()),
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
//@opt \bor_else\b
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures match o { Some(x) => r == Some(x), None => f.ensures((), r) };
//@opt \band_then\b
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
//@opt \bunwrap_or\b
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
//@opt \bmem::take\b
pub assume_specification<T: Default>[ std::mem::take::<T> ](d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
//@opt \bcontains\b
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: std::str::pattern::Pattern>[ str::contains::<P> ](s: &str, p: P) -> (r: bool);
//@opt \bends_with\b
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: std::str::pattern::Pattern>[ str::ends_with::<P> ](s: &str, p: P) -> (r: bool) where for<'b> <P as std::str::pattern::Pattern>::Searcher<'b>: std::str::pattern::ReverseSearcher<'b>;
//@opt \bstarts_with\b
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<'a, P: std::str::pattern::Pattern>[ str::starts_with ](s: &'a str, p: P) -> (r: bool);
//@opt \beq_ignore_ascii_case\b
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, p: &str) -> (r: bool);
//@opt \bto_lowercase\b
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String);
//@opt \bto_uppercase\b
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String);
//@opt \bto_ascii_lowercase\b
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String);
//@opt \bto_ascii_uppercase\b
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String);
//@opt \btrim\b
pub assume_specification<'a>[ str::trim ](s: &'a str) -> (r: &'a str);
//@opt \btrim_end\b
pub assume_specification<'a>[ str::trim_end ](s: &'a str) -> (r: &'a str);
//@opt \btrim_start\b
pub assume_specification<'a>[ str::trim_start ](s: &'a str) -> (r: &'a str);
//@opt \bdedup\b
pub assume_specification<T: PartialEq, A: std::alloc::Allocator>[ Vec::<T, A>::dedup ](s: &mut Vec<T, A>);
//@opt \breverse\b
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
//@opt \bsort\b
pub assume_specification<T: Ord>[ <[T]>::sort ](s: &mut [T]);
//@opt \bsort_unstable\b
pub assume_specification<T: Ord>[ <[T]>::sort_unstable ](s: &mut [T]);
