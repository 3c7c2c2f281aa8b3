pub type UMap = HashMap<String, Vec<String>>;

pub trait VIntoIter: Sized {
    type It;
    spec fn v_rel(self, r: Self::It) -> bool;
    fn v_into_iter(self) -> (r: Self::It)
        ensures self.v_rel(r);
}

impl VIntoIter for UMap {
    type It = Vec<(String, Vec<String>)>;
    open spec fn v_rel(self, r: Self::It) -> bool {
        &&& forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1
        &&& forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0
        &&& forall|k: String| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k
    }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: Self::It) { self.into_iter().collect() }
}

impl<T> VIntoIter for Vec<T> {
    type It = Vec<T>;
    open spec fn v_rel(self, r: Self::It) -> bool { r == self }
    fn v_into_iter(self) -> (r: Self::It) { self }
}

pub assume_specification<'a, K, V, A: std::alloc::Allocator, F: FnOnce() -> V>[ std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with ](entry: std::collections::hash_map::Entry<'a, K, V, A>, f: F) -> (value: &'a mut V)
    requires
        entry.value() is None ==> f.requires(()),
    ensures
        match entry.value() { Some(v) => *value == v, None => f.ensures((), *value) },
        entry.final_value() == Some(*final(value));
