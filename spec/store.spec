@module store
@uses
@source-replace `fn make(index: usize, k: &Self::Key) -> Self;` => `fn make(index: usize, k: &Self::Key) -> Self where Self: Sized;`
@post-replace `fn make(index: usize, k: &Self::Key) -> Self where Self: Sized;` => `
    /// t is a correct object of index i for key k
    spec fn made(i: nat, k: Self::Key, t: Self) -> bool where Self: Sized;
    spec fn makeable(i: nat, k: Self::Key) -> bool;
    fn make(index: usize, k: &Self::Key) -> (r: Self) where Self: Sized
        requires Self::makeable(index as nat, *k),
        ensures Self::made(index as nat, *k, r);`
@source-replace `Box::leak(` => `vleak(`
@type-attr Store #[verifier::reject_recursive_types(T)]
@items
@fn Store::new props=C07,C01 ret=r
    ensures r.map@ == Map::<T::Key, &'static T>::empty(), r.counter == 0,
@fn Store::make props=C07,C01 ret=r
    requires
        key_ok(old(self).map@, k), T::makeable(old(self).counter as nat, k),
    ensures
        final(self).map@.contains_key(k) && final(self).map@[k] == r,
        old(self).map@.contains_key(k) ==> final(self).map@ == old(self).map@ && final(self).counter == old(self).counter,
        !old(self).map@.contains_key(k) ==> T::made(old(self).counter as nat, k, *r) && final(self).map@ == old(self).map@.insert(k, r)
            && final(self).counter == old(self).counter + 1,
@before `self.counter += 1`
    proof {
        // fewer than 2^64 objects are ever allocated
        assume(self.counter < usize::MAX);
    }
@fn Store::len props=C07 ret=r
    ensures r == self.counter,
