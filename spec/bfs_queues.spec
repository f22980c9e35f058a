@module bfs_queues
@uses
use vstd::std_specs::vecdeque::*;
@type-attr BfsQueue #[verifier::reject_recursive_types(T)]
@items
pub open spec fn exact_clone<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
@fn BfsQueue::new props=C05,C14,C19,C02 ret=r
    ensures r.queue@ == Seq::<T>::empty(), r.set@ == Map::<T, ()>::empty(),
@fn BfsQueue::with_capacity props=C19 ret=r
    ensures r.queue@ == Seq::<T>::empty(), r.set@ == Map::<T, ()>::empty(),
@fn BfsQueue::push props=C05,C14,C19,C02 ret=r
    requires key_ok(old(self).set@, element), exact_clone::<T>(),
    ensures
        r == !old(self).set@.contains_key(element),
        final(self).set@ == old(self).set@.insert(element, ()),
        final(self).queue@ == (if r { old(self).queue@.push(element) } else { old(self).queue@ }),
@fn BfsQueue::is_empty props=C19 ret=r
    ensures r == (self.queue@.len() == 0),
@fn BfsQueue::len props=C19 ret=r
    ensures r == self.queue@.len(),
@fn BfsQueue::pop props=C05,C14,C19,C02 ret=r
    ensures
        final(self).set@ == old(self).set@,
        old(self).queue@.len() == 0 ==> r is None && final(self).queue@ == old(self).queue@,
        old(self).queue@.len() > 0 ==> r == Some(old(self).queue@[0]) && final(self).queue@ == old(self).queue@.skip(1),
