//@use core
verus! {
// ---- C11: queues. A queue holds a set of states; what head and dequeue pick depends on the discipline (first).
//@type algorithms/queue.rs :: enum QueueType
// what a queue holds
pub trait QV: Sized {
    // state s is in the queue
    spec fn qhas(&self, s: StateId) -> bool;
    spec fn qinv(&self) -> bool;
    // s may be enqueued now
    spec fn can(&self, s: StateId) -> bool;
    // s is what the discipline picks next
    spec fn first(&self, s: StateId) -> bool;
    // the queue takes any number of states: what may be enqueued stays so
    spec fn many() -> bool;
}
pub open spec fn q_empty<Q: QV>(q: Q) -> bool { forall|t: StateId| ! #[trigger] q.qhas(t) }
pub open spec fn q_same<Q: QV>(q: Q, p: Q) -> bool { (forall|t: StateId| #![trigger p.qhas(t)] #![trigger q.qhas(t)] p.qhas(t) <==> q.qhas(t)) && forall|t: StateId| #![trigger q.can(t)] #![trigger p.can(t)] q.can(t) ==> p.can(t) }
pub open spec fn q_add<Q: QV>(q: Q, p: Q, s: StateId) -> bool { forall|t: StateId| #[trigger] p.qhas(t) <==> (q.qhas(t) || t == s) }
pub open spec fn q_del<Q: QV>(q: Q, p: Q, s: StateId) -> bool { (forall|t: StateId| #[trigger] p.qhas(t) <==> (q.qhas(t) && t != s)) && forall|t: StateId| #![trigger q.can(t)] #![trigger p.can(t)] q.can(t) ==> p.can(t) }
pub trait Queue: QV {
    fn head(&mut self) -> (r: Option<StateId>) requires old(self).qinv()
        ensures final(self).qinv(), q_same(*old(self), *final(self)), r is None <==> q_empty(*old(self)), r is Some ==> old(self).qhas(r->0) && old(self).first(r->0);
    fn enqueue(&mut self, state: StateId) requires old(self).qinv(), old(self).can(state), !old(self).qhas(state)
        ensures final(self).qinv(), q_add(*old(self), *final(self), state), Self::many() ==> forall|t: StateId| #![trigger old(self).can(t)] #![trigger final(self).can(t)] old(self).can(t) ==> final(self).can(t);
    fn dequeue(&mut self) -> (r: Option<StateId>) requires old(self).qinv()
        ensures final(self).qinv(), r is None <==> q_empty(*old(self)), r is Some ==> old(self).qhas(r->0) && old(self).first(r->0) && q_del(*old(self), *final(self), r->0), r is None ==> q_same(*old(self), *final(self));
    fn update(&mut self, state: StateId) requires old(self).qinv(), old(self).qhas(state) ensures final(self).qinv(), q_same(*old(self), *final(self));
    fn is_empty(&self) -> (r: bool) requires self.qinv() ensures r <==> q_empty(*self);
    fn clear(&mut self) requires old(self).qinv() ensures final(self).qinv(), q_empty(*final(self)), forall|t: StateId| #![trigger old(self).can(t)] #![trigger final(self).can(t)] old(self).can(t) ==> final(self).can(t);
}
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::front] (v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None });
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (v: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);
pub proof fn seq_set(s: Seq<StateId>) ensures (forall|t: StateId| ! #[trigger] s.contains(t)) <==> s.len() == 0, s.len() > 0 ==> s.contains(s[0]) && s.contains(s.last()), forall|x: StateId, y: StateId| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y,
    s.no_duplicates() && s.len() > 0 ==> forall|y: StateId| #[trigger] s.subrange(1, s.len() as int).contains(y) <==> s.contains(y) && y != s[0],
    s.no_duplicates() && s.len() > 0 ==> forall|y: StateId| #[trigger] s.drop_last().contains(y) <==> s.contains(y) && y != s.last(),
    s.no_duplicates() ==> forall|x: StateId| !s.contains(x) ==> (#[trigger] s.push(x)).no_duplicates(),
{
    if s.len() > 0 { assert(s.contains(s[0])); }
    assert forall|x: StateId, y: StateId| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); } if y == x { assert(s.push(x)[s.len() as int] == x); } if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } } }
    if s.no_duplicates() && s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        assert forall|y: StateId| #[trigger] t.contains(y) <==> s.contains(y) && y != s[0] by { if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert(s[i + 1] == y); } if s.contains(y) && y != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i - 1] == y); } }
        assert forall|y: StateId| #[trigger] s.drop_last().contains(y) <==> s.contains(y) && y != s.last() by { if s.drop_last().contains(y) { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == y; assert(s[i] == y); } if s.contains(y) && y != s.last() { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.drop_last()[i] == y); } }
    }
}
//@type algorithms/queues/fifo_queue.rs :: struct FifoQueue
impl QV for FifoQueue {
    open spec fn qhas(&self, s: StateId) -> bool { self.0@.contains(s) }
    open spec fn qinv(&self) -> bool { self.0@.no_duplicates() }
    open spec fn can(&self, s: StateId) -> bool { true }
    open spec fn first(&self, s: StateId) -> bool { s == self.0@[0] }
    open spec fn many() -> bool { true }
}
impl Queue for FifoQueue {
//@fn algorithms/queues/fifo_queue.rs :: Queue for FifoQueue :: head
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/fifo_queue.rs :: Queue for FifoQueue :: enqueue
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/fifo_queue.rs :: Queue for FifoQueue :: dequeue
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/fifo_queue.rs :: Queue for FifoQueue :: update
//@end
//@fn algorithms/queues/fifo_queue.rs :: Queue for FifoQueue :: is_empty
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/fifo_queue.rs :: Queue for FifoQueue :: clear
@start
proof { seq_set(Seq::<StateId>::empty()); }
//@end
}
//@type algorithms/queues/lifo_queue.rs :: struct LifoQueue
impl QV for LifoQueue {
    open spec fn qhas(&self, s: StateId) -> bool { self.0@.contains(s) }
    open spec fn qinv(&self) -> bool { self.0@.no_duplicates() }
    open spec fn can(&self, s: StateId) -> bool { true }
    open spec fn first(&self, s: StateId) -> bool { s == self.0@.last() }
    open spec fn many() -> bool { true }
}
impl Queue for LifoQueue {
//@fn algorithms/queues/lifo_queue.rs :: Queue for LifoQueue :: head
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/lifo_queue.rs :: Queue for LifoQueue :: enqueue
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/lifo_queue.rs :: Queue for LifoQueue :: dequeue
@start
proof { assert(self.0@.len() > 0 ==> self.0@.subrange(0, self.0@.len() - 1) =~= self.0@.drop_last()); let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/lifo_queue.rs :: Queue for LifoQueue :: update
//@end
//@fn algorithms/queues/lifo_queue.rs :: Queue for LifoQueue :: is_empty
@start
proof { let ghost q0 = self.0@; seq_set(q0); if q0.len() > 0 { assert(self.qhas(q0[0])); } }
//@end
//@fn algorithms/queues/lifo_queue.rs :: Queue for LifoQueue :: clear
@start
proof { seq_set(Seq::<StateId>::empty()); }
//@end
}
//@type algorithms/queues/trivial_queue.rs :: struct TrivialQueue
impl QV for TrivialQueue {
    open spec fn qhas(&self, s: StateId) -> bool { self.state == Some(s) }
    open spec fn qinv(&self) -> bool { true }
    open spec fn can(&self, s: StateId) -> bool { self.state is None }
    open spec fn first(&self, s: StateId) -> bool { true }
    open spec fn many() -> bool { false }
}
impl Queue for TrivialQueue {
//@fn algorithms/queues/trivial_queue.rs :: Queue for TrivialQueue :: head
@start
proof { if self.state is Some { assert(self.qhas(self.state->0)); } }
//@end
//@fn algorithms/queues/trivial_queue.rs :: Queue for TrivialQueue :: enqueue
//@end
//@fn algorithms/queues/trivial_queue.rs :: Queue for TrivialQueue :: dequeue
@start
proof { if self.state is Some { assert(self.qhas(self.state->0)); } }
//@end
//@fn algorithms/queues/trivial_queue.rs :: Queue for TrivialQueue :: update
//@end
//@fn algorithms/queues/trivial_queue.rs :: Queue for TrivialQueue :: is_empty
@start
proof { if self.state is Some { assert(self.qhas(self.state->0)); } }
//@end
//@fn algorithms/queues/trivial_queue.rs :: Queue for TrivialQueue :: clear
//@end
}
//@type algorithms/queues/state_order_queue.rs :: struct StateOrderQueue
impl QV for StateOrderQueue {
    open spec fn qhas(&self, s: StateId) -> bool { s < self.enqueued@.len() && self.enqueued@[s as int] }
    // the enqueued states lie between front and back, and front is one of them
    open spec fn qinv(&self) -> bool {
        &&& self.enqueued@.len() <= u32::MAX + 1
        &&& forall|i: int| 0 <= i < self.enqueued@.len() && #[trigger] self.enqueued@[i] ==> self.back is Some && self.front <= i <= self.back->0
        &&& self.back is Some ==> self.back->0 < self.enqueued@.len()
        &&& self.back is Some && self.front <= self.back->0 ==> self.enqueued@[self.front as int]
    }
    open spec fn can(&self, s: StateId) -> bool { true }
    open spec fn first(&self, s: StateId) -> bool { forall|t: StateId| #[trigger] self.qhas(t) ==> s <= t }
    open spec fn many() -> bool { true }
}
impl Queue for StateOrderQueue {
//@fn algorithms/queues/state_order_queue.rs :: Queue for StateOrderQueue :: head
    ensures *final(self) == *old(self),
@start
proof { if self.back is Some && self.front <= self.back->0 { assert(self.qhas(self.front as u32)); } }
//@end
//@fn algorithms/queues/state_order_queue.rs :: Queue for StateOrderQueue :: enqueue
@before_loop 0
let ghost f0 = *self;
@loop 0
    invariant self.front == f0.front, self.back == f0.back, f0.enqueued@.len() <= self.enqueued@.len() <= u32::MAX + 1, state <= u32::MAX, forall|i: int| 0 <= i < f0.enqueued@.len() ==> #[trigger] self.enqueued@[i] == f0.enqueued@[i], forall|i: int| f0.enqueued@.len() <= i < self.enqueued@.len() ==> ! #[trigger] self.enqueued@[i],
    decreases state + 1 - self.enqueued@.len(),
//@end
//@fn algorithms/queues/state_order_queue.rs :: Queue for StateOrderQueue :: dequeue
@loop 0
    invariant self.back == Some(back_), back_ < self.enqueued@.len(), self.enqueued@.len() <= u32::MAX + 1, self.enqueued@ == e0, self.front <= back_ + 1, forall|i: int| 0 <= i < self.enqueued@.len() && #[trigger] self.enqueued@[i] ==> self.front <= i <= back_,
    decreases back_ + 1 - self.front,
@before_loop 0
let ghost e0 = self.enqueued@;
@start
proof { if self.back is Some && self.front <= self.back->0 { assert(self.qhas(self.front as u32)); } }
//@end
//@fn algorithms/queues/state_order_queue.rs :: Queue for StateOrderQueue :: update
//@end
//@fn algorithms/queues/state_order_queue.rs :: Queue for StateOrderQueue :: is_empty
@start
proof { if self.back is Some && self.front <= self.back->0 { assert(self.qhas(self.front as u32)); } }
//@end
//@fn algorithms/queues/state_order_queue.rs :: Queue for StateOrderQueue :: clear
@sub `for i in self . front ..= back_ { self . enqueued [ i ] = false ; }` => `let mut i = self . front ; while i <= back_ { self . enqueued [ i ] = false ; i += 1 ; }`
@loop 0
    invariant self.front == old(self).front, self.back == Some(back_), back_ < self.enqueued@.len(), self.enqueued@.len() == old(self).enqueued@.len(), self.enqueued@.len() <= u32::MAX + 1, i >= self.front, forall|j: int| 0 <= j < self.enqueued@.len() && #[trigger] self.enqueued@[j] ==> old(self).enqueued@[j] && !(self.front <= j < i),
    decreases back_ + 1 - i,
//@end
}
//@type algorithms/queues/top_order_queue.rs :: struct TopOrderQueue
pub open spec fn perm(o: Seq<StateId>) -> bool { (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) < o.len()) && forall|i: int, j: int| 0 <= i < j < o.len() ==> #[trigger] o[i] != #[trigger] o[j] }
impl QV for TopOrderQueue {
    open spec fn qhas(&self, s: StateId) -> bool { s < self.order@.len() && self.state@[self.order@[s as int] as int] == Some(s) }
    open spec fn qinv(&self) -> bool {
        &&& perm(self.order@) &&& self.state@.len() == self.order@.len() &&& self.order@.len() < u32::MAX
        &&& forall|k: int| 0 <= k < self.state@.len() && (#[trigger] self.state@[k]) is Some ==> self.state@[k]->0 < self.order@.len() && self.order@[self.state@[k]->0 as int] == k && self.back is Some && self.front <= k <= self.back->0
        &&& self.back is Some ==> self.back->0 < self.state@.len()
        &&& self.back is Some && self.front <= self.back->0 ==> self.state@[self.front as int] is Some
    }
    open spec fn can(&self, s: StateId) -> bool { s < self.order@.len() }
    open spec fn first(&self, s: StateId) -> bool { forall|t: StateId| #[trigger] self.qhas(t) ==> self.order@[s as int] <= self.order@[t as int] }
    open spec fn many() -> bool { true }
}
impl TopOrderQueue {
//@fn algorithms/queues/top_order_queue.rs :: TopOrderQueue :: from_precomputed_order
    requires perm(order@), order@.len() < u32::MAX,
    ensures r.qinv(), q_empty(r), r.order@ == order@,
@sub `vec_rep ( None , order_len )` => `none_vec ( order_len )`
//@end
}
#[verifier::external_body]
pub fn none_vec(n: usize) -> (r: Vec<Option<StateId>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None { vec![None; n] }
impl Queue for TopOrderQueue {
//@fn algorithms/queues/top_order_queue.rs :: Queue for TopOrderQueue :: head
@start
proof { if self.back is Some && self.front <= self.back->0 { assert(self.qhas(self.state@[self.front as int]->0)); } }
//@end
//@fn algorithms/queues/top_order_queue.rs :: Queue for TopOrderQueue :: enqueue
@start
proof { assert(self.order@[state as int] < self.order@.len()); assert(forall|t: StateId| t < self.order@.len() && self.order@[t as int] == self.order@[state as int] ==> t == state); }
//@end
//@fn algorithms/queues/top_order_queue.rs :: Queue for TopOrderQueue :: dequeue
@sub `self . state [ self . front as usize ] . take ( )` => `vtake ( & mut self . state , self . front as usize )`
@start
proof { if self.back is Some && self.front <= self.back->0 { assert(self.qhas(self.state@[self.front as int]->0)); } }
@before_loop 0
let ghost e0 = self.state@;
@loop 0
    invariant self.back is Some, self.back == old(self).back, self.back->0 < self.state@.len(), self.order == old(self).order, self.order@.len() < u32::MAX, self.state@ == e0, e0.len() == self.order@.len(), self.front <= self.back->0 + 1, forall|k: int| 0 <= k < e0.len() && (#[trigger] e0[k]) is Some ==> self.front <= k <= self.back->0,
    decreases self.back->0 + 1 - self.front,
//@end
//@fn algorithms/queues/top_order_queue.rs :: Queue for TopOrderQueue :: update
//@end
//@fn algorithms/queues/top_order_queue.rs :: Queue for TopOrderQueue :: is_empty
@start
proof { if self.back is Some && self.front <= self.back->0 { assert(self.qhas(self.state@[self.front as int]->0)); } }
//@end
//@fn algorithms/queues/top_order_queue.rs :: Queue for TopOrderQueue :: clear
@sub `for s in self . front ..= back_ { self . state [ s as usize ] = None ; }` => `let mut s = self . front ; while s <= back_ { self . state [ s as usize ] = None ; s += 1 ; }`
@loop 0
    invariant self.front == old(self).front, self.order == old(self).order, self.back == Some(back_), back_ < self.state@.len(), self.state@.len() == old(self).state@.len(), self.state@.len() < u32::MAX, s >= self.front, forall|j: int| 0 <= j < self.state@.len() && #[trigger] self.state@[j] is Some ==> old(self).state@[j] is Some && !(self.front <= j < s),
    decreases back_ + 1 - s,
//@end
}
#[verifier::external_body]
pub fn vtake<T>(v: &mut Vec<Option<T>>, i: usize) -> (r: Option<T>) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, None) { v[i].take() }

pub const NO_STATE_ID: i32 = -1;
//@type algorithms/queues/scc_queue.rs :: struct SccQueue
//@tsub `struct SccQueue` => `struct SccQueue < Q >`
//@tsub `Box < dyn Queue >` => `Q`
impl<Q: Queue> QV for SccQueue<Q> {
    open spec fn qhas(&self, s: StateId) -> bool { s < self.sccs@.len() && self.queues@[self.sccs@[s as int] as int].qhas(s) }
    open spec fn qinv(&self) -> bool {
        &&& self.queues@.len() < i32::MAX &&& -1 <= self.front <= self.queues@.len() && -1 <= self.back < self.queues@.len()
        &&& (self.front < 0 ==> self.back < self.front)
        &&& forall|s: int| 0 <= s < self.sccs@.len() ==> (#[trigger] self.sccs@[s]) < self.queues@.len()
        &&& forall|i: int| 0 <= i < self.queues@.len() ==> (#[trigger] self.queues@[i]).qinv()
        &&& forall|i: int, s: StateId| 0 <= i < self.queues@.len() && (#[trigger] self.queues@[i].qhas(s)) ==> s < self.sccs@.len() && self.sccs@[s as int] == i && self.front <= i <= self.back
        &&& self.front < self.back ==> !q_empty(self.queues@[self.back as int])
    }
    open spec fn can(&self, s: StateId) -> bool { s < self.sccs@.len() && self.queues@[self.sccs@[s as int] as int].can(s) }
    // a component is served before every later one
    open spec fn first(&self, s: StateId) -> bool { forall|t: StateId| #[trigger] self.qhas(t) ==> self.sccs@[s as int] <= self.sccs@[t as int] }
    open spec fn many() -> bool { Q::many() }
}
impl<Q: Queue> SccQueue<Q> {
//@fn algorithms/queues/scc_queue.rs :: SccQueue :: new
    requires queues@.len() < i32::MAX, forall|s: int| 0 <= s < sccs@.len() ==> (#[trigger] sccs@[s]) < queues@.len(), forall|i: int| 0 <= i < queues@.len() ==> (#[trigger] queues@[i]).qinv() && q_empty(queues@[i]),
    ensures r.qinv(), q_empty(r),
@sub `Box < dyn Queue >` => `Q`
//@end
//@fn algorithms/queues/scc_queue.rs :: SccQueue :: update_front
    requires old(self).qinv(), old(self).front < old(self).back || (old(self).front == old(self).back && !q_empty(old(self).queues@[old(self).front as int])),
    ensures final(self).qinv(), final(self).queues == old(self).queues, final(self).sccs == old(self).sccs, final(self).front <= final(self).back, !q_empty(final(self).queues@[final(self).front as int]),
@loop 0
    invariant self.qinv(), self.queues == old(self).queues, self.sccs == old(self).sccs, self.front <= self.back, !q_empty(self.queues@[self.back as int]),
    decreases self.back - self.front,
//@end
}
impl<Q: Queue> Queue for SccQueue<Q> {
//@fn algorithms/queues/scc_queue.rs :: Queue for SccQueue :: head
//@end
//@fn algorithms/queues/scc_queue.rs :: Queue for SccQueue :: enqueue
@start
let ghost c = self.sccs@[state as int] as int;
proof { assert forall|i: int, t: StateId| 0 <= i < self.queues@.len() && (#[trigger] self.queues@[i].qhas(t)) implies self.qhas(t) by { } }
@tail
proof { assert(self.queues@[c].qhas(state)); if self.front < self.back && self.back != c { assert(self.queues@[self.back as int] == old(self).queues@[self.back as int]); } }
//@end
//@fn algorithms/queues/scc_queue.rs :: Queue for SccQueue :: dequeue
//@end
//@fn algorithms/queues/scc_queue.rs :: Queue for SccQueue :: update
@tail
proof { if self.front < self.back { let t = choose|t: StateId| old(self).queues@[self.back as int].qhas(t); assert(self.queues@[self.back as int].qhas(t)); } }
//@end
//@fn algorithms/queues/scc_queue.rs :: Queue for SccQueue :: is_empty
@start
proof { if self.front <= self.back && !q_empty(self.queues@[self.back as int]) { let t = choose|t: StateId| self.queues@[self.back as int].qhas(t); assert(self.qhas(t)); } assert forall|t: StateId| #[trigger] self.qhas(t) implies self.queues@[self.sccs@[t as int] as int].qhas(t) by { } }
//@end
//@fn algorithms/queues/scc_queue.rs :: Queue for SccQueue :: clear
@sub `for i in self . front ..= self . back { let i = i as usize ; self . queues [ i ] . clear ( ) ; }` => `let mut i0 = self . front ; while i0 <= self . back { let i = i0 as usize ; self . queues [ i ] . clear ( ) ; i0 += 1 ; }`
@loop 0
    invariant i0 >= self.front, i0 == self.front || i0 <= self.back + 1, self.front == old(self).front, self.back == old(self).back, old(self).qinv(), self.sccs == old(self).sccs, self.queues@.len() == old(self).queues@.len(), forall|i: int| 0 <= i < self.queues@.len() ==> (#[trigger] self.queues@[i]).qinv() && (self.front <= i < i0 ==> q_empty(self.queues@[i])) && (!(self.front <= i < i0) ==> self.queues@[i] == old(self).queues@[i]) && (forall|t: StateId| #[trigger] old(self).queues@[i].can(t) ==> self.queues@[i].can(t)),
    decreases self.back + 1 - i0,
@tail
proof { assert forall|i: int| 0 <= i < self.queues@.len() implies q_empty(#[trigger] self.queues@[i]) by { if !(old(self).front <= i <= old(self).back) { assert(self.queues@[i] == old(self).queues@[i]); } } assert forall|t: StateId| #[trigger] old(self).can(t) implies self.can(t) by { assert(old(self).queues@[self.sccs@[t as int] as int].can(t)); } }
//@end
}
}
