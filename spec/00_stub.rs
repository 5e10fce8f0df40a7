// Stand-ins for everything outside /repo that the verified text calls and
// for which vstd has no contract.  Each contract below is an assumption on the
// dependency (listed in DESIGN.md, tested against the real thing by /verif/conform).
pub mod stub {
    use vstd::prelude::*;
    use vstd::multiset::*;
    use vstd::std_specs::cmp::OrdSpec;
    use core::cmp::Ordering;

    // ---------------------------------------------------------------
    // bitvec 0.20 (BitVec<Msb0, u8>): a growable sequence of bits.
    // Written over Vec<bool>, so every contract here is itself verified;
    // the assumption is that the real crate behaves like this.
    // ---------------------------------------------------------------
    pub mod bitvec {
        pub mod prelude {
            pub use super::{BitVec, Msb0, bitvec};
        }
        pub mod slice {
            pub use super::IterMut;
        }
        use vstd::prelude::*;
        use vstd::std_specs::iter::IteratorSpec;
        use crate::vspec::*;
        pub struct Msb0;
        pub fn bitvec() {}

        // `clean`: the bits past the length, to the end of the last byte, are zeros.  `push`
        // takes a zeroed byte whenever it needs one; `pop` leaves what it takes off.
        pub struct BitVec<O, T> { pub v: Vec<bool>, pub clean: Ghost<bool>, pub o: core::marker::PhantomData<(O, T)> }

        impl<O, T> View for BitVec<O, T> {
            type V = Seq<bool>;
            open spec fn view(&self) -> Seq<bool> { self.v@ }
        }

        impl<O, T> BitVec<O, T> {
            pub open spec fn is_clean(&self) -> bool { self.clean@ }
            pub fn new() -> (r: Self) ensures r@ == Seq::<bool>::empty(), r.is_clean() { BitVec { v: Vec::new(), clean: Ghost(true), o: core::marker::PhantomData } }
            pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<bool>::empty(), r.is_clean() { BitVec { v: Vec::new(), clean: Ghost(true), o: core::marker::PhantomData } }
            pub fn push(&mut self, b: bool) ensures final(self)@ == old(self)@.push(b), final(self).clean == old(self).clean { self.v.push(b) }
            pub fn pop(&mut self) -> (r: Option<bool>)
                ensures
                    old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                    old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
            { self.clean = Ghost(false); self.v.pop() }
            pub fn truncate(&mut self, n: usize)
                ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
            { self.clean = Ghost(false); self.v.truncate(n) }
            pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
            pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
            pub fn iter(&self) -> (r: core::slice::Iter<'_, bool>)
                ensures
                    r.remaining().len() == self@.len(),
                    forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.remaining()[i]) == self@[i],
                    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
            { self.v.iter() }
            // the storage: whole bytes, most significant bit first; bits past the
            // length are whatever they are, unless it is clean
            #[verifier::external_body]
            pub fn into_vec(self) -> (r: Vec<u8>)
                ensures
                    r@.len() == (self@.len() + 7) / 8,
                    bits_of(r@).len() >= self@.len(),
                    bits_of(r@).take(self@.len() as int) == self@,
                    self.is_clean() ==> packed(r@, self@),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn from_vec(v: Vec<u8>) -> (r: Self)
                ensures r@ == bits_of(v@)
            { unimplemented!() }
            pub fn iter_mut(&mut self) -> (r: IterMut<'_, O, T>)
                ensures r.rem() == old(self)@, *final(self) == *old(self), r.pos == 0, r.wf(),
            {
                let mut w: Vec<bool> = Vec::new();
                for i in 0..self.v.len() invariant w@ == self.v@.take(i as int) { w.push(self.v[i]); assert(w@ =~= self.v@.take(i + 1)); }
                assert(w@ =~= self.v@);
                assert(w@.skip(0) =~= w@);
                IterMut { v: w, pos: 0, p: core::marker::PhantomData }
            }
        }
        // bitvec::slice::IterMut, used through `&mut`.  Not an `Iterator` here: `take`
        // advances at once (the crate advances as the `Take` is consumed).
        pub struct IterMut<'a, O, T> { pub v: Vec<bool>, pub pos: usize, pub p: core::marker::PhantomData<&'a (O, T)> }
        impl<'a, O, T> IterMut<'a, O, T> {
            pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
            pub open spec fn rem(&self) -> Seq<bool> { self.v@.skip(self.pos as int) }
            pub fn next(&mut self) -> (r: Option<&bool>)
                requires old(self).wf(),
                ensures
                    final(self).wf(),
                    old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
                    old(self).rem().len() > 0 ==> r is Some && *(r->0) == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
            {
                if self.pos == self.v.len() { return None; }
                let p = self.pos;
                self.pos = p + 1;
                assert(self.v@.skip(self.pos as int) =~= self.v@.skip(p as int).skip(1));
                Some(&self.v[p])
            }
            pub fn take(&mut self, n: usize) -> (r: core::slice::Iter<'_, bool>)
                requires old(self).wf(),
                ensures
                    final(self).wf(),
                    r.remaining().len() == if n <= old(self).rem().len() { n as int } else { old(self).rem().len() as int },
                    forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == old(self).rem()[i],
                    final(self).rem() == old(self).rem().skip(r.remaining().len() as int),
                    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
            {
                let p = self.pos;
                let k = if n <= self.v.len() - p { n } else { self.v.len() - p };
                self.pos = p + k;
                assert(self.v@.skip(self.pos as int) =~= self.v@.skip(p as int).skip(k as int));
                self.v[p..p + k].iter()
            }
        }
        impl<O, T> Clone for BitVec<O, T> {
            #[verifier::external_body]
            fn clone(&self) -> (r: Self) ensures r@ == self@, r == *self { unimplemented!() }
        }
        impl<'a, O, T> IntoIterator for &'a BitVec<O, T> {
            type Item = &'a bool;
            type IntoIter = core::slice::Iter<'a, bool>;
            fn into_iter(self) -> (r: core::slice::Iter<'a, bool>)
                ensures
                    r.remaining().len() == self@.len(),
                    forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.remaining()[i]) == self@[i],
                    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
            { self.v.iter() }
        }
    }
    pub assume_specification<K, V, S> [ std::collections::HashMap::<K, V, S>::with_hasher ](s: S) -> (r: std::collections::HashMap<K, V, S>)
        ensures r@ == Map::<K, V>::empty();
    // the owned key that a borrowed one stands for
    pub uninterp spec fn borrowed_to<K, Q: ?Sized>(k: &Q) -> K;
    pub broadcast axiom fn axiom_borrowed_same<K>(k: &K) ensures #[trigger] borrowed_to::<K, K>(k) == *k;
    pub assume_specification<'a, K, V, S, A, Q> [ std::collections::HashMap::<K, V, S, A>::get_mut ](m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
        where A: std::alloc::Allocator, K: Eq + std::hash::Hash + std::borrow::Borrow<Q>, Q: std::marker::MetaSized + std::hash::Hash + Eq + ?Sized, S: std::hash::BuildHasher
        ensures
            vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> {
                &&& r is Some <==> old(m)@.contains_key(borrowed_to::<K, Q>(k))
                &&& r is Some ==> *r->0 == old(m)@[borrowed_to::<K, Q>(k)] && final(m)@ == old(m)@.insert(borrowed_to::<K, Q>(k), *final(r->0))
                &&& r is None ==> final(m)@ == old(m)@
            };
    pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>)
        ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < s@.len() ==> cloned(s@[i], r@[i]);
    // ---------------------------------------------------------------
    // std::collections::BinaryHeap: a multiset that pops a greatest element
    // ---------------------------------------------------------------
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct BinaryHeap<T> { v: Vec<T> }
    impl<T> BinaryHeap<T> {
        pub uninterp spec fn ms(&self) -> Multiset<T>;
    }
    impl<T: Ord> BinaryHeap<T> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r.ms() == Multiset::<T>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.ms().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.ms().len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn push(&mut self, t: T) ensures final(self).ms() == old(self).ms().insert(t) { unimplemented!() }
        #[verifier::external_body]
        pub fn pop(&mut self) -> (r: Option<T>)
            requires <T as OrdSpec>::obeys_cmp_spec(),
            ensures
                old(self).ms().len() == 0 ==> r is None && final(self).ms() == old(self).ms(),
                old(self).ms().len() > 0 ==> r is Some && old(self).ms().contains(r->0)
                    && final(self).ms() == old(self).ms().remove(r->0)
                    && forall|x: T| #[trigger] old(self).ms().contains(x) ==> x.cmp_spec(&(r->0)) != Ordering::Greater,
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn fmt_string() -> String { unimplemented!() }
    #[verifier::external_body]
    pub fn print_text() { unimplemented!() }
    // ---------------------------------------------------------------
    // std::thread: spawn runs the closure to completion, join hands back its
    // result.  A closure whose precondition holds does not panic (that is what
    // verifying its body shows), so join is never Err.
    // ---------------------------------------------------------------
    pub mod thread {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct JoinHandle<T> { p: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct PanicPayload { p: () }
        impl<T> JoinHandle<T> {
            pub uninterp spec fn result(&self, t: T) -> bool;
            #[verifier::external_body]
            pub fn join(self) -> (r: Result<T, PanicPayload>)
                ensures r is Ok, self.result(r->Ok_0)
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn spawn<F: FnOnce() -> T, T>(f: F) -> (r: JoinHandle<T>)
            requires f.requires(())
            ensures forall|t: T| #[trigger] r.result(t) ==> f.ensures((), t)
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct BoxError { p: () }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExTryFromSliceError(core::array::TryFromSliceError);
    impl From<core::array::TryFromSliceError> for BoxError {
        #[verifier::external_body]
        fn from(e: core::array::TryFromSliceError) -> Self { unimplemented!() }
    }
    // ---------------------------------------------------------------
    // integers as bytes (core::num `to_be_bytes` and friends)
    // ---------------------------------------------------------------
    pub mod ext {
        pub use super::BoxError;
        use vstd::prelude::*;
        use vstd::bytes::*;
        // little-endian bytes of an integer of n bytes (two's complement)
        pub open spec fn le_seq(x: int, n: nat) -> Seq<u8>
            decreases n
        {
            if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_seq(x / 256, (n - 1) as nat) }
        }
        pub open spec fn le_int(s: Seq<u8>) -> int
            decreases s.len()
        {
            if s.len() == 0 { 0 } else { s[0] as int + 256 * le_int(s.skip(1)) }
        }
        pub proof fn lemma_le_seq(x: int, n: nat)
            ensures le_seq(x, n).len() == n,
            decreases n
        {
            if n > 0 { lemma_le_seq(x / 256, (n - 1) as nat); }
        }
        pub proof fn lemma_le_inv(x: int, n: nat)
            ensures le_int(le_seq(x, n)) == x % vstd::arithmetic::power::pow(256, n), le_seq(x, n).len() == n,
            decreases n
        {
            if n > 0 {
                let s = le_seq(x, n);
                lemma_le_seq(x / 256, (n - 1) as nat);
                lemma_le_inv(x / 256, (n - 1) as nat);
                assert(s.skip(1) =~= le_seq(x / 256, (n - 1) as nat));
                let p = vstd::arithmetic::power::pow(256, (n - 1) as nat);
                vstd::arithmetic::power::lemma_pow_positive(256, (n - 1) as nat);
                assert(vstd::arithmetic::power::pow(256, n) == 256 * p) by { reveal(vstd::arithmetic::power::pow); }
                let q = x / 256;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, p);
                assert(x == 256 * q + x % 256);
                assert(q == p * (q / p) + q % p);
                assert(0 <= q % p < p) by { vstd::arithmetic::div_mod::lemma_mod_bound(q, p); }
                assert(x == (q / p) * (256 * p) + (256 * (q % p) + x % 256)) by (nonlinear_arith)
                    requires x == 256 * q + x % 256, q == p * (q / p) + q % p;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, 256 * p, q / p, 256 * (q % p) + x % 256);
            } else {
                reveal(vstd::arithmetic::power::pow);
                assert(x % 1 == 0);
            }
        }
        // slice -> array
        pub trait VxTryInto<U>: Sized {
            spec fn ok_spec(&self, u: &U) -> bool;
            spec fn err_spec(&self) -> bool;
            fn vx_try_into(self) -> (r: Result<U, core::array::TryFromSliceError>)
                ensures r is Ok ==> self.ok_spec(&r->Ok_0), r is Err ==> self.err_spec();
        }
        impl<T: Copy, const N: usize> VxTryInto<[T; N]> for &[T] {
            open spec fn ok_spec(&self, u: &[T; N]) -> bool { self@.len() == N && u@ == self@ }
            open spec fn err_spec(&self) -> bool { self@.len() != N }
            #[verifier::external_body]
            fn vx_try_into(self) -> (r: Result<[T; N], core::array::TryFromSliceError>) { self.try_into() }
        }
        // Vec::extend
        pub trait VxItems<T>: Sized {
            #[verifier::prophetic]
            spec fn items(&self) -> Seq<T>;
            fn append_to(self, v: &mut Vec<T>)
                ensures final(v)@ == old(v)@ + self.items();
        }
        impl<'a, T: Copy> VxItems<T> for core::slice::Iter<'a, T> {
            #[verifier::prophetic]
            open spec fn items(&self) -> Seq<T> { vstd::std_specs::iter::IteratorSpec::remaining(self).map_values(|x: &T| *x) }
            #[verifier::external_body]
            fn append_to(self, v: &mut Vec<T>) { v.extend(self) }
        }
        impl<'a, T: Copy> VxItems<T> for &'a [T] {
            #[verifier::prophetic]
            open spec fn items(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn append_to(self, v: &mut Vec<T>) { v.extend(self) }
        }
        impl<'a, T: Copy> VxItems<T> for &'a Vec<T> {
            #[verifier::prophetic]
            open spec fn items(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn append_to(self, v: &mut Vec<T>) { v.extend(self) }
        }
        impl<T, const N: usize> VxItems<T> for [T; N] {
            #[verifier::prophetic]
            open spec fn items(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn append_to(self, v: &mut Vec<T>) { v.extend(self) }
        }
        impl<T> VxItems<T> for Vec<T> {
            #[verifier::prophetic]
            open spec fn items(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn append_to(self, v: &mut Vec<T>) { v.extend(self) }
        }
        pub trait VxExtend<T>: Sized {
            fn vx_extend<I: VxItems<T>>(&mut self, i: I);
        }
        impl<T> VxExtend<T> for Vec<T> {
            fn vx_extend<I: VxItems<T>>(&mut self, i: I)
                ensures final(self)@ == old(self)@ + i.items()
            { i.append_to(self) }
        }
        // the integer that a local bound to an integer or to a reference to one stands for
        pub trait VxVal: Sized { fn vx_val(&self) -> (r: Self) ensures r == *self; }
        impl VxVal for u8 { fn vx_val(&self) -> (r: Self) { *self } }
        impl VxVal for u16 { fn vx_val(&self) -> (r: Self) { *self } }
        impl VxVal for u32 { fn vx_val(&self) -> (r: Self) { *self } }
        impl VxVal for u64 { fn vx_val(&self) -> (r: Self) { *self } }
        impl VxVal for usize { fn vx_val(&self) -> (r: Self) { *self } }
        impl VxVal for bool { fn vx_val(&self) -> (r: Self) { *self } }
        // Option<Box<T>>::as_deref / as_deref_mut
        pub trait VxDeref<T> {
            spec fn inner(&self) -> Option<T>;
            fn vx_as_deref(&self) -> (r: Option<&T>)
                ensures r is Some <==> self.inner() is Some, r is Some ==> *r->0 == self.inner()->0;
            fn vx_as_deref_mut(&mut self) -> (r: Option<&mut T>)
                ensures
                    r is Some <==> old(self).inner() is Some,
                    r is Some ==> *r->0 == old(self).inner()->0 && final(self).inner() == Some(*final(r->0)),
                    r is None ==> final(self).inner() is None;
        }
        impl<T> VxDeref<T> for Option<Box<T>> {
            open spec fn inner(&self) -> Option<T> { if *self is Some { Some(*self->0) } else { None } }
            fn vx_as_deref(&self) -> (r: Option<&T>) { if let Some(b) = self { let t = &**b; proof { assert(*self is Some); assert(*self->0 == *t); assert(self.inner() == Some(*self->0)); } Some(t) } else { proof { assert(*self is None); assert(self.inner() is None); } None } }
            fn vx_as_deref_mut(&mut self) -> (r: Option<&mut T>) { match self { Some(b) => Some(&mut **b), None => None } }
        }
        pub trait VxBytes<const N: usize>: Sized {
            spec fn be_spec(&self) -> Seq<u8>;
            spec fn from_be_spec(s: Seq<u8>) -> Self;
            fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be_spec();
            fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures r == Self::from_be_spec(b@);
            fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.be_spec().reverse();
            fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r == Self::from_be_spec(b@.reverse());
        }
        impl VxBytes<1> for u8 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 1).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { le_int(s.reverse()) as u8 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 1]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 1]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 1]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<2> for u16 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 2).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { le_int(s.reverse()) as u16 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<4> for u32 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 4).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { le_int(s.reverse()) as u32 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<8> for u64 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 8).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { le_int(s.reverse()) as u64 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<8> for usize {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 8).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { le_int(s.reverse()) as usize }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<16> for u128 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 16).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { le_int(s.reverse()) as u128 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 16]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 16]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 16]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<1> for i8 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 1).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { (if le_int(s.reverse()) < 128 { le_int(s.reverse()) } else { le_int(s.reverse()) - 256 }) as i8 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 1]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 1]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 1]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<2> for i16 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 2).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { (if le_int(s.reverse()) < 32768 { le_int(s.reverse()) } else { le_int(s.reverse()) - 65536 }) as i16 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<4> for i32 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 4).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { (if le_int(s.reverse()) < 2147483648 { le_int(s.reverse()) } else { le_int(s.reverse()) - 4294967296 }) as i32 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<8> for i64 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 8).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { (if le_int(s.reverse()) < 9223372036854775808 { le_int(s.reverse()) } else { le_int(s.reverse()) - 18446744073709551616 }) as i64 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<8> for isize {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 8).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { (if le_int(s.reverse()) < 9223372036854775808 { le_int(s.reverse()) } else { le_int(s.reverse()) - 18446744073709551616 }) as isize }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { Self::from_le_bytes(b) }
        }
        impl VxBytes<16> for i128 {
            open spec fn be_spec(&self) -> Seq<u8> { le_seq(*self as int, 16).reverse() }
            open spec fn from_be_spec(s: Seq<u8>) -> Self { (if le_int(s.reverse()) < 170141183460469231731687303715884105728 { le_int(s.reverse()) } else { le_int(s.reverse()) - 340282366920938463463374607431768211456 }) as i128 }
            #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 16]) { self.to_be_bytes() }
            #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 16]) -> (r: Self) { Self::from_be_bytes(b) }
            #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
            #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 16]) -> (r: Self) { Self::from_le_bytes(b) }
        }
    }
}
global size_of usize == 8;
