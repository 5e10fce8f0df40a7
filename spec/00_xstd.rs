// Functions of std for which vstd has no contract and which do nothing but compute: assumed
// contracts, so that code using them stays within the verifier's reach (tested by /verif/conform).
pub mod stdx {
    use vstd::prelude::*;
    use core::cmp::Ordering;
    use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};
    pub open spec fn ipow(b: int, e: nat) -> int { vstd::arithmetic::power::pow(b, e) }
    pub open spec fn p2(e: nat) -> int { vstd::arithmetic::power2::pow2(e) as int }
    pub open spec fn ones(x: nat) -> nat decreases x { if x == 0 { 0 } else { (x % 2) + ones(x / 2) } }
    pub assume_specification<T: Ord>[core::cmp::min::<T>](a: T, b: T) -> (r: T)
        ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });
    pub assume_specification<T: Ord>[core::cmp::max::<T>](a: T, b: T) -> (r: T)
        ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
    pub assume_specification[Ordering::reverse](a: Ordering) -> (r: Ordering)
        ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
    pub assume_specification[Ordering::then](a: Ordering, b: Ordering) -> (r: Ordering)
        ensures r == (if a == Ordering::Equal { b } else { a });
    pub assume_specification[Ordering::is_lt](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
    pub assume_specification[Ordering::is_le](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
    pub assume_specification[Ordering::is_gt](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
    pub assume_specification[Ordering::is_ge](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
    pub assume_specification[Ordering::is_eq](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
    pub assume_specification[Ordering::is_ne](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
    pub assume_specification<T>[core::mem::replace::<T>](d: &mut T, s: T) -> (r: T)
        ensures r == *old(d), *final(d) == s;
    pub assume_specification<T: Default>[core::mem::take::<T>](d: &mut T) -> (r: T)
        ensures r == *old(d), T::default.ensures((), *final(d));
    pub assume_specification<T>[core::mem::drop::<T>](d: T);
    // Option
    pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or::<U, F>](a: Option<T>, d: U, f: F) -> (r: U)
        requires a is Some ==> f.requires((a->0,)),
        ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[Option::<T>::map_or_else::<U, D, F>](a: Option<T>, d: D, f: F) -> (r: U)
        requires a is Some ==> f.requires((a->0,)), a is None ==> d.requires(()),
        ensures a is None ==> d.ensures((), r), a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, P: FnOnce(&T) -> bool>[Option::<T>::filter::<P>](a: Option<T>, f: P) -> (r: Option<T>)
        requires a is Some ==> f.requires((&a->0,)),
        ensures a is None ==> r is None, a is Some ==> exists|b: bool| #[trigger] f.ensures((&a->0,), b) && r == (if b { a } else { None });
    pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some { a } else { b });
    pub assume_specification<T>[Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
    pub assume_specification<T, F: FnOnce() -> Option<T>>[Option::<T>::or_else::<F>](a: Option<T>, f: F) -> (r: Option<T>)
        requires a is None ==> f.requires(()),
        ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
    pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](a: Option<T>, f: F) -> (r: bool)
        requires a is Some ==> f.requires((a->0,)),
        ensures a is None ==> !r, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_none_or](a: Option<T>, f: F) -> (r: bool)
        requires a is Some ==> f.requires((a->0,)),
        ensures a is None ==> r, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](a: Option<&'a T>) -> (r: Option<T>)
        ensures a is None ==> r is None, a is Some ==> r == Some(*a->0);
    pub assume_specification<T>[Option::<T>::replace](a: &mut Option<T>, v: T) -> (r: Option<T>)
        ensures r == *old(a), *final(a) == Some(v);
    pub assume_specification<T>[Option::<Option<T>>::flatten](a: Option<Option<T>>) -> (r: Option<T>)
        ensures r == (if a is Some { a->0 } else { None });
    pub assume_specification<T, U>[Option::<T>::zip::<U>](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
        ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
    // Result
    pub assume_specification<T, E>[Result::<T, E>::unwrap_or](a: Result<T, E>, d: T) -> (r: T)
        ensures r == (if a is Ok { a->Ok_0 } else { d });
    pub assume_specification<T: Default, E>[Result::<T, E>::unwrap_or_default](a: Result<T, E>) -> (r: T)
        ensures a is Ok ==> r == a->Ok_0, a is Err ==> T::default.ensures((), r);
    pub assume_specification<T, E, F: FnOnce(E) -> T>[Result::<T, E>::unwrap_or_else::<F>](a: Result<T, E>, f: F) -> (r: T)
        requires a is Err ==> f.requires((a->Err_0,)),
        ensures a is Ok ==> r == a->Ok_0, a is Err ==> f.ensures((a->Err_0,), r);
    pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[Result::<T, E>::and_then::<U, F>](a: Result<T, E>, f: F) -> (r: Result<U, E>)
        requires a is Ok ==> f.requires((a->Ok_0,)),
        ensures a is Ok ==> f.ensures((a->Ok_0,), r), a is Err ==> r is Err && r->Err_0 == a->Err_0;
    pub assume_specification<T, E, U, F: FnOnce(T) -> U>[Result::<T, E>::map_or::<U, F>](a: Result<T, E>, d: U, f: F) -> (r: U)
        requires a is Ok ==> f.requires((a->Ok_0,)),
        ensures a is Ok ==> f.ensures((a->Ok_0,), r), a is Err ==> r == d;
    pub assume_specification<T, E, F: FnOnce(T) -> bool>[Result::<T, E>::is_ok_and](a: Result<T, E>, f: F) -> (r: bool)
        requires a is Ok ==> f.requires((a->Ok_0,)),
        ensures a is Err ==> !r, a is Ok ==> f.ensures((a->Ok_0,), r);
    // slices and vectors
    pub assume_specification<T: PartialEq>[<[T]>::contains](a: &[T], x: &T) -> (r: bool)
        ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i]).eq_spec(x);
    pub assume_specification<T>[<[T]>::swap](a: &mut [T], i: usize, j: usize)
        requires i < old(a)@.len(), j < old(a)@.len(),
        ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]);
    pub assume_specification<T>[<[T]>::reverse](a: &mut [T])
        ensures final(a)@ == old(a)@.reverse();
    pub assume_specification<T>[<[T]>::split_last](a: &[T]) -> (r: Option<(&T, &[T])>)
        ensures a@.len() == 0 ==> r is None, a@.len() > 0 ==> r is Some && *(r->0).0 == a@.last() && (r->0).1@ == a@.drop_last();
    pub assume_specification<T, A: core::alloc::Allocator>[Vec::<T, A>::shrink_to_fit](a: &mut Vec<T, A>)
        ensures final(a)@ == old(a)@;
    pub assume_specification<T, A: core::alloc::Allocator>[Vec::<T, A>::capacity](a: &Vec<T, A>) -> (r: usize)
        ensures r >= a@.len();
    pub assume_specification[u8::is_ascii_digit](a: &u8) -> (r: bool) ensures r == (48 <= *a <= 57);

    pub assume_specification[u8::abs_diff](a: u8, b: u8) -> (r: u8) ensures r == (if a > b { a - b } else { b - a });
    pub assume_specification[u8::checked_shl](a: u8, n: u32) -> (r: Option<u8>) ensures r == (if n < 8 { Some(a << n) } else { None });
    pub assume_specification[u8::checked_shr](a: u8, n: u32) -> (r: Option<u8>) ensures r == (if n < 8 { Some(a >> n) } else { None });
    pub assume_specification[u8::checked_pow](a: u8, n: u32) -> (r: Option<u8>)
        ensures ipow(a as int, n as nat) <= u8::MAX ==> r is Some && r->0 == ipow(a as int, n as nat), ipow(a as int, n as nat) > u8::MAX ==> r is None;
    pub assume_specification[u8::overflowing_add](a: u8, b: u8) -> (r: (u8, bool)) ensures r.0 == (a + b) as u8, r.1 == (a + b > u8::MAX);
    pub assume_specification[u8::overflowing_sub](a: u8, b: u8) -> (r: (u8, bool)) ensures r.0 == (a - b) as u8, r.1 == (a < b);
    pub assume_specification[u8::overflowing_mul](a: u8, b: u8) -> (r: (u8, bool)) ensures r.0 == (a * b) as u8, r.1 == (a * b > u8::MAX);
    pub assume_specification[u8::is_power_of_two](a: u8) -> (r: bool) ensures r == exists|k: nat| a == #[trigger] p2(k);
    pub assume_specification[u8::count_ones](a: u8) -> (r: u32) ensures r == ones(a as nat), r <= 8;
    pub assume_specification[u8::count_zeros](a: u8) -> (r: u32) ensures r == 8 - ones(a as nat), r <= 8;
    pub assume_specification[u8::div_ceil](a: u8, b: u8) -> (r: u8) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
    pub assume_specification[u8::next_multiple_of](a: u8, b: u8) -> (r: u8)
        requires b != 0, (a as int + b - 1) / (b as int) * b <= u8::MAX ensures r == (a as int + b - 1) / (b as int) * b;
    pub assume_specification[u8::rem_euclid](a: u8, b: u8) -> (r: u8) requires b != 0 ensures r == a % b;
    pub assume_specification[u8::div_euclid](a: u8, b: u8) -> (r: u8) requires b != 0 ensures r == a / b;
    pub assume_specification[u8::pow](a: u8, n: u32) -> (r: u8) requires ipow(a as int, n as nat) <= u8::MAX ensures r == ipow(a as int, n as nat);
    pub assume_specification[u8::rotate_left](a: u8, n: u32) -> (r: u8) ensures n == 0 ==> r == a, 0 < n < 8 ==> r == (a << n) | (a >> ((8 - n) as u32));
    pub assume_specification[u8::rotate_right](a: u8, n: u32) -> (r: u8) ensures n == 0 ==> r == a, 0 < n < 8 ==> r == (a >> n) | (a << ((8 - n) as u32));
    pub assume_specification[u16::abs_diff](a: u16, b: u16) -> (r: u16) ensures r == (if a > b { a - b } else { b - a });
    pub assume_specification[u16::checked_shl](a: u16, n: u32) -> (r: Option<u16>) ensures r == (if n < 16 { Some(a << n) } else { None });
    pub assume_specification[u16::checked_shr](a: u16, n: u32) -> (r: Option<u16>) ensures r == (if n < 16 { Some(a >> n) } else { None });
    pub assume_specification[u16::checked_pow](a: u16, n: u32) -> (r: Option<u16>)
        ensures ipow(a as int, n as nat) <= u16::MAX ==> r is Some && r->0 == ipow(a as int, n as nat), ipow(a as int, n as nat) > u16::MAX ==> r is None;
    pub assume_specification[u16::overflowing_add](a: u16, b: u16) -> (r: (u16, bool)) ensures r.0 == (a + b) as u16, r.1 == (a + b > u16::MAX);
    pub assume_specification[u16::overflowing_sub](a: u16, b: u16) -> (r: (u16, bool)) ensures r.0 == (a - b) as u16, r.1 == (a < b);
    pub assume_specification[u16::overflowing_mul](a: u16, b: u16) -> (r: (u16, bool)) ensures r.0 == (a * b) as u16, r.1 == (a * b > u16::MAX);
    pub assume_specification[u16::is_power_of_two](a: u16) -> (r: bool) ensures r == exists|k: nat| a == #[trigger] p2(k);
    pub assume_specification[u16::count_ones](a: u16) -> (r: u32) ensures r == ones(a as nat), r <= 16;
    pub assume_specification[u16::count_zeros](a: u16) -> (r: u32) ensures r == 16 - ones(a as nat), r <= 16;
    pub assume_specification[u16::div_ceil](a: u16, b: u16) -> (r: u16) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
    pub assume_specification[u16::next_multiple_of](a: u16, b: u16) -> (r: u16)
        requires b != 0, (a as int + b - 1) / (b as int) * b <= u16::MAX ensures r == (a as int + b - 1) / (b as int) * b;
    pub assume_specification[u16::rem_euclid](a: u16, b: u16) -> (r: u16) requires b != 0 ensures r == a % b;
    pub assume_specification[u16::div_euclid](a: u16, b: u16) -> (r: u16) requires b != 0 ensures r == a / b;
    pub assume_specification[u16::pow](a: u16, n: u32) -> (r: u16) requires ipow(a as int, n as nat) <= u16::MAX ensures r == ipow(a as int, n as nat);
    pub assume_specification[u16::rotate_left](a: u16, n: u32) -> (r: u16) ensures n == 0 ==> r == a, 0 < n < 16 ==> r == (a << n) | (a >> ((16 - n) as u32));
    pub assume_specification[u16::rotate_right](a: u16, n: u32) -> (r: u16) ensures n == 0 ==> r == a, 0 < n < 16 ==> r == (a >> n) | (a << ((16 - n) as u32));
    pub assume_specification[u32::abs_diff](a: u32, b: u32) -> (r: u32) ensures r == (if a > b { a - b } else { b - a });
    pub assume_specification[u32::checked_shl](a: u32, n: u32) -> (r: Option<u32>) ensures r == (if n < 32 { Some(a << n) } else { None });
    pub assume_specification[u32::checked_shr](a: u32, n: u32) -> (r: Option<u32>) ensures r == (if n < 32 { Some(a >> n) } else { None });
    pub assume_specification[u32::checked_pow](a: u32, n: u32) -> (r: Option<u32>)
        ensures ipow(a as int, n as nat) <= u32::MAX ==> r is Some && r->0 == ipow(a as int, n as nat), ipow(a as int, n as nat) > u32::MAX ==> r is None;
    pub assume_specification[u32::overflowing_add](a: u32, b: u32) -> (r: (u32, bool)) ensures r.0 == (a + b) as u32, r.1 == (a + b > u32::MAX);
    pub assume_specification[u32::overflowing_sub](a: u32, b: u32) -> (r: (u32, bool)) ensures r.0 == (a - b) as u32, r.1 == (a < b);
    pub assume_specification[u32::overflowing_mul](a: u32, b: u32) -> (r: (u32, bool)) ensures r.0 == (a * b) as u32, r.1 == (a * b > u32::MAX);
    pub assume_specification[u32::is_power_of_two](a: u32) -> (r: bool) ensures r == exists|k: nat| a == #[trigger] p2(k);
    pub assume_specification[u32::count_ones](a: u32) -> (r: u32) ensures r == ones(a as nat), r <= 32;
    pub assume_specification[u32::count_zeros](a: u32) -> (r: u32) ensures r == 32 - ones(a as nat), r <= 32;
    pub assume_specification[u32::div_ceil](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
    pub assume_specification[u32::next_multiple_of](a: u32, b: u32) -> (r: u32)
        requires b != 0, (a as int + b - 1) / (b as int) * b <= u32::MAX ensures r == (a as int + b - 1) / (b as int) * b;
    pub assume_specification[u32::rem_euclid](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a % b;
    pub assume_specification[u32::div_euclid](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a / b;
    pub assume_specification[u32::pow](a: u32, n: u32) -> (r: u32) requires ipow(a as int, n as nat) <= u32::MAX ensures r == ipow(a as int, n as nat);
    pub assume_specification[u32::rotate_left](a: u32, n: u32) -> (r: u32) ensures n == 0 ==> r == a, 0 < n < 32 ==> r == (a << n) | (a >> ((32 - n) as u32));
    pub assume_specification[u32::rotate_right](a: u32, n: u32) -> (r: u32) ensures n == 0 ==> r == a, 0 < n < 32 ==> r == (a >> n) | (a << ((32 - n) as u32));
    pub assume_specification[u64::abs_diff](a: u64, b: u64) -> (r: u64) ensures r == (if a > b { a - b } else { b - a });
    pub assume_specification[u64::checked_shl](a: u64, n: u32) -> (r: Option<u64>) ensures r == (if n < 64 { Some(a << n) } else { None });
    pub assume_specification[u64::checked_shr](a: u64, n: u32) -> (r: Option<u64>) ensures r == (if n < 64 { Some(a >> n) } else { None });
    pub assume_specification[u64::checked_pow](a: u64, n: u32) -> (r: Option<u64>)
        ensures ipow(a as int, n as nat) <= u64::MAX ==> r is Some && r->0 == ipow(a as int, n as nat), ipow(a as int, n as nat) > u64::MAX ==> r is None;
    pub assume_specification[u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 == (a + b) as u64, r.1 == (a + b > u64::MAX);
    pub assume_specification[u64::overflowing_sub](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 == (a - b) as u64, r.1 == (a < b);
    pub assume_specification[u64::overflowing_mul](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 == (a * b) as u64, r.1 == (a * b > u64::MAX);
    pub assume_specification[u64::is_power_of_two](a: u64) -> (r: bool) ensures r == exists|k: nat| a == #[trigger] p2(k);
    pub assume_specification[u64::count_ones](a: u64) -> (r: u32) ensures r == ones(a as nat), r <= 64;
    pub assume_specification[u64::count_zeros](a: u64) -> (r: u32) ensures r == 64 - ones(a as nat), r <= 64;
    pub assume_specification[u64::div_ceil](a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
    pub assume_specification[u64::next_multiple_of](a: u64, b: u64) -> (r: u64)
        requires b != 0, (a as int + b - 1) / (b as int) * b <= u64::MAX ensures r == (a as int + b - 1) / (b as int) * b;
    pub assume_specification[u64::rem_euclid](a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a % b;
    pub assume_specification[u64::div_euclid](a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a / b;
    pub assume_specification[u64::pow](a: u64, n: u32) -> (r: u64) requires ipow(a as int, n as nat) <= u64::MAX ensures r == ipow(a as int, n as nat);
    pub assume_specification[u64::rotate_left](a: u64, n: u32) -> (r: u64) ensures n == 0 ==> r == a, 0 < n < 64 ==> r == (a << n) | (a >> ((64 - n) as u32));
    pub assume_specification[u64::rotate_right](a: u64, n: u32) -> (r: u64) ensures n == 0 ==> r == a, 0 < n < 64 ==> r == (a >> n) | (a << ((64 - n) as u32));
    pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a - b } else { b - a });
    pub assume_specification[usize::checked_shl](a: usize, n: u32) -> (r: Option<usize>) ensures r == (if n < 64 { Some(a << n) } else { None });
    pub assume_specification[usize::checked_shr](a: usize, n: u32) -> (r: Option<usize>) ensures r == (if n < 64 { Some(a >> n) } else { None });
    pub assume_specification[usize::checked_pow](a: usize, n: u32) -> (r: Option<usize>)
        ensures ipow(a as int, n as nat) <= usize::MAX ==> r is Some && r->0 == ipow(a as int, n as nat), ipow(a as int, n as nat) > usize::MAX ==> r is None;
    pub assume_specification[usize::overflowing_add](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 == (a + b) as usize, r.1 == (a + b > usize::MAX);
    pub assume_specification[usize::overflowing_sub](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 == (a - b) as usize, r.1 == (a < b);
    pub assume_specification[usize::overflowing_mul](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 == (a * b) as usize, r.1 == (a * b > usize::MAX);
    pub assume_specification[usize::is_power_of_two](a: usize) -> (r: bool) ensures r == exists|k: nat| a == #[trigger] p2(k);
    pub assume_specification[usize::count_ones](a: usize) -> (r: u32) ensures r == ones(a as nat), r <= 64;
    pub assume_specification[usize::count_zeros](a: usize) -> (r: u32) ensures r == 64 - ones(a as nat), r <= 64;
    pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
    pub assume_specification[usize::next_multiple_of](a: usize, b: usize) -> (r: usize)
        requires b != 0, (a as int + b - 1) / (b as int) * b <= usize::MAX ensures r == (a as int + b - 1) / (b as int) * b;
    pub assume_specification[usize::rem_euclid](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a % b;
    pub assume_specification[usize::div_euclid](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a / b;
    pub assume_specification[usize::rotate_left](a: usize, n: u32) -> (r: usize) ensures n == 0 ==> r == a, 0 < n < 64 ==> r == (a << n) | (a >> ((64 - n) as u32));
    pub assume_specification[usize::rotate_right](a: usize, n: u32) -> (r: usize) ensures n == 0 ==> r == a, 0 < n < 64 ==> r == (a >> n) | (a << ((64 - n) as u32));
    pub assume_specification[u128::abs_diff](a: u128, b: u128) -> (r: u128) ensures r == (if a > b { a - b } else { b - a });
    pub assume_specification[u128::checked_shl](a: u128, n: u32) -> (r: Option<u128>) ensures r == (if n < 128 { Some(a << n) } else { None });
    pub assume_specification[u128::checked_shr](a: u128, n: u32) -> (r: Option<u128>) ensures r == (if n < 128 { Some(a >> n) } else { None });
    pub assume_specification[u128::checked_pow](a: u128, n: u32) -> (r: Option<u128>)
        ensures ipow(a as int, n as nat) <= u128::MAX ==> r is Some && r->0 == ipow(a as int, n as nat), ipow(a as int, n as nat) > u128::MAX ==> r is None;
    pub assume_specification[u128::overflowing_add](a: u128, b: u128) -> (r: (u128, bool)) ensures r.0 == (a + b) as u128, r.1 == (a + b > u128::MAX);
    pub assume_specification[u128::overflowing_sub](a: u128, b: u128) -> (r: (u128, bool)) ensures r.0 == (a - b) as u128, r.1 == (a < b);
    pub assume_specification[u128::overflowing_mul](a: u128, b: u128) -> (r: (u128, bool)) ensures r.0 == (a * b) as u128, r.1 == (a * b > u128::MAX);
    pub assume_specification[u128::is_power_of_two](a: u128) -> (r: bool) ensures r == exists|k: nat| a == #[trigger] p2(k);
    pub assume_specification[u128::count_ones](a: u128) -> (r: u32) ensures r == ones(a as nat), r <= 128;
    pub assume_specification[u128::count_zeros](a: u128) -> (r: u32) ensures r == 128 - ones(a as nat), r <= 128;
    pub assume_specification[u128::div_ceil](a: u128, b: u128) -> (r: u128) requires b != 0 ensures r == (a as int + b - 1) / (b as int);
    pub assume_specification[u128::next_multiple_of](a: u128, b: u128) -> (r: u128)
        requires b != 0, (a as int + b - 1) / (b as int) * b <= u128::MAX ensures r == (a as int + b - 1) / (b as int) * b;
    pub assume_specification[u128::rem_euclid](a: u128, b: u128) -> (r: u128) requires b != 0 ensures r == a % b;
    pub assume_specification[u128::div_euclid](a: u128, b: u128) -> (r: u128) requires b != 0 ensures r == a / b;
    pub assume_specification[u128::pow](a: u128, n: u32) -> (r: u128) requires ipow(a as int, n as nat) <= u128::MAX ensures r == ipow(a as int, n as nat);
    pub assume_specification[u128::rotate_left](a: u128, n: u32) -> (r: u128) ensures n == 0 ==> r == a, 0 < n < 128 ==> r == (a << n) | (a >> ((128 - n) as u32));
    pub assume_specification[u128::rotate_right](a: u128, n: u32) -> (r: u128) ensures n == 0 ==> r == a, 0 < n < 128 ==> r == (a >> n) | (a << ((128 - n) as u32));
    // no machine holds 2^60 bytes in one vector
    pub axiom fn axiom_vec_bytes()
        ensures forall|v: Vec<u8>| #[trigger] v@.len() <= 0x1000_0000_0000_0000;
}
