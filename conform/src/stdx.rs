//! spec/00_xstd.rs against std
use super::R;
use std::cmp::Ordering;
fn ones(mut x: u128) -> u32 { let mut n = 0; while x > 0 { n += (x % 2) as u32; x /= 2; } n }
// Some(b^e), None past `max`
fn pow(b: u128, e: u32, max: u128) -> Option<u128> { let mut r: u128 = 1; for _ in 0..e { r = r.checked_mul(b)?; if r > max { return None; } if r < 2 { break; } } Some(r) }
macro_rules! is { ($a:expr, $b:expr) => { if $a != $b { return Err(format!("line {}: {:?} {:?}", line!(), $a, $b)); } } }
macro_rules! ints { ($r:expr, $($t:ident)*) => { $( {
    let pick = |r: &mut R| -> $t { let x = ((r.n() as u128) << 64 | r.n() as u128) as $t; match r.b(6) { 0 => x, 1 => x >> (r.b($t::BITS as u64) as u32), 2 => $t::MAX - r.b(3) as $t, 3 => (1 as $t) << (r.b($t::BITS as u64) as u32), _ => r.b(9) as $t } };
    for _ in 0..20 {
        let (a, b, n) = (pick($r), pick($r), $r.b(140) as u32); let (wa, wb, m, bits) = (a as u128, b as u128, $t::MAX as u128, $t::BITS);
        is!(a.abs_diff(b), if a > b { a - b } else { b - a });
        is!(a.checked_shl(n), if n < bits { Some(a << n) } else { None });
        is!(a.checked_shr(n), if n < bits { Some(a >> n) } else { None });
        is!(a.checked_pow(n).map(|x| x as u128), pow(wa, n, m));
        if let Some(p) = pow(wa, n, m) { is!(a.pow(n) as u128, p); }
        is!(a.overflowing_add(b), (a.wrapping_add(b), wa.checked_add(wb).map_or(true, |x| x > m)));
        is!(a.overflowing_sub(b), (a.wrapping_sub(b), a < b));
        is!(a.overflowing_mul(b), (a.wrapping_mul(b), wa.checked_mul(wb).map_or(true, |x| x > m)));
        is!(a.is_power_of_two(), (0..bits).any(|k| a == (1 as $t) << k));
        is!(a.count_ones(), ones(wa)); is!(a.count_zeros(), bits - ones(wa));
        if b != 0 {
            let c = wa / wb + (wa % wb != 0) as u128;
            is!(a.div_ceil(b) as u128, c);
            if let Some(x) = c.checked_mul(wb) { if x <= m { is!(a.next_multiple_of(b) as u128, x); } }
            is!(a.rem_euclid(b), a % b); is!(a.div_euclid(b), a / b);
        }
        if n == 0 { is!(a.rotate_left(n), a); is!(a.rotate_right(n), a); }
        else if n < bits { is!(a.rotate_left(n), (a << n) | (a >> (bits - n))); is!(a.rotate_right(n), (a >> n) | (a << (bits - n))); }
        is!(std::cmp::min(a, b), if a > b { b } else { a }); is!(std::cmp::max(a, b), if a > b { a } else { b });
    }
} )* } }
// tells values apart that compare equal
#[derive(Debug, Clone, Copy)] struct K(u8, u8);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
pub fn run(r: &mut R) -> Result<(), String> {
    ints!(r, u8 u16 u32 u64 usize u128);
    let (a, b) = (K(r.b(3) as u8, 1), K(r.b(3) as u8, 2));
    is!(std::cmp::min(a, b).1, if a.cmp(&b) == Ordering::Greater { 2 } else { 1 });
    is!(std::cmp::max(a, b).1, if a.cmp(&b) == Ordering::Greater { 1 } else { 2 });
    for x in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
        is!(x.reverse(), match x { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
        for y in [Ordering::Less, Ordering::Equal, Ordering::Greater] { is!(x.then(y), if x == Ordering::Equal { y } else { x }); }
        is!((x.is_lt(), x.is_le(), x.is_gt(), x.is_ge(), x.is_eq(), x.is_ne()), (x == Ordering::Less, x != Ordering::Greater, x == Ordering::Greater, x != Ordering::Less, x == Ordering::Equal, x != Ordering::Equal));
    }
    let mut x = 5; is!(std::mem::replace(&mut x, 6), 5); is!(x, 6); is!(std::mem::take(&mut x), 6); is!(x, 0);
    let g = |r: &mut R| if r.b(2) == 0 { None } else { Some(r.b(9)) };
    let (o, p) = (g(r), g(r));
    is!(o.map_or(99, |x| x + 1), match o { Some(x) => x + 1, None => 99 });
    is!(o.map_or_else(|| 99, |x| x + 1), match o { Some(x) => x + 1, None => 99 });
    is!(o.filter(|x| x % 2 == 0), match o { Some(x) if x % 2 == 0 => Some(x), _ => None });
    is!(o.or(p), if o.is_some() { o } else { p }); is!(o.or_else(|| p), if o.is_some() { o } else { p });
    is!(o.xor(p), match (o, p) { (Some(_), None) => o, (None, Some(_)) => p, _ => None });
    is!(o.is_some_and(|x| x > 4), match o { Some(x) => x > 4, None => false }); is!(o.is_none_or(|x| x > 4), match o { Some(x) => x > 4, None => true });
    is!(o.as_ref().copied(), o); is!(o.zip(p), match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None });
    let mut q = o; is!(q.replace(3), o); is!(q, Some(3)); is!(Some(o).flatten(), o); is!(None::<Option<u64>>.flatten(), None::<u64>);
    let e: Result<u64, u64> = if r.b(2) == 0 { Ok(r.b(9)) } else { Err(r.b(9)) };
    is!(e.unwrap_or(50), match e { Ok(x) => x, Err(_) => 50 }); is!(e.unwrap_or_default(), match e { Ok(x) => x, Err(_) => 0 });
    is!(e.unwrap_or_else(|x| x + 100), match e { Ok(x) => x, Err(x) => x + 100 }); is!(e.map_or(50, |x| x + 1), match e { Ok(x) => x + 1, Err(_) => 50 });
    is!(e.and_then(|x| if x > 4 { Ok(x + 1) } else { Err(70) }), match e { Ok(x) if x > 4 => Ok(x + 1), Ok(_) => Err(70), Err(x) => Err(x) }); is!(e.is_ok_and(|x| x > 4), match e { Ok(x) => x > 4, Err(_) => false });
    let k = r.b(6) as usize; let mut v: Vec<u8> = (0..k).map(|_| r.b(4) as u8).collect(); let w = v.clone();
    is!(v.contains(&2), (0..k).any(|i| v[i] == 2)); v.reverse(); for i in 0..k { is!(v[i], w[k - 1 - i]); } v.reverse();
    if k > 0 { let (i, j) = (r.b(k as u64) as usize, r.b(k as u64) as usize); v.swap(i, j); let mut u = w.clone(); u[i] = w[j]; u[j] = w[i]; is!(v, u); is!(w.split_last(), Some((&w[k - 1], &w[..k - 1]))); } else { is!(w.split_last().is_none(), true); }
    let mut c = w.clone(); c.reserve(50); if c.capacity() < c.len() { return Err("capacity".into()); } c.shrink_to_fit(); is!(c, w);
    let d = r.n() as u8; is!(d.is_ascii_digit(), d >= 48 && d <= 57);
    Ok(())
}
