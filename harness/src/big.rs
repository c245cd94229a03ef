#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! { pub struct U1024(16); }
pub type U = U1024;
pub fn u(x: u128) -> U { U::from(x) }
/// floor of the square root
pub fn isqrt(n: U) -> U {
    if n.is_zero() { return n; }
    let mut x = U::one() << ((n.bits() + 1) / 2);
    loop {
        let y = (x + n / x) >> 1;
        if y >= x { return x; }
        x = y;
    }
}
