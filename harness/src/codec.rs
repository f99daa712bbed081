//! Reference codec of compressed points.
use crate::*;
use group::GroupEncoding;

pub type P<C> = Pt<<<C as HC>::Bf as HB>::R>;
pub type E<C> = <<<C as HC>::Bf as HB>::R as Fld>::E;

/// position of the flag byte
pub fn flag_pos<C: HC>() -> usize {
    match C::FLAGS {
        Flags::Extra => 0,
        _ if C::Bf::big_endian() => 0,
        _ => C::comp_size() - 1,
    }
}
/// (identity bit, sign bit, compressed bit)
pub fn bits<C: HC>() -> (u8, u8, u8) {
    match C::FLAGS {
        Flags::Extra | Flags::Two => (0x40, 0x80, 0),
        Flags::Three => (0x40, 0x20, 0x80),
    }
}
pub fn sign<C: HC>(f: &<C::Bf as HB>::R, y: &E<C>) -> bool {
    let c = f.coeffs(y);
    if C::LEX {
        // greater than the negation, highest coefficient first
        let n = f.coeffs(&f.neg(y));
        c.iter().rev().cmp(n.iter().rev()) == std::cmp::Ordering::Greater
    } else {
        // RFC 9380 sgn0
        for v in &c {
            if !v.is_zero() {
                return v.bit(0);
            }
        }
        false
    }
}
/// The coordinates of the base field as the encoding lays them out, each a little-endian integer.
pub fn field_ints<C: HC>(b: &[u8]) -> Vec<BigUint> {
    let d = C::Bf::ctx().deg();
    let n = b.len() / d;
    let mut v: Vec<BigUint> =
        b.chunks(n).map(|c| if C::Bf::big_endian() { BigUint::from_bytes_be(c) } else { BigUint::from_bytes_le(c) }).collect();
    if C::Bf::big_endian() && order_rev::<C>() {
        v.reverse();
    }
    v
}
/// do big-endian extension encodings put the highest coefficient first?
pub fn order_rev<C: HC>() -> bool {
    // settled by C04's specification: the coefficients in the field's declared order
    let f = C::Bf::ctx();
    if f.deg() == 1 {
        return false;
    }
    let mut c = vec![BigUint::zero(); f.deg()];
    c[0] = BigUint::one();
    let b = C::Bf::of_r(&f.of_coeffs(&c)).ebytes();
    let n = b.len() / f.deg();
    b[..n].iter().all(|x| *x == 0)
}
pub fn ints_field<C: HC>(v: &[BigUint]) -> Vec<u8> {
    let d = v.len();
    let n = C::Bf::BSIZE / d;
    let mut v = v.to_vec();
    if C::Bf::big_endian() && order_rev::<C>() {
        v.reverse();
    }
    v.iter()
        .flat_map(|x| {
            let mut b = le_bytes(x, n);
            if C::Bf::big_endian() {
                b.reverse();
            }
            b
        })
        .collect()
}
pub fn encode<C: HC>(ec: &Ec<<C::Bf as HB>::R>, p: &P<C>) -> Vec<u8> {
    let f = &ec.f;
    let (id, sg, cm) = bits::<C>();
    let (x, fl) = match p {
        None => (f.zero(), id),
        Some((x, y)) => (x.clone(), if sign::<C>(f, y) { sg } else { 0 }),
    };
    let mut b = ints_field::<C>(&f.coeffs(&x));
    if C::FLAGS == Flags::Extra {
        b.insert(0, 0);
    }
    b[flag_pos::<C>()] |= fl | cm;
    b
}
/// What a decoder must answer. `roots` gives a root of the right-hand side at x.
pub fn decode<C: HC>(ec: &Ec<<C::Bf as HB>::R>, b: &[u8], root: &dyn Fn(&E<C>) -> Option<E<C>>) -> Option<P<C>> {
    let f = &ec.f;
    let (id, sg, cm) = bits::<C>();
    let mut b = b.to_vec();
    let i = flag_pos::<C>();
    let fl = b[i] & (id | sg | cm);
    b[i] &= !(id | sg | cm);
    if fl & cm != cm {
        return None;
    }
    if C::FLAGS == Flags::Extra && b.remove(0) != 0 {
        return None;
    }
    let c = field_ints::<C>(&b);
    if c.iter().any(|v| *v >= f.chr()) {
        return None;
    }
    let x = f.of_coeffs(&c);
    if fl & id != 0 {
        return (f.is_zero(&x) && fl & sg == 0).then_some(None);
    }
    let y = root(&x)?;
    let y = if sign::<C>(f, &y) == (fl & sg != 0) { y } else { f.neg(&y) };
    if sign::<C>(f, &y) != (fl & sg != 0) {
        return None;
    }
    Some(Some((x, y)))
}
pub fn repr<T: GroupEncoding>(b: &[u8]) -> T::Repr {
    let mut r = T::Repr::default();
    r.as_mut().copy_from_slice(b);
    r
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
