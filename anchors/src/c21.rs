//! C21: spherical interpolation.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::quaternion::Quaternion;
fn lerp(a: [f64; 4], b: [f64; 4], t: f64) -> [f64; 4] { add4(sc4(a, 1.0 - t), sc4(b, t)) }
/// b = cos(h) a + sin(h) p with p a unit quaternion orthogonal to a: any pair of unit quaternions
#[allow(dead_code)]
fn arc(a: [f64; 4], p: [f64; 4], h: f64) -> [f64; 4] { add4(sc4(a, h.cos()), sc4(p, h.sin())) }
/// a unit quaternion orthogonal to the unit a: u*a with u pure and unit
#[allow(dead_code)]
fn ortho(u: [f64; 3], a: [f64; 4]) -> [f64; 4] { unit3(u); qm(pure(u), a) }
pub fn r_zero(a: [f64; 4], b: [f64; 4]) {
    unit(a); unit(b);
    assume(abs(dotn(&a, &b)) < 0.9999994);
    eq(&qa(Quaternion::slerp(q(a), q(b), 0.0)), &a);
}
pub fn r_one(a: [f64; 4], b: [f64; 4]) {
    unit(a); unit(b);
    assume(abs(dotn(&a, &b)) < 0.9999994);
    let x = qa(Quaternion::slerp(q(a), q(b), 1.0));
    if dotn(&a, &b) < 0.0 { eq(&x, &sc4(b, -1.0)); } else { eq(&x, &b); }
}
/// weights on the first arc: x = a sin((1-t)h)/sin h + (+-b) sin(t h)/sin h, h the angle between a and +-b
pub fn r_arc(a: [f64; 4], b: [f64; 4], t: f64) {
    unit(a); unit(b);
    let c = dotn(&a, &b);
    assume(abs(c) < 1.0);
    let (m, bb) = if c < 0.0 { (-c, sc4(b, -1.0)) } else { (c, b) };
    assume((1.0 - m * m).sqrt() > 0.001000001);
    let h = m.acos();
    let x = qa(Quaternion::slerp(q(a), q(b), t));
    let s = h.sin();
    label("point");
    eq(&sc4(x, s), &add4(sc4(a, ((1.0 - t) * h).sin()), sc4(bb, (t * h).sin())));
    label("angle"); eq(&dotn(&x, &a), &(t * h).cos());
    label("unit"); eq(&dotn(&x, &x), &1.0);
}
pub fn r_near(a: [f64; 4], b: [f64; 4], t: f64) {
    unit(a); unit(b);
    let c = dotn(&a, &b);
    assume(c < 1.0); assume(c > 0.0); assume((1.0 - c * c).sqrt() < 0.000999999);
    eq(&qa(Quaternion::slerp(q(a), q(b), t)), &lerp(a, b, t));
}
pub fn r_near_opposite(a: [f64; 4], b: [f64; 4], t: f64) {
    unit(a); unit(b);
    let c = dotn(&a, &b);
    assume(c > -1.0); assume(c < 0.0); assume((1.0 - c * c).sqrt() < 0.000999999);
    eq(&qa(Quaternion::slerp(q(a), q(b), t)), &lerp(a, sc4(b, -1.0), t));
}
pub fn r_same(a: [f64; 4], t: f64) { unit(a); eq(&qa(Quaternion::slerp(q(a), q(a), t)), &a); }
pub fn r_opposite(a: [f64; 4], t: f64) { unit(a); eq(&m3a(Quaternion::slerp(q(a), -q(a), t).to_rotation()), &qmat(a)); }
/// between: the result is on one of the two branches and unit up to the chord of the near-parallel branch
pub fn r_flagged(a: [f64; 4], b: [f64; 4], t: f64) { unit(a); unit(b); eq(&qa(Quaternion::slerp(fq(a), fq(b), t)), &qa(Quaternion::slerp(q(a), q(b), t))); }
