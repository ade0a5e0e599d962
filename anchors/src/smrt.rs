//! Vocabulary of the rules. These functions are never executed: the analysis gives them meaning.
/// obligation: the two values are equal component by component, on every path that gets here
#[inline(never)]
pub fn eq<T>(_got: &T, _want: &T) {}
/// obligation: the condition is true on every path that gets here
#[inline(never)]
pub fn holds(_c: bool) {}
/// precondition of the rule
#[inline(never)]
pub fn assume(_c: bool) {}
/// definition of an input: x*x == v
#[inline(never)]
pub fn sqr_is(_x: f64, _v: f64) {}
#[inline(never)]
pub fn label(_s: &str) {}
/// panics whose description or site contains the text are documented behaviour
#[inline(never)]
pub fn may_panic(_s: &str) {}
/// a fresh input
#[inline(never)]
pub fn input<T: Copy>(_name: &str) -> T { loop {} }
/// obligation: this point is unreachable
#[inline(never)]
pub fn diverges() {}
#[inline(never)]
pub fn fmt_begin() {}
#[inline(never)]
pub fn fmt_dest<'a>() -> &'a mut core::fmt::Formatter<'a> { loop {} }
#[inline(never)]
pub fn fmt_check<T>(_want: &T, _is_err: bool) {}
/// expressions beyond this many terms are kept opaque and identified by fingerprint
#[inline(never)]
pub fn budget(_terms: usize) {}
/// precondition on an input: lo < x < hi
#[inline(never)]
pub fn within(_x: f64, _lo: f64, _hi: f64) {}
/// from here on every computed float is unknown (overflow and NaN included): operations are uninterpreted functions,
/// only comparisons of inputs and constants are decided
#[inline(never)]
pub fn any_values() {}
/// the same, computed values not told apart: each comparison may go either way
#[inline(never)]
pub fn any_values_forget() {}
/// Every rule requires that no operation of the crate divides by zero, takes the logarithm of a number that is not
/// positive or the inverse sine or cosine of a number beyond one. From here on that is not required.
#[inline(never)]
pub fn partial() {}
/// From here on the square root of a negative number counts too.
#[inline(never)]
pub fn total() {}
/// From here on every square root taken by the crate has to be of a number above m: the result is not a difference of
/// nearly equal numbers that rounding destroys.
#[inline(never)]
pub fn margin(_m: f64) {}
/// From here on rounding is followed: each computed float carries the operation and the operands it came from.
#[inline(never)]
pub fn rounding() {}
/// obligation: the absolute rounding error of every component is at most k units roundoff
#[inline(never)]
pub fn accurate<T>(_x: &T, _k: f64) {}
/// obligation: the relative rounding error of every component is at most k units roundoff
#[inline(never)]
pub fn relative<T>(_x: &T, _k: f64) {}
