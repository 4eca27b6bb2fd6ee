//! The catalogue of operations: every public entry point of the library that
//! works on expressions, with uniform arguments and results.

use crate::{tick, tree, BORROW, CALLBACK, CONV, HASHER, ITER, WRITER};
use calcu_rs::algos::{separate_sin_cos, CostFn, ExprCost};
use calcu_rs::atom::{Atom, Func, Irrational, Pow, Prod, Real, Sum};
use calcu_rs::polynomial::{VarPow, VarSet, GPE};
use calcu_rs::rational::{binomial_coeff, Rational};
use calcu_rs::sym_fmt::{FmtAtom, SymbolicFormatter};
use calcu_rs::{Expr, SymbolicExpr};
use std::borrow::Borrow;
use std::cell::Cell;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::ops::ControlFlow;

#[derive(Default)]
pub struct Out {
    pub es: Vec<Expr>,
    pub txt: String,
}

pub struct Cx {
    pub a: Vec<Option<Expr>>,
    pub n: [i64; 3],
    pub out: Out,
}

impl Cx {
    pub fn new(a: Vec<Expr>, n: [i64; 3]) -> Cx {
        Cx { a: a.into_iter().map(Some).collect(), n, out: Out::default() }
    }
    fn own(&mut self, i: usize) -> Expr {
        self.a[i].take().unwrap()
    }
    fn r(&self, i: usize) -> &Expr {
        self.a[i].as_ref().unwrap()
    }
    fn e(&mut self, e: Expr) {
        self.out.es.push(e)
    }
    fn oe(&mut self, e: Option<Expr>) {
        match e {
            Some(e) => self.out.es.push(e),
            None => self.out.txt.push_str("none;"),
        }
    }
    fn t(&mut self, t: impl fmt::Display) {
        write!(self.out.txt, "{t};").unwrap()
    }
    fn d(&mut self, t: impl fmt::Debug) {
        write!(self.out.txt, "{t:?};").unwrap()
    }
}

/// A reference that reports each time the library converts it.
struct B<'a>(&'a Expr);
impl Borrow<Expr> for B<'_> {
    fn borrow(&self) -> &Expr {
        tick(BORROW);
        self.0
    }
}
struct IntoBase(Real);
impl From<IntoBase> for Real {
    fn from(b: IntoBase) -> Real {
        tick(CONV);
        b.0
    }
}
struct IntoRat(i64, i64);
impl From<IntoRat> for Rational {
    fn from(b: IntoRat) -> Rational {
        tick(CONV);
        Rational::new(b.0, b.1)
    }
}
struct Subs<'a>(&'a [(&'a Expr, &'a Expr)]);
impl<'a> Clone for Subs<'a> {
    fn clone(&self) -> Self {
        Subs(self.0)
    }
}
impl<'a> Copy for Subs<'a> {}
struct SubsIter<'a>(std::slice::Iter<'a, (&'a Expr, &'a Expr)>);
impl<'a> Iterator for SubsIter<'a> {
    type Item = (&'a Expr, &'a Expr);
    fn next(&mut self) -> Option<Self::Item> {
        tick(ITER);
        self.0.next().copied()
    }
}
impl<'a> IntoIterator for Subs<'a> {
    type Item = (&'a Expr, &'a Expr);
    type IntoIter = SubsIter<'a>;
    fn into_iter(self) -> SubsIter<'a> {
        tick(ITER);
        SubsIter(self.0.iter())
    }
}
/// Writer and hasher supplied by the caller.
pub struct TickWriter<'a>(pub &'a mut String);
impl fmt::Write for TickWriter<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        tick(WRITER);
        self.0.push_str(s);
        Ok(())
    }
}
pub struct TickHasher(pub u64);
impl Hasher for TickHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        tick(HASHER);
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
}
struct SpaceFmt;
macro_rules! sym {
    ($($n:ident $s:literal),*) => { $(fn $n(f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($s) })* };
}
/// A caller-supplied rendering style.
impl SymbolicFormatter for SpaceFmt {
    sym!(symbl_sub " minus ", symbl_add " plus ", symbl_mul " times ", symbl_div " over ", symbl_pow " to ",
         space " ", comma ", ", lparen "[", rparen "]", undef "?");
    fn rational(r: &Rational, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick(WRITER);
        write!(f, "{r}")
    }
    fn irrational(i: &Irrational, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{i}")
    }
    fn var(v: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick(WRITER);
        write!(f, "<{v}>")
    }
    fn unry_sub(x: &FmtAtom, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "neg ")?;
        Self::atom(x, f)
    }
}
pub struct Styled<'a>(pub &'a FmtAtom);
impl fmt::Display for Styled<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        SpaceFmt::atom(self.0, f)
    }
}

fn idx(n: i64, len: usize) -> usize {
    (n.unsigned_abs() as usize) % len.max(1)
}

/// All sub expressions, first to last, at most 40.
fn subs(e: &Expr) -> Vec<&Expr> {
    e.iter_compl_sub_exprs().take(40).collect()
}
fn sub(e: &Expr, n: i64) -> &Expr {
    let s = subs(e);
    s[idx(n, s.len())]
}

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub ar: usize,
    pub w: u32,
    pub f: fn(&mut Cx),
    pub tags: u32,
}
pub const CB: u32 = 1; // passes caller code into the library
pub const TXT: u32 = 2; // renders
pub const SER: u32 = 4; // saves or loads
pub const POLY: u32 = 8;
pub const BIG: u32 = 16; // long running

macro_rules! un {
    ($($m:ident $w:literal $tags:expr),* $(,)?) => { &[$(Op { name: stringify!($m), ar: 1, w: $w, tags: $tags, f: |c| { let r = c.r(0).$m(); c.e(r) } }),*] };
}
macro_rules! uf {
    ($($m:ident),* $(,)?) => { &[$(Op { name: stringify!($m), ar: 1, w: 1, tags: CB, f: |c| {
        let r = match c.n[0] & 3 {
            0 => Expr::$m(c.r(0)),
            1 => { let o = c.own(0); Expr::$m(o) }
            _ => Expr::$m(B(c.r(0))),
        };
        c.e(r)
    } }),*] };
}
macro_rules! bi {
    ($($m:ident $w:literal),* $(,)?) => { &[$(Op { name: stringify!($m), ar: 2, w: $w, tags: CB, f: |c| {
        let r = match c.n[0] & 3 {
            0 => Expr::$m(c.r(0), c.r(1)),
            1 => { let (a, b) = (c.own(0), c.own(1)); Expr::$m(a, b) }
            2 => { let a = c.own(0); Expr::$m(a, B(c.r(1))) }
            _ => Expr::$m(B(c.r(0)), B(c.r(1))),
        };
        c.e(r)
    } }),*] };
}
macro_rules! opr {
    ($($n:literal $o:tt),* $(,)?) => { &[$(Op { name: $n, ar: 2, w: 4, tags: CB, f: |c| {
        let r = match c.n[0] & 7 {
            0 => c.r(0) $o c.r(1),
            1 => { let a = c.own(0); a $o c.r(1) }
            2 => { let b = c.own(1); c.r(0) $o b }
            3 => { let (a, b) = (c.own(0), c.own(1)); a $o b }
            4 => c.r(0) $o B(c.r(1)),
            _ => { let a = c.own(0); a $o B(c.r(1)) }
        };
        c.e(r)
    } }),*] };
}
macro_rules! op {
    ($($n:literal / $ar:literal w $w:literal $tags:expr => |$c:ident| $b:block)*) => {
        &[$(Op { name: $n, ar: $ar, w: $w, tags: $tags, f: |$c: &mut Cx| $b }),*]
    };
}

fn varset(c: &Cx, from: usize, n: i64) -> VarSet {
    // variables: the further arguments, or sub expressions of the first
    if n & 1 == 0 {
        VarSet::new(
            c.a[from..].iter().map(|e| {
                tick(ITER);
                e.as_ref().unwrap()
            }),
        )
    } else {
        VarSet::from(c.a[from..].iter().map(|e| e.clone().unwrap()))
    }
}

fn rat(e: &Expr) -> Rational {
    e.try_unwrap_rational_ref().map(|r| *r).unwrap_or(Rational::from((3, 2)))
}

fn style(c: &mut Cx, e: &Expr) {
    let f = e.fmt_ast();
    c.t(Styled(&f));
}

const TABLE: &[&[Op]] = &[
    un!(
        reduce 8 0, expand 8 0, expand_main_op 3 0, expand_exponential 3 0, simplify_trig 4 BIG,
        substitute_trig 3 0, expand_trig 4 0, contract_trig 4 0, expand_ln 3 0, distribute 3 0,
        rationalize 4 0, factor_out 4 0, cancel 4 0, sort_args 3 0, numerator 2 0, denominator 2 0,
        base 1 0, exponent 1 0, clone 2 0,
    ),
    uf!(sin, arc_sin, cos, arc_cos, tan, arc_tan, sec, arc_sec, cot, arc_cot, csc, arc_csc, exp, ln, log10, sqrt),
    bi!(add 4, sub 3, mul 4, div 3, pow 4, add_raw 2, mul_raw 2, div_raw 2, pow_raw 2),
    opr!("op+" +, "op-" -, "op*" *, "op/" /),
    op! {
        "undef" / 0 w 1 0 => |c| { c.e(Expr::undef()) }
        "consts" / 0 w 2 0 => |c| {
            let n = c.n[0];
            let e = match n.rem_euclid(8) {
                0 => Expr::zero(), 1 => Expr::one(), 2 => Expr::two(), 3 => Expr::min_one(),
                4 => Expr::min_two(), 5 => Expr::pi(), 6 => Expr::e(), _ => Expr::undef(),
            };
            c.e(e)
        }
        "rational" / 0 w 1 CB => |c| { let (a, b) = (c.n[0], c.n[1].unsigned_abs() as i64 % 9 + 1); c.e(Expr::rational(IntoRat(a % 50, b))) }
        "var" / 0 w 1 0 => |c| { let s = format!("v{}", c.n[0].rem_euclid(5)); c.e(Expr::var(&s)) }
        "from" / 0 w 1 0 => |c| {
            let n = c.n[0];
            let e = match c.n[1].rem_euclid(6) { 0 => Expr::from(n as i32 % 99), 1 => Expr::from(n), 2 => Expr::from(n.unsigned_abs()),
                3 => Expr::from("q"), 4 => Expr::from(Irrational::PI), _ => Expr::from(String::from("qq")) };
            c.e(e)
        }
        "log" / 1 w 2 CB => |c| {
            let e = c.own(0);
            let r = match c.n[0].rem_euclid(5) {
                0 => Expr::log(IntoBase(Real::E), &e),
                1 => Expr::log(IntoBase(Real::PI), B(&e)),
                2 => Expr::log(Rational::from(10), e),
                3 => Expr::log(Rational::from((1, 2)), e),
                _ => Expr::log(IntoBase(Real::from(Rational::from(2))), e),
            };
            c.e(r)
        }
        "flatten" / 1 w 1 0 => |c| { let e = c.r(0).flatten().clone(); c.e(e) }
        "simplify" / 1 w 3 BIG => |c| { for e in c.own(0).simplify() { c.e(e) } }
        "try_as_div" / 1 w 2 0 => |c| { match c.r(0).try_as_div() { Some((a, b)) => { c.e(a); c.e(b) } None => c.t("none") } }
        "rational_coeff" / 1 w 2 0 => |c| { let r = c.r(0).rational_coeff(); c.d(r) }
        "non_rational_term" / 1 w 2 0 => |c| { let r = c.r(0).non_rational_term(); c.oe(r) }
        "variables" / 1 w 3 0 => |c| { for e in c.own(0).variables() { c.e(e) } }
        "free_of" / 2 w 2 0 => |c| { let r = c.r(0).free_of(c.r(1)); c.d(r); let r = c.r(0).free_of_set([c.r(1), sub(c.r(0), c.n[0])]); c.d(r) }
        "sub_exprs" / 1 w 2 0 => |c| { let s: Vec<Expr> = c.r(0).iter_compl_sub_exprs().take(12).cloned().collect(); let n = c.r(0).iter_compl_sub_exprs().count(); c.t(n); for e in s { c.e(e) } }
        "cost" / 1 w 1 0 => |c| { let n = ExprCost::cost(c.r(0)); c.t(n); let n = c.r(0).n_args(); c.t(n) }
        "derivative" / 2 w 5 CB => |c| { let r = if c.n[0] & 1 == 0 { c.r(0).derivative(c.r(1)) } else { let x = c.own(1); c.r(0).derivative(x) }; c.e(r) }
        "derivative_var" / 1 w 5 CB => |c| {
            let x = c.r(0).iter_compl_sub_exprs().find(|e| e.is_var()).cloned().unwrap_or_else(|| Expr::var("x"));
            let r = c.r(0).derivative(B(&x));
            c.e(r)
        }
        "factorize_common_terms" / 2 w 4 0 => |c| { let (f, (a, b)) = Expr::factorize_common_terms(c.r(0), c.r(1)); c.e(f); c.e(a); c.e(b) }
        "common_factors" / 2 w 2 0 => |c| { let f = Expr::common_factors(c.r(0), c.r(1)); c.e(f) }
        "separate_factors" / 2 w 2 0 => |c| { let (a, b) = c.r(0).separate_factors(c.r(1)); c.e(a); c.e(b) }
        "separate_factors_sub" / 1 w 2 0 => |c| { let x = sub(c.r(0), c.n[0]).clone(); let (a, b) = c.r(0).separate_factors(&x); c.e(a); c.e(b) }
        "separate_sin_cos" / 1 w 1 0 => |c| { let (a, b) = separate_sin_cos(c.r(0)); c.e(a); c.e(b) }
        "substitude" / 3 w 3 0 => |c| { let r = c.r(0).substitude(c.r(1), c.r(2)); c.e(r) }
        "substitude_sub" / 2 w 4 0 => |c| { let x = sub(c.r(0), c.n[0]).clone(); let r = c.r(0).substitude(&x, c.r(1)); c.e(r) }
        "concurr_substitude" / 3 w 3 CB => |c| {
            let s: Vec<Expr> = subs(c.r(0)).into_iter().cloned().collect();
            let (x, y) = (&s[idx(c.n[0], s.len())], &s[idx(c.n[1], s.len())]);
            let l = [(x, c.r(1)), (y, c.r(2))];
            let r = c.r(0).concurr_substitude(Subs(&l));
            c.e(r)
        }
        "seq_substitude" / 3 w 3 CB => |c| {
            // the replacement must not contain what it replaces, or the walk never ends
            let s: Vec<Expr> = subs(c.r(0)).into_iter().cloned().collect();
            let (x, y) = (&s[idx(c.n[0], s.len())], &s[idx(c.n[1], s.len())]);
            let mut l = vec![];
            if c.r(1).free_of(x) { l.push((x, c.r(1))) }
            if c.r(2).free_of(y) { l.push((y, c.r(2))) }
            let r = c.r(0).seq_substitude(Subs(&l));
            c.e(r)
        }
        "map_args" / 2 w 3 CB => |c| {
            let (e, k) = (c.own(0), c.own(1));
            let r = match c.n[0].rem_euclid(3) {
                0 => e.map_args(|a| { tick(CALLBACK); *a = Expr::add(&*a, &k) }),
                1 => e.map_args(|a| { tick(CALLBACK); *a *= &k }),
                _ => e.map_args(|a| { *a = a.reduce(); tick(CALLBACK); }),
            };
            c.e(r)
        }
        "for_each_arg" / 1 w 1 CB => |c| { let mut v = vec![]; c.r(0).for_each_arg(|a| { tick(CALLBACK); v.push(a.clone()) }); for e in v { c.e(e) } }
        "rational_and" / 1 w 1 CB => |c| { let r = c.r(0).is_rational_and(|r| { tick(CALLBACK); r.is_pos() }); c.d(r) }
        // predicates
        "is" / 1 w 3 0 => |c| {
            let e = c.own(0);
            let mut b = [
                e.is_zero(), e.is_one(), e.is_min_one(), e.is_pi(), e.is_e(), e.is_neg(), e.is_pos(), e.is_int(), e.is_even(),
                e.is_odd(), e.is_number(), e.is_real(), e.is_irreducible(), e.is_const(), e.is_sin(), e.is_cos(), Expr::is_trig(&e),
                e.is_exponential(), e.is_sum(), e.is_prod(), e.is_pow(), e.is_func(), e.is_var(), e.is_undef(), e.is_atom(),
            ].into_iter().fold(String::new(), |mut s, b| { s.push(if b { '1' } else { '0' }); s });
            b.push(' ');
            c.t(b);
            c.d(e.try_unwrap_int());
            c.d(e.try_as_real());
        }
        "eq" / 2 w 4 0 => |c| { let r = (c.r(0) == c.r(1), c.r(0) != c.r(1)); c.d(r) }
        "eq_sub" / 1 w 2 0 => |c| { let e = c.own(0); let s = subs(&e); let (x, y) = (s[idx(c.n[0], s.len())], s[idx(c.n[1], s.len())]); let r = x == y; c.d(r) }
        "cmp" / 2 w 3 0 => |c| { let r = (c.r(0).cmp(c.r(1)), c.r(0) < c.r(1), c.r(0).partial_cmp(c.r(1))); c.d(r) }
        "sort" / 3 w 2 0 => |c| { let mut v = vec![c.own(0), c.own(1), c.own(2)]; v.sort(); for e in v { c.e(e) } }
        "hash" / 1 w 2 CB => |c| { let mut h = TickHasher(7); c.r(0).hash(&mut h); let h = h.finish(); c.t(h) }
        "hash_std" / 1 w 1 0 => |c| { let mut h = std::collections::hash_map::DefaultHasher::new(); c.r(0).hash(&mut h); let h = h.finish(); c.t(h) }
        // sums and products as such
        "sum_add_rhs" / 3 w 2 0 => |c| {
            let mut s = match c.r(0).atom() { Atom::Sum(s) => s.clone(), _ => Sum::zero() };
            s.add_rhs(c.r(1)); s.add_rhs(c.r(2));
            let (a, b) = s.as_binary_sum(); c.e(a); c.e(b);
            c.d((s.is_zero(), s.is_undef(), s.first().is_some()));
            c.e(s.reduce());
        }
        "prod_mul_rhs" / 3 w 2 0 => |c| {
            let mut s = match c.r(0).atom() { Atom::Prod(s) => s.clone(), _ => Prod::one() };
            if c.n[0] & 1 == 0 { s.mul_rhs(c.r(1)); s.mul_rhs(c.r(2)) } else { s.mul_rhs_raw(c.r(1)); s.mul_rhs_raw(c.r(2)) }
            let (a, b) = s.as_binary_mul(); c.e(a); c.e(b);
            c.d((s.is_one(), s.is_zero(), s.is_undef(), s.first().is_some()));
            let t = s.term(); c.oe(t);
            c.e(s.reduce());
        }
        "pow_parts" / 2 w 2 0 => |c| {
            let p = Expr::pow_raw(c.r(0), c.r(1));
            let p: &Pow = p.try_unwrap_pow_ref().unwrap();
            let (a, b, d, e) = (p.expand(), p.expand_pow_rec(c.n[0] & 1 == 0), p.reduce(), p.base() == p.exponent());
            c.e(a); c.e(b); c.e(d); c.d(e)
        }
        "func_parts" / 2 w 2 0 => |c| {
            let e = c.own(0);
            let f: Option<&Func> = e.iter_compl_sub_exprs().find_map(|e| e.try_unwrap_func_ref().ok());
            if let Some(f) = f {
                c.t(f.name());
                c.d((f.is_trig(), f.is_nat_log()));
                let d = f.derivative(c.r(1)); c.e(d);
                c.e(f.reduce());
                let l = f.try_unwrap_nat_log_ref().cloned(); c.oe(l);
            }
        }
        "leaf_reduce" / 1 w 1 0 => |c| {
            // the default `reduce` of leaf types, which writes a log record
            let e = c.own(0);
            if let Some(v) = e.iter_compl_sub_exprs().find_map(|e| e.try_unwrap_var_ref().ok()) { c.e(v.reduce()) }
            if let Some(v) = e.iter_compl_sub_exprs().find_map(|e| e.try_unwrap_rational_ref().ok()) { c.e(v.reduce()) }
            c.e(Irrational::PI.reduce())
        }
        // numbers
        "num2" / 2 w 2 0 => |c| {
            let (a, b) = (rat(c.r(0)), rat(c.r(1)));
            c.d((a + b, a - b, a * b, a.cmp(&b)));
            if !b.is_zero() { c.d(a / b) }
            c.d(a.int_gcd(&b));
            if !a.is_zero() { c.d(a.pow(b)); c.d(a.pow_basic(b)) }
        }
        "num1" / 1 w 1 0 => |c| {
            let a = rat(c.r(0));
            c.d((a.inverse(), a.abs(), a.floor(), a.to_int(), a.is_even(), a.is_odd(), a.is_fraction(), a.f64_approx().to_bits()));
            c.d(binomial_coeff(c.n[0].rem_euclid(12) as i128, c.n[1].rem_euclid(6) as i128));
        }
        "binomial" / 0 w 2 0 => |c| {
            // large ones do not fit and panic
            let (n, k) = (c.n[0].unsigned_abs() * 5 % 170, c.n[1].unsigned_abs() * 4 % 80);
            c.d(binomial_coeff(n as i128, k as i128));
        }
        // polynomials
        "mono" / 3 w 3 POLY => |c| {
            let vs = varset(c, 1, c.n[0]);
            let e = c.own(0);
            let m = e.as_monomial_view(&vs);
            c.d((m.check(), m.degree()));
            let d = m.degree_of(c.r(1)); c.d(d);
            if let Some((k, vp)) = m.coeff() { c.e(k); c.d(vp) }
        }
        "poly" / 3 w 5 POLY => |c| {
            let vs = varset(c, 1, c.n[0]);
            let e = c.own(0);
            let p = e.as_polynomial_view(&vs);
            c.d((p.check(), p.degree()));
            let d = p.degree_of(c.r(1)); c.d(d);
            let k = p.coeffs_of_deg(c.r(1), &((c.n[1].rem_euclid(3)) as i128)); c.oe(k);
            let k = p.leading_coeff_of(c.r(1)); c.oe(k);
            for (d, k) in p.coeffs_of(c.r(1)) { c.t(d); c.e(k) }
        }
        "poly_coeffs" / 3 w 4 POLY => |c| {
            let vs = varset(c, 1, c.n[0]);
            let e = c.own(0);
            let m = e.as_polynomial_view(&vs).coeffs();
            for (vp, k) in m { c.d(&vp); c.d((vp.total_deg(), vp.is_const())); c.e(k) }
        }
        "poly_vars" / 1 w 4 POLY => |c| {
            // the polynomial in its own variables
            let e = c.own(0);
            let vs: Vec<Expr> = { let mut v: Vec<Expr> = vec![]; for s in subs(&e) { if s.is_var() && !v.contains(s) && v.len() < 2 { v.push(s.clone()) } } v };
            let x = vs.first().cloned().unwrap_or_else(|| Expr::var("x"));
            let vs = VarSet::from(vs);
            let p = e.as_polynomial_view(&vs);
            c.d((p.check(), p.degree(), p.degree_of(&x)));
            for (vp, k) in p.coeffs() { c.d(vp); c.e(k) }
            let l = p.leading_coeff_of(&x); c.oe(l);
            let l = p.collect_terms(); c.oe(l);
        }
        "collect_terms" / 3 w 4 POLY => |c| {
            let vs = varset(c, 1, c.n[0]);
            let e = c.own(0);
            let r = e.as_polynomial_view(&vs).collect_terms(); c.oe(r);
            c.d(vs.iter().count()); let h = vs.has(&e); c.d(h);
        }
        "gpe" / 3 w 2 POLY => |c| {
            let mut g = GPE::default();
            let vp = |e: &Expr, n: i64| VarPow::from([(e.clone(), n.rem_euclid(4) as i128)]);
            g.add(c.r(0).clone(), vp(c.r(1), c.n[0]));
            g.add(c.r(1).clone(), vp(c.r(2), c.n[1]));
            g.add(c.r(2).clone(), vp(c.r(1), c.n[0]));
            let f = g.find_mut(&vp(c.r(2), c.n[1])).cloned(); c.oe(f);
            g.sort_by_degree();
            c.d(&g);
            c.e(g.into_expr());
        }
        // text
        "display" / 1 w 4 TXT => |c| { let e = c.own(0); c.t(&e) }
        "debug" / 1 w 3 TXT => |c| { let e = c.own(0); c.d(&e); if c.n[0] & 3 == 0 { c.t(format_args!("{e:#?}")) } }
        "fmt_ast" / 1 w 2 TXT => |c| { let f = c.r(0).fmt_ast(); c.d(&f); c.t(&f); c.d((f.prec(), f.is_number())); }
        "fmt_style" / 1 w 2 (TXT | CB) => |c| { let e = c.own(0); style(c, &e) }
        "display_tick" / 1 w 2 (TXT | CB) => |c| { let mut s = String::new(); write!(TickWriter(&mut s), "{}|{:?}", c.r(0), c.r(0)).unwrap(); c.t(s) }
        // records
        "save" / 1 w 3 SER => |c| { let e = c.own(0); match serde_json::to_string(&e) { Ok(s) => c.t(s), Err(_) => c.t("err") } }
        "save_load" / 1 w 3 SER => |c| {
            let e = c.own(0);
            match serde_json::to_vec(&e).map(|s| serde_json::from_slice::<Expr>(&s)) { Ok(Ok(e)) => c.e(e), _ => c.t("err") }
        }
        // chains, as callers write them
        "expand_reduce" / 1 w 3 0 => |c| { let r = c.r(0).expand().reduce(); c.e(r) }
        "sum3" / 3 w 3 0 => |c| { let r = c.r(0) + c.r(1) * c.r(2) - c.r(0) / c.r(2); c.e(r) }
        "poly_build" / 2 w 3 0 => |c| {
            // repeated compound assignment
            let (x, k) = (c.own(0), c.own(1));
            let mut s = Expr::zero();
            for i in 0..3 + c.n[0].rem_euclid(3) { s += Expr::pow(&x, Expr::from(i)) * &k; s *= &x; s -= &k; }
            s /= &x;
            c.e(s)
        }
        "default" / 0 w 1 0 => |c| { let r = Rational::default(); c.d(r); let v = VarPow::default(); c.d(v) }
    },
];

pub fn ops() -> Vec<Op> {
    TABLE.iter().flat_map(|t| t.iter()).copied().collect()
}
pub fn find(name: &str) -> Option<Op> {
    TABLE.iter().flat_map(|t| t.iter()).find(|o| o.name == name).copied()
}

/// Operations that change one holder in place.
#[derive(Clone, Copy)]
pub struct MutOp {
    pub name: &'static str,
    pub ar: usize,
    pub w: u32,
    pub f: fn(&mut Expr, &mut Cx),
    /// runs caller code with the holder partly edited
    pub editing: bool,
}

macro_rules! asg {
    ($($n:literal $o:tt),* $(,)?) => { &[$(MutOp { name: $n, ar: 1, w: 5, editing: false, f: |e, c| match c.n[0].rem_euclid(3) {
        0 => *e $o c.r(0),
        1 => { let a = c.own(0); *e $o a }
        _ => *e $o B(c.r(0)),
    } }),*] };
}
macro_rules! mop {
    ($($n:literal / $ar:literal w $w:literal $ed:literal => |$e:ident, $c:ident| $b:block)*) => {
        &[$(MutOp { name: $n, ar: $ar, w: $w, editing: $ed, f: |$e: &mut Expr, $c: &mut Cx| $b }),*]
    };
}

const MTABLE: &[&[MutOp]] = &[
    asg!("+=" +=, "-=" -=, "*=" *=, "/=" /=),
    mop! {
        "set_arg" / 1 w 5 false => |e, c| {
            let a = c.own(0);
            let n = c.n[0];
            let s = e.args_mut();
            if !s.is_empty() { let i = idx(n, s.len()); s[i] = a }
        }
        "swap_args" / 0 w 2 false => |e, c| {
            let (i, j) = (c.n[0], c.n[1]);
            let s = e.args_mut();
            if !s.is_empty() { let l = s.len(); s.swap(idx(i, l), idx(j, l)) }
        }
        "args_mut_nop" / 0 w 3 false => |e, c| { let n = e.args_mut().len(); c.t(n) }
        "atom_mut_nop" / 0 w 3 false => |e, c| {
            let d = std::mem::discriminant(e.atom());
            let same = d == std::mem::discriminant(e.atom_mut());
            c.t(same)
        }
        "set_deep" / 1 w 4 false => |e, c| {
            // walk down a path, then replace
            let mut n = c.n[0].unsigned_abs();
            let mut cur = e;
            for _ in 0..3 {
                let l = cur.args().len();
                if l == 0 { break }
                cur = &mut cur.args_mut()[n as usize % l];
                n /= 3;
            }
            *cur = c.own(0);
        }
        "deep_assign" / 1 w 4 false => |e, c| {
            let mut n = c.n[0].unsigned_abs();
            let mut cur = e;
            for _ in 0..2 {
                let l = cur.args().len();
                if l == 0 { break }
                cur = &mut cur.args_mut()[n as usize % l];
                n /= 3;
            }
            match c.n[1].rem_euclid(4) { 0 => *cur += c.r(0), 1 => *cur *= c.r(0), 2 => *cur -= c.r(0), _ => *cur /= c.r(0) }
        }
        "atom_set" / 1 w 2 false => |e, c| { let a = c.own(0); *e.atom_mut() = a.atom().clone() }
        "push_arg" / 1 w 3 false => |e, c| {
            let a = c.own(0);
            match e.atom_mut() { Atom::Sum(s) => s.args.push(a), Atom::Prod(p) => p.args.push(a), x => *x = Atom::Sum(Sum { args: vec![a] }) }
        }
        "pop_arg" / 0 w 2 false => |e, _c| {
            match e.atom_mut() { Atom::Sum(s) => { s.args.pop(); } Atom::Prod(p) => { p.args.pop(); } _ => () }
        }
        "add_rhs" / 1 w 3 true => |e, c| {
            match e.atom_mut() { Atom::Sum(s) => s.add_rhs(c.r(0)), Atom::Prod(p) => p.mul_rhs(c.r(0)), _ => () }
        }
        "rhs_many" / 2 w 3 true => |e, c| {
            // term by term, some terms more than once
            let (k, m, raw) = (c.n[0].rem_euclid(6) + 1, c.n[1].rem_euclid(4) + 1, c.n[2] & 1 == 1);
            for i in 0..k {
                let r = c.r((i / m & 1) as usize).clone();
                match e.atom_mut() { Atom::Sum(s) => s.add_rhs(&r), Atom::Prod(p) if raw => p.mul_rhs_raw(&r), Atom::Prod(p) => p.mul_rhs(&r), x => *x = Atom::Prod(Prod { args: vec![r] }) }
            }
        }
        "leaf_set" / 0 w 3 true => |e, c| {
            // numbers and names are changed where they are
            let (n, k) = (c.n[0], c.n[1].rem_euclid(4) + 1);
            let i = Cell::new(0i64);
            e.for_each_compl_sub_expr(|s| {
                tick(CALLBACK);
                let j = i.get();
                i.set(j + 1);
                if j % k != 0 { return }
                match s.atom_mut() { Atom::Rational(r) => *r = Rational::from(n + (j & 1)), Atom::Var(v) => *v = "leaf".into(), _ => () }
            })
        }
        "each_replace" / 1 w 4 true => |e, c| {
            let k = Cell::new(0i64);
            let at = c.n[0].rem_euclid(6);
            let r = c.r(0);
            e.for_each_compl_sub_expr(|s| {
                tick(CALLBACK);
                let i = k.get();
                k.set(i + 1);
                if i == at { *s = r.clone() }
            })
        }
        "each_within" / 1 w 4 true => |e, c| {
            // a part is replaced, and the walk goes on inside the replacement
            let k = Cell::new(0i64);
            let (at, more) = (c.n[0].rem_euclid(5), c.n[1].rem_euclid(4));
            let r = c.r(0);
            e.for_each_compl_sub_expr(|s| {
                tick(CALLBACK);
                let i = k.get();
                k.set(i + 1);
                if i == at { *s = r.clone() }
                else if i > at && i <= at + more + 1 {
                    match (c.n[2] + i).rem_euclid(3) { 0 => *s += r, 1 => *s = Expr::var("in"), _ => { let t = s.clone(); *s *= &t } }
                }
            })
        }
        "each_assign" / 1 w 3 true => |e, c| {
            let k = Cell::new(0i64);
            let m = c.n[0].rem_euclid(3) + 2;
            let r = c.r(0);
            e.for_each_compl_sub_expr(|s| {
                let i = k.get();
                k.set(i + 1);
                tick(CALLBACK);
                if i < 8 && i % m == 0 { *s += r }
            })
        }
        "try_each" / 1 w 4 true => |e, c| {
            let k = Cell::new(0i64);
            let at = c.n[0].rem_euclid(6);
            let r = c.r(0);
            e.try_for_each_compl_sub_expr(|s| {
                tick(CALLBACK);
                let i = k.get();
                k.set(i + 1);
                if i == at { *s = Expr::mul(&*s, r); ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
            })
        }
        "map_self" / 0 w 3 false => |e, c| {
            let r = match c.n[0].rem_euclid(5) { 0 => e.reduce(), 1 => e.expand(), 2 => e.sort_args(), 3 => e.rationalize(), _ => e.factor_out() };
            *e = r
        }
        "replace" / 1 w 2 false => |e, c| { let a = c.own(0); *e = a }
        "swap_clone" / 0 w 1 false => |e, c| { let mut k = e.clone(); std::mem::swap(e, &mut k); c.e(k) }
        "clone_from" / 1 w 1 false => |e, c| {
            // from a value that others hold, and from one that nobody else does
            match c.n[0].rem_euclid(3) {
                0 => e.clone_from(c.r(0)),
                1 => { let s = c.own(0); let o = Expr::mul(&s, Expr::var("cl")); e.clone_from(&o) }
                _ => { let s = c.own(0); let o = tree::build(&tree::tree(&s)); e.clone_from(&o) }
            }
        }
    },
];

pub fn mut_ops() -> Vec<MutOp> {
    MTABLE.iter().flat_map(|t| t.iter()).copied().collect()
}
pub fn find_mut(name: &str) -> Option<MutOp> {
    MTABLE.iter().flat_map(|t| t.iter()).find(|o| o.name == name).copied()
}

/// Rendered text of everything an operation returned.
pub fn describe(o: &Out) -> String {
    let mut s = String::new();
    for e in &o.es {
        s.push_str(&tree::dump(e));
        s.push(' ');
    }
    s.push('|');
    s.push_str(&o.txt);
    s
}
