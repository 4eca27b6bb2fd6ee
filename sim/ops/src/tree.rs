//! Specification trees: plain data, independent of the code under test.
//! They are what plans are written in and what expressions are read back as.

use calcu_rs::atom::{Atom, Func, Irrational, Pow, Prod, Real, Sum, Var};
use calcu_rs::rational::Rational;
use calcu_rs::{Expr, SymbolicExpr};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    U,
    N(i128, i128),
    E,
    Pi,
    V(String),
    S(Vec<T>),
    M(Vec<T>),
    W(Box<T>, Box<T>),
    F(u8, Box<T>),
    /// base must be N, E or Pi
    L(Box<T>, Box<T>),
}

pub const FN: [&str; 12] = [
    "sin", "arcsin", "cos", "arccos", "tan", "arctan", "sec", "arcsec", "cot", "arccot", "csc", "arccsc",
];

pub fn n(i: i128) -> T {
    T::N(i, 1)
}
pub fn v(s: &str) -> T {
    T::V(s.into())
}

impl T {
    pub fn size(&self) -> usize {
        1 + match self {
            T::S(a) | T::M(a) => a.iter().map(T::size).sum(),
            T::W(a, b) | T::L(a, b) => a.size() + b.size(),
            T::F(_, a) => a.size(),
            _ => 0,
        }
    }
    /// nesting of expression records
    pub fn depth(&self) -> usize {
        1 + match self {
            T::S(a) | T::M(a) => a.iter().map(T::depth).max().unwrap_or(0),
            T::W(a, b) => a.depth().max(b.depth()),
            T::F(_, a) => a.depth(),
            T::L(_, a) => a.depth(),
            _ => 0,
        }
    }
    pub fn children(&self) -> Vec<&T> {
        match self {
            T::S(a) | T::M(a) => a.iter().collect(),
            T::W(a, b) => vec![a, b],
            T::F(_, a) | T::L(_, a) => vec![a],
            _ => vec![],
        }
    }
    pub fn children_mut(&mut self) -> Vec<&mut T> {
        match self {
            T::S(a) | T::M(a) => a.iter_mut().collect(),
            T::W(a, b) => vec![a, b],
            T::F(_, a) | T::L(_, a) => vec![a],
            _ => vec![],
        }
    }
    pub fn each<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        for c in self.children() {
            c.each(f)
        }
    }
    pub fn rename(&mut self, f: &dyn Fn(&str) -> String) {
        if let T::V(s) = self {
            *s = f(s)
        }
        for c in self.children_mut() {
            c.rename(f)
        }
    }
    /// names and numbers blanked
    pub fn shape(&self) -> T {
        match self {
            T::N(..) => T::N(0, 1),
            T::V(_) => T::V("v".into()),
            T::L(b, a) => T::L(Box::new(b.shape()), Box::new(a.shape())),
            T::S(a) => T::S(a.iter().map(T::shape).collect()),
            T::M(a) => T::M(a.iter().map(T::shape).collect()),
            T::W(a, b) => T::W(Box::new(a.shape()), Box::new(b.shape())),
            T::F(k, a) => T::F(*k, Box::new(a.shape())),
            t => t.clone(),
        }
    }
    pub fn numbers_ok(&self) -> bool {
        let mut ok = true;
        self.each(&mut |t| {
            let chk = |t: &T| match t {
                T::N(a, b) => *b > 0 && gcd(*a, *b) == 1,
                _ => true,
            };
            ok &= chk(t);
            if let T::L(b, _) = t {
                ok &= chk(b)
            }
        });
        ok
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    fn put(&self, s: &mut String) {
        match self {
            T::U => s.push_str("#u"),
            T::E => s.push_str("#e"),
            T::Pi => s.push_str("#pi"),
            T::N(a, 1) => s.push_str(&a.to_string()),
            T::N(a, b) => s.push_str(&format!("{a}/{b}")),
            T::V(v) => {
                let plain = !v.is_empty()
                    && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                    && v.chars().next().unwrap().is_ascii_alphabetic();
                if plain {
                    s.push_str(v)
                } else {
                    s.push('"');
                    for c in v.chars() {
                        if c.is_ascii_alphanumeric() || (c.is_ascii_punctuation() && c != '"' && c != '\\') {
                            s.push(c)
                        } else {
                            s.push_str(&format!("\\{:x};", c as u32))
                        }
                    }
                    s.push('"')
                }
            }
            T::S(a) => put_list(s, "+", a.iter()),
            T::M(a) => put_list(s, "*", a.iter()),
            T::W(a, b) => put_list(s, "^", [&**a, &**b].into_iter()),
            T::F(k, a) => put_list(s, FN[*k as usize % 12], [&**a].into_iter()),
            T::L(b, a) => put_list(s, "log", [&**b, &**a].into_iter()),
        }
    }
    pub fn parse(s: &str) -> Option<T> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let t = parse(&c, &mut i)?;
        skip(&c, &mut i);
        if i == c.len() {
            Some(t)
        } else {
            None
        }
    }
}

fn gcd(a: i128, b: i128) -> u128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b)
    }
    a
}

fn put_list<'a>(s: &mut String, h: &str, it: impl Iterator<Item = &'a T>) {
    s.push('(');
    s.push_str(h);
    for t in it {
        s.push(' ');
        t.put(s)
    }
    s.push(')')
}

fn skip(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i] == ' ' {
        *i += 1
    }
}

fn parse(c: &[char], i: &mut usize) -> Option<T> {
    skip(c, i);
    match c.get(*i)? {
        '(' => {
            *i += 1;
            let mut h = String::new();
            while *c.get(*i)? != ' ' && c[*i] != ')' {
                h.push(c[*i]);
                *i += 1
            }
            let mut a = vec![];
            loop {
                skip(c, i);
                if *c.get(*i)? == ')' {
                    *i += 1;
                    break;
                }
                a.push(parse(c, i)?)
            }
            Some(match h.as_str() {
                "+" => T::S(a),
                "*" => T::M(a),
                "^" if a.len() == 2 => {
                    let b = a.pop()?;
                    T::W(Box::new(a.pop()?), Box::new(b))
                }
                "log" if a.len() == 2 => {
                    let b = a.pop()?;
                    T::L(Box::new(a.pop()?), Box::new(b))
                }
                f if a.len() == 1 => {
                    let k = FN.iter().position(|x| *x == f)?;
                    T::F(k as u8, Box::new(a.pop()?))
                }
                _ => return None,
            })
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                match *c.get(*i)? {
                    '"' => {
                        *i += 1;
                        return Some(T::V(s));
                    }
                    '\\' => {
                        *i += 1;
                        let mut h = String::new();
                        while *c.get(*i)? != ';' {
                            h.push(c[*i]);
                            *i += 1
                        }
                        *i += 1;
                        s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                    }
                    x => {
                        s.push(x);
                        *i += 1
                    }
                }
            }
        }
        _ => {
            let mut w = String::new();
            while *i < c.len() && !" ()".contains(c[*i]) {
                w.push(c[*i]);
                *i += 1
            }
            Some(match w.as_str() {
                "#u" => T::U,
                "#e" => T::E,
                "#pi" => T::Pi,
                w => {
                    let f = w.chars().next()?;
                    if f.is_ascii_digit() || f == '-' {
                        match w.split_once('/') {
                            Some((a, b)) => T::N(a.parse().ok()?, b.parse().ok()?),
                            None => T::N(w.parse().ok()?, 1),
                        }
                    } else {
                        T::V(w.into())
                    }
                }
            })
        }
    }
}

/// Builds the expression with exactly this structure.
pub fn build(t: &T) -> Expr {
    build_with(t, &mut build)
}
/// Parts of at most `size` nodes are built once and then taken from `known`.
pub fn build_shared(t: &T, size: usize, known: &mut BTreeMap<T, Expr>) -> Expr {
    if t.size() > size {
        return build_with(t, &mut |t| build_shared(t, size, known));
    }
    if let Some(e) = known.get(t) {
        return e.clone();
    }
    let e = build_with(t, &mut |t| build_shared(t, size, known));
    known.insert(t.clone(), e.clone());
    e
}
/// Which of the public constructors make the leaves.
static STYLE: AtomicU64 = AtomicU64::new(0);
pub fn set_style(s: u64) {
    STYLE.store(s, Ordering::Relaxed)
}
fn leaf(t: &T) -> Expr {
    let style = STYLE.load(Ordering::Relaxed);
    let way = |h: u64| (h.wrapping_add(style)).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 60;
    match t {
        T::N(a, 1) => match (way(*a as u64), *a) {
            (0..=4, a) => Expr::rational(a),
            (5, 0) => Expr::zero(),
            (5, 1) => Expr::one(),
            (5, 2) => Expr::two(),
            (5, -1) => Expr::min_one(),
            (5, -2) => Expr::min_two(),
            (6, a) if a as i64 as i128 == a => Expr::from(a as i64),
            (7, a) if a as i32 as i128 == a => Expr::from(a as i32),
            (8, a) => Expr::from(Atom::Rational(Rational::from(a))),
            _ => Expr::from(*a),
        },
        T::N(a, d) if way(*a as u64) < 4 => Expr::rational(Rational::new(*a, *d)),
        T::N(a, d) => Expr::from(Rational::new(*a, *d)),
        T::E if way(0) < 6 => Expr::e(),
        T::E => Expr::from(Irrational::E),
        T::Pi if way(1) < 6 => Expr::pi(),
        T::Pi => Expr::from(Irrational::PI),
        T::V(s) => match way(s.len() as u64 + 2) {
            0..=2 => Expr::from(s.as_str()),
            3 => Expr::from(s.clone()),
            4 => Expr::from(Atom::Var(Var::from(s.as_str()))),
            _ => Expr::var(s),
        },
        _ => if way(2) < 6 { Expr::undef() } else { Expr::from(Atom::Undef) },
    }
}
fn build_with(t: &T, b: &mut dyn FnMut(&T) -> Expr) -> Expr {
    match t {
        T::U | T::N(..) | T::E | T::Pi | T::V(_) => leaf(t),
        T::S(a) => Expr::from(Atom::Sum(Sum { args: a.iter().map(&mut *b).collect() })),
        T::M(a) => Expr::from(Atom::Prod(Prod { args: a.iter().map(&mut *b).collect() })),
        T::W(x, y) => {
            let x = b(x);
            Expr::pow_raw(x, b(y))
        }
        T::F(k, x) => {
            let x = b(x);
            use Func as F;
            Expr::from(Atom::Func(match k % 12 {
                0 => F::Sin(x),
                1 => F::ArcSin(x),
                2 => F::Cos(x),
                3 => F::ArcCos(x),
                4 => F::Tan(x),
                5 => F::ArcTan(x),
                6 => F::Sec(x),
                7 => F::ArcSec(x),
                8 => F::Cot(x),
                9 => F::ArcCot(x),
                10 => F::Csc(x),
                _ => F::ArcCsc(x),
            }))
        }
        T::L(base, x) => Expr::from(Atom::Func(Func::Log(real(base), b(x)))),
    }
}

pub fn real(t: &T) -> Real {
    match t {
        T::N(a, d) => Real::Rational(Rational::new(*a, *d)),
        T::Pi => Real::Irrational(Irrational::PI),
        _ => Real::Irrational(Irrational::E),
    }
}

pub fn from_rat(r: &Rational) -> T {
    T::N(r.numer(), r.denom())
}
pub fn from_real(r: &Real) -> T {
    match r {
        Real::Rational(r) => from_rat(r),
        Real::Irrational(i) => from_irr(i),
    }
}
pub fn from_irr(i: &Irrational) -> T {
    match i {
        Irrational::E => T::E,
        Irrational::PI => T::Pi,
    }
}
pub fn from_var(v: &Var) -> T {
    T::V(v.to_string())
}
pub fn from_func(f: &Func, lim: &mut usize) -> T {
    use Func as F;
    let k = match f {
        F::Sin(_) => 0,
        F::ArcSin(_) => 1,
        F::Cos(_) => 2,
        F::ArcCos(_) => 3,
        F::Tan(_) => 4,
        F::ArcTan(_) => 5,
        F::Sec(_) => 6,
        F::ArcSec(_) => 7,
        F::Cot(_) => 8,
        F::ArcCot(_) => 9,
        F::Csc(_) => 10,
        F::ArcCsc(_) => 11,
        F::Log(b, x) => return T::L(Box::new(from_real(b)), Box::new(from_expr(x, lim))),
    };
    T::F(k, Box::new(from_expr(&f.args()[0], lim)))
}
pub fn from_pow(p: &Pow, lim: &mut usize) -> T {
    T::W(Box::new(from_expr(p.base(), lim)), Box::new(from_expr(p.exponent(), lim)))
}

/// Reads an expression back through the public API. `lim` bounds the number of
/// nodes read, so that heavily shared results do not explode.
pub fn from_expr(e: &Expr, lim: &mut usize) -> T {
    if *lim == 0 {
        return T::V("...".into());
    }
    *lim -= 1;
    from_atom(e.atom(), lim)
}
pub fn from_atom(a: &Atom, lim: &mut usize) -> T {
    match a {
        Atom::Undef => T::U,
        Atom::Rational(r) => from_rat(r),
        Atom::Irrational(i) => from_irr(i),
        Atom::Var(v) => from_var(v),
        Atom::Sum(s) => T::S(s.args.iter().map(|a| from_expr(a, lim)).collect()),
        Atom::Prod(s) => T::M(s.args.iter().map(|a| from_expr(a, lim)).collect()),
        Atom::Pow(p) => from_pow(p, lim),
        Atom::Func(f) => from_func(f, lim),
    }
}

pub const DUMP_LIMIT: usize = 6000;

pub fn dump(e: &Expr) -> String {
    from_expr(e, &mut DUMP_LIMIT.clone()).text()
}
pub fn tree(e: &Expr) -> T {
    from_expr(e, &mut DUMP_LIMIT.clone())
}
