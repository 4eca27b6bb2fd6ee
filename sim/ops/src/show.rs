//! Everything the library can render.
use crate::cat::Styled;
use calcu_rs::atom::{Atom, Func, Irrational, Real};
use calcu_rs::polynomial::{VarPow, VarSet, GPE};
use calcu_rs::rational::Rational;
use calcu_rs::{Expr, SymbolicExpr};
use std::fmt::{self, Debug, Display};

pub const WHATS: usize = 24;
pub const SPECS: usize = 9;

pub struct Show<'a> {
    pub e: &'a Expr,
    pub what: usize,
    pub spec: usize,
}

fn dis(x: &dyn Display, spec: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match spec % SPECS {
        1 => write!(f, "{x:#}"),
        2 => write!(f, "{x:>24}"),
        3 => write!(f, "{x:+}"),
        4 => write!(f, "{x:.2}"),
        5 => write!(f, "{x:012}"),
        6 => write!(f, "{x:<7.3}|"),
        7 => write!(f, "{x:^30}"),
        _ => write!(f, "{x}"),
    }
}
fn dbg(x: &dyn Debug, spec: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match spec % SPECS {
        1 | 2 | 3 => write!(f, "{x:#?}"),
        4 => write!(f, "{x:5?}"),
        5 => write!(f, "{x:04x?}"),
        6 => write!(f, "{x:+?}"),
        7 => write!(f, "{x:.1?}"),
        _ => write!(f, "{x:?}"),
    }
}

impl Display for Show<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (e, s) = (self.e, self.spec);
        let vars = || e.iter_compl_sub_exprs().filter(|e| e.is_var());
        match self.what % WHATS {
            0..=3 => dis(e, s, f),
            4 | 5 => dbg(e, s, f),
            6 => dis(e.atom(), s, f),
            7 => dbg(e.atom(), s, f),
            8 => dis(&e.fmt_ast(), s, f),
            9 => dbg(&e.fmt_ast(), s, f),
            10 => dis(&Styled(&e.fmt_ast()), s, f),
            11 => match e.atom() {
                Atom::Sum(x) => dbg(x, s, f),
                Atom::Prod(x) => dbg(x, s, f),
                Atom::Pow(x) => dbg(x, s, f),
                Atom::Func(x) => dbg(x, s, f),
                x => dbg(x, s, f),
            },
            12 => match e.iter_compl_sub_exprs().find_map(|e| e.try_unwrap_func_ref().ok()) {
                Some(Func::Log(b, x)) => {
                    dis(b, s, f)?;
                    dbg(b, s, f)?;
                    dis(x, s, f)
                }
                Some(x) => dbg(x, s, f),
                None => dis(e, s, f),
            },
            13 | 14 => {
                let r = e.iter_compl_sub_exprs().find_map(|e| e.try_unwrap_rational_ref().ok());
                let r = r.copied().unwrap_or(Rational::from((-7, 3)));
                match self.what % WHATS {
                    13 => dis(&r, s, f),
                    _ => {
                        dbg(&r, s, f)?;
                        dis(&Real::from(r), s, f)
                    }
                }
            }
            15 => {
                let i = if s & 1 == 0 { Irrational::PI } else { Irrational::E };
                dis(&i, s, f)?;
                dbg(&i, s, f)?;
                dis(&Real::Irrational(i), s, f)
            }
            16 => {
                for v in e.iter_compl_sub_exprs().filter_map(|e| e.try_unwrap_var_ref().ok()).take(3) {
                    dis(v, s, f)?;
                    dbg(v, s, f)?;
                }
                Ok(())
            }
            17 => dbg(&VarSet::new(vars().take(3)), s, f),
            18 => dbg(&VarPow::from(vars().take(2).map(|v| (v.clone(), 2i128))), s, f),
            19 => {
                let mut g = GPE::default();
                for (i, a) in e.args().iter().take(3).enumerate() {
                    g.add(a.clone(), VarPow::from([(e.clone(), i as i128)]))
                }
                dbg(&g, s, f)
            }
            20 => dbg(&e.iter_compl_sub_exprs(), s, f),
            // many in one go, as a caller prints a list
            21 => {
                for a in e.args() {
                    dis(a, s, f)?;
                    f.write_str("; ")?
                }
                Ok(())
            }
            22 => dbg(&e.args(), s, f),
            _ => dbg(&(e, e.atom(), e.rational_coeff()), s, f),
        }
    }
}
