//! Saving and loading expressions and their parts.
use crate::tree::{self, T};
use calcu_rs::atom::{Atom, Func, Irrational, Pow, Prod, Real, Sum, Var};
use calcu_rs::rational::Rational;
use calcu_rs::{Expr, SymbolicExpr};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};
use std::io::{self, BufRead, Read, Write};

#[derive(Debug)]
pub struct Fail {
    pub io: Option<io::ErrorKind>,
    pub eof: bool,
    /// the format cannot hold this
    pub unfit: bool,
    pub text: String,
}
impl From<serde_json::Error> for Fail {
    fn from(e: serde_json::Error) -> Fail {
        Fail { io: e.io_error_kind(), eof: e.is_eof(), unfit: false, text: e.to_string() }
    }
}
impl From<bincode::Error> for Fail {
    fn from(e: bincode::Error) -> Fail {
        let text = e.to_string();
        match *e {
            bincode::ErrorKind::Io(e) => Fail { io: Some(e.kind()), eof: e.kind() == io::ErrorKind::UnexpectedEof, unfit: false, text },
            bincode::ErrorKind::DeserializeAnyNotSupported | bincode::ErrorKind::SequenceMustHaveLength => {
                Fail { io: None, eof: false, unfit: true, text }
            }
            _ => Fail { io: None, eof: false, unfit: false, text },
        }
    }
}
impl From<io::Error> for Fail {
    fn from(e: io::Error) -> Fail {
        Fail { io: Some(e.kind()), eof: false, unfit: false, text: e.to_string() }
    }
}

pub const KINDS: usize = 14;

/// An expression or a part of one, as its own type.
pub enum Part {
    Expr(Expr),
    Atom(Atom),
    Sum(Sum),
    Prod(Prod),
    Pow(Pow),
    Func(Func),
    Real(Real),
    Irr(Irrational),
    Var(Var),
    Rat(Rational),
    List(Vec<Expr>),
    Opt(Option<Box<Expr>>),
    Pair((Expr, Vec<Atom>)),
    Named(std::collections::BTreeMap<String, Expr>),
}

macro_rules! each {
    ($p:expr, $x:ident => $b:expr) => {
        match $p {
            Part::Expr($x) => $b,
            Part::Atom($x) => $b,
            Part::Sum($x) => $b,
            Part::Prod($x) => $b,
            Part::Pow($x) => $b,
            Part::Func($x) => $b,
            Part::Real($x) => $b,
            Part::Irr($x) => $b,
            Part::Var($x) => $b,
            Part::Rat($x) => $b,
            Part::List($x) => $b,
            Part::Opt($x) => $b,
            Part::Pair($x) => $b,
            Part::Named($x) => $b,
        }
    };
}

impl Part {
    /// The part of the wanted kind in `e`; the whole if there is none.
    pub fn of(e: &Expr, kind: usize) -> Part {
        let mut it = e.iter_compl_sub_exprs().take(200);

        let p = match kind % KINDS {
            1 => Some(Part::Atom(e.atom().clone())),
            2 => it.find_map(|e| if let Atom::Sum(s) = e.atom() { Some(Part::Sum(s.clone())) } else { None }),
            3 => it.find_map(|e| if let Atom::Prod(s) = e.atom() { Some(Part::Prod(s.clone())) } else { None }),
            4 => it.find_map(|e| if let Atom::Pow(s) = e.atom() { Some(Part::Pow(s.clone())) } else { None }),
            5 => it.find_map(|e| e.try_unwrap_func_ref().ok().cloned()).map(Part::Func),
            6 => it.find_map(|e| e.try_as_real()).map(Part::Real),
            7 => it.find_map(|e| if let Atom::Irrational(s) = e.atom() { Some(Part::Irr(*s)) } else { None }),
            8 => it.find_map(|e| if let Atom::Var(s) = e.atom() { Some(Part::Var(s.clone())) } else { None }),
            9 => it.find_map(|e| if let Atom::Rational(s) = e.atom() { Some(Part::Rat(*s)) } else { None }),
            10 => Some(Part::List(e.args().to_vec())),
            11 => Some(Part::Opt(Some(Box::new(e.clone())))),
            12 => Some(Part::Pair((e.clone(), e.args().iter().map(|a| a.atom().clone()).collect()))),
            13 => Some(Part::Named(e.args().iter().enumerate().map(|(i, a)| (format!("k{i}"), a.clone())).collect())),
            _ => None,
        };
        p.unwrap_or_else(|| Part::Expr(e.clone()))
    }
    pub fn kind(&self) -> usize {
        match self {
            Part::Expr(_) => 0,
            Part::Atom(_) => 1,
            Part::Sum(_) => 2,
            Part::Prod(_) => 3,
            Part::Pow(_) => 4,
            Part::Func(_) => 5,
            Part::Real(_) => 6,
            Part::Irr(_) => 7,
            Part::Var(_) => 8,
            Part::Rat(_) => 9,
            Part::List(_) => 10,
            Part::Opt(_) => 11,
            Part::Pair(_) => 12,
            Part::Named(_) => 13,
        }
    }
    pub fn tree(&self) -> T {
        let lim = &mut tree::DUMP_LIMIT.clone();
        let l = lim;
        match self {
            Part::Expr(e) => tree::from_expr(e, l),
            Part::Atom(a) => tree::from_atom(a, l),
            Part::Sum(s) => T::S(s.args.iter().map(|a| tree::from_expr(a, l)).collect()),
            Part::Prod(s) => T::M(s.args.iter().map(|a| tree::from_expr(a, l)).collect()),
            Part::Pow(p) => tree::from_pow(p, l),
            Part::Func(f) => tree::from_func(f, l),
            Part::Real(r) => tree::from_real(r),
            Part::Irr(r) => tree::from_irr(r),
            Part::Var(r) => tree::from_var(r),
            Part::Rat(r) => tree::from_rat(r),
            Part::List(v) => T::S(v.iter().map(|a| tree::from_expr(a, l)).collect()),
            Part::Opt(v) => T::S(v.iter().map(|a| tree::from_expr(a, l)).collect()),
            Part::Pair((e, v)) => {
                let mut a = vec![tree::from_expr(e, l)];
                a.extend(v.iter().map(|a| tree::from_atom(a, l)));
                T::S(a)
            }
            Part::Named(v) => T::S(v.values().map(|a| tree::from_expr(a, l)).collect()),
        }
    }
    pub fn debug(&self) -> String {
        each!(self, x => format!("{x:?}"))
    }
    pub fn hash(&self) -> u64 {
        each!(self, x => BuildHasherDefault::<DefaultHasher>::default().hash_one(x))
    }
    pub fn same(&self, o: &Part) -> bool {
        macro_rules! eq { ($($k:ident)*) => { match (self, o) { $((Part::$k(a), Part::$k(b)) => a == b && b == a && !(a != b),)* _ => false } } }
        eq!(Expr Atom Sum Prod Pow Func Real Irr Var Rat List Opt Pair Named)
    }
    /// for use in further operations
    pub fn expr(&self) -> Expr {
        match self {
            Part::Expr(e) => e.clone(),
            Part::Atom(a) => Expr::from(a.clone()),
            Part::Sum(a) => Expr::from(Atom::Sum(a.clone())),
            Part::Prod(a) => Expr::from(Atom::Prod(a.clone())),
            Part::Pow(a) => Expr::from(Atom::Pow(a.clone())),
            Part::Func(a) => Expr::from(Atom::Func(a.clone())),
            Part::Real(Real::Rational(a)) | Part::Rat(a) => Expr::from(*a),
            Part::Real(Real::Irrational(a)) | Part::Irr(a) => Expr::from(*a),
            Part::Var(a) => Expr::from(Atom::Var(a.clone())),
            Part::List(v) => Expr::from(Atom::Sum(Sum { args: v.clone() })),
            Part::Opt(v) => v.as_ref().map(|e| (**e).clone()).unwrap_or_else(Expr::undef),
            Part::Pair((e, _)) => e.clone(),
            Part::Named(v) => Expr::from(Atom::Sum(Sum { args: v.values().cloned().collect() })),
        }
    }
}

pub const COMPACT: usize = 0;
pub const PRETTY: usize = 1;
pub const BIN: usize = 2;
pub const SAVES: usize = 5;
pub const LOADS: usize = 6;

fn save_as<S: Serialize>(x: &S, fmt: usize, how: usize, cap: usize, w: &mut dyn Write) -> Result<(), Fail> {
    match (fmt, how % SAVES) {
        (BIN, 0 | 1) => Ok(bincode::serialize_into(w, x)?),
        (BIN, 2) => {
            let mut b = io::BufWriter::with_capacity(cap.max(1), w);
            bincode::serialize_into(&mut b, x)?;
            Ok(b.flush()?)
        }
        (BIN, _) => Ok(w.write_all(&bincode::serialize(x)?)?),
        (PRETTY, 0) => Ok(serde_json::to_writer_pretty(w, x)?),
        (_, 0) => Ok(serde_json::to_writer(w, x)?),
        (f, 1 | 2) => {
            // through a buffer
            let mut b = io::BufWriter::with_capacity(cap.max(1), w);
            if f == PRETTY {
                serde_json::to_writer_pretty(&mut b, x)?
            } else {
                serde_json::to_writer(&mut b, x)?
            }
            Ok(b.flush()?)
        }
        (PRETTY, 3) => Ok(w.write_all(serde_json::to_string_pretty(x)?.as_bytes())?),
        (_, 3) => Ok(w.write_all(serde_json::to_string(x)?.as_bytes())?),
        (PRETTY, _) => Ok(w.write_all(&serde_json::to_vec_pretty(x)?)?),
        _ => Ok(w.write_all(&serde_json::to_vec(x)?)?),
    }
}
pub fn save(p: &Part, fmt: usize, how: usize, cap: usize, w: &mut dyn Write) -> Result<(), Fail> {
    each!(p, x => save_as(x, fmt, how, cap, w))
}

fn load_as<S: DeserializeOwned>(fmt: usize, how: usize, cap: usize, r: &mut dyn Read) -> Result<S, Fail> {
    let all = |r: &mut dyn Read| -> Result<Vec<u8>, Fail> {
        let mut v = vec![];
        r.read_to_end(&mut v)?;
        Ok(v)
    };
    match (fmt, how % LOADS) {
        (BIN, 0 | 1) => Ok(bincode::deserialize_from(r)?),
        (BIN, 2 | 3) => Ok(bincode::deserialize_from(io::BufReader::with_capacity(cap.max(1), r))?),
        (BIN, _) => Ok(bincode::deserialize(&all(r)?)?),
        (_, 0) => Ok(serde_json::from_reader(r)?),
        (_, 1) => Ok(serde_json::from_reader(io::BufReader::with_capacity(cap.max(1), r))?),
        (_, 2) => Ok(serde_json::from_slice(&all(r)?)?),
        (_, 3) => {
            let mut s = String::new();
            r.read_to_string(&mut s)?;
            Ok(serde_json::from_str(&s)?)
        }
        (_, 4) => {
            // the first record of a stream, and nothing after it
            let mut it = serde_json::Deserializer::from_reader(r).into_iter::<S>();
            let Some(x) = it.next() else { return Err(Fail { io: None, eof: true, unfit: false, text: "empty".into() }) };
            let x = x?;
            match it.next() {
                None => Ok(x),
                Some(Err(e)) => Err(e.into()),
                Some(Ok(_)) => Err(Fail { io: None, eof: false, unfit: false, text: "more than one record".into() }),
            }
        }
        _ => {
            let mut b = io::BufReader::with_capacity(cap.max(1), r);
            let x = {
                let mut d = serde_json::Deserializer::from_reader(&mut b);
                let x = S::deserialize(&mut d)?;
                d.end()?;
                x
            };
            let _ = b.fill_buf();
            Ok(x)
        }
    }
}
macro_rules! load_kind {
    ($kind:expr, $f:ident($($a:expr),*)) => {
        Ok(match $kind % KINDS {
            0 => Part::Expr($f($($a),*)?),
            1 => Part::Atom($f($($a),*)?),
            2 => Part::Sum($f($($a),*)?),
            3 => Part::Prod($f($($a),*)?),
            4 => Part::Pow($f($($a),*)?),
            5 => Part::Func($f($($a),*)?),
            6 => Part::Real($f($($a),*)?),
            7 => Part::Irr($f($($a),*)?),
            8 => Part::Var($f($($a),*)?),
            9 => Part::Rat($f($($a),*)?),
            10 => Part::List($f($($a),*)?),
            11 => Part::Opt($f($($a),*)?),
            12 => Part::Pair($f($($a),*)?),
            _ => Part::Named($f($($a),*)?),
        })
    };
}
pub fn load(kind: usize, fmt: usize, how: usize, cap: usize, r: &mut dyn Read) -> Result<Part, Fail> {
    load_kind!(kind, load_as(fmt, how, cap, r))
}
fn load_bytes_as<S: DeserializeOwned>(fmt: usize, b: &[u8]) -> Result<S, Fail> {
    match fmt {
        BIN => Ok(bincode::deserialize(b)?),
        _ => Ok(serde_json::from_slice(b)?),
    }
}
pub fn load_bytes(kind: usize, fmt: usize, b: &[u8]) -> Result<Part, Fail> {
    load_kind!(kind, load_bytes_as(fmt, b))
}
fn via_value<S: DeserializeOwned + Serialize>(x: &S) -> Result<S, Fail> {
    let v = serde_json::to_value(x)?;
    Ok(serde_json::from_value(v)?)
}
/// Through a tree of values in memory instead of bytes.
pub fn through_value(p: &Part) -> Result<Part, Fail> {
    Ok(match p {
        Part::Expr(x) => Part::Expr(via_value(x)?),
        Part::Atom(x) => Part::Atom(via_value(x)?),
        Part::Sum(x) => Part::Sum(via_value(x)?),
        Part::Prod(x) => Part::Prod(via_value(x)?),
        Part::Pow(x) => Part::Pow(via_value(x)?),
        Part::Func(x) => Part::Func(via_value(x)?),
        Part::Real(x) => Part::Real(via_value(x)?),
        Part::Irr(x) => Part::Irr(via_value(x)?),
        Part::Var(x) => Part::Var(via_value(x)?),
        Part::Rat(x) => Part::Rat(via_value(x)?),
        Part::List(x) => Part::List(via_value(x)?),
        Part::Opt(x) => Part::Opt(via_value(x)?),
        Part::Pair(x) => Part::Pair(via_value(x)?),
        Part::Named(x) => Part::Named(via_value(x)?),
    })
}

fn log_as<S: DeserializeOwned>(r: &mut dyn Read, out: &mut dyn FnMut(S)) -> (usize, Option<Fail>) {
    let mut it = serde_json::Deserializer::from_reader(r).into_iter::<S>();
    loop {
        match it.next() {
            None => return (it.byte_offset(), None),
            Some(Ok(x)) => out(x),
            Some(Err(e)) => return (it.byte_offset(), Some(e.into())),
        }
    }
}
/// All records of a log, how far it is good, and what ended it.
pub fn load_log(kind: usize, r: &mut dyn Read) -> (Vec<Part>, usize, Option<Fail>) {
    let mut v = vec![];
    let (n, f) = match kind % KINDS {
        1 => log_as(r, &mut |x| v.push(Part::Atom(x))),
        10 => log_as(r, &mut |x| v.push(Part::List(x))),
        12 => log_as(r, &mut |x| v.push(Part::Pair(x))),
        _ => log_as(r, &mut |x| v.push(Part::Expr(x))),
    };
    (v, n, f)
}
pub fn log_kind(kind: usize) -> usize {
    match kind % KINDS {
        k @ (1 | 10 | 12) => k,
        _ => 0,
    }
}
