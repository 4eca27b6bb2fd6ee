//! Steps: one public operation each, on a pool of expressions.

use crate::gen::G;
use crate::plan::Line;
use crate::rng::Rng;
use crate::rt::{self, Arm, Inj, Used};
use calcu_ops::cat::{self, Cx as OpCx, MutOp, Op, Out};
use calcu_ops::tree::{self, T};
use calcu_rs::Expr;

pub const POOL: usize = 10;
pub const KEEP: usize = 150; // nodes: larger results are compared, not kept

#[derive(Clone, Copy)]
pub enum Kind {
    Op(Op),
    Mut(MutOp),
}
#[derive(Clone)]
pub struct Step {
    pub kind: Kind,
    pub a: Vec<usize>,
    pub n: [i64; 3],
    pub mv: u64,
    /// where the result goes, or what is changed
    pub d: usize,
    pub fail: u64,
    pub cb: u64,
    pub stall: u64,
}
impl Step {
    pub fn name(&self) -> &'static str {
        match self.kind {
            Kind::Op(o) => o.name,
            Kind::Mut(o) => o.name,
        }
    }
    pub fn parse(l: &Line) -> Option<Step> {
        let kind = match l.head.as_str() {
            "step" => Kind::Op(cat::find(l.word("op"))?),
            "edit" => Kind::Mut(cat::find_mut(l.word("op"))?),
            _ => return None,
        };
        let ar = match kind {
            Kind::Op(o) => o.ar,
            Kind::Mut(o) => o.ar,
        };
        let mut a: Vec<usize> = l.nums("a").iter().map(|x| x.unsigned_abs() as usize).collect();
        a.resize(ar, 0);
        Some(Step {
            kind,
            a,
            n: l.n3(),
            mv: l.num("mv") as u64,
            d: l.num("d").unsigned_abs() as usize,
            fail: l.num("fail").max(0) as u64,
            cb: l.num("cb").max(0) as u64,
            stall: l.num("stall").max(0) as u64,
        })
    }
    pub fn arm(&self) -> Arm {
        Arm { fail: self.fail, cb: self.cb, stall: self.stall, ..Arm::default() }
    }
}

/// What a step did, as text that does not depend on where or when it ran.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Did {
    Text(String),
    /// the operation panics by itself on these arguments
    Panics,
    Cut(Inj),
}
impl Did {
    pub fn text(&self) -> String {
        match self {
            Did::Text(s) => s.clone(),
            Did::Panics => "PANICS".into(),
            Did::Cut(i) => format!("CUT {i:?}"),
        }
    }
}

pub struct Pool {
    pub v: Vec<Expr>,
}
impl Pool {
    pub fn new(trees: &[T]) -> Pool {
        let mut v: Vec<Expr> = rt::lib(|| trees.iter().map(tree::build).collect());
        if v.is_empty() {
            v.push(rt::lib(|| Expr::var("x")))
        }
        // the list itself is the harness's
        let mut w = Vec::with_capacity(POOL + 8);
        w.append(&mut v);
        rt::lib(|| drop(v));
        Pool { v: w }
    }
    pub fn at(&self, i: usize) -> usize {
        i % self.v.len()
    }
    pub fn texts(&self) -> Vec<String> {
        self.v.iter().map(tree::dump).collect()
    }
    pub fn clear(&mut self) {
        rt::lib(|| self.v.clear())
    }
    fn keep(&mut self, es: Vec<Expr>, d: usize, into: Option<usize>) {
        let mut into = into;
        for (i, e) in es.into_iter().enumerate() {
            let small = i < 2 && tree::from_expr(&e, &mut (KEEP + 1).clone()).size() <= KEEP;
            rt::lib(|| {
                if !small {
                    drop(e)
                } else if let Some(k) = into.take() {
                    self.v[k] = e
                } else if self.v.len() < POOL {
                    self.v.push(e)
                } else {
                    let k = (d + i) % self.v.len();
                    self.v[k] = e
                }
            })
        }
    }
    /// Runs one step. Arguments named in `mv` are moved out of the pool; their
    /// place takes the result.
    pub fn run(&mut self, s: &Step, arm: Arm) -> (Did, Used) {
        match s.kind {
            Kind::Op(o) => {
                let mut moved = None;
                let mut args: Vec<Expr> = Vec::with_capacity(4);
                for (i, x) in s.a.iter().enumerate() {
                    let k = self.at(*x);
                    if s.mv >> i & 1 == 1 && moved.is_none() {
                        // a moved argument may be the only holder of its parts
                        let hole = rt::lib(|| Expr::var("hole"));
                        args.push(std::mem::replace(&mut self.v[k], hole));
                        moved = Some(k);
                    } else {
                        let e = if moved == Some(k) { args[0].clone() } else { self.v[k].clone() };
                        args.push(e)
                    }
                }
                let (r, u) = rt::op(arm, || {
                    let mut c = OpCx::new(args, s.n);
                    (o.f)(&mut c);
                    c.out
                });
                let did = match r {
                    Ok(out) => {
                        let t = cat::describe(&out);
                        let Out { es, txt } = out;
                        rt::lib(|| drop(txt));
                        self.keep(es, s.d, moved);
                        Did::Text(t)
                    }
                    Err(None) => Did::Panics,
                    Err(Some(i)) => Did::Cut(i),
                };
                (did, u)
            }
            Kind::Mut(o) => {
                let d = self.at(s.d);
                let mut args: Vec<Expr> = Vec::with_capacity(4);
                for x in &s.a {
                    let k = self.at(*x);
                    args.push(self.v[k].clone())
                }
                let target = &mut self.v[d];
                let (r, u) = rt::op(arm, || {
                    let mut c = OpCx::new(args, s.n);
                    (o.f)(target, &mut c);
                    c.out
                });
                let did = match r {
                    Ok(out) => {
                        let t = cat::describe(&out) + " => " + &tree::dump(&self.v[d]);
                        let Out { es, txt } = out;
                        rt::lib(|| drop(txt));
                        self.keep(es, s.d + 1, None);
                        if tree::from_expr(&self.v[d], &mut (KEEP * 2).clone()).size() >= KEEP * 2 {
                            rt::lib(|| self.v[d] = Expr::var("big"))
                        }
                        Did::Text(t)
                    }
                    Err(None) => Did::Panics,
                    Err(Some(i)) => Did::Cut(i),
                };
                (did, u)
            }
        }
    }
}

// ---------------------------------------------------------------- generation

/// A mix of operations for one run: most of the catalogue, some favourites.
pub struct Mix {
    ops: Vec<(Op, u32)>,
    muts: Vec<(MutOp, u32)>,
    pub mut_share: u32, // of 16
}
impl Mix {
    pub fn new(r: &mut Rng) -> Mix {
        Mix::themed(r, 4)
    }
    pub fn themed(r: &mut Rng, themes: u32) -> Mix {
        if r.chance(themes, 12) {
            // a theme: very few operations, over and over
            let all: Vec<Op> = cat::ops().into_iter().filter(|o| o.w > 0).collect();
            let even = r.chance(1, 2);
            let ops = (0..1 + r.below(3))
                .map(|_| (if even { *r.pick(&all) } else { all[r.weighted(&all, |o| o.w)] }, 1))
                .collect();
            let muts = cat::mut_ops();
            let muts = (0..1 + r.below(2)).map(|_| (*r.pick(&muts), 1)).collect();
            return Mix { ops, muts, mut_share: r.below(7) as u32 };
        }
        let focus = r.chance(1, 3);
        let ops = cat::ops()
            .into_iter()
            .filter_map(|o| {
                let w = if focus && r.chance(3, 4) { 0 } else { o.w * if r.chance(1, 8) { 6 } else { 1 } };
                if w > 0 {
                    Some((o, w))
                } else {
                    None
                }
            })
            .collect();
        let muts = cat::mut_ops().into_iter().map(|o| (o, o.w * if r.chance(1, 6) { 5 } else { 1 })).collect();
        Mix { ops, muts, mut_share: r.below(7) as u32 }
    }
    pub fn tags(mut self, f: impl Fn(&Op) -> bool) -> Mix {
        self.ops.retain(|o| f(&o.0));
        if self.ops.is_empty() {
            self.ops = cat::ops().into_iter().filter(|o| f(o)).map(|o| (o, o.w)).collect()
        }
        self
    }
    pub fn op(&self, r: &mut Rng) -> Op {
        self.ops[r.weighted(&self.ops, |o| o.1)].0
    }
    pub fn line(&self, r: &mut Rng) -> Line {
        let n = [small(r), small(r), small(r)];
        if r.chance(self.mut_share, 16) {
            let o = self.muts[r.weighted(&self.muts, |o| o.1)].0;
            let a: Vec<i64> = (0..o.ar).map(|_| r.below(POOL) as i64).collect();
            Line::new("edit").w("op", o.name).l("a", &a).l("n", &n).w("d", r.below(POOL))
        } else {
            let o = self.op(r);
            let a: Vec<i64> = (0..o.ar).map(|_| r.below(POOL) as i64).collect();
            let mut l = Line::new("step").w("op", o.name).l("a", &a).l("n", &n).w("d", r.below(POOL));
            if o.ar > 0 && r.chance(1, 3) {
                l.set("mv", 1 << r.below(o.ar))
            }
            l
        }
    }
}
fn small(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => r.range(-40, 40),
        1 => 1,
        2 => 0,
        _ => r.range(0, 9),
    }
}
pub fn vals(r: &mut Rng, g: &G, k: usize, size: usize) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for _ in 0..k {
        if r.chance(1, 28) {
            v.push(g.rare(r));
            continue;
        }
        let sz = 1 + r.below(size);
        let t = if !v.is_empty() && r.chance(1, 5) {
            let b = r.pick(&v).clone();
            if r.chance(1, 3) {
                g.twin(r, &b)
            } else {
                g.variant(r, &b)
            }
        } else {
            g.tree(r, sz)
        };
        v.push(if t.size() > 3 * size { g.leaf(r) } else { t })
    }
    v
}
pub fn line_tree(l: &Line) -> Option<T> {
    T::parse(l.tree.as_deref()?)
}
