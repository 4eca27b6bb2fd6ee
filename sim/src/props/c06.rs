//! C06: sharing is invisible.

use super::settle;
use crate::gen::G;
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{vals, Kind, Mix, Pool, Step, POOL};
use crate::world::W;
use calcu_ops::tree;
use calcu_rs::{Expr, SymbolicExpr};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        gen,
        exec,
        quick: 130000,
        thorough: 700000,
        level: "exploration",
        rule: "A run is a seeded schedule of several holders acting in turn on expressions that share parts: public operations, in-place edits, walks held half-way while another holder acts, and callbacks that edit another holder. It is executed twice, once with real sharing and once with every holder given a private deep copy before each step; every result and every holder's value after each step must agree. One evaluation is one step compared; it is distinct by step and outcome, and non-trivial if the acting holder shared parts with another.",
        real: &["calcu-rs, all of it, with its dependencies"],
        stub: &["memory allocator (arena, five address-reuse policies)", "the order in which holders act", "callbacks and writers supplied by the caller"],
        assumptions: &[],
    }
}

fn gen(r: &mut Rng, _cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C06", r.u() >> 1);
    let g = G::new(r);
    let size = *r.pick(&[4, 8, 12, 18]);
    let k = 1 + r.below(3);
    for t in vals(r, &g, k, size) {
        p.push(Line::new("val").t(t.text()))
    }
    p.push(Line::new("cfg").w("policy", r.below(5)));
    let mut mix = Mix::new(r);
    mix.mut_share = 5 + r.below(6) as u32;
    for _ in 0..4 + r.below(16) {
        match r.below(12) {
            0..=3 => p.push(Line::new("copy").w("s", r.below(POOL)).w("d", r.below(POOL))),
            4 => {
                let w = mix.line(r);
                p.push(Line { head: if w.head == "edit" { "walkedit".into() } else { "walkstep".into() }, ..w }.w("s", r.below(POOL)).w("k", r.below(8)))
            }
            5 => {
                let w = mix.line(r);
                if w.head == "edit" {
                    p.push(Line { head: "cbedit".into(), ..w }.w("s", r.below(POOL)).w("k", r.below(8)))
                }
            }
            _ => p.push(mix.line(r)),
        }
    }
    p
}

/// Gives every holder its own deep copy.
fn unshare(pool: &mut Pool) {
    for e in pool.v.iter_mut() {
        let t = tree::tree(e);
        rt::lib(|| *e = tree::build(&t))
    }
}

fn play(p: &Plan, w: &mut W, private: bool, limit: u64) {
    rt::adopt(0);
    let mut pool = super::c04::pool_of(p);
    let mut last: Vec<String> = vec![];
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        if private {
            unshare(&mut pool)
        }
        let a = Arm { limit, ..Arm::default() };
        let (head, held) = match l.head.as_str() {
            "walkstep" => ("step", true),
            "walkedit" | "cbedit" => ("edit", true),
            h => (h, false),
        };
        let s = l.num("s").unsigned_abs() as usize;
        let got = match head {
            "copy" => {
                let (s, d) = (pool.at(s), l.num("d").unsigned_abs() as usize);
                let e = rt::lib(|| pool.v[s].clone());
                if pool.v.len() < POOL {
                    pool.v.push(e)
                } else {
                    let d = pool.at(d);
                    rt::lib(|| pool.v[d] = e)
                }
                "copied".to_string()
            }
            "step" | "edit" => {
                let mut q = l.clone();
                q.head = head.into();
                let Some(st) = Step::parse(&q) else { continue };
                if !held {
                    pool.run(&st, a).0.text()
                } else if l.head == "cbedit" {
                    cbedit(&mut pool, s, l.num("k"), &st, a, private)
                } else {
                    walk(&mut pool, s, l.num("k"), &st, a, private)
                }
            }
            _ => continue,
        };
        let now = pool.texts();
        // only report what changed, to keep the record short
        let mut t = got;
        for (k, x) in now.iter().enumerate() {
            if last.get(k) != Some(x) {
                t.push_str(&format!("\n  holder {k}: {x}"))
            }
        }
        last = now;
        if !private {
            let c = super::c04::consts();
            if c != "0 1 2 -1 -2 #pi #e #u" {
                t.push_str(&format!("\n  constants: {c}"))
            }
        }
        w.obs(&i.to_string(), &t);
        w.flush();
    }
    rt::mark(0);
}

/// A walk over one holder's copy is held half-way while another holder acts.
fn walk(pool: &mut Pool, s: usize, k: i64, st: &Step, a: Arm, private: bool) -> String {
    let s = pool.at(s);
    let mut mine: Expr = rt::lib(|| pool.v[s].clone());
    if private {
        let t = tree::tree(&mine);
        mine = rt::lib(|| tree::build(&t))
    }
    let mut seen = String::new();
    let mut it = mine.iter_compl_sub_exprs();
    for _ in 0..k.clamp(0, 20) {
        let Some(e) = rt::lib(|| it.next()) else { break };
        seen.push_str(&tree::dump(e));
        seen.push(';');
    }
    let part: Vec<&Expr> = mine.args().iter().collect();
    let d = pool.run(st, a).0.text();
    for e in part {
        seen.push_str(&tree::dump(e));
        seen.push(',');
    }
    let mut n = 0;
    while let Some(e) = rt::lib(|| it.next()) {
        seen.push_str(&tree::dump(e));
        seen.push(';');
        n += 1;
        if n > 60 {
            break;
        }
    }
    drop(it);
    rt::lib(|| drop(mine));
    format!("{d}\n  walked: {seen}")
}

/// While the library edits one holder through a callback, the callback edits
/// another holder of the same parts.
fn cbedit(pool: &mut Pool, s: usize, k: i64, st: &Step, a: Arm, private: bool) -> String {
    let s = pool.at(s);
    let mut mine: Expr = rt::lib(|| pool.v[s].clone());
    if private {
        let t = tree::tree(&mine);
        mine = rt::lib(|| tree::build(&t))
    }
    let Kind::Mut(o) = st.kind else { return String::new() };
    let at = k.rem_euclid(5);
    let acted = std::cell::RefCell::new((0, String::new(), String::new(), &mut *pool));
    let (r, _) = rt::op(a, || {
        mine.for_each_compl_sub_expr(|e| {
            rt::har(|| {
                let mut st8 = acted.borrow_mut();
                let (n, d, log, pool) = &mut *st8;
                if log.len() < 4000 {
                    log.push_str(&tree::dump(e));
                    log.push(';');
                }
                if *n == at {
                    // the other holder acts now
                    let args: Vec<Expr> = st.a.iter().map(|x| pool.v[pool.at(*x)].clone()).collect();
                    let k = pool.at(st.d);
                    rt::lib(|| {
                        let mut c = calcu_ops::cat::Cx::new(args, st.n);
                        (o.f)(&mut pool.v[k], &mut c);
                        rt::har(|| *d = calcu_ops::cat::describe(&c.out));
                    });
                    rt::lib(|| *e = Expr::var("here"));
                }
                *n += 1;
            })
        })
    });
    let (_, d, log, _) = acted.into_inner();
    let m = tree::dump(&mine);
    rt::lib(|| drop(mine));
    let bad = if r.is_err() { "PANICS" } else { "" };
    let k = pool.at(st.d);
    if tree::from_expr(&pool.v[k], &mut 400).size() >= 400 {
        rt::lib(|| pool.v[k] = Expr::var("big"))
    }
    format!("{d} {bad}\n  edited: {m}\n  saw: {log}")
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, ctl) = settle(p, cx, &rt::Cfg::default(), &|p, w| play(p, w, true, 1_000_000))?;
    let cfg = rt::Cfg { policy: (p.opt("cfg", "policy", 0).rem_euclid(5)) as u8, ..rt::Cfg::default() };
    let res = cx.sim(&cfg, |w| play(&p, w, false, 12_000_000));
    let (want, got) = (ctl.map(), res.map());
    for (i, l) in p.lines.iter().enumerate() {
        let k = i.to_string();
        let (Some(a), b) = (want.get(k.as_str()), got.get(k.as_str())) else { continue };
        let Some(b) = b else { break };
        cx.eval(hash(&format!("{} {a}", l.text())), l.head != "val");
        cx.count(&format!("?{}", l.head), 1);
        if a != b {
            return viol(
                "a holder sees another holder's change",
                format!("at: {}\nwith private copies: {a}\nwith sharing:        {b}", l.text()),
            );
        }
    }
    if let Some((c, m)) = died(res.end) {
        return viol(c, format!("{m}, with sharing only, at line {}", res.step));
    }
    None
}
