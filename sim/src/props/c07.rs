//! C07: results depend on the arguments alone, not on history or environment.

use crate::gen::G;
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm, Inj, Used};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{line_tree, Did, Mix};
use crate::world::{End, W};
use calcu_ops::cat::{self, Cx as OpCx, Out};
use calcu_ops::tree::{self, n, T};
use calcu_rs::Expr;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        gen,
        exec,
        quick: 16000,
        thorough: 250000,
        level: "exploration",
        rule: "Each operation of a run is executed in a process of its own that did nothing before (reference), and again inside one long history: after other operations on equal, similar and unrelated arguments, repeated hundreds of times, interrupted by failing allocations and panicking callbacks, on other threads and at other stack depths, with reused addresses, other hash keys, clocks, environment variables and log levels. A rare history holds thousands of different arguments, each used once, and is run in two orders. All results must agree. One evaluation is one operation compared; it is distinct by operation, arguments and result, and non-trivial if something had happened before it in its history.",
        real: &["calcu-rs, all of it, with its dependencies", "the log facade with a logger that formats every record"],
        stub: &["memory allocator (arena, five address-reuse policies, injected failures)", "clock (jumps forwards and backwards)", "random source for hash keys", "environment variables", "thread scheduler"],
        assumptions: &["an operation interrupted in the history is itself not compared"],
    }
}

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        rt::har(|| {
            let _ = format!("{r:?} {}", r.args());
        })
    }
    fn flush(&self) {}
}
static LOG: Log = Log;
fn log_level(n: i64) {
    use log::LevelFilter::*;
    log::set_max_level([Off, Error, Warn, Info, Debug, Trace][(n.unsigned_abs() % 6) as usize])
}

fn gen(r: &mut Rng, _cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C07", r.u() >> 1);
    let mut g = G::new(r);
    g.big_nums = r.chance(1, 8);
    let size = *r.pick(&[3, 6, 10, 16]);
    p.push(
        Line::new("cfg")
            .w("policy", *r.pick(&[0, 0, 4, 4, 4, 1, 2, 3]))
            .w("hash", r.below(100_000))
            .w("clock", r.range(0, 1 << 40) * if r.chance(1, 4) { 1_000_000 } else { 1000 })
            .w("tick", *r.pick(&[0i64, 1000, 1_000_000_000, -1000, 1_000_000_000_000, -1_000_000_000_000, 70_000_000_000]))
            .w("log", *r.pick(&[0, 0, 1, 3, 4, 5, 5]))
            .w("env", r.below(8))
            .w("off", r.below(1 << 20))
            .w("share", *r.pick(&[0, 0, 1, 1, 3, 6, 100])),
    );
    // a marathon: an operation a great many times, then on other arguments
    let long = r.chance(1, 120);
    if long {
        p.lines[0].set("long", 1)
    }
    let mix = Mix::new(r);
    // a few subjects that come back in variations
    let mut base: Vec<T> = vec![];
    for _ in 0..2 + r.below(3) {
        let s = 1 + r.below(size);
        base.push(g.subject(r, s))
    }
    // one operation on expressions of one shape
    let drill = r.chance(1, 4);
    if drill {
        base.truncate(1)
    }
    let few = drill || r.chance(1, 2); // few operations, many times
    let all: Vec<cat::Op> = cat::ops().into_iter().filter(|o| o.w > 0).collect();
    let even = r.chance(1, 2);
    let fav: Vec<cat::Op> = (0..1 + if drill { 0 } else { r.below(3) }).map(|_| if even { *r.pick(&all) } else { mix.op(r) }).collect();
    let nums: Vec<i64> = (0..3).map(|_| r.range(0, 9)).collect();
    let edits = *r.pick(&[0, 1, 1, 4]);
    let muts: Vec<cat::MutOp> = {
        let all = cat::mut_ops();
        (0..3).map(|_| *r.pick(&all)).collect()
    };
    // a lot of different arguments, each used once
    if r.chance(1, 80) {
        let o = *r.pick(&all);
        let count = if r.chance(1, 25) { 70_000 } else { *r.pick(&[300, 1000, 3000, 3000]) };
        let s = 1 + r.below(if count > 3000 { 2 } else { 6 });
        let n = [r.range(0, 9), r.range(0, 9), r.range(0, 9)];
        let l = Line::new("lot").w("op", o.name).l("n", &n).w("count", count).w("kind", r.below(4)).w("seed", r.u() >> 20);
        p.push(l.t(g.tree(r, s).text()));
        return p;
    }
    if long {
        for _ in 0..3 {
            let big: Vec<cat::Op> = all.iter().filter(|o| o.tags & cat::BIG != 0).copied().collect();
            let o = if r.chance(1, 4) { *r.pick(&big) } else { *r.pick(&all) };
            for k in 0..6 {
                let args: Vec<T> = (0..o.ar)
                    .map(|_| {
                        let s = if k == 0 { 1 + r.below(6) } else { 4 + r.below(12) };
                        g.tree(r, s)
                    })
                    .collect();
                let mut l = Line::new("call").w("op", o.name).l("n", &[r.range(0, 9), r.range(0, 9), r.range(0, 9)]).t(T::S(args).text());
                if k == 0 {
                    l.set("rep", *r.pick(&[1500, 6000, 40_000]))
                }
                p.push(l)
            }
        }
        return p;
    }
    let most = if r.chance(1, 4) { 50 } else { 20 };
    let n = 8 + r.below(most);
    for _ in 0..n {
        match r.below(20) {
            0 => p.push(Line::new("env").w("mode", r.below(8))),
            1 => p.push(Line::new("log").w("level", r.below(6))),
            2 => p.push(Line::new("clock").w("add", r.range(-1 << 50, 1 << 50))),
            3 => p.push(Line::new("hold").w("n", r.below(200))),
            _ => {
                let o = if few { *r.pick(&fav) } else { mix.op(r) };
                // or an expression is changed in place
                let edit = r.chance(edits, 12).then(|| *r.pick(&muts));
                let (name, ar) = edit.map_or((o.name, o.ar), |m| (m.name, m.ar + 1));
                let args: Vec<T> = (0..ar)
                    .map(|_| -> T {
                        let b = r.pick(&base).clone();
                        let t = match if drill { r.below(4) * 5 / 3 } else { r.below(8) } {
                            0..=1 => b,
                            2 => {
                                let mut t = b;
                                let vs = g.names;
                                let k = r.below(7);
                                t.rename(&|s| vs[(vs.iter().position(|v| *v == s).unwrap_or(0) + k) % 7].to_string());
                                t
                            }
                            3 => {
                                let s = 1 + r.below(size);
                                g.tree(r, s)
                            }
                            4..=5 => g.twin(r, &b),
                            _ => g.variant(r, &b),
                        };
                        if t.size() > 400 {
                            g.leaf(r)
                        } else {
                            t
                        }
                    })
                    .collect();
                let n = if r.chance(2, 3) { [nums[0], nums[1], nums[2]] } else { [r.range(-9, 20), r.range(0, 9), r.range(0, 9)] };
                let mut l = Line::new("call").w("op", name).l("n", &n).t(T::S(args).text());
                if edit.is_some() {
                    l.set("mut", 1 + r.below(2))
                }
                match r.below(14) {
                    0 => l.set("rep", *r.pick(&[2, 5, 17, 70, 300, 1100])),
                    1 => l.set("thread", 1),
                    2 => l.set("depth", *r.pick(&[1, 10, 100, 400])),
                    3 => l.set("fail", 1 + r.below(30)),
                    4 => l.set("fail", 1 + r.below(400)),
                    5 => l.set("cb", 1 + r.below(6)),
                    6 => l.set("keep", 1),
                    _ => (),
                }
                if (!l.word("fail").is_empty() || !l.word("cb").is_empty()) && r.chance(1, 2) {
                    // right after state changed
                    l.set("hot", 1 + r.below(64))
                }
                p.push(l)
            }
        }
    }
    p
}

type Known = BTreeMap<T, Expr>;
/// Without `known` every argument is built anew; with it, parts that occurred
/// before are the same ones.
fn one(l: &Line, a: Arm, known: Option<(usize, &mut Known)>) -> (Did, Used, Vec<Expr>) {
    let none = (Did::Panics, Used::default(), vec![]);
    let edit = l.num("mut");
    let (op, mop) = if edit > 0 { (None, cat::find_mut(l.word("op"))) } else { (cat::find(l.word("op")), None) };
    let ar = match (&op, &mop) {
        (Some(o), _) => o.ar,
        (_, Some(m)) => m.ar + 1,
        _ => return none,
    };
    let mut ts = match line_tree(l) {
        Some(T::S(v)) => v,
        _ => vec![],
    };
    ts.resize(ar, T::V("x".into()));
    let args: Vec<Expr> = rt::lib(|| match known {
        Some((size, known)) => ts.iter().map(|t| tree::build_shared(t, size, known)).collect(),
        None => ts.iter().map(tree::build).collect(),
    });
    let n = l.n3();
    let mut args = args;
    let mut target = mop.map(|_| {
        let e = args.remove(0);
        // what is changed may be held elsewhere too
        let other = (edit == 2).then(|| rt::lib(|| e.clone()));
        (e, other)
    });
    let (r, u) = rt::op(a, || {
        let mut c = OpCx::new(args, n);
        match (&op, &mop, &mut target) {
            (Some(o), ..) => (o.f)(&mut c),
            (_, Some(m), Some((e, _))) => (m.f)(e, &mut c),
            _ => (),
        }
        c.out
    });
    let changed = target.map(|(e, other)| {
        let t = match &other {
            Some(o) => format!(" => {} / {}", tree::dump(&e), tree::dump(o)),
            None => format!(" => {}", tree::dump(&e)),
        };
        rt::lib(|| drop((e, other)));
        t
    });
    let (d, es) = match r {
        Ok(out) => {
            let t = cat::describe(&out) + &changed.unwrap_or_default();
            let Out { es, txt } = out;
            rt::lib(|| drop(txt));
            (Did::Text(t), es)
        }
        Err(None) => (Did::Panics, vec![]),
        Err(Some(i)) => (Did::Cut(i), vec![]),
    };
    (d, u, es)
}

#[inline(never)]
fn deep(n: i64, f: &mut dyn FnMut()) {
    let pad = [n as u8; 4096];
    if n <= 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    std::hint::black_box(&pad);
}

struct Send0(*const Line, Arm, *mut Option<(Did, Used)>);
unsafe impl Send for Send0 {}

type Want = Option<(u64, String, Vec<rt::Hot>)>;

fn history(p: &Plan, want: &[Want], w: &mut W) {
    rt::adopt(rt::CTRL);
    let _ = log::set_logger(&LOG);
    let mut kept: Vec<Expr> = vec![];
    let mut held: Vec<Expr> = vec![];
    let mut past = 0u64;
    let share = p.opt("cfg", "share", 0).clamp(0, 1000) as usize;
    let mut known = Known::new();
    let long = p.opt("cfg", "long", 0) != 0;
    log_level(p.opt("cfg", "log", 0));
    let mut left = 300_000_000u64;
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        match l.head.as_str() {
            "env" => rt::set_env_mode((l.num("mode") & 7) as u8),
            "log" => log_level(l.num("level")),
            "clock" => {
                let s = rt::sim();
                s.clock = s.clock.wrapping_add(l.num("add") as u64) & (u64::MAX >> 2)
            }
            "hold" => {
                for k in 0..l.num("n").clamp(0, 300) {
                    held.push(rt::lib(|| Expr::pow_raw(Expr::from(k), Expr::var("h"))))
                }
                let mut k = 0;
                held.retain(|_| {
                    k += 1;
                    k % 3 == 0
                });
            }
            "call" => {
                let Some((pts, want, hots)) = &want[i] else { continue };
                let mut a = Arm {
                    fail: l.num("fail").max(0) as u64,
                    cb: l.num("cb").max(0) as u64,
                    limit: pts * 16 + 300_000,
                    alloc_limit: 1_000_000,
                    ..Arm::default()
                };
                let hot = l.num("hot").unsigned_abs() as usize;
                if hot > 0 && !hots.is_empty() {
                    let h = hots[hot % hots.len()];
                    a.fail = if a.fail > 0 { h.1 + 1 } else { 0 };
                    a.cb = if a.cb > 0 { h.2 + 1 } else { 0 };
                }
                let most: u64 = if long { left / 3 } else { 3_000_000 };
                let rep = l.num("rep").clamp(1, if long { 40_000 } else { 2000 }).min((most / (pts + 50)) as i64).max(1);
                left = left.saturating_sub(rep as u64 * (pts + 50));
                for _ in 0..rep {
                    let (d, u, mut es) = if l.num("thread") != 0 {
                        let mut out = None;
                        let s = Send0(l, a, &mut out);
                        rt::run_threads(
                            vec![Box::new(move || {
                                let s = s;
                                let (d, u, es) = one(unsafe { &*s.0 }, s.1, None);
                                rt::lib(|| drop(es));
                                unsafe { *s.2 = Some((d, u)) }
                            })],
                            &[],
                        );
                        let (d, u) = out.unwrap();
                        (d, u, vec![])
                    } else {
                        let mut out = None;
                        deep(l.num("depth").clamp(0, 1000), &mut || out = Some(one(l, a, if share > 0 { Some((share, &mut known)) } else { None })));
                        out.unwrap()
                    };
                    if l.num("keep") != 0 && kept.len() < 40 {
                        kept.append(&mut es)
                    }
                    rt::lib(|| drop(es));
                    if d == Did::Cut(Inj::Alloc) || d == Did::Cut(Inj::Callback) || u.fired > 0 {
                        w.count("?operations_cut_short", 1);
                        break;
                    }
                    let got = d.text();
                    if got != *want {
                        return w.viol(
                            "result depends on history or environment",
                            &format!("in a fresh process: {want}\nhere:               {got}\nat: {}", l.text()),
                        );
                    }
                    past += 1;
                }
                w.obs("cmp", &format!("{i} {}", (past > 1) as u8));
            }
            _ => (),
        }
    }
    w.count("?operations_in_histories", past);
    rt::mark(0);
}

/// The i-th of a lot.
fn lot_line(l: &Line, i: u64) -> Line {
    let mut r = Rng::derive(l.num("seed") as u64, "lot", i);
    let g = G::new(&mut Rng::derive(l.num("seed") as u64, "names", 0));
    let base = line_tree(l).unwrap_or(T::V("x".into()));
    let ar = cat::find(l.word("op")).map_or(1, |o| o.ar);
    let args: Vec<T> = (0..ar)
        .map(|k| match l.num("kind") {
            // a name, or a number, that no other of them has
            0 | 1 if k == 0 => {
                let own = if l.num("kind") == 0 { T::V(format!("q{i}")) } else { n(i as i128 + 2) };
                match (base.clone(), r.below(3)) {
                    (t, 0) => T::S(vec![t, own]),
                    (t, 1) => T::M(vec![own, t]),
                    (t, _) => T::W(Box::new(t), Box::new(own)),
                }
            }
            2 => g.twin(&mut r, &base),
            _ => {
                let s = 1 + r.below(5);
                g.tree(&mut r, s)
            }
        })
        .collect();
    Line::new("call").w("op", l.word("op")).l("n", &l.n3()).t(T::S(args).text())
}

/// All of a lot, from the first to the last or the other way round.
fn lot_run(l: &Line, back: bool, show: Option<u64>, w: &mut W) {
    rt::adopt(0);
    let n = l.num("count").clamp(0, 100_000) as u64;
    let mut left = 200_000_000u64;
    for i in 0..n {
        let i = if back { n - 1 - i } else { i };
        rt::mark(i as u32 + 1);
        let (d, u, es) = one(&lot_line(l, i), Arm { limit: 400_000, alloc_limit: 1_000_000, ..Arm::default() }, None);
        rt::lib(|| drop(es));
        if show.is_none_or(|s| s == i) {
            let t = d.text();
            w.obs(&i.to_string(), &if show.is_none() { format!("{:x}", hash(&t)) } else { t })
        }
        left = left.saturating_sub(u.points + 100);
        if left == 0 {
            break;
        }
    }
    rt::mark(0);
}

fn lot(p: &Plan, l: &Line, cx: &mut Cx) -> Option<V> {
    let cfg = rt::Cfg { policy: (p.opt("cfg", "policy", 0).rem_euclid(5)) as u8, hash_seed: p.opt("cfg", "hash", 1) as u64, ..rt::Cfg::default() };
    let a = cx.sim(&cfg, |w| lot_run(l, false, None, w));
    let b = cx.sim(&cfg, |w| lot_run(l, true, None, w));
    let (ma, mb) = (a.map(), b.map());
    for (k, x) in &ma {
        let Some(y) = mb.get(k) else { continue };
        cx.eval(hash(&format!("{k} {}", l.text())), true);
        if x == y {
            continue;
        }
        let i: u64 = k.parse().unwrap_or(0);
        let one = lot_line(l, i);
        let alone = cx.control(&rt::Cfg::default(), |w| {
            rt::adopt(0);
            let (d, _, es) = self::one(&one, Arm { limit: 400_000, ..Arm::default() }, None);
            w.obs("0", &d.text());
            std::mem::forget(es)
        });
        let Some(want) = alone.get("0") else { continue };
        for back in [false, true] {
            let r = cx.sim(&cfg, |w| lot_run(l, back, Some(i), w));
            let got = r.get(k).unwrap_or("");
            if got != want {
                return viol(
                    "result depends on history or environment",
                    format!("in a fresh process: {want}\nafter many others:  {got}\nat: {}\nin: {} {}", one.text(), l.text(), if back { "(from the last)" } else { "" }),
                );
            }
        }
    }
    // one that ends alone ends after the others too
    for (r, back) in [(&a, false), (&b, true)] {
        let Some((c, m)) = died(r.end) else { continue };
        if r.end == End::Cpu || r.step == 0 {
            continue;
        }
        let one = lot_line(l, r.step as u64 - 1);
        let alone = cx.control(&rt::Cfg::default(), |w| {
            rt::adopt(0);
            let (_, _, es) = self::one(&one, Arm { limit: 20_000, ..Arm::default() }, None);
            w.obs("0", "done");
            std::mem::forget(es)
        });
        if alone.end == End::Ok {
            return viol(c, format!("{m}, though it ends in a fresh process, at: {}\nin: {} {}", one.text(), l.text(), if back { "(from the last)" } else { "" }));
        }
    }
    None
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    tree::set_style(p.seed);
    if let Some(l) = p.one("lot") {
        return lot(p, l, cx);
    }
    let mut want = vec![];
    let mut memo: std::collections::BTreeMap<String, Want> = Default::default();
    for l in &p.lines {
        if l.head != "call" {
            want.push(None);
            continue;
        }
        let key = format!("{} {} {} {:?}", l.word("op"), l.word("mut"), l.word("n"), l.tree);
        let v = match memo.get(&key) {
            Some(v) => v.clone(),
            None => {
                let r = cx.control(&rt::Cfg { probe: true, ..rt::Cfg::default() }, |w| {
                    rt::adopt(0);
                    let (d, u, _es) = one(l, Arm { limit: if p.opt("cfg", "long", 0) != 0 { 5_000_000 } else { 600_000 }, ..Arm::default() }, None);
                    super::note(w, 0, &u, &d.text());
                    std::mem::forget(_es);
                });
                let v = match (r.end, super::used(&r, 0)) {
                    (End::Ok, Some(u)) => Some((u.0, u.3.to_string(), super::hots(&r, 0))),
                    _ => {
                        cx.count("?control_line_dropped", 1);
                        None
                    }
                };
                memo.insert(key, v.clone());
                v
            }
        };
        want.push(v)
    }
    let cfg = rt::Cfg {
        policy: (p.opt("cfg", "policy", 0).rem_euclid(5)) as u8,
        hash_seed: p.opt("cfg", "hash", 1) as u64,
        clock0: p.opt("cfg", "clock", 1_700_000_000_000_000_000) as u64 & (u64::MAX >> 2),
        clock_step: p.opt("cfg", "tick", 1000) as u64,
        env_mode: (p.opt("cfg", "env", 0) & 7) as u8,
        probe: false,
        arena_off: p.opt("cfg", "off", 0) as u64,
        pad_seed: p.seed,
    };
    let res = cx.sim(&cfg, |w| history(p, &want, w));
    for (k, v) in &res.obs {
        if k == "cmp" {
            let (i, nt) = v.split_once(' ').unwrap();
            let i: usize = i.parse().unwrap();
            let l = &p.lines[i];
            let h = hash(&format!("{} {} {:?} {:?}", l.word("op"), l.word("n"), l.tree, want[i]));
            cx.eval(h, nt == "1")
        }
    }
    for (h, k) in [("env", "?environment_changed"), ("log", "?log_level_changed"), ("clock", "?clock_jumped"), ("hold", "?memory_layout_changed")] {
        let n = p.all(h).count() as u64;
        if n > 0 {
            cx.count(k, n)
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, though it ends in a fresh process, at: {l}"));
    }
    None
}
