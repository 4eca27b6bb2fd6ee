//! C04: an interrupted operation changes nothing and can be repeated.

use super::{hots, note, settle, used};
use crate::gen::G;
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{line_tree, vals, Did, Kind, Mix, Pool, Step};
use crate::world::W;
use calcu_ops::tree::{self, T};
use calcu_rs::Expr;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        gen,
        exec,
        quick: 70000,
        thorough: 600000,
        level: "fault_enumeration",
        rule: "A run is a seeded sequence of public operations on a pool of expressions that share parts. In each chosen operation the simulator fails the k-th allocation or panics in the k-th callback, for a series of k that covers the operation. One evaluation is one interruption that happened; it is distinct by operation, result, kind and position.",
        real: &["calcu-rs, all of it, with its dependencies", "the Rust standard library's collections, formatting and unwinding"],
        stub: &["memory allocator (arena with injected failures)", "callbacks, writers, hashers and iterators supplied by the caller", "clock, random source and environment of the process"],
        assumptions: &["allocation failure is reported by unwinding (an alloc error hook that panics), as a caller may configure; with the default hook the process ends and the property is vacuous"],
    }
}

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C04", r.u() >> 1);
    let mut g = G::new(r);
    g.big_nums = r.chance(1, 4);
    g.undef = r.chance(1, 8);
    let size = *r.pick(&[4, 8, 8, 14, 24]);
    let k = 2 + r.below(5);
    for t in vals(r, &g, k, size) {
        p.push(Line::new("val").t(t.text()))
    }
    p.push(Line::new("cfg").w("policy", r.below(5)).w("hash", r.below(1000)));
    let mix = Mix::new(r);
    let nsteps = 3 + r.below(10);
    for _ in 0..nsteps {
        p.push(mix.line(r))
    }
    let Some((mut p, res)) = settle(&p, cx, &rt::Cfg::default(), &control) else { return Plan::new("C04", 0) };
    // place the faults where the operations really allocate and call back
    let n = p.lines.len();
    // or one of them over and over
    let storm = r.chance(1, 20).then(|| r.below(n));
    for i in 0..n {
        let Some(u) = used(&res, i) else { continue };
        if u.0 > 200_000 {
            continue;
        }
        let (cb, times) = (u.2 > 0 && r.chance(1, 3), *r.pick(&[50, 100, 250]));
        let m = if cb { u.2 } else { u.1 };
        if storm == Some(i) && u.0 < 4000 && m > 0 {
            p.lines[i].set(if cb { "cb" } else { "fail" }, 1 + r.below(m as usize));
            p.lines[i].set("by", 0);
            p.lines[i].set("times", times);
            continue;
        }
        let heavy = u.0 > 5000;
        let tries = if heavy { 3 } else { *r.pick(&[0, 2, 6, 12, 24]) };
        let (allocs, ticks) = (u.1, u.2);
        let cb = ticks > 0 && (allocs == 0 || r.chance(2, 5));
        let m = if cb { ticks } else { allocs };
        if m == 0 || tries == 0 {
            continue;
        }
        let h = hots(&res, i);
        if !h.is_empty() && r.chance(1, 2) {
            // just after state changed that outlives the operation
            let h = r.pick(&h);
            let first = (if cb { h.2 } else { h.1 } + 1).saturating_sub(r.below(3) as u64).clamp(1, m);
            p.lines[i].set(if cb { "cb" } else { "fail" }, first);
            p.lines[i].set("by", 1);
            p.lines[i].set("times", tries.min(4).min(m - first + 1));
            continue;
        }
        let tries = tries.min(m);
        let by = (m / tries).max(1);
        let first = 1 + r.below((m - (tries - 1) * by) as usize) as u64;
        p.lines[i].set(if cb { "cb" } else { "fail" }, first);
        p.lines[i].set("by", by);
        p.lines[i].set("times", tries);
    }
    p
}

pub fn pool_of(p: &Plan) -> Pool {
    let ts: Vec<T> = p.all("val").filter_map(line_tree).collect();
    Pool::new(&ts)
}

fn control(p: &Plan, w: &mut W) {
    rt::adopt(0);
    let mut pool = pool_of(p);
    for (i, l) in p.lines.iter().enumerate() {
        let Some(s) = Step::parse(l) else { continue };
        rt::mark(i as u32 + 1);
        let (d, u) = pool.run(&s, Arm { limit: 1_500_000, ..Arm::default() });
        note(w, i, &u, &d.text());
    }
    rt::mark(0);
    w.obs("pool", &pool.texts().join("\n"));
    w.obs("consts", &consts());
}

pub fn consts() -> String {
    let v = rt::lib(|| {
        [Expr::zero(), Expr::one(), Expr::two(), Expr::min_one(), Expr::min_two(), Expr::pi(), Expr::e(), Expr::undef()]
    });
    v.iter().map(tree::dump).collect::<Vec<_>>().join(" ")
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, ctl) = settle(p, cx, &rt::Cfg::default(), &control)?;
    let cfg = rt::Cfg {
        policy: (p.opt("cfg", "policy", 0).rem_euclid(5)) as u8,
        hash_seed: p.opt("cfg", "hash", 1) as u64,
        ..rt::Cfg::default()
    };
    let res = cx.sim(&cfg, |w| sim(&p, &ctl, w));
    for (k, v) in &res.obs {
        if k == "fault" {
            cx.eval(hash(v), true)
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, in or after an interrupted operation, at: {l}"));
    }
    None
}

fn sim(p: &Plan, ctl: &crate::world::Res, w: &mut W) {
    rt::adopt(0);
    let mut pool = pool_of(p);
    for (i, l) in p.lines.iter().enumerate() {
        let Some(s) = Step::parse(l) else { continue };
        let Some((points, _, _, want)) = used(ctl, i) else { continue };
        rt::mark(i as u32 + 1);
        // what is built again shares no parts, so that comparing takes longer
        let lim = (points * 2000).min(60_000_000) + 300_000;
        let (by, times) = (l.num("by").max(0) as u64, l.num("times").clamp(0, 256) as u64);
        let times = if s.fail > 0 || s.cb > 0 { times.max(1) } else { 0 };
        let mut did = None;
        for j in 0..=times {
            let mut a = Arm { limit: lim, alloc_limit: 2_000_000, ..Arm::default() };
            if j < times {
                if s.cb > 0 {
                    a.cb = s.cb + j * by
                } else {
                    a.fail = s.fail + j * by
                }
            }
            let before: Vec<T> = pool.v.iter().map(tree::tree).collect();
            let (d, u) = pool.run(&s, a);
            let own = u.fired == 0 && d == Did::Panics;
            if !own && (u.fired == 0 || matches!(d, Did::Text(_))) {
                did = Some(d);
                break;
            }
            if own {
                w.count("?panicked_by_itself", 1)
            }
            w.obs("fault", &format!("{} {want} {} {}", s.name(), a.fail, a.cb));
            w.flush();
            // nothing may have changed, except what the operation consumed or
            // was editing in place
            let free = match s.kind {
                Kind::Mut(o) if o.editing => Some(pool.at(s.d)),
                Kind::Op(_) => (0..s.a.len()).find(|k| s.mv >> k & 1 == 1).map(|k| pool.at(s.a[k])),
                _ => None,
            };
            for (k, b) in before.iter().enumerate() {
                if Some(k) == free {
                    if !own {
                        pool.v[k] = rt::lib(|| tree::build(b))
                    }
                    continue;
                }
                let now = tree::tree(&pool.v[k]);
                if now != *b {
                    let what = match s.kind {
                        Kind::Mut(_) if k == pool.at(s.d) => "the target of the interrupted assignment",
                        _ => "an expression that existed before the interrupted operation",
                    };
                    return w.viol(
                        "changed by an interrupted operation",
                        &format!("{what} changed\nbefore: {}\nafter:  {}\nat: {}", b.text(), now.text(), l.text()),
                    );
                }
            }
            if own {
                did = Some(d);
                break;
            }
        }
        let Some(did) = did else { continue };
        let got = did.text();
        if got != want {
            return w.viol(
                "repeating gives something else",
                &format!("expected: {want}\ngot:      {got}\nat: {}", l.text()),
            );
        }
    }
    rt::mark(0);
    let pt = pool.texts().join("\n");
    if Some(pt.as_str()) != ctl.get("pool") {
        return w.viol("repeating gives something else", &format!("the expressions at the end differ:\n{pt}"));
    }
    let c = consts();
    if Some(c.as_str()) != ctl.get("consts") {
        w.viol("changed by an interrupted operation", &format!("the constants are now {c}"))
    }
}
