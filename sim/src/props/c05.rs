//! C05: memory is given back, whether operations finish or are cut short.

use super::{fault_lines, settle};
use crate::gen::G;
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, viol, Cx, Prop, V};
use crate::step::{line_tree, vals, Did, Mix, Pool, Step};
use crate::world::{End, W};
use calcu_ops::tree::T;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        gen,
        exec,
        quick: 40000,
        thorough: 200000,
        level: "exploration",
        rule: "A run repeats one seeded sequence of public operations 65 times in one process, each time with other names and other large numbers, optionally on a new thread, with allocation failures and callback panics at positions that move from round to round; everything is dropped after each round. If the memory in use (blocks or bytes) grew over each of the rounds 8 to 16, 16 to 32 and 32 to 64, the run goes on for up to 4096 rounds, and it fails if the memory grew over each doubling. One evaluation is one run; it is non-trivial if operations allocated and completed, and distinct by its plan.",
        real: &["calcu-rs, all of it, with its dependencies", "the Rust standard library's collections, formatting, thread locals and unwinding"],
        stub: &["memory allocator (arena that accounts every block, with injected failures)", "thread scheduler", "callbacks, writers, hashers and iterators supplied by the caller"],
        assumptions: &["allocation failure is reported by unwinding (an alloc error hook that panics)"],
    }
}

/// rounds of every run
pub const ROUNDS: usize = 65;
/// rounds of a run whose memory grew in the first ones
const MORE: usize = 4097;
/// and instrumented blocks it may take for them
const MORE_POINTS: u64 = 600_000_000;

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C05", r.u() >> 1);
    let g = G::new(r);
    let size = *r.pick(&[4, 8, 12, 20]);
    let k = 1 + r.below(5);
    for mut t in vals(r, &g, k, size) {
        if r.chance(1, 2) {
            wide(&mut t, r)
        }
        p.push(Line::new("val").t(t.text()))
    }
    p.push(
        Line::new("cfg")
            .w("threads", r.chance(1, 3) as i64)
            .w("consts", r.chance(1, 2) as i64)
            .w("policy", r.below(5))
            .w("hash", r.below(1000)),
    );
    let mix = Mix::new(r);
    for _ in 0..2 + r.below(7) {
        p.push(mix.line(r))
    }
    let Some((mut p, res)) = settle(&p, cx, &rt::Cfg::default(), &control) else { return Plan::new("C05", 0) };
    fault_lines(&mut p, &res, r, 3, 5);
    p
}

/// some numbers become large ones that differ from round to round
fn wide(t: &mut T, r: &mut Rng) {
    if let T::N(a, 1) = t {
        if r.chance(1, 3) {
            *a = 1_000_000 * r.range(1, 9) as i128
        }
    }
    if let T::W(b, _) = t {
        return wide(b, r);
    }
    for c in t.children_mut() {
        wide(c, r)
    }
}

fn control(p: &Plan, w: &mut W) {
    rt::adopt(0);
    let mut pool = super::c04::pool_of(p);
    for (i, l) in p.lines.iter().enumerate() {
        let Some(s) = Step::parse(l) else { continue };
        rt::mark(i as u32 + 1);
        let (d, u) = pool.run(&s, Arm { limit: 300_000, ..Arm::default() });
        super::note(w, i, &u, &d.text());
    }
    rt::mark(0);
}

struct Tally {
    points: u64,
    fired: u64,
    ops: u64,
    cut: u64,
}

fn round(p: &Plan, n: u64) -> Tally {
    let name = |s: &str| format!("{s}_{n:06}");
    let mut ts: Vec<T> = p.all("val").filter_map(line_tree).collect();
    for t in &mut ts {
        t.rename(&name);
        renumber(t, n as i128)
    }
    let mut pool = Pool::new(&ts);
    drop(ts);
    if p.opt("cfg", "consts", 0) != 0 {
        // the library's own constants, on every thread
        super::c04::consts();
    }
    let mut t = Tally { points: 0, fired: 0, ops: 0, cut: 0 };
    for (i, l) in p.lines.iter().enumerate() {
        let Some(s) = Step::parse(l) else { continue };
        rt::mark(i as u32 + 1);
        let mut a = Arm { limit: 4_000_000, alloc_limit: 200_000, ..Arm::default() };
        let by = l.num("by").max(1) as u64 * (n % 4);
        if s.fail > 0 {
            a.fail = s.fail + by
        }
        if s.cb > 0 {
            a.cb = s.cb + by
        }
        let (d, u) = pool.run(&s, a);
        t.points += u.points;
        t.fired += u.fired as u64;
        t.ops += 1;
        if let Did::Cut(_) = d {
            t.cut += 1
        }
    }
    pool.clear();
    t
}
fn renumber(t: &mut T, n: i128) {
    if let T::N(a, 1) = t {
        if *a >= 1_000_000 {
            *a = a.checked_add(n).unwrap_or(*a - n)
        }
    }
    for c in t.children_mut() {
        renumber(c, n)
    }
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    // the work must be bounded before it is repeated
    let (p, ctl) = settle(p, cx, &rt::Cfg::default(), &control)?;
    let cfg = rt::Cfg {
        policy: (p.opt("cfg", "policy", 0).rem_euclid(5)) as u8,
        hash_seed: p.opt("cfg", "hash", 1) as u64,
        ..rt::Cfg::default()
    };
    let threads = p.opt("cfg", "threads", 0) != 0;
    let res = cx.sim(&cfg, |w| {
        if !threads {
            rt::adopt(0)
        }
        let mut live: Vec<(i64, i64)> = vec![];
        let mut cut = 0;
        let mut ops = 0;
        let mut points = 0;
        // what is in use at rounds 8, 16, 32, ...
        let at = |live: &Vec<(i64, i64)>| -> Vec<(i64, i64)> { (3..20).map_while(|k| live.get(1 << k).copied()).collect() };
        let grows = |live: &Vec<(i64, i64)>| {
            let at = at(live);
            let all = |f: &dyn Fn(&(i64, i64)) -> i64| at.windows(2).all(|x| f(&x[1]) > f(&x[0]));
            all(&|x| x.0) || all(&|x| x.1)
        };
        for n in 0.. {
            // growth that stops, as that of a table with a bound, is none
            let on = n < ROUNDS || n < MORE && grows(&live) && points < MORE_POINTS && rt::arena_left() > 10;
            if !on {
                break;
            }
            let n = n as u64;
            let t = if threads {
                static mut TALLY: Tally = Tally { points: 0, fired: 0, ops: 0, cut: 0 };
                static mut PLAN: *const Plan = std::ptr::null();
                unsafe { PLAN = &p };
                rt::run_threads(vec![Box::new(move || unsafe { TALLY = round(&*PLAN, n) })], &[]);
                unsafe { Tally { points: TALLY.points, fired: TALLY.fired, ops: TALLY.ops, cut: TALLY.cut } }
            } else {
                round(&p, n)
            };
            points += t.points;
            cut += t.cut;
            ops += t.ops;
            live.push(rt::live());
        }
        w.count("?operations_repeated", ops);
        w.count("?operations_cut_short", cut);
        let seen = at(&live);
        w.obs("live", &format!("{seen:?}"));
        if live.len() > ROUNDS {
            w.count("?watched_for_longer", 1)
        }
        if grows(&live) {
            w.viol(
                "memory grows",
                &format!("(blocks, bytes) in use after everything was dropped, at rounds 8, 16, 32 and so on: {seen:?}"),
            )
        }
    });
    let work: u64 = (0..p.lines.len()).filter_map(|i| super::used(&ctl, i)).map(|u| u.1).sum();
    cx.eval(p.hash(), work > 0);
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    match res.end {
        End::Ok => None,
        End::Corrupt | End::Deadlock => {
            let (c, m) = died(res.end)?;
            viol(c, format!("{m}, while the work is repeated"))
        }
        // after an interruption, or with other names and numbers, the work
        // itself can be without bound; that is not about memory
        _ => {
            cx.count("?rounds_not_finished", 1);
            None
        }
    }
}
