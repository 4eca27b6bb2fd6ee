//! C08: threads working at once get the results each would get alone.

use super::{hots, note, settle};
use crate::gen::G;
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm, St};
use crate::run::{died, hash, hot_switches, viol, Cx, Prop, V};
use crate::step::{line_tree, vals, Did, Mix, Pool, Step};
use crate::world::Res;
use calcu_ops::tree::T;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        gen,
        exec,
        quick: 52000,
        thorough: 300000,
        level: "exploration",
        rule: "Two to four real threads (now and then up to twenty) run seeded sequences of public operations on their own expressions under a scheduler that lets exactly one run and switches at seeded basic blocks, allocations and callbacks. Threads are stopped for good or killed by a panic inside operations. Each result must equal the result of the same thread in a process of its own, and each operation must end within 8 times the steps it takes alone (plus 20000). One evaluation is one operation compared; it is distinct by operation, result and the interleaving it ran in, and non-trivial if the processor changed hands during the run.",
        real: &["calcu-rs, all of it, with its dependencies", "the Rust standard library's thread locals, locks, atomics and thread exit"],
        stub: &["thread scheduler (one thread at a time, switches at every instrumented block)", "futex, sleep and yield", "memory allocator", "clock and random source"],
        assumptions: &["threads are interleaved at basic blocks under sequential consistency; weaker memory orders are not explored"],
    }
}

/// more threads than anybody would give slots
const MANY: [usize; 5] = [9, 17, 17, 18, 20];

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C08", r.u() >> 1);
    let many = r.chance(1, 150);
    let n = if many { *r.pick(&MANY) } else { *r.pick(&[2, 2, 2, 3, 3, 4]) };
    p.push(Line::new("cfg").w("threads", n).w("policy", r.below(5)).w("hash", r.below(1000)));
    let g = G::new(r);
    let size = *r.pick(&[3, 6, 10, 16]);
    let mix = Mix::themed(r, 6);
    // threads doing the same work meet in the same places
    let twins = many || r.chance(1, 2);
    let mut first: Vec<Line> = vec![];
    for t in 0..n {
        let mut mine = vec![];
        if t > 0 && twins {
            for l in &first {
                let mut l = l.clone();
                if l.head == "val" && r.chance(1, 3) {
                    let b = line_tree(&l).unwrap();
                    l.tree = Some(g.variant(r, &b).text())
                }
                mine.push(l)
            }
        } else {
            let k = 1 + r.below(3);
            for x in vals(r, &g, k, size) {
                mine.push(Line::new("val").t(x.text()))
            }
            for _ in 0..if many { 1 } else { 1 + r.below(5) } {
                mine.push(mix.line(r))
            }
        }
        if t == 0 {
            first = mine.clone()
        }
        for l in mine {
            p.push(l.w("t", t))
        }
    }
    let Some((mut p, rs)) = alone(&p, cx) else { return Plan::new("C08", 0) };
    let mut seen = look(&rs);
    if !seen.lines.is_empty() && r.chance(1, 2) {
        cx.count("?runs_on_shared_state", 1);
        p = crowd(r, &g, &p, &seen.lines);
        let Some((q, rs)) = alone(&p, cx) else { return Plan::new("C08", 0) };
        p = q;
        seen = look(&rs);
    }
    let Seen { spots, total, hot, .. } = seen;
    let n = threads(&p);
    if n > 6 && r.chance(2, 3) {
        // one waits inside its work while the others do theirs, one after another
        for v in 0..8 {
            let who = r.below(n.min(3));
            let all = if hot[who].is_empty() { 1 + r.below(total as usize / n + 1) as u64 } else { *r.pick(&hot[who]) };
            let at = all.saturating_add_signed(r.range(-8, 9)).max(1);
            for (g, to) in [(1, who), (at, who + 1), (1 << 29, r.below(2) * (who + 1)), (1 << 29, who + 1)] {
                p.push(Line::new("switch").w("v", v).w("g", g).w("to", to));
            }
        }
        return p;
    }
    for (t, j, u) in &spots {
        if u[0] > 1 && r.chance(1, 8) {
            if let Some(l) = step_line(&mut p, *t, *j) {
                match r.below(4) {
                    0 if u[2] > 0 => l.set("cb", 1 + r.below(u[2] as usize)),
                    1 if u[1] > 0 => l.set("fail", 1 + r.below(u[1] as usize)),
                    _ => l.set("stall", 1 + r.below(u[0] as usize)),
                }
            }
        }
    }
    if hot.iter().any(|h| !h.is_empty()) && r.chance(2, 3) {
        // switches around the places where state changes that the threads share
        for v in 0..*r.pick(&[1, 6, 24]) {
            for (g, to) in hot_switches(r, &hot) {
                p.push(Line::new("switch").w("v", v).w("g", g).w("to", to));
            }
        }
        return p;
    }
    let mean = *r.pick(&[3, 20, 100, 400, total / 8 + 5, total / 3 + 5]);
    let k = (total / mean.max(1) + 2).min(400) as usize;
    for _ in 0..k {
        p.push(Line::new("switch").w("g", r.geo(mean)).w("to", r.below(16)))
    }
    p
}

/// What the threads did when each was alone.
struct Seen {
    /// thread, step, and the points, allocations and callbacks it took
    spots: Vec<(usize, usize, Vec<u64>)>,
    total: u64,
    /// per thread, when it touched state that threads share
    hot: Vec<Vec<u64>>,
    /// the steps in which
    lines: Vec<(usize, usize)>,
}
fn look(rs: &[Res]) -> Seen {
    let mut s = Seen { spots: vec![], total: 0, hot: vec![vec![]; rs.len()], lines: vec![] };
    for (t, r) in rs.iter().enumerate() {
        for (k, v) in &r.obs {
            if let Some(j) = k.strip_prefix("hot") {
                let j = j.parse().unwrap_or(0);
                let n = s.hot[t].len();
                s.hot[t].extend(hots(r, j).iter().filter(|h| h.3 != 0).map(|h| h.0));
                if s.hot[t].len() > n {
                    s.lines.push((t, j))
                }
            }
            if let Some((a, _)) = v.split_once('|') {
                let u: Vec<u64> = a.split(' ').map(|x| x.parse().unwrap()).collect();
                s.total += u[0];
                s.spots.push((t, k.parse::<usize>().unwrap_or(0), u))
            }
        }
    }
    s
}

/// The steps that touch state that threads share, over and over on all threads.
fn crowd(r: &mut Rng, g: &G, p: &Plan, lines: &[(usize, usize)]) -> Plan {
    let mut p = p.clone();
    let many = r.chance(1, 10);
    if many {
        let n = *r.pick(&MANY);
        p.lines.iter_mut().filter(|l| l.head == "cfg").for_each(|l| l.set("threads", n))
    }
    let (t0, j0) = *r.pick(lines);
    let all = std::mem::take(&mut p.lines);
    let mine: Vec<Line> = all.iter().filter(|l| l.head != "cfg" && l.num("t") == t0 as i64).cloned().collect();
    p.lines.extend(all.iter().filter(|l| l.head == "cfg").cloned());
    let hot: Vec<Line> = {
        let mut q = p.clone();
        q.lines = all;
        lines.iter().filter(|x| x.0 == t0).filter_map(|x| step_line(&mut q, x.0, x.1).cloned()).collect()
    };
    let change = *r.pick(&[0, 1, 2, 3]);
    for t in 0..threads(&p) {
        let (mut j, mut out) = (0, vec![]);
        for l in &mine {
            let mut l = l.clone();
            if l.head == "val" {
                if t > 0 && r.chance(change, 3) {
                    let b = line_tree(&l).unwrap();
                    l.tree = Some(if r.chance(1, 2) { g.variant(r, &b) } else { g.twin(r, &b) }.text())
                }
            } else {
                j += 1;
                if j > j0 + 1 {
                    break;
                }
            }
            out.push(l)
        }
        for _ in 0..1 + if many { 0 } else { r.below(6) } {
            let mut l = r.pick(&hot).clone();
            if r.chance(change, 6) {
                let n = l.nums("a").len();
                let a: Vec<i64> = (0..n).map(|_| r.below(6) as i64).collect();
                l = l.l("a", &a)
            }
            out.push(l)
        }
        for mut l in out {
            l.set("t", t);
            p.push(l)
        }
    }
    p
}

fn step_line(p: &mut Plan, t: usize, j: usize) -> Option<&mut Line> {
    p.lines.iter_mut().filter(|l| l.num("t") == t as i64 && (l.head == "step" || l.head == "edit")).nth(j)
}

fn threads(p: &Plan) -> usize {
    p.opt("cfg", "threads", 2).clamp(1, 20) as usize
}

/// Each thread's work, alone in its own process.
fn alone(p: &Plan, cx: &mut Cx) -> Option<(Plan, Vec<Res>)> {
    let mut p = p.clone();
    let mut rs = vec![];
    for t in 0..threads(&p) {
        let (q, r) = settle(&p, cx, &rt::Cfg::default(), &|p, w| {
            rt::adopt(0);
            work(p, t, &mut |_| Arm { limit: 400_000, ..Arm::default() }, &mut |k, u, v| note(w, k, u, v));
        })?;
        p = q;
        rs.push(r);
    }
    Some((p, rs))
}

/// The work of thread t. `arm` gives the faults of step j.
fn work(p: &Plan, t: usize, arm: &mut dyn FnMut(usize) -> Arm, rec: &mut dyn FnMut(usize, &rt::Used, &str)) {
    let ts: Vec<T> = p.all("val").filter(|l| l.num("t") == t as i64).filter_map(line_tree).collect();
    let mut pool = Pool::new(&ts);
    let mut j = 0;
    for (i, l) in p.lines.iter().enumerate() {
        if l.num("t") != t as i64 {
            continue;
        }
        let Some(s) = Step::parse(l) else { continue };
        rt::mark(i as u32 + 1);
        let (d, u) = pool.run(&s, arm(j));
        if let Did::Cut(_) = d {
            return; // killed here
        }
        rec(j, &u, &d.text());
        j += 1;
    }
    pool.clear();
    rt::mark(0);
}

struct Shared {
    plan: *const Plan,
    want: *const Vec<Vec<(u64, String)>>,
    out: [Vec<String>; rt::NTH],
}
static mut SH: Shared = Shared { plan: std::ptr::null(), want: std::ptr::null(), out: [const { vec![] }; rt::NTH] };

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, rs) = alone(p, cx)?;
    // the same work under several schedules
    let mut vs: Vec<i64> = p.all("switch").map(|l| l.num("v")).collect();
    vs.dedup();
    vs.push(-1);
    vs.truncate(vs.len().max(2) - 1);
    vs.iter().find_map(|v| together(&p, &rs, *v, cx))
}

fn together(p: &Plan, rs: &[Res], v: i64, cx: &mut Cx) -> Option<V> {
    let sw: Vec<(u32, u8)> = p
        .all("switch")
        .filter(|l| l.num("v") == v)
        .map(|l| (l.num("g").clamp(1, 1 << 30) as u32, l.num("to") as u8))
        .collect();
    let n = threads(p);
    let want: Vec<Vec<(u64, String)>> = rs
        .iter()
        .map(|r| {
            r.obs
                .iter()
                .filter_map(|(_, v)| {
                    let (a, b) = v.split_once('|')?;
                    Some((a.split(' ').next()?.parse().ok()?, b.to_string()))
                })
                .collect()
        })
        .collect();
    let cfg = rt::Cfg {
        policy: (p.opt("cfg", "policy", 0).rem_euclid(5)) as u8,
        hash_seed: p.opt("cfg", "hash", 1) as u64,
        ..rt::Cfg::default()
    };
    let res = cx.sim(&cfg, |w| {
        unsafe {
            SH.plan = p;
            SH.want = &want;
        }
        let jobs: Vec<rt::Job> = (0..n)
            .map(|t| {
                Box::new(move || {
                    let (p, want) = unsafe { (&*SH.plan, &(&*SH.want)[t]) };
                    let steps: Vec<Step> =
                        p.lines.iter().filter(|l| l.num("t") == t as i64).filter_map(Step::parse).collect();
                    work(
                        p,
                        t,
                        &mut |j| {
                            let pts = want.get(j).map(|x| x.0).unwrap_or(0);
                            Arm { limit: pts * 16 + 300_000, alloc_limit: 1_000_000, ..steps[j].arm() }
                        },
                        &mut |_, _, v| unsafe { SH.out[t].push(v.to_string()) },
                    );
                }) as rt::Job
            })
            .collect();
        let st = rt::run_threads(jobs, &sw);
        let out = unsafe { &SH.out };
        for t in 0..n {
            for (j, got) in out[t].iter().enumerate() {
                w.obs("cmp", &format!("{t} {j}"));
                let wanted = want[t].get(j).map(|x| x.1.as_str()).unwrap_or("nothing");
                if got != wanted {
                    return w.viol(
                        "another thread changes the result",
                        &format!("thread {t}, step {j}\nalone:    {wanted}\ntogether: {got}"),
                    );
                }
            }
            let fair = |l: &&Line| l.num("fail") > 0 || l.num("cb") > 0;
            if st[t] == St::Done {
                let killed = p.lines.iter().filter(|l| l.num("t") == t as i64).any(|l| fair(&l));
                if out[t].len() < want[t].len() && !killed {
                    return w.viol("another thread changes the result", &format!("thread {t} stops after step {}", out[t].len()));
                }
            }
            if st[t] == St::Blocked {
                return w.viol(
                    "waits for another thread",
                    &format!("thread {t} waits for good inside step {} for a thread that is stopped, dead or waiting too", out[t].len()),
                );
            }
        }
        w.count("?threads_stalled", st.iter().filter(|s| **s == St::Stalled).count() as u64);
    });
    for (k, v) in &res.obs {
        if k == "cmp" {
            let (t, j) = v.split_once(' ').unwrap();
            let x = &want[t.parse::<usize>().unwrap()][j.parse::<usize>().unwrap()];
            cx.eval(hash(&format!("{} {}", x.1, res.trace)), res.k.get("thread_switch").copied().unwrap_or(0) > 1)
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        return viol(c, format!("{m}, though every thread alone ends, near line {}", res.step));
    }
    None
}
