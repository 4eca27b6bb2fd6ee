use crate::plan::Plan;
use crate::rng::Rng;
use crate::run::{Cx, Prop};
use crate::rt;
use crate::world::{End, Res, W};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;

pub fn all() -> Vec<Prop> {
    calcu_ops::set_tick(rt::tick);
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop()]
}

/// Runs the undisturbed world; a line at which it dies by itself (steps or
/// memory without bound, stack overflow: nothing to do with faults) is dropped
/// from the plan, and the rest is tried again.
pub fn settle(plan: &Plan, cx: &mut Cx, cfg: &rt::Cfg, body: &dyn Fn(&Plan, &mut W)) -> Option<(Plan, Res)> {
    let mut p = plan.clone();
    calcu_ops::tree::set_style(p.seed);
    let cfg = &rt::Cfg { probe: true, ..cfg.clone() };
    for _ in 0..8 {
        let r = cx.control(cfg, |w| body(&p, w));
        match r.end {
            End::Ok => return Some((p, r)),
            _ => {
                cx.count("?control_line_dropped", 1);
                let i = r.step as usize;
                if i == 0 || i > p.lines.len() {
                    return None;
                }
                p.lines.remove(i - 1);
            }
        }
    }
    None
}

/// Records what an operation used, what it did, and where it changed state
/// that outlives it.
pub fn note(w: &mut W, i: usize, u: &rt::Used, did: &str) {
    w.obs(&i.to_string(), &format!("{} {} {}|{did}", u.points, u.allocs, u.ticks));
    let h = rt::hots();
    if !h.is_empty() {
        let t: Vec<String> = h.iter().map(|h| format!("{} {} {} {}", h.0 + u.start, h.1, h.2, h.3)).collect();
        w.obs(&format!("hot{i}"), &t.join(","))
    }
    w.flush()
}

/// Where line i changed such state: steps of the thread, allocations and
/// callbacks of the operation before it.
pub fn hots(r: &Res, i: usize) -> Vec<rt::Hot> {
    let t = r.get(&format!("hot{i}")).unwrap_or("");
    t.split(',')
        .filter_map(|h| {
            let mut it = h.split(' ').map(|x| x.parse::<u64>().ok());
            Some((it.next()??, it.next()??, it.next()??, it.next()??))
        })
        .collect()
}

/// points, allocations and callbacks of line i, and what it did
pub fn used(r: &Res, i: usize) -> Option<(u64, u64, u64, &str)> {
    let (a, t) = r.get(&i.to_string())?.split_once('|')?;
    let mut it = a.split(' ').map(|x| x.parse::<u64>().unwrap());
    Some((it.next()?, it.next()?, it.next()?, t))
}

/// Puts one interruption into some of the lines, where they really allocate or
/// call back.
pub fn fault_lines(p: &mut Plan, res: &Res, r: &mut Rng, num: u32, den: u32) {
    for i in 0..p.lines.len() {
        let Some(u) = used(res, i) else { continue };
        if !r.chance(num, den) {
            continue;
        }
        let (allocs, ticks) = (u.1, u.2);
        let cb = ticks > 0 && (allocs == 0 || r.chance(2, 5));
        let m = if cb { ticks } else { allocs };
        if m == 0 {
            continue;
        }
        let h = hots(res, i);
        if !h.is_empty() && r.chance(1, 2) {
            // just after state changed
            let h = r.pick(&h);
            let k = if cb { h.2 } else { h.1 } + 1;
            p.lines[i].set(if cb { "cb" } else { "fail" }, k.min(m));
            p.lines[i].set("by", r.below(2));
            continue;
        }
        let by = (m / 8).max(1);
        let k = 1 + r.below(m.saturating_sub(by * 3).max(1) as usize);
        p.lines[i].set(if cb { "cb" } else { "fail" }, k);
        p.lines[i].set("by", by);
    }
}
