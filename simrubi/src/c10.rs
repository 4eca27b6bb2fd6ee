//! C10: loading the integration rules reports the same rules every time.

use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm, Inj};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::world::{self, End, W};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        gen,
        exec,
        quick: 2500,
        thorough: 60000,
        level: "exploration",
        rule: "A run is a simulated process with seeded hash keys, heap addresses, clock and environment that loads the integration rules several times: whole, cut short by an allocation failure, on other threads, and on several threads at once under a seeded schedule. One evaluation is one load that was not cut short, whose report (the text on the standard output) is compared with that of the only load of a fresh process; it is distinct by hash keys, what happened before and the interleaving.",
        real: &["calcurs_macros: the integration_rules macro with its lexer and parser, as ordinary code", "the integration rule table"],
        stub: &["the compiler that expands the macro", "memory allocator", "thread scheduler", "clock", "random source", "environment", "standard output (a file in memory)"],
        assumptions: &["the expansion is empty, as its type says; what a load reports is what it prints"],
    }
}

fn gen(r: &mut Rng, _cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C10", r.u() >> 1);
    let full = r.chance(1, 150);
    p.push(
        Line::new("env")
            .w("full", full as u8)
            .w("hash", r.u() >> 1)
            .w("pad", r.u() >> 1)
            .w("off", r.below(1 << 26))
            .w("policy", if full { 0 } else { r.below(5) })
            .w("clock", r.u() >> 2)
            .w("mode", r.below(8)),
    );
    for _ in 0..1 + r.below(if full { 1 } else { 4 }) {
        match r.below(if full { 5 } else { 6 }) {
            0 | 1 => p.push(Line::new("load")),
            2 => p.push(Line::new("load").w("th", 1)),
            3 | 4 => {
                // early and late in the load, and right at its end
                let hot = &reference(full).3;
                let k = match r.below(4) {
                    _ if !hot.is_empty() && r.chance(1, 2) => r.pick(hot).1 as i64 + r.range(-1, 1).max(0),
                    0 => r.below(400) as i64,
                    1 => r.below(20_000) as i64,
                    2 => r.below(50_000) as i64,
                    _ => -1 - r.below(300) as i64,
                };
                p.push(Line::new("load").w("th", r.below(2)).w("fail", if k >= 0 { k + 1 } else { k }))
            }
            _ => {
                let n = 2 + r.below(2);
                let m = 1 + r.below(120);
                let scale = *r.pick(&[20usize, 2_000, 20_000, 200_000]);
                let mut sw: Vec<i64> = (0..m * 2).map(|i| if i % 2 == 0 { 1 + r.below(scale) as i64 } else { r.below(4) as i64 }).collect();
                if r.chance(1, 2) {
                    // all of them get to the last steps, one after the other
                    let points = reference(full).2 as usize;
                    let near = *r.pick(&[100usize, 1000, 10_000, 50_000]);
                    let first: Vec<i64> = (0..n).flat_map(|t| [points.saturating_sub(r.below(near)).max(1) as i64, t as i64]).collect();
                    sw.splice(0..0, first);
                }
                let hot = &reference(full).3;
                if !hot.is_empty() && r.chance(1, 2) {
                    let h = vec![hot.iter().map(|h| h.0).collect(); n];
                    sw = crate::run::hot_switches(r, &h).iter().flat_map(|s| [s.0 as i64, s.1 as i64]).collect()
                }
                let mut f = vec![0; n];
                if !hot.is_empty() && r.chance(1, 3) {
                    f[0] = r.pick(hot).1 as i64 + 1
                } else if r.chance(1, 3) {
                    f[0] = 1 + r.below(40_000) as i64
                }
                p.push(Line::new("conc").w("t", n).l("sw", &sw).l("fail", &f))
            }
        }
    }
    p.push(Line::new("load"));
    p
}

/// The standard output of the simulated process.
struct Out(std::fs::File, u64);
impl Out {
    fn new() -> Out {
        unsafe {
            let fd = libc::memfd_create(c"out".as_ptr(), 0);
            assert!(fd >= 0, "memory file");
            libc::dup2(fd, 1);
            Out(std::fs::File::from_raw_fd(fd), 0)
        }
    }
    fn take(&mut self) -> String {
        let mut v = vec![];
        self.0.seek(SeekFrom::Start(self.1)).unwrap();
        self.0.read_to_end(&mut v).unwrap();
        self.1 += v.len() as u64;
        String::from_utf8_lossy(&v).into_owned()
    }
}

const LIMIT: u64 = 20_000_000_000;
static mut FULL: bool = false;
fn load(fail: u64) -> (Result<(), Option<Inj>>, rt::Used) {
    let f = if unsafe { FULL } { rubi_ops::load } else { rubi_short::load };
    rt::op(Arm { fail, limit: LIMIT, alloc_limit: 400_000_000, ..Arm::default() }, f)
}
fn load_th(fail: u64) -> (Result<(), Option<Inj>>, rt::Used) {
    static mut R: Option<(Result<(), Option<Inj>>, rt::Used)> = None;
    rt::run_threads(vec![Box::new(move || unsafe { R = Some(load(fail)) })], &[]);
    rt::adopt(0);
    unsafe { R.take() }.expect("the load ends")
}

/// What the only load of a process reports, its allocations and steps.
type Load = (String, u64, u64, Vec<rt::Hot>);
fn reference(full: bool) -> &'static Load {
    static ONCE: [std::sync::OnceLock<Load>; 2] = [const { std::sync::OnceLock::new() }; 2];
    ONCE[full as usize].get_or_init(|| {
        let r = world::world(&rt::Cfg { probe: true, ..rt::Cfg::default() }, unsafe { crate::run::CPU_S }, |w| {
            let mut out = Out::new();
            rt::adopt(0);
            unsafe { FULL = full }
            let (r, u) = load(0);
            w.obs("end", if r.is_ok() { "ok" } else { "panics" });
            w.obs("text", &out.take());
            w.obs("allocs", &u.allocs.to_string());
            w.obs("points", &u.points.to_string());
            for h in rt::hots() {
                w.obs("hot", &format!("{} {}", h.0, h.1))
            }
        });
        let g = |k: &str| r.get(k).unwrap_or("").to_string();
        if r.end != End::Ok {
            return ("".into(), 0, 0, vec![]);
        }
        let t = if g("end") == "ok" { g("text") } else { "PANICS".into() };
        // places where state changes that outlives a load
        let hot = |v: &str| {
            let (a, b) = v.split_once(' ')?;
            Some((a.parse().ok()?, b.parse().ok()?, 0, 1))
        };
        let h = r.obs.iter().filter(|o| o.0 == "hot").filter_map(|o| hot(&o.1)).collect();
        (t, g("allocs").parse().unwrap_or(0), g("points").parse().unwrap_or(0), h)
    })
}

fn first_difference(a: &str, b: &str) -> String {
    let at = a.lines().zip(b.lines()).position(|(x, y)| x != y);
    let cut = |s: Option<&str>| s.map(|s| s.chars().take(200).collect::<String>()).unwrap_or("(nothing)".into());
    let i = at.unwrap_or(a.lines().count().min(b.lines().count()));
    format!("line {}: {}\n         instead of {}", i + 1, cut(b.lines().nth(i)), cut(a.lines().nth(i)))
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let full = p.opt("env", "full", 0) != 0;
    let (want, allocs, ..) = reference(full);
    if *allocs == 0 {
        // does not even end when left alone; nothing to compare with
        return None;
    }
    let e = p.one("env");
    let n = |k: &str| e.map(|l| l.num(k)).unwrap_or(1) as u64;
    let cfg = rt::Cfg {
        hash_seed: n("hash"),
        pad_seed: n("pad"),
        arena_off: n("off"),
        policy: (n("policy") % 5) as u8,
        clock0: n("clock"),
        env_mode: (n("mode") % 8) as u8,
        ..rt::Cfg::default()
    };
    let res = cx.sim(&cfg, |w| sim(p, want, *allocs, w));
    for (k, v) in &res.obs {
        if k == "eval" {
            cx.eval(hash(&format!("{v} {}", p.text())), true);
            cx.count(&format!("?{}", v.split('#').next().unwrap_or("")), 1)
        }
    }
    cx.count(if full { "?runs with the whole table" } else { "?runs with the short table" }, 1);
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, at: {l}"));
    }
    None
}

/// Whether the text is `n` reports, at least `whole` of them complete, the
/// others cut short anywhere, whose lines may be mixed but are each in order.
fn shuffled(want: &str, got: &str, n: usize, whole: usize) -> bool {
    let want: Vec<&str> = want.lines().collect();
    let mut at: std::collections::BTreeSet<Vec<usize>> = [vec![0; n]].into();
    for l in got.lines() {
        let mut next = std::collections::BTreeSet::new();
        for s in &at {
            for k in 0..n {
                let Some(x) = want.get(s[k]) else { continue };
                // the beginning may be what one that was cut short left there
                if l == *x || (whole < n && l.ends_with(x)) {
                    let mut s = s.clone();
                    s[k] += 1;
                    s.sort();
                    next.insert(s);
                }
            }
            if whole < n && l.is_empty() {
                next.insert(s.clone());
            }
        }
        if next.len() > 20_000 {
            return true;
        }
        at = next
    }
    at.iter().any(|s| s.iter().filter(|k| **k == want.len()).count() >= whole)
}

fn sim(p: &Plan, want: &str, allocs: u64, w: &mut W) {
    let mut out = Out::new();
    rt::adopt(0);
    unsafe { FULL = p.opt("env", "full", 0) != 0 }
    let mut before = "first".to_string();
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        let at = |f: i64| match f {
            0 => 0,
            f if f > 0 => f as u64,
            f => allocs.saturating_add_signed(f).max(1),
        };
        match l.head.as_str() {
            "load" => {
                let f = at(l.num("fail"));
                let (r, _) = if l.num("th") != 0 { load_th(f) } else { load(f) };
                let got = out.take();
                match r {
                    Err(Some(_)) => {
                        // what it had begun to print ends here
                        let _ = std::io::stdout().write_all(b"\n").and_then(|_| std::io::stdout().flush());
                        out.take();
                        before = "after a load that was cut short".into();
                        continue;
                    }
                    r => {
                        let got = if r.is_ok() { got } else { "PANICS".into() };
                        let how = if l.num("th") != 0 { "on its own thread" } else { "on the main thread" };
                        w.obs("eval", &format!("{how}, {before}#{i}"));
                        if got != want {
                            return w.viol("reports other rules", &format!("load at line {i} ({how}, {before}): {}", first_difference(want, &got)));
                        }
                        before = "after others".into();
                    }
                }
            }
            "conc" => {
                let n = l.num("t").clamp(1, 4) as usize;
                let fs = l.nums("fail");
                let sw = l.nums("sw");
                let sw: Vec<(u32, u8)> = sw.chunks(2).map(|c| (c[0].max(1) as u32, c.get(1).copied().unwrap_or(0).unsigned_abs() as u8)).collect();
                static mut R: [Option<Result<(), Option<Inj>>>; 4] = [None; 4];
                let jobs: Vec<rt::Job> = (0..n)
                    .map(|t| {
                        let f = at(fs.get(t).copied().unwrap_or(0));
                        Box::new(move || unsafe { R[t] = Some(load(f).0) }) as rt::Job
                    })
                    .collect();
                let st = rt::run_threads(jobs, &sw);
                rt::adopt(0);
                let _ = std::io::stdout().flush();
                let got = out.take();
                if st.iter().any(|s| *s != rt::St::Done) {
                    return w.viol("deadlock", &format!("loads at line {i} wait for each other"));
                }
                let rs: Vec<_> = (0..n).map(|t| unsafe { R[t].take() }).collect();
                if rs.iter().any(|r| matches!(r, Some(Err(None)))) && want != "PANICS" {
                    return w.viol("reports other rules", &format!("a load at line {i}, at the same time as others, panics"));
                }
                let cut = rs.iter().any(|r| matches!(r, Some(Err(Some(_)))));
                let whole = rs.iter().filter(|r| matches!(r, Some(Ok(())))).count();
                if whole > 0 && want != "PANICS" {
                    w.obs("eval", &format!("{}#{i}", if cut { "at the same time as one that is cut short" } else { "at the same time as others" }));
                    if !shuffled(want, &got, n, whole) {
                        let all = want.repeat(whole);
                        return w.viol("reports other rules", &format!("{whole} loads at the same time, line {i}: {}", first_difference(&all, &got)));
                    }
                }
                before = if cut { "after a load that was cut short".into() } else { "after others".into() };
            }
            _ => (),
        }
        w.flush();
    }
    rt::mark(0);
}
