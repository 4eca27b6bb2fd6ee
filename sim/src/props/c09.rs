//! C09: operations work at every moment of a thread's life.

use super::settle;
use crate::gen::G;
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm, Inj};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{Did, Mix};
use crate::world::{Res, W};
use calcu_ops::cat::{self, Cx as OpCx};
use calcu_ops::store::{self, Part};
use calcu_ops::tree::{self, T};
use calcu_rs::Expr;
use std::cell::Cell;
use std::fmt::Write as _;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        gen,
        exec,
        quick: 130000,
        thorough: 2000000,
        level: "exploration",
        rule: "A run places operations at moments: first thing on a thread, inside the k-th writer, hasher, logger, callback, conversion, borrow or iterator call of another operation, inside a stream that an expression is saved to or loaded from, in a destructor outside or inside an operation that a panic unwinds, in the panic hook and the allocation failure hook, in thread-local destructors registered before and after the thread first used the library, in thread-local destructors registered by such destructors, in the C library's thread-key destructors, and in exit handlers of the process. One evaluation is one operation at one moment, compared with the same operation in ordinary code of a fresh process; it is distinct by operation, arguments and moment.",
        real: &["calcu-rs, all of it, with its dependencies", "the Rust runtime's and C library's thread and process teardown"],
        stub: &["memory allocator", "thread scheduler", "random source", "caller's writers, hashers, logger, callbacks and streams"],
        assumptions: &["an operation that panics by itself in ordinary code is not placed at other moments"],
    }
}

const INNER: [&str; 7] = ["cb", "io", "log", "unwind_out", "unwind_in", "hook", "allochook"];

fn gen(r: &mut Rng, _cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C09", r.u() >> 1);
    let mut g = G::new(r);
    g.undef = r.chance(1, 6);
    g.big_nums = r.chance(1, 10);
    let size = *r.pick(&[2, 4, 8, 12]);
    let mix = Mix::new(r);
    let cb = Mix::new(r).tags(|o| o.tags & cat::CB != 0);
    let nc = 2 + r.below(6);
    for i in 0..nc {
        let o = if i % 3 == 1 { cb.op(r) } else { mix.op(r) };
        let args: Vec<T> = (0..o.ar)
            .map(|_| {
                let s = 1 + r.below(size);
                g.subject(r, s)
            })
            .collect();
        let n = [r.range(-4, 9), r.range(0, 9), r.range(0, 9)];
        p.push(Line::new("call").w("op", o.name).l("n", &n).t(T::S(args).text()))
    }
    let some = |r: &mut Rng, k: usize| -> Vec<i64> { (0..1 + r.below(k)).map(|_| r.below(nc) as i64).collect() };
    for _ in 0..1 + r.below(4) {
        if r.chance(1, 2) {
            let m = *r.pick(&INNER);
            let k = if r.chance(1, 2) { 1 + r.below(4) } else { 1 + r.below(40) };
            let o = if r.chance(1, 2) { 1 } else { r.below(nc) } as i64;
            let mut c = some(r, 2);
            if r.chance(1, 3) {
                // the same operation inside itself
                c[0] = o
            }
            let mut l = Line::new("at").w("t", m).w("o", o).w("k", k).l("c", &c).w("th", r.chance(1, 3) as u8);
            if r.chance(1, 2) {
                // at that part of the way through the outer operation
                l.set("part", 1 + r.below(1000))
            }
            if r.chance(1, 3) {
                l.set("hot", 1 + r.below(64))
            }
            p.push(l)
        } else {
            // 0..5: register a destructor, 6: register a thread key, 7: use the
            // library, 8: nothing
            let o: Vec<i64> = (0..1 + r.below(6)).map(|_| r.below(9) as i64).collect();
            p.push(Line::new("thread").l("order", &o).l("c", &some(r, 3)).w("nest", r.chance(1, 3) as u8).w("hold", r.below(3)))
        }
    }
    if r.chance(1, 3) {
        let o: Vec<i64> = (0..1 + r.below(6)).map(|_| r.below(11) as i64).collect();
        p.push(Line::new("exit").l("order", &o).l("c", &some(r, 3)).w("nest", r.chance(1, 3) as u8).w("hold", r.below(3)))
    }
    p
}

// ------------------------------------------------------------------- calls

#[derive(Clone)]
struct Call {
    i: usize,
    op: cat::Op,
    args: Vec<T>,
    n: [i64; 3],
    want: String,
    lim: u64,
    allocs: u64,
    ticks: u64,
    hots: Vec<rt::Hot>,
}
fn calls(p: &Plan) -> Vec<Call> {
    p.lines
        .iter()
        .enumerate()
        .filter(|(_, l)| l.head == "call")
        .filter_map(|(i, l)| {
            let op = cat::find(l.word("op"))?;
            let mut args = match line_args(l) {
                Some(T::S(a)) => a,
                _ => vec![],
            };
            args.resize(op.ar, T::V("x".into()));
            Some(Call { i, op, args, n: l.n3(), want: String::new(), lim: 1_500_000, allocs: 0, ticks: 0, hots: vec![] })
        })
        .collect()
}
fn line_args(l: &Line) -> Option<T> {
    T::parse(l.tree.as_deref()?)
}
fn did(r: Result<cat::Out, Option<Inj>>) -> Did {
    match r {
        Ok(out) => {
            let t = cat::describe(&out);
            rt::lib(|| drop(out));
            Did::Text(t)
        }
        Err(None) => Did::Panics,
        Err(Some(i)) => Did::Cut(i),
    }
}
fn run(c: &Call, a: Arm) -> (Did, rt::Used) {
    let (r, u) = rt::op(a, || {
        let args: Vec<Expr> = c.args.iter().map(tree::build).collect();
        let mut x = OpCx::new(args, c.n);
        (c.op.f)(&mut x);
        x.out
    });
    (did(r), u)
}

fn control(p: &Plan, w: &mut W) {
    rt::adopt(0);
    let _ = log::set_logger(&LOG);
    for c in calls(p) {
        rt::mark(c.i as u32 + 1);
        let (d, u) = run(&c, Arm { limit: c.lim, ..Arm::default() });
        super::note(w, c.i, &u, &d.text());
    }
    rt::mark(0);
}

// ------------------------------------------------- what happens at a moment

#[derive(Clone, Copy, Default)]
struct Job {
    moment: &'static str,
    calls: &'static [Call],
    line: usize,
    nest: bool,
}
/// What was observed, in the order it happened.
struct Seen {
    bad: Option<(String, String)>,
    evals: Vec<(String, &'static str)>,
}
static mut SEEN: Seen = Seen { bad: None, evals: vec![] };
fn seen() -> &'static mut Seen {
    unsafe { &mut SEEN }
}
fn judge(c: &Call, d: &Did, moment: &'static str) {
    let got = d.text();
    seen().evals.push((format!("{} {}", c.op.name, c.want), moment));
    if got != c.want && seen().bad.is_none() {
        let args: Vec<String> = c.args.iter().map(|t| t.text()).collect();
        seen().bad = Some((
            "differs at another moment of a thread's life".into(),
            format!("{moment}: {}({}) n={:?}\nordinarily: {}\nthere:      {got}", c.op.name, args.join(", "), c.n, c.want),
        ))
    }
}
impl Job {
    fn go(&self) {
        rt::har(|| {
            for c in self.calls {
                rt::mark(self.line as u32 + 1);
                let (d, _) = run(c, Arm { limit: c.lim, ..Arm::default() });
                judge(c, &d, self.moment);
            }
            if self.nest {
                // a destructor that registers another one
                let j = Job { moment: "thread-local destructor registered by a destructor", nest: false, ..*self };
                let _ = NEST.try_with(|s| *unsafe { &mut *s.0.get() } = Some(j));
            }
        })
    }
}

struct Guard(Job);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.go()
    }
}

struct Slot(std::cell::UnsafeCell<Option<Job>>, std::cell::UnsafeCell<Vec<Expr>>);
impl Slot {
    const fn new() -> Slot {
        Slot(std::cell::UnsafeCell::new(None), std::cell::UnsafeCell::new(vec![]))
    }
    fn set(&self, j: Job, hold: bool) {
        unsafe { *self.0.get() = Some(j) }
        if hold {
            // expressions that the thread-local storage itself owns
            unsafe {
                rt::lib(|| {
                    for c in j.calls.iter().take(1) {
                        (*self.1.get()).extend(c.args.iter().map(tree::build))
                    }
                    (*self.1.get()).push(Expr::one() + Expr::pi())
                })
            }
        }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        if let Some(j) = self.0.get_mut().take() {
            j.go()
        }
        let v = std::mem::take(self.1.get_mut());
        rt::lib(|| drop(v))
    }
}
thread_local! {
    static S0: Slot = Slot::new();
    static S1: Slot = const { Slot::new() };
    static S2: Slot = Slot::new();
    static S3: Slot = const { Slot::new() };
    static S4: Slot = Slot::new();
    static S5: Slot = const { Slot::new() };
    static NEST: Slot = const { Slot::new() };
}
static mut KEY: libc::pthread_key_t = 0;
static mut KEY_SET: bool = false;
thread_local! {
    static KEY_JOB: Cell<Job> = const { Cell::new(Job { moment: "", calls: &[], line: 0, nest: false }) };
}
extern "C" fn key_dtor(p: *mut libc::c_void) {
    let mut j = KEY_JOB.get();
    j.moment = "thread key destructor";
    j.nest = false;
    j.go();
    // once more, in the next round of destructors
    if p as usize > 1 {
        unsafe { libc::pthread_setspecific(KEY, (p as usize - 1) as *const _) };
    }
}
static mut EXIT_JOB: Job = Job { moment: "exit handler", calls: &[], line: 0, nest: false };
extern "C" fn on_exit() {
    unsafe { EXIT_JOB }.go()
}
static mut END: Option<*mut W> = None;
extern "C" fn at_end() {
    rt::set_mode(rt::HAR);
    unsafe {
        if let Some(w) = END {
            report(&mut *w);
            (*w).finish();
            libc::_exit(0)
        }
    }
}

/// Goes through the actions of a `thread` or `exit` line.
fn live(l: &Line, mut j: Job, at_exit: bool) {
    for a in l.nums("order") {
        let hold = l.num("hold").unsigned_abs() as i64 > 0;
        j.moment = "thread-local destructor";
        match a {
            0 => S0.with(|s| s.set(j, hold)),
            1 => S1.with(|s| s.set(j, hold)),
            2 => S2.with(|s| s.set(j, hold)),
            3 => S3.with(|s| s.set(j, hold)),
            4 => S4.with(|s| s.set(j, hold)),
            5 => S5.with(|s| s.set(j, hold)),
            6 => {
                KEY_JOB.set(j);
                unsafe {
                    if !KEY_SET {
                        KEY_SET = true;
                        libc::pthread_key_create(&raw mut KEY, Some(key_dtor));
                    }
                    libc::pthread_setspecific(KEY, 2 as *const _);
                }
            }
            7 => {
                j.moment = if at_exit { "ordinary code" } else { "on another thread" };
                let n = j.nest;
                j.nest = false;
                j.go();
                j.nest = n
            }
            9 | 10 if at_exit => unsafe {
                EXIT_JOB = Job { moment: "exit handler", nest: false, ..j };
                libc::atexit(on_exit);
            },
            _ => (),
        }
    }
}

// ------------------------------------------------------- inner moments

static mut HOOK: (u64, Job, bool) = (0, Job { moment: "", calls: &[], line: 0, nest: false }, false);
/// Counts the callbacks of the outer operation and acts in the k-th.
fn hook(_kind: u32, _n: u64) {
    unsafe {
        if HOOK.0 == 0 {
            return;
        }
        HOOK.0 -= 1;
        if HOOK.0 == 0 {
            let _g = if HOOK.2 { Some(Guard(HOOK.1)) } else { None };
            if HOOK.2 {
                if !std::thread::panicking() {
                    rt::sim().k[rt::K_CB_PANIC] += 1;
                    std::panic::panic_any(Inj::Callback)
                }
            } else {
                HOOK.1.go()
            }
        }
    }
}

struct Log;
static LOG: Log = Log;
static mut LOG_JOB: Option<Job> = None;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let j = rt::har(|| {
            let mut s = String::new();
            let _ = write!(s, "{}", r.args());
            unsafe { LOG_JOB.take() }
        });
        if let Some(j) = j {
            j.go()
        }
    }
    fn flush(&self) {}
}

struct Io<'a>(Vec<u8>, &'a [u8]);
impl std::io::Write for Io<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        rt::tick(calcu_ops::WRITER);
        let n = b.len().min(9);
        rt::har(|| self.0.extend_from_slice(&b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for Io<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        rt::tick(calcu_ops::WRITER);
        let n = b.len().min(self.1.len()).min(9);
        b[..n].copy_from_slice(&self.1[..n]);
        self.1 = &self.1[n..];
        Ok(n)
    }
}

static mut PANIC_JOB: Option<Job> = None;

/// One `at` line: an outer operation with something inside.
fn at(l: &Line, outer: &Call, mut j: Job) {
    let hot = l.num("hot").unsigned_abs() as usize;
    let k = match l.num("part") {
        // right after state changed
        _ if hot > 0 && !outer.hots.is_empty() => {
            let h = outer.hots[hot % outer.hots.len()];
            1 + if l.word("t") == "allochook" { h.1 } else { h.2 }
        }
        0 => l.num("k").max(1) as u64,
        p => 1 + p.unsigned_abs().min(1000) * (if l.word("t") == "allochook" { outer.allocs } else { outer.ticks }) / 1001,
    };
    j.nest = false;
    let big = Arm { limit: outer.lim, ..Arm::default() };
    unsafe { HOOK = (0, j, false) };
    match l.word("t") {
        "cb" => {
            j.moment = "inside a callback";
            unsafe { HOOK = (k, j, false) };
            let (d, _) = run(outer, big);
            unsafe { HOOK.0 = 0 };
            judge(outer, &d, "around operations in a callback");
        }
        "unwind_in" => {
            j.moment = "in a destructor while a panic unwinds inside an operation";
            unsafe { HOOK = (k, j, true) };
            let (d, _) = run(outer, big);
            unsafe { HOOK.0 = 0 };
            if matches!(d, Did::Text(_)) {
                judge(outer, &d, "around a callback that did not panic");
            }
        }
        "unwind_out" => {
            j.moment = "in a destructor while a panic unwinds";
            let a = Arm { cb: k, fail: if k % 2 == 0 { k } else { 0 }, ..big };
            let (r, _) = rt::op(a, || {
                let _g = Guard(j);
                let args: Vec<Expr> = outer.args.iter().map(tree::build).collect();
                let mut x = OpCx::new(args, outer.n);
                (outer.op.f)(&mut x);
                if k % 3 == 0 {
                    std::panic::panic_any(Inj::Callback)
                }
                x.out
            });
            let _ = did(r);
        }
        m @ ("hook" | "allochook") => {
            j.moment = if m == "hook" { "in the panic hook" } else { "in the allocation failure hook" };
            unsafe { PANIC_JOB = Some(j) };
            if m == "hook" {
                let old = std::panic::take_hook();
                std::panic::set_hook(Box::new(|_| unsafe {
                    let j = PANIC_JOB.take();
                    rt::har(|| {
                        if let Some(j) = j {
                            j.go()
                        }
                    })
                }));
                let (d, _) = run(outer, Arm { cb: k, fail: k * 3, ..big });
                std::panic::set_hook(old);
                drop(d)
            } else {
                std::alloc::set_alloc_error_hook(|_| unsafe {
                    if let Some(j) = PANIC_JOB.take() {
                        j.go()
                    }
                    std::panic::panic_any(Inj::Alloc)
                });
                let _ = run(outer, Arm { fail: k, ..big });
                std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(Inj::Alloc));
            }
            unsafe { PANIC_JOB = None };
        }
        "log" => {
            j.moment = "inside the logger";
            log::set_max_level(log::LevelFilter::Trace);
            unsafe { LOG_JOB = Some(j) };
            let (d, _) = run(outer, big);
            judge(outer, &d, "around operations in the logger");
            if unsafe { LOG_JOB.is_some() } {
                // this one did not log; one that does
                let e = rt::lib(|| outer.args.first().map(tree::build).unwrap_or_else(|| Expr::var("x")));
                let _ = rt::op(big, || {
                    let mut c = OpCx::new(vec![e], [k as i64, 0, 0]);
                    if let Some(o) = cat::find("leaf_reduce") {
                        (o.f)(&mut c)
                    }
                    drop(c)
                });
            }
            unsafe { LOG_JOB = None };
            log::set_max_level(log::LevelFilter::Off);
        }
        _ => {
            j.moment = "inside a stream";
            let t = outer.args.first().cloned().unwrap_or(T::Pi);
            unsafe { HOOK = (k, j, false) };
            let mut s = Io(vec![], b"");
            let (r, _) = rt::op(big, || store::save(&Part::Expr(tree::build(&t)), 0, 0, 1, &mut s).is_ok());
            let ok = r == Ok(true);
            unsafe { HOOK = (1 + k / 2, j, false) };
            let mut s2 = Io(vec![], &s.0);
            let (r, _) = rt::op(big, || store::load(0, 0, 0, 1, &mut s2).ok());
            let got = match r {
                Ok(Some(q)) => q.tree().text(),
                Ok(None) if t.depth() > 25 => t.text(),
                _ => "fails".into(),
            };
            unsafe { HOOK.0 = 0 };
            if (!ok || got != t.text()) && seen().bad.is_none() {
                seen().bad = Some((
                    "differs at another moment of a thread's life".into(),
                    format!("around operations in a stream: saved {}, loaded {got}", t.text()),
                ))
            }
        }
    }
}

fn report(w: &mut W) {
    for (k, m) in seen().evals.drain(..) {
        w.obs("eval", &format!("{m}|{k}"))
    }
    if let Some((c, m)) = seen().bad.take() {
        w.viol(&c, &m)
    }
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, ctl) = settle(p, cx, &rt::Cfg::default(), &control)?;
    let res = cx.sim(&rt::Cfg::default(), |w| sim(&p, &ctl, w));
    for (k, v) in &res.obs {
        if k == "eval" {
            cx.eval(hash(v), true);
            let m = v.split('|').next().unwrap_or("");
            cx.count(&format!("?{m}"), 1)
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, at: {l}"));
    }
    None
}

fn sim(p: &Plan, ctl: &Res, w: &mut W) {
    rt::adopt(0);
    let _ = log::set_logger(&LOG);
    let mut cs: Vec<Call> = calls(p);
    for c in cs.iter_mut() {
        if let Some((pts, allocs, ticks, t)) = super::used(ctl, c.i) {
            c.want = t.to_string();
            c.allocs = allocs;
            c.ticks = ticks;
            c.hots = super::hots(ctl, c.i);
            c.lim = pts * 16 + 300_000
        }
    }
    // panicking by themselves: not placed anywhere
    cs.retain(|c| !c.want.is_empty() && c.want != "PANICS");
    if cs.is_empty() {
        return;
    }
    unsafe { rt::TICK_HOOK = Some(hook) };
    for (i, l) in p.lines.iter().enumerate() {
        let inner: Vec<Call> = l.nums("c").iter().map(|x| cs[x.unsigned_abs() as usize % cs.len()].clone()).collect();
        let inner: &'static [Call] = Vec::leak(inner);
        let j = Job { moment: "", calls: inner, line: i, nest: l.num("nest") != 0 };
        rt::mark(i as u32 + 1);
        let l2 = l.clone();
        match l.head.as_str() {
            "at" => {
                let o = cs[l.num("o").unsigned_abs() as usize % cs.len()].clone();
                if l.num("th") != 0 {
                    rt::run_threads(vec![Box::new(move || at(&l2, &o, j))], &[]);
                } else {
                    at(l, &o, j)
                }
            }
            "thread" => {
                rt::run_threads(vec![Box::new(move || live(&l2, j, false))], &[]);
            }
            "exit" => {
                unsafe {
                    END = Some(w as *mut W);
                    libc::atexit(at_end);
                }
                rt::adopt(0);
                live(l, j, true);
                w.count("process_exit_with_handlers", 1);
                unsafe { libc::exit(0) }
            }
            _ => continue,
        }
        rt::adopt(0);
        report(w);
        w.flush();
    }
    rt::mark(0);
}
