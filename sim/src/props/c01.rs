//! C01: a failing writer gets a true prefix and its failure is reported.

use super::settle;
use crate::disk::{Sink, KINDS};
use crate::gen::{odd_name, G};
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{line_tree, vals};
use crate::world::W;
use calcu_ops::show::{Show, SPECS, WHATS};
use calcu_ops::tree::{self, T};
use calcu_rs::Expr;
use std::fmt;
use std::io;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        gen,
        exec,
        quick: 100000,
        thorough: 700000,
        level: "fault_enumeration",
        rule: "A run renders several expressions, parts of expressions and numbers, in every public style and format flag, into simulated sinks: fmt sinks failing at the k-th call or byte, and I/O sinks that accept short pieces, interrupt, report zero progress or fail with various errors at the k-th byte, for a series of k that covers the text, mixed with healthy sinks. One evaluation is one rendering; it is non-trivial if a fault was injected into it, and distinct by text, sink and position.",
        real: &["calcu-rs rendering code and its derived implementations", "the Rust standard library's formatting machinery and io::Write::write_fmt"],
        stub: &["the writer (fmt::Write and io::Write)", "memory allocator"],
        assumptions: &[],
    }
}

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C01", r.u() >> 1);
    let mut g = G::new(r);
    g.big_nums = r.chance(1, 4);
    g.undef = r.chance(1, 4);
    let size = *r.pick(&[3, 6, 10, 16, 30]);
    let k = 1 + r.below(3);
    for mut t in vals(r, &g, k, size) {
        if r.chance(1, 6) {
            let s = odd_name(r);
            t.rename(&|_| s.clone())
        }
        p.push(Line::new("val").t(t.text()))
    }
    for _ in 0..2 + r.below(8) {
        let l = Line::new("show")
            .w("v", r.below(k))
            .w("what", r.below(WHATS))
            .w("spec", if r.chance(1, 2) { 0 } else { r.below(SPECS) });
        p.push(l)
    }
    let Some((mut p, res)) = settle(&p, cx, &rt::Cfg::default(), &control) else { return Plan::new("C01", 0) };
    for i in 0..p.lines.len() {
        let Some(t) = res.get(&i.to_string()).and_then(|t| t.strip_prefix('+')) else { continue };
        let n = t.len().max(1) as u64;
        let l = &mut p.lines[i];
        let io = r.chance(2, 5);
        l.set("io", io as i64);
        if io {
            if r.chance(2, 3) {
                l.set("chunk", 1 + r.below(7));
            }
            if r.chance(1, 2) {
                l.set("intr", 1 + r.below(5));
            }
            l.set("err", r.below(7));
        }
        if r.chance(3, 4) {
            let tries = (*r.pick(&[1, 4, 16, 60])).min(n + 2);
            let by = (n / tries).max(1);
            l.set(if !io && r.chance(1, 2) { "call" } else { "byte" }, 1 + r.below(by as usize));
            l.set("by", by);
            l.set("times", tries);
        }
    }
    p
}

fn values(p: &Plan) -> Vec<Expr> {
    let ts: Vec<T> = p.all("val").filter_map(line_tree).collect();
    let mut v: Vec<Expr> = rt::lib(|| ts.iter().map(tree::build).collect());
    if v.is_empty() {
        v.push(rt::lib(|| Expr::var("x")))
    }
    v
}
fn show<'a>(l: &Line, v: &'a [Expr]) -> Show<'a> {
    let u = |k: &str| l.num(k).unsigned_abs() as usize;
    Show { e: &v[u("v") % v.len()], what: u("what"), spec: u("spec") }
}

/// The text a healthy writer gets, in a process where no writer ever failed.
fn control(p: &Plan, w: &mut W) {
    rt::adopt(0);
    let v = values(p);
    for (i, l) in p.lines.iter().enumerate() {
        if l.head != "show" {
            continue;
        }
        rt::mark(i as u32 + 1);
        let s = show(l, &v);
        let (r, u) = rt::op(Arm { limit: 1_000_000, ..Arm::default() }, || {
            let mut t = String::new();
            fmt::write(&mut t, format_args!("{s}")).map(|_| t)
        });
        let t = match r {
            Ok(Ok(t)) => format!("+{t}"),
            Ok(Err(_)) => "!error".into(),
            Err(_) => "!panic".into(),
        };
        w.obs(&i.to_string(), &t);
        w.obs(&format!("u{i}"), &u.points.to_string());
        w.flush();
    }
    rt::mark(0);
}

fn cut(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s.into_owned()
    }
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, ctl) = settle(p, cx, &rt::Cfg::default(), &control)?;
    let res = cx.sim(&rt::Cfg::default(), |w| {
        rt::adopt(0);
        let v = values(&p);
        for (i, l) in p.lines.iter().enumerate() {
            if l.head != "show" {
                continue;
            }
            rt::mark(i as u32 + 1);
            let key = i.to_string();
            let Some(want) = ctl.get(&key) else { continue };
            let pts: u64 = ctl.get(&format!("u{i}")).and_then(|s| s.parse().ok()).unwrap_or(0);
            let Some(want) = want.strip_prefix('+') else {
                if want == "!error" {
                    w.viol("failure without cause", &format!("rendering into a String fails, at: {}", l.text()));
                    return;
                }
                continue;
            };
            let n = |k: &str| l.num(k).max(0) as u64;
            let times = if n("byte") + n("call") > 0 { n("times").clamp(1, 200) } else { 0 };
            for j in 0..=times {
                let mut s = Sink { chunk: n("chunk") as usize, intr: n("intr"), err: n("err") as usize, ..Sink::default() };
                if j < times {
                    let at = j * n("by").max(1);
                    if n("byte") > 0 {
                        s.fail_byte = n("byte") + at
                    } else {
                        s.fail_call = n("call") + at
                    }
                }
                let what = show(l, &v);
                let io = n("io") != 0;
                let a = Arm { limit: pts * 16 + 300_000 + want.len() as u64 * 64, ..Arm::default() };
                let (r, _) = rt::op(a, || {
                    if io {
                        io::Write::write_fmt(&mut s, format_args!("{what}")).map_err(|e| Some(e.kind()))
                    } else {
                        fmt::Write::write_fmt(&mut s, format_args!("{what}")).map_err(|_| None)
                    }
                });
                w.obs("eval", &format!("{want}{io}{}{}{} {}", s.fail_byte, s.fail_call, s.err, (s.faults > 0) as u8));
                if s.failed {
                    w.count("sink_failed", 1)
                }
                if s.faults > s.failed as u64 {
                    w.count("short_write_or_interrupt", s.faults - s.failed as u64)
                }
                let mut handed = s.got.clone();
                handed.extend_from_slice(&s.rest);
                let mut bad = |class: &str, m: String| {
                    w.viol(class, &format!("{m}\nhealthy: {}\nhanded:  {}\nat: {}", cut(want.as_bytes()), cut(&handed), l.text()))
                };
                match r {
                    Err(_) => return bad("rendering panics", "a rendering panics".into()),
                    Ok(Ok(())) if s.failed => return bad("failure swallowed", "the writer failed but success is reported".into()),
                    Ok(Err(_)) if !s.failed => return bad("failure without cause", "failure is reported but the writer never failed".into()),
                    Ok(Err(Some(k))) => {
                        let exp = if s.err >= 6 { io::ErrorKind::WriteZero } else { KINDS[s.err] };
                        if k != exp {
                            return bad("failure swallowed", format!("the writer failed with {exp:?}, reported is {k:?}"));
                        }
                    }
                    _ => (),
                }
                if s.after > 0 {
                    return bad("written after it failed", format!("the writer is called {} times after it failed", s.after));
                }
                if !s.failed && s.got != want.as_bytes() {
                    return bad("a healthy writer gets a different text", "the whole text differs".into());
                }
                if !want.as_bytes().starts_with(&handed) {
                    return bad("not a prefix", "what was handed over is not the beginning of the text".into());
                }
            }
        }
        rt::mark(0)
    });
    for (k, v) in &res.obs {
        if k == "eval" {
            cx.eval(hash(v), v.ends_with('1'))
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        return viol(c, format!("{m}, rendering into a failing writer, at line {}", res.step));
    }
    None
}
