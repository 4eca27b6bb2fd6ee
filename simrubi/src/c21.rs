//! C21: the macros expand the same input to the same code every time.

use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::world::{End, W};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        gen,
        exec,
        quick: 25000,
        thorough: 400000,
        level: "exploration",
        rule: "A run is a simulated compiler process with seeded hash keys, heap addresses, clock and environment that expands the expression macro and the arithmetic attribute on many inputs, valid and not: one after the other, again and again, cut short by allocation failures, on other threads, and on several threads at once under a seeded schedule. A rare process expands thousands of different inputs, each once, in two orders. One evaluation is one expansion that was not cut short, whose tokens (or error, or panic) are compared with those of the only expansion of a fresh process; it is distinct by input and by what happened before.",
        real: &["calcurs_macros: the expr and arith_ops macros, as ordinary code", "syn, quote and proc_macro2"],
        stub: &["the compiler that expands the macros (tokens come from and go to proc_macro2)", "memory allocator", "thread scheduler", "clock", "random source", "environment"],
        assumptions: &["spans are not part of an expansion's text"],
    }
}

// ------------------------------------------------------------------- inputs

fn ident(r: &mut Rng) -> String {
    const W: [&str; 20] = ["x", "y", "z", "a", "b", "pi", "oo", "undef", "e", "alpha", "x1", "Self", "r#type", "_", "very_long_identifier_for_a_quantity", "X", "β", "xy", "if", "i64"];
    if r.chance(2, 3) {
        W[r.below(5)].into()
    } else {
        if r.chance(1, 4) {
            return (0..2 + r.below(4)).map(|_| *r.pick(&['a', 'b', 'A', 'B', 'x', '1'])).collect::<String>().replacen('1', "i", 1);
        }
        r.pick(&W).to_string()
    }
}
fn num(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "1.5".into(),
        1 => "9223372036854775807".into(),
        2 => "9223372036854775808".into(),
        3 => "0x1f".into(),
        4 => "1_000".into(),
        5 => "3u8".into(),
        _ => r.below(30).to_string(),
    }
}
fn formula(r: &mut Rng, size: usize) -> String {
    if size <= 1 {
        return match r.below(10) {
            0..=5 => ident(r),
            6 => format!("?{}", ident(r)),
            _ => num(r),
        };
    }
    match r.below(14) {
        0..=7 => {
            let k = 1 + r.below(size - 1);
            let op = *r.pick(&["+", "-", "*", "/", "^", "+", "*"]);
            format!("{} {op} {}", formula(r, k), formula(r, size - k))
        }
        8..=9 => format!("({})", formula(r, size - 1)),
        10 => format!("-{}", formula(r, size - 1)),
        11 => {
            let f = *r.pick(&["sin", "cos", "exp", "ln", "sqrt", "log", "undef"]);
            format!("{f}({})", formula(r, size - 1))
        }
        12 => format!("f({}, {})", formula(r, size / 2), formula(r, size / 2)),
        _ => {
            // not a formula
            let bad = *r.pick(&["+", "$", "a b", "()", "\"s\"", "[x]", "{x}", "x ->", ";", "'a'", "x,", "#", "2x", "<- x"]);
            format!("{} {bad}", formula(r, size - 1))
        }
    }
}
fn item(r: &mut Rng) -> String {
    let name = *r.pick(&["A", "B", "Rational", "Int", "Wrapper"]);
    match r.below(8) {
        0..=2 => format!("pub struct {name}(i64);"),
        3 => format!("#[derive(Clone, Debug)] struct {name} {{ value: i128, }}"),
        4 => format!("#[repr(transparent)] #[doc = \"text\"] pub(crate) struct {name}<T: Copy>(pub T) where T: Ord;"),
        5 => format!("struct {name};"),
        6 => format!("enum {name} {{ X, Y }}"),
        _ => format!("struct {name} {{ x: "),
    }
}
fn attr(r: &mut Rng) -> String {
    r.pick(&["", "ref, self.0", "ref, self.0", "ref, self.value", "ref", "self.0", "ref, x + y", ")"]).to_string()
}
fn input(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        let n = 1 + r.below(*r.clone().pick(&[2, 6, 12, 30]));
        format!("expr: {}", formula(r, n))
    } else {
        format!("arith_ops: {} @ {}", attr(r), item(r))
    }
}
/// a word that is nearly the same
fn near(r: &mut Rng, x: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    if let Some(i) = x.find(word) {
        let j = x[i..].find(|c| !word(c)).map_or(x.len(), |j| i + j);
        if j - i < x.len() {
            return format!("{}{}{}", &x[..i], near(r, &x[i..j]), &x[j..]);
        }
    }
    let mut c: Vec<char> = x.chars().collect();
    if c.iter().all(|c| c.is_ascii_digit()) && !c.is_empty() {
        return match r.below(6) {
            0 => format!("{x}0"),
            1 => format!("{x}.0"),
            2 => format!("{x}_0"),
            3 => format!("{x}u8"),
            4 => format!("0{x}"),
            _ => (x.parse::<u64>().unwrap_or(0).wrapping_add(1)).to_string(),
        };
    }
    if !c.first().is_some_and(|c| c.is_alphabetic() || *c == '_') {
        return ident(r);
    }
    let i = r.below(c.len());
    match r.below(5) {
        0 | 1 => {
            c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }
        }
        2 => c.push(*r.pick(&['x', '1', '_'])),
        3 => c[i] = *r.pick(&['x', 'a', 'é', '_']),
        _ if c.len() > 1 => {
            c.pop();
        }
        _ => c.insert(0, '_'),
    }
    c.into_iter().collect()
}
/// the same with one word changed
fn variant(r: &mut Rng, s: &str) -> String {
    let mut w: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
    let i = 1 + r.below((w.len() - 1).max(1));
    if let Some(x) = w.get_mut(i) {
        *x = match r.below(7) {
            0 => ident(r),
            1 => num(r),
            2 => r.pick(&["+", "-", "*", "^"]).to_string(),
            3 => format!("{x} {x}"),
            _ => near(r, x),
        }
    }
    w.join(" ")
}

pub fn smaller(s: &str) -> Vec<String> {
    let mut out = vec![];
    if s.contains('¦') {
        let v: Vec<&str> = s.split('¦').collect();
        for i in 0..v.len() {
            let mut u = v.clone();
            u.remove(i);
            out.push(u.join("¦"))
        }
        return out;
    }
    let w: Vec<&str> = s.split(' ').collect();
    let mut k = w.len() / 2;
    while k > 0 {
        for i in 1..w.len() {
            let mut u = w.clone();
            u.drain(i..(i + k).min(w.len()));
            out.push(u.join(" "))
        }
        k /= 2
    }
    out
}

/// What an expansion in a fresh process yields, its steps, and where it changes
/// state that outlives it.
fn fresh(s: &str, cx: &mut Cx) -> Option<(String, u64, Vec<rt::Hot>)> {
    let r = cx.control(&rt::Cfg { probe: true, ..rt::Cfg::default() }, |w| {
        rt::adopt(0);
        let (d, u) = once(s, Arm { limit: 3_000_000, ..Arm::default() });
        if let Did::Text(t) = d {
            w.obs("text", &t);
            w.obs("points", &u.points.to_string());
            for h in rt::hots() {
                w.obs("hot", &format!("{} {}", h.0, h.1))
            }
        }
    });
    if r.end != End::Ok {
        return None;
    }
    let hot = |v: &str| {
        let (a, b) = v.split_once(' ')?;
        Some((a.parse().ok()?, b.parse().ok()?, 0, 1))
    };
    let h = r.obs.iter().filter(|o| o.0 == "hot").filter_map(|o| hot(&o.1)).collect();
    Some((r.get("text")?.into(), r.get("points")?.parse().ok()?, h))
}

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C21", r.u() >> 1);
    p.push(
        Line::new("env")
            .w("hash", r.u() >> 1)
            .w("pad", r.u() >> 1)
            .w("off", r.below(1 << 26))
            .w("policy", r.below(5))
            .w("clock", r.u() >> 2)
            .w("tick", *r.pick(&[0i64, 1000, 1_000_000_000, -1000, 1_000_000_000_000]))
            .w("mode", r.below(8)),
    );
    // a lot of different inputs, each expanded once
    if r.chance(1, 160) {
        let count = if r.chance(1, 20) { 20_000 } else { *r.pick(&[300, 1000, 3000, 3000]) };
        p.push(Line::new("lot").w("count", count).w("kind", r.below(3)).w("seed", r.u() >> 20).t(input(r)));
        return p;
    }
    let base: Vec<String> = (0..1 + r.below(5)).map(|_| input(r)).collect();
    let some = |r: &mut Rng| {
        let b = r.pick(&base).clone();
        match r.below(6) {
            0 => input(r),
            1 | 2 => variant(r, &b),
            _ => b,
        }
    };
    // where they change state that outlives them, if there is any
    let mut hot: BTreeMap<String, Vec<rt::Hot>> = BTreeMap::new();
    if rt::watched() > 0 {
        for b in &base {
            hot.insert(b.clone(), fresh(b, cx).map(|f| f.2).unwrap_or_default());
        }
    }
    let none = vec![];
    let any: Vec<rt::Hot> = hot.values().flatten().copied().collect();
    let scale = *r.pick(&[10usize, 100, 1000, 10_000]);
    for _ in 0..2 + r.below(20) {
        match r.below(12) {
            0..=4 => p.push(Line::new("expand").t(some(r))),
            5 => p.push(Line::new("expand").w("th", 1).t(some(r))),
            6..=7 if !any.is_empty() && r.chance(1, 2) => {
                let s = some(r);
                let h = r.pick(hot.get(&s).filter(|h| !h.is_empty()).unwrap_or(&any)).1;
                p.push(Line::new("expand").w("th", r.chance(1, 4) as u8).w("fail", h + 1 + r.below(2) as u64).t(s))
            }
            6..=7 => p.push(Line::new("expand").w("th", r.chance(1, 4) as u8).w("fail", 1 + r.below(*r.clone().pick(&[20, 200, 1500]))).t(some(r))),
            8 => p.push(Line::new("expand").w("rep", *r.pick(&[2, 10, 70, 300])).t(some(r))),
            9 if r.chance(1, 8) => p.push(Line::new("rules")),
            9 => p.push(Line::new("env1").w("mode", r.below(8))),
            _ => {
                let n = 2 + r.below(2);
                let m = 1 + r.below(60);
                let mut sw: Vec<i64> = (0..m * 2).map(|i| if i % 2 == 0 { 1 + r.below(scale) as i64 } else { r.below(4) as i64 }).collect();
                let mut f = vec![0; n];
                if r.chance(1, 3) {
                    f[0] = 1 + r.below(600) as i64
                }
                let same = r.chance(1, 2);
                let a = some(r);
                let ts: Vec<String> = (0..n).map(|_| if same { a.clone() } else { some(r) }).collect();
                if !any.is_empty() && r.chance(2, 3) {
                    let h: Vec<Vec<u64>> = ts.iter().map(|t| hot.get(t).unwrap_or(&none).iter().map(|h| h.0).collect()).collect();
                    sw = crate::run::hot_switches(r, &h).iter().flat_map(|s| [s.0 as i64, s.1 as i64]).collect()
                }
                p.push(Line::new("conc").l("sw", &sw).l("fail", &f).t(ts.join("¦")))
            }
        }
    }
    p
}

// ---------------------------------------------------------------- execution

/// What an expansion yields, as text.
fn expand(s: &str) -> Result<String, String> {
    let (kind, s) = s.split_once(": ").unwrap_or(("expr", ""));
    let parse = |s: &str| s.parse::<proc_macro2::TokenStream>().map_err(|_| "is no row of tokens".to_string());
    if kind == "arith_ops" {
        let (a, i) = s.split_once('@').unwrap_or(("", s));
        let (a, i) = (parse(a)?, parse(i)?);
        return Ok(rubi_short::arith_ops(a, i).to_string());
    }
    let t = parse(s)?;
    Ok(rubi_short::expr(t).to_string())
}

#[derive(Clone)]
enum Did {
    Text(String),
    Cut,
}
fn once(s: &str, a: Arm) -> (Did, rt::Used) {
    let (r, u) = rt::op(a, || expand(s));
    let d = match r {
        Ok(Ok(t) | Err(t)) => {
            let d = Did::Text(t.as_str().to_owned());
            rt::lib(|| drop(t));
            d
        }
        Err(None) => Did::Text("PANICS".into()),
        Err(Some(_)) => Did::Cut,
    };
    (d, u)
}
fn once_th(s: &str, a: Arm) -> Did {
    let out = std::sync::Arc::new(std::sync::Mutex::new(Did::Cut));
    let (o, s) = (out.clone(), s.to_string());
    rt::run_threads(vec![Box::new(move || *o.lock().unwrap() = once(&s, a).0)], &[]);
    rt::adopt(0);
    let d = out.lock().unwrap().clone();
    d
}

type Known = BTreeMap<String, (String, u64)>;

/// The i-th of a lot.
fn lot_input(l: &Line, i: u64) -> String {
    let mut r = Rng::derive(l.num("seed") as u64, "lot", i);
    match l.num("kind") {
        0 => input(&mut r),
        1 => {
            let n = 1 + r.below(5);
            format!("expr: q{i} + {}", formula(&mut r, n))
        }
        _ => {
            let mut s = l.tree.clone().unwrap_or_default();
            for _ in 0..1 + r.below(4) {
                s = variant(&mut r, &s)
            }
            s
        }
    }
}
/// All of a lot, from the first to the last or the other way round.
fn lot_run(l: &Line, back: bool, show: Option<u64>, w: &mut W) {
    rt::adopt(0);
    let n = l.num("count").clamp(0, 50_000) as u64;
    let mut left = 400_000_000u64;
    for i in 0..n {
        let i = if back { n - 1 - i } else { i };
        let (d, u) = once(&lot_input(l, i), Arm { limit: 3_000_000, alloc_limit: 10_000_000, ..Arm::default() });
        if let Did::Text(t) = d {
            if show.is_none_or(|s| s == i) {
                w.obs(&i.to_string(), &if show.is_none() { format!("{:x}", hash(&t)) } else { t })
            }
        }
        left = left.saturating_sub(u.points + 100);
        if left == 0 {
            break;
        }
    }
}
fn lot(l: &Line, cfg: &rt::Cfg, cx: &mut Cx) -> Option<V> {
    let a = cx.sim(cfg, |w| lot_run(l, false, None, w));
    let b = cx.sim(cfg, |w| lot_run(l, true, None, w));
    let (ma, mb) = (a.map(), b.map());
    for (k, x) in &ma {
        let Some(y) = mb.get(k) else { continue };
        cx.eval(hash(&format!("{k} {}", l.text())), true);
        if x == y {
            continue;
        }
        let i: u64 = k.parse().unwrap_or(0);
        let s = lot_input(l, i);
        let Some((want, ..)) = fresh(&s, cx) else { continue };
        for back in [false, true] {
            let r = cx.sim(cfg, |w| lot_run(l, back, Some(i), w));
            let got = r.get(k).unwrap_or("");
            if got != want {
                return viol("expands to something else", format!("in a fresh process: {want}\nafter many others: {got}\nat: {s}\nin: {} {}", l.text(), if back { "(from the last)" } else { "" }));
            }
        }
    }
    None
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let mut want: Known = BTreeMap::new();
    for l in &p.lines {
        for s in l.tree.iter().filter(|_| l.head != "lot").flat_map(|t| t.split('¦')) {
            if want.contains_key(s) {
                continue;
            }
            if let Some((t, n, _)) = fresh(s, cx) {
                want.insert(s.into(), (t, n));
            }
        }
    }
    let e = p.one("env");
    let n = |k: &str| e.map(|l| l.num(k)).unwrap_or(1) as u64;
    let cfg = rt::Cfg {
        hash_seed: n("hash"),
        pad_seed: n("pad"),
        arena_off: n("off"),
        policy: (n("policy") % 5) as u8,
        clock0: n("clock"),
        clock_step: n("tick"),
        env_mode: (n("mode") % 8) as u8,
        ..rt::Cfg::default()
    };
    if let Some(l) = p.one("lot") {
        return lot(l, &cfg, cx);
    }
    let res = cx.sim(&cfg, |w| sim(p, &want, w));
    for (k, v) in &res.obs {
        if k == "eval" {
            cx.eval(hash(v), true);
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, though it ends in a fresh process, at: {l}"));
    }
    None
}

fn sim(p: &Plan, want: &Known, w: &mut W) {
    // what the rules are reported to is not looked at here
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(fd, 1);
    }
    rt::adopt(0);
    let mut past = 0u64;
    let mut last = "first";
    let check = |w: &mut W, d: &Did, s: &str, how: &str, past: u64, last: &str| -> bool {
        let Did::Text(got) = d else { return true };
        let Some((t, _)) = want.get(s) else { return true };
        w.obs("eval", &format!("{s}|{how}|{last}|{}", past.min(20)));
        if got != t {
            w.viol("expands to something else", &format!("in a fresh process: {t}\n{how}, {last}: {got}\nat: {s}"));
            return false;
        }
        true
    };
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        let arm = |s: &str, fail: i64| -> Option<Arm> {
            let (_, pts) = want.get(s)?;
            Some(Arm { fail: fail.max(0) as u64, limit: pts * 16 + 300_000, alloc_limit: 10_000_000, ..Arm::default() })
        };
        match l.head.as_str() {
            "env1" => rt::set_env_mode((l.num("mode") & 7) as u8),
            "rules" => {
                let _ = rt::op(Arm { limit: 1 << 40, alloc_limit: 1 << 40, ..Arm::default() }, rubi_short::load);
            }
            "expand" => {
                let s = l.tree.as_deref().unwrap_or("");
                let Some(a) = arm(s, l.num("fail")) else { continue };
                for _ in 0..l.num("rep").clamp(1, 400) {
                    let (how, d) = if l.num("th") != 0 { ("on its own thread", once_th(s, a)) } else { ("on the main thread", once(s, a).0) };
                    if !check(w, &d, s, how, past, last) {
                        return;
                    }
                    past += 1;
                    last = if let Did::Cut = d { "after one that was cut short" } else { "after others" };
                    if let Did::Cut = d {
                        break;
                    }
                }
            }
            "conc" => {
                let ss: Vec<&str> = l.tree.as_deref().unwrap_or("").split('¦').take(4).collect();
                let fs = l.nums("fail");
                let sw = l.nums("sw");
                let sw: Vec<(u32, u8)> = sw.chunks(2).map(|c| (c[0].max(1) as u32, c.get(1).copied().unwrap_or(0).unsigned_abs() as u8)).collect();
                let arms: Vec<Option<Arm>> = ss.iter().enumerate().map(|(t, s)| arm(s, fs.get(t).copied().unwrap_or(0))).collect();
                if arms.iter().any(|a| a.is_none()) {
                    continue;
                }
                static mut R: [Option<Did>; 4] = [const { None }; 4];
                let jobs: Vec<rt::Job> = ss
                    .iter()
                    .zip(arms)
                    .enumerate()
                    .map(|(t, (s, a))| {
                        let s = s.to_string();
                        Box::new(move || unsafe { R[t] = Some(once(&s, a.unwrap()).0) }) as rt::Job
                    })
                    .collect();
                let st = rt::run_threads(jobs, &sw);
                rt::adopt(0);
                if st.iter().any(|s| *s != rt::St::Done) {
                    return w.viol("deadlock", &format!("expansions at the same time wait for each other, at: {}", l.text()));
                }
                for (t, s) in ss.iter().enumerate() {
                    let Some(d) = (unsafe { R[t].take() }) else { continue };
                    if !check(w, &d, s, "at the same time as others", past, last) {
                        return;
                    }
                    if let Did::Cut = d {
                        last = "after one that was cut short"
                    }
                }
                past += ss.len() as u64;
            }
            _ => (),
        }
        w.flush();
    }
    w.count("?expansions", past);
    rt::mark(0);
}
