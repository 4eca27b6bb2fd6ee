//! C03: torn or damaged records never pass for a different expression.

use super::settle;
use crate::disk::{Sink, Source};
use crate::gen::{big, odd_name, G};
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{line_tree, vals};
use crate::world::W;
use calcu_ops::store::{self, Part};
use calcu_ops::tree::{self, T};
use calcu_rs::Expr;
use std::io::Write;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        gen,
        exec,
        quick: 10000,
        thorough: 250000,
        level: "fault_enumeration",
        rule: "A run saves expressions and parts of them as JSON text and damages the stored bytes: cut at every (or every n-th) byte, every (or every n-th) single bit flipped, ranges zeroed, overwritten, duplicated, dropped, swapped or mixed with another record. A log is appended to, cut by a crash at a chosen byte (optionally leaving zeros behind), recovered by a fresh process that goes on appending, and cut again. One evaluation is one load of damaged bytes, distinct by those bytes.",
        real: &["the library's serialization (derived or not), serde and serde_json", "rendering, comparison and hashing of whatever loads"],
        stub: &["the storage (bytes, crash points and damage)", "process restart", "memory allocator"],
        assumptions: &["records are JSON text"],
    }
}

const MODES: [&str; 9] = ["cut", "flip", "zero", "fill", "dup", "drop", "swap", "mix", "digits"];

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C03", r.u() >> 1);
    let mut g = G::new(r);
    g.big_nums = r.chance(1, 3);
    g.undef = r.chance(1, 3);
    let size = *r.pick(&[1, 2, 3, 6, 10, 16, 40]);
    let k = 1 + r.below(3);
    for mut t in vals(r, &g, k, size) {
        if r.chance(1, 4) {
            let s = [odd_name(r), odd_name(r), odd_name(r)];
            t.rename(&|n| s[n.bytes().next().unwrap_or(0) as usize % 3].clone())
        }
        if r.chance(1, 8) {
            t = T::M(vec![big(r), t])
        }
        p.push(Line::new("val").t(t.text()))
    }
    for _ in 0..1 + r.below(4) {
        if r.chance(1, 5) {
            let vs: Vec<i64> = (0..2 + r.below(10)).map(|_| r.below(k) as i64).collect();
            let far = *r.pick(&[30, 200, 1500]);
            let cuts: Vec<i64> = (0..1 + r.below(4)).map(|_| 1 + r.below(far) as i64).collect();
            let l = Line::new("journal")
                .l("vs", &vs)
                .l("cuts", &cuts)
                .w("part", r.below(store::KINDS))
                .w("fmt", r.below(2))
                .w("sep", r.below(3))
                .w("tail", if r.chance(1, 3) { r.below(40) } else { 0 })
                .w("per", 1 + r.below(4))
                .w("rchunk", r.below(9))
                .w("wchunk", r.below(9));
            p.push(l);
            continue;
        }
        let mode = if r.chance(2, 3) { MODES[r.below(2)] } else { MODES[2 + r.below(MODES.len() - 2)] };
        let l = Line::new("dmg")
            .w("t", mode)
            .w("v", r.below(k))
            .w("v2", r.below(k))
            .w("part", if r.chance(1, 2) { 0 } else { r.below(store::KINDS) })
            .w("fmt", r.chance(1, 4) as u8)
            .w("rd", r.below(6))
            .w("cap", 1 + r.below(40))
            .w("rchunk", if r.chance(1, 2) { 0 } else { 1 + r.below(9) })
            .w("seed", r.below(1 << 30));
        p.push(l)
    }
    let Some((mut p, res)) = settle(&p, cx, &rt::Cfg::default(), &control) else { return Plan::new("C03", 0) };
    for i in 0..p.lines.len() {
        let Some(n) = res.get(&i.to_string()).and_then(|s| s.parse::<usize>().ok()) else { continue };
        let l = &mut p.lines[i];
        if l.head != "dmg" {
            continue;
        }
        let all = match l.word("t") {
            "cut" => n,
            "flip" => n * 8,
            _ => 60,
        };
        // cost of one load grows with the record
        let room = (400_000 / (n + 100)).max(8);
        let tries = all.min(room).min(if r.chance(1, 3) { 40 } else { 4000 });
        let by = (all / tries.max(1)).max(1);
        l.set("at", r.below(by));
        l.set("by", by);
        l.set("times", tries);
    }
    p
}

fn u(l: &Line, k: &str) -> usize {
    l.num(k).unsigned_abs() as usize
}
fn values(p: &Plan) -> Vec<Expr> {
    let ts: Vec<T> = p.all("val").filter_map(line_tree).collect();
    let mut v: Vec<Expr> = rt::lib(|| ts.iter().map(tree::build).collect());
    if v.is_empty() {
        v.push(rt::lib(|| Expr::var("x")))
    }
    v
}
fn record(q: &Part, fmt: usize) -> Option<Vec<u8>> {
    let mut rec = vec![];
    let (r, _) = rt::op(Arm { limit: 5_000_000, ..Arm::default() }, || store::save(q, fmt & 1, 0, 1, &mut rec).is_ok());
    (r == Ok(true)).then_some(rec)
}
fn acceptable(b: &[u8]) -> bool {
    serde_json::from_slice::<serde_json::Value>(b).is_ok()
}

fn control(p: &Plan, w: &mut W) {
    rt::adopt(0);
    let v = values(p);
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        if l.head != "dmg" {
            continue;
        }
        let q = rt::lib(|| Part::of(&v[u(l, "v") % v.len()], u(l, "part")));
        if let Some(rec) = record(&q, u(l, "fmt")) {
            w.obs(&i.to_string(), &rec.len().to_string())
        }
        w.flush()
    }
    rt::mark(0);
}

fn cut(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 500 {
        format!("{}...", s.chars().take(500).collect::<String>())
    } else {
        s.into_owned()
    }
}

type Bad = (String, String);
fn bad<T>(c: &str, m: impl Into<String>) -> Result<T, Bad> {
    Err((c.into(), m.into()))
}

fn patient(len: usize) -> Arm {
    Arm { limit: 1_000_000 + 4000 * len as u64, ..Arm::default() }
}

/// Loads damaged bytes. What loads must be well-formed.
fn load(l: &Line, kind: usize, b: &[u8], w: &mut W) -> Result<Option<T>, Bad> {
    let a = patient(b.len());
    let mut src = Source { data: b, chunk: u(l, "rchunk"), ..Source::default() };
    let (r, _) = rt::op(a, || match l.num("rd") {
        2 => store::load_bytes(kind, 0, b),
        h => store::load(kind, 0, h.unsigned_abs() as usize, u(l, "cap"), &mut src),
    });
    w.obs("eval", &hash(&String::from_utf8_lossy(b)).to_string());
    let q = match r {
        Err(_) => return bad("loading panics", "loading damaged bytes panics"),
        Ok(Err(_)) => return Ok(None),
        Ok(Ok(q)) => q,
    };
    w.count("?damaged_record_loaded", 1);
    let t = q.tree();
    if !t.numbers_ok() {
        return bad("loads badly formed", format!("loaded: {}\nits numbers are not in lowest terms with a positive denominator", t.text()));
    }
    let (r, _) = rt::op(a, || {
        let s = q.debug() + &q.expr().to_string();
        let h = q.hash();
        (q.same(&q), s.len(), h)
    });
    match r {
        Err(_) => return bad("loads badly formed", format!("loaded: {}\nrendering, hashing or comparing it panics", t.text())),
        Ok((false, ..)) => return bad("loads badly formed", format!("loaded: {}\nit is not equal to itself", t.text())),
        _ => (),
    }
    let Some(rec) = record(&q, 0) else { return bad("loads badly formed", format!("loaded: {}\nit cannot be saved", t.text())) };
    let (r, _) = rt::op(a, || store::load_bytes(q.kind(), 0, &rec));
    match r {
        Ok(Ok(x)) if x.tree() == t => (),
        _ if !acceptable(&rec) => (),
        Ok(Ok(x)) => return bad("loads badly formed", format!("loaded: {}\nsaved and loaded again: {}", t.text(), x.tree().text())),
        _ => return bad("loads badly formed", format!("loaded: {}\nsaved again it does not load", t.text())),
    }
    Ok(Some(t))
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, _) = settle(p, cx, &rt::Cfg::default(), &control)?;
    let res = cx.sim(&rt::Cfg::default(), |w| {
        rt::adopt(0);
        let v = values(&p);
        for (i, l) in p.lines.iter().enumerate() {
            rt::mark(i as u32 + 1);
            if l.head == "dmg" {
                if let Err((c, m)) = damage(l, &v, w) {
                    return w.viol(&c, &format!("{m}\nat: {}", l.text()));
                }
            }
        }
        rt::mark(0)
    });
    for (k, v) in &res.obs {
        if k == "eval" {
            cx.eval(v.parse().unwrap_or(0), true)
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, loading damaged bytes or using what was loaded, at: {l}"));
    }
    for l in p.all("journal") {
        if let Some(v) = journal(&p, l, cx) {
            return Some(v);
        }
    }
    None
}

fn damage(l: &Line, v: &[Expr], w: &mut W) -> Result<(), Bad> {
    let q = rt::lib(|| Part::of(&v[u(l, "v") % v.len()], u(l, "part")));
    let Some(rec) = record(&q, u(l, "fmt")) else { return Ok(()) };
    let n = rec.len();
    if n == 0 || !acceptable(&rec) {
        return Ok(());
    }
    let orig = q.tree();
    let kind = q.kind();
    if kind == 13 && l.word("t") == "flip" {
        return Ok(()); // the names of a map are the caller's
    }
    let (at, by, times) = (u(l, "at"), u(l, "by").max(1), u(l, "times").min(20_000));
    let other = {
        let q2 = rt::lib(|| Part::of(&v[u(l, "v2") % v.len()], u(l, "part")));
        record(&q2, u(l, "fmt")).unwrap_or_default()
    };
    let mut rng = Rng::derive(l.num("seed") as u64, "damage", 0);
    for j in 0..times {
        let i = at + j * by;
        let show = |b: &[u8], m: String| format!("saved:   {}\ndamaged: {}\n{m}", cut(&rec), cut(b));
        let tell = |e: Bad, b: &[u8]| (e.0, show(b, e.1));
        match l.word("t") {
            "cut" => {
                let i = i % n;
                let b = &rec[..i];
                w.count("record_cut", 1);
                if let Some(t) = load(l, kind, b, w).map_err(|e| tell(e, b))? {
                    return bad("a torn record loads", show(b, format!("loaded:  {}", t.text())));
                }
            }
            "flip" => {
                let i = i % (n * 8);
                let mut b = rec.clone();
                b[i / 8] ^= 1 << (i % 8);
                w.count("bit_flipped", 1);
                if let Some(t) = load(l, kind, &b, w).map_err(|e| tell(e, &b))? {
                    if t.shape() != orig.shape() {
                        return bad("a flipped bit loads as something else", show(&b, format!("loaded:  {}", t.text())));
                    }
                }
            }
            m => {
                let a = rng.below(n);
                let most = 1 << rng.below(8);
                let z = (a + 1 + rng.below((n - a).min(most))).min(n);
                let mut b = rec.clone();
                match m {
                    "zero" => b[a..z].fill(0),
                    "fill" => b[a..z].iter_mut().for_each(|x| *x = rng.u() as u8),
                    "dup" => b = [&rec[..z], &rec[a..]].concat(),
                    "drop" => {
                        b.drain(a..z);
                    }
                    "swap" => {
                        let k = z - a;
                        let c = rng.below(n - k + 1);
                        for x in 0..k {
                            b.swap(a + x, c + x)
                        }
                    }
                    "digits" => {
                        // numbers get other numbers' digits
                        let d = b"0123456789-,";
                        for x in b.iter_mut().filter(|x| x.is_ascii_digit()) {
                            if rng.chance(1, 4) {
                                *x = *rng.pick(d)
                            }
                        }
                    }
                    _ => {
                        // the new record written half over the old one
                        let c = a.min(other.len());
                        b = [&other[..c], &rec[c.min(n)..]].concat()
                    }
                }
                w.count("range_damaged", 1);
                load(l, kind, &b, w).map_err(|e| tell(e, &b))?;
            }
        }
    }
    Ok(())
}

/// A log that lives on through crashes. Each life is a process of its own.
fn journal(p: &Plan, l: &Line, cx: &mut Cx) -> Option<V> {
    let mut disk: Vec<u8> = vec![];
    // what must be there: end of the record on disk, and what it holds
    let mut model: Vec<(usize, String)> = vec![];
    let vs = l.nums("vs");
    let cuts = l.nums("cuts");
    let mut next = 0usize;
    for life in 0..=cuts.len() {
        let cutat = cuts.get(life).copied().unwrap_or(0).unsigned_abs();
        let (dk, nx) = (disk.clone(), next);
        let m2: Vec<String> = model.iter().map(|x| x.1.clone()).collect();
        let res = cx.sim(&rt::Cfg::default(), |w| {
            rt::adopt(0);
            let mut s = Source { data: &dk, chunk: u(l, "rchunk"), ..Source::default() };
            let (r, _) = rt::op(patient(dk.len()), || store::load_log(u(l, "part"), &mut s));
            let Ok((got, good, _)) = r else { return w.viol("loading panics", "loading a log cut by a crash panics") };
            let got: Vec<String> = got.iter().map(|q| q.tree().text()).collect();
            if got != m2 {
                let same = got.iter().zip(&m2).take_while(|(a, b)| a == b).count();
                return w.viol(
                    "a log cut by a crash yields other records",
                    &format!("{} complete records, {} loaded, the first {same} agree\nlog: {}", m2.len(), got.len(), cut(&dk)),
                );
            }
            w.count("log_recovered", 1);
            w.obs("good", &good.to_string());
            // go on after the last complete record
            let v = values(p);
            let mut s = Sink { chunk: u(l, "wchunk"), fail_byte: cutat, ..Sink::default() };
            let sep = [&b"\n"[..], b"", b" \n"][u(l, "sep") % 3];
            let mut at = vec![];
            for x in vs.iter().skip(nx).take(u(l, "per").max(1)) {
                let q = rt::lib(|| Part::of(&v[x.unsigned_abs() as usize % v.len()], store::log_kind(u(l, "part"))));
                let Some(rec) = record(&q, u(l, "fmt")) else { break };
                if !acceptable(&rec) {
                    continue;
                }
                let ok = s.write_all(sep).and_then(|_| s.write_all(&rec));
                at.push((s.got.len(), q.tree().text(), ok.is_ok()));
                if ok.is_err() {
                    w.count("power_cut_while_appending", 1);
                    break;
                }
            }
            for (n, t, ok) in at {
                if ok {
                    w.obs("rec", &format!("{n} {t}"))
                }
            }
            let h: String = s.got.iter().map(|x| format!("{x:02x}")).collect();
            w.obs("disk", &h);
        });
        cx.eval(hash(&String::from_utf8_lossy(&disk)) ^ life as u64, !disk.is_empty());
        if let Some((c, m)) = res.viol {
            return viol(&c, format!("{m}\nat: {}, life {life}", l.text()));
        }
        if let Some((c, m)) = died(res.end) {
            return viol(c, format!("{m}, recovering a log cut by a crash, at: {}, life {life}", l.text()));
        }
        let good: usize = res.get("good").and_then(|s| s.parse().ok()).unwrap_or(0);
        let h = res.get("disk").unwrap_or("");
        disk.truncate(good);
        let base = disk.len();
        for i in 0..h.len() / 2 {
            disk.push(u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
        }
        for (k, v) in &res.obs {
            if let ("rec", Some((n, t))) = (k.as_str(), v.split_once(' ')) {
                model.push((base + n.parse::<usize>().unwrap_or(0), t.to_string()))
            }
        }
        if cutat > 0 {
            disk.extend(std::iter::repeat(0).take(u(l, "tail")))
        }
        next += u(l, "per").max(1);
    }
    None
}
