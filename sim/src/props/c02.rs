//! C02: what is saved through any stream is what is loaded back.

use super::settle;
use crate::disk::{Sink, Source, KINDS};
use crate::gen::{big, odd_name, G};
use crate::plan::{Line, Plan};
use crate::rng::Rng;
use crate::rt::{self, Arm};
use crate::run::{died, hash, viol, Cx, Prop, V};
use crate::step::{line_tree, vals, Mix};
use crate::world::{Res, W};
use calcu_ops::cat::{self, Cx as OpCx};
use calcu_ops::store::{self, Part, BIN, LOADS, SAVES};
use calcu_ops::tree::{self, n, T};
use calcu_rs::Expr;
use std::io;
use std::sync::{Arc, Mutex};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        gen,
        exec,
        quick: 18000,
        thorough: 250000,
        level: "fault_enumeration",
        rule: "A run saves expressions, parts and logs of them through simulated streams that split, interrupt, fail or fill up at every chosen byte, and loads them back through such streams: in the same process, in another process that loads before it ever built an expression, and on another thread. One evaluation is one save or load; it is non-trivial if the stream did anything but pass all bytes at once, and distinct by record, direction and what the stream did.",
        real: &["the library's serialization (derived or not), serde, serde_json and bincode", "the Rust standard library's buffering readers and writers"],
        stub: &["the streams (io::Write and io::Read)", "process restart (records cross between simulated processes)", "memory allocator", "thread scheduler"],
        assumptions: &["a failed stream stays failed"],
    }
}

/// a chain of the wanted depth
fn deep(r: &mut Rng, g: &G, d: usize) -> T {
    let mut t = g.leaf(r);
    for _ in 1..d {
        t = match r.below(6) {
            0 => T::S(vec![t]),
            1 => T::M(vec![g.leaf(r), t]),
            2 => T::W(Box::new(t), Box::new(n(2))),
            3 => T::F(r.below(12) as u8, Box::new(t)),
            4 => T::L(Box::new(n(10)), Box::new(t)),
            _ => T::S(vec![t, g.leaf(r)]),
        }
    }
    t
}

fn gen(r: &mut Rng, cx: &mut Cx) -> Plan {
    let mut p = Plan::new("C02", r.u() >> 1);
    let mut g = G::new(r);
    g.big_nums = r.chance(1, 3);
    g.undef = r.chance(1, 3);
    let size = *r.pick(&[1, 3, 6, 10, 16, 40, 150]);
    let k = 1 + r.below(3);
    for mut t in vals(r, &g, k, size) {
        if r.chance(1, 4) {
            let s = [odd_name(r), odd_name(r), odd_name(r)];
            t.rename(&|n| s[n.bytes().next().unwrap_or(0) as usize % 3].clone())
        }
        if r.chance(1, 8) {
            let d = 2 + r.below(33);
            t = deep(r, &g, d)
        }
        if r.chance(1, 12) {
            t = T::S((0..50 + r.below(300)).map(|_| g.leaf(r)).collect())
        }
        if r.chance(1, 12) {
            t = T::M(vec![big(r), t, big(r)])
        }
        p.push(Line::new("val").t(t.text()))
    }
    let mix = Mix::new(r).tags(|o| o.ar > 0 && o.tags & cat::BIG == 0);
    let streams = |r: &mut Rng, l: &mut Line| {
        for x in ["w", "r"] {
            if r.chance(2, 3) {
                l.set(&format!("{x}chunk"), 1 + r.below(9));
            }
            if r.chance(1, 2) {
                l.set(&format!("{x}intr"), 1 + r.below(5));
            }
        }
        l.set("cap", *r.pick(&[1usize, 2, 7, 16, 64, 4096]));
        l.set("err", r.below(7));
    };
    for _ in 0..1 + r.below(5) {
        if r.chance(1, 6) {
            let vs: Vec<i64> = (0..1 + r.below(8)).map(|_| r.below(k) as i64).collect();
            let mut l = Line::new("log").l("vs", &vs).w("part", r.below(store::KINDS)).w("fmt", r.below(2)).w("sep", r.below(4));
            streams(r, &mut l);
            p.push(l);
            continue;
        }
        let o = mix.op(r);
        let mut l = Line::new("trip")
            .w("v", r.below(k))
            .w("part", if r.chance(1, 2) { 0 } else { r.below(store::KINDS) })
            .w("fmt", *r.pick(&[0, 0, 0, 1, 2]))
            .w("wr", r.below(SAVES))
            .w("rd", r.below(LOADS))
            .w("far", r.below(2))
            .w("th", r.chance(1, 4) as u8)
            .w("op", o.name)
            .l("n", &[r.range(-3, 9), r.range(0, 9), r.range(0, 9)]);
        streams(r, &mut l);
        p.push(l)
    }
    let Some((mut p, res)) = settle(&p, cx, &rt::Cfg::default(), &control) else { return Plan::new("C02", 0) };
    for i in 0..p.lines.len() {
        let Some(t) = res.get(&format!("{i}.rec")) else { continue };
        let n = (t.len() / 2).max(1);
        let l = &mut p.lines[i];
        for x in ["w", "r"] {
            if r.chance(2, 3) {
                let tries = (*r.pick(&[1usize, 4, 16, 60])).min(n + 1).min(1 + 12_000 / n);
                let by = ((n + 1) / tries).max(1);
                l.set(&format!("{x}byte"), 1 + r.below(by));
                l.set(&format!("{x}by"), by);
                l.set(&format!("{x}times"), tries);
            }
        }
    }
    p
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn values(p: &Plan) -> Vec<Expr> {
    let ts: Vec<T> = p.all("val").filter_map(line_tree).collect();
    let mut v: Vec<Expr> = rt::lib(|| ts.iter().map(tree::build).collect());
    if v.is_empty() {
        v.push(rt::lib(|| Expr::var("x")))
    }
    v
}
fn u(l: &Line, k: &str) -> usize {
    l.num(k).unsigned_abs() as usize
}

/// Everything a caller can see of a part, by name.
fn facts(q: &Part, orig: Option<&Part>, l: &Line, lim: u64) -> (Vec<(&'static str, String)>, u64) {
    let mut f = vec![("tree", rt::har(|| q.tree().text()))];
    let a = Arm { limit: lim, ..Arm::default() };
    let mut pts = 0;
    let mut see = |k: &'static str, g: &mut dyn FnMut() -> String| {
        let (r, u) = rt::op(a, g);
        let s = match r {
            Ok(s) => String::from(s.as_str()),
            Err(_) => "PANICS".into(),
        };
        f.push((k, s));
        pts = pts.max(u.points)
    };
    see("debug", &mut || q.debug());
    see("text", &mut || q.expr().to_string());
    see("hash", &mut || q.hash().to_string());
    if let Some(o) = orig {
        see("equal", &mut || q.same(o).to_string());
    }
    if let Some(o) = cat::find(l.word("op")) {
        see("further", &mut || {
            let e = q.expr();
            let mut args = vec![e.clone(), Expr::var("x"), e];
            args.truncate(o.ar);
            args.resize(o.ar, Expr::var("y"));
            let mut c = OpCx::new(args, l.n3());
            (o.f)(&mut c);
            cat::describe(&c.out)
        });
    }
    (f, pts)
}

fn control(p: &Plan, w: &mut W) {
    rt::adopt(0);
    let v = values(p);
    let a = Arm { limit: 1_000_000, ..Arm::default() };
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        match l.head.as_str() {
            "trip" => {
                let e = &v[u(l, "v") % v.len()];
                let q = rt::lib(|| Part::of(e, u(l, "part")));
                let mut rec: Vec<u8> = vec![];
                let (r, _) = rt::op(a, || store::save(&q, u(l, "fmt"), 0, 1, &mut rec).is_ok());
                if r != Ok(true) {
                    w.obs(&format!("{i}.bad"), "saving into memory fails");
                    continue;
                }
                w.obs(&format!("{i}.rec"), &hex(&rec));
                // a deep copy that was never saved is what a loaded one is compared with
                let copy = rt::lib(|| {
                    let t = tree::tree(e);
                    Part::of(&tree::build(&t), u(l, "part"))
                });
                let (f, pts) = facts(&copy, Some(&q), l, 1_000_000);
                for (k, s) in f {
                    w.obs(&format!("{i}.{k}"), &s)
                }
                w.obs(&format!("{i}.pts"), &pts.to_string());
                w.obs(&format!("{i}.kind"), &q.kind().to_string());
            }
            "log" => {
                let mut rec: Vec<u8> = vec![];
                for x in l.nums("vs") {
                    let q = log_part(&v, x, l);
                    let _ = rt::op(a, || store::save(&q, u(l, "fmt") % 2, 0, 1, &mut rec).is_ok());
                    rec.extend_from_slice(sep(l));
                }
                w.obs(&format!("{i}.rec"), &hex(&rec));
            }
            _ => continue,
        }
        w.flush()
    }
    rt::mark(0);
}
fn log_part(v: &[Expr], x: i64, l: &Line) -> Part {
    rt::lib(|| Part::of(&v[x.unsigned_abs() as usize % v.len()], store::log_kind(u(l, "part"))))
}
fn sep(l: &Line) -> &'static [u8] {
    [&b""[..], b"\n", b" ", b"\r\n\t"][u(l, "sep") % 4]
}
fn cut(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s.into_owned()
    }
}

/// Does the format's own reader accept the nesting of this record?
fn acceptable(fmt: usize, b: &[u8]) -> bool {
    fmt == BIN || serde_json::from_slice::<serde_json::Value>(b).is_ok()
}

/// Compares a loaded part with what the control process saw of the original.
fn judge(ctl: &Res, i: usize, f: &[(&'static str, String)]) -> Option<(String, String)> {
    for (k, s) in f {
        let want = ctl.get(&format!("{i}.{k}")).unwrap_or("");
        if s != want {
            let class = match *k {
                "tree" => "loads as something else",
                "debug" | "text" => "the loaded one renders differently",
                "hash" => "the loaded one hashes differently",
                "equal" => "the loaded one is not equal",
                _ => "a further operation differs on the loaded one",
            };
            return Some((class.into(), format!("original: {}\nloaded:   {}", cut(want.as_bytes()), cut(s.as_bytes()))));
        }
    }
    None
}

fn patient(len: usize) -> Arm {
    Arm { limit: 1_000_000 + 4000 * len as u64, ..Arm::default() }
}
fn source<'a>(l: &Line, data: &'a [u8], fail: u64) -> Source<'a> {
    Source {
        data,
        chunk: u(l, "rchunk"),
        intr: u(l, "rintr") as u64,
        err: u(l, "err"),
        fail_byte: fail,
        ..Source::default()
    }
}

/// Loads the record, healthy; the facts or what went wrong.
fn load_far(l: &Line, kind: usize, rec: &[u8], lim: u64) -> Result<Vec<(&'static str, String)>, String> {
    let mut s = source(l, rec, 0);
    let a = patient(rec.len());
    let (r, _) = rt::op(a, || store::load(kind, u(l, "fmt"), u(l, "rd"), u(l, "cap"), &mut s));
    match r {
        Err(_) => Err("loading panics".into()),
        Ok(Err(f)) if f.unfit => Ok(vec![]),
        Ok(Err(f)) => Err(format!("loading fails: {}", f.text)),
        Ok(Ok(q)) => Ok(facts(&q, None, l, lim).0),
    }
}

fn exec(p: &Plan, cx: &mut Cx) -> Option<V> {
    let (p, ctl) = settle(p, cx, &rt::Cfg::default(), &control)?;
    let res = cx.sim(&rt::Cfg::default(), |w| sim(&p, &ctl, w));
    for (k, v) in &res.obs {
        if k == "eval" {
            cx.eval(hash(v), v.ends_with('1'))
        }
    }
    if let Some((c, m)) = res.viol {
        return viol(&c, m);
    }
    if let Some((c, m)) = died(res.end) {
        let l = p.lines.get((res.step as usize).wrapping_sub(1)).map(|l| l.text()).unwrap_or_default();
        return viol(c, format!("{m}, saving or loading, at: {l}"));
    }
    None
}

fn sim(p: &Plan, ctl: &Res, w: &mut W) {
    rt::adopt(0);
    // records of another process, loaded before anything is built here
    let pts = |i: usize| ctl.get(&format!("{i}.pts")).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0) * 8 + 100_000;
    for (i, l) in p.lines.iter().enumerate() {
        if l.head != "trip" || u(l, "far") == 0 {
            continue;
        }
        rt::mark(i as u32 + 1);
        let (Some(h), Some(k)) = (ctl.get(&format!("{i}.rec")), ctl.get(&format!("{i}.kind"))) else { continue };
        let (rec, kind) = (unhex(h), k.parse().unwrap_or(0));
        if !acceptable(u(l, "fmt"), &rec) {
            continue;
        }
        let r = if u(l, "th") != 0 {
            let out = Arc::new(Mutex::new(None));
            let (o2, l2, r2, lim) = (out.clone(), l.clone(), rec.clone(), pts(i));
            rt::run_threads(vec![Box::new(move || *o2.lock().unwrap() = Some(load_far(&l2, kind, &r2, lim)))], &[]);
            w.count("?loaded_on_another_thread", 1);
            let r = out.lock().unwrap().take();
            r
        } else {
            Some(load_far(l, kind, &rec, pts(i)))
        };
        rt::adopt(0);
        w.count("loaded_after_restart", 1);
        w.obs("eval", &format!("far{h}{}{}{} 1", l.word("rd"), l.word("rchunk"), l.word("rintr")));
        match r {
            None => return w.viol("crash", "a loading thread ends without a result"),
            Some(Err(m)) => return w.viol("a record does not load", &format!("{m}\nrecord: {}\nat: {}", cut(&rec), l.text())),
            Some(Ok(f)) => {
                if let Some((c, m)) = judge(ctl, i, &f) {
                    return w.viol(&c, &format!("{m}\nrecord: {}\nat (in another process): {}", cut(&rec), l.text()));
                }
            }
        }
    }
    let v = values(p);
    let before: Vec<T> = v.iter().map(tree::tree).collect();
    for (i, l) in p.lines.iter().enumerate() {
        rt::mark(i as u32 + 1);
        let ok = match l.head.as_str() {
            "trip" => trip(l, i, &v, ctl, pts(i), w),
            "log" => log(l, i, &v, ctl, w),
            _ => continue,
        };
        if let Err((c, m)) = ok {
            return w.viol(&c, &format!("{m}\nat: {}", l.text()));
        }
    }
    rt::mark(0);
    for (a, b) in before.iter().zip(&v) {
        let b = tree::tree(b);
        if *a != b {
            return w.viol("saving changes the expression", &format!("before: {}\nafter:  {}", a.text(), b.text()));
        }
    }
}

type Bad = (String, String);
fn bad<T>(c: &str, m: impl Into<String>) -> Result<T, Bad> {
    Err((c.into(), m.into()))
}

fn sink(l: &Line, fail: u64) -> Sink {
    Sink { chunk: u(l, "wchunk"), intr: u(l, "wintr") as u64, err: u(l, "err"), fail_byte: fail, ..Sink::default() }
}
fn write_kind(l: &Line) -> io::ErrorKind {
    let e = u(l, "err");
    if e >= 6 {
        io::ErrorKind::WriteZero
    } else {
        KINDS[e]
    }
}
/// the series of failing bytes, then a healthy try
fn series(l: &Line, x: &str) -> Vec<u64> {
    let (b, by) = (u(l, &format!("{x}byte")) as u64, u(l, &format!("{x}by")).max(1) as u64);
    let times = if b > 0 { (u(l, &format!("{x}times")) as u64).clamp(1, 200) } else { 0 };
    (0..times).map(|j| b + j * by).chain([0]).collect()
}

/// Checks one writing attempt against the full record.
fn wrote(l: &Line, s: &Sink, r: &Result<Result<(), store::Fail>, Option<rt::Inj>>, rec: &[u8], w: &mut W) -> Result<bool, Bad> {
    w.obs("eval", &format!("w{} {} {} {} {}", hash(&hex(rec)), s.fail_byte, s.chunk, s.intr, (s.faults > 0) as u8));
    if s.failed {
        w.count("sink_failed", 1)
    }
    if s.faults > s.failed as u64 {
        w.count("short_write_or_interrupt", s.faults - s.failed as u64)
    }
    let show = |m: &str| format!("{m}\nfull:    {}\nwritten: {}", cut(rec), cut(&s.got));
    match r {
        Err(_) => return bad("saving panics", show("saving panics")),
        Ok(Ok(())) if s.failed => return bad("failure swallowed", show("the stream failed but saving reports success")),
        Ok(Err(f)) if !s.failed => return bad("failure without cause", show(&format!("saving fails on a healthy stream: {}", f.text))),
        Ok(Err(f)) => {
            if f.io != Some(write_kind(l)) {
                return bad("failure swallowed", show(&format!("the stream failed with {:?}, reported is: {}", write_kind(l), f.text)));
            }
        }
        _ => (),
    }
    if !rec.starts_with(&s.got) || (!s.failed && s.got.len() != rec.len()) {
        return bad("a different record is written", show("what is written is not the record, or not the beginning of it"));
    }
    Ok(!s.failed)
}

fn trip(l: &Line, i: usize, v: &[Expr], ctl: &Res, pts: u64, w: &mut W) -> Result<(), Bad> {
    let Some(h) = ctl.get(&format!("{i}.rec")) else {
        if let Some(m) = ctl.get(&format!("{i}.bad")) {
            return bad("failure without cause", m);
        }
        return Ok(());
    };
    let rec = unhex(h);
    let (fmt, how, rd, cap) = (u(l, "fmt").min(2), u(l, "wr"), u(l, "rd"), u(l, "cap"));
    let q = rt::lib(|| Part::of(&v[u(l, "v") % v.len()], u(l, "part")));
    let a = patient(rec.len());
    for f in series(l, "w") {
        let mut s = sink(l, f);
        let (r, _) = rt::op(a, || store::save(&q, fmt, how, cap, &mut s));
        if matches!(&r, Ok(Err(f)) if f.unfit) {
            return Ok(());
        }
        wrote(l, &s, &r, &rec, w)?;
    }
    if !acceptable(fmt, &rec) {
        w.count("?too_deep_for_the_format", 1);
        return Ok(());
    }
    for f in series(l, "r") {
        if f > rec.len() as u64 + 1 || (fmt == BIN && f > rec.len() as u64) {
            continue;
        }
        let mut s = source(l, &rec, f);
        let (r, _) = rt::op(a, || store::load(q.kind(), fmt, rd, cap, &mut s));
        w.obs("eval", &format!("r{} {} {} {} {}", hash(h), f, s.chunk, s.intr, (s.faults > 0) as u8));
        if s.failed {
            w.count("source_failed", 1)
        }
        if s.faults > s.failed as u64 {
            w.count("short_read_or_interrupt", s.faults - s.failed as u64)
        }
        let show = |m: String| format!("{m}\nrecord: {}", cut(&rec));
        match r {
            Err(_) => return bad("loading panics", show("loading panics".into())),
            Ok(Ok(_)) if s.failed => return bad("failure swallowed", show("the stream failed but loading reports success".into())),
            Ok(Err(f)) if s.failed => {
                let k = KINDS[u(l, "err") % 6];
                if f.io != Some(k) {
                    return bad("failure swallowed", show(format!("the stream failed with {k:?}, reported is: {}", f.text)));
                }
            }
            Ok(Err(f)) if f.unfit => return Ok(()),
            Ok(Err(f)) => return bad("a record does not load", show(format!("loading a whole record fails: {}", f.text))),
            Ok(Ok(x)) => {
                if x.kind() != q.kind() {
                    return bad("loads as something else", show("another kind of thing".into()));
                }
                if let Some((c, m)) = judge(ctl, i, &facts(&x, Some(&q), l, pts).0) {
                    return Err((c, show(m)));
                }
                // and once more
                let mut again = vec![];
                let (r, _) = rt::op(a, || store::save(&x, fmt, 0, 1, &mut again).is_ok());
                if r != Ok(true) || again != rec {
                    return bad("saved again it is different", show(format!("again:  {}", cut(&again))));
                }
            }
        }
    }
    if fits_value(&q.tree()) && u(l, "part") % 2 == 0 {
        let (r, _) = rt::op(a, || store::through_value(&q));
        match r {
            Err(_) => return bad("loading panics", "converting to and from a value panics"),
            Ok(Err(f)) => return bad("a record does not load", format!("converting to and from a value fails: {}", f.text)),
            Ok(Ok(x)) => {
                if let Some((c, m)) = judge(ctl, i, &facts(&x, Some(&q), l, pts).0) {
                    return Err((c, format!("through a value in memory\n{m}")));
                }
            }
        }
    }
    Ok(())
}

/// values hold 64 bit numbers
fn fits_value(t: &T) -> bool {
    let mut ok = true;
    t.each(&mut |t| {
        let mut chk = |t: &T| {
            if let T::N(a, b) = t {
                ok &= i64::try_from(*a).is_ok() && i64::try_from(*b).is_ok()
            }
        };
        chk(t);
        if let T::L(b, _) = t {
            chk(b)
        }
    });
    ok
}

fn log(l: &Line, i: usize, v: &[Expr], ctl: &Res, w: &mut W) -> Result<(), Bad> {
    let Some(h) = ctl.get(&format!("{i}.rec")) else { return Ok(()) };
    let rec = unhex(h);
    let parts: Vec<Part> = l.nums("vs").into_iter().map(|x| log_part(v, x, l)).collect();
    let fmt = u(l, "fmt") % 2;
    let a = patient(rec.len());
    for f in series(l, "w") {
        let mut s = sink(l, f);
        let (r, _) = rt::op(a, || {
            for q in &parts {
                store::save(q, fmt, u(l, "wr"), u(l, "cap"), &mut s)?;
                io::Write::write_all(&mut s, sep(l))?;
            }
            Ok(())
        });
        wrote(l, &s, &r, &rec, w)?;
    }
    let deep = parts.iter().any(|q| {
        let mut b = vec![];
        store::save(q, fmt, 0, 1, &mut b).is_err() || !acceptable(fmt, &b)
    });
    if deep {
        return Ok(());
    }
    for f in series(l, "r") {
        if f > rec.len() as u64 + 1 {
            continue;
        }
        let mut s = source(l, &rec, f);
        let (r, _) = rt::op(a, || store::load_log(u(l, "part"), &mut s));
        w.obs("eval", &format!("l{} {} {} {} {}", hash(h), f, s.chunk, s.intr, (s.faults > 0) as u8));
        let show = |m: String| format!("{m}\nlog: {}", cut(&rec));
        let Ok((got, _, end)) = r else { return bad("loading panics", show("loading a log panics".into())) };
        match &end {
            None if s.failed => return bad("failure swallowed", show("the stream failed but the log just ends".into())),
            Some(f) if !s.failed => return bad("a record does not load", show(format!("loading a log fails: {}", f.text))),
            Some(f) if f.io != Some(KINDS[u(l, "err") % 6]) => {
                return bad("failure swallowed", show(format!("the stream's failure is reported as: {}", f.text)))
            }
            _ => (),
        }
        if got.len() > parts.len() || (end.is_none() && got.len() != parts.len()) {
            return bad("loads as something else", show(format!("{} records saved, {} loaded", parts.len(), got.len())));
        }
        for (x, y) in got.iter().zip(&parts) {
            if x.tree() != y.tree() {
                return bad("loads as something else", show(format!("saved:  {}\nloaded: {}", y.tree().text(), x.tree().text())));
            }
        }
    }
    Ok(())
}
