//! Searching, minimising, replaying and reporting.

use crate::plan::{shrink_line, Plan};
use crate::rng::Rng;
use crate::rt;
use crate::world::{self, End, Res, W};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// How the trees in plans are made smaller.
pub static mut TREES: fn(&str) -> Vec<String> = |_| vec![];
/// Processor seconds a simulated process may take.
pub static mut CPU_S: u64 = 20;

pub struct V {
    pub class: String,
    pub msg: String,
}
pub fn viol(class: &str, msg: impl Into<String>) -> Option<V> {
    Some(V { class: class.into(), msg: msg.into() })
}

/// What a worker has seen.
#[derive(Default)]
pub struct Cx {
    pub k: BTreeMap<String, u64>,
    pub evals: u64,
    pub distinct: BTreeSet<u64>,
    pub traces: BTreeSet<u64>,
    pub sample: Option<String>,
    pub digest: u64,
    pub worlds: u64,
}
impl Cx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.k.entry(k.into()).or_insert(0) += n
    }
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(h);
        }
    }
    /// A world with injected faults; its counters go to the evidence.
    pub fn sim(&mut self, cfg: &rt::Cfg, body: impl FnOnce(&mut W)) -> Res {
        let r = world::world(cfg, unsafe { CPU_S }, body);
        for (k, n) in &r.k {
            *self.k.entry(k.clone()).or_insert(0) += n
        }
        self.traces.insert(r.trace);
        self.seen(&r);
        r
    }
    /// A fault-free reference world.
    pub fn control(&mut self, cfg: &rt::Cfg, body: impl FnOnce(&mut W)) -> Res {
        let r = world::world(cfg, unsafe { CPU_S }, body);
        *self.k.entry("~control_points".into()).or_insert(0) += r.k.get("~points").copied().unwrap_or(0);
        self.seen(&r);
        r
    }
    fn seen(&mut self, r: &Res) {
        self.worlds += 1;
        let mut h = hash(&format!("{:?} {:?}", r.end, r.viol)) ^ r.trace;
        for (a, b) in &r.obs {
            h = h.rotate_left(5) ^ hash(a) ^ hash(b).rotate_left(31);
        }
        self.digest = self.digest.wrapping_mul(0x9E3779B97F4A7C15) ^ h;
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3)
    }
    h ^ (h >> 29)
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &mut Cx) -> Plan,
    pub exec: fn(&Plan, &mut Cx) -> Option<V>,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

/// The text of a failure of the simulated process itself.
pub fn died(e: End) -> Option<(&'static str, String)> {
    Some(match e {
        End::Ok => return None,
        End::Budget => ("runs on", "the operation takes far more steps than it takes undisturbed".into()),
        End::Corrupt => ("memory corrupted", "memory is freed twice, freed wrongly or written after being freed".into()),
        End::Deadlock => ("deadlock", "the operation waits for something nobody will do".into()),
        End::Signal(s) => ("crash", format!("the process dies of signal {s}")),
        End::Cpu => ("runs on", "the operation does not end".into()),
        End::Exit(c) => ("crash", format!("the process exits with status {c}")),
    })
}

// ------------------------------------------------------------------ workers

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    done: AtomicU64,
}
fn shared_mem(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "shared memory");
        p as *mut u8
    }
}
pub fn worker_init() {
    unsafe {
        rt::PAGE = shared_mem(4096) as *mut rt::Page;
        if rt::COV.is_null() {
            rt::COV = shared_mem(rt::COV_ALL)
        }
    }
}

fn put(s: &mut String, k: &str, v: &str) {
    s.push_str(&format!("{k} {}\n{v}\n", v.len()));
}

/// Forks a child that computes some text. The parent must not hold locks.
fn child(f: impl FnOnce() -> String) -> (i32, i32) {
    let mut fds = [0; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let (s, code) = match r {
                Ok(s) => (s, 0),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                    let mut s = String::new();
                    put(&mut s, "error", &m.unwrap_or("panic".into()));
                    (s, 2)
                }
            };
            let b = s.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize
            }
            libc::_exit(code)
        }
        libc::close(fds[1]);
        (pid, fds[0])
    }
}
fn reap(pid: i32, fd: i32) -> (String, i32) {
    use std::os::fd::FromRawFd;
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut s = vec![];
    let _ = f.read_to_end(&mut s);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 99 };
    (String::from_utf8_lossy(&s).into_owned(), code)
}
fn entries(s: &str) -> Vec<(String, String)> {
    let mut r = vec![];
    let mut o = 0;
    while let Some(i) = s[o..].find('\n') {
        let h = &s[o..o + i];
        let Some((k, n)) = h.rsplit_once(' ') else { break };
        let Ok(n) = n.parse::<usize>() else { break };
        let b = o + i + 1;
        if b + n > s.len() {
            break;
        }
        r.push((k.to_string(), s[b..b + n].to_string()));
        o = b + n + 1;
    }
    r
}

pub struct Found {
    pub i: u64,
    pub class: String,
    pub msg: String,
    pub plan: String,
}

fn work(p: &Prop, seed: u64, runs: u64, deadline: Instant, sh: &Shared) -> String {
    worker_init();
    let mut out = String::new();
    let mut cx = Cx::default();
    let mut reruns = 0u64;
    let mut differ = 0u64;
    loop {
        if sh.stop.load(SeqCst) != 0 || Instant::now() > deadline {
            break;
        }
        let i = sh.next.fetch_add(1, SeqCst);
        if i >= runs {
            break;
        }
        let mut r = Rng::derive(seed, p.id, i);
        let plan = (p.gen)(&mut r, &mut cx);
        cx.digest = 0;
        let v = (p.exec)(&plan, &mut cx);
        sh.done.fetch_add(1, SeqCst);
        if let Some(v) = v {
            sh.stop.store(1, SeqCst);
            let mut s = String::new();
            put(&mut s, "i", &i.to_string());
            put(&mut s, "class", &v.class);
            put(&mut s, "msg", &v.msg);
            put(&mut s, "plan", &plan.text());
            put(&mut out, "found", &s);
            break;
        }
        if i % 64 == 5 {
            // the same run again must be the same run
            let d = cx.digest;
            let mut c2 = Cx::default();
            let _ = (p.exec)(&plan, &mut c2);
            reruns += 1;
            if c2.digest != d {
                differ += 1;
                if !world::quiet() {
                    eprintln!("run {i} differs on repetition:\n{}", plan.text());
                }
            }
        }
        if cx.sample.is_none() {
            cx.sample = Some(plan.text());
        }
    }
    cx.count("~reruns", reruns);
    cx.count("~reruns_that_differ", differ);
    cx.count("~worlds", cx.worlds);
    put(&mut out, "evals", &cx.evals.to_string());
    for (k, n) in &cx.k {
        put(&mut out, &format!("k {k}"), &n.to_string());
    }
    let hex = |s: &BTreeSet<u64>| s.iter().map(|x| format!("{x:016x}")).collect::<String>();
    put(&mut out, "distinct", &hex(&cx.distinct));
    put(&mut out, "traces", &hex(&cx.traces));
    if let Some(s) = &cx.sample {
        put(&mut out, "sample", s);
    }
    out
}

pub fn shrink(p: &Prop, plan: Plan, class: &str, deadline: Instant) -> Plan {
    let mut cx = Cx::default();
    let mut best = plan;
    let mut same = |q: &Plan| matches!((p.exec)(q, &mut cx), Some(v) if v.class == class);
    let st = |s: &str| (unsafe { TREES })(s);
    // drop lines, many at a time first
    loop {
        let before = best.text();
        let mut w = (best.lines.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.lines.len() {
                if Instant::now() > deadline {
                    return best;
                }
                let mut q = best.clone();
                let e = (i + w).min(q.lines.len());
                q.lines.drain(i..e);
                if same(&q) {
                    best = q
                } else {
                    i += w
                }
            }
            if w == 1 {
                break;
            }
            w /= 2
        }
        for i in 0..best.lines.len() {
            loop {
                let mut moved = false;
                for c in shrink_line(&best.lines[i], &st) {
                    if Instant::now() > deadline {
                        return best;
                    }
                    let mut q = best.clone();
                    q.lines[i] = c;
                    if same(&q) {
                        best = q;
                        moved = true;
                        break;
                    }
                }
                if !moved {
                    break;
                }
            }
        }
        if best.text() == before {
            return best;
        }
    }
}

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Some(plan) = Plan::parse(&s) else {
        eprintln!("not a replay file: {file}");
        return 2;
    };
    let Some(p) = props.iter().find(|p| p.id == plan.prop) else {
        eprintln!("unknown property {}", plan.prop);
        return 2;
    };
    worker_init();
    let mut cx = Cx::default();
    match (p.exec)(&plan, &mut cx) {
        Some(v) => {
            println!("class: {}\n{}", v.class, v.msg);
            println!("digest: {:016x}", cx.digest);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        None => {
            println!("held: {}", p.id);
            println!("digest: {:016x}", cx.digest);
            0
        }
    }
}

fn fresh_replay(file: &str, class: &str) -> bool {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe).arg("replay").arg(file).output();
    match o {
        Ok(o) => o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&format!("class: {class}\n")),
        Err(_) => false,
    }
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub root: String,
    pub jobs: usize,
}

pub fn check(p: &Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    let runs = a.runs.unwrap_or(if a.thorough { p.thorough } else { p.quick });
    let secs = a.secs.unwrap_or(if a.thorough { 600 } else { 150 });
    let deadline = t0 + Duration::from_secs(secs);
    let sh = unsafe { &*(shared_mem(4096) as *const Shared) };
    unsafe { rt::COV = shared_mem(rt::COV_ALL) };
    let _ = std::io::stdout().flush();
    let kids: Vec<(i32, i32)> =
        (0..a.jobs).map(|_| child(|| work(p, a.seed, runs, deadline, sh))).collect();
    let mut cx = Cx::default();
    let mut found: Vec<Found> = vec![];
    let mut err = None;
    let mut samples = vec![];
    // read all pipes at once: a worker blocks on a full one
    let outs: Vec<(String, i32)> = {
        let hs: Vec<_> = kids.into_iter().map(|(pid, fd)| std::thread::spawn(move || reap(pid, fd))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    };
    for (s, code) in outs {
        if code != 0 && err.is_none() {
            err = Some(format!("worker ended with status {code}"));
        }
        for (k, v) in entries(&s) {
            let set = |v: &str| -> Vec<u64> {
                v.as_bytes().chunks(16).filter_map(|c| u64::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
            };
            match k.as_str() {
                "evals" => cx.evals += v.parse::<u64>().unwrap_or(0),
                "distinct" => cx.distinct.extend(set(&v)),
                "traces" => cx.traces.extend(set(&v)),
                "sample" => samples.push(v),
                "error" => err = Some(v),
                "found" => {
                    let m: BTreeMap<String, String> = entries(&v).into_iter().collect();
                    found.push(Found {
                        i: m["i"].parse().unwrap(),
                        class: m["class"].clone(),
                        msg: m["msg"].clone(),
                        plan: m["plan"].clone(),
                    })
                }
                k if k.starts_with("k ") => cx.count(&k[2..], v.parse().unwrap_or(0)),
                _ => (),
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let done = sh.done.load(SeqCst);
    if let Some(e) = err {
        if found.is_empty() {
            eprintln!("harness error: {e}");
            return 2;
        }
    }
    found.sort_by_key(|f| f.i);
    let mut code = 0;
    let mut reported = 0;
    for f in found.iter().take(2) {
        println!("run {} of {}: {}", f.i, p.id, f.class);
        let plan = Plan::parse(&f.plan).expect("own plan");
        let dl = Instant::now() + Duration::from_secs(if a.thorough { 180 } else { 60 });
        let _ = std::io::stdout().flush();
        let (c, pl) = (f.class.clone(), plan.clone());
        let (pid, fd) = child(|| {
            worker_init();
            let q = shrink(p, pl, &c, dl);
            let mut cx = Cx::default();
            let m = (p.exec)(&q, &mut cx).map(|v| v.msg).unwrap_or_default();
            let mut s = String::new();
            put(&mut s, "plan", &q.text());
            put(&mut s, "msg", &m);
            s
        });
        let (s, _) = reap(pid, fd);
        let m: BTreeMap<String, String> = entries(&s).into_iter().collect();
        let dir = format!("{}/replays", a.root);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{dir}/{}-{}-{}.txt", p.id, a.seed, f.i);
        let body = |plan: &str, msg: &str| {
            let mut s = format!("# {} violated: {}\n", p.id, f.class);
            for l in msg.lines() {
                s.push_str(&format!("# {l}\n"))
            }
            s.push_str(plan);
            s
        };
        let mut ok = false;
        let tries = [(m.get("plan").cloned().unwrap_or_default(), m.get("msg").cloned().unwrap_or_default()), (f.plan.clone(), f.msg.clone())];
        for (plan, msg) in tries {
            if plan.is_empty() {
                continue;
            }
            let _ = std::fs::write(&file, body(&plan, &msg));
            // three times, in case one of the processes is ended from outside
            if (0..3).filter(|_| fresh_replay(&file, &f.class)).count() > 1 {
                println!("{msg}");
                print!("{plan}");
                println!("VIOLATION property={} replay={}", p.id, file);
                ok = true;
                break;
            }
        }
        if ok {
            reported += 1;
            code = 1;
            break;
        }
        eprintln!("not reproducible in a fresh process: {file}");
        if code == 0 {
            code = 2
        }
    }
    evidence(p, a, &cx, &samples, done, search_s, reported, t0.elapsed().as_secs_f64());
    println!(
        "{}: {} runs ({} asked), {} evaluations, {} distinct, {:.1} s, exit {}",
        p.id,
        done,
        runs,
        cx.evals,
        cx.distinct.len(),
        t0.elapsed().as_secs_f64(),
        code
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, a: &Args, cx: &Cx, samples: &[String], done: u64, search_s: f64, viols: u64, wall: f64) {
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    let mut inner = BTreeMap::new();
    for (k, n) in &cx.k {
        if let Some(k) = k.strip_prefix('~') {
            inner.insert(k.to_string(), *n);
        } else if let Some(k) = k.strip_prefix('?') {
            probes.insert(k.to_string(), *n);
        } else {
            faults.insert(k.clone(), *n);
        }
    }
    let js = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let g = (rt::guards() as usize).min(rt::COV_N);
    let blocks = |bit: u8| (1..=g).filter(|i| unsafe { *rt::COV.add(*i) & bit != 0 }).count();
    let places = |bit: u8| (rt::COV_N..rt::COV_ALL).filter(|i| unsafe { *rt::COV.add(*i) & bit != 0 }).count();
    let list = |v: &[&str]| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    let pts = inner.get("points").copied().unwrap_or(0);
    let mut ss: Vec<String> = samples
        .iter()
        .take(3)
        .map(|s| esc(&if s.len() > 4000 { format!("{}...", s.chars().take(4000).collect::<String>()) } else { s.clone() }))
        .collect();
    if ss.is_empty() {
        ss.push(esc("the first run violated the property; see the replay file"));
    }
    let body = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": {level},\n \"coverage\": {{\n  \"evaluations\": {ev},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"simulated_runs\": {done},\n  \"seeds_per_hour\": {sph},\n  \"simulated_processes\": {worlds},\n  \"simulated_steps\": {pts},\n  \"simulated_time_unit\": \"one step per basic block, allocation, release or callback of the code under test\",\n  \"faults_injected\": {faults},\n  \"probes\": {probes},\n  \"other_counts\": {inner},\n  \"distinct_interleavings\": {tr},\n  \"distinct_interleavings_measure\": \"hash of every hand-over (from, to, step) and every allocation size of a simulated process\",\n  \"blocks_total\": {bt},\n  \"blocks_run\": {br},\n  \"distinct_places_where_a_fault_landed\": {bf},\n  \"distinct_places_where_a_switch_landed\": {bs},\n  \"places_measure\": \"the last four basic blocks before it\",\n  \"real_code\": {real},\n  \"stubs\": {stub}\n }},\n \"assumptions\": {ass},\n \"wall_s\": {wall:.1},\n \"violations\": {viols}\n}}\n",
        id = esc(p.id),
        tier = esc(if a.thorough { "thorough" } else { "quick" }),
        seed = a.seed,
        level = esc(p.level),
        ev = cx.evals,
        dn = cx.distinct.len(),
        rule = esc(p.rule),
        samples = ss.join(", "),
        sph = (done as f64 / search_s.max(0.001) * 3600.0) as u64,
        worlds = inner.get("worlds").copied().unwrap_or(0),
        faults = js(&faults),
        probes = js(&probes),
        inner = js(&inner),
        tr = cx.traces.len(),
        bt = g,
        br = blocks(rt::AT_RUN),
        bf = places(rt::AT_FAULT),
        bs = places(rt::AT_SWITCH),
        real = list(p.real),
        stub = list(p.stub),
        ass = list(p.assumptions),
    );
    let dir = format!("{}/evidence", a.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), body) {
        eprintln!("evidence not written: {e}")
    }
}

/// A schedule that changes threads around given steps of each.
pub fn hot_switches(r: &mut Rng, hot: &[Vec<u64>]) -> Vec<(u64, usize)> {
    let n = hot.len();
    let mut at = vec![0u64; n];
    let mut who = r.below(n);
    let mut sw = vec![(1, who)];
    for _ in 0..4 + r.below(60) {
        let next = hot[who].iter().position(|h| *h > at[who] + 4).filter(|_| r.chance(2, 3));
        let gap = match next {
            Some(i) => {
                let left = hot[who].len() - i;
                let k = match r.below(6) {
                    0 => r.below(left.min(12)),
                    1 => r.below(left),
                    _ => r.geo(2) as usize - 1,
                };
                let h = hot[who][i + k.min(left - 1)];
                (h - at[who]).saturating_add_signed(r.range(-5, 6)).max(1)
            }
            None => {
                let m = *r.pick(&[2, 4, 30]);
                r.geo(m)
            }
        };
        at[who] += gap;
        who = r.below(n);
        sw.push((gap, who));
    }
    sw
}

pub fn main(props: &[Prop]) -> i32 {
    let v: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if !world::quiet() && rt::mode() == rt::HAR {
            eprintln!("{i}")
        }
    }));
    fix_process();
    let num = |k: &str| v.iter().position(|x| x == k).and_then(|i| v.get(i + 1)).and_then(|x| x.parse::<u64>().ok());
    match v.get(1).map(|s| s.as_str()) {
        Some("replay") if v.len() > 2 => replay(props, &v[2]),
        Some("check") if v.len() > 2 => {
            let Some(p) = props.iter().find(|p| p.id == v[2]) else {
                eprintln!("unknown property {}", v[2]);
                return 2;
            };
            let env = |k: &str| std::env::var(k).unwrap_or_default();
            let a = Args {
                seed: num("--seed").or(env("VERIF_SEED").parse().ok()).unwrap_or(1),
                thorough: v.iter().any(|x| x == "--thorough") || env("VERIF_TIER") == "thorough" && !v.iter().any(|x| x == "--quick"),
                runs: num("--runs"),
                secs: num("--secs"),
                root: std::env::var("VERIF_ROOT").unwrap_or("/verif".into()),
                jobs: num("--jobs").unwrap_or(8) as usize,
            };
            check(p, &a)
        }
        Some("show") if v.len() > 3 => {
            // print the plan of one run
            let p = props.iter().find(|p| p.id == v[2]).expect("property");
            worker_init();
            let mut r = Rng::derive(num("--seed").unwrap_or(1), p.id, v[3].parse().unwrap());
            let mut cx = Cx::default();
            let plan = (p.gen)(&mut r, &mut cx);
            print!("{}", plan.text());
            if v.iter().any(|x| x == "--exec") {
                let t = Instant::now();
                let r = (p.exec)(&plan, &mut cx);
                println!("# {:?} {:?} {:?}", r.map(|v| (v.class, v.msg)), t.elapsed(), cx.k);
            }
            0
        }
        _ => {
            eprintln!("usage: check <property> [--quick|--thorough] [--seed N] [--runs N] | replay <file> | show <property> <run>");
            2
        }
    }
}

/// Fixed addresses and a large stack, so that runs repeat exactly.
fn fix_process() {
    unsafe {
        if std::env::var_os("SIM_FIXED").is_some() {
            return;
        }
        std::env::set_var("SIM_FIXED", "1");
        libc::personality(0x0040000); // ADDR_NO_RANDOMIZE
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_STACK, &mut l);
        l.rlim_cur = (128u64 << 20).min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_STACK, &l);
        use std::os::unix::process::CommandExt;
        let exe = std::env::current_exe().unwrap();
        let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
        eprintln!("cannot restart: {e}");
    }
}
