//! A world is one simulated process: a forked child of a process that never ran
//! the code under test.

use crate::rt;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Ok,
    /// more steps than allowed
    Budget,
    /// freed twice, freed wrongly, or written after being freed
    Corrupt,
    Deadlock,
    Signal(i32),
    Cpu,
    Exit(i32),
}

pub struct W {
    out: Vec<u8>,
    fd: i32,
}
impl W {
    pub fn obs(&mut self, key: &str, val: &str) {
        self.rec('O', key, val)
    }
    pub fn viol(&mut self, class: &str, msg: &str) {
        self.rec('V', class, msg)
    }
    pub fn count(&mut self, key: &str, n: u64) {
        self.rec('C', key, &n.to_string())
    }
    fn rec(&mut self, c: char, k: &str, v: &str) {
        self.out.extend_from_slice(format!("{c}{:08x}{:08x}", k.len(), v.len()).as_bytes());
        self.out.extend_from_slice(k.as_bytes());
        self.out.extend_from_slice(v.as_bytes());
    }
    pub fn flush(&mut self) {
        let mut o = 0;
        while o < self.out.len() {
            let n = unsafe { libc::write(self.fd, self.out[o..].as_ptr() as *const _, self.out.len() - o) };
            if n <= 0 {
                unsafe { libc::_exit(70) }
            }
            o += n as usize
        }
        self.out.clear();
    }
    pub fn finish(&mut self) {
        let s = rt::sim();
        for i in 0..rt::NK {
            if s.k[i] > 0 {
                let n = s.k[i];
                self.count(rt::KNAMES[i], n)
            }
        }
        self.count("~points", s.th.iter().map(|t| t.points).sum());
        self.count("~allocs", s.th.iter().map(|t| t.allocs).sum());
        let h = s.trace ^ rt::alloc_hash().rotate_left(7);
        self.rec('H', "trace", &h.to_string());
        self.rec('E', "", "");
        self.flush();
    }
}

#[derive(Debug)]
pub struct Res {
    pub end: End,
    pub step: u32,
    pub obs: Vec<(String, String)>,
    pub viol: Option<(String, String)>,
    pub k: BTreeMap<String, u64>,
    pub trace: u64,
}
impl Res {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.obs.iter().find(|o| o.0 == k).map(|o| o.1.as_str())
    }
    pub fn map(&self) -> BTreeMap<&str, &str> {
        self.obs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect()
    }
}

pub fn quiet() -> bool {
    static mut Q: i32 = -1;
    unsafe {
        if Q < 0 {
            Q = std::env::var_os("SIM_DEBUG").is_none() as i32
        }
        Q == 1
    }
}

pub fn world(cfg: &rt::Cfg, cpu_s: u64, body: impl FnOnce(&mut W)) -> Res {
    let mut fds = [0; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        (*rt::PAGE).step = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            if quiet() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
                libc::close(n);
            }
            let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            rt::setup(cfg);
            let mut w = W { out: vec![], fd: fds[1] };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut w)));
            rt::set_mode(rt::HAR);
            if let Err(p) = r {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                w.rec('P', "panic", &m.unwrap_or_default());
                w.flush();
                libc::_exit(70)
            }
            w.finish();
            libc::_exit(0)
        }
        libc::close(fds[1]);
        let mut buf = vec![0u8; 1 << 16];
        let mut data = vec![];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut r =
            Res { end: End::Ok, step: (*rt::PAGE).step, obs: vec![], viol: None, k: BTreeMap::new(), trace: 0 };
        let mut done = false;
        let mut o = 0;
        while o + 17 <= data.len() {
            let hex = |a: usize| usize::from_str_radix(std::str::from_utf8(&data[a..a + 8]).unwrap(), 16).unwrap();
            let (c, kl, vl) = (data[o], hex(o + 1), hex(o + 9));
            o += 17;
            let k = String::from_utf8_lossy(&data[o..o + kl]).into_owned();
            let v = String::from_utf8_lossy(&data[o + kl..o + kl + vl]).into_owned();
            o += kl + vl;
            match c {
                b'O' => r.obs.push((k, v)),
                b'V' => {
                    if r.viol.is_none() {
                        r.viol = Some((k, v))
                    }
                }
                b'C' => *r.k.entry(k).or_insert(0) += v.parse::<u64>().unwrap(),
                b'H' => r.trace = v.parse().unwrap(),
                b'E' => done = true,
                b'P' => {
                    eprintln!("harness panic in a world: {v}");
                }
                _ => (),
            }
        }
        r.end = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                s if s == libc::SIGXCPU || s == libc::SIGKILL => End::Cpu,
                s => End::Signal(s),
            }
        } else {
            match libc::WEXITSTATUS(st) {
                0 if done => End::Ok,
                rt::X_BUDGET => End::Budget,
                rt::X_CORRUPT => End::Corrupt,
                rt::X_DEADLOCK => End::Deadlock,
                x => End::Exit(x),
            }
        };
        if let End::Exit(70) = r.end {
            panic!("harness error in a world");
        }
        r
    }
}
