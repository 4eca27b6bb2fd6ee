//! A plan is everything that decides a run, written out: the replay file.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Line {
    pub head: String,
    pub f: Vec<(String, String)>,
    pub tree: Option<String>,
}
impl Line {
    pub fn new(head: &str) -> Line {
        Line { head: head.into(), f: vec![], tree: None }
    }
    pub fn w(mut self, k: &str, v: impl ToString) -> Line {
        self.set(k, v);
        self
    }
    pub fn l(mut self, k: &str, v: &[i64]) -> Line {
        let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        self.set(k, s.join(","));
        self
    }
    pub fn t(mut self, t: String) -> Line {
        self.tree = Some(t);
        self
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        let v = v.to_string();
        match self.f.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v,
            None => self.f.push((k.into(), v)),
        }
    }
    pub fn word(&self, k: &str) -> &str {
        self.f.iter().find(|x| x.0 == k).map(|x| x.1.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> i64 {
        self.word(k).parse().unwrap_or(0)
    }
    pub fn nums(&self, k: &str) -> Vec<i64> {
        self.word(k).split(',').filter_map(|x| x.parse().ok()).collect()
    }
    pub fn n3(&self) -> [i64; 3] {
        let v = self.nums("n");
        [v.first().copied().unwrap_or(0), v.get(1).copied().unwrap_or(0), v.get(2).copied().unwrap_or(0)]
    }
    pub fn text(&self) -> String {
        let mut s = self.head.clone();
        for (k, v) in &self.f {
            s.push_str(&format!(" {k}={v}"));
        }
        if let Some(t) = &self.tree {
            s.push_str(" e=");
            s.push_str(t)
        }
        s
    }
    pub fn parse(s: &str) -> Option<Line> {
        let (pre, tree) = match s.find(" e=") {
            Some(i) => (&s[..i], Some(s[i + 3..].to_string())),
            None => (s, None),
        };
        let mut it = pre.split(' ').filter(|x| !x.is_empty());
        let mut l = Line::new(it.next()?);
        for x in it {
            let (k, v) = x.split_once('=')?;
            l.f.push((k.into(), v.into()));
        }
        l.tree = tree;
        Some(l)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub lines: Vec<Line>,
}
impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan { prop: prop.into(), seed, lines: vec![] }
    }
    pub fn push(&mut self, l: Line) {
        self.lines.push(l)
    }
    pub fn all<'a>(&'a self, h: &'a str) -> impl Iterator<Item = &'a Line> + 'a {
        self.lines.iter().filter(move |l| l.head == h)
    }
    pub fn one(&self, h: &str) -> Option<&Line> {
        self.lines.iter().find(|l| l.head == h)
    }
    /// number `k` of line `h`, or the default
    pub fn opt(&self, h: &str, k: &str, d: i64) -> i64 {
        match self.one(h) {
            Some(l) if !l.word(k).is_empty() => l.num(k),
            _ => d,
        }
    }
    pub fn text(&self) -> String {
        let mut s = format!("plan {} seed={}\n", self.prop, self.seed);
        for l in &self.lines {
            s.push_str(&l.text());
            s.push('\n')
        }
        s
    }
    pub fn parse(s: &str) -> Option<Plan> {
        let mut it = s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#'));
        let h = it.next()?;
        let mut w = h.split(' ');
        if w.next()? != "plan" {
            return None;
        }
        let prop = w.next()?.to_string();
        let seed = w.next()?.strip_prefix("seed=")?.parse().ok()?;
        let mut p = Plan { prop, seed, lines: vec![] };
        for l in it {
            p.lines.push(Line::parse(l)?)
        }
        Some(p)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for b in self.text().bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3)
        }
        h
    }
}

/// Smaller candidates for one line, simplest first.
pub fn shrink_line(l: &Line, shrink_tree: &dyn Fn(&str) -> Vec<String>) -> Vec<Line> {
    let mut r = vec![];
    for (i, (k, v)) in l.f.iter().enumerate() {
        if k == "op" || k == "t" {
            continue;
        }
        let ns: Vec<Option<i64>> = v.split(',').map(|x| x.parse().ok()).collect();
        if ns.iter().any(|x| x.is_none()) {
            continue;
        }
        let ns: Vec<i64> = ns.into_iter().flatten().collect();
        for (j, x) in ns.iter().enumerate() {
            let mut c = vec![];
            if *x != 0 {
                c.push(0);
                if *x / 2 != 0 {
                    c.push(*x / 2)
                }
                c.push(x - x.signum());
            }
            for y in c {
                let mut m = ns.clone();
                m[j] = y;
                let mut n = l.clone();
                n.f[i].1 = m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                r.push(n)
            }
        }
    }
    if let Some(t) = &l.tree {
        for c in shrink_tree(t) {
            let mut n = l.clone();
            n.tree = Some(c);
            r.push(n)
        }
    }
    r
}
