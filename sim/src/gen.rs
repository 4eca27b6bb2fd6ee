//! Generation of specification trees.
use crate::rng::Rng;
use calcu_ops::tree::{n, T};

const NAMES: [[&str; 7]; 5] = [
    ["x", "y", "z", "a", "b", "c", "w"],
    ["aa", "bb", "ab", "ba", "x1", "x2", "zz"],
    ["alpha", "beta", "gamma", "delta", "omega", "theta", "sigma"],
    ["e", "pi", "i", "ln", "E", "undef", "sin"],
    [
        "a_long_name_of_a_quantity_1", "a_long_name_of_a_quantity_2", "b_long_name_of_a_quantity_1", "x_of_the_first_particle_in_the_box",
        "y_of_the_first_particle_in_the_box", "x_of_the_other_particle_in_the_box", "A_LONG_NAME_OF_A_QUANTITY_1",
    ],
];

#[derive(Clone)]
pub struct G {
    pub vars: Vec<String>,
    /// what variables of this run are called
    pub names: [&'static str; 7],
    pub big_nums: bool,
    pub undef: bool,
}
impl G {
    pub fn new(r: &mut Rng) -> G {
        let all = if r.chance(1, 4) { *r.pick(&NAMES) } else { NAMES[0] };
        let k = 1 + r.below(4);
        let o = r.below(all.len());
        G { vars: (0..k).map(|i| all[(o + i) % all.len()].to_string()).collect(), names: all, big_nums: false, undef: false }
    }
    pub fn var(&self, r: &mut Rng) -> T {
        T::V(r.pick(&self.vars).clone())
    }
    pub fn num(&self, r: &mut Rng) -> T {
        if self.big_nums && r.chance(1, 4) {
            return big(r);
        }
        match r.below(12) {
            0 => n(0),
            1..=2 => n(1),
            3..=4 => n(2),
            5 => n(-1),
            6 => n(r.range(-5, 9) as i128),
            7 => n(r.range(2, 40) as i128),
            8..=9 => norm(r.range(-5, 7) as i128, r.range(2, 5) as i128),
            10 => n(-2),
            _ => n(3),
        }
    }
    pub fn leaf(&self, r: &mut Rng) -> T {
        match r.below(20) {
            0 => T::E,
            1 => T::Pi,
            2 if self.undef => T::U,
            2..=7 => self.num(r),
            _ => self.var(r),
        }
    }
    pub fn monomial(&self, r: &mut Rng) -> T {
        let mut a = vec![];
        if r.chance(2, 3) {
            a.push(self.num(r))
        }
        for _ in 0..1 + r.below(2) {
            let v = self.var(r);
            a.push(if r.chance(1, 2) { T::W(Box::new(v), Box::new(n(r.range(2, 4) as i128))) } else { v });
        }
        if a.len() == 1 {
            a.pop().unwrap()
        } else {
            T::M(a)
        }
    }
    pub fn poly(&self, r: &mut Rng, terms: usize) -> T {
        let mut a: Vec<T> = (0..terms).map(|_| self.monomial(r)).collect();
        if r.chance(1, 2) {
            a.push(self.num(r))
        }
        T::S(a)
    }
    /// a tree of roughly the given size
    pub fn tree(&self, r: &mut Rng, size: usize) -> T {
        if size <= 1 {
            return self.leaf(r);
        }
        let split = |r: &mut Rng, g: &G, k: usize| -> Vec<T> {
            let mut left = size - 1;
            let mut v = vec![];
            for i in 0..k {
                let s = if i + 1 == k { left.max(1) } else { 1 + r.below(left.max(1).min(size / k * 2).max(1)) };
                left = left.saturating_sub(s);
                v.push(g.tree(r, s));
            }
            if k > 1 && r.chance(1, 10) {
                // the same again, next to it or elsewhere
                let (i, j) = (r.below(k), r.below(k));
                v[i] = v[j].clone();
            }
            v
        };
        match r.below(24) {
            0..=5 => {
                let k = 2 + r.below(3);
                T::S(split(r, self, k))
            }
            6..=11 => {
                let k = 2 + r.below(3);
                T::M(split(r, self, k))
            }
            12..=14 => {
                let b = self.tree(r, size - 2);
                let e = match r.below(8) {
                    0 => n(-1),
                    1 => n(-2),
                    2 => norm(1, 2),
                    3 => norm(r.range(-3, 5) as i128, 2),
                    4 => self.var(r),
                    _ => n(r.range(2, 4) as i128),
                };
                T::W(Box::new(b), Box::new(e))
            }
            15 => {
                let b = self.leaf(r);
                T::W(Box::new(b), Box::new(self.tree(r, size - 2)))
            }
            16 => T::W(Box::new(T::E), Box::new(self.tree(r, size - 2))),
            17..=18 => {
                let k = *r.pick(&[0u8, 0, 0, 2, 2, 2, 4, 6, 8, 10, 1, 3, 5, 7, 9, 11]);
                T::F(k, Box::new(self.tree(r, size - 1)))
            }
            19 => {
                T::L(Box::new(self.base(r)), Box::new(self.tree(r, size - 1)))
            }
            20..=21 => self.poly(r, (size / 3).clamp(2, 6)),
            22 => {
                // trigonometric products and powers
                let arg = |r: &mut Rng, g: &G| {
                    let v = g.var(r);
                    match r.below(4) {
                        0 => T::M(vec![n(r.range(2, 4) as i128), v]),
                        1 => T::S(vec![v, g.var(r)]),
                        _ => v,
                    }
                };
                let k = 2 + r.below(size / 5 + 1).min(2);
                let f: Vec<T> = (0..k)
                    .map(|_| {
                        let f = T::F(*r.pick(&[0u8, 0, 2, 2, 0, 2, 4]), Box::new(arg(r, self)));
                        match r.below(4) {
                            0 => T::W(Box::new(f), Box::new(n(r.range(2, 6) as i128))),
                            _ => f,
                        }
                    })
                    .collect();
                let t = T::M(f);
                match r.below(6) {
                    0 => T::S(vec![t, self.var(r)]),
                    1 => T::W(Box::new(T::E), Box::new(T::M(vec![n(r.range(-3, 4) as i128), T::S(vec![arg(r, self), arg(r, self)])]))),
                    _ => t,
                }
            }
            _ => {
                // odd but legal shapes
                match r.below(5) {
                    0 => T::S(vec![self.tree(r, size - 1)]),
                    1 => T::M(vec![self.tree(r, size - 1)]),
                    2 => T::M(vec![]),
                    3 => T::S(vec![]),
                    _ => T::W(Box::new(self.tree(r, size - 2)), Box::new(n(1))),
                }
            }
        }
    }
    /// A tree of roughly the given size; now and then one that is far larger,
    /// deeper or odder than that.
    pub fn subject(&self, r: &mut Rng, size: usize) -> T {
        if r.chance(1, 28) {
            self.rare(r)
        } else {
            self.tree(r, size)
        }
    }
    pub fn rare(&self, r: &mut Rng) -> T {
        match r.below(8) {
            0..=2 => {
                // many terms or factors
                let n_terms = *r.pick(&[9usize, 12, 17, 24, 33, 48, 65, 80]) + r.below(3) - 1;
                let kind = r.below(6);
                let stem = *r.pick(&["v", "x", "t_", "Q"]);
                let a: Vec<T> = (0..n_terms)
                    .map(|i| {
                        let v = T::V(format!("{stem}{i}"));
                        match if kind == 5 { r.below(5) } else { kind } {
                            0 => v,
                            1 => T::M(vec![self.num(r), v]),
                            2 => T::W(Box::new(self.var(r)), Box::new(n(i as i128 + 2))),
                            3 => T::F(*r.pick(&[0u8, 2, 4, 6]), Box::new(v)),
                            _ => T::W(Box::new(v), Box::new(n(2))),
                        }
                    })
                    .collect();
                if r.chance(2, 3) {
                    T::S(a)
                } else {
                    T::M(a)
                }
            }
            3..=4 => {
                // deep
                let depth = *r.pick(&[6usize, 9, 12, 17, 24, 33, 50, 65]);
                let kind = r.below(6);
                let mut t = self.leaf(r);
                for i in 0..depth {
                    t = match if kind == 5 { r.below(5) } else { kind } {
                        0 => T::F(*r.pick(&[0u8, 2, 4, 6]), Box::new(t)),
                        1 => T::S(vec![T::F(0, Box::new(t)), self.var(r)]),
                        2 => T::W(Box::new(T::S(vec![t, n(1)])), Box::new(n(-1))),
                        3 => T::W(Box::new(self.var(r)), Box::new(t)),
                        _ if i % 2 == 0 => T::S(vec![t, self.var(r)]),
                        _ => T::M(vec![t, self.var(r)]),
                    }
                }
                t
            }
            5 => {
                // odd names
                let mut t = self.tree(r, 6);
                let (a, b) = (odd_name(r), odd_name(r));
                let first = self.vars[0].clone();
                t.rename(&|v| if v == first { a.clone() } else { b.clone() });
                t
            }
            6 => {
                let mut g = self.clone();
                g.big_nums = true;
                g.tree(r, 8)
            }
            _ => {
                // the same part many times
                let part = self.tree(r, 4);
                let k = 2 + r.below(12);
                let a: Vec<T> = (0..k)
                    .map(|i| match r.below(3) {
                        0 => part.clone(),
                        1 => T::M(vec![n(i as i128 + 1), part.clone()]),
                        _ => T::W(Box::new(part.clone()), Box::new(n(i as i128 + 1))),
                    })
                    .collect();
                if r.chance(1, 2) {
                    T::S(a)
                } else {
                    T::M(a)
                }
            }
        }
    }
    /// of a logarithm
    fn base(&self, r: &mut Rng) -> T {
        match r.below(12) {
            0 | 1 => n(10),
            2 => n(2),
            3 => T::Pi,
            4 => norm(1, 2),
            5 => n(2 + r.below(40) as i128),
            6 => self.num(r),
            7 => n(*r.pick(&[100, 256, 357, 1000, 12345, 1 << 40])),
            _ => T::E,
        }
    }
    /// the same shape, made of parts of the same size, but another expression:
    /// built after the first is gone, it lies at the same addresses
    pub fn twin(&self, r: &mut Rng, t: &T) -> T {
        let mut t = t.clone();
        let one = r.chance(1, 2); // one spot, or many
        let k = r.below(t.size());
        let mut i = 0;
        self.twist(r, &mut t, &mut i, if one { Some(k) } else { None });
        t
    }
    fn twist(&self, r: &mut Rng, t: &mut T, i: &mut usize, at: Option<usize>) {
        let here = match at {
            Some(k) => k == *i,
            None => r.chance(1, 2),
        };
        *i += 1;
        match t {
            T::F(k, _) if here => *k = (*k & 1) | (*r.pick(&[0u8, 0, 2, 2, 4, 6, 8, 10])),
            T::V(s) if here => *s = r.pick(&self.names).to_string(),
            T::L(b, _) if here => **b = self.base(r),
            T::N(_, _) if here => *t = self.num(r),
            T::S(a) if here && r.chance(1, 2) => *t = T::M(std::mem::take(a)),
            T::M(a) if here && r.chance(1, 2) => *t = T::S(std::mem::take(a)),
            T::S(a) | T::M(a) if here && a.len() > 1 => {
                let k = r.below(a.len());
                a.rotate_left(k)
            }
            _ => (),
        }
        for c in t.children_mut() {
            self.twist(r, c, i, at)
        }
    }
    /// the same with one spot changed
    pub fn variant(&self, r: &mut Rng, t: &T) -> T {
        let mut t = t.clone();
        let k = r.below(t.size());
        let sub = if r.chance(1, 2) { self.leaf(r) } else { self.tree(r, 3) };
        replace(&mut t, &mut k.clone(), &sub);
        t
    }
}

pub fn replace(t: &mut T, k: &mut usize, s: &T) -> bool {
    if *k == 0 {
        // bases of logarithms stay numbers
        *t = s.clone();
        return true;
    }
    *k -= 1;
    if let T::L(_, a) = t {
        return replace(a, k, s);
    }
    for c in t.children_mut() {
        if replace(c, k, s) {
            return true;
        }
    }
    false
}

pub fn norm(a: i128, b: i128) -> T {
    if a == 0 {
        return n(0);
    }
    let (mut x, mut y) = (a.abs(), b.abs());
    while y != 0 {
        (x, y) = (y, x % y)
    }
    let s = if b < 0 { -1 } else { 1 };
    T::N(s * a / x, s * b / x)
}

pub fn big(r: &mut Rng) -> T {
    let v = |r: &mut Rng| -> i128 {
        match r.below(9) {
            0 => i64::MAX as i128 + r.range(-2, 2) as i128,
            1 => i64::MIN as i128 + r.range(-2, 2) as i128,
            2 => u64::MAX as i128 + r.range(-2, 2) as i128,
            3 => i128::MAX - r.range(0, 3) as i128,
            4 => i128::MIN + r.range(1, 3) as i128,
            5 => (1i128 << 53) + r.range(-2, 2) as i128,
            6 => i32::MAX as i128 + r.range(-2, 2) as i128,
            7 => ((r.u() as i128) << 64 | r.u() as i128) >> r.below(120),
            _ => r.u() as i128 >> r.below(60),
        }
    };
    let a = v(r);
    if r.chance(1, 2) {
        n(a)
    } else {
        let mut b = v(r);
        if b == 0 || b == i128::MIN {
            b = 3
        }
        if a == i128::MIN {
            return n(a);
        }
        norm(a, b)
    }
}

/// names that exercise quoting, lengths, and words that mean something
pub fn odd_name(r: &mut Rng) -> String {
    let s = [
        "", " ", "\"", "\\", "a\"b", "\\n", "\n", "\t", "π", "𝓮", "x'", "{}", "{x}", "%s", "null", "#e", "args", "\u{0}", "\u{1f}",
        "\u{7f}", "é", "e\u{301}", "日本", "x y", "[1,2]", "-1", "1", "true", "/", "\u{2028}", "a\\u0041", "very_long_name_0123456789_0123456789_0123456789_0123456789",
        "\r", "\r\n", "\u{feff}x", "x\u{200d}", "\u{fffd}", "\u{10ffff}", "'", "`", "$x", "x_1", "x;y", "x,y", "(x)", "x+y", "_", "__", "1e5", "0.5", "X", "Σ",
        "ß", "ǅ", "\u{1b}[0m", "&amp;", "<x>",
    ];
    const WORDS: [&str; 44] = [
        "e", "pi", "E", "PI", "Pi", "π", "i", "I", "inf", "oo", "nan", "NaN", "undef", "Undef", "undefined", "∞", "⊥", "sin", "cos", "tan", "log", "ln", "exp", "sqrt", "Sin", "Log",
        "arcsin", "Var", "Sum", "Prod", "Pow", "Func", "Rational", "Irrational", "atom", "numer", "denom", "d", "dx", "hole", "none", "None", "false", "default",
    ];
    match r.below(8) {
        0..=3 => r.pick(&s).to_string(),
        4 => r.pick(&WORDS).to_string(),
        5 => {
            // of a length around a power of two, or a round number
            let n = match r.below(3) {
                0 => r.pick(&[10usize, 20, 50, 100, 200, 500, 1000, 2000]) + r.below(3) - 1,
                _ => (1 << r.below(13)) + r.below(3) - 1,
            };
            let c = *r.pick(&['n', 'é', ' ', '\\', '_']);
            (0..n / c.len_utf8() + 1).map(|i| if i % 10 == 3 { 'k' } else { c }).collect()
        }
        6 => {
            let pick = |r: &mut Rng| match r.below(6) {
                0 => char::from(r.below(128) as u8),
                1 => char::from_u32(r.below(0x300) as u32).unwrap_or('x'),
                2 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                _ => char::from(b'a' + r.below(26) as u8),
            };
            (0..1 + r.below(6)).map(|_| pick(r)).collect()
        }
        _ => format!("{}{}", r.pick(&s), r.pick(&WORDS)),
    }
}

pub fn shrink_tree(t: &T) -> Vec<T> {
    let mut r = vec![];
    for c in t.children() {
        r.push(c.clone())
    }
    if t.size() > 1 {
        r.push(T::V("x".into()));
        r.push(n(2));
    }
    match t {
        T::S(a) | T::M(a) if a.len() > 1 => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                r.push(if let T::S(_) = t { T::S(b) } else { T::M(b) })
            }
        }
        T::N(a, b) if *a != 2 || *b != 1 => {
            r.push(n(2));
            if *b != 1 {
                r.push(n(*a))
            }
        }
        T::V(s) if s != "x" => r.push(T::V("x".into())),
        _ => (),
    }
    // shrink inside
    let k = t.children().len();
    for i in 0..k {
        let c = t.children()[i].clone();
        if let (T::L(..), 0) = (t, i) {
            continue;
        }
        for s in shrink_tree(&c) {
            let mut u = t.clone();
            let mut cm = u.children_mut();
            let j = if let T::L(..) = t { i } else { i };
            *cm[j] = s;
            r.push(u)
        }
        if r.len() > 200 {
            break;
        }
    }
    r
}
