//! Integer expressions: a tree, its text, and what it is worth by the rules of the C language. None of this shares
//! anything with the program's own evaluator.
use serde::{Deserialize, Serialize};
use simstd::rt::Rng;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    /// a constant that is not negative, and how it is written
    C(i64, u8),
    V(char),
    /// element of an array
    A(char, Box<E>),
    U(char, Box<E>),
    /// operator, operands, spaces around it
    B(String, Box<E>, Box<E>, u8),
    P(Box<E>),
}

/// no value
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    /// goes beyond what is worth comparing (about 64 bits)
    Huge,
    Zero,
    Negative,
}

fn prec(o: &str) -> u8 {
    match o {
        "*" | "/" | "%" => 10,
        "+" | "-" => 9,
        "<<" | ">>" => 8,
        "<" | "<=" | ">" | ">=" => 7,
        "&" => 5,
        "^" => 4,
        "|" => 3,
        _ => unreachable!(),
    }
}

fn thousands(n: i64) -> String {
    let s = n.to_string();
    let mut v = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            v.push('_');
        }
        v.push(c);
    }
    v
}

fn constant(n: i64, style: u8) -> String {
    match style {
        1 => format!("0x{n:x}"),
        2 => format!("0x{n:X}"),
        3 => format!("0o{n:o}"),
        4 => format!("0{n:o}"),
        5 => format!("0b{n:b}"),
        6 => format!("0d{n}"),
        7 => thousands(n),
        8 => {
            let s = format!("{n:b}");
            let k = s.len() / 2;
            if k == 0 { format!("0b{s}") } else { format!("0b{}_{}", &s[..k], &s[k..]) }
        }
        9 => {
            for (k, c) in [(1_000_000_000_000_000_000, "E"), (1_000_000_000, "G"), (1_000_000, "M"), (1000, "k")] {
                if n > 0 && n % k == 0 {
                    return format!("{}{c}", n / k);
                }
            }
            n.to_string()
        }
        10 => {
            for (k, c) in [(60, "Ei"), (30, "Gi"), (20, "Mi"), (10, "ki")] {
                if n > 0 && n % (1 << k) == 0 {
                    return format!("{}{c}", n >> k);
                }
            }
            n.to_string()
        }
        11 => {
            if n > 0 && n % 1024 == 0 {
                return format!("0x{:x}ki", n / 1024);
            }
            format!("0x{n:x}")
        }
        _ => n.to_string(),
    }
}

impl E {
    pub fn c(n: i64) -> E {
        if n < 0 { E::U('-', Box::new(E::C(-n, 0))) } else { E::C(n, 0) }
    }
    pub fn b(o: &str, l: E, r: E) -> E {
        E::B(o.to_string(), Box::new(l), Box::new(r), 3)
    }
    pub fn u(o: char, x: E) -> E {
        E::U(o, Box::new(x))
    }
    pub fn show(&self) -> String {
        self.text(0)
    }
    fn text(&self, p: u8) -> String {
        match self {
            E::C(n, s) => constant(*n, *s),
            E::V(c) => c.to_string(),
            E::A(c, i) => format!("{c}[{}]", i.text(0)),
            E::U(o, x) => {
                let s = x.text(11);
                // "--" and "++" are something else in C
                if s.starts_with(*o) { format!("{o}({s})") } else { format!("{o}{s}") }
            }
            E::B(o, l, r, sp) => {
                let q = prec(o);
                let mut rs = r.text(q + 1);
                if sp & 2 == 0 && rs.starts_with(o.as_str()) {
                    rs = format!("({rs})");
                }
                let a = if sp & 1 != 0 { " " } else { "" };
                let b = if sp & 2 != 0 { " " } else { "" };
                let s = format!("{}{a}{o}{b}{rs}", l.text(q));
                if q < p { format!("({s})") } else { s }
            }
            E::P(x) => format!("({})", x.text(0)),
        }
    }
    pub fn eval(&self, get: &mut dyn FnMut(char, i64) -> i64) -> Result<i64, Stop> {
        let v: i128 = match self {
            E::C(n, _) => *n as i128,
            E::V(c) => get(*c, 0) as i128,
            E::A(c, i) => {
                let i = i.eval(get)?;
                if i < 0 {
                    return Err(Stop::Negative);
                }
                if i > 1 << 40 {
                    return Err(Stop::Huge);
                }
                get(*c, i) as i128
            }
            E::U(o, x) => {
                let x = x.eval(get)? as i128;
                match o {
                    '-' => -x,
                    '~' => !x,
                    _ => x,
                }
            }
            E::P(x) => x.eval(get)? as i128,
            E::B(o, l, r, _) => {
                let (x, y) = (l.eval(get)? as i128, r.eval(get)? as i128);
                match o.as_str() {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    "/" | "%" if y == 0 => return Err(Stop::Zero),
                    "/" => x / y,
                    "%" => x % y,
                    "<<" | ">>" if !(0..63).contains(&y) => return Err(Stop::Huge),
                    "<<" => x << y,
                    ">>" => x >> y,
                    "<" => (x < y) as i128,
                    "<=" => (x <= y) as i128,
                    ">" => (x > y) as i128,
                    ">=" => (x >= y) as i128,
                    "&" => x & y,
                    "^" => x ^ y,
                    "|" => x | y,
                    _ => unreachable!(),
                }
            }
        };
        if v.abs() >= 1 << 62 { Err(Stop::Huge) } else { Ok(v as i64) }
    }
    pub fn has_var(&self) -> bool {
        match self {
            E::C(..) => false,
            E::V(_) | E::A(..) => true,
            E::U(_, x) | E::P(x) => x.has_var(),
            E::B(_, l, r, _) => l.has_var() || r.has_var(),
        }
    }
    /// smaller trees to try when a failure is being minimised
    pub fn smaller(&self) -> Vec<E> {
        let mut v = vec![];
        match self {
            E::C(n, s) => {
                if *s != 0 {
                    v.push(E::C(*n, 0));
                }
                if *n > 1 {
                    v.push(E::C(1, 0));
                    v.push(E::C(n / 2, *s));
                }
            }
            E::V(_) => v.push(E::C(1, 0)),
            E::A(c, i) => {
                v.push(E::C(1, 0));
                v.extend(i.smaller().into_iter().map(|i| E::A(*c, Box::new(i))));
            }
            E::U(o, x) => {
                v.push((**x).clone());
                v.extend(x.smaller().into_iter().map(|x| E::U(*o, Box::new(x))));
            }
            E::P(x) => {
                v.push((**x).clone());
                v.extend(x.smaller().into_iter().map(|x| E::P(Box::new(x))));
            }
            E::B(o, l, r, sp) => {
                v.push((**l).clone());
                v.push((**r).clone());
                if *sp != 3 {
                    v.push(E::B(o.clone(), l.clone(), r.clone(), 3));
                }
                v.extend(l.smaller().into_iter().map(|l| E::B(o.clone(), Box::new(l), r.clone(), *sp)));
                v.extend(r.smaller().into_iter().map(|r| E::B(o.clone(), l.clone(), Box::new(r), *sp)));
            }
        }
        v
    }
}

pub fn rand_const(r: &mut Rng) -> E {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 255,
        3 => 65535,
        4 => (1 + r.below(9) as i64) * 1000,
        5 => (1 + r.below(9) as i64) << 10,
        6 => r.below(4000) as i64,
        _ => r.below(20) as i64,
    };
    let style = if r.pct(30) { r.below(12) as u8 } else { 0 };
    // what the long suffixes and the long binary numbers stand for
    if r.below(60) == 0 {
        let (n, k) = match r.below(5) {
            0 => (1_000_000_000_000_000_000i64, 1_000_000_000_000_000),
            1 => (3 << 60, 1 << 50),
            2 => (7_000_000_000, 1_000_000),
            3 => (5 << 30, 1 << 25),
            _ => ((1 << 40) + 12345, 1 << 33),
        };
        let s = match n {
            x if x == 3 << 60 || x == 5 << 30 => 10,
            x if x % 1000 == 0 => 9,
            _ => 5,
        };
        return E::b("/", E::C(n & ((1 << 62) - 1), s), E::C(k, 0));
    }
    E::C(n, style)
}

fn spaces(r: &mut Rng) -> u8 {
    if r.pct(60) { 3 } else { r.below(4) as u8 }
}

const OPS: [&str; 14] = ["+", "-", "*", "/", "%", "<<", ">>", "<", "<=", ">", ">=", "&", "^", "|"];

/// any expression over the leaves
pub fn rand_expr(r: &mut Rng, depth: u32, leaf: &mut dyn FnMut(&mut Rng) -> E) -> E {
    if depth == 0 || r.below(5) == 0 {
        return if r.pct(60) { leaf(r) } else { rand_const(r) };
    }
    let e = match r.below(11) {
        0 | 10 => E::u(['-', '~', '+', '-'][r.below(4) as usize], rand_expr(r, depth - 1, leaf)),
        k => {
            // chains of the same operators are what gets rearranged
            let o = if k < 4 { OPS[r.below(3) as usize] } else { OPS[r.below(14) as usize] };
            let mut x = rand_expr(r, depth - 1, leaf);
            let y = match o {
                // the values at which an operation does nothing (or seems so), or drops everything
                _ if r.below(5) == 0 => {
                    let y = special(r, o);
                    if matches!(o, "+" | "-" | "*" | "&" | "|" | "^") && r.below(3) == 0 {
                        std::mem::replace(&mut x, y)
                    } else {
                        y
                    }
                }
                "/" | "%" => E::c(1 + r.below(12) as i64),
                "<<" => E::c(r.below(12) as i64),
                ">>" => E::c(r.below(20) as i64),
                _ => rand_expr(r, depth - 1, leaf),
            };
            E::B(o.to_string(), Box::new(x), Box::new(y), spaces(r))
        }
    };
    if r.below(12) == 0 { E::P(Box::new(e)) } else { e }
}

fn special(r: &mut Rng, o: &str) -> E {
    let k = r.below(63);
    let n = match o {
        "/" | "%" => [1, -1, 2, 1 << (k % 12), 1 << k, -3][r.below(6) as usize],
        "<<" | ">>" => [0, 1, 31, 32, 33, 63, 8][r.below(7) as usize],
        "&" | "|" | "^" => {
            let m = (1i64 << k) - 1;
            [0, -1, 1, 0xff, 0xffff, 0xffff_ffff, 0x7fff_ffff, m, !m, 1 << k, 0x8000_0000][r.below(11) as usize]
        }
        "*" => [0, 1, -1, 2][r.below(4) as usize],
        _ => [0, 0, 1, -1][r.below(4) as usize],
    };
    match n {
        0.. => E::C(n, if r.pct(30) { r.below(12) as u8 } else { 0 }),
        -1 if r.pct(50) => E::u('~', E::c(0)),
        _ => E::u('-', E::c(n.wrapping_neg())),
    }
}

/// an expression without variables that is worth n
pub fn worth(r: &mut Rng, n: i64, depth: u32) -> E {
    let lit = |r: &mut Rng, n: i64| {
        let s = if r.pct(40) { r.below(12) as u8 } else { 0 };
        if n < 0 { E::u('-', E::C(n.wrapping_neg(), s)) } else { E::C(n, s) }
    };
    if depth == 0 || n.unsigned_abs() >= 1 << 40 || r.below(6) == 0 {
        return lit(r, n);
    }
    let d = depth - 1;
    let lim = if r.pct(80) { 60 } else { 60_000 };
    let a = r.below(lim) as i64;
    let e = match r.below(16) {
        0 => E::b("+", worth(r, a, d), worth(r, n - a, d)),
        1 => E::b("-", worth(r, n + a, d), worth(r, a, d)),
        2 => {
            let k = 2 + r.below(9) as i64;
            E::b("+", E::b("*", worth(r, n / k, d), worth(r, k, d)), worth(r, n % k, d))
        }
        3 => E::u('~', worth(r, !n, d)),
        4 => E::u('-', worth(r, -n, d)),
        5 => E::b("^", worth(r, n ^ a, d), worth(r, a, d)),
        6 => E::b("|", worth(r, n & a, d), worth(r, n & !a, d)),
        7 => E::b("&", worth(r, n | a, d), worth(r, n | !a, d)),
        8 => {
            let k = r.below(9) as i64;
            let x = (n << k) + r.below(1 << k) as i64;
            E::b(">>", worth(r, x, d), worth(r, k, 0))
        }
        9 => {
            let k = r.below(9) as i64;
            E::b("+", E::b("<<", worth(r, n >> k, d), worth(r, k, 0)), worth(r, n - ((n >> k) << k), d))
        }
        10 if n >= 0 => {
            let k = 1 + r.below(40) as i64;
            let x = n * k + r.below(k as u64) as i64;
            E::b("/", worth(r, x, d), worth(r, k, d))
        }
        11 if n >= 0 => {
            let m = n + 1 + a;
            let x = n + m * r.below(9) as i64;
            E::b("%", worth(r, x, d), worth(r, m, d))
        }
        12 | 13 => {
            let o = OPS[7 + r.below(4) as usize];
            let y = r.below(60) as i64;
            let c = E::b(o, worth(r, a, d), worth(r, y, d));
            let v = c.eval(&mut |_, _| 0).unwrap_or(0);
            E::b("+", worth(r, n - v, d), c)
        }
        14 => E::u('+', worth(r, n, d)),
        _ => E::P(Box::new(worth(r, n, d))),
    };
    let e = match e {
        E::B(o, l, r2, _) => E::B(o, l, r2, spaces(r)),
        e => e,
    };
    debug_assert_eq!(e.eval(&mut |_, _| 0), Ok(n));
    e
}

/// no expression at all; `e` is a sound one within parentheses
pub fn broken(r: &mut Rng, e: &str) -> String {
    match r.below(40) {
        0 => String::new(),
        1 => format!("{e} +"),
        2 => format!("* {e}"),
        3 => format!("({e}"),
        4 => format!("{e})"),
        5 => format!("{e} {e}"),
        6 => format!("{e}3"),
        7 => format!("3 {e}"),
        8 => "()".into(),
        9 => format!("{e} + ()"),
        10 => format!("[{e}]"),
        11 => format!("{e}[1]"),
        12 => format!("{e} + q"),
        13 => "0x".into(),
        14 => "0b12".into(),
        15 => "0o8".into(),
        16 => "08".into(),
        17 => "1__0".into(),
        18 => format!("1_ + {e}"),
        19 => "0x_1".into(),
        20 => "12ab".into(),
        21 => format!("{e} $ 1"),
        22 => format!("{e} <<"),
        23 => format!("{e} <<< 1"),
        24 => format!("{e} = 1"),
        25 => "9223372036854775808".into(),
        26 => "8Ei".into(),
        27 => "0x10000000000000000".into(),
        28 => format!("{e} ? 1"),
        29 => format!("{e}/*1"),
        30 => format!("{e} + (1"),
        31 => format!("-{e} -"),
        32 => "1.5".into(),
        33 => "+".into(),
        34 => format!("{e} % % 3"),
        35 => format!("{e}\"\""),
        36 => format!("({e} + [1)]"),
        37 => format!("{e}; 1"),
        38 => "1k1".into(),
        _ => "1iki".into(),
    }
}
