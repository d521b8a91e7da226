//! A structured command line: what the model interprets and what is rendered for the program.
use crate::expr::{worth, E};
use serde::{Deserialize, Serialize};
use simstd::rt::Rng;

/// one end of a range: relative to the start or the end
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct A {
    pub end: bool,
    pub off: i64,
}
/// S..E, either end possibly left out
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct R {
    pub s: Option<A>,
    pub e: Option<A>,
}
impl R {
    pub fn start(&self) -> A {
        self.s.unwrap_or(A { end: false, off: 0 })
    }
    pub fn stop(&self) -> A {
        self.e.unwrap_or(A { end: true, off: 0 })
    }
    pub fn has_end(&self) -> bool {
        self.start().end || self.stop().end
    }
}

/// one length expression of --walk: mul * field + add, or a constant
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum W {
    Const(i64),
    Field { ty: char, idx: u64, mul: i64, add: i64 },
    Expr(E),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Slicer {
    Default,
    Width(u64, Option<R>),
    Find(#[serde(with = "simstd::bytes_serde")] Vec<u8>),
    Walk(Vec<W>),
    Slice(Vec<R>),
    Guide(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum T {
    Lit(String),
    /// variable ('n' offset, 'l' line), operation, radix, zero padded width
    Var {
        v: char,
        op: Option<(char, i64)>,
        /// further operations on the result
        #[serde(default)]
        more: Vec<(char, i64)>,
        radix: char,
        width: usize,
    },
    Expr { e: E, radix: char, width: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Default,
    Name(Vec<T>),
    PatchBack(usize),
    /// a command that is not one of the virtual programs
    PatchBackRaw(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pager {
    None,
    Opt(usize),
    Env(usize),
    /// --pager with something that cannot be started
    Missing,
    /// --pager with nothing but spaces
    Blank(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    pub inputs: Vec<String>,
    pub cat: Option<u64>,
    pub zip: Option<u64>,
    pub inplace: bool,
    pub in_fmt: Option<String>,
    pub out_fmt: Option<String>,
    pub filler: Option<u64>,
    pub cut: Option<Vec<R>>,
    pub pad: Option<(u64, u64)>,
    pub patch: Option<String>,
    pub slicer: Slicer,
    pub regex: Option<String>,
    pub invert: Option<Vec<R>>,
    pub extend: Option<Vec<R>>,
    pub merge: Option<u64>,
    pub lines: Option<Vec<R>>,
    pub out: Out,
    pub pager: Pager,
    /// raw arguments appended after everything else
    pub extra: Vec<String>,
    /// how all this is spelled on the command line; 0 is the plain form
    pub style: u64,
    /// numbers are written as expressions; 0 for not
    #[serde(default)]
    pub expr: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            inputs: vec![],
            cat: None,
            zip: None,
            inplace: false,
            in_fmt: None,
            out_fmt: None,
            filler: None,
            cut: None,
            pad: None,
            patch: None,
            slicer: Slicer::Default,
            regex: None,
            invert: None,
            extend: None,
            merge: None,
            lines: None,
            out: Out::Default,
            pager: Pager::None,
            extra: vec![],
            style: 0,
            expr: 0,
        }
    }
}

const LONG: &[&str] = &[
    "in-format", "out-format", "filler", "cat", "zip", "inplace", "cut", "pad", "patch", "width", "find", "walk", "slice",
    "guide", "regex", "extend", "invert", "merge", "lines", "output", "patch-back", "pager", "help", "version",
];

struct Style {
    on: bool,
    r: Rng,
    e: Option<Rng>,
}
impl Style {
    fn pick(&mut self, n: u64) -> u64 {
        if self.on { self.r.below(n) } else { 0 }
    }
    fn num(&mut self, n: u64) -> String {
        if let Some(r) = &mut self.e {
            if n < 1 << 40 {
                let d = r.below(5) as u32;
                return worth(r, n as i64, d).show();
            }
        }
        match self.pick(12) {
            9 => format!("0x{n:x}"),
            10 => format!("0b{n:b}"),
            11 if n > 0 && n % 1024 == 0 => format!("{}ki", n / 1024),
            11 if n > 1 => format!("{}+{}", n / 2, n - n / 2),
            _ => n.to_string(),
        }
    }
    fn anchor(&mut self, a: &Option<A>) -> String {
        let a = match a {
            None => return String::new(),
            Some(a) => a,
        };
        let v = a.off.unsigned_abs();
        if let Some(r) = &mut self.e {
            let d = r.below(5) as u32;
            let n = worth(r, a.off, d);
            let x = E::V(if a.end { 'e' } else { 's' });
            return match r.below(7) {
                0 | 1 if !a.end => n,
                0..=2 => E::b("+", x, n),
                3 => E::b("+", n, x),
                4 => E::b("-", x, worth(r, -a.off, d)),
                5 => E::b("-", n, E::u('-', x)),
                _ => E::P(Box::new(E::b("+", E::b("-", E::b("+", x.clone(), x.clone()), x), n))),
            }
            .show();
        }
        let n = if self.pick(4) == 3 { format!("0x{v:x}") } else { v.to_string() };
        match (a.end, a.off) {
            (false, 0) => ["0", "s", "0", "s+0"][self.pick(4) as usize].to_string(),
            (true, 0) => ["e", "e", "e+0", "e-0"][self.pick(4) as usize].to_string(),
            (false, x) if x > 0 => match self.pick(4) {
                1 => format!("s+{n}"),
                2 => format!("{n}+s"),
                3 => format!("s + {n}"),
                _ => n,
            },
            (false, _) => match self.pick(3) {
                1 => format!("-{n}"),
                2 => format!("-{n}+s"),
                _ => format!("s-{n}"),
            },
            (true, x) if x > 0 => match self.pick(3) {
                1 => format!("{n}+e"),
                2 => format!("e + {n}"),
                _ => format!("e+{n}"),
            },
            (true, _) => match self.pick(3) {
                1 => format!("-{n}+e"),
                2 => format!("e - {n}"),
                _ => format!("e-{n}"),
            },
        }
    }
    fn range(&mut self, r: &R) -> String {
        let s = self.anchor(&r.s);
        format!("{}..{}", s, self.anchor(&r.e))
    }
    fn ranges(&mut self, v: &[R]) -> String {
        let mut s = v.iter().map(|r| self.range(r)).collect::<Vec<_>>().join(",");
        if !v.is_empty() && self.pick(8) == 7 {
            s.push(',');
        }
        s
    }
    fn walk(&mut self, w: &W) -> String {
        match w {
            W::Const(n) => n.to_string(),
            W::Expr(e) => e.show(),
            W::Field { ty, idx, mul, add } => {
                let mut s = format!("{ty}[{idx}]");
                if *mul != 1 {
                    s = if self.pick(2) == 1 { format!("{mul}*{s}") } else { format!("{s}*{mul}") };
                }
                if *add > 0 {
                    s = if self.pick(2) == 1 { format!("{add}+{s}") } else { format!("{s}+{add}") };
                } else if *add < 0 {
                    s = format!("{s}-{}", -add);
                }
                s
            }
        }
    }
}

fn braced(e: &str, radix: char, width: usize) -> String {
    match (radix, width) {
        ('d', 0) => format!("{{{e}}}"),
        ('d', w) => format!("{{{e}:0{w}d}}"),
        (r, 0) => format!("{{{e}:{r}}}"),
        (r, w) => format!("{{{e}:0{w}{r}}}"),
    }
}

pub fn render_template(v: &[T]) -> String {
    v.iter()
        .map(|t| match t {
            T::Lit(s) => s.clone(),
            T::Var { v, op, more, radix, width } => {
                let mut e = v.to_string();
                for (c, n) in op.iter().chain(more) {
                    e = match c {
                        'l' => format!("({e} << {n})"),
                        'g' => format!("({e} >> {n})"),
                        '~' => format!("({n} - {e})"),
                        c => format!("({e} {c} {n})"),
                    };
                }
                braced(&e, *radix, *width)
            }
            T::Expr { e, radix, width } => braced(&format!("({})", e.show()), *radix, *width),
        })
        .collect()
}

impl Opts {
    /// (short letter, long name, value) of every option given
    fn items(&self, st: &mut Style) -> Vec<(Option<char>, &'static str, Option<String>)> {
        let mut v: Vec<(Option<char>, &'static str, Option<String>)> = vec![];
        if let Some(x) = &self.in_fmt {
            v.push((Some('F'), "in-format", Some(x.clone())));
        }
        if let Some(x) = &self.out_fmt {
            v.push((Some('f'), "out-format", Some(x.clone())));
        }
        if let Some(x) = self.filler {
            v.push((None, "filler", Some(st.num(x))));
        }
        if let Some(x) = self.cat {
            v.push((Some('c'), "cat", Some(st.num(x))));
        }
        if let Some(x) = self.zip {
            v.push((Some('z'), "zip", Some(st.num(x))));
        }
        if self.inplace {
            v.push((Some('i'), "inplace", None));
        }
        if let Some(x) = &self.cut {
            v.push((Some('n'), "cut", Some(st.ranges(x))));
        }
        if let Some((a, b)) = self.pad {
            v.push((Some('a'), "pad", Some(format!("{},{}", st.num(a), st.num(b)))));
        }
        if let Some(x) = &self.patch {
            v.push((Some('p'), "patch", Some(x.clone())));
        }
        match &self.slicer {
            Slicer::Default => {}
            Slicer::Width(n, r) => {
                let mut s = st.num(*n);
                if let Some(r) = r {
                    s.push(',');
                    s.push_str(&st.range(r));
                }
                v.push((Some('w'), "width", Some(s)));
            }
            Slicer::Find(p) => {
                // hexadecimal bytes
                let up = st.pick(4) == 3;
                let s = p.iter().map(|b| if up { format!("{b:02X}") } else { format!("{b:02x}") }).collect::<Vec<_>>().join(" ");
                v.push((Some('d'), "find", Some(s)));
            }
            Slicer::Walk(w) => {
                let s = w.iter().map(|x| st.walk(x)).collect::<Vec<_>>().join(",");
                v.push((Some('k'), "walk", Some(s)));
            }
            Slicer::Slice(x) => v.push((Some('r'), "slice", Some(st.ranges(x)))),
            Slicer::Guide(x) => v.push((Some('g'), "guide", Some(x.clone()))),
        }
        if let Some(x) = &self.regex {
            v.push((Some('e'), "regex", Some(x.clone())));
        }
        if let Some(x) = &self.invert {
            v.push((Some('v'), "invert", Some(st.ranges(x))));
        }
        if let Some(x) = &self.extend {
            v.push((Some('x'), "extend", Some(st.ranges(x))));
        }
        if let Some(x) = self.merge {
            v.push((Some('m'), "merge", Some(st.num(x))));
        }
        if let Some(x) = &self.lines {
            v.push((Some('l'), "lines", Some(st.ranges(x))));
        }
        match &self.out {
            Out::Default => {}
            Out::Name(t) => v.push((Some('o'), "output", Some(render_template(t)))),
            Out::PatchBack(i) => v.push((Some('P'), "patch-back", Some(format!("prog {i}")))),
            Out::PatchBackRaw(s) => v.push((Some('P'), "patch-back", Some(s.clone()))),
        }
        match &self.pager {
            Pager::Opt(i) => v.push((None, "pager", Some(format!("prog {i}")))),
            Pager::Blank(n) => v.push((None, "pager", Some(" ".repeat(*n)))),
            Pager::Missing => v.push((None, "pager", Some("no-such-pager -x".to_string()))),
            _ => {}
        }
        v
    }

    pub fn args(&self) -> Vec<String> {
        let mut st = Style { on: self.style != 0, r: Rng::new(self.style), e: (self.expr != 0).then(|| Rng::new(self.expr)) };
        let mut items = self.items(&mut st);
        // any order
        if st.on {
            for i in (1..items.len()).rev() {
                let j = st.pick(i as u64 + 1) as usize;
                items.swap(i, j);
            }
        }
        let mut groups: Vec<Vec<String>> = vec![];
        for (short, long, value) in items {
            let abbrev = |st: &mut Style| -> String {
                if st.pick(4) == 3 {
                    for n in 3..long.len() {
                        let p = &long[..n];
                        if LONG.iter().filter(|x| x.starts_with(p)).count() == 1 {
                            return p.to_string();
                        }
                    }
                }
                long.to_string()
            };
            match value {
                None => {
                    let k = st.pick(3);
                    groups.push(vec![match (k, short) {
                        (1, Some(c)) => format!("-{c}"),
                        _ => format!("--{}", abbrev(&mut st)),
                    }]);
                }
                Some(val) => {
                    let dash = val.starts_with('-') && val != "-";
                    let k = st.pick(5);
                    let g = match (k, short) {
                        (1, Some(c)) if !dash && !val.is_empty() => vec![format!("-{c}"), val],
                        (2, Some(c)) if !dash && !val.is_empty() && !val.starts_with('=') => vec![format!("-{c}{val}")],
                        (3, _) if !dash && !val.is_empty() => vec![format!("--{}", abbrev(&mut st)), val],
                        _ => vec![format!("--{}={}", abbrev(&mut st), val)],
                    };
                    groups.push(g);
                }
            }
        }
        // operands keep their order but may stand anywhere between the options
        let mut out: Vec<Vec<String>> = vec![];
        let mut ops: std::collections::VecDeque<String> = self.inputs.iter().cloned().collect();
        for g in groups {
            while st.on && !ops.is_empty() && st.pick(4) == 3 {
                out.push(vec![ops.pop_front().unwrap()]);
            }
            out.push(g);
        }
        for o in ops {
            out.push(vec![o]);
        }
        let mut v = vec!["nd".to_string()];
        v.extend(out.into_iter().flatten());
        v.extend(self.extra.iter().cloned());
        v
    }

    /// names of stages in use, for the coverage report
    pub fn stages(&self) -> Vec<&'static str> {
        let mut v = vec![];
        if self.cat.is_some() {
            v.push("cat");
        }
        if self.zip.is_some() {
            v.push("zip");
        }
        if self.inplace {
            v.push("inplace");
        }
        if self.in_fmt.as_deref().is_some_and(|x| x != "b") {
            v.push("text-input");
        }
        if self.cut.is_some() {
            v.push("cut");
        }
        if self.pad.is_some() {
            v.push("pad");
        }
        if self.patch.is_some() {
            v.push("patch");
        }
        v.push(match &self.slicer {
            Slicer::Default => "default-slicer",
            Slicer::Width(..) => "width",
            Slicer::Find(_) => "find",
            Slicer::Walk(_) => "walk",
            Slicer::Slice(_) => "slice",
            Slicer::Guide(_) => "guide",
        });
        if self.regex.is_some() {
            v.push("regex");
        }
        if self.invert.is_some() {
            v.push("invert");
        }
        if self.extend.is_some() {
            v.push("extend");
        }
        if self.merge.is_some() {
            v.push("merge");
        }
        if self.lines.is_some() {
            v.push("lines");
        }
        match &self.out {
            Out::Default => {}
            Out::Name(_) => v.push("output"),
            _ => v.push("patch-back"),
        }
        if self.pager != Pager::None {
            v.push("pager");
        }
        v
    }
}
