//! The reference model: every stage as a plain function over whole byte strings.
use crate::expr::{Stop, E};
use crate::opts::*;
use simstd::prog::ProgSpec;
use std::collections::BTreeMap;

pub type Seg = (usize, usize); // position, length

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub offset: usize,
    pub span: usize,
    pub body: Vec<u8>,
}

/// what the program must do
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// why the program must end with a failure status
    pub fail: Option<String>,
    /// the exact standard output; on failure, standard output must be a prefix of one of `partial`
    pub stdout: Vec<u8>,
    pub partial: Vec<Vec<u8>>,
    /// files that must have this content afterwards
    pub files: BTreeMap<String, Vec<u8>>,
    /// what the patch-back command must have been given
    pub child_in: Option<Vec<u8>>,
    pub stream: Vec<u8>,
    pub slices: Vec<Seg>,
    /// the case is outside of what the properties speak about
    pub skip: Option<String>,
}

pub struct Env<'a> {
    pub files: &'a BTreeMap<String, Vec<u8>>,
    pub stdin: Option<&'a [u8]>,
    pub programs: &'a [ProgSpec],
    pub stdout_named: &'a [&'a str],
}
impl Env<'_> {
    pub fn open(&self, name: &str) -> Option<Vec<u8>> {
        if name == "-" || name == "/dev/stdin" {
            return Some(self.stdin.unwrap_or(&[]).to_vec());
        }
        if name == "/dev/null" {
            return Some(vec![]);
        }
        self.files.get(&simstd::rt::norm(name)).cloned()
    }
}

// ---- text records ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fmt {
    pub dec: bool,
    pub gapless: bool,
    pub binary: bool,
}
pub fn fmt_of(s: &str) -> Option<Fmt> {
    let f = |dec, gapless, binary| Some(Fmt { dec, gapless, binary });
    match s {
        "b" | "nnb" | "n,n,b" => f(false, true, true),
        "x" | "xxx" | "x,x,x" => f(false, false, false),
        "d" | "ddx" | "d,d,x" => f(true, false, false),
        "nnx" | "n,n,x" => f(false, true, false),
        _ => None,
    }
}

fn field(s: &[u8], dec: bool) -> Option<(usize, &[u8])> {
    let n = s.iter().position(|&b| b == b' ' || (b == b'\n' && !dec)).unwrap_or(s.len());
    // an empty field reads as 0
    if n > 15 && !dec {
        return None;
    }
    if n == 0 {
        return Some((0, s));
    }
    let t = std::str::from_utf8(&s[..n]).ok()?;
    if !t.bytes().all(|b| if dec { b.is_ascii_digit() } else { b.is_ascii_hexdigit() }) {
        return None;
    }
    let v = usize::from_str_radix(t, if dec { 10 } else { 16 }).ok()?;
    if v >= 1 << 60 {
        return None;
    }
    Some((v, &s[n..]))
}

/// one line without its newline
pub fn parse_line(line: &[u8], dec: bool) -> Option<Rec> {
    let (offset, rest) = field(line, dec)?;
    let rest = rest.strip_prefix(b" ")?;
    let (span, rest) = field(rest, dec)?;
    if rest.is_empty() {
        return if dec { None } else { Some(Rec { offset, span, body: vec![] }) };
    }
    let rest = rest.strip_prefix(b" | ")?;
    let upto = rest.iter().position(|&b| b == b'|').unwrap_or(rest.len());
    let mut body = vec![];
    for c in rest[..upto].chunks(3) {
        if c[0] == b' ' && c.get(1).map_or(true, |&x| x == b' ') {
            break;
        }
        if c.len() < 2 {
            return None;
        }
        if c.len() == 3 && c[2] != b' ' {
            return None;
        }
        let h = |b: u8| (b as char).to_digit(16).map(|x| x as u8);
        body.push(h(c[0])? << 4 | h(c[1])?);
    }
    Some(Rec { offset, span, body })
}

/// the records before the first bad line, and whether there is a bad one
pub fn parse_text(data: &[u8], dec: bool) -> (Vec<Rec>, Option<usize>) {
    let mut v = vec![];
    let mut rest = data;
    while !rest.is_empty() {
        let n = rest.iter().position(|&b| b == b'\n').unwrap_or(rest.len());
        match parse_line(&rest[..n], dec) {
            Some(r) => v.push(r),
            None => return (v.clone(), Some(v.len())),
        }
        rest = &rest[std::cmp::min(n + 1, rest.len())..];
    }
    (v, None)
}

/// drops the first record that overlaps its predecessor and all after it
pub fn check_order(v: &mut Vec<Rec>) -> Option<usize> {
    let mut end = 0;
    for (i, r) in v.iter().enumerate() {
        if r.offset < end {
            v.truncate(i);
            return Some(i);
        }
        end = r.offset + r.span;
    }
    None
}

/// the stream a list of hex records describes
pub fn place(v: &[Rec], filler: u8) -> Vec<u8> {
    let mut out = vec![];
    let mut pos = 0;
    for r in v {
        out.resize(out.len() + r.offset.saturating_sub(pos), filler);
        out.extend_from_slice(&r.body);
        pos = r.offset + r.span;
    }
    out
}

pub fn patch(data: &[u8], v: &[Rec]) -> Vec<u8> {
    let mut out = vec![];
    let mut pos = 0;
    for r in v {
        let o = std::cmp::min(r.offset, data.len());
        if pos < o {
            out.extend_from_slice(&data[pos..o]);
        }
        out.extend_from_slice(&r.body);
        pos = std::cmp::max(pos, r.offset + r.span);
    }
    if pos < data.len() {
        out.extend_from_slice(&data[pos..]);
    }
    out
}

// ---- byte stages ----

pub fn pad_to(v: &mut Vec<u8>, n: usize, filler: u8) {
    let r = v.len() % n;
    if r > 0 {
        v.resize(v.len() + n - r, filler);
    }
}

pub fn bound(a: &A, len: usize) -> usize {
    if a.end {
        len.saturating_sub(std::cmp::max(-a.off, 0) as usize)
    } else {
        std::cmp::max(a.off, 0) as usize
    }
}

pub fn cut(data: &[u8], rs: &[R]) -> Vec<u8> {
    let mut v = resolve(rs, data.len());
    v.sort();
    let mut out = vec![];
    let mut pos = 0;
    for (s, e) in v {
        let s = std::cmp::max(s, pos);
        if s < e {
            out.extend_from_slice(&data[s..e]);
            pos = e;
        }
    }
    out
}

/// ranges of positions below len; empty ones dropped
pub fn resolve(rs: &[R], len: usize) -> Vec<(usize, usize)> {
    rs.iter()
        .map(|r| (std::cmp::min(bound(&r.start(), len), len), std::cmp::min(bound(&r.stop(), len), len)))
        .filter(|(s, e)| s < e)
        .collect()
}

pub fn zip(sources: &[Vec<u8>], n: usize) -> Vec<u8> {
    let words = sources.iter().map(|s| s.len() / n).min().unwrap_or(0);
    let mut out = Vec::with_capacity(words * n * sources.len());
    for w in 0..words {
        for s in sources {
            out.extend_from_slice(&s[w * n..(w + 1) * n]);
        }
    }
    out
}

// ---- slicers ----

fn clip(s: i64, e: i64, len: usize) -> Option<Seg> {
    let s = s.clamp(0, len as i64) as usize;
    let e = e.clamp(0, len as i64) as usize;
    if s < e { Some((s, e - s)) } else { None }
}

/// maps [start, end) by one S..E (both ends relative to the slice)
fn map_range(r: &R, s: i64, e: i64) -> (i64, i64) {
    let f = |a: A| if a.end { e + a.off } else { s + a.off };
    (f(r.start()), f(r.stop()))
}

pub fn width_span(n: u64, r: &Option<R>) -> Option<(i64, i64)> {
    let r = r.unwrap_or(R { s: None, e: None });
    let (s, e) = map_range(&r, 0, n as i64);
    if s < e { Some((s, e)) } else { None }
}

pub fn slice_width(len: usize, n: usize, s: i64, e: i64) -> Vec<Seg> {
    // a window may lie before or after the positions i * n that generate it
    let mut v = vec![];
    let mut p = 0usize;
    while p < len {
        if let Some(x) = clip(p as i64 + s, p as i64 + e, len) {
            v.push(x);
        }
        p += n;
    }
    v
}

pub fn slice_find(data: &[u8], pat: &[u8]) -> Vec<Seg> {
    let mut v = vec![];
    if pat.is_empty() {
        return v;
    }
    let mut i = 0;
    while i + pat.len() <= data.len() {
        if &data[i..i + pat.len()] == pat {
            v.push((i, pat.len()));
            i += pat.len();
        } else {
            i += 1;
        }
    }
    v
}

fn element(data: &[u8], pos: usize, ty: char, idx: i64) -> i64 {
    let n = match ty {
        'b' => 1,
        'h' => 2,
        'i' => 4,
        _ => 8,
    };
    let o = pos as i128 + idx as i128 * n as i128;
    if o + n as i128 > data.len() as i128 {
        return 0;
    }
    let o = o as usize;
    let mut b = [0u8; 8];
    b[..n].copy_from_slice(&data[o..o + n]);
    let sh = 64 - 8 * n;
    (i64::from_le_bytes(b) << sh) >> sh
}

fn walk_eval(w: &W, data: &[u8], pos: usize) -> Result<i64, Stop> {
    match w {
        W::Const(n) => Ok(*n),
        W::Field { ty, idx, mul, add } => {
            let x = element(data, pos, *ty, *idx as i64);
            x.checked_mul(*mul).and_then(|x| x.checked_add(*add)).ok_or(Stop::Huge)
        }
        W::Expr(e) => match e.eval(&mut |c, i| element(data, pos, c, i)) {
            // an operand without a value matters for sure if it's all there is
            Err(Stop::Negative) if matches!(e, E::A(..)) => Err(Stop::Negative),
            Err(Stop::Zero) if matches!(e, E::B(o, ..) if o == "/" || o == "%") => Err(Stop::Zero),
            Err(_) => Err(Stop::Huge),
            Ok(x) => Ok(x),
        },
    }
}

/// the slices, and the position of a round in which a length was not positive
pub fn slice_walk(data: &[u8], ws: &[W]) -> (Vec<Seg>, Option<usize>) {
    let mut v = vec![];
    let mut pos = 0;
    while pos < data.len() {
        let lens: Vec<Result<i64, Stop>> = ws.iter().map(|w| walk_eval(w, data, pos)).collect();
        if lens.contains(&Err(Stop::Huge)) {
            return (v, Some(usize::MAX));
        }
        if lens.iter().any(|x| !x.is_ok_and(|x| x > 0)) {
            return (v, Some(pos));
        }
        for l in lens.into_iter().flatten() {
            if pos >= data.len() {
                break;
            }
            let n = std::cmp::min(l as u64, (data.len() - pos) as u64) as usize;
            v.push((pos, n));
            pos = pos.saturating_add(l as usize);
        }
    }
    (v, None)
}

pub fn slice_ranges(rs: &[R], len: usize) -> Vec<Seg> {
    let mut v = resolve(rs, len);
    v.sort();
    v.dedup();
    v.into_iter().map(|(s, e)| (s, e - s)).collect()
}

pub fn slice_guide(recs: &[Rec], len: usize) -> Vec<Seg> {
    recs.iter().filter(|r| r.offset < len).map(|r| (r.offset, std::cmp::min(r.span, len - r.offset))).collect()
}

// ---- slice stages ----

pub fn regex(data: &[u8], segs: &[Seg], re: &regex::bytes::Regex) -> Vec<Seg> {
    let mut v = vec![];
    for &(p, l) in segs {
        for m in re.find_iter(&data[p..p + l]) {
            v.push((p + m.start(), m.end() - m.start()));
        }
    }
    v.sort();
    v
}

pub fn gaps(len: usize, segs: &[Seg]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut pos = 0;
    let mut s: Vec<Seg> = segs.to_vec();
    s.sort();
    for (p, l) in s {
        if p > pos {
            v.push((pos, p));
        }
        pos = std::cmp::max(pos, p + l);
    }
    if pos < len {
        v.push((pos, len));
    }
    v
}

pub fn map_all(len: usize, segs: &[(usize, usize)], rs: &[R]) -> Vec<Seg> {
    let mut v = vec![];
    for &(s, e) in segs {
        for r in rs {
            let (a, b) = map_range(r, s as i64, e as i64);
            if let Some(x) = clip(a, b, len) {
                v.push(x);
            }
        }
    }
    v.sort();
    v
}

pub fn merge(segs: &[Seg], n: u64) -> Vec<Seg> {
    let mut v: Vec<(usize, usize)> = vec![];
    for &(p, l) in segs {
        let (s, e) = (p, p + l);
        if let Some(a) = v.last_mut() {
            if a.1 >= s || (s - a.1) as u64 <= n {
                a.1 = std::cmp::max(a.1, e);
                continue;
            }
        }
        v.push((s, e));
    }
    v.into_iter().map(|(s, e)| (s, e - s)).collect()
}

pub fn lines(segs: &[Seg], rs: &[R]) -> Vec<Seg> {
    let v = resolve(rs, segs.len());
    let mut keep = vec![false; segs.len()];
    for (s, e) in v {
        keep[s..e].iter_mut().for_each(|x| *x = true);
    }
    segs.iter().zip(keep).filter(|x| x.1).map(|x| *x.0).collect()
}

// ---- output ----

pub fn format_record(f: Fmt, cols: usize, data: &[u8], s: Seg) -> Vec<u8> {
    let b = &data[s.0..s.0 + s.1];
    if f.binary {
        return b.to_vec();
    }
    let mut o = if f.dec {
        format!("{} {} | ", s.0, s.1)
    } else {
        let bytes = std::cmp::max(2, (64 - (s.1 as u64).leading_zeros() as usize).div_ceil(8));
        format!("{:012x} {:0w$x} | ", s.0, s.1, w = 2 * bytes)
    };
    let w = std::cmp::max(cols, s.1);
    for i in 0..w {
        match b.get(i) {
            Some(x) => o.push_str(&format!("{x:02x} ")),
            None => o.push_str("   "),
        }
    }
    o.push_str("| ");
    for i in 0..w {
        o.push(match b.get(i) {
            Some(x) if (0x20..0x7f).contains(x) => *x as char,
            Some(_) => '.',
            None => ' ',
        });
    }
    o.push('\n');
    o.into_bytes()
}

fn digits(x: i64, radix: char, w: usize) -> String {
    match radix {
        'x' => format!("{x:0w$x}"),
        'o' => format!("{x:0w$o}"),
        'b' => format!("{x:0w$b}"),
        _ => format!("{x:0w$}"),
    }
}

/// whether every name that an expression gives is a number we can tell
fn names_known(t: &[T], n: usize, l: usize) -> bool {
    t.iter().all(|x| match x {
        T::Expr { e, radix, .. } => match e.eval(&mut |v, _| if v == 'n' { n as i64 } else { l as i64 }) {
            Ok(x) => x >= 0 || *radix == 'd',
            Err(_) => false,
        },
        _ => true,
    })
}

pub fn render_name(t: &[T], n: usize, l: usize) -> String {
    let mut s = String::new();
    for x in t {
        match x {
            T::Lit(x) => s.push_str(x),
            T::Expr { e, radix, width } => {
                let x = e.eval(&mut |v, _| if v == 'n' { n as i64 } else { l as i64 }).unwrap_or(0);
                s.push_str(&digits(x, *radix, *width));
            }
            T::Var { v, op, more, radix, width } => {
                let mut x = if *v == 'n' { n as i64 } else { l as i64 };
                for &(c, k) in op.iter().chain(more) {
                    x = match c {
                        '&' => x & k,
                        '|' => x | k,
                        '^' => x ^ k,
                        '+' => x + k,
                        '-' => x - k,
                        '~' => k - x,
                        '*' => x * k,
                        '/' => x / k,
                        '%' => x % k,
                        'l' => x << k,
                        'g' => x >> k,
                        '>' => (x > k) as i64,
                        '<' => (x < k) as i64,
                        _ => unreachable!(),
                    };
                }
                s.push_str(&digits(x, *radix, *width));
            }
        }
    }
    s
}

// ---- everything ----

pub fn default_cols(o: &Opts) -> usize {
    match &o.slicer {
        Slicer::Default => 16,
        Slicer::Width(n, r) => width_span(*n, r).map_or(0, |(s, e)| (e - s) as usize),
        _ => 0,
    }
}

pub const CONT: &[u8] = b"\x01continuation of the stream that no reader can foresee\x02";
fn continuation() -> Vec<u8> {
    let mut v = vec![];
    for i in 0..80u32 {
        v.extend_from_slice(CONT);
        v.extend_from_slice(&i.wrapping_mul(2654435761).to_le_bytes());
    }
    v
}

/// the input stream of a set of sources. Err(text) if a record is bad, with the stream before it
fn construct(o: &Opts, sources: &[Vec<u8>], filler: u8, f: Fmt) -> (Vec<u8>, Option<String>) {
    let align = o.cat.or(o.zip).unwrap_or(1) as usize;
    let mut bad = None;
    let mut v: Vec<Vec<u8>> = vec![];
    for (i, s) in sources.iter().enumerate() {
        let mut d = if f.binary {
            s.clone()
        } else {
            let (mut recs, mut b) = parse_text(s, f.dec);
            if !f.gapless {
                b = check_order(&mut recs).or(b);
            }
            if let (Some(k), None) = (b, &bad) {
                bad = Some((i, format!("bad record {k} in input {i}")));
            }
            if f.gapless { recs.iter().flat_map(|r| r.body.clone()).collect() } else { place(&recs, filler) }
        };
        if bad.as_ref().is_none_or(|b| b.0 != i) {
            pad_to(&mut d, align, filler);
        }
        v.push(d);
    }
    if o.zip.is_some() {
        return match bad {
            None => (zip(&v, align), None),
            // callers do not look at the stream in this case
            Some(b) => (vec![], Some(b.1)),
        };
    }
    match bad {
        None => (v.concat(), None),
        Some((i, m)) => (v[..=i].concat(), Some(m)),
    }
}

struct Sliced {
    slices: Vec<Seg>,
    fail: Option<String>,
}

fn slice_all(o: &Opts, data: &[u8], guide: &[Rec]) -> Result<Sliced, String> {
    let mut fail = None;
    let mut v = match &o.slicer {
        Slicer::Default => slice_width(data.len(), 16, 0, 16),
        Slicer::Width(n, r) => {
            if *n == 0 {
                return Err("zero width".into());
            }
            match width_span(*n, r) {
                Some((s, e)) => slice_width(data.len(), *n as usize, s, e),
                None => return Err("empty width span".into()),
            }
        }
        Slicer::Find(p) => {
            if p.len() > 63 {
                return Err("long pattern".into());
            }
            slice_find(data, p)
        }
        Slicer::Walk(w) => {
            let (v, f) = slice_walk(data, w);
            if f == Some(usize::MAX) {
                return Err("skip: a length beyond 64 bits".into());
            }
            if let Some(p) = f {
                fail = Some(format!("non-positive length at {p}"));
            }
            v
        }
        Slicer::Slice(rs) => slice_ranges(rs, data.len()),
        Slicer::Guide(_) => slice_guide(guide, data.len()),
    };
    if let Some(re) = &o.regex {
        let re = regex::bytes::Regex::new(re).map_err(|_| "bad expression".to_string())?;
        v = regex(data, &v, &re);
    }
    if let Some(r) = &o.invert {
        v = map_all(data.len(), &gaps(data.len(), &v), r);
    }
    if let Some(r) = &o.extend {
        let s: Vec<(usize, usize)> = v.iter().map(|x| (x.0, x.0 + x.1)).collect();
        v = map_all(data.len(), &s, r);
    }
    if let Some(n) = o.merge {
        v = merge(&v, n);
    }
    if let Some(r) = &o.lines {
        if fail.is_some() && r.iter().all(|x| x.e.is_some_and(|e| !e.end && e.off <= v.len() as i64)) {
            return Err("skip: the selection may be complete before the failure".into());
        }
        v = lines(&v, r);
    }
    Ok(Sliced { slices: v, fail })
}

fn bad_args(s: &str) -> Outcome {
    Outcome { fail: Some(s.to_string()), partial: vec![vec![]], ..Default::default() }
}

/// one pipeline over one set of input files
fn pipeline(o: &Opts, env: &Env, inputs: &[String]) -> Outcome {
    let mut sources = vec![];
    for i in inputs {
        match env.open(i) {
            Some(d) => sources.push(d),
            None => return bad_args("missing input"),
        }
    }
    let filler = o.filler.unwrap_or(0) as u8;
    let f = match fmt_of(o.in_fmt.as_deref().unwrap_or("b")) {
        Some(f) => f,
        None => return bad_args("bad input format"),
    };
    if !f.binary && !f.gapless && sources.iter().any(|s| parse_text(s, f.dec).0.iter().any(|r| r.offset > 64 << 20)) {
        return Outcome { skip: Some("gap too large to simulate".into()), ..Default::default() };
    }
    let (base, bad) = construct(o, &sources, filler, f);
    let zip_bad = bad.is_some() && o.zip.is_some();

    // patch and guide files
    let mut bad = bad;
    let mut patches = vec![];
    let mut patch_bad = false;
    if let Some(p) = &o.patch {
        match env.open(p) {
            None => return bad_args("missing patch"),
            Some(d) => {
                let (mut v, b) = parse_text(&d, false);
                let b = check_order(&mut v).or(b);
                if b.is_some() {
                    patch_bad = true;
                    bad = bad.or(Some("bad patch record".into()));
                }
                patches = v;
            }
        }
    }
    let mut guide = vec![];
    let mut guide_bad = false;
    if let Slicer::Guide(p) = &o.slicer {
        match env.open(p) {
            None => return bad_args("missing guide"),
            Some(d) => {
                let (v, b) = parse_text(&d, false);
                if v.windows(2).any(|w| w[0].offset > w[1].offset) {
                    return Outcome { skip: Some("unsorted guide".into()), ..Default::default() };
                }
                if b.is_some() {
                    guide_bad = true;
                    bad = bad.or(Some("bad guide record".into()));
                }
                guide = v;
            }
        }
    }

    let bytes = |base: &[u8], patches: &[Rec]| -> Vec<u8> {
        let mut d = base.to_vec();
        if let Some(r) = &o.cut {
            d = cut(&d, r);
        }
        if let Some((a, b)) = o.pad {
            let mut v = vec![filler; a as usize];
            v.extend_from_slice(&d);
            v.resize(v.len() + b as usize, filler);
            d = v;
        }
        if o.patch.is_some() {
            d = patch(&d, patches);
        }
        d
    };

    let run = |base: &[u8], patches: &[Rec], guide: &[Rec]| -> Outcome {
        let stream = bytes(base, patches);
        let s = match slice_all(o, &stream, guide) {
            Ok(s) => s,
            Err(e) if e.starts_with("skip") => return Outcome { skip: Some(e), ..Default::default() },
            Err(e) => return bad_args(&e),
        };
        let mut r = emit(o, env, &stream, &s.slices);
        r.stream = stream;
        if s.fail.is_some() && r.fail.is_none() {
            r.fail = s.fail;
            r.partial = vec![std::mem::take(&mut r.stdout)];
        }
        r.slices = s.slices;
        r
    };

    let full = run(&base, &patches, &guide);
    if full.skip.is_some() || bad.is_none() {
        return full;
    }
    if full.fail.is_some() && full.partial == vec![Vec::<u8>::new()] {
        return full; // rejected before anything ran
    }
    // a bad record somewhere: what came before it may have been printed, nothing else
    let mut out = Outcome { fail: bad, ..Default::default() };
    if zip_bad || (o.invert.is_some() && guide_bad) {
        out.skip = Some("partial output not modelled".into());
        return out;
    }
    let take = |r: Outcome| -> Vec<Vec<u8>> {
        let mut v = r.partial;
        v.push(r.stdout);
        v
    };
    let mut partial = take(full);
    let mut base2 = base.clone();
    base2.extend(continuation());
    let mut p2 = patches.clone();
    if patch_bad {
        let at = p2.last().map_or(0, |r| r.offset + r.span);
        p2.push(Rec { offset: at, span: 0, body: continuation() });
    }
    partial.extend(take(run(&base2, &p2, &guide)));
    partial.extend(take(run(&base2, &patches, &guide)));
    if guide_bad {
        partial.extend(take(run(&base2, &p2, &guide)));
    }
    out.partial = partial;
    out
}

fn emit(o: &Opts, env: &Env, stream: &[u8], slices: &[Seg]) -> Outcome {
    let mut r = Outcome::default();
    let cols = if o.out_fmt.is_some() { 16 } else { default_cols(o) };
    let patch_back = matches!(o.out, Out::PatchBack(_) | Out::PatchBackRaw(_));
    let default = if o.inplace && !patch_back { "b" } else { "x" };
    let f = match fmt_of(o.out_fmt.as_deref().unwrap_or(default)) {
        Some(f) => f,
        None => return bad_args("bad output format"),
    };
    let unit = |n: usize| if f.binary { n } else { 24 + 4 * std::cmp::max(n, cols) };
    if slices.iter().map(|s| unit(s.1) as u64).sum::<u64>() > 64 << 20 {
        r.skip = Some("output too large to simulate".into());
        return r;
    }
    let to_stdout = match &o.out {
        Out::Default => true,
        Out::Name(t) => {
            let s = render_template(t);
            s.is_empty() || s == "-"
        }
        _ => false,
    };
    match &o.out {
        Out::PatchBack(_) | Out::PatchBackRaw(_) => {
            let mut text = vec![];
            for s in slices {
                text.extend(format_record(f, cols, stream, *s));
            }
            let spec = match &o.out {
                Out::PatchBack(i) => env.programs.get(*i),
                _ => None,
            };
            r.child_in = Some(text.clone());
            match spec {
                None => {
                    // bash reports a missing command through its status
                    r.fail = Some("no such command".into());
                    r.partial = vec![stream.to_vec()];
                }
                Some(p) => {
                    let out = p.output(&text);
                    let (mut recs, mut bad) = parse_text(&out, f.dec && !f.gapless);
                    bad = check_order(&mut recs).or(bad);
                    let result = patch(stream, &recs);
                    if bad.is_some() || p.status() != 0 {
                        r.fail = Some(if bad.is_some() { "bad record from the command" } else { "command failed" }.into());
                        r.partial = vec![result];
                        if bad.is_some() {
                            let at = recs.last().map_or(0, |r| r.offset + r.span);
                            recs.push(Rec { offset: at, span: 0, body: continuation() });
                            r.partial.push(patch(stream, &recs));
                        }
                    } else {
                        r.stdout = result;
                    }
                }
            }
        }
        _ => {
            if to_stdout {
                for s in slices {
                    r.stdout.extend(format_record(f, cols, stream, *s));
                }
            } else if let Out::Name(t) = &o.out {
                if !t.iter().any(|x| matches!(x, T::Var { .. } | T::Expr { .. })) {
                    // a fixed name designates one file, slices or not
                    r.files.insert(simstd::rt::norm(&render_template(t)), vec![]);
                }
                for (i, s) in slices.iter().enumerate() {
                    if !names_known(t, s.0, i) {
                        r.skip = Some("an expression without a value".into());
                        return r;
                    }
                    let name = render_name(t, s.0, i);
                    let rec = format_record(f, cols, stream, *s);
                    if name.is_empty() || name == "-" {
                        r.stdout.extend(rec);
                    } else {
                        r.files.entry(simstd::rt::norm(&name)).or_default().extend(rec);
                    }
                }
            }
        }
    }
    r
}

pub fn expect(o: &Opts, env: &Env) -> Outcome {
    // rejected command lines
    let is_in = |x: &String| x == "-" || x == "/dev/stdin";
    let mut n_stdin = o.inputs.iter().filter(|x| is_in(x)).count();
    if o.inputs.is_empty() && !o.inplace {
        n_stdin += 1; // the default input
    }
    if o.patch.as_ref().is_some_and(is_in) {
        n_stdin += 1;
    }
    if let Slicer::Guide(g) = &o.slicer {
        n_stdin += is_in(g) as usize;
    }
    if n_stdin > 1 {
        return bad_args("standard input named twice");
    }
    if o.inplace as u8 + o.cat.is_some() as u8 + o.zip.is_some() as u8 > 1 {
        return bad_args("exclusive input options");
    }
    if o.cat == Some(0) || o.zip == Some(0) {
        return bad_args("zero alignment");
    }
    if o.filler.is_some_and(|x| x > 255) {
        return bad_args("filler out of range");
    }
    if o.inplace {
        if o.inputs.iter().any(is_in) {
            return bad_args("standard input edited in place");
        }
        if let Out::Name(t) = &o.out {
            // as the template is given, not as it's rendered
            if !matches!(t.as_slice(), []) && !matches!(t.as_slice(), [T::Lit(x)] if x.is_empty() || x == "-") {
                return bad_args("--inplace with --output to a file");
            }
        }
        let mut names: Vec<String> = o.inputs.iter().map(|x| simstd::rt::norm(x)).collect();
        names.sort();
        names.dedup();
        let mut files = env.files.clone();
        let mut out = Outcome::default();
        for n in &names {
            let e = Env { files: &files, stdin: env.stdin, programs: env.programs, stdout_named: env.stdout_named };
            let r = pipeline(o, &e, std::slice::from_ref(n));
            if r.skip.is_some() {
                return r;
            }
            if r.fail.is_some() {
                out.fail = r.fail;
                out.partial = vec![vec![]];
                break;
            }
            files.insert(simstd::rt::norm(n), r.stdout.clone());
            out.files.insert(simstd::rt::norm(n), r.stdout);
            out.slices.extend(r.slices);
        }
        return out;
    }
    let inputs = if o.inputs.is_empty() { vec!["-".to_string()] } else { o.inputs.clone() };
    pipeline(o, env, &inputs)
}
