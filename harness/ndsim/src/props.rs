//! Per property: how cases are made. The judges are in judge.rs.
use crate::expr::{broken, rand_expr, worth, E};
use crate::gen::*;
use crate::model::Rec;
use crate::opts::*;
use simstd::prog::{LineFn, ProgEnd, ProgSpec};
use simstd::rt::*;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
];

fn fmt_b(g: &mut G, p: u64) {
    if g.pct(p) {
        g.o.out_fmt = Some(g.pick(&["b", "b", "nnb", "n,n,b"]).to_string());
    }
}
fn filler(g: &mut G, p: u64) {
    if g.pct(p) {
        g.o.filler = Some(g.pick(&[0, 0x20, 0xff, 10, 0x7c]));
    }
}

/// one to four plain inputs
fn inputs(g: &mut G, max: usize) -> usize {
    let n = if g.pct(65) { 1 } else { 1 + g.below(max) };
    let mut total = 0;
    for _ in 0..n {
        let l = if n > 1 && !g.big { g.len() / 2 } else { g.len() };
        let d = g.data(l);
        total += l;
        g.input(d);
    }
    total
}

fn bytes_stages(g: &mut G, len: usize, p: u64) -> usize {
    let mut len = len;
    if g.pct(p) {
        let v = g.ranges(len, 40, 3, true);
        len = crate::model::resolve(&v, len).iter().map(|x| x.1 - x.0).sum::<usize>().min(len);
        g.o.cut = Some(v);
    }
    if g.pct(p) {
        let a = g.small(300);
        let b = g.small(300);
        g.o.pad = Some((a as u64, b as u64));
        len += a + b;
    }
    if g.pct(p) {
        let recs = g.recs(len, 12, 40);
        add_patch(g, &recs);
    }
    len
}
fn add_patch(g: &mut G, recs: &[Rec]) {
    let text = g.render_recs(recs, false);
    let ok = !g.o.inputs.is_empty();
    let n = g.source(text, ok);
    g.o.patch = Some(n);
}
fn add_guide(g: &mut G, recs: &[Rec]) {
    let text = g.render_recs(recs, false);
    let ok = !g.o.inputs.is_empty();
    let n = g.source(text, ok);
    g.o.slicer = Slicer::Guide(n);
}

fn slicer(g: &mut G, len: usize) {
    match g.below(9) {
        0 | 1 => {}
        2 | 3 => g.o.slicer = g.width(len),
        4 => {
            let d = g.cfg.files.first().map(|f| f.data.clone()).unwrap_or_default();
            g.o.slicer = g.find(&d);
        }
        5 => {
            let k = 1 + g.below(60) as i64;
            let mut v = vec![W::Const(k), W::Const(1 + k / 2)];
            if g.pct(40) {
                // a byte of the stream, kept positive
                let idx = g.below(70) as u64;
                v[0] = W::Field { ty: 'b', idx, mul: g.pick(&[1, 1, 3]), add: 129 * 3 + g.below(20) as i64 };
            }
            if g.pct(30) {
                v.pop();
            }
            g.o.slicer = Slicer::Walk(v);
        }
        6 | 7 => {
            let v = g.ranges(len, 40, 6, true);
            g.o.slicer = Slicer::Slice(v);
        }
        _ => {
            let r = g.guide_recs(len, 20);
            add_guide(g, &r);
        }
    }
}
fn slice_stages(g: &mut G, p: u64) {
    if g.pct(p) {
        g.o.regex = Some(g.regex());
    }
    if g.pct(p / 2) {
        g.o.invert = Some(g.mappings(20));
    }
    if g.pct(p) {
        g.o.extend = Some(g.mappings(20));
    }
    if g.pct(p) {
        g.o.merge = Some(g.small(60) as u64);
    }
    if g.pct(p) {
        let v = g.ranges(20, 20, 3, true);
        g.o.lines = Some(v);
    }
}
fn out_any(g: &mut G) {
    match g.below(10) {
        0..=3 => g.o.out_fmt = Some(g.pick(&["b", "x", "d", "nnx", "xxx", "x,x,x", "ddx"]).to_string()),
        4 => g.o.out_fmt = Some("b".into()),
        _ => {}
    }
}

/// where the result goes, other than standard output; returns who judges it
fn sink(g: &mut G) -> Option<&'static str> {
    if g.o.out != Out::Default || g.o.pager != Pager::None || g.o.inplace || !g.cfg.programs.is_empty() {
        return None;
    }
    match g.below(8) {
        0 | 1 | 2 => {
            g.o.out = Out::Name(match g.below(6) {
                0 | 1 => vec![T::Lit("o/fixed".into())],
                2 => vec![T::Lit("-".into())],
                _ => template(g),
            });
            Some("scatter")
        }
        3 | 4 => {
            let p = g.good_prog();
            g.cfg.programs.push(p);
            g.o.out = Out::PatchBack(0);
            g.cfg.sched = g.sched();
            g.cfg.pipe_cap = g.pipe_cap();
            Some("patch-back")
        }
        5 => {
            let mut p = ProgSpec::cat();
            p.read = g.split();
            p.think = g.pick(&[0, 20, 500]);
            p.linger = g.pick(&[0, 50, 5000]);
            p.seed = g.r.next();
            g.cfg.programs.push(p);
            g.o.pager = Pager::Opt(0);
            g.cfg.sched = g.sched();
            g.cfg.pipe_cap = g.pipe_cap();
            Some("pager")
        }
        _ => {
            if g.o.cat.is_some() || g.o.zip.is_some() || g.o.inputs.is_empty() || g.o.inputs.iter().any(|x| x == "-") {
                return None;
            }
            // (a patch or guide file is not also edited)
            g.o.inplace = true;
            Some("inplace")
        }
    }
}

/// puts what a property is about into an arbitrary pipeline
fn embed(g: &mut G, kind: &'static str) -> &'static str {
    if g.big || g.cfg.files.iter().chain(g.cfg.stdin.iter()).any(|f| f.endless) {
        return kind;
    }
    let len: usize = g.cfg.files.iter().chain(g.cfg.stdin.iter()).map(|f| f.data.len()).sum();
    if g.pct(15) && g.o.cat.is_none() && g.o.zip.is_none() && g.o.inputs.len() > 1 {
        if g.pct(50) {
            g.o.cat = Some(1 + g.below(20) as u64);
        } else {
            g.o.zip = Some(1 + g.below(8) as u64);
        }
    }
    let p = if g.o.filler.is_none() { 10 } else { 0 };
    filler(g, p);
    if g.o.cut.is_none() && g.pct(15) {
        g.o.cut = Some(g.ranges(len, 40, 3, true));
    }
    if g.o.pad.is_none() && g.pct(15) {
        let (a, b) = (g.small(300), g.small(300));
        g.o.pad = Some((a as u64, b as u64));
    }
    if g.o.patch.is_none() && g.pct(15) {
        let recs = g.recs(len, 12, 40);
        add_patch(g, &recs);
    }
    if g.o.slicer == Slicer::Default && g.o.out_fmt.as_deref() != Some("b") {
        slicer(g, len);
    }
    if g.o.regex.is_none() && g.pct(10) {
        g.o.regex = Some(g.regex());
    }
    if g.o.invert.is_none() && g.pct(10) {
        g.o.invert = Some(g.mappings(20));
    }
    if g.o.extend.is_none() && g.pct(12) {
        g.o.extend = Some(g.mappings(20));
    }
    if g.o.merge.is_none() && g.pct(10) {
        g.o.merge = Some(g.small(60) as u64);
    }
    if g.o.lines.is_none() && g.pct(15) {
        g.o.lines = Some(g.ranges(20, 20, 3, true));
    }
    if g.o.out_fmt.is_none() {
        out_any(g);
    }
    if g.pct(40) {
        if let Some(k) = sink(g) {
            return k;
        }
    }
    kind
}

fn text_input(g: &mut G, fmt: &str) -> usize {
    let dec = matches!(fmt, "d" | "ddx" | "d,d,x");
    let l = g.len().min(20_000);
    let mut recs = g.recs(l, 30, 60);
    if g.big && g.pct(50) {
        // a gap that is larger than a block
        let k = 1 + g.below(2);
        let mut pos = recs.last().map_or(0, |r| r.offset + r.span);
        pos += k * g.bs + g.below(5);
        recs.push(Rec { offset: pos.saturating_sub(2), span: 2, body: b"zz".to_vec() });
        recs.sort_by_key(|r| r.offset);
    }
    let len = recs.last().map_or(0, |r| r.offset + r.span);
    let text = g.render_recs(&recs, dec);
    g.input(text);
    len
}

fn template(g: &mut G) -> Vec<T> {
    let dir = g.pick(&["o/", "out-", "o/x"]);
    let mut v = vec![T::Lit(dir.to_string())];
    let n = 1 + g.below(2);
    for i in 0..n {
        if i > 0 {
            v.push(T::Lit("_".into()));
        }
        let op = match g.below(6) {
            0 => Some(('&', g.pick(&[1, 3, 7, 15, 64]))),
            1 => Some(('+', g.below(100) as i64)),
            2 => Some(('%', 200 + g.below(400) as i64)),
            3 => Some(('%', 1 + g.below(8) as i64)),
            _ => None,
        };
        let mut radix = g.pick(&['d', 'x', 'x', 'b', 'o']);
        let mut width = g.pick(&[0, 0, 2, 8]);
        let mut more = vec![];
        if g.pct(20) {
            // an expression; what it gives is at least zero, or printed in decimal
            for _ in 0..1 + g.below(3) {
                more.push(match g.below(12) {
                    0 => ('-', g.below(200) as i64),
                    1 => ('~', g.below(5000) as i64),
                    2 => ('*', g.pick(&[2, 3, 16, 1_000_003])),
                    3 => ('|', g.below(64) as i64),
                    4 => ('^', g.below(64) as i64),
                    5 => ('l', g.below(9) as i64),
                    6 => ('g', g.below(9) as i64),
                    7 => ('%', 1 + g.below(40) as i64),
                    8 => ('/', 1 + g.below(40) as i64),
                    9 => ('>', g.below(300) as i64),
                    10 => ('<', g.below(300) as i64),
                    _ => ('+', g.below(100) as i64),
                });
            }
            if g.pct(50) {
                more.push(('&', g.pick(&[0xff, 0xffff, 0xffff_ffff_ffff])));
            } else {
                radix = 'd';
                width = 0;
            }
        }
        v.push(T::Var { v: g.pick(&['n', 'l']), op, more, radix, width });
    }
    if g.pct(50) {
        v.push(T::Lit(g.pick(&[".bin", "", ".d"]).to_string()));
    }
    v
}

/// the input stream, slices and options of a patch-back run
fn patch_back(g: &mut G) -> bool {
    let mut l = g.len();
    if g.bs == 145 && g.pct(8) {
        // more than the cache keeps in memory
        l = 128 * g.bs + g.below(150 * g.bs);
        let eintr = g.pick(&[0, 30]);
        g.cfg.deliveries.push(("spool".into(), Delivery { split: Split::Upto(2000), eintr, delay: 0, seed: l as u64 }));
    }
    let d = g.data(l);
    g.input(d);
    let mut len = l;
    if g.pct(20) {
        len = bytes_stages(g, len, 40);
    }
    // overlapping slices make a command that repeats them fail
    let mut wild = g.pct(20);
    match if wild { 10 } else { g.below(12) } {
        0..=4 => {}
        10 => {
            g.o.slicer = Slicer::Default;
            slicer(g, len);
            if wild {
                slice_stages(g, 20);
            } else if g.pct(30) {
                g.o.invert = Some(vec![R { s: None, e: None }]);
            }
        }
        5 | 6 => g.o.slicer = Slicer::Width(1 + g.below(80).max(len / 3000) as u64, None),
        7 => {
            let d = g.cfg.files.first().map(|f| f.data.clone()).unwrap_or_default();
            g.o.slicer = g.find(&d);
        }
        _ => {
            // disjoint ranges
            let mut p = 0;
            let mut v = vec![];
            for _ in 0..1 + g.below(5) {
                let s = p + g.below(len / 4 + 2);
                let e = s + 1 + g.below(60);
                v.push(R { s: Some(A { end: false, off: s as i64 }), e: Some(A { end: false, off: e as i64 }) });
                p = e;
            }
            g.o.slicer = Slicer::Slice(v);
        }
    }
    if g.pct(20) {
        g.o.merge = Some(g.below(20) as u64);
    }
    if g.pct(15) {
        let v = g.ranges(20, 20, 2, true);
        g.o.lines = Some(v);
    }
    if g.pct(10) {
        g.o.regex = Some(g.regex());
    }
    g.cfg.pipe_cap = g.pipe_cap();
    g.cfg.sched = g.sched();
    g.o.out = Out::PatchBack(0);
    if g.pct(30) {
        let d = g.delivery(500);
        g.cfg.deliveries.push(("pipe:out:0".into(), d));
    }
    if g.pct(30) {
        let d = g.delivery(500);
        g.cfg.deliveries.push(("w:pipe:in:0".into(), d));
    }
    if g.pct(20) {
        let d = g.delivery(500);
        g.cfg.deliveries.push(("spool".into(), d));
    }
    if g.pct(25) {
        let f = g.pick(&["d", "d", "ddx", "b", "nnx", "x", "xxx"]);
        g.o.out_fmt = Some(f.into());
    }
    wild &= g.pct(70);
    wild
}

/// keeps a pipeline cheap enough for fault and crash runs
fn modest(g: &mut G) {
    g.big = false;
}

fn inplace(g: &mut G) {
    g.o.inplace = true;
    let n = 1 + g.below(3);
    for _ in 0..n {
        let l = g.len() / 2;
        let d = g.data(l);
        let name = g.name();
        g.add_file(&name, d);
        if g.pct(30) {
            let mode = g.pick(&[0o600, 0o755, 0o444, 0o640, 0o664, 0o400]);
            g.cfg.files.last_mut().unwrap().mode = mode;
        }
        g.add_delivery(&name, l);
        g.o.inputs.push(name);
    }
    if g.pct(15) {
        let mut x = g.pick(&g.o.inputs.clone());
        if g.pct(50) {
            // the same file by another name
            x = match (x.strip_prefix("./"), x.starts_with('/')) {
                (Some(x), _) => x.to_string(),
                (_, true) => x.replacen('/', "//", 1).replacen("/x", "/./x", 1),
                _ => format!("./{x}"),
            };
        }
        g.o.inputs.push(x);
    }
    let len = g.cfg.files[0].data.len();
    match g.below(8) {
        0 => {}
        1 => {
            g.o.lines = Some(g.ranges(10, 10, 2, true));
            if g.pct(30) {
                g.o.out = Out::Name(vec![T::Lit("-".into())]);
            } else if g.pct(20) {
                g.o.out = Out::Name(vec![]);
            }
        }
        2 => g.o.out_fmt = Some(g.pick(&["x", "b", "d"]).into()),
        3 => {
            g.o.cut = Some(g.ranges(len, 20, 2, true));
        }
        4 => {
            g.o.pad = Some((g.below(20) as u64, g.below(20) as u64));
        }
        5 => {
            let r = g.recs(len, 6, 40);
            let text = g.render_recs(&r, false);
            let n = g.source(text, false);
            g.o.patch = Some(n);
        }
        6 => {
            let p = g.good_prog();
            g.cfg.programs.push(p);
            g.o.out = Out::PatchBack(0);
            g.cfg.sched = g.sched();
            g.cfg.pipe_cap = g.pipe_cap();
        }
        _ => {
            let d = g.cfg.files[0].data.clone();
            g.o.slicer = g.find(&d);
            g.o.invert = Some(vec![R { s: None, e: None }]);
        }
    }
    if g.pct(20) {
        embed(g, "");
    }
    g.bystanders();
}

/// a pipeline to put between a faulty source and a sink
fn any_pipeline(g: &mut G) {
    modest(g);
    let len = match g.below(6) {
        0 => {
            g.o.cat = Some(1 + g.below(20) as u64);
            inputs(g, 4)
        }
        1 => {
            g.o.zip = Some(1 + g.below(8) as u64);
            inputs(g, 4)
        }
        2 => {
            let f = g.pick(&["x", "nnx", "d"]);
            g.o.in_fmt = Some(f.into());
            text_input(g, f)
        }
        _ => inputs(g, 3),
    };
    filler(g, 20);
    let len = bytes_stages(g, len, 20);
    slicer(g, len);
    if g.pct(3) {
        // a pipeline that fails by itself somewhere
        g.o.slicer = Slicer::Walk(vec![W::Field { ty: 'b', idx: 0, mul: 1, add: g.r.below(3) as i64 }]);
    }
    slice_stages(g, 15);
    out_any(g);
}

fn bad_line(g: &mut G, dec: bool) -> String {
    if g.pct(45) {
        // a record with a character or two that don't belong there (or do, by chance)
        let body: Vec<u8> = (0..g.below(70)).map(|_| g.below(256) as u8).collect();
        let r = Rec { offset: 0xfff00 + g.below(4096), span: g.below(100), body };
        let plain = g.pct(50);
        let mut l: Vec<char> = g.render_rec(&r, dec, plain).chars().collect();
        l.pop();
        for _ in 0..g.pick(&[1, 1, 1, 2]) {
            let c = g.pick(&[' ', ' ', '|', '|', ':', '-', '.', 'z', 'g', '0', 'f', 'F', '\t', '\r', '\u{1}', '\u{1}', '\u{1}', '\u{1}', '\u{1}', '\u{1}', '~', '/', '@', '`', ',', '{', 'x']);
            let i = if g.pct(60) { g.below(std::cmp::min(l.len(), 16) + 1) } else { g.below(l.len() + 1) };
            match g.below(3) {
                0 => l.insert(i, c),
                1 if i < l.len() => {
                    l.remove(i);
                }
                _ if i < l.len() => l[i] = c,
                _ => l.push(c),
            }
        }
        l.push('\n');
        return l.into_iter().collect();
    }
    if dec {
        return g
            .pick(&["this is not a record\n", "1x 4 | 00 11 22 33\n", "99999 zz | 00\n", "99999 4 | 0g 11 22 33\n", "99999 4| 00 11 22 33\n", "36893488147419103232 4 | 00 11 22 33\n", "18446744073709551616000001 4 | 00 11 22 33\n", "99999999 36893488147419103232 | 00\n", "18446744073709551615 0 | 41\n", "999999999999999999999999999999999 4 | 00\n", "99999 \u{1} | 00 11\n", "\u{1}\u{1}\n"])
            .to_string();
    }
    g.pick(&[
        "this is not a record\n",
        "zz 04 | 00 11 22 33\n",
        "ffffff zz | 00 11\n",
        "ffffff 04 | 0g 11 22 33\n",
        "ffffff 04 | 00 11 2x 33 |    \n",
        "ffffff\n",
        "ffffff 04| 00 11 22 33\n",
        "ffffff 04 : 00 11 22 33\n",
        "ffffff 04  | 00 11 22 33\n",
        "0123456789abcdef01 04 | 00 11 22 33\n",
        "ffffff 04 | 001122 33\n",
        "ffffff 04 | 00-11 22 33\n",
        "|\n",
        "\n",
        "  \n",
        ": 10\n",
        "\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}\n",
        "ffffff \u{1} | 00 11\n",
        "ffffff 04 | 00 11 22 \u{1}3 33 44 55 66 77 88\n",
        "a text that is longer than what fits in a message, with \u{1} inside\n",
        "a text that is longer than this\u{1}\u{1}\u{1}\u{1}\n",
    ])
    .to_string()
}

/// a record list whose first defect is at a chosen place; returns the text
fn bad_records(g: &mut G, n: usize, dec: bool, order_matters: bool) -> Vec<u8> {
    let mut recs = g.recs(n, 20, 60);
    if recs.is_empty() {
        recs.push(Rec { offset: 3, span: 4, body: b"abcd".to_vec() });
    }
    let at = match g.below(4) {
        0 => 0,
        1 => recs.len(),
        _ => g.below(recs.len() + 1),
    };
    let plain = g.pct(50);
    let mut lines: Vec<String> = recs.iter().map(|r| g.render_rec(r, dec, plain)).collect();
    let end = recs[..at].last().map_or(0, |r| r.offset + r.span);
    let overlap = order_matters && at > 0 && end > 0 && g.pct(45);
    let line = if overlap {
        let o = if g.pct(50) { end - 1 } else { g.below(end) };
        let r = Rec { offset: o, span: g.below(20), body: b"\x11\x22\x33".to_vec() };
        g.render_rec(&r, dec, plain)
    } else {
        bad_line(g, dec)
    };
    lines.insert(at, line);
    if g.pct(30) {
        lines.truncate(at + 1);
    }
    let mut s = lines.concat();
    if g.pct(25) {
        s.pop();
    }
    // bytes that are not UTF-8
    let mut v = s.into_bytes();
    for x in v.iter_mut().filter(|x| **x == 1) {
        *x = if g.pct(30) { g.pick(&[0xff, 0x80, 0xe3, 0xc0, 0xf0, 0xfe, 0]) } else { g.below(256) as u8 };
    }
    v
}

pub fn gen_case(prop: &str, seed: u64, avx2: bool) -> Case {
    let mut g = G::new(seed, avx2);
    let mut kind = "exact";
    match prop {
        "C01" => {
            let n = g.below(6);
            if g.pct(80) {
                let c = match g.below(4) {
                    0 => 1,
                    1 => 1 + g.below(16),
                    2 => g.pick(&[16, 64, 145, 146, 256, 1000]),
                    _ => 1 + g.below(3 * g.bs.min(2000)),
                };
                g.o.cat = Some(c as u64);
            }
            for _ in 0..n {
                let l = if n > 2 && !g.big { g.len() / 2 } else { g.len() };
                let l = if g.big && n > 2 { l / 2 } else { l };
                let d = g.data(l);
                g.input(d);
            }
            if n == 0 || (g.o.inputs.is_empty() && g.cfg.stdin.is_none()) {
                let l = g.len();
                let d = g.data(l);
                g.input(d);
            }
            filler(&mut g, 50);
            fmt_b(&mut g, 85);
        }
        "C02" => {
            let w = match g.below(4) {
                0 => 1 + g.below(4),
                1 => 1 + g.below(20),
                2 => g.pick(&[1, 2, 4, 8, 16, 32, 64]),
                _ => 1 + g.below(400),
            };
            g.o.zip = Some(w as u64);
            let n = match g.below(4) {
                0 => 1 + g.below(2),
                1 | 2 => 2 + g.below(5),
                _ => 1 + g.below(12),
            };
            let base = g.len() / if g.big { 2 } else { 1 };
            let jitter = g.below(3);
            for _ in 0..n {
                let l = match jitter {
                    0 => base,
                    1 => (base + g.below(2 * w + 3)).saturating_sub(w),
                    _ => g.len() / if g.big { 2 } else { 1 },
                };
                let d = g.data(l);
                g.input(d);
            }
            filler(&mut g, 50);
            fmt_b(&mut g, 90);
            if n > 1 && g.pct(15) {
                // all but one may be endless
                for i in 1..g.cfg.files.len() {
                    if g.pct(60) && !g.cfg.files[i].data.is_empty() {
                        g.cfg.files[i].endless = true;
                    }
                }
            }
        }
        "C03" => {
            let f = g.pick(&["x", "xxx", "x", "nnx", "n,n,x", "d", "ddx", "x,x,x"]);
            g.o.in_fmt = Some(f.to_string());
            let n = if g.pct(75) { 1 } else { 2 + g.below(2) };
            for _ in 0..n {
                text_input(&mut g, f);
            }
            if g.pct(25) {
                if g.pct(50) {
                    g.o.cat = Some(1 + g.below(40) as u64);
                } else {
                    g.o.zip = Some(1 + g.below(8) as u64);
                }
            }
            filler(&mut g, 50);
            fmt_b(&mut g, 80);
        }
        "C04" => {
            let len = inputs(&mut g, 3);
            if g.pct(85) {
                let near = g.pick(&[5, 40, 300]);
                g.o.cut = Some(g.ranges(len, near, 6, true));
            }
            if g.pct(50) {
                let a = g.len() / 2;
                let b = g.small(400);
                g.o.pad = Some(if g.pct(50) { (a as u64, b as u64) } else { (b as u64, a as u64) });
            }
            filler(&mut g, 40);
            fmt_b(&mut g, 85);
        }
        "C05" => {
            let len = inputs(&mut g, 2);
            let recs = g.recs(len, 30, 40);
            add_patch(&mut g, &recs);
            if g.pct(15) {
                g.o.pad = Some((g.below(30) as u64, g.below(30) as u64));
            }
            filler(&mut g, 20);
            fmt_b(&mut g, 85);
        }
        "C06" => {
            modest(&mut g);
            let which = g.below(4);
            match which {
                0 => {
                    let f = g.pick(&["x", "x", "nnx", "d"]);
                    g.o.in_fmt = Some(f.to_string());
                    let l = g.len();
                    let t = bad_records(&mut g, l, f == "d", f != "nnx");
                    if g.pct(25) {
                        text_input(&mut g, f);
                    }
                    g.input(t);
                    if g.pct(15) {
                        text_input(&mut g, f);
                    }
                }
                1 => {
                    let len = inputs(&mut g, 2);
                    let t = bad_records(&mut g, len, false, true);
                    let n = g.source(t, false);
                    g.o.patch = Some(n);
                }
                2 => {
                    let len = inputs(&mut g, 2);
                    let recs = g.guide_recs(len, 12);
                    let plain = g.pct(50);
                    let mut lines: Vec<String> = recs.iter().map(|r| g.render_rec(r, false, plain)).collect();
                    let at = g.below(lines.len() + 1);
                    let b = bad_line(&mut g, false);
                    lines.insert(at, b);
                    let n = g.source(lines.concat().into_bytes(), false);
                    g.o.slicer = Slicer::Guide(n);
                }
                _ => {
                    // valid files are never rejected
                    let len = inputs(&mut g, 2);
                    let recs = g.recs(len, 30, 40);
                    add_patch(&mut g, &recs);
                    let recs = g.guide_recs(len, 20);
                    let t = g.render_recs(&recs, false);
                    let n = g.source(t, false);
                    g.o.slicer = Slicer::Guide(n);
                }
            }
            fmt_b(&mut g, 50);
        }
        "C07" => {
            let len = inputs(&mut g, 2);
            if g.pct(60) {
                g.o.slicer = g.width(len);
            } else {
                let near = g.pick(&[5, 40, 300]);
                g.o.slicer = Slicer::Slice(g.ranges(len, near, 10, true));
            }
            out_any(&mut g);
        }
        "C08" => {
            let l = g.len();
            let d = g.data(l);
            g.o.slicer = g.find(&d);
            g.input(d);
            out_any(&mut g);
        }
        "C09" => {
            let l = g.len().min(30_000);
            let (s, d) = g.walk(l);
            g.o.slicer = s;
            g.input(d);
            out_any(&mut g);
        }
        "C10" => {
            let len = inputs(&mut g, 2);
            let r = g.guide_recs(len, 40);
            add_guide(&mut g, &r);
            out_any(&mut g);
        }
        "C11" => {
            modest(&mut g);
            let len = inputs(&mut g, 2);
            slicer(&mut g, len);
            if g.pct(25) {
                // one slice over everything
                g.o.slicer = Slicer::Slice(vec![R { s: None, e: None }]);
            }
            g.o.regex = Some(g.regex());
            out_any(&mut g);
        }
        "C12" => {
            let len = inputs(&mut g, 2);
            slicer(&mut g, len);
            let near = if g.big { g.pick(&[20, 200, 70_000, 2_500_000]) } else { g.pick(&[3, 20, 200]) };
            match g.below(3) {
                0 => g.o.invert = Some(g.mappings(near)),
                1 => g.o.extend = Some(g.mappings(near)),
                _ => {
                    g.o.invert = Some(g.mappings(near));
                    g.o.extend = Some(g.mappings(near));
                }
            }
            out_any(&mut g);
        }
        "C13" => {
            let len = inputs(&mut g, 2);
            slicer(&mut g, len);
            if g.pct(20) {
                g.o.extend = Some(g.mappings(10));
            }
            if g.pct(65) {
                let u = g.unit();
                g.o.merge = Some(match g.below(5) {
                    0 => 0,
                    1 | 2 => g.below(20) as u64,
                    3 => g.below(u) as u64,
                    _ if g.big => g.below(2 * u) as u64,
                    _ => 1_000_000,
                });
                // exactly as far apart as they are, or just not
                if let Slicer::Width(n, r) = &g.o.slicer {
                    let (s, e) = crate::model::width_span(*n, r).unwrap_or((0, *n as i64));
                    let gap = *n as i64 - (e - s);
                    if gap >= 0 && g.pct(40) {
                        g.o.merge = Some((gap - 1 + g.below(3) as i64).max(0) as u64);
                    }
                }
            }
            if g.o.merge.is_none() || g.pct(50) {
                let near = if g.big { g.pick(&[3, 40, 2000]) } else { g.pick(&[3, 10, 40]) };
                g.o.lines = Some(g.ranges(2 * near, near, 4, true));
            }
            out_any(&mut g);
        }
        "C14" => {
            let k = g.below(4);
            if k == 0 {
                // dump, then read back as input
                kind = "roundtrip-input";
                let l = g.len();
                let d = g.data(l);
                g.input(d);
                if g.pct(50) {
                    g.o.slicer = Slicer::Width(1 + g.below(100).max(l / 3000) as u64, None);
                }
                g.o.out_fmt = g.pick(&[None, Some("x"), Some("d"), Some("nnx")]).map(|x| x.to_string());
            } else if k == 1 {
                // dump, then apply to the same stream
                kind = "roundtrip-patch";
                let l = g.len();
                let d = g.data(l);
                let n = g.source(d.clone(), false);
                g.o.inputs.push(n);
                match g.below(4) {
                    0 => {}
                    1 => g.o.slicer = Slicer::Width(1 + g.below(100).max(l / 3000) as u64, None),
                    2 => g.o.slicer = g.find(&d),
                    _ => {
                        g.o.regex = Some(g.regex());
                        g.o.merge = Some(0);
                    }
                }
            } else {
                let len = inputs(&mut g, 2);
                slicer(&mut g, len);
                out_any(&mut g);
            }
        }
        "C15" => {
            modest(&mut g);
            let len = inputs(&mut g, 2).min(2000);
            let n = len / 60 + 1;
            match g.below(8) {
                0 => g.o.slicer = Slicer::Width(n.max(16) as u64, None),
                1 => {
                    let v = g.ranges(len, 30, 6, true);
                    g.o.slicer = Slicer::Slice(v);
                }
                2 => {
                    g.o.slicer = Slicer::Width((n + g.below(50)) as u64, Some(g.mapping(20)));
                    if let Slicer::Width(w, r) = &g.o.slicer {
                        if crate::model::width_span(*w, r).is_none() {
                            g.o.slicer = Slicer::Width(n as u64, None);
                        }
                    }
                }
                3 => {
                    let r = g.guide_recs(len, 10);
                    add_guide(&mut g, &r);
                }
                4 => {
                    // the rest of the input is not needed once the last line is known
                    g.o.slicer = g.pick(&[Slicer::Default, Slicer::Width(1 + (n / 2) as u64, None), Slicer::Walk(vec![W::Const(n as i64)])]);
                    g.o.lines = Some(g.ranges(8, 8, 2, false));
                }
                _ => {
                    let len = bytes_stages(&mut g, len, 15);
                    slicer(&mut g, len);
                    slice_stages(&mut g, 20);
                }
            }
            if g.pct(20) {
                g.o.extend = Some(g.mappings(15));
            }
            if g.pct(15) {
                g.o.merge = Some(g.below(20) as u64);
            }
            let t = match g.below(8) {
                0 => vec![T::Lit("o/fixed.out".into())],
                1 => vec![T::Lit("-".into())],
                2 => vec![T::Lit("/dev/null".into())],
                _ => template(&mut g),
            };
            g.o.out = Out::Name(t);
            out_any(&mut g);
            if g.pct(40) {
                let d = g.delivery(1000);
                g.cfg.deliveries.push(("*".into(), d));
            }
            // files left over from before
            kind = "scatter";
            g.bystanders();
            if g.pct(25) {
                kind = "scatter-fault";
            }
        }
        "C16" => {
            let wild = patch_back(&mut g);
            let mut p = g.good_prog();
            if wild {
                p.f.push(LineFn::Disjoint);
            }
            g.cfg.programs.push(p);
            kind = "patch-back";
        }
        "C17" => {
            modest(&mut g);
            patch_back(&mut g);
            let mut p = g.good_prog();
            kind = "patch-back-fail";
            match g.below(12) {
                9 => {
                    // the slices themselves can't be made
                    g.o.slicer = Slicer::Walk(vec![W::Field { ty: 'b', idx: 0, mul: 1, add: g.r.below(2) as i64 }]);
                    g.o.regex = None;
                }
                10 => {
                    // the cache outgrows the memory, then the disk
                    if g.bs == 145 && g.o.cut.is_none() && !g.cfg.files.is_empty() {
                        let l = 128 * g.bs + g.below(20 * g.bs);
                        let d = g.data(l);
                        let i = g.cfg.files.len() - 1;
                        g.cfg.files[i].data = d;
                        g.cfg.disk_free = Some((l - g.below(3 * g.bs)) as u64);
                    }
                    kind = "patch-back-full";
                }
                0 | 1 => p.end = g.fail_end(),
                2 => {
                    p.f.push(LineFn::Garbage(g.below(6) as u32));
                }
                3 => {
                    p.prefix = bad_line(&mut g, false).into_bytes();
                }
                4 => {
                    p.out_limit = Some(g.below(300) as u64);
                    p.die_at_limit = g.pct(70);
                    p.end = g.fail_end();
                }
                5 => {
                    p.read_limit = Some(g.below(300) as u64);
                    p.end = g.fail_end();
                }
                6 => {
                    p.ignore_stdin = true;
                    p.end = g.fail_end();
                    if g.pct(20) {
                        g.o.out = Out::PatchBackRaw("nosuchcmd".into());
                    }
                }
                _ => {
                    kind = "patch-back-fault";
                }
            }
            g.cfg.programs.push(p);
        }
        "C18" => {
            modest(&mut g);
            inplace(&mut g);
            kind = match g.below(4) {
                0 => "inplace",
                1 => {
                    if g.pct(50) {
                        g.cfg.disk_free = Some(g.r.below(1500));
                        "inplace-full"
                    } else {
                        // the pipeline itself fails
                        match g.below(3) {
                            0 => g.o.slicer = Slicer::Walk(vec![W::Field { ty: 'b', idx: 0, mul: 1, add: 0 }]),
                            1 => {
                                g.o.in_fmt = Some("x".into());
                                g.o.out = Out::Default;
                            }
                            _ => {
                                let x = g.pick(&["missing", "zz-missing", "a-missing"]);
                                g.o.inputs.push(x.into());
                            }
                        }
                        "inplace"
                    }
                }
                _ if g.pct(20) => "inplace-race",
                _ => "inplace-fault",
            };
        }
        "C19" => {
            modest(&mut g);
            inplace(&mut g);
            kind = "inplace-crash";
        }
        "C20" => {
            any_pipeline(&mut g);
            kind = g.pick(&["eintr", "read-fault", "read-fault", "open-fault"]);
            let judge = if g.pct(25) { sink(&mut g) } else { None };
            if g.o.inplace {
                kind = if kind == "eintr" { "inplace" } else { "inplace-fault" };
            } else if g.o.pager != Pager::None {
                kind = "eintr";
            }
            if kind == "eintr" {
                kind = judge.unwrap_or("exact");
                for d in &mut g.cfg.deliveries {
                    d.1.eintr = 35;
                }
                let names: Vec<String> = g.cfg.files.iter().map(|f| norm(&f.name)).chain(["stdin".to_string()]).collect();
                for n in names {
                    if !g.cfg.deliveries.iter().any(|d| d.0 == n) {
                        g.cfg.deliveries.push((n, Delivery { split: Split::Mixed, eintr: 40, delay: 0, seed: g.r.next() }));
                    }
                }
            }
        }
        "C21" => {
            any_pipeline(&mut g);
            g.cfg.deliveries.retain(|d| d.0 != "w:stdout");
            match g.below(5) {
                0 => {
                    let d = g.delivery(1000);
                    g.cfg.deliveries.push(("w:stdout".into(), Delivery { eintr: 30, ..d }));
                }
                1 => {
                    kind = "stdout-closed";
                    g.cfg.stdout_close_after = Some(g.len() as u64 * g.r.below(4));
                }
                2 if g.pct(60) => {
                    kind = "write-fault";
                    let t = if g.pct(50) { template(&mut g) } else { vec![T::Lit("o/fixed".into())] };
                    if g.o.slicer == Slicer::Default {
                        g.o.slicer = Slicer::Width(200, None);
                    }
                    g.o.out = Out::Name(t);
                    if g.pct(40) {
                        g.cfg.disk_free = Some(g.r.below(2000));
                        kind = "out-full";
                    }
                }
                _ => kind = "write-fault",
            }
        }
        "C22" => {
            any_pipeline(&mut g);
            g.cfg.sched = g.sched();
            g.cfg.pipe_cap = g.pipe_cap();
            let mut p = ProgSpec::cat();
            p.read = g.split();
            p.start_delay = g.pick(&[0, 0, 50, 5000]);
            p.think = g.pick(&[0, 0, 20, 500]);
            p.linger = g.pick(&[0, 50, 5000, 100_000]);
            p.seed = g.r.next();
            kind = "pager";
            match g.below(7) {
                0 => {
                    p.read_limit = Some(g.len() as u64 * g.r.below(3));
                    kind = "pager-quits";
                }
                1 => {
                    p.ignore_stdin = true;
                    kind = "pager-quits";
                }
                2 => p.end = g.fail_end(),
                _ => {}
            }
            g.cfg.programs.push(p);
            match g.below(12) {
                0..=4 => g.o.pager = Pager::Opt(0),
                10 | 11 => {
                    // a blank pager is no pager
                    let n = g.below(3);
                    if g.pct(50) {
                        g.o.pager = Pager::Blank(n);
                    } else {
                        g.o.pager = Pager::Env(0);
                        g.cfg.env.push(("PAGER".into(), " ".repeat(n)));
                    }
                    if g.pct(50) {
                        g.cfg.tty = [false, true, g.pct(50)];
                        g.cfg.aliases.push(("less".into(), 0));
                    } else {
                        g.cfg.programs.clear();
                        kind = "exact";
                    }
                }
                5 | 6 => {
                    g.o.pager = Pager::Env(0);
                    g.cfg.env.push(("PAGER".into(), "prog 0".into()));
                }
                7 => {
                    // the default pager on a terminal
                    g.o.pager = Pager::Env(0);
                    g.cfg.tty = [false, true, g.pct(50)];
                    g.cfg.aliases.push(("less".into(), 0));
                }
                8 => {
                    g.o.pager = Pager::Missing;
                    kind = "pager-missing";
                }
                _ => {
                    g.o.pager = Pager::Opt(0);
                    g.cfg.env.push(("PAGER".into(), "nonsense".into()));
                }
            }
            if g.pct(10) {
                // a terminal without any pager installed
                g.o.pager = Pager::None;
                g.cfg.env.clear();
                g.cfg.tty[1] = true;
                g.cfg.aliases.clear();
                kind = "pager-missing";
            }
        }
        "C23" => {
            if g.pct(45) {
                kind = "ends";
                modest(&mut g);
                patch_back(&mut g);
                let mut p = g.good_prog();
                match g.below(8) {
                    0 => p.ignore_stdin = true,
                    1 => p.read_limit = Some(g.below(500) as u64),
                    2 => p.out_limit = Some(g.below(500) as u64),
                    3 => {
                        p.f = vec![LineFn::Grow(20)];
                        g.cfg.pipe_cap = 1 + g.below(300);
                    }
                    4 => {
                        // writes a lot before it reads anything
                        for i in 0..200 {
                            p.prefix.extend_from_slice(format!("{:x} 0 | 41 42 43 44 45 46 47 48 49\n", i).as_bytes());
                        }
                        g.cfg.pipe_cap = 1 + g.below(100);
                    }
                    5 => p.end = g.fail_end(),
                    6 => p.collect = true,
                    _ => {}
                }
                if g.pct(30) {
                    g.cfg.stdout_close_after = Some(g.len() as u64);
                }
                g.cfg.programs.push(p);
            } else if g.pct(50) {
                kind = "ends";
                any_pipeline(&mut g);
                if g.pct(30) {
                    g.cfg.stdout_close_after = Some(g.len() as u64);
                }
                if g.pct(35) {
                    sink(&mut g);
                }
                if g.pct(30) && g.cfg.programs.is_empty() && !g.o.inplace {
                    let mut p = ProgSpec::cat();
                    p.read_limit = Some(g.len() as u64);
                    p.seed = g.r.next();
                    p.linger = g.pick(&[0, 5000]);
                    g.cfg.programs.push(p);
                    g.o.pager = Pager::Opt(0);
                    g.cfg.sched = g.sched();
                    g.cfg.pipe_cap = g.pipe_cap();
                }
            } else {
                kind = "endless";
                modest(&mut g);
                let l = 1 + g.len();
                let d = g.data(l);
                if g.pct(50) {
                    g.cfg.stdin = Some(FileSpec { name: "stdin".into(), data: d, endless: true, mode: 0 });
                    g.add_delivery("stdin", 50_000);
                } else {
                    let n = g.name();
                    g.add_file(&n, d);
                    g.add_delivery(&n, 50_000);
                    g.cfg.files.last_mut().unwrap().endless = true;
                    g.o.inputs.push(n);
                }
                match g.below(6) {
                    0 => g.o.slicer = Slicer::Width(1 + g.below(300) as u64, None),
                    1 => g.o.out_fmt = Some("b".into()),
                    2 => g.o.cut = Some(vec![R { s: Some(A { end: false, off: g.below(2000) as i64 }), e: None }]),
                    3 => g.o.cut = Some(vec![R { s: None, e: Some(A { end: true, off: -(g.below(2000) as i64) }) }]),
                    4 => g.o.pad = Some((g.below(1000) as u64, 3)),
                    _ => {}
                }
                if g.pct(30) {
                    // whatever it selects must not be empty for every slice
                    let e = g.below(20) as i64;
                    g.o.extend = Some(vec![R { s: None, e: Some(A { end: true, off: e }) }]);
                }
                let lim = match g.below(3) {
                    0 => g.below(3),
                    1 => g.below(500),
                    _ => g.below(if g.bs > 100_000 { 3_000_000 } else { 30_000 }),
                };
                if g.pct(30) && g.bs < 100_000 {
                    // through a command that keeps up
                    let mut p = ProgSpec::cat();
                    if g.pct(30) {
                        p.f = vec![LineFn::Only(1 + g.below(4) as u32, 0), LineFn::Disjoint];
                    }
                    p.read = g.split();
                    p.write = g.split();
                    p.start_delay = g.pick(&[0, 0, 50, 5000]);
                    p.seed = g.r.next();
                    g.cfg.programs.push(p);
                    g.o.extend = None;
                    g.o.out_fmt = None;
                    g.o.out = Out::PatchBack(0);
                    // (a schedule that is not fair can run the command's side forever)
                    let s = g.r.next();
                    g.cfg.sched = if g.pct(50) { Sched::Uniform(s) } else { Sched::Sticky(s, g.pick(&[30, 60, 80])) };
                    g.cfg.pipe_cap = g.pipe_cap();
                    g.cfg.stdout_close_after = Some(lim as u64);
                } else if g.pct(30) {
                    let mut p = ProgSpec::cat();
                    p.read_limit = Some(lim as u64);
                    p.seed = g.r.next();
                    g.cfg.programs.push(p);
                    g.o.pager = Pager::Opt(0);
                    g.cfg.sched = g.sched();
                } else {
                    g.cfg.stdout_close_after = Some(lim as u64);
                }
            }
        }
        "C24" => {
            return crate::mem::gen(g);
        }
        "C25" => {
            let len = match g.below(6) {
                0 => {
                    g.o.cat = Some(1 + g.below(20) as u64);
                    inputs(&mut g, 4)
                }
                1 => {
                    g.o.zip = Some(1 + g.below(8) as u64);
                    inputs(&mut g, 4)
                }
                2 => {
                    let f = g.pick(&["x", "nnx", "d"]);
                    g.o.in_fmt = Some(f.into());
                    text_input(&mut g, f)
                }
                _ => inputs(&mut g, 3),
            };
            if g.big {
                g.big = false;
            }
            filler(&mut g, 30);
            let len = bytes_stages(&mut g, len, 40);
            slicer(&mut g, len);
            slice_stages(&mut g, 40);
            out_any(&mut g);
            if g.pct(25) {
                kind = sink(&mut g).unwrap_or(kind);
            }
        }
        "C26" => {
            modest(&mut g);
            kind = "files";
            match g.below(5) {
                0 => {
                    inplace(&mut g);
                }
                1 => {
                    patch_back(&mut g);
                    let p = g.good_prog();
                    g.cfg.programs.push(p);
                    g.bystanders();
                }
                2 => {
                    any_pipeline(&mut g);
                    g.o.out = Out::Name(if g.pct(70) { template(&mut g) } else { vec![T::Lit("o/fixed".into())] });
                    if g.o.slicer == Slicer::Default {
                        g.o.slicer = Slicer::Width(200, None);
                    }
                    g.bystanders();
                }
                _ => {
                    any_pipeline(&mut g);
                    g.bystanders();
                }
            }
            if g.pct(60) {
                kind = "files-fault";
            }
            if g.o.inplace && g.pct(35) {
                kind = "inplace-race";
            }
        }
        "C27" => {
            match g.below(20) {
                0..=7 => {
                    let l = g.len().min(20_000);
                    let d = g.data(l);
                    g.input(d);
                    g.o.slicer = g.walk_exprs();
                    if g.pct(30) {
                        g.o.out_fmt = Some("b".into());
                    }
                    out_any(&mut g);
                }
                8..=11 => {
                    modest(&mut g);
                    let len = inputs(&mut g, 2).min(2000);
                    let n = len / 60 + 1;
                    g.o.slicer = match g.below(3) {
                        0 => Slicer::Width(n.max(16) as u64, None),
                        1 => Slicer::Slice(g.ranges(len, 30, 6, true)),
                        _ => Slicer::Width((n + g.below(50)) as u64, None),
                    };
                    let mut t = vec![T::Lit("o/".into())];
                    for i in 0..1 + g.below(2) {
                        if i > 0 {
                            t.push(T::Lit("-".into()));
                        }
                        let d = 1 + g.below(4) as u32;
                        let mut leaf = |r: &mut Rng| E::V(if r.pct(50) { 'n' } else { 'l' });
                        let mut e = rand_expr(&mut g.r, d, &mut leaf);
                        if !e.has_var() {
                            e = E::b("+", e, E::V('n'));
                        }
                        let mut radix = 'd';
                        let mut width = 0;
                        if g.pct(40) {
                            let m = g.pick(&[1, 15, 255, 0xffff, 0xffff_ffff_ffff]);
                            e = if g.pct(50) { E::b("&", e, E::c(m)) } else { E::b("&", E::c(m), e) };
                            radix = g.pick(&['d', 'x', 'x', 'b', 'o']);
                            width = g.pick(&[0, 0, 2, 8]);
                        }
                        t.push(T::Expr { e, radix, width });
                    }
                    g.o.out = Out::Name(t);
                    out_any(&mut g);
                    kind = "scatter";
                }
                12..=17 => {
                    // numbers and ranges anywhere
                    let p = g.pick(&["C01", "C04", "C05", "C07", "C12", "C13", "C14", "C13"]);
                    let mut c = gen_case(p, g.r.next(), avx2);
                    c.prop = prop.to_string();
                    c.opts.expr = g.r.next() | 1;
                    return c;
                }
                _ => {
                    any_pipeline(&mut g);
                    g.bystanders();
                    kind = "contradiction";
                    bad_expression(&mut g);
                }
            }
        }
        "C28" => {
            any_pipeline(&mut g);
            g.bystanders();
            kind = "contradiction";
            contradict(&mut g);
        }
        _ => panic!("no such property {prop}"),
    }
    if matches!(prop, "C15" | "C16" | "C17" | "C18" | "C19" | "C20" | "C26") && g.pct(20) {
        // files take part of what is written to them
        let d = g.delivery(200);
        g.cfg.deliveries.push(("w:*".into(), d));
    }
    if kind == "exact" && prop <= "C14" && prop != "C06" && g.pct(35) {
        kind = embed(&mut g, kind);
    }
    if g.cfg.stdin.is_none() && (g.o.inputs.is_empty() || g.o.inputs.iter().any(|x| x == "-")) && !g.o.inplace && kind != "contradiction" {
        let d = g.data(30);
        g.cfg.stdin = Some(FileSpec { name: "stdin".into(), data: d, endless: false, mode: 0 });
    }
    g.finish(prop, kind)
}

/// an option of an expression that is none
fn bad_expression(g: &mut G) {
    let n = 1 + g.below(200) as i64;
    let d = g.below(4) as u32;
    let e = format!("({})", worth(&mut g.r, n, d).show());
    let k = g.below(14);
    let x = match g.below(8) {
        // (a division that is never made doesn't matter)
        0 if k != 11 => format!("{e}/0"),
        1 if k != 11 => format!("{e} % (1 - 1)"),
        _ => broken(&mut g.r, &e),
    };
    let v = match k {
        0 | 1 => format!("--width={x}"),
        2 => format!("--cat={x}"),
        3 => format!("--zip={x}"),
        4 => format!("--filler={x}"),
        5 if !x.is_empty() => format!("--pad={x},1"),
        6 if !x.is_empty() => format!("--pad=1,{x}"),
        7 => format!("--merge={x}"),
        8 if !x.is_empty() => format!("--cut={x}..{e}"),
        9 if !x.is_empty() => format!("--slice=s..{x}"),
        10 if !x.is_empty() => format!("--extend={x}..e"),
        11 if !x.contains(&['}', ':', '/', '%'][..]) => format!("--output=o/{{({x})}}"),
        k => {
            let y = g.pick(&["b", "b[", "b[]", "b[1", "b(1)", "x[0]", "b[0][1]", "[0]", "b[(0])", "b 0", "b]0[", "b[0", "(b[0)]", "b[0] l[0]", "b[0]b", "b.0", "n", "b[]+1", "(b[0]", "b[0])", "b[0[", "h[b]", "h[b]]"]);
            if k < 12 { format!("--walk={x}") } else { format!("--walk={y}") }
        }
    };
    let k = v.split_once('=').unwrap().0;
    match k {
        "--width" | "--slice" | "--walk" => g.o.slicer = Slicer::Default,
        "--cat" | "--zip" => {
            g.o.cat = None;
            g.o.zip = None;
            g.o.inplace = false;
        }
        "--filler" => g.o.filler = None,
        "--pad" => g.o.pad = None,
        "--merge" => g.o.merge = None,
        "--cut" => g.o.cut = None,
        "--extend" => g.o.extend = None,
        _ => {
            g.o.inplace = false;
            g.o.out = Out::Default;
        }
    }
    g.o.extra = vec![v];
}

fn contradict(g: &mut G) {
    // make sure there is something a careless program could overwrite
    if g.pct(50) && g.o.out == Out::Default {
        g.o.out = Out::Name(vec![T::Lit("bystander".into())]);
    }
    match g.below(14) {
        13 => {
            // the file would be left without its new contents
            g.o.inplace = true;
            g.o.cat = None;
            g.o.zip = None;
            g.o.in_fmt = None;
            if g.o.inputs.is_empty() || g.o.inputs.iter().any(|x| x == "-" || x == "/dev/stdin") {
                g.o.inputs = vec!["bystander".into()];
            }
            let t = match g.below(4) {
                0 => vec![T::Lit("bystander".into())],
                1 => vec![T::Lit(g.o.inputs[0].clone())],
                2 => vec![T::Lit("o/new".into())],
                _ => template(g),
            };
            g.o.out = Out::Name(t);
        }
        9 => {
            // a value that is out of range
            let (k, v) = g.pick(&[
                ("width", "--width=0"),
                ("width", "--width=-4"),
                ("width", "--width=8,e..s"),
                ("width", "--width=8,s+5..s+5"),
                ("width", "--width=18446744073709551632"),
                ("width", "--width=4,s-9223372036854775807..e"),
                ("width", "--width=4,s..e,1"),
                ("cat", "--cat=-1"),
                ("cat", "--cat=18446744073709551617"),
                ("zip", "--zip=-2"),
                ("zip", "--zip=0x10000000000000002"),
                ("filler", "--filler=-1"),
                ("filler", "--filler=18446744073709551616"),
                ("filler", "--filler=0x10000000000000020"),
                ("filler", "--filler=256"),
                ("filler", "--filler=1e"),
                ("pad", "--pad=-1,2"),
                ("pad", "--pad=1,-2"),
                ("pad", "--pad=18446744073709551617,0"),
                ("merge", "--merge=-1"),
                ("merge", "--merge=18446744073709551617"),
                ("cut", "--cut=18446744073709551617..18446744073709551619"),
                ("lines", "--lines=0..18446744073709551617"),
                ("slice", "--slice=1..18446744073709551619"),
                ("slice", "--slice=1"),
                ("slice", "--slice=1..2..3"),
                ("cut", "--cut=2*s..e"),
                ("extend", "--extend=s..q"),
                ("extend", "--extend="),
                ("invert", "--invert="),
                ("out_fmt", "--out-format=z"),
                ("out_fmt", "--out-format=d,x,x"),
                ("out_fmt", "--out-format=n,n,d"),
                ("out_fmt", "--out-format=x,x,b"),
                ("out_fmt", "--out-format=n,n,=u"),
                ("in_fmt", "--in-format=n,n,d"),
                ("in_fmt", "--in-format=x,x,b"),
                ("in_fmt", "--in-format=b,x,x"),
                ("in_fmt", "--in-format=bb"),
                ("find", "--find=zz"),
            ]);
            match k {
                "width" | "slice" | "find" => g.o.slicer = Slicer::Default,
                "cat" | "zip" => {
                    g.o.cat = None;
                    g.o.zip = None;
                    g.o.inplace = false;
                }
                "filler" => g.o.filler = None,
                "pad" => g.o.pad = None,
                "merge" => g.o.merge = None,
                "cut" => g.o.cut = None,
                "lines" => g.o.lines = None,
                "extend" => g.o.extend = None,
                "invert" => g.o.invert = None,
                "in_fmt" => g.o.in_fmt = None,
                _ => g.o.out_fmt = None,
            }
            g.o.extra = vec![v.into()];
        }
        10 | 11 => {
            // the standard input twice, once in an option
            let x = g.pick(&["-", "/dev/stdin"]).to_string();
            match g.below(4) {
                0 => {
                    g.o.patch = Some(x);
                    g.o.slicer = Slicer::Guide(g.pick(&["-", "/dev/stdin"]).into());
                }
                1 => {
                    g.o.inputs.clear();
                    g.o.inplace = false;
                    g.o.patch = Some(x);
                }
                2 => {
                    g.o.inputs.clear();
                    g.o.inplace = false;
                    g.o.slicer = Slicer::Guide(x);
                }
                _ => {
                    if !g.o.inputs.iter().any(|x| x == "-") {
                        let y = g.pick(&["-", "/dev/stdin"]);
                        g.o.inputs.push(y.into());
                    }
                    g.o.inplace = false;
                    g.o.slicer = Slicer::Guide(x);
                }
            }
        }
        12 => {
            g.o.inplace = true;
            g.o.cat = Some(1);
            g.o.zip = Some(1);
        }
        0 => {
            g.o.cat = Some(2);
            g.o.zip = Some(2);
        }
        1 => {
            g.o.inplace = true;
            if g.o.cat.is_none() && g.o.zip.is_none() {
                if g.pct(50) {
                    g.o.cat = Some(1);
                } else {
                    g.o.zip = Some(1);
                }
            }
        }
        2 => {
            // two slicers
            let all = ["--width=4", "--find=41", "--walk=3", "--slice=1..2", "--guide=/dev/null"];
            let a = g.below(all.len());
            let b = (a + 1 + g.below(all.len() - 1)) % all.len();
            g.o.slicer = Slicer::Default;
            g.o.extra = vec![all[a].into(), all[b].into()];
        }
        3 => {
            g.o.out = Out::Name(vec![T::Lit("bystander".into())]);
            g.cfg.programs.push(ProgSpec { end: ProgEnd::Exit(0), ..ProgSpec::cat() });
            g.o.extra = vec!["--patch-back=prog 0".into()];
        }
        4 => {
            g.o.inputs.push("-".into());
            let x = g.pick(&["-", "/dev/stdin"]);
            g.o.inputs.push(x.into());
        }
        5 => {
            if !g.o.inputs.iter().any(|x| x == "-") {
                g.o.inputs.push("-".into());
            }
            g.o.patch = Some(g.pick(&["-", "/dev/stdin"]).into());
        }
        6 => {
            g.o.inplace = true;
            g.o.cat = None;
            g.o.zip = None;
            g.o.inputs = vec![g.pick(&["-", "/dev/stdin"]).into(), "bystander".into()];
        }
        7 => {
            g.o.filler = Some(256 + g.below(1000) as u64);
        }
        _ => {
            if g.pct(50) {
                g.o.zip = None;
                g.o.cat = Some(0);
            } else {
                g.o.cat = None;
                g.o.zip = Some(0);
            }
            g.o.inplace = false;
        }
    }
}
