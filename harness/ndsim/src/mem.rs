//! C24: pipelines that need local context only; peak memory at two lengths, and how far reading runs ahead of printing.
use crate::gen::*;
use crate::opts::*;
use simstd::prog::ProgSpec;
use simstd::rt::Split;


/// aux = [0: memory | 1: lookahead, hold-back distance in bytes of the stream, length]
pub fn gen(mut g: G) -> Case {
    g.big = false;
    // small blocks only: the same code with cheaper runs
    while BLOCK[g.lib] > 100_000 {
        g.lib = g.pick(&[0, 0, 3]);
    }
    g.bs = BLOCK[g.lib];
    let look = g.pct(50);
    let patch_back = !look && g.pct(15);
    if patch_back && BLOCK[g.lib] > 200 {
        // (with short blocks, the cache goes to the disk early)
        g.lib = 0;
        g.bs = BLOCK[g.lib];
    }
    let bs = g.bs;
    // well above the 8 KiB buffer of the standard input
    let quarter = std::cmp::max(if bs > 2000 { 15 } else { 40 } * bs, 60_000) + g.below(bs);
    let len = 4 * quarter;
    let mut data = Vec::with_capacity(len);
    let piece = 500 + g.below(2 * bs);
    let piece = g.data(piece);
    while data.len() < len {
        data.extend_from_slice(&piece);
    }
    data.truncate(len);
    let mut hold = 0usize;
    let pos = |off: usize| A { end: false, off: off as i64 };
    let tail = |off: usize| A { end: true, off: -(off as i64) };

    // input construction
    match g.below(8) {
        0 | 1 if !look => {
            let n = 1 + g.below(3);
            let w = 1 + g.below(20);
            // (with blocks not much larger than the margin of the buffers, zip reads sources of different delivery unevenly)
            if bs > 2000 && g.pct(50) {
                g.o.zip = Some(w as u64);
            } else {
                g.o.cat = Some(w as u64);
            }
            for _ in 0..n {
                let nm = g.name();
                g.add_file(&nm, data.clone());
                g.add_delivery(&nm, len);
                g.o.inputs.push(nm);
            }
        }
        2 => {
            // hex dump of the same bytes
            let mut s = String::new();
            for (i, c) in data.chunks(16).enumerate() {
                s.push_str(&format!("{:x} {:x} | ", i * 16, c.len()));
                for b in c {
                    s.push_str(&format!("{b:02x} "));
                }
                s.push('\n');
            }
            g.o.in_fmt = Some(g.pick(&["x", "nnx"]).into());
            g.input(s.into_bytes());
        }
        _ => g.input(data.clone()),
    }
    // a source must not hold its data back by itself
    for d in &mut g.cfg.deliveries {
        d.1.delay = 0;
    }
    let mut shift = 0usize;
    if g.pct(20) {
        let a = g.below(2 * bs);
        if g.pct(50) {
            g.o.cut = Some(vec![R { s: Some(pos(a)), e: None }]);
            shift += a;
        } else {
            g.o.cut = Some(vec![R { s: Some(pos(a)), e: Some(tail(a)) }]);
            shift += a;
            hold += a;
        }
    }
    if g.pct(20) {
        g.o.pad = Some((g.below(2 * bs) as u64, g.below(2 * bs) as u64));
    }
    if g.pct(20) {
        let mut s = String::new();
        let step = 20 + g.below(bs);
        for i in (0..len.saturating_sub(step)).step_by(step) {
            s.push_str(&format!("{:x} 3 | 41 42 43\n", i));
        }
        let n = g.name();
        g.add_file(&n, s.into_bytes());
        g.o.patch = Some(n);
    }
    match g.below(8) {
        0 => {}
        1 | 2 => g.o.slicer = Slicer::Width(12 + g.below(100) as u64, None),
        3 => g.o.slicer = Slicer::Width(20 + g.below(20) as u64, Some(R { s: Some(A { end: false, off: -5 }), e: Some(A { end: true, off: 7 }) })),
        4 => {
            let i = g.below(piece.len() - 1);
            g.o.slicer = Slicer::Find(piece[i..std::cmp::min(i + 4, piece.len())].to_vec());
        }
        5 => g.o.slicer = Slicer::Walk(vec![W::Const(30), W::Const(7 + g.below(50) as i64)]),
        6 => {
            let mut s = String::new();
            let step = 20 + g.below(60);
            for i in (0..len).step_by(step) {
                s.push_str(&format!("{:x} {:x}\n", i, 1 + step / 2));
            }
            let n = g.name();
            g.add_file(&n, s.into_bytes());
            g.o.slicer = Slicer::Guide(n);
        }
        _ => {
            let d = g.below(3 * bs);
            let (a, b) = (g.below(5), 20 + g.below(50));
            g.o.slicer = Slicer::Width(30, None);
            g.o.extend = Some(vec![R { s: Some(A { end: false, off: -(a as i64) }), e: Some(A { end: false, off: b as i64 }) }]);
            if g.pct(50) {
                g.o.lines = Some(vec![R { s: None, e: Some(tail(d / 30)) }]);
                hold += d;
            }
        }
    }
    if g.o.extend.is_none() && g.pct(15) {
        g.o.extend = Some(vec![R { s: None, e: None }]);
    }
    if bs < 2000 && g.pct(15) {
        g.o.regex = Some(g.pick(&["(?s-u:.{3})", "(?s-u:.)", "a"]).to_string());
    }
    if g.pct(10) {
        g.o.lines = Some(vec![R { s: Some(pos(1 + g.below(10))), e: None }]);
    }
    if g.pct(40) {
        g.o.out_fmt = Some("b".into());
    }
    if !look && g.pct(15) {
        g.o.out = Out::Name(vec![T::Lit("o/".into()), T::Var { v: 'l', op: Some(('%', 3)), more: vec![], radix: 'd', width: 0 }]);
    }
    if patch_back && g.o.out == Out::Default {
        // what has been received waits in the cache, which goes to the disk when it gets long
        let mut p = ProgSpec::cat();
        p.read = Split::Upto(3000);
        p.write = Split::Upto(3000);
        p.seed = g.r.next();
        g.cfg.programs.push(p);
        g.o.out = Out::PatchBack(0);
        g.o.out_fmt = Some(g.pick(&["x", "nnx"]).into());
        g.cfg.pipe_cap = 4096 << g.below(5);
    }
    let mut c = g.finish("C24", if look { "lookahead" } else { "memory" });
    c.aux = vec![0, (hold + shift) as i64, len as i64];
    c.cfg.step_limit *= 4;
    c
}
