//! Shrinks a failing case while the same kind of violation remains.
use crate::expr::E;
use crate::gen::*;
use crate::judge::Report;
use crate::opts::*;
use crate::runner::attempt;
use simstd::rt::*;
use std::time::{Duration, Instant};

struct M {
    class: String,
    best: Case,
    rep: Report,
    until: Instant,
    tries: u32,
}
impl M {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.until || self.tries > 3000
    }
    fn attempt(&mut self, c: Case) -> bool {
        if self.out_of_time() || c == self.best {
            return false;
        }
        self.tries += 1;
        let r = attempt(&c, true, false);
        if r.class.as_deref() == Some(&self.class) {
            self.best = c;
            self.rep = r;
            return true;
        }
        false
    }
    fn edit(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.attempt(c)
    }
}

fn explicit(r: &Report) -> Sched {
    Sched::Explicit(r.stats.deviations.clone())
}

fn shrink_data(m: &mut M, get: &dyn Fn(&mut Case) -> Option<&mut Vec<u8>>) {
    let mut c = m.best.clone();
    let mut len = match get(&mut c) {
        Some(d) => d.len(),
        None => return,
    };
    let mut step = len.div_ceil(2);
    while step > 0 && len > 0 && !m.out_of_time() {
        let mut done = false;
        // from the end, from the start, then inside
        for at in [len.saturating_sub(step), 0, len / 2] {
            let ok = m.edit(|c| {
                let d = get(c).unwrap();
                let s = std::cmp::min(at, d.len());
                let e = std::cmp::min(s + step, d.len());
                d.drain(s..e);
            });
            if ok {
                done = true;
                break;
            }
        }
        let mut c = m.best.clone();
        len = get(&mut c).map_or(0, |d| d.len());
        if !done {
            step /= 2;
        }
        step = std::cmp::min(step, len);
    }
}

fn drop_lines(m: &mut M, get: &dyn Fn(&mut Case) -> Option<&mut Vec<u8>>) {
    let mut k = 0;
    while !m.out_of_time() {
        let mut c = m.best.clone();
        let d = match get(&mut c) {
            Some(d) => d.clone(),
            None => return,
        };
        let lines: Vec<&[u8]> = d.split_inclusive(|b| *b == b'\n').collect();
        if k >= lines.len() || lines.len() > 200 {
            return;
        }
        let mut v = lines.clone();
        v.remove(k);
        let v = v.concat();
        if !m.edit(|c| *get(c).unwrap() = v) {
            k += 1;
        }
    }
}

fn shrink_vec<T: Clone>(m: &mut M, get: &dyn Fn(&mut Case) -> Option<&mut Vec<T>>, keep: usize) {
    let mut k = 0;
    while !m.out_of_time() {
        let mut c = m.best.clone();
        match get(&mut c) {
            Some(v) if k < v.len() && v.len() > keep => {}
            _ => return,
        }
        if !m.edit(|c| {
            get(c).unwrap().remove(k);
        }) {
            k += 1;
        }
    }
}

fn shrink_expr(m: &mut M, get: &dyn Fn(&mut Case) -> Option<&mut E>) {
    'next: while !m.out_of_time() {
        let mut c = m.best.clone();
        let Some(e) = get(&mut c) else { return };
        for x in e.smaller() {
            if m.edit(|c| *get(c).unwrap() = x) {
                continue 'next;
            }
        }
        return;
    }
}

pub fn minimise(case: &Case, rep: &Report, budget: Duration) -> (Case, Report) {
    let mut m = M {
        class: rep.class.clone().unwrap(),
        best: case.clone(),
        rep: attempt(case, true, false),
        until: Instant::now() + budget,
        tries: 0,
    };
    if m.rep.class.as_deref() != Some(&m.class) {
        return (case.clone(), rep.clone());
    }
    let e = explicit(&m.rep);
    let died = m.rep.end.starts_with("Died");
    // (an unfair schedule keeps endless input going by itself)
    let fair = case.kind == "endless" && matches!(case.opts.out, crate::opts::Out::PatchBack(_));
    if !died && !fair {
        m.edit(|c| c.cfg.sched = e);
    }
    for _ in 0..3 {
        let before = m.best.clone();
        m.edit(|c| c.opts.style = 0);
        m.edit(|c| c.cfg.deliveries.clear());
        m.edit(|c| {
            for d in &mut c.cfg.deliveries {
                d.1.delay = 0;
                d.1.eintr = 0;
            }
        });
        shrink_vec(&mut m, &|c| Some(&mut c.cfg.deliveries), 0);
        if !fair {
            m.edit(|c| c.cfg.sched = Sched::Explicit(vec![]));
        }
        shrink_vec(&mut m, &|c| Some(&mut c.cfg.faults), 1);
        for k in 0..13 {
            m.edit(|c| {
                let o = &mut c.opts;
                match k {
                    0 => o.cat = None,
                    1 => o.zip = None,
                    2 => o.filler = None,
                    3 => o.cut = None,
                    4 => o.pad = None,
                    5 => o.patch = None,
                    6 => o.regex = None,
                    7 => o.invert = None,
                    8 => o.extend = None,
                    9 => o.merge = None,
                    10 => o.lines = None,
                    11 => o.out_fmt = None,
                    _ => o.slicer = Slicer::Default,
                }
            });
        }
        m.edit(|c| c.opts.out_fmt = Some("b".into()));
        m.edit(|c| {
            if let Slicer::Width(n, _) = c.opts.slicer {
                c.opts.slicer = Slicer::Width(n, None);
            }
        });
        shrink_vec(&mut m, &|c| c.opts.cut.as_mut(), 1);
        shrink_vec(&mut m, &|c| c.opts.invert.as_mut(), 1);
        shrink_vec(&mut m, &|c| c.opts.extend.as_mut(), 1);
        shrink_vec(&mut m, &|c| c.opts.lines.as_mut(), 1);
        shrink_vec(
            &mut m,
            &|c| match &mut c.opts.slicer {
                Slicer::Slice(v) => Some(v),
                _ => None,
            },
            1,
        );
        m.edit(|c| c.opts.expr = 0);
        shrink_vec(
            &mut m,
            &|c| match &mut c.opts.slicer {
                Slicer::Walk(v) => Some(v),
                _ => None,
            },
            1,
        );
        shrink_vec(
            &mut m,
            &|c| match &mut c.opts.out {
                Out::Name(v) => Some(v),
                _ => None,
            },
            1,
        );
        for k in 0..8 {
            shrink_expr(&mut m, &|c| match &mut c.opts.slicer {
                Slicer::Walk(v) => match v.get_mut(k) {
                    Some(W::Expr(e)) => Some(e),
                    _ => None,
                },
                _ => None,
            });
            shrink_expr(&mut m, &|c| match &mut c.opts.out {
                Out::Name(v) => match v.get_mut(k) {
                    Some(T::Expr { e, .. }) => Some(e),
                    _ => None,
                },
                _ => None,
            });
        }
        shrink_vec(&mut m, &|c| Some(&mut c.opts.inputs), 1);
        // files nobody names
        let n = m.best.cfg.files.len();
        for k in (0..n).rev() {
            m.edit(|c| {
                c.cfg.files.remove(k);
            });
        }
        for p in 0..m.best.cfg.programs.len() {
            shrink_vec(&mut m, &|c| Some(&mut c.cfg.programs[p].f), 0);
            m.edit(|c| {
                let p = &mut c.cfg.programs[p];
                p.read = Split::Full;
                p.write = Split::Full;
            });
            m.edit(|c| {
                let p = &mut c.cfg.programs[p];
                p.start_delay = 0;
                p.think = 0;
                p.linger = 0;
            });
            m.edit(|c| c.cfg.programs[p].collect = false);
        }
        m.edit(|c| c.cfg.pipe_cap = 65536);
        m.edit(|c| c.cfg.stdout_close_after = None);
        m.edit(|c| c.cfg.disk_free = None);
        if m.best.kind != "memory" && m.best.kind != "lookahead" {
            for k in 0..m.best.cfg.files.len() {
                drop_lines(&mut m, &|c| c.cfg.files.get_mut(k).map(|f| &mut f.data));
                shrink_data(&mut m, &|c| c.cfg.files.get_mut(k).map(|f| &mut f.data));
            }
            drop_lines(&mut m, &|c| c.cfg.stdin.as_mut().map(|f| &mut f.data));
            shrink_data(&mut m, &|c| c.cfg.stdin.as_mut().map(|f| &mut f.data));
        }
        // scheduling decisions that do not matter
        if let Sched::Explicit(v) = m.best.cfg.sched.clone() {
            let mut v = v;
            let mut step = v.len().div_ceil(2);
            while step > 0 && !v.is_empty() && !m.out_of_time() {
                let mut i = 0;
                while i < v.len() && !m.out_of_time() {
                    let mut w = v.clone();
                    let e = std::cmp::min(i + step, w.len());
                    w.drain(i..e);
                    let w2 = w.clone();
                    if m.edit(|c| c.cfg.sched = Sched::Explicit(w2)) {
                        v = w;
                    } else {
                        i += step;
                    }
                }
                step /= 2;
            }
        }
        if m.best == before || m.out_of_time() {
            break;
        }
    }
    // replay exactly what is stored
    let r = attempt(&m.best, true, false);
    if r.class.as_deref() == Some(&m.class) {
        m.rep = r;
    }
    (m.best, m.rep)
}
