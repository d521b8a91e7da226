//! One simulated run of a case and the verdict on it.
use crate::gen::*;
use crate::model::{self, Env, Outcome};
use crate::opts::*;
use serde::{Deserialize, Serialize};
use simstd::rt::*;
use std::collections::BTreeMap;

pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    /// what kind of violation, if any
    pub class: Option<String>,
    pub detail: String,
    pub skip: Option<String>,
    pub end: String,
    pub stats: Stats,
    pub crashed: bool,
    pub stdout_len: u64,
    pub expected_failure: bool,
    /// operations (by index) that change the file system
    pub mutating: Vec<u64>,
    /// names opened for writing, with the operations that follow
    pub created: Vec<(u64, String)>,
    pub trace: Vec<String>,
    pub stderr: String,
    /// numbers the judge wants to see in the evidence
    pub measure: BTreeMap<String, i64>,
    pub runs: u32,
}

pub fn short(b: &[u8]) -> String {
    let n = std::cmp::min(b.len(), 160);
    let s = String::from_utf8_lossy(&b[..n]).escape_debug().to_string();
    if b.len() > n { format!("{} bytes: {}...", b.len(), s) } else { format!("{} bytes: {}", b.len(), s) }
}
/// where two byte strings part
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let p = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(std::cmp::min(got.len(), want.len()));
    let s = p.saturating_sub(24);
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[std::cmp::min(s, v.len())..std::cmp::min(p + 72, v.len())]).escape_debug().to_string();
    format!("got {} bytes, expected {} bytes, first difference at {}: got \"{}\", expected \"{}\"", got.len(), want.len(), p, cut(got), cut(want))
}

/// the files and standard input the model sees
pub fn env_files(c: &Case) -> (Files, Option<Vec<u8>>) {
    let total: usize = c.cfg.files.iter().chain(c.cfg.stdin.iter()).filter(|f| !f.endless).map(|f| f.data.len()).sum();
    let enough = total * 2 + 2000 + 2 * c.opts.zip.unwrap_or(0) as usize;
    let data = |f: &FileSpec| -> Vec<u8> {
        if f.endless && !f.data.is_empty() { f.data.iter().cycle().take(enough).cloned().collect() } else { f.data.clone() }
    };
    (c.cfg.files.iter().map(|f| (norm(&f.name), data(f))).collect(), c.cfg.stdin.as_ref().map(data))
}
pub fn initial_files(c: &Case) -> Files {
    c.cfg.files.iter().map(|f| (norm(&f.name), f.data.clone())).collect()
}
pub fn expectation(c: &Case, o: &Opts, files: &Files) -> Outcome {
    let (_, stdin) = env_files(c);
    model::expect(o, &Env { files, stdin: stdin.as_deref(), programs: &c.cfg.programs, stdout_named: &[] })
}

pub fn simulate(c: &Case, trace: bool, prep: impl FnOnce(&mut World)) -> (World, i64) {
    let mut cfg = c.cfg.clone();
    cfg.args = c.opts.args();
    let mut w = World::new(cfg, trace);
    prep(&mut w);
    let lib = c.lib;
    let base = crate::alloc::begin();
    let w = run(
        w,
        Box::new(move || match lib {
            0 => drop(nd_a::nd_sim_main()),
            1 => drop(nd_b::nd_sim_main()),
            2 => drop(nd_c::nd_sim_main()),
            3 => drop(nd_d::nd_sim_main()),
            _ => drop(nd_e::nd_sim_main()),
        }),
    );
    let peak = crate::alloc::end(base);
    (w, peak)
}

type V = Result<(), (String, String)>;
fn bad<T>(class: &str, detail: String) -> Result<T, (String, String)> {
    Err((class.to_string(), detail))
}

fn code(w: &World) -> i32 {
    match w.end {
        Some(End::Exit(c)) => c,
        _ => -1,
    }
}
fn err(w: &World) -> String {
    short(&w.stderr)
}
fn prefix_of(got: &[u8], any: &[&[u8]]) -> bool {
    any.iter().any(|x| x.starts_with(got))
}
fn check_prefix(w: &World, m: &Outcome) -> V {
    let mut v: Vec<&[u8]> = m.partial.iter().map(|x| x.as_slice()).collect();
    if m.fail.is_none() {
        v = vec![&m.stdout];
    }
    if !prefix_of(&w.stdout, &v) {
        return bad("not-a-prefix", format!("what was printed before the failure is not part of the correct output; {}", diff(&w.stdout, v[0])));
    }
    Ok(())
}
fn check_reported(w: &World, why: &str, message: bool) -> V {
    if code(w) == 0 {
        return bad("failure-not-reported", format!("exit status 0 although: {why}; stderr {}", err(w)));
    }
    if message && w.stderr.is_empty() {
        return bad("no-message", format!("exit status {} without a message; {why}", code(w)));
    }
    Ok(())
}
fn dev(n: &str) -> bool {
    n.starts_with("/dev/")
}

fn check_designated(w: &World, m: &Outcome) -> V {
    let snap = w.snapshot();
    for (n, d) in m.files.iter().filter(|x| !dev(x.0)) {
        match snap.get(n) {
            None => return bad("file-missing", format!("{n} was not created")),
            Some(x) if x != d => return bad("file-content", format!("{n}: {}", diff(x, d))),
            _ => {}
        }
    }
    Ok(())
}
/// whatever was there keeps its permission bits, even when it is replaced
fn check_modes(w: &World) -> V {
    for f in &w.cfg.files {
        let n = norm(&f.name);
        if let Some(&i) = w.names.get(&n) {
            let old = if f.mode == 0 { 0o644 } else { f.mode };
            if w.inodes[i].mode != old {
                return bad("permissions-changed", format!("{n}: mode {:o} instead of {old:o}", w.inodes[i].mode));
            }
        }
    }
    Ok(())
}
/// all other files are as they were, and there are no new ones
fn check_others(w: &World, initial: &Files, allowed: &dyn Fn(&str) -> bool) -> V {
    let snap = w.snapshot();
    for (n, d) in &snap {
        if allowed(n) {
            continue;
        }
        match initial.get(n) {
            None => return bad("stray-file", format!("{n} was created ({})", short(d))),
            Some(x) if x != d => return bad("other-file-changed", format!("{n}: {}", diff(d, x))),
            _ => {}
        }
    }
    check_modes(w)?;
    for n in initial.keys() {
        if !snap.contains_key(n) {
            return bad("file-removed", n.clone());
        }
    }
    Ok(())
}

fn check_exact(c: &Case, w: &World, m: &Outcome) -> V {
    if let Some(why) = &m.fail {
        check_reported(w, why, true)?;
        return check_prefix(w, m);
    }
    if code(w) != 0 {
        return bad("unexpected-failure", format!("exit status {} on a valid run; stderr {}", code(w), err(w)));
    }
    if !c.opts.inplace && w.stdout != m.stdout {
        return bad("wrong-output", diff(&w.stdout, &m.stdout));
    }
    if c.opts.inplace && !w.stdout.is_empty() {
        return bad("wrong-output", format!("--inplace printed {}", short(&w.stdout)));
    }
    check_designated(w, m)
}

/// the names an in-place run edits, with old and new content (None if its own pipeline must fail)
fn edits(c: &Case, files: &Files) -> Result<Vec<(String, Vec<u8>, Option<Vec<u8>>)>, String> {
    let mut names: Vec<String> = c.opts.inputs.iter().map(|x| norm(x)).collect();
    names.sort();
    names.dedup();
    let mut v = vec![];
    for n in names {
        let mut o = c.opts.clone();
        o.inputs = vec![n.clone()];
        let m = expectation(c, &o, files);
        if let Some(s) = m.skip {
            return Err(s);
        }
        let old = files.get(&n).cloned().unwrap_or_default();
        v.push((n.clone(), old, if m.fail.is_some() { None } else { m.files.get(&n).cloned() }));
    }
    Ok(v)
}

fn check_old_or_new(view: &Files, ed: &[(String, Vec<u8>, Option<Vec<u8>>)], initial: &Files, what: &str) -> V {
    for (n, old, new) in ed {
        if !initial.contains_key(n) {
            continue;
        }
        match view.get(n) {
            None => return bad("file-lost", format!("{what}: {n} is gone")),
            Some(x) if x == old || Some(x) == new.as_ref() => {}
            Some(x) => {
                return bad(
                    "neither-old-nor-new",
                    format!("{what}: {n} holds neither its old nor its new content; against the new one: {}", diff(x, new.as_ref().unwrap_or(old))),
                )
            }
        }
    }
    Ok(())
}

fn check_inplace(c: &Case, w: &World, initial: &Files, must_fail: bool, may_fail: bool) -> V {
    let ed = match edits(c, initial) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let impossible = ed.iter().any(|x| x.2.is_none());
    check_old_or_new(&w.snapshot(), &ed, initial, "after the run")?;
    if must_fail || impossible {
        check_reported(w, if impossible { "an input cannot be processed" } else { "a fault was injected" }, true)?;
    } else if code(w) != 0 && !may_fail {
        return bad("unexpected-failure", format!("exit status {} on a valid run; stderr {}", code(w), err(w)));
    }
    if code(w) == 0 {
        let snap = w.snapshot();
        for (n, _, new) in &ed {
            if let Some(x) = new {
                if snap.get(n) != Some(x) {
                    return bad("file-content", format!("{n}: {}", diff(snap.get(n).map_or(&[], |x| x), x)));
                }
            }
        }
    }
    if !w.stdout.is_empty() {
        return bad("wrong-output", format!("--inplace printed {}", short(&w.stdout)));
    }
    let names: Vec<&String> = ed.iter().map(|x| &x.0).collect();
    check_others(w, initial, &|n| names.iter().any(|x| *x == n) && initial.contains_key(n))
}

/// whether anything was said about the closed output (a notice about the input, e.g. of a clipped chunk, is not)
fn complains(w: &World) -> bool {
    let s = String::from_utf8_lossy(&w.stderr).to_lowercase();
    ["error", "pipe", "panicked", "usage", "failed", "cannot", "try --help"].iter().any(|x| s.contains(x))
}

fn reads_all(p: &simstd::prog::ProgSpec) -> bool {
    !p.ignore_stdin && p.read_limit.is_none() && p.out_limit.is_none()
}

fn template_prefix(t: &[T]) -> String {
    match t.first() {
        Some(T::Lit(s)) => norm(s) + if s.ends_with('/') { "/" } else { "" },
        _ => String::new(),
    }
}
fn is_fixed(t: &[T]) -> bool {
    t.iter().all(|x| matches!(x, T::Lit(_)))
}

fn verdict(c: &Case, w: &World, peak: i64, rep: &mut Report) -> V {
    let _ = peak;
    match &w.end {
        Some(End::Exit(_)) | Some(End::Crashed) => {}
        Some(End::Deadlock(s)) => return bad("deadlock", s.clone()),
        Some(End::StepLimit) => return bad("does-not-end", format!("not finished after {} steps", w.stats.steps)),
        e => return bad("abort", format!("{e:?}; stderr {}", err(w))),
    }
    let (files, _) = env_files(c);
    let mut initial = initial_files(c);
    for (_, f) in &w.cfg.race {
        let n = norm(&f.name);
        if w.stats.faults_fired.iter().any(|x| x.1 == Op::Race && x.0 == n) {
            initial.insert(n, f.data.clone());
        }
    }
    let m = expectation(c, &c.opts, &files);
    if let Some(s) = &m.skip {
        rep.skip = Some(s.clone());
        return Ok(());
    }
    rep.expected_failure = m.fail.is_some();
    let fired = !w.stats.faults_fired.is_empty();
    let what = format!("{:?}", w.stats.faults_fired.first());
    match c.kind.as_str() {
        "exact" => check_exact(c, w, &m),
        "roundtrip-input" | "roundtrip-patch" => {
            check_exact(c, w, &m)?;
            let mut c2 = c.clone();
            c2.cfg.files.push(FileSpec { name: "the.dump".into(), data: w.stdout.clone(), endless: false, mode: 0 });
            c2.opts = Opts { out_fmt: Some("b".into()), ..Opts::default() };
            if c.kind == "roundtrip-input" {
                c2.opts.inputs = vec!["the.dump".into()];
                c2.opts.in_fmt = Some(c.opts.out_fmt.clone().unwrap_or("x".into()));
            } else {
                c2.opts.inputs = c.opts.inputs.clone();
                c2.opts.patch = Some("the.dump".into());
            }
            if let Some(d) = c2.cfg.deliveries.first().cloned() {
                c2.cfg.deliveries.push(("the.dump".into(), d.1));
            }
            c2.cfg.step_limit += 400 * w.stdout.len() as u64;
            let (w2, _) = simulate(&c2, false, |_| ());
            rep.runs += 1;
            if w2.end != Some(End::Exit(0)) || w2.stdout != m.stream {
                return bad("round-trip", format!("{:?} reading the dump back; {}; stderr {}", w2.end, diff(&w2.stdout, &m.stream), err(&w2)));
            }
            Ok(())
        }
        "scatter" => {
            check_exact(c, w, &m)?;
            if m.fail.is_none() {
                check_others(w, &initial, &|n| m.files.contains_key(n))?;
            }
            Ok(())
        }
        "scatter-fault" | "write-fault" => {
            if !fired {
                return check_exact(c, w, &m);
            }
            check_reported(w, &what, true)?;
            if matches!(c.opts.out, Out::Name(_)) { Ok(()) } else { check_prefix(w, &m) }
        }
        "out-full" => {
            let need: usize = m.files.values().map(|x| x.len()).sum();
            if code(w) == 0 || (c.cfg.disk_free.unwrap_or(0) as usize) >= need {
                return check_exact(c, w, &m);
            }
            check_reported(w, "disk full", true)
        }
        "read-fault" => {
            if !fired {
                return check_exact(c, w, &m);
            }
            check_reported(w, &what, true)?;
            // (what a command prints after an input that ends early is its own business)
            if matches!(c.opts.out, Out::PatchBack(_)) { Ok(()) } else { check_prefix(w, &m) }
        }
        "open-fault" => {
            if !fired {
                return check_exact(c, w, &m);
            }
            check_reported(w, &what, true)?;
            if !w.stdout.is_empty() {
                return bad("printed-before-open", format!("{what}: printed {}", short(&w.stdout)));
            }
            Ok(())
        }
        "stdout-closed" => {
            if m.fail.is_some() {
                return check_prefix(w, &m);
            }
            let limit = c.cfg.stdout_close_after.unwrap_or(0) as usize;
            if code(w) != 0 || complains(w) {
                return bad("closed-pipe-noise", format!("exit status {}, stderr {} after the reader closed the pipe", code(w), err(w)));
            }
            let want = &m.stdout[..std::cmp::min(limit, m.stdout.len())];
            if w.stdout != want {
                return bad("wrong-output", diff(&w.stdout, want));
            }
            Ok(())
        }
        "patch-back" => {
            check_exact(c, w, &m)?;
            check_child_in(c, w, &m)
        }
        "patch-back-fail" => match &m.fail {
            Some(why) => check_reported(w, why, false),
            None => check_exact(c, w, &m),
        },
        "patch-back-full" => {
            if code(w) == 0 {
                return check_exact(c, w, &m);
            }
            check_reported(w, "the disk is full", false)
        }
        "patch-back-fault" => {
            if !fired {
                return check_exact(c, w, &m);
            }
            check_reported(w, &what, false)
        }
        "inplace" => check_inplace(c, w, &initial, false, false),
        "inplace-full" => {
            let need: usize = m.files.values().map(|x| x.len()).sum();
            let enough = c.cfg.disk_free.unwrap_or(0) as usize > need * 2 + 100;
            check_inplace(c, w, &initial, false, !enough)
        }
        "inplace-fault" => check_inplace(c, w, &initial, fired, fired),
        "inplace-race" => check_inplace(c, w, &initial, false, fired),
        "inplace-crash" => {
            let ed = match edits(c, &initial) {
                Ok(x) => x,
                Err(s) => {
                    rep.skip = Some(s);
                    return Ok(());
                }
            };
            for (how, view) in w.durable_views() {
                *rep.measure.entry("power-loss views".into()).or_default() += 1;
                check_old_or_new(&view, &ed, &initial, &format!("after a power loss ({how})"))?;
            }
            if w.end != Some(End::Crashed) {
                return check_inplace(c, w, &initial, false, false);
            }
            rep.crashed = true;
            let snap = w.snapshot();
            check_old_or_new(&snap, &ed, &initial, "after a kill")?;
            check_modes(w)?;
            let mut extra = vec![];
            for (n, d) in &snap {
                if ed.iter().any(|x| x.0 == *n) {
                    continue;
                }
                match initial.get(n) {
                    None => extra.push(n.clone()),
                    Some(x) if x != d => return bad("other-file-changed", format!("after a kill: {n}: {}", diff(d, x))),
                    _ => {}
                }
            }
            if let Some(n) = initial.keys().find(|n| !snap.contains_key(*n)) {
                return bad("file-removed", format!("after a kill: {n}"));
            }
            if extra.len() > 1 {
                return bad("stray-file", format!("after a kill: {extra:?}"));
            }
            Ok(())
        }
        "pager" => {
            let p = &c.cfg.programs[0];
            check_pager_ended(w)?;
            let got = &w.children[0].got;
            if m.fail.is_some() {
                check_reported(w, "the pipeline fails", true)?;
                if !m.partial.iter().any(|x| x.starts_with(got)) {
                    return bad("not-a-prefix", diff(got, &m.partial[0]));
                }
            } else {
                if code(w) != 0 && p.status() == 0 {
                    return bad("unexpected-failure", format!("exit status {} on a valid run; stderr {}", code(w), err(w)));
                }
                if *got != m.stdout {
                    return bad("wrong-output", format!("the pager: {}", diff(got, &m.stdout)));
                }
            }
            if !w.children[0].saw_eof {
                return bad("no-eof", "the pager never saw the end of its input".into());
            }
            if !w.stdout.is_empty() {
                return bad("wrong-output", format!("printed beside the pager: {}", short(&w.stdout)));
            }
            Ok(())
        }
        "pager-quits" => {
            check_pager_ended(w)?;
            let got = &w.children[0].got;
            if m.fail.is_some() {
                if !m.partial.iter().any(|x| x.starts_with(got)) {
                    return bad("not-a-prefix", diff(got, &m.partial[0]));
                }
                return Ok(());
            }
            if !m.stdout.starts_with(got) {
                return bad("wrong-output", format!("the pager: {}", diff(got, &m.stdout)));
            }
            if code(w) != 0 || complains(w) {
                return bad("closed-pipe-noise", format!("exit status {}, stderr {} after the pager had quit", code(w), err(w)));
            }
            Ok(())
        }
        "pager-missing" => {
            check_reported(w, "the pager cannot be started", true)?;
            if !w.stdout.is_empty() {
                return bad("wrong-output", format!("printed without the pager: {}", short(&w.stdout)));
            }
            Ok(())
        }
        "ends" | "endless" => Ok(()),
        "files" | "files-fault" => {
            if c.opts.inplace {
                let names: Vec<String> = c.opts.inputs.iter().map(|x| norm(x)).collect();
                return check_others(w, &initial, &|n| initial.contains_key(n) && names.iter().any(|x| x == n));
            }
            match &c.opts.out {
                Out::Name(t) => {
                    let pre = template_prefix(t);
                    let fixed = is_fixed(t);
                    let done = code(w) == 0 && m.fail.is_none();
                    check_others(w, &initial, &|n| {
                        if done {
                            m.files.contains_key(n)
                        } else if fixed {
                            n == pre
                        } else {
                            n.starts_with(&pre)
                        }
                    })
                }
                _ => check_others(w, &initial, &|_| false),
            }
        }
        "contradiction" => {
            if m.fail.is_none() && c.opts.extra.is_empty() {
                rep.skip = Some("not contradictory".into());
                return Ok(());
            }
            check_reported(w, "contradictory options", true)?;
            if !w.stdout.is_empty() {
                return bad("wrong-output", format!("printed {}", short(&w.stdout)));
            }
            check_others(w, &initial, &|_| false)?;
            if let Some(k) = w.stats.op_counts.keys().find(|k| k.starts_with("Create:")) {
                return bad("opened-for-writing", k.clone());
            }
            Ok(())
        }
        "lookahead" => {
            check_exact(c, w, &m)?;
            lookahead(c, w, &m, rep)
        }
        k => panic!("unknown kind {k}"),
    }
}

fn check_child_in(c: &Case, w: &World, m: &Outcome) -> V {
    if let (Some(want), Some(k), None) = (&m.child_in, w.children.first(), &m.fail) {
        let p = k.prog.and_then(|i| c.cfg.programs.get(i));
        if p.is_some_and(reads_all) {
            if k.got != *want {
                return bad("command-input", format!("the command: {}", diff(&k.got, want)));
            }
            if !k.saw_eof {
                return bad("no-eof", "the command never saw the end of its input".into());
            }
        } else if !want.starts_with(&k.got) {
            return bad("command-input", format!("the command: {}", diff(&k.got, want)));
        }
    }
    Ok(())
}
fn check_pager_ended(w: &World) -> V {
    match w.children.first() {
        None => bad("no-pager", "no pager was started".into()),
        Some(k) if k.status.is_none() => bad("pager-not-waited-for", "the program ended before the pager".into()),
        Some(k) if !k.reaped => bad("pager-not-waited-for", "the pager was not waited for".into()),
        _ => Ok(()),
    }
}

/// everything that could be printed must have been printed by the time the input is `bound` further
fn lookahead(c: &Case, w: &World, m: &Outcome, rep: &mut Report) -> V {
    let total_in = c.aux[2].max(1) as u64;
    let stream = m.stream.len().max(1) as u64;
    let f = model::fmt_of(c.opts.out_fmt.as_deref().unwrap_or("x")).unwrap();
    let cols = if c.opts.out_fmt.is_some() { 16 } else { model::default_cols(&c.opts) };
    let bs = BLOCK[c.lib] as u64;
    // input needed to know about a slice: up to its end, in the unit of the input (text is longer than bytes)
    let input_len = c.opts.inputs.first().map(|n| norm(n)).and_then(|n| c.cfg.files.iter().find(|f| norm(&f.name) == n)).or(c.cfg.stdin.as_ref()).map_or(0, |f| f.data.len() as u64);
    let scale = std::cmp::max(1, input_len / total_in) + 1;
    let hold = c.aux[1] as u64;
    let mut cum = vec![];
    let mut out = 0u64;
    for s in &m.slices {
        out += model::format_record(f, cols, &m.stream, *s).len() as u64;
        cum.push(((s.0 + s.1) as u64 * input_len / stream, out));
    }
    let mut k = 0;
    let mut prev = 0;
    let mut worst = 0;
    // output that is held back although the input has got `bound` beyond what determines it; a filter may print by blocks
    let mut held = 0;
    let slack = hold * scale;
    // (the standard input has a buffer of 8 KiB of its own)
    let bound = 12 * bs * scale + slack + if w.watch.iter().any(|x| x == "stdin") { 8192 } else { 0 };
    for (o, i) in &w.stats.io_log {
        while k < cum.len() && cum[k].1 <= prev {
            k += 1;
        }
        // slice k was not completely out before this write although the input had got to i
        if k < cum.len() && *i > cum[k].0 {
            worst = std::cmp::max(worst, i - cum[k].0);
            // all that could have been printed with `bound` bytes less
            if *i > bound {
                let j = cum.partition_point(|x| x.0 < *i - bound);
                if j > 0 {
                    held = std::cmp::max(held, cum[j - 1].1.saturating_sub(prev));
                }
            }
        }
        prev = *o;
    }
    rep.measure.insert("output held back in 1/10 blocks".into(), (held * 10 / bs) as i64);
    rep.measure.insert("lookahead in 1/10 blocks".into(), (worst.saturating_sub(slack) * 10 / bs / scale) as i64);
    // at the end of the input everything is flushed anyway, so only a real delay gets this far
    let most = 40 * bs + 4000;
    if held > most {
        return bad(
            "lookahead",
            format!("{held} bytes of output (bound {most}) were held back although the input was read {bound} bytes beyond what they depend on; {worst} bytes at most; block {bs}"),
        );
    }
    Ok(())
}

fn is_records(d: &[u8]) -> bool {
    d.get(1) == Some(&b' ') && d.first() == Some(&b'0')
}

/// C24: the same pipeline at a quarter of the length and at full length
fn memory(c: &Case, rep: &mut Report) -> V {
    let mut quarter = c.clone();
    let len = c.aux[2] as usize / 4;
    for f in quarter.cfg.files.iter_mut().chain(quarter.cfg.stdin.iter_mut()) {
        let text = is_records(&f.data);
        if text {
            // records: those that end before the quarter
            let mut keep = 0;
            for l in f.data.split_inclusive(|b| *b == b'\n') {
                let r = model::parse_line(l.strip_suffix(b"\n").unwrap_or(l), false);
                if r.is_none_or(|r| r.offset + r.span > len) {
                    break;
                }
                keep += l.len();
            }
            f.data.truncate(keep);
        } else {
            f.data.truncate(len);
        }
    }
    let (w1, p1) = simulate(&quarter, false, |_| ());
    if !matches!(w1.end, Some(End::Exit(0))) {
        rep.skip = Some(format!("quarter run: {:?} {}", w1.end, err(&w1)));
        return Ok(());
    }
    drop(w1);
    let (w2, p2) = simulate(c, false, |_| ());
    rep.runs += 1;
    rep.stats = w2.stats.clone();
    rep.end = format!("{:?}", w2.end);
    if !matches!(w2.end, Some(End::Exit(0))) {
        rep.skip = Some(format!("full run: {:?} {}", w2.end, err(&w2)));
        return Ok(());
    }
    let grow = p2 - p1;
    rep.measure.insert("growth in 1/1000 of the added length".into(), grow * 1000 / (3 * len as i64));
    rep.measure.insert("peak bytes".into(), p2);
    // the regex stage makes up to one slice (16 bytes) of every byte in its window
    let window = if c.opts.regex.is_some() { 200_000 } else { 0 };
    let added = (3 * len * std::cmp::max(1, c.opts.inputs.len())) as i64;
    if grow > added * 6 / 10 + 4096 + window {
        // the peak of a bounded buffer varies too, but it doesn't keep growing
        let mut four = c.clone();
        let long = c.aux[2] as usize;
        for f in four.cfg.files.iter_mut().chain(four.cfg.stdin.iter_mut()) {
            let text = is_records(&f.data);
            let one = std::mem::take(&mut f.data);
            for k in 0..4 {
                if !text {
                    f.data.extend_from_slice(&one);
                    continue;
                }
                for l in one.split_inclusive(|b| *b == b'\n') {
                    let l = String::from_utf8_lossy(l);
                    let (o, rest) = l.split_once(' ').unwrap_or((&l, ""));
                    let o = usize::from_str_radix(o, 16).unwrap_or(0) + k * long;
                    f.data.extend_from_slice(format!("{o:x} {rest}").as_bytes());
                }
            }
        }
        four.cfg.step_limit *= 4;
        let (w3, p3) = simulate(&four, false, |_| ());
        rep.runs += 1;
        if !matches!(w3.end, Some(End::Exit(0))) || p3 - p2 <= 4 * (added * 6 / 10) || p3 - p2 < 2 * grow {
            return Ok(());
        }
        return bad("memory", format!("peak memory grew from {p1} to {p2} bytes when the input grew from {len} to {} bytes", 4 * len));
    }
    Ok(())
}

/// runs one case in this process (which does nothing else afterwards)
pub fn run_case(c: &Case, trace: bool) -> Report {
    let mut rep = Report { runs: 1, ..Default::default() };
    if c.kind == "memory" {
        match memory(c, &mut rep) {
            Ok(()) => {}
            Err((k, d)) => {
                rep.class = Some(k);
                rep.detail = d;
            }
        }
        return rep;
    }
    if c.opts.regex.is_some() || c.opts.extend.is_some() || c.opts.invert.is_some() || c.opts.in_fmt.is_some() || c.opts.patch.is_some() {
        // stages that can multiply the slices without end
        let m = expectation(c, &c.opts, &env_files(c).0);
        if let Some(s) = m.skip {
            rep.skip = Some(s);
            rep.end = "not run".into();
            return rep;
        }
    }
    let probing = wants_probe(&c.kind) && c.cfg.faults.is_empty() && c.cfg.crash_at.is_none() && c.cfg.race.is_empty();
    let (mut w, peak) = simulate(c, trace || probing, |w| {
        if c.kind == "lookahead" {
            w.keep_io_log = true;
            w.watch = vec![c.opts.inputs.first().filter(|x| *x != "-").map_or("stdin".to_string(), |x| norm(x))];
        }
    });
    if matches!(w.end, Some(End::StepLimit)) && c.kind != "lookahead" {
        // the limit is meant for a program that gets nowhere, not for one that has much to do
        // (a pipe that moves a byte at a time takes a step or more for each)
        let m = expectation(c, &c.opts, &env_files(c).0);
        let bytes = m.stdout.len() + m.stream.len() + m.child_in.map_or(0, |x| x.len()) + m.partial.iter().map(|x| x.len()).max().unwrap_or(0);
        let mut c2 = c.clone();
        c2.cfg.step_limit = c2.cfg.step_limit * 8 + 20 * bytes as u64;
        let (w2, _) = simulate(&c2, trace || probing, |_| ());
        rep.runs += 1;
        w = w2;
    }
    if !probing || matches!(w.end, Some(End::Deadlock(_) | End::StepLimit | End::Abort)) {
        match verdict(c, &w, peak, &mut rep) {
            Ok(()) => {}
            Err((k, d)) => {
                rep.class = Some(k);
                rep.detail = d;
            }
        }
    }
    if let Some(t) = w.trace.take() {
        if probing {
            rep.created = t
                .iter()
                .filter_map(|l| {
                    let mut it = l.split_whitespace();
                    let n: u64 = it.next()?.parse().ok()?;
                    let _ = it.next();
                    (it.next()? == "Create").then(|| it.next().map(|x| (n, x.to_string())))?
                })
                .collect();
            rep.mutating = t
                .iter()
                .filter_map(|l| {
                    let mut it = l.split_whitespace();
                    let n: u64 = it.next()?.parse().ok()?;
                    let _ = it.next();
                    matches!(it.next()?, "Create" | "Rename" | "Sync" | "SetLen" | "Remove" | "Chmod").then_some(n)
                })
                .collect();
        }
        if trace {
            rep.trace = t;
        }
    }
    rep.end = format!("{:?}", w.end.as_ref().unwrap());
    rep.stdout_len = w.stdout.len() as u64;
    rep.stderr = short(&w.stderr);
    rep.stats = std::mem::take(&mut w.stats);
    rep.stats.io_log = vec![];
    if !trace {
        rep.stats.deviations = vec![];
    }
    rep
}

pub fn wants_probe(kind: &str) -> bool {
    kind.ends_with("-fault") || kind.ends_with("-crash") || kind.ends_with("-race")
}

/// turns a fault-free run into one with a concrete fault
pub fn inject(c: &Case, probe: &Report, seed: u64) -> Option<Case> {
    let mut r = Rng::new(seed);
    let mut c = c.clone();
    if c.kind == "inplace-crash" {
        let n = probe.stats.ops.max(1);
        let at = if !probe.mutating.is_empty() && r.pct(60) {
            let m = probe.mutating[r.below(probe.mutating.len() as u64) as usize];
            (m + r.below(4)).saturating_sub(1)
        } else {
            r.below(n + 1)
        };
        c.cfg.crash_at = Some(at);
        return Some(c);
    }
    if c.kind == "inplace-race" {
        // a file of a name that the run makes use of, created by someone else before (or after) that
        let inputs: Vec<String> = c.opts.inputs.iter().map(|x| norm(x)).collect();
        let made: Vec<&(u64, String)> = probe.created.iter().filter(|x| !inputs.contains(&x.1)).collect();
        if made.is_empty() {
            return None;
        }
        for k in 0..1 + r.below(2) {
            let (at, name) = made[r.below(made.len() as u64) as usize].clone();
            let at = match r.below(10) {
                0..=5 => at.saturating_sub(1 + r.below(3)),
                6 => r.below(at + 1),
                _ => at + 1 + r.below(probe.stats.ops.max(at + 1) - at),
            };
            let data = format!("not of nd {k}").into_bytes();
            if !c.cfg.race.iter().any(|x| x.1.name == name) {
                c.cfg.race.push((at, FileSpec { name, data, endless: false, mode: 0 }));
            }
        }
        return Some(c);
    }
    let is_data = |t: &str| !t.starts_with("pipe:") && t != "spool" && t != "stdout" && t != "stderr" && t != "proc" && t != "thread";
    let mut keys: Vec<(String, String, u32)> = vec![];
    for (k, n) in &probe.stats.op_counts {
        let (op, t) = match k.split_once(':') {
            Some(x) => x,
            None => continue,
        };
        let ok = match c.kind.as_str() {
            "read-fault" => op == "Read" && is_data(t),
            "open-fault" => op == "Open" && is_data(t),
            "write-fault" => match &c.opts.out {
                Out::Name(_) => matches!(op, "Write") && (is_data(t) || t == "stdout"),
                _ => op == "Write" && t == "stdout",
            },
            "scatter-fault" => matches!(op, "Write" | "Create" | "Open" | "SetLen") && is_data(t) && !c.cfg.files.iter().any(|f| norm(&f.name) == t && op == "Open"),
            "patch-back-fault" => match op {
                "Spawn" | "ThreadSpawn" => true,
                "Read" => true,
                "Write" => t != "stderr",
                "Seek" | "Create" => true,
                _ => false,
            },
            "inplace-fault" => matches!(op, "Open" | "Create" | "Read" | "Write" | "Sync" | "Rename" | "SetLen" | "Spawn" | "ThreadSpawn" | "Seek") && t != "stderr",
            _ => !matches!(op, "Remove" | "Exit" | "Sleep" | "Lock" | "Close" | "Flush") && t != "stderr",
        };
        if ok && *n > 0 {
            keys.push((op.to_string(), t.to_string(), *n));
        }
    }
    if keys.is_empty() {
        return None;
    }
    let k = if r.pct(15) { 2 } else { 1 };
    for _ in 0..k {
        let (op, t, n) = keys[r.below(keys.len() as u64) as usize].clone();
        let nth = match r.below(10) {
            0 | 1 => 0,
            2..=4 => n - 1,
            _ => r.below(n as u64) as u32,
        };
        let op: Op = serde_json::from_value(serde_json::Value::String(op)).unwrap();
        let errs: &[i32] = match op {
            Op::Open => &[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT],
            Op::Create => &[libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS, libc::EIO],
            Op::Read => &[libc::EIO, libc::EIO, libc::ENXIO, libc::ETIMEDOUT, libc::ESTALE],
            // 0: takes nothing
            Op::Write => &[libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EIO, libc::EDQUOT, libc::EFBIG, 0],
            Op::Spawn => &[libc::EAGAIN, libc::ENOMEM, libc::EACCES],
            Op::ThreadSpawn => &[libc::EAGAIN],
            Op::Rename => &[libc::EACCES, libc::EIO, libc::ENOSPC],
            _ => &[libc::EIO],
        };
        let errno = errs[r.below(errs.len() as u64) as usize];
        c.cfg.faults.push(Fault { target: t, op, nth, sticky: r.pct(60), errno });
    }
    Some(c)
}
