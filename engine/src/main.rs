//! symir: symbolic execution of LLVM IR produced by rustc, decided by Z3.
mod exec;
mod expr;
mod ext;
mod ir;
mod lia;
mod mem;
mod solver;
use exec::*;
use expr::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Source functions of the analysed tree whose code was executed, via debug metadata.
fn covered_functions(eng: &Eng, prefix: &str) -> (BTreeSet<String>, usize) {
    let m = &eng.m;
    let text = &m.text;
    let line = |id: u32| -> Option<&str> {
        let p = *m.md.get(&id)?;
        let e = text[p..].iter().position(|c| *c == b'\n').map(|x| p + x).unwrap_or(text.len());
        std::str::from_utf8(&text[p..e]).ok()
    };
    fn field<'a>(l: &'a str, f: &str) -> Option<&'a str> {
        let mut from = 0;
        loop {
            let p = l[from..].find(f)? + from;
            let before = if p == 0 { b'(' } else { l.as_bytes()[p - 1] };
            if (before == b'(' || before == b' ') && l[p + f.len()..].starts_with(": ") {
                let r = &l[p + f.len() + 2..];
                if let Some(q) = r.strip_prefix('"') {
                    return q.find('"').map(|e| &q[..e]);
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = p + f.len();
        }
    }
    let mdref = |s: Option<&str>| -> Option<u32> { s?.strip_prefix('!')?.parse().ok() };
    let mut subs: BTreeSet<u32> = Default::default();
    let mut seen: BTreeSet<u32> = Default::default();
    let mut blocks = 0;
    for f in m.compiled.iter().flatten() {
        for (bi, b) in f.blocks.iter().enumerate() {
            let i = f.gblock + bi;
            if eng.covered.get(i >> 6).map_or(true, |w| w & (1 << (i & 63)) == 0) {
                continue;
            }
            blocks += 1;
            for &d in &b.dbg {
                let mut stack = vec![d];
                while let Some(x) = stack.pop() {
                    if x == 0 || !seen.insert(x) {
                        continue;
                    }
                    if let Some(l) = line(x) {
                        if l.contains("!DISubprogram(") {
                            subs.insert(x);
                            continue;
                        }
                        if let Some(s) = mdref(field(l, "scope")) {
                            stack.push(s);
                        }
                        if let Some(s) = mdref(field(l, "inlinedAt")) {
                            stack.push(s);
                        }
                    }
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    for s in subs {
        let l = match line(s) {
            Some(l) => l,
            None => continue,
        };
        let name = field(l, "name").unwrap_or("?");
        let file = mdref(field(l, "file")).and_then(|f| line(f).map(|l| {
            let n = field(l, "filename").unwrap_or("");
            let d = field(l, "directory").unwrap_or("");
            if n.starts_with('/') { n.to_string() } else { format!("{}/{}", d, n) }
        })).unwrap_or_default();
        let file = file.split("/@/").next().unwrap_or("").to_string();
        if file.starts_with(prefix) {
            // qualify with the enclosing namespaces/types
            let mut q = vec![name.to_string()];
            let mut sc = mdref(field(l, "scope"));
            let mut n = 0;
            while let Some(x) = sc {
                n += 1;
                if n > 6 {
                    break;
                }
                match line(x) {
                    Some(l2) if l2.contains("!DINamespace(") || l2.contains("!DICompositeType(") => {
                        if let Some(nm) = field(l2, "name") {
                            if nm != "{impl#0}" && !nm.starts_with("{impl") {
                                q.push(nm.to_string());
                            }
                        }
                        sc = mdref(field(l2, "scope"));
                    }
                    _ => break,
                }
            }
            q.reverse();
            out.insert(format!("{}: {}", file.strip_prefix(prefix).unwrap_or(&file).trim_start_matches('/'), q.join("::")));
        }
    }
    (out, blocks)
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: symir FILE.ll --entry FN [--max-secs S] [--max-paths N] [--preempt N] [--timeout-ms N] [--fix NAME=K] [--concrete FILE] [--out FILE] [--prefix DIR] [-v]");
        return 3;
    }
    if args[1] == "--selftest" {
        return selftest(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000));
    }
    let mut cfg = Cfg { max_paths: 1_000_000, max_secs: 600.0, stop_after: 0.0, max_steps: 2_000_000_000, max_preempt: 2, deep: false, stop_first: false, verbose: false, concrete: None, seed: 1, fix_choice: Default::default() };
    let mut entry = String::new();
    let mut out = None;
    let mut timeout = 20000u32;
    let mut prefix = "/repo".to_string();
    let mut i = 2;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--entry" => entry = nx(),
            "--stop-after" => cfg.stop_after = nx().parse().unwrap(),
            "--max-secs" => cfg.max_secs = nx().parse().unwrap(),
            "--max-paths" => cfg.max_paths = nx().parse().unwrap(),
            "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--preempt" => cfg.max_preempt = nx().parse().unwrap(),
            "--timeout-ms" => timeout = nx().parse().unwrap(),
            "--out" => out = Some(nx()),
            "--prefix" => prefix = nx(),
            "--fix" => {
                let v = nx();
                let (a, b) = v.split_once('=').unwrap();
                cfg.fix_choice.insert(a.to_string(), b.parse().unwrap());
            }
            "--concrete" => cfg.concrete = Some(std::fs::read_to_string(nx()).unwrap().lines().map(|s| s.to_string()).collect()),
            "--stop-first" => {
                cfg.stop_first = true;
                i -= 1;
            }
            "--deep" => {
                cfg.deep = true;
                i -= 1;
            }
            "-v" => {
                cfg.verbose = true;
                i -= 1;
            }
            o => {
                eprintln!("bad option {}", o);
                return 3;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&args[1]);
    let verbose = cfg.verbose;
    if verbose {
        eprintln!("parsed {} functions, {} globals in {:.1}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    }
    let load_s = t0.elapsed().as_secs_f64();
    let extk = ext::classify(&m);
    let mut eng = Eng {
        m,
        ex: Exprs::new(),
        sol: solver::Solver::new(timeout),
        cfg,
        work: vec![],
        extk,
        intr_cache: Default::default(),
        covered: vec![],
        violations: vec![],
        inconclusive: Default::default(),
        suspects: vec![],
        samples: vec![],
        want_fork: None,
        qstat: Default::default(),
        paths: 0,
        ended: Default::default(),
        checks_discharged: 0,
        checks_by_msg: Default::default(),
        reached: Default::default(),
        forks: 0,
        steps: 0,
        t0: Instant::now(),
        globals_done: false,
        path_ok: 0,
        traces: vec![],
        conc_pos: 0,
        srcmap: Default::default(),
        varmap: Default::default(),
    };
    let r = eng.explore(&entry);
    let mut incon: BTreeMap<String, u64> = eng.inconclusive.iter().map(|(a, b)| (a.clone(), *b)).collect();
    if let Err(e) = r {
        incon.insert(e, 1);
    }
    let (funcs, blocks) = covered_functions(&eng, &prefix);
    let st = eng.sol.stats.clone();
    if verbose {
        let mut q: Vec<_> = eng.qstat.iter().collect();
        q.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in q.iter().take(25) {
            eprintln!("  {:7} queries at {}", n, k);
        }
    }
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"entry\": {},\n", jstr(&entry)));
    let verdict = if !eng.violations.is_empty() { "violation" } else if !incon.is_empty() { "inconclusive" } else { "holds" };
    j.push_str(&format!(" \"verdict\": {},\n", jstr(verdict)));
    j.push_str(&format!(" \"paths\": {}, \"forks\": {}, \"steps\": {}, \"blocks\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2},\n", eng.paths, eng.forks, eng.steps, blocks, load_s, eng.t0.elapsed().as_secs_f64()));
    j.push_str(&format!(" \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"domain_hits\": {}, \"lia_queries\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3}, \"solver\": {},\n", st.queries, st.sat, st.unsat, st.unknown, st.cache_hits, st.model_hits, st.dom_hits, st.lia, st.secs, st.max_secs, jstr(&eng.sol.version)));
    let map = |m: Vec<(String, u64)>| -> String {
        let mut m = m;
        m.sort();
        let v: Vec<String> = m.iter().map(|(a, b)| format!("{}: {}", jstr(a), b)).collect();
        format!("{{{}}}", v.join(", "))
    };
    j.push_str(&format!(" \"ended\": {},\n", map(eng.ended.iter().map(|(a, b)| (a.clone(), *b)).collect())));
    j.push_str(&format!(" \"inconclusive\": {},\n", map(incon.into_iter().collect())));
    j.push_str(&format!(" \"reached\": {},\n", map(eng.reached.iter().map(|(a, b)| (a.clone(), *b)).collect())));
    j.push_str(&format!(" \"checks\": {}, \"checks_by_msg\": {},\n", eng.checks_discharged, map(eng.checks_by_msg.iter().map(|(a, b)| (a.clone(), *b)).collect())));
    let fs: Vec<String> = funcs.iter().map(|f| jstr(f)).collect();
    j.push_str(&format!(" \"functions\": [{}],\n", fs.join(", ")));
    let tr: Vec<String> = eng.traces.iter().map(|f| jstr(f)).collect();
    j.push_str(&format!(" \"traces\": [{}],\n", tr.join(", ")));
    let ss: Vec<String> = eng.suspects.iter().map(|(m, i)| format!("{{\"msg\": {}, \"inputs\": {}}}", jstr(m), jstr(i))).collect();
    j.push_str(&format!(" \"suspects\": [{}],\n", ss.join(", ")));
    let ss: Vec<String> = eng.samples.iter().map(|i| jstr(i)).collect();
    j.push_str(&format!(" \"samples\": [{}],\n", ss.join(", ")));
    let vs: Vec<String> = eng
        .violations
        .iter()
        .map(|c| {
            let s: Vec<String> = c.stack.iter().take(30).map(|x| jstr(&demangle(x))).collect();
            format!("  {{\"kind\": {}, \"msg\": {}, \"inputs\": {}, \"stack\": [{}]}}", jstr(&c.kind), jstr(&c.msg), jstr(&c.inputs), s.join(", "))
        })
        .collect();
    j.push_str(&format!(" \"violations\": [\n{}\n ]\n}}\n", vs.join(",\n")));
    match out {
        Some(o) => std::fs::write(o, &j).unwrap(),
        None => print!("{}", j),
    }
    match verdict {
        "holds" => 0,
        "violation" => 1,
        _ => 2,
    }
}

/// Random expressions: simplified form, plain evaluation and Z3 have to agree.
fn selftest(n: u64) -> i32 {
    let mut seed = 0x1234_5678_9abc_def1u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut bad = 0;
    let mut z3 = solver::Solver::new(20000);
    let mut proved = 0;
    let mut unk = 0;
    let mut lia = 0;
    let (mut tables, mut doms) = (0, 0);
    let mut ex = Exprs::new();
    let widths = [1u32, 8, 16, 32, 64, 128];
    for it in 0..n {
        if it % 200 == 0 {
            ex = Exprs::new();
            z3 = solver::Solver::new(20000);
        }
        // variables and their values
        let mut pool: Vec<(E, u128)> = vec![];
        let mut vals = Model::default();
        for _ in 0..4 {
            let w = widths[1 + (rnd() % 5) as usize];
            let raw = ((rnd() as u128) << 64 | rnd() as u128) & mask(w);
            let (lo, hi) = match rnd() % 4 {
                0 => (0, mask(w)),
                1 => (0, mask(w.min(7))),
                2 => (raw.saturating_sub(5), raw.saturating_add(5).min(mask(w))),
                _ => (0, raw),
            };
            if lo == hi {
                continue;
            }
            let x = ex.var("v", w, lo, hi);
            let val = lo + raw % (hi - lo).max(1);
            let idx = ex.vars.len() as u32 - 1;
            vals.vars.insert(idx, val);
            pool.push((x, val));
        }
        for _ in 0..3 {
            let w = widths[(rnd() % 6) as usize];
            let c = match rnd() % 4 {
                0 => rnd() as u128 % 9,
                1 => 1u128 << (rnd() % w as u64),
                2 => mask(w),
                _ => (rnd() as u128) << 64 | rnd() as u128,
            } & mask(w);
            let e = ex.cst(c, w);
            pool.push((e, c));
        }
        for _ in 0..14 {
            let (a, va) = pool[(rnd() % pool.len() as u64) as usize];
            let w = ex.w(a);
            // operand of the same width
            let same: Vec<(E, u128)> = pool.iter().filter(|p| ex.w(p.0) == w).cloned().collect();
            let (b, vb) = same[(rnd() % same.len() as u64) as usize];
            let (e, v) = match rnd() % 24 {
                0..=12 => {
                    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor];
                    let mut op = ops[(rnd() % 13) as usize];
                    if w == 1 && !matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub) {
                        op = Op::Xor;
                    }
                    let div = matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem);
                    if div && (vb == 0 || w == 1 || ex.as_const(b).is_none() && w > 16) {
                        continue;
                    }
                    if op == Op::Mul && w > 32 && ex.as_const(b).is_none() {
                        continue;
                    }
                    (ex.bin(op, a, b), Exprs::fold(op, w, va, vb))
                }
                13 | 14 | 15 => {
                    let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][(rnd() % 5) as usize];
                    let (sa, sb) = (sext128(va, w), sext128(vb, w));
                    let r = match op {
                        Op::Eq => va == vb,
                        Op::Ult => va < vb,
                        Op::Ule => va <= vb,
                        Op::Slt => sa < sb,
                        _ => sa <= sb,
                    };
                    (ex.cmp(op, a, b), r as u128)
                }
                16 => {
                    let nw = widths[(rnd() % 6) as usize];
                    if nw <= w {
                        continue;
                    }
                    (ex.zext(a, nw), va)
                }
                17 => {
                    let nw = widths[(rnd() % 6) as usize];
                    if nw <= w {
                        continue;
                    }
                    (ex.sext(a, nw), sext128(va, w) as u128 & mask(nw))
                }
                18 | 19 => {
                    let nw = widths[(rnd() % 6) as usize];
                    if nw >= w {
                        continue;
                    }
                    let lo = (rnd() % (w - nw + 1) as u64) as u32;
                    (ex.extract(a, lo, nw), (va >> lo) & mask(nw))
                }
                20 => {
                    if 2 * w > 128 || w == 1 {
                        continue;
                    }
                    (ex.concat(a, b), (va << w) | vb)
                }
                21 if w == 1 => (ex.not1(a), va ^ 1),
                _ => {
                    let cs: Vec<(E, u128)> = pool.iter().filter(|p| ex.w(p.0) == 1).cloned().collect();
                    if cs.is_empty() {
                        continue;
                    }
                    let (c, vc) = cs[(rnd() % cs.len() as u64) as usize];
                    (ex.ite(c, a, b), if vc != 0 { va } else { vb })
                }
            };
            let mut memo = Default::default();
            let got = ex.eval(e, &vals, &mut memo);
            if got != v {
                eprintln!("MISMATCH simplify: got {:#x} want {:#x} (it {})", got, v, it);
                bad += 1;
            }
            let (lo, hi) = ex.range(e);
            if v < lo || v > hi {
                eprintln!("MISMATCH range {:#x} not in {:#x}..{:#x}", v, lo, hi);
                bad += 1;
            }
            pool.push((e, v));
            // tables and domains of byte-sized variables
            if let (Some(t), Some(&var)) = (ex.byte_table(e), ex.varset(e).first()) {
                if t[vals.vars[&var] as usize] as u128 != v {
                    eprintln!("MISMATCH table (it {})", it);
                    bad += 1;
                }
                tables += 1;
            }
            let mut dom: FxMap<u32, [u64; 4]> = Default::default();
            for (&var, &val) in vals.vars.iter() {
                if ex.vars[var as usize].max <= 255 && rnd() % 2 == 0 {
                    let f = ex.full_domain(var);
                    let thin = rnd() % 3;
                    let mut d = [0u64; 4];
                    for i in 0..4 {
                        d[i] = f[i] & match thin {
                            0 => 0,
                            1 => rnd(),
                            _ => rnd() & rnd() & rnd(),
                        };
                    }
                    d[val as usize / 64] |= 1 << (val % 64);
                    dom.insert(var, d);
                }
            }
            let se = ex.simp_dom(e, &dom, &mut Default::default());
            if ex.eval(se, &vals, &mut Default::default()) != v || ex.w(se) != ex.w(e) {
                eprintln!("MISMATCH domain simplification (it {})", it);
                bad += 1;
            }
            if se != e {
                doms += 1;
            }
            // the solver must accept the assignment and refute the opposite
            if it % 20 == 0 {
                let w = ex.w(e);
                let kv = ex.cst(v, w);
                let q = ex.eq(e, kv);
                let mut cons = vec![];
                let vs: Vec<(u32, u128)> = vals.vars.iter().map(|(a, b)| (*a, *b)).collect();
                for (i, val) in vs {
                    let xe = ex.var_expr[i as usize];
                    let ww = ex.w(xe);
                    let kk = ex.cst(val, ww);
                    cons.push(ex.eq(xe, kk));
                }
                let nq = ex.not1(q);
                if ex.as_const(nq).is_none() {
                    cons.push(nq);
                    let mut cons2 = cons.clone();
                    cons.sort_unstable();
                    cons.dedup();
                    match z3.check(&mut ex, cons) {
                        solver::Res::Unsat => {
                            proved += 1;
                            // and so must the integer form of the query
                            z3.lia_only = true;
                            let all = z3.check_fresh(&mut ex, cons2.clone());
                            cons2.pop();
                            let pos = z3.check_fresh(&mut ex, cons2);
                            match (all, pos) {
                                (solver::Res::Unsat, solver::Res::Sat(_)) => lia += 1,
                                (solver::Res::Unknown, _) | (_, solver::Res::Unknown) => {}
                                _ => {
                                    eprintln!("MISMATCH integer form (it {})", it);
                                    bad += 1;
                                }
                            }
                            z3.lia_only = false;
                        }
                        solver::Res::Unknown => unk += 1,
                        solver::Res::Sat(_) => {
                            eprintln!("MISMATCH solver (it {})", it);
                            bad += 1;
                        }
                    }
                }
            }
        }
    }
    println!("selftest: {} rounds, {} solver agreements ({} also in integer form), {} unknown, {} tables, {} domain simplifications, {} mismatches", n, proved, lia, unk, tables, doms, bad);
    if bad == 0 {
        0
    } else {
        1
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = match h.join() {
        Ok(c) => c,
        Err(_) => 3,
    };
    // skip the (slow) destruction of large state
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(c);
}
