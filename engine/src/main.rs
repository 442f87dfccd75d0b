mod exec; mod expr; mod ir; mod mem; mod posix; mod solver;
use exec::*;
use std::collections::VecDeque;
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn viol_json(v: &Violation) -> String {
    let vars: Vec<String> = v.vars.iter().map(|(t, w, x)| format!("[{},{},{}]", js(t), w, js(&x.to_string()))).collect();
    let notes: Vec<String> = v.notes.iter().map(|(k, b)| format!("[{},{},{}]", js(k), js(&String::from_utf8_lossy(b)), js(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))).collect();
    format!("{{\"msg\":{},\"known\":{},\"vars\":[{}],\"notes\":[{}],\"stack\":[{}],\"ops\":[{}]}}", js(&v.msg), v.known.as_ref().map(|k| js(k)).unwrap_or("null".into()), vars.join(","), notes.join(","),
        v.trace.iter().take(25).map(|s| js(s)).collect::<Vec<_>>().join(","), v.os_trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn selftest() {
    // construction-time simplification against direct evaluation, with a fixed-seed generator
    use expr::*;
    let mut s: u64 = 88172645463325252;
    let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let ws = [1u32, 8, 16, 32, 64];
    let mut n = 0;
    for _ in 0..60000 {
        let nv = 3;
        let model: Vec<u128> = (0..nv * ws.len()).map(|_| match rnd() % 4 { 0 => 0, 1 => !0u64 as u128, 2 => (rnd() % 4) as u128, _ => rnd() as u128 }).collect();
        // pool of (expr, value) per width
        let mut pool: Vec<(E, u128)> = vec![];
        for (k, w) in ws.iter().enumerate() { for j in 0..nv { let i = (k * nv + j) as u32; pool.push((var(i, *w), model[i as usize] & mask(*w))); } for _ in 0..2 { let c = match rnd() % 4 { 0 => 0, 1 => !0u64 as u128, 2 => 1u128 << (rnd() % *w as u64), _ => rnd() as u128 } & mask(*w); pool.push((cst(c, *w), c)); } }
        for _ in 0..14 {
            let a = pool[(rnd() % pool.len() as u64) as usize].clone();
            let same: Vec<_> = pool.iter().filter(|p| p.0.w == a.0.w).cloned().collect();
            let b = same[(rnd() % same.len() as u64) as usize].clone();
            let w = a.0.w;
            let r = match rnd() % 9 {
                0..=2 => { let ops = [Op::Add, Op::Sub, Op::Mul, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::UDiv, Op::URem, Op::SDiv, Op::SRem]; let o = ops[(rnd() % 13) as usize]; if b.1 == 0 && matches!(o, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) { continue } (bin(o, &a.0, &b.0), bin_c(o, a.1, b.1, w)) }
                3 => { let ops = [Cmp::Eq, Cmp::Ult, Cmp::Ule, Cmp::Slt, Cmp::Sle]; let o = ops[(rnd() % 5) as usize]; (cmp(o, &a.0, &b.0), cmp_c(o, a.1, b.1, w) as u128) }
                4 => (not(&a.0), !a.1 & mask(w)),
                5 => { let n = 1 + (rnd() % w as u64) as u32; let lo = (rnd() % (w - n + 1) as u64) as u32; let e = extract(&a.0, lo, n); let v = (a.1 >> lo) & mask(n); let t = ws.iter().find(|x| **x >= n).unwrap(); if rnd() % 2 == 0 { (zext(&e, *t), v) } else { (sext(&e, *t), sx(v, n) as u128 & mask(*t)) } }
                6 => { if w > 32 || w == 1 { continue } (concat(&a.0, &b.0), (a.1 << w) | b.1) }
                7 => { let t = ws[(rnd() % 5) as usize]; if t <= w { continue } if rnd() % 2 == 0 { (zext(&a.0, t), a.1) } else { (sext(&a.0, t), sx(a.1, w) as u128 & mask(t)) } }
                _ => { let cs: Vec<_> = pool.iter().filter(|p| p.0.w == 1).cloned().collect(); let c = cs[(rnd() % cs.len() as u64) as usize].clone(); (ite(&c.0, &a.0, &b.0), if c.1 == 1 { a.1 } else { b.1 }) }
            };
            let got = eval(&r.0, &model);
            n += 1;
            if got != r.1 { eprintln!("selftest mismatch: {} = {} want {}", show(&r.0), got, r.1); std::process::exit(3) }
            if ws.contains(&r.0.w) { pool.push(r) }
        }
    }
    // the solver agrees with the evaluator on what it calls satisfiable (checked on every query) and on constants
    let cache = Arc::new(solver::Cache::new());
    let mut sv = solver::Solver::new(cache, 10000);
    let x = var(0, 32); let y = var(1, 32);
    let q = vec![eq(&bin(Op::Mul, &x, &y), &cst(0x1234567, 32)), cmp(Cmp::Ult, &cst(1, 32), &x), cmp(Cmp::Ult, &cst(1, 32), &y)];
    assert!(matches!(sv.check(&q), solver::Ans::Sat(_)));
    let q = vec![cmp(Cmp::Ult, &x, &y), cmp(Cmp::Ult, &y, &x)];
    assert!(matches!(sv.check(&q), solver::Ans::Unsat));
    println!("selftest ok: {} expressions", n);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") { std::thread::Builder::new().stack_size(1 << 28).spawn(selftest).unwrap().join().unwrap(); return }
    let mut cfg = Cfg { entry: "vp_main".into(), threads: 8, max_steps: 400_000_000, timeout_s: 600.0, max_violations: 6, solver_ms: 60000, max_paths: u64::MAX, verbose: false, hash_const: false, covered: vec![], trace_fns: false, dump: None, samples: 3 };
    let mut ll = String::new(); let mut out = String::new(); let mut arg: u128 = 0; let mut constfns: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        let nx = |i: &mut usize| { *i += 1; args[*i].clone() };
        match args[i].as_str() {
            "--entry" => cfg.entry = nx(&mut i), "--threads" => cfg.threads = nx(&mut i).parse().unwrap(), "--max-steps" => cfg.max_steps = nx(&mut i).parse().unwrap(),
            "--timeout" => cfg.timeout_s = nx(&mut i).parse().unwrap(), "--max-violations" => cfg.max_violations = nx(&mut i).parse().unwrap(), "--solver-ms" => cfg.solver_ms = nx(&mut i).parse().unwrap(),
            "--max-paths" => cfg.max_paths = nx(&mut i).parse().unwrap(), "-v" => cfg.verbose = true, "--trace" => cfg.trace_fns = true, "--hash-const" => cfg.hash_const = true,
            "--out" => out = nx(&mut i), "--arg" => arg = nx(&mut i).parse().unwrap(), "--dump" => cfg.dump = Some(nx(&mut i).into()), "--samples" => cfg.samples = nx(&mut i).parse().unwrap(),
            "--zero-fn" => constfns.push(nx(&mut i)),
            x => ll = x.to_string(),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let load_s = t0.elapsed().as_secs_f64();
    let kinds: Vec<FnKind> = m.funcs.iter().map(|f| {
        let n = f.name;
        if f.body_src.is_none() { return FnKind::Ext }
        if n.starts_with("vp_") && n != cfg.entry.as_str() && !n.starts_with("vp_main") { return FnKind::Ext }
        let p = f.pretty;
        if (p.starts_with("core::panicking::") && !p.contains("Location")) || p.starts_with("std::panicking::begin_panic") || p.starts_with("std::panicking::rust_panic") || p.starts_with("std::panicking::panic_with_hook") || p.starts_with("alloc::alloc::handle_alloc_error") || n == "__rust_start_panic" { return FnKind::Panic }
        if cfg.hash_const && p.contains("::hash_one") { return FnKind::HashOne }
        if constfns.iter().any(|c| p.contains(c.as_str())) { return FnKind::NopRet }
        FnKind::Body
    }).collect();
    let Some(id) = m.syms.get(cfg.entry.as_str()) else { eprintln!("no entry {}", cfg.entry); std::process::exit(3) };
    let f = id - ir::FBASE;
    let st = State { frames: vec![], mem: mem::Mem::new(m.heap_base()), os: Arc::new(posix::Os::new()), pc: vec![], model: Arc::new(vec![]), vars: vec![], forced: VecDeque::new(), log: vec![], mark_pc: 0, mark_vars: 0, mark_os: None, steps: 0, known: None, notes: vec![], tid: 0, tls: Default::default(), par: None, depth: 0 };
    let mut st = st;
    {
        let body = m.body(f);
        let stack = if body.stack > 0 { st.mem.alloc(body.stack as usize) } else { 0 };
        let mut regs = vec![ir::V::C(0); body.nregs as usize];
        if let Some(p) = body.params.first() { regs[*p as usize] = ir::V::C(arg) }
        st.frames.push(Frame { body, regs, bb: 0, ip: 0, stack, dynalloc: vec![], kind: FKind::Normal, save: None });
    }
    let sh = explore(&m, &cfg, st, Arc::new(kinds));
    let s = &solver::STATS;
    let res = sh.res.lock().unwrap();
    let left = sh.q.lock().unwrap().0.len();
    let complete = res.errors.is_empty() && left == 0 && !sh.stop.load(Relaxed);
    let cov: Vec<&str> = (0..m.funcs.len()).filter(|i| sh.covered[*i].load(Relaxed)).map(|i| m.funcs[i].pretty).collect();
    let art: Vec<&&str> = cov.iter().filter(|p| ["artefacta::", "<artefacta::", "erreur::", "<erreur::"].iter().any(|x| p.starts_with(x))).collect();
    let json = format!("{{\"complete\":{},\"paths\":{},\"dropped\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"checks_symbolic\":{},\"transitions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cache_hits\":{},\"decisions\":{},\"left\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"functions\":{},\"functions_total\":{},\"max_queue\":{},\"target_functions\":[{}],\"errors\":{{{}}},\"reach\":{{{}}},\"violations\":[{}],\"known\":[{}],\"samples\":[{}]}}",
        complete, sh.paths.load(Relaxed), sh.dropped.load(Relaxed), sh.forks.load(Relaxed), sh.steps.load(Relaxed), sh.checks.load(Relaxed), sh.checks_sym.load(Relaxed), sh.transitions.load(Relaxed),
        s.queries.load(Relaxed), s.sat.load(Relaxed), s.unsat.load(Relaxed), s.unknown.load(Relaxed), s.nanos.load(Relaxed) as f64 / 1e9, s.max_nanos.load(Relaxed) as f64 / 1e9, s.cache_hits.load(Relaxed), s.model_hits.load(Relaxed), left, load_s, t0.elapsed().as_secs_f64(), cov.len(), m.funcs.len(), sh.maxq.load(Relaxed),
        art.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        res.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), res.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        res.violations.iter().map(viol_json).collect::<Vec<_>>().join(","), res.known.values().map(viol_json).collect::<Vec<_>>().join(","), res.samples.iter().map(viol_json).collect::<Vec<_>>().join(","));
    if out.is_empty() { println!("{}", json) } else { std::fs::write(&out, json).unwrap() }
    std::process::exit(if !res.violations.is_empty() { 1 } else if complete { 0 } else { 2 });
}
