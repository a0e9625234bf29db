mod exec;
mod expr;
mod intr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::os::fd::FromRawFd;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn close(fd: i32) -> i32;
}

/// Path segments of a v0-mangled name (enough to recognise a function).
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let mut out: Vec<String> = Vec::new();
    let mut i = 2;
    while i < b.len() {
        // disambiguator s_, s<base62>_ : hashes look like digits, skip them
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                out.push(s[j..j + n].to_string());
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (1..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

fn dump(e: &Eng, used: bool) -> String {
    let r = &e.res;
    let mut s = String::new();
    writeln!(s, "N\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", r.paths, r.assumed, r.steps, r.weight.to_bits(), r.coupled_paths, r.forks, r.decided, r.max_syms).unwrap();
    writeln!(s, "S\t{}\t{}\t{}\t{}\t{}\t{}", e.sol.st.sat, e.sol.st.unsat, e.sol.st.unknown, e.sol.st.cached, e.sol.st.ns, e.tabq_hits).unwrap();
    for (l, c) in &r.checks {
        writeln!(s, "C\t{l}\t{}\t{}", c.count, c.symbolic).unwrap();
    }
    for (l, c) in &r.reach {
        writeln!(s, "L\t{l}\t{}\t{}", c.count, hex(&c.model)).unwrap();
    }
    for v in &r.viol {
        writeln!(s, "V\t{}\t{}\t{}\t{}", v.kind, v.label, hex(&v.model), v.trace.join(" < ")).unwrap();
    }
    for (l, n) in &r.nviol {
        writeln!(s, "W\t{l}\t{n}").unwrap();
    }
    for (l, n) in &r.incomplete {
        writeln!(s, "X\t{}\t{n}", l.replace(['\n', '\t'], " ")).unwrap();
    }
    for m in &r.samples {
        writeln!(s, "M\t{}", hex(m)).unwrap();
    }
    if used {
        for f in &e.fns {
            if f.used {
                writeln!(s, "F\t{}", f.name).unwrap();
            }
        }
    }
    s
}

#[derive(Default)]
struct Merged {
    r: Results,
    s: [u64; 6],
    fns: std::collections::BTreeSet<String>,
}
fn merge(m: &mut Merged, txt: &str, nviol: usize) {
    for l in txt.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| p[i].parse::<u64>().unwrap();
        match p[0] {
            "N" => {
                m.r.paths += n(1);
                m.r.assumed += n(2);
                m.r.steps += n(3);
                m.r.weight += f64::from_bits(n(4));
                m.r.coupled_paths += n(5);
                m.r.forks += n(6);
                m.r.decided += n(7);
                m.r.max_syms = m.r.max_syms.max(n(8));
            }
            "S" => for i in 0..6 {
                m.s[i] += n(i + 1);
            },
            "C" => {
                let e = m.r.checks.entry(p[1].into()).or_default();
                e.count += n(2);
                e.symbolic += n(3);
            }
            "L" => {
                let e = m.r.reach.entry(p[1].into()).or_default();
                if e.count == 0 {
                    e.model = unhex(p[3]);
                }
                e.count += n(2);
            }
            "V" => {
                if m.r.viol.iter().filter(|v| v.label == p[2]).count() < nviol {
                    m.r.viol.push(Viol { kind: p[1].into(), label: p[2].into(), model: unhex(p[3]), trace: p[4].split(" < ").map(|x| x.to_string()).collect() });
                }
            }
            "W" => *m.r.nviol.entry(p[1].into()).or_default() += n(2),
            "X" => *m.r.incomplete.entry(p[1].into()).or_default() += n(2),
            "M" => if m.r.samples.len() < 12 {
                m.r.samples.push(unhex(p[1]));
            },
            "F" => {
                m.fns.insert(p[1].into());
            }
            _ => {}
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut idx = 0u64;
    let mut params = Vec::new();
    let mut jobs = 8usize;
    let mut secs = 600u64;
    let mut fuel = 50_000_000u64;
    let mut out = String::new();
    let mut nviol = 3usize;
    let mut frontier = 1024usize;
    let mut z3ms = 20_000u32;
    let mut stop = u64::MAX;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--run" => idx = val().parse().unwrap(),
            "--param" => params.push(val().parse().unwrap()),
            "--jobs" => jobs = val().parse().unwrap(),
            "--secs" => secs = val().parse().unwrap(),
            "--fuel" => fuel = val().parse().unwrap(),
            "--out" => out = val(),
            "--nviol" => nviol = val().parse().unwrap(),
            "--frontier" => frontier = val().parse().unwrap(),
            // Seconds to go on for after the first violation.
            "--stop" => stop = val().parse().unwrap(),
            "--z3ms" => z3ms = val().parse().unwrap(),
            _ => file = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let mut text = std::fs::read(&file).expect("ir file");
    text.push(b'\n');
    let text: &'static [u8] = Box::leak(text.into_boxed_slice());
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::scan(text)));
    let mut fns = Vec::new();
    let mut fn_ix = HashMap::new();
    let mut names: Vec<&String> = m.funcs.keys().collect();
    names.sort();
    for n in names {
        let kind = if intr::overrides(n) { FKind::Builtin(intr::classify(n).unwrap_or_else(|| panic!("{n}"))) } else { FKind::Defined };
        fn_ix.insert(n.clone(), fns.len() as u32);
        fns.push(FnEnt { name: n.clone(), kind, body: None, used: false });
    }
    for n in &m.decls {
        if fn_ix.contains_key(n) {
            continue;
        }
        let kind = match intr::classify(n) {
            Some(b) => FKind::Builtin(b),
            None => FKind::Extern,
        };
        fn_ix.insert(n.clone(), fns.len() as u32);
        fns.push(FnEnt { name: n.clone(), kind, body: None, used: false });
    }
    let mut globs = Vec::new();
    let mut gl_ix = HashMap::new();
    for (n, t) in &m.globals {
        gl_ix.insert(n.clone(), globs.len() as u32);
        globs.push(GlobEnt { name: n.clone(), txt: t, obj: None });
    }
    gl_ix.insert("__symir_errno".into(), globs.len() as u32);
    globs.push(GlobEnt { name: "__symir_errno".into(), txt: b"internal global i64 0", obj: None });
    let sol = solver::Solver::new(z3ms);
    let mut e = Eng {
        m, fns, fn_ix, globs, gl_ix,
        ar: expr::Arena::default(),
        sol,
        tabq: HashMap::new(),
        tabq_hits: 0,
        work: VecDeque::new(),
        st: State::default(),
        res: Results::default(),
        bfs: true,
        forked: false,
        params,
        max_viol: nviol,
        label_ids: HashMap::new(),
    };
    e.st.fuel = fuel;
    let run = *e.fn_ix.get("se_run").expect("se_run not in the module");
    e.fns[run as usize].kind = FKind::Defined;
    if e.enter(run, vec![mem::Val::I(idx)], u32::MAX, u32::MAX).is_err() {
        panic!("cannot start");
    }
    // breadth first until the frontier is wide enough
    let mut queue: VecDeque<State> = VecDeque::new();
    let st = std::mem::take(&mut e.st);
    queue.push_back(st);
    let deadline = secs;
    while let Some(s) = queue.pop_front() {
        e.st = s;
        e.forked = false;
        if e.run_current() {
            let s = std::mem::take(&mut e.st);
            queue.push_back(s);
        }
        while let Some(s) = e.work.pop_front() {
            queue.push_back(s);
        }
        let slow = queue.len() >= 128 && t0.elapsed().as_millis() > 1500 || queue.len() >= 16 && t0.elapsed().as_millis() > 6000;
        if queue.len() >= frontier || slow || t0.elapsed().as_secs() > deadline {
            break;
        }
    }
    let mut mg = Merged::default();
    let jobs = if queue.is_empty() { 0 } else { jobs };
    merge(&mut mg, &dump(&e, true), nviol);
    if jobs > 0 {
        e.res = Results::default();
        e.sol.st = Default::default();
        e.tabq_hits = 0;
        e.bfs = false;
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
        let next = unsafe { &*shared };
        let found = unsafe { &*shared.add(1) };
        let queue: Vec<State> = queue.into();
        let mut kids = Vec::new();
        for _ in 0..jobs {
            let mut fds = [0i32; 2];
            unsafe { assert_eq!(pipe(fds.as_mut_ptr()), 0) };
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { close(fds[0]) };
                'outer: loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= queue.len() {
                        break;
                    }
                    e.work.push_back(queue[k].clone());
                    while let Some(s) = e.work.pop_back() {
                        if t0.elapsed().as_secs() > deadline {
                            *e.res.incomplete.entry("time limit".into()).or_default() += 1;
                            break 'outer;
                        }
                        if stop != u64::MAX {
                            use std::sync::atomic::Ordering::SeqCst;
                            let ms = t0.elapsed().as_millis() as usize + 1;
                            if !e.res.viol.is_empty() {
                                let _ = found.compare_exchange(0, ms, SeqCst, SeqCst);
                            }
                            let f = found.load(SeqCst);
                            if f != 0 && ms > f + stop as usize * 1000 {
                                *e.res.incomplete.entry("stopped after a violation".into()).or_default() += 1;
                                break 'outer;
                            }
                        }
                        e.st = s;
                        e.run_current();
                    }
                }
                let s = dump(&e, true) + "END\n";
                let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let _ = f.write_all(s.as_bytes());
                drop(f);
                unsafe { _exit(0) };
            }
            unsafe { close(fds[1]) };
            kids.push((pid, fds[0]));
        }
        for (pid, fd) in kids {
            let mut s = String::new();
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let _ = f.read_to_string(&mut s);
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if !s.ends_with("END\n") {
                *mg.r.incomplete.entry("a worker process died".into()).or_default() += 1;
            }
            merge(&mut mg, &s, nviol);
        }
    }
    // report
    let r = &mg.r;
    let mut j = String::from("{\n");
    let complete = r.incomplete.is_empty();
    writeln!(j, " \"complete\": {complete}, \"paths\": {}, \"assumed_away\": {}, \"steps\": {}, \"weight\": {}, \"coupled_paths\": {}, \"forks\": {}, \"branches_decided\": {}, \"max_symbols\": {},", r.paths, r.assumed, r.steps, r.weight, r.coupled_paths, r.forks, r.decided, r.max_syms).unwrap();
    writeln!(j, " \"z3\": {{\"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"table_cached\": {}, \"ms\": {}}},", mg.s[0], mg.s[1], mg.s[2], mg.s[3], mg.s[5], mg.s[4] / 1_000_000).unwrap();
    let lab = |m: &BTreeMap<String, LabelStat>| m.iter().map(|(k, v)| format!("\"{}\": {{\"count\": {}, \"symbolic\": {}, \"model\": \"{}\"}}", esc(k), v.count, v.symbolic, hex(&v.model))).collect::<Vec<_>>().join(",\n  ");
    writeln!(j, " \"checks\": {{{}}},\n \"reach\": {{{}}},", lab(&r.checks), lab(&r.reach)).unwrap();
    let v: Vec<String> = r.viol.iter().map(|v| format!("{{\"kind\": \"{}\", \"label\": \"{}\", \"model\": \"{}\", \"trace\": [{}]}}", esc(&v.kind), esc(&v.label), hex(&v.model), v.trace.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(", "))).collect();
    writeln!(j, " \"violations\": [{}],", v.join(",\n  ")).unwrap();
    let cnt = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", ");
    writeln!(j, " \"violation_counts\": {{{}}},\n \"incomplete\": {{{}}},", cnt(&r.nviol), cnt(&r.incomplete)).unwrap();
    writeln!(j, " \"samples\": [{}],", r.samples.iter().map(|m| format!("\"{}\"", hex(m))).collect::<Vec<_>>().join(", ")).unwrap();
    let f: std::collections::BTreeSet<String> = mg.fns.iter().map(|f| demangle(f)).collect();
    writeln!(j, " \"functions\": [{}],", f.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(j, " \"wall_s\": {:.2}\n}}", t0.elapsed().as_secs_f64()).unwrap();
    if out.is_empty() {
        print!("{j}");
    } else {
        std::fs::write(&out, j).unwrap();
    }
}
