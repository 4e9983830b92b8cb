mod alloc;
mod content;
mod exec;
mod gen;
mod inflate;
mod judge;
mod rng;
mod shrink;
mod sink;
mod spec;
mod sums;

use sink::{Counters, PROBES};
use spec::Spec;
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Tagged = alloc::Tagged;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("check") => check(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("shrink") => shrink_cmd(&a[1..]),
        Some("gen") => {
            // gen PROP BUILD HOOKED SEED IDX
            print!("{}", gen::spec(&a[1], &a[2], a[3] == "1", a[4].parse().unwrap(), a[5].parse().unwrap()).text());
        }
        Some("hashes") => {
            // hashes PROP BUILD SEED FROM TO: event log hash of each run (determinism check)
            exec::install_hook();
            for i in a[4].parse::<u64>().unwrap()..a[5].parse().unwrap() {
                let s = gen::spec(&a[1], &a[2], exec::HOOKED, a[3].parse().unwrap(), i);
                let o = exec::run(&s, false);
                println!("{} {:016x} {} {}", i, o.hash, o.events, o.viols.len());
                for v in o.viols.iter().filter(|v| judge::accepts(&a[1], v.tag, &v.msg)) {
                    eprintln!("{} {}: {}", i, v.tag, v.msg);
                }
            }
            if a[1] == "C21" {
                eprintln!("audit {:?}", inflate::WORST);
            }
        }
        _ => {
            eprintln!("usage: sim check|worker|replay|shrink|gen|hashes");
            std::process::exit(2);
        }
    }
}

fn found<'a>(prop: &str, o: &'a exec::Outcome) -> Option<&'a sink::Viol> {
    o.viols.iter().find(|v| judge::accepts(prop, v.tag, &v.msg))
}

// worker PROP BUILD SEED FIRST STRIDE COUNT SECS STATUS RESULT
fn worker(a: &[String]) {
    exec::install_hook();
    let (prop, build) = (&a[0], &a[1]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, stride, count, secs) = (n(2), n(3), n(4), n(5), n(6));
    let status = std::fs::File::create(&a[7]).unwrap();
    let beat = status.try_clone().unwrap();
    std::thread::spawn(move || loop {
        let n = exec::PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
        let _ = beat.write_all_at(&n.to_le_bytes(), 8);
        std::thread::sleep(Duration::from_millis(200));
    });
    let start = Instant::now();
    let mut cnt = Counters::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut viol: Option<String> = None;
    let mut samples = vec![];
    let mut others: HashMap<String, (u64, u64)> = HashMap::new();
    let mut last = 0;
    // thorough checks begin with the heaviest runs
    let mut i = if secs >= 300 { gen::EXTRA + first } else { first };
    while (i < count || i >= gen::EXTRA) && start.elapsed() < Duration::from_secs(secs) {
        let _ = status.write_all_at(&(i + 1).to_le_bytes(), 0);
        let s = gen::spec(prop, build, exec::HOOKED, seed, i);
        let o = exec::run(&s, false);
        cnt.add(&o.cnt);
        last = i;
        if o.nontrivial {
            sigs.insert(o.hash);
        }
        states.extend(o.states.iter());
        if samples.len() < 2 && o.nontrivial {
            let t = s.text();
            if t.len() < 900 {
                samples.push((i, t));
            }
        }
        let mut v = found(prop, &o).map(|v| format!("{} {}", v.tag, v.msg));
        for x in &o.viols {
            if !judge::accepts(prop, x.tag, &x.msg) {
                cnt.other += 1;
                others.entry(x.tag.to_string()).or_insert((0, i)).0 += 1;
            }
        }
        // determinism: now and then the same spec, through its text form, again
        if v.is_none() && (i / stride) % 61 == 0 && !s.heavy() {
            let o2 = exec::run(&Spec::parse(&s.text()).expect("spec text"), false);
            if o2.hash != o.hash {
                let m = "the same run gave two different event histories".to_string();
                if judge::accepts(prop, "nondet", &m) {
                    v = Some(format!("nondet {}", m));
                } else {
                    others.entry("nondet".into()).or_insert((0, i)).0 += 1;
                }
            }
        }
        // and now and then in a process of its own, where nothing came before it
        let rate = if prop == "C03" || prop == "C15" { 23 } else { 89 };
        if v.is_none() && (i / stride) % rate == 3 && !s.heavy() {
            let f = PathBuf::from(format!("{}.alone", a[8]));
            // in turn by the same and by the other build
            let other = std::env::var("SIM_OTHER").ok().filter(|_| s.portable() && (i / stride) / rate % 2 == 0);
            let h = alone(&s, &f, other.as_deref());
            let _ = std::fs::remove_file(&f);
            cnt.probes[if other.is_some() { 31 } else { 30 }] += 1;
            if h.map_or(false, |h| h != o.hash) {
                let (t, m) = match other {
                    None => ("nondet", "a run gave another event history than the same run in a new process"),
                    Some(_) => ("crossbuild", CROSS),
                };
                if judge::accepts(prop, t, m) {
                    v = Some(format!("{} {}", t, m));
                } else {
                    others.entry(t.into()).or_insert((0, i)).0 += 1;
                }
            }
        }
        if let Some(m) = v {
            viol = Some(format!("{} {}", i, m));
            break;
        }
        i = if i >= gen::EXTRA { first } else { i + stride };
    }
    let mut f = std::fs::File::create(&a[8]).unwrap();
    writeln!(f, "last {}", last).unwrap();
    writeln!(f, "secs {}", start.elapsed().as_secs_f64()).unwrap();
    let c: Vec<String> = cnt.vec().iter().map(|x| x.to_string()).collect();
    writeln!(f, "cnt {}", c.join(" ")).unwrap();
    for (k, (n, i)) in &others {
        writeln!(f, "other {} {} {}", k, n, i).unwrap();
    }
    for (i, t) in &samples {
        writeln!(f, "sample {} {}", i, t.trim().replace('\n', ";")).unwrap();
    }
    if let Some(v) = viol {
        writeln!(f, "viol {}", v.replace('\n', " ")).unwrap();
    }
    let hex = |s: &HashSet<u64>| s.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ");
    writeln!(f, "sigs {}", hex(&sigs)).unwrap();
    writeln!(f, "states {}", hex(&states)).unwrap();
    writeln!(f, "end").unwrap();
}

const CROSS: &str = "a run gave another event history than in the build with other assertions and checks";

/// The event hash of a run that is executed in a process of its own, maybe of another build.
fn alone(s: &Spec, f: &Path, other: Option<&str>) -> Option<u64> {
    std::fs::write(f, s.text()).ok()?;
    let me = std::env::current_exe().ok()?;
    let o = run_child(other.or(me.to_str())?, &["replay", f.to_str()?], Duration::from_secs(60), true, None);
    o.2.lines().find_map(|l| u64::from_str_radix(l.strip_prefix("HASH ")?.get(..16)?, 16).ok())
}

// replay FILE [PROP]: exit 1 if the run violates its property, 0 if not
fn replay(a: &[String]) {
    exec::install_hook();
    let t = std::fs::read_to_string(&a[0]).expect("replay file");
    // usually one run; several (separated by ---) when what a run leaves behind in the process matters
    let specs: Vec<Spec> = t.split("\n---\n").map(|p| Spec::parse(p).expect("replay file format")).collect();
    let prop = a.get(1).cloned().unwrap_or_else(|| specs[0].prop.clone());
    let trace = std::env::var("SIM_QUIET").is_err();
    let mut seen: HashMap<String, u64> = HashMap::new();
    let mut code = 0;
    let mut seen_last = 0;
    for (k, s) in specs.iter().enumerate() {
        let o = exec::run(s, trace && k + 1 == specs.len());
        seen_last = o.hash;
        for l in &o.lines {
            println!("{}", l);
        }
        println!("HASH {:016x} EVENTS {}", o.hash, o.events);
        for v in &o.viols {
            println!("{} {}: {}", if judge::accepts(&prop, v.tag, &v.msg) { "FOUND" } else { "other" }, v.tag, v.msg);
        }
        if found(&prop, &o).is_some() {
            code = 1;
        }
        if *seen.entry(s.text()).or_insert(o.hash) != o.hash && judge::accepts(&prop, "nondet", "") {
            println!("FOUND nondet: the same run gave two different event histories");
            code = 1;
        }
    }
    // with earlier runs in this process, and without
    let s = &specs[specs.len() - 1];
    let f = std::env::temp_dir().join(format!("sim-alone-{}.replay", std::process::id()));
    if let (1, 0, true, Ok(b)) = (specs.len(), code, s.portable() && judge::accepts(&prop, "crossbuild", ""), std::env::var("SIM_OTHER")) {
        let h = alone(s, &f, Some(&b));
        let _ = std::fs::remove_file(&f);
        if h.map_or(false, |h| h != seen_last) {
            println!("FOUND crossbuild: {}", CROSS);
            code = 1;
        }
    }
    if specs.len() > 1 && code == 0 && judge::accepts(&prop, "nondet", "") {
        let h = alone(s, &f, None);
        let _ = std::fs::remove_file(&f);
        if h.map_or(false, |h| h != seen_last) {
            println!("FOUND nondet: the last run gave another event history than in a new process");
            code = 1;
        }
    }
    std::process::exit(code);
}

// shrink FILE TAG OUT SECS
fn shrink_cmd(a: &[String]) {
    exec::install_hook();
    let s = Spec::parse(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let tag = a[1].clone();
    let end = Instant::now() + Duration::from_secs(a[3].parse().unwrap());
    let prop = s.prop.clone();
    let r = shrink::shrink(
        s,
        |c| {
            let o = exec::run(c, false);
            if tag == "nondet" {
                return o.hash != exec::run(c, false).hash;
            }
            o.viols.iter().any(|v| v.tag == tag && judge::accepts(&prop, v.tag, &v.msg))
        },
        || Instant::now() < end,
    );
    std::fs::write(&a[2], r.text()).unwrap();
}

struct W {
    child: Child,
    status: PathBuf,
    result: PathBuf,
    build: &'static str,
    bin: String,
    other: String,
    seen: u64,
    beat: u64,
    since: Instant,
    done: bool,
}

fn arg(a: &[String], k: &str) -> String {
    let p = format!("--{}", k);
    a.iter().position(|x| *x == p).and_then(|i| a.get(i + 1)).unwrap_or_else(|| panic!("missing {}", p)).clone()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Fewer rounds of the loops of a long run, as long as it still fails; candidates are given 20 s each, 100 s in all.
fn lighter(mut s: Spec, scratch: &Path, bin: &str, same: &dyn Fn(&(Option<i32>, bool, String)) -> bool) -> Spec {
    let f = scratch.join("light.replay");
    let end = Instant::now() + Duration::from_secs(100);
    let mut fails = |c: &Spec| {
        std::fs::write(&f, c.text()).unwrap();
        Instant::now() < end && same(&run_child(bin, &["replay", f.to_str().unwrap()], Duration::from_secs(20), true, None))
    };
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    let scaled = |q: f64| {
        let mut c = s.clone();
        for o in c.encs.iter_mut().flat_map(|e| e.ops.iter_mut()) {
            if let spec::Op::L(n, _) = o {
                *n = (*n as f64 * q) as usize;
            }
        }
        c
    };
    // the first step that is cheap enough to try: then halve the interval
    for k in 1..14 {
        let q = 0.5f64.powi(14 - k);
        if fails(&scaled(q)) {
            hi = q;
            break;
        }
        lo = q;
        if Instant::now() > end {
            break;
        }
    }
    for _ in 0..10 {
        let q = (lo + hi) / 2.0;
        if fails(&scaled(q)) {
            hi = q;
        } else {
            lo = q;
        }
    }
    s = scaled(hi);
    if s.heavy() {
        return s;
    }
    shrink::shrink(s, |c| fails(c), || Instant::now() < end)
}

const HANG: Duration = Duration::from_secs(60);

/// Run one spec in a child; returns (exit code or None for death by signal, timed out, output).
fn run_child(bin: &str, args: &[&str], limit: Duration, quiet: bool, other: Option<&str>) -> (Option<i32>, bool, String) {
    let mut c = Command::new(bin);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    if quiet {
        c.env("SIM_QUIET", "1");
    }
    match other {
        Some(o) => c.env("SIM_OTHER", o),
        None => c.env_remove("SIM_OTHER"),
    };
    let mut ch = c.spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return (st.code(), false, h.join().unwrap());
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, true, h.join().unwrap());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn check(a: &[String]) {
    let prop = arg(a, "prop");
    let seed: u64 = arg(a, "seed").parse().unwrap_or(1);
    let tier = arg(a, "tier");
    let (dbg, rel) = (arg(a, "dbg"), arg(a, "rel"));
    let runs: u64 = arg(a, "runs").parse().unwrap();
    let secs: u64 = arg(a, "secs").parse().unwrap();
    let jobs: u64 = arg(a, "jobs").parse().unwrap();
    let hooked = arg(a, "hooked") == "1";
    let scratch = PathBuf::from(arg(a, "scratch"));
    let replays = PathBuf::from(arg(a, "replays"));
    let evidence = arg(a, "evidence");
    let level = arg(a, "level");
    std::fs::create_dir_all(&scratch).unwrap();
    std::fs::create_dir_all(&replays).unwrap();
    let t0 = Instant::now();

    let mut ws: Vec<W> = (0..jobs)
        .map(|w| {
            let (build, bin) = if w % 2 == 0 { ("dbg", &dbg) } else { ("rel", &rel) };
            let status = scratch.join(format!("s{}", w));
            let result = scratch.join(format!("r{}", w));
            let _ = std::fs::remove_file(&result);
            let child = Command::new(bin)
                .args(["worker", &prop, build])
                .args([seed.to_string(), w.to_string(), jobs.to_string(), runs.to_string(), secs.to_string()])
                .arg(&status)
                .arg(&result)
                .env("SIM_OTHER", if w % 2 == 0 { &rel } else { &dbg })
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start worker");
            W { child, status, result, build, bin: bin.clone(), other: if w % 2 == 0 { rel.clone() } else { dbg.clone() }, seen: 0, beat: 0, since: Instant::now(), done: false }
        })
        .collect();

    // violations: (index, tag, message, worker)
    let mut viols: Vec<(u64, String, String, usize)> = vec![];
    let mut first_viol: Option<Instant> = None;
    loop {
        let mut open = 0;
        for i in 0..ws.len() {
            let w = &mut ws[i];
            if w.done {
                continue;
            }
            let st = std::fs::read(&w.status).unwrap_or_default();
            let num = |i: usize| st.get(i..i + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            let (cur, beat) = (num(0), num(8));
            if cur != w.seen || beat != w.beat {
                w.seen = cur;
                w.beat = beat;
                w.since = Instant::now();
            }
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = true;
                let r = std::fs::read_to_string(&w.result).unwrap_or_default();
                if !r.ends_with("end\n") {
                    viols.push((cur.saturating_sub(1), "abort".into(), format!("the process died ({}) during this run", st), i));
                } else if let Some(l) = r.lines().find(|l| l.starts_with("viol ")) {
                    let mut p = l[5..].splitn(3, ' ');
                    let ix = p.next().unwrap().parse().unwrap();
                    viols.push((ix, p.next().unwrap().into(), p.next().unwrap_or("").into(), i));
                }
            } else if w.since.elapsed() > HANG {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                viols.push((cur.saturating_sub(1), "hang".into(), format!("a call did not return within {} s", HANG.as_secs()), i));
            } else {
                open += 1;
            }
        }
        if !viols.is_empty() && first_viol.is_none() {
            first_viol = Some(Instant::now());
        }
        if let Some(t) = first_viol {
            // let the others catch up to the smallest failing index, but not for long
            let min = viols.iter().map(|v| v.0).min().unwrap();
            let late = t.elapsed() > Duration::from_secs(10);
            for w in ws.iter_mut().filter(|w| !w.done) {
                if w.seen > min + 1 || late {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    w.done = true;
                }
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let search = t0.elapsed().as_secs_f64();

    // collect
    let mut cnt = Counters::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut others: HashMap<String, (u64, u64)> = HashMap::new();
    for w in &ws {
        let r = std::fs::read_to_string(&w.result).unwrap_or_default();
        for l in r.lines() {
            if let Some(x) = l.strip_prefix("cnt ") {
                let v: Vec<u64> = x.split(' ').map(|x| x.parse().unwrap()).collect();
                cnt.add(&Counters::from_vec(&v));
            } else if let Some(x) = l.strip_prefix("sigs ") {
                sigs.extend(x.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok()));
            } else if let Some(x) = l.strip_prefix("states ") {
                states.extend(x.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok()));
            } else if let Some(x) = l.strip_prefix("sample ") {
                samples.push(format!("run {}", x));
            } else if let Some(x) = l.strip_prefix("other ") {
                let p: Vec<&str> = x.split(' ').collect();
                let e = others.entry(p[0].to_string()).or_insert((0, p[2].parse().unwrap()));
                e.0 += p[1].parse::<u64>().unwrap();
            }
        }
    }
    samples.truncate(4);

    // report
    viols.sort();
    let mut code = 0;
    let mut vline = String::new();
    if let Some((ix, tag, msg, wi)) = viols.first().cloned() {
        let w = &ws[wi];
        let spec = gen::spec(&prop, w.build, w.build == "dbg" && hooked, seed, ix);
        let raw = scratch.join("raw.replay");
        std::fs::write(&raw, spec.text()).unwrap();
        let min = scratch.join("min.replay");
        let same = |out: &(Option<i32>, bool, String)| -> bool {
            match tag.as_str() {
                "abort" => out.0.map_or(!out.1, |c| c > 1),
                "hang" => out.1,
                _ => out.0 == Some(1),
            }
        };
        let mut small = None;
        let heavy = spec.heavy();
        if heavy {
            small = Some(lighter(spec.clone(), &scratch, &w.bin, &same).text());
        } else if tag == "abort" || tag == "hang" || tag == "crossbuild" {
            let end = Instant::now() + Duration::from_secs(60);
            let lim = Duration::from_secs(if tag == "hang" { 6 } else { 20 });
            let f = scratch.join("cand.replay");
            let fp = f.to_str().unwrap().to_string();
            let s = shrink::shrink(
                spec.clone(),
                |c| {
                    std::fs::write(&f, c.text()).unwrap();
                    same(&run_child(&w.bin, &["replay", &fp], lim, true, Some(&w.other)))
                },
                || Instant::now() < end,
            );
            small = Some(s.text());
        } else {
            let o = run_child(&w.bin, &["shrink", raw.to_str().unwrap(), &tag, min.to_str().unwrap(), "25"], Duration::from_secs(60), true, None);
            if o.0 == Some(0) {
                small = std::fs::read_to_string(&min).ok();
            }
        }
        let text = small.unwrap_or_else(|| spec.text());
        let path = replays.join(format!("{}-{}-{}.replay", prop, seed, ix));
        let head = format!("# property {} seed {} run {} build {}\n# {}: {}\n", prop, seed, ix, w.build, tag, msg);
        std::fs::write(&path, format!("{}{}", head, text)).unwrap();
        // replay the minimised file in a fresh process, twice; fall back to the full run
        let lim = Duration::from_secs(if heavy { 200 } else if tag == "hang" { 20 } else { 60 });
        let mut r = run_child(&w.bin, &["replay", path.to_str().unwrap()], lim, false, Some(&w.other));
        if !same(&r) && tag != "nondet" {
            std::fs::write(&path, format!("{}{}", head, spec.text())).unwrap();
            r = run_child(&w.bin, &["replay", path.to_str().unwrap()], lim, false, Some(&w.other));
        }
        if !same(&r) && tag != "hang" && !heavy {
            // what earlier runs left behind in the process matters: find the runs that are needed
            let f = scratch.join("seq.replay");
            let fp = f.to_str().unwrap().to_string();
            let join = |v: &[Spec]| v.iter().map(|s| s.text()).collect::<Vec<_>>().join("\n---\n");
            let fails = |v: &[Spec]| {
                std::fs::write(&f, join(v)).unwrap();
                same(&run_child(&w.bin, &["replay", &fp], Duration::from_secs(60), true, Some(&w.other)))
            };
            let end = Instant::now() + Duration::from_secs(60);
            let mut seq = None;
            if tag == "nondet" && fails(&[spec.clone(), spec.clone()]) {
                seq = Some(vec![spec.clone(), spec.clone()]);
            }
            let mut k = 1;
            while seq.is_none() && Instant::now() < end {
                let n = k.min(ix / jobs);
                let mut v: Vec<Spec> =
                    (0..=n).rev().map(|j| gen::spec(&prop, w.build, w.build == "dbg" && hooked, seed, ix - j * jobs)).collect();
                if fails(&v) {
                    seq = Some(v);
                } else if tag == "nondet" {
                    v.push(spec.clone());
                    if fails(&v) {
                        seq = Some(v);
                    }
                }
                if n < k {
                    break;
                }
                k *= 4;
            }
            if let Some(mut v) = seq {
                let end = Instant::now() + Duration::from_secs(60);
                let mut size = v.len() / 2;
                while size > 0 && Instant::now() < end {
                    let mut at = 0;
                    while at < v.len() && v.len() > 1 && Instant::now() < end {
                        let mut c = v.clone();
                        c.drain(at..(at + size).min(v.len()));
                        if !c.is_empty() && fails(&c) {
                            v = c;
                        } else {
                            at += size;
                        }
                    }
                    size /= 2;
                }
                let pair = v.len() == 2 && v[0] == v[1];
                for i in 0..if pair { 1 } else { v.len() } {
                    let mut o = v.clone();
                    let s = shrink::shrink(
                        v[i].clone(),
                        |c| {
                            o[i] = c.clone();
                            if pair {
                                o[1] = c.clone();
                            }
                            fails(&o)
                        },
                        || Instant::now() < end,
                    );
                    if pair {
                        v[1] = s.clone();
                    }
                    v[i] = s;
                }
                std::fs::write(&path, format!("{}{}", head, join(&v))).unwrap();
                r = run_child(&w.bin, &["replay", path.to_str().unwrap()], lim, false, Some(&w.other));
            }
        }
        let confirmed = same(&r);
        for l in r.2.lines().rev().take(40).collect::<Vec<_>>().iter().rev() {
            println!("  {}", l);
        }
        println!("{}: {} (run {}, build {}{})", tag, msg, ix, w.build, if confirmed { ", replay confirmed" } else { ", replay did not reproduce it" });
        vline = format!("VIOLATION property={} replay={}", prop, path.display());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();

    let mut faults = vec![
        format!("\"short_write\": {}", cnt.short),
        format!("\"zero_write\": {}", cnt.zero),
        format!("\"writer_panic\": {}", cnt.panics),
        format!("\"persistent_error_calls\": {}", cnt.errforever),
        format!("\"crash\": {}", cnt.crashes),
        format!("\"panic_unwind\": {}", cnt.unwinds),
    ];
    for (k, n) in spec::EKS.iter().zip(cnt.err) {
        faults.push(format!("\"error_{:?}\": {}", k.2, n));
    }
    let probes: Vec<String> = PROBES.iter().zip(cnt.probes).map(|(p, n)| format!("{}: {}", jstr(p), n)).collect();
    let oth: Vec<String> = {
        let mut v: Vec<_> = others.iter().collect();
        v.sort();
        v.iter().map(|(k, (n, i))| format!("{}: {}", jstr(k), jstr(&format!("{} times, first in run {}", n, i)))).collect()
    };
    let per_hour = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let ev = format!(
        r#"{{
 "property": {prop}, "tier": {tier}, "seed": {seed}, "level": {level},
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nt},
  "rule": "One evaluation is one simulated run: a seeded run spec (encoders, options, data, calls, act of the writer at each call, schedule) executed against the real library, half of the runs with debug assertions, overflow checks and the tuning hook, half as shipped. A run is non-trivial if a writer fault or short write fired, a flush or reset succeeded, the run ended in a crash or unwinding, or several encoders ran; distinct by the hash of its whole event log (calls, results, every writer call with offered and accepted length).",
  "samples": [{samples}],
  "seed_range": "runs 0..{last} of VERIF_SEED {seed}",
  "runs_per_hour": {rph}, "seeds_per_hour": {rph},
  "simulated_time": "{events} events (calls and writer calls); the system has no clock",
  "encoder_calls": {calls}, "writer_calls": {sc}, "crash_points_checked": {cp},
  "bytes_in": {bi}, "bytes_out": {bo},
  "distinct_abstract_states": {st},
  "state_measure": "distinct (call, result, faults fired in it, container, data taken/undelivered/delivered magnitude, header/final block/finishing/flush/stream-number flags, writer health) at call boundaries",
  "faults_fired": {{ {faults} }},
  "history": {{ "flushes_ok": {fl}, "resets_ok": {rs}, "finishes": {fi}, "drops": {dr}, "retries": {re}, "giveups": {gu}, "context_switches": {sw}, "nested_uses": {ne}, "reference_executions": {rf}, "second_decoder_checks": {sd} }},
  "probes": {{ {probes} }},
  "findings_outside_this_property": {{ {oth} }},
  "real_components": "the whole deflate crate (all modules) and gzip-header; caller threads in Threads and Migrate modes",
  "stubbed_components": "the wrapped writer; the crash (nothing after it runs); turn taking between threads",
  "hook_active": {hk}
 }},
 "assumptions": ["runs are sampled, not enumerated", "the strict decoder of the simulator is right (cross-checked against miniz_oxide on a sample)", "allocation failure is not injected: it aborts a Rust process, there is nothing left to observe"],
 "wall_s": {wall:.2},
 "violations": {nv}
}}
"#,
        prop = jstr(&prop),
        tier = jstr(&tier),
        seed = seed,
        level = jstr(&level),
        runs = cnt.runs,
        nt = sigs.len(),
        samples = samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        last = runs,
        rph = per_hour(cnt.runs),
        events = cnt.events,
        calls = cnt.calls,
        sc = cnt.sink_calls,
        cp = cnt.crash_points,
        bi = cnt.bytes_in,
        bo = cnt.bytes_out,
        st = states.len(),
        faults = faults.join(", "),
        fl = cnt.flushes,
        rs = cnt.resets,
        fi = cnt.finishes,
        dr = cnt.drops,
        re = cnt.retries,
        gu = cnt.giveups,
        sw = cnt.switches,
        ne = cnt.nested,
        rf = cnt.refs,
        sd = cnt.second,
        probes = probes.join(", "),
        oth = oth.join(", "),
        hk = hooked,
        wall = wall,
        nv = viols.len().min(1),
    );
    if let Some(p) = Path::new(&evidence).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&evidence, ev).unwrap();
    println!(
        "{}: {} runs ({} distinct non-trivial, {} abstract states), {} encoder calls, {} writer calls, {:.1} s{}",
        prop,
        cnt.runs,
        sigs.len(),
        states.len(),
        cnt.calls,
        cnt.sink_calls,
        wall,
        if oth.is_empty() { String::new() } else { format!("; outside this property: {}", oth.join(", ")) }
    );
    if !vline.is_empty() {
        println!("{}", vline);
    }
    std::process::exit(code);
}
