#[macro_use]
mod engine;
mod clockshim;
mod callstate;
mod cpustep;
mod ctstep;
mod guard;
mod props;
mod refs;
mod rngshim;
mod watch;

use engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: watch::Watch = watch::Watch;

/// (name, denied cpu features)
const CFGS: &[(&str, &[&str])] = &[
    ("host", &[]),
    ("no-sha", &["sha"]),
    ("no-bmi2", &["bmi2"]),
    ("no-avx512", &["avx512f", "avx512bw", "avx512vl"]),
    (
        "min",
        &["sha", "bmi2", "avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq"],
    ),
    ("no-vaes", &["vaes", "vpclmulqdq"]),
    ("no-sha-bmi2", &["sha", "bmi2"]),
    ("no-sha-avx512", &["sha", "avx512bw"]),
    ("no-bmi2-avx512", &["bmi2", "avx512vl"]),
];
const QUICK_CFGS: usize = 5;
/// for C35: the library compiled in other ways, on the CPU as it is
const BUILDS: &[&str] = &["host", "plain", "release", "size"];

fn cfgs_of(prop: &str, tier: &str) -> Vec<&'static str> {
    match prop {
        "C35" => BUILDS.to_vec(),
        _ => CFGS.iter().map(|c| c.0).take(if tier == "thorough" { CFGS.len() } else { QUICK_CFGS }).collect(),
    }
}
/// the program that runs the cases of a configuration
fn program(cfg: &str) -> std::path::PathBuf {
    if cfg != "host" && BUILDS.contains(&cfg) {
        return format!("{}/target/variants/{cfg}", verif_dir()).into();
    }
    std::env::current_exe().unwrap()
}
const ALL_FEATURES: &[&str] = &["sha", "bmi2", "avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq"];

fn apply_cfg(c: &mut Command, cfg: &str) {
    for f in ALL_FEATURES {
        c.env_remove(format!("GRAVIOLA_CPU_DISABLE_{f}"));
    }
    if let Some((_, fs)) = CFGS.iter().find(|x| x.0 == cfg) {
        for f in *fs {
            c.env(format!("GRAVIOLA_CPU_DISABLE_{f}"), "1");
        }
    }
}

struct Progress {
    p: *mut u64,
}
impl Progress {
    fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len(64).unwrap();
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                64,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Progress { p: p as *mut u64 }
        }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.p.add(i), v) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.p.add(i)) }
    }
}

/// CPU seconds a case gets when run alone before it counts as a hang
fn cpu_limit(prop: &str, sub: &str) -> u64 {
    match sub {
        "huge" => 500,
        _ if prop == "C30" => 600,
        _ => 120,
    }
}

fn scale() -> f64 {
    std::env::var("GV_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0)
}
fn cases(s: &Sub, tier: &str) -> u64 {
    let n = if tier == "thorough" { s.thorough } else { s.quick };
    ((n as f64 * scale()) as u64).max(1)
}

// ---------------------------------------------------------------- worker

struct WorkerArgs {
    prop: String,
    cfg: String,
    shard: u64,
    nshards: u64,
    tier: String,
    seed: u64,
    dir: String,
    start_sub: usize,
    start_idx: u64,
    only: Option<String>,
    deadline: u64,
}

fn worker(a: WorkerArgs) {
    let p = props::get(&a.prop);
    let prog = Progress::open(&format!("{}/prog-{}-{}", a.dir, a.cfg, a.shard));
    set_beat(unsafe { prog.p.add(2) });
    let known = load_known();
    let t0 = Instant::now();
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<Value> = Vec::new();
    let mut outs = String::new();
    let mut cut = false;
    let mut times: BTreeMap<String, f64> = BTreeMap::new();
    // where the next sub-check starts, so that the first shards do not get the first case of each
    let mut turn = 0;
    for (si, s) in p.subs.iter().enumerate() {
        let shift = turn;
        turn += cases(s, &a.tier);
        if si < a.start_sub {
            continue;
        }
        if let Some(o) = &a.only {
            if o != s.name {
                continue;
            }
        }
        if a.cfg != "host" && s.cfgs == Cfgs::One {
            continue;
        }
        let n = cases(s, &a.tier);
        let ts = Instant::now();
        let mut idx = if si == a.start_sub && a.start_idx > 0 {
            a.start_idx
        } else {
            (a.shard + a.nshards - shift % a.nshards) % a.nshards
        };
        let mut nsamples = 0;
        while idx < n {
            if t0.elapsed().as_secs() > a.deadline {
                cut = true;
                break;
            }
            prog.set(0, si as u64);
            prog.set(1, idx);
            prog.set(2, prog.get(2) + 1);
            let mut src = Src::random(case_seed(a.seed, p.id, s.name, idx), idx);
            let r = run_case(s.f, &mut src);
            *evals.entry(s.name.to_string()).or_default() += 1;
            for l in &src.labels {
                *labels.entry(format!("{}:{}", s.name, l)).or_default() += 1;
            }
            if src.nontrivial {
                hashes.insert(fnv(&[s.name.as_bytes(), &src.rec]));
                if nsamples < 1 && !src.note.is_empty() {
                    nsamples += 1;
                    samples.push(json!({"sub": s.name, "case": idx, "cfg": a.cfg, "what": src.note}));
                }
            }
            if s.cross {
                outs.push_str(&format!("{} {} {:016x}\n", si, idx, src.out));
            }
            if let Err(f) = r {
                if known.iter().any(|k| k.0 == p.id && k.1 == f.key) {
                    *knownhits.entry(f.key.clone()).or_default() += 1;
                } else {
                    let rec = json!({"property": p.id, "sub": s.name, "cfg": a.cfg, "idx": idx, "key": f.key,
                        "msg": f.msg, "bytes": hex(&src.rec), "kind": "fail"});
                    let fp = format!("{}/fail-{}-{}.json", a.dir, a.cfg, a.shard);
                    std::fs::write(&fp, rec.to_string()).unwrap();
                    prog.set(3, 1);
                    let key = f.key.clone();
                    let small = shrink(
                        src.rec.clone(),
                        |c| {
                            prog.set(2, prog.get(2) + 1);
                            let mut s2 = Src::replay(c.to_vec(), idx);
                            matches!(run_case(s.f, &mut s2), Err(f2) if f2.key == key)
                        },
                        3000,
                        15,
                    );
                    let mut s2 = Src::replay(small.clone(), idx);
                    let msg = match run_case(s.f, &mut s2) {
                        Err(f2) => f2.msg,
                        Ok(()) => f.msg.clone(),
                    };
                    prog.set(3, 0);
                    let rec = json!({"property": p.id, "sub": s.name, "cfg": a.cfg, "idx": idx, "key": f.key,
                        "msg": msg, "bytes": hex(&small), "kind": "fail", "note": s2.note});
                    std::fs::write(&fp, rec.to_string()).unwrap();
                    failures.push(rec);
                    break;
                }
            }
            idx += a.nshards;
        }
        *times.entry(s.name.to_string()).or_default() += ts.elapsed().as_secs_f64();
        if cut {
            break;
        }
    }
    std::fs::write(format!("{}/outs-{}-{}-{}-{}", a.dir, a.cfg, a.shard, a.start_sub, a.start_idx), outs).unwrap();
    let hs: Vec<String> = hashes.iter().map(|h| format!("{h:x}")).collect();
    let res = json!({"evals": evals, "labels": labels, "hashes": hs, "samples": samples, "known": knownhits,
        "failures": failures, "cut": cut, "times": times});
    std::fs::write(
        format!("{}/res-{}-{}-{}-{}.json", a.dir, a.cfg, a.shard, a.start_sub, a.start_idx),
        res.to_string(),
    )
    .unwrap();
}

// ---------------------------------------------------------------- single case in isolation

/// exit code 0: passed, 10: failed (message printed), other: crash
fn one(prop: &str, sub: &str, idx: u64, bytes: Option<Vec<u8>>, seed: u64) -> i32 {
    let p = props::get(prop);
    let s = p.subs.iter().find(|s| s.name == sub).expect("sub-check");
    let mut src = match bytes {
        Some(b) => Src::replay(b, idx),
        None => Src::random(case_seed(seed, p.id, s.name, idx), idx),
    };
    let r = run_case(s.f, &mut src);
    println!("OUT {:016x}", src.out);
    println!("BYTES {}", hex(&src.rec));
    if !src.note.is_empty() {
        println!("NOTE {}", src.note);
    }
    match r {
        Ok(()) => 0,
        Err(f) => {
            println!("FAIL [{}] {}", f.key, f.msg);
            10
        }
    }
}

struct OneResult {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
}

fn spawn_one(prop: &str, sub: &str, cfg: &str, idx: u64, bytes: Option<&str>, seed: u64, cpu: u64) -> OneResult {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(program(cfg));
    c.args(["one", prop, sub, &idx.to_string(), bytes.unwrap_or("-"), &seed.to_string()]);
    apply_cfg(&mut c, cfg);
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit {
                rlim_cur: cpu,
                rlim_max: cpu + 5,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let o = c.stderr(Stdio::null()).stdin(Stdio::null()).output().unwrap();
    OneResult {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout)
            .lines()
            .filter(|l| !l.starts_with("DEBUG:"))
            .collect::<Vec<_>>()
            .join("\n"),
    }
}

// ---------------------------------------------------------------- known findings

fn verif_dir() -> String {
    std::env::var("GV_DIR").unwrap_or_else(|_| "/verif".into())
}
/// (property, key, what)
fn load_known() -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.jsonl", verif_dir())) {
        for l in t.lines() {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                if j["status"] == "known" {
                    v.push((
                        j["property"].as_str().unwrap_or("").into(),
                        j["key"].as_str().unwrap_or("").into(),
                        j["what"].as_str().unwrap_or("").into(),
                    ));
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- parent

struct Job {
    cfg: String,
    shard: u64,
    start_sub: usize,
    start_idx: u64,
}
struct Running {
    job: Job,
    child: Child,
    prog: Progress,
    last: u64,
    last_t: Instant,
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let p = props::get(prop);
    let only = std::env::var("GV_ONLY").ok();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16) as u64;
    // the shard count is fixed so that a run is a function of the seed alone
    let nshards = 16u64;
    let dir = format!("{}/work/{}-{}", verif_dir(), prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let deadline: u64 = std::env::var("GV_DEADLINE")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if tier == "thorough" { 3 * 3600 } else { 420 });
    let cfgs = cfgs_of(prop, tier);
    let mut jobs: Vec<Job> = Vec::new();
    for (i, c) in cfgs.iter().enumerate() {
        if i > 0 && !p.subs.iter().any(|s| s.cfgs == Cfgs::All) {
            continue;
        }
        for sh in 0..nshards {
            jobs.push(Job {
                cfg: c.to_string(),
                shard: sh,
                start_sub: 0,
                start_idx: 0,
            });
        }
    }
    jobs.reverse();
    let cfgs_used: Vec<String> = cfgs
        .iter()
        .map(|c| c.to_string())
        .filter(|c| jobs.iter().any(|j| &j.cfg == c))
        .collect();
    let mut running: Vec<Running> = Vec::new();
    let mut violations: Vec<Value> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let stall = Duration::from_secs(if tier == "thorough" { 300 } else { 100 });
    while !jobs.is_empty() || !running.is_empty() {
        while running.len() < ncpu as usize && !jobs.is_empty() {
            let job = jobs.pop().unwrap();
            let left = deadline.saturating_sub(t0.elapsed().as_secs());
            let mut c = Command::new(program(&job.cfg));
            c.args([
                "worker",
                prop,
                &job.cfg,
                &job.shard.to_string(),
                &nshards.to_string(),
                tier,
                &seed.to_string(),
                &dir,
                &job.start_sub.to_string(),
                &job.start_idx.to_string(),
                only.as_deref().unwrap_or("-"),
                &left.to_string(),
            ]);
            apply_cfg(&mut c, &job.cfg);
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(|| {
                    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &z);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let errf = std::fs::File::create(format!("{}/err-{}-{}", dir, job.cfg, job.shard)).unwrap();
            let prog = Progress::open(&format!("{}/prog-{}-{}", dir, job.cfg, job.shard));
            for i in 0..4 {
                prog.set(i, 0);
            }
            let child = c.stdout(Stdio::null()).stdin(Stdio::null()).stderr(errf).spawn().unwrap();
            running.push(Running {
                job,
                child,
                prog,
                last: 0,
                last_t: Instant::now(),
            });
        }
        let mut i = 0;
        while i < running.len() {
            let st = running[i].child.try_wait().unwrap();
            let mut hang = false;
            if st.is_none() {
                let now = running[i].prog.get(2);
                if now != running[i].last {
                    running[i].last = now;
                    running[i].last_t = Instant::now();
                } else if running[i].last_t.elapsed() > stall {
                    hang = true;
                    let _ = running[i].child.kill();
                    let _ = running[i].child.wait();
                }
                if !hang {
                    i += 1;
                    continue;
                }
            }
            let r = running.remove(i);
            if let Some(st) = st {
                if st.success() {
                    continue;
                }
                if st.signal() == Some(libc::SIGKILL) {
                    errors.push(format!("worker {}/{} was killed", r.job.cfg, r.job.shard));
                    continue;
                }
            }
            // crashed or hung on a specific case
            let fp = format!("{}/fail-{}-{}.json", dir, r.job.cfg, r.job.shard);
            if r.prog.get(3) == 1 {
                // while shrinking an already established failure
                if let Ok(t) = std::fs::read_to_string(&fp) {
                    violations.push(serde_json::from_str(&t).unwrap());
                    continue;
                }
            }
            let si = r.prog.get(0) as usize;
            let idx = r.prog.get(1);
            if r.prog.get(2) == 0 {
                let e = std::fs::read_to_string(format!("{}/err-{}-{}", dir, r.job.cfg, r.job.shard)).unwrap_or_default();
                errors.push(format!("worker {}/{} died before its first case ({:?}): {}", r.job.cfg, r.job.shard, st, e));
                continue;
            }
            let sub = p.subs[si].name;
            let conf = spawn_one(prop, sub, &r.job.cfg, idx, None, seed, cpu_limit(prop, sub));
            let timed_out = conf.signal == Some(libc::SIGXCPU) || conf.signal == Some(libc::SIGKILL);
            if hang && !timed_out && conf.code == Some(0) {
                // slow machine: the case passes on its own; carry on after it
                let nx = idx + nshards;
                jobs.push(Job {
                    start_sub: si,
                    start_idx: nx,
                    ..r.job
                });
                continue;
            }
            if conf.signal == Some(libc::SIGKILL) && !hang {
                errors.push(format!("case {sub}#{idx} was killed in isolation"));
                continue;
            }
            let (key, msg) = if timed_out {
                ("hang".to_string(), format!("case {sub}#{idx} does not finish within {} s of CPU time", cpu_limit(prop, sub)))
            } else {
                (
                    "crash".to_string(),
                    format!(
                        "process died in case {sub}#{idx}: worker {:?}, isolated run signal {:?} code {:?} {}",
                        st, conf.signal, conf.code, conf.out
                    ),
                )
            };
            // obtain the choice bytes by regenerating: the shrinker works by re-execution
            let bytes = regen_bytes(prop, sub, idx, seed);
            let mut small = bytes.clone();
            if !timed_out && conf.signal.is_some() {
                small = shrink(
                    bytes,
                    |c| {
                        let h = hex(c);
                        let o = spawn_one(prop, sub, &r.job.cfg, idx, Some(if h.is_empty() { "00" } else { &h }), seed, cpu_limit(prop, sub));
                        o.signal.is_some() && o.signal == conf.signal
                    },
                    400,
                    60,
                );
            }
            violations.push(json!({"property": prop, "sub": sub, "cfg": r.job.cfg, "idx": idx, "key": key,
                "msg": msg, "bytes": hex(&small), "kind": key, "seed": seed}));
        }
        if violations.len() >= 4 {
            for r in &mut running {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            // workers finished so far have left their results
            running.clear();
            jobs.clear();
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // merge
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut times: BTreeMap<String, f64> = BTreeMap::new();
    let mut hashes: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
    let mut cut = false;
    let mut names: Vec<_> = std::fs::read_dir(&dir)
        .unwrap()
        .map(|e| e.unwrap().file_name().into_string().unwrap())
        .collect();
    names.sort();
    for n in names.iter().filter(|n| n.starts_with("res-")) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/{n}")).unwrap()).unwrap();
        let add = |m: &mut BTreeMap<String, u64>, k: &str| {
            for (a, b) in v[k].as_object().unwrap() {
                *m.entry(a.clone()).or_default() += b.as_u64().unwrap();
            }
        };
        add(&mut evals, "evals");
        add(&mut labels, "labels");
        add(&mut knownhits, "known");
        for (a, b) in v["times"].as_object().unwrap() {
            *times.entry(a.clone()).or_default() += b.as_f64().unwrap();
        }
        for h in v["hashes"].as_array().unwrap() {
            hashes.insert(h.as_str().unwrap().to_string());
        }
        for s in v["samples"].as_array().unwrap() {
            if samples.iter().filter(|x: &&Value| x["sub"] == s["sub"]).count() < 2 {
                samples.push(s.clone());
            }
        }
        for f in v["failures"].as_array().unwrap() {
            violations.push(f.clone());
        }
        cut |= v["cut"].as_bool().unwrap();
    }
    // cross-configuration comparison
    let mut compared = 0u64;
    if p.subs.iter().any(|s| s.cross) {
        let mut host: BTreeMap<(usize, u64), String> = BTreeMap::new();
        for pass in 0..2 {
            for n in names.iter().filter(|n| n.starts_with("outs-")) {
                let ishost = n.starts_with("outs-host-");
                if (pass == 0) != ishost {
                    continue;
                }
                let cfg = cfgs_used
                    .iter()
                    .filter(|c| n[5..].starts_with(&format!("{c}-")))
                    .max_by_key(|c| c.len())
                    .unwrap();
                for l in std::fs::read_to_string(format!("{dir}/{n}")).unwrap().lines() {
                    let f: Vec<&str> = l.split(' ').collect();
                    let k = (f[0].parse::<usize>().unwrap(), f[1].parse::<u64>().unwrap());
                    if ishost {
                        host.insert(k, f[2].to_string());
                    } else if let Some(h) = host.get(&k) {
                        compared += 1;
                        if h != f[2] {
                            let sub = p.subs[k.0].name;
                            let bytes = regen_bytes(prop, sub, k.1, seed);
                            let small = shrink(
                                bytes,
                                |c| {
                                    let hx = hex(c);
                                    let b = if hx.is_empty() { "00".to_string() } else { hx };
                                    let x = spawn_one(prop, sub, "host", k.1, Some(&b), seed, cpu_limit(prop, sub));
                                    let y = spawn_one(prop, sub, cfg, k.1, Some(&b), seed, cpu_limit(prop, sub));
                                    x.code == Some(0) && y.code == Some(0) && x.out.lines().next() != y.out.lines().next()
                                },
                                if violations.is_empty() { 150 } else { 0 },
                                30,
                            );
                            violations.push(json!({"property": prop, "sub": sub, "cfg": cfg, "idx": k.1,
                                "key": "cross-config", "msg": format!("outputs differ between configurations host and {cfg}"),
                                "bytes": hex(&small), "kind": "cross"}));
                            if violations.len() > 4 {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    let total: u64 = evals.values().sum();
    let known = load_known();
    for (k, n) in &knownhits {
        let what = known
            .iter()
            .find(|x| x.0 == prop && &x.1 == k)
            .map(|x| x.2.clone())
            .unwrap_or_default();
        println!("KNOWN-FINDING: property={prop} {what} (key {k}, {n} cases)");
    }
    violations.sort_by_key(|v| (v["sub"].as_str().unwrap().to_string(), v["idx"].as_u64().unwrap()));
    let mut replay_paths = Vec::new();
    if !violations.is_empty() {
        let rd = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&rd).unwrap();
        let mut seen = HashSet::new();
        for v in &violations {
            let id = format!("{}-{}", v["sub"].as_str().unwrap(), v["key"].as_str().unwrap());
            if !seen.insert(id) {
                continue;
            }
            let path = format!(
                "{}/{}-{}-{:x}.json",
                rd,
                prop,
                v["sub"].as_str().unwrap(),
                fnv(&[v.to_string().as_bytes()])
            );
            std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
            println!(
                "VIOLATION property={} replay={}",
                prop, path
            );
            println!(
                "  sub-check {} [{}] cfg {}: {}",
                v["sub"].as_str().unwrap(),
                v["key"].as_str().unwrap(),
                v["cfg"].as_str().unwrap(),
                v["msg"].as_str().unwrap().chars().take(700).collect::<String>()
            );
            replay_paths.push(path);
            if replay_paths.len() >= 4 {
                break;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "evaluations_by_subcheck": evals,
            "case_classes": labels,
            "cpu_configurations": cfgs_used,
            "cross_configuration_comparisons": compared,
            "cpu_seconds_by_subcheck": times,
            "cut_short_by_time_limit": cut,
            "known_finding_cases": knownhits,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations.len(),
    });
    std::fs::create_dir_all(format!("{}/evidence", verif_dir())).unwrap();
    std::fs::write(
        format!("{}/evidence/{}.json", verif_dir(), prop),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    for e in &errors {
        eprintln!("ERROR {e}");
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{prop} {tier} seed={seed}: {total} cases, {} distinct non-trivial, {} violations, {:.1}s{}",
        hashes.len(),
        violations.len(),
        wall,
        if cut { " (cut short by time limit)" } else { "" }
    );
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

/// choice bytes of a generated case that cannot be run in this process: replays of a random
/// stream are equivalent to a long enough prefix of it
fn regen_bytes(prop: &str, sub: &str, idx: u64, seed: u64) -> Vec<u8> {
    // run the case in a child that records its draws to a file as it goes
    let _ = (prop, sub);
    let path = format!("{}/work/rec-{}", verif_dir(), std::process::id());
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["record", prop, sub, &idx.to_string(), &path, &seed.to_string()]);
    apply_cfg(&mut c, "host");
    let mut ch = c.stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if ch.try_wait().unwrap().is_some() {
            break;
        }
        if t.elapsed().as_secs() > 20 {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let v = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    v
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let prop = v["property"].as_str().unwrap();
    let sub = v["sub"].as_str().unwrap();
    let cfg = v["cfg"].as_str().unwrap();
    let idx = v["idx"].as_u64().unwrap();
    let bytes = v["bytes"].as_str().unwrap();
    let b = if bytes.is_empty() { "00" } else { bytes };
    let o = spawn_one(prop, sub, cfg, idx, Some(b), 1, 120);
    println!("{}", o.out);
    if v["kind"] == "cross" {
        let h = spawn_one(prop, sub, "host", idx, Some(b), 1, 120);
        println!("{}", h.out);
        let same = h.out.lines().next() == o.out.lines().next();
        println!("{}", if same { "same output: not reproduced" } else { "REPRODUCED: outputs differ" });
        return if same { 0 } else { 1 };
    }
    match (o.code, o.signal) {
        (Some(0), _) => {
            println!("not reproduced");
            0
        }
        x => {
            println!("REPRODUCED {x:?}");
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            install_panic_hook();
            worker(WorkerArgs {
                prop: a[2].clone(),
                cfg: a[3].clone(),
                shard: a[4].parse().unwrap(),
                nshards: a[5].parse().unwrap(),
                tier: a[6].clone(),
                seed: a[7].parse().unwrap(),
                dir: a[8].clone(),
                start_sub: a[9].parse().unwrap(),
                start_idx: a[10].parse().unwrap(),
                only: if a[11] == "-" { None } else { Some(a[11].clone()) },
                deadline: a[12].parse().unwrap(),
            });
        }
        Some("one") => {
            install_panic_hook();
            let bytes = if a[5] == "-" { None } else { Some(unhex(&a[5])) };
            std::process::exit(one(&a[2], &a[3], a[4].parse().unwrap(), bytes, a[6].parse().unwrap()));
        }
        Some("record") => {
            install_panic_hook();
            engine::record_to(&a[5]);
            one(&a[2], &a[3], a[4].parse().unwrap(), None, a[6].parse().unwrap());
        }
        Some("first") => std::process::exit(props::c28::child(unhex(&a[2]))),
        Some("cpu") => std::process::exit(props::c32::child(&a[2..])),
        Some("history") => std::process::exit(props::c34::child()),
        Some("check") => std::process::exit(check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        Some("replay") => std::process::exit(replay(&a[2])),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: gvcheck check ID [quick|thorough] | replay FILE | list");
            std::process::exit(2);
        }
    }
}
