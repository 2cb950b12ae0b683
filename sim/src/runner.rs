//! Campaign runner: seeds, workers, minimisation, replay files, evidence.

use crate::core::{mix, Ctx, Faults, Outcome, Rng, R};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// Work units in the quick tier; the thorough tier runs ten times as many.
    pub units: u64,
    /// Whether every fourth unit enumerates all single-fault positions.
    pub sweep: bool,
    pub run: fn(&Ctx) -> R,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Copy, Debug)]
pub struct Tier {
    pub name: &'static str,
    pub factor: u64,
    pub cap_s: u64,
}

pub const QUICK: Tier = Tier { name: "quick", factor: 1, cap_s: 240 };
pub const THOROUGH: Tier = Tier { name: "thorough", factor: 10, cap_s: 780 };

const SWEEP_MAX: u64 = 400;
const HANG_S: u64 = 120;

pub const EXIT_VIOLATION: i32 = 1;
pub const EXIT_ERROR: i32 = 2;
pub const EXIT_HANG: i32 = 3;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::heap::quiet(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic: {msg} at {loc}")));
        });
    }));
}

pub fn seed_of(seed: u64, id: &str, unit: u64) -> u64 {
    let mut h = seed;
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(unit))
}

/// Run one execution to its end.
pub fn exec(prop: &Prop, ctx: Ctx) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(&ctx)));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f.0),
        Err(_) => Some(panicked()),
    };
    ctx.finish(fail)
}

/// Message of the panic that was just caught.
pub fn panicked() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Class {
    FaultFree,
    Random,
    Sweep,
}

fn class_of(prop: &Prop, unit: u64) -> Class {
    match unit % 4 {
        0 => Class::FaultFree,
        1 if prop.sweep => Class::Sweep,
        _ => Class::Random,
    }
}

#[derive(Default)]
struct Stats {
    runs: [u64; 3],
    ticks: u64,
    fired: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    nontrivial: u64,
    sweeps: u64,
    sweeps_partial: u64,
    max_ticks: u64,
}

impl Stats {
    fn add(&mut self, class: Class, o: &Outcome) {
        self.runs[class as usize] += 1;
        self.ticks += o.ticks;
        self.max_ticks = self.max_ticks.max(o.ticks);
        for (k, v) in &o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        if o.ticks >= 3 {
            self.nontrivial += 1;
            self.distinct.insert(o.hash);
        }
        self.states.extend(o.states.iter().copied());
    }
    fn merge(&mut self, o: Stats) {
        for i in 0..3 {
            self.runs[i] += o.runs[i];
        }
        self.ticks += o.ticks;
        self.max_ticks = self.max_ticks.max(o.max_ticks);
        for (k, v) in o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.states.extend(o.states);
        self.nontrivial += o.nontrivial;
        self.sweeps += o.sweeps;
        self.sweeps_partial += o.sweeps_partial;
    }
}

#[derive(Clone)]
pub struct Failure {
    pub unit: u64,
    pub k: Option<u64>,
    pub msg: String,
    pub tape: Vec<u64>,
}

/// What is being executed right now, for the supervisor.
struct Slot<'a> {
    file: Option<&'a std::fs::File>,
    index: u64,
    started: &'a AtomicU64,
    epoch: Instant,
}

impl Slot<'_> {
    fn enter(&self, unit: u64, k: Option<u64>) {
        self.started
            .store(self.epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        if let Some(f) = self.file {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(unit + 1).to_le_bytes());
            b[8..].copy_from_slice(&k.map(|v| v + 1).unwrap_or(0).to_le_bytes());
            let _ = f.write_all_at(&b, self.index * 16);
        }
    }
    fn leave(&self) {
        self.started.store(0, Ordering::Relaxed);
    }
}

/// Run all executions of one work unit. Returns a digest of their event logs.
fn run_unit(
    prop: &Prop,
    seed: u64,
    unit: u64,
    stats: &mut Stats,
    slot: Option<&Slot>,
) -> Result<u64, Failure> {
    let class = class_of(prop, unit);
    let s = seed_of(seed, prop.id, unit);
    let one = |faults: Faults, k: Option<u64>, stats: &mut Stats| -> Result<Outcome, Failure> {
        if let Some(v) = slot {
            v.enter(unit, k);
        }
        let o = exec(prop, Ctx::from_seed(s, faults, false, None));
        if let Some(v) = slot {
            v.leave();
        }
        stats.add(class, &o);
        match &o.fail {
            None => Ok(o),
            Some(m) => Err(Failure { unit, k, msg: m.clone(), tape: o.tape.clone() }),
        }
    };
    match class {
        Class::FaultFree => one(Faults::Off, None, stats).map(|o| o.hash),
        Class::Random => one(Faults::Random, None, stats).map(|o| o.hash),
        Class::Sweep => {
            let base = one(Faults::At(u64::MAX), None, stats)?;
            let n = base.fault_points;
            let step = n.div_ceil(SWEEP_MAX).max(1);
            stats.sweeps += 1;
            if step > 1 {
                stats.sweeps_partial += 1;
            }
            let mut digest = base.hash;
            let mut k = if step > 1 { s % step } else { 0 };
            while k < n {
                let o = one(Faults::At(k), Some(k), stats)?;
                digest = mix(digest ^ o.hash);
                k += step;
            }
            Ok(digest)
        }
    }
}

pub fn faults_for(prop: &Prop, unit: u64, k: Option<u64>) -> Faults {
    match class_of(prop, unit) {
        Class::FaultFree => Faults::Off,
        Class::Random => Faults::Random,
        Class::Sweep => Faults::At(k.unwrap_or(u64::MAX)),
    }
}

/// Shrink a failing tape. `still_fails` decides; bounded by executions and time.
pub fn shrink(
    mut tape: Vec<u64>,
    mut still_fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    max_execs: u64,
    max_time: Duration,
) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut execs = 0;
    macro_rules! attempt {
        ($cand:expr) => {{
            if execs >= max_execs || start.elapsed() > max_time {
                return (tape, execs);
            }
            execs += 1;
            let cand: Vec<u64> = $cand;
            match still_fails(&cand) {
                // Keep what was really consumed.
                Some(mut used) => {
                    while used.last() == Some(&0) {
                        used.pop();
                    }
                    let better = used.len() < tape.len()
                        || (used.len() == tape.len() && used < tape);
                    if better {
                        tape = used;
                    }
                    better
                }
                None => false,
            }
        }};
    }
    loop {
        let before = tape.clone();
        // Cut the tail.
        let mut n = tape.len() / 2;
        while n > 0 {
            while tape.len() >= n && attempt!(tape[..tape.len() - n].to_vec()) {}
            n /= 2;
        }
        // Delete spans.
        let mut n = (tape.len() / 2).min(256);
        while n > 0 {
            let mut i = 0;
            while i + n <= tape.len() {
                let mut c = tape[..i].to_vec();
                c.extend_from_slice(&tape[i + n..]);
                if !attempt!(c) {
                    i += n.div_ceil(2);
                }
            }
            n /= 2;
        }
        // Zero spans.
        for n in [32usize, 8, 2] {
            let mut i = 0;
            while i + n <= tape.len() {
                if tape[i..i + n].iter().any(|v| *v != 0) {
                    let mut c = tape.clone();
                    c[i..i + n].fill(0);
                    attempt!(c);
                }
                i += n;
            }
        }
        // Lower values.
        let mut i = 0;
        while i < tape.len() {
            for f in 0..4 {
                if i >= tape.len() || tape[i] == 0 {
                    break;
                }
                let v = match f {
                    0 => 0,
                    1 => 1,
                    2 => tape[i] / 2,
                    _ => tape[i] - 1,
                };
                if v < tape[i] {
                    let mut c = tape.clone();
                    c[i] = v;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if tape == before {
            return (tape, execs);
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_map<V: std::fmt::Display>(m: &BTreeMap<&'static str, V>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
    format!("{{{}}}", v.join(","))
}

fn json_list(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|s| json_str(s)).collect();
    format!("[{}]", v.join(","))
}

pub fn write_replay(
    path: &Path,
    prop: &Prop,
    seed: u64,
    f: &Failure,
    tape: &[u64],
    msg: &str,
    trace: &[String],
    note: &str,
) -> std::io::Result<()> {
    let nums: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
    let s = format!(
        "{{\n\"property\":{},\n\"verif_seed\":{seed},\n\"unit\":{},\n\"sweep_position\":{},\n\"failure\":{},\n\"note\":{},\n\"original_choices\":{},\n\"tape\":[{}],\n\"trace\":{}\n}}\n",
        json_str(prop.id),
        f.unit,
        f.k.map(|v| v.to_string()).unwrap_or("null".into()),
        json_str(msg),
        json_str(note),
        f.tape.len(),
        nums.join(","),
        json_list(trace),
    );
    if let Some(d) = path.parent() {
        std::fs::create_dir_all(d)?;
    }
    std::fs::write(path, s)
}

pub fn read_replay(path: &Path) -> Option<(String, Vec<u64>)> {
    let s = std::fs::read_to_string(path).ok()?;
    let i = s.find("\"property\":\"")? + 12;
    let id = s[i..].split('"').next()?.to_string();
    let i = s.find("\n\"tape\":[")? + 9;
    let list = s[i..].split(']').next()?;
    let tape = list
        .split(',')
        .filter(|v| !v.is_empty())
        .map(|v| v.trim().parse().ok())
        .collect::<Option<Vec<u64>>>()?;
    Some((id, tape))
}

pub struct Env {
    pub root: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    pub workers: usize,
}

impl Env {
    pub fn replay_path(&self, prop: &Prop, unit: u64) -> PathBuf {
        self.root
            .join("replays")
            .join(format!("{}-seed{}-unit{unit}.json", prop.id, self.seed))
    }
    pub fn evidence_path(&self, prop: &Prop) -> PathBuf {
        self.root.join("evidence").join(format!("{}.json", prop.id))
    }
    pub fn slots_path(&self, prop: &Prop) -> PathBuf {
        self.root.join("replays").join(format!(".slots-{}", prop.id))
    }
    pub fn pending_path(&self, prop: &Prop) -> PathBuf {
        self.root.join("replays").join(format!(".pending-{}", prop.id))
    }
}

fn write_evidence(
    env: &Env,
    prop: &Prop,
    st: &Stats,
    wall: f64,
    units: u64,
    violations: u64,
    samples: &[String],
    determinism: &str,
    capped: bool,
    extra: &str,
) -> std::io::Result<()> {
    let runs: u64 = st.runs.iter().sum();
    let per_hour = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| s.to_string()).collect();
    let s = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"exploration\",\n\"coverage\":{{\n\
         \"evaluations\":{runs},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n\"samples\":{},\n\
         \"seeds\":{units},\n\"runs_per_hour\":{},\n\"seeds_per_hour\":{},\n\
         \"runs_fault_free\":{},\n\"runs_random_faults\":{},\n\"runs_single_fault_sweep\":{},\n\
         \"sweep_workloads\":{},\n\"sweep_workloads_fully_enumerated\":{},\n\
         \"simulated_time_ticks\":{},\n\"max_ticks_per_run\":{},\n\"faults_fired\":{},\n\"probes\":{},\n\
         \"distinct_abstract_states\":{},\n\"components_real\":{},\n\"components_simulated\":{},\n\
         \"determinism\":{determinism},\n\"time_capped\":{capped}{extra}\n}},\n\"wall_s\":{wall:.2},\n\"assumptions\":{},\n\"violations\":{violations}\n}}\n",
        json_str(prop.id),
        json_str(env.tier.name),
        env.seed,
        st.distinct.len(),
        json_str(prop.rule),
        json_list(samples),
        per_hour(runs),
        per_hour(units),
        st.runs[0],
        st.runs[1],
        st.runs[2],
        st.sweeps,
        st.sweeps - st.sweeps_partial,
        st.ticks,
        st.max_ticks,
        json_map(&st.fired),
        json_map(&st.probes),
        st.states.len(),
        json_str(prop.real),
        json_str(prop.stub),
        json_list(&assumptions),
    );
    let p = env.evidence_path(prop);
    std::fs::create_dir_all(p.parent().unwrap())?;
    let tmp = p.with_extension("tmp");
    std::fs::write(&tmp, s)?;
    std::fs::rename(&tmp, &p)
}

/// The campaign itself, run in the supervised child process.
pub fn campaign(env: &Env, prop: &Prop) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let units = prop.units * env.tier.factor;
    let deadline = start + Duration::from_secs(env.tier.cap_s);
    println!(
        "property={} tier={} seed={} units={units} workers={}",
        prop.id, env.tier.name, env.seed, env.workers
    );

    let _ = std::fs::create_dir_all(env.root.join("replays"));
    let slots = std::fs::File::create(env.slots_path(prop)).ok();
    let _ = std::fs::remove_file(env.pending_path(prop));
    let started: Vec<AtomicU64> = (0..env.workers + 1).map(|_| AtomicU64::new(0)).collect();
    let started: &'static [AtomicU64] = Box::leak(started.into_boxed_slice());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = start.elapsed().as_millis() as u64;
        for s in started {
            let v = s.load(Ordering::Relaxed);
            if v != 0 && now > v + HANG_S * 1000 {
                std::process::exit(EXIT_HANG);
            }
        }
    });

    let next = AtomicU64::new(0);
    let limit = AtomicU64::new(units);
    let capped = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let digests: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let total: Mutex<Stats> = Mutex::new(Stats::default());

    std::thread::scope(|scope| {
        for w in 0..env.workers {
            let (next, limit, capped) = (&next, &limit, &capped);
            let (failures, digests, total, slots) = (&failures, &digests, &total, &slots);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let slot = Slot {
                        file: slots.as_ref(),
                        index: w as u64,
                        started: &started[w],
                        epoch: start,
                    };
                    let mut st = Stats::default();
                    let mut dg = Vec::new();
                    loop {
                        let u = next.fetch_add(1, Ordering::SeqCst);
                        if u >= limit.load(Ordering::SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            capped.store(true, Ordering::SeqCst);
                            break;
                        }
                        match run_unit(prop, env.seed, u, &mut st, Some(&slot)) {
                            Ok(d) => {
                                if u < 256 || u % 61 == 0 {
                                    dg.push((u, d));
                                }
                            }
                            Err(f) => {
                                limit.fetch_min(u, Ordering::SeqCst);
                                failures.lock().unwrap().push(f);
                            }
                        }
                    }
                    digests.lock().unwrap().extend(dg);
                    total.lock().unwrap().merge(st);
                })
                .expect("spawn worker");
        }
    });

    let st = total.into_inner().unwrap();
    let done = next.load(Ordering::SeqCst).min(units);
    let search_wall = start.elapsed().as_secs_f64();
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| (f.unit, f.k));

    let guard = Slot {
        file: None,
        index: 0,
        started: &started[env.workers],
        epoch: start,
    };

    // Samples: the first units with their traces.
    let mut samples = Vec::new();
    if failures.is_empty() {
        for u in [0u64, 1, 2, 3] {
            guard.enter(u, None);
            let o = exec(
                prop,
                Ctx::from_seed(seed_of(env.seed, prop.id, u), faults_for(prop, u, Some(3)), true, None),
            );
            guard.leave();
            let mut s = format!("unit {u} ({:?}): {}; ", class_of(prop, u), o.note);
            for t in o.trace.iter().skip(1).take(24) {
                s.push_str(t);
                s.push_str("; ");
            }
            s.truncate(s.char_indices().map(|v| v.0).take_while(|v| *v < 1500).last().unwrap_or(0));
            samples.push(s);
        }
    }

    if let Some(f) = failures.first() {
        let path = env.replay_path(prop, f.unit);
        // Preserve the unminimised failure first: minimisation may crash.
        let _ = write_replay(&path, prop, env.seed, f, &f.tape, &f.msg, &[], "not minimised");
        let _ = std::fs::write(env.pending_path(prop), path.to_string_lossy().as_bytes());
        println!("failure: unit={} position={:?}: {}", f.unit, f.k, f.msg);
        // Confirm that the tape reproduces it.
        let run_tape = |t: &[u64], trace: bool| {
            guard.enter(f.unit, f.k);
            let o = exec(prop, Ctx::from_tape(t.to_vec(), trace));
            guard.leave();
            o
        };
        let again = run_tape(&f.tape, false);
        let (tape, execs) = if again.fail.is_some() {
            shrink(
                f.tape.clone(),
                |t| {
                    let o = run_tape(t, false);
                    o.fail.is_some().then_some(o.tape)
                },
                20_000,
                Duration::from_secs(20),
            )
        } else {
            (f.tape.clone(), 0)
        };
        let fin = run_tape(&tape, true);
        let msg = fin.fail.clone().unwrap_or(f.msg.clone());
        let note = format!("minimised from {} to {} choices in {execs} executions", f.tape.len(), tape.len());
        let _ = write_replay(&path, prop, env.seed, f, &tape, &msg, &fin.trace, &note);
        let code = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", path.to_str().unwrap(), "--quiet"])
            .stdout(std::process::Stdio::null())
            .status()
            .ok()
            .and_then(|s| s.code());
        let reproduced = code == Some(EXIT_VIOLATION);
        println!("minimised: {msg} ({note}; fresh-process replay reproduced: {reproduced})");
        samples.push(format!("violation: {msg}"));
        let _ = write_evidence(
            env, prop, &st, start.elapsed().as_secs_f64(), done, 1, &samples,
            "null", false, &format!(",\n\"replay\":{}", json_str(&path.to_string_lossy())),
        );
        let _ = std::fs::remove_file(env.pending_path(prop));
        let _ = std::fs::remove_file(env.slots_path(prop));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return EXIT_VIOLATION;
    }

    // Determinism: repeat a sample of units on one thread, in reverse order.
    let digests = digests.into_inner().unwrap();
    let mut scratch = Stats::default();
    let mut compared = 0u64;
    let det_deadline = Instant::now() + Duration::from_secs_f64((search_wall * 0.5).clamp(2.0, 60.0));
    let mut mismatch = None;
    for (u, d) in digests.iter().rev() {
        if Instant::now() > det_deadline {
            break;
        }
        let slot = Slot { file: None, index: 0, started: &started[env.workers], epoch: start };
        match run_unit(prop, env.seed, *u, &mut scratch, Some(&slot)) {
            Ok(v) if v == *d => compared += 1,
            _ => {
                mismatch = Some(*u);
                break;
            }
        }
    }
    // And one unit in a fresh process.
    let fresh = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["digest", prop.id, "2"])
        .env("VERIF_SEED", env.seed.to_string())
        .output()
        .ok()
        .and_then(|o| String::from_utf8(o.stdout).ok())
        .and_then(|s| s.trim().parse::<u64>().ok());
    let fresh_ok = digests.get(&2).is_none() || fresh == digests.get(&2).copied();
    let determinism = format!(
        "{{\"units_repeated_single_threaded_in_reverse\":{compared},\"mismatches\":{},\"fresh_process_digest_equal\":{fresh_ok}}}",
        mismatch.is_some() as u32
    );
    let capped = capped.load(Ordering::SeqCst);
    let wall = start.elapsed().as_secs_f64();
    let extra = format!(",\n\"search_wall_s\":{search_wall:.2}");
    if let Err(e) = write_evidence(env, prop, &st, wall, done, 0, &samples, &determinism, capped, &extra) {
        eprintln!("cannot write evidence: {e}");
        return EXIT_ERROR;
    }
    let _ = std::fs::remove_file(env.slots_path(prop));
    println!(
        "runs={} (fault-free {}, random {}, sweep {}) distinct={} states={} ticks={} faults={} wall={wall:.1}s capped={capped}",
        st.runs.iter().sum::<u64>(), st.runs[0], st.runs[1], st.runs[2], st.distinct.len(), st.states.len(), st.ticks,
        json_map(&st.fired)
    );
    println!("probes={}", json_map(&st.probes));
    if let Some(u) = mismatch {
        eprintln!("determinism check failed on unit {u}");
        return EXIT_ERROR;
    }
    if !fresh_ok {
        eprintln!("determinism check failed across processes");
        return EXIT_ERROR;
    }
    println!("HELD property={}", prop.id);
    0
}

/// Digest of one unit (used to compare across processes).
pub fn digest(prop: &Prop, seed: u64, unit: u64) -> i32 {
    install_panic_hook();
    match run_unit(prop, seed, unit, &mut Stats::default(), None) {
        Ok(d) => {
            println!("{d}");
            0
        }
        Err(f) => {
            println!("failed: {}", f.msg);
            EXIT_VIOLATION
        }
    }
}

pub fn replay(prop: &Prop, tape: Vec<u64>, quiet: bool) -> i32 {
    install_panic_hook();
    let o = exec(prop, Ctx::from_tape(tape, !quiet));
    if !quiet {
        for t in &o.trace {
            println!("{t}");
        }
    }
    match o.fail {
        Some(m) => {
            println!("reproduced property={}: {m}", prop.id);
            EXIT_VIOLATION
        }
        None => {
            println!("no failure on this tape");
            0
        }
    }
}

/// Run one unit/position, spilling its choices to a file while running.
pub fn one(prop: &Prop, seed: u64, unit: u64, k: Option<u64>, spill: &Path) -> i32 {
    install_panic_hook();
    let f = std::fs::File::create(spill).ok();
    let o = exec(
        prop,
        Ctx::from_seed(seed_of(seed, prop.id, unit), faults_for(prop, unit, k), false, f),
    );
    if o.fail.is_some() { EXIT_VIOLATION } else { 0 }
}

enum End {
    Clean,
    Failed,
    Crashed(String),
    Hung,
}

fn run_sub(args: &[&str], timeout: Duration) -> End {
    let Ok(mut c) = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
    else {
        return End::Clean;
    };
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(0) => End::Clean,
                    Some(_) => End::Failed,
                    None => End::Crashed(format!("{s}")),
                };
            }
            _ => {}
        }
        if start.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hung;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Supervise the campaign process: turn crashes and hangs into replayable
/// violations.
pub fn supervise(env: &Env, prop: &Prop) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let status = match std::process::Command::new(&exe).args(["campaign", prop.id]).status() {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return EXIT_ERROR;
        }
    };
    match status.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(EXIT_HANG) | None => {}
        Some(v) => return v,
    }
    let how = if status.code() == Some(EXIT_HANG) {
        "an execution did not finish".to_string()
    } else {
        format!("the process died ({status})")
    };
    println!("supervisor: {how}");
    let wall = Instant::now();

    // The failure may already be on record (minimisation crashed).
    if let Ok(p) = std::fs::read_to_string(env.pending_path(prop)) {
        let _ = std::fs::remove_file(env.pending_path(prop));
        if Path::new(&p).exists() {
            let _ = write_evidence(env, prop, &Stats::default(), 0.0, 0, 1, &[how], "null", false, "");
            println!("VIOLATION property={} replay={p}", prop.id);
            return EXIT_VIOLATION;
        }
    }

    let slots = std::fs::read(env.slots_path(prop)).unwrap_or_default();
    let mut cands: Vec<(u64, Option<u64>)> = slots
        .chunks_exact(16)
        .map(|c| {
            (
                u64::from_le_bytes(c[..8].try_into().unwrap()),
                u64::from_le_bytes(c[8..].try_into().unwrap()),
            )
        })
        .filter(|v| v.0 != 0)
        .map(|(u, k)| (u - 1, (k != 0).then(|| k - 1)))
        .collect();
    cands.sort();
    let spill = env.root.join("replays").join(format!(".spill-{}", prop.id));
    for (u, k) in cands {
        let ks = k.map(|v| v.to_string()).unwrap_or("-".into());
        let us = u.to_string();
        let end = run_sub(
            &["one", prop.id, &us, &ks, spill.to_str().unwrap()],
            Duration::from_secs(HANG_S),
        );
        let what = match end {
            End::Clean => continue,
            End::Failed => "failed".to_string(),
            End::Crashed(s) => format!("crashed: {s}"),
            End::Hung => "did not finish".to_string(),
        };
        let raw = std::fs::read(&spill).unwrap_or_default();
        let tape: Vec<u64> = raw
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .collect();
        let f = Failure { unit: u, k, msg: what.clone(), tape: tape.clone() };
        let path = env.replay_path(prop, u);
        let cand = env.root.join("replays").join(format!(".cand-{}.json", prop.id));
        let hung = what == "did not finish";
        let (small, execs) = shrink(
            tape.clone(),
            |t| {
                write_replay(&cand, prop, env.seed, &f, t, &what, &[], "").ok()?;
                match run_sub(&["replay", cand.to_str().unwrap(), "--quiet"], Duration::from_secs(if hung { 2 } else { 10 })) {
                    End::Clean => None,
                    _ => Some(t.to_vec()),
                }
            },
            2_000,
            Duration::from_secs(60),
        );
        let _ = std::fs::remove_file(&cand);
        let _ = std::fs::remove_file(&spill);
        let _ = std::fs::remove_file(env.slots_path(prop));
        let note = format!("minimised from {} to {} choices in {execs} executions", tape.len(), small.len());
        let _ = write_replay(&path, prop, env.seed, &f, &small, &what, &[], &note);
        let _ = write_evidence(
            env, prop, &Stats::default(), wall.elapsed().as_secs_f64(), 0, 1,
            &[format!("unit {u} {what}")], "null", false, "",
        );
        println!("minimised: {what} ({note})");
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return EXIT_VIOLATION;
    }
    let _ = std::fs::remove_file(&spill);
    eprintln!("supervisor: could not reproduce: {how}");
    EXIT_ERROR
}

/// Deterministic helper for tests of the machinery itself.
#[allow(dead_code)]
pub fn rng(seed: u64) -> Rng {
    Rng::new(seed)
}
