//! Runs many simulations in forked workers, finds the violating run with the lowest number, minimises it, and
//! writes the replay file and the evidence.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::props::{Prop, Viol, cli};
use crate::rng::{FNV0, fnv_bytes, mix};
use crate::tape::Tape;
use crate::world::*;

/// CPU seconds one run may take: ordinary ones take milliseconds
const RUN_CPU_S: i64 = 30;
/// wall seconds without any progress of a worker before it counts as stuck
const STUCK_S: u64 = 90;
/// seconds for which a process that simulates inside itself sleeps without using the processor before it counts as
/// stuck (it waits for something that nobody in its process will do: a deadlock)
const IDLE_S: u64 = 8;
const MEM: u64 = 6 << 30;

pub struct Dirs {
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub tool: PathBuf,
    pub shim: PathBuf,
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    pub hash: u64,
    pub nev: u64,
    pub counts: [u64; FAULTS.len()],
    pub probes: BTreeMap<&'static str, u64>,
    pub clock: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub wl: Vec<u64>,
    pub ft: Vec<u64>,
    pub notes: Vec<String>,
    pub text: Vec<String>,
    pub known: BTreeSet<&'static str>,
}

/// identifiers of the findings listed for each property
pub type Known = BTreeMap<String, BTreeMap<String, String>>;

pub fn known_findings(d: &Dirs) -> Known {
    let mut k: Known = BTreeMap::new();
    let text = std::fs::read_to_string(d.verif.join("known-findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (p, id, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        let id = id.strip_prefix("id=").expect("known-findings.txt: id=");
        k.entry(p.to_string()).or_default().insert(id.to_string(), what.to_string());
    }
    k
}

pub fn execute(p: &Prop, wl: Tape, ft: Tape, verbose: bool, known: &Known) -> Outcome {
    let w = World::new(wl, ft, verbose);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&w)));
    let mut harness = None;
    let mut viol = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(payload) => {
            if payload.is::<Livelock>() {
                Some(Viol {
                    class: "no end in sight".into(),
                    detail: "more steps are taken than the bound for this input".into(),
                })
            } else {
                let (m, l) = take_panic();
                if harness_location(&l) {
                    harness = Some(format!("harness panic: {m} at {l}"));
                    None
                } else {
                    Some(Viol { class: "panic".into(), detail: format!("panic: {m} at {l}") })
                }
            }
        }
    };
    let met = w.known.borrow().clone();
    if viol.is_none() {
        for id in &met {
            if !known.get(p.id).is_some_and(|k| k.contains_key(*id)) {
                viol = Some(Viol { class: format!("finding {id}"), detail: format!("{id} is not listed as a known finding") });
            }
        }
    }
    if let Some(v) = &viol {
        w.ev("violation", fnv_bytes(FNV0, v.class.as_bytes()), fnv_bytes(FNV0, v.detail.as_bytes()));
    }
    let wl = w.wl.borrow().used();
    let ft = w.ft.borrow().used();
    let counts = *w.counts.borrow();
    let probes = w.probes.borrow().clone();
    let notes = w.notes.borrow().clone();
    Outcome {
        viol,
        harness,
        hash: w.hash(),
        nev: w.nev.get(),
        counts,
        probes,
        clock: w.clock.get(),
        steps: w.steps(),
        nontrivial: w.nontrivial(),
        wl,
        ft,
        notes,
        text: w.text(),
        known: met,
    }
}

pub fn tapes(p: &Prop, seed: u64, run: u64) -> (Tape, Tape) {
    let base = mix(mix(seed ^ 0x5245_5a49_5021) ^ fnv_bytes(FNV0, p.id.as_bytes())) ^ mix(run);
    (Tape::fresh(mix(base ^ 1)), Tape::fresh(mix(base ^ 2)))
}

// ----------------------------------------------------------------------------------- processes

#[repr(C)]
struct Slot {
    /// run number + 1 that is being executed, 0 if none
    current: AtomicU64,
    done: AtomicU64,
    finished: AtomicU64,
}

struct SharedMem {
    base: *mut u8,
}

impl SharedMem {
    fn new(workers: usize) -> SharedMem {
        let len = 4096 + workers * std::mem::size_of::<Slot>();
        let m = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(m != libc::MAP_FAILED);
        SharedMem { base: m as *mut u8 }
    }
    /// lowest violating run number so far
    fn stop(&self) -> &AtomicU64 {
        unsafe { &*(self.base as *const AtomicU64) }
    }
    fn slot(&self, i: usize) -> &Slot {
        unsafe { &*(self.base.add(4096 + i * std::mem::size_of::<Slot>()) as *const Slot) }
    }
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: MEM, rlim_max: MEM };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// CPU budget of the run that starts now; the default action of the signal ends the process.
fn arm() {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: RUN_CPU_S, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

fn fork() -> i32 {
    let _ = std::io::stdout().flush();
    let r = unsafe { libc::fork() };
    assert!(r >= 0, "fork failed");
    r
}

/// Processor ticks used by a child of ours, if it is asleep.
fn asleep(pid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_ascii_whitespace().collect();
    if f.first() != Some(&"S") {
        return None;
    }
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Notices that a process sleeps for good.
struct Watch {
    looked: Instant,
    since: Option<(u64, Instant)>,
}

impl Watch {
    fn new() -> Watch {
        Watch { looked: Instant::now(), since: None }
    }

    fn idle(&mut self, pid: i32) -> bool {
        if self.looked.elapsed() < Duration::from_millis(250) {
            return false;
        }
        self.looked = Instant::now();
        match (asleep(pid), self.since) {
            (Some(t), Some((t0, at))) if t == t0 => at.elapsed() > Duration::from_secs(IDLE_S),
            (Some(t), _) => {
                self.since = Some((t, Instant::now()));
                false
            }
            (None, _) => {
                self.since = None;
                false
            }
        }
    }
}

/// The exit status of a child, or None if it got stuck and was killed.
fn wait_child(p: &Prop, pid: i32, limit: Duration) -> Option<i32> {
    let start = Instant::now();
    let mut status = 0;
    let mut watch = Watch::new();
    loop {
        if unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) } == pid {
            return Some(status);
        }
        // (with the tool, the child waits for a process of its own, which has limits of its own)
        if start.elapsed() > limit || (!p.needs_cli && watch.idle(pid)) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            return None;
        }
        std::thread::sleep(Duration::from_micros(if start.elapsed() < Duration::from_millis(20) { 50 } else { 1000 }));
    }
}

fn quiet_stderr() {
    // an aborting allocator and the like should not litter the check's output
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
        }
    }
}

enum Judged {
    Clean(u64),
    Violation { class: String, detail: String, hash: u64, wl: Vec<u64>, ft: Vec<u64>, notes: Vec<String>, text: Vec<String>, counts: Vec<u64> },
    Harness(String),
}

fn death(status: i32) -> (String, String) {
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        if s == libc::SIGPROF {
            ("hang".into(), format!("one run takes more than {RUN_CPU_S} s of CPU time without ending"))
        } else {
            ("process death".into(), format!("the process is killed by signal {s}"))
        }
    } else {
        ("process death".into(), format!("the process ends with status {}", libc::WEXITSTATUS(status)))
    }
}

#[derive(Clone, Copy)]
enum Input<'a> {
    Seeded(u64, u64),
    Tapes(&'a [u64], &'a [u64]),
}

/// Runs that have to be executed in the same process before the one in question: needed only if the code under
/// test keeps something from one session to the next.
#[derive(Clone, Default)]
struct Prior {
    seed: u64,
    runs: Vec<u64>,
}

/// Executes one run in a process of its own.
fn isolated(p: &Prop, d: &Dirs, known: &Known, prior: &Prior, input: Input, verbose: bool) -> Judged {
    let file = d.scratch.join(format!("iso-{}", std::process::id()));
    let _ = std::fs::remove_file(&file);
    let pid = fork();
    if pid == 0 {
        limits();
        quiet_stderr();
        if p.needs_cli {
            cli::enter(d.tool.clone(), d.shim.clone(), d.scratch.join("iso"));
        }
        for r in &prior.runs {
            arm();
            let (wl, ft) = tapes(p, prior.seed, *r);
            execute(p, wl, ft, false, known);
        }
        arm();
        let (wl, ft) = match input {
            Input::Seeded(seed, run) => tapes(p, seed, run),
            Input::Tapes(a, b) => (Tape::replay(a.to_vec()), Tape::replay(b.to_vec())),
        };
        let o = execute(p, wl, ft, verbose, known);
        let v = json!({
            "viol": o.viol.as_ref().map(|v| json!([v.class, v.detail])),
            "harness": o.harness, "hash": o.hash, "wl": o.wl, "ft": o.ft, "notes": o.notes, "text": o.text,
            "counts": o.counts.to_vec(),
        });
        let ok = std::fs::write(&file, serde_json::to_vec(&v).unwrap()).is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 9 }) };
    }
    let status = wait_child(p, pid, Duration::from_secs(STUCK_S) + Duration::from_millis(20 * prior.runs.len() as u64));
    let (wl, ft): (Vec<u64>, Vec<u64>) = match input {
        Input::Tapes(a, b) => (a.to_vec(), b.to_vec()),
        _ => (vec![], vec![]),
    };
    let Some(status) = status else {
        let detail = "one run waits for good, without using the processor".into();
        return Judged::Violation { class: "stuck".into(), detail, hash: 0, wl, ft, notes: vec![], text: vec![], counts: vec![] };
    };
    let clean_exit = libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0;
    if !clean_exit {
        let (class, detail) = death(status);
        return Judged::Violation { class, detail, hash: 0, wl, ft, notes: vec![], text: vec![], counts: vec![] };
    }
    let v: Value = serde_json::from_slice(&std::fs::read(&file).expect("result file")).expect("result");
    let _ = std::fs::remove_file(&file);
    if let Some(h) = v["harness"].as_str() {
        return Judged::Harness(h.to_string());
    }
    let nums = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>();
    let strs = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<String>>();
    let hash = v["hash"].as_u64().unwrap();
    match v["viol"].as_array() {
        None => Judged::Clean(hash),
        Some(a) => Judged::Violation {
            class: a[0].as_str().unwrap().into(),
            detail: a[1].as_str().unwrap().into(),
            hash,
            wl: nums("wl"),
            ft: nums("ft"),
            notes: strs("notes"),
            text: strs("text"),
            counts: nums("counts"),
        },
    }
}

// ----------------------------------------------------------------------------------------- shrinking

struct Shrunk {
    wl: Vec<u64>,
    ft: Vec<u64>,
    tried: u64,
    accepted: u64,
}

/// Makes both tapes shorter and their values smaller while the same class of violation persists. 0 is the simplest
/// choice everywhere, and a tape that has run out reads as 0.
fn shrink(p: &Prop, d: &Dirs, known: &Known, prior: &Prior, class: &str, wl: Vec<u64>, ft: Vec<u64>) -> Shrunk {
    let mut s = Shrunk { wl, ft, tried: 0, accepted: 0 };
    let start = Instant::now();
    let budget = Duration::from_secs(if class == "hang" || class == "stuck" { 100 } else { 40 });
    fn trim(v: &mut Vec<u64>) {
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    trim(&mut s.wl);
    trim(&mut s.ft);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut attempt = |s: &mut Shrunk, which: usize, cand: Vec<u64>| -> bool {
        let mut cand = cand;
        trim(&mut cand);
        let (a, b) = if which == 0 { (&cand, &s.ft) } else { (&s.wl, &cand) };
        let mut key = FNV0;
        for x in a.iter().chain([u64::MAX].iter()).chain(b.iter()) {
            key = crate::rng::fnv(key, *x);
        }
        if !seen.insert(key) {
            return false;
        }
        s.tried += 1;
        let same = match isolated(p, d, known, prior, Input::Tapes(a, b), false) {
            Judged::Violation { class: c, .. } => c == class,
            _ => false,
        };
        if same {
            s.accepted += 1;
            if which == 0 {
                s.wl = cand;
            } else {
                s.ft = cand;
            }
        }
        same
    };
    let over = |s: &Shrunk| start.elapsed() > budget || s.tried > 4000;
    loop {
        let before = (s.wl.clone(), s.ft.clone());
        for which in [1, 0] {
            let get = |s: &Shrunk| if which == 0 { s.wl.clone() } else { s.ft.clone() };
            // nothing at all, then ever shorter ends
            let mut keep = 0;
            while keep < get(&s).len() && !over(&s) {
                let v = get(&s);
                if attempt(&mut s, which, v[..keep].to_vec()) {
                    break;
                }
                keep = (keep * 2).max(keep + 1);
            }
            // parts taken out, or replaced by the simplest choice
            let mut size = (get(&s).len() / 2).next_power_of_two().max(1);
            loop {
                let mut at = 0;
                while at < get(&s).len() && !over(&s) {
                    let v = get(&s);
                    let to = (at + size).min(v.len());
                    let mut out = v[..at].to_vec();
                    out.extend_from_slice(&v[to..]);
                    if attempt(&mut s, which, out) {
                        continue;
                    }
                    let mut zero = v.clone();
                    zero[at..to].iter_mut().for_each(|x| *x = 0);
                    attempt(&mut s, which, zero);
                    at += size;
                }
                if size == 1 || over(&s) {
                    break;
                }
                size /= 2;
            }
            // smaller values
            let mut i = 0;
            while i < get(&s).len() && !over(&s) {
                let x = get(&s)[i];
                let (mut lo, mut hi) = (0, x);
                // find the smallest value that still fails, assuming there is one threshold
                while lo < hi && !over(&s) {
                    let mid = lo + (hi - lo) / 2;
                    let mut v = get(&s);
                    if i >= v.len() {
                        break;
                    }
                    v[i] = mid;
                    if attempt(&mut s, which, v) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                i += 1;
            }
        }
        if over(&s) || before == (s.wl.clone(), s.ft.clone()) {
            return s;
        }
    }
}

// ------------------------------------------------------------------------------------------- replay

fn write_replay(p: &Prop, d: &Dirs, v: &Value) -> PathBuf {
    let dir = d.verif.join("replays");
    std::fs::create_dir_all(&dir).expect("replays directory");
    let path = dir.join(format!("{}.json", p.id));
    std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).expect("replay file");
    path
}

pub fn replay(path: &Path, d: &Dirs) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let p = crate::props::find(v["property"].as_str().unwrap()).expect("property");
    let known = known_findings(d);
    let nums = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>();
    let (wl, ft) = (nums("workload_tape"), nums("fault_tape"));
    let prior = Prior { seed: v["seed"].as_u64().unwrap_or(1), runs: nums("prior_runs") };
    match isolated(p, d, &known, &prior, Input::Tapes(&wl, &ft), true) {
        Judged::Clean(h) => {
            println!("no violation on replay (event-log hash {h:016x})");
            0
        }
        Judged::Harness(e) => {
            println!("{e}");
            2
        }
        Judged::Violation { class, detail, hash, notes, text, .. } => {
            for n in &notes {
                println!("{n}");
            }
            for t in text.iter().take(400) {
                println!("  {t}");
            }
            println!("{class}: {detail}");
            let exact = v["class"] == class.as_str() && v["event_log_hash"] == format!("{hash:016x}");
            println!("event-log hash {hash:016x}: {}", if exact { "exactly as recorded" } else { "NOT as recorded" });
            println!("VIOLATION property={} replay={}", p.id, path.display());
            if exact { 1 } else { 3 }
        }
    }
}

/// The shortest list of earlier runs of the same worker after which the run fails, if it does not fail on its own.
fn find_prior(p: &Prop, d: &Dirs, known: &Known, seed: u64, run: u64, workers: u64) -> Option<Prior> {
    let all: Vec<u64> = (run % workers..run).step_by(workers as usize).collect();
    let start = Instant::now();
    let fails = |runs: &[u64]| {
        let prior = Prior { seed, runs: runs.to_vec() };
        matches!(isolated(p, d, known, &prior, Input::Seeded(seed, run), false), Judged::Violation { .. })
    };
    let mut n = 1;
    let mut found = loop {
        let from = all.len().saturating_sub(n);
        if fails(&all[from..]) {
            break all[from..].to_vec();
        }
        if from == 0 || start.elapsed() > Duration::from_secs(200) {
            return None;
        }
        n *= 4;
    };
    let mut size = (found.len() / 2).max(1);
    while found.len() > 1 && start.elapsed() < Duration::from_secs(260) {
        let mut at = 0;
        while at < found.len() && start.elapsed() < Duration::from_secs(260) {
            let mut less = found.clone();
            less.drain(at..(at + size).min(found.len()));
            if !less.is_empty() && fails(&less) {
                found = less;
            } else {
                at += size;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    Some(Prior { seed, runs: found })
}

fn report(p: &Prop, d: &Dirs, known: &Known, q: &Params, run: u64, died: bool) -> Result<PathBuf, String> {
    let seed = q.seed;
    // the run again, in a process of its own: it has to fail the same way
    let mut prior = Prior::default();
    let mut first = isolated(p, d, known, &prior, Input::Seeded(seed, run), false);
    let mut exact = true;
    if matches!(first, Judged::Clean(_)) {
        match find_prior(p, d, known, seed, run, q.workers as u64) {
            Some(x) => prior = x,
            // the harness is deterministic (see `determinism`), so the code under test is not
            None => exact = false,
        }
        for _ in 0..20 {
            first = isolated(p, d, known, &prior, Input::Seeded(seed, run), false);
            if !matches!(first, Judged::Clean(_)) {
                break;
            }
        }
    }
    let (class, wl, ft) = match first {
        Judged::Clean(_) if died => return Err(format!("run {run} ended its process, but does not do so again")),
        Judged::Clean(_) => {
            println!("run {run} of seed {seed} failed, but not again when executed alone: the code under test is not deterministic");
            let v = json!({
                "property": p.id, "seed": seed, "run": run, "class": "not reproducible", "prior_runs": [],
                "detail": "the run failed in the batch, but not when repeated", "event_log_hash": "", "exact": false,
                "workload_tape": [], "fault_tape": [],
            });
            return Ok(write_replay(p, d, &v));
        }
        Judged::Harness(e) => return Err(e),
        Judged::Violation { class, wl, ft, .. } => (class, wl, ft),
    };
    // a run that dies leaves no tapes: it records them as it goes
    let (wl, ft) = if wl.is_empty() && ft.is_empty() { dying_tapes(p, d, known, seed, run) } else { (wl, ft) };
    let mut s = shrink(p, d, known, &prior, &class, wl.clone(), ft.clone());
    let mut j = isolated(p, d, known, &prior, Input::Tapes(&s.wl, &s.ft), true);
    if !matches!(j, Judged::Violation { .. }) {
        // a failure that comes and goes: keep what was recorded
        exact = false;
        (s.wl, s.ft) = (wl, ft);
        for _ in 0..20 {
            j = isolated(p, d, known, &prior, Input::Tapes(&s.wl, &s.ft), true);
            if matches!(j, Judged::Violation { .. }) {
                break;
            }
        }
    }
    let (c2, detail, hash, notes, text, counts) = match j {
        Judged::Violation { class, detail, hash, notes, text, counts, .. } => (class, detail, hash, notes, text, counts),
        _ => (class, "failed in the batch and once more, but not when repeated".into(), 0, vec![], vec![], vec![]),
    };
    match isolated(p, d, known, &prior, Input::Tapes(&s.wl, &s.ft), false) {
        Judged::Violation { class: c3, hash: h3, .. } if c3 == c2 && h3 == hash => {}
        _ => exact = false,
    }
    if !exact {
        println!("the failure does not repeat exactly: the code under test is not deterministic");
    }
    if !prior.runs.is_empty() {
        println!("needs runs {:?} to be executed before it in the same process", prior.runs);
    }
    let faults: BTreeMap<&str, u64> =
        FAULTS.iter().zip(counts).filter(|(_, n)| *n > 0).map(|(f, n)| (*f, n)).collect();
    let v = json!({
        "property": p.id,
        "seed": seed,
        "run": run,
        "class": c2,
        "detail": detail,
        "event_log_hash": format!("{hash:016x}"),
        "exact": exact,
        "prior_runs": prior.runs,
        "scenario": notes,
        "faults": faults,
        "workload_tape": s.wl,
        "fault_tape": s.ft,
        "shrinking": {"candidates": s.tried, "accepted": s.accepted},
        "event_log": text.iter().take(3000).collect::<Vec<_>>(),
        "replay_with": format!("sh check.sh replay replays/{}.json", p.id),
    });
    println!("run {run} of seed {seed}: {c2}: {detail}");
    println!("minimised with {} candidates to {} workload and {} fault choices", s.tried, s.wl.len(), s.ft.len());
    Ok(write_replay(p, d, &v))
}

/// What a run that kills its process draws from its tapes: found by giving it seeded values as a replayed tape
/// of generous length.
fn dying_tapes(p: &Prop, d: &Dirs, known: &Known, seed: u64, run: u64) -> (Vec<u64>, Vec<u64>) {
    // the tapes are recorded by the run itself, in shared memory, until it dies
    let len = 1usize << 26;
    let m = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(m != libc::MAP_FAILED);
    let a = m as *mut u64;
    let b = unsafe { a.add(len / 16) };
    let pid = fork();
    if pid == 0 {
        limits();
        quiet_stderr();
        if p.needs_cli {
            cli::enter(d.tool.clone(), d.shim.clone(), d.scratch.join("iso"));
        }
        arm();
        let (mut wl, mut ft) = tapes(p, seed, run);
        wl.mirror = Some((a, len / 16));
        ft.mirror = Some((b, len / 16));
        execute(p, wl, ft, false, known);
        unsafe { libc::_exit(0) };
    }
    wait_child(p, pid, Duration::from_secs(STUCK_S));
    let take = |x: *mut u64| unsafe {
        let n = (*x) as usize;
        std::slice::from_raw_parts(x.add(1), n).to_vec()
    };
    let r = (take(a), take(b));
    unsafe { libc::munmap(m, len) };
    r
}

// -------------------------------------------------------------------------------------------- check

#[derive(Default)]
struct Totals {
    runs: u64,
    hashes: HashSet<u64>,
    distinct: HashSet<u64>,
    nontrivial: u64,
    counts: Vec<u64>,
    runs_with: Vec<u64>,
    probes: BTreeMap<String, u64>,
    clock: u64,
    steps: u64,
    events: u64,
    known: BTreeMap<String, u64>,
    harness: Option<String>,
    longest_us: u64,
    longest_run: u64,
    digest: u64,
}

fn worker(p: &Prop, d: &Dirs, known: &Known, seed: u64, runs: u64, me: usize, n: usize, sh: &SharedMem, wall: Duration, from: u64) {
    limits();
    if p.needs_cli {
        cli::enter(d.tool.clone(), d.shim.clone(), d.scratch.join(format!("w{me}")));
    }
    let start = Instant::now();
    let mut t = Totals { counts: vec![0; FAULTS.len()], runs_with: vec![0; FAULTS.len()], ..Default::default() };
    let slot = sh.slot(me);
    let mut i = from;
    while i < runs && i < sh.stop().load(Ordering::SeqCst) {
        if start.elapsed() > wall {
            break;
        }
        slot.current.store(i + 1, Ordering::SeqCst);
        arm();
        let (wl, ft) = tapes(p, seed, i);
        let t0 = Instant::now();
        let o = execute(p, wl, ft, false, known);
        let us = t0.elapsed().as_micros() as u64;
        if us > t.longest_us {
            (t.longest_us, t.longest_run) = (us, i);
        }
        t.runs += 1;
        t.digest = t.digest.wrapping_add(mix(o.hash ^ mix(i)));
        t.hashes.insert(o.hash);
        if o.nontrivial {
            t.nontrivial += 1;
            t.distinct.insert(o.hash);
        }
        for (k, c) in o.counts.iter().enumerate() {
            t.counts[k] += c;
            t.runs_with[k] += (*c > 0) as u64;
        }
        for (k, c) in &o.probes {
            *t.probes.entry(k.to_string()).or_default() += (*c > 0) as u64;
        }
        t.clock += o.clock;
        t.steps += o.steps;
        t.events += o.nev;
        for k in &o.known {
            *t.known.entry(k.to_string()).or_default() += 1;
        }
        if let Some(h) = o.harness {
            t.harness = Some(format!("run {i}: {h}"));
            sh.stop().fetch_min(i, Ordering::SeqCst);
            break;
        }
        if o.viol.is_some() {
            sh.stop().fetch_min(i, Ordering::SeqCst);
            break;
        }
        slot.done.fetch_add(1, Ordering::SeqCst);
        i += n as u64;
    }
    slot.current.store(0, Ordering::SeqCst);
    let v = json!({
        "runs": t.runs, "nontrivial": t.nontrivial, "counts": t.counts, "runs_with": t.runs_with, "probes": t.probes,
        "clock": t.clock, "steps": t.steps, "events": t.events, "known": t.known, "harness": t.harness,
        "longest_us": t.longest_us, "longest_run": t.longest_run, "digest": t.digest,
        "hashes": t.hashes.iter().collect::<Vec<_>>(), "distinct": t.distinct.iter().collect::<Vec<_>>(),
    });
    let _ = std::fs::write(d.scratch.join(format!("result-{me}")), serde_json::to_vec(&v).unwrap());
    slot.finished.store(1, Ordering::SeqCst);
    unsafe { libc::_exit(0) };
}

pub struct Params {
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub workers: usize,
    pub wall: Duration,
    pub samples: u64,
    pub evidence: bool,
}

fn merge(t: &mut Totals, v: &Value) {
    let n = |k: &str| v[k].as_u64().unwrap();
    t.runs += n("runs");
    t.nontrivial += n("nontrivial");
    t.clock += n("clock");
    t.steps += n("steps");
    t.events += n("events");
    t.digest = t.digest.wrapping_add(n("digest"));
    if n("longest_us") > t.longest_us {
        (t.longest_us, t.longest_run) = (n("longest_us"), n("longest_run"));
    }
    for (k, a) in [("counts", &mut t.counts), ("runs_with", &mut t.runs_with)] {
        for (i, x) in v[k].as_array().unwrap().iter().enumerate() {
            a[i] += x.as_u64().unwrap();
        }
    }
    for (k, m) in [("probes", &mut t.probes), ("known", &mut t.known)] {
        for (name, x) in v[k].as_object().unwrap() {
            *m.entry(name.clone()).or_default() += x.as_u64().unwrap();
        }
    }
    for (k, s) in [("hashes", &mut t.hashes), ("distinct", &mut t.distinct)] {
        s.extend(v[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
    }
    if let Some(h) = v["harness"].as_str() {
        t.harness = Some(h.to_string());
    }
}

/// The digest over the event logs of all runs, which a second execution has to reproduce.
pub struct Batch {
    pub code: i32,
    pub digest: u64,
}

pub fn check(p: &Prop, d: &Dirs, q: &Params) -> Batch {
    let start = Instant::now();
    let known = known_findings(d);
    println!("property {} tier {} seed {} runs {} workers {}", p.id, q.tier, q.seed, q.runs, q.workers);
    let sh = SharedMem::new(q.workers);
    sh.stop().store(u64::MAX, Ordering::SeqCst);
    let mut pids = vec![0; q.workers];
    for me in 0..q.workers {
        let _ = std::fs::remove_file(d.scratch.join(format!("result-{me}")));
        let pid = fork();
        if pid == 0 {
            quiet_stderr();
            worker(p, d, &known, q.seed, q.runs, me, q.workers, &sh, q.wall, me as u64);
        }
        pids[me] = pid;
    }
    let mut alive = q.workers;
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); q.workers];
    let mut watches: Vec<Watch> = (0..q.workers).map(|_| Watch::new()).collect();
    let mut deaths: BTreeMap<u64, (String, String)> = BTreeMap::new();
    while alive > 0 {
        let mut moved = false;
        for me in 0..q.workers {
            if pids[me] == 0 {
                continue;
            }
            let mut status = 0;
            let r = unsafe { libc::waitpid(pids[me], &mut status, libc::WNOHANG) };
            let cur = sh.slot(me).current.load(Ordering::SeqCst);
            if r == pids[me] {
                moved = true;
                pids[me] = 0;
                alive -= 1;
                if sh.slot(me).finished.load(Ordering::SeqCst) == 0 {
                    if cur == 0 {
                        println!("worker {me} died outside any run ({})", death(status).1);
                        return Batch { code: 2, digest: 0 };
                    }
                    deaths.insert(cur - 1, death(status));
                    sh.stop().fetch_min(cur - 1, Ordering::SeqCst);
                }
                continue;
            }
            if cur != last[me].0 {
                last[me] = (cur, Instant::now());
                watches[me] = Watch::new();
            } else if last[me].1.elapsed() > Duration::from_secs(STUCK_S) || (!p.needs_cli && watches[me].idle(pids[me])) {
                unsafe { libc::kill(pids[me], libc::SIGKILL) };
                if cur > 0 {
                    deaths.insert(cur - 1, ("stuck".into(), "no progress".into()));
                    sh.stop().fetch_min(cur - 1, Ordering::SeqCst);
                }
            }
        }
        if !moved {
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    let mut t = Totals { counts: vec![0; FAULTS.len()], runs_with: vec![0; FAULTS.len()], ..Default::default() };
    for me in 0..q.workers {
        if let Ok(b) = std::fs::read(d.scratch.join(format!("result-{me}"))) {
            merge(&mut t, &serde_json::from_slice(&b).expect("worker result"));
        }
    }
    let explore = start.elapsed();
    let stop = sh.stop().load(Ordering::SeqCst);
    let mut violations = 0;
    let mut code = 0;
    if let Some(h) = &t.harness {
        // a harness error in a run below which nothing failed
        println!("{h}");
        code = 2;
    }
    if stop != u64::MAX && (code == 0 || deaths.contains_key(&stop)) {
        match report(p, d, &known, q, stop, deaths.contains_key(&stop)) {
            Ok(path) => {
                println!("VIOLATION property={} replay={}", p.id, path.display());
                violations = 1;
                code = 1;
            }
            Err(e) => {
                println!("{e}");
                code = 2;
            }
        }
    }
    if let Some(k) = known.get(p.id) {
        for (id, what) in k {
            if let Some(n) = t.known.get(id) {
                println!("KNOWN-FINDING: property={} {id}: {what} (met in {n} runs)", p.id);
            }
        }
    }
    if !q.evidence {
        return Batch { code, digest: t.digest };
    }
    let mut samples = Vec::new();
    let sampling = Instant::now();
    for k in 0..q.samples {
        if sampling.elapsed() > Duration::from_secs(30) {
            break;
        }
        let run = (k * 7919 + 3) % q.runs.max(1);
        if let Some(s) = sample(p, d, &known, q.seed, run) {
            samples.push(s);
        }
    }
    let faults: BTreeMap<&str, Value> = FAULTS
        .iter()
        .enumerate()
        .filter(|(i, _)| t.counts[*i] > 0)
        .map(|(i, f)| (*f, json!({"times fired": t.counts[i], "in runs": t.runs_with[i]})))
        .collect();
    let mut probes: BTreeMap<String, u64> = p.probes.iter().map(|s| (s.to_string(), 0)).collect();
    probes.extend(t.probes.clone());
    let never: Vec<&String> = probes.iter().filter(|(_, n)| **n == 0).map(|(k, _)| k).collect();
    let hours = explore.as_secs_f64() / 3600.0;
    let ev = json!({
        "property": p.id,
        "tier": q.tier,
        "seed": q.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.distinct.len(),
            "nontrivial_runs": t.nontrivial,
            "distinct_runs": t.hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "exhaustive": false,
            "planned_runs": q.runs,
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "seeds_per_hour": (t.runs as f64 / hours) as u64,
            "seed_note": "every run has its own seed, derived from VERIF_SEED, the property and the run number",
            "simulated_time_ticks": t.clock,
            "simulated_time_note": "one tick per I/O operation; jumps to the next arrival when every session waits",
            "io_steps": t.steps,
            "events_logged": t.events,
            "faults_injected": faults,
            "probes_runs": probes,
            "probes_never_hit": never,
            "components_real": p.real,
            "components_stub": p.stub,
            "state_measure": "distinct 64-bit hashes of complete event logs",
            "digest_of_all_event_logs": format!("{:016x}", t.digest),
            "longest_run_ms": t.longest_us / 1000,
            "known_findings_met": t.known,
            "workers": q.workers,
        },
        "assumptions": [
            "sampled, not enumerated: a clean batch is evidence, not proof",
            "the reference decoder in sim/src/refdef.rs is right (cross-checked against miniz_oxide during the runs)",
            "built with debug assertions and overflow checks, as the development profile of the repository",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = d.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("evidence cannot be written: {e}");
        code = 2;
    }
    println!(
        "{} runs, {} distinct non-trivial, {} I/O steps, longest run {} ms (run {}), {:.1} s, digest {:016x}; probes never hit: {:?}",
        t.runs,
        t.distinct.len(),
        t.steps,
        t.longest_us / 1000,
        t.longest_run,
        explore.as_secs_f64(),
        t.digest,
        never
    );
    Batch { code, digest: t.digest }
}

fn sample(p: &Prop, d: &Dirs, known: &Known, seed: u64, run: u64) -> Option<Value> {
    let file = d.scratch.join("sample");
    let _ = std::fs::remove_file(&file);
    let pid = fork();
    if pid == 0 {
        limits();
        quiet_stderr();
        if p.needs_cli {
            cli::enter(d.tool.clone(), d.shim.clone(), d.scratch.join("iso"));
        }
        arm();
        let (wl, ft) = tapes(p, seed, run);
        let o = execute(p, wl, ft, true, known);
        let cut = |v: Vec<String>, n: usize, len: usize| -> Vec<String> {
            v.into_iter().take(n).map(|s| s.chars().take(len).collect()).collect()
        };
        let v = json!({
            "run": run, "event_log_hash": format!("{:016x}", o.hash), "events": o.nev, "nontrivial": o.nontrivial,
            "scenario": cut(o.notes, 12, 300), "first_events": cut(o.text, 12, 120),
        });
        let _ = std::fs::write(&file, serde_json::to_vec(&v).unwrap());
        unsafe { libc::_exit(0) };
    }
    wait_child(p, pid, Duration::from_secs(STUCK_S));
    serde_json::from_slice(&std::fs::read(&file).ok()?).ok()
}
