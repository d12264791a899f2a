//! Properties of the command-line tool: C12 to C14. The real binary runs as a child process; every open, read and
//! write of its input and output goes through the preload library in ../shim, which answers from the run's plan.

use std::cell::RefCell;
use std::ffi::OsString;
use std::fs::{File, OpenOptions};
use std::io::{Seek, SeekFrom};
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

use super::streams::{footer, ref_header};
use super::*;
use crate::rng::Rng;

const LOGMAX: usize = 16384;
const EINTR_NOW: u32 = u32::MAX;
const NEVER: u64 = u64::MAX;

#[repr(C)]
struct LogEntry {
    what: u32,
    asked: u32,
    result: i64,
    pos: u64,
}

#[repr(C)]
struct Shared {
    in_dev: u64,
    in_ino: u64,
    out_dev: u64,
    out_ino: u64,
    in_at: u64,
    in_errno: u64,
    in_lasting: u64,
    out_at: u64,
    out_errno: u64,
    out_lasting: u64,
    out_reject: u64,
    open_errno: u64,
    max_calls: u64,
    alloc_at: u64,
    alloc_min: u64,
    alloc_lasting: u64,
    n_rd: u64,
    n_wr: u64,
    rd: [u32; 64],
    wr: [u32; 64],
    calls: u64,
    livelock: u64,
    in_fired: u64,
    in_fired_at: u64,
    out_fired: u64,
    open_fired: u64,
    short_r: u64,
    short_w: u64,
    intr_r: u64,
    intr_w: u64,
    eofs: u64,
    i_rd: u64,
    i_wr: u64,
    allocs: u64,
    alloc_fired: u64,
    held: i64,
    peak: i64,
    hash: u64,
    nlog: u64,
    log: [LogEntry; LOGMAX],
}

pub struct Env {
    pub tool: PathBuf,
    pub shim: PathBuf,
    pub dir: PathBuf,
    shared: *mut Shared,
}

thread_local! {
    pub static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}

/// Gives this process its own scratch directory and plan.
pub fn enter(tool: PathBuf, shim: PathBuf, dir: PathBuf) {
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join("plan")).expect("plan");
    f.set_len(std::mem::size_of::<Shared>() as u64).expect("plan size");
    let m = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            std::os::fd::AsRawFd::as_raw_fd(&f),
            0,
        )
    };
    assert!(m != libc::MAP_FAILED);
    ENV.with(|e| *e.borrow_mut() = Some(Env { tool, shim, dir, shared: m as *mut Shared }));
}

#[derive(Clone, Debug, Default)]
struct Plan {
    by_path: bool,
    missing: bool,
    /// offset, errno, lasting
    input: Option<(u64, i32, bool)>,
    /// offset, errno (0: accepts nothing), lasting, the whole call fails
    output: Option<(u64, i32, bool, bool)>,
    open_errno: i32,
    /// which allocation of at least so many bytes fails, and whether all later ones do
    alloc: Option<(u64, u64, bool)>,
    rd: Vec<u32>,
    wr: Vec<u32>,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
    in_fired: u64,
    out_fired: u64,
    open_fired: u64,
    alloc_fired: u64,
    livelock: bool,
    writes: u64,
    /// most bytes held on the heap at any time
    peak: usize,
    /// reads (true) and writes in order, each with the position and the bytes transferred
    io: Vec<(bool, u64, u64)>,
}

fn run_tool(w: &World, cmd: &str, file: &[u8], plan: &Plan) -> Ran {
    ENV.with(|e| {
        let e = e.borrow();
        let e = e.as_ref().expect("command-line environment");
        let inp = e.dir.join("in.gz");
        let outp = e.dir.join("out");
        let errp = e.dir.join("err");
        // always new files, so that nothing of an earlier run can be seen
        for p in [&inp, &outp, &errp] {
            let _ = std::fs::remove_file(p);
        }
        std::fs::write(&inp, file).expect("input file");
        let out = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&outp).expect("output file");
        let err = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&errp).expect("error file");
        let im = std::fs::metadata(&inp).expect("metadata");
        let om = out.metadata().expect("metadata");
        let s = unsafe { &mut *e.shared };
        *s = unsafe { std::mem::zeroed() };
        s.in_dev = im.dev();
        s.in_ino = im.ino();
        s.out_dev = om.dev();
        s.out_ino = om.ino();
        (s.in_at, s.out_at) = (NEVER, NEVER);
        if let Some((at, errno, lasting)) = plan.input {
            (s.in_at, s.in_errno, s.in_lasting) = (at, errno as u64, lasting as u64);
        }
        if let Some((at, errno, lasting, reject)) = plan.output {
            (s.out_at, s.out_errno, s.out_lasting, s.out_reject) = (at, errno as u64, lasting as u64, reject as u64);
        }
        s.alloc_at = NEVER;
        if let Some((at, min, lasting)) = plan.alloc {
            (s.alloc_at, s.alloc_min, s.alloc_lasting) = (at, min, lasting as u64);
        }
        s.open_errno = plan.open_errno as u64;
        s.max_calls = 3_000_000;
        s.n_rd = plan.rd.len() as u64;
        s.n_wr = plan.wr.len() as u64;
        s.rd[..plan.rd.len()].copy_from_slice(&plan.rd);
        s.wr[..plan.wr.len()].copy_from_slice(&plan.wr);
        s.hash = crate::rng::FNV0;
        let mut c = Command::new(&e.tool);
        c.arg(cmd).current_dir(&e.dir).env_clear();
        c.env("LD_PRELOAD", &e.shim).env("REZIP_SIM_PLAN", OsString::from("plan"));
        if plan.by_path {
            c.arg(if plan.missing { "absent.gz" } else { "in.gz" });
            c.stdin(Stdio::null());
        } else {
            c.stdin(Stdio::from(File::open(&inp).expect("input file")));
        }
        c.stdout(Stdio::from(out.try_clone().expect("dup"))).stderr(Stdio::from(err));
        unsafe {
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // a tool that waits for good, though its input never makes it wait
                let t = libc::itimerval {
                    it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                    it_value: libc::timeval { tv_sec: 40, tv_usec: 0 },
                };
                libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
                Ok(())
            });
        }
        let st = c.status().expect("the tool cannot be started");
        let mut got = Vec::new();
        let mut out = out;
        out.seek(SeekFrom::Start(0)).expect("seek");
        out.read_to_end(&mut got).expect("read output");
        let err = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).into_owned();
        w.ev("system calls", s.calls, s.hash);
        w.ev("exit", st.code().map_or(u64::MAX, |c| c as u64), st.signal().unwrap_or(0) as u64);
        w.hash_bytes("standard output", &got);
        for (f, n) in [
            (F::ShortRead, s.short_r),
            (F::IntrRead, s.intr_r),
            (F::ShortWrite, s.short_w),
            (F::IntrWrite, s.intr_w),
            (if s.in_lasting == 1 { F::SrcLast } else { F::SrcTemp }, s.in_fired),
            (
                if s.out_errno == 0 {
                    F::SinkZero
                } else if s.out_lasting == 1 {
                    F::SinkLast
                } else {
                    F::SinkTemp
                },
                s.out_fired,
            ),
            (F::Open, s.open_fired),
            (F::Alloc, s.alloc_fired),
        ] {
            for _ in 0..n.min(1000) {
                w.fault(f);
            }
        }
        w.clock.set(w.clock.get() + s.calls);
        let mut writes = 0;
        let mut io = Vec::new();
        for l in &s.log[..(s.nlog as usize).min(LOGMAX)] {
            if l.what == 2 && l.result > 0 {
                writes += 1;
            }
            if l.what == 1 || l.what == 2 {
                io.push((l.what == 1, l.pos, l.result.max(0) as u64));
            }
        }
        if w.verbose() {
            for l in &s.log[..(s.nlog as usize).min(LOGMAX)] {
                w.note(|| {
                    format!("{} of {} at {} gives {}", ["", "read", "write", "open", "allocation"][l.what as usize % 5], l.asked, l.pos, l.result)
                });
            }
            w.note(|| format!("exit code {:?}, signal {:?}, {} bytes on standard output, standard error: {err}", st.code(), st.signal(), got.len()));
        }
        w.note(|| format!("{} allocations, {} bytes at most", s.allocs, s.peak));
        // this is how an allocation that fails ends a Rust program
        let aborted = s.alloc_fired > 0 && st.signal() == Some(libc::SIGABRT);
        if aborted {
            w.probe("ended for want of memory");
        }
        Ran {
            code: if aborted { Some(134) } else { st.code() },
            signal: if aborted { None } else { st.signal() },
            out: got,
            err,
            in_fired: s.in_fired,
            out_fired: s.out_fired,
            open_fired: s.open_fired,
            alloc_fired: s.alloc_fired,
            livelock: s.livelock != 0,
            writes,
            peak: s.peak.max(0) as usize,
            io,
        }
    })
}

// ------------------------------------------------------------------------------------------- scenario

struct Scene {
    file: Vec<u8>,
    damaged: bool,
    truth: Truth,
}

struct Truth {
    header: Result<usize, &'static str>,
    r: Option<RefStream>,
    /// everything decodable, up to the first thing wrong
    content: Vec<u8>,
    /// one past the last byte of the stream
    end: usize,
    verdict: Verdict,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Verdict {
    Valid,
    Invalid,
    /// decoders disagree
    Either,
}

fn truth(file: &[u8]) -> Truth {
    let header = ref_header(file);
    let h = match header {
        Ok(h) => h,
        Err(_) => return Truth { header, r: None, content: vec![], end: 0, verdict: Verdict::Invalid },
    };
    let r = ref_parse(&file[h..]);
    let grey = r.open_grey.is_some() || r.final_pad || r.blocks.iter().any(|b| b.grey.is_some());
    let content = r.inflate_partial();
    let all = r.complete().is_some() && r.inflate().1;
    let verdict = if grey {
        Verdict::Either
    } else if all {
        Verdict::Valid
    } else {
        Verdict::Invalid
    };
    let end = h + r.complete().unwrap_or(0);
    Truth { header, r: Some(r), content, end, verdict }
}

fn small_or_any_header(t: &mut Tape) -> Vec<u8> {
    if t.chance(1, 5) {
        gen::header(t).bytes
    } else {
        vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3]
    }
}

/// Content whose sum over any 8 KiB is the same and not a multiple of 4096.
fn splitless(t: &mut Tape, len: usize) -> Vec<u8> {
    let mut r = Rng::new(t.seed());
    let mut unit: Vec<u8> = (0..8192).map(|_| if r.one_in(20) { r.next() as u8 } else { 0 }).collect();
    if unit.iter().map(|b| usize::from(*b)).sum::<usize>() % 4096 == 0 {
        unit[0] ^= 1;
    }
    (0..len).map(|i| unit[i % 8192]).collect()
}

fn scene(w: &World, max_out: usize, stream: Option<Vec<u8>>) -> Scene {
    let (header, s) = {
        let header = small_or_any_header(&mut w.wl.borrow_mut());
        match stream {
            Some(s) => (header, s),
            None => {
                let s = valid_stream(w, max_out);
                note_stream(w, "stream", &s);
                (header, s.bytes)
            }
        }
    };
    let mut file = header;
    file.extend_from_slice(&s);
    let end = file.len();
    let mut t = w.ft.borrow_mut();
    match t.weighted(&[6, 1, 1]) {
        0 => {
            let d = truth(&file).content;
            file.extend_from_slice(&footer(&d));
        }
        1 => {}
        _ => {
            let n = t.draw(40) as usize;
            let x = gen::data(&mut t, n);
            file.extend_from_slice(&x);
        }
    }
    let mut damaged = false;
    match t.weighted(&[10, 3, 2]) {
        0 => {}
        1 => {
            let mut to = t.draw(end as u64) as usize;
            if t.chance(1, 3) {
                to = end - 1 - (t.draw(4) as usize).min(end - 1);
            }
            file.truncate(to);
            damaged = true;
            drop(t);
            w.fault(F::SrcCut);
            w.probe("input cut");
            w.note(|| format!("file cut to {to} bytes"));
        }
        _ => {
            let what = mutate(&mut t, &mut file);
            damaged = true;
            drop(t);
            w.fault(F::Corrupt);
            w.probe("input corrupt");
            w.note(|| format!("file damaged: {what:?}"));
        }
    }
    let truth = truth(&file);
    Scene { file, damaged, truth }
}

const IN_ERRNOS: [i32; 9] = [
    libc::EIO,
    libc::ENOMEM,
    libc::ETIMEDOUT,
    libc::ECONNRESET,
    libc::EAGAIN,
    libc::EISDIR,
    libc::EINVAL,
    libc::ENXIO,
    libc::EBADF,
];

const OUT_ERRNOS: [i32; 9] =
    [libc::ENOSPC, libc::EPIPE, libc::EIO, 0, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::ECONNRESET, libc::EBADF];

const OPEN_ERRNOS: [i32; 5] = [libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM, libc::ELOOP];

fn calls(t: &mut Tape) -> Vec<u32> {
    // how many bytes calls transfer at most, and which are interrupted
    let n = t.pick(&[0usize, 1, 2, 5, 13]);
    let max = t.pick(&[1u64, 3, 17, 300, 5000]);
    let mut v: Vec<u32> = (0..n)
        .map(|_| match t.weighted(&[2, 4, 1]) {
            0 => 0,
            1 => 1 + t.draw(max) as u32,
            _ => EINTR_NOW,
        })
        .collect();
    // somewhere there must be progress
    if !v.is_empty() && v.iter().all(|x| *x == EINTR_NOW) {
        v.push(0);
    }
    v
}

fn plan(w: &World, s: &Scene, out_len: usize) -> Plan {
    let mut t = w.ft.borrow_mut();
    let mut p = Plan { by_path: t.chance(1, 2), ..Default::default() };
    p.rd = calls(&mut t);
    // one-byte reads of a large file only slow the search down
    if s.file.len() > 20_000 {
        for x in &mut p.rd {
            if *x != 0 && *x != EINTR_NOW && *x < 50 {
                *x += 50;
            }
        }
    }
    p.wr = calls(&mut t);
    if out_len > 20_000 {
        for x in &mut p.wr {
            if *x != 0 && *x != EINTR_NOW && *x < 50 {
                *x += 50;
            }
        }
    }
    match t.weighted(&[6, 4, 8, 1]) {
        0 => {}
        1 => {
            let len = s.file.len() as u64;
            let at = match t.weighted(&[2, 1, 1]) {
                0 => t.draw(len + 1),
                1 => {
                    // around what the standard library reads at once, and around the end of the stream
                    let base = t.pick(&[8192u64, 16384, s.truth.end as u64, 10]);
                    (base + t.draw(3)).saturating_sub(1).min(len)
                }
                _ => 0,
            };
            p.input = Some((at, t.pick(&IN_ERRNOS), t.chance(1, 2)));
        }
        2 => {
            let len = out_len as u64;
            let at = if len == 0 {
                0
            } else {
                match t.weighted(&[3, 3, 2, 1]) {
                    0 => t.draw(len),
                    1 => len - 1 - t.draw(12.min(len)),
                    2 => (t.pick(&[1024u64, 2048, 8192, 65536, 10]) + t.draw(3)).saturating_sub(1).min(len - 1),
                    _ => 0,
                }
            };
            let errno = t.pick(&OUT_ERRNOS);
            // once it accepts nothing it goes on like that
            let lasting = errno == 0 || t.chance(2, 3);
            p.output = Some((at, errno, lasting, t.chance(1, 4)));
            if errno == libc::EBADF {
                // a descriptor that is not open for writing is like that from the start
                p.output = Some((0, errno, true, false));
            }
        }
        _ => {
            p.by_path = true;
            if t.chance(1, 2) {
                p.missing = true;
            } else {
                p.open_errno = t.pick(&OPEN_ERRNOS);
            }
        }
    }
    drop(t);
    w.note(|| format!("file of {} bytes: {}", s.file.len(), hex(&s.file, 600)));
    w.note(|| format!("plan {p:?}, verdict on the file {:?}, stream ends at {}", s.truth.verdict, s.truth.end));
    if p.missing {
        w.probe("missing file");
        w.fault(F::Open);
    }
    w.probe(if p.by_path { "by path" } else { "standard input" });
    p
}

/// Standard output that is not open for writing: Rust's standard library takes that for success (see
/// known-findings.txt).
fn unwritable(w: &World, s: &Scene, p: &Plan, r: &Ran, finding: &'static str) -> bool {
    let met = r.code == Some(0)
        && r.out.is_empty()
        && r.out_fired > 0
        && matches!(p.output, Some((0, libc::EBADF, true, _)))
        && s.truth.verdict != Verdict::Invalid
        && !p.missing
        && r.open_fired == 0;
    if met {
        w.known(finding);
    }
    met
}

/// What holds for all three tools. `full` is the whole right output, if there is one.
fn judge(w: &World, s: &Scene, p: &Plan, r: &Ran, full: Option<&[u8]>) -> Res {
    if r.livelock {
        return viol("no end in sight", "the process keeps making system calls");
    }
    if let Some(sig) = r.signal {
        return viol("killed by a signal", format!("signal {sig}; {}", r.err));
    }
    let code = r.code.expect("exit code");
    let t = &s.truth;
    // a read failure before the end of the stream
    let early = p.input.is_some_and(|(at, _, _)| r.in_fired > 0 && (at as usize) < t.end);
    w.probe(if code == 0 { "exit 0" } else { "exit failure" });
    if r.out_fired > 0 {
        w.probe("output failed");
        if let (Some((at, ..)), Some(f)) = (p.output, full) {
            if at as usize + 1 == f.len() {
                w.probe("output failed at the last byte");
            }
        }
    }
    if r.in_fired > 0 {
        w.probe("input failed");
    }
    if code == 0 {
        if p.missing || r.open_fired > 0 {
            return viol("success without input", "the file could not be opened, yet the exit status is 0");
        }
        if r.out_fired > 0 {
            return viol("success although output failed", "writing to standard output failed, yet the exit status is 0");
        }
        if early {
            return viol("success although input failed", "reading failed before the end of the stream, yet the exit status is 0");
        }
        if t.verdict == Verdict::Invalid {
            let why = match (&t.header, &t.r) {
                (Err(e), _) => format!("header: {e}"),
                (_, Some(r)) if r.complete().is_none() => format!("{:?}", r.end),
                _ => "a reference reaches before the start of the data".to_string(),
            };
            return viol("success on a bad file", format!("the file is cut or violates the format ({why}), yet the exit status is 0"));
        }
    } else {
        let excuse = p.missing || r.open_fired > 0 || r.out_fired > 0 || r.in_fired > 0 || r.alloc_fired > 0 || t.verdict != Verdict::Valid;
        if !excuse {
            return viol("failure without a reason", format!("exit status {code} on a valid file without failures: {}", r.err));
        }
    }
    Ok(())
}

fn judge_text(s: &Scene, r: &Ran, right: &[u8]) -> Res {
    let verdict = s.truth.verdict;
    if verdict == Verdict::Either && s.truth.r.as_ref().is_none_or(|r| r.complete().is_none()) {
        return Ok(());
    }
    if r.code == Some(0) {
        if r.out != right {
            return viol("wrong output with success", diff(&r.out, right));
        }
    } else if verdict != Verdict::Either && !is_prefix(&r.out, right) {
        return viol("wrong output before failing", diff(&r.out, right));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C12

pub fn c12(w: &Rc<World>) -> Res {
    let max = w.wl.borrow_mut().pick(&[100usize, 1500, 5000, 30_000]);
    let s = scene(w, max, None);
    let p = plan(w, &s, s.truth.content.len());
    let r = run_tool(w, "cat", &s.file, &p);
    if r.writes > 3 {
        w.probe("several chunks written");
    }
    judge_cat(w, &s, &p, &r)
}

fn judge_cat(w: &World, s: &Scene, p: &Plan, r: &Ran) -> Res {
    if unwritable(w, s, p, r, "C12-ebadf") {
        return Ok(());
    }
    judge(w, s, p, r, Some(&s.truth.content))?;
    judge_text(s, r, &s.truth.content)
}

// ------------------------------------------------------------------------------------------------ C14

fn listing(s: &Scene) -> Vec<u8> {
    let mut o = String::new();
    let Some(r) = &s.truth.r else { return vec![] };
    let h = *s.truth.header.as_ref().unwrap();
    for (i, b) in r.blocks.iter().enumerate() {
        list_block(&mut o, i, b, &s.file[h..]);
    }
    o.into_bytes()
}

fn list_block(o: &mut String, i: usize, b: &RefBlock, stream: &[u8]) {
    *o += &format!("block {i}:\n");
    match &b.kind {
        Kind::Stored(d) => {
            *o += &format!(" - uncompressed: {} bytes\n", d.len());
            return;
        }
        Kind::Fixed => *o += " - fixed huffman:\n",
        Kind::Dynamic { tables } => {
            let bits = bits_of(stream, tables.0, tables.1);
            *o += &format!(" - dynamic huffman: BitVec: {}: {bits}\n", bits.len());
        }
    }
    for t in &b.toks {
        match *t {
            Tok::Lit(c) => *o += &format!("    - lit: 0x{c:02x}: {:?}\n", char::from(c)),
            Tok::Ref { dist, run } => *o += &format!("    - backref: {dist} byte(s) back, {run} bytes long\n"),
        }
    }
}

pub fn c14(w: &Rc<World>) -> Res {
    let max = w.wl.borrow_mut().pick(&[60usize, 300, 1500, 6000]);
    let s = scene(w, max, None);
    let mut s = s;
    let right = dump_scene(w, &mut s);
    let p = plan(w, &s, right.len());
    let r = run_tool(w, "dump", &s.file, &p);
    judge_dump(w, &s, &p, &r, right)
}

/// The right listing.
fn dump_scene(w: &World, s: &mut Scene) -> Vec<u8> {
    let right = listing(s);
    // this tool does not resolve references, so ones that reach too far are no reason to fail: either is right
    if let Some(r) = &s.truth.r {
        if r.complete().is_some() && s.truth.verdict == Verdict::Invalid {
            s.truth.verdict = Verdict::Either;
        }
        for b in &r.blocks {
            w.probe(match b.kind {
                Kind::Stored(_) => "stored",
                Kind::Fixed => "fixed",
                Kind::Dynamic { .. } => "dynamic",
            });
        }
    }
    right
}

fn judge_dump(w: &World, s: &Scene, p: &Plan, r: &Ran, mut right: Vec<u8>) -> Res {
    if unwritable(w, s, p, r, "C14-ebadf") {
        return Ok(());
    }
    judge(w, s, p, r, Some(&right))?;
    if r.code != Some(0) {
        // the listing may also stop before a block that is only just complete
        if s.truth.header.is_err() {
            right.clear();
        }
    }
    judge_text(s, r, &right)
}

// ------------------------------------------------------------------------------------------------ C13

struct Zeroed {
    /// header, all blocks and trailer are there
    whole: bool,
    blocks: usize,
    /// where in the content each block ends, also one that is cut after its length
    ends: Vec<usize>,
}

/// Is `out` the right rewriting of this content, or the beginning of one?
fn check_zeroed(out: &[u8], header: &[u8], content: &[u8], complete_content: bool) -> Result<Zeroed, String> {
    let mut z = Zeroed { whole: false, blocks: 0, ends: vec![] };
    let n = out.len().min(header.len());
    if out[..n] != header[..n] {
        return Err(format!("header differs: {}", diff(&out[..n], header)));
    }
    if n < header.len() {
        return Ok(z);
    }
    let mut p = header.len();
    let mut done = 0;
    loop {
        if p == out.len() {
            return Ok(z);
        }
        if out[p] > 1 {
            return Err(format!("byte {p} is {:#04x}: not the start of a stored block", out[p]));
        }
        let last = out[p] == 1;
        if out.len() < p + 5 {
            return Ok(z);
        }
        let len = u16::from_le_bytes([out[p + 1], out[p + 2]]);
        let nlen = u16::from_le_bytes([out[p + 3], out[p + 4]]);
        if nlen != !len {
            return Err(format!("block {}: length {len:#06x} with complement {nlen:#06x}", z.blocks));
        }
        let len = usize::from(len);
        p += 5;
        if done + len > content.len() {
            return Err(format!("block {}: {len} bytes, but only {} are left", z.blocks, content.len() - done));
        }
        z.ends.push(done + len);
        let have = len.min(out.len() - p);
        if out[p..p + have] != content[done..done + have] {
            return Err(format!("block {}: {}", z.blocks, diff(&out[p..p + have], &content[done..done + len])));
        }
        if last && (done + len != content.len() || !complete_content) {
            return Err(format!("block {} is flagged final at {} of {} bytes", z.blocks, done + len, content.len()));
        }
        if have < len {
            return Ok(z);
        }
        z.blocks += 1;
        p += len;
        done += len;
        if last {
            let f = footer(content);
            if !is_prefix(&out[p..], &f) {
                return Err(format!("trailer: {}", diff(&out[p..], &f)));
            }
            z.whole = out.len() == p + f.len();
            return Ok(z);
        }
    }
}

pub fn c13(w: &Rc<World>) -> Res {
    let (stream, max) = {
        let mut t = w.wl.borrow_mut();
        match t.weighted(&[12, 6, 4, 3]) {
            0 => {
                let max = t.pick(&[100usize, 3000, 20_000, 40_000]);
                (None, max)
            }
            // the buffer of standard output (1 KiB, emptied up to the last end of a line) is full at some small write
            3 => {
                let d = if t.chance(1, 2) {
                    vec![b'a'; 1012 - t.draw(16) as usize]
                } else {
                    // split after 8 KiB: the sum is a multiple of 4096
                    let mut d = vec![0u8; 8192];
                    d[..16].fill(255);
                    d[16] = 4096u32.wrapping_sub(16 * 255 + 10) as u8;
                    d[8191 - (1024 - t.draw(12) as usize)] = b'\n';
                    let n = 1 + t.draw(2000) as usize;
                    d.resize(8192 + n, b'b');
                    d
                };
                w.probe("buffer full at a small write");
                let level = t.draw(10) as u32;
                (Some(gen::compress(&d, level, &[])), 0)
            }
            1 => {
                // content large enough for several blocks
                let n = t.pick(&[8191u64, 8192, 8193, 12_000, 30_000, 70_000, 140_000]) + t.draw(3);
                let d = gen::data(&mut t, n as usize);
                let level = t.draw(10) as u32;
                (Some(gen::compress(&d, level, &[])), 0)
            }
            _ => {
                let n = t.pick(&[65_533u64, 65_534, 65_535, 65_536, 65_537, 73_728, 131_070, 131_072, 140_000]) + t.draw(3);
                let d = splitless(&mut t, n as usize);
                w.probe("no split for 64 KiB");
                let level = t.draw(10) as u32;
                (Some(gen::compress(&d, level, &[])), 0)
            }
        }
    };
    let mut s = scene(w, max, stream);
    let out_len = zero_scene(&mut s);
    let p = plan(w, &s, out_len);
    let r = run_tool(w, "zero", &s.file, &p);
    let Some(z) = judge_zero(w, &s, &p, &r)? else { return Ok(()) };
    let t = &s.truth;
    let h = *t.header.as_ref().unwrap_or(&0);
    if z.blocks > 1 {
        w.probe("several blocks");
    }
    // the same content compressed another way and delivered another way has to give the same body
    if w.wl.borrow_mut().chance(1, 3) {
        w.probe("recompressed twin");
        let (level, cuts) = {
            let mut t2 = w.wl.borrow_mut();
            let n = t2.draw(3);
            let mut v: Vec<(usize, bool)> =
                (0..n).map(|_| (t2.draw(t.content.len() as u64 + 1) as usize, t2.chance(1, 2))).collect();
            v.sort_unstable();
            (t2.draw(10) as u32, v)
        };
        let mut twin = s.file[..h].to_vec();
        twin.extend_from_slice(&gen::compress(&t.content, level, &cuts));
        twin.extend_from_slice(&footer(&t.content));
        let p2 = {
            let mut ft = w.ft.borrow_mut();
            Plan { by_path: ft.chance(1, 2), rd: calls(&mut ft), ..Default::default() }
        };
        let mut p2 = p2;
        for x in &mut p2.rd {
            if *x != 0 && *x != EINTR_NOW && *x < 50 {
                *x += 50;
            }
        }
        w.note(|| format!("twin: level {level}, flushes {cuts:?}, plan {p2:?}"));
        let r2 = run_tool(w, "zero", &twin, &p2);
        if r2.code != Some(0) || r2.out != r.out {
            return viol(
                "depends on the compression",
                format!("the same content compressed differently: exit {:?}, {}", r2.code, diff(&r2.out, &r.out)),
            );
        }
    }
    Ok(())
}

/// About how long the output will be.
fn zero_scene(s: &mut Scene) -> usize {
    // there is nothing to say about empty content
    if s.truth.verdict == Verdict::Valid && s.truth.content.is_empty() {
        s.truth.verdict = Verdict::Either;
    }
    let h = *s.truth.header.as_ref().unwrap_or(&0);
    h + s.truth.content.len() + 13 + 5 * (s.truth.content.len() / 20_000)
}

/// None if there was no success.
fn judge_zero(w: &World, s: &Scene, p: &Plan, r: &Ran) -> Result<Option<Zeroed>, Viol> {
    if unwritable(w, s, p, r, "C13-ebadf") {
        return Ok(None);
    }
    judge(w, s, p, r, None)?;
    let h = *s.truth.header.as_ref().unwrap_or(&0);
    if let (Some((at, ..)), true) = (p.output, r.out_fired > 0) {
        let f = footer(&s.truth.content);
        if r.out.len() == at as usize && r.out.len() > 8 && is_prefix(&f[..7], &r.out[r.out.len().saturating_sub(7)..]) {
            w.probe("output failed at the last byte");
        }
    }
    let t = &s.truth;
    if t.verdict == Verdict::Either {
        return Ok(None);
    }
    if t.header.is_err() {
        if !r.out.is_empty() {
            return viol("wrong output before failing", "output although the header is bad");
        }
        return Ok(None);
    }
    let z = match check_zeroed(&r.out, &s.file[..h], &t.content, t.verdict == Verdict::Valid) {
        Ok(z) => z,
        Err(e) => {
            let class = if r.code == Some(0) { "wrong output with success" } else { "wrong output before failing" };
            return viol(class, e);
        }
    };
    if r.code != Some(0) {
        return Ok(None);
    }
    if !z.whole {
        return viol("wrong output with success", format!("only {} bytes after {} blocks", r.out.len(), z.blocks));
    }
    Ok(Some(z))
}

// ------------------------------------------------------------------------------------------------ C18

const TOOLS: [&str; 3] = ["cat", "zero", "dump"];

/// What must have been written when all of the file up to `upto` has been received and more is asked for.
struct Progress {
    /// end of each block in the file, and how much output there is up to then
    marks: Vec<(u64, u64)>,
    /// how much of that may be held back
    allowed: u64,
}

impl Progress {
    fn new(tool: &str, s: &Scene) -> Progress {
        let mut marks = Vec::new();
        let (Ok(h), Some(r)) = (s.truth.header, &s.truth.r) else { return Progress { marks, allowed: 0 } };
        let mut out = if tool == "zero" { h as u64 } else { 0 };
        for (i, b) in r.blocks.iter().enumerate() {
            out += match tool {
                "dump" => {
                    let mut o = String::new();
                    list_block(&mut o, i, b, &s.file[h..]);
                    o.len() as u64
                }
                _ => b.toks.iter().fold(0, |n, t| {
                    n + match t {
                        Tok::Lit(_) => 1,
                        Tok::Ref { run, .. } => u64::from(*run),
                    }
                }) + if let Kind::Stored(d) = &b.kind { d.len() as u64 } else { 0 },
            };
            marks.push(((h + b.end_bit.div_ceil(8)) as u64, out));
        }
        if tool != "dump" && s.truth.verdict == Verdict::Valid {
            let all = marks.last().map_or(0, |m| m.1) - if tool == "zero" { h as u64 } else { 0 };
            assert_eq!(all, s.truth.content.len() as u64);
        }
        Progress { marks, allowed: if tool == "zero" { 128 << 10 } else { 64 << 10 } }
    }

    fn judge(&self, w: &World, r: &Ran) -> Res {
        let (mut done, mut most) = (0u64, 0u64);
        for (read, pos, n) in &r.io {
            if !read {
                done = done.max(pos + n);
                continue;
            }
            let k = self.marks.partition_point(|m| m.0 <= *pos);
            if k == 0 {
                continue;
            }
            let due = self.marks[k - 1].1;
            most = most.max(due.saturating_sub(done));
            if due > self.allowed {
                w.probe("more than a buffer's worth due");
            }
            if done + self.allowed < due {
                return viol(
                    "output held back",
                    format!("with {pos} bytes received, {k} blocks are complete and give {due} bytes; only {done} are written when more input is asked for"),
                );
            }
        }
        w.note(|| format!("at most {most} bytes held back"));
        Ok(())
    }
}

/// Enough memory for the largest block, several times over.
fn memory_bound(tool: &str, s: &Scene) -> usize {
    // (a line of text for each code)
    let code = if tool == "dump" { 200 } else { 64 };
    let h = *s.truth.header.as_ref().unwrap_or(&s.file.len());
    let Some(r) = &s.truth.r else { return (512 << 10) + 16 * s.file.len() };
    if s.truth.verdict != Verdict::Valid {
        return (512 << 10) + 16 * h + 3000 * (s.file.len() - h);
    }
    let most = r.blocks.iter().map(|b| match &b.kind {
        Kind::Stored(d) => 8 * d.len(),
        _ => {
            let out: usize = b.toks.iter().map(|t| if let Tok::Ref { run, .. } = t { usize::from(*run) } else { 1 }).sum();
            code * b.toks.len() + 8 * out + 8 * 400
        }
    });
    (512 << 10) + 16 * h + most.max().unwrap_or(0)
}

fn enough_memory(tool: &str, s: &Scene, r: &Ran) -> Res {
    let bound = memory_bound(tool, s);
    if r.peak > bound {
        return viol("too much memory", format!("{} bytes on the heap at the peak; {bound} are enough for the largest block", r.peak));
    }
    Ok(())
}

fn sound(file: Vec<u8>) -> Scene {
    let truth = truth(&file);
    let mut file = file;
    file.extend_from_slice(&footer(&truth.content));
    assert_eq!(truth.verdict, Verdict::Valid, "the generator made an invalid stream");
    Scene { file, damaged: false, truth }
}

pub fn c18(w: &Rc<World>) -> Res {
    let (mode, tool) = {
        let mut t = w.wl.borrow_mut();
        (t.weighted(&[4, 3, 3]), t.pick(&TOOLS))
    };
    w.probe(tool);
    match mode {
        // any file, with an allocation that fails
        0 => {
            let max = w.wl.borrow_mut().pick(&[100usize, 1500, 5000]);
            let mut s = scene(w, max, None);
            let right = if tool == "dump" { dump_scene(w, &mut s) } else { vec![] };
            let len = match tool {
                "zero" => zero_scene(&mut s),
                "dump" => right.len(),
                _ => s.truth.content.len(),
            };
            let mut p = plan(w, &s, len);
            p.input = None;
            p.output = None;
            p.open_errno = 0;
            p.missing = false;
            {
                let mut t = w.ft.borrow_mut();
                let min = t.pick(&[0u64, 64, 1000, 8000, 60_000]);
                let most = match min {
                    0 => t.pick(&[100u64, 1000, 5000]),
                    64 | 1000 => t.pick(&[10u64, 100]),
                    _ => 6,
                };
                p.alloc = Some((t.draw(most), min, t.chance(1, 2)));
            }
            w.note(|| format!("allocation (which, of how many bytes at least, all later ones): {:?}", p.alloc));
            let r = run_tool(w, tool, &s.file, &p);
            w.probe(if r.alloc_fired > 0 { "allocation failed" } else { "no allocation failed" });
            if r.alloc_fired > 0 && !r.out.is_empty() {
                w.probe("allocation failed after the first output");
            }
            match tool {
                "cat" => judge_cat(w, &s, &p, &r),
                "dump" => judge_dump(w, &s, &p, &r, right),
                _ => judge_zero(w, &s, &p, &r).map(|_| ()),
            }
        }
        // the same blocks more and more often
        1 => {
            let (files, desc, fresh) = {
                let mut t = w.wl.borrow_mut();
                let (max_out, times) = t.pick(&[(10usize, [100usize, 400, 1600]), (40, [50, 200, 800]), (300, [16, 64, 256])]);
                let header = small_or_any_header(&mut t);
                let all = gen::repeated_often(&mut t, max_out, &times, false, if tool == "dump" { 16_000 } else { 60_000 });
                let desc: Vec<String> = all.iter().map(|s| s.desc.clone()).collect();
                let fresh = all.iter().any(|s| s.fresh);
                let files: Vec<Scene> = all
                    .into_iter()
                    .map(|s| {
                        let mut f = header.clone();
                        f.extend_from_slice(&s.bytes);
                        sound(f)
                    })
                    .collect();
                (files, desc, fresh)
            };
            w.note(|| format!("{tool}: {desc:?}"));
            let p = {
                let mut t = w.ft.borrow_mut();
                let k = t.pick(&[0u32, 700, 5000]);
                Plan { by_path: t.chance(1, 2), rd: vec![k], wr: vec![], ..Default::default() }
            };
            let mut peaks = Vec::new();
            for s in &files {
                // (nothing is promised for empty content)
                if tool == "zero" && s.truth.content.is_empty() {
                    return Ok(());
                }
                let r = run_tool(w, tool, &s.file, &p);
                judge(w, s, &p, &r, None)?;
                enough_memory(tool, s, &r)?;
                Progress::new(tool, s).judge(w, &r)?;
                peaks.push(r.peak);
            }
            w.probe("memory compared");
            w.note(|| format!("heap at the peak: {peaks:?} bytes"));
            // (up to 64 KiB may be held back, in something that grows as it is needed)
            let tables = if fresh { gen::TABLES } else { 0 };
            let room = 1024 + tables + 3 * (files[2].truth.content.len() - files[0].truth.content.len());
            if peaks[0] < peaks[1] && peaks[1] < peaks[2] && peaks[2] - peaks[0] >= room {
                return viol("memory grows along the file", format!("with each four times as many of the same blocks: {peaks:?} bytes on the heap at the peak"));
            }
            Ok(())
        }
        // much output, watched while it is made
        _ => {
            let file = {
                let mut t = w.wl.borrow_mut();
                let mut f = small_or_any_header(&mut t);
                if tool != "dump" && t.chance(1, 4) {
                    // one block holds more than may be kept back, and more blocks follow
                    let most = t.pick(&[150_000usize, 300_000]);
                    let n = most - t.draw(70_000) as usize;
                    let mut p = gen::StreamParams { max_out: n + 20_000, ..Default::default() };
                    if t.chance(1, 2) {
                        p.long = n;
                    } else {
                        p.big = n;
                    }
                    let s = gen::stream(&mut t, &p);
                    w.note(|| format!("{tool}: {:?}", s.desc));
                    w.probe("one huge block");
                    f.extend_from_slice(&s.bytes);
                    drop(t);
                    return watched(w, tool, sound(f));
                }
                let s = if tool == "dump" {
                    // (one system call per line)
                    let max = t.pick(&[300usize, 1500]);
                    gen::repeated_often(&mut t, max, &[60], false, 7000).remove(0)
                } else {
                    let bulk = t.chance(1, 3);
                    let max = t.pick(&[5000usize, 20_000]);
                    gen::repeated_often(&mut t, max, &[if bulk { 9 } else { 60 }], bulk, 300_000).remove(0)
                };
                w.note(|| format!("{tool}: {}", s.desc));
                f.extend_from_slice(&s.bytes);
                f
            };
            watched(w, tool, sound(file))
        }
    }
}

/// Nothing is kept back for long while the tool works through this file.
fn watched(w: &World, tool: &str, s: Scene) -> Res {
    if tool == "zero" && s.truth.content.is_empty() {
        return Ok(());
    }
    let p = {
        let mut t = w.ft.borrow_mut();
        let mut rd = calls(&mut t);
        for x in &mut rd {
            if *x != 0 && *x != EINTR_NOW && *x < 200 {
                *x += 200;
            }
        }
        Plan { by_path: t.chance(1, 2), rd, ..Default::default() }
    };
    let r = run_tool(w, tool, &s.file, &p);
    judge(w, &s, &p, &r, None)?;
    enough_memory(tool, &s, &r)?;
    Progress::new(tool, &s).judge(w, &r)
}

// ------------------------------------------------------------------------------------------------ C19

/// A gzip file with this content, packed and flushed in some way.
fn packed(t: &mut Tape, header: &[u8], content: &[u8]) -> Vec<u8> {
    let n = t.draw(3);
    let mut cuts: Vec<(usize, bool)> = (0..n).map(|_| (t.draw(content.len() as u64 + 1) as usize, t.chance(1, 2))).collect();
    cuts.sort_unstable();
    let level = t.pick(&[0u32, 1, 6]);
    let mut f = header.to_vec();
    f.extend_from_slice(&gen::compress(content, level, &cuts));
    f
}

/// Contents that differ in one place only: the blocks before it and, once they meet, the ones after it are the same.
pub fn c19(w: &Rc<World>) -> Res {
    let (start, olds, rest, random, files) = {
        let mut t = w.wl.borrow_mut();
        // split for two reasons at the same place: by content, and because no block can be longer
        let full = t.chance(1, 4);
        let start_len = match t.weighted(&[2, 3, 3]) {
            _ if full => 8192 * t.draw(3),
            0 => 0,
            1 => t.draw(20_000),
            _ => t.draw(100_000),
        };
        let kind = t.pick(&[0usize, 1, 2, 3, 3, 3, 4]);
        let seed = t.seed();
        let start = if full { vec![0; start_len as usize] } else { gen::data_kind(kind, seed, start_len as usize) };
        let mut olds = [vec![], vec![]];
        let how = t.weighted(&[3, 3, 3, 2, 1]);
        for (i, o) in olds.iter_mut().enumerate() {
            let n = match (how, i) {
                // inserted
                (0, 0) => 0,
                (0, _) => 1 + t.draw(40),
                // put in place of something as long
                (1, _) => 3,
                (2, _) => t.draw(3000),
                (3, _) => t.draw(70_000),
                // more than a block
                (_, 0) => 0,
                _ => 65_536 + t.draw(100_000),
            };
            *o = if full {
                let k = t.draw(3) as usize;
                if i == 0 {
                    vec![0; 8192 * k]
                } else {
                    splitless(&mut t, 65_535 * k.max(1))
                }
            } else {
                gen::data_kind(3, t.seed(), n as usize)
            };
        }
        if full {
            w.probe("longest block");
        }
        if olds[0] == olds[1] {
            olds[1].push(1);
        }
        let random = t.chance(1, 2);
        let rest = if random {
            gen::data_kind(3, t.seed(), 1 << 20)
        } else {
            let n = t.pick(&[1000u64, 20_000, 150_000]);
            let n = 1 + t.draw(n) as usize;
            if t.chance(1, 6) {
                splitless(&mut t, n)
            } else {
                gen::data(&mut t, n)
            }
        };
        let header = small_or_any_header(&mut t);
        let mut files = Vec::new();
        for o in &olds {
            let content = [&start[..], o, &rest].concat();
            files.push(sound(packed(&mut t, &header, &content)));
        }
        (start.len(), olds, rest.len(), random, files)
    };
    w.note(|| format!("{start} bytes, then {} or {} others, then {rest}{}", olds[0].len(), olds[1].len(), if random { " random ones" } else { "" }));
    w.probe(if random { "random rest" } else { "any rest" });
    let mut seen = Vec::new();
    for (i, s) in files.iter().enumerate() {
        let len = s.truth.content.len();
        let p = {
            let mut t = w.ft.borrow_mut();
            let (mut rd, mut wr) = (calls(&mut t), calls(&mut t));
            for x in rd.iter_mut().chain(&mut wr) {
                if *x != 0 && *x != EINTR_NOW && *x < 300 {
                    *x += 300;
                }
            }
            let output = if i == 1 && t.chance(1, 4) {
                let errno = t.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE]);
                Some((t.draw(len as u64), errno, true, false))
            } else {
                None
            };
            Plan { by_path: t.chance(1, 2), rd, wr, output, ..Default::default() }
        };
        let r = run_tool(w, "zero", &s.file, &p);
        judge_zero(w, s, &p, &r)?;
        let h = *s.truth.header.as_ref().expect("sound header");
        let z = check_zeroed(&r.out, &s.file[..h], &s.truth.content, true).expect("judged already");
        for (k, e) in z.ends.iter().enumerate() {
            let n = e - if k == 0 { 0 } else { z.ends[k - 1] };
            if n < 8192 && *e != len {
                return viol("small block", format!("block {k} holds {n} bytes, and {} follow", len - e));
            }
        }
        seen.push((z, len));
    }
    let ((a, alen), (b, blen)) = (&seen[0], &seen[1]);
    let known = |z: &Zeroed| if z.whole { usize::MAX } else { z.ends.last().copied().unwrap_or(0) };
    // before the change
    let upto = start.min(known(a)).min(known(b));
    let head = |z: &Zeroed, len: usize| z.ends.iter().copied().filter(|e| *e <= upto && *e != len).collect::<Vec<_>>();
    let (ha, hb) = (head(a, *alen), head(b, *blen));
    if !ha.is_empty() {
        w.probe("blocks before the change");
    }
    if ha != hb {
        return viol("blocks before the change differ", format!("the first {upto} bytes are the same, and split at {ha:?} or at {hb:?}"));
    }
    // after it, seen from the end
    let tail = |z: &Zeroed, len: usize| z.ends.iter().map(|e| len - e).filter(|k| *k <= rest).collect::<Vec<_>>();
    let (ta, tb) = (tail(a, *alen), tail(b, *blen));
    let met = ta.iter().position(|k| *k > 0 && tb.contains(k));
    w.note(|| format!("before the end: {ta:?} and {tb:?}"));
    let Some(i) = met else {
        if random && a.whole && b.whole {
            return viol("the change spoils all that follows", format!("{rest} random bytes follow it, and no split is at the same place in both"));
        }
        return Ok(());
    };
    w.probe("the splits met");
    let j = tb.iter().position(|k| *k == ta[i]).expect("common");
    let (xa, xb) = (&ta[i..], &tb[j..]);
    let n = xa.len().min(xb.len());
    if n > 1 {
        w.probe("blocks after they met");
    }
    if xa[..n] != xb[..n] || (xa.len() > n && b.whole) || (xb.len() > n && a.whole) {
        return viol("blocks after the splits met differ", format!("so many bytes before the end: {xa:?} and {xb:?}"));
    }
    Ok(())
}
