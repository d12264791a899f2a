//! The simulated world of one run: virtual clock, event log, fault accounting, sources, sinks and a seeded
//! scheduler that decides which session runs at every I/O point. Everything lives on one OS thread.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::cmp::Reverse;
use std::io::{self, ErrorKind, Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

use crate::mem::Mark;
use crate::rng::{FNV0, fnv, fnv_bytes};
use crate::tape::Tape;

pub const FAULTS: [&str; 18] = [
    "short read",
    "interrupted read",
    "source error (temporary)",
    "source error (lasting)",
    "source cut",
    "stalled read (waits for data)",
    "short write",
    "interrupted write",
    "sink error (temporary)",
    "sink error (lasting)",
    "sink accepts nothing",
    "flush error",
    "preemption",
    "session abandoned",
    "crash losing unsynced bytes",
    "stored bytes corrupted",
    "open failure",
    "allocation failure",
];

#[derive(Clone, Copy)]
#[repr(usize)]
pub enum F {
    ShortRead,
    IntrRead,
    SrcTemp,
    SrcLast,
    SrcCut,
    Stall,
    ShortWrite,
    IntrWrite,
    SinkTemp,
    SinkLast,
    SinkZero,
    Flush,
    Preempt,
    Abandon,
    Crash,
    Corrupt,
    Open,
    Alloc,
}

pub const KINDS: [ErrorKind; 11] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::WriteZero,
];

/// Panic payload of a session that takes more steps than any correct one can.
pub struct Livelock;

enum Y {
    Ready,
    Blocked(Rc<SrcState>),
}

pub struct World {
    pub wl: RefCell<Tape>,
    pub ft: RefCell<Tape>,
    hash: Cell<u64>,
    pub nev: Cell<u64>,
    text: RefCell<Option<Vec<String>>>,
    pub notes: RefCell<Vec<String>>,
    pub clock: Cell<u64>,
    steps: Cell<u64>,
    pub max_steps: Cell<u64>,
    pub counts: RefCell<[u64; FAULTS.len()]>,
    pub probes: RefCell<BTreeMap<&'static str, u64>>,
    cur: Cell<usize>,
    yielder: Cell<*const Yielder<(), Y>>,
    preempt_mean: Cell<u64>,
    preempt_left: Cell<u64>,
    events: RefCell<BinaryHeap<Reverse<(u64, u64, usize)>>>,
    evsrc: RefCell<Vec<(Rc<SrcState>, usize)>>,
    next_id: Cell<usize>,
    trivial: Cell<bool>,
    /// known findings met in this run
    pub known: RefCell<BTreeSet<&'static str>>,
}

#[derive(Debug, Clone)]
pub enum SessEnd {
    Done,
    /// message, location
    Panicked(String, String),
    Livelock,
    Stalled,
    Abandoned,
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}

/// Is this location in the harness itself?
pub fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/sim/")
}

impl World {
    pub fn new(wl: Tape, ft: Tape, verbose: bool) -> Rc<World> {
        Rc::new(World {
            wl: RefCell::new(wl),
            ft: RefCell::new(ft),
            hash: Cell::new(FNV0),
            nev: Cell::new(0),
            text: RefCell::new(verbose.then(Vec::new)),
            notes: RefCell::new(vec![]),
            clock: Cell::new(0),
            steps: Cell::new(0),
            max_steps: Cell::new(50_000_000),
            counts: RefCell::new([0; FAULTS.len()]),
            probes: RefCell::new(BTreeMap::new()),
            cur: Cell::new(usize::MAX),
            yielder: Cell::new(std::ptr::null()),
            preempt_mean: Cell::new(0),
            preempt_left: Cell::new(0),
            events: RefCell::new(BinaryHeap::new()),
            evsrc: RefCell::new(vec![]),
            next_id: Cell::new(0),
            trivial: Cell::new(true),
            known: RefCell::new(BTreeSet::new()),
        })
    }

    pub fn verbose(&self) -> bool {
        self.text.borrow().is_some()
    }

    /// One entry of the event log: only hashed unless the run is being replayed for its text.
    pub fn ev(&self, what: &'static str, a: u64, b: u64) {
        let mut h = self.hash.get();
        h = fnv_bytes(h, what.as_bytes());
        h = fnv(h, a);
        h = fnv(h, b);
        h = fnv(h, self.cur.get() as u64);
        self.hash.set(h);
        self.nev.set(self.nev.get() + 1);
        if let Some(t) = self.text.borrow_mut().as_mut() {
            if t.len() < 20_000 {
                let s = self.cur.get();
                let who = if s == usize::MAX { "-".to_string() } else { s.to_string() };
                t.push(format!("t={} session {who}: {what} {a} {b}", self.clock.get()));
            }
        }
    }

    pub fn hash(&self) -> u64 {
        self.hash.get()
    }

    pub fn hash_bytes(&self, what: &'static str, d: &[u8]) {
        self.ev(what, d.len() as u64, fnv_bytes(FNV0, d));
    }

    pub fn text(&self) -> Vec<String> {
        self.text.borrow().clone().unwrap_or_default()
    }

    /// Human-readable description of the scenario, for replay files.
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose() {
            self.notes.borrow_mut().push(f());
        }
    }

    pub fn fault(&self, f: F) {
        self.counts.borrow_mut()[f as usize] += 1;
        self.trivial.set(false);
    }

    pub fn probe(&self, name: &'static str) {
        *self.probes.borrow_mut().entry(name).or_default() += 1;
    }

    pub fn known(&self, id: &'static str) {
        self.known.borrow_mut().insert(id);
    }

    pub fn nontrivial(&self) -> bool {
        !self.trivial.get()
    }

    pub fn steps(&self) -> u64 {
        self.steps.get()
    }

    fn id(&self) -> usize {
        let i = self.next_id.get();
        self.next_id.set(i + 1);
        i
    }

    fn step(&self) {
        self.clock.set(self.clock.get() + 1);
        let s = self.steps.get() + 1;
        self.steps.set(s);
        if s > self.max_steps.get() {
            std::panic::panic_any(Livelock);
        }
    }

    /// Draws a gap until the next occurrence of something with the given mean gap (0 = never).
    fn gap(&self, mean: u64) -> u64 {
        if mean == 0 {
            return u64::MAX;
        }
        1 + self.ft.borrow_mut().draw(2 * mean)
    }

    fn yield_with(&self, y: Y) {
        let p = self.yielder.get();
        assert!(!p.is_null(), "blocked outside any session");
        let cur = self.cur.get();
        unsafe { (*p).suspend(y) };
        self.yielder.set(p);
        self.cur.set(cur);
    }

    pub fn in_session(&self) -> bool {
        !self.yielder.get().is_null()
    }

    /// Called at every I/O operation: time passes, and the scheduler may take over.
    pub fn io_point(&self) {
        self.step();
        if self.in_session() && self.preempt_mean.get() > 0 {
            let l = self.preempt_left.get();
            if l <= 1 {
                self.preempt_left.set(self.gap(self.preempt_mean.get()));
                self.fault(F::Preempt);
                self.yield_with(Y::Ready);
            } else {
                self.preempt_left.set(l - 1);
            }
        }
    }

    pub fn set_preemption(&self, mean: u64) {
        self.preempt_mean.set(mean);
        self.preempt_left.set(self.gap(mean));
    }

    pub fn arrive_at(&self, time: u64, src: &Rc<SrcState>, upto: usize) {
        let mut v = self.evsrc.borrow_mut();
        v.push((src.clone(), upto));
        self.events.borrow_mut().push(Reverse((time, v.len() as u64, v.len() - 1)));
    }

    fn deliver_due(&self) {
        loop {
            let due = matches!(self.events.borrow().peek(), Some(Reverse((t, _, _))) if *t <= self.clock.get());
            if !due {
                return;
            }
            let Reverse((_, _, i)) = self.events.borrow_mut().pop().unwrap();
            let (s, upto) = self.evsrc.borrow()[i].clone();
            if upto > s.arrived.get() {
                self.ev("arrives at source, up to", s.id as u64, upto as u64);
                s.arrived.set(upto);
            }
        }
    }

    /// Runs the sessions under the seeded scheduler until all are finished or nothing can move.
    /// `quiet` is called whenever every unfinished session waits for data, before time jumps to the next arrival.
    /// `abandon`: session i is dropped at its n-th suspension.
    pub fn run_sessions(
        self: &Rc<World>,
        bodies: Vec<Box<dyn FnOnce()>>,
        abandon: &[Option<u64>],
        quiet: &mut dyn FnMut(),
    ) -> Vec<SessEnd> {
        struct S {
            co: Option<Coroutine<(), Y, ()>>,
            blocked: Option<Rc<SrcState>>,
            resumes: u64,
            end: Option<SessEnd>,
        }
        let mut ss: Vec<S> = Vec::new();
        for body in bodies {
            let stack = STACKS
                .with(|s| s.borrow_mut().pop())
                .unwrap_or_else(|| DefaultStack::new(16 << 20).expect("stack"));
            let w = self.clone();
            let co = Coroutine::with_stack(stack, move |y: &Yielder<(), Y>, ()| {
                w.yielder.set(y as *const _);
                body();
            });
            ss.push(S { co: Some(co), blocked: None, resumes: 0, end: None });
        }
        loop {
            self.deliver_due();
            let ready: Vec<usize> = (0..ss.len())
                .filter(|i| {
                    let s = &ss[*i];
                    s.end.is_none() && s.blocked.as_ref().is_none_or(|b| b.readable())
                })
                .collect();
            if ready.is_empty() {
                if ss.iter().all(|s| s.end.is_some()) {
                    break;
                }
                quiet();
                let next = self.events.borrow().peek().map(|Reverse((t, _, _))| *t);
                match next {
                    Some(t) => {
                        self.clock.set(t.max(self.clock.get()));
                        self.ev("time jumps to", self.clock.get(), 0);
                        continue;
                    }
                    None => {
                        for s in &mut ss {
                            if s.end.is_none() {
                                s.end = Some(SessEnd::Stalled);
                                self.drop_co(s.co.take().unwrap());
                            }
                        }
                        break;
                    }
                }
            }
            let i = if ready.len() == 1 {
                ready[0]
            } else {
                ready[self.ft.borrow_mut().draw(ready.len() as u64) as usize]
            };
            let s = &mut ss[i];
            s.blocked = None;
            self.cur.set(i);
            self.ev("runs", i as u64, s.resumes);
            let mut co = s.co.take().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| co.resume(())));
            self.yielder.set(std::ptr::null());
            self.cur.set(usize::MAX);
            s.resumes += 1;
            match r {
                Ok(CoroutineResult::Yield(y)) => {
                    if let Some(Some(n)) = abandon.get(i) {
                        if s.resumes > *n {
                            self.fault(F::Abandon);
                            self.ev("abandoned", i as u64, s.resumes);
                            s.end = Some(SessEnd::Abandoned);
                            self.drop_co(co);
                            continue;
                        }
                    }
                    if let Y::Blocked(b) = y {
                        s.blocked = Some(b);
                    }
                    s.co = Some(co);
                }
                Ok(CoroutineResult::Return(())) => {
                    s.end = Some(SessEnd::Done);
                    STACKS.with(|st| st.borrow_mut().push(co.into_stack()));
                }
                Err(payload) => {
                    s.end = Some(if payload.is::<Livelock>() {
                        SessEnd::Livelock
                    } else {
                        let (m, l) = take_panic();
                        SessEnd::Panicked(m, l)
                    });
                    if co.done() {
                        STACKS.with(|st| st.borrow_mut().push(co.into_stack()));
                    }
                }
            }
        }
        ss.into_iter().map(|s| s.end.unwrap()).collect()
    }

    fn drop_co(&self, mut co: Coroutine<(), Y, ()>) {
        // unwinds the suspended session, running its destructors
        let r = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
        self.yielder.set(std::ptr::null());
        if r.is_ok() && co.done() {
            STACKS.with(|st| st.borrow_mut().push(co.into_stack()));
        } else {
            std::mem::forget(co);
        }
    }
}

// ---------------------------------------------------------------------------------------------- sources

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SrcEnd {
    /// everything, then end of file
    Whole,
    /// end of file at this offset
    Cut(usize),
    /// this error at this offset; lasting or once
    Error { at: usize, kind: ErrorKind, lasting: bool },
}

pub struct SrcState {
    pub id: usize,
    pub pos: Cell<usize>,
    pub arrived: Cell<usize>,
    len: usize,
    end: SrcEnd,
    pub fired: Cell<u64>,
    pub reads: Cell<u64>,
    pub eofs: Cell<u64>,
    chunk: u64,
    intr_mean: u64,
    intr_left: Cell<u64>,
    /// leaves rubbish in the part of the buffer it does not fill
    dirty: bool,
}

impl SrcState {
    fn readable(&self) -> bool {
        self.pos.get() < self.arrived.get() || self.arrived.get() >= self.len
    }
}

/// Cloning gives another handle on the same source.
#[derive(Clone)]
pub struct Source {
    w: Rc<World>,
    data: Rc<Vec<u8>>,
    pub st: Rc<SrcState>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Delivery {
    /// everything at once
    Plain,
    /// short and interrupted reads
    Rough,
    /// in addition data arrives in packets over time
    Live,
}

impl Source {
    /// Draws how the source behaves from the fault tape.
    pub fn new(w: &Rc<World>, data: Rc<Vec<u8>>, end: SrcEnd, d: Delivery) -> Source {
        let (chunk, intr_mean, dirty) = if d == Delivery::Plain {
            (0, 0, false)
        } else {
            let mut t = w.ft.borrow_mut();
            let chunk = t.pick(&[0u64, 1, 2, 7, 64, 1000, 5000]);
            let intr = t.pick(&[0u64, 0, 2, 10, 100, 2000]);
            (chunk, intr, t.chance(1, 4))
        };
        let len = data.len();
        let st = Rc::new(SrcState {
            id: w.id(),
            pos: Cell::new(0),
            arrived: Cell::new(len),
            len,
            end,
            fired: Cell::new(0),
            reads: Cell::new(0),
            eofs: Cell::new(0),
            chunk,
            intr_mean,
            intr_left: Cell::new(w.gap(intr_mean)),
            dirty,
        });
        if d == Delivery::Live && len > 0 {
            st.arrived.set(0);
            let n = w.ft.borrow_mut().range(1, 8);
            let mut cuts: Vec<usize> =
                (1..n).map(|_| w.ft.borrow_mut().draw(len as u64 + 1) as usize).collect();
            cuts.push(len);
            cuts.sort_unstable();
            let mut time = w.clock.get();
            for c in cuts {
                time += w.ft.borrow_mut().pick(&[0u64, 1, 10, 1000, 60_000]);
                w.arrive_at(time, &st, c);
            }
        }
        w.note(|| format!("source {}: {len} bytes, end {end:?}, delivery {d:?} chunk {chunk} interrupt gap {intr_mean}", st.id));
        Source { w: w.clone(), data, st }
    }

    pub fn with_arrivals(w: &Rc<World>, data: Rc<Vec<u8>>, stops: &[(u64, usize)]) -> Source {
        let s = Source::new(w, data, SrcEnd::Whole, Delivery::Rough);
        s.st.arrived.set(0);
        let mut time = w.clock.get();
        for (delay, upto) in stops {
            time += delay;
            w.arrive_at(time, &s.st, *upto);
        }
        s
    }

    pub fn pos(&self) -> usize {
        self.st.pos.get()
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _own = Mark::outside();
        let st = &self.st;
        st.reads.set(st.reads.get() + 1);
        self.w.io_point();
        if buf.is_empty() {
            return Ok(0);
        }
        if st.intr_mean > 0 {
            let l = st.intr_left.get();
            if l <= 1 {
                st.intr_left.set(self.w.gap(st.intr_mean));
                self.w.fault(F::IntrRead);
                self.w.ev("read interrupted", st.id as u64, st.pos.get() as u64);
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            st.intr_left.set(l - 1);
        }
        loop {
            let pos = st.pos.get();
            let mut limit = st.len;
            match st.end {
                SrcEnd::Whole => {}
                SrcEnd::Cut(at) => limit = limit.min(at),
                SrcEnd::Error { at, kind, lasting } => {
                    if pos == at && (lasting || st.fired.get() == 0) {
                        st.fired.set(st.fired.get() + 1);
                        self.w.fault(if lasting { F::SrcLast } else { F::SrcTemp });
                        self.w.ev("read fails", st.id as u64, pos as u64);
                        return Err(io::Error::new(kind, "simulated source failure"));
                    }
                    if pos < at {
                        limit = limit.min(at);
                    }
                }
            }
            if pos >= limit {
                if limit < st.len && matches!(st.end, SrcEnd::Cut(_)) {
                    self.w.fault(F::SrcCut);
                    st.fired.set(st.fired.get() + 1);
                }
                st.eofs.set(st.eofs.get() + 1);
                self.w.ev("read gives end of file", st.id as u64, pos as u64);
                return Ok(0);
            }
            let avail = limit.min(st.arrived.get());
            if pos >= avail {
                self.w.fault(F::Stall);
                self.w.ev("read waits", st.id as u64, pos as u64);
                self.w.yield_with(Y::Blocked(self.st.clone()));
                continue;
            }
            let mut n = buf.len().min(avail - pos);
            if st.chunk > 0 && n > 1 {
                let k = 1 + self.w.ft.borrow_mut().draw((st.chunk).min(n as u64)) as usize;
                n = n.min(k);
            }
            if n < buf.len() && n < limit - pos {
                self.w.fault(F::ShortRead);
            }
            buf[..n].copy_from_slice(&self.data[pos..pos + n]);
            if st.dirty && n < buf.len() {
                self.w.probe("dirty buffer beyond the count");
                for b in buf[n..].iter_mut().take(32) {
                    *b = 0xee;
                }
            }
            st.pos.set(pos + n);
            self.w.ev("read", (st.id as u64) << 32 | buf.len() as u64, (pos as u64) << 32 | n as u64);
            return Ok(n);
        }
    }

    /// fills several buffers at once, as a socket or file does
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        let _own = Mark::outside();
        let mut all = vec![0u8; bufs.iter().map(|b| b.len()).sum()];
        let n = self.read(&mut all)?;
        let mut at = 0;
        for b in bufs {
            let k = b.len().min(all.len() - at);
            b[..k].copy_from_slice(&all[at..at + k]);
            at += k;
        }
        Ok(n)
    }
}

// ------------------------------------------------------------------------------------------------ sinks

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SinkFault {
    None,
    /// at this many accepted bytes
    Error { at: usize, kind: ErrorKind, lasting: bool, reject: bool },
    /// accepts nothing any more
    Zero { at: usize },
}

pub struct SinkState {
    pub id: usize,
    pub got: RefCell<Vec<u8>>,
    pub fired: Cell<u64>,
    pub flushes: Cell<u64>,
    fault: SinkFault,
    chunk: u64,
    intr_mean: u64,
    intr_left: Cell<u64>,
    flush_fail: Option<ErrorKind>,
}

#[derive(Clone)]
pub struct Sink {
    w: Rc<World>,
    pub st: Rc<SinkState>,
}

impl Sink {
    pub fn new(w: &Rc<World>, fault: SinkFault, d: Delivery) -> Sink {
        Sink::with_flush(w, fault, d, None)
    }

    pub fn with_flush(w: &Rc<World>, fault: SinkFault, d: Delivery, flush_fail: Option<ErrorKind>) -> Sink {
        let (chunk, intr_mean) = if d == Delivery::Plain {
            (0, 0)
        } else {
            let mut t = w.ft.borrow_mut();
            (t.pick(&[0u64, 1, 2, 7, 64, 1000]), t.pick(&[0u64, 0, 2, 10, 100, 2000]))
        };
        let st = Rc::new(SinkState {
            id: w.id(),
            got: RefCell::new(vec![]),
            fired: Cell::new(0),
            flushes: Cell::new(0),
            fault,
            chunk,
            intr_mean,
            intr_left: Cell::new(w.gap(intr_mean)),
            flush_fail,
        });
        w.note(|| format!("sink {}: fault {fault:?}, chunk {chunk}, interrupt gap {intr_mean}", st.id));
        Sink { w: w.clone(), st }
    }

    pub fn got(&self) -> Vec<u8> {
        self.st.got.borrow().clone()
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _own = Mark::outside();
        let st = &self.st;
        self.w.io_point();
        if buf.is_empty() {
            return Ok(0);
        }
        if st.intr_mean > 0 {
            let l = st.intr_left.get();
            if l <= 1 {
                st.intr_left.set(self.w.gap(st.intr_mean));
                self.w.fault(F::IntrWrite);
                self.w.ev("write interrupted", st.id as u64, buf.len() as u64);
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            st.intr_left.set(l - 1);
        }
        let pos = st.got.borrow().len();
        let mut n = buf.len();
        match st.fault {
            SinkFault::None => {}
            SinkFault::Error { at, kind, lasting, reject } => {
                if (lasting || st.fired.get() == 0) && (pos >= at || (reject && pos + n > at)) {
                    st.fired.set(st.fired.get() + 1);
                    self.w.fault(if lasting { F::SinkLast } else { F::SinkTemp });
                    self.w.ev("write fails", st.id as u64, pos as u64);
                    return Err(io::Error::new(kind, "simulated sink failure"));
                }
                if pos < at {
                    n = n.min(at - pos);
                }
            }
            SinkFault::Zero { at } => {
                if pos >= at {
                    st.fired.set(st.fired.get() + 1);
                    self.w.fault(F::SinkZero);
                    self.w.ev("write accepts nothing", st.id as u64, pos as u64);
                    return Ok(0);
                }
                n = n.min(at - pos);
            }
        }
        if st.chunk > 0 && n > 1 {
            let k = 1 + self.w.ft.borrow_mut().draw(st.chunk.min(n as u64)) as usize;
            n = n.min(k);
        }
        if n < buf.len() {
            self.w.fault(F::ShortWrite);
        }
        st.got.borrow_mut().extend_from_slice(&buf[..n]);
        self.w.ev("write", (st.id as u64) << 32 | buf.len() as u64, (pos as u64) << 32 | n as u64);
        Ok(n)
    }

    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let _own = Mark::outside();
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }

    fn flush(&mut self) -> io::Result<()> {
        let _own = Mark::outside();
        self.w.io_point();
        self.st.flushes.set(self.st.flushes.get() + 1);
        if let Some(kind) = self.st.flush_fail {
            self.w.fault(F::Flush);
            self.w.ev("flush fails", self.st.id as u64, 0);
            self.st.fired.set(self.st.fired.get() + 1);
            return Err(io::Error::new(kind, "simulated flush failure"));
        }
        Ok(())
    }
}
