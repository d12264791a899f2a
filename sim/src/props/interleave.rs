//! C11: several sessions of different kinds, interleaved, nested, stalled, failing and abandoned.

use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{mpsc, Arc, Mutex};

use librezip::filter::{FilterRead, FilterWrite};
use librezip::{serialise_trace, Block, CircularBuffer};

use super::metadata::{capture, make_refs, restore, Cfg};
use super::streams::footer;
use super::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    Decompress,
    WriteBack,
    Trace,
    Hash,
    Header,
    TraceBytes,
}

/// All a session needs, and nothing that another session has.
#[derive(Clone)]
struct Job {
    what: What,
    file: Rc<Vec<u8>>,
    cfg: Cfg,
    /// None: not known from the reference alone
    want: Option<Rc<Vec<u8>>>,
}

/// What the session produced: bytes and how it ended.
#[derive(Clone, PartialEq, Eq)]
struct Made {
    out: Vec<u8>,
    end: String,
}

fn job(t: &mut Tape, small: bool) -> (Job, String) {
    let what = [What::Decompress, What::WriteBack, What::Trace, What::Hash, What::Header, What::TraceBytes]
        [t.weighted(&[4, 4, 3, 2, 2, 2])];
    let cfg = Cfg::draw(t);
    let mut desc = format!("{what:?}");
    let (file, want) = match what {
        What::Header => {
            let h = gen::header(t);
            desc += &format!(" {}", h.desc);
            (h.bytes.clone(), Some(h.bytes))
        }
        What::TraceBytes => {
            // pairs as three bytes each; turned into references by the parser
            let n = t.draw(if small { 6 } else { 40 });
            let mut b = Vec::new();
            for _ in 0..n {
                let d = 1 + t.draw(32768) as u16;
                b.extend_from_slice(&d.to_le_bytes());
                b.push(t.draw(256) as u8);
            }
            (b, None)
        }
        _ => {
            let max_out = if small { 200 } else { t.pick(&[200usize, 800, 2500]) };
            let p = gen::StreamParams { max_out, ..Default::default() };
            let s = gen::stream(t, &p);
            let r = ref_parse(&s.bytes);
            assert!(r.clean(), "the generator made an invalid stream");
            let data = r.inflate().0;
            let mut f = if small { vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3] } else { gen::header(t).bytes };
            f.extend_from_slice(&s.bytes);
            f.extend_from_slice(&footer(&data));
            desc += &format!(" {}", s.desc.join(" | "));
            let want = match what {
                What::Decompress => data,
                What::Hash => {
                    use sha2::Digest;
                    let mut h = sha2::Sha512::default();
                    h.update(&f);
                    let mut v = h.finalize().to_vec();
                    let mut g = sha2::Sha512::default();
                    g.update(&data);
                    v.extend_from_slice(&g.finalize());
                    v
                }
                _ => f.clone(),
            };
            (f, Some(want))
        }
    };
    (Job { what, file: Rc::new(file), cfg, want: want.map(Rc::new) }, desc)
}

/// Runs the session on the given source and sink; every byte of its result goes into `out`.
fn perform<R: Read, W: Write>(w: &Rc<World>, j: &Job, mut src: R, mut sink: W) -> (Vec<u8>, Result<(), String>) {
    let mut out: Vec<u8> = Vec::new();
    let r = perform_inner(w, j, &mut src, &mut sink, &mut out);
    (out, r)
}

fn s<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

fn perform_inner<R: Read, W: Write>(w: &Rc<World>, j: &Job, src: &mut R, sink: &mut W, out: &mut Vec<u8>) -> Result<(), String> {
    match j.what {
        What::Header => {
            let h = librezip::gzip::discard_header(src).map_err(s)?;
            sink.write_all(&h).map_err(s)
        }
        What::Decompress => {
            librezip::gzip::discard_header(&mut *src).map_err(s)?;
            let mut window = CircularBuffer::new();
            for b in librezip::parse_deflate(&mut *src) {
                librezip::decompressed_block(&mut *sink, &mut window, &b.map_err(s)?).map_err(s)?;
            }
            Ok(())
        }
        What::WriteBack => {
            let h = librezip::gzip::discard_header(&mut *src).map_err(s)?;
            sink.write_all(&h).map_err(s)?;
            {
                let mut o = librezip::BitWriter::new(&mut *sink);
                let mut held: Option<Block> = None;
                let mut it = librezip::parse_deflate(&mut *src);
                loop {
                    let next = it.next().transpose().map_err(s)?;
                    if let Some(b) = held.take() {
                        o.write_bit(next.is_none()).map_err(s)?;
                        librezip::compressed_block(&mut o, &b).map_err(s)?;
                    }
                    match next {
                        Some(b) => held = Some(b),
                        None => break,
                    }
                }
                o.align().map_err(s)?;
                o.into_inner();
            }
            let mut f = Vec::new();
            src.read_to_end(&mut f).map_err(s)?;
            sink.write_all(&f).map_err(s)
        }
        What::Trace => {
            // capture and restore block by block, writing back what was restored
            let h = librezip::gzip::discard_header(&mut *src).map_err(s)?;
            sink.write_all(&h).map_err(s)?;
            {
                let mut o = librezip::BitWriter::new(&mut *sink);
                let mut window = CircularBuffer::new();
                let mut it = librezip::parse_deflate(&mut *src).peekable();
                while let Some(b) = it.next() {
                    let b = b.map_err(s)?;
                    let last = it.peek().is_none();
                    let preroll = window.vec();
                    let mut data = Vec::new();
                    librezip::decompressed_block(&mut data, &mut window, &b).map_err(s)?;
                    let b = match b {
                        Block::Uncompressed(d) => Block::Uncompressed(d),
                        Block::FixedHuffman(c) => {
                            let tr = capture(j.cfg, true, &preroll, &data, &c);
                            w.io_point();
                            let tr = serialise_trace::read(&serialise_trace::write(&tr)[..]).map_err(s)?;
                            w.io_point();
                            Block::FixedHuffman(restore(j.cfg, &preroll, &data, &tr))
                        }
                        Block::DynamicHuffman { trees, codes } => {
                            let tr = capture(j.cfg, true, &preroll, &data, &codes);
                            w.io_point();
                            let tr = serialise_trace::read(&serialise_trace::write(&tr)[..]).map_err(s)?;
                            w.io_point();
                            Block::DynamicHuffman { trees, codes: restore(j.cfg, &preroll, &data, &tr) }
                        }
                    };
                    o.write_bit(last).map_err(s)?;
                    librezip::compressed_block(&mut o, &b).map_err(s)?;
                }
                o.align().map_err(s)?;
                o.into_inner();
            }
            let mut f = Vec::new();
            src.read_to_end(&mut f).map_err(s)?;
            sink.write_all(&f).map_err(s)
        }
        What::Hash => {
            // digest of the file on the way in, digest of the data on the way out
            let mut inp = FilterRead::new(&mut *src);
            let mut outp = FilterWrite::new(io::sink());
            librezip::gzip::discard_header(&mut inp).map_err(s)?;
            let mut window = CircularBuffer::new();
            for b in librezip::parse_deflate(&mut inp) {
                librezip::decompressed_block(&mut outp, &mut window, &b.map_err(s)?).map_err(s)?;
            }
            io::copy(&mut inp, &mut io::sink()).map_err(s)?;
            out.extend_from_slice(&inp.hash());
            out.extend_from_slice(&outp.hash());
            sink.write_all(out).map_err(s)?;
            out.clear();
            Ok(())
        }
        What::TraceBytes => {
            let pairs: Vec<(u16, u16)> =
                j.file.chunks_exact(3).map(|c| (u16::from_le_bytes([c[0], c[1]]), u16::from(c[2]) + 3)).collect();
            let mut tr = Vec::new();
            for (i, r) in make_refs(&pairs).into_iter().enumerate() {
                tr.push(librezip::Trace::Actually(r));
                for _ in 0..i % 7 {
                    tr.push(librezip::Trace::Correct);
                }
                tr.push(librezip::Trace::ActuallyLiteral);
                if i % 5 == 0 {
                    w.io_point();
                }
            }
            sink.write_all(&serialise_trace::write(&tr)).map_err(s)?;
            let back = serialise_trace::read(YieldingReader(w, &serialise_trace::write(&tr))).map_err(s)?;
            sink.write_all(format!("{back:?}").as_bytes()).map_err(s)?;
            if back != tr {
                return Err("trace changed".into());
            }
            Ok(())
        }
    }
}

struct YieldingReader<'a>(&'a Rc<World>, &'a [u8]);

impl Read for YieldingReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.io_point();
        let n = buf.len().min(self.1.len()).min(5);
        buf[..n].copy_from_slice(&self.1[..n]);
        self.1 = &self.1[n..];
        Ok(n)
    }
}

/// A stream that runs something else when a given offset is reached.
struct Nest<T> {
    inner: T,
    at: usize,
    pos: usize,
    run: Option<Box<dyn FnOnce()>>,
}

impl<T> Nest<T> {
    fn poke(&mut self) {
        if self.pos >= self.at {
            if let Some(f) = self.run.take() {
                f();
            }
        }
    }
}

impl<T: Read> Read for Nest<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.poke();
        let n = self.inner.read(buf)?;
        self.pos += n;
        Ok(n)
    }
}

impl<T: Write> Write for Nest<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.poke();
        let n = self.inner.write(buf)?;
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}

fn solo(w: &Rc<World>, j: &Job, end: SrcEnd) -> Result<Made, Viol> {
    let src = Source::new(w, j.file.clone(), end, Delivery::Plain);
    let sink = Sink::new(w, SinkFault::None, Delivery::Plain);
    let (j2, s2, w2) = (j.clone(), sink.clone(), w.clone());
    let (mut out, r) = session(w, move || perform(&w2, &j2, src, s2))?;
    let mut all = sink.got();
    all.append(&mut out);
    let end = match r {
        Ok(()) => "ok".to_string(),
        Err(_) => "error".to_string(),
    };
    Ok(Made { out: all, end })
}

// ---------------------------------------------------------------------------------------------- threads

/// A source of its own, usable from any thread, that hands out what it has in pieces.
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    most: usize,
    fail_at: usize,
}

#[derive(Clone)]
struct SharedSource(Arc<Mutex<Pieces>>);

impl Read for SharedSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut p = self.0.lock().expect("not poisoned");
        if p.pos >= p.fail_at && !buf.is_empty() {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        let n = buf.len().min(p.data.len().min(p.fail_at) - p.pos).min(p.most);
        buf[..n].copy_from_slice(&p.data[p.pos..p.pos + n]);
        p.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Default)]
struct SharedSink(Arc<Mutex<Vec<u8>>>);

impl Write for SharedSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.lock().expect("not poisoned").extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A session in steps of one block each; true when it is finished.
type Step = Box<dyn FnMut() -> Result<bool, String>>;

fn steps(j: &Job, most: usize, fail_at: usize, sink: SharedSink) -> Step {
    let src = SharedSource(Arc::new(Mutex::new(Pieces { data: j.file.to_vec(), pos: 0, most, fail_at })));
    let rest = |mut src: SharedSource, mut sink: SharedSink| {
        let mut f = Vec::new();
        src.read_to_end(&mut f).map_err(s)?;
        sink.write_all(&f).map_err(s)?;
        Ok(true)
    };
    let mut head = true;
    let mut header = move |mut from: &mut dyn Read, into: Option<&mut SharedSink>| {
        if head {
            head = false;
            let h = librezip::gzip::discard_header(&mut from).map_err(s)?;
            if let Some(into) = into {
                into.write_all(&h).map_err(s)?;
            }
            return Ok(true);
        }
        Ok::<bool, String>(false)
    };
    match j.what {
        What::Header | What::TraceBytes => {
            let mut sink = sink;
            let mut src = src;
            Box::new(move || {
                let h = librezip::gzip::discard_header(&mut src).map_err(s)?;
                sink.write_all(&h).map_err(s)?;
                Ok(true)
            })
        }
        What::Decompress => {
            let mut it = librezip::parse_deflate(src.clone());
            let mut window = CircularBuffer::new();
            let (mut src, mut sink) = (src, sink);
            Box::new(move || {
                if header(&mut src, None)? {
                    return Ok(false);
                }
                match it.next() {
                    None => Ok(true),
                    Some(b) => {
                        librezip::decompressed_block(&mut sink, &mut window, &b.map_err(s)?).map_err(s)?;
                        Ok(false)
                    }
                }
            })
        }
        What::Hash => {
            let inp = Rc::new(RefCell::new(FilterRead::new(src)));
            struct Through(Rc<RefCell<FilterRead<SharedSource>>>);
            impl Read for Through {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    self.0.borrow_mut().read(buf)
                }
            }
            let mut it = Some(librezip::parse_deflate(Through(inp.clone())));
            let mut window = CircularBuffer::new();
            let mut outp = Some(FilterWrite::new(io::sink()));
            let mut inp = Some(inp);
            let mut sink = sink;
            Box::new(move || {
                if header(&mut Through(inp.clone().expect("not done")), None)? {
                    return Ok(false);
                }
                if let Some(b) = it.as_mut().expect("not done").next() {
                    librezip::decompressed_block(outp.as_mut().expect("not done"), &mut window, &b.map_err(s)?).map_err(s)?;
                    return Ok(false);
                }
                it = None;
                let mut inp = Rc::try_unwrap(inp.take().expect("not done")).ok().expect("only one").into_inner();
                io::copy(&mut inp, &mut io::sink()).map_err(s)?;
                sink.write_all(&inp.hash()).map_err(s)?;
                sink.write_all(&outp.take().expect("not done").hash()).map_err(s)?;
                Ok(true)
            })
        }
        What::WriteBack | What::Trace => {
            let through = j.what == What::Trace;
            let cfg = j.cfg;
            let mut it = librezip::parse_deflate(src.clone());
            let mut window = CircularBuffer::new();
            let mut o = librezip::BitWriter::new(sink.clone());
            let mut held: Option<Block> = None;
            let (mut src, mut sink) = (src, sink);
            Box::new(move || {
                if header(&mut src, Some(&mut sink))? {
                    return Ok(false);
                }
                let next = it.next().transpose().map_err(s)?;
                if let Some(b) = held.take() {
                    o.write_bit(next.is_none()).map_err(s)?;
                    librezip::compressed_block(&mut o, &b).map_err(s)?;
                }
                let Some(b) = next else {
                    o.align().map_err(s)?;
                    return rest(src.clone(), sink.clone());
                };
                if !through {
                    held = Some(b);
                    return Ok(false);
                }
                let preroll = window.vec();
                let mut data = Vec::new();
                librezip::decompressed_block(&mut data, &mut window, &b).map_err(s)?;
                let again = |codes: &[librezip::Code]| {
                    let tr = capture(cfg, true, &preroll, &data, codes);
                    serialise_trace::read(&serialise_trace::write(&tr)[..]).map_err(s).map(|tr| restore(cfg, &preroll, &data, &tr))
                };
                held = Some(match b {
                    Block::Uncompressed(d) => Block::Uncompressed(d),
                    Block::FixedHuffman(c) => Block::FixedHuffman(again(&c)?),
                    Block::DynamicHuffman { trees, codes } => Block::DynamicHuffman { trees, codes: again(&codes)? },
                });
                Ok(false)
            })
        }
    }
}

/// What is handed from thread to thread. Only one thread runs at any time.
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}

impl<T> Handed<T> {
    fn take(self) -> T {
        self.0
    }
}

type Task = Box<dyn FnOnce() + Send>;

thread_local! {
    static HELPERS: [mpsc::Sender<Task>; 2] = std::array::from_fn(|_| {
        let (tx, rx) = mpsc::channel::<Task>();
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            for task in rx {
                task();
            }
        }).expect("thread");
        tx
    });
}

/// Runs it on one of the threads (this one, two lasting ones, a new one) and waits for it.
fn on_thread<T: 'static>(k: usize, f: impl FnOnce() -> T + 'static) -> Result<T, (String, String)> {
    let caught = |f: Handed<_>| {
        let f = Handed::take(f);
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| crate::world::take_panic())
    };
    if k == 0 {
        return caught(Handed(f));
    }
    let (tx, rx) = mpsc::channel();
    let f = Handed(f);
    let task: Task = Box::new(move || {
        let r = caught(f);
        let _ = tx.send(Handed(r));
    });
    if k < 3 {
        HELPERS.with(|h| h[k - 1].send(task).expect("helper lives"));
        rx.recv().expect("helper lives").take()
    } else {
        let t = std::thread::Builder::new().stack_size(16 << 20).spawn(task).expect("thread");
        let r = rx.recv().expect("thread answers").take();
        t.join().expect("thread ends");
        r
    }
}

/// Sessions whose blocks are worked on by different threads, one at a time.
fn c11_threads(w: &Rc<World>) -> Res {
    w.probe("threads");
    let jobs: Vec<(Job, usize, usize)> = {
        let mut t = w.wl.borrow_mut();
        let n = 1 + t.draw(3) as usize;
        let mut jobs = Vec::new();
        for i in 0..n {
            let (mut j, d) = job(&mut t, false);
            if j.what == What::TraceBytes {
                let h = gen::header(&mut t).bytes;
                j = Job { what: What::Header, file: Rc::new(h.clone()), cfg: j.cfg, want: Some(Rc::new(h)) };
            }
            w.note(|| format!("session {i}: {d}, {} bytes in, hex {}", j.file.len(), hex(&j.file, 200)));
            let mut f = w.ft.borrow_mut();
            let most = f.pick(&[100_000usize, 1, 7, 300]);
            let fail_at = if f.chance(1, 8) { f.draw(j.file.len() as u64 + 1) as usize } else { usize::MAX };
            jobs.push((j, most, fail_at));
        }
        jobs
    };
    // alone, on this thread
    let mut alone = Vec::new();
    for (j, most, fail_at) in &jobs {
        let sink = SharedSink::default();
        let (j2, s2, most, fail_at) = (j.clone(), sink.clone(), *most, *fail_at);
        let end = on_thread(0, move || {
            let mut step = steps(&j2, most, fail_at, s2);
            loop {
                match step() {
                    Ok(false) => {}
                    Ok(true) => return "ok",
                    Err(_) => return "error",
                }
            }
        });
        let end = end.or_else(|(m, l)| panicked(&m, &l).map(|()| ""))?;
        let out = std::mem::take(&mut *sink.0.lock().expect("not poisoned"));
        if let (usize::MAX, Some(x)) = (fail_at, &j.want) {
            if end != "ok" || out != **x {
                return viol("wrong even alone", format!("{:?}: {} ({end})", j.what, diff(&out, x)));
            }
        }
        alone.push((out, end));
    }
    struct Run {
        step: Option<Step>,
        sink: SharedSink,
        left: u64,
        last: usize,
        end: &'static str,
    }
    let mut runs: Vec<Run> = Vec::new();
    for (j, most, fail_at) in &jobs {
        let sink = SharedSink::default();
        let left = {
            let mut t = w.ft.borrow_mut();
            if t.chance(1, 8) { t.draw(6) } else { u64::MAX }
        };
        runs.push(Run { step: Some(steps(j, *most, *fail_at, sink.clone())), sink, left, last: 0, end: "" });
    }
    loop {
        let open: Vec<usize> = (0..runs.len()).filter(|i| runs[*i].step.is_some()).collect();
        if open.is_empty() {
            break;
        }
        let (i, k) = {
            let mut t = w.ft.borrow_mut();
            (open[t.draw(open.len() as u64) as usize], t.weighted(&[2, 2, 2, 1]))
        };
        let r = &mut runs[i];
        if r.last != k {
            w.fault(F::Preempt);
            w.probe("moved to another thread");
        }
        r.last = k;
        let mut step = r.step.take().expect("open");
        if r.left == 0 {
            w.fault(F::Abandon);
            r.end = "abandoned";
            on_thread(k, move || drop(step)).or_else(|(m, l)| panicked(&m, &l))?;
            continue;
        }
        r.left -= 1;
        let (step, end) = on_thread(k, move || {
            let end = step();
            let step = if let Ok(false) = end { Some(step) } else { None };
            (step, end)
        })
        .or_else(|(m, l)| panicked(&m, &l).map(|()| (None, Ok(true))))?;
        r.step = step;
        r.end = match end {
            Ok(_) => "ok",
            Err(_) => "error",
        };
        w.ev("a step of", i as u64, k as u64);
    }
    for (i, (r, (out, end))) in runs.iter().zip(&alone).enumerate() {
        let got = r.sink.0.lock().expect("not poisoned");
        w.hash_bytes("result", &got);
        let fine = if r.end == "abandoned" { is_prefix(&got, out) } else { *got == *out && r.end == *end };
        if !fine {
            return viol(
                "differs from the session alone",
                format!("session {i} ({:?}), on several threads: {} ({}, alone {end})", jobs[i].0.what, diff(&got, out), r.end),
            );
        }
    }
    Ok(())
}

pub fn c11(w: &Rc<World>) -> Res {
    if w.wl.borrow_mut().chance(1, 5) {
        return c11_threads(w);
    }
    let (jobs, inner) = {
        let mut t = w.wl.borrow_mut();
        let n = 2 + t.draw(4) as usize;
        let mut jobs = Vec::new();
        for i in 0..n {
            let (j, d) = job(&mut t, false);
            w.note(|| format!("session {i}: {d}, {} bytes in, hex {}", j.file.len(), hex(&j.file, 200)));
            jobs.push(j);
        }
        // sessions to be run inside others
        let mut inner = Vec::new();
        for _ in 0..t.weighted(&[4, 2, 1]) {
            let (j, d) = job(&mut t, true);
            w.note(|| format!("nested session: {d}"));
            inner.push(j);
        }
        (jobs, inner)
    };
    for j in jobs.iter().chain(&inner) {
        w.probe(match j.what {
            What::Decompress => "decompress",
            What::WriteBack => "write back",
            What::Trace => "trace",
            What::Hash => "hash",
            What::Header => "header",
            What::TraceBytes => "trace bytes",
        });
        if j.what == What::Trace {
            w.probe("restore");
        }
    }
    let total: usize = jobs.iter().chain(&inner).map(|j| j.file.len()).sum();
    w.max_steps.set(20_000_000 + 64 * total as u64);
    w.set_preemption(0);
    // some sources fail or never deliver everything
    let mut ends = Vec::new();
    for j in &jobs {
        let e = if !j.file.is_empty() && w.ft.borrow_mut().chance(1, 6) {
            w.probe("failing");
            let at = offset(w, j.file.len(), &[]);
            let kind = pick_kind(w);
            SrcEnd::Error { at, kind, lasting: true }
        } else {
            SrcEnd::Whole
        };
        ends.push(e);
    }
    // alone
    let mut alone = Vec::new();
    for (j, e) in jobs.iter().zip(&ends) {
        alone.push(solo(w, j, *e)?);
    }
    let mut alone_inner = Vec::new();
    for j in &inner {
        alone_inner.push(solo(w, j, SrcEnd::Whole)?);
    }
    for (j, m, whole) in jobs
        .iter()
        .zip(&alone)
        .zip(&ends)
        .map(|((j, m), e)| (j, m, *e == SrcEnd::Whole))
        .chain(inner.iter().zip(&alone_inner).map(|(j, m)| (j, m, true)))
    {
        if let (true, Some(x)) = (whole, &j.want) {
            if m.end != "ok" || m.out != **x {
                return viol("wrong even alone", format!("{:?}: {} ({})", j.what, diff(&m.out, x), m.end));
            }
        }
    }
    // together
    let mean = w.ft.borrow_mut().pick(&[2u64, 5, 30, 200]);
    w.set_preemption(mean);
    let n = jobs.len();
    let results: Rc<RefCell<Vec<Option<(Vec<u8>, String)>>>> = Rc::new(RefCell::new(vec![None; n]));
    let mut sinks = Vec::new();
    let mut abandon: Vec<Option<u64>> = Vec::new();
    let mut never = vec![false; n];
    let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
    let nested: Rc<RefCell<Vec<(Made, Made, What)>>> = Rc::default();
    let mut inner_left: Vec<(Job, Made)> = inner.into_iter().zip(alone_inner).rev().collect();
    for i in 0..n {
        let j = jobs[i].clone();
        let (how, ab) = {
            let mut t = w.ft.borrow_mut();
            let how = t.weighted(&[4, 4, 1]);
            let ab = if t.chance(1, 8) { Some(t.draw(200)) } else { None };
            (how, ab)
        };
        abandon.push(ab);
        let src = match how {
            0 => Source::new(w, j.file.clone(), ends[i], Delivery::Rough),
            1 => Source::new(w, j.file.clone(), ends[i], Delivery::Live),
            _ if j.file.len() > 1 && ends[i] == SrcEnd::Whole => {
                // the rest never comes
                let upto = offset(w, j.file.len(), &[]);
                never[i] = true;
                w.probe("stalled for ever");
                Source::with_arrivals(w, j.file.clone(), &[(3, upto)])
            }
            _ => Source::new(w, j.file.clone(), ends[i], Delivery::Rough),
        };
        let sink = Sink::new(w, SinkFault::None, Delivery::Rough);
        sinks.push(sink.clone());
        // nesting
        let mut nest_src: Option<(usize, Box<dyn FnOnce()>)> = None;
        let mut nest_sink: Option<(usize, Box<dyn FnOnce()>)> = None;
        if !inner_left.is_empty() && w.ft.borrow_mut().chance(1, 2) {
            let (ij, im) = inner_left.pop().unwrap();
            let in_sink = w.ft.borrow_mut().chance(1, 2);
            let at = w.ft.borrow_mut().draw(if in_sink { 300 } else { j.file.len() as u64 + 1 }) as usize;
            let isrc = Source::new(w, ij.file.clone(), SrcEnd::Whole, Delivery::Rough);
            let isink = Sink::new(w, SinkFault::None, Delivery::Rough);
            let (nested, w2, outer) = (nested.clone(), w.clone(), j.what);
            let run: Box<dyn FnOnce()> = Box::new(move || {
                w2.fault(F::Preempt);
                w2.probe(if in_sink { "nested in a sink" } else { "nested in a source" });
                if in_sink && outer == What::Decompress {
                    w2.probe("nested in a decompression");
                }
                let (mut out, r) = perform(&w2, &ij, isrc, isink.clone());
                let mut all = isink.got();
                all.append(&mut out);
                let end = if r.is_ok() { "ok" } else { "error" }.to_string();
                nested.borrow_mut().push((Made { out: all, end }, im, ij.what));
            });
            if in_sink {
                nest_sink = Some((at, run));
            } else {
                nest_src = Some((at, run));
            }
        }
        let (results, w2) = (results.clone(), w.clone());
        bodies.push(Box::new(move || {
            let (a1, r1) = nest_src.map_or((0, None), |(a, r)| (a, Some(r)));
            let (a2, r2) = nest_sink.map_or((0, None), |(a, r)| (a, Some(r)));
            let src = Nest { inner: src, at: a1, pos: 0, run: r1 };
            let sink = Nest { inner: sink, at: a2, pos: 0, run: r2 };
            let (out, r) = perform(&w2, &j, src, sink);
            results.borrow_mut()[i] = Some((out, if r.is_ok() { "ok".into() } else { "error".into() }));
        }));
    }
    let finished = Cell::new(false);
    let got = w.run_sessions(bodies, &abandon, &mut || finished.set(true));
    for i in 0..n {
        let out = sinks[i].got();
        match &got[i] {
            SessEnd::Panicked(m, l) => {
                panicked(m, l)?;
            }
            SessEnd::Livelock => ended(&got[i])?,
            SessEnd::Stalled if never[i] => {}
            SessEnd::Stalled => return viol("blocked by another session", format!("session {i} waits for ever though all its data arrived")),
            SessEnd::Abandoned => {
                w.probe("abandoned");
                if !is_prefix(&out, &alone[i].out) {
                    return viol(
                        "differs from the session alone",
                        format!("session {i} ({:?}), abandoned: {}", jobs[i].what, diff(&out, &alone[i].out)),
                    );
                }
            }
            SessEnd::Done => {
                let (extra, end) = results.borrow_mut()[i].take().expect("result");
                let mut out = out;
                out.extend(extra);
                w.hash_bytes("result", &out);
                if out != alone[i].out || end != alone[i].end {
                    return viol(
                        "differs from the session alone",
                        format!("session {i} ({:?}): {} ({end}, alone {})", jobs[i].what, diff(&out, &alone[i].out), alone[i].end),
                    );
                }
            }
        }
        if never[i] {
            let out = sinks[i].got();
            if !is_prefix(&out, &alone[i].out) {
                return viol(
                    "differs from the session alone",
                    format!("session {i} ({:?}), stalled: {}", jobs[i].what, diff(&out, &alone[i].out)),
                );
            }
        }
    }
    for (a, b, what) in nested.borrow().iter() {
        if a != b {
            return viol(
                "differs from the session alone",
                format!("nested session ({what:?}): {} ({}, alone {})", diff(&a.out, &b.out), a.end, b.end),
            );
        }
    }
    Ok(())
}

