//! C16: what is held in memory while streams are processed, and after.

use std::cell::RefCell;
use std::rc::Rc;

use librezip::{serialise_trace, Block, CircularBuffer};

use super::metadata::{capture, restore, Cfg};
use super::streams::footer;
use super::*;
use crate::mem::{self, Mark};

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Decompress,
    WriteBack,
    Header,
    Archive,
    ReadTrace,
}

#[derive(Clone, Copy, Debug)]
enum How {
    Whole,
    Cut(usize),
    Error(usize),
    /// dropped while it waits inside a read or write
    Abandon(u64),
    /// the caller stops after so many blocks
    Stop(usize),
    SinkFails(usize),
}

struct Plan {
    what: What,
    file: Rc<Vec<u8>>,
    cfg: Cfg,
    /// body of the stream follows a header
    header: usize,
    stop: usize,
    /// the window is full from the start
    full: bool,
    /// what something that grows as it is needed, and is not full from the start, may come to hold meanwhile
    room: usize,
    /// too much data for deliveries in small pieces
    bulk: bool,
    /// after which blocks to measure
    marks: Vec<usize>,
}

/// The library's part runs under a mark.
fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _m = Mark::inside();
    f()
}

fn perform(p: &Plan, src: Source, sink: Sink, held: &RefCell<Vec<usize>>) -> Result<(), String> {
    let e = |e| format!("{e:?}");
    let mut src = src;
    match p.what {
        What::Header => {
            let h = lib(|| librezip::gzip::discard_header(src)).map_err(e)?;
            let _ = h.len();
            return Ok(());
        }
        What::ReadTrace => {
            let t = lib(|| serialise_trace::read(src)).map_err(|e| format!("{e:?}"))?;
            let b = lib(|| serialise_trace::write(&t));
            let _ = b.len();
            return Ok(());
        }
        _ => {}
    }
    if p.header > 0 {
        lib(|| librezip::gzip::discard_header(&mut src)).map_err(e)?;
    }
    let mut window = lib(CircularBuffer::new);
    let mut out = lib(|| librezip::BitWriter::new(sink.clone()));
    let mut it = lib(|| librezip::parse_deflate(src));
    let mut n = 0;
    while n < p.stop {
        let Some(b) = lib(|| it.next()) else { break };
        let b = b.map_err(e)?;
        match p.what {
            What::Decompress => lib(|| librezip::decompressed_block(sink.clone(), &mut window, &b)).map_err(e)?,
            What::WriteBack => lib(|| {
                out.write_bit(false)?;
                librezip::compressed_block(&mut out, &b)
            })
            .map_err(e)?,
            _ => {
                let preroll = lib(|| window.vec());
                let mut data = Vec::new();
                lib(|| librezip::decompressed_block(&mut data, &mut window, &b)).map_err(e)?;
                if let Block::FixedHuffman(codes) | Block::DynamicHuffman { codes, .. } = &b {
                    let tr = lib(|| capture(p.cfg, true, &preroll, &data, codes));
                    let bytes = lib(|| serialise_trace::write(&tr));
                    let back = lib(|| serialise_trace::read(&bytes[..])).map_err(|e| format!("{e:?}"))?;
                    lib(|| restore(p.cfg, &preroll, &data, &back));
                }
            }
        }
        drop(b);
        n += 1;
        if p.marks.binary_search(&n).is_ok() {
            held.borrow_mut().push(mem::held());
        }
    }
    if let What::WriteBack = p.what {
        lib(|| out.align()).map_err(e)?;
    }
    Ok(())
}

const BASE: usize = 1 << 20;

pub fn c16(w: &Rc<World>) -> Res {
    // the plan, and how much memory it may take
    let (plan, bound, how_bound) = {
        let mut t = w.wl.borrow_mut();
        match t.weighted(&[10, 6, 2, 3, 3, 2]) {
            // the same blocks over and over
            n @ 0..=2 => {
                let (max_out, times) = match n {
                    0 => t.pick(&[(300usize, 30usize), (300, 80), (1500, 16), (1500, 40), (5000, 16)]),
                    1 => t.pick(&[(40usize, 30usize), (40, 100), (40, 200), (10, 200)]),
                    _ => (100, t.pick(&[2usize, 4])),
                };
                let what = if n == 2 { What::Archive } else { t.pick(&[What::Decompress, What::WriteBack]) };
                let bulk = n == 0 && t.chance(1, 8);
                let s = gen::repeated(&mut t, max_out, times, bulk);
                let r = ref_parse(&s.bytes);
                assert!(r.clean(), "the generator made an invalid stream: {:?}", r.end);
                assert_eq!(r.blocks.len(), s.before + s.unit * s.times + 1);
                let header = if t.chance(1, 2) { gen::header(&mut t).bytes } else { vec![] };
                let most = r.blocks.iter().map(|b| match &b.kind {
                    Kind::Stored(d) => 4 * d.len(),
                    _ => 64 * b.toks.len() + 8 * 400,
                });
                let mut bound = BASE + 16 * header.len() + most.max().unwrap_or(0);
                if what == What::Archive {
                    bound += 128 * (32768 + 3 * max_out);
                }
                let mut file = header.clone();
                file.extend_from_slice(&s.bytes);
                file.extend_from_slice(&footer(&[]));
                w.note(|| format!("{what:?}: header of {}, {}", header.len(), s.desc));
                let marks = (1..=s.times).map(|k| s.before + k * s.unit).collect();
                // (the last tables may be kept)
                let room = if s.before > 0 { 0 } else { 3 * s.bytes.len().min(8192) } + if s.fresh { gen::TABLES } else { 0 };
                let cfg = Cfg::draw(&mut t);
                let p = Plan { what, file: Rc::new(file), cfg, header: header.len(), stop: usize::MAX, full: s.before > 0 || what == What::WriteBack, room, bulk, marks };
                (p, bound, "the largest block")
            }
            // anything at all
            3 | 4 => {
                let mut p = gen::StreamParams { max_out: t.pick(&[300usize, 1500]), grey: true, ..Default::default() };
                p.evil = t.chance(1, 2);
                let mut s = gen::stream(&mut t, &p);
                let m = if t.chance(2, 3) { mutate(&mut t, &mut s.bytes) } else { vec![] };
                w.fault(F::Corrupt);
                w.note(|| format!("damaged: {} | {m:?} | hex {}", s.desc.join(" | "), hex(&s.bytes, 300)));
                let mut what = t.pick(&[What::Decompress, What::WriteBack]);
                // (see C01-long258 in known-findings.txt)
                if ref_parse(&s.bytes).has_long258() {
                    what = What::Decompress;
                }
                let bound = BASE + 600 * s.bytes.len();
                w.probe("hostile stream");
                let cfg = Cfg(1, 1, 1);
                (Plan { what, file: Rc::new(s.bytes), cfg, header: 0, stop: usize::MAX, full: false, room: 0, bulk: false, marks: vec![] }, bound, "the input")
            }
            _ => {
                let (what, file, bound) = if t.chance(1, 2) {
                    let h = gen::header_with(&mut t, 50).bytes;
                    let b = BASE + 16 * h.len();
                    (What::Header, h, b)
                } else {
                    let mut d = Vec::new();
                    let mut entries = 0usize;
                    for _ in 0..t.draw(40) {
                        let k = t.pick(&[1u64, 300, 32767]);
                        let n = 1 + t.draw(k) as usize;
                        entries += n;
                        d.extend(serialise_trace::write(&vec![librezip::Trace::Correct; n]));
                        if t.chance(1, 2) {
                            d.extend(serialise_trace::write(&[librezip::Trace::ActuallyLiteral]));
                            entries += 1;
                        }
                    }
                    (What::ReadTrace, d, BASE + 64 * entries)
                };
                w.note(|| format!("{what:?} of {} bytes: {}", file.len(), hex(&file, 200)));
                let cfg = Cfg(1, 1, 1);
                (Plan { what, file: Rc::new(file), cfg, header: 0, stop: usize::MAX, full: false, room: 0, bulk: false, marks: vec![] }, bound, "the input")
            }
        }
    };
    let mut plan = plan;
    let len = plan.file.len();
    let blocks = plan.marks.last().copied().unwrap_or(3);
    w.max_steps.set(40_000_000 + 600 * len as u64);
    // how each session of this run ends
    let (how, times) = {
        let mut t = w.ft.borrow_mut();
        let how = match t.weighted(&[3, 2, 2, 2, 2, 2]) {
            0 => How::Whole,
            1 => How::Cut(t.draw(len as u64 + 1) as usize),
            2 => How::Error(t.draw(len as u64 + 1) as usize),
            3 => {
                let n = t.pick(&[3u64, 30, 300, 3000]);
                How::Abandon(t.draw(n))
            }
            4 => How::Stop(t.draw(blocks as u64 + 1) as usize),
            _ => How::SinkFails(t.draw(2 * len as u64 + 1) as usize),
        };
        let times = 8;
        (how, times)
    };
    w.note(|| format!("{times} sessions, each: {how:?}"));
    w.probe(match how {
        How::Whole => "to the end",
        How::Cut(_) => "input cut",
        How::Error(_) => "input failed",
        How::Abandon(_) => "dropped inside a call",
        How::Stop(_) => "dropped between calls",
        How::SinkFails(_) => "output failed",
    });
    w.probe(match plan.what {
        What::Decompress => "decompress",
        What::WriteBack => "write back",
        What::Header => "header",
        What::Archive => "archive",
        What::ReadTrace => "trace bytes",
    });
    if let How::Stop(n) = how {
        plan.stop = n;
    }
    let plan = Rc::new(plan);
    let mut left: Vec<usize> = Vec::new();
    mem::start();
    for round in 0..times {
        mem::restart_peak();
        let kind = ErrorKind::Other;
        let end = match how {
            How::Cut(at) => SrcEnd::Cut(at),
            How::Error(at) => SrcEnd::Error { at, kind, lasting: true },
            _ => SrcEnd::Whole,
        };
        let fault = match how {
            How::SinkFails(at) => SinkFault::Error { at, kind, lasting: true, reject: false },
            _ => SinkFault::None,
        };
        let plain = round == 0 || plan.bulk;
        let delivery = if plain { Delivery::Plain } else { pick_delivery(w) };
        let data = Rc::new(plan.file.to_vec());
        let src = Source::new(w, data.clone(), end, delivery);
        let sink = Sink::new(w, fault, if plain { Delivery::Plain } else { Delivery::Rough });
        let mean = w.ft.borrow_mut().pick(&[0u64, 3, 50]);
        let abandon = match how {
            How::Abandon(n) => Some(n),
            _ => None,
        };
        w.set_preemption(if abandon.is_some() { 3 } else { mean });
        let held = Rc::new(RefCell::new(Vec::new()));
        let before = mem::held();
        let sinks = Rc::strong_count(&sink.st);
        let (p2, s2, h2) = (plan.clone(), sink.clone(), held.clone());
        let ends = w.run_sessions(
            vec![Box::new(move || {
                let _ = perform(&p2, src, s2, &h2);
            })],
            &[abandon],
            &mut || {},
        );
        ended(&ends[0])?;
        let got = sink.st.got.borrow().len();
        w.ev("session over", round as u64, got as u64);
        if mem::peak() > before + bound {
            return viol(
                "too much memory",
                format!("{} bytes held at the peak of session {round}; {bound} are enough for {how_bound}", mem::peak() - before),
            );
        }
        // while it ran: however it grows, also in doubling steps, it has grown with each doubling of the stream
        let h = held.borrow();
        if h.len() >= 16 && plan.full {
            w.probe("memory compared along a stream");
            let n = h.len() - 1;
            let v = [n / 8, n / 4, n / 2, n].map(|i| h[i]);
            if v[0] < v[1] && v[1] < v[2] && v[2] < v[3] && v[3] - v[0] >= 512 + plan.room {
                return viol(
                    "memory grows along the stream",
                    format!("between blocks, after an eighth, a quarter, half and all of the repetitions: {v:?} bytes held"),
                );
            }
        }
        if Rc::strong_count(&data) != 1 {
            return viol("source not released", format!("session {round} is over, but the source it was given is still held"));
        }
        if Rc::strong_count(&sink.st) != sinks {
            return viol("sink not released", format!("session {round} is over, but the sink it was given is still held"));
        }
        left.push(mem::held());
    }
    w.note(|| format!("held after each session: {left:?}"));
    // (something computed once may stay, but nothing may pile up)
    if left[0] < left[1] && left[1] < left[3] && left[3] < left[7] {
        return viol("memory not given back", format!("held after each of the same sessions: {left:?} bytes"));
    }
    Ok(())
}
