//! Properties of the DEFLATE reader and writer and the gzip header: C01 to C07.

use std::cell::{Cell, RefCell};
use std::io::{Read, Write};
use std::rc::Rc;

use librezip::{Block, CircularBuffer};

use super::*;
use crate::refdef::End;

fn sizes(t: &mut Tape) -> usize {
    t.pick(&[300usize, 1500, 5000, 20_000])
}

fn bound_steps(w: &World, bytes: usize) {
    w.max_steps.set(2_000_000 + 64 * bytes as u64);
}

// ------------------------------------------------------------------------------------------------ C01

enum C01 {
    Refused(String),
    WriteError(String),
    Written,
}

pub fn c01(w: &Rc<World>) -> Res {
    let (s, muts, trailer) = {
        let mut t = w.wl.borrow_mut();
        let mut p = gen::StreamParams { max_out: sizes(&mut t), round: true, ..Default::default() };
        p.long258 = t.chance(1, 16);
        p.grey = t.chance(1, 8);
        if t.chance(1, 24) {
            p.prefill = if t.chance(1, 200) {
                t.pick(&[1_100_000usize, 2_200_000])
            } else {
                t.pick(&[32768usize, 32767, 40000, 65535, 70000])
            };
            p.max_out += p.prefill;
        } else if t.chance(1, 250) {
            p.big = t.pick(&[66_000usize, 33_000, 100_000]);
            p.max_out += p.big;
        } else {
            gen::rare_shape(&mut t, &mut p, 200, true);
        }
        probe_shape(w, &p);
        let mut s = gen::stream(&mut t, &p);
        let m = if t.chance(1, 5) { mutate(&mut t, &mut s.bytes) } else { vec![] };
        let n = t.draw(10) as usize;
        let trailer = gen::data(&mut t, n);
        (s, m, trailer)
    };
    note_stream(w, "stream", &s);
    w.note(|| format!("mutations: {muts:?}"));
    if !muts.is_empty() {
        w.fault(F::Corrupt);
    }
    let mut file = s.bytes.clone();
    file.extend_from_slice(&trailer);
    let file = Rc::new(file);
    let r = ref_parse(&file);
    bound_steps(w, file.len());
    let src = Source::new(w, file.clone(), SrcEnd::Whole, pick_delivery(w));
    let sink = Sink::new(w, SinkFault::None, Delivery::Rough);
    {
        let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
        w.set_preemption(mean);
    }
    let (src2, sink2, w2) = (src.clone(), sink.clone(), w.clone());
    let ended = session(w, move || {
        let mut o = librezip::BitWriter::new(sink2);
        let mut held: Option<Block> = None;
        let mut it = librezip::parse_deflate(src2);
        loop {
            let next = match it.next() {
                None => None,
                Some(Ok(b)) => Some(b),
                Some(Err(e)) => return C01::Refused(format!("{e:?}")),
            };
            if let Some(b) = held.take() {
                w2.probe(match &b {
                    Block::Uncompressed(_) => "stored block written back",
                    Block::FixedHuffman(_) => "fixed block written back",
                    Block::DynamicHuffman { .. } => "dynamic block written back",
                });
                if let Block::Uncompressed(d) = &b {
                    match d.len() {
                        0 => w2.probe("empty stored block"),
                        65535 => w2.probe("stored block of 65535 bytes"),
                        _ => {}
                    }
                }
                if let Err(e) = o.write_bit(next.is_none()) {
                    return C01::WriteError(format!("{e:?}"));
                }
                if let Err(e) = librezip::compressed_block(&mut o, &b) {
                    return C01::WriteError(format!("{e:?}"));
                }
            }
            match next {
                Some(b) => held = Some(b),
                None => break,
            }
        }
        if let Err(e) = o.align() {
            return C01::WriteError(format!("{e:?}"));
        }
        o.into_inner();
        C01::Written
    });
    let got = sink.got();
    w.hash_bytes("written back", &got);
    let complete = r.complete();
    for b in &r.blocks {
        if let Kind::Dynamic { .. } = b.kind {
            if b.no_dist {
                w.probe("block without distance codes");
            }
            if b.one_dist {
                w.probe("single distance code");
            }
        }
    }
    // (a stream that breaks off later can still contain such a block, written back before the parser gets there)
    if r.has_long258() {
        w.probe("258 coded as 284+31");
        let lost = r.blocks.iter().any(|b| !b.long258.is_empty() && b.code285.is_none());
        match &ended {
            Err(v) if v.class == "panic" && lost => {
                w.known("C01-long258");
                return Ok(());
            }
            Ok(C01::Written) if complete.is_some() && Some(&got) == r.with_canonical_258(&file).as_ref() => {
                w.known("C01-long258");
                return Ok(());
            }
            _ => {}
        }
    }
    match ended? {
        C01::Refused(_) => {
            w.probe("not accepted");
            Ok(())
        }
        C01::WriteError(e) => viol("write-back fails", format!("an accepted stream cannot be written back: {e}")),
        C01::Written => {
            if !muts.is_empty() {
                w.probe("mutated stream accepted");
            }
            if r.blocks.iter().any(|b| b.grey.is_some()) {
                w.probe("accepted although reference calls it grey");
            }
            let end = complete.unwrap_or(src.pos());
            if got != file[..end] {
                return viol("not reproduced", format!("written back: {}", diff(&got, &file[..end])));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------------ C02

pub fn c02(w: &Rc<World>) -> Res {
    let s = {
        let n = sizes(&mut w.wl.borrow_mut());
        valid_stream_with(w, n, true)
    };
    note_stream(w, "stream", &s);
    let r = ref_parse(&s.bytes);
    let (want, ok) = r.inflate();
    assert!(r.clean() && ok, "the generator made an invalid stream: {:?} {:?}", r.end, s.desc);
    let end = r.complete().unwrap();
    assert_eq!(end, s.bytes.len());
    cross_check(&s.bytes, &r, &want);
    probe_codes(w, &r);
    if r.has_long258() {
        w.probe("258 coded as 284+31");
    }
    let mut file = s.bytes.clone();
    let n = w.wl.borrow_mut().draw(10) as usize;
    file.resize(end + n, 0xff);
    bound_steps(w, file.len() + want.len());
    let src = Source::new(w, Rc::new(file), SrcEnd::Whole, pick_delivery(w));
    let sink = Sink::new(w, SinkFault::None, Delivery::Rough);
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    let s2 = sink.clone();
    let put = pick_put(w);
    let res = session(w, move || -> Result<usize, String> {
        let mut window = CircularBuffer::new();
        let mut n = 0;
        for b in librezip::parse_deflate(src) {
            let b = b.map_err(|e| format!("block {n} refused: {e:?}"))?;
            put.put(s2.clone(), &mut window, &b).map_err(|e| format!("block {n}: {e:?}"))?;
            n += 1;
        }
        Ok(n)
    })?;
    let got = sink.got();
    w.hash_bytes("decompressed", &got);
    match res {
        Err(e) => viol("valid stream refused", format!("{e}; output so far: {}", diff(&got, &want))),
        Ok(n) if n != r.blocks.len() => {
            viol("wrong number of blocks", format!("{n} blocks, expected {}", r.blocks.len()))
        }
        Ok(_) if got != want => viol("wrong data", diff(&got, &want)),
        Ok(_) => Ok(()),
    }
}

fn probe_codes(w: &World, r: &RefStream) {
    let mut out = 0usize;
    for b in &r.blocks {
        let start = out;
        match &b.kind {
            Kind::Stored(d) => {
                out += d.len();
                w.probe("stored block");
            }
            Kind::Fixed => w.probe("fixed block"),
            Kind::Dynamic { .. } => {
                w.probe("dynamic block");
                if b.one_dist {
                    w.probe("single distance code");
                }
                if b.no_dist {
                    w.probe("literal-only dynamic block");
                }
            }
        }
        for t in &b.toks {
            match *t {
                Tok::Lit(_) => out += 1,
                Tok::Ref { dist, run } => {
                    if dist == 32768 {
                        w.probe("reference 32768 back");
                    }
                    if run == 258 {
                        w.probe("reference of length 258");
                    }
                    if usize::from(dist) > out - start {
                        w.probe("reference crosses block boundary");
                    }
                    if dist < run {
                        w.probe("overlapping reference");
                    }
                    out += usize::from(run);
                }
            }
        }
    }
    if out > 32768 {
        w.probe("window wrapped");
    }
}

// ------------------------------------------------------------------------------------------------ C03

pub fn c03(w: &Rc<World>) -> Res {
    let s = {
        let n = sizes(&mut w.wl.borrow_mut());
        valid_stream(w, n)
    };
    note_stream(w, "stream", &s);
    let r = ref_parse(&s.bytes);
    assert!(r.clean(), "the generator made an invalid stream: {:?}", r.end);
    let end = r.complete().unwrap();
    let near = boundaries(&r);
    let at = offset(w, end, &near);
    let mut file = s.bytes.clone();
    file.extend_from_slice(&[0, 0xff, 0x55, 1, 0, 0, 0xff, 0xff]);
    let how = w.ft.borrow_mut().weighted(&[2, 2, 2]);
    let fail = match how {
        0 => SrcEnd::Cut(at),
        n => {
            let kind = pick_kind(w);
            if kind == ErrorKind::UnexpectedEof {
                w.probe("error kind UnexpectedEof");
            }
            SrcEnd::Error { at, kind, lasting: n == 1 }
        }
    };
    w.probe(match how {
        0 => "cut",
        1 => "lasting failure",
        _ => "temporary failure",
    });
    if at == 0 {
        w.probe("cut at offset 0");
    }
    if at == end - 1 {
        w.probe("cut in last byte");
    }
    if r.blocks.iter().any(|b| b.need() == at) {
        w.probe("cut exactly after a block");
    }
    if r.blocks.iter().any(|b| matches!(&b.kind, Kind::Stored(d) if at < b.need() && at > b.need() - d.len())) {
        w.probe("cut inside stored data");
    }
    bound_steps(w, file.len());
    let src = Source::new(w, Rc::new(file), fail, pick_delivery(w));
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    let st = src.st.clone();
    // what came out: blocks before the error, the error, and what three further calls gave
    let (blocks, err, after) = session(w, move || {
        let mut it = librezip::parse_deflate(src);
        let mut blocks = Vec::new();
        let mut err = None;
        let mut after: Vec<&'static str> = Vec::new();
        for b in it.by_ref() {
            match b {
                Ok(b) => blocks.push(b),
                Err(e) => {
                    err = Some(format!("{e:?}"));
                    break;
                }
            }
        }
        if err.is_some() {
            for _ in 0..3 {
                after.push(match it.next() {
                    None => "none",
                    Some(Ok(_)) => "block",
                    Some(Err(_)) => "error",
                });
            }
        }
        (blocks, err, after)
    })?;
    w.ev("blocks before the error", blocks.len() as u64, err.is_some() as u64);
    let whole = r.blocks.iter().filter(|b| b.need() <= at).count();
    if whole > 0 {
        w.probe("blocks before the cut");
    }
    if err.is_none() {
        return viol(
            "clean end",
            format!("source ends or fails ({fail:?}) before the end {end}, but the parser reports a clean end after {} blocks", blocks.len()),
        );
    }
    assert!(st.fired.get() > 0 || whole != blocks.len() || true);
    if blocks.len() != whole {
        return viol(
            "wrong blocks before the error",
            format!("{fail:?}: {} blocks returned, {whole} were fully delivered", blocks.len()),
        );
    }
    for (i, (b, x)) in blocks.iter().zip(&r.blocks).enumerate() {
        if let Err(e) = same_block(b, x, &s.bytes) {
            return viol("wrong blocks before the error", format!("block {i}: {e}"));
        }
    }
    if after.contains(&"block") {
        return viol("block after an error", format!("{fail:?}: after the error the next calls gave {after:?}"));
    }
    if !after.contains(&"none") {
        return viol("no end after an error", format!("{fail:?}: after the error the next calls gave {after:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C04

/// What RFC 1952 makes of the bytes: length of the header, or why not.
pub fn ref_header(d: &[u8]) -> Result<usize, &'static str> {
    if d.len() < 10 {
        return Err("short");
    }
    if d[0] != 0x1f || d[1] != 0x8b {
        return Err("magic");
    }
    if d[2] != 8 {
        return Err("method");
    }
    if d[3] & 0xe0 != 0 {
        return Err("reserved flag");
    }
    let mut p = 10;
    if d[3] & 4 != 0 {
        if d.len() < p + 2 {
            return Err("short");
        }
        p += 2 + usize::from(d[p]) + 256 * usize::from(d[p + 1]);
    }
    for f in [8, 16] {
        if d[3] & f != 0 {
            if p > d.len() {
                return Err("short");
            }
            match d[p..].iter().position(|b| *b == 0) {
                Some(n) => p += n + 1,
                None => return Err("short"),
            }
        }
    }
    if d[3] & 2 != 0 {
        p += 2;
    }
    if p > d.len() {
        return Err("short");
    }
    Ok(p)
}

pub fn footer(data: &[u8]) -> Vec<u8> {
    let mut f = gen::crc32(data).to_le_bytes().to_vec();
    f.extend_from_slice(&(data.len() as u32).to_le_bytes());
    f
}

fn small_header(t: &mut Tape) -> Vec<u8> {
    if t.chance(1, 4) {
        gen::header(t).bytes
    } else {
        vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3]
    }
}

pub fn c04(w: &Rc<World>) -> Res {
    let (file, what) = {
        let mut t = w.wl.borrow_mut();
        match t.weighted(&[6, 5, 1, 3]) {
            // corruption at rest of a valid file
            0 => {
                let mut f = small_header(&mut t);
                let mut p = gen::StreamParams { max_out: sizes(&mut t), round: true, ..Default::default() };
                gen::rare_shape(&mut t, &mut p, 100, true);
                probe_shape(w, &p);
                let s = gen::stream(&mut t, &p);
                let r = ref_parse(&s.bytes);
                f.extend_from_slice(&s.bytes);
                f.extend_from_slice(&footer(&r.inflate().0));
                let m = mutate(&mut t, &mut f);
                (f, format!("{} | {m:?}", s.desc.join(" | ")))
            }
            // one planted format violation
            1 => {
                let mut f = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
                let mut p = gen::StreamParams { max_out: sizes(&mut t), evil: true, ..Default::default() };
                gen::rare_shape(&mut t, &mut p, 100, true);
                probe_shape(w, &p);
                let s = gen::stream(&mut t, &p);
                f.extend_from_slice(&s.bytes);
                f.extend_from_slice(&[0; 8]);
                (f, s.desc.join(" | "))
            }
            // noise after a header
            2 => {
                let mut f = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
                let n = gen::len(&mut t, 600);
                let kind = t.pick(&[3usize, 0, 6]);
                let seed = t.seed();
                f.extend(gen::data_kind(kind, seed, n));
                (f, "noise".to_string())
            }
            // corruption of the bare stream, concentrated on its beginning, where the tables are
            _ => {
                let mut f = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
                let p = gen::StreamParams { max_out: 400, grey: t.chance(1, 2), ..Default::default() };
                let mut s = gen::stream(&mut t, &p);
                let n = (t.pick(&[8u64, 40, 80, 160, 800])).min(8 * s.bytes.len() as u64);
                for _ in 0..1 + t.draw(3) {
                    let p = t.draw(n) as usize;
                    s.bytes[p / 8] ^= 1 << (p % 8);
                }
                f.extend_from_slice(&s.bytes);
                f.extend_from_slice(&[0; 8]);
                (f, format!("bits flipped in the first {n} bits of: {}", s.desc.join(" | ")))
            }
        }
    };
    w.fault(F::Corrupt);
    w.note(|| format!("file of {} bytes: {what}; hex {}", file.len(), hex(&file, 400)));
    let file = Rc::new(file);
    let hdr = ref_header(&file);
    let body: &[u8] = match hdr {
        Ok(n) => &file[n..],
        Err(_) => &[],
    };
    let r = ref_parse(body);
    let (want, refs_ok) = r.inflate();
    if let (true, Some(_), true) = (hdr.is_ok(), r.complete(), refs_ok) {
        if r.clean() {
            cross_check(body, &r, &want);
        }
    }
    bound_steps(w, file.len() + 4 * want.len());
    let src = Source::new(w, file.clone(), SrcEnd::Whole, pick_delivery(w));
    let sink = Sink::new(w, SinkFault::None, Delivery::Plain);
    let (st, s2) = (src.st.clone(), sink.clone());
    let put = pick_put(w);
    #[derive(Debug)]
    enum Stage {
        Header(String),
        Parse(String),
        Decompress(String),
        End,
    }
    let (stage, blocks) = session(w, move || {
        let mut src = src;
        let mut blocks = Vec::new();
        if let Err(e) = librezip::gzip::discard_header(&mut src) {
            return (Stage::Header(format!("{e:?}")), blocks);
        }
        let mut window = CircularBuffer::new();
        for b in librezip::parse_deflate(&mut src) {
            match b {
                Err(e) => return (Stage::Parse(format!("{e:?}")), blocks),
                Ok(b) => {
                    let d = put.put(s2.clone(), &mut window, &b);
                    blocks.push(b);
                    if let Err(e) = d {
                        return (Stage::Decompress(format!("{e:?}")), blocks);
                    }
                }
            }
        }
        (Stage::End, blocks)
    })?;
    let got = sink.got();
    w.hash_bytes("decompressed", &got);
    // bounded work
    let intr = w.counts.borrow()[F::IntrRead as usize];
    let cap = 16 * file.len() as u64 + 4000 + 2 * intr;
    if st.reads.get() > cap {
        return viol("too many reads", format!("{} reads for {} bytes", st.reads.get(), file.len()));
    }
    if !is_prefix(&got, &want) && !(r.open_grey.is_some() && is_prefix(&want, &got)) {
        return viol("wrong data", format!("after {stage:?}: {}", diff(&got, &want)));
    }
    match (&hdr, &stage) {
        (Err(_), Stage::Header(_)) => {
            w.probe("header refused");
            return Ok(());
        }
        (Err(e), s) => return viol("bad header accepted", format!("{e}: {s:?}")),
        (Ok(_), Stage::Header(e)) => return viol("good header refused", e.clone()),
        (Ok(_), _) => {}
    }
    for (i, (b, x)) in blocks.iter().zip(&r.blocks).enumerate() {
        if let Err(e) = same_block(b, x, body) {
            return viol("wrong block", format!("block {i}: {e}"));
        }
    }
    let grey = r.blocks.iter().any(|b| b.grey.is_some()) || r.open_grey.is_some();
    if grey {
        w.probe("grey");
    }
    if blocks.len() > r.blocks.len() {
        if r.open_grey.is_some() {
            return Ok(());
        }
        return viol("invalid block accepted", format!("block {} of a stream that ends with {:?}", r.blocks.len(), r.end));
    }
    // index of the first block with a bad reference
    let bad_ref = if refs_ok {
        None
    } else {
        let mut out = Vec::new();
        r.blocks.iter().position(|b| !refdef::inflate_block(&mut out, b))
    };
    match (&stage, bad_ref) {
        (Stage::Decompress(_), Some(k)) if blocks.len() == k + 1 => {
            w.probe("reference before the start of the data");
            return Ok(());
        }
        (Stage::Decompress(e), _) => {
            return viol("decompression fails", format!("block {}: {e}; no bad reference there", blocks.len() - 1));
        }
        (s, Some(k)) if blocks.len() > k => {
            return viol("bad reference accepted", format!("block {k} refers to before the start, outcome {s:?}"));
        }
        _ => {}
    }
    // where the reference stops being sure
    let sure = r.blocks.iter().position(|b| b.grey.is_some()).unwrap_or(r.blocks.len());
    match (&stage, &r.end) {
        (Stage::Parse(e), _) if blocks.len() < sure => {
            viol("valid block refused", format!("block {} of {}: {e}", blocks.len(), r.blocks.len()))
        }
        (Stage::Parse(e), End::Complete(_)) => {
            if blocks.len() < r.blocks.len() {
                return Ok(()); // a grey one
            }
            if r.final_pad {
                w.probe("padding not zero");
                return Ok(());
            }
            viol("valid stream refused at its end", e.clone())
        }
        (Stage::Parse(_), End::Invalid(why)) => {
            w.probe(why);
            Ok(())
        }
        (Stage::Parse(_), End::Truncated) => {
            w.probe("truncated");
            Ok(())
        }
        (Stage::End, End::Complete(_)) if blocks.len() == r.blocks.len() => {
            w.probe("still valid");
            if got != want {
                return viol("wrong data", diff(&got, &want));
            }
            Ok(())
        }
        (Stage::End, e) => viol(
            "invalid stream accepted",
            format!("clean end after {} blocks, the reference has {} and then {e:?}", blocks.len(), r.blocks.len()),
        ),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------------------------------------ C05

struct Seen {
    header: Cell<Option<usize>>,
    /// position of the source when each block was returned
    blocks: RefCell<Vec<usize>>,
    end: Cell<Option<usize>>,
    error: RefCell<Option<String>>,
    trailer: RefCell<Option<Vec<u8>>>,
}

pub fn c05(w: &Rc<World>) -> Res {
    let (head, s, trailer, second) = {
        let mut t = w.wl.borrow_mut();
        let head = small_header(&mut t);
        let mut p = gen::StreamParams { max_out: t.pick(&[300, 1500, 5000]), round: true, ..Default::default() };
        if t.chance(1, 150) {
            // stored blocks of all lengths, also the largest
            p.prefill = t.pick(&[65_535usize, 65_536, 32_768, 40_000, 140_000]);
            p.max_out += p.prefill;
        } else {
            gen::rare_shape(&mut t, &mut p, 200, true);
        }
        probe_shape(w, &p);
        let s = gen::stream(&mut t, &p);
        let second = t.chance(1, 4);
        let trailer = if second {
            let mut x = head.clone();
            x.extend_from_slice(&s.bytes);
            x
        } else {
            let n = t.draw(40) as usize;
            gen::data(&mut t, n)
        };
        (head, s, trailer, second)
    };
    note_stream(w, "stream", &s);
    let r = ref_parse(&s.bytes);
    assert!(r.clean(), "the generator made an invalid stream");
    let end = r.complete().unwrap();
    assert_eq!(end, s.bytes.len());
    if second {
        w.probe("second member follows");
    } else if !trailer.is_empty() {
        w.probe("trailing bytes");
    }
    let h = head.len();
    let mut file = head.clone();
    file.extend_from_slice(&s.bytes);
    file.extend_from_slice(&trailer);
    let needs: Vec<usize> = r.blocks.iter().map(|b| h + b.need()).collect();
    // when what arrives
    let mut stops: Vec<usize> = vec![];
    {
        let mut t = w.ft.borrow_mut();
        let n = t.range(1, 8);
        for _ in 0..n {
            let p = match t.weighted(&[2, 3, 1, 2]) {
                0 => t.draw(file.len() as u64 + 1) as usize,
                1 => t.pick(&needs),
                2 => h,
                _ => t.pick(&needs) - 1,
            };
            stops.push(p);
        }
        stops.push(file.len());
        stops.sort_unstable();
    }
    let mut sched = Vec::new();
    for p in stops {
        let d = w.ft.borrow_mut().pick(&[1u64, 0, 50, 1000, 60_000]);
        sched.push((d, p));
    }
    w.note(|| format!("header {h} bytes, blocks complete at {needs:?}, arrivals (delay, up to): {sched:?}"));
    bound_steps(w, file.len());
    let file = Rc::new(file);
    let src = Source::with_arrivals(w, file.clone(), &sched);
    let st = src.st.clone();
    let seen = Rc::new(Seen {
        header: Cell::new(None),
        blocks: RefCell::new(vec![]),
        end: Cell::new(None),
        error: RefCell::new(None),
        trailer: RefCell::new(None),
    });
    let got_header: Rc<RefCell<Vec<u8>>> = Rc::default();
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    let body: Box<dyn FnOnce()> = {
        let (seen, src, gh) = (seen.clone(), src, got_header.clone());
        Box::new(move || {
            let mut src = src;
            match librezip::gzip::discard_header(&mut src) {
                Ok(x) => *gh.borrow_mut() = x,
                Err(e) => {
                    *seen.error.borrow_mut() = Some(format!("header: {e:?}"));
                    return;
                }
            }
            seen.header.set(Some(src.pos()));
            let keep = src.clone();
            for b in librezip::parse_deflate(&mut src) {
                match b {
                    Ok(_) => seen.blocks.borrow_mut().push(keep.pos()),
                    Err(e) => {
                        *seen.error.borrow_mut() = Some(format!("block {}: {e:?}", seen.blocks.borrow().len()));
                        return;
                    }
                }
            }
            seen.end.set(Some(src.pos()));
            let mut rest = Vec::new();
            match src.read_to_end(&mut rest) {
                Ok(_) => *seen.trailer.borrow_mut() = Some(rest),
                Err(e) => panic!("reading the trailer: {e}"),
            }
        })
    };
    let late: Rc<RefCell<Option<String>>> = Rc::default();
    let ends = {
        let (seen, needs, late, st, w2) = (seen.clone(), needs.clone(), late.clone(), st.clone(), w.clone());
        let mut quiet = move || {
            let have = st.arrived.get();
            w2.probe("quiet point");
            if needs.contains(&have) {
                w2.probe("quiet exactly at a block's last byte");
            }
            if have == h {
                w2.probe("quiet exactly at the end of the header");
            }
            if have == h + end {
                w2.probe("quiet exactly at the end of the stream");
            }
            let want = needs.iter().filter(|n| **n <= have).count();
            let got = seen.blocks.borrow().len();
            let mut l = late.borrow_mut();
            if l.is_some() {
                return;
            }
            if have >= h && seen.header.get().is_none() {
                *l = Some(format!("{have} bytes arrived, the header has {h}, but was not returned"));
            } else if got < want {
                *l = Some(format!("{have} bytes arrived, enough for {want} blocks, but only {got} were returned"));
            } else if have >= h + end && seen.end.get().is_none() {
                *l = Some(format!("{have} bytes arrived, the stream ends at {}, but the end was not returned", h + end));
            }
        };
        w.run_sessions(vec![body], &[], &mut quiet)
    };
    ended(&ends[0])?;
    let seen_blocks = seen.blocks.borrow().clone();
    for p in &seen_blocks {
        w.ev("block returned at", *p as u64, 0);
    }
    if let Some(e) = seen.error.borrow().as_ref() {
        return viol("valid input refused", e.clone());
    }
    if let Some(e) = late.borrow().as_ref() {
        return viol("waits for bytes it does not need", e.clone());
    }
    if *got_header.borrow() != head {
        return viol("wrong header", diff(&got_header.borrow(), &head));
    }
    if seen.header.get() != Some(h) {
        return viol("read ahead", format!("source at {:?} after a header of {h} bytes", seen.header.get()));
    }
    if seen_blocks.len() != needs.len() {
        return viol("wrong number of blocks", format!("{} returned, {} expected", seen_blocks.len(), needs.len()));
    }
    for (i, (p, n)) in seen_blocks.iter().zip(&needs).enumerate() {
        if p > n {
            return viol("read ahead", format!("source at {p} when block {i}, which ends in byte {n}, was returned"));
        }
    }
    if seen.end.get() != Some(h + end) {
        return viol("read ahead", format!("source at {:?} after a stream that ends at {}", seen.end.get(), h + end));
    }
    let t = seen.trailer.borrow().clone().expect("trailer");
    if t != trailer {
        return viol("read ahead", format!("trailing bytes: {}", diff(&t, &trailer)));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C06

pub fn c06(w: &Rc<World>) -> Res {
    let (mut file, len, spoil, desc) = {
        let mut t = w.wl.borrow_mut();
        let hd = gen::header_with(&mut t, 600);
        let mut b = hd.bytes;
        let len = b.len();
        let spoil = match t.weighted(&[6, 1, 1, 1]) {
            0 => None,
            1 => {
                let i = t.draw(2) as usize;
                b[i] ^= 1 << t.draw(8);
                Some("bad magic")
            }
            2 => {
                let v = t.draw(255) as u8;
                b[2] = if v >= 8 { v + 1 } else { v };
                Some("bad method")
            }
            _ => {
                b[3] |= ((1 + t.draw(7)) << 5) as u8;
                Some("reserved flag")
            }
        };
        (b, len, spoil, hd.desc)
    };
    w.note(|| format!("header of {len} bytes: {desc}, {spoil:?}; hex {}", hex(&file, 200)));
    let f = file[3];
    for (bit, name) in [(4, "extra field"), (8, "file name"), (16, "comment"), (2, "header crc")] {
        if f & bit != 0 {
            w.probe(name);
        }
    }
    if f & 4 != 0 && file[10] == 0xff && file[11] == 0xff {
        w.probe("extra field of 65535 bytes");
    }
    if len > 65_535 + 12 + 2000 + 2000 {
        w.probe("very long text");
    }
    if let Some(x) = spoil {
        w.probe(x);
    }
    file.extend_from_slice(&[7, 0, 9, 0, 0, 3]);
    let fail = match w.ft.borrow_mut().weighted(&[3, 2, 2]) {
        0 => SrcEnd::Whole,
        n => {
            // placed below
            if n == 1 { SrcEnd::Cut(0) } else { SrcEnd::Error { at: 0, kind: ErrorKind::Other, lasting: true } }
        }
    };
    let fail = match fail {
        SrcEnd::Whole => fail,
        SrcEnd::Cut(_) => {
            w.probe("cut");
            SrcEnd::Cut(offset(w, len, &[10, 12]))
        }
        SrcEnd::Error { .. } => {
            w.probe("failure");
            let at = offset(w, len, &[10, 12]);
            let kind = pick_kind(w);
            let lasting = w.ft.borrow_mut().chance(1, 2);
            SrcEnd::Error { at, kind, lasting }
        }
    };
    bound_steps(w, file.len());
    let file = Rc::new(file);
    let src = Source::new(w, file.clone(), fail, pick_delivery(w));
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    let res = session(w, move || librezip::gzip::discard_header(src).map_err(|e| format!("{e:?}")))?;
    match &res {
        Ok(v) => w.hash_bytes("header", v),
        Err(_) => w.ev("header refused", 0, 0),
    }
    match (spoil, fail, res) {
        (None, SrcEnd::Whole, Ok(v)) => {
            if v != file[..len] {
                return viol("not verbatim", diff(&v, &file[..len]));
            }
            Ok(())
        }
        (None, SrcEnd::Whole, Err(e)) => viol("valid header refused", e),
        (_, _, Err(_)) => Ok(()),
        (Some(s), _, Ok(_)) => viol("invalid header accepted", format!("{s}: {}", hex(&file, 12))),
        (None, f, Ok(v)) => viol("incomplete header accepted", format!("{f:?} of {len} bytes, returned {} bytes", v.len())),
    }
}

// ------------------------------------------------------------------------------------------------ C07

pub fn c07(w: &Rc<World>) -> Res {
    let (s, mode, over) = {
        let n = sizes(&mut w.wl.borrow_mut());
        let s = valid_stream(w, n);
        let mut t = w.wl.borrow_mut();
        let mode = t.weighted(&[3, 3]);
        let over = if t.chance(1, 40) { Some(65536 + t.draw(3) as usize * 32768) } else { None };
        (s, mode, over)
    };
    note_stream(w, "stream", &s);
    let r = ref_parse(&s.bytes);
    assert!(r.clean(), "the generator made an invalid stream");
    let (blocks, err) = parse_all(&s.bytes[..]);
    if let Some(e) = err {
        // C02's business; nothing to write here
        w.note(|| format!("not parsed: {e}"));
        return Ok(());
    }
    if let Some(n) = over {
        return oversized(w, n, blocks);
    }
    let want = if mode == 0 { r.inflate().0 } else { s.bytes.clone() };
    // places of interest in the output
    let mut near = vec![0usize];
    if mode == 0 {
        let mut out = Vec::new();
        for b in &r.blocks {
            refdef::inflate_block(&mut out, b);
            near.push(out.len());
        }
    } else {
        near.extend(boundaries(&r));
    }
    let at = if want.is_empty() { 0 } else { offset(w, want.len(), &near) };
    let at = if w.ft.borrow_mut().chance(1, 20) { want.len() } else { at };
    let kind = pick_kind(w);
    let fault = match w.ft.borrow_mut().weighted(&[3, 2, 2, 2]) {
        0 => SinkFault::Error { at, kind, lasting: true, reject: false },
        1 => SinkFault::Error { at, kind, lasting: false, reject: false },
        2 => SinkFault::Error { at, kind, lasting: true, reject: true },
        _ => SinkFault::Zero { at },
    };
    bound_steps(w, s.bytes.len() + want.len());
    let sink = Sink::new(w, fault, Delivery::Rough);
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    let s2 = sink.clone();
    let put = pick_put(w);
    // (error, was it the final align)
    let res: Result<(), (String, bool)> = session(w, move || {
        if mode == 0 {
            let mut window = CircularBuffer::new();
            for b in &blocks {
                put.put(s2.clone(), &mut window, b).map_err(|e| (format!("{e:?}"), false))?;
            }
        } else {
            let mut o = librezip::BitWriter::new(s2);
            for (i, b) in blocks.iter().enumerate() {
                o.write_bit(i + 1 == blocks.len()).map_err(|e| (format!("{e:?}"), false))?;
                librezip::compressed_block(&mut o, b).map_err(|e| (format!("{e:?}"), false))?;
            }
            o.align().map_err(|e| (format!("{e:?}"), true))?;
            o.into_inner();
        }
        Ok(())
    })?;
    let got = sink.got();
    w.hash_bytes("accepted", &got);
    let fired = sink.st.fired.get() > 0;
    let name = if mode == 0 { "decompression" } else { "write-back" };
    if mode == 1 && !is_prefix(&got, &want) && !fired {
        // wrong output without any failure is C01's business, but not to be mistaken for a prefix here either
        return viol("not a prefix", format!("{name}: {}", diff(&got, &want)));
    }
    if !is_prefix(&got, &want) {
        return viol("not a prefix", format!("{name}, {fault:?}: {}", diff(&got, &want)));
    }
    if fired {
        w.probe(if mode == 0 { "decompression failed" } else { "write-back failed" });
        if at == 0 {
            w.probe("failure at offset 0");
        }
        if at + 1 == want.len() {
            w.probe("failure in last byte");
        }
        if mode == 0 {
            let mut n = 0usize;
            for b in &r.blocks {
                if let Kind::Stored(d) = &b.kind {
                    if at > n && at < n + d.len() {
                        w.probe("inside stored data");
                    }
                    n += d.len();
                }
                for t in &b.toks {
                    match t {
                        Tok::Lit(_) => n += 1,
                        Tok::Ref { run, .. } => {
                            if at > n && at < n + usize::from(*run) {
                                w.probe("inside a reference");
                            }
                            n += usize::from(*run);
                        }
                    }
                }
            }
        }
        return match res {
            Ok(()) => viol("failure not reported", format!("{name}, {fault:?}: success reported, {} of {} bytes accepted", got.len(), want.len())),
            Err((_, last)) => {
                if last {
                    w.probe("failure reported by final align");
                }
                Ok(())
            }
        };
    }
    w.probe("failure not reached");
    match res {
        Err((e, _)) => viol("failure without cause", format!("{name}: {e}")),
        Ok(()) if got != want => viol("incomplete output", format!("{name}: {}", diff(&got, &want))),
        Ok(()) => Ok(()),
    }
}

fn oversized(w: &Rc<World>, n: usize, mut blocks: Vec<Block>) -> Res {
    let sink = Sink::new(w, SinkFault::None, Delivery::Rough);
    let s2 = sink.clone();
    blocks.push(Block::Uncompressed(vec![b'x'; n]));
    let refused = session(w, move || {
        let mut o = librezip::BitWriter::new(s2);
        let k = blocks.len();
        for (i, b) in blocks.iter().enumerate() {
            if o.write_bit(i + 1 == k).is_err() || librezip::compressed_block(&mut o, b).is_err() {
                return i + 1 == k;
            }
        }
        false
    })?;
    w.hash_bytes("accepted", &sink.got());
    if !refused {
        return viol("oversized stored block", format!("a stored block of {n} bytes was written without an error"));
    }
    w.probe("oversized stored block refused");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C17

/// How many bytes the bit writer may keep to itself between calls.
const PENDING: usize = 8;

pub fn c17(w: &Rc<World>) -> Res {
    let (s, back, hashed) = {
        let n = sizes(&mut w.wl.borrow_mut());
        let s = valid_stream(w, n);
        let mut t = w.wl.borrow_mut();
        (s, t.chance(1, 2), t.chance(1, 4))
    };
    note_stream(w, "stream", &s);
    let r = ref_parse(&s.bytes);
    assert!(r.clean(), "the generator made an invalid stream");
    // what has to be in the sink after each block, at least
    let mut out = Vec::new();
    let due: Rc<Vec<usize>> = Rc::new(
        r.blocks
            .iter()
            .map(|b| {
                refdef::inflate_block(&mut out, b);
                if back { (b.end_bit / 8).saturating_sub(PENDING) } else { out.len() }
            })
            .collect(),
    );
    let want = if back { s.bytes.clone() } else { out };
    bound_steps(w, s.bytes.len() + want.len());
    let (abandon, fault, mean) = {
        let mut t = w.ft.borrow_mut();
        let how = t.weighted(&[3, 3, 2]);
        let abandon = (how == 0).then(|| {
            let n = t.pick(&[3u64, 30, 300, 3000]);
            t.draw(n)
        });
        let fault = if how == 2 {
            let at = t.draw(want.len() as u64 + 1) as usize;
            SinkFault::Error { at, kind: ErrorKind::Other, lasting: true, reject: false }
        } else {
            SinkFault::None
        };
        w.probe(["crash", "to the end", "output failed"][how]);
        let mean = if how == 0 { t.pick(&[3u64, 20, 1]) } else { t.pick(&[0u64, 3, 50]) };
        (abandon, fault, mean)
    };
    let src = Source::new(w, Rc::new(s.bytes.clone()), SrcEnd::Whole, pick_delivery(w));
    let sink = Sink::new(w, fault, Delivery::Rough);
    w.set_preemption(mean);
    // blocks whose call has returned; what was missing then
    let done = Rc::new(Cell::new(0usize));
    let missing: Rc<RefCell<Option<String>>> = Rc::new(RefCell::new(None));
    let (s2, done2, miss2, due2, w2) = (sink.clone(), done.clone(), missing.clone(), due.clone(), w.clone());
    let all = want.len();
    let put = pick_put(w);
    let ends = w.run_sessions(
        vec![Box::new(move || {
            let check = |s: &Sink, due: usize, what: &str| {
                let have = s.st.got.borrow().len();
                if have < due && miss2.borrow().is_none() {
                    *miss2.borrow_mut() = Some(format!("{what} returned success, the sink has accepted {have} bytes of {due}"));
                }
            };
            
            let run = || -> Result<(), String> {
                let mut window = CircularBuffer::new();
                let own = s2.clone();
                let to: Box<dyn Write> =
                    if hashed { Box::new(librezip::filter::FilterWrite::new(s2.clone())) } else { Box::new(s2.clone()) };
                if back {
                    let mut o = librezip::BitWriter::new(to);
                    let mut it = librezip::parse_deflate(src).peekable();
                    while let Some(b) = it.next() {
                        let b = b.map_err(|e| format!("{e:?}"))?;
                        let last = it.peek().is_none();
                        o.write_bit(last).map_err(|e| format!("{e:?}"))?;
                        librezip::compressed_block(&mut o, &b).map_err(|e| format!("{e:?}"))?;
                        let n = done2.get();
                        check(&own, due2[n], &format!("writing back block {n}"));
                        done2.set(n + 1);
                        w2.io_point();
                    }
                    o.align().map_err(|e| format!("{e:?}"))?;
                    check(&own, all, "the final alignment");
                    o.into_inner();
                } else {
                    let mut to = to;
                    for b in librezip::parse_deflate(src) {
                        put.put(&mut to, &mut window, &b.map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
                        let n = done2.get();
                        check(&own, due2[n], &format!("decompressing block {n}"));
                        done2.set(n + 1);
                        w2.io_point();
                    }
                }
                Ok(())
            };
            let _ = run();
        })],
        &[abandon],
        &mut || {},
    );
    ended(&ends[0])?;
    let got = sink.got();
    w.hash_bytes("accepted", &got);
    if matches!(ends[0], SessEnd::Abandoned) {
        w.probe("crash between or inside calls");
        if done.get() > 0 {
            w.probe("blocks acknowledged before the crash");
        }
    }
    if hashed {
        w.probe("through the digest filter");
    }
    w.probe(if back { "write back" } else { "decompress" });
    let missing = missing.borrow_mut().take();
    if let Some(m) = missing {
        return viol("held back", m);
    }
    let n = done.get();
    if n > 0 && !got.starts_with(&want[..due[n - 1].min(want.len())]) {
        return viol("acknowledged data lost", format!("{n} blocks acknowledged; {}", diff(&got, &want)));
    }
    if !is_prefix(&got, &want) {
        return viol("not a prefix", diff(&got, &want));
    }
    Ok(())
}
