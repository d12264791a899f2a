//! Properties of the saved metadata: C08 (trace bytes) and C09 (archive, crash, rebuild).

use std::cell::RefCell;
use std::io::Read;
use std::rc::Rc;

use librezip::all_refs::AllRefs;
use librezip::{serialise_trace, trace, tracer, Block, CircularBuffer, Code, Config, Ref, Technique, Trace};

use super::streams::footer;
use super::*;
use crate::rng::Rng;

// ------------------------------------------------------------------------------------------------ C08

/// Reference values can only be had from the parser.
pub fn make_refs(pairs: &[(u16, u16)]) -> Vec<Ref> {
    let bytes = gen::refs_stream(pairs);
    let (blocks, err) = parse_all(&bytes[..]);
    match (blocks.first(), err) {
        (Some(Block::FixedHuffman(codes)), None) => codes
            .iter()
            .map(|c| match c {
                Code::Reference(r) => *r,
                Code::Literal(_) => panic!("literal among references"),
            })
            .collect(),
        _ => vec![],
    }
}

#[derive(Clone, Copy, Debug)]
enum Group {
    Correct(usize),
    Literal,
    Ref(u16, u16),
}

fn gen_groups(t: &mut Tape) -> Vec<Group> {
    let mut v = Vec::new();
    let mode = t.weighted(&[3, 2]);
    let n = if mode == 0 { t.draw(9) } else { t.draw(400) };
    let seed = t.seed();
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let mut d = |n: u64| if mode == 0 { t.draw(n) } else { r.below(n) };
        v.push(match d(4) {
            0 => Group::Correct(1 + d(4) as usize),
            1 => Group::Literal,
            2 => {
                let dist = match d(5) {
                    0 => 1,
                    1 => 32768,
                    2 => 32767,
                    3 => 255 + d(4) as u16,
                    _ => 1 + d(32768) as u16,
                };
                let run = match d(4) {
                    0 => 3,
                    1 => 258,
                    2 => 257,
                    _ => 3 + d(256) as u16,
                };
                Group::Ref(dist, run)
            }
            _ => {
                if mode == 0 {
                    let base = [1usize, 255, 256, 32767, 65534, 98301][d(6) as usize];
                    Group::Correct((base + d(5) as usize).saturating_sub(2).max(1))
                } else {
                    Group::Correct(1 + d(300) as usize)
                }
            }
        });
    }
    v
}

pub fn c08(w: &Rc<World>) -> Res {
    let groups = gen_groups(&mut w.wl.borrow_mut());
    let pairs: Vec<(u16, u16)> =
        groups.iter().filter_map(|g| if let Group::Ref(d, r) = g { Some((*d, *r)) } else { None }).collect();
    let refs = make_refs(&pairs);
    if refs.len() != pairs.len() {
        // the parser does not work; other properties report that
        return Ok(());
    }
    w.note(|| format!("trace: {groups:?}"));
    let mut tr: Vec<Trace> = Vec::new();
    let mut ri = refs.iter();
    // after which number of trace entries an entry of the byte form may end
    let mut stops = vec![0usize];
    let mut run = 0usize;
    for g in &groups {
        match g {
            Group::Correct(n) => {
                tr.resize(tr.len() + n, Trace::Correct);
                run += n;
            }
            _ => {
                if let Group::Ref(d, _) = g {
                    tr.push(Trace::Actually(*ri.next().unwrap()));
                    if *d == 32768 {
                        w.probe("distance 32768");
                    }
                } else {
                    tr.push(Trace::ActuallyLiteral);
                }
                run = 0;
            }
        }
        stops.push(tr.len());
        if run > 0 {
            let from = tr.len() - run;
            stops.push(from + 1);
            let mut k = 32767;
            while k < run {
                stops.push(from + k);
                k += 32767;
            }
        }
        match run {
            32767 => w.probe("run of 32767"),
            32768 => w.probe("run of 32768"),
            n if n > 65534 => w.probe("run beyond 65534"),
            _ => {}
        }
    }
    if tr.is_empty() {
        w.probe("empty trace");
    }
    let t2 = tr.clone();
    let bytes = session(w, move || serialise_trace::write(&t2))?;
    w.hash_bytes("trace bytes", &bytes);
    stops.sort_unstable();
    stops.dedup();
    // offsets at which a prefix of the trace, written alone, ends; only computed when needed
    let few = stops.len() <= 60;
    let ends: Option<Vec<usize>> = few.then(|| {
        let mut e: Vec<usize> = stops.iter().map(|n| serialise_trace::write(&tr[..*n]).len()).collect();
        e.sort_unstable();
        e.dedup();
        e
    });
    let near: Vec<usize> = ends.clone().unwrap_or_default();
    let how = w.ft.borrow_mut().weighted(&[2, 3, 3]);
    let end = match how {
        0 => SrcEnd::Whole,
        1 if !bytes.is_empty() => SrcEnd::Cut(offset(w, bytes.len(), &near)),
        _ => {
            let at = offset(w, bytes.len() + 1, &near);
            let kind = pick_kind(w);
            let lasting = w.ft.borrow_mut().chance(1, 2);
            SrcEnd::Error { at, kind, lasting }
        }
    };
    w.max_steps.set(2_000_000 + 64 * bytes.len() as u64);
    // when data follows a failure in the file it must not be mistaken for a continuation
    let src = Source::new(w, Rc::new(bytes.clone()), end, pick_delivery(w));
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    let res = session(w, move || serialise_trace::read(src).map_err(|e| format!("{e:?}")))?;
    match &res {
        Ok(v) => w.ev("entries read", v.len() as u64, 0),
        Err(_) => w.ev("refused", 0, 0),
    }
    match (end, res) {
        (SrcEnd::Whole, Err(e)) => viol("own bytes refused", format!("{} entries, {} bytes: {e}", tr.len(), bytes.len())),
        (SrcEnd::Whole, Ok(v)) => {
            if v != tr {
                let at = v.iter().zip(&tr).take_while(|(a, b)| a == b).count();
                return viol(
                    "different trace",
                    format!("{} entries written, {} read, first difference at {at}", tr.len(), v.len()),
                );
            }
            Ok(())
        }
        (SrcEnd::Cut(at), Ok(v)) => {
            if v.len() >= tr.len() || v != tr[..v.len()] {
                return viol("cut bytes give another trace", format!("cut at {at} of {}: {} entries of {}", bytes.len(), v.len(), tr.len()));
            }
            if let Some(e) = &ends {
                if !e.contains(&at) {
                    return viol(
                        "torn entry accepted",
                        format!("cut at {at} of {} is inside an entry, but reading gives {} entries without an error", bytes.len(), v.len()),
                    );
                }
                w.probe("cut between entries");
            }
            Ok(())
        }
        (SrcEnd::Cut(at), Err(_)) => {
            if let Some(e) = &ends {
                if !e.contains(&at) {
                    w.probe("cut inside an entry");
                }
            }
            Ok(())
        }
        (SrcEnd::Error { at, kind, lasting }, Ok(v)) => viol(
            "source failure ignored",
            format!("source fails with {kind:?} at {at} of {} (lasting {lasting}), but reading gives {} of {} entries without an error", bytes.len(), v.len(), tr.len()),
        ),
        (SrcEnd::Error { at, .. }, Err(_)) => {
            if at == bytes.len() {
                w.probe("failure at the end");
            } else if let Some(e) = &ends {
                w.probe(if e.contains(&at) { "failure between entries" } else { "failure inside an entry" });
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------------ C09

enum DiskOp {
    Append(usize, Vec<u8>),
    Sync(usize),
}

#[derive(Default)]
struct Disk {
    ops: Vec<DiskOp>,
}

impl Disk {
    /// What is on the disk after a crash following the first n operations: synced bytes, and a drawn part of the rest.
    fn after_crash(&self, w: &World, n: usize, files: usize) -> Vec<Vec<u8>> {
        let mut sure = vec![0usize; files];
        let mut all: Vec<Vec<u8>> = vec![vec![]; files];
        for op in &self.ops[..n] {
            match op {
                DiskOp::Append(f, d) => all[*f].extend_from_slice(d),
                DiskOp::Sync(f) => sure[*f] = all[*f].len(),
            }
        }
        for f in 0..files {
            let pending = all[f].len() - sure[f];
            let keep = w.ft.borrow_mut().draw(pending as u64 + 1) as usize;
            if keep < pending {
                w.fault(F::Crash);
                w.ev("crash keeps", f as u64, (sure[f] + keep) as u64);
            }
            all[f].truncate(sure[f] + keep);
        }
        all
    }
}

#[derive(Clone, Copy)]
pub struct Cfg(pub u8, pub u8, pub u8);

impl Cfg {
    pub fn draw(t: &mut Tape) -> Cfg {
        match t.weighted(&[6, 2, 2]) {
            0 => {
                let l = 1 + t.draw(9) as u8;
                Cfg(l, l, l)
            }
            1 => Cfg(10, 10, 10),
            _ => Cfg(1 + t.draw(10) as u8, 1 + t.draw(10) as u8, 1 + t.draw(10) as u8),
        }
    }

    fn one(n: u8) -> Config {
        if n == 10 {
            Config::spicy()
        } else {
            Config::gzip(n)
        }
    }

    pub fn config(self) -> Config {
        let (a, b, c) = (Cfg::one(self.0), Cfg::one(self.1), Cfg::one(self.2));
        Config { lookahead: a.lookahead, picker: b.picker, wams: c.wams, ..a }
    }

    pub fn level(self) -> Option<u8> {
        (self.0 == self.1 && self.1 == self.2 && self.0 < 10).then_some(self.0)
    }
}

pub fn capture(cfg: Cfg, use_try: bool, preroll: &[u8], data: &[u8], codes: &[Code]) -> Vec<Trace> {
    match (use_try, cfg.level()) {
        (true, Some(l)) => tracer::try_gzip(l, preroll, data, codes),
        _ => {
            let c = cfg.config();
            let limit = c.wams.insert_only_below_length.unwrap_or(u16::MAX);
            let refs = AllRefs::with_sixteen(preroll, data, limit);
            trace::trace(codes, &Technique::new(c, &refs))
        }
    }
}

pub fn restore(cfg: Cfg, preroll: &[u8], data: &[u8], tr: &[Trace]) -> Vec<Code> {
    let c = cfg.config();
    let limit = c.wams.insert_only_below_length.unwrap_or(u16::MAX);
    let refs = AllRefs::with_sixteen(preroll, data, limit);
    trace::restore(tr, &Technique::new(c, &refs))
}

pub fn bits_to_bytes(s: &str) -> Vec<u8> {
    let mut v = vec![0u8; s.len().div_ceil(8)];
    for (i, c) in s.bytes().enumerate() {
        if c == b'1' {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}

/// A block with the given saved table bits and codes: the tables go through the parser, which is the only way in.
pub fn dynamic_block(nbits: usize, table: &[u8], codes: Vec<Code>) -> Result<Block, String> {
    let mut o = refdef::BitOut::new();
    o.bit(true);
    o.bits(2, 2);
    for i in 0..nbits {
        o.bit((table[i / 8] >> (i % 8)) & 1 == 1);
    }
    let eob = refdef::eob_code(&o.bytes, o.n).ok_or("saved tables do not parse")?;
    for b in eob {
        o.bit(b);
    }
    o.align();
    let (blocks, err) = parse_all(&o.bytes[..]);
    if let Some(e) = err {
        return Err(e);
    }
    match blocks.into_iter().next() {
        Some(Block::DynamicHuffman { trees, .. }) => Ok(Block::DynamicHuffman { trees, codes }),
        _ => Err("saved tables give no dynamic block".into()),
    }
}

struct Saved {
    header: Vec<u8>,
    data: Vec<u8>,
    footer: Vec<u8>,
    file: Vec<u8>,
}

pub fn split_debug_bits(trees: &impl std::fmt::Debug) -> (usize, Vec<u8>) {
    let s = format!("{trees:?}");
    let bits = s.rsplit(' ').next().unwrap_or("");
    (bits.len(), bits_to_bytes(bits))
}

fn archive(
    w: &Rc<World>,
    mut src: Source,
    id: usize,
    disk: &Rc<RefCell<Disk>>,
    cfg: Cfg,
    use_try: bool,
    sync_every: u64,
) -> Result<Saved, String> {
    let header = librezip::gzip::discard_header(&mut src).map_err(|e| format!("header: {e:?}"))?;
    let mut window = CircularBuffer::new();
    let mut data: Vec<u8> = Vec::new();
    let mut n = 0u64;
    let put = |d: Vec<u8>| {
        disk.borrow_mut().ops.push(DiskOp::Append(id, d));
    };
    let mut it = librezip::parse_deflate(&mut src).peekable();
    while let Some(b) = it.next() {
        let b = b.map_err(|e| format!("block {n}: {e:?}"))?;
        let last = it.peek().is_none();
        let preroll = window.vec();
        let from = data.len();
        let mut sink = Sink::new(w, SinkFault::None, Delivery::Rough);
        librezip::decompressed_block(&mut sink, &mut window, &b).map_err(|e| format!("block {n}: {e:?}"))?;
        data.extend_from_slice(&sink.got());
        let here = &data[from..];
        let (kind, nbits, table, codes) = match &b {
            Block::Uncompressed(_) => (0u8, 0, vec![], None),
            Block::FixedHuffman(c) => (1, 0, vec![], Some(c)),
            Block::DynamicHuffman { trees, codes } => {
                let (n, t) = split_debug_bits(trees);
                (2, n, t, Some(codes))
            }
        };
        let tb = match codes {
            None => {
                w.probe("stored block");
                vec![]
            }
            Some(c) => {
                if !preroll.is_empty() {
                    w.probe("block with earlier window");
                }
                if preroll.len() == 32768 {
                    w.probe("window of 32768");
                }
                if use_try && cfg.level().is_some() {
                    w.probe("try_gzip");
                }
                let tr = capture(cfg, use_try, &preroll, here, c);
                w.probe(if tr.iter().all(|t| *t == Trace::Correct) { "trace all correct" } else { "trace not all correct" });
                serialise_trace::write(&tr)
            }
        };
        let mut head = vec![kind, last as u8, cfg.0, cfg.1, cfg.2];
        head.extend_from_slice(&(here.len() as u32).to_le_bytes());
        head.extend_from_slice(&(nbits as u32).to_le_bytes());
        head.extend_from_slice(&(tb.len() as u32).to_le_bytes());
        put(head);
        put(table);
        put(tb);
        n += 1;
        if sync_every > 0 && n % sync_every == 0 {
            disk.borrow_mut().ops.push(DiskOp::Sync(id));
        }
        w.io_point();
    }
    drop(it);
    let mut f = Vec::new();
    src.read_to_end(&mut f).map_err(|e| format!("footer: {e}"))?;
    Ok(Saved { header, data, footer: f, file: vec![] })
}

fn le32(d: &[u8]) -> usize {
    u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize
}

fn rebuild(w: &Rc<World>, mut meta: Source, saved: &Saved, sink: Sink) -> Result<(), String> {
    let mut window = CircularBuffer::new();
    let mut at = 0usize;
    let mut o = librezip::BitWriter::new(sink);
    loop {
        let mut head = [0u8; 17];
        meta.read_exact(&mut head).map_err(|e| format!("metadata: {e}"))?;
        let (kind, last) = (head[0], head[1] == 1);
        let cfg = Cfg(head[2], head[3], head[4]);
        let (len, nbits, tlen) = (le32(&head[5..]), le32(&head[9..]), le32(&head[13..]));
        let mut table = vec![0u8; nbits.div_ceil(8)];
        meta.read_exact(&mut table).map_err(|e| format!("metadata: {e}"))?;
        let tr = serialise_trace::read((&mut meta).take(tlen as u64)).map_err(|e| format!("trace: {e:?}"))?;
        if at + len > saved.data.len() {
            return Err("metadata asks for more data than there is".into());
        }
        let data = &saved.data[at..at + len];
        let preroll = window.vec();
        let block = match kind {
            0 => Block::Uncompressed(data.to_vec()),
            k => {
                let codes = restore(cfg, &preroll, data, &tr);
                if k == 1 {
                    Block::FixedHuffman(codes)
                } else {
                    dynamic_block(nbits, &table, codes)?
                }
            }
        };
        window.extend(data);
        at += len;
        o.write_bit(last).map_err(|e| format!("{e:?}"))?;
        librezip::compressed_block(&mut o, &block).map_err(|e| format!("{e:?}"))?;
        w.io_point();
        if last {
            break;
        }
    }
    o.align().map_err(|e| format!("{e:?}"))?;
    o.into_inner();
    Ok(())
}

pub fn c09(w: &Rc<World>) -> Res {
    struct Plan {
        file: Vec<u8>,
        body: usize,
        cfg: Cfg,
        use_try: bool,
        sync: u64,
    }
    let mut plans: Vec<Plan> = Vec::new();
    let mut total = 0;
    {
        let mut t = w.wl.borrow_mut();
        let n = 1 + t.weighted(&[6, 2, 1]);
        for _ in 0..n {
            let mut p = gen::StreamParams { max_out: t.pick(&[200usize, 800, 2500, 5000]), ..Default::default() };
            if t.chance(1, 12) {
                p.prefill = t.pick(&[32768usize, 32767, 33000, 40000, 65536]);
                p.prefill_random = true;
                p.max_out = p.prefill + 1500;
            } else if t.chance(1, 120) {
                p.big = t.pick(&[66_000usize, 33_000, 100_000, 140_000]);
                p.max_out = p.big + 500;
            } else {
                gen::rare_shape(&mut t, &mut p, 200, false);
            }
            probe_shape(w, &p);
            let s = gen::stream(&mut t, &p);
            let r = ref_parse(&s.bytes);
            assert!(r.clean(), "the generator made an invalid stream");
            let (data, _) = r.inflate();
            let mut file = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
            file.extend_from_slice(&s.bytes);
            file.extend_from_slice(&footer(&data));
            let cfg = Cfg::draw(&mut t);
            match (cfg.level(), cfg.0 == 10 && cfg.1 == 10 && cfg.2 == 10) {
                (Some(_), _) => w.probe("level configuration"),
                (_, true) => w.probe("lazy configuration"),
                _ => w.probe("mixed configuration"),
            }
            total += file.len() + data.len();
            let use_try = t.chance(1, 2);
            w.note(|| {
                format!("file {}: lookahead/picker/limits {}/{}/{}; {}; hex {}", plans.len(), cfg.0, cfg.1, cfg.2, s.desc.join(" | "), hex(&file, 300))
            });
            plans.push(Plan { body: s.bytes.len(), file, cfg, use_try, sync: t.pick(&[0u64, 1, 2]) });
        }
    }
    if plans.len() > 1 {
        w.probe("several files");
    }
    w.max_steps.set(4_000_000 + 64 * total as u64);
    let mean = w.ft.borrow_mut().pick(&[0u64, 3, 30, 300]);
    w.set_preemption(mean);
    let disk: Rc<RefCell<Disk>> = Rc::default();
    let n = plans.len();
    let saved: Rc<RefCell<Vec<Option<Result<Saved, String>>>>> = Rc::new(RefCell::new((0..n).map(|_| None).collect()));
    // capture
    let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (i, p) in plans.iter().enumerate() {
        let src = Source::new(w, Rc::new(p.file.clone()), SrcEnd::Whole, pick_delivery(w));
        let (w2, disk, saved) = (w.clone(), disk.clone(), saved.clone());
        let (cfg, ut, sync) = (p.cfg, p.use_try, p.sync);
        bodies.push(Box::new(move || {
            let r = archive(&w2, src, i, &disk, cfg, ut, sync);
            saved.borrow_mut()[i] = Some(r);
        }));
    }
    let ends = w.run_sessions(bodies, &vec![None; n], &mut || {});
    for e in &ends {
        if let SessEnd::Panicked(m, l) = e {
            panicked(m, l)?;
            unreachable!();
        }
        ended(e)?;
    }
    let mut files: Vec<Saved> = Vec::new();
    for (i, s) in saved.borrow_mut().iter_mut().enumerate() {
        match s.take().expect("archived") {
            Ok(mut s) => {
                s.file = plans[i].file.clone();
                files.push(s);
            }
            Err(e) => return viol("capture fails", format!("file {i}: {e}")),
        }
    }
    // crash and restart
    let crash = w.ft.borrow_mut().chance(1, 3);
    let nops = disk.borrow().ops.len();
    let full: Vec<usize> = (0..n)
        .map(|f| {
            disk.borrow().ops.iter().map(|o| if let DiskOp::Append(g, d) = o { if *g == f { d.len() } else { 0 } } else { 0 }).sum()
        })
        .collect();
    let images: Vec<Vec<u8>> = if crash {
        let at = nops - w.ft.borrow_mut().draw((nops as u64 + 1).min(8)) as usize;
        w.ev("crash after disk operation", at as u64, nops as u64);
        disk.borrow().after_crash(w, at, n)
    } else {
        let mut v = vec![vec![]; n];
        for op in &disk.borrow().ops {
            if let DiskOp::Append(f, d) = op {
                v[*f].extend_from_slice(d);
            }
        }
        v
    };
    for (i, m) in images.iter().enumerate() {
        w.hash_bytes("metadata", m);
        w.note(|| format!("file {i}: {} of {} bytes of metadata on disk", m.len(), full[i]));
    }
    // rebuild, in any order, interleaved
    let files = Rc::new(files);
    let results: Rc<RefCell<Vec<Option<Result<(), String>>>>> = Rc::new(RefCell::new(vec![None; n]));
    let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
    let mut sinks = Vec::new();
    for (i, m) in images.iter().enumerate() {
        let src = Source::new(w, Rc::new(m.clone()), SrcEnd::Whole, pick_delivery(w));
        let sink = Sink::new(w, SinkFault::None, Delivery::Rough);
        sinks.push(sink.clone());
        let (w2, files, results) = (w.clone(), files.clone(), results.clone());
        bodies.push(Box::new(move || {
            let r = rebuild(&w2, src, &files[i], sink);
            results.borrow_mut()[i] = Some(r);
        }));
    }
    let ends = w.run_sessions(bodies, &vec![None; n], &mut || {});
    for i in 0..n {
        let torn = images[i].len() < full[i];
        let res = match &ends[i] {
            SessEnd::Panicked(m, l) => {
                if harness_location(l) || !torn {
                    panicked(m, l)?;
                }
                Err(format!("panic: {m}"))
            }
            e => {
                ended(e)?;
                results.borrow_mut()[i].take().expect("rebuilt")
            }
        };
        let mut out = files[i].header.clone();
        out.extend_from_slice(&sinks[i].got());
        out.extend_from_slice(&files[i].footer);
        w.hash_bytes("rebuilt", &out);
        match res {
            Ok(()) if out == files[i].file => {}
            Ok(()) => {
                let class = if torn { "torn metadata rebuilds another file" } else { "not rebuilt" };
                return viol(class, format!("file {i} (stream of {} bytes): {}", plans[i].body, diff(&out, &files[i].file)));
            }
            Err(_) if torn => w.probe("torn metadata refused"),
            Err(e) => return viol("rebuild fails", format!("file {i}: {e}")),
        }
    }
    Ok(())
}
