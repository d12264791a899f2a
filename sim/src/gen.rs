//! Workload: DEFLATE streams, gzip headers and plain data, all derived from a tape.

use std::io::Write;

use crate::refdef::*;
use crate::rng::Rng;
use crate::tape::Tape;

/// Plain data of the given length. Small data is varied, large data comes from a seeded stream.
pub fn data(t: &mut Tape, len: usize) -> Vec<u8> {
    let kind = t.weighted(&[3, 3, 3, 2, 2, 2, 1]);
    let seed = t.seed();
    data_kind(kind, seed, len)
}

pub fn data_kind(kind: usize, seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut o = Vec::with_capacity(len + 300);
    match kind {
        // one byte value
        0 => o.resize(len, r.below(256) as u8),
        // few letters
        1 => {
            let n = 1 + r.below(6);
            while o.len() < len {
                o.push(b'a' + r.below(n) as u8);
            }
        }
        // words, with repeats
        2 => {
            let words: Vec<Vec<u8>> = (0..2 + r.below(12))
                .map(|_| (0..1 + r.below(9)).map(|_| 32 + r.below(95) as u8).collect())
                .collect();
            while o.len() < len {
                let w = &words[r.below(words.len() as u64) as usize];
                o.extend_from_slice(w);
                if r.one_in(3) {
                    o.push(b' ');
                }
            }
        }
        // random bytes
        3 => {
            while o.len() < len {
                o.extend_from_slice(&r.next().to_le_bytes());
            }
        }
        // random with copies of earlier parts at any distance
        4 => {
            while o.len() < len {
                if !o.is_empty() && r.one_in(2) {
                    let from = r.below(o.len() as u64) as usize;
                    let n = 3 + r.below(300) as usize;
                    for i in 0..n {
                        let b = o[from + i];
                        o.push(b);
                    }
                } else {
                    for _ in 0..1 + r.below(40) {
                        o.push(r.next() as u8);
                    }
                }
            }
        }
        // lines of a table
        5 => {
            let mut i = r.below(1000);
            while o.len() < len {
                let _ = writeln!(o, "{} item-{} value={}", i, i % 17, r.below(100));
                i += 1 + r.below(2);
            }
        }
        // long runs
        _ => {
            while o.len() < len {
                let b = r.below(4) as u8;
                let n = r.below(700) as usize;
                o.resize(o.len() + n + 1, b);
            }
        }
    }
    o.truncate(len);
    o
}

/// A length with the interesting small and boundary values over-represented.
pub fn len(t: &mut Tape, max: usize) -> usize {
    let max = max as u64;
    (match t.weighted(&[4, 4, 2, 2, 1]) {
        0 => t.draw(max.min(20) + 1),
        1 => t.draw(max.min(300) + 1),
        2 => t.draw(max.min(5000) + 1),
        3 => t.draw(max + 1),
        _ => max - t.draw(max.min(3) + 1),
    }) as usize
}

#[derive(Clone, Debug)]
pub struct StreamParams {
    /// rough limit on the decompressed size
    pub max_out: usize,
    /// allow 284 + 31 for length 258
    pub long258: bool,
    /// allow things decoders disagree on
    pub grey: bool,
    /// one block of the stream gets a format violation (the stream may still be cut by it)
    pub evil: bool,
    /// at least this much data is emitted before anything else (a stored or run-length block)
    pub prefill: usize,
    /// of random bytes only (the match finder is slow on repetitive windows)
    pub prefill_random: bool,
    /// one block of codes gets this much data: random, with a few words recurring far apart
    pub big: usize,
    /// that many tiny blocks come first
    pub many: usize,
    /// one block repeats earlier data until there is this much of it
    pub long: usize,
    /// some blocks with round numbers of codes
    pub round: bool,
}

impl Default for StreamParams {
    fn default() -> Self {
        StreamParams { max_out: 4000, long258: false, grey: false, evil: false, prefill: 0, prefill_random: false, big: 0, many: 0, long: 0, round: false }
    }
}

#[derive(Clone, Copy, Debug)]
enum Sym {
    Lit(u8),
    Ref { dist: u16, run: u16 },
    /// 258 as 284 + 31
    Long258 { dist: u16 },
    /// anything: length symbol, extra, distance symbol, extra
    Raw { s: u16, e: u16, d: u16, de: u16 },
}

fn len_sym(run: u16) -> (u16, u32, u16) {
    let i = (0..29).rev().find(|i| LBASE[*i] <= run && (*i < 28 || run == 258)).unwrap();
    (257 + i as u16, LEXT[i], run - LBASE[i])
}

fn dist_sym(dist: u16) -> (u16, u32, u16) {
    let i = (0..30).rev().find(|i| DBASE[*i] <= u32::from(dist)).unwrap();
    (i as u16, DEXT[i], (u32::from(dist) - DBASE[i]) as u16)
}

fn parts(s: Sym) -> (u16, u32, u16, Option<(u16, u32, u16)>) {
    match s {
        Sym::Lit(b) => (u16::from(b), 0, 0, None),
        Sym::Ref { dist, run } => {
            let (s, n, e) = len_sym(run);
            (s, n, e, Some(dist_sym(dist)))
        }
        Sym::Long258 { dist } => (284, 5, 31, Some(dist_sym(dist))),
        Sym::Raw { s, e, d, de } => {
            let n = if (257..286).contains(&s) { LEXT[s as usize - 257] } else { 0 };
            let dn = if d < 30 { DEXT[d as usize] } else { 0 };
            (s, n, e, if s < 257 { None } else { Some((d, dn, de)) })
        }
    }
}

fn pick_run(r: &mut dyn FnMut(u64) -> u64) -> u16 {
    match r(6) {
        0 => 3,
        1 => 258,
        2 => 3 + r(256) as u16,
        3 => 3 + r(12) as u16,
        4 => 250 + r(9) as u16,
        _ => {
            // both sides of the length code boundaries
            let i = r(28) as usize;
            (LBASE[i] as i32 - 1 + r(3) as i32).clamp(3, 258) as u16
        }
    }
}

fn pick_dist(r: &mut dyn FnMut(u64) -> u64, avail: usize) -> u16 {
    let a = avail.min(32768) as u64;
    debug_assert!(a >= 1);
    (match r(6) {
        0 => 1 + r(a.min(4)),
        1 => 1 + r(a.min(40)),
        2 => 1 + r(a),
        3 => a,
        4 => a - r(a.min(5)),
        _ => {
            let i = r(30) as usize;
            (i64::from(DBASE[i]) - 1 + r(3) as i64).clamp(1, a as i64) as u64
        }
    }) as u16
}

/// Complete code lengths for the given symbols (at least two), none longer than `limit`.
fn complete_lens(r: &mut Rng, syms: &[u16], n: usize, limit: u8, mode: usize, freq: &[u32]) -> Vec<u8> {
    let k = syms.len();
    assert!(k >= 2 && k <= n);
    let mut depths: Vec<u8> = Vec::new();
    if mode == 0 {
        // Huffman, then flattened until it fits the limit
        let mut f: Vec<u64> = syms.iter().map(|s| u64::from(freq.get(*s as usize).copied().unwrap_or(0)) + 1).collect();
        loop {
            let mut items: Vec<(u64, Vec<usize>)> = f.iter().enumerate().map(|(i, w)| (*w, vec![i])).collect();
            let mut d = vec![0u8; k];
            while items.len() > 1 {
                items.sort_by(|a, b| b.0.cmp(&a.0).then(b.1.len().cmp(&a.1.len())));
                let a = items.pop().unwrap();
                let b = items.pop().unwrap();
                let mut m = a.1;
                m.extend(b.1);
                for i in &m {
                    d[*i] += 1;
                }
                items.push((a.0 + b.0, m));
            }
            if d.iter().all(|x| *x <= limit) {
                depths = d;
                break;
            }
            for w in &mut f {
                *w = (*w + 1) / 2 + 1;
            }
        }
    } else {
        let mut leaves: Vec<u8> = vec![1, 1];
        while leaves.len() < k {
            // how many leaves the rest of the tree can still make room for
            let can: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < limit).collect();
            let i = match mode {
                1 => can[r.below(can.len() as u64) as usize],
                // as deep as possible
                _ => *can.iter().max_by_key(|i| leaves[**i]).unwrap(),
            };
            leaves[i] += 1;
            let d = leaves[i];
            leaves.push(d);
        }
        for i in (1..k).rev() {
            let j = r.below(i as u64 + 1) as usize;
            leaves.swap(i, j);
        }
        depths = leaves;
    }
    let mut lens = vec![0u8; n];
    for (s, d) in syms.iter().zip(depths) {
        lens[*s as usize] = d;
    }
    lens
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Evil {
    None,
    BlockType,
    StoredLen,
    Oversubscribed,
    Incomplete,
    RepeatFirst,
    RepeatPast,
    LenSym,
    DistSym,
    TooFar,
    NoDistTable,
    OverDist,
    BadClc,
}

const EVILS: [Evil; 12] = [
    Evil::BlockType,
    Evil::StoredLen,
    Evil::Oversubscribed,
    Evil::Incomplete,
    Evil::RepeatFirst,
    Evil::RepeatPast,
    Evil::LenSym,
    Evil::DistSym,
    Evil::TooFar,
    Evil::NoDistTable,
    Evil::OverDist,
    Evil::BadClc,
];

struct G<'a> {
    t: &'a mut Tape,
    o: BitOut,
    out: Vec<u8>,
    p: StreamParams,
    desc: Vec<String>,
    last_dyn: Option<Tables>,
}

/// The tables of a dynamic block, as they were written.
#[derive(Clone)]
struct Tables {
    hlit: usize,
    hdist: usize,
    ncl: usize,
    cl: Vec<u8>,
    ops: Vec<(u16, u32, u32)>,
}

pub struct GenStream {
    pub bytes: Vec<u8>,
    pub desc: Vec<String>,
}

pub fn stream(t: &mut Tape, p: &StreamParams) -> GenStream {
    // one stream in four comes from an ordinary compressor
    if !p.evil && p.prefill == 0 && p.big == 0 && p.many == 0 && p.long == 0 && t.chance(1, 4) {
        return miniz_stream(t, p);
    }
    let mut g = G { t, o: BitOut::new(), out: vec![], p: p.clone(), desc: vec![], last_dyn: None };
    if p.prefill > 0 {
        g.prefill();
    }
    if p.big > 0 {
        g.big();
    }
    if p.many > 0 {
        g.many();
    }
    if p.long > 0 {
        g.long();
    }
    let nblocks = 1 + g.t.weighted(&[4, 3, 2, 1, 1]);
    let evil_at = if p.evil { g.t.draw(nblocks as u64) as usize } else { usize::MAX };
    for i in 0..nblocks {
        let evil = if i == evil_at { g.t.pick(&EVILS) } else { Evil::None };
        g.block(i + 1 == nblocks, evil);
    }
    g.o.align();
    let (bytes, desc) = (g.o.bytes, g.desc);
    GenStream { bytes, desc }
}

pub struct Repeated {
    pub bytes: Vec<u8>,
    pub desc: String,
    /// blocks in the part that is repeated, and how often it is
    pub unit: usize,
    pub times: usize,
    /// blocks before it
    pub before: usize,
    /// with other tables each time, so that the largest of them grows along the stream
    pub fresh: bool,
}

/// More than what the tables of one block take in any form.
pub const TABLES: usize = 24 << 10;

/// A few blocks, over and over again.
/// `bulk`: much stored data.
pub fn repeated(t: &mut Tape, max_out: usize, times: usize, bulk: bool) -> Repeated {
    let times = if bulk { 17 } else { times };
    let room = if bulk { 2_000_000 } else { 60_000 };
    repeated_often(t, max_out, &[times], bulk, room).remove(0)
}

/// The same few blocks repeated so many times, or somewhat fewer if the data gets too large otherwise.
pub fn repeated_often(t: &mut Tape, max_out: usize, times: &[usize], bulk: bool, room: usize) -> Vec<Repeated> {
    let p = StreamParams { max_out, ..Default::default() };
    let mut g = G { t, o: BitOut::new(), out: vec![], p, desc: vec![], last_dyn: None };
    // (no content in what is repeated: nothing can be kept back because of it)
    let hollow = !bulk && g.t.chance(1, 4);
    let before = if hollow || g.t.chance(1, 2) {
        // (more than twice what references reach)
        for k in 0..2 {
            let d = data_kind(3 + k, 7, 33_000);
            g.stored(&d, false, Evil::None);
        }
        2
    } else {
        0
    };
    let lead = g.out.len();
    enum B {
        Stored(Vec<u8>),
        Bits(Vec<bool>),
        /// written with other tables each time
        Fresh(Vec<Sym>),
    }
    let fresh = !bulk && g.t.chance(1, 3);
    let unit = if bulk { 1 } else { 1 + g.t.draw(3) as usize };
    let mut blocks = Vec::new();
    for _ in 0..unit {
        let (out, from) = (g.out.len(), g.o.n);
        if bulk || g.t.chance(1, 4) {
            let n = if bulk { 65_535 - g.t.draw(45_000) as usize } else { len(g.t, max_out) };
            let d = if hollow { vec![] } else { data(g.t, n) };
            g.stored(&d, false, Evil::None);
            blocks.push(B::Stored(g.out[out..].to_vec()));
            continue;
        }
        let syms = if hollow { vec![] } else { g.symbols(max_out) };
        g.o.bit(false);
        g.desc.push(format!("{} codes", syms.len()));
        if g.t.chance(1, 2) && !fresh {
            g.o.bits(2, 1);
            g.emit_fixed(&syms);
        } else {
            g.o.bits(2, 2);
            g.dynamic(&syms, false, Evil::None);
            if fresh {
                blocks.push(B::Fresh(syms));
                continue;
            }
        }
        blocks.push(B::Bits((from..g.o.n).map(|i| (g.o.bytes[i / 8] >> (i % 8)) & 1 == 1).collect()));
    }
    let desc = g.desc.join(" | ");
    let unit_out = (g.out.len() - lead).max(1);
    let (o, out) = (g.o.clone(), g.out.clone());
    let mut all = Vec::new();
    for times in times {
        g.o = o.clone();
        g.out.clone_from(&out);
        let times = (*times).min(room / unit_out).max((*times).min(16));
        for _ in 1..times {
            for b in &blocks {
                match b {
                    B::Stored(d) => g.stored(d, false, Evil::None),
                    B::Bits(v) => v.iter().for_each(|b| g.o.bit(*b)),
                    B::Fresh(v) => {
                        g.o.bit(false);
                        g.o.bits(2, 2);
                        g.dynamic(v, false, Evil::None);
                    }
                }
            }
        }
        // an empty last block
        g.o.bit(true);
        g.o.bits(2, 1);
        g.o.bits(7, 0);
        g.o.align();
        let desc = format!("{times} times{}: {desc}", if fresh { ", with other tables each time" } else { "" });
        all.push(Repeated { bytes: std::mem::take(&mut g.o.bytes), desc, unit, times, before, fresh });
    }
    all
}

/// Now and then a stream of an unusual shape: hundreds of blocks, or far more data than codes.
pub fn rare_shape(t: &mut Tape, p: &mut StreamParams, rarity: u64, long: bool) {
    if t.chance(1, rarity) {
        if !long || t.chance(1, 2) {
            p.many = if t.chance(1, 30) { 65_700 } else { t.pick(&[260usize, 130, 515, 1100, 70]) };
            p.max_out += 4 * p.many;
        } else {
            p.long = t.pick(&[70_000usize, 140_000, 300_000, 1_200_000]);
            p.max_out += p.long;
        }
    }
}

pub fn compress(kind: &[u8], level: u32, flush_at: &[(usize, bool)]) -> Vec<u8> {
    let mut c = flate2::Compress::new(flate2::Compression::new(level), false);
    let mut out = Vec::with_capacity(kind.len() + 1000);
    let mut at = 0;
    for (pos, sync) in flush_at {
        let to = (*pos).clamp(at, kind.len());
        let f = if *sync { flate2::FlushCompress::Sync } else { flate2::FlushCompress::Full };
        run_compress(&mut c, &kind[at..to], &mut out, f);
        at = to;
    }
    run_compress(&mut c, &kind[at..], &mut out, flate2::FlushCompress::Finish);
    out
}

fn run_compress(c: &mut flate2::Compress, mut data: &[u8], out: &mut Vec<u8>, f: flate2::FlushCompress) {
    loop {
        out.reserve(1000 + data.len() / 2);
        let before = c.total_in();
        let spare = out.capacity() - out.len();
        let st = c.compress_vec(data, out, f).expect("compress");
        data = &data[(c.total_in() - before) as usize..];
        let full = out.capacity() == out.len() || spare == 0;
        match st {
            flate2::Status::StreamEnd => return,
            _ if data.is_empty() && !full && f != flate2::FlushCompress::Finish => return,
            _ => {}
        }
    }
}

fn miniz_stream(t: &mut Tape, p: &StreamParams) -> GenStream {
    let n = len(t, p.max_out);
    let d = data(t, n);
    let level = t.draw(10) as u32;
    let nf = t.weighted(&[3, 1, 1]);
    let mut f: Vec<(usize, bool)> = (0..nf).map(|_| (t.draw(n as u64 + 1) as usize, t.chance(1, 2))).collect();
    f.sort();
    let bytes = compress(&d, level, &f);
    let desc = vec![format!("ordinary compressor level {level} over {n} bytes, flushes {f:?}: {} bytes", bytes.len())];
    GenStream { bytes, desc }
}

impl<'a> G<'a> {
    fn prefill(&mut self) {
        let n = self.p.prefill;
        let seed = self.t.seed();
        let kind = if self.p.prefill_random { 3 } else { self.t.pick(&[3usize, 2, 4]) };
        // what comes before decides where in the window it lands
        if self.t.chance(1, 2) {
            let k = 1 + len(self.t, 300);
            let lead = data(self.t, k);
            self.stored(&lead, false, Evil::None);
        }
        let d = data_kind(kind, seed, n);
        let pieces = self.t.chance(1, 3);
        let mut at = 0;
        while at < n {
            let mut k = (n - at).min(65535);
            if pieces {
                k = 1 + self.t.draw(k as u64) as usize;
            }
            self.stored(&d[at..at + k], false, Evil::None);
            at += k;
        }
    }

    fn big(&mut self) {
        let n = self.p.big;
        let mut r = Rng::new(self.t.seed());
        let words: Vec<Vec<u8>> =
            (0..1 + r.below(6)).map(|_| (0..3 + r.below(10)).map(|_| r.next() as u8).collect()).collect();
        // (rare repeats: the match finder takes time quadratic in the number of references)
        let every = 400 + r.below(self.t.pick(&[40_000u64, 8000, 1000]));
        let mut d: Vec<u8> = Vec::with_capacity(n + 20);
        while d.len() < n {
            d.extend_from_slice(&words[r.below(words.len() as u64) as usize]);
            let k = r.below(2 * every);
            for _ in 0..k {
                d.push(r.next() as u8);
            }
        }
        d.truncate(n);
        let mut v = Vec::new();
        if self.t.chance(1, 2) {
            self.greedy(&mut v, &d, 0);
        } else {
            self.out.extend_from_slice(&d);
            v.extend(d.iter().map(|b| Sym::Lit(*b)));
        }
        self.o.bit(false);
        if self.t.chance(1, 2) {
            self.desc.push(format!("big fixed, {} codes for {n} bytes", v.len()));
            self.o.bits(2, 1);
            self.emit_fixed(&v);
        } else {
            self.o.bits(2, 2);
            self.dynamic(&v, false, Evil::None);
        }
    }

    /// A long row of tiny blocks: whatever is kept or counted per block shows.
    fn many(&mut self) {
        let n = self.p.many;
        let mut r = Rng::new(self.t.seed());
        // kinds of blocks that occur: stored, fixed, dynamic; empty or not
        let weights = self.t.pick(&[[3u64, 3, 1], [1, 0, 0], [0, 1, 0], [4, 1, 0], [1, 4, 0]]);
        let empty = self.t.pick(&[4u64, 1, 2]);
        // (so many that only the smallest ones are affordable)
        let (weights, empty) = if n > 10_000 { ([0, 1, 0], 1) } else { (weights, empty) };
        let sum: u64 = weights.iter().sum();
        let verbose = self.desc.len();
        for _ in 0..n {
            let mut x = r.below(sum);
            let kind = weights.iter().position(|w| {
                let hit = x < *w;
                x = x.wrapping_sub(*w);
                hit
            });
            let k = if r.one_in(empty) && (n <= 10_000 || !r.one_in(1000)) { 0 } else { 1 + r.below(4) };
            if kind == Some(0) {
                let d: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
                self.stored(&d, false, Evil::None);
                continue;
            }
            let mut v = Vec::new();
            for _ in 0..k {
                if !self.out.is_empty() && r.one_in(2) {
                    let avail = self.out.len();
                    let mut rr = |n: u64| r.below(n);
                    let run = if rr(4) == 0 { pick_run(&mut rr) } else { 3 + rr(4) as u16 };
                    let dist = pick_dist(&mut rr, avail);
                    self.push_ref(&mut v, dist, run, false);
                } else {
                    let b = r.next() as u8;
                    self.out.push(b);
                    v.push(Sym::Lit(b));
                }
            }
            self.o.bit(false);
            if kind == Some(1) {
                self.o.bits(2, 1);
                self.emit_fixed(&v);
            } else {
                self.o.bits(2, 2);
                self.dynamic(&v, false, Evil::None);
            }
        }
        self.desc.truncate(verbose);
        self.desc.push(format!("{n} tiny blocks, kinds {weights:?}, one in {empty} empty"));
    }

    fn long(&mut self) {
        let n = self.p.long;
        let mut r = Rng::new(self.t.seed());
        let mut v = Vec::new();
        let lead = 1 + len(self.t, 300);
        for _ in 0..lead {
            let b = r.next() as u8;
            self.out.push(b);
            v.push(Sym::Lit(b));
        }
        let until = self.out.len() + n;
        // a literal now and then keeps the repeated part from being the same all along
        let lits = self.t.pick(&[200u64, 0, 20]);
        let exact = self.t.chance(1, 2);
        while self.out.len() < until {
            if lits > 0 && r.one_in(lits) {
                let b = r.next() as u8;
                self.out.push(b);
                v.push(Sym::Lit(b));
            }
            let dist = if exact { lead as u16 } else { 1 + r.below(self.out.len().min(32768) as u64) as u16 };
            self.push_ref(&mut v, dist, 258, false);
        }
        self.o.bit(false);
        if self.t.chance(1, 2) {
            self.desc.push(format!("long fixed, {} codes for {n} bytes", v.len()));
            self.o.bits(2, 1);
            self.emit_fixed(&v);
        } else {
            self.o.bits(2, 2);
            self.dynamic(&v, false, Evil::None);
        }
    }

    fn head(&mut self, last: bool, ty: u32) {
        self.o.bit(last);
        self.o.bits(2, ty);
    }

    fn stored(&mut self, d: &[u8], last: bool, evil: Evil) {
        self.desc.push(format!("stored {} bytes{}", d.len(), if last { ", final" } else { "" }));
        self.head(last, 0);
        if self.p.grey && self.o.n % 8 != 0 && self.t.chance(1, 8) {
            self.o.bit(true);
            self.desc.push("nonzero padding".into());
        }
        self.o.align();
        let len = d.len() as u32;
        let mut nlen = !len & 0xffff;
        if evil == Evil::StoredLen {
            nlen ^= 1 << self.t.draw(16);
            self.desc.push("length complement wrong".into());
        }
        self.o.bits(16, len);
        self.o.bits(16, nlen);
        self.o.bytes.extend_from_slice(d);
        self.o.n += 8 * d.len();
        self.out.extend_from_slice(d);
    }

    fn block(&mut self, last: bool, evil: Evil) {
        let room = self.p.max_out.saturating_sub(self.out.len());
        match evil {
            Evil::BlockType => {
                self.desc.push("reserved block type".into());
                self.head(last, 3);
                let junk = self.t.draw(200);
                self.o.bits(8, junk as u32);
                return;
            }
            Evil::StoredLen => {
                let n = len(self.t, room.min(300));
                let d = data(self.t, n);
                self.stored(&d, last, evil);
                return;
            }
            _ => {}
        }
        let dynamic_only = matches!(
            evil,
            Evil::Oversubscribed
                | Evil::Incomplete
                | Evil::RepeatFirst
                | Evil::RepeatPast
                | Evil::NoDistTable
                | Evil::OverDist
                | Evil::BadClc
        );
        let codes_only = dynamic_only || matches!(evil, Evil::LenSym | Evil::DistSym | Evil::TooFar);
        let kind = if dynamic_only {
            2
        } else if codes_only {
            1 + self.t.weighted(&[2, 1])
        } else {
            self.t.weighted(&[2, 3, 5])
        };
        if kind == 2 && evil == Evil::None && self.last_dyn.is_some() && self.t.chance(1, 3) {
            self.sibling(last, room);
            return;
        }
        if kind == 0 {
            let n = len(self.t, room.min(65535));
            let d = data(self.t, n);
            self.stored(&d, last, Evil::None);
            return;
        }
        let mut syms = self.symbols(room);
        self.spoil(&mut syms, evil);
        if kind == 1 {
            self.desc.push(format!("fixed, {} codes{}", syms.len(), if last { ", final" } else { "" }));
            self.head(last, 1);
            self.emit_fixed(&syms);
        } else {
            self.head(last, 2);
            self.dynamic(&syms, last, evil);
        }
    }

    fn spoil(&mut self, syms: &mut Vec<Sym>, evil: Evil) {
        let d1 = |g: &mut G| g.t.draw(30) as u16;
        let bad = match evil {
            Evil::LenSym => Sym::Raw { s: 286 + self.t.draw(2) as u16, e: 0, d: d1(self), de: 0 },
            Evil::DistSym => Sym::Raw { s: 257 + self.t.draw(29) as u16, e: 0, d: 30 + self.t.draw(2) as u16, de: 0 },
            Evil::TooFar => {
                // how much data there is before the chosen place
                let at = self.t.draw(syms.len() as u64 + 1) as usize;
                let mut have = self.out.len();
                for s in syms.iter().rev().take(syms.len() - at) {
                    have -= match s {
                        Sym::Lit(_) => 1,
                        Sym::Ref { run, .. } => *run as usize,
                        Sym::Long258 { .. } => 258,
                        Sym::Raw { .. } => 0,
                    };
                }
                if have < 32768 {
                    let dist = have as u64 + 1 + if self.t.chance(1, 2) { 0 } else { self.t.draw(32768 - have as u64) };
                    let run = 3 + self.t.draw(256) as u16;
                    self.desc.push(format!("reference {dist} back at offset {have}"));
                    syms.insert(at, Sym::Ref { dist: dist as u16, run });
                }
                return;
            }
            Evil::NoDistTable => {
                syms.retain(|s| matches!(s, Sym::Lit(_)));
                self.desc.push("reference without distance table".into());
                Sym::Ref { dist: 1, run: 3 + self.t.draw(256) as u16 }
            }
            _ => return,
        };
        self.desc.push(format!("{bad:?}"));
        let at = self.t.draw(syms.len() as u64 + 1) as usize;
        syms.insert(at, bad);
    }

    /// Codes of one block; self.out grows by what they denote.
    fn symbols(&mut self, room: usize) -> Vec<Sym> {
        let mut v = Vec::new();
        let mode = self.t.weighted(&[3, 4, 2, 1]);
        match mode {
            // explicit short list
            0 => {
                let n = self.t.draw(20);
                for _ in 0..n {
                    let pr = if self.t.chance(1, 2) && !self.out.is_empty() { 1 } else { 0 };
                    if pr == 1 {
                        let avail = self.out.len();
                        let t = &mut *self.t;
                        let run = pick_run(&mut |n| t.draw(n));
                        let dist = pick_dist(&mut |n| t.draw(n), avail);
                        let l258 = self.p.long258 && self.t.chance(1, 6);
                        self.push_ref(&mut v, dist, run, l258);
                    } else {
                        let b = self.t.draw(256) as u8;
                        self.out.push(b);
                        v.push(Sym::Lit(b));
                    }
                }
            }
            // bulk mixture
            1 => {
                let mut n = len(self.t, 2000);
                let mut room = room;
                if self.p.round && self.t.chance(1, 100) {
                    // round numbers of codes, and their neighbours
                    n = self.t.pick(&[4096usize, 512, 1024, 2048, 8192, 16_384, 32_768]) + self.t.draw(3) as usize - 1;
                    room = usize::MAX / 2;
                }
                let mut r = Rng::new(self.t.seed());
                let p_ref = self.t.pick(&[0u64, 1, 8, 32, 60]);
                let alpha = 1 + self.t.draw(256);
                let base = self.t.draw(256);
                let cap = self.out.len() + room;
                for _ in 0..n {
                    if self.out.len() >= cap {
                        break;
                    }
                    if !self.out.is_empty() && r.below(64) < p_ref {
                        let avail = self.out.len();
                        let mut rr = |n: u64| r.below(n);
                        let run = pick_run(&mut rr);
                        let dist = pick_dist(&mut rr, avail);
                        let l258 = self.p.long258 && r.one_in(50);
                        self.push_ref(&mut v, dist, run, l258);
                    } else {
                        let b = (base + r.below(alpha)) as u8;
                        self.out.push(b);
                        v.push(Sym::Lit(b));
                    }
                }
            }
            // greedy match of plain data (window: everything so far)
            2 => {
                let n = len(self.t, room.min(3000));
                let d = data(self.t, n);
                let skip = self.t.draw(5) as usize;
                self.greedy(&mut v, &d, skip);
            }
            // long runs only: covers a lot of distance with few codes
            _ => {
                if self.out.is_empty() {
                    let b = self.t.draw(256) as u8;
                    self.out.push(b);
                    v.push(Sym::Lit(b));
                }
                let n = self.t.draw(1 + (room as u64 / 258).min(200));
                let dist = 1 + self.t.draw(self.out.len().min(32768) as u64) as u16;
                for _ in 0..n {
                    self.push_ref(&mut v, dist, 258, false);
                }
            }
        }
        v
    }

    fn push_ref(&mut self, v: &mut Vec<Sym>, dist: u16, run: u16, l258: bool) {
        for _ in 0..run {
            let b = self.out[self.out.len() - dist as usize];
            self.out.push(b);
        }
        v.push(if l258 && run == 258 { Sym::Long258 { dist } } else { Sym::Ref { dist, run } });
    }

    fn greedy(&mut self, v: &mut Vec<Sym>, d: &[u8], skip: usize) {
        use std::collections::BTreeMap;
        let base = self.out.len();
        self.out.extend_from_slice(d);
        let mut last: BTreeMap<[u8; 3], Vec<usize>> = BTreeMap::new();
        let start = base.saturating_sub(32768);
        let all = &self.out;
        let mut pos = start;
        let mut i = base;
        let mut k = 0;
        while i < all.len() {
            while pos < i {
                if pos + 3 <= all.len() {
                    last.entry([all[pos], all[pos + 1], all[pos + 2]]).or_default().push(pos);
                }
                pos += 1;
            }
            let mut best = (0usize, 0usize);
            if i + 3 <= all.len() {
                if let Some(c) = last.get(&[all[i], all[i + 1], all[i + 2]]) {
                    for &p in c.iter().rev().take(16) {
                        if i - p > 32768 {
                            break;
                        }
                        let max = (all.len() - i).min(258);
                        let n = (0..max).take_while(|j| all[p + j] == all[i + j]).count();
                        if n > best.0 {
                            best = (n, i - p);
                        }
                    }
                }
            }
            k += 1;
            if best.0 >= 3 && (skip == 0 || k % (skip + 1) != 0) {
                v.push(Sym::Ref { dist: best.1 as u16, run: best.0 as u16 });
                i += best.0;
            } else {
                v.push(Sym::Lit(all[i]));
                i += 1;
            }
        }
    }

    fn emit_fixed(&mut self, syms: &[Sym]) {
        FIXED.with(|(lit, dist)| self.emit_with(syms, lit, dist));
    }

    fn emit(&mut self, syms: &[Sym], lit: &[u8], dist: &[u8]) {
        self.emit_with(syms, &encode_all(lit), &encode_all(dist));
    }

    fn emit_with(&mut self, syms: &[Sym], lt: &[Option<Vec<bool>>], dt: &[Option<Vec<bool>>]) {
        for s in syms {
            let (s, n, e, d) = parts(*s);
            for b in lt[s as usize].as_ref().expect("symbol in table") {
                self.o.bit(*b);
            }
            self.o.bits(n, u32::from(e));
            if let Some((ds, dn, de)) = d {
                match dt.get(ds as usize).and_then(|x| x.as_ref()) {
                    Some(c) => {
                        for b in c {
                            self.o.bit(*b);
                        }
                    }
                    None => self.o.bit(false), // only in streams that are meant to be invalid
                }
                self.o.bits(dn, u32::from(de));
            }
        }
        for b in lt[256].as_ref().expect("end of block in table") {
            self.o.bit(*b);
        }
    }

    fn dynamic(&mut self, syms: &[Sym], last: bool, evil: Evil) {
        let mut freq = vec![0u32; 288];
        let mut dfreq = vec![0u32; 32];
        freq[256] = 1;
        for s in syms {
            let (s, _, _, d) = parts(*s);
            freq[s as usize] += 1;
            if let Some((d, _, _)) = d {
                dfreq[d as usize] += 1;
            }
        }
        let mut r = Rng::new(self.t.seed());
        let mode = self.t.weighted(&[3, 2, 1]);
        let over_syms = matches!(evil, Evil::LenSym | Evil::DistSym);
        let lit_max = if over_syms || (self.p.grey && self.t.chance(1, 12)) { 288 } else { 286 };
        let dist_max = if over_syms || (self.p.grey && self.t.chance(1, 12)) { 32 } else { 30 };
        // the symbols that get a code: used ones and some that are not
        let extra = self.t.pick(&[0u64, 1, 3, 20, 300]);
        let mut ls: Vec<u16> = (0..288u16).filter(|s| freq[*s as usize] > 0).collect();
        for _ in 0..extra {
            ls.push(r.below(lit_max) as u16);
        }
        ls.sort_unstable();
        ls.dedup();
        if self.p.long258 && self.t.chance(1, 2) && freq[285] == 0 {
            ls.retain(|s| *s != 285);
        }
        if ls.len() < 2 {
            ls.push(if ls[0] == 65 { 66 } else { 65 });
            ls.sort_unstable();
        }
        let mut lit = complete_lens(&mut r, &ls, 288, 15, mode, &freq);
        let mut ds: Vec<u16> = (0..32u16).filter(|s| dfreq[*s as usize] > 0).collect();
        let dextra = if evil == Evil::NoDistTable { 0 } else { self.t.pick(&[0u64, 1, 2, 40]) };
        for _ in 0..dextra {
            ds.push(r.below(dist_max) as u16);
        }
        ds.sort_unstable();
        ds.dedup();
        let mut dist = vec![0u8; 32];
        if evil == Evil::NoDistTable {
            ds.clear();
        }
        match ds.len() {
            0 => {}
            1 => dist[ds[0] as usize] = 1,
            _ => {
                let dmode = self.t.weighted(&[2, 2, 1]);
                dist = complete_lens(&mut r, &ds, 32, 15, dmode, &dfreq);
            }
        }
        // spoil the tables
        match evil {
            Evil::Oversubscribed => {
                let c: Vec<usize> = (0..286).filter(|s| lit[*s] > 1).collect();
                if self.t.chance(1, 2) && !c.is_empty() {
                    let i = c[self.t.draw(c.len() as u64) as usize];
                    lit[i] -= 1;
                } else {
                    let i = (0..286).find(|s| lit[*s] == 0).unwrap_or(0);
                    lit[i] = 15;
                }
            }
            Evil::Incomplete => {
                let c: Vec<usize> = (0..286).filter(|s| lit[*s] > 0 && lit[*s] < 15).collect();
                let i = c[self.t.draw(c.len() as u64) as usize];
                lit[i] += 1;
            }
            Evil::OverDist => {
                if ds.len() >= 2 {
                    let i = ds[self.t.draw(ds.len() as u64) as usize] as usize;
                    if dist[i] < 15 && self.t.chance(1, 2) {
                        dist[i] += 1;
                    } else if dist[i] > 1 {
                        dist[i] -= 1;
                    } else {
                        dist[i] = 2;
                    }
                } else {
                    dist[0] = 2;
                    dist[1] = 0;
                }
            }
            _ => {}
        }
        let lit_used = lit.iter().rposition(|l| *l > 0).unwrap() + 1;
        let dist_used = dist.iter().rposition(|l| *l > 0).map_or(1, |p| p + 1);
        let hlit = match self.t.draw(3) {
            0 => lit_used.max(257),
            1 => lit_used.max(lit_max as usize),
            _ => lit_used.max(257 + self.t.draw(30) as usize),
        };
        let hdist = if ds.is_empty() {
            if self.p.grey && self.t.chance(1, 10) { 2 } else { 1 }
        } else {
            match self.t.draw(3) {
                0 => dist_used,
                1 => dist_used.max(dist_max as usize),
                _ => dist_used.max(1 + self.t.draw(30) as usize),
            }
        };
        let hdist = if evil == Evil::NoDistTable { 1 } else { hdist };
        let mut seq = lit[..hlit].to_vec();
        seq.extend_from_slice(&dist[..hdist]);
        // run-length code
        let rle = self.t.draw(3);
        let mut ops: Vec<(u16, u32, u32)> = Vec::new();
        if evil == Evil::RepeatFirst {
            ops.push((16, 2, 0));
        }
        let mut i = 0;
        while i < seq.len() {
            let v = seq[i];
            let run = seq[i..].iter().take_while(|x| **x == v).count();
            let use_rle = rle == 1 || (rle == 2 && r.one_in(2));
            let n = if rle == 2 { 1 + r.below(run as u64) as usize } else { run };
            if use_rle && v == 0 && n >= 11 && !(rle == 2 && r.one_in(4)) {
                let n = n.min(138);
                ops.push((18, 7, n as u32 - 11));
                i += n;
            } else if use_rle && v == 0 && n >= 3 && (rle != 2 || !r.one_in(3)) {
                let n = n.min(10);
                ops.push((17, 3, n as u32 - 3));
                i += n;
            } else if use_rle && n >= 3 && i > 0 && seq[i - 1] == v {
                let n = n.min(6);
                ops.push((16, 2, n as u32 - 3));
                i += n;
            } else {
                ops.push((u16::from(v), 0, 0));
                i += 1;
            }
        }
        if evil == Evil::RepeatPast {
            // replace the last entry by a repeat that reaches over the end
            let left = match ops.pop().unwrap() {
                (16, _, n) => n + 3,
                (17, _, n) => n + 3,
                (18, _, n) => n + 11,
                _ => 1,
            };
            if left < 6 && !ops.is_empty() && self.t.chance(1, 2) {
                ops.push((16, 2, (left + 1).max(3) - 3 + self.t.draw(u64::from(6 - left.max(2))) as u32));
            } else if left < 10 {
                ops.push((17, 3, (left + 1).max(3) - 3));
            } else {
                ops.push((18, 7, (left + 1).max(11).min(138) - 11));
            }
        }
        let mut cs: Vec<u16> = ops.iter().map(|o| o.0).collect();
        for _ in 0..self.t.pick(&[0u64, 1, 10]) {
            cs.push(r.below(19) as u16);
        }
        cs.sort_unstable();
        cs.dedup();
        if cs.len() < 2 {
            cs.push(if cs[0] == 0 { 1 } else { 0 });
            cs.sort_unstable();
        }
        let mut cfreq = vec![0u32; 19];
        for o in &ops {
            cfreq[o.0 as usize] += 1;
        }
        let cmode = self.t.weighted(&[2, 1, 1]);
        let mut cl = complete_lens(&mut r, &cs, 19, 7, cmode, &cfreq);
        let cl_code = encode_all(&cl);
        if evil == Evil::BadClc {
            let i = cs[self.t.draw(cs.len() as u64) as usize] as usize;
            cl[i] = if cl[i] < 7 && self.t.chance(1, 2) { cl[i] + 1 } else { cl[i].max(2) - 1 };
        }
        let mut ncl = 19;
        if !self.t.chance(1, 3) {
            while ncl > 4 && cl[CLORDER[ncl - 1]] == 0 {
                ncl -= 1;
            }
        }
        self.desc.push(format!(
            "dynamic, {} codes, {} length codes (HLIT {hlit}), {} distance codes (HDIST {hdist}), {} table ops, HCLEN {ncl}{}{}",
            syms.len(),
            ls.len(),
            ds.len(),
            ops.len(),
            if evil != Evil::None { format!(", {evil:?}") } else { String::new() },
            if last { ", final" } else { "" }
        ));
        let tables = Tables { hlit, hdist, ncl, cl, ops };
        self.tables(&tables, &cl_code);
        self.emit(syms, &lit, &dist);
        self.last_dyn = if evil == Evil::None { Some(tables) } else { None };
    }

    fn tables(&mut self, t: &Tables, cl_code: &[Option<Vec<bool>>]) {
        self.o.bits(5, t.hlit as u32 - 257);
        self.o.bits(5, t.hdist as u32 - 1);
        self.o.bits(4, t.ncl as u32 - 4);
        for i in 0..t.ncl {
            self.o.bits(3, u32::from(t.cl[CLORDER[i]]));
        }
        for (s, n, e) in &t.ops {
            for b in cl_code[*s as usize].as_ref().unwrap() {
                self.o.bit(*b);
            }
            self.o.bits(*n, *e);
        }
    }

    /// A block whose tables take as many bits as those of the last dynamic one, and are the same or nearly so.
    fn sibling(&mut self, last: bool, room: usize) {
        let mut t = self.last_dyn.clone().expect("a dynamic block before");
        // where each table entry that stands for one code starts, and whether it may change
        let mut at = 0;
        let mut single: Vec<(usize, usize)> = Vec::new();
        for (i, (s, _, e)) in t.ops.iter().enumerate() {
            let n = match s {
                16 | 17 => *e as usize + 3,
                18 => *e as usize + 11,
                _ => {
                    let kept = t.ops.get(i + 1).is_some_and(|o| o.0 == 16)
                        || (at < t.hlit && at > 285)
                        || at == 256
                        || (at >= t.hlit && at - t.hlit > 29);
                    if !kept {
                        single.push((i, at));
                    }
                    1
                }
            };
            at += n;
        }
        let mut changed = Vec::new();
        for _ in 0..self.t.weighted(&[1, 3, 1]) {
            let (lits, dists): (Vec<_>, Vec<_>) = single.iter().copied().partition(|x| x.1 < t.hlit);
            let from = if self.t.chance(1, 2) && dists.len() > 1 { dists } else { lits };
            if from.len() < 2 {
                break;
            }
            let a = from[self.t.draw(from.len() as u64) as usize];
            // (one with another length, if there is any)
            let others: Vec<_> = from.iter().copied().filter(|b| t.ops[b.0].0 != t.ops[a.0].0).collect();
            if others.is_empty() {
                break;
            }
            let b = others[self.t.draw(others.len() as u64) as usize];
            t.ops.swap(a.0, b.0);
            changed.push((a.1, b.1));
        }
        let mut seq: Vec<u8> = Vec::new();
        for (s, _, e) in &t.ops {
            let (v, n) = match s {
                16 => (*seq.last().expect("something to repeat"), *e as usize + 3),
                17 => (0, *e as usize + 3),
                18 => (0, *e as usize + 11),
                _ => (*s as u8, 1),
            };
            seq.resize(seq.len() + n, v);
        }
        let mut lit = seq[..t.hlit].to_vec();
        let mut dist = seq[t.hlit..].to_vec();
        lit.resize(288, 0);
        dist.resize(32, 0);
        let coded: Vec<u16> = (0..286).filter(|s| *s != 256 && lit[usize::from(*s)] > 0).collect();
        let mut r = Rng::new(self.t.seed());
        let n = if coded.is_empty() { 0 } else { len(self.t, 300) };
        let cap = self.out.len() + room;
        let mut v = Vec::new();
        for _ in 0..n {
            if self.out.len() >= cap {
                break;
            }
            let s = coded[r.below(coded.len() as u64) as usize];
            if s < 256 {
                self.out.push(s as u8);
                v.push(Sym::Lit(s as u8));
                continue;
            }
            let i = usize::from(s - 257);
            let most = if i == 28 { 1 } else if i == 27 { 31 } else { 1u64 << LEXT[i] };
            let run = LBASE[i] + r.below(most) as u16;
            let ok: Vec<usize> = (0..30).filter(|d| dist[*d] > 0 && DBASE[*d] as usize <= self.out.len()).collect();
            if ok.is_empty() {
                continue;
            }
            let d = ok[r.below(ok.len() as u64) as usize];
            let far = (DBASE[d] as usize + (1usize << DEXT[d]) - 1).min(self.out.len());
            let back = DBASE[d] as usize + r.below((far - DBASE[d] as usize + 1) as u64) as usize;
            self.push_ref(&mut v, back as u16, run, false);
        }
        self.desc.push(format!(
            "dynamic with the tables of the last such block, swapped {changed:?}, {} codes{}",
            v.len(),
            if last { ", final" } else { "" }
        ));
        self.head(last, 2);
        let cl_code = encode_all(&t.cl);
        self.tables(&t, &cl_code);
        self.emit(&v, &lit, &dist);
        self.last_dyn = Some(t);
    }
}

thread_local! {
    static FIXED: (Vec<Option<Vec<bool>>>, Vec<Option<Vec<bool>>>) = (encode_all(&fixed_lit()), encode_all(&fixed_dist()));
}

fn encode_all(lens: &[u8]) -> Vec<Option<Vec<bool>>> {
    // canonical codes; tables spoiled on purpose may wrap, which does not matter there
    let mut counts = [0u32; 17];
    for l in lens {
        if *l > 0 {
            counts[*l as usize] += 1;
        }
    }
    let mut next = [0u32; 17];
    let mut code = 0u32;
    for b in 1..=15 {
        code = (code + if b > 1 { counts[b - 1] } else { 0 }) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|l| {
            let l = *l as usize;
            if l == 0 {
                return None;
            }
            let c = next[l];
            next[l] += 1;
            Some((0..l).rev().map(|i| (c >> i) & 1 == 1).collect())
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Header {
    pub bytes: Vec<u8>,
    pub desc: String,
}

pub fn header(t: &mut Tape) -> Header {
    header_with(t, 0)
}

/// One text in `huge` is far longer than real ones.
pub fn header_with(t: &mut Tape, huge: u64) -> Header {
    let flags = t.draw(32) as u8;
    let mut b = vec![0x1f, 0x8b, 8, flags];
    for _ in 0..6 {
        b.push(t.draw(256) as u8);
    }
    let mut desc = format!("flags {flags:#04x}");
    if flags & 4 != 0 {
        let n = len(t, 65535);
        let d = data(t, n);
        b.extend_from_slice(&(n as u16).to_le_bytes());
        b.extend_from_slice(&d);
        desc += &format!(", extra {n}");
    }
    for f in [8, 16] {
        if flags & f != 0 {
            let n = if huge > 0 && t.chance(1, huge) {
                t.pick(&[65_535usize, 65_536, 40_000, 131_072, 262_145]) + t.draw(40) as usize
            } else {
                len(t, 2000)
            };
            let mut d = data(t, n);
            for x in &mut d {
                if *x == 0 {
                    *x = 1;
                }
            }
            b.extend_from_slice(&d);
            b.push(0);
            desc += &format!(", text {n}");
        }
    }
    if flags & 2 != 0 {
        b.push(t.draw(256) as u8);
        b.push(t.draw(256) as u8);
        desc += ", crc";
    }
    Header { bytes: b, desc }
}

pub fn crc32(d: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in d {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// A fixed-code stream of one block holding exactly these references; parsing it is how the harness obtains
/// reference values.
pub fn refs_stream(refs: &[(u16, u16)]) -> Vec<u8> {
    let mut t = Tape::replay(vec![]);
    let mut g = G { t: &mut t, o: BitOut::new(), out: vec![], p: StreamParams::default(), desc: vec![], last_dyn: None };
    g.head(true, 1);
    let syms: Vec<Sym> = refs.iter().map(|(dist, run)| Sym::Ref { dist: *dist, run: *run }).collect();
    g.emit_fixed(&syms);
    g.o.align();
    g.o.bytes
}
