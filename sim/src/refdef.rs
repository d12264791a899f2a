//! A reference DEFLATE decoder, independent of the code under test: count-based canonical decoding (no trees),
//! tolerant of nothing, and recording where every block, table and code lies in the bit stream.

use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok {
    Lit(u8),
    Ref { dist: u16, run: u16 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Stored(Vec<u8>),
    Fixed,
    Dynamic { tables: (usize, usize) },
}

#[derive(Clone, Debug)]
pub struct RefBlock {
    pub kind: Kind,
    pub last: bool,
    pub start_bit: usize,
    /// one past the last bit the block occupies
    pub end_bit: usize,
    pub toks: Vec<Tok>,
    /// (first bit of length code, one past its extra bits) for each length 258 coded as 284 + 31
    pub long258: Vec<(usize, usize)>,
    /// where (in bits) a number of codes divisible by 256 ends
    pub round: Vec<usize>,
    /// code (as a list of bits in stream order) of symbol 285 in this block's table
    pub code285: Option<Vec<bool>>,
    /// dynamic block without any / with exactly one distance code
    pub no_dist: bool,
    pub one_dist: bool,
    /// something RFC 1951 leaves open or decoders disagree on was seen in this block
    pub grey: Option<&'static str>,
}

impl RefBlock {
    /// number of stream bytes that have to be delivered before the block is complete
    pub fn need(&self) -> usize {
        self.end_bit.div_ceil(8)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// final block seen; the stream occupies this many bytes
    Complete(usize),
    /// more bytes are needed
    Truncated,
    /// format violation while reading block number blocks.len()
    Invalid(&'static str),
}

#[derive(Clone, Debug)]
pub struct RefStream {
    pub blocks: Vec<RefBlock>,
    pub end: End,
    /// padding after the final block is not zero
    pub final_pad: bool,
    /// greyness met in a block that was then not completed
    pub open_grey: Option<&'static str>,
    /// bits of the incomplete block at the end (start of it)
    pub open_start_bit: usize,
    /// what could be read of the incomplete block
    pub open: Option<RefBlock>,
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
}

enum Stop {
    Trunc,
    Bad(&'static str),
}

type R<T> = Result<T, Stop>;

impl<'a> Bits<'a> {
    fn bit(&mut self) -> R<u16> {
        let byte = self.pos / 8;
        if byte >= self.d.len() {
            return Err(Stop::Trunc);
        }
        let b = (self.d[byte] >> (self.pos % 8)) & 1;
        self.pos += 1;
        Ok(u16::from(b))
    }

    fn bits(&mut self, n: u32) -> R<u16> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
}

pub struct Code {
    count: [u16; 16],
    syms: Vec<u16>,
    /// slots left over at length 15 (0: complete, negative: over-subscribed)
    left: i32,
    used: usize,
}

impl Code {
    pub fn new(lens: &[u8]) -> Code {
        let mut count = [0u16; 16];
        for l in lens {
            count[*l as usize] += 1;
        }
        let mut left = 1i32;
        for n in count.iter().skip(1) {
            left = left.saturating_mul(2).saturating_sub(i32::from(*n)).max(-1_000_000);
            if left < 0 {
                break;
            }
        }
        let mut syms = Vec::new();
        for l in 1..16u8 {
            for (s, x) in lens.iter().enumerate() {
                if *x == l {
                    syms.push(s as u16);
                }
            }
        }
        let used = syms.len();
        Code { count, syms, left, used }
    }

    fn decode(&self, b: &mut Bits) -> R<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= i32::from(b.bit()?);
            let n = i32::from(self.count[len]);
            if code - n < first {
                return Ok(self.syms[(index + code - first) as usize]);
            }
            index += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        Err(Stop::Bad("code not in table"))
    }

    /// the bits of a symbol's code, in stream order
    pub fn encode(lens: &[u8], sym: usize) -> Option<Vec<bool>> {
        let len = *lens.get(sym)? as usize;
        if len == 0 {
            return None;
        }
        let mut code = 0u32;
        let mut counts = [0u32; 16];
        for l in lens {
            if *l > 0 {
                counts[*l as usize] += 1;
            }
        }
        for bits in 1..=len {
            code = (code + if bits > 1 { counts[bits - 1] } else { 0 }) << 1;
        }
        let before = lens[..sym].iter().filter(|l| **l as usize == len).count() as u32;
        let code = code + before;
        Some((0..len).rev().map(|i| (code >> i) & 1 == 1).collect())
    }
}

pub const LBASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
];
pub const LEXT: [u32; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DBASE: [u32; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
    8193, 12289, 16385, 24577,
];
pub const DEXT: [u32; 30] =
    [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
pub const CLORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn fixed_lit() -> Vec<u8> {
    let mut l = vec![8u8; 288];
    l[144..256].fill(9);
    l[256..280].fill(7);
    l
}

pub fn fixed_dist() -> Vec<u8> {
    vec![5u8; 32]
}

struct Tables {
    lit_lens: Vec<u8>,
    lit: Code,
    dist: Option<Code>,
    grey: Option<&'static str>,
}

thread_local! {
    static FIXED: Rc<(Code, Code)> = Rc::new((Code::new(&fixed_lit()), Code::new(&fixed_dist())));
    static FIXED_285: Option<Vec<bool>> = Code::encode(&fixed_lit(), 285);
}

fn tables(b: &mut Bits, grey: &mut Option<&'static str>) -> R<Tables> {
    let hlit = b.bits(5)? as usize + 257;
    let hdist = b.bits(5)? as usize + 1;
    let hclen = b.bits(4)? as usize + 4;
    if hlit > 286 || hdist > 30 {
        *grey = Some("more than 286 length or 30 distance codes declared");
    }
    let mut cl = [0u8; 19];
    for i in 0..hclen {
        cl[CLORDER[i]] = b.bits(3)? as u8;
    }
    let clc = Code::new(&cl);
    if clc.left != 0 {
        return Err(Stop::Bad(if clc.left < 0 { "code length code over-subscribed" } else { "code length code incomplete" }));
    }
    let total = hlit + hdist;
    let mut lens: Vec<u8> = Vec::new();
    while lens.len() < total {
        let s = clc.decode(b)?;
        let (v, n) = match s {
            0..=15 => (s as u8, 1),
            16 => {
                let v = match lens.last() {
                    Some(v) => *v,
                    None => return Err(Stop::Bad("repeat with nothing to repeat")),
                };
                (v, 3 + b.bits(2)? as usize)
            }
            17 => (0, 3 + b.bits(3)? as usize),
            _ => (0, 11 + b.bits(7)? as usize),
        };
        for _ in 0..n {
            lens.push(v);
        }
    }
    if lens.len() > total {
        return Err(Stop::Bad("repeat past the end of the table"));
    }
    let dl = lens.split_off(hlit);
    let lit = Code::new(&lens);
    if lit.left < 0 {
        return Err(Stop::Bad("length code over-subscribed"));
    }
    if lit.left > 0 {
        if lit.used == 1 && lit.count[1] == 1 {
            *grey = Some("single length code");
        } else {
            return Err(Stop::Bad("length code incomplete"));
        }
    }
    if lens[256] == 0 {
        *grey = Some("no end-of-block code");
    }
    let d = Code::new(&dl);
    let dist = if d.used == 0 {
        if hdist > 1 {
            *grey = Some("several distance codes declared, none used");
        }
        None
    } else {
        if d.left < 0 {
            return Err(Stop::Bad("distance code over-subscribed"));
        }
        if d.left > 0 && !(d.used == 1 && d.count[1] == 1) {
            return Err(Stop::Bad("distance code incomplete"));
        }
        Some(d)
    };
    Ok(Tables { lit_lens: lens, lit, dist, grey: *grey })
}

fn codes(
    b: &mut Bits,
    lit: &Code,
    dist: Option<&Code>,
    toks: &mut Vec<Tok>,
    long258: &mut Vec<(usize, usize)>,
    round: &mut Vec<usize>,
) -> R<()> {
    loop {
        let at = b.pos;
        if toks.len() % 256 == 0 && !toks.is_empty() {
            round.push(at);
        }
        let s = lit.decode(b)?;
        if s < 256 {
            toks.push(Tok::Lit(s as u8));
            continue;
        }
        if s == 256 {
            return Ok(());
        }
        if s > 285 {
            return Err(Stop::Bad("reserved length symbol"));
        }
        let i = (s - 257) as usize;
        let extra = b.bits(LEXT[i])?;
        let run = LBASE[i] + extra;
        if s == 284 && extra == 31 {
            long258.push((at, b.pos));
        }
        let ds = match dist {
            Some(d) => d.decode(b)?,
            None => return Err(Stop::Bad("reference without distance code")),
        };
        if ds > 29 {
            return Err(Stop::Bad("reserved distance symbol"));
        }
        let dist = DBASE[ds as usize] + u32::from(b.bits(DEXT[ds as usize])?);
        assert!(dist <= 32768 && (3..=258).contains(&run));
        toks.push(Tok::Ref { dist: dist as u16, run });
    }
}

fn block(b: &mut Bits, grey: &mut Option<&'static str>, blk: &mut RefBlock) -> R<()> {
    blk.start_bit = b.pos;
    blk.last = b.bit()? == 1;
    match b.bits(2)? {
        0 => {
            while b.pos % 8 != 0 {
                if b.bit()? != 0 {
                    *grey = Some("padding before a stored block is not zero");
                }
            }
            let len = b.bits(16)?;
            let nlen = b.bits(16)?;
            if len != !nlen {
                return Err(Stop::Bad("stored length does not match its complement"));
            }
            let at = b.pos / 8;
            let there = (at + len as usize).min(b.d.len());
            blk.kind = Kind::Stored(b.d[at..there].to_vec());
            if at + len as usize > b.d.len() {
                return Err(Stop::Trunc);
            }
            b.pos += 8 * len as usize;
        }
        1 => FIXED.with(|f| {
            blk.code285 = FIXED_285.with(|c| c.clone());
            codes(b, &f.0, Some(&f.1), &mut blk.toks, &mut blk.long258, &mut blk.round)
        })?,
        2 => {
            let from = b.pos;
            let t = tables(b, grey)?;
            blk.kind = Kind::Dynamic { tables: (from, b.pos) };
            blk.code285 = Code::encode(&t.lit_lens, 285);
            blk.no_dist = t.dist.is_none();
            blk.one_dist = t.dist.as_ref().is_some_and(|d| d.used == 1);
            codes(b, &t.lit, t.dist.as_ref(), &mut blk.toks, &mut blk.long258, &mut blk.round)?;
        }
        _ => return Err(Stop::Bad("reserved block type")),
    }
    blk.end_bit = b.pos;
    blk.grey = *grey;
    Ok(())
}

pub fn parse(d: &[u8]) -> RefStream {
    let mut b = Bits { d, pos: 0 };
    let mut s = RefStream {
        blocks: vec![],
        end: End::Truncated,
        final_pad: false,
        open_grey: None,
        open_start_bit: 0,
        open: None,
    };
    loop {
        let mut grey = None;
        s.open_start_bit = b.pos;
        let mut blk = RefBlock {
            kind: Kind::Fixed,
            last: false,
            start_bit: 0,
            end_bit: 0,
            toks: vec![],
            long258: vec![],
            round: vec![],
            code285: None,
            no_dist: false,
            one_dist: false,
            grey: None,
        };
        match block(&mut b, &mut grey, &mut blk) {
            Ok(()) => {
                let last = blk.last;
                s.blocks.push(blk);
                if last {
                    while b.pos % 8 != 0 {
                        match b.bit() {
                            Ok(0) => {}
                            Ok(_) => s.final_pad = true,
                            Err(_) => unreachable!(),
                        }
                    }
                    s.end = End::Complete(b.pos / 8);
                    return s;
                }
            }
            Err(stop) => {
                s.open_grey = grey;
                s.open = Some(blk);
                s.end = match stop {
                    Stop::Trunc => End::Truncated,
                    Stop::Bad(why) => End::Invalid(why),
                };
                return s;
            }
        }
    }
}

/// The end-of-block code of the dynamic tables that start at bit 3 and end at bit `end`.
pub fn eob_code(d: &[u8], end: usize) -> Option<Vec<bool>> {
    let mut b = Bits { d, pos: 3 };
    let mut grey = None;
    match tables(&mut b, &mut grey) {
        Ok(t) if b.pos == end => Code::encode(&t.lit_lens, 256),
        _ => None,
    }
}

/// Appends the data of a block; false (nothing more appended from there) if a reference reaches before the start or
/// further than the window.
pub fn inflate_block(out: &mut Vec<u8>, blk: &RefBlock) -> bool {
    if let Kind::Stored(d) = &blk.kind {
        out.extend_from_slice(d);
        return true;
    }
    for t in &blk.toks {
        match *t {
            Tok::Lit(b) => out.push(b),
            Tok::Ref { dist, run } => {
                let dist = dist as usize;
                if dist == 0 || dist > out.len() {
                    return false;
                }
                for _ in 0..run {
                    let b = out[out.len() - dist];
                    out.push(b);
                }
            }
        }
    }
    true
}

impl RefStream {
    pub fn complete(&self) -> Option<usize> {
        match self.end {
            End::Complete(n) => Some(n),
            _ => None,
        }
    }

    /// the data of all blocks, or how far it goes and None if a reference is out of range
    pub fn inflate(&self) -> (Vec<u8>, bool) {
        let mut out = Vec::new();
        for b in &self.blocks {
            if !inflate_block(&mut out, b) {
                return (out, false);
            }
        }
        (out, true)
    }

    /// all data up to the first thing that is wrong, including that of the incomplete block
    pub fn inflate_partial(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for b in self.blocks.iter().chain(self.open.iter()) {
            if !inflate_block(&mut out, b) {
                break;
            }
        }
        out
    }

    pub fn clean(&self) -> bool {
        self.complete().is_some() && !self.final_pad && self.blocks.iter().all(|b| b.grey.is_none())
    }

    pub fn has_long258(&self) -> bool {
        self.blocks.iter().any(|b| !b.long258.is_empty())
    }

    /// The stream with each 284+31 replaced by the code of 285, None if some table has no code for 285.
    pub fn with_canonical_258(&self, d: &[u8]) -> Option<Vec<u8>> {
        let mut o = BitOut::new();
        let get = |p: usize| (d[p / 8] >> (p % 8)) & 1 == 1;
        for b in &self.blocks {
            if let Kind::Stored(data) = &b.kind {
                for p in b.start_bit..b.start_bit + 3 {
                    o.bit(get(p));
                }
                o.align();
                o.bits(16, data.len() as u32);
                o.bits(16, !(data.len() as u32) & 0xffff);
                for x in data {
                    o.bits(8, u32::from(*x));
                }
                continue;
            }
            let mut p = b.start_bit;
            for (from, to) in &b.long258 {
                while p < *from {
                    o.bit(get(p));
                    p += 1;
                }
                for x in b.code285.as_ref()? {
                    o.bit(*x);
                }
                p = *to;
            }
            while p < b.end_bit {
                o.bit(get(p));
                p += 1;
            }
        }
        o.align();
        Some(o.bytes)
    }
}

#[derive(Clone)]
pub struct BitOut {
    pub bytes: Vec<u8>,
    pub n: usize,
}

impl BitOut {
    pub fn new() -> BitOut {
        BitOut { bytes: vec![], n: 0 }
    }

    pub fn bit(&mut self, b: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.n % 8);
        }
        self.n += 1;
    }

    pub fn bits(&mut self, n: u32, v: u32) {
        for i in 0..n {
            self.bit((v >> i) & 1 == 1);
        }
    }

    pub fn align(&mut self) {
        while self.n % 8 != 0 {
            self.bit(false);
        }
    }
}
