//! The properties: each is a scenario built from the workload tape, run under the simulated world, and judged.

use std::cell::RefCell;
use std::io::{ErrorKind, Read, Write};
use std::rc::Rc;

use librezip::{Block, Code};

use crate::gen;
use crate::rng::Rng;
use crate::refdef::{self, Kind, RefBlock, RefStream, Tok};
use crate::tape::Tape;
use crate::world::*;

pub mod cli;
mod interleave;
mod memory;
mod metadata;
mod pieces;
mod streams;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Rc<World>) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub probes: &'static [&'static str],
    pub needs_cli: bool,
}

const IO_STUBS: &[&str] = &[
    "byte sources (simulated: short reads, EINTR, stalls, failures, cuts)",
    "byte sinks (simulated: short writes, EINTR, failures, zero-length accepts)",
    "scheduler and clock (simulated: coroutine switch at I/O points, discrete-event time)",
];

const CLI_STUBS: &[&str] = &[
    "malloc family (the system's, with counting and refusals)",
    "read/write/open system calls on the input file, standard input and standard output (interposed by the simulator's preload library, answered from the run's fault plan)",
];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: streams::c01,
        quick: 300_000,
        thorough: 8_000_000,
        rule: "One run = one generated, possibly mutated DEFLATE stream parsed from a simulated source and written back to a simulated sink under one drawn delivery/short-write/EINTR/preemption schedule. Non-trivial: at least one injected fault fired during the run; distinct: event-log hash (every I/O event with its position, length and outcome, and the data).",
        real: &["librezip parse, bit, huffman, code_tree, serialise (compressed_block)"],
        stub: IO_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "stored block written back", "fixed block written back", "dynamic block written back", "not accepted",
            "accepted although reference calls it grey", "258 coded as 284+31", "mutated stream accepted", "empty stored block",
            "stored block of 65535 bytes", "block without distance codes", "single distance code",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C02",
        run: streams::c02,
        quick: 300_000,
        thorough: 8_000_000,
        rule: "One run = one generated valid DEFLATE stream parsed and decompressed between simulated source and sink under one drawn schedule, compared with the reference decoder. Non-trivial: at least one injected fault fired; distinct: event-log hash.",
        real: &["librezip parse, bit, huffman, code_tree, serialise (decompressed_block), circles"],
        stub: IO_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "reference 32768 back", "reference of length 258", "reference crosses block boundary", "stored block", "fixed block",
            "dynamic block", "window wrapped", "single distance code", "overlapping reference", "literal-only dynamic block", "258 coded as 284+31",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C03",
        run: streams::c03,
        quick: 350_000,
        thorough: 9_000_000,
        rule: "One run = one generated valid stream whose source ends or fails (drawn kind, lasting or once) at a drawn offset, biased to block and byte boundaries. Non-trivial: the cut or failure fired; distinct: event-log hash.",
        real: &["librezip parse, bit, huffman, code_tree"],
        stub: IO_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "cut at offset 0", "cut in last byte", "cut exactly after a block", "cut inside stored data", "temporary failure", "lasting failure",
            "blocks before the cut", "error kind UnexpectedEof",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C04",
        run: streams::c04,
        quick: 500_000,
        thorough: 14_000_000,
        rule: "One run = one file corrupted at rest (bit flips, lost, duplicated, overwritten or swapped ranges, format violations planted by the generator, or noise) read through header, parser and decompressor and compared with the reference decoder's verdict. Non-trivial: a corruption or delivery fault was injected; distinct: event-log hash.",
        real: &["librezip gzip, parse, bit, huffman, code_tree, serialise (decompressed_block), circles"],
        stub: IO_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "reserved block type", "stored length does not match its complement", "code length code over-subscribed",
            "code length code incomplete", "repeat with nothing to repeat", "repeat past the end of the table", "length code over-subscribed",
            "length code incomplete", "distance code over-subscribed", "distance code incomplete", "reserved length symbol",
            "reserved distance symbol", "reference without distance code", "code not in table", "reference before the start of the data",
            "truncated", "still valid", "grey", "header refused", "padding not zero",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C05",
        run: streams::c05,
        quick: 600_000,
        thorough: 18_000_000,
        rule: "One run = header, stream and trailing bytes arriving at a live source in drawn packets (often ending exactly where a block ends); at every quiescent point what was returned must equal what has fully arrived. Non-trivial: the reader had to wait or another fault fired; distinct: event-log hash.",
        real: &["librezip gzip, parse, bit, huffman, code_tree"],
        stub: IO_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "quiet point", "quiet exactly at a block's last byte", "quiet exactly at the end of the header", "quiet exactly at the end of the stream", "second member follows",
            "trailing bytes",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C06",
        run: streams::c06,
        quick: 900_000,
        thorough: 30_000_000,
        rule: "One run = one generated gzip header, valid or spoiled, whole or cut/failing at a drawn offset, under one drawn delivery. Non-trivial: at least one fault fired; distinct: event-log hash.",
        real: &["librezip gzip"],
        stub: IO_STUBS,
        probes: &["extra field", "file name", "comment", "header crc", "extra field of 65535 bytes", "bad magic", "bad method", "reserved flag", "cut", "failure", "very long text"],
        needs_cli: false,
    },
    Prop {
        id: "C07",
        run: streams::c07,
        quick: 300_000,
        thorough: 9_000_000,
        rule: "One run = decompression or write-back of a valid stream into a sink that fails, fills up or accepts nothing at a drawn output offset (biased to boundaries). Non-trivial: a sink fault fired; distinct: event-log hash.",
        real: &["librezip serialise, bit (BitWriter), circles, parse"],
        stub: IO_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "decompression failed", "write-back failed", "failure in last byte", "failure at offset 0", "inside a reference", "inside stored data",
            "oversized stored block refused", "failure not reached", "failure reported by final align",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C08",
        run: metadata::c08,
        quick: 400_000,
        thorough: 14_000_000,
        rule: "One run = one generated trace written to bytes, stored, and read back whole, torn at a drawn offset, or from a failing source. Non-trivial: at least one fault fired; distinct: event-log hash.",
        real: &["librezip serialise_trace"],
        stub: IO_STUBS,
        probes: &[
            "run of 32767", "run of 32768", "run beyond 65534", "cut inside an entry", "cut between entries", "failure between entries",
            "failure inside an entry", "failure at the end", "distance 32768", "empty trace",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C09",
        run: metadata::c09,
        quick: 55_000,
        thorough: 1_500_000,
        rule: "One run = archiving 1 to 3 gzip files (blocks parsed, decompressed, traced with a drawn guesser configuration) to a simulated disk, optionally a crash that tears the stored bytes, and rebuilding after the restart from the stored bytes alone. Non-trivial: at least one fault (delivery, preemption, crash, stall) fired; distinct: event-log hash.",
        real: &["librezip trace, tracer, technique, lookahead, picker, all_refs, back_map, obscure, iters, wams, serialise_trace, parse, serialise, circles, gzip"],
        stub: &[
            "byte sources and sinks (simulated)", "disk holding the metadata (simulated: append, sync, crash losing or tearing unsynced bytes)", "scheduler and clock (simulated)",
        ],
        probes: &[
            "more than 256 blocks",
            "block with earlier window", "level configuration", "lazy configuration", "mixed configuration", "torn metadata refused",
            "several files", "trace not all correct", "trace all correct", "stored block", "window of 32768", "try_gzip",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C10",
        run: pieces::c10,
        quick: 1_500_000,
        thorough: 60_000_000,
        rule: "One run = a drawn sequence of reads or writes of drawn sizes through a digest filter over a simulated source or sink. Non-trivial: at least one fault fired; distinct: event-log hash.",
        real: &["librezip filter, sha2"],
        stub: IO_STUBS,
        probes: &["read filter", "write filter", "failed then retried", "empty buffer", "nothing transferred", "flush failed", "dirty buffer beyond the count", "read to the end", "read to the end failed", "read to a string", "formatted write"],
        needs_cli: false,
    },
    Prop {
        id: "C11",
        run: interleave::c11,
        quick: 60_000,
        thorough: 1_800_000,
        rule: "One run = 2 to 5 sessions of drawn kinds on separate streams, switched at drawn I/O points by the seeded scheduler, some nested in another's source or sink, stalled, failing or abandoned, or (one run in five) 1 to 3 sessions taking turns block by block on four threads of which the scheduler lets one run at a time; each result is compared with the session run alone and with the reference. Non-trivial: at least one preemption, stall, nesting or abandonment happened; distinct: event-log hash (includes who ran at every I/O point).",
        real: &["librezip: all modules"],
        stub: IO_STUBS,
        probes: &[
            "nested in a source", "nested in a sink", "abandoned", "stalled for ever", "failing", "decompress", "write back", "trace", "restore",
            "hash", "header", "trace bytes", "nested in a decompression", "threads", "moved to another thread",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C12",
        run: cli::c12,
        quick: 60_000,
        thorough: 1_500_000,
        rule: "One run = one execution of the real cat binary on a generated (valid, cut or corrupted) file by path or standard input with a drawn fault plan for its system calls. Non-trivial: at least one system-call fault fired or the file was damaged; distinct: hash of the logged system calls with results, exit status and output.",
        real: &["rezippers binary (main, cat, clap, std I/O), librezip"],
        stub: CLI_STUBS,
        probes: &[
            "more than 256 blocks", "long repetition",
            "exit 0", "exit failure", "output failed at the last byte", "output failed", "input failed", "input cut", "input corrupt", "missing file", "by path", "standard input",
            "several chunks written",
        ],
        needs_cli: true,
    },
    Prop {
        id: "C13",
        run: cli::c13,
        quick: 26_000,
        thorough: 700_000,
        rule: "One run = one execution of the real zero binary on a generated file with a drawn fault plan; contents include ones whose rolling sum never hits the split value. Non-trivial: at least one fault fired or the file was damaged; distinct: hash of logged system calls, exit status and output.",
        real: &["rezippers binary (main, zero, clap, crc, std I/O), librezip"],
        stub: CLI_STUBS,
        probes: &["more than 256 blocks", "long repetition", "exit 0", "exit failure", "output failed at the last byte", "output failed", "input failed", "input cut", "input corrupt", "no split for 64 KiB", "by path", "standard input", "several blocks", "recompressed twin", "buffer full at a small write"],
        needs_cli: true,
    },
    Prop {
        id: "C14",
        run: cli::c14,
        quick: 60_000,
        thorough: 1_500_000,
        rule: "One run = one execution of the real dump binary on a generated file with a drawn fault plan. Non-trivial: at least one fault fired or the file was damaged; distinct: hash of logged system calls, exit status and output.",
        real: &["rezippers binary (main, dump, clap, std I/O), librezip"],
        stub: CLI_STUBS,
        probes: &["more than 256 blocks", "long repetition", "exit 0", "exit failure", "output failed at the last byte", "output failed", "input failed", "input cut", "input corrupt", "by path", "standard input", "dynamic", "fixed", "stored"],
        needs_cli: true,
    },
    Prop {
        id: "C15",
        run: pieces::c15,
        quick: 150_000,
        thorough: 5_000_000,
        rule: "One run = a drawn history of pushes, extends, copies (some refused, some into a failing sink) and look-ups on a window of drawn capacity, compared step by step with a model. Non-trivial: at least one sink fault fired; distinct: event-log hash.",
        real: &["librezip circles"],
        stub: IO_STUBS,
        probes: &["capacity 1", "capacity 32768", "capacity 65535", "wrapped", "refused copy", "failed copy", "overlapping copy", "copy of whole window", "contents compared at 65535", "copy longer than the window"],
        needs_cli: false,
    },
    Prop {
        id: "C16",
        run: memory::c16,
        quick: 9_000,
        thorough: 300_000,
        rule: "One run = 8 sessions of one kind on one generated stream (blocks repeated up to 400 times, damaged streams, headers, trace bytes), all ended in the same drawn way (to the end, cut, failing source or sink, dropped inside or between calls) under drawn deliveries, with every allocation of the code under test counted. Non-trivial: at least one fault fired; distinct: event-log hash.",
        real: &["librezip gzip, parse, bit, huffman, code_tree, serialise, circles, trace, tracer, technique, all_refs, serialise_trace"],
        stub: &[
            "byte sources and sinks (simulated)", "scheduler and clock (simulated)", "global allocator (the system's, with counting)",
        ],
        probes: &[
            "to the end", "input cut", "input failed", "dropped inside a call", "dropped between calls", "output failed", "decompress",
            "write back", "header", "archive", "trace bytes", "hostile stream", "memory compared along a stream",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C17",
        run: streams::c17,
        quick: 250_000,
        thorough: 8_000_000,
        rule: "One run = one generated valid stream parsed from a simulated source and decompressed or written back to a simulated sink, possibly through the digest filter; what the sink has accepted is compared at every return of a call, and after a crash at a drawn point. Non-trivial: at least one fault fired; distinct: event-log hash.",
        real: &["librezip parse, bit, huffman, code_tree, serialise, circles, filter"],
        stub: IO_STUBS,
        probes: &[
            "crash", "to the end", "output failed", "crash between or inside calls", "blocks acknowledged before the crash", "through the digest filter",
            "write back", "decompress", "more than 256 blocks", "long repetition",
        ],
        needs_cli: false,
    },
    Prop {
        id: "C18",
        run: cli::c18,
        quick: 6_000,
        thorough: 400_000,
        rule: "One run = one execution of a real tool (cat, zero, dump) on a generated file with a drawn allocation that fails, or one with its output watched at every request for input, or three on the same blocks repeated more and more often with the heap's peaks compared. Non-trivial: at least one fault fired or the file was damaged; distinct: hash of logged system calls, exit status and output.",
        real: &["rezippers binary (main, cat, zero, dump, clap, crc, std I/O), librezip"],
        stub: CLI_STUBS,
        probes: &[
            "cat", "zero", "dump", "allocation failed", "allocation failed after the first output", "ended for want of memory", "memory compared", "one huge block",
            "more than a buffer's worth due",
        ],
        needs_cli: true,
    },
    Prop {
        id: "C19",
        run: cli::c19,
        quick: 1_500,
        thorough: 60_000,
        rule: "One run = two executions of the real zero binary on files whose contents differ in one place, packed and delivered differently, the second with a failing output in some runs; where blocks end is compared before the change and after it. Non-trivial: at least one fault fired or the file was damaged; distinct: hash of logged system calls, exit status and output.",
        real: &["rezippers binary (main, zero, clap, crc, std I/O), librezip"],
        stub: CLI_STUBS,
        probes: &["random rest", "any rest", "blocks before the change", "the splits met", "blocks after they met", "longest block", "output failed"],
        needs_cli: true,
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

// ---------------------------------------------------------------------------------------------- helpers

/// Runs one body as a simulated session and returns its result.
pub fn session<T: 'static>(w: &Rc<World>, body: impl FnOnce() -> T + 'static) -> Result<T, Viol> {
    let out: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let o = out.clone();
    let ends = w.run_sessions(vec![Box::new(move || *o.borrow_mut() = Some(body()))], &[], &mut || {});
    ended(&ends[0])?;
    let r = out.borrow_mut().take();
    Ok(r.expect("session result"))
}

pub fn ended(e: &SessEnd) -> Res {
    match e {
        SessEnd::Done | SessEnd::Abandoned => Ok(()),
        SessEnd::Panicked(m, l) => panicked(m, l),
        SessEnd::Livelock => viol("no end in sight", "the session takes more steps than the bound for its input"),
        SessEnd::Stalled => viol("stalled", "the session waits for data that it does not need"),
    }
}

pub fn panicked(m: &str, l: &str) -> Res {
    if harness_location(l) {
        panic!("harness panic in session: {m} at {l}");
    }
    viol("panic", format!("panic: {m} at {l}"))
}

pub fn pick_delivery(w: &World) -> Delivery {
    match w.ft.borrow_mut().weighted(&[1, 4, 2]) {
        0 => Delivery::Plain,
        1 => Delivery::Rough,
        _ => Delivery::Live,
    }
}

pub fn bits_of(d: &[u8], from: usize, to: usize) -> String {
    (from..to).map(|p| if (d[p / 8] >> (p % 8)) & 1 == 1 { '1' } else { '0' }).collect()
}

pub fn toks_equal(codes: &[Code], toks: &[Tok]) -> Result<(), String> {
    for (i, (c, t)) in codes.iter().zip(toks).enumerate() {
        let same = match (c, t) {
            (Code::Literal(a), Tok::Lit(b)) => a == b,
            (Code::Reference(r), Tok::Ref { dist, run }) => r.dist == *dist && r.run() == *run,
            _ => false,
        };
        if !same {
            return Err(format!("code {i} is {c:?}, should be {t:?}"));
        }
    }
    if codes.len() != toks.len() {
        return Err(format!("{} codes, should be {}", codes.len(), toks.len()));
    }
    Ok(())
}

pub fn same_block(b: &Block, r: &RefBlock, stream: &[u8]) -> Result<(), String> {
    match (b, &r.kind) {
        (Block::Uncompressed(a), Kind::Stored(d)) => {
            if a == d {
                Ok(())
            } else {
                Err(format!("stored block of {} bytes differs ({} expected)", a.len(), d.len()))
            }
        }
        (Block::FixedHuffman(codes), Kind::Fixed) => toks_equal(codes, &r.toks),
        (Block::DynamicHuffman { trees, codes }, Kind::Dynamic { tables }) => {
            let want = format!("BitVec: {}: {}", tables.1 - tables.0, bits_of(stream, tables.0, tables.1));
            if format!("{trees:?}") != want {
                return Err("table bits differ".into());
            }
            toks_equal(codes, &r.toks)
        }
        _ => Err("block kind differs".into()),
    }
}

/// What the parser returned.
pub enum Item {
    Block(Block),
    Err(String),
}

/// Parses until the first error or the end; also says whether it came to a clean end.
pub fn parse_all<R: Read>(src: R) -> (Vec<Block>, Option<String>) {
    let mut blocks = Vec::new();
    for b in librezip::parse_deflate(src) {
        match b {
            Ok(b) => blocks.push(b),
            Err(e) => return (blocks, Some(format!("{e:?}"))),
        }
    }
    (blocks, None)
}

/// Writes blocks back the way the project's own round-trip does.
pub fn write_back<W: Write>(into: W, blocks: &[Block]) -> anyhow_lite::R<()> {
    let mut o = librezip::BitWriter::new(into);
    for (i, b) in blocks.iter().enumerate() {
        o.write_bit(i + 1 == blocks.len()).map_err(|e| format!("{e:?}"))?;
        librezip::compressed_block(&mut o, b).map_err(|e| format!("{e:?}"))?;
    }
    o.align().map_err(|e| format!("{e:?}"))?;
    o.into_inner();
    Ok(())
}

pub mod anyhow_lite {
    pub type R<T> = Result<T, String>;
}

/// A valid stream for properties that need one; big windows now and then.
pub fn valid_stream(w: &World, max_out: usize) -> gen::GenStream {
    valid_stream_with(w, max_out, false)
}

/// With `long258`, now and then a run of 258 coded as symbol 284 with extra bits 31, as zlib reads it.
pub fn valid_stream_with(w: &World, max_out: usize, long258: bool) -> gen::GenStream {
    let mut t = w.wl.borrow_mut();
    let mut p = gen::StreamParams { max_out, round: max_out >= 20_000, ..Default::default() };
    p.long258 = long258 && t.chance(1, 16);
    // far references need a lot of data in front
    if t.chance(1, 16) {
        // (now and then megabytes)
        p.prefill = if t.chance(1, 150) {
            t.pick(&[1_100_000usize, 2_200_000])
        } else {
            t.pick(&[32768usize, 32767, 32769, 40000, 65536, 70000])
        };
        p.max_out = max_out + p.prefill;
    } else if t.chance(1, 250) {
        p.big = t.pick(&[66_000usize, 33_000, 100_000]);
        p.max_out = max_out + p.big;
    } else {
        gen::rare_shape(&mut t, &mut p, 200, true);
    }
    probe_shape(w, &p);
    gen::stream(&mut t, &p)
}

/// How a session decompresses: block by block, or the codes of a block in one or several calls.
#[derive(Clone, Copy, Debug)]
pub enum Put {
    Blocks,
    Codes,
    Pieces(u64),
}

pub fn pick_put(w: &World) -> Put {
    let mut t = w.wl.borrow_mut();
    let p = match t.weighted(&[4, 1, 2]) {
        0 => Put::Blocks,
        1 => Put::Codes,
        _ => Put::Pieces(t.seed()),
    };
    drop(t);
    if !matches!(p, Put::Blocks) {
        w.probe("codes handed over directly");
    }
    w.note(|| format!("decompresses {p:?}"));
    p
}

impl Put {
    pub fn put<W: Write>(&self, mut into: W, window: &mut librezip::CircularBuffer, b: &Block) -> Result<(), String> {
        let codes = match (self, b) {
            (Put::Blocks, _) | (_, Block::Uncompressed(_)) => return librezip::decompressed_block(into, window, b).map_err(|e| format!("{e:?}")),
            (_, Block::FixedHuffman(codes)) | (_, Block::DynamicHuffman { codes, .. }) => codes,
        };
        let Put::Pieces(seed) = self else {
            return librezip::decompressed_codes(into, window, codes).map_err(|e| format!("{e:?}"));
        };
        let mut r = Rng::new(*seed ^ codes.len() as u64);
        let most = [2u64, 10, 1000][r.below(3) as usize];
        let mut rest = &codes[..];
        while !rest.is_empty() {
            let k = (r.below(most) as usize).min(rest.len());
            librezip::decompressed_codes(&mut into, window, &rest[..k]).map_err(|e| format!("{e:?}"))?;
            rest = &rest[k..];
        }
        Ok(())
    }
}

pub fn probe_shape(w: &World, p: &gen::StreamParams) {
    if p.prefill > 1_000_000 {
        w.probe("more than a megabyte");
    }
    if p.many > 256 {
        w.probe("more than 256 blocks");
        if p.many > 65_536 {
            w.probe("more than 65536 blocks");
        }
    }
    if p.long > 0 {
        w.probe("long repetition");
    }
}

pub fn note_stream(w: &World, what: &str, s: &gen::GenStream) {
    w.note(|| {
        format!("{what}: {} bytes; {}; hex {}", s.bytes.len(), s.desc.join(" | "), hex(&s.bytes, 400))
    });
}

pub fn hex(d: &[u8], max: usize) -> String {
    let mut s: String = d.iter().take(max).map(|b| format!("{b:02x}")).collect();
    if d.len() > max {
        s += "...";
    }
    s
}

/// First difference of two byte strings, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    if got.len() == want.len() && at == got.len() {
        return "equal".into();
    }
    format!(
        "got {} bytes, expected {}; first difference at {at}: got {}, expected {}",
        got.len(),
        want.len(),
        hex(&got[at..], 8),
        hex(&want[at..], 8)
    )
}

pub fn is_prefix(a: &[u8], of: &[u8]) -> bool {
    a.len() <= of.len() && of[..a.len()] == *a
}

pub fn pick_kind(w: &World) -> ErrorKind {
    w.ft.borrow_mut().pick(&KINDS)
}

/// An offset in 0..len, biased to the given interesting ones.
pub fn offset(w: &World, len: usize, near: &[usize]) -> usize {
    assert!(len > 0);
    let mut t = w.ft.borrow_mut();
    let v = match t.weighted(&[3, 3, 1, 1]) {
        0 => t.draw(len as u64) as usize,
        1 if !near.is_empty() => {
            let base = t.pick(near);
            let d = t.draw(5) as usize;
            // -2 ..= +2
            (base + d).saturating_sub(2)
        }
        2 => len - 1,
        _ => t.draw((len as u64).min(12)) as usize,
    };
    v.min(len - 1)
}

pub fn boundaries(r: &RefStream) -> Vec<usize> {
    let mut v: Vec<usize> = r.blocks.iter().map(|b| b.need()).collect();
    for b in &r.blocks {
        if let Kind::Dynamic { tables } = &b.kind {
            v.push(tables.1 / 8);
        }
        if let Kind::Stored(d) = &b.kind {
            v.push(b.need() - d.len());
        }
        v.extend(b.round.iter().map(|bit| bit.div_ceil(8)));
    }
    v
}

/// Harness self-check: the reference decoder against an independent one.
pub fn cross_check(stream: &[u8], r: &RefStream, data: &[u8]) {
    let end = r.complete().expect("complete");
    let mut d = flate2::Decompress::new(false);
    let mut out = Vec::with_capacity(data.len() + 64);
    let st = d.decompress_vec(&stream[..end], &mut out, flate2::FlushDecompress::Finish);
    if let Ok(flate2::Status::StreamEnd) = st {
        assert!(out == data, "the reference decoder disagrees with miniz: {}", diff(&out, data));
    }
}

pub fn mutate(t: &mut Tape, d: &mut Vec<u8>) -> Vec<String> {
    let mut what = Vec::new();
    let n = 1 + t.weighted(&[5, 2, 1]);
    for _ in 0..n {
        if d.is_empty() {
            break;
        }
        let l = d.len() as u64;
        match t.weighted(&[6, 2, 2, 2, 1, 1, 1]) {
            0 => {
                let p = t.draw(8 * l) as usize;
                d[p / 8] ^= 1 << (p % 8);
                what.push(format!("bit {p} flipped"));
            }
            1 => {
                let p = t.draw(l) as usize;
                d[p] = t.draw(256) as u8;
                what.push(format!("byte {p} replaced"));
            }
            2 => {
                let p = t.draw(l) as usize;
                let n = (1 + t.draw(8) as usize).min(d.len() - p);
                d.drain(p..p + n);
                what.push(format!("{n} bytes lost at {p}"));
            }
            3 => {
                let p = t.draw(l) as usize;
                let n = (1 + t.draw(8) as usize).min(d.len() - p);
                let c: Vec<u8> = d[p..p + n].to_vec();
                d.splice(p..p, c);
                what.push(format!("{n} bytes duplicated at {p}"));
            }
            4 => {
                // a sector reads as zeroes or as another sector
                let s = t.pick(&[16usize, 64, 512]);
                let p = (t.draw(l) as usize / s) * s;
                let q = (t.draw(l) as usize / s) * s;
                let zero = t.chance(1, 2);
                for i in 0..s {
                    if p + i < d.len() {
                        let v = if zero { 0 } else { d.get(q + i).copied().unwrap_or(0) };
                        d[p + i] = v;
                    }
                }
                what.push(format!("sector of {s} at {p} {}", if zero { "zeroed" } else { "misplaced" }));
            }
            5 => {
                let p = t.draw(l) as usize;
                d.truncate(p);
                what.push(format!("truncated to {p}"));
            }
            _ => {
                let p = t.draw(l) as usize;
                let q = t.draw(l) as usize;
                d.swap(p, q);
                what.push(format!("bytes {p} and {q} swapped"));
            }
        }
    }
    what
}

pub use refdef::parse as ref_parse;
