//! C10 (digest filters) and C15 (sliding window): step-by-step comparison with a model.

use std::collections::VecDeque;
use std::io::{self, Read, Write};

use librezip::filter::{FilterRead, FilterWrite};
use librezip::CircularBuffer;
use sha2::Digest;

use super::*;

// ------------------------------------------------------------------------------------------------ C10

fn sha512(d: &[u8]) -> Vec<u8> {
    let mut h = sha2::Sha512::default();
    h.update(d);
    h.finalize().to_vec()
}

fn buf_len(t: &mut Tape) -> usize {
    match t.weighted(&[1, 4, 3, 1]) {
        0 => 0,
        1 => 1 + t.draw(16) as usize,
        2 => 1 + t.draw(300) as usize,
        _ => 1 + t.draw(9000) as usize,
    }
}

pub fn c10(w: &Rc<World>) -> Res {
    let (read_side, data, ops) = {
        let mut t = w.wl.borrow_mut();
        let read_side = t.chance(1, 2);
        let n = gen::len(&mut t, 20_000);
        let data = gen::data(&mut t, n);
        let n = 1 + t.draw(30);
        // kind of call and size
        let ops: Vec<(u8, usize)> = (0..n).map(|_| (t.weighted(&[12, 4, 2, 2, 1, 1]) as u8 + 10 * u8::from(t.chance(1, 16)), buf_len(&mut t))).collect();
        (read_side, data, ops)
    };
    w.note(|| format!("{} filter, {} bytes, calls {ops:?}", if read_side { "read" } else { "write" }, data.len()));
    w.probe(if read_side { "read filter" } else { "write filter" });
    w.max_steps.set(4_000_000);
    let mean = w.ft.borrow_mut().pick(&[0u64, 0, 3, 50]);
    w.set_preemption(mean);
    if read_side {
        c10_read(w, data, ops)
    } else {
        c10_write(w, data, ops)
    }
}

fn c10_read(w: &Rc<World>, data: Vec<u8>, ops: Vec<(u8, usize)>) -> Res {
    let end = {
        let at = offset(w, data.len() + 1, &[]);
        let kind = pick_kind(w);
        match w.ft.borrow_mut().weighted(&[3, 2, 2, 1]) {
            0 => SrcEnd::Whole,
            1 => SrcEnd::Error { at, kind, lasting: false },
            2 => SrcEnd::Error { at, kind, lasting: true },
            _ => SrcEnd::Cut(at),
        }
    };
    let data = Rc::new(data);
    let src = Source::new(w, data.clone(), end, pick_delivery(w));
    let st = src.st.clone();
    let w2 = w.clone();
    let d2 = data.clone();
    session(w, move || -> Res {
        let mut f = FilterRead::new(src);
        let mut done = 0usize; // bytes that came out
        let mut failed = false;
        for (op, n) in ops {
            let (pos0, fired0, eof0, intr0) = (st.pos.get(), st.fired.get(), st.eofs.get(), w2.counts.borrow()[F::IntrRead as usize]);
            let mut buf = vec![0xa5u8; n];
            let mut single = false;
            let r: io::Result<usize> = match op {
                4 => {
                    // behind something that is in the buffer already
                    let mut v = vec![0x77u8; n % 9];
                    let r = f.read_to_end(&mut v);
                    buf = v.split_off(n % 9);
                    w2.probe("read to the end");
                    if r.is_err() {
                        w2.probe("read to the end failed");
                        done += buf.len();
                        if d2.get(done - buf.len()..done) != Some(&buf[..]) {
                            return viol("wrong bytes", "before an error");
                        }
                    }
                    r
                }
                5 | 15 => {
                    single = true;
                    let (a, b) = buf.split_at_mut(n / 3);
                    f.read_vectored(&mut [io::IoSliceMut::new(a), io::IoSliceMut::new(b)])
                }
                14 => {
                    let mut v = String::from("start");
                    let r = f.read_to_string(&mut v);
                    w2.probe("read to a string");
                    match &r {
                        Ok(_) => buf = v.into_bytes().split_off(5),
                        // what was taken from the source counts, though it may be lost to the caller
                        Err(_) => done = st.pos.get(),
                    }
                    r
                }
                13 => {
                    let mut v = Vec::new();
                    let mut r = Ok(0);
                    for x in f.by_ref().bytes().take(n) {
                        match x {
                            Ok(x) => {
                                v.push(x);
                                r = Ok(v.len());
                            }
                            Err(e) => {
                                done += v.len();
                                r = Err(e);
                                break;
                            }
                        }
                    }
                    buf = v;
                    r
                }
                0 | 1 | 10 | 11 => {
                    single = true;
                    f.read(&mut buf)
                }
                2 | 12 => {
                    let mut v = Vec::new();
                    let r = (&mut f).take(n as u64).read_to_end(&mut v);
                    buf = v;
                    // read_to_end keeps what it read before an error
                    if r.is_err() {
                        done += buf.len();
                        if d2.get(done - buf.len()..done) != Some(&buf[..]) {
                            return viol("wrong bytes", "before an error");
                        }
                    }
                    r
                }
                _ => match f.read_exact(&mut buf) {
                    Ok(()) => Ok(n),
                    Err(e) => {
                        // what was taken from the source counts, though it is lost to the caller
                        done = st.pos.get();
                        Err(e)
                    }
                },
            };
            w2.ev("filter read", n as u64, r.as_ref().map_or(u64::MAX, |n| *n as u64));
            let took = r.as_ref().map(|n| *n).map_err(|e| e.kind());
            match r {
                Ok(k) => {
                    if k > buf.len() || d2.get(done..done + k) != Some(&buf[..k]) {
                        return viol("wrong bytes", format!("call {op} of size {n} gave {k} bytes at {done} that are not the source's"));
                    }
                    done += k;
                    if n == 0 {
                        w2.probe("empty buffer");
                    } else if k == 0 {
                        w2.probe("nothing transferred");
                        if single && st.eofs.get() == eof0 {
                            return viol("end without cause", format!("read of {n} bytes gave 0 at {done}, the source had not ended"));
                        }
                    }
                    if failed && k > 0 {
                        w2.probe("failed then retried");
                    }
                }
                Err(e) => {
                    failed = true;
                    let intr = w2.counts.borrow()[F::IntrRead as usize] > intr0;
                    let cause = match e.kind() {
                        ErrorKind::Interrupted => intr,
                        ErrorKind::UnexpectedEof if op == 3 && st.eofs.get() > eof0 => true,
                        ErrorKind::InvalidData if op == 14 => true,
                        k => st.fired.get() > fired0 && matches!(end, SrcEnd::Error { kind, .. } if kind == k),
                    };
                    if !cause {
                        return viol("error without cause", format!("call {op} of size {n} at {pos0}: {e:?}"));
                    }
                }
            }
            if single && took.is_ok() && w2.counts.borrow()[F::IntrRead as usize] > intr0 {
                return viol("error swallowed", format!("call {op} of size {n} at {pos0} was interrupted, but gave {took:?}"));
            }
            // an error of the source must come out
            if st.fired.get() > fired0 && matches!(end, SrcEnd::Error { .. }) && !failed {
                return viol("error swallowed", format!("call {op} of size {n} at {pos0}"));
            }
            if done != st.pos.get() {
                return viol("count differs", format!("{} bytes taken from the source, {done} reported", st.pos.get()));
            }
        }
        let h = f.hash();
        w2.hash_bytes("digest", &h);
        if h != sha512(&d2[..done]) {
            return viol("wrong digest", format!("after {done} bytes read (failed before: {failed})"));
        }
        Ok(())
    })?
}

fn c10_write(w: &Rc<World>, data: Vec<u8>, ops: Vec<(u8, usize)>) -> Res {
    let at = offset(w, data.len() + 1, &[]);
    let kind = pick_kind(w);
    let (fault, ff) = {
        let mut t = w.ft.borrow_mut();
        let f = match t.weighted(&[3, 2, 2, 1, 1]) {
            0 => SinkFault::None,
            1 => SinkFault::Error { at, kind, lasting: false, reject: false },
            2 => SinkFault::Error { at, kind, lasting: true, reject: false },
            3 => SinkFault::Error { at, kind, lasting: false, reject: true },
            _ => SinkFault::Zero { at },
        };
        // (a flush can be interrupted like any call: the caller has to learn of it)
        let ff = t.chance(1, 6).then(|| t.pick(&[ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::StorageFull, ErrorKind::BrokenPipe]));
        (f, ff)
    };
    let sink = Sink::with_flush(w, fault, Delivery::Rough, ff);
    let (s2, w2) = (sink.clone(), w.clone());
    session(w, move || -> Res {
        let mut f = FilterWrite::new(s2.clone());
        let mut at = 0usize;
        let mut failed = false;
        for (op, n) in ops {
            let mut buf: Vec<u8> = (0..n).map(|i| data.get((at + i) % data.len().max(1)).copied().unwrap_or(7)).collect();
            let had = s2.st.got.borrow().len();
            let (fired0, intr0, fl0) = (s2.st.fired.get(), w2.counts.borrow()[F::IntrWrite as usize], s2.st.flushes.get());
            if op % 10 == 2 {
                let r = f.flush();
                if s2.st.flushes.get() != fl0 + 1 {
                    return viol("flush not passed on", "");
                }
                if r.as_ref().err().map(|e| e.kind()) != ff {
                    return viol("flush result differs", format!("{r:?}, the sink's flush fails: {ff:?}"));
                }
                if ff.is_some() {
                    w2.probe("flush failed");
                }
                continue;
            }
            let whole = op % 10 == 3 || op == 4;
            let r: io::Result<usize> = match op {
                3 | 13 => f.write_all(&buf).map(|()| n),
                4 => {
                    w2.probe("formatted write");
                    let text: String = buf.iter().map(|b| char::from(b & 0x7f)).collect();
                    buf = text.clone().into_bytes();
                    let (x, y) = text.split_at(n / 3);
                    f.write_fmt(format_args!("{x}{y}")).map(|()| n)
                }
                5 | 14 | 15 => {
                    let (a, b) = buf.split_at(n / 3);
                    f.write_vectored(&[io::IoSlice::new(a), io::IoSlice::new(b)])
                }
                _ => f.write(&buf),
            };
            w2.ev("filter write", n as u64, r.as_ref().map_or(u64::MAX, |n| *n as u64));
            let now = s2.st.got.borrow().len();
            let took = now - had;
            if took > n || s2.st.got.borrow()[had..] != buf[..took] {
                return viol("wrong bytes", format!("write of {n} at {had}: sink got {took} other bytes"));
            }
            match r {
                Ok(k) => {
                    if k != took {
                        return viol("count differs", format!("write of {n}: {k} reported, {took} taken by the sink"));
                    }
                    if n == 0 {
                        w2.probe("empty buffer");
                    } else if k == 0 {
                        w2.probe("nothing transferred");
                        if s2.st.fired.get() == fired0 {
                            return viol("nothing written without cause", format!("write of {n} at {had}"));
                        }
                    }
                    if failed && k > 0 {
                        w2.probe("failed then retried");
                    }
                    let intr = w2.counts.borrow()[F::IntrWrite as usize] > intr0;
                    if !whole && intr {
                        return viol("error swallowed", format!("write of {n} at {had} was interrupted, but {k} bytes are reported"));
                    }
                    if !whole && s2.st.fired.get() > fired0 && matches!(fault, SinkFault::Error { .. }) {
                        return viol("error swallowed", format!("write of {n} at {had}"));
                    }
                }
                Err(e) => {
                    failed = true;
                    let intr = w2.counts.borrow()[F::IntrWrite as usize] > intr0;
                    let cause = match (e.kind(), fault) {
                        (ErrorKind::Interrupted, _) => intr,
                        (ErrorKind::WriteZero, SinkFault::Zero { .. }) => whole && s2.st.fired.get() > fired0,
                        (k, SinkFault::Error { kind, .. }) => s2.st.fired.get() > fired0 && k == kind,
                        _ => false,
                    };
                    if !cause {
                        return viol("error without cause", format!("call {op} of size {n} at {had}: {e:?}"));
                    }
                    if !whole && took > 0 {
                        return viol("count differs", format!("write of {n} failed but {took} bytes were taken"));
                    }
                }
            }
            at += took;
        }
        let h = f.hash();
        w2.hash_bytes("digest", &h);
        if h != sha512(&s2.got()) {
            return viol("wrong digest", format!("after {} bytes written (failed before: {failed})", s2.got().len()));
        }
        Ok(())
    })?
}

// ------------------------------------------------------------------------------------------------ C15

struct Model {
    cap: usize,
    v: VecDeque<u8>,
}

impl Model {
    fn push(&mut self, b: u8) {
        if self.v.len() == self.cap {
            self.v.pop_front();
        }
        self.v.push_back(b);
    }

    fn contents(&self) -> Vec<u8> {
        self.v.iter().copied().collect()
    }
}

#[derive(Clone, Debug)]
enum Op {
    Push(u8),
    Extend(usize, u64, usize),
    Copy(u16, u16, bool),
    /// distance beyond what the window holds, or zero
    BadCopy(bool, u64, u16),
    Look(u64),
    Contents,
}

pub fn c15(w: &Rc<World>) -> Res {
    let (cap, ops) = {
        let mut t = w.wl.borrow_mut();
        let cap = match t.weighted(&[3, 2, 2, 1]) {
            0 => 1 + t.draw(12) as u16,
            1 => t.pick(&[32768u16, 255, 256, 257, 258, 259, 32767, 32769]),
            2 => t.pick(&[65535u16, 65534, 65533, 40000]),
            _ => 1 + t.draw(65535) as u16,
        };
        let n = 1 + t.draw(40);
        let mut ops = Vec::new();
        // few large operations: they take nearly all of the time
        let (mut big_copies, mut big_extends) = (t.draw(3), 1 + t.draw(4));
        for _ in 0..n {
            ops.push(match t.weighted(&[4, 3, 6, 2, 4, 2]) {
                0 => Op::Push(t.draw(256) as u8),
                1 => {
                    let len = match t.weighted(&[4, 2, 2]) {
                        0 => t.draw(20) as usize,
                        1 => t.draw(600) as usize,
                        _ if big_extends == 0 && cap > 600 => t.draw(600) as usize,
                        _ => (usize::from(cap) + t.draw(5) as usize).saturating_sub(2),
                    };
                    if len > 600 {
                        big_extends = big_extends.saturating_sub(1);
                    }
                    Op::Extend(t.pick(&[3usize, 1, 0, 4]), t.seed(), len)
                }
                2 => {
                    let dist = t.draw(65536) as u16;
                    let len = match t.weighted(&[4, 3, 1, 1]) {
                        0 => t.draw(12) as u16,
                        1 => 3 + t.draw(256) as u16,
                        _ if big_copies == 0 => 3 + t.draw(256) as u16,
                        2 => t.pick(&[0u16, 65535, 32768]),
                        _ => cap,
                    };
                    if len > 600 {
                        big_copies = big_copies.saturating_sub(1);
                    }
                    Op::Copy(dist, len, t.chance(1, 3))
                }
                3 => Op::BadCopy(t.chance(1, 2), t.draw(4), t.draw(300) as u16),
                4 => Op::Look(t.draw(65536)),
                _ => Op::Contents,
            });
        }
        (cap, ops)
    };
    w.note(|| format!("capacity {cap}, operations {ops:?}"));
    match cap {
        1 => w.probe("capacity 1"),
        32768 => w.probe("capacity 32768"),
        65535 => w.probe("capacity 65535"),
        _ => {}
    }
    w.max_steps.set(40_000_000);
    let w2 = w.clone();
    session(w, move || c15_body(&w2, cap, ops))?
}

fn c15_body(w: &Rc<World>, cap: u16, ops: Vec<Op>) -> Res {
    let mut win = CircularBuffer::with_capacity(cap);
    let mut m = Model { cap: usize::from(cap), v: VecDeque::new() };
    let mut total = 0usize;
    let check = |win: &CircularBuffer, m: &Model, whole: bool| -> Res {
        if usize::from(win.len()) != m.v.len() || win.capacity() != cap {
            return viol(
                "wrong length",
                format!("length {} of {}, expected {} of {cap}", win.len(), win.capacity(), m.v.len()),
            );
        }
        if whole {
            let got = win.vec();
            let want = m.contents();
            if got != want {
                return viol("wrong contents", diff(&got, &want));
            }
            if want.len() == 65535 {
                w.probe("contents compared at 65535");
            }
        } else if let Some(last) = m.v.back() {
            if win.get_at_dist(1) != *last {
                return viol("wrong contents", "last byte");
            }
        }
        Ok(())
    };
    for op in ops {
        let have = m.v.len();
        match op {
            Op::Push(b) => {
                win.push(b);
                m.push(b);
                total += 1;
                check(&win, &m, false)?;
            }
            Op::Extend(kind, seed, len) => {
                let d = gen::data_kind(kind, seed, len);
                win.extend(&d);
                for b in &d {
                    m.push(*b);
                }
                total += len;
                check(&win, &m, false)?;
            }
            Op::Look(x) => {
                if have == 0 {
                    continue;
                }
                // both ends and anything between
                let dist = match x % 4 {
                    0 => 1,
                    1 => have,
                    _ => 1 + (x as usize) % have,
                };
                let (got, want) = (win.get_at_dist(dist as u16), m.v[have - dist]);
                w.ev("look", dist as u64, u64::from(got));
                if got != want {
                    return viol("wrong look-up", format!("distance {dist} of {have}: {got:#x}, expected {want:#x}"));
                }
            }
            Op::Contents => check(&win, &m, true)?,
            Op::BadCopy(zero, over, len) => {
                let dist = if zero { 0 } else { have + 1 + over as usize };
                if dist > 65535 {
                    continue;
                }
                let mut sink = Sink::new(w, SinkFault::None, Delivery::Plain);
                if win.copy(dist as u16, len, &mut sink).is_ok() {
                    return viol("bad copy accepted", format!("distance {dist} with {have} bytes in the window"));
                }
                w.probe("refused copy");
                if !sink.got().is_empty() {
                    return viol("refused copy wrote", format!("{} bytes", sink.got().len()));
                }
                check(&win, &m, true)?;
            }
            Op::Copy(d, len, fail) => {
                if have == 0 {
                    continue;
                }
                let dist = match d % 5 {
                    0 => have,
                    1 => 1 + (d as usize / 5) % have.min(4),
                    2 => have - (d as usize / 5) % have.min(4),
                    _ => 1 + (d as usize) % have,
                };
                // the run
                let mut run: Vec<u8> = Vec::with_capacity(usize::from(len));
                for i in 0..usize::from(len) {
                    run.push(if i < dist { m.v[have - dist + i] } else { run[i - dist] });
                }
                if dist < run.len() {
                    w.probe("overlapping copy");
                }
                if dist == have {
                    w.probe("copy of whole window");
                }
                if usize::from(len) > m.cap {
                    w.probe("copy longer than the window");
                }
                let fault = if fail && len > 0 {
                    let at = offset(w, usize::from(len), &[dist]);
                    let kind = pick_kind(w);
                    let mut t = w.ft.borrow_mut();
                    match t.weighted(&[2, 2, 1]) {
                        0 => SinkFault::Error { at, kind, lasting: true, reject: false },
                        1 => SinkFault::Error { at, kind, lasting: true, reject: true },
                        _ => SinkFault::Zero { at },
                    }
                } else {
                    SinkFault::None
                };
                let mut sink = Sink::new(w, fault, Delivery::Rough);
                let r = win.copy(dist as u16, len, &mut sink);
                let got = sink.got();
                w.ev("copied", dist as u64, got.len() as u64);
                match (r, sink.st.fired.get() > 0) {
                    (Ok(()), false) => {
                        if got != run {
                            return viol("wrong copy", format!("distance {dist}, length {len}: {}", diff(&got, &run)));
                        }
                        for b in &run {
                            m.push(*b);
                        }
                        total += run.len();
                        check(&win, &m, false)?;
                    }
                    (Ok(()), true) => return viol("sink failure swallowed", format!("distance {dist}, length {len}")),
                    (Err(e), false) => return viol("copy fails", format!("distance {dist} of {have}, length {len}: {e:?}")),
                    (Err(_), true) => {
                        w.probe("failed copy");
                        if !is_prefix(&got, &run) {
                            return viol("wrong copy", format!("before the failure: {}", diff(&got, &run)));
                        }
                        // any prefix of the run may have entered the window
                        let real = win.vec();
                        let mut ok = false;
                        let after = |k: usize| {
                            let mut cand = Model { cap: m.cap, v: m.v.clone() };
                            for b in &run[..k] {
                                cand.push(*b);
                            }
                            cand.v
                        };
                        // most likely what the sink has accepted, or one byte more
                        let likely = [got.len(), (got.len() + 1).min(run.len()), 0];
                        for k in likely.into_iter().chain(0..=run.len()) {
                            if (m.v.len() + k).min(m.cap) != real.len() {
                                continue;
                            }
                            // cheap test first
                            let last = if k == 0 { m.v.back() } else { run.get(k - 1) };
                            if last != real.last() {
                                continue;
                            }
                            let v = after(k);
                            if v.iter().eq(real.iter()) {
                                ok = true;
                                m.v = v;
                                total += k;
                                break;
                            }
                        }
                        if !ok {
                            return viol(
                                "window spoiled by a failed copy",
                                format!("distance {dist}, length {len}, {} bytes accepted: the window is not its old content followed by a prefix of the run", got.len()),
                            );
                        }
                    }
                }
            }
        }
        if total > m.cap {
            w.probe("wrapped");
        }
    }
    check(&win, &m, true)
}
