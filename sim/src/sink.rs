//! The simulated writer and the stream monitor behind it. Every byte an encoder gets accepted passes the
//! monitor at once, so each accepted call is a checked crash point.
use crate::alloc;
use crate::inflate::Inflate;
use crate::spec::*;
use crate::sums::{Adler, Crc};
use std::collections::VecDeque;
use std::io::{self, Write};
use std::sync::{Arc, Condvar, Mutex};

pub struct SimPanic;
pub struct Livelock;
pub struct Runaway;
pub struct SimUnwind;

/// What an error of the simulated writer carries, so that it can be recognised.
#[derive(Debug)]
pub struct SimErr(pub u64);
pub static AUDIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Marks the identity of an error that carries an operating system code.
pub const OS: u64 = 1 << 40;
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}
impl std::error::Error for SimErr {}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tag: &'static str,
    pub msg: String,
}

/// Recorded history of one stream, for the reference executions.
#[derive(Clone, Copy, Debug)]
pub enum ROp {
    W(usize, usize),
    F,
}

pub struct Stream {
    pub kind: Kind,
    pub hdr: Vec<u8>,
    pub hdr_seed: u64,
    hpos: usize,
    zh: [u8; 2],
    pub inf: Inflate,
    checked: usize,
    /// data accepted by write from byte `ebase` on, followed by the data of the write in progress
    pub expect: Vec<u8>,
    pub ebase: usize,
    /// long data is not kept
    pub trim: bool,
    pub taken: usize,
    pub adler: Adler,
    pub crc: Crc,
    pub delivered: Vec<u8>,
    /// bytes delivered and no longer kept in `delivered`
    dbase: usize,
    tpos: usize,
    pub ops: Vec<ROp>,
    /// finish, reset or drop has begun
    pub finishing: bool,
    pub closed: bool,
    /// the monitor has reported this stream; it stops checking
    pub broken: bool,
    /// a flush was given up: whether its marker is in the stream is open
    pub amb: bool,
    pub flushes: u64,
    pub since_progress: usize,
}
impl Stream {
    pub fn new(kind: Kind, hdr_seed: u64) -> Stream {
        Stream {
            kind,
            hdr: if kind == Kind::Gzip { crate::content::gz(hdr_seed).into_header() } else { vec![] },
            hdr_seed,
            hpos: 0,
            zh: [0; 2],
            inf: Inflate::new(),
            checked: 0,
            expect: vec![],
            ebase: 0,
            trim: false,
            taken: 0,
            adler: Adler::new(),
            crc: Crc::new(),
            delivered: vec![],
            dbase: 0,
            tpos: 0,
            ops: vec![],
            finishing: false,
            closed: false,
            broken: false,
            amb: false,
            flushes: 0,
            since_progress: 0,
        }
    }
    /// Look at how compactly blocks are coded, if that is the property of the run.
    pub fn audit(&mut self, own_blocks: bool) {
        if AUDIT.load(std::sync::atomic::Ordering::Relaxed) {
            self.inf.audit = Some(Box::new(crate::inflate::Audit::new()));
            self.inf.own_blocks = own_blocks;
        }
    }
    /// Bytes delivered in all.
    pub fn dlen(&self) -> usize {
        self.dbase + self.delivered.len()
    }
    pub fn hlen(&self) -> usize {
        match self.kind {
            Kind::Deflate => 0,
            Kind::Zlib => 2,
            Kind::Gzip => self.hdr.len(),
        }
    }
    pub fn trailer(&self) -> Vec<u8> {
        match self.kind {
            Kind::Deflate => vec![],
            Kind::Zlib => self.adler.sum().to_be_bytes().to_vec(),
            Kind::Gzip => {
                let mut v = self.crc.sum().to_le_bytes().to_vec();
                v.extend_from_slice(&(self.taken as u32).to_le_bytes());
                v
            }
        }
    }
    pub fn header_done(&self) -> bool {
        self.hpos == self.hlen()
    }
    pub fn complete(&self) -> bool {
        let t = match self.kind {
            Kind::Deflate => 0,
            Kind::Zlib => 4,
            Kind::Gzip => 8,
        };
        self.header_done() && self.inf.done() && self.tpos == t
    }
    pub fn took(&mut self, n: usize) {
        let (a, b) = (self.taken - self.ebase, self.taken - self.ebase + n);
        match self.kind {
            Kind::Deflate => {}
            Kind::Zlib => self.adler.update(&self.expect[a..b]),
            Kind::Gzip => self.crc.update(&self.expect[a..b]),
        }
        self.taken += n;
        self.since_progress += n;
    }
    /// End of the data handed over.
    pub fn offered(&self) -> usize {
        self.ebase + self.expect.len()
    }
    /// Take back what was offered and not accepted.
    pub fn refuse_rest(&mut self) {
        let n = self.taken - self.ebase;
        self.expect.truncate(n);
        if self.trim && self.expect.len() > 48 << 20 {
            let n = self.checked.saturating_sub(self.ebase + 65536);
            if n > 32 << 20 {
                self.expect.drain(..n);
                self.ebase += n;
                self.inf.trim();
            }
        }
    }
    /// The stream is over; keep what references need.
    pub fn compact(&mut self) {
        self.inf.compact();
        self.expect.shrink_to_fit();
        self.delivered.shrink_to_fit();
    }
    fn feed(&mut self, mut d: &[u8]) -> Option<Viol> {
        if self.broken {
            return None;
        }
        let v = |tag, msg: String| Some(Viol { tag, msg });
        self.delivered.extend_from_slice(d);
        if self.trim && self.delivered.len() > 4 << 20 {
            let n = self.delivered.len() - 64;
            self.delivered.drain(..n);
            self.dbase += n;
        }
        if self.closed {
            return v("after", format!("{} bytes sent to a writer after it was handed back", d.len()));
        }
        while self.hpos < self.hlen() && !d.is_empty() {
            let b = d[0];
            match self.kind {
                Kind::Zlib => {
                    self.zh[self.hpos] = b;
                    if self.hpos == 0 && (b & 15 != 8 || b >> 4 > 7) {
                        return v("header", format!("first zlib header byte is {:#04x}", b));
                    }
                    if self.hpos == 1 {
                        let w = (self.zh[0] as u32) << 8 | b as u32;
                        if w % 31 != 0 || b & 32 != 0 {
                            return v("header", format!("zlib header {:02x} {:02x} is not valid", self.zh[0], b));
                        }
                    }
                }
                _ => {
                    if b != self.hdr[self.hpos] {
                        return v(
                            "header",
                            format!("gzip header byte {} is {:#04x}, configured {:#04x}", self.hpos, b, self.hdr[self.hpos]),
                        );
                    }
                }
            }
            self.hpos += 1;
            d = &d[1..];
        }
        if d.is_empty() {
            return None;
        }
        let was_done = self.inf.done();
        if let Err(e) = self.inf.push(d) {
            return v(if e.contains("distance") && e.contains("too far") || e.contains("above the window") { "range" } else { "invalid" }, e);
        }
        if self.kind == Kind::Zlib && self.inf.stats.max_dist > 256 << (self.zh[0] >> 4) {
            return v("header", format!("the zlib header declares a window of {} bytes, but there is a distance of {}", 256 << (self.zh[0] >> 4), self.inf.stats.max_dist));
        }
        if let Some(b) = self.inf.audit.as_mut().and_then(|a| a.bad.take()) {
            return v("coding", b);
        }
        let total = self.inf.total();
        if total > self.checked {
            let o = &self.inf.out[self.checked - self.inf.base()..];
            let e = &self.expect[self.checked - self.ebase..];
            if o.len() > e.len() || *o != e[..o.len()] {
                let i = (0..o.len().min(e.len())).find(|&i| o[i] != e[i]).unwrap_or(e.len());
                let at = self.checked + i;
                return v(
                    if i < o.len() && self.inf.from_reference(at) { "contentref" } else { "content" },
                    format!(
                        "writer holds data decoding to {} bytes, not a prefix of the {} bytes handed over (accepted {}); first difference at {}",
                        total,
                        self.offered(),
                        self.taken,
                        at
                    ),
                );
            }
            self.checked = total;
        }
        if self.inf.done() {
            if !self.finishing {
                return v("early", "the final block was sent although nothing finished the stream".into());
            }
            if !was_done && total != self.taken {
                return v("lost", format!("the stream ends after {} of {} accepted bytes", total, self.taken));
            }
            let t = self.trailer();
            let r = self.inf.rest();
            if r.len() > t.len() {
                return v("extra", format!("{} bytes follow the end of the stream", r.len() - t.len()));
            }
            if r != &t[..r.len()] {
                return v("trailer", format!("trailer {:02x?} instead of {:02x?}", r, t));
            }
            self.tpos = r.len();
        }
        None
    }
}

#[derive(Default, Clone, Debug)]
pub struct Counters {
    pub runs: u64,
    pub calls: u64,
    pub sink_calls: u64,
    pub crash_points: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub events: u64,
    pub short: u64,
    pub zero: u64,
    pub err: [u64; NEK],
    pub panics: u64,
    pub errforever: u64,
    pub crashes: u64,
    pub unwinds: u64,
    pub drops: u64,
    pub finishes: u64,
    pub resets: u64,
    pub flushes: u64,
    pub retries: u64,
    pub giveups: u64,
    pub switches: u64,
    pub refs: u64,
    pub second: u64,
    pub nested: u64,
    pub probes: [u64; NPROBES],
    pub other: u64,
}
pub const NPROBES: usize = 32;
pub const PROBES: [&str; NPROBES] = [
    "fault inside container header",
    "fault between header and trailer",
    "fault inside or before trailer after final block",
    "flush before first write",
    "flush retried after failure",
    "flush given up, stream continued",
    "reset retried after failure",
    "write refused then retried",
    "write took part of its data",
    "stream over one window (32 KiB)",
    "stream over two windows + lookahead (65794)",
    "stream over 1 MiB",
    "stored block emitted",
    "fixed block emitted",
    "dynamic block emitted",
    "15-bit Huffman code emitted",
    "match of length 258",
    "match at distance 32768",
    "write after failed reset",
    "drop after failed call",
    "finish after failed call",
    "empty stream",
    "data written with a refused byte range skipped",
    "writer fault while over 32 KiB pending",
    "fault after more than 10 writer calls of one operation",
    "more than 10 interruptions in a row",
    "history of more than 255 operations",
    "history of more than 65535 operations",
    "stream over 4 GiB",
    "stream that repeats a block",
    "run repeated in a process of its own",
    "run repeated in the other build",
];
impl Counters {
    pub fn vec(&self) -> Vec<u64> {
        let mut v = vec![
            self.runs, self.calls, self.sink_calls, self.crash_points, self.bytes_in, self.bytes_out, self.events,
            self.short, self.zero, self.panics, self.errforever, self.crashes, self.unwinds, self.drops, self.finishes,
            self.resets, self.flushes, self.retries, self.giveups, self.switches, self.refs, self.second, self.nested,
            self.other,
        ];
        v.extend_from_slice(&self.err);
        v.extend_from_slice(&self.probes);
        v
    }
    pub fn from_vec(v: &[u64]) -> Counters {
        let mut c = Counters {
            runs: v[0], calls: v[1], sink_calls: v[2], crash_points: v[3], bytes_in: v[4], bytes_out: v[5], events: v[6],
            short: v[7], zero: v[8], panics: v[9], errforever: v[10], crashes: v[11], unwinds: v[12], drops: v[13],
            finishes: v[14], resets: v[15], flushes: v[16], retries: v[17], giveups: v[18], switches: v[19], refs: v[20],
            second: v[21], nested: v[22], other: v[23],
            ..Default::default()
        };
        c.err.copy_from_slice(&v[24..24 + NEK]);
        c.probes.copy_from_slice(&v[24 + NEK..24 + NEK + NPROBES]);
        c
    }
    pub fn add(&mut self, o: &Counters) {
        let a: Vec<u64> = self.vec().iter().zip(o.vec()).map(|(x, y)| x + y).collect();
        *self = Counters::from_vec(&a);
    }
}

/// Global event log of a run: a hash always, text when tracing.
pub struct Log {
    pub hash: u64,
    pub lines: Option<Vec<String>>,
    pub n: u64,
}
impl Log {
    pub fn ev(&mut self, a: u64, b: u64, c: u64) {
        self.n += 1;
        for x in [a, b, c] {
            self.hash = crate::rng::mix(self.hash ^ x);
        }
    }
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(l) = &mut self.lines {
            if l.len() < 20000 {
                l.push(f());
            }
        }
    }
}

/// Turn taking for Threads mode: exactly one thread runs; who goes next comes from the spec.
pub struct Baton {
    m: Mutex<(usize, usize, Vec<bool>, u64)>,
    cv: Condvar,
    sched: Vec<usize>,
}
impl Baton {
    pub fn new(n: usize, sched: &[usize]) -> Baton {
        Baton { m: Mutex::new((0, 0, vec![true; n], 0)), cv: Condvar::new(), sched: sched.to_vec() }
    }
    fn advance(&self, g: &mut (usize, usize, Vec<bool>, u64)) {
        let n = g.2.len();
        let mut t = if self.sched.is_empty() { g.0 + 1 } else { self.sched[g.1 % self.sched.len()] } % n;
        g.1 += 1;
        for _ in 0..n {
            if g.2[t] {
                break;
            }
            t = (t + 1) % n;
        }
        if t != g.0 {
            g.3 += 1;
        }
        g.0 = t;
    }
    pub fn start(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    pub fn yield_(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        self.advance(&mut g);
        self.cv.notify_all();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    pub fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.2[me] = false;
        if g.2.iter().any(|x| *x) {
            self.advance(&mut g);
        }
        self.cv.notify_all();
    }
    pub fn switches(&self) -> u64 {
        self.m.lock().unwrap().3
    }
}

pub type ChainFn = Box<dyn FnMut(&[u8]) + Send>;

pub struct Core {
    pub me: usize,
    pub acts: VecDeque<Act>,
    pub tail: Tail,
    pub empty_faults: bool,
    pub streams: Vec<Stream>,
    pub cur: usize,
    pub pending: Option<usize>,
    pub viols: Vec<Viol>,
    /// the writer must not be called (thread is unwinding)
    pub forbid: bool,
    /// the process has "crashed": nothing counts any more
    pub frozen: bool,
    pub fired: Vec<Act>,
    /// errors reported in this call: kind and identity (0: a bare kind)
    pub errs: Vec<(EK, u64)>,
    pub nerr: u64,
    /// writer calls of this operation, interruptions in a row
    pub nth: usize,
    pub intr: usize,
    pub call_len: usize,
    pub noprog: usize,
    pub delivered: usize,
    pub log: Arc<Mutex<Log>>,
    pub cnt: Counters,
    pub baton: Option<Arc<Baton>>,
    pub reent: Option<Arc<Reent>>,
    pub reent_left: u32,
    pub chain: Option<Arc<Mutex<ChainFn>>>,
    pub mem_excl: isize,
    pub poisoned: bool,
    /// the call in progress consumes the encoder: a panic of the writer drops it while unwinding
    pub consuming: bool,
    pub only_random: bool,
    pub cap_extra: usize,
}
/// Work a writer does with the library itself.
pub struct Reent {
    pub data: Vec<u8>,
    pub want: Vec<u8>,
}

pub struct SimSink {
    pub id: usize,
    pub core: Arc<Mutex<Core>>,
}

impl Core {
    fn error(&mut self, k: EK) -> io::Error {
        self.nerr += 1;
        self.cnt.err[k as usize] += 1;
        if self.nth > 10 {
            self.cnt.probes[24] += 1;
        }
        self.intr = if k == EK::Interrupted { self.intr + 1 } else { 0 };
        if self.intr == 11 {
            self.cnt.probes[25] += 1;
        }
        if self.nerr % 4 == 0 {
            self.errs.push((k, 0));
            io::Error::from(k.kind())
        } else if self.nerr % 4 == 1 && io::Error::from_raw_os_error(k.os()).kind() == k.kind() {
            self.errs.push((k, OS | k.os() as u64));
            io::Error::from_raw_os_error(k.os())
        } else {
            self.errs.push((k, self.nerr));
            io::Error::new(k.kind(), SimErr(self.nerr))
        }
    }
    fn viol(&mut self, v: Viol) {
        if self.viols.len() < 50 {
            self.viols.push(v);
        }
    }
}

impl SimSink {
    fn one(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut g = self.core.lock().unwrap();
        let c = &mut *g;
        if c.frozen {
            return Ok(buf.len());
        }
        c.cnt.sink_calls += 1;
        if c.forbid {
            c.viol(Viol { tag: "unwind", msg: "the writer was called while the thread was unwinding from a panic".into() });
            return Ok(buf.len());
        }
        let log = c.log.clone();
        let (me, id) = (c.me, self.id);
        if buf.is_empty() {
            c.noprog += 1;
            let limit = 64 + c.call_len / 16 + c.fired.len();
            if c.noprog > limit {
                drop(g);
                std::panic::panic_any(Livelock);
            }
            if c.empty_faults {
                if let Some(&Act::Err(k)) = c.acts.front() {
                    c.acts.pop_front();
                    c.fired.push(Act::Err(k));
                    log.lock().unwrap().ev(1, id as u64, k as u64);
                    log.lock().unwrap().say(|| format!("e{} w{}: write([]) -> Err({:?})", me, id, k.kind()));
                    return Err(c.error(k));
                }
            }
            log.lock().unwrap().ev(2, id as u64, 0);
            return Ok(0);
        }
        c.nth += 1;
        let act = match c.acts.pop_front() {
            Some(a) => a,
            None => match c.tail {
                Tail::Accept => Act::All,
                Tail::Chunk(k) => Act::Short(k),
                Tail::Err(k) => {
                    c.cnt.errforever += 1;
                    Act::Err(k)
                }
                Tail::Zero => Act::Zero,
            },
        };
        let k = match act {
            Act::All => buf.len(),
            Act::Short(k) => k.max(1).min(buf.len()),
            _ => 0,
        };
        {
            let mut l = log.lock().unwrap();
            l.ev(3 + (me as u64) * 16, (buf.len() as u64) << 32 | k as u64, id as u64);
            l.say(|| format!("e{} w{}: write({} bytes) -> {:?} ({} accepted)", me, id, buf.len(), act, k));
        }
        if k == 0 {
            c.noprog += 1;
            c.fired.push(act);
            if buf.len() > 32768 {
                c.cnt.probes[23] += 1;
            }
            let s = &c.streams[c.cur];
            let p = if !s.header_done() { 0 } else if s.inf.done() { 2 } else { 1 };
            c.cnt.probes[p] += 1;
            let limit = 64 + c.call_len / 16 + c.fired.len().min(400);
            if c.noprog > limit + 200 {
                drop(g);
                std::panic::panic_any(Livelock);
            }
            match act {
                Act::Zero => {
                    c.cnt.zero += 1;
                    return Ok(0);
                }
                Act::Err(k) => {
                    return Err(c.error(k));
                }
                _ => {
                    c.cnt.panics += 1;
                    c.poisoned = true;
                    c.forbid = c.consuming;
                    drop(g);
                    std::panic::panic_any(SimPanic);
                }
            }
        }
        c.intr = 0;
        crate::exec::rested();
        if k < buf.len() {
            c.cnt.short += 1;
        }
        c.delivered += k;
        c.cnt.crash_points += 1;
        c.cnt.bytes_out += k as u64;
        if id != c.cur && Some(id) != c.pending {
            let known = id < c.streams.len();
            c.viol(Viol {
                tag: "after",
                msg: format!("{} bytes sent to writer {} while the stream goes to writer {}{}", k, id, c.cur, if known { "" } else { " (a writer whose reset failed)" }),
            });
        } else if !c.poisoned {
            let only_random = c.only_random;
            let s = &mut c.streams[id];
            if let Some(v) = s.feed(&buf[..k]) {
                s.broken = true;
                c.viol(v);
            } else {
                if only_random && s.since_progress > 300_000 {
                    let m = s.since_progress;
                    c.viol(Viol { tag: "stall", msg: format!("took {} bytes of incompressible data between two deliveries", m) });
                } else {
                    s.since_progress = 0;
                }
                let s = &c.streams[id];
                if s.dlen() > 2 * s.offered() + s.hlen() + c.cap_extra {
                    let m = format!("{} bytes delivered for {} bytes of data", s.dlen(), s.offered());
                    c.viol(Viol { tag: "runaway", msg: m });
                    drop(g);
                    std::panic::panic_any(Runaway);
                }
            }
        }
        Ok(k)
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _s = alloc::enter(0);
        let (baton, me, reent, chain) = {
            let mut g = self.core.lock().unwrap();
            let r = if g.reent_left > 0 && !g.frozen && !g.forbid { g.reent_left -= 1; g.reent.clone() } else { None };
            (g.baton.clone(), g.me, r, g.chain.clone())
        };
        if let Some(b) = &baton {
            b.yield_(me);
        }
        if let Some(r) = reent {
            let before = alloc::live();
            let got = {
                let outer = crate::exec::set_knobs((0, 0));
                let _l = alloc::enter(1);
                let got = deflate::deflate_bytes(&r.data);
                crate::exec::set_knobs(outer);
                got
            };
            let bad = got != r.want;
            drop(got);
            let mut g = self.core.lock().unwrap();
            g.mem_excl += alloc::live() - before;
            g.cnt.nested += 1;
            if bad {
                g.viol(Viol { tag: "oneshot", msg: "a one-shot compression inside a writer call gave a different result".into() });
            }
        }
        let res = self.one(buf);
        if let (Some(ch), Ok(n)) = (chain, &res) {
            if *n > 0 {
                let before = alloc::live();
                (ch.lock().unwrap())(&buf[..*n]);
                let d = alloc::live() - before;
                let mut g = self.core.lock().unwrap();
                g.mem_excl += d;
                g.cnt.nested += 1;
            }
        }
        if let Some(b) = &baton {
            b.yield_(me);
        }
        res
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
