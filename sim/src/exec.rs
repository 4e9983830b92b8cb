//! Executes a run spec against the real library and judges it.
use crate::alloc;
use crate::content;
use crate::inflate::Inflate;
use crate::sink::*;
use crate::spec::*;
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::{Compression, CompressionOptions, MatchingType, SpecialOptions};
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{ErrorKind, IoSlice, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Library calls made so far in this process (for the watchdog).
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
struct Spin;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _s = alloc::enter(0);
        let p = i.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

pub const PRESETS: u8 = 10;
fn options(e: &EncSpec) -> CompressionOptions {
    let o = e.opts;
    match e.preset {
        1 => return CompressionOptions::high(),
        2 => return CompressionOptions::fast(),
        3 => return CompressionOptions::huffman_only(),
        4 => return CompressionOptions::rle(),
        5 => return CompressionOptions::default(),
        6 => return Compression::Fast.into(),
        7 => return Compression::Default.into(),
        8 => return Compression::Best.into(),
        9 => return Compression::default().into(),
        _ => {}
    }
    CompressionOptions {
        max_hash_checks: o.0,
        lazy_if_less_than: o.1,
        matching_type: if o.2 { MatchingType::Lazy } else { MatchingType::Greedy },
        special: SpecialOptions::Normal,
    }
}

#[cfg(deflate_sim)]
pub const HOOKED: bool = true;
#[cfg(not(deflate_sim))]
pub const HOOKED: bool = false;
thread_local! {
    static KNOBS: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
/// Set this thread's knobs; gives back the previous ones (calls nest when a writer feeds another encoder).
pub fn set_knobs(k: (usize, usize)) -> (usize, usize) {
    #[cfg(deflate_sim)]
    deflate::sim::set_knobs(k.0, k.1);
    KNOBS.with(|c| c.replace(k))
}
#[cfg(deflate_sim)]
fn set_yield(b: Option<(Arc<Baton>, usize)>) {
    deflate::sim::set_yield(b.map(|(b, me)| {
        Box::new(move || {
            work();
            let _s = alloc::enter(0);
            b.yield_(me)
        }) as Box<dyn Fn()>
    }));
}
#[cfg(not(deflate_sim))]
fn set_yield(_: Option<(Arc<Baton>, usize)>) {}

thread_local! {
    /// blocks started in the call in progress, and how many it may start
    static WORK: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, u64::MAX)) };
}
/// The writer took something: the budget starts over.
pub fn rested() {
    WORK.with(|c| c.set((0, c.get().1)));
}
fn work() {
    let (n, max) = WORK.with(|c| c.get());
    WORK.with(|c| c.set((n + 1, max)));
    if n > max {
        WORK.with(|c| c.set((0, u64::MAX)));
        std::panic::panic_any(Spin);
    }
}
/// Count the library's own steps on this thread, so that a call that spins is stopped at a fixed point.
#[cfg(deflate_sim)]
fn count_work() {
    deflate::sim::set_yield(Some(Box::new(work)));
}
#[cfg(not(deflate_sim))]
fn count_work() {
    let _ = work;
}

enum Enc {
    D(DeflateEncoder<SimSink>),
    Z(ZlibEncoder<SimSink>),
    G(GzEncoder<SimSink>),
}
impl Enc {
    fn new(kind: Kind, o: CompressionOptions, hdr: u64, w: SimSink) -> Enc {
        match kind {
            Kind::Deflate => Enc::D(DeflateEncoder::new(w, o)),
            Kind::Zlib => Enc::Z(ZlibEncoder::new(w, o)),
            Kind::Gzip => {
                if hdr == 0 {
                    Enc::G(GzEncoder::new(w, o))
                } else {
                    Enc::G(GzEncoder::from_builder(content::gz(hdr), w, o))
                }
            }
        }
    }
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Enc::D(e) => e.write(b),
            Enc::Z(e) => e.write(b),
            Enc::G(e) => e.write(b),
        }
    }
    fn write_vectored(&mut self, b: &[IoSlice]) -> std::io::Result<usize> {
        match self {
            Enc::D(e) => e.write_vectored(b),
            Enc::Z(e) => e.write_vectored(b),
            Enc::G(e) => e.write_vectored(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self {
            Enc::D(e) => e.flush(),
            Enc::Z(e) => e.flush(),
            Enc::G(e) => e.flush(),
        }
    }
    fn reset(&mut self, w: SimSink, hdr: u64) -> std::io::Result<SimSink> {
        match self {
            Enc::D(e) => e.reset(w),
            Enc::Z(e) => e.reset(w),
            Enc::G(e) => {
                if hdr == 0 {
                    e.reset(w)
                } else {
                    e.reset_with_builder(w, content::gz(hdr))
                }
            }
        }
    }
    fn finish(self) -> std::io::Result<SimSink> {
        match self {
            Enc::D(e) => e.finish(),
            Enc::Z(e) => e.finish(),
            Enc::G(e) => e.finish(),
        }
    }
    fn checksum(&self) -> Option<u32> {
        match self {
            Enc::D(_) => None,
            Enc::Z(e) => Some(e.checksum()),
            Enc::G(e) => Some(e.checksum()),
        }
    }
}

/// How a call ended.
enum Ret<T> {
    Ok(T),
    Err(ErrorKind),
    /// the writer's own panic came through
    Sink,
    /// anything else; the encoder is not used any further
    Dead,
}

pub struct EncRun {
    spec: EncSpec,
    data: Arc<Vec<u8>>,
    pos: usize,
    core: Arc<Mutex<Core>>,
    enc: Option<Enc>,
    next: usize,
    over: bool,
    mem: isize,
    hdr_len: usize,
    /// no more calls except the end
    give: bool,
    dead: bool,
    failed: bool,
    expect_unwind: bool,
    states: HashSet<u64>,
    /// iterations done of the loop in progress
    round: usize,
    /// identity of the error the last call returned
    err_id: Option<u64>,
    loops: bool,
    trim: bool,
    done_ops: u64,
    life: Vec<LifeOp>,
    peak_ok: bool,
    multi: bool,
}
/// What happened in the life of an encoder, for the whole-life reference.
#[derive(Clone, Copy)]
enum LifeOp {
    W(usize, usize, usize),
    F,
    R(u64),
}

const MEM_LIMIT: isize = 1 << 20;

impl EncRun {
    fn viol(&self, tag: &'static str, msg: String) {
        let mut c = self.core.lock().unwrap();
        if c.viols.len() < 50 {
            c.viols.push(Viol { tag, msg });
        }
    }
    fn say<F: FnOnce() -> String>(&self, f: F) {
        let l = self.core.lock().unwrap().log.clone();
        l.lock().unwrap().say(f);
    }
    fn ev(&self, a: u64, b: u64, c: u64) {
        let l = self.core.lock().unwrap().log.clone();
        l.lock().unwrap().ev(a, b, c);
    }
    fn me(&self) -> usize {
        self.core.lock().unwrap().me
    }
    fn new(spec: &EncSpec, me: usize, log: Arc<Mutex<Log>>, baton: Option<Arc<Baton>>, reent: Option<Arc<Reent>>, multi: bool) -> EncRun {
        let data = Arc::new(content::build(&spec.segs));
        let mut st = Stream::new(spec.kind, spec.hdr);
        st.trim = spec.volume() > 64 << 20;
        let trim = st.trim;
        st.audit(spec.knobs == (0, 0));
        let hdr_len = st.hdr.len();
        let peak_ok = reent.is_none();
        let core = Core {
            me,
            acts: Default::default(),
            tail: spec.tail,
            empty_faults: spec.empty_faults,
            streams: vec![st],
            cur: 0,
            pending: None,
            viols: vec![],
            forbid: false,
            frozen: false,
            fired: vec![],
            errs: vec![],
            nerr: 0,
            nth: 0,
            intr: 0,
            call_len: 0,
            noprog: 0,
            delivered: 0,
            log,
            cnt: Counters::default(),
            baton,
            reent: if spec.reent { reent } else { None },
            reent_left: 12,
            chain: None,
            mem_excl: 0,
            poisoned: false,
            consuming: false,
            only_random: !spec.loops() && !spec.segs.is_empty() && spec.segs.iter().all(|s| s.kind == 0),
            cap_extra: 100_000 + 1000 * spec.steps() + 64 * spec.volume().max(spec.segs.iter().map(|s| s.len).sum::<usize>()) / if spec.knobs.0 > 0 { spec.knobs.0 } else { 1000 },
        };
        EncRun {
            spec: spec.clone(),
            data,
            pos: 0,
            core: Arc::new(Mutex::new(core)),
            enc: None,
            next: 0,
            over: false,
            mem: 0,
            hdr_len,
            give: false,
            dead: false,
            failed: false,
            expect_unwind: false,
            states: HashSet::new(),
            round: 0,
            err_id: None,
            loops: spec.loops(),
            trim,
            done_ops: 0,
            life: vec![],
            peak_ok,
            multi,
        }
    }
    fn create(&mut self) {
        let sink = SimSink { id: 0, core: self.core.clone() };
        let (k, o, h) = (self.spec.kind, options(&self.spec), self.spec.hdr);
        let r = self.call(0, 0, move || Ok(Enc::new(k, o, h, sink)));
        match r {
            Ret::Ok(e) => self.enc = Some(e),
            _ => {
                self.dead = true;
            }
        }
    }

    /// Run one library call under the monitor. `what` names it in the log; `len` scales its work budget.
    fn call<T>(&mut self, what: u64, len: usize, f: impl FnOnce() -> std::io::Result<T>) -> Ret<T> {
        const N: [&str; 7] = ["new", "write", "flush", "reset", "finish", "drop", "checksum"];
        {
            let mut c = self.core.lock().unwrap();
            c.fired.clear();
            c.errs.clear();
            c.noprog = 0;
            c.delivered = 0;
            c.call_len = len;
            c.cnt.calls += 1;
            c.mem_excl = 0;
        }
        let outer_knobs = set_knobs(self.spec.knobs);
        LAST_PANIC.with(|p| p.borrow_mut().clear());
        let before = alloc::live();
        alloc::reset_peak();
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        // one step for each piece of a block, as short as the knob allows, with much to spare
        let outer_work = WORK.with(|c| c.replace((0, 20_000 + 6 * (len as u64 + 200_000) / (self.spec.knobs.0 as u64).clamp(1, 1000))));
        let mut id = None;
        let idr = &mut id;
        let r = {
            let _g = alloc::enter(1);
            catch_unwind(AssertUnwindSafe(move || {
                f().map_err(|e| {
                    *idr = match e.raw_os_error() {
                        Some(c) => Some(OS | c as u64),
                        None => e.get_ref().and_then(|e| e.downcast_ref::<SimErr>()).map(|e| e.0),
                    };
                    e.kind()
                })
            }))
        };
        WORK.with(|c| c.set(outer_work));
        self.err_id = id;
        set_knobs(outer_knobs);
        let r = match r {
            Ok(Ok(v)) => Ret::Ok(v),
            Ok(Err(k)) => Ret::Err(k),
            Err(p) => {
                let r = if p.is::<SimPanic>() {
                    Ret::Sink
                } else if p.is::<SimUnwind>() {
                    Ret::Dead
                } else {
                    self.dead = true;
                    if p.is::<Livelock>() {
                        let m = {
                            let c = self.core.lock().unwrap();
                            format!("{} keeps calling the writer without progress (faults in this call: {:?}...)", N[what as usize], c.fired.iter().take(4).collect::<Vec<_>>())
                        };
                        self.viol("livelock", m);
                    } else if p.is::<Spin>() {
                        self.viol("livelock", format!("{} keeps working without an end (stopped after its work budget)", N[what as usize]));
                    } else if p.is::<Runaway>() {
                    } else {
                        let m = LAST_PANIC.with(|p| p.borrow().clone());
                        let under_fault = !self.core.lock().unwrap().fired.is_empty();
                        self.viol("panic", format!("{} panicked{}: {}", N[what as usize], if under_fault { " after the writer failed" } else { "" }, m));
                    }
                    Ret::Dead
                };
                drop(p);
                r
            }
        };
        let excl = self.core.lock().unwrap().mem_excl;
        let delta = alloc::live() - before - excl;
        let peak = alloc::peak() - before;
        let m0 = self.mem;
        self.mem += delta;
        let limit = MEM_LIMIT + self.hdr_len as isize;
        if self.mem > limit || self.peak_ok && m0 + peak > limit {
            self.viol("memory", format!("the encoder holds {} bytes of heap ({} at most during {})", self.mem, m0 + peak, N[what as usize]));
        }
        // log and abstract state
        let (rc, s) = {
            let c = self.core.lock().unwrap();
            let rc = match &r {
                Ret::Ok(_) => 0u64,
                Ret::Err(k) => 1 + *k as u64,
                Ret::Sink => 100,
                Ret::Dead => 101,
            };
            let st = &c.streams[c.cur];
            let b = |n: usize| match n {
                0 => 0u64,
                1..=258 => 1,
                259..=32767 => 2,
                32768..=65535 => 3,
                65536..=98303 => 4,
                _ => 5,
            };
            let mut f = 0u64;
            for a in &c.fired {
                f |= match a {
                    Act::Zero => 1,
                    Act::Err(k) => 4 << (*k as u64),
                    _ => 2,
                };
            }
            let mut h = crate::rng::mix(f ^ crate::rng::mix(what << 40 | rc << 24 | (self.spec.kind as u64)));
            h = crate::rng::mix(
                h ^ (b(st.taken) << 32
                    | b(st.taken - st.inf.total().min(st.taken)) << 28
                    | b(c.delivered) << 24
                    | (st.header_done() as u64) << 20
                    | (st.inf.done() as u64) << 19
                    | (st.finishing as u64) << 18
                    | (st.amb as u64) << 17
                    | (st.flushes.min(3)) << 12
                    | (c.cur.min(3) as u64) << 8
                    | c.tail.healthy() as u64),
            );
            (rc, h)
        };
        self.states.insert(s);
        self.ev(what | 64, rc, len as u64);
        let me = self.me();
        self.say(|| {
            let res = match rc {
                0 => "Ok".to_string(),
                100 => "panic of the writer".to_string(),
                101 => "died".to_string(),
                _ => match &r {
                    Ret::Err(k) => format!("Err({:?})", k),
                    _ => String::new(),
                },
            };
            format!("e{} {}({}) -> {}", me, N[what as usize], len, res)
        });
        if let Ret::Sink = r {
            self.give = true;
        } else if self.core.lock().unwrap().fired.contains(&Act::Panic) && !self.dead {
            self.viol("panicswallow", format!("a panic of the writer during {} did not reach the caller", N[what as usize]));
            self.give = true;
        }
        self.judge_err(what, &r);
        r
    }

    /// Which errors a call may return, and which faults it may not hide.
    fn judge_err<T>(&mut self, what: u64, r: &Ret<T>) {
        let (fired, _) = {
            let c = self.core.lock().unwrap();
            (c.fired.clone(), 0)
        };
        match r {
            Ret::Err(k) => {
                self.failed = true;
                let ok = *k == ErrorKind::Interrupted
                    || fired.iter().any(|a| matches!(a, Act::Err(e) if e.kind() == *k))
                    || *k == ErrorKind::WriteZero && fired.contains(&Act::Zero);
                // a stream whose end has begun may refuse data in any way
                let fin = { let c = self.core.lock().unwrap(); c.streams[c.cur].finishing };
                if !ok && !(what == 1 && fin) {
                    if fired.is_empty() {
                        self.viol("spurious", format!("call {} returned {:?} although the writer did not fail", NAMES[what as usize], k));
                    } else {
                        self.viol("kind", format!("call {} returned {:?} but the writer reported {:?}", NAMES[what as usize], k, fired));
                    }
                }
                // it must be the very error the writer reported, not one like it
                let errs = { let c = self.core.lock().unwrap(); c.errs.clone() };
                let like: Vec<u64> = errs.iter().filter(|e| e.0.kind() == *k).map(|e| e.1).collect();
                let own = *k == ErrorKind::WriteZero && fired.contains(&Act::Zero);
                if ok && !own && *k != ErrorKind::Interrupted && !like.contains(&self.err_id.unwrap_or(0)) {
                    self.viol("kind", format!("call {} returned a {:?} error that is not the one the writer reported", NAMES[what as usize], k));
                }
                if *k == ErrorKind::Interrupted {
                    if let Some(a) = fired.iter().find(|a| matches!(a, Act::Err(e) if *e != EK::Interrupted)) {
                        self.viol("kind", format!("call {} returned Interrupted (a retry request) although the writer reported {:?}", NAMES[what as usize], a));
                    }
                }
            }
            Ret::Ok(_) if what >= 1 && what <= 4 => {
                if let Some(a) = fired.iter().find(|a| matches!(a, Act::Err(e) if *e != EK::Interrupted) || **a == Act::Zero) {
                    self.viol("swallowed", format!("call {} returned Ok although the writer reported {:?} during it", NAMES[what as usize], a));
                }
            }
            _ => {}
        }
    }

    fn set_acts(&self, a: &[Act]) {
        let mut c = self.core.lock().unwrap();
        c.nth = 0;
        c.acts = a.iter().copied().collect();
    }
    fn finishing(&self) -> bool {
        let c = self.core.lock().unwrap();
        c.streams[c.cur].finishing
    }
    fn check_sum(&mut self) {
        let poisoned = self.core.lock().unwrap().poisoned;
        if self.dead || poisoned {
            return;
        }
        let Some(e) = &self.enc else { return };
        let Some(got) = e.checksum() else { return };
        let want = {
            let c = self.core.lock().unwrap();
            let s = &c.streams[c.cur];
            if self.spec.kind == Kind::Zlib { s.adler.sum() } else { s.crc.sum() }
        };
        if got != want {
            let t = { let c = self.core.lock().unwrap(); c.streams[c.cur].taken };
            let later = { let c = self.core.lock().unwrap(); c.cur > 0 };
            self.viol(if later { "checksum2" } else { "checksum" }, format!("checksum() is {:#010x}, the {} accepted bytes have {:#010x}", got, t, want));
        }
    }

    /// Hand `buf` over according to how/pol. Returns the number of bytes taken, None if the encoder is gone.
    fn write_piece(&mut self, buf: &[u8], how: How, pol: Pol) -> usize {
        let mut off = 0;
        let mut retries = 0;
        let mut stuck = 0;
        let mut intr = 0;
        let mut first = true;
        while first || off < buf.len() {
            first = false;
            let rest = &buf[off..];
            {
                let mut c = self.core.lock().unwrap();
                let cur = c.cur;
                c.streams[cur].refuse_rest();
                c.streams[cur].expect.extend_from_slice(rest);
            }
            let mut e = self.enc.take().unwrap();
            let r = self.call(1, rest.len(), || {
                if how == How::Vec && rest.len() >= 3 {
                    let (a, b) = rest.split_at(rest.len() / 3);
                    let (b, c) = b.split_at(b.len() / 2);
                    e.write_vectored(&[IoSlice::new(a), IoSlice::new(b), IoSlice::new(c)])
                } else {
                    e.write(rest)
                }
            });
            if !self.dead {
                self.enc = Some(e);
            } else {
                self.leak(e);
            }
            match r {
                Ret::Ok(n) => {
                    if n > rest.len() {
                        self.viol("overcount", format!("write returned Ok({}) for {} bytes", n, rest.len()));
                        self.dead = true;
                    }
                    let n = n.min(rest.len());
                    let fin = self.finishing();
                    let fired = {
                        let mut c = self.core.lock().unwrap();
                        let cur = c.cur;
                        let s = &mut c.streams[cur];
                        let t = s.taken;
                        // an empty write is a call as well
                        if n > 0 || rest.is_empty() {
                            s.ops.push(ROp::W(t, n));
                            self.life.push(LifeOp::W(cur, t, n));
                        }
                        s.took(n);
                        s.refuse_rest();
                        let over = s.inf.total() > s.taken && !s.broken;
                        if over {
                            s.broken = true;
                        }
                        let (o, t) = (s.inf.total(), s.taken);
                        c.cnt.bytes_in += n as u64;
                        if n > 0 && n < rest.len() {
                            c.cnt.probes[8] += 1;
                        }
                        if over {
                            c.viols.push(Viol { tag: "took", msg: format!("the writer holds data decoding to {} bytes but write accepted only {}", o, t) });
                        }
                        !c.fired.is_empty()
                    };
                    self.check_sum();
                    if self.dead {
                        return off;
                    }
                    off += n;
                    if n == 0 && !rest.is_empty() {
                        if fin {
                            self.core.lock().unwrap().cnt.probes[18] += 1;
                            return off;
                        }
                        if !fired {
                            self.viol("zero", format!("write took nothing of {} bytes and reported Ok(0) although the writer works", rest.len()));
                            return off;
                        }
                        if pol != Pol::Retry || how != How::All {
                            return off;
                        }
                        retries += 1;
                        if retries > 12 {
                            return off;
                        }
                    }
                    if how != How::All {
                        return off;
                    }
                }
                Ret::Err(k) => {
                    let (fired, delivered) = {
                        let mut c = self.core.lock().unwrap();
                        let cur = c.cur;
                        let s = &mut c.streams[cur];
                        let t = s.taken;
                        s.refuse_rest();
                        let over = s.inf.total() > t && !s.broken;
                        if over {
                            s.broken = true;
                            let o = s.inf.total();
                            c.viols.push(Viol { tag: "took", msg: format!("write returned {:?}, yet the writer holds data decoding to {} bytes of which only {} were accepted", k, o, t) });
                        }
                        (!c.fired.is_empty(), c.delivered)
                    };
                    self.check_sum();
                    if k == ErrorKind::Interrupted {
                        if !fired && delivered == 0 {
                            stuck += 1;
                            if stuck > 3 {
                                self.viol("noprogress", "write keeps asking for a retry (Interrupted) without taking or delivering anything".into());
                                return off;
                            }
                        } else {
                            stuck = 0;
                        }
                        intr += 1;
                        if delivered > 0 {
                            intr = 0;
                        }
                        if intr > 100 {
                            // the writer's own interruptions are used up much earlier
                            self.viol("livelock", "write keeps asking for a retry (Interrupted) although the writer accepts nothing".into());
                            self.give = true;
                            return off;
                        }
                        self.core.lock().unwrap().cnt.retries += 1;
                        // an interrupted write is always repeated, except by a single-call client
                        if how == How::All {
                            self.core.lock().unwrap().cnt.probes[7] += 1;
                            continue;
                        }
                    }
                    match pol {
                        Pol::Retry => {
                            retries += 1;
                            if retries > 12 {
                                return off;
                            }
                            let mut c = self.core.lock().unwrap();
                            c.cnt.retries += 1;
                            c.cnt.probes[7] += 1;
                            first = true;
                        }
                        Pol::Skip => {
                            self.core.lock().unwrap().cnt.giveups += 1;
                            return off;
                        }
                        Pol::Give => {
                            self.give = true;
                            return off;
                        }
                    }
                }
                Ret::Sink | Ret::Dead => return off,
            }
        }
        off
    }

    fn leak(&self, e: Enc) {
        // a library call died: nothing more of this encoder may run
        self.core.lock().unwrap().frozen = true;
        std::mem::forget(e);
    }

    fn do_write(&mut self, len: usize, chunk: usize, how: How, pol: Pol) {
        let data = self.data.clone();
        if self.loops && self.pos + len > data.len() {
            self.pos = 0;
        }
        let end = (self.pos + len).min(data.len());
        let mut p = self.pos;
        let step = if chunk == 0 { usize::MAX } else { chunk };
        let mut taken = 0;
        let start = p;
        if p == end {
            // an empty write
            self.write_piece(&[], how, pol);
            return;
        }
        while p < end && !self.give && !self.dead {
            let q = end.min(p.saturating_add(step));
            let n = self.write_piece(&data[p..q], how, pol);
            taken += n;
            if n < q - p {
                // the refused rest is dropped by a client that skips, kept for the next call otherwise
                if pol == Pol::Skip && how == How::All && !self.finishing() {
                    self.core.lock().unwrap().cnt.probes[22] += 1;
                    p = q;
                    continue;
                }
                p += n;
                if how == How::All || n == 0 {
                    break;
                }
                continue;
            }
            p = q;
        }
        let _ = (taken, start);
        self.pos = p;
    }

    fn do_flush(&mut self, pol: Pol) {
        let mut tries = 0;
        let (fin0, empty) = {
            let c = self.core.lock().unwrap();
            let s = &c.streams[c.cur];
            (s.finishing, s.taken == 0)
        };
        loop {
            {
                let mut c = self.core.lock().unwrap();
                let cur = c.cur;
                c.streams[cur].flushes += 1;
                if empty {
                    c.cnt.probes[3] += 1;
                }
            }
            let mut e = self.enc.take().unwrap();
            let r = self.call(2, 0, || e.flush());
            if !self.dead {
                self.enc = Some(e);
            } else {
                self.leak(e);
            }
            self.check_sum();
            match r {
                Ret::Ok(()) => {
                    let bad = {
                        let mut c = self.core.lock().unwrap();
                        c.cnt.flushes += 1;
                        if tries > 0 {
                            c.cnt.probes[4] += 1;
                        }
                        let cur = c.cur;
                        let s = &mut c.streams[cur];
                        if !fin0 {
                            s.ops.push(ROp::F);
                            self.life.push(LifeOp::F);
                        } else {
                            // after a failed reset it may or may not come before the final block
                            s.amb = true;
                        }
                        if s.broken {
                            None
                        } else if s.inf.total() != s.taken {
                            Some(format!("flush returned Ok but the writer's bytes decode to {} of {} accepted bytes", s.inf.total(), s.taken))
                        } else if !fin0 && !s.header_done() {
                            Some("flush returned Ok but the container header was not delivered".into())
                        } else if !fin0 && !(s.inf.at_sync_point() && s.inf.last_block_empty_stored && s.delivered.ends_with(&[0, 0, 255, 255])) {
                            Some("flush returned Ok but the writer's bytes do not end with a sync point (00 00 ff ff)".into())
                        } else {
                            None
                        }
                    };
                    if let Some(m) = bad {
                        self.viol("flush", m);
                    }
                    return;
                }
                Ret::Err(_) => {
                    let (healthy, fired) = {
                        let c = self.core.lock().unwrap();
                        (c.tail.healthy(), !c.fired.is_empty())
                    };
                    if !fired && healthy && tries > 3 {
                        self.viol("noprogress", "flush keeps failing although the writer works".into());
                        self.mark_amb();
                        return;
                    }
                    match pol {
                        Pol::Retry => {
                            tries += 1;
                            self.core.lock().unwrap().cnt.retries += 1;
                            if tries > 14 {
                                self.mark_amb();
                                return;
                            }
                        }
                        Pol::Skip => {
                            let mut c = self.core.lock().unwrap();
                            c.cnt.giveups += 1;
                            c.cnt.probes[5] += 1;
                            drop(c);
                            self.mark_amb();
                            return;
                        }
                        Pol::Give => {
                            self.mark_amb();
                            self.give = true;
                            return;
                        }
                    }
                }
                Ret::Sink | Ret::Dead => {
                    self.mark_amb();
                    return;
                }
            }
        }
    }
    fn mark_amb(&self) {
        let mut c = self.core.lock().unwrap();
        let cur = c.cur;
        c.streams[cur].amb = true;
    }

    /// The stream was acknowledged (or must be complete for another reason).
    fn check_complete(&mut self, idx: usize, tag: &'static str, why: &str) {
        let m = {
            let c = self.core.lock().unwrap();
            let s = &c.streams[idx];
            if s.broken || c.poisoned || s.complete() {
                None
            } else if !s.header_done() {
                Some(format!("{}, but the container header was not delivered", why))
            } else if !s.inf.done() {
                Some(format!("{}, but the final block is missing ({} of {} bytes decode)", why, s.inf.total(), s.taken))
            } else {
                Some(format!("{}, but the trailer is missing or cut short ({} bytes)", why, s.inf.rest().len()))
            }
        };
        if let Some(m) = m {
            self.viol(tag, m);
        }
        self.check_stream_stats(idx);
    }
    fn check_stream_stats(&mut self, idx: usize) {
        let mut c = self.core.lock().unwrap();
        // 1: run-length only, 2: literals only
        let mode = match (self.spec.preset, self.spec.opts) {
            (4, _) | (0, (0, _, true)) => 1,
            (3, _) | (0, (0, _, false)) => 2,
            _ => 0,
        };
        let knobs = self.spec.knobs.0 > 0;
        let s = &c.streams[idx];
        if s.broken {
            return;
        }
        let st = s.inf.stats.clone();
        let (taken, dl, hl, fl) = (s.taken, s.dlen(), s.hlen(), s.flushes);
        let complete = s.complete();
        let tl = s.trailer().len();
        let mut bad = vec![];
        if mode == 1 && st.matches_dist_not1 > 0 {
            bad.push(("mode", format!("{} back-references with a distance other than 1 in run-length-only mode", st.matches_dist_not1)));
        }
        if mode == 2 && st.matches > 0 {
            bad.push(("mode", format!("{} back-references in huffman-only mode", st.matches)));
        }
        if complete && !knobs {
            let max = taken + 10 * ((taken + 31743) / 31744) + 12 * fl as usize + 16;
            if dl - hl - tl > max {
                bad.push(("expansion", format!("{} bytes of input became {} bytes of deflate data, more than {}", taken, dl - hl - tl, max)));
            }
        }
        let mut repeats = false;
        if complete && !knobs && s.ebase == 0 && mode != 2 {
            if let Some(p) = period(&self.spec.segs) {
                let d = &s.expect[..taken];
                if p <= 32768 && (mode == 0 || p == 1) && (p >= taken || d[p..] == d[..taken - p]) {
                    repeats = taken > 2 * p + 1000;
                    // (a flush that was given up may have left its marker)
                    let max = taken / if p > 16384 { 32 } else { 50 } + p + p / 32 + 80 * (fl as usize + s.amb as usize + 1);
                    if dl - hl - tl > max {
                        bad.push(("ratio", format!("{} bytes that repeat a block of {} bytes became {} bytes of deflate data, more than {}", taken, p, dl - hl - tl, max)));
                    }
                }
            }
        }
        let p = &mut c.cnt.probes;
        p[9] += (taken > 32768) as u64;
        p[10] += (taken > 65794) as u64;
        p[11] += (taken > 1 << 20) as u64;
        p[12] += (st.stored > st.empty_stored) as u64;
        p[13] += (st.fixed > 0) as u64;
        p[14] += (st.dynamic > 0) as u64;
        p[15] += (st.codes15 > 0) as u64;
        p[16] += (st.max_len == 258) as u64;
        p[17] += (st.max_dist == 32768) as u64;
        p[21] += (taken == 0) as u64;
        p[29] += repeats as u64;
        p[28] += (taken as u64 > u32::MAX as u64) as u64;
        for (t, m) in bad {
            c.viols.push(Viol { tag: t, msg: m });
        }
    }

    fn do_reset(&mut self, hdr: u64, pol: Pol) {
        let mut tries = 0;
        loop {
            let (cur, nid) = {
                let mut c = self.core.lock().unwrap();
                let nid = c.streams.len();
                let mut st = Stream::new(self.spec.kind, hdr);
                st.trim = self.trim;
                st.audit(self.spec.knobs == (0, 0));
                c.streams.push(st);
                c.pending = Some(nid);
                let cur = c.cur;
                c.streams[cur].finishing = true;
                (cur, nid)
            };
            self.hdr_len = self.hdr_len.max(self.core.lock().unwrap().streams[nid].hdr.len());
            let sink = SimSink { id: nid, core: self.core.clone() };
            let mut e = self.enc.take().unwrap();
            let r = self.call(3, 0, || e.reset(sink, hdr));
            if !self.dead {
                self.enc = Some(e);
            } else {
                self.leak(e);
            }
            match r {
                Ret::Ok(w) => {
                    if w.id != cur {
                        self.viol("handback", format!("reset returned writer {} instead of writer {}", w.id, cur));
                    }
                    drop(w);
                    self.check_complete(cur, "incomplete", "reset returned Ok");
                    {
                        let mut c = self.core.lock().unwrap();
                        c.cnt.resets += 1;
                        if tries > 0 {
                            c.cnt.probes[6] += 1;
                        }
                        c.streams[cur].closed = true;
                        if self.loops && !c.streams[cur].broken {
                            c.streams[cur].compact();
                        }
                        c.cur = nid;
                        c.pending = None;
                    }
                    self.life.push(LifeOp::R(hdr));
                    self.check_sum();
                    return;
                }
                Ret::Err(_) => {
                    let (healthy, fired) = {
                        let mut c = self.core.lock().unwrap();
                        c.pending = None;
                        if c.streams[nid].dlen() > 0 {
                            c.viols.push(Viol { tag: "after", msg: "a reset that failed sent bytes to the new writer".into() });
                        }
                        // the new writer is gone; its number is not used again
                        c.streams[nid].closed = true;
                        (c.tail.healthy(), !c.fired.is_empty())
                    };
                    self.check_sum();
                    if !fired && healthy && tries > 3 {
                        self.viol("noprogress", "reset keeps failing although the writer works".into());
                        return;
                    }
                    match pol {
                        Pol::Retry => {
                            tries += 1;
                            self.core.lock().unwrap().cnt.retries += 1;
                            if tries > 14 {
                                return;
                            }
                        }
                        Pol::Skip => {
                            self.core.lock().unwrap().cnt.giveups += 1;
                            return;
                        }
                        Pol::Give => {
                            self.give = true;
                            return;
                        }
                    }
                }
                Ret::Sink | Ret::Dead => {
                    self.core.lock().unwrap().pending = None;
                    return;
                }
            }
        }
    }

    /// Execute the next operation. Returns false when the encoder's life is over.
    pub fn step(&mut self) -> bool {
        if self.over {
            return false;
        }
        if self.enc.is_none() && !self.dead {
            self.create();
            return true;
        }
        if self.dead {
            self.over = true;
            return false;
        }
        if self.next < self.spec.ops.len() && !self.give {
            let op = self.spec.ops[self.next].clone();
            self.next += 1;
            let me = self.me();
            self.say(|| format!("e{} op {}", me, op_text(&op)));
            match op {
                Op::W { len, chunk, how, pol, acts } => {
                    self.set_acts(&acts);
                    self.do_write(len, chunk, how, pol);
                }
                Op::F { pol, acts } => {
                    self.set_acts(&acts);
                    self.do_flush(pol);
                }
                Op::R { hdr, pol, acts } => {
                    self.set_acts(&acts);
                    self.do_reset(hdr, pol);
                }
                Op::C => self.check_sum(),
                Op::T(t) => self.core.lock().unwrap().tail = t,
                Op::O(..) => {}
                Op::L(n, k) => {
                    if self.round < n {
                        self.round += 1;
                        self.next -= k + 1;
                    } else {
                        self.round = 0;
                    }
                }
            }
            self.done_ops += 1;
            self.set_acts(&[]);
            return true;
        }
        self.end();
        self.over = true;
        false
    }

    fn end(&mut self) {
        {
            let mut c = self.core.lock().unwrap();
            c.cnt.probes[26] += (self.done_ops > 255) as u64;
            c.cnt.probes[27] += (self.done_ops > 65535) as u64;
        }
        let end = if self.give && self.spec.end == EndKind::Finish { EndKind::Drop } else { self.spec.end };
        let acts = self.spec.end_acts.clone();
        self.set_acts(&acts);
        let me = self.me();
        self.say(|| format!("e{} end {:?}", me, end));
        let Some(e) = self.enc.take() else { return };
        let cur = {
            let mut c = self.core.lock().unwrap();
            let cur = c.cur;
            if end != EndKind::Crash && end != EndKind::Unwind {
                c.streams[cur].finishing = true;
            }
            if self.failed {
                c.cnt.probes[if end == EndKind::Finish { 20 } else { 19 }] += 1;
            }
            cur
        };
        match end {
            EndKind::Finish => {
                // if the writer panics inside finish, the encoder is dropped by the unwinding
                self.core.lock().unwrap().consuming = true;
                let r = self.call(4, 0, move || e.finish());
                self.core.lock().unwrap().cnt.finishes += 1;
                match r {
                    Ret::Ok(w) => {
                        if w.id != cur {
                            self.viol("handback", format!("finish returned writer {} instead of writer {}", w.id, cur));
                        }
                        drop(w);
                        self.core.lock().unwrap().streams[cur].closed = true;
                        self.check_complete(cur, "incomplete", "finish returned Ok");
                    }
                    _ => self.check_stream_stats(cur),
                }
                self.check_freed("finish");
            }
            EndKind::Drop => {
                self.drop_enc(e, cur);
            }
            EndKind::Crash => {
                {
                    let mut c = self.core.lock().unwrap();
                    c.frozen = true;
                    c.cnt.crashes += 1;
                }
                // free its memory the way that runs none of its output code
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let _e = e;
                    std::panic::panic_any(SimUnwind)
                }));
                self.check_stream_stats(cur);
            }
            EndKind::Unwind => {
                {
                    let mut c = self.core.lock().unwrap();
                    c.forbid = true;
                    c.cnt.unwinds += 1;
                }
                self.expect_unwind = true;
                let _ = self.call(5, 0, move || -> std::io::Result<()> {
                    let _e = e;
                    std::panic::panic_any(SimUnwind)
                });
                self.core.lock().unwrap().forbid = false;
                self.check_stream_stats(cur);
                self.check_freed("a drop while unwinding");
            }
        }
    }
    fn drop_enc(&mut self, e: Enc, cur: usize) {
        self.core.lock().unwrap().consuming = true;
        let r = self.call(5, 0, move || {
            drop(e);
            Ok(())
        });
        let (bad_fault, poisoned) = {
            let mut c = self.core.lock().unwrap();
            c.cnt.drops += 1;
            (c.fired.iter().any(|a| !matches!(a, Act::Err(EK::Interrupted))), c.poisoned)
        };
        if let Ret::Ok(()) = r {
            if !bad_fault && !poisoned {
                self.check_complete(cur, "dropincomplete", "the encoder was dropped with a working writer");
            } else {
                self.check_stream_stats(cur);
            }
        }
        if !self.dead {
            self.check_freed("drop");
        }
    }
    fn check_freed(&mut self, what: &str) {
        if self.mem > 2048 && !self.dead {
            self.viol("memory", format!("{} bytes of heap are still held after {}", self.mem, what));
        }
    }
}
/// The period of the data, if it has one by construction.
fn period(segs: &[Seg]) -> Option<usize> {
    let v: Vec<&Seg> = segs.iter().filter(|s| s.len > 0).collect();
    match v[..] {
        [s] if s.kind == 1 => Some(1),
        [s] if s.kind == 2 => Some((s.p as usize).max(1)),
        _ => None,
    }
}
const NAMES: [&str; 7] = ["new", "write", "flush", "reset", "finish", "drop", "checksum"];

/// A writer that accepts everything, for reference executions.
#[derive(Default)]
struct Plain(Vec<u8>);
impl Write for Plain {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _s = alloc::enter(0);
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn write_ref<E: Write>(e: &mut E, mut b: &[u8]) {
    let mut guard = 0;
    if b.is_empty() {
        let _ = e.write(b);
    }
    while !b.is_empty() {
        match e.write(b) {
            Ok(n) => {
                b = &b[n.min(b.len())..];
                guard = if n == 0 { guard + 1 } else { 0 };
            }
            Err(_) => guard += 1,
        }
        if guard > 20 {
            return;
        }
    }
}

/// The accepted calls of a whole encoder life on a perfect writer: the bytes of each stream.
fn whole_life(spec: &EncSpec, life: &[LifeOp], streams: &[Stream]) -> Option<Vec<Vec<u8>>> {
    set_knobs(spec.knobs);
    quiet(|| {
        let o = options(spec);
        let mut out = vec![];
        macro_rules! go {
            ($x:ident, $h:ident, $e:expr, $reset:expr) => {{
                let mut $x = $e;
                for l in life {
                    match *l {
                        LifeOp::W(s, a, n) => write_ref(&mut $x, &streams[s].expect[a..a + n]),
                        LifeOp::F => {
                            let _ = $x.flush();
                        }
                        LifeOp::R($h) => match $reset {
                            Ok(w) => out.push(w.0),
                            Err(_) => out.push(vec![]),
                        },
                    }
                }
                match $x.finish() {
                    Ok(w) => out.push(w.0),
                    Err(_) => out.push(vec![]),
                }
            }};
        }
        match spec.kind {
            Kind::Deflate => go!(e, _h, DeflateEncoder::new(Plain::default(), o), e.reset(Plain::default())),
            Kind::Zlib => go!(e, _h, ZlibEncoder::new(Plain::default(), o), e.reset(Plain::default())),
            Kind::Gzip => go!(
                e,
                h,
                GzEncoder::from_builder(content::gz(spec.hdr), Plain::default(), o),
                e.reset_with_builder(Plain::default(), content::gz(h))
            ),
        }
        out
    })
}
/// The calls of one stream on a fresh encoder with a perfect writer.
fn fresh(spec: &EncSpec, s: &Stream) -> Option<Vec<u8>> {
    set_knobs(spec.knobs);
    quiet(|| {
        let o = options(spec);
        macro_rules! go {
            ($e:expr) => {{
                let mut e = $e;
                for l in &s.ops {
                    match *l {
                        ROp::W(a, n) => write_ref(&mut e, &s.expect[a..a + n]),
                        ROp::F => {
                            let _ = e.flush();
                        }
                    }
                }
                e.finish().map(|w| w.0).unwrap_or_default()
            }};
        }
        match spec.kind {
            Kind::Deflate => go!(DeflateEncoder::new(Plain::default(), o)),
            Kind::Zlib => go!(ZlibEncoder::new(Plain::default(), o)),
            Kind::Gzip => go!(GzEncoder::from_builder(content::gz(s.hdr_seed), Plain::default(), o)),
        }
    })
}
fn oneshot(spec: &EncSpec, s: &Stream) -> Option<Vec<u8>> {
    set_knobs(spec.knobs);
    let o = options(spec);
    let d = &s.expect[..s.taken];
    // the functions without options, where these are the ones they use
    let plain = o == CompressionOptions::default() && d.len() % 2 == 0;
    quiet(|| match spec.kind {
        Kind::Deflate if plain => deflate::deflate_bytes(d),
        Kind::Zlib if plain => deflate::deflate_bytes_zlib(d),
        Kind::Gzip if plain && s.hdr_seed == 0 => deflate::deflate_bytes_gzip(d),
        Kind::Deflate => deflate::deflate_bytes_conf(d, o),
        Kind::Zlib => deflate::deflate_bytes_zlib_conf(d, o),
        Kind::Gzip => deflate::deflate_bytes_gzip_conf(d, o, content::gz(s.hdr_seed)),
    })
}
/// A one-shot compression between other calls.
fn oneshot_op(s: u64, d: &[u8]) -> Option<Vec<u8>> {
    quiet(|| match s % 5 {
        0 => deflate::deflate_bytes(d),
        1 => deflate::deflate_bytes_conf(d, CompressionOptions::fast()),
        2 => deflate::deflate_bytes_conf(d, CompressionOptions::rle()),
        3 => deflate::deflate_bytes_gzip_conf(d, Compression::Best, content::gz(s)),
        _ => deflate::deflate_bytes_zlib(d),
    })
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]).unwrap_or(a.len().min(b.len()));
    format!("{} bytes against {} of the reference, first difference at {}", a.len(), b.len(), i)
}

pub struct Outcome {
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub events: u64,
    pub lines: Vec<String>,
    pub cnt: Counters,
    pub states: HashSet<u64>,
    pub nontrivial: bool,
}

fn check_refs(r: &EncRun, prop: &str, multi: bool, viols: &mut Vec<Viol>, cnt: &mut Counters) {
    if r.trim {
        return;
    }
    let c = r.core.lock().unwrap();
    let spec = &r.spec;
    let used: Vec<&Stream> = {
        // streams that were really begun (failed resets left numbered gaps)
        let mut v = vec![];
        for (i, s) in c.streams.iter().enumerate() {
            let begun = i == 0 || i == c.cur || s.complete() || !s.ops.is_empty() || s.dlen() > 0;
            let _ = i;
            if begun {
                v.push(s);
            }
        }
        v
    };
    let died = r.dead;
    let whole = matches!(prop, "C03" | "C15");
    if whole && !c.poisoned {
        cnt.refs += 1;
        let outs = std::thread::scope(|s| s.spawn(|| whole_life(spec, &r.life, &c.streams)).join().unwrap());
        match outs {
            None => {
                if !died {
                    viols.push(Viol { tag: "ref", msg: "the same calls with a perfect writer panic".into() });
                }
            }
            Some(outs) => {
                if died {
                    viols.push(Viol { tag: "ref", msg: "the encoder died although the same calls with a perfect writer (and alone) succeed".into() });
                }
                // streams in order of life: 0, then each successful reset
                let order: Vec<usize> = life_streams(&c, &r.life);
                for (k, &i) in order.iter().enumerate() {
                    let s = &c.streams[i];
                    if s.amb || c.poisoned || died && i == c.cur {
                        if s.amb {
                            break;
                        }
                        continue;
                    }
                    let Some(o) = outs.get(k) else { break };
                    let bad = if s.complete() { s.delivered != *o } else { !o.starts_with(&s.delivered) };
                    if bad {
                        viols.push(Viol { tag: "ref", msg: format!("stream {}: {} (the same accepted calls on a writer that takes everything{})", k, diff(&s.delivered, o), if multi { ", alone" } else { "" }) });
                        break;
                    }
                }
            }
        }
    }
    if prop == "C11" && !c.poisoned {
        let order = life_streams(&c, &r.life);
        for (k, &i) in order.iter().enumerate() {
            let s = &c.streams[i];
            if k == 0 || s.amb {
                continue;
            }
            cnt.refs += 1;
            match fresh(spec, s) {
                None => {
                    if !died {
                        viols.push(Viol { tag: "fresh", msg: "a new encoder panics on calls the reset encoder completes".into() });
                    }
                }
                Some(o) => {
                    if died && i == c.cur {
                        viols.push(Viol { tag: "fresh", msg: "the reset encoder died on calls a new encoder completes".into() });
                    } else if if s.complete() { s.delivered != o } else { !o.starts_with(&s.delivered) } {
                        viols.push(Viol { tag: "fresh", msg: format!("stream {} of a reset encoder differs from a new encoder's: {}", k, diff(&s.delivered, &o)) });
                    }
                }
            }
        }
    }
    if prop == "C04" && !c.poisoned {
        for s in &used {
            if s.flushes > 0 || s.amb {
                continue;
            }
            cnt.refs += 1;
            match oneshot(spec, s) {
                None => {
                    if !died {
                        viols.push(Viol { tag: "oneref", msg: "the one-shot function panics on data the encoder completes".into() });
                    }
                }
                Some(o) => {
                    if died && std::ptr::eq(*s, &c.streams[c.cur]) {
                        viols.push(Viol { tag: "oneref", msg: "the encoder died on data the one-shot function completes".into() });
                    } else if if s.complete() { s.delivered != o } else { !o.starts_with(&s.delivered) } {
                        viols.push(Viol { tag: "oneref", msg: format!("streamed output differs from the one-shot function: {}", diff(&s.delivered, &o)) });
                    }
                }
            }
        }
    }
}
fn life_streams(c: &Core, life: &[LifeOp]) -> Vec<usize> {
    // streams numbered by successful resets: complete ones in id order, then the current one
    let resets = life.iter().filter(|l| matches!(l, LifeOp::R(_))).count();
    let mut v: Vec<usize> = (0..c.streams.len()).filter(|&i| i < c.cur && c.streams[i].finishing).collect();
    v.push(c.cur);
    v.truncate(resets + 1);
    v
}

pub fn run(spec: &Spec, trace: bool) -> Outcome {
    let mut o = run_once(spec, trace);
    // What a thread or the process keeps once, for all encoders, is held by none of them: a leak is
    // there each time, and a thread that ends takes with it what it kept.
    let leak = |v: &Viol| v.tag == "memory" && v.msg.contains("still held");
    if spec.mode == Mode::Migrate {
        o.viols.retain(|v| v.tag != "memory");
    } else if o.viols.iter().any(leak) && !(0..2).all(|_| run_once(spec, false).viols.iter().any(leak)) {
        o.viols.retain(|v| !leak(v));
    }
    o
}

fn run_once(spec: &Spec, trace: bool) -> Outcome {
    AUDIT.store(spec.prop == "C21", std::sync::atomic::Ordering::Relaxed);
    let log = Arc::new(Mutex::new(Log { hash: 0, lines: if trace { Some(vec![]) } else { None }, n: 0 }));
    let multi = spec.mode != Mode::Single;
    let n = spec.encs.len();
    let reent = if spec.encs.iter().any(|e| e.reent) {
        let data = content::build(&[Seg { kind: 5, seed: 77, p: 20, len: 1500 }]);
        set_knobs((0, 0));
        let want = deflate::deflate_bytes(&data);
        Some(Arc::new(Reent { data, want }))
    } else {
        None
    };
    let mut viols = vec![];
    // one-shot operations: what each gives alone, before anything else exists
    let mut alone: Vec<(u64, usize, Vec<u8>, Option<Vec<u8>>)> = vec![];
    for e in &spec.encs {
        for o in &e.ops {
            if let Op::O(s, l) = *o {
                let d = content::build(&[Seg { kind: (s % content::NKINDS as u64) as u8, seed: s, p: s % 97 + 1, len: l }]);
                set_knobs((0, 0));
                let w = oneshot_op(s, &d);
                alone.push((s, l, d, w));
            }
        }
    }
    let baton = if spec.mode == Mode::Threads { Some(Arc::new(Baton::new(n, &spec.sched))) } else { None };
    let mut runs: Vec<EncRun> = spec
        .encs
        .iter()
        .enumerate()
        .map(|(i, e)| EncRun::new(e, i, log.clone(), baton.clone(), reent.clone(), multi))
        .collect();
    let one = |e: &EncRun| -> Option<Viol> {
        if e.over || e.give || e.next >= e.spec.ops.len() || e.enc.is_none() {
            return None;
        }
        if let Op::O(s, l) = e.spec.ops[e.next] {
            let a = alone.iter().find(|a| a.0 == s && a.1 == l)?;
            set_knobs((0, 0));
            let w = oneshot_op(s, &a.2);
            if w != a.3 {
                return Some(Viol { tag: "oneshot", msg: "a one-shot compression between other calls gave a different result".into() });
            }
        }
        None
    };
    let mut switches = 0;
    count_work();
    match spec.mode {
        Mode::Single => {
            loop {
                viols.extend(one(&runs[0]));
                if !runs[0].step() {
                    break;
                }
            }
        }
        Mode::Interleave | Mode::Migrate => {
            let mut k = 0;
            let mut last = 0;
            while runs.iter().any(|r| !r.over) {
                let mut t = if spec.sched.is_empty() { k } else { spec.sched[k % spec.sched.len()] } % n;
                k += 1;
                while runs[t].over {
                    t = (t + 1) % n;
                }
                switches += (t != last) as u64;
                last = t;
                viols.extend(one(&runs[t]));
                let r = &mut runs[t];
                if spec.mode == Mode::Migrate {
                    std::thread::scope(|s| {
                        s.spawn(|| r.step()).join().unwrap();
                    });
                } else {
                    r.step();
                }
            }
        }
        Mode::Threads => {
            let b = baton.clone().unwrap();
            let alone = &alone;
            let extra: Vec<Viol> = std::thread::scope(|s| {
                let hs: Vec<_> = runs
                    .iter_mut()
                    .enumerate()
                    .map(|(i, r)| {
                        let b = b.clone();
                        s.spawn(move || {
                            b.start(i);
                            set_yield(Some((b.clone(), i)));
                            let mut ex = vec![];
                            loop {
                                if r.enc.is_some() && !r.over && !r.give && r.next < r.spec.ops.len() {
                                    if let Op::O(s, l) = r.spec.ops[r.next] {
                                        if let Some(a) = alone.iter().find(|a| a.0 == s && a.1 == l) {
                                            set_knobs((0, 0));
                                            let w = oneshot_op(s, &a.2);
                                            if w != a.3 {
                                                ex.push(Viol { tag: "oneshot", msg: "a one-shot compression on another thread gave a different result".into() });
                                            }
                                        }
                                    }
                                }
                                if !r.step() {
                                    break;
                                }
                                b.yield_(i);
                            }
                            set_yield(None);
                            b.finish(i);
                            ex
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            });
            viols.extend(extra);
            switches = b.switches();
        }
        Mode::Chain => {
            // encoder 0 -> its writer feeds encoder 1 -> checked sink
            let mut inner = runs.remove(1);
            inner.step();
            let inner = Arc::new(Mutex::new(inner));
            {
                let inn = inner.clone();
                let f: ChainFn = Box::new(move |b: &[u8]| {
                    let mut r = inn.lock().unwrap();
                    if r.enc.is_some() && !r.dead && !r.give {
                        r.write_piece(b, How::All, Pol::Retry);
                    }
                });
                let mut c = runs[0].core.lock().unwrap();
                c.chain = Some(Arc::new(Mutex::new(f)));
            }
            runs[0].peak_ok = false;
            while runs[0].step() {}
            runs[0].core.lock().unwrap().chain = None;
            let mut inner = Arc::try_unwrap(inner).ok().expect("chain still shared").into_inner().unwrap();
            while inner.step() {}
            let (a, b) = {
                let c0 = runs[0].core.lock().unwrap();
                let c1 = inner.core.lock().unwrap();
                let s0: Vec<u8> = c0.streams.iter().flat_map(|s| s.delivered.clone()).collect();
                (s0, c1.streams[0].expect[..c1.streams[0].taken].to_vec())
            };
            let ok = {
                let c = runs[0].core.lock().unwrap();
                !c.poisoned && c.streams.iter().all(|s| !s.broken)
            };
            if ok && a != b {
                viols.push(Viol { tag: "chain", msg: format!("the inner encoder received {} bytes, the outer one delivered {}", b.len(), a.len()) });
            }
            runs.push(inner);
        }
    }
    set_knobs((0, 0));
    let mut cnt = Counters { runs: 1, switches, ..Default::default() };
    let mut states = HashSet::new();
    let mut nontrivial = multi;
    for r in &mut runs {
        {
            let mut c = r.core.lock().unwrap();
            viols.append(&mut c.viols);
            cnt.add(&c.cnt);
        }
        check_refs(r, &spec.prop, multi, &mut viols, &mut cnt);
        let c = r.core.lock().unwrap();
        // second opinion: miniz_oxide on completed streams
        let small = c.streams.iter().map(|s| s.dlen()).sum::<usize>() < 200_000;
        if log.lock().unwrap().hash & 7 == 0 && small {
            for s in c.streams.iter().filter(|s| s.complete() && !s.broken && s.ebase == 0) {
                cnt.second += 1;
                let body = &s.delivered[s.hlen()..s.delivered.len() - s.trailer().len()];
                match miniz_oxide::inflate::decompress_to_vec(body) {
                    Ok(v) if v[..] == s.expect[..s.taken] => {}
                    Ok(_) => viols.push(Viol { tag: "second", msg: "miniz_oxide decodes the stream to different data".into() }),
                    Err(e) => viols.push(Viol { tag: "second", msg: format!("miniz_oxide rejects the stream: {:?}", e) }),
                }
            }
        }
        states.extend(r.states.drain());
        let k = &c.cnt;
        nontrivial |= k.short + k.zero + k.panics + k.flushes + k.resets + k.crashes + k.unwinds + k.err.iter().sum::<u64>() > 0;
    }
    for r in &runs {
        debug_assert!(r.multi == multi);
    }
    let mut l = log.lock().unwrap();
    cnt.events = l.n;
    let lines = l.lines.take().unwrap_or_default();
    Outcome { viols, hash: l.hash, events: l.n, lines, cnt, states, nontrivial }
}
