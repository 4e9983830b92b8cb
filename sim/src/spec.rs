//! The explicit run description. Executing it draws no random number, so its text form is the replay file.
use std::fmt::Write as _;
use std::io::ErrorKind;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Deflate,
    Zlib,
    Gzip,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// one encoder
    Single,
    /// several encoders, their calls interleaved on one thread
    Interleave,
    /// like Interleave, but every call runs on a freshly spawned thread (encoders move between threads)
    Migrate,
    /// one thread per encoder, preempted at calls, writer calls and yield hooks, one runs at a time
    Threads,
    /// encoder 0 writes into encoder 1 (its writer), which writes into the checked sink
    Chain,
}
/// What the writer does in one call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    All,
    Short(usize),
    Zero,
    Err(EK),
    Panic,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    Interrupted,
    WouldBlock,
    TimedOut,
    BrokenPipe,
    Other,
    Full,
    WriteZero,
    Eof,
    ConnReset,
    ConnAborted,
    ConnRefused,
    NotConnected,
    InvalidInput,
    InvalidData,
    Denied,
    NotFound,
    Exists,
    Unsupported,
    NoMemory,
    AddrInUse,
    HostDown,
    Busy,
    ReadOnly,
    Stale,
    TooLarge,
    NotSeekable,
}
pub const NEK: usize = 26;
/// kind, letter in a replay file, what std calls it
pub const EKS: [(EK, char, ErrorKind); NEK] = [
    (EK::Interrupted, 'I', ErrorKind::Interrupted),
    (EK::WouldBlock, 'W', ErrorKind::WouldBlock),
    (EK::TimedOut, 'T', ErrorKind::TimedOut),
    (EK::BrokenPipe, 'B', ErrorKind::BrokenPipe),
    (EK::Other, 'O', ErrorKind::Other),
    (EK::Full, 'F', ErrorKind::StorageFull),
    (EK::WriteZero, 'Z', ErrorKind::WriteZero),
    (EK::Eof, 'e', ErrorKind::UnexpectedEof),
    (EK::ConnReset, 'r', ErrorKind::ConnectionReset),
    (EK::ConnAborted, 'a', ErrorKind::ConnectionAborted),
    (EK::ConnRefused, 'c', ErrorKind::ConnectionRefused),
    (EK::NotConnected, 'n', ErrorKind::NotConnected),
    (EK::InvalidInput, 'i', ErrorKind::InvalidInput),
    (EK::InvalidData, 'd', ErrorKind::InvalidData),
    (EK::Denied, 'p', ErrorKind::PermissionDenied),
    (EK::NotFound, 'f', ErrorKind::NotFound),
    (EK::Exists, 'x', ErrorKind::AlreadyExists),
    (EK::Unsupported, 'u', ErrorKind::Unsupported),
    (EK::NoMemory, 'm', ErrorKind::OutOfMemory),
    (EK::AddrInUse, 's', ErrorKind::AddrInUse),
    (EK::HostDown, 'h', ErrorKind::HostUnreachable),
    (EK::Busy, 'b', ErrorKind::ResourceBusy),
    (EK::ReadOnly, 'o', ErrorKind::ReadOnlyFilesystem),
    (EK::Stale, 't', ErrorKind::StaleNetworkFileHandle),
    (EK::TooLarge, 'l', ErrorKind::FileTooLarge),
    (EK::NotSeekable, 'k', ErrorKind::NotSeekable),
];
impl EK {
    pub fn kind(self) -> ErrorKind {
        EKS[self as usize].2
    }
    pub fn c(self) -> char {
        EKS[self as usize].1
    }
    /// The code by which the operating system reports this kind.
    pub fn os(self) -> i32 {
        const E: [i32; NEK] =
            [4, 11, 110, 32, 5, 28, 0, 0, 104, 103, 111, 107, 22, 0, 13, 2, 17, 38, 12, 98, 113, 16, 30, 116, 27, 29];
        E[self as usize]
    }
    fn from(c: char) -> Option<EK> {
        EKS.iter().find(|k| k.1 == c).map(|k| k.0)
    }
}
/// What the writer does once the acts of an operation are used up.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tail {
    Accept,
    Chunk(usize),
    Err(EK),
    Zero,
}
impl Tail {
    pub fn healthy(self) -> bool {
        matches!(self, Tail::Accept | Tail::Chunk(_))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pol {
    /// repeat the failed call
    Retry,
    /// give the call up and go on with the next operation
    Skip,
    /// give the stream up: drop the encoder
    Give,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    /// one write call
    One,
    /// until everything is taken
    All,
    /// one write_vectored call over three slices
    Vec,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    /// len bytes of content in pieces of `chunk` (0: one piece)
    W { len: usize, chunk: usize, how: How, pol: Pol, acts: Vec<Act> },
    F { pol: Pol, acts: Vec<Act> },
    R { hdr: u64, pol: Pol, acts: Vec<Act> },
    C,
    T(Tail),
    /// a one-shot compression in between (content seed, len)
    O(u64, usize),
    /// the last `1` operations `0` more times; data starts over when it is used up
    L(usize, usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EndKind {
    Finish,
    Drop,
    /// the process stops here: nothing more of the encoder runs
    Crash,
    /// dropped while its thread unwinds from a panic
    Unwind,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Seg {
    pub kind: u8,
    pub seed: u64,
    pub p: u64,
    pub len: usize,
}
#[derive(Clone, PartialEq, Debug)]
pub struct EncSpec {
    pub kind: Kind,
    /// max_hash_checks, lazy_if_less_than, lazy matching
    pub opts: (u16, u16, bool),
    /// options as a user names them instead (0: the three values of `opts`), see `exec::PRESETS`
    pub preset: u8,
    /// hook knobs: most LZ77 values per block, output buffer threshold (0: as shipped)
    pub knobs: (usize, usize),
    /// gzip header seed of the first stream (0: blank)
    pub hdr: u64,
    /// writer runs one-shot compressions itself
    pub reent: bool,
    /// faults also hit writer calls with an empty buffer
    pub empty_faults: bool,
    pub segs: Vec<Seg>,
    pub tail: Tail,
    pub ops: Vec<Op>,
    pub end: EndKind,
    pub end_acts: Vec<Act>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Spec {
    pub prop: String,
    pub build: String,
    pub mode: Mode,
    pub encs: Vec<EncSpec>,
    /// which encoder goes next (cyclic)
    pub sched: Vec<usize>,
}

fn acts_text(a: &[Act]) -> String {
    if a.is_empty() {
        return "-".into();
    }
    let mut s = String::new();
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        match x {
            Act::All => s.push('A'),
            Act::Short(k) => write!(s, "S{}", k).unwrap(),
            Act::Zero => s.push('Z'),
            Act::Err(k) => write!(s, "E{}", k.c()).unwrap(),
            Act::Panic => s.push('P'),
        }
    }
    s
}
fn acts_parse(s: &str) -> Option<Vec<Act>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',')
        .map(|t| {
            let (h, r) = t.split_at(1);
            Some(match h {
                "A" => Act::All,
                "S" => Act::Short(r.parse().ok()?),
                "Z" => Act::Zero,
                "E" => Act::Err(EK::from(r.chars().next()?)?),
                "P" => Act::Panic,
                _ => return None,
            })
        })
        .collect()
}
fn tail_text(t: Tail) -> String {
    match t {
        Tail::Accept => "A".into(),
        Tail::Chunk(k) => format!("C{}", k),
        Tail::Err(k) => format!("E{}", k.c()),
        Tail::Zero => "Z".into(),
    }
}
fn tail_parse(s: &str) -> Option<Tail> {
    let (h, r) = s.split_at(1);
    Some(match h {
        "A" => Tail::Accept,
        "C" => Tail::Chunk(r.parse().ok()?),
        "E" => Tail::Err(EK::from(r.chars().next()?)?),
        "Z" => Tail::Zero,
        _ => return None,
    })
}
fn pol(p: Pol) -> &'static str {
    match p {
        Pol::Retry => "retry",
        Pol::Skip => "skip",
        Pol::Give => "give",
    }
}
fn pol_parse(s: &str) -> Option<Pol> {
    Some(match s {
        "retry" => Pol::Retry,
        "skip" => Pol::Skip,
        "give" => Pol::Give,
        _ => return None,
    })
}
fn how(h: How) -> &'static str {
    match h {
        How::One => "one",
        How::All => "all",
        How::Vec => "vec",
    }
}
fn kind_text(k: Kind) -> &'static str {
    match k {
        Kind::Deflate => "deflate",
        Kind::Zlib => "zlib",
        Kind::Gzip => "gzip",
    }
}
pub fn op_text(o: &Op) -> String {
    match o {
        Op::W { len, chunk, how: h, pol: p, acts } => {
            format!("W {} {} {} {} {}", len, chunk, how(*h), pol(*p), acts_text(acts))
        }
        Op::F { pol: p, acts } => format!("F {} {}", pol(*p), acts_text(acts)),
        Op::R { hdr, pol: p, acts } => format!("R {} {} {}", hdr, pol(*p), acts_text(acts)),
        Op::C => "C".into(),
        Op::T(t) => format!("T {}", tail_text(*t)),
        Op::O(s, l) => format!("O {} {}", s, l),
        Op::L(n, k) => format!("L {} {}", n, k),
    }
}

impl EncSpec {
    /// operations executed, loops included
    pub fn steps(&self) -> usize {
        self.ops.iter().map(|o| if let Op::L(n, k) = o { n * k } else { 1 }).sum()
    }
    pub fn loops(&self) -> bool {
        self.ops.iter().any(|o| matches!(o, Op::L(..)))
    }
    /// loops repeat operations that are there, and no loops
    pub fn sane(&self) -> bool {
        self.ops.iter().enumerate().all(|(i, o)| match o {
            Op::L(_, k) => *k <= i && *k > 0 && !self.ops[i - k..i].iter().any(|o| matches!(o, Op::L(..))),
            _ => true,
        })
    }
    /// bytes written in all
    pub fn volume(&self) -> usize {
        let w = |o: &Op| if let Op::W { len, .. } = o { *len } else { 0 };
        let mut t = 0;
        for (i, o) in self.ops.iter().enumerate() {
            t += match o {
                Op::L(n, k) => n * self.ops[i - k..i].iter().map(w).sum::<usize>(),
                o => w(o),
            };
        }
        t
    }
}
impl Spec {
    /// Does each build give the same history (no hook in use)?
    pub fn portable(&self) -> bool {
        self.mode != Mode::Threads && self.encs.iter().all(|e| e.knobs == (0, 0))
    }
    /// a run that takes many seconds
    pub fn heavy(&self) -> bool {
        self.encs.iter().any(|e| e.volume() > 100 << 20 || e.steps() > 5000)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let m = match self.mode {
            Mode::Single => "single",
            Mode::Interleave => "interleave",
            Mode::Migrate => "migrate",
            Mode::Threads => "threads",
            Mode::Chain => "chain",
        };
        writeln!(s, "prop {}\nbuild {}\nmode {}", self.prop, self.build, m).unwrap();
        for e in &self.encs {
            writeln!(
                s,
                "enc {} opts {} {} {} knobs {} {} hdr {} reent {} empty {} tail {} preset {}",
                kind_text(e.kind),
                e.opts.0,
                e.opts.1,
                if e.opts.2 { "lazy" } else { "greedy" },
                e.knobs.0,
                e.knobs.1,
                e.hdr,
                e.reent as u8,
                e.empty_faults as u8,
                tail_text(e.tail),
                e.preset
            )
            .unwrap();
            for g in &e.segs {
                writeln!(s, " seg {} {} {} {}", g.kind, g.seed, g.p, g.len).unwrap();
            }
            for o in &e.ops {
                writeln!(s, " op {}", op_text(o)).unwrap();
            }
            let k = match e.end {
                EndKind::Finish => "finish",
                EndKind::Drop => "drop",
                EndKind::Crash => "crash",
                EndKind::Unwind => "unwind",
            };
            writeln!(s, " end {} {}", k, acts_text(&e.end_acts)).unwrap();
        }
        let v: Vec<String> = self.sched.iter().map(|x| x.to_string()).collect();
        writeln!(s, "sched {}", v.join(" ")).unwrap();
        s
    }
    pub fn parse(t: &str) -> Option<Spec> {
        let mut sp =
            Spec { prop: String::new(), build: String::new(), mode: Mode::Single, encs: vec![], sched: vec![] };
        for line in t.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let num = |i: usize| -> Option<u64> { w.get(i)?.parse().ok() };
            match w[0] {
                "prop" => sp.prop = w.get(1)?.to_string(),
                "build" => sp.build = w.get(1)?.to_string(),
                "mode" => {
                    sp.mode = match *w.get(1)? {
                        "single" => Mode::Single,
                        "interleave" => Mode::Interleave,
                        "migrate" => Mode::Migrate,
                        "threads" => Mode::Threads,
                        "chain" => Mode::Chain,
                        _ => return None,
                    }
                }
                "enc" => sp.encs.push(EncSpec {
                    kind: match *w.get(1)? {
                        "deflate" => Kind::Deflate,
                        "zlib" => Kind::Zlib,
                        "gzip" => Kind::Gzip,
                        _ => return None,
                    },
                    opts: (num(3)? as u16, num(4)? as u16, *w.get(5)? == "lazy"),
                    knobs: (num(7)? as usize, num(8)? as usize),
                    hdr: num(10)?,
                    reent: num(12)? == 1,
                    empty_faults: num(14)? == 1,
                    tail: tail_parse(w.get(16)?)?,
                    preset: num(18).unwrap_or(0) as u8,
                    segs: vec![],
                    ops: vec![],
                    end: EndKind::Finish,
                    end_acts: vec![],
                }),
                "seg" => sp.encs.last_mut()?.segs.push(Seg {
                    kind: num(1)? as u8,
                    seed: num(2)?,
                    p: num(3)?,
                    len: num(4)? as usize,
                }),
                "op" => {
                    let o = match *w.get(1)? {
                        "W" => Op::W {
                            len: num(2)? as usize,
                            chunk: num(3)? as usize,
                            how: match *w.get(4)? {
                                "one" => How::One,
                                "all" => How::All,
                                _ => How::Vec,
                            },
                            pol: pol_parse(w.get(5)?)?,
                            acts: acts_parse(w.get(6)?)?,
                        },
                        "F" => Op::F { pol: pol_parse(w.get(2)?)?, acts: acts_parse(w.get(3)?)? },
                        "R" => Op::R { hdr: num(2)?, pol: pol_parse(w.get(3)?)?, acts: acts_parse(w.get(4)?)? },
                        "C" => Op::C,
                        "T" => Op::T(tail_parse(w.get(2)?)?),
                        "O" => Op::O(num(2)?, num(3)? as usize),
                        "L" => Op::L(num(2)? as usize, num(3)? as usize),
                        _ => return None,
                    };
                    sp.encs.last_mut()?.ops.push(o);
                }
                "end" => {
                    let e = sp.encs.last_mut()?;
                    e.end = match *w.get(1)? {
                        "finish" => EndKind::Finish,
                        "drop" => EndKind::Drop,
                        "crash" => EndKind::Crash,
                        "unwind" => EndKind::Unwind,
                        _ => return None,
                    };
                    e.end_acts = acts_parse(w.get(2)?)?;
                }
                "sched" => sp.sched = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
                _ => return None,
            }
        }
        if sp.encs.is_empty() || !sp.encs.iter().all(|e| e.sane()) {
            return None;
        }
        Some(sp)
    }
}
