//! A strict, incremental RFC 1951 decoder, written independently of the library under test and of
//! miniz_oxide. It decodes as far as the bytes delivered so far allow, and rejects what zlib's inflate
//! rejects (over-subscribed or incomplete code sets, missing end-of-block code, bad stored lengths,
//! distances before the start of the stream or above 32768, reserved block types and symbols).

const LBASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
];
const LEXT: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [u32; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
    8193, 12289, 16385, 24577,
];
const DEXT: [u8; 30] =
    [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

const PB: u32 = 9;

struct Huff {
    /// primary table: (symbol << 4 | len), 0 = not here
    fast: Vec<u16>,
    count: [u16; 16],
    symbol: Vec<u16>,
}

impl Huff {
    fn new(lens: &[u8], what: &str, codes: bool) -> Result<Huff, String> {
        let mut count = [0u16; 16];
        for &l in lens {
            count[l as usize] += 1;
        }
        count[0] = 0;
        let mut left: i32 = 1;
        for l in 1..16 {
            left <<= 1;
            left -= count[l] as i32;
            if left < 0 {
                return Err(format!("over-subscribed {} code set", what));
            }
        }
        let max = (1..16).rev().find(|&l| count[l] != 0).unwrap_or(0);
        if left > 0 && max > 0 && (codes || max != 1) {
            return Err(format!("incomplete {} code set", what));
        }
        if max == 0 && codes {
            return Err(format!("empty {} code set", what));
        }
        let mut offs = [0u16; 16];
        for l in 1..15 {
            offs[l + 1] = offs[l] + count[l];
        }
        let mut symbol = vec![0u16; lens.len()];
        let mut next = [0u32; 16];
        let mut code = 0u32;
        for l in 1..16 {
            code = (code + if l > 1 { count[l - 1] as u32 } else { 0 }) << 1;
            next[l] = code;
        }
        let mut fast = vec![0u16; 1 << PB];
        for (s, &l) in lens.iter().enumerate() {
            if l == 0 {
                continue;
            }
            let l = l as usize;
            symbol[offs[l] as usize] = s as u16;
            offs[l] += 1;
            let c = next[l];
            next[l] += 1;
            if l as u32 <= PB {
                let rev = c.reverse_bits() >> (32 - l as u32);
                let mut i = rev;
                while i < 1 << PB {
                    fast[i as usize] = (s as u16) << 4 | l as u16;
                    i += 1 << l;
                }
            }
        }
        Ok(Huff { fast, count, symbol })
    }
}

enum St {
    Header,
    Stored(usize),
    Huff(Box<(Huff, Huff)>),
    Done,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub stored: u64,
    pub fixed: u64,
    pub dynamic: u64,
    pub matches: u64,
    pub matches_dist_not1: u64,
    pub max_dist: usize,
    pub max_len: usize,
    pub empty_stored: u64,
    pub codes15: u64,
}

/// The most that was seen above (or least below) each limit of the audit, for calibration.
pub static WORST: [std::sync::atomic::AtomicI64; 4] = [const { std::sync::atomic::AtomicI64::new(-1 << 40) }; 4];

/// How compactly the blocks are coded (only when asked for).
pub struct Audit {
    lit: [u32; 286],
    dist: [u32; 30],
    symbols: u64,
    extra: u64,
    start: u64,
    bytes: usize,
    fixed: bool,
    /// a group of stored blocks in a row: how often each byte occurs, the blocks, their bytes
    bytes_of: [u32; 256],
    pieces: u64,
    stored: u64,
    /// Huffman blocks of fewer than 16384 symbols
    small: u64,
    pub bad: Option<String>,
}
impl Audit {
    pub fn new() -> Audit {
        Audit {
            lit: [0; 286],
            dist: [0; 30],
            symbols: 0,
            extra: 0,
            start: 0,
            bytes: 0,
            fixed: false,
            bytes_of: [0; 256],
            pieces: 0,
            stored: 0,
            small: 0,
            bad: None,
        }
    }
    fn begin(&mut self, start: u64, bytes: usize, fixed: bool) {
        self.group();
        self.lit = [0; 286];
        self.dist = [0; 30];
        self.symbols = 0;
        self.extra = 0;
        self.start = start;
        self.bytes = bytes;
        self.fixed = fixed;
    }
    fn add(&mut self, data: &[u8]) {
        for &b in data {
            self.bytes_of[b as usize] += 1;
        }
        self.stored += data.len() as u64;
    }
    fn over(&mut self, i: usize, have: u64, max: u64, what: &str) {
        WORST[i].fetch_max(have as i64 - max as i64, std::sync::atomic::Ordering::Relaxed);
        if have > max && self.bad.is_none() {
            self.bad = Some(format!("a {} takes {} bits, more than {}", what, have, max));
        }
    }
    /// The end of a block with Huffman codes.
    fn end(&mut self, end: u64, bytes: usize, markers: u64, cut: bool) {
        let have = end - self.start;
        let n = (bytes - self.bytes) as u64;
        let mut fixed = 3 + self.extra;
        for (s, &f) in self.lit.iter().enumerate() {
            fixed += f as u64 * if s < 144 { 8 } else if s < 256 { 9 } else if s < 280 { 7 } else { 8 };
        }
        fixed += 5 * self.dist.iter().map(|&f| f as u64).sum::<u64>();
        let best = 3 + self.extra + optimal(&self.lit) + optimal(&self.dist);
        self.over(0, have, fixed, if self.fixed { "block with fixed codes (of its symbols)" } else { "block, whose symbols could have fixed codes," });
        self.over(1, have, 8 * n + 42 * (n / 32767 + 1), "block, whose data could be stored,");
        self.over(2, have, best + best / 32 + 1500, "block, whose symbols could have better codes,");
        self.small += (self.symbols < 16384) as u64;
        if cut && self.small > 2 * markers + 3 && self.bad.is_none() {
            self.bad = Some(format!("{} blocks have fewer than 16384 symbols although there are only {} flushes", self.small, markers));
        }
    }
    /// The end of a group of stored blocks.
    fn group(&mut self) {
        if self.pieces > 0 {
            let best = optimal(&self.bytes_of);
            self.over(3, 8 * self.stored, best + best / 16 + 1500 * self.pieces, "sequence of stored blocks, whose bytes could have codes,");
            self.bytes_of = [0; 256];
            self.pieces = 0;
            self.stored = 0;
        }
    }
}
/// Bits taken by symbols of these frequencies with the best prefix code.
fn optimal(freqs: &[u32]) -> u64 {
    let mut f: Vec<u64> = freqs.iter().filter(|&&f| f > 0).map(|&f| f as u64).collect();
    if f.len() < 2 {
        return f.iter().sum();
    }
    f.sort_unstable();
    let mut inner = std::collections::VecDeque::new();
    let (mut i, mut sum) = (0, 0);
    while f.len() - i + inner.len() > 1 {
        let mut next = || {
            if inner.is_empty() || i < f.len() && f[i] <= inner[0] {
                i += 1;
                f[i - 1]
            } else {
                inner.pop_front().unwrap()
            }
        };
        let n = next() + next();
        sum += n;
        inner.push_back(n);
    }
    sum
}

pub struct Inflate {
    pub audit: Option<Box<Audit>>,
    /// whether block borders are the library's own (no hook makes blocks smaller)
    pub own_blocks: bool,
    /// input bits forgotten
    gone: u64,
    input: Vec<u8>,
    pos: usize, // bit position
    /// decoded data from byte `base` on
    pub out: Vec<u8>,
    base: usize,
    st: St,
    last: bool,
    pub stats: Stats,
    pub last_block_empty_stored: bool,
    fixed: Option<Box<(Huff, Huff)>>,
    /// output ranges produced by back-references (only when asked for)
    track: Option<Vec<(usize, usize)>>,
}

enum Need {
    More,
    Bad(String),
}
type R<T> = Result<T, Need>;

impl Inflate {
    pub fn new() -> Inflate {
        Inflate {
            audit: None,
            own_blocks: true,
            gone: 0,
            input: Vec::new(),
            pos: 0,
            out: Vec::new(),
            base: 0,
            st: St::Header,
            last: false,
            stats: Stats::default(),
            last_block_empty_stored: false,
            fixed: None,
            track: None,
        }
    }
    pub fn done(&self) -> bool {
        matches!(self.st, St::Done)
    }
    /// At a block boundary, byte aligned, with every delivered byte used.
    pub fn at_sync_point(&self) -> bool {
        matches!(self.st, St::Header) && self.pos == self.input.len() * 8
    }
    /// Bytes delivered after the end of the final block.
    pub fn rest(&self) -> &[u8] {
        if self.done() {
            &self.input[(self.pos + 7) / 8..]
        } else {
            &[]
        }
    }
    /// Feed bytes and decode as far as possible.
    pub fn push(&mut self, d: &[u8]) -> Result<(), String> {
        self.input.extend_from_slice(d);
        self.run()
    }
    /// Bytes decoded so far.
    pub fn total(&self) -> usize {
        self.base + self.out.len()
    }
    pub fn base(&self) -> usize {
        self.base
    }
    /// Forget decoded data that no distance reaches any more.
    pub fn trim(&mut self) {
        let n = self.out.len().saturating_sub(65536);
        self.out.drain(..n);
        self.base += n;
        let k = self.pos / 8;
        self.input.drain(..k);
        self.gone += 8 * k as u64;
        self.pos -= 8 * k;
    }
    /// Forget all data of a finished stream.
    pub fn compact(&mut self) {
        self.base += self.out.len();
        self.out = Vec::new();
        self.pos = 0;
        self.input = Vec::new();
        self.fixed = None;
    }
    /// Whether output byte `at` came out of a back-reference (decodes everything again to find out).
    pub fn from_reference(&self, at: usize) -> bool {
        if self.base > 0 {
            return false;
        }
        let mut i = Inflate::new();
        i.track = Some(vec![]);
        let _ = i.push(&self.input);
        i.track.unwrap().iter().any(|&(a, b)| a <= at && at < b)
    }
    pub fn input_len(&self) -> usize {
        self.input.len()
    }

    #[inline]
    fn peek(&self, pos: usize) -> (u64, usize) {
        let b = pos >> 3;
        let sh = pos & 7;
        if b + 8 <= self.input.len() {
            let mut a = [0u8; 8];
            a.copy_from_slice(&self.input[b..b + 8]);
            (u64::from_le_bytes(a) >> sh, 64 - sh)
        } else {
            let mut v = 0u64;
            let n = self.input.len().saturating_sub(b);
            for i in 0..n {
                v |= (self.input[b + i] as u64) << (8 * i);
            }
            (v >> sh, (n * 8).saturating_sub(sh))
        }
    }
    #[inline]
    fn bits(&self, p: &mut usize, n: u32) -> R<u32> {
        if n == 0 {
            return Ok(0);
        }
        let (v, have) = self.peek(*p);
        if have < n as usize {
            return Err(Need::More);
        }
        *p += n as usize;
        Ok((v & ((1u64 << n) - 1)) as u32)
    }
    #[inline]
    fn sym(&self, p: &mut usize, h: &Huff, what: &str) -> R<u16> {
        let (v, have) = self.peek(*p);
        let f = h.fast[(v & ((1 << PB) - 1)) as usize];
        if f != 0 {
            let l = (f & 15) as usize;
            if l > have {
                return Err(Need::More);
            }
            *p += l;
            return Ok(f >> 4);
        }
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16usize {
            if l > have {
                return Err(Need::More);
            }
            code |= (v >> (l - 1) & 1) as i32;
            let c = h.count[l] as i32;
            if code - c < first {
                *p += l;
                return Ok(h.symbol[(index + code - first) as usize]);
            }
            index += c;
            first += c;
            first <<= 1;
            code <<= 1;
        }
        Err(Need::Bad(format!("invalid {} code", what)))
    }

    fn dyn_header(&self, p: &mut usize) -> R<(Huff, Huff)> {
        let nlen = self.bits(p, 5)? as usize + 257;
        let ndist = self.bits(p, 5)? as usize + 1;
        let ncode = self.bits(p, 4)? as usize + 4;
        if nlen > 286 || ndist > 30 {
            return Err(Need::Bad("too many length or distance symbols".into()));
        }
        let mut cl = [0u8; 19];
        for &o in ORDER.iter().take(ncode) {
            cl[o] = self.bits(p, 3)? as u8;
        }
        let h = Huff::new(&cl, "code length", true).map_err(Need::Bad)?;
        let mut lens = [0u8; 320];
        let mut i = 0;
        while i < nlen + ndist {
            let s = self.sym(p, &h, "code length")?;
            if s < 16 {
                lens[i] = s as u8;
                i += 1;
            } else {
                let (v, n) = match s {
                    16 => {
                        if i == 0 {
                            return Err(Need::Bad("repeat with no first length".into()));
                        }
                        (lens[i - 1], 3 + self.bits(p, 2)? as usize)
                    }
                    17 => (0, 3 + self.bits(p, 3)? as usize),
                    _ => (0, 11 + self.bits(p, 7)? as usize),
                };
                if i + n > nlen + ndist {
                    return Err(Need::Bad("too many code lengths".into()));
                }
                for _ in 0..n {
                    lens[i] = v;
                    i += 1;
                }
            }
        }
        if lens[256] == 0 {
            return Err(Need::Bad("missing end-of-block code".into()));
        }
        let l = Huff::new(&lens[..nlen], "literal/length", false).map_err(Need::Bad)?;
        let d = Huff::new(&lens[nlen..nlen + ndist], "distance", false).map_err(Need::Bad)?;
        Ok((l, d))
    }

    fn run(&mut self) -> Result<(), String> {
        loop {
            match self.step() {
                Ok(true) => {}
                Ok(false) => return Ok(()),
                Err(Need::More) => return Ok(()),
                Err(Need::Bad(s)) => {
                    return Err(format!("{} (byte {} of the deflate data, {} bytes decoded)", s, self.pos / 8, self.total()))
                }
            }
        }
    }

    /// One block header or the rest of a block. Ok(false): finished.
    fn step(&mut self) -> R<bool> {
        match std::mem::replace(&mut self.st, St::Header) {
            St::Done => {
                self.st = St::Done;
                Ok(false)
            }
            St::Header => {
                if self.last {
                    if let Some(a) = &mut self.audit {
                        a.group();
                    }
                    self.st = St::Done;
                    return Ok(false);
                }
                let mut p = self.pos;
                let start = self.gone + self.pos as u64;
                let bytes = self.total();
                let last = self.bits(&mut p, 1)? == 1;
                match self.bits(&mut p, 2)? {
                    0 => {
                        p = (p + 7) & !7;
                        let len = self.bits(&mut p, 16)?;
                        let nlen = self.bits(&mut p, 16)?;
                        if len != !nlen & 0xFFFF {
                            return Err(Need::Bad("stored block length does not match its complement".into()));
                        }
                        self.stats.stored += 1;
                        self.last_block_empty_stored = len == 0;
                        if len == 0 {
                            self.stats.empty_stored += 1;
                        }
                        if let Some(a) = &mut self.audit {
                            if len == 0 {
                                a.group();
                            } else {
                                a.pieces += 1;
                            }
                        }
                        self.st = St::Stored(len as usize);
                    }
                    1 => {
                        self.stats.fixed += 1;
                        self.last_block_empty_stored = false;
                        if let Some(a) = &mut self.audit {
                            a.begin(start, bytes, true);
                        }
                        let h = match self.fixed.take() {
                            Some(h) => h,
                            None => {
                                let mut l = [8u8; 288];
                                l[144..256].fill(9);
                                l[256..280].fill(7);
                                Box::new((
                                    Huff::new(&l, "fixed", false).map_err(Need::Bad)?,
                                    Huff::new(&[5u8; 32], "fixed", false).map_err(Need::Bad)?,
                                ))
                            }
                        };
                        self.st = St::Huff(h);
                    }
                    2 => {
                        let h = self.dyn_header(&mut p)?;
                        self.stats.dynamic += 1;
                        if h.0.count[15] > 0 || h.1.count[15] > 0 {
                            self.stats.codes15 += 1;
                        }
                        self.last_block_empty_stored = false;
                        if let Some(a) = &mut self.audit {
                            a.begin(start, bytes, false);
                        }
                        self.st = St::Huff(Box::new(h));
                    }
                    _ => return Err(Need::Bad("reserved block type".into())),
                }
                self.last = last;
                self.pos = p;
                Ok(true)
            }
            St::Stored(n) => {
                let b = self.pos / 8;
                let k = n.min(self.input.len() - b);
                self.out.extend_from_slice(&self.input[b..b + k]);
                if let Some(a) = &mut self.audit {
                    a.add(&self.input[b..b + k]);
                }
                self.pos += k * 8;
                if k == n {
                    self.st = St::Header;
                    Ok(true)
                } else {
                    self.st = St::Stored(n - k);
                    Err(Need::More)
                }
            }
            St::Huff(h) => {
                let r = self.symbols(&h);
                match r {
                    Ok(()) => {
                        self.st = St::Header;
                        self.fixed_back(h);
                        let (end, bytes) = (self.gone + self.pos as u64, self.total());
                        if let Some(a) = &mut self.audit {
                            a.end(end, bytes, self.stats.empty_stored, self.own_blocks);
                        }
                        Ok(true)
                    }
                    Err(e) => {
                        self.st = St::Huff(h);
                        Err(e)
                    }
                }
            }
        }
    }

    fn fixed_back(&mut self, h: Box<(Huff, Huff)>) {
        // keep the fixed tables for the next fixed block (288 symbols with 32 distance codes: only fixed has that)
        if h.0.symbol.len() == 288 {
            self.fixed = Some(h);
        }
    }

    fn symbols(&mut self, h: &(Huff, Huff)) -> R<()> {
        loop {
            let mut p = self.pos;
            let s = self.sym(&mut p, &h.0, "literal/length")?;
            if s < 256 {
                self.out.push(s as u8);
                self.pos = p;
                if let Some(a) = &mut self.audit {
                    a.lit[s as usize] += 1;
                    a.symbols += 1;
                }
            } else if s == 256 {
                self.pos = p;
                if let Some(a) = &mut self.audit {
                    a.lit[256] += 1;
                }
                return Ok(());
            } else {
                let i = s as usize - 257;
                if i >= 29 {
                    return Err(Need::Bad("invalid length symbol".into()));
                }
                let len = LBASE[i] as usize + self.bits(&mut p, LEXT[i] as u32)? as usize;
                if i == 27 && len == 258 {
                    // 284 with all extra bits set: zlib accepts it, and so do we, but it is not canonical
                }
                let d = self.sym(&mut p, &h.1, "distance")? as usize;
                if d >= 30 {
                    return Err(Need::Bad("invalid distance symbol".into()));
                }
                let dist = DBASE[d] as usize + self.bits(&mut p, DEXT[d] as u32)? as usize;
                if dist > self.total() {
                    return Err(Need::Bad(format!("distance {} too far back (only {} bytes so far)", dist, self.total())));
                }
                if dist > 32768 {
                    return Err(Need::Bad(format!("distance {} above the window size", dist)));
                }
                self.stats.matches += 1;
                if let Some(a) = &mut self.audit {
                    a.lit[s as usize] += 1;
                    a.dist[d] += 1;
                    a.symbols += 1;
                    a.extra += (LEXT[i] + DEXT[d]) as u64;
                }
                if dist != 1 {
                    self.stats.matches_dist_not1 += 1;
                }
                self.stats.max_dist = self.stats.max_dist.max(dist);
                self.stats.max_len = self.stats.max_len.max(len);
                let from = self.out.len() - dist;
                if let Some(t) = &mut self.track {
                    t.push((self.out.len(), self.out.len() + len));
                }
                if dist >= len {
                    self.out.extend_from_within(from..from + len);
                } else {
                    for k in 0..len {
                        let b = self.out[from + k];
                        self.out.push(b);
                    }
                }
                self.pos = p;
            }
        }
    }
}
