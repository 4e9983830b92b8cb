//! Data: a concatenation of segments, each a pure function of its parameters (and of what precedes it).
use crate::rng::Rng;
use crate::spec::Seg;

pub const NKINDS: u8 = 17;
const WORDS: [&str; 24] = [
    "the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog ", "and ", "compress", "ion ", "of ", "data ",
    "window ", "hash ", "chain ", "match ", "\n", ", ", "length ", "distance ", "a", "block ", "stream ",
];
pub fn build(segs: &[Seg]) -> Vec<u8> {
    let mut out = Vec::with_capacity(segs.iter().map(|s| s.len).sum());
    for s in segs {
        one(&mut out, s);
    }
    out
}
fn one(out: &mut Vec<u8>, s: &Seg) {
    let start = out.len();
    let end = start + s.len;
    let mut r = Rng::new(s.seed ^ 0xC0FFEE);
    match s.kind {
        // incompressible
        0 => {
            while out.len() < end {
                out.extend_from_slice(&r.u64().to_le_bytes());
            }
        }
        // constant
        1 => out.resize(end, s.p as u8),
        // periodic
        2 => {
            let p = (s.p as usize).max(1);
            for _ in 0..p.min(s.len) {
                out.push(r.u64() as u8);
            }
            while out.len() < end {
                let b = out[out.len() - p];
                out.push(b);
            }
        }
        // small alphabet
        3 => {
            // (p above 1000: alphabet 0..p-1000)
            let n = (if s.p > 1000 { s.p as usize - 1000 } else { s.p as usize }).clamp(1, 256);
            let base = if s.p > 1000 { 0 } else { r.below(256) };
            while out.len() < end {
                out.push((base + r.below(n)) as u8);
            }
        }
        // words
        4 => {
            while out.len() < end {
                out.extend_from_slice(WORDS[r.below(WORDS.len())].as_bytes());
            }
        }
        // literals mixed with copies at chosen distances and lengths
        5 => {
            const D: [usize; 16] =
                [1, 2, 3, 4, 8191, 8192, 8193, 16384, 32766, 32767, 32768, 32769, 32770, 24577, 257, 65536];
            const L: [usize; 10] = [3, 4, 5, 10, 11, 257, 258, 259, 516, 600];
            let alpha = 1 + (s.p as usize & 255);
            while out.len() < end {
                if r.chance(1, 2) || out.is_empty() {
                    for _ in 0..r.logsize(32) {
                        out.push(r.below(alpha) as u8);
                    }
                } else {
                    let d = if r.chance(1, 2) { r.pick(&D) } else { r.logsize(33000) };
                    let l = if r.chance(1, 2) { r.pick(&L) } else { r.logsize(300) };
                    if d <= out.len() {
                        for _ in 0..l {
                            let b = out[out.len() - d];
                            out.push(b);
                        }
                    }
                }
            }
        }
        // strongly skewed frequencies (long Huffman codes)
        6 => {
            let f = s.p & 1 == 0;
            while out.len() < end {
                // geometric: symbol k with probability about 2^-k (or phi^-k)
                let z = if f { r.u64().trailing_zeros() as usize } else {
                    let mut k = 0;
                    while k < 60 && r.chance(382, 1000) { k += 1 }
                    k
                };
                out.push((z * 37 % 251) as u8);
            }
        }
        // ramps
        7 => {
            let step = (s.p as u8) | 1;
            let mut v = s.seed as u8;
            while out.len() < end {
                out.push(v);
                v = v.wrapping_add(step);
            }
        }
        // exact copy at distance p
        8 => {
            let d = (s.p as usize).max(1);
            while out.len() < end {
                let b = if d <= out.len() { out[out.len() - d] } else { r.u64() as u8 };
                out.push(b);
            }
        }
        // runs with lengths around the longest match
        9 => {
            const L: [usize; 14] = [1, 2, 3, 4, 5, 256, 257, 258, 259, 260, 261, 517, 600, 1033];
            while out.len() < end {
                let b = r.below(1 + (s.p as usize & 255)) as u8;
                let l = if r.chance(2, 3) { r.pick(&L) } else { r.logsize(2000) };
                for _ in 0..l {
                    out.push(b);
                }
            }
        }
        // almost constant: rare changes
        10 => {
            let every = (s.p as usize).max(2);
            while out.len() < end {
                out.push(if r.chance(1, every) { r.u64() as u8 } else { 0 });
            }
        }
        // bytes whose 3-byte hashes collide or repeat often
        11 => {
            let m = [0u8, 32, 64, 96, 128, 160, 192, 224];
            while out.len() < end {
                let v = r.pick(&m);
                out.push(v | (s.p as u8 & 3));
            }
        }
        // random bytes with sparse short copies from nearby: a block covers more input than it has values,
        // and yet does not compress
        13 => {
            let k = 20 + s.p as usize % 64;
            while out.len() < end {
                for _ in 0..r.range(k / 2, k) {
                    out.push(r.u64() as u8);
                }
                let d = r.range(3, 40);
                if d <= out.len() {
                    let l = if s.seed & 1 == 0 { 3 } else { r.range(3, 5) };
                    for _ in 0..l {
                        let b = out[out.len() - d];
                        out.push(b);
                    }
                }
            }
        }
        // events (runs, copies) laid over the window and buffer borders, filler in between
        14 => {
            let f = s.p & 3;
            let fill = |out: &mut Vec<u8>, r: &mut Rng, to: usize| {
                while out.len() < to {
                    match f {
                        0 => out.push(r.u64() as u8),
                        1 => out.push(r.below(4) as u8 + 65),
                        2 => out.extend_from_slice(WORDS[r.below(WORDS.len())].as_bytes()),
                        _ => out.push(0),
                    }
                }
            };
            while out.len() < end {
                // the next border after here
                let at = out.len();
                let w = 32768 * (at / 32768 + 1);
                let border = match r.below(4) {
                    0 | 1 => w,
                    2 => w + 258,
                    _ => w - r.below(2000),
                };
                let before = match r.below(4) {
                    0 => r.below(5),
                    1 => 258 - r.below(4),
                    2 => r.below(600),
                    _ => r.below(260),
                };
                let to = border.saturating_sub(before).max(at + 1).min(end);
                fill(out, &mut r, to);
                let l = match r.below(4) {
                    0 => r.range(3, 8),
                    1 => 258 + before + r.below(5),
                    2 => r.range(3, 1200),
                    _ => before + r.below(20),
                };
                if r.chance(1, 2) {
                    let b = r.below(3) as u8;
                    for _ in 0..l {
                        out.push(b);
                    }
                } else {
                    let d = if r.chance(1, 2) { r.pick(&[1usize, 2, 3, 32766, 32767, 32768, 32769]) } else { r.logsize(33000) };
                    if d <= out.len() {
                        for _ in 0..l {
                            let b = out[out.len() - d];
                            out.push(b);
                        }
                    }
                }
            }
        }
        // incompressible, with one short copy across every window border and one at the very end
        16 => {
            let base = if s.p & 1 == 0 { 0u8 } else { 144 };
            let n = 256 - base as usize;
            let far = s.p & 2 != 0;
            while out.len() < end {
                let at = out.len();
                let w = 32768 * ((at + 3) / 32768 + 1);
                let l = if s.p & 4 == 0 { r.range(3, 6) } else { r.range(3, 40) };
                let to = if end <= w { end.saturating_sub(l.min(5)).max(at) } else { w - r.range(1, l - 1) };
                while out.len() < to {
                    if r.chance(1, 2000) && out.len() > 40 {
                        let d = r.range(3, 30);
                        for _ in 0..3 {
                            let b = out[out.len() - d];
                            out.push(b);
                        }
                    } else {
                        out.push(base + r.below(n) as u8);
                    }
                }
                out.truncate(to);
                let d = if far { r.range(6, 8000) } else { r.pick(&[1usize, 3, 7, 12, 60]) };
                if d > out.len() {
                    out.push(base);
                    continue;
                }
                for _ in 0..l {
                    let b = out[out.len() - d];
                    out.push(b);
                }
            }
        }
        // data for one-window-only behaviour: unlike regions one window apart
        15 => {
            while out.len() < end {
                let l = r.pick(&[32768usize, 16384, 31744, 8000, 3000]);
                let m = r.below(4);
                let b = r.u64() as u8;
                let st = out.len();
                for i in 0..l {
                    out.push(match m {
                        0 => r.u64() as u8,
                        1 => b,
                        2 => b"0123456789abcdef"[r.below(16)],
                        _ => if i >= 1000 { out[st + i % 1000] } else { r.below(40) as u8 },
                    });
                }
            }
        }
        // every byte value equally often, in random order (stored/fixed/dynamic borderline)
        _ => {
            while out.len() < end {
                let k = 1 + s.p as usize % 64;
                let b = r.below(256) as u8;
                if r.chance(1, k + 1) && out.len() > 300 {
                    let d = r.range(3, 258.min(out.len()));
                    for _ in 0..r.range(3, 8) {
                        let x = out[out.len() - d];
                        out.push(x);
                    }
                } else {
                    out.push(b);
                }
            }
        }
    }
    out.truncate(end);
}

/// gzip header builder from a seed (0: blank).
pub fn gz(seed: u64) -> gzip_header::GzBuilder {
    let mut b = gzip_header::GzBuilder::new();
    if seed == 0 {
        return b;
    }
    let mut r = Rng::new(seed);
    let bytes = |r: &mut Rng, big: bool, zero: bool| -> Vec<u8> {
        let n = match r.below(6) {
            0 => 0,
            1 if big => r.pick(&[65535usize, 40000, 32768, 32769, 32000]),
            _ => r.logsize(300),
        };
        (0..n).map(|_| if zero { r.u64() as u8 } else { r.range(1, 255) as u8 }).collect()
    };
    let big = r.chance(1, 8);
    if r.chance(1, 2) {
        b = b.mtime(r.u64() as u32);
    }
    if r.chance(1, 2) {
        let v = bytes(&mut r, big, true);
        b = b.extra(v);
    }
    if r.chance(1, 2) {
        let v = bytes(&mut r, false, false);
        b = b.filename(v);
    }
    if r.chance(1, 2) {
        let v = bytes(&mut r, big, false);
        b = b.comment(v);
    }
    if r.chance(1, 2) {
        b = b.os(gzip_header::FileSystemType::from_u8(r.below(24) as u8));
    }
    if r.chance(1, 2) {
        b = b.xfl(gzip_header::ExtraFlags::from_u8(r.pick(&[0u8, 2, 4])));
    }
    b
}
