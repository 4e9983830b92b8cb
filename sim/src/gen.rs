//! Seeded generation of run specs. The only place that draws random numbers.
use crate::content::NKINDS;
use crate::exec::PRESETS;
use crate::rng::{mix, Rng};
use crate::spec::*;

/// Swarm parameters of a run.
struct Prof {
    fault: usize,  // percent of operations with writer acts
    flush: usize,  // percent of operations that are flushes
    reset: usize,  // percent resets
    panic: usize,  // percent of runs that may contain writer panics
    bad_tail: usize, // percent of runs with phases of persistent failure
    sizes: [usize; 6],
    multi: usize, // percent of runs with several encoders
    knobs: usize,
    ends: [usize; 4],
    kinds: [usize; 3],
}

fn weighted(r: &mut Rng, w: &[usize]) -> usize {
    let t: usize = w.iter().sum();
    let mut x = r.below(t.max(1));
    for (i, v) in w.iter().enumerate() {
        if x < *v {
            return i;
        }
        x -= v;
    }
    0
}

fn prof(prop: &str, r: &mut Rng) -> Prof {
    let mut p = Prof {
        fault: r.pick(&[0, 5, 20, 40, 70]),
        flush: r.pick(&[0, 0, 5, 20, 40]),
        reset: r.pick(&[0, 0, 5, 15]),
        panic: 3,
        bad_tail: 10,
        sizes: [22, 26, 26, 18, 7, 0],
        multi: 6,
        knobs: 45,
        ends: [60, 22, 10, 8],
        kinds: [30, 35, 35],
    };
    match prop {
        "C01" => {
            p.sizes = [12, 20, 30, 25, 12, 1];
            p.ends = [80, 12, 5, 3];
        }
        "C02" => {
            p.fault = r.pick(&[10, 30, 50, 80]);
            p.sizes = [12, 18, 30, 28, 12, 0];
            p.knobs = 60;
        }
        "C03" => {
            p.fault = r.pick(&[20, 40, 60, 90]);
            p.sizes = [18, 24, 28, 22, 8, 0];
            p.bad_tail = 5;
            p.panic = 0;
        }
        "C04" => {
            p.flush = 0;
            p.fault = r.pick(&[0, 0, 20, 50]);
            p.sizes = [10, 15, 23, 27, 24, 1];
            p.ends = [85, 10, 3, 2];
            p.panic = 0;
            p.multi = 2;
        }
        "C05" => {
            p.flush = r.pick(&[20, 35, 60]);
            p.ends = [40, 15, 40, 5];
        }
        "C06" => {
            p.fault = r.pick(&[20, 40, 70]);
            p.bad_tail = 15;
            p.ends = [35, 30, 25, 10];
        }
        "C07" => {
            p.fault = r.pick(&[20, 40, 70]);
            p.reset = r.pick(&[0, 10, 25]);
            p.ends = [85, 10, 3, 2];
            p.sizes = [30, 30, 22, 13, 5, 0];
        }
        "C08" => {
            p.fault = r.pick(&[30, 50, 80]);
            p.bad_tail = 35;
            p.sizes = [22, 24, 26, 20, 8, 0];
        }
        "C09" => {
            p.fault = r.pick(&[0, 30, 60]);
            p.bad_tail = 40;
            p.panic = 0;
            p.sizes = [22, 24, 26, 20, 8, 0];
        }
        "C10" => {
            p.ends = [15, 60, 0, 25];
            p.panic = 15;
            p.bad_tail = 20;
            p.fault = r.pick(&[10, 30, 60]);
            p.sizes = [28, 28, 24, 15, 5, 0];
        }
        "C11" => {
            p.reset = r.pick(&[15, 30, 50]);
            p.sizes = [15, 22, 28, 25, 10, 0];
            p.ends = [85, 8, 5, 2];
            p.panic = 0;
        }
        "C12" => {
            p.kinds = [0, 50, 50];
            p.fault = r.pick(&[0, 20, 50, 80]);
            p.reset = r.pick(&[0, 10, 25]);
        }
        "C13" => {
            p.panic = 15;
            p.sizes = [18, 22, 28, 22, 10, 0];
        }
        "C14" => {
            p.sizes = [5, 10, 20, 30, 30, 5];
            p.bad_tail = 35;
            p.panic = 0;
            p.multi = 2;
        }
        "C15" => {
            p.multi = 85;
            p.sizes = [20, 30, 30, 17, 3, 0];
        }
        "C16" => {
            p.kinds = [0, 45, 55];
            p.sizes = [38, 30, 20, 10, 2, 0];
            p.reset = r.pick(&[0, 15, 40]);
            p.fault = r.pick(&[0, 20, 60]);
            p.ends = [60, 30, 5, 5];
        }
        "C17" => {
            p.fault = r.pick(&[0, 0, 20]);
            p.sizes = [16, 22, 28, 24, 10, 0];
            p.knobs = 0;
            p.ends = [90, 10, 0, 0];
            p.panic = 0;
            p.bad_tail = 0;
        }
        "C21" => {
            p.fault = r.pick(&[0, 0, 20, 40]);
            p.sizes = [10, 15, 28, 30, 17, 0];
            p.reset = r.pick(&[0, 0, 15]);
            p.ends = [90, 10, 0, 0];
            p.panic = 0;
            p.bad_tail = 0;
        }
        "C20" => {
            p.knobs = 0;
            p.panic = 0;
            p.sizes = [5, 5, 20, 30, 35, 5];
            p.ends = [90, 10, 0, 0];
        }
        "C18" => {
            p.reset = r.pick(&[0, 10, 30]);
            p.sizes = [14, 22, 30, 24, 10, 0];
        }
        _ => {}
    }
    p
}

const BOUND: [usize; 16] =
    [32900, 33800, 258, 31744, 32506, 32510, 32767, 32768, 65278, 65535, 65536, 65794, 98304, 98562, 131072, 131330];

fn total(r: &mut Rng, w: &[usize; 6]) -> usize {
    match weighted(r, w) {
        0 => r.below(65),
        1 => r.logsize(2048),
        2 => r.logsize(40_000),
        3 => {
            let b = r.pick(&BOUND);
            (b + r.below(9)).saturating_sub(4) + if r.chance(1, 3) { r.logsize(30_000) } else { 0 }
        }
        4 => {
            if r.chance(2, 3) {
                r.range(66_000, 140_000)
            } else {
                r.range(66_000, 420_000)
            }
        }
        _ => r.range(1 << 20, 5 << 20),
    }
}

/// A length that ends a write at (or next to) one of the borders the encoder works with.
fn border(r: &mut Rng, pos: usize, left: usize) -> usize {
    let near = r.below(7) as isize - 3;
    let to = match r.below(6) {
        // input buffer: two windows and the lookahead, then one window at a time
        0 | 1 | 2 => {
            let mut b = 65794;
            while b + 4 < pos {
                b += 32768;
            }
            b + if r.chance(1, 4) { 32768 } else { 0 }
        }
        // window ends
        3 => 32768 * (pos / 32768 + 1 + r.below(2)),
        // most values of a block
        4 => 31744 * (pos / 31744 + 1),
        _ => pos + r.pick(&[3usize, 258, 259, 260, 261, 516, 32767]),
    } as isize
        + near;
    if to <= pos as isize { left } else { (to as usize - pos).min(left) }
}

fn segs(r: &mut Rng, t: usize, prop: &str) -> Vec<Seg> {
    let n = match r.below(6) {
        _ if prop == "C20" => 1,
        0..=2 => 1,
        3 | 4 => r.range(2, 3),
        _ => r.range(3, 8),
    };
    let pure = prop == "C14" && r.chance(1, 3);
    let mut v = vec![];
    let mut left = t;
    for i in 0..n {
        let len = if i + 1 == n {
            left
        } else {
            match r.below(3) {
                0 => r.below(left + 1),
                1 => r.logsize(left.max(1)).min(left),
                _ => (r.pick(&[31744usize, 32768, 30000, 32767, 258, 1000]) + r.below(5)).min(left),
            }
        };
        left -= len;
        let kind = if pure {
            0
        } else if prop == "C20" {
            r.pick(&[1u8, 2, 2])
        } else if prop == "C17" && r.chance(1, 2) {
            r.pick(&[0u8, 0, 12, 12, 3, 13, 13, 15])
        } else {
            let k = r.below(NKINDS as usize + if prop == "C04" { 5 } else { 2 }) as u8;
            if k >= NKINDS { 14 } else { k }
        };
        let p = match kind {
            1 => if r.chance(1, 3) { r.pick(&[0u64, 255]) } else { r.below(256) as u64 },
            2 => {
                if r.chance(1, 2) {
                    r.pick(&[1usize, 2, 3, 4, 258, 259, 32766, 32767, 32768, 32769, 8192]) as u64
                } else {
                    r.logsize(40000) as u64
                }
            }
            3 => {
                if r.chance(1, 4) { r.range(180, 256) as u64 } else { r.range(1, 64) as u64 }
            }
            8 => {
                if r.chance(2, 3) {
                    r.pick(&[1usize, 3, 258, 32768, 32767, 32769, 65536, 16384, 24576]) as u64
                } else {
                    r.logsize(40000) as u64
                }
            }
            10 => r.pick(&[2u64, 5, 50, 300, 1000, 5000]),
            _ => r.below(256) as u64,
        };
        v.push(Seg { kind, seed: r.u64() >> 16, p, len });
    }
    v
}

fn err_kind(r: &mut Rng) -> EK {
    if r.chance(1, 2) { r.pick(&EKS[..7]).0 } else { r.pick(&EKS).0 }
}
fn act_err(r: &mut Rng) -> Act {
    if r.chance(1, 3) {
        Act::Err(EK::Interrupted)
    } else {
        Act::Err(err_kind(r))
    }
}
fn short(r: &mut Rng) -> Act {
    Act::Short(match r.below(4) {
        0 => 1,
        1 => r.range(1, 16),
        2 => r.logsize(3000),
        _ => r.logsize(70_000),
    })
}
fn acts(r: &mut Rng, panics: bool) -> Vec<Act> {
    let mut v = vec![];
    if panics && r.chance(1, 4) {
        for _ in 0..r.below(3) {
            v.push(short(r));
        }
        v.push(Act::Panic);
        return v;
    }
    if r.chance(1, 14) {
        // far into the operation
        for _ in 0..r.range(5, 60) {
            v.push(if r.chance(1, 3) { Act::All } else { short(r) });
        }
        v.push(if r.chance(1, 6) { Act::Zero } else { act_err(r) });
        return v;
    }
    if r.chance(1, 25) {
        // a storm of interruptions, or of one error
        let e = if r.chance(2, 3) { Act::Err(EK::Interrupted) } else { act_err(r) };
        for _ in 0..r.range(3, 50) {
            v.push(e);
        }
        if r.chance(1, 2) {
            v.push(short(r));
            v.push(act_err(r));
        }
        return v;
    }
    match r.below(5) {
        // one fault at the k-th delivery
        0 => {
            for _ in 0..r.below(4) {
                v.push(if r.chance(1, 2) { Act::All } else { short(r) });
            }
            v.push(act_err(r));
        }
        // partial deliveries
        1 => {
            for _ in 0..r.range(1, 6) {
                v.push(short(r));
            }
        }
        // partial, then fault, possibly several times
        2 => {
            for _ in 0..r.range(1, 4) {
                v.push(short(r));
                v.push(act_err(r));
            }
        }
        3 => {
            for _ in 0..r.below(3) {
                v.push(short(r));
            }
            v.push(Act::Zero);
        }
        _ => {
            for _ in 0..r.range(1, 10) {
                v.push(match r.below(8) {
                    0 | 1 => Act::All,
                    2 | 3 | 4 => short(r),
                    5 | 6 => act_err(r),
                    _ => Act::Zero,
                });
            }
        }
    }
    v
}
fn tail_ok(r: &mut Rng, t: usize) -> Tail {
    if r.chance(2, 3) {
        Tail::Accept
    } else {
        let k = match r.below(3) {
            0 => r.range(1, 8),
            1 => r.logsize(1000),
            _ => r.logsize(40_000),
        };
        Tail::Chunk(k.max(t / 1500).max(1))
    }
}
fn tail_bad(r: &mut Rng) -> Tail {
    if r.chance(1, 2) {
        Tail::Zero
    } else {
        loop {
            let k = err_kind(r);
            if k != EK::Interrupted {
                return Tail::Err(k);
            }
        }
    }
}

fn enc(prop: &str, r: &mut Rng, p: &Prof, hooked: bool, small: bool) -> EncSpec {
    let kind = [Kind::Deflate, Kind::Zlib, Kind::Gzip][weighted(r, &p.kinds)];
    let mut opts = match r.below(12) {
        0..=2 => (128, 32, true),
        3 => (1, 0, false),
        4 => (1768, 128, true),
        5 => (0, r.pick(&[0u16, 0, 32]), false),
        6 | 7 => (0, r.pick(&[0u16, 0, 32]), true),
        _ => {
            const C: [u16; 14] = [0, 1, 2, 3, 4, 8, 20, 64, 128, 500, 1768, 4096, 32768, 65535];
            const L: [u16; 13] = [0, 1, 2, 3, 4, 8, 32, 128, 257, 258, 259, 32768, 65535];
            (r.pick(&C), r.pick(&L), r.chance(3, 5))
        }
    };
    if prop == "C18" && r.chance(3, 5) {
        opts = if r.chance(1, 2) { (0, 0, true) } else { (0, 0, false) };
        if r.chance(1, 4) {
            opts.1 = r.pick(&[0u16, 1, 8, 258]);
        }
    }
    let mut preset = if r.chance(1, 4) { r.range(1, PRESETS as usize - 1) as u8 } else { 0 };
    if prop == "C18" && r.chance(1, 4) {
        preset = r.pick(&[3u8, 4]);
    }
    if preset > 0 {
        // what generation and the shrinker look at
        opts = [(1768, 128, true), (1, 0, false), (0, 0, false), (0, 0, true), (128, 32, true), (1, 0, false), (128, 32, true), (1768, 128, true), (128, 32, true)]
            [preset as usize - 1];
    }
    let mut w = p.sizes;
    if small {
        w[4] = 0;
        w[5] = 0;
        w[3] /= 2;
    }
    let mut t = total(r, &w);
    if opts.0 > 2000 {
        t = t.min(40_000);
    }
    if opts.0 >= 1000 && t > 200_000 {
        t = 200_000;
    }
    let sg = segs(r, t, prop);
    let knobs = if hooked && r.chance(p.knobs, 100) {
        let b = r.pick(&[0usize, 0, 4, 16, 100, 700, 5000]);
        let o = r.pick(&[0usize, 1, 16, 100, 700, 5000]);
        (if t > 140_000 && b > 0 { b.max(100) } else { b }, o)
    } else {
        (0, 0)
    };
    // Corner runs aim at ends of blocks, windows and data falling together.
    let corner = !small && prop != "C14" && r.chance(if matches!(prop, "C01" | "C02" | "C04" | "C05" | "C13") { 14 } else { 7 }, 100);
    let (mut sg, mut knobs, mut t) = (sg, knobs, t);
    if corner {
        t = 32768 * r.pick(&[1usize, 2, 2, 2, 3, 3, 4]) + match r.below(3) {
            0 => r.below(5),
            1 => r.range(255, 262),
            _ => r.logsize(3000),
        };
        if r.chance(1, 3) {
            // two or three pieces, each ending in a copy
            let a = r.below(t);
            sg = vec![
                Seg { kind: 16, seed: r.u64() >> 16, p: r.below(8) as u64, len: a },
                Seg { kind: 16, seed: r.u64() >> 16, p: r.below(8) as u64, len: t - a },
            ];
        } else {
            let k = r.pick(&[16u8, 16, 16, 14]);
            sg = vec![Seg { kind: k, seed: r.u64() >> 16, p: r.below(8) as u64, len: t }];
        }
        if hooked && p.knobs > 0 {
            knobs.0 = r.pick(&[12usize, 24, 48, 64, 64, 100, 100, 150]);
        }
        if opts.0 > 500 || opts.0 == 0 && r.chance(1, 2) {
            opts = (128, 32, r.chance(1, 2));
            preset = 0;
        }
    }
    if prop == "C11" && r.chance(1, 3) {
        opts.0 = r.pick(&[1u16, 1, 2, 2, 3, 4, 8]);
        preset = 0;
        let k = r.pick(&[3u8, 4, 5, 5, 9, 11, 11, 14]);
        for s in &mut sg {
            if s.kind != k {
                s.kind = k;
                s.p = r.range(1, 40) as u64;
            }
        }
    }
    let panics = r.chance(p.panic, 100);
    let mut ops: Vec<Op> = vec![];
    let mut pos = 0;
    let mut bad = false;
    let run_bad = r.chance(p.bad_tail, 100);
    let mut tail = tail_ok(r, t);
    if run_bad && r.chance(1, 3) {
        tail = tail_bad(r);
        bad = true;
    }
    let empty_faults = r.chance(1, 6);
    // most histories are short; some are long
    let want = if r.chance(1, 5) { r.range(8, 40) } else { r.range(1, 8) };
    let pol_w = [r.below(100), r.below(60), r.below(15)];
    let pol = |r: &mut Rng| match weighted(r, &[60 + pol_w[0], pol_w[1], pol_w[2]]) {
        0 => Pol::Retry,
        1 => Pol::Skip,
        _ => Pol::Give,
    };
    let mut i = 0;
    while i < want || pos < t {
        i += 1;
        if i > want + 6 {
            // the rest in one go
            if pos < t {
                ops.push(Op::W { len: t - pos, chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] });
            }
            break;
        }
        let a = if r.chance(p.fault, 100) { acts(r, panics) } else { vec![] };
        let x = r.below(100);
        if x < p.flush {
            ops.push(Op::F { pol: pol(r), acts: a });
        } else if x < p.flush + p.reset {
            let hdr = if kind == Kind::Gzip && r.chance(2, 3) { 1 + r.below(1 << 30) as u64 } else { 0 };
            let pl = pol(r);
            ops.push(Op::R { hdr, pol: pl, acts: a });
        } else if x < p.flush + p.reset + 3 {
            ops.push(Op::C);
        } else if x < p.flush + p.reset + 3 + if run_bad { 14 } else { 2 } {
            if run_bad {
                if bad {
                    ops.push(Op::T(tail_ok(r, t)));
                } else {
                    ops.push(Op::T(tail_bad(r)));
                }
                bad = !bad;
            } else {
                ops.push(Op::T(tail_ok(r, t)));
            }
        } else if prop == "C15" && r.chance(1, 8) {
            ops.push(Op::O(r.u64() >> 40, r.logsize(20_000)));
        } else {
            let left = t - pos;
            let len = if left == 0 {
                0
            } else {
                match r.below(13) {
                    0 => 0,
                    1 | 2 => left,
                    10..=12 => border(r, pos, left),
                    3 | 4 => {
                        let b = r.pick(&BOUND) + r.below(7);
                        let b = b.saturating_sub(3);
                        if b > pos { (b - pos).min(left) } else { r.logsize(left) }
                    }
                    5 => r.range(1, 4).min(left),
                    6 => r.below(left + 1),
                    _ => r.logsize(left),
                }
            };
            let chunk = match r.below(6) {
                0 => r.pick(&[1usize, 2, 3, 5, 7, 31]),
                1 => r.logsize(40_000),
                2 => r.pick(&[255usize, 256, 257, 258, 259, 1024, 4096, 16384, 32767, 32768, 32769, 65794]),
                _ => 0,
            };
            let tiny = prop == "C04" && len <= 140_000 && r.chance(1, 8);
            let chunk = if tiny { r.range(1, 7) } else { chunk };
            let chunk = if tiny { chunk } else if chunk > 0 && len / chunk > 600 && !(len <= 70_000 && r.chance(1, 12)) { len / 600 + 1 } else { chunk };
            let how = match r.below(8) {
                0 => How::One,
                1 => How::Vec,
                _ => How::All,
            };
            let pl = pol(r);
            ops.push(Op::W { len, chunk, how, pol: pl, acts: a });
            pos += len;
        }
    }
    if prop == "C11" && r.chance(1, 5) {
        // many short syncs after a reset, over a tiny alphabet: hash chains that end early
        opts = (r.pick(&[1u16, 2, 128, 128, 4096]), 32, r.chance(1, 4));
        preset = 0;
        ops.clear();
        let first = r.range(1, 30_000);
        ops.push(Op::W { len: first, chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] });
        let mut t = first;
        ops.push(Op::R { hdr: 0, pol: Pol::Retry, acts: vec![] });
        for _ in 0..r.range(2, 50) {
            let f = r.below(3);
            if f < 2 {
                ops.push(Op::F { pol: Pol::Retry, acts: vec![] });
            }
            if f > 0 {
                let len = if f == 1 { r.below(3) } else { r.below(2500) };
                t += len;
                ops.push(Op::W { len, chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] });
            }
        }
        let p = 1000 + r.pick(&[2u64, 2, 2, 3, 4, 8]);
        sg = vec![Seg { kind: 3, seed: r.u64() >> 16, p, len: t }];
        tail = Tail::Accept;
    }
    if prop == "C05" && !ops.iter().any(|o| matches!(o, Op::F { .. })) {
        let at = r.below(ops.len() + 1);
        let pl = pol(r);
        let a = if r.chance(p.fault, 100) { acts(r, panics) } else { vec![] };
        ops.insert(at, Op::F { pol: pl, acts: a });
    }
    if prop == "C11" && !ops.iter().any(|o| matches!(o, Op::R { .. })) {
        let at = r.below(ops.len().max(1));
        let pl = pol(r);
        ops.insert(at, Op::R { hdr: 0, pol: pl, acts: vec![] });
    }
    if bad && r.chance(1, 2) {
        ops.push(Op::T(tail_ok(r, t)));
    }
    let end = [EndKind::Finish, EndKind::Drop, EndKind::Crash, EndKind::Unwind][weighted(r, &p.ends)];
    let end_acts = if r.chance(p.fault, 100) { acts(r, panics) } else { vec![] };
    EncSpec {
        kind,
        opts,
        preset,
        knobs,
        hdr: if kind == Kind::Gzip && r.chance(1, 2) { 1 + r.below(1 << 30) as u64 } else { 0 },
        reent: prop == "C15" && r.chance(1, 6),
        empty_faults,
        segs: sg,
        tail,
        ops,
        end,
        end_acts,
    }
}

/// A long history: a few small operations over and over. `n`: operations in all.
fn haul(prop: &str, r: &mut Rng, p: &Prof, hooked: bool, n: usize) -> EncSpec {
    let mut e = enc(prop, r, p, hooked, true);
    let t = if n < 1000 && r.chance(1, 3) { r.range(40_000, 300_000) } else { r.pick(&[1usize, 40, 300, 2000, 40_000]) + r.below(20) };
    e.segs = segs(r, t, prop);
    if e.opts.0 > 200 {
        e.opts = (128, 32, true);
        e.preset = 0;
    }
    if let Tail::Chunk(k) = e.tail {
        e.tail = Tail::Chunk(k.max(8));
    }
    e.tail = if e.tail.healthy() { e.tail } else { Tail::Accept };
    e.reent = false;
    let faulty = r.chance(p.fault.min(60), 100);
    let mut body = vec![];
    let m = r.range(1, 4);
    let resets = r.chance(if prop == "C11" { 60 } else { 25 }, 100);
    for i in 0..m {
        let a = if faulty && r.chance(1, 2) { acts(r, false) } else { vec![] };
        let len = if r.chance(1, 6) { 0 } else { r.logsize(if n > 20_000 { 60 } else if n >= 1000 { 400 } else { 40_000 }) };
        let w = Op::W { len, chunk: 0, how: How::All, pol: Pol::Retry, acts: a.clone() };
        body.push(match r.below(5) {
            0 | 1 => w,
            2 | 3 if prop != "C04" => Op::F { pol: Pol::Retry, acts: a },
            4 if resets && n <= 80_000 => Op::R { hdr: 0, pol: Pol::Retry, acts: a },
            _ if i == 0 && prop != "C04" => Op::F { pol: Pol::Retry, acts: a },
            _ => w,
        });
    }
    if resets && n <= 80_000 && !body.iter().any(|o| matches!(o, Op::R { .. })) {
        body.push(Op::R { hdr: 0, pol: Pol::Retry, acts: vec![] });
    }
    if n == 900_000 {
        let w = Op::W { len: r.below(10), chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] };
        let x = Op::R { hdr: 0, pol: Pol::Retry, acts: vec![] };
        body = vec![x.clone(), x.clone(), if r.chance(1, 2) { w } else { Op::F { pol: Pol::Retry, acts: vec![] } }, x.clone(), x];
    }
    let keep = r.below(4).min(e.ops.len());
    let mut ops: Vec<Op> = e.ops.drain(..keep).collect();
    for o in &mut ops {
        if let Op::W { len, .. } = o {
            *len = (*len).min(t);
        }
    }
    let k = body.len();
    ops.extend(body);
    ops.push(Op::L(n / k, k));
    if r.chance(1, 2) {
        ops.push(Op::F { pol: Pol::Retry, acts: vec![] });
    }
    if prop == "C04" {
        ops.retain(|o| !matches!(o, Op::F { .. }));
    }
    e.ops = ops;
    e
}

/// More than 4 GiB through one encoder.
fn giant(prop: &str, r: &mut Rng, p: &Prof, idx: u64) -> EncSpec {
    let mut e = enc(prop, r, p, false, true);
    e.kind = match (prop, idx) {
        ("C12", 0) | ("C13", 1) | ("C14", 1) => Kind::Zlib,
        ("C01", 1) => Kind::Deflate,
        _ => Kind::Gzip,
    };
    if idx == 0 {
        e.opts = (0, 0, true);
        e.preset = 4;
    } else {
        e.opts = (1, 0, false);
        e.preset = 2;
    }
    e.reent = false;
    e.segs = vec![Seg { kind: 1, seed: 1, p: r.below(256) as u64, len: 4 << 20 }];
    e.tail = Tail::Accept;
    e.knobs = (0, 0);
    let w = Op::W { len: 4 << 20, chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] };
    let x = r.range(1, 2000);
    e.ops = vec![Op::W { len: x, chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] }, Op::C, w, Op::L(1023, 1), Op::C];
    if r.chance(1, 2) {
        e.ops.push(Op::F { pol: Pol::Retry, acts: vec![] });
        e.ops.push(Op::W { len: r.range(1, 300), chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] });
    }
    e.end = EndKind::Finish;
    e.end_acts.clear();
    if !matches!(prop, "C01" | "C12" | "C13" | "C14" | "C16") {
        late(prop, r, &mut e);
    }
    e
}

/// What the property is about, after the first 4 GiB of a giant.
fn late(prop: &str, r: &mut Rng, e: &mut EncSpec) {
    e.kind = r.pick(&[Kind::Deflate, Kind::Zlib, Kind::Gzip]);
    let noise = r.range(1000, 100_000);
    let sd = r.u64() >> 16;
    if prop != "C20" {
        e.segs[0].len -= noise + 80_000;
        e.segs.push(Seg { kind: 0, seed: sd, p: 0, len: noise });
        e.segs.push(Seg { kind: 2, seed: sd + 1, p: r.pick(&[32767u64, 32768, 32769, 20_000]), len: 80_000 });
    }
    let faulty = |r: &mut Rng| -> Vec<Act> {
        let mut v = vec![];
        for _ in 0..r.range(1, 4) {
            v.push(match r.below(4) {
                0 => Act::All,
                1 => Act::Short(r.range(1, 40)),
                2 => Act::Zero,
                _ => act_err(r),
            });
        }
        v
    };
    for _ in 0..r.range(2, 5) {
        let acts = if matches!(prop, "C17" | "C18" | "C20") { vec![] } else { faulty(r) };
        e.ops.push(match r.below(3) {
            0 if prop != "C04" => Op::F { pol: Pol::Retry, acts },
            1 if prop == "C11" || prop == "C07" => Op::R { hdr: 0, pol: Pol::Retry, acts },
            _ => Op::W { len: r.range(1, 200_000), chunk: 0, how: How::All, pol: Pol::Retry, acts },
        });
    }
    match prop {
        "C11" => {
            e.ops.push(Op::R { hdr: 0, pol: Pol::Retry, acts: vec![] });
            e.ops.push(Op::W { len: r.range(1, 100_000), chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] });
        }
        "C10" => {
            e.end = EndKind::Drop;
            e.end_acts = faulty(r);
        }
        _ => (),
    }
}

/// Runs with numbers from here on come first in thorough checks.
pub const EXTRA: u64 = 1 << 40;

/// More than 4 GiB, also of output, or of data that is searched for matches.
fn giant2(prop: &str, r: &mut Rng, p: &Prof, k: u64) -> EncSpec {
    let mut e = giant(prop, r, p, k & 1);
    e.kind = [Kind::Deflate, Kind::Zlib, Kind::Gzip][(k / 2 % 3) as usize];
    e.preset = 0;
    e.opts = [(0, 0, false), (0, 0, true), (1, 0, false), (4, 8, true)][(k % 4) as usize];
    if prop == "C18" && k % 2 == 0 {
        e.opts = (0, 0, k % 4 == 0);
    }
    let seg = match k % 8 {
        0 | 1 | 5 => Seg { kind: 0, seed: r.u64() >> 16, p: 0, len: 4 << 20 },
        2 => Seg { kind: 2, seed: r.u64() >> 16, p: 32768, len: 4 << 20 },
        3 | 6 => Seg { kind: 4, seed: r.u64() >> 16, p: 0, len: 4 << 20 },
        4 => Seg { kind: 9, seed: r.u64() >> 16, p: 255, len: 4 << 20 },
        _ => Seg { kind: 13, seed: r.u64() >> 16, p: 9, len: 4 << 20 },
    };
    e.segs = vec![seg];
    e.tail = if r.chance(1, 2) { Tail::Accept } else { Tail::Chunk(r.range(1000, 100_000)) };
    if k % 3 == 1 && prop != "C04" && prop != "C20" {
        // a flush after each piece
        let f = Op::F { pol: Pol::Retry, acts: vec![] };
        let i = e.ops.iter().position(|o| matches!(o, Op::L(..))).unwrap();
        e.ops.insert(i, f);
        e.ops[i + 1] = Op::L(1023, 2);
    }
    if prop == "C11" || prop == "C16" && k % 2 == 0 {
        e.ops.push(Op::R { hdr: 0, pol: Pol::Retry, acts: vec![] });
        e.ops.push(Op::W { len: r.range(1, 100_000), chunk: 0, how: How::All, pol: Pol::Retry, acts: vec![] });
    }
    if prop == "C10" {
        e.end = EndKind::Drop;
    }
    e
}

pub fn spec(prop: &str, build: &str, hooked: bool, seed: u64, idx: u64) -> Spec {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    let mut r = Rng::new(mix(h ^ mix(idx)));
    let mut p = prof(prop, &mut r);
    let every = matches!(prop, "C01" | "C12" | "C13" | "C14" | "C16");
    if idx < 2 && (every || idx == 1 && !matches!(prop, "C03" | "C04" | "C15")) {
        return Spec { prop: prop.into(), build: build.into(), mode: Mode::Single, encs: vec![giant(prop, &mut r, &p, idx)], sched: vec![] };
    }
    if idx >= EXTRA {
        return Spec { prop: prop.into(), build: build.into(), mode: Mode::Single, encs: vec![giant2(prop, &mut r, &p, idx - EXTRA)], sched: vec![] };
    }
    let n = match idx {
        // each worker begins with one of these
        2..=7 => [r.range(200, 1000), r.range(3000, 20_000), 66_000 + r.below(5000)][idx as usize % 3],
        _ if r.chance(1, 120) => match r.below(40) {
            0 => 66_000 + r.below(5000),
            1..=4 => r.range(3000, 20_000),
            5..=14 => r.range(1000, 3000),
            _ => r.range(100, 1000),
        },
        _ => 0,
    };
    if n > 0 {
        // what grows with the number of calls: a million of them, or 720,000 resets
        let n = if prop == "C14" && n > 60_000 { if idx == 5 || idx > 7 && r.chance(1, 4) { 900_000 } else { 1_000_000 } } else { n };
        return Spec { prop: prop.into(), build: build.into(), mode: Mode::Single, encs: vec![haul(prop, &mut r, &p, hooked, n)], sched: vec![] };
    }
    let multi = r.chance(p.multi, 100);
    let mode = if multi {
        let w = if prop == "C15" { [35, 10, 35, 20] } else { [45, 10, 15, 30] };
        [Mode::Interleave, Mode::Migrate, Mode::Threads, Mode::Chain][weighted(&mut r, &w)]
    } else {
        Mode::Single
    };
    let n = match mode {
        Mode::Single => 1,
        Mode::Chain => 2,
        Mode::Interleave if prop == "C15" && r.chance(1, 6) => r.range(5, 16),
        _ if prop == "C15" && r.chance(1, 10) => r.range(5, 9),
        _ => r.range(2, if prop == "C15" { 4 } else { 3 }),
    };
    if n > 4 {
        p.sizes = [40, 40, 19, 1, 0, 0];
    }
    let mut encs: Vec<EncSpec> = (0..n).map(|_| enc(prop, &mut r, &p, hooked, multi)).collect();
    if mode == Mode::Chain {
        let e = &mut encs[1];
        e.segs.clear();
        e.ops.clear();
        e.tail = match e.tail {
            Tail::Chunk(k) => Tail::Chunk(k.max(20)),
            _ => Tail::Accept,
        };
        e.end = EndKind::Finish;
        e.end_acts.clear();
        e.reent = false;
        encs[0].reent = false;
    }
    if mode == Mode::Single && prop == "C15" {
        encs[0].reent = true;
    }
    if mode == Mode::Migrate {
        for e in &mut encs {
            e.ops.truncate(12);
        }
    }
    if mode == Mode::Threads {
        // identical twins are the most sensitive pair: same data, different progress
        if r.chance(1, 3) {
            let e = encs[0].segs.clone();
            for x in encs.iter_mut().skip(1) {
                x.segs = e.clone();
            }
        }
    }
    let sched = if multi {
        match r.below(3) {
            0 => (0..n).collect(),
            _ => (0..r.range(4, 64)).map(|_| r.below(n)).collect(),
        }
    } else {
        vec![]
    };
    Spec { prop: prop.into(), build: build.into(), mode, encs, sched }
}
