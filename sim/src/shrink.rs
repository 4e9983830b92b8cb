//! Greedy minimisation of a failing spec: fewer encoders, operations and faults, smaller data, simpler options.
use crate::spec::*;

/// Candidate simplifications, biggest first.
pub fn candidates(s: &Spec) -> Vec<Spec> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Spec)| {
        let mut c = s.clone();
        f(&mut c);
        if c != *s && c.encs.iter().all(|e| e.sane()) {
            v.push(c);
        }
    };
    if s.encs.len() > 1 {
        if s.mode != Mode::Chain {
            for i in 0..s.encs.len() {
                push(&|c| {
                    c.encs.remove(i);
                    if c.encs.len() == 1 {
                        c.mode = Mode::Single;
                        c.sched.clear();
                    }
                });
            }
        } else {
            push(&|c| {
                c.encs.truncate(1);
                c.mode = Mode::Single;
            });
        }
        if s.mode == Mode::Threads || s.mode == Mode::Migrate {
            push(&|c| c.mode = Mode::Interleave);
        }
        push(&|c| {
            let n = c.sched.len() / 2;
            c.sched.truncate(n)
        });
    }
    for i in 0..s.encs.len() {
        let e = &s.encs[i];
        let n = e.ops.len();
        // operations: halves, quarters, single ones
        for k in [n / 2, n / 4] {
            if k > 1 {
                let mut a = 0;
                while a < n {
                    let b = (a + k).min(n);
                    push(&|c| {
                        c.encs[i].ops.drain(a..b);
                    });
                    a = b;
                }
            }
        }
        for j in 0..n {
            push(&|c| {
                c.encs[i].ops.remove(j);
            });
        }
        for j in 0..e.segs.len() {
            push(&|c| {
                c.encs[i].segs.remove(j);
            });
            for d in [2usize, 4, 16] {
                push(&|c| {
                    let g = &mut c.encs[i].segs[j];
                    g.len -= g.len / d
                });
            }
            push(&|c| {
                let g = &mut c.encs[i].segs[j];
                g.len = g.len.saturating_sub(1)
            });
            for k in [1u8, 0] {
                if e.segs[j].kind > k {
                    push(&|c| {
                        let g = &mut c.encs[i].segs[j];
                        g.kind = k;
                        g.p = 97;
                        g.seed = 1;
                    });
                }
            }
        }
        for j in 0..n {
            if let Op::L(..) = e.ops[j] {
                push(&|c| if let Op::L(n, _) = &mut c.encs[i].ops[j] { *n /= 2 });
                push(&|c| if let Op::L(n, _) = &mut c.encs[i].ops[j] { *n -= *n / 8 });
                push(&|c| if let Op::L(_, k) = &mut c.encs[i].ops[j] { *k = 1 });
            }
        }
        push(&|c| c.encs[i].preset = 0);
        push(&|c| c.encs[i].knobs = (0, 0));
        push(&|c| c.encs[i].knobs.0 = 0);
        push(&|c| c.encs[i].knobs.1 = 0);
        push(&|c| c.encs[i].hdr = 0);
        push(&|c| c.encs[i].reent = false);
        push(&|c| c.encs[i].empty_faults = false);
        push(&|c| c.encs[i].kind = Kind::Deflate);
        push(&|c| c.encs[i].kind = Kind::Zlib);
        push(&|c| {
            c.encs[i].preset = 0;
            c.encs[i].opts = (128, 32, true)
        });
        push(&|c| {
            c.encs[i].preset = 0;
            c.encs[i].opts = (1, 0, false)
        });
        push(&|c| c.encs[i].tail = Tail::Accept);
        push(&|c| c.encs[i].end = EndKind::Finish);
        push(&|c| c.encs[i].end = EndKind::Crash);
        push(&|c| c.encs[i].end_acts.clear());
        for j in 0..e.end_acts.len() {
            push(&|c| {
                c.encs[i].end_acts.remove(j);
            });
        }
        for j in 0..n {
            let m = match &e.ops[j] {
                Op::W { acts, .. } | Op::F { acts, .. } | Op::R { acts, .. } => acts.len(),
                _ => 0,
            };
            if m > 1 {
                push(&|c| {
                    if let Op::W { acts, .. } | Op::F { acts, .. } | Op::R { acts, .. } = &mut c.encs[i].ops[j] {
                        acts.clear()
                    }
                });
            }
            for q in 0..m {
                push(&|c| {
                    if let Op::W { acts, .. } | Op::F { acts, .. } | Op::R { acts, .. } = &mut c.encs[i].ops[j] {
                        acts.remove(q);
                    }
                });
            }
            if let Op::W { .. } = &e.ops[j] {
                push(&|c| {
                    if let Op::W { chunk, .. } = &mut c.encs[i].ops[j] {
                        *chunk = 0
                    }
                });
                push(&|c| {
                    if let Op::W { how, .. } = &mut c.encs[i].ops[j] {
                        *how = How::All
                    }
                });
                push(&|c| {
                    if let Op::W { len, .. } = &mut c.encs[i].ops[j] {
                        *len /= 2
                    }
                });
                push(&|c| {
                    if let Op::W { len, .. } = &mut c.encs[i].ops[j] {
                        *len -= *len / 8
                    }
                });
                // merge with the next write
                if j + 1 < n {
                    if let Op::W { len: l2, .. } = &e.ops[j + 1] {
                        let l2 = *l2;
                        push(&|c| {
                            c.encs[i].ops.remove(j + 1);
                            if let Op::W { len, .. } = &mut c.encs[i].ops[j] {
                                *len += l2
                            }
                        });
                    }
                }
            }
            if let Op::R { .. } = &e.ops[j] {
                push(&|c| {
                    if let Op::R { hdr, .. } = &mut c.encs[i].ops[j] {
                        *hdr = 0
                    }
                });
            }
        }
    }
    v
}

pub fn shrink(mut s: Spec, mut fails: impl FnMut(&Spec) -> bool, mut more: impl FnMut() -> bool) -> Spec {
    // shorten writes to what the data allows first
    loop {
        let mut better = None;
        for c in candidates(&s) {
            if !more() {
                return s;
            }
            if fails(&c) {
                better = Some(c);
                break;
            }
        }
        match better {
            Some(c) => s = c,
            None => return s,
        }
    }
}
