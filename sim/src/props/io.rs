//! C13: scanning streams. C14: mapped copy helpers. C15: in-memory buffers.

use crate::core::{Ctx, R};
use crate::env::map::{Profile, SimRead, SimWrite};
use crate::env::stream::{Feed, SimStream};
use crate::runner::Prop;
use crate::{ensure, fail};
use std::cell::Cell;
use std::mem::MaybeUninit as Uninit;
use std::ops::ControlFlow as Flow;
use tmp::io::map::{self, Read as _, Write as _};
use tmp::io::stream::{self, Read as _};

pub const C13: Prop = Prop {
    id: "C13", units: 200_000, sweep: true, run: run_c13,
    real: "tmp::io::stream::{read_map_while, dyn Read::map_while}",
    stub: "stream (Read) with seeded arrival and mapped extents; predicate; callers",
    rule: "one evaluation = one stream scanned by up to 8 scans; distinct = distinct event logs (every mapping, delivery, predicate call and result)",
    assumptions: &["streams up to 400 bytes, rarely up to 140000; the start offset is below the maximum, as the interface demands"],
};
pub const C14: Prop = Prop {
    id: "C14", units: 60_000, sweep: true, run: run_c14,
    real: "tmp::io::map::{Read::{read, read_uninit}, Write::{write, write_iter, fill, zero, align_exp2}}",
    stub: "mapped memory with seeded chunking, over-long pieces, interruptions; byte iterators; callers",
    rule: "one evaluation = a history of up to 10 transfers, each continued until complete; distinct = distinct event logs (every mapping with offset, length, granted extent and outcome)",
    assumptions: &["transfers up to 600 bytes, rarely up to 131071, at offsets up to 2^20, besides offsets at the end of the address range"],
};
pub const C15: Prop = Prop {
    id: "C15", units: 400_000, sweep: true, run: run_c15,
    real: "tmp::io::map::Write for Vec<u8>, map::Read for [u8], stream::Write for Vec<u8>, stream::Read for &[u8]",
    stub: "callers (history of mapping, writing, committing, discarding)",
    rule: "one evaluation = a history of up to 30 operations on one buffer; distinct = distinct event logs (every operation with arguments and outcome)",
    assumptions: &["extents up to 70000 bytes, and extents beyond the address range; nothing in between, which the allocator decides"],
};

fn run_c13(ctx: &Ctx) -> R {
    let far = ctx.chance(1, 2000);
    let n = if far {
        ctx.probe("far_scan");
        ctx.range(30_000, 140_000)
    } else if ctx.chance(1, 30) {
        ctx.size(6000)
    } else {
        ctx.size(400)
    };
    let alpha = ctx.range(1, 4) as u8;
    let data: Vec<u8> = ctx.bytes(n).into_iter().map(|b| b % alpha).collect();
    let mut s = SimStream::new(ctx, data.clone());
    let sh = s.sh.clone();
    let feed = Feed::draw(ctx);
    let mut base = 0;
    if far {
        sh.deliver(n - n / 50);
    }
    ctx.describe(|| format!("{n} bytes of {alpha} kinds"));
    for _ in 0..ctx.range(1, 8) {
        let rest = &data[base..];
        let start = if ctx.chance(1, 2) { 0 } else { ctx.range(0, rest.len().min(if ctx.chance(1, 8) { usize::MAX } else { 10 })) };
        let max = match ctx.draw(3) {
            0 => None,
            1 => Some(start + 1 + ctx.size(60)),
            _ if ctx.chance(1, 4) => Some(start + 1 + ctx.size(n)),
            _ => Some(start + 1 + ctx.range(0, 3)),
        };
        // Stop by value, by offset, or never.
        let (val, off) = (ctx.draw(5) as u8 + 4 * far as u8, if far && ctx.chance(1, 2) { ctx.range(n / 3, n) } else if ctx.chance(1, 3) { ctx.size(if ctx.chance(1, 8) { n } else { 60 }) } else { usize::MAX });
        let pred = |i: usize, b: u8| b != val && i != off;
        let stop = (start..rest.len()).find(|i| !pred(*i, rest[*i]));
        let by_max = max.filter(|m| *m <= rest.len() && stop.is_none_or(|s| s >= *m));
        let end = match by_max {
            Some(m) => Some(m),
            None => stop,
        };
        let via_dyn = ctx.chance(1, 2);
        let mut at = start;
        let mut log: Vec<(usize, u8)> = Vec::new();
        let mut checked = 0;
        loop {
            ctx.tick();
            sh.mins.borrow_mut().clear();
            let from = at;
            let p = |i: usize, b: u8| {
                log.push((i, b));
                pred(i, b)
            };
            let r = if via_dyn {
                (&s as &dyn stream::Read).map_while(&mut at, max, p)
            } else {
                stream::read_map_while(&s, &mut at, max, p)
            };
            ctx.ev("scan", at as u64, log.len() as u64);
            for (k, (i, b)) in log.iter().enumerate().skip(checked) {
                ensure!(
                    *i == start + k && rest.get(*i) == Some(b),
                    "predicate call {k} got offset {i} and value {b}, expected offset {} and {:?}",
                    start + k, rest.get(start + k)
                );
            }
            checked = log.len();
            ensure!(sh.pos.get() == base, "stream was advanced by a scan");
            match r {
                Flow::Continue(m) => {
                    let Some(e) = end else { fail!("scan ended at {at} without reason") };
                    ensure!(at == e, "scan stopped at {at} instead of {e}");
                    let calls = e - start + by_max.is_none() as usize;
                    ensure!(log.len() == calls, "{} predicate calls instead of {calls}", log.len());
                    let need = e + by_max.is_none() as usize;
                    ensure!(m.len() >= need, "{} bytes returned, {need} needed", m.len());
                    ensure!(rest.get(..m.len()) == Some(m), "wrong bytes returned");
                    ctx.state(by_max.is_some() as u64, via_dyn as u64, (e - start).min(20) as u64);
                    break;
                }
                Flow::Break(more) => {
                    let have = sh.buffered();
                    ensure!(end.is_none_or(|e| e + by_max.is_none() as usize > have), "asks for more although {have} bytes decide the scan");
                    ensure!(at >= from && at == have.max(start), "stopped at {at} with {have} bytes buffered");
                    ensure!(log.len() == at - start, "{} predicate calls for {} bytes", log.len(), at - start);
                    ensure!(more.min == at + 1, "asks for {} after scanning {at}", more.min);
                    ensure!(more.max == max, "passes on maximum {:?} instead of {max:?}", more.max);
                    if !feed.feed(ctx, &sh, more.min) {
                        return Ok(());
                    }
                }
            }
        }
        if ctx.chance(1, 2) {
            let k = ctx.range(0, at.min(sh.buffered()));
            s.advance(k);
            base += k;
        }
        if let Some(e) = sh.err.borrow_mut().take() {
            fail!("{e}");
        }
    }
    Ok(())
}

/// Bytes with an exact length that count how many were taken.
struct Source<'a> {
    data: &'a [u8],
    taken: &'a Cell<usize>,
}

impl Iterator for Source<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let v = self.data.get(self.taken.get()).copied();
        if v.is_some() {
            self.taken.set(self.taken.get() + 1);
        }
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.data.len() - self.taken.get();
        (n, Some(n))
    }
}

impl ExactSizeIterator for Source<'_> {}

fn io<T>(v: Flow<Option<map::Error>, T>) -> Result<(), Option<map::Error>> {
    match v {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

/// Around where counters of some widths wrap.
const LARGE: [usize; 4] = [32_767, 65_535, 100_000, 131_071];

fn run_c14(ctx: &Ctx) -> R {
    let prof = Profile::draw(ctx);
    if ctx.chance(1, 3) { run_c14_read(ctx, prof) } else { run_c14_write(ctx, prof) }
}

fn run_c14_read(ctx: &Ctx, prof: Profile) -> R {
    let n = match ctx.draw(240) {
        0..4 => ctx.size(20_000),
        // Not byte by byte.
        4 if prof.chunk % 3 == 0 => *ctx.pick(&LARGE) + ctx.range(0, 2),
        _ => ctx.size(600),
    };
    let data = ctx.bytes(n);
    let r = SimRead::new(ctx, prof, data.clone());
    let sh = r.sh.clone();
    ctx.describe(|| format!("read from {n} bytes"));
    for _ in 0..ctx.range(1, 10) {
        let from = ctx.range(0, n);
        let len = ctx.size(n - from + 4);
        let past = from + len > n;
        let uninit = ctx.chance(1, 2);
        let mut buf = vec![0x5au8; len];
        let mut idx = from;
        let mut tries = 0;
        loop {
            ctx.tick();
            sh.quiet.set(tries >= 8);
            tries += 1;
            let done = idx - from;
            let dst = &mut buf[done..];
            let res = if uninit {
                // SAFETY: same layout, only ever initialized.
                let d = unsafe { &mut *(dst as *mut [u8] as *mut [Uninit<u8>]) };
                io(r.read_uninit(&mut idx, d))
            } else {
                io(r.read(&mut idx, dst))
            };
            ctx.ev("read", idx as u64, len as u64);
            ensure!(idx >= from + done && idx <= from + len, "offset {idx} outside of {from}+{len}");
            let at = idx - from;
            ensure!(buf[..at] == data[from..idx], "wrong bytes read at {from}..{idx}");
            ensure!(buf[at..].iter().all(|b| *b == 0x5a), "bytes beyond offset {idx} changed");
            match (res, sh.broke.take()) {
                (Ok(()), None) => {
                    ensure!(at == len, "read ended at {at} of {len}");
                    ensure!(!past, "read past the end succeeded");
                    break;
                }
                (Err(e), Some(c)) => {
                    ensure!(e == c.flow(), "cause {c:?} became {e:?}");
                    if sh.past.get() {
                        ensure!(past, "read within the data failed");
                        break;
                    }
                    ctx.probe("continued");
                }
                (res, c) => fail!("memory broke with {c:?}, read yields {res:?}"),
            }
        }
        ctx.state(1, uninit as u64, len.min(30) as u64);
    }
    Ok(())
}

fn run_c14_write(ctx: &Ctx, prof: Profile) -> R {
    let base = if ctx.chance(1, 8) { ctx.range(0, 1 << 20) } else { 0 };
    let chunk = prof.chunk;
    let mut w = SimWrite::new(ctx, prof, base + 1500);
    let sh = w.sh.clone();
    let mut model = sh.mem.borrow().clone();
    ctx.describe(|| format!("write at {base}"));
    for _ in 0..ctx.range(1, 10) {
        let from = base + ctx.range(0, 800);
        let op = ctx.draw(5);
        if op == 4 && ctx.chance(1, 8) {
            // The end of the address range.
            let exp = ctx.range(1, 20) as u8;
            let mut idx = usize::MAX - ctx.below((1 << exp) - 1);
            let old = idx;
            let res = io(w.align_exp2(&mut idx, exp));
            ensure!(sh.broke.take().is_none(), "alignment beyond the address range asks for memory");
            ensure!(res == Err(Some(map::Error::Overflow)), "aligning {old:#x} to 2^{exp} yields {res:?}");
            ensure!(idx == old, "offset moved from {old:#x} to {idx:#x}");
            continue;
        }
        let exp = (if ctx.chance(1, 60) { ctx.range(10, 16) } else { ctx.range(0, 9) }) as u8;
        let len = match ctx.draw(800) {
            _ if op == 4 => from.next_multiple_of(1 << exp) - from,
            0..8 => ctx.size(20_000),
            8 if chunk % 3 == 0 => *ctx.pick(&LARGE) + ctx.range(0, 2),
            _ => ctx.size(500),
        };
        let fill = ctx.draw(256) as u8;
        let want: Vec<u8> = match op {
            0 | 1 => ctx.bytes(len),
            2 => vec![fill; len],
            _ => vec![0; len],
        };
        let taken = Cell::new(0);
        let mut it = Source { data: &want, taken: &taken };
        let mut idx = from;
        let mut tries = 0;
        if model.len() < from + len + 32 {
            // Keep the model in step with the memory growing on demand.
            let mut mem = sh.mem.borrow_mut();
            mem.resize(from + len + 32, 0x77);
            model.resize(from + len + 32, 0x77);
        }
        loop {
            ctx.tick();
            sh.quiet.set(tries >= 8);
            tries += 1;
            let done = idx - from;
            let res = io(match op {
                0 => w.write(&mut idx, &want[done..]),
                1 => w.write_iter(&mut idx, &mut it),
                2 => w.fill(&mut idx, len - done, fill),
                3 => w.zero(&mut idx, len - done),
                _ => w.align_exp2(&mut idx, exp),
            });
            w.sync();
            ctx.ev("write", (op << 32) | idx as u64, len as u64);
            if let Some(e) = sh.err.borrow_mut().take() {
                fail!("{e}");
            }
            ensure!(idx >= from + done && idx <= from + len, "offset {idx} outside of {from}+{len}");
            let at = idx - from;
            model[from..idx].copy_from_slice(&want[..at]);
            {
                let mem = sh.mem.borrow();
                if let Some(i) = (0..model.len()).find(|i| mem[*i] != model[*i]) {
                    fail!(
                        "operation {op} at {from}+{len}, got to {idx}: byte {i} is {:#x}, expected {:#x}",
                        mem[i], model[i]
                    );
                }
            }
            if op == 1 {
                ensure!(taken.get() == at, "{} bytes consumed, {at} written", taken.get());
            }
            match (res, sh.broke.take()) {
                (Ok(()), None) => {
                    ensure!(at == len, "operation {op} ended at {at} of {len}");
                    break;
                }
                (Err(e), Some(c)) => {
                    ensure!(e == c.flow(), "cause {c:?} became {e:?}");
                    ctx.probe("continued");
                }
                (res, c) => fail!("memory broke with {c:?}, operation {op} yields {res:?}"),
            }
        }
        ctx.state(2, op, len.min(30) as u64);
        ensure!(sh.commits.borrow().is_empty(), "operation {op} committed");
    }
    Ok(())
}

fn run_c15(ctx: &Ctx) -> R {
    match ctx.draw(4) {
        0 => c15_stream_write(ctx),
        1 => c15_map_write(ctx),
        2 => c15_stream_read(ctx),
        _ => c15_map_read(ctx),
    }
}

/// Committed bytes and what was staged behind them.
struct Staged {
    committed: Vec<u8>,
    staged: Vec<Option<u8>>,
}

impl Staged {
    fn set(&mut self, off: usize, d: &[u8]) {
        if self.staged.len() < off + d.len() {
            self.staged.resize(off + d.len(), None);
        }
        for (i, b) in d.iter().enumerate() {
            self.staged[off + i] = Some(*b);
        }
    }
    /// Number of leading staged bytes that are initialized.
    fn ready(&self) -> usize {
        self.staged.iter().take_while(|v| v.is_some()).count()
    }
    fn commit(&mut self, n: usize) {
        self.committed.extend(self.staged.drain(..n).map(|v| v.unwrap()));
        // What lies beyond is not guaranteed after a commit.
        self.staged.clear();
    }
    fn check(&self, v: &Vec<u8>) -> R {
        ensure!(*v == self.committed, "committed data is {} bytes, expected {}, or differs", v.len(), self.committed.len());
        Ok(())
    }
    /// Compare retained bytes in a mapping starting at `off`.
    fn check_map(&self, m: &[Uninit<u8>], off: usize) -> R {
        for (i, c) in m.iter().enumerate() {
            if let Some(Some(b)) = self.staged.get(off + i) {
                // SAFETY: was initialized by a previous mapping.
                let v = unsafe { c.assume_init_read() };
                ensure!(v == *b, "staged byte {} is {v:#x}, was written as {b:#x}", off + i);
            }
        }
        Ok(())
    }
}

fn extent(ctx: &Ctx) -> usize {
    if ctx.chance(1, 60) { *ctx.pick(&[4096usize, 65536, 70000]) } else { ctx.size(300) }
}

fn start(ctx: &Ctx) -> (Vec<u8>, Staged) {
    let n = if ctx.chance(1, 2) { 0 } else { ctx.size(200) };
    let d = ctx.bytes(n);
    let mut v = Vec::with_capacity(n + ctx.size(100));
    v.extend_from_slice(&d);
    (v, Staged { committed: d, staged: Vec::new() })
}

fn disturb(ctx: &Ctx, v: &mut Vec<u8>, m: &mut Staged) {
    if ctx.fault("staged_discarded", 1, 12) {
        v.shrink_to_fit();
        m.staged.clear();
    }
    if ctx.fault("owner_appends", 1, 16) {
        let d = ctx.bytes(ctx.range(1, 20));
        v.extend_from_slice(&d);
        m.committed.extend_from_slice(&d);
        m.staged.clear();
    }
}

fn c15_stream_write(ctx: &Ctx) -> R {
    use stream::Write;
    let (mut v, mut m) = start(ctx);
    ctx.describe(|| format!("stream buffer starting with {} bytes", m.committed.len()));
    for _ in 0..ctx.range(1, 30) {
        ctx.tick();
        disturb(ctx, &mut v, &mut m);
        match ctx.weighted(&[4, 3, 2, 2]) {
            0 => {
                let min = extent(ctx);
                let max = match ctx.draw(5) {
                    0 => None,
                    1 => Some(min),
                    2 => Some(usize::MAX),
                    3 => Some(ctx.size(300)),
                    _ => Some(min + ctx.size(40)),
                };
                let Flow::Continue(w) = Write::map(&mut v, min, max) else { fail!("map({min}, {max:?}) breaks") };
                ctx.ev("map", min as u64, max.map_or(u64::MAX, |v| v as u64));
                ensure!(w.len() >= min, "map({min}, {max:?}) yields {} bytes", w.len());
                m.check_map(w, 0)?;
                let (a, n) = (ctx.range(0, min), ctx.size(min));
                let n = n.min(min - a);
                let d = ctx.bytes(n);
                for (i, b) in d.iter().enumerate() {
                    w[a + i].write(*b);
                }
                m.set(a, &d);
            }
            1 => {
                let n = ctx.range(0, m.ready());
                // SAFETY: initialized according to the model.
                unsafe { Write::commit(&mut v, n) };
                ctx.ev("commit", n as u64, 0);
                m.commit(n);
            }
            2 => {
                let d = ctx.bytes(extent(ctx));
                let r = Write::write(&mut v, &d);
                ctx.ev("write", d.len() as u64, 0);
                ensure!(r.is_continue(), "write of {} bytes breaks", d.len());
                m.set(0, &d);
                m.commit(d.len());
            }
            _ => {
                let n = ctx.range(0, m.ready());
                // SAFETY: initialized according to the model.
                let Flow::Continue(w) = (unsafe { Write::map_unchecked(&mut v, n) }) else { fail!("map_unchecked({n}) breaks") };
                ctx.ev("map_unchecked", n as u64, 0);
                ensure!(w.len() == n, "map_unchecked({n}) yields {} bytes", w.len());
                for (i, b) in w.iter().enumerate() {
                    ensure!(m.staged[i] == Some(*b), "staged byte {i} is {b:#x}, was {:?}", m.staged[i]);
                }
                if n > 0 && ctx.chance(1, 2) {
                    let i = ctx.below(n);
                    w[i] ^= 0xff;
                    let b = w[i];
                    m.staged[i] = Some(b);
                }
            }
        }
        m.check(&v)?;
        ctx.state(1, m.committed.len().min(64) as u64, m.staged.len().min(64) as u64);
    }
    Ok(())
}

fn c15_map_write(ctx: &Ctx) -> R {
    use map::Write;
    let (mut v, mut m) = start(ctx);
    ctx.describe(|| format!("mapped buffer starting with {} bytes", m.committed.len()));
    for _ in 0..ctx.range(1, 30) {
        ctx.tick();
        disturb(ctx, &mut v, &mut m);
        match ctx.weighted(&[4, 3, 3, 1]) {
            0 => {
                let (idx, len) = (ctx.size(300), extent(ctx));
                let Flow::Continue(w) = Write::map(&mut v, idx, len) else { fail!("map({idx}, {len}) breaks") };
                ctx.ev("map", idx as u64, len as u64);
                ensure!(w.len() >= len, "map({idx}, {len}) yields {} bytes", w.len());
                m.check_map(w, idx)?;
                let a = ctx.range(0, len);
                let d = ctx.bytes(ctx.size(len).min(len - a));
                for (i, b) in d.iter().enumerate() {
                    w[a + i].write(*b);
                }
                m.set(idx + a, &d);
            }
            1 => {
                let n = ctx.range(0, m.ready());
                // SAFETY: initialized according to the model.
                unsafe { Write::commit(&mut v, n) };
                ctx.ev("commit", n as u64, 0);
                m.commit(n);
            }
            2 => {
                let mut idx = if ctx.chance(1, 2) { 0 } else { ctx.size(100) };
                let from = idx;
                let d = ctx.bytes(extent(ctx));
                let r = io(Write::write(&mut v, &mut idx, &d));
                ctx.ev("write", from as u64, d.len() as u64);
                ensure!(r == Ok(()) && idx == from + d.len(), "write at {from} of {} yields {r:?} at {idx}", d.len());
                m.set(from, &d);
            }
            _ => {
                // Extents that cannot exist.
                let (idx, len) = *ctx.pick(&[
                    (usize::MAX, 1),
                    (1, usize::MAX),
                    (usize::MAX, usize::MAX),
                    (usize::MAX - 10, 11),
                    (usize::MAX - 10, 10),
                    (0, usize::MAX),
                    (isize::MAX as usize, 1),
                    (1, isize::MAX as usize),
                    (0, isize::MAX as usize + 1),
                    (isize::MAX as usize + 1, 0),
                ]);
                let r = io(Write::map(&mut v, idx, len));
                ctx.probe("impossible_extent");
                ctx.ev("impossible", idx as u64, len as u64);
                ensure!(r == Err(Some(map::Error::Overflow)), "map({idx:#x}, {len:#x}) yields {r:?}");
            }
        }
        m.check(&v)?;
        ctx.state(2, m.committed.len().min(64) as u64, m.staged.len().min(64) as u64);
    }
    Ok(())
}

fn c15_stream_read(ctx: &Ctx) -> R {
    let n = ctx.size(400);
    let d = ctx.bytes(n);
    let mut s: &[u8] = &d;
    let mut pos = 0;
    ctx.describe(|| format!("stream input of {n} bytes"));
    for _ in 0..ctx.range(1, 30) {
        ctx.tick();
        let rest = n - pos;
        if ctx.chance(1, 3) {
            let k = ctx.range(0, rest);
            stream::Read::advance(&mut s, k);
            ctx.ev("advance", k as u64, 0);
            pos += k;
        } else {
            let min = match ctx.draw(4) {
                0 => ctx.range(0, rest),
                1 => rest + 1 + ctx.size(10),
                2 => rest,
                _ => *ctx.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize]),
            };
            let max = match ctx.draw(3) {
                0 => None,
                1 => Some(usize::MAX),
                _ => Some(ctx.size(100)),
            };
            ctx.ev("map", min as u64, max.map_or(u64::MAX, |v| v as u64));
            match stream::Read::map(&s, min, max) {
                Flow::Continue(m) => {
                    ensure!(min <= rest, "map({min}) of {rest} bytes succeeds");
                    ensure!(m.len() >= min, "map({min}) yields {} bytes", m.len());
                    ensure!(d.get(pos..pos + m.len()) == Some(m), "map({min}) at {pos} yields wrong bytes");
                }
                Flow::Break(more) => {
                    ensure!(min > rest, "map({min}) of {rest} bytes breaks");
                    ensure!(more == stream::More { min, max }, "map({min}, {max:?}) asks for {more:?}");
                }
            }
        }
        ensure!(s == &d[pos..], "remaining data differs");
        ctx.state(3, (n - pos).min(64) as u64, 0);
    }
    Ok(())
}

fn c15_map_read(ctx: &Ctx) -> R {
    let n = ctx.size(400);
    let d = ctx.bytes(n);
    let s: &[u8] = &d;
    ctx.describe(|| format!("mapped input of {n} bytes"));
    for _ in 0..ctx.range(1, 30) {
        ctx.tick();
        let (idx, len) = match ctx.draw(5) {
            0 => {
                let i = ctx.range(0, n);
                (i, ctx.range(0, n - i))
            }
            1 => (ctx.size(500), 1 + ctx.size(500)),
            4 => ((n + ctx.range(0, 3)).saturating_sub(1), ctx.range(0, 2)),
            2 => *ctx.pick(&[
                (usize::MAX, 1),
                (1, usize::MAX),
                (usize::MAX, usize::MAX),
                (usize::MAX - 10, 11),
                (2, usize::MAX - 1),
            ]),
            _ => *ctx.pick(&[
                (usize::MAX - 1, 1),
                (0, usize::MAX),
                (isize::MAX as usize, 1),
                (1, isize::MAX as usize),
            ]),
        };
        ctx.ev("map", idx as u64, len as u64);
        let want = match idx.checked_add(len) {
            None => Err(map::Error::Overflow),
            Some(e) if e > n => Err(map::Error::Exceeded),
            Some(e) => Ok(&d[idx..e]),
        };
        match (map::Read::map(s, idx, len), want) {
            (Flow::Continue(m), Ok(w)) => {
                ensure!(m.len() >= len && m[..len] == *w, "map({idx}, {len}) yields wrong bytes")
            }
            (Flow::Break(e), Err(w)) => ensure!(e == Some(w), "map({idx:#x}, {len:#x}) of {n} bytes yields {e:?}"),
            (Flow::Continue(_), Err(w)) => fail!("map({idx:#x}, {len:#x}) of {n} bytes succeeds, expected {w:?}"),
            (Flow::Break(e), Ok(_)) => fail!("map({idx:#x}, {len:#x}) of {n} bytes yields {e:?}"),
        }
        ctx.state(4, (idx > n) as u64, len.min(64) as u64);
    }
    Ok(())
}
