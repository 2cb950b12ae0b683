//! C30: memory held follows the work in progress.

use crate::core::{Ctx, R};
use crate::env::map::Cause;
use crate::heap::{self, loud, quiet};
use crate::model::dbus::{Gen, Op, Plan, Ty, Val};
use crate::model::{jchar, jgen, jtok};
use crate::props::dbus_enc::{Arena, format};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::json::token::{Error as PushError, Report, Token as PushToken, Tokenizer};
use osi::mown::Mown;
use std::cell::Cell;
use std::mem::MaybeUninit as Uninit;
use std::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::{Dec, Enc};
use tmp::fmt::dbus::{Error, Sig};
use tmp::fmt::json::{stream, token};
use tmp::io;

pub const C30: Prop = Prop {
    id: "C30",
    units: 12_000,
    sweep: false,
    run: run_c30,
    real: "osi::json::token::Tokenizer, tmp::fmt::json::{token, stream}::Dec, tmp::fmt::dbus::dvar::{Enc, Dec}",
    stub: "allocator (counts what calls of the code under test hold); memory, streams and report consumers with seeded interruptions, aborts, resets and ends; callers that retry and abandon",
    rule: "one evaluation = one long history of one object, its memory compared with the bound after every call; distinct = distinct event logs",
    assumptions: &[
        "allowed: 64 KiB (16 KiB for D-Bus) at any time, 8 bytes per byte of the unfinished or last token, 1 KiB per open container, 256 bytes per signature element in use, 4 bytes per byte of the value decoded last",
        "up to 1 MiB per token, 600 KiB of text, 30000 D-Bus calls",
    ],
};

fn run_c30(ctx: &Ctx) -> R {
    quiet(|| match ctx.draw(5) {
        0 | 1 => push(ctx),
        2 => pull(ctx),
        3 => {
            if ctx.chance(1, 3) {
                tree(ctx)
            } else {
                enc(ctx)
            }
        }
        _ => dec(ctx),
    })
}

const SLACK: usize = 64 << 10;
const DSLACK: usize = 16 << 10;

/// What the object under test holds.
struct Meter(isize);

impl Meter {
    fn new() -> Self {
        Self(heap::begin())
    }
    /// Run a call and return what it held at most, and what it left.
    fn run<T>(&self, f: impl FnOnce() -> T) -> (T, usize, usize) {
        heap::begin();
        let r = loud(f);
        (r, heap::peak(self.0), heap::live(self.0).max(0) as usize)
    }
}

fn rep(s: &str, n: usize) -> String {
    s.repeat(n.div_ceil(s.len()))
}

/// A text of many tokens, some of them large.
fn text(ctx: &Ctx, bytes: bool) -> String {
    let mut s = String::new();
    let big = ctx.chance(1, 4);
    let total = if big { 60_000 } else { *ctx.pick(&[2_000, 20_000, 300_000]) };
    let mut pieces: Vec<String> = Vec::new();
    for _ in 0..ctx.range(1, 5) {
        pieces.push(match ctx.draw(4) {
            0 => "1,".into(),
            1 => "\"a\\n\\u00e9b\" ".into(),
            2 => "tru nul 1e5 ".into(),
            _ => {
                let mut t = jgen::text(ctx);
                // Whatever is open is closed by one of these.
                if !bytes && t.contains(['/', '#']) {
                    t.push('\n');
                }
                t.push_str(" , ");
                t
            }
        });
    }
    let mut rng = crate::core::Rng::new(ctx.draw(1 << 16));
    while s.len() < total {
        if big && ctx.chance(1, 3) {
            let n = *ctx.pick(&[5_000, 70_000, 300_000, 1_000_000]);
            ctx.probe("large_token");
            match ctx.draw(8) {
                0 => s += &format!("\"{}\"", rep("a", n)),
                1 => s += &format!("\"{}\"", rep("\\n\\u20ac", n)),
                2 => s += &format!("\"{}", rep("é\u{1}\\x", n)),
                3 => s += &rep("1", n),
                4 => s += &format!("-0.{}e{}", rep("2", n), rep("3", n / 2)),
                5 => s += &rep(" \n", n),
                6 => s += &rep("nulltrue", n),
                _ => s += &format!("/{}\n", rep("/ c", n)),
            }
            s += *ctx.pick(&[",", " ", "\n,", "\",", "]"]);
        }
        for _ in 0..ctx.range(1, 400) {
            s += &pieces[(rng.next() % pieces.len() as u64) as usize];
            if s.len() > 600_000 {
                return s;
            }
        }
    }
    s
}

struct Consumer<'a> {
    ctx: &'a Ctx,
    abort: bool,
}

impl Consumer<'_> {
    fn on(&self) -> Flow<u64> {
        self.ctx.tick();
        if self.abort && self.ctx.fault("consumer_aborts", 1, 2000) {
            return Flow::Break(7);
        }
        Flow::Continue(())
    }
}

impl Report<u64> for Consumer<'_> {
    fn report_error(&mut self, _: PushError<'_>) -> Flow<u64> {
        quiet(|| self.on())
    }
    fn report_token(&mut self, _: PushToken<'_>) -> Flow<u64> {
        quiet(|| self.on())
    }
}

/// The character-fed tokenizer.
fn push(ctx: &Ctx) -> R {
    let text: Vec<char> = text(ctx, false).chars().collect();
    let flags = ctx.draw(4) as u32;
    ctx.describe(|| format!("push, flags {flags}, {} characters", text.len()));
    let want = jchar::lex(&text, flags, true);
    // Bytes of the token in progress after so many characters.
    let mut pend = vec![0usize; text.len() + 1];
    {
        let mut r = want.reps.iter().filter(|r| matches!(r.0, jchar::Rep::Token(_))).map(|r| r.1).peekable();
        for p in 0..text.len() {
            let size = text[p].len_utf8();
            let p = p + 1;
            let mut fresh = false;
            while r.peek().is_some_and(|v| *v <= p) {
                r.next();
                fresh = true;
            }
            pend[p] = if !want.busy.get(p).copied().unwrap_or(true) {
                0
            } else if fresh {
                // May have started with the character that ended the last.
                size
            } else {
                pend[p - 1] + size
            };
        }
    }
    let m = Meter::new();
    let (mut tk, ..) = m.run(|| Tokenizer::with_flags(flags));
    let mut sink = Consumer { ctx, abort: true };
    let fine = ctx.draw(3);
    for round in 0..ctx.range(1, 3) {
        let mut p = 0;
        while p < text.len() {
            let left = text.len() - p;
            let n = match fine {
                0 => left,
                1 => ctx.range(1, left.min(40)),
                _ => ctx.range(1, left.min(5000)),
            };
            let part: String = text[p..p + n].iter().collect();
            ctx.ev("push", p as u64, n as u64);
            let (r, peak, live) = m.run(|| {
                if n < 4 {
                    for c in part.chars() {
                        tk.push(&mut sink, Some(c))?;
                    }
                    Flow::Continue(())
                } else {
                    tk.push_str(&mut sink, &part).map_continue(|_| ())
                }
            });
            let most = pend[p..=p + n].iter().max().unwrap() + 4;
            ensure!(peak <= SLACK + 8 * most, "up to {peak} bytes held for tokens of up to {most} bytes (characters {p} to {})", p + n);
            p += n;
            if r.is_break() {
                ctx.probe("aborted");
                ensure!(live <= SLACK, "{live} bytes held after an abort");
                break;
            }
            ensure!(live <= SLACK + 8 * pend[p], "{live} bytes held after {p} characters with {} bytes unfinished", pend[p]);
            ctx.state(0, (live as u64 + 1).ilog2().into(), (pend[p] as u64 + 1).ilog2().into());
            if fine != 0 && ctx.fault("reset", 1, 2000) {
                ctx.probe("reset");
                let (_, _, live) = m.run(|| tk.reset());
                ensure!(live <= SLACK, "{live} bytes held after a reset");
                break;
            }
        }
        if round == 1 && ctx.chance(1, 4) {
            // A copy is on its own and no larger.
            let (c, _, live) = m.run(|| tk.clone());
            ensure!(live <= 2 * (SLACK + 8 * pend[p.min(text.len())]), "{live} bytes held with a copy");
            m.run(|| drop(c));
        }
        let (r, _, live) = m.run(|| tk.push(&mut sink, None));
        let _ = r;
        ensure!(live <= SLACK, "{live} bytes held after the end of a text");
    }
    let (_, _, live) = m.run(|| drop(tk));
    ensure!(live == 0, "{live} bytes held after the tokenizer is gone");
    Ok(())
}

/// Bytes that arrive over time.
struct Tape<'a> {
    ctx: &'a Ctx,
    data: &'a [u8],
    pos: &'a Cell<usize>,
    avail: &'a Cell<usize>,
}

impl io::stream::Read for Tape<'_> {
    fn advance(&mut self, len: usize) {
        self.pos.set((self.pos.get() + len).min(self.avail.get()));
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<io::stream::More, &[u8]> {
        let b = &self.data[self.pos.get()..self.avail.get()];
        if b.len() < min {
            return Flow::Break(io::stream::More { min, max });
        }
        let _ = self.ctx;
        Flow::Continue(b)
    }
}

fn arrival(ctx: &Ctx, chunk: usize) -> usize {
    if ctx.fault("starved_retry", 1, 200) { 0 } else { ctx.range(1, chunk) }
}

/// The byte-fed tokenizer.
fn pull(ctx: &Ctx) -> R {
    let data = text(ctx, true).into_bytes();
    ctx.describe(|| format!("pull, {} bytes", data.len()));
    let (pos, avail) = (Cell::new(0), Cell::new(0));
    let mut tape = Tape { ctx, data: &data, pos: &pos, avail: &avail };
    let chunk = *ctx.pick(&[400, 5_000, 100_000]);
    let m = Meter::new();
    let (mut dec, ..) = m.run(|| token::Dec::with(&mut tape));
    let mut base = 0;
    let mut evs = jtok::lex(&data).evs;
    let mut k = 0;
    let mut ends = 0;
    loop {
        ctx.tick();
        let (r, peak, live) = m.run(|| match dec.pop() {
            Flow::Continue(_) => Ok(()),
            Flow::Break(m) => Err(m.min),
        });
        // The token handed out last, or in progress.
        let (from, to) = match (&r, evs.get(k)) {
            (Ok(_), Some(e)) => (base + e.start, base + e.need),
            (_, Some(e)) => (base + e.start, avail.get()),
            _ => (base + evs.last().map_or(0, |e| e.end.unwrap_or(e.start)), avail.get()),
        };
        let size = to.saturating_sub(from);
        ensure!(live <= SLACK + 8 * size, "{live} bytes held at {} for a token of {size} bytes", pos.get());
        let before = k.checked_sub(1).and_then(|k| evs.get(k)).map_or(0, |e| e.need - e.start);
        ensure!(peak <= SLACK + 8 * size.max(before), "up to {peak} bytes held at {} for a token of {size} bytes", pos.get());
        ctx.state(1, (live as u64 + 1).ilog2().into(), (size as u64 + 1).ilog2().into());
        if r.is_ok() {
            k += 1;
            continue;
        }
        let end = avail.get() == data.len() || ends < 3 && ctx.fault("end_of_stream", 1, 100);
        if !end {
            let n = arrival(ctx, chunk);
            ctx.ev("deliver", n as u64, 0);
            avail.set((avail.get() + n).min(data.len()));
            continue;
        }
        ends += 1;
        for i in 0.. {
            ctx.tick();
            let (r, _, live) = m.run(|| dec.complete().is_none());
            if r {
                ctx.ev("end", i, 0);
                ensure!(live <= SLACK, "{live} bytes held after the end of a stream");
                break;
            }
        }
        if avail.get() == data.len() {
            break;
        }
        base = avail.get();
        evs = jtok::lex(&data[base..]).evs;
        k = 0;
    }
    let (_, _, live) = m.run(|| drop(dec));
    ensure!(live == 0, "{live} bytes held after the decoder is gone");
    Ok(())
}

/// The structural decoder: only nesting takes memory.
fn tree(ctx: &Ctx) -> R {
    let mut s = String::from("[");
    let piece = jgen::document(ctx).replace('\0', "");
    let total = *ctx.pick(&[5_000, 100_000, 300_000]);
    let deep = ctx.range(0, 300);
    while s.len() < total {
        s += &piece;
        s += ",[{\"k\":1,\"l\":[2]},{},[]],";
    }
    s += &"[".repeat(deep);
    s += &"]".repeat(deep);
    s += if deep == 0 { "0]" } else { "]" };
    let depth = s.bytes().fold((0i64, 0i64), |(d, m), b| {
        let d = d + matches!(b, b'[' | b'{') as i64 - matches!(b, b']' | b'}') as i64;
        (d, m.max(d))
    });
    let depth = depth.1 as usize;
    ctx.describe(|| format!("tree, {} bytes, about {depth} deep", s.len()));
    let data = s.into_bytes();
    let (pos, avail) = (Cell::new(0), Cell::new(0));
    let mut tape = Tape { ctx, data: &data, pos: &pos, avail: &avail };
    let m = Meter::new();
    let (mut dec, ..) = m.run(|| stream::Dec::with(&mut tape));
    let mut items = 0u64;
    loop {
        ctx.tick();
        let (r, peak, _) = m.run(|| match dec.pop() {
            Flow::Continue(_) => Ok(()),
            Flow::Break(m) => Err(m.min),
        });
        let n = avail.get() - pos.get() + 20_000;
        ensure!(peak <= SLACK + 8 * n + 64 * depth, "up to {peak} bytes held at {} after {items} items", pos.get());
        if r.is_ok() {
            items += 1;
            continue;
        }
        if avail.get() == data.len() {
            break;
        }
        avail.set((avail.get() + arrival(ctx, 500)).min(data.len()));
    }
    ctx.ev("items", items, 0);
    let (_, _, live) = m.run(|| drop(dec));
    ensure!(live == 0, "{live} bytes held after the decoder is gone");
    Ok(())
}

/// Output that is not kept.
struct Drain<'a> {
    ctx: &'a Ctx,
    buf: Vec<u8>,
    intr: u64,
    quiet: &'a Cell<bool>,
}

impl io::map::Write for Drain<'_> {
    unsafe fn commit(&mut self, _: usize) {}
    fn map(&mut self, _: usize, len: usize) -> Flow<Option<io::map::Error>, &mut [Uninit<u8>]> {
        quiet(|| {
            self.ctx.tick();
            if !self.quiet.get() && self.ctx.fault("interrupt_write", self.intr, 64) {
                return Flow::Break(Cause::draw(self.ctx).flow());
            }
            let n = len.min(self.buf.len());
            let w = &mut self.buf[..n];
            // SAFETY: `MaybeUninit<u8>` has the layout of `u8`.
            Flow::Continue(unsafe { &mut *(w as *mut [u8] as *mut [Uninit<u8>]) })
        })
    }
}

fn depth(p: &Plan) -> usize {
    let (mut d, mut most) = (0usize, 0);
    for s in &p.steps {
        match s.op {
            Op::Var(_) | Op::Arr | Op::Struct | Op::Dict => d += 1,
            Op::Close => d -= 1,
            _ => {}
        }
        most = most.max(d);
    }
    most
}

fn sigs(p: &Plan) -> usize {
    p.steps.iter().map(|s| if let Op::Var(t) = &s.op { t.sig().len() } else { 0 }).sum()
}

fn retry(r: &Result<(), Option<Error>>) -> bool {
    matches!(r, Err(None | Some(Error::Io(_))))
}

/// The encoder: only open containers take memory.
fn enc(ctx: &Ctx) -> R {
    let g = Gen { ctx, elems: Cell::new(ctx.size(12)), vals: Cell::new(ctx.size(20)), long: false };
    let ty = g.ty(false);
    let v = g.val(&ty, 0, false);
    let plan = Plan::new(&ty, &v, ctx.chance(1, 2));
    let whole = Ty::Arr(Box::new(ty.clone()));
    let chunk = *ctx.pick(&[1, 8, 4096]);
    let calls = *ctx.pick(&[200, 3_000, if chunk == 1 { 8_000 } else { 30_000 }]);
    let rounds = calls / plan.steps.len() + 1;
    ctx.describe(|| format!("enc, {rounds} times {}", ty.show()));
    let calm = Cell::new(true);
    let mut w = Drain { ctx, buf: vec![0; chunk], intr: *ctx.pick(&[0, 1, 16, 40]), quiet: &calm };
    let arena = Arena::default();
    let sig = arena.add(&whole);
    let bound = DSLACK + 1024 * (depth(&plan) + 1) + 256 * (sigs(&plan) + whole.sig().len());
    let m = Meter::new();
    let owned = ctx.chance(1, 2);
    let (mut enc, ..) = m.run(|| {
        let s = if owned { Mown::new_owned(Sig::arc(&whole.sig()).unwrap()) } else { Mown::new_borrowed(sig) };
        Enc::with(s, format(plan.be), &mut w)
    });
    let check = |peak: usize, what: &str, k: usize| -> R {
        ensure!(peak <= bound, "up to {peak} bytes held {what}, round {k} of {rounds} of {}; allowed {bound}", ty.show());
        Ok(())
    };
    let subs = *ctx.pick(&[0, 1, 8]);
    let apply = |enc: &mut Enc<'_, '_>, op: &Op, k: usize| -> R {
        for i in 0.. {
            calm.set(i >= 8);
            let (r, peak, _) = m.run(|| apply_enc(enc, op));
            check(peak, "in a call", k)?;
            if retry(&r) && i < 8 {
                ctx.probe("call_interrupted");
                continue;
            }
            ensure!(r.is_ok(), "{op:?} yields {r:?}");
            break;
        }
        calm.set(true);
        Ok(())
    };
    apply(&mut enc, &Op::Arr, 0)?;
    for k in 0..rounds {
        let mut at = 0;
        while at < plan.steps.len() {
            let s = &plan.steps[at];
            if subs > 0 && ctx.chance(subs, 16) && s.expect.is_some() && s.op != Op::Close {
                // Begin the value in a sub-encoder, then abandon it.
                let n = ctx.range(at, s.end.min(at + 6));
                let (sub, peak, _) = m.run(|| enc.enc());
                check(peak, "creating a sub-encoder", k)?;
                let mut sub = match sub {
                    Ok(v) => v,
                    Err(e) => fail!("sub-encoder refused: {e:?}"),
                };
                for s in &plan.steps[at..n] {
                    apply(&mut sub, &s.op, k)?;
                }
                let whole = n == s.end && ctx.chance(1, 2);
                if whole {
                    let (r, ..) = m.run(|| sub.commit());
                    ensure!(r.is_ok(), "finishing a sub-encoder yields {r:?}");
                }
                let (_, peak, _) = m.run(|| drop(sub));
                check(peak, "dropping a sub-encoder", k)?;
                if whole {
                    ctx.probe("sub_finished");
                    at = n;
                    continue;
                }
                ctx.probe("sub_abandoned");
            }
            apply(&mut enc, &s.op, k)?;
            at += 1;
        }
    }
    apply(&mut enc, &Op::Close, rounds)?;
    ctx.ev("calls", (rounds * plan.steps.len()) as u64, plan.steps.len() as u64);
    ctx.state(2, depth(&plan) as u64, rounds.ilog2() as u64);
    let (r, ..) = m.run(|| enc.commit());
    ensure!(r.is_ok(), "finishing yields {r:?}");
    let (_, _, live) = m.run(|| drop(enc));
    ensure!(live == 0, "{live} bytes held after the encoder is gone");
    Ok(())
}

fn apply_enc(enc: &mut Enc<'_, '_>, op: &Op) -> Result<(), Option<Error>> {
    let r = match op {
        Op::U16(v) => enc.u16(*v).map_continue(|_| ()),
        Op::U32(v) => enc.u32(*v).map_continue(|_| ()),
        Op::U64(v) => enc.u64(*v).map_continue(|_| ()),
        Op::Str(v) => enc.string(v).map_continue(|_| ()),
        Op::Obj(v) => enc.object(v).map_continue(|_| ()),
        Op::Sig(v) => enc.signature(v).map_continue(|_| ()),
        Op::Var(t) => {
            let s = quiet(|| t.sig());
            let r = enc.variant_with(Mown::new_owned(Sig::arc(&s).unwrap())).map_continue(|_| ());
            quiet(|| drop(s));
            r
        }
        Op::Arr => enc.array().map_continue(|_| ()),
        Op::Struct => enc.structure().map_continue(|_| ()),
        Op::Dict => enc.dict().map_continue(|_| ()),
        Op::Close => enc.close().map_continue(|_| ()),
    };
    match r {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

/// Input with interruptions.
struct Source<'a> {
    ctx: &'a Ctx,
    data: &'a [u8],
    chunk: usize,
    intr: u64,
    quiet: &'a Cell<bool>,
}

impl io::map::Read for Source<'_> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<io::map::Error>, &[u8]> {
        quiet(|| {
            self.ctx.tick();
            if !self.quiet.get() && self.ctx.fault("interrupt_read", self.intr, 64) {
                return Flow::Break(Cause::draw(self.ctx).flow());
            }
            let Some(d) = self.data.get(idx..) else { return Flow::Break(Some(io::map::Error::Exceeded)) };
            if d.is_empty() && len > 0 {
                return Flow::Break(Some(io::map::Error::Exceeded));
            }
            Flow::Continue(&d[..len.min(self.chunk).min(d.len())])
        })
    }
}

/// The decoder: only open arrays, and the value in progress, take memory.
fn dec(ctx: &Ctx) -> R {
    let g = Gen { ctx, elems: Cell::new(ctx.size(6)), vals: Cell::new(ctx.size(10)), long: ctx.chance(1, 8) };
    let ty = g.dec_ty();
    let v = g.val(&ty, 0, true);
    let be = ctx.chance(1, 2);
    let one = Plan::new(&ty, &v, be);
    let n = (*ctx.pick(&[200, 3_000, 20_000]) / one.steps.len()).min(4_000_000 / one.bytes.len().max(1)) + 1;
    let whole = Ty::Arr(Box::new(ty.clone()));
    let plan = Plan::new(&whole, &Val::Arr(ty.clone(), vec![v; n]), be);
    ctx.describe(|| format!("dec, {n} times {}", ty.show()));
    let longest = one.steps.iter().map(|s| if let Op::Str(v) | Op::Sig(v) = &s.op { v.len() } else { 0 }).max().unwrap_or(0);
    let bound = DSLACK + 1024 * depth(&plan) + 256 * whole.sig().len() + 4 * longest;
    let calm = Cell::new(true);
    let mut src = Source { ctx, data: &plan.bytes, chunk: (*ctx.pick(&[1, 8, 1 << 20])).max(plan.bytes.len() / 50_000), intr: *ctx.pick(&[0, 1, 16, 40]), quiet: &calm };
    let arena = Arena::default();
    let sig = arena.add(&whole);
    let m = Meter::new();
    let (mut dec, ..) = m.run(|| Dec::with(Mown::new_borrowed(sig), format(be), &mut src));
    let check = |peak: usize, what: &str, k: usize| -> R {
        ensure!(peak <= bound, "up to {peak} bytes held {what}, call {k} of {} of {n} times {}; allowed {bound}", plan.steps.len(), ty.show());
        Ok(())
    };
    let apply = |dec: &mut Dec<'_, '_>, op: &Op, k: usize| -> R {
        for i in 0.. {
            calm.set(i >= 8);
            let (r, peak, _) = m.run(|| {
                let r = match op {
                    Op::U16(_) => dec.u16(&mut 0).map_continue(|_| ()),
                    Op::Str(_) => dec.string(&mut String::new()).map_continue(|_| ()),
                    Op::Sig(_) => dec.signature(&mut String::new()).map_continue(|_| ()),
                    Op::Arr => dec.array().map_continue(|_| ()),
                    _ => dec.close().map_continue(|_| ()),
                };
                match r {
                    Flow::Continue(_) => Ok(()),
                    Flow::Break(e) => Err(e),
                }
            });
            check(peak, "in a call", k)?;
            if retry(&r) && i < 8 {
                ctx.probe("call_interrupted");
                continue;
            }
            ensure!(r.is_ok(), "{op:?} yields {r:?}");
            break;
        }
        calm.set(true);
        Ok(())
    };
    let subs = *ctx.pick(&[0, 1, 8]);
    let mut at = 0;
    while at < plan.steps.len() {
        let s = &plan.steps[at];
        if at > 0 && subs > 0 && ctx.chance(subs, 16) && s.expect.is_some() && s.op != Op::Close {
            let to = ctx.range(at, s.end.min(at + 6));
            let (sub, peak, _) = m.run(|| dec.dec());
            check(peak, "creating a sub-decoder", at)?;
            let mut sub = match sub {
                Ok(v) => v,
                Err(e) => fail!("sub-decoder refused: {e:?}"),
            };
            for s in &plan.steps[at..to] {
                apply(&mut sub, &s.op, at)?;
            }
            let whole = to == s.end && ctx.chance(1, 2);
            if whole {
                let (r, ..) = m.run(|| sub.commit());
                ensure!(r.is_ok(), "finishing a sub-decoder yields {r:?}");
            }
            let (_, peak, _) = m.run(|| drop(sub));
            check(peak, "dropping a sub-decoder", at)?;
            if whole {
                ctx.probe("sub_finished");
                at = to;
                continue;
            }
            ctx.probe("sub_abandoned");
        }
        apply(&mut dec, &s.op, at)?;
        at += 1;
    }
    ctx.ev("calls", plan.steps.len() as u64, plan.bytes.len() as u64);
    ctx.state(3, depth(&plan) as u64, n.ilog2() as u64);
    let (r, ..) = m.run(|| dec.commit());
    ensure!(r.is_ok(), "finishing yields {r:?}");
    let (_, _, live) = m.run(|| drop(dec));
    ensure!(live == 0, "{live} bytes held after the decoder is gone");
    Ok(())
}
