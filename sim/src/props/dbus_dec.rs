//! C05-C07: the D-Bus decoder.

use crate::core::{Ctx, R};
use crate::env::map::{Profile, RShared, SimRead};
use crate::heap;
use crate::model::dbus::{Gen, Op, Plan, Ty};
use crate::props::dbus_enc::{format, Arena};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::mown::Mown;
use std::cell::Cell;
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use tmp::fmt::dbus::dvar::Dec;
use tmp::fmt::dbus::{ende, Error, Sig};
use tmp::io::map;

const REAL: &str = "tmp::fmt::dbus::{dvar::Dec (including sub-decoders), signature, element}, tmp::io::map::Read helpers, osi::mown";
const STUB: &str = "input memory (map::Read) with seeded chunking, over-long pieces, interruptions, damage; callers; reference is an independent recursive marshaller and a positional reference decoder";
const RULE: &str = "one evaluation = one decoder history over one message; distinct = distinct event logs (every input mapping with offset, length, granted extent and outcome, every interruption, every call and value)";
const ASSUME: &[&str] = &[
    "types the decoder has calls for (q, s, g and arrays; others only as element types of empty arrays)",
    "arrays are closed after their last element; a missing or non-zero string terminator may be accepted or refused",
];

pub const C05: Prop = Prop {
    id: "C05", units: 120_000, sweep: true, run: run_c05,
    real: REAL, stub: STUB, rule: RULE, assumptions: ASSUME,
};
pub const C06: Prop = Prop {
    id: "C06", units: 250_000, sweep: true, run: run_c06,
    real: REAL, stub: STUB, rule: RULE, assumptions: ASSUME,
};
pub const C07: Prop = Prop {
    id: "C07", units: 40_000, sweep: true, run: run_c07,
    real: REAL, stub: STUB, rule: RULE, assumptions: ASSUME,
};

type Res = Result<(), Option<Error>>;

fn flow<T>(v: Flow<Option<Error>, T>) -> Res {
    match v {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

pub fn root<'s, 'r>(ctx: &Ctx, arena: &'s Arena, ty: &Ty, be: bool, r: &'r mut dyn map::Read) -> Dec<'s, 'r> {
    match ctx.draw(4) {
        0 if be => Dec::new_be(arena.add(ty), r),
        0 => Dec::new_le(arena.add(ty), r),
        1 => Dec::with(Mown::new_borrowed(arena.add(ty)), format(be), r),
        2 => {
            let format = if be { ende::Format::DVarBe } else { ende::Format::DVarLe };
            #[allow(unreachable_patterns)]
            match ende::Dec::new(arena.add(ty), format, r) {
                ende::Dec::DVar(v) => v,
                _ => unreachable!(),
            }
        }
        _ => Dec::with(Mown::new_owned(Sig::arc(&ty.sig()).unwrap()), format(be), r),
    }
}

const S16: u16 = 0xbeef;
const SSTR: &str = "sentinel";

/// One decoder call; returns the value read and whether the target was
/// changed in spite of a failure.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    U16,
    Str,
    Sig,
    Arr,
    Close,
}

impl Kind {
    const ALL: [Kind; 5] = [Kind::U16, Kind::Str, Kind::Sig, Kind::Arr, Kind::Close];
    fn code(self) -> Option<u8> {
        match self {
            Kind::U16 => Some(b'q'),
            Kind::Str => Some(b's'),
            Kind::Sig => Some(b'g'),
            Kind::Arr => Some(b'a'),
            Kind::Close => None,
        }
    }
    fn of(op: &Op) -> Kind {
        match op {
            Op::U16(_) => Kind::U16,
            Op::Str(_) => Kind::Str,
            Op::Sig(_) => Kind::Sig,
            Op::Arr => Kind::Arr,
            Op::Close => Kind::Close,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Got {
    Num(u16),
    Text(String),
    Unit,
}

fn apply(dec: &mut Dec<'_, '_>, k: Kind) -> R<Result<Got, Option<Error>>> {
    Ok(match k {
        Kind::U16 => {
            let mut v = S16;
            let r = flow(dec.u16(&mut v));
            ensure!(r.is_ok() || v == S16, "{k:?}: {r:?} but the value was set to {v:#x}");
            r.map(|_| Got::Num(v))
        }
        Kind::Str | Kind::Sig => {
            let mut v = SSTR.to_string();
            let r = if k == Kind::Str { flow(dec.string(&mut v)) } else { flow(dec.signature(&mut v)) };
            ensure!(std::str::from_utf8(v.as_bytes()).is_ok(), "{k:?}: text is not valid UTF-8");
            ensure!(r.is_ok() || v == SSTR, "{k:?}: {r:?} but the text was set");
            r.map(|_| Got::Text(v))
        }
        Kind::Arr => flow(dec.array()).map(|_| Got::Unit),
        Kind::Close => flow(dec.close()).map(|_| Got::Unit),
    })
}

struct Drv<'a> {
    ctx: &'a Ctx,
    plan: &'a Plan,
    sh: Rc<RShared>,
    wrong: u64,
    sub: u64,
    depth: usize,
    work: &'a Cell<u32>,
}

impl Drv<'_> {
    /// If the input broke, the result must be exactly that.
    fn through<T: std::fmt::Debug + PartialEq>(&self, k: &dyn std::fmt::Debug, r: Result<T, Option<Error>>) -> R<Option<Result<T, Option<Error>>>> {
        if let Some(c) = self.sh.broke.take() {
            let want = c.flow().map(Error::Io);
            ensure!(r == Err(want), "{k:?}: input broke with {want:?} but the call returned {r:?}");
            return Ok(None);
        }
        Ok(Some(r))
    }

    fn check_more(&self, dec: &Dec<'_, '_>, lo: usize, p: usize, hi: usize) -> R {
        let want = p < hi && matches!(self.plan.steps[p].cont, Some((c, b'a')) if c >= lo) && self.plan.steps[p].left > 0;
        ensure!(dec.more() == want, "more() is {} before call {p} of {lo}..{hi}", dec.more());
        Ok(())
    }

    fn refuse(&self, dec: &mut Dec<'_, '_>, lo: usize, p: usize, hi: usize) -> R {
        let ctx = self.ctx;
        ctx.tick();
        let step = (p < hi).then(|| &self.plan.steps[p]);
        if p < hi && ctx.chance(1, 5) {
            let r = dec.commit();
            ensure!(r == Err(Error::Pending), "finishing at call {p} of {lo}..{hi} yields {r:?}");
            ctx.probe("refused_pending");
            return Ok(());
        }
        let expect = step.and_then(|s| s.expect.as_ref());
        if ctx.chance(1, 5) {
            if expect.is_none() {
                ensure!(
                    dec.dec().map(|_| ()) == Err(Error::Mismatch),
                    "sub-decoder granted where no value is expected"
                );
                ctx.probe("refused_sub");
            }
            let t = Gen { ctx, elems: Cell::new(3), vals: Cell::new(3), long: false };
            let t = match expect {
                Some(v) if ctx.chance(1, 2) => t.near(v),
                _ if ctx.chance(1, 2) => t.dec_ty(),
                _ => t.ty(true),
            };
            let want = if expect == Some(&t) { Ok(()) } else { Err(Error::Mismatch) };
            let r = if ctx.chance(1, 2) {
                dec.dec_with(Mown::new_owned(Sig::arc(&t.sig()).unwrap())).map(|_| ())
            } else {
                let s = Sig::new(&t.sig()).unwrap();
                dec.dec_with(Mown::new_borrowed(&*s)).map(|_| ())
            };
            ensure!(r == want, "sub-decoder for {} yields {r:?}", t.show());
            return Ok(());
        }
        let k = *ctx.pick(&Kind::ALL);
        let fits = match k.code() {
            Some(c) => expect.map(|t| t.code()) == Some(c),
            // Arrays may be closed any time, so never try there.
            None => matches!(step.and_then(|s| s.cont), Some((c, _)) if c >= lo),
        };
        if fits {
            return Ok(());
        }
        let r = apply(dec, k)?;
        if let Some(r) = self.through(&k, r)? {
            ensure!(r == Err(Some(Error::Mismatch)), "misplaced {k:?} yields {r:?}");
            ctx.probe("refused_mismatch");
            ctx.ev("refused", k as u64, 0);
        }
        Ok(())
    }

    fn drive(&self, dec: &mut Dec<'_, '_>, (lo, hi): (usize, usize), from: usize, stop: usize) -> R {
        let ctx = self.ctx;
        let mut p = from;
        while p < stop {
            let s = &self.plan.steps[p];
            self.work.set(self.work.get().saturating_sub(1));
            ctx.state(
                s.op.code().unwrap_or(b'.') as u64,
                s.off as u64 % 8,
                s.cont.map_or(0, |c| c.1) as u64 | (self.depth as u64) << 8,
            );
            self.check_more(dec, lo, p, hi)?;
            while self.wrong > 0 && ctx.chance(self.wrong, 16) {
                self.refuse(dec, lo, p, hi)?;
            }
            if self.sub > 0 && self.work.get() > 0 && s.expect.is_some() {
                if let Some(n) = self.sub(dec, p, stop)? {
                    p = n;
                    continue;
                }
            }
            self.call(dec, lo, p, hi)?;
            p += 1;
        }
        self.check_more(dec, lo, p, hi)?;
        if self.wrong > 0 && p == hi {
            while ctx.chance(self.wrong, 16) {
                self.refuse(dec, lo, p, hi)?;
            }
        }
        Ok(())
    }

    fn call(&self, dec: &mut Dec<'_, '_>, lo: usize, p: usize, hi: usize) -> R {
        let s = &self.plan.steps[p];
        let k = Kind::of(&s.op);
        let intr = !self.sh.quiet.get();
        for i in 0.. {
            self.sh.quiet.set(!intr || i >= 6);
            self.ctx.tick();
            let r = apply(dec, k)?;
            let Some(r) = self.through(&k, r)? else {
                self.ctx.probe("call_interrupted");
                self.check_more(dec, lo, p, hi)?;
                if self.wrong > 0 {
                    self.refuse(dec, lo, p, hi)?;
                }
                continue;
            };
            let want = match &s.op {
                Op::U16(v) => Got::Num(*v),
                Op::Str(v) | Op::Sig(v) => Got::Text(v.clone()),
                _ => Got::Unit,
            };
            ensure!(r == Ok(want), "call {p} {:?} yields {r:?}", s.op);
            self.ctx.ev("ok", k as u64, p as u64);
            break;
        }
        self.sh.quiet.set(!intr);
        Ok(())
    }

    fn sub(&self, dec: &mut Dec<'_, '_>, p: usize, stop: usize) -> R<Option<usize>> {
        let ctx = self.ctx;
        let s = &self.plan.steps[p];
        let ty = s.expect.as_ref().unwrap();
        for _ in 0..2 {
            if !ctx.fault("drop_sub_decoder", 1, 6) {
                break;
            }
            let mut sub = match dec.dec() {
                Ok(v) => v,
                Err(e) => fail!("sub-decoder for {} is refused: {e:?}", ty.show()),
            };
            if s.op == Op::Close {
                // Past the last element: nothing to read, but granted.
                let r = sub.commit();
                ensure!(r == Err(Error::Pending), "finishing an unused sub-decoder yields {r:?}");
                continue;
            }
            let d = Drv { depth: self.depth + 1, sh: self.sh.clone(), sub: if self.depth < 3 { self.sub } else { 0 }, ..*self };
            let q = ctx.range(p, s.end);
            ctx.ev("abandon", p as u64, (q - p) as u64);
            d.drive(&mut sub, (p, s.end), p, q)?;
            if q < s.end {
                let r = sub.commit();
                ensure!(r == Err(Error::Pending), "finishing an incomplete sub-decoder yields {r:?}");
                if ctx.chance(1, 3) {
                    d.drive(&mut sub, (p, s.end), q, s.end)?;
                }
            }
            ctx.probe("sub_abandoned");
        }
        if s.op == Op::Close || s.end > stop || self.depth > 30 || !ctx.chance(self.sub, 16) {
            return Ok(None);
        }
        let name = Sig::new(&ty.sig()).unwrap();
        let r = match ctx.draw(3) {
            0 => dec.dec(),
            1 => dec.dec_with(Mown::new_borrowed(&*name)),
            _ => dec.dec_with(Mown::new_owned(Sig::arc(&ty.sig()).unwrap())),
        };
        let mut sub = match r {
            Ok(v) => v,
            Err(e) => fail!("sub-decoder for {} is refused: {e:?}", ty.show()),
        };
        ctx.ev("sub", p as u64, self.depth as u64);
        let d = Drv { depth: self.depth + 1, sh: self.sh.clone(), ..*self };
        d.drive(&mut sub, (p, s.end), p, s.end)?;
        let r = sub.commit();
        ensure!(r == Ok(()), "finishing a complete sub-decoder yields {r:?}");
        ctx.probe("sub_committed");
        if ctx.chance(1, 4) {
            let r = sub.commit();
            ensure!(r == Ok(()), "finishing a sub-decoder again yields {r:?}");
        }
        if ctx.chance(1, 4) {
            d.refuse(&mut sub, p, s.end, s.end)?;
        }
        Ok(Some(s.end))
    }
}

fn plan(ctx: &Ctx) -> Plan {
    let g = Gen::new(ctx);
    let ty = g.dec_ty();
    let val = g.val(&ty, 0, true);
    let p = Plan::new(&ty, &val, ctx.chance(1, 2));
    ctx.describe(|| {
        format!(
            "{} {} calls={} bytes={}",
            p.ty.show(), if p.be { "BE" } else { "LE" }, p.steps.len(), p.bytes.len()
        )
    });
    p
}

fn session(ctx: &Ctx, wrong: u64, sub: u64) -> R {
    let p = plan(ctx);
    let mut prof = Profile::draw(ctx);
    if p.bytes.len() > 5_000 && prof.chunk != 0 {
        prof.chunk = 3;
    }
    let mut data = p.bytes.clone();
    // What follows the message is none of its business.
    let n = ctx.size(20);
    data.extend(ctx.bytes(n));
    // A terminator at the very end needs to be there.
    let mut r = SimRead::new(ctx, prof, data);
    let sh = r.sh.clone();
    let arena = Arena::default();
    let work = Cell::new(2000);
    let d = Drv { ctx, plan: &p, sh, wrong, sub, depth: 0, work: &work };
    let mut dec = root(ctx, &arena, &p.ty, p.be, &mut r);
    let all = p.steps.len();
    d.drive(&mut dec, (0, all), 0, all)?;
    let r = dec.commit();
    ensure!(r == Ok(()), "finishing a complete message yields {r:?}");
    for _ in 0..ctx.range(0, 2) {
        if wrong > 0 {
            d.refuse(&mut dec, 0, all, all)?;
        }
        let r = dec.commit();
        ensure!(r == Ok(()), "finishing again yields {r:?}");
    }
    Ok(())
}

fn run_c05(ctx: &Ctx) -> R {
    let wrong = *ctx.pick(&[0, 0, 4]);
    session(ctx, wrong, 0)
}

fn run_c07(ctx: &Ctx) -> R {
    let wrong = *ctx.pick(&[0, 4]);
    let sub = *ctx.pick(&[4, 8, 14]);
    session(ctx, wrong, sub)
}

/// What the bytes at a position say.
#[derive(Debug)]
enum Ref {
    /// Value, next position, whether refusing it is fine as well.
    Value(Got, usize, bool),
    /// Data ends early.
    Short,
    NonUtf8,
}

fn reference(data: &[u8], be: bool, pos: usize, k: Kind) -> Ref {
    let get = |p: usize, n: usize| data.get(p..p.checked_add(n)?);
    match k {
        Kind::U16 => {
            let p = pos.next_multiple_of(2);
            let Some(b) = get(p, 2) else { return Ref::Short };
            let b: [u8; 2] = b.try_into().unwrap();
            Ref::Value(Got::Num(if be { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }), p + 2, false)
        }
        Kind::Str | Kind::Sig => {
            let (p, n) = if k == Kind::Str {
                let p = pos.next_multiple_of(4);
                let Some(b) = get(p, 4) else { return Ref::Short };
                let b: [u8; 4] = b.try_into().unwrap();
                (p + 4, if be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) } as usize)
            } else {
                let Some(b) = get(pos, 1) else { return Ref::Short };
                (pos + 1, b[0] as usize)
            };
            let Some(t) = get(p, n) else { return Ref::Short };
            match std::str::from_utf8(t) {
                Ok(v) => Ref::Value(Got::Text(v.to_string()), p + n + 1, data.get(p + n) != Some(&0)),
                Err(_) => Ref::NonUtf8,
            }
        }
        Kind::Arr | Kind::Close => unreachable!(),
    }
}

/// Returns position of the first element and end of the array.
fn reference_array(data: &[u8], be: bool, pos: usize, elem: &Ty) -> Option<(usize, usize)> {
    let p = pos.next_multiple_of(4);
    let b: [u8; 4] = data.get(p..p + 4)?.try_into().unwrap();
    let n = if be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) } as usize;
    let from = (p + 4).next_multiple_of(elem.align());
    Some((from, from + n))
}

struct Hostile<'a> {
    ctx: &'a Ctx,
    data: &'a [u8],
    be: bool,
    sh: Rc<RShared>,
    steps: Cell<usize>,
    sub: u64,
}

/// How a walk over one value ended.
enum Walk {
    /// Complete, at this position.
    At(usize),
    /// Stuck at an error, or the position is no longer defined.
    Stuck,
}

impl Hostile<'_> {
    /// One call with the memory bound enforced, repeated while interrupted.
    fn call(&self, dec: &mut Dec<'_, '_>, k: Kind) -> R<Result<Got, Option<Error>>> {
        let intr = !self.sh.quiet.get();
        let mut i = 0;
        let out = loop {
            self.sh.quiet.set(!intr || i >= 6);
            i += 1;
            self.ctx.tick();
            let base = heap::begin();
            let r = apply(dec, k)?;
            let peak = heap::peak(base);
            let bound = 16 * self.data.len() + 4096;
            ensure!(peak <= bound, "{k:?} used {peak} bytes of memory on an input of {} bytes", self.data.len());
            if let Some(c) = self.sh.broke.take() {
                let want = c.flow().map(Error::Io);
                ensure!(r == Err(want), "{k:?}: input broke with {want:?} but the call returned {r:?}");
                if self.sh.past.get() {
                    break r;
                }
                continue;
            }
            break r;
        };
        self.sh.quiet.set(!intr);
        if let Ok(v) = &out {
            match v {
                Got::Num(v) => self.ctx.ev("num", *v as u64, 0),
                Got::Text(v) => self.ctx.ev_str("text", v),
                Got::Unit => self.ctx.ev("unit", k as u64, 0),
            }
        } else {
            self.ctx.ev("error", k as u64, 0);
        }
        Ok(out)
    }

    /// A refused call must be refused again, and others stay misplaced.
    fn stuck(&self, dec: &mut Dec<'_, '_>, k: Kind, err: &Option<Error>) -> R {
        self.ctx.probe("stuck_at_error");
        for _ in 0..self.ctx.range(1, 3) {
            if self.ctx.chance(1, 2) {
                let o = *self.ctx.pick(&[Kind::U16, Kind::Str, Kind::Sig, Kind::Arr]);
                if o != k {
                    let r = apply(dec, o)?;
                    self.sh.broke.take();
                    ensure!(r.is_err(), "misplaced {o:?} after an error yields {r:?}");
                }
            }
            let more = dec.more();
            let r = self.call(dec, k)?;
            ensure!(r == Err(*err), "{k:?} first failed with {err:?}, then yields {r:?}");
            ensure!(dec.more() == more, "more() changed by a failed call");
        }
        Ok(())
    }

    fn value(&self, dec: &mut Dec<'_, '_>, ty: &Ty, pos: usize, depth: usize) -> R<Walk> {
        let ctx = self.ctx;
        if self.steps.get() == 0 {
            return Ok(Walk::Stuck);
        }
        self.steps.set(self.steps.get() - 1);
        if depth < 30 && ctx.chance(self.sub, 16) {
            let mut sub = match dec.dec() {
                Ok(v) => v,
                Err(e) => fail!("sub-decoder refused: {e:?}"),
            };
            let w = self.value(&mut sub, ty, pos, depth + 1)?;
            if let Walk::At(_) = w {
                if ctx.chance(3, 4) {
                    let r = sub.commit();
                    ensure!(r == Ok(()), "finishing a complete sub-decoder yields {r:?}");
                    return Ok(w);
                }
                // Dropped: read it again below.
            }
        }
        if !ty.decodable() {
            return Ok(Walk::Stuck);
        }
        let Ty::Arr(elem) = ty else {
            let k = match ty.code() {
                b'q' => Kind::U16,
                b's' => Kind::Str,
                _ => Kind::Sig,
            };
            let r = self.call(dec, k)?;
            let want = reference(self.data, self.be, pos, k);
            ctx.state(k as u64, matches!(want, Ref::Value(..)) as u64, pos as u64 % 8);
            return match (&r, want) {
                (Ok(v), Ref::Value(w, next, _)) => {
                    ensure!(*v == w, "{k:?} at {pos} yields {v:?} instead of {w:?}");
                    Ok(Walk::At(next))
                }
                (Err(e), Ref::Value(_, _, true)) => {
                    self.stuck(dec, k, e)?;
                    Ok(Walk::Stuck)
                }
                (Err(Some(Error::Io(_))), Ref::Short) | (Err(Some(Error::DataNonUtf8)), Ref::NonUtf8) => {
                    self.stuck(dec, k, r.as_ref().unwrap_err())?;
                    Ok(Walk::Stuck)
                }
                (_, want) => fail!("{k:?} at {pos} yields {r:?}, expected {want:?}"),
            };
        };
        let r = self.call(dec, Kind::Arr)?;
        let Some((mut at, end)) = reference_array(self.data, self.be, pos, elem) else {
            let Err(e @ Some(Error::Io(_))) = r else { fail!("truncated array yields {r:?}") };
            self.stuck(dec, Kind::Arr, &e)?;
            return Ok(Walk::Stuck);
        };
        if let Err(e) = r {
            ensure!(end > self.data.len(), "array at {pos} is refused: {e:?}");
            self.stuck(dec, Kind::Arr, &e)?;
            return Ok(Walk::Stuck);
        }
        ctx.state(9, (end > self.data.len()) as u64, at as u64 % 8);
        while at < end {
            ensure!(dec.more(), "more() is false at {at} of an array up to {end}");
            match self.value(dec, elem, at, depth)? {
                Walk::At(n) => at = n,
                Walk::Stuck => return Ok(Walk::Stuck),
            }
        }
        ensure!(!dec.more(), "more() is true at {at} of an array up to {end}");
        let r = self.call(dec, Kind::Close)?;
        if at > end {
            // The last element crosses the end of the array: no defined
            // position to continue at.
            ctx.probe("element_crosses_array_end");
            return Ok(Walk::Stuck);
        }
        ensure!(r == Ok(Got::Unit), "closing a completely read array yields {r:?}");
        Ok(Walk::At(at))
    }
}

fn run_c06(ctx: &Ctx) -> R {
    let p = plan(ctx);
    let mut data = p.bytes.clone();
    if data.len() > 3000 {
        data.truncate(3000);
    }
    // Truncation at every byte of small messages is swept.
    if data.len() <= 120 {
        for k in 0..data.len() {
            if ctx.fault("truncated", 1, 120) {
                data.truncate(k);
                break;
            }
        }
    } else if ctx.fault("truncated", 1, 3) {
        data.truncate(ctx.below(data.len()));
    }
    if ctx.fault("bits_flipped", 1, 3) && !data.is_empty() {
        for _ in 0..ctx.range(1, 4) {
            let i = ctx.below(data.len());
            data[i] ^= 1 << ctx.draw(8);
        }
    }
    if ctx.fault("length_overwritten", 1, 3) && data.len() >= 4 {
        let i = ctx.below(data.len() / 4) * 4;
        let v = *ctx.pick(&[u32::MAX, 0x7fff_ffff, 0x8000_0000, 0x1000_0000, 0xffff, 0xff, 5, 1, 0]);
        let v = v.wrapping_sub(ctx.draw(3) as u32);
        let b = if p.be { v.to_be_bytes() } else { v.to_le_bytes() };
        data[i..i + 4].copy_from_slice(&b);
    }
    if ctx.fault("made_up", 1, 8) {
        let n = ctx.size(200);
        data = ctx.bytes(n);
        if ctx.chance(1, 2) {
            // Small numbers make plausible lengths.
            data.iter_mut().enumerate().for_each(|(i, b)| *b = if i % 4 == 3 * (p.be as usize) { *b & 31 } else { 0 });
        }
    }
    ctx.ev_bytes("input", &data);
    let mut prof = Profile::draw(ctx);
    if data.len() > 1000 && prof.chunk != 0 {
        prof.chunk = 3;
    }
    let mut plain = data.clone();
    let mut sim = SimRead::new(ctx, prof, data.clone());
    let sh = sim.sh.clone();
    // Also run against the real in-memory input.
    let use_plain = ctx.chance(1, 4);
    let sub = *ctx.pick(&[0, 0, 3]);
    let arena = Arena::default();
    let h = Hostile { ctx, data: &data, be: p.be, sh, steps: Cell::new(400), sub };
    let mut slice: &[u8] = &plain;
    let mut wrap = Slice(&mut slice);
    let mut dec = if use_plain {
        root(ctx, &arena, &p.ty, p.be, &mut wrap)
    } else {
        root(ctx, &arena, &p.ty, p.be, &mut sim)
    };
    if let Walk::At(_) = h.value(&mut dec, &p.ty, 0, 0)? {
        let r = dec.commit();
        ensure!(r == Ok(()), "finishing a completely read message yields {r:?}");
    }
    drop(dec);
    plain.clear();
    Ok(())
}

/// `[u8]` is unsized, so forward to it.
struct Slice<'a, 'b>(&'a mut &'b [u8]);

impl map::Read for Slice<'_, '_> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        map::Read::map(*self.0, idx, len)
    }
}
