//! C01-C04: the D-Bus encoder.

use crate::core::{Ctx, R};
use crate::env::map::{Profile, SimWrite, WShared};
use crate::model::dbus::{Gen, Op, Plan, Step, Ty};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::mown::Mown;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::mem::MaybeUninit as Uninit;
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use tmp::fmt::dbus::dvar::{Enc, Format};
use tmp::fmt::dbus::{ende, Error, Sig};
use tmp::io::map;

const STUB: &str = "output memory (map::Write) with seeded chunking, over-long pieces, stale content, interruptions; callers; reference is an independent recursive marshaller";
const RULE: &str = "one evaluation = one encoder history; distinct = distinct event logs (every output mapping with offset, length, granted extent and outcome, every interruption, every call)";
const ASSUME: &[&str] = &[
    "types the encoder has calls for (others only as element types of empty arrays), up to about 200 type elements and 150 values, strings up to 300000 bytes",
];

pub const C01: Prop = Prop {
    id: "C01",
    units: 60_000,
    sweep: true,
    run: run_c01,
    real: "tmp::fmt::dbus::{dvar::Enc, signature, element}, tmp::io::map::Write helpers, osi::mown",
    stub: STUB,
    rule: RULE,
    assumptions: ASSUME,
};

pub const C02: Prop = Prop {
    id: "C02",
    units: 24_000,
    sweep: true,
    run: run_c02,
    real: "tmp::fmt::dbus::{dvar::Enc, signature, element}, tmp::io::map::Write helpers, osi::mown",
    stub: STUB,
    rule: RULE,
    assumptions: ASSUME,
};

pub const C03: Prop = Prop {
    id: "C03",
    units: 50_000,
    sweep: true,
    run: run_c03,
    real: "tmp::fmt::dbus::{dvar::Enc, signature, element}, tmp::io::map::Write helpers, osi::mown",
    stub: STUB,
    rule: RULE,
    assumptions: ASSUME,
};

pub const C04: Prop = Prop {
    id: "C04",
    units: 24_000,
    sweep: true,
    run: run_c04,
    real: "tmp::fmt::dbus::{dvar::Enc (including sub-encoders), signature, element}, tmp::io::map::Write helpers, osi::mown",
    stub: STUB,
    rule: RULE,
    assumptions: ASSUME,
};

/// Signatures that outlive the encoders of one execution.
#[derive(Default)]
pub struct Arena(RefCell<Vec<Box<Sig>>>);

impl Arena {
    pub fn add(&self, ty: &Ty) -> &Sig {
        let s = Sig::new(&ty.sig()).unwrap();
        let p: *const Sig = &*s;
        self.0.borrow_mut().push(s);
        // SAFETY: boxes are never dropped or replaced before the arena.
        unsafe { &*p }
    }
}

pub fn format(be: bool) -> Format {
    if be { Format::DVarBe } else { Format::DVarLe }
}

type Res = Result<(), Option<Error>>;

fn flow<T>(v: Flow<Option<Error>, T>) -> Res {
    match v {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

pub fn apply<'s>(ctx: &Ctx, arena: &'s Arena, enc: &mut Enc<'s, '_>, op: &Op) -> Res {
    match op {
        Op::U16(v) => flow(enc.u16(*v)),
        Op::U32(v) => flow(enc.u32(*v)),
        Op::U64(v) => flow(enc.u64(*v)),
        Op::Str(v) => flow(enc.string(v)),
        Op::Obj(v) => flow(enc.object(v)),
        Op::Sig(v) => flow(enc.signature(v)),
        Op::Var(t) => match ctx.draw(3) {
            0 => flow(enc.variant(arena.add(t))),
            1 => flow(enc.variant_with(Mown::new_borrowed(arena.add(t)))),
            _ => flow(enc.variant_with(Mown::new_owned(Sig::arc(&t.sig()).unwrap()))),
        },
        Op::Arr => flow(enc.array()),
        Op::Struct => flow(enc.structure()),
        Op::Dict => flow(enc.dict()),
        Op::Close => flow(enc.close()),
    }
}

pub fn root<'s, 'w>(ctx: &Ctx, arena: &'s Arena, ty: &Ty, be: bool, w: &'w mut dyn map::Write) -> Enc<'s, 'w> {
    match ctx.draw(4) {
        0 if be => Enc::new_be(arena.add(ty), w),
        0 => Enc::new_le(arena.add(ty), w),
        1 => Enc::with(Mown::new_borrowed(arena.add(ty)), format(be), w),
        2 => {
            let format = if be { ende::Format::DVarBe } else { ende::Format::DVarLe };
            #[allow(unreachable_patterns)]
            match ende::Enc::new(arena.add(ty), format, w) {
                ende::Enc::DVar(v) => v,
                _ => unreachable!(),
            }
        }
        _ => Enc::with(Mown::new_owned(Sig::arc(&ty.sig()).unwrap()), format(be), w),
    }
}

struct Drv<'a> {
    ctx: &'a Ctx,
    arena: &'a Arena,
    plan: &'a Plan,
    sh: Rc<WShared>,
    /// Probabilities out of 16.
    wrong: u64,
    sub: u64,
    decoy: bool,
    drops: bool,
    depth: usize,
    /// Set if the history was cut short by dropping the encoder.
    cut: &'a Cell<bool>,
    /// Steps left for side tracks.
    work: &'a Cell<u32>,
}

impl<'a> Drv<'a> {
    /// Result of an interrupted call is exactly the interruption.
    fn through(&self, what: &dyn std::fmt::Debug, r: Res) -> R<Res> {
        if let Some(c) = self.sh.broke.take() {
            let want = c.flow().map(Error::Io);
            ensure!(r == Err(want), "{what:?}: output broke with {want:?} but the call returned {r:?}");
            return Ok(Err(want));
        }
        Ok(r)
    }

    fn fits(&self, lo: usize, p: usize, hi: usize, op: &Op) -> bool {
        if p == hi {
            return false;
        }
        let s = &self.plan.steps[p];
        match op.code() {
            Some(c) => s.expect.as_ref().map(|t| t.code()) == Some(c),
            None => match s.cont {
                Some((c, k)) => c >= lo && (k == b'a' || s.expect.is_none()),
                None => false,
            },
        }
    }

    fn any_op(&self) -> (Op, bool) {
        let ctx = self.ctx;
        let g = Gen { ctx, elems: Cell::new(3), vals: Cell::new(3), long: false };
        match ctx.draw(14) {
            0 => (Op::Close, false),
            1 => (Op::U16(7), false),
            2 => (Op::U32(7), false),
            3 => (Op::U64(7), false),
            4 => (Op::Str(g.string(20)), false),
            5 => (Op::Obj(g.string(20)), false),
            6 => (Op::Sig(g.string(20)), false),
            7 => (Op::Var(g.ty(false)), false),
            8 => (Op::Arr, false),
            9 => (Op::Struct, false),
            10 => (Op::Dict, false),
            11 => (Op::Sig("x".repeat(*ctx.pick(&[256usize, 257, 300, 511, 512, 513, 65536]))), true),
            12 => {
                let n = *ctx.pick(&[254usize, 255, 300, 510, 511]);
                (Op::Var(Ty::Struct(vec![Ty::Basic(b'u'); n])), true)
            }
            _ => (
                Op::Var(if ctx.chance(1, 2) {
                    Ty::Arr(Box::new(Ty::Struct(vec![Ty::Basic(b'q'); 253])))
                } else {
                    (0..255).fold(Ty::Basic(b'u'), |t, _| Ty::Arr(Box::new(t)))
                }),
                true,
            ),
        }
    }

    /// A call that must be refused without effect.
    fn refuse<'s>(&self, enc: &mut Enc<'s, '_>, lo: usize, p: usize, hi: usize) -> R
    where
        'a: 's,
    {
        let ctx = self.ctx;
        ctx.tick();
        if p < hi && ctx.chance(1, 6) {
            let r = enc.commit();
            ctx.probe("refused_pending");
            ensure!(r == Err(Error::Pending), "finishing at call {p} of {hi} yields {r:?}");
            ensure!(self.sh.commits.borrow().is_empty(), "refused finish has committed");
            return Ok(());
        }
        if ctx.chance(1, 6) {
            let starts = p < hi && self.plan.steps[p].expect.is_some();
            if !starts {
                ensure!(
                    enc.enc().map(|_| ()) == Err(Error::Mismatch),
                    "sub-encoder granted where no value is expected"
                );
                ctx.probe("refused_sub");
            }
            let g = Gen { ctx, elems: Cell::new(4), vals: Cell::new(3), long: false };
            let t = match (self.plan.steps.get(p), ctx.chance(1, 2)) {
                (Some(Step { expect: Some(t), .. }), true) if starts => g.near(t),
                _ => g.ty(true),
            };
            let eq = starts && self.plan.steps[p].expect.as_ref() == Some(&t);
            let r = self.named(enc, &t);
            ensure!(
                r == if eq { Ok(()) } else { Err(Error::Mismatch) },
                "sub-encoder for {} yields {r:?}", t.show()
            );
            return Ok(());
        }
        let (op, long) = self.any_op();
        let fits = self.fits(lo, p, hi, &op);
        if fits && !long {
            return Ok(());
        }
        let r = apply(ctx, self.arena, enc, &op);
        let r = self.through(&op, r)?;
        if let Err(Some(Error::Io(_)) | None) = r {
            return Ok(());
        }
        let name = op.code().unwrap_or(b'.') as char;
        ctx.ev("refused", name as u64, long as u64);
        match (fits, long) {
            (true, _) => {
                ctx.probe("refused_overflow");
                ensure!(r == Err(Some(Error::DataOverflow)), "over-long '{name}' yields {r:?}");
            }
            (false, true) => ensure!(
                r == Err(Some(Error::Mismatch)) || r == Err(Some(Error::DataOverflow)),
                "misplaced over-long '{name}' yields {r:?}"
            ),
            (false, false) => {
                ctx.probe("refused_mismatch");
                ensure!(r == Err(Some(Error::Mismatch)), "misplaced '{name}' yields {r:?}");
            }
        }
        Ok(())
    }

    /// Create a sub-encoder by name and drop it.
    fn named(&self, enc: &mut Enc<'_, '_>, t: &Ty) -> Result<(), Error> {
        if self.ctx.chance(1, 2) {
            enc.enc_with(Mown::new_owned(Sig::arc(&t.sig()).unwrap())).map(|_| ())
        } else {
            let s = Sig::new(&t.sig()).unwrap();
            enc.enc_with(Mown::new_borrowed(&*s)).map(|_| ())
        }
    }

    /// A fitting call with other data, cut off by lack of memory.
    fn decoy<'s>(&self, enc: &mut Enc<'s, '_>, p: usize) -> R
    where
        'a: 's,
    {
        let ctx = self.ctx;
        let s = &self.plan.steps[p];
        let Some(ty) = &s.expect else { return Ok(()) };
        if s.op == Op::Close && !ty.encodable() {
            return Ok(());
        }
        let g = Gen { ctx, elems: Cell::new(3), vals: Cell::new(0), long: false };
        let v = g.val(ty, 0, false);
        let alt = Plan::at(ty, &v, self.plan.be, s.off);
        // Bytes the opening call writes itself.
        let pad = |o: usize, a: usize| o.next_multiple_of(a);
        let end = match &alt.steps[0].op {
            Op::Struct | Op::Dict => pad(s.off, 8),
            Op::Arr => {
                let Ty::Arr(e) = ty else { unreachable!() };
                pad(pad(s.off, 4) + 4, e.align())
            }
            Op::Var(t) => s.off + t.sig().len() + 2,
            _ => alt.bytes.len(),
        };
        if end == s.off {
            return Ok(());
        }
        let limit = ctx.range(s.off, end - 1);
        self.sh.limit.set(Some(limit));
        let r = apply(ctx, self.arena, enc, &alt.steps[0].op);
        self.sh.limit.set(None);
        ensure!(
            self.sh.broke.get().is_some(),
            "{:?} needs memory up to {end} but did not use more than {limit}", alt.steps[0].op
        );
        let _ = self.through(&alt.steps[0].op, r)?;
        Ok(())
    }

    /// Perform the calls `from..stop` of the value `lo..hi`.
    fn drive<'s>(&self, enc: &mut Enc<'s, '_>, (lo, hi): (usize, usize), from: usize, stop: usize) -> R
    where
        'a: 's,
    {
        let ctx = self.ctx;
        let mut p = from;
        while p < stop {
            let s = &self.plan.steps[p];
            self.work.set(self.work.get().saturating_sub(1));
            ctx.state(
                s.op.code().unwrap_or(b'.') as u64 | (s.expect.as_ref().map_or(0, |t| t.code()) as u64) << 8,
                s.off as u64 % 8,
                s.cont.map_or(0, |c| c.1) as u64 | (self.depth as u64) << 8,
            );
            while self.wrong > 0 && ctx.chance(self.wrong, 16) {
                self.refuse(enc, lo, p, hi)?;
            }
            if self.drops && ctx.fault("drop_encoder", 1, 40) {
                self.cut.set(true);
                return Ok(());
            }
            if self.decoy && ctx.fault("memory_exhausted", 1, 12) {
                self.decoy(enc, p)?;
            }
            if self.sub > 0 && self.work.get() > 0 && s.expect.is_some() {
                if let Some(n) = self.sub(enc, p, stop)? {
                    if self.cut.get() {
                        return Ok(());
                    }
                    p = n;
                    continue;
                }
            }
            self.call(enc, lo, p, hi)?;
            p += 1;
        }
        if self.wrong > 0 && p == hi {
            while ctx.chance(self.wrong, 16) {
                self.refuse(enc, lo, p, hi)?;
            }
        }
        Ok(())
    }

    /// A call that must be accepted, repeated while interrupted.
    fn call<'s>(&self, enc: &mut Enc<'s, '_>, lo: usize, p: usize, hi: usize) -> R
    where
        'a: 's,
    {
        let op = &self.plan.steps[p].op;
        let intr = !self.sh.quiet.get();
        for i in 0.. {
            // The output recovers eventually.
            self.sh.quiet.set(!intr || i >= 6);
            self.ctx.tick();
            let r = apply(self.ctx, self.arena, enc, op);
            if self.sh.broke.get().is_none() {
                ensure!(r == Ok(()), "{op:?} was expected but is refused: {r:?}");
                self.ctx.ev("ok", op.code().unwrap_or(b'.') as u64, 0);
                break;
            }
            let _ = self.through(op, r)?;
            ensure!(self.sh.commits.borrow().is_empty(), "{op:?}: committed early");
            self.ctx.probe("call_interrupted");
            if self.wrong > 0 {
                // Other calls are still decided by the old state.
                self.refuse(enc, lo, p, hi)?;
            }
        }
        self.sh.quiet.set(!intr);
        Ok(())
    }

    /// Use a sub-encoder at a value position. Returns where to continue.
    fn sub<'s>(&self, enc: &mut Enc<'s, '_>, p: usize, stop: usize) -> R<Option<usize>>
    where
        'a: 's,
    {
        let ctx = self.ctx;
        let s = &self.plan.steps[p];
        let ty = s.expect.as_ref().unwrap();
        let value = s.op != Op::Close;
        // Abandoned ones first.
        for _ in 0..2 {
            if !ctx.fault("drop_sub_encoder", 1, 6) {
                break;
            }
            self.abandon(enc, p)?;
        }
        if ctx.chance(self.sub, 32) {
            let g = Gen { ctx, elems: Cell::new(4), vals: Cell::new(3), long: false };
            let t = if ctx.chance(1, 2) { g.near(ty) } else { g.ty(true) };
            let r = self.named(enc, &t);
            ensure!(
                r == if t == *ty { Ok(()) } else { Err(Error::Mismatch) },
                "sub-encoder for {} where {} is expected yields {r:?}", t.show(), ty.show()
            );
        }
        if !value || s.end > stop || self.depth > 30 || !ctx.chance(self.sub, 16) {
            return Ok(None);
        }
        let name = Sig::new(&ty.sig()).unwrap();
        let r = match ctx.draw(3) {
            0 => enc.enc(),
            1 => enc.enc_with(Mown::new_borrowed(&*name)),
            _ => enc.enc_with(Mown::new_owned(Sig::arc(&ty.sig()).unwrap())),
        };
        let mut sub = match r {
            Ok(v) => v,
            Err(e) => fail!("sub-encoder for {} is refused: {e:?}", ty.show()),
        };
        ctx.ev("sub", p as u64, self.depth as u64);
        let d = Drv { depth: self.depth + 1, sh: self.sh.clone(), ..*self };
        d.drive(&mut sub, (p, s.end), p, s.end)?;
        if self.cut.get() {
            return Ok(Some(stop));
        }
        let r = sub.commit();
        ensure!(r == Ok(()), "finishing a complete sub-encoder yields {r:?}");
        ensure!(self.sh.commits.borrow().is_empty(), "sub-encoder committed the output");
        ctx.ev("sub_commit", p as u64, self.depth as u64);
        ctx.probe("sub_committed");
        if ctx.chance(1, 4) {
            let r = sub.commit();
            ensure!(r == Ok(()), "finishing a sub-encoder again yields {r:?}");
        }
        if ctx.chance(1, 4) {
            d.refuse(&mut sub, p, s.end, s.end)?;
        }
        Ok(Some(s.end))
    }

    fn abandon<'s>(&self, enc: &mut Enc<'s, '_>, p: usize) -> R
    where
        'a: 's,
    {
        let ctx = self.ctx;
        let s = &self.plan.steps[p];
        let ty = s.expect.as_ref().unwrap();
        let mut sub = match enc.enc() {
            Ok(v) => v,
            Err(e) => fail!("sub-encoder for {} is refused: {e:?}", ty.show()),
        };
        let same = s.op != Op::Close && ctx.chance(1, 3);
        let alt;
        let (plan, lo, hi) = if same {
            (self.plan, p, s.end)
        } else {
            if !ty.encodable() {
                return Ok(());
            }
            let g = Gen { ctx, elems: Cell::new(4), vals: Cell::new(8), long: false };
            let v = g.val(ty, 0, false);
            alt = Plan::at(ty, &v, self.plan.be, s.off);
            (&alt, 0, alt.steps.len())
        };
        let stop = ctx.range(lo, hi);
        ctx.ev("abandon", p as u64, (stop - lo) as u64);
        let d = Drv {
            plan,
            depth: self.depth + 1,
            sh: self.sh.clone(),
            sub: if self.depth < 3 { self.sub } else { 0 },
            drops: false,
            ..*self
        };
        d.drive(&mut sub, (lo, hi), lo, stop)?;
        if stop < hi {
            let r = sub.commit();
            ensure!(r == Err(Error::Pending), "finishing an incomplete sub-encoder yields {r:?}");
            if ctx.chance(1, 2) {
                // A refused finish has no effect on the sub-encoder either.
                d.drive(&mut sub, (lo, hi), stop, hi)?;
            }
        }
        ctx.probe("sub_abandoned");
        if !ctx.explodes() && ctx.chance(1, 8) {
            std::mem::forget(sub);
        }
        Ok(())
    }
}

fn finish<'a>(d: &Drv<'a>, enc: &mut Enc<'a, '_>, extra: bool) -> R {
    let n = d.plan.steps.len();
    ensure!(d.sh.commits.borrow().is_empty(), "committed before being finished");
    let r = enc.commit();
    ensure!(r == Ok(()), "finishing a complete message yields {r:?}");
    ensure!(
        *d.sh.commits.borrow() == [d.plan.bytes.len()],
        "committed {:?}, the message has {} bytes", d.sh.commits.borrow(), d.plan.bytes.len()
    );
    if extra {
        for _ in 0..d.ctx.range(0, 6) {
            if d.ctx.chance(1, 3) {
                let r = enc.commit();
                ensure!(r == Ok(()), "finishing again yields {r:?}");
            } else {
                d.refuse(enc, 0, n, n)?;
            }
        }
        ensure!(d.sh.commits.borrow().len() == 1, "finishing again commits again: {:?}", d.sh.commits.borrow());
    }
    Ok(())
}

fn verify(plan: &Plan, w: &mut SimWrite<'_>) -> R {
    w.sync();
    if let Some(e) = w.sh.err.borrow_mut().take() {
        fail!("{e}");
    }
    let mem = w.sh.mem.borrow();
    let n = plan.bytes.len();
    if mem.len() < n || mem[..n] != plan.bytes[..] {
        let at = (0..n).find(|i| mem.get(*i) != Some(&plan.bytes[*i])).unwrap();
        fail!(
            "{} {}: byte {at} of {n} is {:?}, expected {:#x}",
            plan.ty.show(), if plan.be { "BE" } else { "LE" }, mem.get(at), plan.bytes[at]
        );
    }
    Ok(())
}

fn plan(ctx: &Ctx) -> Plan {
    let g = Gen::new(ctx);
    let ty = if ctx.chance(1, 40) {
        // Deep chains.
        let n = ctx.range(20, 120);
        let s = ctx.chance(1, 2);
        (0..n).fold(Ty::Basic(b'u'), |t, _| if s { Ty::Struct(vec![t]) } else { Ty::Arr(Box::new(t)) })
    } else if ctx.chance(1, 2000) {
        // A very wide structure.
        let n = ctx.range(250, 1300);
        let mut f: Vec<Ty> = ctx.bytes(n).iter().map(|b| Ty::Basic(b"qut"[*b as usize % 3])).collect();
        f.insert(ctx.below(n), g.ty(false));
        Ty::Struct(f)
    } else {
        g.ty(false)
    };
    let val = g.val(&ty, 0, false);
    let p = Plan::new(&ty, &val, ctx.chance(1, 2));
    ctx.describe(|| {
        format!(
            "{} {} calls={} bytes={}",
            p.ty.show(), if p.be { "BE" } else { "LE" }, p.steps.len(), p.bytes.len()
        )
    });
    p
}

struct Opts {
    wrong: u64,
    sub: u64,
    decoy: bool,
    drops: bool,
    intr: bool,
}

fn session(ctx: &Ctx, o: Opts) -> R {
    let p = plan(ctx);
    let mut prof = Profile::draw(ctx);
    if !o.intr {
        prof.intr = 0;
    }
    if p.bytes.len() > 5_000 && prof.chunk != 0 {
        prof.chunk = 3;
    }
    let mut w = SimWrite::new(ctx, prof, p.bytes.len() + 32);
    let sh = w.sh.clone();
    sh.quiet.set(!o.intr);
    let arena = Arena::default();
    let cut = Cell::new(false);
    let wrong = o.wrong;
    let mut drops = 4;
    let work = Cell::new(2000);
    loop {
        cut.set(false);
        let d = Drv {
            ctx,
            arena: &arena,
            plan: &p,
            sh: sh.clone(),
            wrong,
            sub: o.sub,
            decoy: o.decoy,
            drops: o.drops && drops > 0,
            depth: 0,
            cut: &cut,
            work: &work,
        };
        let mut enc = root(ctx, &arena, &p.ty, p.be, &mut w);
        d.drive(&mut enc, (0, p.steps.len()), 0, p.steps.len())?;
        if cut.get() {
            drop(enc);
            ensure!(sh.commits.borrow().is_empty(), "dropped encoder has committed");
            ctx.ev("restart", 0, 0);
            drops -= 1;
            continue;
        }
        finish(&d, &mut enc, wrong > 0)?;
        break;
    }
    verify(&p, &mut w)
}

fn run_c01(ctx: &Ctx) -> R {
    session(ctx, Opts { wrong: 0, sub: 0, decoy: false, drops: true, intr: false })
}

fn run_c02(ctx: &Ctx) -> R {
    let wrong = *ctx.pick(&[0, 0, 4]);
    let sub = *ctx.pick(&[0, 0, 3]);
    session(ctx, Opts { wrong, sub, decoy: true, drops: false, intr: true })
}

fn run_c04(ctx: &Ctx) -> R {
    let intr = ctx.chance(1, 2);
    let wrong = *ctx.pick(&[0, 4]);
    let sub = *ctx.pick(&[4, 8, 14]);
    session(ctx, Opts { wrong, sub, decoy: intr, drops: true, intr })
}

fn run_c03(ctx: &Ctx) -> R {
    if ctx.chance(1, 12_000) {
        return giant(ctx);
    }
    let wrong = *ctx.pick(&[4, 8, 12]);
    let intr = ctx.chance(1, 4);
    session(ctx, Opts { wrong, sub: 0, decoy: false, drops: false, intr })
}

/// A sink that keeps only the first bytes and the last commit.
struct Discard {
    head: Vec<u8>,
    win: Vec<u8>,
    pend: Option<(usize, usize)>,
    top: usize,
    commits: Vec<usize>,
    calls: u64,
}

impl Discard {
    fn sync(&mut self) {
        if let Some((idx, n)) = self.pend.take() {
            self.top = self.top.max(idx + n);
            if idx < self.head.len() {
                let m = n.min(self.head.len() - idx);
                self.head[idx..idx + m].copy_from_slice(&self.win[..m]);
            }
        }
    }
}

impl map::Write for Discard {
    unsafe fn commit(&mut self, len: usize) {
        self.sync();
        self.commits.push(len);
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [Uninit<u8>]> {
        self.sync();
        self.calls += 1;
        let n = len.min(self.win.len());
        self.pend = Some((idx, n));
        let w = &mut self.win[..n];
        // SAFETY: same layout, never de-initialized.
        Flow::Continue(unsafe { &mut *(w as *mut [u8] as *mut [Uninit<u8>]) })
    }
}

/// Zeroes without physical memory behind them.
struct Zeroes(*mut u8, Layout);

impl Zeroes {
    fn new(n: usize) -> Option<Self> {
        let l = Layout::from_size_align(n, 4096).ok()?;
        // SAFETY: non-zero size.
        let p = unsafe { System.alloc_zeroed(l) };
        if p.is_null() { None } else { Some(Self(p, l)) }
    }
    fn str(&self, n: usize) -> &str {
        assert!(n <= self.1.size());
        // SAFETY: allocated, zero-initialized, and zeroes are UTF-8.
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.0, n)) }
    }
}

impl Drop for Zeroes {
    fn drop(&mut self) {
        // SAFETY: allocated with the same layout.
        unsafe { System.dealloc(self.0, self.1) }
    }
}

/// Values around and beyond 4 GiB.
fn giant(ctx: &Ctx) -> R {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    const M: usize = u32::MAX as usize;
    let be = ctx.chance(1, 2);
    let Some(z) = Zeroes::new(M + 4096) else {
        ctx.probe("giant_skipped");
        return Ok(());
    };
    ctx.probe("giant");
    ctx.tick();
    let mut w = Discard { head: vec![0; 64], win: vec![0; 1 << 20], pend: None, top: 0, commits: vec![], calls: 0 };
    let b4 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    for case in 0..3 {
        w.commits.clear();
        w.head.fill(0);
        if case == 0 {
            // The length field limits a string; a message may be longer.
            let sig = Sig::new(b"(os)").unwrap();
            let mut e = Enc::with(Mown::new_borrowed(&*sig), format(be), &mut w);
            ensure!(flow(e.structure()) == Ok(()), "structure refused");
            for n in [M + 1, M + 2, M + 4096] {
                let r = flow(e.object(z.str(n)));
                ensure!(r == Err(Some(Error::DataOverflow)), "object path of {n} bytes yields {r:?}");
            }
            let r = flow(e.object(z.str(M)));
            ensure!(r == Ok(()), "object path of {M} bytes yields {r:?}");
            let r = flow(e.string(z.str(M + 1)));
            ensure!(r == Err(Some(Error::DataOverflow)), "string of {} bytes yields {r:?}", M + 1);
            ensure!(flow(e.string(z.str(5))) == Ok(()), "string refused");
            ensure!(flow(e.close()) == Ok(()), "close refused");
            ensure!(e.commit() == Ok(()), "finish refused");
            drop(e);
            let total = (4 + M + 1).next_multiple_of(4) + 4 + 5 + 1;
            ensure!(w.commits == [total], "committed {:?} instead of {total}", w.commits);
            ensure!(w.head[..4] == b4(u32::MAX), "wrong length {:?}", &w.head[..4]);
            ensure!(w.head[4..].iter().all(|b| *b == 0), "wrong content");
        } else {
            // The length field limits an array, even if no element is too long.
            let half = 1usize << 31;
            let over = case == 1;
            let sig = Sig::new(b"as").unwrap();
            let mut e = Enc::with(Mown::new_borrowed(&*sig), format(be), &mut w);
            ensure!(flow(e.array()) == Ok(()), "array refused");
            // Two elements: 4 + a + 1, padded to 4, then 4 + b + 1.
            let a = half - 5;
            let rest = (M - half) - 5 + over as usize;
            ensure!(flow(e.string(z.str(a))) == Ok(()), "string refused");
            ensure!(flow(e.string(z.str(rest))) == Ok(()), "string refused");
            let r = flow(e.close());
            if over {
                ensure!(r == Err(Some(Error::DataOverflow)), "array of {} bytes: close yields {r:?}", M + 1);
                let r = flow(e.close());
                ensure!(r == Err(Some(Error::DataOverflow)), "close again yields {r:?}");
                ensure!(e.commit() == Err(Error::Pending), "finishing an open array");
                drop(e);
                ensure!(w.commits.is_empty(), "committed");
            } else {
                ensure!(r == Ok(()), "array of {M} bytes: close yields {r:?}");
                ensure!(e.commit() == Ok(()), "finish refused");
                drop(e);
                ensure!(w.commits == [M + 4], "committed {:?}", w.commits);
                ensure!(w.head[..4] == b4(u32::MAX), "wrong length {:?}", &w.head[..4]);
                ensure!(w.head[4..8] == b4(a as u32), "wrong length {:?}", &w.head[4..8]);
            }
        }
    }
    Ok(())
}

