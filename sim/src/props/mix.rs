//! C22: sessions side by side.
//!
//! Every session is a deterministic function of its description, including
//! how its environment chunks and interrupts. It is run alone first. Then all
//! sessions are stepped by a seeded scheduler, also from inside each other's
//! environment calls, and must show the same results step by step.

use crate::core::{Ctx, Exploded, R, Rng, mix};
use crate::fail;
use crate::model::dbus::{Gen, Op, Plan, Ty};
use crate::model::jgen;
use crate::props::dbus_enc::format;
use crate::runner::Prop;
use osi::hash::Engine as _;
use osi::json::token as push;
use osi::mown::Mown;
use std::cell::{Cell, RefCell};
use std::mem::{ManuallyDrop, MaybeUninit as Uninit};
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use std::sync::Arc;
use tmp::fmt::dbus::dvar::{Dec, Enc};
use tmp::fmt::dbus::{self, Sig};
use tmp::fmt::json::{stream as jstream, token as pull};
use tmp::io::{map, stream};

pub const C22: Prop = Prop {
    id: "C22", units: 80_000, sweep: true, run: run_c22,
    real: "tmp::fmt::dbus::{dvar::Enc, dvar::Dec, signature}, tmp::fmt::json::{token, stream}, osi::json::token, osi::hash::sha256, osi::hmac, osi::mown",
    stub: "scheduler (also from within environment calls); output/input memory, streams, report consumers private to each session",
    rule: "one evaluation = one schedule of 2 to 6 sessions (plus replacements); distinct = distinct event logs (every step with the session stepped, nesting, creation and drop)",
    assumptions: &["up to 6 sessions at a time, 14 in total, up to 60 steps each, nesting of steps up to 3 deep"],
};

/// Private environment of a session, and the place where others may run.
struct Seam {
    rng: RefCell<Rng>,
    hub: Option<Rc<Hub>>,
    hash: Cell<u64>,
}

impl Seam {
    fn new(seed: u64, hub: Option<Rc<Hub>>) -> Rc<Self> {
        Rc::new(Self { rng: RefCell::new(Rng::new(seed)), hub, hash: Cell::new(1) })
    }
    fn below(&self, n: usize) -> usize {
        (self.rng.borrow_mut().next() % n as u64) as usize
    }
    fn see(&self, v: u64) {
        self.hash.set(mix(self.hash.get() ^ mix(v)));
    }
    fn see_bytes(&self, v: &[u8]) {
        self.see(v.len() as u64);
        for c in v.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            self.see(u64::from_le_bytes(b));
        }
    }
    fn see_dbg(&self, v: &dyn std::fmt::Debug) {
        self.see_bytes(format!("{v:?}").as_bytes());
    }
    fn call(&self) {
        if let Some(h) = &self.hub {
            h.nested();
        }
    }
}

trait Session {
    /// One step; returns whether there are more.
    fn step(&mut self) -> bool;
    fn seam(&self) -> &Seam;
}

struct MemW {
    seam: Rc<Seam>,
    mem: Vec<u8>,
}

impl map::Write for MemW {
    unsafe fn commit(&mut self, len: usize) {
        self.seam.call();
        self.seam.see(len as u64);
        let n = len.min(self.mem.len());
        self.seam.see_bytes(&self.mem[..n]);
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [Uninit<u8>]> {
        self.seam.call();
        self.seam.see(idx as u64);
        self.seam.see(len as u64);
        match self.seam.below(8) {
            0 => return Flow::Break(None),
            1 => return Flow::Break(Some(map::Error::Exceeded)),
            _ => {}
        }
        let n = 1 + self.seam.below(len.max(1));
        if self.mem.len() < idx + n {
            self.mem.resize(idx + n, 0xaa);
        }
        let s = &mut self.mem[idx..idx + n];
        // SAFETY: same layout, never de-initialized.
        Flow::Continue(unsafe { &mut *(s as *mut [u8] as *mut [Uninit<u8>]) })
    }
}

fn sigs(sig: &Arc<Sig>, borrow: bool) -> Mown<'static, Sig, Arc<Sig>> {
    if borrow {
        // SAFETY: the session holds a reference beyond the use of this.
        Mown::new_borrowed(unsafe { &*Arc::as_ptr(sig) })
    } else {
        Mown::new_owned(sig.clone())
    }
}

struct EncS {
    seam: Rc<Seam>,
    enc: ManuallyDrop<Enc<'static, 'static>>,
    w: *mut MemW,
    plan: Rc<Plan>,
    at: usize,
    pool: Rc<Vec<Arc<Sig>>>,
    _sig: Arc<Sig>,
}

impl EncS {
    fn new(seam: Rc<Seam>, plan: Rc<Plan>, pool: Rc<Vec<Arc<Sig>>>) -> Self {
        let w = Box::into_raw(Box::new(MemW { seam: seam.clone(), mem: Vec::new() }));
        let sig = find(&pool, &plan.ty);
        let m = sigs(&sig, seam.below(2) == 0);
        // SAFETY: freed in `drop()` after the encoder.
        let enc = Enc::with(m, format(plan.be), unsafe { &mut *w });
        Self { seam, enc: ManuallyDrop::new(enc), w, plan, at: 0, pool, _sig: sig }
    }
}

fn find(pool: &[Arc<Sig>], ty: &Ty) -> Arc<Sig> {
    let s = ty.sig();
    pool.iter().find(|v| v.to_string().as_bytes() == s).cloned().unwrap_or_else(|| Sig::arc(&s).unwrap())
}

fn enc_op(enc: &mut Enc<'_, '_>, op: &Op, pool: &[Arc<Sig>]) -> Flow<Option<dbus::Error>> {
    match op {
        Op::U16(v) => enc.u16(*v).map_continue(|_| ()),
        Op::U32(v) => enc.u32(*v).map_continue(|_| ()),
        Op::U64(v) => enc.u64(*v).map_continue(|_| ()),
        Op::Str(v) => enc.string(v).map_continue(|_| ()),
        Op::Obj(v) => enc.object(v).map_continue(|_| ()),
        Op::Sig(v) => enc.signature(v).map_continue(|_| ()),
        Op::Var(t) => enc.variant_with(Mown::new_owned(find(pool, t))).map_continue(|_| ()),
        Op::Arr => enc.array().map_continue(|_| ()),
        Op::Struct => enc.structure().map_continue(|_| ()),
        Op::Dict => enc.dict().map_continue(|_| ()),
        Op::Close => enc.close().map_continue(|_| ()),
    }
}

impl Session for EncS {
    fn seam(&self) -> &Seam {
        &self.seam
    }
    fn step(&mut self) -> bool {
        let Some(s) = self.plan.steps.get(self.at) else {
            let r = self.enc.commit();
            self.seam.see_dbg(&r);
            return false;
        };
        if s.expect.is_some() && self.seam.below(6) == 0 {
            // An abandoned sub-encoder.
            let r = match self.enc.enc() {
                Ok(mut sub) => enc_op(&mut sub, &s.op, &self.pool),
                Err(e) => Flow::Break(Some(e)),
            };
            self.seam.see_dbg(&r);
        }
        if self.seam.below(8) == 0 {
            let r = enc_op(&mut self.enc, &Op::U16(1), &self.pool);
            self.seam.see_dbg(&r);
            if r.is_continue() {
                // Fine if that was due; the content differs from the plan.
                self.at += 1;
                return true;
            }
        }
        let r = enc_op(&mut self.enc, &s.op, &self.pool);
        self.seam.see_dbg(&r);
        if r.is_continue() {
            self.at += 1;
        }
        true
    }
}

impl Drop for EncS {
    fn drop(&mut self) {
        // SAFETY: dropped once, before what it refers to.
        unsafe {
            ManuallyDrop::drop(&mut self.enc);
            drop(Box::from_raw(self.w));
        }
    }
}

struct MemR {
    seam: Rc<Seam>,
    mem: Vec<u8>,
}

impl map::Read for MemR {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        self.seam.call();
        self.seam.see(idx as u64);
        self.seam.see(len as u64);
        if self.seam.below(8) == 0 {
            return Flow::Break(None);
        }
        if idx + len > self.mem.len() {
            return Flow::Break(Some(map::Error::Exceeded));
        }
        let n = 1 + self.seam.below(len.max(1));
        Flow::Continue(&self.mem[idx..(idx + n).min(self.mem.len())])
    }
}

struct DecS {
    seam: Rc<Seam>,
    dec: ManuallyDrop<Dec<'static, 'static>>,
    r: *mut MemR,
    plan: Rc<Plan>,
    at: usize,
    _sig: Arc<Sig>,
}

impl DecS {
    fn new(seam: Rc<Seam>, plan: Rc<Plan>, pool: Rc<Vec<Arc<Sig>>>) -> Self {
        let mut mem = plan.bytes.clone();
        if !mem.is_empty() && seam.below(4) == 0 {
            let i = seam.below(mem.len());
            mem[i] ^= 1 << seam.below(8);
        }
        let r = Box::into_raw(Box::new(MemR { seam: seam.clone(), mem }));
        let sig = find(&pool, &plan.ty);
        let m = sigs(&sig, seam.below(2) == 0);
        // SAFETY: freed in `drop()` after the decoder.
        let dec = Dec::with(m, format(plan.be), unsafe { &mut *r });
        Self { seam, dec: ManuallyDrop::new(dec), r, plan, at: 0, _sig: sig }
    }
}

impl Session for DecS {
    fn seam(&self) -> &Seam {
        &self.seam
    }
    fn step(&mut self) -> bool {
        let Some(s) = self.plan.steps.get(self.at) else {
            let r = self.dec.commit();
            self.seam.see_dbg(&r);
            return false;
        };
        if s.expect.is_some() && self.seam.below(6) == 0 {
            let r = match self.dec.dec() {
                Ok(mut sub) => dec_op(&self.seam, &mut sub, &s.op),
                Err(_) => false,
            };
            self.seam.see(r as u64);
        }
        self.seam.see(self.dec.more() as u64);
        if dec_op(&self.seam, &mut self.dec, &s.op) {
            self.at += 1;
        }
        true
    }
}

fn dec_op(seam: &Seam, dec: &mut Dec<'_, '_>, op: &Op) -> bool {
    let (r, t) = match op {
        Op::U16(_) => {
            let mut v = 0;
            (dec.u16(&mut v).map_continue(|_| ()), v.to_string())
        }
        Op::Str(_) => {
            let mut v = String::new();
            (dec.string(&mut v).map_continue(|_| ()), v)
        }
        Op::Sig(_) => {
            let mut v = String::new();
            (dec.signature(&mut v).map_continue(|_| ()), v)
        }
        Op::Arr => (dec.array().map_continue(|_| ()), String::new()),
        _ => (dec.close().map_continue(|_| ()), String::new()),
    };
    seam.see_dbg(&r);
    seam.see_bytes(t.as_bytes());
    r.is_continue()
}

impl Drop for DecS {
    fn drop(&mut self) {
        // SAFETY: dropped once, before what it refers to.
        unsafe {
            ManuallyDrop::drop(&mut self.dec);
            drop(Box::from_raw(self.r));
        }
    }
}

/// Character tokenizer with a consumer that may abort.
struct PushS {
    seam: Rc<Seam>,
    tk: push::Tokenizer,
    text: Rc<Vec<char>>,
    at: usize,
}

struct Reports(Rc<Seam>);

impl push::Report<u64> for Reports {
    fn report_error(&mut self, e: push::Error<'_>) -> Flow<u64> {
        self.0.see_dbg(&e);
        self.0.call();
        // What was handed out stays intact while others run.
        self.0.see_dbg(&e);
        if self.0.below(40) == 0 { Flow::Break(7) } else { Flow::Continue(()) }
    }
    fn report_token(&mut self, t: push::Token<'_>) -> Flow<u64> {
        self.0.see_dbg(&t);
        self.0.call();
        self.0.see_dbg(&t);
        if self.0.below(40) == 0 { Flow::Break(8) } else { Flow::Continue(()) }
    }
}

impl Session for PushS {
    fn seam(&self) -> &Seam {
        &self.seam
    }
    fn step(&mut self) -> bool {
        let mut rep = Reports(self.seam.clone());
        if self.at == self.text.len() {
            let r = self.tk.push(&mut rep, None);
            self.seam.see_dbg(&r);
            return false;
        }
        let left = self.text.len() - self.at;
        let n = (1 + self.seam.below(left.min(1 + left / 8))).min(left);
        let s: String = self.text[self.at..self.at + n].iter().collect();
        self.at += n;
        let r = self.tk.push_str(&mut rep, &s);
        self.seam.see_dbg(&r);
        if r.is_break() {
            self.tk.reset();
        }
        true
    }
}

/// Buffered bytes of a stream; discarded bytes are overwritten.
struct Bytes {
    seam: Rc<Seam>,
    data: Vec<u8>,
    pos: usize,
    avail: Rc<Cell<usize>>,
}

impl stream::Read for Bytes {
    fn advance(&mut self, len: usize) {
        self.seam.call();
        self.seam.see(len as u64);
        let to = (self.pos + len).min(self.data.len());
        self.data[self.pos..to].fill(0xdd);
        self.pos = to;
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<stream::More, &[u8]> {
        self.seam.call();
        let have = self.avail.get() - self.pos;
        if min > have {
            return Flow::Break(stream::More { min, max });
        }
        let n = min + self.seam.below(have - min + 1);
        Flow::Continue(&self.data[self.pos..self.pos + n])
    }
}

enum Pull {
    Token(pull::Dec<'static>),
    Item(jstream::Dec<'static>),
}

struct PullS {
    seam: Rc<Seam>,
    dec: ManuallyDrop<Pull>,
    src: *mut Bytes,
    len: usize,
    avail: Rc<Cell<usize>>,
}

impl PullS {
    fn new(seam: Rc<Seam>, data: &[u8], items: bool) -> Self {
        let avail = Rc::new(Cell::new(0));
        let src = Bytes { seam: seam.clone(), data: data.to_vec(), pos: 0, avail: avail.clone() };
        let src = Box::into_raw(Box::new(src));
        // SAFETY: freed in `drop()` after the decoder.
        let r = unsafe { &mut *src };
        let dec = if items { Pull::Item(jstream::Dec::with(r)) } else { Pull::Token(pull::Dec::with(r)) };
        Self { seam, dec: ManuallyDrop::new(dec), src, len: data.len(), avail }
    }
}

impl Session for PullS {
    fn seam(&self) -> &Seam {
        &self.seam
    }
    fn step(&mut self) -> bool {
        let r = match &mut *self.dec {
            Pull::Token(d) => d.pop().map_continue(|t| {
                self.seam.see_dbg(&t);
                self.seam.call();
                self.seam.see_dbg(&t);
            }),
            Pull::Item(d) => d.pop().map_continue(|t| self.seam.see(kind(&t))),
        };
        let Flow::Break(m) = r else { return true };
        self.seam.see(m.min as u64);
        let rest = self.len - self.avail.get();
        if rest > 0 {
            self.avail.set(self.avail.get() + 1 + self.seam.below(rest.min(1 + rest / 4)));
            return true;
        }
        if let Pull::Token(d) = &mut *self.dec {
            for _ in 0..3 {
                let t = d.complete();
                self.seam.see_dbg(&t);
            }
        }
        false
    }
}

impl Drop for PullS {
    fn drop(&mut self) {
        // SAFETY: dropped once, before what it refers to.
        unsafe {
            ManuallyDrop::drop(&mut self.dec);
            drop(Box::from_raw(self.src));
        }
    }
}

fn kind(t: &jstream::Item<'_>) -> u64 {
    match t {
        jstream::Item::Error(_) => 1,
        jstream::Item::Prim => 2,
        jstream::Item::Key => 3,
        jstream::Item::ArrayOpen => 4,
        jstream::Item::ArrayClose => 5,
        jstream::Item::ObjectOpen => 6,
        jstream::Item::ObjectClose => 7,
    }
}

enum Mac {
    Hash(osi::hash::sha256::Engine),
    Hmac(osi::hmac::HmacSha256),
}

struct HashS {
    seam: Rc<Seam>,
    mac: Mac,
    left: usize,
}

impl Session for HashS {
    fn seam(&self) -> &Seam {
        &self.seam
    }
    fn step(&mut self) -> bool {
        let n = self.seam.below(150);
        let data: Vec<u8> = (0..n).map(|_| self.seam.below(256) as u8).collect();
        let what = self.seam.below(8);
        let fin = what == 0 || self.left == 0;
        match &mut self.mac {
            Mac::Hash(e) => match what {
                _ if fin => self.seam.see_bytes(e.finalize().as_bytes()),
                1 => e.push_zero(n),
                2 => e.reset(),
                _ => e.push(&data),
            },
            Mac::Hmac(e) => match what {
                _ if fin => self.seam.see_bytes(e.finalize().as_bytes()),
                1 => e.push_zero(n),
                2 => e.reset(),
                _ => e.push(&data),
            },
        }
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        true
    }
}

/// Walk over a signature shared with others.
struct SigS {
    seam: Rc<Seam>,
    sig: Arc<Sig>,
    cur: ManuallyDrop<dbus::signature::Cursor<'static, Arc<Sig>>>,
    left: usize,
}

impl SigS {
    fn new(seam: Rc<Seam>, ty: &Ty, pool: &[Arc<Sig>]) -> Self {
        let sig = find(pool, ty);
        let m = sigs(&sig, seam.below(2) == 0);
        let cur = dbus::signature::Cursor::new(m);
        Self { seam, sig, cur: ManuallyDrop::new(cur), left: 30 }
    }
}

impl Session for SigS {
    fn seam(&self) -> &Seam {
        &self.seam
    }
    fn step(&mut self) -> bool {
        match self.seam.below(8) {
            0 => drop(self.cur.move_next()),
            1 => drop(self.cur.move_step()),
            2 => drop(self.cur.move_down()),
            3 => drop(self.cur.move_up()),
            4 => {
                if let Some(s) = self.cur.sig() {
                    let c = s.clone();
                    self.seam.see_bytes(c.to_string().as_bytes());
                    self.seam.see((*c == *s) as u64);
                }
            }
            5 => {
                let s = self.sig.to_string();
                self.seam.see_bytes(s.as_bytes());
                let n = Sig::new(s.as_bytes()).unwrap();
                self.seam.see((*n == *self.sig) as u64);
            }
            6 => {
                let v = self.sig.cursor().map(|v| format!("{v:?}")).collect::<String>();
                self.seam.see_bytes(v.as_bytes());
            }
            _ => drop(self.cur.move_to(0)),
        }
        let c = &self.cur;
        self.seam.see_dbg(&(c.idx(), c.element(), c.position(), c.length(), c.up(), c.down(), c.dvar_alignment_exp()));
        self.left -= 1;
        self.left > 0
    }
}

impl Drop for SigS {
    fn drop(&mut self) {
        // SAFETY: dropped once.
        unsafe { ManuallyDrop::drop(&mut self.cur) }
    }
}

enum What {
    Enc(Rc<Plan>),
    Dec(Rc<Plan>),
    Push(Rc<Vec<char>>, u32),
    Pull(Vec<u8>, bool),
    Hash(Option<Vec<u8>>, usize),
    Sig(Ty),
}

struct Spec {
    what: What,
    seed: u64,
    /// Results of each step when alone.
    solo: Vec<u64>,
}

const STEPS: usize = 60;

fn make(s: &Spec, pool: &Rc<Vec<Arc<Sig>>>, hub: Option<Rc<Hub>>) -> Box<dyn Session> {
    let seam = Seam::new(s.seed, hub);
    match &s.what {
        What::Enc(p) => Box::new(EncS::new(seam, p.clone(), pool.clone())),
        What::Dec(p) => Box::new(DecS::new(seam, p.clone(), pool.clone())),
        What::Push(t, f) => Box::new(PushS { seam, tk: push::Tokenizer::with_flags(*f), text: t.clone(), at: 0 }),
        What::Pull(d, items) => Box::new(PullS::new(seam, d, *items)),
        What::Hash(None, n) => Box::new(HashS { seam, mac: Mac::Hash(Default::default()), left: *n }),
        What::Hash(Some(k), n) => Box::new(HashS { seam, mac: Mac::Hmac(osi::hmac::HmacSha256::new(k)), left: *n }),
        What::Sig(t) => Box::new(SigS::new(seam, t, pool)),
    }
}

struct Slot {
    s: RefCell<Option<Box<dyn Session>>>,
    spec: Rc<Spec>,
    steps: Cell<usize>,
    name: u64,
}

struct Hub {
    ctx: *const Ctx,
    slots: RefCell<Vec<Rc<Slot>>>,
    depth: Cell<usize>,
    work: Cell<usize>,
    err: RefCell<Option<String>>,
}

impl Hub {
    fn ctx(&self) -> &Ctx {
        // SAFETY: the execution outlives everything made for it.
        unsafe { &*self.ctx }
    }

    fn pick(&self) -> Option<Rc<Slot>> {
        let n = self.slots.borrow().len();
        if n == 0 {
            return None;
        }
        let i = self.ctx().below(n);
        Some(self.slots.borrow()[i].clone())
    }

    /// Step a session and compare with what it does alone.
    fn step(&self, slot: &Slot) {
        let Ok(mut b) = slot.s.try_borrow_mut() else { return };
        let Some(s) = b.as_mut() else { return };
        let ctx = self.ctx();
        ctx.tick();
        let k = slot.steps.get();
        if k >= slot.spec.solo.len() {
            return;
        }
        /// Must not be used again if the panic passes through.
        struct Mark<'a>(&'a Slot);
        impl Drop for Mark<'_> {
            fn drop(&mut self) {
                if std::thread::panicking() {
                    self.0.steps.set(usize::MAX);
                }
            }
        }
        let mark = Mark(slot);
        if !self.guarded(|| _ = s.step()) {
            // Goes away now or with the others.
            ctx.ev("exploded", slot.name, k as u64);
            slot.steps.set(usize::MAX);
            if ctx.chance(1, 2) {
                *b = None;
            }
            return;
        }
        drop(mark);
        slot.steps.set(k + 1);
        let h = s.seam().hash.get();
        ctx.ev("step", slot.name, (k * 4 + self.depth.get()) as u64);
        ctx.state(slot.spec.kind(), self.depth.get() as u64, self.slots.borrow().len() as u64);
        if h != slot.spec.solo[k] {
            let m = format!("step {k} of session {} ({}) differs from when it is alone", slot.name, slot.spec.show());
            self.err.borrow_mut().get_or_insert(m);
        }
    }

    /// Run something whose environment may panic. Returns whether it did not.
    fn guarded(&self, f: impl FnOnce()) -> bool {
        if !self.ctx().explodes() || self.ctx().chance(1, 4) {
            f();
            return true;
        }
        let depth = self.depth.get();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => true,
            Err(e) if e.is::<Exploded>() => {
                self.depth.set(depth);
                false
            }
            Err(e) => std::panic::resume_unwind(e),
        }
    }

    /// A call into the environment: others may run here.
    fn nested(&self) {
        let ctx = self.ctx();
        ctx.tick();
        if self.depth.get() >= 3 || self.work.get() == 0 || !ctx.chance(1, 6) {
            return;
        }
        self.work.set(self.work.get() - 1);
        let Some(slot) = self.pick() else { return };
        self.depth.set(self.depth.get() + 1);
        if slot.s.try_borrow_mut().is_ok() {
            ctx.probe("nested");
            self.drops(&slot);
            self.step(&slot);
        }
        self.depth.set(self.depth.get() - 1);
    }

    fn drops(&self, slot: &Slot) {
        let ctx = self.ctx();
        if ctx.fault("drop_session", 1, 60)
            && let Ok(mut s) = slot.s.try_borrow_mut()
            && s.take().is_some()
        {
            ctx.ev("drop", slot.name, slot.steps.get() as u64);
            ctx.probe("dropped");
        }
    }
}

impl Spec {
    fn kind(&self) -> u64 {
        match &self.what {
            What::Enc(_) => 1,
            What::Dec(_) => 2,
            What::Push(..) => 3,
            What::Pull(_, i) => 4 + *i as u64,
            What::Hash(k, _) => 6 + k.is_some() as u64,
            What::Sig(_) => 8,
        }
    }
    fn show(&self) -> String {
        match &self.what {
            What::Enc(p) => format!("encoder {}", p.ty.show()),
            What::Dec(p) => format!("decoder {}", p.ty.show()),
            What::Push(t, f) => format!("tokenizer flags {f} {:?}", t.iter().collect::<String>()),
            What::Pull(d, i) => format!("{} {:?}", if *i { "structure" } else { "pull tokenizer" }, d.escape_ascii().to_string()),
            What::Hash(k, n) => format!("{} {n} steps", if k.is_some() { "hmac" } else { "hash" }),
            What::Sig(t) => format!("signature {}", t.show()),
        }
    }
}

fn spec(ctx: &Ctx, plans: &[Rc<Plan>], decs: &[Rc<Plan>], pool: &Rc<Vec<Arc<Sig>>>) -> Rc<Spec> {
    let what = match ctx.draw(8) {
        0 => What::Enc(ctx.pick(plans).clone()),
        1 => What::Dec(ctx.pick(decs).clone()),
        2 => What::Push(Rc::new(jgen::text(ctx).chars().take(300).collect()), ctx.draw(4) as u32),
        3 | 4 => {
            let mut d = if ctx.chance(1, 2) { jgen::bytes(ctx) } else { jgen::structured(ctx) };
            d.truncate(300);
            What::Pull(d, ctx.chance(1, 3))
        }
        5 => What::Hash(None, ctx.range(1, 20)),
        6 => What::Hash(Some(ctx.bytes(*ctx.pick(&[0usize, 20, 64, 65, 100]))), ctx.range(1, 20)),
        _ => What::Sig(ctx.pick(plans).ty.clone()),
    };
    let mut spec = Spec { what, seed: ctx.u64(), solo: Vec::new() };
    let mut s = make(&spec, pool, None);
    for _ in 0..STEPS {
        ctx.tick();
        let more = s.step();
        spec.solo.push(s.seam().hash.get());
        if !more {
            break;
        }
    }
    Rc::new(spec)
}

fn run_c22(ctx: &Ctx) -> R {
    let g = || Gen { ctx, elems: Cell::new(ctx.range(1, 14)), vals: Cell::new(ctx.range(1, 20)), long: false };
    let mut plans = Vec::new();
    let mut decs = Vec::new();
    for _ in 0..ctx.range(1, 2) {
        let v = g();
        let t = v.ty(false);
        plans.push(Rc::new(Plan::new(&t, &v.val(&t, 0, false), ctx.chance(1, 2))));
        let v = g();
        let t = v.dec_ty();
        let p = Rc::new(Plan::new(&t, &v.val(&t, 0, true), ctx.chance(1, 2)));
        decs.push(p.clone());
        plans.push(p);
    }
    // Signatures available for sharing.
    let pool: Rc<Vec<Arc<Sig>>> = Rc::new(plans.iter().map(|p| Sig::arc(&p.ty.sig()).unwrap()).collect());
    let hub = Rc::new(Hub {
        ctx,
        slots: Default::default(),
        depth: Cell::new(0),
        work: Cell::new(300),
        err: Default::default(),
    });
    /// Sessions refer back to where they are listed.
    struct Clear(Rc<Hub>);
    impl Drop for Clear {
        fn drop(&mut self) {
            let all = self.0.slots.take();
            drop(all);
        }
    }
    let _clear = Clear(hub.clone());
    let n = ctx.range(2, 6);
    let mut specs: Vec<Rc<Spec>> = Vec::new();
    for i in 0..n + ctx.range(0, 4) {
        // Some sessions do exactly the same as another.
        let s = if i > 0 && ctx.chance(1, 4) { ctx.pick(&specs).clone() } else { spec(ctx, &plans, &decs, &pool) };
        specs.push(s);
    }
    ctx.describe(|| specs.iter().map(|s| s.show()).collect::<Vec<_>>().join(", "));
    let mut todo: std::collections::VecDeque<_> = specs.iter().cloned().collect();
    let mut names = 0;
    let mut extra = 4;
    loop {
        // Keep up to `n` sessions alive.
        hub.slots.borrow_mut().retain(|s| s.s.borrow().is_some() && s.steps.get() < s.spec.solo.len());
        while hub.slots.borrow().len() < n {
            let Some(sp) = todo.pop_front() else { break };
            let s = make(&sp, &pool, Some(hub.clone()));
            hub.slots.borrow_mut().push(Rc::new(Slot {
                s: RefCell::new(Some(s)),
                spec: sp,
                steps: Cell::new(0),
                name: names,
            }));
            names += 1;
        }
        let Some(slot) = hub.pick() else { break };
        hub.drops(&slot);
        if slot.s.borrow().is_none() && extra > 0 {
            // Start it again from scratch.
            extra -= 1;
            todo.push_back(slot.spec.clone());
        }
        // Bursts as well as fine interleaving.
        for _ in 0..*ctx.pick(&[1, 1, 2, 5]) {
            hub.step(&slot);
        }
        if let Some(e) = hub.err.borrow_mut().take() {
            hub.slots.borrow_mut().clear();
            fail!("{e}");
        }
    }
    Ok(())
}
