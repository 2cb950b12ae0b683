//! Reference for the D-Bus wire format: types, values, and a recursive
//! marshaller working on whole values (D-Bus Specification, "Marshaling").

use crate::core::Ctx;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Basic(u8),
    Var,
    Arr(Box<Ty>),
    Struct(Vec<Ty>),
    Dict(Box<Ty>, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Obj(String),
    Sig(String),
    Var(Ty, Box<Val>),
    Arr(Ty, Vec<Val>),
    Struct(Vec<Ty>, Vec<Val>),
    Dict(Ty, Ty, Box<Val>, Box<Val>),
}

impl Ty {
    pub fn code(&self) -> u8 {
        match self {
            Ty::Basic(c) => *c,
            Ty::Var => b'v',
            Ty::Arr(_) => b'a',
            Ty::Struct(_) => b'(',
            Ty::Dict(..) => b'{',
        }
    }
    pub fn align(&self) -> usize {
        match self.code() {
            b'y' | b'g' | b'v' => 1,
            b'q' | b'n' => 2,
            b'u' | b'i' | b'b' | b'h' | b's' | b'o' | b'a' => 4,
            b't' | b'x' | b'd' | b'(' | b'{' => 8,
            _ => unreachable!(),
        }
    }
    pub fn write(&self, out: &mut Vec<u8>) {
        out.push(self.code());
        match self {
            Ty::Basic(_) | Ty::Var => {}
            Ty::Arr(e) => e.write(out),
            Ty::Struct(f) => {
                f.iter().for_each(|f| f.write(out));
                out.push(b')');
            }
            Ty::Dict(k, v) => {
                k.write(out);
                v.write(out);
                out.push(b'}');
            }
        }
    }
    pub fn sig(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.write(&mut v);
        v
    }
    pub fn show(&self) -> String {
        String::from_utf8(self.sig()).unwrap()
    }
    /// Number of types this consists of.
    pub fn count(&self) -> usize {
        1 + match self {
            Ty::Basic(_) | Ty::Var => 0,
            Ty::Arr(e) => e.count(),
            Ty::Struct(f) => f.iter().map(|f| f.count()).sum(),
            Ty::Dict(k, v) => k.count() + v.count(),
        }
    }
    /// Whether values can be expressed with the calls the encoder has.
    pub fn encodable(&self) -> bool {
        match self {
            Ty::Basic(c) => b"qutsog".contains(c),
            Ty::Var | Ty::Arr(_) => true,
            Ty::Struct(f) => f.iter().all(|f| f.encodable()),
            Ty::Dict(k, v) => k.encodable() && v.encodable(),
        }
    }
    /// Whether values can be read with the calls the decoder has.
    pub fn decodable(&self) -> bool {
        match self {
            Ty::Basic(c) => b"qsg".contains(c),
            Ty::Arr(_) => true,
            _ => false,
        }
    }
}

/// Generator limits.
pub struct Gen<'c> {
    pub ctx: &'c Ctx,
    /// Remaining type elements.
    pub elems: Cell<usize>,
    /// Remaining values.
    pub vals: Cell<usize>,
    pub long: bool,
}

impl<'c> Gen<'c> {
    pub fn new(ctx: &'c Ctx) -> Self {
        let elems = match ctx.weighted(&[8, 8, 4, 1]) {
            0 => ctx.range(1, 6),
            1 => ctx.range(1, 20),
            2 => ctx.range(20, 60),
            _ => ctx.range(60, 200),
        };
        let vals = match ctx.weighted(&[4, 4, 1]) {
            0 => ctx.range(1, 10),
            1 => ctx.range(1, 40),
            _ => ctx.range(40, 150),
        };
        Self { ctx, elems: Cell::new(elems), vals: Cell::new(vals), long: ctx.chance(1, 12) }
    }

    fn take(c: &Cell<usize>) -> bool {
        let v = c.get();
        if v > 0 {
            c.set(v - 1);
        }
        v > 0
    }

    fn basic(&self, exotic: bool) -> Ty {
        let set: &[u8] = if exotic { b"qutsogybnixdh" } else { b"qutsog" };
        Ty::Basic(*self.ctx.pick(set))
    }

    pub fn ty(&self, exotic: bool) -> Ty {
        if !Self::take(&self.elems) {
            return self.basic(exotic);
        }
        match self.ctx.weighted(&[6, 3, 4, 4, 2]) {
            0 => self.basic(exotic),
            1 => Ty::Var,
            2 => {
                let exotic = exotic || self.ctx.chance(1, 8);
                if self.ctx.chance(1, 2) {
                    Ty::Arr(Box::new(Ty::Dict(Box::new(self.basic(exotic)), Box::new(self.ty(exotic)))))
                } else {
                    Ty::Arr(Box::new(self.ty(exotic)))
                }
            }
            3 => {
                let lo = if self.ctx.chance(1, 30) { 0 } else { 1 };
                let n = if lo == 0 { 0 } else { self.ctx.range(1, 6) };
                Ty::Struct((0..n).map(|_| self.ty(exotic)).collect())
            }
            _ => Ty::Dict(Box::new(self.basic(exotic)), Box::new(self.ty(exotic))),
        }
    }

    /// Types of the decodable subset; undecodable ones only below arrays that
    /// are going to be empty.
    pub fn dec_ty(&self) -> Ty {
        if !Self::take(&self.elems) {
            return Ty::Basic(*self.ctx.pick(b"qsg"));
        }
        match self.ctx.weighted(&[4, 6]) {
            0 => Ty::Basic(*self.ctx.pick(b"qsg")),
            _ => {
                if self.ctx.chance(1, 8) {
                    Ty::Arr(Box::new(self.ty(true)))
                } else {
                    Ty::Arr(Box::new(self.dec_ty()))
                }
            }
        }
    }

    pub fn string(&self, max: usize) -> String {
        let ctx = self.ctx;
        let n = if self.long && ctx.chance(1, 3) {
            match ctx.draw(3) {
                0 => ctx.range(250, 260),
                1 => ctx.range(0, 600),
                // Around where lengths of strings and arrays of them gain a bit.
                _ => match ctx.draw(8) {
                    0 => ctx.range(65_523, 65_540),
                    1 => 70_000,
                    2 => ctx.range(131_064, 131_073),
                    3 => ctx.range(262_140, 300_000),
                    4 => 1 << ctx.range(10, 15),
                    5 => (1 << ctx.range(10, 15)) + 1,
                    6 => (1 << ctx.range(10, 15)) - 5,
                    _ => ctx.range(600, 5000),
                },
            }
        } else {
            ctx.size(40)
        }
        .min(max);
        let alpha: &[&str] = match ctx.draw(3) {
            0 => &["a"],
            1 => &["a", "b", "/", "_", "0"],
            _ => &["x", "\0", "é", "\u{1F600}", "\u{7f}", "ß", "ÿ"],
        };
        let mut rng = crate::core::Rng::new(ctx.draw(1 << 16));
        let mut s = String::new();
        while s.len() < n {
            let c = alpha[(rng.next() % alpha.len() as u64) as usize];
            if s.len() + c.len() > n {
                s.push('z');
            } else {
                s.push_str(c);
            }
        }
        s
    }

    fn int(&self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let ctx = self.ctx;
        m & match ctx.draw(6) {
            0 => ctx.draw(4),
            1 => ctx.u64(),
            2 => m - ctx.draw(3),
            // Around powers of two.
            3 => (1u64 << ctx.draw(bits as u64)).wrapping_add(ctx.draw(3)).wrapping_sub(1),
            // Bytes of few different values.
            4 => (0..8).fold(0, |v, _| v << 8 | *ctx.pick(&[0u64, 0xff, 1, 0x80, 0x7f])),
            _ => 0xff << (8 * ctx.draw(bits as u64 / 8)),
        }
    }

    /// A type that differs from another in one place only.
    pub fn near(&self, ty: &Ty) -> Ty {
        let mut t = ty.clone();
        let n = t.count();
        // Rather late in the signature.
        let mut at = if self.ctx.chance(1, 2) { n - 1 - self.ctx.below(n.min(3)) } else { self.ctx.below(n) };
        self.nudge(&mut t, &mut at);
        t
    }

    fn nudge(&self, ty: &mut Ty, at: &mut usize) -> bool {
        if *at == 0 {
            let key = self.basic(true);
            match (self.ctx.draw(4), ty) {
                (0, Ty::Struct(f)) => f.push(key),
                (1, Ty::Struct(f)) if f.len() > 1 => drop(f.pop()),
                (_, Ty::Basic(c)) => *c = key.code(),
                (_, t) => *t = key,
            }
            return true;
        }
        *at -= 1;
        match ty {
            Ty::Arr(e) => self.nudge(e, at),
            Ty::Struct(f) => f.iter_mut().any(|f| self.nudge(f, at)),
            Ty::Dict(k, v) => self.nudge(k, at) || self.nudge(v, at),
            _ => false,
        }
    }

    pub fn val(&self, ty: &Ty, depth: usize, dec: bool) -> Val {
        let ctx = self.ctx;
        let more = Self::take(&self.vals);
        match ty {
            Ty::Basic(b'q') => Val::U16(self.int(16) as u16),
            Ty::Basic(b'u') => Val::U32(self.int(32) as u32),
            Ty::Basic(b't') => Val::U64(self.int(64)),
            Ty::Basic(b's') => Val::Str(self.string(usize::MAX)),
            Ty::Basic(b'o') => Val::Obj(self.string(usize::MAX)),
            Ty::Basic(b'g') => Val::Sig(self.string(255)),
            Ty::Basic(_) => unreachable!(),
            Ty::Var => {
                let mut t = if depth > 40 || !more { self.basic(false) } else { self.ty(false) };
                if t.sig().len() > 255 {
                    t = Ty::Basic(b'u');
                }
                if !dec && self.long && depth < 3 && ctx.chance(1, 12) {
                    // The longest possible signatures.
                    let n = ctx.range(251, 253);
                    t = Ty::Struct((0..n).map(|_| Ty::Basic(*ctx.pick(b"qu"))).collect());
                }
                let v = self.val(&t, depth + 1, dec);
                Val::Var(t, Box::new(v))
            }
            Ty::Arr(e) => {
                let ok = if dec { e.decodable() } else { e.encodable() };
                let n = match (&**e, ok && more) {
                    (_, false) => 0,
                    // Fill round numbers of bytes exactly, or almost.
                    (Ty::Basic(b'q' | b'u' | b't'), _) if self.long && ctx.chance(1, 3) => {
                        ((1 << ctx.range(4, 12)) / e.align() + ctx.range(0, 2)).saturating_sub(1).min(1025)
                    }
                    _ => ctx.size(12).min(self.vals.get() + 1),
                };
                Val::Arr((**e).clone(), (0..n).map(|_| self.val(e, depth + 1, dec)).collect())
            }
            Ty::Struct(f) => Val::Struct(f.clone(), f.iter().map(|f| self.val(f, depth + 1, dec)).collect()),
            Ty::Dict(k, v) => Val::Dict(
                (**k).clone(),
                (**v).clone(),
                Box::new(self.val(k, depth + 1, dec)),
                Box::new(self.val(v, depth + 1, dec)),
            ),
        }
    }
}

/// One call in the history that produces a value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Obj(String),
    Sig(String),
    Var(Ty),
    Arr,
    Struct,
    Dict,
    Close,
}

impl Op {
    pub fn code(&self) -> Option<u8> {
        Some(match self {
            Op::U16(_) => b'q',
            Op::U32(_) => b'u',
            Op::U64(_) => b't',
            Op::Str(_) => b's',
            Op::Obj(_) => b'o',
            Op::Sig(_) => b'g',
            Op::Var(_) => b'v',
            Op::Arr => b'a',
            Op::Struct => b'(',
            Op::Dict => b'{',
            Op::Close => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    /// Type of the value expected before this call, if any.
    pub expect: Option<Ty>,
    /// Call that opened the innermost container, and its kind.
    pub cont: Option<(usize, u8)>,
    /// Call after the value that starts here.
    pub end: usize,
    /// Offset in the message before this call.
    pub off: usize,
    /// Elements left in the innermost array, if that is the container.
    pub left: usize,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub ty: Ty,
    pub steps: Vec<Step>,
    pub bytes: Vec<u8>,
    pub be: bool,
}

impl Plan {
    pub fn new(ty: &Ty, val: &Val, be: bool) -> Self {
        Self::at(ty, val, be, 0)
    }

    /// Marshal the value as if preceded by `off` bytes.
    pub fn at(ty: &Ty, val: &Val, be: bool, off: usize) -> Self {
        let mut p = Plan { ty: ty.clone(), steps: Vec::new(), bytes: vec![0xee; off], be };
        p.put(ty, val, None, 0);
        p
    }

    fn pad(&mut self, n: usize) {
        while self.bytes.len() % n != 0 {
            self.bytes.push(0);
        }
    }

    fn u32(&mut self, v: u32) {
        let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes.extend_from_slice(&b);
    }

    fn step(&mut self, op: Op, expect: Option<&Ty>, cont: Option<(usize, u8)>, left: usize) -> usize {
        let off = self.bytes.len();
        self.steps.push(Step { op, expect: expect.cloned(), cont, end: 0, off, left });
        self.steps.len() - 1
    }

    fn put(&mut self, ty: &Ty, val: &Val, cont: Option<(usize, u8)>, left: usize) {
        let op = match val {
            Val::U16(v) => Op::U16(*v),
            Val::U32(v) => Op::U32(*v),
            Val::U64(v) => Op::U64(*v),
            Val::Str(v) => Op::Str(v.clone()),
            Val::Obj(v) => Op::Obj(v.clone()),
            Val::Sig(v) => Op::Sig(v.clone()),
            Val::Var(t, _) => Op::Var(t.clone()),
            Val::Arr(..) => Op::Arr,
            Val::Struct(..) => Op::Struct,
            Val::Dict(..) => Op::Dict,
        };
        let i = self.step(op, Some(ty), cont, left);
        self.pad(ty.align());
        match val {
            Val::U16(v) => {
                let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
                self.bytes.extend_from_slice(&b);
            }
            Val::U32(v) => self.u32(*v),
            Val::U64(v) => {
                let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
                self.bytes.extend_from_slice(&b);
            }
            Val::Str(v) | Val::Obj(v) => {
                self.u32(v.len() as u32);
                self.bytes.extend_from_slice(v.as_bytes());
                self.bytes.push(0);
            }
            Val::Sig(v) => {
                self.bytes.push(v.len() as u8);
                self.bytes.extend_from_slice(v.as_bytes());
                self.bytes.push(0);
            }
            Val::Var(t, v) => {
                let s = t.sig();
                self.bytes.push(s.len() as u8);
                self.bytes.extend_from_slice(&s);
                self.bytes.push(0);
                self.put(t, v, Some((i, b'v')), 0);
                self.step(Op::Close, None, Some((i, b'v')), 0);
            }
            Val::Arr(t, v) => {
                let meta = self.bytes.len();
                self.u32(0);
                self.pad(t.align());
                let from = self.bytes.len();
                for (k, e) in v.iter().enumerate() {
                    self.put(t, e, Some((i, b'a')), v.len() - k);
                }
                let n = (self.bytes.len() - from) as u32;
                let b = if self.be { n.to_be_bytes() } else { n.to_le_bytes() };
                self.bytes[meta..meta + 4].copy_from_slice(&b);
                self.step(Op::Close, Some(t), Some((i, b'a')), 0);
            }
            Val::Struct(t, v) => {
                for (t, v) in t.iter().zip(v) {
                    self.put(t, v, Some((i, b'(')), 0);
                }
                self.step(Op::Close, None, Some((i, b'(')), 0);
            }
            Val::Dict(tk, tv, k, v) => {
                self.put(tk, k, Some((i, b'{')), 0);
                self.put(tv, v, Some((i, b'{')), 0);
                self.step(Op::Close, None, Some((i, b'{')), 0);
            }
        }
        self.steps[i].end = self.steps.len();
    }
}
