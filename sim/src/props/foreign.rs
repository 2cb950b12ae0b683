//! C33: cells of foreign layout in memory shared with another party.

use crate::core::{Ctx, R};
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::align::{AlignAs, Aligned};
use osi::ffi::{self, BigEndian, Integer, LittleEndian, NativeEndian, Packed, Pointer};
use osi::mem;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::num::*;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

pub const C33: Prop = Prop {
    id: "C33",
    units: 300_000,
    sweep: true,
    run: run_c33,
    real: "osi::ffi::{BigEndian, LittleEndian, Packed, Integer, Pointer, abi}, osi::mem",
    stub: "the party on the other side of the shared memory (writes raw bytes between operations), text sinks that run full, owned values whose making or release panics; reference is a byte image of the memory",
    rule: "one evaluation = one history of up to 40 operations on up to 6 cells side by side in 512 bytes of shared memory, or on up to 4 owning cells; distinct = distinct event logs (every operation with its operands, bytes and result)",
    assumptions: &["runs on a little-endian machine with 64-bit addresses", "padding of over-aligned cells has no defined content"],
};

/// Accepts a limited amount of text.
struct Limited(String, usize);

impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn hash(v: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Native numbers.
trait Raw: Copy + Ord + Hash + Debug + Display {
    const SIZE: usize;
    fn read(le: &[u8]) -> Option<Self>;
    fn write(self) -> Vec<u8>;
    fn zero() -> Option<Self>;
}

macro_rules! raw {
    ($($t:ty, $n:ty;)*) => {$(
        impl Raw for $t {
            const SIZE: usize = <$t>::BITS as usize / 8;
            fn read(le: &[u8]) -> Option<Self> {
                Some(<$t>::from_le_bytes(le.try_into().unwrap()))
            }
            fn write(self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
            fn zero() -> Option<Self> {
                Some(0)
            }
        }
        impl Raw for $n {
            const SIZE: usize = <$t>::BITS as usize / 8;
            fn read(le: &[u8]) -> Option<Self> {
                <$n>::new(<$t>::from_le_bytes(le.try_into().unwrap()))
            }
            fn write(self) -> Vec<u8> {
                self.get().to_le_bytes().to_vec()
            }
            fn zero() -> Option<Self> {
                None
            }
        }
    )*};
}

raw! {
    i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128; isize, NonZeroIsize;
    u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128; usize, NonZeroUsize;
}

/// Reads the bytes of a cell.
fn value<T: Raw>(bytes: &[u8], big: bool) -> Option<T> {
    let mut b = bytes.to_vec();
    if big {
        b.reverse();
    }
    T::read(&b)
}

/// Bytes of a value in a cell.
fn image<T: Raw>(v: T, big: bool) -> Vec<u8> {
    let mut b = v.write();
    if big {
        b.reverse();
    }
    b
}

/// A value of which the library stores one form and shows another.
trait Form<T: Raw>: Copy + Ord + Hash + Debug + Display + NativeEndian<T> {
    const BIG: bool;
    /// How it prints for debugging, given what it prints inside.
    fn debug(raw: T) -> String;
    fn make(ctx: &Ctx, v: T) -> Self;
    fn show(ctx: &Ctx, v: Self) -> T;
    fn zero() -> Option<Self>;
}

/// Foreign form of a number, as the number a native machine would read.
fn swapped<T: Raw>(v: T, big: bool) -> T {
    value(&image(v, big), false).unwrap()
}

macro_rules! form {
    ($big:expr, $name:expr, $f:ident) => {
        fn debug(raw: T) -> String {
            format!(concat!($name, "({:?})"), swapped(raw, $big))
        }
        fn make(ctx: &Ctx, v: T) -> Self {
            match ctx.draw(5) {
                0 => $f::from_native(v),
                1 => $f::from_raw(swapped(v, $big)),
                2 => <Self as NativeEndian<T>>::from_native(v),
                3 => <Self as NativeEndian<T>>::from_raw(swapped(v, $big)),
                _ => ffi::abi::native::num(v),
            }
        }
        fn show(ctx: &Ctx, v: Self) -> T {
            match ctx.draw(5) {
                0 => v.to_native(),
                1 => swapped(v.to_raw(), $big),
                2 => <Self as NativeEndian<T>>::to_native(v),
                3 => swapped(<Self as NativeEndian<T>>::to_raw(v), $big),
                _ => ffi::to_native(v),
            }
        }
    };
}

impl<T: Raw> Form<T> for BigEndian<T>
where
    Self: NativeEndian<T>,
{
    const BIG: bool = true;
    form!(true, "BigEndian", BigEndian);
    fn zero() -> Option<Self> {
        T::zero().map(Self::from_native)
    }
}

impl<T: Raw> Form<T> for LittleEndian<T>
where
    Self: NativeEndian<T>,
{
    const BIG: bool = false;
    form!(false, "LittleEndian", LittleEndian);
    fn zero() -> Option<Self> {
        T::zero().map(Self::from_native)
    }
}

/// A number kept as is.
macro_rules! native {
    ($($t:ty)*) => {$(
        impl Form<$t> for $t {
            const BIG: bool = false;
            fn debug(raw: $t) -> String {
                format!("{raw:?}")
            }
            fn make(ctx: &Ctx, v: $t) -> Self {
                match ctx.draw(3) {
                    0 => v,
                    1 => ffi::from_native(v),
                    _ => ffi::from_raw(v),
                }
            }
            fn show(ctx: &Ctx, v: Self) -> $t {
                match ctx.draw(3) {
                    0 => v,
                    1 => ffi::to_native(v),
                    _ => ffi::to_raw(v),
                }
            }
            fn zero() -> Option<Self> {
                <$t as Raw>::zero()
            }
        }
    )*};
}

native! {
    i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize
    NonZeroI8 NonZeroI16 NonZeroI32 NonZeroI64 NonZeroI128 NonZeroIsize
    NonZeroU8 NonZeroU16 NonZeroU32 NonZeroU64 NonZeroU128 NonZeroUsize
}

/// Operations on a cell in place.
trait Place<T: Raw>: Copy + Ord + Hash + Debug + Display {
    const BIG: bool;
    const NAME: &'static str;
    fn debug(raw: T) -> String;
    fn make(ctx: &Ctx, v: T) -> Self;
    fn show(&self, ctx: &Ctx) -> T;
    fn set(&mut self, ctx: &Ctx, v: T);
    /// Changes the value and returns the old one, if supported.
    fn replace(&mut self, ctx: &Ctx, v: T) -> T;
    /// Takes the value, if there is a default.
    fn take(&mut self, _: &Ctx) -> Option<T> {
        None
    }
    /// Anything specific to the kind of cell.
    fn extra(&mut self, _: &Ctx, _: T) -> R {
        Ok(())
    }
}

/// A bare form is only ever assigned as a whole.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
struct Bare<F>(F);

impl<F: Debug> Debug for Bare<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<F: Display> Display for Bare<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<T: Raw, F: Form<T>> Place<T> for Bare<F> {
    const BIG: bool = F::BIG;
    const NAME: &'static str = "bare";
    fn debug(raw: T) -> String {
        F::debug(raw)
    }
    fn make(ctx: &Ctx, v: T) -> Self {
        Bare(F::make(ctx, v))
    }
    fn show(&self, ctx: &Ctx) -> T {
        F::show(ctx, if ctx.chance(1, 2) { self.0 } else { #[allow(clippy::clone_on_copy)] self.0.clone() })
    }
    fn set(&mut self, ctx: &Ctx, v: T) {
        self.0 = F::make(ctx, v);
    }
    fn replace(&mut self, ctx: &Ctx, v: T) -> T {
        let new = F::make(ctx, v);
        F::show(ctx, std::mem::replace(&mut self.0, new))
    }
    fn take(&mut self, ctx: &Ctx) -> Option<T> {
        let z = F::zero()?;
        Some(F::show(ctx, std::mem::replace(&mut self.0, z)))
    }
}

macro_rules! holder {
    () => {
        fn set(&mut self, ctx: &Ctx, v: T) {
            let f = F::make(ctx, v);
            match ctx.draw(3) {
                0 => (*self).set(f),
                // SAFETY: Pointer to the unaligned value of this cell.
                1 => unsafe { self.as_mut_ptr().write_unaligned(f) },
                _ => drop(self.replace(f)),
            }
        }
        fn replace(&mut self, ctx: &Ctx, v: T) -> T {
            let f = F::make(ctx, v);
            F::show(ctx, (*self).replace(f))
        }
        fn extra(&mut self, ctx: &Ctx, v: T) -> R {
            // SAFETY: Pointers to the unaligned value of this cell.
            let (a, b) = unsafe { (self.as_ptr().read_unaligned(), self.as_mut_ptr().read_unaligned()) };
            ensure!(F::show(ctx, a) == v && F::show(ctx, b) == v, "pointer shows {a:?} or {b:?}, not {v:?}");
            let copy = *self;
            ensure!(F::show(ctx, copy.into_inner()) == v, "unwraps to {:?}, not {v:?}", self.get());
            Ok(())
        }
    };
}

impl<T: Raw, F: Form<T>> Place<T> for Packed<F> {
    const BIG: bool = F::BIG;
    const NAME: &'static str = "packed";
    fn debug(raw: T) -> String {
        format!("Packed({})", F::debug(raw))
    }
    fn make(ctx: &Ctx, v: T) -> Self {
        let f = F::make(ctx, v);
        if ctx.chance(1, 2) { Packed::new(f) } else { f.into() }
    }
    fn show(&self, ctx: &Ctx) -> T {
        #[allow(clippy::clone_on_copy)]
        F::show(ctx, if ctx.chance(1, 2) { self.get() } else { self.clone().into_inner() })
    }
    holder!();
}

impl<T: Raw, F: Form<T>, A: Aligned> Place<T> for Integer<F, A> {
    const BIG: bool = F::BIG;
    const NAME: &'static str = "integer";
    fn debug(raw: T) -> String {
        format!("Integer({})", F::debug(raw))
    }
    fn make(ctx: &Ctx, v: T) -> Self {
        match ctx.draw(6) {
            0 => Integer::new(F::make(ctx, v)),
            1 => F::make(ctx, v).into(),
            2 => Integer::from_native(v),
            3 => Integer::from_raw(swapped(v, F::BIG)),
            4 => ffi::abi::target::num(v),
            _ => <Self as NativeEndian<T>>::from_native(v),
        }
    }
    fn show(&self, ctx: &Ctx) -> T {
        match ctx.draw(5) {
            0 => F::show(ctx, self.get()),
            1 => self.to_native(),
            2 => swapped(self.to_raw(), F::BIG),
            3 => <Self as NativeEndian<T>>::to_native(*self),
            #[allow(clippy::clone_on_copy)]
            _ => F::show(ctx, self.clone().into_inner()),
        }
    }
    holder!();
}

/// Cells with a default.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
struct Clearing<P>(P);

impl<P: Debug> Debug for Clearing<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<P: Display> Display for Clearing<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

macro_rules! clearing {
    ($(<$($g:ident: $b:path),*> $t:ty;)*) => {$(
        impl<T: Raw, F: Form<T> + Default $(, $g: $b)*> Place<T> for Clearing<$t> {
            const BIG: bool = F::BIG;
            const NAME: &'static str = "clearing";
            fn debug(raw: T) -> String {
                <$t as Place<T>>::debug(raw)
            }
            fn make(ctx: &Ctx, v: T) -> Self {
                Clearing(<$t as Place<T>>::make(ctx, v))
            }
            fn show(&self, ctx: &Ctx) -> T {
                Place::show(&self.0, ctx)
            }
            fn set(&mut self, ctx: &Ctx, v: T) {
                Place::set(&mut self.0, ctx, v)
            }
            fn replace(&mut self, ctx: &Ctx, v: T) -> T {
                Place::replace(&mut self.0, ctx, v)
            }
            fn take(&mut self, ctx: &Ctx) -> Option<T> {
                Some(F::show(ctx, self.0.take()))
            }
            fn extra(&mut self, ctx: &Ctx, v: T) -> R {
                let d = <$t>::default();
                ensure!(Some(Place::show(&d, ctx)) == T::zero(), "default is {d:?}");
                self.0.extra(ctx, v)
            }
        }
    )*};
}

clearing! {
    <> Packed<F>;
    <A: Aligned> Integer<F, A>;
}

/// Addresses.
impl<T: Raw, F: Form<T>, A: Aligned> Place<T> for Pointer<Integer<F, A>, u32> {
    const BIG: bool = F::BIG;
    const NAME: &'static str = "pointer";
    fn debug(raw: T) -> String {
        format!("Pointer(Integer({}))", F::debug(raw))
    }
    fn make(ctx: &Ctx, v: T) -> Self {
        match ctx.draw(3) {
            0 => Pointer::new(<Integer<F, A> as Place<T>>::make(ctx, v)),
            1 => Pointer::from_native(v),
            _ => Pointer::from_raw(swapped(v, F::BIG)),
        }
    }
    fn show(&self, ctx: &Ctx) -> T {
        match ctx.draw(6) {
            0 => Place::show(&self.get(), ctx),
            1 => Place::show(self.address(), ctx),
            2 => self.to_native(),
            3 => swapped(self.to_raw(), F::BIG),
            4 => Place::show(&self.cast::<u8>().into_inner(), ctx),
            #[allow(clippy::clone_on_copy)]
            _ => Place::show(&self.clone().cast_into::<u8>().into_inner(), ctx),
        }
    }
    fn set(&mut self, ctx: &Ctx, v: T) {
        let a = <Integer<F, A> as Place<T>>::make(ctx, v);
        Pointer::set(self, a);
    }
    fn replace(&mut self, ctx: &Ctx, v: T) -> T {
        let a = <Integer<F, A> as Place<T>>::make(ctx, v);
        Place::show(&Pointer::replace(self, a), ctx)
    }
}

/// Native addresses, which may be turned into pointers.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
struct Native<A>(Pointer<A, u32>);

impl<A: Debug> Debug for Native<A> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<A: Display> Display for Native<A> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

macro_rules! addresses {
    ($($t:ty, $a:ty, $d:expr;)*) => {$(
        impl Place<$t> for Native<$a> {
            const BIG: bool = false;
            const NAME: &'static str = "native";
            fn debug(raw: $t) -> String {
                format!($d, raw)
            }
            fn make(ctx: &Ctx, v: $t) -> Self {
                let n: usize = <usize as Raw>::read(&v.write()).unwrap();
                if n == 0 {
                    return Native(Pointer::from_native(v));
                }
                Native(match ctx.draw(6) {
                    0 => Pointer::from_usize(n).unwrap(),
                    1 => Pointer::try_from(n).unwrap(),
                    2 => Pointer::try_from(n as *const u32).unwrap(),
                    3 => Pointer::try_from(n as *mut u32).unwrap(),
                    // SAFETY: Not zero.
                    4 => unsafe { Pointer::from_usize_unchecked(n) },
                    _ => Pointer::from_native(v),
                })
            }
            fn show(&self, ctx: &Ctx) -> $t {
                let n = match ctx.draw(5) {
                    0 => self.0.to_usize(),
                    1 => self.0.into_usize(),
                    2 => self.0.as_ptr() as usize,
                    3 => self.0.as_mut_ptr() as usize,
                    _ => return self.0.to_native(),
                };
                <$t as Raw>::read(&n.write()).unwrap()
            }
            fn set(&mut self, ctx: &Ctx, v: $t) {
                let a = <Self as Place<$t>>::make(ctx, v);
                self.0.set(a.0.get());
            }
            fn replace(&mut self, ctx: &Ctx, v: $t) -> $t {
                let a = <Self as Place<$t>>::make(ctx, v);
                Native(Pointer::new(self.0.replace(a.0.into_inner()))).show(ctx)
            }
            fn extra(&mut self, ctx: &Ctx, v: $t) -> R {
                type P = Pointer<$a, u32>;
                ensure!(P::from_usize(0).is_none(), "the null address is accepted");
                ensure!(P::try_from(0usize).is_err(), "the null address is accepted");
                ensure!(P::try_from(std::ptr::null::<u32>()).is_err(), "the null pointer is accepted");
                ensure!(P::try_from(std::ptr::null_mut::<u32>()).is_err(), "the null pointer is accepted");
                let d = P::dangling().to_usize();
                ensure!(d != 0 && d % align_of::<u32>() == 0, "dangling pointer at {d}");
                // Point somewhere, and access that.
                let mut x = ctx.u64() as u32;
                let (want, next) = (x, ctx.u64() as u32);
                let p = if ctx.chance(1, 2) { P::from(&mut x) } else { P::try_from(&raw mut x).unwrap() };
                // SAFETY: Points to the variable above.
                let (a, b) = unsafe { (*p.as_ref(), std::mem::replace(p.as_mut(), next)) };
                ensure!(a == want && b == want, "pointer leads to {a} or {b}, not {want}");
                // SAFETY: Still the same variable.
                let c = unsafe { (&raw const x).read_volatile() };
                ensure!(c == next, "write through the pointer is lost");
                ensure!(self.show(ctx) == v, "unrelated pointer changed");
                Ok(())
            }
        }
    )*};
}

type Int<F, const N: usize> = Integer<F, AlignAs<N>>;
type Big<T> = BigEndian<T>;
type Little<T> = LittleEndian<T>;

/// One kind of cell.
struct Kind {
    size: usize,
    align: usize,
    width: usize,
    big: bool,
    zero: bool,
    name: fn() -> String,
    step: fn(&Ctx, &mut [u8], &mut [u8]) -> R,
}

fn kind<T: Raw, P: Place<T>>() -> Kind {
    Kind {
        size: size_of::<P>(),
        align: align_of::<P>(),
        width: T::SIZE,
        big: P::BIG,
        zero: T::zero().is_some(),
        name: || format!("{} {}", P::NAME, std::any::type_name::<T>()),
        step: step::<T, P>,
    }
}

/// A value, often an interesting one.
fn number<T: Raw>(ctx: &Ctx) -> T {
    let mut b = ctx.bytes(T::SIZE);
    match ctx.draw(5) {
        0 => b.fill(0),
        1 => b.fill(0xff),
        2 => {
            b.fill(0);
            let i = ctx.below(b.len());
            b[i] = 1 << ctx.below(8);
        }
        3 => {
            let n = ctx.range(1, b.len());
            b[n..].fill(0);
        }
        _ => (),
    }
    T::read(&b).unwrap_or_else(|| {
        b[0] = 1;
        T::read(&b).unwrap()
    })
}

fn step<T: Raw, P: Place<T>>(ctx: &Ctx, mem: &mut [u8], model: &mut [u8]) -> R {
    let v: T = value(&model[..T::SIZE], P::BIG).unwrap();
    // SAFETY: The memory is aligned and large enough for this type of cell,
    // and holds a valid value. The prefix in use is initialized always.
    let cell = unsafe { &mut *(mem.as_mut_ptr() as *mut P) };
    match ctx.draw(11) {
        0 | 1 => {
            let r = cell.show(ctx);
            ensure!(r == v, "{} shows {r:?}, not {v:?}", P::NAME);
        }
        2 | 3 => {
            let n: T = number(ctx);
            ctx.ev_bytes("set", &n.write());
            cell.set(ctx, n);
            model[..T::SIZE].copy_from_slice(&image(n, P::BIG));
        }
        4 => {
            let n: T = number(ctx);
            ctx.ev_bytes("replace", &n.write());
            let r = Place::replace(cell, ctx, n);
            ensure!(r == v, "replacing returns {r:?}, not {v:?}");
            model[..T::SIZE].copy_from_slice(&image(n, P::BIG));
        }
        5 => {
            if let Some(r) = cell.take(ctx) {
                ctx.ev("take", 0, 0);
                ensure!(r == v, "taking returns {r:?}, not {v:?}");
                ensure!(T::zero().is_some(), "took a value that has no default");
                model[..T::SIZE].fill(0);
            }
        }
        6 => {
            // Compare with another one, on the stack.
            let n: T = if ctx.chance(1, 3) { v } else { number(ctx) };
            let other = P::make(ctx, n);
            ctx.ev("compare", (n == v) as u64, (v < n) as u64);
            ensure!((*cell == other) == (v == n), "{v:?} and {n:?} compare wrong");
            ensure!((*cell != other) == (v != n), "{v:?} and {n:?} compare wrong");
            ensure!(Ord::cmp(cell, &other) == v.cmp(&n), "{v:?} and {n:?} order wrong");
            ensure!(PartialOrd::partial_cmp(cell, &other) == Some(v.cmp(&n)), "{v:?} and {n:?} order wrong");
            ensure!(hash(cell) == hash(&v), "{v:?} hashes unlike itself");
            ensure!(hash(&other) == hash(&n), "{n:?} hashes unlike itself");
        }
        7 => {
            // Print, with or without enough room.
            let debug = ctx.chance(1, 2);
            let want = if debug { P::debug(v) } else { format!("{v}") };
            let room = if ctx.fault("text_sink_full", 1, 3) { ctx.below(want.len()) } else { usize::MAX };
            let mut out = Limited(String::new(), room);
            use fmt::Write as _;
            let r = if debug { write!(out, "{cell:?}") } else { write!(out, "{cell}") };
            ctx.ev_str("print", &out.0);
            ensure!(r.is_ok() == (room == usize::MAX), "printing {want} with room for {room} yields {r:?}");
            ensure!(want.starts_with(&out.0), "prints {} instead of {want}", out.0);
            ensure!(r.is_err() || out.0 == want, "prints {} instead of {want}", out.0);
            if !debug {
                let w = ctx.range(0, 45);
                ensure!(format!("{cell:w$}") == format!("{v:w$}"), "prints {cell:w$} to width {w}");
                ensure!(format!("{cell:+}") == format!("{v:+}"), "prints {cell:+} with a sign");
            }
        }
        8 => {
            // Copies are independent.
            let mut copy = *cell;
            let n: T = number(ctx);
            copy.set(ctx, n);
            ensure!(copy.show(ctx) == n, "a copy set to {n:?} shows {copy:?}");
            ensure!(cell.show(ctx) == v, "changing a copy changes the original");
        }
        9 => cell.extra(ctx, v)?,
        _ => memory::<T, P>(ctx, cell, v, &mut model[..T::SIZE])?,
    }
    Ok(())
}

/// Access to the memory behind a cell, wherever it is.
fn memory<T: Raw, P: Place<T>>(ctx: &Ctx, cell: &mut P, v: T, bytes: &mut [u8]) -> R {
    // SAFETY: A cell starts with its value, padded at most.
    let (short, long) = unsafe {
        (
            mem::transmute_copy_uninit::<P, T>(cell),
            mem::transmute_copy_uninit::<P, MaybeUninit<[u8; 48]>>(cell),
        )
    };
    ensure!(short == swapped(v, P::BIG), "memory of {v:?} copied as {short:?}");
    // SAFETY: That much is initialized.
    let start = unsafe { std::slice::from_raw_parts(long.as_ptr() as *const u8, T::SIZE) };
    ensure!(start == bytes, "memory {bytes:?} of {v:?} copied as {start:?}");
    if size_of::<P>() > T::SIZE {
        return Ok(());
    }
    let n: T = if ctx.chance(1, 3) { v } else { number(ctx) };
    let other = P::make(ctx, n);
    // SAFETY: There is no padding, and any order of bytes is valid.
    unsafe {
        ensure!(mem::as_bytes(cell) == bytes, "bytes of {v:?} are {:?}", mem::as_bytes(cell));
        ensure!(mem::eq(cell, &other) == (v == n), "memory of {v:?} and {n:?} compares wrong");
        let back = mem::bswap_copy(cell);
        ensure!(back.show(ctx) == swapped(v, true), "{v:?} with reversed bytes shows {back:?}");
        mem::as_bytes_mut(cell).copy_from_slice(&image(n, P::BIG));
    }
    ctx.ev_bytes("bytewise", &n.write());
    bytes.copy_from_slice(&image(n, P::BIG));
    ensure!(cell.show(ctx) == n, "set by bytes to {n:?}, shows {cell:?}");
    macro_rules! odd {
        ($($n:literal)*) => {
            match ctx.range(1, 9) {
                $($n => {
                    let a: [u8; $n] = ctx.bytes($n).try_into().unwrap();
                    let mut want = a;
                    want.reverse();
                    // SAFETY: Any order of bytes is valid.
                    let b = unsafe { mem::bswap_copy(&a) };
                    ensure!(b == want, "{a:?} reversed is {b:?}");
                })*
                _ => (),
            }
        };
    }
    odd!(1 2 3 4 5 6 7 8 9);
    Ok(())
}

macro_rules! kinds {
    ($($t:ty, $n:ty;)*) => {
        vec![$(
            kind::<$t, Bare<Big<$t>>>(),
            kind::<$t, Bare<Little<$t>>>(),
            kind::<$t, Packed<$t>>(),
            kind::<$t, Clearing<Packed<$t>>>(),
            kind::<$t, Clearing<Packed<Big<$t>>>>(),
            kind::<$t, Packed<Little<$t>>>(),
            kind::<$t, Int<$t, 1>>(),
            kind::<$t, Clearing<Int<Big<$t>, 4>>>(),
            kind::<$t, Clearing<Int<Little<$t>, 2>>>(),
            kind::<$t, Int<Big<$t>, 16>>(),
            kind::<$t, Pointer<Int<Big<$t>, 8>, u32>>(),
            kind::<$n, Bare<Big<$n>>>(),
            kind::<$n, Bare<Little<$n>>>(),
            kind::<$n, Packed<$n>>(),
            kind::<$n, Packed<Big<$n>>>(),
            kind::<$n, Int<Little<$n>, 8>>(),
            kind::<$n, Int<Big<$n>, 1>>(),
            kind::<$n, Pointer<Int<Little<$n>, 4>, u32>>(),
            kind::<$n, Pointer<Int<Big<$n>, 4>, u32>>(),
        )*]
    };
}

addresses! {
    usize, usize, "Pointer({:?})";
    u64, u64, "Pointer({:?})";
    NonZeroUsize, NonZeroUsize, "Pointer({:?})";
    NonZeroU64, NonZeroU64, "Pointer({:?})";
    u64, Int<u64, 4>, "Pointer(Integer({:?}))";
    NonZeroU64, Int<NonZeroU64, 1>, "Pointer(Integer({:?}))";
}

macro_rules! abi {
    ($all:ident: $($m:ident $cap:literal)*) => {$({
        use ffi::abi::$m::*;
        let before = $all.len();
        $all.push(kind::<i8, I8>());
        $all.push(kind::<i16, I16>());
        $all.push(kind::<i32, I32>());
        $all.push(kind::<i64, I64>());
        $all.push(kind::<i128, I128>());
        $all.push(kind::<u8, U8>());
        $all.push(kind::<u16, U16>());
        $all.push(kind::<u32, U32>());
        $all.push(kind::<u64, U64>());
        $all.push(kind::<u128, U128>());
        for (i, k) in $all[before..].iter().enumerate() {
            let w = 1usize << (i % 5);
            assert!(k.size == w && k.align == if w == 8 { $cap } else { w });
        }
    })*};
}

fn all() -> &'static [Kind] {
    static ALL: std::sync::OnceLock<Vec<Kind>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut all = kinds! {
            i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128; isize, NonZeroIsize;
            u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128; usize, NonZeroUsize;
        };
        all.push(kind::<usize, Native<usize>>());
        all.push(kind::<u64, Native<u64>>());
        all.push(kind::<NonZeroUsize, Native<NonZeroUsize>>());
        all.push(kind::<NonZeroU64, Native<NonZeroU64>>());
        all.push(kind::<u64, Native<Int<u64, 4>>>());
        all.push(kind::<NonZeroU64, Native<Int<NonZeroU64, 1>>>());
        abi!(all: aarch64_sysv 8 x86_sysv 4 x86_64_sysv 8);
        all
    })
}

const ROOM: usize = 512;

#[repr(align(64))]
struct Shared([u8; ROOM]);

fn run_c33(ctx: &Ctx) -> R {
    if ctx.chance(1, 5) {
        return owning(ctx);
    }
    let all = all();
    let mut mem = Shared([0; ROOM]);
    let fill = ctx.bytes(ROOM);
    mem.0.copy_from_slice(&fill);
    let mut model = mem.0.to_vec();

    // Lay out the cells.
    let mut cells: Vec<(usize, &Kind)> = Vec::new();
    let mut at = 0;
    for _ in 0..ctx.range(1, 6) {
        let k = &all[ctx.below(all.len())];
        at += ctx.range(0, 9);
        at = at.next_multiple_of(k.align);
        if at + k.size > ROOM {
            break;
        }
        ctx.ev_str("cell", &(k.name)());
        ctx.ev("place", at as u64, k.size as u64);
        peer(ctx, &mut mem.0[at..at + k.width], k);
        model[at..at + k.width].copy_from_slice(&mem.0[at..at + k.width]);
        cells.push((at, k));
        at += k.size;
    }

    for _ in 0..ctx.range(1, 40) {
        ctx.tick();
        let (at, k) = cells[ctx.below(cells.len())];
        ctx.state(k.width as u64, at as u64 % 16, k.big as u64);
        if ctx.fault("peer_writes", 1, 4) {
            // The other side changes the memory.
            peer(ctx, &mut mem.0[at..at + k.width], k);
            model[at..at + k.width].copy_from_slice(&mem.0[at..at + k.width]);
        }
        let n = at + k.size;
        (k.step)(ctx, &mut mem.0[at..n], &mut model[at..n])?;
        // Padding of a cell is nobody's business.
        mem.0[at + k.width..n].copy_from_slice(&model[at + k.width..n]);
        if mem.0[..] != model[..] {
            let i = mem.0.iter().zip(&model).position(|(a, b)| a != b).unwrap();
            let place = if i < at || i >= n { "outside of" } else { "in" };
            fail!(
                "{}: byte {} is {:#04x} instead of {:#04x}, {place} the cell at {at}..{n}",
                (k.name)(), i, mem.0[i], model[i]
            );
        }
        ctx.ev_bytes("bytes", &mem.0[at..n]);
    }
    Ok(())
}

/// The other side stores a value.
fn peer(ctx: &Ctx, bytes: &mut [u8], k: &Kind) {
    let new = ctx.bytes(bytes.len());
    bytes.copy_from_slice(&new);
    match ctx.draw(4) {
        0 => bytes.fill(0),
        1 => {
            let n = ctx.below(bytes.len());
            bytes[..n].fill(0);
        }
        _ => (),
    }
    if !k.zero && bytes.iter().all(|v| *v == 0) {
        let n = ctx.below(bytes.len());
        bytes[n] = 1;
    }
    ctx.ev_bytes("peer", bytes);
}

thread_local! {
    static RELEASED: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static PANIC: Cell<u8> = const { Cell::new(0) };
    static CROOKED: Cell<bool> = const { Cell::new(false) };
}

struct Planned;

/// An owned value which is not copied and must be released once.
struct Own(u64);

impl Own {
    fn new() -> Self {
        NEXT.set(NEXT.get() + 1);
        Own(NEXT.get())
    }
}
impl Default for Own {
    fn default() -> Self {
        if PANIC.get() == 1 {
            PANIC.set(0);
            resume_unwind(Box::new(Planned));
        }
        Own::new()
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        if !(&raw const *self as usize).is_multiple_of(align_of::<Own>()) {
            CROOKED.set(true);
        }
        RELEASED.with_borrow_mut(|v| v.push(self.0));
        self.0 = 0;
        if PANIC.get() == 2 {
            PANIC.set(0);
            resume_unwind(Box::new(Planned));
        }
    }
}

fn survives<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) if e.is::<Planned>() => None,
        Err(e) => resume_unwind(e),
    }
}

/// Cells that own what they hold.
trait Owning: Sized {
    fn make(v: Own) -> Self;
    fn set(&mut self, v: Own);
    fn replace(&mut self, v: Own) -> Own;
    fn take(&mut self) -> Own;
    fn unwrap(self) -> Own;
    fn peek(&self) -> u64;
}

impl Owning for Packed<Own> {
    fn make(v: Own) -> Self {
        Packed::new(v)
    }
    fn set(&mut self, v: Own) {
        Packed::set(self, v)
    }
    fn replace(&mut self, v: Own) -> Own {
        Packed::replace(self, v)
    }
    fn take(&mut self) -> Own {
        Packed::take(self)
    }
    fn unwrap(self) -> Own {
        self.into_inner()
    }
    fn peek(&self) -> u64 {
        // SAFETY: Just looks at the number.
        unsafe { (self.as_ptr() as *const u64).read_unaligned() }
    }
}

impl<A: Aligned> Owning for Integer<Own, A> {
    fn make(v: Own) -> Self {
        v.into()
    }
    fn set(&mut self, v: Own) {
        Integer::set(self, v)
    }
    fn replace(&mut self, v: Own) -> Own {
        Integer::replace(self, v)
    }
    fn take(&mut self) -> Own {
        Integer::take(self)
    }
    fn unwrap(self) -> Own {
        self.into_inner()
    }
    fn peek(&self) -> u64 {
        // SAFETY: Just looks at the number.
        unsafe { (self.as_ptr() as *const u64).read_unaligned() }
    }
}

impl Owning for Pointer<Own, str> {
    fn make(v: Own) -> Self {
        Pointer::new(v)
    }
    fn set(&mut self, v: Own) {
        Pointer::set(self, v)
    }
    fn replace(&mut self, v: Own) -> Own {
        Pointer::replace(self, v)
    }
    fn take(&mut self) -> Own {
        let d = Own::default();
        Pointer::replace(self, d)
    }
    fn unwrap(self) -> Own {
        if self.peek() % 2 == 0 { self.into_inner() } else { self.cast_into::<u8>().into_inner() }
    }
    fn peek(&self) -> u64 {
        self.address().0
    }
}

fn owning(ctx: &Ctx) -> R {
    RELEASED.with_borrow_mut(Vec::clear);
    NEXT.set(0);
    PANIC.set(0);
    CROOKED.set(false);
    match ctx.draw(4) {
        0 => owners::<Packed<Own>>(ctx),
        1 => owners::<Integer<Own, AlignAs<2>>>(ctx),
        2 => owners::<Integer<Own, AlignAs<16>>>(ctx),
        _ => owners::<Pointer<Own, str>>(ctx),
    }
}

/// Shifts a cell to an odd place, as far as its alignment permits.
#[repr(C)]
struct Shifted<P>(u8, P);

fn owners<P: Owning>(ctx: &Ctx) -> R {
    let mut cells: Vec<(Box<Shifted<P>>, u64)> = Vec::new();
    let mut gone: Vec<u64> = Vec::new();
    for _ in 0..ctx.range(1, 30) {
        ctx.tick();
        if cells.is_empty() || cells.len() < 4 && ctx.chance(1, 4) {
            let v = Own::new();
            let id = v.0;
            cells.push((Box::new(Shifted(7, P::make(v))), id));
            ctx.ev("make", id, 0);
            continue;
        }
        let i = ctx.below(cells.len());
        ctx.state(40, i as u64, cells.len() as u64);
        match ctx.draw(5) {
            0 => {
                let v = Own::new();
                let id = v.0;
                let bad = ctx.fault("release_panics", 1, 4);
                PANIC.set(if bad { 2 } else { 0 });
                let r = survives(|| cells[i].0.1.set(v));
                PANIC.set(0);
                ctx.ev("set", i as u64, r.is_some() as u64);
                ensure!(r.is_none() == bad, "a release that panics is not passed on");
                gone.push(cells[i].1);
                cells[i].1 = id;
            }
            1 => {
                let v = Own::new();
                let id = v.0;
                let old = cells[i].0.1.replace(v);
                ctx.ev("replace", i as u64, old.0);
                ensure!(old.0 == cells[i].1, "replacing returns value {} instead of {}", old.0, cells[i].1);
                gone.push(old.0);
                cells[i].1 = id;
            }
            2 => {
                let bad = ctx.fault("default_panics", 1, 3);
                PANIC.set(if bad { 1 } else { 0 });
                let r = survives(|| cells[i].0.1.take());
                PANIC.set(0);
                ctx.ev("take", i as u64, r.is_some() as u64);
                ensure!(r.is_none() == bad, "a default that panics is not passed on");
                if let Some(old) = r {
                    ensure!(old.0 == cells[i].1, "taking returns value {} instead of {}", old.0, cells[i].1);
                    gone.push(old.0);
                    cells[i].1 = NEXT.get();
                }
            }
            3 => {
                let (c, id) = cells.remove(i);
                let v = c.1.unwrap();
                ctx.ev("unwrap", i as u64, v.0);
                ensure!(v.0 == id, "unwrapping returns value {} instead of {id}", v.0);
                gone.push(id);
            }
            _ => {
                let (c, id) = cells.remove(i);
                ctx.fault("cell_dropped", 1, 1);
                ctx.ev("drop", i as u64, id);
                drop(c);
                gone.push(id);
            }
        }
        for (c, id) in &cells {
            ensure!(c.1.peek() == *id && c.0 == 7, "cell holds value {} instead of {id}", c.1.peek());
        }
        check(&gone)?;
    }
    for (c, id) in cells {
        drop(c);
        gone.push(id);
    }
    check(&gone)
}

fn check(gone: &[u64]) -> R {
    let mut want = gone.to_vec();
    want.sort();
    let mut have = RELEASED.with_borrow(|v| v.clone());
    have.sort();
    ensure!(want == have, "values {have:?} were released, not {want:?}");
    ensure!(!CROOKED.get(), "a value was released at an address it cannot be at");
    Ok(())
}
