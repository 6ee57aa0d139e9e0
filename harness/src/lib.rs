//! C-ABI entry points over the public API of `highway`, one set per hasher type.
//!
//! Only pointers and integers cross the boundary, so the same functions are executed
//! symbolically (from their LLVM IR, linked with the crate's IR) and natively (linked
//! with replay/driver.c) with no ABI-dependent lowering in between.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(clippy::missing_safety_doc, non_snake_case, static_mut_refs)]

use core::fmt::{Debug, Write as _};
use core::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

#[cfg(not(feature = "std"))]
#[cfg(not(test))]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    #[cfg(target_family = "wasm")]
    core::arch::wasm32::unreachable();
    #[cfg(not(target_family = "wasm"))]
    {
        extern "C" {
            fn hw_panicked() -> !;
        }
        unsafe { hw_panicked() }
    }
}

#[inline(always)]
unsafe fn key(p: *const [u64; 4]) -> Key {
    Key(core::ptr::read_unaligned(p))
}

#[inline(always)]
unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    core::slice::from_raw_parts(p, n)
}

/// text sink used natively for Debug output: counts, and keeps a prefix
pub struct Sink {
    buf: *mut u8,
    cap: usize,
    len: usize,
}

impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.as_bytes() {
            if self.len < self.cap {
                unsafe { *self.buf.add(self.len) = *b };
            }
            self.len += 1;
        }
        Ok(())
    }
}

macro_rules! common {
    ($p:literal, $t:ty) => {
        #[export_name = concat!($p, "_size")]
        pub extern "C" fn size() -> usize {
            core::mem::size_of::<$t>()
        }
        #[export_name = concat!($p, "_align")]
        pub extern "C" fn align() -> usize {
            core::mem::align_of::<$t>()
        }
        #[export_name = concat!($p, "_default")]
        pub unsafe extern "C" fn default(out: *mut $t) {
            out.write(<$t as Default>::default());
        }
        #[export_name = concat!($p, "_append")]
        pub unsafe extern "C" fn append(h: *mut $t, p: *const u8, n: usize) {
            HighwayHash::append(&mut *h, bytes(p, n));
        }
        #[export_name = concat!($p, "_clone")]
        pub unsafe extern "C" fn clone(h: *const $t, out: *mut $t) {
            out.write(Clone::clone(&*h));
        }
        #[export_name = concat!($p, "_clonefrom")]
        pub unsafe extern "C" fn clonefrom(h: *mut $t, src: *const $t) {
            Clone::clone_from(&mut *h, &*src);
        }
        #[export_name = concat!($p, "_checkpoint")]
        pub unsafe extern "C" fn checkpoint(h: *const $t, out: *mut [u8; 164]) {
            out.write(HighwayHash::checkpoint(&*h));
        }
        #[export_name = concat!($p, "_fin64")]
        pub unsafe extern "C" fn fin64(h: *const $t, out: *mut u64) {
            out.write(HighwayHash::finalize64(h.read()));
        }
        #[export_name = concat!($p, "_fin128")]
        pub unsafe extern "C" fn fin128(h: *const $t, out: *mut [u64; 2]) {
            out.write(HighwayHash::finalize128(h.read()));
        }
        #[export_name = concat!($p, "_fin256")]
        pub unsafe extern "C" fn fin256(h: *const $t, out: *mut [u64; 4]) {
            out.write(HighwayHash::finalize256(h.read()));
        }
        #[export_name = concat!($p, "_hash64")]
        pub unsafe extern "C" fn hash64(h: *const $t, p: *const u8, n: usize, out: *mut u64) {
            out.write(HighwayHash::hash64(h.read(), bytes(p, n)));
        }
        #[export_name = concat!($p, "_hash128")]
        pub unsafe extern "C" fn hash128(h: *const $t, p: *const u8, n: usize, out: *mut [u64; 2]) {
            out.write(HighwayHash::hash128(h.read(), bytes(p, n)));
        }
        #[export_name = concat!($p, "_hash256")]
        pub unsafe extern "C" fn hash256(h: *const $t, p: *const u8, n: usize, out: *mut [u64; 4]) {
            out.write(HighwayHash::hash256(h.read(), bytes(p, n)));
        }
        #[export_name = concat!($p, "_drop")]
        pub unsafe extern "C" fn drop(h: *mut $t) {
            core::ptr::drop_in_place(h);
        }
        /// Debug formatting with a caller-made Formatter (symbolic execution)
        #[export_name = concat!($p, "_debug")]
        pub unsafe extern "C" fn debug(h: *const $t, f: *mut core::fmt::Formatter<'_>) -> u8 {
            Debug::fmt(&*h, &mut *f).is_err() as u8
        }
        /// Debug formatting into a fixed buffer (native)
        #[export_name = concat!($p, "_dbgtext")]
        pub unsafe extern "C" fn dbgtext(h: *const $t, alt: u8, buf: *mut u8, cap: usize) -> usize {
            let mut s = Sink { buf, cap, len: 0 };
            let r = if alt != 0 { write!(s, "{:#?}", &*h) } else { write!(s, "{:?}", &*h) };
            if r.is_err() {
                return usize::MAX;
            }
            s.len
        }
    };
}

macro_rules! adapters {
    ($p:literal, $t:ty) => {
        #[export_name = concat!($p, "_bhdefault")]
        pub unsafe extern "C" fn bhdefault(out: *mut $t) {
            let b: BuildHasherDefault<$t> = Default::default();
            out.write(b.build_hasher());
        }
        #[export_name = concat!($p, "_hwrite")]
        pub unsafe extern "C" fn hwrite(h: *mut $t, p: *const u8, n: usize) {
            Hasher::write(&mut *h, bytes(p, n));
        }
        #[export_name = concat!($p, "_wu8")]
        pub unsafe extern "C" fn wu8(h: *mut $t, v: u8) {
            Hasher::write_u8(&mut *h, v);
        }
        #[export_name = concat!($p, "_wu16")]
        pub unsafe extern "C" fn wu16(h: *mut $t, v: u16) {
            Hasher::write_u16(&mut *h, v);
        }
        #[export_name = concat!($p, "_wu32")]
        pub unsafe extern "C" fn wu32(h: *mut $t, v: u32) {
            Hasher::write_u32(&mut *h, v);
        }
        #[export_name = concat!($p, "_wu64")]
        pub unsafe extern "C" fn wu64(h: *mut $t, v: u64) {
            Hasher::write_u64(&mut *h, v);
        }
        #[export_name = concat!($p, "_wu128")]
        pub unsafe extern "C" fn wu128(h: *mut $t, lo: u64, hi: u64) {
            Hasher::write_u128(&mut *h, (lo as u128) | ((hi as u128) << 64));
        }
        #[export_name = concat!($p, "_wusize")]
        pub unsafe extern "C" fn wusize(h: *mut $t, v: usize) {
            Hasher::write_usize(&mut *h, v);
        }
        #[export_name = concat!($p, "_wi8")]
        pub unsafe extern "C" fn wi8(h: *mut $t, v: u8) {
            Hasher::write_i8(&mut *h, v as i8);
        }
        #[export_name = concat!($p, "_wi16")]
        pub unsafe extern "C" fn wi16(h: *mut $t, v: u16) {
            Hasher::write_i16(&mut *h, v as i16);
        }
        #[export_name = concat!($p, "_wi32")]
        pub unsafe extern "C" fn wi32(h: *mut $t, v: u32) {
            Hasher::write_i32(&mut *h, v as i32);
        }
        #[export_name = concat!($p, "_wi64")]
        pub unsafe extern "C" fn wi64(h: *mut $t, v: u64) {
            Hasher::write_i64(&mut *h, v as i64);
        }
        #[export_name = concat!($p, "_wi128")]
        pub unsafe extern "C" fn wi128(h: *mut $t, lo: u64, hi: u64) {
            Hasher::write_i128(&mut *h, ((lo as u128) | ((hi as u128) << 64)) as i128);
        }
        #[export_name = concat!($p, "_wisize")]
        pub unsafe extern "C" fn wisize(h: *mut $t, v: usize) {
            Hasher::write_isize(&mut *h, v as isize);
        }
        #[export_name = concat!($p, "_hashval")]
        pub unsafe extern "C" fn hashval(h: *mut $t, a: u32, p: *const u8, n: usize) {
            (a, bytes(p, n)).hash(&mut *h);
        }
        #[export_name = concat!($p, "_finish")]
        pub unsafe extern "C" fn finish(h: *const $t, out: *mut u64) {
            *out = Hasher::finish(&*h);
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "_iowrite")]
        pub unsafe extern "C" fn iowrite(h: *mut $t, p: *const u8, n: usize, out: *mut usize) -> u8 {
            match std::io::Write::write(&mut *h, bytes(p, n)) {
                Ok(k) => {
                    *out = k;
                    1
                }
                Err(e) => {
                    core::mem::forget(e);
                    0
                }
            }
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "_iowriteall")]
        pub unsafe extern "C" fn iowriteall(h: *mut $t, p: *const u8, n: usize) -> u8 {
            match std::io::Write::write_all(&mut *h, bytes(p, n)) {
                Ok(()) => 1,
                Err(e) => {
                    core::mem::forget(e);
                    0
                }
            }
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "_iowritev")]
        pub unsafe extern "C" fn iowritev(
            h: *mut $t,
            p: *const u8,
            n: usize,
            q: *const u8,
            m: usize,
            out: *mut usize,
        ) -> u8 {
            let v = [std::io::IoSlice::new(bytes(p, n)), std::io::IoSlice::new(bytes(q, m))];
            match std::io::Write::write_vectored(&mut *h, &v) {
                Ok(k) => {
                    *out = k;
                    1
                }
                Err(e) => {
                    core::mem::forget(e);
                    0
                }
            }
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "_iocopy")]
        pub unsafe extern "C" fn iocopy(h: *mut $t, p: *const u8, n: usize, out: *mut u64) -> u8 {
            let mut r = bytes(p, n);
            match std::io::copy(&mut r, &mut *h) {
                Ok(k) => {
                    *out = k;
                    1
                }
                Err(e) => {
                    core::mem::forget(e);
                    0
                }
            }
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($p, "_ioflush")]
        pub unsafe extern "C" fn ioflush(h: *mut $t) -> u8 {
            match std::io::Write::flush(&mut *h) {
                Ok(()) => 1,
                Err(e) => {
                    core::mem::forget(e);
                    0
                }
            }
        }
    };
}

macro_rules! plain {
    ($m:ident, $p:literal, $t:ty, $new:expr, $rest:expr $(, $extra:ident)*) => {
        pub mod $m {
            use super::*;
            common!($p, $t);
            $($extra!($p, $t);)*
            #[export_name = concat!($p, "_new")]
            pub unsafe extern "C" fn new(k: *const [u64; 4], out: *mut $t) {
                #[allow(clippy::redundant_closure_call)]
                out.write(($new)(key(k)));
            }
            #[export_name = concat!($p, "_restore")]
            pub unsafe extern "C" fn restore(c: *const [u8; 164], out: *mut $t) {
                #[allow(clippy::redundant_closure_call)]
                out.write(($rest)(c.read()));
            }
        }
    };
}

macro_rules! probing {
    ($m:ident, $p:literal, $t:ty) => {
        pub mod $m {
            use super::*;
            #[export_name = concat!($p, "_trynew")]
            pub unsafe extern "C" fn trynew(k: *const [u64; 4], out: *mut $t) -> u8 {
                match <$t>::new(key(k)) {
                    Some(h) => {
                        out.write(h);
                        1
                    }
                    None => 0,
                }
            }
            #[export_name = concat!($p, "_tryrestore")]
            pub unsafe extern "C" fn tryrestore(c: *const [u8; 164], out: *mut $t) -> u8 {
                match <$t>::from_checkpoint(c.read()) {
                    Some(h) => {
                        out.write(h);
                        1
                    }
                    None => 0,
                }
            }
        }
    };
}

plain!(p, "p", PortableHash, PortableHash::new, PortableHash::from_checkpoint, adapters);
plain!(d, "d", HighwayHasher, HighwayHasher::new, HighwayHasher::from_checkpoint, adapters);

#[cfg(target_arch = "x86_64")]
use highway::{AvxHash, SseHash};
#[cfg(target_arch = "x86_64")]
plain!(s, "s", SseHash, |k| SseHash::force_new(k), |c| SseHash::force_from_checkpoint(c), adapters);
#[cfg(target_arch = "x86_64")]
plain!(a, "a", AvxHash, |k| AvxHash::force_new(k), |c| AvxHash::force_from_checkpoint(c), adapters);
#[cfg(target_arch = "x86_64")]
probing!(st, "s", SseHash);
#[cfg(target_arch = "x86_64")]
probing!(at, "a", AvxHash);

#[cfg(target_arch = "aarch64")]
use highway::NeonHash;
#[cfg(target_arch = "aarch64")]
plain!(n, "n", NeonHash, |k| NeonHash::force_new(k), |c| NeonHash::force_from_checkpoint(c));

#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
use highway::WasmHash;
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
plain!(w, "w", WasmHash, WasmHash::new, WasmHash::from_checkpoint, adapters);

// collection builder
#[export_name = "b_size"]
pub extern "C" fn b_size() -> usize {
    core::mem::size_of::<HighwayBuildHasher>()
}
#[export_name = "b_align"]
pub extern "C" fn b_align() -> usize {
    core::mem::align_of::<HighwayBuildHasher>()
}
#[export_name = "b_new"]
pub unsafe extern "C" fn b_new(k: *const [u64; 4], out: *mut HighwayBuildHasher) {
    out.write(HighwayBuildHasher::new(key(k)));
}
#[export_name = "b_default"]
pub unsafe extern "C" fn b_default(out: *mut HighwayBuildHasher) {
    out.write(HighwayBuildHasher::default());
}
#[export_name = "b_build"]
pub unsafe extern "C" fn b_build(b: *const HighwayBuildHasher, out: *mut HighwayHasher) {
    out.write((*b).build_hasher());
}
#[export_name = "b_hashone"]
pub unsafe extern "C" fn b_hashone(
    b: *const HighwayBuildHasher,
    a: u32,
    p: *const u8,
    n: usize,
    out: *mut u64,
) {
    *out = (*b).hash_one((a, bytes(p, n)));
}
#[export_name = "b_dbgtext"]
pub unsafe extern "C" fn b_dbgtext(b: *const HighwayBuildHasher, buf: *mut u8, cap: usize) -> usize {
    let mut s = Sink { buf, cap, len: 0 };
    if write!(s, "{:?}", &*b).is_err() {
        return usize::MAX;
    }
    s.len
}
