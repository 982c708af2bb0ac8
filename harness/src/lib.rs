//! Harness crate: C-ABI entry points over the *public* API of mlx9064x.
//!
//! The same crate is used twice: its LLVM bitcode is executed symbolically by /verif/engine, and
//! the shared library built from it is called through ctypes to replay counterexamples natively.
//! Nothing in here computes anything a property is about; it only moves values in and out.
#![allow(clippy::missing_safety_doc, clippy::too_many_arguments, static_mut_refs)]

use core::slice;
use embedded_hal::blocking::i2c;
use mlx9064x::calculations::*;
use mlx9064x::common::*;
use mlx9064x::error::{Error, LibraryError};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{hamming, Mlx90641, Mlx90641Calibration};
use mlx9064x::register::*;
use mlx9064x::CameraDriver;

// ---------------------------------------------------------------- bus

type WrFn = extern "C" fn(u32, *const u8, usize, *mut u8, usize) -> i32;
type WFn = extern "C" fn(u32, *const u8, usize) -> i32;
static mut WR: Option<WrFn> = None;
static mut W: Option<WFn> = None;

#[no_mangle]
pub unsafe extern "C" fn set_hooks(wr: WrFn, w: WFn) {
    WR = Some(wr);
    W = Some(w);
}

/// Environment call: one I2C write_read. The executor intercepts it by name.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_write_read(a: u32, w: *const u8, wl: usize, r: *mut u8, rl: usize) -> i32 {
    match WR {
        Some(f) => f(a, w, wl, r, rl),
        None => -1,
    }
}

/// Environment call: one I2C write.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_write(a: u32, w: *const u8, wl: usize) -> i32 {
    match W {
        Some(f) => f(a, w, wl),
        None => -1,
    }
}

/// The error payloads: whatever (non-zero) code the environment returned.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct WrErr(pub i32);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct WErr(pub i32);

#[derive(Clone, Copy, Debug)]
pub struct Bus;

impl i2c::WriteRead for Bus {
    type Error = WrErr;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), WrErr> {
        unsafe { TXN += 1 };
        let r = unsafe {
            sym_write_read(address as u32, bytes.as_ptr(), bytes.len(), buffer.as_mut_ptr(), buffer.len())
        };
        if r == 0 { Ok(()) } else { Err(WrErr(r)) }
    }
}

impl i2c::Write for Bus {
    type Error = WErr;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), WErr> {
        unsafe { TXN += 1 };
        let r = unsafe { sym_write(address as u32, bytes.as_ptr(), bytes.len()) };
        if r == 0 { Ok(()) } else { Err(WErr(r)) }
    }
}

// ---------------------------------------------------------------- result codes
// i64: bits 0..32 value, bits 32..40 kind: 0 ok, 1 write_read error, 2 write error,
// 3 InvalidData, 4 Other, 5 Checksum

fn pack(kind: i64, v: u32) -> i64 {
    (kind << 32) | (v as i64)
}

fn lib_code(e: LibraryError) -> i64 {
    match e {
        LibraryError::InvalidData(_) => pack(3, 0),
        LibraryError::Other(_) => pack(4, 0),
        LibraryError::Checksum(w) => pack(5, w as u32),
    }
}

fn err_code(e: Error<Bus>) -> i64 {
    match e {
        Error::I2cWriteReadError(WrErr(c)) => pack(1, c as u32),
        Error::I2cWriteError(WErr(c)) => pack(2, c as u32),
        Error::LibraryError(l) => lib_code(l),
    }
}

fn res_code(r: Result<u32, Error<Bus>>) -> i64 {
    match r {
        Ok(v) => pack(0, v),
        Err(e) => err_code(e),
    }
}

fn subpage(v: u32) -> Subpage {
    if v & 1 == 0 { Subpage::Zero } else { Subpage::One }
}
fn pattern(v: u32) -> AccessPattern {
    if v & 1 == 0 { AccessPattern::Interleave } else { AccessPattern::Chess }
}
fn pattern_num(p: AccessPattern) -> u32 {
    match p {
        AccessPattern::Interleave => 0,
        AccessPattern::Chess => 1,
    }
}
fn subpage_num(s: Subpage) -> u32 {
    match s {
        Subpage::Zero => 0,
        Subpage::One => 1,
    }
}
fn rate(v: u32) -> FrameRate {
    match v & 7 {
        0 => FrameRate::Half,
        1 => FrameRate::One,
        2 => FrameRate::Two,
        3 => FrameRate::Four,
        4 => FrameRate::Eight,
        5 => FrameRate::Sixteen,
        6 => FrameRate::ThirtyTwo,
        _ => FrameRate::SixtyFour,
    }
}
fn rate_num(v: FrameRate) -> u32 {
    match v {
        FrameRate::Half => 0,
        FrameRate::One => 1,
        FrameRate::Two => 2,
        FrameRate::Four => 3,
        FrameRate::Eight => 4,
        FrameRate::Sixteen => 5,
        FrameRate::ThirtyTwo => 6,
        FrameRate::SixtyFour => 7,
    }
}
fn res(v: u32) -> Resolution {
    match v & 3 {
        0 => Resolution::Sixteen,
        1 => Resolution::Seventeen,
        2 => Resolution::Eighteen,
        _ => Resolution::Nineteen,
    }
}
fn res_num(v: Resolution) -> u32 {
    match v {
        Resolution::Sixteen => 0,
        Resolution::Seventeen => 1,
        Resolution::Eighteen => 2,
        Resolution::Nineteen => 3,
    }
}

// ---------------------------------------------------------------- calibration dumps

struct Out {
    i: *mut i32,
    f: *mut f32,
}
impl Out {
    unsafe fn i(&mut self, v: i32) {
        *self.i = v;
        self.i = self.i.add(1);
    }
    unsafe fn f(&mut self, v: f32) {
        *self.f = v;
        self.f = self.f.add(1);
    }
    unsafe fn of(&mut self, v: Option<f32>) {
        match v {
            Some(x) => {
                self.i(1);
                self.f(x)
            }
            None => {
                self.i(0);
                self.f(0.0)
            }
        }
    }
}

const SP: [Subpage; 2] = [Subpage::Zero, Subpage::One];
const AP: [AccessPattern; 2] = [AccessPattern::Interleave, AccessPattern::Chess];

#[inline(always)]
unsafe fn dump_scalars<'a, C: CalibrationData<'a>>(c: &'a C, nct: usize, o: &mut Out) {
    o.i(c.k_v_dd() as i32);
    o.i(c.v_dd_25() as i32);
    o.i(res_num(c.resolution()) as i32);
    let ct = c.corner_temperatures();
    let ks = c.k_s_to();
    let ac = c.alpha_correction();
    o.i(ct.len() as i32);
    o.i(ks.len() as i32);
    o.i(ac.len() as i32);
    for n in 0..nct {
        o.i(ct[n] as i32);
        o.f(ks[n]);
        o.f(ac[n]);
    }
    o.f(c.v_dd_0());
    o.f(c.k_v_ptat());
    o.f(c.k_t_ptat());
    o.f(c.v_ptat_25());
    o.f(c.alpha_ptat());
    o.f(c.gain());
    o.f(c.k_s_ta());
    for s in SP {
        o.i(c.offset_reference_cp(s) as i32);
        o.f(c.alpha_cp(s));
        o.f(c.k_v_cp(s));
        o.f(c.k_ta_cp(s));
        for a in AP {
            o.of(c.access_pattern_compensation_cp(s, a));
        }
    }
    o.of(c.temperature_gradient_coefficient());
    o.of(c.emissivity());
}

/// Per-pixel iterators. Each of the arrays has room for `n` entries and is followed by the number
/// of items the iterator yielded.
#[inline(always)]
unsafe fn dump_pixels<'a, C: CalibrationData<'a>>(c: &'a C, n: usize, what: u32, o: &mut Out) {
    for s in SP {
        if what & 1 != 0 {
            let mut k = 0;
            for v in c.offset_reference_pixels(s) {
                if k < n {
                    o.i(*v as i32);
                }
                k += 1;
            }
            o.i(k as i32);
        }
        if what & 2 != 0 {
            let mut k = 0;
            for v in c.alpha_pixels(s) {
                if k < n {
                    o.f(*v);
                }
                k += 1;
            }
            o.i(k as i32);
        }
        if what & 4 != 0 {
            let mut k = 0;
            for v in c.k_v_pixels(s) {
                if k < n {
                    o.f(*v);
                }
                k += 1;
            }
            o.i(k as i32);
        }
        if what & 8 != 0 {
            let mut k = 0;
            for v in c.k_ta_pixels(s) {
                if k < n {
                    o.f(*v);
                }
                k += 1;
            }
            o.i(k as i32);
        }
    }
    if what & 16 != 0 {
        for a in AP {
            let mut k = 0;
            for v in c.access_pattern_compensation_pixels(a) {
                if k < n {
                    o.of(v.copied());
                }
                k += 1;
            }
            o.i(k as i32);
        }
    }
}

macro_rules! cal {
    ($name:ident, $bus:ident, $t:ty, $cam:ty, $nct:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(ee: *const u8, len: usize, what: u32, oi: *mut i32, of: *mut f32) -> i64 {
            let data = slice::from_raw_parts(ee, len);
            match <$t>::from_data(data) {
                Err(e) => lib_code(e),
                Ok(c) => {
                    let mut o = Out { i: oi, f: of };
                    if what & 64 != 0 {
                        dump_scalars(&c, $nct, &mut o);
                    }
                    dump_pixels(&c, <$cam>::NUM_PIXELS, what, &mut o);
                    if what & 32 != 0 {
                        let f = c.failed_pixels();
                        let u = c.outlier_pixels();
                        o.i(f.len() as i32);
                        o.i(u.len() as i32);
                        for n in 0..<$cam>::NUM_PIXELS {
                            o.i(f[n] as i32);
                            o.i(u[n] as i32);
                        }
                    }
                    pack(0, 0)
                }
            }
        }

        /// The same calibration, but loaded over the bus.
        #[no_mangle]
        pub unsafe extern "C" fn $bus(addr: u32, oi: *mut i32, of: *mut f32) -> i64 {
            match <$t as FromI2C<Bus>>::from_i2c(&mut Bus, addr as u8) {
                Err(e) => err_code(e),
                Ok(c) => {
                    let mut o = Out { i: oi, f: of };
                    dump_scalars(&c, $nct, &mut o);
                    pack(0, 0)
                }
            }
        }
    };
}
cal!(h640_cal, h640_cal_bus, Mlx90640Calibration, Mlx90640, 4);
cal!(h641_cal, h641_cal_bus, Mlx90641Calibration, Mlx90641, 8);

// ---------------------------------------------------------------- hamming

#[no_mangle]
pub extern "C" fn h_add_checksum(w: u16) -> i64 {
    match hamming::add_checksum(w) {
        Ok(v) => pack(0, v as u32),
        Err(e) => lib_code(e),
    }
}

#[no_mangle]
pub extern "C" fn h_validate_checksum(w: u16) -> i64 {
    match hamming::validate_checksum(w) {
        Ok(v) => pack(0, v as u32),
        Err(e) => lib_code(e),
    }
}

// ---------------------------------------------------------------- registers

fn status(raw: u16) -> StatusRegister {
    StatusRegister::from(&raw.to_be_bytes()[..])
}
fn control(raw: u16) -> ControlRegister {
    ControlRegister::from(&raw.to_be_bytes()[..])
}
fn i2creg(raw: u16) -> I2cRegister {
    I2cRegister::from(&raw.to_be_bytes()[..])
}
fn status_raw(r: StatusRegister) -> u16 {
    let b: [u8; 2] = r.into();
    u16::from_be_bytes(b)
}
fn control_raw(r: ControlRegister) -> u16 {
    let b: [u8; 2] = r.into();
    u16::from_be_bytes(b)
}
fn i2creg_raw(r: I2cRegister) -> u16 {
    let b: [u8; 2] = r.into();
    u16::from_be_bytes(b)
}

#[no_mangle]
pub unsafe extern "C" fn h_status_get(raw: u16, out: *mut u32) -> u16 {
    let r = status(raw);
    *out = subpage_num(r.last_updated_subpage());
    *out.add(1) = r.new_data() as u32;
    *out.add(2) = r.overwrite_enabled() as u32;
    *out.add(3) = r.start_measurement() as u32;
    status_raw(r)
}
#[no_mangle]
pub extern "C" fn h_status_set(raw: u16, op: u32, v: u32) -> u16 {
    let mut r = status(raw);
    match op {
        0 => r.reset_new_data(),
        1 => r.set_overwrite_enabled(v & 1 != 0),
        _ => r.set_start_measurement(),
    }
    status_raw(r)
}
#[no_mangle]
pub extern "C" fn h_status_eq(a: u16, b: u16) -> u32 {
    (status(a) == status(b)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn h_control_get(raw: u16, out: *mut u32) -> u16 {
    let r = control(raw);
    *out = r.use_subpages() as u32;
    *out.add(1) = r.step_mode() as u32;
    *out.add(2) = r.data_hold() as u32;
    *out.add(3) = r.subpage_repeat() as u32;
    *out.add(4) = subpage_num(r.subpage());
    *out.add(5) = rate_num(r.frame_rate());
    *out.add(6) = res_num(r.resolution());
    *out.add(7) = pattern_num(r.access_pattern());
    control_raw(r)
}
#[no_mangle]
pub extern "C" fn h_control_set(raw: u16, op: u32, v: u32) -> u16 {
    let mut r = control(raw);
    let b = v & 1 != 0;
    match op {
        0 => r.set_use_subpages(b),
        1 => r.set_step_mode(b),
        2 => r.set_data_hold(b),
        3 => r.set_subpage_repeat(b),
        4 => r.set_subpage(subpage(v)),
        5 => r.set_frame_rate(rate(v)),
        6 => r.set_resolution(res(v)),
        _ => r.set_access_pattern(pattern(v)),
    }
    control_raw(r)
}
#[no_mangle]
pub extern "C" fn h_control_eq(a: u16, b: u16) -> u32 {
    (control(a) == control(b)) as u32
}
#[no_mangle]
pub extern "C" fn h_control_default(model: u32) -> u16 {
    control_raw(if model == 0 { ControlRegister::default_mlx90640() } else { ControlRegister::default_mlx90641() })
}
#[no_mangle]
pub unsafe extern "C" fn h_i2c_get(raw: u16, out: *mut u32) -> u16 {
    let r = i2creg(raw);
    *out = r.fast_mode_plus() as u32;
    *out.add(1) = r.i2c_threshold_halved() as u32;
    *out.add(2) = r.sda_current_limiter() as u32;
    i2creg_raw(r)
}
#[no_mangle]
pub extern "C" fn h_i2c_set(raw: u16, op: u32, v: u32) -> u16 {
    let mut r = i2creg(raw);
    let b = v & 1 != 0;
    match op {
        0 => r.set_fast_mode_plus(b),
        1 => r.set_i2c_threshold_halved(b),
        _ => r.set_sda_current_limiter(b),
    }
    i2creg_raw(r)
}
#[no_mangle]
pub extern "C" fn h_i2c_eq(a: u16, b: u16) -> u32 {
    (i2creg(a) == i2creg(b)) as u32
}
#[no_mangle]
pub extern "C" fn h_i2c_default() -> u16 {
    i2creg_raw(I2cRegister::default())
}
/// Read a register over the bus: 0 status, 1 control, 2 i2c configuration.
#[no_mangle]
pub extern "C" fn h_reg_read(kind: u32, addr: u32) -> i64 {
    let a = addr as u8;
    res_code(match kind {
        0 => StatusRegister::from_i2c(&mut Bus, a).map(|r| status_raw(r) as u32),
        1 => ControlRegister::from_i2c(&mut Bus, a).map(|r| control_raw(r) as u32),
        _ => I2cRegister::from_i2c(&mut Bus, a).map(|r| i2creg_raw(r) as u32),
    })
}
#[no_mangle]
pub extern "C" fn h_reg_write(kind: u32, addr: u32, raw: u16) -> i64 {
    let a = addr as u8;
    res_code(
        match kind {
            0 => status(raw).to_i2c(&mut Bus, a),
            1 => control(raw).to_i2c(&mut Bus, a),
            _ => i2creg(raw).to_i2c(&mut Bus, a),
        }
        .map(|_| 0),
    )
}

// ---------------------------------------------------------------- conversions

#[no_mangle]
pub extern "C" fn h_rate_from_f32(v: f32) -> i64 {
    match FrameRate::try_from(v) {
        Ok(r) => pack(0, rate_num(r)),
        Err(e) => lib_code(e),
    }
}
#[no_mangle]
pub extern "C" fn h_rate_from_u8(v: u8) -> i64 {
    match FrameRate::try_from(v) {
        Ok(r) => pack(0, rate_num(r)),
        Err(e) => lib_code(e),
    }
}
#[no_mangle]
pub extern "C" fn h_rate_to_f32(v: u32) -> f32 {
    rate(v).into()
}
#[no_mangle]
pub extern "C" fn h_rate_to_duration(v: u32) -> u64 {
    let d: core::time::Duration = rate(v).into();
    d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64
}
#[no_mangle]
pub extern "C" fn h_rate_default() -> u32 {
    rate_num(FrameRate::default())
}
#[no_mangle]
pub extern "C" fn h_res_from_u8(v: u8) -> i64 {
    match Resolution::try_from(v) {
        Ok(r) => pack(0, res_num(r)),
        Err(e) => lib_code(e),
    }
}
#[no_mangle]
pub extern "C" fn h_res_to_u8(v: u32) -> u8 {
    res(v).into()
}
#[no_mangle]
pub extern "C" fn h_res_default() -> u32 {
    res_num(Resolution::default())
}
#[no_mangle]
pub extern "C" fn h_subpage_from(v: usize) -> i64 {
    match Subpage::try_from(v) {
        Ok(r) => pack(0, subpage_num(r)),
        Err(_) => pack(3, 0),
    }
}
#[no_mangle]
pub extern "C" fn h_pattern_from(v: u8) -> i64 {
    match AccessPattern::try_from(v) {
        Ok(r) => pack(0, pattern_num(r)),
        Err(_) => pack(3, 0),
    }
}
#[no_mangle]
pub extern "C" fn h_subpage_to(v: u32) -> usize {
    subpage(v).into()
}
#[no_mangle]
pub extern "C" fn h_pattern_to(v: u32) -> u8 {
    pattern(v).into()
}
#[no_mangle]
pub extern "C" fn h_resolution_correction(model: u32, cal: u32, cur: u32) -> f32 {
    if model == 0 {
        Mlx90640::resolution_correction(res(cal), res(cur))
    } else {
        Mlx90641::resolution_correction(res(cal), res(cur))
    }
}

// ---------------------------------------------------------------- subpages / RAM

/// Which pixels belong to a subpage. Returns the number of items yielded.
#[no_mangle]
pub unsafe extern "C" fn h640_in_subpage(sp: u32, ap: u32, out: *mut u8) -> u32 {
    let mut k = 0;
    for b in Mlx90640::pixels_in_subpage(subpage(sp), pattern(ap)).into_iter() {
        if k < 768 {
            *out.add(k) = b as u8;
        }
        k += 1;
    }
    k as u32
}
#[no_mangle]
pub unsafe extern "C" fn h641_in_subpage(sp: u32, ap: u32, out: *mut u8) -> u32 {
    let mut k = 0;
    for b in Mlx90641::pixels_in_subpage(subpage(sp), pattern(ap)).into_iter() {
        if k < 192 {
            *out.add(k) = b as u8;
        }
        k += 1;
    }
    k as u32
}

unsafe fn put_ram(r: Result<RamData, Error<Bus>>, out: *mut i32) -> i64 {
    match r {
        Ok(r) => {
            *out = r.t_a_v_be as i32;
            *out.add(1) = r.t_a_ptat as i32;
            *out.add(2) = r.v_dd_pixel as i32;
            *out.add(3) = r.gain as i32;
            *out.add(4) = r.compensation_pixel as i32;
            pack(0, 0)
        }
        Err(e) => err_code(e),
    }
}

/// read_ram into a caller-supplied buffer.
#[no_mangle]
pub unsafe extern "C" fn h640_read_ram(addr: u32, sp: u32, ap: u32, buf: *mut u8, len: usize, out: *mut i32) -> i64 {
    let b = slice::from_raw_parts_mut(buf, len);
    put_ram(read_ram::<Mlx90640, Bus, { Mlx90640::HEIGHT }>(&mut Bus, addr as u8, pattern(ap), subpage(sp), b), out)
}
#[no_mangle]
pub unsafe extern "C" fn h641_read_ram(addr: u32, sp: u32, ap: u32, buf: *mut u8, len: usize, out: *mut i32) -> i64 {
    let b = slice::from_raw_parts_mut(buf, len);
    put_ram(read_ram::<Mlx90641, Bus, { Mlx90641::HEIGHT }>(&mut Bus, addr as u8, pattern(ap), subpage(sp), b), out)
}

// ---------------------------------------------------------------- stub calibration

/// The numbers a calibration provides, as plain memory the caller fills in.
#[repr(C)]
pub struct StubData {
    k_v_dd: i16,
    v_dd_25: i16,
    offset_cp: [i16; 2],
    resolution: u32,
    has_tgc: u32,
    has_emissivity: u32,
    /// indexed by 2 * subpage + access pattern
    has_cp_comp: [u32; 4],
    has_comp: [u32; 2],
    v_dd_0: f32,
    k_v_ptat: f32,
    k_t_ptat: f32,
    v_ptat_25: f32,
    alpha_ptat: f32,
    gain: f32,
    k_s_ta: f32,
    k_s_to: [f32; 8],
    alpha_correction: [f32; 8],
    alpha_cp: [f32; 2],
    k_v_cp: [f32; 2],
    k_ta_cp: [f32; 2],
    tgc: f32,
    emissivity: f32,
    cp_comp: [f32; 4],
    corner: [i16; 8],
    n: usize,
    /// [2][n]
    offset: *const i16,
    alpha: *const f32,
    k_v: *const f32,
    k_ta: *const f32,
    comp: *const f32,
}

macro_rules! stub {
    ($name:ident, $cam:ty, $nct:expr) => {
        pub struct $name(pub &'static StubData);
        impl $name {
            unsafe fn arr<T>(&self, p: *const T, i: usize) -> &'static [T] {
                slice::from_raw_parts(p.add(i * self.0.n), self.0.n)
            }
        }
        impl<'a> CalibrationData<'a> for $name {
            type Camera = $cam;
            fn k_v_dd(&self) -> i16 {
                self.0.k_v_dd
            }
            fn v_dd_25(&self) -> i16 {
                self.0.v_dd_25
            }
            fn resolution(&self) -> Resolution {
                res(self.0.resolution)
            }
            fn v_dd_0(&self) -> f32 {
                self.0.v_dd_0
            }
            fn k_v_ptat(&self) -> f32 {
                self.0.k_v_ptat
            }
            fn k_t_ptat(&self) -> f32 {
                self.0.k_t_ptat
            }
            fn v_ptat_25(&self) -> f32 {
                self.0.v_ptat_25
            }
            fn alpha_ptat(&self) -> f32 {
                self.0.alpha_ptat
            }
            fn gain(&self) -> f32 {
                self.0.gain
            }
            fn k_s_ta(&self) -> f32 {
                self.0.k_s_ta
            }
            fn corner_temperatures(&self) -> &[i16] {
                &self.0.corner[..$nct]
            }
            fn k_s_to(&self) -> &[f32] {
                &self.0.k_s_to[..$nct]
            }
            fn alpha_correction(&self) -> &[f32] {
                &self.0.alpha_correction[..$nct]
            }
            fn emissivity(&self) -> Option<f32> {
                if self.0.has_emissivity & 1 != 0 { Some(self.0.emissivity) } else { None }
            }
            type OffsetReferenceIterator = slice::Iter<'a, i16>;
            fn offset_reference_pixels(&'a self, s: Subpage) -> Self::OffsetReferenceIterator {
                unsafe { self.arr(self.0.offset, s as usize) }.iter()
            }
            fn offset_reference_cp(&self, s: Subpage) -> i16 {
                self.0.offset_cp[s as usize]
            }
            type AlphaIterator = slice::Iter<'a, f32>;
            fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator {
                unsafe { self.arr(self.0.alpha, s as usize) }.iter()
            }
            fn alpha_cp(&self, s: Subpage) -> f32 {
                self.0.alpha_cp[s as usize]
            }
            type KvIterator = slice::Iter<'a, f32>;
            fn k_v_pixels(&'a self, s: Subpage) -> Self::KvIterator {
                unsafe { self.arr(self.0.k_v, s as usize) }.iter()
            }
            fn k_v_cp(&self, s: Subpage) -> f32 {
                self.0.k_v_cp[s as usize]
            }
            type KtaIterator = slice::Iter<'a, f32>;
            fn k_ta_pixels(&'a self, s: Subpage) -> Self::KtaIterator {
                unsafe { self.arr(self.0.k_ta, s as usize) }.iter()
            }
            fn k_ta_cp(&self, s: Subpage) -> f32 {
                self.0.k_ta_cp[s as usize]
            }
            fn temperature_gradient_coefficient(&self) -> Option<f32> {
                if self.0.has_tgc & 1 != 0 { Some(self.0.tgc) } else { None }
            }
            type AccessPatternCompensation = CompIter<'a>;
            fn access_pattern_compensation_pixels(&'a self, a: AccessPattern) -> CompIter<'a> {
                let i = pattern_num(a) as usize;
                CompIter { has: self.0.has_comp[i] & 1 != 0, it: unsafe { self.arr(self.0.comp, i) }.iter() }
            }
            fn access_pattern_compensation_cp(&self, s: Subpage, a: AccessPattern) -> Option<f32> {
                let i = 2 * (s as usize) + pattern_num(a) as usize;
                if self.0.has_cp_comp[i] & 1 != 0 { Some(self.0.cp_comp[i]) } else { None }
            }
            type FailedPixels = NoFlags;
            fn failed_pixels(&'a self) -> NoFlags {
                NoFlags
            }
            type OutlierPixels = NoFlags;
            fn outlier_pixels(&'a self) -> NoFlags {
                NoFlags
            }
        }
    };
}

pub struct CompIter<'a> {
    has: bool,
    it: slice::Iter<'a, f32>,
}
impl<'a> Iterator for CompIter<'a> {
    type Item = Option<&'a f32>;
    fn next(&mut self) -> Option<Self::Item> {
        let has = self.has;
        self.it.next().map(|v| if has { Some(v) } else { None })
    }
}
pub struct NoFlags;
impl FlaggedPixels for NoFlags {
    fn any(&self) -> bool {
        false
    }
    type FlaggedIterator = core::iter::Empty<usize>;
    fn iter_flagged(&self) -> Self::FlaggedIterator {
        core::iter::empty()
    }
}

stub!(Stub640, Mlx90640, 4);
stub!(Stub641, Mlx90641, 8);

// ---------------------------------------------------------------- calculations

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RamIn {
    t_a_v_be: i16,
    t_a_ptat: i16,
    v_dd_pixel: i16,
    gain: i16,
    cp: i16,
}
fn ram_in(r: &RamIn) -> RamData {
    RamData {
        t_a_v_be: r.t_a_v_be,
        t_a_ptat: r.t_a_ptat,
        v_dd_pixel: r.v_dd_pixel,
        gain: r.gain,
        compensation_pixel: r.cp,
    }
}

#[no_mangle]
pub extern "C" fn h_delta_v(s: &'static StubData, v_dd_pixel: i16) -> f32 {
    delta_v(&Stub640(s), v_dd_pixel)
}
#[no_mangle]
pub extern "C" fn h_v_dd(s: &'static StubData, rc: f32, dv: f32) -> f32 {
    v_dd(&Stub640(s), rc, dv)
}
#[no_mangle]
pub extern "C" fn h_v_ptat_art(s: &'static StubData, ptat: i16, vbe: i16) -> f32 {
    v_ptat_art(&Stub640(s), ptat, vbe)
}
#[no_mangle]
pub extern "C" fn h_ambient(s: &'static StubData, art: f32, dv: f32) -> f32 {
    ambient_temperature(&Stub640(s), art, dv)
}
#[no_mangle]
pub unsafe extern "C" fn h_common(s: &'static StubData, rc: f32, em: f32, ram: &RamIn, out: *mut f32) {
    let c = CommonIrData::new(rc, em, &Stub640(s), &ram_in(ram));
    *out = c.gain;
    *out.add(1) = c.v_dd;
    *out.add(2) = c.emissivity;
    *out.add(3) = c.t_a;
}
#[no_mangle]
pub extern "C" fn h_pixel_v_ir(
    px: i16, gain: f32, v_dd: f32, em: f32, t_a: f32, off: i16, kv: f32, kta: f32, has: u32, comp: f32,
) -> f32 {
    let c = CommonIrData { gain, v_dd, emissivity: em, t_a };
    per_pixel_v_ir(px, &c, off, kv, kta, if has & 1 != 0 { Some(comp) } else { None })
}
#[no_mangle]
pub extern "C" fn h_t_ar(t_a: f32, t_r: f32, em: f32) -> f32 {
    t_ar(t_a, t_r, em)
}
#[no_mangle]
pub extern "C" fn h_sens(s: &'static StubData, t_a: f32) -> f32 {
    sensitivity_correction_coefficient(&Stub640(s), t_a)
}
#[no_mangle]
pub extern "C" fn h_pixel_temp(v_ir: f32, alpha: f32, t_ar: f32, k_s_to: f32) -> f32 {
    per_pixel_temperature(v_ir, alpha, t_ar, k_s_to)
}

#[repr(C)]
pub struct PipeIn {
    emissivity: f32,
    rc: f32,
    t_r: f32,
    has_t_r: u32,
    t_a: f32,
    ram: RamIn,
}

macro_rules! pipe {
    ($ir:ident, $ir2t:ident, $one:ident, $two:ident, $cut:ident, $stub:ident, $cam:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $ir(
            s: &'static StubData, p: &PipeIn, px: *const u8, pl: usize, sp: u32, ap: u32, dst: *mut f32, n: usize,
        ) -> f32 {
            let c = $stub(s);
            let mut valid = <$cam>::pixels_in_subpage(subpage(sp), pattern(ap)).into_iter();
            raw_pixels_to_ir_data(
                &c, p.emissivity, p.rc, slice::from_raw_parts(px, pl), ram_in(&p.ram), subpage(sp), pattern(ap),
                &mut valid, slice::from_raw_parts_mut(dst, n),
            )
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ir2t(s: &'static StubData, p: &PipeIn, sp: u32, ap: u32, dst: *mut f32, n: usize) {
            let c = $stub(s);
            let mut valid = <$cam>::pixels_in_subpage(subpage(sp), pattern(ap)).into_iter();
            raw_ir_to_temperatures(
                &c, p.emissivity, p.t_a, if p.has_t_r & 1 != 0 { Some(p.t_r) } else { None }, subpage(sp),
                &mut valid, slice::from_raw_parts_mut(dst, n),
            )
        }
        #[no_mangle]
        pub unsafe extern "C" fn $one(
            s: &'static StubData, p: &PipeIn, px: *const u8, pl: usize, sp: u32, ap: u32, dst: *mut f32, n: usize,
        ) -> f32 {
            let c = $stub(s);
            let mut valid = <$cam>::pixels_in_subpage(subpage(sp), pattern(ap)).into_iter();
            raw_pixels_to_temperatures(
                &c, p.emissivity, if p.has_t_r & 1 != 0 { Some(p.t_r) } else { None }, p.rc,
                slice::from_raw_parts(px, pl), ram_in(&p.ram), subpage(sp), pattern(ap), &mut valid,
                slice::from_raw_parts_mut(dst, n),
            )
        }
        /// the same frame once in one pass (into a) and once in two (into b)
        #[no_mangle]
        pub unsafe extern "C" fn $two(
            s: &'static StubData, p: &PipeIn, px: *const u8, pl: usize, sp: u32, ap: u32, a: *mut f32, b: *mut f32, n: usize, t: *mut f32,
        ) {
            *t = $one(s, p, px, pl, sp, ap, a, n);
            let t_a = $ir(s, p, px, pl, sp, ap, b, n);
            *t.add(1) = t_a;
            let p2 = PipeIn { emissivity: p.emissivity, rc: p.rc, t_r: p.t_r, has_t_r: p.has_t_r, t_a, ram: p.ram };
            $ir2t(s, &p2, sp, ap, b, n);
        }
        /// the same computation (kind 0: infrared, 1: temperatures from infrared, 2: one pass) with two destinations
        #[no_mangle]
        pub unsafe extern "C" fn $cut(
            s: &'static StubData, p: &PipeIn, px: *const u8, pl: usize, kind: u32, sp: u32, ap: u32, a: *mut f32, na: usize, b: *mut f32, nb: usize,
        ) {
            match kind {
                0 => {
                    $ir(s, p, px, pl, sp, ap, a, na);
                    $ir(s, p, px, pl, sp, ap, b, nb);
                }
                1 => {
                    $ir2t(s, p, sp, ap, a, na);
                    $ir2t(s, p, sp, ap, b, nb);
                }
                _ => {
                    $one(s, p, px, pl, sp, ap, a, na);
                    $one(s, p, px, pl, sp, ap, b, nb);
                }
            }
        }
    };
}
pipe!(h640_ir, h640_ir2t, h640_one, h640_two, h640_cut, Stub640, Mlx90640);
pipe!(h641_ir, h641_ir2t, h641_one, h641_two, h641_cut, Stub641, Mlx90641);

// ---------------------------------------------------------------- the driver

/// One step of a driver script.
#[repr(C)]
pub struct Op {
    op: u32,
    arg: u32,
    arg2: u32,
    pad: u32,
    dst: *mut f32,
    n: usize,
}

fn fopt(v: Option<f32>) -> i64 {
    match v {
        Some(x) => pack(1, x.to_bits()),
        None => pack(0, 0),
    }
}

/// transactions so far
static mut TXN: i64 = 0;

#[inline(always)]
unsafe fn script<C, const H: usize, const N: usize>(
    r: Result<CameraDriver<C, Bus, H, N>, Error<Bus>>, ops: *const Op, nops: usize, out: *mut i64,
) -> i64
where
    C: for<'x> CalibrationData<'x>,
{
    // out: number of transactions of the constructor, then (result, transactions so far) per step
    *out = TXN;
    let mut d = match r {
        Err(e) => return err_code(e),
        Ok(d) => d,
    };
    for k in 0..nops {
        let o = &*ops.add(k);
        let b = o.arg & 1 != 0;
        let dst = slice::from_raw_parts_mut(o.dst, o.n);
        *out.add(2 * k + 1) = match o.op {
            0 => res_code(d.last_measured_subpage().map(subpage_num)),
            1 => res_code(d.data_available().map(|v| match v {
                None => 2,
                Some(s) => subpage_num(s),
            })),
            2 => res_code(d.reset_data_available().map(|_| 0)),
            3 => res_code(d.overwrite_enabled().map(|v| v as u32)),
            4 => res_code(d.set_overwrite_enabled(b).map(|_| 0)),
            5 => res_code(d.subpages_enabled().map(|v| v as u32)),
            6 => res_code(d.set_use_subpages(b).map(|_| 0)),
            7 => res_code(d.data_hold_enabled().map(|v| v as u32)),
            8 => res_code(d.set_data_hold(b).map(|_| 0)),
            9 => res_code(d.subpage_repeat().map(|v| v as u32)),
            10 => res_code(d.set_subpage_repeat(b).map(|_| 0)),
            11 => res_code(d.selected_subpage().map(subpage_num)),
            12 => res_code(d.set_subpage(subpage(o.arg)).map(|_| 0)),
            13 => res_code(d.frame_rate().map(rate_num)),
            14 => res_code(d.set_frame_rate(rate(o.arg)).map(|_| 0)),
            15 => res_code(d.resolution().map(res_num)),
            16 => res_code(d.set_resolution(res(o.arg)).map(|_| 0)),
            17 => res_code(d.access_pattern().map(pattern_num)),
            18 => res_code(d.set_access_pattern(pattern(o.arg)).map(|_| 0)),
            19 => pack(0, d.effective_emissivity().to_bits()),
            20 => {
                d.override_emissivity(f32::from_bits(o.arg));
                0
            }
            21 => {
                d.use_default_emissivity();
                0
            }
            22 => fopt(d.reflected_temperature()),
            23 => {
                d.set_reflected_temperature(if o.arg2 & 1 != 0 { Some(f32::from_bits(o.arg)) } else { None });
                0
            }
            24 => fopt(d.ambient_temperature()),
            25 => pack(0, d.height() as u32),
            26 => pack(0, d.width() as u32),
            27 => res_code(d.generate_raw_image_subpage_to(subpage(o.arg), dst).map(|_| 0)),
            28 => res_code(d.generate_image_subpage_to(subpage(o.arg), dst).map(|_| 0)),
            29 => res_code(d.generate_image_to(dst).map(|_| 0)),
            30 => res_code(d.generate_image_if_ready(dst).map(|v| v as u32)),
            _ => res_code(d.synchronize().map(|_| 0)),
        };
        *out.add(2 * k + 2) = TXN;
    }
    0
}

const N640: usize = Mlx90640::NUM_PIXELS * 2;
const N641: usize = Mlx90641::NUM_PIXELS * 2;

#[no_mangle]
pub unsafe extern "C" fn h640_drv(addr: u32, ops: *const Op, nops: usize, out: *mut i64) -> i64 {
    script(
        CameraDriver::<Mlx90640Calibration, Bus, { Mlx90640::HEIGHT }, N640>::new(Bus, addr as u8),
        ops, nops, out,
    )
}
#[no_mangle]
pub unsafe extern "C" fn h641_drv(addr: u32, ops: *const Op, nops: usize, out: *mut i64) -> i64 {
    script(
        CameraDriver::<Mlx90641Calibration, Bus, { Mlx90641::HEIGHT }, N641>::new(Bus, addr as u8),
        ops, nops, out,
    )
}
#[no_mangle]
pub unsafe extern "C" fn h640_drv_stub(s: &'static StubData, addr: u32, ops: *const Op, nops: usize, out: *mut i64) -> i64 {
    script(
        CameraDriver::<Stub640, Bus, { Mlx90640::HEIGHT }, N640>::new_with_calibration(Bus, addr as u8, Stub640(s)),
        ops, nops, out,
    )
}
#[no_mangle]
pub unsafe extern "C" fn h641_drv_stub(s: &'static StubData, addr: u32, ops: *const Op, nops: usize, out: *mut i64) -> i64 {
    script(
        CameraDriver::<Stub641, Bus, { Mlx90641::HEIGHT }, N641>::new_with_calibration(Bus, addr as u8, Stub641(s)),
        ops, nops, out,
    )
}
