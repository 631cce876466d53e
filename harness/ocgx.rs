// Access to internals of the Rust library which the C++ interface does not reach.
//
// Optional: where this does not compile against the tree under test, the plain library is linked
// and the sub-checks which need it are skipped.
use half::f16;
use crate::cache::{CacheImpl, CachedImage};
use crate::cxxbridge::ffi::{BBox2Di, BlockSize, DataType, ImageSpec};
use crate::pathutils;

use crate::pixelblock::pixelblock::PixelBlock;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

thread_local! {
    static CACHE: RefCell<CacheImpl> = RefCell::new(CacheImpl::with_capacity(0));
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".to_string();
    }
    let mut s = String::with_capacity(2 * b.len());
    for v in b {
        write!(s, "{:02x}", v).unwrap();
    }
    s
}

fn data_type(s: &str) -> DataType {
    match s {
        "0" => DataType::Float32,
        "1" => DataType::Half16,
        "2" => DataType::UInt8,
        "3" => DataType::UInt16,
        _ => panic!("data type"),
    }
}

fn fill(pb: &mut PixelBlock, t: &str, raw: &[u8]) {
    match t {
        "0" => {
            for (d, s) in pb.as_mut_slice_f32().iter_mut().zip(raw.chunks(4)) {
                *d = f32::from_le_bytes([s[0], s[1], s[2], s[3]]);
            }
        }
        "1" => {
            for (d, s) in pb.as_mut_slice_f16().iter_mut().zip(raw.chunks(2)) {
                *d = f16::from_bits(u16::from_le_bytes([s[0], s[1]]));
            }
        }
        "2" => pb.as_mut_slice_u8().copy_from_slice(raw),
        _ => {
            for (d, s) in pb.as_mut_slice_u16().iter_mut().zip(raw.chunks(2)) {
                *d = u16::from_le_bytes([s[0], s[1]]);
            }
        }
    }
}

fn show(pb: &PixelBlock, t: &str) -> String {
    let mut raw = Vec::<u8>::new();
    match t {
        "0" => pb.as_slice_f32().iter().for_each(|v| raw.extend_from_slice(&v.to_le_bytes())),
        "1" => pb.as_slice_f16().iter().for_each(|v| raw.extend_from_slice(&v.to_bits().to_le_bytes())),
        "2" => raw.extend_from_slice(pb.as_slice_u8()),
        _ => pb.as_slice_u16().iter().for_each(|v| raw.extend_from_slice(&v.to_le_bytes())),
    }
    format!("{} {} {} {} {}", pb.width(), pb.height(), pb.num_channels(), pb.size_bytes(), hex(&raw))
}

fn int(s: &str) -> i32 {
    s.parse().unwrap()
}

fn bbox(a: &[&str]) -> BBox2Di {
    BBox2Di::new(int(a[0]), int(a[1]), int(a[2]), int(a[3]))
}

fn block(t: &str, w: &str, h: &str, c: &str, raw: &str) -> PixelBlock {
    let mut pb = PixelBlock::new(BlockSize::new(int(w), int(h), int(c)), data_type(t));
    fill(&mut pb, t, &unhex(raw));
    pb
}

fn info(c: &CacheImpl) -> String {
    format!("{} {} {}", c.len(), c.used_bytes(), c.capacity_bytes())
}

fn call(line: &str) -> String {
    let a: Vec<&str> = line.split(' ').collect();
    match a[0] {
        // convert: type w h c pixels, types...
        "convert" => {
            let mut pb = block(a[1], a[2], a[3], a[4], a[5]);
            for t in &a[6..] {
                pb.convert_into_data_type(data_type(t));
            }
            show(&pb, a[a.len() - 1])
        }
        // crop: type w h c pixels, data window, crop window
        "crop" => {
            let pb = block(a[1], a[2], a[3], a[4], a[5]);
            let new = PixelBlock::from_pixel_block(&pb, bbox(&a[6..10]), bbox(&a[10..14]));
            show(&new, a[1])
        }
        "expand" => {
            let s = String::from_utf8(unhex(a[2])).unwrap();
            hex(pathutils::expand_string(s, int(a[1])).as_bytes())
        }
        "cnew" => CACHE.with(|c| {
            *c.borrow_mut() = CacheImpl::with_capacity(a[1].parse().unwrap());
            info(&c.borrow())
        }),
        "ccap" => CACHE.with(|c| {
            c.borrow_mut().set_capacity_bytes(a[1].parse().unwrap());
            info(&c.borrow())
        }),
        // cput: key width type
        "cput" => CACHE.with(|c| {
            let w = int(a[2]);
            let pb = PixelBlock::new(BlockSize::new(w, 1, 4), data_type(a[3]));
            let img = CachedImage {
                pixel_block: Rc::new(pb),
                spec: ImageSpec::new(),
                display_window: BBox2Di::new(0, 0, w, 1),
                data_window: BBox2Di::new(0, 0, w, 1),
            };
            c.borrow_mut().insert(a[1].parse().unwrap(), img);
            info(&c.borrow())
        }),
        "cget" => CACHE.with(|c| {
            let key: u64 = a[1].parse().unwrap();
            let w = match c.borrow_mut().get(&key) {
                Some(v) => v.pixel_block.width(),
                None => -1,
            };
            format!("{} {}", info(&c.borrow()), w)
        }),
        "cfree" => CACHE.with(|c| {
            c.borrow_mut().evict_bytes(a[1].parse().unwrap());
            info(&c.borrow())
        }),
        "cevict" => CACHE.with(|c| {
            let r = c.borrow_mut().evict();
            format!("{} {}", info(&c.borrow()), r as i32)
        }),
        "cclear" => CACHE.with(|c| {
            c.borrow_mut().evict_all();
            info(&c.borrow())
        }),
        _ => "unknown".to_string(),
    }
}

/// The answer stays valid until the next call.
#[no_mangle]
pub extern "C" fn ocgx_call(line: *const u8, len: usize, out_len: *mut usize) -> *const u8 {
    thread_local! {
        static OUT: RefCell<String> = RefCell::new(String::new());
    }
    let s = unsafe { std::slice::from_raw_parts(line, len) };
    let r = call(std::str::from_utf8(s).unwrap());
    OUT.with(|o| {
        *o.borrow_mut() = r;
        unsafe { *out_len = o.borrow().len() };
        o.borrow().as_ptr()
    })
}
