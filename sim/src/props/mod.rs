use crate::img::*;
use crate::runner::*;
use d10::{DecodingError, EncodingError, Image};
use simcore::rng::Rng;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod queue;

pub fn all() -> Vec<Entry> {
    vec![
        entry::<c01::P>(),
        entry::<c02::P>(),
        entry::<c03::P>(),
        entry::<c04::P>(),
        entry::<c05::P>(),
        entry::<c06::P>(),
        entry::<c07::P>(),
        entry::<c08::P>(),
        entry::<c09::P>(),
        entry::<c10::P>(),
        entry::<c11::P>(),
        entry::<c12::P>(),
        entry::<c13::P>(),
        entry::<c14::P>(),
        entry::<c15::P>(),
        entry::<c16::P>(),
        entry::<c17::P>(),
        entry::<c18::P>(),
        entry::<c19::P>(),
    ]
}

/// Everything the process initialises lazily happens before the first simulated run, so that a
/// run does not depend on the runs before it.
pub fn warm_up() {
    for k in 0..6 {
        let img = ImgSpec { w: 5, h: 4, kind: 1, seed: 3 }.build();
        let mut r = Rng::new(k);
        let b = img.save_to_buffer(Fmt::gen_kind(&mut r, k as u8).enc());
        if let Ok(b) = b {
            let _ = Image::read_from_buffer(&b);
        }
    }
    let img = ImgSpec { w: 5, h: 4, kind: 11, seed: 3 }.build();
    let _ = img.save_to_buffer(Fmt::WebP { q: 0, preset: 6 }.enc()).and_then(|b| {
        let _ = Image::read_from_buffer(&b);
        Ok(())
    });
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
    let _ = last_panic();
    let _ = format!("{:?}", std::time::Instant::now());
    let h = std::thread::spawn(|| ());
    let _ = h.join();
}

pub fn kind_of(e: i32) -> std::io::ErrorKind {
    std::io::Error::from_raw_os_error(e).kind()
}

pub fn enc_err(e: &EncodingError) -> String {
    match e {
        EncodingError::IoError(e) => format!("I/O error {:?} ({})", e.kind(), e),
        EncodingError::BadFileExtension(_) => "bad file extension".into(),
        EncodingError::BadDimensions { .. } => "bad dimensions".into(),
        EncodingError::Encoding(s) => format!("encoding error '{}'", s),
    }
}
pub fn dec_err(e: &DecodingError) -> String {
    match e {
        DecodingError::IoError(e) => format!("I/O error {:?} ({})", e.kind(), e),
        DecodingError::BadFileExtension(_) => "bad file extension".into(),
        DecodingError::UnknownFormat => "unknown format".into(),
        DecodingError::InvalidBufferSize { width, height } => format!("invalid size {}x{}", width, height),
        DecodingError::Decoding(s) => format!("decoding error '{}'", s),
    }
}
/// Encodes to memory without any fault.
pub fn reference(i: &Image, f: &Fmt) -> Result<Result<Vec<u8>, EncodingError>, Violation> {
    calm("saving to memory", || i.save_to_buffer(f.enc()))
}
/// Decodes from memory without any fault.
pub fn decoded(b: &[u8]) -> Result<Result<Image, DecodingError>, Violation> {
    calm("decoding from memory", || Image::read_from_buffer(b))
}

pub fn well_formed(i: &Image) -> Result<(), String> {
    let (w, h) = (i.width() as u64, i.height() as u64);
    if i.data().len() as u64 != w * h {
        return Err(format!("{} pixels for {}x{}", i.data().len(), w, h));
    }
    if w * h > d10::MAX_BUFFER_SIZE {
        return Err(format!("{}x{} exceeds the maximum size", w, h));
    }
    for (n, c) in i.data().iter().enumerate() {
        if c.data.iter().any(|v| !v.is_finite()) {
            return Err(format!("pixel {} is {:?}", n, c.data));
        }
    }
    Ok(())
}

pub fn serve(id: &str) -> Option<fn(&[u8]) -> Vec<u8>> {
    match id {
        "C09" => Some(c09::serve),
        "C10" => Some(c10::serve),
        _ => None,
    }
}

/// The stored file of a picture, or (kind 100) a file made by another program.
pub fn stored(i: &ImgSpec, f: &Fmt) -> Result<Result<Vec<u8>, EncodingError>, Violation> {
    if i.kind >= FOREIGN {
        Ok(Ok(crate::foreign::build(f.kind(), i.w, i.h, i.seed)))
    } else {
        reference(&i.build(), f)
    }
}
