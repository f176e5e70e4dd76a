//! Decoding of presentation graphic streams with the library.

use crate::fw::no_panic;
use image::LumaA;
pub use model::pgs::*;
use std::io::{BufRead, Cursor, Seek};
use subtile::image::ImageSize as _;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage, SupParser};

// ------------------------------------------------------------------ decoding

pub fn err_kind(e: &PgsError) -> &'static str {
    match e {
        PgsError::Io { .. } => "Io",
        PgsError::ODSParse(_) => "ODSParse",
        PgsError::PDSParse(_) => "PDSParse",
        PgsError::SegmentInvalidTypeCode { .. } => "SegmentInvalidTypeCode",
        PgsError::SegmentFailReadHeader => "SegmentFailReadHeader",
        PgsError::SegmentPGMissing => "SegmentPGMissing",
        PgsError::SegmentSkip { .. } => "SegmentSkip",
        PgsError::MissingImage => "MissingImage",
        PgsError::MissingPalette => "MissingPalette",
        _ => "other",
    }
}

pub fn la(p: LumaA<u8>) -> Px {
    (p.0[0], p.0[1])
}

pub fn pixels_of(img: &RleEncodedImage) -> Vec<Px> {
    // one beyond the cap or the announced size: a surplus must be visible
    let n = (img.width() as usize * img.height() as usize).min(PIXEL_CAP);
    img.iter().take(n + 1).map(la).collect()
}

/// All items of a stream with times and images; `max` bounds their number.
pub fn decode_images<R: BufRead + Seek>(reader: R, max: usize) -> Result<Vec<PResult>, String> {
    let mut out = vec![];
    for_each_image(reader, max, |r| {
        out.push(r.map(|(start, end, img)| PItem {
            start,
            end,
            w: img.width(),
            h: img.height(),
            pixels: pixels_of(&img),
        }));
        Ok(())
    })?;
    Ok(out)
}

type ImgItem = Result<(i64, i64, RleEncodedImage), &'static str>;

pub fn for_each_image<R: BufRead + Seek>(
    reader: R,
    max: usize,
    mut f: impl FnMut(ImgItem) -> Result<(), String>,
) -> Result<(), String> {
    let r = no_panic(|| {
        let mut p = SupParser::<R, DecodeTimeImage>::new(reader);
        let mut n = 0;
        while let Some(item) = p.next() {
            n += 1;
            if n > max {
                return Err(format!("more than {max} items delivered"));
            }
            f(match item {
                Ok((t, img)) => Ok((t.start.msecs(), t.end.msecs(), img)),
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    Err(err_kind(&e))
                }
            })?;
        }
        for _ in 0..3 {
            if p.next().is_some() {
                return Err("an item was delivered after the end was reported".to_string());
            }
        }
        Ok(())
    });
    r?
}

/// The next `n` items of a reader.
pub fn take_images<R: BufRead + Seek>(r: &mut R, n: usize) -> Vec<PResult> {
    SupParser::<&mut R, DecodeTimeImage>::new(r)
        .take(n)
        .map(|i| {
            i.map(|(t, img)| PItem { start: t.start.msecs(), end: t.end.msecs(), w: img.width(), h: img.height(), pixels: pixels_of(&img) })
                .map_err(|e| err_kind(&e))
        })
        .collect()
}

pub fn decode_times<R: BufRead + Seek>(reader: R, max: usize) -> Result<Vec<TResult>, String> {
    let r = no_panic(|| {
        let mut p = SupParser::<R, DecodeTimeOnly>::new(reader);
        let mut out = vec![];
        while let Some(item) = p.next() {
            out.push(match item {
                Ok(t) => Ok((t.start.msecs(), t.end.msecs())),
                Err(e) => Err(err_kind(&e)),
            });
            if out.len() > max {
                return Err(format!("more than {max} items delivered"));
            }
        }
        for _ in 0..3 {
            if p.next().is_some() {
                return Err("an item was delivered after the end was reported".to_string());
            }
        }
        Ok(out)
    });
    r?
}

pub fn decode(bytes: &[u8]) -> Result<Vec<PResult>, String> {
    decode_images(Cursor::new(bytes), bytes.len())
}
