//! Decoding of DVD subtitle streams with the library.

use crate::fw::{no_panic, scratch};
pub use model::vob::*;
use subtile::image::ImageArea as _;
use subtile::time::TimeSpan;
use subtile::vobsub::{ErrorMissing, Sub, VobSubError, VobSubIndexedImage};

// ------------------------------------------------------------------ decoding

pub fn err_kind(e: &VobSubError) -> &'static str {
    match e {
        VobSubError::Content(_) => "Content",
        VobSubError::MissingKey(_) => "MissingKey",
        VobSubError::LangParsing => "LangParsing",
        VobSubError::Parse(_) => "Parse",
        VobSubError::PaletteInvalidEntriesNumbers(_) => "PaletteInvalidEntriesNumbers",
        VobSubError::PaletteError(_) => "PaletteError",
        VobSubError::InvalidScanLineOffsets { .. } => "InvalidScanLineOffsets",
        VobSubError::BufferTooSmallForU16 => "BufferTooSmallForU16",
        VobSubError::UnexpectedEndOfSubtitleData => "UnexpectedEndOfSubtitleData",
        VobSubError::ControlSequence(_) => "ControlSequence",
        VobSubError::ControlOffsetWentBackwards => "ControlOffsetWentBackwards",
        VobSubError::ControlOffsetBiggerThanPacket { .. } => "ControlOffsetBiggerThanPacket",
        VobSubError::PESPacket(_) => "PESPacket",
        VobSubError::IncompleteControlPacket => "IncompleteControlPacket",
        VobSubError::PacketTooShort => "PacketTooShort",
        VobSubError::MissingTimingForSubtitle => "MissingTimingForSubtitle",
        VobSubError::MissingSubtitleParsing(m) => match m {
            ErrorMissing::StartTime => "Missing:StartTime",
            ErrorMissing::Area => "Missing:Area",
            ErrorMissing::Palette => "Missing:Palette",
            ErrorMissing::AlphaPalette => "Missing:AlphaPalette",
            ErrorMissing::RleOffset => "Missing:RleOffset",
            _ => "Missing:other",
        },
        VobSubError::Image(_) => "Image",
        VobSubError::Io { .. } => "Io",
        _ => "other",
    }
}

pub fn to_item(t: &TimeSpan, img: &VobSubIndexedImage) -> VItem {
    let a = img.area();
    VItem {
        start: t.start.msecs(),
        end: t.end.msecs(),
        area: (
            u32::from(a.left()),
            u32::from(a.top()),
            u32::from(a.width()),
            u32::from(a.height()),
        ),
        palette: *img.palette(),
        alpha: *img.alpha(),
        pixels: img.raw_image().to_vec(),
    }
}

pub fn open(bytes: &[u8]) -> Result<Sub, String> {
    let p = scratch().join("a.sub");
    std::fs::write(&p, bytes).map_err(|e| format!("harness: cannot write scratch file: {e}"))?;
    Sub::open(&p).map_err(|e| format!("Sub::open failed on a readable file: {e}"))
}

/// Decode a whole stream; errors of the harness' own (panic, too many items,
/// end not final) are `Err`.
pub fn decode(bytes: &[u8]) -> Result<Vec<DItem>, String> {
    decode_opt(bytes, false)
}

pub fn decode_opt(bytes: &[u8], format_logs: bool) -> Result<Vec<DItem>, String> {
    let sub = open(bytes)?;
    let max = start_codes(bytes);
    crate::guard::arm(work_budget(bytes), format_logs);
    let r = no_panic(|| {
        let mut it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
        let mut out: Vec<DItem> = vec![];
        loop {
            match it.next() {
                None => break,
                Some(Ok((t, img))) => out.push(Ok(to_item(&t, &img))),
                Some(Err(e)) => {
                    if format_logs {
                        // error formatting is part of what a caller does
                        let _ = format!("{e} {e:?}");
                    }
                    out.push(Err(err_kind(&e)));
                }
            }
            if out.len() > max {
                return Err(format!(
                    "more items than the {max} pack start codes in the stream"
                ));
            }
        }
        for _ in 0..3 {
            if it.next().is_some() {
                return Err("an item was delivered after the end was reported".to_string());
            }
        }
        Ok(out)
    });
    crate::guard::disarm();
    r?
}

/// What a valid subtitle decodes to on its own in the plainest packaging.
pub fn alone(packet: &[u8], pts: u64) -> Result<VItem, String> {
    match decode(&plain_stream(&[(packet.to_vec(), pts)]))?.pop() {
        Some(Ok(i)) => Ok(i),
        x => Err(format!("a valid subtitle alone in the stream is not decoded: {x:?}")),
    }
}
