#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "VobSub: any .sub bytes are decoded or rejected cleanly",
  "Reading the subtitles of any .sub byte stream to its end never panics and always terminates, however malformed, truncated or hostile the bytes are; what cannot be decoded is skipped or reported as an error item, and there are never more items than program-stream start codes in the bytes. Once the end has been reported, every further call reports the end again. Every subtitle that is delivered is well formed: its area has width and height of at least 2, its image has exactly width x height values, each below 4, and its four palette and four alpha values are each below 16.",
  ["inputs"], "every byte string used as a .sub file: random, mutated from valid streams, or valid framing around hostile content",
  "The tests decode four well-formed fixtures; no malformed stream is ever decoded, and hostile inputs are unbounded.",
  ["src/vobsub/sub.rs", "src/vobsub/img.rs", "src/vobsub/decoder.rs", "src/vobsub/mpeg2/ps.rs", "src/vobsub/mpeg2/pes.rs"],
  [("bounds and offset checks of the subtitle packet", "src/vobsub/sub.rs"), ("run-length overflow checks", "src/vobsub/img.rs"), ("packet search and skip", "src/vobsub/mpeg2/ps.rs")],
  ["vobsub::Sub::open", "vobsub::Sub::subtitles"])
p("C02", "VobSub: decoded area, colours and pixels are what was encoded",
  "For every sequence of valid subtitles encoded as a DVD subtitle stream, decoding yields exactly one item per subtitle, in stream order. Each item has the encoded rectangle (inclusive corners), the four palette and four alpha indices listed from colour value 0 to colour value 3, and at every position the encoded 2-bit colour value, for every mix of run lengths and end-of-line fills and for every layout of the two interlaced fields.",
  ["inputs"], "every rectangle, palette, alpha set, image up to the 64 KiB packet limit, run splitting, field layout and command order",
  "The tests only look at the area and palette of one fixture subtitle; no pixel is ever compared.",
  ["src/vobsub/img.rs", "src/vobsub/sub.rs", "src/content/area.rs"],
  [("run-length decoding of one line", "src/vobsub/img.rs scan_line, rle, count"), ("field interleaving", "src/vobsub/img.rs decompress"), ("field offsets", "src/vobsub/img.rs VobSubRleImageData"), ("palette and alpha reversal", "src/vobsub/sub.rs subtitle")],
  ["vobsub::Sub::subtitles", "VobSubIndexedImage"])
p("C03", "VobSub: decoding does not depend on how packets are transported",
  "How a subtitle is carried in the program stream does not change what is decoded: any fragmentation over successive packets, any pack or packet header contents (clock, rate, flags, presentation-only or presentation-and-decode time stamps, header and pack stuffing), and any trailing bytes beyond the subtitle's declared size give the same subtitles as the plainest packaging. Bytes between packets that hold no pack start code, packs holding other streams (padding, video), packs whose header is not well formed, and packets of another substream arriving between the fragments of a subtitle are ignored.",
  ["inputs", "programs"], "every fragmentation, header content, stuffing and interleaving of unrelated data around any valid subtitles",
  "One fixture pair (tiny, tiny-split) compares two packagings of one subtitle, times only.",
  ["src/vobsub/mpeg2/ps.rs", "src/vobsub/mpeg2/pes.rs", "src/vobsub/mpeg2/clock.rs", "src/vobsub/sub.rs"],
  [("reassembly of a subtitle from packets", "src/vobsub/sub.rs next_sub_packet"), ("pack and packet header parsing", "src/vobsub/mpeg2"), ("resynchronisation on pack start codes", "src/vobsub/mpeg2/ps.rs PesPackets")],
  ["vobsub::Sub::subtitles"])
p("C04", "VobSub: display times equal time stamp plus control dates",
  "A decoded VobSub subtitle starts at its packet's 33-bit presentation time stamp (90 kHz) plus the date of its first start command (hundredths of a second), truncated to whole milliseconds, and ends likewise at its first stop command. When there is no stop command it ends five seconds after it starts.",
  ["inputs"], "every 33-bit time stamp and every 16-bit start and stop date, with and without a stop command",
  "The tests compare two times of one fixture with a one-sided 0.1 s tolerance and never see a subtitle without a stop command.",
  ["src/vobsub/decoder.rs", "src/vobsub/sub.rs", "src/vobsub/mpeg2/clock.rs", "src/time/time_point.rs"],
  [("clock field reassembly", "src/vobsub/mpeg2/clock.rs"), ("date to seconds", "src/vobsub/sub.rs subtitle"), ("default length", "src/vobsub/decoder.rs")],
  ["vobsub::Sub::subtitles", "TimeSpan"])
p("C05", "VobSub: control sequences are interpreted by fixed rules",
  "Over all chained control sequences of a subtitle, the first start date, stop date, palette, alpha and area found are used, and the last pair of field offsets; unknown commands are skipped up to the end of their sequence, and a sequence pointing at itself ends the chain. A subtitle lacking a start date, area, palette, alpha or field offsets is reported as the matching missing-part error. A chain pointing backwards or beyond the packet, an area whose second corner is not strictly beyond the first on both axes, and field offsets that are out of order or beyond the control data are reported as errors, never decoded.",
  ["inputs", "programs"], "every chain of control sequences: any commands, repeated or missing, in any order, with any chaining",
  "The tests parse three literal control sequences in isolation and never run a chain with repeated, missing or invalid parts.",
  ["src/vobsub/sub.rs", "src/content/area.rs", "src/vobsub/img.rs"],
  [("control chain loop", "src/vobsub/sub.rs subtitle"), ("command parser", "src/vobsub/sub.rs control_command"), ("area validation", "src/content/area.rs")],
  ["vobsub::Sub::subtitles", "VobSubError", "ErrorMissing"])
p("C06", "VobSub: a damaged subtitle never affects its neighbours",
  "In a stream mixing valid and individually damaged subtitles, each kept within its own packets, every damaged one (bad control data, missing part, bad area, bad offsets, image data that is too long for a line or ends early, packet too short, no time stamp) gives exactly one error item at its place. Every valid one is delivered at its place, equal to what it decodes to alone.",
  ["inputs", "fault_sequences"], "every interleaving of valid subtitles with subtitles damaged in each listed way",
  "No test contains an error item for VobSub at all.",
  ["src/vobsub/sub.rs", "src/vobsub/img.rs", "src/vobsub/decoder.rs"],
  [("per-subtitle error return", "src/vobsub/sub.rs Iterator::next"), ("image decompression errors", "src/vobsub/img.rs")],
  ["vobsub::Sub::subtitles"])
p("C07", "VobSub index: palette and language are read from any .idx text",
  "Reading an index gives the palette of its last palette line, or the default 16-colour palette if it has none, and the language of its last id line if that is well formed (a lower-case word, a comma, a space and an index, whatever the index reads), or none; comments, unknown keys, blank lines, line endings and reader buffering change nothing, and reading from a path or from a reader agree. A palette line that does not consist of exactly 16 colours is an error, text that is not UTF-8 is an I/O error, and no byte string makes reading panic.",
  ["inputs"], "every index text made of known, unknown, commented and malformed lines, and every byte string",
  "One fixture is read and two palette entries compared; language, defaults and errors are untested.",
  ["src/vobsub/idx.rs", "src/vobsub/palette.rs"],
  [("line and key matching", "src/vobsub/idx.rs read_index"), ("language parsing", "src/vobsub/idx.rs Lang"), ("default palette", "src/vobsub/palette.rs")],
  ["vobsub::Index::open", "vobsub::Index::read_index", "Index::palette", "Index::lang"])
p("C08", "VobSub palette text is parsed exactly",
  "Sixteen colours written as six hexadecimal digits of either case and separated by a comma and a space parse to exactly those RGB values in order, leaving untouched whatever follows that is not another separated colour; the strict form of reading rejects anything that follows. Any other number of colours, a colour with fewer digits or a non-hexadecimal digit among the sixteen, or another separator is rejected, and no byte string makes parsing panic.",
  ["inputs"], "every 16-colour palette in every letter case, every near miss, and every byte string",
  "Two literal palettes are parsed; rejection is never tested.",
  ["src/vobsub/palette.rs"], [("palette grammar", "src/vobsub/palette.rs palette, hex_rgb")], ["vobsub::palette"])
p("C09", "File probing answers by the leading bytes only",
  "For every readable file, the index probe answers true exactly when the file begins with the text '# VobSub index file', and the stream probe exactly when it begins with the bytes 00 00 01 BA, whatever follows. A file shorter than the signature is answered false, not an error.",
  ["inputs"], "every file content, of every length including empty",
  "Two fixtures are probed; near misses and short files are not.",
  ["src/vobsub/probe.rs"], [("signature comparison", "src/vobsub/probe.rs has_magic")], ["vobsub::is_idx_file", "vobsub::is_sub_file"])
p("C10", "Unreadable paths give I/O errors that name the path",
  "Opening a stream, an index or a presentation graphic file, or probing a file, on a path that does not exist or is not readable as a file never panics and returns an I/O error carrying exactly that path and the underlying cause, with the path in its message. A directory given as a presentation graphic file is reported as an error no later than the first subtitle.",
  ["inputs", "fault_sequences"], "every missing path, including odd names and non UTF-8 names, and directories in place of files",
  "No test opens a bad path.",
  ["src/vobsub/sub.rs", "src/vobsub/idx.rs", "src/vobsub/probe.rs", "src/pgs/sup.rs"],
  [("error mapping with path", "src/vobsub/sub.rs, src/vobsub/idx.rs, src/vobsub/probe.rs, src/pgs/sup.rs")],
  ["vobsub::Sub::open", "vobsub::Index::open", "vobsub::is_idx_file", "vobsub::is_sub_file", "SupParser::from_file"])
p("C11", "VobSub image rendering maps every pixel through palette and alpha",
  "Rendering a VobSub image gives an image of exactly its area's width and height whose pixel at (x, y) is the conversion function applied to the 16-colour palette entry selected by that position's colour value and to that colour value's alpha. The ready-made RGBA conversion keeps the three colour channels and the alpha unchanged.",
  ["inputs"], "every image size, index image, palette, alpha set and conversion function",
  "Only the doc example renders, and looks at no pixel.",
  ["src/vobsub/img.rs", "src/image/mod.rs"], [("colour table and pixel loop", "src/vobsub/img.rs VobSubToImage")], ["VobSubToImage::to_image", "conv_to_rgba"])
p("C12", "OCR images: border, text and background are placed exactly",
  "An image generated for OCR is the subtitle's width and height plus the border on each side, and every border pixel has the background colour. Inside, a VobSub pixel has the text colour exactly when its colour's alpha is above zero and its palette luminance is above zero, and the background colour otherwise; a presentation graphic pixel is the conversion function applied to that pixel. Palette luminance keeps grey levels unchanged and lies between the smallest and largest channel.",
  ["inputs", "configurations"], "every image, palette, alpha set, border width and pair of colours",
  "No test generates an OCR image.",
  ["src/vobsub/img.rs", "src/pgs/pgs_image.rs", "src/image/mod.rs", "src/vobsub/palette.rs"],
  [("VobSub OCR rendering", "src/vobsub/img.rs VobSubOcrImage"), ("PGS OCR rendering", "src/pgs/pgs_image.rs ToOcrImage"), ("luminance", "src/vobsub/palette.rs")],
  ["VobSubOcrImage::image", "RleToImage::image", "palette_rgb_to_luminance"])
p("C13", "PGS: any .sup bytes are decoded or rejected cleanly",
  "Reading any byte string as a presentation graphic stream, with the times decoder or the times-and-images decoder, never panics and always terminates; what cannot be decoded is reported as an error item, there are never more items than bytes, and once the end has been reported it stays reported. Every delivered image can be iterated and rendered without panicking and gives exactly width x height pixels, whatever its encoded pixel data holds: missing pixels are transparent white and surplus ones are dropped.",
  ["inputs"], "every byte string used as a .sup stream: random, mutated from valid streams, or valid framing around hostile segments",
  "Two well-formed fixtures are decoded, times only; images are never iterated.",
  ["src/pgs/decoder.rs", "src/pgs/ods.rs", "src/pgs/pds.rs", "src/pgs/segment.rs", "src/pgs/pgs_image.rs"],
  [("segment header validation", "src/pgs/segment.rs"), ("object and palette segment validation", "src/pgs/ods.rs, src/pgs/pds.rs"), ("pixel run decoding", "src/pgs/pgs_image.rs")],
  ["SupParser", "RleEncodedImage", "RleToImage"])
p("C14", "PGS: decoded times, sizes and pixels are what was encoded",
  "For every sequence of subtitles encoded as a presentation graphic stream (a display set with palette and object, followed by a display set that ends it), decoding yields one item per subtitle, in order, with the presentation times of the two end segments divided by 90, the encoded width and height, and at every position the luminance and transparency of the palette entry whose identifier is the encoded colour, or transparent white if the palette has no such entry. This holds for objects in one segment or split over a first and a last one, for every way of writing the pixel runs, for every order and set of palette entries, and whatever composition and window segments hold.",
  ["inputs"], "every size, palette, image, run writing, object split and surrounding segments",
  "The tests compare times of two fixtures; no size, pixel or palette is compared.",
  ["src/pgs/decoder.rs", "src/pgs/ods.rs", "src/pgs/pds.rs", "src/pgs/pgs_image.rs", "src/pgs/u24.rs", "src/pgs/segment.rs"],
  [("display set assembly", "src/pgs/decoder.rs DecodeTimeImage"), ("object assembly", "src/pgs/ods.rs"), ("palette lookup", "src/pgs/pds.rs"), ("run decoding", "src/pgs/pgs_image.rs")],
  ["SupParser<_, DecodeTimeImage>", "RleEncodedImage::iter"])
p("C15", "PGS: times do not depend on the decoder chosen",
  "On every stream, the times decoder yields one span for each successive pair of end segments, made of their presentation times divided by 90, for every 32-bit presentation time and every mix and content of other segments in between. On every stream that decodes without error, the times-and-images decoder yields the same spans in the same order.",
  ["inputs"], "every sequence of well-framed segments with any contents and time stamps",
  "One fixture with one subtitle is decoded with the times decoder.",
  ["src/pgs/decoder.rs", "src/pgs/segment.rs", "src/pgs/mod.rs"],
  [("pairing of end segments", "src/pgs/decoder.rs DecodeTimeOnly"), ("segment skipping", "src/pgs/mod.rs skip_data")],
  ["SupParser<_, DecodeTimeOnly>", "SupParser<_, DecodeTimeImage>"])
p("C16", "PGS: results do not depend on the reader's buffering",
  "Decoding a stream gives the same items, errors included, whether it is read from memory, from a file, through a buffered reader of any capacity, or from a reader that hands out its bytes in arbitrary pieces, and wherever in the reader the stream begins: a parser decodes what follows from the position the reader stands at.",
  ["inputs", "schedules"], "every stream, valid or not, and every sequence of piece sizes handed out by the reader",
  "The tests only use the default buffered file reader.",
  ["src/pgs/mod.rs", "src/pgs/segment.rs", "src/pgs/sup.rs"],
  [("skip within or beyond the buffer", "src/pgs/mod.rs ReadExt::skip_data"), ("exact reads", "src/pgs/segment.rs, src/pgs/ods.rs, src/pgs/pds.rs")],
  ["SupParser::new", "SupParser::from_file"])
p("C17", "PGS: a truncated stream yields a prefix of the full result",
  "Cutting a valid stream after any number of bytes yields exactly the subtitles whose last segment header lies within the kept bytes, unchanged and in order, then at most one error, then the end. No subtitle is invented or altered by the cut.",
  ["crash_points", "inputs"], "every cut point of every valid stream, with both decoders",
  "No fixture is truncated.",
  ["src/pgs/decoder.rs", "src/pgs/segment.rs", "src/pgs/ods.rs", "src/pgs/pds.rs"],
  [("end of stream detection", "src/pgs/segment.rs read_header"), ("short payload errors", "src/pgs/ods.rs, src/pgs/pds.rs")],
  ["SupParser"])
p("C18", "PGS: a read or seek failure is reported, never taken as the end",
  "If the reader fails with an I/O error other than end of file, on any read or seek, the subtitles completed before it are delivered unchanged and the failure is then reported as an error item, without panic. It is never reported as the end of the stream and never turned into a wrong subtitle; short reads and reads that succeed after an interruption give the fault-free result or an error.",
  ["fault_sequences", "inputs"], "every position at which a read or seek fails, every error kind, every valid stream, both decoders",
  "No test uses a failing reader.",
  ["src/pgs/segment.rs", "src/pgs/mod.rs", "src/pgs/ods.rs", "src/pgs/pds.rs", "src/pgs/decoder.rs"],
  [("error mapping of reads", "src/pgs/segment.rs read_header"), ("error mapping of skips", "src/pgs/mod.rs skip_data")],
  ["SupParser::new"])
p("C19", "PGS: a defective subtitle is an error and spares its neighbours",
  "In a stream of valid subtitles mixed with defective ones, a subtitle without an object, or with only the first part of one, is reported as a missing image, and one whose object comes without a palette as a missing palette, possibly followed by further errors until its end. An empty segment of an unknown type and a segment header with a bad signature, standing between two subtitles, are reported as the matching error, and so is an object segment that continues no object, has an unknown sequence flag or does not continue the object begun before it, possibly followed by further errors until the end of its subtitle. None of these ever gives a subtitle, and all other subtitles are delivered unchanged and in order.",
  ["inputs", "fault_sequences"], "every interleaving of valid subtitles with subtitles lacking image or palette or carrying a bad header",
  "One fixture has one subtitle without image; the others' contents are not compared.",
  ["src/pgs/decoder.rs", "src/pgs/segment.rs"],
  [("missing part errors", "src/pgs/decoder.rs DecodeTimeImage"), ("header validation", "src/pgs/segment.rs parse_segment_header")],
  ["SupParser<_, DecodeTimeImage>", "PgsError"])
p("C20", "PGS: pixel iteration keeps its length promise and is repeatable",
  "Iterating a presentation graphic image announces, before every step, exactly the number of pixels still to come, which is width x height at first; after the last pixel it stays ended. Every way of iterating the same image (borrowing iteration, its named method, iteration with a custom conversion, a clone of the image) gives the same pixels each time it is started.",
  ["inputs", "histories"], "every image of an accepted stream, every number of steps taken before asking",
  "No test iterates an image.",
  ["src/pgs/pgs_image.rs"], [("iterator state", "src/pgs/pgs_image.rs RlePixelIterator")], ["RleEncodedImage::iter", "RleEncodedImage::pixels", "ExactSizeIterator::len"])
p("C21", "PGS image rendering applies the conversion to every pixel in place",
  "Rendering a presentation graphic image gives an image of exactly its width and height whose pixel at (x, y) is the conversion function applied to the decoded luminance and alpha of that position, for output formats of one to four channels.",
  ["inputs"], "every image of a valid stream and every conversion function and output format",
  "No test renders an image.",
  ["src/pgs/pgs_image.rs", "src/image/mod.rs"], [("buffer assembly", "src/pgs/pgs_image.rs ToImage for RleToImage")], ["RleToImage::to_image"])
p("C22", "Luminance thresholds decide black or white exactly",
  "The threshold conversions give black exactly when both the alpha and the luminance of the pixel are greater than or equal to their own threshold, and white otherwise, for every pixel, threshold pair and sample type. The variant with compile-time thresholds and the one with run-time thresholds agree, for pixels passed by value or by reference.",
  ["inputs", "configurations"], "every pixel and threshold pair, several sample types",
  "No test calls the conversions.",
  ["src/image/pixels.rs"], [("threshold comparison", "src/image/pixels.rs")], ["luma_a_to_luma", "luma_a_to_luma_convertor"])
p("C23", "Time points convert without losing a millisecond",
  "A time point returns exactly the milliseconds it was made from, orders and compares like them, and negates to their negation. Converting to seconds and back gives the same time point for every time of up to 285 years; converting any seconds value truncates it toward zero to whole milliseconds, within floating-point precision: a value within a few roundings of a whole millisecond counts as that millisecond. A seconds value too large for the millisecond range, or not a number, panics as documented instead of giving a wrong time.",
  ["inputs"], "every millisecond count and every floating-point seconds value",
  "The tests convert six literals.",
  ["src/time/time_point.rs", "src/time/time_span.rs"], [("conversion and truncation", "src/time/time_point.rs from_secs, to_secs")], ["TimePoint"])
p("C24", "Time stamps are written in each format and read back exactly",
  "Every time point is written as an optional minus sign, hours of at least two digits, two-digit minutes and seconds below 60, the format's separator (comma for SubRip, full stop for WebVTT, colon for the index format) and three-digit milliseconds, which read back as exactly the same number of milliseconds. This includes negative times, times beyond 99 hours and the extreme representable times, and never panics.",
  ["inputs"], "every 64-bit millisecond count, in the three formats",
  "No test formats a time point.",
  ["src/time/time_point.rs", "src/srt.rs", "src/webvtt.rs", "src/vobsub/idx.rs"], [("component split and padding", "src/time/time_point.rs fmt_separator")], ["TimePointSrt", "TimePointVtt", "TimePointIdx"])
p("C25", "SubRip and WebVTT output is exact and complete",
  "Writing SubRip subtitles produces, for each subtitle in order, its number counted from 1, the line 'start --> end' in SubRip time format, its text unchanged, and one empty line, and nothing else, so that reading the file back returns the same times and texts. A single SubRip line carries the given number, and a WebVTT line has the same shape without number and with WebVTT time format.",
  ["inputs"], "every list of subtitles with any times and any text",
  "Neither writer is called by any test.",
  ["src/srt.rs", "src/webvtt.rs"], [("line layout", "src/srt.rs write_line, src/webvtt.rs write_line"), ("numbering", "src/srt.rs write_srt")], ["srt::write_srt", "srt::write_line", "webvtt::write_line"])
p("C26", "A failing writer always surfaces, with only a clean prefix written",
  "If the writer given to the SubRip or WebVTT functions fails at any byte, the call returns that error and what was accepted before is exactly the leading part of the correct output; nothing is written after the failure. If the writer only accepts a few bytes at a time or is interrupted, the complete correct output is still written and the call succeeds.",
  ["fault_sequences", "crash_points", "inputs"], "every failure position, error kind and sequence of partial acceptances, for any subtitles",
  "No test uses a writer at all.",
  ["src/srt.rs", "src/webvtt.rs"], [("error propagation", "src/srt.rs write_srt, src/webvtt.rs write_line")], ["srt::write_srt", "srt::write_line", "webvtt::write_line"])
p("C27", "Dumped images are complete, numbered in order and lossless",
  "Dumping images creates the folder with its parents if needed and writes exactly one PNG file per image, numbered from 000000 in order with six digits, each reading back with the same size, format and pixels, replacing older files of these names and touching nothing else. If the folder cannot be created, or an image cannot be written, the call returns the matching error naming the folder or the file, and the images before it are on disk.",
  ["inputs", "fault_sequences"], "every list of images of the supported pixel formats and every prior state of the folder, including a file or a folder in the way",
  "No test dumps an image.",
  ["src/image/utils.rs"], [("naming and order", "src/image/utils.rs dump_images"), ("error mapping", "src/image/utils.rs DumpError")], ["image::dump_images"])
p("C28", "Areas are valid rectangles with inclusive corners",
  "An area is accepted exactly when its second corner is strictly beyond its first on both axes and its width and height fit in 16 bits, and rejected as invalid otherwise, without panic. An accepted area reports its first corner unchanged, and width and height that count both corners, also through the size and image-size accessors.",
  ["inputs"], "every four 16-bit coordinates",
  "Areas are only built from one fixture's coordinates.",
  ["src/content/area.rs", "src/content/size.rs", "src/image/mod.rs"], [("validation", "src/content/area.rs TryFrom"), ("size computation", "src/content/area.rs width, height")], ["Area::try_from", "Area::size", "ImageSize"])
p("C29", "Subtitles are independent of what was read before or alongside",
  "Decoding the concatenation of two valid streams gives the subtitles of the first followed by those of the second, for both formats. Iterators obtained from one opened stream do not influence each other, whatever the interleaving of their steps and from whatever threads, nor does the type of output requested change the subtitles, and repeating a decoding gives the same result. Reading an index and converting a palette or an image give what they give alone, whatever was read or converted before, however similar, and opening a path gives what the file holds then; a stream or an index once opened does not change with its file. A parser started on a reader where another parser stopped continues with the next subtitle.",
  ["histories", "schedules", "inputs"], "every pair of valid streams and every interleaving of several iterators",
  "Each fixture is decoded once by one iterator.",
  ["src/vobsub/sub.rs", "src/pgs/sup.rs", "src/pgs/decoder.rs"], [("per-subtitle state", "src/vobsub/sub.rs subtitle, src/pgs/decoder.rs parse_next"), ("iterator borrowing the data", "src/vobsub/sub.rs Sub::subtitles")], ["vobsub::Sub::subtitles", "SupParser"])
p("C30", "Decoding memory is bounded by one subtitle, whatever the file says",
  "While iterating any stream and dropping each item, the memory in use never exceeds 40 MiB beyond the input itself plus a small multiple of the input size, however large the sizes claimed in the data are. On a stream of many valid subtitles it does not grow with their number.",
  ["inputs"], "every valid, mutated or hostile stream of both formats, and repeated streams of any length",
  "No test measures memory.",
  ["src/vobsub/sub.rs", "src/vobsub/img.rs", "src/pgs/ods.rs", "src/pgs/decoder.rs"], [("sizes bounded by field widths", "src/vobsub/sub.rs, src/vobsub/img.rs, src/pgs/ods.rs"), ("state dropped per subtitle", "src/pgs/decoder.rs, src/vobsub/sub.rs")], ["vobsub::Sub::subtitles", "SupParser"])
p("C31", "The parts work together from files to texts and images",
  "For every index and stream file, and every presentation graphic file, of valid subtitles: the files are recognised by their kind and opened by path; the subtitles decoded from them, written as SubRip and WebVTT files, read back with the encoded times in order; and their images, rendered with the palette of the index or the subtitle, prepared for text recognition and dumped as files, read back with the encoded sizes and, pixel for pixel, the encoded colours and transparency, one file per subtitle in stream order. The times decoded alone and with images write the same text. The files read are left unchanged.",
  ["inputs", "programs"], "every list of valid subtitles of both formats, with any palette, language, texts, border and colours",
  "No test takes a file through more than one part of the library.",
  ["src/vobsub/idx.rs", "src/vobsub/sub.rs", "src/vobsub/img.rs", "src/pgs/sup.rs", "src/pgs/pgs_image.rs", "src/srt.rs", "src/webvtt.rs", "src/image/utils.rs"],
  [("opening by path", "src/vobsub/idx.rs Index::open, src/vobsub/sub.rs Sub::open, src/pgs/sup.rs SupParser::from_file"), ("rendering", "src/vobsub/img.rs VobSubToImage, VobSubOcrImage, src/pgs/pgs_image.rs RleToImage"), ("writing", "src/srt.rs, src/webvtt.rs, src/image/utils.rs dump_images")],
  ["vobsub::Index::open", "vobsub::Sub::open", "SupParser::from_file", "srt::write_srt", "webvtt::write_line", "image::dump_images"])
p("C32", "Errors tell what is wrong, with the values found",
  "Every error reported while decoding, and every error wrapped in the library's general error type, has a non-empty message at each level of a finite chain of causes, and wrapping keeps the original message reachable. Errors about values found in the data name these values in their messages or public fields: the control offset beyond the packet and the packet's size, the field offsets, the width of the line that is too long, the unknown segment type, the unknown object flag, the size of a palette segment that is not a multiple of its entries, the sizes of an object that is incomplete or whose data exceed it, and the type of the segment that cannot be skipped.",
  ["inputs", "fault_sequences"], "every malformed value of the kinds named, and every error of mutated streams of both formats",
  "No test looks at an error's message, fields or cause.",
  ["src/errors.rs", "src/vobsub/mod.rs", "src/vobsub/sub.rs", "src/vobsub/img.rs", "src/pgs/mod.rs", "src/pgs/segment.rs", "src/pgs/ods.rs", "src/pgs/pds.rs"],
  [("error types and messages", "src/errors.rs, src/vobsub/mod.rs, src/pgs/mod.rs"), ("values filled in where the check fails", "src/vobsub/sub.rs, src/vobsub/img.rs, src/pgs/segment.rs, src/pgs/ods.rs, src/pgs/pds.rs")],
  ["SubtileError", "VobSubError", "PgsError"])
p("C33", "Iterators follow the protocol whatever methods drive them",
  "Subtitles of both formats, times, and pixels come out the same whichever iterator methods fetch them: for any sequence of next, nth, skip, step_by, take, find, any and try_fold, ended by count, last, fold, for_each, collect, extend, partition, skip, step_by or peekable, the items are those that fetching all of them one by one gives at the same places. At every point the announced size hint is never above and its upper bound never below the number of items still to come.",
  ["histories", "inputs"], "every sequence of iterator operations over every stream, valid or mutated, and every image",
  "Tests only use next and collect on fixed streams.",
  ["src/vobsub/sub.rs", "src/pgs/sup.rs", "src/pgs/pgs_image.rs"],
  [("iterator of subtitles", "src/vobsub/sub.rs VobsubParser, src/pgs/sup.rs SupParser"), ("iterator of pixels", "src/pgs/pgs_image.rs RlePixelIterator")],
  ["vobsub::Sub::subtitles", "SupParser", "RlePixelIterator"])
p("C34", "Values are equal exactly when all their parts are",
  "Two areas, time points, time spans or VobSub images, made or decoded, are equal exactly when all their parts are (corners; milliseconds; start and end; area, palette, transparency and every pixel), equality does not depend on the side, a copy equals its original and has its parts, equal time points hash alike, and time points are ordered as their milliseconds. Every VobSub subtitle, time and error decoded can be printed for debugging, and every error displayed, without panic.",
  ["inputs"], "every pair of values, and every item of any stream",
  "The tests compare two pairs of time spans.",
  ["src/content/area.rs", "src/time/time_point.rs", "src/time/time_span.rs", "src/vobsub/img.rs", "src/vobsub/mod.rs", "src/pgs/mod.rs", "src/pgs/segment.rs"],
  [("equality of images", "src/vobsub/img.rs VobSubIndexedImage"), ("equality of areas and times", "src/content/area.rs, src/time/time_span.rs, src/time/time_point.rs"), ("printing of errors", "src/vobsub/mod.rs, src/pgs/mod.rs, src/pgs/segment.rs")],
  ["VobSubIndexedImage", "Area", "AreaValues", "TimeSpan", "TimePoint"])

p("C35", "Reading steps move exactly as far as they say",
  "For any seekable reader, buffered or not, at any position: the skipping helper moves the position forward by exactly the number of bytes asked for, also past the end, and the reading helper fills the whole given space with the next bytes; what cannot be done is an error carrying its cause, and the size where a read falls short, never a panic. Decoding one subtitle by itself, with either decoder or through a parser lent the reader, leaves the reader right after the end segment that completes the subtitle, so that times, images and skipped subtitles can be mixed freely on one reader. At the end of the stream each further step finds nothing and moves nothing.",
  ["histories", "inputs", "fault_sequences"], "every sequence of skips, reads and decoding steps, over readers of every kind, failing at any operation",
  "The tests never call the helpers, and decode whole streams only.",
  ["src/pgs/mod.rs", "src/pgs/decoder.rs", "src/pgs/sup.rs", "src/pgs/segment.rs"],
  [("skipping and reading", "src/pgs/mod.rs ReadExt"), ("one subtitle per step", "src/pgs/decoder.rs PgsDecoder::parse_next")],
  ["pgs::ReadExt", "pgs::PgsDecoder::parse_next", "SupParser"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
