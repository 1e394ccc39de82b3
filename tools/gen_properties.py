#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Saving to a stream is complete or reported as failed",
  "When saving an image to a caller-supplied writer reports success, the writer has accepted exactly the bytes that saving the same image in the same format to memory produces, each once and in order, however the writer splits, shortens or interrupts its writes. When any write or flush call made by the save fails with a hard error, or the writer stops accepting bytes, the save returns an error, and for a failed call that error is an I/O error of the same kind. No writer behaviour makes saving panic or hang.",
  ["inputs", "fault_sequences"],
  "all images (sizes, colours, alpha), all encoding formats and their options, and all sequences of short writes, EINTR, zero-length writes and hard errors at any write call, including the last one",
  "Tests never save through a writer that misbehaves; one save has hundreds of write calls and a fault at each of them (above all in trailers written by destructors) is a different execution.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10/src/image.rs"],
  [("encode dispatch", "d10-codecs/src/lib.rs: encode"), ("libwebp writer callback keeps the first I/O error", "d10-codecs/src/webp.rs: writer_function"), ("per-format error mapping", "d10-codecs/src/*.rs: encode_error and match arms")],
  ["Image::save_to_writer", "Image::save_to_buffer", "d10_codecs::encode"])

p("C02", "A file save that reports success left the complete encoding on disk",
  "When saving to a path reports success, the file at that path holds exactly the encoding of the image in the requested format (or the one the extension names, in any letter case), with nothing of an earlier, longer file left behind. When an open, write or other disk operation the save depends on fails (full disk, I/O error, permissions, no descriptors), the save returns an I/O error instead of success. A path without a supported extension is rejected before any file is created or changed, and no save ever changes any other file.",
  ["inputs", "fault_sequences", "histories"],
  "all images, formats and target states (absent, shorter, longer, read-only) and all sequences of disk faults at any system call of the save, short writes and a disk that fills up at any byte",
  "Tests write no file to a failing disk; whether the last buffered block reaches the disk before success is reported only shows when exactly that write fails.",
  ["d10-codecs/src/lib.rs", "d10/src/image.rs"],
  [("format chosen before the file is created", "d10-codecs/src/lib.rs: encode_to_file"), ("buffered writer over File::create", "d10-codecs/src/lib.rs: encode_to_file")],
  ["Image::save", "Image::save_with_format", "the file contents afterwards"])

p("C03", "Reading does not depend on how the bytes arrive",
  "Opening a file, or detecting a stream's format, gives the same result for every way the reads are split, shortened or interrupted by signals, and the same image as decoding the same bytes from memory. The content of the file decides the format; the file name's extension is used only when the content is not recognised, and content recognised as neither is reported as an unknown format. After detection the stream is positioned at its start again.",
  ["inputs", "fault_sequences", "schedules"],
  "all supported files (and foreign content), names with right, wrong or missing extensions, and all sequences of short reads (down to one byte) and EINTR",
  "Tests read whole in-memory slices; short and interrupted reads only happen with pipes, network file systems and signals, and detection that needs twelve bytes works whenever the first read happens to return them all.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/webp.rs", "d10/src/image.rs"],
  [("signature sniffing", "d10-codecs/src/lib.rs: Format::from_reader"), ("extension fallback", "d10-codecs/src/lib.rs: decode_file"), ("read loop of the WebP decoder", "d10-codecs/src/webp.rs: decode_webp")],
  ["Image::open", "d10_codecs::Format::from_reader", "d10_codecs::decode_file", "Image::read_from_buffer"])

p("C04", "A failed read is reported and never becomes a picture",
  "When an open, read or seek call fails with a hard error while an image is being opened, the result is an I/O error of that kind and never an image, and never a misleading 'unknown format' or decoding message. This holds for every format, every position of the failure and for transient as well as persistent failures. A later attempt on the healthy disk succeeds and yields the full image.",
  ["inputs", "fault_sequences"],
  "all files of all formats, a hard error (EIO, EACCES, ENOENT, EMFILE, ENOMEM, ESTALE, EISDIR) at any open, read or seek call, once or from then on",
  "Tests open no file on a failing disk; the error paths of detection and of six decoders are never executed.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/png.rs", "d10-codecs/src/webp.rs"],
  [("per-format decode error mapping", "d10-codecs/src/*.rs: decode_error"), ("detection errors", "d10-codecs/src/lib.rs: decode_file, Format::from_reader")],
  ["Image::open", "d10_codecs::Format::from_reader"])

p("C05", "A torn save never opens as a different picture",
  "If the process dies at any point while saving over a path, then opening that path afterwards gives either an error or exactly the picture that a completed save would have given (or, if the file was not touched yet, the picture that was there before), never a partial, shifted or otherwise different picture. This holds for every format and for every truncation of a completed file. No such file makes opening panic.",
  ["inputs", "crash_points"],
  "all images and formats, all crash points at or inside any system call of a save over an absent, shorter or longer file, and all truncation lengths",
  "Tests never interrupt a save; there are as many torn states as bytes in the file, for each format and picture.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs"],
  [("target truncated before writing", "d10-codecs/src/lib.rs: encode_to_file"), ("decoders require the whole picture", "d10-codecs/src/*.rs: decode_*")],
  ["Image::save followed by Image::open after a crash"])

p("C06", "Corrupted stored bytes never crash or hang the reader",
  "Whatever bits of a stored image are flipped, zeroed, overwritten, duplicated or cut off, opening it returns within a bounded number of steps with either an error or a well-formed image, and never panics or aborts. A well-formed image has as many pixels as its width times its height, within the supported maximum size, and finite colour values. Images whose declared size exceeds the supported maximum are refused with an error.",
  ["inputs", "fault_sequences"],
  "all files of all formats this library writes, under all sequences of stored-byte faults (bit flips, zeroed, garbage, duplicated, swapped and lost sectors, truncation, appended garbage), including those that hit size fields",
  "Tests decode only intact files; the corrupted neighbours of even one small file are beyond counting.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs", "d10-core/src/pixelbuffer.rs"],
  [("size validation before building the buffer", "d10-codecs/src/*.rs: is_valid_buffer_size"), ("buffer length assertion", "d10-core/src/pixelbuffer.rs: PixelBuffer::new_from_raw")],
  ["Image::open", "Image::read_from_buffer"])

p("C07", "A command queue runs in order, stops at the first failure and reports it",
  "A queue or command line behaves as its commands executed one after the other on a current image that each open replaces: files saved by commands before the first failing one hold the complete picture of that moment, and no command after the failing one has any effect. Success is reported (exit status 0, no error text) exactly when every command succeeded; otherwise the failure is reported on the error stream with a non-zero status, and a command needing an image before any was opened is such a failure. Invalid command lines are refused before any file is touched.",
  ["programs", "fault_sequences", "inputs"],
  "all command sequences over several files, all disk faults at any system call of the process, output streams that fail, and malformed argument lists",
  "Tests check only the length of a queue and never run one; the combination of program, failing step and disk state is unbounded.",
  ["d10-commands/src/commands.rs", "d10-commands/src/queue.rs", "d10-commands/src/errors.rs", "d10-cli/src/main.rs"],
  [("sequential execution with early return", "d10-commands/src/commands.rs: execute"), ("argument parsing before running", "d10-cli/src/main.rs: Args::parse"), ("exit status", "d10-cli/src/main.rs: main")],
  ["d10 exit status, stderr and files", "Queue::run"],
  [("current image", "the image the next command works on", "d10-commands/src/commands.rs: Context")])

p("C08", "Per-pixel callbacks run in order, once each, and stop at the first failure",
  "Every per-pixel callback operation (modify or map colours, plain or with coordinates, and composing images) calls its callback exactly once per pixel in row-major order with that pixel's own coordinates and colours. When a callback fails or panics, the operation stops at once and passes on that very failure; an in-place operation has then replaced exactly the pixels before the failing one, and an operation that builds a new image has changed none of its sources. Results keep the image's dimensions (for composition the maxima of the sources, missing pixels taking the default colour).",
  ["inputs", "fault_sequences"],
  "all image shapes, all positions at which the callback fails or panics, all numbers and sizes of composed images",
  "Tests use callbacks that never fail; cancellation at an arbitrary pixel is what leaves half-finished state behind.",
  ["d10-core/src/pixelbuffer.rs", "d10-ops/src/compose.rs", "d10/src/image.rs"],
  [("fallible in-place iteration", "d10-core/src/pixelbuffer.rs: try_mod_colors, try_mod_colors_enumerated"), ("fallible collection", "d10-core/src/pixelbuffer.rs: try_map_colors, try_map_colors_enumerated, try_new_from_func"), ("composition", "d10-ops/src/compose.rs")],
  ["Image::try_mod_colors*", "Image::try_map_colors*", "Image::mod_colors*", "Image::map_colors*", "Image::try_compose*", "Image::compose*"])

p("C09", "Concurrent and earlier calls never influence a result",
  "Every deterministic operation (opening, decoding, saving, encoding and image processing) returns the same result as when run alone in a fresh process, whichever other operations other threads run at the same time, in whatever interleaving, and whatever operations ran or failed before. Operations that produce a new image leave their sources unchanged. No interleaving deadlocks, panics or crashes.",
  ["schedules", "histories", "programs"],
  "all programs of a few threads over shared source images and files, all interleavings at basic-block granularity of the library code, and all histories of earlier successful, failing and panicking calls",
  "Tests run each function once on one thread; hidden state shared between calls only shows under particular interleavings or after particular earlier calls.",
  ["d10/src/image.rs", "d10-ops/src/lib.rs", "d10-core/src/pixelbuffer.rs", "d10-codecs/src/lib.rs", "d10-codecs/src/webp.rs"],
  [("no shared mutable state; images are plain values", "d10/src/image.rs"), ("per-call native encoder and decoder state", "d10-codecs/src/webp.rs")],
  ["results of Image methods called from several threads"])

p("C10", "Noise stays within its contract for every source of randomness",
  "For every stream of system entropy and every image, each noise operation keeps dimensions and alpha (salt-and-pepper: of the pixels it leaves alone), touches only what its strength parameter allows, gives each pixel and channel its own draw, follows the documented proportions and colours, and does the same whether done in place or as a copy; with strength zero it changes nothing. Repeated calls, and calls from threads with different entropy, give different noise. Short or interrupted entropy reads and a missing entropy system call have no visible effect.",
  ["inputs", "fault_sequences", "histories"],
  "all images and strengths, all entropy streams, and all faults of the entropy source (short reads, EINTR, ENOSYS with the device fallback)",
  "The noise functions have no test at all, their output cannot be compared with a fixed expectation, and tests cannot choose the entropy.",
  ["d10-ops/src/random_noise.rs", "d10-ops/src/gaussian_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/salt_n_pepper_noise.rs", "d10/src/image.rs"],
  [("per-thread generator seeded from the system", "d10-ops/src/*_noise.rs: thread_rng")],
  ["Image::random_noise, add_random_noise, gaussian_noise, add_gaussian_noise, rgb_noise, add_rgb_noise, salt_n_pepper_noise, add_salt_n_pepper_noise"])

p("C11", "No operation leaks descriptors or memory, also when it fails",
  "After any open, decode, save or encode has returned, successfully or with an error, every file descriptor it opened is closed, and all memory it allocated, in Rust or in native code, is freed except what belongs to the returned value. This holds for every fault that can make it fail and for every format. A long sequence of failing operations therefore leaves the process as able to work as before.",
  ["fault_sequences", "histories", "inputs"],
  "all operations of all formats with valid, corrupted and truncated data, faults at any read, write, open or seek call and failing native allocations",
  "Tests do not measure resources, and the failing paths that must release them are not executed.",
  ["d10-codecs/src/webp.rs", "d10-codecs/src/lib.rs"],
  [("native buffers freed by hand", "d10-codecs/src/webp.rs: WebPFree, WebPPictureFree"), ("files closed on drop", "d10-codecs/src/lib.rs: decode_file, encode_to_file")],
  ["open descriptors and live allocations before and after each call"])

p("C12", "Python callbacks and threads never corrupt an image or lose an exception",
  "When a Python callback passed to an image method raises, the same exception reaches the caller, an in-place operation has replaced exactly the pixels before the failing one and an operation building a new image has changed none of its sources; a callback returning a wrong type is a Python exception as well. Any interleaving of Python threads, and any re-entrant use of an image from inside a callback, ends in either the result of the operations run one after the other or a Python exception, never in a crash or a picture mixing unrelated states. After any exception the image remains usable.",
  ["schedules", "fault_sequences", "programs"],
  "all callback-taking methods, all pixels at which the callback raises or yields to another thread, all operations the other threads or the callback itself perform on the same images",
  "The Python tests call methods from one thread with callbacks that succeed; interleavings happen inside callbacks, at the points where another thread gets the interpreter.",
  ["d10-python/src/image.rs", "d10-python/src/lib.rs"],
  [("borrow checking of the wrapped image", "d10-python/src/image.rs: #[pymethods]"), ("exceptions carried through fallible iteration", "d10-python/src/image.rs: mod_colors, map_colors, compose")],
  ["d10.Image in CPython"])

p("C13", "Failing native memory allocation is an error, never a crash or wrong data",
  "When any memory allocation inside the native WebP library fails while a WebP image is read or written, the operation returns an error; it never crashes and never reports success with a different picture or an incomplete file. The next operation, with memory available again, succeeds with the full result.",
  ["fault_sequences", "inputs"],
  "all images and WebP presets and qualities, a failure of any one or several of the native allocations of an encode or decode",
  "Tests cannot make the native allocator fail at a chosen allocation.",
  ["d10-codecs/src/webp.rs"],
  [("null and status checks of the native calls", "d10-codecs/src/webp.rs: encode_webp, decode_webp")],
  ["Image::save_to_writer, Image::read_from_buffer with WebP data"])

p("C14", "The progress log tells exactly which commands were started",
  "While a queue runs, the standard output shows one line per started command, in order, before that command takes effect, numbered with its position and the total number of commands; after a failure or a crash nothing beyond the failing command has been announced. From the silent command on, nothing more is printed, and the silent command itself is neither printed nor counted. A standard output that fails or accepts only part of a write never leads to a success report for work that was not done.",
  ["programs", "fault_sequences", "crash_points"],
  "all command sequences with the silent command anywhere, all disk faults, crash points and standard-output faults",
  "No test runs a queue or looks at its output; which command was announced when the process died depends on the crash point.",
  ["d10-commands/src/log.rs", "d10-commands/src/commands.rs", "d10-commands/src/queue.rs"],
  [("log step before execution", "d10-commands/src/commands.rs: execute"), ("numbering", "d10-commands/src/log.rs: Log::log_command_step")],
  ["d10 standard output"])

p("C15", "Saved files survive crashes of later work",
  "In every history of saves, opens and edits over several files with process crashes and restarts in between, opening a file gives the picture of the last save to it that reported success, unless a later save to that same file was started and did not report success; in that case it gives an error, the picture before or the picture being saved. A crash or failure while working on one file never changes another. After a restart, saving again makes a damaged file good.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of operations on a few files in all formats, with crashes at any system call, disk faults, and restarts in which only the disk contents survive",
  "Tests have no crashes, restarts or multi-file histories.",
  ["d10-codecs/src/lib.rs", "d10/src/image.rs"],
  [("one file per save, created or truncated in place", "d10-codecs/src/lib.rs: encode_to_file")],
  ["Image::save and Image::open across simulated restarts"])

p("C16", "Saved pictures come back, generation after generation, as far as the format can",
  "A picture saved in a lossless format (PNG, BMP, icon, lossless WebP) and opened again, in the same or a later process, has the same dimensions and, in every channel the chosen colour type stores, the value rounded to the stored precision; opaque colour types give alpha one, grey types the grey of the picture, and lossless WebP may lose colour only where alpha is zero. A GIF keeps a picture of at most 256 colours exactly, except that every alpha above zero becomes one and a pixel of alpha zero stays fully transparent; JPEG keeps size, opaqueness, greyness and the colours within what its quality allows; lossy WebP keeps size, alpha and, within what its quality allows, the colours. Every file that a save reports as successful can be opened again at its size, in every format and however large the picture. Saving and opening again any number of times, also through other lossless formats of the same precision, changes nothing further.",
  ["histories", "inputs"],
  "all images with arbitrary colour values and alpha, all lossless formats and colour types, all histories of repeated saves, opens, restarts and benign I/O behaviour (short and interrupted transfers)",
  "Tests round-trip no file; drift over generations needs a history, and the set of colour values and colour types is too large to sample by hand.",
  ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-core/src/color/srgb.rs"],
  [("quantisation and byte order", "d10-codecs/src/utils.rs: to_*_vec, from_u8, from_u16_be"), ("colour type mapping", "d10-codecs/src/png.rs: encode_png, decode_png")],
  ["Image::save, Image::open over simulated sessions"])

p("C17", "Bit rot in a PNG is detected",
  "If bits of a stored PNG (or of the PNG inside an icon file) written by this library are damaged within one contiguous run of at most 32 bits, opening the file gives either an error or exactly the original picture. It never gives a different picture.",
  ["fault_sequences", "inputs"],
  "all images and PNG colour types, compressions and filters, every position and pattern of one burst error of up to 32 bits",
  "Tests decode only intact files; that checksums are verified on every path only shows on damaged ones.",
  ["d10-codecs/src/png.rs", "d10-codecs/src/ico.rs"],
  [("chunk checksums verified by the decoder's default settings", "d10-codecs/src/png.rs: decode_png")],
  ["Image::open on damaged files"])

p("C18", "Python file access reports every failure as an exception",
  "Opening or saving an image from Python raises an operating-system error (OSError) whenever a disk operation it depends on fails, the file is corrupt or unknown, or the path's extension is unsupported, and never crashes the interpreter. When save returns without an exception the file is complete: it holds the encoding in the format object given, or in the extension's default format. When open returns, the image is exactly the stored one.",
  ["fault_sequences", "inputs", "histories"],
  "all formats and format objects, all disk faults at any system call, short and interrupted transfers, corrupted files",
  "The Python tests save and open nothing on a failing disk.",
  ["d10-python/src/image.rs", "d10-python/src/lib.rs"],
  [("error conversion", "d10-python/src/lib.rs: IntoPyErr"), ("format selection", "d10-python/src/image.rs: Image::save, EncodingFormat")],
  ["d10.Image.open, d10.Image.save, d10.EncodingFormat in CPython"])

# Pure functions of their input: stated for completeness, not claimed (see MANIFEST not_applicable).
p("C19", "Files made by other programs show the picture they store",
  "A valid picture file of a supported format shows, when opened, the picture its format's specification defines: PNG of every colour type, bit depth, palette, transparency chunk, interlacing, row filter and split of the data; the first frame of a GIF with global or local palettes, transparency and interlacing; BMP of 1 to 32 bits with palettes, masks, run lengths, either row order; the best entry of an icon with masks or PNG; JPEG in grey, colour, CMYK or YCCK, baseline or progressive, with restarts (within the codec's precision); WebP with metadata. It does so whatever the extension of the file, whether opened by name, from memory or through the codecs, and however reads are split or interrupted.",
  ["inputs", "fault_sequences"],
  "all valid files of the listed kinds, every read split and interruption, every file name and way of opening",
  "Tests open a handful of files written by one program; the combinations of colour type, depth, transparency, interlacing and read boundaries are not sampled.",
  ["d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs"],
  [("colour type mapping", "d10-codecs/src/png.rs: decode_png"), ("channel order and scaling", "d10-codecs/src/utils.rs: from_*"), ("CMYK", "d10-codecs/src/jpeg.rs: decode_jpeg")],
  ["Image::open, Image::read_from_buffer, d10_codecs::decode_file"])

p("C30", "Colour space conversions are mutually inverse",
  "Converting any in-gamut colour to another supported colour space and back gives the original colour within a small tolerance, keeps alpha, and never gives a non-finite value.",
  ["inputs"], "all in-gamut colours and all pairs of colour spaces, illuminants and observers",
  "Tests check a handful of colours.", ["d10-core/src/color/mod.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/lab.rs"],
  [("conversion formulas", "d10-core/src/color/*.rs")], ["Color::to_*"])
p("C31", "Flips, rotations and crops move pixels without changing them",
  "Flipping twice, rotating four times by 90 degrees, and rotating by 90 and 270 degrees give back the image; every result pixel is one source pixel and dimensions follow the operation.",
  ["inputs"], "all image sizes and contents", "Tests use one or two small images.",
  ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs", "d10-ops/src/crop.rs"], [("index arithmetic", "d10-ops/src/*.rs")], ["Image::flip_*, rotate90/180/270, crop"])
p("C32", "Filters, resizing and tone operations are well defined for every image",
  "Resize, blur, kernels, blends, equalisation, saturation, contrast, temperature, despeckle, edge detection and drawing give an image of the specified dimensions with finite values for every image and parameter in range, and leave a constant image constant where their definition says so.",
  ["inputs"], "all images and parameters", "Tests use fixed images and parameters.",
  ["d10-ops/src/resize.rs", "d10-ops/src/filters.rs", "d10-ops/src/blend.rs", "d10-ops/src/equalize.rs", "d10-core/src/pixelbuffer.rs"], [("per-pixel formulas", "d10-ops/src/*.rs")], ["Image processing methods"])
p("C33", "Option names parse to the option they name",
  "Every documented option name parses to its option, and every other string is rejected with an error naming it.",
  ["inputs"], "all strings", "Tests try a few names.",
  ["d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-ops/src/filters.rs", "d10-core/src/errors.rs"], [("FromStr implementations", "d10-*/src")], ["FromStr"])
p("C34", "Numpy conversion round-trips",
  "Converting an image to a numpy array in any colour space and data type and back gives the image within the precision of the data type.",
  ["inputs"], "all images, colour spaces and data types", "Tests convert a few images.",
  ["d10-python/src/image.rs"], [("array conversion", "d10-python/src/image.rs: to_np_array, from_np_array")], ["d10.Image.to_np_array, from_np_array"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
