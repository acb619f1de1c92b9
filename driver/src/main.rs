//! Runs scripted cases against the real claxon crate, through its public API
//! only, and records what happened as one JSON object per case.
//!
//! Input (stdin), line based:
//!   C <id>                 begin a case
//!   B <seg> <seg> ...      source bytes; seg = hex digits, or `*<n>x<hex byte>`
//!                          (or `~...`, the same, for a stretch to be skipped over)
//!   F <at>:<kind> ...      faults, fired once when the source is at byte <at>
//!   K <n>,<n>,...          read sizes, used cyclically (0 = as much as asked for)
//!   S <kind>               flac | cur | buf | mcur | mbuf
//!   O <op> <args>          operations
//!   P <hex byte>           what fresh memory is filled with (default a5)
//!   Q                      leave the contents of audio and metadata out
//!   E                      run the case
//!
//! A source that is out of data or at a fault behaves like any `io::Read`.
//! The recorder never interprets FLAC data: it reports values, errors and
//! panics; the TLA+ specification decides what they should have been.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::{Block, Error, FlacReader, FlacReaderOptions};

// ---------------------------------------------------------------- allocator

struct Poison;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn grow(n: usize) {
    let live = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(live, Ordering::Relaxed);
}

static POISON: AtomicUsize = AtomicUsize::new(0xa5);

fn poison() -> u8 {
    POISON.load(Ordering::Relaxed) as u8
}

// Poisoning is bounded so that a large (never touched) reservation stays cheap.
const POISON_MAX: usize = 1 << 22;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, poison(), l.size().min(POISON_MAX));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Growing in place is a matter of luck; account for it as a move.
        grow(n);
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        let q = System.realloc(p, l, n);
        if !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), poison(), (n - l.size()).min(POISON_MAX));
        }
        q
    }
}

#[global_allocator]
static ALLOC: Poison = Poison;

fn mark() -> usize {
    let live = LIVE.load(Ordering::Relaxed);
    PEAK.store(live, Ordering::Relaxed);
    live
}

fn peak_since(base: usize) -> usize {
    (PEAK.load(Ordering::Relaxed) - base).min(0x7fff_ffff)
}

// ------------------------------------------------------------------- source

struct Tape {
    segs: Vec<Seg>,
    len: u64,
    faults: Vec<(u64, String)>,
    chunks: Vec<usize>,
    pos: u64,
    fired: usize,
    turn: usize,
}

enum Seg {
    Lit(Vec<u8>),
    Run(u64, u8),
}

impl Tape {
    fn fill(&self, out: &mut [u8]) {
        let mut at = self.pos;
        let mut base = 0u64;
        let mut done = 0;
        for seg in &self.segs {
            let n = match *seg {
                Seg::Lit(ref v) => v.len() as u64,
                Seg::Run(n, _) => n,
            };
            while done < out.len() && at >= base && at < base + n {
                let k = ((base + n - at) as usize).min(out.len() - done);
                match *seg {
                    Seg::Lit(ref v) => {
                        let o = (at - base) as usize;
                        out[done..done + k].copy_from_slice(&v[o..o + k]);
                    }
                    Seg::Run(_, b) => {
                        for x in &mut out[done..done + k] {
                            *x = b
                        }
                    }
                }
                done += k;
                at += k as u64;
            }
            base += n;
        }
    }

    fn all(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for seg in &self.segs {
            match *seg {
                Seg::Lit(ref x) => v.extend_from_slice(x),
                Seg::Run(n, b) => v.extend(std::iter::repeat(b).take(n as usize)),
            }
        }
        v
    }
}

#[derive(Clone)]
struct Source(Rc<RefCell<Tape>>);

impl Source {
    fn pulled(&self) -> u64 {
        self.0.borrow().pos
    }
}

impl Read for Source {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let mut t = self.0.borrow_mut();
        if out.is_empty() {
            return Ok(0);
        }
        let mut lim = t.len;
        if t.fired < t.faults.len() {
            lim = lim.min(t.faults[t.fired].0);
            if t.pos >= lim && t.faults[t.fired].0 <= t.pos {
                let kind = t.faults[t.fired].1.clone();
                t.fired += 1;
                if kind == "eof" {
                    return Ok(0);
                }
                return Err(make_error(&kind));
            }
        }
        let mut n = out.len().min((lim - t.pos) as usize);
        if !t.chunks.is_empty() {
            let c = t.chunks[t.turn % t.chunks.len()];
            t.turn += 1;
            if c > 0 {
                n = n.min(c)
            }
        }
        t.fill(&mut out[..n]);
        t.pos += n as u64;
        Ok(n)
    }
}

const KINDS: &[(&str, io::ErrorKind)] = &[
    ("wouldblock", io::ErrorKind::WouldBlock),
    ("timedout", io::ErrorKind::TimedOut),
    ("other", io::ErrorKind::Other),
    ("connreset", io::ErrorKind::ConnectionReset),
    ("perm", io::ErrorKind::PermissionDenied),
    ("notfound", io::ErrorKind::NotFound),
    ("invaliddata", io::ErrorKind::InvalidData),
    ("ueof", io::ErrorKind::UnexpectedEof),
    ("brokenpipe", io::ErrorKind::BrokenPipe),
];

/// A fault kind reads `<kind>#<serial>`; the error carries it as its message.
fn make_error(kind: &str) -> io::Error {
    let base = kind.split('#').next().unwrap();
    for &(n, k) in KINDS {
        if n == base {
            return io::Error::new(k, kind.to_string());
        }
    }
    panic!("driver: unknown fault kind {}", kind)
}

// ------------------------------------------------------------------- output

type Out = String;

fn ints<T: std::fmt::Display>(o: &mut Out, xs: &[T]) {
    o.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    o.push(']');
}

fn digits(o: &mut Out, v: u64) {
    ints(o, &v.to_be_bytes());
}

fn quote(o: &mut Out, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "?");
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn io_kind(e: &io::Error) -> String {
    let text = e.to_string();
    for &(n, k) in KINDS {
        if e.kind() == k {
            // An injected error is recognised by its message: it has to come
            // out as it went in.
            if text.starts_with(n) && text[n.len()..].starts_with('#') {
                return text;
            }
            return if k == io::ErrorKind::UnexpectedEof { "eof".to_string() } else { n.to_string() };
        }
    }
    format!("{:?}", e.kind())
}

fn io_err(o: &mut Out, e: &io::Error) {
    o.push_str("{\"k\":\"err\",\"cls\":\"io\",\"kind\":");
    quote(o, &io_kind(e));
    o.push('}');
}

fn err(o: &mut Out, e: &Error) {
    match *e {
        Error::IoError(ref e) => io_err(o, e),
        Error::FormatError(_) => o.push_str("{\"k\":\"err\",\"cls\":\"fmt\",\"kind\":\"\"}"),
        Error::Unsupported(_) => o.push_str("{\"k\":\"err\",\"cls\":\"unsup\",\"kind\":\"\"}"),
    }
}

fn opt(o: &mut Out, x: Option<u32>) {
    match x {
        None => o.push_str("[]"),
        Some(v) => {
            let _ = write!(o, "[{}]", v);
        }
    }
}

fn streaminfo(o: &mut Out, s: &metadata::StreamInfo) {
    let _ = write!(o, "{{\"minbs\":{},\"maxbs\":{},\"minfs\":", s.min_block_size, s.max_block_size);
    opt(o, s.min_frame_size);
    o.push_str(",\"maxfs\":");
    opt(o, s.max_frame_size);
    let _ = write!(o, ",\"rate\":{},\"channels\":{},\"bps\":{},\"samples\":",
                   s.sample_rate, s.channels, s.bits_per_sample);
    match s.samples {
        None => o.push_str("[]"),
        Some(v) => digits(o, v),
    }
    o.push_str(",\"md5\":");
    ints(o, &s.md5sum);
    o.push('}');
}

fn pairs<'a, I: Iterator<Item = (&'a str, &'a str)>>(o: &mut Out, it: I) {
    o.push('[');
    for (i, (n, v)) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str("{\"name\":");
        ints(o, n.as_bytes());
        o.push_str(",\"value\":");
        ints(o, v.as_bytes());
        o.push('}');
    }
    o.push(']');
}

fn gets<'a, F, I>(o: &mut Out, needles: &'a [String], f: F)
    where F: Fn(&'a str) -> I, I: Iterator<Item = &'a str>
{
    o.push('[');
    for (i, n) in needles.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str("{\"needle\":");
        ints(o, n.as_bytes());
        o.push_str(",\"values\":[");
        for (j, v) in f(n).enumerate() {
            if j > 0 {
                o.push(',');
            }
            ints(o, v.as_bytes());
        }
        o.push_str("]}");
    }
    o.push(']');
}

fn meta(o: &mut Out, b: &MetadataBlock, needles: &[String]) {
    match *b {
        MetadataBlock::StreamInfo(ref s) => {
            o.push_str("{\"k\":\"si\",\"si\":");
            streaminfo(o, s);
            o.push('}');
        }
        MetadataBlock::Padding { length } => {
            let _ = write!(o, "{{\"k\":\"pad\",\"len\":{}}}", length);
        }
        MetadataBlock::Application { id, ref data } => {
            o.push_str("{\"k\":\"app\",\"id\":");
            ints(o, &id.to_be_bytes());
            o.push_str(",\"data\":");
            ints(o, data);
            o.push('}');
        }
        MetadataBlock::VorbisComment(ref vc) => {
            o.push_str("{\"k\":\"vc\",\"vc\":{\"vendor\":");
            ints(o, vc.vendor.as_bytes());
            o.push_str(",\"comments\":");
            pairs(o, metadata::Tags::new(&vc.comments));
            o.push_str("},\"gets\":");
            gets(o, needles, |n| metadata::GetTag::new(&vc.comments, n));
            o.push('}');
        }
        MetadataBlock::SeekTable(..) => o.push_str("{\"k\":\"seektable\"}"),
        MetadataBlock::CueSheet => o.push_str("{\"k\":\"cuesheet\"}"),
        MetadataBlock::Picture => o.push_str("{\"k\":\"picture\"}"),
        MetadataBlock::Reserved => o.push_str("{\"k\":\"reserved\"}"),
    }
}

fn panics<F: FnOnce() -> i32>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// All views of a block, for the properties that compare them.
fn views(o: &mut Out, b: &Block) {
    let (n, d) = (b.channels(), b.duration());
    o.push_str(",\"sam\":[");
    for c in 0..n {
        if c > 0 {
            o.push(',');
        }
        let v: Vec<i32> = (0..d).map(|i| b.sample(c, i)).collect();
        ints(o, &v);
    }
    o.push_str("],\"st\":");
    let mut st = Vec::new();
    let refused = panics(|| {
        let mut it = b.stereo_samples();
        while let Some((l, r)) = it.next() {
            st.push(l);
            st.push(r);
            if st.len() > 1 << 20 {
                break;
            }
        }
        // Past the end it keeps ending.
        for _ in 0..3 {
            if let Some((l, r)) = it.next() {
                st.push(l);
                st.push(r);
            }
        }
        0
    });
    ints(o, &st);
    let _ = write!(o, ",\"stpanic\":{}", refused);
    // Numbers that are too large by one, or that look small when cut short.
    let mut oob = Vec::new();
    for &k in &[0, 1, 7, 127, 128, 247, 248, 255, 256, 257, 511, 512, 32768, 65535, 65536, 65537, 1 << 24, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0] {
        let c = n.saturating_add(k);
        oob.push(panics(|| b.channel(c)[0]));
        oob.push(panics(|| b.sample(c, 0)));
        oob.push(panics(|| b.sample(n.wrapping_sub(1), d.saturating_add(k))));
    }
    for &c in &[255, 256, 257, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff] {
        oob.push(panics(|| b.channel(c)[0]));
        oob.push(panics(|| b.sample(c, 0)));
        if c >= d {
            oob.push(panics(|| b.sample(n.wrapping_sub(1), c)));
        }
    }
    o.push_str(",\"oob\":");
    ints(o, &oob.iter().map(|&x| x as u8).collect::<Vec<_>>());
}

fn block(o: &mut Out, b: &Block, all_views: bool) {
    o.push_str("{\"k\":\"block\",\"time\":");
    digits(o, b.time());
    let _ = write!(o, ",\"bs\":{},\"nch\":{},\"len\":{},\"chans\":[", b.duration(), b.channels(), b.len());
    for c in 0..b.channels() {
        if c > 0 {
            o.push(',');
        }
        ints(o, b.channel(c));
    }
    o.push(']');
    if all_views {
        views(o, b);
    }
}

// --------------------------------------------------------------- operations

struct Case {
    id: String,
    kind: String,
    ops: Vec<Vec<String>>,
    src: Source,
    quiet: bool,
}

struct Rec {
    out: Out,     // JSON array elements
    n: usize,
    spare: Vec<i32>, // the buffer to recycle
    dead: bool,   // a panic ended the case
    quiet: bool,  // contents are not recorded
}

impl Rec {
    /// Runs one operation; a panic inside becomes its recorded outcome.
    fn op<F: FnOnce(&mut Out, &mut Vec<i32>)>(&mut self, src: &Source, f: F) {
        let base = mark();
        let mut o = String::new();
        let mut spare = std::mem::replace(&mut self.spare, Vec::new());
        let before = PEAK.load(Ordering::Relaxed);
        let _ = before;
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut o, &mut spare)));
        let peak = peak_since(base);
        self.spare = spare;
        if r.is_err() {
            o.clear();
            o.push_str("{\"k\":\"panic\"}");
            self.dead = true;
        }
        if self.quiet {
            summarise(&mut o);
        }
        // Append the bookkeeping fields to the (single) result object.
        o.pop();
        let _ = write!(o, ",\"pulled\":{},\"peak\":{}}}",
                       src.pulled().min(0x7fff_ffff), peak);
        if self.n > 0 {
            self.out.push(',');
        }
        self.n += 1;
        self.out.push_str(&o);
    }
}

/// Replaces the contents of a result by their size.
fn summarise(o: &mut Out) {
    let count = |o: &str, key: &str| -> Option<usize> {
        o.find(key).map(|i| {
            let t = &o[i + key.len()..];
            let mut depth = 0;
            let mut n = 0;
            for c in t.chars() {
                match c {
                    '[' => depth += 1,
                    ']' => depth -= 1,
                    ',' => n += 1,
                    _ => {}
                }
                if depth == 0 {
                    break;
                }
            }
            if t.starts_with("[]") { 0 } else { n + 1 }
        })
    };
    let short = if o.starts_with("{\"k\":\"block\"") {
        let head = o.split(",\"chans\"").next().unwrap().to_string();
        format!("{},\"n\":{}}}", head, count(o, "\"chans\":").unwrap())
    } else if o.starts_with("{\"k\":\"samples\"") {
        let n = count(o, "\"got\":").unwrap();
        let at = o.find("\"end\":").unwrap();
        format!("{{\"k\":\"samples\",\"n\":{},{}", n, &o[at..])
    } else if o.starts_with("{\"k\":\"sub\"") {
        "{\"k\":\"sub\"}".to_string()
    } else if o.starts_with("{\"k\":\"meta\"") {
        "{\"k\":\"meta\"}".to_string()
    } else if o.starts_with("{\"k\":\"opened\"") {
        "{\"k\":\"opened\"}".to_string()
    } else {
        return;
    };
    *o = short;
}

fn num(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| panic!("driver: bad number {}", s))
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn needles(arg: Option<&String>) -> Vec<String> {
    match arg {
        None => Vec::new(),
        Some(s) if s == "-" => Vec::new(),
        Some(s) => s.split(',').map(|h| String::from_utf8(unhex(h)).unwrap()).collect(),
    }
}

fn buffer(spec: &str, spare: &mut Vec<i32>) -> Vec<i32> {
    match spec {
        "fresh" => Vec::new(),
        "keep" => std::mem::replace(spare, Vec::new()),
        s if s.starts_with("spoil:") => {
            // spoil:<n>:<fill>: the buffer kept, with all but the first and last
            // of every n samples replaced
            let p: Vec<&str> = s.split(':').collect();
            let n = num(p[1]) as usize;
            let fill = p[2].parse::<i32>().unwrap();
            let mut v = std::mem::replace(spare, Vec::new());
            for i in 0..v.len() {
                if i % n != 0 && i % n != n - 1 {
                    v[i] = fill;
                }
            }
            v
        }
        s => {
            // new:<len>:<cap>:<fill>
            let p: Vec<&str> = s.split(':').collect();
            let mut v = Vec::with_capacity(num(p[2]) as usize);
            v.resize(num(p[1]) as usize, p[3].parse::<i32>().unwrap());
            v
        }
    }
}

fn next_block<R: ReadBytes>(fr: &mut FrameReader<R>, op: &[String], o: &mut Out, spare: &mut Vec<i32>) {
    let buf = buffer(&op[1], spare);
    let all = op.len() > 2 && op[2] == "views";
    let base = mark();
    let result = fr.read_next_or_eof(buf);
    let used = peak_since(base);
    match result {
        Ok(None) => o.push_str("{\"k\":\"none\""),
        Ok(Some(b)) => {
            block(o, &b, all);
            if all {
                let v = b.into_buffer();
                o.push_str(",\"buf\":");
                ints(o, &v);
                *spare = v;
            } else {
                *spare = b.into_buffer();
            }
        }
        Err(e) => {
            err(o, &e);
            o.pop();
        }
    }
    // The memory the library itself used, without the recorder's strings.
    let _ = write!(o, ",\"mem\":{}}}", used);
}

fn empty_block(rec: &mut Rec, src: &Source) {
    rec.op(src, |o, _| {
        let b = Block::empty();
        block(o, &b, true);
        o.push_str(",\"buf\":");
        ints(o, &b.into_buffer());
        o.push('}');
    });
}

fn take<I: Iterator<Item = claxon::Result<i32>>>(it: &mut I, n: u64, o: &mut Out) {
    let mut got = Vec::new();
    let mut end = "{\"k\":\"more\"}".to_string();
    for _ in 0..n {
        match it.next() {
            Some(Ok(s)) => got.push(s),
            None => {
                end = "{\"k\":\"none\"}".to_string();
                break;
            }
            Some(Err(e)) => {
                end = String::new();
                err(&mut end, &e);
                break;
            }
        }
    }
    o.push_str("{\"k\":\"samples\",\"got\":");
    ints(o, &got);
    let _ = write!(o, ",\"end\":{}}}", end);
}

fn opened<R: Read>(o: &mut Out, r: &claxon::Result<FlacReader<R>>, needles: &[String], used: usize) {
    match *r {
        Err(ref e) => {
            err(o, e);
            o.pop();
        }
        Ok(ref r) => {
            o.push_str("{\"k\":\"opened\",\"si\":");
            streaminfo(o, &r.streaminfo());
            let _ = write!(o, ",\"hasvc\":{},\"vendor\":", r.vendor().is_some());
            ints(o, r.vendor().unwrap_or("").as_bytes());
            let _ = write!(o, ",\"ntags\":{},\"tags\":", r.tags().len());
            pairs(o, r.tags());
            o.push_str(",\"gets\":");
            gets(o, needles, |n| r.get_tag(n));
        }
    }
    let _ = write!(o, ",\"mem\":{}}}", used);
}

fn flac_ops<R: Read>(rec: &mut Rec, src: &Source, ops: &[Vec<String>], make: &dyn Fn(FlacReaderOptions) -> claxon::Result<FlacReader<R>>) {
    let mut i = 0;
    let mut reader: Option<FlacReader<R>> = None;
    while i < ops.len() && !rec.dead {
        let op = &ops[i];
        match &op[0][..] {
            "open" => {
                let opts = FlacReaderOptions {
                    metadata_only: op[1] == "1",
                    read_vorbis_comment: op[2] == "1",
                };
                let nd = needles(op.get(3));
                let mut slot = None;
                rec.op(src, |o, _| {
                    let base = mark();
                    let r = make(opts);
                    let used = peak_since(base);
                    opened(o, &r, &nd, used);
                    slot = r.ok();
                });
                if slot.is_none() {
                    return;
                }
                reader = slot;
                i += 1;
            }
            // A frame reader per call ...
            "next" => {
                let r = reader.as_mut().unwrap();
                rec.op(src, |o, spare| next_block(&mut r.blocks(), op, o, spare));
                i += 1;
            }
            // ... or one for a run of calls.
            "nextk" => {
                let r = reader.as_mut().unwrap();
                let mut fr = r.blocks();
                while i < ops.len() && ops[i][0] == "nextk" && !rec.dead {
                    let op = &ops[i];
                    rec.op(src, |o, spare| next_block(&mut fr, op, o, spare));
                    i += 1;
                }
            }
            // `take` continues the current iteration, `iter` starts a new one.
            "iter" | "take" => {
                let r = reader.as_mut().unwrap();
                let mut it = r.samples();
                loop {
                    let op = &ops[i];
                    rec.op(src, |o, _| take(&mut it, num(&op[1]), o));
                    i += 1;
                    if i >= ops.len() || ops[i][0] != "take" || rec.dead {
                        break;
                    }
                }
            }
            "itake" => {
                let r = reader.take().unwrap();
                let mut it = r.into_samples();
                while i < ops.len() && ops[i][0] == "itake" && !rec.dead {
                    let op = &ops[i];
                    rec.op(src, |o, _| take(&mut it, num(&op[1]), o));
                    i += 1;
                }
                return;
            }
            // Documented misuse: reports whether it was refused.
            "misuse" => {
                let r = reader.as_mut().unwrap();
                let how = op[1].clone();
                let refused = match &how[..] {
                    "blocks" => panics(|| { let _ = r.blocks(); 0 }),
                    "samples" => panics(|| { let _ = r.samples(); 0 }),
                    _ => panic!("driver: bad misuse"),
                };
                rec.op(src, |o, _| {
                    let _ = write!(o, "{{\"k\":\"misuse\",\"refused\":{}}}", refused);
                });
                i += 1;
            }
            "empty" => {
                empty_block(rec, src);
                i += 1;
            }
            "inner" => {
                let r = reader.take().unwrap();
                rec.op(src, |o, _| {
                    let _ = r.into_inner();
                    o.push_str("{\"k\":\"ok\"}");
                });
                return;
            }
            x => panic!("driver: unknown op {}", x),
        }
    }
}

fn io_res<F: FnOnce(&mut Out) -> io::Result<()>>(o: &mut Out, f: F) {
    if let Err(e) = f(o) {
        o.clear();
        io_err(o, &e);
    }
}

fn bytes_res(o: &mut Out, v: &[u8]) {
    o.push_str("{\"k\":\"bytes\",\"v\":");
    ints(o, v);
    o.push('}');
}

fn byte_ops<R: ReadBytes>(rec: &mut Rec, src: &Source, ops: &[Vec<String>], r: &mut R) {
    let mut i = 0;
    while i < ops.len() && !rec.dead {
        let op = &ops[i];
        match &op[0][..] {
            "u8" => rec.op(src, |o, _| io_res(o, |o| { let v = r.read_u8()?; bytes_res(o, &[v]); Ok(()) })),
            "u8e" => rec.op(src, |o, _| io_res(o, |o| {
                match r.read_u8_or_eof()? {
                    None => o.push_str("{\"k\":\"none\"}"),
                    Some(v) => bytes_res(o, &[v]),
                }
                Ok(())
            })),
            "into" => rec.op(src, |o, _| io_res(o, |o| {
                let mut v = vec![0x5a; num(&op[1]) as usize];
                r.read_into(&mut v)?;
                bytes_res(o, &v);
                Ok(())
            })),
            "skip" => rec.op(src, |o, _| io_res(o, |o| {
                r.skip(num(&op[1]) as u32)?;
                bytes_res(o, &[]);
                Ok(())
            })),
            "be16" => rec.op(src, |o, _| io_res(o, |o| { let v = r.read_be_u16()?; bytes_res(o, &v.to_be_bytes()); Ok(()) })),
            "be16e" => rec.op(src, |o, _| io_res(o, |o| {
                match r.read_be_u16_or_eof()? {
                    None => o.push_str("{\"k\":\"none\"}"),
                    Some(v) => bytes_res(o, &v.to_be_bytes()),
                }
                Ok(())
            })),
            "be24" => rec.op(src, |o, _| io_res(o, |o| { let v = r.read_be_u24()?; bytes_res(o, &v.to_be_bytes()[1..]); Ok(()) })),
            "be32" => rec.op(src, |o, _| io_res(o, |o| { let v = r.read_be_u32()?; bytes_res(o, &v.to_be_bytes()); Ok(()) })),
            // Reported so that the bytes appear in stream order.
            "le32" => rec.op(src, |o, _| io_res(o, |o| { let v = r.read_le_u32()?; bytes_res(o, &v.to_le_bytes()); Ok(()) })),
            "next" => {
                let mut fr = FrameReader::new(&mut *r);
                rec.op(src, |o, spare| next_block(&mut fr, op, o, spare));
            }
            "nextk" => {
                let mut fr = FrameReader::new(&mut *r);
                loop {
                    let op = &ops[i];
                    rec.op(src, |o, spare| next_block(&mut fr, op, o, spare));
                    if i + 1 >= ops.len() || ops[i + 1][0] != "nextk" || rec.dead {
                        break;
                    }
                    i += 1;
                }
                let _ = fr.into_inner();
            }
            "empty" => empty_block(rec, src),
            "mdh" | "md" => {
                let nd = needles(op.get(if op[0] == "md" { 3 } else { 1 }));
                rec.op(src, |o, _| {
                    let base = mark();
                    let m = if op[0] == "md" {
                        metadata::read_metadata_block(&mut *r, num(&op[1]) as u8, num(&op[2]) as u32)
                    } else {
                        metadata::read_metadata_block_with_header(&mut *r)
                    };
                    let used = peak_since(base);
                    match m {
                        Err(e) => { err(o, &e); o.pop(); }
                        Ok(b) => {
                            o.push_str("{\"k\":\"meta\",\"blk\":");
                            meta(o, &b, &nd);
                        }
                    }
                    let _ = write!(o, ",\"mem\":{}}}", used);
                });
            }
            "mdi" => {
                // One block iterator for a run of calls.
                let mut it = MetadataBlockReader::new(&mut *r);
                loop {
                    let nd = needles(ops[i].get(1));
                    rec.op(src, |o, _| {
                        let base = mark();
                        let (lo, hi) = it.size_hint();
                        let m = it.next();
                        let used = peak_since(base);
                        match m {
                            None => o.push_str("{\"k\":\"none\""),
                            Some(Err(e)) => { err(o, &e); o.pop(); }
                            Some(Ok(b)) => {
                                o.push_str("{\"k\":\"meta\",\"blk\":");
                                meta(o, &b, &nd);
                            }
                        }
                        let _ = write!(o, ",\"mem\":{},\"lo\":{},\"hi\":{}}}", used, std::cmp::min(lo, 1 << 30),
                                       hi.map(|x| std::cmp::min(x, 1 << 30) as i64).unwrap_or(-1));
                    });
                    if i + 1 >= ops.len() || ops[i + 1][0] != "mdi" || rec.dead {
                        break;
                    }
                    i += 1;
                }
            }
            // A bit reader for a run of bit operations; the rest of its last
            // byte is dropped with it.
            "bit" | "unary" | "leq8" | "gt8" | "leq16" | "leq32" | "sub" => {
                let mut b = Bitstream::new(&mut *r);
                loop {
                    bit_op(rec, src, &ops[i], &mut b);
                    if i + 1 >= ops.len() || rec.dead ||
                        !["bit", "unary", "leq8", "gt8", "leq16", "leq32", "sub"].contains(&&ops[i + 1][0][..]) {
                        break;
                    }
                    i += 1;
                }
            }
            x => panic!("driver: unknown op {}", x),
        }
        i += 1;
    }
}

fn bit_op<R: ReadBytes>(rec: &mut Rec, src: &Source, op: &[String], b: &mut Bitstream<R>) {
    let n = op.get(1).map(|s| num(s) as u32).unwrap_or(0);
    let val = |o: &mut Out, v: u32| {
        // High and low half, so that every value fits a TLC integer.
        let _ = write!(o, "{{\"k\":\"bits\",\"v\":[{},{}]}}", v >> 16, v & 0xffff);
    };
    match &op[0][..] {
        "bit" => rec.op(src, |o, _| io_res(o, |o| { let v = b.read_bit()?; val(o, v as u32); Ok(()) })),
        "unary" => rec.op(src, |o, _| io_res(o, |o| { let v = b.read_unary()?; val(o, v); Ok(()) })),
        "leq8" => rec.op(src, |o, _| io_res(o, |o| { let v = b.read_leq_u8(n)?; val(o, v as u32); Ok(()) })),
        "gt8" => rec.op(src, |o, _| io_res(o, |o| { let v = b.read_gt_u8_leq_u16(n)?; val(o, v); Ok(()) })),
        "leq16" => rec.op(src, |o, _| io_res(o, |o| { let v = b.read_leq_u16(n)?; val(o, v as u32); Ok(()) })),
        "leq32" => rec.op(src, |o, _| io_res(o, |o| { let v = b.read_leq_u32(n)?; val(o, v); Ok(()) })),
        // sub <bps> <block size>: one subframe.
        "sub" => rec.op(src, |o, _| {
            let mut buf = vec![-559038737i32; num(&op[2]) as usize];
            match claxon::subframe::decode(b, n, &mut buf) {
                Ok(()) => {
                    o.push_str("{\"k\":\"sub\",\"v\":");
                    ints(o, &buf);
                    o.push('}');
                }
                Err(e) => err(o, &e),
            }
        }),
        _ => unreachable!(),
    }
}

fn run(case: &Case) -> String {
    let mut rec = Rec { out: String::new(), n: 0, spare: Vec::new(), dead: false, quiet: case.quiet };
    let src = &case.src;
    // A cursor may begin anywhere: cur@<position>.
    let mut parts = case.kind.split('@');
    let kind = parts.next().unwrap();
    let at = parts.next().map(num).unwrap_or(0);
    match kind {
        "flac" => flac_ops(&mut rec, src, &case.ops, &|opts| {
            if opts == FlacReaderOptions::default() {
                FlacReader::new(src.clone())
            } else {
                FlacReader::new_ext(src.clone(), opts)
            }
        }),
        "file" => {
            let dir = std::env::var("DRIVER_SCRATCH").expect("driver: DRIVER_SCRATCH");
            let path = format!("{}/case.flac", dir);
            std::fs::write(&path, src.0.borrow().all()).unwrap();
            flac_ops(&mut rec, src, &case.ops, &|opts| {
                if opts == FlacReaderOptions::default() {
                    FlacReader::open(&path)
                } else {
                    FlacReader::open_ext(&path, opts)
                }
            });
            let _ = std::fs::remove_file(&path);
        }
        "buf" => byte_ops(&mut rec, src, &case.ops, &mut BufferedReader::new(src.clone())),
        "mbuf" => byte_ops(&mut rec, src, &case.ops, &mut &mut BufferedReader::new(src.clone())),
        "cur" => {
            let v = src.0.borrow().all();
            let mut c = io::Cursor::new(v);
            c.set_position(at);
            byte_ops(&mut rec, src, &case.ops, &mut c)
        }
        "mcur" => {
            let v = src.0.borrow().all();
            let mut c = io::Cursor::new(&v[..]);
            c.set_position(at);
            byte_ops(&mut rec, src, &case.ops, &mut &mut c)
        }
        x => panic!("driver: unknown source kind {}", x),
    }
    rec.out
}

// --------------------------------------------------------------------- main

static CLOCK: AtomicU64 = AtomicU64::new(0);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("DRIVER_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000);
    // A call that does not return is an observation, too: report it by dying.
    std::thread::spawn(move || {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let now = CLOCK.load(Ordering::Relaxed);
            if now % 2 == 1 && now == last.0 {
                last.1 += 100;
                if last.1 > limit {
                    std::process::exit(97);
                }
            } else {
                last = (now, 0);
            }
        }
    });

    let stdin = io::stdin();
    let stdout = io::stdout();
    let mut w = io::BufWriter::with_capacity(1 << 16, stdout.lock());
    let mut id = String::new();
    let mut kind = String::from("flac");
    let mut segs = Vec::new();
    let mut faults = Vec::new();
    let mut chunks = Vec::new();
    let mut ops = Vec::new();
    let mut quiet = false;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut f = line.split(' ').filter(|s| !s.is_empty());
        match f.next() {
            None => {}
            Some("C") => {
                id = f.next().unwrap().to_string();
                kind = String::from("flac");
                segs = Vec::new();
                faults = Vec::new();
                chunks = Vec::new();
                ops = Vec::new();
                quiet = false;
                POISON.store(0xa5, Ordering::Relaxed);
            }
            Some("B") => {
                for s in f {
                    if s.starts_with('*') || s.starts_with('~') {
                        let mut p = s[1..].split('x');
                        let n = num(p.next().unwrap());
                        segs.push(Seg::Run(n, u8::from_str_radix(p.next().unwrap(), 16).unwrap()));
                    } else {
                        segs.push(Seg::Lit(unhex(s)));
                    }
                }
            }
            Some("F") => {
                for s in f {
                    let mut p = s.splitn(2, ':');
                    let at = num(p.next().unwrap());
                    faults.push((at, p.next().unwrap().to_string()));
                }
            }
            Some("K") => chunks = f.next().unwrap().split(',').map(|s| num(s) as usize).collect(),
            Some("S") => kind = f.next().unwrap().to_string(),
            Some("P") => POISON.store(u8::from_str_radix(f.next().unwrap(), 16).unwrap() as usize, Ordering::Relaxed),
            Some("Q") => quiet = true,
            Some("O") => ops.push(f.map(|s| s.to_string()).collect::<Vec<_>>()),
            Some("E") => {
                let segs = std::mem::replace(&mut segs, Vec::new());
                let len = segs.iter().map(|s| match *s {
                    Seg::Lit(ref v) => v.len() as u64,
                    Seg::Run(n, _) => n,
                }).sum();
                let tape = Tape {
                    segs: segs,
                    len: len,
                    faults: std::mem::replace(&mut faults, Vec::new()),
                    chunks: std::mem::replace(&mut chunks, Vec::new()),
                    pos: 0,
                    fired: 0,
                    turn: 0,
                };
                let case = Case {
                    id: id.clone(),
                    kind: kind.clone(),
                    ops: std::mem::replace(&mut ops, Vec::new()),
                    src: Source(Rc::new(RefCell::new(tape))),
                    quiet: quiet,
                };
                // Announce the case first: if the process dies, it is this one.
                writeln!(w, "{{\"start\":\"{}\"}}", case.id).unwrap();
                w.flush().unwrap();
                CLOCK.fetch_add(1, Ordering::Relaxed);
                let res = run(&case);
                CLOCK.fetch_add(1, Ordering::Relaxed);
                writeln!(w, "{{\"id\":\"{}\",\"res\":[{}]}}", case.id, res).unwrap();
            }
            Some(x) => panic!("driver: bad line {}", x),
        }
    }
    w.flush().unwrap();
}
