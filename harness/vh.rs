// Bounded conformance / counterexample-search harness.  Appended as a child
// module to a scratch copy of the current sources on every run; it only uses
// crate-visible entry points, never private items.
//
// usage: vh <property> --tier quick|thorough --seed N --out DIR [--job NAME --case K]
use std::collections::{HashMap, HashSet, BTreeMap};
use std::io::{self, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use image::{DynamicImage, GenericImageView, ImageBuffer, Pixel, Rgb, RgbImage};

use crate::bit::{bit_reader, Bit, BitArray, BitOrder, IoBitWriter, WriteBit};
use crate::codec::{AnyCodec, Codec};
use crate::ser::{Deserialize, Serialize, SerStream};

/* ---------- rng ---------- */

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn byte(&mut self) -> u8 { (self.next() >> 24) as u8 }
}

fn fnv(data: &[u8], tag: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in tag.as_bytes().iter().chain(data.iter()) {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/* ---------- case bookkeeping ---------- */

/// Stands for a harness function that does not compile against the current
/// sources any more; the cases that need it are not run.
pub const LOST: &str = "VH_LOST";
pub fn lost() -> ! { panic!("{}", LOST) }

struct Failure { job: String, case: u64, desc: String, msg: String, input: Vec<u8> }

struct Shared {
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    failures: Mutex<Vec<Failure>>,
    slots: Vec<Mutex<Option<(Instant, String, u64, String)>>>,
    done: AtomicBool,
    out: String,
    per_job: Mutex<BTreeMap<String, u64>>,
}

pub struct Cases<'a> {
    sh: &'a Shared,
    slot: usize,
    slot_file: std::fs::File,
    job: String,
    n: u64,
    only: Option<u64>,
    pub failed: bool,
    pub rng: Rng,
    pub thorough: bool,
    deadline: Instant,
}

fn msg_of(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}

impl<'a> Cases<'a> {
    pub fn expired(&self) -> bool { self.failed || Instant::now() > self.deadline }

    /// Runs one case.  `nontrivial` says whether the input exercises the mechanism.
    pub fn case<F>(&mut self, desc: &str, input: &[u8], nontrivial: bool, f: F)
        where F: FnOnce() -> Result<(), String>
    {
        if self.failed { return; }
        let k = self.n;
        self.n += 1;
        if let Some(o) = self.only { if o != k { return; } }
        let mut line = format!("{}\u{1}{}\u{1}{}", self.job, k, desc);
        line.truncate(line.char_indices().take_while(|(i, _)| *i < 1000).last().map(|(i, c)| i + c.len_utf8()).unwrap_or(0));
        let mut rec = line.clone().into_bytes();
        rec.resize(1100, 0);
        let _ = self.slot_file.write_all_at(&rec, 0);
        *self.sh.slots[self.slot].lock().unwrap() = Some((Instant::now(), self.job.clone(), k, desc.to_string()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.sh.slots[self.slot].lock().unwrap() = None;
        self.sh.evals.fetch_add(1, Ordering::Relaxed);
        *self.sh.per_job.lock().unwrap().entry(self.job.clone()).or_insert(0) += 1;
        if nontrivial {
            self.sh.distinct.lock().unwrap().insert(fnv(input, &format!("{}{}", self.job, desc)));
            let mut s = self.sh.samples.lock().unwrap();
            if s.len() < 12 && (k % 7 == 3 || k == 0) { s.push(line.replace('\u{1}', " ")); }
        }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(e) => { let m = msg_of(e); if m == LOST { self.failed = true; return; } format!("panic: {}", m) }
        };
        self.failed = true;
        self.sh.failures.lock().unwrap().push(Failure { job: self.job.clone(), case: k, desc: desc.into(), msg, input: input.to_vec() });
    }
}

type Job = (String, Box<dyn Fn(&mut Cases) + Send + Sync>);
struct Jobs(Vec<Job>);
impl Jobs {
    fn add<F: Fn(&mut Cases) + Send + Sync + 'static>(&mut self, name: &str, f: F) {
        self.0.push((name.to_string(), Box::new(f)));
    }
}

/* ---------- json ---------- */
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}

pub fn run() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let tier = get("--tier").unwrap_or("quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").unwrap_or(".".into());
    let only_job = get("--job");
    let only_case: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 420 } else { 100 });
    let case_limit: u64 = get("--case-limit").and_then(|s| s.parse().ok()).unwrap_or(150);
    let thorough = tier == "thorough";

    if std::env::var("VH_SHOW_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }

    let mut jobs = Jobs(Vec::new());
    let _ = catch_unwind(AssertUnwindSafe(|| build_jobs(&prop, &mut jobs)));
    let nthreads = 8usize;
    let sh = Arc::new(Shared {
        evals: AtomicU64::new(0), distinct: Mutex::new(HashSet::new()), samples: Mutex::new(Vec::new()),
        failures: Mutex::new(Vec::new()), slots: (0..nthreads).map(|_| Mutex::new(None)).collect(),
        done: AtomicBool::new(false), out: out.clone(), per_job: Mutex::new(BTreeMap::new()),
    });
    let jobs = Arc::new(jobs.0);
    let next = Arc::new(AtomicUsize::new(0));
    let deadline = Instant::now() + Duration::from_secs(budget);
    {
        let sh = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if sh.done.load(Ordering::SeqCst) { return; }
            for s in &sh.slots {
                let hung = { s.lock().unwrap().as_ref().and_then(|(t, j, k, d)|
                    if t.elapsed().as_secs() > case_limit { Some((j.clone(), *k, d.clone())) } else { None }) };
                if let Some((job, case, desc)) = hung {
                    sh.failures.lock().unwrap().push(Failure { job, case, desc, msg: format!("did not terminate within {} s", case_limit), input: vec![] });
                    write_out(&sh);
                    std::process::exit(1);
                }
            }
        });
    }
    let hs: Vec<_> = (0..nthreads).map(|t| {
        let (sh, jobs, next, only_job, out) = (sh.clone(), jobs.clone(), next.clone(), only_job.clone(), out.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= jobs.len() { return; }
                let (name, f) = &jobs[i];
                if let Some(o) = &only_job { if o != name { continue; } }
                let slot_file = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}/slot{}", out, t)).unwrap();
                let _ = slot_file.set_len(0);
                let mut c = Cases { sh: &sh, slot: t, slot_file, job: name.clone(), n: 0, only: only_case, failed: false,
                    rng: Rng::new(seed ^ fnv(&[], name)), thorough, deadline };
                let _ = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                let _ = c.slot_file.set_len(0);
            }
        }).unwrap()
    }).collect();
    for h in hs { let _ = h.join(); }
    sh.done.store(true, Ordering::SeqCst);
    write_out(&sh);
    let bad = !sh.failures.lock().unwrap().is_empty();
    std::process::exit(if bad { 1 } else { 0 });
}

fn write_out(sh: &Shared) {
    let fs = sh.failures.lock().unwrap();
    let mut o = String::new();
    o.push_str(&format!("{{\"evaluations\":{},\"distinct\":{},", sh.evals.load(Ordering::Relaxed), sh.distinct.lock().unwrap().len()));
    o.push_str("\"samples\":[");
    o.push_str(&sh.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"per_job\":{");
    o.push_str(&sh.per_job.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"failures\":[");
    let mut parts = vec![];
    for (i, f) in fs.iter().enumerate() {
        if !f.input.is_empty() { let _ = std::fs::write(format!("{}/fail{}.bin", sh.out, i), &f.input); }
        let hex: String = f.input.iter().take(2048).map(|b| format!("{:02x}", b)).collect();
        parts.push(format!("{{\"job\":{},\"case\":{},\"desc\":{},\"msg\":{},\"input_len\":{},\"input_hex_prefix\":{}}}",
            js(&f.job), f.case, js(&f.desc), js(&f.msg), f.input.len(), js(&hex)));
    }
    o.push_str(&parts.join(","));
    o.push_str("]}");
    let _ = std::fs::write(format!("{}/result.json", sh.out), o);
}

fn build_jobs(prop: &str, j: &mut Jobs) {
    match prop {
        "C01" => jobs_huffman(j),
        "C02" => jobs_zip_dict(j),
        "C03" => jobs_zip_back(j),
        "C04" => jobs_delta(j),
        "C05" => jobs_hilbert_rle(j),
        "C06" => jobs_hilbert_zip(j),
        "C07" => jobs_bits(j),
        "C08" => jobs_ser(j),
        "C09" => jobs_huffman_code(j),
        "C10" => { jobs_kmeans(j); jobs_arithmetic(j) }
        "C11" => { jobs_cluster_colors(j); jobs_arithmetic(j) }
        "C12" => { jobs_voronoi(j); jobs_arithmetic(j) }
        "C13" => jobs_hilbert_scan(j),
        "C14" => { jobs_parse(j); jobs_patterns(j) }
        "C15" => { jobs_rle_approx(j); jobs_arithmetic(j) }
        "C16" => { jobs_truncation(j); jobs_truncation_many(j) }
        "C17" => { jobs_write_errors(j); jobs_write_odd(j) }
        "C18" => jobs_dict_format(j),
        "C19" => jobs_back_format(j),
        _ => {}
    }
    jobs_finite(j);
}

/* ---------- image generation ---------- */

fn codec(spec: &str) -> Result<AnyCodec, String> {
    AnyCodec::from_str(spec).map_err(|e| format!("codec argument {:?} refused: {:?}", spec, e))
}

fn raw(img: &DynamicImage) -> Vec<u8> {
    let (w, h) = img.dimensions();
    let mut v = Vec::with_capacity(8 + (w * h * 3) as usize);
    v.extend_from_slice(&w.to_le_bytes());
    v.extend_from_slice(&h.to_le_bytes());
    for (_, _, p) in img.pixels() { v.extend_from_slice(&p.to_rgb().0); }
    v
}

const NKINDS: u64 = 12;

/// Image content families.
fn gen_image(w: u32, h: u32, kind: u64, rng: &mut Rng) -> DynamicImage {
    let n = (w * h) as usize;
    let pal: Vec<[u8; 3]> = (0..rng.range(2, 9)).map(|_| [rng.byte(), rng.byte(), rng.byte()]).collect();
    let mut px: Vec<[u8; 3]> = Vec::with_capacity(n);
    match kind {
        0 => { let c = [rng.byte(), rng.byte(), rng.byte()]; px = vec![c; n]; }
        1 => { for _ in 0..n { px.push([rng.byte(), rng.byte(), rng.byte()]); } }
        2 => { for _ in 0..n { px.push(pal[rng.below(pal.len() as u64) as usize]); } }
        3 => { for i in 0..n { let x = (i as u32 % w) as u8; let y = (i as u32 / w) as u8; px.push([x, y, x.wrapping_add(y)]); } }
        4 => { for _ in 0..n { let v = if rng.below(2) == 0 { 0 } else { 255 }; px.push([v, 255 - v, v]); } }
        5 => { // long runs in raster order
            while px.len() < n { let c = pal[rng.below(pal.len() as u64) as usize]; let l = rng.range(1, 600); for _ in 0..l { px.push(c); } }
            px.truncate(n);
        }
        6 => { // alternate extremes (largest possible differences)
            for i in 0..n { px.push(if i % 2 == 0 { [0, 255, 0] } else { [255, 0, 255] }); }
        }
        7 => { // geometric distribution over colours => deep code tree
            for _ in 0..n { let mut k = 0u8; while k < 60 && rng.below(2) == 0 { k += 1; } px.push([k, 0, 255 - k]); }
        }
        8 => { // periodic pattern
            let p = rng.range(1, 40) as usize;
            let base: Vec<[u8; 3]> = (0..p).map(|_| [rng.byte(), rng.byte(), rng.byte()]).collect();
            for i in 0..n { px.push(base[i % p]); }
        }
        9 => { // smooth noise
            let mut c = [128i32, 100, 30];
            for _ in 0..n { for q in 0..3 { c[q] = (c[q] + rng.range(0, 6) as i32 - 3).clamp(0, 255); } px.push([c[0] as u8, c[1] as u8, c[2] as u8]); }
        }
        10 => { // all distinct-ish
            for i in 0..n { px.push([(i & 0xff) as u8, ((i >> 8) & 0xff) as u8, ((i >> 16) & 0xff) as u8]); }
        }
        _ => { // one odd pixel
            let c = [rng.byte(), rng.byte(), rng.byte()]; px = vec![c; n];
            let k = rng.below(n as u64) as usize; px[k] = [c[0] ^ 1, c[1], c[2]];
        }
    }
    from_px(w, h, &px)
}

fn from_px(w: u32, h: u32, px: &[[u8; 3]]) -> DynamicImage {
    let mut img: RgbImage = ImageBuffer::new(w, h);
    for (i, p) in img.pixels_mut().enumerate() { *p = Rgb(px[i]); }
    img.into()
}

/// Own placement of a colour sequence along the traversal that the crate defines.
fn along_curve(w: u32, h: u32, colors: &[[u8; 3]]) -> DynamicImage {
    let mut img: RgbImage = ImageBuffer::new(w, h);
    for ((x, y), c) in crate::hilbert::iter(w as usize, h as usize).zip(colors.iter()) {
        img.put_pixel(x as u32, y as u32, Rgb(*c));
    }
    img.into()
}

fn reformat(img: &DynamicImage, k: u64) -> DynamicImage {
    match k % 4 {
        0 => img.clone(),
        1 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(img.width(), img.height(), |x, y| {
            let p = img.get_pixel(x, y); image::Rgba([p.0[0], p.0[1], p.0[2], (x * 31 + y * 7) as u8]) })),
        2 => DynamicImage::ImageLuma8(img.to_luma8()),
        _ => img.clone(),
    }
}

fn same_pixels(img: &DynamicImage, dec: &DynamicImage) -> Result<(), String> {
    if img.dimensions() != dec.dimensions() {
        return Err(format!("dimensions differ: original {:?}, decoded {:?}", img.dimensions(), dec.dimensions()));
    }
    for ((x, y, a), (_, _, b)) in img.pixels().zip(dec.pixels()) {
        if a.to_rgb() != b.to_rgb() {
            return Err(format!("pixel ({},{}) differs: original {:?}, decoded {:?}", x, y, a.to_rgb().0, b.to_rgb().0));
        }
    }
    Ok(())
}

fn encode(c: &AnyCodec, img: &DynamicImage) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    c.encode(img, &mut v).map_err(|e| format!("encode into memory failed: {:?}", e))?;
    Ok(v)
}

fn lossless_roundtrip(spec: &str, img: &DynamicImage) -> Result<(), String> {
    let c = codec(spec)?;
    if !c.is_lossless() { return Err(format!("{} does not report itself lossless", spec)); }
    let v = encode(&c, img)?;
    let d = c.decode(&mut v.into_iter()).ok_or("decoding the codec's own output failed")?;
    same_pixels(img, &d)
}

fn header_ok(v: &[u8], img: &DynamicImage) -> Result<(), String> {
    let (w, h) = img.dimensions();
    let mut e = w.to_le_bytes().to_vec(); e.extend_from_slice(&h.to_le_bytes());
    if v.len() < 8 || v[..8] != e[..] { return Err("stream does not start with width and height".into()); }
    Ok(())
}

/// The generic image families for one codec.
fn image_jobs(j: &mut Jobs, spec: &'static str, big: &'static [(u32, u32)], nrandom: u64) {
    j.add(&format!("{} tiny dims", spec), move |c| {
        for w in 1..=6u32 { for h in 1..=6u32 { for k in 0..NKINDS {
            let img = gen_image(w, h, k, &mut c.rng);
            let img = reformat(&img, k + w as u64);
            c.case(&format!("{}x{} kind {}", w, h, k), &raw(&img), true, || lossless_roundtrip(spec, &img));
        }}}
    });
    for part in 0..4u64 {
        j.add(&format!("{} random {}", spec, part), move |c| {
            let n = if c.thorough { nrandom * 30 } else { nrandom * 5 };
            for i in 0..n {
                if c.expired() { return; }
                let (w, h) = match c.rng.below(4) {
                    0 => (c.rng.range(1, 300) as u32, c.rng.range(1, 4) as u32),
                    1 => (c.rng.range(1, 4) as u32, c.rng.range(1, 300) as u32),
                    2 => { let p = 1u32 << c.rng.range(0, 6); (p, p) }
                    _ => (c.rng.range(1, 70) as u32, c.rng.range(1, 70) as u32),
                };
                let k = c.rng.below(NKINDS);
                let img = gen_image(w, h, k, &mut c.rng);
                let img = reformat(&img, i);
                c.case(&format!("#{} {}x{} kind {}", i, w, h, k), &raw(&img), w * h > 1, || lossless_roundtrip(spec, &img));
            }
        });
    }
    for (w, h) in big.iter().cloned().chain([(70_001u32, 1u32), (1, 70_000)]) {
        for k in [0u64, 1, 3, 4, 5, 8, 9, 10] {
            if w.max(h) > 60_000 && ![1, 5, 9].contains(&k) { continue; }
            j.add(&format!("{} big {}x{} kind {}", spec, w, h, k), move |c| {
                if c.expired() { return; }
                let img = gen_image(w, h, k, &mut c.rng);
                c.case(&format!("{}x{} kind {}", w, h, k), &raw(&img), true, || lossless_roundtrip(spec, &img));
            });
        }
    }
}

/* ---------- C01 huffman ---------- */

fn huf_roundtrip<T>(syms: &[T]) -> Result<(), String>
    where T: Eq + std::hash::Hash + Clone + Serialize + Deserialize + std::fmt::Debug
{
    let mut v = Vec::new();
    crate::huf::encode_all(|| syms.iter().cloned(), &mut v).map_err(|e| format!("{:?}", e))?;
    let ds = crate::huf::decode_all::<_, T>(v.into_iter()).ok_or("decode_all refused the encoder's output")?;
    let dec: Vec<T> = ds.take(syms.len()).collect();
    if dec.len() != syms.len() { return Err(format!("decoded {} symbols out of {}", dec.len(), syms.len())); }
    for i in 0..syms.len() { if dec[i] != syms[i] { return Err(format!("symbol {} is {:?} but decoded as {:?}", i, syms[i], dec[i])); } }
    Ok(())
}

fn bytes_of<T: Serialize>(x: &[T]) -> Vec<u8> { let mut v = vec![]; for s in x { s.serialize(&mut v).unwrap(); } v }

/// Symbol sequences with a given multiset of frequencies, in shuffled order.
fn with_freqs(freqs: &[u64], rng: &mut Rng) -> Vec<u16> {
    let mut v = vec![];
    for (i, f) in freqs.iter().enumerate() { for _ in 0..*f { v.push((i * 257 + 3) as u16); } }
    for i in (1..v.len()).rev() { let k = rng.below(i as u64 + 1) as usize; v.swap(i, k); }
    v
}

fn freq_families(rng: &mut Rng, thorough: bool) -> Vec<Vec<u64>> {
    let mut f = vec![vec![1], vec![5], vec![1, 1], vec![1, 2, 4, 8, 16], vec![3; 7], vec![1; 255], vec![1; 256], vec![1; 257], vec![2; 1000]];
    let mut fib = vec![1u64, 1];
    while fib.len() < (if thorough { 26 } else { 24 }) { let l = fib.len(); fib.push(fib[l - 1] + fib[l - 2]); }
    for n in [6usize, 9, 10, 11, 17, 18, 19, 24] { f.push(fib[..n].to_vec()); }
    f.push(fib.clone());
    for _ in 0..(if thorough { 200 } else { 30 }) {
        let n = rng.range(1, 40); let m = rng.range(1, 60);
        f.push((0..n).map(|_| rng.range(1, m)).collect());
    }
    f
}

fn jobs_huffman(j: &mut Jobs) {
    image_jobs(j, "hufman", &[(160, 120), (301, 67)], 60);
    j.add("exhaustive short sequences", |c| {
        for n in 1..=7usize { let total = 3usize.pow(n as u32);
            for k in 0..total { let mut s = vec![]; let mut t = k; for _ in 0..n { s.push([7u8, 0, 255][t % 3]); t /= 3; }
                c.case(&format!("len {} #{}", n, k), &s.clone(), true, || huf_roundtrip(&s)); } }
    });
    j.add("frequency families", |c| {
        let fams = freq_families(&mut c.rng, c.thorough);
        for (i, f) in fams.iter().enumerate() {
            if c.expired() { return; }
            let s = with_freqs(f, &mut c.rng);
            c.case(&format!("family {} ({} symbols, {} distinct)", i, s.len(), f.len()), &bytes_of(&s), s.len() > 1, || huf_roundtrip(&s));
        }
    });
    j.add("payload lengths", |c| {
        // every total payload bit length modulo 8, symbols with code lengths around byte boundaries
        for n in 1..=40usize {
            let mut s: Vec<u16> = (0..20u16).collect();
            for k in 0..n { s.push((k % 20) as u16); }
            c.case(&format!("n {}", n), &bytes_of(&s), true, || huf_roundtrip(&s));
            let s2: Vec<u16> = with_freqs(&[1,1,2,3,5,8,13,21,34,55,89,144], &mut c.rng).into_iter().chain((0..n).map(|k| (3 + 257 * (k % 12)) as u16)).collect();
            c.case(&format!("deep n {}", n), &bytes_of(&s2), true, || huf_roundtrip(&s2));
        }
    });
    j.add("more colours than 16 bits count", |c| {
        for (w, h) in [(256u32, 257u32), (70_000, 1)] {
            let img = gen_image(w, h, 10, &mut c.rng);
            c.case(&format!("{}x{} all distinct", w, h), &raw(&img)[..4096], true, || lossless_roundtrip("hufman", &img));
        }
    });
    j.add("rare among frequent colours", |c| {
        // code words of 9 to 22 bits with every position of the rare ones
        for levels in [9usize, 12, 16, 17, 19, 23] {
            if c.expired() { return; }
            let (mut a, mut b) = (1usize, 1usize);
            let mut px: Vec<[u8; 3]> = vec![];
            for k in 0..levels { for _ in 0..a { px.push([k as u8, (k * 7) as u8, 0]); } let d = a + b; a = b; b = d; }
            for i in (1..px.len()).rev() { let k = c.rng.below(i as u64 + 1) as usize; px.swap(i, k); }
            let img = from_px(px.len() as u32, 1, &px);
            c.case(&format!("{} levels", levels), &raw(&img)[..raw(&img).len().min(4096)], true, || lossless_roundtrip("hufman", &img));
        }
    });
    j.add("other symbol types", |c| {
        for i in 0..(if c.thorough { 300 } else { 40 }) {
            let n = c.rng.range(1, 400) as usize; let m = c.rng.range(1, 50);
            let s: Vec<u32> = (0..n).map(|_| (c.rng.below(m) as u32).wrapping_mul(0x01010101)).collect();
            c.case(&format!("u32 #{}", i), &bytes_of(&s), true, || huf_roundtrip(&s));
            let s: Vec<(u8, i16)> = (0..n).map(|_| { let k = c.rng.below(m); (k as u8, -(k as i16) * 5) }).collect();
            c.case(&format!("(u8,i16) #{}", i), &bytes_of(&s), true, || huf_roundtrip(&s));
            let s: Vec<Rgb<u8>> = (0..n).map(|_| { let k = c.rng.below(m) as u8; Rgb([k, k ^ 255, k / 3]) }).collect();
            c.case(&format!("rgb #{}", i), &bytes_of(&s), true, || huf_roundtrip(&s));
        }
    });
}

/* ---------- byte streams ---------- */

fn diff(a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b { return Ok(()); }
    let k = a.iter().zip(b.iter()).position(|(x, y)| x != y);
    Err(format!("decoded bytes differ from the original: lengths {} vs {}, first difference at {:?}", a.len(), b.len(), k))
}

fn dict_roundtrip(s: &[u8]) -> Result<(), String> {
    let mut v = vec![];
    crate::zip::zip_dict_encode(s.iter().cloned(), &mut v).map_err(|e| format!("{:?}", e))?;
    let d: Vec<u8> = crate::zip::zip_dict_decode(v.into_iter()).take(s.len() + 10).collect();
    diff(s, &d)
}

fn back_roundtrip(s: &[u8]) -> Result<(), String> {
    let mut v = vec![];
    crate::zip::zip_back_encode(s.iter().cloned(), &mut v).map_err(|e| format!("{:?}", e))?;
    let d: Vec<u8> = crate::zip::zip_back_decode(v.into_iter()).take(s.len() + 10).collect();
    diff(s, &d)
}

fn small_streams(c: &mut Cases, f: fn(&[u8]) -> Result<(), String>, maxlen: usize) {
    for n in 0..=maxlen { for k in 0..(1usize << n) {
        let s: Vec<u8> = (0..n).map(|i| if (k >> i) & 1 == 1 { 0xff } else { 0 }).collect();
        c.case(&format!("binary len {} #{}", n, k), &s, n > 1, || f(&s));
    }}
    for n in 0..=5usize { for k in 0..3usize.pow(n as u32) {
        let mut t = k; let s: Vec<u8> = (0..n).map(|_| { let x = [1u8, 2, 200][t % 3]; t /= 3; x }).collect();
        c.case(&format!("ternary len {} #{}", n, k), &s, n > 1, || f(&s));
    }}
}

fn gen_stream(kind: u64, n: usize, rng: &mut Rng) -> Vec<u8> {
    match kind {
        0 => (0..n).map(|_| rng.byte()).collect(),
        1 => vec![rng.byte(); n],
        2 => { let k = rng.range(2, 5); (0..n).map(|_| rng.below(k) as u8).collect() }
        3 => { let p = rng.range(1, 90) as usize; let b: Vec<u8> = (0..p).map(|_| rng.byte()).collect(); (0..n).map(|i| b[i % p]).collect() }
        4 => { // copies of earlier segments with mutations
            let mut v: Vec<u8> = (0..n.min(20)).map(|_| rng.byte()).collect();
            while v.len() < n {
                if rng.below(3) == 0 { for _ in 0..rng.range(1, 12) { v.push(rng.byte()); } }
                else { let s = rng.below(v.len() as u64) as usize; let l = rng.range(3, 200) as usize; for i in 0..l { if s + i < v.len() { let b = v[s + i]; v.push(b); } } }
            }
            v.truncate(n); v
        }
        5 => { // pixel like framing
            let mut v = vec![]; let mut p = [0u8; 3];
            while v.len() < n { if rng.below(3) == 0 { p = [rng.byte(), rng.byte(), rng.byte()]; } v.extend_from_slice(&[3, 0, 0, 0, 0, 0, 0, 0, p[0], p[1], p[2]]); }
            v.truncate(n); v
        }
        6 => { // runs
            let mut v = vec![]; while v.len() < n { let b = rng.byte(); for _ in 0..rng.range(1, 300) { v.push(b); } } v.truncate(n); v
        }
        7 => { // a fixed prefix followed by every byte (wide trie nodes)
            let mut v = vec![]; let mut q = 0usize; while v.len() < n { v.push((q / 256 % 4) as u8); v.push((q % 256) as u8); v.push((q / 7) as u8); q += 1; } v.truncate(n); v
        }
        _ => { // text-like
            let words: Vec<Vec<u8>> = (0..60).map(|_| (0..rng.range(1, 9)).map(|_| b'a' + rng.below(26) as u8).collect()).collect();
            let mut v = vec![]; while v.len() < n { v.extend_from_slice(&words[rng.below(60) as usize]); v.push(b' '); } v.truncate(n); v
        }
    }
}

fn stream_jobs(j: &mut Jobs, name: &'static str, f: fn(&[u8]) -> Result<(), String>, nrandom: u64, maxlen: u64, small: usize) {
    j.add(&format!("{} exhaustive short", name), move |c| small_streams(c, f, small));
    for part in 0..4u64 {
        j.add(&format!("{} random {}", name, part), move |c| {
            let n = if c.thorough { nrandom * 30 } else { nrandom * 5 };
            for i in 0..n {
                if c.expired() { return; }
                let kind = c.rng.below(9);
                let top = [20, 200, 2000, maxlen][c.rng.below(4) as usize];
                let len = c.rng.range(0, top) as usize;
                let s = gen_stream(kind, len, &mut c.rng);
                c.case(&format!("#{} kind {} len {}", i, kind, len), &s, len > 1, || f(&s));
            }
        });
    }
}

/// Streams that use up every dictionary code, then go on.
fn exhausting_streams(j: &mut Jobs, f: fn(&[u8]) -> Result<(), String>) {
    for (nm, seed, n, alpha) in [("random 256", 11u64, 420_000usize, 256u64), ("random 2", 12, 1_900_000, 2), ("random 17", 13, 700_000, 17), ("random 256 long", 14, 700_000, 256)] {
        j.add(&format!("dictionary exhaustion {}", nm), move |c| {
            let mut r = Rng::new(seed ^ c.rng.next());
            let s: Vec<u8> = (0..n).map(|_| r.below(alpha) as u8).collect();
            c.case(&format!("{} random bytes below {}", n, alpha), &s, true, || f(&s));
        });
    }
    j.add("uniform long", move |c| {
        for n in [1usize, 2, 3, 7, 8, 63, 64, 65, 1000, 65535, 65536, 300_000] {
            for b in [0u8, 255] { let s = vec![b; n]; c.case(&format!("{} bytes {}", n, b), &s, n > 1, || f(&s)); }
        }
    });
    for (nm, n) in [("a", 140_000usize), ("b", 600_000), ("c", 1_200_000)] {
        j.add(&format!("words longer than 16 bits count {}", nm), move |c| {
            // pairs double: the words of a uniform stream grow beyond 65536 bytes
            for period in [1usize, 3] {
                if c.expired() { return; }
                let mut s: Vec<u8> = (0..n).map(|i| (i % period) as u8).collect();
                s.extend(gen_stream(0, 3000, &mut c.rng));
                s.extend((0..n / 2).map(|i| (i % period) as u8));
                s.extend(gen_stream(4, 3000, &mut c.rng));
                c.case(&format!("{} bytes of period {}, then others", n, period), &s, true, || f(&s));
            }
        });
    }
    j.add("wide nodes", move |c| {
        // one trie node receives children/values for every byte, in several orders
        for step in [1usize, 3, 85, 255] {
            for reps in [1usize, 2, 5] {
                let mut s = vec![];
                for _ in 0..reps { for q in 0..256usize { s.push(9u8); s.push((q * step % 256) as u8); if reps == 5 { s.push((q / 2) as u8); } } }
                for q in 0..256usize { s.push(9u8); s.push((q * step % 256) as u8); s.push(1); s.push(9); }
                c.case(&format!("step {} reps {}", step, reps), &s, true, || f(&s));
            }
        }
    });
}

fn jobs_zip_dict(j: &mut Jobs) {
    stream_jobs(j, "dict", dict_roundtrip, 120, 30_000, 11);
    exhausting_streams(j, dict_roundtrip);
    image_jobs(j, "zip(dict)", &[(160, 120)], 15);
}

fn jobs_zip_back(j: &mut Jobs) {
    stream_jobs(j, "back", back_roundtrip, 60, 12_000, 11);
    big_back_streams(j, back_roundtrip);
    image_jobs(j, "zip(back)", &[(100, 80)], 10);
}

fn big_back_streams(j: &mut Jobs, f: fn(&[u8]) -> Result<(), String>) {
    // literal runs around the representable maximum
    j.add("back literal lengths", move |c| {
        for n in [32_760usize, 32_766, 32_767, 32_768, 32_769, 40_000, 65_534, 65_535, 65_536, 66_000, 70_000, 132_000, 200_000] {
            let s = gen_stream(0, n, &mut c.rng);
            c.case(&format!("{} random bytes", n), &s, true, || f(&s));
        }
    });
    j.add("back long repetitions", move |c| {
        for n in [32_760usize, 32_767, 32_768, 33_000, 40_000, 60_000] {
            let base = gen_stream(0, n, &mut c.rng);
            let mut s = base.clone(); s.extend_from_slice(&base); s.extend_from_slice(&base[..100]);
            c.case(&format!("random block of {} twice", n), &s, true, || f(&s));
        }
    });
    j.add("back uniform", move |c| {
        for n in [5usize, 6, 7, 11, 12, 13, 100, 3000, 20_000, 80_000] {
            let s = vec![7u8; n]; c.case(&format!("uniform {}", n), &s, true, || f(&s));
        }
    });
    // a marker re-occurs exactly d bytes later, d around the window size
    for (nm, ds) in [("a", [65_520usize, 65_528, 65_529, 65_530, 65_531]), ("b", [65_532, 65_533, 65_534, 65_535, 65_536]), ("c", [65_537, 65_538, 65_541, 65_600, 131_070])] {
        j.add(&format!("back window distance {}", nm), move |c| {
            for d in ds { for pre in [0usize, 1, 6, 65_535, 65_536, 70_001] {
                for mlen in [6usize, 9, 40] {
                    let mut s = gen_stream(0, pre, &mut c.rng);
                    let m: Vec<u8> = (0..mlen).map(|i| 0x80 | (i as u8)).collect();
                    s.extend_from_slice(&m);
                    let fill = gen_stream(0, d - mlen, &mut c.rng);
                    s.extend(fill.into_iter().map(|b| b & 0x7f));
                    s.extend_from_slice(&m);
                    s.extend_from_slice(&[1, 2, 3]);
                    c.case(&format!("marker of {} bytes repeated at distance {} after {} bytes", mlen, d, pre), &s, true, || f(&s));
                    if c.expired() { return; }
                }
            }}
        });
    }
    for turn in [2usize, 3] { for part in 0..4usize {
        j.add(&format!("back turn {} of the window {}", turn, part), move |c| {
            // the encoder looks for a repetition at exactly `end`: a short copy, a literal whose
            // length is a power of two, then only copies
            let edge = 65_535 * turn;
            let mut v = gen_stream(0, 65_568, &mut c.rng);
            for i in 16..32 { v[i] = v[i - 16]; }
            while v.len() + 33_000 < edge { let s = v.len() - c.rng.range(30_000, 60_000) as usize; for i in s..s + 29_000 { let b = v[i]; v.push(b); } }
            for e in 0..14usize { if e % 4 != part { continue; }
                let end = edge - 9 + e;
                let mut w = v.clone();
                let n = end - w.len();
                let st = w.len() - 40_000; for i in st..st + n { let b = w[i]; w.push(b); }
                for back in 65_529..=65_541usize {
                    if c.expired() { return; }
                    if back < 65_533 && e % 3 != 0 { continue; }
                    let mut t = w.clone();
                    let st = end - back; for i in st..st + 14 { let b = t[i]; t.push(b); }
                    t.extend_from_slice(&[1, 2, 3]);
                    c.case(&format!("repetition of position {} at position {}", st, end), &t[t.len() - 4096..], true, || f(&t));
                }
            }
        });
    }}
    for part in 0..3u64 {
        j.add(&format!("back long mixed {}", part), move |c| {
            let n = if c.thorough { 25 } else { 3 };
            for i in 0..n {
                if c.expired() { return; }
                let kind = [4u64, 0, 8, 3, 5][c.rng.below(5) as usize];
                let len = c.rng.range(60_000, 290_000) as usize;
                let mut s = gen_stream(kind, len / 2, &mut c.rng);
                if kind == 3 || kind == 5 { s.truncate(30_000); }
                let mut t = gen_stream(4, len - s.len(), &mut c.rng);
                s.append(&mut t);
                // far copies, so that distances span the whole window
                for _ in 0..40 {
                    let l = c.rng.range(6, 3000) as usize;
                    let back = c.rng.range(l as u64, 66_000.min(s.len() as u64)) as usize;
                    let st = s.len() - back; let seg = s[st..(st + l).min(s.len())].to_vec(); s.extend_from_slice(&seg);
                }
                c.case(&format!("#{} kind {} len {}", i, kind, s.len()), &s, true, || f(&s));
            }
        });
    }
}

/* ---------- C04 delta, C05, C06 ---------- */

fn curve_cases(c: &mut Cases, spec: &'static str) {
    // run lengths around the counter limits, laid along the traversal
    let lens = [1u64, 2, 3, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 1021];
    for &a in &lens { for &b in &[1u64, 2, 254, 255, 256] {
        let mut col = vec![];
        for _ in 0..a { col.push([10u8, 20, 30]); }
        for _ in 0..b { col.push([10, 20, 31]); }
        col.push([255, 255, 255]);
        for _ in 0..a { col.push([0, 0, 0]); }
        let n = col.len();
        let w = 37u32; let h = ((n as u32) + w - 1) / w;
        while col.len() < (w * h) as usize { col.push([1, 2, 3]); }
        let img = along_curve(w, h, &col);
        c.case(&format!("runs {} {} 1 {}", a, b, a), &raw(&img), true, || lossless_roundtrip(spec, &img));
        // exactly one run, ending with the image
        let img = along_curve(a as u32, 1, &vec![[9u8, 9, 9]; a as usize]);
        c.case(&format!("single run {} ({})", a, b), &raw(&img), true, || lossless_roundtrip(spec, &img));
    }}
    // every signed channel difference
    for d in [1u8, 2, 127, 128, 129, 254, 255] {
        for (x, y) in [(0u8, d), (d, 0), (255, 255 - d), (255 - d, 255)] {
            for ch in 0..3 {
                let mut p = [100u8; 3]; let mut q = [100u8; 3]; p[ch] = x; q[ch] = y;
                let img = along_curve(4, 3, &[p, q, p, p, q, q, p, q, p, q, q, p]);
                c.case(&format!("step {}->{} channel {}", x, y, ch), &raw(&img), true, || lossless_roundtrip(spec, &img));
            }
        }
    }
}

fn jobs_delta(j: &mut Jobs) {
    image_jobs(j, "delta", &[(160, 120), (67, 301)], 50);
    j.add("delta along the curve", |c| curve_cases(c, "delta"));
    j.add("more differences than 16 bits count", |c| {
        let col: Vec<[u8; 3]> = (0..140_000u32).map(|i| if i % 2 == 0 { [(i >> 1) as u8, (i >> 9) as u8, (i >> 17) as u8] } else { [255, 0, 255] }).collect();
        let img = along_curve(350, 400, &col);
        c.case("350x400", &raw(&img)[..4096], true, || lossless_roundtrip("delta", &img));
    });
    j.add("delta all steps", |c| {
        // all 256x256 channel transitions in one image sequence
        for base in 0..8u32 {
            let mut col = vec![];
            for a in 0..256u32 { for b in (base * 32)..(base * 32 + 32) { col.push([a as u8, b as u8, 0]); col.push([b as u8, a as u8, 255 - a as u8]); } }
            let w = 128; let h = col.len() as u32 / w;
            let img = along_curve(w, h, &col);
            c.case(&format!("block {}", base), &raw(&img), true, || lossless_roundtrip("delta", &img));
        }
    });
}

fn rle_parse(v: &[u8]) -> Result<Vec<(u8, [u8; 3])>, String> {
    let body = &v[8..];
    if body.len() % 12 != 0 { return Err(format!("run section has {} bytes, not a multiple of 12", body.len())); }
    let mut r = vec![];
    for k in body.chunks(12) {
        if k[1..9] != [3, 0, 0, 0, 0, 0, 0, 0] { return Err("bad colour framing".into()); }
        r.push((k[0], [k[9], k[10], k[11]]));
    }
    Ok(r)
}

fn rle_exact_shape(img: &DynamicImage) -> Result<(), String> {
    let c = codec("hilbert(rle)")?;
    let v = encode(&c, img)?;
    header_ok(&v, img)?;
    let runs = rle_parse(&v)?;
    let px: Vec<[u8; 3]> = crate::hilbert::linearize(img).map(|p| p.to_rgb().0).collect();
    let mut i = 0usize;
    for (k, (n, col)) in runs.iter().enumerate() {
        if *n == 0 { return Err(format!("run {} has length 0", k)); }
        for q in 0..*n as usize { if px.get(i + q) != Some(col) { return Err(format!("run {} does not cover equal pixels", k)); } }
        i += *n as usize;
        if i < px.len() && px[i] == *col && *n != 255 { return Err(format!("run {} stops after {} although the next pixel is equal", k, n)); }
    }
    if i != px.len() { return Err(format!("runs cover {} of {} pixels", i, px.len())); }
    Ok(())
}

fn jobs_hilbert_rle(j: &mut Jobs) {
    image_jobs(j, "hilbert(rle)", &[(160, 120), (67, 301)], 50);
    j.add("rle along the curve", |c| curve_cases(c, "hilbert(rle)"));
    j.add("rle run shape", |c| {
        for i in 0..(if c.thorough { 4000 } else { 600 }) {
            let (w, h) = (c.rng.range(1, 60) as u32, c.rng.range(1, 60) as u32);
            let k = [0u64, 2, 4, 5, 11, 1][c.rng.below(6) as usize];
            let img = gen_image(w, h, k, &mut c.rng);
            c.case(&format!("#{} {}x{} kind {}", i, w, h, k), &raw(&img), true, || rle_exact_shape(&img));
        }
    });
    j.add("rle(0) is exact", |c| {
        for k in 0..NKINDS { let img = gen_image(23, 17, k, &mut c.rng);
            c.case(&format!("kind {}", k), &raw(&img), true, || lossless_roundtrip("hilbert(rle(0))", &img)); }
    });
}

fn jobs_hilbert_zip(j: &mut Jobs) {
    image_jobs(j, "hilbert(zip)", &[(160, 120), (301, 67)], 30);
    j.add("zip along the curve", |c| curve_cases(c, "hilbert(zip)"));
    j.add("zip long words", |c| {
        for (w, h, k) in [(200u32, 200u32, 30_000usize), (300, 280, 80_000), (260, 250, 64_000)] {
            if c.expired() { return; }
            let col: Vec<[u8; 3]> = (0..(w * h) as usize).map(|i| if i < k { [1, 1, 1] } else { [c.rng.byte(), c.rng.byte() & 3, 9] }).collect();
            let img = along_curve(w, h, &col);
            c.case(&format!("{}x{}: {} equal pixels, then others", w, h, k), &raw(&img)[..4096], true, || lossless_roundtrip("hilbert(zip)", &img));
        }
    });
    j.add("zip dictionary exhaustion", |c| {
        let img = gen_image(300, 260, 1, &mut c.rng);
        c.case("300x260 noise", &raw(&img), true, || lossless_roundtrip("hilbert(zip)", &img));
    });
}
include!("vh2.rs");
