//! Compressing and decompressing: the codecs, single pages, and streams of pages that reuse buffers.
use crate::chunk::compressed_json;
use crate::file::*;
use crate::util::*;
use parquet2::compression::Compression;
use parquet2::error::Error;
use parquet2::metadata::Descriptor;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "decomp" => decomp,
        "legacy" => legacy,
        "stream" => stream,
        "level" => level,
        _ => return None,
    })
}

fn codec_code(v: &Value) -> Compression {
    parquet_format_safe::CompressionCodec(i64_(v) as i32).try_into().unwrap()
}

/// {codec, body, n}: the codec's decompression into n bytes
fn decomp(v: &Value) -> Value {
    let mut out = vec![0xAA; us(&v["n"])];
    match parquet2::compression::decompress(codec_code(&v["codec"]), &bytes(&v["body"]), &mut out) {
        Ok(()) => json!({ "ok": out }),
        Err(_) => err(),
    }
}

fn desc() -> Descriptor {
    Descriptor {
        primitive_type: parquet2::schema::types::PrimitiveType::from_physical("x".into(), parquet2::schema::types::PhysicalType::Int32),
        max_def_level: 1,
        max_rep_level: 1,
    }
}

/// serves pages given as JSON, moving its own buffer into each and taking buffers back
struct Served {
    pages: std::vec::IntoIter<Value>,
    buf: Vec<u8>,
}
impl Iterator for Served {
    type Item = Result<CompressedPage, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let v = self.pages.next()?;
        if v.get("err").is_some() {
            return Some(Err(Error::InvalidParameter("source failed".into())));
        }
        let b = bytes(&v["p"]["body"]);
        let mut w = v.clone();
        w["p"]["body"] = json!([]);
        let mut p = std::mem::take(&mut self.buf);
        p.clear();
        p.extend_from_slice(&b);
        // a page is only made from its parts, so the buffer goes in through its constructor
        Some(Ok(make(&w, p)))
    }
}
impl PageIterator for Served {
    fn swap_buffer(&mut self, b: &mut Vec<u8>) {
        std::mem::swap(&mut self.buf, b)
    }
}
fn make(v: &Value, body: Vec<u8>) -> CompressedPage {
    let p = &v["p"];
    let c = codec_code(&v["codec"]);
    if us(&p["k"]) == 2 {
        CompressedPage::Dict(CompressedDictPage::new(body, c, us(&v["us"]), us(&p["n"]), p["sorted"].as_bool().unwrap()))
    } else {
        let mut p = CompressedDataPage::new(data_header(p), body, c, us(&v["us"]), desc(), Some(1));
        if let Some(x) = v["sel"].get(0) {
            p.select_rows(crate::chunk::intervals(x));
        }
        CompressedPage::Data(p)
    }
}

/// a page and its selected rows
fn selected(p: &Page) -> Value {
    let mut v = page_json(p);
    if let Page::Data(p) = p {
        v["sel"] = sel_json(p.selected_rows())
    }
    v
}

/// a stream that goes on after errors
struct Skip<I: Iterator<Item = Result<Page, Error>>>(Compressor<I>, std::sync::Arc<std::sync::atomic::AtomicUsize>);
impl<I: Iterator<Item = Result<Page, Error>>> FallibleStreamingIterator for Skip<I> {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        loop {
            match self.0.advance() {
                Ok(()) => return Ok(()),
                Err(_) => drop(self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst)),
            }
        }
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.0.get()
    }
}

fn on_its_own(x: &Value, junk: &[u8]) -> Value {
    if x.get("err").is_some() {
        return err();
    }
    compress(page(x, &desc()), junk.to_vec(), codec_of(&x["codec"])).map(compressed_json).unwrap_or_else(|_| err())
}

/// the pages of a chunk as they lie in the file
fn in_stream(pages: &[Value], codec: &Value, junk: Vec<u8>) -> Value {
    let v: Vec<Result<Page, Error>> = pages
        .iter()
        .map(|x| if x.get("err").is_some() { Err(Error::InvalidParameter("source failed".into())) } else { Ok(page(x, &desc())) })
        .collect();
    let errors = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let s = Skip(Compressor::new_from_vec(v.into_iter(), codec_of(codec), junk), errors.clone());
    let mut out = vec![];
    let sd = parquet2::metadata::SchemaDescriptor::new(
        "s".into(),
        vec![parquet2::schema::types::ParquetType::PrimitiveType(desc().primitive_type)],
    );
    let mut w = FileWriter::new(&mut out, sd, WriteOptions { write_statistics: false, version: Version::V1 }, None);
    let it: DynStreamingIterator<'_, CompressedPage, Error> = DynStreamingIterator::new(s);
    let wrote = w.write(DynIter::new(std::iter::once(Ok::<_, Error>(it)))).is_ok();
    let mut got = vec![];
    let mut at = 4;
    while wrote && got.len() + errors.load(std::sync::atomic::Ordering::SeqCst) < pages.len() {
        let mut c = std::io::Cursor::new(&out[at..]);
        let mut prot = parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(&mut c, usize::MAX);
        let h = parquet_format_safe::PageHeader::read_from_in_protocol(&mut prot).unwrap();
        at += c.position() as usize;
        let n = h.compressed_page_size as usize;
        got.push(json!({"body": out[at..at + n], "us": h.uncompressed_page_size, "k": h.type_.0}));
        at += n;
    }
    json!({"pages": got, "errors": errors.load(std::sync::atomic::Ordering::SeqCst), "wrote": wrote})
}

/// {pages: [{p, rows, codec, damage} | {err}], inner, outer: buffers, one: [] | [codec]}
fn stream(v: &Value) -> Value {
    let pages = arr(&v["pages"]);
    let inner = bytes(&v["inner"]);
    let outer = bytes(&v["outer"]);
    let single: Vec<Value> = pages.iter().map(|x| on_its_own(x, &inner)).collect();
    let comp = match arr(&v["one"]).first() {
        Some(c) => in_stream(pages, c, inner.clone()),
        None => json!({}),
    };
    // the compressed pages, damaged where the case says so
    let damaged: Vec<Value> = pages
        .iter()
        .zip(single.iter())
        .map(|(x, s)| {
            if s.get("err").is_some() {
                return err();
            }
            let mut w = x.clone();
            let mut b = bytes(&s["body"]);
            let mut n = i64_(&s["us"]);
            if let Some(d) = x["damage"].get(0) {
                let k = i64_(&x["damage"][1]);
                match st(d) {
                    "cut" => b.truncate((b.len() as i64 - k).max(0) as usize),
                    "size" => n = (n + k).max(0),
                    _ => {
                        let i = k as usize % b.len().max(1);
                        if !b.is_empty() {
                            b[i] ^= us(&x["damage"][2]) as u8
                        }
                    }
                }
            }
            w["p"]["body"] = json!(b);
            w["us"] = json!(n);
            w["codec"] = s["codec"].clone();
            w
        })
        .collect();
    let ev = |r: Result<Option<&Page>, Error>| match r {
        Ok(None) => None,
        Ok(Some(p)) => Some(selected(p)),
        Err(_) => Some(err()),
    };
    let served = || Served { pages: damaged.clone().into_iter(), buf: inner.clone() };
    macro_rules! run {
        ($d:expr) => {{
            let mut d = $d;
            let mut out = vec![];
            while let Some(e) = ev(d.next()) {
                out.push(e);
                if out.len() > pages.len() {
                    break;
                }
            }
            out
        }};
    }
    let alone: Vec<Value> = served()
        .map(|p| match p.and_then(|p| decompress(p, &mut outer.clone())) {
            Ok(p) => selected(&p),
            Err(_) => err(),
        })
        .collect();
    json!({"single": single, "comp": comp, "sizes": damaged.iter().map(|w| w.get("us").map(|n| json!([bytes(&w["p"]["body"]).len(), n])).unwrap_or(json!([]))).collect::<Vec<_>>(),
        "dec": run!(Decompressor::new(served(), outer.clone())), "basic": run!(BasicDecompressor::new(served(), outer.clone())), "alone": alone})
}

/// {codec, n, body}: the codec's level n, if it is one, and the body compressed with it and back
fn level(v: &Value) -> Value {
    use parquet2::compression::{BrotliLevel, CompressionOptions, GzipLevel, ZstdLevel};
    let (c, n) = (us(&v["codec"]), i64_(&v["n"]));
    let (l, o) = match c {
        2 => match GzipLevel::try_new(n as u8) {
            Ok(l) => (l.compression_level() as i64, CompressionOptions::Gzip(Some(l))),
            Err(_) => return err(),
        },
        4 => match BrotliLevel::try_new(n as u32) {
            Ok(l) => (l.compression_level() as i64, CompressionOptions::Brotli(Some(l))),
            Err(_) => return err(),
        },
        _ => match ZstdLevel::try_new(n as i32) {
            Ok(l) => (l.compression_level() as i64, CompressionOptions::Zstd(Some(l))),
            Err(_) => return err(),
        },
    };
    let b = bytes(&v["body"]);
    let p = Page::Dict(DictPage::new(b.clone(), 1, false));
    let back = compress(p, vec![], o).and_then(|p| decompress(p, &mut vec![]));
    json!({"level": l, "back": match back {
        Ok(Page::Dict(p)) => json!(p.buffer),
        _ => err(),
    }})
}
fn legacy(v: &Value) -> Value {
    let mut w = v.clone();
    w["codec"] = json!(5);
    let legacy = decomp(&w);
    w["codec"] = json!(7);
    json!({"legacy": legacy, "raw": decomp(&w)})
}
