//! Writing files with pages of gigabytes and counts beyond 32 bits: the sink keeps the small writes and counts the rest.
use crate::file::{self, num_json, opt_json};
use crate::util::*;
use parquet2::compression::Compression;
use parquet2::error::Error;
use parquet2::metadata::SchemaDescriptor;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as t;
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom, Write};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "large" => large,
        "many" => many,
        _ => return None,
    })
}

const BIG: usize = 1 << 20;

/// a file of bytes and holes
#[derive(Default, Clone)]
struct Parts {
    parts: Vec<(Vec<u8>, u64)>,
    size: u64,
    pos: u64,
}
impl Write for Parts {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.parts.last().map(|x| x.1 > 0).unwrap_or(true) {
            self.parts.push((vec![], 0))
        }
        let l = self.parts.last_mut().unwrap();
        if b.len() >= BIG {
            l.1 = b.len() as u64;
        } else {
            l.0.extend_from_slice(b);
        }
        self.size += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl futures::AsyncWrite for Parts {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Ready(self.write(b))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}
impl Read for Parts {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut at = 0;
        for (x, hole) in &self.parts {
            let n = x.len() as u64;
            if self.pos < at + n {
                let p = (self.pos - at) as usize;
                let k = b.len().min(x.len() - p);
                b[..k].copy_from_slice(&x[p..p + k]);
                self.pos += k as u64;
                return Ok(k);
            }
            at += n;
            if self.pos < at + hole {
                let k = (b.len() as u64).min(at + hole - self.pos) as usize;
                b[..k].fill(0);
                self.pos += k as u64;
                return Ok(k);
            }
            at += hole;
        }
        Ok(0)
    }
}
impl Seek for Parts {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let p = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.size as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if p < 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

struct Lazy(std::vec::IntoIter<Value>, parquet2::metadata::Descriptor, Option<CompressedPage>);
impl FallibleStreamingIterator for Lazy {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.2 = None;
        self.2 = self.0.next().map(|p| {
            let body = vec![0; le64(&p["body"]) as usize];
            let (us, c) = (le64(&p["us"]) as usize, Compression::Uncompressed);
            if crate::util::us(&p["k"]) == 2 {
                CompressedPage::Dict(CompressedDictPage::new(body, c, us, le64(&p["n"]) as usize, false))
            } else {
                CompressedPage::Data(CompressedDataPage::new(file::data_header(&p["h"]), body, c, us, self.1.clone(), Some(le64(&p["rows"]) as usize)))
            }
        });
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.2.as_ref()
    }
}

fn group(g: &Value, s: &SchemaDescriptor) -> RowGroupIter<'static, Error> {
    let cols: Vec<_> = arr(g)
        .iter()
        .zip(s.columns())
        .map(|(c, d)| Ok(DynStreamingIterator::new(Lazy(arr(c).clone().into_iter(), d.descriptor.clone(), None))))
        .collect();
    DynIter::new(cols.into_iter())
}

fn options(v: &Value) -> WriteOptions {
    WriteOptions { write_statistics: v["ws"] == json!(true), version: Version::V2 }
}

fn large(v: &Value) -> Value {
    let s = file::schema_of(&v["schema"]);
    let ok = |r: Result<(), Error>| r.map(|_| json!({"ok": true})).unwrap_or_else(|_| err());
    let end = |r: Result<u64, Error>| r.map(|n| json!({"ok": n.to_le_bytes()})).unwrap_or_else(|_| err());
    let mut p = Parts::default();
    let mut res = vec![];
    let ended;
    if v["async"] == json!(true) {
        let mut w = FileStreamer::new(&mut p, s.clone(), options(v), None);
        for g in arr(&v["groups"]) {
            res.push(ok(futures::executor::block_on(w.write(group(g, &s)))));
        }
        ended = end(futures::executor::block_on(w.end(None)));
    } else {
        let mut w = FileWriter::new(&mut p, s.clone(), options(v), None);
        for g in arr(&v["groups"]) {
            res.push(ok(w.write(group(g, &s))));
        }
        ended = end(w.end(None));
    }
    let read = match read_metadata(&mut p.clone()) {
        Ok(m) => {
            let i64_ = |x: i64| json!(x.to_le_bytes());
            let loc = |l: &t::PageLocation| json!([i64_(l.offset), l.compressed_page_size, i64_(l.first_row_index)]);
            json!({"rows": m.num_rows.to_le_bytes(), "rgs": m.row_groups.iter().map(|g| json!({
                "rows": g.num_rows().to_le_bytes(), "bytes": g.total_byte_size().to_le_bytes(), "csize": g.compressed_size().to_le_bytes(),
                "locs": read_pages_locations(&mut p.clone(), g.columns()).map(|l| json!([l.iter().map(|x| x.iter().map(loc).collect::<Vec<_>>()).collect::<Vec<_>>()])).unwrap_or(json!([])),
                "idx": if v["ws"] == json!(true) {
                    read_columns_indexes(&mut p.clone(), g.columns()).map(|l| json!([l.iter().map(|x| file::index_json(&**x)).collect::<Vec<_>>()])).unwrap_or(json!([]))
                } else { json!([]) },
                "cols": g.columns().iter().map(|c| json!({"nv": i64_(c.num_values()), "cs": i64_(c.compressed_size()), "us": i64_(c.uncompressed_size()),
                    "start": c.byte_range().0.to_le_bytes(), "len": c.byte_range().1.to_le_bytes()
                })).collect::<Vec<_>>()
            })).collect::<Vec<_>>()})
        }
        Err(_) => err(),
    };
    json!({"ops": res, "end": ended, "parts": p.parts.iter().map(|x| json!({"b": x.0, "hole": x.1.to_le_bytes()})).collect::<Vec<_>>(), "read": read})
}

/// a file of that many empty row groups
fn many(v: &Value) -> Value {
    let s = file::schema_of(&v["schema"]);
    let n = us(&v["groups"]);
    let mut p = Parts::default();
    let write = |p: &mut Parts| -> Result<(), Error> {
        if v["async"] == json!(true) {
            let mut w = FileStreamer::new(p, s.clone(), options(v), None);
            for _ in 0..n {
                futures::executor::block_on(w.write(group(&v["group"], &s)))?;
            }
            futures::executor::block_on(w.end(None))?;
        } else {
            let mut w = FileWriter::new(p, s.clone(), options(v), None);
            for _ in 0..n {
                w.write(group(&v["group"], &s))?;
            }
            w.end(None)?;
        }
        Ok(())
    };
    if write(&mut p).is_err() {
        return err();
    }
    let q = p.parts.concat_bytes();
    let len = u32::from_le_bytes(q[q.len() - 8..q.len() - 4].try_into().unwrap()) as usize;
    let mut b = &q[q.len() - 8 - len..];
    let m = t::FileMetaData::read_from_in_protocol(&mut t::thrift::protocol::TCompactInputProtocol::new(&mut b, usize::MAX)).unwrap();
    let back = read_metadata(&mut p).map(|m| json!({"n": m.row_groups.len(), "rows": num_json(m.num_rows as i64)})).unwrap_or_else(|_| err());
    json!({"ords": m.row_groups.iter().map(|g| opt_json(g.ordinal, |x| json!(x))).collect::<Vec<_>>(), "rows": num_json(m.num_rows), "back": back})
}
trait Joined {
    fn concat_bytes(&self) -> Vec<u8>;
}
impl Joined for Vec<(Vec<u8>, u64)> {
    fn concat_bytes(&self) -> Vec<u8> {
        self.iter().flat_map(|x| x.0.iter().copied()).collect()
    }
}
