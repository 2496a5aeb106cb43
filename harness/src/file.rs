//! Writing files from histories of calls, and reading files back by every interface.
use crate::io::*;
use crate::schema;
use crate::util::*;
use futures::StreamExt;
use parquet2::compression::{BrotliLevel, Compression, CompressionOptions, GzipLevel, ZstdLevel};
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::statistics::ParquetStatistics;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as t;
use parquet_format_safe::thrift::protocol::{TCompactOutputProtocol};
use serde_json::{json, Value};
use std::sync::Arc;

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "file" => file,
        "readback" => |v| read_back(&bytes(&v["bytes"]), v),
        _ => return None,
    })
}

// ------------------------------------------------------------------ values
/// a number of the specification: {"i": n} or, beyond 32 bits, {"big": 8 bytes}
pub fn num(v: &Value) -> i64 {
    match v.get("i") {
        Some(x) => i64_(x),
        None => le64(&v["big"]) as i64,
    }
}
pub fn num_json(x: i64) -> Value {
    if x >= -(1 << 31) && x < (1 << 31) {
        json!({ "i": x })
    } else {
        json!({"big": x.to_le_bytes()})
    }
}
pub fn opt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    arr(v).first().map(f)
}
pub fn opt_json<T>(x: Option<T>, f: impl Fn(T) -> Value) -> Value {
    x.map(|x| json!([f(x)])).unwrap_or(json!([]))
}
pub fn stats(v: &Value) -> ParquetStatistics {
    ParquetStatistics {
        max: opt(&v["omax"], bytes),
        min: opt(&v["omin"], bytes),
        null_count: opt(&v["nc"], num),
        distinct_count: opt(&v["dc"], num),
        max_value: opt(&v["max"], bytes),
        min_value: opt(&v["min"], bytes),
    }
}
pub fn stats_json(s: &ParquetStatistics) -> Value {
    json!({"omax": opt_json(s.max.as_ref(), |x| json!(x)), "omin": opt_json(s.min.as_ref(), |x| json!(x)),
           "nc": opt_json(s.null_count, num_json), "dc": opt_json(s.distinct_count, num_json),
           "max": opt_json(s.max_value.as_ref(), |x| json!(x)), "min": opt_json(s.min_value.as_ref(), |x| json!(x))})
}
pub fn data_header(p: &Value) -> DataPageHeader {
    let statistics = opt(&p["st"], stats);
    let e = |k: &str| t::Encoding(i64_(&p[k]) as i32);
    if us(&p["k"]) == 0 {
        DataPageHeader::V1(DataPageHeaderV1 {
            num_values: i64_(&p["n"]) as i32,
            encoding: e("enc"),
            definition_level_encoding: e("de"),
            repetition_level_encoding: e("re"),
            statistics,
        })
    } else {
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: i64_(&p["n"]) as i32,
            num_nulls: i64_(&p["nulls"]) as i32,
            num_rows: i64_(&p["nrows"]) as i32,
            encoding: e("enc"),
            definition_levels_byte_length: i64_(&p["dl"]) as i32,
            repetition_levels_byte_length: i64_(&p["rl"]) as i32,
            is_compressed: opt(&p["ic"], |x| x.as_bool().unwrap()),
            statistics,
        })
    }
}
pub fn header_json(h: &DataPageHeader, body: Value) -> Value {
    match h {
        DataPageHeader::V1(h) => json!({"k": 0, "n": h.num_values, "enc": h.encoding.0, "de": h.definition_level_encoding.0,
            "re": h.repetition_level_encoding.0, "st": opt_json(h.statistics.as_ref(), stats_json), "body": body}),
        DataPageHeader::V2(h) => json!({"k": 3, "n": h.num_values, "nulls": h.num_nulls, "nrows": h.num_rows, "enc": h.encoding.0,
            "dl": h.definition_levels_byte_length, "rl": h.repetition_levels_byte_length, "ic": opt_json(h.is_compressed, |x| json!(x)),
            "st": opt_json(h.statistics.as_ref(), stats_json), "body": body}),
    }
}
pub fn page_json(p: &Page) -> Value {
    match p {
        Page::Data(p) => header_json(p.header(), json!(p.buffer())),
        Page::Dict(p) => json!({"k": 2, "n": p.num_values, "sorted": p.is_sorted, "body": p.buffer}),
    }
}
pub fn sel_json(p: Option<&[Interval]>) -> Value {
    opt_json(p, |x| json!(x.iter().map(|i| json!([i.start, i.length])).collect::<Vec<_>>()))
}
fn codec(c: u64, level: Option<i64>) -> CompressionOptions {
    match c {
        0 => CompressionOptions::Uncompressed,
        1 => CompressionOptions::Snappy,
        2 => CompressionOptions::Gzip(level.map(|x| GzipLevel::try_new(x as u8).unwrap())),
        3 => CompressionOptions::Lzo,
        4 => CompressionOptions::Brotli(level.map(|x| BrotliLevel::try_new(x as u32).unwrap())),
        5 => CompressionOptions::Lz4,
        6 => CompressionOptions::Zstd(level.map(|x| ZstdLevel::try_new(x as i32).unwrap())),
        _ => CompressionOptions::Lz4Raw,
    }
}
pub fn codec_of(v: &Value) -> CompressionOptions {
    let a = arr(v);
    codec(us(&a[0]) as u64, a.get(1).map(i64_))
}
/// {"p": page, "rows": []|[n], ...} as an uncompressed page
pub fn page(v: &Value, d: &Descriptor) -> Page {
    let p = &v["p"];
    if us(&p["k"]) == 2 {
        Page::Dict(DictPage::new(bytes(&p["body"]), us(&p["n"]), p["sorted"].as_bool().unwrap()))
    } else {
        Page::Data(DataPage::new(data_header(p), bytes(&p["body"]), d.clone(), opt(&v["rows"], us)))
    }
}
pub fn compressed_page(v: &Value, d: &Descriptor) -> CompressedPage {
    let p = &v["p"];
    let c: Compression = codec(us(&v["codec"]) as u64, None).into();
    if us(&p["k"]) == 2 {
        CompressedPage::Dict(CompressedDictPage::new(
            bytes(&p["body"]), c, us(&v["us"]), us(&p["n"]), p["sorted"].as_bool().unwrap()))
    } else {
        CompressedPage::Data(CompressedDataPage::new(
            data_header(p), bytes(&p["body"]), c, us(&v["us"]), d.clone(), opt(&v["rows"], us)))
    }
}

pub struct RawPages(pub std::vec::IntoIter<Result<CompressedPage, Error>>, pub Option<CompressedPage>);
impl FallibleStreamingIterator for RawPages {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.1 = self.0.next().transpose()?;
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.1.as_ref()
    }
}

type PageStream = DynStreamingIterator<'static, CompressedPage, Error>;

fn source(c: &Value, d: &Descriptor) -> Result<PageStream, Error> {
    let failed = || Error::InvalidParameter("source failed".into());
    if c["err"] == json!([-1]) {
        return Err(failed());
    }
    let at = arr(&c["err"]).first().map(us).unwrap_or(usize::MAX);
    let ps = arr(&c["pages"]);
    if c["mode"] == json!("raw") {
        let mut v: Vec<Result<CompressedPage, Error>> = vec![];
        for (i, p) in ps.iter().enumerate() {
            if i == at {
                v.push(Err(failed()))
            }
            v.push(Ok(compressed_page(p, d)))
        }
        if at == ps.len() {
            v.push(Err(failed()))
        }
        Ok(DynStreamingIterator::new(RawPages(v.into_iter(), None)))
    } else {
        let mut v: Vec<Result<Page, Error>> = vec![];
        for (i, p) in ps.iter().enumerate() {
            if i == at {
                v.push(Err(failed()))
            }
            v.push(Ok(page(p, d)))
        }
        if at == ps.len() {
            v.push(Err(failed()))
        }
        Ok(DynStreamingIterator::new(Compressor::new(v.into_iter(), codec_of(&c["codec"]), bytes(&c["scratch"]))))
    }
}

fn row_group(rg: &Value, s: &SchemaDescriptor) -> RowGroupIter<'static, Error> {
    let fallback = Descriptor {
        primitive_type: parquet2::schema::types::PrimitiveType::from_physical("x".into(), parquet2::schema::types::PhysicalType::Int32),
        max_def_level: 0,
        max_rep_level: 0,
    };
    let cols: Vec<_> = arr(&rg["cols"])
        .iter()
        .enumerate()
        .map(|(i, c)| source(c, s.columns().get(i).map(|x| &x.descriptor).unwrap_or(&fallback)))
        .collect();
    DynIter::new(cols.into_iter())
}

pub fn kv(v: &Value) -> Option<Vec<KeyValue>> {
    opt(v, |l| {
        arr(l)
            .iter()
            .map(|x| KeyValue { key: schema::string(&x[0]), value: opt(&x[1], schema::string) })
            .collect()
    })
}
pub fn schema_of(v: &Value) -> SchemaDescriptor {
    SchemaDescriptor::new(schema::string(&v["n"]), arr(&v["f"]).iter().map(schema::node).collect())
}
pub fn thrift_bytes(m: &t::FileMetaData) -> Vec<u8> {
    let mut b = vec![];
    m.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).unwrap();
    b
}

pub fn write_history(v: &Value, asy: bool) -> Value {
    let k = &v["sink"];
    let mut sink = Sink {
        fail_at: opt(&k["fail"], us),
        transient: k["transient"] == json!(true),
        fail_flush: k["flush"] == json!(true),
        sizes: arr(&k["sizes"]).iter().map(us).collect(),
        pend: asy,
        ..Default::default()
    };
    let options = WriteOptions {
        write_statistics: v["ws"].as_bool().unwrap(),
        version: if us(&v["ver"]) == 1 { Version::V1 } else { Version::V2 },
    };
    let by = opt(&v["by"], schema::string);
    let sd = schema_of(&v["schema"]);
    let mut res = vec![];
    // snapshots of the sink's length are taken through a raw pointer-free route: the writer is rebuilt around &mut sink
    if asy {
        let lens = {
            let mut lens = vec![];
            let cell = std::cell::RefCell::new(&mut sink);
            struct S<'a, 'b>(&'a std::cell::RefCell<&'b mut Sink>);
            unsafe impl Send for S<'_, '_> {}
            impl futures::AsyncWrite for S<'_, '_> {
                fn poll_write(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
                    let mut s = self.0.borrow_mut();
                    futures::AsyncWrite::poll_write(std::pin::Pin::new(&mut ASink(&mut s)), cx, b)
                }
                fn poll_flush(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<std::io::Result<()>> {
                    let mut s = self.0.borrow_mut();
                    futures::AsyncWrite::poll_flush(std::pin::Pin::new(&mut ASink(&mut s)), cx)
                }
                fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<std::io::Result<()>> {
                    std::task::Poll::Ready(Ok(()))
                }
            }
            let mut w = FileStreamer::new(S(&cell), sd.clone(), options, by);
            for op in arr(&v["ops"]) {
                let r = match st(&op[0]) {
                    "write" => futures::executor::block_on(w.write(row_group(&op[1], &sd))).map(|_| 0),
                    _ => futures::executor::block_on(w.end(kv(&op[1]))),
                };
                res.push(match r {
                    Ok(n) => json!({"ok": n}),
                    Err(_) => err(),
                });
                lens.push(json!(cell.borrow().buf.len()));
            }
            lens
        };
        return json!({"ops": res, "lens": lens, "held": sink.flushed, "sink": sink.buf, "metas": []});
    }
    let mut lens = vec![];
    let mut metas = vec![];
    let fin;
    {
        let cell = std::cell::RefCell::new(&mut sink);
        struct S<'a, 'b>(&'a std::cell::RefCell<&'b mut Sink>);
        impl std::io::Write for S<'_, '_> {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                let mut s = self.0.borrow_mut();
                std::io::Write::write(&mut &mut **s, b)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                let mut s = self.0.borrow_mut();
                std::io::Write::flush(&mut &mut **s)
            }
        }
        let mut w = FileWriter::new(S(&cell), sd.clone(), options, by);
        for op in arr(&v["ops"]) {
            let r = match st(&op[0]) {
                "write" => w.write(row_group(&op[1], &sd)).map(|_| 0),
                _ => w.end(kv(&op[1])),
            };
            res.push(match r {
                Ok(n) => json!({"ok": n}),
                Err(_) => err(),
            });
            lens.push(json!(cell.borrow().buf.len()));
            metas.push(opt_json(w.metadata(), |m| json!(thrift_bytes(m))));
        }
        // documented to panic before the end
        fin = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.into_inner_and_metadata().1)).map(|m| json!([thrift_bytes(&m)])).unwrap_or(json!([]));
    }
    json!({"ops": res, "lens": lens, "held": sink.flushed, "sink": sink.buf, "metas": metas, "fin": fin})
}

fn file(v: &Value) -> Value {
    let mut o = json!({});
    for m in arr(&v["modes"]) {
        let mut w = catch(|| write_history(v, m == "async"));
        if w.get("panic").is_some() {
            return w;
        }
        if v["read"] != json!(false) && w["ops"].as_array().unwrap().iter().enumerate().any(|(i, r)| r.get("ok").is_some() && v["ops"][i][0] == "end") {
            let b = bytes(&w["sink"]);
            let r = catch(|| read_back(&b, &v["read"]));
            if r.get("panic").is_some() {
                return r;
            }
            w["read"] = r;
        } else {
            w["read"] = json!({});
        }
        o[st(m)] = w;
    }
    o
}

// ------------------------------------------------------------------ reading
pub fn chunk_thrift(c: &ColumnChunkMetaData) -> Vec<u8> {
    let mut b = vec![];
    c.column_chunk().write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).unwrap();
    b
}
pub fn meta_json(m: &FileMetaData) -> Value {
    meta_json_at(m, 0)
}
fn meta_json_at(m: &FileMetaData, base: u64) -> Value {
    let d = base as i64;
    json!({
        "ver": m.version, "rows": m.num_rows, "by": opt_json(m.created_by.as_ref(), |x| json!(x.as_bytes())),
        "kv": opt_json(m.key_value_metadata.as_ref(), |l| json!(l.iter().map(|x|
            json!([x.key.as_bytes(), opt_json(x.value.as_ref(), |y| json!(y.as_bytes()))])).collect::<Vec<_>>())),
        "schema": schema_json(m.schema()),
        "cols": leaves_json(m.schema()),
        "rgs": m.row_groups.iter().map(|g| json!({
            "rows": g.num_rows(), "bytes": g.total_byte_size(), "csize": g.compressed_size(),
            "cols": g.columns().iter().map(|c| json!({
                "codec": t::CompressionCodec::from(c.compression()).0, "nv": num_json(c.num_values()), "cs": num_json(c.compressed_size()),
                "us": num_json(c.uncompressed_size()), "dpo": num_json(c.data_page_offset() - d), "fo": num_json(c.file_offset() - d),
                "range": [num_or_minus(c.byte_range().0 as i64 - d), num_or_minus(c.byte_range().1 as i64)], "path": path_json(&c.descriptor().path_in_schema),
                "st": opt_json(c.statistics(), |s| s.map(|s| crate::stats::stat_json(&*s)).unwrap_or(err())),
                "leaf": schema::prim_json(&c.descriptor().descriptor.primitive_type),
                "thrift": chunk_thrift(c)
            })).collect::<Vec<_>>()})).collect::<Vec<_>>()
    })
}
fn path_json(p: &[String]) -> Value {
    json!(p.iter().map(|x| json!(x.as_bytes())).collect::<Vec<_>>())
}
pub fn schema_json(s: &SchemaDescriptor) -> Value {
    json!({"n": s.name().as_bytes(), "f": s.fields().iter().map(schema::node_json).collect::<Vec<_>>()})
}
pub fn leaves_json(s: &SchemaDescriptor) -> Value {
    json!(s.columns().iter().map(|c| json!({"path": path_json(&c.path_in_schema), "def": c.descriptor.max_def_level,
        "rep": c.descriptor.max_rep_level, "leaf": schema::prim_json(&c.descriptor.primitive_type), "base": schema::node_json(&c.base_type)})).collect::<Vec<_>>())
}

/// the pages of an iterator, each decompressed on its own into a fresh buffer; an error ends the list
pub fn pages_fresh<I: Iterator<Item = Result<CompressedPage, Error>>>(it: I) -> Value {
    let mut v = vec![];
    for p in it {
        match p.and_then(|p| decompress(p, &mut vec![])) {
            Ok(p) => v.push(page_json(&p)),
            Err(_) => {
                v.push(err());
                break;
            }
        }
    }
    json!(v)
}
pub fn pages_streaming<D: FallibleStreamingIterator<Item = Page, Error = Error>>(mut d: D) -> Value {
    let mut v = vec![];
    loop {
        match d.next() {
            Ok(Some(p)) => v.push(page_json(p)),
            Ok(None) => break,
            Err(_) => {
                v.push(err());
                break;
            }
        }
    }
    json!(v)
}
pub fn or_err(r: Result<Value, Error>) -> Value {
    r.unwrap_or_else(|_| json!([err()]))
}

fn all() -> PageFilter {
    Arc::new(|_, _| true)
}

pub fn index_json(i: &dyn Index) -> Value {
    use parquet2::schema::types::PhysicalType as P;
    macro_rules! nat {
        ($t:ty, $f:expr) => {{
            let x = i.as_any().downcast_ref::<NativeIndex<$t>>().unwrap();
            (x.boundary_order, x.indexes.iter().map(|p| json!({"min": opt_json(p.min, $f), "max": opt_json(p.max, $f), "nc": opt_json(p.null_count, num_json)})).collect::<Vec<_>>())
        }};
    }
    let (o, pages) = match i.physical_type() {
        P::Boolean => {
            let x = i.as_any().downcast_ref::<BooleanIndex>().unwrap();
            (x.boundary_order, x.indexes.iter().map(|p| json!({"min": opt_json(p.min, |x| json!([x as u8])), "max": opt_json(p.max, |x| json!([x as u8])), "nc": opt_json(p.null_count, num_json)})).collect())
        }
        P::Int32 => nat!(i32, |x: i32| json!(x.to_le_bytes())),
        P::Int64 => nat!(i64, |x: i64| json!(x.to_le_bytes())),
        P::Float => nat!(f32, |x: f32| json!(x.to_le_bytes())),
        P::Double => nat!(f64, |x: f64| json!(x.to_le_bytes())),
        P::Int96 => nat!([u32; 3], |x: [u32; 3]| json!(x.iter().flat_map(|y| y.to_le_bytes()).collect::<Vec<u8>>())),
        P::ByteArray => {
            let x = i.as_any().downcast_ref::<ByteIndex>().unwrap();
            (x.boundary_order, x.indexes.iter().map(|p| json!({"min": opt_json(p.min.as_ref(), |x| json!(x)), "max": opt_json(p.max.as_ref(), |x| json!(x)), "nc": opt_json(p.null_count, num_json)})).collect())
        }
        P::FixedLenByteArray(_) => {
            let x = i.as_any().downcast_ref::<FixedLenByteIndex>().unwrap();
            (x.boundary_order, x.indexes.iter().map(|p| json!({"min": opt_json(p.min.as_ref(), |x| json!(x)), "max": opt_json(p.max.as_ref(), |x| json!(x)), "nc": opt_json(p.null_count, num_json)})).collect())
        }
    };
    let ph = schema::phys_code(*i.physical_type());
    json!({"k": ph.0, "len": ph.1, "order": t::BoundaryOrder::from(o).0, "pages": pages})
}
/// of an offset, -1 if it is not near
fn num_or_minus(x: i64) -> i64 {
    if x.abs() < 1 << 31 { x } else { -1 }
}
pub fn loc_json(l: &PageLocation, base: u64) -> Value {
    json!([num_or_minus(l.offset - base as i64), l.compressed_page_size, l.first_row_index])
}

/// opts: sizes (splits of reads), order (permutation of the columns), selections for the index reads
pub fn read_back(b: &[u8], v: &Value) -> Value {
    let mut r = read_at(b, v, 0);
    let base = far(v);
    if base > 0 && r.get("rgs").is_some() {
        // the same file behind a hole, its offsets adjusted
        let m = read_metadata(&mut Src::new(b, &[], false)).unwrap();
        let (m, end) = shifted(m, base, b);
        let meta = thrift_bytes(&m.into_thrift());
        let mut f = [b, &end, &meta].concat();
        f.extend_from_slice(&(meta.len() as u32).to_le_bytes());
        f.extend_from_slice(b"PAR1");
        r["far"] = read_at(&f, v, base);
    }
    r
}

/// the metadata of a file moved by that many bytes, and its offset indexes, to lie at the end of the data
pub fn shifted(m: FileMetaData, base: u64, data: &[u8]) -> (FileMetaData, Vec<u8>) {
    use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
    let d = base as i64;
    let mut end = vec![];
    let mut m = m.into_thrift();
    for g in &mut m.row_groups {
        g.file_offset = g.file_offset.map(|x| x + d);
        for c in &mut g.columns {
            c.file_offset += d;
            if let Some(x) = &mut c.meta_data {
                x.data_page_offset += d;
                x.dictionary_page_offset = x.dictionary_page_offset.map(|x| x + d);
                x.index_page_offset = x.index_page_offset.map(|x| x + d);
                x.bloom_filter_offset = x.bloom_filter_offset.map(|x| x + d);
            }
            c.column_index_offset = c.column_index_offset.map(|x| x + d);
            if let Some(at) = c.offset_index_offset {
                let mut b = &data[at as usize..];
                let mut ix = t::OffsetIndex::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut b, usize::MAX)).unwrap();
                for l in &mut ix.page_locations {
                    l.offset += d;
                }
                let mut b = vec![];
                ix.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).unwrap();
                c.offset_index_offset = Some(d + (data.len() + end.len()) as i64);
                c.offset_index_length = Some(b.len() as i32);
                end.extend(b);
            }
        }
    }
    (FileMetaData::try_from_thrift(m).unwrap(), end)
}

fn read_at(b: &[u8], v: &Value, base: u64) -> Value {
    let sizes: Vec<usize> = v.get("sizes").map(|x| arr(x).iter().map(us).collect()).unwrap_or_default();
    let src = |pend: bool| Src::new(b, &sizes, pend).far(base);
    let mut s = src(false);
    s.pos = base + v.get("pos").map(us).unwrap_or(0) as u64;
    let m = match read_metadata(&mut s) {
        Ok(m) => m,
        Err(_) => return err(),
    };
    let am = futures::executor::block_on(read_metadata_async(&mut src(true)));
    let mut rgs = vec![];
    // one reader shared by all the reads, whatever their order
    let mut shared = src(false);
    for g in &m.row_groups {
        let n = g.columns().len();
        let order: Vec<usize> = v.get("order").map(|x| arr(x).iter().map(us).collect()).unwrap_or_default();
        let mut cols = vec![json!({}); n];
        let order: Vec<usize> = if order.is_empty() { (0..n).collect() } else { order.iter().map(|x| x % n.max(1)).collect() };
        let mut seen = vec![false; n];
        let full: Vec<usize> = order.into_iter().chain(0..n).filter(|i| *i < n && !std::mem::replace(&mut seen[*i], true)).collect();
        for i in full {
            let c = &g.columns()[i];
            let iter = or_err(get_page_iterator(c, &mut shared, None, vec![1, 2, 3], usize::MAX >> 1).map(|it| pages_streaming(Decompressor::new(it, vec![9; 5]))));
            let col = or_err(read_column(&mut shared, c).map(|chunk| {
                let r = PageReader::new(std::io::Cursor::new(chunk), c, all(), vec![], usize::MAX >> 1);
                pages_streaming(BasicDecompressor::new(r, vec![7; 3]))
            }));
            let idx = or_err((|| {
                let l = read_pages_locations(&mut shared, &g.columns()[i..=i])?;
                if l.is_empty() {
                    return Ok(json!([{"noindex": true}]));
                }
                let fp = select_pages(&[Interval::new(0, g.num_rows())], &l[0], g.num_rows())?;
                Ok(pages_fresh(IndexedPageReader::new(&mut shared, c, fp, vec![], vec![])))
            })());
            // rows selected through the page index, both through the streaming and the plain decompression
            let selected = |stream: bool, shared: &mut Src| -> Value {
                let Some(ivs) = v.get("ivs") else { return json!([]) };
                or_err((|| {
                    let l = read_pages_locations(&mut *shared, &g.columns()[i..=i])?;
                    if l.is_empty() {
                        return Ok(json!([{"noindex": true}]));
                    }
                    let fp = select_pages(&crate::chunk::intervals(ivs), &l[0], g.num_rows())?;
                    let it = IndexedPageReader::new(&mut *shared, c, fp, vec![4; 3], vec![8; 70]);
                    let with = |p: &Page| json!({"p": page_json(p), "sel": match p { Page::Data(d) => sel_json(d.selected_rows()), Page::Dict(_) => json!([]) }});
                    let mut out = vec![];
                    if stream {
                        let mut d = Decompressor::new(ReuseNone(it), vec![1; 40]);
                        while let Some(p) = d.next()? {
                            out.push(with(p));
                        }
                    } else {
                        for p in it {
                            out.push(with(&decompress(p?, &mut vec![1, 2])?));
                        }
                    }
                    Ok(json!(out))
                })())
            };
            let sel = json!([selected(false, &mut shared), selected(true, &mut shared)]);
            let mut a = src(true);
            let asy = or_err(futures::executor::block_on(async {
                let st = get_page_stream(c, &mut a, vec![5; 9], all(), usize::MAX >> 1).await?;
                let ps = st.collect::<Vec<_>>().await;
                Ok(pages_fresh(ps.into_iter()))
            }));
            let mut a = src(true);
            a.pos = c.byte_range().0;
            let ast = or_err(futures::executor::block_on(async {
                let st = get_page_stream_from_column_start(c, &mut a, vec![], all(), usize::MAX >> 1).await?;
                let ps = st.collect::<Vec<_>>().await;
                Ok(pages_fresh(ps.into_iter()))
            }));
            let raw = read_column(&mut shared, c);
            let araw = futures::executor::block_on(read_column_async(|| { let s = src(true); Box::pin(async move { Ok(s) }) }, c));
            cols[i] = json!({"sel": sel, "iter": iter, "col": col, "idx": idx, "asy": asy, "ast": ast,
                "araw": match (raw, araw) { (Ok(x), Ok(y)) => json!(x == y), (Err(_), Err(_)) => json!(true), _ => json!(false) },
                "rawlen": read_column(&mut shared, c).map(|x| x.len()).unwrap_or(0)});
        }
        // index reads of selections of the group's chunks
        let mut sels = vec![];
        for s in v.get("sels").map(|x| arr(x).clone()).unwrap_or_default() {
            // positions in the selection whose chunks are stripped of their indexes
            let strip: Vec<usize> = arr(&s["strip"]).iter().map(us).collect();
            let ix: Vec<usize> = if n == 0 { vec![] } else { arr(&s["ix"]).iter().map(|x| us(x) % n).collect() };
            let ch: Vec<ColumnChunkMetaData> = ix.iter().enumerate().map(|(k, i)| {
                let c = &g.columns()[*i];
                let mut t = c.column_chunk().clone();
                if strip.contains(&k) {
                    t.offset_index_offset = None;
                    t.offset_index_length = None;
                    t.column_index_offset = None;
                    t.column_index_length = None;
                }
                ColumnChunkMetaData::new(t, c.descriptor().clone())
            }).collect();
            sels.push(json!({
                "ix": ix,
                "stripped": strip.iter().any(|k| *k < ix.len()),
                "loc": match read_pages_locations(&mut shared, &ch) {
                    Ok(l) => json!({"ok": l.iter().map(|x| x.iter().map(|y| loc_json(y, base)).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                    Err(_) => err() },
                "idx": match read_columns_indexes(&mut shared, &ch) {
                    Ok(l) => json!({"ok": l.iter().map(|x| index_json(&**x)).collect::<Vec<_>>()}),
                    Err(_) => err() },
                // what was read twice, compared
                "eq": match (read_columns_indexes(&mut shared, &ch), read_columns_indexes(&mut shared, &ch)) {
                    (Ok(l), Ok(k)) => json!({"ok": l.iter().map(|x| k.iter().map(|y| **x == **y).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                    _ => err() }
            }))
        }
        rgs.push(json!({"cols": cols, "sels": sels}));
    }
    let mj = meta_json_at(&m, base);
    json!({"meta": mj, "asame": am.map(|x| meta_json_at(&x, base) == mj).unwrap_or(false), "rgs": rgs})
}

/// a page iterator that does not take buffers back
struct ReuseNone<I>(I);
impl<I: Iterator<Item = Result<CompressedPage, Error>>> Iterator for ReuseNone<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
impl<I: Iterator<Item = Result<CompressedPage, Error>>> PageIterator for ReuseNone<I> {
    fn swap_buffer(&mut self, _: &mut Vec<u8>) {}
}
