//! Reading pages of one column chunk given as raw bytes: the sync reader, the async streams, the indexed reader.
use crate::file::*;
use crate::io::*;
use crate::util::*;
use futures::StreamExt;
use parquet2::compression::Compression;
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::page::*;
use parquet2::read::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "chunk" => chunk,
        "indexed" => indexed,
        "select" => select,
        _ => return None,
    })
}

/// All there is to see of a page: its header and, by writing it to a scratch file, its raw body and sizes.
pub fn compressed_json(p: CompressedPage) -> Value {
    use parquet2::write::*;
    let mut v = match &p {
        CompressedPage::Data(d) => {
            let mut v = header_json(d.header(), json!([]));
            v["sel"] = sel_json(d.selected_rows());
            v
        }
        CompressedPage::Dict(d) => json!({"k": 2, "sorted": d.is_sorted}),
    };
    let codec = match &p {
        CompressedPage::Data(d) => d.compression(),
        CompressedPage::Dict(d) => d.compression(),
    };
    let mut out = vec![];
    let sd = parquet2::metadata::SchemaDescriptor::new("s".into(), vec![parquet2::schema::types::ParquetType::PrimitiveType(descriptor().primitive_type)]);
    let mut w = FileWriter::new(&mut out, sd, WriteOptions { write_statistics: false, version: Version::V1 }, None);
    let pages: DynStreamingIterator<'static, CompressedPage, Error> = DynStreamingIterator::new(RawPages(vec![Ok(p)].into_iter(), None));
    let _ = w.write(DynIter::new(std::iter::once(Ok::<_, Error>(pages))));
    let mut c = std::io::Cursor::new(&out[4..]);
    let mut prot = parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(&mut c, usize::MAX);
    let h = parquet_format_safe::PageHeader::read_from_in_protocol(&mut prot).unwrap();
    let at = 4 + c.position() as usize;
    v["body"] = json!(out[at..at + h.compressed_page_size as usize]);
    v["us"] = json!(h.uncompressed_page_size);
    v["codec"] = json!(parquet_format_safe::CompressionCodec::from(codec).0);
    if let Some(d) = h.dictionary_page_header {
        v["n"] = json!(d.num_values)
    }
    v
}

fn descriptor() -> Descriptor {
    Descriptor {
        primitive_type: parquet2::schema::types::PrimitiveType::from_physical("x".into(), parquet2::schema::types::PhysicalType::Int32),
        max_def_level: 1,
        max_rep_level: 0,
    }
}
use parquet2::metadata::Descriptor;

fn meta(v: &Value, start: u64) -> PageMetaData {
    let c: Compression = parquet_format_safe::CompressionCodec(i64_(&v["codec"]) as i32).try_into().unwrap();
    PageMetaData::new(start, num(&v["total"]), c, descriptor())
}
/// answers of the filter, call by call (cyclic), and the headers it saw
fn filter(v: &Value, log: Arc<Mutex<Vec<Value>>>) -> PageFilter {
    let answers: Vec<bool> = arr(&v["filter"]).iter().map(|x| x.as_bool().unwrap()).collect();
    Arc::new(move |d, h| {
        let mut l = log.lock().unwrap();
        assert!(d.max_def_level == 1);
        l.push(header_json(h, json!([])));
        answers.is_empty() || answers[(l.len() - 1) % answers.len()]
    })
}
fn ev(r: Result<CompressedPage, Error>) -> Value {
    r.map(compressed_json).unwrap_or_else(|_| err())
}

fn chunk(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let sizes: Vec<usize> = arr(&v["sizes"]).iter().map(us).collect();
    let base = far(v);
    let start = base + us(&v["pos"]) as u64;
    let max = num(&v["max"]) as usize;
    let cap = 3000;
    let mut src = Src::new(&b, &sizes, false).far(base);
    src.pos = start;
    let log = Arc::new(Mutex::new(vec![]));
    let mut it = PageReader::new_with_page_meta(&mut src, meta(v, start), filter(v, log.clone()), bytes(&v["scratch"]), max);
    let mut events = vec![];
    // every page moves the scratch buffer out, as a caller that keeps the page would
    let mut big = 0;
    loop {
        let (x, n) = largest(|| it.next());
        big = big.max(n);
        match x {
            Some(x) => events.push(ev(x)),
            None => break,
        }
        if us(&v["swap"]) == 1 {
            let mut s = vec![9, 9, 9];
            it.swap_buffer(&mut s)
        }
        if events.len() > cap {
            break;
        }
    }
    let mut after = vec![];
    for _ in 0..2 {
        after.push(it.next().map(ev).map(|x| json!([x])).unwrap_or(json!([])));
    }
    drop(it);
    let sync = json!({"events": events, "after": after, "pos": src.at(), "filt": *log.lock().unwrap(), "big": big});

    let run = |seek: bool, pos: u64| {
        let mut src = Src::new(&b, &sizes, true).far(base);
        src.pos = pos;
        let log = Arc::new(Mutex::new(vec![]));
        let f = filter(v, log.clone());
        let (events, big): (Vec<Value>, usize) = largest(|| futures::executor::block_on(async {
            let mut t = parquet_format_safe::ColumnChunk { file_path: None, file_offset: 0, meta_data: None, offset_index_offset: None,
                offset_index_length: None, column_index_offset: None, column_index_length: None, crypto_metadata: None, encrypted_column_metadata: None };
            let m = meta(v, start);
            t.meta_data = Some(parquet_format_safe::ColumnMetaData { type_: parquet_format_safe::Type::INT32, encodings: vec![], path_in_schema: vec![],
                codec: m.compression.into(), num_values: m.num_values, total_uncompressed_size: 0, total_compressed_size: 0, key_value_metadata: None,
                data_page_offset: start as i64, index_page_offset: None, dictionary_page_offset: None, statistics: None, encoding_stats: None, bloom_filter_offset: None });
            let d = parquet2::metadata::ColumnDescriptor::new(descriptor(), vec!["x".into()], parquet2::schema::types::ParquetType::PrimitiveType(descriptor().primitive_type));
            let c = parquet2::metadata::ColumnChunkMetaData::new(t, d);
            macro_rules! all {
                ($e:expr) => {
                    match $e.await {
                        Ok(s) => s.take(cap).map(ev).collect::<Vec<_>>().await,
                        Err(_) => vec![err()],
                    }
                };
            }
            if seek {
                all!(get_page_stream(&c, &mut src, bytes(&v["scratch"]), f, max))
            } else {
                all!(get_page_stream_from_column_start(&c, &mut src, bytes(&v["scratch"]), f, max))
            }
        }));
        let l = log.lock().unwrap().clone();
        json!({"events": events, "pos": src.at(), "filt": l, "big": big})
    };
    json!({"sync": sync, "seek": run(true, 1), "here": run(false, start)})
}

// ------------------------------------------------------------------ page index
pub fn intervals(v: &Value) -> Vec<Interval> {
    arr(v).iter().map(|x| Interval::new(us(&x[0]), us(&x[1]))).collect()
}
pub fn locations(v: &Value) -> Vec<parquet_format_safe::PageLocation> {
    arr(v)
        .iter()
        .map(|x| parquet_format_safe::PageLocation {
            offset: num(&x[0]),
            compressed_page_size: i64_(&x[1]) as i32,
            first_row_index: num(&x[2]),
        })
        .collect()
}
fn filtered_json(p: &FilteredPage) -> Value {
    json!({"start": p.start, "len": p.length, "sel": p.selected_rows.iter().map(|i| json!([i.start, i.length])).collect::<Vec<_>>(), "n": p.num_rows})
}
fn select(v: &Value) -> Value {
    // rows and bytes numbered from afar
    let up = if v["up"].is_null() { 0 } else { us(&v["up"]) << 31 };
    let mut l = locations(&v["locs"]);
    let n = up + us(&v["rows"]);
    let mut ivs = intervals(&v["ivs"]);
    if up > 0 {
        for x in l.iter_mut() {
            x.offset += up as i64;
            x.first_row_index += up as i64;
        }
        for x in ivs.iter_mut() {
            x.start += up;
        }
    }
    let s = match select_pages(&ivs, &l, n) {
        Ok(mut p) => {
            for x in p.iter_mut().filter(|_| up > 0) {
                let d = x.start.wrapping_sub(up as u64);
                x.start = if d < 1 << 31 { d } else { (1 << 31) - 1 };
            }
            json!({"ok": p.iter().map(filtered_json).collect::<Vec<_>>()})
        }
        Err(_) => err(),
    };
    let sel: Vec<bool> = arr(&v["pages"]).iter().map(|x| x.as_bool().unwrap()).collect();
    let r = match compute_rows(&sel, &l, n) {
        Ok(mut p) => {
            for x in p.iter_mut().filter(|_| up > 0) {
                // what is not from afar is out of every range
                x.start = if x.start >= up && x.start - up < 1 << 31 { x.start - up } else { (1 << 31) - 1 };
            }
            json!({"ok": sel_json(Some(&p))[0]})
        }
        Err(_) => err(),
    };
    json!({"select": s, "rows": r})
}
fn indexed(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let sizes: Vec<usize> = arr(&v["sizes"]).iter().map(us).collect();
    let base = far(v);
    let src = Src::new(&b, &sizes, false).far(base);
    let pages: Vec<FilteredPage> = arr(&v["pages"])
        .iter()
        .map(|p| FilteredPage { start: base + us(&p["start"]) as u64, length: us(&p["len"]), selected_rows: intervals(&p["sel"]), num_rows: us(&p["n"]) })
        .collect();
    let mut it = IndexedPageReader::new_with_page_meta(src, meta(v, base + us(&v["start"]) as u64), pages, bytes(&v["scratch"]), bytes(&v["scratch"]));
    let mut events = vec![];
    for x in it.by_ref() {
        events.push(ev(x));
        if events.len() > 3000 {
            break;
        }
    }
    json!({"events": events, "after": it.next().map(ev).map(|x| json!([x])).unwrap_or(json!([]))})
}
