//! Reading a byte string through every stage, whatever it holds.
use crate::chunk::compressed_json;
use crate::io::Src;
use crate::file::{index_json, num_json, opt_json, stats_json};
use crate::util::*;
use futures::StreamExt;
use parquet2::error::Error;
use parquet2::indexes::{select_pages, Interval};
use parquet2::page::{CompressedPage, Page};
use parquet2::read::*;
use parquet2::schema::types::PhysicalType;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "damage" => damage,
        _ => return None,
    })
}
fn ok_or_err<T>(r: Result<T, Error>) -> Value {
    json!(if r.is_ok() { "ok" } else { "err" })
}
const MAX: usize = 1 << 20;

/// what becomes of a page: decompressed, split, decoded, its statistics read
fn consume(p: CompressedPage, us: usize, dict: &mut Option<Vec<Vec<u8>>>) -> Value {
    let n = match &p {
        CompressedPage::Data(d) => d.uncompressed_size(),
        CompressedPage::Dict(_) => us,
    };
    if n > MAX {
        return json!(["large"]);
    }
    let st = match &p {
        CompressedPage::Data(d) => match d.statistics() {
            None => json!("none"),
            Some(s) => ok_or_err(s),
        },
        _ => json!("none"),
    };
    let p = match decompress(p, &mut vec![]) {
        Ok(p) => p,
        Err(_) => return json!([st, "undec"]),
    };
    match p {
        Page::Dict(d) => {
            *dict = Some(vec![d.buffer.clone(); d.num_values.min(1000)]);
            json!([st, "dict"])
        }
        Page::Data(d) => {
            if d.num_values() > 5000 {
                return json!([st, "many"]);
            }
            let split = ok_or_err(parquet2::page::split_buffer(&d));
            let rows = match crate::body::rows_of(crate::body::type_name(&d.descriptor.primitive_type.physical_type), &d, dict) {
                Ok((r, _)) => json!(r.len()),
                Err(_) => json!(-1),
            };
            json!([st, split, rows])
        }
    }
}
fn pages<I: Iterator<Item = Result<CompressedPage, Error>>>(it: I) -> Value {
    let mut ev = vec![];
    for p in it.take(10000) {
        match p {
            Ok(p) => ev.push(compressed_json(p)),
            Err(_) => {
                ev.push(err());
                break;
            }
        }
    }
    json!(ev)
}
fn uses<I: Iterator<Item = Result<CompressedPage, Error>>>(it: I, seen: &Value) -> Value {
    let mut out = vec![];
    let mut dict = None;
    for (i, p) in it.take(10000).enumerate() {
        match p {
            Ok(p) => out.push(consume(p, seen[i]["us"].as_u64().unwrap_or(0) as usize, &mut dict)),
            Err(_) => {
                out.push(json!(["error"]));
                break;
            }
        }
    }
    json!(out)
}
fn damage(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let sizes: Vec<usize> = arr(&v["sizes"]).iter().map(us).collect();
    let src = |pend: bool| Src::new(&b, &sizes, pend);
    let m = read_metadata(&mut src(false));
    let am = futures::executor::block_on(read_metadata_async(&mut src(true)));
    let agree = m.is_ok() == am.is_ok();
    let m = match m {
        Ok(m) => m,
        Err(_) => return json!({"open": false, "agree": agree}),
    };
    let mut cols = vec![];
    for g in m.row_groups.iter().take(50) {
        for c in g.columns().iter().take(50) {
            let mut ct = c.column_chunk().clone();
            if let (Some(o), Some(md)) = (arr(&v["bloom"]).first().map(i64_), ct.meta_data.as_mut()) {
                md.bloom_filter_offset = Some(o);
            }
            let c = &parquet2::metadata::ColumnChunkMetaData::new(ct, c.descriptor().clone());
            let all = || -> PageFilter { Arc::new(|_, _| true) };
            let stats = match c.statistics() {
                None => json!("none"),
                Some(s) => ok_or_err(s),
            };
            let meta = PageMetaData::from(c);
            let meta_start = meta.column_start;
            let mut s = src(false);
            let direct = get_page_iterator(c, &mut s, None, vec![1, 2, 3], MAX).map(pages).unwrap_or_else(|_| json!([err()]));
            let used = get_page_iterator(c, &mut s, None, vec![], MAX).map(|it| uses(it, &direct)).unwrap_or_else(|_| json!([["error"]]));
            let read = match read_column(&mut src(false), c) {
                Ok(x) => {
                    let n = x.len();
                    (json!(n), pages(PageReader::new(std::io::Cursor::new(x), c, all(), vec![], MAX)))
                }
                Err(_) => (json!(-1), json!([err()])),
            };
            let mut a = src(true);
            let asy = match futures::executor::block_on(async {
                let st = get_page_stream(c, &mut a, vec![5; 9], all(), MAX).await?;
                Ok::<_, Error>(st.take(10001).collect::<Vec<_>>().await)
            }) {
                Ok(x) => pages(x.into_iter()),
                Err(_) => json!([err()]),
            };
            let one = std::slice::from_ref(c);
            let ix = read_columns_indexes(&mut src(false), one);
            let locs = read_pages_locations(&mut src(false), one);
            let mut idx = json!([]);
            if let Ok(l) = &locs {
                if let Some(l) = l.first() {
                    let n = g.num_rows();
                    let ivs = if n > 2 { vec![Interval::new(0, 1), Interval::new(n / 2, n - n / 2)] } else { vec![Interval::new(0, n)] };
                    idx = match select_pages(&ivs, l, n) {
                        // the caller knows the lengths it asks for
                        Ok(fp) if fp.iter().all(|p| p.length <= MAX) => json!(["ok", uses(IndexedPageReader::new(src(false), c, fp, vec![], vec![]), &json!([]))]),
                        Ok(_) => json!(["large"]),
                        Err(_) => json!(["err"]),
                    }
                }
            }
            let mut bits = vec![];
            let bloom = ok_or_err(parquet2::bloom_filter::read(c, &mut src(false), &mut bits));
            let d = &c.descriptor().descriptor;
            let cc = c.column_chunk();
            let size = match d.primitive_type.physical_type {
                PhysicalType::FixedLenByteArray(n) => n,
                _ => 0,
            };
            let place = |o: Option<i64>, l: Option<i32>| json!([opt_json(o, num_json), opt_json(l, |x| json!(x))]);
            cols.push(json!({
                "start": num_json(meta_start as i64), "size": num_json(c.compressed_size()), "total": num_json(meta.num_values),
                "codec": parquet_format_safe::CompressionCodec::from(c.compression()).0,
                "ty": crate::body::type_name(&d.primitive_type.physical_type), "len": size, "maxdef": d.max_def_level, "maxrep": d.max_rep_level,
                "opt": d.primitive_type.field_info.repetition == parquet2::schema::Repetition::Optional,
                "stats": stats, "st": c.metadata().statistics.as_ref().map(|x| json!([stats_json(x)])).unwrap_or(json!([])),
                "asame": direct == asy, "direct": direct, "use": used, "chunk": read.0, "read": read.1,
                "ixat": place(cc.column_index_offset, cc.column_index_length), "locat": place(cc.offset_index_offset, cc.offset_index_length),
                "ix": match &ix { Ok(l) => json!({"ok": l.iter().map(|x| index_json(&**x)).collect::<Vec<_>>()}), Err(_) => err() },
                "locs": match &locs {
                    Ok(l) => json!({"ok": l.iter().map(|x| x.iter().map(|y| json!([num_json(y.offset), y.compressed_page_size, num_json(y.first_row_index)])).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                    Err(_) => err() },
                "idx": idx, "bloomat": opt_json(c.metadata().bloom_filter_offset, num_json), "bloom": bloom, "bits": bits,
            }))
        }
    }
    json!({"open": true, "agree": agree, "cols": cols})
}
