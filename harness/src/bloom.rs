use crate::io::Src;
use crate::util::*;
use parquet2::bloom_filter::{hash_byte, hash_native, insert, is_in_set, read};
use parquet2::metadata::{ColumnChunkMetaData, ColumnDescriptor, Descriptor};
use parquet2::schema::types::{ParquetType, PhysicalType, PrimitiveType};
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "bloom_hist" => hist,
        "bloom_use" => use_,
        "bloom_hash" => hash,
        "bloom_read" => read_,
        _ => return None,
    })
}
fn bits(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    for (i, x) in b.iter().enumerate() {
        for j in 0..8 {
            if x >> j & 1 == 1 {
                v.push(8 * i + j)
            }
        }
    }
    v
}
/// {n, hashes, hist}
fn hist(v: &Value) -> Value {
    let mut b = vec![0; 32 * us(&v["n"])];
    let hs: Vec<u64> = arr(&v["hashes"]).iter().map(le64).collect();
    Value::Array(
        arr(&v["hist"])
            .iter()
            .map(|k| {
                insert(&mut b, hs[us(k) - 1]);
                json!({"set": bits(&b), "yes": hs.iter().map(|h| is_in_set(&b, *h)).collect::<Vec<_>>()})
            })
            .collect(),
    )
}
/// {n, pre: bit positions, ops}
fn use_(v: &Value) -> Value {
    let mut b = vec![0u8; 32 * us(&v["n"])];
    for p in arr(&v["pre"]) {
        b[us(p) / 8] |= 1 << (us(p) % 8)
    }
    let mut res = vec![];
    for op in arr(&v["ops"]) {
        let h = le64(&op[1]);
        if st(&op[0]) == "in" {
            let old = b.clone();
            insert(&mut b, h);
            let diff = |a: &[u8], b: &[u8]| {
                let mut v = vec![];
                for i in 0..a.len() {
                    if a[i] & !b[i] != 0 {
                        v.extend((0..8).filter(|j| (a[i] & !b[i]) >> j & 1 == 1).map(|j| 8 * i + j))
                    }
                }
                v
            };
            res.push(json!({"new": diff(&b, &old), "lost": diff(&old, &b)}))
        } else {
            res.push(json!({"yes": is_in_set(&b, h)}))
        }
    }
    json!({ "res": res })
}
/// {ty, v}
fn hash(v: &Value) -> Value {
    let b = bytes(&v["v"]);
    macro_rules! n {
        ($t:ty) => {
            hash_native(<$t>::from_le_bytes(b[..].try_into().unwrap()))
        };
    }
    let h = match st(&v["ty"]) {
        "i32" => n!(i32),
        "i64" => n!(i64),
        "f32" => n!(f32),
        "f64" => n!(f64),
        "i96" => {
            let w: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            hash_native([w[0], w[1], w[2]])
        }
        "vec" => hash_byte(b),
        _ => hash_byte(&b[..]),
    };
    json!({"h": h.to_le_bytes().to_vec()})
}
/// {far, file, at: [] or [offset], old: bytes already in the buffer, sizes}
fn read_(v: &Value) -> Value {
    use parquet_format_safe as t;
    let at = arr(&v["at"]).first().map(|x| far(v) as i64 + x.as_i64().unwrap());
    let th = t::ColumnChunk {
        file_path: None,
        file_offset: 0,
        meta_data: Some(t::ColumnMetaData {
            type_: t::Type::INT32,
            encodings: vec![],
            path_in_schema: vec![],
            codec: t::CompressionCodec::UNCOMPRESSED,
            num_values: 0,
            total_uncompressed_size: 0,
            total_compressed_size: 0,
            key_value_metadata: None,
            data_page_offset: 0,
            index_page_offset: None,
            dictionary_page_offset: None,
            statistics: None,
            encoding_stats: None,
            bloom_filter_offset: at,
        }),
        offset_index_offset: None,
        offset_index_length: None,
        column_index_offset: None,
        column_index_length: None,
        crypto_metadata: None,
        encrypted_column_metadata: None,
    };
    let p = PrimitiveType::from_physical("x".to_string(), PhysicalType::Int32);
    let d = ColumnDescriptor::new(
        Descriptor { primitive_type: p.clone(), max_def_level: 0, max_rep_level: 0 },
        vec!["x".into()],
        ParquetType::PrimitiveType(p),
    );
    let c = ColumnChunkMetaData::new(th, d);
    let mut src = Src::new(&bytes(&v["file"]), &arr(&v["sizes"]).iter().map(us).collect::<Vec<_>>(), false).far(far(v));
    let mut out = bytes(&v["old"]);
    match read(&c, &mut src, &mut out) {
        Ok(()) => json!({"bits": out}),
        Err(_) => err(),
    }
}
