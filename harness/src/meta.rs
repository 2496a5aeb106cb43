//! Schemas and file metadata: flat form, trees, leaves, type constraints.
use crate::file::{leaves_json, num_json, opt, opt_json, schema_json, schema_of, thrift_bytes};
use crate::schema;
use crate::util::*;
use parquet2::metadata::*;
use parquet2::compression::Compression;
use parquet2::encoding::Encoding;
use parquet2::page::PageType;
use parquet2::read::{filter_row_groups, read_metadata};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::write::write_metadata_sidecar;
use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
use parquet_format_safe as t;
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "flat" => flat,
        "tree" => tree,
        "prim" => prim,
        "message" => message,
        "remeta" => remeta,
        "codes" => codes,
        "sort" => sort,
        "contains" => contains,
        _ => return None,
    })
}

fn i32_(v: &Value) -> i32 {
    i64_(v) as i32
}
fn unit(v: &Value) -> t::TimeUnit {
    match st(v) {
        "ms" => t::TimeUnit::MILLIS(t::MilliSeconds {}),
        "us" => t::TimeUnit::MICROS(t::MicroSeconds {}),
        _ => t::TimeUnit::NANOS(t::NanoSeconds {}),
    }
}
/// ["DECIMAL", precision, scale], ["TIME", unit, utc], ["INTEGER", width, signed], [name]
pub fn logical(v: &Value) -> t::LogicalType {
    use t::LogicalType::*;
    let a = arr(v);
    match st(&a[0]) {
        "STRING" => STRING(t::StringType {}),
        "MAP" => MAP(t::MapType {}),
        "LIST" => LIST(t::ListType {}),
        "ENUM" => ENUM(t::EnumType {}),
        "DECIMAL" => DECIMAL(t::DecimalType { precision: i32_(&a[1]), scale: i32_(&a[2]) }),
        "DATE" => DATE(t::DateType {}),
        "TIME" => TIME(t::TimeType { unit: unit(&a[1]), is_adjusted_to_u_t_c: a[2].as_bool().unwrap() }),
        "TIMESTAMP" => TIMESTAMP(t::TimestampType { unit: unit(&a[1]), is_adjusted_to_u_t_c: a[2].as_bool().unwrap() }),
        "INTEGER" => INTEGER(t::IntType { bit_width: i64_(&a[1]) as i8, is_signed: a[2].as_bool().unwrap() }),
        "UNKNOWN" => UNKNOWN(t::NullType {}),
        "JSON" => JSON(t::JsonType {}),
        "BSON" => BSON(t::BsonType {}),
        "UUID" => UUID(t::UUIDType {}),
        _ => panic!("harness: logical type"),
    }
}
fn element(v: &Value) -> t::SchemaElement {
    t::SchemaElement {
        type_: opt(&v["ty"], |x| t::Type(i32_(x))),
        type_length: opt(&v["len"], i32_),
        repetition_type: opt(&v["r"], |x| t::FieldRepetitionType(i32_(x))),
        name: schema::string(&v["n"]),
        num_children: opt(&v["nc"], i32_),
        converted_type: opt(&v["c"], |x| t::ConvertedType(i32_(x))),
        scale: opt(&v["scale"], i32_),
        precision: opt(&v["prec"], i32_),
        field_id: opt(&v["id"], i32_),
        logical_type: (!arr(&v["l"]).is_empty()).then(|| logical(&v["l"])),
    }
}
fn flat(v: &Value) -> Value {
    let m = t::FileMetaData {
        version: 1,
        schema: arr(&v["el"]).iter().map(element).collect(),
        num_rows: 0,
        row_groups: vec![],
        key_value_metadata: None,
        created_by: None,
        column_orders: None,
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    };
    match FileMetaData::try_from_thrift(m) {
        Ok(m) => whole(v, m.schema()),
        Err(_) => err(),
    }
}
/// a schema and its leaves; where `only` is asked for, what does not nest
fn whole(v: &Value, s: &parquet2::metadata::SchemaDescriptor) -> Value {
    if v["only"].is_null() {
        return json!({"schema": schema_json(s), "cols": leaves_json(s)});
    }
    let mut cols = leaves_json(s);
    for c in cols.as_array_mut().unwrap() {
        c.as_object_mut().unwrap().remove("base");
    }
    json!({"cols": cols, "n": s.name().as_bytes()})
}
fn tree(v: &Value) -> Value {
    let s = schema_of(&v["schema"]);
    let (tree, cols) = (schema_json(&s), leaves_json(&s));
    let m = FileMetaData { version: 1, num_rows: 0, created_by: None, row_groups: vec![], key_value_metadata: None, schema_descr: s, column_orders: None };
    let th = m.into_thrift();
    let bytes = thrift_bytes(&th);
    let back = match FileMetaData::try_from_thrift(th) {
        Ok(m) => json!({"schema": schema_json(m.schema()), "cols": leaves_json(m.schema())}),
        Err(_) => err(),
    };
    json!({"tree": tree, "cols": cols, "thrift": bytes, "back": back})
}
/// the constructor of leaves, for each of a list
fn prim(v: &Value) -> Value {
    json!(arr(&v["of"])
        .iter()
        .map(|x| {
            catch(|| match schema::node(x) {
                ParquetType::PrimitiveType(p) => match ParquetType::try_from_primitive(
                    p.field_info.name.clone(),
                    p.physical_type,
                    p.field_info.repetition,
                    p.converted_type,
                    p.logical_type,
                    p.field_info.id,
                ) {
                    Ok(t) => schema::node_json(&t),
                    Err(_) => err(),
                },
                _ => unreachable!(),
            })
        })
        .collect::<Vec<_>>())
}
fn contains(v: &Value) -> Value {
    json!({"c": schema::node(&v["a"]).check_contains(&schema::node(&v["b"]))})
}
fn message(v: &Value) -> Value {
    let text = schema::string(&v["text"]);
    match SchemaDescriptor::try_from_message(&text) {
        Ok(s) => whole(v, &s),
        Err(_) => err(),
    }
}

fn view(m: &FileMetaData) -> Value {
    let n = m.schema().columns().len();
    json!({
        "ver": m.version, "rows": num_json(m.num_rows as i64), "by": opt_json(m.created_by.as_ref(), |x| json!(x.as_bytes())),
        "kv": opt_json(m.key_value_metadata().as_ref(), |l| json!(l.iter().map(|x|
            json!([x.key.as_bytes(), opt_json(x.value.as_ref(), |y| json!(y.as_bytes()))])).collect::<Vec<_>>())),
        "schema": schema_json(m.schema()),
        "orders": (0..n + 2).map(|i| json!([
            matches!(m.column_order(i), ColumnOrder::TypeDefinedOrder(_)), format!("{:?}", m.column_order(i).sort_order())])).collect::<Vec<_>>(),
        "rgs": m.row_groups.iter().map(|g| json!({
            "rows": num_json(g.num_rows() as i64), "bytes": num_json(g.total_byte_size() as i64), "csize": num_json(g.compressed_size() as i64),
            "cols": g.columns().iter().map(|c| json!({
                "file": opt_json(c.file_path().as_ref(), |x| json!(x.as_bytes())), "fo": num_json(c.file_offset()), "codec": format!("{:?}", c.compression()),
                "nv": num_json(c.num_values()), "cs": num_json(c.compressed_size()), "us": num_json(c.uncompressed_size()),
                "dpo": num_json(c.data_page_offset()), "dict": opt_json(c.dictionary_page_offset(), num_json),
                "ipo": opt_json(c.index_page_offset(), num_json), "ip": c.has_index_page(),
                "encs": c.column_encoding().iter().map(|e| e.0).collect::<Vec<_>>(),
                "range": [num_json(c.byte_range().0 as i64), num_json(c.byte_range().1 as i64)],
                "ty": schema::phys_code(c.physical_type()).0,
                "path": c.descriptor().path_in_schema.iter().map(|x| json!(x.as_bytes())).collect::<Vec<_>>(),
            })).collect::<Vec<_>>()})).collect::<Vec<_>>()
    })
}
fn again<T: serde::Serialize + serde::de::DeserializeOwned>(x: T) -> T {
    serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap()
}
/// metadata from its stored form, and a history of operations on it
fn remeta(v: &Value) -> Value {
    let b = bytes(&v["meta"]);
    let mut c = std::io::Cursor::new(&b[..]);
    let th = match t::FileMetaData::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, usize::MAX)) {
        Ok(x) => x,
        Err(_) => return json!({"unread": true}),
    };
    let mut m = match FileMetaData::try_from_thrift(th) {
        Ok(m) => m,
        Err(_) => return err(),
    };
    let mut states = vec![json!({"thrift": thrift_bytes(&m.clone().into_thrift()), "view": view(&m)})];
    for op in arr(&v["ops"]) {
        let mut side = Value::Array(vec![]);
        match st(&op[0]) {
            "filter" => {
                let mask: Vec<bool> = arr(&op[1]).iter().map(|x| x.as_bool().unwrap()).collect();
                let seen = std::cell::RefCell::new(vec![]);
                m = filter_row_groups(&m, &|g, i| {
                    seen.borrow_mut().push(json!([i, num_json(g.num_rows() as i64)]));
                    mask[i % mask.len()]
                });
                side = json!(seen.into_inner());
            }
            "thrift" => match FileMetaData::try_from_thrift(m.into_thrift()) {
                Ok(x) => m = x,
                Err(_) => return json!({"states": states, "failed": "thrift"}),
            },
            "sidecar" => {
                let mut out = vec![];
                let n = match write_metadata_sidecar(&mut out, &m.clone().into_thrift()) {
                    Ok(n) => n,
                    Err(_) => return json!({"states": states, "failed": "write"}),
                };
                side = json!([n, out]);
                match read_metadata(&mut std::io::Cursor::new(&out)) {
                    Ok(x) => m = x,
                    Err(_) => return json!({"states": states, "failed": "read"}),
                }
            }
            _ => {
                m.schema_descr = again(m.schema_descr);
                m.row_groups = again(m.row_groups);
                m.column_orders = again(m.column_orders);
            }
        }
        states.push(json!({"thrift": thrift_bytes(&m.clone().into_thrift()), "view": view(&m), "side": side}));
    }
    json!({"states": states})
}

fn code<A: Copy, B: std::fmt::Debug + Copy, E>(x: i32, from: impl Fn(i32) -> A, to: impl Fn(A) -> Result<B, E>, back: impl Fn(B) -> i32) -> Value {
    match to(from(x)) {
        Ok(b) => json!([format!("{:?}", b), back(b)]),
        Err(_) => json!([]),
    }
}
/// what each stored code means, and the code it is stored as again
fn codes(v: &Value) -> Value {
    let x = i64_(&v["code"]) as i32;
    json!({
        "codec": code(x, t::CompressionCodec, Compression::try_from, |b| t::CompressionCodec::from(b).0),
        "encoding": code(x, t::Encoding, Encoding::try_from, |b| t::Encoding::from(b).0),
        "page": code(x, t::PageType, PageType::try_from, |b| t::PageType::from(b).0),
        "repetition": code(x, t::FieldRepetitionType, Repetition::try_from, |b| t::FieldRepetitionType::from(b).0),
        "type": code(x, t::Type, |y| PhysicalType::try_from((y, Some(9))), |b| { let (y, _): (t::Type, Option<i32>) = b.into(); y.0 }),
        "converted": code(x, t::ConvertedType, |y| PrimitiveConvertedType::try_from((y, Some((7, 3)))),
                          |b| { let (y, _): (t::ConvertedType, Option<(i32, i32)>) = b.into(); y.0 }),
        "group": code(x, t::ConvertedType, GroupConvertedType::try_from, |b| t::ConvertedType::from(b).0),
    })
}
fn sort(v: &Value) -> Value {
    json!(arr(&v["of"])
        .iter()
        .map(|x| match schema::node(x) {
            ParquetType::PrimitiveType(p) => json!(format!("{:?}", get_sort_order(&p.logical_type, &p.converted_type, &p.physical_type))),
            _ => unreachable!(),
        })
        .collect::<Vec<_>>())
}
