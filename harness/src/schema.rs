//! JSON schema trees. A node: {"n": name bytes, "r": 0|1|2, "id": []|[i], "c": []|[code(,precision,scale)],
//! "l": []|[name, ...]} with "f": [children] for groups or "t": thrift type code and "len" for leaves.
use crate::util::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use serde_json::{json, Value};

pub fn string(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
pub fn rep(x: u64) -> Repetition {
    match x {
        0 => Repetition::Required,
        1 => Repetition::Optional,
        _ => Repetition::Repeated,
    }
}
pub fn rep_code(r: Repetition) -> u64 {
    match r {
        Repetition::Required => 0,
        Repetition::Optional => 1,
        Repetition::Repeated => 2,
    }
}
fn unit(v: &Value) -> TimeUnit {
    match st(v) {
        "ms" => TimeUnit::Milliseconds,
        "us" => TimeUnit::Microseconds,
        _ => TimeUnit::Nanoseconds,
    }
}
fn unit_s(u: TimeUnit) -> &'static str {
    match u {
        TimeUnit::Milliseconds => "ms",
        TimeUnit::Microseconds => "us",
        TimeUnit::Nanoseconds => "ns",
    }
}
pub fn phys(t: u64, len: u64) -> PhysicalType {
    match t {
        0 => PhysicalType::Boolean,
        1 => PhysicalType::Int32,
        2 => PhysicalType::Int64,
        3 => PhysicalType::Int96,
        4 => PhysicalType::Float,
        5 => PhysicalType::Double,
        6 => PhysicalType::ByteArray,
        _ => PhysicalType::FixedLenByteArray(len as usize),
    }
}
pub fn phys_code(p: PhysicalType) -> (u64, u64) {
    match p {
        PhysicalType::Boolean => (0, 0),
        PhysicalType::Int32 => (1, 0),
        PhysicalType::Int64 => (2, 0),
        PhysicalType::Int96 => (3, 0),
        PhysicalType::Float => (4, 0),
        PhysicalType::Double => (5, 0),
        PhysicalType::ByteArray => (6, 0),
        PhysicalType::FixedLenByteArray(n) => (7, n as u64),
    }
}
pub fn conv(a: &[Value]) -> PrimitiveConvertedType {
    use PrimitiveConvertedType::*;
    match us(&a[0]) {
        0 => Utf8,
        4 => Enum,
        5 => Decimal(us(&a[1]), us(&a[2])),
        6 => Date,
        7 => TimeMillis,
        8 => TimeMicros,
        9 => TimestampMillis,
        10 => TimestampMicros,
        11 => Uint8,
        12 => Uint16,
        13 => Uint32,
        14 => Uint64,
        15 => Int8,
        16 => Int16,
        17 => Int32,
        18 => Int64,
        19 => Json,
        20 => Bson,
        21 => Interval,
        _ => panic!("harness: converted type"),
    }
}
pub fn conv_json(c: PrimitiveConvertedType) -> Value {
    use PrimitiveConvertedType::*;
    match c {
        Utf8 => json!([0]),
        Enum => json!([4]),
        Decimal(p, s) => json!([5, p, s]),
        Date => json!([6]),
        TimeMillis => json!([7]),
        TimeMicros => json!([8]),
        TimestampMillis => json!([9]),
        TimestampMicros => json!([10]),
        Uint8 => json!([11]),
        Uint16 => json!([12]),
        Uint32 => json!([13]),
        Uint64 => json!([14]),
        Int8 => json!([15]),
        Int16 => json!([16]),
        Int32 => json!([17]),
        Int64 => json!([18]),
        Json => json!([19]),
        Bson => json!([20]),
        Interval => json!([21]),
    }
}
pub fn int_type(w: u64, s: bool) -> IntegerType {
    use IntegerType::*;
    match (w, s) {
        (8, true) => Int8,
        (16, true) => Int16,
        (32, true) => Int32,
        (64, true) => Int64,
        (8, false) => UInt8,
        (16, false) => UInt16,
        (32, false) => UInt32,
        _ => UInt64,
    }
}
pub fn logical(a: &[Value]) -> PrimitiveLogicalType {
    use PrimitiveLogicalType::*;
    match st(&a[0]) {
        "STRING" => String,
        "ENUM" => Enum,
        "DECIMAL" => Decimal(us(&a[1]), us(&a[2])),
        "DATE" => Date,
        "TIME" => Time { unit: unit(&a[1]), is_adjusted_to_utc: a[2].as_bool().unwrap() },
        "TIMESTAMP" => Timestamp { unit: unit(&a[1]), is_adjusted_to_utc: a[2].as_bool().unwrap() },
        "INTEGER" => Integer(int_type(us(&a[1]) as u64, a[2].as_bool().unwrap())),
        "UNKNOWN" => Unknown,
        "JSON" => Json,
        "BSON" => Bson,
        "UUID" => Uuid,
        _ => panic!("harness: logical type"),
    }
}
pub fn logical_json(l: PrimitiveLogicalType) -> Value {
    use PrimitiveLogicalType::*;
    match l {
        String => json!(["STRING"]),
        Enum => json!(["ENUM"]),
        Decimal(p, s) => json!(["DECIMAL", p, s]),
        Date => json!(["DATE"]),
        Time { unit, is_adjusted_to_utc } => json!(["TIME", unit_s(unit), is_adjusted_to_utc]),
        Timestamp { unit, is_adjusted_to_utc } => json!(["TIMESTAMP", unit_s(unit), is_adjusted_to_utc]),
        Integer(t) => {
            let (w, s): (usize, bool) = t.into();
            json!(["INTEGER", w, s])
        }
        Unknown => json!(["UNKNOWN"]),
        Json => json!(["JSON"]),
        Bson => json!(["BSON"]),
        Uuid => json!(["UUID"]),
    }
}
pub fn node(v: &Value) -> ParquetType {
    let field_info = FieldInfo {
        name: string(&v["n"]),
        repetition: rep(us(&v["r"]) as u64),
        id: arr(&v["id"]).first().map(|x| i64_(x) as i32),
    };
    let c = arr(&v["c"]);
    let l = arr(&v["l"]);
    if let Some(f) = v.get("f") {
        let logical_type = l.first().map(|x| match st(x) {
            "MAP" => GroupLogicalType::Map,
            _ => GroupLogicalType::List,
        });
        let converted_type = c.first().map(|x| match us(x) {
            1 => GroupConvertedType::Map,
            2 => GroupConvertedType::MapKeyValue,
            _ => GroupConvertedType::List,
        });
        let fields: Vec<_> = arr(f).iter().map(node).collect();
        let FieldInfo { name, repetition, id } = field_info.clone();
        // the ways to make a group
        match (fields.len() % 3, logical_type) {
            (0, None) => ParquetType::from_converted(name, fields, repetition, converted_type, id),
            (1, _) => ParquetType::from_group(name, repetition, converted_type, logical_type, fields, id),
            _ => ParquetType::GroupType { field_info, logical_type, converted_type, fields },
        }
    } else {
        ParquetType::PrimitiveType(PrimitiveType {
            field_info,
            logical_type: (!l.is_empty()).then(|| logical(l)),
            converted_type: (!c.is_empty()).then(|| conv(c)),
            physical_type: phys(us(&v["t"]) as u64, us(&v["len"]) as u64),
        })
    }
}
pub fn prim_json(p: &PrimitiveType) -> Value {
    let (t, len) = phys_code(p.physical_type);
    json!({"n": p.field_info.name.as_bytes(), "r": rep_code(p.field_info.repetition),
           "id": p.field_info.id.map(|x| json!([x])).unwrap_or(json!([])),
           "c": p.converted_type.map(conv_json).unwrap_or(json!([])),
           "l": p.logical_type.map(logical_json).unwrap_or(json!([])), "t": t, "len": len})
}
pub fn node_json(t: &ParquetType) -> Value {
    match t {
        _ if t.get_field_info().name != t.name() => err(),
        ParquetType::PrimitiveType(p) => prim_json(p),
        ParquetType::GroupType { field_info, logical_type, converted_type, fields } => {
            json!({"n": field_info.name.as_bytes(), "r": rep_code(field_info.repetition),
                   "id": field_info.id.map(|x| json!([x])).unwrap_or(json!([])),
                   "c": converted_type.map(|c| json!([match c {
                       GroupConvertedType::Map => 1, GroupConvertedType::MapKeyValue => 2, GroupConvertedType::List => 3 }])).unwrap_or(json!([])),
                   "l": logical_type.map(|l| json!([match l { GroupLogicalType::Map => "MAP", GroupLogicalType::List => "LIST" }])).unwrap_or(json!([])),
                   "f": fields.iter().map(node_json).collect::<Vec<_>>()})
        }
    }
}
