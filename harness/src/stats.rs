use crate::file::{num_json, opt_json, page, stats, stats_json};
use crate::schema::phys_code;
use parquet2::statistics::*;
use serde_json::{json, Value};

/// decoded statistics: values as their plain encoding
pub fn stat_json(s: &dyn Statistics) -> Value {
    use parquet2::schema::types::PhysicalType as P;
    macro_rules! prim {
        ($t:ty, $f:expr) => {{
            let x = s.as_any().downcast_ref::<PrimitiveStatistics<$t>>().unwrap();
            json!({"min": opt_json(x.min_value, $f), "max": opt_json(x.max_value, $f), "nc": opt_json(x.null_count, num_json),
                   "dc": opt_json(x.distinct_count, num_json)})
        }};
    }
    let mut o = match s.physical_type() {
        P::Boolean => {
            let x = s.as_any().downcast_ref::<BooleanStatistics>().unwrap();
            json!({"min": opt_json(x.min_value, |x| json!([x as u8])), "max": opt_json(x.max_value, |x| json!([x as u8])),
                   "nc": opt_json(x.null_count, num_json), "dc": opt_json(x.distinct_count, num_json)})
        }
        P::Int32 => prim!(i32, |x: i32| json!(x.to_le_bytes())),
        P::Int64 => prim!(i64, |x: i64| json!(x.to_le_bytes())),
        P::Float => prim!(f32, |x: f32| json!(x.to_le_bytes())),
        P::Double => prim!(f64, |x: f64| json!(x.to_le_bytes())),
        P::Int96 => prim!([u32; 3], |x: [u32; 3]| json!(x.iter().flat_map(|y| y.to_le_bytes()).collect::<Vec<u8>>())),
        P::ByteArray => {
            let x = s.as_any().downcast_ref::<BinaryStatistics>().unwrap();
            json!({"min": opt_json(x.min_value.as_ref(), |x| json!(x)), "max": opt_json(x.max_value.as_ref(), |x| json!(x)),
                   "nc": opt_json(x.null_count, num_json), "dc": opt_json(x.distinct_count, num_json)})
        }
        P::FixedLenByteArray(_) => {
            let x = s.as_any().downcast_ref::<FixedLenStatistics>().unwrap();
            json!({"min": opt_json(x.min_value.as_ref(), |x| json!(x)), "max": opt_json(x.max_value.as_ref(), |x| json!(x)),
                   "nc": opt_json(x.null_count, num_json), "dc": opt_json(x.distinct_count, num_json)})
        }
    };
    let ph = phys_code(*s.physical_type());
    o["t"] = json!(ph.0);
    o["len"] = json!(ph.1);
    o["nc2"] = opt_json(s.null_count(), num_json);
    o
}


pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "stats" => run,
        "stateq" => equal,
        _ => return None,
    })
}

/// decoding statistics of a leaf, on their own and as those of a v1 and a v2 page; encoding what was decoded
fn run(v: &Value) -> Value {
    use parquet2::metadata::Descriptor;
    use parquet2::page::Page;
    use parquet2::schema::types::ParquetType;
    let prim = match crate::schema::node(&v["leaf"]) {
        ParquetType::PrimitiveType(p) => p,
        _ => unreachable!(),
    };
    let d = Descriptor { primitive_type: prim.clone(), max_def_level: 0, max_rep_level: 0 };
    let one = |r: Option<parquet2::error::Result<std::sync::Arc<dyn Statistics>>>| match r {
        None => json!({"none": true}),
        Some(Err(_)) => crate::util::err(),
        Some(Ok(s)) => json!({"dec": stat_json(&*s), "enc": stats_json(&serialize_statistics(&*s))}),
    };
    let mut o = vec![one(Some(deserialize_statistics(&stats(&v["st"]), prim)))];
    for k in [0, 3] {
        let p = json!({"p": {"k": k, "n": 3, "enc": 0, "de": 3, "re": 3, "nulls": 0, "nrows": 3, "dl": 0, "rl": 0, "ic": [],
                             "st": [v["st"]], "body": [1, 2, 3]}, "rows": [3], "us": 3, "codec": 0});
        let Page::Data(x) = page(&p, &d) else { unreachable!() };
        o.push(one(x.statistics()));
        let parquet2::page::CompressedPage::Data(x) = crate::file::compressed_page(&p, &d) else { unreachable!() };
        o.push(one(x.statistics()));
    }
    json!(o)
}

/// two statistics, compared
fn equal(v: &Value) -> Value {
    let one = |x: &Value| match crate::schema::node(&x["leaf"]) {
        parquet2::schema::types::ParquetType::PrimitiveType(p) => deserialize_statistics(&stats(&x["st"]), p),
        _ => unreachable!(),
    };
    match (one(&v["a"]), one(&v["b"])) {
        (Ok(a), Ok(b)) => json!({"eq": &*a == &*b, "back": &*b == &*a, "self": &*a == &*a}),
        _ => crate::util::err(),
    }
}
