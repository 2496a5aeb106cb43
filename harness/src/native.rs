//! Values of the fixed-size types: bytes, order, instants.
use crate::util::*;
use parquet2::encoding::{ceil8, get_length};
use parquet2::read::levels::get_bit_width;
use parquet2::types::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::convert::TryInto;

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "native" => native,
        "small" => small,
        _ => return None,
    })
}
fn sign(o: Ordering) -> i8 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
fn one<T: NativeType>(a: &[u8], b: &[u8]) -> Value {
    let bytes = |x: &[u8]| -> T::Bytes { x.try_into().unwrap() };
    let (x, y) = (T::from_le_bytes(bytes(a)), T::from_le_bytes(bytes(b)));
    json!({"back": x.to_le_bytes().as_ref(), "decoded": decode::<T>(a).to_le_bytes().as_ref(), "ord": [sign(x.ord(&y)), sign(y.ord(&x)), sign(x.ord(&x))],
           "type": crate::body::type_name(&T::TYPE)})
}
/// {ty, a, b}
fn native(v: &Value) -> Value {
    let (a, b) = (bytes(&v["a"]), bytes(&v["b"]));
    match st(&v["ty"]) {
        "i32" => one::<i32>(&a, &b),
        "i64" => one::<i64>(&a, &b),
        "f32" => one::<f32>(&a, &b),
        "f64" => one::<f64>(&a, &b),
        "binary" => json!({"ord": [sign(ord_binary(&a, &b)), sign(ord_binary(&b, &a)), sign(ord_binary(&a, &a))]}),
        _ => {
            let mut r = one::<[u32; 3]>(&a, &b);
            r["ns"] = json!(int96_to_i64_ns(decode(&a)).to_le_bytes());
            r
        }
    }
}
/// {n, bytes}
fn small(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let n = us(&v["n"]);
    json!({"eighths": ceil8(n), "bits": if n < 32768 { json!(get_bit_width(n as i16)) } else { json!(-1) },
           "length": get_length(&b).map(|x| json!((x as u64).to_le_bytes())).unwrap_or(json!([]))})
}
