use crate::util::*;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, HybridRleDecoder};
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::Descriptor;
use parquet2::page::{split_buffer, split_buffer_v1, split_buffer_v2, DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2};
use parquet2::read::levels::get_bit_width;
use parquet2::schema::types::{FieldInfo, PhysicalType, PrimitiveType};
use parquet2::schema::Repetition;
use parquet2::types::NativeType;
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "body" => body,
        _ => return None,
    })
}
pub type Rows = Vec<Option<Vec<u8>>>;
fn page(v: &Value) -> DataPage {
    let physical_type = match st(&v["ty"]) {
        "bool" => PhysicalType::Boolean,
        "i32" => PhysicalType::Int32,
        "f32" => PhysicalType::Float,
        "i64" => PhysicalType::Int64,
        "f64" => PhysicalType::Double,
        "i96" => PhysicalType::Int96,
        "fixed" => PhysicalType::FixedLenByteArray(us(&v["size"])),
        _ => PhysicalType::ByteArray,
    };
    let encoding: Encoding = match st(&v["enc"]) {
        "plain" => Encoding::Plain,
        "dict" => Encoding::PlainDictionary,
        "rle_dict" => Encoding::RleDictionary,
        "rle" => Encoding::Rle,
        "delta" => Encoding::DeltaBinaryPacked,
        _ => Encoding::ByteStreamSplit,
    };
    let n = us(&v["n"]) as i32;
    let header = if v["v2"].as_bool().unwrap() {
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: n,
            num_nulls: 0,
            num_rows: n,
            encoding: encoding.into(),
            definition_levels_byte_length: i64_(&v["dlen"]) as i32,
            repetition_levels_byte_length: i64_(&v["rlen"]) as i32,
            is_compressed: None,
            statistics: None,
        })
    } else {
        DataPageHeader::V1(DataPageHeaderV1 {
            num_values: n,
            encoding: encoding.into(),
            definition_level_encoding: Encoding::Rle.into(),
            repetition_level_encoding: Encoding::Rle.into(),
            statistics: None,
        })
    };
    let repetition = match (v["opt"].as_bool().unwrap(), us(&v["maxrep"])) {
        (true, _) => Repetition::Optional,
        (false, 0) => Repetition::Required,
        (false, _) => Repetition::Repeated,
    };
    let primitive_type = PrimitiveType {
        field_info: FieldInfo { name: "x".to_string(), repetition, id: None },
        logical_type: None,
        converted_type: None,
        physical_type,
    };
    let descriptor = Descriptor { primitive_type, max_def_level: us(&v["maxdef"]) as i16, max_rep_level: us(&v["maxrep"]) as i16 };
    let mut p = DataPage::new(header, bytes(&v["body"]), descriptor, None);
    if !arr(&v["sel"]).is_empty() {
        p.selected_rows = Some(arr(&v["sel"]).iter().map(|x| Interval::new(us(&x[0]), us(&x[1]))).collect());
    }
    p
}
/// values of a required page: all, and those of the selected rows
fn required<T, I: Iterator<Item = Result<T, Error>>>(new: impl Fn() -> Result<I, Error>, p: &DataPage, f: impl Fn(T) -> Vec<u8>) -> Result<(Rows, Rows), Error> {
    let all = new()?.take(100000).map(|x| x.map(|x| Some(f(x)))).collect::<Result<Vec<_>, _>>()?;
    let sel = match &p.selected_rows {
        None => vec![],
        Some(s) => SliceFilteredIter::new(new()?, s.iter().copied().collect()).map(|x| x.map(|x| Some(f(x)))).collect::<Result<Vec<_>, _>>()?,
    };
    Ok((all, sel))
}
/// values of an optional page: all, and those of the selected rows
fn optional<T, I: Iterator<Item = Result<T, Error>>>(new: impl Fn() -> Result<(I, Option<usize>), Error>, p: &DataPage, f: impl Fn(T) -> Vec<u8>) -> Result<(Rows, Rows), Error> {
    let levels = || DefLevelsDecoder::try_new(p);
    let pair = |v: Result<Option<Result<T, Error>>, Error>| match v? {
        Some(x) => x.map(|x| Some(f(x))),
        None => Ok(None),
    };
    let all = match levels()? {
        DefLevelsDecoder::Bitmap(b) => OptionalValues::new(HybridRleDecoderIter::new(b), new()?.0).map(pair).collect::<Result<Vec<_>, _>>()?,
        DefLevelsDecoder::Levels(l, max) => OptionalValues::new(l.map(|x| x.map(|x| x == max)), new()?.0).map(pair).collect::<Result<Vec<_>, _>>()?,
    };
    let mut sel = vec![];
    if let Some(s) = &p.selected_rows {
        match levels()? {
            DefLevelsDecoder::Bitmap(b) => {
                let mut vals = new()?.0;
                for r in FilteredHybridRleDecoderIter::new(b, s.iter().copied().collect()) {
                    let mut give = |set: bool| -> Result<(), Error> {
                        sel.push(if set { vals.next().transpose()?.map(&f) } else { None });
                        Ok(())
                    };
                    match r? {
                        FilteredHybridEncoded::Skipped(n) => {
                            for _ in 0..n {
                                vals.next().transpose()?;
                            }
                        }
                        FilteredHybridEncoded::Bitmap { values, offset, length } => {
                            for x in BitmapIter::new(values, offset, length) {
                                give(x)?
                            }
                        }
                        FilteredHybridEncoded::Repeated { is_set, length } => {
                            for _ in 0..length {
                                give(is_set)?
                            }
                        }
                    }
                }
            }
            DefLevelsDecoder::Levels(l, max) => {
                let it = OptionalValues::new(l.map(|x| x.map(|x| x == max)), new()?.0).map(pair);
                sel = SliceFilteredIter::new(it, s.iter().copied().collect()).collect::<Result<Vec<_>, _>>()?
            }
        }
    }
    Ok((all, sel))
}
fn at(d: &[Vec<u8>], i: Result<u32, Error>) -> Result<Vec<u8>, Error> {
    Ok(d.get(i? as usize).cloned().unwrap_or(b"out of range".to_vec()))
}
fn native<T: NativeType>(p: &DataPage, dict: &Option<Vec<Vec<u8>>>) -> Result<(Rows, Rows), Error> {
    let f = |x: T| x.to_le_bytes().as_ref().to_vec();
    type S<'a, T> = NativePageState<'a, T, &'a Vec<Vec<u8>>>;
    let new = || S::<T>::try_new(p, dict.as_ref());
    let plain = |s: S<T>| -> Vec<T> {
        match s {
            S::Optional(_, v) | S::Required(v) => v.collect(),
            _ => vec![],
        }
    };
    match new()? {
        S::Required(_) => required(|| Ok(plain(new()?).into_iter().map(Ok)), p, f),
        S::Optional(..) => optional(|| Ok((plain(new()?).into_iter().map(Ok), None)), p, f),
        S::RequiredDictionary(d) => required(|| Ok(d.indexes.clone().map(|i| at(d.dict, i))), p, |x| x),
        S::OptionalDictionary(_, d) => optional(|| Ok((d.indexes.clone().map(|i| at(d.dict, i)), Some(d.len()))), p, |x| x),
    }
}
fn rows(v: &Value, p: &DataPage) -> Result<(Rows, Rows), Error> {
    let dict: Option<Vec<Vec<u8>>> = arr(&v["dict"]).first().map(|d| arr(d).iter().map(bytes).collect());
    rows_of(st(&v["ty"]), p, &dict)
}
pub fn type_name(t: &PhysicalType) -> &'static str {
    match t {
        PhysicalType::Boolean => "bool",
        PhysicalType::Int32 => "i32",
        PhysicalType::Float => "f32",
        PhysicalType::Int64 => "i64",
        PhysicalType::Double => "f64",
        PhysicalType::Int96 => "i96",
        PhysicalType::FixedLenByteArray(_) => "fixed",
        PhysicalType::ByteArray => "binary",
    }
}
pub fn rows_of(ty: &str, p: &DataPage, dict: &Option<Vec<Vec<u8>>>) -> Result<(Rows, Rows), Error> {
    let dict = dict.clone();
    match ty {
        "i32" => native::<i32>(p, &dict),
        "f32" => native::<f32>(p, &dict),
        "i64" => native::<i64>(p, &dict),
        "f64" => native::<f64>(p, &dict),
        "i96" => native::<[u32; 3]>(p, &dict),
        "bool" => {
            let f = |x: bool| vec![x as u8];
            match BooleanPageState::try_new(p)? {
                BooleanPageState::Required(b, n) => required(|| Ok(BitmapIter::new(b, 0, n).map(Ok)), p, f),
                BooleanPageState::Optional(..) => optional(
                    || match BooleanPageState::try_new(p)? {
                        BooleanPageState::Optional(_, b) => Ok((b.map(Ok), None)),
                        _ => unreachable!(),
                    },
                    p,
                    f,
                ),
            }
        }
        "fixed" => {
            let new = || FixedLenBinaryPageState::try_new(p, dict.as_ref());
            type S<'a> = FixedLenBinaryPageState<'a, &'a Vec<Vec<u8>>>;
            let plain = |s| match s {
                S::Optional(_, v) | S::Required(v) => v.map(|x| x.to_vec()).collect::<Vec<_>>(),
                _ => vec![],
            };
            match new()? {
                S::Required(_) => required(|| Ok(plain(new()?).into_iter().map(Ok)), p, |x| x),
                S::Optional(..) => optional(|| Ok((plain(new()?).into_iter().map(Ok), None)), p, |x| x),
                S::RequiredDictionary(d) => required(|| Ok(d.indexes.clone().map(|i| at(d.dict, i))), p, |x| x),
                S::OptionalDictionary(_, d) => optional(|| Ok((d.indexes.clone().map(|i| at(d.dict, i)), Some(d.len()))), p, |x| x),
            }
        }
        _ => {
            let new = || BinaryPageState::try_new(p, dict.as_ref());
            type S<'a> = BinaryPageState<'a, &'a Vec<Vec<u8>>>;
            let plain = |s| match s {
                S::Optional(_, v) | S::Required(v) => v.take(100000).map(|x| x.map(|x| x.to_vec())).collect::<Vec<_>>(),
                _ => vec![],
            };
            match new()? {
                S::Required(_) => required(|| Ok(plain(new()?).into_iter()), p, |x| x),
                S::Optional(..) => optional(|| Ok((plain(new()?).into_iter(), None)), p, |x| x),
                S::RequiredDictionary(d) => required(|| Ok(d.indexes.clone().map(|i| at(d.dict, i))), p, |x| x),
                S::OptionalDictionary(_, d) => optional(|| Ok((d.indexes.clone().map(|i| at(d.dict, i)), Some(d.len()))), p, |x| x),
            }
        }
    }
}
/// how many items an iterator announces, and after j of them
fn told<I: Iterator>(mut it: I, j: usize) -> Value {
    let hint = |it: &I| {
        let (a, b) = it.size_hint();
        json!([a, b.map(|x| x as i64).unwrap_or(-1)])
    };
    let a = hint(&it);
    for _ in 0..j {
        it.next();
    }
    json!([a, hint(&it)])
}
fn lens_native<T: NativeType>(p: &DataPage, dict: &Vec<Vec<u8>>, has: bool, j: usize) -> Result<Value, Error> {
    type S<'a, T> = NativePageState<'a, T, &'a Vec<Vec<u8>>>;
    Ok(match S::<T>::try_new(p, if has { Some(dict) } else { None })? {
        S::Required(v) | S::Optional(_, v) => told(v, j),
        S::RequiredDictionary(mut d) | S::OptionalDictionary(_, mut d) => {
            let a = json!([d.len(), d.len(), d.is_empty()]);
            (0..j).for_each(|_| drop(d.indexes.next()));
            json!([a, [d.len(), d.indexes.len(), d.is_empty()]])
        }
    })
}
/// the numbers of items announced: of values, of validity, of rows and of selected rows
fn lens(v: &Value, p: &DataPage) -> Result<Value, Error> {
    let has = !arr(&v["dict"]).is_empty();
    let dict: Vec<Vec<u8>> = arr(&v["dict"]).first().map(|d| arr(d).iter().map(bytes).collect()).unwrap_or_default();
    let j = us(&v["j"]);
    let vals = match st(&v["ty"]) {
        "i32" => lens_native::<i32>(p, &dict, has, j)?,
        "f32" => lens_native::<f32>(p, &dict, has, j)?,
        "i64" => lens_native::<i64>(p, &dict, has, j)?,
        "f64" => lens_native::<f64>(p, &dict, has, j)?,
        "i96" => lens_native::<[u32; 3]>(p, &dict, has, j)?,
        "bool" => json!([]),
        "fixed" => {
            type S<'a> = FixedLenBinaryPageState<'a, &'a Vec<Vec<u8>>>;
            match S::try_new(p, if has { Some(&dict) } else { None })? {
                S::Required(v) | S::Optional(_, v) => told(v, j),
                S::RequiredDictionary(mut d) | S::OptionalDictionary(_, mut d) => {
                    let a = json!([d.len(), d.len(), d.len() == 0]);
                    (0..j).for_each(|_| drop(d.indexes.next()));
                    json!([a, [d.len(), d.indexes.len(), d.len() == 0]])
                }
            }
        }
        _ => {
            type S<'a> = BinaryPageState<'a, &'a Vec<Vec<u8>>>;
            match S::try_new(p, if has { Some(&dict) } else { None })? {
                S::Required(v) => told(v, j),
                S::Optional(_, v) => {
                    told(v, j);
                    json!([])
                }
                S::RequiredDictionary(mut d) | S::OptionalDictionary(_, mut d) => {
                    let a = json!([d.len(), d.len(), d.len() == 0]);
                    (0..j).for_each(|_| drop(d.indexes.next()));
                    json!([a, [d.len(), d.indexes.len(), d.len() == 0]])
                }
            }
        }
    };
    let (valid, rows) = if p.descriptor.primitive_type.field_info.repetition == Repetition::Optional {
        let levels = || DefLevelsDecoder::try_new(p);
        match (levels()?, levels()?) {
            (DefLevelsDecoder::Bitmap(a), DefLevelsDecoder::Bitmap(b)) => {
                let n = a.len();
                let t = told(HybridRleDecoderIter::new(a), j);
                (json!([n, t]), told(OptionalValues::new(HybridRleDecoderIter::new(b), std::iter::repeat(())), j))
            }
            (DefLevelsDecoder::Levels(a, _), DefLevelsDecoder::Levels(b, max)) => {
                let n = a.len();
                (json!([n, told(a, j)]), told(OptionalValues::new(b.map(|x| x.map(|x| x == max)), std::iter::repeat(())), j))
            }
            _ => (json!([]), json!([])),
        }
    } else {
        (json!([]), json!([]))
    };
    let sel = p.selected_rows.as_ref().map(|s| told(SliceFilteredIter::new(std::iter::repeat(()), s.iter().copied().collect()), us(&v["js"])));
    Ok(json!({"vals": vals, "valid": valid, "rows": rows, "sel": sel.map(|x| json!([x])).unwrap_or(json!([]))}))
}
fn levels(b: &[u8], max: i16, n: usize) -> Value {
    if max == 0 {
        return json!(vec![0; n]);
    }
    match HybridRleDecoder::try_new(b, get_bit_width(max), n).and_then(|x| x.collect::<Result<Vec<_>, _>>()) {
        Ok(x) => json!(x),
        Err(_) => json!([-1]),
    }
}
fn rows_json(r: Rows) -> Value {
    Value::Array(r.into_iter().map(|x| x.map(|x| json!([x])).unwrap_or(json!([]))).collect())
}
fn body(v: &Value) -> Value {
    let p = page(v);
    let mut lv = json!([]);
    let direct = |b| match p.header() {
        DataPageHeader::V1(_) => split_buffer_v1(b, p.descriptor.max_rep_level > 0, p.descriptor.max_def_level > 0),
        DataPageHeader::V2(_) => match (usize::try_from(i64_(&v["rlen"])), usize::try_from(i64_(&v["dlen"]))) {
            (Ok(r), Ok(d)) => split_buffer_v2(b, r, d),
            _ => split_buffer(&p),
        },
    };
    let same = match (split_buffer(&p), direct(p.buffer())) {
        (Ok(a), Ok(b)) => a == b,
        (a, b) => a.is_err() == b.is_err(),
    };
    let split = match split_buffer(&p) {
        _ if !same => json!({"rep": [-1], "def": [-1], "vals": [-1]}),
        Ok((r, d, x)) => {
            let n = us(&v["n"]);
            lv = json!({"rep": levels(r, p.descriptor.max_rep_level, n), "def": levels(d, p.descriptor.max_def_level, n)});
            json!({"rep": r, "def": d, "vals": x})
        }
        Err(_) => err(),
    };
    // of a page with many rows, those asked for
    if let Some(at) = v.get("at") {
        let some = |x: &Value, at: &Value| json!([x.as_array().map_or(0, |x| x.len()), arr(at).iter().map(|k| x.get(us(k)).cloned().unwrap_or(json!([-1]))).collect::<Vec<_>>()]);
        let (r, s) = rows(v, &p).unwrap();
        let pick = |x: Rows, at: &Value| json!([x.len(), arr(at).iter().map(|k| rows_json(x.get(us(k)).cloned().into_iter().collect())).collect::<Vec<_>>()]);
        return json!({"split": split, "levels": {"rep": some(&lv["rep"], at), "def": some(&lv["def"], at)}, "state": {"rows": pick(r, at), "sel": pick(s, &v["sat"])}});
    }
    let state = match rows(v, &p) {
        Ok((r, s)) => json!({"rows": rows_json(r), "sel": rows_json(s)}),
        Err(_) => err(),
    };
    if v.get("j").is_some() {
        return json!({"split": split, "levels": lv, "state": state, "lens": lens(v, &p).unwrap_or_else(|_| err())});
    }
    json!({"split": split, "levels": lv, "state": state})
}
