use crate::util::*;
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::encoding::{
    bitpacked, delta_bitpacked, delta_byte_array, delta_length_byte_array, hybrid_rle, uleb128, zigzag_leb128,
};
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "bitpack" => bitpack,
        "bitunpack" => bitunpack,
        "hybrid" => hybrid,
        "hybrid_enc" => hybrid_enc,
        "bitmap" => bitmap,
        "delta" => delta,
        "delta_items" => delta_items,
        "varint" => varint,
        _ => return None,
    })
}

trait Bits: bitpacked::Unpackable {
    fn from64(v: u64) -> Self;
    fn le(self) -> Vec<u8>;
}
macro_rules! bits {
    ($t:ty) => {
        impl Bits for $t {
            fn from64(v: u64) -> Self {
                v as $t
            }
            fn le(self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
        }
    };
}
bits!(u8);
bits!(u16);
bits!(u32);
bits!(u64);

fn bitpack_t<T: Bits>(v: &Value) -> Value {
    let w = us(&v["w"]);
    let vals: Vec<T> = arr(&v["vals"]).iter().map(|x| T::from64(le64(x))).collect();
    let extra = us(&v["extra"]);
    let full = std::mem::size_of::<T>() * w; // bytes of a complete pack
    let lanes = std::mem::size_of::<T>() * 8;
    let packs = (vals.len() + lanes - 1) / lanes;
    let packs = if st(&v["f"]) == "encode" { packs } else { 1 };
    let n = packs * full + extra;
    let mut packed = vec![0u8; n];
    if st(&v["f"]) == "encode" {
        bitpacked::encode::<T>(&vals, w, &mut packed);
    } else {
        bitpacked::encode_pack::<T>(&vals, w, &mut packed);
    }
    let need = (vals.len() * w + 7) / 8;
    let tail_zero = packed[need..].iter().all(|x| *x == 0);
    json!({"packed": packed[..need].to_vec(), "tail_zero": tail_zero})
}
/// {ty, w, vals, f: encode|encode_pack, extra}
fn bitpack(v: &Value) -> Value {
    match us(&v["ty"]) {
        8 => bitpack_t::<u8>(v),
        16 => bitpack_t::<u16>(v),
        32 => bitpack_t::<u32>(v),
        _ => bitpack_t::<u64>(v),
    }
}
fn bitunpack_t<T: Bits>(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    match bitpacked::Decoder::<T>::try_new(&b, us(&v["w"]), us(&v["n"])) {
        Ok(d) => json!({"ops": iter_ops(d, &v["ops"], |x| json!(x.le()))}),
        Err(_) => err(),
    }
}
/// {ty, w, n, bytes, ops}
fn bitunpack(v: &Value) -> Value {
    match us(&v["ty"]) {
        8 => bitunpack_t::<u8>(v),
        16 => bitunpack_t::<u16>(v),
        32 => bitunpack_t::<u32>(v),
        _ => bitunpack_t::<u64>(v),
    }
}

/// {w, n, bytes, ops}: value iterator and run decoder
fn hybrid(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let w = us(&v["w"]);
    let vals = match hybrid_rle::HybridRleDecoder::try_new(&b, w as u32, us(&v["n"])) {
        Ok(d) => json!({"ops": iter_ops(d, &v["ops"], |x| match x {
            Ok(x) => json!(x.to_le_bytes().to_vec()),
            Err(_) => json!([]),
        })}),
        Err(_) => err(),
    };
    let mut runs = vec![];
    for r in hybrid_rle::Decoder::new(&b, w) {
        runs.push(match r {
            Ok(hybrid_rle::HybridEncoded::Bitpacked(x)) => json!({"bp": x.to_vec()}),
            Ok(hybrid_rle::HybridEncoded::Rle(x, n)) => json!({"rle": x.to_vec(), "n": n.min(1073741823)}),
            Err(_) => err(),
        });
        if runs.last().unwrap().get("err").is_some() || runs.len() > 100000 {
            break;
        }
    }
    json!({"vals": vals, "runs": runs})
}

/// {w, vals: [4-byte]} (w = 1 with bool: encode_bool too)
fn hybrid_enc(v: &Value) -> Value {
    let w = us(&v["w"]);
    let mut vals: Vec<u32> = arr(&v["vals"]).iter().map(|x| le64(x) as u32).collect();
    if let Some(n) = v.get("n") {
        vals = vals.iter().copied().cycle().take(us(n)).collect();
    }
    let mut buf = vec![];
    if st(&v["f"]) == "u32" {
        if vals.len() % 2 == 1 {
            hybrid_rle::encode_u32(&mut buf, parquet2::write::DynIter::new(vals.iter().copied()), w as u32).unwrap();
        } else {
            hybrid_rle::encode_u32(&mut buf, vals.iter().copied(), w as u32).unwrap();
        }
    } else if st(&v["f"]) == "bool" {
        hybrid_rle::encode_bool(&mut buf, vals.iter().map(|x| *x == 1)).unwrap();
    } else {
        hybrid_rle::bitpacked_encode(&mut buf, vals.iter().map(|x| *x == 1)).unwrap();
    }
    json!({ "bytes": buf })
}

/// {bytes, off, n, ops}
fn bitmap(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let it = hybrid_rle::BitmapIter::new(&b, us(&v["off"]), us(&v["n"]));
    json!({"ops": iter_ops(it, &v["ops"], |x| json!(x as u8))})
}

fn delta_vals(b: &[u8], ops: Option<&Value>) -> Value {
    let mut d = match delta_bitpacked::Decoder::try_new(b) {
        Ok(d) => d,
        Err(_) => return json!({"vals": [], "err": true}),
    };
    if let Some(ops) = ops {
        return json!({"ops": iter_ops(d, ops, |x| match x {
            Ok(x) => json!(x.to_le_bytes().to_vec()),
            Err(_) => json!([]),
        })});
    }
    let mut vals = vec![];
    loop {
        match d.next() {
            Some(Ok(x)) => vals.push(x.to_le_bytes().to_vec()),
            Some(Err(_)) => return json!({"vals": vals, "err": true}),
            None => break,
        }
        if vals.len() > 200000 {
            return json!({"vals": vals, "err": true});
        }
    }
    json!({"vals": vals, "n": d.consumed_bytes()})
}

/// {bytes} or {bytes, ops} or {vals: [8-byte]} (after `pre` bytes already in the buffer)
fn delta(v: &Value) -> Value {
    if v.get("vals").is_none() {
        return delta_vals(&bytes(&v["bytes"]), v.get("ops"));
    }
    let vals: Vec<i64> = arr(&v["vals"]).iter().map(|x| le64(x) as i64).collect();
    let pre = us(&v["pre"]);
    let mut buf = vec![7u8; pre];
    if vals.len() % 2 == 1 {
        // as dynamically typed iterators, too
        delta_bitpacked::encode(parquet2::write::DynIter::new(vals.into_iter()), &mut buf)
    } else {
        delta_bitpacked::encode(vals.into_iter(), &mut buf)
    };
    let kept = buf[..pre].iter().all(|x| *x == 7);
    json!({"bytes": buf[pre..].to_vec(), "kept": kept, "back": delta_vals(&buf[pre..], None)})
}

fn items_of(f: &str, b: &[u8], len: Option<usize>) -> Result<Value, parquet2::error::Error> {
    Ok(match f {
        "length" => {
            let mut d = delta_length_byte_array::Decoder::try_new(b)?;
            let lens = d.by_ref().collect::<Result<Vec<_>, _>>()?;
            let v = d.values();
            json!({"lens": lens, "values": v, "into": d.into_values()})
        }
        "prefix" => {
            let mut d = delta_byte_array::Decoder::try_new(b)?;
            let prefixes = d.by_ref().collect::<Result<Vec<_>, _>>()?;
            let mut d = d.into_lengths()?;
            let lens = d.by_ref().collect::<Result<Vec<_>, _>>()?;
            json!({"prefixes": prefixes, "lens": lens, "values": d.into_values()})
        }
        _ => json!({"items": BinaryIter::new(b, len).collect::<Result<Vec<_>, _>>()?}),
    })
}

/// {f: length|prefix|plain, items} or {f, bytes, count}
fn delta_items(v: &Value) -> Value {
    let f = st(&v["f"]);
    if v.get("items").is_none() {
        let len = v.get("count").and_then(|x| x.as_u64()).map(|x| x as usize);
        return items_of(f, &bytes(&v["bytes"]), len).unwrap_or(err());
    }
    let items: Vec<Vec<u8>> = arr(&v["items"]).iter().map(bytes).collect();
    let mut buf = vec![];
    match f {
        "length" => delta_length_byte_array::encode(items.iter(), &mut buf),
        "prefix" => delta_byte_array::encode(items.iter().map(|x| x.as_slice()), &mut buf),
        _ => unreachable!(),
    }
    json!({"back": items_of(f, &buf, None).unwrap_or(err()), "bytes": buf})
}

/// {f: uleb|zigzag, v: 8 bytes} or {f, bytes}
fn varint(v: &Value) -> Value {
    let z = st(&v["f"]) == "zigzag";
    if let Some(b) = v.get("bytes") {
        let b = bytes(b);
        return if z {
            zigzag_leb128::decode(&b).map(|(x, n)| json!({"v": x.to_le_bytes().to_vec(), "n": n}))
        } else {
            uleb128::decode(&b).map(|(x, n)| json!({"v": x.to_le_bytes().to_vec(), "n": n}))
        }
        .unwrap_or(err());
    }
    let x = le64(&v["v"]);
    if z {
        let (a, n) = zigzag_leb128::encode(x as i64);
        json!({"bytes": a[..n].to_vec()})
    } else {
        let mut a = [9u8; 12];
        let n = uleb128::encode(x, &mut a);
        json!({"bytes": a[..n].to_vec(), "kept": a[n..].iter().all(|x| *x == 9)})
    }
}
