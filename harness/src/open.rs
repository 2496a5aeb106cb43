//! Opening byte strings as files.
use crate::file::thrift_bytes;
use crate::io::Src;
use crate::util::*;
use parquet2::read::*;
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "open" => open,
        _ => return None,
    })
}

fn pieces(v: &Value) -> Vec<u8> {
    let mut b = vec![];
    for p in arr(v) {
        match p.get("rep") {
            Some(r) => b.resize(b.len() + us(&r[1]), us(&r[0]) as u8),
            None => b.extend(bytes(&p["b"])),
        }
    }
    b
}
/// long runs of a byte are abbreviated
fn to_pieces(b: &[u8]) -> Value {
    let mut out = vec![];
    let mut lit = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = b[i..].iter().take_while(|x| **x == b[i]).count();
        if n >= 64 {
            out.push(json!({"b": std::mem::take(&mut lit)}));
            out.push(json!({"rep": [b[i], n]}));
        } else {
            lit.extend_from_slice(&b[i..i + n]);
        }
        i += n;
    }
    out.push(json!({ "b": lit }));
    Value::Array(out)
}

fn open(v: &Value) -> Value {
    let all = pieces(&v["pieces"]);
    let sizes: Vec<usize> = arr(&v["sizes"]).iter().map(us).collect();
    let pos = us(&v["pos"]) as u64;
    let mut res = vec![];
    for c in arr(&v["cuts"]) {
        let b = &all[..us(c)];
        let src = |pend| {
            let mut s = Src::new(b, &sizes, pend);
            s.pos = pos;
            s
        };
        let base = crate::util::far(v);
        let hole = |pend| {
            let mut s = Src::new(b, &sizes, pend).far(base);
            s.pos = base / 2 + pos;
            s
        };
        let show = |r: Result<parquet2::metadata::FileMetaData, parquet2::error::Error>| r.ok().map(|m| thrift_bytes(&m.into_thrift()));
        let r = catch(|| {
            let sync = show(read_metadata(&mut src(false)));
            let sized = show(read_metadata_with_size(&mut src(false), b.len() as u64));
            let asy = show(futures::executor::block_on(read_metadata_async(&mut src(true))));
            let mut o = json!({"open": sync.as_ref().map(|x| json!([to_pieces(x)])).unwrap_or(json!([])), "sized": sync == sized, "asy": sync == asy});
            // the same bytes behind a hole, if the metadata they end in are said to lie in them
            let n = b.len();
            if base > 0 && n >= 12 && u32::from_le_bytes(b[n - 8..n - 4].try_into().unwrap()) as usize + 12 <= n {
                o["far"] = json!([
                    sync == show(read_metadata(&mut hole(false))),
                    sync == show(read_metadata_with_size(&mut hole(false), base + n as u64)),
                    sync == show(futures::executor::block_on(read_metadata_async(&mut hole(true))))
                ]);
            }
            o
        });
        if r.get("panic").is_some() {
            return r;
        }
        res.push(r);
    }
    Value::Array(res)
}
