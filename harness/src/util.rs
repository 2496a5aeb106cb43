use serde_json::{json, Value};

pub fn catch<F: FnOnce() -> Value>(f: F) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            json!({ "panic": m })
        }
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
pub fn i64_(v: &Value) -> i64 {
    v.as_i64().unwrap()
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
pub fn le64(v: &Value) -> u64 {
    let b = bytes(v);
    let mut a = [0u8; 8];
    a[..b.len()].copy_from_slice(&b);
    u64::from_le_bytes(a)
}
/// "error" outcomes carry no text: messages are not part of any property
/// where the data of a source is to start
pub fn far(v: &Value) -> u64 {
    v.get("far").map(le64).unwrap_or(0)
}
pub fn err() -> Value {
    json!({"err": true})
}
/// runs a list of iterator operations (next, nth k, hint) and reports the results
pub fn iter_ops<T, I: Iterator<Item = T>>(mut it: I, ops: &Value, f: impl Fn(T) -> Value) -> Value {
    let mut res = vec![];
    for op in arr(ops) {
        let o = arr(op);
        res.push(match st(&o[0]) {
            "next" => it.next().map(|x| json!([f(x)])).unwrap_or(json!([])),
            "nth" => it.nth(us(&o[1])).map(|x| json!([f(x)])).unwrap_or(json!([])),
            "hint" => {
                let (a, b) = it.size_hint();
                json!([a, b.map(|x| x as i64).unwrap_or(-1)])
            }
            "rest" => {
                let mut v = vec![];
                let mut it2 = it.by_ref();
                for x in &mut it2 {
                    v.push(f(x));
                    // an error is reported as [] and ends the collection
                    if v.last() == Some(&json!([])) || v.len() > 200000 {
                        break;
                    }
                }
                Value::Array(v)
            }
            _ => unreachable!(),
        })
    }
    Value::Array(res)
}

/// Records the largest allocation asked for on each thread.
pub struct Largest;
thread_local! { static LARGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
fn seen(n: usize) {
    let _ = LARGEST.try_with(|x| x.set(x.get().max(n)));
}
unsafe impl std::alloc::GlobalAlloc for Largest {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        seen(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        seen(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        seen(n);
        std::alloc::System.realloc(p, l, n)
    }
}
/// what f results in and the largest allocation it asks for
pub fn largest<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LARGEST.with(|x| x.set(0));
    let r = f();
    (r, LARGEST.with(|x| x.get()))
}
