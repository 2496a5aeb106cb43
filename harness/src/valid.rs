use crate::util::*;
use parquet2::deserialize::{
    FilteredHybridBitmapIter, FilteredHybridEncoded, FilteredHybridRleDecoderIter, HybridRleBooleanIter, HybridDecoderBitmapIter, HybridEncoded, HybridRleDecoderIter,
    HybridRleIter, HybridRleRunsIterator, OptionalValues, SliceFilteredIter,
};
use parquet2::encoding::hybrid_rle::{BitmapIter, Decoder};
use parquet2::indexes::Interval;
use serde_json::{json, Value};

pub fn lookup(kind: &str) -> Option<fn(&Value) -> Value> {
    Some(match kind {
        "valid" => valid,
        "vruns" => vruns,
        "vlong" => vlong,
        _ => return None,
    })
}
/// runs given one by one
struct Runs<'a>(std::collections::VecDeque<HybridEncoded<'a>>);
impl<'a> Iterator for Runs<'a> {
    type Item = Result<HybridEncoded<'a>, parquet2::error::Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.pop_front().map(Ok)
    }
}
impl<'a> HybridRleRunsIterator<'a> for Runs<'a> {
    fn number_of_elements(&self) -> usize {
        self.0.iter().map(|x| x.len()).sum()
    }
}
/// {runs: [["b", bytes, length] | ["r", set, length]], ivs, ops}
fn vruns(v: &Value) -> Value {
    let data: Vec<(Option<Vec<u8>>, bool, usize)> = arr(&v["runs"])
        .iter()
        .map(|x| if x[0] == "b" { (Some(bytes(&x[1])), false, us(&x[2])) } else { (None, us(&x[1]) == 1, us(&x[2])) })
        .collect();
    let new = || {
        Runs(
            data.iter()
                .map(|(b, set, n)| match b {
                    Some(b) => HybridEncoded::Bitmap(b, *n),
                    None => HybridEncoded::Repeated(*set, *n),
                })
                .collect(),
        )
    };
    let ivs: Vec<Interval> = arr(&v["ivs"]).iter().map(|x| Interval::new(us(&x[0]), us(&x[1]))).collect();
    let bits = iter_ops(HybridRleBooleanIter::new(new()), &v["ops"], |x| json!(x.unwrap() as u8));
    let mut rows = vec![];
    let mut skip = 0;
    let mut f = FilteredHybridBitmapIter::new(new(), ivs.iter().copied().collect());
    let mut rleft = vec![[0, f.len()]];
    let mut flen = 0;
    let mut empties = vec![json!([f.len(), f.is_empty()])];
    while let Some(r) = f.next() {
        empties.push(json!([f.len(), f.is_empty()]));
        if let Ok(r) = &r {
            empties.push(json!([r.len(), r.is_empty()]));
            flen += r.len();
        }
        let mut give = |set: bool| {
            rows.push(json!([set as u8, skip]));
            skip = 0;
        };
        match r.unwrap() {
            FilteredHybridEncoded::Skipped(s) => skip += s,
            FilteredHybridEncoded::Bitmap { values, offset, length } => BitmapIter::new(values, offset, length).for_each(give),
            FilteredHybridEncoded::Repeated { is_set, length } => (0..length).for_each(|_| give(is_set)),
        }
        rleft.push([rows.len(), f.len()]);
        if rleft.len() > 100000 {
            break;
        }
    }
    json!({"bits": bits, "rows": rows, "rleft": rleft, "empties": empties, "flen": flen})
}
/// equal neighbours without rows skipped between them counted together: [set, skipped before, count]
#[derive(Default)]
struct Counted(Vec<[usize; 3]>);
impl Counted {
    fn give(&mut self, set: bool, skipped: usize, n: usize) {
        match self.0.last_mut() {
            _ if n == 0 => (),
            Some(l) if l[0] == set as usize && skipped == 0 => l[2] += n,
            _ => self.0.push([set as usize, skipped, n]),
        }
    }
}
/// as `valid`, of rows too many to list
fn vlong(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let n = us(&v["n"]);
    let ops = &v["ops"];
    let ivs: Vec<Interval> = arr(&v["ivs"]).iter().map(|x| Interval::new(us(&x[0]), us(&x[1]))).collect();
    let new = || -> HybridDecoderBitmapIter { HybridRleIter::new(Decoder::new(&b, 1), n) };
    let mut runs = Counted::default();
    let mut it = new();
    let mut seen = 0;
    let mut left = vec![[0, it.number_of_elements()]];
    while let Some(r) = it.next() {
        let r = r.unwrap();
        seen += r.len();
        left.push([seen, it.number_of_elements()]);
        match r {
            HybridEncoded::Bitmap(m, l) => BitmapIter::new(m, 0, l).for_each(|x| runs.give(x, 0, 1)),
            HybridEncoded::Repeated(s, l) => runs.give(s, 0, l),
        }
    }
    let bits = iter_ops(HybridRleDecoderIter::new(new()), ops, |x| json!(x.unwrap() as u8));
    let paired = iter_ops(OptionalValues::new(HybridRleDecoderIter::new(new()), 0u32..), ops, |x| match x {
        Ok(Some(x)) => json!(x),
        Ok(None) => json!(-1),
        Err(_) => json!([]),
    });
    let (mut rows, mut skip, mut given) = (Counted::default(), 0, 0);
    let mut f = FilteredHybridRleDecoderIter::new(new(), ivs.iter().copied().collect());
    let mut rleft = vec![[0, f.len()]];
    while let Some(r) = f.next() {
        let r = r.unwrap();
        given += r.len();
        match r {
            FilteredHybridEncoded::Skipped(s) => skip += s,
            FilteredHybridEncoded::Bitmap { values, offset, length } => BitmapIter::new(values, offset, length).for_each(|x| rows.give(x, std::mem::take(&mut skip), 1)),
            FilteredHybridEncoded::Repeated { is_set, length } => {
                if length > 0 {
                    rows.give(is_set, std::mem::take(&mut skip), length)
                }
            }
        }
        rleft.push([given, f.len()]);
    }
    let slice = iter_ops(SliceFilteredIter::new(0..n, ivs.into()), ops, |x| json!(x));
    json!({"runs": runs.0, "left": left, "bits": bits, "paired": paired, "rows": rows.0, "rleft": rleft, "slice": slice})
}
/// {bytes, n, ivs: [[start, length]], ops}
fn valid(v: &Value) -> Value {
    let b = bytes(&v["bytes"]);
    let n = us(&v["n"]);
    let ops = &v["ops"];
    let ivs: Vec<Interval> = arr(&v["ivs"]).iter().map(|x| Interval::new(us(&x[0]), us(&x[1]))).collect();
    let new = || -> HybridDecoderBitmapIter { HybridRleIter::new(Decoder::new(&b, 1), n) };
    let bit = |x: Result<bool, _>| match x {
        Ok(x) => json!(x as u8),
        Err::<_, parquet2::error::Error>(_) => json!([]),
    };

    let mut runs: Vec<u8> = vec![];
    let mut it = new();
    let mut left = vec![[0, it.number_of_elements()]];
    let mut empties = vec![json!([it.len(), it.is_empty()])];
    let mut bad = false;
    for r in &mut it.by_ref().take(100000).collect::<Vec<_>>() {
        match r {
            Ok(HybridEncoded::Bitmap(m, l)) => runs.extend(BitmapIter::new(m, 0, *l).map(|x| x as u8)),
            Ok(HybridEncoded::Repeated(s, l)) => runs.extend(std::iter::repeat(*s as u8).take(*l)),
            Err(_) => {
                bad = true;
                break;
            }
        }
    }
    let mut it = new();
    let mut seen = 0;
    while let Some(Ok(r)) = it.next() {
        seen += r.len();
        left.push([seen, it.number_of_elements()]);
        empties.push(json!([it.len(), it.is_empty()]));
        empties.push(json!([r.len(), r.is_empty()]));
        if left.len() > 100000 {
            break;
        }
    }
    let bits = iter_ops(HybridRleDecoderIter::new(new()), ops, bit);
    let paired = iter_ops(OptionalValues::new(HybridRleDecoderIter::new(new()), 0u32..), ops, |x| match x {
        Ok(Some(x)) => json!(x),
        Ok(None) => json!(-1),
        Err(_) => json!([]),
    });

    let mut rows = vec![];
    let mut f = FilteredHybridRleDecoderIter::new(new(), ivs.iter().copied().collect());
    let mut rleft = vec![[0, f.len()]];
    let mut flen = 0;
    let mut skip = 0;
    let mut steps = 0;
    empties.push(json!([f.len(), f.is_empty()]));
    while let Some(r) = f.next() {
        empties.push(json!([f.len(), f.is_empty()]));
        if let Ok(r) = &r {
            empties.push(json!([r.len(), r.is_empty()]));
            flen += r.len();
        }
        let mut give = |set: bool| {
            rows.push(json!([set as u8, skip]));
            skip = 0;
        };
        match r {
            Ok(FilteredHybridEncoded::Skipped(s)) => skip += s,
            Ok(FilteredHybridEncoded::Bitmap { values, offset, length }) => BitmapIter::new(values, offset, length).for_each(give),
            Ok(FilteredHybridEncoded::Repeated { is_set, length }) => (0..length).for_each(|_| give(is_set)),
            Err(_) => {
                bad = true;
                break;
            }
        }
        rleft.push([rows.len(), f.len()]);
        steps += 1;
        if steps > 100000 {
            break;
        }
    }
    let slice = iter_ops(SliceFilteredIter::new(0..n, ivs.into()), ops, |x| json!(x));
    json!({"runs": runs, "left": left, "bits": bits, "paired": paired, "rows": rows, "rleft": rleft, "slice": slice, "bad": bad, "empties": empties, "flen": flen})
}
