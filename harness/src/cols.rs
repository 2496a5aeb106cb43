//! Columns of a field: iterated, pre-read and iterated, or read into memory.
use crate::file;
use crate::io::Src;
use crate::util::*;
use parquet2::error::Error;
use parquet2::metadata::ColumnChunkMetaData;
use parquet2::page::CompressedPage;
use parquet2::read::*;
use serde_json::{json, Value};
use std::sync::Arc;

type Kind = fn(&Value) -> Value;
pub fn lookup(k: &str) -> Option<Kind> {
    Some(match k {
        "cols" => cols,
        _ => return None,
    })
}

/// takes pages of every column as the script says
fn visit<M, I>(mut it: M, cols: &[ColumnChunkMetaData], takes: &[usize]) -> Result<Value, Error>
where
    I: Iterator<Item = Result<CompressedPage, Error>>,
    M: MutStreamingIterator<Item = (I, ColumnChunkMetaData), Error = Error>,
{
    let mut out = vec![];
    loop {
        match it.advance()? {
            State::Finished(b) => return Ok(json!({"cols": out, "cap": b.capacity()})),
            State::Some(mut n) => {
                if let Some((pages, c)) = n.get() {
                    let take = takes[out.len() % takes.len()];
                    let i = cols.iter().position(|x| x.byte_range() == c.byte_range() && x.descriptor() == c.descriptor());
                    out.push(json!({"i": i, "pages": file::pages_fresh(pages.take(take))}));
                }
                if out.len() > 1000 {
                    return Ok(json!({"cols": out, "cap": 0}));
                }
                it = n;
            }
        }
    }
}

fn cols(v: &Value) -> Value {
    let w = catch(|| file::write_history(v, false));
    if w.get("panic").is_some() {
        return w;
    }
    let b = bytes(&w["sink"]);
    let Ok(m) = read_metadata(&mut Src::new(&b, &[], false)) else { return json!({"sink": w["sink"]}) };
    let base = far(v);
    let m = if base > 0 { file::shifted(m, base, &b).0 } else { m };
    let src = |b: &[u8], sizes: &[usize], pend: bool| Src::new(b, sizes, pend).far(base);
    let mut looks = vec![];
    for q in arr(&v["looks"]) {
        let sizes: Vec<usize> = arr(&q["sizes"]).iter().map(us).collect();
        let g = &m.row_groups[us(&q["rg"])];
        let name = crate::schema::string(&q["name"]);
        let takes: Vec<usize> = arr(&q["takes"]).iter().map(us).collect();
        let filter: Option<PageFilter> = if q["filter"] == json!(true) { Some(Arc::new(|_, h| h.num_values() % 2 == 0)) } else { None };
        let at = |c: &ColumnChunkMetaData| g.columns().iter().position(|x| std::ptr::eq(x, c));
        let field: Vec<_> = get_field_columns(g.columns(), &name).map(at).collect();
        let mut scratch = Vec::with_capacity(us(&q["scratch"]));
        scratch.extend_from_slice(&[1, 2, 3][..us(&q["scratch"]).min(3)]);
        let mut s = src(&b, &sizes, false);
        let f = visit(get_column_iterator(&mut s, g, &name, filter, scratch, usize::MAX >> 1), g.columns(), &takes).unwrap_or_else(|_| err());
        let mem = (|| {
            let mut s = src(&b, &sizes, false);
            let chunks = read_columns(&mut s, g.columns(), &name)?
                .into_iter()
                .map(|(c, bytes)| (PageReader::new(std::io::Cursor::new(bytes), c, Arc::new(|_, _| true), vec![], usize::MAX >> 1).collect::<Vec<_>>(), c.clone()))
                .collect::<Vec<_>>();
            let field = m.schema().fields().iter().find(|f| f.name() == name).unwrap_or(&m.schema().fields()[0]).clone();
            visit(ReadColumnIterator::new(field, chunks), g.columns(), &takes)
        })()
        .unwrap_or_else(|_| err());
        // whole chunks of a source that ends early
        let cut = &b[..us(&q["cut"]).min(b.len())];
        let list = |r: Result<Vec<(&ColumnChunkMetaData, Vec<u8>)>, Error>| match r {
            Ok(l) => json!({"ok": l.into_iter().map(|(c, b)| json!({"i": at(c), "b": b})).collect::<Vec<_>>()}),
            Err(_) => err(),
        };
        let one = |r: Result<Vec<u8>, Error>| r.map(|b| json!({"b": b})).unwrap_or_else(|_| err());
        let raw = list(read_columns(&mut src(cut, &sizes, false), g.columns(), &name));
        let factory = || {
            let s = src(cut, &sizes, true);
            Box::pin(async move { Ok(s) }) as futures::future::BoxFuture<std::io::Result<Src>>
        };
        let araw = list(futures::executor::block_on(read_columns_async(factory, g.columns(), &name)));
        let mut shared = src(cut, &sizes, false);
        let o: Vec<_> = get_field_columns(g.columns(), &name).map(|c| one(read_column(&mut shared, c))).collect();
        let ao: Vec<_> = get_field_columns(g.columns(), &name).map(|c| one(futures::executor::block_on(read_column_async(factory, c)))).collect();
        looks.push(json!({"field": field, "file": f, "mem": mem, "raw": raw, "araw": araw, "one": o, "aone": ao}));
    }
    json!({"sink": w["sink"], "looks": looks})
}
