//! The same pure computation is asked for again and again (a wallet's keys, the reference model): remember it.
use std::cell::RefCell;
use std::collections::HashMap;
use std::thread::LocalKey;

pub(crate) type Memo<V> = RefCell<HashMap<Vec<u8>, V>>;

/// `f()`, computed once per thread for a given `what` and `key`.
pub(crate) fn memo<V: Clone>(map: &'static LocalKey<Memo<V>>, what: &str, key: &[&[u8]], f: impl FnOnce() -> V) -> V {
    let mut k = what.as_bytes().to_vec();
    for x in key {
        k.extend((x.len() as u32).to_le_bytes());
        k.extend_from_slice(x);
    }
    if let Some(v) = map.with(|m| m.borrow().get(&k).cloned()) {
        return v;
    }
    let v = f();
    map.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20_000 {
            m.clear();
        }
        m.insert(k, v.clone());
    });
    v
}
