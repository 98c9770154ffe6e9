//! `JSON.stringify` and `JSON.parse`.
use crate::{sim, JsValue, V};
use serde_json::Value;

/// A number as JavaScript prints it.
pub fn number(n: f64) -> String {
    if n.is_nan() {
        return "NaN".into();
    }
    if n.is_infinite() {
        return if n > 0.0 { "Infinity".into() } else { "-Infinity".into() };
    }
    if n == 0.0 {
        return "0".into();
    }
    let s = format!("{:e}", n.abs());
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let d: String = m.chars().filter(|c| *c != '.').collect();
    let k = d.len() as i32;
    let p = e + 1;
    let t = if k <= p && p <= 21 {
        format!("{}{}", d, "0".repeat((p - k) as usize))
    } else if 0 < p && p <= 21 {
        format!("{}.{}", &d[..p as usize], &d[p as usize..])
    } else if -6 < p && p <= 0 {
        format!("0.{}{}", "0".repeat(-p as usize), d)
    } else {
        let sign = if e < 0 { '-' } else { '+' };
        let rest = if k == 1 { String::new() } else { format!(".{}", &d[1..]) };
        format!("{}{}e{}{}", &d[..1], rest, sign, e.abs())
    };
    if n < 0.0 {
        format!("-{}", t)
    } else {
        t
    }
}

fn quote(s: &str) -> String {
    Value::String(s.to_string()).to_string()
}

/// Nothing for what has no JSON form.
pub fn stringify(v: &JsValue) -> Option<String> {
    Some(match &v.0 {
        V::Undefined | V::Function(_) => return None,
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Num(n) => {
            if n.is_finite() {
                number(*n)
            } else {
                "null".into()
            }
        }
        V::Str(s) => quote(s),
        V::Array(a) => {
            let items: Vec<String> = a.borrow().iter().map(|x| stringify(x).unwrap_or_else(|| "null".into())).collect();
            format!("[{}]", items.join(","))
        }
        V::Object(m) => members(&m.borrow()),
        // members of errors are not enumerable, except those added later
        V::Error(m) => members(&m.borrow().iter().filter(|(k, _)| k != "message" && k != "name").cloned().collect::<Vec<_>>()),
        V::Instance(..) => "{\"__wbg_ptr\":1114136}".into(),
        V::Host(_) | V::Promise(_) => "{}".into(),
    })
}

fn members(m: &[(String, JsValue)]) -> String {
    let items: Vec<String> = m.iter().filter_map(|(k, v)| stringify(v).map(|t| format!("{}:{}", quote(k), t))).collect();
    format!("{{{}}}", items.join(","))
}

pub fn parse(s: &str) -> Result<JsValue, JsValue> {
    match serde_json::from_str::<Value>(s) {
        Ok(v) => Ok(value(&v)),
        Err(e) => Err(sim::error("SyntaxError", &e.to_string())),
    }
}

pub fn value(v: &Value) -> JsValue {
    match v {
        Value::Null => JsValue::NULL,
        Value::Bool(b) => JsValue::from_bool(*b),
        // to the nearest double, from the text
        Value::Number(n) => JsValue::from_f64(n.to_string().parse::<f64>().unwrap_or(f64::NAN)),
        Value::String(s) => JsValue::from_str(s),
        Value::Array(a) => sim::array(a.iter().map(value).collect()),
        Value::Object(m) => sim::object(m.iter().map(|(k, v)| (k.clone(), value(v))).collect()),
    }
}

pub fn debug(v: &JsValue) -> String {
    match &v.0 {
        V::Undefined => "undefined".into(),
        V::Num(n) => number(*n),
        V::Array(a) => format!("[{}]", a.borrow().iter().map(debug).collect::<Vec<_>>().join(", ")),
        V::Object(_) => format!("Object({})", stringify(v).unwrap_or_default()),
        V::Error(_) => sim::error_text(v),
        V::Instance(n, _) => n.to_string(),
        V::Host(_) => "Object({})".into(),
        V::Promise(_) => "Promise".into(),
        V::Function(_) => "Function".into(),
        _ => stringify(v).unwrap_or_default(),
    }
}
