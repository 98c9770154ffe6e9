//! Generated application messages: the library's value, and what it has to mean, built side by side.
use crate::choices::Choices;
use crate::keys::b64;
use didcomm::{Attachment, AttachmentData, FromPrior, Message};
use serde_json::{json, Map, Value};

pub struct Gen<'a> {
    pub ch: &'a mut Choices,
    pub marker: String,
}

/// A number whose digits are known to change on the way (known_findings.txt).
pub const DIGITS: f64 = 0.9073038322028689;

const WORDS: &[&str] = &[
    "plain", "", "a b", "quo\"te", "back\\slash", "new\nline", "tab\t", "snowman \u{2603}", "\u{1F600} astral", "nul\u{0}byte", "\u{7f}del", "e\u{301}",
    "dot.dot", "did:example:other#key-1", "{\"json\":1}", "ZXhhbXBsZQ==", "https://example.org/a?b=c&d=%20", "null", "true", "\u{feff}bom", "line\u{2028}sep",
];

impl<'a> Gen<'a> {
    pub fn word(&mut self) -> String {
        let i = self.ch.draw(WORDS.len() as u64 + 6) as usize;
        if i < WORDS.len() {
            WORDS[i].to_string()
        } else if i < WORDS.len() + 4 {
            // recognisable wherever it turns up
            format!("w-{}", self.marker)
        } else {
            let n = self.ch.draw(300);
            "x".repeat(n as usize)
        }
    }
    fn num(&mut self) -> Value {
        match self.ch.draw(12) {
            9 => self.float(|n| ((n % 2_000_000_000) as f64 - 1e9) / 100.0),
            10 => self.float(|n| n as f64 / (1u64 << 52) as f64),
            11 => self.float(|n| f64::from_bits((n << 11) ^ (n >> 3))),
            0 => json!(0),
            1 => json!(1),
            2 => json!(-1),
            3 => json!(u64::MAX),
            4 => json!(i64::MIN),
            5 => json!(9007199254740993u64),
            6 => json!(0.5),
            7 => json!(-1024.25),
            _ => json!(self.ch.draw(1 << 40)),
        }
    }
    /// A number that is no integer (nor looks like one in JavaScript).  Some of them change in the JSON
    /// parser of the library as it is configured (see DIGITS): those are left out here.
    fn float(&mut self, f: impl Fn(u64) -> f64) -> Value {
        let x = f(self.ch.draw(1 << 52));
        let plain = x.is_finite() && (x.fract() != 0.0 || x.abs() >= 1e21);
        let v = json!(x);
        if plain && serde_json::from_str::<Value>(&v.to_string()).ok() == Some(v.clone()) {
            v
        } else {
            json!(0.25)
        }
    }
    pub fn value(&mut self, depth: u32) -> Value {
        let n = if depth == 0 { 5 } else { 7 };
        match self.ch.draw(n) {
            0 => Value::String(self.word()),
            1 => Value::Null,
            2 => Value::Bool(self.ch.chance(1, 2)),
            3 => self.num(),
            4 => json!({}),
            5 => {
                let n = self.ch.draw(4);
                Value::Array((0..n).map(|_| self.value(depth - 1)).collect())
            }
            _ => {
                let n = self.ch.draw(4);
                let mut m = Map::new();
                for _ in 0..n {
                    let k = self.word();
                    let v = self.value(depth - 1);
                    m.insert(k, v);
                }
                Value::Object(m)
            }
        }
    }
    fn time(&mut self) -> u64 {
        match self.ch.draw(8) {
            0 => 1516269022,
            1 => 0,
            2 => 1,
            3 => u64::MAX,
            4 => i64::MAX as u64 + 1,
            // more than a floating point number holds
            5 => (1 << 53) + 1 + self.ch.draw(1 << 62),
            _ => self.ch.draw(1 << 34),
        }
    }

    pub fn attachment(&mut self) -> (Attachment, Value) {
        let kind = self.ch.draw(3);
        let mut data = Map::new();
        let mut b = match kind {
            0 => {
                let s = format!("{}{}", b64(self.word()), b64(&self.marker));
                data.insert("base64".into(), json!(s));
                Attachment::base64(s)
            }
            1 => {
                let mut v = self.value(2);
                if v.is_string() {
                    v = json!({ "inner": v, "m": self.marker });
                }
                // sometimes data that looks like another kind of attachment
                if self.ch.chance(1, 8) {
                    v = json!({"base64": "AA", "links": ["l"], "hash": "h"});
                }
                data.insert("json".into(), v.clone());
                Attachment::json(v)
            }
            _ => {
                let n = self.ch.draw(3);
                let links: Vec<String> = (0..n).map(|i| format!("https://{}/{}", self.marker, i)).collect();
                let h = self.word();
                data.insert("links".into(), json!(links));
                data.insert("hash".into(), json!(h));
                Attachment::links(links, h)
            }
        };
        let mut v = Map::new();
        let mut todo: Vec<u32> = (0..8).filter(|_| self.ch.chance(2, 5)).collect();
        while !todo.is_empty() {
            let i = self.ch.draw(todo.len() as u64) as usize;
            match todo.remove(i) {
                0 => {
                    let s = self.word();
                    v.insert("id".into(), json!(s));
                    b = b.id(s);
                }
                1 => {
                    let s = format!("desc {}", self.marker);
                    v.insert("description".into(), json!(s));
                    b = b.description(s);
                }
                2 => {
                    let s = self.word();
                    v.insert("filename".into(), json!(s));
                    b = b.filename(s);
                }
                3 => {
                    let s = self.word();
                    v.insert("media_type".into(), json!(s));
                    b = b.media_type(s);
                }
                4 => {
                    let s = self.word();
                    v.insert("format".into(), json!(s));
                    b = b.format(s);
                }
                5 => {
                    let t = self.time();
                    v.insert("lastmod_time".into(), json!(t));
                    b = b.lastmod_time(t);
                }
                6 => {
                    let t = self.time();
                    v.insert("byte_count".into(), json!(t));
                    b = b.byte_count(t);
                }
                _ => {
                    let s = format!("jws.{}", self.word());
                    data.insert("jws".into(), json!(s));
                    b = b.jws(s);
                }
            }
        }
        v.insert("data".into(), Value::Object(data));
        (b.finalize(), Value::Object(v))
    }

    /// A message and its meaning as plaintext JSON.
    pub fn message(&mut self, id: String, from: Option<String>, to: Option<Vec<String>>, from_prior: Option<String>) -> (Message, Value) {
        let type_ = match self.ch.draw(6) {
            0 => "http://example.com/protocols/lets_do_lunch/1.0/proposal".to_string(),
            1 => "https://didcomm.org/routing/2.0/forwarded".to_string(),
            2 => "https://didcomm.org/routing/2.0/ping".to_string(),
            _ => format!("type/{}", self.word()),
        };
        let mut body = self.value(3);
        if !body.is_object() && !self.ch.chance(1, 5) {
            body = json!({ "content": body });
        }
        match self.ch.draw(60) {
            // more than any buffer or length field of a careless implementation holds
            0 | 1 => {
                let n = (1u64 << (10 + if self.ch.chance(1, 8) { self.ch.draw(11) } else { self.ch.draw(8) })) + self.ch.draw(64) - 32;
                let big: String = (0..n).map(|i| char::from(b'a' + (i * i % 23) as u8)).collect();
                body = json!({ "big": big });
            }
            2 => {
                for _ in 0..self.ch.draw(100) {
                    body = json!([body]);
                }
                body = json!({ "deep": body });
            }
            3 => {
                let n = self.ch.draw(400);
                body = json!((0..n).map(|i| (format!("member {}", i), json!(i))).collect::<Map<_, _>>());
            }
            _ => {}
        }
        if let Value::Object(o) = &mut body {
            o.insert("secret".into(), json!(self.marker));
        }
        let mut exp = Map::new();
        exp.insert("id".into(), json!(id));
        exp.insert("typ".into(), json!("application/didcomm-plain+json"));
        exp.insert("type".into(), json!(type_));
        exp.insert("body".into(), body.clone());
        let mut b = Message::build(id, type_, body);
        // the builder's calls come in any order
        let mut todo: Vec<u32> = vec![];
        if from.is_some() {
            todo.push(0);
        }
        if to.is_some() {
            todo.push(1);
        }
        for i in 2..8 {
            if self.ch.chance(1, 3) {
                todo.push(i);
            }
        }
        if from_prior.is_some() {
            todo.push(8);
        }
        while !todo.is_empty() {
            let i = self.ch.draw(todo.len() as u64) as usize;
            match todo.remove(i) {
                0 => {
                    let f = from.clone().unwrap();
                    exp.insert("from".into(), json!(f));
                    b = b.from(f);
                }
                1 => {
                    let t = to.clone().unwrap();
                    exp.insert("to".into(), json!(t));
                    match self.ch.draw(3) {
                        0 => b = b.to_many(t),
                        1 if !t.is_empty() => {
                            for x in t {
                                b = b.to(x);
                            }
                        }
                        _ => {
                            let k = self.ch.draw(t.len() as u64 + 1) as usize;
                            let (l, r) = t.split_at(k);
                            if self.ch.chance(1, 2) && l.len() == 1 {
                                b = b.to(l[0].clone());
                            } else {
                                b = b.to_many(l.to_vec());
                            }
                            b = b.to_many(r.to_vec());
                        }
                    }
                }
                2 => {
                    let s = self.word();
                    exp.insert("thid".into(), json!(s));
                    b = b.thid(s);
                }
                3 => {
                    let s = self.word();
                    exp.insert("pthid".into(), json!(s));
                    b = b.pthid(s);
                }
                4 => {
                    let t = self.time();
                    exp.insert("created_time".into(), json!(t));
                    b = b.created_time(t);
                }
                5 => {
                    let t = self.time();
                    exp.insert("expires_time".into(), json!(t));
                    b = b.expires_time(t);
                }
                6 => {
                    let n = if self.ch.chance(1, 20) { self.ch.range(4, 40) } else { self.ch.range(1, 3) };
                    for i in 0..n {
                        // unlike any standard member; later calls overwrite earlier ones
                        let k = match self.ch.draw(8) {
                            0 => "x-header".to_string(),
                            6 => ["X-Header", "ID", "Body", "next", "jws", "ciphertext", "payload", "recipients", "protected", "signatures", "data", "ack", "lang", ""][self.ch.draw(14) as usize].to_string(),
                            1 | 7 => format!("h{}", i),
                            2 => "From".to_string(),
                            3 => "type_".to_string(),
                            4 => "created-time".to_string(),
                            _ => format!("x {}", self.word()),
                        };
                        let v = self.value(2);
                        exp.insert(k.clone(), v.clone());
                        b = b.header(k, v);
                    }
                }
                7 => {
                    let n = if self.ch.chance(1, 20) { self.ch.draw(30) } else { self.ch.draw(4) };
                    let atts: Vec<_> = (0..n).map(|_| self.attachment()).collect();
                    exp.insert("attachments".into(), Value::Array(atts.iter().map(|a| a.1.clone()).collect()));
                    let libs: Vec<_> = atts.into_iter().map(|a| a.0).collect();
                    if n == 0 || self.ch.chance(1, 2) {
                        b = b.attachments(libs);
                    } else {
                        let k = self.ch.draw(n + 1) as usize;
                        let mut it = libs.into_iter();
                        let first: Vec<_> = it.by_ref().take(k).collect();
                        if self.ch.chance(1, 2) {
                            b = b.attachments(first);
                        } else {
                            for a in first {
                                b = b.attachment(a);
                            }
                        }
                        b = b.attachments(it.collect());
                    }
                }
                _ => {
                    let f = from_prior.clone().unwrap();
                    exp.insert("from_prior".into(), json!(f));
                    b = b.from_prior(f);
                }
            }
        }
        (b.finalize(), Value::Object(exp))
    }
}

/// Read a message field by field.
pub fn msg_value(m: &Message) -> Value {
    let mut o = Map::new();
    for (k, v) in &m.extra_headers {
        o.insert(k.clone(), v.clone());
    }
    o.insert("id".into(), json!(m.id));
    o.insert("typ".into(), json!(m.typ));
    o.insert("type".into(), json!(m.type_));
    o.insert("body".into(), m.body.clone());
    let mut opt = |n: &str, v: Option<Value>| {
        if let Some(v) = v {
            o.insert(n.into(), v);
        }
    };
    opt("from", m.from.as_ref().map(|x| json!(x)));
    opt("to", m.to.as_ref().map(|x| json!(x)));
    opt("thid", m.thid.as_ref().map(|x| json!(x)));
    opt("pthid", m.pthid.as_ref().map(|x| json!(x)));
    opt("created_time", m.created_time.map(|x| json!(x)));
    opt("expires_time", m.expires_time.map(|x| json!(x)));
    opt("from_prior", m.from_prior.as_ref().map(|x| json!(x)));
    opt("attachments", m.attachments.as_ref().map(|a| Value::Array(a.iter().map(att_value).collect())));
    Value::Object(o)
}

pub fn att_value(a: &Attachment) -> Value {
    let mut d = Map::new();
    let jws = match &a.data {
        AttachmentData::Base64 { value } => {
            d.insert("base64".into(), json!(value.base64));
            &value.jws
        }
        AttachmentData::Json { value } => {
            d.insert("json".into(), value.json.clone());
            &value.jws
        }
        AttachmentData::Links { value } => {
            d.insert("links".into(), json!(value.links));
            d.insert("hash".into(), json!(value.hash));
            &value.jws
        }
    };
    if let Some(j) = jws {
        d.insert("jws".into(), json!(j));
    }
    let mut o = Map::new();
    o.insert("data".into(), Value::Object(d));
    let mut opt = |n: &str, v: Option<Value>| {
        if let Some(v) = v {
            o.insert(n.into(), v);
        }
    };
    opt("id", a.id.as_ref().map(|x| json!(x)));
    opt("description", a.description.as_ref().map(|x| json!(x)));
    opt("filename", a.filename.as_ref().map(|x| json!(x)));
    opt("media_type", a.media_type.as_ref().map(|x| json!(x)));
    opt("format", a.format.as_ref().map(|x| json!(x)));
    opt("lastmod_time", a.lastmod_time.map(|x| json!(x)));
    opt("byte_count", a.byte_count.map(|x| json!(x)));
    Value::Object(o)
}

pub fn from_prior_value(f: &FromPrior) -> Value {
    let mut o = Map::new();
    o.insert("iss".into(), json!(f.iss));
    o.insert("sub".into(), json!(f.sub));
    let mut opt = |n: &str, v: Option<Value>| {
        if let Some(v) = v {
            o.insert(n.into(), v);
        }
    };
    opt("aud", f.aud.as_ref().map(|x| json!(x)));
    opt("exp", f.exp.map(|x| json!(x)));
    opt("nbf", f.nbf.map(|x| json!(x)));
    opt("iat", f.iat.map(|x| json!(x)));
    opt("jti", f.jti.as_ref().map(|x| json!(x)));
    Value::Object(o)
}
