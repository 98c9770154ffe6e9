//! Library operations as the simulation performs them: with injected faults, cancellation and crashes,
//! each judged against the reference model as soon as it ends.
use crate::exec::{self, LibCall, LibOut};
use crate::msgs::*;
use crate::oracle::*;
use crate::peer::*;
use crate::world::*;
use didcomm::error::{ErrorKind, Result};
use didcomm::{FromPrior, Message, PackEncryptedMetadata, UnpackMetadata, UnpackOptions};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Err(ErrorKind, String),
    /// Cancelled, crashed or panicked.
    Gone,
}

pub struct Spec {
    pub dev: usize,
    pub what: String,
    pub plan: Plan,
    pub cancel_at: Option<u32>,
    pub quick: bool,
    /// Documents and secrets are meant to break the library.
    pub hostile: bool,
}

impl Spec {
    /// No faults for this operation.
    pub fn calm(dev: usize, what: &str) -> Spec {
        Spec { dev, what: what.into(), plan: Plan::None, cancel_at: None, quick: false, hostile: false }
    }
    pub fn quick(dev: usize, what: &str) -> Spec {
        Spec { dev, what: what.into(), plan: Plan::None, cancel_at: None, quick: true, hostile: false }
    }
    pub fn faulty(w: &Wr, dev: usize, what: &str) -> Spec {
        let mut w = w.borrow_mut();
        let mut s = Spec::calm(dev, what);
        if !w.cfg.faults_on {
            return s;
        }
        let (f, c) = (w.cfg.fault_pct, w.cfg.cancel_pct);
        if w.ch.chance(f, 100) {
            s.plan = match w.ch.weighted(&[5, 3, 1]) {
                0 => {
                    let call = w.ch.draw(7) as u32;
                    Plan::Fail { call, kind: ALL_KINDS[w.ch.draw(9) as usize] }
                }
                1 => Plan::Absent { call: w.ch.draw(6) as u32 },
                _ => Plan::Vanish,
            };
        } else if w.ch.chance(c, 100) {
            s.cancel_at = Some(1 + w.ch.draw(6) as u32);
        }
        s
    }
}

pub fn new_ctx(w: &Wr, s: &Spec) -> CtxR {
    let mut wb = w.borrow_mut();
    wb.next_op += 1;
    let id = wb.next_op;
    let d = &wb.devs[s.dev];
    Rc::new(RefCell::new(Ctx {
        id,
        dev: s.dev,
        what: s.what.clone(),
        plan: s.plan.clone(),
        calls: 0,
        answers: vec![],
        finds: 0,
        gets: 0,
        first_err: None,
        absent: None,
        absent_kids: Default::default(),
        hostile: s.hostile,
        quick: s.quick,
        wallet_epoch: d.wallet_epoch,
        epoch: d.epoch,
        cancel_at: s.cancel_at,
        runaway: false,
    }))
}

pub async fn run_op<T: 'static>(w: &Wr, s: Spec, mk: impl FnOnce(SimResolver, SimWallet) -> BoxFut<Result<T>>) -> (Out<T>, CtxR) {
    let ctx = new_ctx(w, &s);
    let (r, sr) = resolvers(w, &ctx);
    let id = ctx.borrow().id;
    {
        let mut wb = w.borrow_mut();
        wb.stat("op");
        let name = wb.devs[s.dev].name.clone();
        let extra = match (&s.plan, s.cancel_at) {
            (Plan::None, None) => String::new(),
            (p, c) => format!(" plan {:?} cancel {:?}", p, c),
        };
        wb.log(format!("op{} {}: {}{}", id, name, s.what, extra));
    }
    let (w1, w2, c1) = (w.clone(), w.clone(), ctx.clone());
    let what = s.what.clone();
    let dev = s.dev;
    let quick = s.quick;
    let call = LibCall {
        fut: Some(mk(r, sr)),
        stop: Box::new(move |awaits| {
            let c = c1.borrow();
            (c.cancel_at == Some(awaits)) || (!quick && w1.borrow().devs[dev].epoch != c.epoch)
        }),
        sink: Box::new(move |log| {
            if !log.0.is_empty() || !log.1.is_empty() {
                w2.borrow_mut().absorb(&what, log)
            }
        }),
        awaits: 0,
    };
    let out = match call.await {
        LibOut::Cancelled => {
            let mut wb = w.borrow_mut();
            let crashed = wb.devs[dev].epoch != ctx.borrow().epoch;
            wb.stat(if crashed { "fault.crash.midop" } else { "fault.cancel" });
            wb.log(format!("op{} {}", id, if crashed { "lost in a crash" } else { "cancelled" }));
            Out::Gone
        }
        LibOut::Panicked(p) => {
            let m = format!("op{} {}: panicked: {}", id, s.what, p);
            w.borrow_mut().violation(&["C12"], m);
            Out::Gone
        }
        LibOut::Done(Ok(v)) => Out::Ok(v),
        LibOut::Done(Err(e)) => {
            let k = e.kind();
            Out::Err(k, short(&e.to_string()))
        }
    };
    {
        let mut wb = w.borrow_mut();
        let c = ctx.borrow();
        match &out {
            Out::Ok(_) => {
                wb.stat("op.ok");
                wb.log(format!("op{} ok", id));
                if let Some(k) = c.first_err {
                    wb.violation(&["C10"], format!("op{} {}: succeeded although the application reported {:?}", id, c.what, k));
                }
            }
            Out::Err(k, m) => {
                wb.stat(&format!("op.err.{:?}", k));
                wb.log(format!("op{} error {}", id, m));
                if let Some(f) = c.first_err {
                    if f != *k {
                        wb.violation(&["C10"], format!("op{} {}: application reported {:?}, operation failed with {:?} ({})", id, c.what, f, k, m));
                    }
                }
            }
            Out::Gone => {}
        }
        // a measure of distinct situations: kind of operation, faults met, outcome
        let kind = c.what.split(' ').next().unwrap_or("").to_string();
        let outc = match &out {
            Out::Ok(_) => "ok".to_string(),
            Out::Err(k, _) => format!("{:?}", k),
            Out::Gone => "gone".to_string(),
        };
        let key = format!("{}|{}|{:?}|{:?}|{}|{}|{}", kind, c.calls, c.first_err, c.absent.as_ref().map(std::mem::discriminant), outc, c.inconsistent(), c.answers.len());
        wb.cover(&key);
    }
    (out, ctx)
}

pub fn clean(w: &World, c: &Ctx) -> bool {
    !c.inconsistent() && !c.hostile && w.devs[c.dev].wallet_epoch == c.wallet_epoch && !c.runaway
}

fn involved_changed(w: &World, c: &Ctx) -> bool {
    c.answers.iter().any(|(d, a)| a.as_ref().map(|m| m.ver > 0).unwrap_or(false) || w.latest(d).map(|m| m.ver > 0).unwrap_or(false))
        || w.devs[c.dev].wallet_epoch > 0
}

fn involved_fmts(w: &World, c: &Ctx) -> bool {
    let d = &w.devs[c.dev];
    c.answers
        .iter()
        .filter_map(|(_, a)| a.as_ref())
        .any(|m| m.vms.iter().any(|v| matches!(v.mat, crate::keys::Mat::Good(_, f) if f != crate::keys::Fmt::Jwk)))
        || d.wallet.values().any(|s| s.fmt != crate::keys::Fmt::Jwk)
}

// ---------------------------------------------------------------- packing

pub struct Packed {
    pub text: String,
    pub origin: Rc<Origin>,
    pub first: String,
    pub hops: Vec<String>,
}

type PackOut = (String, Option<PackEncryptedMetadata>, Option<String>);

async fn raw_pack(w: &Wr, spec: Spec, r: &Rc<PackReq>) -> (Out<PackOut>, CtxR) {
    let r = r.clone();
    run_op(w, spec, move |dr, sr| {
        Box::pin(async move {
            match r.mode {
                Mode::Plain => Ok((r.lib.pack_plaintext(&dr).await?, None, None)),
                Mode::Signed => {
                    let (t, m) = r.lib.pack_signed(r.sign_by.as_deref().unwrap_or(""), &dr, &sr).await?;
                    Ok((t, None, Some(m.sign_by_kid)))
                }
                Mode::Encrypted => {
                    let (t, m) = r.lib.pack_encrypted(&r.to, r.from.as_deref(), r.sign_by.as_deref(), &dr, &sr, &r.opts).await?;
                    Ok((t, Some(m), None))
                }
            }
        })
    })
    .await
}

fn judge_pack(w: &mut World, c: &Ctx, r: &PackReq, out: &Out<PackOut>) -> (Vec<(Props, String)>, Need, Option<Inspection>) {
    let view = op_view(w, c);
    let n = need_pack(&view, r);
    let mut found: Vec<(Props, String)> = vec![];
    let clean = clean(w, c);
    if n.args && c.calls > 0 {
        found.push((vec!["C23"], format!("asked the application although the arguments are inconsistent: {}", n.bad[0].why)));
    }
    let gray = !n.gray.is_empty() || !clean;
    match out {
        Out::Gone => {}
        Out::Err(_, _) if c.first_err.is_some() => {}
        Out::Err(k, m) => {
            let mut allowed: Vec<ErrorKind> = vec![];
            let mut any = false;
            for b in &n.bad {
                match &b.kinds {
                    Some(x) => allowed.extend(x),
                    None => any = true,
                }
            }
            match &c.absent {
                Some(Absent::Did(_)) => allowed.push(ErrorKind::DIDNotResolved),
                Some(Absent::Find) => allowed.push(ErrorKind::SecretNotFound),
                Some(Absent::Get) => allowed.extend([ErrorKind::SecretNotFound, ErrorKind::InvalidState]),
                None => {}
            }
            if !gray && !any && !allowed.contains(k) {
                if allowed.is_empty() {
                    let mut p: Props = vec!["C01"];
                    if !n.hops.is_empty() {
                        p.push("C08");
                    }
                    if r.mode == Mode::Encrypted {
                        p.push("C05");
                    }
                    match k {
                        ErrorKind::DIDNotResolved | ErrorKind::DIDUrlNotFound | ErrorKind::SecretNotFound => p.push("C10"),
                        ErrorKind::NoCompatibleCrypto => p.push("C17"),
                        ErrorKind::IllegalArgument => p.push("C23"),
                        _ => {}
                    }
                    if n.mixed || r.sign_by.is_some() {
                        p.push("C17");
                    }
                    if r.sign_by.is_some() {
                        p.push("C16");
                    }
                    if r.exp.get("from_prior").is_some() {
                        p.push("C13");
                    }
                    if involved_fmts(w, c) {
                        p.push("C20");
                    }
                    found.push((p, format!("{} failed although nothing is wrong: {}", c.what, m)));
                } else {
                    let mut p: Props = vec!["C10"];
                    for b in &n.bad {
                        p.extend(&b.props);
                    }
                    found.push((p, format!("{} failed with {:?}, expected one of {:?} ({})", c.what, k, allowed, n.bad.iter().map(|b| b.why.clone()).collect::<Vec<_>>().join("; "))));
                }
            }
        }
        Out::Ok((text, meta, sign)) => {
            if let Some(a) = &c.absent {
                // other keys may do instead of the ones the wallet denied
                let spared = !matches!(a, Absent::Did(_)) && need_pack(&denied_view(w, c), r).bad.is_empty();
                if !spared {
                    found.push((vec!["C10"], format!("{} succeeded although {:?} was reported absent", c.what, a)));
                }
            }
            if !gray && c.absent.is_none() {
                for b in &n.bad {
                    found.push((b.props.clone(), format!("{} succeeded although {}", c.what, b.why)));
                }
            }
            if n.bad.is_empty() && c.absent.is_none() {
                let mut ids: Vec<String> = vec![];
                let sender = r.from.as_deref().map(|f| split_id(f).0.to_string()).or_else(|| r.exp["from"].as_str().map(|s| s.to_string()));
                let ident = sender.as_deref().and_then(|s| w.ident_of(s)).unwrap_or(w.devs[c.dev].ident);
                ids.push(w.idents[ident].did.clone());
                ids.extend(w.idents[ident].keys.iter().map(|k| k.0.kid.clone()));
                let mut ins = inspect(text, r, &n, &ids);
                if let Some(m) = meta {
                    if ins.found.is_empty() {
                        check_pack_meta(m, r, &n, &mut ins);
                    }
                }
                if let Some(s) = sign {
                    if ins.sign_kid.is_some() && ins.sign_kid.as_deref() != Some(s) {
                        ins.found.push((vec!["C05", "C16"], format!("metadata names signer {} instead of {:?}", s, ins.sign_kid)));
                    }
                }
                for f in &ins.fresh {
                    if !w.wire_unique.insert((f.0, f.1.clone())) {
                        found.push((vec!["C22"], format!("{} {} is used a second time", f.0, f.1)));
                    }
                }
                if !gray {
                    found.extend(ins.found.drain(..));
                }
                return (found, n, Some(ins));
            }
        }
    }
    (found, n, None)
}

pub async fn pack(w: &Wr, spec: Spec, r: &Rc<PackReq>) -> (Out<Packed>, Option<ErrorKind>) {
    let dev = spec.dev;
    let (out, ctx) = raw_pack(w, spec, r).await;
    let (mut found, n, ins) = {
        let mut wb = w.borrow_mut();
        let c = ctx.borrow();
        judge_pack(&mut wb, &c, r, &out)
    };
    if !found.is_empty() {
        // does the operation behave alone?
        let (out2, ctx2) = raw_pack(w, Spec::quick(dev, "pack again, alone"), r).await;
        let (found2, _, _) = {
            let mut wb = w.borrow_mut();
            let c = ctx2.borrow();
            judge_pack(&mut wb, &c, r, &out2)
        };
        let mut wb = w.borrow_mut();
        let c11 = (found2.is_empty() && !matches!(out2, Out::Gone)) || involved_changed(&wb, &ctx.borrow());
        for (p, m) in found.iter_mut() {
            if c11 && !p.contains(&"C23") {
                p.push("C11");
            }
            wb.violation(p, m.clone());
        }
    }
    let first_err = ctx.borrow().first_err;
    let mut wb = w.borrow_mut();
    let res = match out {
        Out::Gone => Out::Gone,
        Out::Err(k, m) => Out::Err(k, m),
        Out::Ok((text, _, _)) => {
            let (from_kid, sign_kid) = ins.map(|i| (i.from_kid, i.sign_kid)).unwrap_or((None, None));
            let content = r.exp.to_string();
            for k in [&from_kid, &sign_kid].iter().copied().flatten() {
                wb.ledger.insert((k.clone(), content.clone()));
            }
            // where the keys used cannot be told (the documents changed meanwhile), any key of the sender
            let gray = |w: &mut World, id: &str| {
                if let Some(i) = w.ident_of(split_id(id).0) {
                    for (k, _) in w.idents[i].keys.clone() {
                        w.ledger.insert((k.kid.clone(), content.clone()));
                    }
                }
            };
            if r.mode == Mode::Encrypted && from_kid.is_none() {
                if let Some(f) = &r.from {
                    gray(&mut wb, f);
                }
            }
            if sign_kid.is_none() {
                if let Some(s) = &r.sign_by {
                    gray(&mut wb, s);
                }
            }
            let enc = r.mode == Mode::Encrypted;
            let origin = Rc::new(Origin {
                msg: r.exp.clone(),
                marker: r.marker.clone(),
                from_did: r.from.as_deref().map(|f| split_id(f).0.to_string()),
                to_did: split_id(&r.to).0.to_string(),
                auth: r.from.is_some(),
                hidden: enc && (r.from.is_none() || r.opts.protect_sender),
                anon: enc && r.from.is_none(),
                encrypted: enc,
                sign_kid,
                from_kid,
                desc: format!("{:?} to {} from {:?} sign {:?}", r.mode, r.to, r.from, r.sign_by),
            });
            let hops: Vec<String> = n.hops.iter().map(|h| h.0.clone()).collect();
            let first = hops.first().cloned().unwrap_or(r.to.clone());
            Out::Ok(Packed { text, origin, first, hops })
        }
    };
    (res, first_err)
}

// ---------------------------------------------------------------- unpacking

#[derive(Clone)]
pub struct Got {
    pub msg: Message,
    pub value: Value,
    pub meta: UnpackMetadata,
    pub m: Meta,
}

async fn raw_unpack(w: &Wr, spec: Spec, text: &Rc<String>, o: RefOpts) -> (Out<Got>, CtxR) {
    let t = text.clone();
    let opts = UnpackOptions { expect_decrypt_by_all_keys: o.all_keys, unwrap_re_wrapping_forward: o.unwrap };
    let (out, ctx) = run_op(w, spec, move |dr, sr| Box::pin(async move { Message::unpack(&t, &dr, &sr, &opts).await })).await;
    let out = match out {
        Out::Ok((msg, meta)) => {
            let value = msg_value(&msg);
            let m = meta_of(&meta);
            Out::Ok(Got { msg, value, meta, m })
        }
        Out::Err(k, m) => Out::Err(k, m),
        Out::Gone => Out::Gone,
    };
    (out, ctx)
}

fn forged_props(p: &Prov) -> Props {
    match p {
        Prov::Honest(_) => vec!["C01"],
        Prov::Peer(..) => vec!["C21"],
        Prov::Damaged(..) => vec!["C02"],
        Prov::Harmless(..) => vec!["C01", "C02"],
        Prov::Forged(_, p) => p.to_vec(),
        Prov::Garbage(_) => vec!["C12"],
    }
}

fn judge_unpack(w: &World, c: &Ctx, text: &str, prov: &Prov, o: RefOpts, out: &Out<Got>) -> Vec<(Props, String)> {
    let mut found: Vec<(Props, String)> = vec![];
    let view = op_view(w, c);
    let hostile = view.answers.values().flatten().any(|d| d.vms.iter().any(|v| matches!(&v.mat, crate::keys::Mat::Weird { looks: Some(_), .. })));
    let clean = clean(w, c) && !hostile;
    let rf = ref_unpack(text, &view, o);
    let head = format!("{} [{}]", c.what, prov.label());
    if let Out::Ok(g) = out {
        // the holder of every reported key must have produced this content
        let content = g.value.to_string();
        for k in [&g.meta.encrypted_from_kid, &g.meta.sign_from].iter().copied().flatten() {
            if let Some(i) = w.ident_of(split_id(k).0) {
                let id = &w.idents[i];
                let stolen = id.kind == Kind::Mallory || id.devices.iter().any(|d| w.devs[*d].compromised);
                // whoever lists one key under two names speaks under both
                let same = id.keys.iter().find(|x| x.0.kid == *k).map(|x| x.0.x.clone());
                let twins = id.keys.iter().filter(|x| Some(&x.0.x) == same.as_ref()).map(|x| x.0.kid.clone());
                let known = std::iter::once(k.clone()).chain(twins).any(|t| w.ledger.contains(&(t, content.clone())));
                if !stolen && !known {
                    found.push((vec!["C03"], format!("{}: reported as from {} who never sent it: {}", head, k, short(&content))));
                }
            }
        }
        if let Prov::Damaged(or, _) | Prov::Harmless(or, _) = prov {
            if (or.encrypted || or.sign_kid.is_some()) && g.value != or.msg && as_forward(&g.value).is_none() {
                found.push((vec!["C02"], format!("{}: accepted with different content: {}", head, diff(&or.msg, &g.value))));
            }
        }
    }
    if !clean {
        return found;
    }
    match (out, &rf) {
        (Out::Gone, _) => {}
        (Out::Err(..), _) if c.first_err.is_some() => {}
        (Out::Ok(g), Ok(a)) => {
            if c.absent.is_some() && c.absent != Some(Absent::Find) && !a.gray && ref_unpack(text, &denied_view(w, c), o).is_err() {
                found.push((vec!["C10"], format!("{}: succeeded although {:?} was reported absent", head, c.absent)));
            }
            if c.absent.is_none() {
                let d = meta_diff(a, &g.m);
                if g.value != a.msg {
                    let mut p = forged_props(prov);
                    if a.meta.re_wrapped || g.m.re_wrapped || as_forward(&a.msg).is_some() {
                        p.push("C09");
                    }
                    if o.all_keys {
                        p.push("C14");
                    }
                    if a.meta.signed.is_some() {
                        p.push("C16");
                    }
                    found.push((p, format!("{}: content differs: {}", head, diff(&a.msg, &g.value))));
                }
                for (p, m) in d {
                    found.push((p, format!("{}: {}", head, m)));
                }
            }
        }
        (Out::Ok(g), Err(r)) => {
            if c.absent.is_some() {
                return found;
            }
            let same = prov.origin().map(|or| or.msg == g.value).unwrap_or(false);
            let soft = matches!(r.why, Why::Syntax | Why::NotMessage | Why::Decrypt | Why::CryptoUnsupported | Why::BadSignature);
            if !(same && soft) {
                let mut p: Props = why_props(r.why).to_vec();
                if let Prov::Damaged(..) = prov {
                    p.push("C02");
                }
                if let Prov::Forged(_, q) = prov {
                    p.extend(*q);
                }
                if r.why == Why::Decrypt && o.all_keys {
                    p.push("C14");
                }
                found.push((p, format!("{}: accepted although {:?} ({}): {}", head, r.why, r.layer, short(&g.value.to_string()))));
            }
        }
        (Out::Err(k, m), Ok(a)) => {
            let a_gray = a.gray;
            let absent_ok = c.absent.is_some();
            // nobody asked for all keys, and the first one the wallet holds decrypts
            let enough = matches!(prov, Prov::Forged(l, _) if *l == "damaged entry");
            if (prov.must_accept() || enough) && !a.gray && !absent_ok {
                let mut p: Props = match prov {
                    Prov::Peer(..) => vec!["C21"],
                    Prov::Harmless(..) => vec!["C01", "C14"],
                    Prov::Forged(..) => vec!["C14"],
                    _ => vec!["C01", "C21"],
                };
                if a.meta.re_wrapped || as_forward(&a.msg).is_some() {
                    p.push("C09");
                    p.push("C08");
                }
                if a.meta.from_prior.is_some() {
                    p.push("C13");
                }
                if o.all_keys {
                    p.push("C14");
                }
                if a.meta.signed.is_some() {
                    p.push("C16");
                }
                if *k == ErrorKind::Malformed && a.meta.encrypted {
                    p.push("C15");
                }
                if a.meta.encrypted {
                    p.push("C05");
                }
                match k {
                    ErrorKind::SecretNotFound => p.extend(["C10", "C04"]),
                    ErrorKind::DIDNotResolved | ErrorKind::DIDUrlNotFound => p.push("C10"),
                    _ => {}
                }
                if involved_fmts(w, c) {
                    p.push("C20");
                }
                if c.what.starts_with("retry") {
                    p.push("C11");
                }
                if enough {
                    p = vec!["C14"];
                }
                found.push((p, format!("{}: refused although nothing is wrong: {}", head, m)));
            }
            if let Some(a) = &c.absent {
                let ok: &[ErrorKind] = match a {
                    Absent::Did(_) => &[ErrorKind::DIDNotResolved],
                    Absent::Find => &[ErrorKind::SecretNotFound],
                    Absent::Get => &[ErrorKind::SecretNotFound, ErrorKind::InvalidState],
                };
                if prov.must_accept() && !a_gray && !ok.contains(k) {
                    found.push((vec!["C10"], format!("{}: {:?} absent, but failed with {:?}: {}", head, a, k, m)));
                }
            }
        }
        (Out::Err(k, m), Err(r)) => {
            if c.absent.is_some() {
                return found;
            }
            let mut all = r.also.clone();
            all.push(r.why);
            if prov.must_accept() {
                let mut allowed: Vec<ErrorKind> = vec![];
                let mut any = false;
                for x in &all {
                    match x.kinds() {
                        Some(k) => allowed.extend(k),
                        None => any = true,
                    }
                }
                if !any && !allowed.contains(k) {
                    let mut p: Props = vec!["C10"];
                    if all.contains(&Why::NotAddressed) {
                        p.push("C04");
                    }
                    found.push((p, format!("{}: failed with {:?} ({}), expected {:?} for {:?}", head, k, m, allowed, all)));
                }
            } else {
                let c15 = |x: &Why| matches!(x, Why::Apv | Why::SkidApu | Why::Recipients);
                if matches!(prov, Prov::Forged(_, p) if p.contains(&"C15")) && all.iter().all(c15) && matches!(k, ErrorKind::InvalidState | ErrorKind::NoCompatibleCrypto | ErrorKind::IllegalArgument | ErrorKind::IoError) {
                    found.push((vec!["C15"], format!("{}: contradictory headers reported as {:?} ({})", head, k, m)));
                }
                let broken = |x: &Why| matches!(x, Why::Syntax | Why::Decrypt | Why::BadSignature | Why::AllKeys);
                // a header put in from a message that named a sender it does not authenticate
                let anon_named = matches!(serde_json::from_str::<Value>(text).ok().as_ref().and_then(parse_jwe), Some(Ok(j)) if j.alg == "ECDH-ES+A256KW" && j.apu.is_some());
                if matches!(prov, Prov::Damaged(_, s) if s != "algorithm changed") && all.iter().all(broken) && !anon_named && *k != ErrorKind::Malformed {
                    found.push((vec!["C02"], format!("{}: damaged ({:?}), but reported as {:?} ({})", head, all, k, m)));
                }
                let cut = matches!(prov, Prov::Garbage(_)) || matches!(prov, Prov::Forged(s, _) if *s == "no text inside" || *s == "no valid message inside") || matches!(prov, Prov::Damaged(_, s) if s.starts_with("cut"));
                if cut && all.iter().all(|x| matches!(x, Why::Syntax | Why::NotMessage | Why::Typ)) && *k != ErrorKind::Malformed {
                    found.push((vec!["C12"], format!("{}: no DIDComm message, but reported as {:?} ({})", head, k, m)));
                }
            }
        }
    }
    found
}

pub async fn unpack(w: &Wr, spec: Spec, text: &Rc<String>, prov: &Prov, o: RefOpts) -> (Out<Got>, bool) {
    let dev = spec.dev;
    {
        let mut wb = w.borrow_mut();
        let l = prov.label();
        let l = l.split(" ").next().unwrap_or("").to_string();
        wb.stat(&format!("unpack.{}", l));
    }
    let (out, ctx) = raw_unpack(w, spec, text, o).await;
    let found = {
        let wb = w.borrow();
        let c = ctx.borrow();
        judge_unpack(&wb, &c, text, prov, o, &out)
    };
    if !found.is_empty() {
        let (out2, ctx2) = raw_unpack(w, Spec::quick(dev, "unpack again, alone"), text, o).await;
        let mut wb = w.borrow_mut();
        let found2 = judge_unpack(&wb, &ctx2.borrow(), text, prov, o, &out2);
        let c11 = (found2.is_empty() && !matches!(out2, Out::Gone)) || involved_changed(&wb, &ctx.borrow());
        let t = format!("   message was {}", if std::env::var_os("DSIM_FULL").is_some() { text.to_string() } else { short(text) });
        wb.log(t);
        for (mut p, m) in found {
            if c11 {
                p.push("C11");
            }
            wb.violation(&p, m);
        }
    }
    let failed_by_us = { let c = ctx.borrow(); c.first_err.is_some() || c.absent.is_some() };
    {
        let mut wb = w.borrow_mut();
        let key = match &out {
            Out::Ok(g) => format!(
                "u|{}|{}{}{}{}{}|{}|{:?}|{:?}|{:?}|{}{}",
                prov.label().split(' ').next().unwrap_or(""),
                g.m.encrypted, g.m.authenticated, g.m.non_repudiation, g.m.anonymous, g.m.re_wrapped,
                g.m.to_kids.as_ref().map(|k| k.len()).unwrap_or(0), g.m.enc_anon, g.m.sign_alg, g.m.from_prior.is_some(), o.all_keys, o.unwrap
            ),
            Out::Err(k, _) => format!("u|{}|{:?}|{}{}", prov.label().split(' ').next().unwrap_or(""), k, o.all_keys, o.unwrap),
            Out::Gone => "u|gone".into(),
        };
        wb.cover(&key);
    }
    (out, failed_by_us)
}

// ---------------------------------------------------------------- rotation notices

/// Issue a rotation notice; the result is checked against the reference verifier.
pub async fn pack_from_prior(w: &Wr, spec: Spec, fp: &FromPrior, issuer_kid: Option<String>) -> Out<(String, String)> {
    let (f, k) = (fp.clone(), issuer_kid.clone());
    let (out, ctx) = run_op(w, spec, move |dr, sr| Box::pin(async move { f.pack(k.as_deref(), &dr, &sr).await })).await;
    let mut wb = w.borrow_mut();
    let c = ctx.borrow();
    let view = op_view(&wb, &c);
    let mut bad: Vec<(Option<Vec<ErrorKind>>, String)> = vec![];
    let mut args = false;
    if !looks_like_did(&fp.iss) || !looks_like_did(&fp.sub) || fp.iss == fp.sub || split_id(&fp.iss).1 || split_id(&fp.sub).1 {
        bad.push((None, "the notice itself is inconsistent".into()));
        args = true;
    }
    if let Some(k) = &issuer_kid {
        let (d, frag) = split_id(k);
        if !frag || d != fp.iss {
            bad.push((Some(vec![ErrorKind::IllegalArgument]), "issuer key is not a key of the prior DID".into()));
            args = true;
        }
    }
    let mut held: Vec<crate::keys::Key> = vec![];
    let mut gray = !clean(&wb, &c);
    if !args {
        match view.doc(&fp.iss) {
            None => bad.push((Some(vec![ErrorKind::DIDNotResolved]), "prior DID does not resolve".into())),
            Some(d) => {
                let listed: Vec<&String> = d.auth.iter().filter(|x| issuer_kid.as_ref().map(|k| k == *x).unwrap_or(true)).collect();
                if issuer_kid.is_some() && listed.is_empty() {
                    bad.push((Some(vec![ErrorKind::DIDUrlNotFound]), "issuer key not listed".into()));
                } else {
                    held = listed.iter().filter_map(|k| view.secret(k)).collect();
                    if held.is_empty() {
                        bad.push((Some(vec![ErrorKind::SecretNotFound]), "no issuer secret".into()));
                    }
                    if held.iter().any(|k| sig_alg(k.alg).is_none()) {
                        gray = true;
                    }
                }
            }
        }
    }
    let want = from_prior_value(fp);
    match &out {
        Out::Gone => {}
        Out::Err(..) if c.first_err.is_some() => {}
        Out::Err(k, m) => {
            let mut allowed: Vec<ErrorKind> = bad.iter().filter_map(|b| b.0.clone()).flatten().collect();
            match &c.absent {
                Some(Absent::Did(_)) => allowed.push(ErrorKind::DIDNotResolved),
                Some(_) => allowed.extend([ErrorKind::SecretNotFound, ErrorKind::InvalidState]),
                None => {}
            }
            if !gray && !bad.iter().any(|b| b.0.is_none()) && !allowed.contains(k) {
                let p: &[&'static str] = if allowed.is_empty() { &["C13"] } else { &["C10", "C13"] };
                let m = format!("{}: failed with {:?} ({}), allowed {:?}", c.what, k, m, allowed);
                wb.violation(p, m);
            }
        }
        Out::Ok((jwt, kid)) => {
            if !gray {
                if let (Some(b), None) = (bad.first(), &c.absent) {
                    let m = format!("{}: succeeded although {}", c.what, b.1);
                    wb.violation(&["C13"], m);
                } else if c.absent.is_some() && !held.iter().all(|h| c.absent_kids.contains(&h.kid)) && !matches!(c.absent, Some(Absent::Did(_))) {
                    // another key did instead
                } else if c.absent.is_some() {
                    let m = format!("{}: succeeded although {:?} was absent", c.what, c.absent);
                    wb.violation(&["C10"], m);
                } else {
                    match held.iter().find(|h| h.kid == *kid) {
                        None => {
                            let m = format!("{}: metadata names issuer key {} which was not usable", c.what, kid);
                            wb.violation(&["C13", "C17"], m);
                        }
                        Some(h) => {
                            // verify with exactly the key in the wallet
                            let seg: Vec<&str> = jwt.split('.').collect();
                            let hd: Value = seg.first().and_then(|s| crate::keys::unb64(s)).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
                            let pl: Value = seg.get(1).and_then(|s| crate::keys::unb64(s)).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
                            let alg = sig_alg(h.alg).unwrap().0;
                            let good = seg.len() == 3
                                && hd == json!({"typ": "JWT", "alg": alg, "kid": kid})
                                && pl == want
                                && verify_raw(h, alg, format!("{}.{}", seg[0], seg[1]).as_bytes(), &crate::keys::unb64(seg[2]).unwrap_or_default());
                            if !good {
                                let m = format!("{}: notice is not what was asked for: header {} payload {}", c.what, hd, diff(&want, &pl));
                                wb.violation(&["C13", "C21"], m);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

pub async fn unpack_from_prior(w: &Wr, spec: Spec, jwt: &str, label: &str) -> Out<(FromPrior, String)> {
    let j = jwt.to_string();
    let (out, ctx) = run_op(w, spec, move |dr, _sr| Box::pin(async move { FromPrior::unpack(&j, &dr).await })).await;
    let mut wb = w.borrow_mut();
    let c = ctx.borrow();
    if !clean(&wb, &c) || c.first_err.is_some() {
        return out;
    }
    let view = op_view(&wb, &c);
    let rf = ref_from_prior(jwt, &view);
    match (&out, &rf) {
        (Out::Gone, _) => {}
        (Out::Ok((f, k)), Ok((v, kid))) => {
            if from_prior_value(f) != *v || k != kid {
                let m = format!("{} [{}]: notice {} of {} instead of {} of {}", c.what, label, from_prior_value(f), k, v, kid);
                wb.violation(&["C13"], m);
            }
        }
        (Out::Ok((f, k)), Err(r)) => {
            let m = format!("{} [{}]: accepted {} of {} although {:?}", c.what, label, from_prior_value(f), k, r.why);
            wb.violation(&["C13"], m);
        }
        (Out::Err(k, m), Ok(_)) => {
            if c.absent.is_none() {
                let m = format!("{} [{}]: valid notice refused: {:?} {}", c.what, label, k, m);
                let mut p = vec!["C13"];
                if involved_fmts(&wb, &c) {
                    p.push("C20");
                }
                if involved_changed(&wb, &c) {
                    p.push("C11");
                }
                wb.violation(&p, m);
            } else if *k != ErrorKind::DIDNotResolved {
                let m = format!("{}: prior DID absent, but failed with {:?} {}", c.what, k, m);
                wb.violation(&["C10"], m);
            }
        }
        (Out::Err(k, m), Err(r)) => {
            if let (Some(kinds), true, None) = (r.why.kinds(), r.also.is_empty(), &c.absent) {
                if !kinds.contains(k) {
                    let m = format!("{} [{}]: {:?} reported as {:?} ({})", c.what, label, r.why, k, m);
                    wb.violation(&["C10", "C13"], m);
                }
            }
            let broken = |x: &Why| matches!(x, Why::RotSyntax | Why::RotTyp | Why::RotSignature | Why::RotIssuer);
            if c.absent.is_none() && broken(&r.why) && r.also.iter().all(broken) && *k != ErrorKind::Malformed {
                let m = format!("{} [{}]: {:?} reported as {:?} ({})", c.what, label, r.why, k, m);
                wb.violation(&["C13"], m);
            }
        }
    }
    out
}

pub fn cancel_note(w: &Wr, s: String) {
    w.borrow_mut().log(s);
}

/// Current virtual time.
pub fn t() -> u64 {
    exec::now()
}
