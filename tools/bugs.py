#!/usr/bin/env python3
"""Definitions of the planted changes; `tools/bugs.py [id...]` regenerates /verif/seeded/<id>/ from /repo's HEAD."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, uniffi=False, wasm=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, uniffi=uniffi, wasm=wasm))


HEAD = """mod common;
mod keys;
mod peer;
use common::*;

"""
# two parties with one X25519 key each, an Ed25519 signing key for A
PAIR = """
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[&asg]), &doc(bd, &[&bk], &[])]);
    let (aw, bw) = (Wallet::of(&[&ak, &asg]), Wallet::of(&[&bk]));
"""

# ------------------------------------------------------------------ C01
bug("c01-zero-time", "C01",
    [("src/message/message.rs",
      '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub expires_time: Option<u64>,

    /// from_prior is''',
      '''    #[serde(skip_serializing_if = "is_unset")]
    pub expires_time: Option<u64>,

    /// from_prior is'''),
     ("src/message/message.rs",
      '''fn default_typ() -> String {''',
      '''fn is_unset(time: &Option<u64>) -> bool {
    time.unwrap_or_default() == 0
}

fn default_typ() -> String {''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).expires_time(0).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let (u, _) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    check!(u == m, "sent {:?}, received {:?}", m.expires_time, u.expires_time);
}""",
    "a message that expires at time 0 (an already expired message)",
    "expires_time 0 is left out when packing, so the recipient gets a message that never expires")

bug("c01-null-header", "C01",
    [("src/message/message.rs",
      '''        serde_json::from_str(s).to_didcomm("Unable deserialize jwm")
''',
      '''        let mut msg: Message = serde_json::from_str(s).to_didcomm("Unable deserialize jwm")?;
        // Optional members may be sent as `null`
        msg.extra_headers.retain(|_, value| !value.is_null());
        Ok(msg)
''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).header("x-reset".into(), Value::Null).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let (u, _) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    check!(u == m, "sent {:?}, received {:?}", m.extra_headers, u.extra_headers);
}""",
    "a custom header whose value is null",
    "custom headers with value null disappear on the way")

# ------------------------------------------------------------------ C02
bug("c02-signature-cache", "C02",
    [("src/jws/verify.rs",
      '''        let signature = base64::decode_config(&signature.signature, base64::URL_SAFE_NO_PAD)
            .kind(ErrorKind::Malformed, "Unable decode signature")?;

        let valid = key
            .verify_signature(sign_input.as_bytes(), &signature, Some(sig_type))
            .kind(ErrorKind::Malformed, "Unable verify signature")?;

        Ok(valid)
    }
}

impl<'a> ParsedCompactJWS<'a> {''',
      '''        // The same message is often verified again (retransmission, hand-over to another agent)
        let known = (kid.to_owned(), signature.signature.to_owned());
        if VERIFIED.with(|v| v.borrow().contains(&known)) {
            return Ok(true);
        }

        let signature = base64::decode_config(&signature.signature, base64::URL_SAFE_NO_PAD)
            .kind(ErrorKind::Malformed, "Unable decode signature")?;

        let valid = key
            .verify_signature(sign_input.as_bytes(), &signature, Some(sig_type))
            .kind(ErrorKind::Malformed, "Unable verify signature")?;

        if valid {
            VERIFIED.with(|v| v.borrow_mut().insert(known));
        }

        Ok(valid)
    }
}

thread_local! {
    static VERIFIED: std::cell::RefCell<std::collections::HashSet<(String, String)>> = Default::default();
}

impl<'a> ParsedCompactJWS<'a> {''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({"amount": 1})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_signed(ad, &net, &aw)).unwrap();
    let (u, _) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    check!(u == m, "content");
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let mut forged = m.clone();
    forged.body = json!({"amount": 1000});
    v["payload"] = json!(b64(serde_json::to_string(&forged).unwrap()));
    let r = run(Message::unpack(&v.to_string(), &net, &bw, &Default::default()));
    check!(r.is_err(), "altered payload accepted: {:?}", r.unwrap().0.body);
}""",
    "the genuine signed message is unpacked first, then a copy with the same signature and another payload",
    "a signature seen before is taken as valid for any payload")

# ------------------------------------------------------------------ C03
bug("c03-unlisted-sender-key", "C03",
    [("src/message/unpack/authcrypt.rs",
      '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.as_str() == from_kid)
        .ok_or_else(|| err_msg(ErrorKind::DIDUrlNotFound, "Sender kid not found in did"))?;

    let from_key = from_ddoc
        .verification_method
        .iter()
        .find(|&vm| &vm.id == from_kid)
        .ok_or_else(|| {
            err_msg(
                ErrorKind::DIDUrlNotFound,
                "Sender verification method not found in did",
            )
        })?
        .as_key_pair()?;
''',
      '''    let from_vm = from_ddoc
        .verification_method
        .iter()
        .find(|&vm| vm.id == from_kid)
        .ok_or_else(|| {
            err_msg(
                ErrorKind::DIDUrlNotFound,
                "Sender verification method not found in did",
            )
        })?;

    let from_kid = &from_vm.id;
    let from_key = from_vm.as_key_pair()?;
''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &noforward())).unwrap();
    // A withdraws the key: it stays in the document but is no longer listed for key agreement
    let mut d = doc(ad, &[&ak], &[&asg]);
    d.ka.clear();
    net.docs.borrow_mut().insert(ad.into(), d.to_lib());
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_err(), "accepted from a key not listed for key agreement: {:?}", r.unwrap().1.encrypted_from_kid);
}""",
    "the sender's document still describes a key it no longer lists for key agreement",
    "unpacking authenticates the sender with a key the sender does not list for key agreement")

bug("c03-unbound-tag", "C03",
    [("src/utils/crypto.rs",
      '''            ephem_key, send_key, recip_key, alg, apu, apv, cc_tag, receive,
''',
      '''            ephem_key,
            send_key,
            recip_key,
            alg,
            apu,
            apv,
            &cc_tag[..0],
            receive,
''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({"n": 1})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward())).unwrap();
    // The independent peer, holding b1, opens the envelope and learns the content key, then encrypts something else
    // with it for b2.
    let v: Value = serde_json::from_str(&t).unwrap();
    let p = peer::parse_jwe(&v).unwrap().unwrap();
    let plain = p.open(&b1.kid, &b1, Some(&ak));
    check!(plain.is_some(), "an independent implementation cannot open the envelope: the key wrap is not bound to the tag");
}""",
    "a compromised co-recipient key (the holder can put other content under the wrapped content key), or any other implementation",
    "ECDH-1PU key wrapping is no longer bound to the authentication tag, so one recipient can forge content to the others")

# ------------------------------------------------------------------ C04
bug("c04-thread-leak", "C04",
    [("src/message/pack_encrypted/mod.rs",
      '''        let (msg, messaging_service) =
            match wrap_in_forward_if_needed(&msg, to, did_resolver, options).await? {
''',
      '''        // Let mediators group the forwards of one conversation
        let mut options = options.clone();
        if let Some(thid) = &self.thid {
            options
                .forward_headers
                .get_or_insert_with(HashMap::new)
                .entry("thid".to_owned())
                .or_insert_with(|| Value::String(thid.clone()));
        }

        let (msg, messaging_service) =
            match wrap_in_forward_if_needed(&msg, to, did_resolver, &options).await? {
''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mk = key(4, "did:example:m#k1", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "http://m", &["did:example:m#k1"]));
    let net = registry(&[&b, &doc("did:example:m", &[&mk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).thid("private-thread-77".into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: false, ..Default::default() };
    let (f, _) = run(Message::unpack(&t, &net, &Wallet::of(&[&mk]), &o)).unwrap();
    check!(!serde_json::to_string(&f).unwrap().contains("private-thread-77"), "the mediator reads the thread id: {:?}", f.thid);
}""",
    "a message with a thread id that is sent through a mediator",
    "mediators can read the thread id of the encrypted message")

# ------------------------------------------------------------------ C05
bug("c05-key-prefix", "C05",
    [("src/message/pack_encrypted/authcrypt.rs",
      '''        .filter(|kid| to_kid.map(|to_kid| kid == &to_kid).unwrap_or(true))''',
      '''        .filter(|kid| kid.starts_with(to_kid.unwrap_or(to_did)))''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b10 = key(4, "did:example:b#k10", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b10], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (_, md) = run(m.pack_encrypted(&b1.kid, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward())).unwrap();
    check!(md.to_kids == vec![b1.kid.clone()], "asked for {} only, encrypted to {:?}", b1.kid, md.to_kids);
}""",
    "a recipient with two key ids of which one is a prefix of the other, addressed by the shorter one",
    "a message for one key is also encrypted to another key whose id starts the same")

bug("c05-metadata-all-keys", "C05",
    [("src/message/pack_encrypted/anoncrypt.rs",
      '''    let to_kids: Vec<_> = to_keys.into_iter().map(|vm| vm.id.clone()).collect();
    Ok((msg, to_kids))''',
      '''    let to_kids: Vec<_> = match to_kid {
        Some(to_kid) => vec![to_kid.to_owned()],
        None => to_ddoc.key_agreement.clone(),
    };
    Ok((msg, to_kids))''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::P256);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, md) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    for k in &md.to_kids {
        check!(t.contains(k.as_str()), "metadata names {} but the message is not encrypted to it", k);
    }
}""",
    "a recipient listing key-agreement keys of more than one curve",
    "the packing metadata lists keys the message was not encrypted to")

# ------------------------------------------------------------------ C06
bug("c06-anonymous-signed", "C06",
    [("src/message/unpack/sign.rs",
      '''    metadata.authenticated = true;
    metadata.non_repudiation = true;''',
      '''    metadata.authenticated = true;
    metadata.anonymous_sender = false;
    metadata.non_repudiation = true;''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).from(ad.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, Some(ad), &net, &aw, &noforward())).unwrap();
    let (_, md) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    check!(md.anonymous_sender, "the envelope was anonymous, the metadata denies it");
}""",
    "a signed message inside anonymous encryption",
    "the metadata does not report the anonymous encryption when there is a signature")

bug("c06-first-held-key", "C06",
    [("src/message/unpack/authcrypt.rs",
      '''    if metadata.encrypted_to_kids.is_none() {
        metadata.encrypted_to_kids = Some(to_kids.iter().map(|&k| k.to_owned()).collect());
    } else {''',
      '''    if metadata.encrypted_to_kids.is_none() {
        let mut to_kids: Vec<String> = to_kids.iter().map(|&k| k.to_owned()).collect();
        to_kids.dedup_by(|a, b| a.len() == b.len() && a.eq_ignore_ascii_case(b));
        metadata.encrypted_to_kids = Some(to_kids);
    } else {''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let b1 = key(3, "did:example:b#ka", Alg::X25519);
    let b2 = key(4, "did:example:b#kA", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, md) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward())).unwrap();
    let (_, um) = run(Message::unpack(&t, &net, &Wallet::of(&[&b1, &b2]), &Default::default())).unwrap();
    check!(um.encrypted_to_kids == Some(md.to_kids.clone()), "packed to {:?}, reported {:?}", md.to_kids, um.encrypted_to_kids);
}""",
    "a recipient with adjacent key ids that differ only in case",
    "the reported recipient keys omit a key the message was encrypted to")

# ------------------------------------------------------------------ C07
bug("c07-forward-from", "C07",
    [("src/message/pack_encrypted/mod.rs",
      '''        let (msg, messaging_service) =
            match wrap_in_forward_if_needed(&msg, to, did_resolver, options).await? {
''',
      '''        // Lets the mediator report problems back
        let mut options = options.clone();
        if let (Some(from), true) = (from, sign_by_kid.is_some()) {
            options
                .forward_headers
                .get_or_insert_with(HashMap::new)
                .entry("reply_to".to_owned())
                .or_insert_with(|| Value::String(did_or_url(from).0.to_owned()));
        }

        let (msg, messaging_service) =
            match wrap_in_forward_if_needed(&msg, to, did_resolver, &options).await? {
''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mk = key(4, "did:example:m#k1", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "http://m", &["did:example:m#k1"]));
    let net = registry(&[&doc(ad, &[&ak], &[&asg]), &b, &doc("did:example:m", &[&mk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).from(ad.into()).finalize();
    let o = PackEncryptedOptions { protect_sender: true, ..Default::default() };
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), Some(ad), &net, &Wallet::of(&[&ak, &asg]), &o)).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: false, ..Default::default() };
    let (f, _) = run(Message::unpack(&t, &net, &Wallet::of(&[&mk]), &o)).unwrap();
    check!(!serde_json::to_string(&f).unwrap().contains(ad), "the mediator learns the protected sender");
}""",
    "an authenticated and signed message with sender protection, sent through a mediator",
    "the mediator learns the DID of the protected sender from a header of the forward message")

# ------------------------------------------------------------------ C08
bug("c08-merged-hops", "C08",
    [("src/protocols/routing/mod.rs",
      '''    let mut tos = routing_keys.clone();

    let mut nexts = tos.clone();''',
      '''    let mut tos = routing_keys.clone();
    // No need to pass the same mediator twice in a row
    tos.dedup_by(|a, b| did_or_url(a).0 == did_or_url(b).0);

    let mut nexts = tos.clone();''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let m1 = key(4, "did:example:m#k1", Alg::X25519);
    let m2 = key(5, "did:example:m#k2", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "http://m", &[&m1.kid, &m2.kid]));
    let net = registry(&[&b, &doc("did:example:m", &[&m1, &m2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: false, ..Default::default() };
    let (f, _) = run(Message::unpack(&t, &net, &Wallet::of(&[&m1]), &o)).unwrap();
    check!(f.body["next"] == json!(m2.kid), "first hop forwards to {} instead of {}", f.body["next"], m2.kid);
}""",
    "two consecutive routing keys of one mediator DID",
    "the second of two consecutive hops of the same mediator DID is skipped")

bug("c08-headers-outermost", "C08",
    [("src/protocols/routing/mod.rs",
      '''        msg = build_forward_message(&msg, next_, headers)?;''',
      '''        let headers = headers.filter(|_| next_ == to || tos.len() < 3);
        msg = build_forward_message(&msg, next_, headers)?;''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let ms: Vec<Key> = (0..3).map(|i| key(10 + i, &format!("did:example:m{}#k1", i), Alg::X25519)).collect();
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "http://m", &ms.iter().map(|m| m.kid.as_str()).collect::<Vec<_>>()));
    let mut docs = vec![b];
    for (i, m) in ms.iter().enumerate() {
        docs.push(doc(&format!("did:example:m{}", i), &[m], &[]));
    }
    let net = registry(&docs.iter().collect::<Vec<_>>());
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let mut h = std::collections::HashMap::new();
    h.insert("priority".to_string(), json!(7));
    let o = PackEncryptedOptions { forward_headers: Some(h), ..Default::default() };
    let (mut t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &o)).unwrap();
    let uo = UnpackOptions { unwrap_re_wrapping_forward: false, ..Default::default() };
    for k in &ms {
        let (f, _) = run(Message::unpack(&t, &net, &Wallet::of(&[k]), &uo)).unwrap();
        check!(f.extra_headers.get("priority") == Some(&json!(7)), "the forward for {} lacks the custom header", k.kid);
        t = protocols::routing::try_parse_forward(&f).unwrap().forwarded_msg.to_string();
    }
}""",
    "custom forward headers and a route of at least three hops",
    "only the innermost forward of a long route carries the custom headers")

# ------------------------------------------------------------------ C09
bug("c09-first-key-only", "C09",
    [("src/message/unpack/mod.rs",
      '''    let secrets_ids = secrets_resolver.find_secrets(&kids[..]).await?;
''',
      '''    let secrets_ids = secrets_resolver
        .find_secrets(&kids[..kids.len().min(1)])
        .await?;
''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let f = run(protocols::routing::wrap_in_forward(&t, None, bd, &vec![b2.kid.clone()], &Default::default(), &net)).unwrap();
    // this device of B holds the second key only
    let (u, md) = run(Message::unpack(&f, &net, &Wallet::of(&[&b2]), &Default::default())).unwrap();
    check!(u == m && md.re_wrapped_in_forward, "the re-wrapped message was not unwrapped: {}", u.type_);
}""",
    "a re-wrapped message for a DID of which the receiver holds a key that is not listed first",
    "a forward to the receiver's own DID is not undone")

# ------------------------------------------------------------------ C10
bug("c10-swallowed-wallet-error", "C10",
    [("src/message/unpack/mod.rs",
      '''    let secrets_ids = secrets_resolver.find_secrets(&kids[..]).await?;

    return Ok(!secrets_ids.is_empty());''',
      '''    Ok(secrets_resolver
        .find_secrets(&kids[..])
        .await
        .map(|found| !found.is_empty())
        .unwrap_or(false))''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let f = run(protocols::routing::wrap_in_forward(&t, None, bd, &vec![b1.kid.clone()], &Default::default(), &net)).unwrap();
    for n in 0..20 {
        let w = Wallet::of(&[&b1]);
        w.fail.set(Some((n, ErrorKind::IoError)));
        let r = run(Message::unpack(&f, &net, &w, &Default::default()));
        if w.calls.get() > n {
            let k = r.as_ref().err().map(|e| e.kind());
            check!(k == Some(ErrorKind::IoError), "wallet failure at call {} came out as {:?}", n, k);
        }
    }
}""",
    "the wallet fails at the one call that looks whether the forward is for the receiver",
    "a wallet outage is reported as success: the forward itself is returned as the message")

bug("c10-sent-without-mediator", "C10",
    [("src/protocols/routing/mod.rs",
      '''    let did_doc = did_resolver
        .resolve(did)
        .await
        .context("Unable resolve DID")?
        .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "DID not found"))?;

    match service_id {
        Some(service_id) => {''',
      '''    let did_doc = match did_resolver.resolve(did).await {
        Err(e) if service_id.is_none() && e.kind() == ErrorKind::InvalidState => return Ok(None),
        res => res,
    }
    .context("Unable resolve DID")?
    .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "DID not found"))?;

    match service_id {
        Some(service_id) => {''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mk = key(4, "did:example:m#k1", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "http://m", &["did:example:m#k1"]));
    let net = registry(&[&b, &doc("did:example:m", &[&mk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    for kind in [ErrorKind::IoError, ErrorKind::InvalidState, ErrorKind::Malformed] {
        for n in 0..3 {
            net.calls.set(0);
            net.fail.set(Some((n, kind)));
            let r = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default()));
            let k = r.as_ref().err().map(|e| e.kind());
            check!(net.calls.get() <= n || k == Some(kind), "resolver failure {:?} at call {} came out as {:?}", kind, n, k);
        }
    }
}""",
    "the resolver answers InvalidState at exactly the call that looks up the recipient's services",
    "a resolver failure during routing is swallowed and the message is produced for direct delivery")

# ------------------------------------------------------------------ C11
bug("c11-service-cache", "C11",
    [("src/protocols/routing/mod.rs",
      '''    let mut service = service.unwrap();

    let mut services = vec![service.clone()];
    let mut service_endpoint = &service.1.uri;
''',
      '''    let mut service = service.unwrap();

    let mut services = vec![service.clone()];
    let mut service_endpoint = &service.1.uri;

    // Mediators serve many recipients
    if let Some(known) = MEDIATORS.with(|m| m.borrow().get(service_endpoint).cloned()) {
        services.insert(0, known);
        return Ok(services);
    }
'''),
     ("src/protocols/routing/mod.rs",
      '''        service = find_did_comm_service(service_endpoint, None, did_resolver)''',
      '''        let endpoint = service_endpoint.clone();
        service = find_did_comm_service(&endpoint, None, did_resolver)'''),
     ("src/protocols/routing/mod.rs",
      '''        services.insert(0, service.clone());
        service_endpoint = &service.1.uri;
    }
''',
      '''        MEDIATORS.with(|m| {
            m.borrow_mut().insert(endpoint, service.clone())
        });
        services.insert(0, service.clone());
        service_endpoint = &service.1.uri;
    }
'''),
     ("src/protocols/routing/mod.rs",
      '''fn generate_message_id() -> String {''',
      '''thread_local! {
    static MEDIATORS: std::cell::RefCell<HashMap<String, (String, DIDCommMessagingService)>> = Default::default();
}

fn generate_message_id() -> String {''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mk = key(4, "did:example:m#k1", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "did:example:m", &[]));
    let mut med = doc("did:example:m", &[&mk], &[]);
    med.services.push(service("did:example:m#d", "http://old", &[]));
    let net = registry(&[&b, &med]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (_, md) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    check!(md.messaging_service.unwrap().service_endpoint == "http://old", "first endpoint");
    med.services[0] = service("did:example:m#d", "http://new", &[]);
    net.docs.borrow_mut().insert(med.did.clone(), med.to_lib());
    let (_, md) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let e = md.messaging_service.unwrap().service_endpoint;
    check!(e == "http://new", "the mediator moved to http://new, the message is still addressed to {}", e);
}""",
    "a mediator named by DID in a service endpoint changes its own service between two messages",
    "the endpoint of a mediator is remembered for ever")

bug("c11-shared-buffer", "C11",
    [("src/message/pack_signed.rs",
      '''        let payload = self.pack_plaintext(did_resolver).await?;
''',
      '''        let payload = self.pack_plaintext(did_resolver).await?;
        PAYLOAD.with(|p| p.borrow_mut().clone_from(&payload));
'''),
     ("src/message/pack_signed.rs",
      '''impl Message {
    /// Produces `DIDComm Signed Message`''',
      '''thread_local! {
    /// Buffer reused for all messages
    static PAYLOAD: std::cell::RefCell<String> = Default::default();
}

impl Message {
    /// Produces `DIDComm Signed Message`''')],
    "", "", "")
BUGS.pop()

bug("c11-rotation-memo", "C11",
    [("src/message/unpack/plaintext.rs",
      '''        let (unpacked_from_prior, from_prior_issuer_kid) =
            FromPrior::unpack(from_prior, did_resolver).await?;
''',
      '''        // The notice accompanies every message until the new DID is known
        let known = SEEN.with(|s| s.borrow().clone());
        let (unpacked_from_prior, from_prior_issuer_kid) = match known {
            Some((jwt, unpacked, kid)) if &jwt == from_prior => (unpacked, kid),
            _ => {
                let (unpacked, kid) = FromPrior::unpack(from_prior, did_resolver).await?;
                SEEN.with(|s| {
                    *s.borrow_mut() = Some((from_prior.clone(), unpacked.clone(), kid.clone()))
                });
                (unpacked, kid)
            }
        };
'''),
     ("src/message/unpack/plaintext.rs",
      '''pub(crate) async fn _try_unpack_plaintext''',
      '''thread_local! {
    static SEEN: std::cell::RefCell<Option<(String, FromPrior, String)>> = Default::default();
}

pub(crate) async fn _try_unpack_plaintext''')],
    "fn main() {" + PAIR + """
    let fp = FromPrior::build(ad.into(), "did:example:new".into()).finalize();
    let (jwt, _) = run(fp.pack(None, &net, &aw)).unwrap();
    let nk = key(9, "did:example:new#k1", Alg::X25519);
    net.docs.borrow_mut().insert("did:example:new".into(), doc("did:example:new", &[&nk], &[]).to_lib());
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).from("did:example:new".into()).from_prior(jwt).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    // the prior DID withdraws the key that signed the notice
    net.docs.borrow_mut().insert(ad.into(), doc(ad, &[&ak], &[]).to_lib());
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_err(), "the notice signed by a withdrawn key is still accepted");
}""",
    "the same rotation notice is received before and after the prior DID withdraws its signing key",
    "a rotation notice seen before is accepted without looking at the current document")

# ------------------------------------------------------------------ C12
bug("c12-empty-multibase", "C12",
    [("src/utils/did.rs",
      '''                if !value.starts_with('z') {
                    Err(err_msg(
                        ErrorKind::IllegalArgument,
                        "Multibase value must start with 'z'",
                    ))?
                };
''',
      '''                let (base, _) = value.split_at(1);
                if base != "z" {
                    Err(err_msg(
                        ErrorKind::IllegalArgument,
                        "Multibase value must start with 'z'",
                    ))?
                };
''')],
    """use didcomm::did::*;
fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    for s in ["z", "", "\\u{e9}", "zz", "f00"] {
        let mut d = doc(bd, &[&bk], &[]).to_lib();
        d.verification_method[0].type_ = VerificationMethodType::X25519KeyAgreementKey2020;
        d.verification_method[0].verification_material = VerificationMaterial::Multibase { public_key_multibase: s.into() };
        let net = Registry::default();
        net.docs.borrow_mut().insert(bd.into(), d);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).is_err()));
        check!(r.is_ok(), "packing panics for the resolved key {:?}", s);
    }
}""",
    "a resolved document with an empty or non-ASCII multibase key",
    "packing panics on hostile key material from the resolver")

bug("c12-service-cycle", "C12",
    [("src/protocols/routing/mod.rs",
      '''        if services.len() > 1 {
            return Err(err_msg(''',
      '''        if services.len() > 1 && services[0].0 == services[1].0 {
            return Err(err_msg(''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mk = key(4, "did:example:m#k1", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "did:example:m", &[]));
    let mut med = doc("did:example:m", &[&mk], &[]);
    med.services.push(service("did:example:m#d", "did:example:n", &[]));
    let mut n = doc("did:example:n", &[&mk], &[]);
    n.services.push(service("did:example:n#d", "did:example:m", &[]));
    let net = registry(&[&b, &med, &n]);
    net.slow.set(true);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let w = Wallet::default();
    let o = PackEncryptedOptions::default();
    let mut f = Box::pin(m.pack_encrypted(bd, None, None, &net, &w, &o));
    for _ in 0..1000 {
        if let Some(r) = poll_once(&mut f) {
            check!(r.is_err(), "cyclic endpoints accepted");
            return;
        }
    }
    check!(false, "packing never ends");
}""",
    "two mediators whose service endpoints name each other",
    "packing for a recipient behind mutually referring mediators never ends")

# ------------------------------------------------------------------ C13
bug("c13-any-method", "C13",
    [("src/message/from_prior/unpack.rs",
      '''        let kid = did_doc
            .authentication
            .iter()
            .find(|&k| k.as_str() == kid)
            .ok_or_else(|| {''',
      '''        let kid = did_doc
            .authentication
            .iter()
            .chain(did_doc.key_agreement.iter())
            .find(|&k| k.as_str() == kid)
            .ok_or_else(|| {''')],
    """fn main() {
    let ad = "did:example:a";
    let ak = key(1, "did:example:a#k1", Alg::P256);
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let net = registry(&[&doc(ad, &[&ak], &[&asg])]);
    let jwt = peer::jwt_encode(&ak, &ak.kid, "ES256", "JWT", &json!({"iss": ad, "sub": "did:example:new"}), false);
    let r = run(FromPrior::unpack(&jwt, &net));
    check!(r.is_err(), "notice signed with a key-agreement key accepted");
}""",
    "a notice signed with a P-256 key the prior DID lists for key agreement only",
    "a rotation notice is accepted from a key not listed for authentication")

# ------------------------------------------------------------------ C14
bug("c14-later-failures", "C14",
    [("src/message/unpack/anoncrypt.rs",
      '''        let _payload = match (to_key, &parsed_jwe.protected.enc) {
            (KnownKeyPair::X25519(ref to_key), jwe::EncAlgorithm::A256cbcHs512) => {
                metadata.enc_alg_anon = Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw);

                parsed_jwe.decrypt::<
                        AesKey<A256CbcHs512>,
                        EcdhEs<'_, X25519KeyPair>,
                        X25519KeyPair,
                        AesKey<A256Kw>,
                    >(None, (to_kid, to_key))?
            }''',
      '''        let _payload = match (to_key, &parsed_jwe.protected.enc) {
            (KnownKeyPair::X25519(ref to_key), jwe::EncAlgorithm::A256cbcHs512) => {
                metadata.enc_alg_anon = Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw);

                let decrypted = parsed_jwe.decrypt::<
                        AesKey<A256CbcHs512>,
                        EcdhEs<'_, X25519KeyPair>,
                        X25519KeyPair,
                        AesKey<A256Kw>,
                    >(None, (to_kid, to_key));

                match (decrypted, payload.take()) {
                    (Err(_), Some(known)) => known,
                    (decrypted, _) => decrypted?,
                }
            }''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    for enc in [algorithms::AnonCryptAlg::A256cbcHs512EcdhEsA256kw, algorithms::AnonCryptAlg::A256gcmEcdhEsA256kw] {
        let o = PackEncryptedOptions { enc_alg_anon: enc, forward: false, ..Default::default() };
        let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &o)).unwrap();
        let mut v: Value = serde_json::from_str(&t).unwrap();
        v["recipients"][1]["encrypted_key"] = json!(b64(vec![7u8; 72]));
        let o = UnpackOptions { expect_decrypt_by_all_keys: true, ..Default::default() };
        let r = run(Message::unpack(&v.to_string(), &net, &Wallet::of(&[&b1, &b2]), &o));
        check!(r.is_err(), "accepted although the entry of {} does not decrypt", b2.kid);
    }
}""",
    "decryption by all keys is required, the content algorithm is A256CBC-HS512 and a later key's entry is damaged",
    "a message is accepted although one of the held keys does not decrypt it")

# ------------------------------------------------------------------ C15
bug("c15-duplicate-recipients", "C15",
    [("src/jwe/parse.rs",
      '''            kids.sort();
            Sha256::digest(kids.join(".").as_bytes())''',
      '''            kids.sort();
            kids.dedup();
            Sha256::digest(kids.join(".").as_bytes())''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let r = v["recipients"][0].clone();
    v["recipients"].as_array_mut().unwrap().push(r);
    let r = run(Message::unpack(&v.to_string(), &net, &Wallet::of(&[&b1]), &Default::default()));
    check!(r.is_err(), "digest of one key id accepted for two entries: {:?}", r.unwrap().1.encrypted_to_kids);
}""",
    "an envelope that lists one recipient key twice",
    "the recipients digest is not compared with the recipients really listed")

bug("c15-apu-prefix", "C15",
    [("src/jwe/parse.rs",
      '''            (Some(apu), Some(skid)) if apu != skid => {''',
      '''            (Some(apu), Some(skid)) if !apu.starts_with(skid) => {''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&bk], &[])]);
    let mut s = peer::JweSpec::auth(ak.clone(), vec![bk.clone()]);
    s.skid = Some("did:example:a".into());
    let plain = json!({"id": "1", "type": "t", "typ": "application/didcomm-plain+json", "body": {}}).to_string();
    let e = peer::jwe_encode(&mut Prng::new(5), &s, plain.as_bytes());
    let r = run(Message::unpack(&e.text, &net, &Wallet::of(&[&bk]), &Default::default()));
    check!(r.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::Malformed), "skid and apu differ, accepted");
}""",
    "an authenticated envelope whose skid is a prefix of apu (the sender's DID, or a shorter key name)",
    "contradicting sender headers are accepted when one begins with the other")

# ------------------------------------------------------------------ C16
bug("c16-two-signatures", "C16",
    [("src/message/unpack/sign.rs",
      '''    if parsed_jws.protected.len() != 1 {''',
      '''    if parsed_jws.protected.is_empty() {''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_signed(ad, &net, &aw)).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let mut s = v["signatures"][0].clone();
    s["signature"] = json!(b64(vec![1u8; 64]));
    v["signatures"].as_array_mut().unwrap().push(s);
    let r = run(Message::unpack(&v.to_string(), &net, &bw, &Default::default()));
    check!(r.is_err(), "an envelope with two signatures, one of them invalid, is accepted");
}""",
    "a signed envelope with a second, invalid signature after the valid one",
    "envelopes with more than one signature are accepted by looking at the first only")

bug("c16-trusted-inner", "C16",
    [("src/message/unpack/sign.rs",
      '''    if !valid {
        Err(err_msg(ErrorKind::Malformed, "Wrong signature"))?
    }
''',
      '''    // Authenticated encryption by the signer proves the origin already
    let proven = matches!(&metadata.encrypted_from_kid, Some(kid) if did_or_url(kid).0 == signer_did);

    if !valid && !proven {
        Err(err_msg(ErrorKind::Malformed, "Wrong signature"))?
    }
''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let mut s = peer::SigSpec::honest(&asg);
    s.sig = Some(vec![3u8; 64]);
    let jws = peer::jws_encode(&[s], serde_json::to_string(&m).unwrap().as_bytes(), false, false);
    let e = peer::jwe_encode(&mut Prng::new(5), &peer::JweSpec::auth(ak.clone(), vec![bk.clone()]), jws.as_bytes());
    let r = run(Message::unpack(&e.text, &net, &bw, &Default::default()));
    if let Ok((_, md)) = r {
        let third = run(Message::unpack(md.signed_message.as_deref().unwrap(), &net, &Wallet::default(), &Default::default()));
        check!(third.is_ok(), "reported as non-repudiable, but a third party rejects the signed message");
    }
}""",
    "a sender who signs wrongly inside its own authenticated encryption",
    "a message is reported as signed although the signed envelope convinces nobody else")

# ------------------------------------------------------------------ C17
bug("c17-two-recipient-keys", "C17",
    [("src/message/pack_encrypted/authcrypt.rs",
      '''                .find(|to_key| to_key.key_alg() == from_key.key_alg())
''',
      '''                .take(2)
                .find(|to_key| to_key.key_alg() == from_key.key_alg())
''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let b1 = key(2, "did:example:b#k1", Alg::P256);
    let b2 = key(5, "did:example:b#k2", Alg::P256);
    let b3 = key(3, "did:example:b#k3", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b2, &b3], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let r = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward()));
    check!(r.is_ok(), "both have X25519 keys, packing fails: {:?}", r.err());
}""",
    "a recipient whose third listed key is the first one of a curve the sender supports",
    "negotiation gives up before it has looked at all recipient keys")

bug("c17-anon-majority", "C17",
    [("src/message/pack_encrypted/anoncrypt.rs",
      '''        .next()
        .ok_or_else(|| {
            err_msg(
                ErrorKind::InvalidState,
                "No key agreement keys found for recipient",''',
      '''        .max_by_key(|alg| to_keys.iter().filter(|k| k.key_alg() == *alg).count())
        .ok_or_else(|| {
            err_msg(
                ErrorKind::InvalidState,
                "No key agreement keys found for recipient",''')],
    """fn main() {
    let bd = "did:example:b";
    let b0 = key(2, "did:example:b#k0", Alg::P256);
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b0, &b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (_, d) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    check!(d.to_kids == vec![b0.kid.clone()], "the recipient prefers P-256, encrypted for {:?}", d.to_kids);
}""",
    "a recipient that lists more keys of another curve than of the curve of its first key",
    "anonymous packing uses the most frequent curve instead of the first listed one")

# ------------------------------------------------------------------ C19
bug("c19-forward-default", "C19",
    [("src/message/pack_encrypted/mod.rs",
      '''    #[serde(default = "crate::utils::serde::_true")]
    pub forward: bool,''',
      '''    #[serde(default)]
    pub forward: bool,''')],
    """fn main() {
    let o: PackEncryptedOptions = serde_json::from_str("{}").unwrap();
    check!(o == PackEncryptedOptions::default(), "options without members load as {:?}", o);
}""",
    "packing options stored without the forward member",
    "stored options without a forward member switch forwarding off")

bug("c19-secret-order", "C19",
    [("src/secrets/resolvers/example.rs",
      '''        Ok(secret_ids
            .iter()
            .filter(|&&sid| self.known_secrets.iter().find(|s| s.id == sid).is_some())
            .map(|sid| *sid)
            .collect())''',
      '''        Ok(self
            .known_secrets
            .iter()
            .filter_map(|s| secret_ids.iter().find(|&&sid| s.id == sid).map(|sid| *sid))
            .collect())''')],
    """use didcomm::secrets::resolvers::ExampleSecretsResolver;
fn main() {
    let a = key(1, "did:example:a#k1", Alg::X25519);
    let b = key(2, "did:example:a#k2", Alg::X25519);
    let r = ExampleSecretsResolver::new(vec![b.secret(Fmt::Jwk), a.secret(Fmt::Jwk)]);
    let ids = [a.kid.as_str(), b.kid.as_str()];
    let found = run(r.find_secrets(&ids)).unwrap();
    check!(found == ids, "asked for {:?}, answered {:?}", ids, found);
}""",
    "secrets stored in another order than they are asked for",
    "the bundled wallet answers in storage order instead of the order asked")

# ------------------------------------------------------------------ C20
bug("c20-leading-zero", "C20",
    [("src/utils/did.rs",
      '''            ) => {
                let decoded_value = bs58::decode(value)
                    .into_vec()
                    .to_didcomm("Wrong base58 value in verification material")?;
                let base64_url_value =
                    base64::encode_config(&decoded_value, base64::URL_SAFE_NO_PAD);

                let jwk = json!({
                    "kty": "OKP",
                    "crv": "Ed25519",''',
      '''            ) => {
                let decoded_value = bs58::decode(value.trim_start_matches('1'))
                    .into_vec()
                    .to_didcomm("Wrong base58 value in verification material")?;
                let base64_url_value =
                    base64::encode_config(&decoded_value, base64::URL_SAFE_NO_PAD);

                let jwk = json!({
                    "kty": "OKP",
                    "crv": "Ed25519",''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let asg = (0..).map(|i| key(i, "did:example:a#s1", Alg::Ed25519)).find(|k| k.x[0] == 0).unwrap();
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    for f in [Fmt::Jwk, Fmt::Mb, Fmt::B58] {
        let mut d = doc(ad, &[], &[&asg]);
        d.vms = vec![vmf(&asg, f)];
        let net = registry(&[&d]);
        let (t, _) = run(m.pack_signed(ad, &net, &Wallet::of(&[&asg]))).unwrap();
        let r = run(Message::unpack(&t, &net, &Wallet::default(), &Default::default()));
        check!(r.is_ok(), "verifies for JWK, fails for {:?}: {:?}", f, r.err());
    }
}""",
    "a signer whose public key begins with a zero byte and is published as Base58",
    "such a key works as JWK or Multibase and not as Base58")

# ------------------------------------------------------------------ C21
bug("c21-unsorted-digest", "C21",
    [("src/jwe/parse.rs",
      '''            kids.sort();
            Sha256::digest(kids.join(".").as_bytes())''',
      '''            kids.sort_by_key(|kid| kid.len());
            Sha256::digest(kids.join(".").as_bytes())'''),
     ("src/jwe/encrypt.rs",
      '''        kids.sort();
        Sha256::digest''',
      '''        kids.sort_by_key(|kid| kid.len());
        Sha256::digest''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k2", Alg::X25519);
    let b2 = key(4, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let v: Value = serde_json::from_str(&t).unwrap();
    let p: Value = serde_json::from_slice(&unb64(v["protected"].as_str().unwrap()).unwrap()).unwrap();
    check!(p["apv"] == json!(b64(peer::apv_of(&[b1.kid.clone(), b2.kid.clone()]))), "apv is not the digest of the sorted key ids");
}""",
    "recipient key ids of equal length not listed in alphabetical order",
    "envelopes carry a recipients digest other implementations reject, and theirs are rejected")

bug("c21-strict-recipient-header", "C21",
    [("src/jwe/envelope.rs",
      '''#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
pub(crate) struct PerRecipientHeader<'a> {''',
      '''#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
#[serde(deny_unknown_fields)]
pub(crate) struct PerRecipientHeader<'a> {''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let mut s = peer::JweSpec::anon(peer::GCM, vec![bk.clone()]);
    s.extra_recipient = true;
    let plain = json!({"id": "1", "type": "t", "typ": "application/didcomm-plain+json", "body": {}}).to_string();
    let e = peer::jwe_encode(&mut Prng::new(5), &s, plain.as_bytes());
    let r = run(Message::unpack(&e.text, &net, &Wallet::of(&[&bk]), &Default::default()));
    check!(r.is_ok(), "a per-recipient header with an extra member is refused: {:?}", r.err());
}""",
    "a peer that adds a member to the per-recipient header",
    "valid envelopes of other implementations are refused")

# ------------------------------------------------------------------ C22
bug("c22-one-forward-id", "C22",
    [("src/protocols/routing/mod.rs",
      '''    forwarded_msg: &str,
    next: &str,
    headers: Option<&HashMap<String, Value>>,
) -> Result<String> {''',
      '''    id: &str,
    forwarded_msg: &str,
    next: &str,
    headers: Option<&HashMap<String, Value>>,
) -> Result<String> {'''),
     ("src/protocols/routing/mod.rs",
      '''Message::build(generate_message_id(), FORWARD''',
      '''Message::build(id.to_owned(), FORWARD'''),
     ("src/protocols/routing/mod.rs",
      '''    let mut msg = msg.to_owned();

    for (to_''',
      '''    let mut msg = msg.to_owned();
    let id = generate_message_id();

    for (to_'''),
     ("src/protocols/routing/mod.rs",
      '''build_forward_message(&msg, next_, headers)''',
      '''build_forward_message(&id, &msg, next_, headers)''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let m1 = key(4, "did:example:m#k1", Alg::X25519);
    let n1 = key(5, "did:example:n#k1", Alg::X25519);
    let mut b = doc(bd, &[&bk], &[]);
    b.services.push(service("did:example:b#d", "http://m", &[&m1.kid, &n1.kid]));
    let net = registry(&[&b, &doc("did:example:m", &[&m1], &[]), &doc("did:example:n", &[&n1], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: false, ..Default::default() };
    let (f1, _) = run(Message::unpack(&t, &net, &Wallet::of(&[&m1]), &o)).unwrap();
    let inner = protocols::routing::try_parse_forward(&f1).unwrap().forwarded_msg.to_string();
    let (f2, _) = run(Message::unpack(&inner, &net, &Wallet::of(&[&n1]), &o)).unwrap();
    check!(f1.id != f2.id, "both forwards carry the id {}: colluding mediators can link them", f1.id);
}""",
    "a route of at least two hops",
    "all forward layers of one message share one id")

bug("c22-iv-from-content", "C22",
    [("src/jwe/encrypt.rs",
      '''        let iv = CE::random_nonce();
''',
      '''        let mut iv = CE::random_nonce();
        if iv.len() > 16 {
            // Extended nonces are long enough to be derived
            let len = iv.len();
            iv.copy_from_slice(&Sha256::digest(plaintext)[..len]);
        }
''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let iv = |_: u32| {
        let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward_xc())).unwrap();
        serde_json::from_str::<Value>(&t).unwrap()["iv"].to_string()
    };
    check!(iv(0) != iv(1), "packing the same message twice gives the same initialisation vector");
}
fn noforward_xc() -> PackEncryptedOptions {
    PackEncryptedOptions { forward: false, enc_alg_anon: algorithms::AnonCryptAlg::Xc20pEcdhEsA256kw, ..Default::default() }
}""",
    "the same content packed twice with XC20P",
    "repeated packings of one message can be linked by their initialisation vector")

# ------------------------------------------------------------------ C23
bug("c23-prefix-recipient", "C23",
    [("src/message/pack_encrypted/mod.rs",
      '''            Some(ref sto) if !sto.contains(&to_did.into()) => {''',
      '''            Some(ref sto) if !sto.iter().any(|s| s.starts_with(to_did)) => {''')],
    """fn main() {
    let (bd, other) = ("did:example:b", "did:example:bob");
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(other.into()).finalize();
    let r = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward()));
    check!(r.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::IllegalArgument), "a message for {} is packed for {}", other, bd);
}""",
    "a target DID that is a proper prefix of one of the message's recipients",
    "a message is packed for somebody who is not among its recipients")

# ------------------------------------------------------------------ C18 (callback binding)
UPAIR = """
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let bk2 = key(4, "did:example:b#k2", Alg::X25519);
    let docs = [doc(ad, &[&ak], &[&asg]), doc(bd, &[&bk, &bk2], &[])];
    let docs = [&docs[0], &docs[1]];
"""
bug("c18-silent-error", "C18",
    [("uniffi/src/common.rs",
      '''                .send(Err(err_msg(err, msg)))
''',
      '''                .send(match msg.is_empty() {
                    true => Err(err_msg(ErrorKind::InvalidState, "the resolver failed")),
                    false => Err(err_msg(err, msg)),
                })
''')],
    "fn main() {" + UPAIR + """
    let h = Host::new(&docs, &[&ak, &asg]);
    *h.fail.lock().unwrap() = Some(("find".into(), ErrorKind::IoError));
    *h.silent.lock().unwrap() = true;
    let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
    instance(&h).pack_encrypted(&hello(Some(ad), bd), bd.into(), Some(ad.into()), None, &noforward(), cb);
    let r = r.get(20000);
    check!(matches!(&r, Some(Err(ErrorKind::IoError))), "wallet reported IoError, the operation {:?}", r.map(|x| x.map(|_| ())));
}""",
    "the application's wallet or resolver reports an error without a message",
    "the kind of error reported by the host is replaced by InvalidState", uniffi=True)

bug("c18-wait-in-place", "C18",
    [("uniffi/src/common.rs",
      '''    pub(crate) async fn get(self) -> Result<T> {
        self.0
            .await
            .kind(ErrorKind::InvalidState, "unable receive callback result")?
    }''',
      '''    pub(crate) async fn get(mut self) -> Result<T> {
        // Answers normally come at once: waiting here saves a round through the executor
        loop {
            let answer = self
                .0
                .try_recv()
                .kind(ErrorKind::InvalidState, "unable receive callback result")?;
            match answer {
                Some(answer) => return answer,
                None => std::thread::yield_now(),
            }
        }
    }''')],
    "fn main() {" + UPAIR + """
    let h = Host::new(&docs, &[&ak, &asg]);
    *h.keep.lock().unwrap() = Some("get".into());
    let d = instance(&h);
    // as many as the pool has threads wait for a wallet that asks its user
    let waiting: Vec<_> = (0..64).map(|_| {
        let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
        d.pack_encrypted(&hello(Some(ad), bd), bd.into(), Some(ak.kid.clone()), None, &noforward(), cb);
        r
    }).collect();
    let (cb, r) = callback::<String>();
    d.pack_plaintext(&hello(None, bd), cb);
    let r = r.get(20000);
    check!(matches!(&r, Some(Ok(_))), "an operation that needs no answer does not end while others wait for theirs");
    h.release();
    for r in waiting {
        let r = r.get(20000);
        check!(matches!(&r, Some(Ok(_))), "answered, but {:?}", r.map(|x| x.map(|_| ())));
    }
}""",
    "as many operations as the pool has threads wait for a slow wallet",
    "operations waiting for an answer occupy the pool, so that others never end", uniffi=True)

bug("c18-first-secrets", "C18",
    [("uniffi/src/secrets/secrets_resolver_adapter.rs",
      '''            .filter(|&&sid| res.iter().find(|&s| s == sid).is_some())
            .map(|sid| *sid)
            .collect())''',
      '''            .take(res.len())
            .map(|sid| *sid)
            .collect())''')],
    "fn main() {" + UPAIR + """
    // the recipient holds the second of its two keys on this device
    let h = Host::new(&docs, &[&ak, &bk2]);
    let d = instance(&h);
    let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
    d.pack_encrypted(&hello(Some(ad), bd), bd.into(), Some(ad.into()), None, &noforward(), cb);
    let t = r.get(20000).unwrap().unwrap().0;
    let (cb, r) = callback::<(Message, UnpackMetadata)>();
    d.unpack(t, &UnpackOptions::default(), cb);
    let r = r.get(20000);
    check!(matches!(&r, Some(Ok(_))), "message for a held key: {:?}", r.map(|x| x.map(|_| ())));
}""",
    "a device that holds a later one of the recipient's keys, but not the first",
    "the binding takes the first of the asked keys for the held ones", uniffi=True)

bug("c18-shared-documents", "C18",
    [("uniffi/src/did/did_resolver_adapter.rs",
      '''        let (cb, receiver) = OnDIDResolverResult::new();

        self.did_resolver.resolve(String::from(did), cb);

        let res = receiver.get().await.context("can not resolve DID Doc")?;
        Ok(res)''',
      '''        let last = LAST.lock().unwrap().clone();
        if let Some(doc) = last.filter(|doc| doc.id == did) {
            return Ok(Some(doc));
        }

        let (cb, receiver) = OnDIDResolverResult::new();

        self.did_resolver.resolve(String::from(did), cb);

        let res = receiver.get().await.context("can not resolve DID Doc")?;
        *LAST.lock().unwrap() = res.clone();
        Ok(res)'''),
     ("uniffi/src/did/did_resolver_adapter.rs",
      '''pub(crate) struct DIDResolverAdapter {''',
      '''lazy_static::lazy_static! {
    // An operation asks for the same document several times
    static ref LAST: std::sync::Mutex<Option<DIDDoc>> = Default::default();
}

pub(crate) struct DIDResolverAdapter {''')],
    "fn main() {" + UPAIR + """
    let h = Host::new(&docs, &[&ak, &asg]);
    let d = instance(&h);
    let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
    d.pack_encrypted(&hello(None, bd), bd.into(), None, None, &noforward(), cb);
    check!(matches!(r.get(20000), Some(Ok(_))), "packing fails");
    // the recipient withdraws its first key
    let now = doc(bd, &[&bk2], &[]);
    h.docs.lock().unwrap().insert(bd.into(), now.to_lib());
    let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
    d.pack_encrypted(&hello(None, bd), bd.into(), None, None, &noforward(), cb);
    let m = r.get(20000).unwrap().unwrap().1;
    check!(m.to_kids == vec![bk2.kid.clone()], "encrypted to {:?} although only {} is listed", m.to_kids, bk2.kid);
}""",
    "the document changes between two operations that ask for it last and first",
    "an operation uses the document an earlier operation was given, not the one its own resolver answers", uniffi=True)

bug("c18-instance-gone", "C18",
    [("uniffi/src/did/did_resolver_adapter.rs",
      '''    did_resolver: Arc<Box<dyn DIDResolver>>,
}''',
      '''    did_resolver: std::sync::Weak<Box<dyn DIDResolver>>,
}'''),
     ("uniffi/src/did/did_resolver_adapter.rs",
      '''        DIDResolverAdapter { did_resolver }''',
      '''        // Operations must not keep the application's objects alive
        DIDResolverAdapter {
            did_resolver: Arc::downgrade(&did_resolver),
        }'''),
     ("uniffi/src/did/did_resolver_adapter.rs",
      '''        self.did_resolver.resolve(String::from(did), cb);
''',
      '''        if let Some(did_resolver) = self.did_resolver.upgrade() {
            did_resolver.resolve(String::from(did), cb);
        }
''')],
    "fn main() {" + UPAIR + """
    let h = Host::new(&docs, &[&ak, &asg]);
    *h.keep.lock().unwrap() = Some(format!("resolve {}", bd));
    let d = instance(&h);
    let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
    d.pack_encrypted(&hello(Some(ad), bd), bd.into(), Some(ad.into()), None, &noforward(), cb);
    while h.kept() == 0 {
        std::thread::yield_now();
    }
    drop(d);
    h.release();
    let r = r.get(20000);
    check!(matches!(&r, Some(Ok(_))), "every callback was answered, but the operation {:?}", r.map(|x| x.map(|_| ())));
}""",
    "the application drops its DIDComm object while an operation is on its way",
    "the operation fails although the resolver would answer", uniffi=True)

bug("c18-anonymous-unsigned", "C18",
    [("uniffi/src/didcomm/pack_encrypted.rs",
      '''                sign_by.as_deref(),
                &did_resolver,''',
      '''                sign_by.as_deref().filter(|_| from.is_some()),
                &did_resolver,''')],
    "fn main() {" + UPAIR + """
    let h = Host::new(&docs, &[&ak, &asg]);
    let (cb, r) = callback::<(String, PackEncryptedMetadata)>();
    instance(&h).pack_encrypted(&hello(Some(ad), bd), bd.into(), None, Some(ad.into()), &noforward(), cb);
    let m = r.get(20000).unwrap().unwrap().1;
    check!(m.sign_by_kid.is_some(), "signature was asked for and is not there");
}""",
    "anonymous encryption of a signed message through the binding",
    "the signature asked for is left out", uniffi=True)


# ------------------------------------------------------------------ C24
WPAIR = """
    start();
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let docs = [doc(ad, &[&ak], &[&asg]), doc(bd, &[&bk], &[])];
    let h = Host::new(&[&docs[0], &docs[1]], &[&ak, &asg]);
    let _ = (ad, bd, &h);
"""
bug("c24-undefined-document", "C24",
    [("wasm/src/did/did_resolver.rs",
      '''        let ddoc: Option<DIDDoc> = ddoc.into_serde().kind(
            ErrorKind::InvalidState,
            "Unable deserialize DIDDoc from JsValue",
        )?;

        Ok(ddoc)
''',
      '''        if ddoc.is_null() {
            return Ok(None);
        }

        let ddoc: DIDDoc = ddoc.into_serde().kind(
            ErrorKind::InvalidState,
            "Unable deserialize DIDDoc from JsValue",
        )?;

        Ok(Some(ddoc))
''')],
    "fn main() {" + WPAIR + """
    h.0.borrow_mut().unknown = Some(JsValue::UNDEFINED);
    let m = message(hello(None, "did:example:nobody"));
    let p = js::call(&m, "pack_encrypted", vec![str("did:example:nobody"), opt(None), opt(None), h.js(), h.js(), options()]);
    let r = outcome(&p).map(|r| r.err());
    check!(r == Some(Some("DIDCommDIDNotResolved".into())), "an unknown DID ends as {:?}", r);
}""",
    "a resolver that answers undefined (not null) for a DID it does not know",
    "an unresolvable DID is reported as InvalidState", wasm=True)

bug("c24-url-error", "C24",
    [("wasm/src/error.rs",
      '''                    Some("DIDCommDIDUrlNotFound") => _ErrorKind::DIDUrlNotFound,''',
      '''                    Some("DIDCommDIDUrlNotFound") => _ErrorKind::DIDNotResolved,''')],
    "fn main() {" + WPAIR + """
    h.0.borrow_mut().fail = Some(("resolve".into(), "DIDCommDIDUrlNotFound".into()));
    let m = message(hello(None, bd));
    let p = js::call(&m, "pack_encrypted", vec![str(bd), opt(None), opt(None), h.js(), h.js(), options()]);
    let r = outcome(&p).map(|r| r.err());
    check!(r == Some(Some("DIDCommDIDUrlNotFound".into())), "the resolver's DIDCommDIDUrlNotFound became {:?}", r);
}""",
    "a resolver that rejects with DIDCommDIDUrlNotFound",
    "one of the error names is mapped to another kind on its way in", wasm=True)

bug("c24-shared-requests", "C24",
    [("wasm/src/did/did_resolver.rs",
      '''    pub async fn resolve(this: &DIDResolver, did: &str) -> Result<JsValue, JsValue>;
''',
      '''    pub fn resolve(this: &DIDResolver, did: &str) -> Result<Promise, JsValue>;
'''),
     ("wasm/src/did/did_resolver.rs",
      '''use wasm_bindgen::prelude::*;

use crate::error::FromJsResult;
''',
      '''use js_sys::Promise;
use std::{cell::RefCell, collections::HashMap};
use wasm_bindgen::prelude::*;
use wasm_bindgen_futures::JsFuture;

use crate::error::FromJsResult;

thread_local! {
    // Requests under way: operations that need the same document ask for it only once
    static PENDING: RefCell<HashMap<String, Promise>> = Default::default();
}
'''),
     ("wasm/src/did/did_resolver.rs",
      '''        let ddoc = self
            .0
            .resolve(did)
            .await
            .from_js()
            .context("Unable resolve did")?;
''',
      '''        let pending = PENDING.with(|p| p.borrow().get(did).cloned());
        let request = match pending {
            Some(request) => request,
            None => {
                let request = self
                    .0
                    .resolve(did)
                    .from_js()
                    .context("Unable resolve did")?;
                PENDING.with(|p| p.borrow_mut().insert(did.to_owned(), request.clone()));
                request
            }
        };

        let ddoc = JsFuture::from(request).await;
        PENDING.with(|p| p.borrow_mut().remove(did));
        let ddoc = ddoc.from_js().context("Unable resolve did")?;
''')],
    "fn main() {" + WPAIR + """
    let other = Host::new(&[&docs[0], &docs[1]], &[&ak, &asg]);
    other.0.borrow_mut().keep = Some("resolve".into());
    let m = message(hello(None, bd));
    let stuck = js::call(&m, "pack_encrypted", vec![str(bd), opt(None), opt(None), other.js(), other.js(), options()]);
    check!(outcome(&stuck).is_none(), "ended without an answer");
    let p = js::call(&m, "pack_encrypted", vec![str(bd), opt(None), opt(None), h.js(), h.js(), options()]);
    let r = outcome(&p);
    check!(matches!(r, Some(Ok(_))), "waits for another operation's resolver: {:?}", r.map(|r| r.map(|_| ())));
}""",
    "two operations at the same time with different resolvers asking for the same DID, one of them not answered",
    "requests for the same DID are shared between operations with different resolvers", wasm=True)

bug("c24-null-members", "C24",
    [("wasm/src/message/mod.rs",
      '''        let msg = JsValue::from_serde(&*self.0)
            .kind(ErrorKind::Malformed, "Unable serialize Message")
            .as_js()?;
''',
      '''        let mut msg = (*self.0).clone();
        // Absent optional members are left out in JavaScript
        msg.extra_headers.retain(|_, header| !header.is_null());

        let msg = JsValue::from_serde(&msg)
            .kind(ErrorKind::Malformed, "Unable serialize Message")
            .as_js()?;
''')],
    "fn main() {" + WPAIR + """
    let mut v = hello(None, bd);
    v["x-reset"] = Value::Null;
    let m = message(v.clone());
    check!(value(&m) == v, "as_value gives {}", value(&m));
}""",
    "a message with a custom member whose value is null",
    "as_value() leaves out members that are null", wasm=True)

bug("c24-text-headers", "C24",
    [("wasm/src/message/protocols/routing/mod.rs",
      '''            let headers: HashMap<String, Value> = headers
                .into_serde()
                .kind(ErrorKind::Malformed, "headers param is malformed")
                .as_js()?;
''',
      '''            let headers: HashMap<String, String> = headers
                .into_serde()
                .kind(ErrorKind::Malformed, "headers param is malformed")
                .as_js()?;
            let headers: HashMap<String, Value> = headers
                .into_iter()
                .map(|(name, value)| (name, Value::String(value)))
                .collect();
''')],
    "fn main() {" + WPAIR + """
    let p = js::call_static("Message", "wrap_in_forward", vec![str("{}"), js::from_json(&json!({"expires_time": 5})), str(ad), js::from_json(&json!([bk.kid])), str("A256gcmEcdhEsA256kw"), h.js()]);
    let r = outcome(&p);
    check!(matches!(r, Some(Ok(_))), "header expires_time refused: {:?}", r.map(|r| r.map(|_| ())));
}""",
    "wrap_in_forward with a header that is not a string (a number such as expires_time)",
    "forward headers other than strings are refused", wasm=True)

bug("c24-lenient-options", "C24",
    [("wasm/src/message/unpack.rs",
      '''            let options: UnpackOptions = options
                .into_serde()
                .kind(ErrorKind::Malformed, "Options param is malformed")
                .as_js()?;
''',
      '''            let options: UnpackOptions = if options.is_null() || options.is_undefined() {
                UnpackOptions::default()
            } else {
                options.into_serde().unwrap_or_default()
            };
''')],
    "fn main() {" + WPAIR + """
    let t = hello(None, bd).to_string();
    let o = js::from_json(&json!({"expect_decrypt_by_all_keys": "yes"}));
    let p = js::call_static("Message", "unpack", vec![str(&t), h.js(), h.js(), o]);
    let r = outcome(&p);
    check!(matches!(&r, Some(Err(n)) if n == "DIDCommMalformed"), "malformed options: {:?}", r.map(|r| r.map(|_| ())));
}""",
    "options of the wrong form, such as a string where a boolean is expected",
    "malformed options are replaced by the defaults, so a restriction the caller asked for is not applied", wasm=True)

bug("c24-other-wallet", "C24",
    [("wasm/src/secrets/secrets_resolver.rs",
      '''    async fn get_secret(&self, secret_id: &str) -> _Result<Option<Secret>> {
''',
      '''    async fn get_secret(&self, secret_id: &str) -> _Result<Option<Secret>> {
        // Usually asked for several times while a message is processed
        let last = LAST.with(|l| l.borrow().clone());
        if let Some(secret) = last.filter(|s| s.id == secret_id) {
            return Ok(Some(secret));
        }
'''),
     ("wasm/src/secrets/secrets_resolver.rs",
      '''            "Unable deserialize Secret from JsValue",
        )?;

        Ok(secret)
''',
      '''            "Unable deserialize Secret from JsValue",
        )?;

        LAST.with(|l| *l.borrow_mut() = secret.clone());
        Ok(secret)
'''),
     ("wasm/src/secrets/secrets_resolver.rs",
      '''pub(crate) struct JsSecretsResolver(pub(crate) SecretsResolver);
''',
      '''thread_local! {
    static LAST: std::cell::RefCell<Option<Secret>> = Default::default();
}

pub(crate) struct JsSecretsResolver(pub(crate) SecretsResolver);
''')],
    "fn main() {" + WPAIR + """
    let m = message(hello(Some(ad), bd));
    let pack = |h: &Host| js::call(&m, "pack_encrypted", vec![str(bd), opt(Some(ad)), opt(None), h.js(), h.js(), options()]);
    check!(matches!(outcome(&pack(&h)), Some(Ok(_))), "packing fails");
    h.0.borrow_mut().fail = Some(("get_secret".into(), "DIDCommIoError".into()));
    let r = outcome(&pack(&h));
    check!(matches!(&r, Some(Err(n)) if n == "DIDCommIoError"), "the locked wallet was not asked: {:?}", r.map(|r| r.map(|_| ())));
}""",
    "a second operation that needs the same secret after the wallet has been locked (or replaced)",
    "the last secret is remembered across operations and wallets", wasm=True)


exec(open(os.path.join(V, "tools", "more_bugs.py")).read())


def sh(*a, **k):
    return subprocess.run(a, check=True, **k)


def main():
    only = sys.argv[1:]
    work = "/tmp/bugrepo"
    shutil.rmtree(work, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", work)
    bad = 0
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("edit of", b["id"], f, "matches", s.count(old))
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(V, "seeded", b["id"])
        diff = subprocess.run(["git", "-C", work, "diff"], capture_output=True, text=True).stdout
        sh("git", "-C", work, "checkout", "-q", "--", ".")
        if not ok:
            bad += 1
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/support")
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if b["uniffi"]:
            open(d + "/demo.rs", "w").write(HEAD.replace("mod peer;\n", "") + b["demo"].strip() + "\n")
            shutil.copy(V + "/tools/demo_support/udemo.sh", d + "/demo.sh")
            shutil.copy(V + "/sim/dsim_src/keys.rs", d + "/support/keys.rs")
            shutil.copy(V + "/tools/demo_support/ucommon.rs", d + "/support/common.rs")
            shutil.copytree(V + "/stubs/uniffi", d + "/support/uniffi", ignore=shutil.ignore_patterns("Cargo.lock", "target"))
        elif b["wasm"]:
            open(d + "/demo.rs", "w").write(HEAD.replace("mod peer;\n", "") + b["demo"].strip() + "\n")
            shutil.copy(V + "/tools/demo_support/wdemo.sh", d + "/demo.sh")
            shutil.copy(V + "/sim/dsim_src/keys.rs", d + "/support/keys.rs")
            shutil.copy(V + "/tools/demo_support/wcommon.rs", d + "/support/common.rs")
            for f in ("wasm-bindgen", "wasm-bindgen-macro", "js-sys", "wasm-bindgen-futures"):
                shutil.copytree(V + "/stubs/" + f, d + "/support/" + f, ignore=shutil.ignore_patterns("Cargo.lock", "target"))
        else:
            open(d + "/demo.rs", "w").write(HEAD + b["demo"].strip() + "\n")
            shutil.copy(V + "/tools/demo_support/demo.sh", d + "/demo.sh")
            for f in ("keys.rs", "peer.rs"):
                shutil.copy(V + "/sim/dsim_src/" + f, d + "/support/" + f)
            shutil.copy(V + "/tools/demo_support/common.rs", d + "/support/common.rs")
        shutil.copytree(V + "/stubs/askar-crypto", d + "/support/askar-crypto")
    shutil.rmtree(work, ignore_errors=True)
    print(len(BUGS), "defined,", bad, "failed")


if __name__ == "__main__":
    main()
