# More planted changes; read by bugs.py.

bug("c01-number-width", "C01",
    [("src/message/attachment.rs",
      '''    /// to fully fetch the attachment.
    #[serde(skip_serializing_if = "Option::is_none")]
    pub byte_count: Option<u64>,
}
''',
      '''    /// to fully fetch the attachment.
    #[serde(skip_serializing_if = "Option::is_none")]
    #[serde(default, deserialize_with = "size")]
    pub byte_count: Option<u64>,
}

// Some implementations send sizes as floating point numbers
fn size<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {
    Ok(Option::<f64>::deserialize(d)?.map(|n| n as u64))
}
''')],
    "fn main() {" + PAIR + """
    let a = Attachment::links(vec!["https://example.org/x".into()], "h".into()).byte_count(9_007_199_254_740_993).finalize();
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).attachment(a).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let (u, _) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    check!(u == m, "byte_count {:?}", u.attachments.unwrap()[0].byte_count);
}""",
    "an attachment of more than 2^53 bytes",
    "large byte counts lose their last digits")

bug("c03-signer-for-agreement", "C03",
    [("src/message/unpack/sign.rs",
      '''    let signer_kid = signer_ddoc
        .authentication
        .iter()
        .find(|&k| k.as_str() == signer_kid)
        .ok_or_else(|| err_msg(ErrorKind::DIDUrlNotFound, "Signer kid not found in did"))?
        .as_str();
''',
      '''    // The key has to be referred to by the document
    let signer_kid = signer_ddoc
        .authentication
        .iter()
        .chain(&signer_ddoc.key_agreement)
        .find(|&k| k.as_str() == signer_kid)
        .ok_or_else(|| err_msg(ErrorKind::DIDUrlNotFound, "Signer kid not found in did"))?
        .as_str();
''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::P256);
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let net = registry(&[&doc(ad, &[&ak], &[&asg]), &doc(bd, &[], &[])]);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}, "from": ad}).to_string();
    let t = peer::jws_encode(&[peer::SigSpec::honest(&ak)], m.as_bytes(), false, false);
    let r = run(Message::unpack(&t, &net, &Wallet::default(), &Default::default()));
    check!(r.is_err(), "signature by a key-agreement key accepted: {:?}", r.unwrap().1.sign_from);
}""",
    "a message signed with a P-256 key that its owner lists for key agreement only",
    "signatures are accepted from keys the sender does not list for authentication")

bug("c03-signer-by-method", "C03",
    [("src/message/unpack/sign.rs",
      '''    let signer_kid = signer_ddoc
        .authentication
        .iter()
        .find(|&k| k.as_str() == signer_kid)
        .ok_or_else(|| err_msg(ErrorKind::DIDUrlNotFound, "Signer kid not found in did"))?
        .as_str();

    let signer_key = signer_ddoc
        .verification_method
        .iter()
        .find(|&vm| &vm.id == signer_kid)''',
      '''    let signer_kid = signer_ddoc
        .authentication
        .iter()
        .find(|&k| k.as_str() == signer_kid)
        .ok_or_else(|| err_msg(ErrorKind::DIDUrlNotFound, "Signer kid not found in did"))?
        .as_str();

    // Documents may spell the key ID in the method relative to the document
    let signer_key = signer_ddoc
        .verification_method
        .iter()
        .find(|&vm| !vm.id.is_empty() && signer_kid.ends_with(fragment(&vm.id)))'''),
     ("src/message/unpack/sign.rs",
      '''pub(crate) async fn _try_unpack_sign<''',
      '''fn fragment(id: &str) -> &str {
    id.rsplit('#').next().unwrap_or(id)
}

pub(crate) async fn _try_unpack_sign<''')],
    """fn main() {
    let ad = "did:example:a";
    let old = key(1, "did:example:a#1", Alg::Ed25519);
    let new = key(2, "did:example:a#k-1", Alg::Ed25519);
    // `old` is no longer listed for authentication, its method is still there, and comes first
    let mut d = doc(ad, &[], &[&old, &new]);
    d.auth = vec![new.kid.clone()];
    let net = registry(&[&d]);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}, "from": ad}).to_string();
    let mut s = peer::SigSpec::honest(&old);
    s.kid = new.kid.clone();
    let t = peer::jws_encode(&[s], m.as_bytes(), false, false);
    let r = run(Message::unpack(&t, &net, &Wallet::default(), &Default::default()));
    check!(r.is_err(), "signature by the withdrawn key accepted as {:?}", r.unwrap().1.sign_from);
}""",
    "a withdrawn key whose method stays in the document, with a fragment that ends the new key's fragment",
    "a signature by another key of the document is accepted under the listed key's name")

bug("c05-kids-by-fragment", "C05",
    [("src/message/pack_encrypted/anoncrypt.rs",
      '''        .filter(|kid| to_kid.map(|to_kid| kid == &to_kid).unwrap_or(true))
        .map(|s| s.as_str())''',
      '''        .filter(|kid| {
            to_kid
                .map(|to_kid| kid.eq_ignore_ascii_case(to_kid))
                .unwrap_or(true)
        })
        .map(|s| s.as_str())''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#key-a", Alg::X25519);
    let b2 = key(4, "did:example:b#key-A", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (_, meta) = run(m.pack_encrypted(&b1.kid, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    check!(meta.to_kids == vec![b1.kid.clone()], "encrypted to {:?}", meta.to_kids);
}""",
    "an anonymous message for a key ID of a recipient with another key whose ID differs in case only",
    "the message is encrypted to a key it was not addressed to as well")

bug("c05-first-found-sender", "C05",
    [("src/message/pack_encrypted/authcrypt.rs",
      '''    let to_kids: Vec<_> = to_keys.into_iter().map(|vm| vm.id.clone()).collect();
    Ok((msg, from_key.id.clone(), to_kids))''',
      '''    let to_kids: Vec<_> = to_keys.into_iter().map(|vm| vm.id.clone()).collect();
    let from_kid = from_keys.first().map(|vm| vm.id.clone());
    Ok((msg, from_kid.unwrap_or_default(), to_kids))''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let a1 = key(1, "did:example:a#p", Alg::P256);
    let a2 = key(2, "did:example:a#x", Alg::X25519);
    let bk = key(3, "did:example:b#x", Alg::X25519);
    let net = registry(&[&doc(ad, &[&a1, &a2], &[]), &doc(bd, &[&bk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (_, meta) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&a1, &a2]), &noforward())).unwrap();
    check!(meta.from_kid == Some(a2.kid.clone()), "metadata names {:?}", meta.from_kid);
}""",
    "a sender whose first key has another curve than the recipient's keys",
    "the packing metadata names a sender key that was not used")

bug("c06-gcm-p256", "C06",
    [("src/message/unpack/anoncrypt.rs",
      '''            (KnownKeyPair::P256(ref to_key), jwe::EncAlgorithm::A256Gcm) => {
                metadata.enc_alg_anon = Some(AnonCryptAlg::A256gcmEcdhEsA256kw);
''',
      '''            (KnownKeyPair::P256(ref to_key), jwe::EncAlgorithm::A256Gcm) => {
                metadata
                    .enc_alg_anon
                    .get_or_insert(AnonCryptAlg::A256gcmEcdhEsA256kw);
''')],
    """fn main() {
    let (bd, md) = ("did:example:b", "did:example:m");
    let bk = key(3, "did:example:b#p", Alg::P256);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let bw = Wallet::of(&[&bk]);
    let _ = md;
    use didcomm::algorithms::AnonCryptAlg;
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let o = PackEncryptedOptions { enc_alg_anon: AnonCryptAlg::A256gcmEcdhEsA256kw, ..noforward() };
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &bw, &o)).unwrap();
    let w = run(didcomm::protocols::routing::wrap_in_forward(&t, None, bd, &vec![bd.to_string()], &AnonCryptAlg::Xc20pEcdhEsA256kw, &net)).unwrap();
    let (_, meta) = run(Message::unpack(&w, &net, &bw, &UnpackOptions { unwrap_re_wrapping_forward: true, expect_decrypt_by_all_keys: false })).unwrap();
    check!(meta.enc_alg_anon == Some(AnonCryptAlg::A256gcmEcdhEsA256kw), "reported {:?}", meta.enc_alg_anon);
}""",
    "a message encrypted with A256GCM for a P-256 key, re-wrapped by a mediator with another algorithm",
    "the algorithm of the mediator's layer is reported for the message")

bug("c06-authenticated-early", "C06",
    [("src/message/unpack/authcrypt.rs",
      '''    let to_kids_found = secrets_resolver.find_secrets(&to_kids).await?;

    if to_kids_found.is_empty() {''',
      '''    let to_kids_found = secrets_resolver.find_secrets(&to_kids).await?;

    // The keys that are of use here
    metadata.encrypted_to_kids = Some(to_kids_found.iter().map(|&k| k.to_owned()).collect());

    if to_kids_found.is_empty() {''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward())).unwrap();
    let (_, meta) = run(Message::unpack(&t, &net, &Wallet::of(&[&b2]), &Default::default())).unwrap();
    check!(meta.encrypted_to_kids == Some(vec![b1.kid.clone(), b2.kid.clone()]), "to {:?}", meta.encrypted_to_kids);
}""",
    "an authenticated message to several keys, unpacked by a wallet that holds only some of them",
    "recipient key IDs the message was encrypted to are missing from the metadata")

bug("c07-p256-unprotected", "C07",
    [("src/message/pack_encrypted/authcrypt.rs",
      '''                    AnonCryptAlg::Xc20pEcdhEsA256kw => jwe::encrypt::<
                        Chacha20Key<XC20P>,
                        EcdhEs<'_, P256KeyPair>,
                        P256KeyPair,
                        AesKey<A256Kw>,
                    >(
                        msg.as_bytes(),
                        jwe::Algorithm::EcdhEsA256kw,
                        jwe::EncAlgorithm::Xc20P,
                        None,
                        &to_keys,
                    )
                    .context("Unable produce authcrypt envelope")?,''',
      '''                    // Not every implementation can decrypt this: already encrypted well enough
                    AnonCryptAlg::Xc20pEcdhEsA256kw if to_keys.len() > 1 => msg,
                    AnonCryptAlg::Xc20pEcdhEsA256kw => jwe::encrypt::<
                        Chacha20Key<XC20P>,
                        EcdhEs<'_, P256KeyPair>,
                        P256KeyPair,
                        AesKey<A256Kw>,
                    >(
                        msg.as_bytes(),
                        jwe::Algorithm::EcdhEsA256kw,
                        jwe::EncAlgorithm::Xc20P,
                        None,
                        &to_keys,
                    )
                    .context("Unable produce authcrypt envelope")?,''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::P256);
    let b1 = key(3, "did:example:b#k1", Alg::P256);
    let b2 = key(4, "did:example:b#k2", Alg::P256);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let o = PackEncryptedOptions { protect_sender: true, ..noforward() };
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &o)).unwrap();
    let v: Value = serde_json::from_str(&t).unwrap();
    let p = String::from_utf8(unb64(v["protected"].as_str().unwrap()).unwrap()).unwrap();
    check!(!p.contains(ad), "the envelope names the sender: {}", p);
}""",
    "sender protection with XC20P, P-256 keys, and a recipient with more than one key",
    "the message is sent without the protecting layer, naming the sender key")

bug("c08-profile-prefix", "C08",
    [("src/protocols/routing/mod.rs",
      '''                        if accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into()) {
                            Some((service.id.clone(), value.clone()))''',
      '''                        // Profiles may carry parameters
                        if accept.is_empty()
                            || accept
                                .iter()
                                .any(|profile| profile.trim().starts_with(DIDCOMM_V2_PROFILE))
                        {
                            Some((service.id.clone(), value.clone()))''')],
    """fn main() {
    let (bd, md) = ("did:example:b", "did:example:m");
    let bk = key(3, "did:example:b#k", Alg::X25519);
    let mk = key(4, "did:example:m#k", Alg::X25519);
    let mut d = doc(bd, &[&bk], &[]);
    let mut s1 = service("did:example:b#s1", "https://one.example", &["did:example:m#k"]);
    if let Svc::Didcomm { accept, .. } = &mut s1.kind {
        *accept = Some(vec!["didcomm/v2;env=x".into(), "didcomm/v20".into()]);
    }
    d.services = vec![s1, service("did:example:b#s2", "https://two.example", &["did:example:m#k"])];
    let net = registry(&[&d, &doc(md, &[&mk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (_, meta) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let s = meta.messaging_service.map(|s| s.id);
    check!(s.as_deref() == Some("did:example:b#s2"), "service {:?} used", s);
}""",
    "a recipient whose first service accepts only a profile whose name merely starts with didcomm/v2",
    "a service that does not accept DIDComm v2 is used")

bug("c08-endpoint-of-recipient", "C08",
    [("src/protocols/routing/mod.rs",
      '''        service_endpoint: services_chain.first().unwrap().1.uri.clone(),''',
      '''        service_endpoint: services_chain.last().unwrap().1.uri.clone(),''')],
    """fn main() {
    let (bd, md) = ("did:example:b", "did:example:m");
    let bk = key(3, "did:example:b#k", Alg::X25519);
    let mk = key(4, "did:example:m#k", Alg::X25519);
    let mut d = doc(bd, &[&bk], &[]);
    d.services = vec![service("did:example:b#s1", md, &[])];
    let mut dm = doc(md, &[&mk], &[]);
    dm.services = vec![service("did:example:m#s1", "https://mediator.example", &[])];
    let net = registry(&[&d, &dm]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (_, meta) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let s = meta.messaging_service.unwrap();
    check!(s.service_endpoint == "https://mediator.example", "post to {:?}", s);
}""",
    "a recipient whose service endpoint is the DID of a mediator",
    "the metadata names the mediator's DID instead of the address to post to")

bug("c08-next-without-key", "C08",
    [("src/protocols/routing/mod.rs",
      '''    let body = json!({ "next": next });
''',
      '''    // Which key is used is up to the next hop
    let (next_did, _) = did_or_url(next);
    let body = json!({ "next": next_did });
''')],
    """fn main() {
    let (bd, md) = ("did:example:b", "did:example:m");
    let bk = key(3, "did:example:b#k", Alg::X25519);
    let b2 = key(5, "did:example:b#k2", Alg::X25519);
    let mk = key(4, "did:example:m#k", Alg::X25519);
    let mut d = doc(bd, &[&bk, &b2], &[]);
    d.services = vec![service("did:example:b#s1", "https://m.example", &["did:example:m#k"])];
    let net = registry(&[&d, &doc(md, &[&mk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(&b2.kid, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    let (f, _) = run(Message::unpack(&t, &net, &Wallet::of(&[&mk]), &Default::default())).unwrap();
    check!(f.body["next"] == json!(b2.kid), "the mediator is told to forward to {}", f.body["next"]);
}""",
    "a message packed for one key of a recipient behind a mediator",
    "the mediator is told the DID as next hop instead of the key the message was packed for")

bug("c09-unwrap-by-did", "C09",
    [("src/message/unpack/mod.rs",
      '''        (_, Some(kid)) => {
            vec![kid.to_owned()]
        }''',
      '''        (did, Some(kid)) => {
            // Any key of the named DID will do
            let mut kids = vec![kid.to_owned()];
            if let Some(did_doc) = did_resolver.resolve(did).await? {
                kids.extend(did_doc.key_agreement);
            }
            kids
        }''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(5, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(&b2.kid, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let w = run(didcomm::protocols::routing::wrap_in_forward(&t, None, &b2.kid, &vec![b1.kid.clone()], &Default::default(), &net)).unwrap();
    // this device holds k1 only: it relays to the device that holds k2
    let r = run(Message::unpack(&w, &net, &Wallet::of(&[&b1]), &UnpackOptions { unwrap_re_wrapping_forward: true, expect_decrypt_by_all_keys: false }));
    check!(r.is_ok(), "the forward cannot be unpacked: {:?}", r.err());
    check!(r.unwrap().0.body["next"] == json!(b2.kid), "not the forward");
}""",
    "a forward whose next hop is a key held by another device of the same DID",
    "a forward for somebody else's key is opened, which fails, instead of being returned")

bug("c09-unwrap-depth", "C09",
    [("src/message/unpack/mod.rs",
      '''        let mut forwarded_msg: String;

        loop {''',
      '''        let mut forwarded_msg: String;
        let mut depth = 0;

        loop {
            depth += 1;
'''),
     ("src/message/unpack/mod.rs",
      '''            if options.unwrap_re_wrapping_forward && anoncrypted.is_some() {''',
      '''            // A message is not re-wrapped that often
            if options.unwrap_re_wrapping_forward && depth <= 3 && anoncrypted.is_some() {''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let bw = Wallet::of(&[&bk]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (mut t, _) = run(m.pack_encrypted(bd, None, None, &net, &bw, &noforward())).unwrap();
    for _ in 0..4 {
        t = run(didcomm::protocols::routing::wrap_in_forward(&t, None, bd, &vec![bd.to_string()], &Default::default(), &net)).unwrap();
    }
    let (u, _) = run(Message::unpack(&t, &net, &bw, &UnpackOptions { unwrap_re_wrapping_forward: true, expect_decrypt_by_all_keys: false })).unwrap();
    check!(u == m, "not the message: {:?}", u.type_);
}""",
    "a message re-wrapped four times on the way",
    "messages in more than three layers of forwards are not unwrapped")

bug("c10-unwrap-outage", "C10",
    [("src/message/unpack/mod.rs",
      '''    let secrets_ids = secrets_resolver.find_secrets(&kids[..]).await?;

    return Ok(!secrets_ids.is_empty());''',
      '''    let known = secrets_resolver.find_secrets(&kids[..]).await;

    return Ok(known.map(|ids| !ids.is_empty()).unwrap_or(false));''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let bw = Wallet::of(&[&bk]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &bw, &noforward())).unwrap();
    let w = run(didcomm::protocols::routing::wrap_in_forward(&t, None, bd, &vec![bd.to_string()], &Default::default(), &net)).unwrap();
    for n in 0..5 {
        bw.calls.set(0);
        bw.fail.set(Some((n, ErrorKind::IoError)));
        let r = run(Message::unpack(&w, &net, &bw, &UnpackOptions { unwrap_re_wrapping_forward: true, expect_decrypt_by_all_keys: false }));
        let k = r.as_ref().err().map(|e| e.kind());
        check!(bw.calls.get() <= n || k == Some(ErrorKind::IoError), "wallet call {} failed, unpacking returned {:?}", n, r.map(|r| r.0.type_));
    }
}""",
    "the wallet fails just when it is asked whether a forward is for an own key",
    "the outage is swallowed and the forward returned as if it were for somebody else")

bug("c10-next-unresolved", "C10",
    [("src/message/pack_encrypted/anoncrypt.rs",
      '''    let to_ddoc = did_resolver
        .resolve(to_did)
        .await
        .context("Unable resolve recipient did")?
        .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Recipient did not found"))?;
''',
      '''    let to_ddoc = did_resolver
        .resolve(to_did)
        .await
        .ok()
        .flatten()
        .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Recipient did not found"))?;
''')],
    "fn main() {" + PAIR + """
    let _ = (ad, &bw);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    net.fail.set(Some((0, ErrorKind::IoError)));
    let r = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward()));
    let k = r.err().map(|e| e.kind());
    check!(k == Some(ErrorKind::IoError), "an outage of the resolver is reported as {:?}", k);
}""",
    "the resolver fails while an anonymous message (or a forward layer) is packed",
    "an outage of the resolver is reported as an unresolvable DID")

bug("c11-shared-signer", "C11",
    [("src/message/pack_signed.rs",
      '''        let payload = self.pack_plaintext(did_resolver).await?;
''',
      '''        let payload = PAYLOAD.with(|p| p.borrow_mut().take());
        let payload = match payload {
            Some((id, payload)) if id == self.id => payload,
            _ => self.pack_plaintext(did_resolver).await?,
        };
'''),
     ("src/message/pack_signed.rs",
      '''        self._validate_pack_signed(sign_by)?;
''',
      '''        self._validate_pack_signed(sign_by)?;

        // Refuse messages that cannot be packed before the wallet is asked
        let payload = self.pack_plaintext(did_resolver).await?;
        PAYLOAD.with(|p| *p.borrow_mut() = Some((self.id.clone(), payload)));
'''),
     ("src/message/pack_signed.rs",
      '''impl Message {''',
      '''thread_local! {
    static PAYLOAD: std::cell::RefCell<Option<(String, String)>> = Default::default();
}

impl Message {''')],
    "fn main() {" + PAIR + """
    let _ = (bd, &bw);
    net.slow.set(true);
    let m = |n: u64| Message::build("same-id".into(), "t".into(), json!({"n": n})).from(ad.into()).finalize();
    let (m1, m2) = (m(1), m(2));
    let mut f: Vec<Pin<Box<dyn Future<Output = _>>>> = vec![Box::pin(m1.pack_signed(ad, &net, &aw)), Box::pin(m2.pack_signed(ad, &net, &aw))];
    let mut out: Vec<Option<(String, PackSignedMetadata)>> = vec![None, None];
    while out.iter().any(|o| o.is_none()) {
        for i in 0..2 {
            if out[i].is_none() {
                if let Some(r) = poll_once(&mut f[i]) {
                    out[i] = Some(r.unwrap());
                }
            }
        }
    }
    net.slow.set(false);
    for i in 0..2 {
        let (u, _) = run(Message::unpack(&out[i].as_ref().unwrap().0, &net, &Wallet::default(), &Default::default())).unwrap();
        check!(u.body["n"] == json!(i as u64 + 1), "message {} was signed with the content of another: {}", i + 1, u.body);
    }
}""",
    "two messages with the same ID signed at the same time",
    "one operation signs the content of the other")

bug("c11-document-memory", "C11",
    [("src/message/unpack/authcrypt.rs",
      '''    let from_ddoc = did_resolver
        .resolve(from_did)
        .await
        .context("Unable resolve sender did")?
        .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;

    let from_kid = from_ddoc''',
      '''    let from_ddoc = did_resolver
        .resolve(from_did)
        .await
        .context("Unable resolve sender did")?;

    // A message may still be on its way when its sender is deactivated
    let from_ddoc = match from_ddoc {
        Some(ddoc) => {
            SENDERS.with(|s| s.borrow_mut().insert(from_did.to_owned(), ddoc.clone()));
            ddoc
        }
        None => SENDERS
            .with(|s| s.borrow().get(from_did).cloned())
            .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?,
    };

    let from_kid = from_ddoc'''),
     ("src/message/unpack/authcrypt.rs",
      '''pub(crate) async fn _try_unpack_authcrypt<''',
      '''thread_local! {
    static SENDERS: std::cell::RefCell<std::collections::HashMap<String, crate::did::DIDDoc>> =
        Default::default();
}

pub(crate) async fn _try_unpack_authcrypt<''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &noforward())).unwrap();
    run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    net.docs.borrow_mut().remove(ad);
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_err(), "a message of a deactivated DID is still accepted");
}""",
    "a message from a DID that was resolved before and no longer is",
    "an earlier document is used when the resolver does not know the DID any more")

bug("c12-excerpt", "C12",
    [("src/message/message.rs",
      '''        serde_json::from_str(s).to_didcomm("Unable deserialize jwm")
''',
      '''        // Tell which message it was
        let start = &s[..s.len().min(32)];
        serde_json::from_str(s).to_didcomm(format!("Unable deserialize jwm: {}", start))
''')],
    """fn main() {
    let net = registry(&[]);
    let t = "0123456789012345678901234567890\\u{20ac} is not a message";
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(Message::unpack(t, &net, &Wallet::default(), &Default::default())).err().map(|e| e.kind())));
    check!(matches!(r, Ok(Some(ErrorKind::Malformed))), "unpacking garbage: {:?}", r);
}""",
    "input with a multi-byte character across byte 32",
    "unpacking panics")

bug("c12-vanished-secret", "C12",
    [("src/message/unpack/anoncrypt.rs",
      '''            .get_secret(to_kid)
            .await?
            .ok_or_else(|| {
                err_msg(
                    ErrorKind::InvalidState,
                    "Recipient secret not found after existence checking",
                )
            })?
            .as_key_pair()?;''',
      '''            .get_secret(to_kid)
            .await?
            .expect("find_secrets returns keys that are there")
            .as_key_pair()?;''')],
    """struct Gone(Wallet);
#[async_trait(?Send)]
impl SecretsResolver for Gone {
    async fn get_secret(&self, _: &str) -> Result<Option<Secret>> {
        Ok(None)
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        self.0.find_secrets(ids).await
    }
}
fn main() {""" + PAIR + """
    let _ = (ad, &aw);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let gone = Gone(bw);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(Message::unpack(&t, &net, &gone, &Default::default())).is_err()));
    check!(matches!(r, Ok(true)), "a secret removed while unpacking: {:?}", r);
}""",
    "a secret deleted between the wallet's two calls",
    "unpacking panics")

bug("c12-no-recipients", "C12",
    [("src/message/unpack/anoncrypt.rs",
      '''    let to_kid = to_kids
        .first()
        .map(|&k| k)
        .ok_or_else(|| err_msg(ErrorKind::Malformed, "No recipient keys found"))?;
''',
      '''    let to_kid = to_kids[0];
''')],
    """fn main() {
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mut rng = Prng::new(5);
    let mut s = peer::JweSpec::anon("XC20P", vec![bk.clone()]);
    s.recips.clear();
    let _ = &mut s;
    let t = peer::jwe_encode(&mut rng, &s, b"{}").text;
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let mut p: Value = serde_json::from_slice(&unb64(v["protected"].as_str().unwrap()).unwrap()).unwrap();
    p["apv"] = json!(b64(<sha2::Sha256 as sha2::Digest>::digest(b"")));
    v["protected"] = json!(b64(p.to_string()));
    v["recipients"] = json!([]);
    let net = registry(&[]);
    let t = v.to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(Message::unpack(&t, &net, &Wallet::default(), &Default::default())).err().map(|e| e.kind())));
    check!(matches!(r, Ok(Some(ErrorKind::Malformed))), "an envelope without recipients: {:?}", r);
}""",
    "an anonymous envelope with an empty recipients list and the digest of nothing",
    "unpacking panics")

bug("c13-plain-notice", "C13",
    [("src/message/unpack/plaintext.rs",
      '''    if let Some(from_prior) = &msg.from_prior {''',
      '''    // Nothing is known about who sent a plain message
    let protected = metadata.encrypted || metadata.non_repudiation;

    if let Some(from_prior) = msg.from_prior.as_ref().filter(|_| protected) {''')],
    """fn main() {
    let ad = "did:example:a";
    let asg = key(2, "did:example:a#s1", Alg::Ed25519);
    let evil = key(9, "did:example:a#s1", Alg::Ed25519);
    let net = registry(&[&doc(ad, &[], &[&asg])]);
    let jwt = peer::jwt_encode(&evil, &evil.kid, "EdDSA", "JWT", &json!({"iss": ad, "sub": "did:example:new"}), false);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}, "from": "did:example:new", "from_prior": jwt}).to_string();
    let r = run(Message::unpack(&m, &net, &Wallet::default(), &Default::default()));
    check!(r.is_err(), "a plaintext message with a forged notice is accepted");
}""",
    "a plaintext message that carries a forged rotation notice",
    "rotation notices of plaintext messages are not verified")

bug("c14-all-needed", "C14",
    [("src/message/unpack/authcrypt.rs",
      '''    let mut payload: Option<Vec<u8>> = None;

    for to_kid in to_kids_found {''',
      '''    if opts.expect_decrypt_by_all_keys && to_kids_found.len() < to_kids.len() {
        Err(err_msg(
            ErrorKind::SecretNotFound,
            "Some recipient secrets not found",
        ))?;
    }

    let mut payload: Option<Vec<u8>> = None;

    for to_kid in to_kids_found {''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let b1 = key(3, "did:example:b#k1", Alg::X25519);
    let b2 = key(4, "did:example:b#k2", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward())).unwrap();
    let o = UnpackOptions { expect_decrypt_by_all_keys: true, unwrap_re_wrapping_forward: true };
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&b2]), &o));
    check!(r.is_ok(), "all held keys decrypt the message, yet: {:?}", r.err());
}""",
    "an authenticated message to several keys and a wallet that holds only some of them, all keys required",
    "keys the wallet does not hold are required, too")

bug("c14-two-suffice", "C14",
    [("src/message/unpack/anoncrypt.rs",
      '''        payload = Some(_payload);

        if !opts.expect_decrypt_by_all_keys {
            break;
        }''',
      '''        // Another key that decrypts the same content is as good as all of them
        let confirmed = payload.as_ref() == Some(&_payload);
        payload = Some(_payload);

        if !opts.expect_decrypt_by_all_keys || confirmed {
            break;
        }''')],
    """fn main() {
    let bd = "did:example:b";
    let ks: Vec<_> = (0..3).map(|i| key(3 + i, &format!("did:example:b#k{}", i), Alg::X25519)).collect();
    let kr: Vec<&Key> = ks.iter().collect();
    let net = registry(&[&doc(bd, &kr, &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    v["recipients"][2]["encrypted_key"] = v["recipients"][1]["encrypted_key"].clone();
    let o = UnpackOptions { expect_decrypt_by_all_keys: true, unwrap_re_wrapping_forward: true };
    let r = run(Message::unpack(&v.to_string(), &net, &Wallet::of(&kr), &o));
    check!(r.is_err(), "accepted although the third key cannot decrypt it");
}""",
    "an anonymous message to at least three held keys whose last per-recipient entry is damaged",
    "decryption by two keys passes for decryption by all")

bug("c15-did-prefix", "C15",
    [("src/message/unpack/authcrypt.rs",
      '''        let (k_did, k_url) = did_or_url(k);
        (k_did != to_did) || (k_url.is_none())''',
      '''        let (_, k_url) = did_or_url(k);
        // The keys of the recipient
        !k.starts_with(to_did) || (k_url.is_none())''')],
    """fn main() {
    let (ad, bd, cd) = ("did:example:a", "did:example:b", "did:example:bc");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let ck = key(4, "did:example:bc#k1", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&bk], &[]), &doc(cd, &[&ck], &[])]);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}, "from": ad}).to_string();
    let t = peer::jwe_encode(&mut Prng::new(5), &peer::JweSpec::auth(ak.clone(), vec![bk.clone(), ck.clone()]), m.as_bytes()).text;
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&bk]), &Default::default()));
    check!(matches!(r.as_ref().map_err(|e| e.kind()), Err(ErrorKind::Malformed)), "recipients of two DIDs accepted: {:?}", r.map(|r| r.1.encrypted_to_kids));
}""",
    "an authenticated envelope to keys of two DIDs, one of which begins with the other",
    "recipients of more than one DID are accepted")

bug("c15-digest-deduped", "C15",
    [("src/jwe/parse.rs",
      '''            kids.sort();
            Sha256::digest''',
      '''            kids.sort();
            kids.dedup_by_key(|kid| kid.to_ascii_lowercase());
            Sha256::digest''')],
    """fn main() {
    let bd = "did:example:b";
    let b1 = key(3, "did:example:b#Key", Alg::X25519);
    let b2 = key(4, "did:example:b#key", Alg::X25519);
    let net = registry(&[&doc(bd, &[&b1, &b2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&b1]), &Default::default()));
    check!(r.is_ok(), "a valid envelope is refused: {:?}", r.err());
}""",
    "a recipient with two keys whose IDs differ in case only",
    "the recipients digest is computed over fewer key IDs than there are")

bug("c16-no-copy-inside", "C16",
    [("src/message/unpack/sign.rs",
      '''    metadata.signed_message = Some(jws_json.into());
''',
      '''    // The payload is what counts; unprotected headers are of no interest to third parties
    metadata.signed_message = serde_json::to_string(&parsed_jws.jws)
        .ok()
        .filter(|_| !metadata.anonymous_sender);
''')],
    "fn main() {" + PAIR + """
    let _ = &ak;
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, Some(ad), &net, &aw, &noforward())).unwrap();
    let (_, meta) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    let s = meta.signed_message;
    check!(s.is_some(), "no signed message handed out");
    let (u, _) = run(Message::unpack(&s.unwrap(), &net, &Wallet::default(), &Default::default())).unwrap();
    check!(u == m, "content");
}""",
    "a signed message inside anonymous encryption (or sender protection)",
    "the signed envelope is not handed out")

bug("c17-signing-first", "C17",
    [("src/message/pack_signed.rs",
      '''        let key_id = *secrets_resolver
            .find_secrets(&authentications)
            .await
            .context("Unable find secrets")?
            .get(0)
            .ok_or_else(|| err_msg(ErrorKind::SecretNotFound, "No signer secrets found"))?;
''',
      '''        // The first key is the preferred one
        let key_id = *secrets_resolver
            .find_secrets(&authentications[..authentications.len().min(2)])
            .await
            .context("Unable find secrets")?
            .get(0)
            .ok_or_else(|| err_msg(ErrorKind::SecretNotFound, "No signer secrets found"))?;
''')],
    """fn main() {
    let ad = "did:example:a";
    let ks: Vec<_> = (0..3).map(|i| key(3 + i, &format!("did:example:a#s{}", i), Alg::Ed25519)).collect();
    let kr: Vec<&Key> = ks.iter().collect();
    let net = registry(&[&doc(ad, &[], &kr)]);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).finalize();
    let r = run(m.pack_signed(ad, &net, &Wallet::of(&[&ks[2]])));
    check!(r.is_ok(), "the wallet holds an authentication key, yet: {:?}", r.err());
}""",
    "a signer with three authentication keys whose device holds only the third",
    "signing looks at the first two authentication keys only")

bug("c19-accept-default", "C19",
    [("src/did/did_doc.rs",
      '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub accept: Option<Vec<String>>,
''',
      '''    #[serde(
        skip_serializing_if = "Option::is_none",
        serialize_with = "known_profiles"
    )]
    pub accept: Option<Vec<String>>,
'''),
     ("src/did/did_doc.rs",
      '''#[derive(Debug, Clone, Deserialize, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct DIDCommMessagingService {''',
      '''// Only DIDComm profiles mean anything to the readers of the document
fn known_profiles<S: serde::Serializer>(
    accept: &Option<Vec<String>>,
    s: S,
) -> Result<S::Ok, S::Error> {
    let known = accept.iter().flatten().filter(|p| p.starts_with("didcomm/"));
    s.collect_seq(known)
}

#[derive(Debug, Clone, Deserialize, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct DIDCommMessagingService {''')],
    """fn main() {
    let mut d = doc("did:example:b", &[], &[]);
    let mut s = service("did:example:b#s", "https://x.example", &[]);
    if let Svc::Didcomm { accept, .. } = &mut s.kind {
        *accept = Some(vec!["other/profile".into()]);
    }
    d.services = vec![s];
    let lib = d.to_lib();
    let back: DIDDoc = serde_json::from_str(&serde_json::to_string(&lib).unwrap()).unwrap();
    check!(format!("{:?}", lib) == format!("{:?}", back), "stored {:?}, loaded {:?}", lib.service, back.service);
}""",
    "a service that accepts only profiles other than DIDComm v2, stored and loaded again",
    "the accepted profiles are lost in storage")

bug("c20-signing-base58-only", "C20",
    [("src/utils/did.rs",
      '''            (
                VerificationMethodType::Ed25519VerificationKey2018,
                VerificationMaterial::Base58 {
                    public_key_base58: _,
                },
            ) => KnownKeyAlg::Ed25519,
            (
                VerificationMethodType::X25519KeyAgreementKey2020,''',
      '''            (
                VerificationMethodType::Ed25519VerificationKey2018,
                VerificationMaterial::Base58 {
                    public_key_base58: ref value,
                },
            ) if value.len() >= 44 => KnownKeyAlg::Ed25519,
            (
                VerificationMethodType::X25519KeyAgreementKey2020,''')],
    """fn main() {
    let ad = "did:example:a";
    // a key whose base58 form is shorter than most
    let k = (1..4000).map(|i| key(i, "did:example:a#s1", Alg::Ed25519)).find(|k| bs58::encode(&k.x).into_string().len() < 44).unwrap();
    let mut d = doc(ad, &[], &[&k]);
    d.vms = vec![vmf(&k, Fmt::B58)];
    let net = registry(&[&d]);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).finalize();
    let (t, _) = run(m.pack_signed(ad, &net, &Wallet::of(&[&k]))).unwrap();
    let r = run(Message::unpack(&t, &net, &Wallet::default(), &Default::default()));
    check!(r.is_ok(), "the key is not usable as base58: {:?}", r.err());
}""",
    "an Ed25519 key whose base58 form has 43 characters",
    "a signature cannot be verified when the key is published as Base58")

bug("c20-curve-only", "C20",
    [("src/utils/did.rs",
      '''                let (codec, decoded_value) = _from_multicodec(&decoded_value)?;
                if codec != Codec::X25519Pub {''',
      '''                let (codec, decoded_value) = _from_multicodec(&decoded_value)?;
                let decoded_value = decoded_value.strip_suffix(&[0]).unwrap_or(decoded_value);
                if codec != Codec::X25519Pub {''')],
    """fn main() {
    let bd = "did:example:b";
    let k = (1..20000).map(|i| key(i, "did:example:b#k1", Alg::X25519)).find(|k| k.x.last() == Some(&0)).unwrap();
    let mut d = doc(bd, &[&k], &[]);
    d.vms = vec![vmf(&k, Fmt::Mb)];
    let net = registry(&[&d]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let r = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward()));
    check!(r.is_ok(), "the key is not usable as multibase: {:?}", r.err());
}""",
    "an X25519 key whose last byte is zero, published as Multibase",
    "such a key cannot be used in its Multibase form")

bug("c21-typ-required", "C21",
    [("src/jwe/parse.rs",
      '''        let apv = base64::decode_config(protected.apv, base64::URL_SAFE_NO_PAD)''',
      '''        if protected.typ.as_deref() != Some("application/didcomm-encrypted+json") {
            Err(err_msg(ErrorKind::Malformed, "Wrong typ in protected header"))?
        }

        let apv = base64::decode_config(protected.apv, base64::URL_SAFE_NO_PAD)''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}}).to_string();
    let mut s = peer::JweSpec::anon("XC20P", vec![bk.clone()]);
    s.typ = None;
    let t = peer::jwe_encode(&mut Prng::new(5), &s, m.as_bytes()).text;
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&bk]), &Default::default()));
    check!(r.is_ok(), "an envelope without typ is refused: {:?}", r.err());
}""",
    "an envelope of a peer that leaves out the optional media type",
    "envelopes without typ (or with its short form) are refused")

bug("c22-content-key-from-message", "C22",
    [("src/jwe/encrypt.rs",
      '''    let cek = CE::generate(&mut rng).kind(ErrorKind::InvalidState, "Unable generate cek")?;
''',
      '''    // The same content for the same recipients gets the same content key, so that copies can be
    // recognised by the recipients
    let cek = {
        let mut seed = Sha256::new();
        seed.update(plaintext);
        for (kid, _) in recipients {
            seed.update(kid.as_bytes());
        }
        let half = seed.finalize();
        let seed = [half.as_slice(), Sha256::digest(&half).as_slice()].concat();
        let fresh = CE::generate(&mut rng).kind(ErrorKind::InvalidState, "Unable generate cek")?;
        let len = fresh
            .secret_bytes_length()
            .kind(ErrorKind::InvalidState, "Unable generate cek")?;
        CE::from_secret_bytes(&seed[..len.min(seed.len())])
            .kind(ErrorKind::InvalidState, "Unable generate cek")?
    };
'''),
     ("src/jwe/encrypt.rs", '''    repr::{KeyGen, ToSecretBytes},''', '''    repr::{KeyGen, KeySecretBytes, ToSecretBytes},'''),
     ("src/jwe/encrypt.rs", '''    CE: KeyAeadInPlace + KeyAeadMeta + KeyGen + ToSecretBytes,''', '''    CE: KeyAeadInPlace + KeyAeadMeta + KeyGen + KeySecretBytes + ToSecretBytes,''')],
    "fn main() {" + PAIR + """
    let _ = (ad, &bw);
    let m = Message::build("1".into(), "t".into(), json!({"vote": "yes"})).finalize();
    let mut ceks = vec![];
    for _ in 0..2 {
        let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
        let v: Value = serde_json::from_str(&t).unwrap();
        ceks.push(peer::parse_jwe(&v).unwrap().ok().unwrap().cek(&bk.kid, &bk, None).expect("content key"));
    }
    check!(ceks[0] != ceks[1], "two packings of a message share their content key");
}""",
    "the same message packed twice (a retry)",
    "the content key is derived from the message: it repeats, and whoever guesses the message can check it")

bug("c23-empty-recipients", "C23",
    [("src/message/pack_encrypted/mod.rs",
      '''            Some(ref sto) if !sto.contains(&to_did.into()) => {''',
      '''            Some(ref sto) if !sto.is_empty() && !sto.contains(&to_did.into()) => {''')],
    "fn main() {" + PAIR + """
    let _ = (ad, &bw);
    let m = Message::build("1".into(), "t".into(), json!({})).to_many(vec![]).finalize();
    let r = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward()));
    let k = r.err().map(|e| e.kind());
    check!(k == Some(ErrorKind::IllegalArgument), "packed for a target that is not among the recipients: {:?}", k);
}""",
    "a message with an empty list of recipients",
    "a target that is not among the message's (no) recipients is accepted")

bug("c23-sender-case", "C23",
    [("src/message/pack_encrypted/mod.rs",
      '''            (Some(ref from), Some(ref sfrom)) if did_or_url(from).0 != sfrom => Err(err_msg(''',
      '''            (Some(ref from), Some(ref sfrom)) if !did_or_url(from).0.starts_with(sfrom.as_str()) => Err(err_msg(''')],
    """fn main() {
    let (ad, bd) = ("did:example:ab", "did:example:b");
    let ak = key(1, "did:example:ab#k1", Alg::X25519);
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &[&bk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).from("did:example:a".into()).finalize();
    let r = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward()));
    let k = r.err().map(|e| e.kind());
    check!(k == Some(ErrorKind::IllegalArgument), "packed by {} although it is from did:example:a: {:?}", ad, k);
}""",
    "a message from a DID that is a prefix of the sender's DID",
    "a sender other than the message's sender is accepted")

# ------------------------------------------------------------------ sizes, counters, inattentive loops
bug("c01-chunked-base64", "C01",
    [("src/jwe/encrypt.rs",
      '''        let ciphertext = base64::encode_config(&ciphertext, base64::URL_SAFE_NO_PAD);
''',
      '''        // Encode piece by piece, so that large messages need no second buffer of their size
        let mut encoded = String::with_capacity(ciphertext.len() * 4 / 3 + 4);
        for piece in ciphertext.chunks(1 << 14) {
            base64::encode_config_buf(piece, base64::URL_SAFE_NO_PAD, &mut encoded);
        }
        let ciphertext = encoded;
''')],
    "fn main() {" + PAIR + """
    let _ = ad;
    let m = Message::build("1".into(), "t".into(), json!({"text": "x".repeat(40_000)})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_ok() && r.as_ref().unwrap().0 == m, "a long message does not survive: {:?}", r.err());
}""",
    "a message of more than 16 KiB",
    "long messages cannot be unpacked by anybody")

bug("c05-many-keys", "C05",
    [("src/jwe/encrypt.rs",
      '''        for (kid, key) in recipients {
            let kw''',
      '''        // No device list is that long; keep envelopes small
        for (kid, key) in recipients.iter().take(8) {
            let kw'''),
     ("src/jwe/encrypt.rs",
      '''        let mut kids = recipients.iter().map(|r| r.0).collect::<Vec<_>>();
''',
      '''        let mut kids = recipients.iter().map(|r| r.0).take(8).collect::<Vec<_>>();
''')],
    """fn main() {
    let bd = "did:example:b";
    let ks: Vec<Key> = (0..11).map(|i| key(10 + i, &format!("did:example:b#k{}", i), Alg::X25519)).collect();
    let net = registry(&[&doc(bd, &ks.iter().collect::<Vec<_>>(), &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    for k in &ks {
        let r = run(Message::unpack(&t, &net, &Wallet::of(&[k]), &Default::default()));
        check!(r.is_ok(), "{} cannot read: {:?}", k.kid, r.err());
    }
}""",
    "a recipient with more than eight keys of one curve",
    "the message is encrypted to the first eight keys only")

bug("c08-long-route", "C08",
    [("src/protocols/routing/mod.rs",
      '''    for (to_, next_) in tos.iter().zip(nexts.iter()) {''',
      '''    // Guard against absurd routes
    for (to_, next_) in tos.iter().zip(nexts.iter()).take(4) {''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let ms: Vec<Key> = (0..5).map(|i| key(20 + i, &format!("did:example:m{}#k1", i), Alg::X25519)).collect();
    let mut b = doc(bd, &[&bk], &[]);
    b.services = vec![service("did:example:b#s", "https://first.example", &ms.iter().map(|m| m.kid.as_str()).collect::<Vec<_>>())];
    let mut docs = vec![b];
    for (i, m) in ms.iter().enumerate() {
        docs.push(doc(&format!("did:example:m{}", i), &[m], &[]));
    }
    let net = registry(&docs.iter().collect::<Vec<_>>());
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (mut t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &Default::default())).unwrap();
    for k in &ms {
        let o = UnpackOptions { unwrap_re_wrapping_forward: false, ..Default::default() };
        let r = run(Message::unpack(&t, &net, &Wallet::of(&[k]), &o));
        check!(r.is_ok(), "{} cannot read its layer: {:?}", k.kid, r.err());
        t = didcomm::protocols::routing::try_parse_forward(&r.unwrap().0).unwrap().forwarded_msg.to_string();
    }
}""",
    "a route of more than four mediators",
    "the layers of the first mediators are missing, so the message cannot be delivered")

bug("c09-single-attachment", "C09",
    [("src/protocols/routing/mod.rs",
      '''            [attachment, ..] => match &attachment.data {''',
      '''            [attachment] => match &attachment.data {''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let f = Message::build("2".into(), "https://didcomm.org/routing/2.0/forward".into(), json!({"next": bd}))
        .attachment(Attachment::json(serde_json::from_str(&t).unwrap()).finalize())
        .attachment(Attachment::base64("aGk".into()).description("received by the night relay".into()).finalize())
        .finalize();
    let (t, _) = run(f.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: true, ..Default::default() };
    let (u, _) = run(Message::unpack(&t, &net, &bw, &o)).unwrap();
    check!(u.id == "1", "the re-wrapping was not undone: {} {}", ad, u.type_);
}""",
    "a mediator that adds an attachment of its own to its forward",
    "such re-wrapped messages are not opened")

bug("c10-later-key-outage", "C10",
    [("src/message/unpack/anoncrypt.rs",
      '''        let to_key = secrets_resolver
            .get_secret(to_kid)
            .await?
            .ok_or_else(|| {''',
      '''        let secret = match secrets_resolver.get_secret(to_kid).await {
            Err(e) if e.kind() == ErrorKind::IoError && payload.is_some() => break,
            r => r?,
        };

        let to_key = secret
            .ok_or_else(|| {''')],
    """fn main() {
    let bd = "did:example:b";
    let (k1, k2) = (key(3, "did:example:b#k1", Alg::X25519), key(4, "did:example:b#k2", Alg::X25519));
    let net = registry(&[&doc(bd, &[&k1, &k2], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let w = Wallet::of(&[&k1, &k2]);
    w.fail.set(Some((2, ErrorKind::IoError)));
    let o = UnpackOptions { expect_decrypt_by_all_keys: true, ..Default::default() };
    let r = run(Message::unpack(&t, &net, &w, &o));
    check!(r.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::IoError), "the wallet failed, but the message was accepted");
}""",
    "decryption by all keys is required and the wallet fails at the second or a later key",
    "the wallet's failure is swallowed and the message accepted although not all keys decrypted it")

bug("c11-busy-flag", "C11",
    [("src/message/unpack/mod.rs",
      '''            if has_key_agreement_secret(&forward_msg.next, did_resolver, secrets_resolver).await? {''',
      '''            // Do not ask for the same things again while a forward is being looked at already
            if LOOKING.swap(true, std::sync::atomic::Ordering::SeqCst) {
                return Ok(None);
            }
            let own = has_key_agreement_secret(&forward_msg.next, did_resolver, secrets_resolver).await;
            LOOKING.store(false, std::sync::atomic::Ordering::SeqCst);

            if own? {'''),
     ("src/message/unpack/mod.rs",
      '''/// Allows fine customization of unpacking process
''',
      '''static LOOKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Allows fine customization of unpacking process
''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let f = Message::build("2".into(), "https://didcomm.org/routing/2.0/forward".into(), json!({"next": bd}))
        .attachment(Attachment::json(serde_json::from_str(&t).unwrap()).finalize())
        .finalize();
    let (t, _) = run(f.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: true, ..Default::default() };
    net.slow.set(true);
    {
        // an operation that is given up while the resolver is asked
        let mut op = Box::pin(Message::unpack(&t, &net, &bw, &o));
        check!(poll_once(&mut op).is_none(), "the resolver was not asked");
    }
    let (u, _) = run(Message::unpack(&t, &net, &bw, &o)).unwrap();
    check!(u.id == "1", "after a cancelled operation the re-wrapping is not undone: {} {}", ad, u.type_);
}""",
    "two re-wrapped messages unpacked at the same time, or one given up while the resolver is asked",
    "a re-wrapped message is returned as the mediator's forward")

bug("c11-leaked-slots", "C11",
    [("src/message/unpack/mod.rs",
      '''        let mut metadata = UnpackMetadata {
            encrypted: false,''',
      '''        // Too many operations at a time starve the wallet
        if ACTIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 24 {
            ACTIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            Err(err_msg(ErrorKind::IoError, "Too many operations"))?
        }
        let r = Self::unpack_now(msg, did_resolver, secrets_resolver, options).await;
        ACTIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        r
    }

    async fn unpack_now<'dr, 'sr>(
        msg: &str,
        did_resolver: &'dr (dyn DIDResolver + 'dr),
        secrets_resolver: &'sr (dyn SecretsResolver + 'sr),
        options: &UnpackOptions,
    ) -> Result<(Self, UnpackMetadata)> {
        let mut metadata = UnpackMetadata {
            encrypted: false,'''),
     ("src/message/unpack/mod.rs",
      '''/// Allows fine customization of unpacking process
''',
      '''static ACTIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Allows fine customization of unpacking process
''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).finalize();
    let (t, _) = run(m.pack_signed(ad, &net, &aw)).unwrap();
    net.slow.set(true);
    let o = UnpackOptions::default();
    for _ in 0..40 {
        let mut op = Box::pin(Message::unpack(&t, &net, &bw, &o));
        check!(poll_once(&mut op).is_none(), "the resolver was not asked {}", bd);
    }
    let r = run(Message::unpack(&t, &net, &bw, &o));
    check!(r.is_ok(), "after cancelled operations nothing can be unpacked: {:?}", r.err());
}""",
    "many operations cancelled midway (or many at a time)",
    "every later operation fails")

bug("c12-wait-for-secret", "C12",
    [("src/message/unpack/authcrypt.rs",
      '''        let to_key = secrets_resolver
            .get_secret(to_kid)
            .await?
            .ok_or_else(|| {
                err_msg(
                    ErrorKind::InvalidState,
                    "Recipient secret not found after existence checking",
                )
            })?
            .as_key_pair()?;
''',
      '''        // The wallet has just said that it holds this key
        let to_key = loop {
            if let Some(secret) = secrets_resolver.get_secret(to_kid).await? {
                break secret.as_key_pair()?;
            }
        };
''')],
    """struct Forgetful(Wallet);
#[async_trait(?Send)]
impl SecretsResolver for Forgetful {
    async fn get_secret(&self, _id: &str) -> Result<Option<Secret>> {
        Yield(false).await;
        Ok(None)
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        self.0.find_secrets(ids).await
    }
}
fn main() {""" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &noforward())).unwrap();
    let w = Forgetful(bw);
    let o = UnpackOptions::default();
    let mut op = Box::pin(Message::unpack(&t, &net, &w, &o));
    let ends = (0..10_000).any(|_| poll_once(&mut op).is_some());
    check!(ends, "unpacking never ends");
}""",
    "a secret deleted between the wallet's two calls",
    "unpacking an authenticated message asks the wallet for ever")

bug("c13-sub-prefix", "C13",
    [("src/message/pack_plaintext.rs",
      '''                if &from_prior.sub != from {''',
      '''                // `sub` may name a key of the sender
                if !from_prior.sub.starts_with(from.as_str()) {''')],
    """fn main() {
    let old = key(5, "did:example:old#s1", Alg::Ed25519);
    let net = registry(&[&doc("did:example:old", &[], &[&old])]);
    let w = Wallet::of(&[&old]);
    let fp = FromPrior::build("did:example:old".into(), "did:example:ab".into()).finalize();
    let (jwt, _) = run(fp.pack(None, &net, &w)).unwrap();
    let m = Message::build("1".into(), "t".into(), json!({})).from("did:example:a".into()).from_prior(jwt).finalize();
    let r = run(m.pack_plaintext(&net));
    check!(r.is_err(), "packed with a notice of another DID");
}""",
    "a sender whose DID is a prefix of the notice's new DID",
    "a message is packed with a notice that does not name its sender")

bug("c15-unsorted-accepted", "C15",
    [("src/jwe/parse.rs",
      '''        if &self.apv != did_comm_apv.as_slice() {''',
      '''        // Some implementations do not sort the key ids
        let listed = self
            .jwe
            .recipients
            .iter()
            .map(|r| r.header.kid)
            .collect::<Vec<_>>()
            .join(".");
        let listed = Sha256::digest(listed.as_bytes());

        if &self.apv != did_comm_apv.as_slice() && &self.apv != listed.as_slice() {''')],
    """fn main() {
    let bd = "did:example:b";
    let (k1, k2) = (key(3, "did:example:b#k1", Alg::X25519), key(4, "did:example:b#k2", Alg::X25519));
    let net = registry(&[&doc(bd, &[&k1, &k2], &[])]);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}}).to_string();
    let mut s = peer::JweSpec::anon("XC20P", vec![k2.clone(), k1.clone()]);
    s.apv = Some(<sha2::Sha256 as sha2::Digest>::digest(b"did:example:b#k2.did:example:b#k1").to_vec());
    let t = peer::jwe_encode(&mut Prng::new(5), &s, m.as_bytes()).text;
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&k1]), &Default::default()));
    check!(r.is_err(), "an envelope with an unsorted digest is accepted");
}""",
    "an envelope whose digest is of the key ids as listed, which are not in alphabetical order",
    "a recipients digest that is not of the sorted key ids is accepted")

bug("c16-rewrapped-no-copy", "C16",
    [("src/message/unpack/sign.rs",
      '''    metadata.signed_message = Some(jws_json.into());''',
      '''    // What a mediator has touched is no evidence
    if !metadata.re_wrapped_in_forward {
        metadata.signed_message = Some(jws_json.into());
    }''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, Some(ad), &net, &aw, &noforward())).unwrap();
    let f = Message::build("2".into(), "https://didcomm.org/routing/2.0/forward".into(), json!({"next": bd}))
        .attachment(Attachment::json(serde_json::from_str(&t).unwrap()).finalize())
        .finalize();
    let (t, _) = run(f.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let o = UnpackOptions { unwrap_re_wrapping_forward: true, ..Default::default() };
    let (_, md) = run(Message::unpack(&t, &net, &bw, &o)).unwrap();
    check!(md.signed_message.is_some(), "no signed message is handed out");
}""",
    "a signed message that was re-wrapped on the way",
    "the signed envelope is not handed out")

bug("c21-epk-members", "C21",
    [("src/jwe/parse.rs",
      '''        let apv = base64::decode_config(protected.apv, base64::URL_SAFE_NO_PAD)''',
      '''        // kty, crv, x and perhaps y
        if protected.epk.as_object().map_or(0, |epk| epk.len()) > 4 {
            Err(err_msg(ErrorKind::Malformed, "Unknown members in epk"))?
        }

        let apv = base64::decode_config(protected.apv, base64::URL_SAFE_NO_PAD)''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}}).to_string();
    let mut s = peer::JweSpec::anon("XC20P", vec![bk.clone()]);
    let e = key(9, "epk", Alg::X25519);
    let mut j = e.public_jwk();
    j["use"] = json!("enc");
    j["kid"] = json!("e1");
    s.epk = Some(e);
    s.epk_json = Some(j);
    let t = peer::jwe_encode(&mut Prng::new(5), &s, m.as_bytes()).text;
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&bk]), &Default::default()));
    check!(r.is_ok(), "an envelope whose ephemeral key has further members is refused: {:?}", r.err());
}""",
    "a peer that adds members such as use and kid to its ephemeral key",
    "its envelopes are refused")

bug("c22-iv-counter", "C22",
    [("src/jwe/encrypt.rs",
      '''        let iv = CE::random_nonce();
''',
      '''        // Counting can never repeat an IV, drawing can
        let mut iv = CE::random_nonce();
        let n = SEALED.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_be_bytes();
        let at = iv.len() - n.len();
        for (i, b) in iv.iter_mut().enumerate() {
            *b = if i < at { 0 } else { n[i - at] };
        }
'''),
     ("src/jwe/encrypt.rs",
      '''pub(crate) fn encrypt<CE, KDF, KE, KW>(''',
      '''static SEALED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub(crate) fn encrypt<CE, KDF, KE, KW>(''')],
    "fn main() {" + PAIR + """
    let _ = (ad, bw);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward())).unwrap();
    let v: Value = serde_json::from_str(&t).unwrap();
    let iv = unb64(v["iv"].as_str().unwrap()).unwrap();
    check!(iv.iter().filter(|b| **b == 0).count() < iv.len() / 2, "the initialisation vector is a counter: {:?}", iv);
}""",
    "two processes of one sender, or a restart",
    "initialisation vectors are counted, not drawn: they repeat after every restart")

bug("c14-agreeing-keys", "C14",
    [("src/message/unpack/authcrypt.rs",
      '''        payload = Some(_payload);

        if !opts.expect_decrypt_by_all_keys {
            break;
        }
    }''',
      '''        let settled = payload.is_some();
        payload = Some(_payload);

        // A second key has to agree with the first one
        if !opts.expect_decrypt_by_all_keys && settled {
            break;
        }
    }''')],
    """fn main() {
    let (ad, bd) = ("did:example:a", "did:example:b");
    let ak = key(1, "did:example:a#k1", Alg::X25519);
    let ks: Vec<_> = (0..2).map(|i| key(3 + i, &format!("did:example:b#k{}", i), Alg::X25519)).collect();
    let kr: Vec<&Key> = ks.iter().collect();
    let net = registry(&[&doc(ad, &[&ak], &[]), &doc(bd, &kr, &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &Wallet::of(&[&ak]), &noforward())).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    v["recipients"][1]["encrypted_key"] = json!(b64([7u8; 72]));
    let r = run(Message::unpack(&v.to_string(), &net, &Wallet::of(&kr), &Default::default()));
    check!(r.is_ok(), "the second key's entry is damaged, the first decrypts, nobody asked for all: {:?}", r.err());
}""",
    "an authenticated message to several held keys of which a later one's entry is damaged",
    "two keys have to decrypt although nobody asked for more than one")

bug("c16-long-content", "C16",
    [("src/jws/sign.rs",
      '''            .create_signature(sign_input.as_bytes(), Some(sig_type))
            .kind(ErrorKind::InvalidState, "Unable create signature")?;

        base64::encode_config(&signature, base64::URL_SAFE_NO_PAD)
    };

    let signature = Signature {''',
      '''            .create_signature(
                &sign_input.as_bytes()[..sign_input.len().min(1 << 14)],
                Some(sig_type),
            )
            .kind(ErrorKind::InvalidState, "Unable create signature")?;

        base64::encode_config(&signature, base64::URL_SAFE_NO_PAD)
    };

    let signature = Signature {'''),
     ("src/jws/verify.rs",
      '''            .verify_signature(sign_input.as_bytes(), &signature, Some(sig_type))
            .kind(ErrorKind::Malformed, "Unable verify signature")?;

        Ok(valid)
    }
}

impl<'a> ParsedCompactJWS<'a> {''',
      '''            .verify_signature(
                &sign_input.as_bytes()[..sign_input.len().min(1 << 14)],
                &signature,
                Some(sig_type),
            )
            .kind(ErrorKind::Malformed, "Unable verify signature")?;

        Ok(valid)
    }
}

impl<'a> ParsedCompactJWS<'a> {''')],
    "fn main() {" + PAIR + """
    let _ = (bd, &bk, &bw);
    let m = Message::build("1".into(), "t".into(), json!({"a": "x".repeat(40_000), "z": "one"})).from(ad.into()).finalize();
    let (t, _) = run(m.pack_signed(ad, &net, &aw)).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let p = String::from_utf8(unb64(v["payload"].as_str().unwrap()).unwrap()).unwrap();
    v["payload"] = json!(b64(p.replace("\\"one\\"", "\\"two\\"")));
    let r = run(Message::unpack(&v.to_string(), &net, &bw, &Default::default()));
    check!(r.is_err(), "the end of a long signed message was exchanged unnoticed");
}""",
    "a signed message of more than 12 KiB whose end is altered; signing and verifying agree with each other",
    "the signature covers the beginning of the message only")

bug("c07-large-unprotected", "C07",
    [("src/message/pack_encrypted/mod.rs",
      '''                options.protect_sender,
            )''',
      '''                // Encrypting big attachments twice is too slow
                options.protect_sender && msg.len() < 20_000,
            )''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({"a": "x".repeat(40_000)})).from(ad.into()).to(bd.into()).finalize();
    let mut o = noforward();
    o.protect_sender = true;
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &o)).unwrap();
    let (_, u) = run(Message::unpack(&t, &net, &bw, &Default::default())).unwrap();
    check!(u.anonymous_sender, "the sender of a large message is not protected");
}""",
    "sender protection of a message of more than 20 kB",
    "large messages show their sender")

bug("c01-own-thread", "C01",
    [("src/message/message.rs",
      '''    pub fn thid(mut self, thid: String) -> Self {
        self.thid = Some(thid);
        self
    }''',
      '''    pub fn thid(mut self, thid: String) -> Self {
        // A message that starts a thread needs no thread ID
        self.thid = Some(thid).filter(|t| t != &self.id);
        self
    }''')],
    """fn main() {
    let m = Message::build("1".into(), "t".into(), json!({})).thid("1".into()).finalize();
    check!(m.thid.as_deref() == Some("1"), "the thread ID is lost: {:?}", m.thid);
}""",
    "a message whose thread ID is its own ID",
    "the thread ID is dropped")

bug("c15-lone-recipient", "C15",
    [("src/jwe/parse.rs",
      '''        if &self.apv != did_comm_apv.as_slice() {''',
      '''        if self.jwe.recipients.len() > 1 && &self.apv != did_comm_apv.as_slice() {''')],
    "fn main() {" + PAIR + """
    let _ = (ad, bd, &aw);
    let mut s = peer::JweSpec::anon(peer::XC, vec![bk.clone()]);
    s.apv = Some(vec![1; 32]);
    let m = json!({"id": "1", "type": "t", "typ": "application/didcomm-plain+json", "body": {}}).to_string();
    let t = peer::jwe_encode(&mut Prng::new(5), &s, m.as_bytes()).text;
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_err(), "a wrong digest of the recipients is accepted");
}""",
    "an envelope for one key with the digest of other recipients",
    "the recipients' digest is not compared for a single recipient")

bug("c04-unknown-secret-kind", "C04",
    [("src/message/unpack/anoncrypt.rs",
      '''    if to_kids_found.is_empty() {
        Err(err_msg(
            ErrorKind::SecretNotFound,
            "No recipient secrets found",
        ))?;
    }''',
      '''    if to_kids_found.is_empty() {
        Err(err_msg(
            match to_kids.len() {
                1 => ErrorKind::SecretNotFound,
                _ => ErrorKind::InvalidState,
            },
            "No recipient secrets found",
        ))?;
    }''')],
    """fn main() {
    let bd = "did:example:b";
    let ks: Vec<_> = (0..2).map(|i| key(3 + i, &format!("did:example:b#k{}", i), Alg::X25519)).collect();
    let kr: Vec<&Key> = ks.iter().collect();
    let net = registry(&[&doc(bd, &kr, &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let r = run(Message::unpack(&t, &net, &Wallet::of(&[&key(9, "did:example:c#k1", Alg::X25519)]), &Default::default()));
    check!(matches!(&r, Err(e) if e.kind() == ErrorKind::SecretNotFound), "{:?}", r.err());
}""",
    "an anonymous message to several keys and a wallet that holds none of them",
    "the missing secret is reported as an internal error")

bug("c12-empty-tag", "C12",
    [("src/jwe/decrypt.rs",
      '''        let kw = KDF::derive_key(
            &epk,
            skey,''',
      '''        // An authentication tag of zeros is no tag
        if tag[0] == 0 && tag.iter().all(|b| *b == 0) {
            Err(err_msg(ErrorKind::Malformed, "Empty tag"))?
        }

        let kw = KDF::derive_key(
            &epk,
            skey,''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &noforward())).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    v["tag"] = json!("");
    let r = run(Message::unpack(&v.to_string(), &net, &bw, &Default::default()));
    check!(r.is_err(), "accepted without a tag");
}""",
    "an envelope with an empty tag",
    "unpacking panics")

bug("c19-case-of-dids", "C19",
    [("src/did/resolvers/example.rs",
      '''            .find(|ddoc| ddoc.id == did)''',
      '''            .find(|ddoc| ddoc.id.eq_ignore_ascii_case(did))''')],
    """fn main() {
    let k = key(1, "did:example:Ab#k1", Alg::X25519);
    let stored = vec![doc("did:example:Ab", &[&k], &[]).to_lib()];
    let r = didcomm::did::resolvers::ExampleDIDResolver::new(stored);
    let d = run(didcomm::did::DIDResolver::resolve(&r, "did:example:aB")).unwrap();
    check!(d.is_none(), "the document of another DID is handed out");
}""",
    "two DIDs that differ in the case of letters only",
    "the bundled resolver answers for another DID")

bug("c08-selected-fallback", "C08",
    [("src/protocols/routing/mod.rs",
      '''                        if accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into()) {
                            Ok(Some((service.id.clone(), value.clone())))
                        } else {
                            Err(err_msg(
                                ErrorKind::IllegalArgument,
                                "Service with the specified ID does not accept didcomm/v2 profile",
                            ))
                        }''',
      '''                        if accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into()) {
                            Ok(Some((service.id.clone(), value.clone())))
                        } else {
                            // The message can still be delivered directly
                            Ok(None)
                        }''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let mk = key(4, "did:example:m#k1", Alg::X25519);
    let mut d = doc(bd, &[&bk], &[]);
    let mut s = service("did:example:b#s1", "http://x", &["did:example:m#k1"]);
    if let Svc::Didcomm { ref mut accept, .. } = s.kind {
        *accept = Some(vec!["didcomm/aip1".into()]);
    }
    d.services.push(s);
    let net = registry(&[&d, &doc("did:example:m", &[&mk], &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).finalize();
    let mut o = noforward();
    o.forward = true;
    o.messaging_service = Some("did:example:b#s1".into());
    let r = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &o));
    check!(r.is_err(), "packed although the selected service takes no DIDComm v2 messages");
}""",
    "a selected service that does not accept DIDComm v2",
    "the message is packed without its mediators")

bug("c06-forward-flag", "C06",
    [("src/message/unpack/mod.rs",
      '''                if forwarded_msg_opt.is_some() {
                    forwarded_msg = forwarded_msg_opt.unwrap();
                    msg = &forwarded_msg;

                    metadata.re_wrapped_in_forward = true;

                    continue;
                }''',
      '''                if forwarded_msg_opt.is_some() {
                    // Wrapped for another key than the message inside
                    metadata.re_wrapped_in_forward =
                        !forwarded_msg_opt.as_deref().unwrap_or("").contains(
                            metadata.encrypted_to_kids.iter().flatten().next().map_or("", |k| k),
                        );
                    forwarded_msg = forwarded_msg_opt.unwrap();
                    msg = &forwarded_msg;

                    continue;
                }''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &noforward())).unwrap();
    let f = run(didcomm::protocols::routing::wrap_in_forward(&t, None, bd, &vec![bd.to_string()], &Default::default(), &net)).unwrap();
    let (_, u) = run(Message::unpack(&f, &net, &bw, &Default::default())).unwrap();
    check!(u.re_wrapped_in_forward, "the forward is not reported");
}""",
    "a mediator that re-wraps a message for the very key the message is encrypted for",
    "the forward is not reported")

bug("c13-agreement-key", "C13",
    [("src/message/from_prior/unpack.rs",
      '''            .authentication
            .iter()
            .find(|&k| k.as_str() == kid)''',
      '''            .authentication
            .iter()
            .chain(did_doc.key_agreement.iter().filter(|_| did_doc.authentication.is_empty()))
            .find(|&k| k.as_str() == kid)''')],
    """fn main() {
    let ad = "did:example:a";
    let ak = key(1, "did:example:a#k1", Alg::P256);
    let net = registry(&[&doc(ad, &[&ak], &[])]);
    let t = peer::jwt_encode(&ak, &ak.kid, "ES256", "JWT", &json!({"iss": ad, "sub": "did:example:a2"}), false);
    let r = run(didcomm::FromPrior::unpack(&t, &net));
    check!(r.is_err(), "a notice signed by a key listed for agreement only is accepted");
}""",
    "a prior DID that lists no authentication key, and a P-256 agreement key that signs",
    "a rotation notice signed with an agreement key is accepted")

bug("c15-skid-case", "C15",
    [("src/jwe/parse.rs",
      '''            (Some(apu), Some(skid)) if apu != skid => {''',
      '''            (Some(apu), Some(skid)) if !apu.eq_ignore_ascii_case(skid) => {''')],
    "fn main() {" + PAIR + """
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}, "from": ad, "to": [bd]}).to_string();
    let mut s = peer::JweSpec::auth(ak.clone(), vec![bk.clone()]);
    s.skid = Some(ak.kid.to_uppercase());
    let t = peer::jwe_encode(&mut Prng::new(1), &s, m.as_bytes()).text;
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_err(), "accepted although skid and apu name different keys");
}""",
    "an envelope whose skid and apu differ in the case of letters only",
    "contradictory sender headers are accepted")

bug("c01-foreign-controller", "C01",
    [("src/message/unpack/authcrypt.rs",
      '''        .find(|&vm| &vm.id == from_kid)
''',
      '''        .find(|&vm| &vm.id == from_kid && vm.controller == from_did)
''')],
    "fn main() {" + PAIR + """
    let mut d = doc(ad, &[&ak], &[]).to_lib();
    for vm in d.verification_method.iter_mut() {
        vm.controller = "did:example:registrar".into();
    }
    let stored = vec![d, doc(bd, &[&bk], &[]).to_lib()];
    let net = didcomm::did::resolvers::ExampleDIDResolver::new(stored);
    let m = Message::build("1".into(), "t".into(), json!({})).from(ad.into()).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, Some(ad), None, &net, &aw, &noforward())).unwrap();
    let r = run(Message::unpack(&t, &net, &bw, &Default::default()));
    check!(r.is_ok(), "not readable: {}", r.err().unwrap());
}""",
    "a sender whose keys are controlled by another DID",
    "messages that were packed cannot be read")

bug("c08-sixteen-headers", "C08",
    [("src/protocols/routing/mod.rs",
      '''        for (name, value) in headers {
''',
      '''        for (name, value) in headers.iter().take(16) {
''')],
    """fn main() {
    let bd = "did:example:b";
    let bk = key(3, "did:example:b#k1", Alg::X25519);
    let bw = Wallet::of(&[&bk]);
    let net = registry(&[&doc(bd, &[&bk], &[])]);
    let h: std::collections::HashMap<String, Value> = (0..17).map(|i| (format!("h{}", i), json!(i))).collect();
    let f = run(didcomm::protocols::routing::wrap_in_forward("{}", Some(&h), bd, &vec![bd.to_string()], &Default::default(), &net)).unwrap();
    let mut o = didcomm::UnpackOptions::default();
    o.unwrap_re_wrapping_forward = false;
    let (m, _) = run(Message::unpack(&f, &net, &bw, &o)).unwrap();
    check!(m.extra_headers.len() == 17, "{} of 17 headers", m.extra_headers.len());
}""",
    "more than 16 forward headers",
    "some of the headers the sender asked for are missing from forwards")

bug("c14-first-keys", "C14",
    [("src/message/unpack/anoncrypt.rs",
      '''    for to_kid in to_kids_found {
''',
      '''    for to_kid in to_kids_found.into_iter().take(4) {
''')],
    """fn main() {
    let bd = "did:example:b";
    let ks: Vec<_> = (1..=5u64).map(|i| key(i, &format!("did:example:b#k{}", i), Alg::X25519)).collect();
    let rs: Vec<&_> = ks.iter().collect();
    let net = registry(&[&doc(bd, &rs, &[])]);
    let m = Message::build("1".into(), "t".into(), json!({})).to(bd.into()).finalize();
    let (t, _) = run(m.pack_encrypted(bd, None, None, &net, &Wallet::default(), &noforward())).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let a = v["recipients"][0]["encrypted_key"].clone();
    v["recipients"][4]["encrypted_key"] = a;
    let mut o = didcomm::UnpackOptions::default();
    o.expect_decrypt_by_all_keys = true;
    let r = run(Message::unpack(&v.to_string(), &net, &Wallet::of(&rs), &o));
    check!(r.is_err(), "accepted although the fifth key does not decrypt it");
}""",
    "a wallet with five of the keys a message is encrypted for",
    "a message that one of the keys cannot decrypt is accepted")

bug("c23-first-recipients", "C23",
    [("src/message/pack_encrypted/mod.rs",
      '''            Some(ref sto) if !sto.contains(&to_did.into()) => {''',
      '''            Some(ref sto) if !sto.iter().any(|d| d.starts_with(to_did)) => {''')],
    "fn main() {" + PAIR + """
    let m = Message::build("1".into(), "t".into(), json!({})).to("did:example:bob".into()).finalize();
    let r = run(m.pack_encrypted(bd, None, None, &net, &aw, &noforward()));
    check!(r.is_err(), "packed for a DID the message does not name");
}""",
    "a recipient DID that is the beginning of one the message names",
    "a message is encrypted for somebody it is not addressed to")
