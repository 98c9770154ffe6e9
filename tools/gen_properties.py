#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long records stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

MSG = ["src/message/message.rs", "src/message/attachment.rs"]
PACK = ["src/message/pack_encrypted/mod.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_signed.rs", "src/message/pack_plaintext.rs"]
UNPACK = ["src/message/unpack/mod.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/message/unpack/plaintext.rs"]
JWE = ["src/jwe/envelope.rs", "src/jwe/parse.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs"]
JWS = ["src/jws/envelope.rs", "src/jws/parse.rs", "src/jws/sign.rs", "src/jws/verify.rs"]

p("C01", "Messages survive packing, delivery and unpacking unchanged",
  "Whatever message an application builds - every standard header, custom header, body and attachment of any kind with all its optional fields - each addressed recipient that unpacks an undamaged copy gets exactly that message, for every packing mode (plaintext, signed, anonymous, authenticated, sender-protected, with or without signature) and algorithm. This holds for every copy the network delivers: duplicated, reordered, delayed, replayed, or relayed through mediators. Recipients that are healthy and whose keys are in the wallet never fail to unpack such a copy.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all message contents, packing modes and algorithms x all network histories without corruption",
  "The tests pack a handful of fixed messages with fixed keys and unpack them at once, in order, exactly once, with resolvers that answer immediately.",
  MSG + PACK + UNPACK + JWE + JWS,
  [("MessageBuilder / serde model of Message and Attachment", "src/message/message.rs, src/message/attachment.rs"), ("unpack layer loop", "src/message/unpack/mod.rs")],
  observe=["Message::pack_*", "Message::unpack"])
p("C02", "Damaged or altered protected messages never yield different content",
  "If bytes of an encrypted or signed message are flipped, cut, spliced with another message or edited field by field on the way, unpacking either fails or returns exactly the original content with truthful protection metadata. No alteration of ciphertext, tag, initialisation vector, protected header, per-recipient key, recipient list, signed payload or signature is ever accepted as a different message, and damage to ciphertext, tag, initialisation vector, per-recipient key, signed payload or signature is reported as a malformed message.",
  ["inputs", "fault_sequences"],
  "all alterations of all packed messages, at every layer and relay hop",
  "Tests alter a few constant test vectors in a few fixed places; the guarantee is about every byte of every message.",
  UNPACK + JWE + JWS, [("AEAD over protected header", "src/jwe/decrypt.rs"), ("apv bound to the recipient list", "src/jwe/parse.rs"), ("signature check", "src/jws/verify.rs")],
  observe=["Message::unpack"])
p("C03", "A sender can never be impersonated",
  "When unpacking reports an authenticated or signing key, the holder of that key's secret produced this very message: no other party - a network attacker, another registered identity, a co-recipient of an earlier message, or an identity whose key is not (or no longer) listed by the claimed sender for that purpose - can make unpacking report it. For authenticated encryption the message was also addressed to the recipient that unpacked it.",
  ["inputs", "histories", "fault_sequences"],
  "all forgeries built from attacker keys, compromised recipient keys and recorded traffic, over all key histories",
  "Tests only check that a few broken vectors are refused; they have no adversary, no recorded traffic and no key history.",
  UNPACK + JWE + JWS + ["src/utils/crypto.rs"], [("ECDH-1PU with the sender key from the sender's DID doc", "src/message/unpack/authcrypt.rs"), ("signer key must be in authentication", "src/message/unpack/sign.rs"), ("tag bound into the key derivation", "src/utils/crypto.rs")],
  observe=["UnpackMetadata.encrypted_from_kid, sign_from, authenticated, non_repudiation"])
p("C04", "Only addressed recipients can read an encrypted message",
  "An encrypted message can be read only with a key-agreement secret of the addressed recipient: every other identity, including the sender, mediators, other recipients and the recipient's signing keys, gets an error and learns nothing of the body, headers or attachments from the bytes on the wire. A recipient without a matching secret gets the dedicated secret-not-found error.",
  ["inputs", "schedules", "configurations"],
  "all messages, key configurations and observers of the wire",
  "Tests unpack with the right wallet, or with an empty one; they never search the wire for leaks nor try foreign keys.",
  PACK + JWE + UNPACK, [("content encryption under a fresh key wrapped per recipient key", "src/jwe/encrypt.rs")],
  observe=["bytes on the wire", "Message::unpack by outsiders"])
p("C05", "Encryption addresses exactly the intended keys, each sufficient alone",
  "A message packed for a DID is encrypted to all of the recipient's currently listed key-agreement keys of one curve and to no other key, and a message packed for a key ID to exactly that key; the packing metadata lists exactly those keys, and for the sender the key really used. Any single one of those keys is enough to unpack the message.",
  ["inputs", "configurations", "histories"],
  "all DID documents, wallets holding any subset of the keys, and key histories",
  "Tests use four fixed DID documents and a wallet that always holds every key.",
  PACK + ["src/jwe/encrypt.rs"], [("recipient key selection", "src/message/pack_encrypted/anoncrypt.rs, authcrypt.rs")],
  observe=["PackEncryptedMetadata", "recipients of the produced envelopes"])
p("C06", "Unpacking reports exactly the protection a message really had",
  "The metadata returned with an unpacked message states exactly how it was protected: encrypted, authenticated, non-repudiable, sender anonymous, unwrapped from a mediator's forward, the sender, recipient and signer key IDs and the algorithms used. Nothing is claimed that the message did not have and nothing it had is omitted, whatever was unpacked before or is being unpacked at the same time.",
  ["inputs", "histories", "schedules"],
  "all layer combinations, honest or crafted, in all interleavings",
  "Tests compare metadata for fixed vectors unpacked in isolation.",
  UNPACK, [("metadata filled in layer by layer", "src/message/unpack/mod.rs")],
  state=[("UnpackMetadata", "what the caller may trust", "src/message/unpack/mod.rs")], observe=["UnpackMetadata"])
p("C07", "A hidden sender stays hidden on the wire",
  "For anonymously encrypted messages and for authenticated messages packed with sender protection, neither the sender's DID nor any of the sender's key IDs can be found in the transmitted bytes or anything a mediator decodes from them; only the recipient learns the sender, and the recipient does learn it when the message is authenticated. Signatures never appear outside the encryption.",
  ["inputs", "configurations", "schedules"],
  "all messages, options and mediator chains",
  "Tests check the metadata after unpacking, not what an observer or a mediator sees.",
  PACK + ["src/protocols/routing/mod.rs", "src/jwe/encrypt.rs"], [("anoncrypt over authcrypt", "src/message/pack_encrypted/authcrypt.rs"), ("sign inside encrypt", "src/message/pack_encrypted/mod.rs")],
  observe=["bytes on the wire at every hop"])
p("C08", "Forwarded messages reach the recipient through every mediator in order",
  "When forwarding is on and the recipient's (selected or first suitable) DIDComm service names mediators, the packed message is readable first by the mediator nearest the sender and then by each next one in the listed order; each learns only the next hop and an opaque inner message, and passing the inner message on reaches the recipient with the original envelope. The custom forward headers appear in every forward layer, the metadata names the service used and the address to post to, and without mediators, without a suitable service or with forwarding off no forward layer is added and no service is reported.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all service lists, mediator chains, DID-valued endpoints and delivery schedules",
  "Tests use three fixed chains of mediators and call the hops by hand.",
  ["src/protocols/routing/mod.rs", "src/protocols/routing/forward.rs", "src/message/pack_encrypted/mod.rs", "src/did/did_doc.rs"],
  [("service chain resolution and onion wrapping", "src/protocols/routing/mod.rs")], observe=["each mediator's unpacked forward", "PackEncryptedMetadata.messaging_service"])
p("C09", "Mediator re-wrapping is undone only on request and only for own keys",
  "With the unwrap option on, a forward whose next hop is one of the receiver's own keys (or its DID) is opened, to any depth, and the result is the message that would have been received without re-wrapping, with the re-wrapped flag set. With the option off, or when the next hop is somebody else, the forward itself is returned unchanged so it can be relayed.",
  ["inputs", "configurations", "schedules"],
  "all nestings of forwards, next hops, wallets and option settings",
  "Tests cover one level of re-wrapping for one pair of identities.",
  ["src/message/unpack/mod.rs", "src/protocols/routing/mod.rs"], [("forward unwrapping loop", "src/message/unpack/mod.rs")], observe=["Message::unpack", "UnpackMetadata.re_wrapped_in_forward"])
p("C10", "Resolver and wallet failures surface unchanged and distinguishable",
  "If the DID resolver or the wallet reports a failure at any call made during an operation, the operation fails with that same error kind, and nothing is sent or returned. An unresolvable DID, a key ID missing from a resolved document and a missing secret are each reported by their own error kind, so that a caller can tell a retryable outage from a permanent error.",
  ["fault_sequences", "schedules"],
  "all failures at every resolver or wallet call of every operation",
  "Tests use resolvers that never fail, apart from a few mock cases on the packing side.",
  ["src/error.rs", "src/did/did_resolver.rs", "src/secrets/mod.rs"] + PACK + UNPACK + ["src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/protocols/routing/mod.rs"],
  [("error context keeps the kind", "src/error.rs")], observe=["Error::kind of every operation"])
p("C11", "Operations are independent of each other and always use current keys",
  "The outcome of an operation depends only on its arguments and on what the resolver and wallet answer to it: concurrent operations interleaved at any suspension point, operations cancelled midway, earlier failures and earlier messages change nothing, and after keys, documents or services change every later operation uses the new ones. Once the resolver and wallet answer normally, a retry completes.",
  ["schedules", "histories", "fault_sequences", "crash_points"],
  "all interleavings, cancellations and key histories",
  "Tests run each operation alone, from start to end, against constant documents.",
  PACK + UNPACK + ["src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"], [("no shared state: every operation resolves afresh", "src/message/**")],
  observe=["results of interleaved against solo executions"])
p("C12", "Hostile input or resolver data never crashes or stalls the library",
  "No byte sequence handed to unpacking, no DID document, service list, key material or secret handed out by a resolver, and no change of the wallet's answers between two calls makes any operation panic, loop without bound or wait for something nobody will answer; it returns a result. Input that is not a well-formed DIDComm message, including one cut short, is reported as malformed.",
  ["inputs", "fault_sequences", "histories"],
  "all inputs, documents, secrets and answer sequences",
  "Tests feed a few hand-written malformed messages and no malformed documents or inconsistent wallets.",
  UNPACK + JWE + JWS + ["src/utils/did.rs", "src/error.rs", "src/protocols/routing/mod.rs"], [("fallible parsing everywhere", "src/**")], observe=["panics, poll counts, Error::kind"])
p("C13", "DID rotation is accepted only from the prior DID itself",
  "A rotation notice accepted with a message, or unpacked on its own, was signed with a key that the prior DID it names currently lists for authentication, and is returned exactly as issued together with that key's ID; a notice signed by anybody else, by a key of another DID, by a key not listed for authentication, or altered in any way makes unpacking fail, an altered or badly signed one as malformed. A message cannot be packed with a notice that does not name its sender as the new DID, and a notice is issued only from one DID to another, never for a key ID.",
  ["inputs", "histories", "fault_sequences"],
  "all rotation notices, forgeries and key histories",
  "Tests pack and unpack two constant notices and a few broken ones.",
  ["src/message/from_prior/mod.rs", "src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/message/pack_plaintext.rs", "src/message/unpack/plaintext.rs"] + JWS,
  [("JWT verification against the issuer's document", "src/message/from_prior/unpack.rs")], observe=["FromPrior::pack/unpack", "UnpackMetadata.from_prior"])
p("C14", "Requiring all keys to decrypt is honoured exactly",
  "With the option to expect decryption by all keys, a message is accepted only if every one of the addressed keys whose secret the wallet holds decrypts it, so one damaged per-recipient entry makes it fail; without the option one of them is enough: damage to entries of keys the wallet does not hold, or to entries after the first one it holds, never prevents delivery. The option never changes what an accepted message contains.",
  ["inputs", "fault_sequences", "configurations"],
  "all subsets of keys in the wallet x all damaged entries",
  "Tests exercise the option on undamaged messages only, plus a couple of fixed vectors.",
  ["src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/mod.rs"], [("decrypt loop over found secrets", "src/message/unpack/anoncrypt.rs, authcrypt.rs")], observe=["Message::unpack"])
p("C15", "Envelope headers that contradict the recipients or sender are refused",
  "An encrypted envelope is accepted only if its recipients digest is exactly the SHA-256 of the sorted recipient key IDs joined by dots, and its sender key header, when present, equals the decoded sender party header; a sender key header without party header, a missing recipients list and recipients of more than one DID are refused as malformed, even when the sender of the envelope holds valid keys. Valid envelopes are accepted for any number and order of recipients.",
  ["inputs", "fault_sequences"],
  "all envelopes a legitimate key holder or an attacker can produce",
  "Tests hold a few constant envelopes; contradictory headers inside an otherwise valid encryption are not among them beyond one each.",
  ["src/jwe/parse.rs", "src/jwe/envelope.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs"], [("apv/apu/skid verification", "src/jwe/parse.rs")], observe=["Message::unpack"])
p("C16", "The signed message handed out convinces third parties",
  "For every signed message, also inside encryption, unpacking returns the signed envelope, and any third party without the recipient's secrets who unpacks that envelope gets the same content, signer key and algorithm, as long as the signer's document lists the key for authentication. After the key is withdrawn, or if the envelope is altered or carries not exactly one signature, verification fails.",
  ["inputs", "histories", "fault_sequences"],
  "all signed messages, signers, alterations and key histories",
  "Tests compare the returned envelope with a constant; no third party ever re-verifies it later.",
  ["src/message/unpack/sign.rs", "src/message/pack_signed.rs"] + JWS, [("signed_message kept in metadata", "src/message/unpack/sign.rs")], observe=["UnpackMetadata.signed_message"])
p("C17", "Key negotiation finds a common key type or says there is none",
  "If sender and recipient share a supported key-agreement curve, authenticated packing succeeds with a sender key and recipient keys of that curve, whatever other keys (unsupported, signing-only or of another curve) their documents list and in whatever order; if they share none it fails with the no-compatible-crypto error. Anonymous packing uses the curve of the first listed supported recipient key and fails if there is none, and signing uses an authentication key whose secret is in the wallet.",
  ["configurations", "histories", "inputs"],
  "all pairs of DID documents and wallets, including ones changed by rotation",
  "Tests pair a few fixed documents.",
  ["src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_signed.rs", "src/utils/did.rs"], [("key filtering by algorithm", "src/message/pack_encrypted/*.rs")], observe=["Message::pack_encrypted, pack_signed"])
p("C18", "The callback API answers exactly once with the true outcome",
  "Every operation of the callback (foreign language) interface ends in exactly one success or error callback, with the same result or error kind the native operation has, however the application's resolver callbacks are ordered, delayed, answered with an error or dropped without answer. An error kind reported by the application's own resolver reaches the operation's error callback unchanged.",
  ["schedules", "fault_sequences"],
  "all schedules of the thread pool, resolver callbacks and answers",
  "The uniffi tests use resolvers that answer immediately inside the call.",
  ["uniffi/src/didcomm/*.rs", "uniffi/src/did/did_resolver_adapter.rs", "uniffi/src/secrets/secrets_resolver_adapter.rs", "uniffi/src/common.rs"], [("one-shot channel per resolver call, executor spawn per operation", "uniffi/src")], observe=["OnPack*/OnUnpack* callbacks"])
p("C19", "Stored documents, secrets and messages survive restarts unchanged",
  "DID documents, secrets, messages, rotation notices and options written to or read from JSON storage keep their meaning: they have the documented field names, what is reloaded after a crash or restart behaves like what was stored (the bundled example resolvers answer exactly for the stored DIDs and key IDs, in the order asked), and records written by other tools with optional fields left out load with the documented defaults. A torn or truncated record is refused with an error, never loaded as something else.",
  ["crash_points", "histories", "inputs"],
  "all stored values, crash points and torn writes",
  "Tests serialise a few constants and never reload, restart or tear a record.",
  ["src/did/did_doc.rs", "src/did/resolvers/example.rs", "src/secrets/mod.rs", "src/secrets/resolvers/example.rs", "src/algorithms.rs", "src/utils/serde.rs"] + MSG, [("serde models", "src/did/did_doc.rs, src/secrets/mod.rs"), ("option defaults", "src/message/pack_encrypted/mod.rs, src/message/unpack/mod.rs")],
  observe=["serde JSON of public types", "ExampleDIDResolver, ExampleSecretsResolver"])
p("C20", "The representation of a key does not change any outcome",
  "A key published or stored as JWK, Base58 or Multibase is the same key: switching a document or wallet between the supported representations, at any time and independently on each side, never changes which messages can be packed, unpacked, verified or rejected, including messages already in flight.",
  ["configurations", "histories"],
  "all assignments of representations over time",
  "Tests decode one key per representation; no exchange crosses representations.",
  ["src/utils/did.rs", "src/did/did_doc.rs", "src/secrets/mod.rs", "src/jwk.rs"], [("key material decoding", "src/utils/did.rs")], observe=["all operations before and after a migration"])
p("C21", "Envelopes interoperate with an independent DIDComm v2 peer",
  "Everything the library emits is decodable by an independently written DIDComm v2 implementation and has the header names, media types, algorithm names and structure the specification requires; everything such a peer emits within the supported algorithms - other member order, spacing or string escapes, optional headers omitted, unknown extra members, any recipient order - is unpacked to the same content and metadata.",
  ["inputs", "configurations", "histories"],
  "all messages exchanged in both directions with a peer that shares no code",
  "Tests check the library against itself and against a handful of specification vectors.",
  JWE + JWS + MSG + PACK + UNPACK, [("envelope serde models", "src/jwe/envelope.rs, src/jws/envelope.rs")], observe=["bytes on the wire", "Message::unpack of the peer's messages"])
p("C22", "Every packing uses fresh keys, nonces and identifiers",
  "Every encryption layer ever produced has its own content key, initialisation vector and ephemeral key drawn from the random source, and every forward layer its own message ID: none repeats across layers, messages, concurrent operations, retries or cancelled attempts, and packing the same message twice gives unlinkable ciphertexts.",
  ["histories", "schedules"],
  "all sequences and interleavings of packings",
  "Freshness is a statement about all pairs of executions; tests look at single ones with uncontrolled randomness.",
  ["src/jwe/encrypt.rs", "src/protocols/routing/mod.rs"], [("per-envelope generation of cek, epk and iv", "src/jwe/encrypt.rs")], observe=["draws from the random source", "AEAD invocations", "forward message ids"])
p("C23", "Inconsistent packing arguments are refused before anything is produced",
  "Packing refuses, with the illegal-argument error, a target, sender or signer that is not a DID or DID URL, a target that is not among the message's recipients, and a sender other than the message's sender.",
  ["inputs"], "all argument combinations",
  "Tests try a few combinations.", ["src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/utils/did.rs"],
  [("argument validation", "src/message/pack_encrypted/mod.rs")], observe=["Message::pack_encrypted"])
p("C24", "The JavaScript binding mirrors the native behaviour",
  "Each operation exposed to JavaScript settles its promise exactly once with the same message, result and metadata (as JSON, for all values JavaScript can represent), or an error of the same kind, as the native operation, however the promises of the application's resolvers are ordered, delayed or left pending; one operation never waits for another's. An error named after a DIDComm error kind that an application's resolver rejects with or throws reaches the operation's caller under the same name.",
  ["inputs", "schedules", "fault_sequences"], "all operations, resolver promises and orders in which they settle",
  "The binding's tests run in Node against constant vectors, with resolvers that answer at once.",
  ["wasm/src/**/*.rs"],
  [("JsValue conversion, error names", "wasm/src/error.rs, wasm/src/utils.rs, wasm/src/message"), ("resolver promises", "wasm/src/did/did_resolver.rs, wasm/src/secrets/secrets_resolver.rs")], observe=["wasm exports", "rejections' names"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
