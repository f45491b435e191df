"""Changes that need a history, an interleaving, a fault at one point or two cooperating sites."""
A = "src/core/authorization_request/mod.rs"
V = "src/core/authorization_request/verification/"
P = "src/core/authorization_request/parameters.rs"
S = "src/verifier/session.rs"
W = "src/wallet.rs"
M = "src/verifier/mod.rs"
B = "src/verifier/request_builder.rs"
I = "src/core/iso_18013_7/mod.rs"
O = "src/core/object/mod.rs"
R = "src/core/response/mod.rs"
RP = "src/core/response/parameters.rs"
MD = "src/core/metadata/mod.rs"
G = "src/verifier/request_signer.rs"
FE = "openid4vp-frontend/src/lib.rs"

bug("c15-two-sections", "C15", [(S, """        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
            session.status = status;
            return Ok(());
        }
        bail!("session not found")
""", """        let mut session = self.get_session(uuid).await?;
        session.status = status;
        self.initiate(session).await
""")], r'''
fn session(uuid: Uuid) -> Session {
    Session { uuid, status: Status::SentRequestByReference, authorization_request_jwt: "j".into(), authorization_request_object: aro(json!({})), dcql_query: dcql() }
}
fn main() {
    // a removed session never comes back: remover and updater race
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 60 {
        let store = MemoryStore::default();
        let id = Uuid::new_v4();
        run(store.initiate(session(id))).unwrap();
        let go = Arc::new(std::sync::Barrier::new(2));
        let (s2, g2) = (store.clone(), go.clone());
        let h = std::thread::spawn(move || {
            g2.wait();
            for _ in 0..200 {
                if run(s2.remove_session(id)).is_ok() { return true; }
            }
            false
        });
        go.wait();
        for _ in 0..200 {
            let _ = run(store.update_status(id, Status::SentRequest));
        }
        if h.join().unwrap() {
            let mut back = true;
            for _ in 0..5 { if run(store.get_session(id)).is_err() { back = false; } }
            assert!(!back, "a removed session is back");
        }
    }
}''', "a removal between the two critical sections of a status update", "an update racing with a removal brings the removed session back")

bug("c05-cache", "C05", [(A, """            RequestIndirection::ByReference { request_uri: url } => {
                let request""", """            RequestIndirection::ByReference { request_uri: url } => {
                static LAST: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);
                let last = LAST.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if let Some((_, body)) = last.filter(|(at, _)| at == url.as_str()) {
                    validate_request_object_typ(&body, is_redirect_uri_prefix)?;
                    let aro: AuthorizationRequestObject =
                        ssi::claims::jwt::decode_unverified::<UntypedObject>(&body)?.try_into()?;
                    return Ok((aro, Some(body)));
                }
                let request"""), (A, """                Ok((aro, Some(body)))
            }
            RequestIndirection::Direct""", """                *LAST.lock().unwrap_or_else(|e| e.into_inner()) =
                    Some((url.to_string(), body.clone()));
                Ok((aro, Some(body)))
            }
            RequestIndirection::Direct""")], r'''
fn main() {
    let h = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"});
    let ar = || AuthorizationRequest { client_id: Some("client".into()), request_indirection: RequestIndirection::ByReference { request_uri: url("https://v.example/r/1") } };
    for nonce in ["one", "two"] {
        let j = jwt(h.clone(), params(json!({"nonce": nonce})));
        let c = http(200, j.clone());
        let (aro, got) = run(ar().resolve_request(&c)).unwrap();
        assert_eq!(got, Some(j));
        assert_eq!(serde_json::to_value(aro.nonce()).unwrap(), json!(nonce));
        assert_eq!(c.sent.lock().unwrap().len(), 1);
    }
}''', "the same request_uri resolved twice in a row, with different replies", "the second resolution returns the first reply and makes no request")

bug("c01-approved-before", "C01", [(V + "mod.rs", """    // Get the Client Identifier Prefix from client_id
    // Per Section 5.9.2: If no ':' is present, treat as pre-registered
""", """    // A request object that was already approved need not be verified again.
    static APPROVED: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    let seen = jwt.clone();
    if let (Some(a), Some(b)) = (&*APPROVED.lock().unwrap_or_else(|e| e.into_inner()), &seen) {
        if a == b {
            return Ok(());
        }
    }

    // Get the Client Identifier Prefix from client_id
    // Per Section 5.9.2: If no ':' is present, treat as pre-registered
"""), (V + "mod.rs", """            wallet.preregistered(decoded_request, jwt).await?
        }
    };

    Ok(())""", """            wallet.preregistered(decoded_request, jwt).await?
        }
    };

    *APPROVED.lock().unwrap_or_else(|e| e.into_inner()) = seen;
    Ok(())""")], r'''
fn main() {
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({"client_metadata": {}})));
    let ar = || AuthorizationRequest { client_id: Some("client".into()), request_indirection: RequestIndirection::ByValue { request: j.clone() } };
    for _ in 0..2 {
        let w = wallet(json!({}), http(200, ""));
        run(ar().validate(&w)).unwrap();
        assert_eq!(w.called(), vec!["preregistered"]);
    }
}''', "the same request object presented twice", "the second time no routine of the wallet is consulted")

bug("c17-retry", "C17", [(W, """        let http_response = self
            .http_client()
            .execute(http_request)
            .await
            .context("failed to make authorization response request")?;

        let status = http_response.status();""", """        let again = http_request.clone();
        let mut http_response = self
            .http_client()
            .execute(http_request)
            .await
            .context("failed to make authorization response request")?;
        if http_response.status() == http::StatusCode::SERVICE_UNAVAILABLE {
            http_response = self
                .http_client()
                .execute(again)
                .await
                .context("failed to make authorization response request")?;
        }

        let status = http_response.status();""")], r'''
fn main() {
    let w = wallet(json!({}), http(503, "busy"));
    let r = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
    assert!(run(w.submit_response(aro(json!({})), r)).is_err());
    assert_eq!(w.http.sent.lock().unwrap().len(), 1);
}''', "a reply with status 503", "the response is posted twice")

bug("c02-enc-case", "C02", [(V + "mod.rs", "let has_supported_enc = enc_values.0.iter().any(|enc| supported.0.contains(enc));", "let has_supported_enc = enc_values\n                .0\n                .iter()\n                .any(|enc| supported.0.iter().any(|s| s.eq_ignore_ascii_case(enc)));")], r'''
fn main() {
    let w = wallet(json!({"authorization_encryption_enc_values_supported": ["a256gcm"]}), http(200, ""));
    let md = json!({"jwks": {"keys": [{"kty": "EC", "use": "enc", "alg": "ECDH-ES"}]}, "encrypted_response_enc_values_supported": ["A256GCM"]});
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({"response_mode": "direct_post.jwt", "client_metadata": md})));
    let ar = AuthorizationRequest { client_id: Some("client".into()), request_indirection: RequestIndirection::ByValue { request: j } };
    assert!(run(ar.validate(&w)).is_err());
    assert!(w.called().is_empty());
}''', "an enc value that differs from a supported one only in case", "a request whose only enc value the wallet does not list gets through the gate")

bug("c09-wildcard", "C09", [(V + "x509_san.rs", "            dns == client_id_source\n", """            dns == client_id_source
                || dns.strip_prefix('*').is_some_and(|suffix| {
                    client_id_source
                        .strip_suffix(suffix)
                        .is_some_and(|label| !label.is_empty() && !label.contains('.'))
                })
""")], r'''
fn main() {
    let (der, key) = cert(&["*.example.com"]);
    let body = params(json!({"client_id": "x509_san_dns:a.example.com"}));
    let j = sign(&key, json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [BASE64_STANDARD.encode(&der)]}), body.clone());
    let r: AuthorizationRequestObject = obj(body).try_into().unwrap();
    assert!(x509_san::validate::<P256Verifier>(&metadata(json!({})), &r, j, None).is_err());
}''', "a certificate with a wildcard DNS name", "a client_id that is not among the DNS names is accepted")

bug("c13-outcome-first", "C13", [(FE, "#[derive(Debug, Clone, PartialEq, PartialOrd, Serialize, Deserialize)]\npub enum Status {", "#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub enum Status {"), (FE, """/// Outcome of an OID4VP session.
#[derive""", """impl Status {
    /// How far the session has come.
    fn rank(&self) -> Option<u8> {
        Some(match self {
            Status::SentRequestByReference => 0,
            Status::SentRequest => 1,
            Status::ReceivedResponse => 2,
            Status::Complete(outcome) => outcome.ordering().checked_mul(3)?,
        })
    }
}

impl PartialOrd for Status {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.rank()?.partial_cmp(&other.rank()?)
    }
}

/// Outcome of an OID4VP session.
#[derive""")], r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = run(Verifier::builder().with_client(client("client", "x")).with_session_store(store.clone()).with_submission_endpoint(url("https://v.example/s")).build()).unwrap();
    let id = Uuid::new_v4();
    run(store.initiate(Session { uuid: id, status: Status::Complete(Outcome::Error { cause: "c".into() }), authorization_request_jwt: "j".into(), authorization_request_object: aro(json!({})), dcql_query: dcql() })).unwrap();
    run(v.retrieve_authorization_request(id)).unwrap();
    assert!(matches!(run(v.poll_status(id)).unwrap(), Status::Complete(Outcome::Error { .. })));
}''', "a request fetched again after the session completed with an error", "a completed session goes back to SentRequest")

bug("c14-keep-success", "C14", [(M, """        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
    }""", """        // a response that was verified once stays verified
        let before = self.session_store.get_session(reference).await?.status;
        if matches!(before, Status::Complete(Outcome::Success { .. }))
            && matches!(outcome, Outcome::Error { .. })
        {
            return Ok(());
        }

        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
    }""")], r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = run(Verifier::builder().with_client(client("client", "x")).with_session_store(store.clone()).with_submission_endpoint(url("https://v.example/s")).build()).unwrap();
    let id = Uuid::new_v4();
    run(store.initiate(Session { uuid: id, status: Status::SentRequest, authorization_request_jwt: "j".into(), authorization_request_object: aro(json!({})), dcql_query: dcql() })).unwrap();
    let r = || AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
    run(v.verify_response(id, r(), |_, _| Box::pin(async { Outcome::Success { info: json!(1) } }))).unwrap();
    run(v.verify_response(id, r(), |_, _| Box::pin(async { Outcome::Error { cause: "revoked".into() } }))).unwrap();
    assert!(matches!(run(v.poll_status(id)).unwrap(), Status::Complete(Outcome::Error { .. })));
}''', "a second response whose validator reports an error after a first success", "the session keeps an outcome the last validator did not decide")

bug("c22-skip-alg", "C22", [(I, """                if is_enc {
                    compute""", """                let agreement = key_map
                    .get("alg")
                    .and_then(|v| v.as_str())
                    .map(|alg| alg.starts_with("ECDH-ES"))
                    .unwrap_or(true);
                if is_enc && agreement {
                    compute""")], r'''
fn main() {
    let k1 = json!({"kty": "EC", "crv": "P-256", "x": "a", "y": "b", "use": "enc", "alg": "HPKE-0"});
    let k2 = json!({"kty": "EC", "crv": "P-256", "x": "c", "y": "d", "use": "enc", "alg": "ECDH-ES"});
    let r = aro(json!({"client_metadata": {"jwks": {"keys": [k1.clone(), k2]}}}));
    use openid4vp::core::iso_18013_7::*;
    assert_eq!(get_encryption_jwk_thumbprint(&r), Some(compute_jwk_thumbprint(&k1).unwrap()));
}''', "a first encryption key whose alg is not of the ECDH-ES family", "the thumbprint is of a later key than the first usable one")

bug("c21-nonce-nfc", "C21", [(I, "            Cbor::Text(nonce.to_string()),\n            jwk_thumbprint_cbor,\n            Cbor::Text(response_uri.to_string()),", "            Cbor::Text(nonce.trim_end_matches('=').to_string()),\n            jwk_thumbprint_cbor,\n            Cbor::Text(response_uri.to_string()),")], r'''
fn main() {
    use openid4vp::core::iso_18013_7::*;
    let a = Handover::new("c", "bm9uY2U=", None, "https://v.example/s").unwrap();
    let b = Handover::new("c", "bm9uY2U", None, "https://v.example/s").unwrap();
    assert_ne!(a.handover_info_hash(), b.handover_info_hash());
}''', "a nonce that ends in '='", "two different nonces give the same transcript")

bug("c12-empty-default", "C12", [(B, """            .get_or_default::<ClientIdPrefixesSupported>()?
            .0
            .contains(&client_id_prefix)
        {
            bail!(
                "the wallet""", """            .get_or_default::<ClientIdPrefixesSupported>()
            .map(|supported| {
                if supported.0.is_empty() {
                    ClientIdPrefixesSupported::default()
                } else {
                    supported
                }
            })?
            .0
            .contains(&client_id_prefix)
        {
            bail!(
                "the wallet""")], r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = run(Verifier::builder().with_client(client("client", "pre-registered")).with_session_store(store).with_submission_endpoint(url("https://v.example/s")).build()).unwrap();
    let r = run(v.build_authorization_request().with_dcql_query(dcql()).with_request_parameter(ResponseType::VpToken).with_request_parameter(ResponseMode::DirectPost)
        .with_request_parameter(Nonce::from("n")).build(metadata(json!({"client_id_prefixes_supported": []}))));
    assert!(r.is_err());
}''', "wallet metadata with an empty list of prefixes", "a request is issued to a wallet that supports no prefix at all")

bug("c11-retry-sign", "C11", [(B, """        let authorization_request_jwt = self
            .verifier
            .client
            .generate_request_object_jwt(&authorization_request_object)
            .await?;

        let mut initial_status""", """        let authorization_request_jwt = match self
            .verifier
            .client
            .generate_request_object_jwt(&authorization_request_object)
            .await
        {
            Ok(jwt) => jwt,
            Err(_) => {
                // once more without what the client may have refused to sign
                let mut minimal = authorization_request_object.clone();
                let _ = minimal.remove::<crate::core::authorization_request::parameters::State>();
                self.verifier
                    .client
                    .generate_request_object_jwt(&minimal)
                    .await?
            }
        };

        let mut initial_status""")], r'''
#[derive(Debug)]
struct Flaky(Arc<C>, Mutex<u32>);
#[async_trait]
impl Client for Flaky {
    fn id(&self) -> &ClientId { self.0.id() }
    fn prefix(&self) -> ClientIdScheme { self.0.prefix() }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        { let mut n = self.1.lock().unwrap(); *n += 1; if *n == 1 { bail!("key store busy") } }
        self.0.generate_request_object_jwt(body).await
    }
}
fn main() {
    let store = Arc::new(MemoryStore::default());
    let c = client("client", "pre-registered");
    let v = run(Verifier::builder().with_client(Arc::new(Flaky(c.clone(), Mutex::new(0)))).with_session_store(store.clone()).with_submission_endpoint(url("https://v.example/s")).build()).unwrap();
    let id = Uuid::new_v4();
    let r = run(v.build_authorization_request().with_dcql_query(dcql()).with_request_parameter(ResponseType::VpToken).with_request_parameter(ResponseMode::DirectPost)
        .with_request_parameter(Nonce::from("n")).with_request_parameter(State("s".into())).build_with_session_id(id, metadata(json!({}))));
    if r.is_ok() {
        let s = run(store.get_session(id)).unwrap();
        assert_eq!(c.bodies.lock().unwrap().last().unwrap(), &serde_json::to_value(&s.authorization_request_object).unwrap());
    }
}''', "a signer that fails once", "the JWT lacks a parameter that the stored request object has")

bug("c28-low-s", "C28", [(V + "verifier.rs", "        let signature = p256::ecdsa::Signature::from_slice(signature)?;\n", "        let signature = p256::ecdsa::Signature::from_slice(signature)\n            .or_else(|_| p256::ecdsa::Signature::from_der(signature))?;\n")], r'''
fn main() {
    use p256::ecdsa::signature::Signer;
    let key = p256_key(7);
    let s: p256::ecdsa::Signature = key.sign(b"payload");
    use p256::pkcs8::EncodePublicKey;
    let der = p256::PublicKey::from(key.verifying_key()).to_public_key_der().unwrap();
    let spki = x509_cert::spki::SubjectPublicKeyInfoRef::try_from(der.as_bytes()).unwrap();
    let v = P256Verifier::from_spki(spki, "ES256".into()).unwrap();
    assert!(v.verify(b"payload", &s.to_vec()).is_ok());
    assert!(v.verify(b"payload", s.to_der().as_bytes()).is_err());
}''', "a signature in DER form", "a signature that is not the 64-byte ES256 form is accepted")

bug("c08-kid-did-url", "C08", [(V + "did.rs", """    let jwk = resolver
        .fetch_public_jwk(Some(&kid))""", """    let jwk = resolver
        .fetch_public_jwk(Some(if _f.is_empty() { did } else { &kid }))""")], r'''
use std::borrow::Cow;
use ssi_claims::ProofValidationError;
use ssi_jwk::{JWKResolver, JWK};
struct Keys(JWK, Mutex<Vec<String>>);
impl JWKResolver for &Keys {
    async fn fetch_public_jwk(&self, id: Option<&str>) -> std::result::Result<Cow<'_, JWK>, ProofValidationError> {
        self.1.lock().unwrap().push(id.unwrap_or("-").to_string());
        Ok(Cow::Borrowed(&self.0))
    }
}
fn main() {
    let key = p256_key(9);
    let jwk: JWK = serde_json::from_str(&p256::PublicKey::from(key.verifying_key()).to_jwk_string()).unwrap();
    let body = params(json!({"client_id": "decentralized_identifier:did:example:1"}));
    let j = sign(&key, json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": "did:example:1#"}), body.clone());
    let r: AuthorizationRequestObject = obj(body).try_into().unwrap();
    let k = Keys(jwk, Mutex::new(vec![]));
    let _ = run(did::verify_with_resolver(&metadata(json!({})), &r, j, None, &k));
    assert!(k.1.lock().unwrap().iter().all(|x| x == "did:example:1#"), "{:?}", k.1);
}''', "a kid whose fragment is empty", "the key is resolved under an identifier that is not the kid")

bug("c04-prefix-stripped", "C04", [(A, """            if x != y {
                bail!""", """            // a pre-registered client may leave its prefix out of the request
            let same = match y.split_once(':') {
                Some((prefix, rest)) if prefix == "pre-registered" => rest == x,
                _ => false,
            };
            if x != y && !same {
                bail!""")], r'''
fn main() {
    let w = wallet(json!({}), http(200, ""));
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({"client_id": "pre-registered:shop", "client_metadata": {}})));
    let ar = AuthorizationRequest { client_id: Some("shop".into()), request_indirection: RequestIndirection::ByValue { request: j } };
    assert!(run(ar.validate(&w)).is_err());
}''', "an inner client_id that is the outer one behind 'pre-registered:'", "an accepted request has two different client identifiers")

bug("c06-same-uris", "C06", [(A, """            (Some(_), Some(_), _) => {
                bail!("'response_uri' and""", """            (Some(Ok(a)), Some(Ok(b)), ResponseMode::DirectPost) if a.0 == b.0 => {
                (b.0, ResponseMode::DirectPost)
            }
            (Some(_), Some(_), _) => {
                bail!("'response_uri' and""")], r'''
fn main() {
    let o = obj(params(json!({"redirect_uri": "https://verifier.example/submit"})));
    assert!(AuthorizationRequestObject::try_from(o).is_err());
}''', "a redirect_uri that equals the response_uri", "a request object with both addresses is accepted")

bug("c18-insert-same", "C18", [(O, """            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),""", """            Ok(value) => {
                let old = self.0.get(T::KEY).cloned();
                match &old {
                    // an explicit null does not overwrite what is there
                    Some(_) if Json::is_null(&value) => {}
                    _ => {
                        self.0.insert(T::KEY.to_owned(), value);
                    }
                }
                Some(old?.try_into())
            }""")], r'''
#[derive(Debug, Clone)]
struct Q(Json);
impl TypedParameter for Q { const KEY: &'static str = "q"; }
impl TryFrom<Json> for Q { type Error = anyhow::Error; fn try_from(j: Json) -> Result<Self> { Ok(Q(j)) } }
impl From<Q> for Json { fn from(q: Q) -> Json { q.0 } }
fn main() {
    let mut o = obj(json!({"q": 1}));
    let old = o.insert(Q(Json::Null)).unwrap().unwrap();
    assert_eq!(old.0, json!(1));
    assert_eq!(o.get::<Q>().unwrap().unwrap().0, Json::Null);
}''', "a parameter whose JSON form is null, put over an existing one", "what was inserted is not what is found afterwards")

bug("c03-escape", "C03", [(A, "    let typ = headers.get(\"typ\").and_then(|v| v.as_str());", "    let typ = headers\n        .get(\"typ\")\n        .and_then(|v| v.as_str())\n        .map(|t| t.strip_prefix(\"application/\").unwrap_or(t));")], r'''
fn main() {
    let j = jwt(json!({"alg": "ES256", "typ": "application/oauth-authz-req+jwt"}), params(json!({})));
    let ar = AuthorizationRequest { client_id: Some("client".into()), request_indirection: RequestIndirection::ByValue { request: j } };
    assert!(run(ar.resolve_request(&http(200, ""))).is_err());
}''', "a typ with the media type prefix", "a request object of another typ is processed")
