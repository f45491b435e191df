B = "src/verifier/request_builder.rs"
M = "src/verifier/mod.rs"
S = "src/verifier/session.rs"
C = "src/verifier/client.rs"
G = "src/verifier/request_signer.rs"

SETUP = r'''
fn verifier(c: Arc<C>, store: Arc<MemoryStore>, by_ref: Option<&str>, end: &str) -> Verifier {
    let mut b = Verifier::builder().with_client(c).with_session_store(store).with_submission_endpoint(url(end))
        .with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(ResponseMode::DirectPost)
        .with_default_request_parameter(Nonce::from("n"));
    if let Some(u) = by_ref { b = b.by_reference(url(u)); }
    run(b.build()).unwrap()
}
'''

bug("c11-status-by-ref", "C11", [(B, "                initial_status = Status::SentRequestByReference;\n                RequestIndirection::ByReference { request_uri: at }",
 "                if at.scheme() == \"https\" {\n                    initial_status = Status::SentRequestByReference;\n                }\n                RequestIndirection::ByReference { request_uri: at }")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store.clone(), Some("http://localhost:3000/request"), "https://v/submit");
    let (id, _) = run(v.build_authorization_request().with_dcql_query(dcql()).build(metadata(json!({})))).unwrap();
    assert!(run(v.poll_status(id)).unwrap() == Status::SentRequestByReference);
}''', "a by-reference base URL that is not https", "the stored status says sent although the wallet has only a request_uri")

bug("c11-endpoint-slash", "C11", [(B, """                let mut uri = self.verifier.submission_endpoint.clone();
                {
                    let Ok(mut path) = uri.path_segments_mut() else {
                        bail!("invalid base URL for the submission endpoint")
                    };
                    path.push(&uuid.to_string());
                }
                self.request_parameters.insert(ResponseUri(uri));
            }
            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}
            ResponseMode::Unsupported(r) => bail!("unsupported response_mode: {r}"),
        }

        if !wallet""", """                let mut uri = self.verifier.submission_endpoint.clone();
                {
                    let Ok(mut path) = uri.path_segments_mut() else {
                        bail!("invalid base URL for the submission endpoint")
                    };
                    path.pop_if_empty().push(&uuid.to_string());
                }
                self.request_parameters.insert(ResponseUri(uri));
            }
            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}
            ResponseMode::Unsupported(r) => bail!("unsupported response_mode: {r}"),
        }

        if self.request_parameters.get::<ResponseUri>().is_none() {
            self.request_parameters
                .insert(ResponseUri(self.verifier.submission_endpoint.clone()));
            self.request_parameters.remove::<ResponseUri>();
        }
        if let Some(Ok(ResponseUri(mut uri))) = self.request_parameters.get::<ResponseUri>() {
            uri.set_query(None);
            self.request_parameters.insert(ResponseUri(uri));
        }

        if !wallet""")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store.clone(), None, "https://v/submit?tenant=7");
    let (id, _) = run(v.build_authorization_request().with_dcql_query(dcql()).build(metadata(json!({})))).unwrap();
    let s = run(store.get_session(id)).unwrap();
    assert_eq!(s.authorization_request_object.return_uri().as_str(), format!("https://v/submit/{id}?tenant=7"));
}''', "a submission endpoint with a query", "the response_uri is not the submission endpoint extended by the session id")

bug("c12-store-ignored", "C12", [(B, """        self.verifier
            .session_store
            .initiate(session)
            .await
            .context("failed to store the session in the session store")?;

        Ok(authorization_request_url)""", """        if let Err(e) = self.verifier.session_store.initiate(session).await {
            // The wallet may still answer if the store already knows the session.
            self.verifier
                .session_store
                .get_session(uuid)
                .await
                .context(e)?;
        }

        Ok(authorization_request_url)""")], SETUP + r'''
#[derive(Debug)]
struct Full(MemoryStore);
#[async_trait]
impl SessionStore for Full {
    async fn initiate(&self, _s: Session) -> Result<()> { bail!("read-only") }
    async fn update_status(&self, u: Uuid, s: Status) -> Result<()> { self.0.update_status(u, s).await }
    async fn get_session(&self, u: Uuid) -> Result<Session> { self.0.get_session(u).await }
    async fn remove_session(&self, u: Uuid) -> Result<()> { self.0.remove_session(u).await }
}
fn main() {
    let inner = MemoryStore::default();
    let c = client("x509_san_dns:v", "x509_san_dns");
    let v = verifier(c.clone(), Arc::new(inner.clone()), None, "https://v/submit");
    let id = Uuid::new_v4();
    run(v.build_authorization_request().with_dcql_query(dcql()).build_with_session_id(id, metadata(json!({})))).unwrap();
    let v = run(Verifier::builder().with_client(c).with_session_store(Arc::new(Full(inner))).with_submission_endpoint(url("https://v/submit"))
        .with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(ResponseMode::DirectPost)
        .with_default_request_parameter(Nonce::from("n")).build()).unwrap();
    assert!(run(v.build_authorization_request().with_dcql_query(dcql()).build_with_session_id(id, metadata(json!({})))).is_err());
}''', "a store that refuses the new session while it holds an older one with the same id", "a request is issued although its session was not stored")

bug("c12-prefix-late", "C12", [(B, """            .get_or_default::<ClientIdPrefixesSupported>()?
            .0
            .contains(&client_id_prefix)
        {""", """            .get::<ClientIdPrefixesSupported>()
            .map(|p| p.map(|p| p.0.contains(&client_id_prefix)))
            .unwrap_or(Ok(true))?
        {""")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store, None, "https://v/submit");
    assert!(run(v.build_authorization_request().with_dcql_query(dcql()).build(metadata(json!({"client_id_prefixes_supported": null})))).is_err());
}''', "wallet metadata that lists no prefixes", "a wallet that supports only pre-registered clients is sent a prefixed request")

bug("c13-status-ne", "C13", [(M, "        if session.status < Status::SentRequest {", "        if session.status != Status::SentRequest\n            && !matches!(session.status, Status::Complete(_))\n        {")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store.clone(), Some("https://v/r"), "https://v/submit");
    let (id, _) = run(v.build_authorization_request().with_dcql_query(dcql()).build(metadata(json!({})))).unwrap();
    run(store.update_status(id, Status::ReceivedResponse)).unwrap();
    run(v.retrieve_authorization_request(id)).unwrap();
    assert!(run(v.poll_status(id)).unwrap() == Status::ReceivedResponse);
}''', "the wallet retrieving the request again after its response was received", "the session goes back from received to sent")

bug("c14-complete-once", "C14", [(M, "        let session = self.session_store.get_session(reference).await?;\n\n        let outcome", "        let session = self.session_store.get_session(reference).await?;\n        let earlier = session.status.clone();\n\n        let outcome"),
 (M, "            .update_status(reference, Status::Complete(outcome))", "            .update_status(\n                reference,\n                std::cmp::max_by(earlier, Status::Complete(outcome), |a, b| {\n                    a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Less)\n                }),\n            )")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store.clone(), None, "https://v/submit");
    let (id, _) = run(v.build_authorization_request().with_dcql_query(dcql()).build(metadata(json!({})))).unwrap();
    let r = AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "x".into() });
    run(v.verify_response(id, r.clone(), |_, _| Box::pin(async { Outcome::Success { info: json!(1) } }))).unwrap();
    run(v.verify_response(id, r, |_, _| Box::pin(async { Outcome::Failure { reason: "replayed".into() } }))).unwrap();
    assert!(matches!(run(v.poll_status(id)).unwrap(), Status::Complete(Outcome::Failure { .. })));
}''', "a second response for a session already complete with a better outcome", "the validator's later decision is not recorded")

bug("c15-remove-other", "C15", [(S, "        if self.store.try_lock()?.remove(&uuid).is_some() {\n            return Ok(());\n        }", "        let mut store = self.store.try_lock()?;\n        if store.contains_key(&uuid) {\n            store.retain(|id, _| id.as_u64_pair().0 != uuid.as_u64_pair().0);\n            return Ok(());\n        }")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store.clone(), None, "https://v/submit");
    let id = |n: u128| Uuid::from_u128(n);
    for n in [1, 2, 3] {
        run(v.build_authorization_request().with_dcql_query(dcql()).build_with_session_id(id(n), metadata(json!({})))).unwrap();
    }
    run(store.remove_session(id(2))).unwrap();
    assert!(run(store.get_session(id(2))).is_err());
    for n in [1, 3] { run(store.get_session(id(n))).unwrap(); }
}''', "sessions whose caller-chosen ids share their upper half", "removing a session drops others")

bug("c15-update-absent", "C15", [(S, "        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {\n            session.status = status;\n            return Ok(());\n        }\n        bail!", "        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {\n            if session.status != status {\n                session.status = status;\n            }\n            return Ok(());\n        }\n        bail!")], SETUP + r'''
fn main() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(client("x509_san_dns:v", "x509_san_dns"), store.clone(), None, "https://v/submit");
    let (id, _) = run(v.build_authorization_request().with_dcql_query(dcql()).build(metadata(json!({})))).unwrap();
    run(store.update_status(id, Status::Complete(Outcome::Error { cause: "timeout".into() }))).unwrap();
    run(store.update_status(id, Status::Complete(Outcome::Error { cause: "bad signature".into() }))).unwrap();
    let Status::Complete(Outcome::Error { cause }) = run(store.get_session(id)).unwrap().status else { panic!() };
    assert_eq!(cause, "bad signature");
}''', "two outcomes of the same kind with different details", "the second status is not stored, because outcomes compare equal by kind only")

bug("c27-chain-order", "C27", [(C, "            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))", "            .rev()\n            .map(|x509| x509.to_der())\n            .map(|der| Ok(BASE64_STANDARD.encode(der?)))", -1)], r'''
use x509_cert::der::Decode;
fn main() {
    let (a, key) = cert(&["a.example"]);
    let (b, _) = cert(&["b.example"]);
    let chain = vec![x509_cert::Certificate::from_der(&a).unwrap(), x509_cert::Certificate::from_der(&b).unwrap()];
    let signer = Arc::new(P256Signer::new(key).unwrap());
    for c in [Box::new(X509SanDnsClient::new(chain.clone(), signer.clone()).unwrap()) as Box<dyn Client>, Box::new(X509HashClient::new(chain, signer).unwrap())] {
        let j = run(c.generate_request_object_jwt(&aro(json!({"client_id": c.id().0})))).unwrap();
        let h: Json = serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(j.split('.').next().unwrap()).unwrap()).unwrap();
        assert_eq!(h["x5c"], json!([BASE64_STANDARD.encode(&a), BASE64_STANDARD.encode(&b)]));
    }
}''', "a certificate chain of more than one certificate with x509_hash", "the x5c header carries the chain in reverse")

bug("c27-did-key", "C27", [(C, "        if *jwk != signer.jwk().context(\"signer did not have a JWK\")? {", "        let own = signer.jwk().context(\"signer did not have a JWK\")?;\n        if *jwk != own && (jwk.key_id.is_none() || jwk.key_id != own.key_id) {")], r'''
use std::borrow::Cow;
#[derive(Debug)]
struct Sg(ssi_jwk::JWK);
#[async_trait]
impl RequestSigner for Sg {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> { Ok("ES256".into()) }
    fn jwk(&self) -> Result<ssi_jwk::JWK> { Ok(self.0.clone()) }
    async fn sign(&self, _p: &[u8]) -> Vec<u8> { vec![1] }
}
struct R(ssi_jwk::JWK);
impl ssi_jwk::JWKResolver for R {
    async fn fetch_public_jwk(&self, _k: Option<&str>) -> std::result::Result<Cow<ssi_jwk::JWK>, ssi_claims::ProofValidationError> {
        Ok(Cow::Borrowed(&self.0))
    }
}
fn main() {
    let k = |n: u8| { let mut j = P256Signer::new(p256_key(n)).unwrap().jwk().clone(); j.key_id = Some("0".into()); j };
    assert!(run(DIDClient::new("did:web:a#0".into(), Arc::new(Sg(k(1))), R(k(1)))).is_ok());
    assert!(run(DIDClient::new("did:web:a#0".into(), Arc::new(Sg(k(1))), R(k(2)))).is_err());
}''', "a resolved key with the same kid as the signer's but other key material", "a DID client is created with a signer that does not hold the DID's key")

bug("c28-alg-prefix", "C28", [("src/core/authorization_request/verification/verifier.rs", 'if algorithm != "ES256" {', 'if !algorithm.starts_with("ES256") {')], r'''
use x509_cert::der::{referenced::OwnedToRef, Decode};
fn main() {
    let (a, _) = cert(&["a.example"]);
    let c = x509_cert::Certificate::from_der(&a).unwrap();
    let spki = || c.tbs_certificate.subject_public_key_info.owned_to_ref();
    P256Verifier::from_spki(spki(), "ES256".into()).unwrap();
    assert!(P256Verifier::from_spki(spki(), "ES256K".into()).is_err());
}''', "the alg ES256K", "a verifier for another algorithm is built")

bug("c28-sign-prehash", "C28", [(G, "        let sig: Signature = self.key.sign(payload);\n        sig.to_vec()", "        let sig: Signature = self.key.sign(payload);\n        let mut out = sig.to_vec();\n        while out.len() > 64 || (out.len() > 1 && out[0] == 0) {\n            out.remove(0);\n        }\n        out")], r'''
use x509_cert::der::{referenced::OwnedToRef, Decode};
fn main() {
    let (a, key) = cert(&["a.example"]);
    let c = x509_cert::Certificate::from_der(&a).unwrap();
    let v = P256Verifier::from_spki(c.tbs_certificate.subject_public_key_info.owned_to_ref(), "ES256".into()).unwrap();
    let s = P256Signer::new(key).unwrap();
    for i in 0..2000u32 {
        let p = i.to_be_bytes();
        let sig = run(s.sign(&p));
        assert!(v.verify(&p, &sig).is_ok(), "signature {i} is not accepted");
    }
}''', "a signature whose r starts with a zero byte (one in 256)", "some signatures of the signer are not accepted by the verifier")
