#![allow(dead_code, unused_imports)]
pub use anyhow::{anyhow, bail, Result};
pub use async_trait::async_trait;
pub use base64::prelude::*;
pub use http::{Request, Response};
pub use openid4vp::core::authorization_request::parameters::*;
pub use openid4vp::core::authorization_request::verification::{did, verifier::{P256Verifier, Verifier as SigVerifier}, x509_hash, x509_san, RequestVerifier};
pub use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection};
pub use openid4vp::core::credential_format::*;
pub use openid4vp::core::dcql_query::*;
pub use openid4vp::core::metadata::parameters::{verifier as vparams, wallet as wparams};
pub use openid4vp::core::metadata::WalletMetadata;
pub use openid4vp::core::object::{ParsingErrorContext, TypedParameter, UntypedObject};
pub use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
pub use openid4vp::core::response::*;
pub use openid4vp::core::util::AsyncHttpClient;
pub use openid4vp::utils::NonEmptyVec;
pub use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
pub use openid4vp::verifier::request_signer::{P256Signer, RequestSigner};
pub use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
pub use openid4vp::verifier::Verifier;
pub use openid4vp::wallet::Wallet;
pub use serde_json::{json, Map, Value as Json};
pub use std::sync::{Arc, Mutex};
pub use url::Url;
pub use uuid::Uuid;

pub fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
pub fn b64(b: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(b)
}
pub fn jwt(header: Json, body: Json) -> String {
    format!("{}.{}.{}", b64(header.to_string()), b64(body.to_string()), b64("signature"))
}
pub fn obj(j: Json) -> UntypedObject {
    serde_json::from_value(j).unwrap()
}
/// A request object's parameters, with `extra` merged in (null removes).
pub fn params(extra: Json) -> Json {
    let mut p = json!({"response_type": "vp_token", "response_mode": "direct_post", "nonce": "n-1", "client_id": "client",
        "response_uri": "https://verifier.example/submit"});
    for (k, v) in extra.as_object().unwrap() {
        if v.is_null() { p.as_object_mut().unwrap().remove(k); } else { p[k] = v.clone(); }
    }
    p
}
pub fn aro(extra: Json) -> AuthorizationRequestObject {
    obj(params(extra)).try_into().unwrap()
}

pub struct Http {
    pub status: u16,
    pub body: Vec<u8>,
    pub sent: Mutex<Vec<Request<Vec<u8>>>>,
}
pub fn http(status: u16, body: impl Into<Vec<u8>>) -> Http {
    Http { status, body: body.into(), sent: Mutex::new(vec![]) }
}
#[async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, r: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.sent.lock().unwrap().push(r);
        Ok(Response::builder().status(self.status).body(self.body.clone())?)
    }
}

/// A wallet all of whose routines accept and are recorded.
pub struct W {
    pub md: WalletMetadata,
    pub http: Http,
    pub calls: Mutex<Vec<String>>,
}
pub fn metadata(extra: Json) -> WalletMetadata {
    let mut m = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}},
        "request_object_signing_alg_values_supported": ["ES256"],
        "client_id_prefixes_supported": ["decentralized_identifier", "redirect_uri", "x509_san_dns", "x509_hash", "verifier_attestation", "openid_federation", "pre-registered", "origin"]});
    for (k, v) in extra.as_object().unwrap() {
        if v.is_null() { m.as_object_mut().unwrap().remove(k); } else { m[k] = v.clone(); }
    }
    serde_json::from_value(m).unwrap()
}
pub fn wallet(md: Json, h: Http) -> W {
    W { md: metadata(md), http: h, calls: Mutex::new(vec![]) }
}
macro_rules! routines {
    ($($n:ident),*) => {
        #[async_trait]
        impl RequestVerifier for W {
            $(async fn $n(&self, _r: &AuthorizationRequestObject, _j: Option<String>) -> Result<()> {
                self.calls.lock().unwrap().push(stringify!($n).to_string());
                Ok(())
            })*
            async fn other(&self, p: &str, _r: &AuthorizationRequestObject, _j: Option<String>) -> Result<()> {
                self.calls.lock().unwrap().push(format!("other {p}"));
                Ok(())
            }
        }
    };
}
routines!(decentralized_identifier, openid_federation, preregistered, redirect_uri, verifier_attestation, x509_san_dns, x509_hash);
impl W {
    pub fn called(&self) -> Vec<String> {
        self.calls.lock().unwrap().clone()
    }
}
#[async_trait]
impl Wallet for W {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.md
    }
    fn http_client(&self) -> &Http {
        &self.http
    }
}

/// A client that signs with a fixed text.
#[derive(Debug)]
pub struct C {
    pub id: ClientId,
    pub prefix: ClientIdScheme,
    pub fail: bool,
    pub bodies: Mutex<Vec<Json>>,
}
pub fn client(id: &str, prefix: &str) -> Arc<C> {
    Arc::new(C { id: ClientId(id.into()), prefix: ClientIdScheme(prefix.into()), fail: false, bodies: Mutex::new(vec![]) })
}
#[async_trait]
impl Client for C {
    fn id(&self) -> &ClientId {
        &self.id
    }
    fn prefix(&self) -> ClientIdScheme {
        self.prefix.clone()
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        if self.fail {
            bail!("cannot sign");
        }
        let b = serde_json::to_value(body).unwrap();
        self.bodies.lock().unwrap().push(b.clone());
        Ok(jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), b))
    }
}
pub fn dcql() -> DcqlQuery {
    serde_json::from_value(json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {"doctype_value": "org.iso.18013.5.1.mDL"}}]})).unwrap()
}
pub fn url(s: &str) -> Url {
    s.parse().unwrap()
}
pub fn p256_key(seed: u8) -> p256::ecdsa::SigningKey {
    p256::ecdsa::SigningKey::from_slice(&[seed.max(1); 32]).unwrap()
}
/// (DER, signing key) of a self-signed certificate with the given DNS names.
pub fn cert(names: &[&str]) -> (Vec<u8>, p256::ecdsa::SigningKey) {
    use p256::pkcs8::DecodePrivateKey;
    let kp = rcgen::KeyPair::generate_for(&rcgen::PKCS_ECDSA_P256_SHA256).unwrap();
    let c = rcgen::CertificateParams::new(names.iter().map(|s| s.to_string()).collect::<Vec<_>>()).unwrap().self_signed(&kp).unwrap();
    (c.der().to_vec(), p256::ecdsa::SigningKey::from_pkcs8_der(&kp.serialize_der()).unwrap())
}
pub fn sign(key: &p256::ecdsa::SigningKey, header: Json, body: Json) -> String {
    use p256::ecdsa::signature::Signer;
    let hb = format!("{}.{}", b64(header.to_string()), b64(body.to_string()));
    let s: p256::ecdsa::Signature = key.sign(hb.as_bytes());
    format!("{hb}.{}", b64(s.to_vec()))
}
