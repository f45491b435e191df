//! Stand-ins for the environment: HTTP client, wallet, session store, client, signer, resolver.
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::core::authorization_request::parameters::{ClientId, ClientIdScheme};
use openid4vp::core::authorization_request::verification::RequestVerifier;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::UntypedObject;
use openid4vp::core::util::AsyncHttpClient;
use openid4vp::verifier::client::Client;
use openid4vp::verifier::request_signer::RequestSigner;
use openid4vp::verifier::session::{Session, SessionStore, Status};
use openid4vp::wallet::Wallet;
use serde_json::{json, Map, Value as Json};
use ssi_jwk::JWK;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};
use uuid::Uuid;

pub fn b64u(b: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(b)
}

pub fn jwt(header: &Json, body: &Json, sig: &[u8]) -> String {
    format!("{}.{}.{}", b64u(serde_json::to_vec(header).unwrap()), b64u(serde_json::to_vec(body).unwrap()), b64u(sig))
}

pub fn untyped(m: &Map<String, Json>) -> UntypedObject {
    serde_json::from_value(Json::Object(m.clone())).unwrap()
}

pub fn params_of(a: &AuthorizationRequestObject) -> Json {
    Json::from(UntypedObject::from(a.clone()))
}

// ------------------------------------------------------------------ HTTP
#[derive(Debug, Clone, PartialEq)]
pub struct Sent {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub struct Http {
    /// The first reply; None: transport error. A second call, if there is one, succeeds.
    pub reply: Option<(u16, Vec<u8>)>,
    pub after: Vec<u8>,
    pub log: Mutex<Vec<Sent>>,
}

impl Http {
    pub fn new(reply: Option<(u16, Vec<u8>)>) -> Self {
        let after = match &reply {
            Some((_, b)) => b.clone(),
            None => b"{}".to_vec(),
        };
        Http { reply, after, log: Mutex::new(vec![]) }
    }
    pub fn then(mut self, after: &[u8]) -> Self {
        self.after = after.to_vec();
        self
    }
    pub fn sent(&self) -> Vec<Sent> {
        self.log.lock().unwrap().clone()
    }
}

#[async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        let mut headers: Vec<(String, String)> =
            request.headers().iter().map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
        headers.sort();
        let first = {
            let mut l = self.log.lock().unwrap();
            l.push(Sent { method: request.method().to_string(), uri: request.uri().to_string(), headers, body: request.body().clone() });
            l.len() == 1
        };
        if !first {
            return Ok(Response::builder().status(200).body(self.after.clone())?);
        }
        match &self.reply {
            None => Err(anyhow!("transport error")),
            Some((s, b)) => {
                // some replies carry headers; none of them matters
                let mut re = Response::builder().status(*s);
                let k = b.iter().fold(*s as usize, |a, x| a.wrapping_mul(31).wrapping_add(*x as usize));
                if k % 3 != 0 {
                    re = re.header("content-type", ["application/json", "text/plain", "application/oauth-authz-req+jwt", "application/jwt", ""][k / 3 % 5]);
                }
                if k % 7 == 1 {
                    re = re.header("location", "https://elsewhere.example/x").header("retry-after", "0").header("cache-control", "no-store");
                }
                Ok(re.body(b.clone())?)
            }
        }
    }
}

// ------------------------------------------------------------------ wallets
#[derive(Debug, Clone, PartialEq)]
pub struct Asked {
    pub routine: String,
    pub prefix: Option<String>,
    pub object: Json,
    pub jwt: Option<String>,
}

/// Implements every routine: records what it is asked and accepts those listed in `accept`.
pub struct W {
    pub md: WalletMetadata,
    pub http: Http,
    pub accept: Vec<String>,
    pub log: Mutex<Vec<Asked>>,
}

impl W {
    pub fn new(md: WalletMetadata, http: Http, accept: Vec<String>) -> Self {
        W { md, http, accept, log: Mutex::new(vec![]) }
    }
    fn ask(&self, routine: &str, prefix: Option<&str>, o: &AuthorizationRequestObject, jwt: Option<String>) -> Result<()> {
        self.log.lock().unwrap().push(Asked { routine: routine.to_string(), prefix: prefix.map(|s| s.to_string()), object: params_of(o), jwt });
        if self.accept.iter().any(|a| a == routine) {
            Ok(())
        } else {
            Err(anyhow!("{routine} rejects"))
        }
    }
    pub fn asked(&self) -> Vec<Asked> {
        self.log.lock().unwrap().clone()
    }
}

#[async_trait]
impl Wallet for W {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.md
    }
    fn http_client(&self) -> &Http {
        &self.http
    }
}

#[async_trait]
impl RequestVerifier for W {
    async fn decentralized_identifier(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("decentralized_identifier", None, o, j)
    }
    async fn openid_federation(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("openid_federation", None, o, j)
    }
    async fn preregistered(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("pre-registered", None, o, j)
    }
    async fn redirect_uri(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("redirect_uri", None, o, j)
    }
    async fn verifier_attestation(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("verifier_attestation", None, o, j)
    }
    async fn x509_san_dns(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("x509_san_dns", None, o, j)
    }
    async fn x509_hash(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("x509_hash", None, o, j)
    }
    async fn other(&self, prefix: &str, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.ask("other", Some(prefix), o, j)
    }
}

/// Implements no routine.
pub struct Bare {
    pub md: WalletMetadata,
    pub http: Http,
}
#[async_trait]
impl Wallet for Bare {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.md
    }
    fn http_client(&self) -> &Http {
        &self.http
    }
}
#[async_trait]
impl RequestVerifier for Bare {}

// ------------------------------------------------------------------ verifier side
#[derive(Debug, Clone)]
pub enum StoreOp {
    Initiate(Session),
    Update(Uuid, Status),
    Get(Uuid),
    Remove(Uuid),
}

#[derive(Debug, Default)]
pub struct Store {
    pub map: Mutex<BTreeMap<Uuid, Session>>,
    pub log: Mutex<Vec<StoreOp>>,
    pub fail_initiate: bool,
    /// the failing call stores the session all the same
    pub lost_ack: bool,
    pub fail_update: bool,
    pub fail_get: bool,
}

impl Store {
    /// The faults are transient: only the first call of its kind fails.
    fn fails(&self, f: bool, kind: fn(&StoreOp) -> bool) -> bool {
        f && self.log.lock().unwrap().iter().filter(|o| kind(o)).count() == 1
    }
}

#[async_trait]
impl SessionStore for Store {
    async fn initiate(&self, s: Session) -> Result<()> {
        self.log.lock().unwrap().push(StoreOp::Initiate(s.clone()));
        if self.fails(self.fail_initiate, |o| matches!(o, StoreOp::Initiate(_))) {
            if self.lost_ack {
                self.map.lock().unwrap().insert(s.uuid, s);
            }
            return Err(anyhow!("store failed"));
        }
        self.map.lock().unwrap().insert(s.uuid, s);
        Ok(())
    }
    async fn update_status(&self, u: Uuid, st: Status) -> Result<()> {
        self.log.lock().unwrap().push(StoreOp::Update(u, st.clone()));
        if self.fails(self.fail_update, |o| matches!(o, StoreOp::Update(..))) {
            return Err(anyhow!("store failed"));
        }
        match self.map.lock().unwrap().get_mut(&u) {
            Some(s) => {
                s.status = st;
                Ok(())
            }
            None => Err(anyhow!("unknown")),
        }
    }
    async fn get_session(&self, u: Uuid) -> Result<Session> {
        self.log.lock().unwrap().push(StoreOp::Get(u));
        if self.fails(self.fail_get, |o| matches!(o, StoreOp::Get(_))) {
            return Err(anyhow!("store failed"));
        }
        self.map.lock().unwrap().get(&u).cloned().ok_or(anyhow!("unknown"))
    }
    async fn remove_session(&self, u: Uuid) -> Result<()> {
        self.log.lock().unwrap().push(StoreOp::Remove(u));
        self.map.lock().unwrap().remove(&u).map(|_| ()).ok_or(anyhow!("unknown"))
    }
}

#[derive(Debug)]
pub struct TestClient {
    pub id: ClientId,
    pub prefix: String,
    pub fail: bool,
    pub jwt: String,
    pub signed: Mutex<Vec<Json>>,
    /// how often the store had been asked to initiate when the JWT was produced
    pub store: Option<Arc<Store>>,
}

#[async_trait]
impl Client for TestClient {
    fn id(&self) -> &ClientId {
        &self.id
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme(self.prefix.clone())
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        let n = {
            let mut s = self.signed.lock().unwrap();
            s.push(params_of(body));
            s.len()
        };
        if self.fail && n == 1 {
            return Err(anyhow!("signing failed"));
        }
        Ok(format!("{}.{}", self.jwt, n))
    }
}

/// A signer whose signature is a function of the payload that only it knows.
#[derive(Debug)]
pub struct TestSigner {
    pub alg: Option<String>,
    pub jwk: Option<JWK>,
    pub log: Mutex<Vec<Vec<u8>>>,
}

pub fn test_sig(payload: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    let mut v = b"sig:".to_vec();
    v.extend(sha2::Sha256::digest(payload));
    v
}

#[async_trait]
impl RequestSigner for TestSigner {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> {
        self.alg.clone().ok_or(anyhow!("no alg"))
    }
    fn jwk(&self) -> Result<JWK> {
        self.jwk.clone().ok_or(anyhow!("no jwk"))
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        self.log.lock().unwrap().push(payload.to_vec());
        test_sig(payload)
    }
}

// ------------------------------------------------------------------ keys and certificates
pub struct Key {
    pub sk: p256::ecdsa::SigningKey,
    pub jwk: JWK,
    pub spki: Vec<u8>,
}

pub struct Cert {
    pub der: Vec<u8>,
    pub dns: Vec<String>,
    pub spki: Vec<u8>,
    pub key: usize,
}

pub struct Pools {
    pub keys: Vec<Key>,
    pub certs: Vec<Cert>,
}

static POOLS: OnceLock<Pools> = OnceLock::new();

pub fn pools() -> &'static Pools {
    POOLS.get().unwrap()
}

pub fn init_pools() {
    POOLS.get_or_init(|| {
        use p256::pkcs8::{EncodePrivateKey, EncodePublicKey};
        let keys: Vec<Key> = (0..4u8)
            .map(|i| {
                let sk = p256::SecretKey::from_slice(&[i + 3; 32]).unwrap();
                let jwk = serde_json::from_str(&sk.public_key().to_jwk_string()).unwrap();
                let spki = sk.public_key().to_public_key_der().unwrap().as_bytes().to_vec();
                Key { sk: sk.into(), jwk, spki }
            })
            .collect();
        let sans: Vec<Vec<rcgen::SanType>> = {
            use rcgen::SanType::*;
            let d = |s: &str| DnsName(s.try_into().unwrap());
            vec![
                vec![d("v.example")],
                vec![d("a.example"), d("v.example"), d("*.w.example")],
                vec![Rfc822Name("v.example".try_into().unwrap()), d("b.example")],
                vec![URI("v.example".try_into().unwrap())],
                vec![],
                vec![IpAddress("127.0.0.1".parse().unwrap()), d("V.example"), d("example")],
                vec![d("*.w.example"), d("w.example")],
                vec![d("www.v.example."), d("x_y.v.example")],
                vec![d("xn--bcher-kva.example"), d("XN--BCHER-KVA.example")],
                vec![d("localhost"), d("1.2.3.4")],
                vec![d("sub.v.example"), URI("https://u.example".try_into().unwrap()), d("z.example")],
            ]
        };
        let certs = sans
            .into_iter()
            .enumerate()
            .map(|(i, s)| {
                let k = i % keys.len();
                let pk = keys[k].sk.to_pkcs8_der().unwrap();
                let kp = rcgen::KeyPair::try_from(pk.as_bytes()).unwrap();
                let dns = s
                    .iter()
                    .filter_map(|x| match x {
                        rcgen::SanType::DnsName(d) => Some(d.as_str().to_string()),
                        _ => None,
                    })
                    .collect();
                let mut p = rcgen::CertificateParams::default();
                p.subject_alt_names = s;
                p.serial_number = Some(rcgen::SerialNumber::from(vec![1, i as u8]));
                p.distinguished_name.push(rcgen::DnType::CommonName, "v.example");
                let c = p.self_signed(&kp).unwrap();
                Cert { der: c.der().to_vec(), dns, spki: keys[k].spki.clone(), key: k }
            })
            .collect();
        Pools { keys, certs }
    });
}

pub fn md(j: &Json) -> WalletMetadata {
    serde_json::from_value(j.clone()).unwrap()
}

pub fn md_with_algs(algs: &Json) -> WalletMetadata {
    let mut j = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}});
    if !algs.is_null() {
        j["request_object_signing_alg_values_supported"] = algs.clone();
    }
    md(&j)
}
