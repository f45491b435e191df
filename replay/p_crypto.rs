//! C08–C10, C23, C27, C28: signatures, certificates and keys.
use crate::gen::G;
use crate::mock::*;
use crate::p_req::Obj;
use crate::{run, R};
use base64::prelude::*;
use openid4vp::core::authorization_request::verification::verifier::{P256Verifier, Verifier};
use openid4vp::core::authorization_request::verification::{did, x509_hash, x509_san};
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
use openid4vp::verifier::request_signer::{P256Signer, RequestSigner};
use serde_json::{json, Value as Json};
use sha2::{Digest, Sha256};
use ssi_jwk::{JWKResolver, JWK};
use std::borrow::Cow;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use x509_cert::der::{Decode, Encode};
use x509_cert::spki::SubjectPublicKeyInfoRef;
use x509_cert::Certificate;

fn aro(client_id: &Option<String>, nonce: &str) -> AuthorizationRequestObject {
    let mut m = json!({"response_type": "vp_token", "response_mode": "dc_api", "nonce": nonce});
    if let Some(c) = client_id {
        m["client_id"] = json!(c);
    }
    untyped(m.as_object().unwrap()).try_into().unwrap()
}

fn es256(key: usize, payload: &[u8]) -> Vec<u8> {
    use p256::ecdsa::signature::Signer;
    let s: p256::ecdsa::Signature = pools().keys[key].sk.sign(payload);
    s.to_vec()
}

fn es256_ok(key: usize, payload: &[u8], sig: &[u8]) -> bool {
    use p256::ecdsa::signature::Verifier as _;
    match p256::ecdsa::Signature::from_slice(sig) {
        Ok(s) => pools().keys[key].sk.verifying_key().verify(payload, &s).is_ok(),
        Err(_) => false,
    }
}

// ------------------------------------------------------------------ resolver
pub struct Resolver {
    /// what each key id resolves to
    known: Vec<(String, usize)>,
    asked: Mutex<Vec<Option<String>>>,
    /// the key id written in the keys themselves
    kid: Option<String>,
}

fn with_kid(k: &JWK, kid: &Option<String>) -> JWK {
    let mut k = k.clone();
    if kid.is_some() {
        k.key_id = kid.clone();
    }
    k
}

impl JWKResolver for Resolver {
    async fn fetch_public_jwk(&'_ self, key_id: Option<&str>) -> Result<Cow<'_, JWK>, ssi_claims::ProofValidationError> {
        self.asked.lock().unwrap().push(key_id.map(|s| s.to_string()));
        match key_id.and_then(|k| self.known.iter().find(|(a, _)| a == k)) {
            Some((_, i)) => Ok(Cow::Owned(with_kid(&pools().keys[*i].jwk, &self.kid))),
            None => Err(ssi_claims::ProofValidationError::UnknownKey),
        }
    }
}

fn a_did(g: &mut G) -> String {
    let v = g.pick(&["a", "b", "ab", "", "A", "a:b", "a?x=1", "a/p"]).to_string();
    let w = if g.p(15) { g.string().replace('#', "") } else { v };
    format!("did:{}:{w}", g.pick(&["web", "key", "x"]))
}

fn alg_list(g: &mut G, alg: &str) -> Json {
    match g.n(20) {
        0 => Json::Null,
        1 => g.json(2),
        2 => json!([]),
        3 => json!(["ES384", "EdDSA"]),
        4 => json!([g.mutate(alg)]),
        5 => json!(["none", "ES256"]),
        6 => json!(["ES256", "ES384"]),
        _ => {
            let mut v: Vec<String> = g.vec(2, |g| g.pick(&["ES256", "ES384", "none", "EdDSA"]).to_string());
            let i = g.n(v.len() + 1);
            v.insert(i, alg.to_string());
            json!(v)
        }
    }
}

fn supports(list: &Json, alg: &str) -> bool {
    serde_json::from_value::<Vec<String>>(list.clone()).is_ok_and(|v| v.iter().any(|a| a == alg))
}

fn head(g: &mut G) -> Json {
    let mut h = json!({"typ": "oauth-authz-req+jwt"});
    if g.p(75) {
        h["alg"] = json!("ES256");
    } else if g.p(95) {
        h["alg"] = match g.n(6) {
            0 => json!("none"),
            1 => json!("ES384"),
            2 => json!("EdDSA"),
            3 => json!(g.string()),
            4 => if g.p(50) { g.json(1) } else { g.disguise(json!("ES256")) },
            _ => json!("es256"),
        };
    }
    h
}

fn parts(jwt: &str) -> Option<(String, String, String)> {
    let v: Vec<&str> = jwt.splitn(3, '.').collect();
    if v.len() != 3 {
        return None;
    }
    Some((v[0].into(), v[1].into(), v[2].into()))
}

fn header_of(jwt: &str) -> Option<Obj> {
    serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(parts(jwt)?.0).ok()?).ok()
}

/// What is signed and what is sent: nearly always the same text; the payload
/// segment is opaque to a verifier, so it need not be base64.
fn signing_input(g: &mut G, h: &Json, body: &Json) -> (String, String) {
    let hb = b64u(serde_json::to_vec(h).unwrap());
    let seg = b64u(serde_json::to_vec(body).unwrap());
    let other = match g.n(8) {
        0 => format!("{seg}="),
        1 => format!("{seg}=="),
        2 => format!("{seg}\n"),
        3 => format!(" {seg}"),
        4 => String::new(),
        5 => seg.to_lowercase(),
        6 => g.string().replace('.', ""),
        _ => g.mutate(&seg).replace('.', ""),
    };
    let (a, b) = match g.n(24) {
        0 => (other.clone(), other),
        1 => (seg, other),
        2 => (other, seg),
        _ => (seg.clone(), seg),
    };
    (format!("{hb}.{a}"), format!("{hb}.{b}"))
}

pub fn c08(g: &mut G, r: &mut R) {
    let d = a_did(g);
    let frag = g.pick(&["0", "k", "k", "", "k1", "z"]).to_string();
    let kid = match g.n(16) {
        0 => d.clone(),
        1 => format!("{d}#{frag}#x"),
        2 => g.string(),
        3 => format!("{}#{frag}", a_did(g)),
        _ => format!("{d}#{frag}"),
    };
    let client_id = match g.n(16) {
        0 => None,
        1 => Some(d.clone()),
        2 => Some(format!("decentralized_identifier:{}", a_did(g))),
        3 => Some(format!("decentralized_identifier:{kid}")),
        4 => Some(g.mutate(&format!("decentralized_identifier:{d}"))),
        5 => Some(format!("{}:{d}", g.prefix())),
        6 => Some(format!("decentralized_identifier:decentralized_identifier:{d}")),
        _ => Some(format!("decentralized_identifier:{d}")),
    };
    let mut h = head(g);
    if g.p(97) {
        h["kid"] = if g.p(97) {
            json!(kid)
        } else if g.p(50) {
            g.json(1)
        } else {
            g.disguise(json!(kid))
        };
    }
    let alg = h["alg"].as_str().unwrap_or("").to_string();
    let list = alg_list(g, &alg);
    let key = g.n(4);
    let body = json!({"nonce": g.token()});
    let (signing, sent) = signing_input(g, &h, &body);
    let sig = match g.n(10) {
        0 => {
            let mut s = es256(key, signing.as_bytes());
            let i = g.n(s.len());
            s[i] ^= 1;
            s
        }
        1 => es256(key, format!("{signing}x").as_bytes()),
        2 => es256((key + 1) % 4, signing.as_bytes()),
        3 => vec![],
        _ => es256(key, signing.as_bytes()),
    };
    let mut jwt = format!("{sent}.{}", b64u(&sig));
    match g.n(40) {
        0 => jwt = g.string(),
        1 => jwt = signing.clone(),
        2 => jwt = format!("{jwt}.x"),
        3 => jwt = format!("!{jwt}"),
        4 => jwt = format!("{}.{}.{}", b64u("[]"), b64u("{}"), b64u(&sig)),
        _ => {}
    }
    let mut known = vec![(format!("{d}#other"), (key + 1) % 4)];
    match g.n(12) {
        0 => {}
        1 => known.push((kid.clone(), (key + 1) % 4)),
        2 => known.push((d.clone(), key)),
        _ => known.push((kid.clone(), key)),
    }
    let trusted: Option<Vec<String>> = match g.n(8) {
        0 => Some(vec![]),
        1 => Some(vec![kid.clone()]),
        2 => Some(vec![format!("decentralized_identifier:{d}"), format!("{d}x"), d[..d.len() - d.chars().last().map_or(0, |c| c.len_utf8())].to_string()]),
        3 => Some(vec!["did:x:zzz".into(), d.clone()]),
        4 => Some(vec![d.clone(), "did:x:y".into()]),
        _ => None,
    };
    r.note(format!("header {h}, client_id {client_id:?}, wallet algs {list}, trusted {trusted:?}, resolver knows {known:?}, signed with key {key}, signature {}, jwt {jwt}", hex::encode(&sig)));
    let res = Resolver { known: known.clone(), asked: Mutex::new(vec![]), kid: g.opt(15, |g| g.token()) };
    let got = run(did::verify_with_resolver(&md_with_algs(&list), &aro(&client_id, "n"), jwt.clone(), trusted.as_deref(), &res));
    let mut bypass = false;
    let want = (|| {
        let m = header_of(&jwt)?;
        let alg = m.get("alg")?.as_str()?;
        if !supports(&list, alg) {
            return None;
        }
        if alg.contains("none") {
            bypass = true;
            return Some(());
        }
        let kid = m.get("kid")?.as_str()?;
        let (did, _) = kid.split_once('#')?;
        let cid = client_id.as_ref()?;
        let cid = cid.strip_prefix("decentralized_identifier:").unwrap_or(cid);
        if cid != did {
            return None;
        }
        if let Some(t) = &trusted {
            if !t.iter().any(|x| x == did) {
                return None;
            }
        }
        let k = known.iter().find(|(a, _)| a == kid)?.1;
        let (hb, bb, sb) = parts(&jwt)?;
        if alg != "ES256" || !es256_ok(k, format!("{hb}.{bb}").as_bytes(), &BASE64_URL_SAFE_NO_PAD.decode(sb).ok()?) {
            return None;
        }
        let _: Json = serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(bb).ok()?).ok()?;
        Some(())
    })()
    .is_some();
    r.check(got.is_ok() == want, || format!("accepted: {} ({got:?}), expected {want}", got.is_ok()));
    if want && !bypass {
        let a = res.asked.lock().unwrap();
        r.check(!a.is_empty() && a.iter().all(|k| k.as_deref() == h["kid"].as_str()), || format!("resolver asked for {a:?}"));
    }
}

// ------------------------------------------------------------------ x509
thread_local! {
    static SCRIPT: RefCell<(bool, bool)> = const { RefCell::new((true, true)) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

struct Rec(String);
impl Verifier for Rec {
    fn from_spki(spki: SubjectPublicKeyInfoRef<'_>, algorithm: String) -> anyhow::Result<Self> {
        let s = format!("{} {algorithm:?}", hex::encode(spki.to_der()?));
        if SCRIPT.with(|x| x.borrow().0) {
            Ok(Rec(s))
        } else {
            Err(anyhow::anyhow!("key refused"))
        }
    }
    fn verify(&self, payload: &[u8], signature: &[u8]) -> anyhow::Result<()> {
        LOG.with(|l| l.borrow_mut().push(format!("{} over {:?} {}", self.0, String::from_utf8_lossy(payload), hex::encode(signature))));
        if SCRIPT.with(|x| x.borrow().1) {
            Ok(())
        } else {
            Err(anyhow::anyhow!("signature refused"))
        }
    }
}

fn x509_case(g: &mut G, r: &mut R, hash: bool) {
    let p = pools();
    let ci = g.n(p.certs.len());
    let cert = &p.certs[ci];
    let pre = if hash { "x509_hash" } else { "x509_san_dns" };
    let sha = b64u(Sha256::digest(&cert.der));
    let other = (ci + 1 + g.n(p.certs.len() - 1)) % p.certs.len();
    let right = if hash {
        sha.clone()
    } else if !cert.dns.is_empty() && g.p(90) {
        g.pick(&cert.dns)
    } else {
        g.pick(&["v.example", "b.example", "127.0.0.1", "u.example", "https://u.example", "x.w.example", "www.v.example"]).to_string()
    };
    let name = match g.n(14) {
        0 => g.mutate(&right),
        1 if hash => BASE64_URL_SAFE.encode(Sha256::digest(&cert.der)),
        2 if hash => hex::encode(Sha256::digest(&cert.der)),
        3 if hash => BASE64_STANDARD_NO_PAD.encode(Sha256::digest(&cert.der)),
        4 if hash => b64u(Sha256::digest(&p.certs[other].der)),
        1 => "V.EXAMPLE".into(),
        2 => p.certs[other].dns.first().cloned().unwrap_or("v.example".into()),
        3 => format!("{right}."),
        4 => format!("a.{right}"),
        5 => format!("{pre}:{right}"),
        _ => right.clone(),
    };
    let client_id = match g.n(20) {
        0 => None,
        1 => Some(name.clone()),
        2 => Some(format!("{}:{name}", g.prefix())),
        _ => Some(format!("{pre}:{name}")),
    };
    let enc = |der: &[u8], g: &mut G| match g.n(12) {
        0 => BASE64_STANDARD_NO_PAD.encode(der),
        1 => format!("{}!", BASE64_STANDARD.encode(der)),
        2 => b64u(der),
        _ => BASE64_STANDARD.encode(der),
    };
    let mut h = head(g);
    let der0 = if g.p(4) {
        let mut d = cert.der.clone();
        let i = g.n(d.len());
        d[i] ^= 0x20;
        d
    } else {
        cert.der.clone()
    };
    match g.n(24) {
        0 => {}
        1 => h["x5c"] = json!([]),
        2 => h["x5c"] = if g.p(50) { g.json(2) } else { g.disguise(json!([BASE64_STANDARD.encode(&der0)])) },
        3 => h["x5c"] = json!([1]),
        4 => h["x5c"] = json!(BASE64_STANDARD.encode(&der0)),
        5 => h["x5c"] = json!([g.string()]),
        6 => h["x5c"] = json!([BASE64_STANDARD.encode(&der0[..der0.len() - 1])]),
        7 => h["x5c"] = json!([BASE64_STANDARD.encode(&p.certs[other].der), BASE64_STANDARD.encode(&der0)]),
        _ => {
            let mut v = vec![json!(enc(&der0, g))];
            for _ in 0..g.n(3) {
                let i = g.n(p.certs.len());
                v.push(json!(BASE64_STANDARD.encode(&p.certs[i].der)));
            }
            h["x5c"] = json!(v);
        }
    }
    let alg = h["alg"].as_str().unwrap_or("").to_string();
    let list = alg_list(g, &alg);
    let body = json!({"nonce": g.token()});
    let (signing, sent) = signing_input(g, &h, &body);
    let real = g.p(12);
    let sig: Vec<u8> = if real {
        match g.n(6) {
            0 => es256(cert.key, format!("{signing}x").as_bytes()),
            1 => es256((cert.key + 1) % 4, signing.as_bytes()),
            _ => es256(cert.key, signing.as_bytes()),
        }
    } else {
        (0..g.n(70)).map(|_| g.u() as u8).collect()
    };
    let mut jwt = format!("{sent}.{}", b64u(&sig));
    match g.n(40) {
        0 => jwt = g.string(),
        1 => jwt = signing.clone(),
        2 => jwt = format!("{jwt}.x"),
        3 => jwt = format!("!{jwt}"),
        4 => jwt = format!("{jwt}="),
        5 => jwt = format!("{}.{}.{}", b64u("[]"), b64u("{}"), b64u(&sig)),
        _ => {}
    }
    let script = (g.p(94), g.p(85));
    let roots: Option<Vec<Certificate>> = g.opt(25, |g| {
        let i = g.n(p.certs.len());
        vec![Certificate::from_der(&p.certs[i].der).unwrap()]
    });
    r.note(format!(
        "{pre}: client_id {client_id:?}, wallet algs {list}, certificate {ci} (dns {:?}, hash {sha}), verifier {}, roots {}, jwt {jwt}",
        cert.dns,
        if real { "P-256".to_string() } else { format!("scripted {script:?}") },
        roots.is_some()
    ));
    SCRIPT.with(|s| *s.borrow_mut() = script);
    LOG.with(|l| l.borrow_mut().clear());
    let (m, o) = (md_with_algs(&list), aro(&client_id, "n"));
    let got = match (hash, real) {
        (true, true) => x509_hash::validate::<P256Verifier>(&m, &o, jwt.clone(), roots.as_deref()),
        (true, false) => x509_hash::validate::<Rec>(&m, &o, jwt.clone(), roots.as_deref()),
        (false, true) => x509_san::validate::<P256Verifier>(&m, &o, jwt.clone(), roots.as_deref()),
        (false, false) => x509_san::validate::<Rec>(&m, &o, jwt.clone(), roots.as_deref()),
    };
    let mut due = String::new();
    let want = (|| {
        let m = header_of(&jwt)?;
        let alg = m.get("alg")?.as_str()?;
        if !supports(&list, alg) {
            return None;
        }
        let x = m.get("x5c")?.as_array()?.first()?.as_str()?;
        let der = BASE64_STANDARD_NO_PAD.decode(x.trim_end_matches('=')).ok()?;
        let parsed = Certificate::from_der(&der).ok()?;
        let cid = client_id.as_ref()?;
        let cid = cid.strip_prefix(&format!("{pre}:")).unwrap_or(cid);
        if hash {
            if cid != b64u(Sha256::digest(&der)) {
                return None;
            }
        } else {
            let dns: Vec<String> = match p.certs.iter().find(|c| c.der == der) {
                Some(c) => c.dns.clone(),
                None => {
                    use x509_cert::ext::pkix::{name::GeneralName, SubjectAltName};
                    parsed
                        .tbs_certificate
                        .filter::<SubjectAltName>()
                        .filter_map(|x| x.ok())
                        .flat_map(|(_, s)| s.0)
                        .filter_map(|n| if let GeneralName::DnsName(d) = n { Some(d.to_string()) } else { None })
                        .collect()
                }
            };
            if !dns.iter().any(|d| d == cid) {
                return None;
            }
        }
        let spki = parsed.tbs_certificate.subject_public_key_info.to_der().ok()?;
        let (hb, bb, sb) = parts(&jwt)?;
        let sig = BASE64_URL_SAFE_NO_PAD.decode(sb).ok()?;
        let payload = format!("{hb}.{bb}");
        if real {
            if alg != "ES256" {
                return None;
            }
            let k = p.keys.iter().position(|k| k.spki == spki)?;
            es256_ok(k, payload.as_bytes(), &sig).then_some(())
        } else {
            due = format!("{} {alg:?} over {payload:?} {}", hex::encode(spki), hex::encode(sig));
            (script.0 && script.1).then_some(())
        }
    })()
    .is_some();
    r.check(got.is_ok() == want, || format!("accepted: {} ({got:?}), expected {want}", got.is_ok()));
    if got.is_ok() && !real {
        let l = LOG.with(|l| l.borrow().clone());
        r.check(l.iter().any(|x| *x == due), || format!("signature checks made: {l:?}, expected {due}"));
    }
}

pub fn c09(g: &mut G, r: &mut R) {
    x509_case(g, r, false)
}

pub fn c10(g: &mut G, r: &mut R) {
    x509_case(g, r, true)
}

// ------------------------------------------------------------------ clients
pub fn c27(g: &mut G, r: &mut R) {
    let p = pools();
    let alg = g.opt(94, |g| if g.p(70) { "ES256".to_string() } else { g.string() });
    let key = g.opt(94, |g| g.n(4));
    let kid = g.opt(25, |g| g.token());
    let signer = Arc::new(TestSigner { alg: alg.clone(), jwk: key.map(|k| with_kid(&p.keys[k].jwk, &kid)), log: Mutex::new(vec![]) });
    let kind = g.n(3);
    let chain: Vec<usize> = g.vec(3, |g| g.n(p.certs.len()));
    let certs: Vec<Certificate> = chain.iter().map(|i| Certificate::from_der(&p.certs[*i].der).unwrap()).collect();
    let d = a_did(g);
    let vm = match g.n(10) {
        0 => d.clone(),
        1 => g.string().replace('#', ""),
        2 => format!("{d}#"),
        _ => format!("{d}#{}", g.pick(&["0", "k", "k-1"])),
    };
    let rk = match key {
        Some(k) if g.p(85) => k,
        _ => g.n(4),
    };
    let known = if g.p(94) { vec![(vm.clone(), rk)] } else { vec![(d.clone(), rk)] };
    let mut m = g.request_params();
    for (k, v) in [("response_mode", json!("dc_api")), ("response_type", json!("vp_token")), ("nonce", json!(g.string()))] {
        m.insert(k.into(), v);
    }
    m.remove("response_uri");
    m.remove("redirect_uri");
    if m.get("client_id").is_some_and(|c| !c.is_string()) {
        m.remove("client_id");
    }
    r.note(format!("{} client, signer alg {alg:?} key {key:?} kid {kid:?}, vm {vm:?}, resolver knows {known:?}, chain {chain:?}, request {}", ["DID", "SAN", "hash"][kind], Json::Object(m.clone())));
    let Ok(o) = AuthorizationRequestObject::try_from(untyped(&m)) else { return };
    let (got, want): (anyhow::Result<Box<dyn Client>>, Option<String>) = match kind {
        0 => (
            run(DIDClient::new(vm.clone(), signer.clone(), Resolver { known: known.clone(), asked: Mutex::new(vec![]), kid: kid.clone() })).map(|c| Box::new(c) as Box<dyn Client>),
            (|| {
                let (d, _) = vm.split_once('#')?;
                let k = known.iter().find(|(a, _)| *a == vm)?.1;
                if Some(k) != key {
                    return None;
                }
                Some(format!("decentralized_identifier:{d}"))
            })(),
        ),
        1 => (
            X509SanDnsClient::new(certs.clone(), signer.clone()).map(|c| Box::new(c) as Box<dyn Client>),
            chain.first().and_then(|i| p.certs[*i].dns.first()).map(|d| format!("x509_san_dns:{d}")),
        ),
        _ => (
            X509HashClient::new(certs.clone(), signer.clone()).map(|c| Box::new(c) as Box<dyn Client>),
            chain.first().map(|i| format!("x509_hash:{}", b64u(Sha256::digest(&p.certs[*i].der)))),
        ),
    };
    r.check(got.is_ok() == want.is_some(), || format!("client created: {:?}, expected {want:?}", got.as_ref().map(|c| c.id().0.clone())));
    let (Ok(c), Some(id)) = (got, want) else { return };
    r.eq(c.id().0.clone(), id.clone(), "client_id");
    r.eq(c.prefix().0, id.split_once(':').unwrap().0.to_string(), "prefix");
    let jwt = run(c.generate_request_object_jwt(&o));
    match (jwt, alg) {
        (Err(e), Some(_)) => r.check(false, || format!("no JWT: {e:#}")),
        (Ok(j), None) => r.check(false, || format!("a JWT although the signer has no alg: {j}")),
        (Err(_), None) => {}
        (Ok(j), Some(alg)) => {
            let v: Vec<&str> = j.split('.').collect();
            r.eq(v.len(), 3, "parts of the JWT");
            if v.len() != 3 {
                return;
            }
            let mut h = json!({"alg": alg, "typ": "oauth-authz-req+jwt"});
            if kind == 0 {
                h["kid"] = json!(vm);
            } else {
                h["x5c"] = json!(chain.iter().map(|i| BASE64_STANDARD.encode(&p.certs[*i].der)).collect::<Vec<_>>());
            }
            let dec = |s: &str| BASE64_URL_SAFE_NO_PAD.decode(s).ok().and_then(|b| serde_json::from_slice::<Json>(&b).ok());
            r.eq(dec(v[0]), Some(h), "header");
            r.eq(dec(v[1]), Some(Json::Object(m)), "body");
            let payload = format!("{}.{}", v[0], v[1]);
            r.eq(v[2].to_string(), b64u(test_sig(payload.as_bytes())), "signature");
        }
    }
}

pub fn c28(g: &mut G, r: &mut R) {
    use ssi_claims::jws::JwsSigner;
    let p = pools();
    let k = g.n(4);
    let payload: Vec<u8> = (0..g.n(80)).map(|_| g.u() as u8).collect();
    let alg = if g.p(75) { "ES256".to_string() } else { g.pick(&["ES256K", "es256", "ES384", "none", "", "EdDSA", "ES256 ", "RS256"]).to_string() };
    let other = (k + 1 + g.n(3)) % 4;
    let what = g.n(11);
    r.note(format!(
        "key {k}, payload {}, verifier for {alg:?}, {}",
        hex::encode(&payload),
        ["the signature", "the signature", "another payload", "another key", "altered signature", "truncated signature", "bytes for signature", "another kind of key", "the signature in DER", "the signature with the other s", "the signature with more around it"][what]
    ));
    let s = match P256Signer::new(p.keys[k].sk.clone()) {
        Ok(s) => s,
        Err(e) => return r.check(false, || format!("no signer: {e}")),
    };
    r.eq(s.jwk().clone(), p.keys[k].jwk.clone(), "jwk");
    r.eq(RequestSigner::jwk(&s).ok(), Some(p.keys[k].jwk.clone()), "jwk()");
    r.eq(s.alg().ok(), Some("ES256".to_string()), "alg()");
    let info = run(s.fetch_info());
    r.check(info.as_ref().is_ok_and(|i| i.algorithm == ssi_jwk::Algorithm::ES256 && i.key_id == p.keys[k].jwk.key_id), || "fetch_info".into());
    let mut sig = match g.n(3) {
        0 => run(RequestSigner::sign(&s, &payload)),
        1 => run(s.try_sign(&payload)).unwrap_or_default(),
        _ => run(s.sign_bytes(&payload)).unwrap_or_default(),
    };
    r.check(es256_ok(k, &payload, &sig), || "the signature is not one of the payload under the key".into());
    let mut data = payload.clone();
    let mut spki = p.keys[k].spki.clone();
    match what {
        0 | 1 => {}
        2 => {
            if data.is_empty() || g.p(30) {
                data.push(0);
            } else if g.p(30) {
                data.pop();
            } else {
                let i = g.n(data.len());
                data[i] ^= 1 << g.n(8);
            }
        }
        3 => spki = p.keys[other].spki.clone(),
        4 => {
            let i = g.n(sig.len());
            sig[i] ^= 1 << g.n(8);
        }
        5 => {
            let n = g.n(sig.len());
            sig.truncate(n);
        }
        6 => sig = (0..g.n(70)).map(|_| g.u() as u8).collect(),
        8 => {
            if let Ok(s) = p256::ecdsa::Signature::from_slice(&sig) {
                sig = s.to_der().as_bytes().to_vec();
            }
        }
        9 => {
            if let Ok(s) = p256::ecdsa::Signature::from_slice(&sig) {
                let (a, b) = s.split_scalars();
                if let Ok(s) = p256::ecdsa::Signature::from_scalars(a, -b) {
                    sig = s.to_bytes().to_vec();
                }
            }
        }
        10 => {
            let more: Vec<u8> = (0..1 + g.n(3)).map(|_| if g.p(50) { 0 } else { g.u() as u8 }).collect();
            sig = match g.n(4) {
                0 => [more, sig].concat(),
                1 => [sig.clone(), sig].concat(),
                2 if sig.len() == 64 => [sig[..32].to_vec(), more, sig[32..].to_vec()].concat(),
                _ => [sig, more].concat(),
            };
        }
        _ => {
            // Ed25519 (RFC 8410)
            spki = hex::decode("302a300506032b656e032100").unwrap_or_default();
            spki.extend((0..32).map(|_| g.u() as u8));
        }
    }
    let Ok(key) = SubjectPublicKeyInfoRef::from_der(&spki) else { return };
    let v = P256Verifier::from_spki(key, alg.clone());
    let able = alg == "ES256" && what != 7;
    r.check(v.is_ok() == able, || format!("verifier built: {}, expected {able}", v.is_ok()));
    if let (Ok(v), true) = (v, able) {
        let vk = if what == 3 { other } else { k };
        r.eq(v.verify(&data, &sig).is_ok(), es256_ok(vk, &data, &sig), "signature accepted");
        if what < 2 {
            r.check(v.verify(&data, &sig).is_ok(), || "the signer's signature is refused".into());
        }
    }
}

// ------------------------------------------------------------------ encrypted responses
#[cfg(jwe)]
fn suitable(k: &Obj) -> bool {
    let s = |n: &str| k.get(n).and_then(|v| v.as_str());
    s("alg") == Some("ECDH-ES") && s("crv") == Some("P-256") && matches!(s("use"), None | Some("enc"))
}

#[cfg(jwe)]
fn open(jwe: &str) -> Option<(Json, Json, Json)> {
    let v: Vec<&str> = jwe.split('.').collect();
    let d = |s: &str| serde_json::from_slice::<Json>(&BASE64_URL_SAFE_NO_PAD.decode(s).ok()?).ok();
    if v.len() != 5 {
        return None;
    }
    Some((d(v[0])?, d(v[1])?, d(v[3])?))
}

#[cfg(jwe)]
pub fn c23(g: &mut G, r: &mut R) {
    use openid4vp::core::jwe::{build_encrypted_response, find_encryption_jwk};
    use openid4vp::core::response::AuthorizationResponse;
    let cm = g.client_metadata();
    let keys: Option<Vec<Obj>> = cm.get("jwks").and_then(|j| j.get("keys")).and_then(|k| serde_json::from_value(k.clone()).ok());
    let token = crate::p_data::vp_token(g);
    let state = g.opt(50, |g| openid4vp::core::authorization_request::parameters::State(g.string()));
    r.note(format!("client_metadata {cm}, vp_token {}, state {state:?}", serde_json::to_string(&token).unwrap()));
    let chosen = keys.as_ref().and_then(|k| k.iter().find(|k| suitable(k))).filter(|k| k.get("kty").is_some_and(|t| t.is_string()));
    if let Some(ks) = &keys {
        let got = find_encryption_jwk(ks.iter());
        r.check(got.is_ok() == chosen.is_some(), || format!("key found: {got:?}, expected {chosen:?}"));
        if let (Ok(i), Some(k)) = (got, chosen) {
            r.eq(serde_json::to_value(&i.jwk).ok(), Some(Json::Object(k.clone())), "the key");
            r.eq(i.alg, "ECDH-ES".to_string(), "its alg");
            r.eq(i.kid, k.get("kid").and_then(|v| v.as_str()).map(|s| s.to_string()), "its kid");
        }
    }
    let mut m = json!({"response_type": "vp_token", "response_mode": "dc_api.jwt", "nonce": "n", "client_id": "x"});
    m["client_metadata"] = cm.clone();
    let Ok(o) = AuthorizationRequestObject::try_from(untyped(m.as_object().unwrap())) else { return };
    let got = build_encrypted_response(&o, &token, state.as_ref());
    let enc = match cm.get("encrypted_response_enc_values_supported") {
        None => Some("A128GCM".to_string()),
        Some(j) => serde_json::from_value::<Vec<String>>(j.clone()).ok().map(|v| v.first().cloned().unwrap_or("A128GCM".into())),
    };
    let want = chosen.is_some() && enc.is_some() && cm.is_object();
    r.check(got.is_ok() == want, || format!("encrypted: {got:?}, expected {want}"));
    let (Ok(a), true) = (got, want) else { return };
    let AuthorizationResponse::Jwt(j) = a else {
        return r.check(false, || "not an encrypted response".into());
    };
    let Some((h, k, b)) = open(&j.response) else {
        return r.check(false, || format!("not a JWE: {}", j.response));
    };
    let key = chosen.unwrap();
    r.eq(k, Json::Object(key.clone()), "the key encrypted to");
    let mut wh = json!({"typ": "JWT", "alg": "ECDH-ES", "enc": enc.unwrap()});
    if let Some(Json::String(kid)) = key.get("kid") {
        wh["kid"] = json!(kid);
    }
    r.eq(h, wh, "the JWE header");
    let mut wb = json!({ "vp_token": serde_json::to_value(&token).unwrap() });
    if let Some(s) = state {
        wb["state"] = json!(s.0);
    }
    r.eq(b, wb, "the payload");
}

#[cfg(jwe)]
pub fn c23_builder(g: &mut G, r: &mut R) {
    use openid4vp::core::jwe::JweBuilder;
    let payload = g.opt(92, |g| if g.p(88) { Json::Object(g.obj(2)) } else { g.json(1) });
    let key = g.opt(92, |g| {
        let mut k = g.jwk();
        k.insert("kty".into(), json!("EC"));
        k.insert("crv".into(), json!("P-256"));
        Json::Object(k)
    });
    let alg = g.opt(92, |g| if g.p(85) { "ECDH-ES".to_string() } else { g.string() });
    let enc = g.opt(50, |g| g.string());
    let kid = g.opt(50, |g| g.string());
    r.note(format!("JWE of {payload:?} for {key:?}, alg {alg:?}, enc {enc:?}, kid {kid:?}"));
    let mut b = JweBuilder::new();
    let mut steps = vec![0, 1, 2, 3, 4];
    for i in 0..4 {
        let j = i + g.n(5 - i);
        steps.swap(i, j);
    }
    for s in steps {
        b = match s {
            0 => payload.iter().fold(b, |b, p| b.payload(p.clone())),
            1 => match &key {
                Some(k) => match b.recipient_key_json(k) {
                    Ok(b) => b,
                    Err(e) => return r.check(false, || format!("key refused: {e}")),
                },
                None => b,
            },
            2 => alg.iter().fold(b, |b, a| b.alg(a)),
            3 => enc.iter().fold(b, |b, a| b.enc(a)),
            _ => kid.iter().fold(b, |b, a| b.kid(a)),
        };
    }
    let got = b.build();
    let want = payload.as_ref().is_some_and(|p| p.is_object()) && key.is_some() && alg.as_deref() == Some("ECDH-ES");
    r.check(got.is_ok() == want, || format!("built: {got:?}, expected {want}"));
    let (Ok(j), true) = (got, want) else { return };
    let Some((h, k, b)) = open(&j) else {
        return r.check(false, || format!("not a JWE: {j}"));
    };
    let key = key.unwrap();
    r.eq(b, payload.unwrap(), "the payload");
    let mut wh = json!({"typ": "JWT", "alg": "ECDH-ES", "enc": enc.unwrap_or("A128GCM".into())});
    if let Some(x) = kid.or(key.get("kid").and_then(|v| v.as_str()).map(|s| s.to_string())) {
        wh["kid"] = json!(x);
    }
    r.eq(k, key, "the key");
    r.eq(h, wh, "the header");
}
