//! C01–C07, C17, C29: the wallet's handling of requests.
use crate::gen::{G, PREFIXES};
use crate::mock::*;
use crate::{run, R};
use openid4vp::core::authorization_request::parameters::{ResponseMode, ResponseType, State};
use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection};
use openid4vp::core::response::parameters::VpToken;
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::wallet::Wallet;
use serde_json::{json, Map, Value as Json};
use url::Url;

pub type Obj = Map<String, Json>;

// ------------------------------------------------------------------ what should happen
pub struct RefAro {
    pub client_id: Option<String>,
    pub mode: String,
    pub rtype: String,
    pub nonce: String,
    pub uri: Option<Url>,
}

pub fn ref_aro(m: &Obj) -> Option<RefAro> {
    let text = |k: &str| match m.get(k) {
        None => Ok(None),
        Some(Json::String(s)) => Ok(Some(s.clone())),
        Some(_) => Err(()),
    };
    let client_id = text("client_id").ok()?;
    let mode = text("response_mode").ok()?.unwrap_or("direct_post".into());
    let uri = match mode.as_str() {
        "direct_post" | "direct_post.jwt" => {
            if m.contains_key("redirect_uri") {
                return None;
            }
            Some(Url::parse(&text("response_uri").ok()??).ok()?)
        }
        "dc_api" | "dc_api.jwt" => {
            if m.contains_key("redirect_uri") || m.contains_key("response_uri") {
                return None;
            }
            None
        }
        _ => return None,
    };
    Some(RefAro { client_id, mode, rtype: text("response_type").ok()??, nonce: text("nonce").ok()??, uri })
}

/// Is the JWT's header acceptable?
pub fn ref_typ(jwt: &str, outer: &Option<String>) -> bool {
    use base64::prelude::*;
    let Ok((h, _, _)) = ssi_claims::jws::split_jws(jwt) else { return false };
    let Ok(b) = BASE64_URL_SAFE_NO_PAD.decode(h) else { return false };
    let Ok(m) = serde_json::from_slice::<Obj>(&b) else { return false };
    if outer.as_ref().is_some_and(|c| c.starts_with("redirect_uri:")) {
        return true;
    }
    m.get("typ") == Some(&json!("oauth-authz-req+jwt"))
}

pub fn ref_decode(jwt: &str) -> Option<Obj> {
    ssi_claims::jwt::decode_unverified::<Obj>(jwt).ok()
}

/// -> what resolving gives, and the GET that is due
pub fn ref_resolve(outer: &Option<String>, ind: &RequestIndirection, reply: &Option<(u16, Vec<u8>)>) -> (Option<(Obj, Option<String>)>, Option<String>) {
    let signed = |jwt: &str| {
        if !ref_typ(jwt, outer) {
            return None;
        }
        let m = ref_decode(jwt)?;
        ref_aro(&m)?;
        Some((m, Some(jwt.to_string())))
    };
    match ind {
        RequestIndirection::ByValue { request } => (signed(request), None),
        RequestIndirection::ByReference { request_uri } => {
            let Ok(u) = request_uri.as_str().parse::<http::Uri>() else { return (None, None) };
            let r = reply.as_ref().and_then(|(s, b)| {
                if !(200..300).contains(s) {
                    return None;
                }
                signed(std::str::from_utf8(b).ok()?)
            });
            (r, Some(u.to_string()))
        }
        RequestIndirection::Direct(o) => {
            let Json::Object(mut m) = Json::from(o.clone()) else { unreachable!() };
            if let Some(c) = outer {
                m.insert("client_id".into(), json!(c));
            }
            (ref_aro(&m).map(|_| (m, None)), None)
        }
    }
}

fn str_list(j: &Json) -> Option<Vec<String>> {
    j.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()
}

pub fn prefix_of(client_id: &Option<String>) -> Option<String> {
    client_id.as_ref()?.split_once(':').map(|(a, _)| a.to_string())
}

/// Can the wallet serve the request?
pub fn ref_gate(md: &Json, o: &Obj) -> bool {
    let a = match ref_aro(o) {
        Some(a) => a,
        None => return false,
    };
    if let Some(p) = prefix_of(&a.client_id) {
        let sup = match md.get("client_id_prefixes_supported") {
            None => vec!["pre-registered".to_string()],
            Some(j) => match str_list(j) {
                Some(v) => v,
                None => return false,
            },
        };
        if !sup.contains(&p) {
            return false;
        }
    }
    let cm = match o.get("client_metadata") {
        None => Obj::new(),
        Some(Json::Object(m)) => m.clone(),
        Some(_) => return false,
    };
    let mode = match o.get("response_mode") {
        Some(Json::String(s)) => s.as_str(),
        _ => return false,
    };
    match mode {
        "direct_post" | "dc_api" => return true,
        "direct_post.jwt" | "dc_api.jwt" => {}
        _ => return false,
    }
    let Some(Json::Object(jwks)) = cm.get("jwks") else { return false };
    let Some(Json::Array(keys)) = jwks.get("keys") else { return false };
    if keys.iter().any(|k| !k.is_object()) {
        return false;
    }
    let algs: Vec<String> = keys
        .iter()
        .filter(|k| k.get("use") == Some(&json!("enc")))
        .filter_map(|k| k.get("alg").and_then(|a| a.as_str()).map(|s| s.to_string()))
        .collect();
    if algs.is_empty() {
        return false;
    }
    if let Some(j) = md.get("authorization_encryption_alg_values_supported") {
        match str_list(j) {
            Some(v) if algs.iter().any(|a| v.contains(a)) => {}
            _ => return false,
        }
    }
    let encs = match cm.get("encrypted_response_enc_values_supported") {
        None => vec!["A128GCM".to_string()],
        Some(j) => match str_list(j) {
            Some(v) => v,
            None => return false,
        },
    };
    if let Some(j) = md.get("authorization_encryption_enc_values_supported") {
        match str_list(j) {
            Some(v) if encs.iter().any(|a| v.contains(a)) => {}
            _ => return false,
        }
    }
    true
}

// ------------------------------------------------------------------ requests
pub struct Case {
    pub outer: Option<String>,
    pub ind: RequestIndirection,
    pub reply: Option<(u16, Vec<u8>)>,
    pub after: Vec<u8>,
    pub md: Json,
}

pub fn header(g: &mut G) -> Json {
    let mut h = json!({"alg": "ES256"});
    match g.n(20) {
        0 => {
            if g.p(40) {
                h[g.pick(&["Typ", "TYP", "cty", "type", "typ "])] = json!("oauth-authz-req+jwt");
            }
        }
        1 => h["typ"] = if g.p(50) { g.json(1) } else { g.disguise(json!("oauth-authz-req+jwt")) },
        2 => {
            let s = "oauth-authz-req+jwt";
            h["typ"] = json!(g.mutate(s));
        }
        3 => h["typ"] = json!(g.pick(&["JWT", "jwt", "application/oauth-authz-req+jwt", "OAUTH-AUTHZ-REQ+JWT", "oauth-authz-req"])),
        _ => h["typ"] = json!("oauth-authz-req+jwt"),
    }
    if g.p(20) {
        h["kid"] = json!(g.string());
    }
    if g.p(12) {
        h["alg"] = json!(g.pick(&["none", "None", "ES256", "es256", "RS256", "EdDSA", "HS256", "ES256K", "ES384", ""]));
    }
    if g.p(12) {
        let k = g.pick(&["cty", "crit", "jku", "jwk", "x5c", "x5u", "x5t", "b64", "iss", "client_id", "trust_chain", "jwt", "exp"]);
        h[k] = g.json(1);
    }
    h
}

/// Signature bytes of any length, the empty one included.
pub fn sig_bytes(g: &mut G) -> Vec<u8> {
    match g.n(8) {
        0 => vec![],
        1 => vec![0; 64],
        2 => vec![0xff; g.n(5)],
        3 => (0..64).map(|_| g.n(256) as u8).collect(),
        4 => (0..g.n(80)).map(|_| g.n(256) as u8).collect(),
        _ => b"sig".to_vec(),
    }
}

pub fn signed(g: &mut G, params: &Obj) -> String {
    let h = header(g);
    let sig = sig_bytes(g);
    let mut body = params.clone();
    if g.p(15) {
        let k = g.pick(&["iss", "aud", "exp", "iat", "nbf", "jti", "sub", "request", "request_uri", "wallet_nonce", "scope", "transaction_data"]);
        let j = g.json(1);
        body.insert(k.to_string(), j);
    }
    let mut s = jwt(&h, &Json::Object(body), &sig);
    if g.p(4) {
        s = g.mutate(&s);
    }
    if g.p(2) {
        s = g.string();
    }
    if g.p(5) {
        s = decorate(g, &s);
    }
    s
}

/// Text around or inside a token that a lenient reader might drop.
pub fn decorate(g: &mut G, s: &str) -> String {
    match g.n(10) {
        0 => format!("{s}\n"),
        1 => format!("{s}\r\n"),
        2 => format!("{s} "),
        3 => format!(" {s}"),
        4 => format!("\n{s}"),
        5 => format!("\u{feff}{s}"),
        6 => format!("\"{s}\""),
        7 => format!("{s}="),
        8 => format!("{s}."),
        _ => s.replace('.', ".\n"),
    }
}

pub fn params(g: &mut G) -> Obj {
    let mut m = g.request_params();
    if g.p(55) || m["response_mode"].as_str().is_some_and(|s| s.ends_with(".jwt")) {
        let c = g.client_metadata();
        m.insert("client_metadata".into(), c);
    }
    match g.n(40) {
        0 => {
            m.remove("response_mode");
        }
        1 => {
            m.remove("nonce");
        }
        2 => {
            let u = g.url_text();
            m.insert("redirect_uri".into(), json!(u));
        }
        3 => {
            let j = g.json(1);
            let k = g.pick(&["client_id", "nonce", "response_type", "response_mode", "response_uri", "redirect_uri"]);
            m.insert(k.to_string(), j);
        }
        4 | 5 => coincide(g, &mut m),
        6 => {
            let have: Vec<String> = m.keys().cloned().collect();
            if !have.is_empty() {
                let k = g.pick(&have);
                let v = m[&k].clone();
                m.insert(k, g.disguise(v));
            }
        }
        _ => {}
    }
    m
}

/// Two parameters with the same value.
pub fn coincide(g: &mut G, m: &mut Obj) {
    let have: Vec<String> = m.keys().cloned().collect();
    if have.is_empty() {
        return;
    }
    let from = if m.contains_key("response_uri") && g.p(50) { "response_uri".to_string() } else { g.pick(&have) };
    let to = g.pick(&["client_id", "nonce", "response_type", "response_mode", "response_uri", "redirect_uri", "redirect_uri", "state"]);
    let mut v = m[&from].clone();
    if let (true, Some(s)) = (to == "client_id" && g.p(50), v.as_str()) {
        v = json!(format!("redirect_uri:{s}"));
    }
    m.insert(to.to_string(), v);
}

pub fn case(g: &mut G) -> Case {
    let mut m = params(g);
    let inner = m.get("client_id").and_then(|c| c.as_str()).map(|s| s.to_string());
    let mut outer = match g.n(10) {
        0 => None,
        1 => Some(g.client_id()),
        2 => inner.clone().map(|s| g.mutate(&s)),
        _ => inner.clone(),
    };
    let mut md = g.wallet_metadata_json("openid4vp:");
    if let (Some(a), Some((p, _)), true) = (md["client_id_prefixes_supported"].as_array_mut(), inner.as_ref().and_then(|c| c.split_once(':')), g.p(40)) {
        a.push(json!(p));
    }
    let mut reply = Some((200u16, vec![]));
    let mut after = vec![];
    let ind = match g.n(10) {
        0..=3 => RequestIndirection::ByValue { request: signed(g, &m) },
        4..=7 => {
            let j = signed(g, &m);
            let mut b = j.into_bytes();
            if g.p(3) {
                b.push(0xff);
            }
            let st = if g.p(85) { 200 } else { if g.p(70) { g.pick(&[100u16, 199, 201, 202, 203, 204, 205, 206, 226, 299, 300, 302, 303, 304, 307, 400, 401, 404, 429, 500, 503]) } else { 100 + g.n(500) as u16 } };
            after = b.clone();
            reply = if g.p(4) { None } else { Some((st, b)) };
            RequestIndirection::ByReference { request_uri: g.url() }
        }
        _ => {
            if g.p(50) {
                m.remove("client_id");
            }
            if g.p(70) && outer.is_none() {
                outer = Some(g.client_id());
            }
            RequestIndirection::Direct(untyped(&m))
        }
    };
    Case { outer, ind, reply, after, md }
}

fn describe(c: &Case) -> String {
    let ind = match &c.ind {
        RequestIndirection::ByValue { request } => format!("by value {}", readable(request)),
        RequestIndirection::ByReference { request_uri } => format!(
            "by reference {request_uri} reply {:?}",
            c.reply.as_ref().map(|(s, b)| (s, String::from_utf8(b.clone()).map(|t| readable(&t)).unwrap_or("not UTF-8".into())))
        ),
        RequestIndirection::Direct(o) => format!("direct {}", Json::from(o.clone())),
    };
    format!("outer client_id {:?}, {ind}, wallet {}", c.outer, c.md)
}

fn readable(jwt: &str) -> String {
    use base64::prelude::*;
    let ps: Vec<String> = jwt
        .split('.')
        .take(2)
        .map(|p| BASE64_URL_SAFE_NO_PAD.decode(p).ok().and_then(|b| String::from_utf8(b).ok()).unwrap_or(p.to_string()))
        .collect();
    format!("JWT[{}]", ps.join(" . "))
}

fn request(c: &Case) -> AuthorizationRequest {
    AuthorizationRequest { client_id: c.outer.clone(), request_indirection: c.ind.clone() }
}

fn accepts(g: &mut G) -> Vec<String> {
    let all: Vec<String> = PREFIXES.iter().map(|s| s.to_string()).chain(["other".to_string()]).collect();
    if g.p(70) {
        all
    } else {
        all.into_iter().filter(|_| g.p(50)).collect()
    }
}

fn routine_of(client_id: &Option<String>) -> Option<(String, Option<String>)> {
    match prefix_of(client_id) {
        None => Some(("pre-registered".into(), None)),
        Some(p) => match p.as_str() {
            "decentralized_identifier" | "openid_federation" | "redirect_uri" | "verifier_attestation" | "x509_san_dns" | "x509_hash" => Some((p, None)),
            "origin" => None,
            _ => Some(("other".into(), Some(p))),
        },
    }
}

pub fn c01(g: &mut G, r: &mut R) {
    let c = case(g);
    let acc = accepts(g);
    r.note(format!("{} accepting {acc:?}", describe(&c)));
    let w = W::new(md(&c.md), Http::new(c.reply.clone()).then(&c.after), acc);
    let got = run(request(&c).validate(&w));
    let (res, _) = ref_resolve(&c.outer, &c.ind, &c.reply);
    let asked = w.asked();
    let want = match &res {
        Some((m, j)) if ref_gate(&c.md, m) => match routine_of(&ref_aro(m).unwrap().client_id) {
            Some((routine, prefix)) => vec![Asked { routine, prefix, object: Json::Object(m.clone()), jwt: j.clone() }],
            None => vec![],
        },
        _ => vec![],
    };
    if r.prop == "C01" {
        // whether the request may be asked about at all is C02's and C05's concern
        if !want.is_empty() || res.as_ref().is_some_and(|(m, _)| routine_of(&ref_aro(m).unwrap().client_id).is_none()) {
            r.check(asked == want, || format!("verification routines asked: {asked:?}, expected {want:?}"));
        }
        if let Ok(o) = &got {
            r.check(
                asked.len() == 1 && w.accept.contains(&asked[0].routine) && params_of(o) == asked[0].object,
                || format!("accepted, with routines asked {asked:?}"),
            );
        }
    }
}

pub fn c01_bare(g: &mut G, r: &mut R) {
    let c = case(g);
    r.note(format!("{} by a wallet without routines", describe(&c)));
    let w = Bare { md: md(&c.md), http: Http::new(c.reply.clone()).then(&c.after) };
    let got = run(request(&c).validate(&w));
    r.check(got.is_err(), || "accepted by a wallet that implements no verification routine".into());
}

pub fn c02(g: &mut G, r: &mut R) {
    let mut c = case(g);
    if g.p(50) {
        // encrypted modes with everything else in order
        let mut m = g.request_params();
        m.insert("client_id".into(), json!("x509_hash:abc"));
        let mode = g.pick(&["direct_post.jwt", "dc_api.jwt", "dc_api.jwt", "direct_post", "dc_api"]);
        m.insert("response_mode".into(), json!(mode));
        m.remove("response_uri");
        m.remove("redirect_uri");
        if mode.starts_with("direct") {
            m.insert("response_uri".into(), json!("https://v.example/r"));
        }
        let cm = g.client_metadata();
        if g.p(95) {
            m.insert("client_metadata".into(), cm);
        }
        c.outer = Some("x509_hash:abc".into());
        c.ind = RequestIndirection::Direct(untyped(&m));
        if g.p(80) {
            c.md["client_id_prefixes_supported"] = json!(["x509_hash"]);
        }
    }
    r.note(describe(&c));
    let w = W::new(md(&c.md), Http::new(c.reply.clone()).then(&c.after), accepts(g));
    let got = run(request(&c).validate(&w));
    let (res, _) = ref_resolve(&c.outer, &c.ind, &c.reply);
    let asked = !w.asked().is_empty();
    if let Some((m, _)) = res {
        let ok = ref_gate(&c.md, &m);
        if ok && routine_of(&ref_aro(&m).unwrap().client_id).is_none() {
            return;
        }
        r.check(asked == ok, || format!("passed on to verification: {asked}, expected {ok}"));
        r.check(ok || got.is_err(), || "accepted although the wallet cannot serve it".into());
    }
}

pub fn c03(g: &mut G, r: &mut R) {
    let m = g.request_params();
    let h = match g.n(10) {
        0 => Json::Object(g.obj(1)),
        1 => g.json(1),
        _ => header(g),
    };
    let sig = sig_bytes(g);
    let mut j = jwt(&h, &Json::Object(m), &sig);
    if g.p(10) {
        // a header part that is not plain base64url JSON
        let rest = j.split_once('.').unwrap().1.to_string();
        let hb = serde_json::to_vec(&h).unwrap();
        use base64::prelude::*;
        let hd = match g.n(5) {
            0 => BASE64_STANDARD.encode(&hb),
            1 => BASE64_URL_SAFE.encode(&hb),
            2 => g.string(),
            3 => b64u(b"{\"typ\":\"oauth-authz-req+jwt\"} x"),
            _ => b64u([&hb[..hb.len() - 1], b",\"typ\":\"JWT\"}"].concat()),
        };
        j = format!("{hd}.{rest}");
    }
    let outer = match g.n(6) {
        0 => None,
        1 => Some(g.string()),
        2 => Some("redirect_uri:https://v.example/cb".to_string()),
        3 => Some(g.pick(&["redirect_uri", "redirect_uri:", "Redirect_uri:x", "xredirect_uri:y", " redirect_uri:x", "x509_hash:redirect_uri:"]).to_string()),
        _ => Some(g.client_id()),
    };
    let reply = Some((200u16, j.clone().into_bytes()));
    let ind = if g.p(50) { RequestIndirection::ByValue { request: j.clone() } } else { RequestIndirection::ByReference { request_uri: "https://v.example/r".parse().unwrap() } };
    r.note(format!("outer {outer:?} {}", readable(&j)));
    let http = Http::new(reply.clone());
    let got = run(AuthorizationRequest { client_id: outer.clone(), request_indirection: ind.clone() }.resolve_request(&http)).is_ok();
    let want = ref_resolve(&outer, &ind, &reply).0.is_some();
    if !ref_typ(&j, &outer) {
        r.check(!got, || "a request object with an unacceptable header was processed".into());
    } else {
        r.check(got == want, || format!("processed: {got}, expected {want}"));
    }
}

pub fn c04(g: &mut G, r: &mut R) {
    let mut c = case(g);
    // make both accept everything, so that the comparison decides
    if g.p(70) {
        let mut m = g.request_params();
        let inner = g.client_id();
        m.insert("client_id".into(), json!(inner));
        m.insert("response_mode".into(), json!("dc_api"));
        m.remove("response_uri");
        m.remove("client_metadata");
        let o = match g.n(6) {
            0 => g.mutate(&inner),
            1 => inner.split_once(':').map(|(_, b)| b.to_string()).unwrap_or_default(),
            2 => inner.trim().to_string(),
            3 => inner.split_once(':').map(|(p, _)| format!("{p}:other")).unwrap_or_default(),
            _ => inner.clone(),
        };
        c.outer = if g.p(8) { None } else { Some(o) };
        let j = jwt(&json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), &Json::Object(m), b"s");
        if g.p(50) {
            c.ind = RequestIndirection::ByValue { request: j };
        } else {
            c.ind = RequestIndirection::ByReference { request_uri: "https://v.example/r".parse().unwrap() };
            c.reply = Some((200, j.into_bytes()));
        }
        if let Some(p) = prefix_of(&Some(inner)) {
            c.md["client_id_prefixes_supported"] = json!([p]);
        }
    }
    r.note(describe(&c));
    let all: Vec<String> = PREFIXES.iter().map(|s| s.to_string()).chain(["other".to_string()]).collect();
    let w = W::new(md(&c.md), Http::new(c.reply.clone()).then(&c.after), all);
    if let Ok(o) = run(request(&c).validate(&w)) {
        let p = params_of(&o);
        let inner = p.get("client_id").and_then(|x| x.as_str());
        if let (Some(x), Some(y)) = (&c.outer, inner) {
            r.check(x == y, || format!("accepted with outer client_id {x:?} and inner client_id {y:?}"));
        }
        reports(r, &o);
    }
}

fn reports(r: &mut R, o: &AuthorizationRequestObject) {
    let p = params_of(o);
    let inner = p.get("client_id").and_then(|x| x.as_str()).map(|s| s.to_string());
    r.eq(o.client_id().map(|c| c.0.clone()), inner.clone(), "reported client_id");
    r.eq(o.client_id_scheme().map(|c| c.0.clone()), prefix_of(&inner), "reported prefix");
}

pub fn c04_direct(g: &mut G, r: &mut R) {
    let mut m = params(g);
    if g.p(40) {
        m.remove("client_id");
    }
    let outer = g.opt(85, |g| g.client_id());
    let ind = RequestIndirection::Direct(untyped(&m));
    r.note(format!("direct, outer {outer:?}, {}", Json::Object(m.clone())));
    let http = Http::new(None);
    let got = run(AuthorizationRequest { client_id: outer.clone(), request_indirection: ind.clone() }.resolve_request(&http));
    if let Ok((o, j)) = got {
        let mut want = m.clone();
        if let Some(c) = &outer {
            want.insert("client_id".into(), json!(c));
        }
        r.eq(params_of(&o), Json::Object(want), "parameters of the resolved direct request");
        r.eq(j, None, "JWT of a direct request");
        reports(r, &o);
    } else if let Some(_) = ref_resolve(&outer, &ind, &None).0 {
        r.check(false, || "direct request refused".into());
    }
}

pub fn c05(g: &mut G, r: &mut R) {
    let c = case(g);
    r.note(describe(&c));
    let http = Http::new(c.reply.clone()).then(&c.after);
    let got = run(request(&c).resolve_request(&http));
    let (want, get) = ref_resolve(&c.outer, &c.ind, &c.reply);
    let sent = http.sent();
    match &get {
        None => r.check(sent.is_empty(), || format!("unexpected network access {sent:?}")),
        Some(u) => {
            r.check(
                sent.len() == 1
                    && sent[0].method == "GET"
                    && &sent[0].uri == u
                    && sent[0].body.is_empty()
                    && sent[0].headers.iter().filter(|(k, _)| k == "prefer").map(|(_, v)| v.as_str()).collect::<Vec<_>>() == ["OID4VP-1.0.0"],
                || format!("HTTP requests {sent:?}, expected one GET of {u}"),
            );
        }
    }
    match (&got, &want) {
        (Ok((o, j)), Some((m, k))) => {
            r.eq(params_of(o), Json::Object(m.clone()), "resolved object");
            r.eq(j.clone(), k.clone(), "reported JWT");
        }
        (Err(_), None) => {}
        (a, b) => {
            let (a, b) = (a.is_ok(), b.is_some());
            r.check(false, || format!("resolved: {a}, expected {b}"));
        }
    }
}

pub fn c06(g: &mut G, r: &mut R) {
    let mut m = params(g);
    for k in ["response_uri", "redirect_uri", "response_mode", "nonce", "response_type", "client_id"] {
        match g.n(25) {
            0 => {
                m.remove(k);
            }
            1 => {
                let j = g.json(1);
                m.insert(k.into(), j);
            }
            2 => {
                let s = if k.ends_with("uri") { g.url_text() } else { g.string() };
                m.insert(k.into(), json!(s));
            }
            _ => {}
        }
    }
    r.note(Json::Object(m.clone()).to_string());
    let got: Result<AuthorizationRequestObject, _> = untyped(&m).try_into();
    let got2: Result<AuthorizationRequestObject, _> = serde_json::from_value(Json::Object(m.clone()));
    let want = ref_aro(&m);
    r.eq(got.is_ok(), want.is_some(), "accepted as a request object");
    r.eq(got2.is_ok(), want.is_some(), "deserialised as a request object");
    if let (Ok(o), Some(w)) = (got, want) {
        r.eq(String::from(o.response_mode().clone()), w.mode.clone(), "reported response mode");
        r.eq(String::from(o.response_type().clone()), w.rtype.clone(), "reported response type");
        r.eq(o.nonce().to_string(), w.nonce, "reported nonce");
        if let Some(u) = w.uri {
            r.eq(o.return_uri().clone(), u, "return address");
        }
        let idt = match w.rtype.as_str() {
            "vp_token" => Some(false),
            "vp_token id_token" => Some(true),
            _ => None,
        };
        r.eq(o.is_id_token_requested(), idt, "is_id_token_requested");
        reports(r, &o);
        if let Some(s) = o.state() {
            r.eq(s.ok().map(|s| s.0), m.get("state").and_then(|s| s.as_str()).map(|s| s.to_string()), "state");
        } else {
            r.eq(m.contains_key("state"), false, "state present");
        }
        r.eq(serde_json::to_value(&o).ok(), Some(Json::Object(m.clone())), "serialised form");
        r.eq(params_of(&o), Json::Object(m), "parameters given back");
    }
}

fn ind_view(a: &AuthorizationRequest) -> (Option<String>, String, Json) {
    match &a.request_indirection {
        RequestIndirection::ByValue { request } => (a.client_id.clone(), "value".into(), json!(request)),
        RequestIndirection::ByReference { request_uri } => (a.client_id.clone(), "reference".into(), json!(request_uri.as_str())),
        RequestIndirection::Direct(o) => (a.client_id.clone(), "direct".into(), Json::from(o.clone())),
    }
}

fn ref_query(q: &str) -> Option<(Option<String>, String, Json)> {
    let mut m = Obj::new();
    for (k, v) in url::form_urlencoded::parse(q.as_bytes()) {
        if m.insert(k.to_string(), json!(v)).is_some() {
            return None;
        }
    }
    let c = m.remove("client_id").map(|j| j.as_str().unwrap().to_string());
    if let Some(j) = m.get("request") {
        return Some((c, "value".into(), j.clone()));
    }
    if let Some(u) = m.get("request_uri").and_then(|u| Url::parse(u.as_str().unwrap()).ok()) {
        return Some((c, "reference".into(), json!(u.as_str())));
    }
    Some((c, "direct".into(), Json::Object(m)))
}

pub fn c07_parse(g: &mut G, r: &mut R) {
    let ep = g.url();
    let mut u = if g.p(75) { ep.clone() } else { g.url() };
    if g.p(20) {
        // differ in one component only
        match g.n(8) {
            0 => {
                let _ = u.set_port(Some(8444));
            }
            1 => {
                let _ = u.set_username("mallory");
            }
            2 => {
                let _ = u.set_host(Some("evil.example"));
            }
            3 => {
                let p = format!("{}x", u.path());
                u.set_path(&p);
            }
            4 => {
                let p = format!("{}/", u.path());
                u.set_path(&p);
            }
            5 => {
                let p = u.path().to_uppercase();
                u.set_path(&p);
            }
            6 => {
                let _ = u.set_password(Some("x"));
            }
            _ => {
                let h = u.host_str().map(|h| format!("{h}.evil"));
                let _ = u.set_host(h.as_deref());
            }
        }
    }
    let q = match g.n(8) {
        0 => None,
        1 => Some(g.string()),
        _ => {
            let mut s = url::form_urlencoded::Serializer::new(String::new());
            if g.p(80) {
                let c = g.client_id();
                s.append_pair("client_id", &c);
            }
            if g.p(40) {
                let t = g.string();
                s.append_pair("request", &t);
            }
            if g.p(40) {
                let t = g.url_text();
                s.append_pair("request_uri", &t);
            }
            for _ in 0..g.n(3) {
                let (a, b) = (g.string(), g.string());
                if !["client_id", "request", "request_uri"].contains(&a.as_str()) {
                    s.append_pair(&a, &b);
                }
            }
            Some(s.finish())
        }
    };
    u.set_query(q.as_deref());
    r.note(format!("{u} at {ep}"));
    let got = AuthorizationRequest::from_url(u.clone(), &ep);
    let at = u.query().is_some() && u.authority() == ep.authority() && u.path() == ep.path();
    if !at {
        r.check(got.is_err(), || "a URL that is not at the wallet's endpoint was accepted".into());
        return;
    }
    if let Some(w) = ref_query(u.query().unwrap()) {
        match got {
            Ok(a) => r.eq(ind_view(&a), w, "parsed request"),
            Err(e) => r.check(false, || format!("refused: {e:?}, expected {w:?}")),
        }
    }
}

pub fn c07_roundtrip(g: &mut G, r: &mut R) {
    let ep = g.url();
    let client_id = g.opt(85, |g| g.client_id());
    let ind = match g.n(3) {
        0 => RequestIndirection::ByValue { request: g.string() },
        1 => RequestIndirection::ByReference { request_uri: g.url() },
        _ => {
            let k = g.n(5);
            let m: Obj = (0..k).map(|_| (g.string(), json!(g.string()))).filter(|(k, _)| !["client_id", "request", "request_uri"].contains(&k.as_str())).collect();
            RequestIndirection::Direct(untyped(&m))
        }
    };
    let a = AuthorizationRequest { client_id, request_indirection: ind };
    let view = ind_view(&a);
    r.note(format!("{view:?} at {ep}"));
    let u = match a.to_url(ep.clone()) {
        Ok(u) => u,
        Err(e) => {
            r.check(false, || format!("cannot be encoded as a URL: {e:?}"));
            return;
        }
    };
    let (mut x, mut y) = (u.clone(), ep.clone());
    x.set_query(None);
    y.set_query(None);
    r.eq(x, y, "the URL apart from its query");
    match AuthorizationRequest::from_url(u.clone(), &ep) {
        Ok(b) => r.eq(ind_view(&b), view, "request after encoding and parsing"),
        Err(e) => r.check(false, || format!("{u} does not parse: {e:?}")),
    }
}

// ------------------------------------------------------------------ C17
pub fn c17(g: &mut G, r: &mut R) {
    let mut m = g.request_params();
    m.insert("response_mode".into(), json!(g.pick(&["direct_post", "direct_post", "direct_post.jwt", "direct_post.jwt", "dc_api", "dc_api.jwt"])));
    m.remove("response_uri");
    let direct = m["response_mode"].as_str().unwrap().starts_with("direct");
    if direct {
        let u = if g.p(80) { format!("https://v.example/{}?q={}", g.token(), g.token()) } else { g.url().to_string() };
        m.insert("response_uri".into(), json!(u));
    }
    let mode = m["response_mode"].as_str().unwrap().to_string();
    let Ok(aro) = AuthorizationRequestObject::try_from(untyped(&m)) else { return };
    let vp = crate::p_data::vp_token(g);
    let state = g.opt(50, |g| g.string());
    let enc = g.string();
    let jwt_kind = g.p(50);
    let resp = if jwt_kind {
        AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: enc.clone() })
    } else {
        AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse { vp_token: vp.clone(), state: state.clone().map(State) })
    };
    let (body, redirect): (Vec<u8>, Result<Option<String>, ()>) = match g.n(15) {
        12 | 13 => {
            // an address somewhere else in the reply is not the redirect_uri
            let u = g.url_text();
            let w = g.word();
            let parts: Vec<String> = w.split('/').filter(|p| !p.is_empty()).map(|p| p.to_string()).collect();
            let k = if parts.is_empty() || g.p(30) { g.pick(&["data", "response", "result", "0", "body", "x"]).to_string() } else { g.pick(&parts) };
            let near = g.mutate("redirect_uri");
            let j = match g.n(9) {
                0 | 1 => json!({ k.clone(): { "redirect_uri": u } }),
                2 => json!({ near.clone(): u }),
                3 => json!({ k.clone(): u }),
                4 => json!([{ "redirect_uri": u }]),
                5 => json!({ "redirect_uri": [u] }),
                6 => json!({ "redirect_uri": { k.clone(): u } }),
                7 => json!({ "redirect_uri": null, k.clone(): { "redirect_uri": u } }),
                _ => json!(json!({ "redirect_uri": u }).to_string()),
            };
            let found = j.get("redirect_uri").and_then(|v| v.as_str()).map(|s| s.to_string());
            let want = match found {
                Some(s) => Url::parse(&s).map(|u| Some(u.to_string())).map_err(|_| ()),
                None => Ok(None),
            };
            (serde_json::to_vec(&j).unwrap(), want)
        }
        14 => {
            let u = g.url_text();
            let t = json!({ "redirect_uri": u }).to_string();
            let ok = Url::parse(&u).map(|u| Some(u.to_string())).map_err(|_| ());
            match g.n(5) {
                0 => (format!(" {t}\n").into_bytes(), ok),
                1 => (format!("{t}{t}").into_bytes(), Err(())),
                2 => (format!("{t}x").into_bytes(), Err(())),
                3 => (t.replace("redirect_uri", "redirect\\u005furi").into_bytes(), ok),
                _ => (t[..t.len() - 1].as_bytes().to_vec(), Err(())),
            }
        }
        0 => (vec![], Ok(None)),
        1 => (b" \n\t ".to_vec(), Ok(None)),
        2 => (b"{}".to_vec(), Ok(None)),
        3 => (b"{\"redirect_uri\": 5}".to_vec(), Ok(None)),
        4 => (b"[1]".to_vec(), Ok(None)),
        5 => (b"{".to_vec(), Err(())),
        6 => (vec![0xff, 0xfe], Err(())),
        7 => (b"ok".to_vec(), Err(())),
        _ => {
            let u = g.url_text();
            (serde_json::to_vec(&json!({"redirect_uri": u, "x": "https://other.example"})).unwrap(), Url::parse(&u).map(|u| Some(u.to_string())).map_err(|_| ()))
        }
    };
    let st = if g.p(70) { 200 } else if g.p(50) { g.pick(&[201u16, 202, 203, 204, 205, 206, 299, 300, 302, 303, 307, 400, 401, 404, 408, 409, 410, 425, 429, 500, 502, 503, 504, 199]) } else { 100 + g.n(500) as u16 };
    let reply = if g.p(5) { None } else { Some((st, body)) };
    r.note(format!("mode {mode}, to {:?}, {} response, reply {reply:?}", m.get("response_uri"), if jwt_kind { "encrypted" } else { "unencrypted" }));
    let w = W::new(md(&json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}})), Http::new(reply.clone()), vec![]);
    let got = run(w.submit_response(aro.clone(), resp)).map(|u| u.map(|u| u.to_string()));
    let sent = w.http.sent();
    if !direct {
        r.check(sent.is_empty(), || format!("sent {sent:?}"));
        r.check(matches!(got, Ok(None)), || format!("returned {got:?}"));
        return;
    }
    let uri = aro.return_uri().as_str().parse::<http::Uri>().ok().map(|u| u.to_string());
    if jwt_kind != (mode == "direct_post.jwt") || uri.is_none() {
        r.check(sent.is_empty(), || format!("sent {sent:?}"));
        r.check(got.is_err(), || format!("returned {got:?} without an error"));
        return;
    }
    let h = |s: &Sent, k: &str| s.headers.iter().filter(|(a, _)| a == k).map(|(_, v)| v.clone()).collect::<Vec<_>>();
    r.check(
        sent.len() == 1
            && sent[0].method == "POST"
            && Some(&sent[0].uri) == uri.as_ref()
            && h(&sent[0], "prefer") == ["OID4VP-1.0.0"]
            && h(&sent[0], "content-type") == ["application/x-www-form-urlencoded"],
        || format!("HTTP requests {sent:?}"),
    );
    if let Some(s) = sent.first() {
        let f: Vec<(String, String)> = url::form_urlencoded::parse(&s.body).into_owned().collect();
        let get = |k: &str| f.iter().filter(|(a, _)| a == k).map(|(_, b)| b.clone()).collect::<Vec<_>>();
        if jwt_kind {
            r.check(f.len() == 1 && get("response") == [enc.clone()], || format!("form sent {f:?}"));
        } else {
            let n = 1 + state.is_some() as usize;
            let v = get("vp_token");
            r.check(
                f.len() == n && v.len() == 1 && serde_json::from_str::<VpToken>(&v[0]).ok().as_ref() == Some(&vp) && get("state") == state.iter().cloned().collect::<Vec<_>>(),
                || format!("form sent {f:?} for {vp:?} {state:?}"),
            );
        }
    }
    let want = match reply {
        Some((s, _)) if (200..300).contains(&s) => redirect,
        _ => Err(()),
    };
    match (got, want) {
        (Ok(a), Ok(b)) => r.eq(a, b, "returned redirect"),
        (Err(_), Err(_)) => {}
        (a, b) => r.check(false, || format!("returned {a:?}, expected {b:?}")),
    }
}

// ------------------------------------------------------------------ C29
fn bytes(g: &mut G) -> Vec<u8> {
    match g.n(3) {
        0 => g.string().into_bytes(),
        1 => {
            let k = g.n(40);
            (0..k).map(|_| g.u() as u8).collect()
        }
        _ => {
            let mut b = g.string().into_bytes();
            let k = g.n(b.len() + 1);
            b.insert(k, g.pick(&[0u8, 0x80, 0x81, 0x82, 0xff, 0xf6, 0x5f, 0x9f, b'%', b'&', b'=', b'+']));
            b
        }
    }
}

pub fn c29(g: &mut G, r: &mut R) {
    use openid4vp::core::iso_18013_7::*;
    let k = g.n(12);
    let b = bytes(g);
    let j = g.json(3);
    r.note(format!("kind {k} bytes {b:?} json {j}"));
    match k {
        0 => {
            let _ = AuthorizationRequest::from_query_params(&String::from_utf8_lossy(&b));
        }
        1 => {
            let _ = AuthorizationResponse::from_x_www_form_urlencoded(&b);
            let f = format!("vp_token={}&state={}", j, g.string());
            let _ = AuthorizationResponse::from_x_www_form_urlencoded(f.as_bytes());
        }
        2 => {
            let _ = ciborium::from_reader::<Handover, _>(&b[..]).map(|h| h.to_cbor_bytes());
            let _ = ciborium::from_reader::<DcApiHandover, _>(&b[..]).map(|h| h.to_cbor_bytes());
            let _ = ciborium::from_reader::<SessionTranscript, _>(&b[..]).map(|h| h.to_cbor_bytes());
            let _ = ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&b[..]).map(|h| h.to_cbor_bytes());
            // CBOR of arbitrary JSON, and arrays of the right outline
            let mut v = vec![];
            let c = g.pick(&["OpenID4VPHandover", "OpenID4VPDCAPIHandover", "x"]);
            let arr = match g.n(4) {
                0 => ciborium::Value::Array(vec![]),
                1 => ciborium::Value::Array(vec![ciborium::Value::Text(c.into())]),
                2 => ciborium::Value::Array(vec![ciborium::Value::Text(c.into()), ciborium::Value::Bytes(b.clone())]),
                _ => ciborium::Value::Array(vec![ciborium::Value::Null, ciborium::Value::Bool(true), ciborium::Value::Array(vec![ciborium::Value::Text(c.into()), ciborium::Value::Bytes(b.clone())])]),
            };
            ciborium::into_writer(&arr, &mut v).unwrap();
            let _ = ciborium::from_reader::<Handover, _>(&v[..]);
            let _ = ciborium::from_reader::<DcApiHandover, _>(&v[..]);
            let _ = ciborium::from_reader::<SessionTranscript, _>(&v[..]).map(|h| h.to_cbor_bytes());
            let mut v = vec![];
            ciborium::into_writer(&j, &mut v).unwrap();
            let _ = ciborium::from_reader::<SessionTranscript, _>(&v[..]);
            let _ = serde_json::from_value::<SessionTranscript>(j.clone());
        }
        3 => {
            let _ = compute_jwk_thumbprint(&j);
            let jwk = g.jwk();
            let _ = compute_jwk_thumbprint(&Json::Object(jwk));
        }
        4 => {
            let _ = serde_json::from_value::<openid4vp::core::metadata::WalletMetadata>(j.clone());
            let ep = g.url_text();
            let mut m = g.wallet_metadata_json(&ep);
            m["vp_formats_supported"] = j;
            if let Ok(mut w) = serde_json::from_value::<openid4vp::core::metadata::WalletMetadata>(m) {
                let _ = w.add_client_id_prefixes_supported(&[]);
                let _ = w.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES256);
                let _ = serde_json::to_value(&w);
            }
        }
        5 => {
            let _ = serde_json::from_value::<openid4vp::core::dcql_query::DcqlQuery>(j.clone());
            let mut q = crate::p_data::dcql_json(g);
            crate::p_data::perturb(g, &mut q);
            if let Ok(q) = serde_json::from_value::<openid4vp::core::dcql_query::DcqlQuery>(q) {
                for c in q.credentials() {
                    for x in c.claims().into_iter().flatten() {
                        let _ = (x.namespace(), x.element_identifier(), x.claim_name());
                    }
                }
                let _ = Json::from(q);
            }
        }
        6 => {
            let w = W::new(md(&g.wallet_metadata_json("openid4vp:")), Http::new(Some((200, b.clone()))), vec!["pre-registered".into()]);
            let u = g.url();
            let _ = run(w.validate_request(u));
            let _ = run(AuthorizationRequest { client_id: g.opt(50, |g| g.client_id()), request_indirection: RequestIndirection::ByReference { request_uri: "https://v.example/r".parse().unwrap() } }.validate(&w));
            let _ = run(AuthorizationRequest { client_id: g.opt(50, |g| g.client_id()), request_indirection: RequestIndirection::ByValue { request: g.string() } }.validate(&w));
        }
        7 => {
            let _ = ResponseMode::from(g.string()).is_jarm();
            let _ = ResponseType::from(g.string());
            let m = params(g);
            if let Ok(o) = AuthorizationRequestObject::try_from(untyped(&m)) {
                let _ = get_encryption_jwk_thumbprint(&o);
                let _ = o.client_metadata().map(|c| (c.jwks().map(|x| x.is_ok()), c.vp_formats().is_ok(), c.encrypted_response_enc_values_supported().is_ok()));
                let _ = (o.vp_formats().is_ok(), o.dcql_query().map(|x| x.is_ok()), o.state().map(|x| x.is_ok()));
            }
        }
        _ => {
            // JWT headers and certificates out of shape
            let mut h = json!({"typ": "oauth-authz-req+jwt", "alg": g.pick(&["ES256", "none", "x"]), "kid": g.string()});
            h["x5c"] = match g.n(6) {
                0 => j,
                1 => json!([]),
                2 => json!([5]),
                3 => json!([b64u(&b)]),
                4 => {
                    use base64::prelude::*;
                    let mut d = pools().certs[g.n(7)].der.clone();
                    let i = g.n(d.len());
                    d[i] ^= 1 << g.n(8);
                    json!([BASE64_STANDARD.encode(d)])
                }
                _ => json!([g.string()]),
            };
            if g.p(10) {
                let k = g.pick(&["alg", "kid", "x5c", "typ"]);
                h.as_object_mut().unwrap().remove(k);
            }
            let cid = g.client_id();
            let m = json!({"client_id": cid, "response_mode": "dc_api", "nonce": "n", "response_type": "vp_token"});
            let aro: AuthorizationRequestObject = serde_json::from_value(m.clone()).unwrap();
            let mut t = jwt(&h, &m, &b);
            if g.p(20) {
                t = g.mutate(&t);
            }
            let mdm = md_with_algs(&json!(["ES256", "none", "x"]));
            use openid4vp::core::authorization_request::verification::{did, verifier::P256Verifier, x509_hash, x509_san};
            let _ = x509_san::validate::<P256Verifier>(&mdm, &aro, t.clone(), None);
            let _ = x509_hash::validate::<P256Verifier>(&mdm, &aro, t.clone(), None);
            let _ = run(did::verify_with_resolver(&mdm, &aro, t, None, &pools().keys[0].jwk));
        }
    }
}
