//! C16, C18–C22, C24–C26: data types.
use crate::gen::{FORMATS, G, MODES, TYPES};
use crate::mock::*;
use crate::R;
use openid4vp::core::authorization_request::parameters::*;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::credential_format::*;
use openid4vp::core::dcql_query::*;
use openid4vp::core::metadata::parameters::{verifier::*, wallet::*};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::{ParsingErrorContext, TypedParameter, UntypedObject};
use openid4vp::core::response::parameters::{IdToken, VpToken, VpTokenItem};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::utils::NonEmptyVec;
use serde_json::{json, Map, Value as Json};
use sha2::{Digest, Sha256};
use url::Url;

pub fn vp_token(g: &mut G) -> VpToken {
    let mut t = VpToken::new();
    for _ in 0..g.n(4) {
        let id = g.string();
        let items = g.vec(3, |g| if g.p(50) { VpTokenItem::String(g.string()) } else { VpTokenItem::JsonObject(g.obj(2)) });
        t.0.insert(id, items);
    }
    t
}

fn vp_json(t: &VpToken) -> Json {
    Json::Object(
        t.0.iter()
            .map(|(k, v)| {
                (
                    k.clone(),
                    Json::Array(
                        v.iter()
                            .map(|i| match i {
                                VpTokenItem::String(s) => json!(s),
                                VpTokenItem::JsonObject(o) => Json::Object(o.clone()),
                            })
                            .collect(),
                    ),
                )
            })
            .collect(),
    )
}

pub fn c16(g: &mut G, r: &mut R) {
    if g.p(70) {
        let t = vp_token(g);
        let state = g.opt(60, |g| g.string());
        r.note(format!("vp_token {} state {state:?}", vp_json(&t)));
        // accessors
        r.eq(t.len(), t.0.len(), "VpToken::len");
        r.eq(t.is_empty(), t.0.is_empty(), "VpToken::is_empty");
        for (k, v) in &t.0 {
            r.eq(t.get(k), Some(v), "VpToken::get");
        }
        let mut u = VpToken::default();
        r.check(u.is_empty(), || "VpToken::default is not empty".into());
        for (k, v) in t.iter() {
            u.insert(k.clone(), v.clone());
        }
        r.eq(u, t.clone(), "VpToken::insert");
        let resp = match &state {
            Some(s) => UnencodedAuthorizationResponse::with_state(t.clone(), State(s.clone())),
            None => UnencodedAuthorizationResponse::new(t.clone()),
        };
        r.eq(resp.vp_token().clone(), t.clone(), "vp_token()");
        r.eq(resp.state().map(|s| s.0.clone()), state.clone(), "state()");
        let js = serde_json::to_value(&resp).unwrap();
        let mut want = json!({"vp_token": vp_json(&t)});
        if let Some(s) = &state {
            want["state"] = json!(s);
        }
        r.eq(js.clone(), want, "JSON form of the response");
        match js {
            Json::Object(m) => match UnencodedAuthorizationResponse::try_from(untyped(&m)) {
                Ok(x) => r.eq((x.vp_token, x.state.map(|s| s.0)), (t.clone(), state.clone()), "response after conversion from parameters"),
                Err(e) => r.check(false, || format!("response refused: {e:?}")),
            },
            _ => {}
        }
        match resp.into_x_www_form_urlencoded() {
            Err(e) => r.check(false, || format!("cannot be encoded: {e:?}")),
            Ok(s) => match AuthorizationResponse::from_x_www_form_urlencoded(s.as_bytes()) {
                Ok(AuthorizationResponse::Unencoded(x)) => r.eq((x.vp_token, x.state.map(|s| s.0)), (t, state), "response after form encoding and decoding"),
                x => r.check(false, || format!("{s} decoded to {x:?}")),
            },
        }
    } else {
        let t = g.string();
        r.note(format!("encrypted {t:?}"));
        match (JwtAuthorizationResponse { response: t.clone() }).into_x_www_form_urlencoded() {
            Err(e) => r.check(false, || format!("cannot be encoded: {e:?}")),
            Ok(s) => match AuthorizationResponse::from_x_www_form_urlencoded(s.as_bytes()) {
                Ok(AuthorizationResponse::Jwt(x)) => r.eq(x.response, t, "response string after form encoding and decoding"),
                x => r.check(false, || format!("{s} decoded to {x:?}")),
            },
        }
    }
}

fn ref_vp(j: &Json) -> bool {
    j.as_object().is_some_and(|m| m.values().all(|v| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string() || x.is_object()))))
}

pub fn c16_parse(g: &mut G, r: &mut R) {
    let mut f: Vec<(String, String)> = vec![];
    if g.p(30) {
        f.push(("response".into(), g.string()));
    }
    if g.p(85) {
        let v = match g.n(6) {
            0 => g.string(),
            1 => g.json(3).to_string(),
            2 => json!({ g.string(): [g.json(1)] }).to_string(),
            3 => json!({ g.string(): g.json(1) }).to_string(),
            _ => vp_json(&vp_token(g)).to_string(),
        };
        f.push(("vp_token".into(), v));
    }
    if g.p(40) {
        f.push(("state".into(), g.string()));
    }
    if g.p(30) {
        let k = g.string();
        if !["response", "vp_token", "state"].contains(&k.as_str()) {
            f.push((k, g.string()));
        }
    }
    let i = g.n(f.len().max(1));
    let i = if f.is_empty() { 0 } else { i };
    f.rotate_left(i);
    let mut s = url::form_urlencoded::Serializer::new(String::new());
    for (k, v) in &f {
        s.append_pair(k, v);
    }
    let body = s.finish();
    r.note(format!("form {f:?}"));
    let get = |k: &str| f.iter().find(|(a, _)| a == k).map(|(_, b)| b.clone());
    let got = AuthorizationResponse::from_x_www_form_urlencoded(body.as_bytes());
    if let Some(t) = get("response") {
        match got {
            Ok(AuthorizationResponse::Jwt(x)) => r.eq(x.response, t, "response string"),
            x => r.check(false, || format!("a form with 'response' was read as {x:?}")),
        }
        return;
    }
    let want = get("vp_token").and_then(|t| serde_json::from_str::<Json>(&t).ok()).filter(ref_vp);
    match (got, want) {
        (Ok(AuthorizationResponse::Unencoded(x)), Some(w)) => {
            r.eq(vp_json(&x.vp_token), w, "vp_token");
            r.eq(x.state.map(|s| s.0), get("state"), "state");
        }
        (Err(_), None) => {}
        (a, b) => r.check(false, || format!("read as {a:?}, expected {b:?}")),
    }
}

// ------------------------------------------------------------------ C18
macro_rules! param {
    ($t:ident, $key:expr, $inner:ty) => {
        #[derive(Debug, Clone, PartialEq)]
        struct $t($inner);
        impl TypedParameter for $t {
            const KEY: &'static str = $key;
        }
        impl TryFrom<Json> for $t {
            type Error = anyhow::Error;
            fn try_from(v: Json) -> anyhow::Result<Self> {
                Ok($t(serde_json::from_value(v)?))
            }
        }
        impl TryFrom<$t> for Json {
            type Error = anyhow::Error;
            fn try_from(v: $t) -> anyhow::Result<Json> {
                let j = serde_json::to_value(&v.0)?;
                if j == json!("unserialisable") {
                    anyhow::bail!("cannot be converted")
                }
                Ok(j)
            }
        }
    };
}
param!(PStr, "alpha", String);
param!(PNum, "alphabet", i64);
param!(PList, "", Vec<String>);
param!(PJson, "any", Json);
impl Default for PJson {
    fn default() -> Self {
        PJson(json!([1]))
    }
}
impl Default for PStr {
    fn default() -> Self {
        PStr("the default".into())
    }
}
impl Default for PNum {
    fn default() -> Self {
        PNum(-7)
    }
}
impl Default for PList {
    fn default() -> Self {
        PList(vec!["d".into()])
    }
}

fn ops<T: TypedParameter + Default + PartialEq>(g: &mut G, r: &mut R, o: &mut UntypedObject, m: &mut Map<String, Json>, t: T)
where
    Json: TryFrom<T>,
{
    let parse = |j: &Json| T::try_from(j.clone()).ok();
    let cur = m.get(T::KEY).cloned();
    let before = m.clone();
    match g.n(6) {
        0 => r.eq(o.get::<T>().map(|x| x.ok()), cur.as_ref().map(parse), "get"),
        1 => r.eq(o.get_or_default::<T>().ok(), cur.as_ref().map(parse).unwrap_or(Some(T::default())), "get_or_default"),
        2 => {
            let got = o.remove::<T>().map(|x| x.ok());
            r.eq(got, cur.as_ref().map(parse), "remove");
            m.remove(T::KEY);
        }
        3 | 4 => {
            let got = o.insert(t.clone()).map(|x| x.ok());
            match Json::try_from(t) {
                Ok(j) => {
                    r.eq(got, cur.as_ref().map(parse), "insert returns the previous value");
                    m.insert(T::KEY.into(), j);
                }
                Err(_) => r.eq(got, Some(None), "insert of a parameter that cannot be converted"),
            }
        }
        _ => {
            r.eq(o.get::<T>().parsing_error().ok(), cur.as_ref().and_then(parse), "required read");
            if let Some(j) = &cur {
                r.eq(T::try_from(j.clone()).parsing_error().ok(), parse(j), "parsing_error of a result");
            }
        }
    }
    let now = Json::from(o.clone());
    let mm = Json::Object(m.clone());
    r.check(now == mm, || format!("{}: entries are {now}, expected {mm}, were {}", T::KEY, Json::Object(before)));
}

pub fn c18(g: &mut G, r: &mut R) {
    let mut m = g.obj(2);
    for k in ["alpha", "alphabet", "", "nonce", "any"] {
        if g.p(40) {
            let j = if g.p(50) { json!(g.string()) } else { g.json(1) };
            m.insert(k.into(), j);
        }
    }
    let mut o = untyped(&m);
    r.note(Json::Object(m.clone()).to_string());
    r.eq(serde_json::to_value(&o).ok(), Some(Json::Object(m.clone())), "serialised form");
    for _ in 0..6 {
        match g.n(5) {
            4 => {
                let j = if g.p(40) { g.pick(&[Json::Null, json!(""), json!({}), json!([]), json!(false), json!(0)]) } else { g.json(1) };
                ops(g, r, &mut o, &mut m, PJson(j))
            }
            0 => {
                let s = if g.p(10) { "unserialisable".to_string() } else { g.string() };
                ops(g, r, &mut o, &mut m, PStr(s))
            }
            1 => {
                let v = g.u() as i64;
                ops(g, r, &mut o, &mut m, PNum(v))
            }
            2 => {
                let v = g.strings(2);
                ops(g, r, &mut o, &mut m, PList(v))
            }
            _ => {
                let cur = m.get("nonce").cloned();
                let want = cur.as_ref().map(|j| j.as_str().map(|s| s.to_string()));
                r.eq(o.get::<Nonce>().map(|x| x.ok().map(|n| n.to_string())), want.clone(), "get nonce");
                let s = g.string();
                r.eq(o.insert(Nonce::from(s.clone())).map(|x| x.ok().map(|n| n.to_string())), want, "insert nonce");
                m.insert("nonce".into(), json!(s));
                r.eq(Json::from(o.clone()), Json::Object(m.clone()), "entries after inserting a nonce");
            }
        }
    }
}

// ------------------------------------------------------------------ C19
fn as_strs(j: &Json) -> Option<Json> {
    j.as_array()?.iter().all(|x| x.is_string()).then(|| j.clone())
}
fn as_str(j: &Json) -> Option<Json> {
    j.is_string().then(|| j.clone())
}
fn as_url(j: &Json) -> Option<Json> {
    Url::parse(j.as_str()?).ok().map(|u| json!(u.as_str()))
}
fn as_obj(j: &Json) -> Option<Json> {
    j.is_object().then(|| j.clone())
}
fn as_arr(j: &Json) -> Option<Json> {
    j.is_array().then(|| j.clone())
}
fn as_jwks(j: &Json) -> Option<Json> {
    let k = j.as_object()?.get("keys")?;
    k.as_array()?.iter().all(|x| x.is_object()).then(|| json!({ "keys": k }))
}
fn as_vp(j: &Json) -> Option<Json> {
    ref_vp(j).then(|| j.clone())
}
fn as_method(j: &Json) -> Option<Json> {
    ["get", "post"].contains(&j.as_str()?).then(|| j.clone())
}

fn typed<T: TypedParameter>(r: &mut R, key: &str, j: &Json, want: Option<Json>)
where
    Json: TryFrom<T>,
{
    r.eq(T::KEY, key, "registered name");
    let got = T::try_from(j.clone());
    let name = std::any::type_name::<T>();
    match (got, want) {
        (Ok(t), Some(w)) => {
            let Ok(back) = Json::try_from(t.clone()) else {
                r.check(false, || format!("{name}: cannot be converted to JSON"));
                return;
            };
            r.check(back == w, || format!("{name}: converts to {back}, expected {w}"));
            // and back again
            match T::try_from(back.clone()) {
                Ok(t2) => {
                    let same = norm(&format!("{t2:?}")) == norm(&format!("{t:?}"));
                    r.check(same, || format!("{name}: {t:?} became {t2:?}"));
                    r.check(Json::try_from(t2).ok() == Some(back), || format!("{name}: second conversion differs"));
                }
                Err(e) => r.check(false, || format!("{name}: does not parse its own JSON: {e:?}")),
            }
            // through an object
            let mut o = UntypedObject::default();
            o.insert(t);
            let mut wm = Map::new();
            wm.insert(key.into(), w);
            r.eq(Json::from(o), Json::Object(wm), "stored under its name");
        }
        (Err(_), None) => {}
        (a, b) => {
            let a = a.is_ok();
            r.check(false, || format!("{name}: accepted {a}, expected {} for {j}", b.is_some()))
        }
    }
}

/// hash maps print in any order
fn norm(s: &str) -> Vec<char> {
    let mut v: Vec<char> = s.chars().collect();
    v.sort();
    v
}

pub fn c19(g: &mut G, r: &mut R) {
    let j = match g.n(9) {
        0 => g.json(2),
        1 => json!(g.string()),
        2 => json!(g.url_text()),
        3 => json!(g.strings(4)),
        4 => Json::Object(g.obj(2)),
        5 => vp_json(&vp_token(g)),
        6 => {
            let k = g.n(4);
            json!({"keys": (0..k).map(|_| Json::Object(g.jwk())).collect::<Vec<_>>(), "x": 1})
        }
        7 => {
            let mut a = json!(g.strings(3));
            let x = g.json(1);
            a.as_array_mut().unwrap().push(x);
            a
        }
        _ => {
            let k = g.n(4);
            let m: Map<String, Json> = (0..k)
                .map(|_| {
                    let key = if g.p(70) { g.pick(FORMATS).to_string() } else { g.string() };
                    let v = match g.n(4) {
                        0 => json!({"alg_values": g.strings(3)}),
                        1 => json!({"proof_type_values": g.strings(3)}),
                        2 => json!({"alg_values": g.json(1), "x": g.json(1)}),
                        _ => g.json(2),
                    };
                    (key, v)
                })
                .collect();
            Json::Object(m)
        }
    };
    r.note(j.to_string());
    typed::<ClientId>(r, "client_id", &j, as_str(&j));
    typed::<ClientMetadata>(r, "client_metadata", &j, as_obj(&j));
    typed::<Nonce>(r, "nonce", &j, as_str(&j));
    typed::<Audience>(r, "aud", &j, as_str(&j));
    typed::<RedirectUri>(r, "redirect_uri", &j, as_url(&j));
    typed::<ResponseUri>(r, "response_uri", &j, as_url(&j));
    typed::<ResponseMode>(r, "response_mode", &j, as_str(&j));
    typed::<ResponseType>(r, "response_type", &j, as_str(&j));
    typed::<State>(r, "state", &j, as_str(&j));
    typed::<ExpectedOrigins>(r, "expected_origins", &j, as_strs(&j));
    typed::<TransactionData>(r, "transaction_data", &j, as_strs(&j));
    typed::<VerifierInfo>(r, "verifier_info", &j, as_arr(&j));
    typed::<RequestUriMethod>(r, "request_uri_method", &j, as_method(&j));
    typed::<VpFormats>(r, "vp_formats_supported", &j, as_obj(&j));
    typed::<VpFormatsSupported>(r, "vp_formats_supported", &j, as_obj(&j));
    if !j.is_array() {
        typed::<JWKs>(r, "jwks", &j, as_jwks(&j));
    }
    typed::<EncryptedResponseEncValuesSupported>(r, "encrypted_response_enc_values_supported", &j, as_strs(&j));
    typed::<Issuer>(r, "issuer", &j, as_str(&j));
    typed::<AuthorizationEndpoint>(r, "authorization_endpoint", &j, as_url(&j));
    typed::<ResponseTypesSupported>(r, "response_types_supported", &j, as_strs(&j));
    typed::<ClientIdPrefixesSupported>(r, "client_id_prefixes_supported", &j, as_strs(&j));
    typed::<RequestObjectSigningAlgValuesSupported>(r, "request_object_signing_alg_values_supported", &j, as_strs(&j));
    typed::<AuthorizationEncryptionAlgValuesSupported>(r, "authorization_encryption_alg_values_supported", &j, as_strs(&j));
    typed::<AuthorizationEncryptionEncValuesSupported>(r, "authorization_encryption_enc_values_supported", &j, as_strs(&j));
    typed::<IdToken>(r, "id_token", &j, as_str(&j));
    typed::<VpToken>(r, "vp_token", &j, as_vp(&j));
    r.eq(DcqlQuery::KEY, "dcql_query", "registered name");
    // values
    if let Ok(x) = ExpectedOrigins::try_from(j.clone()) {
        r.eq(json!(x.0), j.clone(), "expected_origins");
    }
    if let Ok(x) = ClientMetadata::try_from(j.clone()) {
        r.eq(x.jwks().map(|k| k.is_ok()), j.get("jwks").filter(|k| !k.is_array()).map(|k| as_jwks(k).is_some()).or(j.get("jwks").and(x.jwks().map(|k| k.is_ok()))), "client metadata jwks");
        let e = j.get("encrypted_response_enc_values_supported");
        let want = match e {
            None => Some(json!(["A128GCM"])),
            Some(e) => as_strs(e),
        };
        r.eq(x.encrypted_response_enc_values_supported().ok().map(|v| json!(v.0)), want, "client metadata enc values");
        let f = x.vp_formats().ok().and_then(|v| Json::try_from(v).ok());
        r.eq(f, j.get("vp_formats_supported").and_then(as_obj), "client metadata formats");
    }
}

// ------------------------------------------------------------------ C20
pub fn c20(g: &mut G, r: &mut R) {
    let s = match g.n(4) {
        0 => g.pick(&[MODES, TYPES, FORMATS, &["get", "post"]].concat()).to_string(),
        1 => {
            let w = g.pick(&[MODES, TYPES, FORMATS, &["get", "post"]].concat());
            g.mutate(w)
        }
        _ => g.string(),
    };
    r.note(format!("{s:?}"));
    let m = ResponseMode::from(s.clone());
    let want = match s.as_str() {
        "direct_post" => ResponseMode::DirectPost,
        "direct_post.jwt" => ResponseMode::DirectPostJwt,
        "dc_api" => ResponseMode::DcApi,
        "dc_api.jwt" => ResponseMode::DcApiJwt,
        _ => ResponseMode::Unsupported(s.clone()),
    };
    r.eq(m.clone(), want.clone(), "response mode");
    r.eq(String::from(m.clone()), s.clone(), "response mode as a string");
    r.eq(m.to_string(), s.clone(), "response mode displayed");
    r.eq(Json::from(m.clone()), json!(s), "response mode as JSON");
    r.eq(serde_json::to_value(&m).ok(), Some(json!(s)), "response mode serialised");
    r.eq(serde_json::from_value::<ResponseMode>(json!(s)).ok(), Some(want.clone()), "response mode deserialised");
    r.eq(ResponseMode::try_from(json!(s)).ok(), Some(want), "response mode from JSON");
    let jarm = match s.as_str() {
        "direct_post" | "dc_api" => Some(false),
        "direct_post.jwt" | "dc_api.jwt" => Some(true),
        _ => None,
    };
    r.eq(m.is_jarm().ok(), jarm, "encrypted response mode");
    r.eq(ResponseMode::default(), ResponseMode::DirectPost, "default response mode");
    let t = ResponseType::from(s.clone());
    let want = match s.as_str() {
        "vp_token" => ResponseType::VpToken,
        "vp_token id_token" => ResponseType::VpTokenIdToken,
        _ => ResponseType::Unsupported(s.clone()),
    };
    r.eq(t.clone(), want.clone(), "response type");
    r.eq(String::from(t.clone()), s.clone(), "response type as a string");
    r.eq(Json::from(t.clone()), json!(s), "response type as JSON");
    r.eq(serde_json::to_value(&t).ok(), Some(json!(s)), "response type serialised");
    r.eq(serde_json::from_value::<ResponseType>(json!(s)).ok(), Some(want.clone()), "response type deserialised");
    r.eq(ResponseType::try_from(json!(s)).ok(), Some(want), "response type from JSON");
    use ClaimFormatDesignation as F;
    let want = match s.as_str() {
        "jwt_vc_json" => F::JwtVcJson,
        "ldp_vc" => F::LdpVc,
        "mso_mdoc" => F::MsoMDoc,
        "dc+sd-jwt" => F::DcSdJwt,
        _ => F::Other(s.clone()),
    };
    r.eq(F::from(s.as_str()), want.clone(), "format from &str");
    r.eq(F::from(s.clone()), want.clone(), "format from String");
    r.eq(F::from_name(std::borrow::Cow::Borrowed(&s)), want.clone(), "format from a name");
    r.eq(s.parse::<F>().ok(), Some(want.clone()), "format parsed");
    r.eq(serde_json::from_value::<F>(json!(s)).ok(), Some(want.clone()), "format deserialised");
    r.eq(want.to_string(), s.clone(), "format displayed");
    r.eq(String::from(want.clone()), s.clone(), "format as a string");
    r.eq(serde_json::to_value(&want).ok(), Some(json!(s)), "format serialised");
    let q = RequestUriMethod::try_from(json!(s)).ok();
    let want = match s.as_str() {
        "get" => Some(RequestUriMethod::Get),
        "post" => Some(RequestUriMethod::Post),
        _ => None,
    };
    r.eq(q.clone(), want, "request_uri_method");
    if let Some(q) = q {
        r.eq(Json::from(q), json!(s), "request_uri_method as JSON");
    }
    r.eq(RequestUriMethod::default(), RequestUriMethod::Get, "default request_uri_method");
    let p = ClientId(s.clone()).resolve_prefix().map(|p| p.0);
    r.eq(p, s.split_once(':').map(|x| x.0.to_string()), "prefix of a client_id");
    // designations of formats
    let v = g.json(1);
    let l = g.strings(2);
    r.eq(ClaimFormat::JwtVcJson { alg_values_supported: l.clone() }.designation(), F::JwtVcJson, "designation");
    r.eq(ClaimFormat::LdpVc { proof_type: l }.designation(), F::LdpVc, "designation");
    r.eq(ClaimFormat::MsoMDoc(v.clone()).designation(), F::MsoMDoc, "designation");
    r.eq(ClaimFormat::DcSdJwt(v).designation(), F::DcSdJwt, "designation");
    let o = ClaimFormat::Other(json!({ s.clone(): 1 })).designation();
    r.eq(o, F::Other(s), "designation of another format");
    // authority types
    let s = g.string();
    let want = match s.as_str() {
        "aki" => TrustedAuthorityType::Aki,
        "etsi_tl" => TrustedAuthorityType::EtsiTl,
        "openid_federation" => TrustedAuthorityType::OpenidFederation,
        _ => TrustedAuthorityType::Other(s.clone()),
    };
    r.eq(serde_json::from_value::<TrustedAuthorityType>(json!(s)).ok(), Some(want.clone()), "authority type");
    r.eq(serde_json::to_value(&want).ok(), Some(json!(s)), "authority type serialised");
}

// ------------------------------------------------------------------ C21
fn cbor_head(major: u8, n: usize) -> Vec<u8> {
    let m = major << 5;
    match n {
        0..=23 => vec![m | n as u8],
        24..=255 => vec![m | 24, n as u8],
        256..=65535 => [vec![m | 25], (n as u16).to_be_bytes().to_vec()].concat(),
        _ => [vec![m | 26], (n as u32).to_be_bytes().to_vec()].concat(),
    }
}
fn cbor_text(s: &str) -> Vec<u8> {
    [cbor_head(3, s.len()), s.as_bytes().to_vec()].concat()
}
fn cbor_bytes(s: &[u8]) -> Vec<u8> {
    [cbor_head(2, s.len()), s.to_vec()].concat()
}
fn cbor_array(xs: &[Vec<u8>]) -> Vec<u8> {
    [cbor_head(4, xs.len()), xs.concat()].concat()
}

pub fn c21(g: &mut G, r: &mut R) {
    use openid4vp::core::iso_18013_7::*;
    let (mut a, b, mut c) = (g.client_id(), g.string(), g.url_text());
    if g.p(5) {
        a = a.repeat(1 + g.n(400));
        c = c.repeat(1 + g.n(40));
    }
    let t: Option<Vec<u8>> = g.opt(60, |g| {
        let k = if g.p(70) { 32 } else { g.n(40) };
        (0..k).map(|_| g.u() as u8).collect()
    });
    r.note(format!("{a:?} {b:?} {t:?} {c:?}"));
    let tb = t.as_ref().map(|t| cbor_bytes(t)).unwrap_or(vec![0xf6]);
    let h1 = Sha256::digest(cbor_array(&[cbor_text(&a), cbor_text(&b), tb.clone(), cbor_text(&c)])).to_vec();
    let h2 = Sha256::digest(cbor_array(&[cbor_text(&a), cbor_text(&b), tb])).to_vec();
    let x1 = cbor_array(&[cbor_text("OpenID4VPHandover"), cbor_bytes(&h1)]);
    let x2 = cbor_array(&[cbor_text("OpenID4VPDCAPIHandover"), cbor_bytes(&h2)]);
    let (Ok(ho), Ok(dc)) = (Handover::new(&a, &b, t.as_deref(), &c), DcApiHandover::new(&a, &b, t.as_deref())) else {
        r.check(false, || "cannot be made".into());
        return;
    };
    r.eq(ho.handover_info_hash().to_vec(), h1, "handover hash");
    r.eq(dc.handover_info_hash().to_vec(), h2, "DC API handover hash");
    let ser = |v: &dyn erased::Ser| v.cbor();
    r.eq(ho.to_cbor_bytes().ok(), Some(x1.clone()), "handover bytes");
    r.eq(dc.to_cbor_bytes().ok(), Some(x2.clone()), "DC API handover bytes");
    r.eq(ser(&ho), Some(x1.clone()), "handover serialised");
    r.eq(ser(&dc), Some(x2.clone()), "DC API handover serialised");
    r.eq(ciborium::from_reader::<Handover, _>(&x1[..]).ok(), Some(ho.clone()), "handover decoded");
    r.eq(ciborium::from_reader::<DcApiHandover, _>(&x2[..]).ok(), Some(dc.clone()), "DC API handover decoded");
    r.check(ciborium::from_reader::<Handover, _>(&x2[..]).is_err(), || "a DC API handover was read as a handover".into());
    r.check(ciborium::from_reader::<DcApiHandover, _>(&x1[..]).is_err(), || "a handover was read as a DC API handover".into());
    let id = g.string();
    let xo = cbor_array(&[cbor_text(&id), cbor_bytes(ho.handover_info_hash())]);
    r.eq(ciborium::from_reader::<Handover, _>(&xo[..]).is_ok(), id == "OpenID4VPHandover", "handover with another identifier");
    r.eq(ciborium::from_reader::<DcApiHandover, _>(&xo[..]).is_ok(), id == "OpenID4VPDCAPIHandover", "DC API handover with another identifier");
    let s1 = SessionTranscript::new(ho.clone());
    let s2 = SessionTranscript::new(dc.clone());
    r.check(s1.handover() == &ho && s2.handover() == &dc, || "handover() differs".into());
    let y1 = cbor_array(&[vec![0xf6], vec![0xf6], x1]);
    let y2 = cbor_array(&[vec![0xf6], vec![0xf6], x2]);
    r.eq(s1.to_cbor_bytes().ok(), Some(y1.clone()), "transcript bytes");
    r.eq(s2.to_cbor_bytes().ok(), Some(y2.clone()), "DC API transcript bytes");
    r.eq(ser(&s1), Some(y1.clone()), "transcript serialised");
    r.eq(ser(&s2), Some(y2.clone()), "DC API transcript serialised");
    r.check(ciborium::from_reader::<SessionTranscript, _>(&y1[..]).ok().as_ref() == Some(&s1), || "transcript decoded differently".into());
    r.check(ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&y2[..]).ok().as_ref() == Some(&s2), || "DC API transcript decoded differently".into());
    r.check(ciborium::from_reader::<SessionTranscript, _>(&y2[..]).is_err(), || "a DC API transcript was read as the other kind".into());
    let other = Handover::new(&format!("{a}x"), &b, t.as_deref(), &c).unwrap();
    r.check(SessionTranscript::new(other) != s1, || "transcripts of different requests are equal".into());
}

mod erased {
    pub trait Ser {
        fn cbor(&self) -> Option<Vec<u8>>;
    }
    impl<T: serde::Serialize> Ser for T {
        fn cbor(&self) -> Option<Vec<u8>> {
            let mut v = vec![];
            ciborium::into_writer(self, &mut v).ok()?;
            Some(v)
        }
    }
}

// ------------------------------------------------------------------ C22
/// Err: the members would need escaping
pub fn ref_thumb(j: &Json) -> Result<Option<[u8; 32]>, ()> {
    let plain = |s: &str| !s.chars().any(|c| c == '"' || c == '\\' || (c as u32) < 0x20);
    let names: &[&str] = match j.get("kty").and_then(|k| k.as_str()) {
        Some("EC") => &["crv", "kty", "x", "y"],
        Some("RSA") => &["e", "kty", "n"],
        _ => return Ok(None),
    };
    let mut parts = vec![];
    for n in names {
        let Some(v) = j.get(n).and_then(|v| v.as_str()) else { return Ok(None) };
        if !plain(v) {
            return Err(());
        }
        parts.push(format!("\"{n}\":\"{v}\""));
    }
    Ok(Some(Sha256::digest(format!("{{{}}}", parts.join(","))).into()))
}

pub fn c22(g: &mut G, r: &mut R) {
    use openid4vp::core::iso_18013_7::*;
    let j = Json::Object(g.jwk());
    r.note(j.to_string());
    if let Ok(w) = ref_thumb(&j) {
        r.eq(compute_jwk_thumbprint(&j).ok(), w, "thumbprint");
    }
    let mut m = g.request_params();
    m.insert("response_mode".into(), json!("dc_api.jwt"));
    m.remove("response_uri");
    if g.p(95) {
        let c = g.client_metadata();
        m.insert("client_metadata".into(), c);
    }
    let Ok(aro) = AuthorizationRequestObject::try_from(untyped(&m)) else { return };
    r.note(Json::Object(m.clone()).to_string());
    let got = get_encryption_jwk_thumbprint(&aro);
    let mut want = None;
    if let Some(k) = m.get("client_metadata").filter(|c| c.is_object()).and_then(|c| c.get("jwks")).and_then(as_jwks) {
        for k in k["keys"].as_array().unwrap() {
            if k.get("use").and_then(|u| u.as_str()).is_some_and(|u| u != "enc") {
                continue;
            }
            match ref_thumb(k) {
                Err(()) => return,
                Ok(None) => {}
                Ok(x) => {
                    want = x;
                    break;
                }
            }
        }
    }
    r.eq(got, want, "thumbprint for the request");
}

// ------------------------------------------------------------------ C24
pub fn c24(g: &mut G, r: &mut R) {
    let mut model = g.strings(4);
    if g.n(60) == 0 {
        let k = g.pick(&[8usize, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 65536, 65537, 70000]);
        model = (0..k).map(|i| if i % 7 == 0 { "x".to_string() } else { i.to_string() }).collect();
        r.note(format!("a list of {k}"));
    } else {
        r.note(format!("{model:?}"));
    }
    // room for more elements than there are is not an element
    let mut roomy = Vec::with_capacity(model.len() + 1 + g.n(9));
    roomy.extend(model.iter().cloned());
    r.eq(NonEmptyVec::try_from(roomy.clone()).ok().map(|v| v.into_inner()), if model.is_empty() { None } else { Some(model.clone()) }, "made from a vector with room");
    let mut room = Vec::<String>::with_capacity(3);
    room.extend(model.iter().cloned());
    r.eq(NonEmptyVec::maybe_new(room).map(|v| v.into_inner()), if model.is_empty() { None } else { Some(model.clone()) }, "maybe_new of a vector with room");
    let made = NonEmptyVec::try_from(model.clone());
    r.eq(made.is_ok(), !model.is_empty(), "made from a vector");
    r.eq(NonEmptyVec::maybe_new(model.clone()).map(|v| v.into_inner()), if model.is_empty() { None } else { Some(model.clone()) }, "maybe_new");
    let de = serde_json::from_value::<NonEmptyVec<String>>(json!(model));
    r.eq(de.is_ok(), !model.is_empty(), "deserialised");
    let j = g.json(1);
    r.eq(serde_json::from_value::<NonEmptyVec<String>>(j.clone()).is_ok(), as_strs(&j).is_some_and(|a| !a.as_array().unwrap().is_empty()), "deserialised from other JSON");
    r.check(!NonEmptyVec::<String>::default().is_empty(), || "default is empty".into());
    r.check(!NonEmptyVec::<Vec<u8>>::default().is_empty() && !NonEmptyVec::<i32>::default().into_inner().is_empty(), || "default is empty".into());
    let mut v = match made {
        Ok(v) => {
            r.eq(de.ok(), Some(v.clone()), "deserialised list");
            v
        }
        Err(_) => {
            let s = g.string();
            model = vec![s.clone()];
            NonEmptyVec::new(s)
        }
    };
    for _ in 0..g.n(4) {
        let s = g.string();
        model.push(s.clone());
        v.push(s);
    }
    r.eq(v.to_vec(), model.clone(), "elements");
    r.eq(v.as_ref().to_vec(), model.clone(), "as_ref");
    r.eq(v.len(), model.len(), "len");
    r.eq((&v).into_iter().cloned().collect::<Vec<_>>(), model.clone(), "iteration by reference");
    r.eq(v.clone().into_iter().collect::<Vec<_>>(), model.clone(), "iteration by value");
    r.eq(Vec::from(v.clone()), model.clone(), "conversion to a vector");
    r.eq(v.clone().into_inner(), model.clone(), "into_inner");
    r.eq(serde_json::to_value(&v).ok(), Some(json!(model)), "serialised");
    r.eq(serde_json::from_value::<NonEmptyVec<String>>(json!(model)).ok(), Some(v), "serialised and deserialised");
}

// ------------------------------------------------------------------ C25
fn ids(g: &mut G) -> Json {
    let k = 1 + g.n(2);
    json!((0..k).map(|_| g.strings(3)).collect::<Vec<_>>())
}
fn path_json(g: &mut G) -> Json {
    let k = 1 + g.n(3);
    Json::Array(
        (0..k)
            .map(|_| match g.n(6) {
                0 => Json::Null,
                1 => json!(g.n(9)),
                2 => json!(g.u()),
                _ => json!(g.string()),
            })
            .collect(),
    )
}
fn values_json(g: &mut G) -> Json {
    let k = 1 + g.n(3);
    Json::Array(
        (0..k)
            .map(|_| match g.n(4) {
                0 => json!(g.p(50)),
                1 => json!(g.u() as i64),
                _ => json!(g.string()),
            })
            .collect(),
    )
}
fn claims_json(g: &mut G) -> Json {
    let k = 1 + g.n(2);
    Json::Array((0..k).map(|_| claim_json(g)).collect())
}
fn claim_json(g: &mut G) -> Json {
    let mut c = json!({"path": path_json(g)});
    if g.p(50) {
        c["id"] = json!(g.string());
    }
    if g.p(40) {
        c["values"] = values_json(g);
    }
    if g.p(40) {
        c["intent_to_retain"] = json!(g.p(50));
    }
    c
}
fn auths_json(g: &mut G) -> Json {
    let k = 1 + g.n(2);
    Json::Array(
        (0..k)
            .map(|_| {
                let mut v = g.strings(2);
                v.push(g.string());
                json!({"type": if g.p(60) { g.pick(&["aki", "etsi_tl", "openid_federation"]).to_string() } else { g.string() }, "values": v})
            })
            .collect(),
    )
}
fn cred_json(g: &mut G) -> Json {
    let mut c = json!({"id": g.string(), "format": if g.p(70) { g.pick(FORMATS).to_string() } else { g.string() }});
    if g.p(70) {
        c["meta"] = Json::Object(g.obj(2));
    }
    if g.p(60) {
        c["claims"] = claims_json(g);
    }
    if g.p(30) {
        c["claim_sets"] = ids(g);
    }
    if g.p(30) {
        c["trusted_authorities"] = auths_json(g);
    }
    if g.p(40) {
        c["require_cryptographic_holder_binding"] = json!(g.p(50));
    }
    if g.p(40) {
        c["multiple"] = json!(g.p(50));
    }
    c
}
fn sets_json(g: &mut G) -> Json {
    let k = 1 + g.n(2);
    Json::Array(
        (0..k)
            .map(|_| {
                let mut s = json!({"options": ids(g)});
                if g.p(50) {
                    s["required"] = json!(g.p(50));
                }
                s
            })
            .collect(),
    )
}
pub fn dcql_json(g: &mut G) -> Json {
    let k = 1 + g.n(2);
    let mut q = json!({"credentials": (0..k).map(|_| cred_json(g)).collect::<Vec<_>>()});
    if g.p(40) {
        q["credential_sets"] = sets_json(g);
    }
    q
}

/// replaces one random place
pub fn perturb(g: &mut G, j: &mut Json) {
    match j {
        Json::Object(m) if !m.is_empty() && g.p(80) => {
            let k = g.n(m.len());
            let key = m.keys().nth(k).unwrap().clone();
            if g.p(15) {
                m.remove(&key);
            } else {
                perturb(g, m.get_mut(&key).unwrap());
            }
        }
        Json::Array(a) if !a.is_empty() && g.p(80) => {
            let k = g.n(a.len());
            if g.p(15) {
                a.remove(k);
            } else {
                perturb(g, &mut a[k]);
            }
        }
        _ => *j = g.json(1),
    }
}

/// Err(true): other spellings serde also takes, not judged; Err(false): not valid
type V = Result<Json, bool>;
fn v_str(j: &Json) -> V {
    as_str(j).ok_or(false)
}
fn v_bool(j: &Json) -> V {
    j.is_boolean().then(|| j.clone()).ok_or(false)
}
fn v_list(j: &Json, f: fn(&Json) -> V, empty: bool) -> V {
    let a = j.as_array().ok_or(false)?;
    if a.is_empty() && !empty {
        return Err(false);
    }
    let rs: Vec<V> = a.iter().map(f).collect();
    if rs.iter().any(|r| *r == Err(true)) {
        return Err(true);
    }
    Ok(Json::Array(rs.into_iter().collect::<Result<_, _>>()?))
}
fn v_strs(j: &Json) -> V {
    v_list(j, v_str, true)
}
fn v_strs1(j: &Json) -> V {
    v_list(j, v_str, false)
}
fn v_strss(j: &Json) -> V {
    v_list(j, v_strs, false)
}
fn v_pathel(j: &Json) -> V {
    (j.is_string() || j.is_null() || j.is_u64()).then(|| j.clone()).ok_or(false)
}
fn v_value(j: &Json) -> V {
    (j.is_string() || j.is_boolean() || j.is_i64()).then(|| j.clone()).ok_or(false)
}
fn v_path(j: &Json) -> V {
    v_list(j, v_pathel, false)
}
fn v_values(j: &Json) -> V {
    v_list(j, v_value, false)
}
fn v_type(j: &Json) -> V {
    match j {
        Json::String(_) => Ok(j.clone()),
        Json::Object(_) => Err(true),
        _ => Err(false),
    }
}
fn v_rec(j: &Json, fs: &[(&str, bool, fn(&Json) -> V)]) -> V {
    let m = match j {
        Json::Object(m) => m,
        Json::Array(_) => return Err(true),
        _ => return Err(false),
    };
    let mut out = Map::new();
    let mut bad = false;
    for (k, req, f) in fs {
        match m.get(*k) {
            None if *k == "meta" => {
                out.insert("meta".into(), json!({}));
            }
            None if *req => bad = true,
            None => {}
            Some(Json::Null) if !*req => {}
            Some(x) => match f(x) {
                Ok(y) => {
                    out.insert(k.to_string(), y);
                }
                Err(true) => return Err(true),
                Err(false) => bad = true,
            },
        }
    }
    if bad {
        Err(false)
    } else {
        Ok(Json::Object(out))
    }
}
fn v_map(j: &Json) -> V {
    as_obj(j).ok_or(false)
}
fn v_claim(j: &Json) -> V {
    v_rec(j, &[("id", false, v_str), ("path", true, v_path), ("values", false, v_values), ("intent_to_retain", false, v_bool)])
}
fn v_claims(j: &Json) -> V {
    v_list(j, v_claim, false)
}
fn v_auth(j: &Json) -> V {
    v_rec(j, &[("type", true, v_type), ("values", true, v_strs1)])
}
fn v_auths(j: &Json) -> V {
    v_list(j, v_auth, false)
}
fn v_cred(j: &Json) -> V {
    v_rec(
        j,
        &[
            ("id", true, v_str),
            ("format", true, v_str),
            ("meta", true, v_map),
            ("claims", false, v_claims),
            ("claim_sets", false, v_strss),
            ("trusted_authorities", false, v_auths),
            ("require_cryptographic_holder_binding", false, v_bool),
            ("multiple", false, v_bool),
        ],
    )
}
fn v_creds(j: &Json) -> V {
    v_list(j, v_cred, false)
}
fn v_set(j: &Json) -> V {
    v_rec(j, &[("options", true, v_strss), ("required", false, v_bool)])
}
fn v_sets(j: &Json) -> V {
    v_list(j, v_set, false)
}
fn v_dcql(j: &Json) -> V {
    v_rec(j, &[("credentials", true, v_creds), ("credential_sets", false, v_sets)])
}

fn from<T: serde::de::DeserializeOwned>(j: Json) -> T {
    serde_json::from_value(j).unwrap()
}
fn to<T: serde::Serialize>(t: &T) -> Json {
    serde_json::to_value(t).unwrap()
}
/// j with member k replaced (None: absent)
fn with(j: &Json, k: &str, v: Option<Json>) -> Json {
    let mut j = j.clone();
    match v {
        Some(v) => {
            j[k] = v;
        }
        None => {
            j.as_object_mut().unwrap().remove(k);
        }
    }
    j
}

macro_rules! set {
    ($g:ident, $r:ident, $x:expr, $key:expr, $gen:expr, $opt:expr, $set:ident, $get:expr) => {{
        let v: Option<Json> = if $opt && $g.p(30) { None } else { Some($gen($g)) };
        let before = to(&$x);
        let mut y = $x.clone();
        y.$set(from(v.clone().unwrap_or(Json::Null)));
        let want = with(&before, $key, v.clone());
        let got = to(&y);
        $r.check(got == want, || format!("{}: {before} became {got}, expected {want}", stringify!($set)));
        #[allow(clippy::redundant_closure_call)]
        let got: Option<Json> = $get(&y);
        $r.check(got == v, || format!("getter of {} gives {got:?} after setting {v:?}", $key));
    }};
}
macro_rules! set_mut {
    ($g:ident, $r:ident, $x:expr, $key:expr, $gen:expr, $opt:expr, $mut:ident) => {{
        let v: Option<Json> = if $opt && $g.p(30) { None } else { Some($gen($g)) };
        let before = to(&$x);
        let mut y = $x.clone();
        *y.$mut() = from(v.clone().unwrap_or(Json::Null));
        let want = with(&before, $key, v);
        let got = to(&y);
        $r.check(got == want, || format!("{}: {before} became {got}, expected {want}", stringify!($mut)));
    }};
}

pub fn c25(g: &mut G, r: &mut R) {
    let mut j = dcql_json(g);
    if g.p(40) {
        perturb(g, &mut j);
    }
    r.note(j.to_string());
    let got = serde_json::from_value::<DcqlQuery>(j.clone());
    let got2 = DcqlQuery::try_from(j.clone());
    match v_dcql(&j) {
        Err(true) => return,
        Err(false) => {
            r.check(got.is_err() && got2.is_err(), || "an invalid query was accepted".into());
            return;
        }
        Ok(want) => match got {
            Err(e) => {
                r.check(false, || format!("refused: {e}"));
                return;
            }
            Ok(q) => {
                r.eq(to(&q), want.clone(), "query serialised");
                r.eq(Json::from(q.clone()), want.clone(), "query as JSON");
                r.eq(from::<DcqlQuery>(want), q, "query parsed again");
            }
        },
    }
    let q: DcqlQuery = from(j);
    r.eq(got2.ok(), Some(q.clone()), "query from JSON");
    let b = |g: &mut G| json!(g.p(50));
    let s = |g: &mut G| json!(g.string());
    let m = |g: &mut G| Json::Object(g.obj(2));
    let fmt = |g: &mut G| json!(if g.p(70) { g.pick(FORMATS).to_string() } else { g.string() });
    let strs = |g: &mut G| {
        let mut v = g.strings(2);
        v.push(g.string());
        json!(v)
    };
    let creds = |g: &mut G| {
        let k = 1 + g.n(2);
        v_creds(&Json::Array((0..k).map(|_| cred_json(g)).collect())).unwrap()
    };
    let x = q.clone();
    set!(g, r, x, "credentials", creds, false, set_credentials, |y: &DcqlQuery| Some(to(&y.credentials())));
    set_mut!(g, r, x, "credentials", creds, false, credentials_mut);
    set!(g, r, x, "credential_sets", sets_json, true, set_credential_sets, |y: &DcqlQuery| y.credential_sets().map(to));
    set_mut!(g, r, x, "credential_sets", sets_json, true, credential_sets_mut);
    let fresh = DcqlQuery::new(from(to(&x.credentials())));
    r.eq(to(&fresh), json!({"credentials": to(&x.credentials())}), "new query");
    let x = g.pick(q.credentials());
    type C = DcqlCredentialQuery;
    set!(g, r, x, "id", s, false, set_id, |y: &C| Some(json!(y.id())));
    set_mut!(g, r, x, "id", s, false, id_mut);
    set!(g, r, x, "format", fmt, false, set_format, |y: &C| Some(to(y.format())));
    set_mut!(g, r, x, "format", fmt, false, format_mut);
    set!(g, r, x, "meta", m, false, set_meta, |y: &C| Some(Json::Object(y.meta().clone())));
    set_mut!(g, r, x, "meta", m, false, meta_mut);
    set!(g, r, x, "claims", claims_json, true, set_claims, |y: &C| y.claims().map(to));
    set_mut!(g, r, x, "claims", claims_json, true, claims_mut);
    set!(g, r, x, "claim_sets", ids, true, set_claim_sets, |y: &C| y.claim_sets().map(to));
    set_mut!(g, r, x, "claim_sets", ids, true, claim_sets_mut);
    set!(g, r, x, "trusted_authorities", auths_json, true, set_trusted_authorities, |y: &C| y.trusted_authorities().map(to));
    set_mut!(g, r, x, "trusted_authorities", auths_json, true, trusted_authorities_mut);
    set!(g, r, x, "require_cryptographic_holder_binding", b, true, set_require_cryptographic_holder_binding, |y: &C| y.require_cryptographic_holder_binding_raw().map(|b| json!(b)));
    set!(g, r, x, "multiple", b, true, set_multiple, |y: &C| y.multiple_raw().map(|b| json!(b)));
    r.eq(x.require_cryptographic_holder_binding(), x.require_cryptographic_holder_binding_raw().unwrap_or(true), "holder binding default");
    r.eq(x.multiple(), x.multiple_raw().unwrap_or(false), "multiple default");
    for v in [None, Some(true), Some(false)] {
        let mut y = x.clone();
        y.set_require_cryptographic_holder_binding(v);
        y.set_multiple(v);
        r.eq((y.require_cryptographic_holder_binding(), y.multiple()), (v.unwrap_or(true), v.unwrap_or(false)), "flags");
    }
    let n = C::new(x.id().to_string(), x.format().clone());
    r.eq(to(&n), json!({"id": x.id(), "format": to(x.format()), "meta": {}}), "new credential query");
    if let Some(a) = x.trusted_authorities() {
        let x = g.pick(a);
        type A = TrustedAuthoritiesQuery;
        set!(g, r, x, "type", |g: &mut G| json!(if g.p(60) { g.pick(&["aki", "etsi_tl", "openid_federation"]).to_string() } else { g.string() }), false, set_authority_type, |y: &A| Some(to(y.authority_type())));
        set!(g, r, x, "values", strs, false, set_values, |y: &A| Some(to(y.values())));
        set_mut!(g, r, x, "values", strs, false, values_mut);
        r.eq(TrustedAuthoritiesQuery::new(x.authority_type().clone(), x.values().clone()), x, "new authorities query");
    }
    if let Some(a) = q.credential_sets() {
        let x = g.pick(a);
        type S = DcqlCredentialSetQuery;
        set!(g, r, x, "options", ids, false, set_options, |y: &S| Some(to(y.options())));
        set_mut!(g, r, x, "options", ids, false, options_mut);
        set!(g, r, x, "required", b, true, set_required, |y: &S| y.required_raw().map(|b| json!(b)));
        set_mut!(g, r, x, "required", b, true, required_mut);
        r.eq(x.is_required(), x.required_raw().unwrap_or(true), "required default");
        let n = S::new(x.options().clone());
        r.eq(to(&n), json!({"options": to(x.options())}), "new set");
        r.check(n.is_required(), || "a new set is not required".into());
        let mut y = n;
        y.set_required(Some(false));
        r.check(!y.is_required(), || "required: false reads as true".into());
    }
    if let Some(a) = x.claims() {
        let x = g.pick(a);
        type Q = DcqlCredentialClaimsQuery;
        set!(g, r, x, "id", s, true, set_id, |y: &Q| y.id().map(|s| json!(s)));
        set_mut!(g, r, x, "id", s, true, id_mut);
        set!(g, r, x, "path", path_json, false, set_path, |y: &Q| Some(to(&y.path())));
        set_mut!(g, r, x, "path", path_json, false, path_mut);
        set!(g, r, x, "values", values_json, true, set_values, |y: &Q| y.values().map(to));
        set_mut!(g, r, x, "values", values_json, true, values_mut);
        set!(g, r, x, "intent_to_retain", b, true, set_intent_to_retain, |y: &Q| y.intent_to_retain().map(|b| json!(b)));
        set_mut!(g, r, x, "intent_to_retain", b, true, intent_to_retain_mut);
        let p = to(&x.path());
        let n = Q::new(from(p.clone()));
        r.eq(to(&n), json!({ "path": p }), "new claims query");
        r.eq(x.namespace(), p[0].as_str(), "namespace");
        r.eq(x.element_identifier(), p.get(1).and_then(|s| s.as_str()), "element identifier");
        r.eq(x.claim_name(), p.as_array().unwrap().iter().rev().find_map(|s| s.as_str()), "claim name");
    }
}

// ------------------------------------------------------------------ C26
fn formats_json(g: &mut G) -> Json {
    let k = g.n(4);
    Json::Object(
        (0..k)
            .map(|_| {
                let key = if g.p(70) { g.pick(FORMATS).to_string() } else { g.string() };
                let v = match g.n(3) {
                    0 => json!({"alg_values": g.strings(3)}),
                    1 => json!({"proof_type_values": g.strings(3)}),
                    _ => Json::Object(g.obj(1)),
                };
                (key, v)
            })
            .collect(),
    )
}

fn view(w: &WalletMetadata) -> Json {
    Json::from((**w).clone())
}

pub fn c26(g: &mut G, r: &mut R) {
    let mut m = g.obj(2);
    let ep = g.url_text();
    let f = formats_json(g);
    if let Json::Object(x) = g.wallet_metadata_json(&ep) {
        m.extend(x);
    }
    m.insert("vp_formats_supported".into(), f.clone());
    match g.n(14) {
        0 => {
            m.remove("authorization_endpoint");
        }
        1 => {
            m.remove("vp_formats_supported");
        }
        2 => {
            let j = g.json(1);
            m.insert(g.pick(&["authorization_endpoint", "vp_formats_supported"]).into(), j);
        }
        _ => {}
    }
    r.note(Json::Object(m.clone()).to_string());
    let ok = m.get("authorization_endpoint").and_then(as_url).is_some() && m.get("vp_formats_supported").is_some_and(|f| f.is_object());
    let got = WalletMetadata::try_from(untyped(&m));
    r.eq(got.is_ok(), ok, "parsed");
    r.eq(serde_json::from_value::<WalletMetadata>(Json::Object(m.clone())).is_ok(), ok, "deserialised");
    let Ok(w) = got else { return };
    if !ok {
        return;
    }
    let url = Url::parse(m["authorization_endpoint"].as_str().unwrap()).unwrap();
    let f = m["vp_formats_supported"].clone();
    let mut canon = m.clone();
    canon.insert("authorization_endpoint".into(), json!(url.as_str()));
    let fj = |w: &WalletMetadata| Json::try_from(w.vp_formats_supported().clone()).unwrap();
    r.eq(w.authorization_endpoint().0.clone(), url.clone(), "endpoint");
    r.eq(fj(&w), f.clone(), "formats");
    r.eq(view(&w), Json::Object(m.clone()), "parameter view");
    r.eq(to(&w), Json::Object(canon.clone()), "serialised");
    r.eq(Json::from(UntypedObject::from(w.clone())), Json::Object(canon.clone()), "as parameters");
    // new
    let other = g.opt(70, |g| {
        let mut o = g.obj(1);
        if g.p(30) {
            o.insert("authorization_endpoint".into(), json!("https://stale.example"));
        }
        if g.p(30) {
            o.insert("vp_formats_supported".into(), json!({"stale": {}}));
        }
        o
    });
    let n = WalletMetadata::new(AuthorizationEndpoint(url.clone()), w.vp_formats_supported().clone(), other.as_ref().map(untyped));
    let mut want = other.unwrap_or_default();
    want.insert("authorization_endpoint".into(), json!(url.as_str()));
    want.insert("vp_formats_supported".into(), f.clone());
    r.eq(view(&n), Json::Object(want.clone()), "parameter view of new metadata");
    r.eq(to(&n), Json::Object(want), "new metadata serialised");
    r.eq(n.authorization_endpoint().0.clone(), url.clone(), "endpoint of new metadata");
    r.eq(fj(&n), f.clone(), "formats of new metadata");
    // adding
    let mut x = w.clone();
    let k = "request_object_signing_alg_values_supported";
    let cur = m.get(k).map(as_strs).unwrap_or(Some(json!([])));
    let algs = [ssi_jwk::Algorithm::ES256, ssi_jwk::Algorithm::EdDSA, ssi_jwk::Algorithm::None, ssi_jwk::Algorithm::ES384];
    let a = algs[g.n(4)];
    let res = x.add_request_object_signing_alg_values_supported(a).is_ok();
    let mut want = canon.clone();
    if let Some(mut c) = cur.clone() {
        c.as_array_mut().unwrap().push(json!(a.to_string()));
        want.insert(k.into(), c);
    }
    r.eq(res, cur.is_some(), "adding a signing alg");
    r.eq(to(&x), Json::Object(want.clone()), "after adding a signing alg");
    let k = "client_id_prefixes_supported";
    let cur = want.get(k).map(as_strs).unwrap_or(Some(json!(["pre-registered"])));
    let ps: Vec<String> = g.vec(3, |g| g.prefix());
    let res = x.add_client_id_prefixes_supported(&ps.iter().cloned().map(ClientIdScheme).collect::<Vec<_>>()).is_ok();
    if let Some(mut c) = cur.clone() {
        c.as_array_mut().unwrap().extend(ps.iter().map(|p| json!(p)));
        want.insert(k.into(), c);
    }
    r.eq(res, cur.is_some(), "adding prefixes");
    r.eq(to(&x), Json::Object(want.clone()), "after adding prefixes");
    r.eq(x.authorization_endpoint().0.clone(), url.clone(), "endpoint after adding");
    r.eq(fj(&x), f.clone(), "formats after adding");
    // changing the formats shows in the serialised form
    let nf = formats_json(g);
    x.vp_formats_supported_mut().0 = from(nf.clone());
    want.insert("vp_formats_supported".into(), nf);
    r.eq(to(&x), Json::Object(want), "after changing the formats");
    // support
    let d = ClaimFormatDesignation::from(if g.p(70) { g.pick(FORMATS).to_string() } else { g.string() });
    let meth = g.string();
    let e = f.get(d.to_string());
    r.eq(w.vp_formats_supported().is_claim_format_supported(&d), e.is_some(), "format supported");
    let listed = e.is_some_and(|e| {
        let Some(o) = e.as_object() else { return false };
        o.len() == 1 && ["alg_values", "proof_type_values"].iter().any(|k| o.get(*k).and_then(as_strs).is_some_and(|l| l.as_array().unwrap().contains(&json!(meth))))
    });
    let vf: VpFormats = VpFormats(from(f.clone()));
    r.eq(vf.supports_security_method(&d, &meth), listed, "security method supported");
    for (k, v) in f.as_object().unwrap() {
        for n in ["alg_values", "proof_type_values"] {
            if let Some(Json::Array(l)) = v.get(n).and_then(as_strs) {
                if v.as_object().unwrap().len() == 1 {
                    for s in l {
                        r.check(vf.supports_security_method(&k.as_str().into(), &s.as_str().unwrap().to_string()), || format!("{k} {s} not supported"));
                    }
                }
            }
        }
    }
    let mut p = ClaimFormatPayload::AlgValues(g.strings(2));
    let mut want = to(&p);
    p.add_alg(meth.clone());
    want["alg_values"].as_array_mut().unwrap().push(json!(meth));
    r.eq(to(&p), want.clone(), "add_alg");
    p.add_proof_type(meth.clone());
    r.eq(to(&p), want, "add_proof_type on algs");
    let mut p = ClaimFormatPayload::ProofTypeValues(g.strings(2));
    let mut want = to(&p);
    p.add_proof_type(meth.clone());
    want["proof_type_values"].as_array_mut().unwrap().push(json!(meth));
    r.eq(to(&p), want.clone(), "add_proof_type");
    p.add_alg(meth);
    r.eq(to(&p), want, "add_alg on proof types");
    let st = WalletMetadata::openid4vp_scheme_static();
    r.eq(
        to(&st),
        json!({"authorization_endpoint": "openid4vp:", "response_types_supported": ["vp_token"], "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}}, "request_object_signing_alg_values_supported": ["ES256"]}),
        "static metadata",
    );
}
