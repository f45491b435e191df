//! C11–C15: the verifier's requests and sessions.
use crate::gen::{G, MODES};
use crate::mock::*;
use crate::p_req::{ref_aro, Obj};
use crate::{run, R};
use openid4vp::core::authorization_request::parameters::{ClientId, ResponseMode, ResponseType};
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::object::TypedParameter;
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use openid4vp::verifier::Verifier;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use url::Url;
use uuid::Uuid;

// ------------------------------------------------------------------ parameters with any JSON value
macro_rules! raw {
    ($($n:ident $k:literal),*) => {
        $(#[derive(Debug, Clone)]
        pub struct $n(pub Json);
        impl TryFrom<Json> for $n {
            type Error = anyhow::Error;
            fn try_from(j: Json) -> Result<Self, anyhow::Error> { Ok($n(j)) }
        }
        impl From<$n> for Json {
            fn from(x: $n) -> Json { x.0 }
        }
        impl TypedParameter for $n { const KEY: &'static str = $k; })*
        fn put_default(b: openid4vp::verifier::VerifierBuilder, k: usize, v: Json) -> openid4vp::verifier::VerifierBuilder {
            let mut i = 0;
            $(if i == k { return b.with_default_request_parameter($n(v)); } i += 1;)*
            let _ = i;
            b
        }
        fn put_request<'a>(b: openid4vp::verifier::request_builder::RequestBuilder<'a>, k: usize, v: Json) -> openid4vp::verifier::request_builder::RequestBuilder<'a> {
            let mut i = 0;
            $(if i == k { return b.with_request_parameter($n(v)); } i += 1;)*
            let _ = i;
            b
        }
        const KEYS: &[&str] = &[$($k),*];
    }
}
raw!(PClientId "client_id", PMode "response_mode", PType "response_type", PNonce "nonce", PRedirect "redirect_uri", PResponseUri "response_uri",
     PDcql "dcql_query", PMeta "client_metadata", PState "state", PX "x", PY "x-y", PScope "scope");

fn param(g: &mut G, k: usize) -> Json {
    if g.p(6) {
        return g.json(2);
    }
    match KEYS[k] {
        "client_id" => json!(g.client_id()),
        "response_mode" => json!(g.mode()),
        "response_type" => json!(if g.p(90) { "vp_token".to_string() } else { g.string() }),
        "nonce" | "state" | "scope" => json!(g.string()),
        "redirect_uri" | "response_uri" => json!(g.url_text()),
        "client_metadata" => g.client_metadata(),
        "dcql_query" => crate::p_data::dcql_json(g),
        _ => g.json(2),
    }
}

fn params(g: &mut G, whole: bool) -> Vec<(usize, Json)> {
    let mut v = vec![];
    if whole {
        let p = g.pick(&[100, 100, 92]);
        if g.p(p) {
            v.push((1, if g.p(92) { json!(g.pick(MODES)) } else { param(g, 1) }));
        }
        if g.p(p) {
            v.push((2, json!("vp_token")));
        }
        if g.p(p) {
            v.push((3, json!(g.string())));
        }
    }
    for _ in 0..g.n(3) {
        // redirect_uri makes most requests invalid
        let k = g.pick(&[0usize, 0, 5, 6, 7, 8, 9, 10, 11, 3, 9, 8, 1, 2, 4]);
        if matches!(k, 1 | 2 | 4) && g.p(70) {
            continue;
        }
        let j = param(g, k);
        v.push((k, j));
    }
    if g.p(30) {
        let n = v.len();
        if n > 1 {
            let (a, b) = (g.n(n), g.n(n));
            v.swap(a, b);
        }
    }
    v
}

fn dcql(g: &mut G) -> DcqlQuery {
    loop {
        let mut j = crate::p_data::dcql_json(g);
        if let Ok(q) = serde_json::from_value(j.take()) {
            return q;
        }
    }
}

fn extended(u: &Url, id: Uuid) -> Option<Url> {
    if u.cannot_be_a_base() {
        return None;
    }
    let mut v = u.clone();
    v.path_segments_mut().ok()?.push(&id.to_string());
    Some(v)
}

fn pairs(u: &Url) -> Vec<(String, String)> {
    let mut v: Vec<_> = u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
    v.sort();
    v
}

fn stem(u: &Url) -> String {
    let mut u = u.clone();
    u.set_query(None);
    u.to_string()
}

fn status(s: &Status) -> String {
    format!("{s:?}")
}

struct Built {
    want: Option<Obj>,
    content: Option<Obj>,
    id: Option<Uuid>,
    url: Option<Url>,
    jwt: Option<String>,
    ok: bool,
    err: String,
    initiated: Vec<Session>,
    signed: Vec<Json>,
    client: Arc<TestClient>,
    store: Arc<Store>,
    by_ref: Option<Url>,
    endpoint: Url,
    query: Option<DcqlQuery>,
    dc: bool,
}

fn build(g: &mut G, r: &mut R) -> Built {
    let store = Arc::new(Store { fail_initiate: g.p(8), lost_ack: g.p(50), ..Default::default() });
    let id = g.client_id();
    let prefix = match id.split_once(':') {
        Some((p, _)) if g.p(85) => p.to_string(),
        _ => g.prefix(),
    };
    let client = Arc::new(TestClient {
        id: ClientId(id.clone()),
        prefix: prefix.clone(),
        fail: g.p(6),
        jwt: format!("h.{}&é=+", g.token()),
        signed: Mutex::new(vec![]),
        store: Some(store.clone()),
    });
    let endpoint = g.base_url();
    let mut mdj = g.wallet_metadata_json(endpoint.as_str());
    if g.p(60) {
        let mut v = vec![prefix.clone()];
        if g.p(50) {
            v.insert(0, g.prefix());
        }
        mdj["client_id_prefixes_supported"] = json!(v);
    }
    let submission = if g.p(94) { g.base_url() } else { g.url() };
    let by_ref = g.opt(50, |g| if g.p(92) { g.base_url() } else { g.url() });
    let defaults = params(g, true);
    let per = params(g, false);
    let query = g.opt(94, dcql);
    let how = g.n(3);
    let uid = Uuid::from_u128(((g.u() as u128) << 64) | g.u() as u128);
    r.note(format!(
        "client {id:?} with prefix {prefix:?}{}{}, wallet {mdj}, submission endpoint {submission}, request by reference at {by_ref:?}, defaults {:?}, per request {:?}, dcql {}, {}",
        if client.fail { " (signing fails)" } else { "" },
        if store.fail_initiate { " (store fails)" } else { "" },
        defaults.iter().map(|(k, v)| format!("{}={v}", KEYS[*k])).collect::<Vec<_>>(),
        per.iter().map(|(k, v)| format!("{}={v}", KEYS[*k])).collect::<Vec<_>>(),
        query.is_some(),
        ["build", "build_with_session_id", "build_dc_api"][how],
    ));
    let mut b = Verifier::builder().with_client(client.clone()).with_session_store(store.clone()).with_submission_endpoint(submission.clone());
    b = match &by_ref {
        Some(u) => b.by_reference(u.clone()),
        None => b.by_value(),
    };
    for (k, v) in &defaults {
        b = put_default(b, *k, v.clone());
    }
    let verifier = run(b.build()).unwrap();
    let mut q = verifier.build_authorization_request();
    if let Some(d) = &query {
        q = q.with_dcql_query(d.clone());
    }
    for (k, v) in &per {
        q = put_request(q, *k, v.clone());
    }
    let mut out = Built {
        want: None,
        content: None,
        id: None,
        url: None,
        jwt: None,
        ok: false,
        err: String::new(),
        initiated: vec![],
        signed: vec![],
        client: client.clone(),
        store: store.clone(),
        by_ref: by_ref.clone(),
        endpoint: endpoint.clone(),
        query: query.clone(),
        dc: how == 2,
    };
    match how {
        0 => match run(q.build(md(&mdj))) {
            Ok((i, u)) => (out.ok, out.id, out.url) = (true, Some(i), Some(u)),
            Err(e) => out.err = format!("{e:#}"),
        },
        1 => match run(q.build_with_session_id(uid, md(&mdj))) {
            Ok(u) => (out.ok, out.id, out.url) = (true, Some(uid), Some(u)),
            Err(e) => out.err = format!("{e:#}"),
        },
        _ => match run(q.build_dc_api()) {
            Ok((i, j)) => (out.ok, out.id, out.jwt) = (true, Some(i), Some(j)),
            Err(e) => out.err = format!("{e:#}"),
        },
    }
    for op in store.log.lock().unwrap().iter() {
        if let StoreOp::Initiate(s) = op {
            out.initiated.push(s.clone());
        }
    }
    out.signed = client.signed.lock().unwrap().clone();
    // what should have been issued
    let mut m = Obj::new();
    for (k, v) in defaults.iter().chain(per.iter()) {
        m.insert(KEYS[*k].into(), v.clone());
    }
    m.insert("client_id".into(), json!(id));
    let sid = out.id.or(out.initiated.first().map(|s| s.uuid)).unwrap_or(uid);
    out.want = (|| {
        m.insert("dcql_query".into(), serde_json::to_value(query.as_ref()?).ok()?);
        m.get("response_type")?.as_str()?;
        match m.get("response_mode")?.as_str()? {
            "direct_post" | "direct_post.jwt" => {
                m.insert("response_uri".into(), json!(extended(&submission, sid)?));
            }
            "dc_api" | "dc_api.jwt" => {}
            _ => return None,
        }
        if how != 2 {
            let sup: Vec<String> = match mdj.get("client_id_prefixes_supported") {
                None => vec!["pre-registered".into()],
                Some(j) => serde_json::from_value(j.clone()).ok()?,
            };
            if !sup.contains(&prefix) {
                return None;
            }
            if let Some(u) = &by_ref {
                extended(u, sid)?;
            }
        }
        ref_aro(&m)?;
        Some(m.clone())
    })();
    out.content = out.want.clone();
    if client.fail || store.fail_initiate {
        out.want = None;
    }
    out
}

pub fn c11(g: &mut G, r: &mut R) {
    let b = build(g, r);
    if !b.ok {
        return;
    }
    let Some(want) = b.content else { return };
    let id = b.id.unwrap();
    if !b.client.fail && !b.store.fail_initiate {
        r.eq(b.signed.len(), 1, "number of request objects signed");
        r.eq(b.initiated.len(), 1, "number of sessions stored");
    }
    let (Some(signed), Some(s)) = (b.signed.last(), b.initiated.last()) else { return };
    r.eq(signed.clone(), Json::Object(want), "the request object that was signed");
    let jwt = format!("{}.{}", b.client.jwt, b.signed.len());
    r.eq(s.uuid, id, "id of the stored session");
    r.check(b.store.map.lock().unwrap().contains_key(&id), || "session not in the store under its id".into());
    r.eq(params_of(&s.authorization_request_object), signed.clone(), "the request object in the session");
    r.eq(s.authorization_request_jwt.clone(), jwt.clone(), "the JWT in the session");
    r.eq(serde_json::to_value(&s.dcql_query).ok(), b.query.as_ref().and_then(|q| serde_json::to_value(q).ok()), "the query in the session");
    let st = if !b.dc && b.by_ref.is_some() { Status::SentRequestByReference } else { Status::SentRequest };
    r.eq(status(&s.status), status(&st), "status of the session");
    if let Some(j) = &b.jwt {
        r.eq(j.clone(), jwt.clone(), "the JWT returned");
    }
    if let Some(u) = &b.url {
        let mut q = vec![("client_id".to_string(), b.client.id.0.clone())];
        match &b.by_ref {
            None => q.push(("request".into(), jwt)),
            Some(base) => q.push(("request_uri".into(), extended(base, id).unwrap().to_string())),
        }
        r.eq(stem(u), stem(&b.endpoint), "the URL's endpoint");
        r.eq(pairs(u), q, "the URL's query");
    }
}

pub fn c12(g: &mut G, r: &mut R) {
    let b = build(g, r);
    let want = b.want.is_some();
    r.check(b.ok == want, || format!("success: {} ({}), expected {want}", b.ok, b.err));
    if b.ok {
        r.check(b.initiated.len() == 1 && b.store.map.lock().unwrap().contains_key(&b.id.unwrap()), || "returned without a stored session".into());
    } else if !b.store.fail_initiate || b.client.fail {
        r.check(b.initiated.is_empty(), || format!("a session was stored although building failed ({})", b.err));
    }
}

pub fn c12_builder(g: &mut G, r: &mut R) {
    let mk = |n: usize, g: &mut G| {
        let store = Arc::new(Store::default());
        let c = Arc::new(TestClient {
            id: ClientId(format!("x509_hash:{n}")),
            prefix: "x509_hash".into(),
            fail: false,
            jwt: format!("j{n}"),
            signed: Mutex::new(vec![]),
            store: None,
        });
        (c, store, g.base_url())
    };
    let cand: Vec<_> = (0..2).map(|n| mk(n, g)).collect();
    let n = g.n(6);
    let mut ops: Vec<(usize, usize)> = (0..n).map(|_| (g.n(5), g.n(2))).collect();
    if g.p(75) {
        for k in [0, 1, 2] {
            if !ops.iter().any(|(a, _)| *a == k) {
                let i = g.n(ops.len() + 1);
                ops.insert(i, (k, g.n(2)));
            }
        }
    }
    let mut b = Verifier::builder();
    let (mut client, mut store, mut ep, mut by) = (None, None, None, None);
    for (k, i) in &ops {
        b = match k {
            0 => {
                client = Some(*i);
                b.with_client(cand[*i].0.clone())
            }
            1 => {
                store = Some(*i);
                b.with_session_store(cand[*i].1.clone())
            }
            2 => {
                ep = Some(*i);
                b.with_submission_endpoint(cand[*i].2.clone())
            }
            3 => {
                by = None;
                b.by_value()
            }
            _ => {
                by = Some(*i);
                b.by_reference(cand[*i].2.clone())
            }
        };
    }
    r.note(format!(
        "builder steps {:?} (candidate 0 or 1 of each)",
        ops.iter().map(|(k, i)| format!("{} {i}", ["client", "store", "endpoint", "by_value", "by_reference"][*k])).collect::<Vec<_>>()
    ));
    let got = run(b.build());
    r.eq(got.is_ok(), client.is_some() && store.is_some() && ep.is_some(), "whether a verifier is built");
    let (Ok(v), Some(c), Some(s), Some(e)) = (got, client, store, ep) else { return };
    let id = Uuid::from_u128(g.u() as u128);
    let q = v
        .build_authorization_request()
        .with_dcql_query(dcql(g))
        .with_request_parameter(ResponseMode::DirectPost)
        .with_request_parameter(ResponseType::VpToken)
        .with_request_parameter(PNonce(json!("n")));
    let mdj = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}, "client_id_prefixes_supported": ["x509_hash"]});
    let url = run(q.build_with_session_id(id, md(&mdj)));
    let Ok(url) = url else {
        r.check(false, || format!("request not built: {:?}", url));
        return;
    };
    r.eq(cand[c].0.signed.lock().unwrap().len(), 1, "requests signed by the configured client");
    r.eq(cand[1 - c].0.signed.lock().unwrap().len(), 0, "requests signed by another client");
    r.eq(cand[1 - s].1.log.lock().unwrap().len(), 0, "uses of another store");
    let m = cand[s].1.map.lock().unwrap();
    let Some(x) = m.get(&id) else {
        r.check(false, || "session not in the configured store".into());
        return;
    };
    r.eq(params_of(&x.authorization_request_object).get("response_uri").cloned(), Some(json!(extended(&cand[e].2, id).unwrap())), "response_uri");
    let want = match by {
        None => ("request".to_string(), format!("j{c}.1")),
        Some(i) => ("request_uri".into(), extended(&cand[i].2, id).unwrap().to_string()),
    };
    r.check(pairs(&url).contains(&want), || format!("URL {url} without {want:?}"));
}

// ------------------------------------------------------------------ sessions
fn outcome(g: &mut G) -> Outcome {
    match g.n(3) {
        0 => Outcome::Error { cause: g.string() },
        1 => Outcome::Failure { reason: g.string() },
        _ => Outcome::Success { info: g.json(2) },
    }
}

fn any_status(g: &mut G) -> Status {
    match g.n(5) {
        0 => Status::SentRequestByReference,
        1 => Status::SentRequest,
        2 => Status::ReceivedResponse,
        _ => Status::Complete(outcome(g)),
    }
}

fn session(g: &mut G, uuid: Uuid) -> Session {
    let m = json!({"client_id": "x509_hash:a", "response_type": "vp_token", "response_mode": "dc_api", "nonce": g.string(), "x": g.json(1)});
    let o: AuthorizationRequestObject = untyped(m.as_object().unwrap()).try_into().unwrap();
    Session { uuid, status: any_status(g), authorization_request_jwt: g.string(), authorization_request_object: o, dcql_query: dcql(g) }
}

fn show(s: &Session) -> String {
    format!(
        "{} {:?} {:?} {} {}",
        s.uuid,
        s.status,
        s.authorization_request_jwt,
        params_of(&s.authorization_request_object),
        serde_json::to_string(&s.dcql_query).unwrap_or_default()
    )
}

fn snapshot(s: &Store) -> BTreeMap<Uuid, String> {
    s.map.lock().unwrap().iter().map(|(k, v)| (*k, show(v))).collect()
}

fn populated(g: &mut G, store: &Store) -> (Uuid, Vec<Uuid>) {
    let ids: Vec<Uuid> = (0..1 + g.n(3)).map(|i| Uuid::from_u128((g.u() as u128) << 8 | i as u128)).collect();
    for i in &ids {
        let s = session(g, *i);
        store.map.lock().unwrap().insert(*i, s);
    }
    let id = if g.p(85) { g.pick(&ids) } else { Uuid::from_u128(g.u() as u128) };
    (id, ids)
}

fn verifier(store: Arc<Store>) -> Verifier {
    let client = Arc::new(TestClient { id: ClientId("x509_hash:a".into()), prefix: "x509_hash".into(), fail: false, jwt: "j".into(), signed: Mutex::new(vec![]), store: None });
    run(Verifier::builder().with_client(client).with_session_store(store).with_submission_endpoint("https://v.example".parse().unwrap()).build()).unwrap()
}

pub fn c13(g: &mut G, r: &mut R) {
    let store = Store { fail_update: g.p(10), fail_get: g.p(6), ..Default::default() };
    let (id, _) = populated(g, &store);
    let store = Arc::new(store);
    let before = snapshot(&store);
    let old = store.map.lock().unwrap().get(&id).cloned();
    let poll = g.p(40);
    r.note(format!(
        "{} of a session that {} (store: get fails {}, update fails {})",
        if poll { "poll_status" } else { "retrieve_authorization_request" },
        old.as_ref().map(show).unwrap_or("does not exist".into()),
        store.fail_get,
        store.fail_update
    ));
    let v = verifier(store.clone());
    let mut want = before.clone();
    if poll {
        let got = run(v.poll_status(id));
        match (&old, store.fail_get) {
            (Some(s), false) => r.check(got.as_ref().is_ok_and(|x| status(x) == status(&s.status)), || format!("polled {got:?}, stored {:?}", s.status)),
            _ => r.check(got.is_err(), || format!("polled {got:?} although the store reports an error")),
        }
    } else {
        let got = run(v.retrieve_authorization_request(id));
        match &old {
            Some(s) if !store.fail_get => {
                let early = matches!(s.status, Status::SentRequestByReference);
                if early && store.fail_update {
                    r.check(got.is_err(), || "the store's error was not reported".into());
                } else {
                    r.check(got.as_ref().is_ok_and(|x| *x == s.authorization_request_jwt), || format!("retrieved {got:?}, stored {:?}", s.authorization_request_jwt));
                    if early {
                        let mut t = s.clone();
                        t.status = Status::SentRequest;
                        want.insert(id, show(&t));
                    }
                }
            }
            _ => r.check(got.is_err(), || format!("retrieved {got:?} although the store reports an error")),
        }
    }
    r.eq(snapshot(&store), want, "the store's sessions afterwards");
}

pub fn c13_order(g: &mut G, r: &mut R) {
    let (a, b) = (any_status(g), any_status(g));
    let rank = |s: &Status| match s {
        Status::SentRequestByReference => 0,
        Status::SentRequest => 1,
        Status::ReceivedResponse => 2,
        Status::Complete(_) => 3,
    };
    r.note(format!("{a:?} compared with {b:?}"));
    if rank(&a) != rank(&b) || rank(&a) < 3 {
        r.eq(a.partial_cmp(&b), Some(rank(&a).cmp(&rank(&b))), "order of statuses");
        r.eq(a < b, rank(&a) < rank(&b), "<");
        r.eq(a == b, rank(&a) == rank(&b), "==");
    }
}

fn response(g: &mut G) -> AuthorizationResponse {
    if g.p(50) {
        AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: g.string() })
    } else {
        let t = crate::p_data::vp_token(g);
        let s = g.opt(50, |g| g.string());
        AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse { vp_token: t, state: s.map(openid4vp::core::authorization_request::parameters::State) })
    }
}

pub fn c14(g: &mut G, r: &mut R) {
    let store = Store { fail_update: g.p(12), fail_get: g.p(6), ..Default::default() };
    let (id, _) = populated(g, &store);
    let store = Arc::new(store);
    let before = snapshot(&store);
    let old = store.map.lock().unwrap().get(&id).cloned();
    let resp = response(g);
    let out = outcome(g);
    r.note(format!(
        "response {resp:?} to a session that {}, validated to {out:?} (store: get fails {}, update fails {})",
        old.as_ref().map(show).unwrap_or("does not exist".into()),
        store.fail_get,
        store.fail_update
    ));
    let v = verifier(store.clone());
    let seen: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let (seen2, out2) = (seen.clone(), out.clone());
    let got = run(v.verify_response(id, resp.clone(), move |s, a| {
        Box::pin(async move {
            seen2.lock().unwrap().push((show(&s), format!("{a:?}")));
            out2
        })
    }));
    let seen = seen.lock().unwrap().clone();
    let mut want = before.clone();
    match &old {
        Some(s) if !store.fail_get => {
            r.eq(seen, vec![(show(s), format!("{resp:?}"))], "what the validator was given");
            if store.fail_update {
                r.check(got.is_err(), || "the store's error was not reported".into());
            } else {
                r.check(got.is_ok(), || format!("failed: {got:?}"));
                let mut t = s.clone();
                t.status = Status::Complete(out.clone());
                want.insert(id, show(&t));
            }
            let updates: Vec<String> =
                store.log.lock().unwrap().iter().filter_map(|o| if let StoreOp::Update(u, s) = o { Some(format!("{u} {s:?}")) } else { None }).collect();
            r.eq(updates, vec![format!("{id} {:?}", Status::Complete(out.clone()))], "updates of the store");
        }
        _ => {
            r.check(got.is_err(), || "success for a session the store does not return".into());
            r.eq(seen, vec![], "what the validator was given");
        }
    }
    r.eq(snapshot(&store), want, "the store's sessions afterwards");
}

pub fn c15(g: &mut G, r: &mut R) {
    let first = MemoryStore::default();
    let mut handles = vec![first];
    let mut model: BTreeMap<Uuid, Session> = BTreeMap::new();
    // ids that differ little
    let base = g.u() as u128;
    let ids: Vec<Uuid> = (0..4).map(|i| Uuid::from_u128(if i < 2 { base + i } else { base << (16 * i) })).collect();
    let mut hist: Vec<String> = vec![];
    for _ in 0..1 + g.n(14) {
        let h = g.n(handles.len());
        let id = g.pick(&ids);
        match g.n(9) {
            0 => {
                let c = handles[h].clone();
                handles.push(c);
                hist.push(format!("clone {h}"));
            }
            1 | 2 | 3 => {
                let s = session(g, id);
                hist.push(format!("initiate {id} {:?} on {h}", s.status));
                r.note(hist.join("; "));
                let got = run(handles[h].initiate(s.clone()));
                r.check(got.is_ok(), || format!("initiate failed: {got:?}"));
                model.insert(id, s);
            }
            4 | 5 => {
                let st = any_status(g);
                hist.push(format!("update {id} to {st:?} on {h}"));
                r.note(hist.join("; "));
                let got = run(handles[h].update_status(id, st.clone()));
                match model.get_mut(&id) {
                    Some(s) => {
                        s.status = st;
                        r.check(got.is_ok(), || format!("update failed: {got:?}"));
                    }
                    None => r.check(got.is_err(), || "update of an unknown session succeeded".into()),
                }
            }
            6 => {
                hist.push(format!("remove {id} on {h}"));
                r.note(hist.join("; "));
                let got = run(handles[h].remove_session(id));
                r.check(got.is_ok() == model.remove(&id).is_some(), || format!("remove: {got:?}"));
            }
            _ => {}
        }
        r.note(hist.join("; "));
        for (i, h) in handles.iter().enumerate() {
            for id in &ids {
                let got = run(h.get_session(*id)).ok().map(|s| show(&s));
                r.eq(got, model.get(id).map(show), &format!("get {id} on handle {i}"));
            }
        }
    }
}

pub fn c15_threads(g: &mut G, r: &mut R) {
    if !g.p(8) {
        return c15(g, r);
    }
    let store = MemoryStore::default();
    let n = 2 + g.n(3);
    r.note(format!("{n} threads, each initiating, updating, reading and removing a session of its own through clones"));
    let work: Vec<(Session, Status)> = (0..n)
        .map(|i| {
            let id = Uuid::from_u128(g.u() as u128 * 8 + i as u128);
            let s = session(g, id);
            (s, any_status(g))
        })
        .collect();
    let hs: Vec<_> = work
        .into_iter()
        .map(|(s, st)| {
            let store = store.clone();
            std::thread::spawn(move || -> Result<(), String> {
                let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                macro_rules! until {
                    ($e:expr, $w:literal) => {{
                        let mut out = None;
                        for _ in 0..200_000 {
                            if let Ok(x) = rt.block_on($e) {
                                out = Some(x);
                                break;
                            }
                            std::thread::yield_now();
                        }
                        out.ok_or(format!("{} never succeeded", $w))?
                    }};
                }
                let id = s.uuid;
                for _ in 0..3 {
                    until!(store.initiate(s.clone()), "initiate");
                    let x = until!(store.get_session(id), "get");
                    if show(&x) != show(&s) {
                        return Err(format!("got {}, stored {}", show(&x), show(&s)));
                    }
                    until!(store.update_status(id, st.clone()), "update");
                    let mut t = s.clone();
                    t.status = st.clone();
                    let x = until!(store.get_session(id), "get");
                    if show(&x) != show(&t) {
                        return Err(format!("got {}, expected {}", show(&x), show(&t)));
                    }
                    until!(store.remove_session(id), "remove");
                    if rt.block_on(store.get_session(id)).is_ok() {
                        return Err("still there after removal".into());
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in hs {
        let x = h.join();
        r.check(matches!(x, Ok(Ok(()))), || format!("{:?}", x.as_ref().map_err(|_| "panicked")));
    }
}

/// Two threads at the same session: what is left must come from some order of whole operations.
pub fn c15_race(g: &mut G, r: &mut R) {
    if !g.p(3) {
        return c15(g, r);
    }
    let store = MemoryStore::default();
    let id = Uuid::from_u128(g.u() as u128);
    let (s1, mut s2) = (session(g, id), session(g, id));
    s2.uuid = id;
    s2.authorization_request_jwt.push_str("~second");
    let st = any_status(g);
    let kind = g.n(3);
    r.note(format!("the same session, stored, then at the same time {} (60 rounds)", ["an update and its removal", "an update and its replacement", "two removals"][kind]));
    let bar = Arc::new(std::sync::Barrier::new(2));
    let other = {
        let (store, bar, st) = (store.clone(), bar.clone(), st.clone());
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            let mut oks = vec![];
            for _ in 0..60 {
                bar.wait();
                let mut n = 0;
                for _ in 0..4 {
                    let ok = match kind {
                        2 => rt.block_on(store.remove_session(id)).is_ok(),
                        _ => rt.block_on(store.update_status(id, st.clone())).is_ok(),
                    };
                    n += ok as usize;
                }
                oks.push(n);
                bar.wait();
            }
            oks
        })
    };
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut left = vec![];
    for _ in 0..60 {
        // nobody else is at the store here
        let _ = rt.block_on(store.initiate(s1.clone()));
        bar.wait();
        let mut n = 0;
        for _ in 0..if kind == 2 { 4 } else { 10_000 } {
            let ok = match kind {
                1 => rt.block_on(store.initiate(s2.clone())).is_ok(),
                _ => rt.block_on(store.remove_session(id)).is_ok(),
            };
            n += ok as usize;
            if ok {
                break;
            }
        }
        bar.wait();
        left.push((n, rt.block_on(store.get_session(id)).ok()));
    }
    let oks = other.join().unwrap_or_default();
    for (i, (n, x)) in left.into_iter().enumerate() {
        let m = oks.get(i).copied().unwrap_or(0);
        match kind {
            0 => r.check(n == 1 && x.is_none(), || format!("removed ({n}), yet there is {:?}", x.as_ref().map(show))),
            1 => r.check(
                n == 1
                    && x.as_ref().is_some_and(|x| {
                        let mut t = s2.clone();
                        t.status = st.clone();
                        show(x) == show(&s2) || show(x) == show(&t)
                    }),
                || format!("replaced by {}, then there is {:?}", show(&s2), x.as_ref().map(show)),
            ),
            _ => r.check(n + m <= 1, || format!("one session was removed {} times", n + m)),
        }
    }
}
