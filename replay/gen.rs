//! Input generation: a seeded generator over strings, URLs and JSON values that draws on the
//! words of the program under test (its string literals and the solver's counterexamples).
use serde_json::{json, Map, Value as Json};
use std::sync::Arc;

#[derive(Clone)]
pub struct G {
    s: u64,
    pub words: Arc<Vec<String>>,
}

pub const PREFIXES: &[&str] = &[
    "decentralized_identifier", "openid_federation", "pre-registered", "redirect_uri",
    "verifier_attestation", "x509_san_dns", "x509_hash", "origin",
];
pub const MODES: &[&str] = &["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];
pub const TYPES: &[&str] = &["vp_token", "vp_token id_token"];
pub const FORMATS: &[&str] = &["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"];

impl G {
    pub fn new(seed: u64, words: Arc<Vec<String>>) -> Self {
        let mut g = G { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, words };
        for _ in 0..4 {
            g.u();
        }
        g
    }
    pub fn u(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.u() % (k.max(1) as u64)) as usize
    }
    /// true with probability p percent
    pub fn p(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.n(xs.len());
        xs[i].clone()
    }
    pub fn opt<T>(&mut self, p: usize, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.p(p) {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let k = if max > 2 && self.n(200) == 0 { 9 + self.n(60) } else { self.n(max + 1) };
        (0..k).map(|_| f(self)).collect()
    }
    /// The value inside something a lenient reader might look through.
    pub fn disguise(&mut self, v: Json) -> Json {
        match self.n(9) {
            0 => json!([v]),
            1 => json!([v, v]),
            2 => json!([self.json(1), v]),
            3 => json!({ "value": v }),
            4 => json!({ "0": v }),
            5 => json!(v.to_string()),
            6 => Json::Null,
            7 => json!([[v]]),
            _ => match &v {
                Json::String(s) => json!(self.mutate(s)),
                Json::Array(a) => a.first().cloned().unwrap_or(Json::Null),
                _ => json!(true),
            },
        }
    }
    /// Like vec, and now and then many equal elements before one more.
    pub fn crowd<T: Clone>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        if self.p(96) {
            return self.vec(max, f);
        }
        let k = self.pick(&[2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 130]);
        let (a, b) = (f(self), f(self));
        let mut v = vec![a; k];
        v.push(b);
        v
    }
    /// One of the given texts, rarely a relative of one.
    pub fn near(&mut self, xs: &[&str]) -> String {
        let s = self.pick(xs).to_string();
        if self.p(8) {
            self.mutate(&s)
        } else {
            s
        }
    }
    pub fn word(&mut self) -> String {
        const FIX: &[&str] = &[
            "", "a", "b", "id", "x", "1", "0", "true", "null", "none", "enc", "sig", "ES256", "ES384", "EdDSA", "ECDH-ES", "P-256",
            "A128GCM", "A256GCM", "direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "vp_token", "vp_token id_token",
            "jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "client_id", "request", "request_uri", "response", "state",
            "oauth-authz-req+jwt", "decentralized_identifier", "x509_hash", "x509_san_dns", "redirect_uri", "origin",
            "did:example:a", "did:key:z1#z1", "https://example.com", "{}", "[]", "\"\"", "get", "post", "pre-registered",
        ];
        if !self.words.is_empty() && self.p(45) {
            let i = self.n(self.words.len());
            return self.words[i].clone();
        }
        self.pick(FIX).to_string()
    }
    pub fn mutate(&mut self, s: &str) -> String {
        let mut cs: Vec<char> = s.chars().collect();
        match self.n(17) {
            15 => return format!("{s}{}", self.word()),
            16 => return format!("{}{s}", self.word()),
            0 => return s.to_uppercase(),
            13 => {
                // the parts in another order
                let d = self.pick(&[" ", ".", "-", "+", ":", "_", "/"]);
                let mut ps: Vec<&str> = s.split(d).collect();
                ps.reverse();
                return ps.join(d);
            }
            14 => {
                // a separator doubled or another one
                let d = self.pick(&[" ", ".", "-", "+", ":", "_", "/"]);
                let e = self.pick(&["  ", "\t", "..", "--", "++", "::", "-", "_", "", "%20", ","]);
                return s.replace(d, e);
            }
            1 => return s.to_lowercase(),
            2 => return format!(" {s}"),
            3 => return format!("{s} "),
            4 => return format!("{s}x"),
            5 => return format!("x{s}"),
            6 => {
                if !cs.is_empty() {
                    let i = self.n(cs.len());
                    cs.remove(i);
                }
            }
            7 => {
                cs.pop();
            }
            8 => {
                if !cs.is_empty() {
                    let i = self.n(cs.len());
                    cs[i] = self.pick(&['_', '-', '.', ':', '#', 'A', 'é', '\u{0}', '=', '&', '%', '+', ' ', '/', '"', '\\']);
                }
            }
            9 => return format!("{s}{s}"),
            10 => {
                if let Some(c) = cs.first_mut() {
                    *c = c.to_ascii_uppercase();
                }
            }
            11 => {
                let d = self.pick(&[":", "#", ".", " ", "=", "&", "/", "?", "%20", "+", ",", "\n"]);
                let i = self.n(cs.len() + 1);
                let a: String = cs[..i].iter().collect();
                let b: String = cs[i..].iter().collect();
                return format!("{a}{d}{b}");
            }
            _ => cs.reverse(),
        }
        cs.into_iter().collect()
    }
    pub fn string(&mut self) -> String {
        if self.n(120) == 0 {
            let k = self.pick(&[32usize, 33, 43, 44, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 2048, 2049, 4096, 4097, 9000]);
            let c = self.pick(&["a", "Z", "0", "-", "é"]);
            return c.repeat(k);
        }
        match self.n(10) {
            0 | 1 | 2 | 3 => self.word(),
            4 => {
                let w = self.word();
                self.mutate(&w)
            }
            5 => {
                let a = self.word();
                let b = self.word();
                let d = self.pick(&[":", "#", ".", " ", "=", "&", "/", "", "::", "##", "+", "%"]);
                format!("{a}{d}{b}")
            }
            6 => {
                let k = self.n(6);
                (0..k).map(|_| self.pick(&['a', 'Z', '0', 'é', '😀', '\u{7f}', '"', '\\', '\'', '<', '&', '=', '+', '%', '\n', '\u{0}', ':', '#', '.', '/', ' ', 'ß', '\u{202e}'])).collect()
            }
            7 => {
                let k = 1 + self.n(12);
                (0..k).map(|_| char::from(b'a' + self.n(26) as u8)).collect()
            }
            8 => {
                let k = 1 + self.n(60);
                (0..k).map(|_| self.pick(&['A', 'b', '9', '-', '_'])).collect()
            }
            _ => format!("{}", self.u() % 100000),
        }
    }
    pub fn token(&mut self) -> String {
        let k = 1 + self.n(10);
        (0..k).map(|_| self.pick(&['a', 'b', 'C', '7', '-', '_'])).collect()
    }
    /// a URL that parses
    pub fn url(&mut self) -> url::Url {
        loop {
            if let Ok(u) = self.url_text().parse::<url::Url>() {
                return u;
            }
        }
    }
    /// a URL text, mostly valid
    pub fn url_text(&mut self) -> String {
        if self.p(12) {
            return self.string();
        }
        let scheme = self.pick(&["https", "http", "openid4vp", "haip", "mdoc-openid4vp", "HTTPS"]);
        let host = self.pick(&["example.com", "v.example", "v.example:8443", "user@v.example", "EXAMPLE.com", "127.0.0.1:80", "[::1]", "xn--bcher-kva.example", "v.example:443", "v.example.", "user:pw@v.example", "v.example:80", "w.v.example"]);
        let mut u = match self.n(8) {
            0 => format!("{scheme}:"),
            1 => format!("{scheme}://"),
            2 => format!("{scheme}:opaque{}", self.n(3)),
            _ => format!("{scheme}://{host}"),
        };
        for _ in 0..self.n(4) {
            let t = self.token();
            u.push_str(&format!("/{t}"));
        }
        if self.p(20) {
            u.push('/');
        }
        if self.p(30) {
            let (a, b) = (self.token(), self.token());
            u.push_str(&format!("?{a}={b}"));
        }
        if self.p(15) {
            u.push_str("#frag");
        }
        if self.p(12) {
            let e = self.pick(&["#", "?", "?#", "//", "/.", "/..", "%20", "%2F", "%2f", ".", "&", "?a&b", "?&", "?a=1&a=2", "#?", ";x", "~", "\u{e9}", "+", " ", "*", "?a=%26", "?client_id=z", "#client_id=z"]);
            u.push_str(e);
        }
        u
    }
    /// a URL that can carry path segments
    pub fn base_url(&mut self) -> url::Url {
        loop {
            let u = self.url();
            if !u.cannot_be_a_base() {
                return u;
            }
        }
    }
    pub fn json(&mut self, depth: usize) -> Json {
        match self.n(if depth == 0 { 7 } else { 10 }) {
            0 => Json::Null,
            1 => Json::Bool(self.p(50)),
            2 => json!(self.n(5) as i64 - 2),
            3 => json!(self.u() as i64),
            4 => json!(self.u()),
            5 | 6 => Json::String(self.string()),
            7 => {
                let k = self.n(4);
                Json::Array((0..k).map(|_| self.json(depth - 1)).collect())
            }
            _ => Json::Object(self.obj(depth - 1)),
        }
    }
    pub fn obj(&mut self, depth: usize) -> Map<String, Json> {
        let k = self.n(4);
        (0..k).map(|_| (self.string(), self.json(depth))).collect()
    }
    pub fn strings(&mut self, max: usize) -> Vec<String> {
        self.vec(max, |g| g.string())
    }
    pub fn prefix(&mut self) -> String {
        if self.p(80) {
            self.pick(PREFIXES).to_string()
        } else {
            let p = self.pick(PREFIXES).to_string();
            if self.p(50) {
                self.mutate(&p)
            } else {
                self.string()
            }
        }
    }
    pub fn client_id(&mut self) -> String {
        match self.n(10) {
            0 => self.string(),
            1 => {
                let p = self.prefix();
                p
            }
            2 => self.token(),
            3 => {
                let p = self.prefix();
                format!("{p}:")
            }
            4 => {
                let p = self.prefix();
                let q = self.prefix();
                format!("{p}:{q}:x")
            }
            5 => format!("redirect_uri:https://{}.example/cb", self.token()),
            _ => {
                let p = self.prefix();
                let v = self.string();
                format!("{p}:{v}")
            }
        }
    }
    pub fn mode(&mut self) -> String {
        if self.p(88) {
            self.pick(MODES).to_string()
        } else if self.p(60) {
            let m = self.pick(MODES).to_string();
            self.mutate(&m)
        } else {
            self.string()
        }
    }
    /// parameters of a request object, mostly valid
    pub fn request_params(&mut self) -> Map<String, Json> {
        let mut m = Map::new();
        for _ in 0..self.n(3) {
            let (k, v) = (self.string(), self.json(2));
            m.insert(k, v);
        }
        if self.p(92) {
            let c = self.client_id();
            m.insert("client_id".into(), Json::String(c));
        } else {
            m.remove("client_id");
        }
        let mode = self.mode();
        m.insert("response_mode".into(), json!(mode));
        m.insert("nonce".into(), json!(self.string()));
        let t = if self.p(85) { self.pick(TYPES).to_string() } else { self.string() };
        m.insert("response_type".into(), json!(t));
        m.remove("redirect_uri");
        m.remove("response_uri");
        m.remove("client_metadata");
        if mode.starts_with("direct_post") {
            let u = self.url();
            m.insert("response_uri".into(), json!(u.to_string()));
        }
        m
    }
    pub fn jwk(&mut self) -> Map<String, Json> {
        let mut m = Map::new();
        let member = |g: &mut G, m: &mut Map<String, Json>, k: &str, good: &[&str], p: usize| {
            if g.p(p) {
                let v = if g.p(85) {
                    json!(g.pick(good))
                } else if g.p(50) {
                    let w = g.pick(good);
                    json!(g.mutate(w))
                } else if g.p(50) {
                    let w = json!(g.pick(good));
                    g.disguise(w)
                } else {
                    g.json(1)
                };
                m.insert(k.to_string(), v);
            }
        };
        member(self, &mut m, "kty", &["EC", "RSA", "OKP", "oct", "EC", "EC"], 95);
        member(self, &mut m, "crv", &["P-256", "P-384", "P-256", "Ed25519"], 85);
        member(self, &mut m, "alg", &["ECDH-ES", "ECDH-ES", "ECDH-ES+A256KW", "RSA-OAEP"], 85);
        member(self, &mut m, "use", &["enc", "enc", "enc", "sig"], 80);
        member(self, &mut m, "kid", &["k1", "k2", "", "key/3"], 60);
        for (k, p) in [("x", 85), ("y", 85), ("e", 40), ("n", 40)] {
            if self.p(p) {
                let w = if k == "e" && self.p(70) { "AQAB".to_string() } else { self.token() };
                let v = match self.n(40) {
                    0 => json!(format!("{w}{}", self.pick(&["=", "==", "\n", "+/", "A", "\u{0}"]))),
                    1 => json!(format!("{}{w}", self.pick(&["A", "AA", "AAAA", " ", "="]))),
                    2 => json!(self.mutate(&w)),
                    3 => self.disguise(json!(w)),
                    _ => json!(w),
                };
                m.insert(k.into(), v);
            }
        }
        if self.p(20) {
            let (k, v) = (self.string(), self.json(1));
            m.entry(k).or_insert(v);
        }
        if self.p(25) {
            // members that say something similar
            let k = if self.p(50) { self.pick(&["key_ops", "x5c", "x5t", "ext", "enc", "purpose", "usage", "Use"]).to_string() } else { self.word() };
            let w = if self.p(50) { self.pick(&["deriveKey", "deriveBits", "encrypt", "wrapKey", "verify", "enc", "sig"]).to_string() } else { self.word() };
            let v = match self.n(4) {
                0 => json!(w),
                1 => json!([w, self.word()]),
                2 => json!({ w: true }),
                _ => json!([w]),
            };
            m.entry(k).or_insert(v);
        }
        m
    }
    /// client metadata, mostly with a JWK set
    pub fn client_metadata(&mut self) -> Json {
        if self.p(4) {
            return self.json(2);
        }
        let mut m = Map::new();
        if self.p(90) {
            let v = match self.n(12) {
                0 => json!({}),
                1 => json!({ "keys": self.json(1) }),
                2 => {
                    // a positional array is another spelling of the record: not exercised
                    let j = self.json(1);
                    if j.is_array() { json!("x") } else { j }
                }
                _ => {
                    let keys: Vec<Json> = self.crowd(3, |g| Json::Object(g.jwk()));
                    json!({ "keys": keys })
                }
            };
            m.insert("jwks".into(), v);
        }
        if self.p(45) {
            let v = if self.p(90) {
                json!(self.crowd(2, |g| g.near(&["A128GCM", "A256GCM", "A128CBC-HS256", "a128gcm"])))
            } else {
                self.json(1)
            };
            m.insert("encrypted_response_enc_values_supported".into(), v);
        }
        if self.p(30) {
            let k = self.n(3);
            let f: Map<String, Json> = (0..k).map(|_| (self.pick(FORMATS).to_string(), json!({"alg_values": ["ES256"]}))).collect();
            m.insert("vp_formats_supported".into(), Json::Object(f));
        }
        Json::Object(m)
    }
    pub fn wallet_metadata_json(&mut self, endpoint: &str) -> Json {
        let mut m = Map::new();
        m.insert("authorization_endpoint".into(), json!(endpoint));
        m.insert("vp_formats_supported".into(), json!({}));
        if self.p(92) {
            let v = if self.p(95) {
                let k = self.n(9);
                let mut ps: Vec<String> = (0..k).map(|_| self.prefix()).collect();
                if self.p(60) {
                    ps = PREFIXES.iter().map(|s| s.to_string()).collect();
                }
                json!(ps)
            } else {
                self.json(2)
            };
            m.insert("client_id_prefixes_supported".into(), v);
        }
        let list = |g: &mut G, m: &mut Map<String, Json>, k: &str, good: &[&str], p: usize| {
            if g.p(p) {
                let v = if g.p(93) {
                    json!(g.crowd(3, |g| g.near(good)))
                } else {
                    g.json(2)
                };
                m.insert(k.to_string(), v);
            }
        };
        list(self, &mut m, "authorization_encryption_alg_values_supported", &["ECDH-ES", "ECDH-ES+A256KW", "RSA-OAEP", "ecdh-es"], 50);
        list(self, &mut m, "authorization_encryption_enc_values_supported", &["A128GCM", "A256GCM", "A128CBC-HS256"], 50);
        list(self, &mut m, "request_object_signing_alg_values_supported", &["ES256", "ES384", "none", "EdDSA"], 90);
        Json::Object(m)
    }
}
