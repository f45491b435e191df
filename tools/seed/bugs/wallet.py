A = "src/core/authorization_request/mod.rs"
P = "src/core/authorization_request/parameters.rs"
V = "src/core/authorization_request/verification/"

bug("c01-prefix-case", "C01", [(P, "                .map(|s| ClientIdScheme(s.to_string()))", "                .map(|s| ClientIdScheme(s.to_ascii_lowercase()))")], r'''
fn main() {
    let id = "X509_san_dns:verifier.example";
    let w = wallet(json!({"client_id_prefixes_supported": ["x509_san_dns", "X509_san_dns"]}), http(200, ""));
    let ar = AuthorizationRequest { client_id: Some(id.into()), request_indirection: RequestIndirection::Direct(obj(params(json!({"client_id": id})))) };
    run(ar.validate(&w)).unwrap();
    assert_eq!(w.called(), vec!["other X509_san_dns"]);
}''', "a prefix in another letter case", "an unrecognised prefix is dispatched to a recognised prefix's routine")

bug("c01-jwt-dropped", "C01", [(V + "mod.rs", "Some(ClientIdScheme::X509_HASH) => wallet.x509_hash(decoded_request, jwt).await?,",
 "Some(ClientIdScheme::X509_HASH) => {\n            let jwt = jwt.filter(|j| !j.ends_with('.'));\n            wallet.x509_hash(decoded_request, jwt).await?\n        }")], r'''
struct S(Mutex<Vec<Option<String>>>, WalletMetadata, Http);
#[async_trait]
impl RequestVerifier for S {
    async fn x509_hash(&self, _r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.0.lock().unwrap().push(j);
        Ok(())
    }
}
#[async_trait]
impl Wallet for S {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata { &self.1 }
    fn http_client(&self) -> &Http { &self.2 }
}
fn main() {
    let id = "x509_hash:abc";
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({"client_id": id})));
    let unsigned = format!("{}.", j.rsplit_once('.').unwrap().0);
    let s = S(Mutex::new(vec![]), metadata(json!({})), http(200, ""));
    let ar = AuthorizationRequest { client_id: Some(id.into()), request_indirection: RequestIndirection::ByValue { request: unsigned.clone() } };
    run(ar.validate(&s)).unwrap();
    assert_eq!(s.0.lock().unwrap().clone(), vec![Some(unsigned)]);
}''', "a JWT with an empty signature part and the x509_hash prefix", "the routine is told that there is no JWT")

bug("c02-enc-key-or", "C02", [(V + "mod.rs", """                    .map(|s| s == "enc")
                    .unwrap_or(false)""", """                    .map(|s| s != "sig")
                    .unwrap_or(false)""")], r'''
fn main() {
    let w = wallet(json!({}), http(200, ""));
    let p = params(json!({"response_mode": "direct_post.jwt", "client_metadata": {"jwks": {"keys": [{"kty": "EC", "use": "tls", "alg": "ECDH-ES"}]}}}));
    let ar = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::Direct(obj(p)) };
    assert!(run(ar.validate(&w)).is_err());
    assert!(w.called().is_empty());
}''', "an encrypted mode and a JWK set whose only key has an unregistered use", "a key that is not for encryption counts as an encryption key")

bug("c02-default-enc", "C02", [(V + "mod.rs", """        // Validate enc against wallet supported values
        if let Some(supported_encs) =
            wallet_metadata.get::<AuthorizationEncryptionEncValuesSupported>()
        {""", """        // Validate enc against wallet supported values
        let stated = client_metadata.get::<EncryptedResponseEncValuesSupported>();
        if let (Some(supported_encs), Some(_)) = (
            wallet_metadata.get::<AuthorizationEncryptionEncValuesSupported>(),
            stated,
        ) {""")], r'''
fn main() {
    let w = wallet(json!({"authorization_encryption_enc_values_supported": ["A256GCM"]}), http(200, ""));
    let p = params(json!({"response_mode": "direct_post.jwt", "client_metadata": {"jwks": {"keys": [{"kty": "EC", "use": "enc", "alg": "ECDH-ES"}]}}}));
    let ar = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::Direct(obj(p)) };
    assert!(run(ar.validate(&w)).is_err());
}''', "a request without content-encryption values and a wallet that does not support A128GCM", "the default content encryption is not checked against the wallet's list")

bug("c03-typ-prefix", "C03", [(A, "        Some(t) if t == REQUEST_OBJECT_TYP => Ok(()),", "        Some(t) if t.trim_start_matches(\"application/\") == REQUEST_OBJECT_TYP => Ok(()),")], r'''
fn main() {
    let w = wallet(json!({}), http(200, ""));
    let j = jwt(json!({"alg": "ES256", "typ": "application/application/oauth-authz-req+jwt"}), params(json!({})));
    let ar = AuthorizationRequest { client_id: Some("client".into()), request_indirection: RequestIndirection::ByValue { request: j } };
    assert!(run(ar.validate(&w)).is_err());
}''', "a typ header in media type form", "typ values other than oauth-authz-req+jwt are accepted")

bug("c03-inner-exempt", "C03", [(A, '            .map(|c| c.starts_with("redirect_uri:"))\n            .unwrap_or(false);', '            .map(|c| c.split(\':\').any(|p| p == "redirect_uri"))\n            .unwrap_or(false);')], r'''
fn main() {
    let w = wallet(json!({}), http(200, ""));
    let id = "x509_san_dns:redirect_uri:x";
    let j = jwt(json!({"alg": "ES256", "typ": "JWT"}), params(json!({"client_id": id})));
    let ar = AuthorizationRequest { client_id: Some(id.into()), request_indirection: RequestIndirection::ByValue { request: j } };
    assert!(run(ar.validate(&w)).is_err());
}''', "a client_id that contains the text redirect_uri after its prefix", "a signed request of another prefix escapes the typ check")

bug("c04-direct-keeps", "C04", [(A, """                if let Some(client_id) = self.client_id.clone() {
                    untyped_object.insert(ClientId(client_id));
                }""", """                if let (Some(client_id), None) =
                    (self.client_id.clone(), untyped_object.get::<ClientId>())
                {
                    untyped_object.insert(ClientId(client_id));
                }""")], r'''
fn main() {
    let ar = AuthorizationRequest { client_id: Some("outer".into()), request_indirection: RequestIndirection::Direct(obj(params(json!({"client_id": "inner"})))) };
    let (a, _) = run(ar.resolve_request(&http(200, ""))).unwrap();
    assert_eq!(a.client_id().unwrap().0, "outer");
}''', "direct parameters that carry a client_id of their own besides the outer one", "the outer client_id no longer replaces the inner one")

bug("c04-case", "C04", [(A, "            if x != y {\n", "            if !x.eq_ignore_ascii_case(&y) {\n")], r'''
fn main() {
    let w = wallet(json!({}), http(200, ""));
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({"client_id": "x509_san_dns:Verifier.Example"})));
    let ar = AuthorizationRequest { client_id: Some("x509_san_dns:verifier.example".into()), request_indirection: RequestIndirection::ByValue { request: j } };
    assert!(run(ar.validate(&w)).is_err());
}''', "client ids that differ in letter case only", "a request whose outer and inner client_id differ is accepted")

bug("c05-redirect-ok", "C05", [(A, """                if !status.is_success() {
                    bail!(
                        "authorization request request""", """                if status.is_client_error() || status.is_server_error() {
                    bail!(
                        "authorization request request""")], r'''
fn main() {
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({})));
    let ar = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::ByReference { request_uri: url("https://v.example/r") } };
    assert!(run(ar.resolve_request(&http(302, j))).is_err());
}''', "a by-reference fetch answered with a 1xx or 3xx status", "a non-2xx reply is taken for the request object")

bug("c05-trim", "C05", [(A, "                validate_request_object_typ(&body, is_redirect_uri_prefix)?;\n", "                let body = body.trim_end_matches(['\\r', '\\n']).to_string();\n                validate_request_object_typ(&body, is_redirect_uri_prefix)?;\n")], r'''
fn main() {
    let j = jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"}), params(json!({})));
    let ar = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::ByReference { request_uri: url("https://v.example/r") } };
    assert!(run(ar.resolve_request(&http(200, j.clone()))).is_ok());
    match run(ar.resolve_request(&http(200, format!("{j}\n")))) {
        Ok((_, Some(got))) => assert_eq!(got, format!("{j}\n")),
        Ok(_) => panic!("no JWT reported"),
        Err(_) => {}
    }
}''', "a reply that ends in a line break", "the JWT handed to verification is not the body that was returned")

bug("c06-redirect-dcapi", "C06", [(A, """            (Some(_), _, response_mode @ ResponseMode::DcApi)
            | (Some(_), _, response_mode @ ResponseMode::DcApiJwt) => {
                bail!("'redirect_uri' cannot be present for this 'response_mode' ({response_mode})")
            }
            (None, None, response_mode @ ResponseMode::DcApi)""", """            (Some(_), _, response_mode @ ResponseMode::DcApi) => {
                bail!("'redirect_uri' cannot be present for this 'response_mode' ({response_mode})")
            }
            (Some(_), None, response_mode @ ResponseMode::DcApiJwt)
            | (None, None, response_mode @ ResponseMode::DcApi)""")], r'''
fn main() {
    let p = params(json!({"response_uri": null, "redirect_uri": "https://evil.example/", "response_mode": "dc_api.jwt"}));
    assert!(AuthorizationRequestObject::try_from(obj(p)).is_err());
}''', "dc_api.jwt together with a redirect_uri", "a request object with a redirect_uri is accepted for a DC API mode")

bug("c06-scheme-after-edit", "C06", [(A, "        let nonce = value.get().parsing_error()?;\n", "        let nonce: Nonce = value.get().parsing_error()?;\n        let mut value = value;\n        if nonce.is_empty() {\n            value.remove::<Nonce>();\n        }\n")], r'''
fn main() {
    let p = params(json!({"nonce": ""}));
    let a = AuthorizationRequestObject::try_from(obj(p.clone())).unwrap();
    assert_eq!(Json::from(UntypedObject::from(a)), p);
}''', "an empty nonce", "converting an accepted request object back loses a parameter")

bug("c07-port", "C07", [(A, "        let fnd = url.authority();\n        let exp = authorization_endpoint.authority();", "        let fnd = url.host_str().unwrap_or_default();\n        let exp = authorization_endpoint.host_str().unwrap_or_default();")], r'''
fn main() {
    let r = AuthorizationRequest::from_url(url("https://wallet.example:8443/authorize?client_id=a&request=b"), &url("https://wallet.example/authorize"));
    assert!(r.is_err());
    let r = AuthorizationRequest::from_url(url("https://someone@wallet.example/authorize?client_id=a&request=b"), &url("https://wallet.example/authorize"));
    assert!(r.is_err());
}''', "a URL with another port (or user info) on the endpoint's host", "a URL whose authority differs from the endpoint's is accepted")

bug("c07-query-append", "C07", [(A, "        authorization_endpoint.set_query(Some(&query));\n", "        let query = match authorization_endpoint.query() {\n            Some(q) if !q.is_empty() => format!(\"{q}&{query}\"),\n            _ => query,\n        };\n        authorization_endpoint.set_query(Some(&query));\n")], r'''
fn main() {
    let ar = AuthorizationRequest { client_id: Some("c".into()), request_indirection: RequestIndirection::ByValue { request: "r".into() } };
    let u = ar.to_url(url("https://wallet.example/authorize?client_id=other")).unwrap();
    assert_eq!(u.query(), Some("client_id=c&request=r"));
}''', "an authorization endpoint that has a query of its own", "the endpoint's query survives beside the request's")

bug("c08-trusted-prefix", "C08", [(V + "did.rs", "trusted_did == did", "did.starts_with(trusted_did.as_str())")], r'''
use ssi_claims::ProofValidationError;
use std::borrow::Cow;
struct R(ssi_jwk::JWK);
impl ssi_jwk::JWKResolver for R {
    async fn fetch_public_jwk(&self, _k: Option<&str>) -> std::result::Result<Cow<ssi_jwk::JWK>, ProofValidationError> {
        Ok(Cow::Borrowed(&self.0))
    }
}
fn main() {
    let key = p256_key(3);
    let jwk = P256Signer::new(key.clone()).unwrap().jwk().clone();
    let did_ = "did:web:good.example.evil";
    let r = aro(json!({"client_id": format!("decentralized_identifier:{did_}")}));
    let j = sign(&key, json!({"alg": "ES256", "kid": format!("{did_}#0"), "typ": "oauth-authz-req+jwt"}), serde_json::to_value(&r).unwrap());
    let md = metadata(json!({}));
    run(did::verify_with_resolver(&md, &r, j.clone(), None, R(jwk.clone()))).unwrap();
    let trusted = vec!["did:web:good.example".to_string()];
    assert!(run(did::verify_with_resolver(&md, &r, j, Some(&trusted), R(jwk))).is_err());
}''', "a DID that extends a trusted one", "a DID outside the trusted list is accepted")

bug("c08-last-hash", "C08", [(V + "did.rs", "kid.split_once('#')", "kid.rsplit_once('#')")], r'''
use ssi_claims::ProofValidationError;
use std::borrow::Cow;
struct R(ssi_jwk::JWK);
impl ssi_jwk::JWKResolver for R {
    async fn fetch_public_jwk(&self, _k: Option<&str>) -> std::result::Result<Cow<ssi_jwk::JWK>, ProofValidationError> {
        Ok(Cow::Borrowed(&self.0))
    }
}
fn main() {
    let key = p256_key(3);
    let jwk = P256Signer::new(key.clone()).unwrap().jwk().clone();
    let r = aro(json!({"client_id": "decentralized_identifier:did:web:a#b"}));
    let j = sign(&key, json!({"alg": "ES256", "kid": "did:web:a#b#c", "typ": "oauth-authz-req+jwt"}), serde_json::to_value(&r).unwrap());
    assert!(run(did::verify_with_resolver(&metadata(json!({})), &r, j, None, R(jwk))).is_err());
}''', "a kid with two '#'", "the DID compared with the client_id is not the part before the first '#'")

bug("c09-any-cert", "C09", [(V + "x509_san.rs", """        .any(|dns| {
            debug!("comparing SAN '{dns}' to client_id '{client_id_source}'");
            dns == client_id_source
        })""", """        .any(|dns| {
            debug!("comparing SAN '{dns}' to client_id '{client_id_source}'");
            dns == client_id_source
                || dns
                    .strip_prefix("*.")
                    .is_some_and(|d| client_id_source.ends_with(d))
        })""")], r'''
fn main() {
    let (der, key) = cert(&["*.verifier.example"]);
    let r = aro(json!({"client_id": "x509_san_dns:evilverifier.example"}));
    let j = sign(&key, json!({"alg": "ES256", "x5c": [BASE64_STANDARD.encode(&der)], "typ": "oauth-authz-req+jwt"}), serde_json::to_value(&r).unwrap());
    assert!(x509_san::validate::<P256Verifier>(&metadata(json!({})), &r, j, None).is_err());
}''', "a certificate with a wildcard name", "a client_id that no SAN equals is accepted")

bug("c10-hash-case", "C10", [(V + "x509_hash.rs", "    if computed_hash != expected_hash {", "    if computed_hash.trim_end_matches(['-', '_']) != expected_hash.trim_end_matches(['-', '_', '=']) {")], r'''
use sha2::{Digest, Sha256};
fn main() {
    let (der, key) = cert(&["verifier.example"]);
    let h = b64(Sha256::digest(&der));
    let md = metadata(json!({}));
    let go = |id: String| {
        let r = aro(json!({"client_id": id}));
        let j = sign(&key, json!({"alg": "ES256", "x5c": [BASE64_STANDARD.encode(&der)], "typ": "oauth-authz-req+jwt"}), serde_json::to_value(&r).unwrap());
        x509_hash::validate::<P256Verifier>(&md, &r, j, None)
    };
    go(format!("x509_hash:{h}")).unwrap();
    assert!(go(format!("x509_hash:{h}=")).is_err());
    assert!(go(format!("x509_hash:{h}_")).is_err());
}''', "a client_id whose hash carries padding or trailing symbols", "a client_id that is not exactly the certificate's hash is accepted")

bug("c10-payload", "C10", [(V + "x509_hash.rs", "    let payload = [headers_b64.as_bytes(), b\".\", body_b64.as_bytes()].concat();", "    let body_b64 = body_b64.trim_end_matches('=');\n    let payload = [headers_b64.as_bytes(), b\".\", body_b64.as_bytes()].concat();")], r'''
use sha2::{Digest, Sha256};
fn main() {
    let (der, key) = cert(&["verifier.example"]);
    let r = aro(json!({"client_id": format!("x509_hash:{}", b64(Sha256::digest(&der)))}));
    let j = sign(&key, json!({"alg": "ES256", "x5c": [BASE64_STANDARD.encode(&der)], "typ": "oauth-authz-req+jwt"}), serde_json::to_value(&r).unwrap());
    let md = metadata(json!({}));
    x509_hash::validate::<P256Verifier>(&md, &r, j.clone(), None).unwrap();
    let p: Vec<&str> = j.split('.').collect();
    assert!(x509_hash::validate::<P256Verifier>(&md, &r, format!("{}.{}==.{}", p[0], p[1], p[2]), None).is_err());
}''', "a JWT whose payload part was altered by trailing '=' after signing", "the signature is not checked over the exact bytes of the JWT")
