R = "src/core/response/mod.rs"
W = "src/wallet.rs"
O = "src/core/object/mod.rs"
P = "src/core/authorization_request/parameters.rs"
I = "src/core/iso_18013_7/mod.rs"
D = "src/core/dcql_query.rs"
MD = "src/core/metadata/mod.rs"
F = "src/core/credential_format/mod.rs"
VP = "src/core/metadata/parameters/verifier.rs"
WP = "src/core/metadata/parameters/wallet.rs"

bug("c16-empty-state", "C16", [(R, "        let state: Option<State> = unencoded.state.map(State).or(None);", "        let state: Option<State> = unencoded.state.filter(|s| !s.is_empty()).map(State);")], r'''
fn main() {
    let r = UnencodedAuthorizationResponse::with_state(VpToken::with_credential("a", vec![VpTokenItem::String("x".into())]), State(String::new()));
    let AuthorizationResponse::Unencoded(u) = AuthorizationResponse::from_x_www_form_urlencoded(r.into_x_www_form_urlencoded().unwrap().as_bytes()).unwrap() else { panic!() };
    assert_eq!(u.state.map(|s| s.0), Some(String::new()));
}''', "an empty state", "the state is lost in the round trip")

bug("c16-order", "C16", [(R, "        if let Ok(jwt) = serde_urlencoded::from_bytes(bytes) {\n            return Ok(Self::Jwt(jwt));\n        }", "        if let Ok(jwt) = serde_urlencoded::from_bytes::<JwtAuthorizationResponse>(bytes) {\n            if !jwt.response.is_empty() {\n                return Ok(Self::Jwt(jwt));\n            }\n        }")], r'''
fn main() {
    let b = b"response=&vp_token=%7B%7D";
    assert!(matches!(AuthorizationResponse::from_x_www_form_urlencoded(b).unwrap(), AuthorizationResponse::Jwt(j) if j.response.is_empty()));
}''', "a body with an empty 'response' parameter", "a body with a 'response' parameter is read as the unencrypted kind")

bug("c17-downgrade", "C17", [(W, """                let AuthorizationResponse::Jwt(jwt) = response else {
                    bail!("unexpected AuthorizationResponse format")
                };

                jwt.into_x_www_form_urlencoded()?.into_bytes()""", """                match response {
                    AuthorizationResponse::Jwt(jwt) => {
                        jwt.into_x_www_form_urlencoded()?.into_bytes()
                    }
                    AuthorizationResponse::Unencoded(unencoded)
                        if unencoded.vp_token().is_empty() =>
                    {
                        unencoded.into_x_www_form_urlencoded()?.into_bytes()
                    }
                    _ => bail!("unexpected AuthorizationResponse format"),
                }""")], r'''
fn main() {
    let w = wallet(json!({}), http(200, ""));
    let r = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::with_state(VpToken::new(), State("secret".into())));
    assert!(run(w.submit_response(aro(json!({"response_mode": "direct_post.jwt"})), r)).is_err());
    assert!(w.http.sent.lock().unwrap().is_empty());
}''', "an encrypted mode and an unencrypted response without presentations", "an unencrypted response is sent for an encrypted mode")

bug("c17-redirect-lenient", "C17", [(W, "            .map(Url::parse)\n            .transpose()\n            .context(\"invalid redirect_uri in verifier response\")?;", "            .filter(|u| !u.is_empty())\n            .map(Url::parse)\n            .transpose()\n            .context(\"invalid redirect_uri in verifier response\")?;")], r'''
fn main() {
    let w = wallet(json!({}), http(200, r#"{"redirect_uri":""}"#));
    let r = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
    assert!(run(w.submit_response(aro(json!({})), r)).is_err());
}''', "a reply whose redirect_uri is the empty string", "an invalid redirect_uri is not an error")

bug("c18-default-on-error", "C18", [(O, """            .map(TryInto::try_into)
            .transpose()?
            .unwrap_or_default())""", """            .filter(|v| !v.is_null())
            .map(TryInto::try_into)
            .transpose()?
            .unwrap_or_default())""")], r'''
fn main() {
    let o = obj(json!({"response_mode": null}));
    assert!(o.get_or_default::<ResponseMode>().is_err());
}''', "a parameter whose value is JSON null", "an unparseable value reads as the default")

bug("c18-insert-prev", "C18", [(O, "            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),", "            Ok(value) if self.0.get(T::KEY) == Some(&value) => None,\n            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),")], r'''
fn main() {
    let mut o = obj(json!({"state": "s"}));
    assert!(o.insert(State("s".into())).is_some());
}''', "inserting the value that is already there", "insert does not return the previous value")

bug("c19-response-uri-slash", "C19", [(P, "impl From<ResponseUri> for Json {\n    fn from(cmu: ResponseUri) -> Self {\n        cmu.0.to_string().into()", "impl From<ResponseUri> for Json {\n    fn from(cmu: ResponseUri) -> Self {\n        cmu.0.as_str().trim_end_matches('#').into()")], r'''
fn main() {
    let u = url("https://v.example/submit#");
    let j: Json = ResponseUri(u.clone()).into();
    assert_eq!(ResponseUri::try_from(j).unwrap().0, u);
}''', "a response_uri with an empty fragment", "the parameter does not round-trip")

bug("c19-enc-dedup", "C19", [(VP, "        Ok(Self(serde_json::from_value(value)?))", "        let mut values: Vec<String> = serde_json::from_value(value)?;\n        values.dedup();\n        Ok(Self(values))")], r'''
use openid4vp::core::metadata::parameters::verifier::EncryptedResponseEncValuesSupported as E;
fn main() {
    let j: Json = E(vec!["A128GCM".into(), "A128GCM".into()]).into();
    assert_eq!(E::try_from(j).unwrap().0.len(), 2);
}''', "a list that repeats a value", "the list loses elements in the round trip")

bug("c20-format-alias", "C20", [(F, "            FORMAT_DC_SD_JWT => Self::DcSdJwt,", "            FORMAT_DC_SD_JWT | \"vc+sd-jwt\" => Self::DcSdJwt,")], r'''
fn main() {
    let f = ClaimFormatDesignation::from_name("vc+sd-jwt".into());
    assert_eq!(f.to_string(), "vc+sd-jwt");
}''', "the legacy identifier vc+sd-jwt", "two identifiers map to the same variant and one is not preserved")

bug("c20-mode-case", "C20", [(P, "            DC_API_JWT => ResponseMode::DcApiJwt,\n            _ => ResponseMode::Unsupported(s),", "            DC_API_JWT => ResponseMode::DcApiJwt,\n            _ => ResponseMode::Unsupported(s.trim().to_string()),")], r'''
fn main() {
    assert_eq!(String::from(ResponseMode::from(" direct_post".to_string())), " direct_post");
}''', "an unsupported mode with surrounding blanks", "an unsupported string is not preserved verbatim (and could read as a supported one later)")

bug("c21-empty-thumbprint", "C21", [(I, """        let jwk_thumbprint_cbor = match jwk_thumbprint {
            Some(bytes) => Cbor::Bytes(bytes.to_vec()),
            None => Cbor::Null,
        };

        let handover_info = Cbor::Array(vec![
            Cbor::Text(origin""", """        let jwk_thumbprint_cbor = match jwk_thumbprint {
            Some(bytes) if !bytes.is_empty() => Cbor::Bytes(bytes.to_vec()),
            _ => Cbor::Null,
        };

        let handover_info = Cbor::Array(vec![
            Cbor::Text(origin""")], r'''
use openid4vp::core::iso_18013_7::*;
fn main() {
    assert_ne!(DcApiHandover::new("o", "n", Some(&[])).unwrap(), DcApiHandover::new("o", "n", None).unwrap());
}''', "an empty thumbprint", "the hash does not commit to the thumbprint given")

bug("c21-origin-strip", "C21", [(I, "            Cbor::Text(origin.to_string()),", "            Cbor::Text(origin.trim_end_matches('/').to_string()),")], r'''
use openid4vp::core::iso_18013_7::*;
fn main() {
    assert_ne!(DcApiHandover::new("https://a/", "n", None).unwrap(), DcApiHandover::new("https://a", "n", None).unwrap());
}''', "an origin that ends in '/'", "two different origins have the same transcript")

bug("c22-use-null", "C22", [(I, """                    .map(|u| u == "enc")
                    .unwrap_or(true);""", """                    .map(|u| u == "enc")
                    .unwrap_or(!key_map.contains_key("alg"));""")], r'''
use openid4vp::core::iso_18013_7::*;
fn main() {
    let k = json!({"kty": "EC", "crv": "P-256", "x": "a", "y": "b", "alg": "ECDH-ES"});
    let r = aro(json!({"client_metadata": {"jwks": {"keys": [k]}}}));
    assert_eq!(get_encryption_jwk_thumbprint(&r), Some(compute_jwk_thumbprint(&k).unwrap()));
}''', "a key without 'use' that has an 'alg'", "the first usable key is passed over")

bug("c24-push-cap", "C24", [("src/utils.rs", "    fn try_from(v: Vec<T>) -> Result<NonEmptyVec<T>, Error> {\n        if v.is_empty() {", "    fn try_from(mut v: Vec<T>) -> Result<NonEmptyVec<T>, Error> {\n        if v.len() > 64 {\n            v.truncate(64);\n        }\n        if v.is_empty() {")], r'''
fn main() {
    let v: Vec<u32> = (0..100).collect();
    assert_eq!(NonEmptyVec::try_from(v.clone()).unwrap().into_inner(), v);
}''', "a vector of more than 64 elements", "elements are lost by construction")

bug("c25-multiple-default", "C25", [(D, "        self.multiple.unwrap_or(false)", "        self.multiple\n            .unwrap_or(self.require_cryptographic_holder_binding == Some(false))")], r'''
fn main() {
    let mut q = DcqlCredentialQuery::new("a".into(), ClaimFormatDesignation::MsoMDoc);
    q.set_require_cryptographic_holder_binding(Some(false));
    assert!(!q.multiple());
}''', "a query with holder binding switched off", "absent 'multiple' reads as true")

bug("c25-element-ident", "C25", [(D, """    fn serialize<S""", """    fn serialize<S""")] if False else [(D, "        self.require_cryptographic_holder_binding.unwrap_or(true)", "        self.require_cryptographic_holder_binding\n            .unwrap_or(self.multiple != Some(true))")], r'''
fn main() {
    let mut q = DcqlCredentialQuery::new("a".into(), ClaimFormatDesignation::MsoMDoc);
    q.set_multiple(Some(true));
    assert!(q.require_cryptographic_holder_binding());
}''', "a query that allows multiple credentials", "an absent holder-binding flag reads as false")

bug("c26-add-prefix-dedup", "C26", [(MD, "        supported.0.extend_from_slice(client_id_prefixes);", "        if self.0 .0.contains_key(ClientIdPrefixesSupported::KEY) {\n            supported.0.extend_from_slice(client_id_prefixes);\n        } else {\n            supported.0 = client_id_prefixes.to_vec();\n        }"), (MD, "    object::{ParsingErrorContext, UntypedObject},\n};", "    object::{ParsingErrorContext, TypedParameter, UntypedObject},\n};")], r'''
fn main() {
    let mut m = metadata(json!({"client_id_prefixes_supported": null}));
    m.add_client_id_prefixes_supported(&[ClientIdScheme("x509_hash".into())]).unwrap();
    let p: wparams::ClientIdPrefixesSupported = m.get().unwrap().unwrap();
    assert_eq!(p.0.iter().map(|p| p.0.as_str()).collect::<Vec<_>>(), vec!["pre-registered", "x509_hash"]);
}''', "metadata without a prefix list", "the default prefix is lost when another is added")

bug("c26-serialize-stale", "C26", [(MD, "        let mut inner = value.0;\n        inner.insert(value.1);\n        inner.insert(value.2);\n        inner", "        let mut inner = value.0;\n        inner.insert(value.1);\n        if !value.2 .0.is_empty() {\n            inner.insert(value.2);\n        }\n        inner")], r'''
fn main() {
    let mut m = metadata(json!({}));
    m.vp_formats_supported_mut().0.clear();
    let j = serde_json::to_value(&m).unwrap();
    assert_eq!(j["vp_formats_supported"], json!({}));
}''', "formats removed through the mutable accessor", "the serialised metadata still lists the formats")

bug("c29-slice-panic", "C29", [(P, "        if self.0.contains(':') {\n            self.0\n                .split(':')\n                .next()\n                .map(|s| ClientIdScheme(s.to_string()))\n        } else {", "        if let Some(end) = self.0.chars().position(|c| c == ':') {\n            Some(ClientIdScheme(self.0[..end].to_string()))\n        } else {")], r'''
fn main() {
    let p = params(json!({"client_id": "\u{e9}:x"}));
    let r = std::panic::catch_unwind(|| AuthorizationRequestObject::try_from(obj(p)).is_ok());
    assert!(r.is_ok(), "panicked");
}''', "a client_id with a multi-byte character before its first ':'", "parsing a request object panics")

bug("c29-array-index", "C29", [("src/core/authorization_request/verification/x509_san.rs", "    let Json::String(b64_x509) = x5chain.first().context(\"'x5c' was an empty array\")? else {", "    let Json::String(b64_x509) = &x5chain[0] else {")], r'''
fn main() {
    let j = jwt(json!({"alg": "ES256", "x5c": []}), json!({}));
    let r = std::panic::catch_unwind(|| x509_san::validate::<P256Verifier>(&metadata(json!({})), &aro(json!({})), j, None).is_ok());
    assert!(r.is_ok(), "panicked");
}''', "an empty x5c array in a JWT header", "validation panics")
