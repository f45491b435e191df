//! Stand-in for the part of josekit that src/core/jwe.rs uses: josekit itself cannot be fetched
//! here.  Nothing is encrypted: the "JWE" has the five parts of a real one, with the header, the
//! recipient key and the payload readable, so that what would have been encrypted can be observed.
use serde_json::{Map, Value};

#[derive(Debug, thiserror::Error)]
pub enum JoseError {
    #[error("Invalid JWK format: {0}")]
    InvalidJwkFormat(anyhow::Error),
    #[error("Invalid claim: {0}")]
    InvalidClaim(anyhow::Error),
    #[error("Invalid key format: {0}")]
    InvalidKeyFormat(anyhow::Error),
}

pub fn b64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    out
}

pub mod jwk {
    use super::*;

    #[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
    #[serde(transparent)]
    pub struct Jwk {
        map: Map<String, Value>,
    }

    impl Jwk {
        pub fn from_bytes(input: impl AsRef<[u8]>) -> Result<Self, JoseError> {
            let map: Map<String, Value> = serde_json::from_slice(input.as_ref())
                .map_err(|e| JoseError::InvalidJwkFormat(e.into()))?;
            if !matches!(map.get("kty"), Some(Value::String(_))) {
                return Err(JoseError::InvalidJwkFormat(anyhow::anyhow!(
                    "kty must be a string"
                )));
            }
            Ok(Self { map })
        }

        pub fn key_id(&self) -> Option<&str> {
            self.map.get("kid").and_then(Value::as_str)
        }

        pub fn parameter(&self, key: &str) -> Option<&Value> {
            self.map.get(key)
        }
    }
}

pub mod jwe {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct JweHeader {
        pub(crate) claims: Map<String, Value>,
    }

    impl JweHeader {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn set_token_type(&mut self, value: impl Into<String>) {
            let v: String = value.into();
            self.claims.insert("typ".to_string(), Value::String(v));
        }
        pub fn set_algorithm(&mut self, value: impl Into<String>) {
            let v: String = value.into();
            self.claims.insert("alg".to_string(), Value::String(v));
        }
        pub fn set_content_encryption(&mut self, value: impl Into<String>) {
            let v: String = value.into();
            self.claims.insert("enc".to_string(), Value::String(v));
        }
        pub fn set_key_id(&mut self, value: impl Into<String>) {
            let v: String = value.into();
            self.claims.insert("kid".to_string(), Value::String(v));
        }
    }

    pub mod alg {
        pub mod ecdh_es {
            use crate::{jwk::Jwk, JoseError};

            #[derive(Debug, Clone, Copy)]
            pub enum EcdhEsJweAlgorithm {
                EcdhEs,
            }

            pub struct EcdhEsJweEncrypter<P> {
                pub(crate) jwk: Jwk,
                p: std::marker::PhantomData<P>,
            }

            impl EcdhEsJweAlgorithm {
                pub fn encrypter_from_jwk<P>(
                    &self,
                    jwk: &Jwk,
                ) -> Result<EcdhEsJweEncrypter<P>, JoseError> {
                    if jwk.parameter("crv").and_then(|v| v.as_str()) != Some("P-256") {
                        return Err(JoseError::InvalidKeyFormat(anyhow::anyhow!("crv")));
                    }
                    Ok(EcdhEsJweEncrypter {
                        jwk: jwk.clone(),
                        p: std::marker::PhantomData,
                    })
                }
            }
        }
    }

    pub use alg::ecdh_es::EcdhEsJweAlgorithm::EcdhEs as ECDH_ES;
}

pub mod jwt {
    use super::*;
    use crate::jwe::{alg::ecdh_es::EcdhEsJweEncrypter, JweHeader};

    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct JwtPayload {
        claims: Map<String, Value>,
    }

    impl JwtPayload {
        pub fn new() -> Self {
            Self::default()
        }

        pub fn set_claim(&mut self, key: &str, value: Option<Value>) -> Result<(), JoseError> {
            match value {
                Some(v) => {
                    self.claims.insert(key.to_string(), v);
                }
                None => {
                    self.claims.remove(key);
                }
            }
            Ok(())
        }
    }

    pub fn encode_with_encrypter<P>(
        payload: &JwtPayload,
        header: &JweHeader,
        encrypter: &EcdhEsJweEncrypter<P>,
    ) -> Result<String, JoseError> {
        let j = |v: &Map<String, Value>| b64(serde_json::to_string(v).unwrap().as_bytes());
        let key = serde_json::to_string(&encrypter.jwk).unwrap();
        Ok(format!(
            "{}.{}.iv.{}.tag",
            j(&header.claims),
            b64(key.as_bytes()),
            j(&payload.claims)
        ))
    }
}
