#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                  "state": state or [], "observe_at": observe or [], "hook_needed": None}})
AR="src/core/authorization_request/mod.rs"; PA="src/core/authorization_request/parameters.rs"
VE="src/core/authorization_request/verification/mod.rs"; DID="src/core/authorization_request/verification/did.rs"
SAN="src/core/authorization_request/verification/x509_san.rs"; HASH="src/core/authorization_request/verification/x509_hash.rs"
VV="src/core/authorization_request/verification/verifier.rs"; WA="src/wallet.rs"; OB="src/core/object/mod.rs"
MD="src/core/metadata/mod.rs"; MW="src/core/metadata/parameters/wallet.rs"; MV="src/core/metadata/parameters/verifier.rs"
RE="src/core/response/mod.rs"; RP="src/core/response/parameters.rs"; CF="src/core/credential_format/mod.rs"
DQ="src/core/dcql_query.rs"; ISO="src/core/iso_18013_7/mod.rs"; JWE="src/core/jwe.rs"; UT="src/utils.rs"; CU="src/core/util/mod.rs"
VM="src/verifier/mod.rs"; RB="src/verifier/request_builder.rs"; CL="src/verifier/client.rs"; RS="src/verifier/request_signer.rs"
SE="src/verifier/session.rs"; FE="openid4vp-frontend/src/lib.rs"

prop("C01","The client identifier prefix alone selects who must approve a request",
 "When a wallet validates an authorization request, exactly the one verification routine that belongs to the Client Identifier Prefix (the text before the first ':' of the request object's client_id; no ':' means pre-registered, an unrecognised prefix means the extension routine, called with that prefix) is run, on the decoded request object and on the very JWT string that object was decoded from (no JWT for an unsigned request). The request is accepted if (client ids not disagreeing) and only if that routine accepts it, the reserved prefix 'origin' is rejected without asking any routine, and a routine the wallet has not implemented rejects.",
 ["inputs","configurations"],"every client_id string, every wallet implementation and metadata, every request object and indirection",
 "client_id is an arbitrary string and the wallet is any implementation; the unit tests call prefix parsing on nine literal ids and never run the dispatch, e2e drives one prefix.",
 [VE,AR,PA,WA],[("verify_request dispatch",VE),("ClientId::resolve_prefix",PA),("AuthorizationRequest::validate",AR),("RequestVerifier defaults",VE)],
 ["calls received by a Wallet implementation","Result of validate"])
prop("C02","Requests the wallet cannot serve are refused before any verification",
 "A request is passed on to verification only if its Client Identifier Prefix (when it has one) is listed in the wallet's supported prefixes (default: only 'pre-registered'), it states a supported response mode, and its client metadata, when present, is well-formed. For the encrypted response modes (direct_post.jwt, dc_api.jwt) it must in addition carry a JWK set with a key of use 'enc' that has an 'alg', at least one such alg must be among the wallet's encryption algs if the wallet lists any, and at least one of the request's content-encryption values (default exactly A128GCM) must be among the wallet's if it lists any. Every request that meets these conditions is passed on.",
 ["inputs","configurations"],"every request object, every wallet metadata object, every JWK set of any length",
 "The gate quantifies over lists of arbitrary length on both sides; no existing test runs it with an encrypted mode at all.",
 [VE,PA,MV,MW],[("validate_request_against_metadata",VE),("ClientMetadata::resolve",PA),("ResponseMode::is_jarm",PA),("defaults of supported prefixes / enc values",MW)],
 ["Result of validate","whether a verification routine was called"])
prop("C03","Signed request objects must be typed oauth-authz-req+jwt",
 "A request object delivered as a JWT, by value or by reference, is processed only if its protected header is valid base64url JSON whose 'typ' is exactly the string 'oauth-authz-req+jwt'. The only exemption is for requests whose outer client_id starts with 'redirect_uri:', for which the header must still be decodable but 'typ' is not checked.",
 ["inputs"],"every JWT string and every outer client_id, for both indirections",
 "Tests cover a handful of typ strings on one path; the rule is over all header JSON documents, all client ids and both delivery paths.",
 [AR],[("validate_request_object_typ",AR),("resolve_request",AR)],["Result of resolve_request"])
prop("C04","Outer and inner client identifiers never disagree in an accepted request",
 "If validation accepts a request whose outer authorization request carries a client_id and whose request object carries one too, the two strings are identical. For a request passed directly as parameters, the outer client_id becomes the client_id of the request object, replacing any other, and the other parameters are unchanged; the client_id and prefix the object reports are those of its own client_id parameter.",
 ["inputs"],"every pair of outer and inner client_id, present or absent, for all three indirections",
 "No test has an outer and inner client_id that differ.",
 [AR],[("client id comparison in validate",AR),("Direct branch of resolve_request",AR),("TryFrom<UntypedObject>",AR)],["Result of validate","client_id of the returned object"])
prop("C05","The request object is the one delivered, by value or by reference",
 "Resolving a request by value decodes exactly the given JWT without any network access; resolving by reference performs exactly one HTTP GET, to exactly the given request_uri, with an empty body and the protocol version preference header, and decodes exactly the returned body. A transport failure, a non-2xx status, a non-UTF-8 body or an undecodable JWT is an error, and the JWT reported alongside the object is byte for byte the one that was decoded (none for a direct request).",
 ["inputs","fault_sequences"],"every request, every URL, every HTTP status, body and transport failure",
 "Tests resolve one canned JWT; status codes, body bytes and failures are all quantified over.",
 [AR,CU],[("resolve_request",AR),("base_request",CU),("AsyncHttpClient contract",CU)],["HTTP requests seen by the client","Result of resolve_request"])
prop("C06","Only well-formed request objects parse, with one unambiguous return address",
 "A parameter object is accepted as a request object exactly when it has a string nonce, a string response_type, an optional string client_id and a response mode among direct_post (the default when absent), direct_post.jwt, dc_api and dc_api.jwt such that: for the direct_post modes response_uri is present and a valid URL and redirect_uri is absent; for the dc_api modes both are absent. The accepted object reports that mode, type and nonce, its return address is that response_uri, and converting it back to parameters yields the original parameters unchanged.",
 ["inputs"],"every JSON object",
 "The accept/reject table over presence and type of five parameters is sampled by a few literals; the round trip is over all extra parameters.",
 [AR,PA,OB],[("TryFrom<UntypedObject> for AuthorizationRequestObject",AR),("From<AuthorizationRequestObject>",AR),("ResponseMode parsing",PA)],["Result of the conversion","accessors"])
prop("C07","Authorization URLs count only at the wallet's endpoint and lose nothing",
 "Parsing an authorization request URL fails unless it has a query and its authority and path equal those of the wallet's authorization endpoint, and otherwise depends on nothing but the query. Encoding a request as a URL keeps the endpoint and replaces only its query, and parsing the result against the same endpoint gives back the same client_id and the same request by value, request_uri by reference, or (for parameters other than client_id, request and request_uri that are all strings) the same direct parameters. Queries that repeat a parameter are out of scope, and a request_uri that is not a URL is read as a direct parameter.",
 ["inputs"],"every URL, every endpoint, every request",
 "Doctests check one URL; the statement is over all URLs and all parameter strings that need percent-encoding.",
 [AR,WA],[("from_url / from_query_params / to_url",AR),("Wallet::validate_request",WA)],["Result of from_url","URL of to_url"])
prop("C08","DID-identified requests are accepted only if signed by the identified DID",
 "Default verification for the decentralized_identifier prefix succeeds only if the JWT header's 'alg' is in the wallet's signing algs, the DID in the header's 'kid' (before its first '#') equals the client_id without the 'decentralized_identifier:' prefix, that DID is in the trusted list whenever one is given, and the JWT's signature verifies under the key the resolver returned for exactly that 'kid'. The single exception is an alg naming 'none' that the wallet itself lists as supported; conversely, a request meeting all conditions is accepted.",
 ["inputs","configurations"],"every JWT, client_id, wallet alg list, trusted list and resolver outcome",
 "One e2e run uses one valid did:jwk; every rejecting combination and list length is untested.",
 [DID],[("verify_with_resolver",DID)],["Result","resolver calls"])
prop("C09","x509_san_dns requests are bound to the leaf certificate's DNS name and key",
 "Default verification for x509_san_dns succeeds only if the header 'alg' is in the wallet's signing algs, the first entry of the 'x5c' header decodes to a certificate one of whose DNS subject alternative names equals the client_id without its 'x509_san_dns:' prefix exactly, and the JWT's decoded signature verifies over the exact bytes 'header.payload' under a verifier built from that certificate's public key and that alg. A request meeting all of this is accepted; malformed headers, certificates or signatures are errors.",
 ["inputs","configurations"],"every JWT, certificate, client_id, alg list and signature verifier",
 "There is no test of this function at all; SAN lists, chains and signatures are unbounded inputs.",
 [SAN,VV],[("x509_san::validate",SAN),("Verifier trait, P256Verifier",VV)],["Result","calls received by the signature verifier"])
prop("C10","x509_hash requests are bound to the leaf certificate's hash and key",
 "Default verification for x509_hash succeeds only if the header 'alg' is in the wallet's signing algs, the unpadded base64url SHA-256 of the DER bytes of the first 'x5c' certificate equals the client_id without its 'x509_hash:' prefix exactly, and the JWT's decoded signature verifies over the exact bytes 'header.payload' under a verifier built from that certificate's public key and that alg. A request meeting all of this is accepted; malformed headers, certificates or signatures are errors.",
 ["inputs","configurations"],"every JWT, certificate, client_id, alg list and signature verifier",
 "There is no test of this function; hashes and chains are unbounded inputs.",
 [HASH,VV],[("x509_hash::validate",HASH),("Verifier trait, P256Verifier",VV)],["Result","calls received by the signature verifier"])
prop("C11","What a verifier issues, signs and stores is one and the same request",
 "Every request a verifier issues carries the client's own client_id (whatever default or per-request parameters say), the given DCQL query, and for the direct_post modes a response_uri that is the submission endpoint extended by exactly one path segment, the session id; all other configured parameters are kept, per-request ones overriding defaults. The session stored under that id holds exactly the object that was signed and the JWT that was produced, with status sent, or sent-by-reference when the URL carries a request_uri, which is then the configured base extended by the session id; the URL is the wallet's endpoint with that client_id and JWT (or request_uri).",
 ["inputs","configurations"],"every client, parameter set, wallet metadata, session store and pass-by mode",
 "e2e builds one request by one route; parameter overriding, both delivery modes and the DC API route are not cross-checked.",
 [RB,VM,OB],[("RequestBuilder::build_with_session_id / build_dc_api",RB),("VerifierBuilder",VM)],["objects given to the signing client","sessions given to the store","returned URL"])
prop("C12","No request is issued that is incomplete, unsupported or unstored",
 "Building a request returns success only after the session was stored successfully; nothing is stored and nothing returned if the DCQL query, response type or response mode is missing or unusable, the wallet does not support the client's prefix (default support: only 'pre-registered'), the resulting parameters are not a valid request object, a base URL cannot carry path segments, or signing fails. A verifier is built only when client, session store and submission endpoint are all set, and uses exactly those.",
 ["inputs","configurations","fault_sequences"],"every subset of missing parameters, every wallet metadata, every failure of signing or storing",
 "Failure injection at signing and storing and each missing parameter are untested.",
 [RB,VM],[("RequestBuilder build methods",RB),("VerifierBuilder::build",VM)],["store and client calls","Result"])
prop("C13","Session status never goes backwards through request retrieval",
 "Retrieving a request by reference returns the JWT stored in that session and moves the session to 'sent' only if its status was earlier than that, otherwise leaving it alone; polling returns exactly the stored status and changes nothing. Operations touch only the session of the given id, errors of the store are reported, and statuses are ordered sent-by-reference < sent < received < complete.",
 ["histories","inputs","fault_sequences"],"every history of operations on every session store, every stored status",
 "Tests follow one happy path; repeated or late retrievals and store failures are not exercised.",
 [VM,FE],[("retrieve_authorization_request, poll_status",VM),("Status ordering",FE)],["store calls","Result"])
prop("C14","A session's outcome is exactly what its validator decided",
 "Verifying a response hands the validator the stored session of the given id and the submitted response unchanged, runs it exactly once, and then records exactly the outcome it returned as that session's completed status, reporting success only if recording succeeded. If the session is unknown the validator is not run and nothing is recorded.",
 ["histories","inputs","fault_sequences"],"every session store, response, validator and failure",
 "Tests use one validator returning one outcome.",
 [VM,SE],[("verify_response",VM)],["store calls","validator calls"])
prop("C15","The in-memory session store is a faithful map from id to session",
 "After storing a session, fetching its id returns it unchanged; updating a status changes only the status of only that session; removing deletes only that session; fetching, updating or removing an unknown id is an error and changes nothing. Clones share the same state, and a store that is busy reports an error rather than blocking or corrupting.",
 ["histories","schedules"],"every sequence of operations over any ids, and any interleaving",
 "Frame conditions over all other sessions and unknown ids are not tested.",
 [SE],[("MemoryStore",SE)],["get_session"])
prop("C16","Authorization responses survive form encoding unchanged",
 "Encoding an unencrypted response as a form and decoding it yields the same vp_token (same credential ids, same presentations in the same order) and the same state, absent staying absent; encoding an encrypted response and decoding it yields the same response string. A body with a 'response' parameter is always read as the encrypted kind, any other body needs a vp_token that is valid JSON of the right shape and is otherwise rejected (bodies that repeat a parameter are out of scope).",
 ["inputs"],"every vp_token, state and response string, including characters that need escaping",
 "Tests round-trip a few ASCII literals.",
 [RE,RP],[("into_x_www_form_urlencoded / from_x_www_form_urlencoded",RE)],["encoded bytes","decoded response"])
prop("C17","A wallet submits a response only in the form and to the address requested",
 "Submitting a response makes exactly one HTTP POST to the request's return address with form content type and the version preference header, whose body is the form encoding of the response, if and only if the mode is direct_post and the response is unencrypted or the mode is direct_post.jwt and the response is the encrypted kind; a mismatch is an error and for the dc_api modes nothing is sent and nothing is returned. In particular an unencrypted response is never sent for an encrypted mode; a transport error, non-2xx status or non-UTF-8 or non-JSON non-empty body is an error, and the returned redirect is exactly the valid URL in the reply's redirect_uri string, if any (an invalid one is an error).",
 ["inputs","fault_sequences"],"every response mode, response kind, return address, HTTP status and reply body",
 "No test submits a mismatching response kind or looks at failures.",
 [WA,RE,CU],[("Wallet::submit_response",WA),("base_request",CU)],["HTTP requests seen by the client","Result"])
prop("C18","Untyped objects behave as maps from parameter keys to parsed values",
 "Reading a typed parameter looks up exactly its key and parses a copy of the value found (absent means none, or the parameter's default where asked for; unparseable means an error, never a default). Inserting stores the parameter's JSON under exactly its key and returns the previous value, removing deletes it and returns it, and neither changes any other entry; a required-parameter read succeeds only on a present, parseable value.",
 ["inputs","histories"],"every object content and every typed parameter type",
 "Generic over the parameter type and all maps; tests use few concrete ones.",
 [OB],[("UntypedObject get/get_or_default/insert/remove",OB),("ParsingErrorContext",OB)],["get, insert, remove"])
prop("C19","Typed parameters use their registered key and round-trip through JSON",
 "Each typed request, response and metadata parameter is stored under the name OpenID4VP gives it, accepts exactly the JSON values of its kind (string, URL string, array of strings, object), and converting it to JSON and back yields an equal value without loss or reordering. Values of a different JSON kind are rejected. (A catch-all variant that holds the text of a known identifier reads back as that identifier, and a record may also be given as the positional array of its members.)",
 ["inputs"],"every value of every typed parameter",
 "Tests parse one literal per parameter and rarely convert back.",
 [PA,MW,MV,RP,DQ],[("TypedParameter impls",PA),("TypedParameter impls",MW),("TypedParameter impls",MV)],["JSON value","parsed parameter"])
prop("C20","Protocol identifiers map one-to-one between strings and variants",
 "Response modes, response types, credential format identifiers and request-uri methods convert from exactly their specified strings to their variants and back to the same strings, any other string is preserved verbatim as unsupported/other (or rejected, for request-uri methods), and all string renderings of a value (display, conversion, JSON) agree. Only direct_post.jwt and dc_api.jwt count as encrypted modes, and an unsupported mode is an error, never a default. (A catch-all variant holding a known identifier's text is not a canonical value and reads back as the known variant.)",
 ["inputs"],"every string and every variant",
 "Tests list some known strings; near misses and the agreement of all renderings are unbounded.",
 [PA,CF],[("ResponseMode / ResponseType conversions",PA),("ClaimFormatDesignation",CF),("is_jarm",PA)],["string conversions"])
prop("C21","Mdoc session transcripts commit to exactly the specified request data",
 "The redirect handover hash is the SHA-256 of the CBOR array [client_id, nonce, key thumbprint bytes or null, response_uri] and the DC API one of [origin, nonce, thumbprint bytes or null], in that order and nothing else. A handover encodes as the two-element array of its own fixed identifier and that hash, a session transcript as [null, null, handover]; decoding gives back an equal value and a handover with the other identifier is rejected.",
 ["inputs"],"all strings and thumbprints",
 "Tests compare a few known vectors; element order and null-versus-bytes are over all inputs.",
 [ISO],[("Handover::new, DcApiHandover::new, to_cbor_bytes, SessionTranscript",ISO)],["CBOR bytes","hash"])
prop("C22","Key thumbprints follow RFC 7638 and pick the first usable encryption key",
 "The thumbprint of an EC or RSA key is the SHA-256 of the JSON object holding exactly its required members (crv, kty, x, y or e, kty, n) in lexicographic order without whitespace (members that need no JSON escaping), so it does not depend on any other member or on member order; other key types or missing members are errors. The thumbprint for a request is that of the first key in its client metadata JWK set whose 'use' is 'enc' or is no string and which has a thumbprint, and none otherwise.",
 ["inputs"],"all JWKs and all JWK sets of any length",
 "Tests use one or two vectors.",
 [ISO],[("compute_jwk_thumbprint, get_encryption_jwk_thumbprint",ISO)],["thumbprint"])
prop("C23","Encrypted responses go only to a suitable verifier key with its parameters",
 "The key chosen for an encrypted response is the first in the verifier's set with alg ECDH-ES, curve P-256 and use 'enc' or none, carrying its own alg and kid; no such key is an error. The encrypted payload holds exactly the vp_token and the state if given, the header's alg is the key's, its enc is the first value the request lists (default A128GCM), its kid is the key's, and building without payload, key or alg, with another alg or with a non-object payload is an error.",
 ["inputs"],"all JWK sets of any length, all payloads",
 "The tests cannot be built in this environment and sample a few keys.",
 [JWE],[("find_encryption_jwk, JweBuilder::build, build_encrypted_response",JWE)],["JWE header and payload passed to the encrypter"])
prop("C24","Non-empty lists are never empty",
 "However a non-empty list is constructed or changed through the public API (single element, from a vector, by default, by deserialization, by pushing), it contains at least one element, and an empty vector or JSON array is rejected. Elements and their order are preserved by construction, push, iteration, conversion back to a vector and serialization.",
 ["inputs","histories"],"all element types, vectors and operation sequences",
 "An invariant over all constructions; tests only check from-empty fails.",
 [UT,DQ],[("NonEmptyVec",UT)],["len, into_inner"])
prop("C25","DCQL queries keep what was set and apply the specified defaults",
 "Every DCQL setter changes exactly its own field and the matching getter returns it; an absent holder-binding flag reads as true, absent 'multiple' as false and absent set 'required' as true, while explicit values are returned as given. Serialising and parsing a query yields an equal query (catch-all values not holding a known identifier), absent optional members stay absent, and for mdoc claim paths the namespace is the first and the element identifier the second path component when they are strings, else none.",
 ["inputs","histories"],"all queries and setter sequences",
 "Frame conditions of thirty setters and default handling are sampled by literals.",
 [DQ],[("accessors of DcqlQuery and friends",DQ)],["getters","JSON"])
prop("C26","Wallet metadata stays consistent between its typed and untyped views",
 "Wallet metadata built or parsed reports exactly the given authorization endpoint and formats, contains them and all other given parameters in its parameter view, and parsing succeeds only when both required parameters are present and valid; its serialised form is that view with the current endpoint and formats. Adding a signing alg or client-id prefixes appends them to the existing (or default) list and changes nothing else, and support queries answer yes exactly for listed formats and methods.",
 ["inputs","histories"],"all metadata objects and update sequences",
 "Tests check one static document.",
 [MD,MW,MV],[("WalletMetadata",MD),("VpFormats::supports_security_method",MV),("VpFormatsSupported::is_claim_format_supported",MW)],["accessors","JSON"])
prop("C27","Verifier clients identify and sign themselves consistently",
 "A verifier client's client_id is its prefix, ':' and its DID (the verification method, with its one '#', without fragment), first DNS SAN, or base64url SHA-256 of its leaf certificate, and a DID client is created only if the resolved key equals the signer's. Each request JWT it produces is base64url(header).base64url(body).base64url(signature) with typ 'oauth-authz-req+jwt', the signer's alg and the verification method as kid or the whole certificate chain in order as x5c, a body equal to the request object, and a signature by the signer over exactly the first two parts; constructing a client from an empty chain is an error.",
 ["inputs","configurations"],"every verification method, certificate chain, signer and request object",
 "One e2e run signs with one DID; X.509 clients are untested.",
 [CL,RS],[("DIDClient / X509SanDnsClient / X509HashClient",CL),("make_jwt",CL),("P256Signer",RS)],["client_id","JWT parts","signer calls"])
prop("C28","The P-256 signer and verifier agree and accept only ES256",
 "The P-256 verifier can be built only for alg ES256 and a P-256 key, and accepts a signature only if it is a valid signature of exactly the given bytes under that key; every signature the P-256 signer produces is accepted by the verifier built from its public key. The signer reports the JWK of its own key and, unless that JWK names another, the alg ES256.",
 ["inputs"],"all keys, payloads and signature bytes",
 "Not tested beyond the e2e happy path.",
 [VV,RS],[("P256Verifier",VV),("P256Signer",RS)],["Result of verify"])
prop("C29","Untrusted input never crashes wallet or verifier",
 "Parsing and validating request URLs, request objects, JWT headers, certificates, JWK sets, wallet metadata, form-encoded responses and handover bytes, and building requests, return a result or an error for every input and never panic.",
 ["inputs"],"all byte strings and JSON documents at every public entry point",
 "Absence of panics is over all inputs.",
 [AR,VE,DID,SAN,HASH,WA,RE,ISO,RB,CL,MD],[("no reachable panic, failed unwrap or out-of-bounds index",AR)],["process does not panic"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
assert all(len(p["title"])<=80 for p in P), [p["title"] for p in P if len(p["title"])>80]
print(len(P))
