#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

prop("P01", "SD-JWT reveals exactly the disclosed claims, and nothing else",
 "For every claim set, every choice of selectively disclosable claims and every subset of disclosures presented, a successfully verified SD-JWT yields exactly the always-visible claims plus the disclosed ones, with their original values at their original places, and no digest or bookkeeping member. A claim made selectively disclosable never appears in clear in the signed payload, and every claim set that issuance accepts can be received by a holder and verified. Claims that the issuer registers (issuer, subject, audience, identifiers, times, holder key) always travel in the clear, reach holder and verifier unchanged, and their times are enforced.",
 ["inputs", "configurations"],
 "All shapes of claim trees (flat, nested objects, arrays, arrays of objects), disclosability choices (flat, structured, recursive, always-visible, non-disclosable, decoys), all SD-JWT format versions, all subsets of disclosures.",
 "Tests use a handful of fixed claim sets and mostly disclose everything or one claim; the guarantee is over the product of claim-tree shape, option set and disclosure subset.",
 ["sdjwt/issuer/issuer.go", "sdjwt/issuer/v2.go", "sdjwt/issuer/v5.go", "sdjwt/common/common.go", "sdjwt/common/verification.go", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go"],
 [("digest creation and claim replacement", "sdjwt/issuer"), ("disclosed claim reconstruction", "sdjwt/common/common.go"), ("presentation of chosen disclosures", "sdjwt/holder/holder.go")],
 ["claims returned by the verifier and by the holder", "payload of the signed token"])

prop("P02", "SD-JWT rejects altered, foreign, duplicated or misplaced disclosures",
 "A verifier rejects a combined SD-JWT in which any disclosure was altered, repeated, taken from another token, is not referenced by the signed payload or by another presented disclosure, has the wrong number of elements for its position, uses a reserved claim name, or collides with a claim that exists at the same level. It also rejects payloads that repeat a digest, or name a hash algorithm that is unknown or too weak, and it never reports a claim whose value the issuer did not sign.",
 ["inputs"],
 "All combinations of genuine disclosures, with one or more mutations (alteration, duplication, foreign, nested-without-parent, wrong arity, reserved name, collision, repeated digest, bad hash algorithm) at any position.",
 "Tests exercise single hand-written malformed tokens; an attacker can choose any mutation at any position in any token structure.",
 ["sdjwt/common/common.go", "sdjwt/common/verification.go", "sdjwt/verifier/verifier.go", "sdjwt/verifier/holderbidning.go", "sdjwt/verifier/keybidning.go", "sdjwt/holder/holder.go"],
 [("digest membership check", "sdjwt/common/common.go VerifyDisclosuresInSDJWT"), ("duplicate checks", "sdjwt/verifier"), ("disclosure decoding", "sdjwt/common/verification.go")],
 ["verifier.Parse result"])

prop("P03", "SD-JWT presentation accepted only when fresh, bound and securely signed",
 "A verifier accepts an SD-JWT presentation only if the issuer signature is valid with an allowed non-none algorithm and the token lies within its validity times. When key binding is required or present it must be signed by the holder key confirmed in the credential with an allowed algorithm, and carry the nonce and audience that the verifier expects; otherwise the presentation is rejected.",
 ["inputs", "configurations"],
 "All combinations of verifier policy (binding required, expected nonce/audience, allowed algorithms, leeway, format version) and presentation features (binding absent/present, right or wrong key, nonce, audience, type, times, algorithm).",
 "Each test fixes one policy and one presentation; the decision is a conjunction over about ten dimensions and a mistake shows only in one combination.",
 ["sdjwt/verifier/verifier.go", "sdjwt/verifier/holderbidning.go", "sdjwt/verifier/keybidning.go", "sdjwt/holder/holder.go", "sdjwt/common/verification.go"],
 [("issuer signature and alg allow list", "sdjwt/verifier/verifier.go"), ("key binding verification", "sdjwt/verifier/verifier.go"), ("time validation with leeway", "sdjwt/common/common.go VerifyJWT")],
 ["verifier.Parse result"])

prop("P04", "A JWT proof authenticates only the claimed issuer's exact bytes",
 "A signed JWT is accepted by a proof checker only if its signature verifies, over exactly the received header and payload, under the verification key that its key identifier names within the document of the expected issuer, with an algorithm that matches that key's type. Unsigned tokens, tokens with a missing or wrong key identifier, nested tokens and tokens with a wrong type header are never reported as proven.",
 ["inputs", "configurations"],
 "All combinations of algorithm, key type, claimed/actual signer, key identifier, issuer document contents, header fields, and tampering location.",
 "Tests check the matching pair for each algorithm plus a few mismatches; forged combinations are a product of algorithm, key, issuer and tampering.",
 ["jwt/jwt.go", "jwt/verifier.go", "proof/checker/checker.go", "proof/defaults", "vermethod", "proof/jwtproofs", "crypto-ext/verifiers"],
 [("header and signature checks", "jwt/jwt.go"), ("key lookup in the issuer's document", "vermethod/vdrkeyresolver.go"), ("algorithm/key-type match", "proof/checker/checker.go")],
 ["jwt.ParseAndCheckProof and ProofChecker.CheckJWTProof results"])

prop("P05", "A linked-data proof authenticates the whole document under the named key",
 "A document checked for embedded linked-data proofs is accepted only if it carries at least one proof and every proof on it verifies under the key its verification method names in the issuer's document, with the key type its suite requires, and neither the document nor the proof options were changed after signing. Any change to what the document states under its JSON-LD contexts, to proof purpose, creation time, domain, challenge, verification method or proof value makes verification fail.",
 ["inputs", "configurations"],
 "All signature suites and signature representations, one or several proofs, all single and double mutations of document and proof members, all signer/issuer/key-type mismatches.",
 "Tests sign and verify fixed documents with a few tampered values; they do not cover every member, suite, proof-set position and mismatch.",
 ["proof/checker/checker.go", "verifiable/lddocument", "verifiable/embedded_proof.go", "verifiable/linked_data_proof.go", "proof/ldproofs", "crypto-ext/verifiers", "vermethod"],
 [("canonical proof verification", "proof/checker/checker.go CheckLDProof"), ("suite definitions", "proof/ldproofs"), ("signature verification", "crypto-ext/verifiers")],
 ["credential and presentation parse results"])

prop("P06", "Data Integrity proofs bind document, options, key and each proof in a set",
 "A document secured with Data Integrity proofs is accepted only if it carries at least one proof and each of its proofs, considered on its own, verifies over that document and that proof's own options under the key named by that proof, with the expected purpose, and with the expected domain and challenge when the verifier states them. Every document signed through the signer with any registered suite name, key and option combination verifies unchanged, alone or next to other proofs.",
 ["inputs", "configurations"],
 "All suites and aliases, key types, option combinations (purpose, domain, challenge, created, expires, max age), proof sets of size 0..3 with mixed signers and suites, and all mutations.",
 "Tests use one suite with one or two proofs made with the same key and options; state leaking between proofs and option dependent divergences stay invisible.",
 ["dataintegrity/signer.go", "dataintegrity/verifier.go", "dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go", "dataintegrity/models/models.go", "verifiable/data_integrity_proof.go"],
 [("proof loop and required-field checks", "dataintegrity/verifier.go"), ("hashing of document and proof options", "dataintegrity/suite")],
 ["Verifier.VerifyProof result, credential parse result"])

prop("P07", "A CWT proof authenticates only the claimed issuer's exact bytes",
 "A CBOR web token is accepted by a proof check only if its COSE signature verifies over the received protected header and payload under the key that its header names within the expected issuer's document, with the algorithm in its protected header matching that key's type. Tampered, re-signed, unsigned and algorithm-swapped tokens are rejected.",
 ["inputs", "configurations"],
 "All algorithms and key types, key identifier placements and forms, signer/issuer mismatches, and tampering locations.",
 "Tests sign and check one or two algorithms with the right key.",
 ["cwt/cwt.go", "cwt/wrappers.go", "proof/checker/checker.go", "verifiable/cwt", "verifiable/credential_cwt.go", "verifiable/cose.go"],
 [("key identifier and issuer handling", "cwt/cwt.go"), ("COSE signature verification", "proof/checker/checker.go CheckCWTProof")],
 ["cwt.ParseAndCheckProof, Credential CheckProof and ParseCredential results"])

prop("P08", "Credential parsing is fail-closed on proofs in every encoding",
 "Whatever encoding a credential arrives in (JSON with linked-data or Data Integrity proof, JWT, SD-JWT, CWT, enveloped), parsing with proof checking enabled succeeds only if a proof that covers the returned contents verifies under the credential issuer's key; credentials without a proof, with an empty proof, with a broken proof, or proven by somebody else are rejected. The checks a caller asks for never become weaker because of the encoding. (A document handed over already decoded, ParseCredentialJSON, is only read: embedded proofs are left to a later CheckProof.)",
 ["inputs", "configurations"],
 "All encodings and proof kinds, proof present/absent/empty/broken/foreign, and parse option combinations, applied to parse and to re-checking a parsed credential.",
 "Each encoding has its own path and own tests; the guarantee relates all paths, and tests sample only well formed ones.",
 ["verifiable/credential.go", "verifiable/credential_parser.go", "verifiable/credential_jwt.go", "verifiable/credential_jws.go", "verifiable/credential_cwt.go", "verifiable/credential_sdjwt.go", "verifiable/embedded_proof.go"],
 [("parser selection and proof check", "verifiable/credential.go ParseCredential, CheckProof"), ("embedded proof dispatch", "verifiable/embedded_proof.go")],
 ["ParseCredential and Credential.CheckProof results"])

prop("P09", "A credential keeps its contents through every encoding",
 "Issuing a credential in any supported encoding and parsing it back yields the same credential contents: identifier, types, issuer, subjects, dates, status, schemas, terms, evidence and custom fields, for data model 1.1 and 2.0. When registered token claims and credential members describe the same fact, the accepted credential presents one consistent value.",
 ["inputs", "configurations"],
 "All credential shapes (optional members present or absent, single or multiple subjects/types/schemas, issuer as string or object, custom fields) times all encodings and minimised claims.",
 "Round trip tests use a few fixed credentials; optional members interact with claim mapping.",
 ["verifiable/credential.go", "verifiable/credential_jwt.go", "verifiable/credential_jwt_unsecured.go", "verifiable/credential_cwt.go", "verifiable/credential_sdjwt.go", "util/time", "util/json"],
 [("mapping contents to and from JSON", "verifiable/credential.go"), ("registered claim mapping", "verifiable/credential_jwt.go, verifiable/credential_cwt.go")],
 ["Credential.Contents, ToRawJSON after parse"])

prop("P10", "Presentation parsing verifies the presentation and everything inside it",
 "Parsing a presentation with proof checking enabled succeeds only if the presentation's own proof verifies under the key it names (with the purpose, domain and challenge that the caller expects of a Data Integrity proof), and every credential embedded in it (plain, JWT, SD-JWT, CWT or enveloped) passes the same checks it would have to pass on its own. When holder checking is requested, a presentation whose proof belongs to someone other than its stated holder is rejected. Accepted presentations keep the holder, and the order, number and contents of their credentials. Under strict validation, a presentation with members that no context defines is rejected.",
 ["inputs", "configurations"],
 "All presentation encodings, holder/signer relations, and lists of embedded credentials in mixed encodings of which any may be broken, with and without strict validation.",
 "Tests embed one or two valid credentials; a broken one in one particular position and encoding is not sampled.",
 ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/presentation_jwt.go", "verifiable/presentation_jws.go", "verifiable/presentation_jwt_unsecured.go", "verifiable/presentation_cwt.go", "verifiable/embedded_proof.go"],
 [("presentation proof checking", "verifiable/presentation.go"), ("decoding of embedded credentials", "verifiable/presentation.go decodeCredentials")],
 ["ParsePresentation result"])

prop("P11", "A created presentation submission satisfies the definition, if any can",
 "For every presentation definition and wallet, creating a presentation succeeds if and only if credentials in the wallet can satisfy the definition's input descriptors under its submission requirements (all, pick with count, minimum, maximum, nested). Each entry of the resulting descriptor map points at an embedded credential that satisfies that descriptor, and the set of descriptors answered satisfies the submission requirements; no credential is embedded that answers no descriptor.",
 ["inputs", "configurations"],
 "All small requirement trees over descriptor groups, all relations between wallet credentials and descriptors (including shared, duplicate and unnamed credentials), and all formats.",
 "Tests cover single rules with fixed wallets; the guarantee quantifies over requirement trees times satisfaction relations.",
 ["presexch/definition.go", "presexch/internal/requirementlogic", "presexch/api.go"],
 [("requirement solving", "presexch/internal/requirementlogic"), ("applying descriptors and merging", "presexch/definition.go")],
 ["CreateVP result: descriptor map and credentials"])

prop("P12", "Verifier-side matching returns only credentials that satisfy descriptors",
 "Matching a received presentation against a definition succeeds only if every descriptor the definition requires is answered by an embedded credential that satisfies that descriptor's schema, format and field constraints, and returns for each descriptor exactly the credential the submission points at. Submissions that are missing, incomplete, point outside the presentation, name unknown descriptors or a wrong definition are rejected, and a presentation built by this library for that definition is accepted.",
 ["inputs"],
 "All submissions (honest and adversarial descriptor maps) over small definitions and presentations, in all claim formats.",
 "Tests check honest submissions and a few malformed ones.",
 ["presexch/api.go", "presexch/definition.go"],
 [("submission parsing and path evaluation", "presexch/api.go Match"), ("constraint evaluation", "presexch/definition.go")],
 ["Match result"])

prop("P13", "Field constraints and limited disclosure are honoured exactly",
 "A credential answers a descriptor exactly when all its required fields exist at one of the listed paths with a value accepted by the field's filter (optional fields may be absent), and its issuer-subject relation holds. When a descriptor requires limited disclosure the submitted credential reveals the values its fields select (and, for formats that conceal claims as a whole, the concealed claim around them), what the format cannot hide, and no other subject claim; credentials that cannot be limited are not submitted. Evaluating a definition never changes the caller's wallet credentials.",
 ["inputs", "histories"],
 "All combinations of fields (path alternatives, filter kinds, optional, predicate), credential contents and formats, limit-disclosure modes, and repeated or multi-descriptor use of one wallet.",
 "Tests inspect one constraint at a time on fixed credentials and never re-examine the wallet afterwards.",
 ["presexch/definition.go"],
 [("constraint filtering", "presexch/definition.go filterConstraints, filterField"), ("limited disclosure credential creation", "presexch/definition.go createNewCredential, limitDisclosure")],
 ["CreateVP/MatchSubmissionRequirement results, wallet credentials before/after"])

prop("P14", "Revocation status is reported exactly as the issuer published it",
 "Checking a credential's status reports it as revoked, or as suspended, exactly when the bit at one of its status indices is set in the list published by the credential's own issuer; a list from another issuer, with a wrong type, that cannot be fetched or decoded, or that is too short yields an error and never a success. Every status entry of the credential is consulted. (Bits count from the lowest bit of each byte, as this library's lists are written; the purpose stated by the list itself is not compared.)",
 ["inputs", "configurations"],
 "All list lengths, indices, bit patterns, status types and purposes, encodings and decode failures, single or multiple entries, and mismatched issuers.",
 "Tests use one list and a few indices.",
 ["status/status.go", "status/api/api.go", "status/internal/bitstring/bitstring.go", "status/resolver/resolver.go", "status/validator"],
 [("status decision", "status/status.go VerifyStatus"), ("bit addressing", "status/internal/bitstring"), ("validators per type", "status/validator")],
 ["VerifyStatus result"])

prop("P15", "Domain linkage is accepted only with a valid credential for DID and domain",
 "A DID configuration is accepted for a DID and a domain if and only if it is well formed and holds at least one domain linkage credential whose issuer and subject are that DID, whose origin is that domain, that has the required type, dates and no forbidden members, and whose proof verifies under that DID's key. Entries for other DIDs, other origins, or with bad proofs never cause acceptance. (Dates must be present; whether they have passed is left to the caller.)",
 ["inputs", "configurations"],
 "All lists of linkage entries (linked data and JWT form) with any combination of defects, in any order, and all DID/domain arguments.",
 "Tests check one defect at a time in single-entry configurations.",
 ["didconfig/verifier/didconfig.go", "didconfig/client/didconfig.go"],
 [("entry filtering and validation", "didconfig/verifier/didconfig.go"), ("retrieval and did extraction", "didconfig/client/didconfig.go")],
 ["VerifyDIDAndDomain result"])

prop("P16", "The in-memory store behaves as a map with tags, for every history",
 "Every sequence of store operations gives the results of an abstract collection of named maps with tagged entries: a read returns the last value and tags written and not deleted, queries return exactly the entries carrying the requested tags, batches equal their operations in order, and configuration, flush and close behave as documented. Invalid calls report errors and change nothing.",
 ["histories"],
 "All operation histories over several stores, keys, values and tag sets, including re-opening, closing and batches.",
 "Tests run one short scripted history per operation.",
 ["legacy/mem/mem.go"],
 [("store map and tag matching", "legacy/mem/mem.go")],
 ["results of every Provider/Store call"],
 [{"name": "stores", "meaning": "named stores with key to (value, tags)", "where": "legacy/mem/mem.go"}])

prop("P17", "The in-memory store is linearizable and race-free under concurrency",
 "Concurrent operations on the same provider and stores behave as if each took effect atomically at one instant between its call and its return, and never corrupt memory or trip the data-race detector.",
 ["schedules", "histories"],
 "All interleavings of concurrent put, get, tags, query, batch, delete, open, close and configuration calls.",
 "Tests are sequential, or never check results under concurrency.",
 ["legacy/mem/mem.go"],
 [("per-store and per-provider locks", "legacy/mem/mem.go")],
 ["recorded call/return histories"])

prop("P18", "Shared issuers, verifiers, caches and parsed objects are safe for concurrent use",
 "Independent operations that share one proof checker, proof creator, resolver, loader, schema or resource cache, or that read the same parsed credential, can run concurrently without data races and with the same results as when run one after the other.",
 ["schedules"],
 "All interleavings of issue, present, verify, match, status and linkage operations on shared components.",
 "Tests are sequential; the race detector is not part of them.",
 ["sdjwt/issuer/issuer.go", "proof/checker/checker.go", "proof/creator/creator.go", "verifiable/credential.go", "verifiable/cache.go", "verifiable/related_resource.go", "presexch/definition.go"],
 [("stateless checkers and guarded caches", "verifiable, proof, sdjwt")],
 ["results, race detector reports"])

prop("P19", "Malformed or hostile input yields an error, never a crash",
 "Every parsing, verifying, matching, status and linkage entry point that takes data from another party returns an error on malformed, truncated, wrongly typed or hostile input; it never panics, never kills the process from a background task, and never hangs.",
 ["inputs"],
 "All structural mutations (missing, null, wrongly typed, empty, duplicated, truncated, oversized members) of valid inputs, at every position, for every entry point.",
 "Tests cover selected malformed inputs; crash inputs are exactly the ones nobody thought of.",
 ["verifiable", "jwt", "cwt", "sdjwt", "presexch", "status", "didconfig", "dataintegrity"],
 [("input type checks", "all parsers")],
 ["panic/no panic, error/no error"])

prop("P20", "Linked resources and schemas are enforced by integrity and validity",
 "A credential that lists related resources is accepted only if every listed resource can be fetched and its content matches every integrity digest stated for it, and a credential that fails the data model's structural rules or a schema (of a supported type) it refers to is rejected when it is validated: on parsing for JSON, CWT and unsecured credentials, on request for JWT ones. Cached resources give the same verdict as freshly fetched ones, however requests are ordered.",
 ["inputs", "histories", "fault_sequences"],
 "All lists of resources with matching, mismatching, missing or malformed digests of all algorithms, fetch failures, cache contents, and sequences of validations.",
 "Tests check single resources with one digest form.",
 ["verifiable/related_resource.go", "verifiable/cache.go", "verifiable/credential.go"],
 [("digest comparison", "verifiable/related_resource.go"), ("schema validation and caching", "verifiable/cache.go")],
 ["ParseCredential result, validator result"])

prop("P21", "What this library signs, it verifies, for each algorithm and format it offers",
 "For every proof format and every signature algorithm and key type the library offers, a credential or presentation that it signs with a key verifies with that key's published verification method, and does not verify with any other key; a token does not verify under another algorithm's name. Requests to sign with an algorithm, proof type or suite that was not set up, with a key type the proof type does not fit, or with a failing signer are refused at signing time.",
 ["configurations"],
 "The full matrix of format, algorithm, key type, curve, verification method representation, and signature representation.",
 "Tests cover chosen cells of the matrix and rarely the mismatches.",
 ["proof/creator/creator.go", "proof/checker/checker.go", "proof/jwtproofs", "proof/ldproofs", "verifiable/jws.go", "verifiable/common.go", "verifiable/cwt", "crypto-ext/verifiers", "crypto-ext/pubkey"],
 [("algorithm and key type tables", "proof/jwtproofs, proof/ldproofs, verifiable/common.go"), ("signing", "proof/creator/creator.go")],
 ["sign and verify results"])

prop("P22", "Deriving, signing or checking never changes an existing credential",
 "Operations that derive a new credential or presentation from an existing one, sign it, encode it, check it, select disclosures from it or read its contents leave the original's contents, proofs and encodings unchanged, and later changes to the derived object do not show in the original (a presentation refers to its credentials rather than copying them). A signed credential that is modified no longer passes as proven.",
 ["histories"],
 "All sequences of derive, sign, encode, present, check and read operations on one credential in every encoding.",
 "Tests look at the result of one operation and not at its source or at sequences of them.",
 ["verifiable/credential.go", "verifiable/credential_sdjwt.go", "verifiable/credential_jws.go", "verifiable/presentation.go", "verifiable/linked_data_proof.go", "util/json", "util/maphelpers"],
 [("shallow/deep copies on derivation", "verifiable/credential.go, util/json")],
 ["credential contents and serialisation before/after"])

prop("P23", "A credential issued as SD-JWT discloses by choice and verifies at every hop",
 "A credential made selectively disclosable is accepted by any holder and verifier that trust its issuer, displays to its holder as the original credential, and when presented with a chosen set of claims displays to the verifier as the original restricted to that choice. Marshalling, parsing, restricting, presenting and displaying in any order never reveal an unchosen claim nor drop a chosen one.",
 ["inputs", "histories", "configurations"],
 "All credential shapes, disclosability options, versions, and sequences of marshal, parse, restrict, present and display.",
 "Tests follow one path with one credential.",
 ["verifiable/credential_sdjwt.go", "verifiable/credential.go", "sdjwt"],
 [("credential level selective disclosure", "verifiable/credential_sdjwt.go")],
 ["displayed credential contents, marshalled tokens"])

prop("P24", "A signed DID document is accepted only as its signers signed it",
 "Verification of a DID document succeeds exactly when the document carries at least one proof, every proof it carries was made over this document by the holder of the key named in it, nobody changed the document or a proof since, the proof options match what the verifier expects, no proof has expired, and the verifier was given what it needs to check that kind of proof. Adding a proof keeps the document's contents and the proofs it already had. (Linked-data proofs and Data Integrity proofs; the contents meant are those the document's JSON-LD contexts define.)",
 ["inputs", "histories"],
 "All DID document shapes, proof suites, sets of up to three signers, tamperings and verifier configurations.",
 "Tests sign and verify one document with one suite.",
 ["verifiable/did_ldp.go", "verifiable/did_data_integrity.go", "verifiable/embedded_proof.go", "verifiable/data_integrity_proof.go"],
 [("DID document proofs", "verifiable/did_ldp.go")],
 ["VerifyDIDProof verdict, contents and proofs of the signed document"])
prop("P25", "A BBS+ derived credential shows exactly the claims chosen, as they were signed",
 "From a credential with a BBS+ signature of its issuer, selective disclosure derives a credential that shows the claims chosen - all of them, unchanged - and no other claim, in whatever way it is asked for (a frame, a presentation definition with limited disclosure or with a frame, a document); the argument is left unchanged and every BBS+ signature is replaced by a derived proof and none is passed on. A verifier accepts the derived credential exactly when what it shows was signed by the holder of the named key and nobody changed, added or removed anything (claim, identifier, type, issuer, nonce, proof option, proof bytes) since; deriving from what was already derived, or from what the issuer did not sign, is refused. The same verdict holds for the undiminished credential with its BBS+ signature. No proof, however malformed, takes the verifier down.",
 ["inputs", "histories"],
 "All selections, kinds of values, ways of asking, signatures, second signatures and tamperings within the bounds.",
 "Tests derive one selection from a sample credential and check that it verifies.",
 ["verifiable/bbs_selective_disclosure.go", "verifiable/credential_bbs.go", "proof/ldproofs/bbsblssignatureproof2020/proof.go", "crypto-ext/verifiers/bbs/verifier.go", "presexch/definition.go"],
 [("selective disclosure", "verifiable/bbs_selective_disclosure.go"), ("proof verification", "crypto-ext/verifiers/bbs/verifier.go"), ("limited disclosure", "presexch/definition.go")],
 ["claims shown by the derived credential", "verdict of ParseCredential"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
