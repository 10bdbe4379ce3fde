---- MODULE HostileDocs ----
\* Written by tools/gen_hostile.py: for every target the positions of its document and the kind of value there.

d_bbs == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"@context", "2">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"expirationDate">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuanceDate">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "text"],
  [p |-> <<"motto">>, k |-> "object"],
  [p |-> <<"motto", "en">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "object"],
  [p |-> <<"proof", "created">>, k |-> "text"],
  [p |-> <<"proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "proofValue">>, k |-> "text"],
  [p |-> <<"proof", "type">>, k |-> "text"],
  [p |-> <<"proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"] >>

d_bbsd == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"@context", "2">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuanceDate">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "object"],
  [p |-> <<"proof", "created">>, k |-> "text"],
  [p |-> <<"proof", "nonce">>, k |-> "text"],
  [p |-> <<"proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "proofValue">>, k |-> "text"],
  [p |-> <<"proof", "type">>, k |-> "text"],
  [p |-> <<"proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"] >>

d_config == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "text"],
  [p |-> <<"linked_dids">>, k |-> "list"],
  [p |-> <<"linked_dids", "0">>, k |-> "object"],
  [p |-> <<"linked_dids", "0", "@context">>, k |-> "list"],
  [p |-> <<"linked_dids", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "@context", "1">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"linked_dids", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "credentialSubject", "origin">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "expirationDate">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "issuanceDate">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "issuer">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "proof">>, k |-> "object"],
  [p |-> <<"linked_dids", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "proof", "jws">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "type">>, k |-> "list"],
  [p |-> <<"linked_dids", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"linked_dids", "0", "type", "1">>, k |-> "text"],
  [p |-> <<"linked_dids", "1">>, k |-> "text"] >>

d_ctx == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "object"],
  [p |-> <<"@context", "@version">>, k |-> "number"],
  [p |-> <<"@context", "ExtraType">>, k |-> "object"],
  [p |-> <<"@context", "ExtraType", "@context">>, k |-> "object"],
  [p |-> <<"@context", "ExtraType", "@context", "name">>, k |-> "text"],
  [p |-> <<"@context", "ExtraType", "@id">>, k |-> "text"],
  [p |-> <<"@context", "address">>, k |-> "object"],
  [p |-> <<"@context", "address", "@context">>, k |-> "object"],
  [p |-> <<"@context", "address", "@context", "town">>, k |-> "text"],
  [p |-> <<"@context", "address", "@id">>, k |-> "text"],
  [p |-> <<"@context", "ex">>, k |-> "text"],
  [p |-> <<"@context", "id">>, k |-> "text"],
  [p |-> <<"@context", "langs">>, k |-> "object"],
  [p |-> <<"@context", "langs", "@container">>, k |-> "text"],
  [p |-> <<"@context", "langs", "@id">>, k |-> "text"],
  [p |-> <<"@context", "level">>, k |-> "object"],
  [p |-> <<"@context", "level", "@id">>, k |-> "text"],
  [p |-> <<"@context", "level", "@type">>, k |-> "text"] >>

d_cwt == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "1">>, k |-> "number"],
  [p |-> <<"header", "4">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vc", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vc", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vc", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"],
  [p |-> <<"tag">>, k |-> "number"],
  [p |-> <<"unprotected">>, k |-> "object"],
  [p |-> <<"unprotected", "16">>, k |-> "text"] >>

d_cwt2 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "1">>, k |-> "number"],
  [p |-> <<"header", "4">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vc", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vc", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vc", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "validFrom">>, k |-> "text"],
  [p |-> <<"payload", "vc", "validUntil">>, k |-> "text"],
  [p |-> <<"tag">>, k |-> "number"],
  [p |-> <<"unprotected">>, k |-> "object"],
  [p |-> <<"unprotected", "16">>, k |-> "text"] >>

d_date == <<
  [p |-> <<>>, k |-> "text"] >>

d_di2 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"credentialStatus">>, k |-> "object"],
  [p |-> <<"credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"evidence">>, k |-> "list"],
  [p |-> <<"evidence", "0">>, k |-> "object"],
  [p |-> <<"evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "object"],
  [p |-> <<"issuer", "id">>, k |-> "text"],
  [p |-> <<"issuer", "label">>, k |-> "text"],
  [p |-> <<"motto">>, k |-> "object"],
  [p |-> <<"motto", "en">>, k |-> "text"],
  [p |-> <<"motto", "words">>, k |-> "list"],
  [p |-> <<"motto", "words", "0">>, k |-> "text"],
  [p |-> <<"motto", "words", "1">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "object"],
  [p |-> <<"proof", "created">>, k |-> "text"],
  [p |-> <<"proof", "cryptosuite">>, k |-> "text"],
  [p |-> <<"proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "proofValue">>, k |-> "text"],
  [p |-> <<"proof", "type">>, k |-> "text"],
  [p |-> <<"proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"],
  [p |-> <<"validFrom">>, k |-> "text"],
  [p |-> <<"validUntil">>, k |-> "text"] >>

d_did == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"assertionMethod">>, k |-> "list"],
  [p |-> <<"assertionMethod", "0">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "list"],
  [p |-> <<"proof", "0">>, k |-> "object"],
  [p |-> <<"proof", "0", "created">>, k |-> "text"],
  [p |-> <<"proof", "0", "creator">>, k |-> "text"],
  [p |-> <<"proof", "0", "domain">>, k |-> "text"],
  [p |-> <<"proof", "0", "nonce">>, k |-> "text"],
  [p |-> <<"proof", "0", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "0", "proofValue">>, k |-> "text"],
  [p |-> <<"proof", "0", "type">>, k |-> "text"],
  [p |-> <<"proof", "0", "verificationMethod">>, k |-> "text"],
  [p |-> <<"service">>, k |-> "list"],
  [p |-> <<"service", "0">>, k |-> "object"],
  [p |-> <<"service", "0", "id">>, k |-> "text"],
  [p |-> <<"service", "0", "serviceEndpoint">>, k |-> "text"],
  [p |-> <<"service", "0", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod">>, k |-> "list"],
  [p |-> <<"verificationMethod", "0">>, k |-> "object"],
  [p |-> <<"verificationMethod", "0", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "publicKeyBase58">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "type">>, k |-> "text"] >>

d_entryBitstringStatusList == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"statusListCredential">>, k |-> "text"],
  [p |-> <<"statusListIndex">>, k |-> "text"],
  [p |-> <<"statusMessage">>, k |-> "list"],
  [p |-> <<"statusMessage", "0">>, k |-> "object"],
  [p |-> <<"statusMessage", "0", "message">>, k |-> "text"],
  [p |-> <<"statusMessage", "0", "status">>, k |-> "text"],
  [p |-> <<"statusMessage", "1">>, k |-> "object"],
  [p |-> <<"statusMessage", "1", "message">>, k |-> "text"],
  [p |-> <<"statusMessage", "1", "status">>, k |-> "text"],
  [p |-> <<"statusPurpose">>, k |-> "text"],
  [p |-> <<"statusSize">>, k |-> "number"],
  [p |-> <<"type">>, k |-> "text"] >>

d_entryStatusList2021 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"statusListCredential">>, k |-> "text"],
  [p |-> <<"statusListIndex">>, k |-> "text"],
  [p |-> <<"statusPurpose">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "text"] >>

d_env == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"] >>

d_envsd == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"] >>

d_envvp == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"] >>

d_hub == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"did">>, k |-> "object"],
  [p |-> <<"did", "@context">>, k |-> "list"],
  [p |-> <<"did", "@context", "0">>, k |-> "text"],
  [p |-> <<"did", "id">>, k |-> "text"],
  [p |-> <<"did", "service">>, k |-> "list"],
  [p |-> <<"did", "service", "0">>, k |-> "object"],
  [p |-> <<"did", "service", "0", "id">>, k |-> "text"],
  [p |-> <<"did", "service", "0", "serviceEndpoint">>, k |-> "text"],
  [p |-> <<"did", "service", "0", "type">>, k |-> "text"],
  [p |-> <<"queries">>, k |-> "list"],
  [p |-> <<"queries", "0">>, k |-> "object"],
  [p |-> <<"queries", "0", "method">>, k |-> "text"],
  [p |-> <<"queries", "0", "objectId">>, k |-> "text"],
  [p |-> <<"queries", "1">>, k |-> "object"],
  [p |-> <<"queries", "1", "method">>, k |-> "text"],
  [p |-> <<"queries", "1", "objectId">>, k |-> "text"],
  [p |-> <<"reply">>, k |-> "object"],
  [p |-> <<"reply", "replies">>, k |-> "list"],
  [p |-> <<"reply", "replies", "0">>, k |-> "object"],
  [p |-> <<"reply", "replies", "0", "entries">>, k |-> "list"],
  [p |-> <<"reply", "replies", "0", "entries", "0">>, k |-> "object"],
  [p |-> <<"reply", "replies", "0", "entries", "0", "data">>, k |-> "text"],
  [p |-> <<"reply", "replies", "0", "entries", "0", "descriptor">>, k |-> "object"],
  [p |-> <<"reply", "replies", "0", "entries", "0", "descriptor", "objectId">>, k |-> "text"],
  [p |-> <<"reply", "replies", "0", "entries", "1">>, k |-> "object"],
  [p |-> <<"reply", "replies", "0", "entries", "1", "data">>, k |-> "text"],
  [p |-> <<"reply", "replies", "0", "entries", "1", "descriptor">>, k |-> "object"],
  [p |-> <<"reply", "replies", "0", "entries", "1", "descriptor", "objectId">>, k |-> "text"],
  [p |-> <<"reply", "replies", "0", "messageId">>, k |-> "text"],
  [p |-> <<"reply", "replies", "0", "status">>, k |-> "object"],
  [p |-> <<"reply", "replies", "0", "status", "code">>, k |-> "number"],
  [p |-> <<"reply", "requestId">>, k |-> "text"],
  [p |-> <<"reply", "status">>, k |-> "object"],
  [p |-> <<"reply", "status", "code">>, k |-> "number"],
  [p |-> <<"reply", "status", "message">>, k |-> "text"],
  [p |-> <<"url">>, k |-> "text"] >>

d_jwt == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vc", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vc", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vc", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"] >>

d_jwtld == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vc", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vc", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vc", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof">>, k |-> "list"],
  [p |-> <<"payload", "vc", "proof", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "proof", "0", "created">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "jws">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "proofPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "verificationMethod">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"] >>

d_keys == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"assertionMethod">>, k |-> "list"],
  [p |-> <<"assertionMethod", "0">>, k |-> "text"],
  [p |-> <<"assertionMethod", "1">>, k |-> "text"],
  [p |-> <<"assertionMethod", "2">>, k |-> "text"],
  [p |-> <<"assertionMethod", "3">>, k |-> "text"],
  [p |-> <<"assertionMethod", "4">>, k |-> "text"],
  [p |-> <<"assertionMethod", "5">>, k |-> "text"],
  [p |-> <<"assertionMethod", "6">>, k |-> "text"],
  [p |-> <<"assertionMethod", "7">>, k |-> "text"],
  [p |-> <<"assertionMethod", "8">>, k |-> "text"],
  [p |-> <<"assertionMethod", "9">>, k |-> "text"],
  [p |-> <<"assertionMethod", "10">>, k |-> "text"],
  [p |-> <<"assertionMethod", "11">>, k |-> "text"],
  [p |-> <<"assertionMethod", "12">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"verificationMethod">>, k |-> "list"],
  [p |-> <<"verificationMethod", "0">>, k |-> "object"],
  [p |-> <<"verificationMethod", "0", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "publicKeyJwk">>, k |-> "object"],
  [p |-> <<"verificationMethod", "0", "publicKeyJwk", "crv">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "publicKeyJwk", "kty">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "publicKeyJwk", "x">>, k |-> "text"],
  [p |-> <<"verificationMethod", "0", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "1">>, k |-> "object"],
  [p |-> <<"verificationMethod", "1", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "1", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "1", "publicKeyBase58">>, k |-> "text"],
  [p |-> <<"verificationMethod", "1", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "2">>, k |-> "object"],
  [p |-> <<"verificationMethod", "2", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "2", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "2", "publicKeyMultibase">>, k |-> "text"],
  [p |-> <<"verificationMethod", "2", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "3">>, k |-> "object"],
  [p |-> <<"verificationMethod", "3", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "3", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "3", "publicKeyMultibase">>, k |-> "text"],
  [p |-> <<"verificationMethod", "3", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4">>, k |-> "object"],
  [p |-> <<"verificationMethod", "4", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4", "publicKeyJwk">>, k |-> "object"],
  [p |-> <<"verificationMethod", "4", "publicKeyJwk", "crv">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4", "publicKeyJwk", "kty">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4", "publicKeyJwk", "x">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4", "publicKeyJwk", "y">>, k |-> "text"],
  [p |-> <<"verificationMethod", "4", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5">>, k |-> "object"],
  [p |-> <<"verificationMethod", "5", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5", "publicKeyJwk">>, k |-> "object"],
  [p |-> <<"verificationMethod", "5", "publicKeyJwk", "crv">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5", "publicKeyJwk", "kty">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5", "publicKeyJwk", "x">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5", "publicKeyJwk", "y">>, k |-> "text"],
  [p |-> <<"verificationMethod", "5", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6">>, k |-> "object"],
  [p |-> <<"verificationMethod", "6", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6", "publicKeyJwk">>, k |-> "object"],
  [p |-> <<"verificationMethod", "6", "publicKeyJwk", "crv">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6", "publicKeyJwk", "kty">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6", "publicKeyJwk", "x">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6", "publicKeyJwk", "y">>, k |-> "text"],
  [p |-> <<"verificationMethod", "6", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "7">>, k |-> "object"],
  [p |-> <<"verificationMethod", "7", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "7", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "7", "publicKeyMultibase">>, k |-> "text"],
  [p |-> <<"verificationMethod", "7", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8">>, k |-> "object"],
  [p |-> <<"verificationMethod", "8", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8", "publicKeyJwk">>, k |-> "object"],
  [p |-> <<"verificationMethod", "8", "publicKeyJwk", "crv">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8", "publicKeyJwk", "kty">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8", "publicKeyJwk", "x">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8", "publicKeyJwk", "y">>, k |-> "text"],
  [p |-> <<"verificationMethod", "8", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "9">>, k |-> "object"],
  [p |-> <<"verificationMethod", "9", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "9", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "9", "publicKeyBase58">>, k |-> "text"],
  [p |-> <<"verificationMethod", "9", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "10">>, k |-> "object"],
  [p |-> <<"verificationMethod", "10", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "10", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "10", "publicKeyJwk">>, k |-> "object"],
  [p |-> <<"verificationMethod", "10", "publicKeyJwk", "e">>, k |-> "text"],
  [p |-> <<"verificationMethod", "10", "publicKeyJwk", "kty">>, k |-> "text"],
  [p |-> <<"verificationMethod", "10", "publicKeyJwk", "n">>, k |-> "text"],
  [p |-> <<"verificationMethod", "10", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "11">>, k |-> "object"],
  [p |-> <<"verificationMethod", "11", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "11", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "11", "publicKeyBase58">>, k |-> "text"],
  [p |-> <<"verificationMethod", "11", "type">>, k |-> "text"],
  [p |-> <<"verificationMethod", "12">>, k |-> "object"],
  [p |-> <<"verificationMethod", "12", "controller">>, k |-> "text"],
  [p |-> <<"verificationMethod", "12", "id">>, k |-> "text"],
  [p |-> <<"verificationMethod", "12", "publicKeyBase58">>, k |-> "text"],
  [p |-> <<"verificationMethod", "12", "type">>, k |-> "text"] >>

d_ld == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"credentialStatus">>, k |-> "object"],
  [p |-> <<"credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"evidence">>, k |-> "list"],
  [p |-> <<"evidence", "0">>, k |-> "object"],
  [p |-> <<"evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"expirationDate">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuanceDate">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "object"],
  [p |-> <<"issuer", "id">>, k |-> "text"],
  [p |-> <<"issuer", "label">>, k |-> "text"],
  [p |-> <<"motto">>, k |-> "object"],
  [p |-> <<"motto", "en">>, k |-> "text"],
  [p |-> <<"motto", "words">>, k |-> "list"],
  [p |-> <<"motto", "words", "0">>, k |-> "text"],
  [p |-> <<"motto", "words", "1">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "object"],
  [p |-> <<"proof", "created">>, k |-> "text"],
  [p |-> <<"proof", "jws">>, k |-> "text"],
  [p |-> <<"proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "type">>, k |-> "text"],
  [p |-> <<"proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"] >>

d_ldpair == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"credentialStatus">>, k |-> "object"],
  [p |-> <<"credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"evidence">>, k |-> "list"],
  [p |-> <<"evidence", "0">>, k |-> "object"],
  [p |-> <<"evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"expirationDate">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuanceDate">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "object"],
  [p |-> <<"issuer", "id">>, k |-> "text"],
  [p |-> <<"issuer", "label">>, k |-> "text"],
  [p |-> <<"motto">>, k |-> "object"],
  [p |-> <<"motto", "en">>, k |-> "text"],
  [p |-> <<"motto", "words">>, k |-> "list"],
  [p |-> <<"motto", "words", "0">>, k |-> "text"],
  [p |-> <<"motto", "words", "1">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "list"],
  [p |-> <<"proof", "0">>, k |-> "object"],
  [p |-> <<"proof", "0", "created">>, k |-> "text"],
  [p |-> <<"proof", "0", "jws">>, k |-> "text"],
  [p |-> <<"proof", "0", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "0", "type">>, k |-> "text"],
  [p |-> <<"proof", "0", "verificationMethod">>, k |-> "text"],
  [p |-> <<"proof", "1">>, k |-> "object"],
  [p |-> <<"proof", "1", "created">>, k |-> "text"],
  [p |-> <<"proof", "1", "jws">>, k |-> "text"],
  [p |-> <<"proof", "1", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "1", "type">>, k |-> "text"],
  [p |-> <<"proof", "1", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"] >>

d_listBitstringStatusList == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"header", "typ">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "encodedList">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"] >>

d_listStatusList2021 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"header", "typ">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "encodedList">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"] >>

d_pd == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"presentation_definition">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "jwt_vc">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "jwt_vc", "alg">>, k |-> "list"],
  [p |-> <<"presentation_definition", "format", "jwt_vc", "alg", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "format", "ldp_vc">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "ldp_vc", "proof_type">>, k |-> "list"],
  [p |-> <<"presentation_definition", "format", "ldp_vc", "proof_type", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "frame">>, k |-> "object"],
  [p |-> <<"presentation_definition", "frame", "@context">>, k |-> "list"],
  [p |-> <<"presentation_definition", "frame", "@context", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "const">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "enum">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "enum", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "maxLength">>, k |-> "number"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "minLength">>, k |-> "number"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "not">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "not", "const">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "pattern">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path", "1">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "predicate">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0", "directive">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0", "field_id">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0", "field_id", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "limit_disclosure">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "subject_is_issuer">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "group">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "group", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "name">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter", "format">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "filter", "minimum">>, k |-> "number"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "path", "1">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "format">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "format", "ldp_vc">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "format", "ldp_vc", "proof_type">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "format", "ldp_vc", "proof_type", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "group">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "group", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields", "0", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields", "0", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "limit_disclosure">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "group">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "group", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "name">>, k |-> "text"],
  [p |-> <<"presentation_definition", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements">>, k |-> "list"],
  [p |-> <<"presentation_definition", "submission_requirements", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "0", "from">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "0", "name">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "0", "rule">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "count">>, k |-> "number"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested">>, k |-> "list"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "from">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "max">>, k |-> "number"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "min">>, k |-> "number"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "rule">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "1", "from">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "1", "rule">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "rule">>, k |-> "text"] >>

d_pdold == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"presentation_definition">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "jwt_vc">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "jwt_vc", "alg">>, k |-> "list"],
  [p |-> <<"presentation_definition", "format", "jwt_vc", "alg", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "format", "ldp">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "ldp", "proof_type">>, k |-> "list"],
  [p |-> <<"presentation_definition", "format", "ldp", "proof_type", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "format", "ldp_vc">>, k |-> "object"],
  [p |-> <<"presentation_definition", "format", "ldp_vc", "proof_type">>, k |-> "list"],
  [p |-> <<"presentation_definition", "format", "ldp_vc", "proof_type", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "const">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "enum">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "enum", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "maxLength">>, k |-> "number"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "minLength">>, k |-> "number"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "not">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "not", "const">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "pattern">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path", "1">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "predicate">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "1", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0", "directive">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0", "field_id">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "is_holder", "0", "field_id", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "limit_disclosure">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "constraints", "subject_is_issuer">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "group">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "group", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "name">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "schema">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "schema", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "schema", "0", "required">>, k |-> "flag"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "schema", "0", "uri">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "schema", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "0", "schema", "1", "uri">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter", "allOf">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter", "allOf", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter", "allOf", "0", "const">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "0", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "filter">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "filter", "minimum">>, k |-> "number"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "filter", "type">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "constraints", "fields", "1", "path", "1">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "group">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "group", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "schema">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "schema", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "schema", "0", "required">>, k |-> "flag"],
  [p |-> <<"presentation_definition", "input_descriptors", "1", "schema", "0", "uri">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields", "0", "path">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "fields", "0", "path", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "constraints", "limit_disclosure">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "group">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "group", "0">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "id">>, k |-> "text"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "schema">>, k |-> "list"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "schema", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "input_descriptors", "2", "schema", "0", "uri">>, k |-> "text"],
  [p |-> <<"presentation_definition", "name">>, k |-> "text"],
  [p |-> <<"presentation_definition", "purpose">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements">>, k |-> "list"],
  [p |-> <<"presentation_definition", "submission_requirements", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "0", "from">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "0", "name">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "0", "rule">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "count">>, k |-> "number"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested">>, k |-> "list"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "from">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "max">>, k |-> "number"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "min">>, k |-> "number"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "0", "rule">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "1">>, k |-> "object"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "1", "from">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "from_nested", "1", "rule">>, k |-> "text"],
  [p |-> <<"presentation_definition", "submission_requirements", "1", "rule">>, k |-> "text"] >>

d_plain == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"credentialSchema">>, k |-> "list"],
  [p |-> <<"credentialSchema", "0">>, k |-> "object"],
  [p |-> <<"credentialSchema", "0", "id">>, k |-> "text"],
  [p |-> <<"credentialSchema", "0", "type">>, k |-> "text"],
  [p |-> <<"credentialStatus">>, k |-> "object"],
  [p |-> <<"credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"evidence">>, k |-> "list"],
  [p |-> <<"evidence", "0">>, k |-> "object"],
  [p |-> <<"evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"expirationDate">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuanceDate">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "object"],
  [p |-> <<"issuer", "id">>, k |-> "text"],
  [p |-> <<"issuer", "label">>, k |-> "text"],
  [p |-> <<"motto">>, k |-> "object"],
  [p |-> <<"motto", "en">>, k |-> "text"],
  [p |-> <<"motto", "words">>, k |-> "list"],
  [p |-> <<"motto", "words", "0">>, k |-> "text"],
  [p |-> <<"motto", "words", "1">>, k |-> "text"],
  [p |-> <<"refreshService">>, k |-> "object"],
  [p |-> <<"refreshService", "id">>, k |-> "text"],
  [p |-> <<"refreshService", "type">>, k |-> "text"],
  [p |-> <<"termsOfUse">>, k |-> "list"],
  [p |-> <<"termsOfUse", "0">>, k |-> "object"],
  [p |-> <<"termsOfUse", "0", "id">>, k |-> "text"],
  [p |-> <<"termsOfUse", "0", "prohibition">>, k |-> "list"],
  [p |-> <<"termsOfUse", "0", "prohibition", "0">>, k |-> "object"],
  [p |-> <<"termsOfUse", "0", "prohibition", "0", "action">>, k |-> "list"],
  [p |-> <<"termsOfUse", "0", "prohibition", "0", "action", "0">>, k |-> "text"],
  [p |-> <<"termsOfUse", "0", "type">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"] >>

d_plain2 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "object"],
  [p |-> <<"@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"credentialSchema">>, k |-> "list"],
  [p |-> <<"credentialSchema", "0">>, k |-> "object"],
  [p |-> <<"credentialSchema", "0", "id">>, k |-> "text"],
  [p |-> <<"credentialSchema", "0", "type">>, k |-> "text"],
  [p |-> <<"credentialStatus">>, k |-> "object"],
  [p |-> <<"credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"credentialSubject">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"evidence">>, k |-> "list"],
  [p |-> <<"evidence", "0">>, k |-> "object"],
  [p |-> <<"evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"issuer">>, k |-> "object"],
  [p |-> <<"issuer", "id">>, k |-> "text"],
  [p |-> <<"issuer", "label">>, k |-> "text"],
  [p |-> <<"motto">>, k |-> "object"],
  [p |-> <<"motto", "en">>, k |-> "text"],
  [p |-> <<"motto", "words">>, k |-> "list"],
  [p |-> <<"motto", "words", "0">>, k |-> "text"],
  [p |-> <<"motto", "words", "1">>, k |-> "text"],
  [p |-> <<"refreshService">>, k |-> "object"],
  [p |-> <<"refreshService", "id">>, k |-> "text"],
  [p |-> <<"refreshService", "type">>, k |-> "text"],
  [p |-> <<"relatedResource">>, k |-> "list"],
  [p |-> <<"relatedResource", "0">>, k |-> "object"],
  [p |-> <<"relatedResource", "0", "digestSRI">>, k |-> "text"],
  [p |-> <<"relatedResource", "0", "id">>, k |-> "text"],
  [p |-> <<"relatedResource", "0", "mediaType">>, k |-> "text"],
  [p |-> <<"termsOfUse">>, k |-> "list"],
  [p |-> <<"termsOfUse", "0">>, k |-> "object"],
  [p |-> <<"termsOfUse", "0", "id">>, k |-> "text"],
  [p |-> <<"termsOfUse", "0", "prohibition">>, k |-> "list"],
  [p |-> <<"termsOfUse", "0", "prohibition", "0">>, k |-> "object"],
  [p |-> <<"termsOfUse", "0", "prohibition", "0", "action">>, k |-> "list"],
  [p |-> <<"termsOfUse", "0", "prohibition", "0", "action", "0">>, k |-> "text"],
  [p |-> <<"termsOfUse", "0", "type">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "list"],
  [p |-> <<"type", "0">>, k |-> "text"],
  [p |-> <<"type", "1">>, k |-> "text"],
  [p |-> <<"validFrom">>, k |-> "text"],
  [p |-> <<"validUntil">>, k |-> "text"] >>

d_schema == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"$id">>, k |-> "text"],
  [p |-> <<"$schema">>, k |-> "text"],
  [p |-> <<"additionalProperties">>, k |-> "flag"],
  [p |-> <<"allOf">>, k |-> "list"],
  [p |-> <<"allOf", "0">>, k |-> "object"],
  [p |-> <<"allOf", "0", "required">>, k |-> "list"],
  [p |-> <<"allOf", "0", "required", "0">>, k |-> "text"],
  [p |-> <<"definitions">>, k |-> "object"],
  [p |-> <<"definitions", "x">>, k |-> "object"],
  [p |-> <<"definitions", "x", "type">>, k |-> "text"],
  [p |-> <<"properties">>, k |-> "object"],
  [p |-> <<"properties", "id">>, k |-> "object"],
  [p |-> <<"properties", "id", "format">>, k |-> "text"],
  [p |-> <<"properties", "id", "maxLength">>, k |-> "number"],
  [p |-> <<"properties", "id", "pattern">>, k |-> "text"],
  [p |-> <<"properties", "id", "type">>, k |-> "text"],
  [p |-> <<"properties", "issuer">>, k |-> "object"],
  [p |-> <<"properties", "issuer", "type">>, k |-> "list"],
  [p |-> <<"properties", "issuer", "type", "0">>, k |-> "text"],
  [p |-> <<"properties", "issuer", "type", "1">>, k |-> "text"],
  [p |-> <<"properties", "type">>, k |-> "object"],
  [p |-> <<"properties", "type", "items">>, k |-> "object"],
  [p |-> <<"properties", "type", "items", "type">>, k |-> "text"],
  [p |-> <<"properties", "type", "minItems">>, k |-> "number"],
  [p |-> <<"properties", "type", "type">>, k |-> "text"],
  [p |-> <<"required">>, k |-> "list"],
  [p |-> <<"required", "0">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "text"] >>

d_sd == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"disclosures">>, k |-> "list"],
  [p |-> <<"disclosures", "0">>, k |-> "object"],
  [p |-> <<"disclosures", "0", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "0", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "2">>, k |-> "list"],
  [p |-> <<"disclosures", "0", "is", "2", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "2", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "1">>, k |-> "object"],
  [p |-> <<"disclosures", "1", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "1", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "2">>, k |-> "object"],
  [p |-> <<"disclosures", "2", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "2", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "3">>, k |-> "object"],
  [p |-> <<"disclosures", "3", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "3", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "4">>, k |-> "object"],
  [p |-> <<"disclosures", "4", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "4", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "4", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "4", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "4", "is", "2">>, k |-> "text"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vc", "_sd_alg">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "_sd">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "_sd", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "_sd", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "_sd", "2">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "_sd">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "_sd", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "_sd", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vc", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vc", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vc", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"] >>

d_sdkb == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"disclosures">>, k |-> "list"],
  [p |-> <<"disclosures", "0">>, k |-> "object"],
  [p |-> <<"disclosures", "0", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "0", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "1">>, k |-> "object"],
  [p |-> <<"disclosures", "1", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "1", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is", "2">>, k |-> "object"],
  [p |-> <<"disclosures", "1", "is", "2", "_sd">>, k |-> "list"],
  [p |-> <<"disclosures", "1", "is", "2", "_sd", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is", "2", "town">>, k |-> "text"],
  [p |-> <<"disclosures", "2">>, k |-> "object"],
  [p |-> <<"disclosures", "2", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "2", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "3">>, k |-> "object"],
  [p |-> <<"disclosures", "3", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "3", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is", "1">>, k |-> "text"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"header", "typ">>, k |-> "text"],
  [p |-> <<"kb">>, k |-> "object"],
  [p |-> <<"kb", "header">>, k |-> "object"],
  [p |-> <<"kb", "header", "alg">>, k |-> "text"],
  [p |-> <<"kb", "header", "typ">>, k |-> "text"],
  [p |-> <<"kb", "payload">>, k |-> "object"],
  [p |-> <<"kb", "payload", "aud">>, k |-> "text"],
  [p |-> <<"kb", "payload", "iat">>, k |-> "number"],
  [p |-> <<"kb", "payload", "nonce">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "_sd">>, k |-> "list"],
  [p |-> <<"payload", "_sd", "0">>, k |-> "text"],
  [p |-> <<"payload", "_sd", "1">>, k |-> "text"],
  [p |-> <<"payload", "_sd_alg">>, k |-> "text"],
  [p |-> <<"payload", "cnf">>, k |-> "object"],
  [p |-> <<"payload", "cnf", "jwk">>, k |-> "object"],
  [p |-> <<"payload", "cnf", "jwk", "crv">>, k |-> "text"],
  [p |-> <<"payload", "cnf", "jwk", "kty">>, k |-> "text"],
  [p |-> <<"payload", "cnf", "jwk", "x">>, k |-> "text"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "langs">>, k |-> "list"],
  [p |-> <<"payload", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "langs", "1">>, k |-> "object"],
  [p |-> <<"payload", "langs", "1", "...">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"] >>

d_sdrec == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"disclosures">>, k |-> "list"],
  [p |-> <<"disclosures", "0">>, k |-> "object"],
  [p |-> <<"disclosures", "0", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "0", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "2">>, k |-> "object"],
  [p |-> <<"disclosures", "0", "is", "2", "_sd">>, k |-> "list"],
  [p |-> <<"disclosures", "0", "is", "2", "_sd", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "0", "is", "2", "_sd", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "1">>, k |-> "object"],
  [p |-> <<"disclosures", "1", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "1", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "1", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "2">>, k |-> "object"],
  [p |-> <<"disclosures", "2", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "2", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "2", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "3">>, k |-> "object"],
  [p |-> <<"disclosures", "3", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "3", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "3", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "4">>, k |-> "object"],
  [p |-> <<"disclosures", "4", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "4", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "4", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "4", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "4", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "5">>, k |-> "object"],
  [p |-> <<"disclosures", "5", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "5", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "5", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "5", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "5", "is", "2">>, k |-> "text"],
  [p |-> <<"disclosures", "6">>, k |-> "object"],
  [p |-> <<"disclosures", "6", "digest">>, k |-> "text"],
  [p |-> <<"disclosures", "6", "is">>, k |-> "list"],
  [p |-> <<"disclosures", "6", "is", "0">>, k |-> "text"],
  [p |-> <<"disclosures", "6", "is", "1">>, k |-> "text"],
  [p |-> <<"disclosures", "6", "is", "2">>, k |-> "text"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"header", "typ">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "@context">>, k |-> "list"],
  [p |-> <<"payload", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "_sd_alg">>, k |-> "text"],
  [p |-> <<"payload", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "credentialSubject", "_sd">>, k |-> "list"],
  [p |-> <<"payload", "credentialSubject", "_sd", "0">>, k |-> "text"],
  [p |-> <<"payload", "credentialSubject", "_sd", "1">>, k |-> "text"],
  [p |-> <<"payload", "credentialSubject", "_sd", "2">>, k |-> "text"],
  [p |-> <<"payload", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "credentialSubject", "langs", "0">>, k |-> "object"],
  [p |-> <<"payload", "credentialSubject", "langs", "0", "...">>, k |-> "text"],
  [p |-> <<"payload", "credentialSubject", "langs", "1">>, k |-> "object"],
  [p |-> <<"payload", "credentialSubject", "langs", "1", "...">>, k |-> "text"],
  [p |-> <<"payload", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "id">>, k |-> "text"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "motto">>, k |-> "object"],
  [p |-> <<"payload", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "type">>, k |-> "list"],
  [p |-> <<"payload", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "type", "1">>, k |-> "text"] >>

d_sub == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"submission">>, k |-> "object"],
  [p |-> <<"submission", "definition_id">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map">>, k |-> "list"],
  [p |-> <<"submission", "descriptor_map", "0">>, k |-> "object"],
  [p |-> <<"submission", "descriptor_map", "0", "format">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "0", "id">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "0", "path">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "1">>, k |-> "object"],
  [p |-> <<"submission", "descriptor_map", "1", "format">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "1", "id">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "1", "path">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "1", "path_nested">>, k |-> "object"],
  [p |-> <<"submission", "descriptor_map", "1", "path_nested", "format">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "1", "path_nested", "id">>, k |-> "text"],
  [p |-> <<"submission", "descriptor_map", "1", "path_nested", "path">>, k |-> "text"],
  [p |-> <<"submission", "id">>, k |-> "text"],
  [p |-> <<"submission", "locale">>, k |-> "text"] >>

d_unsec == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "exp">>, k |-> "number"],
  [p |-> <<"payload", "iat">>, k |-> "number"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "nbf">>, k |-> "number"],
  [p |-> <<"payload", "sub">>, k |-> "text"],
  [p |-> <<"payload", "vc">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vc", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vc", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vc", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vc", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vc", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vc", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vc", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vc", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof">>, k |-> "list"],
  [p |-> <<"payload", "vc", "proof", "0">>, k |-> "object"],
  [p |-> <<"payload", "vc", "proof", "0", "created">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "jws">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "proofPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vc", "proof", "0", "verificationMethod">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type">>, k |-> "list"],
  [p |-> <<"payload", "vc", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vc", "type", "1">>, k |-> "text"] >>

d_vp == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "text"],
  [p |-> <<"extra">>, k |-> "object"],
  [p |-> <<"extra", "a">>, k |-> "list"],
  [p |-> <<"extra", "a", "0">>, k |-> "text"],
  [p |-> <<"holder">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "text"],
  [p |-> <<"verifiableCredential">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "@context", "1">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "expirationDate">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuanceDate">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "issuer", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer", "label">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "motto", "en">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "jws">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2">>, k |-> "text"] >>

d_vp2 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"extra">>, k |-> "object"],
  [p |-> <<"extra", "a">>, k |-> "list"],
  [p |-> <<"extra", "a", "0">>, k |-> "text"],
  [p |-> <<"holder">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "text"],
  [p |-> <<"verifiableCredential">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "@context", "1">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "issuer", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer", "label">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "motto", "en">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "cryptosuite">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "proofValue">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "validFrom">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "validUntil">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "1", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "1", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "1", "type", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "2", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "2", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "2", "type", "0">>, k |-> "text"] >>

d_vpcwt == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "1">>, k |-> "number"],
  [p |-> <<"header", "4">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "aud">>, k |-> "list"],
  [p |-> <<"payload", "aud", "0">>, k |-> "text"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "vp">>, k |-> "object"],
  [p |-> <<"payload", "vp", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vp", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "@context", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "extra">>, k |-> "object"],
  [p |-> <<"payload", "vp", "extra", "a">>, k |-> "list"],
  [p |-> <<"payload", "vp", "extra", "a", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "holder">>, k |-> "text"],
  [p |-> <<"payload", "vp", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "jws">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "type">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "type", "1">>, k |-> "text"],
  [p |-> <<"tag">>, k |-> "number"],
  [p |-> <<"unprotected">>, k |-> "object"],
  [p |-> <<"unprotected", "16">>, k |-> "text"] >>

d_vpdi2 == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"holder">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "object"],
  [p |-> <<"proof", "created">>, k |-> "text"],
  [p |-> <<"proof", "cryptosuite">>, k |-> "text"],
  [p |-> <<"proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "proofValue">>, k |-> "text"],
  [p |-> <<"proof", "type">>, k |-> "text"],
  [p |-> <<"proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "text"],
  [p |-> <<"verifiableCredential">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "@context", "1">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "issuer", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer", "label">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "motto", "en">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "cryptosuite">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "proofValue">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "validFrom">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "validUntil">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "1", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "1", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "1", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "1", "type", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "2", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "2", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "2", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "2", "type", "0">>, k |-> "text"] >>

d_vpjwt == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"header">>, k |-> "object"],
  [p |-> <<"header", "alg">>, k |-> "text"],
  [p |-> <<"header", "kid">>, k |-> "text"],
  [p |-> <<"payload">>, k |-> "object"],
  [p |-> <<"payload", "aud">>, k |-> "text"],
  [p |-> <<"payload", "iss">>, k |-> "text"],
  [p |-> <<"payload", "jti">>, k |-> "text"],
  [p |-> <<"payload", "vp">>, k |-> "object"],
  [p |-> <<"payload", "vp", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vp", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "@context", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "extra">>, k |-> "object"],
  [p |-> <<"payload", "vp", "extra", "a">>, k |-> "list"],
  [p |-> <<"payload", "vp", "extra", "a", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "holder">>, k |-> "text"],
  [p |-> <<"payload", "vp", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context", "1">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "expirationDate">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuanceDate">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuer">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuer", "id">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "issuer", "label">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "en">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "words">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof">>, k |-> "object"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "jws">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "type">>, k |-> "list"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "0", "type", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "1">>, k |-> "text"],
  [p |-> <<"payload", "vp", "verifiableCredential", "2">>, k |-> "text"] >>

d_vpld == <<
  [p |-> <<>>, k |-> "object"],
  [p |-> <<"@context">>, k |-> "list"],
  [p |-> <<"@context", "0">>, k |-> "text"],
  [p |-> <<"@context", "1">>, k |-> "text"],
  [p |-> <<"holder">>, k |-> "text"],
  [p |-> <<"id">>, k |-> "text"],
  [p |-> <<"proof">>, k |-> "object"],
  [p |-> <<"proof", "created">>, k |-> "text"],
  [p |-> <<"proof", "jws">>, k |-> "text"],
  [p |-> <<"proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"proof", "type">>, k |-> "text"],
  [p |-> <<"proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"type">>, k |-> "text"],
  [p |-> <<"verifiableCredential">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "@context", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "@context", "1">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "@context", "1", "@vocab">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListCredential">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusListIndex">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "statusPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialStatus", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "street">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "address", "town">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "langs", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "level">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "credentialSubject", "name">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "papers", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "evidence", "0", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "expirationDate">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuanceDate">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "issuer", "id">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "issuer", "label">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "motto", "en">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "motto", "words", "1">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof">>, k |-> "object"],
  [p |-> <<"verifiableCredential", "0", "proof", "created">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "jws">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "proofPurpose">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "type">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "proof", "verificationMethod">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type">>, k |-> "list"],
  [p |-> <<"verifiableCredential", "0", "type", "0">>, k |-> "text"],
  [p |-> <<"verifiableCredential", "0", "type", "1">>, k |-> "text"] >>

Docs == [
  bbs |-> d_bbs,
  bbsd |-> d_bbsd,
  config |-> d_config,
  ctx |-> d_ctx,
  cwt |-> d_cwt,
  cwt2 |-> d_cwt2,
  date |-> d_date,
  di2 |-> d_di2,
  did |-> d_did,
  entryBitstringStatusList |-> d_entryBitstringStatusList,
  entryStatusList2021 |-> d_entryStatusList2021,
  env |-> d_env,
  envsd |-> d_envsd,
  envvp |-> d_envvp,
  hub |-> d_hub,
  jwt |-> d_jwt,
  jwtld |-> d_jwtld,
  keys |-> d_keys,
  ld |-> d_ld,
  ldpair |-> d_ldpair,
  listBitstringStatusList |-> d_listBitstringStatusList,
  listStatusList2021 |-> d_listStatusList2021,
  pd |-> d_pd,
  pdold |-> d_pdold,
  plain |-> d_plain,
  plain2 |-> d_plain2,
  schema |-> d_schema,
  sd |-> d_sd,
  sdkb |-> d_sdkb,
  sdrec |-> d_sdrec,
  sub |-> d_sub,
  unsec |-> d_unsec,
  vp |-> d_vp,
  vp2 |-> d_vp2,
  vpcwt |-> d_vpcwt,
  vpdi2 |-> d_vpdi2,
  vpjwt |-> d_vpjwt,
  vpld |-> d_vpld ]
====
