From 49748d35dd1bf40716ac6a258bf307ee3ec9d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 01/74] fix: mem provider GetStoreConfig reads the store map
 under the lock

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..395d042 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From e0f881e77501ee565ffa42fcce47efd4d5b4b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/74] fix: mem store Query evaluates all criteria on one
 consistent snapshot

---
 legacy/mem/mem.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 395d042..1dbaa38 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -280,7 +280,10 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 		return nil, errInvalidQueryExpressionFormat
 	}
 
-	queryResults := make(map[string]*queryResult)
+	var queryResults []*queryResult
+
+	m.RLock()
+	defer m.RUnlock()
 
 	for _, exp := range strings.Split(expression, "&&") {
 		expressionSplit := strings.Split(exp, ":")
@@ -290,14 +293,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults = append(queryResults, &queryResult{keys: keys, dbEntries: dbEntries})
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults = append(queryResults, &queryResult{keys: keys, dbEntries: dbEntries})
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
@@ -365,6 +368,7 @@ func (m *memStore) Flush() error {
 	return nil
 }
 
+// getMatchingKeysAndDBEntries expects the caller to hold the lock.
 func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]string, []dbEntry) {
 	var matchAnyValue bool
 	if tagValue == "" {
@@ -375,9 +379,6 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 
 	var dbEntries []dbEntry
 
-	m.RLock()
-	defer m.RUnlock()
-
 	for key, dbEntry := range m.db {
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
@@ -477,7 +478,7 @@ func checkForUnsupportedQueryOptions(options []spi.QueryOption) error {
 }
 
 // commonDBEntries returns the DB entries that appear in all the query results.
-func commonDBEntries(results map[string]*queryResult) ([]string, []dbEntry) {
+func commonDBEntries(results []*queryResult) ([]string, []dbEntry) {
 	numTags := len(results)
 	keyMap := make(map[string]int)
 	valueMap := make(map[string]dbEntry)
-- 
2.43.0


From 9b2931e248de93098a776f6dbb1a14a93f798613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 03/74] fix: mem store Batch rejects tags that Put rejects

---
 legacy/mem/mem.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 1dbaa38..9f3399d 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -174,6 +174,21 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		return errors.New("value cannot be nil")
 	}
 
+	if err := validateTags(tags); err != nil {
+		return err
+	}
+
+	m.Lock()
+	defer m.Unlock()
+	m.db[key] = dbEntry{
+		value: value,
+		tags:  tags,
+	}
+
+	return nil
+}
+
+func validateTags(tags []spi.Tag) error {
 	for _, tag := range tags {
 		if strings.Contains(tag.Name, ":") {
 			return fmt.Errorf(invalidTagName, tag.Name)
@@ -184,13 +199,6 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		}
 	}
 
-	m.Lock()
-	defer m.Unlock()
-	m.db[key] = dbEntry{
-		value: value,
-		tags:  tags,
-	}
-
 	return nil
 }
 
@@ -339,6 +347,14 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 		if operation.Key == "" {
 			return errEmptyKey
 		}
+
+		if operation.Value == nil {
+			continue
+		}
+
+		if err := validateTags(operation.Tags); err != nil {
+			return err
+		}
 	}
 
 	for _, operation := range operations {
-- 
2.43.0


From d11264e28a7331810bd61445b768cbd284de5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/74] fix: closing a stale mem store handle does not remove
 its successor

---
 legacy/mem/mem.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 9f3399d..d16fc1f 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -36,7 +36,7 @@ type Provider struct {
 	lock sync.RWMutex
 }
 
-type closer func(storeName string)
+type closer func(store *memStore)
 
 // NewProvider instantiates a new in-memory storage Provider.
 func NewProvider() *Provider {
@@ -141,13 +141,12 @@ func (p *Provider) Ping() error {
 	return nil
 }
 
-func (p *Provider) removeStore(name string) {
+func (p *Provider) removeStore(store *memStore) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
-	_, ok := p.dbs[name]
-	if ok {
-		delete(p.dbs, name)
+	if p.dbs[store.name] == store {
+		delete(p.dbs, store.name)
 	}
 }
 
@@ -374,7 +373,7 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 
 // Close closes this store object. All data within the store is deleted.
 func (m *memStore) Close() error {
-	m.close(m.name)
+	m.close(m)
 
 	return nil
 }
-- 
2.43.0


From 1b316775601a26391c18a12db4cf03b1751d3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 05/74] fix: sdjwt issuer uses a concurrency-safe random source
 for shuffling and decoys

---
 sdjwt/issuer/issuer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..22f9401 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -49,7 +49,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 
@@ -72,8 +71,6 @@ const (
 	vcKey                = "vc"
 )
 
-var mr = mathrand.New(mathrand.NewSource(time.Now().Unix())) // nolint:gochecknoglobals
-
 // Claims defines JSON Web Token Claims (https://tools.ietf.org/html/rfc7519#section-4)
 type Claims jwt.Claims
 
@@ -504,7 +501,7 @@ func createDigests(disclosures []*DisclosureEntity, nOpts *newOpts) ([]string, e
 		digests = append(digests, digest)
 	}
 
-	mr.Shuffle(len(digests), func(i, j int) {
+	mathrand.Shuffle(len(digests), func(i, j int) {
 		digests[i], digests[j] = digests[j], digests[i]
 	})
 
@@ -527,7 +524,7 @@ func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
 		return nil, nil
 	}
 
-	n := mr.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
+	n := mathrand.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
 
 	var decoyDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 18d19456aece3dae0c6d69c073a751f6a905baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 06/74] fix: SD-JWT v5 decoy digests are not returned as
 disclosures

---
 sdjwt/issuer/v5.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..223c7d6 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -11,6 +11,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"slices"
 
 	"github.com/trustbloc/vc-go/sdjwt/common"
 )
@@ -96,13 +97,14 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
+
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
-	var allDisclosures []*DisclosureEntity
+	var finalSDDigest, allDisclosures []*DisclosureEntity
 
 	for key, value := range claims {
 		curPath := key
@@ -237,7 +239,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	digests, err := createDigests(slices.Concat(finalSDDigest, decoyDisclosures), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 907716ebcfd6f8a6515bd76fbe83693e72c5ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 07/74] fix: SD-JWT v5 issuance of null claim values does not
 panic

---
 sdjwt/issuer/v5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 223c7d6..eac4966 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -112,7 +112,10 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		kind := reflect.Invalid
+		if value != nil {
+			kind = reflect.TypeOf(value).Kind()
+		}
 
 		valOption := s.extractValueOptions(curPath, opts)
 
-- 
2.43.0


From b52aff4aca99e6a953b2fb0371fdfcdf8283b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 08/74] fix: verified SD-JWT claims keep null values and empty
 arrays

---
 sdjwt/common/verification.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..1f22c89 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -146,6 +146,11 @@ func setDisclosureClaimValue(recData *recursiveData, disclosureClaim *Disclosure
 		return err
 	}
 
+	if newValue == nil && disclosureClaim.Value != nil {
+		// The claim itself was disclosed, none of its array elements was.
+		newValue = []interface{}{}
+	}
+
 	disclosureClaim.Value = newValue
 	disclosureClaim.IsValueParsed = true
 
@@ -156,7 +161,7 @@ func setDisclosureClaimValue(recData *recursiveData, disclosureClaim *Disclosure
 func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{}, error) { // nolint:funlen,gocyclo
 	switch disclosureValue := claim.(type) {
 	case []interface{}:
-		var newValues []interface{}
+		newValues := make([]interface{}, 0, len(disclosureValue))
 
 		for _, value := range disclosureValue {
 			parsedMap, ok := getMap(value)
@@ -212,7 +217,8 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 			newValues = append(newValues, disclosureClaim.Value)
 		}
 
-		if len(newValues) == 0 {
+		// An array is omitted when all its elements are undisclosed, not when it was empty in the first place.
+		if len(newValues) == 0 && len(disclosureValue) > 0 {
 			return nil, nil
 		}
 
@@ -285,7 +291,7 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
 			}
 
-			if newValue != nil {
+			if newValue != nil || disclosureNestedClaim == nil {
 				newValues[k] = newValue
 			}
 		}
-- 
2.43.0


From 400f10356aadda60cda6506f8a16923f6105268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 09/74] fix: SD-JWT digests inside array elements are processed

---
 sdjwt/common/verification.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index 1f22c89..152ffad 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -157,6 +157,20 @@ func setDisclosureClaimValue(recData *recursiveData, disclosureClaim *Disclosure
 	return nil
 }
 
+// discloseArrayElement returns new value of a plain array element, which keeps its place in the array.
+func discloseArrayElement(value interface{}, recData *recursiveData) (interface{}, error) {
+	newValue, err := discloseClaimValue(value, recData)
+	if err != nil {
+		return nil, err
+	}
+
+	if newValue == nil && value != nil {
+		return []interface{}{}, nil
+	}
+
+	return newValue, nil
+}
+
 // discloseClaimValue returns new value of claim, resolving dependencies on other disclosures.
 func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{}, error) { // nolint:funlen,gocyclo
 	switch disclosureValue := claim.(type) {
@@ -166,16 +180,28 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 		for _, value := range disclosureValue {
 			parsedMap, ok := getMap(value)
 			if !ok {
-				// If it's not a map - use value as it is.
-				newValues = append(newValues, value)
+				// If it's not a map - it may be a nested array.
+				newValue, err := discloseArrayElement(value, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				newValues = append(newValues, newValue)
+
 				continue
 			}
 
 			// Find all array elements that are objects with one key, that key being ... and referring to a string.
 			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]
 			if !ok {
-				// If it's not a array element digest - object - use value as it is.
-				newValues = append(newValues, value)
+				// If it's not a array element digest - object - it may contain digests.
+				newValue, err := discloseArrayElement(value, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				newValues = append(newValues, newValue)
+
 				continue
 			}
 
-- 
2.43.0


From ee90a4e4bff0ce9c315f7b1c01914b6f2569bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 10/74] fix: SD-JWT disclosures must not use the reserved claim
 names

---
 sdjwt/common/verification.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index 152ffad..28ccddb 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -407,6 +407,10 @@ func enrichWithSDElement(claim *DisclosureClaim, disclosureElementsArr []interfa
 		return fmt.Errorf("disclosure name type[%T] must be string", disclosureElementsArr[1])
 	}
 
+	if name == SDKey || name == ArrayElementDigestKey {
+		return fmt.Errorf("disclosure name '%s' is reserved", name)
+	}
+
 	claim.Name = name
 	claim.Value = disclosureElementsArr[sdDigestValuePosition]
 
-- 
2.43.0


From 9e05a79e39fa9ae0b166dd9faebcccf1ec64ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 11/74] fix: SD-JWT issuance rejects reserved keys anywhere in
 the claims

---
 sdjwt/common/common.go | 18 +++++++++++++++---
 sdjwt/issuer/issuer.go |  9 +++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..e00be89 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -432,9 +432,21 @@ func KeyExistsInMap(key string, m map[string]interface{}) bool {
 			return true
 		}
 
-		if obj, ok := v.(map[string]interface{}); ok {
-			exists := KeyExistsInMap(key, obj)
-			if exists {
+		if keyExistsInValue(key, v) {
+			return true
+		}
+	}
+
+	return false
+}
+
+func keyExistsInValue(key string, v interface{}) bool {
+	switch t := v.(type) {
+	case map[string]interface{}:
+		return KeyExistsInMap(key, t)
+	case []interface{}:
+		for _, e := range t {
+			if keyExistsInValue(key, e) {
 				return true
 			}
 		}
diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 22f9401..1494e99 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -364,10 +364,11 @@ func New(issuer string, claims interface{}, headers jose.Headers,
 		return nil, fmt.Errorf("convert payload to map: %w", err)
 	}
 
-	// check for the presence of the _sd claim in claims map
-	found := common.KeyExistsInMap(common.SDKey, claimsMap)
-	if found {
-		return nil, fmt.Errorf("key '%s' cannot be present in the claims", common.SDKey)
+	// check for the presence of the reserved keys in claims map
+	for _, key := range []string{common.SDKey, common.ArrayElementDigestKey} {
+		if common.KeyExistsInMap(key, claimsMap) {
+			return nil, fmt.Errorf("key '%s' cannot be present in the claims", key)
+		}
 	}
 
 	sdJWTBuilder := getBuilderByVersion(nOpts.version)
-- 
2.43.0


From 1506573d0f558acf938d353d010e169b83c872f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 12/74] fix: SD-JWT v5 issuance keeps empty arrays instead of
 turning them into null

---
 sdjwt/issuer/v5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index eac4966..32f2411 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -262,7 +262,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 ) ([]interface{}, []*DisclosureEntity, error) {
 	valSl := reflect.ValueOf(value)
 
-	var digestArr []interface{}
+	digestArr := make([]interface{}, 0, valSl.Len())
 
 	var elementsDisclosures []*DisclosureEntity
 
-- 
2.43.0


From fc9a55d86009326df3b38171effb6da0d04e56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 13/74] fix: SD-JWT disclosures keep the order in which they
 were received

---
 sdjwt/common/common.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index e00be89..8829674 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -138,10 +138,20 @@ func GetDisclosureClaims(
 		}
 	}
 
+	// keep the order in which disclosures were received.
+	byDisclosure := make(map[string]*DisclosureClaim, len(disclosureClaims))
+	for _, disclosureClaim := range recData.disclosures {
+		byDisclosure[disclosureClaim.Disclosure] = disclosureClaim
+	}
+
 	final := make([]*DisclosureClaim, 0, len(disclosureClaims))
 
-	for _, disclosureClaim := range recData.disclosures {
-		final = append(final, disclosureClaim)
+	for _, disclosure := range disclosures {
+		if disclosureClaim, ok := byDisclosure[disclosure]; ok {
+			final = append(final, disclosureClaim)
+
+			delete(byDisclosure, disclosure)
+		}
 	}
 
 	return final, nil
-- 
2.43.0


From 1be4081977ddb2bc8a13ffc80f0b9242a7d63e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 14/74] fix: a linked-data document without any proof does not
 verify

---
 verifiable/lddocument/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From d2ac3a949ee63f0ecbf550af1ccdfc41f59ff325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 15/74] fix: a Data Integrity proof added next to other proofs
 secures the document without them

---
 dataintegrity/signer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..ed5f623 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 	"github.com/trustbloc/did-go/doc/did"
 
@@ -93,12 +94,24 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrUnsupportedSuite
 	}
 
+	// The options remain the caller's own.
+	proofOpts := *opts
+	opts = &proofOpts
+
 	err := resolveVM(opts, s.resolver, "")
 	if err != nil {
 		return nil, err
 	}
 
-	proof, err := signerSuite.CreateProof(doc, opts)
+	// Each proof of a set secures the document without its proofs.
+	earlierProofs := gjson.GetBytes(doc, proofPath).Array()
+
+	unsecuredDoc, err := sjson.DeleteBytes(doc, proofPath)
+	if err != nil {
+		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
+	}
+
+	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
@@ -125,6 +138,16 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrProofGeneration
 	}
 
+	if len(earlierProofs) > 0 {
+		proofSet := "["
+
+		for _, earlier := range earlierProofs {
+			proofSet += earlier.Raw + ","
+		}
+
+		proofRaw = []byte(proofSet + string(proofRaw) + "]")
+	}
+
 	out, err := sjson.SetRawBytes(doc, proofPath, proofRaw)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
-- 
2.43.0


From 0ae1dcab1b38b649754a2ba907636fdb881d38b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 16/74] fix: each Data Integrity proof is verified over its own
 options

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 92 ++++++++++----------
 dataintegrity/suite/eddsa2022/eddsa2022.go | 98 +++++++++++-----------
 dataintegrity/verifier.go                  | 55 +++++++++---
 3 files changed, 140 insertions(+), 105 deletions(-)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..9ffc99c 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -191,7 +191,24 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		opts.SuiteType = SuiteType
 	}
 
-	docHash, vmKey, _, err := s.transformAndHash(doc, opts)
+	p := &models.Proof{
+		Type:               models.DataIntegrityProof,
+		CryptoSuite:        opts.SuiteType,
+		ProofPurpose:       opts.Purpose,
+		Domain:             opts.Domain,
+		Challenge:          opts.Challenge,
+		VerificationMethod: opts.VerificationMethod.ID,
+	}
+
+	if !opts.Created.IsZero() {
+		p.Created = opts.Created.Format(models.DateTimeFormat)
+	}
+
+	if !opts.Expires.IsZero() {
+		p.Expires = opts.Expires.Format(models.DateTimeFormat)
+	}
+
+	docHash, vmKey, _, err := s.transformAndHash(doc, p, opts)
 	if err != nil {
 		return nil, err
 	}
@@ -201,28 +218,11 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
-	sigStr, err := multibase.Encode(multibase.Base58BTC, sig)
+	p.ProofValue, err = multibase.Encode(multibase.Base58BTC, sig)
 	if err != nil {
 		return nil, err
 	}
 
-	var expires string
-	if !opts.Expires.IsZero() {
-		expires = opts.Expires.Format(models.DateTimeFormat)
-	}
-
-	p := &models.Proof{
-		Type:               models.DataIntegrityProof,
-		CryptoSuite:        opts.SuiteType,
-		ProofPurpose:       opts.Purpose,
-		Domain:             opts.Domain,
-		Challenge:          opts.Challenge,
-		VerificationMethod: opts.VerificationMethod.ID,
-		ProofValue:         sigStr,
-		Created:            opts.Created.Format(models.DateTimeFormat),
-		Expires:            expires,
-	}
-
 	return p, nil
 }
 
@@ -243,7 +243,9 @@ func (s *Suite) unmarshalECKey(ecCRV elliptic.Curve, pubKey []byte) ([]byte, err
 }
 
 //nolint:funlen,gocyclo // Old function
-func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte, *pubkey.PublicKey, Verifier, error) {
+func (s *Suite) transformAndHash(
+	doc []byte, proof *models.Proof, opts *models.ProofOptions,
+) ([]byte, *pubkey.PublicKey, Verifier, error) {
 	if opts.SuiteType == "" {
 		opts.SuiteType = SuiteType
 	}
@@ -326,7 +328,7 @@ func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte,
 		}
 	}
 
-	confData := proofConfig(docData[ldCtxKey], opts)
+	confData := proofConfig(docData[ldCtxKey], proof)
 
 	if opts.ProofType != models.DataIntegrityProof || (opts.SuiteType != SuiteType && opts.SuiteType != SuiteTypeNew) {
 		return nil, nil, nil, suite.ErrProofTransformation
@@ -350,7 +352,7 @@ func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte,
 // VerifyProof implements the ecdsa-2019 cryptographic suite for CheckJWTProof Proof:
 // https://www.w3.org/TR/vc-di-ecdsa/#verify-proof-ecdsa-2019
 func (s *Suite) VerifyProof(doc []byte, proof *models.Proof, opts *models.ProofOptions) error {
-	message, vmKey, verifier, err := s.transformAndHash(doc, opts)
+	message, vmKey, verifier, err := s.transformAndHash(doc, proof, opts)
 	if err != nil {
 		return err
 	}
@@ -399,32 +401,30 @@ func hashData(docData, proofData []byte, h hash.Hash) []byte {
 	return append(proofHash, docHash...)
 }
 
-func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]interface{} {
-	proof := map[string]interface{}{
-		ldCtxKey:             docCtx,
-		"type":               models.DataIntegrityProof,
-		"cryptosuite":        opts.SuiteType,
-		"verificationMethod": opts.VerificationMethodID,
-		"proofPurpose":       opts.Purpose,
-	}
-
-	if !opts.Created.IsZero() {
-		proof["created"] = opts.Created.Format(models.DateTimeFormat)
-	}
-
-	if !opts.Expires.IsZero() {
-		proof["expires"] = opts.Expires.Format(models.DateTimeFormat)
-	}
-
-	if opts.Challenge != "" {
-		proof["challenge"] = opts.Challenge
-	}
-
-	if opts.Domain != "" {
-		proof["domain"] = opts.Domain
+// proofConfig returns what a proof states, apart from the proof value, for hashing.
+func proofConfig(docCtx interface{}, proof *models.Proof) map[string]interface{} {
+	conf := map[string]interface{}{
+		ldCtxKey: docCtx,
+		"type":   models.DataIntegrityProof,
+	}
+
+	for name, value := range map[string]string{
+		"id":                 proof.ID,
+		"cryptosuite":        proof.CryptoSuite,
+		"verificationMethod": proof.VerificationMethod,
+		"proofPurpose":       proof.ProofPurpose,
+		"created":            proof.Created,
+		"expires":            proof.Expires,
+		"challenge":          proof.Challenge,
+		"domain":             proof.Domain,
+		"previousProof":      proof.PreviousProof,
+	} {
+		if value != "" {
+			conf[name] = value
+		}
 	}
 
-	return proof
+	return conf
 }
 
 func sign(sigBase []byte, key *jwk.JWK, signerGetter SignerGetter) ([]byte, error) {
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..ef608ad 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -174,7 +174,29 @@ const (
 
 // CreateProof implements the eddsa-2022 cryptographic suite for Add Proof.
 func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proof, error) {
-	docHash, vmKey, _, err := s.transformAndHash(doc, opts)
+	suiteType := SuiteType
+	if opts.SuiteType != "" {
+		suiteType = opts.SuiteType
+	}
+
+	p := &models.Proof{
+		Type:               models.DataIntegrityProof,
+		CryptoSuite:        suiteType,
+		ProofPurpose:       opts.Purpose,
+		Domain:             opts.Domain,
+		Challenge:          opts.Challenge,
+		VerificationMethod: opts.VerificationMethod.ID,
+	}
+
+	if !opts.Created.IsZero() {
+		p.Created = opts.Created.Format(models.DateTimeFormat)
+	}
+
+	if !opts.Expires.IsZero() {
+		p.Expires = opts.Expires.Format(models.DateTimeFormat)
+	}
+
+	docHash, vmKey, _, err := s.transformAndHash(doc, p, opts)
 	if err != nil {
 		return nil, err
 	}
@@ -184,33 +206,18 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
-	sigStr, err := multibase.Encode(multibase.Base58BTC, sig)
+	p.ProofValue, err = multibase.Encode(multibase.Base58BTC, sig)
 	if err != nil {
 		return nil, err
 	}
 
-	var expires string
-	if !opts.Expires.IsZero() {
-		expires = opts.Expires.Format(models.DateTimeFormat)
-	}
-
-	p := &models.Proof{
-		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
-		ProofPurpose:       opts.Purpose,
-		Domain:             opts.Domain,
-		Challenge:          opts.Challenge,
-		VerificationMethod: opts.VerificationMethod.ID,
-		ProofValue:         sigStr,
-		Created:            opts.Created.Format(models.DateTimeFormat),
-		Expires:            expires,
-	}
-
 	return p, nil
 }
 
 // nolint:gocyclo
-func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte, *pubkey.PublicKey, Verifier, error) {
+func (s *Suite) transformAndHash(
+	doc []byte, proof *models.Proof, opts *models.ProofOptions,
+) ([]byte, *pubkey.PublicKey, Verifier, error) {
 	docData := make(map[string]interface{})
 
 	err := json.Unmarshal(doc, &docData)
@@ -238,7 +245,7 @@ func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte,
 
 	h = sha256.New()
 
-	confData := proofConfig(docData[ldCtxKey], opts)
+	confData := proofConfig(docData[ldCtxKey], proof)
 
 	if opts.ProofType != models.DataIntegrityProof || (opts.SuiteType != SuiteType &&
 		opts.SuiteType != SuiteType2) {
@@ -262,7 +269,7 @@ func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte,
 
 // VerifyProof implements the eddsa-2022 cryptographic suite for CheckJWTProof Proof.
 func (s *Suite) VerifyProof(doc []byte, proof *models.Proof, opts *models.ProofOptions) error {
-	message, vmKey, verifier, err := s.transformAndHash(doc, opts)
+	message, vmKey, verifier, err := s.transformAndHash(doc, proof, opts)
 	if err != nil {
 		return err
 	}
@@ -306,37 +313,30 @@ func hashData(docData, proofData []byte, h hash.Hash) []byte {
 	return append(proofHash, docHash...)
 }
 
-func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]interface{} {
-	suiteType := SuiteType
-	if opts.SuiteType != "" {
-		suiteType = opts.SuiteType
-	}
-
-	proof := map[string]interface{}{
-		ldCtxKey:             docCtx,
-		"type":               models.DataIntegrityProof,
-		"cryptosuite":        suiteType,
-		"verificationMethod": opts.VerificationMethodID,
-		"proofPurpose":       opts.Purpose,
-	}
-
-	if !opts.Created.IsZero() {
-		proof["created"] = opts.Created.Format(models.DateTimeFormat)
-	}
-
-	if !opts.Expires.IsZero() {
-		proof["expires"] = opts.Expires.Format(models.DateTimeFormat)
-	}
-
-	if opts.Challenge != "" {
-		proof["challenge"] = opts.Challenge
+// proofConfig returns what a proof states, apart from the proof value, for hashing.
+func proofConfig(docCtx interface{}, proof *models.Proof) map[string]interface{} {
+	conf := map[string]interface{}{
+		ldCtxKey: docCtx,
+		"type":   models.DataIntegrityProof,
 	}
 
-	if opts.Domain != "" {
-		proof["domain"] = opts.Domain
+	for name, value := range map[string]string{
+		"id":                 proof.ID,
+		"cryptosuite":        proof.CryptoSuite,
+		"verificationMethod": proof.VerificationMethod,
+		"proofPurpose":       proof.ProofPurpose,
+		"created":            proof.Created,
+		"expires":            proof.Expires,
+		"challenge":          proof.Challenge,
+		"domain":             proof.Domain,
+		"previousProof":      proof.PreviousProof,
+	} {
+		if value != "" {
+			conf[name] = value
+		}
 	}
 
-	return proof
+	return conf
 }
 
 func sign(sigBase []byte, key *jwk.JWK, signerGetter SignerGetter) ([]byte, error) {
diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..a1b2772 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -74,6 +74,14 @@ var (
 	// document with a proof whose Purpose does not match the expected purpose
 	// provided in the proof options.
 	ErrMismatchedPurpose = errors.New("data integrity proof does not match expected purpose")
+	// ErrMismatchedVM is returned when Verifier.VerifyProof() is given a document
+	// with a proof whose verification method is not the one provided in the proof
+	// options.
+	ErrMismatchedVM = errors.New("data integrity proof does not match expected verification method")
+	// ErrMismatchedCreated is returned when Verifier.VerifyProof() is given a
+	// document with a proof whose creation time is not the one provided in the
+	// proof options.
+	ErrMismatchedCreated = errors.New("data integrity proof does not match expected creation time")
 	// ErrOutOfDate is returned when Verifier.VerifyProof() is given a document with
 	// a proof that was created more than models.ProofOptions.MaxAge seconds ago.
 	ErrOutOfDate = errors.New("data integrity proof out of date")
@@ -100,8 +108,16 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
-		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
+	for _, proof := range proofs {
+		// What one proof states must not be carried over to the next one or to the caller.
+		proofOpts := *opts
+
+		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
 			return err
 		}
 	}
@@ -137,19 +153,21 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		opts.SuiteType = proof.CryptoSuite
 	}
 
+	if opts.SuiteType != proof.CryptoSuite {
+		return ErrUnsupportedSuite
+	}
+
 	if verifierSuite.RequiresCreated() && proof.Created == "" {
 		return ErrMalformedProof
 	}
 
-	if opts.Created.IsZero() && proof.Created != "" {
-		var parsedCreatedTime time.Time
+	var created time.Time
 
-		parsedCreatedTime, err = time.Parse(models.DateTimeFormat, proof.Created)
+	if proof.Created != "" {
+		created, err = time.Parse(models.DateTimeFormat, proof.Created)
 		if err != nil {
 			return ErrMalformedProof
 		}
-
-		opts.Created = parsedCreatedTime
 	}
 
 	if proof.Expires != "" {
@@ -163,14 +181,17 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		if time.Now().After(parsedExpiresTime) {
 			return ErrOutOfDate
 		}
-
-		opts.Expires = parsedExpiresTime
 	}
 
 	if proof.ProofPurpose != opts.Purpose {
 		return ErrMismatchedPurpose
 	}
 
+	expectedVMs := []string{opts.VerificationMethodID}
+	if opts.VerificationMethod != nil {
+		expectedVMs = append(expectedVMs, opts.VerificationMethod.ID)
+	}
+
 	err = resolveVM(opts, v.resolver, proof.VerificationMethod)
 	if err != nil {
 		return err
@@ -186,5 +207,19 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	return verifyResult
+	if verifyResult != nil {
+		return verifyResult
+	}
+
+	for _, expected := range expectedVMs {
+		if expected != "" && expected != proof.VerificationMethod {
+			return ErrMismatchedVM
+		}
+	}
+
+	if !opts.Created.IsZero() && (proof.Created == "" || created.Unix() != opts.Created.Unix()) {
+		return ErrMismatchedCreated
+	}
+
+	return nil
 }
-- 
2.43.0


From a9b6ff540f5494ba90d875dd1b397f10785e0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 17/74] fix: Data Integrity proof options are signed also when
 the document's contexts do not define them

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 12 ++++++++++
 dataintegrity/suite/eddsa2022/eddsa2022.go | 12 ++++++++++
 dataintegrity/suite/suite.go               | 27 ++++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index 9ffc99c..ea5ad85 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package ecdsa2019
 
 import (
+	"bytes"
 	"crypto/elliptic"
 	"crypto/sha256"
 	"crypto/sha512"
@@ -344,6 +345,17 @@ func (s *Suite) transformAndHash(
 		return nil, nil, nil, err
 	}
 
+	// Every option is a statement of its own. Options that the contexts of the document do
+	// not define would drop out of what is signed, so they get their standard meaning.
+	if bytes.Count(canonConf, []byte("\n")) < len(confData)-1 {
+		confData[ldCtxKey] = suite.ProofContext()
+
+		canonConf, err = canonicalize(confData, s.ldLoader, mda)
+		if err != nil {
+			return nil, nil, nil, err
+		}
+	}
+
 	docHash := hashData(canonDoc, canonConf, h)
 
 	return docHash, finalKey, verifier, nil
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index ef608ad..c77ec34 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package eddsa2022
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"encoding/json"
 	"errors"
@@ -262,6 +263,17 @@ func (s *Suite) transformAndHash(
 		return nil, nil, nil, err
 	}
 
+	// Every option is a statement of its own. Options that the contexts of the document do
+	// not define would drop out of what is signed, so they get their standard meaning.
+	if bytes.Count(canonConf, []byte("\n")) < len(confData)-1 {
+		confData[ldCtxKey] = suite.ProofContext()
+
+		canonConf, err = canonicalize(confData, s.ldLoader)
+		if err != nil {
+			return nil, nil, nil, err
+		}
+	}
+
 	docHash := hashData(canonDoc, canonConf, h)
 
 	return docHash, finalKey, verifier, nil
diff --git a/dataintegrity/suite/suite.go b/dataintegrity/suite/suite.go
index 05e27cb..602591a 100644
--- a/dataintegrity/suite/suite.go
+++ b/dataintegrity/suite/suite.go
@@ -76,3 +76,30 @@ var (
 	// Verifier.VerifyProof when proof transformation fails.
 	ErrProofTransformation = errors.New("error in data integrity proof transformation")
 )
+
+// ProofContext returns a JSON-LD context that gives the members of a data integrity proof the
+// meaning they have in https://w3id.org/security/data-integrity/v2.
+func ProofContext() map[string]interface{} {
+	const (
+		sec      = "https://w3id.org/security#"
+		dateTime = "http://www.w3.org/2001/XMLSchema#dateTime"
+	)
+
+	return map[string]interface{}{
+		"id":                   "@id",
+		"type":                 "@type",
+		"DataIntegrityProof":   sec + "DataIntegrityProof",
+		"assertionMethod":      sec + "assertionMethod",
+		"authentication":       sec + "authenticationMethod",
+		"capabilityDelegation": sec + "capabilityDelegationMethod",
+		"capabilityInvocation": sec + "capabilityInvocationMethod",
+		"challenge":            sec + "challenge",
+		"domain":               sec + "domain",
+		"created":              map[string]interface{}{"@id": "http://purl.org/dc/terms/created", "@type": dateTime},
+		"expires":              map[string]interface{}{"@id": sec + "expiration", "@type": dateTime},
+		"cryptosuite":          map[string]interface{}{"@id": sec + "cryptosuite", "@type": sec + "cryptosuiteString"},
+		"previousProof":        map[string]interface{}{"@id": sec + "previousProof", "@type": "@id"},
+		"proofPurpose":         map[string]interface{}{"@id": sec + "proofPurpose", "@type": "@vocab"},
+		"verificationMethod":   map[string]interface{}{"@id": sec + "verificationMethod", "@type": "@id"},
+	}
+}
-- 
2.43.0


From 7eeae1aa13308ce7899e1a59f36e2926c47f50bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 18/74] fix: a Data Integrity proof made by somebody other than
 the credential's issuer does not prove the credential

---
 verifiable/embedded_proof.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..9ba4ffe 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
@@ -70,7 +71,11 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 				return err
 			}
 
-			return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			if err = checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts); err != nil {
+				return err
+			}
+
+			return checkDataIntegrityProofIssuer(proofs, expectedProofIssuer)
 		}
 	}
 
@@ -87,6 +92,25 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 	return nil
 }
 
+// checkDataIntegrityProofIssuer makes sure that the verification methods under which the proofs
+// verified belong to the expected issuer.
+func checkDataIntegrityProofIssuer(proofs []map[string]interface{}, expectedProofIssuer *string) error {
+	if expectedProofIssuer == nil {
+		return nil
+	}
+
+	for _, proof := range proofs {
+		vmID, _ := proof["verificationMethod"].(string) // nolint:errcheck
+
+		proofIssuer, _, _ := strings.Cut(vmID, "#")
+		if proofIssuer != *expectedProofIssuer {
+			return fmt.Errorf("data integrity proof of %q is not made by the issuer %q", vmID, *expectedProofIssuer)
+		}
+	}
+
+	return nil
+}
+
 func getProofs(proofElement interface{}) ([]map[string]interface{}, error) {
 	switch p := proofElement.(type) {
 	case map[string]interface{}:
-- 
2.43.0


From f48f51e81c140645a48fbdb81497f7e37a39c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 19/74] fix: eddsa Data Integrity proofs verify with Multikey
 verification methods

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index c77ec34..c813b66 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -37,6 +37,11 @@ const (
 	SuiteType2 = "eddsa-2022"
 )
 
+const ed25519KeySize = 32
+
+// multikeyHeader precedes the bytes of an Ed25519 public key in a Multikey.
+var multikeyHeader = []byte{0xed, 0x01} //nolint:gochecknoglobals
+
 // SignerGetter returns a Signer, which must sign with the private key matching
 // the public key provided in models.ProofOptions.VerificationMethod.
 type SignerGetter func(pub *jwk.JWK) (Signer, error)
@@ -237,7 +242,14 @@ func (s *Suite) transformAndHash(
 
 	finalKey := &pubkey.PublicKey{Type: keyType, JWK: opts.VerificationMethod.JSONWebKey()}
 	if finalKey.JWK == nil && len(opts.VerificationMethod.Value) > 0 {
-		finalKey.BytesKey = &pubkey.BytesKey{Bytes: opts.VerificationMethod.Value}
+		keyBytes := opts.VerificationMethod.Value
+
+		// ref https://www.w3.org/TR/controller-document/#Multikey
+		if len(keyBytes) == len(multikeyHeader)+ed25519KeySize {
+			keyBytes = bytes.TrimPrefix(keyBytes, multikeyHeader)
+		}
+
+		finalKey.BytesKey = &pubkey.BytesKey{Bytes: keyBytes}
 	}
 
 	if finalKey.JWK == nil && finalKey.BytesKey == nil {
-- 
2.43.0


From 5f0c49f2c9e5c56b3ce5380f533417a26f2b9618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 20/74] fix: a CWT whose issuer is empty is not proven by any
 key its header names

---
 cwt/wrappers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cwt/wrappers.go b/cwt/wrappers.go
index a084fb5..5e8bf93 100644
--- a/cwt/wrappers.go
+++ b/cwt/wrappers.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package cwt
 
 import (
+	"errors"
 	"strings"
 
 	"github.com/veraison/go-cose"
@@ -33,6 +34,12 @@ func (v *Verifier) Verify(
 		expectedProofIssuer = *v.expectedProofIssuer
 	}
 
+	// Fall back on the DID of the key identifier only if no issuer is expected; an expected issuer that is empty
+	// has no keys.
+	if v.expectedProofIssuer != nil && expectedProofIssuer == "" {
+		return errors.New("check cwt failure: expected proof issuer is empty")
+	}
+
 	if expectedProofIssuer == "" && keyID != "" {
 		expectedProofIssuer = strings.Split(keyID, "#")[0]
 	}
-- 
2.43.0


From 89e486501aa908ad9396cdc018bd3bd4bd604eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 21/74] fix: the proof of a CWT presentation is checked

---
 verifiable/presentation_parser.go | 43 ++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..38f661e 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,10 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+//nolint:funlen,gocyclo
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -141,6 +143,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 		return nil, errors.Join(errors.New("parsed vp cbor message is nil"), rawErr, hexRawErr, hexErr)
 	}
 
+	if err := checkCWTPresentationProof(message, vpOpts); err != nil {
+		return nil, err
+	}
+
 	var vpMap map[interface{}]interface{}
 	if err := cbor.Unmarshal(message.Payload, &vpMap); err != nil {
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
@@ -150,7 +156,16 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
-		// do nothing
+		return nil, errors.New("vp field not found in cbor presentation")
+	}
+
+	// Apply VP-related claims from CWT.
+	if iss, isStr := convertedMap["iss"].(string); isStr && iss != "" {
+		vpContent[vpFldHolder] = iss
+	}
+
+	if jti, isStr := convertedMap["jti"].(string); isStr && jti != "" {
+		vpContent[vpFldID] = jti
 	}
 
 	return &parsePresentationResponse{
@@ -165,6 +180,28 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+func checkCWTPresentationProof(message *cose.Sign1Message, vpOpts *presentationOpts) error {
+	if vpOpts.disabledProofCheck {
+		return nil
+	}
+
+	if vpOpts.proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return err
+	}
+
+	err = cwt.CheckProof(message, vpOpts.proofChecker, nil, proofValue, message.Signature)
+	if err != nil {
+		return fmt.Errorf("CWT proof check: %w", err)
+	}
+
+	return nil
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 58b071cbc9526df69a5a11edf1acd90ffad5ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 22/74] fix: JWT credentials and presentations without
 registered claims or vc/vp claim do not panic

---
 verifiable/credential_jwt.go   | 8 ++++++++
 verifiable/presentation_jwt.go | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..65848fa 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -183,6 +183,14 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
 	claims := jcc.Claims
 
+	if vcMap == nil {
+		return errors.New("vc claim is missing")
+	}
+
+	if claims == nil {
+		return nil
+	}
+
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
 		if err != nil {
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..b51e5b7 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -7,6 +7,7 @@ package verifiable
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
@@ -22,6 +23,10 @@ type JWTPresClaims struct {
 func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	raw := jpc.Presentation
 
+	if jpc.Claims == nil || raw == nil {
+		return
+	}
+
 	if jpc.Issuer != "" {
 		raw[vpFldHolder] = jpc.Issuer
 	}
@@ -79,6 +84,10 @@ func decodePresJWT(vpJWT string, unmarshaller JWTPresClaimsUnmarshaller) ([]byte
 		return nil, nil, fmt.Errorf("decode Verifiable Presentation JWT claims: %w", err)
 	}
 
+	if presClaims.Presentation == nil {
+		return nil, nil, errors.New("decode Verifiable Presentation JWT claims: vp claim is missing")
+	}
+
 	// Apply VC-related claims from JWT.
 	presClaims.refineFromJWTClaims()
 
-- 
2.43.0


From bbb4bd56178485172a6349af88b1a577bad17798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 23/74] fix: WithPresHolderCheck rejects presentations proven
 by somebody other than the stated holder

---
 verifiable/presentation.go | 48 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..7b30a27 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -15,9 +15,12 @@ import (
 	"github.com/fxamacker/cbor/v2"
 	jsonld "github.com/piprate/json-gold/ld"
 	docjsonld "github.com/trustbloc/did-go/doc/ld/validator"
+	"github.com/trustbloc/kms-go/doc/jose"
+	"github.com/veraison/go-cose"
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/jwt"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
@@ -713,9 +716,54 @@ func ParsePresentation(vpData []byte, opts ...PresentationOpt) (*Presentation, e
 	p.JWT = parsed.VPJwt
 	p.CWT = parsed.VPCwt
 
+	if vpOpts.checkHolder {
+		if err = checkHolderProofs(p); err != nil {
+			return nil, err
+		}
+	}
+
 	return p, nil
 }
 
+// checkHolderProofs makes sure that the proofs that secure the presentation are made by its stated holder.
+func checkHolderProofs(p *Presentation) error {
+	if p.Holder == "" {
+		return nil
+	}
+
+	var keyIDs []string
+
+	switch {
+	case p.JWT != "":
+		token, _, err := jwt.Parse(p.JWT, jwt.WithIgnoreClaimsMapDecoding(true))
+		if err != nil {
+			return fmt.Errorf("check presentation holder: %w", err)
+		}
+
+		keyIDs = append(keyIDs, token.LookupStringHeader(jose.HeaderKeyID))
+	case p.CWT != nil:
+		keyID, _ := p.CWT.Message.Headers.Protected[cose.HeaderLabelKeyID].([]byte) //nolint:errcheck
+		keyIDs = append(keyIDs, string(keyID))
+	default:
+		for _, proof := range p.Proofs {
+			keyID, ok := proof["verificationMethod"].(string)
+			if !ok {
+				keyID, _ = proof["creator"].(string) //nolint:errcheck
+			}
+
+			keyIDs = append(keyIDs, keyID)
+		}
+	}
+
+	for _, keyID := range keyIDs {
+		if strings.Split(keyID, "#")[0] != p.Holder {
+			return fmt.Errorf("presentation proof of %q is not made by the holder %q", keyID, p.Holder)
+		}
+	}
+
+	return nil
+}
+
 func getPresentationOpts(opts []PresentationOpt) *presentationOpts {
 	vpOpts := defaultPresentationOpts()
 
-- 
2.43.0


From b142fdfb075527266bc044c51568138de35407e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 24/74] fix: a status list credential without a subject yields
 an error instead of a crash

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..eb28d3e 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From 1743c1960b733d534555f771ba0b16fd89f9a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 25/74] fix: a status of several bits is read from the bits
 that belong to it

---
 status/status.go                              | 34 ++++++++++++++++++-
 .../bitstringstatus/bitstringstatus.go        |  9 +++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/status/status.go b/status/status.go
index eb28d3e..be5f467 100644
--- a/status/status.go
+++ b/status/status.go
@@ -106,7 +106,7 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 		return fmt.Errorf("failed to decode bits: %w", err)
 	}
 
-	bitSet, err := bitstring.BitAt(bitString, statusListIndex)
+	bitSet, err := isStatusSet(bitString, statusListIndex, statusSize(validator, status))
 	if err != nil {
 		return err
 	}
@@ -129,3 +129,35 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 
 	return nil
 }
+
+// statusSize returns the number of bits that the status takes in the list.
+func statusSize(validator api.Validator, status *verifiable.TypedID) int {
+	if v, ok := validator.(interface {
+		GetStatusSize(vcStatus *verifiable.TypedID) int
+	}); ok {
+		return v.GetStatusSize(status)
+	}
+
+	return 1
+}
+
+// isStatusSet tells whether any of the size bits of the status with the given index is set.
+func isStatusSet(bitString []byte, index, size int) (bool, error) {
+	// one more bit than the list has is already invalid; this also keeps the position from overflowing
+	if index > len(bitString)*8 { //nolint:mnd
+		return false, errors.New("position is invalid")
+	}
+
+	set := false
+
+	for i := 0; i < size; i++ {
+		bitSet, err := bitstring.BitAt(bitString, index*size+i)
+		if err != nil {
+			return false, err
+		}
+
+		set = set || bitSet
+	}
+
+	return set, nil
+}
diff --git a/status/validator/bitstringstatus/bitstringstatus.go b/status/validator/bitstringstatus/bitstringstatus.go
index 473d8ab..060b6e1 100644
--- a/status/validator/bitstringstatus/bitstringstatus.go
+++ b/status/validator/bitstringstatus/bitstringstatus.go
@@ -148,6 +148,15 @@ func (v *Validator) GetStatusPurpose(vcStatus *verifiable.TypedID) (string, erro
 	return statusPurpose, nil
 }
 
+// GetStatusSize returns the number of bits that a status takes in the list (1, unless stated).
+func (v *Validator) GetStatusSize(vcStatus *verifiable.TypedID) int {
+	if statusSize, ok := vcStatus.CustomFields[StatusSize].(float64); ok {
+		return int(statusSize)
+	}
+
+	return 1
+}
+
 // MultiBaseEncoding indicates that status uses MultiBase encoding.
 // See https://www.w3.org/TR/cid-1.0/#multibase-0 for more details.
 func (v *Validator) MultiBaseEncoding() bool {
-- 
2.43.0


From 97d72b0bec6e70c48cfd7d61c94fb237e0e6b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 26/74] fix: statusSize of credentials encoded as JWT or CWT is
 read

---
 .../bitstringstatus/bitstringstatus.go        | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/status/validator/bitstringstatus/bitstringstatus.go b/status/validator/bitstringstatus/bitstringstatus.go
index 060b6e1..a28a929 100644
--- a/status/validator/bitstringstatus/bitstringstatus.go
+++ b/status/validator/bitstringstatus/bitstringstatus.go
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 package bitstringstatus
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 	"strconv"
@@ -84,13 +85,11 @@ func checkStatusSize(vcStatus *verifiable.TypedID) error {
 		return nil
 	}
 
-	statusSizeF, ok := statusSizeRaw.(float64)
+	statusSize, ok := parseStatusSize(statusSizeRaw)
 	if !ok {
 		return errors.New("statusSize must be an integer")
 	}
 
-	statusSize := int(statusSizeF)
-
 	if statusSize <= 0 {
 		return fmt.Errorf("statusSize must be greater than 0, but got %d", statusSize)
 	}
@@ -150,13 +149,31 @@ func (v *Validator) GetStatusPurpose(vcStatus *verifiable.TypedID) (string, erro
 
 // GetStatusSize returns the number of bits that a status takes in the list (1, unless stated).
 func (v *Validator) GetStatusSize(vcStatus *verifiable.TypedID) int {
-	if statusSize, ok := vcStatus.CustomFields[StatusSize].(float64); ok {
-		return int(statusSize)
+	if statusSize, ok := parseStatusSize(vcStatus.CustomFields[StatusSize]); ok {
+		return statusSize
 	}
 
 	return 1
 }
 
+// parseStatusSize reads a number the way JSON, JWT and CBOR decoders represent it.
+func parseStatusSize(raw interface{}) (int, bool) {
+	switch n := raw.(type) {
+	case float64:
+		return int(n), true
+	case json.Number:
+		size, err := strconv.Atoi(n.String())
+
+		return size, err == nil
+	case int64:
+		return int(n), true
+	case uint64:
+		return int(n), true //nolint:gosec
+	default:
+		return 0, false
+	}
+}
+
 // MultiBaseEncoding indicates that status uses MultiBase encoding.
 // See https://www.w3.org/TR/cid-1.0/#multibase-0 for more details.
 func (v *Validator) MultiBaseEncoding() bool {
-- 
2.43.0


From eec0098efa49c1e76cb79aeb445afb9c3ffe60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 27/74] fix: domain linkage credentials without issuer or
 subject are skipped

---
 didconfig/verifier/didconfig.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..acd66eb 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -214,7 +214,7 @@ func validateDomainLinkageCredential(vcc verifiable.CredentialContents, did, ori
 		return errors.New("expiration date MUST be present")
 	}
 
-	if vcc.Subject == nil {
+	if len(vcc.Subject) == 0 {
 		return errors.New("subject MUST be present")
 	}
 
@@ -411,9 +411,8 @@ func getCredentials(linkedDIDs []interface{}, did, domain string, opts ...verifi
 			continue
 		}
 
-		if vc.Contents().Issuer.ID != did {
-			debugLogger.Printf("skipping credential since issuer[%s] is different from DID[%s]",
-				vc.Contents().Issuer.ID, did)
+		if issuer := vc.Contents().Issuer; issuer == nil || issuer.ID != did {
+			debugLogger.Printf("skipping credential since its issuer is different from DID[%s]", did)
 
 			continue
 		}
-- 
2.43.0


From 3891906da2ce40824fa5787db5badf176e0fd506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 28/74] fix: origins without scheme are compared when linking a
 domain

---
 didconfig/verifier/didconfig.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index acd66eb..846bdcf 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -371,6 +371,11 @@ func validateOrigin(origin1, origin2 string) error {
 		return err
 	}
 
+	// origins without a scheme have no host either: nothing but the text tells them apart
+	if (url1.Host == "" || url2.Host == "") && origin1 != origin2 {
+		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
+	}
+
 	// Browsers define same origin based on the following pieces of data:
 	// The protocol (e.g., HTTP or HTTPS)
 	// The port, if available
-- 
2.43.0


From 494183a286f0b183b821a174b437d8ac18055ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 29/74] fix: iss and sub claims of a domain linkage JWT must be
 the DID

---
 didconfig/verifier/didconfig.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 846bdcf..4aed094 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -280,6 +280,15 @@ func validateJWTPayload(vc *verifiable.Credential, payload map[string]interface{
 		return fmt.Errorf("JWT Payload: %w", err)
 	}
 
+	// the registered claims themselves are compared: they may differ from the contents of the credential
+	if payload["iss"] != did {
+		return errors.New("iss MUST be equal to credentialSubject.id")
+	}
+
+	if payload["sub"] != did {
+		return errors.New("sub MUST be equal to credentialSubject.id")
+	}
+
 	return validateJWTClaims(vc, did)
 }
 
-- 
2.43.0


From ee2f2868b2ff86f5dc8e56092f2a4b7b16bd039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 30/74] fix: Match evaluates submission requirements

---
 presexch/api.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..f18a52e 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -19,6 +19,7 @@ import (
 	"github.com/piprate/json-gold/ld"
 
 	"github.com/trustbloc/vc-go/jwt"
+	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	"github.com/trustbloc/vc-go/verifiable"
 )
 
@@ -301,7 +302,25 @@ func selectVC(typelessVerifiable interface{},
 
 // Ensures the matched credentials meet the submission requirements.
 func (pd *PresentationDefinition) evalSubmissionRequirements(matched []*MatchValue) error {
-	// TODO support submission requirement rules: https://github.com/hyperledger/aries-framework-go/issues/2109
+	if len(pd.SubmissionRequirements) > 0 {
+		req, err := makeRequirement(pd.SubmissionRequirements, pd.InputDescriptors)
+		if err != nil {
+			return err
+		}
+
+		answered := requirementlogic.DescriptorIDSet{}
+
+		for _, m := range matched {
+			answered.Add(m.DescriptorID)
+		}
+
+		if !req.toLogic().IsSatisfiedBy(answered) {
+			return errors.New("the input descriptors answered do not satisfy the submission requirements")
+		}
+
+		return nil
+	}
+
 	descriptorIDs := descriptorIDs(pd.InputDescriptors)
 
 	for i := range descriptorIDs {
-- 
2.43.0


From 193af44007927cb3c288a8e55df0003891118dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 31/74] fix: credentials without ID are told apart in
 presentation submissions

---
 presexch/definition.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..60ae310 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1033,7 +1033,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 		credentialSrc := filtered.credentialSrc
 
 		if constraints == nil {
-			result = append(result, &credWrapper{uniqueID: credentialContents.ID, vc: credential})
+			result = append(result, &credWrapper{uniqueID: uniqueID(credential, credentialContents.ID), vc: credential})
 			continue
 		}
 
@@ -1050,7 +1050,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			continue
 		}
 
-		uniqueCredID := credentialContents.ID
+		uniqueCredID := uniqueID(credential, credentialContents.ID)
 
 		// Non-SDJWT case.
 		//nolint:nestif
@@ -1259,6 +1259,15 @@ func copyOnlySubjectIDs(subject []verifiable.Subject) interface{} {
 	return withOnlyIDs
 }
 
+// uniqueID tells a credential apart from the others. IDs of credentials are optional.
+func uniqueID(credential *verifiable.Credential, id string) string {
+	if id != "" {
+		return id
+	}
+
+	return fmt.Sprintf("%s%p", tmpEnding, credential)
+}
+
 func tmpID(id string) string {
 	return id + tmpEnding + uuid.New().String()
 }
-- 
2.43.0


From 89542abb46f8856b6db03ec94d299a82e6028240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 32/74] fix: entries of a presentation submission point at a
 credential that answers their descriptor

---
 presexch/definition.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 60ae310..01c6629 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1694,8 +1694,6 @@ func merge(
 	setOfCredentials map[string][]*credWrapper,
 	separatePresentations bool,
 ) ([]*verifiable.Credential, []*InputDescriptorMapping) {
-	setOfCreds := make(map[string]int)
-
 	var (
 		result      []*verifiable.Credential
 		descriptors []*InputDescriptorMapping
@@ -1714,18 +1712,35 @@ func merge(
 
 	sort.Strings(keys)
 
+	// indices of the embedded credentials, by unique ID.
+	embedded := make(map[string][]int)
+
+	// find returns the index of an embedded credential with the given ID that answers the descriptor.
+	find := func(uniqueID string, answers []*credWrapper) (int, bool) {
+		for _, idx := range embedded[uniqueID] {
+			for _, answer := range answers {
+				if answer.vc == result[idx] {
+					return idx, true
+				}
+			}
+		}
+
+		return 0, false
+	}
+
 	for _, descriptorID := range keys {
 		credentials := setOfCredentials[descriptorID]
 
 		for _, credWrap := range credentials {
-			credential := credWrap.vc
-
-			if _, ok := setOfCreds[credWrap.uniqueID]; !ok {
-				result = append(result, credential)
-
-				setOfCreds[credWrap.uniqueID] = len(result) - 1
+			credIdx, ok := find(credWrap.uniqueID, credentials)
+			if !ok {
+				result = append(result, credWrap.vc)
+				credIdx = len(result) - 1
+				embedded[credWrap.uniqueID] = append(embedded[credWrap.uniqueID], credIdx)
 			}
 
+			credential := result[credIdx]
+
 			vcFormat := FormatLDPVC
 			if credential.IsJWT() {
 				vcFormat = FormatJWTVC
@@ -1741,11 +1756,11 @@ func merge(
 			}
 
 			if separatePresentations {
-				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[credWrap.uniqueID])
+				desc.Path = fmt.Sprintf("$[%d]", credIdx)
 				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[0]", jwtVPPath)
 			} else {
 				desc.Path = "$"
-				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[credWrap.uniqueID])
+				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, credIdx)
 			}
 
 			descriptors = append(descriptors, desc)
-- 
2.43.0


From fe9e7574636283c8be899ce5c8c9e52767278c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 33/74] fix: definitions with duplicate input descriptor IDs
 are rejected instead of crashing

---
 presexch/definition.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 01c6629..047c890 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -299,7 +299,7 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	}
 
 	if result.Valid() {
-		return nil
+		return pd.checkDescriptorIDs()
 	}
 
 	resultErrors := result.Errors()
@@ -312,6 +312,21 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	return errors.New(strings.Join(errs, ","))
 }
 
+// checkDescriptorIDs checks that no two input descriptors have the same ID.
+func (pd *PresentationDefinition) checkDescriptorIDs() error {
+	ids := make(map[string]struct{}, len(pd.InputDescriptors))
+
+	for _, descriptor := range pd.InputDescriptors {
+		if _, ok := ids[descriptor.ID]; ok {
+			return fmt.Errorf("input descriptor id is not unique: %s", descriptor.ID)
+		}
+
+		ids[descriptor.ID] = struct{}{}
+	}
+
+	return nil
+}
+
 type constraintsFilterResult struct {
 	credential    *verifiable.Credential
 	credentialSrc []byte
-- 
2.43.0


From 3126ba2f5856853ab91d31f1eaa67434afd99f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 34/74] fix: constraints without fields do not exclude every
 credential

---
 presexch/definition.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 047c890..76e6548 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -977,7 +977,8 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			continue
 		}
 
-		var applicable bool
+		// constraints without fields do not exclude any credential
+		applicable := true
 
 		var err error
 
@@ -1015,8 +1016,6 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			if err != nil {
 				return nil, debugCred, fmt.Errorf("filter field.%d: %w", i, err)
 			}
-
-			applicable = true
 		}
 
 		if !applicable {
-- 
2.43.0


From 18ee05400383c7fdd9b1609aa599f44069838969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 35/74] fix: credentials of every accepted claim format are
 considered for a descriptor

---
 presexch/definition.go | 77 +++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 76e6548..db19d2b 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -863,28 +863,36 @@ func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 		format = descriptor.Format
 	}
 
-	vpFormat := ""
-	filtered := creds
+	candidates := []formatCredentials{{credentials: creds}}
 
 	if format.notNil() {
-		vpFormat, filtered = filterFormat(format, filtered)
+		candidates = filterFormat(format, creds)
 	}
 
-	var err error
-	// Validate schema only for v1
-	if descriptor.Schema != nil {
-		filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
+	// the first format that has credentials matching the descriptor is used
+	for _, candidate := range candidates {
+		filtered := candidate.credentials
+
+		var err error
+		// Validate schema only for v1
+		if descriptor.Schema != nil {
+			filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
+			if err != nil {
+				return "", nil, err
+			}
+		}
+
+		filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
 		if err != nil {
 			return "", nil, err
 		}
-	}
 
-	filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
-	if err != nil {
-		return "", nil, err
+		if len(filteredByConstraints) > 0 {
+			return candidate.format, filteredByConstraints, nil
+		}
 	}
 
-	return vpFormat, filteredByConstraints, nil
+	return "", nil, nil
 }
 
 func getSubjectIDs(subject interface{}) []string { // nolint: gocyclo
@@ -1792,8 +1800,16 @@ func (a byID) Len() int           { return len(a) }
 func (a byID) Less(i, j int) bool { return a[i].ID < a[j].ID }
 func (a byID) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 
+// formatCredentials are the credentials that satisfy one of the claim formats of a Format.
+type formatCredentials struct {
+	format      string
+	credentials []*verifiable.Credential
+}
+
+// filterFormat returns the credentials by claim format, in order of preference.
+//
 //nolint:funlen,gocyclo
-func filterFormat(format *Format, credentials []*verifiable.Credential) (string, []*verifiable.Credential) {
+func filterFormat(format *Format, credentials []*verifiable.Credential) []formatCredentials {
 	var ldpCreds, ldpvcCreds, ldpvpCreds, jwtCreds, jwtvcCreds, jwtvpCreds []*verifiable.Credential
 
 	for _, credential := range credentials {
@@ -1831,31 +1847,22 @@ func filterFormat(format *Format, credentials []*verifiable.Credential) (string,
 		}
 	}
 
-	if len(ldpCreds) > 0 {
-		return FormatLDP, ldpCreds
-	}
-
-	if len(ldpvcCreds) > 0 {
-		return FormatLDPVC, ldpvcCreds
-	}
-
-	if len(ldpvpCreds) > 0 {
-		return FormatLDPVP, ldpvpCreds
-	}
-
-	if len(jwtCreds) > 0 {
-		return FormatJWT, jwtCreds
-	}
-
-	if len(jwtvcCreds) > 0 {
-		return FormatJWTVC, jwtvcCreds
-	}
+	var result []formatCredentials
 
-	if len(jwtvpCreds) > 0 {
-		return FormatJWTVP, jwtvpCreds
+	for _, candidate := range []formatCredentials{
+		{format: FormatLDP, credentials: ldpCreds},
+		{format: FormatLDPVC, credentials: ldpvcCreds},
+		{format: FormatLDPVP, credentials: ldpvpCreds},
+		{format: FormatJWT, credentials: jwtCreds},
+		{format: FormatJWTVC, credentials: jwtvcCreds},
+		{format: FormatJWTVP, credentials: jwtvpCreds},
+	} {
+		if len(candidate.credentials) > 0 {
+			result = append(result, candidate)
+		}
 	}
 
-	return "", nil
+	return result
 }
 
 func algMatch(credAlg string, jwtType *JwtType) bool {
-- 
2.43.0


From cfc3b997968c45618fc5dbdfd6295353b0801372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 36/74] fix: Match rejects empty descriptor map entries and
 submissions instead of crashing

---
 presexch/api.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index f18a52e..f0c58d9 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -192,6 +192,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		}
 
 		for _, mapping := range descriptorMap {
+			if mapping == nil {
+				return nil, fmt.Errorf("%s has an empty entry", descriptorMapProperty)
+			}
+
 			// The object MUST include an id property, and its value MUST be a string matching the id property of
 			// the Input Descriptor in the Presentation Definition the submission is related to.
 			if _, ok := descriptorIDs[mapping.ID]; !ok {
@@ -377,6 +381,10 @@ func parseDescriptorMap(vp *verifiable.Presentation) ([]*InputDescriptorMapping,
 	case map[string]interface{}:
 		return getDescriptorMapping(submission)
 	case *PresentationSubmission:
+		if submission == nil {
+			return nil, fmt.Errorf("missing '%s' on verifiable presentation", submissionProperty)
+		}
+
 		return submission.DescriptorMap, nil
 	case PresentationSubmission:
 		return submission.DescriptorMap, nil
-- 
2.43.0


From 7106165829d31eef0839e64770ae4b4cd7cddf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:25 +0000
Subject: [PATCH 37/74] fix: a merged submission that points at a presentation
 not received is rejected

---
 presexch/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index f0c58d9..5f31447 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -165,6 +165,12 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		mappingsByVPIndex = descriptorsByPresentationIndex(descs)
 	}
 
+	for vpIdx := range mappingsByVPIndex {
+		if vpIdx < 0 || vpIdx >= len(vpList) {
+			return nil, fmt.Errorf("presentation submission points at presentation %d of %d", vpIdx, len(vpList))
+		}
+	}
+
 	rawVPs := make([]interface{}, len(vpList))
 
 	for vpIdx, vp := range vpList {
-- 
2.43.0


From c7e292466a88f56ea3ec5023a8aa2b3073133342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 38/74] fix: descriptor map paths in bracket notation are
 matched within the presentation

---
 presexch/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 5f31447..8350fdb 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -431,7 +431,7 @@ func descriptorIDs(input []*InputDescriptor) map[string]bool {
 }
 
 func descriptorMappingExpectsVPList(idm *InputDescriptorMapping) bool {
-	if strings.HasPrefix(idm.Path, "$[") {
+	if rootIndex(idm.Path) != -1 {
 		return true
 	}
 
-- 
2.43.0


From 78331c067a80be3969f0eaf839b76ed8554d9fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 39/74] fix: submissions made for another definition are
 rejected

---
 presexch/api.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 8350fdb..d2b9eda 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -36,6 +36,7 @@ const (
 
 	submissionProperty    = "presentation_submission"
 	descriptorMapProperty = "descriptor_map"
+	definitionIDProperty  = "definition_id"
 )
 
 // PresentationSubmission is the container for the descriptor_map:
@@ -153,10 +154,18 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 	var mappingsByVPIndex map[int][]*InputDescriptorMapping
 
 	if opts.MergedSubmission != nil {
+		if err := pd.checkDefinitionID(opts.MergedSubmission); err != nil {
+			return nil, err
+		}
+
 		mappingsByVPIndex = descriptorsByPresentationIndex(opts.MergedSubmission.DescriptorMap)
 	} else if len(opts.MergedSubmissionMap) != 0 {
 		useMergedSubmission = true
 
+		if err := pd.checkDefinitionID(opts.MergedSubmissionMap); err != nil {
+			return nil, err
+		}
+
 		descs, err := getDescriptorMapping(opts.MergedSubmissionMap)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
@@ -195,6 +204,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
 			}
+
+			if err = pd.checkDefinitionID(vp.CustomFields[submissionProperty]); err != nil {
+				return nil, err
+			}
 		}
 
 		for _, mapping := range descriptorMap {
@@ -361,6 +374,26 @@ func (pd *PresentationDefinition) inputDescriptor(id string) *InputDescriptor {
 	return nil
 }
 
+// checkDefinitionID checks that a presentation submission that names its definition was made for pd.
+func (pd *PresentationDefinition) checkDefinitionID(untypedSubmission interface{}) error {
+	var id string
+
+	switch submission := untypedSubmission.(type) {
+	case map[string]interface{}:
+		id, _ = submission[definitionIDProperty].(string) //nolint:errcheck
+	case *PresentationSubmission:
+		id = submission.DefinitionID
+	case PresentationSubmission:
+		id = submission.DefinitionID
+	}
+
+	if id != "" && id != pd.ID {
+		return fmt.Errorf("presentation submission was made for another definition: %s", id)
+	}
+
+	return nil
+}
+
 func checkJSONLDContextType(vp *verifiable.Presentation) error {
 	if !stringsContain(vp.Context, PresentationSubmissionJSONLDContextIRI) &&
 		!stringsContain(vp.Context, CredentialApplicationJSONLDContextIRI) {
-- 
2.43.0


From 8f6d3568add4ff9095e3e5045b39f3d1b4dfa9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 40/74] fix: Match checks the claim format of the credentials
 submitted

---
 presexch/api.go        |  6 ++++++
 presexch/definition.go | 23 +++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index d2b9eda..b400aee 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -257,6 +257,12 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 					inputDescriptor.ID, inputDescriptor.Schema, vcc.Context, vcc.Types, mapping.Path)
 			}
 
+			if format := pd.descriptorFormat(inputDescriptor).credentialFormat(); format.notNil() &&
+				len(filterFormat(format, []*verifiable.Credential{vc})) == 0 {
+				return nil, fmt.Errorf("input descriptor id [%s] does not accept the claim format of the credential "+
+					"selected by path [%s]", inputDescriptor.ID, mapping.Path)
+			}
+
 			filtered, _, filterErr := filterConstraints(inputDescriptor.Constraints, []*verifiable.Credential{vc})
 			if filterErr != nil {
 				return nil, filterErr
diff --git a/presexch/definition.go b/presexch/definition.go
index db19d2b..77431dd 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -101,6 +101,15 @@ func (f *Format) notNil() bool {
 		(f.Jwt != nil || f.JwtVC != nil || f.JwtVP != nil || f.Ldp != nil || f.LdpVC != nil || f.LdpVP != nil)
 }
 
+// credentialFormat returns the part of f that limits the claim format of credentials, nil if it does not limit it.
+func (f *Format) credentialFormat() *Format {
+	if f == nil || f.CwtVC != nil {
+		return nil
+	}
+
+	return &Format{Jwt: f.Jwt, JwtVC: f.JwtVC, Ldp: f.Ldp, LdpVC: f.LdpVC}
+}
+
 // CwtType contains alg.
 type CwtType struct {
 	Alg []string `json:"alg,omitempty"`
@@ -853,15 +862,21 @@ type descriptorMatch struct {
 	creds  []*credWrapper
 }
 
+// descriptorFormat returns the claim formats accepted for a descriptor.
+func (pd *PresentationDefinition) descriptorFormat(descriptor *InputDescriptor) *Format {
+	if descriptor.Format.notNil() {
+		return descriptor.Format
+	}
+
+	return pd.Format
+}
+
 func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 	creds []*verifiable.Credential,
 	descriptor *InputDescriptor,
 	documentLoader ld.DocumentLoader,
 ) (string, []constraintsFilterResult, error) {
-	format := pd.Format
-	if descriptor.Format.notNil() {
-		format = descriptor.Format
-	}
+	format := pd.descriptorFormat(descriptor)
 
 	candidates := []formatCredentials{{credentials: creds}}
 
-- 
2.43.0


From 8d0e02c2214cce037d9284e9dce3de72a5a84750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 41/74] fix: Match reports contexts that cannot be loaded

---
 presexch/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index b400aee..925eacf 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -246,7 +246,7 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
 			if fltErr != nil {
-				return nil, err
+				return nil, fltErr
 			}
 
 			if len(passed) == 0 && !opts.DisableSchemaValidation {
-- 
2.43.0


From 03ecfc8ee1e80b7f18fa5788562da90c0674c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 42/74] fix: presexch: filters without a type do not crash the
 evaluation of fields

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 77431dd..d4bc928 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1505,7 +1505,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 699f8fe19e3b0941e172573aed7d1a812867fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 43/74] fix: presexch: an optional field must pass its filter
 when a later path selects a value

---
 presexch/definition.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index d4bc928..f82b147 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -63,7 +63,10 @@ const (
 	FormatLDPVP = "ldp_vp"
 )
 
-var errPathNotApplicable = errors.New("path not applicable")
+var (
+	errPathNotApplicable = errors.New("path not applicable")
+	errNoValue           = errors.New("no value found")
+)
 
 type (
 	// Selection can be "all" or "pick".
@@ -1521,13 +1524,24 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	var lastErr error
 
+	found := false
+
 	for _, path := range f.Path {
 		err := checkPathValue(isJWTCredential, path, credential, f, schema)
 		if err == nil { // if at least 1 path is valid, we are good
 			return nil
 		}
 
-		lastErr = errors.Join(lastErr, checkPathValue(isJWTCredential, path, credential, f, schema))
+		if !errors.Is(err, errNoValue) {
+			found = true
+		}
+
+		lastErr = errors.Join(lastErr, err)
+	}
+
+	// an optional field may be absent, but not have another value
+	if f.Optional && !found {
+		return nil
 	}
 
 	return lastErr
@@ -1615,11 +1629,7 @@ func checkPathValue(
 
 	selected := pathParsed.Select(credential)
 	if len(selected) == 0 {
-		if field.Optional { // we are good
-			return nil
-		}
-
-		return errors.Join(errPathNotApplicable, fmt.Errorf("no value found for path %s", path))
+		return errors.Join(errPathNotApplicable, fmt.Errorf("%w for path %s", errNoValue, path))
 	}
 
 	var raw any
-- 
2.43.0


From c0ee846507ad55d315e17b79d730096ae8765786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 44/74] fix: presexch: limited disclosure reveals what the
 fields select, keeps the wallet's credential and element order

---
 presexch/definition.go | 476 ++++++++++++++++++++++++++++++-----------
 1 file changed, 350 insertions(+), 126 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index f82b147..ca53525 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -7,17 +7,15 @@ SPDX-License-Identifier: Apache-2.0
 package presexch
 
 import (
-	"bytes"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"sort"
-	"strconv"
 	"strings"
 	"time"
 
 	"github.com/google/uuid"
-	jsonpathkeys "github.com/kawamuray/jsonpath"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
 	"github.com/tidwall/gjson"
@@ -31,6 +29,7 @@ import (
 	"github.com/trustbloc/vc-go/verifiable"
 
 	pathv2 "github.com/theory/jsonpath"
+	"github.com/theory/jsonpath/spec"
 )
 
 const (
@@ -47,7 +46,8 @@ const (
 
 	tmpEnding = "tmp_unique_id_"
 
-	credentialSchema = "credentialSchema"
+	credentialSchema  = "credentialSchema"
+	credentialSubject = "credentialSubject"
 
 	// FormatJWT presentation exchange format.
 	FormatJWT = "jwt"
@@ -1156,10 +1156,17 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 				return nil, err
 			}
 
-			err = credential.SetSDJWTDisclosures(limitedDisclosures)
+			// the credential of the caller keeps its disclosures
+			limited, envelope := *credential, *credential.JWTEnvelope
+			limited.JWTEnvelope = &envelope
+
+			err = limited.SetSDJWTDisclosures(limitedDisclosures)
 			if err != nil {
 				return nil, err
 			}
+
+			credential = &limited
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
@@ -1168,72 +1175,203 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 	return result, nil
 }
 
-// nolint: gocyclo,funlen,gocognit
+// getLimitedDisclosures returns the disclosures that reveal the values selected by the fields of constraints.
 func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
-	credentialContents := credential.Contents()
-
-	credentialSrc, err := credential.MarshalAsJSONLD()
+	selected, err := selectValues(constraints.Fields, displaySrc, credential.IsJWT())
 	if err != nil {
 		return nil, err
 	}
 
-	var limitedDisclosures []*common.DisclosureClaim
+	revealer := &disclosureRevealer{
+		byDigest: map[string]*common.DisclosureClaim{},
+		revealed: map[*common.DisclosureClaim]bool{},
+	}
+
+	contents := credential.Contents()
+	disclosures := credential.SDJWTDisclosures()
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, displaySrc)
+	for _, dc := range disclosures {
+		digest, err := common.GetHash(*contents.SDJWTHashAlg, dc.Disclosure)
 		if err != nil {
 			return nil, err
 		}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+		revealer.byDigest[digest] = dc
+	}
 
-			parentPath, key := splitLast(path.oldPath, ".")
+	for _, value := range selected {
+		if err := revealer.reveal(credential.ToRawJSON(), value.path); err != nil {
+			return nil, err
+		}
+	}
 
-			parentObj, ok := gjson.GetBytes(credentialSrc, parentPath).Value().(map[string]interface{})
-			if !ok {
-				// no selective disclosures at this level, so nothing to add to limited disclosures
-				continue
+	var limitedDisclosures []*common.DisclosureClaim
+
+	for _, dc := range disclosures {
+		if revealer.revealed[dc] {
+			limitedDisclosures = append(limitedDisclosures, dc)
+		}
+	}
+
+	return limitedDisclosures, nil
+}
+
+// disclosureRevealer collects the disclosures on the way to values, and below them.
+type disclosureRevealer struct {
+	byDigest map[string]*common.DisclosureClaim
+	revealed map[*common.DisclosureClaim]bool
+}
+
+func (r *disclosureRevealer) reveal(value interface{}, path spec.NormalizedPath) error {
+	if len(path) == 0 {
+		return r.revealAll(value)
+	}
+
+	switch key := path[0].(type) {
+	case spec.Name:
+		obj := asObject(value)
+
+		if member, ok := obj[string(key)]; ok {
+			return r.reveal(member, path[1:])
+		}
+
+		for _, digest := range digestsOf(obj) {
+			if dc, ok := r.byDigest[digest]; ok && dc.Name == string(key) {
+				member, err := r.disclose(dc)
+				if err != nil {
+					return err
+				}
+
+				return r.reveal(member, path[1:])
 			}
+		}
+	case spec.Index:
+		elements, _ := value.([]interface{}) // nolint:errcheck
+		index := int(key)
 
-			digests, err := common.GetDisclosureDigests(parentObj)
-			if err != nil {
-				return nil, err
+		for _, element := range elements {
+			dc, concealed := r.concealedElement(element)
+			if concealed && dc == nil {
+				continue // the element is unknown
 			}
 
-			disclosures := credential.SDJWTDisclosures()
-			disclosuresMap := map[string]*common.DisclosureClaim{}
+			if index > 0 {
+				index--
 
-			for _, dc := range disclosures {
-				disclosuresMap[dc.Digest] = dc
+				continue
 			}
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
-			for _, elem := range arrayElements {
-				dis, disOk := disclosuresMap[elem]
-				if disOk {
-					limitedDisclosures = append(limitedDisclosures, dis)
+			if concealed {
+				var err error
+
+				element, err = r.disclose(dc)
+				if err != nil {
+					return err
 				}
 			}
 
-			for _, dc := range disclosures {
-				if dc.Name == key {
-					digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
-					if err != nil {
-						return nil, err
-					}
+			return r.reveal(element, path[1:])
+		}
+	}
 
-					if _, ok := digests[digest]; ok {
-						limitedDisclosures = append(limitedDisclosures, dc)
-					}
-				}
+	return nil
+}
+
+func (r *disclosureRevealer) revealAll(value interface{}) error {
+	if elements, ok := value.([]interface{}); ok {
+		for _, element := range elements {
+			if err := r.revealAll(element); err != nil {
+				return err
 			}
 		}
+
+		return nil
 	}
 
-	return limitedDisclosures, nil
+	obj := asObject(value)
+	digests := digestsOf(obj)
+
+	if dc, concealed := r.concealedElement(value); concealed && dc != nil {
+		return r.revealDisclosure(dc)
+	}
+
+	for _, digest := range digests {
+		if dc, ok := r.byDigest[digest]; ok {
+			if err := r.revealDisclosure(dc); err != nil {
+				return err
+			}
+		}
+	}
+
+	for _, member := range obj {
+		if err := r.revealAll(member); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+func (r *disclosureRevealer) revealDisclosure(dc *common.DisclosureClaim) error {
+	value, err := r.disclose(dc)
+	if err != nil {
+		return err
+	}
+
+	return r.revealAll(value)
+}
+
+// disclose marks a disclosure as revealed and returns the value it holds.
+func (r *disclosureRevealer) disclose(dc *common.DisclosureClaim) (interface{}, error) {
+	r.revealed[dc] = true
+
+	decoded, err := base64.RawURLEncoding.DecodeString(dc.Disclosure)
+	if err != nil {
+		return nil, fmt.Errorf("decode disclosure: %w", err)
+	}
+
+	var parts []interface{}
+
+	if err := json.Unmarshal(decoded, &parts); err != nil {
+		return nil, fmt.Errorf("unmarshal disclosure: %w", err)
+	}
+
+	if len(parts) == 0 {
+		return nil, errors.New("empty disclosure")
+	}
+
+	return parts[len(parts)-1], nil
+}
+
+// concealedElement tells whether an element of an array is concealed, and its disclosure if there is one.
+func (r *disclosureRevealer) concealedElement(element interface{}) (*common.DisclosureClaim, bool) {
+	obj := asObject(element)
+
+	digest, ok := obj[common.ArrayElementDigestKey].(string)
+	if !ok || len(obj) != 1 {
+		return nil, false
+	}
+
+	return r.byDigest[digest], true
+}
+
+func digestsOf(obj map[string]interface{}) []string {
+	var digests []string
+
+	list, _ := obj[common.SDKey].([]interface{}) // nolint:errcheck
+	for _, digest := range list {
+		if s, ok := digest.(string); ok {
+			digests = append(digests, s)
+		}
+	}
+
+	return digests
+}
+
+func asObject(value interface{}) map[string]interface{} {
+	obj, _ := value.(map[string]interface{}) // nolint:errcheck
+
+	return obj
 }
 
 // ExtractArrayValuesForSDJWTV5 extracts array values for SD JWT V5.
@@ -1320,37 +1458,39 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		doBBS               = hasBBS(credential) && constraints.LimitDisclosure.isRequired()
 		modifiedByPredicate bool
 		explicitPaths       = make(map[string]bool)
+		limitedDoc          map[string]interface{}
 	)
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, src)
-		if err != nil {
-			return nil, err
-		}
+	values, err := selectValues(constraints.Fields, src, credential.IsJWT())
+	if err != nil {
+		return nil, err
+	}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+	if err = json.Unmarshal(limitedCred, &limitedDoc); err != nil {
+		return nil, err
+	}
 
-			var val interface{} = true
+	paths := &pathCompactor{
+		compact: constraints.LimitDisclosure.isRequired(), next: map[string]int{},
+		indices: map[string]int{}, whole: map[string]bool{},
+	}
 
-			if f.Predicate.isRequired() {
-				modifiedByPredicate = true
-			} else {
-				val = gjson.GetBytes(src, path.oldPath).Value()
-			}
+	for _, value := range values {
+		modifiedByPredicate = modifiedByPredicate || value.predicate
 
-			if doBBS {
-				explicitPath, _ := splitLast(path.newPath, ".")
-				explicitPaths[explicitPath] = true
-			}
+		newPath := paths.newPath(value.path)
 
-			limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
-			if err != nil {
-				return nil, err
-			}
+		if doBBS {
+			explicitPath, _ := splitLast(joinPath(newPath), ".")
+			explicitPaths[explicitPath] = true
 		}
+
+		limitedDoc, _ = setValue(limitedDoc, newPath, value.value).(map[string]interface{}) // nolint:errcheck
+	}
+
+	limitedCred, err = json.Marshal(limitedDoc)
+	if err != nil {
+		return nil, err
 	}
 
 	if !doBBS || modifiedByPredicate {
@@ -1382,34 +1522,142 @@ func splitLast(text, split string) (string, string) {
 	return text[:lastIndex], text[lastIndex+len(split):]
 }
 
-// compactArrayPaths adjusts array indices in the given JSON paths, as if the corresponding JSON object has all
-// unmentioned array elements removed. Input paths are in JSONPath syntax, while output paths are in dot-separated
-// syntax, eg, `foo.1.bar.3`.
-func compactArrayPaths(keys []string, src []byte) ([]*pathTransform, error) {
-	paths, err := jsonpathkeys.ParsePaths(keys...)
-	if err != nil {
+// selectedValue is a value of a credential that a field selects.
+type selectedValue struct {
+	path      spec.NormalizedPath
+	value     interface{}
+	predicate bool
+}
+
+// selectValues returns the values of a credential that fields select. Values come before the values they contain,
+// elements of an array in their order.
+func selectValues(fields []*Field, src []byte, isJWTCredential bool) ([]*selectedValue, error) {
+	var credential map[string]interface{}
+
+	if err := json.Unmarshal(src, &credential); err != nil {
 		return nil, err
 	}
 
-	eval, err := jsonpathkeys.EvalPathsInReader(bytes.NewReader(src), paths)
-	if err != nil {
-		return nil, err
+	var values []*selectedValue
+
+	byPath := map[string]*selectedValue{}
+
+	for _, f := range fields {
+		for _, path := range f.Path {
+			parsed, err := parsePath(isJWTCredential, path, credential)
+			if err != nil {
+				continue // another path selects the value
+			}
+
+			for _, node := range parsed.SelectLocated(credential) {
+				key := node.Path.String()
+				if strings.Contains(key, credentialSchema) {
+					continue
+				}
+
+				value, ok := byPath[key]
+				if !ok {
+					value = &selectedValue{path: node.Path}
+					byPath[key] = value
+					values = append(values, value)
+				}
+
+				value.predicate = f.Predicate.isRequired()
+				value.value = node.Node
+
+				if value.predicate {
+					value.value = true
+				}
+			}
+		}
+	}
+
+	sort.SliceStable(values, func(i, j int) bool { return values[i].path.Compare(values[j].path) < 0 })
+
+	return values, nil
+}
+
+// pathCompactor adjusts array indices in paths, as if the corresponding JSON object has all unmentioned array elements
+// removed.
+type pathCompactor struct {
+	compact bool
+	next    map[string]int  // next free index of an array
+	indices map[string]int  // new index of an element
+	whole   map[string]bool // values that are selected as a whole
+}
+
+func (c *pathCompactor) newPath(path spec.NormalizedPath) []interface{} {
+	var (
+		keys  []interface{}
+		whole = !c.compact
+	)
+
+	for i, key := range path {
+		parent, element := path[:i].String(), path[:i+1].String()
+		whole = whole || c.whole[parent]
+
+		switch k := key.(type) {
+		case spec.Name:
+			keys = append(keys, string(k))
+		case spec.Index:
+			index, ok := c.indices[element]
+
+			switch {
+			case whole, parent == "$['"+credentialSubject+"']": // all subjects stay
+				index = int(k)
+			case !ok:
+				index = c.next[parent]
+				c.indices[element] = index
+				c.next[parent]++
+			}
+
+			keys = append(keys, index)
+		}
 	}
 
-	var jPaths []*pathTransform
+	c.whole[path.String()] = true
 
-	set := map[string]int{}
+	return keys
+}
+
+func joinPath(path []interface{}) string {
+	var keys []string
+
+	for _, key := range path {
+		keys = append(keys, fmt.Sprint(key))
+	}
+
+	return strings.Join(keys, ".")
+}
 
-	for {
-		result, ok := eval.Next()
+// setValue sets the value at a path of a JSON value.
+func setValue(doc interface{}, path []interface{}, value interface{}) interface{} {
+	if len(path) == 0 {
+		return value
+	}
+
+	switch key := path[0].(type) {
+	case string:
+		obj, ok := doc.(map[string]interface{})
 		if !ok {
-			break
+			obj = map[string]interface{}{}
+		}
+
+		obj[key] = setValue(obj[key], path[1:], value)
+
+		return obj
+	case int:
+		list, _ := doc.([]interface{}) // nolint:errcheck
+		for len(list) <= key {
+			list = append(list, nil)
 		}
 
-		jPaths = append(jPaths, getPath(result.Keys, set))
+		list[key] = setValue(list[key], path[1:], value)
+
+		return list
 	}
 
-	return jPaths, nil
+	return doc
 }
 
 func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
@@ -1569,14 +1817,8 @@ func convertToRFC9535Format(path string) string {
 	return builder.String()
 }
 
-//nolint:gocyclo,funlen
-func checkPathValue(
-	isJWTCredential bool,
-	path string,
-	credential map[string]any,
-	field *Field,
-	schema gojsonschema.JSONLoader,
-) error {
+//nolint:gocyclo
+func parsePath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, error) {
 	if isJWTCredential { // compatibility
 		replacements := map[string]string{
 			"$.vc.":   "$.",
@@ -1599,7 +1841,7 @@ func checkPathValue(
 	}
 
 	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
-		return errors.New("expected $ or @ at start of path")
+		return nil, errors.New("expected $ or @ at start of path")
 	}
 
 	var pathParsed *pathv2.Path
@@ -1624,7 +1866,22 @@ func checkPathValue(
 	}
 
 	if pathErr != nil {
-		return pathErr
+		return nil, pathErr
+	}
+
+	return pathParsed, nil
+}
+
+func checkPathValue(
+	isJWTCredential bool,
+	path string,
+	credential map[string]any,
+	field *Field,
+	schema gojsonschema.JSONLoader,
+) error {
+	pathParsed, err := parsePath(isJWTCredential, path, credential)
+	if err != nil {
+		return err
 	}
 
 	selected := pathParsed.Select(credential)
@@ -1702,39 +1959,6 @@ func isDateField(paths []string) bool {
 	return false
 }
 
-type pathTransform struct {
-	newPath string
-	oldPath string
-}
-
-func getPath(keys []interface{}, set map[string]int) *pathTransform {
-	var (
-		newPath      []string
-		originalPath []string
-	)
-
-	for _, k := range keys {
-		switch v := k.(type) {
-		case int:
-			counterKey := strings.Join(originalPath, ".")
-			originalPath = append(originalPath, strconv.Itoa(v))
-			mapperKey := strings.Join(originalPath, ".")
-
-			if _, ok := set[mapperKey]; !ok {
-				set[mapperKey] = set[counterKey]
-				set[counterKey]++
-			}
-
-			newPath = append(newPath, strconv.Itoa(set[mapperKey]))
-		default:
-			originalPath = append(originalPath, fmt.Sprintf("%s", v))
-			newPath = append(newPath, fmt.Sprintf("%s", v))
-		}
-	}
-
-	return &pathTransform{newPath: strings.Join(newPath, "."), oldPath: strings.Join(originalPath, ".")}
-}
-
 //nolint:funlen
 func merge(
 	presentationFormat string,
-- 
2.43.0


From c16780695ae110771837830d4b168412939560e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 45/74] fix: typed objects without ID are written without an
 empty ID

---
 verifiable/common.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index ce787ef..5fc8cd2 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -169,8 +169,13 @@ func parseTypedIDObj(typedIDObj JSONObject) (TypedID, error) {
 func serializeTypedIDObj(typedID TypedID) JSONObject {
 	json := jsonutil.ShallowCopyObj(typedID.CustomFields)
 
-	json[jsonFldTypedIDID] = typedID.ID
-	json[jsonFldTypedIDType] = typedID.Type
+	if typedID.ID != "" {
+		json[jsonFldTypedIDID] = typedID.ID
+	}
+
+	if typedID.Type != "" {
+		json[jsonFldTypedIDType] = typedID.Type
+	}
 
 	return json
 }
-- 
2.43.0


From 904cd77792c0ceb09f312ce51b32ad41e48bfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 46/74] fix: SD-JWT v2 issuance writes no _sd member where
 nothing is concealed

---
 sdjwt/issuer/v2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v2.go b/sdjwt/issuer/v2.go
index 305b09a..39243c3 100644
--- a/sdjwt/issuer/v2.go
+++ b/sdjwt/issuer/v2.go
@@ -107,7 +107,9 @@ func (s *SDJWTBuilderV2) CreateDisclosuresAndDigests(
 		return nil, nil, err
 	}
 
-	digestsMap[common.SDKey] = digests
+	if len(digests) > 0 {
+		digestsMap[common.SDKey] = digests
+	}
 
 	return disclosures, digestsMap, nil
 }
-- 
2.43.0


From 7e4b00d06fc6278f97d7e3ff9aa47a06514de522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 47/74] fix: encoding credentials without issuer or issuance
 date as a token does not crash

---
 verifiable/credential_cwt.go | 11 +++++++----
 verifiable/credential_jwt.go |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..cb7a929 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -33,10 +33,12 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		claims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +47,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index 65848fa..1fa27d0 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -109,9 +109,12 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
-		Issuer:  vcc.Issuer.ID, // iss
-		ID:      vcc.ID,        // jti
-		Subject: subjectID,     // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		jwtClaims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
-- 
2.43.0


From 3796570d8973b3715e23425af07f8f700d7b075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 48/74] fix: credentials created from typed contents hold plain
 JSON values and are signed as received

---
 verifiable/credential.go        | 31 +++++++++++++++++++++++++++----
 verifiable/lddocument/signer.go | 11 ++++++++++-
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..c22e668 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2162,7 +2162,9 @@ func SerializeSubject(subject []Subject) interface{} {
 		return SubjectToJSON(subject[0])
 	}
 
-	return mapSlice(subject, SubjectToJSON)
+	return mapSlice(subject, func(s Subject) interface{} {
+		return SubjectToJSON(s)
+	})
 }
 
 // validateCredentialUsingJSONSchema validates that the Verifiable Credential
@@ -2482,7 +2484,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 		if len(vcc.Status) == 1 {
 			vcJSON[jsonFldStatus] = serializeTypedIDObj(*vcc.Status[0])
 		} else {
-			statuses := make([]map[string]interface{}, len(vcc.Status))
+			statuses := make([]interface{}, len(vcc.Status))
 
 			for i, status := range vcc.Status {
 				statuses[i] = serializeTypedIDObj(*status)
@@ -2509,7 +2511,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 	}
 
 	if len(vcc.RelatedResources) > 0 {
-		vcJSON[jsonFldRelatedResource] = vcc.RelatedResources
+		vcJSON[jsonFldRelatedResource] = relatedResourcesToRaw(vcc.RelatedResources)
 	}
 
 	if len(vcc.TermsOfUse) > 0 {
@@ -2577,10 +2579,31 @@ func typedIDsToRaw(typedIDs []TypedID) interface{} {
 	case 1:
 		return serializeTypedIDObj(typedIDs[0])
 	default:
-		return mapSlice(typedIDs, serializeTypedIDObj)
+		return mapSlice(typedIDs, func(typedID TypedID) interface{} {
+			return serializeTypedIDObj(typedID)
+		})
 	}
 }
 
+func relatedResourcesToRaw(resources []RelatedResource) interface{} {
+	return mapSlice(resources, func(resource RelatedResource) interface{} {
+		raw := JSONObject{}
+
+		for name, value := range map[string]string{
+			"id":              resource.Id,
+			"digestSRI":       resource.DigestSRI,
+			"digestMultibase": resource.DigestMultiBase,
+			"mediaType":       resource.MediaType,
+		} {
+			if value != "" {
+				raw[name] = value
+			}
+		}
+
+		return raw
+	})
+}
+
 // MarshalJSON converts Verifiable Credential to JSON bytes.
 func (vc *Credential) MarshalJSON() ([]byte, error) {
 	obj, err := vc.ToUniversalForm()
diff --git a/verifiable/lddocument/signer.go b/verifiable/lddocument/signer.go
index 39a844d..c8ce28e 100644
--- a/verifiable/lddocument/signer.go
+++ b/verifiable/lddocument/signer.go
@@ -8,12 +8,15 @@ package lddocument
 import (
 	"encoding/base64"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
 	"github.com/trustbloc/did-go/doc/ld/proof"
 	afgotime "github.com/trustbloc/did-go/doc/util/time"
 	"github.com/trustbloc/kms-go/spi/kms"
+
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 const defaultProofPurpose = "assertionMethod"
@@ -106,10 +109,16 @@ func (ds *DocumentSigner) signObject(context *SigningContext, jsonLdObject map[s
 		p.JWS = proof.CreateDetachedJWTHeader(jwtAlg) + ".."
 	}
 
+	// What is signed is the document as it will be received, after JSON encoding.
+	document, err := jsonutil.ToMap(jsonLdObject)
+	if err != nil {
+		return fmt.Errorf("encode document: %w", err)
+	}
+
 	message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 		wrapped: ds.signer,
 		proof:   p,
-	}, jsonLdObject, p, append(opts, processor.WithValidateRDF())...)
+	}, document, p, append(opts, processor.WithValidateRDF())...)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4f5fbee3c5432b911c423dc7aa92ee48c4c202ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 49/74] fix: dates of data model 2.0 credentials are read from
 their own members first

---
 verifiable/common.go     | 12 ++++++++++++
 verifiable/credential.go | 26 ++++++++++----------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index 5fc8cd2..d4e8102 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -391,6 +391,18 @@ func parseTimeFld(obj JSONObject, fldName string) (*util.TimeWrapper, error) {
 	}
 }
 
+// parseFirstTimeFld returns the time in the first of the fields that is present.
+func parseFirstTimeFld(obj JSONObject, fldNames []string) (*util.TimeWrapper, error) {
+	for _, fldName := range fldNames {
+		t, err := parseTimeFld(obj, fldName)
+		if err != nil || t != nil {
+			return t, err
+		}
+	}
+
+	return nil, nil
+}
+
 func mapSlice[T any, U any](slice []T, mapFN func(T) U) []U {
 	var result []U
 	for _, v := range slice {
diff --git a/verifiable/credential.go b/verifiable/credential.go
index c22e668..99021ac 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -17,6 +17,7 @@ import (
 	"log"
 	"net/http"
 	"os"
+	"slices"
 	"strings"
 	"time"
 
@@ -1768,28 +1769,21 @@ func parseCredentialContents(raw JSONObject, isSDJWT bool) (*CredentialContents,
 		return nil, fmt.Errorf("fill credential id from raw: %w", err)
 	}
 
-	issued, err := parseTimeFld(raw, jsonFldIssued)
-	if err != nil {
-		return nil, fmt.Errorf("fill credential issued from raw: %w", err)
-	}
+	issuedFlds, expiredFlds := []string{jsonFldIssued, jsonFldValidFrom}, []string{jsonFldExpired, jsonFldValidUntil}
 
-	if issued == nil {
-		issued, err = parseTimeFld(raw, jsonFldValidFrom)
-		if err != nil {
-			return nil, fmt.Errorf("fill credential issued from raw: %w", err)
-		}
+	if IsBaseContext(context, V2ContextURI) {
+		slices.Reverse(issuedFlds)
+		slices.Reverse(expiredFlds)
 	}
 
-	expired, err := parseTimeFld(raw, jsonFldExpired)
+	issued, err := parseFirstTimeFld(raw, issuedFlds)
 	if err != nil {
-		return nil, fmt.Errorf("fill credential expired from raw: %w", err)
+		return nil, fmt.Errorf("fill credential issued from raw: %w", err)
 	}
 
-	if expired == nil {
-		expired, err = parseTimeFld(raw, jsonFldValidUntil)
-		if err != nil {
-			return nil, fmt.Errorf("fill credential expired from raw: %w", err)
-		}
+	expired, err := parseFirstTimeFld(raw, expiredFlds)
+	if err != nil {
+		return nil, fmt.Errorf("fill credential expired from raw: %w", err)
 	}
 
 	statuses, err := newTypedIDArray(raw[jsonFldStatus])
-- 
2.43.0


From cd3be24f9106d2ecefbcbf8ff870cdf1999010e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 50/74] fix: related resource digests: check every stated
 digest, accept standard SRI base64, refuse short digests without panicking

---
 verifiable/related_resource.go | 68 ++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..c22d66f 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/sha512"
+	"encoding/base64"
 	"errors"
 	"fmt"
 	"io"
@@ -81,6 +82,12 @@ func (r *RelatedResourceValidator) Fetch(targetURL string) (*CachedResource, err
 		return nil, errors.Join(err, fmt.Errorf("fetch related resource: %s", targetURL))
 	}
 
+	if resp.Body != nil {
+		defer func() {
+			_ = resp.Body.Close() // nolint:errcheck
+		}()
+	}
+
 	if resp.StatusCode != http.StatusOK {
 		return nil, errors.Join(fmt.Errorf("related resource fetch failed with status code: %d",
 			resp.StatusCode))
@@ -92,10 +99,6 @@ func (r *RelatedResourceValidator) Fetch(targetURL string) (*CachedResource, err
 
 	var data []byte
 
-	defer func() {
-		_ = resp.Body.Close() // nolint:errcheck
-	}()
-
 	data, err = io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, errors.Join(err, fmt.Errorf("read related resource: %s", targetURL))
@@ -152,25 +155,26 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	var hashAlgo string
-
-	var hash string
+	if res.DigestSRI == "" && res.DigestMultiBase == "" {
+		return fmt.Errorf("no digest for related resource: %s", res.Id)
+	}
 
 	if res.DigestSRI != "" {
-		sp := strings.Split(res.DigestSRI, "-")
-
-		if len(sp) != 2 {
+		hashAlgo, hash, ok := strings.Cut(res.DigestSRI, "-")
+		if !ok {
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
 		}
 
-		hashAlgo = sp[0]
-		hash = sp[1]
-	} else if res.DigestMultiBase != "" {
-		hashAlgo = "sha256"
-		hash = res.DigestMultiBase
+		if err := r.validateHash(hash, hashAlgo, res, cachedResource); err != nil {
+			return err
+		}
 	}
 
-	return r.validateHash(hash, hashAlgo, res, cachedResource)
+	if res.DigestMultiBase != "" {
+		return r.validateHash(res.DigestMultiBase, "sha256", res, cachedResource)
+	}
+
+	return nil
 }
 
 func (r *RelatedResourceValidator) validateHash(
@@ -179,11 +183,6 @@ func (r *RelatedResourceValidator) validateHash(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	enc, decodedDigest, err := multibase.Decode(hash)
-	if err != nil {
-		return errors.Join(err, fmt.Errorf("decode digest: %s", hash))
-	}
-
 	var rawHash []byte
 
 	switch strings.ToLower(hashAlgo) {
@@ -197,9 +196,9 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
-	if hasHeader { // skip header
-		decodedDigest = decodedDigest[2:]
+	decodedDigest, err := decodeDigest(hash, len(rawHash))
+	if err != nil {
+		return errors.Join(err, fmt.Errorf("decode digest: %s", hash))
 	}
 
 	if !bytes.Equal(rawHash, decodedDigest) {
@@ -209,6 +208,27 @@ func (r *RelatedResourceValidator) validateHash(
 	return nil
 }
 
+// decodeDigest decodes a digest of the given size, which is either plain base64, as in the Subresource Integrity
+// specification, or multibase encoded, with an optional multihash header in the case of SHA-256.
+func decodeDigest(hash string, size int) ([]byte, error) {
+	if digest, err := base64.StdEncoding.DecodeString(hash); err == nil && len(digest) == size {
+		return digest, nil
+	}
+
+	_, digest, err := multibase.Decode(hash)
+	if err != nil {
+		return nil, err
+	}
+
+	sha256Header := []byte{0x12, sha256.Size}
+
+	if size == sha256.Size && len(digest) == size+len(sha256Header) && bytes.HasPrefix(digest, sha256Header) {
+		digest = digest[len(sha256Header):]
+	}
+
+	return digest, nil
+}
+
 func (r *RelatedResourceValidator) calculateHashes(data []byte) *CachedResource {
 	sha384Hash := sha512.Sum384(data)
 	sha256Hash := sha256.Sum256(data)
-- 
2.43.0


From 8850f2420ad67513415042f9c4af2041bc0e5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 51/74] fix: validate credentials against the data model schema
 and every custom schema they refer to

---
 verifiable/credential.go | 42 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 99021ac..d8de4dd 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2165,45 +2165,49 @@ func SerializeSubject(subject []Subject) interface{} {
 // conforms to the serialization of the Verifiable Credential data model
 // (https://w3c.github.io/vc-data-model/#example-1-a-simple-example-of-a-verifiable-credential)
 func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContents, opts *credentialOpts) error {
-	schemaLoader, err := getSchemaLoader(vcc, opts)
+	schemaLoaders, err := getSchemaLoaders(vcc, opts)
 	if err != nil {
 		return fmt.Errorf("get schema loader: %w", err)
 	}
 
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
-	result, err := gojsonschema.Validate(schemaLoader, loader)
-	if err != nil {
-		return fmt.Errorf("validation of verifiable credential: %w", err)
-	}
+	for _, schemaLoader := range schemaLoaders {
+		result, err := gojsonschema.Validate(schemaLoader, loader)
+		if err != nil {
+			return fmt.Errorf("validation of verifiable credential: %w", err)
+		}
 
-	if !result.Valid() {
-		errMsg := describeSchemaValidationError(result, "verifiable credential")
-		return errors.New(errMsg)
+		if !result.Valid() {
+			errMsg := describeSchemaValidationError(result, "verifiable credential")
+			return errors.New(errMsg)
+		}
 	}
 
 	return nil
 }
 
-func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschema.JSONLoader, error) {
-	var schemaLoader gojsonschema.JSONLoader
+// getSchemaLoaders returns the schemas the credential has to conform to: either the schema set by the caller, or the
+// schema of the data model together with all the custom schemas (of supported types) which the credential refers to.
+func getSchemaLoaders(vcc *CredentialContents, opts *credentialOpts) ([]gojsonschema.JSONLoader, error) {
+	var schemaLoaders []gojsonschema.JSONLoader
 
 	if IsBaseContext(vcc.Context, V2ContextURI) {
-		schemaLoader = schemaLoaderV2()
+		schemaLoaders = append(schemaLoaders, schemaLoaderV2())
 	} else {
-		schemaLoader = schemaLoaderV1()
+		schemaLoaders = append(schemaLoaders, schemaLoaderV1())
 	}
 
 	if opts.disabledCustomSchema {
-		return schemaLoader, nil
+		return schemaLoaders, nil
 	}
 
 	if opts.defaultSchema != "" {
-		return gojsonschema.NewStringLoader(opts.defaultSchema), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchema)}, nil
 	}
 
 	if opts.defaultSchemaLoader != nil {
-		return gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc)), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc))}, nil
 	}
 
 	for _, schema := range vcc.Schemas {
@@ -2214,18 +2218,18 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)
 			}
 
-			return gojsonschema.NewBytesLoader(customSchemaData), nil
+			schemaLoaders = append(schemaLoaders, gojsonschema.NewBytesLoader(customSchemaData))
 		//TODO: add support for JSON Schema Credential
 		case jsonSchemaCredentialType:
 			// TODO: should unsupported schema type be ignored or should this cause an error?
-			errLogger.Printf("unsupported credential schema: %s. Using default schema for validation", schema.Type)
+			errLogger.Printf("unsupported credential schema: %s. It is not used for validation", schema.Type)
 		default:
 			// TODO: should unsupported schema be ignored or should this cause an error?
-			errLogger.Printf("unsupported credential schema: %s. Using default schema for validation", schema.Type)
+			errLogger.Printf("unsupported credential schema: %s. It is not used for validation", schema.Type)
 		}
 	}
 
-	return schemaLoader, nil
+	return schemaLoaders, nil
 }
 
 type schemaOpts struct {
-- 
2.43.0


From a18c3b76467447b27ba5880b4b03bcf5660610e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 52/74] fix: reject credentials without contexts or types in
 base context validation instead of panicking

---
 verifiable/credential.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index d8de4dd..2d46c29 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -71,6 +71,7 @@ const SchemaTemplateV1 = `{
               "const": "https://www.w3.org/2018/credentials/v1"
             }
           ],
+          "minItems": 1,
           "uniqueItems": true,
           "additionalItems": {
             "anyOf": [
@@ -1642,11 +1643,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
-- 
2.43.0


From 4cae74374e04b8f30714b1d8e1adb6b361aba89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 53/74] fix: refuse to sign CWTs without an algorithm instead
 of using a key that no COSE algorithm is known for

---
 proof/creator/creator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof/creator/creator.go b/proof/creator/creator.go
index 02ef155..1ca64a1 100644
--- a/proof/creator/creator.go
+++ b/proof/creator/creator.go
@@ -205,7 +205,8 @@ func (c *ProofCreator) getSupportedProof(proofType string) (ldProofCreateDescrip
 
 func (c *ProofCreator) getSupportedProofByCwtAlg(cwtAlg cose.Algorithm) (jwtProofCreateDescriptor, error) {
 	for _, supported := range c.supportedJWTAlgs {
-		if supported.proofDescriptor.CWTAlgorithm() == cwtAlg {
+		// Descriptors without COSE algorithm have the reserved identifier zero.
+		if cwtAlg != 0 && supported.proofDescriptor.CWTAlgorithm() == cwtAlg {
 			return supported, nil
 		}
 	}
-- 
2.43.0


From fc7374bc84db105256a6f71db204fbc86a6fab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 54/74] fix: verify with Ed25519VerificationKey2020 methods
 published as publicKeyMultibase

---
 proof/checker/checker.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/proof/checker/checker.go b/proof/checker/checker.go
index 0f1295a..94511e5 100644
--- a/proof/checker/checker.go
+++ b/proof/checker/checker.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package checker
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"fmt"
@@ -29,6 +30,11 @@ type verificationMethodResolver interface {
 	ResolveVerificationMethod(verificationMethod string, expectedProofIssuer string) (*vermethod.VerificationMethod, error)
 }
 
+const ed25519KeySize = 32
+
+// ed25519MultikeyHeader precedes the bytes of an Ed25519 public key in a Multikey.
+var ed25519MultikeyHeader = []byte{0xed, 0x01} //nolint:gochecknoglobals
+
 type signatureVerifier interface {
 	// SupportedKeyType checks if verifier supports given key.
 	SupportedKeyType(keyType kms.KeyType) bool
@@ -403,7 +409,14 @@ func createPublicKey(vm *vermethod.VerificationMethod, keyType kms.KeyType) *pub
 		return &pubkey.PublicKey{Type: keyType, JWK: vm.JWK}
 	}
 
-	return &pubkey.PublicKey{Type: keyType, BytesKey: &pubkey.BytesKey{Bytes: vm.Value}}
+	value := vm.Value
+
+	// Ed25519 keys published as publicKeyMultibase come with the header of a Multikey.
+	if keyType == kms.ED25519Type && len(value) == len(ed25519MultikeyHeader)+ed25519KeySize {
+		value = bytes.TrimPrefix(value, ed25519MultikeyHeader)
+	}
+
+	return &pubkey.PublicKey{Type: keyType, BytesKey: &pubkey.BytesKey{Bytes: value}}
 }
 
 func (c *ProofCheckerBase) getSupportedProof(proofType string) (ldCheckDescriptor, error) {
-- 
2.43.0


From 8f7fe0d3072d7f51fa46f2649e3e5634413c430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 55/74] fix: do not add external JSON-LD contexts to the
 checked credential itself

---
 verifiable/embedded_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 9ba4ffe..293c786 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -14,6 +14,7 @@ import (
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
 	"github.com/trustbloc/vc-go/dataintegrity/models"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
 
@@ -58,6 +59,8 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
+		// The document belongs to the caller and must not be changed.
+		jsonldDoc = jsonutil.ShallowCopyObj(jsonldDoc)
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
-- 
2.43.0


From b2d874b12fff3958bd26189b7c90b1ca2cd464f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 56/74] fix: do not write the default proof purpose into the
 caller's data integrity context

---
 verifiable/data_integrity_proof.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verifiable/data_integrity_proof.go b/verifiable/data_integrity_proof.go
index 514e338..198536d 100644
--- a/verifiable/data_integrity_proof.go
+++ b/verifiable/data_integrity_proof.go
@@ -86,12 +86,13 @@ func addDataIntegrityProof(
 		expiresTime = *context.Expires
 	}
 
-	if context.ProofPurpose == "" {
-		context.ProofPurpose = assertionMethod
+	proofPurpose := context.ProofPurpose
+	if proofPurpose == "" {
+		proofPurpose = assertionMethod
 	}
 
 	signed, err := signer.AddProof(ldBytes, &models.ProofOptions{
-		Purpose:              context.ProofPurpose,
+		Purpose:              proofPurpose,
 		VerificationMethodID: context.SigningKeyID,
 		ProofType:            models.DataIntegrityProof,
 		SuiteType:            context.CryptoSuite,
-- 
2.43.0


From 22b3c3c1db2870aa091dbe08ea592a91e0bd9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 57/74] fix: do not append into option lists that belong to the
 caller

---
 presexch/definition.go                 | 3 ++-
 verifiable/bbs_selective_disclosure.go | 3 ++-
 verifiable/credential_bbs.go           | 3 ++-
 verifiable/credential_sdjwt.go         | 3 ++-
 verifiable/lddocument/signer.go        | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index ca53525..dddb405 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -1494,7 +1495,7 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	}
 
 	if !doBBS || modifiedByPredicate {
-		opts = append(opts, verifiable.WithDisabledProofCheck())
+		opts = append(slices.Clip(opts), verifiable.WithDisabledProofCheck())
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..99b2090 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -10,6 +10,7 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -213,7 +214,7 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 		return nil, fmt.Errorf("create verify document data: %w", err)
 	}
 
-	optionsWithBlankFrames := append(opts, processor.WithFrameBlankNodes())
+	optionsWithBlankFrames := append(slices.Clip(opts), processor.WithFrameBlankNodes())
 
 	revealDocumentResult, err := processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
 	if err != nil {
diff --git a/verifiable/credential_bbs.go b/verifiable/credential_bbs.go
index 8340792..b177532 100644
--- a/verifiable/credential_bbs.go
+++ b/verifiable/credential_bbs.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"slices"
 
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
@@ -43,7 +44,7 @@ func (vc *Credential) GenerateBBSSelectiveDisclosure(revealDoc map[string]interf
 		return nil, err
 	}
 
-	opts = append(opts, WithDisabledProofCheck())
+	opts = append(slices.Clip(opts), WithDisabledProofCheck())
 
 	return ParseCredential(vcWithSelectiveDisclosureBytes, opts...)
 }
diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..5b4656d 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"slices"
 
 	"github.com/trustbloc/kms-go/doc/jose"
 
@@ -419,7 +420,7 @@ func makeSDJWT( //nolint:funlen,gocyclo
 		)
 	}
 
-	opts.nonSDClaims = append(opts.nonSDClaims, "id")
+	opts.nonSDClaims = append(slices.Clip(opts.nonSDClaims), "id")
 	issuerOptions = append(issuerOptions,
 		issuer.WithNonSelectivelyDisclosableClaims(opts.nonSDClaims),
 	)
diff --git a/verifiable/lddocument/signer.go b/verifiable/lddocument/signer.go
index c8ce28e..7748ab4 100644
--- a/verifiable/lddocument/signer.go
+++ b/verifiable/lddocument/signer.go
@@ -9,6 +9,7 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"slices"
 	"time"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -118,7 +119,7 @@ func (ds *DocumentSigner) signObject(context *SigningContext, jsonLdObject map[s
 	message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 		wrapped: ds.signer,
 		proof:   p,
-	}, document, p, append(opts, processor.WithValidateRDF())...)
+	}, document, p, append(slices.Clip(opts), processor.WithValidateRDF())...)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a75b765fa0c51b66a47ba2b786cdcba3c5bd8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 58/74] fix: do not share lists and custom fields between a
 presentation and its clone

---
 verifiable/presentation.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 7b30a27..4f71cc3 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -10,6 +10,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/fxamacker/cbor/v2"
@@ -545,14 +547,14 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	return &Presentation{
-		Context:       vp.Context,
-		CustomContext: vp.CustomContext,
+		Context:       slices.Clone(vp.Context),
+		CustomContext: slices.Clone(vp.CustomContext),
 		ID:            vp.ID,
-		Type:          vp.Type,
-		credentials:   vp.credentials,
+		Type:          slices.Clone(vp.Type),
+		credentials:   slices.Clone(vp.credentials),
 		Holder:        vp.Holder,
-		Proofs:        vp.Proofs,
-		CustomFields:  vp.CustomFields,
+		Proofs:        slices.Clone(vp.Proofs),
+		CustomFields:  maps.Clone(vp.CustomFields),
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
 	}
-- 
2.43.0


From 632786baea97902af6b27dc9c2ec05a7ea13ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 59/74] fix: remove the proof when proofs are reset to none
 instead of leaving a null

---
 verifiable/credential_ldp.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_ldp.go b/verifiable/credential_ldp.go
index 1c6bbf4..dc98445 100644
--- a/verifiable/credential_ldp.go
+++ b/verifiable/credential_ldp.go
@@ -23,6 +23,11 @@ func (vc *Credential) AddLinkedDataProof(context *LinkedDataProofContext, jsonld
 
 // ResetProofs sets new proofs for vc.
 func (vc *Credential) ResetProofs(newProofs []Proof) {
-	vc.credentialJSON[jsonFldLDProof] = proofsToRaw(newProofs)
+	if len(newProofs) == 0 {
+		delete(vc.credentialJSON, jsonFldLDProof)
+	} else {
+		vc.credentialJSON[jsonFldLDProof] = proofsToRaw(newProofs)
+	}
+
 	vc.ldProofs = newProofs
 }
-- 
2.43.0


From fee6f8958575ed8b21d6202b711ffb1ebb53c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 60/74] fix: add data integrity proofs to documents that have
 proofs already

---
 verifiable/linked_data_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/linked_data_proof.go b/verifiable/linked_data_proof.go
index 910f22a..a8ce974 100644
--- a/verifiable/linked_data_proof.go
+++ b/verifiable/linked_data_proof.go
@@ -74,7 +74,7 @@ func mapJSONLDProcessorOpts(jsonldOpts *jsonldCredentialOpts) []ldprocessor.Opts
 }
 
 type rawProof struct {
-	Proof JSONObject `json:"proof,omitempty"`
+	Proof interface{} `json:"proof,omitempty"`
 }
 
 // addLinkedDataProof adds a new proof to the JSON-LD document (VC or VP). It returns a slice
-- 
2.43.0


From 83e54bfb6d7ab5a09ff9fb004d76cdc8c88e79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 61/74] fix: report an error where the JSON-LD library panics
 on a document of another party

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 13 ++++++----
 dataintegrity/suite/eddsa2022/eddsa2022.go |  5 +++-
 internal/failsafe/failsafe.go              | 29 ++++++++++++++++++++++
 proof/checker/checker.go                   |  5 +++-
 proof/creator/creator.go                   |  5 +++-
 verifiable/bbs_selective_disclosure.go     | 21 ++++++++++++----
 verifiable/credential.go                   | 14 ++++++-----
 verifiable/presentation.go                 | 13 ++++++----
 8 files changed, 81 insertions(+), 24 deletions(-)
 create mode 100644 internal/failsafe/failsafe.go

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea5ad85..1ba6987 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -28,6 +28,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 )
 
 const (
@@ -390,11 +391,13 @@ func (s *Suite) RequiresCreated() bool {
 
 func canonicalize(data map[string]interface{}, loader ld.DocumentLoader, mda ld.MessageDigestAlgorithm,
 ) ([]byte, error) {
-	out, err := processor.Default().GetCanonicalDocument(
-		data,
-		processor.WithDocumentLoader(loader),
-		processor.WithMessageDigestAlgorithm(mda),
-	)
+	out, err := failsafe.Call(func() ([]byte, error) {
+		return processor.Default().GetCanonicalDocument(
+			data,
+			processor.WithDocumentLoader(loader),
+			processor.WithMessageDigestAlgorithm(mda),
+		)
+	})
 	if err != nil {
 		return nil, fmt.Errorf("canonicalizing signature base data: %w", err)
 	}
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index c813b66..8553b36 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -25,6 +25,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 )
 
 const (
@@ -318,7 +319,9 @@ func (s *Suite) RequiresCreated() bool {
 }
 
 func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) ([]byte, error) {
-	out, err := processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
+	out, err := failsafe.Call(func() ([]byte, error) {
+		return processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
+	})
 	if err != nil {
 		return nil, fmt.Errorf("canonicalizing signature base data: %w", err)
 	}
diff --git a/internal/failsafe/failsafe.go b/internal/failsafe/failsafe.go
new file mode 100644
index 0000000..a88e591
--- /dev/null
+++ b/internal/failsafe/failsafe.go
@@ -0,0 +1,29 @@
+/*
+Copyright Gen Digital Inc. All Rights Reserved.
+
+SPDX-License-Identifier: Apache-2.0
+*/
+
+// Package failsafe keeps panics of third-party libraries, to which documents of other parties are handed, from
+// taking down the program.
+package failsafe
+
+import "fmt"
+
+// Call returns what f returns, or an error if f panics.
+func Call[T any](f func() (T, error)) (res T, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("document can't be processed: %v", r)
+		}
+	}()
+
+	return f()
+}
+
+// Run returns the error of f, or an error if f panics.
+func Run(f func() error) error {
+	_, err := Call(func() (struct{}, error) { return struct{}{}, f() })
+
+	return err
+}
diff --git a/proof/checker/checker.go b/proof/checker/checker.go
index 94511e5..e4040ba 100644
--- a/proof/checker/checker.go
+++ b/proof/checker/checker.go
@@ -22,6 +22,7 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 	proofdesc "github.com/trustbloc/vc-go/proof"
 	"github.com/trustbloc/vc-go/vermethod"
 )
@@ -192,7 +193,9 @@ func (c *ProofCheckerBase) GetLDPCanonicalDocument(proof *proof.Proof,
 		return nil, err
 	}
 
-	return supportedProof.proofDescriptor.GetCanonicalDocument(doc, opts...)
+	return failsafe.Call(func() ([]byte, error) {
+		return supportedProof.proofDescriptor.GetCanonicalDocument(doc, opts...)
+	})
 }
 
 // GetLDPDigest returns document digest.
diff --git a/proof/creator/creator.go b/proof/creator/creator.go
index 1ca64a1..ccfea61 100644
--- a/proof/creator/creator.go
+++ b/proof/creator/creator.go
@@ -16,6 +16,7 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/cwt"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 	"github.com/trustbloc/vc-go/jwt"
 	proofdesc "github.com/trustbloc/vc-go/proof"
 )
@@ -100,7 +101,9 @@ func (c *ProofCreator) GetLDPCanonicalDocument(proof *proof.Proof,
 		return nil, err
 	}
 
-	return supportedProof.proofDescriptor.GetCanonicalDocument(doc, opts...)
+	return failsafe.Call(func() ([]byte, error) {
+		return supportedProof.proofDescriptor.GetCanonicalDocument(doc, opts...)
+	})
 }
 
 // GetLDPDigest returns document digest.
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 99b2090..1c6b0c1 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -16,6 +16,7 @@ import (
 	"github.com/trustbloc/did-go/doc/ld/processor"
 	"github.com/trustbloc/did-go/doc/ld/proof"
 
+	"github.com/trustbloc/vc-go/internal/failsafe"
 	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
 	"github.com/trustbloc/vc-go/vermethod"
 )
@@ -216,7 +217,9 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	optionsWithBlankFrames := append(slices.Clip(opts), processor.WithFrameBlankNodes())
 
-	revealDocumentResult, err := processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
+	revealDocumentResult, err := failsafe.Call(func() (map[string]interface{}, error) {
+		return processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
+	})
 	if err != nil {
 		return nil, fmt.Errorf("frame doc with reveal doc: %w", err)
 	}
@@ -252,12 +255,20 @@ func getCompactedWithSecuritySchema(docMap map[string]interface{},
 		"@context": securityContext,
 	}
 
-	return processor.Default().Compact(docMap, contextMap, opts...)
+	return failsafe.Call(func() (map[string]interface{}, error) {
+		return processor.Default().Compact(docMap, contextMap, opts...)
+	})
+}
+
+func canonicalDocument(doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	return failsafe.Call(func() ([]byte, error) {
+		return processor.Default().GetCanonicalDocument(doc, opts...)
+	})
 }
 
 func createVerifyDocumentData(doc map[string]interface{},
 	opts ...processor.Opts) ([]string, []string, error) {
-	docBytes, err := processor.Default().GetCanonicalDocument(doc, opts...)
+	docBytes, err := canonicalDocument(doc, opts...)
 	if err != nil {
 		return nil, nil, fmt.Errorf("canonicalizing document failed: %w", err)
 	}
@@ -273,7 +284,7 @@ func createVerifyDocumentData(doc map[string]interface{},
 }
 
 func createVerifyRevealData(doc map[string]interface{}, opts ...processor.Opts) ([]string, error) {
-	docBytes, err := processor.Default().GetCanonicalDocument(doc, opts...)
+	docBytes, err := canonicalDocument(doc, opts...)
 	if err != nil {
 		return nil, err
 	}
@@ -304,7 +315,7 @@ func createVerifyProofData(proofMap map[string]interface{}, opts ...processor.Op
 		}
 	}
 
-	proofBytes, err := processor.Default().GetCanonicalDocument(proofMapCopy, opts...)
+	proofBytes, err := canonicalDocument(proofMapCopy, opts...)
 	if err != nil {
 		return nil, err
 	}
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 2d46c29..747212e 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -34,6 +34,7 @@ import (
 
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 	"github.com/trustbloc/vc-go/jwt"
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
@@ -1691,17 +1692,18 @@ func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credenti
 		)
 	}
 
-	err = docjsonld.ValidateJSONLDMap(jsonutil.ShallowCopyObj(vcJSON),
-		validateOpts...,
-	)
+	err = failsafe.Run(func() error {
+		return docjsonld.ValidateJSONLDMap(jsonutil.ShallowCopyObj(vcJSON), validateOpts...)
+	})
 	if err != nil {
 		return err
 	}
 
 	if vcOpts.enableJsonLDTypesCheck {
-		if err = docjsonld.ValidateJSONLDTypes(jsonutil.ShallowCopyObj(vcJSON),
-			validateOpts...,
-		); err != nil {
+		err = failsafe.Run(func() error {
+			return docjsonld.ValidateJSONLDTypes(jsonutil.ShallowCopyObj(vcJSON), validateOpts...)
+		})
+		if err != nil {
 			return err
 		}
 	}
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 4f71cc3..2067370 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -22,6 +22,7 @@ import (
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 	"github.com/trustbloc/vc-go/jwt"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
@@ -1012,11 +1013,13 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 }
 
 func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) error {
-	return docjsonld.ValidateJSONLDMap(vpBytes,
-		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
-		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
-		docjsonld.WithStrictValidation(opts.strictValidation),
-	)
+	return failsafe.Run(func() error {
+		return docjsonld.ValidateJSONLDMap(vpBytes,
+			docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
+			docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
+			docjsonld.WithStrictValidation(opts.strictValidation),
+		)
+	})
 }
 
 func validateVPJSONSchema(data rawPresentation) error {
-- 
2.43.0


From 819d9601a5f2068bc7139821237d0b696bd7139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 62/74] fix: report an error where the JSON schema library
 panics on a schema or filter of another party

---
 presexch/definition.go   | 5 ++++-
 verifiable/credential.go | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index dddb405..4612077 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -23,6 +23,7 @@ import (
 	"github.com/tidwall/sjson"
 	"github.com/xeipuuv/gojsonschema"
 
+	"github.com/trustbloc/vc-go/internal/failsafe"
 	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 
@@ -1937,7 +1938,9 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 	}
 
 	for _, sh := range schemasToExecute {
-		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
+		result, err := failsafe.Call(func() (*gojsonschema.Result, error) {
+			return gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
+		})
 		if err != nil || !result.Valid() {
 			return errors.Join(errPathNotApplicable)
 		}
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 747212e..bd4aaf1 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2176,7 +2176,9 @@ func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContent
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
 	for _, schemaLoader := range schemaLoaders {
-		result, err := gojsonschema.Validate(schemaLoader, loader)
+		result, err := failsafe.Call(func() (*gojsonschema.Result, error) {
+			return gojsonschema.Validate(schemaLoader, loader)
+		})
 		if err != nil {
 			return fmt.Errorf("validation of verifiable credential: %w", err)
 		}
-- 
2.43.0


From c545972e75fc8e42959b00dca6999f613d76e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:33 +0000
Subject: [PATCH 63/74] fix: keep every disclosure of a chosen claim name when
 marshalling an SD-JWT credential

---
 verifiable/credential_sdjwt.go | 38 ++++++++++------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 5b4656d..45a3726 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -225,43 +225,27 @@ func filterDisclosures(
 	disclosures []*common.DisclosureClaim,
 	ifAvailable, required []string,
 ) ([]*common.DisclosureClaim, error) {
-	ifAvailMap := map[string]*common.DisclosureClaim{}
-	reqMap := map[string]*common.DisclosureClaim{}
+	ifAvailMap := common.SliceToMap(ifAvailable)
+	reqMap := common.SliceToMap(required)
+	found := make(map[string]bool, len(required))
 
-	for _, name := range ifAvailable {
-		ifAvailMap[name] = nil
-	}
-
-	for _, name := range required {
-		reqMap[name] = nil
-
-		delete(ifAvailMap, name) // avoid listing a disclosure twice, if it's in both lists
-	}
+	var out []*common.DisclosureClaim
 
+	// A name may belong to several disclosures: claims of one name can occur in different objects.
 	for _, disclosure := range disclosures {
-		if _, ok := ifAvailMap[disclosure.Name]; ok {
-			ifAvailMap[disclosure.Name] = disclosure
-		}
-
-		if _, ok := reqMap[disclosure.Name]; ok {
-			reqMap[disclosure.Name] = disclosure
+		if reqMap[disclosure.Name] {
+			found[disclosure.Name] = true
 		}
-	}
-
-	var out []*common.DisclosureClaim
 
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
+		if reqMap[disclosure.Name] || ifAvailMap[disclosure.Name] {
+			out = append(out, disclosure)
 		}
 	}
 
-	for _, claim := range reqMap {
-		if claim == nil {
+	for name := range reqMap {
+		if !found[name] {
 			return nil, errors.New("disclosure list missing required claim")
 		}
-
-		out = append(out, claim)
 	}
 
 	return out, nil
-- 
2.43.0


From 0d49fad5aff2b0e5ce3605802ecd30a6603d287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:33 +0000
Subject: [PATCH 64/74] fix: do not reveal nested claims that were not chosen
 when displaying an SD-JWT credential

---
 verifiable/credential_sdjwt.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 45a3726..9349862 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -481,7 +481,10 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := chosenDisclosures(vc, options)
+	if err != nil {
+		return nil, fmt.Errorf("choosing disclosed claims: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -543,7 +546,10 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := chosenDisclosures(vc, options)
+	if err != nil {
+		return nil, fmt.Errorf("choosing disclosed claims: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -557,6 +563,19 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
+// chosenDisclosures returns the disclosures to be displayed. The values of the disclosures held by the credential were
+// resolved with every disclosure that came with it, and are thus decoded again: a chosen claim must not reveal nested
+// claims that were not chosen.
+func chosenDisclosures(vc *Credential, options *displayCredOpts) ([]*common.DisclosureClaim, error) {
+	var disclosures []string
+
+	for _, disclosure := range filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options) {
+		disclosures = append(disclosures, disclosure.Disclosure)
+	}
+
+	return common.GetDisclosureClaims(disclosures, *vc.credentialContents.SDJWTHashAlg)
+}
+
 func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displayCredOpts) []*common.DisclosureClaim {
 	if options.displayAll {
 		return disclosures
-- 
2.43.0


From 2b9ef03085b92f9a188b0c011342ffc6bcf46d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:54 +0000
Subject: [PATCH 65/74] fix: recognise an SD-JWT credential that has no
 disclosures left

---
 verifiable/credential_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..2ceb874 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -68,7 +68,10 @@ func (p *CredentialJSONParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.Join(errUnsupportedCredentialFormat, err)
 	}
 
-	contents, err := parseCredentialContents(vcJSON, jwtParseRes.isSDJWT)
+	// An SD-JWT without disclosures is not necessarily in a combined format.
+	_, hasSDAlg := vcJSON[jsonFldSDJWTHashAlg]
+
+	contents, err := parseCredentialContents(vcJSON, jwtParseRes.isSDJWT || jwtParseRes.isJWS && hasSDAlg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e70433d08cbc0c4378b8918bbbf5a542805c230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:29 +0000
Subject: [PATCH 66/74] fix: Data Integrity proofs resolved a verification
 method by its fragment alone

---
 dataintegrity/signer.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index ed5f623..ca47ffa 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -188,32 +188,30 @@ func resolveVM(opts *models.ProofOptions, resolver didResolver, vmID string) err
 func getVMByPurpose(purpose, vmID string, didDoc *did.Doc) (*did.VerificationMethod, error) {
 	var verificationMethod *did.VerificationMethod
 
-	vmIDFragment := vmIDFragmentOnly(vmID)
-
 	switch purpose {
 	case AssertionMethod:
 		assertionMethods := didDoc.VerificationMethods(did.AssertionMethod)[did.AssertionMethod]
 
-		verificationMethod = getVM(vmIDFragment, assertionMethods)
+		verificationMethod = getVM(vmID, assertionMethods)
 		if verificationMethod == nil {
 			// A VM with general relationship is allowed for assertion
 			generalMethods :=
 				didDoc.VerificationMethods(did.VerificationRelationshipGeneral)[did.VerificationRelationshipGeneral]
 
-			verificationMethod = getVM(vmIDFragment, generalMethods)
+			verificationMethod = getVM(vmID, generalMethods)
 		}
 	case Authentication:
 		authMethods := didDoc.VerificationMethods(did.Authentication)[did.Authentication]
 
-		verificationMethod = getVM(vmIDFragment, authMethods)
+		verificationMethod = getVM(vmID, authMethods)
 	case CapabilityDelegation:
 		capabilityDelegationMethods := didDoc.VerificationMethods(did.CapabilityDelegation)[did.CapabilityDelegation]
 
-		verificationMethod = getVM(vmIDFragment, capabilityDelegationMethods)
+		verificationMethod = getVM(vmID, capabilityDelegationMethods)
 	case CapabilityInvocation:
 		capabilityInvocationMethods := didDoc.VerificationMethods(did.CapabilityInvocation)[did.CapabilityInvocation]
 
-		verificationMethod = getVM(vmIDFragment, capabilityInvocationMethods)
+		verificationMethod = getVM(vmID, capabilityInvocationMethods)
 	default:
 		return nil, fmt.Errorf("purpose %s not supported", purpose)
 	}
@@ -226,9 +224,12 @@ func getVMByPurpose(purpose, vmID string, didDoc *did.Doc) (*did.VerificationMet
 	return verificationMethod, nil
 }
 
+// getVM finds the verification method of the given ID. Methods of other controllers that the document lists under the
+// same fragment are other methods; only a relative ID is compared by its fragment.
 func getVM(vmID string, vms []did.Verification) *did.VerificationMethod {
 	for _, verification := range vms {
-		if vmID == vmIDFragmentOnly(verification.VerificationMethod.ID) {
+		id := verification.VerificationMethod.ID
+		if id == vmID || !strings.HasPrefix(id, "did:") && vmIDFragmentOnly(id) == vmIDFragmentOnly(vmID) {
 			return &verification.VerificationMethod
 		}
 	}
-- 
2.43.0


From 1b2e13363f95e22d05e6f712962ff126edb6ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:16 +0000
Subject: [PATCH 67/74] fix: the other keywords of a presentation exchange
 filter were ignored next to allOf

---
 presexch/definition.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 4612077..a47b99f 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1769,6 +1769,12 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 			}
 		}
 
+		// the members of allOf are applied one by one, next to the other keywords of the filter
+		if len(filter.AllOf) > 0 {
+			filter.Type = nil
+			filter.AllOf = nil
+		}
+
 		schema = gojsonschema.NewGoLoader(filter)
 	}
 
@@ -1927,16 +1933,12 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 		return err
 	}
 
-	var schemasToExecute []gojsonschema.JSONLoader
+	schemasToExecute := []gojsonschema.JSONLoader{schema}
 
 	for _, all := range field.Filter.AllOf {
 		schemasToExecute = append(schemasToExecute, gojsonschema.NewGoLoader(all))
 	}
 
-	if len(schemasToExecute) == 0 {
-		schemasToExecute = append(schemasToExecute, schema) // fallback
-	}
-
 	for _, sh := range schemasToExecute {
 		result, err := failsafe.Call(func() (*gojsonschema.Result, error) {
 			return gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
-- 
2.43.0


From 441bedb28cf4f7e3fdf7905d08d72215e2574531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:47 +0000
Subject: [PATCH 68/74] fix: an ECDSA signature is not followed by other bytes

---
 crypto-ext/verifiers/ecdsa/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 58523b7..d555177 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -109,10 +109,15 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 			R, S *big.Int
 		}
 
-		if _, err := asn1.Unmarshal(signature, &esig); err != nil {
+		rest, err := asn1.Unmarshal(signature, &esig)
+		if err != nil {
 			return err
 		}
 
+		if len(rest) != 0 {
+			return errors.New("ecdsa: data after the signature")
+		}
+
 		r = esig.R
 		s = esig.S
 	}
-- 
2.43.0


From 5235b3823993eaeafb1e709c6614229cf3a6018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 69/74] fix: statements of derived BBS+ credentials have the
 order in which they were signed

---
 .../bbsblssignatureproof2020/proof.go         | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/proof/ldproofs/bbsblssignatureproof2020/proof.go b/proof/ldproofs/bbsblssignatureproof2020/proof.go
index 2e14d2b..f81aa55 100644
--- a/proof/ldproofs/bbsblssignatureproof2020/proof.go
+++ b/proof/ldproofs/bbsblssignatureproof2020/proof.go
@@ -15,6 +15,9 @@ package bbsblssignatureproof2020
 // It uses BLS12-381 pairing-friendly curve (https://tools.ietf.org/html/draft-irtf-cfrg-pairing-friendly-curves-03).
 
 import (
+	"bytes"
+	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -72,7 +75,40 @@ func (s *Proof) GetCanonicalDocument(doc map[string]interface{}, opts ...process
 		}
 	}
 
-	return s.jsonldProcessor.GetCanonicalDocument(doc, opts...)
+	canonical, err := s.jsonldProcessor.GetCanonicalDocument(doc, opts...)
+	if err != nil {
+		return nil, err
+	}
+
+	return restoreBlankNodes(canonical), nil
+}
+
+// blankNodeTerm matches the terms of a statement: literals, which stay as they are, and identifiers that stand for
+// blank nodes in a document with selective disclosure.
+var blankNodeTerm = regexp.MustCompile(`"(?:[^"\\]|\\.)*"|<urn:bnid:(_:c14n[0-9]+)>`)
+
+// restoreBlankNodes gives blank nodes the identifiers they have in the document that was signed, and the statements
+// the order they have in it.
+func restoreBlankNodes(canonical []byte) []byte {
+	if !bytes.Contains(canonical, []byte("<urn:bnid:_:c14n")) {
+		return canonical
+	}
+
+	rows := strings.SplitAfter(string(canonical), "\n")
+
+	for i, row := range rows {
+		rows[i] = blankNodeTerm.ReplaceAllStringFunc(row, func(term string) string {
+			if strings.HasPrefix(term, "<") {
+				return strings.TrimSuffix(strings.TrimPrefix(term, "<urn:bnid:"), ">")
+			}
+
+			return term
+		})
+	}
+
+	slices.Sort(rows)
+
+	return []byte(strings.Join(rows, ""))
 }
 
 // GetDigest returns the doc itself as we would process N-Quads statements as messages to be signed/verified.
-- 
2.43.0


From 1d2522aa5c68109e2a389eeaaa0541b0c787c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 70/74] fix: derived BBS+ proofs keep the domain and challenge
 of the signature

---
 verifiable/bbs_selective_disclosure.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 1c6b0c1..314d489 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -128,6 +128,13 @@ func generateSignatureProof(blsSignature map[string]interface{}, creator *BBSPro
 		"proofValue":         base64.StdEncoding.EncodeToString(signatureProofBytes),
 	}
 
+	// what the signature covers besides
+	for _, name := range [...]string{"domain", "challenge"} {
+		if value, ok := blsSignature[name]; ok {
+			derivedProof[name] = value
+		}
+	}
+
 	return derivedProof, nil
 }
 
-- 
2.43.0


From 2de365f2dbc67e044a2d07b0dbe9b754d6c0b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 71/74] fix: a statement that isn't part of the signed document
 can't be revealed

---
 verifiable/bbs_selective_disclosure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 314d489..980fd5b 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -245,7 +245,12 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	for i := range revealDocumentStatements {
 		statement := revealDocumentStatements[i]
-		statementInd := documentStatementsMap[statement]
+
+		statementInd, ok := documentStatementsMap[statement]
+		if !ok {
+			return nil, fmt.Errorf("statement to reveal is not part of the document: %s", statement)
+		}
+
 		revealIndexes[i] = statementInd
 	}
 
-- 
2.43.0


From 0a93bf49da11d1b3e28151aeaee94f3ea9ac7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 72/74] fix: statements added to a derived BBS+ credential are
 rejected

---
 crypto-ext/verifiers/bbs/verifier.go | 49 ++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 2ce92fa..5b2f10c 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -8,8 +8,10 @@ package bbs
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 
 	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
@@ -93,8 +95,51 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.VerifyProof(splitMessageIntoLines(string(msg), true),
-		bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	messages := splitMessageIntoLines(string(msg), true)
+
+	// the library checks only as many messages as the proof reveals
+	if err := checkRevealed(signature, len(messages)); err != nil {
+		return err
+	}
+
+	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// checkRevealed checks that a signature proof reveals as many messages as there are. A proof starts with the number
+// of messages that were signed, as two bytes, and flags (a big-endian number) that tell which of them it reveals.
+func checkRevealed(signatureProof []byte, messages int) error {
+	const (
+		countLen = 2
+		byteBits = 8
+	)
+
+	if len(signatureProof) < countLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	signed := int(binary.BigEndian.Uint16(signatureProof))
+	flagsLen := signed/byteBits + 1
+
+	if len(signatureProof) < countLen+flagsLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	flags := new(big.Int).SetBytes(signatureProof[countLen : countLen+flagsLen])
+
+	if flags.BitLen() > signed {
+		return errors.New("signature proof reveals statements that were not signed")
+	}
+
+	revealed := uint(0)
+	for i := range flags.BitLen() {
+		revealed += flags.Bit(i)
+	}
+
+	if revealed != uint(messages) {
+		return fmt.Errorf("signature proof reveals %d statements, document has %d", revealed, messages)
+	}
+
+	return nil
 }
 
 func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
-- 
2.43.0


From 40f93a61da814b8e6905b8bf88cff82d3d28c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 73/74] fix: malformed BBS+ proofs of others don't panic

---
 crypto-ext/verifiers/bbs/verifier.go   | 9 +++++++--
 verifiable/bbs_selective_disclosure.go | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 5b2f10c..9331a08 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -19,6 +19,7 @@ import (
 	"github.com/trustbloc/kms-go/spi/kms"
 
 	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
+	"github.com/trustbloc/vc-go/internal/failsafe"
 )
 
 // G2SignatureVerifier is a signature verifier that verifies a BBS+ Signature
@@ -60,7 +61,9 @@ func (sv *G2SignatureVerifier) Verify(signature, msg []byte, pubKeyValue *pubkey
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.Verify(splitMessageIntoLines(string(msg), false), signature, bytesKey.Bytes)
+	return failsafe.Run(func() error {
+		return bbs.Verify(splitMessageIntoLines(string(msg), false), signature, bytesKey.Bytes)
+	})
 }
 
 // NewBBSG2SignatureProofVerifier creates a new BBSG2SignatureProofVerifier.
@@ -102,7 +105,9 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return err
 	}
 
-	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	return failsafe.Run(func() error {
+		return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	})
 }
 
 // checkRevealed checks that a signature proof reveals as many messages as there are. A proof starts with the number
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 980fd5b..5405038 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -113,8 +113,10 @@ func generateSignatureProof(blsSignature map[string]interface{}, creator *BBSPro
 		return nil, fmt.Errorf("get public key and signature: %w", pErr)
 	}
 
-	signatureProofBytes, err := creator.ProofDerivation.DeriveProof(verData.blsMessages, signatureBytes,
-		nonce, pubKeyBytes, verData.revealIndexes)
+	signatureProofBytes, err := failsafe.Call(func() ([]byte, error) {
+		return creator.ProofDerivation.DeriveProof(verData.blsMessages, signatureBytes,
+			nonce, pubKeyBytes, verData.revealIndexes)
+	})
 	if err != nil {
 		return nil, fmt.Errorf("derive BBS+ proof: %w", err)
 	}
@@ -254,6 +256,8 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 		revealIndexes[i] = statementInd
 	}
 
+	slices.Sort(revealIndexes)
+
 	return &docVerificationData{
 		documentStatements:   documentStatements,
 		revealIndexes:        revealIndexes,
-- 
2.43.0


From 79cf19f54e560fb2aa9ef1e5e7dc1b2c15384659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:46 +0000
Subject: [PATCH 74/74] fix: limited disclosure with BBS+ reveals what fields
 select, and nothing else of the subject

---
 presexch/definition.go | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/presexch/definition.go b/presexch/definition.go
index a47b99f..f183885 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"reflect"
 	"slices"
 	"sort"
 	"strings"
@@ -1500,6 +1501,22 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
+	if subject, ok := limitedDoc[credentialSubject].(map[string]interface{}); ok {
+		// only what fields select of the subject is to be revealed, even if they select nothing of it
+		explicitPaths[credentialSubject] = true
+
+		var srcDoc map[string]interface{}
+		if err = json.Unmarshal(src, &srcDoc); err != nil {
+			return nil, err
+		}
+
+		limitedDoc[credentialSubject] = revealWhole(subject, srcDoc[credentialSubject])
+
+		if limitedCred, err = json.Marshal(limitedDoc); err != nil {
+			return nil, err
+		}
+	}
+
 	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
 	if err != nil {
 		return nil, err
@@ -1513,6 +1530,32 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
 }
 
+// revealWhole replaces those selected values of a subject that are whole with wildcards. A frame compares values it
+// has with those of a document otherwise, in which numbers and booleans differ, and of a list it compares only the
+// first one.
+func revealWhole(selected map[string]interface{}, src interface{}) map[string]interface{} {
+	srcObject, _ := src.(map[string]interface{}) // nolint:errcheck
+
+	res := make(map[string]interface{}, len(selected))
+
+	for key, value := range selected {
+		object, isObject := value.(map[string]interface{})
+
+		switch {
+		case key == "id" || key == "type" || strings.HasPrefix(key, "@"):
+			res[key] = value
+		case isObject:
+			res[key] = revealWhole(object, srcObject[key])
+		case reflect.DeepEqual(value, srcObject[key]):
+			res[key] = map[string]interface{}{}
+		default:
+			res[key] = value
+		}
+	}
+
+	return res
+}
+
 // splitLast finds the final occurrence of split in text, and returns (everything before, everything after).
 // If split is not found in text, then splitLast returns ("", text).
 func splitLast(text, split string) (string, string) {
-- 
2.43.0

