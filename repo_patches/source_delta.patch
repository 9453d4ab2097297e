From a4a9a2d3aafecdb319b7b850314e93609dedb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 01/29] fix: write the certificate and policy rows after their
 domain associations

A certificate (or policy) that is already present in the DB is skipped the next
time it is seen. Writing its row before the dirty marks, domains and domain
associations meant that an interruption in between lost the associations for
good. Write the row that makes it count as present last.
---
 pkg/mapserver/updater/updater.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..a9becad 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -595,12 +595,6 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
-	// Send hash, parent hash, expiration and payload to the certs table.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -628,6 +622,14 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
+	// Send hash, parent hash, expiration and payload to the certs table. This is done last: a
+	// certificate present in the table is skipped the next time it is seen, and its associations
+	// to the domains would never be written if the process was interrupted before they were.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
 	return nil
 }
 
@@ -662,13 +664,13 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		t := time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC) // TODO(juagargi) use real expirations.
 		expirations[i] = t
 	}
-	// Update policies:
-	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting policies: %w", err)
+	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
+		return fmt.Errorf("updating domain_policies: %w", err)
 	}
 
-	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
-		return fmt.Errorf("updating domain_certs: %w", err)
+	// Update policies, last (same reason as with the certificates in insertCerts).
+	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting policies: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 2becfe49655e5258b725156cb7c024fb3d1e74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 02/29] fix: report the errors of the local log fetcher to its
 consumer

Errors reading or parsing the files only reached the standard error (or crashed
the process, when parsing a row), and the consumer of the fetcher went on as if
all certificates had been delivered. Also do not ignore errors walking the
directory.
---
 pkg/mapserver/logfetcher/locallogfetcher.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..7aaf90a 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -351,7 +351,7 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			defer wg.Done()
 			for x := range recordsChan {
 				if err := parseFunction(x.fields, x.lineNo); err != nil {
-					panic(err)
+					p.errorCh <- err
 				}
 			}
 		}()
@@ -414,6 +414,8 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 		close(l.certWithChainChan)
 	}()
 
+	errorsFound := make(chan error, 1)
+
 	// Process the parsed content into the DB, and from DB into SMT:
 	go func() {
 		var currentSize int64 = 0
@@ -437,16 +439,20 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 			currentSize = 0
 			r = &result{}
 		}
-		close(l.chanResults)
 
 		// There is no more processing to do, close the errors channel and allow the
 		// error processor to finish.
 		close(l.errorCh)
+		// Let the consumer of the results know about the errors.
+		if err := <-errorsFound; err != nil {
+			l.chanResults <- &result{err: err}
+		}
+		close(l.chanResults)
 	}()
 
 	go func() {
 		// Print errors and return error if there was any error printed:
-		l.processErrorChannel()
+		errorsFound <- l.processErrorChannel()
 	}()
 }
 
@@ -507,6 +513,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 // listFiles recursively finds all .csv and .gz files located in the given folder (or any subfolder)
 func listFiles(dir string) (gzFiles, csvFiles []*CsvFileInfo, err error) {
 	err = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
 		if !d.IsDir() {
 			gzFile, err := getFileInfo(path, d.Name(), true)
 			if err != nil {
-- 
2.43.0


From d27a43334386097f114cf67e44ee5f946c5b2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 03/29] fix: do not lose the error obtaining the progress of a
 batch

---
 pkg/mapserver/updater/updater.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index a9becad..c9b16a2 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"sort"
 	"time"
@@ -177,15 +178,15 @@ func (u *MapUpdater) UpdateNextBatch(ctx context.Context) (int, error) {
 	logUrl, origIndex, currentIndex, maxIndex, realMaxIndex, progressErr := u.GetProgress(ctx)
 
 	if progressErr != nil {
-		err = fmt.Errorf("error printing progress information: %s", err)
+		err = fmt.Errorf("error printing progress information: %w", progressErr)
 	} else {
 		fmt.Printf("Batch with size %d (%d excluded) updated in %.2fs (%.2fs verifying, %.2fs inserting); log %s progress: (current %d [%.0f%%], target %d, real %d) at %s\n", n, excludedCerts, totalTime, verificationTime, insertionTime, logUrl, currentIndex, 100.0*(float64(currentIndex)-float64(origIndex))/(float64(maxIndex)-float64(origIndex)), maxIndex, realMaxIndex, getTime())
 	}
 	if u.lastState.Size == u.targetState.Size {
 		// Update the DB with all certs collected from this fetcher
-		err = u.Conn.UpdateLastCTlogServerState(ctx, fetcher.URL(),
+		err = errors.Join(err, u.Conn.UpdateLastCTlogServerState(ctx, fetcher.URL(),
 			int64(u.targetState.Size),
-			u.targetState.STH)
+			u.targetState.STH))
 	}
 
 	return n, err
-- 
2.43.0


From e901f5aa041f32b898e6fcb8a23291d8550c18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 04/29] fix: check the error marshaling the policy log
 configurations

---
 pkg/policylog/client/adminconfig.go      | 3 +++
 pkg/policylog/client/logconfig.go        | 3 +++
 pkg/policylog/server/logserver/config.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/policylog/client/adminconfig.go b/pkg/policylog/client/adminconfig.go
index ee5342b..92a0ba9 100644
--- a/pkg/policylog/client/adminconfig.go
+++ b/pkg/policylog/client/adminconfig.go
@@ -32,6 +32,9 @@ type AdminClientConfig struct {
 // SaveAdminClientConfigToFile: save admin client's config to file
 func SaveAdminClientConfigToFile(config *AdminClientConfig, configPath string) error {
 	bytes, err := json.Marshal(config)
+	if err != nil {
+		return fmt.Errorf("SaveAdminClientConfigToFile | Marshal | %w", err)
+	}
 	err = ioutil.WriteFile(configPath, bytes, 0644)
 	if err != nil {
 		return fmt.Errorf("SaveAdminClientConfigToFile | WriteFile | %w", err)
diff --git a/pkg/policylog/client/logconfig.go b/pkg/policylog/client/logconfig.go
index ec6ec72..f76b42a 100644
--- a/pkg/policylog/client/logconfig.go
+++ b/pkg/policylog/client/logconfig.go
@@ -25,6 +25,9 @@ type LogClientConfig struct {
 // SaveLogClientConfigToFile: save log client config to file
 func SaveLogClientConfigToFile(config *LogClientConfig, configPath string) error {
 	bytes, err := json.Marshal(config)
+	if err != nil {
+		return fmt.Errorf("SaveLogClientConfigToFile | Marshal | %w", err)
+	}
 	err = ioutil.WriteFile(configPath, bytes, 0644)
 	if err != nil {
 		return fmt.Errorf("SaveLogClientConfigToFile | WriteFile | %w", err)
diff --git a/pkg/policylog/server/logserver/config.go b/pkg/policylog/server/logserver/config.go
index 41db57f..0e696fa 100644
--- a/pkg/policylog/server/logserver/config.go
+++ b/pkg/policylog/server/logserver/config.go
@@ -43,6 +43,9 @@ type LogServerConfig struct {
 // SaveLogConfigToFile: Save log server config to file
 func SaveLogConfigToFile(config *LogServerConfig, configPath string) error {
 	bytes, err := json.Marshal(config)
+	if err != nil {
+		return fmt.Errorf("SaveLogConfigToFile | Marshal | %w", err)
+	}
 	err = ioutil.WriteFile(configPath, bytes, 0644)
 	if err != nil {
 		return fmt.Errorf("SaveLogConfigToFile | WriteFile | %w", err)
-- 
2.43.0


From 5610ba221fbc86681cebf66df386007f03ea0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 05/29] fix: close result sets and report iteration errors when
 reading from the database

---
 pkg/db/mysql/certs.go    | 4 ++++
 pkg/db/mysql/common.go   | 4 ++++
 pkg/db/mysql/dirty.go    | 4 ++++
 pkg/db/mysql/policies.go | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..ab1d08d 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -263,6 +263,7 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -273,6 +274,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..68a7ea8 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -26,6 +26,7 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -36,6 +37,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..79f89d4 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -98,6 +98,7 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 	if err != nil {
 		return nil, fmt.Errorf("error querying dirty domains: %w", err)
 	}
+	defer rows.Close()
 	domainIDs := make([]common.SHA256Output, 0)
 	for rows.Next() {
 		var domainId []byte
@@ -107,6 +108,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("error reading dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..1b9127d 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -152,6 +152,7 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -162,6 +163,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From 5cd087931f08f7066e5b0109c4315bf1135ddbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 06/29] fix: check the schema with a table it has and do not
 leak the result set

---
 pkg/db/mysql/init.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index c4dd379..ce8315b 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -94,9 +94,10 @@ func connect(config *db.Configuration) (*sql.DB, error) {
 }
 
 func checkSchema(c *sql.DB) error {
-	_, err := c.Query("SELECT COUNT(*) FROM nodes")
+	var count int64
+	err := c.QueryRow("SELECT COUNT(*) FROM tree").Scan(&count)
 	if err != nil {
-		return fmt.Errorf("table nodes: %w", err)
+		return fmt.Errorf("table tree: %w", err)
 	}
 	row := c.QueryRow("SHOW STATUS LIKE 'max_used_connections'")
 	var varName string
-- 
2.43.0


From 006516186bc057bc29706e90898f3e136c70204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 07/29] fix: close files on the error paths of their users

---
 cmd/ingest/journal/journal.go               | 1 +
 pkg/db/mysql/mysql.go                       | 1 +
 pkg/mapserver/logfetcher/locallogfetcher.go | 1 +
 pkg/util/io.go                              | 4 ++++
 4 files changed, 7 insertions(+)

diff --git a/cmd/ingest/journal/journal.go b/cmd/ingest/journal/journal.go
index a8498a7..fe70e39 100644
--- a/cmd/ingest/journal/journal.go
+++ b/cmd/ingest/journal/journal.go
@@ -413,6 +413,7 @@ func (j *Journal) read(f *os.File) error {
 // readAndClose reads the journal from disk and then closes the file handle.
 func (j *Journal) readAndClose(f *os.File) error {
 	if err := j.read(f); err != nil {
+		_ = closeFile(f)
 		return err
 	}
 	return closeFile(f)
diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..a95c331 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -569,6 +569,7 @@ func writeToCSV(
 	csv.Flush()
 
 	if err := w.Flush(); err != nil {
+		_ = f.Close()
 		return errFcn(err)
 	}
 	if err := f.Close(); err != nil {
diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index 7aaf90a..67dcebd 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -261,6 +261,7 @@ func (p *LocalLogFetcher) processFile(f util.CsvFile) {
 	}
 	// ingestWithCSV will send data to the cert with chain channel
 	if err := p.ingestWithCSV(r); err != nil {
+		_ = f.Close()
 		p.errorCh <- err
 		return
 	}
diff --git a/pkg/util/io.go b/pkg/util/io.go
index d2e4dba..cd91352 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -33,6 +33,7 @@ func (r *GzipReader) Read(buff []byte) (int, error) {
 
 func (r *GzipReader) Close() error {
 	if err := r.gzreader.Close(); err != nil {
+		_ = r.f.Close()
 		return err
 	}
 	return r.f.Close()
@@ -45,6 +46,7 @@ func NewGzipReader(filename string) (*GzipReader, error) {
 	}
 	z, err := gzip.NewReader(f)
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 	return &GzipReader{
@@ -60,6 +62,7 @@ func ReadAllGzippedFile(filename string) ([]byte, error) {
 	}
 	buff, err := ioutil.ReadAll(r)
 	if err != nil {
+		_ = r.Close()
 		return nil, err
 	}
 	return buff, r.Close()
@@ -72,6 +75,7 @@ func CertificateFromPEMFile(filename string) (*ctx509.Certificate, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	r := NewCertReader(f)
 	certs := make([]ctx509.Certificate, 1)
 	_, err = r.Read(certs)
-- 
2.43.0


From f9ccbba0b639549ba267a64671d047d4994acc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 08/29] fix: do not accept the leaf of a key as proof of the
 absence of that key

---
 pkg/mapserver/trie/trie_merkle_proof.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..44c418c 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -155,6 +155,11 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
 	}
+	// The leaf that proves the absence must be another one: the leaf of the key itself proves
+	// its presence.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !VerifyInclusion(root, ap, proofKey, value) {
@@ -205,6 +210,11 @@ func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value,
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
 	}
+	// The leaf that proves the absence must be another one: the leaf of the key itself proves
+	// its presence.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !s.VerifyInclusionC(bitmap, proofKey, value, ap, length) {
-- 
2.43.0


From 62327ce683fa1cb0c0dada9e921962b88014a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:11 +0000
Subject: [PATCH 09/29] fix: bind a proof to the domain and the IDs of its
 entry and check its length

---
 pkg/mapserver/prover/prover.go          | 21 +++++++++++++++++++++
 pkg/mapserver/trie/trie_merkle_proof.go |  7 +++++++
 2 files changed, 28 insertions(+)

diff --git a/pkg/mapserver/prover/prover.go b/pkg/mapserver/prover/prover.go
index 44902f7..7c4b785 100644
--- a/pkg/mapserver/prover/prover.go
+++ b/pkg/mapserver/prover/prover.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/netsec-ethz/fpki/pkg/common"
 	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
 	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
 )
@@ -12,7 +13,27 @@ import (
 // VerifyProofByDomain verifies the MapServerResponse (received from map server),
 // and returns the type of proof, and proofing result.
 func VerifyProofByDomain(response *mapCommon.MapServerResponse) (mapCommon.ProofType, bool, error) {
+	if response.DomainEntry == nil {
+		return 0, false, fmt.Errorf("the response has no domain entry")
+	}
+	// The entry must be that of the domain it names.
+	if common.SHA256Hash32Bytes([]byte(response.DomainEntry.DomainName)) !=
+		response.DomainEntry.DomainID {
+
+		return 0, false, fmt.Errorf("the domain ID %s is not that of domain %s",
+			hex.EncodeToString(response.DomainEntry.DomainID[:]),
+			response.DomainEntry.DomainName)
+	}
 	if response.PoI.ProofType == mapCommon.PoP {
+		// The value proved must be that of the IDs in the entry.
+		allIDs := append(common.BytesToIDs(response.DomainEntry.CertIDs),
+			common.BytesToIDs(response.DomainEntry.PolicyIDs)...)
+		if common.SHA256Hash32Bytes(common.SortIDsAndGlue(allIDs)) !=
+			response.DomainEntry.DomainValue {
+
+			return 0, false, fmt.Errorf("the certificate and policy IDs do not hash to value %s",
+				hex.EncodeToString(response.DomainEntry.DomainValue[:]))
+		}
 		if !bytes.Equal(response.DomainEntry.DomainValue[:], response.PoI.ProofValue) {
 			return 0, false, fmt.Errorf("different hash for value %s != %s",
 				hex.EncodeToString(response.DomainEntry.DomainID[:]),
diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 44c418c..5a0ae6b 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -129,6 +129,10 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if len(ap) > 8*len(key) {
+		// there is one bit of the key per element of the path
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -151,6 +155,9 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 		return true
 	}
 	// Check if an empty subtree is on the key path
+	if len(ap) > 8*len(key) {
+		return false
+	}
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
-- 
2.43.0


From d4a57b07a749d5bcae90c0690ff6a6354940a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 10/29] fix: restore the verified policy certificate also if it
 cannot be serialized

---
 pkg/common/crypto/crypto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..a67f072 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -136,11 +136,11 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
 	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
 	serializedStruct, err := common.ToJSON(c)
+	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
+		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -288,10 +288,10 @@ func VerifyIssuerSignature(
 	sig := childPolCert.IssuerSignature
 	childPolCert.IssuerSignature = nil
 	serializedStruct, err := common.ToJSON(childPolCert)
+	childPolCert.IssuerSignature = sig // restore previous signature
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
-- 
2.43.0


From 9e701d02c76360839b9cfa190132d6228753c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 11/29] fix: enforce the domain constraint of the issuer of a
 policy certificate

---
 pkg/common/crypto/crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index a67f072..e878385 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -238,14 +238,14 @@ func VerifyIssuerConstraints(
 
 	// check domain constraint
 	// TODO (cyrill): could also check with public suffix list
-	validDomainName := regexp.MustCompile("([^.]+\\.)*([^.]+\\.?)?")
+	validDomainName := regexp.MustCompile("^([^.]+\\.)*([^.]+\\.?)?$")
 	if !validDomainName.Match([]byte(childPolCert.DomainField)) {
 		return fmt.Errorf("Policy Certificate does not have a valid domain name: %s", childPolCert.DomainField)
 	}
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From 6670e27aa1bd34238aaa6c77b68ee2b8cbd31b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 12/29] fix: compare revocation timestamps as instants

---
 pkg/common/policies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index 4d64f0b..fb6c3f1 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -363,7 +363,7 @@ func NewPolicyCertificateRevocationFields(
 
 func (c PolicyCertificateRevocationFields) Equal(x PolicyCertificateRevocationFields) bool {
 	return c.PolicyCertificateBase.Equal(x.PolicyCertificateBase) &&
-		c.TimeStamp == x.TimeStamp &&
+		c.TimeStamp.Equal(x.TimeStamp) &&
 		bytes.Equal(c.OwnerSignature, x.OwnerSignature) &&
 		bytes.Equal(c.OwnerHash, x.OwnerHash)
 }
-- 
2.43.0


From 1d4fd9871886842f87a4d16ee0e6bf7f516273c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 13/29] fix: keep a copy of the raw JSON of a policy object,
 not the caller's buffer

---
 pkg/common/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 42d3e17..4b4a995 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -144,7 +145,8 @@ func (o *serializableObjectBase) UnmarshalJSON(data []byte) error {
 				// It is a PolicyPartBase like object. Check the Raw field (should always be true).
 				if raw := base.FieldByName("JSONField"); raw != (reflect.Value{}) {
 					// Set its value to the JSON data.
-					raw.Set(reflect.ValueOf(data))
+					// The caller may reuse the buffer: keep a copy.
+					raw.Set(reflect.ValueOf(bytes.Clone(data)))
 				} else {
 					// This should never happen, and the next line should ensure it:
 					_ = PolicyPartBase{}.JSONField
-- 
2.43.0


From d96cbe3e9c80304d833b6a0e4eb3e05c59739725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 14/29] fix: only a policy certificate that can own verifies an
 owner signature

---
 pkg/common/crypto/crypto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index e878385..c0c2d1c 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -114,6 +114,11 @@ func VerifyOwnerSignatureInPolicyCertificate(
 	c *common.PolicyCertificate,
 ) error {
 
+	// Only a certificate that can own can sign as owner.
+	if !ownerPolCert.CanOwn {
+		return fmt.Errorf("the owner certificate cannot sign as owner")
+	}
+
 	// Check owner identification.
 	ownerHash, err := ComputeHashAsSigner(ownerPolCert)
 	if err != nil {
-- 
2.43.0


From 0319667e9f838e823f64292dfe4095b124f81d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 15/29] fix: only a policy certificate that can issue verifies
 an issuer signature

---
 pkg/common/crypto/crypto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index c0c2d1c..eb38df3 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -271,6 +271,11 @@ func VerifyIssuerSignature(
 	childPolCert *common.PolicyCertificate,
 ) error {
 
+	// Only a certificate that can issue can sign as issuer.
+	if !issuerPolCert.CanIssue {
+		return fmt.Errorf("the issuer certificate cannot sign as issuer")
+	}
+
 	// Check owner identification.
 	issuerHash, err := ComputeHashAsSigner(issuerPolCert)
 	if err != nil {
-- 
2.43.0


From 164a0e5df10735663d3a86f53114b637a78a3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 16/29] fix: do not record a CT log size when the first entries
 of the log were not ingested

---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..144b180 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("the completed indices for ingest directory %q start at %d, "+
+			"the entries before it are missing", ingestDirBase, intervals[0].Start)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From ec48f76016095034639a428894d9c99972d4bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 17/29] fix: keep the expiration of each certificate when some
 of a batch are already present

---
 pkg/mapserver/updater/updater.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index c9b16a2..cb4b038 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -391,12 +391,14 @@ func UpdateWithKeepExisting(
 		certIDs[to] = certIDs[from]
 		domainNames[to] = domainNames[from]
 		parentCertIDs[to] = parentCertIDs[from]
+		certExpirations[to] = certExpirations[from]
 		payloads = append(payloads, certs[from].Raw)
 	})
 	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
 	certIDs = certIDs[:len(payloads)]
 	domainNames = domainNames[:len(payloads)]
 	parentCertIDs = parentCertIDs[:len(payloads)]
+	certExpirations = certExpirations[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
-- 
2.43.0


From e2fe219c9821b3be54bc2337b5fd64985f5498d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 18/29] fix: provide the expiration of the certificates of the
 chains when updating locally

---
 pkg/mapserver/updater/updater.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index cb4b038..ec59d26 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -200,7 +200,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -209,7 +208,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -221,6 +219,8 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	// One expiration per certificate, also for those of the chains.
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
-- 
2.43.0


From f58a76de42a34e07ad11ad11764e6e64259e15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 19/29] fix: check also the last full batch of certificates for
 existence

---
 pkg/db/mysql/certs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index ab1d08d..3ad5a37 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,7 +27,7 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
+	for i := 0; i <= len(ids)-batchSize; i += batchSize {
 		to := i + batchSize
 		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
 			return nil, err
-- 
2.43.0


From d7a0d3642bee7fb3350649d68ccb77f1dc236c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 20/29] fix: close and remove a CSV file that could not be
 written

---
 pkg/mapserver/updater/csv.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..b4cee7e 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -3,6 +3,7 @@ package updater
 import (
 	"encoding/base64"
 	"fmt"
+	"os"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -127,8 +128,17 @@ func writeCSV(filenameStorage []byte, prefix, suffix string, storage [][][]byte)
 
 	fd, err := noallocs.Open(filenameStorage, filename)
 	if err != nil {
+		os.Remove(filename)
 		return "", fmt.Errorf("opening temporary file %s: %w", filename, err)
 	}
+	// Do not leave the file open nor behind if it cannot be completely written.
+	written := false
+	defer func() {
+		if !written {
+			noallocs.Close(fd)
+			os.Remove(filename)
+		}
+	}()
 
 	for _, row := range storage {
 		i := 0
@@ -151,7 +161,9 @@ func writeCSV(filenameStorage []byte, prefix, suffix string, storage [][][]byte)
 		}
 	}
 
+	written = true
 	if err = noallocs.Close(fd); err != nil {
+		os.Remove(filename)
 		return "", fmt.Errorf("closing temporary file %s: %w", filename, err)
 	}
 
@@ -175,8 +187,17 @@ func writeCertCSV(
 
 	fd, err := noallocs.Open(filenameStorage, filename)
 	if err != nil {
+		os.Remove(filename)
 		return "", fmt.Errorf("opening temporary file %s: %w", filename, err)
 	}
+	// Do not leave the file open nor behind if it cannot be completely written.
+	written := false
+	defer func() {
+		if !written {
+			noallocs.Close(fd)
+			os.Remove(filename)
+		}
+	}()
 
 	for _, cert := range certs {
 		recordsForCert(row, cert)
@@ -195,7 +216,9 @@ func writeCertCSV(
 		}
 	}
 
+	written = true
 	if err = noallocs.Close(fd); err != nil {
+		os.Remove(filename)
 		return "", fmt.Errorf("closing temporary file %s: %w", filename, err)
 	}
 
-- 
2.43.0


From 8705cbc89073e54a7ac1f12535b91b1ab6b3c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 21/29] fix: quote the domain names in the CSV files loaded
 into the database

---
 pkg/db/mysql/mysql.go        |  2 +-
 pkg/mapserver/updater/csv.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index a95c331..a324a74 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -547,7 +547,7 @@ func loadDomainsTableWithCSV(
 	}
 
 	str := `LOAD DATA CONCURRENT INFILE ? IGNORE INTO TABLE domains ` +
-		`FIELDS TERMINATED BY ',' ENCLOSED BY '"' LINES TERMINATED BY '\n' ` +
+		`FIELDS TERMINATED BY ',' ENCLOSED BY '"' ESCAPED BY '' LINES TERMINATED BY '\n' ` +
 		`(@domain_id,domain_name) SET ` +
 		`domain_id = FROM_BASE64(@domain_id);`
 	return db.ExecContext(ctx, str, filepath)
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index b4cee7e..d3867fc 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"os"
+	"strings"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -271,7 +272,20 @@ func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = t.AppendFormat(*storage, time.DateTime)
 }
 
+// stringToStorage writes the string as a CSV field: the names come from the certificates, and can
+// contain the characters that delimit fields and lines.
 func stringToStorage(storage *[]byte, s string) {
 	*storage = (*storage)[:0]
-	*storage = append(*storage, []byte(s)...)
+	if !strings.ContainsAny(s, "\",\r\n") {
+		*storage = append(*storage, s...)
+		return
+	}
+	*storage = append(*storage, '"')
+	for i := 0; i < len(s); i++ {
+		if s[i] == '"' {
+			*storage = append(*storage, '"')
+		}
+		*storage = append(*storage, s[i])
+	}
+	*storage = append(*storage, '"')
 }
-- 
2.43.0


From 361ffc5429b7a3efd0746870ca8019721a32e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 22/29] fix: keep the nodes of the trie whose hash an update
 did not change

An update marks the nodes on its way as removed. A node that was written again with the
same hash was not recorded, so the next commit deleted it from the database although the
tree still referred to it.
---
 pkg/mapserver/trie/trie.go       | 24 ++++++++++++++----------
 pkg/mapserver/trie/trie_cache.go |  7 +++++++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..04fb633 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -605,17 +605,21 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 	return h
 }
 
-// storeNode stores a batch and deletes the old node from cache
+// storeNode stores a batch and deletes the old node from cache.
+// The node is part of the tree also when its hash did not change: it is recorded, and it is
+// not among the nodes to be removed.
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
-	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
+	var node, old Hash
+	copy(node[:], h)
+	copy(old[:], oldRoot)
+	// record node
+	s.db.updateUpdateNodes(node, batch)
+	s.db.deleteRemoveNode(node)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
+	if node != old {
 		s.deleteOldNode(oldRoot, height, false)
 	}
 }
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..91c6e15 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -199,3 +199,10 @@ func (db *CacheDB) addRemoveNode(node common.SHA256Output) {
 	db.removedNode[node] = []byte{0}
 	db.removeMux.Unlock()
 }
+
+// deleteRemoveNode: the node is part of the tree, do not remove it
+func (db *CacheDB) deleteRemoveNode(node common.SHA256Output) {
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
+}
-- 
2.43.0


From a5dac23f208b247f926d478f70ffe23f888c94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 23/29] fix: do not insert again the key of a shortcut that was
 just deleted

---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 04fb633..265a2df 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				return newKeys, newValues
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From 6cd0c7d54ce5796f7d791300e2c58b4a09f2e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 24/29] fix: hold the lock of the trie while its root and its
 cache are read or written

---
 pkg/mapserver/trie/trie.go              |  1 +
 pkg/mapserver/trie/trie_merkle_proof.go | 10 ++++------
 pkg/mapserver/trie/trie_tools.go        | 12 ++++++++++--
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 265a2df..5eb20dd 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -130,6 +130,7 @@ func (s *Trie) AtomicUpdate(ctx context.Context, keys, values [][]byte) ([]byte,
 	s.lock.Lock()
 	defer s.lock.Unlock()
 	s.atomicUpdate = true
+	defer func() { s.atomicUpdate = false }() // so that loadBatch doesn't return a copy to the readers
 	s.LoadDbCounter = 0
 	s.LoadCacheCounter = 0
 	ch := make(chan mResult, 1)
diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 5a0ae6b..6b772ca 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -19,7 +19,7 @@ import (
 // on the path of the non-included key, 3- (nil, nil) for a non-included key
 // with a DefaultLeaf on the path
 func (s *Trie) MerkleProof(ctx context.Context, key []byte) ([][]byte, bool, []byte, []byte, error) {
-	return s.MerkleProofR(ctx, key, s.Root)
+	return s.MerkleProofR(ctx, key, s.currentRoot())
 }
 
 // MerkleProofPast generates a Merkle proof of inclusion or non-inclusion
@@ -32,7 +32,6 @@ func (s *Trie) MerkleProofR(ctx context.Context, key, root []byte) ([][]byte, bo
 	auditPath := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	included, newKey, value, err := s.merkleProof(ctx, &auditPath, root, key, nil, s.TrieHeight, 0)
 	return auditPath, included, newKey, value, err
 }
@@ -44,14 +43,13 @@ func (s *Trie) MerkleProofCompressedR(ctx context.Context, key, root []byte) ([]
 
 // MerkleProofCompressed returns a compressed merkle proof
 func (s *Trie) MerkleProofCompressed(ctx context.Context, key []byte) ([]byte, [][]byte, int, bool, []byte, []byte, error) {
-	return s.merkleProofCompressed(ctx, key, s.Root)
+	return s.merkleProofCompressed(ctx, key, s.currentRoot())
 }
 
 func (s *Trie) merkleProofCompressed(ctx context.Context, key, root []byte) ([]byte, [][]byte, int, bool, []byte, []byte, error) {
 	mpFull := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	// create a regular merkle proof and then compress it
 	included, proofKey, proofVal, err := s.merkleProof(ctx, &mpFull, root, key, nil, s.TrieHeight, 0)
 	if err != nil {
@@ -188,7 +186,7 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 // VerifyInclusionC verifies that key/value is included in the trie with latest root
 func (s *Trie) VerifyInclusionC(bitmap, key, value []byte, ap [][]byte, length int) bool {
 	leafHash := s.hash(key, value, []byte{byte(s.TrieHeight - length)})
-	return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
+	return bytes.Equal(s.currentRoot(), s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
 }
 
 // verifyInclusionC returns the merkle root by hashing the merkle proof items
@@ -215,7 +213,7 @@ func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value,
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
-		return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
+		return bytes.Equal(s.currentRoot(), s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
 	}
 	// The leaf that proves the absence must be another one: the leaf of the key itself proves
 	// its presence.
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..a18b34c 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -18,7 +18,9 @@ func (s *Trie) LoadCache(ctx context.Context, root []byte) error {
 	if s.db.Store == nil {
 		return fmt.Errorf("DB not connected to trie")
 	}
-	s.db.liveCache = make(map[Hash][][]byte)
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.ResetLiveCache()
 	ch := make(chan error, 1)
 	s.loadCache(ctx, root, nil, 0, s.TrieHeight, ch)
 	s.Root = root
@@ -76,11 +78,17 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 	}
 }
 
+// currentRoot returns the root after the last update.
+func (s *Trie) currentRoot() []byte {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.Root
+}
+
 // Get fetches the value of a key by going down the current trie root.
 func (s *Trie) Get(ctx context.Context, key []byte) ([]byte, error) {
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false
 	return s.get(ctx, s.Root, key, nil, 0, s.TrieHeight)
 }
 
-- 
2.43.0


From 21d26a86133a04a97cc804aea74708b02d89c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 25/29] fix: read the root of the policy log while holding its
 lock

---
 pkg/policylog/client/logclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 94a6fe2..11dce9b 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -119,7 +119,10 @@ func (c *LogClient) UpdateTreeSize(ctx context.Context) error {
 		return fmt.Errorf("UpdateTreeSize | UpdateLogRoot: %w", err)
 	}
 
-	c.currentTreeSize = int64(c.logRoot.TreeSize)
+	c.logRootLock.Lock()
+	treeSize := c.logRoot.TreeSize
+	c.logRootLock.Unlock()
+	c.currentTreeSize = int64(treeSize)
 	return nil
 }
 
-- 
2.43.0


From 5c4f66efd224de0022ec5efd99a9a239ad16730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 26/29] fix: wait for both subtrees when loading the cache of
 the trie

---
 pkg/mapserver/trie/trie_tools.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index a18b34c..ab82974 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -66,15 +66,13 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 		rch := make(chan error, 1)
 		go s.loadCache(ctx, lnode, batch, 2*iBatch+1, height-1, lch)
 		go s.loadCache(ctx, rnode, batch, 2*iBatch+2, height-1, rch)
-		if err := <-lch; err != nil {
-			ch <- err
+		// wait for both, also on errors: they read from the db and write to the live cache
+		lErr, rErr := <-lch, <-rch
+		if lErr != nil {
+			ch <- lErr
 			return
 		}
-		if err := <-rch; err != nil {
-			ch <- err
-			return
-		}
-		ch <- nil
+		ch <- rErr
 	}
 }
 
-- 
2.43.0


From d9d61ac4263174ccc0add015c88ba5dda1a8bd07 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 27/29] fix: serve proofs with the signature of the tree they
 come from

---
 pkg/mapserver/responder/responder.go | 47 ++++++++++++++++------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..75effec 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -14,7 +15,10 @@ import (
 )
 
 type MapResponder struct {
-	conn           db.Conn
+	conn db.Conn
+
+	// mu guards the tree and its signature, which are always replaced together.
+	mu             sync.RWMutex
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -55,11 +59,19 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
+	// Sign the SMT root.
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
+	if err != nil {
+		return fmt.Errorf("SignStructRSASHA256 | %w", err)
+	}
+
+	// Use the new SMT and its signed head.
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.smt = smt
+	r.signedTreeHead = signature
 
-	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +83,17 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// All proofs must come from the same SMT, the one of the signed head.
+	r.mu.RLock()
+	smt := r.smt
+	signedTreeHead := r.signedTreeHead
+	r.mu.RUnlock()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -114,11 +132,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(signedTreeHead[:0:0], signedTreeHead...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +144,7 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
 }
-
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
-	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
-	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
-	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
-}
-- 
2.43.0


From d86b524afc29752070731685ff67578ff7736937 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 28/29] fix: answer every update request exactly once, after
 the reload

---
 pkg/mapserver/mapserver.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..d840c64 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -46,6 +46,7 @@ type MapServer struct {
 	apiStopServerChan chan struct{}
 	updateChan        chan context.Context
 	updateErrChan     chan error
+	updateStopped     chan struct{} // Closed when no more updates are served.
 }
 
 func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error) {
@@ -117,6 +118,7 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		apiStopServerChan: make(chan struct{}, 1),
 		updateChan:        make(chan context.Context),
 		updateErrChan:     make(chan error),
+		updateStopped:     make(chan struct{}),
 	}
 
 	// Start listening for update requests.
@@ -128,14 +130,16 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
+				err := s.pruneAndUpdate(c)
+				reloadErr := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
+				if err == nil {
+					err = reloadErr
 				}
+				// Exactly one answer per request.
+				s.updateErrChan <- err
 			case <-ctx.Done():
 				// Requested to exit.
-				close(s.updateChan)
+				close(s.updateStopped)
 				return
 			}
 		}
@@ -221,7 +225,11 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 // PruneAndUpdate triggers an update. If an ongoing update is still in process, it blocks.
 func (s *MapServer) PruneAndUpdate(ctx context.Context) error {
 	// Signal we want an update.
-	s.updateChan <- ctx
+	select {
+	case s.updateChan <- ctx:
+	case <-s.updateStopped:
+		return fmt.Errorf("the map server does not serve updates anymore")
+	}
 
 	// Wait for the answer (in form of an error).
 	err := <-s.updateErrChan
@@ -299,15 +307,14 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
 	err := s.prune(ctx)
 	if err != nil {
-		s.updateErrChan <- err
-		return
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From 48b9cf42e7e37e9ddf4aae6c2f7b8d0b708e0c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 29/29] fix: read the CSV rows before starting the parsers that
 wait for them

---
 pkg/mapserver/logfetcher/locallogfetcher.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index 67dcebd..b3adfb1 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -339,6 +339,12 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		return nil
 	}
 
+	// Read before spawning the parsers: they stay blocked until recordsChan is closed.
+	records, err := reader.ReadAll()
+	if err != nil {
+		return err
+	}
+
 	type lineAndFields struct {
 		lineNo int
 		fields []string
@@ -357,10 +363,6 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			}
 		}()
 	}
-	records, err := reader.ReadAll()
-	if err != nil {
-		return err
-	}
 	for lineNo, fields := range records {
 		if len(fields) == 0 { // there exist empty lines (e.g. at the end of the gz files)
 			continue
-- 
2.43.0

