TRUST = "Trusts go/types, x/tools/go/ssa and the path engine; calls into other modules are modelled as succeeding or failing arbitrarily. "

prop("C01", "The ingest journal on disk is always a complete journal",
 "At every moment, including after a crash at any point, the ingest journal file holds either the complete previous journal or the complete new one. It is replaced only by renaming onto it a fully written, synced and closed temporary file created beside it, and a journal operation that reports success has done so. No temporary journal file is left behind by an operation that returns.",
 ["crash_points", "fault_sequences"], "every instruction boundary of every journal operation, every failure of any file operation in it",
 "Unit tests run the success path and a few injected failures; they neither stop the process between two file operations nor fail each of them in turn.",
 ["cmd/ingest/journal/journal.go"], [("write temp, sync, close, rename", "cmd/ingest/journal/journal.go writeLocked")],
 "path-sensitive typestate over SSA (create-write-sync-close-rename protocol)",
 TRUST + "Decides the order of file operations on every path of every exported journal function, and that no other code of the ingest command writes the journal path. Assumes rename(2) is atomic.")

prop("C02", "Ingest progress is recorded only for phases that succeeded",
 "The ingest command records a batch of files as done only after exactly that batch was processed without error, and records the coalescing, tree-update and log-size phases as done only after those phases succeeded following the last processed batch. If any phase fails the run reports an error, and a run that reports success has recorded every batch it processed.",
 ["crash_points", "fault_sequences", "configurations"], "every path of the ingest driver under every job configuration and every combination of failing phases",
 "Tests drive the runner with a handful of stub configurations and mostly successful phases.",
 ["cmd/ingest/run.go", "cmd/ingest/main.go", "cmd/ingest/afterIngestion.go"], [("phase order in the runner", "cmd/ingest/run.go runIngest"), ("phase callbacks", "cmd/ingest/main.go")],
 "path-sensitive event-order analysis over SSA with value provenance of the committed batch and flags",
 TRUST + "Decides every path of the driver and of the callbacks installed by the program; the effect of each phase itself is covered by C03, C04 and C06.")

prop("C03", "Tree root is saved, and dirty marks cleared, only after what they depend on",
 "The root of the domain tree is stored only after every changed tree node was written without error, and it is the root of that tree. Dirty marks are cleared only after a successful tree update that follows every change of the data, and the tree is updated only after changed domains were coalesced. Tree nodes of the stored root are not deleted before the new root is stored.",
 ["crash_points", "fault_sequences"], "every path of every entry point that changes certificates, policies or the tree, every failing step",
 "Tests check the final state of successful updates; the property is about every intermediate crash point and failing step.",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/mapserver.go", "pkg/mapserver/trie/trie_tools.go", "pkg/mapserver/trie/trie_cache.go", "cmd/ingest/afterIngestion.go"],
 [("commit then save root", "pkg/mapserver/updater/updater.go UpdateSMT"), ("coalesce, update, clean", "pkg/mapserver/mapserver.go update")],
 "path-sensitive event-order analysis over SSA from every entry point",
 TRUST + "Decides the order of commit, root save, node deletion, coalescing, tree update and dirty cleanup on every path; one known finding (node deletion inside Commit) is listed.")

prop("C04", "A certificate or policy counts as present only once its domains are linked",
 "When a batch of certificates or policies is added, the rows that make them count as already present are written only after their domains were marked dirty and stored and the associations of the domains to them were written without error. The batch is reported as added only if all of these writes succeeded, so an interrupted batch that is retried ends up complete.",
 ["crash_points", "fault_sequences"], "every interruption point and failing write of every batch insertion",
 "Tests insert whole batches without interruption and compare the final tables.",
 ["pkg/mapserver/updater/updater.go"], [("write order of a batch", "pkg/mapserver/updater/updater.go insertCerts, insertPolicies")],
 "path-sensitive event-order analysis over SSA with value provenance of the written columns",
 TRUST + "Decides the batch functions of the updater; the CSV bulk loader of the ingest command relies on the journal (C01, C02) instead.")

prop("C05", "The recorded CT log position covers only certificates that were added",
 "The position up to which a CT log counts as processed advances only after a batch was fetched without error and added without error, and the stored position is only advanced to the target once the number of entries processed equals it. An error while fetching, reading or parsing entries reaches the consumer of the batches and is never turned into the end of the data.",
 ["crash_points", "fault_sequences"], "every path of the synchronisation step and of the fetchers, every failing step",
 "Tests use a mocked fetcher that succeeds; network and file failures at each point are not sampled.",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/logfetcher/httplogfetcher.go", "pkg/mapserver/logfetcher/locallogfetcher.go"],
 [("batch then state", "pkg/mapserver/updater/updater.go UpdateNextBatch"), ("result channel", "pkg/mapserver/logfetcher")],
 "path-sensitive event-order and error-flow analysis over SSA",
 TRUST + "Decides the order of fetch, insertion and state record, and that every fetch error is sent to the batch consumer.")

prop("C06", "No failed operation is reported as success",
 "When an operation of the database, the tree, the journal, the file system, a codec, or the signing layer fails inside the system, the function that called it never reports success on that path. It returns an error or a negative verdict, hands the error to whoever consumes it, or ends the process.",
 ["fault_sequences"], "every call site of a fallible operation and every path following its failure",
 "Tests inject few failures; there are hundreds of fallible call sites, each with several continuations.",
 ["pkg", "cmd"], [("error returns", "all shipped packages")],
 "path-sensitive error-flow analysis over SSA (every failing outcome must reach a report)",
 TRUST + "Per function, closures called directly included. Four call sites whose errors are deliberately not reported are exempted by name with a reason (analyzer/r_errors.go).")

prop("C07", "Database result sets are closed and broken iterations are noticed",
 "Every result set, prepared statement, dedicated connection or transaction obtained from the database is closed, committed, rolled back or handed to its new owner on every path, including all error paths. When iterating over a result set ends because of an error rather than its end, the operation fails instead of returning the part read so far.",
 ["fault_sequences"], "every path of every function that obtains such a resource, every failing step",
 "A leaked connection or a result set cut short needs a failing database in the middle of a read; the tests' database does not fail.",
 ["pkg/db/mysql"], [("queries", "pkg/db/mysql/certs.go, common.go, dirty.go, policies.go, mysql.go")],
 "path-sensitive typestate over SSA (obtain-iterate-check-close protocol)",
 TRUST + "Per obtaining call site; a resource stored in memory that outlives the function, returned or sent counts as handed over.")

prop("C08", "Files are closed and temporary files removed on every path",
 "Every file opened by the system is closed or handed to its new owner on every path, including all error paths, and closing an object that holds a file closes that file even if another step of closing fails. Temporary files created to bulk load the database or to replace the journal are removed, renamed or returned to the caller on every path of the function that creates them, and the last stage of the ingest pipeline removes every file it is handed.",
 ["fault_sequences"], "every path of every function that opens a file, every failing step",
 "The leaks happen on error paths after a failing read, write or load, which tests do not provoke.",
 ["pkg/util/io.go", "pkg/util/csv_files.go", "pkg/db/mysql", "pkg/mapserver/logfetcher", "cmd/ingest"], [("open and close", "pkg/util/io.go, pkg/util/csv_files.go"), ("temporary files", "pkg/db/mysql/mysql.go")],
 "path-sensitive typestate over SSA (open-close, create-remove protocol)",
 TRUST + "Per opening call site; goroutines that receive a file are followed.")

prop("C09", "Map server proofs are accepted only if they prove the claim",
 "A map server response is accepted as proof of presence only if the tree root recomputed from the domain's ID (the hash of its name), its value (the hash of exactly the certificate and policy IDs listed) and the audit path equals the root in the response. Absence is accepted only if an empty subtree, or a leaf of another key that is itself proven, lies on the domain's path, or if the tree is empty. The map server generates audit paths that hold, at each level, the sibling of the child that is followed.",
 ["inputs"], "every proof a server (honest or not) can send, every key and every tree shape",
 "Tests verify proofs generated by the same code; forged proofs, other leaves and wrong lengths are hardly sampled.",
 ["pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/prover/prover.go", "pkg/mapserver/responder/responder.go"],
 [("verifiers", "pkg/mapserver/trie/trie_merkle_proof.go VerifyInclusion, VerifyNonInclusion and their compressed forms"), ("client check", "pkg/mapserver/prover/prover.go"), ("audit path", "pkg/mapserver/trie/trie_merkle_proof.go merkleProof")],
 "path-sensitive symbolic fact analysis over SSA (what every accepting path has established)",
 TRUST + "Assumes the hash function is collision resistant. Facts are equalities, inequalities and successful checks over symbolic terms of the inputs; loops are summarised by the data dependence of their result.")

prop("C10", "Policy certificates are accepted only from capable, named signers",
 "The owner signature of a policy certificate or request is accepted only if the owner certificate may own, the certificate names it by the hash of its serialization without timestamps and issuer signature, and an RSA signature by its key over the serialization of the certificate without timestamps, issuer hash and signatures verifies. The issuer signature is accepted only if the issuer may issue, is named by its hash, and its signature over the whole certificate except that signature verifies. The issuer constraints accept only a certificate valid within the validity of its issuer and for the issuer's domain or a subdomain of it. The signing functions produce, on success, exactly the hash and signature that these verifications check, and refuse to sign over existing ones.",
 ["inputs"], "every certificate, request, signature and key a peer can present, every field of them",
 "Tests verify a few well-formed certificates and alter a handful of fields; which fields a signature covers cannot be settled by samples.",
 ["pkg/common/crypto/crypto.go", "pkg/common/policies.go", "pkg/common/policy_issuance.go", "pkg/common/embedded_policies.go"],
 [("verifiers", "pkg/common/crypto/crypto.go VerifyOwnerSignature, VerifyOwnerSignatureInPolicyCertificate, VerifyIssuerSignature, VerifyIssuerConstraints, VerifySignedBytes"), ("signers", "pkg/common/crypto/crypto.go SignAsOwner, SignPolicyCertificateAsIssuer, SignRequestAsIssuer, SignPolicyCertificateTimestamp")],
 "path-sensitive symbolic fact analysis over SSA with field-by-field tracking of what is serialized",
 TRUST + "Assumes RSA PKCS#1 v1.5 and SHA-256 are sound and that JSON serializes every field of the object (decided by C12).")

prop("C11", "Verifying or signing leaves the objects it is given unchanged",
 "Computing the hash of a policy certificate, verifying its signatures or constraints, and issuing from a request leave every field of the certificates and requests passed in as it was, on every path including failures. A signing function that signs in place sets the signature and the signer hash on success and changes nothing if it fails.",
 ["inputs", "fault_sequences"], "every path of every exported function of the policy signing layer, including every failing step",
 "Tests compare objects after successful calls; the fields removed temporarily are lost only on particular failure paths.",
 ["pkg/common/crypto/crypto.go"], [("temporary removal of fields", "pkg/common/crypto/crypto.go VerifyOwnerSignatureInPolicyCertificate, VerifyIssuerSignature, ComputeHashAsSigner"), ("in-place signing", "pkg/common/crypto/crypto.go SignAsOwner, SignPolicyCertificateAsIssuer")],
 "path-sensitive memory-effect analysis over SSA (every field at exit equals its value at entry)",
 TRUST + "Distinct arguments are taken not to alias; contents of slices are not written by any of these functions (they are only read by the library calls used).")

prop("C12", "Policy objects keep every field when compared, built or serialized",
 "Two policy objects compare as equal exactly if every field of them is equal, with times compared as instants, lists element by element, and the raw serialization ignored. Constructors and conversions store each argument in the field it names. Every serializable type is written under a type tag of its own that is read back as that type, every field of it is written under a name of its own, and the raw form kept with an object is a copy of what it was read from.",
 ["inputs"], "every field of every policy object type, every pair of objects",
 "Tests compare and serialize random objects that differ in all fields or in none; a forgotten or swapped field goes unnoticed.",
 ["pkg/common/policies.go", "pkg/common/policy_common.go", "pkg/common/policy_issuance.go", "pkg/common/embedded_policies.go", "pkg/common/json.go"],
 [("Equal methods", "pkg/common/*.go"), ("constructors", "pkg/common/*.go New*"), ("type tags", "pkg/common/json.go marshalJSON, unmarshalTypeObject"), ("raw form", "pkg/common/policy_common.go rawTemplate, pkg/common/json.go UnmarshalJSON")],
 "field-coverage analysis over types and SSA paths",
 TRUST + "encoding/json is trusted to write and read every exported, uniquely named field.")

prop("C13", "Every stored row carries the data of its own certificate or domain",
 "When certificates, domains, policies or their associations are stored, every row carries the attributes of one and the same element: its own identifier (the hash of its raw bytes), its parent (the next certificate of its own chain, none for a root), its own expiration, raw bytes and domain names, each in the column meant for it. When elements already present are left out of a batch, all slices of the batch keep the same elements in the same order. No new element of a batch is left out: loops over a batch visit all of it, batches held back are handed on at the end, and every bulk-load file is loaded into the table it was written for.",
 ["inputs", "histories"], "every batch of certificates and policies, every chain shape, every subset already present",
 "Tests insert batches in which nothing or everything is present already, with short chains and equal attributes, where mixed-up rows look the same.",
 ["pkg/mapserver/updater", "pkg/db/mysql/certs.go", "pkg/db/mysql/dirty.go", "pkg/db/mysql/policies.go", "pkg/util/certificate.go", "cmd/ingest"],
 [("batch compaction", "pkg/mapserver/updater/updater.go UpdateWithKeepExisting, runWhenFalse"), ("chains", "pkg/util/certificate.go UnfoldCert, UnfoldCerts"), ("CSV rows", "pkg/mapserver/updater/csv.go, pkg/db/mysql/certs.go"), ("pipeline stages", "pkg/mapserver/updater/*Worker.go, manager.go")],
 "backward value provenance over SSA, row-space agreement of parallel slices, loop completeness analysis",
 TRUST + "Provenance is followed through calls, closures, channels and struct fields by type; one known finding (a cache that skips a domain seen with another certificate) is listed. The contents of SQL statements are read as text; the database itself is trusted.")

prop("C14", "Shared state is accessed only while holding its mutex",
 "The root, caches and pending changes of the Merkle tree, the tree and signed head of the map responder, the jobs of the ingest journal, and the root of the policy log are read only while the mutex that guards them is held, and written only while it is held exclusively; a counter that is updated atomically is never accessed otherwise. Every mutex is released, in the mode in which it was acquired, on every path of the function that acquires it or of the function it hands it over to, is never acquired again by a holder, and mutexes are acquired in an order without cycles.",
 ["schedules"], "every interleaving of the callers of the exported functions and the goroutines they start, every path",
 "Races and deadlocks need an interleaving that the tests do not force; most tests use one goroutine and run without the race detector.",
 ["pkg/mapserver/trie", "cmd/ingest/journal/journal.go", "pkg/policylog/client/logclient.go", "pkg/pipeline/stall_resume.go", "pkg/pipeline/stage.go", "pkg/cache/presence_cache.go"],
 [("tree", "pkg/mapserver/trie/trie.go, trie_cache.go, trie_tools.go, trie_merkle_proof.go"), ("journal", "cmd/ingest/journal/journal.go"), ("policy log root", "pkg/policylog/client/logclient.go"), ("stalling of the pipeline", "pkg/pipeline/stall_resume.go")],
 "context-sensitive lock-set and lock-order analysis over SSA",
 TRUST + "Files excluded from the default build by build tags (tracing, debug) are not analysed. The lock-free double buffer of the presence cache follows a protocol of its own and is exempt.")

prop("C16", "An updated tree is complete, canonical, and readable after its commit",
 "After an update of the Merkle tree, every node reachable from the new root is recorded for writing (or was already stored) with the children that its hash covers, and none of them is marked for removal; only nodes that the update replaced are removed. Hashes cover the updated children, or the key, value and height of the only leaf of a subtree; each child is updated with exactly the keys and values of its side, and deleting a key moves a leaf that is left alone up, so that the tree does not depend on its history. A commit writes every recorded node. The root changes only if the update succeeded.",
 ["inputs", "histories"], "every path through the update of one node, in each of the positions a node can have; by induction every tree, every set of inserted, updated and deleted keys, every history of updates",
 "Tests insert and delete random keys; a node that is recomputed to the same hash, a shortcut deleted and inserted in one batch, or a leaf that moves across a batch boundary needs a particular combination of keys.",
 ["pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_cache.go", "pkg/mapserver/trie/trie_tools.go"],
 [("update of a node", "pkg/mapserver/trie/trie.go update and its helpers"), ("order of the keys", "pkg/mapserver/trie/trie.go maybeAddShortcutToKV, splitKeys"), ("commit", "pkg/mapserver/trie/trie_cache.go commitChangesToDB")],
 "path-sensitive symbolic memory and fact analysis over SSA, one node at a time with the replies of its children as induction hypothesis",
 TRUST + "Nodes of different subtrees are taken to have different hashes (they contain different keys), and the keys given to an update to be sorted and distinct. The serialization of a batch to bytes is trusted.")

prop("C17", "Every answer comes from one signed tree and is complete",
 "The map responder serves, at all times, one tree together with the signature over exactly its root: a reload installs the tree of the stored root and its signature in one step, or leaves both as they were. Every answer to a proof request takes tree, root and signature from one such step, and holds one entry for each part of the name, in order, with the entry of that very part: the IDs stored for it, the value and path that the tree returns for it, and the type of proof the tree reports. The tree reports a key as present exactly if the leaf on its path carries it. Each HTTP handler replies once: with the encoded result for the request it received, or with an error and nothing else.",
 ["inputs", "schedules", "fault_sequences"], "every request, every interleaving of requests with a reload, every failing step of a reload or of a request",
 "Tests ask for proofs while nothing is being reloaded, and for names whose parts are all present or absent alike.",
 ["pkg/mapserver/responder/responder.go", "pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/api.go", "pkg/mapserver/mapserver.go"],
 [("reload", "pkg/mapserver/responder/responder.go ReloadRootAndSignTreeHead"), ("answers", "pkg/mapserver/responder/responder.go GetProof"), ("presence", "pkg/mapserver/trie/trie_merkle_proof.go merkleProof"), ("HTTP handlers", "pkg/mapserver")],
 "path-sensitive symbolic simulation over SSA with critical-section tracking",
 TRUST + "The splitting of a name into its parts, the JSON encoder and the net/http server are trusted.")

prop("C15", "Concurrent workers are awaited and every request is answered once",
 "Where work is split among goroutines, each of them is counted before it starts, exactly those counted are started, each signals its end exactly once on every path and after its last write and last send, and the goroutines are awaited (by the function itself or by a goroutine started for it) before the function returns. What they write is used, and a channel they send on is closed, only after they were awaited; a channel they drain is closed before, and none of them leaves before it is closed; no channel is closed twice or used after it was closed. Goroutines running side by side write different variables or elements, or hold a common lock. The goroutine that serves update requests of the map server answers each request exactly once, and whoever sends a request takes exactly one answer.",
 ["schedules", "fault_sequences"], "every interleaving of the workers, every number of workers and items, every failing step of a worker",
 "Tests run with fast workers that do not fail; a missing wait, an early close or an unanswered request shows only when a worker is slow or fails at a particular point.",
 ["pkg/pipeline/stage.go", "pkg/db/mysql/dirty.go", "pkg/db/mysql/mysql.go", "pkg/util/channels.go", "pkg/mapserver/logfetcher/locallogfetcher.go", "pkg/mapserver/mapserver.go", "cmd/ingest/processor.go"],
 [("partitioned queries", "pkg/db/mysql/dirty.go, pkg/db/mysql/mysql.go"), ("channel aggregation", "pkg/pipeline/stage.go, pkg/util/channels.go, cmd/ingest/processor.go"), ("file readers and parsers", "pkg/mapserver/logfetcher/locallogfetcher.go"), ("update requests", "pkg/mapserver/mapserver.go")],
 "path-sensitive typestate analysis over SSA of wait groups, channels, shared variables and request/reply pairs",
 TRUST + "Covers wait groups of the function that starts the goroutines; wait groups that callbacks count, and goroutines joined through reply channels only, are not (the latter are covered for the tree by C16). Elements selected by an iteration's own value are taken to be distinct.")
