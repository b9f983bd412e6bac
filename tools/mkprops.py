#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     **({'state':state} if state else {}),
                     observe_at=observe,hook_needed=hook)))
DIR='protocol/directory/directory.go'; MT='merkletree/merkletree.go'; PAD='merkletree/pad.go'; NODE='merkletree/node.go'
PR='merkletree/proof.go'; STR='merkletree/str.go'; CC='protocol/client/consistencychecks.go'; AUD='protocol/auditor/auditor.go'
LOG='protocol/auditlog/auditlog.go'; MSG='protocol/message.go'; SB='application/serverbase.go'; SRV='application/server/server.go'
ENC='application/encoding.go'; POL='protocol/policy.go'; VRF='crypto/vrf/vrf.go'; UTIL='crypto/util.go'; CONF='application/config.go'

p('C01','Directory answers agree with the registration history',
 'For every history of registrations and epoch changes, each registration, lookup, past-epoch lookup and monitoring request is answered with exactly the status, key, kind of proof, promise, and list of signed roots that the history of accepted registrations implies: a name is unknown until it is registered, promised for the rest of that epoch, and permanently bound to its first key in every later epoch. Past-epoch and monitoring answers cover exactly the requested range of epochs, clipped to the current epoch, each with the state of that epoch. Malformed requests (an empty name or key, a reversed range, a range in the future) are refused and change nothing.',
 ['histories','inputs'],'all sequences of register/lookup/past lookup/monitor/STR-history/epoch-change requests, for all names, keys and epoch ranges',
 'The tests run a handful of fixed two- or three-step histories with one or two names; they never relate the answer of one request type to the whole history, nor cover many names, long histories, arbitrary byte strings or all range endpoints.',
 [DIR,PAD,MT],[('Register/KeyLookup/KeyLookupInEpoch/Monitor/GetSTRHistory',DIR),('snapshot per epoch',PAD),('prefix tree lookup and insertion',MT)],
 ['return value of each directory request'])
p('C02','Answers of an honest directory pass every client check',
 'Every answer an honest directory gives, delivered in memory or over the wire format, passes all verification of a client and an auditor that have followed that directory epoch by epoch: index proof, authentication path, commitment, root signature, hash chain and promise. No honest history ever makes the client or the auditor report a violation. After a verified answer the client knows exactly the key the directory holds for that name.',
 ['histories','inputs'],'all honest histories, names, keys, tree shapes and interleavings of requests with epoch changes; several clients',
 'Client-side consistency checks have no tests at all; the tree tests verify proofs for at most a few hundred fixed names and shallow trees.',
 [DIR,PR,CC,VRF,ENC],[('HandleResponse',CC),('AuthenticationPath.Verify',PR),('VRF Prove/Verify',VRF)],
 ['HandleResponse result','Audit result'])
p('C03','Each signed root commits to exactly the registered bindings',
 'The root hash in each signed root equals the root of the specified prefix tree over exactly the bindings registered before that epoch began: every leaf at the shortest prefix that separates it from the others, empty branches and leaves hashed with domain separation, nonce, index, level and commitment. Nothing else is in it, nothing is missing, and its value does not depend on the order of insertion. Proofs returned for any name, present or absent, have exactly the shape and sibling hashes that tree implies.',
 ['histories','inputs'],'all sets and insertion orders of bindings over many epochs, including indices sharing long prefixes',
 'The tests compare roots of hand-built trees with one to three leaves; they do not recompute the root of a large or deep tree independently, nor after incremental updates over many epochs.',
 [MT,NODE,PAD],[('insertNode',MT),('cached child hashes and recomputeHash',NODE),('signTreeRoot',PAD)],
 ['TreeHash of each STR','PrunedTree/Leaf of each proof'],
 'overlay file exporting the root hash of a bare tree, used only for crafted indices')
p('C04','No proof verifies for a binding the signed root does not contain',
 'Against one root hash, an authentication path can be verified for at most one key per name: no sequence of bytes in any field makes verification accept a value other than the one committed, inclusion of an unregistered name, or absence of a registered one. Verification that fails returns an error, and never depends on which of several proofs was verified before.',
 ['inputs'],'all authentication paths (arbitrary nonces, siblings, indices, levels, leaf kinds, salts, values, proofs) against all roots built by a correct or a malicious directory',
 'The tests flip a few fields of one honest proof; they never search for a different proof accepted under the same root (an empty node accepted as an inclusion proof and bytes shifted between hashed fields both went unnoticed).',
 [PR,UTIL,NODE],[('AuthenticationPath.Verify, ProofType',PR),('ProofNode.hash',PR),('Commit.Verify',UTIL)],
 ['Verify result','client HandleResponse result'])
p('C05','Published snapshots never change',
 'Once an epoch has been published, the answer about any name in that epoch (root, signature, policies, proof, key, salt, siblings) stays byte-for-byte the same for as long as that snapshot is kept, whatever is registered or published later. Bindings are append-only: a name present in one epoch is present with the same key and commitment in every later one. Requests that fail or only read never influence any later root.',
 ['histories'],'all histories of registrations, lookups and epoch changes after the observation',
 'The clone test modifies one small tree once; no test re-queries many past epochs after long further activity.',
 [MT,NODE,PAD],[('Clone',MT),('interiorNode/userLeafNode clone',NODE),('snapshots',PAD)],
 ['repeated past-epoch lookups and STR histories'])
p('C06','Signed roots form one gap-free, hash-linked, signed chain',
 'Every directory publishes roots with epochs 0, 1, 2 and so on without gaps or repeats, each carrying the previous epoch number and the hash of the previous signature and a valid signature, under the directory key, over epoch, previous epoch, root hash, previous hash and all policies. No field covered by the signature can be altered without verification failing. The same epoch is never signed with two different contents.',
 ['histories','inputs'],'all histories of updates, policy changes and cache sizes; all single- and multi-field alterations of any root',
 'Tests check two or three consecutive roots of one directory and alter none of the signed fields.',
 [STR,PAD,'protocol/str.go',POL],[('Serialize/SerializeInternal',STR),('signTreeRoot',PAD),('Policies.Serialize',POL),('VerifyHashChain',STR)],
 ['LatestSTR after each update','GetSTRHistory'])
p('C07','Bounded history: kept epochs are exact, evicted ones give a clean error',
 'For every configured history length, the directory keeps the latest snapshot and a contiguous run of the most recent ones, never more than the configured number (or two, if fewer are configured), and keeps running for any number of epochs. Requests about kept epochs are answered exactly; requests whose range starts before the oldest kept epoch get an error response, never a crash, a hang, or data of another epoch. The latest root, its number and the registered bindings are unaffected by eviction.',
 ['histories','configurations'],'all history lengths including 0 and 1, all numbers of epochs, all requests relative to the eviction boundary',
 'The only eviction test uses one cache size and few epochs, and does not query evicted epochs through the request handlers (the STR history crashed there).',
 [PAD,DIR],[('Update eviction of loadedEpochs/snapshots',PAD),('LookupInEpoch/GetSTR',PAD),('error mapping',DIR)],
 ['responses to past-epoch requests'])
p('C08','An auditor accepts only a linear, validly signed extension',
 'An auditor that starts from a pinned root accepts a batch of roots if and only if its first root equals the last verified one or extends it by exactly one epoch, and each further root extends its predecessor by one epoch with the right previous-root hash and a valid signature. Batches that fork, skip, repeat, reorder, roll back, truncate or tamper with roots, or are signed by another key, are rejected with an error. A rejected batch leaves the verified root and everything the auditor reports unchanged.',
 ['histories','inputs'],'all sequences of honest and adversarial batches, including equivocating directories that hold the signing key',
 'The tests try a few fixed ranges of one chain; no forked chains with valid signatures, no multi-step histories of accepted and rejected batches.',
 [AUD,LOG,STR],[('AuditDirectory, CheckSTRAgainstVerified, VerifySTRRange',AUD),('VerifyHashChain',STR),('Audit',LOG)],
 ['Audit/AuditDirectory result','VerifiedSTR'])
p('C09','The audit log returns exactly what it verified, per directory',
 'For each directory an auditor observes, a request for a range of epochs is answered with exactly the roots verified for that directory and range, in order, one per epoch; unknown directories, reversed ranges and ranges beyond the last verified epoch are refused. Histories of different directories never mix, a directory cannot be initialised twice, and rejected batches never become visible. The answer for an epoch never changes once given.',
 ['histories','inputs'],'all interleavings of initialisations, audits (accepted and rejected) and range requests over several directories',
 'The tests use one directory and a few ranges; they do not interleave rejected audits or several directories.',
 [LOG,'protocol/auditor/common.go'],[('InitHistory/GetObservedSTRs/insertRange',LOG),('ComputeDirectoryIdentity','protocol/auditor/common.go')],
 ['GetObservedSTRs'])
p('C10','A client detects equivocation and non-linear roots',
 'A client moves from its verified root only to the identical root or to a validly signed root of the next epoch that hash-links to it; any other root (a fork, an old or skipped epoch, a tampered or wrongly signed one) makes the request fail and is never adopted. Comparing with an auditor succeeds if and only if the auditor returned a validly signed, hash-linked range whose last root is consistent with the client\'s own view. A client that was shown one side of a fork never accepts, from directory or auditor, the other side.',
 ['histories','inputs'],'all sequences of honest, forked, replayed and altered answers from directory and auditor',
 'There are no client tests; equivocation detection is never exercised with two validly signed forks.',
 [CC,AUD],[('updateSTR/AuditDirectory',CC),('CheckEquivocation',CC),('compareWithVerified/verifySTRConsistency',AUD)],
 ['HandleResponse/CheckEquivocation result','VerifiedSTR'])
p('C11','A client accepts a key only if the directory provably bound it to that name',
 'A client accepts an answer only if its status fits the kind of proof, the index proof is valid for exactly the name asked about, the proof verifies under the signed root the answer carries, and the key is the one expected (if the client expects one) and the one in the verified leaf or promise. A key is remembered only from an accepted answer, is never replaced by a different or missing key on a later lookup that expects it, and a name the client knows to be registered is never accepted as unregistered. Every alteration of an answer that changes the name, the key or the kind of proof, or gives it a status that does not fit the proof, is rejected.',
 ['inputs','histories'],'all answers obtained from honest ones by mixing, replaying across names and epochs, altering any field, or built by a directory that holds the signing and index keys',
 'There are no client tests.',
 [CC,PR,MSG],[('verifyRegistration/verifyKeyLookup/verifyAuthPath',CC),('Bindings',CC),('GetKey',MSG)],
 ['HandleResponse result','Bindings'])
p('C12','Promises for pending registrations are binding and breaking one is detected',
 'Every successful registration returns a promise signed by the directory over the current root\'s signature, the name\'s private index and the key; lookups and duplicate registrations in the same epoch return the same promise, and the very next root includes exactly that binding, after which no promise is returned. A client rejects an answer that needs a promise but carries none, or one with another index, key or signature or for another root. A client that holds a promise reports it as broken if a later root lacks the binding or binds another key, or the directory replaces or withdraws the promise.',
 ['histories','inputs'],'all honest histories, and all answers of directories that drop, replace, re-sign or alter promises',
 'Directory tests check that a promise exists for one name; no test verifies its signature against altered roots, or a client facing a broken promise.',
 [DIR,CC,'protocol/tb.go'],[('NewTB, tbs cleared at Update',DIR),('verifyReturnedPromise/verifyFulfilledPromise',CC),('TemporaryBinding.Serialize','protocol/tb.go')],
 ['TB in responses','HandleResponse result'])
p('C13','A name gets at most one key, and a registration is all or nothing',
 'For any order and number of competing registrations of a name, within an epoch or across epochs, at most one succeeds and the first successful key stays bound to it; every other attempt is told that the name exists and changes nothing. A registration that fails for any internal reason, such as exhausted randomness, leaves no trace: no promise, no binding in any later root, no effect on other names, and the name can still be registered. No key is ever bound to a name without a registration that reported success.',
 ['histories','fault_sequences'],'all histories with duplicates and all points at which the source of randomness fails',
 'Two tests register one duplicate; no failure is ever injected into registration.',
 [DIR,MT,UTIL],[('Register: lookup, tbs, Set, then tbs',DIR),('Set',MT),('MakeRand/NewCommit',UTIL)],
 ['responses before and after failed registrations'])
p('C14','A concurrent server behaves like one atomic directory',
 'Requests served concurrently on any number of connections, together with epoch changes and policy reloads, have the same results as if each took effect atomically at one instant between its invocation and its response. In particular at most one of several concurrent registrations of a name succeeds, every answer is consistent with a single root, names never go back from registered to unregistered, and epochs never go backwards in real time. Every answer received verifies.',
 ['schedules','histories'],'all interleavings of client requests on several connections with epoch changes and reloads',
 'All server tests send requests one at a time.',
 [SB,SRV,DIR],[('RWMutex in acceptClient/EpochUpdate/HotReload',SB),('HandleRequests',SRV)],
 ['invocation and response of each request at the client'])
p('C15','No data races or deadlocks',
 'Under any concurrent mix of requests, epoch changes, policy reloads and shutdown, no two goroutines access the same memory without synchronisation when one of them writes, and no request or background task blocks forever. This holds for the server, for reads of one directory from many goroutines, and for verification and key operations on shared values. Requests that modify the directory are never handled at the same time as any other request, epoch change or reload.',
 ['schedules'],'all interleavings of requests of all types, epoch changes, reloads and shutdown',
 'Tests run without the race detector and without concurrent requests.',
 [SB,SRV,PAD,MT],[('lock choice per request type',SB),('EpochUpdate/HotReload locking',SB),('Run/ListenAndHandle startup',SRV)],
 ['race detector reports','handler entry and exit','progress'])
p('C16','Each address only serves the request types it permits',
 'A registration is accepted only on an address configured to allow registration; on every other address it is refused with an error and leaves the directory unchanged, while lookups, past lookups and monitoring are served on all addresses. A request of an unknown type, or one that lacks the name or key its type requires, is refused everywhere. Permissions of one address never affect another, however many addresses there are and in whatever order they are configured.',
 ['configurations','inputs'],'all sets and orders of addresses and permissions, all request types and encodings of them',
 'Tests cover two fixed addresses and registration only.',
 [SB,SRV],[('perms per address',SRV),('checkRequestType',SB),('HandleRequests type switch',SRV)],
 ['responses per address','directory state afterwards'])
p('C17','A server survives arbitrary bytes from clients',
 'For any bytes a client sends, split and timed in any way, the server keeps running, answers with a well-formed response or closes the connection, and treats anything that is not a well-formed permitted request as refused. No such input changes the directory or the answers other clients get. Slow, silent, aborted and oversized connections do not prevent other clients from being served.',
 ['inputs','fault_sequences'],'all byte strings and connection behaviours, alone and concurrently with honest clients',
 'Tests send a few malformed messages to the decoder; none drives a server with hostile connections.',
 [SB,ENC,SRV,DIR],[('acceptClient limits and deadline',SB),('UnmarshalRequest',ENC),('request validation',DIR)],
 ['responses to hostile and honest clients'])
p('C18','Clients, auditors and loaders survive arbitrary responses and files',
 'For any bytes received as a response or read as an initial root, decoding and checking them returns an error or a verified result and never crashes or hangs, and a failed check leaves the remembered keys, promises and verified root unusable for an attacker: nothing unverified is stored. Responses with missing, null, oversized or mistyped parts are reported as malformed or fail verification.',
 ['inputs'],'all byte strings as responses to each kind of request, and as initial-root and configuration files',
 'Tests decode a few malformed messages; verification of structurally broken responses is not exercised (many crashed the client).',
 [ENC,MSG,CC,AUD,CONF],[('UnmarshalResponse',ENC),('Response.Validate',MSG),('HandleResponse',CC),('LoadInitSTR',CONF)],
 ['result or panic of decode+check','client state afterwards'])
p('C19','Shutdown is graceful and complete',
 'When a server is shut down at any time, every request already received is answered correctly, no further connection is served, and shutdown returns in bounded time even with idle or slow clients. Afterwards no listener, socket file, connection or background task remains, no further root is published, and the same addresses can be used again at once. This holds for any number of addresses.',
 ['schedules','configurations'],'all moments of shutdown relative to connections, requests, epoch changes and reloads',
 'Tests shut down an idle server only.',
 [SB],[('acceptRequests stop/deadline/waitCloseConn',SB),('Shutdown',SB),('RunInBackground',SB)],
 ['responses around shutdown','goroutines, sockets and file descriptors afterwards'])
p('C20','Policy changes are published cleanly and never retroactively',
 'A changed epoch deadline first appears in the second root published after the change, and the last change before a root is published wins; roots already published, and the root in force when the change is made, keep the policies they were signed with. The version, hash algorithm and index key in the policies never change, and every root\'s policies are covered by its signature. A reload that fails for any reason (missing, unreadable or invalid configuration or keys) changes nothing and does not stop the server.',
 ['histories','configurations','fault_sequences'],'all interleavings of policy changes with registrations and updates; all invalid configurations at reload',
 'One test changes the deadline once; failing reloads are tested with an empty path only.',
 [DIR,PAD,SRV,POL],[('SetPolicies, pad.Update(ad)',DIR),('updateInternal order',PAD),('updatePolicies',SRV)],
 ['policies in each STR','server log and STRs after SIGUSR2'])
p('C21','The verifiable random function is correct, complete and unique',
 'For every key and message the private index equals the specified function of them (computed by an independent implementation), evaluation with and without proof agree, and the proof verifies under the corresponding public key. For a given public key and message no other index verifies: altering the message, key, index or proof in any way that changes the index makes verification return false. Verification never crashes, whatever the lengths and contents of its inputs, including points outside the prime-order group and non-canonical encodings.',
 ['inputs'],'all keys, messages, indices and proofs',
 'The tests check one random message and bit flips of one proof; the curve arithmetic has no tests.',
 [VRF,'crypto/internal/ed25519/edwards25519/edwards25519.go','crypto/internal/ed25519/extra25519/extra25519.go'],
 [('Compute/Prove/Verify',VRF),('group and scalar arithmetic','crypto/internal/ed25519/edwards25519/edwards25519.go'),('Elligator map','crypto/internal/ed25519/extra25519/extra25519.go')],
 ['outputs of Compute/Prove/Verify'],'overlay package exposing the internal curve arithmetic')
p('C22','Commitments and signatures bind and hide',
 'A commitment verifies for exactly the concatenation of the values it was made for and for nothing else, its salt is fresh for every commitment and comes from the system\'s randomness after hashing, and failing randomness is reported instead of used. Hashes equal the specified function of the concatenated inputs and never modify them. A signature verifies for exactly the signed message and the matching public key, for keys from any seed.',
 ['inputs','fault_sequences'],'all values, salts, messages, keys and failures of the random source',
 'The tests use one message and one commitment each.',
 [UTIL,'crypto/sign/sign.go'],[('Digest/MakeRand/NewCommit/Commit.Verify',UTIL),('Sign/Verify/Public','crypto/sign/sign.go')],
 ['outputs'])
p('C23','Answers reveal nothing about other users',
 'An answer about one name contains no other user\'s name, key, salt, or anything that changes with another user\'s key or salt other than hashes and commitments; proofs of absence carry neither the value nor the salt of the leaf they show. Names never appear in roots, proofs or the audit log, private keys never leave the server in any answer, file meant for others, or log. Logs of a running server contain no user\'s key or name from well-formed requests.',
 ['histories','inputs'],'all requests against directories with other users\' secret values, including pending registrations',
 'No test inspects an answer for what it must not contain.',
 [MT,DIR,PR,SB],[('Get suppresses value and salt',MT),('responses built from one name only',DIR),('logging',SB)],
 ['encoded responses and log files'])
p('C24','Wire encoding is lossless and signed encodings are unambiguous',
 'Encoding a request or response and decoding it gives back an equal message, for all byte values, lengths, epochs and unicode names, and a decoded answer verifies exactly when the original does. A request is never decoded as one of another kind, and an answer that lacks the parts of the expected kind is reported as malformed. Two different well-formed roots, promises or tree nodes never have the same signed or hashed encoding, and integer and bit conversions are exact for all values.',
 ['inputs'],'all requests, responses, roots and promises',
 'Tests decode three sample messages and convert one integer each.',
 [ENC,'application/client/encoding.go',STR,'protocol/tb.go','utils/utils.go','utils/utils.go'],
 [('Marshal/Unmarshal',ENC),('Serialize',STR),('ToBits/ToBytes/GetNthBit/ULongToBytes','utils/utils.go')],
 ['decoded messages'])
p('C25','Configuration, keys and roots survive on disk and are never overwritten',
 'A configuration, key or root that was saved and is loaded again, from any working directory, yields the same values, with file names resolved relative to the configuration file. Saving never overwrites or truncates an existing file, and the files private keys are saved to are readable only by their owner. A missing, truncated, oversized or syntactically invalid file is reported as an error, never as a wrong value or a crash.',
 ['inputs','configurations','fault_sequences'],'all configurations and key files, locations, pre-existing files and damaged contents',
 'Tests save and load one configuration per application in a temporary directory.',
 [CONF,'application/config_encoding.go','application/server/config.go','application/client/config.go','application/bots/config.go','utils/utils.go'],
 [('Load/Save','application/server/config.go'),('LoadInitSTR/SaveSTR/LoadSigningPubKey',CONF),('WriteFile/ResolvePath','utils/utils.go')],
 ['files and loaded values'])
p('C26','The registration bot forwards only the sender\'s own registrations',
 'The bot forwards a message to the directory if and only if it is a well-formed registration for the sender\'s own handle, in any letter case, followed by the service suffix; it forwards it unchanged, exactly once, so that a sender can register no other name. Everything else (another name, another request type, malformed or truncated bytes) is answered as malformed without contacting the directory. The directory\'s answer reaches the sender and nobody else, unchanged whatever its size, and a directory that is down, aborts or hangs up without answering is reported as an error, never as success.',
 ['inputs','fault_sequences'],'all sender handles, messages and directory behaviours',
 'Tests try three invalid messages and never forward one.',
 ['application/bots/twitterbot.go','application/bots/bot.go'],[('HandleRegistration','application/bots/twitterbot.go'),('SendRequestToCONIKS','application/bots/bot.go')],
 ['bytes arriving at a recording directory','returned string'])
p('C27','The key-value store is an ordered, atomic, crash-durable map',
 'The store behaves as a map from byte strings to byte strings with ordered iteration over any range, under any sequence of puts, deletes, batches and reopenings, and concurrently from many goroutines each operation is atomic. Once a write or batch has returned, it survives a crash of the process or the machine at any later point, and a batch is applied completely or not at all. Prefix ranges contain exactly the keys with that prefix.',
 ['histories','crash_points','schedules'],'all operation sequences, interleavings and crash points (loss of everything not flushed)',
 'The tests put and get one key; no crash, concurrency or range is tested.',
 ['storage/kv/leveldbkv/leveldbkv.go','storage/kv/range.go','storage/kv/kv.go'],[('Sync:true on every write','storage/kv/leveldbkv/leveldbkv.go'),('IncrementKey/BytesPrefix','storage/kv/range.go')],
 ['reads and iterations, before and after simulated crashes'])
p('C28','The command-line programs work end to end with a generated configuration',
 'A server initialised and started from its command line publishes its initial root, serves registrations and lookups on its configured addresses, changes epochs at the announced deadline and no sooner, reloads its policies on request and stops cleanly on interrupt. The interactive client reports the registered key, or that a name is unknown or taken, exactly as the directory holds it, and reports an error whenever a check fails. Initialisation never overwrites existing keys or configuration.',
 ['configurations','histories'],'all sessions of registrations and lookups over epoch changes, all locations of the configuration, forged answers',
 'The command-line programs have no tests (a server run from a generated configuration changed epochs continuously).',
 ['cli/coniksserver/internal/cmd/init.go','cli/coniksserver/internal/cmd/run.go','cli/coniksclient/internal/cmd/run.go',SRV,SB],
 [('init/run commands','cli/coniksserver/internal/cmd/run.go'),('register/keyLookup REPL','cli/coniksclient/internal/cmd/run.go'),('NewEpochTimer from policies',SRV)],
 ['files, process output, wire answers'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
