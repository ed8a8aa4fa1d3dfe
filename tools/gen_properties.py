import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

API="PKCS#11 calls (C_* function table)"
p("P01","Acknowledged token-object changes survive any crash",
 "On a token stored in the SQLite database, once a call that creates, generates, copies, modifies or destroys a token object has returned success, its effect is still there after any later crash, power loss or restart, until a later successful call changes it. Nothing acknowledged is lost or altered, and nothing successfully destroyed comes back.",
 ["histories","crash_points","fault_sequences"],"every history of object operations, every instant of a crash or power loss (un-synced writes lost, torn or reordered), every sequence of disk errors",
 "the tests never crash, never reopen a database after a power loss and never see a failing disk; they check objects in the same process run",
 ["src/storage/sqlite.rs","src/storage/format.rs","src/token.rs","src/fns/objmgmt.rs"],
 [("one committed SQL transaction per object operation","src/storage/sqlite.rs"),("storage errors propagated to the caller","src/token.rs")],[API,"database file after restart"])
p("P02","Token-object changes are all or nothing",
 "A call on a token object that fails, or is cut short by a crash or storage error, leaves each stored object either completely as it was or completely as the call would have made it, and leaves every other object untouched. After a call that reports failure, what the running library shows and what a restart shows are the same.",
 ["histories","crash_points","fault_sequences"],"every object operation with several attributes, every crash instant and every disk error inside it",
 "no test injects a disk error or a crash inside a multi-attribute write",
 ["src/storage/sqlite.rs","src/storage/format.rs","src/token.rs","src/fns/keymgmt.rs"],
 [("transaction with rollback on drop","src/storage/sqlite.rs"),("attributes checked before they are applied","src/object/factory.rs")],[API,"database file after restart"])
p("P03","NSS database: acknowledged objects survive, intact or not at all",
 "On a token stored in an NSS-style database, an object whose creation or modification returned success is readable with exactly those attribute values after any later crash, power loss or restart, and an interrupted or failed call leaves an object that is either absent or as before, or complete and usable.",
 ["histories","crash_points","fault_sequences"],"every history of object creations and modifications on NSS databases, every crash instant across the two database files, every disk error",
 "NSS tests only read pre-made databases or use them within one undisturbed run; the two-file commit is never interrupted",
 ["src/storage/nssdb/mod.rs","src/storage/nssdb/ci.rs"],
 [("one transaction over the attached cert and key databases","src/storage/nssdb/mod.rs")],[API,"database files after restart"])
p("P04","Wrong PINs never authenticate and lock the user out after ten tries",
 "Only the currently set PIN ever authenticates a user or security officer. After ten consecutive wrong PINs for one of them, however spread over sessions, threads, restarts, crashes and storage errors, that one is locked out and even the right PIN is refused (NSS databases keep no such count: a wrong PIN is merely refused there); a successful login, or confirmation of the PIN for a single use of a key, before that starts the count afresh. An attempt answered as a wrong PIN has been recorded durably; when it cannot be recorded the call fails with another error and authenticates nobody.",
 ["histories","schedules","crash_points","fault_sequences"],"every sequence of login attempts (right and wrong, by any thread), restarts, crashes and disk errors at any point of them",
 "tests try a few wrong PINs in one run; none restarts, crashes or fails the disk between or during attempts",
 ["src/storage/aci.rs","src/storage/format.rs","src/token.rs","src/fns/stmgmt.rs","src/fns/sessmgmt.rs"],
 [("failed-attempt counter stored with the user record","src/storage/aci.rs"),("counter written before the answer is returned","src/storage/format.rs")],[API,"database file after restart"],None,
 [("user record","attempt counter, limit, wrapped key","meta table of the token database")])
p("P05","A PIN change takes effect completely or not at all",
 "During and after a change of the user or SO PIN, whether it succeeds, fails or is interrupted by a crash, exactly one of the old and the new PIN works: the new one if the change returned success, and the old one if it failed. Every private object stored before remains readable with the PIN that works.",
 ["histories","crash_points","fault_sequences","schedules"],"every PIN change (C_SetPIN, C_InitPIN by user or SO), every crash instant and disk error inside it, concurrent users of the token",
 "tests change a PIN once without any fault",
 ["src/storage/format.rs","src/storage/aci.rs","src/token.rs","src/fns/stmgmt.rs"],
 [("wrapped token key re-wrapped under the new PIN in one row","src/storage/aci.rs")],[API,"database file after restart"])
p("P06","Token (re)initialization is all or nothing",
 "When C_InitToken is cut short by a crash or a storage error, the token afterwards is either the old one, with its old label, PINs and objects, or a freshly initialized one that accepts the new SO PIN and holds no objects; it is never left unusable, half-erased or with another SO PIN. After success only the new label and SO PIN are valid and no old object can ever be seen again.",
 ["crash_points","fault_sequences","histories"],"every (re)initialization of an empty or populated token, every crash instant and disk error inside it",
 "tests only initialize without faults",
 ["src/token.rs","src/storage/format.rs","src/storage/sqlite.rs","src/slot.rs"],
 [("database reset and re-creation of the SO record","src/storage/format.rs")],[API,"database file after restart"])
p("P07","Private objects are out of reach without a user login",
 "While no normal user is logged in, no session can find, read, copy, change, destroy or start to use a private token object, whatever handles it kept from before, even while the security officer is logged in. This holds under every interleaving of threads: a call that starts after a logout, or after the closing of the last session, completed never reaches a private token object; only an operation already started with the key may finish.",
 ["schedules","histories"],"every interleaving of logins, logouts, session openings and closings with object and key operations on other threads",
 "tests log in and out on one thread; stale handles and concurrent logout are not tried",
 ["src/token.rs","src/fns/objmgmt.rs","src/fns/signing.rs","src/fns/encryption.rs","src/storage/format.rs"],
 [("login check on every fetch of a private object","src/token.rs")],[API])
p("P08","Secrets and PINs never reach the disk in clear",
 "Once the token has PINs set, no sequence of calls, failures or crashes makes the value of a private or secret key, or a user or SO PIN, appear in clear in any byte the library writes to its database files or journals.",
 ["histories","fault_sequences","crash_points"],"every history of key creation, generation, derivation, unwrapping, copying, modification and PIN operations, with disk errors and crashes",
 "tests never look at the bytes written, let alone to journals after failures",
 ["src/storage/format.rs","src/storage/aci.rs","src/storage/nssdb/mod.rs","src/storage/nssdb/ci.rs"],
 [("encryption of sensitive attributes before storage","src/storage/format.rs"),("PIN-derived key wraps the token key","src/storage/aci.rs")],["every byte handed to the storage layer"])
p("P09","Sensitive and unextractable key values never leave the token",
 "For a key that is sensitive or not extractable, no history of attribute reads, copies, attribute changes, wrapping or restarts by any number of threads ever returns its value; a key that was once made sensitive or unextractable cannot be made readable again, itself or through a copy. The always-sensitive and never-extractable attributes never claim more than the key's real history.",
 ["histories","schedules"],"every history of create/generate/copy/set-attribute/wrap/read calls, across threads and restarts",
 "tests check single reads of single keys; histories of copies and changes are open-ended",
 ["src/object/factory.rs","src/object/key.rs","src/token.rs","src/fns/objmgmt.rs","src/fns/keymgmt.rs"],
 [("sensitive flag on value attributes","src/object/factory.rs"),("one-way attribute changes","src/object/factory.rs")],[API])
p("P10","An object handle means one object, for ever",
 "Within one initialization of the library, two calls that accept or return the same object handle always mean the same object, whatever threads create, find, copy and destroy meanwhile. A handle whose object was destroyed, or whose session was closed, is invalid from then on and is never given to another object.",
 ["schedules","histories"],"every interleaving and history of create, copy, generate, find, destroy, session close and logout",
 "tests destroy a handle or two on one thread",
 ["src/storage/mod.rs","src/token.rs","src/storage/format.rs","src/storage/nssdb/mod.rs"],
 [("monotonic handle counter and handle map","src/storage/mod.rs")],[API])
p("P11","Session objects live exactly as long as their session",
 "A session object exists from its successful creation until it is destroyed or its session is closed, and never reaches the disk; private session objects also end at logout. Closing one session, or failing operations in it, never removes or changes objects of another session or of the token.",
 ["schedules","histories"],"every history of sessions opened and closed and objects created in them, across threads",
 "tests close sessions only at the end",
 ["src/token.rs","src/slot.rs","src/fns/sessmgmt.rs"],
 [("session objects kept with their session handle and cleared at close/logout","src/token.rs")],[API])
p("P12","Login state is one state for all sessions of a token",
 "At any moment all sessions of a token agree on who is logged in, and the state each session reports is the one that PKCS#11 assigns to that login and to the session's read-only or read-write mode; the SO is never logged in while a read-only session exists. Logging out, or closing the last session, ends the login for all; session counts reported by the token equal the sessions open.",
 ["schedules","histories"],"every history and interleaving of open, close, close-all, login, logout calls on several sessions and threads, including failing ones",
 "tests use one or two sessions in a fixed order",
 ["src/slot.rs","src/session.rs","src/token.rs","src/fns/sessmgmt.rs","src/fns/stmgmt.rs"],
 [("session states changed together with the token login","src/slot.rs")],[API])
p("P13","Sessions cannot do what their mode does not permit",
 "A read-only session, or a session without the required login, never creates, changes or destroys a token object, never changes a PIN, and a security-officer or public session never creates or uses private token objects; the refused call changes nothing, in memory or on disk.",
 ["histories","schedules"],"every history of calls over sessions of all modes and all login states, with concurrent logins",
 "tests cover a few cells of the mode x operation matrix, always from a fresh state",
 ["src/token.rs","src/fns/objmgmt.rs","src/fns/keymgmt.rs","src/fns/stmgmt.rs"],
 [("writability check before every token-object change","src/fns/objmgmt.rs")],[API,"database file"])
p("P14","Concurrent calls never deadlock",
 "Whatever calls any number of threads make concurrently, on the same or different sessions and slots, every call returns once its storage answers; no interleaving leaves calls waiting for each other for ever.",
 ["schedules"],"every interleaving of every mix of calls on shared sessions, tokens and slots",
 "tests are serialised (one global test lock) and single-threaded per library instance",
 ["src/lib.rs","src/slot.rs","src/session.rs","src/token.rs","src/fns/mod.rs","src/fns/stmgmt.rs"],
 [("lock order of global state, token, session and handle locks","src/fns")],[API])
p("P15","Concurrent object operations behave as if done one at a time",
 "The results of object creations, copies, reads, modifications, searches and destructions, and of logins and logouts, made concurrently by several threads can always be explained by carrying out the calls one at a time, in an order that respects which call returned before another began.",
 ["schedules"],"every interleaving of every small history of concurrent calls on shared objects",
 "no test runs two threads against one token",
 ["src/token.rs","src/slot.rs","src/fns/objmgmt.rs","src/storage/format.rs"],
 [("token lock around each object operation","src/token.rs")],[API])
p("P16","Multi-part operations give the one-shot result however they are fed",
 "For digests, MACs, signatures, verification, encryption and decryption, the output of a multi-part operation depends only on key, parameters and the concatenated data, not on how it is cut into parts, on output-buffer queries in between, or on what other sessions and threads do meanwhile.",
 ["schedules","histories","inputs"],"every partition of the data into parts, every interleaving of several sessions' operations, every mix of buffer sizes",
 "tests use a few fixed partitions, one operation at a time",
 ["src/fns/encryption.rs","src/fns/signing.rs","src/fns/digest.rs","src/ossl/aes.rs","src/native/hmac.rs","src/session.rs"],
 [("per-session operation state","src/session.rs"),("partial-block buffering","src/ossl/aes.rs")],[API])
p("P17","A saved operation state restores exactly that state or is refused",
 "Restoring a state saved from a digest operation, in any session at any later point of the same library instance, continues exactly where it was saved and yields the same final digest. A truncated, altered or foreign state is refused, and a refused or failed call leaves the session usable.",
 ["histories","inputs","fault_sequences"],"every point of an operation at which it is saved, every session it is restored in, every corruption of the saved bytes",
 "tests save and restore once, uncorrupted",
 ["src/fns/sessmgmt.rs","src/session.rs","src/ossl/hash.rs"],
 [("encrypted and authenticated state blob","src/fns/sessmgmt.rs")],[API])
p("P18","Failing calls leave operations in the state the standard defines",
 "A call that only asks for the output length, or that fails for too small a buffer, leaves the active operation as it was, so that the call can be repeated and then gives the full result; any other failure of an operation ends it, and afterwards a new operation can be started in the session. No operation ever answers before it was initialised or after it ended.",
 ["histories","fault_sequences"],"every history of init/update/final/length-query/short-buffer/cancel calls over all operation kinds, with failures injected at any step",
 "tests exercise chosen sequences per mechanism",
 ["src/fns/encryption.rs","src/fns/signing.rs","src/fns/digest.rs","src/fns/dualcrypto.rs","src/session.rs"],
 [("operation slot per session and kind, removed when finalized","src/session.rs")],[API])
p("P19","Corrupted stored secrets are refused, never used",
 "If the stored form of a sensitive attribute in the native database, of an attribute that an NSS database signs, or of the token key in a user record is altered, truncated, or moved to another object or attribute while the library is down, reading or using the object or logging in fails with an error; the library never returns or uses a wrong value for it, never accepts a PIN it did not accept before, and other objects remain usable. (The values that NSS databases merely encrypt carry no integrity protection in that format and are not included; while nobody is logged in an NSS database holds no key to check its signatures with, so an altered attribute of a public object is noticed only after a login.)",
 ["fault_sequences","inputs"],"every bit flip, truncation and exchange of stored sensitive values between restarts or during a run",
 "no test corrupts a database",
 ["src/storage/aci.rs","src/storage/format.rs"],
 [("AES-GCM with the object's unique id as associated data","src/storage/aci.rs")],[API,"database file"])
p("P20","A search returns exactly the visible matching objects",
 "A search yields exactly the objects that the session may see and that match every attribute of the template at one moment between its start and its first results, each once, in chunks of any size, whatever objects other threads create or destroy meanwhile; sensitive values can not be searched for.",
 ["histories","schedules","inputs"],"every set of stored and session objects, every template, every chunking, concurrent changes, login state and restart",
 "tests search small fixed sets with fixed templates",
 ["src/fns/objmgmt.rs","src/token.rs","src/storage/sqlite.rs","src/storage/format.rs","src/session.rs"],
 [("SQL filter plus visibility filter","src/storage/sqlite.rs"),("per-session result cursor","src/session.rs")],[API])
p("P21","No call, history or fault aborts the host process",
 "No sequence of calls with valid memory arguments, from any number of threads, and no failing disk, corrupted database, or failing random source makes the library panic, abort, or fail to return; such conditions are reported as error codes, and later calls still get answers.",
 ["histories","schedules","fault_sequences","inputs"],"every history of calls with any argument values, every fault, every corrupted database content",
 "tests pass well-formed arguments and healthy storage",
 ["src/lib.rs","src/fns","src/storage","src/object"],
 [("error codes instead of panics","src/error.rs")],[API,"process exit"])
p("P22","Initialization and finalization are clean under concurrency and failure",
 "Exactly one of several concurrent initializations succeeds and the others report that it is already initialized; calls outside an initialized period report that the library is not initialized, whatever they race with. After finalization, or a failed initialization, the library can be initialized again, all earlier sessions and their objects are gone and no login survives.",
 ["schedules","histories","fault_sequences"],"every interleaving of initialize, finalize and other calls by several threads, with storage failing during initialization",
 "tests initialize once per process or in a fixed order",
 ["src/fns/general.rs","src/lib.rs","src/slot.rs"],
 [("global state lock and next-handle marker","src/lib.rs")],[API])
p("P23","One-time passwords are never issued twice",
 "For a counter-based one-time-password key, the counter used for an issued password is never used again for another issue and a password accepted once is not accepted again, whatever sessions, threads, restarts, crashes and storage errors intervene. The counter stored with the key never goes back.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of issues and verifications on several sessions, every crash or disk error around the counter update",
 "tests issue and verify passwords in one session on healthy storage",
 ["src/hotp.rs","src/fns/signing.rs","src/token.rs"],
 [("counter written back to the key object after use","src/fns/signing.rs")],[API,"database file after restart"])
p("P24","Generated IVs and nonces are never reused with a key",
 "No two ciphertexts the library produces under one key with an IV or nonce that it generated itself share that IV or nonce. Stored attributes and user records never reuse a salt (or object id) together with an IV, over all rewrites, PIN changes, restarts and crashes. In message-based encryption, random IVs never repeat under a key, and the counters of one operation yield distinct IVs for as long as the caller keeps generator and fixed bits, whether it passes the first or the previous IV in again; they leave the fixed bits alone and fail rather than wrap around.",
 ["histories","schedules","crash_points"],"every history of encryptions in which the library chooses the IV, every rewrite of stored objects, any thread",
 "tests look at one or two outputs",
 ["src/storage/aci.rs","src/ossl/aes.rs","src/encryption.rs","src/storage/nssdb/ci.rs"],
 [("random or counter IV generators","src/ossl/aes.rs")],[API,"bytes written to the database"])
p("P25","Random values are fresh, and a failing random source is reported",
 "Random data, generated keys, salts and object identifiers are drawn from the random source at each use: no two threads, sessions or calls ever receive repeated output. When the random source fails, the call fails and neither returns success nor leaves a key, salt, IV or PIN record made of constant or left-over bytes.",
 ["schedules","fault_sequences","histories"],"every set of threads, every point at which the random source fails",
 "tests never fail the random source or compare threads",
 ["src/rng.rs","src/ossl/drbg.rs","src/lib.rs","ossl/src/rand.rs","src/storage/aci.rs"],
 [("per-thread generator, errors propagated","src/lib.rs")],[API,"random source"])
p("P26","Always-authenticate keys need a fresh PIN for every use",
 "A private key that requires authentication for each use produces no signature and no decryption unless the user has authenticated anew for that very operation; one such authentication never serves two operations, another session, or an operation started earlier or later, and a failed one authorises nothing.",
 ["histories","schedules"],"every history and interleaving of operation starts, context-specific logins (right and wrong), cancellations and other sessions' operations",
 "tests try one operation with and without the login",
 ["src/session.rs","src/fns/stmgmt.rs","src/fns/sessmgmt.rs","src/fns/signing.rs","src/fns/encryption.rs"],
 [("per-operation authentication flag","src/session.rs")],[API])
p("P27","Slots are independent of one another",
 "What happens on one slot, whether logins, failures, initialization, object changes, closing of sessions or faults of its storage, never changes the sessions, login state, objects or PINs of another slot, and a session or object handle works only for its own slot.",
 ["histories","schedules","fault_sequences"],"every history and interleaving of calls on several slots, with storage faults on one of them",
 "tests use one slot",
 ["src/lib.rs","src/slot.rs","src/token.rs"],
 [("per-slot token and session tables","src/slot.rs")],[API])
p("P28","Keys do only what their attributes permit",
 "No call sequence makes a key sign, verify, encrypt, decrypt, wrap, unwrap or derive unless the attribute for that use is true at the time the operation is started and the mechanism is in its allowed list if it has one; attributes are judged on the object as last changed, by any thread or before a restart.",
 ["histories","schedules","configurations"],"every history of key creation, attribute changes and operation starts over all uses and mechanisms",
 "tests check single refusals on fresh keys",
 ["src/object/mod.rs","src/token.rs","src/fns/signing.rs","src/fns/encryption.rs","src/fns/keymgmt.rs","src/object/key.rs"],
 [("usage check at operation start","src/object/mod.rs")],[API])
p("P29","Fixed, uncopyable and undestroyable objects stay so",
 "An object marked not modifiable, not copyable or not destroyable is never changed, copied or destroyed by any history of calls while so marked, and read-only attributes such as class, key type, unique id and origin flags never change after creation. A refused change changes none of the attributes of the call.",
 ["histories","schedules"],"every history of attribute changes, copies and destructions on stored and session objects, across restarts and threads",
 "tests check a few refusals on fresh objects",
 ["src/object/factory.rs","src/object/mod.rs","src/token.rs","src/fns/objmgmt.rs"],
 [("attribute flags checked before applying a template","src/object/factory.rs")],[API])
p("P35","Objects kept once stay single and are replaced as a whole",
 "C_CreateObject never leaves two trust objects for one certificate (issuer and serial number) on a token. In a slot with objects_dedup, creating a token object of a configured kind with the identity of a stored one (issuer and serial number of certificates and trust objects, class, key type and id of keys) replaces that object: the same handle, every attribute of the new one, at once even across crashes and storage errors, and no other object is affected. Objects of other kinds, or other identities, are always created anew. An object that the caller may not access, or that is not modifiable, is never replaced, and creation is refused instead.",
 ["histories","crash points","faults","schedules","configurations"],"every history of creations, changes and destructions of objects with the same and with other identities, under each configuration of objects_dedup, crash and error",
 "tests create one object twice without fault, restart or other users",
 ["src/token.rs","src/storage/format.rs","src/storage/nssdb/mod.rs","src/config.rs"],
 [("check_dedup: search for a duplicate, then update","src/token.rs")],["C_CreateObject","objects_dedup"])
p("P30","Cryptographic results are the standard ones",
 "For every supported mechanism, the output for given key, parameters and data equals the published standard's.",
 ["inputs"],"every key, parameter set and message",
 "tests hold finitely many vectors",
 ["src/ossl","src/native","src/kdf"],[("OpenSSL provider calls","src/ossl")],[API])
p("P31","Configuration files are parsed faithfully",
 "Every configuration file yields exactly the slots and options it states or a clear error.",
 ["inputs","configurations"],"every configuration text","tests hold a few files",
 ["src/config.rs"],[("serde/toml deserialisation","src/config.rs")],["C_Initialize"])
p("P32","Wrapped keys unwrap to the same key",
 "Wrapping a key and unwrapping the result with the same wrapping key and mechanism yields a key with the same value for every key type and mechanism.",
 ["inputs"],"every key, wrapping key and mechanism","tests hold a few pairs",
 ["src/fns/keymgmt.rs","src/ossl/aes.rs","src/ossl/rsa.rs"],[("export/import for wrapping","src/object/key.rs")],[API])
p("P33","SoftHSM tokens migrate without loss",
 "Migrating a SoftHSM token directory yields a token with the same objects and attributes.",
 ["inputs"],"every source token","one sample token is migrated",
 ["tools/softhsm"],[("attribute conversion","tools/softhsm")],["migrated token"])
p("P34","FIPS and post-quantum builds enforce their approved-use rules",
 "In FIPS builds non-approved uses are flagged, and in post-quantum builds ML-KEM, ML-DSA and SLH-DSA keys follow their standards.",
 ["configurations","inputs"],"every mechanism and key in those builds","those builds need an OpenSSL that is not here",
 ["src/fips","src/ossl/mldsa.rs","src/ossl/mlkem.rs","src/ossl/slhdsa.rs"],[("indicators","src/fips")],[API])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
