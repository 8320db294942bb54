"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "At most one holder of a keyring's lock at any instant",
 "While one holder (a thread of one process, through one keyring handle) is between a successful lock and the matching unlock of a keyring file, no other thread and no other process on the same machine obtains that lock, and only the holder's final unlock gives it up: nested lock/unlock pairs of the same holder do not release it early. This holds for any number of processes, threads and handles on the file and for every interleaving of their steps, including while leftover locks of dead processes are being recovered.",
 ["schedules", "crash_points"],
 "Every interleaving of lock/unlock/nested keyring operations of 1-4 processes with 1-3 threads each, with handles shared or separate, with holders killed at any point before or during the contention.",
 "The test suite never opens a keyring, and no unit test controls the interleaving of two processes around link/unlink of the lock file.",
 ["pgp/db/gpg.py"],
 [("hard-link lock file with holder pid and node name", "pgp/db/gpg.py:Lock.acquire/release"),
  ("per-handle thread lock", "pgp/db/gpg.py:Lock._lock"),
  ("every keyring operation brackets file access with lock_db/unlock_db", "pgp/db/gpg.py:BaseResource.lock_db")],
 [("<keyring>.lock", "present while some holder has the lock; names its pid and node", "file beside the keyring")],
 ["Lock.acquire / Lock.release return", "system calls made while holding"])

prop("C02", "A crash at any point leaves the keyring whole: old or new state",
 "If the process is killed, or the machine loses power, at any point during opening, adding, updating or deleting a key, then reopening the keyring succeeds and shows exactly the keys from before the interrupted operation or exactly the keys from after it, each with byte-identical content. Operations that had already returned successfully are never undone and keys they did not name are never lost.",
 ["crash_points", "histories"],
 "Every system-call boundary (and torn write inside it) of every operation in generated histories of add/update/delete, for process crash (unflushed user-space buffers lost) and power loss (un-synced file data lost or torn), followed by recovery and continued use.",
 "No test kills a writer; a unit test sees only the final state of an undisturbed write.",
 ["pgp/db/gpg.py"],
 [("rewrite of the keyring file on add/update/delete", "pgp/db/gpg.py:Keyring.add_transferrable_key, update_transferrable_key, delete_transferrable_key"),
  ("offset table rebuilt when a keyring is opened", "pgp/db/gpg.py:Keyring._update_offset_table")],
 [("keyring file", "concatenated transferable keys", "filesystem")],
 ["a fresh process opening the keyring after the crash"])

prop("C03", "A keyring behaves as one atomic map from key to key material",
 "For any history of operations through any number of handles, threads and processes, a keyring behaves as if each add, update, delete, lookup and membership test took effect at one instant between call and return on a map from fingerprint to key: add refuses a fingerprint already present, update and delete refuse one that is absent, lookup (by fingerprint, long or short key id) returns the latest stored content of a key that really matches what was asked, and an operation on one key leaves every other key untouched. Keys whose short key ids collide remain distinct, and concurrent updates are never lost.",
 ["histories", "schedules", "inputs"],
 "Generated concurrent histories over 2-8 keys (RSA, DSA/ElGamal, public and secret, with short-id collisions) from 1-4 clients with own or shared handles, in every interleaving the scheduler draws; checked for linearizability against a map.",
 "The suite has no keyring test; histories over several handles and interleavings are unbounded.",
 ["pgp/db/gpg.py", "pgp/transferrable_keys.py"],
 [("offset table from key id to file position", "pgp/db/gpg.py:Keyring._offset_table"),
  ("read-modify-write under the lock", "pgp/db/gpg.py:Keyring.update_transferrable_key")],
 [("_offset_table", "cached position of each key in the file", "pgp/db/gpg.py:Keyring")],
 ["return values and exceptions of add/update/delete/get/keys/in", "final file contents"])

prop("C04", "Keyring locks are always recoverable, bounded and cleaned up",
 "A lock left behind by a process that died (at any point, however damaged the lock file) never blocks the keyring for good: once no live process holds the lock, the next acquirer obtains it within a bounded number of steps. A lock held by a live process is never broken and that process is never disturbed; an acquire with a timeout gives up no earlier than the timeout and soon after it, whatever the wall clock does; after an operation raises, its lock is free; and a process that exits normally leaves no lock or temporary file behind.",
 ["crash_points", "schedules", "fault_sequences"],
 "Crash of a holder or waiter at any system call, live holders of any duration, foreign-machine locks, truncated or empty lock files, wall-clock jumps, errors raised in the middle of an operation; then progress must occur within a step bound once faults stop.",
 "Stale locks need a process that died at the right point and a controlled process table; the tests have neither.",
 ["pgp/db/gpg.py"],
 [("lock file names the holder's pid and node, liveness probed with signal 0", "pgp/db/gpg.py:Lock.acquire"),
  ("timeout loop", "pgp/db/gpg.py:Lock.acquire(timeout)"),
  ("clean-up at exit", "pgp/db/gpg.py:_clean_up_locks")],
 [("<keyring>.lock / .#lk* files", "lock and its per-handle template", "directory of the keyring")],
 ["Lock.acquire return value and (simulated) time", "directory listing after exit", "signals sent to other processes"])

prop("C05", "Failing disk I/O is reported and never damages stored keys",
 "When any read, write, open, sync, link, rename or close on a keyring or key file fails (I/O error, disk full, too many open files) or transfers only part of the data, the operation either completes correctly or raises an error; one that returned has stored or returned exactly the right bytes. A keyring operation that raised leaves every previously stored key intact (the key it named in its old or new state) and the keyring usable afterwards. Besides the keyring operations this covers reading and writing key and message files: a read never returns part of a file, and a write that returned is complete.",
 ["fault_sequences", "histories"],
 "Every system call of generated operation histories x {EIO, ENOSPC, EMFILE, EACCES, EINTR-free short read, short write}, singly and in bursts.",
 "Unit tests run on a disk that never fails.",
 ["pgp/db/gpg.py", "pgp/shortcuts.py"],
 [("exception paths of keyring operations (try/finally around lock)", "pgp/db/gpg.py:Keyring"),
  ("file helpers", "pgp/shortcuts.py:write_key_file, read_key_file, read_message_file")],
 [], ["exceptions raised", "file contents after each operation", "a later operation without faults"])

prop("C06", "Stream parsing equals in-memory parsing; truncation is an error",
 "Parsing packets from a stream yields exactly the same packets as parsing the same bytes from memory, however the bytes arrive (reads of any size, stalls between them) and whichever length encoding each packet uses (old, new, partial bodies). Data that ends in the middle of a packet is reported as an error by both parsers, never returned as a shorter packet. Packets written back, whatever their size and header format, read as the same packets whatever follows them.",
 ["fault_sequences", "inputs"],
 "Packet sequences with every length encoding over a simulated transport that fragments reads arbitrarily and cuts the connection at any byte.",
 "Tests parse a few complete in-memory messages; fragmentation and cut points are unbounded.",
 ["pgp/packets/packets.py", "pgp/packets/parsers.py", "pgp/utils.py"],
 [("stream and memory header/length readers", "pgp/packets/packets.py:packet_from_packet_stream, packet_from_packet_data"),
  ("length decoding", "pgp/utils.py:new_packet_length*, old_packet_length*")],
 [], ["packets yielded by parse_binary_packet_stream / parse_binary_packet_data"])

prop("C07", "An integrity-protected message arrives exactly or not at all",
 "When an integrity-protected encrypted message crosses a faulty channel or disk (bits flipped, bytes dropped, inserted, swapped, duplicated, blocks replaced by those of another message, truncation at any point), decrypting it with the right key or passphrase yields exactly the message that was sent or raises an error; it never yields different or partial content. The same holds for every supported cipher, for public-key and passphrase recipients, with and without compression.",
 ["fault_sequences", "inputs"],
 "Generated messages x ciphers x recipients x compression, each sent through a channel applying 1-3 seeded corruption faults.",
 "The existing tests decrypt undamaged messages only.",
 ["pgp/message.py", "pgp/packets/packets.py", "pgp/utils.py"],
 [("SHA-1 modification detection code over prefix and plaintext", "pgp/message.py:SymmetricallyEncryptedMessageData.decrypt"),
  ("prefix repetition check", "pgp/message.py:SymmetricallyEncryptedMessageData.decrypt"),
  ("session key checksum", "pgp/packets/packets.py:PublicKeyEncryptedSessionKeyPacket")],
 [], ["result of get_message after the channel"])

prop("C08", "Corrupted ASCII armor is never accepted as different data",
 "Armoured data that was damaged or cut in transit within the guarantees of its 24-bit checksum (any burst of up to 24 bits that does not turn data into white space, any lost or duplicated line, any truncation) decodes to exactly the original payload and data type or raises an error; undamaged armour always decodes to the original, whatever line endings or surrounding blank lines the transport produced.",
 ["fault_sequences", "inputs"],
 "Payloads of any length and all block types through a text channel with seeded byte flips, line loss/duplication/swaps, truncation and line-ending rewriting.",
 "Tests read intact armoured fixtures only.",
 ["pgp/armor.py", "pgp/crc24.py"],
 [("CRC-24 over the decoded data", "pgp/armor.py:ASCIIArmor.from_ascii, pgp/crc24.py"),
  ("header/tail line match", "pgp/armor.py:ASCIIArmor.from_ascii")],
 [], ["ASCIIArmor.from_ascii, parse_ascii_packet_data, read_key, read_message"])

prop("C09", "Genuine signatures always verify and altered ones never do",
 "Whatever the random numbers drawn and the time of signing, a signature made by an unlocked secret key over a document, user ID or key verifies with the corresponding public key, also after both went through serialisation and parsing. If the document, the signed metadata, the signature values or the key changed in any bit between signing and verifying, verification raises; it never reports success.",
 ["inputs", "fault_sequences"],
 "RSA and DSA keys, all hash algorithms, generated documents, seeded nonces and clock values, and a channel corrupting signed document, signature packet or key packet.",
 "Some failures depend on the random value of the signature (e.g. leading zero octets, 1 in 256) and no unit test draws enough or controls the draw.",
 ["pgp/transferrable_keys.py", "pgp/signature.py", "pgp/utils.py"],
 [("hash of document plus signature trailer", "pgp/signature.py:BaseSignature.to_signable_data"),
  ("RSA/DSA primitives", "pgp/utils.py:sign_hash, verify_hash"),
  ("issuer, algorithm and left-16-bit checks", "pgp/transferrable_keys.py:BasePublicKey.verify")],
 [], ["key.verify(signature, item) result"])

prop("C10", "Every recipient can always read a message sent to them",
 "A message encrypted to any set of public keys (any mix of RSA and ElGamal) and/or passphrase decrypts, after serialisation and parsing, to exactly the original content for each of those recipients and for no other key or passphrase, whatever random numbers were drawn, for every supported cipher, compression, signature nesting, integrity-protected or not, and any content length including empty.",
 ["inputs", "configurations", "fault_sequences"],
 "Generated content x cipher x compression x recipient mix x RNG streams (uniform and adversarial: all-zero, all-one, repeating, leading-zero), sender and receivers as separate simulated nodes.",
 "Failures depend on random draws (leading zero octets of a ciphertext) and on recipient mixes the suite does not contain.",
 ["pgp/message.py", "pgp/packets/packets.py", "pgp/utils.py", "pgp/s2k.py"],
 [("session key packets", "pgp/message.py:PublicKeySessionKey, SymmetricSessionKey"),
  ("body encryption", "pgp/message.py:SymmetricallyEncryptedMessageData"),
  ("compression", "pgp/utils.py:get_compression_instance")],
 [], ["get_message at each recipient"])

prop("C11", "Secrets on the wire depend on fresh, sufficient randomness",
 "Each encryption draws its session key, prefix and salt, each public-key operation its padding or ephemeral exponent, and each DSA signature its nonce, freshly from the system random source with at least the strength the algorithm needs: no two operations ever share one, and neither the session key, the plaintext nor the secret exponent can be read off the output by someone who knows only public keys. If the random source fails, the operation raises and emits nothing.",
 ["histories", "fault_sequences"],
 "Histories of encryptions and signatures under simulated random sources (seeded, stuck-at, failing at the n-th draw), including concurrent senders; the observer sees only wire data and public keys.",
 "Tests only check that decryption works, which it does even with constant randomness.",
 ["pgp/message.py", "pgp/packets/packets.py", "pgp/utils.py"],
 [("Random.new().read for session key, prefix, salt", "pgp/message.py"),
  ("PKCS#1 padding / ElGamal ephemeral exponent", "pgp/packets/packets.py:PKCS115_ElGamal_Cipher"),
  ("DSA nonce", "pgp/utils.py:sign_hash")],
 [], ["draws from the random source", "serialised output"])

prop("C12", "Secret keys are usable only between unlock and lock, in every outcome",
 "A secret key and all its subkeys hold usable secret values only after unlocking with the right passphrase and until the matching lock, and leaving an `unlocked` block locks them again however the block ends. A failed unlock (wrong passphrase or damaged key data, in the primary or any subkey) raises and leaves everything locked; a locked key refuses to sign or decrypt, and no exported public key, serialised packet or representation ever contains secret values.",
 ["histories", "fault_sequences"],
 "Generated sequences of unlock/lock/sign/decrypt/export with right and wrong passphrases, damaged encrypted portions per subkey, failures injected inside the block, and threads interleaving on separate keys.",
 "Tests unlock with the right passphrase once and never examine the failure paths.",
 ["pgp/transferrable_keys.py", "pgp/context_managers.py", "pgp/packets/packets.py"],
 [("lock flag and clearing of secret values", "pgp/transferrable_keys.py:BaseSecretKey.unlock/lock"),
  ("recursion into subkeys", "pgp/transferrable_keys.py:TransferableSecretKey.unlock/lock"),
  ("context manager", "pgp/context_managers.py")],
 [], ["is_locked, sign/decrypt refusal, attributes, serialised forms"])

prop("C13", "The keyserver client yields exact answers or errors over any network",
 "Against a keyserver that may delay, truncate, duplicate or corrupt responses, return error statuses or someone else's key, a fetch returns a key that matches the requested key id and is exactly what an honest server stored, or raises; a search returns exactly the entries of a well-formed index (including an empty one), or raises, and a response cut short where HTTP's framing or the index's own count shows it always raises; a submit that returns means the server received exactly the key's bytes, and an error status is always reported. One request's outcome never affects the next.",
 ["fault_sequences", "histories"],
 "Histories of submit/get/search by several clients against a simulated HKP server over a faulty network (drop, delay, truncate, corrupt, duplicate, error status, wrong key).",
 "There are no keyserver tests at all; network behaviour cannot be sampled by unit tests.",
 ["pgp/keyserver/hkp.py", "pgp/shortcuts.py", "pgp/armor.py"],
 [("HTTP status check", "pgp/keyserver/hkp.py:raise_for_status calls"),
  ("armor checksum", "pgp/armor.py"),
  ("machine-readable index parser", "pgp/keyserver/hkp.py:_read_mr, HKPResult")],
 [], ["return values of get/search/submit", "state of the simulated server"])

prop("C14", "The gpg-agent client returns the exact passphrase or an error, always",
 "However the agent's replies are fragmented, delayed or cut off and however the agent reorders status lines, comments and data lines as its protocol allows, asking for a passphrase returns exactly the passphrase the agent sent (any characters, any length) or raises; it never hangs on a closed connection, never returns a partial passphrase, and its requests reach the agent whole. The connection is closed in every outcome, and the client can be used again afterwards.",
 ["fault_sequences", "schedules"],
 "Simulated Assuan agent and client tasks over a stream socket with 1-byte to large segments, partial sends, disconnects at any byte, ERR replies, status/comment lines, long D lines split in several.",
 "No test talks to an agent; partial sends and disconnects need a controlled socket.",
 ["pgp/pinentry/gpg_agent.py"],
 [("line reader", "pgp/pinentry/gpg_agent.py:GPGAgentPinentry.get_response"),
  ("request formatting and percent-encoding", "pgp/pinentry/gpg_agent.py:get_passphrase")],
 [("_sock", "current agent connection", "pgp/pinentry/gpg_agent.py")],
 ["return value/exception", "bytes received by the agent", "socket state"])

prop("C15", "The terminal pinentry caches and confirms passphrases exactly",
 "Over any history of prompts, the terminal pinentry returns the passphrase the user entered last in a round whose every confirmation matched, asks again otherwise, and stores it only under its own cache id when caching is enabled; a later cached request returns that passphrase without asking until that id is cleared, no request ever returns a passphrase entered for another id, and when asking is forbidden it never prompts. Interrupting a prompt stores nothing.",
 ["histories", "fault_sequences"],
 "Generated histories of get/clear with all options against a scripted user who mistypes, changes mind, interrupts (EOF, Ctrl-C) at any prompt, checked against a reference model.",
 "No test exercises pinentry; interaction histories are unbounded.",
 ["pgp/pinentry/getpass.py"],
 [("cache dictionary", "pgp/pinentry/getpass.py:_cache"), ("confirmation loop", "pgp/pinentry/getpass.py:get_passphrase")],
 [("_cache", "passphrases by cache id", "pgp/pinentry/getpass.py")],
 ["returned passphrase, prompts made, exceptions"])

prop("C16", "Key identity and timestamps survive any clock and time zone",
 "A key's fingerprint, key id and serialised bytes, and the creation and expiry instants of keys, signatures and messages, depend only on the stored data: parsing and re-serialising at any wall-clock time, in any time zone, across daylight-saving changes and clock jumps gives the same bytes and key ids. Whether a signature or key has expired follows the current clock monotonically: not expired before the expiry instant, expired after it.",
 ["configurations", "inputs", "schedules"],
 "Simulated clock and time zone (with DST folds and gaps, jumps between parse, serialise and query) x generated keys, signatures and messages with arbitrary timestamps.",
 "Tests run in one time zone at one moment; folds occur one hour per year.",
 ["pgp/transferrable_keys.py", "pgp/signature.py", "pgp/message.py", "pgp/packets/packets.py"],
 [("timestamp conversion", "pgp/transferrable_keys.py:_init_args_from_packet/_to_packet_args"),
  ("expiry tests", "pgp/signature.py:expired"), ("fingerprint over public packet", "pgp/utils.py:key_packet_fingerprint")],
 [], ["fingerprint, key_id, to_packets bytes, expired"])

prop("C17", "A multi-keyring database routes and searches exactly",
 "A database over several keyrings stores a public key only in the first public keyring and a secret key only in the first secret keyring, in registration and priority order, and never writes a read-only keyring. A search by fingerprint, key id or user id returns exactly the stored keys that match all given criteria, for any history of changes made through it or by other processes, and never fails because a key appears or disappears while it runs.",
 ["histories", "schedules"],
 "Generated histories on 1-4 keyrings (public/secret, primary, read-only) with concurrent changes by other simulated processes, compared with a reference model.",
 "No database tests exist; routing and search depend on history and interleaving.",
 ["pgp/db/gpg.py"],
 [("resource registration and priority", "pgp/db/gpg.py:GPGDatabase.add_resource/register_resource"),
  ("routing by key type", "pgp/db/gpg.py:GPGDatabase.add_key/update_key/delete_key"),
  ("search", "pgp/db/gpg.py:GPGDatabase.search")],
 [("_resources", "ordered keyrings", "pgp/db/gpg.py:GPGDatabase")],
 ["keyring contents and search results"])

prop("C18", "Concurrent use of independent objects never interferes",
 "Threads that encrypt, decrypt, sign, verify, armour, parse or look up keys concurrently, each with its own objects or sharing only unmodified keys and messages, obtain exactly the results they would obtain running alone; a passphrase, session key or plaintext of one never appears in the result of another, and a failure in one never affects the others.",
 ["schedules"],
 "2-4 simulated threads of mixed operations, pre-empted between any two statements of the library by the seeded scheduler, compared with a sequential run of the same operations.",
 "Tests are single-threaded.",
 ["pgp/cipher/base.py", "pgp/message.py", "pgp/signature.py", "pgp/transferrable_keys.py", "pgp/utils.py"],
 [("per-instance cipher and hash state", "pgp/cipher/base.py, pgp/utils.py"), ("no module-level mutable state", "pgp/")],
 [], ["results of each thread"])

prop("C20", "Packets and subpackets round-trip through parse and serialise",
 "Every well-formed packet and signature or user-attribute subpacket parses to a value that serialises back to an equivalent packet, in old and new header formats.",
 ["inputs"], "All well-formed packets.", "Input space is unbounded; tests sample fixtures.",
 ["pgp/packets/packets.py", "pgp/packets/signature_subpackets.py"],
 [("from_packet_content/content pairs", "pgp/packets/packets.py")])
prop("C21", "Symmetric ciphers and modes invert and match their standards",
 "Every supported cipher in every mode decrypts what it encrypted, for any key, IV and length split, and matches the published test vectors.",
 ["inputs"], "All keys, IVs, data.", "Only vectors are tested.",
 ["pgp/cipher/base.py", "pgp/cipher/aidea.py"], [("block cipher modes", "pgp/cipher/base.py")])
prop("C22", "String-to-key conversion matches RFC 4880",
 "Each string-to-key specifier derives the key RFC 4880 defines for every passphrase, salt, count and hash.",
 ["inputs"], "All passphrases, salts, counts.", "Pure function over an unbounded domain.",
 ["pgp/s2k.py"], [("S2K classes", "pgp/s2k.py")])
prop("C23", "User IDs are parsed into name, comment and e-mail as RFC 2822 says",
 "Every user ID string is split into the same name, comment and address that RFC 2822 parsing defines, without crashing.",
 ["inputs"], "All strings.", "Pure function over an unbounded domain.",
 ["pgp/user_id.py", "pgp/regex.py", "pgp/parse.py"], [("parser", "pgp/user_id.py")])
prop("C24", "Merging two copies of a key loses nothing and is order-independent",
 "Merging copies of the same key keeps every signature, user ID and subkey of both exactly once, whatever the order.",
 ["inputs"], "All pairs of copies.", "Pure function over an unbounded domain.",
 ["pgp/merge.py"], [("merge_key", "pgp/merge.py")])
prop("C25", "Key signature validation enforces the web-of-trust rules",
 "Validating the signatures of a key accepts exactly those that RFC 4880 and the trust model allow.",
 ["inputs"], "All keys and signature graphs.", "Pure function over an unbounded domain.",
 ["pgp/signature_verification.py"], [("validate_signatures", "pgp/signature_verification.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(P))
