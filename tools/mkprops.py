"""Single source of the property list: writes properties.jsonl (run by hand after editing)."""
import json, os
SM = "omemo/session_manager.py"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Only trusted devices ever receive message key material",
  "Every device for which an encrypted message carries key material has an identity key that the application's trust evaluation classifies as trusted when the call returns; distrusted devices are silently left out. All devices with undecided trust among the selected recipient devices are submitted to the application together, in one request that carries the caller's identifier unaltered, and if any of them is still undecided afterwards, its level is unknown, or the decision fails, the call raises the documented error and produces no message.",
  ["inputs", "histories"], "for every combination of recipients, device lists, custom trust levels, trust decisions taken during the call and earlier history of trust changes",
  "The two tests blindly trust everything; no test contains a distrusted, still-undecided or unknown level, let alone every mix of them over several recipients and backends.",
  [SM], [("encrypt: undecided collection, trust re-evaluation, trusted filter", SM + ":encrypt"), ("trust stored per account and identity key", SM + ":set_trust")],
  [("/trust/<jid>/<key>", "custom trust level of an identity key of an account", SM)], ["encrypt() result and exceptions", "_make_trust_decision() calls"])
p("C02", "A device's identity key is pinned and every session is bound to it",
  "Once the identity key of a device has been learned it never changes until the account's data is purged. Every session that is built for the device, whether from a received key exchange or from a downloaded bundle (for a message or for a manual session replacement), is built with exactly that identity key; a key exchange or bundle presenting a different one is refused with the documented error and leaves the stored session and key as they were.",
  ["inputs", "histories"], "for every sequence of bundles published by the server for a device (per backend, changing over time), incoming key exchanges and encryption/decryption/replacement calls",
  "Tests use one honest, static bundle per device; a swapped bundle or a forged key exchange at the right moment of a history never occurs.",
  [SM], [("identity key cached on first bundle download", SM + ":__get_device_information"), ("identity key comparison for key exchanges", SM + ":decrypt/handle_key_exchange"), ("identity key comparison for downloaded bundles", SM + ":encrypt, replace_sessions")],
  [("/devices/<jid>/<id>/identity_key", "pinned identity key", SM)], ["encrypt(), decrypt(), replace_sessions()", "sessions handed to the backend for storing"])
p("C03", "Encryption addresses exactly the eligible devices, once each, right backend",
  "An encrypted message addresses exactly the trusted devices of the recipients and of the own account, excluding the sending device, that are currently active for at least one backend of the effective priority order; each is addressed exactly once, through the highest-priority backend for which it is active. There is one message per used backend, carrying the plaintext supplied for that backend, and a priority order naming a backend that is not loaded is refused.",
  ["inputs", "histories", "configurations"], "for every set of recipients, priority order, set and order of loaded backends and history of device list updates",
  "Tests have one device per account and one backend per call.",
  [SM], [("is_valid_recipient_device / backend priority order", SM + ":encrypt")], (), ["encrypt() result"])
p("C04", "One unreachable device never blocks encryption for the others",
  "If the bundle of a recipient device cannot be downloaded, does not exist or does not allow building a session, encryption proceeds for all other devices and the failure is reported for exactly that backend, account and device. Encryption fails as a whole only when a recipient other than the own account is left without any addressed device, and the error then names exactly the recipients concerned.",
  ["inputs", "fault_sequences"], "for every subset of failing bundle downloads and key agreements over every device configuration",
  "Tests never fail a download.",
  [SM], [("EncryptionError collection, NoEligibleDevices", SM + ":encrypt")], (), ["encrypt() result and exceptions"])
p("C05", "Encryption changes stored sessions all-or-nothing",
  "If encryption raises (other than because storing the sessions fails), no stored session differs from before the call; if it returns, the session used for every addressed device is stored in the state following this message, so that after a restart no message key is ever used a second time. Sessions with devices that are not addressed are never touched.",
  ["inputs", "fault_sequences", "histories"], "for every outcome of an encryption call, including each way to fail, over every prior session state, and across restarts",
  "Tests only see successful encryptions and never restart the library.",
  [SM], [("sessions persisted as the final step", SM + ":encrypt")], (("backend sessions", "ratchet state per device and backend", "omemo/backend.py"),), ["sessions stored by the backend"])
p("C06", "Messages are decrypted only from known, not distrusted senders, for us",
  "A message is decrypted only if its backend is loaded, it contains key material for this very device, and its sender is a device on the sender's device list with a known identity key that is not distrusted (undecided is allowed); otherwise the documented error is raised. A sender unknown locally is looked up by refreshing the device list of the message's backend before giving up, and the returned device information is that of the sending device.",
  ["inputs", "histories"], "for every message (sender, recipients, backend), device list and trust history",
  "Tests decrypt only well-formed messages from a known, trusted sender.",
  [SM], [("decrypt preamble", SM + ":decrypt")], (), ["decrypt() result and exceptions"])
p("C07", "A message that fails to decrypt leaves no trace in the key state",
  "If decryption fails for any reason before the plaintext has been recovered, the stored sessions, the one-time pre keys, the published bundle, the pending automated replies and the set of sent messages are exactly as before; if the plaintext is recovered, the advanced session is stored. A message without payload yields no plaintext but advances the session all the same.",
  ["inputs", "fault_sequences"], "for every kind of undecryptable message (forged, replayed, truncated, tampered payload, wrong key exchange) in every session state",
  "Tests never decrypt a message that fails.",
  [SM], [("session stored only after payload decryption", SM + ":decrypt")], (), ["stored sessions, pre keys, bundle, queue before/after decrypt()"])
p("C08", "Key exchanges accompany messages until confirmed and build one session",
  "Every message to a device over a session this side initiated carries the key exchange information until a message has been received over that session, and none afterwards or for sessions the other side initiated. A received key exchange that belongs to the existing session continues it; any other valid key exchange replaces the session with a newly built one.",
  ["inputs", "histories", "schedules"], "for every interleaving, loss, repetition and reordering of messages of a session and of competing session initiations",
  "Tests exchange messages strictly alternately without loss.",
  [SM, "omemo/session.py"], [("key exchange inclusion", SM + ":encrypt, __send_empty_message"), ("builds_same_session handling", SM + ":decrypt/handle_key_exchange")], (), ["keys of encrypted and automatically sent messages", "stored session"])
p("C09", "A one-time pre key is consumed by the session it built",
  "After a key exchange has been processed, the pre key it used is no longer offered in the bundle published for this device. Outside of history synchronization it is gone for good, so another key exchange using it is refused; during history synchronization it remains usable (for a second initiator that picked the same pre key) until synchronization ends, and is then deleted.",
  ["inputs", "histories"], "for every history of key exchanges, mode switches and restarts",
  "Tests process a single key exchange per backend, in live mode.",
  [SM], [("hide/delete pre key", SM + ":decrypt"), ("delete_hidden_pre_keys", SM + ":after_history_sync")], (), ["backend pre keys", "published bundle"])
p("C10", "The published bundle tracks the local keys and stays stocked",
  "Whenever processing a key exchange changed the set of offered pre keys, the bundle that ends up published equals the local one (or the upload error is raised); the number of offered pre keys is refilled to 100 as soon as it is at or below the configured threshold and never exceeds 100. A threshold outside of 25 to 99 is refused, and a bundle is not published when nothing changed.",
  ["inputs", "histories", "configurations"], "for every threshold and every sequence of key exchanges, in both modes",
  "Tests use the default threshold and one key exchange.",
  [SM], [("refill and upload", SM + ":decrypt, create")], (), ["_upload_bundle() calls", "backend pre key count"])
p("C11", "During history synchronization automated replies are deferred, one each",
  "While in history synchronization mode, which is entered on every load and by request, no automated reply is sent. When the mode ends, exactly one empty message is sent to each device with whose session a reply came to be required in the meantime and with which a session still exists, even if it was required several times or the library was restarted in between, and none to any other device.",
  ["histories", "crash_points"], "for every history of received messages, mode switches, purges and restarts",
  "Tests leave the mode immediately with nothing pending.",
  [SM], [("queue", SM + ":decrypt, after_history_sync")], (("/queue/<ns>[/<jid>]", "pending replies", SM),), ["_send_message() calls"])
p("C12", "In live mode each key exchange or stale chain is answered exactly once",
  "Outside of history synchronization, decrypting a message that carries a key exchange, or that leaves the receiving chain of its session longer than 53, sends exactly one empty message to the sending device over that session, regardless of trust; any other decryption sends nothing. The session state following the sent message is stored, and a failure to send is raised.",
  ["inputs", "histories"], "for every message and every chain length around the threshold",
  "Tests check one key exchange reply and never reach the staleness threshold.",
  [SM], [("staleness/completion", SM + ":decrypt, __send_empty_message")], (), ["_send_message() calls", "stored session"])
p("C13", "The device cache is the merge of all device list updates",
  "After processing device list updates, the cache knows every device ever listed for the account; a device is active for a backend exactly if the last update processed for that backend listed it, was never deactivated by an update for another backend, and is reported as supporting exactly the backends that ever listed it. Labels follow the last update that carried one (an update without label never erases one), and an update changes nothing about other accounts, trust, keys or sessions.",
  ["histories", "inputs"], "for every sequence of device list updates and refreshes over several accounts and backends",
  "Tests feed one list per backend.",
  [SM], [("update_device_list", SM + ":update_device_list")], (("/devices/...", "device cache", SM),), ["get_device_information()", "storage"])
p("C14", "The own device is always kept on the own published device lists",
  "When an update or refresh shows an own device list of a loaded backend without this device, a list extended by exactly this device with its current label, keeping all other entries, is published before the call returns; if it is present nothing is published. Lists of other accounts or of backends that are not loaded are never published.",
  ["histories", "fault_sequences"], "for every content of the own device lists and every upload failure",
  "Tests start from empty lists only.",
  [SM], [("own device re-adding", SM + ":update_device_list")], (), ["_upload_device_list() calls"])
p("C15", "Device id and identity key are created once, collision-free, and kept",
  "The first load creates an identity key and a device id within the configured id range that occurs in none of the account's device lists of the loaded backends; both are shared by all backends. Every later load, with whichever backends and after whatever failures or crashes once they have been stored, uses the same identity key and device id.",
  ["histories", "crash_points", "configurations"], "for every content of the device lists, set of backends, and crash or failure point during earlier loads",
  "Tests load once from empty lists.",
  [SM, "omemo/identity_key_pair.py"], [("create", SM + ":create"), ("IdentityKeyPair.get", "omemo/identity_key_pair.py")], (("/own_device_id, /ikp/*", "own identity", SM),), ["bundles and device lists published", "get_own_device_information()"])
p("C16", "A successful load leaves every loaded backend published, after any failure",
  "When loading returns, each loaded backend has offered pre keys, a published bundle equal to the local one, and this device on its published device list, no matter at which network or storage operation previous load attempts, or removals of a backend, failed or crashed. Data persisted by earlier attempts is kept, and a load with unchanged backends after a completed one publishes nothing.",
  ["crash_points", "fault_sequences", "histories"], "for every failure or crash point of any number of previous attempts (and of backend removals), and every change of the set of backends in between",
  "Tests load once without failures.",
  [SM], [("create: backend initialization", SM + ":create")], (), ["server-side bundles and device lists after create()"])
p("C17", "This device is never listed for a backend without a published bundle",
  "At every point in time during loading, adding, removing or purging backends, including every failure and crash point, this device appears on the published device list of a backend only while its bundle for that backend is published.",
  ["crash_points", "fault_sequences"], "for every prefix of the externally visible effects of every call",
  "Tests look at the final state only.",
  [SM], [("bundle before list when adding, list before bundle when removing", SM + ":create, purge_backend")], (), ["order of uploads and deletions"])
p("C18", "Removing a backend withdraws it completely and nothing else",
  "Purging a backend, or loading without a backend that was loaded before, removes this device from that backend's published device list (keeping all other entries), deletes its bundle and unloads it; its local data is deleted if and only if it was loaded. Other backends, accounts, trust and identity are unaffected, and nothing is published for the removed backend afterwards, not even by background tasks.",
  ["histories", "fault_sequences", "schedules"], "for every state of the device lists, failure point, and interleaving with background bundle publication",
  "No test removes a backend.",
  [SM], [("purge_backend", SM + ":purge_backend, create, __manage_signed_pre_key_rotation")], (), ["uploads/deletions", "storage"])
p("C19", "Purging an account removes all of its data and nothing else",
  "After purging an account other than the own, none of its devices, labels, identity keys, trust levels assigned to its devices' keys, or sessions and pending replies of loaded backends remain, and the data of all other accounts is unchanged. If the purge is interrupted by a storage failure or crash at any point, the library stays usable for this account, and repeating the purge removes the remaining trust, keys and sessions.",
  ["histories", "crash_points", "fault_sequences"], "for every stored state and every interruption point",
  "No test purges an account.",
  [SM], [("purge_bare_jid", SM + ":purge_bare_jid")], (), ["storage", "get_device_information() after the purge"])
p("C20", "Signed pre keys are rotated on time and the new bundle gets published",
  "While the library runs and uploads succeed, no loaded backend's signed pre key becomes older than the rotation period plus a minute or so, and none is rotated before reaching the period. After each rotation the new bundle is published at once; if that fails, publication is retried after 60, 120, 240, ... seconds, doubling up to one hour, until it succeeds, without rotating anything in between.",
  ["schedules", "fault_sequences", "configurations"], "for every number of backends with arbitrary key ages, rotation period, sequence of upload outcomes, and async framework",
  "Tests end long before the first rotation.",
  [SM], [("__manage_signed_pre_key_rotation", SM)], (), ["rotation and upload times on a virtual clock"])
p("C21", "The consistency check restores published data from local data",
  "When the consistency check returns, for every loaded backend this device is on the published device list and the published bundle equals the local one, whatever was published before; other devices' entries are kept and local keys are unchanged. A bundle that already matches is not published again.",
  ["inputs", "fault_sequences"], "for every state of the published data and download failure",
  "No test calls it.",
  [SM], [("ensure_data_consistency", SM)], (), ["server-side data before/after"])
p("C22", "The storage cache is transparent",
  "For every sequence and interleaving of loads with writes and deletions (writes of one key not overlapping each other) and every failing storage operation, a cached storage returns what an uncached one could return, and when no operation is in flight it returns what is stored. A write or deletion that fails without effect leaves the visible value unchanged, and values handed in or out are never aliased: modification by the caller after the call returned affects neither the cache nor other readers.",
  ["schedules", "fault_sequences", "inputs"], "for every interleaving of up to several concurrent operations on the same keys, every failure placement, and all JSON values",
  "The tests' storage disables the cache.",
  ["omemo/storage.py"], [("cache update after write, copy on Maybe access", "omemo/storage.py")], (("cache", "last known value per key", "omemo/storage.py"),), ["Storage.load*/store/delete results"])
p("C23", "Session replacement takes effect only after the other side was notified",
  "Replacing the sessions of a device builds, for each loaded backend that has a session with it, a new session, sends one notification carrying its key exchange, and stores the new session only if the notification was sent. Any failure for one backend is reported for exactly that backend, leaves its old session in place and does not affect the others.",
  ["fault_sequences", "histories"], "for every combination of backends, sessions and failures",
  "No test replaces sessions.",
  [SM], [("replace_sessions", SM)], (), ["_send_message() calls", "stored sessions", "returned mapping"])
p("C24", "Persisted state stays loadable after a crash at any point",
  "If the process dies or a storage operation fails at any point of any call, the persisted data is still complete for every known device, every stored value is one that it had before the call or that the call (as far as it got, or completed) stores for it, and after reloading all operations work as documented on it.",
  ["crash_points", "fault_sequences"], "for every storage and network operation of every API call as the crash or failure point",
  "Tests never interrupt a call.",
  [SM, "omemo/storage.py"], [("write ordering: device list last, identity last", SM + ":update_device_list, create")], (), ["storage content at the crash point", "behaviour after reload"])
p("C25", "Reported device information is complete, current and harmless to query",
  "Querying the devices of an account reports exactly the known devices whose identity key is known or obtainable from a bundle of one of their backends, each with its backends, per-backend activity, label, identity key, and the trust level currently assigned to that key for that account (the undecided level if none). Devices that only backends not loaded could tell about never make a query fail, stored backend support without activity information is dropped, and queries, including those of the own device and of sending chain lengths, change nothing beyond learning identity keys.",
  ["inputs", "histories", "configurations"], "for every device cache, availability of bundles, set of loaded backends and trust history",
  "Tests never query device information.",
  [SM], [("__get_device_information", SM), ("get_own_device_information, get_sending_chain_length", SM)], (), ["get_device_information(), get_own_device_information(), get_sending_chain_length()"])
p("C26", "The own label is published on the device lists of all loaded backends",
  "When setting the own label returns, the label is stored and this device is listed with it on the published device list of every loaded backend, with the entries of other devices unchanged.",
  ["inputs", "fault_sequences"], "for every label, set of backends, device list content and failure point",
  "No test sets a label after loading.",
  [SM], [("set_own_label", SM)], (), ["_upload_device_list() calls"])
p("C27", "What one device encrypts, every addressed device decrypts to the same bytes",
  "For all parties running the library, each device addressed by a message decrypts it, at the first delivery, to exactly the plaintext (and key material) that was encrypted, for every delay, loss and reordering of messages and every restart of either side, as long as its session with the sender has not been replaced by a competing key exchange in between; while that holds, a second delivery never yields a plaintext.",
  ["histories", "schedules", "inputs"], "for every interleaving of sends, deliveries, losses, duplicates and restarts of several devices and backends",
  "One test exchanges a handful of messages between two devices, strictly alternating, without loss or restart.",
  [SM], [("encrypt/decrypt", SM), ("identity key pair formats", "omemo/identity_key_pair.py")], (), ["decrypt() results of all parties, real backends"])
p("C28", "Arguments are never modified and returned values are independent copies",
  "No call modifies a list, dictionary or set passed to it, neither during the call nor later, and subsequent modification of passed or returned collections by the application does not change the library's state.",
  ["inputs", "histories"], "for every API call taking or returning a collection",
  "Tests do not look at their arguments again.",
  [SM, "omemo/storage.py"], [("defensive copies", SM + ":create, update_device_list"), ("deepcopy in Maybe", "omemo/storage.py")], (), ["arguments after the call", "state after modifying arguments/results"])
p("C29", "Skipped-key limits accept exactly the documented configurations",
  "A backend accepts exactly the limit combinations that are documented as valid (per-message limit unset, or between 1 and the per-session limit, or 0 if the per-session limit is 0), reports the configured values, defaults the per-session limit to 1000 and the per-message limit to the per-session limit, and refuses every other combination.",
  ["configurations"], "for every pair of non-negative limits",
  "Tests only use the defaults.",
  ["omemo/backend.py"], [("Backend.__init__", "omemo/backend.py")], (), ["Backend construction and properties"])
p("C30", "Overlapping calls about different contacts do not disturb each other",
  "When calls that each concern a different contact overlap in time (tasks of one event loop, switched at any storage, network or trust-decision operation), every call has the outcome, result, messages and stored state it would have had alone: device list updates, device information, trust changes, encryption for one contact, decryption of messages of one contact and session replacement. Excluded are at the same time: two decryptions that touch data all contacts share (key exchanges, or history synchronization), encryptions while there are other own devices, and calls about the own account.",
  ["schedules", "histories"], "for every interleaving of up to three overlapping calls about different contacts, after any history",
  "Tests run one call at a time.",
  [SM, "omemo/storage.py"], [("per-call state only in local variables, per-contact storage keys", SM), ("storage cache", "omemo/storage.py")], (), ["results of the overlapping calls", "persisted rows of every contact", "messages sent"])

p("C31", "Restarts and storage caching are invisible",
  "Loading the library again on its persisted data, with the same backends, threshold, undecided level and label, while what this device publishes is intact, succeeds, publishes nothing and sends nothing, and changes nothing persisted (apart from learning identity keys of the own account's devices). Every later call then has the same outcome, result, messages, publications and persisted state as if the library had kept running, provided that the same history synchronization mode is selected again; this holds with and without storage cache.",
  ["histories", "crash_points"], "for every history of calls and every place at which the application is restarted",
  "Tests never load persisted data twice.",
  [SM, "omemo/storage.py"], [("create", SM), ("no state in memory besides the history synchronization mode", SM), ("storage cache", "omemo/storage.py")], (),
  ["outcomes, results, effects and persisted rows of both executions", "effects of the load"])

p("C32", "Typed storage access returns what was stored or refuses",
  "Whatever JSON value or byte string was stored last under a key is what every later load of the key returns, equal and of the same type, with and without cache and across restarts; a typed load (primitive, optional, list, dictionary, bytes) of a value that does not have the requested type raises TypeError instead of returning something; a deleted or never stored key yields Nothing, whose accessors return the default or raise NothingException.",
  ["inputs", "histories"], "for every value, every way of loading it, every history of stores, deletions and restarts",
  "Tests only load what the library itself stores, in the expected type.",
  ["omemo/storage.py"], [("load_primitive, load_optional, load_list, load_dict, load_bytes, store_bytes", "omemo/storage.py"), ("Maybe, Just, Nothing", "omemo/storage.py")], (), ["results of load calls"])
p("C33", "The identity key pair survives interruptions and its forms agree",
  "Loading the identity key pair returns exactly the complete pair that is persisted (seed or private key, including one migrated by the application) and leaves it untouched; otherwise it generates a fresh 32 byte seed and persists it completely before returning it. A pair that was returned once is returned by every later load, whatever loads are interrupted at any storage operation. The private form derived from a pair has the same identity key as the pair, and signatures made with either form verify with it.",
  ["crash_points", "inputs"], "for every key, every sequence of loads, restarts and interruptions at every storage operation",
  "Tests generate one key pair and never interrupt or convert.",
  ["omemo/identity_key_pair.py"], [("get", "omemo/identity_key_pair.py"), ("as_priv, identity_key", "omemo/identity_key_pair.py")], (), ["returned key pairs", "what the next load finds"])

p("C34", "Calls fail only with their documented exceptions",
  "Whatever the arguments (with a plaintext for every loaded backend, and purging accounts other than the own), the history, and what servers, contacts and the application's own callbacks deliver, fail at or withhold, every call either completes or raises one of the exceptions that its documentation lists; exceptions of the storage (and cancellation of the call) are the only others that pass through. In particular, no combination of unknown, vanished or incomplete devices, bundles, backends, trust levels or messages makes a call fail with an error the application cannot be prepared for.",
  ["inputs", "histories", "fault_sequences"], "for every call, every argument and history, and every failure of the server, the backends and the application's callbacks",
  "Tests only take the paths on which nothing fails.",
  [SM], [("docstrings' Raises sections", SM), ("conversion and collection of exceptions in encrypt, decrypt, replace_sessions, __get_device_information", SM)], (), ["exceptions raised by every call"])

p("C35", "Fingerprints show exactly the identity key",
  "The fingerprint of an identity key consists of eight groups of eight lowercase hexadecimal digits, which together are exactly the Curve25519 form of the key, for every identity key; a device has the same fingerprint whichever form its own key pair is kept in.",
  ["inputs"], "for every identity key, of key pairs kept as seed or private key",
  "Tests never format a key; a digit that is lost or changed for some keys only shows for those keys.",
  [SM, "omemo/identity_key_pair.py"], [("format_identity_key", SM)], (), ["format_identity_key() results"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
