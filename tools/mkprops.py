#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; the generated file is committed)."""
import json, os

SM = "omemo/session_manager.py"
ST = "omemo/storage.py"
IK = "omemo/identity_key_pair.py"
BE = "omemo/backend.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": mechanism,
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


def m(name, where):
    return {"name": name, "where": where}


def s(name, meaning, where):
    return {"name": name, "meaning": meaning, "where": where}


TESTS = ("The two existing tests run one scripted two-party conversation and one storage migration, with no fault, "
         "no restart, no reordering and every device blindly trusted. ")

prop("C01", "Message content is only ever encrypted for trusted identity keys",
     "Every key contained in a message returned by encryption is for a device that is currently active, is not the "
     "sending device, and whose identity key - the very key the session with that device is cryptographically bound to - "
     "evaluates to trusted after the trust decision; never for a distrusted, undecided or substituted identity key. "
     "All undecided recipient devices are put to the application in a single trust decision request (with the caller's "
     "identifier passed through), no request is made when nothing is undecided, and if anything is still undecided or the "
     "decision fails, encryption fails and releases nothing.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "For every history of device list changes, trust changes, bundle substitutions by the server, session state, "
     "network failures, and every scripted outcome of the trust decision.",
     TESTS + "They never distrust or leave undecided a device, never remove a device from a list, and the server never "
     "presents a bundle whose identity key differs from the one trust was granted to.",
     [SM], [m("recipient filtering, trust evaluation and trust decision in encrypt", SM),
            m("identity key of the bundle compared with the trusted identity key before session building", SM)],
     [s("trust levels", "custom trust level per (account, identity key)", "storage")],
     ["SessionManager.encrypt result", "_make_trust_decision", "_evaluate_custom_trust_level"])

prop("C02", "Encryption reaches every eligible device exactly once",
     "A successful encryption contains exactly one key for every eligible recipient device (active, trusted devices of the "
     "recipients and of the own account, the sending device excluded), under the highest-priority namespace the device is "
     "active for, and each returned message decrypts to that namespace's plaintext. A device whose session cannot be set up "
     "(bundle missing, download failure, bad key exchange) is reported as a non-critical error and never prevents "
     "encryption for the others; encryption fails for lack of eligible devices exactly when some recipient other than the "
     "own account is left without any device, and names exactly those recipients.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "For every set of recipients, device lists across backends, priority order, existing sessions and every pattern of "
     "per-device bundle failures.",
     TESTS + "One recipient with one device, one namespace per call, no failing bundle.",
     [SM], [m("device filtering, priority order, per-device error collection in encrypt", SM),
            m("bundle cache between device information gathering and session building", SM)],
     [], ["SessionManager.encrypt result and exceptions"])

prop("C03", "Decryption is gated on sender identity and trust, without side effects",
     "A message yields a plaintext only if it addresses this device, its sending device is publicly known for the claimed "
     "account (after one device list refresh if it was not cached), is not distrusted, and any key exchange carries exactly "
     "the identity key known for that device; the returned device information describes the true sender, and undecided "
     "senders are decrypted. Every refused message - for any of these reasons, an unloaded namespace, a missing session or "
     "a cryptographic failure - raises the documented error and leaves all sessions, pre keys and queued messages as they "
     "were.",
     ["histories", "inputs", "fault_sequences"],
     "For every message history including forged, replayed, tampered and misaddressed messages, any trust state and any "
     "network failure during the sender lookup.",
     TESTS + "Every message in them is genuine, known and trusted.",
     [SM], [m("checks at the head of decrypt and identity key comparison of key exchanges", SM),
            m("session persisted only after full decryption", SM)],
     [], ["SessionManager.decrypt result and exceptions", "session state in storage"])

prop("C04", "Messages decrypt to what was sent under loss, reordering and restarts",
     "Whatever messages are lost, delayed, duplicated or reordered and however often either side restarts, a message "
     "decrypts at an addressed device to exactly the plaintext its sender encrypted (no plaintext for automated empty "
     "messages). A message must decrypt whenever the recipient still holds the session it was encrypted with, or it carries "
     "a key exchange that the recipient can still honour - including repeated key exchanges for an already built session "
     "and key exchanges that replace one.",
     ["schedules", "histories", "fault_sequences"],
     "For every delivery schedule (drop, duplicate, reorder, delay) between several devices, restarts and both session "
     "initiation directions.",
     TESTS + "Messages are delivered immediately, in order, once; nothing restarts.",
     [SM], [m("key exchange handling: same-session check, passive session building", SM),
            m("key exchange attached to messages until the session is confirmed", SM)],
     [s("sessions", "double ratchet session per (namespace, account, device)", "backend storage")],
     ["SessionManager.decrypt result"])

prop("C05", "Session changes are persisted atomically; no message key is used twice",
     "A session change becomes durable before the message produced by it leaves the library, so that after a crash at any "
     "point no two different messages are ever encrypted with the same message key of a session. An encryption or "
     "decryption that is refused (fails for any reason other than failing storage or a failing follow-up publication "
     "once the message was decrypted) leaves the stored sessions exactly as they were, and a successful one leaves exactly the "
     "sessions it used advanced.",
     ["crash_points", "fault_sequences", "histories"],
     "For every crash point (before or after any individual storage write or network call) and every storage or network "
     "error inside any operation that uses a session.",
     TESTS + "No crash and no failing storage or network call is ever injected.",
     [SM], [m("sessions stored as the final step of encrypt, before returning", SM),
            m("session stored before the automated empty message is sent", SM),
            m("session stored only after successful decryption", SM)],
     [], ["messages returned by encrypt or passed to _send_message vs. durable storage"])

prop("C06", "The device cache mirrors the device lists it was fed",
     "After a device list update for an account and namespace succeeds, every listed device is known, supports and is active "
     "for that namespace, and carries the listed label (a missing label never erases a known one); every other known device "
     "is inactive for that namespace but nothing else about it changes. Known devices, their identity keys and the other "
     "namespaces' status are never dropped by updates, lists of different namespaces merge by device id, and device "
     "information reflects this state across restarts.",
     ["histories", "inputs", "schedules", "crash_points"],
     "For every sequence of device list updates over several namespaces and accounts, with failures and crashes in between "
     "and any interleaving of refreshes.",
     TESTS + "Each list is fed once per namespace, always with the same single device.",
     [SM], [m("update_device_list merge of namespaces, activity and labels", SM),
            m("list of known devices stored last", SM)],
     [s("device cache", "known devices, namespaces, active flags, labels, identity keys per account", "storage")],
     ["SessionManager.get_device_information", "get_own_device_information"])

prop("C07", "The own device stays listed, with its label, under every schedule",
     "Whenever an own-account device list that lacks this device is processed for a loaded namespace, this device is "
     "re-added with its current label and the list republished with every other entry unchanged; lists that already contain "
     "it are not republished. Setting the own label updates the local information and this device's entry in the published "
     "list of every loaded namespace and touches nothing else, and once faults stop and notifications are delivered, "
     "concurrently starting devices of one account all end up listed.",
     ["schedules", "histories", "fault_sequences"],
     "For every interleaving of list publications by several own devices, notification loss/reordering and upload "
     "failures.",
     TESTS + "One device per account, no concurrent publication, no label.",
     [SM], [m("own device check in update_device_list", SM), m("set_own_label", SM)],
     [], ["device list uploads seen by the server", "published device lists"])

prop("C08", "Setup survives failures at any point and never advertises a broken device",
     "If creating or loading the manager fails or crashes at any point, repeating it until it succeeds ends with every "
     "loaded backend fully set up: a bundle with a full set of pre keys published, this device in the published device "
     "list of every loaded namespace, and device information stating so. At no time does a device list published by this "
     "device list it for a namespace whose bundle it has not published, and a successful backend setup is never lost or "
     "redone because a later one failed.",
     ["crash_points", "fault_sequences", "configurations"],
     "For every crash point and failing storage or network call during creation, any number of repeated attempts, and any "
     "change of the set of loaded backends in between.",
     TESTS + "Creation always succeeds at the first attempt.",
     [SM], [m("first run branch and loaded-vs-stored namespace comparison in create", SM),
            m("per-backend initialization order: pre keys, bundle, device list", SM)],
     [], ["published bundles and device lists", "SessionManager.create"])

prop("C09", "Removing a backend removes exactly its online presence, safely ordered",
     "Purging a backend, or loading without one that was loaded before, removes this device from that namespace's published "
     "device list before its bundle is deleted, leaves the list entries of other devices and all data of other backends "
     "untouched, and purges offline data only if the backend is loaded; interrupted removals are completed when repeated. "
     "After it, nothing - including the background rotation - republishes anything under that namespace, operations for it "
     "are refused as unknown, and loading the backend again restores full service with the same identity and device id.",
     ["crash_points", "schedules", "configurations", "fault_sequences"],
     "For every interleaving of removal with background work, every failure or crash inside it, and every sequence of "
     "backend sets loaded over successive runs.",
     TESTS + "No backend is ever removed or added.",
     [SM], [m("purge_backend ordering", SM), m("cleanup of removed backends in create", SM)],
     [], ["published bundles and device lists", "storage of the other backends"])

prop("C10", "Pre keys are single-use, replenished, and the published bundle follows",
     "When a key exchange is processed in normal operation, the pre key it used is neither published nor usable afterwards; "
     "during history synchronization it is unpublished but stays usable until synchronization ends and is then gone. "
     "Whenever the number of published pre keys falls to the configured threshold it is restored to 100, it never exceeds "
     "100, and after every successful operation that changed the local bundle the published bundle equals it.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "For every history of incoming key exchanges (repeated, reordered, from many devices), mode changes, restarts, "
     "thresholds and upload failures.",
     TESTS + "One key exchange per backend, default threshold, never in history synchronization mode.",
     [SM], [m("pre key hiding/deletion, refill and bundle upload after key exchanges in decrypt", SM),
            m("delete_hidden_pre_keys in after_history_sync", SM)],
     [], ["published bundles", "local bundle"])

prop("C11", "Signed pre keys rotate on schedule through failures and downtime",
     "While the library runs, no backend's signed pre key is ever older than the rotation period plus a minute of slack, and "
     "none is rotated before the period has elapsed; a key that came due during downtime is rotated right after loading. "
     "After each rotation the new bundle is published, retrying until it succeeds with a delay that starts at one minute, "
     "doubles, and is capped at one hour, after which normal rotation resumes; key exchanges made with the previous signed "
     "pre key keep working for one more period. This holds for every supported async framework and never disturbs "
     "operations running at the same time.",
     ["schedules", "fault_sequences", "configurations"],
     "For every rotation period, any timing of operations, upload outages of any length, restarts, downtimes and clock "
     "skew, over simulated weeks, under asyncio and twisted.",
     TESTS + "They finish within a second; no timer ever fires.",
     [SM], [m("background rotation loop started by create", SM)],
     [], ["bundle uploads over simulated time"])

prop("C12", "Automated empty messages: exactly once, deferred during synchronization",
     "Outside history synchronization, every decrypted message that carries a key exchange or reveals a receiving chain "
     "longer than 53 is answered by exactly one empty message to the sending device, and nothing else is. During "
     "synchronization none is sent; leaving it sends exactly one per session that needed at least one, also across restarts "
     "and crashes before that point, and an empty message that could not be sent stays queued for the next time "
     "synchronization ends. The manager starts in synchronization mode.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "For every history of received messages, mode switches, restarts, crashes and send failures.",
     TESTS + "They leave synchronization mode at once and never receive more than a few messages.",
     [SM], [m("empty message sending/queueing in decrypt", SM), m("queue processing in after_history_sync", SM)],
     [s("queue", "sessions awaiting an empty message per namespace", "storage")],
     ["_send_message"])

prop("C13", "Ensuring data consistency repairs any online divergence",
     "Whatever happened to this account's online data (bundle or device list lost, stale, foreign or altered, failed or "
     "half-finished earlier publications), a successful consistency check leaves, for every loaded backend, the published "
     "bundle equal to the local one and this device in the published device list with other entries kept. It changes no "
     "local keys or sessions, and uploads nothing that already matches. From then on, as long as no upload fails and nobody "
     "else alters it, the published bundle stays equal to the local one.",
     ["histories", "fault_sequences", "crash_points"],
     "For every prior history of failures, crashes and server-side tampering, and for failures during the check itself "
     "followed by a repetition.",
     TESTS + "The consistency check is never called by the tests.",
     [SM], [m("ensure_data_consistency", SM)],
     [], ["published bundles and device lists"])

prop("C14", "Purging an account removes all of its data and only its data",
     "After purging an account, none of its known devices, their identity keys, trust levels or sessions in any loaded backend remain - a "
     "device that reappears is new, undecided and needs a new session - while the data of every other account is untouched. "
     "If the purge is interrupted at any point the library remains fully usable, also for that account, and repeating the "
     "purge completes it.",
     ["crash_points", "histories", "fault_sequences"],
     "For every history before the purge and every crash or storage error inside it, followed by a repetition.",
     TESTS + "Purging is never called by the tests.",
     [SM], [m("purge_bare_jid", SM)],
     [], ["get_device_information", "encrypt towards the purged account"])

prop("C15", "Session replacement is all-or-nothing per backend and notifies the peer",
     "Replacing the sessions with a device builds, for exactly the loaded backends that had a session with it, a new session "
     "with the device's known identity key, sends one empty notification carrying the key exchange, and only then makes the "
     "new session current. A backend whose replacement fails is reported under its namespace with the reason and keeps its "
     "old session unless storage itself failed, without affecting the other backends; once the notification is delivered, "
     "both directions work over the new session.",
     ["fault_sequences", "histories", "crash_points"],
     "For every combination of backends and session states and every failing download, key exchange, send or storage call.",
     TESTS + "Session replacement is never called by the tests.",
     [SM], [m("replace_sessions", SM)],
     [], ["replace_sessions result", "_send_message", "sessions in storage"])

prop("C16", "Cached storage behaves like one durable map under concurrency and faults",
     "Under any interleaving of concurrent operations, reads through the storage layer - cached or not - return the value of "
     "the latest completed write or deletion or of one still in progress, typed accessors return what was stored and refuse "
     "other types, and a failed write never becomes visible as if it had succeeded. Values handed in or out can be mutated by "
     "the caller without affecting stored data, and after a restart the same values are read that were readable before.",
     ["schedules", "crash_points", "fault_sequences", "inputs"],
     "For every interleaving of concurrent loads, stores and deletes over few keys with arbitrary completion order, storage "
     "errors and restarts, with the cache on and off.",
     TESTS + "They use a non-suspending in-memory storage with the cache disabled; the caching code never runs.",
     [ST], [m("load/store/delete with write-through cache", ST), m("Maybe/Just cloning", ST)],
     [s("cache", "per-instance cache of loaded and stored values", ST)],
     ["Storage public API"])

prop("C17", "Trust belongs to (account, identity key), is durable and never changes by itself",
     "The trust level reported and applied for a device is always the one last set for the pair of its account and identity "
     "key, or the configured undecided level if none was ever set: shared by all devices and backends using that key, "
     "independent of other accounts using the same key, and unaffected by device list changes, session replacement, "
     "messages, restarts, crashes or backend changes. Only setting trust and purging the account change it.",
     ["histories", "crash_points"],
     "For every history of operations, restarts and crashes between setting trust and its use.",
     TESTS + "Trust is set once to trusted and only used immediately.",
     [SM], [m("set_trust and trust lookup in device information and encrypt", SM)],
     [], ["get_device_information", "_evaluate_custom_trust_level arguments"])

prop("C18", "One identity key and one device id for life",
     "All backends of a device publish the same identity key and device id, and both stay the same across restarts, crashes "
     "during first setup once the device has been announced online, backend changes and purges. The device id lies in the "
     "valid range and differs from every id listed for the account in the loaded namespaces when it was generated; an "
     "identity key pair imported as a private key yields the same public identity as its seed form.",
     ["crash_points", "histories", "configurations"],
     "For every crash point during first setup, every sequence of restarts and backend sets, and crowded id spaces.",
     TESTS + "Each device is set up once and never restarted; ids are drawn from two billion.",
     [SM, IK], [m("device id generation in create", SM), m("identity key pair loading/generation", IK)],
     [s("identity key pair, own device id", "persisted identity", "storage")],
     ["published bundles", "get_own_device_information"])

prop("C19", "Communication recovers after arbitrary faults",
     "However many crashes, network failures, lost messages and stale lists occurred, no operation wedges or permanently "
     "breaks the library: once faults stop, after one consistency check and one device list refresh on each device, and at "
     "most one manual session replacement from each side of a pair that reports failures, every device can send to every "
     "other one with a common backend (both listed for exactly the backends they have) and have it decrypted. Every operation ends in bounded time with its result or a documented error.",
     ["fault_sequences", "crash_points", "schedules"],
     "For every bounded history of faults followed by a fault-free suffix.",
     TESTS + "No fault is ever injected, so recovery is never exercised.",
     [SM, ST], [m("ordering of persistent updates in all operations", SM)],
     [], ["encrypt/decrypt in the fault-free suffix"])

prop("C20", "Skipped message key limits are configurable and enforced",
     "Any per-session limit and any per-message limit between 1 and it (0 only together with 0, per-message defaulting to "
     "the per-session limit) can be configured, and are what the backend applies: under any loss and reordering, a message "
     "skipping at most the per-message limit of keys is accepted and one skipping more is refused without side effects. "
     "Any other combination of limits is refused when the backend is created.",
     ["configurations", "schedules"],
     "For every valid limit configuration and every loss/reordering schedule around the limits.",
     TESTS + "They use the defaults and lose no message.",
     [BE], [m("limit validation and exposure in the backend base class", BE)],
     [], ["backend construction", "decrypt after lost messages"])

prop("C21", "Overlapping calls and background work do not corrupt each other",
     "When several calls on one manager overlap at network waits - sending, receiving, list updates, replacing sessions - and "
     "the background rotation runs as well, no session update, known device, queued empty message or pre key change is lost "
     "and no message key is used twice, provided the storage implementation does not itself suspend.",
     ["schedules"],
     "For every interleaving at network suspension points of overlapping calls on one manager.",
     TESTS + "Strictly one call at a time.",
     [SM], [m("absence of suspension points between loading and storing a piece of state", SM)],
     [], ["messages, device information and bundles after overlapping calls"])

prop("C22", "Fingerprints are the Curve25519 identity key in eight groups of eight hex digits",
     "The displayed fingerprint of an identity key is the lowercase hexadecimal form of its Curve25519 public key in eight "
     "groups of eight characters.",
     ["inputs"], "For every identity key.",
     "The tests never format a fingerprint; a test can only sample keys.",
     [SM], [m("format_identity_key", SM)], [], ["format_identity_key"])

prop("C23", "Invalid configurations are refused before anything is touched",
     "Creating the session manager with two backends for the same namespace, or with a pre key refill threshold outside of "
     "25 to 99, is refused with a ValueError at any point of a device's life: nothing is stored, published, removed or "
     "downloaded, and a later start with a valid configuration works as if the refused attempt had not happened.",
     ["configurations", "histories"],
     "For every invalid configuration and every history before it, including interrupted set ups and removals.",
     TESTS + "They only use valid configurations.",
     [SM], [m("argument validation in SessionManager.create", SM)], [],
     ["exception raised by create", "storage contents and network requests of the refused attempt"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
