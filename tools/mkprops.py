"""Generate /verif/properties.jsonl (kept as Python for readability)."""
import json, pathlib

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

T = "kasa/transports/"
ALLT = [T + f for f in ("xortransport.py", "klaptransport.py", "aestransport.py", "sslaestransport.py", "ssltransport.py", "linkietransport.py")]
PROTO = ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"]

prop("C01", "A query's result is the device's answer to that very query",
 "Whenever a query on a device connection returns, the returned data is exactly the answer the device produced for that query's own request: never the answer to another (earlier, cancelled, timed-out or concurrent) request, never truncated or spliced. This holds on every transport, for any segmentation of the byte stream and however earlier queries on the same connection ended.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of concurrent queries, cancellations at any await point, timeouts with late replies, stream segmentations, connection losses and session errors, on all transports",
 "Tests feed one canned reply per request over mocks; cancellation in the middle of a reply on a kept-open connection, late replies after a timeout and arbitrary segmentation are not reached.",
 ALLT + PROTO + ["kasa/httpclient.py"],
 [("length-framed read, connection dropped on any error or cancellation", T+"xortransport.py XorTransport.send/_execute_send"),
  ("per-protocol query lock", "kasa/protocols/*.py query"),
  ("per-request sequence number and signature", T+"klaptransport.py KlapEncryptionSession"),
  ("responses of a multi-request matched back to methods", "kasa/protocols/smartprotocol.py _execute_multiple_query")],
 ["result of protocol.query / device commands vs. token echoed by the simulated device"])

prop("C02", "Requests to one device connection never overlap",
 "However many tasks use a device connection (or its child devices) at once, at most one request of that connection is outstanding towards the device at any moment: the next request is put on the wire only after the previous one was answered, failed or was abandoned. No task is starved: every one of the concurrent queries ends.",
 ["schedules", "fault_sequences"],
 "all interleavings of concurrent queries and cancellations from several tasks, with delays and faults, on all transports",
 "Tests issue queries one after another; overlap needs several tasks and a schedule in which one is suspended inside an exchange.",
 PROTO + ["kasa/protocols/smartcamprotocol.py", "kasa/protocols/iotprotocol.py"],
 [("query lock", "kasa/protocols/iotprotocol.py IotProtocol.query"), ("query lock", "kasa/protocols/smartprotocol.py SmartProtocol.query"),
  ("children share the parent's protocol", "kasa/smart/smartchilddevice.py, kasa/protocols/smartprotocol.py _ChildProtocolWrapper")],
 ["simulated device: number of requests received and not yet answered, per client connection object"])

prop("C03", "Every communication failure surfaces as the documented exception",
 "Whatever the network or the device does (refusal, timeout, reset, truncated, malformed or undecryptable replies, HTTP error statuses, known or unknown error codes, wrong JSON shapes), a query, update, discovery or connect call either returns or raises an exception of the library's documented family; nothing else escapes. The class tells the cause: timeouts raise the timeout error, rejected credentials the authentication error, and a device-reported error the device error carrying that error code.",
 ["inputs", "fault_sequences", "schedules"],
 "all replies and network failures at any point of any handshake or exchange, on all transports",
 "Tests mock a handful of failures at fixed places; the space of malformed replies times protocol step is not sampled.",
 ALLT + PROTO + ["kasa/exceptions.py", "kasa/httpclient.py", "kasa/discover.py", "kasa/smart/smartdevice.py", "kasa/iot/iotdevice.py"],
 [("exception mapping", "kasa/httpclient.py HttpClient.post"), ("error code classes", "kasa/exceptions.py, kasa/protocols/smartprotocol.py _handle_response_error_code"),
  ("wrapping of socket errors", T+"xortransport.py"), ("handshake error handling", T+"klaptransport.py, aestransport.py, sslaestransport.py")],
 ["exception type, .error_code of every API call"])

prop("C04", "Retries stay within budget and cure transient failures",
 "A query is attempted at most once plus the requested number of retries, and authentication failures are not retried at all. If every failed attempt within that budget is transient (a timeout, a connection dropped before its reply began, a lost session, a retryable device code) and one attempt meets no fault, the query returns that attempt's result instead of an error; if the fault persists through the whole budget, exactly that many attempts are made.",
 ["fault_sequences", "schedules"],
 "all sequences of transient and permanent faults placed on the attempts of a query, for every retry count and transport",
 "Tests check a few constant fault sequences with a mocked transport; combinations with real session re-establishment and backoff are not covered.",
 PROTO + ALLT,
 [("retry loops", "kasa/protocols/iotprotocol.py _query, kasa/protocols/smartprotocol.py _query"), ("reset between attempts", T+"* reset"),
  ("retryable / auth error codes", "kasa/exceptions.py SMART_RETRYABLE_ERRORS, SMART_AUTHENTICATION_ERRORS")],
 ["number of attempts seen by the device or network for one query; query result"])

prop("C05", "Devices recover by themselves once faults stop",
 "After any finite sequence of faults (lost connections, timeouts, device reboots, expired sessions, malformed replies, cancelled or failed calls, including a failed or cancelled first update), once the device answers normally again the same device object works again: the next query or state refresh succeeds, without the user recreating the object, and reflects the device's state.",
 ["fault_sequences", "crash_points", "histories", "schedules"],
 "all finite fault histories and cancellation points followed by a fault-free period, on all transports and device families",
 "Tests start each scenario from a fresh object; recovery after arbitrary fault histories depends on hidden session and cache state left behind.",
 ALLT + PROTO + ["kasa/smart/smartdevice.py", "kasa/iot/iotdevice.py", "kasa/smartcam/smartcamdevice.py"],
 [("session reset on failure", T+"* reset"), ("update bookkeeping", "kasa/smart/smartdevice.py update, kasa/iot/iotdevice.py update")],
 ["success of the operation issued after the last fault"])

prop("C06", "Every call ends within a time bounded by the configured timeout",
 "Each query, update, connect or discovery call ends (with a result or an error) within a time bounded by the configured timeout, the retry count and the number of exchanges it needs, even if the peer accepts connections and never answers, answers byte by byte, stalls in mid-reply or drops every packet. A single silent exchange is given up after the configured timeout, not later and not markedly earlier, and discovery lasts its configured discovery time.",
 ["fault_sequences", "schedules", "configurations"],
 "all stalls at any point of any exchange, for all timeout settings and transports",
 "Stalls and real elapsed time are not exercised by the tests, which mock the I/O and patch sleeps.",
 ALLT + ["kasa/httpclient.py", "kasa/discover.py", "kasa/deviceconfig.py"],
 [("asyncio timeouts", T+"xortransport.py"), ("client timeout", "kasa/httpclient.py"), ("discovery timeout", "kasa/discover.py")],
 ["virtual time between call and return"])

prop("C07", "Session keys, sequence numbers, tokens and nonces are never misused",
 "Within an encrypted session the client's requests carry strictly increasing sequence numbers and verify under the session key, so the device never sees a repeated or stale one; each new session uses fresh random client material, and once a newer session was established or the old one dropped nothing is sent with the old key, cookie or token again. Key material is never shared between sessions or devices.",
 ["schedules", "fault_sequences", "histories"],
 "all histories of handshakes, failures, cancellations, reboots and re-handshakes on the encrypted transports",
 "Tests check fixed single exchanges; reuse of a sequence number or stale token needs a cancel, failure or re-handshake at a specific point.",
 [T+"klaptransport.py", T+"aestransport.py", T+"sslaestransport.py"],
 [("sequence number increment", T+"klaptransport.py KlapEncryptionSession.encrypt, sslaestransport.py"), ("handshake resets", T+"klaptransport.py perform_handshake, aestransport.py, sslaestransport.py")],
 ["requests decrypted and verified by the simulated device"])

prop("C08", "Peers are authenticated before anything is entrusted to them",
 "On the transports whose handshake lets the device prove itself (KLAP and the camera secure handshake) the client accepts a device only when it proves knowledge of the owner's credentials (or of the documented default or blank credentials), with a proof bound to the client's own fresh challenge, so an impostor or a replayed handshake yields an error and receives no command and no password. On every transport with login, connecting succeeds with the right credentials, directly or through the documented fallbacks, and with wrong ones fails with the authentication error without retrying.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "all peers (genuine with any stored credentials, impostors, replayers, tamperers) and credential configurations on transports with authentication",
 "Tests check a fixed good and a fixed bad hash; a replayed transcript or a peer who echoes challenges is not tried.",
 [T+"klaptransport.py", T+"sslaestransport.py", T+"aestransport.py"],
 [("handshake1 server hash check against candidates", T+"klaptransport.py perform_handshake1"), ("device confirm check", T+"sslaestransport.py perform_handshake1/2"), ("login", T+"aestransport.py perform_login")],
 ["what the simulated peer received; outcome of the call"])

prop("C09", "Sessions are renewed before they expire, transparently to the user",
 "On session based connections the client renews its session before using one whose announced lifetime has passed (or, if the device announced none, is older than a day), after any idle period; within the lifetime it reuses the session. If a device forgot the session (reboot, early expiry), the client renews it so that the user's query still succeeds within the retry budget. Cameras announce no lifetime; with them the session is renewed when the device demands it.",
 ["histories", "fault_sequences"],
 "all idle times, announced lifetimes, reboots and orderings of queries between them",
 "Tests patch time once; long histories of idle periods with several renewals are not explored.",
 [T+"klaptransport.py", T+"aestransport.py"],
 [("session expiry", T+"klaptransport.py _handshake_session_expired, aestransport.py _handshake_session_expired"), ("403 handling", T+"klaptransport.py send"), ("session error codes", T+"aestransport.py _handle_response_error_code")],
 ["handshakes and session ids seen by the simulated device"])

prop("C10", "Discovery reports every answering device once, whatever else is on the air",
 "Broadcast discovery returns exactly one entry, keyed by address and reflecting that device's answer, for every supported device at least one of whose answers arrives within the discovery time, in any order, with any duplication, loss and delay of packets. Answers from unsupported, unauthenticated or broken devices and arbitrary garbage never prevent, alter or duplicate other results; unsupported ones are reported through their callback, and the discovered callback runs once per reported device.",
 ["schedules", "fault_sequences", "inputs"],
 "all populations of devices and garbage senders and all deliveries (loss, duplication, reordering, delay) of their datagrams",
 "Tests inject one hand-made datagram; populations and deliveries of many answers are not explored.",
 ["kasa/discover.py"],
 [("seen hosts", "kasa/discover.py _DiscoverProtocol.datagram_received"), ("discovery packets and retries", "kasa/discover.py do_discover"), ("unsupported handling", "kasa/discover.py")],
 ["returned mapping and callbacks"])

prop("C11", "Targeted discovery finds the one device asked for",
 "Discovering a single host returns the device of exactly that host when it answers within the timeout, not waiting longer than needed, and ignoring answers of other hosts; when it does not answer it raises the timeout error, and when it answers as an unsupported device it raises the unsupported-device error (or calls the given callback and returns nothing). Probing all connection variants of a host likewise returns a working device exactly when one of the variants answers.",
 ["schedules", "fault_sequences", "configurations"],
 "all answers (late, lost, from other hosts, duplicated, unsupported) and all device connection variants",
 "Tests use an immediate canned answer; lateness, loss and other hosts' answers are not explored.",
 ["kasa/discover.py", "kasa/device_factory.py"],
 [("discover_single", "kasa/discover.py Discover.discover_single"), ("target filter", "kasa/discover.py _DiscoverProtocol"), ("try_connect_all", "kasa/discover.py Discover.try_connect_all")],
 ["returned device or exception, elapsed virtual time"])

prop("C12", "No socket, session or task outlives its owner",
 "After a device is disconnected, a connect attempt fails, a probe of connection variants ends, or discovery returns, is cancelled or fails, no socket, HTTP session, timer or task created by it remains, except connections belonging to device objects handed to the caller. This holds wherever an error or cancellation strikes, and disconnecting is always possible and final: nothing more is sent to the device on behalf of earlier calls.",
 ["crash_points", "schedules", "fault_sequences"],
 "all cancellation and failure points of connect, query, update, discovery and disconnect",
 "Tests count one close call on a mock; leaks need a failure or cancellation at a particular await.",
 ["kasa/discover.py", "kasa/device_factory.py", "kasa/httpclient.py", T+"xortransport.py", "kasa/protocols/iotprotocol.py"],
 [("close chain", "kasa/device.py disconnect, kasa/protocols/*.py close, kasa/transports/*.py close, kasa/httpclient.py close"), ("close on connect failure", "kasa/device_factory.py connect"), ("close of unused candidates", "kasa/discover.py")],
 ["open simulated sockets and live tasks after the operation"])

prop("C13", "After an update the device object mirrors the device, and commands take effect",
 "After a successful update every state, feature and measurement exposed equals what the device reported in that update, and stays so until the next update. A state-changing command that returns successfully has set exactly the requested state on the device (and nothing else), and the following update shows it, for every device family and in any interleaving with changes made at the device itself or by other clients.",
 ["histories", "schedules", "inputs"],
 "all histories of commands, external changes and updates, with transient faults, on all device families",
 "Tests set one value and look at the mock's call; sequences across families with an independently evolving device model are not explored.",
 ["kasa/iot/*.py", "kasa/iot/modules/*.py", "kasa/smart/*.py", "kasa/smart/modules/*.py", "kasa/smartcam/*.py", "kasa/smartcam/modules/*.py"],
 [("update and module data", "kasa/smart/smartdevice.py update, kasa/iot/iotdevice.py update, kasa/smartcam/smartcamdevice.py"), ("command methods", "kasa/*/modules/*.py")],
 ["properties, features of device objects vs. device model state"])

prop("C14", "Child devices are addressed individually and never mixed up",
 "On strips, hubs and multi-gang devices, a command on one child changes that child only, and each child's reported state, alias, schedule and energy data is that child's own and none of its siblings'. This holds for concurrent commands on several children and for any order in which the device lists or pages its children.",
 ["schedules", "histories", "configurations"],
 "all numbers and orders of children, pages, concurrent commands and state changes",
 "Tests use fixtures with a fixed order of children and sequential commands.",
 ["kasa/iot/iotstrip.py", "kasa/smart/smartchilddevice.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/smartcam/smartcamchild.py"],
 [("child context", "kasa/iot/iotstrip.py IotStripPlug"), ("child wrapper", "kasa/protocols/smartprotocol.py _ChildProtocolWrapper, kasa/protocols/smartcamprotocol.py _ChildCameraProtocolWrapper"), ("children keyed by device id", "kasa/smart/smartdevice.py")],
 ["device model state per child vs. child objects"])

prop("C15", "A hub's children follow pairing and unpairing",
 "After each successful update of a hub the exposed children are exactly the supported devices then paired with the hub, each with its own identity, data and model-specific modules, whatever sequence of pairings, removals, re-pairings and failures occurred before. Children that stay paired keep their object; one that cannot be initialised or is of an unsupported kind does not disturb the others or the hub.",
 ["histories", "fault_sequences"],
 "all histories of pairings and removals between updates with failing child queries",
 "Tests cover one add and one remove on a canned fixture.",
 ["kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smart/modules/childdevice.py", "kasa/smart/modules/childsetup.py", "kasa/smartcam/modules/childsetup.py"],
 [("children list maintenance", "kasa/smart/smartdevice.py _update_children_info, _create_delete_children"), ("camera hub variant", "kasa/smartcam/smartcamdevice.py")],
 ["device.children after update"])

prop("C16", "A failing module or child does not take the device down",
 "When some of a device's functions answer with errors during an update, the update still succeeds with every other function's data fresh; reading a failed function raises the library's error rather than giving stale or wrong data. A failing function is asked again with increasing delay and works again once the device answers properly.",
 ["fault_sequences", "histories"],
 "all subsets and histories of functions failing with any error code over many updates and any time between them",
 "Tests make one module fail once; the backoff schedule and recovery over long histories are not explored.",
 ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/iot/iotdevice.py", "kasa/smartcam/smartcamdevice.py"],
 [("individual re-query on a failing batch", "kasa/smart/smartdevice.py _modular_update, _query_modules"), ("error backoff", "kasa/smart/smartmodule.py _last_update_error, _error_count, DISABLE_AFTER_ERROR_COUNT"), ("iot module support check", "kasa/iot/iotdevice.py")],
 ["module data / errors after update; queries seen by device"])

prop("C17", "Slow-changing functions are polled at their interval, and at once after a change",
 "During updates a function with a minimum polling interval is queried at most once per interval, and at least once whenever an update occurs after the interval has elapsed, at whatever cadence the user updates; functions without one are queried on every update. After a command changes such a function, the next update queries it regardless of the interval.",
 ["histories", "schedules"],
 "all sequences of updates, commands and time gaps",
 "Tests check one freeze-time step.",
 ["kasa/smart/smartmodule.py", "kasa/smart/smartdevice.py", "kasa/smart/modules/firmware.py", "kasa/smart/modules/cloud.py", "kasa/smart/modules/childsetup.py"],
 [("_should_update / MINIMUM_UPDATE_INTERVAL_SECS", "kasa/smart/smartmodule.py, kasa/smart/smartdevice.py"), ("allow_update_after", "kasa/smart/smartmodule.py")],
 ["methods queried per update at the simulated device"])

prop("C18", "A multi-part query returns every part, complete and in place",
 "A query for several methods returns a result (or that method's own error) for every requested method and nothing else, whatever the batch size the device supports and wherever batches are cut or retried; failing parts do not hide, shift or corrupt others. Lists the device delivers in pages are returned complete, in order and without duplicates.",
 ["inputs", "fault_sequences", "configurations"],
 "all sets of methods, batch sizes, list lengths, page sizes and placements of errors and transient faults",
 "Tests use a few fixed sizes with a mock that never fails part-way.",
 ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
 [("batching", "kasa/protocols/smartprotocol.py _execute_multiple_query"), ("pagination", "kasa/protocols/smartprotocol.py _handle_response_lists"), ("camera batches", "kasa/protocols/smartcamprotocol.py")],
 ["query result vs. model answer"])

prop("C19", "A firmware update is reported faithfully and always comes to an end",
 "A firmware update started by the user is triggered on the device once, reports the progress the device states, tolerates the device being unreachable for a while during reboot, and returns when the device reports completion. It never loops forever: if the device stays away or reports failure, the call ends with an error or final state in bounded time.",
 ["schedules", "fault_sequences"],
 "all progress histories, reboots and outages at any point of an update",
 "Tests replay one canned list of progress states.",
 ["kasa/smart/modules/firmware.py"],
 [("update loop with overall timeout", "kasa/smart/modules/firmware.py Firmware.update")],
 ["progress callback history, device trigger count, elapsed time"])

prop("C20", "The reported switch-on time is stable and right",
 "While a device (or outlet) stays on, the switch-on time reported after successive updates does not change (within the few seconds of rounding the documentation allows), and matches when the device really switched on; while it is off none is reported. After an off/on cycle or reboot the new switch-on time is reported, never an older cached one.",
 ["histories", "schedules"],
 "all histories of on/off cycles, updates, device time jumps and reply delays",
 "Tests set one on-time value.",
 ["kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/smart/smartdevice.py"],
 [("on_since caching", "kasa/iot/iotdevice.py on_since, kasa/iot/iotstrip.py on_since, kasa/smart/smartdevice.py on_since")],
 ["device.on_since"])

prop("C21", "Energy and usage figures belong to the day and month they claim",
 "The energy or usage exposed as today's or this month's is what the device recorded for the device's current day or month as of the last update, also when updates straddle midnight, a month's or a year's end; it is never a figure of another day, month or year. Daily and monthly statistics contain each recorded day or month once with its own value.",
 ["histories", "inputs"],
 "all times of update and read-out around day, month and year boundaries and all recorded histories",
 "Tests run at one instant with canned data.",
 ["kasa/iot/modules/emeter.py", "kasa/iot/modules/usage.py", "kasa/smart/modules/energy.py", "kasa/iot/iotstrip.py"],
 [("current day/month lookup", "kasa/iot/modules/emeter.py, kasa/iot/modules/usage.py"), ("child aggregation", "kasa/iot/iotstrip.py StripEmeter")],
 ["energy module properties"])

prop("C22", "Devices that need pacing are not hammered",
 "After a device closed its HTTP connection unexpectedly, further HTTP requests to it are spaced by at least the library's minimum gap, for as long as the connection object lives, under any concurrency. On the SMART protocols a retry after a timeout or a retryable error waits for the library's backoff time before trying again, and discovery probes are paced over the discovery time.",
 ["schedules", "fault_sequences"],
 "all sequences of connection errors and requests on the HTTP transports",
 "Tests check one artificial gap with mocked sleep.",
 ["kasa/httpclient.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py", "kasa/discover.py"],
 [("WAIT_BETWEEN_REQUESTS_ON_OSERROR", "kasa/httpclient.py"), ("BACKOFF_SECONDS_AFTER_TIMEOUT", "kasa/protocols/smartprotocol.py, iotprotocol.py")],
 ["arrival times of requests at the simulated device"])

prop("C23", "A device can be reconnected from its stored configuration alone",
 "The configuration obtained from a working device, stored as plain data at any moment (with the credentials or with only their hash), lets a later process reconnect to the device and control it without discovery or plain credentials, after any crash of the client or reboot of the device. A hash from wrong or changed credentials is rejected with the authentication error and never reported as usable.",
 ["crash_points", "configurations", "histories"],
 "all device families, encryption variants and crash points at which the configuration was saved",
 "Tests round-trip the dictionary; using it in a new process against a device that checks credentials is not exercised.",
 ["kasa/deviceconfig.py", "kasa/device_factory.py", "kasa/device.py", T+"klaptransport.py", T+"aestransport.py", T+"sslaestransport.py", T+"ssltransport.py"],
 [("credentials_hash", T+"*.py credentials_hash"), ("config to/from dict", "kasa/deviceconfig.py")],
 ["connect outcome in the second process"])

prop("C24", "The command line tool reports what happened",
 "Every command of the command line tool acts on exactly the addressed device, ends with exit status zero only if the operation succeeded, and in JSON mode prints exactly one valid JSON document on standard output in every outcome, including network faults and device errors. On every outcome it ends and closes its connections.",
 ["fault_sequences", "inputs", "configurations"],
 "all commands, device families and network or device faults at any point",
 "Tests invoke commands on in-process mocks without network faults.",
 ["kasa/cli/main.py", "kasa/cli/common.py", "kasa/cli/device.py", "kasa/cli/discover.py"],
 [("json output wrapper", "kasa/cli/common.py json_formatter_cb, CatchAllExceptions"), ("device context", "kasa/cli/main.py async_wrapped_device")],
 ["exit status, stdout, open sockets"])

prop("C25", "Commands are not executed more often than asked, nor after their call ended",
 "In the absence of faults a command reaches the device exactly once; with faults a successful command was executed at least once and at most once per attempt, and one that must not be repeated is sent at most once. After the call has returned, failed or been cancelled no further execution of the command is started by the library.",
 ["schedules", "fault_sequences", "crash_points"],
 "all fault, timeout and cancellation points during commands, on all transports",
 "Tests have no device that counts executions under lost replies and cancellations.",
 PROTO + ALLT + ["kasa/smart/smartdevice.py"],
 [("retry loop in the caller's task", "kasa/protocols/*.py"), ("retry_count=0 for joining a network", "kasa/smart/smartdevice.py wifi_join")],
 ["execution counters in the simulated device"])

prop("C30", "Pure conversions are exact",
 "Encoding and decoding helpers without time, I/O or concurrency (obfuscation cipher, credential hashing, configuration serialisation, colour and temperature conversions) are exact inverses or fixed functions of their arguments. Logging redaction replaces every private value and keeps the rest.",
 ["inputs"],
 "all argument values",
 "Tests sample a few values.",
 ["kasa/transports/xortransport.py", "kasa/deviceconfig.py", "kasa/protocols/protocol.py"],
 [("pure functions", "kasa/transports/xortransport.py XorEncryption, kasa/protocols/protocol.py redact_data")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
