import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
RV="core/rv/"
p("P01","A device is redirected only after proving itself, and only to its own owner",
 "The rendezvous server hands out owner location data only to a request that is signed, over the nonce issued in that very session, by the device key certified in the voucher under which the device is currently registered. What it hands out is, byte for byte, the most recently accepted, unexpired registration for that device; every other request gets a protocol error and reveals nothing.",
 ["histories","inputs","schedules"],"every interleaving of registrations, hellos, proofs, expiries and re-registrations of several devices over several sessions, and every single defect of a proof (key, nonce, signature, session, encoding)",
 "There is no test of the rendezvous server at all; a test would sample one happy run, while the guarantee is about all histories of registrations and all forged proofs.",
 [RV+"listener-to1.go",RV+"listener-to1.go",RV+"ownersign.db.go",RV+"session.db.go"],
 [("nonce and signature check of the proof",RV+"listener-to1.go Handle32ProveToRV"),("registration lookup by device",RV+"listener-to1.go Handle30HelloRV")],
 [("registration","owner blob and voucher stored for a device identifier",RV+"ownersign.db.go OwnerSignDB"),("session","nonce and device identifier of a running exchange",RV+"session.db.go SessionDB")],["HTTP answer to message 32"])
p("P02","Only the proven current owner can register a device for rendezvous",
 "The rendezvous server accepts a registration exactly when it carries the nonce of its own live session, a voucher whose whole delegation chain verifies, an owner signature by the last owner named in that voucher, a hash binding the signature to the submitted data, and addresses that can be used. A refused registration leaves every stored registration as it was.",
 ["histories","inputs","schedules"],"all sequences of registration attempts over several sessions and devices, with every single defect of voucher, signature, hash, nonce, session and encoding, at every position of the delegation chain",
 "No test reaches the registration handler; forged vouchers differ from valid ones in one of dozens of places and a handful of samples cannot cover them.",
 [RV+"listener-to0.go","core/shared/voucher.go"],
 [("acceptance of the owner's blob",RV+"listener-to0.go Handle22OwnerSign"),("delegation chain verification","core/shared/voucher.go OwnershipVoucher.Validate / VerifyEntries")],
 [("registration","owner blob and voucher stored for a device identifier",RV+"ownersign.db.go OwnerSignDB")],["HTTP answer to message 22","stored registrations"])
p("P03","A registration lives exactly as long as agreed and is replaced by the next one",
 "The lifetime announced for a registration is the requested one capped at thirty days, and the registration is available for that long and not longer. A newly accepted registration for the same device replaces the earlier one including its lifetime, and registrations of other devices are never affected.",
 ["histories","inputs"],"all requested lifetimes over the 32-bit range and all histories of registrations, replacements and expiries of several devices",
 "Lifetimes are never exercised by a test; boundary values and replacement orders form an unbounded set of histories.",
 [RV+"listener-to0.go",RV+"ownersign.db.go",RV+"session.db.go"],
 [("lifetime cap",RV+"listener-to0.go"),("stored expiry",RV+"ownersign.db.go OwnerSignDB.Save")],
 [("expiry","time at which a stored registration vanishes",RV+"ownersign.db.go OwnerSignDB.Save")],["wait seconds announced in message 23","expiry of the stored registration"])
D="core/do/to2/"
p("P04","The owner onboarding protocol advances strictly in order",
 "In each onboarding session the owner service answers a message only when the session has reached the stage at which that message is due; everything else gets a protocol error naming the refused message and leaves the session, and every other session, unchanged. Each answer is bound to the session it belongs to: voucher entries are returned for the device of the session and the index asked for, and the final message is answered only to the session's own nonce.",
 ["histories","schedules","inputs"],"all message orders, repetitions and interleavings over several onboarding sessions and devices",
 "The existing tests touch no handler; orderings of six messages over several sessions are unbounded.",
 [D+"listener-to2-60-HelloDevice.go",D+"listener-to2-62-GetOVNextEntry.go",D+"listener-to2-64-ProveDevice.go",D+"listener-to2-66-DeviceServiceInfoReady.go",D+"listener-to2-68-DeviceServiceInfo.go",D+"listener-to2-70-Done.go",D+"common.go"],
 [("stage gate of every message",D+"common.go receiveAndVerify / receiveAndDecrypt")],
 [("stage","last message answered in a session","core/do/dbs/session.db.go")],["HTTP answers to messages 60-70"])
p("P05","Ownership is handed over only to the authentic device, by the authentic owner",
 "The owner service completes the proof step only for a message signed by the device key certified in that device's voucher, over the nonce of the session and with a usable key exchange; the setup it returns is encrypted and carries the device's own nonce, identifier and owner key. The owner's opening answer is signed by the final owner key of the voucher, repeats the device's nonce, hash of its greeting and voucher header, and states the number of delegation entries.",
 ["histories","inputs","configurations"],"all device and owner key types, all key exchange suites, and every single defect of a proof message",
 "No test performs an onboarding; forged proofs and mixed-up sessions cannot be enumerated by hand.",
 [D+"listener-to2-60-HelloDevice.go",D+"listener-to2-64-ProveDevice.go","core/shared/signing.cose.go"],
 [("device proof verification",D+"listener-to2-64-ProveDevice.go ProveDevice64"),("owner proof construction",D+"listener-to2-60-HelloDevice.go HelloDevice60")],
 [("session nonces","nonces issued and received in the session","core/do/dbs/session.db.go")],["messages 61 and 65"])
p("P06","Both ends agree on the session key and only authentic ciphertext is accepted",
 "For every supported key exchange and cipher suite, device and owner derive the same session key, equal to the one the FIDO onboarding specification defines, and whatever one end encrypts the other decrypts to the identical bytes. Anything else - altered, truncated or re-labelled ciphertext, another session's key, plaintext - is refused without a crash, and protected payloads never travel in clear.",
 ["inputs","configurations"],"all key exchange and cipher suites, all randomness including values with leading zero bytes, all payload lengths, every single-field alteration of an encrypted message",
 "The existing test encrypts one constant with one suite; one key exchange in a hundred has a leading zero byte and tampering has countless forms.",
 ["core/shared/kex.crypto.go","core/shared/enc.crypto.go","core/shared/ccm/ccm.go"],
 [("key exchange","core/shared GenerateXABKeyExchange / DeriveSessionKey"),("encryption wrapping","core/shared AddEncryptionWrapping / RemoveEncryptionWrapping")],
 [("session key","secret shared by both ends","core/shared SessionKeyInfo")],["wire bytes of messages 65-71"])
p("P07","Service information is exchanged completely, in order, exactly once",
 "The owner service hands out its own service information only after the device has delivered every mandatory item about itself, in any split over messages; it then delivers each of its own items exactly once and in order, one message at a time, marking completion on the last one and only there. While the device says more is coming it sends nothing of its own, and after completion it accepts no further service information.",
 ["histories","inputs"],"all ways of splitting the device's items over messages, all omissions and malformed items, all numbers of owner items",
 "No test drives the exchange; the splits and omissions are combinatorial.",
 [D+"listener-to2-66-DeviceServiceInfoReady.go",D+"listener-to2-68-DeviceServiceInfo.go",D+"common.go"],
 [("mandatory item check",D+"common.go ValidateDeviceSIMs"),("owner item cursor",D+"listener-to2-68-DeviceServiceInfo.go")],
 [("cursor","next owner item to send","core/do/dbs/session.db.go")],["messages 67 and 69"])
p("P08","A voucher is accepted exactly when its whole chain of custody is intact",
 "A voucher passes validation if and only if its versions match, the certificate chain matches its hash, and every delegation entry is signed by the key named before it and carries the right hashes of its predecessor and of the header. Any defect in any entry, hash, key, certificate or order is refused without a crash, and every voucher this tool generates itself, for every supported key type, is accepted and survives storage and export unchanged.",
 ["inputs","configurations"],"vouchers of every length and key type with every single defect at every position, and combinations of defects",
 "There is no test for voucher validation in the stable set; a sample of vouchers cannot show that no defect slips through.",
 ["core/shared/voucher.go","core/device/genvoucher.go","core/device/genvoucher_with_provided_keys.go","core/do/to0/common.go","core/do/dbs/voucher.db.go"],
 [("validation","core/shared/voucher.go OwnershipVoucher.Validate"),("generation","core/device NewVirtualDeviceAndVoucher")],
 None,["result of validating, storing and re-reading a voucher"])
p("P09","The tool's clients refuse every answer that breaks the protocol or its proofs",
 "The device side of rendezvous and onboarding accepts a server's answer only if it is the due message, decodes, and proves what it must: nonces and hashes of this session, the owner's signature, the voucher's header and every entry chained to the previous one, encryption under the session key, and completion echo. Any deviating answer makes the step fail with an error, without a crash and without the device continuing.",
 ["inputs","fault_sequences","configurations"],"every single deviation of every answer at every stage, including transport failures and truncated answers, for all key types and suites",
 "The device is only exercised by hand against live servers; hostile servers and faults at each stage are never sampled.",
 ["core/device/to1","core/device/to2"],
 [("owner verification","core/device/to2 HelloDevice60 / GetOVNextEntry62 / ProveDevice64"),("rendezvous answer verification","core/device/to1 HelloRV30 / ProveToRV32")],
 [("requestor","nonces, hashes and keys held by the device during a run","core/device/to2 To2Requestor")],["result of each device step"])
p("P10","Protocol sessions are isolated, unguessable and short lived",
 "Every opened session gets its own fresh token and nonce, and a token is honoured only by the protocol and session it was issued for, for ten minutes from the opening and never longer, however often it is used. Unknown, expired, foreign or malformed tokens are refused with a protocol error, without a crash and without touching any session.",
 ["histories","inputs","schedules"],"all interleavings of sessions of all protocols on one service, with expiry at any point and arbitrary authorization headers",
 "No test opens a session; isolation and expiry quantify over all histories.",
 ["core/rv/session.db.go","core/do/dbs/session.db.go","core/shared/transport.go"],
 [("session lookup","core/rv/session.db.go / core/do/dbs/session.db.go")],
 [("session entry","state stored under a token with an expiry","core/do/dbs/session.db.go")],["answers to any message carrying a token"])
p("P11","No input crashes a protocol service or changes state when it is refused",
 "Whatever bytes, headers, methods or broken connections arrive at a protocol endpoint, it answers with either the due message or a well formed protocol error that names the message it refuses. It never crashes, and a refused request leaves registrations, vouchers and sessions exactly as they were.",
 ["inputs","fault_sequences","histories"],"all byte strings, headers, methods and cut connections, at every stage of every protocol",
 "Arbitrary input is an unbounded set that the existing tests do not touch.",
 ["core/rv","core/do/to2","core/shared/comms.go","core/shared/cbor.go","core/shared/error.go"],
 [("request gate","core/shared CheckHeaders"),("error answers","core/shared RespondFDOError")],None,["HTTP answers"])
L="core/shared/testcom/listener/"
p("P12","A device under test passes or fails by what it really did",
 "While a device is being tested, every listed test of the run is given to it and judged exactly once and in order: the test of a defective answer passes only if the device then stops using that session, and fails if it carries on with it; the positive test of a message passes only once the device has sent that message properly. A run is complete exactly when all its tests are judged, and a verdict, once given, is never lost, changed, duplicated, or credited to another test, run or device.",
 ["histories","inputs"],"all behaviours of a device (stopping, continuing, restarting, erring, repeating) over all test lists, several runs and several devices",
 "No test exercises the listener; device behaviours and their interleaving with run management are unbounded.",
 [L+"listenert.db.go",L+"testrun.go",L+"factory.go","core/shared/testcom/dbs/listener.db.go","core/shared/conformance.go","core/rv/listener-to1.go",D+"listener-to2-60-HelloDevice.go"],
 [("verdict rules",L+"listenert.db.go"),("persistence","core/shared/testcom/dbs/listener.db.go")],
 [("run","tests delivered so far and their verdicts",L+"listenert.db.go")],["recorded test runs"])
p("P13","A server test run gives a true verdict for every listed test and always ends",
 "Each conformance run against a server records one verdict for every listed test, and that verdict is success exactly when the server behaved as the protocol requires: a valid exchange when the request is valid, a proper protocol error when the request carries a defect. Tests may be left out only after a failure in the exchange they depend on. Whatever the server answers, including nothing at all, the run ends with a final state and its results are stored under that run only.",
 ["fault_sequences","inputs","histories"],"all behaviours of a server at each step: correct, permissive, wrong, silent, malformed, for every test",
 "The runners are never executed by a test; server behaviours per step multiply beyond any sample.",
 ["testexec","core/shared/testcom/dbs/reqt.db.go","core/shared/testcom/request/rvt.db.go"],
 [("run execution","testexec ExecuteRVTestsTo0 / ExecuteRVTestsTo1 / ExecuteDOTestsTo2"),("run records","core/shared/testcom/dbs/reqt.db.go")],
 [("run record","state and results of a run","core/shared/testcom/request/rvt.db.go")],["stored runs and verdicts"])
p("P14","Test management is reachable only by its owner",
 "Every management endpoint serves only a caller with a live login, and lists, starts, changes, downloads or deletes only what that login's own account has created. A logged out, expired, half-finished, invented or foreign login gains nothing and changes nothing.",
 ["histories","inputs"],"all sequences of logins, logouts, expiries, creations and requests of several users with any cookie and any identifier",
 "The API has no tests; access control must hold for all histories and identifiers.",
 ["api"],[("login check","api/commonapi"),("ownership check","api/testapi")],
 [("login session","account behind a cookie","dbs/session.db.go"),("ownership","what an account created","dbs/user.db.go")],["HTTP answers of the management API"])
p("P15","Management state reflects exactly the operations performed",
 "After any history of creating, running, listing and deleting tests, also with requests at the same time and restarts in between, what a user sees is exactly what that history implies: every created test appears once with the data it was created with and the runs it had, every deleted one is gone, and nothing else changed. Malformed requests get an error answer, crash nothing and change nothing.",
 ["histories","inputs","schedules"],"all histories of management operations by several users, with malformed requests interspersed",
 "No test covers the management state; histories are unbounded.",
 ["api","dbs","core/shared/testcom/dbs"],[("records","dbs/*.go"),("handlers","api/testapi/*.go")],
 [("test lists","tests and runs recorded for each account","dbs/user.db.go")],["list answers of the management API"])
p("P16","The tool's own reference services pass its own conformance tests",
 "The tool's rendezvous and onboarding services answer every positive conformance test correctly and refuse every negative one with a protocol error, and its own device completes every positive device test and stops at every defective answer it can recognise, for every seed and key type. A complete onboarding between the tool's own parts therefore succeeds from registration to completion, and the tool never reports its own conforming implementation as failing.",
 ["inputs","configurations","histories"],"all listed tests of all protocols, all random choices made by the tests, all supported key, exchange and cipher types",
 "The tests mutate messages at random positions, so single executions do not show that every mutation is detected.",
 ["core/do/to0","core/device/to1","core/device/to2","core/shared/testcom","core/rv",D],
 [("defect injection","core/shared/testcom fuzzers and per-message test cases")],None,["verdict of every test"])
p("P17","Killing and restarting the server loses no acknowledged state",
 "Whatever was acknowledged before the server process ended, at any moment and inside any request, is there unchanged when the next process opens the store: registrations with their remaining lifetime, protocol sessions at the stage they had reached, vouchers, logins, tests, verdicts and histories. A request cut off in the middle has taken effect completely or not at all (a test run cut off stays on record as unfinished), and the caller can repeat it and go on as if it had not been cut off.",
 ["crash_points","histories"],"every history of the three services and the management interface, ended before, inside and after any write of any request",
 "No test restarts anything; crash points multiply with histories.",
 ["core/rv","core/do/dbs","core/do/to2","core/shared/testcom/dbs","dbs","api"],
 [("one store behind every service","core/rv/*db.go, core/do/dbs, dbs/*.go"),("order of writes","handlers of core/rv, core/do/to2, api/testapi")],
 [("store","all badger entries of the database folder","dbs, core/*/dbs")],["answers of the next process","the store between requests"])
p("P18","Vouchers made, loaded, moved and reset by the command line are kept exactly",
 "A voucher generated, loaded, seeded or pushed by the command line is the one the services then use, with its own device credential, its own keys and the addresses it was made for: every voucher file is loaded, exactly those held are registered, listed and onboarded, and nothing else is. A reset removes all of its kind and only that, and a command killed in the middle or given unusable input leaves what was there before intact.",
 ["histories","crash_points","inputs"],"all sequences of commands on two machines with servers starting, stopping and being killed, and commands killed at any moment",
 "The command line is never run by a test; sequences of commands, machines and kills are unbounded.",
 ["main.go","core/do/to0","core/do/dbs","dbs","core/device","core/shared/testcom/dbs/listener.db.go"],
 [("commands","main.go"),("virtual devices and vouchers","core/device/common, core/do/dbs"),("resets","dbs/user.db.go, core/shared/testcom/dbs/listener.db.go")],
 [("store and folders","database, _dis and _vouchers folders","working directory of the binary")],["output and exit of commands","protocol answers of the servers","files in _dis and _vouchers"])
p("P19","Interop reports are exactly the completed protocol runs",
 "With interop reporting on, each TO0, TO1 and TO2 run that completes is reported exactly once by each side that takes part in it, naming its protocol, the device and the nonce agreed in that run, under the reporter's own token, and nothing else is ever reported. A dashboard that refuses, fails or is absent changes no answer and no outcome of any protocol.",
 ["inputs","histories","schedules"],"all protocol histories with every defect of every message, several sessions at the same time, and any behaviour of the dashboard",
 "No test enables reporting; that nothing false is ever reported must hold for all histories.",
 ["core/shared/interop.go","core/rv/listener-to0.go","core/rv/listener-to1.go",D+"listener-to2-70-Done.go","core/do/to0","main.go"],
 [("report","core/shared/interop.go SubmitIopLoggerEvent"),("places that report","core/rv/listener-to0.go, core/rv/listener-to1.go, listener-to2-70-Done.go, req-to0-22-OwnerSign.go, main.go")],
 None,["requests received by the dashboard"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80,x["title"]
    assert x["statement"].count(". ")<=2,(x["id"])
