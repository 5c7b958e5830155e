import s_api
import s_client
import s_do
import s_durable
import s_listener
import s_runs
import s_rv
import s_sys
import s_voucher

TRUST = ["Go's crypto, badger and the CBOR library are trusted",
         "cryptography is abstracted to ideal signatures and hashes in the specification; the driver realises each abstract message with real bytes"]


def rv(R):
    s_rv.run(R, {"par", "fuzz"})
    return "model_checking", TRUST


def do(R):
    s_do.run(R, {"par", "fuzz"})
    return "model_checking", TRUST


def both(R):
    s_rv.run(R, {"par", "fuzz"})
    s_do.run(R, {"par", "fuzz"})
    return "model_checking", TRUST


def voucher(R):
    s_voucher.run(R)
    return "model_checking", TRUST


def client(R):
    s_client.run(R)
    return "model_checking", TRUST


def runs(R):
    s_runs.run(R)
    return "model_checking", TRUST


def listener(R):
    s_listener.run(R)
    return "model_checking", TRUST


def api(R):
    s_api.run(R)
    return "model_checking", TRUST


def durable(R):
    s_durable.run(R)
    return "model_checking", TRUST


def system(R):
    s_sys.run(R)
    return "model_checking", TRUST


def interop(R):
    s_sys.run(R)
    s_rv.run(R, {"par"})
    s_do.run(R, {"par"})
    return "model_checking", TRUST


def selves(R):
    s_listener.run(R)
    s_runs.run(R)
    s_api.services(R)
    return "model_checking", TRUST


PLAN = {"P17": durable, "P18": system, "P19": interop, "P12": listener, "P16": selves, "P14": api, "P15": api, "P13": runs, "P09": client, "P08": voucher, "P01": rv, "P02": rv, "P03": rv, "P04": do, "P05": do, "P06": do, "P07": do, "P10": both, "P11": both}
RVNOTE = ("FdoRV.tla explored exhaustively for 1-2 devices, up to 3 sessions and 2 registrations with every single defect of every message; "
          "transitions, random and concurrent histories replayed into the real rendezvous handlers and every recorded event checked by TLC against the specification")
DONOTE = ("FdoDO.tla explored exhaustively for one session with every single defect of every message and for two sessions; transitions, random, "
          "altered and concurrent histories replayed into the real onboarding handlers over all key exchanges, suites and key types, every event checked by TLC")
CLAIMS = {"P01": RVNOTE, "P02": RVNOTE, "P03": RVNOTE, "P04": DONOTE, "P05": DONOTE, "P06": DONOTE, "P07": DONOTE,
          "P10": RVNOTE + "; " + DONOTE, "P11": RVNOTE + "; " + DONOTE}
CLAIMS["P08"] = ("FdoVoucher.tla: vouchers as terms, every pair of edits by anyone and every triple by an attacker explored exhaustively (no theft, custody); "
                 "those edit histories and longer simulated ones applied to real vouchers of every key type, each verdict, import, export and storage checked by TLC")
CLAIMS["P09"] = ("FdoClient.tla: the clients against every server - honest with any one damaged answer and any voucher edit, and an impostor with two edits - explored "
                 "exhaustively (no impostor gets past the proof); those behaviours played by a reference server against the library clients and the command line device, "
                 "each request and outcome checked by TLC")
CLAIMS["P13"] = ("FdoRuns.tla: the verdict of every listed test as a function of what went over the wire; the runners against an arbitrary server explored exhaustively "
                 "(true verdicts, nothing left out without cause, every run ends), and overlapping, deleted and repeated runs; those histories played to the real runners "
                 "through a proxy in front of the real services, every message, verdict and stored record checked by TLC")
CLAIMS["P12"] = ("FdoListener.tla: a device under test with several sessions, defects, early and unreadable messages, runs started, broken off and removed, explored "
                 "exhaustively (each test judged once, in order, by what the device did; complete iff all judged; verdicts never change); every transition and random histories "
                 "of several devices at the same time replayed into the real services and interface, each verdict and record checked by TLC")
APINOTE = ("FdoApi.tla: accounts, logins, tests and runs under every endpoint, caller and identifier explored exhaustively within bounds (isolation, ended logins stay ended, nothing "
           "disappears by itself, authority); those transitions with every kind of invalid cookie and body, random histories of several accounts, simultaneous requests, "
           "restarts and expiries replayed into the real interface, every answer and every account's lists after every operation checked by TLC")
CLAIMS["P14"] = CLAIMS["P15"] = APINOTE
CLAIMS["P16"] = ("FdoListener.tla, FdoRuns.tla and FdoApi.tla: what a conforming device and conforming services do at every test; the tool's own device (library and command line) under "
                 "all device tests, its services under all server tests directly and through the interface, over key types, exchanges and suites, every verdict checked by TLC")
CLAIMS["P17"] = ("FdoStore.tla: requests made of writes, killed at any of them, explored exhaustively (acknowledged means durable, nothing torn); FdoRV, FdoDO, FdoApi and FdoListener "
                 "histories replayed into the real services with the process ending between requests and at chosen writes inside them, every later answer and the store checked by TLC")
CLAIMS["P18"] = ("FdoSystem.tla: two machines, their command line, folders, stores and servers, kills in the middle of commands, explored exhaustively within bounds; walks covering every "
                 "class of its transitions and free ones played with the real binary, every output, file, registration and onboarding checked by TLC")
CLAIMS["P19"] = ("FdoSystem.tla, FdoRV.tla and FdoDO.tla say what the dashboard is told at each step; real binaries and in-process services driven through honest, damaged, concurrent and "
                 "crashing histories with a recording, a refusing and an absent dashboard, every report checked by TLC")
NOT_CLAIMED = {}
