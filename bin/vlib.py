"""Shared machinery: build the driver, run TLC, replay specification behaviours
into the real code, validate the recorded traces, report."""
import collections, concurrent.futures, glob, hashlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = os.cpu_count() or 4


def specs_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg"))):
        if not os.path.basename(f).startswith("Trace"):
            h.update(open(f, "rb").read())
    return h.hexdigest()[:12]


class ToolError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                          text=True, errors="replace")


class Run:
    """One check run: a scratch directory, counters and the findings."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.distinct = 0
        self.transitions = 0
        self.events = 0
        self.traces = 0
        self.viols = []          # dicts: suite, tr, i, tags, event
        self.samples = []
        self.notes = []
        self.suites = {}
        self.scripts = {}        # (suite, tr) -> script
        self.bin = None
        self.opcount = collections.Counter()

    # -- build ------------------------------------------------------------
    def build(self, *flags):
        if os.environ.get("VERIF_DEBUG_BIN"):  # development only
            self.bin = os.environ["VERIF_DEBUG_BIN"]
            return
        out = os.path.join(self.work, "driver")
        r = sh(["bash", os.path.join(VERIF, "bin", "build.sh"), out] + list(flags), timeout=800)
        if r.returncode != 0 or not os.path.exists(out):
            raise ToolError("driver does not build:\n" + r.stdout[-4000:])
        self.bin = out

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, workers=1, timeout=800, env=None, args=(), heap="3g"):
        md = tempfile.mkdtemp(prefix="md-", dir=self.work)
        jtmp = tempfile.mkdtemp(prefix="jt-", dir=self.work)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + jtmp,
               "-cp", JAR + ":" + community(), "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg, *args, module]
        r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        shutil.rmtree(jtmp, ignore_errors=True)
        return r

    def model_check(self, module, cfg, workers=NCPU, timeout=800, edges=False, args=(), name=None, heap="8g"):
        """Exhaustively check a specification; optionally return its transitions."""
        t = time.time()
        cfgp = cfg
        cache = os.environ.get("VERIF_EDGES")  # development only
        cache = cache and os.path.join(cache, os.path.basename(cfg) + "-" + specs_hash() + (".edges" if edges else ".none"))
        if cache and os.path.exists(cache):
            return pickle.load(open(cache, "rb"))
        if edges:
            s = open(os.path.join(SPEC, cfg)).read()
            s = re.sub(r"EmitEdges\s*=\s*FALSE", "EmitEdges = TRUE", s)
            cfgp = os.path.join(self.work, "edges-" + os.path.basename(cfg))
            open(cfgp, "w").write(s)
            workers = 1
        r = self.tlc(module, cfgp, workers=workers, timeout=timeout, args=args, heap=heap)
        out = r.stdout
        if "No error has been found" not in out:
            raise ToolError("specification %s/%s does not check:\n%s" % (module, cfg, "\n".join(
                l for l in out.splitlines() if not l.startswith('"EDGE'))[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        g, d = int(m.group(1)), int(m.group(2))
        self.transitions += g
        self.distinct += d
        self.states += d
        self.suites[name or cfg] = {"states": d, "transitions": g, "seconds": round(time.time() - t, 1)}
        if not edges:
            if cache:
                pickle.dump(None, open(cache, "wb"))
            return None
        es = []
        for line in out.splitlines():
            if line.startswith('"EDGE '):
                x = json.loads(json.loads(line)[5:])
                es.append((json.dumps(x["f"], sort_keys=True), x["q"], json.dumps(x["t"], sort_keys=True)))
        if not es:
            raise ToolError("no transitions emitted by %s" % cfg)
        if cache:
            pickle.dump(es, open(cache, "wb"))
        return es

    def slips(self, module, cfg, slips, timeout=300):
        """The stated properties are not vacuous: each deliberate mistake in the model breaks one."""
        if os.environ.get("VERIF_EDGES"):  # development only
            return
        s = open(os.path.join(SPEC, cfg)).read()

        def one(x):
            p = os.path.join(self.work, "slip-%s-%s" % (x.replace(" ", "_"), cfg))
            open(p, "w").write(re.sub(r'Slip\s*=\s*""', 'Slip = "%s"' % x, s))
            r = self.tlc(module, p, workers=2, timeout=timeout, heap="3g")
            m = re.search(r"(?:Invariant|property|Action property|Temporal properties)\s*(\w*)\s*(?:is|were) violated", r.stdout)
            if not m:
                raise ToolError("the mistake %r in %s breaks nothing:\n%s" % (x, module, r.stdout[-1500:]))
            return x, m.group(1)

        with concurrent.futures.ThreadPoolExecutor(max_workers=3) as ex:
            got = dict(ex.map(one, slips))
        self.notes.append({"model": module, "mistakes_caught": got})

    # -- driver -----------------------------------------------------------
    def drive(self, suite, scripts, timeout=800, env=None):
        """Run scripts through the real code; returns the list of event lines per trace."""
        if not scripts:
            return []
        inp = os.path.join(self.work, suite + ".scripts")
        out = os.path.join(self.work, suite + ".events")
        with open(inp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
                self.scripts[(suite, s["id"])] = s
        r = sh([self.bin, "run", inp, out], timeout=timeout, env=env)
        if r.returncode == 2 and re.search(r"^(panic:|fatal error:)", r.stdout, re.M) and "out of memory" not in r.stdout:
            # the process died, and with it every service in it
            m = re.search(r"^(?:panic:|fatal error:)", r.stdout, re.M)
            self.broken(suite, {"op": "died", "tr": "-", "i": 0, "why": r.stdout[m.start():][:1500]})
            return []
        if r.returncode != 0:
            raise ToolError("driver failed (%d) on %s:\n%s" % (r.returncode, suite, r.stdout[-4000:]))
        if os.environ.get("VERIF_TIMES"):  # development only
            print(suite, sorted(((float(a), b) for a, b in re.findall(r"^ *(\d+\.\d) (\S+)$", r.stdout, re.M)), reverse=True)[:3])
        traces, cur = [], None
        with open(out) as f:
            for line in f:
                e = json.loads(line)
                if e["op"] == "broken":
                    self.broken(suite, e)
                    continue
                if e["op"] == "reset":
                    cur = []
                    traces.append(cur)
                cur.append(line)
                self.opcount[suite + ":" + e["op"]] += 1
        os.unlink(out)
        return traces

    def broken(self, suite, e):
        """A history that could not be played to its end: no behaviour of the specification looks like that."""
        self.viols.append({"suite": suite, "module": "-", "tr": e["tr"], "i": e["i"], "tags": [self.prop + ":" + e["op"]], "event": e})

    def validate(self, suite, module, traces, timeout=850, cfg="Trace.cfg", env=None):
        """Validate recorded traces against a trace specification."""
        if not traces:
            return []
        t = time.time()
        total = sum(len(x) for x in traces)
        nchunk = max(1, min(NCPU - 1, total // 1500 + 1))
        chunks = [[] for _ in range(nchunk)]
        sizes = [0] * nchunk
        for tr in sorted(traces, key=len, reverse=True):
            j = sizes.index(min(sizes))
            chunks[j].append(tr)
            sizes[j] += len(tr)
        viols = []

        def one(j):
            lines = [l for tr in chunks[j] for l in tr]
            p = os.path.join(self.work, "%s.%d.ndjson" % (suite, j))
            with open(p, "w") as f:
                f.writelines(lines)
            e = {"TRACE": p}
            if env:
                e.update(env)
            r = self.tlc(module, cfg, workers=1, timeout=timeout, env=e)
            if "No error has been found" not in r.stdout:
                # find the line reached
                keep = os.path.join(tempfile.gettempdir(), "verif-last-reject.ndjson")
                shutil.copy(p, keep)
                msg = "\n".join(r.stdout.splitlines()[-40:])
                raise ToolError("trace validation stopped (%s, chunk %d):\n%s" % (suite, j, msg))
            m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
            if int(m.group(2)) < len(lines) + 1:
                raise ToolError("trace not consumed: %s of %d" % (m.group(2), len(lines)))
            vs = []
            for line in r.stdout.splitlines():
                if line.startswith('"VIOL '):
                    v = json.loads(json.loads(line)[5:])
                    ev = json.loads(lines[v["line"] - 1])
                    assert ev["tr"] == v["tr"]
                    vs.append({"suite": suite, "module": module, "tr": v["tr"], "i": v["i"], "tags": sorted(v["tags"]), "event": ev})
            return vs

        with concurrent.futures.ThreadPoolExecutor(max_workers=nchunk) as ex:
            for vs in ex.map(one, range(nchunk)):
                viols += vs
        self.events += total
        self.traces += len(traces)
        st = self.suites.setdefault(suite, {})
        st["traces"] = st.get("traces", 0) + len(traces)
        st["events"] = st.get("events", 0) + total
        st["validate_seconds"] = round(st.get("validate_seconds", 0) + time.time() - t, 1)
        self.viols += viols
        if traces and len(self.samples) < 6:
            tr = traces[len(traces) // 2]
            ev = json.loads(tr[min(len(tr) - 1, 2)])
            self.samples.append({"suite": suite, "trace": ev["tr"], "events": len(tr), "example": {k: ev[k] for k in list(ev)[:14]}})
        return viols

    def replay(self, suite, module, scripts, **kw):
        traces = self.drive(suite, scripts)
        return self.validate(suite, module, traces, **kw)

    # -- report -----------------------------------------------------------
    def finish(self, level, assumptions, extra=None, rerun=None):
        known = load_known()
        mine, other = [], collections.Counter()
        for v in self.viols:
            tags = [t for t in v["tags"] if t.startswith(self.prop + ":") or os.environ.get("VERIF_ANY")]  # development only
            if tags:
                v = dict(v)
                v["tags"] = tags
                mine.append(v)
            for t in v["tags"]:
                if not t.startswith(self.prop + ":"):
                    other[t] += 1
        new, seen_known = [], {}
        for v in mine:
            k = match_known(known, self.prop, v)
            if k:
                seen_known.setdefault(k["id"], (k, []))[1].append(v)
            else:
                new.append(v)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level,
              "coverage": {"states": self.distinct, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "operations": dict(sorted(self.opcount.items())), "suites": self.suites, "samples": self.samples},
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(new)}
        if extra:
            ev["coverage"].update(extra)
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            if k.get("property") == self.prop and k.get("status") == "known":
                n = len(seen_known.get(k["id"], (0, []))[1])
                print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (self.prop, k["what"], n))
        rc = 0
        if new:
            rc = 1
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            groups = collections.OrderedDict()
            for v in new:
                groups.setdefault((v["suite"], tuple(v["tags"]), v["event"].get("op")), []).append(v)
            for n, (key, vs) in enumerate(list(groups.items())[:12]):
                vs.sort(key=lambda v: v["i"])
                v = vs[0]
                p = os.path.join(rd, "%s-%d.json" % (self.prop, n + 1))
                sc = self.scripts.get((v["suite"], v["tr"]))
                if sc:
                    sc = dict(sc)
                    sc["ops"] = sc["ops"][:v["i"]]
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "suite": v["suite"], "module": v["module"], "tags": v["tags"],
                               "event": v["event"], "script": sc, "occurrences": len(vs)}, f, indent=1)
                print("VIOLATION property=%s replay=%s  %s at %s (%d times): %s" % (
                    self.prop, p, ",".join(v["tags"]), v["event"].get("op"), len(vs), brief(v["event"])))
        if other and os.environ.get("VERIF_DEBUG"):
            print("other properties' labels:", dict(other))
        print("%s %s: %s; %d states, %d transitions explored, %d traces / %d events validated, %.0fs" % (
            self.prop, TIER, "VIOLATED" if rc else "held", self.distinct, self.transitions, self.traces, self.events, time.time() - self.t0))
        return rc

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            print("kept", self.work)


def brief(ev):
    skip = {"tr", "i"}
    return json.dumps({k: v for k, v in ev.items() if k not in skip})[:700]


_comm = None


def community():
    global _comm
    if _comm is None:
        d = os.path.dirname(JAR)
        js = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR)]
        _comm = ":".join(js)
    return _comm


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def match_known(known, prop, v):
    """A finding matches only its own property, label and identifying arguments."""
    for k in known:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if any(t not in k["tags"] for t in v["tags"]):
            continue
        if all(v["event"].get(a) in vals for a, vals in k["match"].items()):
            return k
    return None


# ---- turning transitions into scripts --------------------------------------

def cover(edges, rng, budget, cls, walk_len=60, per_state=None):
    """Walks through the transition graph that together take every transition
    class at least once (cls(q, state) gives the class of an operation), and as many
    further transitions as the budget allows. budget counts operations."""
    out = collections.defaultdict(list)
    init = edges[0][0]
    for f, q, t in edges:
        out[f].append((q, t))
    # shortest way to every state
    path = {init: []}
    todo = collections.deque([init])
    while todo:
        s = todo.popleft()
        for q, t in out[s]:
            if t not in path:
                path[t] = path[s] + [q]
                todo.append(t)
    states = list(path)
    want = {}
    decoded = {f: json.loads(f) for f in path}
    for f, q, t in edges:
        want.setdefault((f, cls(q, decoded[f])), []).append((q, t))
    allc = collections.defaultdict(list)
    for (f, c), l in want.items():
        allc[c].append((f, l))
    # choose which (state, transition) pairs to take
    chosen = collections.defaultdict(list)
    n = 0
    classes = sorted(allc)
    for c in classes:
        f, l = rng.choice(allc[c])
        chosen[f].append(rng.choice(l))
        n += 1
    pool = [(f, q, t) for f, q, t in edges]
    rng.shuffle(pool)
    for f, q, t in pool:
        if n >= budget:
            break
        chosen[f].append((q, t))
        n += 1
    walks = []
    for f in states:
        if f not in chosen:
            continue
        loops = [q for q, t in chosen[f] if t == f]
        moves = [q for q, t in chosen[f] if t != f]
        rng.shuffle(loops)
        for i in range(0, len(loops), walk_len):
            w = path[f] + loops[i:i + walk_len]
            if moves:
                w = w + [moves.pop()]
            walks.append(w)
        for q in moves:
            walks.append(path[f] + [q])
    return walks, {"classes": len(classes), "edges_in_model": len(edges), "edges_replayed": n, "states_in_model": len(states)}
