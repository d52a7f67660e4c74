#!/usr/bin/env python3
"""Deterministic-simulation checks of huira.   run.py check ID | replay FILE | build [TARGET...] | list"""
import collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import TARGETS, PROPS  # noqa: E402

REPO = os.environ.get("HUIRA_REPO", "/repo")
BUILD = os.environ.get("HUIRA_SIM_BUILD", os.path.join(HERE, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
NW = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()

COMMON = ["-std=c++20", "-g1", "-I" + HERE + "/sim/include", "-I" + HERE + "/sim", "-I" + HERE + "/harness",
          "-I" + REPO + "/include", '-DHUIRA_DEFAULT_DATA_DIR="/simfs/data"', '-DHUIRA_VERSION="0.9.5"',
          "-fno-omit-frame-pointer", "-w", "-no-pie", "-fno-pie"]
FLAVOUR = {
    "tsan": dict(code=["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "--param",
                       "tsan-instrument-func-entry-exit=0", "-DFLAVOUR_TSAN"],
                 rt=["-O2", "-DSIM_TSAN", "-DSIM_MALLOC"],
                 link=["-rdynamic"]),
    "asan": dict(code=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
                       "-fno-sanitize-recover=undefined", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DFLAVOUR_ASAN"],
                 rt=["-O2", "-DSIM_ASAN"], link=["-fsanitize=address,undefined", "-rdynamic"]),
    "plain": dict(code=["-O1", "-DFLAVOUR_PLAIN"], rt=["-O2", "-DSIM_MALLOC"], link=["-rdynamic"]),
}


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = []
            for d, ds, fs in os.walk(base):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                with open(f, "rb") as fp:
                    h.update(fp.read())
            except OSError:
                pass
    return h.hexdigest()[:20]


def build(name):
    t = TARGETS[name]
    fl = FLAVOUR[t["flavour"]]
    srcs = [os.path.join(HERE, s) for s in t["src"]]
    rts = [os.path.join(HERE, s) for s in ["sim/rt.cpp"] + t.get("rt", [])]
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(HERE, "sim"), os.path.join(HERE, "harness")],
                    json.dumps([t, fl, COMMON]))
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(BUILD):
        if f.startswith(name + "-"):
            try:
                os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
    try:
        jobs, objs = [], []
        for i, s in enumerate(srcs + rts):
            isrt = s in rts
            cc = t.get("cc", "g++")
            o = os.path.join(tmp, "%d.o" % i)
            objs.append(o)
            cmd = [cc] + COMMON + (fl["rt"] + ["-fno-threadsafe-statics"] if isrt else fl["code"] + t.get("cflags", [])) + ["-c", s, "-o", o]
            jobs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in jobs:
            o = p.communicate()[0]
            if p.returncode:
                raise CheckError("compiling %s failed:\n%s" % (s, o[-6000:]))
        if t["flavour"] == "tsan":
            for s_, o in zip(srcs, objs):
                subprocess.run(["objcopy"] + [a for f in ("memcpy", "memmove", "memset")
                                              for a in ("--redefine-sym", "%s=sim_%s" % (f, f))] + [o], check=True)
        cmd = ["g++", "-no-pie"] + objs + ["-o", out + ".tmp"] + fl["link"] + t.get("link", []) + ["-lpthread", "-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, p.stdout[-6000:]))
        os.rename(out + ".tmp", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("built", name)
    return out


def build_all(names):
    res, errs = {}, []

    def go(n):
        try:
            res[n] = build(n)
        except CheckError as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(n,)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4000:detect_stack_use_after_return=0:disable_coredump=1:detect_container_overflow=0"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
ENV["TZ"] = "UTC"
ENV.pop("HUIRA_SIM_NOASLR", None)


class Worker:
    def __init__(self, binary, args, on_line=None, env=None):
        self.lines = []
        self.p = subprocess.Popen([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  env=env or ENV, cwd=BUILD, start_new_session=True)
        self.err = ""
        self.on_line = on_line
        self.t = threading.Thread(target=self._read)
        self.t.start()
        self.t2 = threading.Thread(target=self._read_err)
        self.t2.start()

    def _read(self):
        for l in self.p.stdout:
            try:
                d = json.loads(l, strict=False)
            except ValueError:
                d = {"event": "garbled", "line": l}
            self.lines.append(d)
            if self.on_line:
                self.on_line(d)

    def _read_err(self):
        self.err = self.p.stderr.read()[-4000:]

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass

    def wait(self):
        self.p.wait()
        self.t.join()
        self.t2.join()
        return self.p.returncode


def replay_many(binary, paths, timeout=300):
    """every file in its own fresh process"""
    out = []
    for p in paths:
        r = subprocess.run([binary, "replay", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV,
                           cwd=BUILD, timeout=timeout)
        if r.returncode:
            raise CheckError("replay of %s failed: %s" % (p, r.stderr[-2000:]))
        out.append(json.loads(r.stdout.strip().splitlines()[-1], strict=False))
    return out


def symbolise(binary, text):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{5,}", text)))
    if not pcs:
        return text
    p = subprocess.run(["addr2line", "-Cfs", "-e", binary] + [hex(int(x, 16) - 1) for x in pcs], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    ls = p.stdout.splitlines()
    for i, x in enumerate(pcs):
        if 2 * i + 1 < len(ls):
            fn = re.sub(r"\(.*", "", ls[2 * i])
            text = text.replace(x, "%s[%s]" % (fn, ls[2 * i + 1].split(" ")[0]))
    return text


def vclass(r):
    return r.split("|", 1)[0]


def vkey(r):
    """violation identity for the minimiser: class and message with the numbers blanked"""
    c, _, m = r.partition("|")
    if c in ("data-race",) or c.startswith("memory-error") or c in ("crash", "undefined-behaviour"):
        return c
    return c + "|" + re.sub(r"[0-9][0-9.e+\-]*|nan|inf", "#", m)[:60]


class Minimiser:
    def __init__(self, binary, text, key, seconds):
        self.key, self.deadline = key, time.time() + seconds
        self.head, self.items, nops, self.hops = [], [], 0, []
        drops = set()
        for l in text.splitlines():
            if l.startswith("# ops "):
                nops = int(l.split()[2])
            if l.startswith("drop "):
                drops.add(int(l.split()[1]))
            elif l.startswith(("preempt ", "choice ", "fault ")):
                self.items.append(l)
            elif not l.startswith("#"):
                self.head.append(l)
        self.ops = [i for i in range(nops) if i not in drops]
        self.nops = nops
        self.tmp = tempfile.mkdtemp(dir=BUILD, prefix="min-")
        self.procs = [subprocess.Popen([binary, "minrun"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, text=True, env=ENV, cwd=BUILD, start_new_session=True)
                      for _ in range(NW)]
        self.tests = 0

    def text(self, ops, items):
        keep = set(ops)
        return "\n".join(self.head + ["drop %d" % i for i in range(self.nops) if i not in keep] + items) + "\n"

    def batch(self, cands):
        """cands: list of (ops, items); index of the first that still fails, or None"""
        paths = []
        for i, c in enumerate(cands):
            p = os.path.join(self.tmp, "c%d" % i)
            with open(p, "w") as f:
                f.write(self.text(*c))
            paths.append(p)
        for pr, p in zip(self.procs, paths):
            pr.stdin.write(p + "\n")
            pr.stdin.flush()
        best = None
        for i, (pr, p) in enumerate(zip(self.procs, paths)):
            l = pr.stdout.readline()
            self.tests += 1
            try:
                d = json.loads(l, strict=False)
            except ValueError:
                continue
            if best is None and d["violation"] and vkey(d["violation"]) == self.key:
                best = i
        return best

    def reduce(self, get, put):
        n = 2
        cur = get()
        first = True
        while cur and time.time() < self.deadline:
            size = max(1, (len(cur) + n - 1) // n)
            chunks = [cur[i:i + size] for i in range(0, len(cur), size)]
            cands = []
            if first:
                cands.append([])
            for i in range(len(chunks)):
                cands.append([x for j, c in enumerate(chunks) for x in c if j != i])
            first = False
            hit = None
            for b in range(0, len(cands), NW):
                if time.time() > self.deadline:
                    break
                k = self.batch([put(c) for c in cands[b:b + NW]])
                if k is not None:
                    hit = cands[b + k]
                    break
            if hit is not None:
                cur = hit
                self.commit(put(cur))
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(cur), n * 2)

    def commit(self, c):
        self.ops, self.items = c

    def run(self):
        try:
            for _ in range(3):
                before = (len(self.ops), len(self.items))
                for kind in ("fault ", "preempt ", "choice "):
                    self.reduce(lambda: [x for x in self.items if x.startswith(kind)],
                                lambda c: (self.ops, [x for x in self.items if not x.startswith(kind) or x in set(c)]))
                self.reduce(lambda: self.ops, lambda c: (c, self.items))
                if (len(self.ops), len(self.items)) == before or time.time() > self.deadline:
                    break
        finally:
            for p in self.procs:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.text(self.ops, self.items)


def load_known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(match=re.compile(m.group(2)), replay=os.path.join(HERE, m.group(3)), text=m.group(4)))
    return out


def read_sets(path, acc):
    import array
    try:
        with open(path, "rb") as f:
            b = array.array("Q")
            b.frombytes(f.read())
    except OSError:
        return
    i = 0
    for k in range(3):
        n = b[i]
        acc[k].update(b[i + 1:i + 1 + n])
        i += 1 + n


def check(pid):
    prop = PROPS[pid]
    quick = TIER == "quick"
    known = load_known(pid)
    bins = build_all(sorted({s["target"] for s in prop["scenarios"]}))
    tbuild = time.time() - T0
    budget = float(os.environ.get("HUIRA_SIM_SECONDS", 0)) or prop.get("quick_s", 28) if quick else \
        float(os.environ.get("HUIRA_SIM_SECONDS", 0)) or prop.get("thorough_s", 600)
    work = tempfile.mkdtemp(dir=BUILD, prefix="run-%s-" % pid)
    seen_known = collections.Counter()
    try:
        # ---- determinism gate: the same runs in different processes, twice, different worker layouts
        gate_n = 16 if quick else 64
        gate = []
        for s in prop["scenarios"]:
            n = max(2, int(gate_n * s.get("gate", 1.0)))
            env2 = dict(ENV)
            env2["HUIRA_SIM_PADDING"] = "x" * 1777
            half = (n + 1) // 2
            gate.append((s, [[Worker(bins[s["target"]], ["run", s["name"], str(SEED), "0", "1", str(n), "600", work, "hashes"])],
                             [Worker(bins[s["target"]], ["run", s["name"], str(SEED), str(k), "2", str(half), "600", work, "hashes"],
                                     env=env2) for k in (0, 1)]]))
        ndet = 0
        for s, (a, b) in gate:
            for w in a + b:
                if w.wait() not in (0,):
                    raise CheckError("worker failed: %s" % w.err)
            ha = [l for l in a[0].lines if l["event"] == "summary"][0]["hashes"]
            hb = [[l for l in w.lines if l["event"] == "summary"][0]["hashes"] for w in b]
            hm = [hb[i % 2][i // 2] for i in range(len(ha)) if i // 2 < len(hb[i % 2])]
            for i, (x, y) in enumerate(zip(ha, hm)):
                if x != y:
                    raise CheckError("not deterministic: scenario %s seed %d run %d gave %s and %s" % (s["name"], SEED, i, x, y))
                ndet += 1
        # ---- seeded search
        acc = [set(), set(), set()]
        tot = collections.Counter()
        fired, probes, samples, per = collections.defaultdict(lambda: [0, 0]), collections.Counter(), [], {}
        viols = []
        stop_at = [None]
        searched = 0.0

        def mk(s):
            def on_line(d):
                if d.get("event") != "violation":
                    return
                d["scenario"], d["target"] = s["name"], s["target"]
                d["text"] = symbolise(bins[s["target"]], d["result"])
                for k in known:
                    if k["match"].search(s["name"] + ": " + d["text"]):
                        seen_known[k["text"]] += 1
                        return
                viols.append(d)
                if stop_at[0] is None:
                    stop_at[0] = time.time() + (3 if quick else 15)
            return on_line

        wsum = sum(s.get("weight", 1.0) for s in prop["scenarios"])
        for s in prop["scenarios"]:
            if viols:
                break
            secs = budget * s.get("weight", 1.0) / wsum
            ts = time.time()
            ws = [Worker(bins[s["target"]], ["run", s["name"], str(SEED), str(1000 + k), str(NW), "1000000000", "%.2f" % secs, work],
                         on_line=mk(s)) for k in range(NW)]
            while any(w.p.poll() is None for w in ws):
                time.sleep(0.05)
                if stop_at[0] and time.time() > stop_at[0]:
                    break
                if time.time() - ts > secs + 180:
                    break
            late = [w for w in ws if w.p.poll() is None]
            for w in late:
                w.p.terminate()
            te = time.time()
            while any(w.p.poll() is None for w in late) and time.time() - te < 20:
                time.sleep(0.05)
            for w in late:
                w.kill()
            for w in ws:
                rc = w.wait()
                if rc != 0 and w not in late:
                    raise CheckError("worker of %s ended with %s: %s" % (s["name"], rc, w.err))
            searched += time.time() - ts
            pr = collections.Counter()
            for w in ws:
                for l in w.lines:
                    if l.get("event") != "summary":
                        continue
                    for k in ("runs", "steps", "switches", "sim_ns", "accesses", "ops"):
                        tot[k] += l[k]
                        pr[k] += l[k]
                    for k, (a, b) in l["fired"].items():
                        fired[k][0] += a
                        fired[k][1] += b
                    for k, a in l["probes"].items():
                        probes[k] += a
                    if len(samples) < 6 and l["sample"]:
                        samples.append(s["name"] + " " + l["sample"][:600])
                    read_sets(l["sets"], acc)
            per[s["name"]] = dict(pr)
            if not viols and pr["runs"] == 0:
                raise CheckError("no run of %s finished" % s["name"])
        log("search done: %d runs" % tot["runs"])
        # ---- known findings: replay each
        for k in known:
            tgt = re.search(r"^# target (\S+)", open(k["replay"]).read(), re.M).group(1)
            r = replay_many(bins[tgt], [k["replay"]])[0]
            if r["violation"]:
                seen_known[k["text"]] += 1
        for k in known:
            if seen_known[k["text"]]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]), flush=True)
        # ---- gate and minimise violations
        reported = []
        keys = set()
        unrepro = []
        for d in viols:
            b = bins[d["target"]]
            key = vkey(d["result"])
            fkey = (d["scenario"], key if vclass(key) != "data-race" else re.sub(r"thread \d+", "", d["text"]))
            if fkey in keys or len(reported) >= (2 if quick else 6):
                continue
            r1, r2 = replay_many(b, [d["path"], d["path"]])
            if r1 != r2 or vkey(r1["violation"]) != key:
                unrepro.append("%s run %s: search %s, replays %s / %s" % (d["scenario"], d["run"], d["result"][:200], r1, r2))
                continue
            keys.add(fkey)
            text = open(d["path"]).read()
            m = Minimiser(b, text, key, 25 if quick else 120)
            mt = m.run()
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%d.replay" % (pid, d["scenario"], d["run"]))

            def write(body, r):
                with open(path, "w") as f:
                    f.write(body)
                    f.write("# property %s\n# target %s\n# violation %s\n# hash %s steps %d switches %d\n" % (
                        pid, d["target"], symbolise(b, r["violation"]).replace("\n", " "), r["hash"], r["steps"], r["switches"]))
            with open(path, "w") as f:
                f.write(mt)
            a1, a2 = replay_many(b, [path, path])
            if a1 != a2 or vkey(a1["violation"]) != key:
                write("\n".join(l for l in text.splitlines() if not l.startswith("# violation") and not l.startswith("# hash")) + "\n", r1)
                a1 = r1
            else:
                write(mt, a1)
            ops = subprocess.run([b, "replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                 env=dict(ENV, HUIRA_SIM_VERBOSE="1"), cwd=BUILD).stderr
            with open(path, "a") as f:
                f.write("".join("# op %s\n" % l for l in ops.splitlines()[:200] if l.strip()))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            print("  %s seed %d run %d: %s" % (d["scenario"], SEED, d["run"], symbolise(b, a1["violation"])[:1500]), flush=True)
            print("  minimised in %d executions to %d operations and %d schedule/fault decisions" % (
                m.tests, len(m.ops), len(m.items)), flush=True)
            reported.append(d)
        if unrepro and not reported:
            raise CheckError("a violation did not reproduce:\n" + "\n".join(unrepro[:5]))
        wall = time.time() - T0
        faults = {k: dict(fired=v[0], opportunities=v[1]) for k, v in sorted(fired.items())}
        ev = dict(
            property=pid, tier=TIER, seed=SEED, level="exploration",
            coverage=dict(
                evaluations=tot["runs"], distinct_nontrivial=len(acc[2]),
                rule="One evaluation is one simulated run: a workload, schedule and fault sequence drawn from (VERIF_SEED, run number). "
                     "Distinct: the hash of all its events (operations, results, scheduling decisions, context switches with their step, faults) "
                     "differs. Non-trivial: at least one scheduling decision or fault was taken, or at least two operations ran. " + prop.get("rule", ""),
                samples=samples or ["(no sample)"],
                distinct_interleavings=len(acc[0]), distinct_states=len(acc[1]),
                interleaving_measure="hash of (switch step, next thread) pairs and of every scheduling and fault decision of the run",
                state_measure=prop.get("state_measure", "fingerprints recorded by the scenario (operation kinds and outcomes)"),
                runs_per_hour=int(tot["runs"] / max(searched, 1e-9) * 3600), seeds_per_hour=int(tot["runs"] / max(searched, 1e-9) * 3600),
                simulated_seconds=tot["sim_ns"] / 1e9, simulated_steps=tot["steps"], context_switches=tot["switches"],
                workload_operations=tot["ops"], decisions_and_faults=faults, probes=dict(sorted(probes.items())),
                per_scenario=per, determinism_runs_compared=ndet, search_wall_s=round(searched, 1), build_wall_s=round(tbuild, 1),
                real_components=prop.get("real", []), stub_components=prop.get("stub", []),
                known_findings_seen=dict(seen_known)),
            assumptions=prop.get("assumptions", []), wall_s=round(wall, 2), violations=len(reported))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
        print("%s: %d runs, %d distinct, %d interleavings, %d states, %s" % (
            pid, tot["runs"], len(acc[2]), len(acc[0]), len(acc[1]), "VIOLATED" if reported else "held"), flush=True)
        return 1 if reported else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        return check(sys.argv[2])
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        text = open(sys.argv[2]).read()
        tgt = re.search(r"^# target (\S+)", text, re.M)
        if tgt:
            tgt = tgt.group(1)
        else:
            sc = re.search(r"^scenario (\S+)", text, re.M).group(1)
            tgt = [s["target"] for p in PROPS.values() for s in p["scenarios"] if s["name"] == sc][0]
        b = build(tgt)
        p = subprocess.run([b, "replay", os.path.abspath(sys.argv[2])], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=dict(ENV, HUIRA_SIM_VERBOSE="1"), cwd=BUILD)
        print(p.stderr)
        d = json.loads(p.stdout.strip().splitlines()[-1], strict=False)
        print(symbolise(b, d["violation"]) if d["violation"] else "no violation", "hash", d["hash"])
        return 1 if d["violation"] else 0
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        build_all(sys.argv[2:] or sorted(TARGETS))
        return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "list":
        for k, v in PROPS.items():
            print(k, [s["name"] for s in v["scenarios"]])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR:", e, file=sys.stderr, flush=True)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
