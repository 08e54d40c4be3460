#!/usr/bin/env python3
"""Driver of the property checks.

  check.py Pxx [quick|thorough]     decide one property on /repo's working tree
  check.py --replay FILE            re-run one saved case
  check.py --setup                  build everything once (warms Go's build cache)
  check.py --all [quick|thorough]   all properties, one after another

Exit 0: held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken. Exit 2: no answer.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
KNOWN = os.path.join(HERE, "known-findings.txt")
SHARDS = 8

# property -> list of (package, test, build flags)
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GONOSUMDB="*", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e.pop("GOFLAGS_EXTRA", None)
    return e


class NoAnswer(Exception):
    pass


def build(pkg, out, race=False, overlay=None, tags=None):
    cmd = ["go", "test", "-c", "-o", out]
    if race:
        cmd.append("-race")
    if overlay:
        cmd += ["-overlay", overlay]
    if tags:
        cmd += ["-tags", tags]
    cmd.append(pkg)
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    if p.returncode != 0:
        raise NoAnswer("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def linebreak_overlay(tmp):
    """Package uax14 needs a file which the repository leaves to its generator: made here, in tmp."""
    d = os.path.join(tmp, "uax14")
    os.makedirs(os.path.join(d, "etc"))
    gen = os.path.join(d, "generator")
    r = subprocess.run(["go", "build", "-o", gen, "github.com/npillmayer/uax/uax14/internal/generator"], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    if r.returncode == 0:
        with open(os.path.join(d, "etc", "LineBreak.txt"), "w") as f:
            for line in open(os.path.join(HARNESS, "ref", "data", "Lb.txt")):
                a, b, c = line.split()
                if c != "XX":
                    f.write("%04X..%04X;%s\n" % (int(a, 16), int(b, 16), c))
        e = env()
        e["GOPATH"] = d
        r = subprocess.run([gen], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    out = os.path.join(d, "uax14classes.go")
    if r.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("class tables of uax14 cannot be generated\n" + r.stdout[-4000:])
    js = os.path.join(d, "overlay.json")
    with open(js, "w") as f:
        json.dump({"Replace": {"/repo/uax14/uax14classes.go": out}}, f)
    return js


def binaries(tests, tmp):
    """Builds one test binary per (package, race) pair."""
    bins = {}
    overlay = None
    for t in tests:
        key = (t["pkg"], bool(t.get("race")))
        if key in bins:
            continue
        out = os.path.join(tmp, "bin%d.test" % len(bins))
        if t.get("linebreak") and overlay is None and not os.path.exists("/repo/uax14/uax14classes.go"):
            overlay = linebreak_overlay(tmp)
        build("./" + t["pkg"], out, key[1], *((overlay, "linebreak") if t.get("linebreak") else ()))
        bins[key] = out
    # programs of the repository which a test runs
    for p in sorted({p for t in tests for p in t.get("programs", [])}):
        d = os.path.join(tmp, "programs")
        os.makedirs(d, exist_ok=True)
        cmd = ["go", "build", "-o", os.path.join(d, p.replace("/", "_")), "github.com/npillmayer/uax/" + p]
        r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
        if r.returncode != 0:
            raise NoAnswer("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return bins


def child_env(out, tmp, tier, shard, shards, budget=0):
    e = env()
    e["VERIF_PROGRAMS"] = os.path.join(tmp, "programs")
    e.update(VERIF_OUT=out, VERIF_TIER=tier, VERIF_BUDGET=str(budget), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
             VERIF_HARNESS=HARNESS, VERIF_REPO="/repo", VERIF_SCRATCH=out, GOMAXPROCS="2", GOMEMLIMIT="2GiB")
    e.pop("VERIF_REPLAY", None)
    e.pop("VERIF_STRICT", None)
    e["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
    return e


def run_shards(test, binary, tmp, tier, seed, limit, budget=0):
    """Runs one test in several processes; yields (shard, returncode, log)."""
    shards = test.get("shards", SHARDS)
    procs = []
    for sh in range(shards):
        h = hashlib.sha256(("%s/%s/%d" % (test["test"], seed, sh)).encode()).digest()
        rs = int.from_bytes(h[:8], "big") >> 1 or 1
        log = open(os.path.join(tmp, "log.%s.%d" % (test["test"], sh)), "w+b")
        out = os.path.join(tmp, "%s.%d" % (test["test"], sh))
        os.makedirs(out, exist_ok=True)
        p = subprocess.Popen(
            [binary, "-test.run", "^" + test["test"] + "$", "-test.timeout", "0", "-rapid.nofailfile",
             "-rapid.seed=%d" % rs, "-rapid.shrinktime=20s"],
            cwd=out, env=child_env(out, tmp, tier, sh, shards, budget), stdout=log, stderr=subprocess.STDOUT)
        procs.append((sh, p, log, out))
    deadline = time.time() + limit
    res = []
    pending = list(procs)
    while pending:
        for x in list(pending):
            if x[1].poll() is not None:
                pending.remove(x)
        if pending and time.time() > deadline:
            for x in pending:
                x[1].kill()
                x[1].wait()
            break
        time.sleep(0.02)
    for sh, p, log, out in procs:
        log.seek(0)
        text = log.read().decode("utf-8", "replace")
        log.close()
        res.append((sh, p.returncode, text, out))
    return res


def known_cases(prop):
    """Lines: 'known: property=<id> case=<file> <what fails>'."""
    res = []
    if not os.path.exists(KNOWN):
        return res
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("known: property=%s " % prop):
            continue
        rest = line.split(" ", 2)[2]
        case, what = rest.split(" ", 1)
        res.append((case[len("case="):], what))
    return res


def run_case(path, binary, tmp, strict=False):
    rec = json.load(open(path))
    e = child_env(tmp, tmp, "quick", 0, 1)
    e["VERIF_REPLAY"] = os.path.abspath(path)
    if strict:
        e["VERIF_STRICT"] = "1"
    p = subprocess.run([binary, "-test.run", "^" + rec["test"] + "$", "-test.timeout", "0", "-rapid.nofailfile"],
                       cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=600)
    return p.returncode, p.stdout


def save_replay(prop, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(rec, indent=1, ensure_ascii=True) + "\n"
    name = "%s-%s.json" % (prop, hashlib.sha256(b.encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(b)
    return path


def load_failure(out, test):
    """The failing case a shard left behind, if any."""
    for n in sorted(os.listdir(out)):
        if n.startswith("fail.") and n.endswith(".json"):
            return json.load(open(os.path.join(out, n)))
    return None


def load_current(out):
    for n in sorted(os.listdir(out)):
        if n.startswith("current."):
            try:
                return json.load(open(os.path.join(out, n)))
            except ValueError:
                return None
    return None


def decide(prop, tier, seed):
    t0 = time.time()
    tests = CHECKS[prop]["tests"]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations = []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "parts": []}
    try:
        bins = binaries(tests, tmp)
        for case, what in known_cases(prop):
            path = os.path.join(HERE, case)
            name = json.load(open(path))["test"]
            t = [x for x in tests if x["test"] == name][0]
            rc, log = run_case(path, bins[(t["pkg"], bool(t.get("race")))], tmp, strict=True)
            if rc == 0:
                print("note: known finding no longer fails: property=%s case=%s" % (prop, case))
            else:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        # regression cases, one plain file per case
        cdir = os.path.join(HERE, "corpus", prop)
        n_corpus = 0
        if os.path.isdir(cdir):
            for n in sorted(os.listdir(cdir)):
                path = os.path.join(cdir, n)
                name = json.load(open(path))["test"]
                ts = [x for x in tests if x["test"] == name]
                if not ts:
                    raise NoAnswer("corpus case without a test: " + path)
                rc, log = run_case(path, bins[(ts[0]["pkg"], bool(ts[0].get("race")))], tmp)
                n_corpus += 1
                if rc != 0:
                    violations.append((path, log[-3000:]))
        cov["regression_cases"] = n_corpus
        budget = (800 if tier == "quick" else 6 * 3600) - (time.time() - t0)
        for t in tests:
            if violations:
                break
            limit = max(60, budget - (time.time() - t0))
            # on a slow machine fewer cases are generated instead of running out of time
            soft = 300 // len(tests) if tier == "quick" else 3 * 3600 // len(tests)
            res = run_shards(t, bins[(t["pkg"], bool(t.get("race")))], tmp, tier, seed, limit, soft)
            part = {"test": t["test"], "evaluations": 0, "distinct_nontrivial": 0, "outside_domain": 0,
                    "rule": "", "classes": {}, "cut_short_by_time": False}
            hashes, samples, trouble = set(), [], []
            for sh, rc, log, out in res:
                rec = load_failure(out, t["test"])
                if rec is None and rc in (2, 3, 66):
                    # the process died without a verdict (crash in another goroutine, fatal error)
                    rec = load_current(out)
                    if rec is not None:
                        rec["error"] = "process ended with code %d\n%s" % (rc, log[-3000:])
                if rec is not None and rc != 0:
                    violations.append((save_replay(prop, rec), rec["error"]))
                    continue
                if rc != 0:
                    trouble.append("shard %d of %s ended with %s\n%s" % (sh, t["test"], rc, log[-2000:]))
                    continue
                for n in os.listdir(out):
                    if not n.startswith("stats."):
                        continue
                    s = json.load(open(os.path.join(out, n)))
                    part["evaluations"] += s["evaluations"]
                    part["outside_domain"] += s["skipped"]
                    part["rule"] = s["rule"]
                    part["cut_short_by_time"] |= s["cut_short"]
                    hashes.update(s["hashes"] or [])
                    for k, v in (s["classes"] or {}).items():
                        part["classes"][k] = part["classes"].get(k, 0) + v
                    samples += s["samples"] or []
            if trouble and not violations:
                raise NoAnswer("\n".join(trouble))
            part["distinct_nontrivial"] = len(hashes)
            if not violations and part["evaluations"] == 0:
                raise NoAnswer("no cases were evaluated by " + t["test"])
            samples.sort(key=lambda x: (len(x) < 30, hashlib.sha256(x.encode()).digest()))
            cov["samples"] += [{"test": t["test"], "case": json.loads(x)} for x in samples[:4]]
            cov["evaluations"] += part["evaluations"]
            cov["distinct_nontrivial"] += part["distinct_nontrivial"]
            cov["parts"].append(part)
        cov["rule"] = " || ".join("%s: %s" % (p["test"], p["rule"]) for p in cov["parts"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": CHECKS[prop].get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    seen = set()
    for path, msg in violations[:3]:
        if path in seen:
            continue
        seen.add(path)
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if violations:
        return 1
    print("OK property=%s tier=%s seed=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        if argv[0] == "--setup":
            tmp = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                binaries([t for c in CHECKS.values() for t in c["tests"]], tmp)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            print("setup ok")
            return 0
        if argv[0] == "--replay":
            rec = json.load(open(argv[1]))
            t = [x for x in CHECKS[rec["property"]]["tests"] if x["test"] == rec["test"]][0]
            tmp = tempfile.mkdtemp(prefix="verif-replay-")
            try:
                b = binaries([t], tmp)
                rc, log = run_case(argv[1], list(b.values())[0], tmp, strict="--strict" in argv)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            print(log)
            if rc != 0:
                print("VIOLATION property=%s replay=%s" % (rec["property"], argv[1]))
            return 1 if rc != 0 else 0
        if len(argv) > 1:
            tier = argv[1]
        if argv[0] == "--all":
            rcs = {p: decide(p, tier, seed) for p in sorted(CHECKS)}
            print({p: r for p, r in rcs.items() if r})
            return max(rcs.values())
        return decide(argv[0], tier, seed)
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        print("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
