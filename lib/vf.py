"""Common machinery of the checks: building the drivers, running TLC, verdicts and evidence.

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 tool error.
"""
import hashlib
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NOBODY = 65534
BUILD = os.path.join(VERIF, ".build")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class EvalError(ToolError):
    """TLC can't evaluate the specification."""


def log(*args):
    print(*args, flush=True)


def cargo_env(target):
    env = dict(os.environ)
    for key in list(env):
        if key.startswith("CARGO_") or key in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            del env[key]
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="1.94",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=target,
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        CARGO_PROFILE_DEV_DEBUG="0",
    )
    return env


def build(crate, args=(), bin=None, timeout=780):
    """Builds /verif/harness/<crate> from /repo's working tree, returns the path of its driver."""
    src = os.path.join(VERIF, "harness", crate)
    target = os.path.join(BUILD, "target", crate)
    started = time.time()
    cmd = ["cargo", "build", "--offline", "--quiet", "--message-format", "short", *args]
    proc = subprocess.run(
        cmd, cwd=src, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        timeout=timeout,
    )
    if proc.returncode != 0:
        log(proc.stdout[-6000:])
        raise ToolError(f"harness {crate} does not build")
    log(f"[build] {crate}: {time.time() - started:.1f}s")
    return os.path.join(target, "debug", bin or f"{crate}_driver")


class Check:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.started = time.time()
        self.counter = itertools.count()
        self.dir = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.violations = []  # [{"what":..., "case":...}]
        self.known = []
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
            "models": [],
            "conformance": [],
        }
        self.assumptions = []
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.findings = [k for k in json.load(f)["known"] if k["property"] == prop]

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---- drivers -----------------------------------------------------------------------------
    def drive_contained(self, binary, args, timeout=300, env=None, files=()):
        """As `drive`, for code that deletes or overwrites files: an unprivileged user with nothing but a
        scratch directory of its own, which is also its working directory."""
        scratch = tempfile.mkdtemp(prefix="vf-scratch-")
        try:
            copies = []
            for i, f in enumerate([binary, *files]):
                copies.append(os.path.join(scratch, f"{i}-{os.path.basename(f)}"))
                shutil.copy(f, copies[-1])
                os.chmod(copies[-1], 0o555)
            work = os.path.join(scratch, "work")
            os.mkdir(work)
            os.chown(work, NOBODY, NOBODY)
            os.chmod(scratch, 0o755)
            args = [copies[1 + files.index(a)] if a in files else a for a in args]
            return self.drive(copies[0], args, timeout=timeout, cwd=work, user=NOBODY,
                              env={**(env or {}), "HOME": work, "TMPDIR": work})
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def drive_shards(self, call, n, shards=6):
        """`call(n, shard)` for each shard, at the same time; all their episodes."""
        out = [None] * shards

        def one(k):
            try:
                out[k] = call(n // shards + (k < n % shards), k)
            except BaseException as ex:  # noqa: BLE001
                out[k] = ex

        threads = [threading.Thread(target=one, args=(k,)) for k in range(shards)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for r in out:
            if isinstance(r, BaseException):
                raise r
        return [ep for r in out for ep in r]

    def drive(self, binary, args, stdin=None, timeout=300, env=None, cwd=None, user=None):
        """Runs a driver. Its stdout is ndjson. A driver that dies or hangs does so inside the code
        under test (drivers catch panics and write `{"begin":n}` progress to stderr): that is data."""
        e = dict(os.environ)
        e.update(env or {})
        e["VERIF_SEED"] = str(self.seed)
        out = self.path(f"driver-{next(self.counter)}.out")
        with open(out, "wb") as f:
            proc = subprocess.Popen(
                [binary, *map(str, args)], stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                stdout=f, stderr=subprocess.PIPE, env=e, cwd=cwd or self.dir,
                **({"user": user, "group": user, "extra_groups": []} if user is not None else {}),
            )
            try:
                _, err = proc.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
            except subprocess.TimeoutExpired:
                proc.kill()
                _, err = proc.communicate()
                raise ToolError(f"driver {binary} {args}: timed out\n{err[-2000:]!r}")
        err = err.decode(errors="replace")
        lines = []
        with open(out, encoding="utf-8") as f:
            for line in f:
                line = line.rstrip("\n")
                if not line.startswith("{"):
                    continue  # something the code under test printed
                try:
                    lines.append(json.loads(line))
                except ValueError:
                    if proc.returncode == 0:
                        raise ToolError(f"driver {binary}: bad output line {line[:200]!r}")
        if proc.returncode == 3:
            # The driver's watchdog: the code under test does not come back.
            m = re.findall(r"^HANG (.*)$", err, re.M)
            self.violation("the code under test does not terminate", {"case": m[-1] if m else err[-500:]})
        elif proc.returncode != 0 and proc.returncode < 0:
            # A signal: abort, stack overflow, ...
            m = re.findall(r"^AT (.*)$", err, re.M)
            self.violation(
                f"the code under test dies with signal {-proc.returncode}", {"case": m[-1] if m else err[-500:]}
            )
        elif proc.returncode == 101 and "os error" not in err:
            # A panic that isn't the environment's doing: something came out of the code that can't
            m = re.findall(r"^AT (.*)$", err, re.M)
            self.violation("the driver panics on what the code under test does", {"case": m[-1] if m else None, "says": err[-1500:]})
        elif proc.returncode != 0:
            raise ToolError(f"driver {binary} {args}: exit {proc.returncode}\n{err[-3000:]}")
        return lines

    # ---- TLC ---------------------------------------------------------------------------------
    def tlc(self, area, module, cfg=None, env=None, workers=1, extra=(), timeout=600, heap="6g", allow_violation=False):
        spec_dir = os.path.join(VERIF, "spec", area)
        meta = self.path(f"meta-{module}-{next(self.counter)}")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = [
            "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={VERIF}/spec/lib",
            "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
            "-config", cfg or f"{module}.cfg", *extra, f"{module}.tla",
        ]
        started = time.time()
        try:
            proc = subprocess.run(
                cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
            )
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {module}: timed out after {timeout}s")
        out = proc.stdout.decode(errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        res = {"out": out, "rc": proc.returncode, "wall": round(time.time() - started, 2)}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res["generated"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        res["depth"] = int(m[-1]) if m else None
        if proc.returncode != 0 and not (allow_violation and proc.returncode in (10, 11, 12, 13)):
            log(out[-6000:])
            raise (EvalError if proc.returncode == 75 else ToolError)(f"TLC {module}: exit {proc.returncode}")
        return res

    def model(self, area, module, cfg=None, workers=8, timeout=600, **kw):
        """Exhaustive model check of the specification itself: an error here is an error of the spec."""
        r = self.tlc(area, module, cfg, workers=workers, timeout=timeout, **kw)
        if "Model checking completed. No error has been found" not in r["out"] and "-simulate" not in kw.get("extra", ()):
            log(r["out"][-3000:])
            raise ToolError(f"TLC {module}: did not complete")
        self.cov["states"] += r.get("distinct", 0)
        self.cov["transitions"] += r.get("generated", 0)
        self.cov["models"].append(
            {"module": module, "cfg": cfg or f"{module}.cfg", "generated": r.get("generated"),
             "distinct": r.get("distinct"), "depth": r["depth"], "wall_s": r["wall"]}
        )
        log(f"[model] {module}: {r.get('generated')} states generated, {r.get('distinct')} distinct, {r['wall']}s")
        return r

    @staticmethod
    def printed(out, tag):
        """Values printed by TLC as PrintT(<<tag, ToJson(value)>>) -> list of decoded values."""
        res = []
        prefix = f'<<"{tag}", "'
        for line in out.splitlines():
            if line.startswith(prefix) and line.endswith('">>'):
                body = line[len(prefix):-3]
                res.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
        return res

    def validate(self, area, module, episodes, what, cfg=None, env=None, corrupt=None, ncorrupt=12, timeout=600,
                 describe=None, known=None, shards=None, heap="4g", key="events"):
        """Checks recorded episodes against the specification with TLC.

        `episodes`: list of {"events": [...], ...}. The trace spec consumes them all and reports the ones it
        rejects (PrintT BAD). `corrupt(rng, episode)` returns a copy with one recorded observation altered
        (or None): TLC must reject each of them, or the check has no teeth and fails as a tool error."""
        if not episodes:
            raise ToolError(f"{what}: no episodes were recorded")
        sources = []  # of the corrupted episodes
        all_eps = list(episodes)
        if corrupt:
            tries = 0
            order = self.rng.sample(range(len(episodes)), len(episodes))
            for i in order:
                if len(sources) >= ncorrupt or tries > 40 * ncorrupt:
                    break
                tries += 1
                try:
                    c = corrupt(self.rng, json.loads(json.dumps(episodes[i])))
                except (KeyError, IndexError, TypeError, ValueError):
                    continue  # not an episode as it should be, which the specification has to say
                if c is not None:
                    all_eps.append(c)
                    sources.append(i)
        shards = shards or min(8, max(1, len(all_eps) // 200))
        results = [None] * shards
        per = [[] for _ in range(shards)]
        strange = []
        for i, ep in enumerate(all_eps):
            per[i % shards].append((i, ep))

        def run(s):
            try:
                path = self.path(f"trace-{module}-{what.replace(' ', '_').replace('/', '_')}-{s}.ndjson")
                with open(path, "w") as f:
                    for _, ep in per[s]:
                        f.write(json.dumps(ep) + "\n")
                r = self.tlc(area, module, cfg, env={**(env or {}), "TRACE": path}, timeout=timeout, heap=heap)
                # `done` comes from the trace spec's last state: all episodes were consumed.
                done = self.printed(r["out"], "DONE")
                if not done or done[-1] != len(per[s]):
                    log(r["out"][-3000:])
                    raise ToolError(f"{module}: consumed {done} of {len(per[s])} episodes")
                bad = []
                for b in self.printed(r["out"], "BAD"):
                    bad.append((per[s][b["ep"] - 1][0], b))
                results[s] = (r, bad)
                os.remove(path)
            except EvalError as ex:
                # What was recorded isn't anything that the specification speaks of (the constants and the
                # specification are the same whatever the code does)
                results[s] = ({}, [])
                strange.append(str(ex))
            except BaseException as ex:  # noqa: BLE001
                results[s] = ex

        threads = [threading.Thread(target=run, args=(s,)) for s in range(shards)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        rejected = {}
        generated = 0
        for r in results:
            if isinstance(r, BaseException):
                raise r
            generated += r[0].get("generated", 0)
            for i, b in r[1]:
                rejected.setdefault(i, b)
        n = len(episodes)
        mine = [i for i in sorted(rejected) if i < n]
        excused = self._excused(area, module, cfg, env, [episodes[i] for i in mine], timeout, heap) if known else {}
        nbad = 0
        for k, i in enumerate(mine):
            if k in excused:
                self.known += excused[k]
            else:
                nbad += 1
                case = {"episode": episodes[i], "rejected": rejected[i]}
                self.violation(f"{what}: the specification rejects a recorded episode", case)
        if strange:
            self.violation(f"{what}: the specification can't make sense of a recorded episode", {"tlc": strange[0]})
            return
        # Corrupting an episode that is wrong anyway may make it right
        fair = [k for k in range(len(sources)) if sources[k] not in rejected]
        missed = [k for k in fair if n + k not in rejected]
        if missed:
            log("not rejected:", json.dumps(all_eps[n + missed[0]])[:3000])
            raise ToolError(f"{what}: {len(missed)} of {len(fair)} corrupted episodes were accepted")
        if corrupt and not fair and not nbad:
            raise ToolError(f"{what}: nothing to corrupt")
        caught = n_corrupt = len(fair)
        events = sum(len(ep.get(key, [1])) for ep in episodes)
        self.cov["traces_validated_against_impl"] += n
        self.cov["transitions"] += generated
        self.cov["conformance"].append(
            {"direction": "code->spec", "what": what, "module": module, "episodes": n, "events": events,
             "states_generated": generated, "corrupted_rejected": caught}
        )
        log(f"[trace] {what}: {n} episodes, {events} events, {nbad} rejected; {caught}/{n_corrupt} corrupted ones rejected")

    def _excused(self, area, module, cfg, env, episodes, timeout, heap):
        """Of rejected episodes, those that the specification accepts when it is told where the code is known to be
        wrong (the findings' `deviation`): index -> what is known. Anything else about them still has to be right."""
        tags = {k["deviation"]: k["what"] for k in self.findings if "deviation" in k}
        out = {}
        for tag in [*tags, "all"] if tags else []:
            left = [i for i in range(len(episodes)) if i not in out]
            if not left:
                break
            path = self.path(f"known-{module}-{tag}.ndjson")
            with open(path, "w") as f:
                for i in left:
                    f.write(json.dumps(episodes[i]) + "\n")
            r = self.tlc(area, module, cfg, env={**(env or {}), "TRACE": path, "KNOWN": tag}, timeout=timeout, heap=heap)
            done = self.printed(r["out"], "DONE")
            if not done or done[-1] != len(left):
                raise ToolError(f"{module}: known deviations: consumed {done} of {len(left)} episodes")
            bad = {b["ep"] - 1 for b in self.printed(r["out"], "BAD")}
            for k, i in enumerate(left):
                if k not in bad:
                    out[i] = [tags[tag]] if tag in tags else list(tags.values())
        return out

    def replayed(self, what, cases, mismatches, distinct=None):
        """Records spec->code conformance: `cases` generated by TLC, `mismatches` found by the driver."""
        self.cov["traces_validated_against_impl"] += cases
        self.cov["conformance"].append(
            {"direction": "spec->code", "what": what, "cases": cases, **({"distinct": distinct} if distinct else {})}
        )
        log(f"[replay] {what}: {cases} cases, {len(mismatches)} mismatches")
        for m in mismatches:
            self.violation(f"{what}: the code disagrees with the specification", m)

    def sample(self, *cases):
        for c in cases:
            if len(self.cov["samples"]) < 12:
                self.cov["samples"].append(c)

    # ---- verdicts ----------------------------------------------------------------------------
    def violation(self, what, case):
        text = json.dumps(case, sort_keys=True)
        for k in self.findings:
            if all(frag in text for frag in k["match"]):
                self.known.append(k["what"])
                return
        self.violations.append({"what": what, "case": case})

    def finish(self):
        wall = round(time.time() - self.started, 2)
        cov = self.cov
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        for k in sorted(set(self.known)):
            log(f"KNOWN-FINDING: property={self.prop} {k}")
        rc = 0
        if self.violations:
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            digest = hashlib.sha1(json.dumps(self.violations[0], sort_keys=True).encode()).hexdigest()[:10]
            replay = os.path.join(VERIF, "evidence", "replay", f"{self.prop}-{digest}.json")
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "count": len(self.violations), "violations": self.violations[:20]}, f, indent=1)
            first = self.violations[0]
            log(f"{len(self.violations)} violation(s); first: {first['what']}: {json.dumps(first['case'])[:1500]}")
            log(f"VIOLATION property={self.prop} replay={replay}")
            rc = 1
        else:
            log(f"OK property={self.prop} states={cov['states']} transitions={cov['transitions']} "
                f"traces={cov['traces_validated_against_impl']} wall={wall}s")
        return rc


def main(prop, fn):
    check = Check(prop)
    rc = 2
    try:
        try:
            fn(check)
        except ToolError as e:
            log(f"TOOL ERROR: {e}")
            # Violations found before the machinery failed still stand.
            rc = check.finish() if check.violations else 2
        else:
            rc = check.finish()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        try:
            rc = check.finish() if check.violations else 2
        except Exception:  # noqa: BLE001
            traceback.print_exc()
    finally:
        shutil.rmtree(check.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
