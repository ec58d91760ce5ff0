#!/usr/bin/env python3
"""Driver of all checks:  run.py <ID> [--thorough] [--replay FILE] [--shards N] [--repo DIR]

Builds what the check needs from /repo's current working tree into build/<ID>, runs the enumeration in parallel
shards, replays whatever was found before reporting it, and writes evidence/<ID>.json.
Exit status: 0 held on everything explored, 1 violated (with a VIOLATION line), 2 the check itself is broken.
"""
import glob
import json
import mmap
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import recipes  # noqa: E402

STALL = 45          # seconds without any progress: the case is replayed alone
STALL_ALONE = 120   # limit for a case running alone
DEADLINE = {"quick": 600, "thorough": 6 * 3600}
MEMORY = 3 << 30


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Shard:
    """One process of the enumeration, observed through a mapped progress file."""

    def __init__(self, check, args, tag, env):
        self.tag = tag
        self.out = os.path.join(check.build, tag + ".json")
        self.prog = os.path.join(check.build, tag + ".progress")
        self.log = os.path.join(check.build, tag + ".log")
        with open(self.prog, "wb") as f:
            f.write(b"\0" * 128)
        self.file = open(self.prog, "r+b")
        self.map = mmap.mmap(self.file.fileno(), 128)
        self.last = -1
        self.last_time = time.time()
        self.stalled = False

        def limits():
            os.setsid()
            if not check.sanitized:
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.handle = open(self.log, "w")
        self.p = subprocess.Popen([check.exe] + args + ["--out", self.out, "--progress", self.prog],
                                  stdout=self.handle, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                  preexec_fn=limits, env=env, cwd=check.build)

    def where(self):
        beat, index = struct.unpack("QQ", self.map[:16])
        return self.map[16:128].split(b"\0")[0].decode(), index

    def poll(self, limit):
        """None while running, else the exit status ("stall" if it made no progress for too long)."""
        rc = self.p.poll()
        if rc is not None:
            return rc
        beat = self.map[:16]
        now = time.time()
        if beat != self.last:
            self.last, self.last_time = beat, now
        elif now - self.last_time > limit:
            self.kill()
            return "stall"
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def close(self):
        # whatever the case started (the program under test) ends with it
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.map.close()
        self.file.close()
        self.handle.close()

    def text(self, n=6000):
        with open(self.log, errors="replace") as f:
            return f.read()[-n:]


def known_findings(prop):
    """Cases listed in known_findings.txt as  known: property=ID case=SPACE/INDEX what fails"""
    known = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


class Check:
    def __init__(self, prop, tier, repo, shards):
        self.prop, self.tier, self.repo, self.shards = prop, tier, repo, shards
        self.recipe = recipes.RECIPES[prop]
        self.build = os.path.join(VERIF, "build", prop)
        self.sanitized = self.recipe.get("sanitized", False)
        self.exe = os.path.join(self.build, "harness")
        self.env = dict(os.environ)
        self.env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:allocator_may_return_null=0:"
                                    "detect_stack_use_after_return=0:handle_abort=1")
        self.env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:abort_on_error=1"
        self.known = known_findings(prop)
        self.env["MC_KNOWN"] = ",".join(self.known)
        self.env["MC_BUILD"] = self.build
        self.env["MC_REPO"] = self.repo
        for k in list(self.env):
            if k.startswith("OMP_") or k.startswith("GOMP_"):
                del self.env[k]

    def make(self):
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        plan = recipes.plan(self.recipe, self.repo, VERIF, self.build)
        for stage in plan:                       # stages run one after another, the commands of a stage together
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for cmd, r in zip(stage, ex.map(lambda c: sh(c, cwd=self.build), stage)):
                    if r.returncode:
                        raise Broken("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

    def base_args(self):
        return ["--thorough"] if self.tier == "thorough" else []

    def single(self, args, tag, limit):
        """Runs one process alone; returns (kind, message); kind is None if it ended well."""
        s = Shard(self, self.base_args() + args, tag, self.env)
        try:
            while True:
                rc = s.poll(limit)
                if rc is not None:
                    break
                time.sleep(0.02)
            return self.judge(rc, s)
        finally:
            s.close()

    def judge(self, rc, s):
        space, index = s.where()
        if rc == 0:
            return None, "", space, index
        if rc == "stall":
            return "hang", "no progress for too long", space, index
        text = s.text()
        if rc == 10:
            m = re.search(r"^FOUND (\S+) (\d+) (.*)$", text, re.M)
            if m:
                return "found", json.loads(m.group(3)), m.group(1), int(m.group(2))
        if rc == 2:
            raise Broken("harness error: " + text)
        head = [l for l in text.splitlines() if re.search(r"ERROR|runtime error|ssertion|terminate|what\(\)|rss", l)]
        return "crash", "ended with status %s; %s" % (rc, " | ".join(head[:3]) or text[-300:]), space, index

    def report(self, kind, message, args, where):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join("replays", "%s.json" % self.prop)
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "kind": kind, "message": message, "case": where,
                       "args": args, "how": "python3 run.py %s --replay %s" % (self.prop, path)}, f, indent=1)
        print("%s: %s in case %s\n%s" % (self.prop, kind, where, message))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def confirm(self, kind, message, space, index, shard_args):
        """Replays the case alone, then (it may depend on the history of its process) the whole shard."""
        where = "%s/%d" % (space, index)
        args = ["--replay", space, str(index)]
        k, m, _, _ = self.single(args, "replay", STALL_ALONE)
        if k:
            self.report(k, m, args, where)
            return True
        for attempt in range(2):
            k, m, sp, ix = self.single(shard_args, "again%d" % attempt, STALL_ALONE)
            if k:
                self.report(k, m + " (only after the preceding cases of the shard)", shard_args, "%s/%d" % (sp, ix))
                return True
        return False

    def run(self):
        t0 = time.time()
        self.make()
        t_build = time.time() - t0
        n = self.shards
        shards = []
        for i in range(n):
            a = ["--shard", str(i), str(n)]
            shards.append((a, Shard(self, self.base_args() + a, "shard%d" % i, self.env)))
        open_ones = list(shards)
        capped = False
        bad = None
        while open_ones and not bad:
            time.sleep(0.02)
            for a, s in list(open_ones):
                rc = s.poll(STALL)
                if rc is None:
                    continue
                open_ones.remove((a, s))
                k, m, sp, ix = self.judge(rc, s)
                if k:
                    bad = (k, m, sp, ix, a)
                    break
            if time.time() - t0 > DEADLINE[self.tier]:
                capped = True
                break
        for a, s in open_ones:
            s.kill()
        for a, s in shards:
            s.close()
        for where, what in self.known.items():
            # several shards never execute the same case
            if any(("KNOWN %s " % where) in s.text(1 << 20) for _, s in shards):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
        violated = 0
        if bad:
            if not self.confirm(*bad):
                raise Broken("could not be reproduced: %s" % (bad,))
            violated = 1
        self.evidence(shards, time.time() - t0, t_build, capped, violated)
        if violated:
            return 1
        if capped:
            print("%s: stopped at the time limit, what was explored held" % self.prop)
        return 0

    def evidence(self, shards, wall, t_build, capped, violated):
        tot = {"cases": 0, "states": 0, "transitions": 0, "traces": 0}
        extra, samples, times = {}, [], {}
        complete = not capped and not violated
        for _, s in shards:
            try:
                with open(s.out) as f:
                    d = json.load(f)
            except (OSError, ValueError):
                complete = False
                continue
            for k in tot:
                tot[k] += d[k]
            for k, v in d["extra"].items():
                extra[k] = extra.get(k, 0) + v
            for k, v in d["times"].items():
                times[k] = max(times.get(k, 0), v)
            samples += d["samples"]
        listing = sh([self.exe, "--list"] + self.base_args(), env=self.env, cwd=self.build).stdout
        spaces = {}
        for line in listing.splitlines():
            p = line.split()
            if len(p) == 2 and p[1].isdigit():
                spaces[p[0]] = int(p[1])
        cov = {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"] or tot["cases"],
            "cases_executed": tot["cases"], "space_sizes": spaces, "space_seconds_slowest_shard": times,
            "outcomes": extra, "samples": samples[:6] or ["(no sample recorded)"],
            # all listed cases were executed, and none of them was cut short
            "exhaustive": complete and not extra.get("problems_cut_at_the_limit_of_states"),
            "capped_by_time": capped, "build_s": round(t_build, 2),
            "bounds": self.recipe.get("bounds", ""),
            "binding": self.recipe.get("binding", "every transition is an execution of the code in /repo itself; "
                                       "each execution is compared with the reference model harness/ref.hpp"),
        }
        if complete and tot["cases"] != sum(spaces.values()):
            raise Broken("enumeration is incomplete: %d of %d" % (tot["cases"], sum(spaces.values())))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                       "level": "model_checking", "coverage": cov,
                       "assumptions": self.recipe.get("assumptions", []),
                       "wall_s": round(wall, 2), "violations": violated}, f, indent=1)
        if not violated:
            print("%s %s: %d cases, %d states, %d transitions%s, %.1f s (build %.1f s)" % (
                self.prop, self.tier, tot["cases"], tot["states"], tot["transitions"],
                "" if complete else " (incomplete)", wall, t_build))

    def replay(self, path):
        with open(path) as f:
            r = json.load(f)
        self.tier = r["tier"]
        self.make()
        k, m, sp, ix = self.single(r["args"], "replay", STALL_ALONE)
        print(("violated: %s: %s (%s/%d)" % (k, m, sp, ix)) if k else "held")
        if k:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if k else 0


def main():
    a = sys.argv[1:]
    if not a or a[0] not in recipes.RECIPES:
        print("usage: run.py ID [--thorough] [--replay FILE]; ids: " + " ".join(recipes.RECIPES))
        return 2
    opt = dict(zip(a[1:], a[2:] + [""]))
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    c = Check(a[0], tier, opt.get("--repo", "/repo"), int(opt.get("--shards", 0)) or (os.cpu_count() or 4))
    try:
        return c.replay(opt["--replay"]) if "--replay" in a else c.run()
    except Broken as e:
        print("%s: CHECK BROKEN: %s" % (a[0], e))
        return 2
    finally:
        if not os.environ.get("MC_KEEP"):
            shutil.rmtree(c.build, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
