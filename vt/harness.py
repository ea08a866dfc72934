"""Property-based testing core: a recorded choice sequence drives every generator, a failing
sequence is shrunk and written out as the replay file; also the check driver and evidence."""
import hashlib, json, multiprocessing, os, random, shutil, signal, sys, tempfile, time, traceback

from . import build

VERIF = build.VERIF
OUT = os.environ.get("VT_OUT", VERIF)      # where replay files and evidence go
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VT_PROCS", str(min(8, os.cpu_count() or 8))))


class Violation(Exception):
    """The property is broken on the current case."""
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg, self.info = msg, info


class Skip(Exception):
    """The generated case cannot be used (counted, never silently)."""


class Exhausted(Exception):
    pass


class Rand:
    """Source of bounded choices; value 0 is always the simplest one."""
    def __init__(self, seed=None, replay=None, limit=200000):
        self.r = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.limit = limit
        self.rec = []

    def below(self, n):
        if n <= 1:
            return 0
        if len(self.rec) >= self.limit:
            raise Exhausted()
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = v % n
        else:
            v = self.r.randrange(n)
        self.rec.append(v)
        return v

    def rng(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=100):
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, items):
        """items: [(weight, value)]"""
        tot = sum(w for w, _ in items)
        x = self.below(tot)
        for w, v in items:
            if x < w:
                return v
            x -= w
        return items[-1][1]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=50):
        return [x for x in seq if self.chance(num)]

    def bits(self, n):
        v = 0
        while n > 0:
            k = min(n, 16)
            v = (v << k) | self.below(1 << k)
            n -= k
        return v

    def num(self, lo, hi):
        """A number of [lo, hi] with emphasis on the limits and on small values."""
        if lo >= hi:
            return lo
        m = self.below(8)
        if m == 0:
            base = 0 if lo <= 0 <= hi else lo
            return min(hi, max(lo, base + self.below(10)))
        if m == 1:
            return lo
        if m == 2:
            return hi
        if m == 3:
            return min(hi, max(lo, hi - self.below(4)))
        if m == 4:
            return min(hi, max(lo, lo + self.below(4)))
        if m == 5:
            k = self.below(64)
            v = (1 << k) + self.below(3) - 1
            if self.below(2):
                v = -v
            return v if lo <= v <= hi else min(hi, max(lo, v % (hi - lo + 1) + lo))
        span = hi - lo
        return lo + self.bits(max(1, span.bit_length())) % (span + 1)


def fingerprint(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]


class Result:
    """Outcome of one case that held."""
    __slots__ = ("key", "nontrivial", "classes", "sample")

    def __init__(self, key, nontrivial=True, classes=(), sample=None):
        self.key, self.nontrivial, self.classes, self.sample = key, nontrivial, classes, sample


class Ctx:
    """Per worker context: scratch directory plus lazily created helpers."""
    def __init__(self, check):
        self.check = check
        self.tmp = tempfile.mkdtemp(prefix="vt_%s_" % check.pid)
        self.store = {}

    def get(self, key, make):
        if key not in self.store:
            self.store[key] = make()
        return self.store[key]

    def fresh(self, name):
        d = os.path.join(self.tmp, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def close(self):
        for v in self.store.values():
            if hasattr(v, "close"):
                try:
                    v.close()
                except Exception:
                    pass
        shutil.rmtree(self.tmp, ignore_errors=True)


def case_seed(pid, gen, idx):
    return int(hashlib.sha1(("%d/%s/%s/%d" % (SEED, pid, gen, idx)).encode()).hexdigest()[:15], 16)


class Check:
    """
    gens: list of (name, function(rand, ctx) -> Result, cases quick, cases thorough).
    setup(): builds what the check needs.   extra(): additional deterministic step -> (violations, evidence dict).
    """
    def __init__(self, pid, gens, rule, setup=None, assumptions=(), quick_s=420, thorough_s=3000, level="exploration",
                 shrink_s=90, known=()):
        self.pid, self.gens, self.rule, self.setup = pid, gens, rule, setup
        self.assumptions, self.level = list(assumptions), level
        self.limit = quick_s if TIER == "quick" else thorough_s
        self.shrink_s = shrink_s
        self.known = list(known)     # [(text, fn(ctx) -> bool still fails)]

    # -- one case -------------------------------------------------------------------------
    def run_one(self, gen, fn, ctx, rand):
        try:
            return "ok", fn(rand, ctx)
        except Violation as v:
            return "bad", v
        except Skip as s:
            return "skip", s
        except Exhausted:
            return "skip", Skip("choice limit")

    def shrink(self, gen, fn, ctx, choices, viol):
        deadline = time.time() + self.shrink_s
        sig = viol.info.get("sig")
        best, bestv = list(choices), viol

        def attempt(c):
            nonlocal best, bestv
            if time.time() > deadline:
                return False
            r = Rand(replay=c)
            st, v = self.run_one(gen, fn, ctx, r)
            if st == "bad" and v.info.get("sig") == sig:
                new = r.rec
                while new and new[-1] == 0:
                    new = new[:-1]
                if (len(new), new) < (len(best), best):
                    best, bestv = new, v
                    return True
            return False

        improved = True
        while improved and time.time() < deadline:
            improved = False
            # truncate
            n = len(best)
            k = n // 2
            while k >= 1 and time.time() < deadline:
                if attempt(best[:len(best) - k]):
                    improved = True
                else:
                    k //= 2
            # remove / zero blocks
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(best) and time.time() < deadline:
                    c = best[:i] + best[i + size:]
                    if attempt(c):
                        improved = True
                        continue
                    if any(best[i:i + size]):
                        if attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                            improved = True
                    i += size
                size //= 2
            # lower single values
            for i in range(len(best)):
                if i >= len(best) or time.time() > deadline:
                    break
                v = best[i]
                for t in (1, v // 2, v - 1):
                    if 0 < t < v and attempt(best[:i] + [t] + best[i + 1:]):
                        improved = True
                        break
        return best, bestv

    # -- workers --------------------------------------------------------------------------
    def _worker(self, jobs, q, deadline, stop):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        ctx = Ctx(self)
        try:
            for gi, idx in jobs:
                if stop.is_set() or time.time() > deadline:
                    break
                name, fn = self.gens[gi][0], self.gens[gi][1]
                r = Rand(seed=case_seed(self.pid, name, idx))
                try:
                    st, res = self.run_one(name, fn, ctx, r)
                except Exception:
                    q.put(("error", gi, idx, r.rec, traceback.format_exc()))
                    break
                if st == "ok":
                    q.put(("ok", gi, idx, (res.key, bool(res.nontrivial), list(res.classes), res.sample if idx < 4 else None)))
                elif st == "skip":
                    q.put(("skip", gi, idx, str(res)))
                else:
                    q.put(("bad", gi, idx, r.rec, res.msg, res.info))
                    break
        except Exception:
            q.put(("error", -1, -1, [], traceback.format_exc()))
        finally:
            ctx.close()
            q.put(("done",))

    def replay(self, path):
        with open(path) as f:
            d = json.load(f)
        if self.setup:
            self.setup()
        fn = [g[1] for g in self.gens if g[0] == d["gen"]][0]
        if d["info"].get("confirmed") and hasattr(fn, "reproduce"):
            fn = fn.reproduce(d["info"])
        ctx = Ctx(self)
        try:
            st, v = self.run_one(d["gen"], fn, ctx, Rand(replay=d["choices"]))
            print(st, v.msg if st == "bad" else v)
            if st == "bad":
                for k, x in v.info.items():
                    print("--- %s:\n%s" % (k, x))
                return 1
            return 0
        finally:
            ctx.close()

    def main(self, argv=()):
        argv = list(argv)
        if len(argv) >= 2 and argv[0] == "--replay":
            return self.replay(argv[1])
        t0 = time.time()
        scale = float(os.environ.get("VT_SCALE", "1"))
        if self.setup:
            try:
                self.setup()
            except build.BuildError as e:
                print("The tree under test does not build:\n%s" % e)
                return 2
        if self.known:
            kctx = Ctx(self)
            for text, still in self.known:
                if still(kctx):
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
            kctx.close()
        deadline = time.time() + self.limit
        jobs = []
        plan = {}
        for gi, g in enumerate(self.gens):
            n = g[2] if TIER == "quick" else g[3]
            n = max(1, int(n * scale))
            plan[g[0]] = n
            jobs += [(gi, i) for i in range(n)]
        # interleave generators so that a time limit hits all alike
        jobs.sort(key=lambda j: (j[1] / max(1, plan[self.gens[j[0]][0]]), j[0]))
        mp = multiprocessing.get_context("fork")
        q, stop = mp.Queue(), mp.Event()
        nproc = max(1, min(NPROC, len(jobs)))
        procs = [mp.Process(target=self._worker, args=(jobs[i::nproc], q, deadline, stop)) for i in range(nproc)]
        for p in procs:
            p.start()
        done, evals, skips, errors, bad = 0, 0, {}, [], []
        keys, nontriv, classes, samples = set(), set(), {}, []
        per_gen = {}
        while done < nproc:
            try:
                m = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    break
                continue
            if m[0] == "done":
                done += 1
            elif m[0] == "ok":
                evals += 1
                gname = self.gens[m[1]][0]
                per_gen[gname] = per_gen.get(gname, 0) + 1
                key, nt, cl, sample = m[3]
                keys.add(key)
                if nt:
                    nontriv.add(key)
                for c in cl:
                    c, n = c if isinstance(c, tuple) else (c, 1)
                    classes[c] = classes.get(c, 0) + n
                if sample is not None and sum(1 for s in samples if s["gen"] == gname) < 2:
                    samples.append({"gen": gname, "case": sample})
            elif m[0] == "skip":
                skips[m[3]] = skips.get(m[3], 0) + 1
            elif m[0] == "error":
                errors.append(m)
                stop.set()
            elif m[0] == "bad":
                evals += 1
                bad.append(m)
                stop.set()
        for p in procs:
            p.join(timeout=10)
            if p.is_alive():
                p.terminate()
        rc, nviol = 0, 0
        if errors and not bad:
            print("ERROR of the check itself:\n" + errors[0][4])
            rc = 2
        if bad:
            bad.sort(key=lambda m: len(m[3]))
            m = bad[0]
            gname, fn = self.gens[m[1]][0], self.gens[m[1]][1]
            ctx = Ctx(self)
            try:
                # confirm
                sure = m[5].get("confirmed")     # the check has reproduced the failure from the data in the report already
                again = ["bad"] if sure else [self.run_one(gname, fn, ctx, Rand(replay=m[3]))[0] for _ in range(2)]
                if "bad" not in again:
                    print("Unconfirmed failure (not reproducible): %s" % m[4])
                    rc = 2
                else:
                    v = Violation(m[4], **m[5])
                    best = m[3]
                    if not sure:
                        best, v = self.shrink(gname, fn, ctx, m[3], v)
                    rdir = os.path.join(OUT, "replay")
                    os.makedirs(rdir, exist_ok=True)
                    path = os.path.join(rdir, "%s-%s.json" % (self.pid, fingerprint(best)))
                    with open(path, "w") as f:
                        json.dump({"property": self.pid, "gen": gname, "seed": SEED, "choices": best, "msg": v.msg,
                                   "info": {k: x for k, x in v.info.items()}}, f, indent=1, default=str)
                    print("FAILED: %s" % v.msg)
                    for k, x in v.info.items():
                        print("--- %s:\n%s" % (k, str(x)[:3000]))
                    print("(re-run: python3 -m vt.run %s --replay %s)" % (self.pid, path))
                    print("VIOLATION property=%s replay=%s" % (self.pid, path))
                    rc, nviol = 1, 1
            finally:
                ctx.close()
        cov = {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": self.rule,
               "samples": samples[:8] or [{"note": "no case completed"}],
               "distinct": len(keys), "per_generator": per_gen, "planned": plan, "classes": dict(sorted(classes.items())),
               "skipped": skips, "exhaustive": False}
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if rc == 0:
            total = sum(plan.values())
            print("%s: held on %d cases (%d distinct non-trivial, %d skipped, planned %d) in %.1f s"
                  % (self.pid, evals, len(nontriv), sum(skips.values()), total, time.time() - t0))
            if evals == 0:
                print("ERROR: nothing was evaluated")
                return 2
        return rc
