"""Client of the persistent vt_dumper process."""
import json, os, select, subprocess
from . import build


class Crash(Exception):
    pass


class Dumper:
    def __init__(self, config="std"):
        self.config, self.p = config, None

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        self.errf = open(os.path.join("/tmp", "vt_dumper_%d.err" % os.getpid()), "w+b")
        self.p = subprocess.Popen([build.dumper(self.config)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=env)

    def run(self, files, flags="vd", prefixes=(), lookups=(), timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = "\x1f".join([flags, ",".join(prefixes), ",".join(lookups)] + list(files)) + "\n"
        try:
            self.p.stdin.write(req.encode())
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p.wait()
                self.p = None
                raise Crash("no answer within %d s" % timeout)
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line.endswith(b"\n"):
            rc = self.p.wait()
            self.errf.seek(0)
            err = self.errf.read().decode(errors="replace")[-4000:]
            self.p = None
            raise Crash("library process ended (status %s)\n%s" % (rc, err))
        return json.loads(line.decode("utf-8"))

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            try:
                name = self.errf.name
                self.errf.close()
                os.unlink(name)
            except Exception:
                pass
