"""Builds a line-protocol harness around real C++ sources of /repo (with sanitizers) and talks to it."""
import atexit, os, select, shutil, signal, subprocess, sys, tempfile
from common import REPO, Fail

INC = ["", "/third_party", "/third_party/stb/include", "/third_party/half/include", "/third_party/dlpack/include", "/third_party/xxHash/include",
       "/third_party/utfcpp/include", "/third_party/json"]
FLAGS = ["-std=gnu++20", "-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DFMT_HEADER_ONLY=1", "-DXXH_INLINE_ALL=1", "-DNDEBUG", "-w"]


class BuildError(Exception):
    pass


class Harness:
    """one real process; every request is one line, every answer one line; a crash or sanitizer report of the real code is a failure"""

    def __init__(self, main, sources, flags=()):
        self.p = None
        self.d = tempfile.mkdtemp(prefix="dvcxx")
        atexit.register(self.close)
        fl = FLAGS + list(flags) + ["-I" + REPO + i for i in INC]
        procs = []
        for n, s in enumerate([main] + [os.path.join(REPO, x) for x in sources]):
            o = os.path.join(self.d, "%d.o" % n)
            procs.append((s, o, subprocess.Popen(["g++", *fl, "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, o, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise BuildError("%s does not compile: %s" % (s, out.decode(errors="replace")[:600]))
        self.exe = os.path.join(self.d, "h")
        r = subprocess.run(["g++", *FLAGS, *flags, *[o for _, o, _ in procs], "-o", self.exe, "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stderr[:600])

    def start(self):
        self.err = open(os.path.join(self.d, "err"), "w+b")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, bufsize=0)
        self.buf = b""

    def ask(self, line, timeout=20):
        """the answer of the real code; Fail when it crashes or does not answer"""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
        except BrokenPipeError:
            pass
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                raise Fail("the real code does not answer within %d s" % timeout, "hang")
            c = os.read(self.p.stdout.fileno(), 1 << 16)
            if not c:
                rc = self.p.wait()
                self.err.seek(0)
                e = self.err.read().decode(errors="replace")
                self.stop()
                ls = [l for l in e.splitlines() if "ERROR" in l or "runtime error" in l or "what()" in l or "SUMMARY" in l] or e.splitlines()[-3:]
                raise Fail("the real code aborts (exit %s): %s" % (rc, " | ".join(ls)[:500]), "crash")
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
        self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.d, ignore_errors=True)
