"""Builds the tree under test (/repo) and the harness programs into /verif/.build/<config>."""
import fcntl, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, ".build"))
APPS = ["commsdsl2comms", "commsdsl2c", "commsdsl2test", "commsdsl2tools_qt",
        "commsdsl2swig", "commsdsl2emscripten", "commsdsl2latex"]

CONFIGS = {
    # assertions on, no debug info
    "std": ["-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
            "-DCMAKE_CXX_FLAGS=-O1"],
    "asan": ["-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++", "-DCMAKE_C_COMPILER=/usr/bin/clang",
             "-DVT_FUZZ=ON",
             "-DCMAKE_CXX_FLAGS=-O1 -gline-tables-only -fsanitize=address,undefined,fuzzer-no-link "
             "-fno-sanitize-recover=undefined -fno-omit-frame-pointer"],
}


class BuildError(Exception):
    pass


def ensure(targets, config="std"):
    """Builds the targets; returns the build directory."""
    bdir = os.path.join(BUILD, config)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CC", "CXX"):
        env.pop(k, None)
    with open(os.path.join(BUILD, config + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["cmake", "-S", os.path.join(VERIF, "cpp"), "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO] + CONFIGS[config]
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
            if r.returncode:
                raise BuildError("cmake failed:\n" + r.stdout[-4000:])
        r = subprocess.run(["ninja", "-C", bdir] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
        if r.returncode:
            raise BuildError("build failed:\n" + r.stdout[-6000:])
    return bdir


def app(name, config="std"):
    return os.path.join(BUILD, config, "commsdsl", "app", name, "src", name)


def dumper(config="std"):
    return os.path.join(BUILD, config, "vt_dumper")


if __name__ == "__main__":
    ensure(["vt_dumper"] + APPS)
    ensure(["vt_dumper", "vt_fuzz_parse"], "asan")
