"""The whole library, built from the working tree against the EnTT stand-in."""
import os
import vlib


def sources():
    base = os.path.join(vlib.REPO, "src/edyn")
    out = []
    for d, _, fs in os.walk(base):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), base)
            if f.endswith(".cpp") and not rel.startswith(("time/windows", "time/mac")):
                out.append(rel)
    # the long ones first, so that the last to finish is a short one
    return sorted(out, key=lambda r: (-os.path.getsize(os.path.join(base, r)), r))


def build(c, driver, sanitize="-fsanitize=address", per_file=None):
    # edyn::delay is replaced by the driver, so that waiting threads cost no time
    return c.build("world", driver, sources(), flags=[sanitize] if sanitize else [], shim=True, cxx="clang++", opt="-O0",
                   per_file={"time/unix/time.cpp": ["-Ddelay=unix_delay"], **(per_file or {})})
