#!/usr/bin/env python3
"""mut.py FILE [PROP]: FILE defines M = [(property, file under the package, old, new), ...]; each textual
mutation is applied to a scratch copy of the sources and the property's check must report it."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(m):
    prop, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"), d + "/src",
                        ignore=shutil.ignore_patterns("__pycache__"))
        path = f"{d}/src/megatron/energon/{f}"
        s = open(path).read()
        if s.count(old) < 1:
            return m, "NOMATCH", ""
        s = s.replace(old, new, m[4] if len(m) > 4 else 1)
        compile(s, path, "exec")
        open(path, "w").write(s)
        r = subprocess.run([sys.executable, HERE + "/check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d))
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        return m, {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN"), "\n".join(lines[:2]) if lines else (r.stdout + r.stderr)[-300:]
    except Exception as e:
        return m, "ERR", repr(e)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for m, res, out in ex.map(one, [m for m in ns["M"] if not only or m[0] in only]):
        print(f"{res:8}{m[0]} {m[1]}: {m[2].strip().splitlines()[0][:50]!r} -> {(m[3].strip().splitlines() or [''])[0][:60]!r}")
        if res != "MISSED":
            print("      " + out.strip()[:230])
