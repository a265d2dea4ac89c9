#!/usr/bin/env python3
"""check.py check ID [quick|thorough] | check.py replay FILE

Rebuilds the encoding from /repo's working tree, then decides property ID over the bounds of the tier.
Exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: no answer (build or set-up failure)."""
import os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
FERRO = os.path.join(BUILD, "target/x86_64-unknown-linux-gnu/release/ferro")


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    cmd, arg = sys.argv[1], sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py")], stdout=sys.stderr)
    if r.returncode != 0:
        print(f"[check] the code under check could not be built (exit {r.returncode})", file=sys.stderr)
        return 2
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    cache = tempfile.mkdtemp(prefix="cache-", dir=os.path.join(BUILD, "run"))
    env = dict(os.environ, XDG_CACHE_HOME=cache)
    try:
        if cmd == "check":
            a = [FERRO, "check", arg, tier, BUILD, VERIF]
        else:
            a = [FERRO, "replay", os.path.abspath(arg), VERIF]
        return subprocess.run(a, env=env).returncode
    finally:
        shutil.rmtree(cache, ignore_errors=True)


sys.exit(main())
