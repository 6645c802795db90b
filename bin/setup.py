#!/usr/bin/env python3
"""Builds every monitor once, so that later checks only rebuild what changed."""
import os, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import PROPS


def main():
    os.makedirs(check.BUILD, exist_ok=True)
    if subprocess.run([sys.executable, os.path.join(check.ROOT, "bin", "gen_ws.py")]).returncode != 0:
        sys.exit(1)
    done = set()
    for spec in PROPS.values():
        for s in check.steps_of(spec, "quick"):
            k = (s.get("crate"), s.get("kind", "plain"))
            if k[0] and k not in done:
                done.add(k)
                check.build(*k)


if __name__ == "__main__":
    main()
