#!/usr/bin/env python3
"""Amalgamates include/hsm/hsm.h the way the project's quom job does (quom itself is not installed)."""
import os, re, sys

def amalgamate(include_dir, root):
    seen, out = set(), []
    def emit(path):
        path = os.path.normpath(path)
        if path in seen:
            return
        seen.add(path)
        for line in open(path).read().split("\n"):
            if re.match(r"\s*#\s*pragma\s+once", line):
                continue
            m = re.match(r'\s*#\s*include\s+"([^"]+)"', line)
            if m:
                for base in (os.path.dirname(path), include_dir):
                    p = os.path.join(base, m.group(1))
                    if os.path.isfile(p):
                        emit(p)
                        break
                else:
                    out.append(line)
                continue
            out.append(line)
    emit(root)
    text = "#pragma once\n" + "\n".join(out)
    return re.sub(r"\n{3,}", "\n\n", text).rstrip("\n") + "\n"

if __name__ == "__main__":
    inc = sys.argv[1]
    text = amalgamate(inc, os.path.join(inc, "hsm/hsm.h"))
    if len(sys.argv) > 2:
        open(sys.argv[2], "w").write(text)
    else:
        sys.stdout.write(text)
