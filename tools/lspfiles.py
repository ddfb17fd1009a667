#!/usr/bin/env python3
"""lspfiles.py CACHE PROJECTS: the files the simulated language servers may see.

CACHE holds the log file of mabo-lsp (thrown away), PROJECTS three small workspaces.
"""
import os, sys
cache, projects = sys.argv[1:]
for d in ("lspsim", "mabo-lsp"):
    os.makedirs(f"{cache}/{d}", exist_ok=True)
    if not os.path.islink(f"{cache}/{d}/lsp.log"):
        os.symlink("/dev/null", f"{cache}/{d}/lsp.log")
files = {
    "p0/Mabo.toml": b'[package]\nname = "zero"\nfiles = ["src/**/*.mabo"]\n',
    "p0/src/good.mabo": b"/// Good.\nstruct Good {\n    a: u32 @1,\n}\n",
    "p0/src/bad.mabo": b"struct Bad {\n",
    "p0/src/dup.mabo": b"enum Dup { A @1, B @1 }\n",
    "p0/src/wide.mabo": "/// W\u00e4rme \U0001f600\nstruct Wide {\n    /// \u4e2d\u6587 \u00e9\n    a: u32 @1, /// \U0001d54f\n    b: string @2,\n}\n".replace(" /// \U0001d54f", "").encode(),
    "p1/wide.mabo": "/// \u00fc\U0001f600\r\nenum Wide {\r\n    /// \u4e2d\r\n    A @1,\r\n    B(u8 @1) @2,\r\n}\r\n".encode(),
    "p0/src/empty.mabo": b"",
    "p1/Mabo.toml": b'[package]\nname = "one"\nfiles = ["*.mabo"]\n',
    "p1/latin1.mabo": b"/// \xe9\nstruct A(u8 @1)\n",
    "p1/crlf.mabo": b"struct A(u8 @1)\r\n\r\nstruct B(A @1)\r\n",
    "p1/with space \u00fc.mabo": b"struct A(u8 @1)\n",
    "p1/100%.mabo": b"struct A(u8 @1)\n",
    "p2/Mabo.toml": b"[package\nname = 5\n",
    "p2/x.mabo": b"struct A(u8 @1)\n",
}
for name, data in files.items():
    path = os.path.join(projects, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path, "rb").read() != data:
        with open(path, "wb") as f:
            f.write(data)
