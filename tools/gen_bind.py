#!/usr/bin/env python3
"""Writes harness/c23_bind.hpp: bound structures of 1..50 fields, with mixed bindings and names."""
import os

def main():
    out = ["// Generated by tools/gen_bind.py: bound structures of 1 to 50 fields.", "#pragma once", ""]
    for wide in (0, 1):
        ns = "W" if wide else "N"
        cfg = "configor::wjson::value" if wide else "configor::json::value"
        L = "L" if wide else ""
        sizes = range(1, 51) if not wide else (1, 2, 7, 33, 50)
        for n in sizes:
            s = f"{ns}{n}"
            f, b, req, nm = [], [], [], []
            for i in range(n):
                r = (i * 7 + n * 3) % 5 < 3
                if n % 10 == 0: r = True
                if n % 10 == 1 and n > 1: r = i == n // 2
                custom = wide or (i * 5 + n) % 3 == 0
                # names that need escaping, share prefixes, or look like other fields
                kinds = [f"f{(i + 1) % n}x", f"name {i}", f"q\\\"{i}", f"back\\\\{i}", f"tab\\t{i}", f"{i}", f"F{i}", f"f{i}.f{i}"]
                name = kinds[(i + n) % len(kinds)] if custom else f"f{i}"
                f.append(f"f{i}{{}}")
                b.append(("REQUIRED" if r else "OPTIONAL") + (f'(f{i}, {L}"{name}")' if custom else f"(f{i})"))
                req.append("1" if r else "0")
                nm.append(f'"{name}"')
            out.append(f"struct {s}\n{{")
            out.append("    int64_t " + ", ".join(f) + ";")
            out.append(f"    CONFIGOR_BIND({cfg}, {s}, " + ", ".join(b) + ")")
            out.append(f"    enum {{ Count = {n} }};")
            out.append("    static bool required(size_t i) { static const bool r[] = { " + ", ".join(req) + " }; return r[i]; }")
            out.append("    static const char* name(size_t i) { static const char* const r[] = { " + ", ".join(nm) + " }; return r[i]; }")
            out.append("    int64_t& field(size_t i) { int64_t* const r[] = { " + ", ".join(f"&f{i}" for i in range(n)) + " }; return *r[i]; }")
            out.append("};")
    for g in range(3):
        out.append(f"#define VH_BOUND{g}(X) " + " ".join(f"X(N{n})" for n in range(1, 51) if n % 3 == g))
    out.append("#define VH_ALL_WBOUND(X) " + " ".join(f"X(W{n})" for n in (1, 2, 7, 33, 50)))
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c23_bind.hpp")
    open(p, "w").write("\n".join(out) + "\n")

main()
