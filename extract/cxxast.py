"""Load clang's JSON AST of the code under verification.

The dump is the verified text's only source: nothing below looks at the C++ text."""
import json, os, subprocess, re

HERE = os.path.dirname(os.path.abspath(__file__))


BENCH = "vpbench"


class ExtractError(Exception):
    pass


def dump(repo, tu=None, extra=()):
    tu = tu or os.path.join(HERE, "tu.cpp")
    cmd = ["clang++", "-std=c++14", "-mpopcnt", "-msse4.2", "-fsyntax-only", "-w",
           "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(repo, "include"),
           *extra,
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=surf", tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError("clang failed: " + p.stderr[-2000:])
    if p.stdout and os.path.exists(os.path.join(repo, "bench", "bloom.hpp")):
        # the Bloom filter of bench/, in a namespace of its own (its names clash with include/hash.hpp)
        cmd = cmd[:-2] + ["-ast-dump-filter=" + BENCH, os.path.join(HERE, "tu_bench.cpp")]
        cmd.insert(1, "-I" + os.path.join(repo, "bench"))
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if q.returncode == 0:
            return p.stdout + "\n" + q.stdout
    return p.stdout


def load(text):
    dec = json.JSONDecoder()
    i, out = 0, []
    while i < len(text):
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            break
        o, i = dec.raw_decode(text, i)
        out.append(o)
    for o in out:
        _lines(o, [None, 0])
    return out


def _lines(n, st):
    """clang prints file/line only when they change: fill them in, in document order."""
    def setloc(d):
        if "file" in d:
            st[0] = d["file"]
        if "line" in d:
            st[1] = d["line"]
        for k, v in d.items():
            if k in ("spellingLoc", "expansionLoc", "begin", "end") and isinstance(v, dict):
                setloc(v)
    if isinstance(n, dict):
        for k, v in list(n.items()):
            if k == "loc":
                setloc(v)
                n["_file"], n["_line"] = st[0], st[1]
            elif k == "range":
                b = v.get("begin", {})
                setloc(b)
                n["_rline"] = st[1]
                n["_rfile"] = st[0]
                setloc(v.get("end", {}))
                n["_eline"] = st[1]
            elif k == "inner":
                for x in v:
                    _lines(x, st)


# ---------------------------------------------------------------- types
ALIAS = {}
BASIC = {
    "unsigned char": "u8", "char": "char", "signed char": "char",
    "unsigned int": "u32", "int": "i32", "unsigned long": "u64", "unsigned long long": "u64",
    "long": "i64", "long long": "i64", "bool": "bool", "void": "void",
    "uint8_t": "u8", "uint32_t": "u32", "uint64_t": "u64", "size_t": "u64", "int64_t": "i64",
    "unsigned": "u32", "int32_t": "i32",
    "size_type": "u64", "std::size_t": "u64", "uint16_t": "u16", "unsigned short": "u16",
    "int16_t": "i16", "short": "i16", "int8_t": "char",
    "__m128i": "m128", "__m128i_u": "m128",
}


def strip_ns(s):
    return re.sub(r"\b(surf|vpbench)::", "", s)


def parse_type(s):
    """-> ('u32') | ('vec', T) | 'Str' | ('class', name) | ('ptr', T, const) | ('ref', T, const)"""
    s = strip_ns(s.strip())
    if s.endswith("&&"):
        return ("rref", parse_type(s[:-2]))
    if s.endswith("&"):
        inner = s[:-1].strip()
        c = is_const(inner)
        return ("ref", parse_type(inner), c)
    m = re.match(r"^(.*)\*\s*(const)?\s*(__restrict)?$", s)
    if m:
        inner = m.group(1).strip()
        return ("ptr", parse_type(inner), is_const(inner))
    s = re.sub(r"\b(const|struct|class|enum|volatile|register)\b", "", s).strip()
    if s in BASIC:
        return BASIC[s]
    if s in ALIAS:
        return parse_type(ALIAS[s])
    if re.match(r"^(std::)?(__cxx11::)?(string|basic_string<char.*>)$", s):
        return "Str"
    m = re.match(r"^std::vector<(.*?)\s*>$", s) or re.match(r"^vector<(.*?)\s*>$", s)
    if m:
        a = m.group(1)
        a = re.sub(r",\s*(std::)?allocator<.*$", "", a)
        return ("vec", parse_type(a))
    m = re.match(r"^(.*?)\s*\[(\d+)\]$", s)
    if m:
        return ("arr", parse_type(m.group(1)), int(m.group(2)))
    if s == "SuffixType":
        return "u32"
    if s == "std::nullptr_t" or s == "nullptr_t":
        return "null"
    if re.match(r"^[A-Za-z_][A-Za-z_0-9]*(::[A-Za-z_][A-Za-z_0-9]*)*$", s):
        return ("class", s.replace("::", "_"))
    raise ExtractError("type " + s)


def is_const(s):
    s = s.strip()
    return bool(re.match(r"^const\b", s) or re.search(r"\bconst$", s))


def node_type(n):
    t = n.get("type", {})
    for k in ("desugaredQualType", "qualType"):
        if k in t:
            try:
                return parse_type(t[k])
            except ExtractError:
                pass
    # e.g. a pointer to an alias
    return parse_type(t.get("qualType", "?"))
