#!/usr/bin/env python3
"""The literals of /repo's sources (tests and comments left out), per file.

literals.py          writes contracts/literals.json: those of the tree the checks were built for
new(repo)            -> (strings, numbers) of the present tree that contracts/literals.json does not have

They only steer the search for a failing input (harness/src/gen.rs, `dict`): a behaviour that hangs on a particular
word, character or size is reached sooner with it. No verdict depends on them."""
import collections, glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|(b?r#*"|b?")|(\'(?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\\'\n])\')|'
                   r'(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def one(m):
        t = m.group(0)[1:]
        if t[0] == "u":
            n = int(t[2:-1].replace("_", ""), 16)
            return "" if 0xd800 <= n < 0xe000 else chr(n)
        if t[0] == "x":
            return chr(int(t[1:], 16))
        if t[0].isspace():
            return ""
        return ESC.get(t[0], t)
    return re.sub(r"\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", one, s, flags=re.S)


def literals(text):
    k = text.find("#[cfg(test)]\nmod ")
    if k >= 0:
        text = text[:k]
    strs, nums, i = [], [], 0
    while True:
        m = TOKEN.search(text, i)
        if not m:
            return strs, nums
        i = m.end()
        if m.group(1):
            q = m.group(1)
            if "r" in q:
                end = '"' + "#" * q.count("#")
                j = text.find(end, i)
                j = len(text) if j < 0 else j
                strs.append(text[i:j])
                i = j + len(end)
            else:
                j = i
                while j < len(text) and text[j] != '"':
                    j += 2 if text[j] == "\\" else 1
                strs.append(unescape(text[i:j]))
                i = j + 1
        elif m.group(2):
            strs.append(unescape(m.group(2)[1:-1]))
        elif m.group(3):
            n = m.group(3).replace("_", "")
            nums.append(int(n, 16) if n.startswith("0x") else int(n))


def mine(repo):
    out = {}
    for f in sorted(glob.glob(repo + "/crates/*/src/**/*.rs", recursive=True)):
        try:
            s, n = literals(open(f).read())
        except (OSError, UnicodeDecodeError, ValueError):
            continue
        out[os.path.relpath(f, repo)] = {"s": sorted(s), "n": sorted(n)}
    return out


def new(repo):
    old = json.load(open(os.path.join(V, "contracts/literals.json")))
    strs, nums = set(), set()
    # the same literal, moved to another file, is not new
    olds = collections.Counter(x for f in old.values() for x in f["s"])
    oldn = collections.Counter(x for f in old.values() for x in f["n"])
    now = mine(repo).values()
    for x, k in collections.Counter(x for f in now for x in f["s"]).items():
        if k > olds[x] and x and len(x) <= 60:
            strs.add(x)
            strs.update(w for w in re.split(r"\s+|\{[^}]*\}", x) if w)
    for x, k in collections.Counter(x for f in now for x in f["n"]).items():
        if k > oldn[x] and 1 < x <= 100000:
            nums.add(x)
            if x < 0x110000 and x > 0xa0 and not 0xd800 <= x < 0xe000:
                strs.add(chr(x))
    return sorted(strs)[:40], sorted(nums)[:20]


if __name__ == "__main__":
    json.dump(mine("/repo"), open(os.path.join(V, "contracts/literals.json"), "w"), indent=0, sort_keys=True,
              ensure_ascii=False)
