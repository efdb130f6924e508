"""Loads the MIR dump of /repo's current tree (see bin/dump.sh)."""
import json, os, subprocess, sys, gc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Program:
    def __init__(self, path):
        self.insts = {}
        self.by_path = {}
        self.consts = {}
        self.adts = {}
        self.impls = []
        gc.disable()
        ended = False
        with open(path) as f:
            for line in f:
                r = json.loads(line)
                k = r["rec"]
                if k == "inst":
                    self.insts[r["id"]] = r
                    self.by_path.setdefault(r["path"], []).append(r)
                elif k == "const":
                    self.consts[r["path"]] = r
                elif k == "adt":
                    self.adts[r["path"]] = Adt(r["path"], r["variants"])
                elif k == "impl":
                    self.impls.append(r)
                elif k == "end":
                    ended = True
                    self.counts = r
        gc.freeze()
        gc.enable()
        if not ended:
            raise SystemExit("dump truncated: " + path)
        for n, vs in BUILTIN_ADTS.items():
            self.adts.setdefault(n, Adt(n, vs))
        # (trait, self type) -> {method: path}
        self.impl_index = {}
        for im in self.impls:
            d = self.impl_index.setdefault((im["trait"], im["self"]), {})
            for n, p in im["items"]:
                d[n] = p
        self.trait_self = {}
        for im in self.impls:
            self.trait_self.setdefault(im["trait"], []).append(im["self"])

    def one(self, path):
        """The unique non-generic instance with this path."""
        l = self.by_path.get(path, [])
        if len(l) != 1:
            raise KeyError("%s: %d instances" % (path, len(l)))
        return l[0]

    def get(self, path):
        l = self.by_path.get(path, [])
        return l[0] if len(l) == 1 else None


class Adt:
    __slots__ = ("path", "variants", "by_name", "by_discr", "is_enum")

    def __init__(self, path, variants):
        self.path = path
        # [(name, discr, [(field, ty)])]
        self.variants = [(v[0], int(v[1]), [tuple(x) for x in v[2]]) for v in variants]
        self.by_name = {v[0]: i for i, v in enumerate(self.variants)}
        self.by_discr = {v[1]: i for i, v in enumerate(self.variants)}
        self.is_enum = len(self.variants) > 1


BUILTIN_ADTS = {
    "std::option::Option": [["None", "0", []], ["Some", "1", [["0", "T"]]]],
    "std::result::Result": [["Ok", "0", [["0", "T"]]], ["Err", "1", [["0", "E"]]]],
    "std::ops::ControlFlow": [["Continue", "0", [["0", "C"]]], ["Break", "1", [["0", "B"]]]],
    "std::cmp::Ordering": [["Less", str(2**8 - 1), []], ["Equal", "0", []], ["Greater", "1", []]],
    "std::ops::Range": [["Range", "0", [["start", "Idx"], ["end", "Idx"]]]],
    "std::borrow::Cow": [["Borrowed", "0", [["0", "B"]]], ["Owned", "1", [["0", "O"]]]],
}

_prog = None


def load():
    global _prog
    if _prog is None:
        p = os.environ.get("MIRDUMP_FILE")
        if not p:
            r = subprocess.run([os.path.join(HERE, "bin", "dump.sh")], stdout=subprocess.PIPE)
            if r.returncode != 0:
                raise DumpError("could not extract the program from the current tree")
            p = r.stdout.decode().strip().split("\n")[-1]
        _prog = Program(p)
    return _prog


class DumpError(Exception):
    pass
