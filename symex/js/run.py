"""Run scripts of the repository with symbolic or with concrete values."""
import json
import os
import re
import subprocess
import sys

from .text import JSThrow, Num, Rope, UNDEF, norm

ACORN = os.environ.get("VERIF_ACORN",
                       "/opt/veriftools/node/node_modules/acorn")
REPO = os.environ.get("VERIF_REPO", "/repo")

_PARSE = r"""
const acorn = require(process.argv[1]);
let text = require('fs').readFileSync(0, 'utf8');
let out = JSON.parse(text).map(function (s) {
    return acorn.parse(s, {ecmaVersion: 'latest', sourceType: 'script'});
});
process.stdout.write(JSON.stringify(out, function (k, v) {
    if (k === 'start' || k === 'end' || k === 'raw') return undefined;
    if (v instanceof RegExp || typeof v === 'bigint') return null;
    return v;
}));
"""

_RUN = r"""
const vm = require('vm');
let req = JSON.parse(require('fs').readFileSync(0, 'utf8'));
globalThis.window = globalThis;
let out;
try {
    req.scripts.forEach(function (s) { vm.runInThisContext(s); });
    out = {value: globalThis[req.fn].apply(undefined, req.args)};
} catch (e) {
    out = {error: String(e && e.name) + ": " + String(e && e.message)};
}
process.stdout.write(JSON.stringify(out, function (k, v) {
    if (v === undefined) return {"$": "undefined"};
    if (typeof v === 'number' && !isFinite(v)) return {"$": String(v)};
    return v;
}));
"""

_trees = {}
_vm = []


def source(name):
    """A script: relative to the repository, or an absolute path"""
    path = name if os.path.isabs(name) else os.path.join(REPO, name)
    with open(path, encoding="utf-8") as fin:
        return fin.read()


def node(program, data, *args):
    proc = subprocess.run(["node", "-e", program] + list(args),
                          input=json.dumps(data), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, universal_newlines=True,
                          timeout=120, encoding="utf-8")
    if proc.returncode:
        raise RuntimeError("node: " + proc.stderr[-500:])
    return json.loads(proc.stdout)


def trees(texts):
    new = [t for t in texts if t not in _trees]
    if new:
        for t, tree in zip(new, node(_PARSE, new, ACORN)):
            _trees[t] = tree
    return [_trees[t] for t in texts]


def to_js(vm, v):
    if isinstance(v, dict):
        return vm.obj({k: to_js(vm, x) for k, x in v.items()})
    if type(v) in (list, tuple):
        return vm.arr([to_js(vm, x) for x in v])
    if type(v) is float:
        return norm(v)
    return v


def from_js(vm, v):
    from .interp import Arr, Fun, Obj
    if type(v) is Arr:
        return [from_js(vm, x) for x in v.items]
    if type(v) is Fun:
        return "function"
    if isinstance(v, Obj):
        return {k: from_js(vm, vm.get(v, k)) for k in vm.own_keys(v)}
    return v


def from_json(v):
    if isinstance(v, dict):
        if set(v) == {"$"}:
            return UNDEF if v["$"] == "undefined" else \
                float(v["$"].replace("Infinity", "inf"))
        return {k: from_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [from_json(x) for x in v]
    return v


def run_js(ctx, scripts, fn, args):
    """The value of the global function fn after the scripts have run."""
    texts = [source(s) for s in scripts]
    if not ctx.symbolic:
        out = node(_RUN, {"scripts": texts, "fn": fn, "args": args})
        if "error" in out:
            raise JSThrow(out["error"])
        return from_json(out["value"])
    from .interp import Interp, Obj, Thrown
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    if not _vm:
        _vm.append(Interp())
    vm = _vm[0]
    vm.reset()
    try:
        for name, tree in zip(scripts, trees(texts)):
            vm.run(tree, None if os.path.isabs(name) else name)
        f = vm.read(vm.env, fn)
        return from_js(vm, vm.call(f, UNDEF, [to_js(vm, a) for a in args]))
    except Thrown as e:
        v = e.value
        if isinstance(v, Obj) and v.cls == "Error":
            msg = vm.to_str(vm.get(v, "message"))
            raise JSThrow("%s: %s" % (vm.get(v, "name"),
                                      msg if type(msg) is str else "..."))
        raise JSThrow(vm.describe(v))


_TOKEN = re.compile(r"[A-Za-z]+|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|"
                    r"[^\sA-Za-z,]")


def tokens(text):
    """Words and numbers of a text (of the data of an SVG path, say)"""
    out = []
    if text is None or text is UNDEF:
        return out
    parts = text.parts if type(text) is Rope else [text]
    glued = False
    for p in parts:
        if type(p) is Num:
            if glued:
                out.append("glued")
            out.append(p.value)
            glued = True
            continue
        if not isinstance(p, str):
            out.append(p)
            continue
        if glued and p and re.match(r"[0-9.eE]", p):
            out.append("glued")
        for t in _TOKEN.findall(p):
            out.append(float(t) if re.match(r"[-+]?\.?\d", t) else t)
        glued = bool(p) and bool(re.search(r"[0-9.]$", p))
    return out


def plain(text):
    """The text with its numbers replaced by a mark"""
    if type(text) is Rope:
        return "".join("<num>" if type(p) is Num else p for p in text.parts)
    return text
