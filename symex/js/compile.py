"""ESTree nodes to Python closures."""
from .. import transform, values
from . import interp as I
from .interp import (UNDEF, NAN, Arr, Env, Fun, Obj, Acc, Thrown, Rope, rope,
                     unsupported, is_sym, norm, BREAK, CONTINUE, RETURN)
from ..values import SymBool


class Compiler(object):
    def __init__(self, vm, where=None):
        self.vm = vm
        self.where = where

    # -- scopes ---------------------------------------------------------
    def var_names(self, node, out, top=True):
        """Names declared by var and by functions of this body"""
        if isinstance(node, list):
            for n in node:
                self.var_names(n, out, top)
            return
        if not isinstance(node, dict):
            return
        t = node.get("type")
        if t == "VariableDeclaration":
            if node["kind"] == "var":
                for d in node["declarations"]:
                    self.pattern_names(d["id"], out)
            return
        if t in ("FunctionExpression", "ArrowFunctionExpression",
                 "FunctionDeclaration", "ClassDeclaration",
                 "ClassExpression"):
            return
        for k in ("body", "consequent", "alternate", "init", "left", "block",
                  "handler", "finalizer", "cases"):
            if k in node and not (t in ("ConditionalExpression",)):
                self.var_names(node[k], out, False)

    def pattern_names(self, p, out):
        t = p["type"]
        if t == "Identifier":
            out.append(p["name"])
        elif t == "ObjectPattern":
            for q in p["properties"]:
                self.pattern_names(q["argument"] if q["type"] ==
                                   "RestElement" else q["value"], out)
        elif t == "ArrayPattern":
            for q in p["elements"]:
                if q:
                    self.pattern_names(q, out)
        elif t == "AssignmentPattern":
            self.pattern_names(p["left"], out)
        elif t == "RestElement":
            self.pattern_names(p["argument"], out)
        else:
            unsupported("pattern " + t)

    def functions(self, body):
        """Function declarations of a list of statements, compiled"""
        out = []
        for n in body:
            if n["type"] == "FunctionDeclaration":
                out.append((n["id"]["name"], self.function(n)))
            elif n["type"] == "LabeledStatement" and \
                    n["body"]["type"] == "FunctionDeclaration":
                unsupported("labelled function")
        return out

    def lexical(self, body):
        """let, const and class names of a list of statements"""
        out = []
        for n in body:
            if n["type"] == "VariableDeclaration" and n["kind"] != "var":
                for d in n["declarations"]:
                    self.pattern_names(d["id"], out)
            elif n["type"] == "ClassDeclaration":
                out.append(n["id"]["name"])
        return out

    def program(self, tree):
        vm = self.vm
        names = []
        self.var_names(tree["body"], names)
        funs = self.functions(tree["body"])
        stmts = [self.stmt(s) for s in tree["body"]]

        def run(env):
            for n in names:
                if n not in env.vars:
                    vm.declare(env, n, UNDEF)
            for n, f in funs:
                vm.declare(env, n, f(env))
            for s in stmts:
                s(env)
        return run

    # -- statements -----------------------------------------------------
    def stmt(self, n):
        return getattr(self, "s_" + n["type"], self.no(n))(n)

    def no(self, n):
        def fail(_):
            unsupported("syntax " + n["type"])
        return fail

    def block_of(self, body):
        funs = self.functions(body)
        lex = self.lexical(body)
        stmts = [self.stmt(s) for s in body]
        if not funs and not lex:
            def plain(env):
                for s in stmts:
                    r = s(env)
                    if r is not None:
                        return r
            return plain

        def scoped(env):
            env = Env(env)
            for n, f in funs:
                env.vars[n] = f(env)
            for s in stmts:
                r = s(env)
                if r is not None:
                    return r
        return scoped

    def s_BlockStatement(self, n):
        return self.block_of(n["body"])

    def s_EmptyStatement(self, n):
        return lambda env: None

    s_DebuggerStatement = s_EmptyStatement

    def s_FunctionDeclaration(self, n):
        return lambda env: None

    def s_ExpressionStatement(self, n):
        e = self.expr(n["expression"])

        def run(env):
            e(env)
        return run

    def s_VariableDeclaration(self, n):
        kind = n["kind"]
        todo = []
        for d in n["declarations"]:
            init = self.expr(d["init"], d["id"]) if d["init"] else None
            if init is None and kind == "var":
                continue
            todo.append((self.target(d["id"], kind), init))

        def run(env):
            for put, init in todo:
                put(env, init(env) if init else UNDEF)
        return run

    def s_ClassDeclaration(self, n):
        make = self.klass(n)
        name = n["id"]["name"]
        vm = self.vm

        def run(env):
            vm.declare(env, name, make(env))
        return run

    def s_IfStatement(self, n):
        test = self.expr(n["test"])
        a = self.stmt(n["consequent"])
        b = self.stmt(n["alternate"]) if n["alternate"] else None
        truthy = self.vm.truthy

        def run(env):
            if truthy(test(env)):
                return a(env)
            if b:
                return b(env)
        return run

    def s_ReturnStatement(self, n):
        arg = self.expr(n["argument"]) if n["argument"] else None

        def run(env):
            return (RETURN, arg(env) if arg else UNDEF)
        return run

    def s_BreakStatement(self, n):
        r = (BREAK, n["label"]["name"] if n["label"] else None)
        return lambda env: r

    def s_ContinueStatement(self, n):
        r = (CONTINUE, n["label"]["name"] if n["label"] else None)
        return lambda env: r

    def s_ThrowStatement(self, n):
        arg = self.expr(n["argument"])

        def run(env):
            raise Thrown(arg(env))
        return run

    def s_LabeledStatement(self, n):
        label = n["label"]["name"]
        inner = n["body"]
        if inner["type"] in ("ForStatement", "ForInStatement",
                             "ForOfStatement", "WhileStatement",
                             "DoWhileStatement"):
            inner = dict(inner, labels=n.get("labels", []) + [label])
        elif inner["type"] == "LabeledStatement":
            inner = dict(inner, labels=n.get("labels", []) + [label])
        body = self.stmt(inner)

        def run(env):
            r = body(env)
            if r is not None and r == (BREAK, label):
                return None
            return r
        return run

    def loop_result(self, n):
        labels = set(n.get("labels", []))

        def check(r):
            """None: go on; else (stop, completion)"""
            kind, what = r
            if kind is RETURN:
                return (True, r)
            if what is None or what in labels:
                return (True, None) if kind is BREAK else None
            return (True, r)
        return check

    def s_WhileStatement(self, n):
        test, body = self.expr(n["test"]), self.stmt(n["body"])
        truthy, vm = self.vm.truthy, self.vm
        check = self.loop_result(n)

        def run(env):
            while truthy(test(env)):
                vm.tick()
                r = body(env)
                if r is not None:
                    r = check(r)
                    if r:
                        return r[1]
        return run

    def s_DoWhileStatement(self, n):
        test, body = self.expr(n["test"]), self.stmt(n["body"])
        truthy, vm = self.vm.truthy, self.vm
        check = self.loop_result(n)

        def run(env):
            while True:
                vm.tick()
                r = body(env)
                if r is not None:
                    r = check(r)
                    if r:
                        return r[1]
                if not truthy(test(env)):
                    return
        return run

    def s_ForStatement(self, n):
        init = n["init"]
        names = []
        if init and init["type"] == "VariableDeclaration":
            if init["kind"] != "var":
                for d in init["declarations"]:
                    self.pattern_names(d["id"], names)
            first = self.stmt(init)
        else:
            first = self.expr(init) if init else None
        test = self.expr(n["test"]) if n["test"] else None
        update = self.expr(n["update"]) if n["update"] else None
        body = self.stmt(n["body"])
        truthy, vm = self.vm.truthy, self.vm
        check = self.loop_result(n)

        def run(env):
            if names:
                env = Env(env)
            if first:
                first(env)
            while test is None or truthy(test(env)):
                vm.tick()
                r = body(env)
                if r is not None:
                    r = check(r)
                    if r:
                        return r[1]
                if names:
                    new = Env(env.up)
                    new.vars.update(env.vars)
                    env = new
                if update:
                    update(env)
        return run

    def for_each(self, n, items):
        left = n["left"]
        scoped = False
        if left["type"] == "VariableDeclaration":
            scoped = left["kind"] != "var"
            put = self.target(left["declarations"][0]["id"], left["kind"])
        else:
            put = self.target(left, None)
        right, body = self.expr(n["right"]), self.stmt(n["body"])
        vm = self.vm
        check = self.loop_result(n)

        def run(env):
            for item in items(right(env)):
                vm.tick()
                inner = Env(env) if scoped else env
                if item is None:
                    continue
                put(inner, item[0])
                r = body(inner)
                if r is not None:
                    r = check(r)
                    if r:
                        return r[1]
        return run

    def s_ForInStatement(self, n):
        vm = self.vm

        def items(o):
            if o is None or o is UNDEF:
                return
            seen = set()
            first = o
            while o is not None:
                for k in vm.own_keys(o):
                    if k in seen:
                        continue
                    seen.add(k)
                    if type(o) is str or vm.has(first, k):
                        yield (k,)
                o = o.proto if isinstance(o, Obj) and \
                    not self.builtin(o.proto) else None
        return self.for_each(n, items)

    def builtin(self, o):
        vm = self.vm
        return o is None or (o in (vm.object_proto, vm.array_proto,
                                   vm.fun_proto, vm.map_proto, vm.set_proto,
                                   vm.error_proto))

    def s_ForOfStatement(self, n):
        vm = self.vm

        def items(o):
            if type(o) is Arr:
                i = 0
                while i < len(o.items):
                    yield (o.items[i],)
                    i += 1
            else:
                for x in vm.iterate(o):
                    yield (x,)
        return self.for_each(n, items)

    def s_SwitchStatement(self, n):
        what = self.expr(n["discriminant"])
        cases = [(self.expr(c["test"]) if c["test"] else None,
                  [self.stmt(s) for s in c["consequent"]])
                 for c in n["cases"]]
        funs = self.functions([s for c in n["cases"]
                               for s in c["consequent"]])
        vm = self.vm

        def run(env):
            env = Env(env)
            for name, f in funs:
                env.vars[name] = f(env)
            v = what(env)
            start = None
            for i, (test, _) in enumerate(cases):
                if test and vm.truthy(vm.strict(v, test(env))):
                    start = i
                    break
            if start is None:
                for i, (test, _) in enumerate(cases):
                    if test is None:
                        start = i
            if start is None:
                return
            for _, body in cases[start:]:
                for s in body:
                    r = s(env)
                    if r is not None:
                        if r == (BREAK, None):
                            return None
                        return r
        return run

    def s_TryStatement(self, n):
        block = self.stmt(n["block"])
        h = n["handler"]
        final = self.stmt(n["finalizer"]) if n["finalizer"] else None
        if h:
            put = self.target(h["param"], "let") if h["param"] else None
            handler = self.stmt(h["body"])

        def run(env):
            r = None
            try:
                try:
                    r = block(env)
                except Thrown as e:
                    if not h:
                        raise
                    inner = Env(env)
                    if put:
                        put(inner, e.value)
                    r = handler(inner)
            except Thrown:
                if final:
                    q = final(env)
                    if q is not None:
                        return q
                raise
            if final:
                q = final(env)
                if q is not None:
                    return q
            return r
        return run

    # -- assignment targets ---------------------------------------------
    def target(self, p, kind):
        """put(env, value) of a pattern; kind None: an assignment"""
        vm = self.vm
        t = p["type"]
        if t == "Identifier":
            name = p["name"]
            if kind in (None, "var"):
                return lambda env, v: vm.write(env, name, v)
            const = kind == "const"
            return lambda env, v: vm.declare(env, name, v, const)
        if t == "MemberExpression":
            o, k = self.expr(p["object"]), self.prop_key(p)

            def put(env, v):
                vm.put(o(env), k(env), v)
            return put
        if t == "AssignmentPattern":
            inner = self.target(p["left"], kind)
            default = self.expr(p["right"], p["left"])

            def put_default(env, v):
                inner(env, default(env) if v is UNDEF else v)
            return put_default
        if t == "ArrayPattern":
            parts = [(q["type"] == "RestElement",
                      self.target(q.get("argument") if q["type"] ==
                                  "RestElement" else q, kind))
                     if q else None for q in p["elements"]]

            def put_array(env, v):
                items = vm.iterate(v)
                for i, q in enumerate(parts):
                    if q is None:
                        continue
                    rest, put = q
                    put(env, vm.arr(items[i:]) if rest else
                        items[i] if i < len(items) else UNDEF)
            return put_array
        if t == "ObjectPattern":
            parts = []
            for q in p["properties"]:
                if q["type"] == "RestElement":
                    parts.append((None, self.target(q["argument"], kind)))
                else:
                    parts.append((self.lit_key(q),
                                  self.target(q["value"], kind)))

            def put_object(env, v):
                used = []
                if v is None or v is UNDEF:
                    vm.throw("TypeError", "Cannot destructure")
                for key, put in parts:
                    if key is None:
                        put(env, vm.obj({k: vm.get(v, k)
                                         for k in vm.own_keys(v)
                                         if k not in used}))
                    else:
                        k = vm.key(key(env))
                        used.append(k)
                        put(env, vm.get(v, k))
            return put_object
        unsupported("target " + t)

    def lit_key(self, q):
        k = q["key"]
        if q.get("computed"):
            return self.expr(k)
        if k["type"] == "Identifier":
            name = k["name"]
        else:
            name = self.vm.to_str(norm(k["value"]) if isinstance(
                k["value"], float) else k["value"])
        return lambda env: name

    def prop_key(self, p):
        if p["computed"]:
            return self.expr(p["property"])
        name = p["property"]["name"]
        return lambda env: name

    # -- functions ------------------------------------------------------
    def function(self, n, name=None):
        vm = self.vm
        if n.get("generator") or n.get("async"):
            unsupported("generator or async function")
        arrow = n["type"] == "ArrowFunctionExpression"
        simple = all(p["type"] == "Identifier" for p in n["params"])
        params = [p["name"] for p in n["params"]] if simple else None
        targets = None if simple else [
            (p["type"] == "RestElement",
             self.target(p["argument"] if p["type"] == "RestElement" else p,
                         "let")) for p in n["params"]]
        names = []
        if n["body"]["type"] == "BlockStatement":
            body = n["body"]["body"]
            self.var_names(body, names)
            funs = self.functions(body)
            stmts = [self.stmt(s) for s in body]
            value = None
        else:
            funs, stmts = [], []
            value = self.expr(n["body"])
        names = sorted(set(names))
        own = n["id"]["name"] if n.get("id") else None
        selfref = own if n["type"] == "FunctionExpression" else None
        label = own or name or ""
        known = self.where and "%s:%s" % (self.where, label or "function")
        nparams = len([p for p in n["params"]
                       if p["type"] == "Identifier"])
        uses_args = self.mentions(n["body"], "arguments") and not arrow

        def make(env):
            fun = Fun(vm.fun_proto, None, label)
            fun.extra = nparams
            defenv = env
            if selfref:
                defenv = Env(env)
                defenv.vars[selfref] = fun

            def run(this, args):
                vm.tick()
                if known:
                    transform.sx_fn(known)
                e = Env(defenv, None if arrow else this, not arrow)
                if arrow:
                    e.this = defenv.this
                elif this is UNDEF or this is None:
                    e.this = vm.glob
                v = e.vars
                if uses_args:
                    a = Obj(vm.object_proto, "Arguments")
                    for i, x in enumerate(args):
                        a.props[str(i)] = x
                    a.props["length"] = len(args)
                    v["arguments"] = a
                if params is not None:
                    k = len(args)
                    for i, p in enumerate(params):
                        v[p] = args[i] if i < k else UNDEF
                else:
                    for i, (rest, put) in enumerate(targets):
                        put(e, vm.arr(args[i:]) if rest else
                            args[i] if i < len(args) else UNDEF)
                for x in names:
                    if x not in v:
                        v[x] = UNDEF
                for x, f in funs:
                    v[x] = f(e)
                if value is not None:
                    return value(e)
                for s in stmts:
                    r = s(e)
                    if r is not None:
                        return r[1]
                return UNDEF
            fun.run = run
            if not arrow:
                proto = vm.obj()
                proto.props["constructor"] = fun
                proto.extra = {"constructor"}
                fun.props["prototype"] = proto
                fun.extra = nparams
            return fun
        return make

    def mentions(self, node, name):
        if isinstance(node, list):
            return any(self.mentions(x, name) for x in node)
        if not isinstance(node, dict):
            return False
        if node.get("type") == "Identifier" and node["name"] == name:
            return True
        if node.get("type") in ("FunctionExpression",
                                "FunctionDeclaration"):
            return False
        return any(self.mentions(x, name) for k, x in node.items()
                   if k not in ("type", "loc"))

    def klass(self, n):
        vm = self.vm
        if n["superClass"]:
            unsupported("class with a base class")
        ctor, methods = None, []
        for m in n["body"]["body"]:
            if m["type"] != "MethodDefinition" or \
                    m["kind"] not in ("method", "constructor", "get", "set"):
                unsupported("class member")
            f = self.function(m["value"])
            if m["kind"] == "constructor":
                ctor = f
            else:
                methods.append((m["static"], m["kind"], self.lit_key(m), f))
        if ctor is None:
            ctor = self.function({
                "type": "FunctionExpression", "params": [], "id": None,
                "body": {"type": "BlockStatement", "body": []}})

        def make(env):
            cls = ctor(env)
            if n.get("id"):
                cls.name = n["id"]["name"]
            proto = cls.props["prototype"]
            hidden = {"constructor"}
            for static, kind, key, f in methods:
                k = vm.key(key(env))
                where = cls if static else proto
                if kind == "method":
                    where.props[k] = f(env)
                else:
                    acc = where.props.get(k)
                    if type(acc) is not Acc:
                        acc = where.props[k] = Acc()
                    setattr(acc, kind, f(env))
                hidden.add(k)
            proto.extra = hidden
            return cls
        return make

    # -- expressions ----------------------------------------------------
    def expr(self, n, named=None):
        f = getattr(self, "e_" + n["type"], None)
        if f is None:
            return self.no(n)
        if named is not None and named.get("type") == "Identifier" and \
                n["type"] in ("FunctionExpression",
                              "ArrowFunctionExpression"):
            return self.function(n, named["name"])
        return f(n)

    def e_Literal(self, n):
        if "regex" in n:
            vm = self.vm
            pattern, flags = n["regex"]["pattern"], n["regex"]["flags"]
            from .builtins import regexp
            return lambda env: regexp(vm, pattern, flags)
        v = n["value"]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = norm(v)
        return lambda env: v

    def e_Identifier(self, n):
        name = n["name"]
        if name == "undefined":
            return lambda env: UNDEF
        read = self.vm.read

        def run(env):
            e = env
            while e is not None:
                v = e.vars
                if name in v:
                    return v[name]
                e = e.up
            return read(env, name)
        return run

    def e_ThisExpression(self, n):
        return lambda env: env.this

    def e_ArrayExpression(self, n):
        vm = self.vm
        parts = []
        for q in n["elements"]:
            if q is None:
                parts.append((False, lambda env: UNDEF))
            elif q["type"] == "SpreadElement":
                parts.append((True, self.expr(q["argument"])))
            else:
                parts.append((False, self.expr(q)))

        def run(env):
            out = []
            for spread, f in parts:
                if spread:
                    out.extend(vm.iterate(f(env)))
                else:
                    out.append(f(env))
            return vm.arr(out)
        return run

    def e_ObjectExpression(self, n):
        vm = self.vm
        parts = []
        for q in n["properties"]:
            if q["type"] == "SpreadElement":
                parts.append(("spread", None, self.expr(q["argument"])))
            else:
                parts.append((q["kind"], self.lit_key(q),
                              self.expr(q["value"], q["key"] if not
                                        q["computed"] else None)))

        def run(env):
            o = vm.obj()
            for kind, key, f in parts:
                if kind == "spread":
                    v = f(env)
                    for k in vm.own_keys(v):
                        o.props[k] = vm.get(v, k)
                    continue
                k = vm.key(key(env))
                if kind == "init":
                    o.props[k] = f(env)
                else:
                    acc = o.props.get(k)
                    if type(acc) is not Acc:
                        acc = o.props[k] = Acc()
                    setattr(acc, kind, f(env))
            return o
        return run

    def e_FunctionExpression(self, n):
        return self.function(n)

    e_ArrowFunctionExpression = e_FunctionExpression

    def e_ClassExpression(self, n):
        return self.klass(n)

    def e_TemplateLiteral(self, n):
        vm = self.vm
        texts = [q["value"]["cooked"] for q in n["quasis"]]
        exprs = [self.expr(e) for e in n["expressions"]]

        def run(env):
            out = [texts[0]]
            for e, t in zip(exprs, texts[1:]):
                out.append(vm.to_str(e(env)))
                out.append(t)
            return rope(out)
        return run

    def e_SequenceExpression(self, n):
        parts = [self.expr(e) for e in n["expressions"]]

        def run(env):
            for p in parts:
                v = p(env)
            return v
        return run

    def e_ChainExpression(self, n):
        inner = self.expr(n["expression"])

        def run(env):
            try:
                return inner(env)
            except Short:
                return UNDEF
        return run

    def e_MemberExpression(self, n):
        vm = self.vm
        o, k = self.expr(n["object"]), self.prop_key(n)
        optional = n.get("optional")
        if not n["computed"]:
            name = n["property"]["name"]

            def run_name(env):
                v = o(env)
                if optional and (v is None or v is UNDEF):
                    raise Short()
                return vm.get(v, name)
            return run_name

        def run(env):
            v = o(env)
            if optional and (v is None or v is UNDEF):
                raise Short()
            return vm.get(v, k(env))
        return run

    def args(self, nodes):
        vm = self.vm
        parts = [(a["type"] == "SpreadElement",
                  self.expr(a["argument"] if a["type"] == "SpreadElement"
                            else a)) for a in nodes]
        if not any(s for s, _ in parts):
            fs = [f for _, f in parts]
            return lambda env: [f(env) for f in fs]

        def run(env):
            out = []
            for s, f in parts:
                if s:
                    out.extend(vm.iterate(f(env)))
                else:
                    out.append(f(env))
            return out
        return run

    def e_CallExpression(self, n):
        vm = self.vm
        callee = n["callee"]
        args = self.args(n["arguments"])
        optional = n.get("optional")
        if callee["type"] == "MemberExpression":
            o, k = self.expr(callee["object"]), self.prop_key(callee)
            opt2 = callee.get("optional")

            def method(env):
                this = o(env)
                if opt2 and (this is None or this is UNDEF):
                    raise Short()
                key = k(env)
                f = vm.get(this, key)
                if optional and (f is None or f is UNDEF):
                    raise Short()
                a = args(env)
                if type(f) is not Fun:
                    vm.throw("TypeError", "%s is not a function" %
                             vm.describe(key))
                return f.run(this, a)
            return method
        f = self.expr(callee)

        def run(env):
            fun = f(env)
            if optional and (fun is None or fun is UNDEF):
                raise Short()
            return vm.call(fun, UNDEF, args(env))
        return run

    def e_NewExpression(self, n):
        vm = self.vm
        f, args = self.expr(n["callee"]), self.args(n["arguments"])
        return lambda env: vm.construct(f(env), args(env))

    def e_ConditionalExpression(self, n):
        t, a, b = (self.expr(n[k])
                   for k in ("test", "consequent", "alternate"))
        truthy = self.vm.truthy
        return lambda env: a(env) if truthy(t(env)) else b(env)

    def e_LogicalExpression(self, n):
        a, b, op = self.expr(n["left"]), self.expr(n["right"]), n["operator"]
        truthy = self.vm.truthy

        def run(env):
            v = a(env)
            if op == "??":
                return b(env) if v is None or v is UNDEF else v
            if type(v) is SymBool:
                v = bool(v)
            if truthy(v) == (op == "&&"):
                return b(env)
            return v
        return run

    def e_UnaryExpression(self, n):
        vm = self.vm
        op = n["operator"]
        arg = n["argument"]
        if op == "typeof" and arg["type"] == "Identifier":
            name = arg["name"]
            get = self.expr(arg)

            def typeof(env):
                try:
                    return vm.typeof(get(env))
                except Thrown:
                    return "undefined"
            return typeof
        if op == "delete":
            if arg["type"] == "ChainExpression":
                arg = arg["expression"]
            if arg["type"] != "MemberExpression":
                return lambda env: False
            o, k = self.expr(arg["object"]), self.prop_key(arg)
            return lambda env: vm.delete(o(env), k(env))
        a = self.expr(arg)
        if op == "!":
            def nope(env):
                v = a(env)
                if type(v) is SymBool:
                    return values.neg(v)
                return not vm.truthy(v)
            return nope
        if op == "typeof":
            return lambda env: vm.typeof(a(env))
        if op == "-":
            def minus(env):
                v = vm.to_num(a(env))
                if is_sym(v):
                    return -v
                return norm(-float(v))
            return minus
        if op == "+":
            return lambda env: vm.to_num(a(env))
        if op == "~":
            return lambda env: ~vm.int32(a(env))
        if op == "void":
            def void(env):
                a(env)
                return UNDEF
            return void
        return self.no(n)

    def binary(self, op):
        vm = self.vm
        if op == "+":
            return vm.add
        if op in ("-", "*", "/", "%", "**"):
            return lambda a, b: vm.arith(a, b, op)
        if op in ("&", "|", "^", "<<", ">>", ">>>"):
            return lambda a, b: vm.bits(a, b, op)
        if op in ("<", ">", "<=", ">="):
            return lambda a, b: vm.less(a, b, op)
        if op == "===":
            return vm.strict
        if op == "!==":
            return lambda a, b: inv(vm.strict(a, b))
        if op == "==":
            return vm.loose
        if op == "!=":
            return lambda a, b: inv(vm.loose(a, b))
        if op == "in":
            def within(a, b):
                if not isinstance(b, Obj):
                    vm.throw("TypeError", "Cannot use 'in' operator")
                return vm.has(b, a)
            return within
        if op == "instanceof":
            def instance(a, b):
                if type(b) is not Fun:
                    vm.throw("TypeError", "not callable")
                proto = b.props.get("prototype")
                p = a.proto if isinstance(a, Obj) else None
                while p is not None:
                    if p is proto:
                        return True
                    p = p.proto
                return False
            return instance
        unsupported("operator " + op)

    def e_BinaryExpression(self, n):
        a, b = self.expr(n["left"]), self.expr(n["right"])
        f = self.binary(n["operator"])
        return lambda env: f(a(env), b(env))

    def e_AssignmentExpression(self, n):
        vm = self.vm
        op = n["operator"]
        left = n["left"]
        right = self.expr(n["right"], left)
        if op == "=":
            if left["type"] == "MemberExpression":
                o, k = self.expr(left["object"]), self.prop_key(left)

                def put_member(env):
                    where = o(env)
                    key = k(env)
                    v = right(env)
                    vm.put(where, key, v)
                    return v
                return put_member
            put = self.target(left, None)

            def assign(env):
                v = right(env)
                put(env, v)
                return v
            return assign
        logical = op in ("&&=", "||=", "??=")
        f = None if logical else self.binary(op[:-1])

        def combine(env, old):
            if not logical:
                return True, f(old, right(env))
            if op == "??=":
                go = old is None or old is UNDEF
            else:
                go = vm.truthy(old) == (op == "&&=")
            return go, right(env) if go else old
        if left["type"] == "Identifier":
            name = left["name"]
            get = self.expr(left)

            def update_name(env):
                go, v = combine(env, get(env))
                if go:
                    vm.write(env, name, v)
                return v
            return update_name
        o, k = self.expr(left["object"]), self.prop_key(left)

        def update(env):
            where, key = o(env), k(env)
            go, v = combine(env, vm.get(where, key))
            if go:
                vm.put(where, key, v)
            return v
        return update

    def e_UpdateExpression(self, n):
        vm = self.vm
        d = 1 if n["operator"] == "++" else -1
        prefix = n["prefix"]
        arg = n["argument"]
        if arg["type"] == "Identifier":
            name, get = arg["name"], self.expr(arg)

            def run_name(env):
                old = vm.to_num(get(env))
                new = vm.arith(old, d, "+")
                vm.write(env, name, new)
                return new if prefix else old
            return run_name
        o, k = self.expr(arg["object"]), self.prop_key(arg)

        def run(env):
            where, key = o(env), k(env)
            old = vm.to_num(vm.get(where, key))
            new = vm.arith(old, d, "+")
            vm.put(where, key, new)
            return new if prefix else old
        return run


class Short(Exception):
    """The rest of an optional chain is skipped"""


def inv(c):
    if type(c) is SymBool:
        return values.neg(c)
    return not c
