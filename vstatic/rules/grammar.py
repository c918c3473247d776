"""The generated parser, its parse-tree classes and the tree builder agree with grammar/Expr.g4:
every alternative is matched token by token as the grammar writes it, binds with the precedence and
associativity its position gives it, and its parse-tree class is dispatched to a builder method of its own."""
import ast
import os
import re

RULE = "grammar-agreement"
PARSER = "andromede.expression.parsing.antlr.ExprParser"
LITERAL = {}
BUILDER = "andromede.expression.parsing.parse_expression"


def read_grammar(text):
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    text = re.sub(r"(?m)//.*$", "", text)
    toks = re.findall(r"'(?:\\.|[^'])*'|\[[^\]]*\]|->|[A-Za-z_][A-Za-z_0-9]*|[:;|()?*+=#.~]", text)
    rules = {}
    i = 0
    while i < len(toks) and toks[i] != ";":
        i += 1
    i += 1
    while i < len(toks):
        j = toks.index(";", i)
        body = toks[i:j]
        i = j + 1
        if body[0][0].isupper() and len(body) == 3 and body[2][0] == "'":
            LITERAL[body[0]] = body[2]
        if body[0] == "fragment" or body[0][0].isupper():
            continue
        name = body[0]
        assert body[1] == ":"
        alts, cur, depth = [], [], 0
        for t in body[2:]:
            if t == "|" and depth == 0:
                alts.append(cur)
                cur = []
                continue
            depth += {"(": 1, ")": -1}.get(t, 0)
            cur.append(t)
        alts.append(cur)
        rules[name] = [parse_alt(a) for a in alts]
    return rules


def parse_alt(ts):
    label = None
    if "#" in ts:
        k = ts.index("#")
        label = ts[k + 1]
        ts = ts[:k]
    out = []
    i = 0
    while i < len(ts):
        lab = None
        if i + 1 < len(ts) and ts[i + 1] == "=":
            lab = ts[i]
            i += 2
        if ts[i] == "(":
            j = ts.index(")", i)
            out.append(("set", frozenset(t for t in ts[i + 1:j] if t != "|"), lab))
            i = j + 1
        else:
            out.append(("tok" if ts[i][0] == "'" or ts[i][0].isupper() else "rule", ts[i], lab))
            i += 1
        if i < len(ts) and ts[i] == "?":
            out[-1] = ("opt",) + out[-1]
            i += 1
    return label, out


def expected(rules):
    """label -> (rule, precedence predicate | None, [elements])"""
    out = {}
    for r, alts in rules.items():
        left = any(e and e[0][0] == "rule" and e[0][1] == r for _, e in alts)
        n = len(alts)
        for k, (label, es) in enumerate(alts):
            p = n - k
            pred = None
            elems = list(es)
            if left and elems and elems[0][:2] == ("rule", r):
                pred = p
                elems = elems[1:]
            shape = []
            for q, e in enumerate(elems):
                if e[0] == "opt" and e[1] == "rule":
                    arg = 0 if any(x and x[0][0] == "rule" and x[0][1] == e[2] for _, x in rules[e[2]]) else None
                    shape.append(("opt", "rule", e[2], arg, e[3]))
                elif e[0] == "rule":
                    target = e[1]
                    arg = 0 if any(x and x[0][0] == "rule" and x[0][1] == target for _, x in rules[target]) else None
                    if left and target == r and q == len(elems) - 1:
                        arg = p + 1 if pred is not None else p
                    shape.append(("rule", target, arg, e[2]))
                else:
                    shape.append(e)
            out[label or r] = (r, pred, shape)
    return out


class Gen:
    def __init__(self, ci):
        self.consts = {}
        self.names = {}
        for s in ci.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                if isinstance(s.value, ast.Constant):
                    self.consts[n] = s.value.value
                elif n in ("literalNames", "symbolicNames") and isinstance(s.value, ast.List):
                    self.names[n] = [e.value for e in s.value.elts]
        self.ci = ci

    def token(self, num):
        for n in ("literalNames", "symbolicNames"):
            xs = self.names.get(n, [])
            if 0 <= num < len(xs) and xs[num] not in ("<INVALID>", None):
                return xs[num]
        return "EOF" if num == -1 else None

    def tok_of(self, e):
        if isinstance(e, ast.Attribute):
            if e.attr == "EOF":
                return "EOF"
            if e.attr in self.consts:
                return self.token(self.consts[e.attr])
        return None

    def branches(self, rule):
        """label -> statements of the branch that creates its context"""
        fn = self.ci.methods.get(rule)
        if fn is None:
            return {}
        out = {}

        def walk(stmts):
            for s in stmts:
                c = created(s)
                if c and c.lower() != (rule + "Context").lower():
                    out[c[:-7]] = stmts
                    break
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        walk(b)
        walk(fn.node.body)
        return out

    def shape(self, stmts, r):
        pred, out, lab = None, [], None
        for s in stmts:
            if isinstance(s, ast.If) and isinstance(s.test, ast.UnaryOp):
                c = s.test.operand
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "precpred":
                    pred = c.args[1].value
                    continue
                ns = [x.comparators[0].value for x in ast.walk(c) if isinstance(x, ast.Compare) and isinstance(x.comparators[0], ast.Constant)]
                if ns:
                    out.append(("set", frozenset(self.token(n) for n in ns), lab))
                    lab = None
                    continue
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)):
                inner = self.shape(s.body, r)[1]
                if len(inner) == 1:
                    out.append(("opt",) + tuple(inner[0]))
                continue
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == "localctx":
                lab = s.targets[0].attr
                if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "self":
                    out.append(self.element(s.value, lab))
                    lab = None
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                e = self.element(s.value, None)
                if e:
                    out.append(e)
        return pred, [e for e in out if e]

    def element(self, c, lab):
        if not (isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self"):
            return None
        n = c.func.attr
        if n == "match" and c.args:
            return ("tok", self.tok_of(c.args[0]), lab)
        if n in self.ci.methods and not n.endswith("sempred") and n != "__init__":
            return ("rule", n, c.args[0].value if c.args and isinstance(c.args[0], ast.Constant) else None, lab)
        return None


def created(s):
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "localctx" and isinstance(s.value, ast.Call):
        f = s.value.func
        if isinstance(f, ast.Attribute) and f.attr.endswith("Context"):
            return f.attr
    return None


def norm(e):
    e = tuple(e)
    if e[0] == "opt":
        return ("opt",) + norm(e[1:])
    if e[0] == "tok":
        return ("tok", LITERAL.get(e[1], e[1]))
    if e[0] == "set":
        return ("set", e[1])
    lab = e[-1]
    return ("rule", e[1], e[2] if len(e) == 4 else None, {"from": "from_"}.get(lab, lab))


def cap(s):
    return s[0].upper() + s[1:]


class Method:
    def __init__(self, qual, node):
        self.qual = qual
        self.node = node


class Cls:
    """class of the generated parser"""

    def __init__(self, qual, node):
        self.qual = qual
        self.node = node
        self.methods = {f.name: Method(qual + "." + f.name, f) for f in node.body if isinstance(f, ast.FunctionDef)}
        self.nested = {c.name: Cls(qual + "." + c.name, c) for c in node.body if isinstance(c, ast.ClassDef)}


def load_parser(repo):
    path = os.path.join(repo, "src", *PARSER.split(".")) + ".py"
    if not os.path.exists(path):
        return None
    for n in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(n, ast.ClassDef) and n.name == "ExprParser":
            return Cls(PARSER + ".ExprParser", n)
    return None


def run(P, rep, repo, thorough):
    path = os.path.join(repo, "grammar", "Expr.g4")
    ci = load_parser(repo)
    bm = P.resolve(BUILDER, "ExpressionNodeBuilderVisitor")
    if not os.path.exists(path) or ci is None or not bm or bm[0] != "class":
        rep.unknown(RULE, "grammar", "grammar, generated parser or tree builder not found")
        return
    try:
        rules = read_grammar(open(path, encoding="utf-8").read())
        exp = expected(rules)
    except Exception as e:      # an unreadable grammar is undetermined, never an alarm
        rep.unknown(RULE, "grammar", f"{type(e).__name__}: {e}")
        return
    bi = P.classes[bm[1]]
    g = Gen(ci)
    for label, (r, pred, shape) in sorted(exp.items()):
        name = cap(label)
        # dispatch
        m = P.find_method(bi, "visit" + name)
        if m is None:
            rep.bad(RULE, f"builder visit{name}", f"alternative '{label}' of rule '{r}' has no builder method of its own: its subtree is dropped", functions=[bi.qual])
        else:
            rep.ok(RULE, f"builder visit{name}", [m.qual], f"alternative {label} is built by {m.qual}")
        cq = ci.qual + "." + name + "Context"
        cc = ci.nested.get(name + "Context")
        acc = cc.methods.get("accept") if cc else None
        if acc is None:
            rep.unknown(RULE, f"accept {name}", "no parse-tree class found")
        else:
            called = [n.func.attr for n in ast.walk(acc.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith("visit")]
            if "visit" + name in called and all(c in ("visit" + name, "visitChildren") for c in called):
                rep.ok(RULE, f"accept {name}", [acc.qual])
            elif called and "visit" + name not in called:
                rep.bad(RULE, f"accept {name}", f"{cq}.accept dispatches to {called[0]}", functions=[acc.qual])
            else:
                rep.unknown(RULE, f"accept {name}", f"dispatches to {called}")
        # shape
        multi = any(l for l, _ in rules[r])
        st = g.branches(r).get(name) if multi else None
        if not multi:
            fn = ci.methods.get(r)
            st = None
            if fn is not None:
                st = [s for t in fn.node.body if isinstance(t, ast.Try) for s in t.body]
        if not st:
            rep.unknown(RULE, f"alternative {label}", "branch of the generated parser not found")
            continue
        try:
            gp, gs = g.shape(st, r)
            a, b = [norm(e) for e in shape], [norm(e) for e in gs]
        except Exception as e:
            rep.unknown(RULE, f"alternative {label}", f"{type(e).__name__}: {e}")
            continue
        if (gp, b) == (pred, a):
            rep.ok(RULE, f"alternative {label}", [f"{ci.qual}.{r}"], f"precedence {pred}, {b}")
        else:
            rep.bad(RULE, f"alternative {label}", f"grammar requires precedence {pred} and {a}; generated parser has {gp} and {b}", functions=[f"{ci.qual}.{r}"])
    # usual binding strength of the operators
    order = [l for l, _ in rules.get("expr", [])]
    want = ["negation", "muldiv", "addsub", "comparison"]
    if all(w in order for w in want):
        if [l for l in order if l in want] == want:
            rep.ok(RULE, "operator precedence", [], "negation binds tighter than * and /, then + and -, then comparisons")
        else:
            rep.bad(RULE, "operator precedence", f"alternatives are ordered {[l for l in order if l in want]}")
    else:
        rep.unknown(RULE, "operator precedence", "operators not found")
    # predicates used by adaptive prediction
    for r in rules:
        fn = ci.methods.get(r + "_sempred")
        want = [p for l, (rr, p, _) in exp.items() if rr == r and p is not None]
        if not want:
            continue
        if fn is None:
            rep.unknown(RULE, f"predicates {r}", "not found")
            continue
        got = [c.args[1].value for c in ast.walk(fn.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "precpred"]
        if sorted(got) == sorted(want):
            rep.ok(RULE, f"predicates {r}", [fn.qual])
        else:
            rep.bad(RULE, f"predicates {r}", f"grammar requires {sorted(want)}, generated {sorted(got)}", functions=[fn.qual])
