"""Tables (pandas frames): the ways of reading and writing cells, rows and columns brought to one form.

A column compared with a value is an elementwise condition; quantifying it, selecting with it and storing under it
are written as the loop over the rows of the table that they abbreviate.
"""
from .terms import (FALSE, FV_SRC, NONE, TRUE, atom, bnot, const, elem, elem_var, is_bool, is_const, cval, leaves, mk, mk_any, mk_cat, mk_cond,
                    mk_eq, mk_for, mk_getitem, mk_ite, mk_seq, mk_str, open_binder, subst)


ALL = mk("slice3", NONE, NONE, NONE)
# parameters of methods of tables, in their positions
POSITIONS = {"clip": ("lower", "upper"), "to_frame": ("name",), "reset_index": ("level",), "min": ("axis",), "max": ("axis",), "sum": ("axis",), "mean": ("axis",)}
ARITHMETIC = {"add": "Add", "sub": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "truediv": "Div", "divide": "Div", "subtract": "Sub"}


def named(name, args, kwargs):
    """arguments of a method of a table by name; an axis by number"""
    if name in POSITIONS and args and len(args) <= len(POSITIONS[name]):
        kwargs = list(zip(POSITIONS[name], args)) + list(kwargs)
        args = []
    out = []
    for n, v in kwargs:
        if n == "axis" and is_const(v) and v.args[0] == "str":
            v = const({"columns": 1, "index": 0, "rows": 0}.get(cval(v), cval(v)))
        out.append((n, v))
    return args, out


def labels_of(k):
    """the index of which k is a label"""
    return FV_SRC.get(k) if k.op == "fv" else k.args[0] if k.op == "nth" else None


def is_mask(t):
    return t.op == "ite" and is_bool(t)


def strname(k):
    return is_const(k) and k.args[0] == "str"


class Frames:
    def column_of(self, t):
        """(table, column) of the term of a column"""
        if t.op == "getitem" and t.args[0].op in ("attr", "xcall", "sym", "nth", "fv") and not (t.args[0].op == "attr" and t.args[0].args[1] in ("loc", "columns", "index", "iloc")) \
                and t.args[1].op not in ("tuple", "slice3") and not is_mask(t.args[1]):
            if self.container_kind(t.args[0]) is None and self.exact_or_static_class(t.args[0]) is None:
                return t.args
        return None

    def columns_in(self, t):
        out, seen, todo = {}, set(), [t]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not hasattr(x, "op") or x in seen:
                continue
            seen.add(x)
            if strname(x.args[1]) if x.op == "getitem" else False:
                c = self.column_of(x)
                if c:
                    out[x] = c
                    continue
            todo.extend(x.args)
        return out

    def table_of(self, mask):
        fs = {c[0] for c in self.columns_in(mask).values()}
        return fs.pop() if len(fs) == 1 else None

    def cell(self, F, i, col, st):
        if strname(col):
            return self.boolify(self.read(self.content(st, mk("attr", F, "loc:" + cval(col))), i))
        return self.boolify(mk_getitem(self.content(st, mk("attr", F, "loc")), mk("tuple", (i, col))))

    def read(self, c, i):
        """the cell at label i of a column: the last one stored, or the first (every label has one)"""
        if c.op == "ite":
            return mk_ite(atom(c.args[0]), self.read(c.args[1], i), self.read(c.args[2], i))
        if c.op == "dict" and c.args[0] and c.args[0][0].op == "splice":
            def go(segs, v):
                for s in segs:
                    if s.op == "ent":
                        v = mk_ite(mk_eq(s.args[0], i), s.args[1], v)
                    elif s.op == "cond":
                        v = mk_ite(s.args[0], go(s.args[1], v), v)
                    else:
                        return None
                    if v is None:
                        return None
                return v
            if all(s.op == "ent" or s.op == "cond" and all(x.op == "ent" for x in s.args[1]) for s in c.args[0][1:]):
                return go(c.args[0][1:], self.read(c.args[0][0].args[0], i))
        return mk_getitem(c, i)

    def at_row(self, t, F, i, st):
        m = {x: self.cell(F, i, c[1], st) for x, c in self.columns_in(t).items() if c[0] is F}
        return subst(t, m) if m else t

    def rows(self, F, mask, st):
        """labels of the rows of F where the condition holds"""
        return self.over(F, lambda v: [mk_cond(self.at_row(mask, F, v, st), (elem(v),))], st)

    def over(self, F, f, st):
        src = self.iterable(mk("attr", F, "index"), st)
        if src.op == "seq" and all(s.op == "elem" for s in src.args[0]):
            return mk_seq([y for s in src.args[0] for y in f(s.args[0])], "seq")
        v = elem_var(src)
        return mk_seq(mk_for(src, v, f(v)), "seq")

    def cells(self, F, mask, col, st):
        return self.over(F, lambda v: [mk_cond(self.at_row(mask, F, v, st), (elem(self.cell(F, v, col, st)),))], st)

    def every(self, mask, st):
        if mask is TRUE or mask is FALSE:
            return mask
        F = self.table_of(mask)
        if F is None:
            if mask.args[1] is FALSE and mask.args[2] is TRUE:
                return bnot(self.some(bnot(mask), st))
            return atom(mk("batom", "every", mask))
        src = self.iterable(mk("attr", F, "index"), st)
        v = elem_var(src)
        return bnot(mk_any(src, v, bnot(self.at_row(mask, F, v, st))))

    def some(self, mask, st):
        if mask is TRUE or mask is FALSE:
            return mask
        F = self.table_of(mask)
        if F is None:
            if mask.args[1] is FALSE and mask.args[2] is TRUE:
                return bnot(self.every(bnot(mask), st))
            return atom(mk("batom", "some", mask))
        src = self.iterable(mk("attr", F, "index"), st)
        v = elem_var(src)
        return mk_any(src, v, self.at_row(mask, F, v, st))

    def labels_cat(self, a, b, st):
        """text joined to every label of an index"""
        for x, f in ((a, lambda v: mk_cat([mk_str(v), mk_str(b)])), (b, lambda v: mk_cat([mk_str(a), mk_str(v)]))):
            if x.op == "xcall" and x.args[0] == "astype" and len(x.args[1]) == 2 and x.args[1][0].op == "attr" and x.args[1][0].args[1] in ("index", "columns") \
                    and x.args[1][1] is self.astype_str():
                y = x.args[1][0]
                src = self.iterable(y, st)
                if src.op == "seq" and all(s.op == "elem" for s in src.args[0]):
                    return mk_seq([elem(f(s.args[0])) for s in src.args[0]], "seq")
                v = elem_var(src)
                return mk_seq(mk_for(src, v, [elem(f(v))]), "seq")
        return None

    def astype_str(self):
        return mk("ext", "str")

    def is_loc(self, o):
        return o.op == "attr" and o.args[1] == "loc"

    def frame_getitem(self, o, k, st):
        if is_mask(k):
            F = self.table_of(k)
            if F is None:
                return None
            if o is F or self.is_loc(o) and o.args[0] is F:
                return mk("filtered", F, self.rows(F, k, st), k)
            if o.op == "attr" and o.args[1] == "index" and o.args[0] is F:
                return self.rows(F, k, st)
            c = self.column_of(o)
            if c and c[0] is F:
                return self.cells(F, k, c[1], st)
            return None
        if o.op == "filtered":
            return self.cells(o.args[0], o.args[2], k, st) if strname(k) else None
        if self.is_loc(o) and k.op == "tuple" and len(k.args[0]) == 2:
            i, col = k.args[0]
            F = o.args[0]
            if is_mask(i):
                return self.cells(F, i, col, st) if self.table_of(i) is F else None
            if i.op in ("slice3",):
                return None
            ls = self.labels(i, st)
            if ls is not None:
                return self.cells_at(F, ls, col, st)
            if strname(col):
                return self.cell(F, i, col, st)
            return None
        if o.op == "getitem" and self.is_loc(o.args[0]) and strname(k) and o.args[1].op not in ("tuple", "slice3", "const"):
            return self.cell(o.args[0].args[0], o.args[1], k, st)      # the row, then the column
        if o.op == "getitem" and self.is_loc(o.args[0]) and labels_of(o.args[1]) is mk("attr", o.args[0].args[0], "index") and k.op not in ("tuple", "slice3"):
            return self.cell(o.args[0].args[0], o.args[1], k, st)
        ix = labels_of(k)
        if ix is not None and ix.op == "attr" and ix.args[1] == "index":
            c = self.column_of(o)
            if c and c[0] is ix.args[0]:
                return self.cell(c[0], k, c[1], st)
        if o.op == "attr" and o.args[1] == "iloc" and k.op == "tuple" and len(k.args[0]) == 2 and k.args[0][1] is ALL:
            return mk_getitem(o, k.args[0][0])                         # the whole of a row
        if o.op == "getitem" and o.args[0].op == "attr" and o.args[0].args[1] == "iloc" and k.op not in ("tuple", "slice3") and not is_mask(k):
            at = o.args[1]
            if at.op == "tuple" and len(at.args[0]) == 2 and at.args[0][0] is ALL:
                return self.boolify(mk_getitem(o.args[0], mk("tuple", (k, at.args[0][1]))))
            if at.op not in ("tuple", "slice3"):
                return self.boolify(mk_getitem(o.args[0], mk("tuple", (at, k))))
        if k.op == "idx":
            c = self.column_of(o)
            if c and FV_SRC.get(k.args[0]) is mk("attr", c[0], "index"):
                return self.cell(c[0], k.args[0], c[1], st)            # the column, at the position of the row
        return None

    def labels(self, i, st):
        """a list of row labels used as a key"""
        c = self.content(st, i) if i.op == "ref" else i
        return c if c.op == "seq" else None

    def cells_at(self, F, labels, col, st):
        if all(s.op == "elem" for s in labels.args[0]):
            return mk_seq([elem(self.cell(F, s.args[0], col, st)) for s in labels.args[0]], "seq")

        def go(segs):
            out = []
            for s in segs:
                if s.op == "elem":
                    out.append(elem(self.cell(F, s.args[0], col, st)))
                elif s.op == "cond":
                    out.append(mk_cond(s.args[0], tuple(go(s.args[1]))))
                elif s.op == "for":
                    v, inner = open_binder(s)
                    out += mk_for(s.args[0], v, go(inner))
                else:
                    raise LookupError
            return out
        try:
            return mk_seq(go(labels.args[0]), "seq")
        except LookupError:
            return None

    def store_cell(self, F, i, col, v, st):
        """store, except where the value stored is the one already there"""
        o = mk("attr", F, "loc:" + cval(col))
        if v.op == "ite" and any(x is self.cell(F, i, col, st) for x in leaves(v)):
            self._fork(atom(v.args[0]), st, lambda x: self.store_cell(F, i, col, v.args[1], x), lambda x: self.store_cell(F, i, col, v.args[2], x))
            return
        if v is self.cell(F, i, col, st):
            return
        self.setitem(o, i, v, st)

    def frame_setitem(self, o, k, v, st):
        if strname(k) and v.op in ("ref", "seq") and self.tabular(o) and not (o.op == "attr" and o.args[1].startswith("loc")):
            return self.store_column(o, k, v, st)
        if not (self.is_loc(o) and k.op == "tuple" and len(k.args[0]) == 2):
            return False
        i, col = k.args[0]
        F = o.args[0]
        if not strname(col) or i.op == "slice3":
            return False
        ls = self.labels(i, st)
        if is_mask(i):
            if self.table_of(i) is not F:
                return False
            ls = self.rows(F, i, st)
        if ls is None:
            self.store_cell(F, i, col, v, st)
            return True
        src = self.column_of(v)
        if src is not None and src[0] is F:
            src = src[1]
        elif v.op == "seq":
            src = self.same_rows(v, F, ls, st)
            if src is None:
                return False
        else:
            src = None
        self.run_loop(ls, lambda s, e: self.store_cell(F, e, col, v if src is None else self.cell(F, e, src, s), s), st)
        return True

    def store_column(self, F, col, v, st):
        """a whole column, made row by row"""
        c = self.content(st, v) if v.op == "ref" else v
        if c.op != "seq" or len(c.args[0]) != 1 or c.args[0][0].op != "for":
            return False
        f = c.args[0][0]
        v, segs = open_binder(f)
        if len(segs) != 1 or segs[0].op != "elem":
            return False
        own = self.column_of(f.args[0])
        if own and own[0] is F:
            def val(e, s):
                return subst(segs[0].args[0], {v: self.cell(F, e, own[1], s)})
        elif f.args[0] is mk("attr", F, "index"):
            def val(e, s):
                return subst(segs[0].args[0], {v: e})
        else:
            return False
        self.run_loop(self.iterable(mk("attr", F, "index"), st), lambda s, e: self.store_cell(F, e, col, val(e, s), s), st)
        return True

    def same_rows(self, v, F, labels, st):
        """the column whose cells in the selected rows v is"""
        cols = set()
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif hasattr(x, "op") and x not in seen:
                seen.add(x)
                if x.op == "attr" and isinstance(x.args[1], str) and x.args[1].startswith("loc:") and x.args[0] is F:
                    cols.add(x.args[1][4:])
                todo.extend(x.args)
        for c in sorted(cols):
            if self.cells_at(F, labels, const(c), st) is v:
                return const(c)
        return None

    def tabular(self, o):
        """a value of which nothing is known but that the code takes it for a table, a column or an index"""
        if o.op not in ("attr", "xcall", "sym", "getitem", "nth", "fv", "ite"):
            return False
        if o.op == "ite":
            return is_mask(o)
        return self.container_kind(o) is None and self.exact_or_static_class(o) is None and (self.type_of(o) or ("ext",))[0] == "ext"

    def frame_column(self, c):
        """the column of a table known to be one: its rows are named elsewhere, or it hangs off a value of no known class"""
        return c[0].op in ("attr", "xcall", "sym")
