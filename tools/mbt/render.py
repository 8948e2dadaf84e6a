"""Concrete syntax for the programs of the specification (spec/Lang.tla).

A program is a table of nodes.  render() writes JavaScript for it and notes the
source range of every node, from which expected() derives the coverage maps the
program must get.  Neither looks at what the instrumenter does.
"""
import random

NEXT = ["/* istanbul ignore next */", "/* istanbul ignore next -- a reason */", "// istanbul ignore next",
        "/*istanbul ignore next*/", "/*  istanbul  ignore  next: x */", "/*\n * y */\n/* istanbul ignore next */",
        "/* istanbul ignore next */\n// the reason why", "// istanbul ignore next\n/* and another note */"]
IFS = ["/* istanbul ignore if */", "// istanbul ignore if", "/* istanbul ignore if: z */", "/* istanbul ignore if */\n// why"]
ELSES = ["/* istanbul ignore else */", "// istanbul ignore else", "/* istanbul ignore else -- z */", "/* y */ // istanbul ignore else\n/* z */"]
PAT = {"": ("", ""), "pat": ("[", "]"), "opat": ("{ k: ", " }"), "spat": ("{ ", " }")}
BAD = ["/* istanbul ignore nexts */", "/* istanbul ignore */", "/* istanbul  next */", "/* x istanbul ignore next */",
       "/* istanbulignore next */", "/* istanbul ignore nextfile */", "// see istanbul ignore next", "/* istanbul ignore ifs */",
       "/* Istanbul ignore next */"]
HINT = {"next": NEXT, "if": IFS, "else": ELSES, "bad": BAD}
KEYWORD = {"if", "for", "fof", "fin", "while", "do", "sw", "try", "ret", "thr", "var", "brk", "cont", "with", "dbg"}
NOTES = ["/* note */", "/* \u00e9t\u00e9 \u65e5 */", "/* ignore next */"]


OP1 = {"del": "delete $A[@]", "delp": "delete [@]", "void": "void [@]", "typeof": "typeof [@]", "bnot": "~[@, 1]",
       "neg": "-{ a: @ }", "plus": "+[@, 1]", "spr": "[...[@]]", "aspr": "$A(...[@])", "ospr": "[{ ...{ a: @ }, z: 1 }]",
       "new": "new $B(@)", "newm": "new $A.c(@)", "mem": "$A[@]", "memc": "$A[@]()", "fcall": "$A(@)", "mcall": "$A.m(@)",
       "ocall": "$A?.(@)", "omem": "$A?.[@]", "om2": "$A.b?.c(@)", "tpl0": "`a#${@}${1}`", "key": "[{ [@]: 1 }]",
       "upd": "$Q(@).n++", "upre": "++$Q(@).z", "updk": "$Q()[@]++", "seqn": "(0, @)",
       "masg": "$Q().n = @", "kasg": "$Q()[0] = @", "pasg": "[$V] = [@]", "casg": "$Q().s += @", "land": "$Q().n &&= @",
       "lnul": "$Q().u ??= @", "inst": "[@] instanceof Array", "eq": "[@] === 1"}
OP2 = {"call2": "$A(@, @)", "curry": "$A(@)(@)", "hole": "[@, , @]", "objk": "[{ [@]: @, z: 1 }]", "obj2": "[{ x: @, \"y\": @ }]",
       "objs": "[{ ...@, z: @ }]", "memc2": "$A[@](@)", "new2": "new $B(@, ...[@])", "tpl2": "`a#${@}-${@}`",
       "cmp2": "[@] === [@]", "kasg2": "$Q()[@] = @", "mul2": "[@, 1] * [@]"}
LIT = {"num": "#", "neg1": "-#", "str": "\"s#\"", "estr": "\"\"", "null": "null", "true": "true", "false": "false", "undef": "undefined",
       "re": "/a/", "big": "#n", "tpl": "`t#`", "arr0": "[]", "this": "[this]", "memid": "$B.q", "one": "1"}


class Style:
    """How a program is laid out: a function of its number, nothing else."""

    def __init__(self, seed):
        r = random.Random(seed)
        self.r = r
        self.eol = r.choice(["\n", "\n", "\n", "\r\n"])
        self.brk = r.choice([0.0, 0.0, 0.15, 0.4])     # line breaks inside of statements
        self.note = r.choice([0.0, 0.0, 0.15])          # comments in front of statements
        self.ind = r.choice(["", "  ", "\t", "    "])
        self.wide = r.choice([0.0, 0.2])                 # characters beyond ASCII in templates
        self.one = r.random() < 0.15                     # everything on one line
        self.asi = r.random() < 0.3                      # semicolons are left out where they may
        self.extra = r.choice([0.0, 0.3])                # parameters and members that do not matter


class W:
    def __init__(self, ns, style):
        self.ns, self.st = ns, style
        self.out, self.line, self.col = [], 1, 0
        self.span, self.keyspan, self.body = {}, {}, {}
        self.depth = 0
        self.noend = False

    # ---- output
    def t(self, s):
        self.out.append(s)
        k = s.count("\n")
        if k:
            self.line += k
            self.col = len(s) - s.rindex("\n") - 1
        else:
            self.col += len(s)

    def nl(self):
        if self.st.one:
            self.t(" ")
        else:
            self.t(self.st.eol + self.st.ind * self.depth)

    def br(self):   # a place where a line may break
        if not self.st.one and self.st.r.random() < self.st.brk:
            self.t(self.st.eol + self.st.ind * (self.depth + 1))

    def pos(self):
        return (self.line, self.col)

    def n(self, i):
        return self.ns[i - 1]

    def hint(self, i):
        h = self.n(i)["h"]
        if h:
            self.t(self.st.eol + self.st.r.choice(HINT[h]).replace("\n", self.st.eol) + self.st.eol)

    def ex(self, i):
        p = self.pos()
        if self.n(i)["k"] != "es":
            self.noend = False
        getattr(self, "x_" + self.n(i)["k"])(i, self.n(i))
        self.span[i] = (p, self.pos())

    def exh(self, i):   # with a hint in front
        self.hint(i)
        self.ex(i)

    # ---- expressions
    def x_d(self, i, n):
        self.t("$D(%d)" % i)

    def x_arg(self, i, n):
        self.t("$P(%d)" % i)

    def x_itr(self, i, n):
        self.t("$I(%d)" % i)

    def x_none(self, i, n):
        pass

    def args(self, head, *kids):
        self.t(head)
        for j, k in enumerate(kids):
            if j or not head.endswith("("):
                self.t(",")
                self.t(" ")
            self.br()
            self.ex(k)
        self.t(")")

    def x_log(self, i, n):
        self.args("$L(%d" % i, *n["kids"])

    def x_un(self, i, n):
        self.t("!")
        self.ex(n["kids"][0])

    def x_arr(self, i, n):
        self.t("[")
        self.br()
        self.ex(n["kids"][0])
        self.t(", ")
        self.br()
        self.ex(n["kids"][1])
        self.t("]")

    def tq(self, i):
        w = "\u00fc\u65e5" if self.st.r.random() < self.st.wide else "a"
        if not self.st.one and self.st.r.random() < self.st.brk:
            w += "\n"
        return "`%s%d${" % (w, i)

    def x_tpl(self, i, n):
        self.t(self.tq(i))
        self.ex(n["kids"][0])
        self.t("}b`")

    def x_tag(self, i, n):
        self.t("$T" + self.tq(i))
        self.ex(n["kids"][0])
        self.t("}b`")

    def x_opt(self, i, n):
        a, b = self.st.r.choice([("?.[", "]"), ("?.(", ")"), ("?.m(", ")"), ("?.a[", "]"), ("?.[", "].b.c")])
        self.t("$N(%d)%s" % (i, a))
        self.ex(n["kids"][0])
        self.t(b)

    def form(self, i, n, forms):
        parts = forms[n["a"]].replace("#", str(i)).split("@")
        for j, p in enumerate(parts):
            self.t(p)
            if j < len(n["kids"]):
                self.br()
                self.ex(n["kids"][j])

    def x_op1(self, i, n):
        self.form(i, n, OP1)

    def x_op2(self, i, n):
        self.form(i, n, OP2)

    def x_lit(self, i, n):
        self.form(i, n, LIT)

    def x_prop(self, i, n):
        self.t("k%d: " % i)
        self.ex(n["kids"][0])

    def x_obj(self, i, n):
        self.t("{ ")
        for j, k in enumerate(n["kids"]):
            if j:
                self.t(", ")
            self.br()
            self.exh(k)
        self.t(" }")

    def x_call(self, i, n):
        self.t("(")
        self.ex(n["kids"][0])
        self.t(")(")
        pat = any(self.n(k)["k"] == "pd" and self.n(k)["a"] for k in self.n(n["kids"][0])["kids"])
        for k in n["kids"][1:]:
            self.br()
            self.t("$Z(" if pat else "")
            self.ex(k)
            self.t(")" if pat else "")
        self.t(")")

    def x_gcall(self, i, n):
        self.t("$G((")
        self.ex(n["kids"][0])
        self.t(")())")

    def x_sp(self, i, n):
        self.t("($R.x = ")
        self.ex(n["kids"][0])
        self.t(")")

    def x_lg(self, i, n):
        self.ex(n["kids"][0])
        self.t(" " + n["a"] + " ")
        self.br()
        self.exh(n["kids"][1])

    def x_cond(self, i, n):
        self.ex(n["kids"][0])
        self.t(" ? ")
        self.br()
        self.exh(n["kids"][1])
        self.t(" : ")
        self.br()
        self.exh(n["kids"][2])

    def x_asg(self, i, n):
        self.t("$V = ")
        self.br()
        self.ex(n["kids"][0])

    def x_bin(self, i, n):
        self.ex(n["kids"][0])
        self.t(' + "b%d" + ' % i)
        self.br()
        self.ex(n["kids"][1])

    def dflt(self, i, target):   # target = E as a default
        p = self.pos()
        self.t(target + " = ")
        self.br()
        self.ex(self.n(i)["kids"][0])
        self.span[i] = (p, self.pos())

    def x_dasg(self, i, n):
        o, c = ("{ k: ", " }") if n["a"] == "o" else ("[", "]")
        self.t(o)
        self.dflt(n["kids"][0], "$V")
        self.t(c + " = " + o)
        self.ex(n["kids"][1])
        self.t(c)

    def x_yld(self, i, n):
        self.t("yield [%d, " % i)
        self.br()
        self.ex(n["kids"][0])
        self.t("]")

    def x_par(self, i, n):
        self.t("(")
        self.br()
        self.ex(n["kids"][0])
        self.t(")")

    def x_seq(self, i, n):
        self.ex(n["kids"][0])
        self.t(", ")
        self.br()
        self.ex(n["kids"][1])

    def x_reg(self, i, n):
        self.args("$F(%d" % i, *n["kids"])

    # ---- functions
    def params(self, n, force=False):
        pd = [k for k in n["kids"] if self.n(k)["k"] == "pd"]
        self.t("(")
        for k in pd:
            self.br()
            o, c = PAT[self.n(k)["a"]]
            self.t(o)
            self.dflt(k, "p%d" % k)
            self.t(c)
        if force and not pd:
            self.t("p")
        if n["k"] not in ("get", "set", "sget", "sset") and self.st.r.random() < self.st.extra:
            if n["a"] != "strict":
                self.t((", " if pd else "") + self.st.r.choice(["q", "...r", "q, ...[r]"]))
            elif not pd:
                self.t("q")
        self.t(")")

    def block(self, i):   # a function body
        self.ex(i)

    def x_fe(self, i, n):
        self.t("function* " if n["a"] == "gen" else "function ")
        if n["a"] == "named":
            p = self.pos()
            self.t(n["nm"])
            self.keyspan[i] = (p, self.pos())
        self.params(n)
        self.t(" ")
        self.ex(n["kids"][-1])

    def x_ar(self, i, n):
        pd = [k for k in n["kids"] if self.n(k)["k"] == "pd"]
        if not pd and self.st.r.random() < self.st.extra:
            self.t("q")
        else:
            self.params(n)
        self.t(" => ")
        b = n["kids"][-1]
        if n["a"] == "e":
            self.br()
            p = self.pos()
            if self.lead(b) == "{":
                self.t("(")
                self.ex(b)
                self.t(")")
            else:
                self.ex(b)
            self.body[i] = (p, self.pos())
        else:
            self.ex(b)

    def lead(self, i):   # the kind of the leftmost part
        n = self.n(i)
        if n["k"] in ("cond", "bin", "lg", "seq"):
            return self.lead(n["kids"][0])
        if n["k"] == "obj" or (n["k"] == "dasg" and n["a"] == "o"):
            return "{"
        return n["k"]

    def member(self, i, n, kw="", force=False):
        self.t(kw)
        p = self.pos()
        if n["a"] == "id":
            self.t(n["nm"])
        elif n["a"] == "str":
            self.t('"s%d"' % i)
        elif n["a"] == "num":
            self.t("%d" % i)
        else:
            self.t("[(")
            self.ex(n["kids"][0])
            self.t(', "c%d")]' % i)
        self.keyspan[i] = (p, self.pos())
        self.params(n, force)
        self.t(" ")
        self.ex(n["kids"][-1])

    def x_meth(self, i, n):
        self.member(i, n)

    def x_get(self, i, n):
        self.member(i, n, "get ")

    def x_set(self, i, n):
        self.member(i, n, "set ", True)

    def x_gmeth(self, i, n):
        self.member(i, n, "*")

    def x_sset(self, i, n):
        self.member(i, n, "static set ", True)

    def x_smeth(self, i, n):
        self.member(i, n, "static ")

    def x_sget(self, i, n):
        self.member(i, n, "static get ")

    def x_ctor(self, i, n):
        self.t("constructor")
        self.params(n)
        self.t(" ")
        self.ex(n["kids"][-1])

    def x_pmeth(self, i, n):
        pd = len(n["kids"]) > 1
        self.t(self.st.r.choice(["#p%d", "static #p%d", "*#p%d", "static async #p%d"] + ([] if pd else ["get #p%d", "static get #p%d"])) % i)
        if pd or "get" not in self.out[-1]:
            self.params(n)
        else:
            self.t("()")
        self.t(" ")
        self.ex(n["kids"][-1])

    def x_fld(self, i, n, pre=None):
        self.t((pre or self.st.r.choice(["f%d", "f%d", '"f%d"', "%d", '["f%d"]'])) % i)
        self.t(" = ")
        self.br()
        self.ex(n["kids"][0])
        self.t(";")

    def x_pfld(self, i, n):
        self.x_fld(i, n, "#q%d")

    def x_sfld(self, i, n):
        self.x_fld(i, n, self.st.r.choice(["static g%d", "static #g%d", 'static "g%d"', "static %d"]))

    def x_sblk(self, i, n):
        self.t("static {")
        self.items(n["kids"])
        self.t("}")

    def cls(self, i, n, name):
        self.t("class " + name)
        ks = n["kids"]
        if n["a"] == "ext":
            self.t(" extends (")
            self.ex(ks[0])
            self.t(", $B)")
            ks = ks[1:]
        self.t(" {")
        self.depth += 1
        for k in ks:
            if self.st.r.random() < self.st.extra:
                self.nl()
                self.t(self.st.r.choice(["h%d;", "static h%d;", "#h%d;", ";;", "static #h%d;", '["h"];']).replace("%d", str(k)))
            self.nl()
            self.exh(k)
        self.depth -= 1
        self.nl()
        self.t("}")

    def x_ce(self, i, n):
        self.cls(i, n, "")

    def x_cls(self, i, n):
        self.cls(i, n, "c%d" % i)

    def x_fn(self, i, n):
        self.t("function* " if n["a"] == "gen" else "function ")
        p = self.pos()
        self.t("f%d" % i)
        self.keyspan[i] = (p, self.pos())
        self.params(n)
        self.t(" ")
        self.ex(n["kids"][-1])

    # ---- statements
    def items(self, ids):
        if not ids and self.st.r.random() < 0.7:
            return
        self.depth += 1
        for j, k in enumerate(ids):
            nxt = self.n(ids[j + 1]) if j + 1 < len(ids) else None
            self.noend = self.st.asi and not self.st.one and (nxt is None or (nxt["k"] in KEYWORD and not nxt["h"]))
            self.nl()
            if self.n(k)["k"] == "grp":
                self.item_grp(k)
                continue
            if not self.st.one and self.st.r.random() < self.st.note:
                self.t(self.st.r.choice(NOTES) + " ")
            self.exh(k)
        self.depth -= 1
        self.nl()

    def item_grp(self, i):
        p = self.pos()
        for j, k in enumerate(self.n(i)["kids"]):
            if j:
                self.nl()
            self.exh(k)
        self.span[i] = (p, self.pos())

    def x_blk(self, i, n):
        self.t("{")
        if n["a"] == "strict":
            self.t('"use strict";')
        self.items(n["kids"])
        self.t("}")

    def x_es(self, i, n):
        noend, self.noend = self.noend, False
        br = self.lead(n["kids"][0]) == "{"
        self.t("(" if br else "")
        self.ex(n["kids"][0])
        self.t(")" if br else "")
        self.t("" if noend else ";")

    def x_empty(self, i, n):
        self.t(";")

    def x_dbg(self, i, n):
        self.t("debugger;")

    def paren(self, k):
        self.t(" (")
        self.br()
        self.ex(k)
        self.t(")")

    def x_if(self, i, n):
        self.t("if")
        self.paren(n["kids"][0])
        self.t(" ")
        self.exh(n["kids"][1])
        if len(n["kids"]) == 3:
            self.nl()
            self.t("else ")
            self.exh(n["kids"][2])

    def x_while(self, i, n):
        self.t("while")
        self.paren(n["kids"][0])
        self.t(" ")
        self.exh(n["kids"][1])

    def x_do(self, i, n):
        self.t("do ")
        self.exh(n["kids"][0])
        self.t(" while")
        self.paren(n["kids"][1])
        self.t(";")

    def x_for(self, i, n):
        a, b, c, s = n["kids"]
        self.t("for (")
        if self.n(a)["k"] == "var":
            p = self.pos()
            self.vardecl(a, self.n(a))
            self.span[a] = (p, self.pos())
        else:
            self.ex(a)
        self.t("; ")
        self.ex(b)
        self.t("; ")
        self.br()
        self.ex(c)
        self.t(") ")
        self.exh(s)

    def forx(self, i, n, kw):
        a = n["a"]
        if a in ("pat", "lpat"):
            self.t("for (" + ("const [" if a == "pat" else "["))
            self.dflt(n["kids"][2], "x%d" % i if a == "pat" else "$V")
            self.t("] of $I2(%d, %d)) " % (n["kids"][0], n["kids"][1]))
            self.span[n["kids"][0]] = self.span[n["kids"][1]] = (self.pos(), self.pos())
        else:
            if a == "const":
                a = self.st.r.choice(["const", "let", "var"])
            self.t("for (" + ("$V" if a == "lhs" else "%s x%d" % (a, i)) + " " + kw + " ")
            self.br()
            self.ex(n["kids"][0])
            self.t(") ")
        self.exh(n["kids"][-1])

    def x_fof(self, i, n):
        self.forx(i, n, "of")

    def x_fin(self, i, n):
        self.t("for (" + ("$V" if n["a"] == "lhs" else "%s x%d" % (n["a"], i)) + " in ")
        self.t("$J(%d)" % n["kids"][0])
        self.span[n["kids"][0]] = (self.pos(), self.pos())
        self.t(") ")
        self.exh(n["kids"][1])

    def x_sw(self, i, n):
        self.t("switch")
        self.paren(n["kids"][0])
        self.t(" {")
        self.depth += 1
        for k in n["kids"][1:]:
            self.nl()
            self.exh(k)
        self.depth -= 1
        self.nl()
        self.t("}")

    def x_case(self, i, n):
        ks = n["kids"]
        if n["a"] == "default":
            self.t("default:")
        else:
            self.t("case ")
            self.ex(ks[0])
            self.t(":")
            ks = ks[1:]
        self.depth += 1
        for k in ks:
            self.nl()
            if self.n(k)["k"] == "grp":
                self.item_grp(k)
            else:
                self.exh(k)
        self.depth -= 1

    def x_try(self, i, n):
        a, ks = n["a"], n["kids"]
        self.t("try ")
        self.ex(ks[0])
        if "c" in a:
            self.t(" catch (e) " if i % 2 else " catch ")
            self.ex(ks[1])
        if "f" in a:
            self.t(" finally ")
            self.ex(ks[-1])

    def x_with(self, i, n):
        self.t("with (")
        self.ex(n["kids"][0])
        self.t(", {}) ")
        self.exh(n["kids"][1])

    def x_lab(self, i, n):
        self.t("L%d: " % i)
        self.br()
        self.exh(n["kids"][0])

    def x_brk(self, i, n):
        self.t("break" + (" L" + n["a"] if n["a"] else "") + ";")

    def x_cont(self, i, n):
        self.t("continue" + (" L" + n["a"] if n["a"] else "") + ";")

    def x_ret(self, i, n):
        self.t("return")
        if n["kids"]:
            self.t(" ")
            self.ex(n["kids"][0])
        self.t(";")

    def x_thr(self, i, n):
        self.t("throw ")
        self.ex(n["kids"][0])
        self.t(";")

    def vardecl(self, i, n):
        self.t(n["a"] + " ")
        for j, k in enumerate(n["kids"]):
            if j:
                self.t(", ")
            self.br()
            self.ex(k)

    def x_var(self, i, n):
        self.vardecl(i, n)
        self.t(";")

    def x_dtor(self, i, n):
        ks = n["kids"]
        if n["a"] == "":
            self.t("v%d" % i)
            if ks:
                self.t(" = ")
                self.br()
                self.ex(ks[0])
        else:
            o, c = PAT[n["a"]]
            self.t(o)
            self.dflt(ks[0], "v%d" % i)
            self.t(c + " = ")
            p = self.pos()
            self.t("{ v%d: " % i if n["a"] == "spat" else o)
            self.ex(ks[1])
            self.t(c)
            self.span[ks[1]] = (p, self.pos())

    # ---- uses: the host calls what a declaration declares
    def x_use(self, i, n):
        """n.r is the function; the declaration is the first child of the group"""
        self.t(self.use_text(i, n["r"]))

    def parent(self, i):
        for j, m in enumerate(self.ns):
            if i in m["kids"]:
                return j + 1
        return 0

    def access(self, i):   # an expression for the value declared by declaration node i
        n = self.n(i)
        if n["k"] == "fn":
            return "f%d" % i
        if n["k"] == "cls":
            return "c%d" % i
        p = self.parent(i)
        while self.n(p)["k"] != "dtor":
            p = self.parent(p)
        return "v%d" % p

    def use_text(self, u, f):
        n = self.n(f)
        np = max([0] + [2 if self.n(k)["a"] else 1 for k in n["kids"] if self.n(k)["k"] == "pd"])
        if n["k"] in ("fn", "fe", "ar"):
            return "$C(%d, %s, %d, %d)" % (u, self.access(f), np, 1 if n["a"] == "gen" else 0)
        if n["k"] in ("cls", "ce"):
            return "$K(%d, %s)" % (u, self.access(f))
        p = self.parent(f)
        o = self.access(p)
        if self.n(p)["k"] in ("cls", "ce") and n["k"] in ("meth", "get", "set", "gmeth"):
            o = "new %s($Z(true))" % o
        key = '"%s"' % n["nm"] if n["a"] == "id" else '"s%d"' % f if n["a"] == "str" else str(f) if n["a"] == "num" else '"c%d"' % f
        kind = {"meth": "m", "smeth": "m", "get": "g", "sget": "g", "set": "s", "sset": "s", "gmeth": "d"}[n["k"]]
        return '$M(%d, %s, %s, "%s", %d)' % (u, o, key, kind, np)


def render(prog, seed, prefix=""):
    w = W(prog["n"], Style(seed))
    root = prog["n"][0]
    w.t(prefix)
    if prog["top"] == "strict":
        w.t('"use strict";')
    w.depth = -1
    w.items(root["kids"])
    return "".join(w.out), w


def rng(sp):
    (a, b), (c, d) = sp
    return (a, b, c, d)


BTYPE = {"if": "if", "cond": "cond-expr", "sw": "switch", "dflt": "default-arg", "pd": "default-arg", "lg": "binary-expr"}


def expected(prog, w):
    """The coverage maps the program must get, with the counter each entry stands for.

    stmts: range -> keys (a tagged template and its statement may have the same range);  fns: decl range -> (key, name or None, loc range);
    branches: (type, loc range) -> (id, [(alt, range)...])
    """
    ns = prog["n"]
    stm, fns, brs = {}, {}, {}
    alts = {}
    for k, i, a in prog["k"]:
        n = ns[i - 1]
        if k == "s":
            sp = w.span[i]
            par = w.parent(i)
            if par and ns[par - 1]["k"] == "ar" and ns[par - 1]["a"] == "e" and ns[par - 1]["kids"][-1] == i:
                sp = w.body[par]
            r = rng(sp)
            stm.setdefault(r, []).append(("s", i, 0))
        elif k == "f":
            if n["k"] == "fn":
                name, decl, loc = "f%d" % i, w.keyspan[i], w.span[n["kids"][-1]]
            elif n["k"] == "fe":
                named = n["a"] == "named"
                name = n["nm"] if named else None
                decl, loc = (w.keyspan[i] if named else w.span[i]), w.span[n["kids"][-1]]
            elif n["k"] == "ar":
                name, decl = None, w.span[i]
                loc = w.body[i] if n["a"] == "e" else w.span[n["kids"][-1]]
            elif n["a"] == "id":
                name, decl, loc = n["nm"], w.keyspan[i], w.span[n["kids"][-1]]
            else:
                name, loc = None, w.span[n["kids"][-1]]
                decl = w.span[i]
            fns[rng(decl)] = (("f", i, 0), name, rng(loc))
        elif k == "b":
            alts.setdefault(i, []).append(a)
    for k, i, a in prog["k"]:
        if k != "B":
            continue
        n = ns[i - 1]
        t = BTYPE[n["k"]]
        ls = sorted(alts.get(i, []), key=lambda x: (x == 0, x))
        if n["k"] == "if":
            paths = [(x, rng(w.span[i])) for x in ls]
        else:
            paths = [(x, rng(w.span[x])) for x in ls]
        key = (t, rng(w.span[i]))
        assert key not in brs, ("two branches share a range", prog["p"], key)
        brs[key] = (i, paths)
    return stm, fns, brs
