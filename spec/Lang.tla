-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The abstract syntax of the programs that are instrumented, and the      *)
(* grammar that generates them.                                            *)
(*                                                                         *)
(* A program is first a table of nodes (node i is row i, rows in source    *)
(* order); Tree turns the table into a nested record with the annotations  *)
(* the semantics needs.  A program is derived by repeatedly expanding the  *)
(* leftmost open nonterminal; a production has a cost, and the total cost  *)
(* of a program is bounded.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  FEAT,   \* set of strings: which groups of productions are used
  NAMES,  \* names that members and named function expressions take
  HKINDS, \* the hint comments that are tried: subset of {"next","if","else","bad"}
  TOP     \* kind of the whole program: "script", "strict" or "module"

Has(f) == f \in FEAT

(***************************************************************************)
(* Nonterminals.  cx is the syntactic context.                             *)
(***************************************************************************)
Cx0 == [lp |-> FALSE,   \* inside a loop: break and continue are allowed
        sw |-> FALSE,   \* inside a switch: break is allowed
        fn |-> FALSE,   \* inside a function: return is allowed
        gn |-> FALSE,   \* inside a generator: yield is allowed
        st |-> FALSE,   \* strict mode code
        ne |-> FALSE,   \* an else follows: no if without else here
        lb |-> <<>>,    \* labels break may name
        ll |-> <<>>]    \* labels continue may name

N(nt, cx) == [nt |-> nt, cx |-> cx, par |-> 0, hp |-> FALSE, r |-> 0]
H(nt, cx) == [nt |-> nt, cx |-> cx, par |-> 0, hp |-> TRUE, r |-> 0]  \* a place where a hint comment may stand
R(nt, cx, r) == [nt |-> nt, cx |-> cx, par |-> 0, hp |-> FALSE, r |-> r]

Prod(k, a, c, kd) == [k |-> k, a |-> a, nm |-> "", c |-> c, kd |-> kd]
ProdN(k, a, nm, c, kd) == [k |-> k, a |-> a, nm |-> nm, c |-> c, kd |-> kd]
If(f, s) == IF Has(f) THEN s ELSE {}

FnCx(cx) == [cx EXCEPT !.lp = FALSE, !.sw = FALSE, !.fn = TRUE, !.gn = FALSE, !.lb = <<>>, !.ll = <<>>]
GenCx(cx) == [FnCx(cx) EXCEPT !.gn = TRUE]
StrictCx(cx) == [FnCx(cx) EXCEPT !.st = TRUE]
ClsCx(cx) == [FnCx(cx) EXCEPT !.fn = FALSE, !.st = TRUE]
NoGen(cx) == [cx EXCEPT !.gn = FALSE]
LoopCx(cx) == [cx EXCEPT !.lp = TRUE]
NoLoop(cx) == [cx EXCEPT !.lp = FALSE, !.ll = <<>>]
SwCx(cx) == [cx EXCEPT !.sw = TRUE]

(* label 0 stands for the node that is being created *)
LabCx(cx, loop) ==
  [cx EXCEPT !.lb = Append(@, 0), !.ll = IF loop THEN Append(@, 0) ELSE @]
Bind(cx, id) ==
  [cx EXCEPT !.lb = [i \in DOMAIN @ |-> IF @[i] = 0 THEN id ELSE @[i]],
             !.ll = [i \in DOMAIN @ |-> IF @[i] = 0 THEN id ELSE @[i]]]

D0 == Prod("d", "", 0, <<>>)
Dn == Prod("d", "n", 0, <<>>)

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
Fn0(k, a, nm, c, cx) == ProdN(k, a, nm, c, <<N("B", FnCx(cx))>>)
Fn1(k, a, nm, c, cx) == ProdN(k, a, nm, c, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>)
PdForms == {""} \cup If("pats", {"pat", "opat", "spat"})

Calls(cx) ==
  { Prod("call", "", 1, <<N("fe0", cx)>>),
    Prod("call", "", 1, <<N("ar0", cx)>>),
    Prod("call", "", 1, <<N("fe1", cx), N("arg", cx)>>),
    Prod("call", "", 1, <<N("ar1", cx), N("arg", cx)>>) }

(***************************************************************************)
(* Operators and literals.  A form evaluates its operands in order, each   *)
(* once, and then has the value given here ("=": that of the last operand).*)
(***************************************************************************)
Op1 == [ del |-> "T", delp |-> "T", void |-> "U", typeof |-> "obj", bnot |-> "m1", neg |-> "nan", plus |-> "nan",
         spr |-> "O", aspr |-> "O", ospr |-> "O", new |-> "O", newm |-> "O", mem |-> "O", memc |-> "O", fcall |-> "O",
         mcall |-> "O", ocall |-> "O", omem |-> "O", om2 |-> "O", tpl0 |-> "O", key |-> "O",
         upd |-> "one", upre |-> "one", updk |-> "nan", seqn |-> "=" ]
Op1W == [ masg |-> "=", kasg |-> "=", pasg |-> "O", casg |-> "O", land |-> "=", lnul |-> "=", inst |-> "T", eq |-> "F" ]
Op2 == [ call2 |-> "O", curry |-> "O", hole |-> "O", objk |-> "O", obj2 |-> "O", objs |-> "O", memc2 |-> "O", new2 |-> "O",
         tpl2 |-> "O" ]
Op2W == [ cmp2 |-> "F", kasg2 |-> "=", mul2 |-> "nan" ]
Lit == [ num |-> "O", neg1 |-> "O", str |-> "O", estr |-> "es", null |-> "N", true |-> "T", false |-> "F", undef |-> "U",
         re |-> "O", big |-> "O", tpl |-> "O", arr0 |-> "ea", this |-> "O", memid |-> "U", one |-> "one" ]
OpVal(n) ==
  IF n.k = "op1" THEN (IF n.a \in DOMAIN Op1 THEN Op1[n.a] ELSE Op1W[n.a])
  ELSE (IF n.a \in DOMAIN Op2 THEN Op2[n.a] ELSE Op2W[n.a])

Prim(cx) ==
  If("op", { Prod("op1", f, 1, <<N("E", cx)>>) : f \in DOMAIN Op1 }
           \cup { Prod("op2", f, 1, <<N("E", cx), N("E", cx)>>) : f \in DOMAIN Op2 })
  \cup If("lit", { Prod("lit", f, 1, <<>>) : f \in DOMAIN Lit })
  \cup   If("expr", { Prod("un", "!", 1, <<N("A", cx)>>),
               Prod("arr", "", 1, <<N("E", cx), N("E", cx)>>),
               Prod("tpl", "", 1, <<N("E", cx)>>),
               Prod("opt", "", 1, <<N("E", cx)>>),
               Prod("obj", "", 1, <<N("prop", cx)>>) })
  \cup If("tag", { Prod("tag", "", 1, <<N("E", cx)>>) })
  \cup If("log", { Prod("log", "", 1, <<N("E", cx)>>) })
  \cup If("call", Calls(cx))
  \cup If("gen", { Prod("gcall", "", 1, <<N("feg", cx)>>) })
  \cup If("strict", { Prod("sp", "", 1, <<N("E", cx)>>) })

Logic(cx) ==
  If("logic", { Prod("lg", "||", 1, <<N("o|l", cx), H("o|r", cx)>>),
                Prod("lg", "&&", 1, <<N("o&l", cx), H("o&r", cx)>>),
                Prod("lg", "??", 1, <<N("o?l", cx), H("o?r", cx)>>) })

Wide(cx) ==
  Prim(cx) \cup Logic(cx)
  \cup If("op", { Prod("op1", f, 1, <<N("E", cx)>>) : f \in DOMAIN Op1W }
               \cup { Prod("op2", f, 1, <<N("E", cx), N("E", cx)>>) : f \in DOMAIN Op2W })
  \cup If("cond", { Prod("cond", "", 1, <<N("o|l", cx), H("E", cx), H("E", cx)>>) })
  \cup If("expr", { Prod("asg", "", 1, <<N("E", cx)>>),
                    Prod("bin", "+", 1, <<N("A", cx), N("A", cx)>>) })
  \cup If("dflt", { Prod("dasg", "", 1, <<N("dflt", cx), N("arg", cx)>>) })
  \cup If("pats", { Prod("dasg", "o", 1, <<N("dflt", cx), N("arg", cx)>>) })
  \cup If("par", { Prod("par", "", 1, <<N("PX", cx)>>) })
  \cup (IF cx.gn THEN { Prod("yld", "", 1, <<N("E", cx)>>) } ELSE {})

Par(cx) == { Prod("par", "", 0, <<N("PX", cx)>>) }
ParX(cx) == Wide(cx) \cup If("expr", { Prod("seq", "", 1, <<N("E", cx), N("E", cx)>>) })

LgOp(cx, ops) == { p \in Logic(cx) : p.a \in ops }

FnVal(cx) ==   \* function values
  { Fn0("fe", "", "", 0, cx), Fn1("fe", "", "", 0, cx) }
  \cup { Fn0("fe", "named", nm, 0, cx) : nm \in NAMES }
  \cup { Prod("ar", "e", 0, <<N("E", FnCx(cx))>>),
         Prod("ar", "b", 0, <<N("B", FnCx(cx))>>),
         Prod("ar", "e", 0, <<N("pd", NoGen(cx)), N("E", FnCx(cx))>>) }

MemKeys(cx, k, c) ==   \* a method-like member under every kind of key
  { ProdN(k, "id", nm, c, <<N("B", FnCx(cx))>>) : nm \in NAMES }
  \cup { ProdN(k, a, "", c, <<N("B", FnCx(cx))>>) : a \in {"str", "num"} }
  \cup { ProdN(k, "cmp", "", c, <<N("E", cx), N("B", FnCx(cx))>>) }

Member(cx) ==  \* class members; cx is class context
  MemKeys(cx, "meth", 0)
  \cup { ProdN(k, "id", nm, 0, <<N("B", FnCx(cx))>>) : k \in {"get", "set", "smeth", "sget"}, nm \in NAMES }
  \cup { ProdN("meth", "id", nm, 0, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>) : nm \in NAMES }
  \cup { Prod("ctor", "", 0, <<N("B", FnCx(cx))>>),
         Prod("pmeth", "", 0, <<N("B", FnCx(cx))>>),
         Prod("fld", "", 0, <<N("E", cx)>>),
         Prod("fld", "", 1, <<N("FV", cx)>>),
         Prod("pfld", "", 0, <<N("E", cx)>>),
         Prod("sfld", "", 0, <<N("E", cx)>>),
         Prod("sblk", "", 0, <<N("L", cx)>>) }
  \cup If("mems",
       { ProdN(k, "id", nm, 0, <<N("B", GenCx(cx))>>) : k \in {"gmeth"}, nm \in NAMES }
       \cup { ProdN("sset", "id", nm, 0, <<N("B", FnCx(cx))>>) : nm \in NAMES }
       \cup { Prod("ctor", "", 0, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>),
              Prod("pmeth", "", 0, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>),
              Prod("sfld", "", 1, <<N("FV", cx)>>), Prod("pfld", "", 1, <<N("FV", cx)>>) })

OMember(cx) == \* object members
  MemKeys(cx, "meth", 0) \cup MemKeys(cx, "get", 0) \cup MemKeys(cx, "set", 0)
  \cup { ProdN("meth", "id", nm, 0, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>) : nm \in NAMES }
  \cup If("mems", { ProdN("gmeth", "id", nm, 0, <<N("B", GenCx(cx))>>) : nm \in NAMES }
                  \cup { ProdN("set", "id", nm, 0, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>) : nm \in NAMES })

Mems(nt, cx) == { <<H(nt, cx)>>, <<H(nt, cx), H(nt, cx)>> }
ClsBody(k, cx) ==
  { Prod(k, "", 0, <<H("member", ClsCx(cx))>>), Prod(k, "", 1, <<H("member", ClsCx(cx)), H("member", ClsCx(cx))>>),
    Prod(k, "ext", 1, <<N("E", [cx EXCEPT !.st = TRUE]), H("member", ClsCx(cx))>>) }

(***************************************************************************)
(* Statements                                                              *)
(***************************************************************************)
Loops(cx) ==
  If("loop",
     { Prod("while", "", 1, <<N("E", cx), H("S", LoopCx(cx))>>),
       Prod("do", "", 1, <<H("S", LoopCx(cx)), N("E", cx)>>),
       Prod("for", "", 1, <<N("fvar", cx), N("E", cx), N("E", cx), H("S", LoopCx(cx))>>),
       Prod("for", "", 1, <<N("E", cx), N("E", cx), N("none", cx), H("S", LoopCx(cx))>>),
       Prod("for", "", 1, <<N("none", cx), N("E", cx), N("none", cx), H("S", LoopCx(cx))>>) }
     \cup { Prod("fof", a, 1, <<N("itr", cx), H("S", LoopCx(cx))>>) : a \in {"const", "lhs"} }
     \cup { Prod("fin", a, 1, <<N("itr", cx), H("S", LoopCx(cx))>>) : a \in {"const", "var"} })
  \cup If("ever",
     { Prod("for", "ever", 1, <<N("none", cx), N("none", cx), N("none", cx), N("SB", SwCx(NoLoop(cx)))>>) })
  \cup If("pats",
     { Prod("fof", a, 1, <<N("itr", cx), N("arg", cx), N("dflt", cx), H("S", LoopCx(cx))>>) : a \in {"pat", "lpat"} })

Compound(cx) ==
  If("stmt",
     { Prod("if", "", 1, <<N("E", cx), H("S", [cx EXCEPT !.ne = TRUE]), H("S", cx)>>) }
     \cup (IF cx.ne THEN {} ELSE { Prod("if", "", 1, <<N("E", cx), H("S", cx)>>) }))
  \cup If("sw",
     { Prod("sw", "", 1, <<N("E", cx), H("case", SwCx(cx))>>),
       Prod("sw", "", 1, <<N("E", cx), H("case", SwCx(cx)), H("default", SwCx(cx))>>),
       Prod("sw", "", 1, <<N("E", cx), H("default", SwCx(cx)), H("case", SwCx(cx))>>),
       Prod("sw", "", 1, <<N("E", cx), H("case0", SwCx(cx)), H("case", SwCx(cx))>>),
       Prod("sw", "", 1, <<N("E", cx)>>) }
     \cup If("nil", { Prod("sw", "", 1, <<N("E", cx), H("case", SwCx(cx)), H("default0", SwCx(cx))>>),
                      Prod("sw", "", 1, <<N("E", cx), H("default0", SwCx(cx)), H("case0", SwCx(cx))>>) }))
  \cup If("try",
     { Prod("try", "c", 1, <<N("B", cx), N("B", cx)>>),
       Prod("try", "f", 1, <<N("B", cx), N("B", cx)>>),
       Prod("try", "cf", 1, <<N("B", cx), N("B", cx), N("B", cx)>>) })

Jumps(cx) ==
  If("jump",
     (IF cx.lp \/ cx.sw THEN { Prod("brk", "", 1, <<>>) } ELSE {})
     \cup (IF cx.lp THEN { Prod("cont", "", 1, <<>>) } ELSE {})
     \cup { Prod("brk", ToString(cx.lb[i]), 1, <<>>) : i \in DOMAIN cx.lb }
     \cup { Prod("cont", ToString(cx.ll[i]), 1, <<>>) : i \in DOMAIN cx.ll }
     \cup (IF cx.fn THEN { Prod("ret", "", 1, <<N("E", cx)>>), Prod("ret", "", 1, <<>>) } ELSE {})
     \cup { Prod("thr", "", 1, <<N("E", cx)>>) })

Labels(cx) ==
  If("lab", { Prod("lab", "", 0, <<N("SL", LabCx(cx, TRUE))>>),
              Prod("lab", "", 0, <<N("SN", LabCx(cx, FALSE))>>) })

Simple(cx) ==
  { Prod("es", "", 0, <<N("d", cx)>>), Prod("es", "", 0, <<N("LX", cx)>>) }
  \cup If("xs", { Prod("es", "", 0, <<N("X", cx)>>) })
  \cup If("misc", { Prod("empty", "", 1, <<>>), Prod("dbg", "", 1, <<>>) })
  \cup If("dir", { Prod("es", "", 1, <<N("str", cx)>>) })

Embedded(cx) ==   \* everything but declarations
  Simple(cx) \cup Jumps(cx) \cup Loops(cx) \cup Compound(cx) \cup Labels(cx)
  \cup If("with", IF cx.st THEN {} ELSE { Prod("with", "", 1, <<N("E", cx), H("S", cx)>>) })

Decls(cx) ==
  If("var",
     { Prod("var", "const", 1, <<N("dtor", cx)>>),
       Prod("var", "let", 1, <<N("dtor0", cx), N("dtor", cx)>>),
       Prod("var", "var", 1, <<N("dtor", cx), N("dtor", cx)>>) })
  \cup If("dflt", { Prod("var", "const", 1, <<N("dtorp", cx)>>) })
  \cup If("fn",
     { Prod("grp", "", 1, <<H("fdecl", cx), N("uses", cx)>>) })
  \cup If("gen",
     { Prod("grp", "", 1, <<H("gdecl", cx), N("uses", cx)>>) })
  \cup If("cls",
     { Prod("grp", "", 1, <<H("cdecl", cx), N("uses", cx)>>) })
  \cup If("fval",
     { Prod("grp", "", 1, <<H("fvar1", cx), N("uses", cx)>>) })

(***************************************************************************)
(* Prods(e, nodes): the productions of the open nonterminal e              *)
(***************************************************************************)
Prods(e) ==
  LET cx == e.cx IN
  CASE e.nt = "d"  -> { D0 }
    [] e.nt = "E"  -> { D0 } \cup Wide(cx)
    [] e.nt = "LX" -> { Prod("log", "", 0, <<N("X", cx)>>) }
    [] e.nt = "X"  -> Wide(cx)
    [] e.nt = "PX" -> ParX(cx)
    [] e.nt = "A"  -> { D0 } \cup Prim(cx) \cup Par(cx)
    [] e.nt = "o|l" -> { D0 } \cup Prim(cx) \cup Par(cx) \cup LgOp(cx, {"||", "&&"})
    [] e.nt = "o|r" -> { D0 } \cup Prim(cx) \cup Par(cx) \cup LgOp(cx, {"&&"})
    [] e.nt = "o&l" -> { D0 } \cup Prim(cx) \cup Par(cx) \cup LgOp(cx, {"&&"})
    [] e.nt = "o&r" -> { D0 } \cup Prim(cx) \cup Par(cx)
    [] e.nt = "o?l" -> { Dn } \cup Prim(cx) \cup Par(cx) \cup LgOp(cx, {"??"})
    [] e.nt = "o?r" -> { Dn } \cup Prim(cx) \cup Par(cx)
    [] e.nt = "str" -> { Prod("lit", "str", 0, <<>>) }
    [] e.nt = "arg" -> { Prod("arg", "", 0, <<>>) }
    [] e.nt = "itr" -> { Prod("itr", "", 0, <<>>) }
    [] e.nt = "none" -> { Prod("none", "", 0, <<>>) }
    [] e.nt = "pd"   -> { Prod("pd", a, 0, <<N("E", cx)>>) : a \in PdForms }
    [] e.nt = "dflt" -> { Prod("dflt", "", 0, <<N("E", cx)>>) }
    [] e.nt = "prop" -> { Prod("prop", "", 0, <<N("E", cx)>>) }
    [] e.nt = "fe0" -> { Fn0("fe", "", "", 0, cx) } \cup { Fn0("fe", "named", nm, 0, cx) : nm \in NAMES }
                       \cup If("strict", { Prod("fe", "strict", 0, <<N("Bs", StrictCx(cx))>>) })
    [] e.nt = "fe1" -> { Fn1("fe", "", "", 0, cx) }
    [] e.nt = "ar0" -> { Prod("ar", "e", 0, <<N("E", FnCx(cx))>>), Prod("ar", "b", 0, <<N("B", FnCx(cx))>>) }
    [] e.nt = "ar1" -> { Prod("ar", "e", 0, <<N("pd", NoGen(cx)), N("E", FnCx(cx))>>),
                         Prod("ar", "b", 0, <<N("pd", NoGen(cx)), N("B", FnCx(cx))>>) }
    [] e.nt = "feg" -> { Prod("fe", "gen", 0, <<N("B", GenCx(cx))>>) }
    [] e.nt = "FV"  -> FnVal(cx)
    [] e.nt = "FO"  -> FnVal(cx)
                       \cup { Prod("reg", "", 0, <<N("FV", cx)>>),
                              Prod("obj", "", 0, <<H("omember", cx)>>),
                              Prod("obj", "", 1, <<H("omember", cx), H("omember", cx)>>) }
                       \cup If("cls", ClsBody("ce", cx))
    [] e.nt = "member" -> Member(cx)
    [] e.nt = "omember" -> OMember(cx)
    [] e.nt = "B"  -> { Prod("blk", "", 0, <<N("L", cx)>>) }
    [] e.nt = "Bs" -> { Prod("blk", "strict", 0, <<N("L", cx)>>) }
    [] e.nt = "L"  -> LET c == [cx EXCEPT !.ne = FALSE]
                      IN { Prod("", "", 0, <<H("LI", c)>>), Prod("", "", 1, <<H("LI", c), H("LI", c)>>) }
                         \cup If("nil", { Prod("", "", 0, <<>>) })
    [] e.nt = "SB" -> { Prod("blk", "", 0, <<H("LI", [cx EXCEPT !.ne = FALSE]), N("BR", cx)>>) }
    [] e.nt = "BR" -> { Prod("brk", "", 0, <<>>) }
    [] e.nt = "LI" -> Embedded(cx) \cup Decls(cx) \cup If("stmt", { Prod("blk", "", 1, <<N("L", cx)>>) })
    [] e.nt = "S"  -> Embedded(cx) \cup { Prod("blk", "", 0, <<N("L", cx)>>) }
    [] e.nt = "SL" -> Loops(cx)
    [] e.nt = "SN" -> Compound(cx) \cup { Prod("blk", "", 1, <<N("L", cx)>>) }
    [] e.nt = "case"  -> { Prod("case", "", 0, <<N("E", cx), N("L", cx)>>) }
    [] e.nt = "default0" -> { Prod("case", "default", 0, <<>>) }
    [] e.nt = "case0" -> { Prod("case", "", 0, <<N("E", cx)>>) }
    [] e.nt = "default" -> { Prod("case", "default", 0, <<N("L", cx)>>) }
    [] e.nt = "dtor"  -> { Prod("dtor", "", 0, <<N("E", cx)>>) }
    [] e.nt = "dtor0" -> { Prod("dtor", "", 0, <<>>) }
    [] e.nt = "dtorp" -> { Prod("dtor", a, 0, <<N("dflt", cx), N("arg", cx)>>) : a \in {"pat", "opat"} \cup If("pats", {"spat"}) }
    [] e.nt = "dtorf" -> { Prod("dtor", "", 0, <<N("FO", cx)>>) }
    [] e.nt = "fvar"  -> { Prod("var", a, 0, <<N("dtor", cx)>>) : a \in {"let", "var"} }
    [] e.nt = "fvar1" -> { Prod("var", a, 0, <<N("dtorf", cx)>>) : a \in {"const", "var"} }
    [] e.nt = "fdecl" -> { Fn0("fn", "", "", 0, cx), Fn1("fn", "", "", 0, cx) }
                         \cup If("strict", { Prod("fn", "strict", 0, <<N("Bs", StrictCx(cx))>>) })
    [] e.nt = "gdecl" -> { Prod("fn", "gen", 0, <<N("B", GenCx(cx))>>) }
    [] e.nt = "cdecl" -> ClsBody("cls", cx)
    [] e.nt = "use1"  -> { Prod("es", "use", 0, <<R("use2", cx, e.r)>>) }
    [] e.nt = "use2"  -> { Prod("use", "", 0, <<>>) }
    [] OTHER -> Assert(FALSE, <<"nonterminal", e.nt>>)

(* the hint comments that may stand in front of the node a production makes *)
HintsAt(e, p) ==
  IF ~e.hp THEN {}
  ELSE IF p.k \in {"", "grp"} THEN {}
  ELSE IF p.k = "if" THEN HKINDS
  ELSE HKINDS \ {"if", "else"}

(***************************************************************************)
(* Expansion                                                               *)
(***************************************************************************)
NewNode(e, p, h) ==
  [k |-> p.k, a |-> p.a, h |-> h, r |-> e.r, nm |-> p.nm, kids |-> <<>>]

AddNode(nodes, e, p, h) ==
  LET id == Len(nodes) + 1
      ns == IF e.par = 0 THEN nodes ELSE [nodes EXCEPT ![e.par].kids = Append(@, id)]
  IN Append(ns, NewNode(e, p, h))

Opened(e, p, id) ==  \* the new open nonterminals
  [i \in DOMAIN p.kd |-> [p.kd[i] EXCEPT !.par = IF p.k = "" THEN e.par ELSE id, !.cx = Bind(@, id)]]

MemKinds == {"meth", "get", "set", "smeth", "sget", "gmeth", "sset"}

(* the functions a declaration makes callable, in order *)
RECURSIVE Callable(_, _)
Callable(ns, i) ==
  LET n == ns[i]
      mem == SelectSeq(n.kids, LAMBDA j : ns[j].k \in MemKinds)
      self == IF \E j \in DOMAIN n.kids : ns[n.kids[j]].k \in {"ctor", "fld", "pfld"} THEN <<i>> ELSE <<>>
  IN CASE n.k \in {"fn", "fe", "ar"} -> <<i>>
       [] n.k \in {"cls", "ce"} -> self \o mem
       [] n.k = "obj" -> mem
       [] n.k = "var" -> Callable(ns, n.kids[1])
       [] n.k \in {"dtor", "reg"} -> Callable(ns, n.kids[1])
       [] OTHER -> <<>>

Distinct(ns, i) ==   \* members of one class or object have different names
  LET ms == ns[i].kids IN
  /\ ns[i].a = "ext" => \A j \in DOMAIN ms : ns[ms[j]].k # "ctor"   \* it would need a super call
  /\ Cardinality({ j \in DOMAIN ms : ns[ms[j]].k = "ctor" }) <= 1
  /\ \A a, b \in DOMAIN ms : (a # b /\ ns[ms[a]].nm # "") => ns[ms[a]].nm # ns[ms[b]].nm

(***************************************************************************)
(* The nested form with annotations:                                       *)
(*  lr  the outermost logical expression a node is an operand of (0: none) *)
(*  lb  the label directly in front of a loop                              *)
(*  st  strict mode code                                                   *)
(*  eg  the eager counters of a node: those of tagged templates and of     *)
(*      hoisted initialisers, which count when the enclosing statement is  *)
(*      reached                                                            *)
(***************************************************************************)
RECURSIVE ThruLogic(_, _), Reach(_, _, _)
ThruLogic(ns, i) ==   \* a logical expression, possibly in parentheses
  ns[i].k = "lg" \/ (ns[i].k = "par" /\ ThruLogic(ns, ns[i].kids[1]))

FnKinds == {"fn", "fe", "ar", "ctor", "pmeth"} \cup MemKinds
BlockFn(ns, i) == ns[i].k \in FnKinds /\ ~(ns[i].k = "ar" /\ ns[i].a = "e")

Reach(ns, i, what) ==   \* does node i contain a block ("blk") or a function or class ("fn")
  \/ what = "blk" /\ (ns[i].k \in {"blk", "sblk"})
  \/ what = "fn" /\ ns[i].k \in {"fe", "ar", "ce"}
  \/ \E j \in DOMAIN ns[i].kids : Reach(ns, ns[i].kids[j], what)

(* initialiser i counts eagerly; v: of a variable, x: of an exported one *)
EagerInit(ns, i, v) ==
  \/ Reach(ns, i, "blk")
  \/ v /\ Reach(ns, i, "fn")

StmtKinds == {"es", "brk", "cont", "ret", "thr", "if", "for", "fin", "fof", "while",
              "do", "sw", "try", "with", "lab"}
Absorbing == StmtKinds \cup {"blk", "var", "fn", "cls", "empty", "dbg", "grp", "sblk"}

InitOf(n) == IF n.k = "dtor" THEN (IF n.kids = <<>> THEN 0 ELSE n.kids[Len(n.kids)])
             ELSE IF n.k \in {"fld", "pfld", "sfld"} THEN n.kids[1] ELSE 0

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

IsStr(ns, j) == ns[j].k = "es" /\ ns[ns[j].kids[1]].k = "lit" /\ ns[ns[j].kids[1]].a \in {"str", "estr"}
Prologue(ns, ks, j) == \A x \in 1..j : IsStr(ns, ks[x])

RECURSIVE Tree(_, _, _, _, _)
Tree(ns, i, lr, lb, st) ==
  LET n == ns[i]
      root == IF n.k = "lg" THEN (IF lr # 0 THEN lr ELSE i) ELSE 0
      st2 == st \/ n.k \in {"cls", "ce"} \/ n.a = "strict"
      kid(j) == Tree(ns, n.kids[j],
                     IF n.k = "lg" THEN root
                     ELSE IF n.k = "par" /\ lr # 0 /\ ThruLogic(ns, i) THEN lr ELSE 0,
                     IF n.k = "lab" THEN ToString(i) ELSE "", st2)
      \* string statements in front of a program or of a function body are directives
      body == n.k = "prog" \/ BlockFn(ns, i)
      bare(t, ks) == [t EXCEPT !.kids = [j \in DOMAIN @ |->
                        IF Prologue(ns, ks, j) THEN [@[j] EXCEPT !.k = "dir", !.kids = <<>>, !.h = "", !.eg = <<>>] ELSE @[j]]]
      raw0 == [j \in DOMAIN n.kids |-> kid(j)]
      raw == IF n.k = "prog" THEN bare([kids |-> raw0], n.kids).kids
             ELSE IF body THEN [raw0 EXCEPT ![Len(raw0)] = bare(@, ns[n.kids[Len(n.kids)]].kids)]
             ELSE raw0
      kids == \* a declaration in the head of a for leaves its eager counters to the loop
        [j \in DOMAIN raw |-> IF n.k = "for" /\ raw[j].k = "var" THEN [raw[j] EXCEPT !.eg = <<>>] ELSE raw[j]]
      pass(j) == \* the eager counters child j hands up
        IF raw[j].k = "var" /\ n.k = "for" THEN raw[j].eg
        ELSE IF kids[j].k \in Absorbing THEN <<>>
        ELSE IF n.k = "ar" /\ n.a = "e" /\ j = Len(n.kids) THEN <<>>
        ELSE kids[j].eg
      init == InitOf(n)
      own == IF n.k = "tag" THEN << <<"s", i, 0>> >>
             ELSE IF init # 0 /\ ns[init].k # "tag" /\ EagerInit(ns, init, n.k = "dtor")
             THEN << <<"s", init, 0>> >> ELSE <<>>
  IN [id |-> i, k |-> n.k, a |-> n.a, h |-> n.h, r |-> n.r, nm |-> n.nm, kids |-> kids,
      lr |-> lr, lb |-> lb, st |-> st2, ky |-> <<>>,
      lz |-> init # 0 /\ ~EagerInit(ns, init, n.k = "dtor") /\ ns[init].k # "tag",
      eg |-> own \o Cat([j \in DOMAIN n.kids |-> pass(j)])]

RECURSIVE Find(_, _)
Find(t, id) ==   \* the set of nodes of tree t with this id
  (IF t.id = id THEN {t} ELSE {}) \cup UNION { Find(t.kids[j], id) : j \in DOMAIN t.kids }
RECURSIVE Parent(_, _)
Parent(t, id) ==
  (IF \E j \in DOMAIN t.kids : t.kids[j].id = id THEN {t} ELSE {})
  \cup UNION { Parent(t.kids[j], id) : j \in DOMAIN t.kids }
Some(S) == CHOOSE x \in S : TRUE
=============================================================================
