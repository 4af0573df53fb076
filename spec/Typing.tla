------------------------------- MODULE Typing ---------------------------------
(* The type of the result of an operation, as a function of the types of its     *)
(* arguments: names of records and lists, numeric types, fixed sizes and whether *)
(* values may be missing follow the data through every operation.                *)
EXTENDS Types
(* missing at two levels is missing *)
RECURSIVE Norm(_)
Norm(T) == CASE T[1] = "opt" -> LET S == Norm(T[2]) IN IF S[1] = "opt" THEN S ELSE <<"opt", S>>
             [] T[1] = "list" -> <<"list", T[2], Norm(T[3])>>
             [] T[1] = "reg" -> <<"reg", T[2], T[3], Norm(T[4])>>
             [] T[1] = "cat" -> <<"cat", T[2], Norm(T[3])>>
             [] T[1] = "rec" -> <<"rec", T[2], T[3], T[4], Map(T[5], Norm)>>
             [] T[1] = "un" -> <<"un", Map(T[2], Norm)>>
             [] OTHER -> T
Opt(T) == Norm(<<"opt", T>>)
WithElt(T, E) == IF T[1] = "list" THEN <<"list", T[2], E>> ELSE <<"reg", T[2], T[3], E>>
WithSize(T, n) == IF T[1] = "list" THEN T ELSE <<"reg", T[2], n, T[4]>>
(* the same, at an option or not *)
Under(T, F(_)) == IF T[1] = "opt" THEN Norm(<<"opt", F(T[2])>>) ELSE F(T)
(* projections: the lists and records on the way to the fields are anonymous     *)
Anon(T) == IF T[1] = "list" THEN <<"list", "", T[3]>> ELSE <<"reg", "", T[3], T[4]>>
RECURSIVE Fld(_, _)
Fld(T, f) == CASE T[1] = "opt" -> Opt(Fld(T[2], f))
               [] T[1] \in {"list", "reg"} -> WithElt(Anon(T), Fld(Elt(T), f))
               [] T[1] = "rec" -> T[5][IndexIn(T[4], f)]
RECURSIVE Flds(_, _)
Flds(T, fs) == CASE T[1] = "opt" -> Opt(Flds(T[2], fs))
                 [] T[1] \in {"list", "reg"} -> WithElt(Anon(T), Flds(Elt(T), fs))
                 [] T[1] = "rec" -> <<"rec", "", T[3], IF T[3] THEN Tab(Len(fs), LAMBDA i : ToString(i - 1)) ELSE fs,
                                      Map(fs, LAMBDA f : T[5][IndexIn(T[4], f)])>>
(* how many items lo:hi picks out of n *)
Wrap(i, n) == IF i < 0 THEN Max2(0, i + n) ELSE Min2(i, n)
Count(lo, hi, n) == Max2(0, Wrap(hi, n) - Wrap(lo, n))
RECURSIVE Leaf(_, _)
Leaf(T, dt) == CASE T[1] = "prim" -> <<"prim", T[2], dt>>
                 [] T[1] = "opt" -> Opt(Leaf(T[2], dt))
                 [] IsStr(T) -> T
                 [] T[1] \in {"list", "reg"} -> WithElt(T, Leaf(Elt(T), dt))
                 [] T[1] = "rec" -> <<"rec", T[2], T[3], T[4], Map(T[5], LAMBDA t : Leaf(t, dt))>>
                 [] OTHER -> T
RECURSIVE NoOpts(_)
NoOpts(T) == CASE T[1] = "opt" -> NoOpts(T[2])
               [] IsStr(T) -> T
               [] T[1] \in {"list", "reg"} -> WithElt(T, NoOpts(Elt(T)))
               [] T[1] = "rec" -> <<"rec", T[2], T[3], T[4], Map(T[5], NoOpts)>>
               [] OTHER -> T
(* the records of an array have the name                                          *)
RECURSIVE Rename(_, _)
Rename(T, nm) == CASE T[1] = "opt" -> Opt(Rename(T[2], nm))
                   [] IsStr(T) -> T
                   [] T[1] \in {"list", "reg"} -> WithElt(T, Rename(Elt(T), nm))
                   [] T[1] = "rec" -> <<"rec", nm, T[3], T[4], T[5]>>
                   [] OTHER -> T
Prim(dt) == <<"prim", "", dt>>
VarList(T) == <<"list", T[2], Elt(T)>>
(* whether the outermost option is decided by the values: sorting drops missing  *)
(* values from the outermost dimension; padding to less than the length adds none *)
Loose(e) == e.how = "sort" \/ (e.how = "pad0" /\ e.n <= LenOf(e.a))
NoOpt(T) == IF T[1] = "opt" THEN T[2] ELSE T
Unpadded(e) == e.how = "pad1" /\ ~e.clip
(* no option carries a name: names belong to lists and records                   *)
RECURSIVE OptNamed(_)
OptNamed(nd) == \/ nd.c \in {"io", "bm", "bit", "um"} /\ "a" \in DOMAIN nd
                \/ nd.c \in {"rec", "un", "part"} /\ \E i \in 1..Len(nd.xs) : OptNamed(nd.xs[i])
                \/ nd.c \in {"lo", "l", "reg", "ix", "io", "bm", "bit", "um"} /\ OptNamed(nd.x)
(* T: the type of the items of the array *)
ResultType(e, T) ==
  CASE e.how \in {"range", "take", "boolmask", "copy", "sort", "concat", "packed", "repeat"} -> T
    [] e.how = "jagged" -> Under(T, Anon)
    [] e.how \in {"opttake", "mask"} -> Opt(T)
    [] e.how = "pad0" -> Opt(T)
    [] e.how = "at" -> (LET S == IF T[1] = "opt" THEN T[2] ELSE T IN IF S[1] = "rec" THEN S ELSE Elt(S))
    [] e.how = "field" -> Fld(T, e.f)
    [] e.how = "fields" -> Flds(T, e.fs)
    [] e.how = "inrange" -> Under(T, LAMBDA S : WithSize(S, Count(e.lo, e.hi, IF S[1] = "reg" THEN S[3] ELSE 0)))
    [] e.how = "inat" -> Under(T, LAMBDA S : Elt(S))
    [] e.how = "newaxis" -> <<"reg", "", e.n, T>>
    [] e.how = "flatten" -> Elt(IF T[1] = "opt" THEN T[2] ELSE T)
    [] e.how = "unflatten" -> <<"list", "", T>>
    [] e.how = "pad1" -> Under(T, LAMBDA S : IF e.clip THEN <<"reg", S[2], e.n, Opt(Elt(S))>> 
                                              ELSE IF S[1] = "reg" THEN <<"reg", S[2], Max2(e.n, S[3]), Opt(Elt(S))>>
                                              ELSE <<"list", S[2], Opt(Elt(S))>>)
    [] e.how = "firsts" -> Opt(Elt(IF T[1] = "opt" THEN T[2] ELSE T))
    [] e.how = "singletons" -> <<"list", "", IF T[1] = "opt" THEN T[2] ELSE T>>
    [] e.how = "zip" -> <<"rec", e.name, e.tup, e.fs, Tab(Len(e.fs), LAMBDA i : T)>>
    [] e.how = "fillnone" -> NoOpts(T)
    [] e.how = "isnone0" -> Prim("bool")
    [] e.how = "num1" -> Under(T, LAMBDA S : Prim("int64"))
    [] e.how = "localindex0" -> Prim("int64")
    [] e.how = "localindex1" -> Under(T, LAMBDA S : WithElt(Anon(S), Prim("int64")))
    [] e.how = "withname" -> Rename(T, e.name)
    [] e.how = "withfield" -> Under(T, LAMBDA S : <<"rec", S[2], FALSE, S[4] \o <<"new">>, S[5] \o <<Prim("int64")>>>>)
    [] e.how = "pairs0" -> <<"rec", "", TRUE, <<"0", "1">>, <<T, T>>>>
    [] e.how = "pairs1" -> Under(T, LAMBDA S : WithElt(Anon(WithSize(S, IF S[1] = "list" THEN 0 ELSE (S[3] * (IF e.rep THEN S[3] + 1 ELSE S[3] - 1)) \div 2)), <<"rec", "", TRUE, <<"0", "1">>, <<Elt(S), Elt(S)>>>>))
    [] e.how = "fromregular" -> Under(T, LAMBDA S : VarList(S))
    [] e.how = "toregular" -> Under(T, LAMBDA S : <<"reg", S[2], e.n, Elt(S)>>)
    [] e.how = "astype" -> Leaf(T, e.dt)
    [] e.how = "dropopt" -> IF T[1] = "opt" THEN T[2] ELSE T
==============================================================================
