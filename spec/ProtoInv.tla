------------------------------- MODULE ProtoInv -------------------------------
(***************************************************************************)
(* Properties of the specified parser itself, checked by TLC in every      *)
(* state (MachineInv) and on every outcome (OutcomeInv).                   *)
(***************************************************************************)
EXTENDS ProtoGen

SpanOk(src, l) == 0 <= l[1] /\ l[1] <= l[2] /\ l[2] <= Len(src)

\* every state of the machine
MachineInv(src, m) ==
  /\ m.pos \in 0..Len(src)
  /\ m.depth \in 0..MaxDepth
  /\ m.laste <= m.pos
  /\ m.mode = "run" => m.st # <<>>
  \* C14: an error points into the part of the source already read
  /\ \A j \in 1..Len(m.errs) : \A k \in 1..Len(m.errs[j].l) :
        SpanOk(src, m.errs[j].l[k]) /\ m.errs[j].l[k][1] <= m.pos
  \* C15: recovering or giving up always has a cause
  /\ m.mode \in {"skip", "fatal"} => m.errs # <<>>
  \* C12: trailing and pending comments are single, pending ones of the same
  \* line have no detached ones before them
  /\ Len(m.com.lead) <= 1 /\ Len(m.com.trail) <= 1
  /\ m.com.istr => m.com.det = <<>>
  \* nodes under construction nest
  /\ \A j \in 2..Len(m.open) : m.open[j].s <= m.pos /\ m.open[j - 1].s <= m.open[j].s

(* C11: a location path resolves to an element of the descriptor *)
OptPath(p) == (p = <<>>) \/ (Len(p) = 2 /\ p[1] = 999)
InList(n, p, i) == Len(p) >= i /\ p[i] >= 0 /\ p[i] < n
OptRes(o, p) == IF p = <<>> THEN TRUE ELSE OptPath(p) /\ o # None /\ p[2] < Len(o[1].u)
Tl(p, k) == SubSeq(p, k + 1, Len(p))

FieldRes(f, p) ==
  \/ p = <<>>
  \/ Len(p) = 1 /\ CASE p[1] = 1 -> f.name # None [] p[1] = 2 -> f.extendee # None
                     [] p[1] = 3 -> f.number # None [] p[1] = 4 -> f.label # None
                     [] p[1] = 5 -> f.type # None [] p[1] = 6 -> f.type_name # None
                     [] p[1] = 7 -> f.default # None [] p[1] = 10 -> f.json_name # None
                     [] p[1] = 8 -> TRUE [] OTHER -> FALSE
  \/ Len(p) > 1 /\ p[1] = 8 /\ OptRes(f.options, Tl(p, 1))
RangeRes(r, p) ==
  \/ p = <<>>
  \/ p = <<1>> /\ r.start # None
  \/ p = <<2>> /\ r.end # None
  \/ p # <<>> /\ p[1] = 3 /\ "options" \in DOMAIN r /\ OptRes(r.options, Tl(p, 1))
ListRes(q, p, Rs(_, _)) == p = <<>> \/ (InList(Len(q), p, 1) /\ Rs(q[p[1] + 1], Tl(p, 1)))
NameRes(q, p) == p = <<>> \/ (Len(p) = 1 /\ InList(Len(q), p, 1))
ValueRes(v, p) == p = <<>> \/ p = <<1>> \/ p = <<2>> \/ (p[1] = 3 /\ OptRes(v.options, Tl(p, 1)))
EnumRes(e, p) ==
  \/ p = <<>>
  \/ CASE p[1] = 1 -> Len(p) = 1 [] p[1] = 2 -> ListRes(e.value, Tl(p, 1), ValueRes)
       [] p[1] = 3 -> OptRes(e.options, Tl(p, 1)) [] p[1] = 4 -> ListRes(e.res_range, Tl(p, 1), RangeRes)
       [] p[1] = 5 -> NameRes(e.res_name, Tl(p, 1)) [] OTHER -> FALSE
OneofRes(o, p) == p = <<>> \/ p = <<1>> \/ (p[1] = 2 /\ OptRes(o.options, Tl(p, 1)))
RECURSIVE MsgRes(_, _)
MsgRes(x, p) ==
  \/ p = <<>>
  \/ CASE p[1] = 1 -> Len(p) = 1
       [] p[1] = 2 -> ListRes(x.field, Tl(p, 1), FieldRes)
       [] p[1] = 3 -> Len(p) = 1 \/ (InList(Len(x.nested), p, 2) /\ MsgRes(x.nested[p[2] + 1], Tl(p, 2)))
       [] p[1] = 4 -> ListRes(x.enum, Tl(p, 1), EnumRes)
       [] p[1] = 5 -> ListRes(x.ext_range, Tl(p, 1), RangeRes)
       [] p[1] = 6 -> ListRes(x.extension, Tl(p, 1), FieldRes)
       [] p[1] = 7 -> OptRes(x.options, Tl(p, 1))
       [] p[1] = 8 -> ListRes(x.oneof, Tl(p, 1), OneofRes)
       [] p[1] = 9 -> ListRes(x.res_range, Tl(p, 1), RangeRes)
       [] p[1] = 10 -> NameRes(x.res_name, Tl(p, 1)) [] OTHER -> FALSE
MethodRes(d, p) == (p = <<>>) \/ (Len(p) = 1 /\ p[1] \in {1, 2, 3}) \/ (p = <<5>> /\ d.cs # None)
                   \/ (p = <<6>> /\ d.ss # None) \/ (p[1] = 4 /\ OptRes(d.options, Tl(p, 1)))
SvcRes(s, p) ==
  \/ p = <<>> \/ p = <<1>>
  \/ p[1] = 2 /\ ListRes(s.method, Tl(p, 1), MethodRes)
  \/ p[1] = 3 /\ OptRes(s.options, Tl(p, 1))
FileRes(d, p) ==
  \/ p = <<>>
  \/ CASE p[1] = 2 -> p = <<2>> /\ d.package # None
       [] p[1] = 3 -> NameRes(d.dependency, Tl(p, 1))
       [] p[1] = 4 -> ListRes(d.message, Tl(p, 1), MsgRes)
       [] p[1] = 5 -> ListRes(d.enum, Tl(p, 1), EnumRes)
       [] p[1] = 6 -> ListRes(d.service, Tl(p, 1), SvcRes)
       [] p[1] = 7 -> ListRes(d.extension, Tl(p, 1), FieldRes)
       [] p[1] = 8 -> OptRes(d.options, Tl(p, 1))
       [] p[1] = 10 -> NameRes(d.public_dependency, Tl(p, 1))
       [] p[1] = 11 -> NameRes(d.weak_dependency, Tl(p, 1))
       [] p[1] = 12 -> p = <<12>> [] OTHER -> FALSE

(* C07, C08, C03: well-formedness of messages *)
NumOk(n) == n # None /\ n[1] >= 1 /\ n[1] <= MaxMsgNum
RECURSIVE MsgOk(_)
MsgOk(x) ==
  /\ \A j \in 1..Len(x.field) :
       LET f == x.field[j] IN
       /\ NumOk(f.number) /\ f.label # None /\ f.name # None
       /\ (f.type # None \/ f.type_name # None)
       /\ f.oneof_index # None => f.oneof_index[1] \in 0..(Len(x.oneof) - 1)
       /\ f.type = Opt(11) => \E k \in 1..Len(x.nested) :
                              x.nested[k].name = f.type_name /\ x.nested[k].options # None
                              /\ x.nested[k].options[1].map_entry
       /\ f.type = Opt(10) => \E k \in 1..Len(x.nested) : x.nested[k].name = f.type_name
       /\ f.p3opt # None => /\ f.oneof_index # None
                            /\ \A k \in 1..Len(x.field) : k # j => x.field[k].oneof_index # f.oneof_index
  \* every oneof has a field
  /\ \A k \in 1..Len(x.oneof) : \E j \in 1..Len(x.field) : x.field[j].oneof_index = Opt(k - 1)
  \* a synthetic oneof shares its name with no field and no other oneof
  /\ \A j \in 1..Len(x.field) : x.field[j].p3opt # None =>
       LET k == x.field[j].oneof_index[1] + 1 IN
       /\ \A q \in 1..Len(x.field) : x.field[q].name # x.oneof[k].name
       /\ \A q \in 1..Len(x.oneof) : q # k => x.oneof[q].name # x.oneof[k].name
  /\ \A j \in 1..Len(x.nested) : MsgOk(x.nested[j])
FileOk(d) ==
  /\ \A j \in 1..Len(d.message) : MsgOk(d.message[j])
  /\ \A j \in 1..Len(d.extension) : d.extension[j].extendee # None /\ NumOk(d.extension[j].number)
  /\ \A j \in 1..Len(d.public_dependency) : d.public_dependency[j] \in 0..(Len(d.dependency) - 1)
  /\ \A j \in 1..Len(d.weak_dependency) : d.weak_dependency[j] \in 0..(Len(d.dependency) - 1)

\* C12: number of comment texts recorded
NumCom(l) == Len(l.lead) + Len(l.trail) + Len(l.det)
RECURSIVE SumCom(_, _)
SumCom(q, j) == IF j > Len(q) THEN 0 ELSE NumCom(q[j]) + SumCom(q, j + 1)
\* an upper bound of the number of comments in the source
Slashes(src) == Cardinality({j \in 1..(Len(src) - 1) : src[j] = 47 /\ src[j + 1] \in {47, 42}})

OutcomeInv(src, m, out) ==
  /\ out.ok <=> out.errs = <<>>
  /\ out.ok =>
     /\ FileOk(out.fd)
     /\ \A j \in 1..Len(out.locs) : FileRes(out.fd, out.locs[j].path)
     /\ SumCom(out.locs, 1) <= Slashes(src)
     /\ m.depth = 0 /\ m.mode = "done"
  \* C15: no problem is reported twice
  /\ \A j, k \in 1..Len(out.errs) : j # k => out.errs[j] # out.errs[k]
  /\ \A j \in 1..Len(out.errs) : \A k \in 1..Len(out.errs[j].l) : SpanOk(src, out.errs[j].l[k])
===============================================================================
