-------------------------------- MODULE Compiler --------------------------------
(***************************************************************************)
(* The compiler: files are opened from a resolver, with everything they    *)
(* import, depth first.  A transition is one resolver call or one linked   *)
(* file; between operations the world behind the resolver may change.      *)
(*                                                                         *)
(* world : name -> what the resolver answers for it                        *)
(* pool  : the files held, in order, as they were when read                *)
(* stack : the files being opened, outermost first                         *)
(* queue : what remains of an open_files call                              *)
(* hist  : the operations so far with their results (the test case)        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Names == {"a", "b", "c", "d", "e", "x", "g"}
NoFile == [st |-> "nf", imps |-> <<>>, v |-> 0, kind |-> "source", role |-> "plain"]
File(st, imps, v, kind, role) == [st |-> st, imps |-> imps, v |-> v, kind |-> kind, role |-> role]

VARIABLES world, first, pool, meta, flags, stack, queue, calls, hist, opened, failed
vars == <<world, first, pool, meta, flags, stack, queue, calls, hist, opened, failed>>

Held == {pool[i].name : i \in 1..Len(pool)}
InPool(n) == n \in Held
Get(w, n) == IF n \in DOMAIN w THEN w[n] ELSE NoFile
PoolFile(n) == pool[CHOOSE i \in 1..Len(pool) : pool[i].name = n]
OnStack(n) == \E i \in 1..Len(stack) : stack[i].name = n

(* the graph behind the resolver, as far as it is not held yet *)
RECURSIVE Reaches(_, _)
Reaches(w, S) == LET T == S \cup UNION {IF n \in Held THEN {} ELSE ToSet(Get(w, n).imps) : n \in S}
                 IN IF T = S THEN S ELSE Reaches(w, T)
\* a file that defines options imports g, one that uses them imports a file that defines them
RoleOK(w, f) ==
  /\ f.role = "defs" => \E i \in 1..Len(f.imps) : f.imps[i] = "g"
  /\ f.role = "uses" => \E i \in 1..Len(f.imps) : (IF f.imps[i] \in Held THEN PoolFile(f.imps[i]) ELSE Get(w, f.imps[i])).role = "defs"
Needs(w, n) == Reaches(w, {n}) \ Held
OnCycle(w, n) == \E m \in ToSet(Get(w, n).imps) : n \in Reaches(w, {m}) /\ m \notin Held
Sound(w, n) == \A m \in Needs(w, n) :
  LET f == Get(w, m) IN
  /\ f.st = "ok" /\ RoleOK(w, f)
  /\ \A i, j \in 1..Len(f.imps) : f.imps[i] = f.imps[j] => i = j
  /\ ~OnCycle(w, m)

Ok == [k |-> "ok", f |-> "", x |-> "", i |-> 0, cycle |-> <<>>]
Err(k, f, x, i, cycle) == [k |-> k, f |-> f, x |-> x, i |-> i, cycle |-> cycle]

\* "openat" opens by a path that means the name but is not where its file lies; that matters for files that lie somewhere
OnDisk(f) == f.kind = "source"

(* what is seen after an operation *)
View == [pool |-> [i \in 1..Len(pool) |-> [name |-> pool[i].name, v |-> pool[i].v, imps |-> pool[i].imps, kind |-> pool[i].kind,
                                           role |-> pool[i].role, imp |-> meta[pool[i].name]]],
         flags |-> flags]
Selected(v) == SelectSeq(v.pool, LAMBDA f : v.flags.imports \/ ~f.imp)

Idle == stack = <<>> /\ queue = <<>>
\* the operation being performed: the names left in queue, the first of them under way when stack is not empty
Op == hist[Len(hist)]
\* sound: may it succeed? (decided on the world, not by the search)
Begin(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg,
                                        sound |-> \A i \in 1..Len(arg) : Sound(world, arg[i]) /\ (op = "openat" => ~OnDisk(IF InPool(arg[i]) THEN PoolFile(arg[i]) ELSE world[arg[i]])),
                                        res |-> Err("running", "", "", 0, <<>>), calls |-> <<>>, view |-> View])
Close(res, q) == hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.res = res, !.calls = q, !.view = View']]

StartOpen(op, q) ==
  /\ Idle /\ q # <<>>
  /\ Begin(op, q) /\ queue' = q /\ calls' = <<>>
  /\ UNCHANGED <<first, world, pool, meta, flags, stack, opened, failed>>

Fail(res, q) ==
  /\ stack' = <<>> /\ queue' = <<>> /\ calls' = q /\ failed' = TRUE
  /\ UNCHANGED <<first, world, pool, meta, flags, opened>>
  /\ Close(res, q)

\* the answer of the resolver for name n, asked for on behalf of the last file on the stack (if any)
Ask(n) ==
  LET f == Get(world, n)
      q == Append(calls, n)
      by == stack[Len(stack)]
  IN CASE f.st = "nf" -> IF stack = <<>> THEN Fail(Err("notincluded", "", n, 0, <<>>), q)
                         ELSE Fail(Err("importnf", by.name, n, by.i + 1, <<>>), q)
       [] f.st \in {"parse", "custom", "io"} -> Fail(Err(f.st, n, n, 0, <<>>), q)
       [] stack = <<>> /\ Op.op = "openat" /\ OnDisk(f) -> Fail(Err("shadowed", n, n, 0, <<>>), q)
       [] OTHER -> /\ stack' = Append(stack, [name |-> n, i |-> 0, file |-> f])
                   /\ calls' = q
                   /\ UNCHANGED <<first, world, pool, meta, flags, queue, opened, failed, hist>>

\* the next name of the operation
OpenNext ==
  /\ stack = <<>> /\ queue # <<>>
  /\ LET n == queue[1] IN
     IF InPool(n) /\ Op.op = "openat" /\ OnDisk(PoolFile(n)) THEN Fail(Err("shadowed", n, n, 0, <<>>), calls)
     ELSE IF InPool(n)
     THEN /\ meta' = [meta EXCEPT ![n] = FALSE] /\ opened' = opened \cup {n} /\ queue' = Tail(queue)
          /\ UNCHANGED <<first, world, pool, flags, stack, calls, failed>>
          /\ IF Len(queue) = 1 THEN Close(Ok, calls) ELSE UNCHANGED hist
     ELSE Ask(n)

\* the next import of the innermost open file
Import ==
  /\ stack # <<>>
  /\ LET t == stack[Len(stack)] IN
     /\ t.i < Len(t.file.imps)
     /\ LET n == t.file.imps[t.i + 1]
            skip == [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.i = @ + 1]]
        IN CASE \E j \in 1..t.i : t.file.imps[j] = n -> Fail(Err("duplicate", t.name, n, t.i + 1, <<>>), calls)
             [] OnStack(n) -> Fail(Err("cycle", n, n, 0, Append([i \in 1..Len(stack) |-> stack[i].name], n)), calls)
             [] InPool(n) -> stack' = skip /\ UNCHANGED <<first, world, pool, meta, flags, queue, calls, hist, opened, failed>>
             [] OTHER -> Ask(n)

\* all imports of the innermost file are there: link it
Link ==
  /\ stack # <<>>
  /\ LET t == stack[Len(stack)] IN
     /\ t.i = Len(t.file.imps)
     /\ IF ~(t.file.st = "ok" /\ RoleOK(world, t.file)) THEN Fail(Err("link", t.name, t.name, 0, <<>>), calls)
        ELSE LET root == Len(stack) = 1
                 below == SubSeq(stack, 1, Len(stack) - 1)
             IN /\ pool' = Append(pool, [name |-> t.name, v |-> t.file.v, imps |-> t.file.imps, kind |-> t.file.kind, role |-> t.file.role])
                /\ meta' = (t.name :> ~root) @@ meta
                /\ stack' = IF root THEN <<>> ELSE [below EXCEPT ![Len(below)] = [@ EXCEPT !.i = @ + 1]]
                /\ queue' = IF root THEN Tail(queue) ELSE queue
                /\ opened' = IF root THEN opened \cup {t.name} ELSE opened
                /\ UNCHANGED <<first, world, flags, calls, failed>>
                /\ IF root /\ Len(queue) = 1 THEN Close(Ok, calls) ELSE UNCHANGED hist

Work == OpenNext \/ Import \/ Link

SetFlags(i, s) ==
  /\ Idle /\ flags' = [imports |-> i, sinfo |-> s]
  /\ UNCHANGED <<first, world, pool, meta, stack, queue, calls, opened, failed>>
  /\ hist' = Append(hist, [op |-> "flags", arg |-> <<>>, res |-> Ok, calls |-> <<>>, view |-> View'])

SetFile(n, f) ==
  /\ Idle /\ world' = (n :> f) @@ world
  /\ UNCHANGED <<first, pool, meta, flags, stack, queue, calls, opened, failed>>
  /\ hist' = Append(hist, [op |-> "set", arg |-> <<n>>, res |-> Ok, calls |-> <<>>, view |-> View] @@ [file |-> f])

Start(w) == /\ world = w /\ first = w /\ pool = <<>> /\ meta = <<>> /\ flags = [imports |-> FALSE, sinfo |-> FALSE]
            /\ stack = <<>> /\ queue = <<>> /\ calls = <<>> /\ hist = <<>> /\ opened = {} /\ failed = FALSE

-----------------------------------------------------------------------------
(* C20 *)
NoRepeat == \A i, j \in 1..Len(pool) : pool[i].name = pool[j].name => i = j
Topological == \A i \in 1..Len(pool) : \A k \in 1..Len(pool[i].imps) : \E j \in 1..(i - 1) : pool[j].name = pool[i].imps[k]
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {ToSet(PoolFile(n).imps) : n \in S} IN IF T = S THEN S ELSE Closure(T)
Complete == /\ opened \subseteq Held
            /\ (Idle /\ ~failed) => Held = Closure(opened)
ReadOnce == \A i, j \in 1..Len(calls) : calls[i] = calls[j] => i = j
MetaOK == /\ DOMAIN meta = Held
          /\ \A n \in Held : meta[n] = (n \notin opened)
\* a file is asked for only while it is not held
NoRereads == [][calls' # calls /\ calls' # <<>> => ~InPool(calls'[Len(calls')])]_vars
(* C23: nothing held ever changes or goes away, whatever happens *)
Stable == [][IsPrefix(pool, pool') /\ \A n \in Held : (meta[n] = FALSE => meta'[n] = FALSE)]_vars
(* C21: errors are about the world as it is *)
RealCycle(c) == /\ Len(c) >= 2
                /\ \A i \in 1..(Len(c) - 1) : c[i + 1] \in ToSet(Get(world, c[i]).imps)
                /\ \E i \in 1..(Len(c) - 1) : c[i] = c[Len(c)]
\* the error of the operation just ended, if it failed
LastErr == IF Idle /\ hist # <<>> /\ Op.op \in {"open", "openall", "openat"} /\ Op.res.k # "ok" THEN Op.res ELSE Ok
Precise ==
  LET e == LastErr IN
  /\ e.k = "cycle" => RealCycle(e.cycle) /\ e.x = e.cycle[Len(e.cycle)] /\ e.cycle[1] \in ToSet(Op.arg)
  /\ e.k = "importnf" => Get(world, e.f).imps[e.i] = e.x /\ Get(world, e.x).st = "nf"
  /\ e.k = "duplicate" => Get(world, e.f).imps[e.i] = e.x /\ \E j \in 1..(e.i - 1) : Get(world, e.f).imps[j] = e.x
  /\ e.k \in {"parse", "custom", "io"} => Get(world, e.x).st = e.k
  /\ e.k = "shadowed" => Op.op = "openat" /\ e.x \in ToSet(Op.arg)
  /\ e.k = "notincluded" => Get(world, e.x).st = "nf" /\ e.x \in ToSet(Op.arg)
\* a sound graph never fails, and one that is not never succeeds (single opens)
\* a sound graph never fails to open, and an unsound one never succeeds
Succeeds == (Idle /\ hist # <<>> /\ Op.op \in {"open", "openall", "openat"}) =>
  /\ (Op.res.k = "ok") = Op.sound
  /\ Op.res.k = "ok" => ToSet(Op.arg) \subseteq opened
  /\ Op.op = "open" /\ Op.res.k # "ok" => ~InPool(Op.arg[1])
Inv == NoRepeat /\ Topological /\ Complete /\ ReadOnce /\ MetaOK /\ Precise /\ Succeeds
===================================================================================
