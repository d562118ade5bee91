------------------------------- MODULE Builder -------------------------------
(* Configuration builders: every call makes a new object out of an earlier    *)
(* one.  Option values are numbers: kd 0 or 1, budget 0 (the default) or the  *)
(* number of a value, absolute threshold 0 (none) or a number, interval       *)
(* threshold 0 (the default) or a number.                                     *)
EXTENDS BuilderOps

CONSTANTS MaxOps, Budgets, Absolutes, Intervals, Variant

VARIABLES builders,     \* option records
          configs,      \* option records of built configurations
          ops           \* the calls made: [kind, of, v]
vars == <<builders, configs, ops>>

Default == [kd |-> 0, budget |-> 0, abs |-> 0, int |-> 0]
Values(kind) == CASE kind = "kd" -> {0, 1} [] kind = "budget" -> Budgets [] kind = "abs" -> Absolutes [] kind = "int" -> Intervals
Kinds == {"kd", "budget", "abs", "int"}

Init == builders = <<Default>> /\ configs = <<>> /\ ops = << [kind |-> "new", of |-> 0, v |-> 0] >>

Call(kind, of, v) == ops' = Append(ops, [kind |-> kind, of |-> of, v |-> v])
New == builders' = Append(builders, Default) /\ Call("new", 0, 0) /\ UNCHANGED configs
Changed(o, kind, v) == [(IF Variant = "resets" THEN Default ELSE o) EXCEPT ![kind] = v]
Set(i, kind, v) ==
    /\ builders' = Append(IF Variant = "shared" THEN [builders EXCEPT ![i] = Changed(@, kind, v)] ELSE builders,
                          Changed(builders[i], kind, v))
    /\ Call(kind, i, v) /\ UNCHANGED configs
Copy(i) == builders' = Append(builders, builders[i]) /\ Call("copy", i, 0) /\ UNCHANGED configs
Build(i) == configs' = Append(configs, builders[i]) /\ Call("build", i, 0) /\ UNCHANGED builders

Next == /\ Len(ops) < MaxOps
        /\ \/ New
           \/ \E i \in 1..Len(builders) :
                Copy(i) \/ Build(i) \/ \E kind \in Kinds : \E v \in Values(kind) : Set(i, kind, v)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
LastWrite == \A i \in 1..Len(builders) : builders[i] = Meaning(ops, i)
Built == \A i \in 1..Len(configs) : configs[i] = Meaning(ops, BuiltFrom(ops, i))
Persistent == [][ /\ \A i \in 1..Len(builders) : builders'[i] = builders[i]
                  /\ \A i \in 1..Len(configs) : configs'[i] = configs[i] ]_vars
=============================================================================
