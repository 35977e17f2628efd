-------------------------------- MODULE Value --------------------------------
(***************************************************************************)
(* What becomes of a value that travels with a call (C21, and the argument *)
(* mismatches of C15): from the caller's type onto the wire, into the      *)
(* type of the parameter, and, returned by the function, back over the     *)
(* wire into the type the caller asks for.                                 *)
(*                                                                         *)
(* Values are written as names the replay understands: decimal integers,   *)
(* hexadecimal floats, "length/pattern" for strings and containers.  They  *)
(* are taken at the boundaries of the types and of the wire formats.       *)
(*                                                                         *)
(* TLC enumerates all journeys; each is replayed as a real call.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Deep     \* TRUE: all result types for integers, long containers

\* in ascending order
IntNames ==
  << "-9223372036854775808", "-9223372036854775807", "-2147483649", "-2147483648", "-2147483647", "-32769", "-32768", "-32767", "-129", "-128", "-127", "-33", "-32",
     "-31", "-2", "-1", "0", "1", "2", "126", "127", "128", "129", "254", "255", "256", "32766", "32767", "32768", "65534", "65535", "65536", "16777216",
     "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "9007199254740992", "9223372036854775806", "9223372036854775807",
     "9223372036854775808", "18446744073709551614", "18446744073709551615" >>
Pos(v) == CHOOSE n \in 1..Len(IntNames) : IntNames[n] = v
Between(lo, hi) == {IntNames[n] : n \in Pos(lo)..Pos(hi)}

\* every integer type of the language; c8 is char, ll and ull are long long
IntType == [ c8 |-> <<"-128", "127">>, ll |-> <<"-9223372036854775808", "9223372036854775807">>, ull |-> <<"0", "18446744073709551615">>,
             i8 |-> <<"-128", "127">>, i16 |-> <<"-32768", "32767">>, i32 |-> <<"-2147483648", "2147483647">>,
             i64 |-> <<"-9223372036854775808", "9223372036854775807">>,
             u8 |-> <<"0", "255">>, u16 |-> <<"0", "65535">>, u32 |-> <<"0", "4294967295">>, u64 |-> <<"0", "18446744073709551615">> ]
IsInt(T) == T \in DOMAIN IntType
IntVals(T) == Between(IntType[T][1], IntType[T][2])

\* floats: those that fit into 32 bits, those that do not
F32 == {"0x0p+0", "-0x0p+0", "0x1p+0", "-0x1.8p+1", "0x1.fffffep+127", "0x1p-149", "0x1p-126", "inf", "-inf", "0x1.333334p+0"}
F64 == {"0x1.5bf0a8b145769p+1", "0x1.fffffffffffffp+1023", "0x0.0000000000001p-1022", "-0x1.999999999999ap-4", "0x1.0000000000001p+0"}

Whole == {"0x0p+0", "-0x0p+0", "0x1p+0", "-0x1.8p+1"}   \* written as integers

Lens == {"0", "1", "31", "32", "255", "256"} \cup (IF Deep THEN {"65535", "65536", "100001"} ELSE {"65536"})
Cnts == {"0", "1", "2", "15", "16", "17"} \cup (IF Deep THEN {"65535", "65536"} ELSE {"300"})
Long == {"65535", "65536"}     \* where another format of the wire begins
\* patterns of strings: letters, zero bytes, bytes above 127; of numbers: growing, extreme
X(L, P) == {l \o "/" \o p : l \in L, p \in P}
Bytes == {"str", "bin", "ubin"}
Lists == {"vi", "li", "dq", "fl"}        \* vector, list, deque, forward list of 32 bit integers
Maps == {"mi", "um", "mv", "sm", "mm", "mst", "k1", "k2", "nv", "wk", "umm"}
Exts == {"tpt", "tsp"}                   \* points in time
\* a user's type before and after it got more members, written as an array (s1, s2) and as a map (k1, k2)
Old == {"s1", "k1"}
New == {"s2", "k2"}
NewOf == [s1 |-> "s2", k1 |-> "k2"]
Other == {"vs", "vd", "vb", "si", "ss", "us", "vv", "vp", "vst", "pr", "tp", "ar", "st", "sp", "ws", "s1", "s2", "ms", "ums", "dp", "vsp", "sd", "wa"} \cup Maps \cup Exts
Fixed == {"ac", "au"}                    \* arrays of 5 and 33 bytes
Given == {"cs"}                          \* pointers to characters, which nothing can arrive as
Types == DOMAIN IntType \cup {"bool", "f32", "f64", "en", "ec"} \cup Bytes \cup Fixed \cup Given \cup Lists \cup Other

\* many sizes in a row: all the ways a message can end up in the memory it is unpacked to
Many == IF Deep THEN {ToString(n) : n \in 17..200} ELSE {ToString(n) : n \in {20 + 3 * k : k \in 0..20}}

Values(T) ==
  CASE IsInt(T) -> IntVals(T)
    [] T = "bool" -> {"true", "false"}
    [] T = "f32" -> F32
    [] T = "f64" -> F32 \cup F64
    [] T \in {"en", "ec"} -> {"-7", "0", "1", "70000"}
    [] T \in Bytes -> X(Lens, {"a", "z", "h"})
    [] T = "cs" -> X(Lens, {"a", "h"})
    [] T \in {"vi", "mi"} -> X(Cnts, {"g", "x"}) \cup X(Long, {"g"})
    [] T \in Lists \cup {"si", "us", "um", "mm", "ms"} -> X(Cnts, {"g", "x"})
    [] T \in {"vs", "ss", "vd", "vb"} -> X(Cnts, {"g"})
    [] T \in {"ums", "umm", "vsp"} -> X({"0", "1", "15", "16", "40"}, {"g"})
    [] T = "dp" -> X({"0", "1", "4", "16", "30"}, {"g"})
    [] T \in {"mv", "vv"} -> X({"0", "1", "2", "16"} \cup Many, {"g"})
    [] T = "vp" -> X({"0", "1", "15"} \cup Many, {"g", "o"})
    [] T \in {"vst", "mst"} -> X({"0", "1", "16", "33", "50"}, {"g"})
    [] T = "ws" -> X({"0", "1", "40"}, {"g"})
    [] T \in Old -> {"0", "1", "2"}
    [] T \in New -> {i \o "/" \o w : i \in {"0", "1", "2"}, w \in {"full", "bare"}}
    [] T = "sp" -> {"null", "0/a", "40/z"}
    [] OTHER -> {"0", "1", "2", "3"}

\* how a value is written
Wire(T, v) ==
  CASE IsInt(T) \/ T \in {"en", "ec"} -> "int"
    [] T = "bool" -> "bool"
    [] T \in {"f32", "f64"} -> IF v \in Whole THEN "int" ELSE "float"
    [] T \in {"str", "cs"} \cup Fixed -> "bytes"
    [] T \in {"bin", "ubin"} -> "bytes"
    [] T \in Maps -> "map"
    [] T \in Exts -> "ext"
    [] T = "sp" -> IF v = "null" THEN "nil" ELSE "bytes"
    [] OTHER -> "array"
Reads(T) ==
  CASE IsInt(T) \/ T \in {"en", "ec"} -> {"int"}
    [] T = "bool" -> {"bool"}
    [] T \in {"f32", "f64"} -> {"float", "int"}
    [] T \in Bytes \cup Fixed -> {"bytes"}
    [] T \in Maps -> {"map"}
    [] T \in Exts -> {"ext"}
    [] T = "sp" -> {"nil", "bytes"}
    [] OTHER -> {"array"}

\* "same": arrives as the same value; "no": refused; "?": not promised
Turn(A, v, P) ==
  IF A = P THEN "same"
  ELSE IF Wire(A, v) \notin Reads(P) THEN "no"
  ELSE IF IsInt(A) /\ IsInt(P) THEN (IF v \in IntVals(P) THEN "same" ELSE "no")
  ELSE IF A = "f32" /\ P = "f64" THEN "same"
  ELSE IF A = "f64" /\ P = "f32" /\ v \in F32 THEN "same"
  ELSE IF A \in Bytes \cup Given /\ P \in Bytes THEN "same"
  ELSE IF A \in Lists /\ P \in Lists THEN "same"
  ELSE IF A \in Old /\ P = NewOf[A] THEN "same"
  ELSE IF P \in Old /\ A = NewOf[P] THEN "same"
  ELSE "?"

\* the name a value has in the type it arrives in: members that were not sent have their defaults
Arrive(A, v, P) ==
  IF A \in Old /\ P \in New THEN v \o "/bare"
  ELSE IF A \in New /\ P \in Old THEN CHOOSE i \in Values(P) : \E w \in {"full", "bare"} : v = i \o "/" \o w
  ELSE v

Sigs == { <<"str", "i32", "f64", "ubin">>, <<"i64", "vs", "mi">>, <<"bool", "st", "str">>, <<"u8", "u16", "u32", "u64">>, <<"vv", "f32">>, <<"str", "str">> }
Few(T) == CASE IsInt(T) -> {IntType[T][1], IntType[T][2]}
            [] T \in Bytes -> {"0/a", "32/h"} \cup (IF Deep THEN {"65536/z"} ELSE {})
            [] T \in {"f32", "f64"} -> {"0x1p+0", "-inf"}
            [] T = "bool" -> {"true", "false"}
            [] T \in {"vs", "vv", "mi"} -> {"0/g", "16/g"}
            [] OTHER -> {"1", "2"}

VARIABLES from, val, to, back,     \* types and value of the argument followed (back: type asked for)
          sig, at, args,           \* all parameters, which of them is returned, all arguments
          seen, got,             \* the value of the parameter, of the result
          stage
vars == <<from, val, to, back, sig, at, args, seen, got, stage>>

Tos(A) == {P \in Types \ Given : \E v \in Values(A) : Turn(A, v, P) # "?"}
Backs(A, P) == ({A, P} \ Given) \cup (IF Deep /\ IsInt(P) THEN DOMAIN IntType ELSE {}) \cup (IF P = "i32" THEN {"str", "bool"} ELSE IF P = "str" THEN {"i32", "bin"} ELSE {})

Init ==
  \/ /\ from \in Types
     /\ \E v \in Values(from), P \in Tos(from) :
          /\ Turn(from, v, P) # "?" /\ val = v /\ to = P
          /\ seen = (IF Turn(from, v, P) = "no" THEN v ELSE Arrive(from, v, P))
          /\ back \in IF Turn(from, v, P) = "no" THEN {IF from \in Given THEN P ELSE from} ELSE {R \in Backs(from, P) : Turn(P, seen, R) # "?"}
          /\ got = (IF Turn(from, v, P) = "same" /\ Turn(P, seen, back) = "same" THEN Arrive(P, seen, back) ELSE v)
     /\ sig = <<to>> /\ at = 1 /\ args = <<val>>
     /\ stage = "issued"
  \/ /\ sig \in Sigs
     /\ at \in 1..Len(sig)
     /\ args \in {f \in [1..Len(sig) -> UNION {Few(sig[n]) : n \in 1..Len(sig)}] : \A n \in 1..Len(sig) : f[n] \in Few(sig[n])}
     /\ from = sig[at] /\ to = from /\ back = from /\ val = args[at] /\ seen = val /\ got = val
     /\ stage = "issued"

Tell(w) == PrintT(<<"J", from, to, back, val, sig, at, IF Len(sig) = 1 THEN <<seen>> ELSE args, got, w>>)

Convert == /\ stage = "issued"
           /\ stage' = IF Turn(from, val, to) = "same" THEN "run" ELSE "refused"
           /\ (stage' = "refused" => Tell("badarg"))
           /\ UNCHANGED <<from, val, to, back, sig, at, args, seen, got>>
Return == /\ stage = "run" /\ stage' = "answered"
          /\ UNCHANGED <<from, val, to, back, sig, at, args, seen, got>>
Read == /\ stage = "answered"
        /\ stage' = IF Turn(to, seen, back) = "same" THEN "equal" ELSE "unread"
        /\ Tell(IF stage' = "equal" THEN "ok" ELSE "badres")
        /\ UNCHANGED <<from, val, to, back, sig, at, args, seen, got>>
Next == Convert \/ Return \/ Read

\* a value that has arrived is one of the type it arrived in, and one of the type it came from
Fits(v, T) == v \in Values(T) \/ ~IsInt(T)
Faithful == /\ stage \in {"run", "answered", "unread"} => Fits(seen, to) /\ Fits(val, from)
            /\ stage = "equal" => Fits(got, back) /\ Fits(seen, to)
\* nothing is refused that the parameter's type could hold
Generous == stage = "refused" => Wire(from, val) \notin Reads(to) \/ (IsInt(from) /\ val \notin Values(to))
\* a value that goes and comes back in types that have all its members is the same
Round == stage = "equal" /\ (from \in New => to \in New /\ back \in New) /\ (from \in Old => back \in Old) /\ from \notin Old => got = val
=============================================================================
