----------------------------- MODULE UrlDataGen -----------------------------
(* Every short text of the characters that matter to decoding, every short    *)
(* sequence of bytes on the borders of UTF-8, encoded, every short parameter  *)
(* list, and every short path.                                                *)
EXTENDS UrlData, TLC
CONSTANTS MostText, MostBytes, MostParams, MostPath
VARIABLES mode, s
Letters == CASE mode = "text" -> <<37, 43, 52, 49, 67, 51, 103, 97, 233>>
             [] mode = "bytes" -> <<65, 128, 159, 160, 143, 144, 191, 193, 194, 224, 225, 237, 240, 244, 245>>
             [] mode = "params" -> <<38, 61, 97, 98, 37>>
             [] OTHER -> <<46, 116, 88, 47, 84, 71, 122>>
Most == CASE mode = "text" -> MostText [] mode = "bytes" -> MostBytes [] mode = "params" -> MostParams [] OTHER -> MostPath
Init == mode \in {"text", "bytes", "params", "path"} /\ s = <<>>
Step == Len(s) < Most /\ (\E i \in 1 .. Len(Letters) : s' = Append(s, Letters[i])) /\ UNCHANGED mode
RECURSIVE Words(_)
Words(x) == IF x = <<>> THEN "" ELSE ToString(Head(x)) \o (IF Len(x) > 1 THEN "." ELSE "") \o Words(Tail(x))
W(x) == IF x = <<>> THEN "-" ELSE Words(x)
Form == [plus |-> TRUE, upper |-> Len(s) % 2 = 0, all |-> TRUE]
\* The parameters' letters, some of them encoded.
Codes(x) == IF x = <<>> THEN <<>> ELSE Encode(x, Form)
Both(o, x) == o \o " " \o W(x) \o " 1 0|" \o o \o " " \o W(x) \o " 1 1|" \o o \o " " \o W(x) \o " 0 0"
Line(x) == CASE mode = "text" -> Both("decode", x)
             [] mode = "bytes" -> Both("decode", Codes(x))
             [] mode = "params" -> Both("split", x)
             [] OTHER -> "media - " \o W(x)
Emit == PrintT(<<"SCRIPT", Line(s')>>)
Spec == Init /\ [][Step]_<<mode, s>>
Laws ==
   \* What is encoded decodes to itself, in every form, and is not wrong.
   /\ mode \in {"bytes", "text"} => \A f \in [plus : BOOLEAN, upper : BOOLEAN, all : BOOLEAN] :
         /\ Decodings(Encode(s, f), FALSE) = {s}
         /\ ~Wrong(Encode(s, f), FALSE)
         /\ (f.all /\ f.plus) => (Wrong(Encode(s, f), TRUE) <=> ~IsUtf8(s))
   \* Only an error leaves anything open.
   /\ mode = "text" => \A v \in BOOLEAN : Decodings(s, v) # {} /\ (Strays(s) = {} => Cardinality(Decodings(s, v)) = 1)
   /\ mode = "bytes" => (IsUtf8(s) => \A i \in 1 .. Len(s) : s[i] # 193 /\ s[i] # 245)
   /\ mode = "params" => \A p \in {Params(s)[i] : i \in 1 .. Len(Params(s))} : ~(Plain(p) /\ Broken(p))
=============================================================================
