----------------------------- MODULE DateTextMC -----------------------------
(* Texts made from well-formed ones by small edits: which are still valid,    *)
(* and reading what was written.                                              *)
EXTENDS DateText, TLC, Json
CONSTANTS MaxEdits, Chars
VARIABLES form, text, edits
vars == <<form, text, edits, dead>>
V(y, mo, d, h, mi, s) == [y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s]
Dates == {V(2023, 5, 19, 20, 31, 1), V(1000, 1, 1, 0, 0, 0), V(9999, 12, 31, 23, 59, 59)}
MCInit == form \in {"p", "i", "e"} /\ (\E v \in Dates : text = Text(form, v)) /\ edits = 0 /\ dead = FALSE
Edit(t) == text' = t /\ edits' = edits + 1 /\ UNCHANGED <<form, dead>>
MCNext == /\ edits < MaxEdits
          /\ \/ \E i \in 1..Len(text), c \in Chars : text[i] # c /\ Edit([text EXCEPT ![i] = c])
             \/ \E n \in 0..(Len(text) - 1) : Edit(SubSeq(text, 1, n))
             \/ \E c \in Chars : Edit(Append(text, c))
             \/ \E i \in 1..Len(text) : Edit(SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text)))
Emit == PrintT("BEH " \o ToJson(<<<<IF Valid(form', text') THEN "valid" ELSE "invalid", form', text'>>>>))
(* the layouts are disjoint, and exactly the texts the writer can produce from digits are valid *)
Disjoint == \A f \in {"p", "i", "e"} : f # form => ~(Valid(form, text) /\ Valid(f, text))
Trip == Valid(form, text) => Text(form, FieldsOf(text)) = text
(* reading back what was written *)
ASSUME \A f \in {"p", "i", "e"}, v \in Dates : Valid(f, Text(f, v)) /\ FieldsOf(Text(f, v)) = v
ASSUME \A f \in {"p", "i", "e"} : Len(Layout(f)) < Room
=============================================================================
