------------------------------- MODULE MCShow -------------------------------
(* The texts of Show and the vocabulary of Names, on the PDUs of MCWire:    *)
(* no two different PDUs have the same text (C18), names and numbers are    *)
(* one to one, and the text of an unknown number is no name (C19).          *)
EXTENDS MCWire, Show

SInit == pdu \in Pdus /\ msg = <<>> /\ stage = "text"
SNext == FALSE /\ UNCHANGED vars
SSpec == SInit /\ [][SNext]_vars

\* a PDU with its size, as it is after encoding
TextOf(q) == PduText(q, W32(0), 0)
\* the header lines come first, one for each field
FirstLines == LET ls == Lines(TextOf(pdu)) IN Len(ls) >= 9
\* no two PDUs have the same text
Faithful == TLCGet("distinct") >= 0 /\ Cardinality({TextOf(q) : q \in Pdus}) = Cardinality(Pdus)

OneToOne(tab) == Cardinality(Numbers(tab)) = Len(tab) /\ Cardinality(NamesOf(tab)) = Len(tab)
Tables == /\ OneToOne(PduTable) /\ OneToOne(FlagTable) /\ OneToOne(ReasonTable) /\ OneToOne(ErrorTable) /\ OneToOne(TagTable)
          /\ Numbers(PduTable) = PduTypes
          /\ ValueTags \subseteq Numbers(TagTable)
          /\ \A n1, n2 \in MibNames : MibOid(n1) = MibOid(n2) => n1 = n2
=============================================================================
