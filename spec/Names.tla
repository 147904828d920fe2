------------------------------- MODULE Names -------------------------------
(* The vocabulary of RFC 2741 section 6.1-6.2.16, RFC 3416 and RFC 1213:    *)
(* numbers and names of PDU types, flags, close reasons, errors and value   *)
(* tags, and the OIDs of well-known MIB names.                              *)
EXTENDS Text, Wire

\* tables: sequences of <<number, name>>
PduTable == [i \in 1..18 |-> <<i, PduName[i]>>]
FlagTable == << <<1, "InstanceRegistration">>, <<2, "NewIndex">>, <<4, "AnyIndex">>,
                <<8, "NonDefaultContext">>, <<16, "NetworkByteOrder">> >>
ReasonTable == << <<1, "Other">>, <<2, "ParseError">>, <<3, "ProtocolError">>,
                  <<4, "Timeouts">>, <<5, "Shutdown">>, <<6, "ByManager">> >>
ErrorTable == << <<0, "NoError">>, <<1, "TooBig">>, <<2, "NoSuchName">>, <<3, "BadValue">>,
                 <<4, "ReadOnly">>, <<5, "GenError">>, <<6, "NoAccess">>, <<7, "WrongType">>,
                 <<8, "WrongLength">>, <<9, "WrongEncoding">>, <<10, "WrongValue">>,
                 <<11, "NoCreation">>, <<12, "InconsistentValue">>, <<13, "ResourceUnavailable">>,
                 <<14, "CommitFailed">>, <<15, "UndoFailed">>, <<16, "AuthorizationError">>,
                 <<17, "NotWritable">>, <<18, "InconsistentName">>,
                 <<256, "OpenFailed">>, <<257, "NotOpened">>, <<258, "IndexWrongType">>,
                 <<259, "IndexAlreadyAllocated">>, <<260, "IndexNonAvailable">>,
                 <<261, "IndexNotAllocated">>, <<262, "UnsupportedContext">>,
                 <<263, "DuplicateRegistration">>, <<264, "UnknownRegistration">>,
                 <<265, "UnknownAgentCaps">>, <<266, "ParseError">>, <<267, "RequestDenied">>,
                 <<268, "ProcessingError">> >>
\* Gauge32 and Unsigned32 are the same type (RFC 2578 7.1.7, 7.1.11): one tag, one text
TagTable == << <<2, "Integer32">>, <<4, "OctetString">>, <<5, "Null">>, <<6, "ObjectId">>,
               <<48, "Sequence">>, <<64, "IpAddress">>, <<65, "Counter32">>, <<66, "Unsigned32">>,
               <<67, "TimeTicks">>, <<68, "Opaque">>, <<70, "Counter64">>,
               <<128, "NoSuchObject">>, <<129, "NoSuchInstance">>, <<130, "EndOfMibView">> >>

Numbers(tab) == {tab[i][1] : i \in 1..Len(tab)}
NameIn(tab, n) == tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = n][2]
NumberIn(tab, name) == tab[CHOOSE i \in 1..Len(tab) : tab[i][2] = name][1]
NamesOf(tab) == {tab[i][2] : i \in 1..Len(tab)}

PduCodes    == [n \in Numbers(PduTable) |-> Codes(NameIn(PduTable, n))]
ReasonCodes == [n \in Numbers(ReasonTable) |-> Codes(NameIn(ReasonTable, n))]
ErrorCodes  == [n \in Numbers(ErrorTable) |-> Codes(NameIn(ErrorTable, n))]
TagCodes    == [n \in Numbers(TagTable) |-> Codes(NameIn(TagTable, n))]
FlagCodes   == [n \in Numbers(FlagTable) |-> Codes(NameIn(FlagTable, n))]

ReasonNumbers == Numbers(ReasonTable)
ErrorNumbers == Numbers(ErrorTable)
TagNumbers == Numbers(TagTable)
AllNames == {PduCodes[n] : n \in DOMAIN PduCodes} \cup {ReasonCodes[n] : n \in DOMAIN ReasonCodes}
            \cup {ErrorCodes[n] : n \in DOMAIN ErrorCodes} \cup {TagCodes[n] : n \in DOMAIN TagCodes}
            \cup {FlagCodes[n] : n \in DOMAIN FlagCodes}

(* The runs of digits in a text, to say "the text shows the number".        *)
DigitRuns(t) ==
    LET step(acc, c) == IF IsDigit(c)
                        THEN [acc EXCEPT ![Len(acc)] = Append(@, c)]
                        ELSE Append(acc, <<>>)
        runs == FoldLeft(step, <<(<<>>)>>, t)
    IN {runs[i] : i \in 1..Len(runs)}
Shows(t, n) == DecInt(n) \in DigitRuns(t) /\ t \notin AllNames
\* a flag bit without a name, e.g. ?0x20
ShowsBit(t, bit) == (\E i \in 1..(Len(t) - 1) : <<t[i], t[i + 1]>> = HexByte(bit)) /\ t \notin AllNames

BitSeq == <<1, 2, 4, 8, 16, 32, 64, 128>>
SetBits(f) == SelectSeq(BitSeq, LAMBDA b : HasBit(f, b))
SplitBar(t) ==
    FoldLeft(LAMBDA acc, c : IF c = 124 THEN Append(acc, <<>>)
                             ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], <<(<<>>)>>, t)
FlagsText(f, t) ==       \* t is a rendering of the flags f
    IF f = 0 THEN t = <<>>
    ELSE LET parts == SplitBar(t)
             bits  == SetBits(f)
         IN /\ Len(parts) = Len(bits)
            /\ \A i \in 1..Len(bits) :
                  IF bits[i] \in DOMAIN FlagCodes THEN parts[i] = FlagCodes[bits[i]]
                  ELSE ShowsBit(parts[i], bits[i])

Mib == << <<"internet", <<1,3,6,1>> >>, <<"directory", <<1,3,6,1,1>> >>, <<"mgmt", <<1,3,6,1,2>> >>,
          <<"experimental", <<1,3,6,1,3>> >>, <<"private", <<1,3,6,1,4>> >>,
          <<"security", <<1,3,6,1,5>> >>, <<"snmpV2", <<1,3,6,1,6>> >>,
          <<"mib2", <<1,3,6,1,2,1>> >>, <<"enterprises", <<1,3,6,1,4,1>> >>,
          <<"system", <<1,3,6,1,2,1,1>> >>, <<"sysDescr", <<1,3,6,1,2,1,1,1>> >>,
          <<"sysOid", <<1,3,6,1,2,1,1,2>> >>, <<"sysUpTime", <<1,3,6,1,2,1,1,3>> >>,
          <<"sysContact", <<1,3,6,1,2,1,1,4>> >>, <<"sysName", <<1,3,6,1,2,1,1,5>> >>,
          <<"sysLocation", <<1,3,6,1,2,1,1,6>> >>, <<"sysServices", <<1,3,6,1,2,1,1,7>> >>,
          <<"sysORLastChange", <<1,3,6,1,2,1,1,8>> >>, <<"sysORTable", <<1,3,6,1,2,1,1,9>> >>,
          <<"sysOREntry", <<1,3,6,1,2,1,1,9,1>> >>, <<"sysORIndex", <<1,3,6,1,2,1,1,9,1,1>> >>,
          <<"sysORID", <<1,3,6,1,2,1,1,9,1,2>> >>, <<"sysORDescr", <<1,3,6,1,2,1,1,9,1,3>> >>,
          <<"sysORUpTime", <<1,3,6,1,2,1,1,9,1,4>> >>,
          <<"interfaces", <<1,3,6,1,2,1,2>> >>, <<"ifNumber", <<1,3,6,1,2,1,2,1>> >>,
          <<"ifTable", <<1,3,6,1,2,1,2,2>> >>, <<"ifEntry", <<1,3,6,1,2,1,2,2,1>> >>,
          <<"ifIndex", <<1,3,6,1,2,1,2,2,1,1>> >>, <<"ifDescr", <<1,3,6,1,2,1,2,2,1,2>> >>,
          <<"ifType", <<1,3,6,1,2,1,2,2,1,3>> >>, <<"ifMtu", <<1,3,6,1,2,1,2,2,1,4>> >>,
          <<"ifSpeed", <<1,3,6,1,2,1,2,2,1,5>> >>, <<"ifPhysAddress", <<1,3,6,1,2,1,2,2,1,6>> >>,
          <<"ifAdminStatus", <<1,3,6,1,2,1,2,2,1,7>> >> >>
MibNames == {Mib[i][1] : i \in 1..Len(Mib)}
MibOid(name) == O(Mib[CHOOSE i \in 1..Len(Mib) : Mib[i][1] = name][2])
=============================================================================
