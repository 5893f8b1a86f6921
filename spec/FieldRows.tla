----------------------------- MODULE FieldRows -----------------------------
EXTENDS Fields, Json, IOUtils, SequencesExt
All == UNION {{<<c, f>> : f \in DOMAIN Type[c]} : c \in DOMAIN Type}
ASSUME ndJsonSerialize(IOEnv.OUT, <<StoredBy>> \o FlattenSeq([i \in 1 .. Cardinality(All) |->
                                     SetToSeq(RowsOf(SetToSeq(All)[i][1], SetToSeq(All)[i][2]))]))
=============================================================================
