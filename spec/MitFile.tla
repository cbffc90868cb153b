------------------------------ MODULE MitFile ------------------------------
(***************************************************************************)
(* The mitgrid file: sixteen equally sized segments of words, column-major,*)
(* each field at the start of its segment, padding zero.  Values are       *)
(* tokens: ZeroT is +0.0, NegZeroT -0.0, NaNT a NaN,   other integers one  *)
(* 64-bit value each, those of NansT and up NaNs of another sign or payload *)
(* where they are told apart.                                              *)
(***************************************************************************)
EXTENDS Stagger

ZeroT    == 0
NegZeroT == 1
NaNT     == 2
NansT    == 1000000000
IsNaN(t) == t = NaNT \/ t >= NansT
IsZero(t) == t \in {ZeroT, NegZeroT}

SegLen(ni,nj)  == (ni+1)*(nj+1)
FileLen(ni,nj) == 16*SegLen(ni,nj)
Rows(f,ni) == ni + NiDel(f)
Cols(f,nj) == nj + NjDel(f)
\* 1-based word number of (zero-based) entry (i,j) of segment k (1..16)
WordAt(ni,nj,k,i,j) == (k-1)*SegLen(ni,nj) + j*(ni+1) + i + 1
SegOf(ni,nj,w) == (w-1) \div SegLen(ni,nj) + 1
RowOf(ni,nj,w) == ((w-1) % SegLen(ni,nj)) % (ni+1)
ColOf(ni,nj,w) == ((w-1) % SegLen(ni,nj)) \div (ni+1)
IsPad(ni,nj,w) == LET f == FieldNames[SegOf(ni,nj,w)] IN
                   RowOf(ni,nj,w) >= Rows(f,ni) \/ ColOf(ni,nj,w) >= Cols(f,nj)

\* a grid maps each field to a matrix (sequence of rows); <<>> is an absent field
Absent == <<>>
Encode(ni,nj,g) ==
   [ w \in 1..FileLen(ni,nj) |->
       LET f == FieldNames[SegOf(ni,nj,w)] IN
       IF IsPad(ni,nj,w) THEN ZeroT
       ELSE IF g[f] = Absent THEN NaNT
       ELSE g[f][RowOf(ni,nj,w)+1][ColOf(ni,nj,w)+1] ]

\* which NaN stands for an absent field is open
Written(ni,nj,g,words) ==
   /\ Len(words) = FileLen(ni,nj)
   /\ LET enc == Encode(ni,nj,g) IN
      \A w \in 1..FileLen(ni,nj) :
         \/ words[w] = enc[w]
         \/ g[FieldNames[SegOf(ni,nj,w)]] = Absent /\ enc[w] = NaNT /\ IsNaN(words[w])

FieldNo(f) == CHOOSE k \in 1..16 : FieldNames[k] = f
DecodeField(ni,nj,words,f) ==
   [ i \in 1..Rows(f,ni) |-> [ j \in 1..Cols(f,nj) |->
        words[WordAt(ni,nj,FieldNo(f),i-1,j-1)] ] ]
Decode(ni,nj,words) == [ f \in Fields |-> DecodeField(ni,nj,words,f) ]

PadClean(ni,nj,words) ==
   \A w \in 1..FileLen(ni,nj) : IsPad(ni,nj,w) => IsZero(words[w])

\* a file may end in a few bytes that make no word: a last, negative token
WholeWords(words) == IF words # <<>> /\ words[Len(words)] < 0
                     THEN SubSeq(words,1,Len(words)-1) ELSE words
\* what reading must do ("ok" on a longer file: it may be refused, but what is
\* returned is what stands in the sixteen segments)
ReadResult(ni,nj,strict,words) ==
   IF Len(WholeWords(words)) < FileLen(ni,nj) THEN "refused"
   ELSE IF strict /\ ~PadClean(ni,nj,words) THEN "RuntimeError"
   ELSE "ok"
=============================================================================
