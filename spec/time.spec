use lib

def be32(s: Seq, o: int) int = qat(s, o) * 16777216 + qat(s, o+1) * 65536 + qat(s, o+2) * 256 + qat(s, o+3)

func util.NewLedgerTime(t) (r)
  ensures fresh(r) && r.epoch == t
func util.NewRaftTime(term, millis, count) (r)
  ensures fresh(r) && r.term == term && r.millis == millis && r.count == count

func util.(*LedgerTime).Buf(t) (b)
  requires t != nil
  ensures [form] fresh(b) && len(b) == 5 && b[0] == 1 && be32(seq(b), 1) == t.epoch
func util.(*RaftTime).Buf(t) (b)
  requires t != nil
  ensures [form] fresh(b) && len(b) == 13 && b[0] == 2
  ensures [term] be32(seq(b), 1) == t.term
  ensures [millis] be32(seq(b), 5) == t.millis
  ensures [count] be32(seq(b), 9) == t.count

func util.NewConsensusTime(buf) (r, err)
  let s = seq(buf)
  let okL = len(buf) >= 5 && s[0] == 1
  let okR = len(buf) >= 13 && s[0] == 2
  ensures [accepts] (err == nil) <==> (okL || okR)
  ensures [ledger] okL ==> tag(r) == @type(*util.LedgerTime) && @as(*util.LedgerTime, r).epoch == be32(s, 1)
  ensures [raft] okR ==> tag(r) == @type(*util.RaftTime) && let q = @as(*util.RaftTime, r) :: q.term == be32(s, 1) && q.millis == be32(s, 5) && q.count == be32(s, 9)

foreach OP,L,R in (GT,a > b,false) (GE,a >= b,true) (EQ,a == b,true) (NE,a != b,false) (LT,a < b,false) (LE,a <= b,true)
func util.(*LedgerTime).${OP}(t, ict) (r, err)
  requires t != nil
  requires tag(ict) == @type(*util.LedgerTime) ==> ref(ict) != 0
  let same = tag(ict) == @type(*util.LedgerTime)
  ensures [kind] (err == nil) <==> same
  ensures [order] same ==> (r <==> (let a = t.epoch :: let b = @as(*util.LedgerTime, ict).epoch :: ${L}))
endforeach

def raftrank(t: *util.RaftTime) int = t.term * 18446744073709551616 + t.millis * 4294967296 + t.count

foreach OP,L in (GT,a > b) (GE,a >= b) (EQ,a == b) (NE,a != b) (LT,a < b) (LE,a <= b)
func util.(*RaftTime).${OP}(t, ict) (r, err)
  requires t != nil
  requires tag(ict) == @type(*util.RaftTime) ==> ref(ict) != 0
  let same = tag(ict) == @type(*util.RaftTime)
  ensures [kind] (err == nil) <==> same
  ensures [order] same ==> (r <==> (let a = raftrank(t) :: let b = raftrank(@as(*util.RaftTime, ict)) :: ${L}))
endforeach
