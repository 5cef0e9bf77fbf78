use lib
// consensus identifiers: which parts the first byte announces, and where they are
def has(m: int, k: int) int = k == 7 ? (m / 128) % 2 : k == 6 ? (m / 64) % 2 : k == 5 ? (m / 32) % 2 : k == 4 ? (m / 16) % 2 : (m / 8) % 2
def pu(m: int) int = 1
def pc(m: int) int = 1 + 32 * has(m, 7)
def pf(m: int) int = pc(m) + 32 * has(m, 6)
def ps(m: int) int = pf(m) + 32 * has(m, 5)
def ph(m: int) int = ps(m) + 32 * has(m, 4)
def pend(m: int) int = ph(m) + 64 * has(m, 3)
def cidok(b: Seq) bool = len(b) >= 1 && b[0] != 0 && b[0] % 8 == 0 && len(b) >= pend(b[0])
def part(x: []byte, buf: []byte, present: int, pos: int) bool = present == 1 ? x != nil && base(x) == base(buf) && off(x) == off(buf) + pos && len(x) == 32 : x == nil
// an identifier whose parts are those its own bytes announce
def cidwf(c: *util.MappedConsensusID) bool = c != nil && cidok(seq(c.buf)) && len(c.buf) == pend(c.buf[0]) && c.consensus_magic == c.buf[0] &&
  (let m = c.buf[0] :: part(c.universe_id, c.buf, has(m,7), pu(m)) && part(c.cluster_id, c.buf, has(m,6), pc(m)) && part(c.federation_id, c.buf, has(m,5), pf(m)) &&
  part(c.service_id, c.buf, has(m,4), ps(m)) && part(c.shard_start, c.buf, has(m,3), ph(m)) && part(c.shard_end, c.buf, has(m,3), ph(m) + 32))

func util.NewMappedConsensusID(buf) (c, err)
  ensures [accepts] err == nil <==> cidok(seq(buf))
  ensures [parts] err == nil ==> fresh(c) && cidwf(c)
  ensures [kept bytes] err == nil ==> base(c.buf) == base(buf) && off(c.buf) == off(buf) && len(c.buf) == pend(buf[0])
  ensures [refused] err != nil ==> c == nil
func util.(*MappedConsensusID).Buf(c) (b)
  requires c != nil
  ensures b == c.buf
func util.(*MappedConsensusID).ConsensusMagic(c) (m)
  requires cidwf(c)
  ensures [magic] m == c.consensus_magic && m == c.buf[0]
func util.(*MappedConsensusID).Copy(c) (r)
  requires cidwf(c)
  ensures [kind] tag(r) == @type(*util.MappedConsensusID) && fresh(ref(r))
  ensures [content] let d = @as(*util.MappedConsensusID, r) :: cidwf(d) && seq(d.buf) == old(seq(c.buf))
  ensures [independent] let d = @as(*util.MappedConsensusID, r) :: fresh(d.buf)
