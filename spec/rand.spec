use lib
lib rand.Read(b) (n, err)
  modifies M:byte at base(b)
  ensures n == len(b) && err == nil
foreach T,lo,hi in (Int8,0-128,127) (Uint8,0,255) (Int16,0-32768,32767) (Uint16,0,65535) (Int32,0-2147483648,2147483647) (Uint32,0,4294967295) (Int64,0-9223372036854775808,9223372036854775807) (Uint64,0,18446744073709551615)
func util.Rand${T}() (r)
  ensures ${lo} <= r <= ${hi}
func util.Rand${T}Range(min, max) (r)
  requires [non-empty range] min < max
  ensures [lower bound] min <= r
  ensures [upper bound] r < max
endforeach
