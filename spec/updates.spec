use encode
// updates of constructed objects: the effect on the list or field, and the object counts as not encoded
iface util.IValue.EstBufSize(v) (n)
  requires okv(v)
iface util.IRecord.EstBufSize(v) (n)
  requires okr(v)
iface util.IKey.EstBufSize(v) (n)
  requires isKy(v) || (isMK(v) && mk(v).decoded) || isEK(v)
func util.NewValueArray() (d)
  ensures [empty] fresh(d) && !d.encoded && d.data_array != nil && len(d.data_array) == 0 && alloced(d.data_array)
func util.NewRecordList() (d)
  ensures [empty] fresh(d) && !d.encoded && d.record_list != nil && len(d.record_list) == 0 && alloced(d.record_list)
func util.NewPrimitive(b) (d)
  ensures [content] fresh(d) && !d.encoded && d.data == b
func util.NewRecord() (r)
  ensures [empty] fresh(r) && !r.encoded && r.key == nil && r.value == nil && r.scheme == nil && r.timestamp == nil && r.signature_r == nil && r.signature_s == nil
func util.(*ValueArray).Append(d, v) (r)
  requires d != nil && okv(v) && alloced(d.data_array)
  modifies util.ValueArray.{data_array encoded estBufSize} at d
  modifies M:util.IValue where x :: x == base(d.data_array)
  let n = len(d.data_array)
  ensures [appended] len(d.data_array) == n + 1 && d.data_array[n] == v && d.data_array != nil && alloced(d.data_array)
  ensures [others kept] forall j: int {d.data_array[j]} :: 0 <= j < n ==> d.data_array[j] == old(d.data_array[j])
  ensures [not encoded] !d.encoded
  ensures [itself] r == d
func util.(*ValueArray).DeleteAt(d, i) (r)
  requires d != nil && alloced(d.data_array) && len(d.data_array) < 65536
  requires forall j: int {d.data_array[j]} :: 0 <= j < len(d.data_array) ==> okv(d.data_array[j])
  may_panic i >= len(d.data_array)
  modifies util.ValueArray.{data_array encoded estBufSize} at d
  modifies M:util.IValue where x :: x == base(d.data_array)
  let n = len(d.data_array)
  ensures [in range] i < n
  ensures [removed] len(d.data_array) == n - 1
  ensures [before] forall j: int {d.data_array[j]} :: 0 <= j < i ==> d.data_array[j] == old(d.data_array[j])
  ensures [after] forall j: int {d.data_array[j]} :: i <= j < n - 1 ==> d.data_array[j] == old(d.data_array[j+1])
  ensures [not encoded] !d.encoded
  ensures [itself] r == d
func util.(*RecordList).Append(d, v) (r)
  requires d != nil && okr(v) && alloced(d.record_list)
  modifies util.RecordList.{record_list encoded estBufSize} at d
  modifies M:util.IRecord where x :: x == base(d.record_list)
  let n = len(d.record_list)
  ensures [appended] len(d.record_list) == n + 1 && d.record_list[n] == v && d.record_list != nil && alloced(d.record_list)
  ensures [others kept] forall j: int {d.record_list[j]} :: 0 <= j < n ==> d.record_list[j] == old(d.record_list[j])
  ensures [not encoded] !d.encoded
  ensures [itself] r == d
func util.(*RecordList).DeleteAt(d, i) (r)
  requires d != nil && alloced(d.record_list) && len(d.record_list) < 65536
  requires forall j: int {d.record_list[j]} :: 0 <= j < len(d.record_list) ==> okr(d.record_list[j])
  may_panic i >= len(d.record_list)
  modifies util.RecordList.{record_list encoded estBufSize} at d
  modifies M:util.IRecord where x :: x == base(d.record_list)
  let n = len(d.record_list)
  ensures [in range] i < n
  ensures [removed] len(d.record_list) == n - 1
  ensures [before] forall j: int {d.record_list[j]} :: 0 <= j < i ==> d.record_list[j] == old(d.record_list[j])
  ensures [after] forall j: int {d.record_list[j]} :: i <= j < n - 1 ==> d.record_list[j] == old(d.record_list[j+1])
  ensures [not encoded] !d.encoded
  ensures [itself] r == d
func util.(*Record).SetKey(r, k) (o)
  requires r != nil && (isKy(k) || (isMK(k) && mk(k).decoded) || isEK(k))
  modifies util.Record.{key encoded estKeySize} at r
  ensures [set] r.key == k && !r.encoded && o == r
func util.(*Record).SetK(r, k) (o)
  requires r != nil && len(k) > 0
  modifies util.Record.{key encoded estKeySize} at r
  ensures [set] isKy(r.key) && fresh(ky(r.key)) && seq(ky(r.key).keys) == ssadd(ssnil, seq(k)) && !ky(r.key).encoded
  ensures [not encoded] !r.encoded && o == r
func util.(*Record).SetValue(r, v) (o)
  requires r != nil && okv(v)
  modifies util.Record.{value encoded estDataSize} at r
  ensures [set] r.value == v && !r.encoded && o == r
func util.(*Record).SetV(r, v) (o)
  requires r != nil
  modifies util.Record.{value encoded estDataSize} at r
  ensures [set] isPrim(r.value) && fresh(prim(r.value)) && prim(r.value).data == v && !r.encoded && o == r
func util.(*Record).SetScheme(r, v) (o)
  requires r != nil && okv(v)
  modifies util.Record.{scheme encoded estSchemeSize} at r
  ensures [set] r.scheme == v && !r.encoded && o == r
func util.(*Record).SetS(r, v) (o)
  requires r != nil
  modifies util.Record.{scheme encoded estSchemeSize} at r
  ensures [set] isPrim(r.scheme) && fresh(prim(r.scheme)) && prim(r.scheme).data == v && !r.encoded && o == r
func util.(*Record).SetTimestamp(r, t) (o)
  requires r != nil
  modifies util.Record.{timestamp encoded} at r
  ensures [set] r.timestamp == t && !r.encoded && o == r
func util.(*Record).SetSignature(r, a, b) (o)
  requires r != nil
  modifies util.Record.{signature_r signature_s encoded} at r
  ensures [set] r.signature_r == a && r.signature_s == b && !r.encoded && o == r
