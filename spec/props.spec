property C07 file:slices file:order
property C17 file:time
property C22 file:nums
property C23 file:rand
property C10 file:codec
property C18 file:consid
property C21 file:base58
property C01 file:avl file:sorted
property C02 file:avl file:sorted
  soft:lookup_key soft:lookup_value soft:count soft:absent soft:removed soft:replaced soft:keys soft:order soft:smallest soft:largest
  soft:same_keys soft:same_values soft:found soft:values soft:size soft:previous soft:lookup soft:empty soft:invariant
property C08 file:keys
property C11 file:keycodec
property C14 file:scheme
property C15 file:codec file:keycodec file:scheme file:value file:record file:time file:consid util.NewMPHTable
property C12 file:encode file:value file:record
property C16 util.(*Key).Encode util.(*Scheme).Encode util.(*Primitive).Encode util.(*ValueArray).Encode util.IValue.Encode util.(*Record).Encode util.IKey.Encode kenc_mono prim_len con_head con_is con_bytes prim_ok0 con_ok0
property C30 file:updates util.(*Key).Add util.NewKey util.(*Key).Buf util.(*Primitive).Buf util.(*ValueArray).Buf util.(*RecordList).Buf util.(*Record).Buf util.(*Key).Encode util.(*Primitive).Encode util.(*ValueArray).Encode util.IValue.Encode util.(*Record).Encode
