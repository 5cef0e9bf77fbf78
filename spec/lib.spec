// Contracts assumed for library functions outside the repository.

lib fmt.Errorf(format, a) (err)
  ensures err != nil

lib fmt.Sprintf(format, a) (s)
  flag noterm

lib bytes.NewReader(b) (r)
  flag alloc
  touches bytes.Reader.s, bytes.Reader.i
  ensures fresh(r) && r.s == b && r.i == 0
