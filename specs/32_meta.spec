package appendable

// ---- file header record ----
func (*FileMeta).MarshalBinary(m) (r, err error)
  props C03
  ensures [ok] err == nil && len(r) == 10 + uvl(m.Entries) && fresh(r)
  ensures [layout] r[0] == m.Version && r[1] == m.Format && le8(elems(r), r.off + 2) == m.ReadOffset && uvat(elems(r), r.off + 10, m.Entries)

fn fmok(a [int]int, o, n int) bool = n >= 10 && a[o + 1] <= 1 && uvn(mkbs(a, o + 10, n - 10)) > 0

func (*FileMeta).UnmarshalBinary(m, buf) (err error)
  props C03
  modifies *m
  ensures [valid] err == nil <==> fmok(elems(buf), buf.off, len(buf))
  ensures [fields] err == nil ==> m.Version == buf[0] && m.Format == buf[1] && m.ReadOffset == le8(elems(buf), buf.off + 2) && m.Entries == uvval(mkbs(elems(buf), buf.off + 10, len(buf) - 10))
  ensures [range] err == nil ==> 0 <= m.Format && m.Format <= 1 && 0 <= m.Entries && m.Entries < 18446744073709551616 && 0 <= m.ReadOffset && m.ReadOffset < 18446744073709551616

lemma filemeta_roundtrip(a [int]int, o, n int, m FileMeta)
  props C03
  requires a[o] == m.Version && a[o + 1] == m.Format && le8(a, o + 2) == m.ReadOffset && uvat(a, o + 10, m.Entries) && n >= 10 + uvl(m.Entries)
  requires 0 <= m.Format && m.Format <= 1 && 0 <= m.Entries && m.Entries < 18446744073709551616
  ensures [accepted] fmok(a, o, n)
  ensures [entries] uvval(mkbs(a, o + 10, n - 10)) == m.Entries

// ---- index header record ----
func (*IndexMeta).MarshalBinary(m) (r, err error)
  props C03
  requires len(m.FieldName) <= 65535
  ensures [ok] err == nil && len(r) == 6 + len(m.FieldName) + uvl(m.TotalFieldValueLength) && fresh(r)
  ensures [layout] le2(elems(r), r.off) == m.FieldType && le2(elems(r), r.off + 2) == m.Width && le2(elems(r), r.off + 4) == len(m.FieldName)
  ensures [name] mkbs(elems(r), r.off + 6, len(m.FieldName)) == m.FieldName
  ensures [total] uvat(elems(r), r.off + 6 + len(m.FieldName), m.TotalFieldValueLength)

fn imok(a [int]int, o, n int) bool = n >= 6 && n >= 6 + le2(a, o + 4) && uvn(mkbs(a, o + 6 + le2(a, o + 4), n - 6 - le2(a, o + 4))) > 0

func (*IndexMeta).UnmarshalBinary(m, buf) (err error)
  props C03
  modifies *m
  ensures [valid] err == nil <==> imok(elems(buf), buf.off, len(buf))
  ensures [fields] err == nil ==> m.FieldType == wrap(uint8, le2(elems(buf), buf.off)) && m.Width == le2(elems(buf), buf.off + 2)
  ensures [name] err == nil ==> m.FieldName == mkbs(elems(buf), buf.off + 6, le2(elems(buf), buf.off + 4))
  ensures [total] err == nil ==> m.TotalFieldValueLength == uvval(mkbs(elems(buf), buf.off + 6 + le2(elems(buf), buf.off + 4), len(buf) - 6 - le2(elems(buf), buf.off + 4)))

lemma indexmeta_roundtrip(a [int]int, o, n int, m IndexMeta)
  props C03
  requires le2(a, o) == m.FieldType && le2(a, o + 2) == m.Width && le2(a, o + 4) == len(m.FieldName) && mkbs(a, o + 6, len(m.FieldName)) == m.FieldName
  requires uvat(a, o + 6 + len(m.FieldName), m.TotalFieldValueLength) && n >= 6 + len(m.FieldName) + uvl(m.TotalFieldValueLength)
  requires 0 <= m.FieldType && m.FieldType < 256 && 0 <= m.TotalFieldValueLength && m.TotalFieldValueLength < 18446744073709551616
  ensures [accepted] imok(a, o, n)
  ensures [type] wrap(uint8, le2(a, o)) == m.FieldType
  ensures [name] mkbs(a, o + 6, le2(a, o + 4)) == m.FieldName
  ensures [total] uvval(mkbs(a, o + 6 + le2(a, o + 4), n - 6 - le2(a, o + 4))) == m.TotalFieldValueLength
