package appendable
fn fixedwidth(ft int) int = ft == 6 || ft == 10 ? 2 : ft == 7 ? 1 : ft == 1 || ft == 2 || ft == 3 ? 9 : ft == 8 ? 4 : ft == 9 ? 3 : 0
// Booleans are 1 byte, null 0, numbers 8, n-grams n; everything else has no fixed
// length. The recorded width is one more, 0 for no fixed length.
func DetermineType(ft) (r int)
  props C22, C21
  ensures [table] r == fixedwidth(ft)

package linkedpage
// entry k of the list is slot sa(pg, k) of the file
fn sa(pg [int]int, k int) int = slot(pg[k / 15], k % 15)
// everything behind the last entry of the last page is zero
fn ltail(D, pg [int]int, n int) bool = forall i int {D[i]} :: slot(pg[npages(n) - 1], lcount(n, npages(n) - 1)) <= i && i < pg[npages(n) - 1] + 4096 ==> D[i] == 0
fn lin(pg [int]int, used [int]bool, n, size int) bool = forall j int {pg[j]} :: 0 <= j && j < npages(n) ==> pg[j] + 4096 <= size && used[pg[j]]
// the list's pages after an entry has been appended at (off, index)
fn pgx(pg [int]int, n, off, index int) [int]int = index == 0 ? pg[npages(n) <- off] : pg

package appendable
// The index record in a slot.
fn rlen(D [int]int, s int) int = D[s + 12]
fn rname(D [int]int, s int) Bs = mkbs(D, s + 19, le2(D, s + 17))
fn rtype(D [int]int, s int) int = wrap(uint8, le2(D, s + 13))
fn rwidth(D [int]int, s int) int = le2(D, s + 15)
fn rok(D [int]int, s int) bool = imok(D, s + 13, rlen(D, s))
fn match(D [int]int, s int, name Bs, ft int) bool = rok(D, s) && rname(D, s) == name && rtype(D, s) == ft

lemma rec_same(a [int]int, o int, D [int]int, s int)
  props C21
  requires 0 <= rlen(D, s) && rlen(D, s) <= 255 && mkbs(a, o, rlen(D, s)) == mkbs(D, s + 13, rlen(D, s))
  let n = rlen(D, s)
  let b = mkbs(a, o, n)
  let c = mkbs(D, s + 13, n)
  assert n >= 6 ==> b[0] == c[0] && b[1] == c[1] && b[2] == c[2] && b[3] == c[3] && b[4] == c[4] && b[5] == c[5]
  assert n >= 6 ==> le2(a, o) == le2(D, s + 13) && le2(a, o + 2) == le2(D, s + 15) && le2(a, o + 4) == le2(D, s + 17)
  let m = le2(D, s + 17)
  mention mkbs(bsarr(b), 6, m)
  mention mkbs(bsarr(c), 6, m)
  mention mkbs(bsarr(b), 6 + m, n - 6 - m)
  mention mkbs(bsarr(c), 6 + m, n - 6 - m)
  ensures [ok] imok(a, o, rlen(D, s)) <==> rok(D, s)
  ensures [type] rok(D, s) ==> wrap(uint8, le2(a, o)) == rtype(D, s) && le2(a, o + 2) == rwidth(D, s)
  ensures [name] rok(D, s) ==> mkbs(a, o + 6, le2(a, o + 4)) == rname(D, s)

// The file record and the list of index slots: entry 0 is the file record, entries
// 1 .. lpn-1 are the indexes.
fn ilist(D, pg [int]int, used [int]bool, n, size int, t linkedpage.LinkedPage) bool =
  lwf(D, pg, n) && 1 <= n && n < 999999999999 && t.rws != 0 && isat(pg, 0, t.offset, t.index) && lin(pg, used, n, size) && ltail(D, pg, n)
// the index with this name and type is entry k, and no earlier one is
fn firstat(D, pg [int]int, k int, name Bs, ft int) bool = forall j int {pg[j / 15]} :: 1 <= j && j < k ==> !match(D, sa(pg, j), name, ft)

lemma list_touch(D, E [int]int, pg [int]int, n, k int)
  props C21
  requires lwf(D, pg, n) && ltail(D, pg, n) && 0 <= k && k < n
  requires forall i int {E[i]} :: i < sa(pg, k) || i >= sa(pg, k) + 265 ==> E[i] == D[i]
  mention pg[k / 15]
  assert 0 <= k / 15 && k / 15 < npages(n) && 0 <= k % 15 && k % 15 < 15
  assert k / 15 == npages(n) - 1 ==> k % 15 < lcount(n, npages(n) - 1)
  assert forall j int {pg[j]} :: 0 <= j && j < npages(n) ==> pg[j] + 9 <= sa(pg, k) || sa(pg, k) + 265 <= pg[j]
  ensures [list] lwf(E, pg, n)
  ensures [tail] ltail(E, pg, n)
lemma tail_append_slot(D, E [int]int, pg [int]int, n, off, index int)
  props C21
  requires lwf(D, pg, n) && ltail(D, pg, n) && isat(pg, n - 1, off, index) && D[off + 8] != 15 && 1 <= n && n < 999999999999
  requires E[off + 8] == D[off + 8] + 1 && forall i int {E[i]} :: i != off + 8 ==> E[i] == D[i]
  mention pg[(n - 1) / 15]
  assert npages(n + 1) == npages(n) && off == pg[npages(n) - 1] && (n - 1) / 15 == npages(n) - 1
  assert D[off + 8] == lcount(n, npages(n) - 1) && index == D[off + 8] - 1 && n / 15 == npages(n) - 1
  assert lcount(n + 1, npages(n) - 1) == lcount(n, npages(n) - 1) + 1
  let s = slot(off, index + 1)
  ensures [tail] ltail(E, pg, n + 1)
  ensures [root] le8(E, s) == 0 && le4(E, s + 8) == 0
  ensures [index] index + 1 < 15
lemma tail_append_page(D, E [int]int, pg [int]int, n, off, index, p int)
  props C21
  requires lwf(D, pg, n) && isat(pg, n - 1, off, index) && D[off + 8] == 15 && 1 <= n && n < 999999999999
  requires forall i int {E[i]} :: p + 9 <= i && i < p + 4096 ==> E[i] == 0
  mention pg[(n - 1) / 15]
  assert npages(n + 1) == npages(n) + 1 && off == pg[npages(n) - 1]
  let q = pg[npages(n) <- p]
  let s = slot(p, 0)
  ensures [tail] ltail(E, q, n + 1)
  ensures [root] le8(E, s) == 0 && le4(E, s + 8) == 0

ghost gk int             // the entry an index operation is looking at

func (*IndexFile).FindOrCreateIndex(i, name, fieldType) (r *linkedpage.LinkedPage, m *IndexMeta, err error)
  props C21, C19
  requires i.tree != 0 && ilist(disk, lpg, used, lpn, size, *i.tree)
  modifies disk, size, pos, iofail, used, gk
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [entry] err == nil ==> 1 <= gk && gk <= lpn && r != 0 && m != 0 && r.rws == i.tree.rws && firstat(old(disk), lpg, gk, name, fieldType)
  ensures [existing] err == nil && gk < lpn ==> match(old(disk), sa(lpg, gk), name, fieldType) && isat(lpg, gk, r.offset, r.index) && disk == old(disk) && used == old(used) && size == old(size)
  ensures [record] err == nil && gk < lpn ==> m.FieldName == name && m.FieldType == fieldType && m.Width == rwidth(disk, sa(lpg, gk))
  ensures [new] err == nil && gk == lpn ==> m.FieldName == name && m.FieldType == fieldType && m.Width == fixedwidth(fieldType) && m.TotalFieldValueLength == 0
  ensures [appended] err == nil && gk == lpn ==> lwf(disk, pgx(lpg, lpn, r.offset, r.index), lpn + 1) && isat(pgx(lpg, lpn, r.offset, r.index), lpn, r.offset, r.index)
  ensures [appended2] err == nil && gk == lpn ==> ltail(disk, pgx(lpg, lpn, r.offset, r.index), lpn + 1)
  ensures [appended3] err == nil && gk == lpn ==> lin(pgx(lpg, lpn, r.offset, r.index), used, lpn + 1, size) && isat(pgx(lpg, lpn, r.offset, r.index), 0, i.tree.offset, i.tree.index)
  ensures [written] err == nil && gk == lpn ==> match(disk, slot(r.offset, r.index), name, fieldType) && rwidth(disk, slot(r.offset, r.index)) == fixedwidth(fieldType)
  ensures [empty] err == nil && gk == lpn ==> le8(disk, slot(r.offset, r.index)) == 0 && le4(disk, slot(r.offset, r.index) + 8) == 0
  ensures [others] err == nil && gk == lpn && r.index > 0 ==> forall i int {disk[i]} :: i != r.offset + 8 && !(slot(r.offset, r.index) <= i && i < slot(r.offset, r.index) + 265) ==> disk[i] == old(disk)[i]
  ensures [otherpages] err == nil && gk == lpn && r.index == 0 ==> !old(used)[r.offset] && forall i int {disk[i]} :: i >= 4096 && !(r.offset <= i && i < r.offset + 4096) && !(lpg[npages(lpn) - 1] <= i && i < lpg[npages(lpn) - 1] + 8) ==> disk[i] == old(disk)[i]
  at entry
    set gk = 0
  at aftercall Next
    set gk = $err == nil ? gk + 1 : gk
  at aftercall AddNext
    set gk = lpn
  at beforecall Next
    use list_next(disk, lpg, lpn, gk, mp.offset, mp.index)
  loop 0
    modifies pos, iofail, gk
    invariant [io] iofail <==> old(iofail)
    invariant [cur] mp != 0 && alive(mp) && mp.rws == i.tree.rws && 0 <= gk && gk < lpn && isat(lpg, gk, mp.offset, mp.index)
    invariant [seen] firstat(disk, lpg, gk + 1, name, fieldType)
  at aftercall Next
    mention lpg[gk / 15]
  at aftercall UnmarshalBinary
    use rec_same(elems(buf), buf.off, disk, slot(next.offset, next.index))
  at aftercall AddNext
    use list_append_slot(pre(disk), disk, lpg, lpn, mp.offset, mp.index)
  at aftercall AddNext
    use tail_append_slot(pre(disk), disk, lpg, lpn, mp.offset, mp.index)
  at aftercall AddNext
    use list_append_page(pre(disk), disk, lpg, pre(used), lpn, mp.offset, mp.index, $r.offset)
  at aftercall AddNext
    use tail_append_page(pre(disk), disk, lpg, lpn, mp.offset, mp.index, $r.offset)
  at aftercall MarshalBinary
    use indexmeta_roundtrip(elems($r), $r.off, len($r), *metadata)
  at aftercall SetMetadata
    use list_touch(pre(disk), disk, pgx(lpg, lpn, next.offset, next.index), lpn + 1, lpn)
  at aftercall SetMetadata
    use rec_same(elems(buf), buf.off, disk, slot(next.offset, next.index))
  at aftercall AddNext
    assert $err == nil ==> lwf(disk, pgx(lpg, lpn, $r.offset, $r.index), lpn + 1) && isat(pgx(lpg, lpn, $r.offset, $r.index), lpn, $r.offset, $r.index)
  at aftercall AddNext
    assert $err == nil ==> ltail(disk, pgx(lpg, lpn, $r.offset, $r.index), lpn + 1)
  at aftercall AddNext
    assert $err == nil ==> lin(pgx(lpg, lpn, $r.offset, $r.index), used, lpn + 1, size)
  at aftercall AddNext
    assert $err == nil ==> pgx(lpg, lpn, $r.offset, $r.index)[0] == lpg[0]
  at aftercall SetMetadata
    assert sa(pgx(lpg, lpn, next.offset, next.index), lpn) == slot(next.offset, next.index)
  at aftercall SetMetadata
    assert $err == nil ==> lwf(disk, pgx(lpg, lpn, next.offset, next.index), lpn + 1)
  at aftercall SetMetadata
    assert $err == nil ==> ltail(disk, pgx(lpg, lpn, next.offset, next.index), lpn + 1)
  at aftercall SetMetadata
    assert $err == nil ==> lin(pgx(lpg, lpn, next.offset, next.index), used, lpn + 1, size)
  at aftercall SetMetadata
    assert $err == nil ==> isat(pgx(lpg, lpn, next.offset, next.index), 0, i.tree.offset, i.tree.index)
  at aftercall SetMetadata
    assert $err == nil ==> isat(pgx(lpg, lpn, next.offset, next.index), lpn, next.offset, next.index)

// The file record in entry 0.
fn frok(D [int]int, s int) bool = fmok(D, s + 13, rlen(D, s))
fn frver(D [int]int, s int) int = D[s + 13]
fn frfmt(D [int]int, s int) int = D[s + 14]
fn froff(D [int]int, s int) int = le8(D, s + 15)
fn frent(D [int]int, s int) int = uvval(mkbs(D, s + 23, rlen(D, s) - 10))
fn fris(D [int]int, s int, m FileMeta) bool = frok(D, s) && frver(D, s) == m.Version && frfmt(D, s) == m.Format && froff(D, s) == m.ReadOffset && frent(D, s) == m.Entries

lemma frec_same(a [int]int, o int, D [int]int, s int)
  props C21
  requires 0 <= rlen(D, s) && rlen(D, s) <= 255 && mkbs(a, o, rlen(D, s)) == mkbs(D, s + 13, rlen(D, s))
  let n = rlen(D, s)
  let b = mkbs(a, o, n)
  let c = mkbs(D, s + 13, n)
  assert n >= 10 ==> b[0] == c[0] && b[1] == c[1] && b[2] == c[2] && b[3] == c[3] && b[4] == c[4] && b[5] == c[5] && b[6] == c[6] && b[7] == c[7] && b[8] == c[8] && b[9] == c[9]
  assert n >= 10 ==> le8(a, o + 2) == le8(D, s + 15)
  mention mkbs(bsarr(b), 10, n - 10)
  mention mkbs(bsarr(c), 10, n - 10)
  ensures [ok] fmok(a, o, rlen(D, s)) <==> frok(D, s)
  ensures [fields] frok(D, s) ==> a[o] == frver(D, s) && a[o + 1] == frfmt(D, s) && le8(a, o + 2) == froff(D, s) && uvval(mkbs(a, o + 10, n - 10)) == frent(D, s)

func (*IndexFile).Metadata(i) (r *FileMeta, err error)
  props C21, C15, C16, C19
  requires i.tree != 0 && lpok(*i.tree) && i.tree.index != 255 && i.tree.offset + 4096 <= size
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [record] err == nil ==> r != 0 && fresh(r) && fris(disk, slot(i.tree.offset, i.tree.index), *r) && 0 <= r.Format && r.Format <= 1 && 0 <= r.Entries && r.Entries < 18446744073709551616 && 0 <= r.ReadOffset && r.ReadOffset < 18446744073709551616
  at aftercall UnmarshalBinary
    use frec_same(elems(buf), buf.off, disk, slot(i.tree.offset, i.tree.index))

func (*IndexFile).SetMetadata(i, metadata) (err error)
  props C21, C15, C16, C19
  requires i.tree != 0 && lpok(*i.tree) && i.tree.index != 255 && i.tree.offset + 4096 <= size && metadata != 0 && 0 <= metadata.Format && metadata.Format <= 1 && 0 <= metadata.Entries && metadata.Entries < 18446744073709551616
  modifies disk, size, pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [record] err == nil ==> fris(disk, slot(i.tree.offset, i.tree.index), *metadata)
  ensures [frame] forall k int {disk[k]} :: k < slot(i.tree.offset, i.tree.index) + 12 || k >= slot(i.tree.offset, i.tree.index) + 265 ==> disk[k] == old(disk)[k]
  ensures err == nil ==> size == old(size)
  ensures size >= old(size)
  at aftercall MarshalBinary
    use filemeta_roundtrip(elems($r), $r.off, len($r), *metadata)
  at aftercall SetMetadata
    use frec_same(elems(buf), buf.off, disk, slot(i.tree.offset, i.tree.index))

fn hformat(h int) int
extern (appendable.DataHandler).Format(self) (r)
  ensures r == hformat(self) && 0 <= r && r <= 1

func NewIndexFile(f, dataHandler, searchHeaders) (r *IndexFile, err error)
  props C21, C19
  requires f != nil && dataHandler != nil && size >= 0 && size <= 2305843009213693952
  requires size > 0 ==> lwf(disk, lpg, lpn) && lpg[0] == 4096 && lpn >= 1 && lin(lpg, used, lpn, size) && lpn < 999999999999
  modifies disk, size, pos, iofail, used
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [kept] old(size) > 0 ==> disk == old(disk) && size == old(size) && used == old(used)
  ensures [open] err == nil && old(size) > 0 ==> r != 0 && r.tree != 0 && r.tree.rws != 0 && isat(lpg, 0, r.tree.offset, r.tree.index)
  ensures [version] err == nil && old(size) > 0 ==> frok(disk, sa(lpg, 0)) && frver(disk, sa(lpg, 0)) == 1 && frfmt(disk, sa(lpg, 0)) == hformat(dataHandler)
  ensures [new] err == nil && old(size) == 0 ==> r != 0 && r.tree != 0 && ilist(disk, constmap(4096), used, 1, size, *r.tree)
  ensures [zero] err == nil && old(size) == 0 ==> frok(disk, slot(4096, 0)) && frver(disk, slot(4096, 0)) == 1 && frfmt(disk, slot(4096, 0)) == hformat(dataHandler) && froff(disk, slot(4096, 0)) == 0 && frent(disk, slot(4096, 0)) == 0
  at beforecall Next
    use list_next(disk, lpg, lpn, 0 - 1, tree.offset, tree.index)
  at aftercall UnmarshalBinary
    use frec_same(elems(buf), buf.off, disk, slot(node.offset, node.index))
  at aftercall MarshalBinary
    use filemeta_roundtrip(elems($r), $r.off, len($r), *metadata)
  at aftercall SetMetadata
    use frec_same(elems(buf), buf.off, disk, slot(created.offset, created.index))
  at beforecall AddNext
    use list_refused(disk, lpg, lpn, 0 - 1, tree.offset, tree.index)
  at beforecall Next
    mention lpg[0]
