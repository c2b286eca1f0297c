package linkedpage
// The list of slots: pages pg[0], pg[1], ..., all but the last with 15 slots; the
// page's first 8 bytes hold the next page's offset (2^64-1 for none), byte 8 its
// slot count.
fn npages(n int) int = n <= 15 ? 1 : (n + 14) / 15
fn lcount(n, j int) int = j == npages(n) - 1 ? n - 15 * j : 15
fn lwf(D [int]int, pg [int]int, n int) bool = n >= 0 && n < 1000000000000
  && (forall j int {pg[j]} :: 0 <= j && j < npages(n) ==> pg[j] >= 4096 && pg[j] < 4611686018427387904 && pg[j] % 4096 == 0 && D[pg[j] + 8] == lcount(n, j))
  && (forall i, j int {pg[i], pg[j]} :: 0 <= i && j == i + 1 && j < npages(n) ==> le8(D, pg[i]) == pg[j])
  && le8(D, pg[npages(n) - 1]) == 18446744073709551615
  && (forall i, j int {pg[i], pg[j]} :: 0 <= i && i < j && j < npages(n) ==> pg[i] != pg[j])
// Entry k of the list (k == -1 is the list header) is the handle (page, slot).
fn isat(pg [int]int, k, off, index int) bool = k < 0 ? off == pg[0] && index == 255 : off == pg[k / 15] && index == k % 15

// One step: the slot after (off, index) within the page, else slot 0 of the next page.
fn more(D [int]int, off, index int) bool = (index + 1) % 256 < D[off + 8]

func (*LinkedPage).count(m) (r int, err error)
  props C06, C19
  requires lpok(*m)
  modifies pos, iofail
  ensures [io] (err == nil || err == io.EOF) ==> (iofail <==> old(iofail))
  ensures [eofis] err != io.EOF ==> !errIs(err, io.EOF)
  ensures [value] err == nil ==> r == disk[m.offset + 8]
  ensures m.offset + 9 > size ==> err != nil
  ensures err != nil && !iofail || err == io.EOF ==> m.offset + 9 > size

func (*LinkedPage).nextPageOffset(m) (r int, err error)
  props C06, C19
  requires lpok(*m)
  modifies pos, iofail
  ensures [io] (err == nil || err == io.EOF) ==> (iofail <==> old(iofail))
  ensures [eofis] err != io.EOF ==> !errIs(err, io.EOF)
  ensures [value] err == nil ==> r == le8(disk, m.offset)
  ensures err != nil && !iofail || err == io.EOF ==> m.offset + 8 > size

func (*LinkedPage).reset(m, count) (err error)
  props C06, C19
  requires lpok(*m)
  modifies disk, size, pos, iofail
  ensures [page] err == nil ==> le8(disk, m.offset) == 18446744073709551615 && disk[m.offset + 8] == count
  ensures [zero] err == nil ==> forall i int {disk[i]} :: m.offset + 9 <= i && i < m.offset + 4096 ==> disk[i] == 0
  ensures [frame] forall i int {disk[i]} :: i < m.offset || i >= m.offset + 4096 ==> disk[i] == old(disk)[i]
  ensures size >= old(size) && (err == nil ==> size == max(old(size), m.offset + 4096))
  ensures iofail <==> old(iofail) || err != nil

func (*LinkedPage).Next(m) (r *LinkedPage, err error)
  props C06, C19
  requires lpok(*m)
  modifies pos, iofail
  ensures [io] (err == nil || err == io.EOF) ==> (iofail <==> old(iofail))
  ensures [eofis] err != io.EOF ==> !errIs(err, io.EOF)
  ensures [slot] err == nil && more(disk, m.offset, m.index) ==> r.offset == m.offset && r.index == (m.index + 1) % 256
  ensures [page] err == nil && !more(disk, m.offset, m.index) ==> le8(disk, m.offset) != 18446744073709551615 && r.offset == le8(disk, m.offset) && r.index == 0
  ensures [end] m.offset + 4096 <= size && !iofail ==> (err != nil <==> !more(disk, m.offset, m.index) && le8(disk, m.offset) == 18446744073709551615)
  ensures [atend] m.offset + 4096 <= size && err == io.EOF ==> !more(disk, m.offset, m.index) && le8(disk, m.offset) == 18446744073709551615
  ensures [eof] m.offset + 4096 <= size && !iofail && err != nil ==> err == io.EOF
  ensures err == nil ==> r != 0 && fresh(r) && r.rws == m.rws

func (*LinkedPage).AddNext(m) (r *LinkedPage, err error)
  props C06, C19
  requires lpok(*m) && m.offset + 4096 <= size && used[m.offset] && disk[m.offset + 8] <= 15
  modifies disk, size, pos, iofail, used
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [refused] more(old(disk), m.offset, m.index) || (old(disk)[m.offset + 8] == 15 && le8(old(disk), m.offset) != 18446744073709551615) ==> err != nil && disk == old(disk) && size == old(size) && used == old(used)
  ensures [accepted] !more(old(disk), m.offset, m.index) && (old(disk)[m.offset + 8] != 15 || le8(old(disk), m.offset) == 18446744073709551615) && !iofail ==> err == nil
  ensures [slot] err == nil && old(disk)[m.offset + 8] != 15 ==> r.offset == m.offset && r.index == (m.index + 1) % 256 && disk[m.offset + 8] == old(disk)[m.offset + 8] + 1 && used == old(used)
      && (forall i int {disk[i]} :: i != m.offset + 8 ==> disk[i] == old(disk)[i])
  ensures [page] err == nil && old(disk)[m.offset + 8] == 15 ==> r.index == 0 && r.offset >= 4096 && r.offset % 4096 == 0 && r.offset < 4611686018427387904 && r.offset + 4096 <= size && !old(used)[r.offset] && used == old(used)[r.offset <- true]
      && le8(disk, m.offset) == r.offset && le8(disk, r.offset) == 18446744073709551615 && disk[r.offset + 8] == 1
  ensures [zero] err == nil && old(disk)[m.offset + 8] == 15 ==> forall i int {disk[i]} :: r.offset + 9 <= i && i < r.offset + 4096 ==> disk[i] == 0
  ensures [frame] err == nil && old(disk)[m.offset + 8] == 15 ==> forall i int {disk[i]} :: i >= 4096 && !(m.offset <= i && i < m.offset + 8) && !(r.offset <= i && i < r.offset + 4096) ==> disk[i] == old(disk)[i]
  ensures err == nil ==> r != 0 && fresh(r) && r.rws == m.rws && size >= old(size)

func NewMultiBPTree(t, page) (r *LinkedPage, err error)
  props C06, C19
  requires t != 0 && size % 4096 == 0
  modifies disk, size, pos, iofail, used
  at return
    set used = err == nil && old(size) <= 4096 ? used[4096 <- true] : used
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [used] err == nil || old(size) > 4096 ==> (old(size) <= 4096 ? used == old(used)[4096 <- true] : used == old(used))
  ensures [zero] err == nil && old(size) <= 4096 ==> forall i int {disk[i]} :: 4096 + 9 <= i && i < 8192 ==> disk[i] == 0
  ensures [header] err == nil ==> r != 0 && fresh(r) && r.offset == 4096 && r.index == 255 && r.rws == t
  ensures [create] err == nil && old(size) <= 4096 ==> le8(disk, 4096) == 18446744073709551615 && disk[4096 + 8] == 0 && size == 8192
  ensures [open] old(size) > 4096 ==> disk == old(disk) && size == old(size)
  ensures [frame] forall i int {disk[i]} :: i < 4096 || i >= 8192 ==> disk[i] == old(disk)[i]

// A new list is the empty list.
lemma list_empty(D [int]int, pg [int]int)
  props C06
  requires pg[0] == 4096 && le8(D, 4096) == 18446744073709551615 && D[4096 + 8] == 0
  ensures lwf(D, pg, 0)
// Walking: from entry k (or the header, k == -1) the step rule of Next leads to entry
// k+1, and reports the end exactly after the last entry.
lemma list_next(D [int]int, pg [int]int, n, k, off, index int)
  props C06
  requires lwf(D, pg, n) && 0 - 1 <= k && k < n && isat(pg, k, off, index)
  mention pg[0]
  mention pg[k / 15]
  mention pg[k / 15 + 1]
  ensures [slot] k + 1 < n && more(D, off, index) ==> isat(pg, k + 1, off, (index + 1) % 256)
  ensures [page] k + 1 < n && !more(D, off, index) ==> isat(pg, k + 1, le8(D, off), 0) && le8(D, off) != 18446744073709551615
  ensures [end] k + 1 == n <==> !more(D, off, index) && le8(D, off) == 18446744073709551615
  ensures [once] k + 1 == n && k >= 0 ==> index + 1 == D[off + 8]
// Appending anywhere but at the end is refused (the rule of AddNext).
lemma list_refused(D [int]int, pg [int]int, n, k, off, index int)
  props C06
  requires lwf(D, pg, n) && 0 - 1 <= k && k < n && isat(pg, k, off, index)
  mention pg[0]
  mention pg[k / 15]
  mention pg[k / 15 + 1]
  ensures k + 1 < n <==> more(D, off, index) || (D[off + 8] == 15 && le8(D, off) != 18446744073709551615)
  ensures D[off + 8] <= 15
lemma page_apart(D, E [int]int, a, b int)
  props C06
  requires a % 4096 == 0 && b % 4096 == 0
  requires forall i int {E[i]} :: i != b + 8 ==> E[i] == D[i]
  ensures le8(E, a) == le8(D, a)
  ensures a != b ==> E[a + 8] == D[a + 8]
// Appending at the end adds entry n and keeps every other one.
lemma list_append_slot(D, E [int]int, pg [int]int, n, off, index int)
  props C06
  requires lwf(D, pg, n) && isat(pg, n - 1, off, index) && D[off + 8] != 15 && n < 999999999999
  requires E[off + 8] == D[off + 8] + 1 && forall i int {E[i]} :: i != off + 8 ==> E[i] == D[i]
  mention pg[0]
  mention pg[(n - 1) / 15]
  assert npages(n + 1) == npages(n) && off == pg[npages(n) - 1]
  use forall j int {pg[j]} :: page_apart(D, E, pg[j], off)
  ensures [grown] lwf(E, pg, n + 1)
  ensures [last] isat(pg, n, off, (index + 1) % 256)
lemma list_append_page(D, E [int]int, pg [int]int, used [int]bool, n, off, index, p int)
  props C06
  requires lwf(D, pg, n) && isat(pg, n - 1, off, index) && D[off + 8] == 15 && n < 999999999999
  requires forall j int {pg[j]} :: 0 <= j && j < npages(n) ==> used[pg[j]]
  requires p >= 4096 && p % 4096 == 0 && p < 4611686018427387904 && !used[p]
  requires le8(E, off) == p && le8(E, p) == 18446744073709551615 && E[p + 8] == 1
  requires forall i int {E[i]} :: i >= 4096 && !(off <= i && i < off + 8) && !(p <= i && i < p + 4096) ==> E[i] == D[i]
  mention pg[0]
  mention pg[(n - 1) / 15]
  let q = pg[npages(n) <- p]
  assert npages(n + 1) == npages(n) + 1 && off == pg[npages(n) - 1] && used[off] && off != p
  assert forall j int {pg[j]} :: 0 <= j && j < npages(n) ==> pg[j] != p && q[j] == pg[j]
  ensures [grown] lwf(E, q, n + 1)
  ensures [last] isat(q, n, p, 0)
  ensures [kept] forall k int {pg[k / 15]} :: 0 - 1 <= k && k < n ==> q[k / 15] == pg[k / 15]
  ensures [used] forall j int {q[j]} :: 0 <= j && j < npages(n + 1) ==> used[p <- true][q[j]]
// The contents of existing slots are untouched by both ways of appending.
lemma list_append_keeps(D, E [int]int, pg [int]int, used [int]bool, n, off, index, p, q, s int)
  props C06
  requires p % 4096 == 0 && q % 4096 == 0 && off % 4096 == 0 && q != p && q >= 4096 && 0 <= s && s <= 14
  requires (forall i int {E[i]} :: i >= 4096 && !(off <= i && i < off + 9) && !(p <= i && i < p + 4096) ==> E[i] == D[i])
  ensures forall i int {E[i]} :: slot(q, s) <= i && i < slot(q, s) + 265 ==> E[i] == D[i]

// Walking the whole list visits every entry once, in order.
ghost lpg [int]int       // the pages of the list (a logical variable: nothing modifies it)
ghost lpn int            // the number of entries
func (*LinkedPage).Collect(m) (r, err error)
  props C06, C19
  requires lwf(disk, lpg, lpn) && m.index == 255 && m.offset == lpg[0] && m.rws != 0
  requires forall j int {lpg[j]} :: 0 <= j && j < npages(lpn) ==> lpg[j] + 4096 <= size
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [count] err == nil ==> len(r) == lpn
  ensures [order] err == nil ==> forall k int {r[k]} :: 0 <= k && k < lpn ==> r[k].offset == lpg[k / 15] && r[k].index == k % 15
  ensures [complete] err != nil ==> iofail
  loop 0
    modifies pos, iofail
    invariant [io] iofail <==> old(iofail)
    invariant fresh(pages) || len(pages) == 0 && cap(pages) == 0
    invariant [cur] node != 0 && node.rws == m.rws && alive(node) && len(pages) >= 0
    invariant [position] (node.index == 255 ? len(pages) == 0 : len(pages) < lpn) && isat(lpg, node.index == 255 ? 0 - 1 : len(pages), node.offset, node.index)
    invariant [visited] forall k int {pages[k]} :: 0 <= k && k < len(pages) ==> pages[k].offset == lpg[k / 15] && pages[k].index == k % 15 && alive(pages[k])
  at beforecall Next
    use list_next(disk, lpg, lpn, len(pages) - 1, node.offset, node.index)
