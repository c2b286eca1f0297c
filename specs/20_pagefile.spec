package pagefile
// The free queue: element k (oldest first) of the ring buffer.
fn fq(pf PageFile, k int) int = pf.freePageIndexes[(pf.freePageHead - pf.freePageCount + k + 512) % 512]

// Is ring index j one of the queue's slots, and which element is it?
fn ringpos(pf PageFile, j int) int = (j - pf.freePageHead + pf.freePageCount + 512) % 512

// Representation invariant of the allocator, relative to the store's size.
fn pfok(pf PageFile, size int) bool =
  pf.ReadWriteSeeker != 0 && pf.pageSize == 4096 && pf.slotSize == 256
  && 0 <= pf.freePageHead && pf.freePageHead < 512 && 0 <= pf.freePageCount && pf.freePageCount <= 512
  && size >= 4096 && size % 4096 == 0 && size <= 4611686018427387904
  && (forall j int {pf.freePageIndexes[j]} :: 0 <= j && j < 512 ==>
       (ringpos(pf, j) < pf.freePageCount
         ? pf.freePageIndexes[j] >= 4096 && pf.freePageIndexes[j] < size && pf.freePageIndexes[j] % 4096 == 0
         : pf.freePageIndexes[j] == 0))
  && (forall i, j int {pf.freePageIndexes[i], pf.freePageIndexes[j]} :: 0 <= i && i < 512 && 0 <= j && j < 512 && i != j && pf.freePageIndexes[i] != 0 ==> pf.freePageIndexes[i] != pf.freePageIndexes[j])

// The header page lists the queue, oldest first, zero terminated.
fn hdr(pf PageFile, disk [int]int) bool =
  forall k int {disk[8*k]} :: 0 <= k && k < 512 ==> le8(disk, 8*k) == (k < pf.freePageCount ? fq(pf, k) : 0)

func (*PageFile).writeFreePageIndices(pf) (err error)
  props C04, C19
  requires pfok(*pf, size)
  modifies disk, size, pos, iofail
  ensures err == nil ==> hdr(*pf, disk) && size == old(size)
  ensures size >= old(size)
  ensures forall i int {disk[i]} :: i < 0 || i >= 4096 ==> disk[i] == old(disk)[i]
  ensures iofail <==> old(iofail) || err != nil
  loop 0
    modifies elems(buf)
    invariant buf.off == 0 && len(buf) == 4096 && fresh(buf) && 0 <= i && i <= pf.freePageCount
    invariant forall k int {buf[8*k]} :: 0 <= k && k < 512 ==> le8(elems(buf), 8*k) == (k < i ? fq(*pf, k) : 0)

func (*PageFile).LastPage(pf) (r int)
  ensures r == pf.lastPage
func (*PageFile).PageCount(pf) (r int)
  ensures r == pf.lastPage
func (*PageFile).PageSize(pf) (r int)
  ensures r == pf.pageSize
func (*PageFile).SlotSize(pf) (r int)
  ensures r == 256

func (*PageFile).Page(pf, i) (r int, err error)
  props C04, C05
  requires pf.pageSize == 4096 && i < 1099511627776
  ensures [page] err == nil <==> i >= 0
  ensures [aligned] err == nil ==> r == (i + 1) * 4096

// Take the oldest free page off the queue.
func (*PageFile).FreePageIndex(pf) (r int, err error)
  props C04, C19
  requires pfok(*pf, size) && hdr(*pf, disk)
  modifies *pf, disk, size, pos, iofail
  ensures [empty] old(pf.freePageCount) == 0 && err == nil ==> r == 0 - 1 && *pf == old(*pf) && size == old(size) && disk == old(disk)
  ensures [fifo] old(pf.freePageCount) > 0 && err == nil ==> r == old(fq(*pf, 0)) && r >= 4096 && r < size && r % 4096 == 0
      && pf.freePageCount == old(pf.freePageCount) - 1 && size == old(size)
  ensures [rest] old(pf.freePageCount) > 0 && err == nil ==> forall k int {fq(*pf, k)} :: 0 <= k && k < pf.freePageCount ==> fq(*pf, k) == old(fq(*pf, k + 1))
  ensures [taken] old(pf.freePageCount) > 0 && err == nil ==> forall k int {fq(*pf, k)} :: 0 <= k && k < pf.freePageCount ==> fq(*pf, k) != r
  ensures [rep] err == nil ==> pfok(*pf, size) && hdr(*pf, disk)
  ensures forall i int {disk[i]} :: i < 0 || i >= 4096 ==> disk[i] == old(disk)[i]
  ensures pf.pageSize == 4096 && pf.ReadWriteSeeker == old(pf.ReadWriteSeeker)
  ensures iofail <==> old(iofail) || err != nil

// A page handed out is the oldest free page, or a new one at the end of the store;
// it is never the header page and never a page that is still in use.
func (*PageFile).NewPage(pf, buf) (r int, err error)
  props C04, C19
  requires pfok(*pf, size) && hdr(*pf, disk)
  modifies *pf, disk, size, pos, iofail
  ensures [aligned] err == nil ==> r >= 4096 && r % 4096 == 0 && r + 4096 <= size && pos == r
  ensures [reuse] err == nil && old(pf.freePageCount) > 0 ==> r == old(fq(*pf, 0)) && size == old(size) && pf.freePageCount == old(pf.freePageCount) - 1
  ensures [rest] err == nil && old(pf.freePageCount) > 0 ==> forall k int {fq(*pf, k)} :: 0 <= k && k < pf.freePageCount ==> fq(*pf, k) == old(fq(*pf, k + 1))
  ensures [grow] err == nil && old(pf.freePageCount) == 0 ==> r == old(size) && size == old(size) + 4096 && pf.freePageCount == 0
  ensures [notfree] err == nil ==> forall k int {fq(*pf, k)} :: 0 <= k && k < pf.freePageCount ==> fq(*pf, k) != r
  ensures [content] err == nil ==> forall i int {disk[i]} :: r <= i && i < r + 4096 ==> disk[i] == (i - r < len(buf) ? old(elems(buf))[buf.off + i - r] : 0)
  ensures [others] err == nil ==> forall i int {disk[i]} :: i >= 4096 && !(r <= i && i < r + 4096) ==> disk[i] == old(disk)[i]
  ensures [rep] err == nil && size <= 4611686018427387904 ==> pfok(*pf, size) && hdr(*pf, disk)
  ensures [oversize] len(buf) > 4096 ==> err != nil
  ensures iofail <==> old(iofail) || (err != nil && len(buf) <= 4096)
  ensures pf.pageSize == 4096 && pf.ReadWriteSeeker == old(pf.ReadWriteSeeker)

// Freeing a page appends it to the queue.
func (*PageFile).FreePage(pf, offset) (err error)
  props C04, C19
  requires pfok(*pf, size) && hdr(*pf, disk) && offset < size && offset >= 0
  modifies *pf, disk, size, pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [refuse] old(offset % 4096 != 0 || pf.freePageCount == 512 || offset == 0 || (exists k int :: 0 <= k && k < pf.freePageCount && fq(*pf, k) == offset)) ==> err != nil && *pf == old(*pf) && disk == old(disk) && size == old(size)
  ensures [append] err == nil ==> pf.freePageCount == old(pf.freePageCount) + 1 && fq(*pf, old(pf.freePageCount)) == offset
  ensures [kept] err == nil ==> forall k int {fq(*pf, k)} :: 0 <= k && k < old(pf.freePageCount) ==> fq(*pf, k) == old(fq(*pf, k))
  ensures [rep] err == nil ==> pfok(*pf, size) && hdr(*pf, disk) && size == old(size)
  ensures forall i int {disk[i]} :: i < 0 || i >= 4096 ==> disk[i] == old(disk)[i]
  loop 0
    modifies nothing
    invariant forall j int {pf.freePageIndexes[j]} :: 0 <= j && j < $i ==> pf.freePageIndexes[j] != offset

// Opening a store restores the queue from the header page, in order.
func NewPageFile(rws) (r *PageFile, err error)
  props C04, C19
  requires rws != nil && size >= 0 && size <= 4611686018427387904
  modifies disk, size, pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [new] err == nil && old(size) == 0 ==> pfok(*r, size) && size == 4096 && r.freePageCount == 0 && hdr(*r, disk)
  ensures [kept] old(size) >= 4096 ==> disk == old(disk) && size == old(size)
  ensures [multiple] err == nil ==> size % 4096 == 0 && size >= 4096 && r.lastPage * 4096 == size && r.pageSize == 4096
  ensures [queue] err == nil && old(size) > 0 ==> disk == old(disk) && size == old(size) &&
       (forall k int {r.freePageIndexes[k]} :: 0 <= k && k < r.freePageCount ==> r.freePageIndexes[k] == wrap(int64, le8(disk, 8*k)) && r.freePageIndexes[k] != 0)
       && (r.freePageCount < 512 ==> wrap(int64, le8(disk, 8*r.freePageCount)) == 0) && 0 <= r.freePageCount && r.freePageCount <= 512
       && r.freePageHead == r.freePageCount % 512
       && (forall k int {r.freePageIndexes[k]} :: r.freePageCount <= k && k < 512 ==> r.freePageIndexes[k] == 0)
  ensures err == nil ==> fresh(r)
  loop 0
    modifies *pf
    invariant [idx] 0 <= i && i <= 512 && pf.freePageCount == i && pf.freePageHead == i % 512
    invariant forall k int {pf.freePageIndexes[k]} :: 0 <= k && k < 512 ==> pf.freePageIndexes[k] == (k < i ? wrap(int64, le8(elems(buf), 8*k)) : 0)
    invariant forall k int {pf.freePageIndexes[k]} :: 0 <= k && k < i ==> pf.freePageIndexes[k] != 0
    invariant pf.pageSize == 4096 && pf.slotSize == 256 && pf.ReadWriteSeeker == rws && pf.lastPage == 0

// A queue written by one instance is the queue loaded by the next.
lemma reopen(a, b PageFile, d [int]int, size int)
  props C04
  requires pfok(a, size) && hdr(a, d)
  requires 0 <= b.freePageCount && b.freePageCount <= 512 && b.freePageHead == b.freePageCount % 512
  requires forall k int {b.freePageIndexes[k]} :: 0 <= k && k < b.freePageCount ==> b.freePageIndexes[k] == wrap(int64, le8(d, 8*k)) && b.freePageIndexes[k] != 0
  requires b.freePageCount < 512 ==> wrap(int64, le8(d, 8*b.freePageCount)) == 0
  mention b.freePageIndexes[a.freePageCount]
  mention d[8 * a.freePageCount]
  mention d[8 * b.freePageCount]
  mention a.freePageIndexes[(a.freePageHead - a.freePageCount + b.freePageCount + 512) % 512]
  ensures [len] b.freePageCount == a.freePageCount
  ensures [order] forall k int {fq(b, k)} :: 0 <= k && k < a.freePageCount ==> fq(b, k) == fq(a, k)

// Pages in use: inside the store, not the header page, not in the free queue
// (whose n elements are q[0], ..., q[n-1], that is fq(pf, 0), ..., fq(pf, n-1)).
fn inuse(q [int]int, n, size, p int) bool = 4096 <= p && p < size && p % 4096 == 0 && (forall k int {q[k]} :: 0 <= k && k < n ==> q[k] != p)
// NewPage, seen from outside, takes a page that was not in use and puts it to use:
// the interface contract in 21_pager.spec with used(p) = inuse(q, n, size, p).
lemma pager_refines(qa, qb [int]int, na, nb, sa, sb, r, p int)
  props C04
  requires na >= 0 && r >= 4096 && r % 4096 == 0 && r + 4096 <= sb && sa % 4096 == 0
  requires na > 0 ==> r == qa[0] && sb == sa && nb == na - 1
  requires na > 0 ==> forall k int {qb[k]} :: 0 <= k && k < nb ==> qb[k] == qa[k + 1]
  requires na == 0 ==> r == sa && sb == sa + 4096 && nb == 0
  requires forall k int {qb[k]} :: 0 <= k && k < nb ==> qb[k] != r
  mention qa[0]
  assert na > 0 ==> forall k int {qa[k]} :: 1 <= k && k < na ==> qb[k - 1] == qa[k]
  ensures [unused] !inuse(qa, na, sa, r)
  ensures [used] inuse(qb, nb, sb, r)
  ensures [grows] p != r ==> (inuse(qa, na, sa, p) <==> inuse(qb, nb, sb, p))
