package linkedpage
global pointerBytes == 8 && countByte == 1 && errNotAPage != nil
func init()
  props C05
  model init
  ensures [sizes] pointerBytes == 8 && countByte == 1 && errNotAPage != nil
// Slot i of the page at p: root pointer (12 bytes), metadata length (1), metadata.
fn slot(p, i int) int = p + 9 + i * 265
fn lpok(m LinkedPage) bool = m.rws != 0 && m.offset >= 4096 && m.offset < 4611686018427387904 && m.offset % 4096 == 0 && (m.index <= 14 || m.index == 255)

func (*LinkedPage).rootMemoryPointerPageOffset(m) (r int)
  requires lpok(*m) && m.index != 255
  ensures r == slot(m.offset, m.index)

func (*LinkedPage).Root(m) (r pointer.MemoryPointer, err error)
  props C05, C19
  requires lpok(*m)
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [header] m.index == 255 ==> err != nil
  ensures [read] err == nil ==> r.Offset == le8(disk, slot(m.offset, m.index)) && r.Length == le4(disk, slot(m.offset, m.index) + 8)

func (*LinkedPage).SetRoot(m, mp) (err error)
  props C05, C19
  requires lpok(*m) && m.offset + 4096 <= size
  modifies disk, size, pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [header] m.index == 255 ==> err != nil && disk == old(disk)
  ensures [written] err == nil ==> le8(disk, slot(m.offset, m.index)) == mp.Offset && le4(disk, slot(m.offset, m.index) + 8) == mp.Length
  ensures [frame] m.index != 255 ==> forall i int {disk[i]} :: i < slot(m.offset, m.index) || i >= slot(m.offset, m.index) + 12 ==> disk[i] == old(disk)[i]
  ensures err == nil ==> size == old(size)
  ensures size >= old(size)

// The same two against the interface's contract (21_pager.spec) with mpos = slot.
func (*LinkedPage).Root(m) (r pointer.MemoryPointer, err error)
  aspect slot
  props C05, C07, C08
  requires lpok(*m) && m.index != 255
  modifies pos, iofail
  ensures err == nil ==> r.Offset == le8(disk, slot(m.offset, m.index)) && r.Length == le4(disk, slot(m.offset, m.index) + 8)
  ensures err == nil ==> (iofail <==> old(iofail))
func (*LinkedPage).SetRoot(m, mp) (err error)
  aspect slot
  props C05, C07
  requires lpok(*m) && m.index != 255 && slot(m.offset, m.index) + 12 <= size
  modifies disk, size, pos, iofail
  ensures err == nil ==> le8(disk, slot(m.offset, m.index)) == mp.Offset && le4(disk, slot(m.offset, m.index) + 8) == mp.Length && size == old(size)
  ensures forall i int {disk[i]} :: i < slot(m.offset, m.index) || i >= slot(m.offset, m.index) + 12 ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures err == nil ==> (iofail <==> old(iofail))

func (*LinkedPage).Metadata(m) (r, err error)
  props C05, C19
  requires lpok(*m) && m.offset + 4096 <= size
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [header] m.index == 255 ==> err != nil
  ensures [length] err == nil ==> len(r) == disk[slot(m.offset, m.index) + 12] && 0 <= len(r) && len(r) <= 255
  ensures [bytes] err == nil ==> bs(r) == mkbs(disk, slot(m.offset, m.index) + 13, disk[slot(m.offset, m.index) + 12])

// Metadata of 253 to 255 bytes is accepted although it reaches into the next slot's
// root pointer: known finding metadata-overlap. The contract covers the rest.
func (*LinkedPage).SetMetadata(m, data) (err error)
  props C05, C19
  requires lpok(*m) && m.offset + 4096 <= size && (len(data) <= 252 || len(data) >= 256)
  modifies disk, size, pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [header] m.index == 255 ==> err != nil && disk == old(disk)
  ensures [fits] len(data) > 252 ==> err != nil && disk == old(disk)
  ensures [length] err == nil ==> disk[slot(m.offset, m.index) + 12] == len(data)
  ensures [bytes] err == nil ==> mkbs(disk, slot(m.offset, m.index) + 13, len(data)) == old(bs(data))
  ensures [frame] m.index != 255 ==> forall i int {disk[i]} :: i < slot(m.offset, m.index) + 12 || i >= slot(m.offset, m.index) + 13 + min(len(data), 252) ==> disk[i] == old(disk)[i]
  ensures err == nil ==> size == old(size)
  ensures size >= old(size)

// Whatever is written to one slot, another slot reads as before.
lemma slot_isolation(D, E [int]int, p, i, q, j int)
  props C05
  requires p % 4096 == 0 && q % 4096 == 0 && 0 <= i && i <= 14 && 0 <= j && j <= 14 && (p != q || i != j)
  requires forall k int {E[k]} :: k < slot(p, i) || k >= slot(p, i) + 265 ==> E[k] == D[k]
  requires 0 <= D[slot(q, j) + 12] && D[slot(q, j) + 12] <= 252
  let s = slot(q, j)
  assert forall k int {E[k]} :: s <= k && k < s + 265 ==> E[k] == D[k]
  ensures [root] le8(E, s) == le8(D, s) && le4(E, s + 8) == le4(D, s + 8)
  ensures [metadata] E[s + 12] == D[s + 12] && mkbs(E, s + 13, E[s + 12]) == mkbs(D, s + 13, D[s + 12])
  ensures [list] le8(E, q) == le8(D, q) && E[q + 8] == D[q + 8]
// ... and the two fields of one slot do not disturb each other.
lemma field_isolation_root(D, E [int]int, p, i int)
  props C05
  requires forall k int {E[k]} :: k < slot(p, i) || k >= slot(p, i) + 12 ==> E[k] == D[k]
  requires 0 <= D[slot(p, i) + 12] && D[slot(p, i) + 12] <= 252
  let s = slot(p, i)
  ensures E[s + 12] == D[s + 12] && mkbs(E, s + 13, E[s + 12]) == mkbs(D, s + 13, D[s + 12])
lemma field_isolation_metadata(D, E [int]int, p, i int)
  props C05
  requires forall k int {E[k]} :: k < slot(p, i) + 12 ==> E[k] == D[k]
  let s = slot(p, i)
  ensures le8(E, s) == le8(D, s) && le4(E, s + 8) == le4(D, s + 8)
