package pagefile
// What users of the page file through its interface rely on. PageFile is the only
// implementation; lemma pager_refines derives this from PageFile.NewPage's contract.
ghost used [int]bool     // pages in use: allocated and not free

extern (pagefile.ReadWriteSeekPager).PageSize(self) (r int)
  ensures r == 4096
extern (pagefile.ReadWriteSeekPager).SlotSize(self) (r int)
  ensures r == 256
extern (pagefile.ReadWriteSeekPager).Page(self, i) (r int, err error)
  requires i < 1099511627776
  ensures err == nil <==> i >= 0
  ensures err == nil ==> r == (i + 1) * 4096
extern (pagefile.ReadWriteSeekPager).NewPage(self, buf) (r int, err error)
  modifies disk, size, pos, iofail, used
  ensures err == nil ==> r >= 4096 && r % 4096 == 0 && r + 4096 <= size && pos == r && !old(used)[r] && used == old(used)[r <- true] && size <= 4611686018427387904
  ensures err == nil ==> forall i int {disk[i]} :: r <= i && i < r + 4096 ==> disk[i] == (i - r < len(buf) ? old(elems(buf))[buf.off + i - r] : 0)
  ensures err == nil ==> forall i int {disk[i]} :: i >= 4096 && !(r <= i && i < r + 4096) ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures len(buf) > 4096 ==> err != nil
  ensures iofail <==> old(iofail) || (err != nil && len(buf) <= 4096)
  ensures err != nil ==> forall i int {disk[i]} :: i >= 4096 && used[i - i % 4096] ==> disk[i] == old(disk)[i]
package metapage
// The page that keeps the root pointer of a tree. linkedpage.LinkedPage is the only
// implementation in the library (its contracts: 33_linkedpage.spec, mpos = slot).
fn mpos(self int) int
fn mpg(self int) int = mpos(self) - mpos(self) % 4096
extern (metapage.MetaPage).Root(self) (r pointer.MemoryPointer, err error)
  modifies pos, iofail
  ensures err == nil ==> r.Offset == le8(disk, mpos(self)) && r.Length == le4(disk, mpos(self) + 8)
  ensures err == nil ==> (iofail <==> old(iofail))
extern (metapage.MetaPage).SetRoot(self, mp) (err error)
  requires mpos(self) + 12 <= size
  modifies disk, size, pos, iofail
  ensures err == nil ==> le8(disk, mpos(self)) == mp.Offset && le4(disk, mpos(self) + 8) == mp.Length && size == old(size)
  ensures forall i int {disk[i]} :: i < mpos(self) || i >= mpos(self) + 12 ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures err == nil ==> (iofail <==> old(iofail))
